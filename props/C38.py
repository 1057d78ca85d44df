"""C38: stream recorder - flush and shutdown tell the truth, wake their callers, and the recording thread outlives nothing."""
import re
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['a mutex excludes and a condition variable wakes those waiting on it when notified; the clock never goes back', 'timeouts and the time of the clock stay below 2^61 ns', 'allocation succeeds when the recorder is rebuilt after a fork (those functions do not throw)', 'libevent calls a callback that was added and does not fail to remove an event', 'counts of spans stay below 2^60', 'a fork happens while no other thread uses the recorder (documented in fork_aware_recorder.h)', 'logging does not throw', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)']
TRUSTED = ['pthread mutexes, condition variables, std::thread, libevent', 'SatelliteStreamer and its connections (proved as C36, C37), CircularBuffer (C01), MetricsTracker (C11), option structures: by contract only']
S = 'src/recorder/stream_recorder/'
SRC = ['harness/stream_recorder.cpp', S + 'stream_recorder.cpp', S + 'stream_recorder_impl.cpp', 'src/recorder/fork_aware_recorder.cpp', 'src/network/event.cpp', 'src/network/event_base.cpp', 'src/network/timer_event.cpp', 'src/common/utility.cpp', 'src/common/platform/fork_unix.cpp']
I, T, F, Z = z3.IntSort(), z3.BoolVal(True), z3.BoolVal(False), z3.IntVal
R, P = 'lightstep::StreamRecorder', 'lightstep::StreamRecorderImpl'
MEM = ('logger_', 'tracer_options_', 'recorder_options_', 'metrics_', 'span_buffer_', 'exit_', 'flush_mutex_', 'flush_condition_variable_', 'pending_flush_counter_', 'num_spans_consumed_', 'shutdown_mutex_', 'shutdown_condition_variable_', 'shutdown_counter_', 'last_is_active_', 'stream_recorder_impl_')
IMPL = ('stream_recorder_', 'event_base_', 'early_flush_marker_', 'poll_timer_', 'timestamp_delta_timer_', 'flush_timer_', 'streamer_', 'thread_')
LOCKS = {'flush': ('flush_mutex_', 'flush_condition_variable_', 'num_spans_consumed_', 64), 'shutdown': ('shutdown_mutex_', 'shutdown_condition_variable_', 'last_is_active_', 8)}


def prepare(ctx): ctx.protos()


class World:
    """a recorder, its implementation, and the threads around it. The mutexes guard num_spans_consumed_ and last_is_active_;
    role 'caller': someone else changes them whenever their mutex is free; role 'poll': nobody else does"""
    def __init__(s, ctx, name, role='caller', extra=()):
        s.role = role; s.m = ctx.module(SRC); s.st = st = State(); H = ['recorder/stream_recorder/stream_recorder.h']
        s.O = ctx.offsets(H, {**{k: (R, k) for k in MEM}, **{'i.' + k: (P, k) for k in IMPL}, 'i.exit_': (P, 'exit_'), 'i.delta': (P, 'timestamp_delta_'), 'tv': ('lightstep::TimerEvent', 'tv_'), 'ev': ('lightstep::TimerEvent', 'event_'),
                             'reporting': ('lightstep::LightStepTracerOptions', 'reporting_period'), 'observer': ('lightstep::LightStepTracerOptions', 'metrics_observer'), **{'o.' + k: ('lightstep::StreamRecorderOptions', k) for k in ('throw_away_spans', 'polling_period', 'timestamp_delta_period')}}, {'R': R, 'P': P})
        L = lambda p: rx(r'^(void |bool |long )?lightstep::' + p); B = r'CircularBuffer<lightstep::ChainedStream>::'
        s.e = e = Engine(s.m, name=name, on_atomic=s.before, after_atomic=s.after, contracts=list(extra) + [
            (L('Logger::'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.text, 0))]), (rx(r'^std::runtime_error::runtime_error\('), lambda g, st, a, i: (g.store(st, a[0], ir.PTR, Ptr(g.gobj('_ZTV7VfError'), 16)), [(st, None)])[1]), (rx(r'^std::runtime_error::~runtime_error'), noop),
            ('pthread_mutex_lock', s.lock), ('pthread_mutex_unlock', s.unlock), ('pthread_cond_clockwait', s.wait), ('pthread_cond_timedwait', s.wait), (rx(r'^std::condition_variable::wait\('), s.wait0),
            (rx(r'^std::chrono::_V2::(steady|system)_clock::now\(\)'), s.clock), (rx(r'^std::condition_variable::notify_all\(\)'), s.notify), (rx(r'^std::condition_variable::notify_one\(\)'), noop), (rx(r'^std::condition_variable::(~condition_variable|condition_variable)\('), s.cv),
            (L(B + r'production_count\('), s.produced), (L(B + r'consumption_count\('), s.consumed), (L(B + r'size\('), s.size), (L(B + r'Clear\('), s.clear), (L(B + r'~?CircularBuffer\('), s.part), (L(B + r'empty\('), lambda g, st, a, i: [(st, z3.FreshBool('empty'))]),
            (L(r'SatelliteStreamer::InitiateShutdown\('), s.initiate), (L(r'SatelliteStreamer::is_active\('), s.active), (L(r'SatelliteStreamer::Flush\('), s.sflush), (L(r'SatelliteStreamer::(~)?SatelliteStreamer\('), s.streamer),
            (L(r'MetricsTracker::ConsumeDroppedSpans\('), s.drops), (L(r'MetricsTracker::OnFlush\('), s.onflush), (L(r'(LightStepTracerOptions|StreamRecorderOptions|NetworkEnvironment|Recorder|MetricsTracker)::~?\w+\('), s.part), (L(r'ComputeSystemSteadyTimestampDelta\('), s.delta), (L(r'DynamicConfigurationValue<unsigned long>::value\('), lambda g, st, a, i: [(st, IV(64, u=s.max))]),
            ('event_new', s.event_new), ('event_add', s.event_add), ('event_del', s.event_del), ('event_free', s.event_free), ('event_base_new', s.base_new), ('event_base_free', s.base_free), ('event_base_dispatch', s.dispatch), ('event_base_loopbreak', s.loopbreak),
            (rx(r'^std::thread::_M_start_thread\('), s.startthread), (rx(r'^std::thread::join\('), s.join), (rx(r'^std::thread::detach\('), s.detach), (rx(r'^std::thread::_State::~?_State'), noop), (rx(r'^std::terminate\('), s.terminate), (rx(r'^std::__throw_system_error'), s.terminate), (rx(r'^(std::basic_ostream.*operator<<|std::ostream::operator<<)'), lambda g, st, a, i: [(st, a[0])]), (rx(r'^operator delete\('), s.deleted)] + textio())
        e.cur = st; e.total = 'try'; e.candidates = int_candidates([], extra=s.cand)
        o = lambda n, k, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.rec = o('recorder', s.O['R']); s.impl = o('implementation', s.O['P'], heap=True); s.text, s.logger, s.lbase = o('text', 8), o('logger', 8), o('libevent base', 8)
        s.rec.shared = lambda off: False
        s.max = z3.Int('max buffered'); st.assume(z3.And(s.max >= 0, s.max < 2 ** 40))
        s.C0, s.S0, s.Q0, s.now0, s.P0 = z3.Ints('consumed shutdown_requests flush_requests now produced'); s.A0, s.X0, s.act0, s.act1 = z3.Bools('was_active exiting active active_after'); s.dec = {}
        st.assume(z3.And(*[z3.And(x >= 0, x < 2 ** 60) for x in (s.C0, s.now0, s.P0)], *[z3.And(x >= 0, x < 2 ** 30) for x in (s.S0, s.Q0)], z3.Implies(s.act1, s.act0)))
        s.put(st, 'logger_', Ptr(s.logger, 0), ptr=True); s.put(st, 'num_spans_consumed_', s.C0); s.put(st, 'last_is_active_', s.b(s.A0), 8); s.put(st, 'exit_', s.b(s.X0), 8); s.put(st, 'pending_flush_counter_', s.Q0, 32); s.put(st, 'shutdown_counter_', s.S0, 32); s.put(st, 'stream_recorder_impl_', Ptr(s.impl, 0), ptr=True)
        s.throwaway = z3.Bool('throw_away'); e.store(st, Ptr(s.rec, s.O['recorder_options_'] + s.O['o.throw_away_spans']), ir.INT(8), IV(8, u=s.b(s.throwaway))); s.per = {}
        for k in ('polling_period', 'timestamp_delta_period'): s.per[k] = z3.Int(k); e.store(st, Ptr(s.rec, s.O['recorder_options_'] + s.O['o.' + k]), ir.INT(64), IV(64, s=s.per[k], u=s.per[k]))
        s.per['reporting'] = z3.Int('reporting_period'); e.store(st, Ptr(s.rec, s.O['tracer_options_'] + s.O['reporting']), ir.INT(64), IV(64, s=s.per['reporting'] , u=s.per['reporting']))
        for k in s.per: st.assume(z3.And(s.per[k] >= 0, s.per[k] < 2 ** 60))
        st.ghost.update(held=(), was=(), now=s.now0, first=Z(-1), P=s.P0, lastP=Z(-1), exited=s.X0, asked=(F, F), taken=F, inits=Z(0), seen={}, act=s.act0, E={}, base='none', thread='none', flushed=(), cleared=0, drops=0, notes=(), delivered=Z(0), gone=(), made=(), lb=0, delta=(), waited=Z(0), flushreq=Z(0), size=Z(-1), on=0, polls=0, exitstored=False, lockedafter=())
        s.pub(st)

    # ---- values
    def b(s, f): return z3.If(f, Z(1), Z(0))
    def at(s, k): return Ptr(s.rec, s.O[k])
    def put(s, st, k, v, w=64, ptr=False): s.e.store(st, s.at(k), ir.PTR if ptr else ir.INT(w), v if ptr else IV(w, u=v, s=v))
    def get(s, st, k, w=64): return z3.simplify(zi(s.e.dom.u(s.e.as_int(s.e.load(st, s.at(k), ir.INT(w))))))
    def C(s, st): return s.get(st, 'num_spans_consumed_')
    def A(s, st): return s.get(st, 'last_is_active_', 8) != 0
    def si(s, x): return zi(s.e.dom.s(s.e.as_int(x)))
    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    def isat(s, p, k): return s.e.ptr_eq(p, s.at(k))
    def which(s, p, j):
        """which lock's j-th part is this (mutex, condition variable)"""
        for k, v in LOCKS.items():
            if s.e.oracle(s.isat(p, v[j])) is True: return k
        return None
    def fails(s, st): t = st.clone(); return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception'), 0)))

    # ---- locks
    def pub(s, st, k=None):
        for n, v in LOCKS.items():
            if k in (None, n): st.gset('pub ' + n, s.get(st, v[2], v[3]))
    def unchanged(s, st, k, what):
        """what the lock guards was not changed since it was last free"""
        s.e.prove(st, s.get(st, LOCKS[k][2], LOCKS[k][3]) == st.ghost['pub ' + k], what)
    def others(s, st, k):
        """whatever other threads do to what lock k guards, while it is free"""
        if s.role != 'caller': return
        v = LOCKS[k]; old = st.ghost['pub ' + k]; n = z3.FreshInt(v[2]); st.assume(z3.And(n >= old, n < 2 ** 60) if k == 'flush' else z3.And(n >= 0, n <= old)); s.put(st, v[2], n, v[3]); s.pub(st, k)
    def lock(s, g, st, a, i):
        k = s.which(a[0], 0)
        if k is None: g.prove(st, g.ptr_eq(a[0], s.other) if getattr(s, 'other', None) is not None else F, 'lock: a mutex of the recorder'); k = 'other'
        g.prove(st, k not in st.ghost['held'], 'lock: not taken twice'); st.ghost['held'] += (k,)
        if k != 'other': s.unchanged(st, k, 'lock: what it guards is changed only under it'); s.others(st, k)
        if st.ghost['exitstored']: st.ghost['lockedafter'] += (k,)
        return [(st, g.dom.const(32, 0))]
    def unlock(s, g, st, a, i):
        k = s.which(a[0], 0) or 'other'; g.prove(st, k in st.ghost['held'], 'lock: released once'); st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != k)
        if k != 'other': s.pub(st, k)
        return [(st, g.dom.const(32, 0))]
    def notify(s, g, st, a, i):
        k = s.which(a[0], 1); g.prove(st, k is not None, 'notify: a condition variable of the recorder')
        if k: st.ghost['seen'] = {**st.ghost['seen'], k: s.get(st, LOCKS[k][2], LOCKS[k][3])}; st.ghost['notes'] += ((k, st.ghost['exitstored'] and k in st.ghost['lockedafter']),)
        return [(st, None)]
    def cv(s, g, st, a, i): s.gone(st, 'condition variable'); return [(st, None)]
    def clock(s, g, st, a, i):
        n = z3.FreshInt('now'); st.assume(z3.And(n >= st.ghost['now'], n < 2 ** 61)); st.gset('now', n); st.gset('first', z3.If(st.ghost['first'] < 0, n, st.ghost['first'])); return [(st, IV(64, s=n, u=n))]
    def wait(s, g, st, a, i):
        cond, mutex = a[0], a[1]; ts = a[3] if len(a) == 4 else a[2]; k = s.which(cond, 1); G = st.ghost
        g.prove(st, len(a) == 4 and g.oracle(s.u(a[2]) == 1) is True, 'wait: by the clock that was read')
        sec, ns = (s.si(g.load(st, Ptr(ts.obj, g.dom.off_add(ts.off, j)), ir.INT(64))) for j in (0, 8)); deadline = sec * 10 ** 9 + ns
        g.prove(st, z3.And(ns >= 0, ns < 10 ** 9), 'wait: a time'); g.prove(st, z3.And(deadline <= G['first'] + s.timeout, G['first'] >= 0), 'wait: no longer than the timeout')
        return s.sleep(g, st, k, mutex, deadline)
    def wait0(s, g, st, a, i): g.prove(st, F, 'wait: no longer than the timeout'); return [(st, None)]
    def sleep(s, g, st, k, mutex, deadline):
        G = st.ghost; g.prove(st, b_and(k is not None and G['held'] == (k,), s.which(mutex, 0) == k), 'wait: with its own mutex, and no other'); g.prove(st, zb(G['asked'][0 if k == 'flush' else 1]), 'wait: only after asking for it'); out = []
        s.unchanged(st, k, 'lock: what it guards is changed only under it') if k else None
        g.prove(st, z3.Not(zb(G['exited'])), 'wait: not once the recorder is ending'); g.prove(st, s.C(st) < G['lastP'] if k == 'flush' else s.A(st), 'wait: only for what has not happened yet')
        if k: s.others(st, k)
        st.gset('waited', st.ghost['waited'] + 1)
        for rc in (0, 110):
            t = st.clone(); n = z3.FreshInt('now'); t.assume(z3.And(n >= t.ghost['now'], n < 2 ** 61)); t.gset('now', n); x = z3.FreshBool('exiting'); t.assume(z3.Implies(t.ghost['exited'], x)); t.gset('exited', x); s.put(t, 'exit_', s.b(x), 8)
            if rc: t.assume(n >= deadline)
            out.append((t, IV(32, s=Z(rc))))
        return out

    # ---- atomics
    def atomic(s, p):
        p = s.e.norm_ptr(p)
        for k in ('exit_', 'pending_flush_counter_', 'shutdown_counter_'):
            if p.obj is s.rec and s.e.oracle(s.e.ptr_eq(p, s.at(k))) is True: return k
        if p.obj is s.impl: return 'i'
        return None
    def before(s, g, st, ins, p):
        """others: the recorder may be told to exit; requests may come (and, for a caller, be taken)"""
        k = s.atomic(p)
        if k == 'exit_' and s.role == 'caller': x = z3.FreshBool('exiting'); st.assume(z3.Implies(st.ghost['exited'], x)); st.gset('exited', x); s.put(st, 'exit_', s.b(x), 8)
        if k in ('pending_flush_counter_', 'shutdown_counter_') and s.role != 'owner':
            v = z3.FreshInt('requests'); st.assume(z3.And(v >= (s.get(st, k, 32) if s.role == 'poll' else 0), v < 2 ** 31 - 1)); s.put(st, k, v, 32)
        if k == 'i' and s.e.oracle(s.e.ptr_eq(p, Ptr(s.impl, s.O['i.exit_']))) is True and hasattr(s, 'readd'): x = z3.FreshBool('ending'); st.assume(z3.Implies(zb(st.ghost.get('impl exit', F)), x)); st.gset('impl exit', x); s.e.store(st, Ptr(s.impl, s.O['i.exit_']), ir.INT(8), IV(8, u=s.b(x)))
        return None
    def after(s, g, pre, st, ins, p, kind, old, new):
        k = s.atomic(p)
        if k == 'exit_' and kind != 'load': g.prove(st, zi(s.u(new)) != 0, 'exit: stays'); st.ghost['exitstored'] = True; st.ghost['lockedafter'] = st.ghost['held']
        if k in ('pending_flush_counter_', 'shutdown_counter_') and kind != 'load':
            n, o = s.si(new), s.si(old) if old is not None else Z(0); j = 0 if k[0] == 'p' else 1
            if s.role == 'caller': g.prove(st, n > 0, 'request: none is lost'); a = list(st.ghost['asked']); a[j] = T; st.ghost['asked'] = tuple(a)
            elif s.role == 'poll':
                g.prove(st, kind != 'store', 'request: none is lost between looking and taking it')
                if j == 1: st.gset('taken', z3.Or(zb(st.ghost['taken']), z3.And(o > 0, n == 0))); g.prove(st, z3.Or(n == 0, n == o), 'request: taken as a whole')
                else: st.gset('flushreq', z3.If(o > st.ghost['flushreq'], o, st.ghost['flushreq'])); g.prove(st, z3.Or(n == 0, n == o), 'request: taken as a whole')

    # ---- the span buffer and the streamer
    def buffer(s, st, p): s.e.prove(st, s.isat(p, 'span_buffer_'), 'the recorder\'s own buffer')
    def produced(s, g, st, a, i): s.buffer(st, a[0]); n = z3.FreshInt('produced'); st.assume(z3.And(n >= st.ghost['P'], n < 2 ** 60)); st.gset('P', n); st.gset('lastP', n); return [(st, IV(64, s=n, u=n))]
    def consumed(s, g, st, a, i):
        s.buffer(st, a[0]); n = z3.FreshInt('consumed'); d = st.ghost['delivered']; st.assume(z3.And(n >= d, n >= s.C0, n < 2 ** 60)) if s.role == 'caller' else st.assume(n == d); return [(st, IV(64, s=n, u=n))]
    def size(s, g, st, a, i): s.buffer(st, a[0]); n = z3.FreshInt('size'); st.assume(z3.And(n >= 0, n < 2 ** 60)); st.gset('size', n); return [(st, IV(64, s=n, u=n))]
    def clear(s, g, st, a, i): s.buffer(st, a[0]); st.ghost['cleared'] += 1; st.ghost['flushed'] += ('clear',); return [(st, None)]
    def drops(s, g, st, a, i): g.prove(st, s.isat(a[0], 'metrics_'), 'the recorder\'s own metrics'); st.ghost['drops'] += 1; return [(st, IV(32, u=z3.FreshInt('dropped')))]
    def onflush(s, g, st, a, i): g.prove(st, s.isat(a[0], 'metrics_'), 'the recorder\'s own metrics'); st.ghost['on'] += 1; return [(st, None)]
    def mine(s, st, p): s.e.prove(st, s.e.ptr_eq(p, Ptr(s.impl, s.O['i.streamer_'])), 'the streamer of the implementation given')
    def initiate(s, g, st, a, i): s.mine(st, a[0]); st.gset('inits', st.ghost['inits'] + 1); st.gset('act', z3.And(zb(st.ghost['act']), s.act1)); return [(st, None)]
    def active(s, g, st, a, i): s.mine(st, a[0]); return [(st, zb(st.ghost['act']))]
    def sflush(s, g, st, a, i): s.mine(st, a[0]); st.ghost['flushed'] += ('stream',); return [(st, None)]
    def streamer(s, g, st, a, i):
        s.mine(st, a[0])
        if len(a) > 1:
            ok = b_and(*[s.e.ptr_eq(x, y) for x, y in zip(a[1:], (Ptr(s.logger, 0), Ptr(s.impl, s.O['i.event_base_']), s.at('tracer_options_'), s.at('recorder_options_'), s.at('metrics_'), s.at('span_buffer_')))]); g.prove(st, ok, 'constructor: streams the recorder\'s spans'); t = s.fails(st); st.ghost['made'] += ('streamer',); return [(st, None), t]
        g.prove(st, st.ghost['thread'] != 'running', 'destroyed only when the thread has ended'); st.ghost['made'] = tuple(x for x in st.ghost['made'] if x != 'streamer'); return [(st, None)]
    def delta(s, g, st, a, i): v = z3.FreshInt('delta'); st.assume(z3.And(v > -2 ** 60, v < 2 ** 60)); st.ghost['delta'] += (v,); return [(st, IV(64, s=v))]

    # ---- parts of the recorder
    def part(s, g, st, a, i):
        s.gone(st, 'part'); return [(st, None)] if '~' in str(i.get('callee', '')) or True else None
    def gone(s, st, what):
        if s.role == 'owner': s.e.prove(st, s.e.norm_ptr(s.e.load(st, s.at('stream_recorder_impl_'), ir.PTR)).obj is None or 'impl' in st.ghost['gone'], 'destructor: the recording thread ends before anything it uses')
    def base_dtor(s, g, st, a, i): s.gone(st, 'list'); st.ghost['gone'] += ('list',); return [(st, None)]
    def deleted(s, g, st, a, i): return [(st, None)]

    # ---- libevent and the thread
    def us(s, st, tv):
        tv = s.e.norm_ptr(tv)
        if tv.obj is None: return None
        sec, usec = (s.si(s.e.load(st, Ptr(tv.obj, s.e.dom.off_add(tv.off, k)), ir.INT(64))) for k in (0, 8)); s.e.prove(st, z3.And(usec >= 0, usec < 10 ** 6, sec >= 0), 'timer: a time'); return sec * 10 ** 6 + usec
    def mod(s, st, o, **kw): E = dict(st.ghost['E']); E[o.id] = {**E[o.id], **kw}; st.ghost['E'] = E
    def base_new(s, g, st, a, i): t = st.clone(); st.ghost['base'] = 'open'; return [(st, Ptr(s.lbase, 0)), (t, NULL)]
    def base_free(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.lbase, 0)), 'event loop: its own'); g.prove(st, st.ghost['base'] == 'open' and st.ghost['thread'] != 'running', 'event loop: freed once, after the thread has ended'); g.prove(st, all(x['freed'] for x in st.ghost['E'].values()), 'event loop: outlives its events'); st.ghost['base'] = 'freed'; return [(st, None)]
    def event_new(s, g, st, a, i):
        base, fd, what, cb, c = a; g.prove(st, g.ptr_eq(base, Ptr(s.lbase, 0)), 'timer: in the event loop'); t = st.clone(); o = g.new_obj(st, 'event', kind='struct', size=8); f = g.norm_ptr(cb); ok = f.obj is not None and f.obj.kind == 'func'; g.prove(st, b_and(ok, g.ptr_eq(c, Ptr(s.impl, 0))), 'timer: calls the implementation')
        st.ghost['E'] = {**st.ghost['E'], o.id: dict(fd=s.si(fd), what=z3.simplify(s.u(what)), cb=f.obj.fname if ok else None, armed=F, tv=None, freed=False, obj=o)}; return [(st, Ptr(o, 0)), (t, NULL)]
    def ev(s, st, p, why):
        o = s.e.norm_ptr(p).obj; ok = o is not None and o.id in st.ghost['E'] and not st.ghost['E'][o.id]['freed']; s.e.prove(st, ok, 'timer: %s only while it exists' % why); return o if ok else None
    def event_add(s, g, st, a, i):
        o = s.ev(st, a[0], 'added')
        if o is None: return [(st, IV(32, s=Z(0)))]
        t = st.clone(); s.mod(st, o, armed=T, tv=s.us(st, a[1])); return [(st, IV(32, s=Z(0)))] + ([(t, IV(32, s=Z(-1)))] if not getattr(s, 'readd', False) else [])
    def event_del(s, g, st, a, i):
        o = s.ev(st, a[0], 'removed')
        if o is not None: s.mod(st, o, armed=F)
        return [(st, IV(32, s=Z(0)))]
    def event_free(s, g, st, a, i):
        o = s.ev(st, a[0], 'freed')
        if o is not None: g = st.ghost['thread'] != 'running'; s.e.prove(st, g, 'destroyed only when the thread has ended'); s.mod(st, o, armed=F, freed=True)
        return [(st, None)]
    def loop(s, st, p, why): s.e.prove(st, b_and(s.e.ptr_eq(p, Ptr(s.lbase, 0))), 'event loop: %s its own' % why)
    def dispatch(s, g, st, a, i): s.loop(st, a[0], 'runs'); st.ghost['lb'] += 1; t = st.clone(); return [(st, IV(32, s=Z(0))), (t, IV(32, s=Z(-1)))]
    def loopbreak(s, g, st, a, i): s.loop(st, a[0], 'ends'); st.ghost['lb'] += 1; st.ghost['flushed'] += ('break',); return [(st, IV(32, s=Z(0)))]
    def startthread(s, g, st, a, i):
        p = g.norm_ptr(g.load(st, a[1], ir.PTR)); g.prove(st, st.ghost['thread'] == 'none', 'constructor: one thread'); g.prove(st, all(zb(x['armed']).eq(T) for x in st.ghost['E'].values()) and 'streamer' in st.ghost['made'], 'constructor: the thread starts when all is ready'); t = s.fails(st)
        st.ghost['thread'] = 'running'; st.ghost['state'] = (p.obj.id if p.obj is not None else None, p); g.store(st, a[0], ir.INT(64), IV(64, u=Z(1))); return [(st, None), t]
    def join(s, g, st, a, i):
        x = z3.simplify(s.u(g.load(st, Ptr(s.impl, s.O['i.exit_']), ir.INT(8))))
        g.prove(st, g.ptr_eq(a[0], Ptr(s.impl, s.O['i.thread_'])), 'destructor: joins its thread'); g.prove(st, x != 0, 'destructor: tells the thread to end before waiting for it'); g.prove(st, st.ghost['thread'] == 'running', 'destructor: joins once'); st.ghost['thread'] = 'joined'; g.store(st, a[0], ir.INT(64), IV(64, u=Z(0))); return [(st, None)]
    def detach(s, g, st, a, i): g.prove(st, F, 'destructor: waits for the thread'); g.store(st, a[0], ir.INT(64), IV(64, u=Z(0))); return [(st, None)]
    def terminate(s, g, st, a, i): g.prove(st, F, 'the process is not terminated'); return []

    def cand(s, e, view):
        G = lambda w: w.st.ghost; E = lambda w: w.entry.ghost; X = lambda w: w.entry
        out = [('time goes on', lambda w: G(w)['now'] >= E(w)['now']), ('exit stays', lambda w: z3.Implies(zb(E(w)['exited']), zb(G(w)['exited']))), ('the clock was read', lambda w: G(w)['first'] == E(w)['first']), ('spans produced', lambda w: G(w)['lastP'] == E(w)['lastP'])]
        for k, v in LOCKS.items(): out += [('%s is what was made known' % v[2], lambda w, k=k, v=v: s.get(w.st, v[2], v[3]) == w.st.ghost['pub ' + k]), ('%s moves on' % v[2], lambda w, v=v, k=k: s.get(w.st, v[2], v[3]) >= s.get(X(w), v[2], v[3]) if k == 'flush' else s.get(w.st, v[2], v[3]) <= s.get(X(w), v[2], v[3]))]
        out += [('consumed is a count', lambda w: z3.And(s.C(w.st) >= 0, s.C(w.st) < 2 ** 60))]
        out += [('exit is what is known', lambda w: (s.get(w.st, 'exit_', 8) != 0) == zb(G(w)['exited']))]
        return out


def method(w, name, args, st=None):
    e = w.e; fn = [n for n in w.m.funcs if re.search(r'^lightstep::' + name, e.dem(n)) and not n.endswith('D0Ev')]
    if len(fn) != 1: raise Unsupported('%d functions match %s' % (len(fn), name))
    return e.run(fn[0], st or w.st, args)
def ends(w, outs, what):
    r = []
    for o in outs:
        w.e.cur = o
        if o.outcome[0] == 'throw': w.e.prove(o, False, what + ': does not throw')
        else: r.append(o)
    reachable(w.e, r); return r


def flush_wait(ctx):
    w = World(ctx, 'FlushWithTimeout'); e, st = w.e, w.st; w.timeout = z3.Int('timeout'); st.assume(z3.And(w.timeout >= 0, w.timeout < 2 ** 61))
    n = [0, 0]
    for o in ends(w, method(w, r'StreamRecorder::FlushWithTimeout\([^$]*$', [Ptr(w.rec, 0), IV(64, s=w.timeout)]), 'FlushWithTimeout'):
        r, G = zb(o.outcome[1]), o.ghost
        e.prove(o, not G['held'], 'FlushWithTimeout: no mutex is kept')
        e.prove(o, z3.Implies(r, G['pub flush'] >= w.P0), 'FlushWithTimeout: true only when every span from before was consumed')
        e.prove(o, z3.Implies(z3.Not(r), z3.And(G['pub flush'] < G['lastP'], G['lastP'] >= 0)), 'FlushWithTimeout: false only when some were not')
        e.prove(o, z3.Implies(z3.Not(r), z3.Or(zb(G['exited']), G['now'] >= G['first'] + w.timeout)), 'FlushWithTimeout: gives up only when time is over or the recorder ends')
        e.prove(o, z3.Implies(z3.Not(r), zb(G['asked'][0])), 'FlushWithTimeout: asks for a flush')
        e.prove(o, z3.Not(zb(G['asked'][1])), 'FlushWithTimeout: asks for nothing else')
    return e


def shutdown_wait(ctx):
    w = World(ctx, 'ShutdownWithTimeout'); e, st = w.e, w.st; w.timeout = z3.Int('timeout'); st.assume(z3.And(w.timeout >= 0, w.timeout < 2 ** 61))
    for o in ends(w, method(w, r'StreamRecorder::ShutdownWithTimeout\([^$]*$', [Ptr(w.rec, 0), IV(64, s=w.timeout)]), 'ShutdownWithTimeout'):
        r, G = zb(o.outcome[1]), o.ghost
        e.prove(o, not G['held'], 'ShutdownWithTimeout: no mutex is kept')
        e.prove(o, r == (G['pub shutdown'] == 0), 'ShutdownWithTimeout: true exactly when no connection is active')
        e.prove(o, z3.Implies(z3.Not(r), z3.Or(zb(G['exited']), G['now'] >= G['first'] + w.timeout)), 'ShutdownWithTimeout: gives up only when time is over or the recorder ends')
        e.prove(o, z3.Or(zb(G['asked'][1]), w.A0 == F), 'ShutdownWithTimeout: asks for a shutdown')
        e.prove(o, z3.Not(zb(G['asked'][0])), 'ShutdownWithTimeout: asks for nothing else')
    return e


def poll(ctx):
    w = World(ctx, 'Poll', 'poll'); e, st = w.e, w.st; D = z3.Int('delivered'); st.assume(z3.And(D >= w.C0, D < 2 ** 60)); st.gset('delivered', D)
    for o in ends(w, method(w, r'StreamRecorder::Poll\(', [Ptr(w.rec, 0), Ptr(w.impl, 0)]), 'Poll'):
        G = o.ghost; e.prove(o, not G['held'], 'Poll: no mutex is kept')
        for k in LOCKS: w.unchanged(o, k, 'lock: what it guards is changed only under it')
        e.prove(o, w.C(o) == D, 'Poll: what was consumed is made known')
        e.prove(o, z3.Or(w.C(o) == w.C0, G['seen']['flush'] == D if 'flush' in G['seen'] else F), 'Poll: those waiting for a flush are woken after')
        e.prove(o, z3.Implies(zb(G['taken']), G['inits'] >= 1), 'Poll: a shutdown that was asked for is begun'); e.prove(o, z3.Implies(G['inits'] >= 1, zb(G['taken'])), 'Poll: no shutdown without being asked'); e.prove(o, z3.Implies(w.S0 > 0, G['inits'] >= 1), 'Poll: requests for a shutdown are taken')
        a = w.A(o); e.prove(o, z3.Implies(z3.And(w.A0, z3.Not(a)), z3.Not(zb(G['act']))), 'Poll: inactive only when every connection is'); e.prove(o, z3.Implies(z3.Not(w.act0), z3.Not(a)), 'Poll: inactive as soon as every connection is'); e.prove(o, z3.Implies(z3.Not(w.A0), z3.Not(a)), 'Poll: stays inactive')
        e.prove(o, z3.Or(a == w.A0, G['seen']['shutdown'] == 0 if 'shutdown' in G['seen'] else F), 'Poll: those waiting for a shutdown are woken after')
    return e


class Owner(World):
    """the recorder as its owner sees it: implementations are made and ended by contract (units constructor, ~StreamRecorderImpl)"""
    def __init__(s, ctx, name, **kw):
        s.impls = []; World.__init__(s, ctx, name, 'owner', [(rx(r'^lightstep::StreamRecorderImpl::StreamRecorderImpl\('), s.make), (rx(r'^lightstep::StreamRecorderImpl::~StreamRecorderImpl\('), s.end)])
        s.st.ghost.update(live=('old',), log=())
    def name(s, p): o = s.e.norm_ptr(p).obj; return 'old' if o is s.impl else s.names.get(o.id if o is not None else None)
    names = {}
    def make(s, g, st, a, i):
        p = g.norm_ptr(a[0]); g.prove(st, b_and(p.obj is not None, g.ptr_eq(a[1], Ptr(s.rec, 0))), 'fork: an implementation of this recorder'); s.names = {**s.names, p.obj.id: 'new'}
        st.ghost['log'] += (('make', st.ghost['live'], s.C(st), s.get(st, 'pending_flush_counter_', 32), st.ghost['cleared'], st.ghost['drops'], z3.simplify(s.A(st)), s.get(st, 'shutdown_counter_', 32), st.ghost['lastP']),); st.ghost['live'] += ('new',)
        return [(st, None)] + ([s.fails(st)] if getattr(s, 'mayfail', False) else [])
    def end(s, g, st, a, i):
        n = s.name(a[0]); g.prove(st, n in st.ghost['live'], 'implementation: ended once'); g.prove(st, not st.ghost['held'], 'implementation: ended with no mutex held, as its thread may need them')
        st.ghost['live'] = tuple(x for x in st.ghost['live'] if x != n); st.ghost['gone'] += ('impl',); st.ghost['log'] += (('end', st.ghost['exitstored'], st.ghost['notes']),); return [(st, None)]
    def holds(s, st): return s.e.norm_ptr(s.e.load(st, s.at('stream_recorder_impl_'), ir.PTR))


def destroy(ctx):
    engs = []
    for have in (True, False):
        w = Owner(ctx, 'destructor' + (', forking' if not have else '')); e, st = w.e, w.st; engs.append(e)
        if not have: w.put(st, 'stream_recorder_impl_', NULL, ptr=True); st.ghost['live'] = ()
        w.st.ghost['gone'] = () if have else ('impl',)
        e.contracts.insert(0, (rx(r'^lightstep::ForkAwareRecorder::~ForkAwareRecorder\('), w.base_dtor))
        for o in ends(w, method(w, r'StreamRecorder::~StreamRecorder\(\)$', [Ptr(w.rec, 0)]), 'destructor'):
            G = o.ghost; e.prove(o, not G['held'], 'destructor: no mutex is kept'); e.prove(o, not G['live'], 'destructor: the implementation is gone'); e.prove(o, w.get(o, 'exit_', 8) != 0, 'destructor: the recorder is told to exit')
            for k in LOCKS: e.prove(o, (k, True) in G['notes'], 'destructor: those waiting for a %s see the exit and are woken' % k)
            e.prove(o, 'list' in G['gone'], 'destructor: leaves the list of recorders')
    return engs


def fork(ctx):
    engs = []
    for n in ('PrepareForFork', 'OnForkedParent', 'OnForkedChild'):
        w = Owner(ctx, n); e, st = w.e, w.st; engs.append(e)
        if n != 'PrepareForFork': w.put(st, 'stream_recorder_impl_', NULL, ptr=True); st.ghost['live'] = (); w.st.ghost['gone'] = ('impl',)
        for o in ends(w, method(w, r'StreamRecorder::%s\(' % n, [Ptr(w.rec, 0)]), n):
            G = o.ghost; h = w.holds(o); e.prove(o, not G['held'], n + ': no mutex is kept'); e.prove(o, w.get(o, 'exit_', 8) == w.b(w.X0), n + ': the recorder goes on')
            if n == 'PrepareForFork':
                e.prove(o, b_and(not G['live'], h.obj is None), n + ': the thread and the connections are ended'); e.prove(o, G['cleared'] == 0 and not G['drops'], n + ': nothing is lost'); e.prove(o, z3.And(w.C(o) == w.C0, w.A(o) == w.A0, w.get(o, 'shutdown_counter_', 32) == w.S0, w.get(o, 'pending_flush_counter_', 32) == w.Q0), n + ': what was asked for is still asked for'); continue
            mk = [x for x in G['log'] if x[0] == 'make']; e.prove(o, b_and(G['live'] == ('new',), len(mk) == 1, h.obj is not None and w.names.get(h.obj.id) == 'new'), n + ': recording begins again')
            if len(mk) != 1: continue
            _, live, C, Q, cleared, drops, A, S, lastP = mk[0]; e.prove(o, not live, n + ': one implementation at a time')
            e.prove(o, z3.And(S >= w.S0, z3.Implies(w.A0, A)), n + ': a shutdown that was asked for is still asked for')
            if n == 'OnForkedParent': e.prove(o, G['cleared'] == 0 and not G['drops'], n + ': nothing is lost'); e.prove(o, z3.And(C == w.C0, Q == w.Q0), n + ': what was asked for is still asked for')
            else: e.prove(o, cleared >= 1 and drops >= 1, n + ': the parent reports what was buffered and dropped'); e.prove(o, z3.And(C == lastP, lastP >= w.P0), n + ': nothing is left to be flushed'); e.prove(o, Q == 0, n + ': nothing is asked for')
    return engs


def resumed(ctx):
    """a shutdown that was begun is begun again for the connections made after a fork, whenever the fork comes"""
    engs = []
    for n in ('OnForkedParent', 'OnForkedChild'):
        for polls in (1, 2):
            w = Owner(ctx, '%s after %d polls' % (n, polls)); e, st = w.e, w.st; engs.append(e); st.assume(w.A0); D = z3.Int('delivered'); st.assume(z3.And(D >= w.C0, D < 2 ** 60)); st.gset('delivered', D); w.role = 'poll'; outs = [st]
            for _ in range(polls): outs = [x for o in outs for x in ends(w, method(w, r'StreamRecorder::Poll\(', [Ptr(w.rec, 0), Ptr(w.impl, 0)], again(o)), 'Poll')]
            w.role = 'owner'
            for what in ('PrepareForFork', n): outs = [x for o in outs for x in ends(w, method(w, r'StreamRecorder::%s\(' % what, [Ptr(w.rec, 0)], again(o)), what)]
            for o in outs:
                e.cur = o; mk = [x for x in o.ghost['log'] if x[0] == 'make']; e.prove(o, len(mk) == 1, n + ': recording begins again')
                if len(mk) == 1: A, S = mk[0][6:8]; e.prove(o, z3.Implies(o.ghost['inits'] > 0, z3.And(A, S > 0)), n + ': a shutdown that was begun is begun again'); e.prove(o, z3.Implies(z3.And(o.ghost['inits'] == 0, w.act0), A), n + ': a recorder that was not told to shut down is active')
    return engs
def again(o): o = o.clone(); o.outcome = None; return o


def create(ctx):
    w = Owner(ctx, 'StreamRecorder'); e, st = w.e, w.st; w.mayfail = True; st.ghost['live'] = (); st.ghost['gone'] = ('impl',); opt, ropt = (e.new_obj(st, n, kind='struct', size=4096) for n in ('options', 'recorder options')); st.mem[w.rec.id] = {}; w.put(st, 'stream_recorder_impl_', NULL, ptr=True); n = 0
    e.contracts.insert(0, (rx(r'^lightstep::ForkAwareRecorder::~?ForkAwareRecorder\('), w.base_dtor)); e.contracts.insert(0, (rx(r'^lightstep::GetMetricsObserver\('), lambda g, t, a, i: [(t, Ptr(w.text, 0))]))
    for o in method(w, r'StreamRecorder::StreamRecorder\(', [Ptr(w.rec, 0), Ptr(w.logger, 0), Ptr(opt, 0), Ptr(ropt, 0)]):
        e.cur = o; G = o.ghost
        if o.outcome[0] == 'throw': continue
        n += 1; mk = [x for x in G['log'] if x[0] == 'make']; e.prove(o, len(mk) == 1 and w.holds(o).obj is not None, 'constructor: recording begins')
        if len(mk) == 1: _, live, C, Q, cleared, drops, A, S, lastP = mk[0]; e.prove(o, z3.And(C == 0, Q == 0, S == 0, A), 'constructor: nothing consumed, nothing asked for, active'); e.prove(o, w.get(o, 'exit_', 8) == 0, 'constructor: it is not told to exit')
        w.mayfail = False
        for k in ('OnForkedParent', 'OnForkedChild'):
            t = again(o); w.pub(t); t.ghost['log'] = (); w.put(t, 'stream_recorder_impl_', NULL, ptr=True); t.ghost['live'] = ()
            for q in ends(w, method(w, r'StreamRecorder::%s\(' % k, [Ptr(w.rec, 0)], t), k):
                e.cur = q; mk = [x for x in q.ghost['log'] if x[0] == 'make']; e.prove(q, z3.And(mk[0][6], mk[0][7] == 0) if len(mk) == 1 else F, k + ': no shutdown without being asked')
    e.prove(st, n > 0, 'constructor: succeeds'); return e


TIMERS = {'poll_timer_': 'polling_period', 'timestamp_delta_timer_': 'timestamp_delta_period', 'flush_timer_': 'reporting'}
NS = {'reporting': 1000}


class Impl(World):
    """the implementation: its event loop, timers, streamer and thread"""
    def __init__(s, ctx, name, real_poll=False):
        World.__init__(s, ctx, name, 'poll', () if real_poll else [(rx(r'^lightstep::StreamRecorder::Poll\('), s.rpoll)]); s.st.mem[s.impl.id] = {}
        f = [n for n in s.m.funcs if re.search(r'^lightstep::StreamRecorderImpl::StreamRecorderImpl\(', s.e.dem(n))][0]
        s.outs = s.e.run(f, s.st, [Ptr(s.impl, 0), Ptr(s.rec, 0)])
    def rpoll(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.rec, 0)), g.ptr_eq(a[1], Ptr(s.impl, 0))), 'Poll: the recorder is polled with its implementation'); st.ghost['polls'] += 1; return [(st, None)]
    def event(s, o, k): return s.e.norm_ptr(s.e.load(o, Ptr(s.impl, s.O['i.' + k] + s.O['ev']), ir.PTR)).obj
    def period(s, k): return s.per[TIMERS[k]] / NS.get(TIMERS[k], 1)
    def timers(s, o, what):
        E = o.ghost['E']; s.e.prove(o, len([1 for x in E.values() if not x['freed']]) == 3, what + ': three timers')
        for k in TIMERS:
            x = s.event(o, k); ok = x is not None and x.id in E and not E[x.id]['freed']; s.e.prove(o, ok, what + ': %s exists' % k)
            if ok: y = E[x.id]; s.e.prove(o, z3.And(zb(y['armed']), y['fd'] == -1, y['what'] == 16), what + ': %s goes on firing' % k); s.e.prove(o, F if y['tv'] is None else y['tv'] == s.period(k), what + ': %s has its period' % k)
    def made(s):
        r = [o for o in s.outs if o.outcome[0] == 'ret']; reachable(s.e, r); return [again(o) for o in r[:1]]
    def fresh(s, o):
        """later: any other thread, any number of rounds of the event loop before"""
        t = again(o); t.ghost.update(flushed=(), on=0, polls=0, lb=0); t.gset('flushreq', Z(0)); return t


def impl_make(ctx):
    w = Impl(ctx, 'StreamRecorderImpl'); e = w.e; n = 0
    for o in w.outs:
        e.cur = o; G = o.ghost
        if o.outcome[0] == 'throw':
            e.prove(o, G['thread'] != 'running', 'constructor: no thread is left when it fails'); e.prove(o, all(x['freed'] for x in G['E'].values()) and G['base'] != 'open' and not G['made'], 'constructor: nothing is left when it fails'); continue
        n += 1; e.prove(o, G['thread'] == 'running' and G['base'] == 'open' and G['made'] == ('streamer',), 'constructor: it runs'); w.timers(o, 'constructor')
        e.prove(o, b_and(e.ptr_eq(e.load(o, Ptr(w.impl, w.O['i.stream_recorder_']), ir.PTR), Ptr(w.rec, 0)), e.ptr_eq(e.load(o, Ptr(w.impl, w.O['i.event_base_']), ir.PTR), Ptr(w.lbase, 0))), 'constructor: of this recorder'); e.prove(o, w.u(e.load(o, Ptr(w.impl, w.O['i.exit_']), ir.INT(8))) == 0, 'constructor: it is not told to end')
        e.prove(o, len(G['delta']) > 0 and G['delta'] and e.check_valid(o, w.si(e.load(o, Ptr(w.impl, w.O['i.delta']), ir.INT(64))) == G['delta'][-1])[0] == 'proved', 'constructor: the difference of the clocks is known')
        # what the thread runs
        sid, p = G['state']; t = again(o); e.cur = t; vt = e.norm_ptr(e.load(t, p, ir.PTR)); run = e.norm_ptr(e.load(t, Ptr(vt.obj, e.dom.off_add(vt.off, 16)), ir.PTR)); qs = e.call_value(t, run, [p]); e.prove(w.st, len(qs) > 0, 'thread: runs')
        for q, v in qs: e.cur = q; e.prove(q, not isinstance(v, Throw), 'thread: does not throw'); e.prove(q, q.ghost['lb'] == 1, 'thread: runs the event loop')
    e.prove(w.st, n > 0, 'constructor: succeeds'); return e


def impl_end(ctx):
    w = Impl(ctx, '~StreamRecorderImpl'); e = w.e
    for o in w.made():
        f = [n for n in w.m.funcs if re.search(r'^lightstep::StreamRecorderImpl::~StreamRecorderImpl\(', e.dem(n))][0]
        for q in ends(w, e.run(f, o, [Ptr(w.impl, 0)]), 'destructor'): G = q.ghost; e.prove(q, G['thread'] == 'joined', 'destructor: waits for the thread'); e.prove(q, all(x['freed'] for x in G['E'].values()) and G['base'] == 'freed' and not G['made'], 'destructor: nothing is left')
    return e


def fire(w, o, k):
    x = w.event(o, k); y = o.ghost['E'][x.id]; w.e.cur = o; return w.e.call_value(o, y['cb'], [IV(32, s=Z(-1), u=Z(2 ** 32 - 1)), IV(16, s=Z(1), u=Z(1)), Ptr(w.impl, 0)])


def impl_fire(k):
    def f(ctx):
        w = Impl(ctx, k.strip('_')); e = w.e; w.readd = True; n = 0
        for o in w.made():
            o = w.fresh(o); marker = w.u(e.load(o, Ptr(w.impl, w.O['i.early_flush_marker_']), ir.INT(64))); d0 = len(o.ghost['delta'])
            for q, v in fire(w, o, k):
                e.cur = q; n += 1; G = q.ghost; e.prove(q, not isinstance(v, Throw), k + ': does not throw'); w.timers(q, k); fl = [x for x in G['flushed'] if x != 'break']; e.prove(q, not G['held'], k + ': no mutex is kept'); e.prove(q, len(fl) <= 1, k + ': flushes once')
                e.prove(q, b_and(*[z3.Implies(z3.BoolVal(x == 'clear'), w.throwaway) for x in fl], *[z3.Implies(z3.BoolVal(x == 'stream'), z3.Not(w.throwaway)) for x in fl]), k + ': spans are sent, unless they are to be thrown away')
                if k == 'timestamp_delta_timer_': e.prove(q, b_and(len(G['delta']) > d0, w.si(e.load(q, Ptr(w.impl, w.O['i.delta']), ir.INT(64))) == G['delta'][-1]), k + ': the difference of the clocks is refreshed'); e.prove(q, not fl and G['lb'] == 0, k + ': nothing else'); continue
                if k == 'flush_timer_': e.prove(q, len(fl) == 1 and G['lb'] == 0, k + ': flushes'); continue
                ended = q.ghost.get('impl exit', F); br = G['lb'] > 0
                e.prove(q, z3.BoolVal(br) == zb(ended), k + ': the event loop ends exactly when told to')
                if br: e.prove(q, len(fl) == 1 and G['flushed'][-1] == 'break' and G['lb'] == 1, k + ': what is buffered is flushed before the end'); continue
                e.prove(q, z3.Implies(G['flushreq'] > 0, z3.BoolVal(bool(fl))), k + ': a flush that was asked for is done'); e.prove(q, z3.Implies(w.Q0 > 0, z3.BoolVal(bool(fl))), k + ': requests for a flush are taken'); e.prove(q, z3.Implies(G['size'] > marker, z3.BoolVal(bool(fl))), k + ': a buffer that fills is flushed early'); e.prove(q, z3.Implies(z3.BoolVal(bool(fl)), z3.Or(G['flushreq'] > 0, G['size'] > marker)), k + ': flushes only then'); e.prove(q, z3.Or(G['flushreq'] > 0, G['size'] >= 0), k + ': the buffer is watched'); e.prove(q, G['polls'] == 1, k + ': the recorder is polled')
        e.prove(w.st, n > 0, k + ': returns'); return e
    return f


nd = z3.Function('recorder', I, I); ix = z3.Function('position', I, I)
class List:
    """the list of all recorders, of any length, which its mutex guards: nothing is known of it but while the mutex is held"""
    def __init__(s, ctx, name):
        s.m = ctx.module(SRC); s.st = st = State(); A = 'lightstep::ForkAwareRecorder'; s.O = ctx.offsets(['recorder/fork_aware_recorder.h'], {'next': (A, 'next_recorder_')}, {'size': A}); s.K = z3.Int('recorders')
        s.e = e = Engine(s.m, name=name, candidates=s.cand, contracts=[('pthread_mutex_lock', s.lock), ('pthread_mutex_unlock', s.unlock), ('pthread_atfork', s.atfork)] + [('VfRecorder::' + k, s.called(k)) for k in ('PrepareForFork', 'OnForkedParent', 'OnForkedChild')] + textio()); e.cur = st; e.total = 'try'
        e.ranks = lambda en, view: [('recorders left', lambda w: s.K - w.st.ghost['n'])] + [('recorders left after %s' % str(k), lambda w, k=k: s.K - ix(zi(e.ptr_term(w.get(k))))) for k, v in view.loc.items() if isinstance(v, Ptr)]
        vt = e.gobj('_ZTV10VfRecorder'); s.reg = e.new_obj(st, 'recorders', kind='region', layout={0: ('ptr', lambda en, q, t: Ptr(vt, 16))}); s.reg.layout[s.O['next']] = ('ptr', s.reg)
        s.NX = s.next(st); s.head, s.mutex = (Ptr(e.gobj('_ZN9lightstep17ForkAwareRecorder%s' % k), 0) for k in ('17active_recorders_E', '6mutex_E')); i = z3.Int('i'); K = s.K
        st.assume(z3.And(K >= 0, K < 2 ** 30, nd(K) == 0, z3.Implies(K > 0, z3.And(nd(0) > 0, ix(nd(0)) == 0)))); st.assume_q(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K), z3.And(nd(i) > 0, nd(i) < 2 ** 64, ix(nd(i)) == i, s.NX[nd(i)] == nd(i + 1))), patterns=[nd(i)]))
        st.ghost.update(held=False, n=Z(0), final=None, fork=None, locks=0); s.unknown(st); s.what = None
    def next(s, st): return s.e.arr(st, s.reg, s.O['next'], s.reg.layout[s.O['next']])
    def hd(s, st): return zi(s.e.ptr_term(s.e.load(st, s.head, ir.PTR)))
    def set(s, st, t): s.e.store(st, s.head, ir.PTR, Ptr(s.reg, 0, t))
    def unknown(s, st): x = z3.FreshInt('list'); st.ghost['unknown'] = x; s.set(st, x)
    def lock(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[0], s.mutex), not st.ghost['held']), 'recorders: their mutex is taken, once'); g.prove(st, s.hd(st) == st.ghost['unknown'], 'recorders: changed only under their mutex'); st.ghost['held'] = True; st.ghost['locks'] += 1; s.set(st, nd(Z(0))); return [(st, g.dom.const(32, 0))]
    def unlock(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[0], s.mutex), st.ghost['held']), 'recorders: their mutex is released, once'); st.ghost['held'] = False; st.ghost['final'] = (s.hd(st), s.next(st)); s.unknown(st); return [(st, g.dom.const(32, 0))]
    def atfork(s, g, st, a, i): st.ghost['fork'] = tuple(a); return [(st, IV(32, s=Z(0)))]
    def called(s, k):
        def f(g, st, a, i):
            n = st.ghost['n']; g.prove(st, k == s.what, 'fork: recorders are told which of the three it is'); g.prove(st, zi(g.ptr_term(a[0])) == nd(n), 'fork: every recorder is told once'); g.prove(st, st.ghost['held'], 'fork: no recorder comes or goes meanwhile'); st.gset('n', n + 1); return [(st, None)]
        return f
    def cand(s, eng, view):
        out = [('told are as many as there are, at most', lambda v: z3.And(v.st.ghost['n'] >= 0, v.st.ghost['n'] <= s.K))]
        for k in [k for k, v in view.loc.items() if isinstance(v, Ptr)] + [w for w in view.modset if len(w) == 3 and w[0] in view.st.mem and isinstance(view.st.mem[w[0]].get(w[1], (0, 0))[1], Ptr)]:
            t = lambda v, k=k: zi(eng.ptr_term(v.get(k)))
            out += [('%s comes next' % str(k), lambda v, t=t: t(v) == nd(v.st.ghost['n'])), ('%s is in the list' % str(k), lambda v, t=t: z3.Or(t(v) == 0, z3.And(t(v) == nd(ix(t(v))), ix(t(v)) >= 0, ix(t(v)) < s.K)))]
            if getattr(s, 'j', None) is not None: out += [('%s lies before it' % str(k), lambda v, t=t: z3.And(t(v) == nd(ix(t(v))), ix(t(v)) >= 0, ix(t(v)) < s.j))]
        return out
    def run(s, name, args): return method(s, name, args)


def forklist(ctx):
    """recorders enter and leave the list, and are told of forks"""
    engs = []; A = 'ForkAwareRecorder::'; k = z3.Int('k')
    w = List(ctx, 'ForkAwareRecorder'); e, st = w.e, w.st; engs.append(e); x = z3.Int('new recorder'); st.assume(z3.And(x > 0, x < 2 ** 64)); st.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w.K), nd(k) != x), patterns=[nd(k)])); forks = []
    o1 = e.new_obj(st, 'reserved', kind='struct', size=8)
    for o in ends(w, w.run(r'ForkAwareRecorder::ForkAwareRecorder\(', [Ptr(w.reg, 0, x)]), 'constructor'):
        e.cur = o; G = o.ghost; e.prove(o, b_and(G['final'] is not None, G['locks'] == 1, not G['held'], w.hd(o) == G['unknown']), 'constructor: the list is changed under its mutex')
        if not G['final']: continue
        h, nx = G['final']; m, i = z3.Int('some recorder'), z3.Int('i')
        e.prove(o, z3.And(h == x, nx[x] == nd(0)), 'constructor: the recorder is in the list'); e.prove(o, z3.Implies(z3.And(m >= 0, m < w.K), nx[nd(m)] == nd(m + 1)), 'constructor: the others stay'); e.prove(o, G['fork'] is not None and len(G['fork']) == 3, 'constructor: forks are watched'); forks.append(G['fork'])
    if not forks or not forks[0]: return engs
    w = List(ctx, '~ForkAwareRecorder'); e, st = w.e, w.st; engs.append(e); w.j = j = z3.Int('leaving'); st.assume(z3.And(j >= 0, j < w.K))
    for o in ends(w, w.run(r'ForkAwareRecorder::~ForkAwareRecorder\(', [Ptr(w.reg, 0, nd(j))]), 'destructor'):
        e.cur = o; G = o.ghost; e.prove(o, b_and(G['final'] is not None, G['locks'] == 1, not G['held'], w.hd(o) == G['unknown']), 'destructor: the list is changed under its mutex')
        if not G['final']: continue
        h, nx = G['final']; m = z3.Int('some recorder'); e.prove(o, h == z3.If(j == 0, nd(1), nd(0)), 'destructor: the list begins with the first that stays'); e.prove(o, z3.Implies(j > 0, nx[nd(j - 1)] == nd(j + 1)), 'destructor: the recorder has left the list'); e.prove(o, z3.Implies(z3.And(m >= 0, m < w.K, m != j, m != j - 1), nx[nd(m)] == nd(m + 1)), 'destructor: the others stay')
    for i, what in enumerate(('PrepareForFork', 'OnForkedParent', 'OnForkedChild')):
        w = List(ctx, what + ' of all'); e, st = w.e, w.st; engs.append(e); w.what = what
        outs = []
        f = forks[0][i]
        for q, v in e.call_value(st, f.obj.fname, []): e.cur = q; e.prove(q, not isinstance(v, Throw), what + ': does not throw'); outs.append(q)
        reachable(e, outs)
        for o in outs: e.cur = o; G = o.ghost; e.prove(o, G['n'] == w.K, what + ': every recorder is told'); e.prove(o, b_and(G['locks'] == 1, not G['held'], G['final'] is not None), what + ': no mutex is kept'); e.prove(o, b_and(G['final'] is not None and G['final'][0] == nd(0), not [x for x in o.writes if x[0] == w.reg.id]), what + ': the list stays')
    return engs


def units(ctx):
    U = lambda n, f, fs: Unit(n, f, fs, 900); C = 'StreamRecorder::'
    return [U('recorders', forklist, ['ForkAwareRecorder::' + x for x in ('ForkAwareRecorder', '~ForkAwareRecorder', 'SetupForkHandlers', 'PrepareForkHandler', 'ParentForkHandler', 'ChildForkHandler')] + ['AtFork']), U('FlushWithTimeout', flush_wait, [C + 'FlushWithTimeout']), U('ShutdownWithTimeout', shutdown_wait, [C + 'ShutdownWithTimeout']), U('Poll', poll, [C + 'Poll']),
            U('destructor', destroy, [C + '~StreamRecorder']), U('fork', fork, [C + x for x in ('PrepareForFork', 'OnForkedParent', 'OnForkedChild')]), U('fork after shutdown', resumed, [C + x for x in ('Poll', 'PrepareForFork', 'OnForkedParent', 'OnForkedChild')]), U('constructor', create, [C + 'StreamRecorder']),
            U('implementation', impl_make, ['StreamRecorderImpl::StreamRecorderImpl', 'StreamRecorderImpl::Run', 'TimerEvent::TimerEvent', 'Event::Event', 'Event::~Event', 'EventBase']), U('~implementation', impl_end, ['StreamRecorderImpl::~StreamRecorderImpl', 'EventBase::~EventBase'])] + [U(k.strip('_'), impl_fire(k), ['StreamRecorderImpl::' + x for x in fs]) for k, fs in (('poll_timer_', ('Poll', 'Flush')), ('timestamp_delta_timer_', ('RefreshTimestampDelta',)), ('flush_timer_', ('Flush',)))]


def natives(ctx):
    from props import C36
    n = C36.natives(ctx)[0]; keep = [x for x in n.srcs if not x.endswith('satellite_streamer.cpp')] + [S + 'stream_recorder.cpp', S + 'stream_recorder_impl.cpp', 'src/recorder/fork_aware_recorder.cpp', 'src/network/socket.cpp', 'src/network/vector_write.cpp', 'src/common/platform/network_unix.cpp', 'src/common/report_request_framing.cpp', 'src/common/chunked_http_framing.cpp', 'src/common/platform/network_environment_unix.cpp']
    import os
    from cvg.runner import REPO
    return [Native('native/C38.cpp', srcs=[x for x in dict.fromkeys(keep) if os.path.exists(REPO + '/' + x)], protos=True, gensrcs=n.gensrcs, libs=['-levent', '-lprotobuf', '-lpthread'], san='thread', budget=(15, 120))]
