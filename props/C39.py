"""C39: automatic recorder - reports go out in time, flushes tell the truth and wake up, and the reporting thread ends before what it uses."""
import os, re
from cvg.runner import Unit, Native, REPO
from cvg.util import *

ASSUMPTIONS = ['a mutex excludes and a condition variable wakes those waiting on it when notified; the clock never goes back', 'timeouts, periods and the time of the clock stay below 2^61 ns', 'reports are numbered below 2^60', 'which spans a report holds is C30: those pending when it is numbered', 'logging does not throw', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)']
TRUSTED = ['pthread mutexes, condition variables, std::thread', 'protobuf messages, ReportBuilder, the transporter and the observer: by contract only']
SRC = ['harness/auto_recorder.cpp', 'src/recorder/auto_recorder.cpp']
I, T, F, Z = z3.IntSort(), z3.BoolVal(True), z3.BoolVal(False), z3.IntVal
R = 'lightstep::AutoRecorder'
MEM = {'exit': 'write_exit_', 'thread': 'writer_', 'builder': 'builder_', 'pending': 'builder_.pending_', 'inflight': 'inflight_', 'max': 'max_buffered_spans_snapshot_', 'F': 'flushed_seqno_', 'E': 'encoding_seqno_', 'dropped': 'dropped_spans_', 'transporter': 'transporter_', 'cond': 'write_cond_', 'mutex': 'write_mutex_', 'observer': 'options_.metrics_observer', 'period': 'options_.reporting_period', 'options': 'options_', 'logger': 'logger_'}
CELLS = (('exit', 8), ('F', 64), ('E', 64), ('dropped', 64), ('max', 64))


def prepare(ctx): ctx.protos()


class World:
    """a recorder whose mutex guards: how many spans are pending, the numbers of the reports, whether to exit. Whenever it is free
    other threads change what they may: callers record and ask for the exit, the reporting thread numbers reports"""
    def __init__(s, ctx, name, writer=False, extra=(), cand=None):
        s.writer = writer; s.m = ctx.module(SRC); s.st = st = State(); s.xc = cand
        s.O = ctx.offsets(['recorder/auto_recorder.h'], {k: (R, v) for k, v in MEM.items()}, {'R': R, 'C': 'lightstep::StandardConditionVariableWrapper'}); s.hasoff = ctx.offsets(['recorder/auto_recorder.h'], {'has': ('opentracing::expected<void>', 'has_')}, {})['has']
        s.e = e = Engine(s.m, name=name, contracts=list(extra) + [
            (rx(r'^(void |bool |long )?lightstep::(Logger::|LogReportResponse)'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.text, 0))]), (rx(r'^VfObserver::'), noop),
            ('pthread_mutex_lock', s.lock), ('pthread_mutex_unlock', s.unlock), ('pthread_cond_clockwait', s.wait), ('pthread_cond_timedwait', s.wait), (rx(r'^std::condition_variable::wait\('), s.wait0), (rx(r'^std::condition_variable::notify_all\(\)'), s.notify), (rx(r'^std::condition_variable::notify_one\(\)'), noop), (rx(r'^std::condition_variable::~?condition_variable\('), s.part),
            (rx(r'^std::chrono::_V2::(steady|system)_clock::now\(\)'), s.clock), (rx(r'DynamicConfigurationValue<unsigned long>::value\('), s.value),
            (rx(r'RepeatedPtrField<lightstep::collector::Span>::size\(|RepeatedPtrFieldBase::size\(|ReportRequest::spans_size\('), s.size), (rx(r'^lightstep::ReportBuilder::AddSpan\('), s.add), (rx(r'^lightstep::ReportBuilder::(set_pending_client_dropped_spans|~?ReportBuilder)\('), s.part),
            (rx(r'^(lightstep::collector::(ReportRequest|ReportResponse)|lightstep::LightStepTracerOptions|lightstep::Recorder)::~?\w+\('), s.part), (rx(r'^std::thread::_M_start_thread\('), s.start), (rx(r'^std::thread::join\('), s.join), (rx(r'^std::thread::detach\('), s.detach), (rx(r'^std::thread::_State::~?_State'), noop),
            (rx(r'^std::terminate\('), s.terminate), (rx(r'^std::__throw_system_error'), s.terminate), (rx(r'^operator delete\('), noop)] + textio())
        e.cur = st; e.total = 'try'; e.candidates = int_candidates([], extra=s.cand)
        o = lambda n, k, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.rec = o('recorder', s.O['R']); s.text, s.logger = o('text', 8), o('logger', 8); s.cv = virtual_object(e, st, 'N9lightstep32StandardConditionVariableWrapperE', 'condition', s.O['C']); s.obs = virtual_object(e, st, '10VfObserver', 'observer', 8); s.tp = virtual_object(e, st, '6VfSync', 'transporter', 8)
        for k, q in (('cond', s.cv), ('observer', s.obs), ('transporter', s.tp), ('logger', s.logger)): e.store(st, s.at(k), ir.PTR, Ptr(q, 0))
        s.now0, s.period, s.D0, s.M0 = z3.Ints('now period dropped max'); st.assume(z3.And(s.now0 >= 0, s.now0 < 2 ** 60, s.period > 0, s.period < 2 ** 59, s.D0 >= 0, s.D0 < 2 ** 60, s.M0 >= 0, s.M0 < 2 ** 60)); s.setf(st, 'period', s.period)
        st.ghost.update(held=False, N=Z(0), first=Z(-1), now=s.now0, notified=F, N0=Z(-1), target=Z(0), value=Z(-1), thread='none', state=None, locks=0, waited=Z(0), gone=0)
        f, x = z3.Ints('F X'); st.assume(z3.And(f >= 0, f < 2 ** 60, x >= 0, x <= 1)); en = z3.Int('E'); st.assume(z3.Or(en == f + 1, en == f + 2)); s.setf(st, 'F', f); s.setf(st, 'E', en); s.setf(st, 'exit', x, 8); s.setf(st, 'dropped', s.D0); s.setf(st, 'max', s.M0); s.gsetN(st, 'N', z3.FreshInt('pending')); s.pub(st)
    # ---- values
    def at(s, k): return Ptr(s.rec, s.O[k])
    def b(s, f): return z3.If(f, Z(1), Z(0))
    def setf(s, st, k, v, w=64): s.e.store(st, s.at(k), ir.INT(w), IV(w, u=v, s=v))
    def get(s, st, k, w=64): return z3.simplify(zi(s.e.dom.u(s.e.as_int(s.e.load(st, s.at(k), ir.INT(w))))))
    def si(s, x): return zi(s.e.dom.s(s.e.as_int(x)))
    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    def gsetN(s, st, k, v): st.assume(z3.And(v >= 0, v < 2 ** 30)); st.gset(k, v)
    def X(s, st): return s.get(st, 'exit', 8) != 0
    def fails(s, st): t = st.clone(); return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception', 16), 0)))
    # ---- lock
    def shared(s, st): return [s.get(st, k, w) for k, w in CELLS] + [st.ghost['N']]
    def pub(s, st):
        for k, v in zip([k for k, w in CELLS] + ['N'], s.shared(st)): st.gset('pub ' + k, v)
    def unchanged(s, st): s.e.prove(st, z3.And(*[x == st.ghost['pub ' + k] for k, x in zip([k for k, w in CELLS] + ['N'], s.shared(st))]), 'lock: what it guards is changed only under it')
    def others(s, st):
        """what other threads may have done while the mutex was free"""
        G = st.ghost; x = z3.FreshInt('X'); st.assume(z3.And(x >= G['pub exit'], x <= 1)); s.setf(st, 'exit', x, 8); d = z3.FreshInt('dropped'); st.assume(z3.And(d >= 0, d < 2 ** 60)); s.setf(st, 'dropped', d); n = z3.FreshInt('pending')
        if s.writer: st.assume(n >= G['pub N'])
        else:
            f, en, m = z3.FreshInt('F'), z3.FreshInt('E'), z3.FreshInt('max'); st.assume(z3.And(f >= G['pub F'], en >= G['pub E'], f < 2 ** 60, z3.Or(en == f + 1, en == f + 2), m >= 0, m < 2 ** 60)); s.setf(st, 'F', f); s.setf(st, 'E', en); s.setf(st, 'max', m)
        s.gsetN(st, 'N', n); s.pub(st)
    def lock(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('mutex')), not st.ghost['held']), 'lock: the recorder\'s mutex, taken once'); s.unchanged(st); s.others(st); st.ghost['held'] = True
        if st.ghost['locks'] == 0: st.gset('target', z3.If(st.ghost['N'] > 0, s.get(st, 'E'), s.get(st, 'E') - 1))
        st.ghost['locks'] += 1; st.gset('notified', F); return [(st, g.dom.const(32, 0))]
    def unlock(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('mutex')), st.ghost['held']), 'lock: released once'); G = st.ghost; st.ghost['held'] = False
        g.prove(st, z3.Implies(G['pub exit'] != 0, s.X(st)), 'exit: stays')
        if not s.writer: g.prove(st, z3.And(s.get(st, 'F') == G['pub F'], s.get(st, 'E') == G['pub E'], s.get(st, 'max') == G['pub max']), 'lock: only the reporting thread numbers reports')
        st.ghost['before'] = {k: G['pub ' + k] for k in [k for k, w in CELLS] + ['N']}; s.pub(st); return [(st, g.dom.const(32, 0))]
    def notify(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.cv, 8)), 'notify: the recorder\'s own condition'); st.gset('notified', T); st.ghost['seen'] = s.shared(st); return [(st, None)]
    def clock(s, g, st, a, i): n = z3.FreshInt('now'); st.assume(z3.And(n >= st.ghost['now'], n < 2 ** 60)); st.gset('now', n); st.gset('first', z3.If(st.ghost['first'] < 0, n, st.ghost['first'])); return [(st, IV(64, s=n, u=n))]
    def wait0(s, g, st, a, i): g.prove(st, F, 'wait: no longer than asked'); return [(st, None)]
    def wait(s, g, st, a, i):
        ts = a[3] if len(a) == 4 else a[2]; G = st.ghost; g.prove(st, len(a) == 4 and g.oracle(s.u(a[2]) == 1) is True, 'wait: by the clock that was read')
        sec, ns = (s.si(g.load(st, Ptr(ts.obj, g.dom.off_add(ts.off, j)), ir.INT(64))) for j in (0, 8)); dl = sec * 10 ** 9 + ns; g.prove(st, z3.And(ns >= 0, ns < 10 ** 9), 'wait: a time'); g.prove(st, dl <= s.limit(st), 'wait: no longer than asked')
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.cv, 8)), g.ptr_eq(a[1], s.at('mutex')), G['held']), 'wait: with its own mutex'); g.prove(st, z3.Not(s.X(st)), 'wait: not once the recorder is told to exit'); g.prove(st, s.needed(st), 'wait: only for what has not happened yet'); s.unchanged(st) if not s.writer else None
        if s.writer: s.pub(st)
        s.others(st); st.gset('waited', st.ghost['waited'] + 1); out = []
        for rc in (0, 110):
            t = st.clone(); n = z3.FreshInt('now'); t.assume(z3.And(n >= t.ghost['now'], n < 2 ** 60)); t.gset('now', n)
            if rc: t.assume(n >= dl)
            out.append((t, IV(32, s=Z(rc))))
        return out
    def limit(s, st): return st.ghost['first'] + s.timeout
    def needed(s, st): return s.get(st, 'F') < st.ghost['target']
    # ---- collaborators
    def value(s, g, st, a, i):
        n = z3.FreshInt('configured'); st.assume(z3.And(n >= 0, n < 2 ** 60)); st.gset('value', n); return [(st, IV(64, u=n))] + ([s.fails(st)] if getattr(s, 'mayfail', False) else [])
    def size(s, g, st, a, i): g.prove(st, st.ghost['held'], 'lock: spans are counted under it'); return [(st, IV(32, s=st.ghost['N'], u=st.ghost['N']))]
    def add(s, g, st, a, i): t = s.fails(st); g.prove(st, st.ghost['held'], 'lock: spans are added under it'); st.gset('N', st.ghost['N'] + 1); return [(st, None), t]
    def part(s, g, st, a, i): g.prove(st, st.ghost['thread'] != 'running', 'destructor: the reporting thread ends before anything it uses') if s.e.norm_ptr(a[0]).obj is s.rec else None; return [(st, None)]
    def start(s, g, st, a, i):
        p = g.norm_ptr(g.load(st, a[1], ir.PTR)); g.prove(st, st.ghost['thread'] == 'none', 'constructor: one thread'); t = s.fails(st); g.prove(st, s.ready(st), 'constructor: the thread starts when all is ready'); st.ghost['thread'] = 'running'; st.ghost['state'] = p; g.store(st, a[0], ir.INT(64), IV(64, u=Z(1))); return [(st, None), t]
    def ready(s, st): return F
    def join(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], s.at('thread')), 'destructor: joins its thread'); g.prove(st, st.ghost['thread'] == 'running' and not st.ghost['held'], 'destructor: joins once, with the mutex free'); g.prove(st, z3.And(st.ghost['pub exit'] != 0, zb(st.ghost['notified'])), 'destructor: tells the thread to exit before waiting for it'); st.ghost['thread'] = 'joined'; g.store(st, a[0], ir.INT(64), IV(64, u=Z(0))); return [(st, None)]
    def detach(s, g, st, a, i): g.prove(st, F, 'destructor: waits for the thread'); g.store(st, a[0], ir.INT(64), IV(64, u=Z(0))); return [(st, None)]
    def terminate(s, g, st, a, i): g.prove(st, F, 'the process is not terminated'); return []
    def cand(s, e, view):
        G = lambda w: w.st.ghost; E = lambda w: w.entry.ghost
        out = [('time goes on', lambda w: G(w)['now'] >= E(w)['now']), ('first', lambda w: G(w)['first'] == E(w)['first']), ('target', lambda w: G(w)['target'] == E(w)['target']), ('pending', lambda w: z3.And(G(w)['N'] >= 0, G(w)['N'] < 2 ** 30)), ('time is a time', lambda w: G(w)['now'] < 2 ** 60)]
        out += [('%s is what was made known' % k, lambda w, j=j, k=k: s.shared(w.st)[j] == w.st.ghost['pub ' + k]) for j, k in enumerate([k for k, w in CELLS] + ['N'])]
        out += [('numbers go up', lambda w: z3.And(s.get(w.st, 'F') >= s.get(w.entry, 'F'), s.get(w.st, 'F') < 2 ** 60)), ('numbers stay', lambda w: z3.And(s.get(w.st, 'F') == s.get(w.entry, 'F'), s.get(w.st, 'E') == s.get(w.entry, 'E'))), ('limit stays', lambda w: s.get(w.st, 'max') == s.get(w.entry, 'max')), ('exit stays', lambda w: s.get(w.st, 'exit', 8) >= s.get(w.entry, 'exit', 8)), ('exit is a bool', lambda w: s.get(w.st, 'exit', 8) <= 1), ('one report in flight at most', lambda w: z3.Or(s.get(w.st, 'E') == s.get(w.st, 'F') + 1, s.get(w.st, 'E') == s.get(w.st, 'F') + 2))]
        return out + (s.xc(s, view) if s.xc else [])


def outs_of(w, outs, what):
    r = []
    for o in outs:
        w.e.cur = o
        if o.outcome[0] == 'throw': w.e.prove(o, False, what + ': does not throw')
        else: r.append(o)
    reachable(w.e, r); return r


def flush(ctx):
    w = World(ctx, 'FlushWithTimeout'); e, st = w.e, w.st; w.timeout = z3.Int('timeout'); st.assume(z3.And(w.timeout >= 0, w.timeout < 2 ** 60))
    for o in outs_of(w, e.run('vf_flush', st, [Ptr(w.rec, 0), IV(64, s=w.timeout)]), 'FlushWithTimeout'):
        r, G = zb(o.outcome[1]), o.ghost; e.prove(o, b_and(not G['held'], G['locks'] >= 1), 'FlushWithTimeout: no mutex is kept'); w.unchanged(o)
        if G['locks'] < 1: continue
        e.prove(o, r == (G['pub F'] >= G['target']), 'FlushWithTimeout: true exactly when every report with spans from before is done')
        e.prove(o, z3.Implies(z3.Not(r), z3.Or(G['pub exit'] != 0, z3.And(G['first'] >= 0, G['now'] >= G['first'] + w.timeout))), 'FlushWithTimeout: gives up only when time is over or the recorder ends')
        e.prove(o, z3.And(G['pub N'] == G['before']['N'], G['pub dropped'] == G['before']['dropped'], G['pub exit'] == G['before']['exit']), 'FlushWithTimeout: nothing is changed')
    return e


class Next(World):
    def limit(s, st): return s.next
    def needed(s, st): return st.ghost['N'] < st.ghost['value']


def wait_next(ctx):
    w = Next(ctx, 'WaitForNextWrite', True); e, st = w.e, w.st; w.next = z3.Int('next'); st.assume(z3.And(w.next >= 0, w.next < 2 ** 61)); p = e.new_obj(st, 'next', kind='struct', size=8); e.store(st, Ptr(p, 0), ir.INT(64), IV(64, s=w.next, u=w.next)); w.mayfail = True; n = 0
    for o in e.run('vf_next', st, [Ptr(w.rec, 0), Ptr(p, 0)]):
        e.cur = o; G = o.ghost; e.prove(o, not G['held'], 'WaitForNextWrite: no mutex is kept')
        if o.outcome[0] == 'throw': continue
        n += 1; r = zb(o.outcome[1]); e.prove(o, G['locks'] >= 1, 'WaitForNextWrite: looks under the mutex')
        if G['locks'] < 1: continue
        e.prove(o, r == (G['pub exit'] == 0), 'WaitForNextWrite: goes on until told to exit'); e.prove(o, z3.And(G['value'] >= 0, G['pub max'] == G['value']), 'WaitForNextWrite: the limit is the one configured now')
        e.prove(o, z3.Implies(r, z3.Or(G['pub N'] >= G['value'], G['now'] >= w.next)), 'WaitForNextWrite: not before its time, unless there is much to report')
        e.prove(o, z3.And(G['pub F'] == z3.Int('F'), G['pub E'] == z3.Int('E')), 'WaitForNextWrite: no report is numbered')
    e.prove(st, n > 0, 'WaitForNextWrite: returns'); return e


def write(ctx):
    """WaitForNextWrite, FlushOne and MakeWriterExit by their contracts; ghost: whose turn it is, when the last report ended, when the next was due"""
    box = {}
    def wnext(g, st, a, i):
        w = box['w']; G = st.ghost; p = g.norm_ptr(a[1]); t = w.si(g.load(st, p, ir.INT(64))); g.prove(st, g.ptr_eq(a[0], Ptr(w.rec, 0)), 'Write: of this recorder')
        g.prove(st, G['turn'] == 0, 'Write: a report is made when it is time'); first = G['due'] < 0; end = G['end']; due = G['due']
        g.prove(st, z3.Implies(first, z3.And(t <= G['now'] + w.period, t >= w.now0 + w.period)), 'Write: the first report is due after one period')
        g.prove(st, z3.Implies(z3.Not(first), z3.And(t <= G['now'] + w.period, t >= end)), 'Write: the next report is due within a period, and not before the last ended')
        g.prove(st, z3.Implies(z3.And(z3.Not(first), end >= due, G['now'] - due <= w.period), t == due + w.period), 'Write: reports keep their rhythm')
        f = w.fails(st); out = []
        n = z3.FreshInt('now'); st.assume(z3.And(n >= G['now'], n < 2 ** 60)); st.gset('now', n); st.gset('due', t); u = st.clone(); st.gset('turn', Z(1)); u.gset('turn', Z(2)); return [(st, T), (u, F), f]
    def one(g, st, a, i):
        w = box['w']; g.prove(st, st.ghost['turn'] == 1, 'Write: one report each time, and none after the end'); st.gset('turn', Z(0)); n = z3.FreshInt('now'); st.assume(z3.And(n >= st.ghost['now'], n < 2 ** 60)); st.gset('now', n); st.gset('end', n); f = w.fails(st); return [(st, None), f]
    def stop(g, st, a, i): st.gset('stopped', T); return [(st, None)]
    def cand(s, view):
        G = lambda w: w.st.ghost; out = [('turn %d' % k, lambda w, k=k: G(w)['turn'] == k) for k in range(3)] + [('not stopped', lambda w: z3.Not(G(w)['stopped'])), ('the last was due', lambda w: z3.Or(G(w)['due'] < 0, z3.And(G(w)['end'] >= 0, G(w)['due'] < 2 ** 60 + w_period(s), G(w)['end'] <= G(w)['now']))), ('still the first', lambda w: z3.Implies(G(w)['due'] < 0, G(w)['end'] < 0))]
        for k in [k for k, v in view.loc.items() if not isinstance(v, Ptr)] + [x for x in view.modset if len(x) == 3]:
            t = lambda w, k=k: zi(w.term(w.get(k)))
            def safe(f):
                def h(w):
                    try: return f(w)
                    except Exception: return T
                return h
            out += [('%s due in time' % str(k), safe(lambda w, t=t: z3.And(t(w) <= G(w)['now'] + s.period, t(w) < 2 ** 60 + s.period, z3.If(G(w)['due'] < 0, t(w) >= s.now0 + s.period, z3.And(t(w) >= G(w)['end'], z3.Implies(z3.And(G(w)['end'] >= G(w)['due'], G(w)['now'] - G(w)['due'] <= s.period), t(w) == G(w)['due'] + s.period))))))]
        return out
    w_period = lambda s: s.period
    w = World(ctx, 'Write', True, [(rx(r'^lightstep::AutoRecorder::WaitForNextWrite\('), wnext), (rx(r'^lightstep::AutoRecorder::FlushOne\('), one), (rx(r'^lightstep::AutoRecorder::MakeWriterExit\('), stop)], cand); box['w'] = w; e, st = w.e, w.st; e.total = None; st.gset('turn', Z(0)); st.gset('end', Z(-1)); st.gset('due', Z(-1)); st.gset('stopped', F)
    for o in outs_of(w, e.run('vf_write', st, [Ptr(w.rec, 0)]), 'Write'): G = o.ghost; e.prove(o, z3.Or(G['turn'] == 2, zb(G['stopped'])), 'Write: ends only when told to, or after telling those waiting that it does'); e.prove(o, not G['held'], 'Write: no mutex is kept')
    return e


def record(ctx):
    w = World(ctx, 'RecordSpan'); e, st = w.e, w.st; sp = e.new_obj(st, 'span', kind='struct', size=8)
    for o in outs_of(w, e.run('vf_record', st, [Ptr(w.rec, 0), Ptr(sp, 0)]), 'RecordSpan'):
        G = o.ghost; e.prove(o, b_and(not G['held'], G['locks'] == 1), 'RecordSpan: no mutex is kept'); w.unchanged(o)
        if G['locks'] != 1: continue
        b = G['before']; more = G['pub N'] > b['N']; e.prove(o, z3.Implies(z3.And(more, G['pub N'] >= b['max']), zb(G['notified'])), 'RecordSpan: the reporting thread is woken when there is much to report')
        e.prove(o, G['pub exit'] == b['exit'], 'RecordSpan: the recorder goes on')
    return e


def exits(ctx):
    w = World(ctx, 'MakeWriterExit'); e, st = w.e, w.st
    for o in outs_of(w, e.run('vf_exit', st, [Ptr(w.rec, 0)]), 'MakeWriterExit'): G = o.ghost; w.unchanged(o); e.prove(o, b_and(not G['held'], G['locks'] == 1, zb(G['notified']), G['pub exit'] != 0), 'MakeWriterExit: all are told of the exit, and woken')
    return e


class Life(World):
    def ready(s, st): return b_and(z3.And(s.get(st, 'F') == 0, s.get(st, 'E') == 1, z3.Not(s.X(st)), s.get(st, 'dropped') == 0, z3.And(st.ghost['value'] >= 0, s.get(st, 'max') == st.ghost['value'])), s.e.norm_ptr(s.e.load(st, s.at('transporter'), ir.PTR)).obj is s.tp, s.e.norm_ptr(s.e.load(st, s.at('cond'), ir.PTR)).obj is s.cv, s.e.norm_ptr(s.e.load(st, s.at('observer'), ir.PTR)).obj is not None)


def life(ctx):
    """the recorder is made; its thread runs Write; it is destroyed, with the thread and the callers having done whatever they may in between"""
    engs = []
    for own in (True, False):
        w = Life(ctx, 'AutoRecorder' + (', no observer' if not own else '')); e, st = w.e, w.st; engs.append(e); w.mayfail = True
        def options(g, t, a, i):
            if len(a) > 1: w.e.store(t, w.at('observer'), ir.PTR, Ptr(w.obs, 0) if own else NULL); w.setf(t, 'period', w.period)
            return w.part(g, t, a, i)
        e.contracts.insert(0, (rx(r'^lightstep::LightStepTracerOptions::~?LightStepTracerOptions\('), options)); ran = []
        e.contracts.insert(0, (rx(r'^lightstep::AutoRecorder::Write\('), lambda g, t, a, i: (g.prove(t, g.ptr_eq(a[0], Ptr(w.rec, 0)), 'thread: of this recorder'), ran.append(1), [(t, None)])[2]))
        st.mem[w.rec.id] = {}; opt, tp, cv = (e.new_obj(st, k, kind='struct', size=n) for k, n in (('options', 4096), ('its transporter', 8), ('its condition', 8))); e.store(st, Ptr(tp, 0), ir.PTR, Ptr(w.tp, 0)); e.store(st, Ptr(cv, 0), ir.PTR, Ptr(w.cv, 0)); n = 0
        fn = [x for x in w.m.funcs if re.search(r'^lightstep::AutoRecorder::AutoRecorder\(.*ConditionVariableWrapper', e.dem(x))]
        if len(fn) != 1: raise Unsupported('%d constructors' % len(fn))
        for o in e.run(fn[0], st, [Ptr(w.rec, 0), Ptr(w.logger, 0), Ptr(opt, 0), Ptr(tp, 0), Ptr(cv, 0)]):
            e.cur = o; G = o.ghost
            if o.outcome[0] == 'throw': e.prove(o, G['thread'] != 'running', 'constructor: no thread is left when it fails'); continue
            n += 1; e.prove(o, G['thread'] == 'running' and not G['held'], 'constructor: reporting begins')
            if G['state'] is None: continue
            p = G['state']; t = o.clone(); t.outcome = None; e.cur = t; k0 = len(ran); vt = e.norm_ptr(e.load(t, p, ir.PTR)); run = e.norm_ptr(e.load(t, Ptr(vt.obj, e.dom.off_add(vt.off, 16)), ir.PTR)); qs = e.call_value(t, run, [p]); e.prove(t, len(qs) > 0 and len(ran) > k0, 'thread: writes reports')
            t = o.clone(); t.outcome = None; e.cur = t; x, f, en = z3.FreshInt('X'), z3.FreshInt('F'), z3.FreshInt('E'); t.assume(z3.And(x >= 0, x <= 1, f >= 0, f < 2 ** 60, z3.Or(en == f + 1, en == f + 2))); w.setf(t, 'exit', x, 8); w.setf(t, 'F', f); w.setf(t, 'E', en); t.ghost['locks'] = 0; w.pub(t)
            d = [y for y in w.m.funcs if re.search(r'^lightstep::AutoRecorder::~AutoRecorder\(', e.dem(y)) and not y.endswith('D0Ev')]
            for q in outs_of(w, e.run(d[0], t, [Ptr(w.rec, 0)]), 'destructor'): e.prove(q, q.ghost['thread'] == 'joined' and not q.ghost['held'], 'destructor: waits for the thread')
        e.prove(st, n > 0, 'constructor: succeeds')
    return engs


def units(ctx):
    A = 'AutoRecorder::'; U = lambda n, f, fs: Unit(n, f, fs, 900)
    return [U('FlushWithTimeout', flush, [A + 'FlushWithTimeout', 'StandardConditionVariableWrapper::WaitFor']), U('WaitForNextWrite', wait_next, [A + 'WaitForNextWrite', 'StandardConditionVariableWrapper::WaitUntil']), U('Write', write, [A + 'Write', 'StandardConditionVariableWrapper::Now']), U('RecordSpan', record, [A + 'RecordSpan', 'StandardConditionVariableWrapper::NotifyAll']), U('MakeWriterExit', exits, [A + 'MakeWriterExit']), U('life', life, [A + 'AutoRecorder', A + '~AutoRecorder'])]


def natives(ctx):
    from props import C30
    n = C30.natives(ctx)[0]; return [Native('native/C39.cpp', srcs=n.srcs, protos=True, gensrcs=n.gensrcs, libs=n.libs, san='thread', budget=(12, 90))]
