"""C30: recorders - every finished span is reported once or counted as dropped (contracts on the recorders; one step of each from any state)."""
import os
from cvg.runner import Unit, Native, REPO
from cvg.util import *
from props.C01 import World, M

ASSUMPTIONS = ['the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)', 'protobuf messages behave as specified (Clear, CopyFrom, swap, Add, set_...)', 'allocation succeeds; logging does not throw',
               'a synchronous transporter reports failure by its result (one that throws stops the reporting thread for good)', 'spans buffered when the recorder is destroyed are lost with it', 'counts fit in int']
TRUSTED = ['std::mutex excludes', 'std::unique_ptr, std::lock_guard (their inlined library code is executed)']
SRC = ['harness/recorders.cpp', 'src/recorder/legacy_manual_recorder.cpp', 'src/recorder/report_builder.cpp', 'src/recorder/auto_recorder.cpp']
LR, AR = 'lightstep::LegacyManualRecorder', 'lightstep::AutoRecorder'
H = 'recorder/legacy_manual_recorder.h'
RR = 'lightstep::collector::ReportRequest'
I = z3.IntSort()


def prepare(ctx): ctx.protos()


class Req:
    """what a report request holds: n spans from before, those added since, whether the preamble is there, the counts given"""
    def __init__(s, base, n, added=(), pre=False, samples=()): s.base, s.n, s.added, s.pre, s.samples = base, n, tuple(added), pre, tuple(samples)
    def count(s): return zi(s.n) + len(s.added)
    def but(s, **k): return Req(**{**dict(base=s.base, n=s.n, added=s.added, pre=s.pre, samples=s.samples), **k})
    def same(s, o): return s.base == o.base and s.added == o.added


EMPTY = Req('none', z3.IntVal(0))


class Proto:
    """protobuf's messages by contract; the recorder and its collaborators"""
    def __init__(s, ctx, name, cls, members, cand=None):
        s.O = ctx.offsets(['recorder/legacy_manual_recorder.h', 'recorder/auto_recorder.h'], {k: (cls, v) for k, v in members.items()}, {'R': cls, 'RR': RR})
        s.hasoff = ctx.offsets(['recorder/auto_recorder.h'], {'has': ('opentracing::expected<void>', 'has_')}, {})['has']
        s.sf = ctx.offsets(['recorder/legacy_manual_recorder.h'], {'spans': (RR, '_impl_.spans_')}, {}).get('spans')
        T = r'(::_internal_|::)'
        s.e = e = Engine(ctx.module(SRC), name=name, candidates=int_candidates([], (), cand) if cand else None, contracts=[
            (rx(r'^VfObserver::OnSpansSent'), s.obs('sent')), (rx(r'^VfObserver::OnSpansDropped'), s.obs('dropped')), (rx(r'^VfObserver::OnFlush'), s.obs('flushes')),
            (rx(r'^(void )?lightstep::(Logger::|LogReportResponse|Concatenate)'), noop),
            (rx(r'DynamicConfigurationValue<unsigned long>::value\('), lambda g, st, a, i: [(st, IV(64, u=s.fresh(st, 'max buffered', 0)))]),
            (rx(r'^%s::ReportRequest\((google::protobuf::Arena\*, bool)?\)' % RR), s.rr_ctor), (rx(r'^%s::~ReportRequest\(' % RR), s.rr_dtor), (rx(r'^%s::ReportRequest\(%s&&\)' % (RR, RR)), s.rr_move),
            (rx(r'^%s::operator=\(%s&&\)' % (RR, RR)), s.rr_moveassign), (rx(r'^%s::(InternalSwap|Swap|UnsafeArenaSwap)\(' % RR), s.rr_swap), (rx(r'swap\(%s&, %s&\)' % (RR, RR)), s.rr_swap), (rx(r'^%s::Clear\(' % RR), s.rr_clear),
            (rx(r'^%s::(CopyFrom\(|operator=\(.* const&\)|MergeFrom\()' % RR), s.rr_copy),
            (rx(r'^%s::spans_size\(' % RR), lambda g, st, a, i: [(st, IV(32, s=s.get(st, a[0]).count()))]), (rx(r'^%s::(spans|mutable_spans)\(\)' % RR), lambda g, st, a, i: [(st, Ptr(a[0].obj, g.dom.off_add(a[0].off, s.sf)))]),
            (rx(r'RepeatedPtrField<lightstep::collector::Span>::Add\(\)'), lambda g, st, a, i: s.add(st, s.owner(a[0]))), (rx(r'^%s::add_spans\(' % RR), lambda g, st, a, i: s.add(st, a[0])),
            (rx(r'RepeatedPtrField<lightstep::collector::Span>::size\(|RepeatedPtrFieldBase::size\('), lambda g, st, a, i: [(st, IV(32, s=s.get(st, s.owner(a[0])).count()))]),
            (rx(r'RepeatedPtrField<lightstep::collector::Span>::empty\('), lambda g, st, a, i: [(st, s.get(st, s.owner(a[0])).count() == 0)]),
            (rx(r'^lightstep::collector::Span::(operator=\(.* const&\)|CopyFrom\()'), s.span_copy),
            (rx(r'^%s::(_internal_)?mutable_internal_metrics\(' % RR), s.mmetrics), (rx(r'^lightstep::collector::InternalMetrics::(_internal_)?add_counts\('), s.add_count),
            (rx(r'^(void )?lightstep::collector::MetricsSample::set_name'), s.set_name), (rx(r'ArenaStringPtr::Set(Bytes)?\('), s.set_name), (rx(r'^std::__cxx11::basic_string<.*>::basic_string(<.*>)?\(char const\*, '), s.string), (rx(r'^lightstep::collector::MetricsSample::set_int_value\('), s.set_value),
            (rx(r'RepeatedPtrField<lightstep::collector::Command>::begin\('), lambda g, st, a, i: [(st, Ptr(s.cmds, 0))]), (rx(r'RepeatedPtrField<lightstep::collector::Command>::end\('), lambda g, st, a, i: [(st, Ptr(s.cmds, z3.simplify(s.nc * 8)))]),
            (rx(r'^lightstep::collector::ReportResponse::commands\(int\)'), lambda g, st, a, i: [(st, Ptr(s.cmds, z3.simplify(zi(g.dom.idx(a[1])) * 8)))]), (rx(r'^lightstep::collector::ReportResponse::(commands\(\)|~?ReportResponse\()'), lambda g, st, a, i: [(st, a[0])]), (rx(r'^lightstep::collector::ReportResponse::commands_size|RepeatedPtrField<lightstep::collector::Command>::size\('), lambda g, st, a, i: [(st, IV(32, s=s.nc))]),
            (rx(r'RepeatedPtrIterator<lightstep::collector::Command const>::operator\*\('), lambda g, st, a, i: [(st, g.load(st, a[0], ir.PTR))]),
            (rx(r'^lightstep::collector::Command::(_internal_)?disable\('), s.disable),
            (rx(r'^VfError::what'), lambda g, st, a, i: [(st, a[0])])] + s.contracts() + textio())
        st = State(); e.cur = st; s.st = st
        s.nc, s.K = z3.Ints('commands K')
        s.Dis = z3.Array('disables', I, z3.BoolSort())
        st.assume(z3.And(s.nc >= 0, s.nc < 2 ** 20))
        s.cmds = e.new_obj(st, 'commands', kind='array', stride=8, layout={0: ('int', 64, False)}, n=s.nc)
        s.rec = e.new_obj(st, 'recorder', kind='struct', size=s.O['R'])
        s.span = e.new_obj(st, 'the span', kind='struct', size=8)
        s.observer = virtual_object(e, st, '10VfObserver', 'observer')
        st.ghost.update(req={}, sent=z3.IntVal(0), dropped=z3.IntVal(0), flushes=0, content={}, sample={}, strings={}, sends=(), held=False)

    def contracts(s): return []

    def fresh(s, st, nm, lo=0, hi=2 ** 30):
        v = z3.Int('%s!%d' % (nm, next(Obj.ids))); st.assume(z3.And(v >= lo, v < hi)); return v

    def field(s, st, k, w=64, signed=False):
        v = s.e.as_int(s.e.load(st, Ptr(s.rec, s.O[k]), ir.INT(w)))
        return zi(s.e.dom.s(v) if signed else s.e.dom.u(v))

    def setf(s, st, k, v, w=64): s.e.store(st, Ptr(s.rec, s.O[k]), ir.INT(w), IV(w, u=zi(v)))

    # ---- requests
    def key(s, p):
        p = s.e.norm_ptr(p)
        if p.obj is None or not is_c(p.off): raise Unsupported('which report request')
        return (p.obj.id, p.off)

    def owner(s, p):
        p = s.e.norm_ptr(p)
        if not is_c(p.off): raise Unsupported('whose spans')
        return Ptr(p.obj, p.off - s.sf)

    def get(s, st, p):
        k = s.key(p)
        if k not in st.ghost['req']: raise Unsupported('contents of an unknown report request')
        return st.ghost['req'][k]

    def put(s, st, p, r):
        d = dict(st.ghost['req']); d[s.key(p)] = r; st.ghost['req'] = d

    def guard(s, st, p, what): pass     # AutoRecorder: is the lock held

    def rr_ctor(s, g, st, a, i): s.put(st, a[0], EMPTY); return [(st, None)]
    def rr_dtor(s, g, st, a, i): return [(st, None)]
    def rr_move(s, g, st, a, i): s.put(st, a[0], s.get(st, a[1])); s.put(st, a[1], EMPTY); s.guard(st, a[1], 'write'); return [(st, None)]

    def rr_moveassign(s, g, st, a, i):
        x, y = s.get(st, a[0]), s.get(st, a[1]); s.put(st, a[0], y); s.put(st, a[1], x); s.guard(st, a[0], 'write'); s.guard(st, a[1], 'write'); return [(st, a[0])]

    def rr_swap(s, g, st, a, i): s.rr_moveassign(g, st, a, i); return [(st, None)]
    def rr_clear(s, g, st, a, i): s.put(st, a[0], EMPTY); s.guard(st, a[0], 'write'); return [(st, None)]

    def rr_copy(s, g, st, a, i):
        y = s.get(st, a[1]); x = s.get(st, a[0]); s.guard(st, a[0], 'write')
        if 'Merge' in (g.dem(i.get('callee') or '') if isinstance(i.get('callee'), str) else ''):
            g.prove(st, x.count() == 0, 'merged into an empty request')
        s.put(st, a[0], y); return [(st, a[0])]

    def add(s, st, p):
        e = s.e; o = e.new_obj(st, 'added span', kind='struct', size=8); s.guard(st, p, 'write')
        x = s.get(st, p); s.put(st, p, x.but(added=x.added + (o.id,)))
        return [(st, Ptr(o, 0))]

    def span_copy(s, g, st, a, i):
        d = dict(st.ghost['content']); d[a[0].obj.id] = a[1].obj.id; st.ghost['content'] = d; return [(st, a[0])]

    def mmetrics(s, g, st, a, i):
        x = s.get(st, a[0]); s.guard(st, a[0], 'write')
        o = g.new_obj(st, 'internal metrics', kind='struct', size=64); d = dict(st.ghost.get('mo', {})); d[o.id] = a[0]; st.ghost['mo'] = d
        return [(st, Ptr(o, 0))]

    def add_count(s, g, st, a, i):
        p = st.ghost.get('mo', {}).get(a[0].obj.id)
        if p is None: raise Unsupported('whose counts')
        o = g.new_obj(st, 'count', kind='struct', size=64); st.mem[o.id] = {k: (8, NULL) for k in range(0, 64, 8)}; x = s.get(st, p); s.put(st, p, x.but(samples=x.samples + (o.id,)))
        return [(st, Ptr(o, 0))]

    def text(s, st, p):
        p = s.e.norm_ptr(p)
        if p.obj is None or not p.obj.const or not is_c(p.off) or getattr(p.obj, 'table', None) is None: return None
        return bytes(x & 255 for x in p.obj.table)[p.off:].split(b'\0')[0]

    def sampled(s, st, o, **k):
        d = dict(st.ghost['sample']); d[o] = {**d.get(o, {}), **k}; st.ghost['sample'] = d

    def string(s, g, st, a, i):
        d = dict(st.ghost['strings']); d[a[0].obj.id, a[0].off] = s.text(st, a[1]); st.ghost['strings'] = d; return [(st, None)]

    def set_name(s, g, st, a, i):
        t = s.text(st, a[1]) or st.ghost['strings'].get((a[1].obj.id, a[1].off))
        s.sampled(st, a[0].obj.id, name=t); return [(st, None)]

    def set_value(s, g, st, a, i): s.sampled(st, a[0].obj.id, value=zi(g.dom.s(a[1]))); return [(st, None)]

    def announced(s, st, r, what):
        """the drop count a report carries"""
        e = s.e
        ok = len(r.samples) == 1 and st.ghost['sample'].get(r.samples[0], {}).get('name') == b'spans.dropped' and 'value' in st.ghost['sample'][r.samples[0]]
        e.prove(st, ok, what + ': a report announces one count, of dropped spans')
        return st.ghost['sample'][r.samples[0]]['value'] if ok else z3.IntVal(-1)

    # ---- responses
    def disable(s, g, st, a, i):
        p = g.norm_ptr(a[0])
        if p.obj is not s.cmds: raise Unsupported('which command')
        k = zi(p.off) / 8
        g.prove(st, z3.And(zi(p.off) % 8 == 0, k >= 0, k < s.nc), 'memory: a command of the response is read')
        return [(st, s.Dis[k])]

    def obs(s, k):
        def f(g, st, a, i):
            if k == 'flushes': return [(st, None)]
            st.ghost[k] = st.ghost[k] + zi(g.dom.s(a[1])); return [(st, None)]
        return f


class Legacy(Proto):
    """LegacyManualRecorder: at most one report in flight"""
    MEM = {'pending': 'builder_.pending_', 'preamble': 'builder_.preamble_', 'reset': 'builder_.reset_next_', 'active': 'active_request_', 'disabled': 'disabled_', 'sdropped': 'saved_dropped_spans_', 'spending': 'saved_pending_spans_',
           'flushed': 'flushed_seqno_', 'encoding': 'encoding_seqno_', 'dropped': 'dropped_spans_', 'transporter': 'transporter_', 'observer': 'options_.metrics_observer', 'response': 'active_response_', 'logger': 'logger_p'}

    def __init__(s, ctx, name, busy, reset, cand=None):
        s.mem = {k: v for k, v in s.MEM.items() if k != 'logger'}
        Proto.__init__(s, ctx, name, LR, s.mem, cand)
        e, st = s.e, s.st
        s.tp = virtual_object(e, st, '8VfLegacy', 'transporter')
        s.N, s.D, s.SP, s.SD, s.F, s.d0 = z3.Ints('pending dropped in_flight in_flight_drops flushed disabled')
        lim = 2 ** 29
        st.assume(z3.And(*[z3.And(x >= 0, x < lim) for x in (s.N, s.D, s.SP, s.SD, s.F)], z3.Or(s.d0 == 0, s.d0 == 1)))
        s.busy, s.reset = busy, reset
        if reset: st.assume(s.N == 0)
        s.setf(st, 'reset', int(reset), 8); s.setf(st, 'disabled', s.d0, 8); s.setf(st, 'sdropped', s.SD); s.setf(st, 'spending', s.SP); s.setf(st, 'dropped', s.D)
        s.setf(st, 'flushed', s.F); s.setf(st, 'encoding', s.F + (2 if busy else 1))
        e.store(st, Ptr(s.rec, s.O['transporter']), ir.PTR, Ptr(s.tp, 0)); e.store(st, Ptr(s.rec, s.O['observer']), ir.PTR, Ptr(s.observer, 0))
        s.at = {k: Ptr(s.rec, s.O[k]) for k in ('pending', 'active', 'preamble')}
        s.put(st, s.at['preamble'], Req('preamble', z3.IntVal(0), pre=True))
        # a pending request to be reset is one handed back: cleared
        s.put(st, s.at['pending'], EMPTY if reset else Req('pending', s.N, pre=True))
        s.flying = None
        if busy:
            o = e.new_obj(st, 'count in flight', kind='struct', size=8); s.sampled(st, o.id, name=b'spans.dropped', value=s.SD)
            s.flying = Req('in flight', s.SP, pre=True, samples=(o.id,)); s.put(st, s.at['active'], s.flying); st.assume(s.SP > 0)
        else: s.put(st, s.at['active'], EMPTY)
        s.s0 = st; st.writes = frozenset()

    def contracts(s): return [(rx(r'^VfLegacy::Send\('), s.send), (rx(r'^std::error_code::message|^std::_V2::error_category'), noop)]

    def send(s, g, st, a, i):
        e = s.e
        r = s.get(st, a[1])
        e.prove(st, not s.busy and all(h != 'held' for _, _, h in st.ghost['sends']), 'Send: one report at a time')
        if len(st.ghost['sends']) > 3: raise Unsupported('many reports')
        e.prove(st, e.ptr_eq(a[0], Ptr(s.tp, 0)), 'Send: with the recorder\'s transporter')
        e.prove(st, e.ptr_eq(a[1], s.at['active']), 'Send: the request stays valid until the callback')
        e.prove(st, e.ptr_eq(a[2], Ptr(s.rec, s.O['response'])), 'Send: the response stays valid until the callback')
        cb = e.call_value(st.clone(), 'vf_legacy_cb', [Ptr(s.rec, 0)])[0][1]
        e.prove(st, e.ptr_eq(a[3], cb), 'Send: the recorder is told of the outcome')
        ann = s.announced(st, r, 'Send')
        def how(t, h): t.ghost['sends'] += ((r, ann, h),)
        out = []
        t = st.clone(); how(t, 'held'); out.append((t, None))
        for fn in ('vf_legacy_success', 'vf_legacy_failure'):
            t = st.clone(); how(t, fn[10:])
            args = [Ptr(s.rec, 0)]
            if fn.endswith('failure'): args.append(Ptr(e.new_obj(t, 'error', kind='struct', size=16), 0))
            t.assume(s.nc == 0)     # what a response makes the recorder do: unit OnSuccess
            for u, v in e.call_value(t, fn, args): out.append((u, None))
        t = st.clone(); how(t, 'throws'); out.append((t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(e, t, '7VfError', 'exception'), 0))))
        return out

    def final(s, o, add, what):
        """add: the span finished (or None): its copies and the counts add up"""
        e = s.e; G = o.ghost; e.cur = o
        pend, act = s.get(o, s.at['pending']), s.get(o, s.at['active'])
        drops = s.field(o, 'dropped')
        sends = G['sends']; held = [x for x in sends if x[2] == 'held']
        e.prove(o, all(G['content'].get(x) == s.span.id for r in (pend, act) + tuple(x[0] for x in sends) for x in r.added), what + ': what is reported is what was finished')
        copies = len(pend.added) + sum(len(x[0].added) for x in sends)
        base = [r.base for r in (pend,) + tuple(x[0] for x in sends)]
        nd = (1 - copies) if add else 0                 # dropped rather than kept
        e.prove(o, copies in ((0, 1) if add else (0,)), what + ': the span is kept or sent at most once')
        if not s.reset: e.prove(o, base.count('pending') == 1, what + ': the spans waiting are kept, or sent once')
        lost = z3.IntVal(nd)
        out = told = z3.IntVal(0)           # drops announced with a report that has not failed; spans sent
        for r, ann, how in sends:
            e.prove(o, r.count() > 0, what + ': a report has spans'); e.prove(o, r.pre is True, what + ': a report has its preamble')
            if how in ('failure', 'throws'): lost = lost + r.count()
            else: out = out + ann
            told = told + r.count()
        e.prove(o, G['sent'] == told, what + ': the observer is told how many were sent')
        e.prove(o, G['dropped'] == lost, what + ': the observer is told of each drop once')
        e.prove(o, drops + out == s.D + lost, what + ': each drop is announced once')
        e.prove(o, s.field(o, 'disabled', 8) == s.d0, what + ': stays enabled')
        s.invariant(o, s.busy or bool(held), held[0] if held else None, what)

    def invariant(s, o, busy, sent, what):
        e = s.e; pend, act = s.get(o, s.at['pending']), s.get(o, s.at['active'])
        e.prove(o, s.field(o, 'encoding') == s.field(o, 'flushed') + (2 if busy else 1), what + ': a report is in progress exactly until its outcome')
        rs = s.field(o, 'reset', 8)
        e.prove(o, z3.Implies(rs != 0, pend.count() == 0), what + ': nothing waits in a request to be reset')
        e.prove(o, z3.Or(rs != 0, z3.BoolVal(pend.pre is True and not pend.samples)), what + ': spans wait behind the preamble')
        pr = s.get(o, s.at['preamble'])
        e.prove(o, pr.base == 'preamble' and not pr.added and not pr.samples, what + ': the preamble stays')
        if busy:
            if sent is None: sent = (s.flying, s.SD)
            e.prove(o, act.base == sent[0].base and act.added == sent[0].added and act.samples == sent[0].samples, what + ': the report in flight is untouched')
            e.prove(o, z3.And(s.field(o, 'spending') == sent[0].count(), s.field(o, 'sdropped') == sent[1]), what + ': what to restore if it fails is known')
        else: e.prove(o, act.count() == 0, what + ': nothing is left of a report that had its outcome')


def legacy_record(busy):
    def f(ctx):
        engs = []
        for reset in (False, True):
            w = Legacy(ctx, 'LegacyManualRecorder::RecordSpan', busy, reset); e = w.e; engs.append(e)
            outs = returns(e, e.run('vf_legacy_record', w.st, [Ptr(w.rec, 0), Ptr(w.span, 0)]), 'RecordSpan'); reachable(e, outs)
            for o in outs:
                e.cur = o
                if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
                w.final(o, True, 'RecordSpan')
                e.prove(o, z3.Implies(w.d0 == 1, z3.BoolVal(not any(r.added for r in (w.get(o, w.at['pending']), w.get(o, w.at['active']))) and not o.ghost['sends'])), 'RecordSpan: a disabled recorder keeps and sends nothing')
        return engs
    return f


def legacy_flush(busy):
    def f(ctx):
        engs = []
        for reset in (False, True):
            w = Legacy(ctx, 'LegacyManualRecorder::FlushWithTimeout', busy, reset); e = w.e; engs.append(e)
            outs = returns(e, e.run('vf_legacy_flush', w.st, [Ptr(w.rec, 0)]), 'Flush'); reachable(e, outs)
            for o in outs:
                e.cur = o
                if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
                w.final(o, False, 'Flush')
                r = zb(o.outcome[1]); hows = [x[2] for x in o.ghost['sends']]
                if not hows: e.prove(o, z3.Implies(r, w.N == 0), 'Flush: is a success without a report only if nothing waits')
                if 'throws' in hows: e.prove(o, z3.Not(r), 'Flush: a refused report is a failure')
                if not busy: e.prove(o, z3.Implies(z3.And(w.d0 == 0, w.N > 0), z3.BoolVal(bool(hows))), 'Flush: what waits is sent')
        return engs
    return f


def legacy_outcome(ok):
    def f(ctx):
        engs = []
        for some in ((False, True) if ok else (False,)):
            for reset in (False, True):
                def cands(eng, view, some=some):
                    w = box[0]; out = []
                    d = lambda st: w.field(st, 'disabled', 8)
                    out.append(('disabled or not as before', lambda v: z3.Or(d(v.st) == d(v.entry), d(v.st) == 1)))
                    for name, t in view.ints():
                        def x(v, name=name): return zi(v.term(v.get(name)))
                        out.append(('%s whole' % (name,), lambda v, x=x: z3.And(x(v) % 8 == 0, x(v) >= 0)))
                        out.append(('%s within' % (name,), lambda v, x=x: x(v) <= 8 * w.nc)); out.append(('%s index within' % (name,), lambda v, x=x: z3.And(x(v) >= 0, x(v) <= w.nc)))
                        out.append(('past K by %s' % (name,), lambda v, x=x: z3.Implies(x(v) > 8 * w.K, d(v.st) == 1))); out.append(('past K, index %s' % (name,), lambda v, x=x: z3.Implies(x(v) > w.K, d(v.st) == 1)))
                    return out
                box = []
                w = Legacy(ctx, 'LegacyManualRecorder::OnSuccess' if ok else 'LegacyManualRecorder::OnFailure', True, reset, cands); box.append(w); e = w.e; engs.append(e)
                k = z3.Int('k'); st = w.st
                if some: st.assume(z3.And(w.K >= 0, w.K < w.nc, w.Dis[w.K]))
                else: st.assume_q(z3.ForAll([k], z3.Not(w.Dis[k]), patterns=[w.Dis[k]])); st.assume(w.K == w.nc)
                args = [Ptr(w.rec, 0)]
                if not ok: args.append(Ptr(e.new_obj(st, 'error', kind='struct', size=16), 0))
                outs = returns(e, e.run('vf_legacy_success' if ok else 'vf_legacy_failure', st, args), 'outcome'); reachable(e, outs)
                for o in outs:
                    e.cur = o; G = o.ghost; what = 'OnSuccess' if ok else 'OnFailure'
                    pend = w.get(o, w.at['pending'])
                    e.prove(o, pend.base == ('none' if reset else 'pending') and not pend.added, what + ': what waits stays')
                    lost = 0 if ok else w.SP
                    e.prove(o, z3.And(G['dropped'] == lost, G['sent'] == 0), what + ': the observer is told of the drops, once')
                    e.prove(o, w.field(o, 'dropped') == w.D + (0 if ok else w.SP + w.SD), what + ': the spans and the drop count of a failed report are carried over')
                    e.prove(o, w.field(o, 'disabled', 8) == (1 if some else w.d0), what + ': disabled exactly when told so')
                    w.invariant(o, False, None, what)
        return engs
    return f


class Auto(Proto):
    """AutoRecorder: what the lock guards is anything its invariant allows whenever it is taken"""
    MEM = {'pending': 'builder_.pending_', 'preamble': 'builder_.preamble_', 'reset': 'builder_.reset_next_', 'inflight': 'inflight_', 'exit': 'write_exit_', 'max': 'max_buffered_spans_snapshot_', 'flushed': 'flushed_seqno_',
           'encoding': 'encoding_seqno_', 'dropped': 'dropped_spans_', 'transporter': 'transporter_', 'observer': 'options_.metrics_observer', 'mutex': 'write_mutex_', 'cond': 'write_cond_'}
    SHARED = (('exit', 8), ('max', 64), ('flushed', 64), ('encoding', 64), ('dropped', 64), ('reset', 8))

    def __init__(s, ctx, name, writer, reset, cand=None):
        s.writer, s.reset = writer, reset       # is this the reporting thread; is the pending request to be reset when first locked
        Proto.__init__(s, ctx, name, AR, s.MEM, cand)
        e, st = s.e, s.st
        s.tp = virtual_object(e, st, '6VfSync', 'transporter'); s.cv = virtual_object(e, st, '6VfCond', 'condition')
        for k, o in (('transporter', s.tp), ('observer', s.observer), ('cond', s.cv)): e.store(st, Ptr(s.rec, s.O[k]), ir.PTR, Ptr(o, 0))
        s.at = {k: Ptr(s.rec, s.O[k]) for k in ('pending', 'inflight', 'preamble')}
        s.put(st, s.at['preamble'], Req('preamble', z3.IntVal(0), pre=True)); s.put(st, s.at['inflight'], EMPTY); s.put(st, s.at['pending'], EMPTY)
        s.seq = z3.Int('seq'); st.assume(z3.And(s.seq >= 0, s.seq < 2 ** 29))
        for k, w in s.SHARED: s.setf(st, k, s.seq if k == 'flushed' else s.seq + 1 if k == 'encoding' else 0, w)
        st.ghost.update(cs=(), outside=s.shared(st), resp=None, notified=False, stopped=z3.BoolVal(False))
        s.s0 = st; st.writes = frozenset()

    def contracts(s):
        stop = [(rx(r'^lightstep::AutoRecorder::MakeWriterExit\('), s.stop)] if s.writer else []
        return stop + [(rx(r'^VfSync::Send\('), s.send), ('pthread_mutex_lock', s.lock), ('pthread_mutex_unlock', s.unlock), (rx(r'^VfCond::NotifyAll'), s.notify), (rx(r'^std::_V2::(system|generic)_category'), noop), (rx(r'^std::function<bool \(\)>::~?function|_Function_base::~'), noop)]

    def stop(s, g, st, a, i):
        """MakeWriterExit by its contract (unit MakeWriterExit)"""
        g.prove(st, not st.ghost['held'], 'MakeWriterExit: the lock is free')
        g.prove(st, g.ptr_eq(a[0], Ptr(s.rec, 0)), 'MakeWriterExit: of this recorder')
        st.ghost['stopped'] = z3.BoolVal(True); return [(st, None)]

    def notify(s, g, st, a, i): st.ghost['notified'] = True; return [(st, None)]

    def guard(s, st, p, what):
        if s.e.norm_ptr(p).obj is s.rec and s.key(p) == s.key(s.at['pending']): s.e.prove(st, st.ghost['held'], 'lock: the pending request is changed under the lock')

    def shared(s, st): return tuple(s.e.load(st, Ptr(s.rec, s.O[k]), ir.INT(w)) for k, w in s.SHARED) + (s.get(st, s.at['pending']),)

    def unchanged(s, st, what):
        x, y = s.shared(st), st.ghost['outside']
        s.e.prove(st, b_and(x[-1].base == y[-1].base and x[-1].added == y[-1].added, z3.And(*[zi(s.e.dom.u(s.e.as_int(a))) == zi(s.e.dom.u(s.e.as_int(b))) for a, b in zip(x[:-1], y[:-1])])), what)

    def havoc(s, st):
        first = not st.ghost['cs']
        v = dict(N=s.fresh(st, 'pending', 0, 2 ** 29), D=s.fresh(st, 'dropped', 0, 2 ** 29), X=s.fresh(st, 'exit', 0, 2), M=s.fresh(st, 'max', 0, 2 ** 29))
        st.assume(v['X'] >= s.field(st, 'exit', 8))
        reset = s.reset if first else False
        # between two locked sections other threads may have put spans in, so that both are possible again; told apart by the number waiting
        base = 'pending%d' % len(st.ghost['cs'])
        if reset: st.assume(v['N'] == 0); s.put(st, s.at['pending'], EMPTY)
        else: s.put(st, s.at['pending'], Req(base, v['N'], pre=True))
        s.setf(st, 'reset', int(reset), 8); s.setf(st, 'dropped', v['D']); s.setf(st, 'exit', v['X'], 8)
        if not s.writer: s.setf(st, 'max', v['M']); f = s.fresh(st, 'flushed', 0, 2 ** 29); s.setf(st, 'flushed', f); en = s.fresh(st, 'encoding', 1, 2 ** 29); st.assume(z3.Or(en == f + 1, en == f + 2)); s.setf(st, 'encoding', en)
        else: s.setf(st, 'max', v['M'])     # (the reporting thread sets this itself, elsewhere)
        v.update(base=s.get(st, s.at['pending']), F=s.field(st, 'flushed'), E=s.field(st, 'encoding'))
        return v

    def lock(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.rec, s.O['mutex'])), 'lock: the recorder\'s mutex is used')
        g.prove(st, not st.ghost['held'], 'lock: not taken twice')
        s.unchanged(st, 'lock: what it guards is changed only under it')
        st.ghost['held'] = True
        st.ghost['now'] = s.havoc(st)
        return [(st, g.dom.const(32, 0))]

    def unlock(s, g, st, a, i):
        g.prove(st, st.ghost['held'], 'lock: released once')
        st.ghost['held'] = False; v = st.ghost['now']
        r = s.get(st, s.at['pending']); rs = s.field(st, 'reset', 8)
        after = dict(r=r, D=s.field(st, 'dropped'), X=s.field(st, 'exit', 8), F=s.field(st, 'flushed'), E=s.field(st, 'encoding'))
        g.prove(st, z3.Implies(rs != 0, r.count() == 0), 'lock: nothing waits in a request to be reset')
        g.prove(st, z3.Or(rs != 0, z3.BoolVal(r.pre is True and not r.samples)), 'lock: spans wait behind the preamble')
        g.prove(st, after['X'] >= v['X'], 'lock: a recorder told to exit stays so')
        if not s.writer: g.prove(st, z3.And(after['F'] == v['F'], after['E'] == v['E']), 'lock: only the reporting thread numbers the reports')
        st.ghost['cs'] += ((v, after),); st.ghost['outside'] = s.shared(st)
        return [(st, g.dom.const(32, 0))]

    def send(s, g, st, a, i):
        e = s.e; r = s.get(st, a[2])
        e.prove(st, not st.ghost['held'], 'Send: not with the lock held')
        e.prove(st, e.ptr_eq(a[1], Ptr(s.tp, 0)), 'Send: with the recorder\'s transporter')
        st.ghost['resp'] = a[3]
        st.ghost['sends'] += ((r, s.announced(st, r, 'Send')),)
        out = []
        for ok in (True, False):
            t = st.clone(); t.ghost['ok'] = ok
            g.store(t, Ptr(a[0].obj, g.dom.off_add(a[0].off, s.hasoff)), ir.INT(8), IV(8, u=z3.IntVal(int(ok))))
            if not ok: t.assume(s.K == s.nc)
            out.append((t, None))
        return out


def auto_record(ctx):
    engs = []
    for reset in (False, True):
        w = Auto(ctx, 'AutoRecorder::RecordSpan', False, reset); e = w.e; engs.append(e)
        outs = returns(e, e.run('vf_auto_record', w.st, [Ptr(w.rec, 0), Ptr(w.span, 0)]), 'RecordSpan'); reachable(e, outs)
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            w.unchanged(o, 'lock: what it guards is changed only under it')
            e.prove(o, not G['held'], 'lock: is released')
            e.prove(o, not G['sends'] and all(G['content'].get(x) == w.span.id for _, a in G['cs'] for x in a['r'].added), 'RecordSpan: what is kept is what was finished')
            kept = sum(len(a['r'].added) - len(v['base'].added) for v, a in G['cs'])
            e.prove(o, kept in (0, 1), 'RecordSpan: the span is kept at most once')
            e.prove(o, all(a['r'].base == v['base'].base or (reset and a['r'].base in ('preamble', 'none')) for v, a in G['cs']), 'RecordSpan: the spans waiting are kept')
            n = 1 - kept
            e.prove(o, z3.And([z3.Implies(a['X'] == 1, z3.BoolVal(len(a['r'].added) == len(v['base'].added))) for v, a in G['cs']] + [z3.BoolVal(True)]), 'RecordSpan: a recorder told to exit, which sends nothing more, keeps nothing more')
            e.prove(o, z3.Sum([a['D'] - v['D'] for v, a in G['cs']] + [z3.IntVal(0)]) == n, 'RecordSpan: a span not kept is counted as dropped, once')
            e.prove(o, z3.And(G['dropped'] == n, G['sent'] == 0), 'RecordSpan: the observer is told of the drop, once')
            e.prove(o, z3.And([a['X'] == v['X'] for v, a in G['cs']] + [z3.BoolVal(True)]), 'RecordSpan: the recorder goes on')
    return engs


def auto_exit(ctx):
    w = Auto(ctx, 'AutoRecorder::MakeWriterExit', False, False); e = w.e
    outs = returns(e, e.run('vf_auto_exit', w.st, [Ptr(w.rec, 0)]), 'MakeWriterExit'); reachable(e, outs)
    for o in outs:
        e.cur = o; G = o.ghost
        w.unchanged(o, 'lock: what it guards is changed only under it')
        e.prove(o, b_and(not G['held'], len(G['cs']) >= 1), 'lock: is taken and released')
        e.prove(o, all(a['r'].base == v['base'].base and not a['r'].added for v, a in G['cs']) and not G['sends'], 'MakeWriterExit: the spans waiting stay')
        e.prove(o, z3.And([a['D'] == v['D'] for v, a in G['cs']]), 'MakeWriterExit: so do the drops')
        if G['cs']: e.prove(o, G['cs'][-1][1]['X'] == 1, 'MakeWriterExit: the recorder is told to exit')
        e.prove(o, G['notified'], 'MakeWriterExit: those waiting are woken')
    return e


def auto_flush(ctx):
    engs = []
    for some in (False, True):
        for reset in (False, True):
            box = []
            def cands(eng, view):
                w = box[0]; out = []
                d = lambda st: st.ghost['stopped']
                out.append(('stopped as before', lambda v: d(v.st) == d(v.entry)))
                for name, t in view.ints():
                    def x(v, name=name): return zi(v.term(v.get(name)))
                    out.append(('%s whole' % (name,), lambda v, x=x: z3.And(x(v) % 8 == 0, x(v) >= 0)))
                    out.append(('%s within' % (name,), lambda v, x=x: x(v) <= 8 * w.nc)); out.append(('%s index within' % (name,), lambda v, x=x: z3.And(x(v) >= 0, x(v) <= w.nc)))
                    out.append(('past K by %s' % (name,), lambda v, x=x: z3.Implies(x(v) > 8 * w.K, d(v.st)))); out.append(('past K, index %s' % (name,), lambda v, x=x: z3.Implies(x(v) > w.K, d(v.st))))
                return out
            w = Auto(ctx, 'AutoRecorder::FlushOne', True, reset, cands); box.append(w); e = w.e; engs.append(e); st = w.st
            k = z3.Int('k')
            if some: st.assume(z3.Or(w.K == w.nc, z3.And(w.K >= 0, w.K < w.nc, w.Dis[w.K])))
            else: st.assume_q(z3.ForAll([k], z3.Not(w.Dis[k]), patterns=[w.Dis[k]])); st.assume(w.K == w.nc)
            outs = returns(e, e.run('vf_auto_flush', st, [Ptr(w.rec, 0)]), 'FlushOne'); reachable(e, outs)
            for o in outs:
                e.cur = o; G = o.ghost; cs = G['cs']
                if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
                w.unchanged(o, 'lock: what it guards is changed only under it')
                e.prove(o, not G['held'], 'lock: is released')
                taken = [v for v, a in cs if a['r'].base != v['base'].base]
                e.prove(o, all(z3.simplify(a['r'].count()).eq(z3.IntVal(0)) or a['r'].base == v['base'].base for v, a in cs) and not any(a['r'].added for v, a in cs), 'FlushOne: the spans waiting are taken together')
                sends = G['sends']; lost = z3.IntVal(0); back = z3.IntVal(0)
                e.prove(o, len(sends) <= 1, 'FlushOne: one report')
                if sends:
                    (r, ann), = sends
                    bases = [v['base'].base for v in taken if v['base'].base != 'none']
                    e.prove(o, bases == [r.base] and not r.added, 'FlushOne: the spans taken are sent, once')
                    e.prove(o, r.count() > 0, 'FlushOne: a report has spans'); e.prove(o, r.pre is True, 'FlushOne: a report has its preamble')
                    if G['ok'] is False: lost = r.count()
                    else: back = ann
                    e.prove(o, G['sent'] == r.count(), 'FlushOne: the observer is told how many were sent')
                    e.prove(o, w.get(o, w.at['inflight']).count() == 0, 'FlushOne: nothing is left of the report')
                    e.prove(o, z3.And(w.field(o, 'flushed') == w.seq + 1, w.field(o, 'encoding') == w.seq + 2), 'FlushOne: the report is numbered, and done')
                    e.prove(o, G['notified'], 'FlushOne: those waiting for the report are woken')
                else:
                    e.prove(o, z3.And([v['base'].count() == 0 for v in taken] + [z3.BoolVal(True)]), 'FlushOne: spans taken are sent')
                    e.prove(o, z3.Or([v['base'].count() == 0 for v, a in cs] + [z3.BoolVal(False)]), 'FlushOne: what waits is sent')
                    e.prove(o, G['sent'] == 0, 'FlushOne: nothing is reported as sent')
                    e.prove(o, z3.And(w.field(o, 'flushed') == w.seq, w.field(o, 'encoding') == w.seq + 1), 'FlushOne: no report is numbered')
                e.prove(o, G['dropped'] == lost, 'FlushOne: the observer is told of the drops, once')
                e.prove(o, z3.Sum([a['D'] - v['D'] for v, a in cs] + [z3.IntVal(0)]) + back == lost, 'FlushOne: each drop is announced once, or carried over if the report fails')
                e.prove(o, z3.And([a['X'] == v['X'] for v, a in cs] + [z3.BoolVal(True)]), 'FlushOne: the recorder goes on')
                if sends and G['ok'] and some: e.prove(o, z3.Implies(w.K < w.nc, G['stopped']), 'FlushOne: a recorder told to stop does')
                if not some or not sends or not G['ok']: e.prove(o, z3.Not(G['stopped']), 'FlushOne: the recorder goes on')
    return engs


# ---- the recorders over the circular buffer
SRC2 = ['harness/recorders2.cpp', 'src/recorder/manual_recorder.cpp', 'src/recorder/stream_recorder/stream_recorder.cpp']
MR, SR, CS = 'lightstep::ManualRecorder', 'lightstep::StreamRecorder', 'lightstep::ChainedStream'


class ManualFlush(World):
    """ManualRecorder::FlushWithTimeout, the one consumer, while producers run"""
    def __init__(s, ctx, name):
        def inv(eng, v):
            g = lambda w: w.st.ghost
            return [('shared invariant', lambda w: s.phi_g(w.st, False)), ('shared invariant (position)', lambda w: s.phi_p(w.st, s.p)), ('shared invariant (slot)', lambda w: s.phi_i(w.st, s.i)), ('head only grows', lambda w: s.h(w.st) >= s.h(w.entry)),
                    ('nothing in hand', lambda w: g(w)['held'] == 0), *[('taken at most up to the head seen (%d)' % k, lambda w, k=k: g(w)['lo'] <= w.entry.ghost['heads'][k]) for k in range(len(v.entry.ghost['heads']))], ('taken at most what was consumed', lambda w: g(w)['lo'] <= s.t(w.st)), ('lo >= t0', lambda w: g(w)['lo'] >= s.t0), ('tail', lambda w: s.t(w.st) == s.t(w.entry)),
                    ('added what was taken', lambda w: g(w)['added'] == g(w)['lo'] - s.t0), ('up to the end of the array', lambda w: g(w)['lo'] - s.t0 <= s.cap - M(s.t0)), ('beyond the end of the array', lambda w: g(w)['lo'] - s.t0 >= s.cap - M(s.t0)), ('slots follow each other', lambda w: M(g(w)['lo']) == z3.If(M(s.t0) + g(w)['lo'] - s.t0 < s.cap, M(s.t0) + g(w)['lo'] - s.t0, M(s.t0) + g(w)['lo'] - s.t0 - s.cap))]
        nop = lambda g, st, a, i: [(st, a[0])]
        cs = [(rx(r'^lightstep::ReportRequest::ReportRequest\('), s.ctor), (rx(r'^lightstep::ReportRequest::AddSpan\('), s.addspan), (rx(r'^lightstep::ReportRequest::num_dropped_spans\('), lambda g, st, a, i: [(st, IV(32, s=st.ghost['rdropped']))]), (rx(r'^lightstep::ReportRequest::num_spans\('), lambda g, st, a, i: [(st, IV(32, s=st.ghost['added']))]),
              (rx(r'default_delete<lightstep::ReportRequest>::operator\(\)|^lightstep::ReportRequest::~'), s.destroy), ('operator new(unsigned long)', s.alloc), (rx(r'^std::shared_ptr<.*>::~?shared_ptr'), nop),
              (rx(r'MetricsTracker::ConsumeDroppedSpans\('), s.consume), (rx(r'MetricsTracker::UnconsumeDroppedSpans\('), s.unconsume), (rx(r'MetricsTracker::OnFlush\('), noop), (rx(r'MetricsTracker::num_dropped_spans\('), lambda g, st, a, i: [(st, IV(32, s=st.ghost['pending']))]),
              (rx(r'^VfAsync::Send\('), s.send), ('pthread_mutex_lock', s.lock(True)), ('pthread_mutex_unlock', s.lock(False)), (rx(r'^(void )?lightstep::Logger::'), noop)]
        o = {k: (MR, 'span_buffer_.%s_' % k) for k in ('data', 'capacity', 'head', 'tail')}
        World.__init__(s, ctx, name, 'consumer', contracts=cs, measures=[('elements taken', lambda st: st.ghost['lo'])], extra=inv, src=SRC2, hdr=('recorder/manual_recorder.h', 'recorder/serialization/report_request.h'), T=CS, dtor=rx(r'^lightstep::ChainedStream::~ChainedStream\('), offs={**o, 'transporter': (MR, 'transporter_'), 'metrics': (MR, 'metrics_'), 'mutex': (MR, 'flush_mutex_')}, sizes={'C': MR, 'RR': 'lightstep::ReportRequest'})
        e, st = s.e, s.st
        e.demangled['_Znwm'] = 'operator new(unsigned long)'
        s.P = z3.Int('pending_drops'); st.assume(z3.And(s.P >= 0, s.P < 2 ** 30))
        s.tp = virtual_object(e, st, '7VfAsync', 'transporter')
        e.store(st, Ptr(s.b, s.O['transporter']), ir.PTR, Ptr(s.tp, 0))
        st.ghost.update(report=None, added=z3.IntVal(0), rdropped=z3.IntVal(0), pending=s.P, sends=(), locked=False, gone=False)
        st.writes = frozenset(); st.gwrites = frozenset()

    def rely(s, eng, st, ins, p):
        if s.loc(p) is not None: eng.prove(st, st.ghost['locked'], 'lock: one thread at a time takes spans from the buffer')
        return World.rely(s, eng, st, ins, p)

    def lock(s, take):
        def f(g, st, a, i):
            g.prove(st, g.ptr_eq(a[0], Ptr(s.b, s.O['mutex'])), 'lock: the recorder\'s flush mutex is used')
            g.prove(st, st.ghost['locked'] is not take, 'lock: taken and released in turn')
            st.ghost['locked'] = take
            return [(st, g.dom.const(32, 0))]
        return f

    def alloc(s, g, st, a, i):
        if st.ghost['report'] is not None: raise Unsupported('more than one allocation')
        o = g.new_obj(st, 'report', kind='struct', size=s.O['RR']); st.ghost['report'] = o
        return [(st, Ptr(o, 0))]

    def isreport(s, st, p): return b_and(st.ghost['report'] is not None, not st.ghost['gone'], s.e.ptr_eq(p, Ptr(st.ghost['report'], 0)) if st.ghost['report'] else False)
    def ctor(s, g, st, a, i): g.prove(st, s.isreport(st, a[0]), 'the report is built where it was allocated'); st.ghost['rdropped'] = zi(g.dom.s(a[2])); return [(st, None)]

    def destroy(s, g, st, a, i):
        g.prove(st, b_and(s.isreport(st, a[-1]), z3.And(st.ghost['added'] == 0, st.ghost['rdropped'] == 0)), 'Flush: a report not sent has neither spans nor drops')
        st.ghost['gone'] = True; return [(st, None)]

    def addspan(s, g, st, a, i):
        x = s.kof(g.load(st, a[1], ir.PTR))
        g.prove(st, s.isreport(st, a[0]), 'Flush: spans go into the report')
        g.prove(st, z3.And(x == st.ghost['held'], x != 0), 'Flush: the span just taken is put into the report, once')
        g.store(st, a[1], ir.PTR, NULL); st.gset('held', z3.IntVal(0)); st.gset('added', st.ghost['added'] + 1)
        return [(st, None)]

    def tracker(s, st, p): s.e.prove(st, s.e.ptr_eq(p, Ptr(s.b, s.O['metrics'])), 'the recorder\'s tracker counts')
    def consume(s, g, st, a, i): s.tracker(st, a[0]); v = st.ghost['pending']; st.ghost['pending'] = z3.IntVal(0); return [(st, IV(32, s=v))]
    def unconsume(s, g, st, a, i): s.tracker(st, a[0]); st.ghost['pending'] = st.ghost['pending'] + zi(g.dom.s(a[1])); return [(st, None)]

    def send(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.tp, 0)), 'Send: with the recorder\'s transporter')
        g.prove(st, s.isreport(st, g.load(st, a[1], ir.PTR)), 'Send: the report is sent, once')
        g.prove(st, not st.ghost['locked'], 'Send: not with the lock held')
        cb = g.call_value(st.clone(), 'vf_manual_cb', [Ptr(s.b, 0)])[0][1]
        g.prove(st, g.ptr_eq(a[2], cb), 'Send: the recorder is told of the outcome')
        g.store(st, a[1], ir.PTR, NULL); st.ghost['gone'] = True
        st.ghost['sends'] += ((st.ghost['added'], st.ghost['rdropped']),)
        return [(st, None)]


def manual_flush(ctx):
    w = ManualFlush(ctx, 'ManualRecorder::FlushWithTimeout'); e = w.e
    outs = returns(e, e.run('vf_manual_flush', w.st, [Ptr(w.b, 0)]), 'Flush'); reachable(e, outs); sent = set()
    for o in outs:
        e.cur = o; G = o.ghost
        if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
        sends = G['sends']; sent.add(len(sends))
        e.prove(o, len(sends) <= 1, 'Flush: one report')
        a, d = sends[0] if sends else (z3.IntVal(0), z3.IntVal(0))
        e.prove(o, z3.And(G['lo'] - w.t0 == a, w.t(o) - w.t0 == a), 'Flush: exactly the spans taken are sent')
        e.prove(o, w.t(o) >= w.h0, 'Flush: every span recorded before is sent')
        e.prove(o, G['held'] == 0, 'Flush: no span is lost between buffer and report')
        e.prove(o, G['pending'] + d == w.P, 'Flush: the drop count goes out with the report, or stays')
        e.prove(o, not G['locked'], 'lock: is released')
        e.prove(o, zb(o.outcome[1]), 'Flush: succeeds')
    st = State(); e.cur = st
    e.prove(st, sent == {0, 1}, 'Flush: sends, or has nothing to send')
    return e


class Rec:
    """the recording side: Add by its contract (C01), the framing by its contracts (C12, C26)"""
    def __init__(s, ctx, name, cls):
        s.cls, s.stream = cls, cls == SR
        s.O = ctx.offsets(['recorder/manual_recorder.h', 'recorder/stream_recorder/stream_recorder.h'], {'buffer': (cls, 'span_buffer_'), 'metrics': (cls, 'metrics_'), **({} if s.stream else {'transporter': (cls, 'transporter_')})}, {'R': cls, 'CS': CS})
        s.e = e = Engine(ctx.module(SRC2), name=name, contracts=[
            (rx(r'CircularBuffer<lightstep::ChainedStream>::Add\('), s.add), (rx(r'^lightstep::WriteReportRequestSpansHeader\('), s.spans_header), (rx(r'^lightstep::WriteHttpChunkHeader\('), s.chunk_header),
            (rx(r'ChainedStream::ByteCount\('), lambda g, st, a, i: [(st, IV(64, s=s.live(st, a[0]) or s.N))]), (rx(r'ChainedStream::CloseOutput\('), s.close), (rx(r'(ComposableFragmentInputStream|ChainedStream)::Seek\('), s.seek),
            (rx(r'default_delete<lightstep::ChainedStream>::operator\(\)|ChainedStream::~ChainedStream'), s.free), (rx(r'MetricsTracker::OnSpansDropped\('), s.count('dropped')), (rx(r'MetricsTracker::OnSpansSent\('), s.count('sent')), (rx(r'MetricsTracker::UnconsumeDroppedSpans\('), s.count('pending')),
            (rx(r'^VfAsync::OnSpanBufferFull'), s.full), (rx(r'^(void )?lightstep::Logger::Debug'), noop), (rx(r'lightstep::Logger::level'), lambda g, st, a, i: [(st, IV(32, s=s.level))]),
            (rx(r'ChainedStream::Next\('), s.next), (rx(r'ChainedStream::BackUp\('), s.backup), (rx(r'CodedOutputStream::WriteRaw\('), s.raw), ('strlen', s.strlen), ('__cxa_allocate_exception', lambda g, st, a, i: [(st, Ptr(g.new_obj(st, 'exception', kind='struct', size=8), 0))]),
            (rx(r'ReportRequest::num_dropped_spans\('), lambda g, st, a, i: [(st, IV(32, s=s.rd))]), (rx(r'ReportRequest::num_spans\('), lambda g, st, a, i: [(st, IV(32, s=s.rn))]), ('__dynamic_cast', lambda g, st, a, i: [(st, a[0])])] + textio())
        st = State(); e.cur = st; s.st = st
        s.N, s.H, s.level, s.rn, s.rd, s.h, s.c = z3.Ints('bytes reserved level spans drops header chunk')
        st.assume(z3.And(s.N >= 0, s.N < 2 ** 30, s.level >= 0, s.level < 7, s.rn >= 0, s.rn < 2 ** 30, s.rd >= 0, s.rd < 2 ** 30))
        s.rec = e.new_obj(st, 'recorder', kind='struct', size=s.O['R']); s.span = e.new_obj(st, 'the span', kind='struct', size=s.O['CS'])
        s.ow = e.new_obj(st, 'owner', kind='struct', size=8); st.mem[s.ow.id] = {0: (8, Ptr(s.span, 0))}
        if not s.stream: s.tp = virtual_object(e, st, '7VfAsync', 'transporter'); e.store(st, Ptr(s.rec, s.O['transporter']), ir.PTR, Ptr(s.tp, 0))
        s.buf = e.new_obj(st, 'block', kind='array', stride=1, layout={0: ('int', 8, False)}, n=s.H)
        Z = z3.IntVal(0)
        st.ghost.update(adds=0, accepted=0, freed=0, dropped=Z, sent=Z, pending=Z, closed=False, sought=None, sh=None, ch=None, full=0, raws=(), back=None)
        for n in s.e.m.funcs:
            if n.startswith('_GLOBAL__sub_I_' + ('stream' if s.stream else 'manual')): (st, _), = e.call_value(st, n, []); s.st = st; e.cur = st
        st.writes = frozenset()

    def live(s, st, p):
        """the span is used only while the recorder owns it"""
        s.e.prove(st, b_and(p.obj is s.span, st.ghost['accepted'] == 0, st.ghost['freed'] == 0), 'the span is used only while it is owned')

    def add(s, g, st, a, i):
        G = st.ghost
        g.prove(st, g.ptr_eq(a[0], Ptr(s.rec, s.O['buffer'])), 'RecordSpan: into the recorder\'s buffer')
        g.prove(st, g.ptr_eq(g.load(st, a[1], ir.PTR), Ptr(s.span, 0)), 'RecordSpan: the span is added'); s.live(st, Ptr(s.span, 0))
        g.prove(st, b_and(G['closed'], G['sought'] is not None, G['sh'] is not None, not s.stream or G['ch'] is not None), 'RecordSpan: a span is framed before others can see it')
        st.ghost['adds'] += 1
        if st.ghost['adds'] > 4: raise Unsupported('many attempts')
        t = st.clone(); t.ghost['accepted'] = 1; g.store(t, a[1], ir.PTR, NULL)
        return [(t, True), (st, False)]

    def spans_header(s, g, st, a, i):
        footer = 2 if s.stream else 0
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.buf, 0)), z3.And(zi(g.dom.u(a[1])) == s.H)), 'framing: the span header ends where the span begins')
        g.prove(st, z3.And(zi(g.dom.u(a[2])) == s.N - s.H - footer), 'framing: the span header gives the size of the span')
        st.ghost['sh'] = s.h; st.assume(z3.And(s.h >= 2, s.h <= 6)); return [(st, IV(64, u=s.h))]

    def chunk_header(s, g, st, a, i):
        g.prove(st, st.ghost['sh'] is not None, 'framing: the span header comes first')
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.buf, 0)), z3.And(zi(g.dom.u(a[1])) == s.H - s.h)), 'framing: the chunk header ends where the span header begins')
        g.prove(st, z3.And(zi(g.dom.u(a[2])) == s.N - s.H - 2 + s.h), 'framing: the chunk header gives the size of span header and span')
        st.ghost['ch'] = s.c; st.assume(z3.And(s.c >= 3, s.c <= 10)); return [(st, IV(64, u=s.c))]

    def close(s, g, st, a, i): s.live(st, a[0]); st.ghost['closed'] = True; return [(st, None)]

    def seek(s, g, st, a, i):
        s.live(st, a[0])
        g.prove(st, st.ghost['closed'], 'framing: the span is closed before it is repositioned')
        st.ghost['sought'] = (zi(g.dom.s(a[1])), zi(g.dom.s(a[2]))); return [(st, None)]

    def free(s, g, st, a, i): s.live(st, a[-1]); st.ghost['freed'] += 1; return [(st, None)]

    def count(s, k):
        def f(g, st, a, i):
            g.prove(st, g.ptr_eq(a[0], Ptr(s.rec, s.O['metrics'])), 'the recorder\'s tracker counts')
            st.ghost[k] = st.ghost[k] + zi(g.dom.s(a[1])); return [(st, None)]
        return f

    def full(s, g, st, a, i): st.ghost['full'] += 1; return [(st, None)]

    def next(s, g, st, a, i):
        g.prove(st, st.ghost['back'] is None, 'ReserveHeaderSpace: one block')
        t = st.clone(); t.ghost['back'] = 'none'
        st.ghost['back'] = z3.IntVal(0)
        g.store(st, a[1], ir.PTR, Ptr(s.buf, 0)); g.store(st, a[2], ir.INT(32), IV(32, s=s.H))
        return [(st, True), (t, False)]

    def backup(s, g, st, a, i):
        n = zi(g.dom.s(a[1])); g.prove(st, z3.And(n >= 0, n <= s.H), 'memory: no more is given back than was got')
        st.ghost['back'] = st.ghost['back'] + n; return [(st, None)]

    def raw(s, g, st, a, i):
        p = g.norm_ptr(a[1]); n = z3.simplify(zi(g.dom.s(a[2])))
        if not z3.is_int_value(n) or not p.obj.const or getattr(p.obj, 'table', None) is None: raise Unsupported('footer')
        st.ghost['raws'] += (bytes(x & 255 for x in p.obj.table)[p.off:p.off + n.as_long()],); return [(st, None)]

    def strlen(s, g, st, a, i):
        p = g.norm_ptr(a[0]); b = bytes(x & 255 for x in p.obj.table)[p.off:]
        return [(st, IV(64, u=z3.IntVal(b.index(0))))]


def record(cls):
    def f(ctx):
        w = Rec(ctx, cls.split('::')[1] + '::RecordSpan', cls); e = w.e; st = w.st
        need = 16 if w.stream else 6
        st.assume(z3.And(w.H >= need, w.H <= 64, w.N >= w.H + (2 if w.stream else 0)))
        hp = e.new_obj(st, 'header fragment', kind='struct', size=16); st.mem[hp.id] = {0: (8, Ptr(w.buf, 0)), 8: (4, IV(32, s=w.H))}
        outs = returns(e, e.run('vf_stream_record' if w.stream else 'vf_manual_record', st, [Ptr(w.rec, 0), Ptr(hp, 0), Ptr(w.ow, 0)]), 'RecordSpan'); reachable(e, outs); kinds = set()
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            kinds.add(G['accepted'])
            e.prove(o, G['adds'] >= 1, 'RecordSpan: the span is offered to the buffer')
            e.prove(o, z3.And(G['dropped'] == 1 - G['accepted'], G['sent'] == 0), 'RecordSpan: a span refused is counted as dropped, once')
            own = e.norm_ptr(e.load(o, Ptr(w.ow, 0), ir.PTR))
            if G['accepted'] or G['freed']: e.prove(o, e.ptr_eq(own, NULL), 'RecordSpan: a span is owned once')
            else: e.prove(o, e.ptr_eq(own, Ptr(w.span, 0)), 'RecordSpan: a span is owned once')
            e.prove(o, b_and(G['sought'] is not None, z3.And(G['sought'][0] == 0, G['sought'][1] == w.H - w.h - (w.c if w.stream else 0)) if G['sought'] else False), 'framing: reading begins at the first header, past the space not used')
        s0 = State(); e.cur = s0; e.prove(s0, kinds == {0, 1}, 'RecordSpan: is accepted or refused')
        return e
    return f


def reserve(cls):
    def f(ctx):
        w = Rec(ctx, cls.split('::')[1] + '::ReserveHeaderSpace', cls); e = w.e; st = w.st
        st.assume(z3.And(w.H >= 64, w.H < 2 ** 20))      # ChainedStream::BlockSize
        hp = e.new_obj(st, 'header fragment', kind='struct', size=16); st.mem[hp.id] = {0: (8, NULL), 8: (4, IV(32, s=z3.IntVal(0)))}
        outs = e.run('vf_stream_reserve' if w.stream else 'vf_manual_reserve', st, [Ptr(w.rec, 0), Ptr(w.span, 0), Ptr(hp, 0)]); reachable(e, outs)
        for o in outs:
            e.cur = o; G = o.ghost
            if isinstance(G['back'], str): e.prove(o, o.outcome[0] == 'throw', 'ReserveHeaderSpace: fails without a block'); continue
            e.prove(o, o.outcome[0] != 'throw', 'ReserveHeaderSpace: succeeds')
            if o.outcome[0] == 'throw': continue
            n = zi(e.dom.s(e.load(o, Ptr(hp, 8), ir.INT(32))))
            e.prove(o, e.ptr_eq(e.load(o, Ptr(hp, 0), ir.PTR), Ptr(w.buf, 0)), 'ReserveHeaderSpace: at the beginning of the span')
            e.prove(o, z3.And(n >= (16 if w.stream else 6), G['back'] == w.H - n), 'ReserveHeaderSpace: room for the largest headers is left before the span')
        if w.stream:
            w = Rec(ctx, 'StreamRecorder::WriteFooter', cls); e2 = w.e; co = e2.new_obj(w.st, 'coded stream', kind='struct', size=80)
            for o in returns(e2, e2.run('vf_stream_footer', w.st, [Ptr(w.rec, 0), Ptr(co, 0)]), 'WriteFooter'):
                e2.cur = o; e2.prove(o, b''.join(o.ghost['raws']) == b'\r\n', 'WriteFooter: a chunk ends with a line break')
            return [e, e2]
        return e
    return f


def manual_outcome(ctx):
    engs = []
    for ok in (True, False):
        w = Rec(ctx, 'ManualRecorder::OnSuccess' if ok else 'ManualRecorder::OnFailure', MR); e = w.e; engs.append(e); st = w.st
        rr = e.new_obj(st, 'report', kind='struct', size=80)
        outs = returns(e, e.run('vf_manual_success' if ok else 'vf_manual_failure', st, [Ptr(w.rec, 0), Ptr(rr, 0)]), 'outcome'); reachable(e, outs)
        for o in outs:
            e.cur = o; G = o.ghost
            e.prove(o, z3.And(G['sent'] == (w.rn if ok else 0), G['dropped'] == (0 if ok else w.rn), G['pending'] == (0 if ok else w.rd)), 'OnSuccess: the spans of the report are counted as sent' if ok else 'OnFailure: the spans of the report are counted as dropped, its drops are announced again')
    return engs


def units(ctx):
    B = ['ReportBuilder::AddSpan', 'ReportBuilder::pending', 'ReportBuilder::num_pending_spans', 'ReportBuilder::set_pending_client_dropped_spans']
    L = B + ['LegacyManualRecorder::FlushOne', 'LegacyManualRecorder::IsReportInProgress']
    return [Unit('LegacyManualRecorder::RecordSpan, idle', legacy_record(False), ['LegacyManualRecorder::RecordSpan'] + L, timeout=300), Unit('LegacyManualRecorder::RecordSpan, report in flight', legacy_record(True), ['LegacyManualRecorder::RecordSpan'] + L, timeout=300),
            Unit('LegacyManualRecorder::FlushWithTimeout, idle', legacy_flush(False), ['LegacyManualRecorder::FlushWithTimeout'] + L, timeout=300), Unit('LegacyManualRecorder::FlushWithTimeout, report in flight', legacy_flush(True), ['LegacyManualRecorder::FlushWithTimeout'] + L, timeout=300),
            Unit('LegacyManualRecorder::OnSuccess', legacy_outcome(True), ['LegacyManualRecorder::OnSuccess'], timeout=300), Unit('LegacyManualRecorder::OnFailure', legacy_outcome(False), ['LegacyManualRecorder::OnFailure'], timeout=300),
            Unit('AutoRecorder::RecordSpan', auto_record, ['AutoRecorder::RecordSpan'] + B, timeout=300), Unit('AutoRecorder::MakeWriterExit', auto_exit, ['AutoRecorder::MakeWriterExit'], timeout=200), Unit('AutoRecorder::FlushOne', auto_flush, ['AutoRecorder::FlushOne', 'AutoRecorder::WriteReport'] + B, timeout=300),
            Unit('ManualRecorder::FlushWithTimeout', manual_flush, ['ManualRecorder::FlushWithTimeout', 'CircularBuffer<ChainedStream>::size', 'CircularBuffer<ChainedStream>::Consume', 'CircularBufferRange::ForEach'], timeout=300), Unit('ManualRecorder::OnSuccess, OnFailure', manual_outcome, ['ManualRecorder::OnSuccess', 'ManualRecorder::OnFailure'], timeout=200),
            Unit('ManualRecorder::RecordSpan', record(MR), ['ManualRecorder::RecordSpan'], timeout=200), Unit('StreamRecorder::RecordSpan', record(SR), ['StreamRecorder::RecordSpan'], timeout=200),
            Unit('ManualRecorder::ReserveHeaderSpace', reserve(MR), ['ManualRecorder::ReserveHeaderSpace'], timeout=200), Unit('StreamRecorder::ReserveHeaderSpace', reserve(SR), ['StreamRecorder::ReserveHeaderSpace', 'StreamRecorder::WriteFooter'], timeout=200)]


Q = 'lightstep-tracer-common/'


def natives(ctx):
    R = 'src/recorder/'; C = 'src/common/'
    srcs = [R + x + '.cpp' for x in ('auto_recorder', 'legacy_manual_recorder', 'manual_recorder', 'report_builder', 'metrics_tracker', 'transporter', 'fork_aware_recorder', 'serialization/report_request', 'serialization/report_request_header', 'serialization/embedded_metrics_message')]
    srcs += [C + x + '.cpp' for x in ('utility', 'logger', 'timestamp', 'random', 'hex_conversion', 'protobuf', 'serialization', 'report_request_framing', 'buffer_chain', 'chained_stream', 'composable_fragment_input_stream', 'fragment_input_stream', 'fragment_array_input_stream', 'platform/utility_unix', 'platform/fork_unix')]
    srcs = [x for x in srcs if os.path.exists(REPO + '/' + x)]
    return [Native('native/C30.cpp', srcs=srcs, protos=True, gensrcs=[Q + 'collector.pb.cc', Q + 'google/api/annotations.pb.cc', Q + 'google/api/http.pb.cc'], libs=['-lprotobuf', '-lpthread'], budget=(10, 60))]
