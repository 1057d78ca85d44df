"""C11: MetricsTracker - every step on the shared counter is accounted for, observer called exactly once."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['atomic read-modify-writes are indivisible (C++11); other threads may change the counter arbitrarily between any two steps (rely)',
               'the counter stays within +-2^30 (no wrap-around)', 'the metrics observer is an arbitrary implementation of MetricsObserver called through its virtual functions']


def build(ctx):
    m = ctx.module(['harness/c_sync.cpp', 'src/recorder/metrics_tracker.cpp'])
    sh = {}

    def obs(name):
        def h(eng, st, args, ins):
            st.ghost['calls'] = st.ghost.get('calls', ()) + ((name, args[0], eng.dom.s(args[1]) if len(args) > 1 else None),)
            return [(st, None)]
        return h

    def rely(eng, st, ins, p):
        if p.obj is not sh['o']: return None
        if not is_c(p.off) or p.off != sh['off']: return None
        v = z3.Int('counter!%d' % next(Obj.ids))
        st.assume(z3.And(v >= -2 ** 30, v <= 2 ** 30))
        cont = dict(eng.content(st, p.obj)); cont[p.off] = (4, IV(32, s=v)); st.mem[p.obj.id] = cont
        return [st]

    def guar(eng, pre, st, ins, p, kind, old, new):
        if p.obj is not sh['o']: return
        if kind == 'load': st.gset('lastload', eng.dom.s(old) if not is_c(eng.dom.s(old)) else z3.IntVal(eng.dom.s(old)))
        if kind in ('load', 'casfail'): return
        st.gset('delta', iadd(st.ghost['delta'], isub(eng.dom.s(new), eng.dom.s(old))))
        st.gset('zeroed', zb(rel('==', eng.dom.s(new), 0)))
        if kind == 'store':
            eng.prove(st, zb(rel('==', eng.dom.s(new), eng.dom.s(old))), 'guarantee: the counter is changed only by atomic read-modify-writes (a plain store loses concurrent drops)')
    C = [('vf::Observer::OnSpansSent', obs('OnSpansSent')), ('vf::Observer::OnSpansDropped', obs('OnSpansDropped')), ('vf::Observer::OnFlush', obs('OnFlush'))]

    def cands(eng, v):
        return [('no net change so far', lambda w: zb(rel('==', w.st.ghost['delta'], 0)))]
    engs = []

    def setup(name):
        e = Engine(m, name=name, contracts=C, on_atomic=rely, after_atomic=guar, candidates=cands); engs.append(e)
        st = State(); e.cur = st
        ob = virtual_object(e, st, 'N2vf8ObserverE', 'observer')
        t = e.new_obj(st, 'tracker', kind='struct', size=16)
        sh['o'] = None
        outs = e.run('vf_tracker_ctor', st, [Ptr(t, 0), Ptr(ob, 0)])
        if len(outs) != 1: raise Unsupported('constructor paths')
        st = outs[0]; st.outcome = None; e.cur = st
        # the counter: the only 4-byte cell
        cells = [k for k, (sz, v) in e.content(st, t).items() if sz == 4]
        if len(cells) != 1: raise Unsupported('no unique counter cell in MetricsTracker')
        e.prove(st, rel('==', e.dom.s(e.content(st, t)[cells[0]][1]), 0), 'a new tracker counts zero drops')
        sh['o'] = t; sh['off'] = cells[0]
        t.shared = lambda off, k=cells[0]: off == k
        st.ghost['delta'] = 0; st.ghost['zeroed'] = z3.BoolVal(False); st.ghost['calls'] = ()
        return e, st, t, ob
    n = z3.Int('n')
    for fn, call, d in (('vf_on_dropped', 'OnSpansDropped', n), ('lightstep::MetricsTracker::OnSpansSent(int)', 'OnSpansSent', 0), ('lightstep::MetricsTracker::OnFlush()', 'OnFlush', 0),
                        ('lightstep::MetricsTracker::UnconsumeDroppedSpans(int)', None, n), ('lightstep::MetricsTracker::ConsumeDroppedSpans()', None, 'take'), ('vf_num_dropped', None, 0)):
        short = fn.split('::')[-1].split('(')[0]
        e, st, t, ob = setup(short)
        f = fn if fn.startswith('vf_') else find(m, e, fn)
        st.assume(z3.And(n >= 0, n <= 2 ** 29))
        nargs = len(m.funcs[f].params)
        outs = returns(e, e.run(f, st, [Ptr(t, 0)] + ([IV(32, s=n)] if nargs > 1 else [])), short)
        reachable(e, outs)
        for s in outs:
            e.cur = s
            cs = s.ghost['calls']
            want = 0 if call is None else 1
            e.prove(s, len(cs) == want, '%s: the observer is called exactly %d time(s)' % (short, want))
            if want and len(cs) == 1:
                e.prove(s, cs[0][0] == call and cs[0][1].obj is ob, '%s: the observer callback is %s' % (short, call))
                if cs[0][2] is not None: e.prove(s, rel('==', cs[0][2], n), '%s: the observer is told the exact amount' % short)
            if isinstance(d, str):
                r = e.dom.s(s.outcome[1])
                e.prove(s, rel('==', s.ghost['delta'], isub(0, r)), 'taking removes from the counter exactly what it returns')
                e.prove(s, s.ghost['zeroed'], 'taking leaves the counter zero in the same atomic step')
            else:
                e.prove(s, rel('==', s.ghost['delta'], d), '%s changes the counter by exactly its amount' % short)
            if short == 'vf_num_dropped':
                e.prove(s, rel('==', e.dom.s(s.outcome[1]), s.ghost.get('lastload', z3.Int('never_loaded'))), 'the reported count is the value of the counter')
    return engs


def units(ctx):
    return [Unit('MetricsTracker', build, ['MetricsTracker::OnSpansDropped', 'MetricsTracker::OnSpansSent', 'MetricsTracker::OnFlush', 'MetricsTracker::ConsumeDroppedSpans',
                                           'MetricsTracker::UnconsumeDroppedSpans', 'MetricsTracker::num_dropped_spans', 'MetricsTracker::MetricsTracker'])]


def natives(ctx):
    return [Native('native/C11.cpp', srcs=['src/recorder/metrics_tracker.cpp'], budget=(8, 60)), Native('native/C11s.cpp', san='undefined', budget=(5, 40))]
