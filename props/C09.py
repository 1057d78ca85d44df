"""C09: SpanStream - allotted spans are enumerated, consumed, kept and counted exactly (contracts on the span stream over the circular buffer)."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.streams import B, F, I, at_stream
from props import C01
from props.C01 import World, M, range_is

ASSUMPTIONS = ['spans follow the contract of composed streams (C05 proves it over C04)', 'the circular buffer follows its invariant (C01 proves that every operation keeps it); producers may run at any time',
               'one consumer thread; spans are distinct objects, each owned once (std::unique_ptr)', 'total fragment counts fit in int',
               'Seek is called with a fragment index inside the allotted spans (its callers seek only to data not wholly consumed)']
TRUSTED = ['std::unique_ptr is executed as compiled']
SRC = ('harness/spanstream.cpp', 'src/recorder/stream_recorder/span_stream.cpp')
T = 'lightstep::ChainedStream'
pk = z3.Function('position_of', I, I)      # position of a stored element


class Spans(World):
    def __init__(s, ctx, name, allot, measures=(), extra=None, ghost={}):
        N = z3.Int('N'); s.N = N
        s.D = {'calls': 0}
        S = 'lightstep::SpanStream'
        cs = [(rx(r'ComposableFragmentInputStream::num_fragments\('), s.num), (rx(r'ComposableFragmentInputStream::ForEachFragment\('), s.foreach), (rx(r'ComposableFragmentInputStream::Seek\('), s.seek),
              (rx(r'ComposableFragmentInputStream::Clear\('), s.never), (rx(r'MetricsTracker::OnSpansSent\('), s.sent)]
        ms = [('spans visited', lambda st: st.ghost['fe']), ('fragments visited', lambda st: B(st.ghost['fe'])), ('spans taken', lambda st: st.ghost['lo']), ('fragments taken', lambda st: B(st.ghost['lo'] - s.t0))]
        World.__init__(s, ctx, name, 'consumer', contracts=cs, measures=ms + list(measures), extra=s.cand if extra is None else lambda e, v: s.cand(e, v) + extra(e, v), src=SRC, hdr=('recorder/stream_recorder/span_stream.h',), T=T, dtor=rx(r'^lightstep::ChainedStream::~ChainedStream\('),
                       offs={'s.' + k: (S, k + '_') for k in ('span_buffer', 'metrics', 'allotment', 'remnant')}, sizes={'S': S, 'E': T})
        e, st = s.e, s.st
        s.metrics = e.new_obj(st, 'metrics', kind='struct', size=16)
        s.ss = e.new_obj(st, 'span stream', kind='struct', size=s.O['S'])
        s.r0 = z3.Int('old_remnant'); st.assume(z3.And(s.r0 >= 0, s.r0 < 2 ** 64))
        st.ghost.update(fe=z3.IntVal(0), stop=z3.BoolVal(False), sent=z3.IntVal(0), reports=z3.IntVal(0), r0gone=z3.BoolVal(False), sought=z3.IntVal(-1), seekf=z3.IntVal(0), seekp=z3.IntVal(0))
        mem = {s.O['s.span_buffer']: (8, Ptr(s.b, 0)), s.O['s.metrics']: (8, Ptr(s.metrics, 0)), s.O['s.remnant']: (8, Ptr(s.reg, 0, s.r0))}
        if e.gobj('_ZTVN9lightstep10SpanStreamE'): mem[0] = (8, Ptr(e.gobj('_ZTVN9lightstep10SpanStreamE'), 16))
        a = s.O['s.allotment']
        if allot == 'some':
            # what Allot establishes
            m1, m2 = z3.Ints('m1_0 m2_0')
            st.assume(z3.And(N == m1 + m2, m1 >= 0, m2 >= 0, N <= s.h0 - s.t0, N < 2 ** 31, M(s.t0) + m1 <= s.cap, z3.Implies(m2 > 0, z3.And(m1 > 0, M(s.t0) + m1 == s.cap))))
            q = z3.Int('first1'); base = 8 * q; st.assume(z3.Implies(m1 > 0, q == M(s.t0))); st.assume(z3.And(q >= 0, q <= s.cap))
            mem |= {a + s.O['r.first1']: (8, Ptr(s.data, base)), a + s.O['r.last1']: (8, Ptr(s.data, base + 8 * m1)), a + s.O['r.first2']: (8, Ptr(s.data, 0)), a + s.O['r.last2']: (8, Ptr(s.data, 8 * m2))}
        elif allot == 'none':
            st.assume(N == 0)
            mem |= {a + s.O['r.' + k]: (8, Ptr(None, 0)) for k in ('first1', 'last1', 'first2', 'last2')}
        st.mem[s.ss.id] = mem
        k, j = z3.Ints('k j')
        st.assume_q(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j <= N), B(k) <= B(j)), patterns=[z3.MultiPattern(B(k), B(j))]))
        st.assume(z3.And(B(0) == 0, B(N) >= 0, B(N) < 2 ** 31))
        st.writes = frozenset(); st.gwrites = frozenset()

    def cand(s, e, v):
        out = s.moreinv(e, v)
        return out

    def moreinv(s, e, v):
        g = lambda w: w.st.ghost
        out = [('shared invariant', lambda w: s.phi_g(w.st, False)), ('shared invariant (position)', lambda w: s.phi_p(w.st, s.p)), ('shared invariant (slot)', lambda w: s.phi_i(w.st, s.i)), ('head only grows', lambda w: s.h(w.st) >= s.h(w.entry)),
               ('nothing held', lambda w: g(w)['held'] == 0), *[('taken at most up to the head seen (%d)' % k, lambda w, k=k: g(w)['lo'] <= w.entry.ghost['heads'][k]) for k in range(len(v.entry.ghost['heads']))],
               ('lo >= t0', lambda w: g(w)['lo'] >= s.t0), ('tail', lambda w: s.t(w.st) == s.t(w.entry)), ('taken at most what was visited', lambda w: g(w)['lo'] - s.t0 <= w.entry.ghost['fe']), ('taken less than what was visited', lambda w: g(w)['lo'] - s.t0 < w.entry.ghost['fe']),
               ('taken at most what was allotted', lambda w: g(w)['lo'] - s.t0 <= s.N), ('visited at most what was allotted', lambda w: g(w)['fe'] <= s.N), ('visited up to the end of the array', lambda w: g(w)['fe'] <= s.cap - M(s.t0)), ('visited beyond the end of the array', lambda w: g(w)['fe'] >= s.cap - M(s.t0)),
               ('visited >= 0', lambda w: g(w)['fe'] >= 0), ('not stopped', lambda w: z3.Not(g(w)['stop'])), ('old remnant kept or gone as before', lambda w: g(w)['r0gone'] == w.entry.ghost['r0gone']),
               ('up to the end of the array', lambda w: g(w)['lo'] - s.t0 <= s.cap - M(s.t0)), ('beyond the end of the array', lambda w: g(w)['lo'] - s.t0 >= s.cap - M(s.t0)), ('slots follow each other', lambda w: M(g(w)['lo']) == z3.If(M(s.t0) + g(w)['lo'] - s.t0 < s.cap, M(s.t0) + g(w)['lo'] - s.t0, M(s.t0) + g(w)['lo'] - s.t0 - s.cap)),
               ('nothing sought', lambda w: g(w)['sought'] == -1)]
        return out

    def watch(s, st):
        for x in (s.t0 + st.ghost['fe'], s.t0 + st.ghost['fe'] - 1, st.ghost['lo']):
            s.mod(st, x); st.assume(s.phi_p(st, x)); s.near(st, s.t0, x); s.near(st, x, s.t0)
            st.assume(z3.Implies(z3.And(st.ghost['lo'] <= x, x < s.h(st)), pk(st.ghost['seq'][x]) == x))

    def rely(s, eng, st, ins, p):
        r = World.rely(s, eng, st, ins, p)
        return r

    def elem(s, p):
        return zi(p.key if isinstance(p, Ptr) and p.obj is s.reg else s.kof(p))

    def index(s, st, p, what):
        """which allotted span is this"""
        x = s.elem(p); i = pk(x) - s.t0
        s.e.prove(st, z3.And(x > 0, i >= 0, i < s.N, st.ghost['lo'] <= pk(x), st.ghost['seq'][pk(x)] == x), what)
        at_stream(st, i)
        return i

    def num(s, eng, st, args, ins):
        i = s.index(st, args[0], 'only allotted spans still in the buffer are measured')
        st.gset('fe', i + 1)
        return [(st, IV(32, s=F(i)))]

    def never(s, eng, st, args, ins):
        eng.prove(st, False, 'spans are not cleared')
        return [(st, None)]

    def foreach(s, eng, st, args, ins):
        i = s.index(st, args[0], 'only allotted spans still in the buffer are enumerated')
        eng.prove(st, i == st.ghost['fe'], 'ForEachFragment: every allotted span is enumerated once, in order')
        eng.prove(st, z3.Not(st.ghost['stop']), 'ForEachFragment: nothing is enumerated after the visitor stopped')
        eng.prove(st, b_and(eng.ptr_eq(args[1], s.cb[0]), eng.ptr_eq(args[2], s.cb[1])), 'ForEachFragment: the caller\'s visitor is passed on')
        r = z3.Bool('go!%d' % next(Obj.ids))
        st.gset('fe', i + 1); st.gset('stop', z3.Not(r))
        return [(st, r)]

    def seek(s, eng, st, args, ins):
        x = s.elem(args[0]); i = pk(x) - s.t0
        eng.prove(st, z3.And(x > 0, i >= 0, i < s.N, st.ghost['seq'][pk(x)] == x), 'Seek: an allotted span is repositioned')
        eng.prove(st, st.ghost['sought'] == -1, 'Seek: one span is repositioned')
        st.gset('sought', i); st.gset('seekf', zi(eng.dom.s(args[1]))); st.gset('seekp', zi(eng.dom.s(args[2])))
        return [(st, None)]

    def sent(s, eng, st, args, ins):
        eng.prove(st, eng.ptr_eq(args[0], Ptr(s.metrics, 0)), 'spans sent are reported to the stream\'s metrics')
        st.gset('sent', st.ghost['sent'] + zi(eng.dom.s(args[1]))); st.gset('reports', st.ghost['reports'] + 1)
        return [(st, None)]

    def dtor(s, eng, st, args, ins):
        x = s.kof(args[0])
        g = st.ghost
        eng.prove(st, z3.And(x != 0, z3.Or(x == g['held'], z3.And(x == s.r0, z3.Not(g['r0gone'])))), 'only the old remnant and the span just taken are destroyed, once each')
        c = z3.And(x == g['held'])
        st.gset('r0gone', z3.Or(g['r0gone'], z3.Not(c))); st.gset('held', z3.If(c, 0, g['held']))
        return [(st, None)]

    def remnant(s, st): return s.kof(s.e.load(st, Ptr(s.ss, s.O['s.remnant']), ir.PTR))

    def range(s, st):
        a = s.O['s.allotment']
        return [zi(s.e.ptr_term(s.e.norm_ptr(s.e.load(st, Ptr(s.ss, a + s.O['r.' + k]), ir.PTR)))) for k in ('first1', 'last1', 'first2', 'last2')]

    def nothing_allotted(s, st, what):
        f1, l1, f2, l2 = s.range(st)
        s.e.prove(st, z3.And(f1 == l1, f2 == l2), what + ': nothing remains allotted')

    def gone(s, st, what):
        s.e.prove(st, z3.Or(s.r0 == 0, st.ghost['r0gone']), what + ': the old remnant is discarded')

    def ends(s, fn, args, what):
        e = s.e
        outs = returns(e, e.run(fn, s.st, args), what)
        reachable(e, outs)
        for o in outs:
            e.cur = o
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            yield o


def allot(ctx):
    engs = []
    for w in ('some', 'none'):
        W = Spans(ctx, 'Allot' + ('' if w == 'some' else ' (nothing allotted before)'), w); e = W.e; engs.append(e)
        for s in W.ends('vf_allot', [Ptr(W.ss, 0)], 'Allot'):
            n = range_is(W, s, Ptr(W.ss, W.O['s.allotment']), None, 'Allot')
            e.prove(s, n >= W.h0 - W.t0, 'Allot: every span stored before the call is allotted')
            e.prove(s, z3.And(s.ghost['lo'] == W.t0, W.t(s) == W.t0), 'Allot: nothing is removed from the buffer')
            e.prove(s, z3.And(W.remnant(s) == W.r0, z3.Not(s.ghost['r0gone'])), 'Allot: the remnant is kept')
            # the representation the other operations start from
            f1, l1, f2, l2 = W.range(s); m1, m2 = z3.Ints('m1 m2')     # introduced by range_is
            d = zi(W.data.addr)
            for f, txt in ((z3.Implies(m1 > 0, f1 == d + 8 * M(W.t0)), 'the first part starts at the oldest span'), (M(W.t0) + m1 <= W.cap, 'the first part ends within the slots'), (z3.Implies(m2 > 0, z3.And(m1 > 0, M(W.t0) + m1 == W.cap, f2 == d)), 'the second part starts at the first slot')):
                e.prove(s, f, 'Allot: ' + txt)
    return engs


def simple(ctx):
    engs = []
    for w in ('some', 'none'):
        tag = '' if w == 'some' else ' (nothing allotted)'
        W = Spans(ctx, 'num_fragments' + tag, w); e = W.e; engs.append(e)
        for s in W.ends('vf_num', [Ptr(W.ss, 0)], 'num_fragments'):
            e.prove(s, s.ghost['fe'] == W.N, 'num_fragments: no span is left out')
            e.prove(s, zi(e.dom.s(s.outcome[1])) == B(W.N), 'num_fragments: the count is the sum over all allotted spans')
            e.prove(s, z3.And(s.ghost['lo'] == W.t0, W.t(s) == W.t0, W.remnant(s) == W.r0, z3.Not(s.ghost['r0gone'])), 'num_fragments: nothing is consumed')
        W = Spans(ctx, 'ForEachFragment' + tag, w); e = W.e; engs.append(e)
        c = e.new_obj(W.st, 'callable', kind='struct', size=8); W.cb = (Ptr(c, 0), Ptr(e.gobj('vf_cb'), 0))
        for s in W.ends('vf_foreach', [Ptr(W.ss, 0), *W.cb], 'ForEachFragment'):
            e.prove(s, zb(s.outcome[1]) == z3.Not(s.ghost['stop']), 'ForEachFragment: reports exactly whether the visitor stopped')
            e.prove(s, z3.Or(s.ghost['stop'], s.ghost['fe'] == W.N), 'ForEachFragment: unless stopped, no span is left out')
            e.prove(s, z3.And(s.ghost['lo'] == W.t0, W.t(s) == W.t0, W.remnant(s) == W.r0, z3.Not(s.ghost['r0gone'])), 'ForEachFragment: nothing is consumed')
        W = Spans(ctx, 'Clear' + tag, w); e = W.e; engs.append(e); W.limit = W.N
        for s in W.ends('vf_clear', [Ptr(W.ss, 0)], 'Clear'):
            g = s.ghost
            e.prove(s, z3.And(g['lo'] == W.t0 + W.N, W.t(s) == W.t0 + W.N), 'Clear: exactly the allotted spans are removed from the buffer')
            e.prove(s, g['held'] == 0, 'Clear: the removed spans are destroyed')
            e.prove(s, g['sent'] == W.N, 'Clear: exactly the allotted spans are reported as sent')
            e.prove(s, W.remnant(s) == 0, 'Clear: no remnant is kept'); W.gone(s, 'Clear'); W.nothing_allotted(s, 'Clear')
    W = Spans(ctx, 'ConsumeRemnant', 'some'); e = W.e; engs.append(e)
    for s in W.ends('vf_remnant', [Ptr(W.ss, 0)], 'ConsumeRemnant'):
        e.prove(s, W.kof(s.outcome[1]) == W.r0, 'ConsumeRemnant: the remnant is handed out')
        e.prove(s, z3.And(W.remnant(s) == 0, z3.Not(s.ghost['r0gone'])), 'ConsumeRemnant: the stream no longer owns it')
    return engs


def construct(ctx):
    W = Spans(ctx, 'construction', 'none'); e = W.e
    o = e.new_obj(W.st, 'new stream', kind='struct', size=W.O['S'])
    for s in W.ends('vf_ctor', [Ptr(o, 0), Ptr(W.b, 0), Ptr(W.metrics, 0)], 'construction'):
        W.ss = o
        e.prove(s, W.remnant(s) == 0, 'construction: no remnant'); W.nothing_allotted(s, 'construction')
        e.prove(s, b_and(e.ptr_eq(e.load(s, Ptr(o, W.O['s.span_buffer']), ir.PTR), Ptr(W.b, 0)), e.ptr_eq(e.load(s, Ptr(o, W.O['s.metrics']), ir.PTR), Ptr(W.metrics, 0))), 'construction: uses the given buffer and metrics')
    return e


def seek(ctx):
    f, p, J = z3.Ints('f p J')

    def more(e, v):
        g = lambda w: w.st.ghost
        out = [('target not passed by the visit', lambda w: B(g(w)['fe']) <= f), ('target not passed by the removal', lambda w: B(g(w)['lo'] - W.t0) <= f),
               ('target reached or not passed by the removal', lambda w: z3.Or(g(w)['sought'] >= 0, B(g(w)['lo'] - W.t0) <= f)),
               ('remnant A', lambda w: z3.Implies(g(w)['sought'] < 0, W.remnant(w.st) == 0)),
               ('remnant B', lambda w: z3.Implies(g(w)['sought'] >= 0, W.remnant(w.st) == g(w)['seq'][W.t0 + g(w)['sought']])),
               ('remnant C', lambda w: z3.Implies(g(w)['sought'] >= 0, g(w)['lo'] == W.t0 + g(w)['sought'] + 1)),
               ('sought >= -1', lambda w: g(w)['sought'] >= -1),
               ('held', lambda w: g(w)['held'] == z3.If(g(w)['sought'] >= 0, g(w)['seq'][W.t0 + g(w)['sought']], 0)),
               ('what was sought', lambda w: z3.Implies(g(w)['sought'] >= 0, z3.And(g(w)['sought'] == J, g(w)['seekf'] == f - B(g(w)['sought']), g(w)['seekp'] == p)))]
        for name, t in v.ints():
            out.append(('%s is the distance to the target' % (name,), lambda w, name=name: z3.Or(g(w)['sought'] >= 0, zi(w.term(w.get(name))) == f - B(g(w)['lo'] - W.t0))))
        return out
    W = Spans(ctx, 'Seek', 'some', extra=more); e = W.e
    st = W.st; st.assume(z3.And(f >= 0, f < B(W.N), p >= 0, p < 2 ** 31)); W.limit = W.N
    st.assume(z3.And(J >= 0, J < W.N)); at_stream(st, J); st.assume(z3.And(B(J) <= f, f < B(J + 1)))      # the span holding the target (exists since 0 = B(0) <= f < B(N))
    boundary = z3.And(f == B(J), p == 0)
    for s in W.ends('vf_seek', [Ptr(W.ss, 0), IV(32, s=f), IV(32, s=p)], 'Seek'):
        g = s.ghost
        e.prove(s, W.t(s) == W.t0 + J + z3.If(boundary, 0, 1), 'Seek: exactly the spans begun before the target are removed from the buffer')
        e.prove(s, g['lo'] == W.t(s), 'Seek: exactly the removed spans leave their slots')
        e.prove(s, g['sent'] == J, 'Seek: exactly the wholly transmitted spans are reported as sent')
        e.prove(s, z3.If(boundary, z3.And(W.remnant(s) == 0, g['sought'] == -1), z3.And(W.remnant(s) == g['seq'][W.t0 + J], g['sought'] == J)), 'Seek: exactly a partially transmitted span is kept as the remnant')
        e.prove(s, z3.Implies(z3.Not(boundary), z3.And(g['seekf'] == f - B(J), g['seekp'] == p)), 'Seek: the remnant is positioned at its first untransmitted byte')
        e.prove(s, g['held'] == z3.If(boundary, 0, g['seq'][W.t0 + J]), 'Seek: every wholly transmitted span is destroyed, the remnant is not')
        W.gone(s, 'Seek'); W.nothing_allotted(s, 'Seek')
    return e


def units(ctx):
    S = 'SpanStream::'
    return [Unit('Allot', allot, [S + 'Allot', 'CircularBuffer::Peek']), Unit('enumeration and Clear', simple, [S + 'num_fragments', S + 'ForEachFragment', S + 'Clear', S + 'ConsumeRemnant', 'CircularBuffer::Consume', 'CircularBufferRange::ForEach', 'AtomicUniquePtr::Reset']),
            Unit('Seek', seek, [S + 'Seek', 'CircularBuffer::Consume(n, callback)', 'CircularBufferRange::Take', 'AtomicUniquePtr::Swap']), Unit('construction', construct, [S + 'SpanStream'])]


def natives(ctx):
    S = 'src/common/'
    return [Native('native/C09.cpp', srcs=['src/recorder/stream_recorder/span_stream.cpp', S + 'chained_stream.cpp', S + 'composable_fragment_input_stream.cpp', S + 'fragment_input_stream.cpp', 'src/recorder/metrics_tracker.cpp'], libs=['-lprotobuf'], budget=(10, 60))]
