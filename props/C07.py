"""C07: Consume - removing exactly the first n bytes of a list of streams."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg import streams as S
from cvg.streams import B, F, G, gsize

ASSUMPTIONS = ['every stream in the list follows the FragmentInputStream contract (C04-C06, C09, C10 prove it for the streams of this code base) and occurs once in the list', 'n >= 0; total byte and fragment counts fit in int']


def build(ctx):
    m = ctx.module(['harness/streams.cpp', 'src/common/fragment_input_stream.cpp'])
    meas = [('fragments passed', lambda s: zi(s.ghost['fk'])), ('bytes passed', lambda s: G(zi(s.ghost['fk']))), ('streams cleared', lambda s: zi(s.ghost['cleared'])), ('bytes before stream', lambda s: G(B(zi(s.ghost['cleared']))))]

    def more(eng, view):
        return [('the position is in the list', lambda v: z3.And(v.st.ghost['cleared'] >= 0, v.st.ghost['cleared'] <= sts.S)),
                ('fragments passed = those of the cleared streams', lambda v: v.st.ghost['fk'] == B(v.st.ghost['cleared']))]
    e = Engine(m, name='Consume', candidates=int_candidates(meas, (1, -1, 8), more))
    st = State(); e.cur = st
    sts = S.Streams(e, st)

    def clear(eng, s, args, ins):
        i = sts.idx(args[0])
        eng.prove(s, z3.And(i == s.ghost['cleared'], z3.Not(s.ghost['seeked'])), 'streams are emptied in list order, each once, and none after the boundary')
        n1 = i + 1
        S.at_stream(s, i)
        eng.prove(s, G(B(n1)) <= n0, 'a stream is emptied only when all its bytes are among the first n')
        s.gset('cleared', n1)
        return [(s, None)]

    def seek(eng, s, args, ins):
        i = sts.idx(args[0]); f = zi(eng.dom.s(args[1])); p = zi(eng.dom.s(args[2]))
        S.at_stream(s, i)
        S.at_frag(s, B(i) + f)
        eng.prove(s, z3.And(i == s.ghost['cleared'], z3.Not(s.ghost['seeked'])), 'only the stream containing the boundary is repositioned, once')
        eng.prove(s, z3.And(f >= 0, f < F(i)), 'the boundary fragment exists in that stream')
        eng.prove(s, z3.And(p >= 0, p < gsize(B(i) + f)), 'the new position lies inside the boundary fragment')
        eng.prove(s, G(B(i) + f) + p == n0, 'exactly n bytes lie before the new position')
        s.gset('seeked', z3.BoolVal(True))
        return [(s, None)]
    e.contracts = [('vf::Stream::ForEachFragment', sts.foreach()), ('vf::Stream::Clear', clear), ('vf::Stream::Seek', seek)]
    n0 = z3.Int('n'); st.assume(z3.And(n0 >= 0, n0 < 2 ** 31))
    st.ghost.update(fk=z3.IntVal(0), cleared=z3.IntVal(0), seeked=z3.BoolVal(False))
    outs = returns(e, e.run(find(m, e, 'lightstep::Consume('), st, sts.args() + [IV(32, s=n0)]), 'Consume')
    reachable(e, outs)
    for s in outs:
        e.cur = s
        r = zb(s.outcome[1])
        e.prove(s, z3.Implies(r, z3.And(s.ghost['cleared'] == sts.S, z3.Not(s.ghost['seeked']))), 'true is reported only when every stream was emptied: no fragment with unconsumed bytes remains')
        e.prove(s, z3.Implies(z3.Not(r), s.ghost['seeked']), 'false is reported only when a fragment with unconsumed bytes remains')
    S.lemmas(e)
    return e


def make_fragment(ctx):
    m = ctx.module(['harness/streams.cpp', 'src/common/fragment_input_stream.cpp'])
    n = z3.Int('len')
    e = Engine(m, name='MakeFragment', contracts=[('strlen', lambda eng, st, args, ins: (eng.prove(st, eng.ptr_eq(args[0], Ptr(so, 0)), 'the length is that of the given string'), [(st, IV(64, u=n))])[1])])
    st = State(); e.cur = st
    so = e.new_obj(st, 'text', kind='array', stride=1)
    st.assume(z3.And(n >= 0, n < 2 ** 31))
    for s in returns(e, e.run(find(m, e, 'lightstep::MakeFragment('), st, [Ptr(so, 0)]), 'MakeFragment'):
        e.cur = s
        v = s.outcome[1]
        e.prove(s, e.ptr_eq(v[0], Ptr(so, 0)), 'MakeFragment: the fragment starts at the string')
        e.prove(s, zi(e.dom.s(v[1])) == n, 'MakeFragment: its size is the string\'s length')
    return e


def units(ctx):
    return [Unit('Consume', build, ['Consume']), Unit('MakeFragment', make_fragment, ['MakeFragment'])]


def natives(ctx):
    return [Native('native/C07.cpp', srcs=['src/common/fragment_array_input_stream.cpp', 'src/common/fragment_input_stream.cpp'], budget=(10, 60))]
