"""C05: ComposableFragmentInputStream - composed streams behave as the concatenation of their parts."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.streams import B, F, I, at_stream

ASSUMPTIONS = ['the parts follow the contract of their segment operations (C04 proves it for chained streams)', 'the composition is a finite list whose parts are owned once each (std::unique_ptr)', 'total fragment counts fit in int',
               'Seek is called within the enumerated fragments, or with (0, 0) at the end (its asserted precondition)']
nd = z3.Function('nd', I, I)      # i-th part of the composition
ix = z3.Function('ix', I, I)      # position of a part
SRC = ['harness/chained.cpp', 'src/common/chained_stream.cpp', 'src/common/composable_fragment_input_stream.cpp']
HDR = ['common/composable_fragment_input_stream.h']
CLS = 'lightstep::ComposableFragmentInputStream'


def setup(ctx, name, measures=(), extra=None, contracts=()):
    m = ctx.module(SRC)
    O = ctx.offsets(HDR, {'next': (CLS, 'next_'), 'last': (CLS, 'last_')})
    K = z3.Int('K')

    def cand(eng, view):
        out = int_candidates(list(measures), (1, -1), None)(eng, view)
        keys = [k for k, v in view.loc.items() if isinstance(v, Ptr)] + [w for w in view.modset if len(w) == 3 and w[0] in view.st.mem and isinstance(view.st.mem[w[0]].get(w[1], (0, 0))[1], Ptr)]
        for k in keys:
            for g in ('fe', 'fe2'):
                if g in view.st.ghost:
                    out.append(('%s is part %s' % (k, g), lambda v, k=k, g=g: zi(eng.ptr_term(v.get(k))) == nd(v.st.ghost[g])))
        out += [('position within the list', lambda v: z3.And(v.st.ghost['fe'] >= 0, v.st.ghost['fe'] <= K))]
        if extra: out += extra(eng, view)
        return out
    e = Engine(m, name=name, candidates=cand, contracts=list(contracts))
    e.ranks = lambda en, view: [('parts left', lambda w: K - w.st.ghost['fe'])] if 'fe' in view.st.ghost else []
    st = State(); e.cur = st
    vt = e.gobj('_ZTVN2vf4PartE')
    reg = e.new_obj(st, 'Part', kind='region', layout={0: ('ptr', lambda en, s, t: Ptr(vt, 16))})
    reg.layout[O['next']] = ('ptr', reg); reg.layout[O['last']] = ('ptr', reg)
    NX = e.arr(st, reg, O['next'], reg.layout[O['next']]); LA = e.arr(st, reg, O['last'], reg.layout[O['last']])
    i = z3.Int('i')
    st.assume(z3.And(K >= 1, K < 2 ** 30, nd(K) == 0, nd(0) > 0, ix(nd(0)) == 0))
    st.assume_q(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K), z3.And(nd(i) > 0, nd(i) < 2 ** 64, ix(nd(i)) == i, NX[nd(i)] == nd(i + 1))), patterns=[nd(i)]))
    return e, st, reg, O, K, NX, LA


def index(eng, s, p):
    """position of the part the pointer designates, known through the list facts"""
    return ix(eng.ptr_term(p))


def common(K):
    k, j = z3.Ints('k j')
    return [z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j <= K), B(k) <= B(j)), patterns=[z3.MultiPattern(B(k), B(j))])], z3.And(B(0) == 0, B(K) < 2 ** 31, B(K) >= 0)


def build(ctx, part):
    engs = []
    if part == 'num':
        def num(eng, s, args, ins):
            i = s.ghost['fe']; at_stream(s, i)
            eng.prove(s, zi(eng.ptr_term(args[0])) == nd(i), 'num_fragments: every part is counted once, in order')
            s.gset('fe', i + 1)
            return [(s, IV(32, s=F(i)))]
        e, st, reg, O, K, NX, LA = setup(ctx, 'num_fragments', [('fragments counted', lambda s: B(zi(s.ghost['fe'])))], None, [('vf::Part::segment_num_fragments', num)])
        q, f = common(K); st.assume(f)
        for x in q: st.assume_q(x)
        st.ghost.update(fe=z3.IntVal(0))
        outs = returns(e, e.run('vf_c_num', st, [Ptr(reg, 0, nd(0))]), 'num_fragments')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, s.ghost['fe'] == K, 'num_fragments: no part is left out')
            e.prove(s, zi(e.dom.s(s.outcome[1])) == B(K), 'num_fragments: the count is the sum over all parts')
            e.prove(s, not [w for w in s.writes if w[0] == reg.id], 'num_fragments: nothing is modified')
        engs.append(e)
    if part == 'foreach':
        def each(eng, s, args, ins):
            i = s.ghost['fe']
            eng.prove(s, zi(eng.ptr_term(args[0])) == nd(i), 'ForEachFragment: every part is enumerated once, in order')
            eng.prove(s, z3.Not(s.ghost['stop']), 'ForEachFragment: nothing is enumerated after the visitor stopped')
            eng.prove(s, b_and(eng.ptr_eq(args[1], CB[0]), eng.ptr_eq(args[2], CB[1])), 'ForEachFragment: the caller\'s visitor is passed on')
            r = z3.Bool('go!%d' % next(Obj.ids))
            s.gset('fe', i + 1); s.gset('stop', z3.Not(r))
            return [(s, r)]

        def more(eng, view): return [('not stopped', lambda v: z3.Not(v.st.ghost['stop']))]
        e, st, reg, O, K, NX, LA = setup(ctx, 'ForEachFragment', [], more, [('vf::Part::SegmentForEachFragment', each)])
        c = e.new_obj(st, 'callable', kind='struct', size=8); CB = (Ptr(c, 0), Ptr(e.gobj('vf_cb'), 0))
        st.ghost.update(fe=z3.IntVal(0), stop=z3.BoolVal(False)); st.writes = frozenset()
        outs = returns(e, e.run('vf_c_foreach', st, [Ptr(reg, 0, nd(0)), CB[0], CB[1]]), 'ForEachFragment')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            r = zb(s.outcome[1])
            e.prove(s, r == z3.Not(s.ghost['stop']), 'ForEachFragment: reports exactly whether the visitor stopped')
            e.prove(s, z3.Or(s.ghost['stop'], s.ghost['fe'] == K), 'ForEachFragment: unless stopped, no part is left out')
            e.prove(s, not [w for w in s.writes if w[0] == reg.id], 'ForEachFragment: nothing is modified')
        engs.append(e)
    if part == 'clear':
        def clear(eng, s, args, ins):
            i = s.ghost['fe']
            eng.prove(s, zi(eng.ptr_term(args[0])) == nd(i), 'Clear: parts are cleared in order, each once')
            s.gset('fe', i + 1)
            return [(s, None)]
        e, st, reg, O, K, NX, LA = setup(ctx, 'Clear', [], None, [('vf::Part::SegmentClear', clear)])
        st.ghost.update(fe=z3.IntVal(0))
        outs = returns(e, e.run('vf_c_clear', st, [Ptr(reg, 0, nd(0))]), 'Clear')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, s.ghost['fe'] == K, 'Clear: every part is cleared')
            e.prove(s, not [w for w in s.writes if w[0] == reg.id], 'Clear: the composition itself is kept')
        engs.append(e)
    if part == 'seek':
        # ghost fe: parts cleared; qn: part whose size was asked last; done: the target part was repositioned
        def num(eng, s, args, ins):
            i = s.ghost['fe']; at_stream(s, i)
            eng.prove(s, zi(eng.ptr_term(args[0])) == nd(i), 'Seek: only the current part is measured')
            return [(s, IV(32, s=F(i)))]

        def clear(eng, s, args, ins):
            i = s.ghost['fe']; at_stream(s, i)
            eng.prove(s, zi(eng.ptr_term(args[0])) == nd(i), 'Seek: parts before the target are cleared in order, each once')
            eng.prove(s, z3.Not(s.ghost['done']), 'Seek: nothing is cleared after the target was reached')
            eng.prove(s, B(i + 1) <= f0, 'Seek: only parts lying wholly before the target are cleared')
            s.gset('fe', i + 1)
            return [(s, None)]

        def seek(eng, s, args, ins):
            i = s.ghost['fe']; at_stream(s, i)
            eng.prove(s, zi(eng.ptr_term(args[0])) == nd(i), 'Seek: the part holding the target is repositioned')
            eng.prove(s, z3.Not(s.ghost['done']), 'Seek: one part is repositioned')
            eng.prove(s, z3.And(zi(eng.dom.s(args[1])) == f0 - B(i), f0 < B(i + 1), f0 >= B(i)), 'Seek: to the target\'s index within that part')
            eng.prove(s, zi(eng.dom.s(args[2])) == p0, 'Seek: to the target\'s position within its fragment')
            s.gset('done', z3.BoolVal(True))
            return [(s, None)]

        def more(eng, view):
            out = [('target not reached', lambda v: z3.Not(v.st.ghost['done'])), ('target not passed', lambda v: B(v.st.ghost['fe']) <= f0)]
            for name, t in view.ints():
                out.append(('%s is the distance to the target' % (name,), lambda v, name=name: zi(v.term(v.get(name))) == f0 - B(v.st.ghost['fe'])))
            return out
        e, st, reg, O, K, NX, LA = setup(ctx, 'Seek', [('fragments cleared', lambda s: B(zi(s.ghost['fe'])))], more, [('vf::Part::segment_num_fragments', num), ('vf::Part::SegmentClear', clear), ('vf::Part::SegmentSeek', seek)])
        q, f = common(K); st.assume(f)
        for x in q: st.assume_q(x)
        f0, p0 = z3.Ints('f p')
        st.assume(z3.And(f0 >= 0, p0 >= 0, p0 < 2 ** 31, z3.Or(f0 < B(K), z3.And(f0 == 0, B(K) == 0, p0 == 0))))
        # seeking exactly to the end: only (0, 0) relative to an empty remainder is in the asserted precondition
        st.ghost.update(fe=z3.IntVal(0), done=z3.BoolVal(False))
        outs = returns(e, e.run('vf_c_seek', st, [Ptr(reg, 0, nd(0)), IV(32, s=f0), IV(32, s=p0)]), 'Seek')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, z3.Or(s.ghost['done'], z3.And(B(K) == 0, s.ghost['fe'] == K)), 'Seek: the target is reached')
            e.prove(s, not [w for w in s.writes if w[0] == reg.id], 'Seek: the composition itself is kept')
        engs.append(e)
    if part == 'append': engs.append(append(ctx))
    return engs


def append(ctx):
    """E(m): last part of the list starting at m; R(m): rank (distance to the end).  Recursive calls are answered by this
    same contract, on a part of smaller rank."""
    E = z3.Function('E', I, I); R = z3.Function('R', I, I)

    def inv(NX, LA, E, m):
        return z3.And(R(m) >= 0, z3.If(NX[m] == 0, E(m) == m, z3.And(NX[m] > 0, LA[m] > 0, E(NX[m]) == E(m), E(LA[m]) == E(m))), NX[E(m)] == 0, E(m) > 0, E(E(m)) == E(m))

    def ranks(NX, LA, m): return z3.And(R(E(m)) <= R(m), z3.Implies(NX[m] != 0, z3.And(R(NX[m]) < R(m), R(LA[m]) < R(m))))
    depth = []

    def rec(eng, s, args, ins):
        if not depth:                      # the call under verification itself: execute the body
            depth.append(1)
            return None
        p = eng.ptr_term(args[0]); up = eng.norm_ptr(args[1])
        t = eng.ptr_term(eng.load(s, up, ir.PTR))
        nx = eng.arr(s, reg, O['next'], None); la = eng.arr(s, reg, O['last'], None)
        x = z3.Int('x')
        eng.prove(s, z3.And(zi(p) > 0, zi(t) == s0), 'Append: the recursion appends the same stream')
        eng.prove(s, R(zi(p)) < R(n0), 'Append: the recursion is on a shorter list')
        eng.prove(s, z3.Implies(z3.And(x > 0, R(x) <= R(zi(p)), E(x) == E(zi(p))), z3.And(inv(nx, la, E, x), ranks(nx, la, x))), 'Append: the recursion\'s list is well formed')
        eng.prove(s, E(s0) != E(zi(p)), 'Append: the recursion appends a separate list')
        # effect
        e1 = E(zi(p))
        cont = dict(eng.content(s, reg))
        l2 = z3.Const('last!%d' % next(Obj.ids), la.sort())
        cont[O['next']] = z3.Store(nx, e1, zi(t)); cont[O['last']] = l2
        s.mem[reg.id] = cont; s.writes = s.writes | {(reg.id, O['next']), (reg.id, O['last'])}
        s.assume_q(z3.ForAll([x], z3.Implies(l2[x] != la[x], z3.And(E(x) == e1, R(x) <= R(zi(p)))), patterns=[l2[x]]))
        n2 = cont[O['next']]
        E2 = lambda m: z3.If(E(m) == e1, E(zi(t)), E(m))
        s.assume_q(z3.ForAll([x], z3.Implies(z3.And(x > 0, R(x) <= R(zi(p)), E(x) == e1), invp(n2, l2, E2, x)), patterns=[l2[x]]))
        eng.store(s, up, ir.PTR, NULL)
        return [(s, None)]

    def invp(NX, LA, E2, m):
        return z3.And(z3.If(NX[m] == 0, E2(m) == m, z3.And(NX[m] > 0, LA[m] > 0, E2(NX[m]) == E2(m), E2(LA[m]) == E2(m))), NX[E2(m)] == 0, E2(m) > 0)

    def deleted(eng, s, args, ins):
        eng.prove(s, False, 'Append: no part is destroyed')
        return [(s, None)]
    m = ctx.module(SRC)
    O = ctx.offsets(HDR, {'next': (CLS, 'next_'), 'last': (CLS, 'last_')})
    fn = None
    e = Engine(m, name='Append', contracts=[(rx(r'default_delete<lightstep::ComposableFragmentInputStream>::operator\(\)'), deleted)])
    fn = find(m, e, CLS + '::Append(')
    st = State(); e.cur = st
    vt = e.gobj('_ZTVN2vf4PartE')
    reg = e.new_obj(st, 'Part', kind='region', layout={0: ('ptr', lambda en, s, t: Ptr(vt, 16))})
    reg.layout[O['next']] = ('ptr', reg); reg.layout[O['last']] = ('ptr', reg)
    NX = e.arr(st, reg, O['next'], reg.layout[O['next']]); LA = e.arr(st, reg, O['last'], reg.layout[O['last']])
    n0, s0, x = z3.Ints('n s x')
    st.assume(z3.And(n0 > 0, n0 < 2 ** 64, s0 > 0, s0 < 2 ** 64, E(n0) != E(s0)))
    st.assume_q(z3.ForAll([x], z3.Implies(x > 0, z3.And(inv(NX, LA, E, x), ranks(NX, LA, x))), patterns=[NX[x]]))
    st.assume(z3.And([z3.And(inv(NX, LA, E, y), ranks(NX, LA, y)) for y in (n0, s0, E(n0), E(s0))]))
    # the recursive call gets the contract, the outer activation its body
    e.contracts = e.contracts + [(lambda name, dem: name == fn and bool(depth), rec)]
    u = e.new_obj(st, 'unique_ptr', kind='struct', size=8)
    st.mem[u.id] = {0: (8, Ptr(reg, 0, s0))}
    depth.append(1)
    outs = returns(e, e.run(fn, st, [Ptr(reg, 0, n0), Ptr(u, 0)]), 'Append')
    reachable(e, outs)
    for s in outs:
        e.cur = s
        nx = e.arr(s, reg, O['next'], None); la = e.arr(s, reg, O['last'], None)
        y = z3.Int('y')
        e.prove(s, nx[E(n0)] == s0, 'Append: the last part of the receiver is followed by the appended stream')
        e.prove(s, z3.Implies(z3.And(y > 0, y != E(n0)), nx[y] == NX[y]), 'Append: no other link changes')
        E2 = lambda m_: z3.If(E(m_) == E(n0), E(s0), E(m_))
        s2 = s.clone(); e.cur = s2
        s2.assume(y > 0)
        s2.assume(z3.And([z3.And(inv(NX, LA, E, w), ranks(NX, LA, w)) for w in (y, E(y))]))
        s2.assume(z3.And([z3.Implies(w > 0, z3.And(inv(NX, LA, E, w), ranks(NX, LA, w))) for w in (NX[y], LA[y])]))
        # parts of higher rank than the receiver that end in it (an enclosing composition) keep valid links too
        for c in (z3.And(E(y) == E(n0), R(y) < R(n0), R(y) <= R(LA[n0])), z3.And(E(y) == E(n0), R(y) > R(LA[n0]), y != n0), y == n0, E(y) != E(n0), z3.BoolVal(True)):
          s3 = s2.clone(); s3.assume(c); e.cur = s3
          e.prove(s3, invp(nx, la, E2, y), 'Append: every list is well formed again: its cached last part belongs to it')
        e.prove(s, e.ptr_eq(e.load(s, Ptr(u, 0), ir.PTR), NULL), 'Append: ownership of the stream has been taken')
    return e


def units(ctx):
    N = CLS.split('::')[1] + '::'
    return [Unit('num_fragments', lambda c: build(c, 'num'), [N + 'num_fragments']), Unit('ForEachFragment', lambda c: build(c, 'foreach'), [N + 'ForEachFragment']),
            Unit('Clear', lambda c: build(c, 'clear'), [N + 'Clear']), Unit('Seek', lambda c: build(c, 'seek'), [N + 'Seek']), Unit('Append', lambda c: build(c, 'append'), [N + 'Append (recursive contract)'])]


def natives(ctx):
    return [Native('native/C05.cpp', srcs=['src/common/composable_fragment_input_stream.cpp', 'src/common/chained_stream.cpp', 'src/common/fragment_input_stream.cpp'], libs=['-lprotobuf'], budget=(10, 60))]
