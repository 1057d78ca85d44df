"""C03: CircularBufferRange - enumerates exactly its elements, in order, across the wrap."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['a range consists of two parts of one buffer, the second being empty when the first is (the class\'s asserted invariant; C01 establishes it for the ranges the buffer hands out)', 'Take is asked for at most size() elements (its asserted precondition)']
SZ = 24
SHAPES = (('two parts', True, True), ('one part', True, False), ('default', False, False))


def setup(ctx, name, shape, contracts=(), cand=None):
    m = ctx.module(['harness/range.cpp'])
    R = 'lightstep::CircularBufferRange<vf::Item>'
    O = ctx.offsets(['cstddef', VERIF_H], {k: (R, k + '_') for k in ('first1', 'last1', 'first2', 'last2')}, {'R': R})
    e = Engine(m, name='%s (%s)' % (name, shape[0]), contracts=list(contracts), candidates=cand)
    st = State(); e.cur = st
    a1, n1, a2, n2, N = z3.Ints('a1 n1 a2 n2 N')
    buf = e.new_obj(st, 'buffer', kind='array', stride=SZ, layout={0: ('int', 64, True), 8: ('int', 64, True), 16: ('int', 64, True)}, n=N)
    st.assume(z3.And(N > 0, N < 2 ** 40, a1 >= 0, n1 >= 0, a1 + n1 <= N, a2 >= 0, n2 >= 0, a2 + n2 <= N, z3.Implies(n1 == 0, n2 == 0)))
    r = e.new_obj(st, 'range', kind='struct', size=O['R'])
    P = lambda i: Ptr(buf, imul(i, SZ))
    st.mem[r.id] = {}
    for k, v, have in (('first1', P(a1), shape[1]), ('last1', P(a1 + n1), shape[1]), ('first2', P(a2), shape[2]), ('last2', P(a2 + n2), shape[2])):
        st.mem[r.id][O[k]] = (8, v if have else NULL)
    if not shape[1]: st.assume(n1 == 0)
    if not shape[2]: st.assume(n2 == 0)
    st.writes = frozenset()
    return e, st, r, buf, O, (a1, n1, a2, n2)


VERIF_H = 'range_item.h'


def build(ctx, part):
    engs = []
    for shape in SHAPES:
        if part == 'foreach':
            for fn, V in (('vf_r_foreach', 'vf::Visit::operator()'), ('vf_rc_foreach', 'vf::VisitC::operator()')):
                Z = {}

                def visit(eng, s, args, ins):
                    k = s.ghost['k']; a1, n1, a2, n2 = Z['g']
                    eng.prove(s, z3.Not(s.ghost['stop']), 'ForEach: no element is visited after the visitor rejected one')
                    eng.prove(s, k < n1 + n2, 'ForEach: no element outside the range is visited')
                    eng.prove(s, eng.ptr_eq(args[1], Ptr(Z['buf'], imul(z3.If(k < n1, a1 + k, a2 + k - n1), SZ))), 'ForEach: the elements are visited in order, leading part first')
                    eng.prove(s, eng.ptr_eq(eng.load(s, args[0], ir.PTR), Z['state']), 'ForEach: the given visitor is called')
                    r = z3.Bool('go!%d' % next(Obj.ids))
                    s.gset('k', k + 1); s.gset('stop', z3.Not(r))
                    return [(s, r)]

                def more(eng, view):
                    a1, n1, a2, n2 = Z['g']
                    return [('not rejected', lambda v: z3.Not(v.st.ghost['stop'])), ('within the leading part', lambda v: v.st.ghost['k'] <= n1), ('leading part done', lambda v: v.st.ghost['k'] >= n1), ('within the range', lambda v: v.st.ghost['k'] <= n1 + n2), ('k >= 0', lambda v: v.st.ghost['k'] >= 0)]
                e, st, r, buf, O, g = setup(ctx, 'ForEach', shape, [(V, visit)], int_candidates([('elements visited', lambda s: zi(s.ghost['k']))], (1, -1, SZ, -SZ), more))
                so = e.new_obj(st, 'state', kind='struct', size=8)
                Z.update(g=g, buf=buf, state=Ptr(so, 0))
                st.ghost.update(k=z3.IntVal(0), stop=z3.BoolVal(False))
                outs = returns(e, e.run(fn, st, [Ptr(r, 0), Ptr(so, 0)]), 'ForEach')
                reachable(e, outs)
                for s in outs:
                    e.cur = s
                    e.prove(s, zb(s.outcome[1]) == z3.Not(s.ghost['stop']), 'ForEach: reports exactly whether it ran to the end')
                    e.prove(s, z3.Or(s.ghost['stop'], s.ghost['k'] == g[1] + g[3]), 'ForEach: unless stopped, every element was visited')
                    e.prove(s, not [w for w in s.writes if w[0] in (r.id, buf.id)], 'ForEach: neither range nor elements are modified')
                engs.append(e)
        if part == 'size':
            e, st, r, buf, O, (a1, n1, a2, n2) = setup(ctx, 'size/empty', shape)
            for s in returns(e, e.run('vf_r_size', st.clone(), [Ptr(r, 0)]), 'size'):
                e.cur = s
                e.prove(s, zi(e.dom.u(s.outcome[1])) == n1 + n2, 'size: the number of elements iteration visits')
            outs = returns(e, e.run('vf_r_empty', st.clone(), [Ptr(r, 0)]), 'empty')
            reachable(e, outs)
            for s in outs:
                e.cur = s
                e.prove(s, zb(s.outcome[1]) == (n1 + n2 == 0), 'empty: exactly when the size is zero')
            engs.append(e)
        if part == 'take':
            def parts(e, s, o, O):
                p = [e.load(s, Ptr(o, O[k]), ir.PTR) for k in ('first1', 'last1', 'first2', 'last2')]
                return p

            def at(e, p, k, n1): return zi(e.paddr(p)) + SZ * k

            def same(e, s, out, O, buf, g, n, what):
                a1, n1, a2, n2 = g
                f1, l1, f2, l2 = parts(e, s, out, O)
                A = lambda p: zi(e.ptr_term(p))
                m1 = z3.Int('m1'); m2 = z3.Int('m2')
                s.assume(z3.And(A(l1) - A(f1) == SZ * m1)); s.assume(A(l2) - A(f2) == SZ * m2) if True else None
                k = z3.Int('k')
                e.prove(s, z3.And(m1 >= 0, m2 >= 0, m1 + m2 == n), what + ': the result has exactly the requested number of elements')
                e.prove(s, z3.Implies(m1 == 0, m2 == 0), what + ': the result\'s wrapped part is empty when its leading part is')
                base = zi(buf.addr)
                e.prove(s, z3.Implies(z3.And(k >= 0, k < n), z3.If(k < m1, A(f1) + SZ * k, A(f2) + SZ * (k - m1)) == base + SZ * z3.If(k < n1, a1 + k, a2 + k - n1)), what + ': element k of the result is element k of the range')

            def mult(e, s, out, O, what):
                f1, l1, f2, l2 = parts(e, s, out, O)
                for a, b in ((f1, l1), (f2, l2)):
                    e.prove(s, (zi(e.ptr_term(b)) - zi(e.ptr_term(a))) % SZ == 0, what + ': the parts consist of whole elements')
            n = z3.Int('n')
            e, st, r, buf, O, g = setup(ctx, 'Take', shape)
            st.assume(z3.And(n >= 0, n <= g[1] + g[3]))
            out = e.new_obj(st, 'out', kind='struct', size=O['R'])
            outs = returns(e, e.run('vf_r_take', st, [Ptr(out, 0), Ptr(r, 0), IV(64, u=n)]), 'Take')
            reachable(e, outs)
            for s in outs:
                e.cur = s
                mult(e, s, out, O, 'Take'); same(e, s, out, O, buf, g, n, 'Take')
            engs.append(e)
            e, st, r, buf, O, g = setup(ctx, 'conversion', shape)
            out = e.new_obj(st, 'out', kind='struct', size=O['R'])
            for s in returns(e, e.run('vf_r_const', st, [Ptr(out, 0), Ptr(r, 0)]), 'conversion'):
                e.cur = s
                mult(e, s, out, O, 'conversion'); same(e, s, out, O, buf, g, g[1] + g[3], 'conversion to a range of constants')
            engs.append(e)
            e, st, r, buf, O, g = setup(ctx, 'construction', shape)
            out = e.new_obj(st, 'out', kind='struct', size=O['R'])
            args = [st.mem[r.id][O[k]][1] for k in ('first1', 'last1', 'first2', 'last2')]
            for s in returns(e, e.run('vf_r_make', st, [Ptr(out, 0)] + args), 'construction'):
                e.cur = s
                mult(e, s, out, O, 'construction'); same(e, s, out, O, buf, g, g[1] + g[3], 'construction')
            if shape[0] == 'default':
                for s in returns(e, e.run('vf_r_default', st, [Ptr(out, 0)]), 'default construction'):
                    e.cur = s
                    mult(e, s, out, O, 'default construction'); same(e, s, out, O, buf, g, z3.IntVal(0), 'default construction')
            engs.append(e)
    return engs


def units(ctx):
    C = 'CircularBufferRange::'
    return [Unit('ForEach', lambda c: build(c, 'foreach'), [C + 'ForEach']), Unit('size, empty', lambda c: build(c, 'size'), [C + 'size', C + 'empty']), Unit('Take, construction', lambda c: build(c, 'take'), [C + 'Take', C + 'CircularBufferRange', C + 'operator CircularBufferRange<const T>'])]


def natives(ctx):
    return [Native('native/C03.cpp', budget=(6, 40))]
