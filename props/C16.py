"""C16: RandomTraverser - every index exactly once, for all random choices (quantified loop invariants over a permutation)."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['n >= 0; allocation succeeds', 'the visitor does not touch the traverser']
TRUSTED = ['std::uniform_int_distribution returns some value within its bounds (every such value is considered)', 'std::vector<int>(n) holds n elements']
SRC = ['harness/traverser.cpp', 'src/common/random_traverser.cpp']
I = z3.IntSort()


class W:
    def __init__(s, ctx, name):
        V = r'^std::vector<int.*>::'
        s.e = e = Engine(ctx.module(SRC), name=name, candidates=int_candidates([('visits', lambda st: st.ghost['step'])], (1, -1), s.cand), contracts=[
            (rx(r'uniform_int_distribution<int>::operator\(\)<'), s.draw), (rx(r'^lightstep::GetRandomNumberGenerator\('), lambda g, st, a, i: [(st, Ptr(s.rng, 0))]),
            (rx(V + r'vector\(unsigned long'), s.make), (rx(V + r'~vector\('), noop), ('vf_visit', s.visit)])
        st = State(); e.cur = st; s.st = st
        s.n, s.v, s.x = z3.Ints('n value position')
        st.assume(z3.And(s.n >= 0, s.n < 2 ** 31, s.v >= 0, s.v < s.n))
        s.this = e.new_obj(st, 'traverser', kind='struct', size=24); s.rng = e.new_obj(st, 'generator', kind='struct', size=16)
        s.a = e.new_obj(st, 'indexes', kind='array', stride=4, layout={0: ('int', 32, True)}, n=s.n)
        I0 = z3.IntVal(0)
        st.ghost.update(step=I0, seen=I0, stop=z3.BoolVal(False))

    def own(s, st):
        for k, m in ((0, 0), (8, s.n), (16, s.n)): s.e.store(st, Ptr(s.this, k), ir.PTR, Ptr(s.a, imul(m, 4)))

    def arr(s, st): return s.e.arr(st, s.a, 0, s.a.layout[0])

    def make(s, g, st, a, i):
        s.e.prove(st, z3.And(s.e.ptr_eq(a[0], Ptr(s.this, 0)), zi(s.e.dom.u(a[1])) == s.n), 'the traverser holds n indexes')
        s.own(st)
        return [(st, None)]

    def draw(s, g, st, a, i):
        L = lambda k: zi(s.e.dom.s(s.e.load(st, Ptr(a[0].obj, s.e.dom.off_add(a[0].off, k), a[0].key), ir.INT(32))))
        lo, hi = L(0), L(4)
        s.e.prove(st, lo <= hi, 'random choice: the range drawn from is not empty')
        r = z3.Int('draw!%d' % next(Obj.ids)); st.assume(z3.And(r >= lo, r <= hi))
        return [(st, IV(32, s=r))]

    def visit(s, g, st, a, i):
        v = zi(s.e.dom.s(a[0]))
        s.e.prove(st, z3.Not(st.ghost['stop']), 'traversal: the visitor is not called after it stopped')
        s.e.prove(st, z3.And(v >= 0, v < s.n), 'traversal: only indexes from 0 to n-1 are visited')
        s.e.prove(st, z3.Implies(v == s.v, st.ghost['seen'] == 0), 'traversal: no index is visited twice')
        st.gset('seen', st.ghost['seen'] + z3.If(v == s.v, 1, 0)); st.gset('step', st.ghost['step'] + 1)
        r = z3.Bool('go!%d' % next(Obj.ids)); st.gset('stop', z3.Not(r))
        return [(st, r)]

    def perm(s, st):
        """the indexes are a permutation of 0..n-1, seen from an arbitrary value: in range, pairwise different, and the value occurs"""
        A = s.arr(st); j, k = z3.Ints('j k')
        return [('in range', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), z3.And(A[j] >= 0, A[j] < s.n)), patterns=[A[j]])),
                ('pairwise different', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < s.n), A[j] != A[k]), patterns=[z3.MultiPattern(A[j], A[k])])),
                ('every index occurs', z3.Exists([j], z3.And(j >= 0, j < s.n, A[j] == s.v)))]

    def cand(s, e, view):
        out = [('not stopped', lambda w: z3.Not(w.st.ghost['stop']))]
        out += [(n, lambda w, q=q: s.perm(w.st)[q][1]) for q, n in enumerate(('in range', 'pairwise different', 'every index occurs'))]
        j = z3.Int('j')

        def split(w, b):
            A = s.arr(w.st); c = w.st.ghost['seen']
            return z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < b, A[j] == s.v), c == 1), patterns=[A[j]]), z3.ForAll([j], z3.Implies(z3.And(j >= b, j < s.n, A[j] == s.v), c == 0), patterns=[A[j]]))
        out.append(('what is before the current position was visited, the rest was not', lambda w: split(w, w.st.ghost['step'])))
        out.append(('visits stay within the indexes', lambda w: z3.And(w.st.ghost['step'] >= 0, w.st.ghost['step'] <= s.n)))
        out.append(('what is behind the current position was visited, the rest was not', lambda w: z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= s.n - w.st.ghost['step'], j < s.n, s.arr(w.st)[j] == s.v), w.st.ghost['seen'] == 1)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n - w.st.ghost['step'], s.arr(w.st)[j] == s.v), w.st.ghost['seen'] == 0)))))
        # filling in order
        names = [n for n, _ in view.ints()]
        def at(n): return lambda w: zi(e.elem(w.get(n).obj, w.get(n).off)[0]) if isinstance(w.get(n), Ptr) else zi(w.term(w.get(n)))
        for n in names:
            out.append(('filled up to %s' % (n,), lambda w, f=at(n): z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f(w)), s.arr(w.st)[j] == j), patterns=[s.arr(w.st)[j]])))
            out.append(('%s within' % (n,), lambda w, f=at(n): z3.And(f(w) >= 0, f(w) <= s.n)))
            out.append(('%s leaves one' % (n,), lambda w, f=at(n): f(w) <= s.n - 1))
            for m in names:
                if m != n: out.append(('%s at %s' % (n, m), lambda w, f=at(n), g=at(m): f(w) == g(w)))
        return out


def ctor(ctx):
    w = W(ctx, 'construction'); e = w.e; st = w.st
    outs = returns(e, e.run('vf_ctor', st, [Ptr(w.this, 0), IV(32, s=w.n)]), 'construction'); reachable(e, outs)
    for s in outs:
        e.cur = s
        for n, f in w.perm(s): e.prove(s, f, 'construction: the indexes are a permutation (%s)' % n)
        e.prove(s, b_and(e.ptr_eq(e.load(s, Ptr(w.this, 0), ir.PTR), Ptr(w.a, 0)), e.ptr_eq(e.load(s, Ptr(w.this, 8), ir.PTR), Ptr(w.a, imul(w.n, 4)))), 'construction: of n indexes')
    return e


def each(ctx):
    engs = []
    w = W(ctx, 'ForEachIndex'); e = w.e; st = w.st; engs.append(e)
    w.own(st)
    for n, f in w.perm(st): st.assume_q(f)
    st.writes = frozenset()
    outs = returns(e, e.run('vf_each', st, [Ptr(w.this, 0)]), 'ForEachIndex'); reachable(e, outs)
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        e.prove(s, zb(s.outcome[1]) == z3.Not(s.ghost['stop']), 'traversal: reports exactly whether the visitor stopped')
        e.prove(s, z3.Implies(z3.Not(s.ghost['stop']), z3.And(s.ghost['seen'] == 1, s.ghost['step'] == w.n)), 'traversal: unless stopped, every index is visited')
        for n, f in w.perm(s): e.prove(s, f, 'traversal: the indexes remain a permutation, so it can be repeated (%s)' % n)
        e.prove(s, not [x for x in s.writes if x[0] == w.this.id], 'traversal: the number of indexes is unchanged')
    # no indexes at all
    w = W(ctx, 'ForEachIndex (empty)'); e = w.e; st = w.st; engs.append(e)
    st.pc.clear() if hasattr(st.pc, 'clear') else None
    st.assume(w.n == 0); w.own(st)
    outs = returns(e, e.run('vf_each', st, [Ptr(w.this, 0)]), 'ForEachIndex'); reachable(e, outs)
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        e.prove(s, zb(s.outcome[1]), 'traversal: of nothing is complete'); e.prove(s, s.ghost['step'] == 0, 'traversal: of nothing visits nothing')
    return engs


def units(ctx):
    return [Unit('construction', ctor, ['RandomTraverser::RandomTraverser', 'std::iota (inlined body)'], timeout=400), Unit('ForEachIndex', each, ['RandomTraverser::ForEachIndex'], timeout=600)]


def natives(ctx):
    return [Native('native/C16.cpp', srcs=['src/common/random_traverser.cpp'], budget=(8, 40))]
