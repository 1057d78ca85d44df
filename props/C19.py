"""C19: SeparateEndpoints - every endpoint preserved, equal hosts merged (contracts over an abstract case-insensitive order)."""
import re
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.stdmodel import Vec

ASSUMPTIONS = ['the endpoint list is not changed while its hosts are in use', 'fewer than 2^31 endpoints; allocation succeeds']
TRUSTED = ['strcasecmp orders C strings ignoring case (a total preorder), strcmp by another order', 'std::sort yields a sorted permutation for a strict weak order (the comparator is verified to be one); std::unique keeps the first of each run of equal elements, in order; vector emplace_back/erase (std::lower_bound is verified inline)']
SRC = ['harness/endpoints.cpp', 'src/recorder/stream_recorder/utility.cpp', 'src/common/platform/string_unix.cpp']
I = z3.IntSort()
cstr = z3.Function('cstr', I, I); rank = z3.Function('rank', I, I); rank2 = z3.Function('case_sensitive_rank', I, I); port = z3.Function('port', I, I)


def separate(ctx):
    m = ctx.module(SRC)
    N, i, a, b = z3.Ints('N i a b')
    hosts = Vec(r'char const\*', 8, {0: ('ptr', None)})
    idx = Vec(r'std::pair<int, unsigned short>', 8, {0: ('int', 32, True), 4: ('int', 16, False)})
    chain = []          # facts about where the i-th host is after sorting / merging: instances of what sort and unique ensure

    def c_str(eng, st, args, ins):
        p = eng.norm_ptr(args[0])
        if p.obj is not ends: raise Unsupported('string that is not a host of an endpoint')
        k, c = eng.elem(ends, p.off)
        if c != 0: raise Unsupported('string offset')
        k = zi(k)
        eng.prove(st, z3.And(k >= 0, k < N), 'memory: a host of an endpoint')
        st.assume(z3.And(cstr(k) > 0, cstr(k) < 2 ** 48))
        pos = k
        for n, fact, nxt in st.ghost['chain']:
            st.assume(z3.Implies(z3.And(pos >= 0, pos < n), fact(pos))); pos = nxt(pos)
        st.gset('key', k)
        return [(st, Ptr(None, cstr(k)))]

    def compare(r):
        def h(eng, st, args, ins):
            x, y = (r(zi(eng.ptr_term(eng.norm_ptr(p)))) for p in args)
            v = z3.Int('cmp!%d' % next(Obj.ids))
            st.assume(z3.And(v >= -2 ** 31, v < 2 ** 31, (v < 0) == (x < y), (v == 0) == (x == y)))
            return [(st, IV(32, s=v))]
        return h

    def relation(eng, st, ins, what):
        """the meaning of the comparator passed to an algorithm, from its verified body"""
        dem = eng.dem(ins['callee'][1])
        fs = sorted(set(re.findall(r'SeparateEndpoints[^$]*::(\$_\d+)', dem)))
        if len(fs) != 1: raise Unsupported('comparator of %s' % what)
        f = findre(m, eng, r'SeparateEndpoints.*::%s::operator\(\)\(' % re.escape(fs[0]))
        x, y = z3.Ints('x!%d y!%d' % (next(Obj.ids), next(Obj.ids)))
        t = st.clone(); lam = eng.new_obj(t, 'comparator', kind='struct', size=1)
        t.assume(z3.And(x > 0, x < 2 ** 48, y > 0, y < 2 ** 48))
        outs = eng.call_value(t, f, [Ptr(lam, 0), Ptr(None, x), Ptr(None, y)])
        eng.quiet += 1
        try:
            def means(fn): return all(_valid(eng, s, zb(v) == fn(rank(x), rank(y))) for s, v in outs)
            for n, fn in (('<', lambda p, q: p < q), ('>', lambda p, q: p > q), ('==', lambda p, q: p == q), ('!=', lambda p, q: p != q)):
                if means(fn): return n
        finally: eng.quiet -= 1
        return None

    def _valid(eng, s, f):
        eng.cur = s
        return eng.check_valid(s, f, timeout=3000)[0] == 'proved'

    def span(eng, st, p, q):
        p, q = eng.norm_ptr(p), eng.norm_ptr(q)
        if p.obj is None or p.obj is not q.obj or p.obj.kind != 'array' or p.obj.stride != 8: raise Unsupported('range')
        k, c = eng.elem(p.obj, p.off); n, d = eng.elem(q.obj, q.off)
        if c or d: raise Unsupported('range')
        if not (is_c(k) and k == 0): eng.prove(st, zi(k) == 0, 'the whole list of hosts is processed')
        return p.obj, zi(n)

    def sort(eng, st, args, ins):
        r = relation(eng, st, ins, 'sort')
        eng.prove(st, r in ('<', '>'), 'sorting: the comparator is a strict order ignoring case')
        o, n = span(eng, st, args[0], args[1])
        u = next(Obj.ids)
        A = eng.arr(st, o, 0, o.layout[0]); S = z3.Array('sorted!%d' % u, I, I)
        pi, inv = z3.Function('pi!%d' % u, I, I), z3.Function('inv!%d' % u, I, I)
        j, k = z3.Ints('j k')
        st.assume_q(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(pi(j) >= 0, pi(j) < n, S[j] == A[pi(j)])), patterns=[S[j]]))
        le = (lambda p, q: p <= q) if r != '>' else (lambda p, q: p >= q)
        st.assume_q(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < n), le(rank(S[j]), rank(S[k]))), patterns=[z3.MultiPattern(S[j], S[k])]))
        st.mem[o.id] = {0: S}; st.writes = st.writes | {(o.id, 0)}
        st.ghost['chain'] = st.ghost['chain'] + ((n, lambda x: z3.And(inv(x) >= 0, inv(x) < n, A[x] == S[inv(x)]), inv),)
        return [(st, None)]

    def unique(eng, st, args, ins):
        r = relation(eng, st, ins, 'unique')
        eng.prove(st, r == '==', 'merging: exactly hosts equal ignoring case are merged')
        o, n = span(eng, st, args[0], args[1])
        u = next(Obj.ids)
        A = eng.arr(st, o, 0, o.layout[0]); U = z3.Array('unique!%d' % u, I, I); c = z3.Int('count!%d' % u)
        src, rep = z3.Function('src!%d' % u, I, I), z3.Function('rep!%d' % u, I, I)
        j, k = z3.Ints('j k')
        st.assume(z3.And(c >= 0, c <= n, z3.Implies(n > 0, c > 0)))
        inr = lambda x: z3.And(x >= 0, x < c)
        st.assume_q(z3.ForAll([j], z3.Implies(inr(j), z3.And(src(j) >= 0, src(j) < n, U[j] == A[src(j)])), patterns=[U[j]]))
        st.assume_q(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < c), src(j) < src(k)), patterns=[z3.MultiPattern(src(j), src(k))]))
        st.assume_q(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < c), rank(U[j]) != rank(U[j + 1])), patterns=[U[j]]))
        st.mem[o.id] = {0: U}; st.writes = st.writes | {(o.id, 0)}
        st.ghost['chain'] = st.ghost['chain'] + ((n, lambda x: z3.And(rep(x) >= 0, rep(x) < c, rank(U[rep(x)]) == rank(A[x])), rep),)
        return [(st, Ptr(o, imul(c, 8)))]

    def erase(eng, st, args, ins):
        if len(args) != 3: raise Unsupported('erase of one element')
        o, size = hosts.get(eng, st, args[0])
        p, q = eng.norm_ptr(args[1]), eng.norm_ptr(args[2])
        eng.prove(st, b_and(eng.ptr_eq(q, Ptr(o, imul(size, 8))), p.obj is o), 'merging: everything behind the merged hosts is removed')
        eng.store(st, Ptr(args[0].obj, eng.dom.off_add(args[0].off, 8), args[0].key), ir.PTR, p)
        return [(st, p)]

    def cand(eng, view):
        out = []
        j = z3.Int('j')
        names = [n for n, _ in view.ints()] + list(view.ptrs())

        def h(w, o): return eng.arr(w.st, o, 0, o.layout[0])
        def key(w): return rank(cstr(w.st.ghost['key']))
        def at(n): return lambda w: zi(eng.elem(w.get(n).obj, w.get(n).off)[0])
        for n in names:
            v = view.get(n)
            if not isinstance(v, Ptr) or v.obj is None or v.obj.kind != 'array': continue
            o, f = v.obj, at(n)
            if o is ends:
                for m in names:
                    x = view.get(m)
                    if isinstance(x, Ptr) and x.obj is not None and x.obj.kind == 'array' and x.obj is not ends:
                        out.append(('%s follows %s' % (m, n), lambda w, f=f, g=at(m): f(w) == g(w)))
                out.append(('%s within the endpoints' % (n,), lambda w, f=f: z3.And(f(w) >= 0, f(w) <= N)))
            elif o.layout.get(0) == ('ptr', None):
                out.append(('the hosts so far, up to %s' % (n,), lambda w, f=f, o=o: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f(w)), h(w, o)[j] == cstr(j)), patterns=[h(w, o)[j]])))
                out.append(('%s within' % (n,), lambda w, f=f, o=o: z3.And(f(w) >= 0, f(w) <= count(w, o))))
                out.append(('below the host before %s' % (n,), lambda w, f=f, o=o: z3.Or(f(w) == 0, rank(h(w, o)[f(w) - 1]) < key(w))))
                out.append(('not below the host from %s' % (n,), lambda w, f=f, o=o: z3.Or(f(w) == count(w, o), rank(h(w, o)[f(w)]) >= key(w))))
                out.append(('not before %s' % (n,), lambda w, f=f, o=o: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f(w)), rank(h(w, o)[j]) != key(w)), patterns=[h(w, o)[j]])))
                for m in names:
                    if isinstance(view.get(m), Ptr): continue
                    q = lambda w, m=m: zi(w.term(w.get(m)))
                    out.append(('%s + %s within' % (n, m), lambda w, f=f, o=o, q=q: z3.And(q(w) >= 0, f(w) + q(w) <= count(w, o))))
                    out.append(('not below the host from %s + %s' % (n, m), lambda w, f=f, o=o, q=q: z3.Or(f(w) + q(w) == count(w, o), rank(h(w, o)[f(w) + q(w)]) >= key(w))))
        out.append(('the endpoint done', lambda w: done(w.st)))
        return out

    def count(w, o):
        n = o.n(w.st) if callable(o.n) else o.n
        return zi(n)

    res = {}

    def done(st):
        """endpoint i was separated correctly, if it was reached"""
        r = res.get('idx'); hh = res.get('hosts')
        if r is None or hh is None or r.id not in st.mem or hh.id not in st.mem: return z3.BoolVal(True)
        n = zi(r.n(st)); c = zi(hh.n(st))
        X = eng_.arr(st, r, 0, r.layout[0]); Pp = eng_.arr(st, r, 4, r.layout[4]); H = eng_.arr(st, hh, 0, hh.layout[0])
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(X[i] >= 0, X[i] < c, rank(H[X[i]]) == rank(cstr(i)), Pp[i] == port(i)))

    def spy(v, k):
        orig = v.new_storage
        def ns(eng, st, vp, name, n):
            o = orig(eng, st, vp, k, n); res[k] = o
            return o
        v.new_storage = ns
    spy(hosts, 'hosts'); spy(idx, 'idx')

    S = r'^std::__cxx11::basic_string<.*>::'
    def reserve(v):
        def h(eng, st, args, ins):
            if v.get(eng, st, args[0])[0] is None: v.new_storage(eng, st, args[0], 'vec', 0)
            return [(st, None)]
        return h
    cs = [(rx(S + r'(c_str|data)\('), c_str), ((lambda n, d: n == 'strcasecmp'), compare(rank)), ((lambda n, d: n == 'strcmp'), compare(rank2)),
          (rx(r'^void std::(stable_)?sort<'), sort), (rx(r'std::unique<'), unique), (rx(r'std::vector<char const\*.*>::erase\('), erase), (rx(r'std::vector<char const\*.*>::reserve\('), reserve(hosts)), (rx(r'std::vector<std::pair<int, unsigned short>.*>::reserve\('), reserve(idx))]
    e = eng_ = Engine(m, name='SeparateEndpoints', contracts=cs + hosts.contracts() + idx.contracts(), candidates=int_candidates([], (), cand))
    st = State(); e.cur = st

    ends = e.new_obj(st, 'endpoints', kind='array', stride=40, layout={0: ('int', 64, False), 32: ('int', 16, False)}, n=N)
    P = z3.Const('ports', z3.ArraySort(I, I)); st.mem[ends.id] = {32: P}
    vec = e.new_obj(st, 'endpoint list', kind='struct', size=24)
    st.mem[vec.id] = {0: (8, Ptr(ends, 0)), 8: (8, Ptr(ends, imul(N, 40))), 16: (8, Ptr(ends, imul(N, 40)))}
    j = z3.Int('j')
    st.assume_q(z3.ForAll([j], P[j] == port(j), patterns=[P[j]]))
    st.assume(z3.And(N >= 0, N < 2 ** 31))
    out = e.new_obj(st, 'result', kind='struct', size=48)
    st.ghost.update(key=z3.IntVal(-1), chain=())
    outs = returns(e, e.run('vf_separate', st, [Ptr(vec, 0), Ptr(out, 0)]), 'SeparateEndpoints'); reachable(e, outs)
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        ho, hn = hosts.get(e, s, Ptr(out, 0)); xo, xn = idx.get(e, s, Ptr(out, 24))
        if ho is None or xo is None:
            e.prove(s, N == 0, 'separation: nothing is lost'); continue
        H = e.arr(s, ho, 0, ho.layout[0]); hn, xn = zi(hn), zi(xn)
        e.prove(s, xn == N, 'separation: one indexed endpoint per input')
        X = e.arr(s, xo, 0, xo.layout[0]); Pp = e.arr(s, xo, 4, xo.layout[4])
        inr = z3.And(i >= 0, i < N)
        e.prove(s, z3.Implies(inr, Pp[i] == port(i)), 'separation: the ports are those of the input, in order')
        e.prove(s, z3.Implies(inr, z3.And(X[i] >= 0, X[i] < hn)), 'separation: every index designates a host')
        e.prove(s, z3.Implies(z3.And(inr, X[i] >= 0, X[i] < hn), rank(H[X[i]]) == rank(cstr(i))), 'separation: the host designated equals the host of the input ignoring case')
        e.prove(s, z3.Implies(z3.And(a >= 0, a < b, b < hn), rank(H[a]) != rank(H[b])), 'separation: the hosts are pairwise different ignoring case')
        e.prove(s, not [w for w in s.writes if w[0] in (ends.id, vec.id)], 'separation: the input is unchanged')
    return e


def units(ctx):
    return [Unit('SeparateEndpoints', separate, ['SeparateEndpoints', 'its comparators', 'StrCaseCmp', 'std::lower_bound (inlined body)'], timeout=600)]


def natives(ctx):
    return [Native('native/C19.cpp', srcs=['src/recorder/stream_recorder/utility.cpp', 'src/common/platform/string_unix.cpp'], budget=(8, 40))]
