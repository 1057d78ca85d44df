"""C14: FlatMap - sorted, unique keys, last write wins (contracts over an abstract key order)."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['keys are compared by a strict total order consistent with == (as std::less on the key types used); the contracts use abstract keys whose only operations are <, == and moves', 'fewer than 2^40 entries', 'allocation succeeds']
TRUSTED = ['std::vector::emplace/insert/erase/emplace_back shift and keep the elements as specified (std::lower_bound and the iterators are verified inline, not trusted)']
SRC = ['harness/flat_map.cpp']
I = z3.IntSort()


class Map:
    def __init__(s, ctx, name):
        V = r'std::vector<std::pair<vf::K, vf::V>.*>::'
        cmp = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
        cs = [(rx(r'^vf::operator(<|>|<=|>=|==|!=)\(vf::[KQ] const&, vf::[KQ] const&\)'), lambda g, st, a, i: [(st, s.compare(st, a, i, cmp))]),
              (rx(r'^vf::[KV]::([KV]|operator=)\('), s.assign),
              (rx(V + r'(emplace<|emplace_back<|push_back\(|insert\()'), s.insert), (rx(V + r'erase\('), s.erase), (rx(V + r'(~vector|reserve|shrink_to_fit)\('), noop)]
        s.e = e = Engine(ctx.module(SRC), name=name, contracts=cs, candidates=int_candidates([], (), s.cand))
        st = State(); e.cur = st; s.st = st
        s.n, s.k, s.v, s.i, s.j = z3.Ints('n key value i j')
        s.map = e.new_obj(st, 'map', kind='struct', size=24)
        s.key = e.new_obj(st, 'key', kind='struct', size=8); s.val = e.new_obj(st, 'value', kind='struct', size=8)
        U = 2 ** 64
        st.assume(z3.And(s.n >= 0, s.n < 2 ** 40, s.k >= 0, s.k < U, s.v >= 0, s.v < U))
        st.mem[s.key.id] = {0: (8, IV(64, u=s.k))}; st.mem[s.val.id] = {0: (8, IV(64, u=s.v))}
        a = s.storage(st, s.n)
        s.K0, s.V0 = z3.Const('K', z3.ArraySort(I, I)), z3.Const('V', z3.ArraySort(I, I))
        st.mem[a.id] = {0: s.K0, 8: s.V0}; s.a = a
        x, y = z3.Ints('x y')
        st.assume_q(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < s.n), s.K0[x] < s.K0[y]), patterns=[z3.MultiPattern(s.K0[x], s.K0[y])]))
        s.old = a
        st.writes = frozenset()

    def storage(s, st, n):
        a = s.e.new_obj(st, 'entries', kind='array', stride=16, layout={0: ('int', 64, False), 8: ('int', 64, False)}, n=n)
        st.ghost['entries'] = a.id; s.objs = getattr(s, 'objs', {}); s.objs[a.id] = (a, n)
        cap = imul(n, 16)
        st.mem[s.map.id] = {0: (8, Ptr(a, 0)), 8: (8, Ptr(a, cap)), 16: (8, Ptr(a, cap))}
        return a

    def now(s, st):
        a, n = s.objs[st.ghost['entries']]
        return a, n, s.e.arr(st, a, 0, a.layout[0]), s.e.arr(st, a, 8, a.layout[8])

    def num(s, st, p): return zi(s.e.dom.u(s.e.as_int(s.e.load(st, p, ir.INT(64)))))

    def compare(s, st, a, ins, cmp):
        import re
        op = re.search(r'operator(<=|>=|==|!=|<|>)\(', s.e.dem(ins['callee'][1])).group(1)
        return cmp[op](s.num(st, a[0]), s.num(st, a[1]))

    def assign(s, g, st, a, ins):
        if len(a) != 2: raise Unsupported('signature')
        s.e.store(st, a[0], ir.INT(64), s.e.load(st, a[1], ir.INT(64)))
        if '&&' in s.e.dem(ins['callee'][1]):       # what is moved from is left with an unspecified value
            s.e.store(st, a[1], ir.INT(64), s.e.fresh_val(st, ir.INT(64), 'moved'))
        return [(st, a[0])]

    def position(s, st, p):
        a, n, K, V = s.now(st)
        p = s.e.norm_ptr(p)
        if p.obj is not a: s.e.prove(st, False, 'memory: an iterator of the map as it is'); raise Done()
        r, c = s.e.elem(a, p.off)
        if c != 0: raise Unsupported('iterator offset')
        return zi(r)

    def insert(s, g, st, a, ins):
        """std::vector::emplace(pos, k, v) and relatives: the new entry at pos, the others kept in order"""
        dem = s.e.dem(ins['callee'][1])
        ar, n, K, V = s.now(st)
        back = 'emplace_back' in dem or 'push_back' in dem
        p = zi(n) if back else s.position(st, a[1])
        rest = a[1:] if back else a[2:]
        s.e.prove(st, z3.And(p >= 0, p <= n), 'memory: insertion within the map')
        if len(rest) == 2: k, v = s.num(st, rest[0]), s.num(st, rest[1]); moved = [(rest[0], 0), (rest[1], 0)]
        elif len(rest) == 1: k, v = s.num(st, rest[0]), s.num(st, Ptr(rest[0].obj, s.e.dom.off_add(rest[0].off, 8), rest[0].key)); moved = [(rest[0], 0), (rest[0], 8)]
        else: raise Unsupported('insertion arguments')
        b = s.storage(st, zi(n) + 1)
        x = z3.Int('x')
        st.mem[b.id] = {c: z3.Lambda([x], z3.If(x < p, A[x], z3.If(x == p, t, A[x - 1]))) for c, A, t in ((0, K, k), (8, V, v))}
        st.freed = st.freed | {ar.id}
        st.ghost['inserted'] = st.ghost.get('inserted', 0) + 1
        return [(st, Ptr(b, imul(p, 16)))]

    def erase(s, g, st, a, ins): raise Unsupported('erase')

    def cand(s, e, view):
        """binary search: everything before a position is below the key, everything from it on is not"""
        out = []
        def parr(w): return s.now(w.st)[2]
        pos = [(n, lambda w, n=n: s.pos_of(w.get(n))) for n in [m for m, _ in view.ints()] + list(view.ptrs()) if s.pos_of(view.get(n)) is not None]
        num = [(n, lambda w, n=n: zi(w.term(w.get(n)))) for n, t in view.ints() if s.pos_of(view.get(n)) is None]
        for n, p in pos:
            out.append(('%s within' % (n,), lambda w, p=p: z3.And(p(w) >= 0, p(w) <= s.n) if p(w) is not None else True))
            out.append(('below the key before %s' % (n,), lambda w, p=p: z3.Or(p(w) == 0, parr(w)[p(w) - 1] < s.k) if p(w) is not None else True))
            out.append(('not below the key from %s' % (n,), lambda w, p=p: z3.Or(p(w) == s.n, parr(w)[p(w)] >= s.k) if p(w) is not None else True))
            for m, q in num:
                out.append(('%s + %s within' % (n, m), lambda w, p=p, q=q: z3.And(q(w) >= 0, p(w) + q(w) <= s.n) if p(w) is not None else True))
                out.append(('not below the key from %s + %s' % (n, m), lambda w, p=p, q=q: z3.Or(p(w) + q(w) == s.n, parr(w)[p(w) + q(w)] >= s.k) if p(w) is not None else True))
        return out

    def pos_of(s, v):
        if not isinstance(v, Ptr) or v.obj is None or v.obj.id not in s.objs: return None
        i, c = s.e.elem(v.obj, v.off)
        return zi(i) if is_c(c) and c == 0 else None

    def ends(s, fn, args, what):
        outs = returns(s.e, s.e.run(fn, s.st, args), what); reachable(s.e, outs)
        for o in outs:
            s.e.cur = o
            if s.e.check_valid(o, False, timeout=1500)[0] != 'proved': yield o


def insert(ctx):
    M = Map(ctx, 'insert_or_assign'); e = M.e; k, v, i, j, n0, K0, V0 = M.k, M.v, M.i, M.j, M.n, M.K0, M.V0
    had = z3.Int('had')         # an arbitrary position of the map before
    for s in M.ends('vf_insert', [Ptr(M.map, 0), Ptr(M.key, 0), Ptr(M.val, 0)], 'insert_or_assign'):
        a, n, K, V = M.now(s)
        r = M.position(s, s.outcome[1]); n = zi(n)
        b, x = e.load(s, Ptr(M.map, 0), ir.PTR), e.load(s, Ptr(M.map, 8), ir.PTR)
        e.prove(s, b_and(e.ptr_eq(b, Ptr(a, 0)), e.ptr_eq(x, Ptr(a, imul(n, 16)))), 'insert_or_assign: the map is what was stored')
        e.prove(s, z3.And(r >= 0, r < n), 'insert_or_assign: returns an entry of the map')
        e.prove(s, z3.Implies(z3.And(r >= 0, r < n), z3.And(K[r] == k, V[r] == v)), 'insert_or_assign: the returned entry carries the key and the value')
        e.prove(s, z3.Implies(z3.And(i >= 0, i < j, j < n), K[i] < K[j]), 'insert_or_assign: keys stay sorted and unique')
        e.prove(s, z3.Implies(z3.And(had >= 0, had < n0, K0[had] == k), z3.And(n == n0, r == had, z3.Implies(z3.And(i >= 0, i < n0, i != had), z3.And(K[i] == K0[i], V[i] == V0[i])))), 'insert_or_assign: an existing key keeps one entry, all others are unchanged')
        e.prove(s, z3.Or(z3.And(n == n0, r >= 0, r < n0, K0[r] == k), n == n0 + 1), 'insert_or_assign: a new key adds exactly one entry')
        e.prove(s, z3.Implies(z3.And(n == n0 + 1, i >= 0, i < n0), z3.If(i < r, z3.And(K[i] == K0[i], V[i] == V0[i]), z3.And(K[i + 1] == K0[i], V[i + 1] == V0[i]))), 'insert_or_assign: all other entries are kept')
    return e


def find(ctx):
    engs = []
    for fn, what in (('vf_find', 'find'), ('vf_find_other', 'find (by another type)')):
        M = Map(ctx, what); e = M.e; engs.append(e); i = M.i
        for s in M.ends(fn, [Ptr(M.map, 0), Ptr(M.key, 0)], what):
            r = M.position(s, s.outcome[1])
            e.prove(s, z3.And(r >= 0, r <= M.n), 'find: returns an entry or the end')
            e.prove(s, z3.Implies(z3.And(r >= 0, r < M.n), M.K0[r] == M.k), 'find: the entry found has the key')
            e.prove(s, z3.Implies(z3.And(r == M.n, i >= 0, i < M.n), M.K0[i] != M.k), 'find: absence is reported only for absent keys')
            e.prove(s, not [w for w in s.writes if w[0] in (M.map.id, M.a.id, M.key.id)], 'find: changes nothing')
    M = Map(ctx, 'views'); e = M.e; engs.append(e)
    for fn, want in (('vf_begin', lambda: Ptr(M.a, 0)), ('vf_end', lambda: Ptr(M.a, imul(M.n, 16))), ('vf_vector', lambda: Ptr(M.map, 0)), ('vf_empty', None)):
        M = Map(ctx, fn[3:]); e = M.e; engs.append(e)
        for s in M.ends(fn, [Ptr(M.map, 0)], fn[3:]):
            e.prove(s, zb(s.outcome[1]) == (M.n == 0) if want is None else e.ptr_eq(s.outcome[1], want()), '%s is what it says' % fn[3:])
    return engs


def units(ctx):
    return [Unit('insert_or_assign', insert, ['FlatMap::insert_or_assign', 'FlatMap::lower_bound', 'std::lower_bound (inlined body)'], timeout=400), Unit('find', find, ['FlatMap::find', 'FlatMap::lower_bound', 'FlatMap::begin', 'FlatMap::end', 'FlatMap::empty', 'FlatMap::as_vector'], timeout=400)]


def natives(ctx):
    return [Native('native/C14.cpp', budget=(8, 40))]
