"""C01: CircularBuffer - exactly-once bounded FIFO under concurrent producers (rely/guarantee contracts)."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['atomic steps interleave (C++11: an acquire reading a release, or its release sequence of read-modify-writes, sees what came before); the orders this needs are obligations',
               'one consumer thread; each producer owns the element it adds (unique_ptr); a callback given to Consume sets every element of its range to null, as its documentation requires',
               'fewer than 2^62 elements pass through the buffer and max_size() < 2^40', 'termination of Add under contention is a liveness matter and not decided']
TRUSTED = ['std::unique_ptr is executed as compiled; operator new[] succeeds']
I = z3.IntSort()
M = z3.Function('slotof', I, I)          # position modulo the number of slots


class World:
    """the shared state: positions [0,tail) consumed, [tail,head) stored, [lo,head) still in their slots"""
    def __init__(s, ctx, name, who, env=True, contracts=(), measures=(), extra=None, src=('harness/cbuf.cpp',), hdr=('cbuf_item.h',), T='vf::Elem', dtor='vf::Elem::~Elem', offs={}, sizes={}):
        m = ctx.module(list(src))
        C = 'lightstep::CircularBuffer<%s>' % T
        s.O = ctx.offsets(list(hdr), {k: (C, k + '_') for k in ('data', 'capacity', 'head', 'tail')} | {'r.' + k: ('lightstep::CircularBufferRange<lightstep::AtomicUniquePtr<%s>>' % T, k + '_') for k in ('first1', 'last1', 'first2', 'last2')} | offs, {'C': C, 'R': 'lightstep::CircularBufferRange<lightstep::AtomicUniquePtr<%s>>' % T} | sizes)
        s.who = who; s.env = env; s.name = name
        s.e = e = Engine(m, name=name, contracts=list(contracts) + [(dtor, s.dtor)], on_atomic=s.rely, after_atomic=s.guar, candidates=int_candidates(list(measures), (1, -1, 8, -8), extra))
        e.memo = {"seen", "heads"}
        e.dom.div_hook = s.div
        s.mods = []
        st = State(); e.cur = st; s.st = st
        s.reg = e.new_obj(st, 'Elem', kind='region', layout={0: ('int', 64, True)})
        s.cap = z3.Int('cap')
        s.data = e.new_obj(st, 'slots', kind='array', stride=8, layout={0: ('ptr', s.reg)}, n=s.cap)
        s.data.shared = True
        s.b = e.new_obj(st, 'buffer', kind='struct', size=s.O['C'])
        s.b.shared = lambda off: off in (s.O['head'], s.O['tail'])
        s.p, s.i = z3.Ints('some_position some_slot')
        h, t, lo = z3.Ints('head0 tail0 lo0')
        st.assume(z3.And(s.cap >= 1, s.cap < 2 ** 40))
        st.mem[s.b.id] = {s.O['data']: (8, Ptr(s.data, 0)), s.O['capacity']: (8, IV(64, u=s.cap)), s.O['head']: (8, IV(64, s=h)), s.O['tail']: (8, IV(64, s=t))}
        A = lambda n: z3.Array(n, I, I)
        st.ghost.update(lo=lo, K=A('K0'), pos=A('pos0'), seq=A('seq0'), mine=z3.IntVal(-1), acc=z3.IntVal(0), held=z3.IntVal(0), sync=z3.IntVal(0), heads=())
        st.mem[s.data.id] = {0: A('V0')}
        if who == 'producer':
            s.u = z3.Int('u'); st.assume(z3.And(s.u > 0, s.u < 2 ** 64))
            s.ow = e.new_obj(st, 'owner', kind='struct', size=8); st.mem[s.ow.id] = {0: (8, Ptr(s.reg, 0, s.u))}
        s.assume_inv(st, [s.p, h - 1, t], [s.i])
        if who == 'consumer':
            st.assume(lo == t)
            s.pf(st, h)
        s.h0, s.t0 = h, t
        if env is False: st.assume(lo == t)
        st.writes = frozenset(); st.gwrites = frozenset()

    # -- the shared state
    def h(s, st): return zi(s.e.dom.s(st.mem[s.b.id][s.O['head']][1]))
    def t(s, st): return zi(s.e.dom.s(st.mem[s.b.id][s.O['tail']][1]))
    def V(s, st): return st.mem[s.data.id][0]

    def phi_g(s, st, top=True):
        h, t, lo = s.h(st), s.t(st), st.ghost['lo']
        return z3.And(0 <= t, t <= h, h - t <= s.cap - 1, h < 2 ** 62 if top else True, 0 <= lo, lo <= h)

    def phi_p(s, st, p):
        g = st.ghost; V = s.V(st)
        return z3.Implies(z3.And(g['lo'] <= p, p < s.h(st)), z3.And(g['K'][M(p)] == 2, g['pos'][M(p)] == p, V[M(p)] == g['seq'][p], g['seq'][p] > 0))

    def phi_i(s, st, i):
        K, V = st.ghost['K'], s.V(st)
        return z3.And(K[i] >= 0, K[i] <= 2, V[i] >= 0, V[i] < 2 ** 64, (K[i] == 0) == (V[i] == 0))

    def mod(s, st, x):
        """facts about x mod cap; instances of the lemmas proved in unit 'positions'"""
        st.assume(z3.And(M(x) >= 0, M(x) < s.cap))

    def pf(s, st, *xs):
        for x in xs:
            s.mod(st, x)

    def near(s, st, x, y):
        """M(y) from M(x) for x <= y < x + cap"""
        st.assume(z3.Implies(z3.And(x <= y, y - x < s.cap), M(y) == z3.If(M(x) + (y - x) < s.cap, M(x) + (y - x), M(x) + (y - x) - s.cap)))

    def assume_inv(s, st, ps, is_):
        st.assume(s.phi_g(st))
        for p in ps: s.mod(st, p); st.assume(s.phi_p(st, p))
        for i in is_: st.assume(s.phi_i(st, i))

    def div(s, op, x, y):
        if op != 'rem': return None
        st = s.e.cur
        if not (z3.is_expr(y) and y.eq(s.cap)) and s.e.holds(st, y == s.cap) is not True: return None
        s.mod(st, x)
        # relations between the positions this thread has computed slots for
        for z in st.ghost.get('seen', ()): s.near(st, z, x); s.near(st, x, z)
        if not any(x.eq(z) for z in st.ghost.get('seen', ())): st.ghost['seen'] = st.ghost.get('seen', ()) + (x,)
        s.near(st, s.t(st), x)
        return M(x)

    def kof(s, v):
        e = s.e
        if isinstance(v, PtrInt): v = v.p if v.p is not None else v
        return zi(e.ptr_term(e.norm_ptr(v))) if isinstance(v, Ptr) else zi(e.dom.u(v))

    def slot(s, p):
        i, c = s.e.elem(s.data, p.off)
        return zi(i)

    def loc(s, p):
        if p.obj is s.data: return 'slot'
        if p.obj is s.b and is_c(p.off):
            if p.off == s.O['head']: return 'head'
            if p.off == s.O['tail']: return 'tail'
        return None

    # -- interference before each atomic step
    def rely(s, eng, st, ins, p):
        w = s.loc(p)
        if w is None or not s.env: 
            if w == 'slot':
                st.assume(s.phi_i(st, s.slot(p))); s.mine(st)
                if s.who == 'consumer': s.assume_inv(st, [st.ghost['lo']], []); s.near(st, st.ghost['lo'], s.t0); s.near(st, s.t0, st.ghost['lo'])
            return [st] if w else None
        n = next(Obj.ids)
        h0, t0, g0, V0 = s.h(st), s.t(st), dict(st.ghost), s.V(st)
        h, t, lo = z3.Ints('h!%d t!%d lo!%d' % (n, n, n))
        A = lambda nm: z3.Array('%s!%d' % (nm, n), I, I)
        ghosts = dict(K=A('K'), pos=A('pos'))
        if s.who == 'producer':
            st.assume(z3.And(t >= t0, lo >= g0['lo'], h >= h0)); ghosts.update(seq=A('seq'), lo=lo)
        else:
            t = t0; st.assume(h >= h0)      # only producers run besides the consumer; the sequence of accepted elements only grows
        for k, v in ghosts.items(): st.ghost[k] = v
        st.gwrites = st.gwrites | set(ghosts)
        mem = dict(st.mem[s.b.id]); mem[s.O['head']] = (8, IV(64, s=h)); mem[s.O['tail']] = (8, IV(64, s=t)); st.mem[s.b.id] = mem
        st.mem[s.data.id] = {0: A('V')}
        st.writes = st.writes | {(s.b.id, s.O['head'], 8), (s.b.id, s.O['tail'], 8), (s.data.id, 0)}
        ps = [s.p, h - 1, t, st.ghost['lo']]; iz = [s.i]
        if w == 'slot': iz.append(s.slot(p))
        s.assume_inv(st, ps, iz)
        if s.who == 'consumer' and w == 'slot': s.near(st, st.ghost['lo'], s.t0); s.near(st, s.t0, st.ghost['lo'])
        s.mine(st)
        if w == 'slot': s.watch(st)
        return [st]

    def watch(s, st): pass

    def mine(s, st):
        if s.who == 'producer':      # nobody else touches a slot this thread has reserved
            m = st.ghost['mine']
            st.assume(z3.Implies(m >= 0, z3.And(st.ghost['K'][m] == 1, s.V(st)[m] == s.u)))

    # -- guarantee of each own step
    def guar(s, eng, pre, st, ins, p, kind, old, new):
        w = s.loc(p)
        if w is None: return
        P = lambda f, n: eng.prove(st, f, n)
        if kind in ('load', 'casfail'):
            if w == 'head':
                h = zi(eng.dom.s(old))
                if len(st.ghost['heads']) < 3: st.ghost['heads'] = st.ghost['heads'] + (h,)
                if has_acquire(ins, kind == 'casfail'): st.gset('sync', z3.If(h > st.ghost['sync'], h, st.ghost['sync']))
            return
        g = pre.ghost
        if s.who == 'producer':
            if w == 'tail': P(False, 'guarantee: a producer does not move the tail')
            elif w == 'slot':
                i, a, b = s.slot(p), s.kof(old), s.kof(new)
                st.assume(s.phi_i(pre, i))
                if kind == 'store':
                    # only over its own reservation may a producer store without looking
                    P(g['mine'] == i, 'guarantee: a producer replaces a slot\'s content only by read-modify-write, unless it reserved the slot')
                reserve = z3.And(a == 0, b == s.u)
                P(z3.Or(z3.And(reserve, g['mine'] == -1), z3.And(g['mine'] == i, b == 0), a == b), 'guarantee: a producer only reserves an empty slot for its element, or takes its own reservation back')
                st.gset('mine', z3.If(a == b, g['mine'], z3.If(b == 0, -1, i)))
                st.gset('K', z3.Store(g['K'], i, z3.If(a == b, g['K'][i], z3.If(b == 0, 0, 1))))
            elif w == 'head':
                a, b = zi(eng.dom.s(old)), zi(eng.dom.s(new))
                P(kind in ('cas', 'rmw'), 'guarantee: the head is moved by an atomic read-modify-write')
                P(b == a + 1, 'guarantee: the head advances by one')
                P(z3.And(g['mine'] == M(a), g['mine'] >= 0), 'guarantee: publication of the element in the slot at the head')
                P(has_release(ins), 'guarantee: the publishing step has release ordering')
                s.mod(st, a); s.mod(st, s.p)
                st.gset('K', z3.Store(g['K'], M(a), 2)); st.gset('pos', z3.Store(g['pos'], M(a), a)); st.gset('seq', z3.Store(g['seq'], a, s.u))
                P(g['acc'] == 0, 'guarantee: an element is published at most once')
                st.gset('acc', g['acc'] + 1); st.gset('mine', z3.IntVal(-1))
        else:
            if w == 'head': P(False, 'guarantee: the consumer does not move the head')
            elif w == 'tail':
                a, b = zi(eng.dom.s(old)), zi(eng.dom.s(new))
                P(b >= a, 'guarantee: the tail never moves back')
                P(b <= s.h(st), 'guarantee: the tail never passes the head')
                if s.env is not None: P(s.limit is None or b <= s.t0 + s.limit, 'guarantee: no more than the requested elements are consumed')
            else:
                i, a, b = s.slot(p), s.kof(old), s.kof(new)
                lo = g['lo']
                P(b == 0, 'guarantee: the consumer only empties slots')
                P(z3.And(lo < s.h(st), i == M(lo), a == g['seq'][lo], a > 0), 'guarantee: the consumer takes the oldest element not yet taken, once')
                if s.limit is not None: P(lo < s.t0 + s.limit, 'guarantee: no more than the requested elements are taken')
                P(g['held'] == 0, 'every element taken is disposed of before the next')
                st.gset('held', a); st.gset('lo', lo + 1)
                st.gset('K', z3.Store(g['K'], i, 0))
        P(s.phi_g(st, False) if s.who == 'producer' else z3.And(s.h(st) - s.t(st) <= s.cap - 1, st.ghost['lo'] <= s.h(st)), 'invariant: never more elements stored than max_size()')
        P(s.phi_p(st, s.p), 'invariant: every stored element is in its slot')
        P(s.phi_i(st, s.i), 'invariant: every slot is empty, reserved or holds a stored element')

    limit = None

    def dtor(s, eng, st, args, ins):
        x = s.kof(args[0])
        if s.who == 'producer': eng.prove(st, False, 'adding destroys no element')
        else:
            eng.prove(st, z3.And(x == st.ghost['held'], x != 0), 'only the element just taken is destroyed, once')
            st.gset('held', z3.IntVal(0))
        return [(st, None)]

    def owner(s, st): return s.kof(s.e.load(st, Ptr(s.ow, 0), ir.PTR))


def add(ctx):
    def inv(eng, v):
        return [('no reservation', lambda w: w.st.ghost['mine'] == -1), ('not published', lambda w: w.st.ghost['acc'] == 0), ('owns the element', lambda w: W.kof(eng.load(w.st, Ptr(W.ow, 0), ir.PTR)) == W.u),
                ('shared invariant', lambda w: W.phi_g(w.st, False)), ('shared invariant (position)', lambda w: W.phi_p(w.st, W.p)), ('shared invariant (slot)', lambda w: W.phi_i(w.st, W.i)),
                ('tail only grows', lambda w: W.t(w.st) >= W.t(w.entry)), ('head unchanged without others', lambda w: W.h(w.st) == W.h(w.entry)), ('no element in the slot of the head', lambda w: W.V(w.st)[M(W.h(w.st))] == 0)]
    W = World(ctx, 'Add, any interference', 'producer', extra=inv); e = W.e
    engs = [e]
    outs = returns(e, e.run('vf_add', W.st, [Ptr(W.b, 0), Ptr(W.ow, 0)]), 'Add')
    reachable(e, outs); kinds = set()
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        r = s.outcome[1]; r = simp(r) if not isinstance(r, bool) else r
        if not isinstance(r, bool): r = e.oracle(r)
        if r is None: raise Unsupported('undecided result')
        kinds.add(r)
        e.prove(s, s.ghost['mine'] == -1, 'Add: no reservation is left behind')
        if r:
            e.prove(s, s.ghost['acc'] == 1, 'Add: an accepted element is in the sequence exactly once')
            e.prove(s, W.owner(s) == 0, 'Add: the buffer owns an accepted element')
        else:
            e.prove(s, s.ghost['acc'] == 0, 'Add: a refused element is not in the sequence')
            e.prove(s, W.owner(s) == W.u, 'Add: a refused element stays with the caller')
    st = State(); e.cur = st
    e.prove(st, kinds == {True, False}, 'Add can both accept and refuse')
    W = World(ctx, 'Add, alone', 'producer', env=False, extra=inv); e = W.e
    engs.append(e)
    st = W.st
    # between operations every slot outside the stored range is empty
    st.assume(W.V(st)[M(W.h0)] == 0)
    outs = returns(e, e.run('vf_add', st, [Ptr(W.b, 0), Ptr(W.ow, 0)]), 'Add')
    reachable(e, outs)
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        r = zb(s.outcome[1])
        e.prove(s, r == (W.h0 - W.t0 < W.cap - 1), 'Add without concurrent activity is refused exactly when the buffer is full')
        e.prove(s, W.h(s) == z3.If(r, W.h0 + 1, W.h0), 'Add counts exactly the accepted elements')
        e.prove(s, W.t(s) == W.t0, 'Add leaves the tail alone')
    return engs


def range_is(W, s, a, n, what):
    """the range object at a denotes the slots of positions t0 .. t0+n-1"""
    e = W.e
    f1, l1, f2, l2 = [zi(e.ptr_term(e.norm_ptr(e.load(s, Ptr(a.obj, e.dom.off_add(a.off, W.O['r.' + k])), ir.PTR)))) for k in ('first1', 'last1', 'first2', 'last2')]
    m1, m2, k = z3.Ints('m1 m2 k')
    e.prove(s, z3.And((l1 - f1) % 8 == 0, (l2 - f2) % 8 == 0), what + ': whole slots')
    s.assume(z3.And(l1 - f1 == 8 * m1, l2 - f2 == 8 * m2))
    e.prove(s, z3.And(m1 >= 0, m2 >= 0, z3.Implies(m1 == 0, m2 == 0)), what + ': well-formed range')
    if n is None: n = m1 + m2
    else: e.prove(s, m1 + m2 == n, what + ': exactly the requested number of elements')
    W.near(s, W.t0, W.t0 + k); W.mod(s, W.t0 + k)
    e.prove(s, z3.Implies(z3.And(k >= 0, k < n), z3.If(k < m1, f1 + 8 * k, f2 + 8 * (k - m1)) == zi(W.data.addr) + 8 * M(W.t0 + k)), what + ': element k is the k-th oldest stored element')
    e.prove(s, z3.And(n <= W.h(s) - W.t0, n <= s.ghost['sync'] - W.t0), what + ': only published elements, made visible by an acquire load of the head')
    return n


def consume(ctx, part):
    engs = []
    if part == 'peek':
        W = World(ctx, 'Peek', 'consumer'); e = W.e; engs.append(e)
        out = e.new_obj(W.st, 'out', kind='struct', size=W.O['R'])
        outs = returns(e, e.run('vf_peek', W.st, [Ptr(W.b, 0), Ptr(out, 0)]), 'Peek')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
            n = range_is(W, s, Ptr(out, 0), None, 'Peek')
            e.prove(s, n >= W.h0 - W.t0, 'Peek: every element stored before the call is in the range')
            e.prove(s, z3.And(s.ghost['lo'] == W.t0, W.t(s) == W.t0), 'Peek changes nothing')
    if part == 'consume':
        def inv(eng, v):
            g = lambda w: w.st.ghost
            return [('shared invariant', lambda w: W.phi_g(w.st, False)), ('shared invariant (position)', lambda w: W.phi_p(w.st, W.p)), ('shared invariant (slot)', lambda w: W.phi_i(w.st, W.i)), ('head only grows', lambda w: W.h(w.st) >= W.h(w.entry)),
                    ('nothing held', lambda w: g(w)['held'] == 0), ('taken at most n', lambda w: W.limit is None or g(w)['lo'] <= W.t0 + W.limit), *[('taken at most up to the head seen (%d)' % k, lambda w, k=k: g(w)['lo'] <= w.entry.ghost['heads'][k]) for k in range(len(v.entry.ghost['heads']))], ('taken at most what was consumed', lambda w: g(w)['lo'] <= W.t(w.st)), ('lo >= t0', lambda w: g(w)['lo'] >= W.t0), ('tail', lambda w: W.t(w.st) == W.t(w.entry)),
                    ('up to the end of the array', lambda w: g(w)['lo'] - W.t0 <= W.cap - M(W.t0)), ('beyond the end of the array', lambda w: g(w)['lo'] - W.t0 >= W.cap - M(W.t0)), ('slots follow each other', lambda w: M(g(w)['lo']) == z3.If(M(W.t0) + g(w)['lo'] - W.t0 < W.cap, M(W.t0) + g(w)['lo'] - W.t0, M(W.t0) + g(w)['lo'] - W.t0 - W.cap))]
        for fn, what in (('vf_consume', 'Consume'), ('vf_clear', 'Clear')):
            W = World(ctx, what, 'consumer', measures=[('elements taken', lambda s: s.ghost['lo'])], extra=inv); e = W.e; engs.append(e)
            n = z3.Int('n')
            st = W.st
            if fn == 'vf_consume': W.limit = n
            if fn == 'vf_consume': st.assume(z3.And(n >= 0, n <= W.h0 - W.t0))
            outs = returns(e, e.run(fn, st, [Ptr(W.b, 0)] + ([IV(64, u=n)] if fn == 'vf_consume' else [])), what)
            reachable(e, outs)
            for s in outs:
                e.cur = s
                if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
                if fn == 'vf_clear':
                    e.prove(s, z3.And(W.t(s) >= W.h0, W.t(s) <= W.h(s)), 'Clear: every element stored before the call is consumed')
                    e.prove(s, s.ghost['lo'] == W.t(s), 'Clear: exactly the consumed elements are taken from their slots')
                    e.prove(s, s.ghost['held'] == 0, what + ': every consumed element is destroyed')
                    continue
                e.prove(s, W.t(s) == W.t0 + n, what + ': exactly the requested number of elements is consumed')
                e.prove(s, s.ghost['lo'] == W.t0 + n, what + ': exactly the consumed elements are taken from their slots')
                e.prove(s, s.ghost['held'] == 0, what + ': every consumed element is destroyed')
    if part == 'callback':
        def cb(eng, s, args, ins):
            eng.prove(s, s.ghost['calls'] == 0, 'Consume: the callback is called once')
            eng.prove(s, eng.ptr_eq(eng.load(s, args[0], ir.PTR), W.cbstate), 'Consume: the given callback is called')
            range_is(W, s, args[1], W.limit, 'Consume')
            # the callback empties the slots it is given (documented requirement)
            k = next(Obj.ids)
            s.gset('calls', s.ghost['calls'] + 1); s.gset('lo', W.t0 + W.limit)
            s.gset('K', z3.Array('Kc!%d' % k, I, I)); s.gset('pos', z3.Array('posc!%d' % k, I, I))
            s.mem[W.data.id] = {0: z3.Array('Vc!%d' % k, I, I)}; s.writes = s.writes | {(W.data.id, 0)}
            W.assume_inv(s, [W.p], [W.i])
            return [(s, None)]
        W = World(ctx, 'Consume with a callback', 'consumer', contracts=[('vf::Take::operator()', cb)]); e = W.e; engs.append(e)
        n = z3.Int('n'); st = W.st; W.limit = n
        st.assume(z3.And(n >= 0, n <= W.h0 - W.t0)); st.ghost['calls'] = z3.IntVal(0)
        so = e.new_obj(st, 'cbstate', kind='struct', size=8); W.cbstate = Ptr(so, 0)
        outs = returns(e, e.run('vf_consume_cb', st, [Ptr(W.b, 0), IV(64, u=n), Ptr(so, 0)]), 'Consume')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, s.ghost['calls'] == 1, 'Consume: the callback is called once')
            e.prove(s, W.t(s) == W.t0 + n, 'Consume: exactly the requested number of elements is consumed')
    if part == 'counts':
        for fn, what, f in (('vf_max_size', 'max_size', lambda W, s: W.cap - 1), ('vf_empty', 'empty', lambda W, s: W.h0 == W.t0), ('vf_size', 'size', lambda W, s: W.h0 - W.t0), ('vf_consumed', 'consumption_count', lambda W, s: W.t0), ('vf_produced', 'production_count', lambda W, s: W.h0)):
            W = World(ctx, what, 'consumer', env=None); e = W.e; engs.append(e)
            W.limit = z3.IntVal(0)
            for s in returns(e, e.run(fn, W.st, [Ptr(W.b, 0)]), what):
                e.cur = s; r = s.outcome[1]
                e.prove(s, (zb(r) if fn == 'vf_empty' else zi(e.dom.u(r))) == f(W, s), what + ' reports exactly what was added and consumed')
                e.prove(s, z3.And(W.h(s) == W.h0, W.t(s) == W.t0), what + ' changes nothing')
            # under interference it still reports values the counters had
            if fn in ('vf_size', 'vf_consumed', 'vf_produced', 'vf_empty'):
                W = World(ctx, what + ', any interference', 'consumer'); e = W.e; engs.append(e)
                W.limit = z3.IntVal(0)
                for s in returns(e, e.run(fn, W.st, [Ptr(W.b, 0)]), what):
                    e.cur = s; r = s.outcome[1]
                    if fn == 'vf_empty': e.prove(s, z3.And(z3.Implies(zb(r), W.h0 == W.t0), z3.Implies(W.h(s) == W.t0, zb(r))), 'empty: reports a state between call and return')
                    else:
                        x = zi(e.dom.u(r)) + (W.t0 if fn == 'vf_size' else 0)
                        e.prove(s, x == W.t0 if fn == 'vf_consumed' else z3.And(W.h0 <= x, x <= W.h(s)), what + ': reports a value between call and return')
    return engs


def positions(ctx):
    m = ctx.module(['harness/cbuf.cpp'])
    e = Engine(m, name='positions')
    x, y, c, q, r, q2, r2, d = z3.Ints('x y c q r q2 r2 d')
    # slotof(x) is the r with x = q*c + r, 0 <= r < c; the instances used by the contracts follow
    hyp = z3.And(c >= 1, r >= 0, r < c, r2 >= 0, r2 < c, d == y - x, d >= 0, d < c, x == q * c + r, y == q2 * c + r2)
    dq = z3.Int('dq')
    lemma(e, 'quotients of close positions differ by at most one', z3.Implies(z3.And(hyp, q2 == q + dq), z3.And(dq >= 0, dq <= 1)), timeout=60000)
    lemma(e, 'slots of close positions follow each other', z3.Implies(z3.And(c >= 1, r >= 0, r < c, r2 >= 0, r2 < c, d >= 0, d < c, z3.Or(dq == 0, dq == 1), d == z3.If(dq == 1, c, 0) + r2 - r), r2 == z3.If(r + d < c, r + d, r + d - c)))
    return e


def construct(ctx):
    m = ctx.module(['harness/cbuf.cpp'])
    C = 'lightstep::CircularBuffer<vf::Elem>'
    O = ctx.offsets(['cbuf_item.h'], {k: (C, k + '_') for k in ('data', 'capacity', 'head', 'tail')}, {'C': C})
    Z = {}

    def alloc(eng, st, args, ins):
        sz = zi(eng.dom.idx(eng.as_int(args[0])))
        eng.prove(st, sz == 8 * (N + 2), 'construction: one slot more than max_size elements')
        eng.prove(st, Z.get('d') is None, 'construction: one allocation')
        d = eng.new_obj(st, 'slots', kind='array', stride=8, layout={0: ('int', 64, False)}, n=N + 2, heap=True)
        Z['d'] = d
        return [(st, Ptr(d, 0))]
    j = z3.Int('j')

    def inv(eng, v):
        return [('slots before the current one are empty', lambda w: z3.And([z3.Implies(z3.And(j >= 1, 8 * j < t), w.st.mem[Z['d'].id][0][j] == 0) for t in [zi(w.term(x)) for x in w.loc.values() if isinstance(x, Ptr) and w.term(x) is not None]])),
                ('within the slots', lambda w: z3.And([t <= 8 * (N + 1) for t in [zi(w.term(x)) for x in w.loc.values() if isinstance(x, Ptr) and w.term(x) is not None]]))]
    e = Engine(m, name='construction', contracts=[('operator new[](', alloc)], candidates=int_candidates([], (1,), inv))
    e.demangled['_Znam'] = 'operator new[](unsigned long)'
    st = State(); e.cur = st
    N = z3.Int('N'); st.assume(z3.And(N >= 0, N < 2 ** 40))
    b = e.new_obj(st, 'buffer', kind='struct', size=O['C'])
    outs = returns(e, e.run('vf_ctor', st, [Ptr(b, 0), IV(64, u=N)]), 'construction')
    reachable(e, outs)
    for s in outs:
        e.cur = s
        L = lambda k: e.load(s, Ptr(b, O[k]), ir.INT(64))
        e.prove(s, zi(e.dom.u(L('capacity'))) == N + 1, 'construction: max_size() is the given size')
        e.prove(s, z3.And(zi(e.dom.u(L('head'))) == 0, zi(e.dom.u(L('tail'))) == 0), 'construction: nothing added, nothing consumed')
        d = Z['d']
        p = e.norm_ptr(e.load(s, Ptr(b, O['data']), ir.PTR))
        e.prove(s, e.ptr_eq(p, Ptr(d, 8)), 'construction: the slots belong to the buffer')
        e.prove(s, z3.Implies(z3.And(j >= 1, j < N + 2), s.mem[d.id][0][j] == 0), 'construction: every slot is empty')
    return e


def units(ctx):
    C = 'CircularBuffer::'; A = 'AtomicUniquePtr::'
    return [Unit('positions', positions, []), Unit('Add', add, [C + 'Add', A + 'SwapIfNull', A + 'Swap']), Unit('Peek', lambda c: consume(c, 'peek'), [C + 'Peek', C + 'PeekImpl']),
            Unit('Consume', lambda c: consume(c, 'consume'), [C + 'Consume(n)', C + 'Clear', 'CircularBufferRange::Take', 'CircularBufferRange::ForEach', A + 'Reset']), Unit('Consume with a callback', lambda c: consume(c, 'callback'), [C + 'Consume(n, callback)']),
            Unit('counts', lambda c: consume(c, 'counts'), [C + 'max_size', C + 'empty', C + 'size', C + 'consumption_count', C + 'production_count']), Unit('construction', construct, [C + 'CircularBuffer'])]


def natives(ctx):
    return [Native('native/C01.cpp', san='undefined', budget=(10, 90))]
