"""C02: AtomicUniquePtr - ownership moves in one atomic step."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['atomic read-modify-writes are indivisible (C++11); other threads may replace the slot\'s content between any two steps (rely), but never with an element this caller owns',
               'compare_exchange_weak may fail spuriously (it then changes nothing)']


def build(ctx):
    m = ctx.module(['harness/c_sync.cpp', 'src/recorder/metrics_tracker.cpp'])
    sh = {}

    def kof(eng, v):
        if isinstance(v, PtrInt): v = v.p if v.p is not None else v
        if isinstance(v, Ptr):
            t = eng.ptr_term(eng.norm_ptr(v))
            return z3.IntVal(t) if is_c(t) else t
        t = eng.dom.u(v)
        return z3.IntVal(t) if is_c(t) else t

    def rely(eng, st, ins, p):
        if p.obj is not sh['o']: return None
        k = z3.Int('slot!%d' % next(Obj.ids))
        st.assume(z3.And(k >= 0, k < 2 ** 64))
        for mine in st.ghost['mine']: st.assume(z3.Or(k == 0, k != mine))
        cont = dict(eng.content(st, p.obj)); cont[0] = (8, Ptr(sh['reg'], 0, k)); st.mem[p.obj.id] = cont
        return [st]

    def guar(eng, pre, st, ins, p, kind, old, new):
        if p.obj is not sh['o']: return
        if kind == 'load':
            st.gset('seen', kof(eng, old))
        if kind in ('load', 'casfail'): return
        if kind == 'store':
            eng.prove(st, kof(eng, old) == kof(eng, new), 'guarantee: the slot is changed only by atomic read-modify-writes (a plain store may overwrite an element)')
        st.ghost['steps'] = st.ghost['steps'] + ((kof(eng, old), kof(eng, new)),)
        st.gwrites = st.gwrites | {'steps'}
    destroyed = []

    def dtor(eng, st, args, ins):
        t = kof(eng, args[0])
        eng.prove(st, t != 0, 'a destroyed element is not null')
        for d in st.ghost['destroyed']: eng.prove(st, t != d, 'no element is destroyed twice')
        st.ghost['destroyed'] = st.ghost['destroyed'] + (t,)
        st.gwrites = st.gwrites | {'destroyed'}
        return [(st, None)]
    engs = []

    def setup(name):
        e = Engine(m, name=name, contracts=[('vf::Elem::~Elem', dtor)], on_atomic=rely, after_atomic=guar); engs.append(e)
        st = State(); e.cur = st
        reg = e.new_obj(st, 'Elem', kind='region', layout={0: ('int', 32, True)}); sh['reg'] = reg
        a = e.new_obj(st, 'slot', kind='struct', size=8); sh['o'] = a
        a.shared = lambda off: True
        u = z3.Int('u'); s0 = z3.Int('s0')
        st.assume(z3.And(u >= 0, u < 2 ** 64, s0 >= 0, s0 < 2 ** 64, z3.Or(s0 == 0, u != s0)))
        st.mem[a.id] = {0: (8, Ptr(reg, 0, s0))}
        ow = e.new_obj(st, 'owner', kind='struct', size=8)
        st.mem[ow.id] = {0: (8, Ptr(reg, 0, u))}
        st.ghost.update(mine=(u,), steps=(), destroyed=())
        return e, st, a, ow, u

    def one_step(e, s, what):
        """effective writes of the slot: exactly one expected -> (old,new)"""
        st = s.ghost['steps']
        e.prove(s, len(st) == 1, what + ': the slot changes in exactly one atomic step')
        return st[0] if len(st) == 1 else None
    # SwapIfNull
    e, st, a, ow, u = setup('SwapIfNull')
    outs = returns(e, e.run('vf_swap_if_null', st, [Ptr(a, 0), Ptr(ow, 0)]), 'SwapIfNull')
    reachable(e, outs); kinds = set()
    for s in outs:
        e.cur = s
        r = s.outcome[1]; r = simp(r) if not isinstance(r, bool) else r
        if not isinstance(r, bool): r = e.oracle(r)
        if r is None: raise Unsupported('undecided result')
        now = kof(e, e.load(s, Ptr(ow, 0), ir.PTR)); kinds.add(r)
        if r:
            x = one_step(e, s, 'conditional swap that reports success')
            if x:
                e.prove(s, x[0] == 0, 'conditional swap succeeds only on an empty slot')
                e.prove(s, x[1] == u, 'conditional swap stores the caller\'s element')
            e.prove(s, now == 0, 'after a successful conditional swap the caller owns nothing')
        else:
            e.prove(s, len(s.ghost['steps']) == 0, 'a refused conditional swap does not change the slot')
            e.prove(s, now == u, 'a refused conditional swap leaves the element with the caller')
        e.prove(s, len(s.ghost['destroyed']) == 0, 'conditional swap destroys nothing')
    st = State(); e.cur = st
    e.prove(st, kinds == {True, False}, 'conditional swap can both succeed and be refused')
    # without interference it must take the element of an empty slot unless the weak exchange fails spuriously
    # Swap
    e, st, a, ow, u = setup('Swap')
    for s in returns(e, e.run('vf_swap', st, [Ptr(a, 0), Ptr(ow, 0)]), 'Swap'):
        e.cur = s
        x = one_step(e, s, 'swap')
        if x:
            e.prove(s, x[1] == u, 'swap stores the caller\'s element')
            e.prove(s, kof(e, e.load(s, Ptr(ow, 0), ir.PTR)) == x[0], 'swap hands the slot\'s element to the caller')
        e.prove(s, len(s.ghost['destroyed']) == 0, 'swap destroys nothing')
    # Reset / destructor
    for fn, name in (('vf_reset', 'reset'), ('vf_dtor', 'destruction')):
        e, st, a, ow, u = setup(name)
        outs = returns(e, e.run(fn, st, [Ptr(a, 0)] + ([Ptr(sh['reg'], 0, u)] if fn == 'vf_reset' else [])), name)
        reachable(e, outs)
        for s in outs:
            e.cur = s
            x = one_step(e, s, name)
            if not x: continue
            e.prove(s, x[1] == (u if fn == 'vf_reset' else 0), name + ' leaves exactly the new element in the slot')
            d = s.ghost['destroyed']
            e.prove(s, z3.Or(z3.And(x[0] == 0, z3.BoolVal(len(d) == 0)), z3.And(x[0] != 0, z3.BoolVal(len(d) == 1), d[0] == x[0] if d else False)), name + ' destroys the previous element exactly once, and nothing else')
    # observers
    for fn in ('vf_is_null', 'vf_get', 'vf_arrow', 'vf_star'):
        e, st, a, ow, u = setup(fn)
        st.ghost['seen'] = z3.Int('never_read')
        for s in returns(e, e.run(fn, st, [Ptr(a, 0)]), fn):
            e.cur = s
            e.prove(s, len(s.ghost['steps']) == 0 and len(s.ghost['destroyed']) == 0, fn[3:] + ' changes nothing')
            r = s.outcome[1]
            if fn == 'vf_is_null': e.prove(s, zb(r) == (s.ghost['seen'] == 0), 'IsNull reports whether the slot was empty')
            else: e.prove(s, kof(e, r) == s.ghost['seen'], fn[3:] + ' returns the slot\'s element')
    e, st, a, ow, u = setup('constructor')
    sh['o'] = None; a.shared = None; st.mem[a.id] = {}
    for s in returns(e, e.run('vf_aup_ctor', st, [Ptr(a, 0)]), 'constructor'):
        e.cur = s
        e.prove(s, kof(e, e.load(s, Ptr(a, 0), ir.PTR)) == 0, 'a new atomic owning pointer is empty')
    return engs


def units(ctx):
    return [Unit('AtomicUniquePtr', build, ['AtomicUniquePtr::SwapIfNull', 'AtomicUniquePtr::Swap', 'AtomicUniquePtr::Reset', 'AtomicUniquePtr::~AtomicUniquePtr', 'AtomicUniquePtr::IsNull', 'AtomicUniquePtr::Get', 'AtomicUniquePtr::operator*', 'AtomicUniquePtr::operator->'])]


def natives(ctx):
    return [Native('native/C02.cpp', budget=(8, 60)), Native('native/C02s.cpp', san='undefined', budget=(5, 40))]
