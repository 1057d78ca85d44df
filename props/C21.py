"""C21: SpinLockMutex - rely/guarantee contracts on lock and unlock."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['C++11 memory model: an acquire operation reading the value of a release store sees everything before it; atomic read-modify-writes are indivisible',
               'callers unlock only a lock they hold (contract precondition of unlock)', 'termination of the spin is a liveness matter and not decided']


def build(ctx):
    m = ctx.module(['harness/c_sync.cpp', 'src/recorder/metrics_tracker.cpp'])
    slot = {}

    def rely(eng, st, ins, p):
        if p.obj is not slot['o']: return None
        v = z3.Int('flag!%d' % next(Obj.ids))
        st.assume(z3.And(v >= 0, v < 256))
        # nobody else frees a lock that I hold
        st.assume(z3.Implies(st.ghost['me'], v != 0))
        st.mem[slot['o'].id] = {0: (1, IV(8, u=v))}
        return [st]

    def guarantee(eng, pre, st, ins, p, kind, old, new):
        if p.obj is not slot['o']: return
        me = st.ghost['me']
        o = eng.dom.u(old)
        if kind in ('load', 'casfail'): return
        n = eng.dom.u(new)
        held, free = rel('!=', n, 0), rel('==', n, 0)
        if kind in ('rmw', 'cas'):
            acq = z3.And(zb(rel('==', o, 0)), zb(held), z3.Not(me))
            eng.prove(st, z3.Implies(z3.And(zb(rel('!=', o, 0)), zb(free)), me), 'guarantee: a held lock is freed only by its holder')
            if not has_acquire(ins): eng.prove(st, z3.Not(acq), 'guarantee: the step that takes the lock has acquire ordering')
            rels = z3.And(me, zb(free))
            if not has_release(ins): eng.prove(st, z3.Not(rels), 'guarantee: the step that frees the lock has release ordering')
            st.gset('me', z3.simplify(z3.And(z3.Or(me, acq), z3.Not(rels))))
        else:
            eng.prove(st, z3.Or(me, zb(free)), 'guarantee: the lock is taken only by a read-modify-write')
            eng.prove(st, me, 'guarantee: the lock is written by a plain store only by its holder')
            if not has_release(ins): eng.prove(st, z3.Not(z3.And(me, zb(free))), 'guarantee: the step that frees the lock has release ordering')
            st.gset('me', z3.simplify(z3.And(me, z3.Not(zb(free)))))

    def cands(eng, v):
        return [('the lock is not held by this thread', lambda w: z3.Not(w.st.ghost['me'])), ('the lock is held by this thread', lambda w: w.st.ghost['me'])]
    engs = []
    for fn, before, after, post in (('vf_lock', False, True, 'lock returns holding the lock'), ('vf_unlock', True, False, 'unlock frees the lock')):
        e = Engine(m, name=fn[3:], on_atomic=rely, after_atomic=guarantee, candidates=cands); engs.append(e)
        st = State(); e.cur = st
        o = e.new_obj(st, 'mutex', kind='struct', size=1); slot['o'] = o
        o.shared = lambda off: True
        st.ghost['me'] = z3.BoolVal(before)
        v = z3.Int('flag0'); st.assume(z3.And(v >= 0, v < 256))
        if before: st.assume(v != 0)
        st.mem[o.id] = {0: (1, IV(8, u=v))}
        outs = returns(e, e.run(fn, st, [Ptr(o, 0)]), fn[3:])
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, s.ghost['me'] if after else z3.Not(s.ghost['me']), post)
    e = Engine(m, name='constructor'); engs.append(e)
    st = State(); e.cur = st
    o = e.new_obj(st, 'mutex', kind='struct', size=1)
    for s in returns(e, e.run('vf_spin_ctor', st, [Ptr(o, 0)]), 'constructor'):
        e.cur = s
        e.prove(s, rel('==', e.dom.u(e.load(s, Ptr(o, 0), ir.INT(8))), 0), 'a new lock is free')
    return engs


def units(ctx):
    return [Unit('lock/unlock', build, ['SpinLockMutex::lock', 'SpinLockMutex::unlock', 'SpinLockMutex::SpinLockMutex'])]


def natives(ctx):
    return [Native('native/C21.cpp', san='thread', name='C21tsan', budget=(8, 60)), Native('native/C21.cpp', name='C21', budget=(8, 60)), Native('native/C21s.cpp', san='undefined', budget=(5, 40))]
