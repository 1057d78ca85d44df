"""C20: steady/system timestamp conversions."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['results are representable in a 64-bit nanosecond count (signed overflow is undefined behaviour)', 'libstdc++ clocks count nanoseconds']


def conv(ctx):
    m = ctx.module(['src/common/timestamp.cpp'])
    engs = []
    t, d = z3.Ints('t d')
    lim = 2 ** 62 - 1

    def call(e, st, f, dv, tv):
        outs = returns(e, e.run(f, st, [IV(64, s=dv), IV(64, s=tv)]), 'conversion')
        reachable(e, outs)
        return outs
    for name, sign in (('ToSystemTimestamp', 1), ('ToSteadyTimestamp', -1)):
        e = Engine(m, name=name); engs.append(e)
        st = State(); e.cur = st
        st.assume(z3.And(t >= -lim, t <= lim, d >= -lim, d <= lim))
        f = find(m, e, 'lightstep::%s(' % name); g = find(m, e, 'lightstep::%s(' % ('ToSteadyTimestamp' if sign == 1 else 'ToSystemTimestamp'))
        for s in call(e, st, f, d, t):
            e.cur = s
            r = e.dom.s(s.outcome[1])
            e.prove(s, rel('==', r, iadd(t, imul(d, sign))), '%s %s exactly the delta' % (name, 'adds' if sign == 1 else 'subtracts'))
            s2 = s.clone(); s2.outcome = None; e.cur = s2
            for s3 in call(e, s2, g, d, r):
                e.cur = s3
                e.prove(s3, rel('==', e.dom.s(s3.outcome[1]), t), 'converting back restores the %s timestamp' % ('steady' if sign == 1 else 'system'))
    return engs


def delta(ctx):
    m = ctx.module(['src/common/timestamp.cpp'])

    def now(k):
        def h(eng, st, args, ins):
            v = z3.Int('%s_now!%d' % (k, next(Obj.ids)))
            st.assume(z3.And(v >= 0, v < 2 ** 62))
            st.ghost[k] = st.ghost.get(k, ()) + (v,)
            return [(st, IV(64, s=v))]
        return h
    e = Engine(m, name='ComputeSystemSteadyTimestampDelta', contracts=[(rx(r'^std::chrono::.*system_clock::now'), now('sys')), (rx(r'^std::chrono::.*steady_clock::now'), now('st'))])
    st = State(); e.cur = st
    outs = returns(e, e.run(find(m, e, 'lightstep::ComputeSystemSteadyTimestampDelta('), st, []), 'delta')
    reachable(e, outs)
    for s in outs:
        e.cur = s
        a, b = s.ghost.get('sys', ()), s.ghost.get('st', ())
        e.prove(s, len(a) >= 1 and len(b) >= 1, 'both clocks are read')
        if a and b: e.prove(s, z3.Or([e.dom.s(s.outcome[1]) == x - y for x in a for y in b]), 'the delta is the system clock minus the steady clock')
    return e


def units(ctx):
    return [Unit('conversions', conv, ['ToSystemTimestamp', 'ToSteadyTimestamp']), Unit('delta', delta, ['ComputeSystemSteadyTimestampDelta'])]


def natives(ctx):
    return [Native('native/C20.cpp', srcs=['src/common/timestamp.cpp'], budget=(8, 40))]
