"""C15: xorshift128+ step, seeding per thread and after fork, bounded durations."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['std::random_device yields entropy and does not throw; std::seed_seq::generate fills its whole output range from its seeds',
               'std::uniform_int_distribution(a,b) returns a value in [a,b] (C++ standard library)',
               'pthread_atfork handlers run as POSIX says; thread_local storage is per thread and zero-initialised',
               'durations in coarser units do not overflow when expressed in nanoseconds']


def step_bv(ctx):
    m = ctx.module(['harness/c15.cpp'])
    e = Engine(m, dom='bv', name='operator()')

    def run(tag):
        st = State(); e.cur = st
        a, b = z3.BitVecs('a%s b%s' % (tag, tag), 64)
        g = e.new_obj(st, 'gen' + tag, kind='struct', size=16)
        st.mem[g.id] = {0: (8, a), 8: (8, b)}
        outs = returns(e, e.run('vf_next', st, [Ptr(g, 0)]), 'operator()')
        reachable(e, outs)
        if len(outs) != 1: raise Unsupported('step has %d paths' % len(outs))
        s = outs[0]; e.cur = s
        return s, a, b, e.load(s, Ptr(g, 0), ir.INT(64)), e.load(s, Ptr(g, 8), ir.INT(64)), s.outcome[1]
    s, a, b, na, nb, r = run('')
    t = a ^ (a << 23); t = t ^ z3.LShR(t, 17); t = t ^ b ^ z3.LShR(b, 26)
    e.prove(s, na == b, 'new first word is the old second word')
    e.prove(s, nb == t, 'new second word is the xorshift128+ word (23,17,26)')
    e.prove(s, r == t + b, 'output is the sum of the two new words')
    e.prove(s, z3.Implies(z3.Or(a != 0, b != 0), z3.Or(na != 0, nb != 0)), 'a non-zero state never becomes zero')
    # explicit inverse: b=na, x = nb ^ na ^ (na>>26), undo >>17, undo <<23
    x = nb ^ na ^ z3.LShR(na, 26)
    y = x ^ z3.LShR(x, 17) ^ z3.LShR(x, 34) ^ z3.LShR(x, 51)
    w = y ^ (y << 23) ^ (y << 46)
    e.prove(s, z3.And(w == a, na == b), 'the step is injective on the 128-bit state (explicit inverse), hence a bijection')
    return e


def minmax(ctx):
    m = ctx.module(['harness/c15.cpp'])
    e = Engine(m, dom='bv', name='min/max')
    for f, v in (('vf_min', 0), ('vf_max', 2 ** 64 - 1)):
        st = State(); e.cur = st
        for s in e.run(f, st, []): e.prove(s, s.outcome[1] == z3.BitVecVal(v, 64), f[3:] + '() is the bound of the output range')
    return e


def seeding(ctx):
    m = ctx.module(['harness/c15.cpp'])
    calls = []

    def gen(eng, st, args, ins):
        lo, hi = args[1], args[2]
        st.ghost['ranges'] = st.ghost.get('ranges', ()) + ((lo, hi),)
        for k in range(4): eng.store(st, Ptr(lo.obj, eng.dom.off_add(lo.off, 4 * k)), ir.INT(32), eng.fresh_val(st, ir.INT(32), 'word'))
        return [(st, None)]
    e = Engine(m, name='seed', contracts=[('vf::AbstractSeedSequence::gen', gen)])
    st = State(); e.cur = st
    g = e.new_obj(st, 'gen', kind='struct', size=16); q = e.new_obj(st, 'seq', kind='struct', size=8)
    outs = returns(e, e.run('vf_seed', st, [Ptr(g, 0), Ptr(q, 0)]), 'seed')
    reachable(e, outs)
    for s in outs:
        r = s.ghost.get('ranges', ())
        e.cur = s
        e.prove(s, len(r) >= 1 and any(x[0].obj is g and x[1].obj is g and e.oracle(b_and(rel('==', x[0].off, 0), rel('==', x[1].off, 16))) is True for x in r), 'the seed sequence fills all 16 bytes of the state')
    return e


def tls(ctx):
    m = ctx.module(['src/common/random.cpp', 'src/common/platform/fork_unix.cpp', 'harness/c15.cpp'])
    fresh = []

    def rd_call(eng, st, args, ins):
        v = eng.fresh_val(st, ir.INT(32), 'entropy')
        st.ghost['rd'] = st.ghost.get('rd', ()) + (eng.dom.s(v),)
        return [(st, v)]

    def seq_ctor(eng, st, args, ins):
        # (this, ptr, len)
        p, n = args[1], eng.dom.idx(args[2])
        ok = False
        if is_c(n) and n >= 1:
            ok = True
            words = [eng.dom.s(eng.load(st, Ptr(p.obj, eng.dom.off_add(p.off, 4 * k)), ir.INT(32))) for k in range(n)]
            rds = st.ghost.get('rd', ())
            ok = any(any(not is_c(w) and w.eq(r) for r in rds) for w in words)
        st.ghost[('seq', args[0].obj.id)] = ok
        return [(st, None)]

    def generate(eng, st, args, ins):
        q, lo, hi = args[0], args[1], args[2]
        if lo.obj is None or lo.obj is not hi.obj: raise Unsupported('seed range')
        n = eng.dom.off_add(hi.off, eng.dom.off_mul(lo.off, -1))
        if not is_c(n) or not is_c(lo.off): raise Unsupported('symbolic seed range')
        for k in range(0, n, 4): eng.store(st, Ptr(lo.obj, lo.off + k), ir.INT(32), eng.fresh_val(st, ir.INT(32), 'seed'))
        st.ghost['seeded'] = st.ghost.get('seeded', ()) + ((lo.obj.id, lo.off, lo.off + n, bool(st.ghost.get(('seq', q.obj.id)))),)
        return [(st, None)]

    def atfork(eng, st, args, ins):
        st.ghost['atfork'] = st.ghost.get('atfork', ()) + (tuple(args),)
        return [(st, eng.dom.const(32, 0))]
    C = [(rx(r'^std::random_device::random_device'), noop), (rx(r'^std::random_device::~random_device'), noop),
         (rx(r'^std::random_device::(operator\(\)|_M_getval)'), rd_call), (rx(r'^(void )?std::seed_seq::seed_seq<'), seq_ctor),
         (rx(r'std::seed_seq::~seed_seq'), noop), (rx(r'^void std::seed_seq::generate<'), generate), ('pthread_atfork', atfork)]
    engs = []
    for scen in ('fresh process', 'fresh thread of an initialised process'):
        e = Engine(m, name='GetRandomNumberGenerator', contracts=C); engs.append(e)
        st = State(); e.cur = st
        if scen.startswith('fresh thread'):
            # plain statics may already be initialised: everything not thread_local is arbitrary
            def guard(eng, s, args, ins):
                b = eng.fresh_val(s, ir.INT(1), 'guard')
                return [(s, eng.dom.cast('zext', 1, 32, b))]
            e.contracts = C + [('__cxa_guard_acquire', guard)]
            for n, g in m.globals.items():
                if not g['const'] and not g['tls'] and g['init'] is not None and g['init'][0] in ('zero', 'int'):
                    o = e.gobj(n); o.init = 'symbolic'; o.cells = None
        name = 'GetRandomNumberGenerator (%s)' % scen
        fn = find(m, e, 'lightstep::GetRandomNumberGenerator()')
        outs = returns(e, e.run(fn, st, []), name)
        reachable(e, outs)

        def seeded(s, p, since=0):
            cov = set()
            for o, lo, hi, good in s.ghost.get('seeded', ())[since:]:
                if o == p.obj.id and good: cov |= set(range(lo - p.off, hi - p.off))
            return set(range(16)) <= cov
        for s in outs:
            e.cur = s
            p = s.outcome[1]
            e.prove(s, p.obj is not None and e.m.globals.get(p.obj.name[2:], {}).get('tls', False), name + ': the generator returned is thread-local')
            e.prove(s, seeded(s, p), name + ': the whole state of this thread\'s generator is seeded from the random device before use')
            if scen == 'fresh process':
                hs = [a[2] for a in s.ghost.get('atfork', ()) if a[2].obj is not None and a[2].obj.kind == 'func']
                e.prove(s, len(hs) >= 1, name + ': a fork handler for the child is registered')
                # the child: run its handlers
                s2 = s.clone(); s2.outcome = None; e.cur = s2
                k = len(s2.ghost.get('seeded', ())); s2.ghost['rd'] = ()
                states = [s2]
                for h in hs:
                    nx = []
                    for x in states: nx += [y for y, v in e.call_value(x, h, [])]
                    states = nx
                for x in states:
                    e.cur = x
                    # getting the generator in the child must hand out a reseeded one
                    for z in returns(e, e.run(fn, x, []), name):
                        e.cur = z
                        e.prove(z, seeded(z, z.outcome[1], k), 'a forked child reseeds the generator it hands out')
                        e.prove(z, z.outcome[1].obj is p.obj and z.outcome[1].off == p.off, 'later calls return the same generator')
                # second call without fork
                s3 = s.clone(); s3.outcome = None; e.cur = s3
                for z in returns(e, e.run(fn, s3, []), name):
                    e.cur = z
                    e.prove(z, z.outcome[1].obj is p.obj and z.outcome[1].off == p.off, 'a second call in the thread returns the same generator')
    return engs


def ident(ctx):
    m = ctx.module(['src/common/random.cpp', 'harness/c15.cpp'])
    gen = {}

    def get(eng, st, args, ins): return [(st, Ptr(gen['o'], 0))]

    def op(eng, st, args, ins):
        st.ghost['ops'] = st.ghost.get('ops', 0) + 1
        v = eng.fresh_val(st, ir.INT(64), 'out'); st.ghost['last'] = v; st.ghost['on'] = args[0]
        return [(st, v)]
    e = Engine(m, name='GenerateId', contracts=[('lightstep::GetRandomNumberGenerator()', get), ('lightstep::FastRandomNumberGenerator::operator()', op)])
    st = State(); e.cur = st
    gen['o'] = e.new_obj(st, 'gen', kind='struct', size=16)
    for s in returns(e, e.run('vf_id', st, []), 'GenerateId'):
        e.cur = s
        e.prove(s, s.ghost.get('ops') == 1 and s.ghost['on'].obj is gen['o'], 'an id is one step of this thread\'s generator')
        if s.ghost.get('ops') == 1: e.prove(s, e.dom.u(s.outcome[1]) == e.dom.u(s.ghost['last']), 'an id is the generator\'s output')
    return e


def durations(ctx):
    m = ctx.module(['src/common/random.cpp', 'harness/c15.cpp'])
    gen = {}

    def get(eng, st, args, ins): return [(st, Ptr(gen['o'], 0))]

    def dist(eng, st, args, ins):
        # operator()(urng) : parameters at this+0, this+8; operator()(urng, param)
        p = args[2] if len(args) > 2 else args[0]
        a = eng.dom.s(eng.load(st, p, ir.INT(64))); b = eng.dom.s(eng.load(st, Ptr(p.obj, eng.dom.off_add(p.off, 8)), ir.INT(64)))
        eng.prove(st, rel('<=', a, b), 'uniform_int_distribution precondition a <= b')
        v = z3.Int('drawn'); st.assume(z3.And(v >= a, v <= b))
        return [(st, IV(64, s=v))]
    C = [('lightstep::GetRandomNumberGenerator()', get), (rx(r'std::uniform_int_distribution<long>::operator\(\)<'), dist)]
    engs = []
    for f, k in (('lightstep::GenerateRandomDuration(', 1), ('vf_dur_us', 1000), ('vf_dur_ms', 10 ** 6), ('vf_dur_s', 10 ** 9)):
        e = Engine(m, name='GenerateRandomDuration', contracts=C); engs.append(e)
        st = State(); e.cur = st
        gen['o'] = e.new_obj(st, 'gen', kind='struct', size=16)
        a, b = z3.Ints('a b'); lim = 2 ** 63 // k - 1
        st.assume(z3.And(a >= -lim, a <= b, b <= lim))
        fn = find(m, e, f) if '(' in f else f
        outs = returns(e, e.run(fn, st, [IV(64, s=a), IV(64, s=b)]), 'GenerateRandomDuration')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            r = e.dom.s(s.outcome[1])
            e.prove(s, z3.And(r >= a, r <= b), 'the duration lies within its inclusive bounds (unit of %d ns)' % k)
    return engs


def units(ctx):
    return [Unit('xorshift step', step_bv, ['FastRandomNumberGenerator::operator()']), Unit('min/max', minmax, ['FastRandomNumberGenerator::min', 'FastRandomNumberGenerator::max']),
            Unit('seed', seeding, ['FastRandomNumberGenerator::seed']), Unit('per-thread and fork seeding', tls, ['GetRandomNumberGenerator', 'TlsRandomNumberGenerator (all members)', 'AtFork']),
            Unit('GenerateId', ident, ['GenerateId']), Unit('durations', durations, ['GenerateRandomDuration (nanoseconds and template)'])]


def natives(ctx):
    return [Native('native/C15.cpp', srcs=['src/common/random.cpp', 'src/common/platform/fork_unix.cpp'])]
