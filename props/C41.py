"""C41: propagation options - a tracer injects and extracts in the formats it was configured with, in their order."""
from cvg.runner import Unit, Native, REPO
import re
from cvg.util import *

ASSUMPTIONS = ['the modes listed are enumerators of PropagationMode', 'memory does not run out', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)', 'not both use_single_key_propagation and propagation_modes are set (lightstep/tracer.h says the first wins; see KNOWN-FINDING)']
TRUSTED = ['std::vector keeps a sequence, std::set a set; a sequence is represented by its length and, for each format, where it occurs first', 'what the propagators made do is C29; that each factory makes the propagator of its name is checked there and natively here']
SRC = ['src/tracer/propagation/propagation_options.cpp']
Z = z3.IntVal
def prepare(ctx): ctx.protos()


MODES = {1: 'lightstep', 2: 'b3', 3: 'envoy', 4: 'trace_context', 5: 'cloud_trace'}
LS, ENVOY, BAGGAGE = 1, 3, 6
OPT = 'lightstep::LightStepTracerOptions'
V = r'^std::vector<lightstep::PropagationMode.*>::'
U = r'^(void |std::unique_ptr<lightstep::Propagator.*& )?std::vector<std::unique_ptr<lightstep::Propagator.*>::'
S = r'^std::(unordered_)?set<lightstep::PropagationMode.*>::'
IT = r'^__gnu_cxx::__normal_iterator<lightstep::PropagationMode.*::'


def before(F, v, at): return z3.And(F[v] >= 0, F[v] < at)
def rank(F, v, key=None): return sum([z3.If(z3.And(F[w] >= 0, (key or F)[w] < (key or F)[v]), 1, 0) for w in F if w != v], Z(0))


def fallback(F):
    """where each format comes first when lightstep's is put after every envoy: positions times 2; absent ones are -1"""
    K = {v: z3.If(F[v] >= 0, 2 * F[v], -1) for v in F}
    env = z3.If(F[ENVOY] >= 0, 2 * F[ENVOY] + 1, -1)
    K[LS] = z3.If(z3.And(F[LS] >= 0, z3.Or(F[ENVOY] < 0, F[LS] < F[ENVOY])), 2 * F[LS], env)
    return K


class World:
    def __init__(s, ctx, name):
        s.O = ctx.offsets(['lightstep/tracer.h', 'tracer/propagation/propagation_options.h'], {**{k: (OPT, k) for k in ('propagation_modes', 'use_single_key_propagation')}, **{k: ('lightstep::PropagationOptions', k) for k in ('inject_propagators', 'extract_propagators')}}, {'OPT': OPT, 'R': 'lightstep::PropagationOptions'})
        s.m = ctx.module(SRC); s.st = st = State(); s.kinds = {}; s.regions = {}; s.spans = {}; s.vecs = {}; s.pu = None
        ops = lambda k: [(rx(k + r'vector\(\)'), s.clear), (rx(k + r'~vector\('), noop), (rx(k + r'clear\('), s.clear), (rx(k + r'reserve\('), noop), (rx(k + r'(max_size|capacity)\(\)'), s.outside), (rx(k + r'size\(\)'), s.size), (rx(k + r'empty\(\)'), s.empty), (rx(k + r'swap\('), s.swap), (rx(k + r'operator=\(std::vector<.*&&\)'), s.move), (rx(k + r'vector\(std::vector<.*&&\)'), s.move), (rx(k + r'operator=\(std::vector<.* const&\)'), s.copy), (rx(k + r'vector\(std::vector<.* const&\)'), s.copy)]
        s.e = e = Engine(s.m, name=name, contracts=ops(V) + ops(U) + [
            (rx(V + r'c?begin\(\)'), lambda g, st, a, i: s.iter(st, a[-1], Z(0))), (rx(V + r'c?end\(\)'), lambda g, st, a, i: s.iter(st, a[-1], s.N(st, a[-1]))), (rx(V + r'(operator\[\]|at)\('), lambda g, st, a, i: s.at(st, s.key(a[0]), s.u(a[1]))), (rx(V + r'front\('), lambda g, st, a, i: s.at(st, s.key(a[0]), Z(0))),
            (rx(r'^(void )?std::vector<lightstep::PropagationMode.*>::(push_back|emplace_back)'), s.push), (rx(V + r'operator=\(std::initializer_list'), s.listed), (rx(V + r'vector\(std::initializer_list'), s.listed), (rx(IT + r'operator\*\('), s.deref),
            (rx(U + r'(push_back|emplace_back)'), s.made), (rx(S + r'(unordered_)?set\(\)'), s.set_new), (rx(S + r'~(unordered_)?set\('), noop), (rx(r'.*std::(unordered_)?set<lightstep::PropagationMode.*>::(insert|emplace)'), s.set_insert), (rx(S + r'count\('), s.set_count), (rx(S + r'reserve\('), noop),
            (rx(r'^lightstep::MakeLightStepPropagator\('), lambda g, st, a, i: s.factory(st, a, 1)), (rx(r'^lightstep::MakeB3Propagator\('), lambda g, st, a, i: s.factory(st, a, 2)), (rx(r'^lightstep::BaggagePropagator::BaggagePropagator\('), s.baggage), ('operator new(unsigned long)', s.alloc),
            (rx(r'^std::unique_ptr<lightstep::Propagator.*>::~unique_ptr'), s.gone)], candidates=int_candidates([], (), s.cand))
        e.demangled['_Znwm'] = 'operator new(unsigned long)'; e.cur = st; e.ranks = s.ranked; e.total = True
        s.n = z3.Int('modes'); s.F = F = {v: z3.Int('first_' + t) for v, t in MODES.items()}; s.single = z3.Bool('single key')
        st.assume(z3.And(s.n >= 0, s.n < 2 ** 28)); st.assume(z3.And([z3.And(F[v] >= -1, F[v] < s.n) for v in F])); st.assume(z3.And([z3.Implies(z3.And(F[v] >= 0, v < w), F[v] != F[w]) for v in F for w in F if v != w])); st.assume(z3.Implies(s.n > 0, z3.Or([F[v] == 0 for v in F])))
        s.in_ = e.new_obj(st, 'modes', kind='struct', size=24); s.opt = e.new_obj(st, 'options', kind='struct', size=s.O['OPT']); s.prefix = e.new_obj(st, 'prefix', kind='struct', size=16)
    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    # ---- sequences
    def key(s, p): p = s.e.norm_ptr(p); o = p.off if isinstance(p.off, int) else z3.simplify(zi(p.off)); k = (p.obj.id, o if isinstance(o, int) else o.as_long()); s.vecs[k] = 1; return k
    def firsts(s, st, k): return {v: st.ghost.get(('f', k, v), Z(-1)) for v in range(1, 7)}
    def len(s, st, k): return st.ghost.get(('n', k), Z(0))
    def N(s, st, p): return s.len(st, s.key(p))
    def put(s, st, k, F, n):
        for v in range(1, 7): st.gset(('f', k, v), F.get(v, Z(-1)))
        st.gset(('n', k), n)
    def clear(s, g, st, a, i): s.put(st, s.key(a[0]), {}, Z(0)); return [(st, None)]
    def outside(s, g, st, a, i): raise Unsupported('the capacity of a vector')
    def size(s, g, st, a, i): return [(st, IV(64, u=s.N(st, a[0])))]
    def empty(s, g, st, a, i): return [(st, s.N(st, a[0]) == 0)]
    def swap(s, g, st, a, i):
        x, y = s.key(a[0]), s.key(a[1]); X, Y = (s.firsts(st, x), s.len(st, x)), (s.firsts(st, y), s.len(st, y)); s.put(st, x, *Y); s.put(st, y, *X); return [(st, None)]
    def move(s, g, st, a, i): s.copy(g, st, a, i); s.put(st, s.key(a[1]), {}, Z(0)); return [(st, a[0] if i['rt'][0] != 'void' else None)]
    def copy(s, g, st, a, i): y = s.key(a[1]); s.put(st, s.key(a[0]), s.firsts(st, y), s.len(st, y)); return [(st, a[0] if i['rt'][0] != 'void' else None)]
    def append(s, st, k, x):
        F, n = s.firsts(st, k), s.len(st, k); s.put(st, k, {v: z3.If(z3.And(x == v, F[v] < 0), n, F[v]) for v in F}, n + 1)
    def word(s, st, p): return zi(s.e.dom.s(s.e.as_int(s.e.load(st, p, ir.INT(32)))))
    def push(s, g, st, a, i): s.append(st, s.key(a[0]), s.word(st, a[1])); return [(st, None if i['rt'][0] == 'void' else NULL)]
    def listed(s, g, st, a, i):
        n = z3.simplify(s.u(a[2])); k = s.key(a[0]); s.put(st, k, {}, Z(0)); p = g.norm_ptr(a[1])
        if not z3.is_int_value(n): raise Unsupported('a list of unknown length')
        for j in range(n.as_long()): s.append(st, k, s.word(st, Ptr(p.obj, g.dom.off_add(p.off, 4 * j), p.key)))
        return [(st, a[0] if i['rt'][0] != 'void' else None)]
    def region(s, k):
        if k not in s.regions: s.regions[k] = s.e.new_obj(s.st, 'elements %s' % (k,), kind='array', stride=1, layout={0: ('int', 8, False)}, n=Z(2 ** 40)); s.spans[s.regions[k].id] = k
        return s.regions[k]
    def iter(s, st, p, at):
        r = s.region(s.key(p)); st.mem.setdefault(r.id, {0: z3.Array('unread', z3.IntSort(), z3.IntSort())}); return [(st, Ptr(r, z3.simplify(4 * at)))]
    def at(s, st, k, j):
        """the element at j of the sequence k"""
        F, n = s.firsts(st, k), s.len(st, k); s.e.prove(st, z3.And(j >= 0, j < n), 'memory: an element of the sequence'); x = z3.FreshInt('mode'); st.assume(z3.And(x >= 1, x <= 5)); st.assume(z3.And([z3.And(z3.Implies(x == v, z3.And(F[v] >= 0, F[v] <= j)), z3.Implies(F[v] == j, x == v)) for v in MODES]))
        c = s.e.new_obj(st, 'element', kind='struct', size=4); st.mem[c.id] = {0: (4, IV(32, s=x, u=x))}; return [(st, Ptr(c, 0))]
    def deref(s, g, st, a, i):
        p = g.norm_ptr(g.load(st, a[0], ir.PTR))
        if p.obj is None or p.obj.id not in s.spans: raise Unsupported('an iterator of another sequence')
        o = zi(p.off); g.prove(st, o % 4 == 0, 'memory: an element of the sequence'); return s.at(st, s.spans[p.obj.id], o / 4)
    # ---- sets
    def set_new(s, g, st, a, i):
        for v in MODES: st.gset(('s', s.key(a[0]), v), z3.BoolVal(False))
        return [(st, None)]
    def has(s, st, p, x): k = s.key(p); return z3.Or([z3.And(x == v, st.ghost[('s', k, v)]) for v in MODES])
    def set_insert(s, g, st, a, i):
        k = s.key(a[0]); x = s.word(st, a[1]); h = s.has(st, a[0], x)
        for v in MODES: st.gset(('s', k, v), z3.Or(st.ghost[('s', k, v)], x == v))
        return [(st, (NULL, IV(8, u=z3.If(h, Z(0), Z(1)))))]
    def set_count(s, g, st, a, i): return [(st, IV(64, u=z3.If(s.has(st, a[0], s.word(st, a[1])), Z(1), Z(0))))]
    # ---- propagators
    def alloc(s, g, st, a, i): return [(st, Ptr(g.new_obj(st, 'allocated', kind='struct', size=g.dom.u(g.as_int(a[0]))), 0))]
    def factory(s, st, a, v): o = s.e.new_obj(st, MODES[v], kind='struct', size=8); s.kinds[o.id] = v; s.e.store(st, a[0], ir.PTR, Ptr(o, 0)); return [(st, None)]
    def baggage(s, g, st, a, i):
        p = g.norm_ptr(a[1]); g.prove(st, p.obj is s.prefix, 'baggage: with the prefix of baggage'); s.kinds[g.norm_ptr(a[0]).obj.id] = BAGGAGE; return [(st, None)]
    def kind(s, st, p):
        p = s.e.norm_ptr(p)
        if p.obj is None: s.e.prove(st, False, 'propagators: none is null'); return 0
        if p.obj.id in s.kinds: return s.kinds[p.obj.id]
        t = s.e.norm_ptr(s.e.load(st, Ptr(p.obj, 0), ir.PTR)).obj.name
        for v, c in ((3, 'EnvoyPropagator'), (4, 'TraceContextPropagator'), (5, 'CloudTracePropagator')):
            if re.search(r'_ZTVN9lightstep\d+%sE' % c, t): return v
        raise Unsupported('a propagator of class ' + t)
    def made(s, g, st, a, i):
        s.append(st, s.key(a[0]), Z(s.kind(st, g.load(st, a[1], ir.PTR))))
        if 'std::unique_ptr<lightstep::Propagator' in g.dem(i['callee'][1]).split('_back', 1)[1]: g.store(st, a[1], ir.PTR, NULL)
        return [(st, None if i['rt'][0] == 'void' else NULL)]
    def gone(s, g, st, a, i): g.prove(st, g.norm_ptr(g.load(st, a[0], ir.PTR)).obj is None, 'propagators: none is thrown away'); return [(st, None)]
    # ---- loops
    def places(s, view):
        """what may be the position in a sequence: 4 times it"""
        out = []
        for name, t in view.ints():
            p = view.get(name); ptr = isinstance(p, Ptr)
            if ptr and p.obj.id not in s.spans: continue
            out.append((name, lambda w, name=name, ptr=ptr: zi(w.term(w.get(name))) * (1 if ptr else 4), s.spans[p.obj.id] if ptr else None))
        return out
    def cand(s, e, view):
        out = []; changed = lambda *k: k in view.st.ghost and not view.st.ghost[k].eq(view.entry.ghost.get(k, Z(-9)))
        dst = [k for k in s.vecs if changed('n', k)]; sets = [k for k in s.vecs if changed('s', k, 1)]; src = [k for k in s.vecs if k not in dst and ('n', k) in view.st.ghost]
        out += [('no baggage in %s' % (d,), lambda w, d=d: s.firsts(w.st, d)[BAGGAGE] < 0) for d in dst]
        for name, at, of in s.places(view):
            for k in ([of] if of else src):
                F = s.firsts(view.st, k); F = {v: F[v] for v in MODES}; K = fallback(F)
                out += [('%s in %s' % (name, k), lambda w, at=at, k=k: z3.And(at(w) >= 0, at(w) <= 4 * s.len(w.st, k), at(w) % 4 == 0))]
                for d in dst:
                    D = lambda w, d=d: s.firsts(w.st, d); N = lambda w, d=d: s.len(w.st, d); seen = lambda w, v, F=F, at=at: z3.And(F[v] >= 0, 4 * F[v] < at(w)); fell = lambda w, v, K=K, at=at: z3.And(K[v] >= 0, 2 * K[v] < at(w))
                    out += [('%s copies %s to %s' % (d, k, name), lambda w, D=D, N=N, seen=seen, F=F, at=at: z3.And([4 * N(w) == at(w), D(w)[BAGGAGE] < 0] + [D(w)[v] == z3.If(seen(w, v), F[v], -1) for v in F])),
                            ('%s has the different ones of %s to %s' % (d, k, name), lambda w, D=D, N=N, seen=seen, F=F: z3.And([N(w) == sum([z3.If(seen(w, v), 1, 0) for v in F], Z(0))] + [D(w)[v] == z3.If(seen(w, v), rank(F, v), -1) for v in F])),
                            ('%s has %s to %s, lightstep after envoy' % (d, k, name), lambda w, D=D, N=N, fell=fell, K=K: z3.And([N(w) >= 0] + [z3.And((D(w)[v] >= 0) == fell(w, v), D(w)[v] < N(w), D(w)[v] >= -1) for v in K] + [z3.Implies(z3.And(fell(w, v), fell(w, x)), (D(w)[v] < D(w)[x]) == (K[v] < K[x])) for v in K for x in K if v != x])),
                            ('%s has %s to %s, at most twice' % (d, k, name), lambda w, N=N, at=at: 2 * N(w) <= at(w)),
                            ('%s has the different ones of %s to %s, lightstep after envoy' % (d, k, name), lambda w, D=D, N=N, fell=fell, K=K: z3.And([N(w) == sum([z3.If(fell(w, v), 1, 0) for v in K], Z(0))] + [D(w)[v] == z3.If(fell(w, v), rank(K, v), -1) for v in K]))]
                for d in sets: out += [('%s has seen %s to %s' % (d, k, name), lambda w, d=d, F=F, at=at: z3.And([w.st.ghost[('s', d, v)] == z3.And(F[v] >= 0, 4 * F[v] < at(w)) for v in F]))]
        return out
    def ranked(s, e, view):
        out = []
        for name, at, of in s.places(view):
            for k in ([of] if of else list(s.vecs)): out.append(('left of %s by %s' % (k, name), lambda w, at=at, k=k: 4 * s.len(w.st, k) - at(w)))
        return out
    def spec(s, F, D, N, bag, title):
        """the formats of F, each once, in the order of F, and then baggage"""
        e, o = s.e, s.e.cur; count = sum([z3.If(F[v] >= 0, 1, 0) for v in F], Z(0))
        e.prove(o, z3.And([(D[v] >= 0) == (F[v] >= 0) for v in F]), title + ': the formats asked for, and no others')
        e.prove(o, z3.And([z3.Implies(F[v] >= 0, D[v] == rank(F, v)) for v in F]), title + ': in the order asked for')
        if bag is None: e.prove(o, z3.And(D[BAGGAGE] < 0, N == count), title + ': each once')
        else: e.prove(o, z3.Or(z3.And(D[BAGGAGE] < 0, N == count), z3.And(D[BAGGAGE] == count, N == count + 1)), title + ': each once, baggage last'); e.prove(o, z3.And(z3.Implies(bag == 1, D[BAGGAGE] >= 0), z3.Implies(bag == 0, D[BAGGAGE] < 0)), title + ': baggage, unless the one format carries it')


def modes(ctx):
    s = World(ctx, 'modes'); e, st = s.e, s.st; ks = []
    for o in (s.in_, e.new_obj(st, 'inject', kind='struct', size=24), e.new_obj(st, 'extract', kind='struct', size=24)): ks.append((s.key(Ptr(o, 0)), o))
    s.put(st, ks[0][0], s.F, s.n)
    for j in (1, 2): s.put(st, ks[j][0], {v: z3.Int('old_%d_%d' % (j, v)) for v in MODES}, z3.Int('old_%d' % j))     # what they held does not matter
    st.writes = frozenset(); st.gwrites = frozenset(); e.cur = st
    outs = returns(e, e.run(findre(s.m, e, r'^lightstep::SetInjectExtractPropagationModes\('), st, [Ptr(o, 0) for _, o in ks]), 'modes'); reachable(e, outs)
    for o in outs:
        e.cur = o; s.spec(s.F, s.firsts(o, ks[1][0]), s.len(o, ks[1][0]), None, 'modes: inject'); s.spec(fallback(s.F), s.firsts(o, ks[2][0]), s.len(o, ks[2][0]), None, 'modes: extract, lightstep\'s after envoy')
    return e


def options(ctx):
    s = World(ctx, 'options'); e, st, O = s.e, s.st, s.O; k = s.key(Ptr(s.opt, O['propagation_modes'])); s.put(st, k, s.F, s.n); r = e.new_obj(st, 'made', kind='struct', size=O['R'])
    e.store(st, Ptr(s.opt, O['use_single_key_propagation']), ir.INT(8), IV(8, u=z3.If(s.single, Z(1), Z(0)))); st.assume(z3.Not(z3.And(s.single, s.n > 0)))
    for n in ('_ZN9lightstep13PrefixBaggageE',): g = e.gobj(n); e.store(st, Ptr(g, 0), ir.PTR, Ptr(s.prefix, 0)); e.store(st, Ptr(g, 8), ir.INT(64), IV(64, u=z3.Int('prefix length')))
    st.writes = frozenset(); st.gwrites = frozenset(); e.cur = st
    outs = returns(e, e.run(findre(s.m, e, r'^lightstep::MakePropagationOptions\('), st, [Ptr(r, 0), Ptr(s.opt, 0)]), 'options'); reachable(e, outs)
    F = {v: z3.If(s.n > 0, s.F[v], z3.If(s.single, Z(0 if v == ENVOY else -1), Z(0 if v == LS else -1))) for v in MODES}; n = z3.If(s.n > 0, s.n, 1)
    bag = z3.If(z3.Or([F[v] >= 0 for v in F if v != ENVOY]), 1, z3.If(n == 1, 0, 2))
    for o in outs:
        e.cur = o
        for f, F_, b in (('inject_propagators', F, bag), ('extract_propagators', fallback(F), None)): q = s.key(Ptr(r, O[f])); s.spec(F_, s.firsts(o, q), s.len(o, q), b, 'options: ' + f.split('_')[0])
    return e


def units(ctx):
    return [Unit('modes', modes, ['lightstep::SetInjectExtractPropagationModes', 'lightstep::UniqifyPropagationModes'], 300), Unit('options', options, ['lightstep::MakePropagationOptions', 'lightstep::MakePropagators', 'lightstep::SetInjectExtractPropagationModes', 'lightstep::UniqifyPropagationModes'], 300)]


def natives(ctx):
    P = 'src/tracer/propagation/'
    srcs = [P + x + '.cpp' for x in ('b3_propagator', 'baggage_propagator', 'binary_propagation', 'cloud_trace_propagator', 'envoy_propagator', 'lightstep_propagator', 'multiheader_propagator', 'propagation', 'propagation_options', 'trace_context', 'trace_context_propagator')] + ['src/common/' + x + '.cpp' for x in ('in_memory_stream', 'hex_conversion', 'utility')] + ['3rd_party/base64/src/base64.cpp']
    Q = 'lightstep-tracer-common/'
    return [Native('native/C41.cpp', srcs=srcs, protos=True, gensrcs=[Q + x for x in ('lightstep_carrier.pb.cc', 'collector.pb.cc', 'google/api/annotations.pb.cc', 'google/api/http.pb.cc')], libs=['-lprotobuf', '-lpthread'], budget=(8, 40))]
