"""C35: tracers and contexts - what is extracted is what a context holds, and what a context holds is what is injected."""
from cvg.runner import Unit, Native
from cvg.util import *
from props import C33

ASSUMPTIONS = ['the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)', 'logging does not throw', 'the steady clock does not go back and stays below 2^61 ns']
TRUSTED = ['InjectSpanContext and ExtractSpanContext (proved as C29)', 'spans (C33, C34)', 'recorders (C30)', 'dynamic_cast', 'std::string, std::unordered_map and protobuf maps hold what they are given, and moving moves it, also when memory runs out (protobuf 3.21 maps do not survive that while growing)']
I = z3.IntSort(); Z = z3.IntVal
PASS = (('ostream', r'std::(basic_)?ostream'), ('text map', r'opentracing::TextMapWriter const&'), ('HTTP headers', r'opentracing::HTTPHeadersWriter const&'))
READ = (('istream', r'std::(basic_)?istream'), ('text map', r'opentracing::TextMapReader const&'), ('HTTP headers', r'opentracing::HTTPHeadersReader const&'))
TEN = 10 ** 10
STR = r'^std::__cxx11::basic_string<.*>::'; MAP = r'^google::protobuf::Map<std::__cxx11::basic_string<.*>::'; UM = r'^std::unordered_map<std::__cxx11::basic_string<.*>::'


def prepare(ctx): ctx.protos()


class World:
    """tracers, contexts and their collaborators; a string or map is represented by a mark: the value it holds"""
    SRC = ['harness/tracers.cpp', 'src/tracer/tracer_impl.cpp', 'src/tracer/legacy/legacy_tracer_impl.cpp', 'src/tracer/immutable_span_context.cpp', 'src/tracer/lightstep_span_context.cpp', 'src/tracer/tracer.cpp']
    IDS = ('trace_id_high_', 'trace_id_low_', 'span_id_')

    def __init__(s, ctx, name, K='TracerImpl'):
        C = 'lightstep::ImmutableSpanContext'; T = 'lightstep::TraceContext'; s.K = K
        s.O = ctx.offsets(['tracer/tracer_impl.h', 'tracer/legacy/legacy_tracer_impl.h', 'tracer/immutable_span_context.h', 'tracer/propagation/trace_context.h'],
                          {**{k: ('lightstep::' + K, k) for k in ('logger_', 'propagation_options_', 'recorder_')}, **{k: (C, k) for k in s.IDS + ('trace_flags_', 'trace_state_', 'baggage_')}, **{'t.' + k: (T, k) for k in ('trace_id_high', 'trace_id_low', 'parent_id', 'trace_flags')}},
                          {'S': 'lightstep::' + K, 'C': C, 'T': T, 'M': 'lightstep::BaggageProtobufMap'})
        s.m = ctx.module(s.SRC); s.st = st = State(); V = lambda n: rx(r'^VfContext::%s\(' % n)
        s.e = e = Engine(s.m, name=name, contracts=[
            (rx(r'^operator new\('), s.new), (rx(r'^operator delete\('), s.delete), (rx(r'^(void )?lightstep::Logger::'), s.log), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]), ('__dynamic_cast', s.cast), (rx(r'^std::_V2::generic_category'), lambda g, st, a, i: [(st, Ptr(s.generic, 0))]), (rx(r'^std::_V2::system_category'), lambda g, st, a, i: [(st, Ptr(s.system, 0))]),
            (rx(r'^std::chrono::_V2::steady_clock::now\(\)'), s.now), (rx(r'^VfRecorder::FlushWithTimeout'), s.flush), (rx(r'^VfRecorder::ShutdownWithTimeout'), s.shutdown), (rx(r'^lightstep::(Legacy)?Span::(Legacy)?Span\('), s.span), (rx(r'^std::enable_shared_from_this<.*>::shared_from_this\('), s.self),
            (rx(r'^(.* )?std::shared_ptr<.*>::shared_ptr(<.*>)?\(std::shared_ptr<.*>( const)?&&?'), s.share), (rx(r'^std::shared_ptr<.*>::~shared_ptr'), noop),
            (V('Inject'), s.inject), (V('trace_id_high'), s.ctxval(0)), (V('trace_id_low'), s.ctxval(1)), (V('span_id'), s.ctxval(2)), (V('trace_flags'), s.ctxval(3)), (V('trace_state'), s.ctxstate), (V('ForeachBaggageItem'), s.foreach),
            (rx(r'expected<void> lightstep::InjectSpanContext<.*TraceContext const&'), s.send), (rx(r'^lightstep::ExtractSpanContext\(lightstep::PropagationOptions const&'), s.extract),
            (rx(STR + r'basic_string\(\)'), s.mk(0)), (rx(STR + r'basic_string\(std::__cxx11::basic_string<.*>&&\)'), s.move), (rx(STR + r'basic_string\(std::__cxx11::basic_string<.*> const&\)'), s.copy), (rx(STR + r'~basic_string'), noop), (rx(STR + r'operator=\(std::__cxx11::basic_string<.*>&&\)'), s.move), (rx(STR + r'(swap)\('), s.swap),
            (rx(STR + r'(data|c_str)\('), lambda g, st, a, i: [(st, Ptr(s.texts, z3.simplify(s.mark(st, a[0]) * 2 ** 32)))]), (rx(STR + r'(size|length)\('), lambda g, st, a, i: [(st, IV(64, u=s.size(st, s.mark(st, a[0]))))]),
            (rx(MAP + r'Map\(\)'), s.mk(0)), (rx(MAP + r'Map\(google::protobuf::Map<.*&&\)'), s.move), (rx(MAP + r'Map\(google::protobuf::Map<.* const&\)'), s.copy), (rx(MAP + r'~Map'), noop), (rx(MAP + r'(swap|operator=)\('), s.swap), (rx(MAP + r'insert\('), s.insert),
            (rx(MAP + r'(c?begin)\('), lambda g, st, a, i: s.it(st, a, Z(0))), (rx(MAP + r'(c?end)\('), lambda g, st, a, i: s.it(st, a, s.nb)), (rx(r'^google::protobuf::operator(!=|==)\(google::protobuf::Map<'), C33.Old.itercmp.__get__(s)), (rx(MAP + r'const_iterator::operator(\*|->)'), lambda g, st, a, i: [(st, Ptr(s.items, z3.simplify(64 * s.idx(st, a[0]))))]), (rx(MAP + r'const_iterator::operator\+\+\(\)'), C33.Old.iternext.__get__(s)),
            (rx(r'^google::protobuf::MapPair<.*>::MapPair\('), s.pair), (rx(r'^google::protobuf::MapPair<.*>::~'), noop),
            (rx(r'^std::function<bool \(.*\)>::operator\(\)'), s.visit), (rx(r'^std::function<bool \(.*\)>::~function'), noop), (rx(r'^opentracing::operator==\(opentracing::string_view'), s.same_state),
            (rx(UM + r'(c?begin)\('), lambda g, st, a, i: s.um(st, a[0], Z(0))), (rx(UM + r'(c?end)\('), lambda g, st, a, i: s.um(st, a[0], s.nb)), (rx(r'^std::__detail::_Node_(const_)?iterator<.*>::operator(\*|->)'), lambda g, st, a, i: [(st, g.load(st, a[0], ir.PTR))]), (rx(r'^std::__detail::_Node_iterator_base<.*>::_M_incr'), s.incr),
            (rx(UM + r'unordered_map\(\)'), s.mk(0)), (rx(UM + r'~unordered_map'), noop), (rx(r'^(.* )?std::unordered_map<std::__cxx11::basic_string<.*>::(emplace|insert|try_emplace)'), s.emplace), (rx(r'^(bool )?std::operator==<std::__cxx11::basic_string<.*unordered_map'), s.same_maps)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand)
        o = lambda n, k=32, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.tracer = o('tracer', s.O['S']); s.logger, s.textobj, s.generic, s.system, s.carrier, s.fn, s.foreign, s.name, s.options, s.ret, s.category = (o(n) for n in ('logger', 'message', 'generic category', 'system category', 'carrier', 'function', 'context', 'name', 'options', 'result', 'category'))
        s.recorder = virtual_object(e, st, '10VfRecorder', 'recorder'); s.L, s.R = (virtual_object(e, st, '9VfContext', n) for n in ('the context', 'another context'))
        s.texts = e.new_obj(st, 'texts', kind='array', stride=1, layout={0: ('int', 8, False)})
        s.nb = s.sym('items', 2 ** 30); s.items = e.new_obj(st, 'items', kind='array', stride=64, layout={}, n=s.nb); s.k, s.v = (e.new_obj(st, n, kind='struct', size=32) for n in ('key', 'value'))
        s.own = s.sym('state'), s.sym('baggage'); s.st.assume(s.own[0] >= 1); s.st.assume(s.own[1] >= 1)
        vt = e.gobj('_ZTVN9lightstep%d%sE' % (len(K), K)); O = s.O
        st.mem[s.tracer.id] = {0: (8, Ptr(vt, 16)), O['recorder_']: (8, Ptr(s.recorder, 0)), O['logger_']: (8, Ptr(s.logger, 0)), O['logger_'] + 8: (8, NULL)}
        for n in s.m.globals:                                  # the error codes, initialised at start-up
            for j, k in enumerate(('invalid_span_context_error', 'invalid_carrier_error', 'span_context_corrupted_error', 'key_not_found_error', 'lookup_key_not_supported_error')):
                if k in n and not n.startswith('_ZGV'): g = e.gobj(n); st.mem[g.id] = {0: (4, IV(32, u=j + 1)), 8: (8, Ptr(s.category, 0))}
        st.ghost.update(news=(), broke=z3.BoolVal(False), called=0, flushed=(), shut=(), times=(), made=None, logged=0, ex=None, sent=0, go=z3.BoolVal(True), visited=Z(0), ins=Z(0), maps={}, pend=None, fe=0)
    idx = C33.Old.idx; setidx = C33.Old.setidx

    def sym(s, n, hi=2 ** 31): v = z3.Int(n); s.st.assume(z3.And(v >= 0, v < hi)); return v
    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    def si(s, x): return zi(s.e.dom.s(s.e.as_int(x)))
    def ld(s, st, p, off, w=64): return s.u(s.e.load(st, Ptr(p.obj, s.e.dom.off_add(p.off, off)), ir.INT(w)))
    def fails(s, st, t='_ZTISt13runtime_error'):
        t = st.clone(); t.gset('broke', z3.BoolVal(True))
        return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception'), 0)))
    def nomem(s, st): t = st.clone(); t.gset('broke', z3.BoolVal(True)); return (t, Throw('_ZTISt9bad_alloc', Ptr(virtual_object(s.e, t, '7VfError', 'bad_alloc'), 0)))

    # ---- memory
    def new(s, g, st, a, i):
        t = s.nomem(st); n = g.dom.u(g.as_int(a[0])); o = g.new_obj(st, 'new', kind='struct', size=n if isinstance(n, int) else None, heap=True); st.ghost['news'] += (o,); return [(st, Ptr(o, 0)), t]
    def delete(s, g, st, a, i):
        p = g.norm_ptr(a[0])
        if p.obj is None: return [(st, None)]
        g.prove(st, p.obj.heap and p.obj.id not in st.freed, 'memory: only what is owned is deleted'); st.freed = st.freed | {p.obj.id}; return [(st, None)]
    def live(s, o): return [x for x in o.ghost['news'] if x.id not in o.freed]

    # ---- strings and maps
    def mark(s, st, p):
        p = s.e.norm_ptr(p); v = s.e.load(st, p, ir.INT(64)); return s.u(v)
    def put(s, st, p, v): s.e.store(st, p, ir.INT(64), IV(64, u=zi(v)))
    def mk(s, v): return lambda g, st, a, i: (s.put(st, a[0], Z(v)), [(st, None)])[1]
    def move(s, g, st, a, i): v = s.mark(st, a[1]); s.put(st, a[1], Z(0)); s.put(st, a[0], v); return [(st, a[0])]
    def copy(s, g, st, a, i): t = s.nomem(st); s.put(st, a[0], s.mark(st, a[1])); return [(st, None), t]
    def swap(s, g, st, a, i):
        if 'const&' in g.dem(i['callee'] if isinstance(i.get('callee'), str) else ''): return s.copy(g, st, a, i)
        v, w = s.mark(st, a[0]), s.mark(st, a[1]); s.put(st, a[0], w); s.put(st, a[1], v); return [(st, a[0])]
    def size(s, st, k): F = z3.Function('text_size', I, I); st.assume(z3.And(F(k) >= 0, F(k) < 2 ** 31)); return F(k)
    def it(s, st, a, v):
        if not isinstance(a[0], Ptr): raise Unsupported('iterator')
        s.e.prove(st, s.mark(st, a[1]) == s.own[1], 'baggage: the context\'s own'); s.setidx(st, a[0], v); return [(st, None)]
    def um(s, st, p, v): s.e.prove(st, s.e.ptr_eq(p, Ptr(s.fn, 0)), 'baggage: the map given'); return [(st, Ptr(s.items, z3.simplify(64 * v)))]
    def incr(s, g, st, a, i): p = g.norm_ptr(g.load(st, a[0], ir.PTR)); g.store(st, a[0], ir.PTR, Ptr(s.items, z3.simplify(zi(p.off) + 64))); return [(st, None)]
    def pair(s, g, st, a, i): t = s.nomem(st); k, v = g.norm_ptr(a[1]), g.norm_ptr(a[2]); g.store(st, a[0], ir.PTR, k); g.store(st, Ptr(a[0].obj, g.dom.off_add(a[0].off, 32)), ir.PTR, v); return [(st, None), t]
    def insert(s, g, st, a, i):
        ret = a[0] if len(a) == 3 else None; m, p = a[-2:]; n = st.ghost['ins']; k, v = g.load(st, p, ir.PTR), g.load(st, Ptr(p.obj, g.dom.off_add(p.off, 32)), ir.PTR)
        if s.made_obj is not None: g.prove(st, g.ptr_eq(m, Ptr(s.made_obj, s.O['baggage_'])), 'context: items go into its baggage')
        g.prove(st, b_and(n < s.nb, g.ptr_eq(k, Ptr(s.items, z3.simplify(64 * n))), g.ptr_eq(v, Ptr(s.items, z3.simplify(64 * n + 32)))), 'context: key and value of each item given, in turn'); t = s.nomem(st); st.gset('ins', n + 1); return [(st, None if i['rt'][0] == 'void' else g.fresh_val(st, i['rt'], 'inserted')), t]
    made_obj = None

    # ---- the collaborators of a tracer
    def log(s, g, st, a, i): st.ghost['logged'] += 1; return [(st, None)]
    def cast(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.foreign, 0)), 'the context given is used'); t = st.clone(); t.ghost['made'] = 'foreign'; return [(st, Ptr(s.L, 0)), (t, NULL)]
    def self(s, g, st, a, i):
        g.prove(st, z3.BoolVal(g.norm_ptr(a[-1]).obj is s.tracer), 'a span belongs to the tracer that started it'); t = s.fails(st); g.store(st, a[0], ir.PTR, Ptr(s.tracer, 0)); return [(st, None), t]
    def share(s, g, st, a, i): p = g.load(st, a[1], ir.PTR); g.store(st, a[0], ir.PTR, p); return [(st, None)]
    def span(s, g, st, a, i):
        if len(a) == 7: this, sp, lo, re, n, l, op = a; g.prove(st, b_and(g.ptr_eq(lo, Ptr(s.logger, 0)), g.ptr_eq(re, Ptr(s.recorder, 0))), 'a span records to the tracer\'s recorder')
        else: this, sp, n, l, op = a
        g.prove(st, z3.BoolVal(g.norm_ptr(g.load(st, sp, ir.PTR)).obj is s.tracer), 'a span belongs to the tracer that started it'); g.prove(st, b_and(g.ptr_eq(n, Ptr(s.name, 0)), s.u(l) == 77, g.ptr_eq(op, Ptr(s.options, 0))), 'a span is started with the name and options given')
        st.ghost['called'] += 1; t = s.fails(st); st.ghost['made'] = g.norm_ptr(this).obj; return [(st, None), t, s.nomem(st)]
    def now(s, g, st, a, i):
        v = z3.FreshInt('now'); T = st.ghost['times']; st.assume(z3.And(v >= (T[-1] if T else 1), v < 2 ** 61)); st.ghost['times'] += (v,); return [(st, IV(64, u=v))]
    def flush(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.recorder, 0)), 'the tracer\'s recorder is flushed'); r = z3.FreshBool('flushed'); st.ghost['flushed'] += ((s.si(a[1]), r),); return [(st, r)]
    def shutdown(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.recorder, 0)), 'the tracer\'s recorder is shut down'); st.ghost['shut'] += (s.si(a[1]),); return [(st, z3.FreshBool('shut'))]

    # ---- contexts
    def result(s, st, p, tag, valued):
        """an arbitrary outcome of the callee, stored where it is returned: error code, category, success"""
        e = s.e; v = z3.Int(tag + '_error'); st.assume(z3.And(v >= 0, v < 2 ** 31)); off = 8 if valued else 0
        e.store(st, Ptr(p.obj, e.dom.off_add(p.off, off)), ir.INT(32), IV(32, u=v)); e.store(st, Ptr(p.obj, e.dom.off_add(p.off, off + 8)), ir.PTR, Ptr(s.category, 0)); return v
    def flag(s, st, p, off): return z3.simplify(s.ld(st, p, off, 8))
    def inject(s, g, st, a, i):
        ret, this, op, car = a; g.prove(st, b_and(g.ptr_eq(this, Ptr(s.L, 0)), g.ptr_eq(op, Ptr(s.tracer, s.O['propagation_options_'])), g.ptr_eq(car, Ptr(s.carrier, 0))), 'Inject: the context given, into the carrier given, by the tracer\'s formats')
        st.ghost['sent'] += 1; t = s.fails(st); s.result(st, ret, 'inject', False); ok = z3.Int('inject_ok'); st.assume(z3.And(ok >= 0, ok <= 1)); g.store(st, Ptr(ret.obj, g.dom.off_add(ret.off, 16)), ir.INT(8), IV(8, u=ok)); return [(st, None), t]
    def send(s, g, st, a, i):
        ret, op, car, tc, tp, tn, bag = a; O = s.O
        g.prove(st, b_and(g.ptr_eq(op, Ptr(s.options, 0)), g.ptr_eq(car, Ptr(s.carrier, 0))), 'Inject: with the options and carrier given')
        for k, j in (('trace_id_high', 0), ('trace_id_low', 1), ('parent_id', 2)): g.prove(st, s.ld(st, tc, O['t.' + k]) == s.vals[j], 'Inject: the context\'s own ids, ' + k)
        g.prove(st, s.ld(st, tc, O['t.trace_flags'], 8) == s.vals[3], 'Inject: the context\'s own flags')
        g.prove(st, b_and(g.ptr_eq(tp, Ptr(s.texts, s.own[0] * 2 ** 32)), s.u(tn) == s.size(st, s.own[0])), 'Inject: the context\'s own trace state'); g.prove(st, b_and(g.norm_ptr(bag).obj is s.ctxobj, s.mark(st, bag) == s.own[1]), 'Inject: the context\'s own baggage'); g.prove(st, g.ptr_eq(ret, Ptr(s.ret, 0)), 'Inject: the outcome is returned')
        st.ghost['sent'] += 1; return [(st, None), s.fails(st)]
    def extract(s, g, st, a, i):
        """ret, options, carrier, context, trace state, baggage: an error, nothing, or something"""
        ret, op, car, tc, ts, bag = a; O = s.O; D = g.dom
        g.prove(st, b_and(g.ptr_eq(op, Ptr(s.tracer, O['propagation_options_'])), g.ptr_eq(car, Ptr(s.carrier, 0))), 'Extract: from the carrier given, by the tracer\'s formats'); g.prove(st, z3.And(s.mark(st, ts) == 0, s.mark(st, bag) == 0), 'Extract: starts with nothing')
        out = [s.fails(st), s.nomem(st)]
        for k in ('error', 'nothing', 'found'):
            t = st.clone(); t.ghost['ex'] = k; v = s.result(t, ret, 'extract', False) if False else z3.Int('extract_error'); t.assume(z3.And(v >= 1, v < 2 ** 31)); A = lambda off: Ptr(ret.obj, D.off_add(ret.off, off))
            g.store(t, A(0), ir.INT(8), IV(8, u=int(k == 'found'))); g.store(t, A(8), ir.INT(32), IV(32, u=v)); g.store(t, A(16), ir.PTR, Ptr(s.category, 0)); g.store(t, A(24), ir.INT(8), IV(8, u=int(k != 'error')))
            if k == 'found':
                s.vals = [z3.Int(n) for n in ('got_high', 'got_low', 'got_parent', 'got_flags')]
                for x, (n, w) in zip(s.vals, (('trace_id_high', 64), ('trace_id_low', 64), ('parent_id', 64), ('trace_flags', 8))): t.assume(z3.And(x >= 0, x < 2 ** w)); g.store(t, Ptr(tc.obj, D.off_add(tc.off, O['t.' + n])), ir.INT(w), IV(w, u=x))
            s.put(t, ts, s.own[0]); s.put(t, bag, s.own[1])        # whatever was found before failing, too
            out.append((t, None))
        return out

    def which(s, p): return 'L' if s.e.norm_ptr(p).obj is s.L else 'R'
    def ctxval(s, j):
        def f(g, st, a, i): v = z3.Int('%s_%s' % (s.which(a[0]), ('high', 'low', 'span', 'flags')[j])); st.assume(z3.And(v >= 0, v < 2 ** (8 if j == 3 else 64))); return [(st, IV(8 if j == 3 else 64, u=v))]
        return f
    def ctxstate(s, g, st, a, i): k = {'L': 1, 'R': 2}[s.which(a[0])]; return [(st, (Ptr(s.texts, k * 2 ** 32), IV(64, u=s.size(st, Z(k)))))]
    def same_state(s, g, st, a, i):
        ks = set()
        for p, n in ((a[0], a[1]), (a[2], a[3])):
            for k in (1, 2):
                if g.oracle(zi(g.norm_ptr(p).off) == k * 2 ** 32) is True and g.oracle(s.u(n) == s.size(st, Z(k))) is True: ks.add(k)
        if ks != {1, 2}: g.prove(st, False, '==: the trace states are compared whole'); return [(st, z3.FreshBool('eq'))]
        return [(st, z3.Bool('same_state'))]
    def foreach(s, g, st, a, i):
        f = g.norm_ptr(a[1]); st.ghost['pend'] = None; st.ghost['fe'] += 1; out = []
        for t, v in g.call_value(st, g.load(st, Ptr(f.obj, g.dom.off_add(f.off, 24)), ir.PTR), [f, Ptr(s.k, 0), Ptr(s.v, 0)]):
            if isinstance(v, Throw): out.append((t, v)); continue
            g.cur = t; g.prove(t, zb(v), '==: every item is compared'); g.prove(t, t.ghost['pend'] is not None, '==: items are collected')
            if t.ghost['pend'] is not None: s.put(t, t.ghost['pend'], Z({'L': 11, 'R': 12}[s.which(a[0])]))
            out.append((t, None))
        return out
    def emplace(s, g, st, a, i):
        ps = [x for x in a if isinstance(x, Ptr)][-3:]
        g.prove(st, b_and(g.ptr_eq(ps[1], Ptr(s.k, 0)), g.ptr_eq(ps[2], Ptr(s.v, 0))), '==: items are collected by key and value'); t = s.nomem(st); st.ghost['pend'] = g.norm_ptr(ps[0]); return [(st, g.fresh_val(st, i['rt'], 'emplaced') if i['rt'][0] != 'void' else None), t]
    def same_maps(s, g, st, a, i):
        x, y = s.mark(st, a[0]), s.mark(st, a[1]); g.prove(st, z3.Or(z3.And(x == 11, y == 12), z3.And(x == 12, y == 11)), '==: the baggage of both is compared'); return [(st, z3.Bool('same_baggage'))]
    def visit(s, g, st, a, i):
        k = st.ghost['visited']; g.prove(st, zb(st.ghost['go']), 'baggage: visiting stops when told so'); g.prove(st, b_and(k < s.nb, g.ptr_eq(a[0], Ptr(s.fn, 0)), g.ptr_eq(a[1], Ptr(s.items, z3.simplify(64 * k))), g.ptr_eq(a[2], Ptr(s.items, z3.simplify(64 * k + 32)))), 'baggage: each item, in turn, by key and value')
        t = s.fails(st); b = z3.FreshBool('go_on'); st.gset('visited', k + 1); st.gset('go', b); return [(st, b), t]
    def cand(s, e, view):
        G = lambda w: w.st.ghost; out = []
        for k in ('visited', 'ins'): out.append(('%s in range' % k, lambda w, k=k: z3.And(G(w)[k] >= 0, G(w)[k] <= s.nb)))
        out += [('going on', lambda w: zb(G(w)['go'])), ('as failed as it was', lambda w: zb(G(w)['broke']) == zb(w.entry.ghost['broke']))]
        for n, t in view.ints():
            for k in ('visited', 'ins'): out += [('%s is at %s * %d' % (n, k, c), lambda w, n=n, k=k, c=c: zi(w.term(w.get(n))) == c * G(w)[k]) for c in (1, 64)]
        return out

    # ---- a context as it must be
    def context(s, st, obj, vals, state, bag, what):
        O = s.O; e = s.e; P = Ptr(obj, 0)
        for k, v in zip(s.IDS, vals): e.prove(st, s.ld(st, P, O[k]) == v, what + ': ' + k.rstrip('_'))
        e.prove(st, s.ld(st, P, O['trace_flags_'], 8) == vals[3], what + ': flags'); e.prove(st, s.mark(st, Ptr(obj, O['trace_state_'])) == state, what + ': trace state')
        if bag is not None: e.prove(st, s.mark(st, Ptr(obj, O['baggage_'])) == bag, what + ': baggage')
        e.prove(st, e.ptr_eq(e.load(st, P, ir.PTR), Ptr(e.gobj('_ZTVN9lightstep20ImmutableSpanContextE'), 16)), what + ': is a context of this tracer')


def inject(ctx, K):
    engs = []
    for nm, pat in PASS:
        w = World(ctx, '%s::Inject, %s' % (K, nm), K); e = w.e; st = w.st; engs.append(e)
        outs = e.run(findre(w.m, e, r'^lightstep::%s::Inject\(.*, %s' % (K, pat)), st, [Ptr(w.ret, 0), Ptr(w.tracer, 0), Ptr(w.foreign, 0), Ptr(w.carrier, 0)]); reachable(e, outs)
        for o in outs:
            e.cur = o; f = o.ghost['made'] == 'foreign'
            if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], 'Inject: throws only what the context throws'); continue
            e.prove(o, o.ghost['sent'] == (0 if f else 1), 'Inject: once, if the context is one of ours'); P = Ptr(w.ret, 0)
            code = 1 if f else z3.Int('inject_error'); e.prove(o, z3.And(w.ld(o, P, 16, 8) == (0 if f else z3.Int('inject_ok')), z3.Implies(w.ld(o, P, 16, 8) == 0, w.ld(o, P, 0, 32) == code)), 'Inject: the outcome is returned; an error for a foreign context')
            e.prove(o, z3.Implies(w.ld(o, P, 16, 8) == 0, zb(e.ptr_eq(e.load(o, Ptr(w.ret, 8), ir.PTR), Ptr(w.category, 0)))), 'Inject: the error\'s category')
    return engs


def extract(ctx, K):
    engs = []
    for nm, pat in READ:
        w = World(ctx, '%s::Extract, %s' % (K, nm), K); e = w.e; st = w.st; engs.append(e); P = Ptr(w.ret, 0)
        outs = e.run(findre(w.m, e, r'^lightstep::%s::Extract\(%s' % (K, pat)), st, [P, Ptr(w.tracer, 0), Ptr(w.carrier, 0)]); reachable(e, outs)
        for o in outs:
            e.cur = o; k = o.ghost['ex']; L = w.live(o); V = lambda off, n=32: w.ld(o, P, off, n)
            if o.outcome[0] == 'throw': e.prove(o, b_and(o.ghost['broke'], len(L) == 0), 'Extract: throws only what the carrier throws, nothing is leaked'); e.prove(o, 'bad_alloc' not in str(o.outcome[1]), 'Extract: running out of memory is returned as an error'); continue
            p = e.norm_ptr(e.load(o, P, ir.PTR)); has = V(24, 8)
            if k == 'found' and e.oracle(zb(o.ghost['broke'])) is not True:
                e.prove(o, b_and(has == 1, p.obj is not None and len(L) == 1 and p.obj is L[0]), 'Extract: what was found is returned as a context')
                if p.obj is not None: w.context(o, p.obj, w.vals, w.own[0], w.own[1], 'Extract')
                continue
            e.prove(o, b_and(p.obj is None, len(L) == 0), 'Extract: no context, and nothing leaked')
            if e.oracle(zb(o.ghost['broke'])) is True: e.prove(o, b_and(has == 0, V(8) == 12, e.ptr_eq(e.load(o, Ptr(w.ret, 16), ir.PTR), Ptr(w.generic, 0))), 'Extract: running out of memory is returned as an error')
            elif k == 'error': e.prove(o, b_and(has == 0, V(8) == z3.Int('extract_error'), e.ptr_eq(e.load(o, Ptr(w.ret, 16), ir.PTR), Ptr(w.category, 0))), 'Extract: an error is returned')
            else: e.prove(o, has == 1, 'Extract: nothing found is no error')
    return engs


def start(ctx, K):
    w = World(ctx, K + '::StartSpanWithOptions', K); e = w.e; P = Ptr(w.ret, 0)
    outs = returns(e, e.run(findre(w.m, e, r'^lightstep::%s::StartSpanWithOptions' % K), w.st, [P, Ptr(w.tracer, 0), Ptr(w.name, 0), IV(64, u=77), Ptr(w.options, 0)]), 'StartSpanWithOptions'); reachable(e, outs)
    for o in outs:
        e.cur = o; b = e.oracle(zb(o.ghost['broke'])) is True; L = w.live(o); p = e.norm_ptr(e.load(o, P, ir.PTR))
        if b: e.prove(o, b_and(p.obj is None, len(L) == 0, o.ghost['logged'] >= 1), 'start: null if it fails, logged, nothing leaked')
        else: e.prove(o, b_and(p.obj is not None and p.obj is o.ghost['made'] and len(L) == 1 and p.obj is L[0], o.ghost['called'] == 1), 'start: the span started is returned')
    return e


def flush(ctx, K):
    engs = []
    for f, a in (('Flush', []), ('FlushWithTimeout', [IV(64, s=z3.Int('timeout'))])):
        w = World(ctx, K + '::' + f, K); e = w.e; w.st.assume(z3.And(z3.Int('timeout') > -2 ** 62, z3.Int('timeout') < 2 ** 62)); engs.append(e)
        outs = returns(e, e.run(findre(w.m, e, r'^lightstep::%s::%s\(' % (K, f)), w.st, [Ptr(w.tracer, 0)] + a), f); reachable(e, outs)
        for o in outs:
            e.cur = o; F = o.ghost['flushed']; e.prove(o, b_and(len(F) == 1 and F[0][0] == (z3.Int('timeout') if a else TEN), len(o.ghost['shut']) == 0), f + ': the recorder is flushed with the time given, or ten seconds')
            if len(F) == 1: e.prove(o, zb(o.outcome[1]) == F[0][1], f + ': whether it was flushed is returned')
    w = World(ctx, K + '::Close', K); e = w.e; engs.append(e)
    outs = returns(e, e.run(findre(w.m, e, r'^lightstep::%s::Close\(' % K), w.st, [Ptr(w.tracer, 0)]), 'Close'); reachable(e, outs)
    for o in outs:
        e.cur = o; G = o.ghost; F, S, T = G['flushed'], G['shut'], G['times']; e.prove(o, len(F) == 1, 'Close: flushes once')
        if len(F) != 1: continue
        e.prove(o, F[0][0] == TEN, 'Close: flushes within ten seconds'); e.prove(o, len(S) <= 1, 'Close: shuts down once')
        if K == 'LegacyTracerImpl': e.prove(o, len(S) == 0, 'Close: nothing to shut down'); continue
        if S: e.prove(o, b_and(F[0][1], len(T) == 2 and z3.And(S[0] == TEN - (T[1] - T[0]), S[0] > 0)), 'Close: shuts down after a flush, in the time that is left of ten seconds')
        else: e.prove(o, z3.Or(z3.Not(F[0][1]), T[1] - T[0] >= TEN) if len(T) == 2 else z3.Not(F[0][1]), 'Close: shuts down if it was flushed in time')
    return engs


def make(ctx):
    """constructors of ImmutableSpanContext"""
    engs = []
    def case(nm, pat, args, vals, state, bag, loop=False):
        w = World(ctx, 'ImmutableSpanContext, ' + nm); e = w.e; st = w.st; engs.append(e); o = e.new_obj(st, 'new context', kind='struct', size=w.O['C']); w.made_obj = o; w.map, w.str = (e.new_obj(st, n, kind='struct', size=max(32, w.O['M'])) for n in ('baggage given', 'state given'))
        v = w.vals = [w.sym(n, 2 ** 64) for n in ('high', 'low', 'span')] + [w.sym('flags', 256)]; w.s = z3.Bool('is_sampled'); w.put(st, Ptr(w.map, 0), w.own[1]); w.put(st, Ptr(w.str, 0), w.own[0])
        outs = e.run(findre(w.m, e, r'^lightstep::ImmutableSpanContext::ImmutableSpanContext\(' + pat), st, [Ptr(o, 0)] + args(w)); reachable(e, outs)
        for x in outs:
            e.cur = x
            if x.outcome[0] == 'throw': e.prove(x, x.ghost['broke'] if loop else False, 'context: throws only when out of memory'); continue
            e.prove(x, z3.Not(zb(x.ghost['broke'])), 'context: running out of memory is not hidden'); w.context(x, o, vals(w), state(w), bag(w), 'context')
            if loop: e.prove(x, x.ghost['ins'] == w.nb, 'context: every item given')
    U = lambda x: IV(64, u=x); sf = lambda w: z3.If(w.s, 1, 0); m = 'google::protobuf::Map<'; L = 'unsigned long, '
    case('ids', L * 2 + 'bool, ' + m, lambda w: [U(w.vals[1]), U(w.vals[2]), w.s, Ptr(w.map, 0)], lambda w: [Z(0), w.vals[1], w.vals[2], sf(w)], lambda w: Z(0), lambda w: w.own[1])
    case('128 bits', L * 3 + 'bool, ' + m, lambda w: [U(w.vals[0]), U(w.vals[1]), U(w.vals[2]), w.s, Ptr(w.map, 0)], lambda w: w.vals[:3] + [sf(w)], lambda w: Z(0), lambda w: w.own[1])
    case('items', L * 3 + 'bool, std::unordered_map', lambda w: [U(w.vals[0]), U(w.vals[1]), U(w.vals[2]), w.s, Ptr(w.fn, 0)], lambda w: w.vals[:3] + [sf(w)], lambda w: Z(0), lambda w: Z(0), True)
    def tc(w):
        t = w.e.new_obj(w.st, 'trace context', kind='struct', size=w.O['T']); m = {}
        for k, v, n in zip(('trace_id_high', 'trace_id_low', 'parent_id', 'trace_flags'), w.vals, (64, 64, 64, 8)): m[w.O['t.' + k]] = (n // 8, IV(n, u=v))
        w.st.mem[t.id] = m; return [Ptr(t, 0), Ptr(w.str, 0), Ptr(w.map, 0)]
    case('extracted', 'lightstep::TraceContext const&', tc, lambda w: w.vals, lambda w: w.own[0], lambda w: w.own[1])
    return engs


def held(ctx, name):
    w = World(ctx, name); e = w.e; st = w.st; O = w.O; w.vals = [w.sym(n, 2 ** 64) for n in ('high', 'low', 'span')] + [w.sym('flags', 256)]; w.ctxobj = o = e.new_obj(st, 'context object', kind='struct', size=O['C'])
    m = {0: (8, Ptr(e.gobj('_ZTVN9lightstep20ImmutableSpanContextE'), 16)), O['trace_flags_']: (1, IV(8, u=w.vals[3])), O['trace_state_']: (8, IV(64, u=w.own[0])), O['baggage_']: (8, IV(64, u=w.own[1]))}
    for k, v in zip(w.IDS, w.vals): m[O[k]] = (8, IV(64, u=v))
    st.mem[o.id] = m; return w


def use(ctx):
    """what an ImmutableSpanContext does with what it holds"""
    engs = []; N = r'^lightstep::ImmutableSpanContext::'
    for j, k in enumerate(('trace_id_high', 'trace_id_low', 'span_id', 'trace_flags')):
        w = held(ctx, k); e = w.e; engs.append(e)
        for o in returns(e, e.run(findre(w.m, e, N + k + r'\('), w.st, [Ptr(w.ctxobj, 0)]), k): e.cur = o; e.prove(o, w.u(o.outcome[1]) == w.vals[j], k + ': the one held')
    w = held(ctx, 'trace_state'); e = w.e; engs.append(e)
    for o in returns(e, e.run(findre(w.m, e, N + r'trace_state\('), w.st, [Ptr(w.ctxobj, 0)]), 'trace_state'): e.cur = o; v = o.outcome[1]; e.prove(o, b_and(e.ptr_eq(v[0], Ptr(w.texts, w.own[0] * 2 ** 32)), w.u(v[1]) == w.size(o, w.own[0])), 'trace_state: the one held')
    w = held(ctx, 'ForeachBaggageItem'); e = w.e; engs.append(e)
    outs = e.run(findre(w.m, e, N + r'ForeachBaggageItem\('), w.st, [Ptr(w.ctxobj, 0), Ptr(w.fn, 0)]); reachable(e, outs)
    for o in outs:
        e.cur = o
        if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], 'ForeachBaggageItem: throws only what the function throws'); continue
        e.prove(o, z3.Implies(zb(o.ghost['go']), o.ghost['visited'] == w.nb), 'ForeachBaggageItem: every item unless told to stop')
    for nm, pat in PASS:
        w = held(ctx, 'Inject, ' + nm); e = w.e; engs.append(e)
        outs = e.run(findre(w.m, e, N + r'Inject\(.*, %s' % pat), w.st, [Ptr(w.ret, 0), Ptr(w.ctxobj, 0), Ptr(w.options, 0), Ptr(w.carrier, 0)]); reachable(e, outs)
        for o in outs:
            e.cur = o; e.prove(o, o.ghost['sent'] == 1, 'Inject: once')
            if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], 'Inject: throws only what writing throws')
    w = World(ctx, 'sampled'); e = w.e; engs.append(e)
    for o in returns(e, e.run('vf_sampled', w.st, [Ptr(w.L, 0)]), 'sampled'): e.cur = o; e.prove(o, zb(o.outcome[1]) == (z3.Int('L_flags') % 2 == 1), 'sampled: the lowest flag')
    return engs


def equal(ctx):
    w = World(ctx, 'operator=='); e = w.e; V = lambda k: z3.Int('L_' + k) == z3.Int('R_' + k)
    outs = e.run(findre(w.m, e, r'^lightstep::operator==\(lightstep::LightStepSpanContext const&, lightstep::LightStepSpanContext const&\)$'), w.st, [Ptr(w.L, 0), Ptr(w.R, 0)]); reachable(e, outs)
    for o in outs:
        e.cur = o
        if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], '==: throws only when out of memory'); continue
        e.prove(o, zb(o.outcome[1]) == z3.And(V('high'), V('low'), V('span'), V('flags'), z3.Bool('same_state'), z3.Bool('same_baggage')), '==: ids, flags, trace state and baggage')
    return e


def api(ctx):
    engs = []; w = World(ctx, 'GetTraceSpanIdsSampled'); e = w.e; engs.append(e); P = Ptr(w.ret, 0)
    w.ret.size = None
    outs = returns(e, e.run(findre(w.m, e, r'^lightstep::LightStepTracer::GetTraceSpanIdsSampled'), w.st, [P, Ptr(w.tracer, 0), Ptr(w.foreign, 0)]), 'GetTraceSpanIdsSampled'); reachable(e, outs)
    for o in outs:
        e.cur = o; X = lambda off, n=64: w.ld(o, P, off, n)
        if o.ghost['made'] == 'foreign': e.prove(o, b_and(X(40, 8) == 0, X(24, 32) == 1, e.ptr_eq(e.load(o, Ptr(w.ret, 32), ir.PTR), Ptr(w.category, 0))), 'GetTraceSpanIdsSampled: an error for a foreign context')
        else: e.prove(o, z3.And(X(40, 8) == 1, X(0) == z3.Int('L_low'), X(8) == z3.Int('L_span'), X(16) == z3.Int('L_flags') % 2), 'GetTraceSpanIdsSampled: trace id, span id, sampled')
    w = World(ctx, 'MakeSpanContext'); e = w.e; engs.append(e); P = Ptr(w.ret, 0); v = [w.sym(n, 2 ** 64) for n in ('trace_id', 'span_id')]; b = z3.Bool('is_sampled')
    outs = returns(e, e.run(findre(w.m, e, r'^lightstep::LightStepTracer::MakeSpanContext\(unsigned long, unsigned long, bool'), w.st, [P, Ptr(w.tracer, 0), IV(64, u=v[0]), IV(64, u=v[1]), b, Ptr(w.fn, 0)]), 'MakeSpanContext'); reachable(e, outs)
    for o in outs:
        e.cur = o; L = w.live(o); p = e.norm_ptr(e.load(o, P, ir.PTR)); bad = e.oracle(zb(o.ghost['broke'])) is True
        if bad: e.prove(o, b_and(p.obj is None, len(L) == 0, w.ld(o, P, 24, 8) == 0, w.ld(o, P, 8, 32) == 12, e.ptr_eq(e.load(o, Ptr(w.ret, 16), ir.PTR), Ptr(w.generic, 0))), 'MakeSpanContext: an error when out of memory, nothing leaked'); continue
        e.prove(o, b_and(w.ld(o, P, 24, 8) == 1, p.obj is not None and len(L) == 1 and p.obj is L[0]), 'MakeSpanContext: a context is returned'); e.prove(o, o.ghost['ins'] == w.nb, 'MakeSpanContext: with every item given')
        if p.obj is not None: w.context(o, p.obj, [Z(0), v[0], v[1], z3.If(b, 1, 0)], Z(0), Z(0), 'MakeSpanContext')
    return engs


def binary(ctx):
    """carriers that are streams: the ids, whether sampled, and the baggage"""
    engs = []; seen = []
    def prep(nm, kind):
        w = World(ctx, 'binary carrier, ' + nm); e = w.e; engs.append(e); w.vals = [w.sym(n, 2 ** 64) for n in ('high', 'low', 'span')] + [w.sym('flags', 256)]
        w.tc = e.new_obj(w.st, 'trace context', kind='struct', size=w.O['T']); w.bagobj = e.new_obj(w.st, 'baggage map', kind='struct', size=64); w.state = e.new_obj(w.st, 'state', kind='struct', size=32); return w, e
    w, e = prep('inject', 0); m = {}
    for k, v, n in zip(('trace_id_high', 'trace_id_low', 'parent_id', 'trace_flags'), w.vals, (64, 64, 64, 8)): m[w.O['t.' + k]] = (n // 8, IV(n, u=v))
    w.st.mem[w.tc.id] = m
    def put(g, st, a, i):
        ret, car, tid, sid, smp, bag = a; g.prove(st, b_and(g.ptr_eq(ret, Ptr(w.ret, 0)), g.ptr_eq(car, Ptr(w.carrier, 0)), w.u(tid) == w.vals[1], w.u(sid) == w.vals[2], zb(smp) == (w.vals[3] % 2 == 1), g.ptr_eq(bag, Ptr(w.bagobj, 0))), 'Inject: the trace id, span id, sampling and baggage'); st.ghost['sent'] += 1; return [(st, None), w.fails(st)]
    e.contracts.insert(0, (rx(r'^(.* )?lightstep::InjectSpanContext(<.*>)?\((std::ostream|std::basic_ostream<.*>)&, unsigned long'), put)); e.contracts[:] = [c for c in e.contracts if c[1] != w.send]
    names = findall(w.m, e, r'expected<void> lightstep::InjectSpanContext<.*>\(lightstep::PropagationOptions const&, (std::ostream|std::basic_ostream<.*>)&, lightstep::TraceContext const&')
    for n in names:
        st = w.st.clone(); outs = e.run(n, st, [Ptr(w.ret, 0), Ptr(w.options, 0), Ptr(w.carrier, 0), Ptr(w.tc, 0), Ptr(w.texts, 0), IV(64, u=3), Ptr(w.bagobj, 0)]); reachable(e, outs)
        for o in outs: e.cur = o; e.prove(o, o.ghost['sent'] == 1, 'Inject: once')
    w, e = prep('extract', 1); res = {}
    def get(g, st, a, i):
        ret, car, tid, sid, smp, bag = a; g.prove(st, b_and(g.ptr_eq(car, Ptr(w.carrier, 0)), g.ptr_eq(bag, Ptr(w.bagobj, 0))), 'Extract: from the carrier, with its baggage'); out = [w.fails(st)]
        for k in ('error', 'nothing', 'found'):
            t = st.clone(); t.ghost['ex'] = k; A = lambda off: Ptr(ret.obj, g.dom.off_add(ret.off, off)); v = z3.Int('extract_error'); t.assume(z3.And(v >= 1, v < 2 ** 31))
            g.store(t, A(0), ir.INT(8), IV(8, u=int(k == 'found'))); g.store(t, A(8), ir.INT(32), IV(32, u=v)); g.store(t, A(16), ir.PTR, Ptr(w.category, 0)); g.store(t, A(24), ir.INT(8), IV(8, u=int(k != 'error')))
            if k == 'found': g.store(t, tid, ir.INT(64), IV(64, u=w.vals[1])); g.store(t, sid, ir.INT(64), IV(64, u=w.vals[2])); g.store(t, smp, ir.INT(8), IV(8, u=z3.If(z3.Bool('was_sampled'), 1, 0)))
            out.append((t, None))
        return out
    e.contracts[:] = [(rx(r'^lightstep::ExtractSpanContext\((std::istream|std::basic_istream<.*>)&, unsigned long&'), get)] + [c for c in e.contracts if c[1] != w.extract]
    outs = e.run(findre(w.m, e, r'^lightstep::ExtractSpanContext\(lightstep::PropagationOptions const&, (std::istream|std::basic_istream<.*>)&'), w.st, [Ptr(w.ret, 0), Ptr(w.options, 0), Ptr(w.carrier, 0), Ptr(w.tc, 0), Ptr(w.state, 0), Ptr(w.bagobj, 0)]); reachable(e, outs)
    for o in outs:
        e.cur = o
        if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], 'Extract: throws only what reading throws'); continue
        P = Ptr(w.ret, 0); k = o.ghost['ex']; e.prove(o, b_and(w.ld(o, P, 24, 8) == int(k != 'error'), w.ld(o, P, 0, 8) == int(k == 'found') if k != 'error' else True, w.ld(o, P, 8, 32) == z3.Int('extract_error') if k == 'error' else True), 'Extract: the outcome is returned')
        if k == 'found':
            X = lambda n, b=64: w.ld(o, Ptr(w.tc, 0), w.O['t.' + n], b); e.prove(o, z3.And(X('trace_id_high') == 0, X('trace_id_low') == w.vals[1], X('parent_id') == w.vals[2], X('trace_flags', 8) == z3.If(z3.Bool('was_sampled'), 1, 0)), 'Extract: the ids and whether sampled')
    return engs


def units(ctx):
    out = []
    for K in ('TracerImpl', 'LegacyTracerImpl'):
        out += [Unit(K + ', Inject', lambda c, K=K: inject(c, K), [K + '::Inject (3)', 'InjectImpl'], 300), Unit(K + ', Extract', lambda c, K=K: extract(c, K), [K + '::Extract (3)', 'ExtractImpl'], 300),
                Unit(K + ', StartSpanWithOptions', lambda c, K=K: start(c, K), [K + '::StartSpanWithOptions'], 300), Unit(K + ', Flush and Close', lambda c, K=K: flush(c, K), [K + '::' + k for k in ('Flush', 'FlushWithTimeout', 'Close')], 300)]
    return out + [Unit('ImmutableSpanContext, constructors', make, ['ImmutableSpanContext::ImmutableSpanContext (4)'], 300), Unit('ImmutableSpanContext, use', use, ['ImmutableSpanContext::' + k for k in ('trace_id_high', 'trace_id_low', 'span_id', 'trace_flags', 'trace_state', 'ForeachBaggageItem', 'Inject', 'InjectImpl')] + ['LightStepSpanContext::sampled'], 300),
                  Unit('contexts, operator==', equal, ['operator==(LightStepSpanContext)'], 300), Unit('binary carriers', binary, ['InjectSpanContext (stream carriers)', 'ExtractSpanContext (stream carriers)'], 300), Unit('LightStepTracer', api, ['LightStepTracer::GetTraceSpanIdsSampled', 'LightStepTracer::MakeSpanContext'], 300)]


def natives(ctx):
    from props import C33
    k = C33.natives(ctx)[0].__dict__; return [Native('native/C35.cpp', srcs=k['srcs'] + ['src/tracer/tracer.cpp'], protos=True, gensrcs=k['gensrcs'], libs=['-lprotobuf', '-lpthread', '-Wl,--unresolved-symbols=ignore-all'], budget=(12, 90))]

