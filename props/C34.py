"""C34: span start - a span starts with the references, tags, times, ids and sampling decision it was asked for."""
from cvg.runner import Unit, Native
from cvg.util import *
from props import C33

ASSUMPTIONS = ['the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)', 'the options passed in do not change during the call; logging does not throw',
               'times and the difference of the clocks are below 2^61 ns']
TRUSTED = ['Write* serialization functions write the field they are given (proved as C31)', 'FlatMap::insert_or_assign (proved as C14)', 'dynamic_cast', 'protobuf messages hold what they are given', 'recorders reserve the header they announce (C05)']
SRC = ['harness/spans.cpp', 'src/tracer/span.cpp', 'src/tracer/tag.cpp', 'src/common/timestamp.cpp']
I = z3.IntSort(); B = z3.BoolSort(); Z = z3.IntVal
OK, KEYIS, SAMPLED = (z3.Function(n, I, B) for n in ('is_valid_reference', 'tag_is_sampling_priority', 'tag_is_sampled'))
HIGH, LOW, SID, FL, CNT, FLAGS, TF, TSN, KN = (z3.Function(n, I, I) for n in ('trace_id_high_of', 'trace_id_of', 'span_id_of', 'flags_of', 'valid_references_below', 'flags_below', 'flags_after_tags', 'trace_state_size_of', 'tag_key_size'))
BIG = 2 ** 31


def prepare(ctx): ctx.protos()


def bit(x, k): return (x / (1 << k)) % 2
def or8(x, y): return z3.Sum([z3.If(z3.Or(bit(x, k) == 1, bit(y, k) == 1), 1 << k, 0) for k in range(8)])


class Start:
    """the collaborators of a constructor, by contract; reference i, tag j are arbitrary elements of arbitrary lists"""
    CLS = 'lightstep::Span'; SRC = SRC; KIND = 'Span'
    MEM = C33.Life.MEM
    COUNTERS = ('wr', 'mg', 'ap'); MORE = ()

    def __init__(s, ctx, name):
        s.O = ctx.offsets(['tracer/span.h', 'tracer/legacy/legacy_span.h'], {**{k: (s.CLS, k) for k in s.MEM}, **{'o.' + k: ('opentracing::StartSpanOptions', k) for k in ('start_system_timestamp', 'start_steady_timestamp', 'references', 'tags')}}, {'S': s.CLS, 'S.o': 'opentracing::StartSpanOptions'})
        s.m = ctx.module(s.SRC); s.st = st = State()
        V = lambda n: rx(r'^VfContext::%s\(' % n)
        s.e = e = Engine(s.m, name=s.KIND + '::' + name, contracts=s.own() + [
            (rx(r'^lightstep::TracerImpl::logger\(\)'), lambda g, st, a, i: [(st, Ptr(s.logger, 0))]), (rx(r'^lightstep::TracerImpl::recorder\(\)'), s.get_recorder), (rx(r'^(void )?lightstep::Logger::'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]),
            (rx(r'^std::chrono::_V2::(steady|system)_clock::now\(\)'), s.now), (rx(r'^VfRecorder::ComputeCurrentSystemTimestamp'), s.sysnow), (rx(r'^VfRecorder::ComputeSystemSteadyTimestampDelta'), s.delta),
            (rx(r'^lightstep::GetRandomNumberGenerator'), lambda g, st, a, i: [(st, Ptr(s.rng, 0))]), (rx(r'^lightstep::FastRandomNumberGenerator::operator\(\)'), s.random), (rx(r'.*lightstep::GenerateIds<2'), s.random2),
            ('__dynamic_cast', s.cast), (V('trace_id_high'), s.ctxval(HIGH, 64)), (V('trace_id_low'), s.ctxval(LOW, 64)), (V('span_id'), s.ctxval(SID, 64)), (V('trace_flags'), s.ctxval(FL, 8)), (V('trace_state'), s.ctxstate), (V('ForeachBaggageItem'), s.foreach),
            (rx(r'^lightstep::AppendTraceState\('), s.append), (rx(r'^lightstep::is_sampled\('), s.is_sampled), (rx(r'^opentracing::operator==\(opentracing::string_view'), s.equal), (rx(r'^strlen$'), s.strlen),
            (rx(r'^std::__cxx11::basic_string<.*>::(data|c_str)\('), lambda g, st, a, i: [(st, Ptr(s.keys, z3.simplify(BIG * s.tagof(g.norm_ptr(a[0])))))]), (rx(r'^std::__cxx11::basic_string<.*>::(size|length)\('), s.keysize),
            (rx(r'^std::__cxx11::basic_string<.*>::basic_string\(std::__cxx11::basic_string'), s.copy), (rx(r'^std::__cxx11::basic_string<.*>::basic_string\(\)'), noop), (rx(r'^std::__cxx11::basic_string<.*>::~basic_string'), noop),
            (rx(r'^std::function<bool \(.*\)>::~function'), noop), (rx(r'^std::shared_ptr<.*>::shared_ptr\(std::shared_ptr<.*>&&\)'), s.take), (rx(r'^std::shared_ptr<.*>::~shared_ptr'), noop)])
        e.cur = st; e.cand_rlimit = 6000000; e.candidates = int_candidates([], extra=s.cand)
        o = lambda n, k=8: e.new_obj(st, n, kind='struct', size=k)
        s.span = o('span', s.O['S']); s.logger = o('logger'); s.tracer = o('tracer'); s.rng = o('random numbers'); s.textobj = o('message')
        s.recorder = virtual_object(e, st, '10VfRecorder', 'recorder')
        s.n, s.f, s.nt = z3.Ints('references first_valid tags'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 26, s.f >= 0, s.f <= s.n, s.nt >= 0, s.nt < 2 ** 26))
        st.assume(z3.And(CNT(0) == 0, FLAGS(0) == 0, TF(0) == z3.If(CNT(s.n) == 0, 1, FLAGS(s.n)), CNT(s.n) >= 0))
        s.refs = e.new_obj(st, 'references', kind='array', stride=16, n=s.n, layout={0: ('int', 32, True), 8: ('ptr', s.refptr)}); s.refs.const = True
        vt = e.gobj('_ZTV9VfContext'); s.ctxs = e.new_obj(st, 'contexts', kind='array', stride=8, n=s.n, layout={0: ('ptr', lambda en, s_, t: Ptr(vt, 16))}); s.ctxs.const = True
        s.RT, s.RP = e.arr(st, s.refs, 0, s.refs.layout[0]), e.arr(st, s.refs, 8, s.refs.layout[8])
        s.tags = e.new_obj(st, 'tags', kind='array', stride=96, n=s.nt, layout={}); s.keys = e.new_obj(st, 'tag keys', kind='array', stride=1, layout={0: ('int', 8, False)}); s.states = e.new_obj(st, 'trace states', kind='array', stride=1, layout={0: ('int', 8, False)})
        s.k, s.v = o('baggage key', 32), o('baggage value', 32)
        s.sys, s.std, s.D = z3.Ints('given_system_start given_steady_start clock_difference'); st.assume(z3.And(s.sys >= 0, s.sys < 2 ** 61, s.std >= 0, s.std < 2 ** 61, s.D > -2 ** 61, s.D < 2 ** 61))
        s.op = o('options', s.O['S.o']); O = s.O; m = {O['o.start_system_timestamp']: (8, IV(64, s=s.sys)), O['o.start_steady_timestamp']: (8, IV(64, s=s.std))}
        for k, ob, n in (('o.references', s.refs, 16 * s.n), ('o.tags', s.tags, 96 * s.nt)):
            m[O[k]] = (8, Ptr(ob, 0)); m[O[k] + 8] = m[O[k] + 16] = (8, Ptr(ob, z3.simplify(n)))
        st.mem[s.op.id] = m
        s.nameobj = e.new_obj(st, 'name', kind='array', stride=1, layout={0: ('int', 8, False)}); s.nlen = z3.Int('name_size'); st.assume(z3.And(s.nlen >= 0, s.nlen < 2 ** 40))
        s.sp = o('tracer pointer', 16); st.mem[s.sp.id] = {0: (8, Ptr(s.tracer, 0)), 8: (8, NULL)}
        st.ghost.update(wr=Z(0), mg=Z(0), ap=Z(0), tg=Z(0), ins=Z(0), named=Z(0), started=Z(0), cur=Z(-1), gens=(), times=(), hdr=Z(0), broke=z3.BoolVal(False), sysnow=None, steady=None, taken=False, own=None)
        s.setup(st); s.global_keys(st)

    global_keys = C33.Life.global_keys; geti = C33.Life.geti; const_text = C33.Life.const_text; strlen = C33.Life.strlen
    def setup(s, st): pass

    def refptr(s, en, st, t):
        """a reference is null, of a foreign type, or valid; what is below it"""
        if not (z3.is_select(t)): raise Unsupported('reference of unknown position')
        i = t.arg(1)
        st.assume(z3.And(t >= 0, t < 2 ** 62, z3.Implies(OK(i), t != 0), z3.Implies(z3.And(i >= 0, i < s.f), z3.Not(OK(i))), z3.Implies(z3.And(i == s.f, s.f < s.n), OK(i)), CNT(i + 1) == CNT(i) + z3.If(OK(i), 1, 0), CNT(i) >= 0, CNT(i) <= i,
                         FLAGS(i + 1) == z3.If(OK(i), or8(FLAGS(i), FL(i)), FLAGS(i)), FLAGS(i) >= 0, FLAGS(i) < 256, FL(i) >= 0, FL(i) < 256, z3.Or(s.RT[i] == 1, s.RT[i] == 2)))
        return Ptr(None, t)

    def fails(s, st):
        t = st.clone(); t.gset('broke', z3.BoolVal(True))
        return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception'), 0)))

    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    def si(s, x): return zi(s.e.dom.s(s.e.as_int(x)))
    def is_name(s, p, n): return b_and(s.e.ptr_eq(p, Ptr(s.nameobj, 0)), s.u(n) == s.nlen)

    # ---- times and ids
    def now(s, g, st, a, i):
        k = 'steady' if 'steady' in g.dem(i['callee'] if isinstance(i.get('callee'), str) else str(i.get('text'))) else 'system'
        v = z3.FreshInt('now'); st.assume(z3.And(v > 0, v < 2 ** 61)); st.ghost['times'] += ((k, v),); return [(st, IV(64, u=v))]
    def sysnow(s, g, st, a, i):
        g.prove(st, z3.Or(*[s.u(a[1]) == v for k, v in st.ghost['times'] if k == 'steady'] + [z3.BoolVal(False)]), 'start: the system time is that of the steady time just read')
        v = z3.FreshInt('system_now'); st.assume(z3.And(v >= 0, v < 2 ** 61)); st.ghost['sysnow'] = (v, s.u(a[1])); return [(st, IV(64, u=v))]
    def delta(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.recorder, 0)), 'start: the recorder converts the times'); return [(st, IV(64, s=s.D))]

    def start_is(s, st, v, what):
        """the system start time"""
        G = st.ghost; sn = G['sysnow']
        s.e.prove(st, z3.If(s.sys != 0, v == s.sys, z3.If(s.std != 0, v == s.std + s.D, v == sn[0] if sn else z3.BoolVal(False))), what + ': the start time given, or converted from the steady time given, or now')
    def steady_is(s, st, v):
        sn = st.ghost['sysnow']
        s.e.prove(st, z3.If(s.std != 0, v == s.std, z3.If(s.sys != 0, v == s.sys - s.D, v == sn[1] if sn else z3.BoolVal(False))), 'start: the steady time given, or converted from the system time given, or now')

    def random(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.rng, 0)), 'ids: from the thread\'s generator'); v = z3.FreshInt('random'); st.assume(z3.And(v >= 0, v < 2 ** 64)); st.ghost['gens'] += (v,); return [(st, IV(64, u=v))]
    def random2(s, g, st, a, i):
        v = [z3.FreshInt('random') for _ in range(2)]
        for x in v: st.assume(z3.And(x >= 0, x < 2 ** 64))
        st.ghost['gens'] += tuple(v)
        if i['rt'][0] == 'void':
            for k in range(2): g.store(st, Ptr(a[0].obj, g.dom.off_add(a[0].off, 8 * k)), ir.INT(64), IV(64, u=v[k]))
            return [(st, None)]
        return [(st, tuple(IV(64, u=x) for x in v))]

    # ---- references
    def idx(s, p): p = s.e.norm_ptr(p); return z3.simplify(zi(p.off) / 8)
    def cast(s, g, st, a, i):
        p = g.norm_ptr(a[0])
        if p.obj is not None or not z3.is_select(zi(p.off)) or not zi(p.off).arg(0).eq(s.RP): raise Unsupported('dynamic_cast of something else')
        k = p.off.arg(1); g.prove(st, p.off != 0, 'references: null is not used'); t = st.clone(); st.assume(OK(k)); t.assume(z3.Not(OK(k))); st.gset('cur', k)
        return [(st, Ptr(s.ctxs, z3.simplify(8 * k))), (t, NULL)]
    def ctxval(s, F, w):
        def f(g, st, a, i): k = s.idx(a[0]); st.assume(z3.And(F(k) >= 0, F(k) < 2 ** w)); return [(st, IV(w, u=F(k)))]
        return f
    def ctxstate(s, g, st, a, i): k = s.idx(a[0]); st.assume(z3.And(TSN(k) >= 0, TSN(k) < BIG)); return [(st, (Ptr(s.states, z3.simplify(BIG * k)), IV(64, u=TSN(k))))]
    def count(s, st, k, c, what): s.e.prove(st, st.ghost[c] == CNT(k), what + ': each valid reference once, in turn'); st.gset(c, st.ghost[c] + 1)

    def append(s, g, st, a, i):
        k = st.ghost['cur']; g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.span, s.O['trace_state_'])), g.ptr_eq(a[1], Ptr(s.states, z3.simplify(BIG * k))), s.u(a[2]) == TSN(k)), 'trace state: the reference\'s is appended'); s.count(st, k, 'ap', 'trace state'); return [(st, None), s.fails(st)]

    def foreach(s, g, st, a, i):
        """calls the function for each item until it returns false; here: for an arbitrary one"""
        k = s.idx(a[0]); s.count(st, k, 'mg', 'baggage'); st.gset('ins', Z(0)); f = g.norm_ptr(a[1]); out = [(st.clone(), None)]
        for t, v in g.call_value(st, g.load(st, Ptr(f.obj, g.dom.off_add(f.off, 24)), ir.PTR), [f, Ptr(s.k, 0), Ptr(s.v, 0)]):
            if isinstance(v, Throw): out.append((t, v)); continue
            g.cur = t; g.prove(t, zb(v), 'baggage: every item of the reference is taken over'); g.prove(t, t.ghost['ins'] == 1, 'baggage: an item of a reference is taken over'); t.gset('ins', Z(0)); out.append((t, None))
        return out

    def mark(s, p):
        """the string this one is a copy of"""
        p = s.e.norm_ptr(p)
        if p.obj in (s.k, s.v): return p
        return p
    def copy(s, g, st, a, i):
        src = g.norm_ptr(a[1])
        if src.obj not in (s.k, s.v): src = g.load(st, src, ir.PTR)
        t = s.fails(st); g.store(st, a[0], ir.PTR, src); return [(st, None)] + ([] if '&&)' in i['text'] or 'OS4_' in i['text'] else [t])
    def origin(s, g, st, p):
        p = g.norm_ptr(p)
        return p if p.obj in (s.k, s.v) else g.load(st, p, ir.PTR)

    # ---- tags
    def tagof(s, p):
        if p.obj is not s.tags: raise Unsupported('text of another string')
        return z3.simplify(zi(p.off) / 96)
    def keysize(s, g, st, a, i): k = s.tagof(g.norm_ptr(a[0])); st.assume(z3.And(KN(k) >= 0, KN(k) < BIG)); return [(st, IV(64, u=KN(k)))]
    def is_key(s, p, n, k): return b_and(s.e.ptr_eq(p, Ptr(s.keys, z3.simplify(BIG * k))), s.u(n) == KN(k))
    def equal(s, g, st, a, i):
        x, y = (a[0], a[1]), (a[2], a[3])
        if s.const_text(x[0]) is not None: x, y = y, x
        t = s.const_text(y[0]); p = g.norm_ptr(x[0])
        if t is None or p.obj is not s.keys or not g.oracle(s.u(y[1]) == len(t)) is True: raise Unsupported('comparison of texts')
        k = z3.simplify(zi(p.off) / BIG); g.prove(st, s.is_key(x[0], x[1], k), 'sampling priority: whole keys are compared')
        return [(st, KEYIS(k) if t == b'sampling.priority' else z3.FreshBool('equal'))]
    def is_sampled(s, g, st, a, i):
        p = g.norm_ptr(a[0])
        if p.obj is not s.tags: raise Unsupported('sampling priority of something else')
        k = z3.simplify((zi(p.off) - 32) / 96); g.prove(st, zi(p.off) == 96 * k + 32, 'sampling priority: the tag\'s value decides'); return [(st, SAMPLED(k))]
    def tag(s, st, p, n, v):
        k = st.ghost['tg']; s.e.prove(st, b_and(k < s.nt, s.is_key(p, n, k), s.e.ptr_eq(v, Ptr(s.tags, z3.simplify(96 * k + 32)))), 'tags: each one given, in turn'); st.gset('tg', k + 1)
        x = TF(k); st.assume(z3.And(TF(k + 1) == z3.If(KEYIS(k), x - x % 2 + z3.If(SAMPLED(k), 1, 0), x)))

    def get_recorder(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.tracer, 0)), 'recorder: the tracer\'s'); return [(st, Ptr(s.recorder, 0))]
    def take(s, g, st, a, i):
        p = g.load(st, a[1], ir.PTR); g.store(st, a[0], ir.PTR, p); g.store(st, a[1], ir.PTR, NULL); return [(st, None)]

    def flags(s, st): return s.geti(st, 'trace_flags_', 8)
    def first(s, st): return None

    def cand(s, e, view):
        G = lambda w: w.st.ghost; fl = lambda w: s.flags(w.st); out = []
        out += [('%s is what it was' % k, lambda w, k=k: G(w)[k] == w.entry.ghost[k]) for k in ('wr', 'mg', 'ap', 'tg', 'named', 'started', 'hdr', 'ins') + s.MORE] + [('tags added', lambda w: G(w)['ta'] == G(w)['tg'])] * ('ta' in s.MORE) + [('references added', lambda w: G(w)['sz'] == G(w)['wr'])] * ('sz' in s.MORE)
        out += [('as failed as it was', lambda w: zb(G(w)['broke']) == zb(w.entry.ghost['broke'])), ('flags are what they were', lambda w: fl(w) == s.flags(w.entry)), ('the flags after the tags so far', lambda w: fl(w) == TF(G(w)['tg'])), ('no flags without a reference', lambda w: z3.Implies(G(w)['wr'] == 0, fl(w) == 0)), ('flags are a byte', lambda w: z3.And(fl(w) >= 0, fl(w) < 256)),
                ('ids are those of the first valid reference', lambda w: z3.Implies(G(w)['wr'] > 0, z3.And(s.ids(w.st)[0] == HIGH(s.f), s.ids(w.st)[1] == LOW(s.f)))), ('ids are what they were', lambda w: z3.And(*[x == y for x, y in zip(s.ids(w.st), s.ids(w.entry))])), ('tags taken', lambda w: z3.And(G(w)['tg'] >= 0, G(w)['tg'] <= s.nt))]
        for n, t in view.ints():
            x = lambda w, n=n: zi(w.term(w.get(n)))
            out += [('%s counts the valid references' % (n,), lambda w, x=x: x(w) == G(w)['wr']), ('%s is at the tag' % (n,), lambda w, x=x: x(w) == 96 * G(w)['tg']), ('%s is the tag' % (n,), lambda w, x=x: x(w) == G(w)['tg'])]
            for c in (16, 1):
                i = lambda w, x=x, c=c: x(w) / c
                out += [('%s is a position (%d)' % (n, c), lambda w, x=x, c=c: z3.And(x(w) >= 0, x(w) % c == 0, x(w) <= c * s.n)), ('%s: flags of the references below (%d)' % (n, c), lambda w, i=i: fl(w) == FLAGS(i(w))), ('%s: any valid below (%d)' % (n, c), lambda w, i=i: (G(w)['wr'] > 0) == (i(w) > s.f))]
                out += [('%s: references below, %s (%d)' % (n, k, c), lambda w, i=i, k=k: G(w)[k] == CNT(i(w))) for k in s.COUNTERS]
        return out

    # ---- what must be the case at the end
    def check(s, o):
        e = s.e; G = o.ghost; e.cur = o
        if o.outcome[0] == 'throw': e.prove(o, G['broke'], s.KIND + ': throws only what a step throws'); return
        e.prove(o, z3.Not(zb(G['broke'])), s.KIND + ': no failure is hidden')
        e.prove(o, b_and(G['named'] == 1), 'operation name: set once'); e.prove(o, G['started'] == 1, 'start: set once')
        for k, w in zip(s.COUNTERS, ('references', 'baggage', 'trace state')): e.prove(o, G[k] == CNT(s.n), w + ': of every valid reference')
        e.prove(o, G['tg'] == s.nt, 'tags: all of them'); s.steady_is(o, s.si(e.load(o, Ptr(s.span, s.O['start_steady_']), ir.INT(64))))
        e.prove(o, s.flags(o) == TF(s.nt), 'sampling: as in any reference or if there is none, unless sampling priority tags override it')
        hi, lo, sid = s.ids(o); R = G['gens']; none = CNT(s.n) == 0
        e.prove(o, z3.Implies(z3.Not(none), z3.And(hi == HIGH(s.f), lo == LOW(s.f))), 'ids: the trace of the first valid reference')
        two = [z3.And(lo == a, sid == b) for a in R for b in R if not a.eq(b)]
        e.prove(o, z3.Implies(none, z3.And(hi == 0, z3.Or(*two) if two else z3.BoolVal(False))), 'ids: a new trace if there is none'); e.prove(o, z3.Or(*[sid == a for a in R] + [z3.BoolVal(False)]), 'ids: a new span id')
        e.prove(o, s.geti(o, 'is_finished_', 8) == 0, 'a started span is not finished'); e.prove(o, e.ptr_eq(e.load(o, Ptr(s.span, s.O['tracer_']), ir.PTR), Ptr(s.tracer, 0)), 'tracer: the one given')
        s.more(o)


class New(Start):
    def own(s):
        P = r'^google::protobuf::io::CodedOutputStream::'
        return [(rx(r'^lightstep::ChainedStream::ChainedStream\(\)'), lambda g, st, a, i: (st.ghost.__setitem__('chain', a[0]), [(st, None), s.fails(st)])[1]), (rx(r'^lightstep::ChainedStream::~ChainedStream|^std::default_delete<lightstep::ChainedStream>::operator\(\)'), noop), (rx(P + r'~CodedOutputStream|^std::default_delete<google::protobuf::io::CodedOutputStream>::operator\(\)'), noop),
                (rx(r'^VfRecorder::ReserveHeaderSpace'), s.reserve), (rx(P + r'CodedOutputStream'), s.coded),
                (rx(r'^lightstep::WriteOperationName\('), s.w_name), (rx(r'^lightstep::WriteStartTimestamp\('), s.w_start), (rx(r'^lightstep::WriteSpanReference\('), s.w_ref), (rx(r'^lightstep::WriteTag\('), s.w_tag), (rx(r'^lightstep::FlatMap<.*>::insert_or_assign\('), s.put), (rx(r'^lightstep::FlatMap<.*>::~FlatMap'), noop)]

    def setup(s, st): st.ghost.update(chain=None, cs=None); s.hlen = z3.Int('header_size'); st.assume(z3.And(s.hlen >= 0, s.hlen < 2 ** 31)); s.hdr = s.e.new_obj(st, 'header', kind='struct', size=8)

    def ids(s, st): return [s.geti(st, k) for k in ('trace_id_high_', 'trace_id_', 'span_id_')]
    def reserve(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.recorder, 0)), g.ptr_eq(a[1], st.ghost['chain'] or NULL), st.ghost['hdr'] == 0), 'header: space is reserved in the span\'s stream, once'); g.prove(st, st.ghost['cs'] is None, 'header: before anything else is written'); t = s.fails(st)
        st.gset('hdr', Z(1)); return [(st, (Ptr(s.hdr, 0), IV(32, u=s.hlen))), t]
    def coded(s, g, st, a, i):
        if len(a) < 2: raise Unsupported('constructor of CodedOutputStream')
        g.prove(st, g.ptr_eq(a[1], st.ghost['chain'] or NULL), 'stream: the span is written to its own stream'); t = s.fails(st); st.ghost['cs'] = g.norm_ptr(a[0]); return [(st, None), t]
    def stream(s, st, p, what): s.e.prove(st, b_and(s.e.ptr_eq(p, st.ghost['cs'] or NULL), st.ghost['hdr'] == 1), what + ': written to the span\'s stream, after the header')
    def w_name(s, g, st, a, i): s.stream(st, a[0], 'operation name'); g.prove(st, s.is_name(a[1], a[2]), 'operation name: the one given'); st.gset('named', st.ghost['named'] + 1); return [(st, None), s.fails(st)]
    def w_start(s, g, st, a, i): s.stream(st, a[0], 'start'); s.start_is(st, s.si(a[1]), 'start'); st.gset('started', st.ghost['started'] + 1); return [(st, None), s.fails(st)]
    def w_ref(s, g, st, a, i):
        s.stream(st, a[0], 'references'); k = st.ghost['cur']; g.prove(st, z3.And(k >= 0, OK(k), s.u(a[1]) == s.RT[k], s.u(a[2]) == LOW(k), s.u(a[3]) == SID(k)), 'references: kind, trace and span of the reference'); s.count(st, k, 'wr', 'references'); return [(st, None), s.fails(st)]
    def w_tag(s, g, st, a, i): s.stream(st, a[0], 'tags'); s.tag(st, a[1], a[2], a[3]); return [(st, None), s.fails(st)]
    def put(s, g, st, a, i):
        k, v = s.origin(g, st, a[1]), s.origin(g, st, a[2]); g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.span, s.O['baggage_'])), g.ptr_eq(k, Ptr(s.k, 0)), g.ptr_eq(v, Ptr(s.v, 0))), 'baggage: the reference\'s key and value, into the span\'s'); st.gset('ins', st.ghost['ins'] + 1)
        return [(st, g.fresh_val(st, i['rt'], 'iterator')), s.fails(st)]

    def more(s, o):
        e = s.e; L = lambda k, d=0, t=ir.PTR: e.load(o, Ptr(s.span, s.O[k] + d), t); G = o.ghost
        e.prove(o, b_and(e.ptr_eq(L('chained_stream_'), G['chain'] or NULL)), 'stream: kept for recording'); e.prove(o, b_and(e.ptr_eq(L('header_fragment_'), Ptr(s.hdr, 0)), s.u(L('header_fragment_', 8, ir.INT(32))) == s.hlen), 'header: the one reserved')


class Old(Start):
    """LegacySpan: the fields of a protobuf message"""
    CLS = 'lightstep::LegacySpan'; MEM = C33.Old.MEM; KIND = 'LegacySpan'; COUNTERS = ('wr', 'mg', 'ap', 'sz')
    SRC = ['harness/spans.cpp', 'src/tracer/legacy/legacy_span.cpp', 'src/tracer/tag.cpp', 'src/common/timestamp.cpp']
    MORE = ('sz', 'ta', 'open', 'topen', 'kv')

    def own(s):
        S = r'^lightstep::collector::Span::'; C = r'^lightstep::collector::SpanContext::'; R = r'^lightstep::collector::Reference::'; L = r'^google::protobuf::RepeatedPtrField<lightstep::collector::%s>::'; M = r'google::protobuf::Map<std::__cxx11::basic_string<.*>::'
        return [(rx(S + r'(Span\(|~Span)'), noop), (rx(r'^google::protobuf::MessageLite::GetArenaForAllocation'), lambda g, st, a, i: [(st, NULL)]), (rx(r'^google::protobuf::internal::ArenaStringPtr::Set(Bytes)?\('), s.w_name),
                (rx(S + r'(mutable_)?span_context\('), s.part('sctx')), (rx(S + r'(mutable_)?references\('), s.part('reflist')), (rx(S + r'(mutable_)?tags\('), s.part('taglist')), (rx(S + r'(mutable_)?start_timestamp\('), s.part('ts')), (rx(C + r'(mutable_)?baggage'), s.baggage),
                (rx(C + r'set_trace_id'), s.setter(0, 64)), (rx(C + r'set_span_id'), s.setter(8, 64)), (rx(C + r'trace_id\('), s.getter(0)), (rx(C + r'span_id\('), s.getter(8)),
                (rx(R + r'(Reference\(\)|Clear\()'), s.clear), (rx(R + r'Reference\(lightstep::collector::Reference const&\)'), s.copy_ref), (rx(R + r'~'), noop), (rx(R + r'set_relationship'), s.setter(0, 32)), (rx(R + r'(mutable_)?span_context'), lambda g, st, a, i: [(st, Ptr(g.norm_ptr(a[0]).obj, g.dom.off_add(g.norm_ptr(a[0]).off, 8)))]), (rx(R + r'(operator=|CopyFrom|Swap)'), s.w_ref),
                (rx(L % 'Reference' + r'Add\('), s.add_ref), (rx(L % 'Reference' + r'size\('), lambda g, st, a, i: [(st, IV(32, s=st.ghost['sz']))]), (rx(L % 'Reference' + r'empty\('), lambda g, st, a, i: [(st, st.ghost['sz'] == 0)]), (rx(L % '(Reference|KeyValue)' + r'Reserve\('), lambda g, st, a, i: [(st, None), s.fails(st)]),
                (rx(L % 'KeyValue' + r'Add\('), s.add_tag), (rx(r'^lightstep::ToKeyValue\('), s.tokv), (rx(r'^lightstep::collector::KeyValue::(operator=|CopyFrom|Swap)'), s.w_tag), (rx(r'^(lightstep::collector::KeyValue|google::protobuf::Timestamp)::~'), noop),
                (rx(r'^lightstep::ToTimestamp\('), s.totime), (rx(r'^google::protobuf::Timestamp::(operator=|CopyFrom|Swap)'), s.w_start), (rx(M + r'operator\[\]'), s.at), (rx(r'^std::__cxx11::basic_string<.*>::operator=\('), s.put)]

    def setup(s, st):
        o = lambda n, k=16: s.e.new_obj(st, n, kind='struct', size=k)
        s.sctx, s.bag, s.reflist, s.taglist, s.ts, s.rslot, s.tslot, s.bslot, s.tsmark, s.kvmark = (o(n) for n in ('span context', 'span baggage', 'span references', 'span tags', 'start timestamp', 'added reference', 'added tag', 'baggage entry', 'converted start', 'converted tag'))
        st.mem[s.sctx.id] = {0: (8, IV(64, u=0)), 8: (8, IV(64, u=0))}; st.ghost.update({k: Z(0) for k in s.MORE}); st.gset('kv', Z(-1)); st.gset('entry', Z(0))

    def ids(s, st): return [s.geti(st, 'trace_id_high_')] + [zi(s.e.dom.u(s.e.as_int(s.e.load(st, Ptr(s.sctx, k), ir.INT(64))))) for k in (0, 8)]
    def part(s, k):
        def f(g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.span, s.O['span_'])), 'message: the span\'s own'); return [(st, Ptr(getattr(s, k), 0))]
        return f
    def baggage(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.sctx, 0)), 'baggage: of the span context'); return [(st, Ptr(s.bag, 0))]
    def setter(s, off, w):
        def f(g, st, a, i): p = g.norm_ptr(a[0]); g.store(st, Ptr(p.obj, g.dom.off_add(p.off, off)), ir.INT(w), a[1]); return [(st, None)]
        return f
    def getter(s, off):
        def f(g, st, a, i): p = g.norm_ptr(a[0]); return [(st, g.load(st, Ptr(p.obj, g.dom.off_add(p.off, off)), ir.INT(64)))]
        return f
    def clear(s, g, st, a, i):
        p = g.norm_ptr(a[0])
        for off, w in ((0, 32), (8, 64), (16, 64)): g.store(st, Ptr(p.obj, g.dom.off_add(p.off, off)), ir.INT(w), IV(w, u=0))
        return [(st, None)]
    def copy_ref(s, g, st, a, i):
        for off, w in ((0, 32), (8, 64), (16, 64)): g.store(st, Ptr(a[0].obj, g.dom.off_add(a[0].off, off)), ir.INT(w), g.load(st, Ptr(a[1].obj, g.dom.off_add(a[1].off, off)), ir.INT(w)))
        return [(st, None), s.fails(st)]

    def w_name(s, g, st, a, i):
        g.prove(st, a[0].obj is s.span, 'operation name: in the span\'s message'); g.prove(st, s.is_name(a[1], a[2]), 'operation name: the one given'); st.gset('named', st.ghost['named'] + 1); return [(st, None), s.fails(st)]
    def totime(s, g, st, a, i):
        s.start_is(st, s.si(g.load(st, a[1], ir.INT(64))), 'start'); t = s.fails(st); g.store(st, a[0], ir.PTR, Ptr(s.tsmark, 0)); return [(st, None), t]
    def w_start(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.ts, 0)), g.ptr_eq(g.load(st, a[1], ir.PTR), Ptr(s.tsmark, 0))), 'start: put into the message'); st.gset('started', st.ghost['started'] + 1); return [(st, a[0]), s.fails(st)]
    def add_ref(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.reflist, 0)), st.ghost['open'] == 0), 'references: added to the span\'s, one at a time'); t = s.fails(st); st.gset('sz', st.ghost['sz'] + 1); st.gset('open', Z(1)); return [(st, Ptr(s.rslot, 0)), t]
    def w_ref(s, g, st, a, i):
        F = lambda off, w: zi(g.dom.u(g.as_int(g.load(st, Ptr(a[1].obj, g.dom.off_add(g.norm_ptr(a[1]).off, off)), ir.INT(w)))))
        k = st.ghost['cur']; g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.rslot, 0)), st.ghost['open'] == 1), 'references: each into an entry of its own'); g.prove(st, z3.And(k >= 0, OK(k), F(0, 32) == s.RT[k] - 1, F(8, 64) == LOW(k), F(16, 64) == SID(k)), 'references: kind, trace and span of the reference')
        s.count(st, k, 'wr', 'references'); st.gset('open', Z(0)); return [(st, a[0]), s.fails(st)]
    def add_tag(s, g, st, a, i):
        p = g.norm_ptr(a[0]); g.prove(st, b_and(g.ptr_eq(p, Ptr(s.taglist, 0)), st.ghost['topen'] == 0), 'tags: added to the span\'s, one at a time'); t = s.fails(st); st.gset('ta', st.ghost['ta'] + 1); st.gset('topen', Z(1)); return [(st, Ptr(s.tslot, 0)), t]
    def tokv(s, g, st, a, i):
        k = st.ghost['tg']; g.prove(st, b_and(k < s.nt, s.is_key(a[1], a[2], k), g.ptr_eq(a[3], Ptr(s.tags, z3.simplify(96 * k + 32)))), 'tags: key and value of each one given, in turn'); t = s.fails(st); st.gset('kv', k); g.store(st, a[0], ir.PTR, Ptr(s.kvmark, 0)); return [(st, None), t]
    def w_tag(s, g, st, a, i):
        k = st.ghost['tg']; g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.tslot, 0)), st.ghost['topen'] == 1, st.ghost['kv'] == k, g.ptr_eq(g.load(st, a[1], ir.PTR), Ptr(s.kvmark, 0))), 'tags: each one converted, into an entry of its own')
        st.gset('tg', k + 1); st.gset('topen', Z(0)); st.gset('kv', Z(-1)); x = TF(k); st.assume(TF(k + 1) == z3.If(KEYIS(k), x - x % 2 + z3.If(SAMPLED(k), 1, 0), x)); return [(st, a[0]), s.fails(st)]
    def at(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.bag, 0)), g.ptr_eq(s.origin(g, st, a[1]), Ptr(s.k, 0))), 'baggage: the reference\'s key, in the span\'s'); t = s.fails(st); return [(st, Ptr(s.bslot, 0)), t]
    def put(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.bslot, 0)), g.ptr_eq(s.origin(g, st, a[1]), Ptr(s.v, 0))), 'baggage: the reference\'s value'); st.gset('ins', st.ghost['ins'] + 1); return [(st, a[0]), s.fails(st)]

    def more(s, o):
        e = s.e; G = o.ghost; L = lambda k: e.load(o, Ptr(s.span, s.O[k]), ir.PTR)
        e.prove(o, z3.And(G['sz'] == CNT(s.n), G['open'] == 0), 'references: no other'); e.prove(o, z3.And(G['ta'] == s.nt, G['topen'] == 0), 'tags: no other')
        e.prove(o, b_and(e.ptr_eq(L('logger_'), Ptr(s.logger, 0)), e.ptr_eq(L('recorder_'), Ptr(s.recorder, 0))), 'recorder and logger: the ones given')


def construct(ctx, K):
    w = KINDS[K](ctx, K); e = w.e; st = w.st; a = [Ptr(w.span, 0), Ptr(w.sp, 0)] + ([Ptr(w.logger, 0), Ptr(w.recorder, 0)] if K == 'LegacySpan' else []) + [Ptr(w.nameobj, 0), IV(64, u=w.nlen), Ptr(w.op, 0)]
    outs = e.run(findre(w.m, e, r'^lightstep::%s::%s\(' % (K, K)), st, a); reachable(e, outs)
    for o in outs: w.check(o)
    return e


KINDS = {'Span': New, 'LegacySpan': Old}


def units(ctx):
    return [Unit('Span, constructor', lambda c: construct(c, 'Span'), ['Span::Span', 'Span::SetSpanReference', 'ComputeStartTimestamps', 'ToSystemTimestamp', 'ToSteadyTimestamp', 'SetTraceFlag'], 300),
            Unit('LegacySpan, constructor', lambda c: construct(c, 'LegacySpan'), ['LegacySpan::LegacySpan', 'LegacySpan::SetSpanReference', 'ComputeStartTimestamps', 'GenerateId'], 300)]


def natives(ctx): return C33.natives(ctx)[:1]
