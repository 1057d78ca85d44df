"""C33: span lifecycle - a sampled span is recorded exactly once with everything set before its finish, whatever the order of calls."""
import re
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)', 'nobody uses a span while it is being destroyed',
               'the texts, values and log records passed in do not change during the call; logging does not throw', 'a span whose fields cannot be written (out of memory) may be dropped']
TRUSTED = ['Write* serialization functions write the field they are given (proved as C31)', 'SpinLockMutex excludes and publishes (proved as C21)', 'FlatMap::find and insert_or_assign (proved as C14)', 'std::mutex excludes', 'recorders take what they are given (C30, C05)']
SRC = ['harness/spans.cpp', 'src/tracer/span.cpp', 'src/tracer/tag.cpp']
I = z3.IntSort(); Z = z3.IntVal
TS, FB, FE = (z3.Function(n, I, I) for n in ('log_time', 'log_fields_begin', 'log_fields_end'))
HIT, GO = z3.Function('more_wanted_after', I, z3.BoolSort()), None


def prepare(ctx): ctx.protos()


class Life:
    """a span, its collaborators by contract; guarded data may change whenever the lock is not held"""
    CLS = 'lightstep::Span'; MEM = ['mutex_', 'chained_stream_', 'header_fragment_', 'coded_stream_', 'start_steady_', 'is_finished_', 'tracer_', 'trace_id_high_', 'trace_id_', 'span_id_', 'trace_flags_', 'baggage_', 'trace_state_']
    SRC = SRC
    finish = False; SIZES = {}
    STABLE = True       # is the finished flag guarded by the lock

    def __init__(s, ctx, name, exclusive=False):
        s.O = ctx.offsets(['tracer/span.h', 'tracer/legacy/legacy_span.h'], {k: (s.CLS, k) for k in s.MEM}, {'S': s.CLS, **s.SIZES})
        s.m = ctx.module(s.SRC); s.st = st = State()
        s.e = e = Engine(s.m, name=name, on_atomic=s.rely, after_atomic=s.step, contracts=s.own() + [
            (rx(r'^lightstep::SpinLockMutex::lock\(|^std::mutex::lock\('), s.lock), (rx(r'^lightstep::SpinLockMutex::unlock\(|^std::mutex::unlock\('), s.unlock),
            (rx(r'^lightstep::TracerImpl::logger\(\)'), lambda g, st, a, i: [(st, Ptr(s.logger, 0))]), (rx(r'^lightstep::TracerImpl::recorder\(\)'), lambda g, st, a, i: [(st, Ptr(s.recorder, 0))]),
            (rx(r'^(void )?lightstep::Logger::'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]),
            (rx(r'^std::chrono::_V2::(steady|system)_clock::now\(\)'), s.now), (rx(r'^lightstep::ToLower'), s.tolower), (rx(r'^lightstep::is_sampled\('), s.is_sampled), (rx(r'^opentracing::operator==\(opentracing::string_view'), s.equal),
            (rx(r'^strlen$'), s.strlen), (rx(r'^std::function<bool \(.*\)>::operator\(\)'), s.visit),
            (rx(r'^std::__cxx11::basic_string<.*>::basic_string\(char const\*, unsigned long'), s.str_chars), (rx(r'^std::__cxx11::basic_string<.*>::basic_string\(std::__cxx11::basic_string'), s.str_copy), (rx(r'^std::__cxx11::basic_string<.*>::basic_string\(\)'), s.str_none), (rx(r'^std::__cxx11::basic_string<.*>::~basic_string'), noop),
            (rx(r'^std::__cxx11::basic_string<.*>::(data|c_str)\('), lambda g, st, a, i: [(st, s.stext(st, a[0])[0])]), (rx(r'^std::__cxx11::basic_string<.*>::(size|length)\('), lambda g, st, a, i: [(st, s.stext(st, a[0])[1])]),
            (rx(r'expected<void> lightstep::InjectSpanContext<.*TraceContext const&'), s.inject)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand)
        o = lambda n, k=8: e.new_obj(st, n, kind='struct', size=k)
        s.span = o('span', s.O['S']); s.logger = o('logger'); s.tracer = o('tracer'); s.textobj = e.new_obj(st, 'message', kind='array', stride=1, layout={0: ('int', 8, False)})
        s.recorder = virtual_object(e, st, '10VfRecorder', 'recorder')
        s.flags0 = z3.Int('flags0'); s.fin0 = z3.Int('finished0'); st.assume(z3.And(s.flags0 >= 0, s.flags0 < 256, z3.Or(s.fin0 == 0, s.fin0 == 1)))
        s.start = z3.Int('start'); st.assume(z3.And(s.start >= 0, s.start < 2 ** 62))
        # given values
        s.givens = {}
        s.value = e.new_obj(st, 'value', kind='struct', size=64)
        s.SAMPLED, s.KEYIS = z3.Bools('value_is_sampled key_is_sampling_priority')
        st.ghost.update(held=exclusive, wrote=Z(0), dur=Z(0), ctx=Z(0), foot=Z(0), trim=Z(0), rec=Z(0), open=Z(1), li=Z(0), broke=z3.BoolVal(False), won=z3.BoolVal(False), fin=s.fin0, locks=0, times=(), str={}, visited=Z(0), go=True, injected=0, put=None, found=None, flags=s.flags0, snap=None, tmplog=Z(-1), tmpobj=Z(-1))
        s.exclusive = exclusive; s.n = z3.Int('logs'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 30))
        s.setup(st)
        s.global_keys(st)

    # ---- pieces
    def global_keys(s, st):
        """constants built at start-up"""
        e = s.e
        for n, f in s.m.funcs.items():
            if 'var_init' in n and any('SamplingPriorityKey' in i['text'] or 'sampling_priority' in i['text'] for b in f.blocks.values() for i in b):
                r = e.call_value(st, n, [])
                if len(r) == 1: st = r[0][0]
        s.st = e.cur = st

    def geti(s, st, k, w=64): return zi(s.e.dom.u(s.e.as_int(s.e.load(st, Ptr(s.span, s.O[k]), ir.INT(w)))))
    def seti(s, st, k, v, w=64): m = dict(st.mem[s.span.id]); m[s.O[k]] = (w // 8, IV(w, u=zi(v))); st.mem[s.span.id] = m
    def sym(s, st, n, hi=2 ** 64): v = z3.Int(n); st.assume(z3.And(v >= 0, v < hi)); return v
    def own(s): return []

    def setup(s, st):
        e = s.e; O = s.O
        s.chain = e.new_obj(st, 'chained stream', kind='struct', size=64); s.hdr = e.new_obj(st, 'header', kind='array', stride=1, layout={0: ('int', 8, False)}); s.hlen = s.sym(st, 'header_size', 2 ** 31)
        s.ids = [s.sym(st, n) for n in ('trace_id_high', 'trace_id', 'span_id')]
        m = st.mem[s.span.id]
        m[O['chained_stream_']] = (8, Ptr(s.chain, 0)); s.cs = Ptr(s.span, O['coded_stream_'])
        if O['C'] == 8: s.cs = Ptr(e.new_obj(st, 'coded stream', kind='struct', size=80, heap=True), 0); m = st.mem[s.span.id]; m[O['coded_stream_']] = (8, s.cs)
        m[O['header_fragment_']] = (8, Ptr(s.hdr, 0)); m[O['header_fragment_'] + 8] = (4, IV(32, u=s.hlen)); m[O['tracer_']] = (8, Ptr(s.tracer, 0)); m[O['tracer_'] + 8] = (8, NULL)
        for k, v in zip(('trace_id_high_', 'trace_id_', 'span_id_'), s.ids): s.seti(st, k, v)
        s.seti(st, 'start_steady_', s.start); m = st.mem[s.span.id]
        s.seti(st, 'is_finished_', s.fin0, 8); s.seti(st, 'trace_flags_', s.flags0, 8); m = st.mem[s.span.id]
        s.nb = s.sym(st, 'baggage_items', 2 ** 30); s.items = e.new_obj(st, 'baggage items', kind='array', stride=64, layout={}, n=s.nb)
        m[O['baggage_']] = (8, Ptr(s.items, 0)); m[O['baggage_'] + 8] = (8, Ptr(s.items, z3.simplify(64 * s.nb))); m[O['baggage_'] + 16] = (8, Ptr(s.items, z3.simplify(64 * s.nb)))
        s.tstate = e.new_obj(st, 'trace state', kind='array', stride=1, layout={0: ('int', 8, False)}); s.tslen = s.sym(st, 'trace_state_size', 2 ** 31)
        st.ghost['str'] = {(s.span.id, O['trace_state_']): (Ptr(s.tstate, 0), IV(64, u=s.tslen))}

    def opts(s, st):
        """finish options: n log records"""
        e = s.e; s.fields = e.new_obj(st, 'log fields', kind='array', stride=96, layout={})
        s.logs = e.new_obj(st, 'log records', kind='array', stride=32, n=s.n, layout={0: ('int', 64, False), 8: ('ptr', lambda en, s_, t: Ptr(s.fields, 96 * t)), 16: ('ptr', lambda en, s_, t: Ptr(s.fields, 96 * t)), 24: ('ptr', None)}); s.logs.const = True
        s.LT, s.LB, s.LE = (e.arr(st, s.logs, k, s.logs.layout[k]) for k in (0, 8, 16))
        x = z3.Int('x'); st.assume_q(z3.ForAll([x], z3.And(s.LB[x] >= 0, s.LE[x] >= s.LB[x], s.LE[x] < 2 ** 40), patterns=[s.LB[x]])); st.assume_q(z3.ForAll([x], z3.And(s.LB[x] >= 0, s.LE[x] >= s.LB[x], s.LE[x] < 2 ** 40), patterns=[s.LE[x]]))
        s.op = e.new_obj(st, 'options', kind='struct', size=32); s.fts = s.sym(st, 'finish_time', 2 ** 62)
        end = Ptr(s.logs, z3.simplify(32 * s.n))
        st.mem[s.op.id] = {0: (8, IV(64, u=s.fts)), 8: (8, Ptr(s.logs, 0)), 16: (8, end), 24: (8, end)}
        return Ptr(s.op, 0)

    def given(s, st, name):
        """a text passed in: string_view by value"""
        o = s.e.new_obj(st, name, kind='array', stride=1, layout={0: ('int', 8, False)}); n = s.sym(st, name + '_size', 2 ** 40); s.givens[name] = (o, n)
        return [Ptr(o, 0), IV(64, u=n)]

    def is_given(s, p, n, name):
        o, k = s.givens[name]
        return b_and(s.e.ptr_eq(p, Ptr(o, 0)), zi(s.e.dom.u(s.e.as_int(n))) == k)

    # ---- interference
    def disturb(s, st):
        """other threads use the span"""
        if s.exclusive: return
        G = st.ghost
        f = z3.FreshInt('finished'); st.assume(z3.And(f >= G['fin'], f <= 1)); s.seti(st, 'is_finished_', f, 8); st.gset('fin', f)
        v = z3.FreshInt('flags'); st.assume(z3.And(v >= 0, v < 256)); s.seti(st, 'trace_flags_', v, 8); st.gset('flags', v)

    def lock(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.span, s.O['mutex_'])), 'lock: the span\'s own lock'); g.prove(st, not st.ghost['held'], 'lock: not taken twice')
        s.disturb(st); st.ghost['held'] = True; st.ghost['locks'] += 1; out = s.recorded_before(st)
        for t in out: s.taken(t)
        return [(t, None) for t in out]

    def recorded_before(s, st): return [st]

    def taken(s, st): st.ghost['at'] = dict(chain='chained_stream_' not in s.O or s.e.load(st, Ptr(s.span, s.O['chained_stream_']), ir.PTR).obj is not None, fin=s.geti(st, 'is_finished_', 8), flags=s.geti(st, 'trace_flags_', 8))

    def unlock(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.span, s.O['mutex_'])), 'lock: the span\'s own lock'); g.prove(st, st.ghost['held'], 'lock: released only by its holder')
        s.release(st); s.disturb(st); st.ghost['held'] = False
        return [(st, None)]

    def release(s, st):
        fin = s.geti(st, 'is_finished_', 8); st.ghost['snap'] = dict(fin=fin, flags=s.geti(st, 'trace_flags_', 8)); st.gset('fin', fin)

    def rely(s, e, st, ins, p):
        if p.obj is not s.span or (st.ghost['held'] and s.STABLE) or s.exclusive: return None
        f = z3.FreshInt('finished'); st.assume(z3.And(f >= st.ghost['fin'], f <= 1)); s.seti(st, 'is_finished_', f, 8); st.gset('fin', f)
        return [st]

    def step(s, e, pre, st, ins, p, kind, old, new):
        if p.obj is not s.span or kind in ('load', 'casfail'): return
        o, n = zi(e.dom.u(e.as_int(old))), zi(e.dom.u(e.as_int(new)))
        e.prove(st, n == 1, 'finish: a finished span stays finished')
        if kind == 'store': e.prove(st, z3.BoolVal(bool(s.STABLE and st.ghost['held'])), 'finish: the flag is set by an indivisible test and set, or under the lock')
        if s.STABLE and not st.ghost['held'] and not s.exclusive: e.prove(st, o == 1, 'finish: the span is finished under its lock')
        w = st.ghost['won']; st.gset('won', z3.simplify(z3.Or(zb(w), o == 0))); st.gset('fin', z3.IntVal(1))

    def held(s, st, what): s.e.prove(st, bool(st.ghost['held']), what + ': the span is used under its lock only')

    def fails(s, st, broke=True):
        t = st.clone()
        if broke: t.gset('broke', z3.BoolVal(True))
        return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception'), 0)))

    # ---- contracts
    def now(s, g, st, a, i):
        k = 'steady' if 'steady' in g.dem(i['callee'] if isinstance(i.get('callee'), str) else str(i.get('text'))) else 'system'
        v = z3.FreshInt('now'); st.assume(z3.And(v >= 0, v < 2 ** 62)); st.ghost['times'] = st.ghost['times'] + ((k, v),); return [(st, IV(64, u=v))]

    def is_sampled(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.value, 0)), 'sampling priority: the value given decides'); return [(st, s.SAMPLED)]

    def const_text(s, p):
        p = s.e.norm_ptr(p)
        if p.obj is None or getattr(p.obj, 'table', None) is None or not is_c(p.off): return None
        return bytes(x & 255 for x in p.obj.table)[p.off:].split(b'\0')[0]

    def strlen(s, g, st, a, i):
        t = s.const_text(a[0])
        if t is None: raise Unsupported('length of a text')
        return [(st, g.dom.const(64, len(t)))]

    def equal(s, g, st, a, i):
        x, y = (a[0], a[1]), (a[2], a[3])
        if s.const_text(x[0]) is not None: x, y = y, x
        t = s.const_text(y[0]); n = g.dom.u(g.as_int(y[1]))
        if t is None or not g.oracle(zi(n) == len(t)) is True: raise Unsupported('comparison of texts')
        g.prove(st, s.is_given(x[0], x[1], 'key'), 'sampling priority: the key given is compared')
        return [(st, s.KEYIS if t == b'sampling.priority' else z3.FreshBool('equal'))]

    # strings: which text they hold
    def sk(s, p):
        p = s.e.norm_ptr(p)
        if not is_c(p.off): return (p.obj.id, z3.simplify(zi(p.off)).sexpr())
        return (p.obj.id, p.off)
    def sput(s, st, p, v): d = dict(st.ghost['str']); d[s.sk(p)] = v; st.ghost['str'] = d
    def sget(s, st, p): return st.ghost['str'].get(s.sk(p), ('at', p))

    def stext(s, st, p):
        v = s.sget(st, p)
        if not isinstance(v[0], Ptr): raise Unsupported('bytes of a string')
        return v
    def str_chars(s, g, st, a, i): s.sput(st, a[0], (a[1], a[2])); return [(st, None), s.fails(st)]
    def str_copy(s, g, st, a, i): s.sput(st, a[0], s.sget(st, a[1])); r = [(st, None)]; return r if '&&)' in i['text'] or 'OS4_' in i['text'] else r + [s.fails(st)]
    def str_none(s, g, st, a, i): s.sput(st, a[0], ('empty', None)); return [(st, None)]
    def tolower(s, g, st, a, i):
        g.prove(st, s.is_given(a[1], a[2], 'key'), 'baggage: the key given is lowercased'); s.sput(st, a[0], ('lower', None)); return [(st, None), s.fails(st)]

    def visit(s, g, st, a, i):
        """the caller's function is called with an item: key and value"""
        s.held(st, 'baggage'); v = st.ghost['visited']
        g.prove(st, zb(st.ghost['go']), 'baggage: visiting stops when told so'); g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.fn, 0))), 'baggage: the function given is called')
        g.prove(st, b_and(g.ptr_eq(a[1], Ptr(s.items, z3.simplify(64 * v))), g.ptr_eq(a[2], Ptr(s.items, z3.simplify(64 * v + 32))), v < s.nb), 'baggage: each item in turn')
        st.gset('visited', v + 1); st.gset('go', HIT(v)); u = st.clone(); u.gset('broke', z3.BoolVal(True))
        return [(st, HIT(v)), (u, Throw('_ZTISt13runtime_error', Ptr(virtual_object(g, u, '7VfError', 'exception'), 0)))]

    def inject(s, g, st, a, i):
        """sret, options, carrier, trace context, trace state, baggage"""
        s.held(st, 'Inject'); ret, op, carrier, tc, tp, tn, bag = a; T = s.T
        g.prove(st, b_and(g.ptr_eq(op, Ptr(s.popts, 0)), g.ptr_eq(carrier, Ptr(s.carrier, 0))), 'Inject: with the options and carrier given')
        f = lambda k, w=64: zi(g.dom.u(g.as_int(g.load(st, Ptr(tc.obj, g.dom.off_add(tc.off, T[k])), ir.INT(w)))))
        for k, v in zip(('trace_id_high', 'trace_id_low', 'parent_id'), s.ids): g.prove(st, f(k) == v, 'Inject: the span\'s own ids, ' + k)
        g.prove(st, f('trace_flags', 8) == s.geti(st, 'trace_flags_', 8), 'Inject: the span\'s flags')
        g.prove(st, s.is_state(st, tp, tn), 'Inject: the span\'s trace state'); g.prove(st, s.is_baggage(st, bag), 'Inject: the span\'s baggage')
        g.prove(st, g.ptr_eq(ret, Ptr(s.ret, 0)), 'Inject: the outcome is returned'); st.ghost['injected'] += 1
        return [(st, None), s.fails(st)]

    def is_state(s, st, p, n): return b_and(s.e.ptr_eq(p, Ptr(s.tstate, 0)), zi(s.e.dom.u(s.e.as_int(n))) == s.tslen)
    def is_baggage(s, st, p): return s.e.ptr_eq(p, Ptr(s.span, s.O['baggage_']))

    GH = ('wrote', 'dur', 'ctx', 'foot', 'trim', 'rec', 'open', 'li', 'visited')

    def cand(s, e, view):
        g = lambda w: w.st.ghost
        out = [('%s is what it was' % k, lambda w, k=k: g(w)[k] == w.entry.ghost[k]) for k in s.GH] + [('logs written', lambda w: z3.And(g(w)['li'] >= 0, g(w)['li'] <= s.n)), ('items visited', lambda w: z3.And(g(w)['visited'] >= 0, g(w)['visited'] <= s.nb)), ('visiting goes on', lambda w: zb(g(w)['go']))]
        out += [('finished is what it was', lambda w: g(w)['fin'] == w.entry.ghost['fin']), ('as failed as it was', lambda w: zb(g(w)['broke']) == zb(w.entry.ghost['broke'])), ('finished by this call', lambda w: zb(g(w)['won']) == zb(w.entry.ghost['won']))]
        for n, t in view.ints():
            x = lambda w, n=n: zi(w.term(w.get(n)))
            out += [('%s is at the log' % (n,), lambda w, x=x: x(w) == 32 * g(w)['li']), ('%s is the log' % (n,), lambda w, x=x: x(w) == g(w)['li']), ('%s is at the item' % (n,), lambda w, x=x: x(w) == 64 * g(w)['visited']), ('%s is the item' % (n,), lambda w, x=x: x(w) == g(w)['visited'])]
        return out


class New(Life):
    """Span: serialized as it goes"""
    SIZES = {'C': 'decltype(static_cast<lightstep::Span*>(nullptr)->coded_stream_)'}

    def recorded_before(s, st):
        """a span recorded before has handed over its stream"""
        if s.exclusive: return [st]
        t = st.clone(); t.assume(t.ghost['fin'] == 1); s.gone(t); return [st, t]

    def gone(s, t):
        m = dict(t.mem[s.span.id]); m[s.O['chained_stream_']] = (8, NULL)
        if s.O['C'] == 8: m[s.O['coded_stream_']] = (8, NULL)
        t.mem[s.span.id] = m; t.gset('open', Z(0))

    def own(s):
        return [(rx(r'^lightstep::WriteOperationName\('), s.w_name), (rx(r'^lightstep::WriteTag\('), s.w_tag), (rx(r'^lightstep::WriteLog\('), s.w_log), (rx(r'^lightstep::WriteDuration\('), s.w_dur), (rx(r'^lightstep::WriteSpanContext\('), s.w_ctx),
                (rx(r'^VfRecorder::WriteFooter\('), s.footer), (rx(r'^google::protobuf::io::CodedOutputStream::Trim\(\)'), s.trim), (rx(r'^VfRecorder::RecordSpan\(lightstep::Fragment|^VfRecorder::RecordSpan\(std::pair<void\*, int>'), s.record),
                (rx(r'^google::protobuf::io::CodedOutputStream::~CodedOutputStream'), s.close), (rx(r'^lightstep::ChainedStream::~ChainedStream|^std::default_delete<lightstep::ChainedStream>::operator\(\)'), s.free_chain), (rx(r'^std::shared_ptr<lightstep::TracerImpl const>::~shared_ptr'), noop),
                (rx(r'^lightstep::FlatMap<.*>::~FlatMap'), noop), (rx(r'^lightstep::FlatMap<.*>::insert_or_assign\('), s.put), (rx(r'lightstep::FlatMap<.*>::find<'), s.find)]

    def stream(s, st, p, what): s.held(st, what); s.e.prove(st, b_and(s.e.ptr_eq(p, s.cs), st.ghost['open'] == 1), what + ': written to the span\'s stream')

    def setting(s, st, p, what):
        s.stream(st, p, what); s.e.prove(st, s.geti(st, 'is_finished_', 8) == 0, what + ': nothing is written to a finished span')
        s.e.prove(st, st.ghost['wrote'] == 0, what + ': written once'); st.gset('wrote', st.ghost['wrote'] + 1)

    def finishing(s, st, p, what):
        """before the footer, by the call that finishes a sampled span"""
        s.stream(st, p, what); G = st.ghost
        s.e.prove(st, z3.And(G['at']['fin'] == 0), what + ': written by the call that finishes the span'); s.e.prove(st, G['at']['flags'] % 2 == 1, what + ': only if the span is sampled')
        s.e.prove(st, z3.And(G['foot'] == 0, G['trim'] == 0, G['rec'] == 0), what + ': the span is complete before its footer')

    def w_name(s, g, st, a, i): s.setting(st, a[0], 'SetOperationName'); g.prove(st, s.is_given(a[1], a[2], 'name'), 'SetOperationName: the name given'); return [(st, None), s.fails(st)]
    def w_tag(s, g, st, a, i): s.setting(st, a[0], 'SetTag'); g.prove(st, b_and(s.is_given(a[1], a[2], 'key'), g.ptr_eq(a[3], Ptr(s.value, 0))), 'SetTag: the key and value given'); return [(st, None), s.fails(st)]

    def w_log(s, g, st, a, i):
        if s.finish:
            s.finishing(st, a[0], 'log records'); k = st.ghost['li']
            g.prove(st, b_and(k < s.n, zi(g.dom.u(g.as_int(a[1]))) == s.LT[k]), 'log records: each one given, in turn, with its time')
            g.prove(st, g.ptr_eq(a[2], Ptr(s.fields, 96 * s.LB[k])), 'log records: with its fields, from the first')
            g.prove(st, g.ptr_eq(a[3], Ptr(s.fields, 96 * s.LE[k])), 'log records: with its fields, to the last')
            st.gset('li', k + 1); return [(st, None), s.fails(st, False)]
        s.setting(st, a[0], 'Log'); T = [v for k, v in st.ghost['times'] if k == 'system']
        g.prove(st, z3.Or(*[zi(g.dom.u(g.as_int(a[1]))) == v for v in T]) if T else False, 'Log: at the time of the call')
        g.prove(st, b_and(g.ptr_eq(a[2], Ptr(s.logf, 0)), g.ptr_eq(a[3], Ptr(s.logf, z3.simplify(80 * s.nf)))), 'Log: all of the fields given'); return [(st, None), s.fails(st)]

    def w_dur(s, g, st, a, i):
        s.finishing(st, a[0], 'duration'); T = [v for k, v in st.ghost['times'] if k == 'steady']; d = zi(g.dom.s(g.as_int(a[1])))
        g.prove(st, z3.If(s.fts != 0, d == s.fts - s.start, z3.Or(*[d == v - s.start for v in T]) if T else z3.BoolVal(False)), 'duration: from the start to the finish time given, or to now')
        g.prove(st, st.ghost['dur'] == 0, 'duration: written once'); st.gset('dur', st.ghost['dur'] + 1); return [(st, None), s.fails(st)]

    def w_ctx(s, g, st, a, i):
        s.finishing(st, a[0], 'span context'); u = lambda x: zi(g.dom.u(g.as_int(x)))
        g.prove(st, b_and(u(a[1]) == s.ids[1], u(a[2]) == s.ids[2], s.is_baggage(st, a[3])), 'span context: the span\'s own ids and baggage')
        g.prove(st, st.ghost['ctx'] == 0, 'span context: written once'); st.gset('ctx', st.ghost['ctx'] + 1); return [(st, None), s.fails(st)]

    def footer(s, g, st, a, i):
        s.finishing(st, a[1], 'footer'); G = st.ghost; g.prove(st, g.ptr_eq(a[0], Ptr(s.recorder, 0)), 'footer: by the recorder')
        g.prove(st, z3.And(G['dur'] == 1, G['ctx'] == 1, G['li'] == s.n), 'footer: after the duration, every log record and the context')
        st.gset('foot', G['foot'] + 1); return [(st, None), s.fails(st)]

    def trim(s, g, st, a, i):
        s.stream(st, a[0], 'Trim'); g.prove(st, st.ghost['rec'] == 0, 'Trim: before the stream is handed over')
        st.gset('trim', st.ghost['foot']); return [(st, None), s.fails(st)]

    def close(s, g, st, a, i):
        """its destructor gives unused space back to the stream"""
        s.stream(st, a[0], 'closing the stream'); g.prove(st, st.ghost['rec'] == 0, 'closing the stream: before it is handed over')
        st.gset('trim', st.ghost['foot']); st.gset('open', Z(0)); return [(st, None)]

    def record(s, g, st, a, i):
        s.held(st, 'recording'); G = st.ghost
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.recorder, 0)), g.ptr_eq(a[1], Ptr(s.hdr, 0)), zi(g.dom.u(g.as_int(a[2]))) == s.hlen), 'recording: with the header reserved at the start')
        g.prove(st, g.ptr_eq(g.load(st, a[3], ir.PTR), Ptr(s.chain, 0)), 'recording: the span\'s serialization is handed over')
        g.prove(st, z3.And(G['trim'] == 1, G['rec'] == 0), 'recording: once, complete and flushed to the stream'); g.prove(st, G['open'] == 0, 'recording: the span keeps no access to a stream it hands over'); st.gset('rec', G['rec'] + 1)
        g.store(st, a[3], ir.PTR, NULL); return [(st, None)]

    def free_chain(s, g, st, a, i): g.prove(st, st.ghost['open'] == 0, 'the stream is closed before it is freed'); g.prove(st, zb(s.exclusive), 'the stream is freed with the span only'); return [(st, None)]

    def put(s, g, st, a, i):
        """this, key&&, value&&"""
        s.held(st, 'SetBaggageItem'); g.prove(st, s.is_baggage(st, a[0]), 'SetBaggageItem: the span\'s baggage'); g.prove(st, s.geti(st, 'is_finished_', 8) == 0, 'SetBaggageItem: a finished span stays as recorded')
        k, v = s.sget(st, a[1]), s.sget(st, a[2]); g.prove(st, k[0] == 'lower', 'SetBaggageItem: under the lowercased key')
        g.prove(st, s.is_given(v[0], v[1], 'value') if isinstance(v[0], Ptr) else False, 'SetBaggageItem: the value given'); g.prove(st, st.ghost['wrote'] == 0, 'SetBaggageItem: once'); st.gset('wrote', st.ghost['wrote'] + 1)
        return [(st, g.fresh_val(st, i['rt'], 'iterator')), s.fails(st)]

    def find(s, g, st, a, i):
        s.held(st, 'BaggageItem'); g.prove(st, b_and(s.is_baggage(st, a[0])), 'BaggageItem: the span\'s baggage'); g.prove(st, s.sget(st, a[1])[0] == 'lower', 'BaggageItem: looked up by the lowercased key')
        k = z3.Int('found_at'); t = st.clone(); st.assume(z3.And(k >= 0, k < s.nb)); st.ghost['found'] = k; t.ghost['found'] = False
        return [(st, Ptr(s.items, z3.simplify(64 * k))), (t, Ptr(s.items, z3.simplify(64 * s.nb)))]

    def same(s, o, what, moved=False):
        """the rest of the span is as it was"""
        e = s.e; O = s.O; G = o.ghost
        for k, v in zip(('trace_id_high_', 'trace_id_', 'span_id_'), s.ids): e.prove(o, s.geti(o, k) == v, what + ': the ids stay, ' + k)
        e.prove(o, s.geti(o, 'start_steady_') == s.start, what + ': the start time stays')
        if not moved and G.get('at', {}).get('chain', True): e.prove(o, s.e.ptr_eq(s.e.load(o, Ptr(s.span, O['chained_stream_']), ir.PTR), Ptr(s.chain, 0)), what + ': the stream stays')
        e.prove(o, not o.ghost['held'] or s.exclusive, what + ': the lock is released')

    def finished(s, o, what, at):
        e = s.e; G = o.ghost
        rec = G['rec']; end = G['snap'] or dict(fin=s.geti(o, 'is_finished_', 8))
        e.prove(o, end['fin'] == 1, what + ': the span is finished')
        e.prove(o, z3.Implies(z3.Or(at['fin'] != 0, at['flags'] % 2 == 0), rec == 0), what + ': a span finished before or not sampled is not recorded')
        e.prove(o, z3.Implies(z3.And(z3.Not(G['broke']), at['fin'] == 0, at['flags'] % 2 == 1), rec == 1), what + ': a sampled span is recorded, once, by the call that finishes it')


class Old(Life):
    """LegacySpan: a protobuf message, recorded (copied) when finished; the finished flag is not guarded by the lock"""
    CLS = 'lightstep::LegacySpan'; MEM = ['mutex_', 'span_', 'start_steady_', 'is_finished_', 'tracer_', 'trace_id_high_', 'trace_flags_', 'trace_state_', 'logger_', 'recorder_']
    SRC = ['harness/spans.cpp', 'src/tracer/legacy/legacy_span.cpp', 'src/tracer/tag.cpp']; STABLE = False

    def own(s):
        S = r'^lightstep::collector::Span::'; R = r'google::protobuf::RepeatedPtrField<lightstep::collector::%s>::'; M = r'^google::protobuf::Map<std::__cxx11::basic_string<.*>::'
        it = lambda f: (lambda g, st, a, i: f(g, st, a, i))
        return [(rx(S + r'(mutable_)?span_context\('), s.part('sctx')), (rx(S + r'(mutable_)?tags\(\)'), s.part('tags')), (rx(S + r'(mutable_)?logs\(\)'), s.part('logrecs')), (rx(r'^lightstep::collector::SpanContext::(mutable_)?baggage'), s.part('bag')),
                (rx(r'^lightstep::collector::SpanContext::trace_id\('), lambda g, st, a, i: [(st, IV(64, u=s.ids[1]))]), (rx(r'^lightstep::collector::SpanContext::span_id\('), lambda g, st, a, i: [(st, IV(64, u=s.ids[2]))]),
                (rx(S + r'set_duration_micros\('), s.w_dur), (rx(r'^(void )?lightstep::collector::Span::set_operation_name'), s.w_name0), (rx(r'^google::protobuf::internal::ArenaStringPtr::Set(Bytes)?\('), s.w_name), (rx(r'^google::protobuf::MessageLite::GetArenaForAllocation'), lambda g, st, a, i: [(st, NULL)]),
                (rx(R % 'KeyValue' + r'Add\(\)|^lightstep::collector::Span::add_tags\('), s.add('tags')), (rx(R % 'Log' + r'Add\(\)|^lightstep::collector::Span::add_logs\('), s.add('logrecs')), (rx(R % '(KeyValue|Log)' + r'Reserve\('), noop), (rx(R % '(KeyValue|Log)' + r'size\('), lambda g, st, a, i: [(st, IV(32, s=s.sym(st, 'size%d' % next(Obj.ids), 2 ** 30)))]),
                (rx(r'^lightstep::ToKeyValue\('), s.tokv), (rx(r'lightstep::ToLog<'), s.tolog), (rx(r'^lightstep::collector::(KeyValue|Log)::(operator=|CopyFrom|Swap)'), s.assign), (rx(r'^lightstep::collector::(KeyValue|Log|Span)::~'), noop),
                (rx(M + r'find<|' + M + r'find\('), s.find), (rx(M + r'end\('), lambda g, st, a, i: s.iter(st, a, s.nb)), (rx(M + r'begin\('), lambda g, st, a, i: s.iter(st, a, Z(0))), (rx(r'^google::protobuf::operator(!=|==)\(google::protobuf::Map<'), s.itercmp),
                (rx(M + r'const_iterator::operator(\*|->)'), lambda g, st, a, i: [(st, Ptr(s.items, z3.simplify(64 * s.idx(st, a[0]))))]), (rx(M + r'const_iterator::operator\+\+\(\)'), s.iternext), (rx(M + r'(insert|emplace|try_emplace)'), s.insert), (rx(M + r'operator\[\]|.*google::protobuf::Map<std::__cxx11::basic_string<.*>::operator\[\]'), s.at),
                (rx(r'^google::protobuf::MapPair<'), noop), (rx(r'^std::__cxx11::basic_string<.*>::operator=\('), s.str_assign), (rx(r'^VfRecorder::RecordSpan\(lightstep::collector::Span const&\)'), s.record), (rx(r'^std::shared_ptr<opentracing::Tracer const>::~shared_ptr'), noop)]

    def setup(s, st):
        e = s.e; O = s.O
        s.ids = [s.sym(st, n) for n in ('trace_id_high', 'trace_id', 'span_id')]
        m = st.mem[s.span.id]; m[0] = (8, Ptr(e.gobj('_ZTVN9lightstep10LegacySpanE'), 16))
        for k, v in (('tracer_', s.tracer), ('logger_', s.logger), ('recorder_', s.recorder)): m[O[k]] = (8, Ptr(v, 0))
        s.seti(st, 'trace_id_high_', s.ids[0]); s.seti(st, 'start_steady_', s.start); s.seti(st, 'is_finished_', s.fin0, 8); s.seti(st, 'trace_flags_', s.flags0, 8)
        s.sctx, s.tags, s.logrecs, s.bag = (e.new_obj(st, n, kind='struct', size=8) for n in ('span context', 'tags', 'recorded logs', 'baggage'))
        s.nb = s.sym(st, 'baggage_items', 2 ** 30); s.items = e.new_obj(st, 'baggage items', kind='array', stride=64, layout={}, n=s.nb)
        s.tstate = e.new_obj(st, 'trace state', kind='array', stride=1, layout={0: ('int', 8, False)}); s.tslen = s.sym(st, 'trace_state_size', 2 ** 31)
        st.ghost['str'] = {(s.span.id, O['trace_state_']): (Ptr(s.tstate, 0), IV(64, u=s.tslen))}; st.ghost['held'] = False

    def message(s, st, p, what): s.held(st, what); s.e.prove(st, s.e.ptr_eq(p, Ptr(s.span, s.O['span_'])), what + ': the span\'s own message')

    def part(s, k):
        def f(g, st, a, i):
            p = g.norm_ptr(a[0])
            if k == 'bag': g.prove(st, g.ptr_eq(p, Ptr(s.sctx, 0)), 'baggage: of the span context')
            else: g.prove(st, g.ptr_eq(p, Ptr(s.span, s.O['span_'])), 'message: the span\'s own')
            return [(st, Ptr(getattr(s, k), 0))]
        return f

    def add(s, k):
        def f(g, st, a, i):
            s.held(st, k); p = g.norm_ptr(a[0])
            if p.obj is s.span: g.prove(st, g.ptr_eq(p, Ptr(s.span, s.O['span_'])), k + ': the span\'s own')
            else: g.prove(st, g.ptr_eq(p, Ptr(getattr(s, k), 0)), k + ': the span\'s own')
            o = g.new_obj(st, 'added to ' + k, kind='struct', size=64); o.slot = k; t = s.fails(st, not s.finish)
            if s.finish: t[0].gset('li', st.ghost['li'] + 1)
            return [(st, Ptr(o, 0)), t]
        return f

    def once(s, st, what): s.held(st, what); s.e.prove(st, st.ghost['wrote'] == 0, what + ': set once'); st.gset('wrote', st.ghost['wrote'] + 1)

    def tokv(s, g, st, a, i):
        g.prove(st, b_and(s.is_given(a[1], a[2], 'key'), g.ptr_eq(a[3], Ptr(s.value, 0))), 'SetTag: the key and value given'); s.sput(st, a[0], ('tag', None)); return [(st, None), s.fails(st)]

    def tolog(s, g, st, a, i):
        """sret, time, begin, end"""
        u = lambda x: zi(g.dom.u(g.as_int(x)))
        def val(x):
            if isinstance(x, Ptr) and not isinstance(x, IV): return x
            return x
        if s.finish:
            k = st.ghost['li']; b, en = (s.itp(st, x) for x in a[2:4])
            g.prove(st, b_and(k < s.n, u(a[1]) == s.LT[k]), 'log records: each one given, in turn, with its time'); g.prove(st, g.ptr_eq(b, Ptr(s.fields, 96 * s.LB[k])), 'log records: with its fields, from the first'); g.prove(st, g.ptr_eq(en, Ptr(s.fields, 96 * s.LE[k])), 'log records: with its fields, to the last')
            st.gset('tmplog', k); st.gset('tmpobj', Z(g.norm_ptr(a[0]).obj.id)); t = s.fails(st, False); t[0].gset('li', k + 1); return [(st, None), t]
        T = [v for k, v in st.ghost['times'] if k == 'system']; g.prove(st, z3.Or(*[u(a[1]) == v for v in T]) if T else False, 'Log: at the time of the call')
        g.prove(st, b_and(g.ptr_eq(a[2], Ptr(s.logf, 0)), g.ptr_eq(a[3], Ptr(s.logf, z3.simplify(80 * s.nf)))), 'Log: all of the fields given'); s.sput(st, a[0], ('log', Z(0))); return [(st, None), s.fails(st)]

    def itp(s, st, x):
        """an iterator, by value"""
        return x

    def assign(s, g, st, a, i):
        p = g.norm_ptr(a[0]); k = getattr(p.obj, 'slot', None); v = s.sget(st, a[1])
        if k is None: s.sput(st, a[0], v); return [(st, a[0] if i['rt'][0] != 'void' else None)]
        s.held(st, k)
        if k == 'tags': g.prove(st, v[0] == 'tag', 'SetTag: the tag given'); s.once(st, 'SetTag')
        elif s.finish:
            g.prove(st, z3.And(st.ghost['tmpobj'] == g.norm_ptr(a[1]).obj.id, st.ghost['li'] == st.ghost['tmplog']), 'log records: each one given, in turn'); s.finishing(st, 'log records'); st.gset('li', st.ghost['li'] + 1)
        else: g.prove(st, v[0] == 'log', 'Log: the record'); s.once(st, 'Log')
        return [(st, a[0] if i['rt'][0] != 'void' else None)]

    def w_name0(s, g, st, a, i):
        s.message(st, a[0], 'SetOperationName'); v = [g.load(st, x, t) if not (isinstance(x, Ptr) and s.e.norm_ptr(x).obj is s.givens['name'][0]) else x for x, t in zip(a[1:], (ir.PTR, ir.INT(64)))]
        return s.name(st, v[0], v[1])

    def w_name(s, g, st, a, i): return s.name(st, a[1], a[2])
    def name(s, st, p, n): s.once(st, 'SetOperationName'); s.e.prove(st, s.is_given(p, n, 'name'), 'SetOperationName: the name given'); return [(st, None), s.fails(st)]

    def finishing(s, st, what):
        s.held(st, what); G = st.ghost; s.e.prove(st, zb(G['won']), what + ': set by the call that finishes the span'); s.e.prove(st, G['rec'] == 0, what + ': before the span is recorded')

    def w_dur(s, g, st, a, i):
        s.message(st, a[0], 'duration'); s.finishing(st, 'duration'); T = [v for k, v in st.ghost['times'] if k == 'steady']; us = zi(g.dom.s(g.as_int(a[1]))); t = lambda d: z3.If(d >= 0, d / 1000, -(-d / 1000))
        g.prove(st, z3.If(s.fts != 0, us == t(s.fts - s.start), z3.Or(*[us == t(v - s.start) for v in T]) if T else z3.BoolVal(False)), 'duration: from the start to the finish time given, or to now, in microseconds')
        st.gset('dur', Z(1)); return [(st, None)]

    def record(s, g, st, a, i):
        s.message(st, a[1], 'recording'); s.finishing(st, 'recording'); G = st.ghost; g.prove(st, g.ptr_eq(a[0], Ptr(s.recorder, 0)), 'recording: by the span\'s recorder')
        g.prove(st, G['at']['flags'] % 2 == 1, 'recording: only if the span is sampled'); g.prove(st, z3.And(G['dur'] == 1, G['li'] == s.n), 'recording: with its duration and every log record'); st.gset('rec', G['rec'] + 1); return [(st, None)]

    # ---- baggage
    def idx(s, st, p): p = s.e.norm_ptr(p); return zi(s.e.dom.u(s.e.as_int(s.e.load(st, p, ir.INT(64)))))
    def setidx(s, st, p, v): s.e.store(st, p, ir.INT(64), IV(64, u=zi(v)))
    def iter(s, st, a, v): s.held(st, 'baggage'); s.e.prove(st, s.e.ptr_eq(a[1], Ptr(s.bag, 0)), 'baggage: the span\'s own'); s.setidx(st, a[0], v); return [(st, None)]
    def itercmp(s, g, st, a, i): b = s.idx(st, a[0]) == s.idx(st, a[1]); return [(st, b if '==' in g.dem(i['callee'] if isinstance(i.get('callee'), str) else '') or 'eqERK' in i['text'] else z3.Not(b))]
    def iternext(s, g, st, a, i): s.setidx(st, a[0], s.idx(st, a[0]) + 1); return [(st, a[0])]

    def find(s, g, st, a, i):
        s.held(st, 'BaggageItem'); g.prove(st, g.ptr_eq(a[1], Ptr(s.bag, 0)), 'BaggageItem: the span\'s baggage'); g.prove(st, s.sget(st, a[2])[0] == 'lower', 'BaggageItem: looked up by the lowercased key')
        k = z3.Int('found_at'); t = st.clone(); st.assume(z3.And(k >= 0, k < s.nb)); st.ghost['found'] = k; t.ghost['found'] = False
        s.setidx(st, a[0], k); s.setidx(t, a[0], s.nb); return [(st, None), (t, None)]

    def insert(s, g, st, a, i): g.prove(st, False, 'SetBaggageItem: an item set before is replaced'); return [(st, g.fresh_val(st, i['rt'], 'iterator') if i.get('rt') and i['rt'][0] != 'void' else None)]

    def at(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.bag, 0)), 'SetBaggageItem: the span\'s baggage'); s.held(st, 'SetBaggageItem'); g.prove(st, s.sget(st, a[1])[0] == 'lower', 'SetBaggageItem: under the lowercased key')
        o = g.new_obj(st, 'baggage value', kind='struct', size=32); o.slot = 'bag'; return [(st, Ptr(o, 0)), s.fails(st)]

    def str_assign(s, g, st, a, i):
        p = g.norm_ptr(a[0])
        if getattr(p.obj, 'slot', None) == 'bag':
            v = s.sget(st, a[1]); g.prove(st, s.is_given(v[0], v[1], 'value') if isinstance(v[0], Ptr) else False, 'SetBaggageItem: the value given'); s.once(st, 'SetBaggageItem')
        else: s.sput(st, a[0], s.sget(st, a[1]))
        return [(st, a[0])]

    def is_baggage(s, st, p): return s.e.ptr_eq(p, Ptr(s.bag, 0))

    def same(s, o, what, moved=False):
        e = s.e; e.prove(o, b_and(s.geti(o, 'trace_id_high_') == s.ids[0], s.geti(o, 'start_steady_') == s.start), what + ': the ids and the start time stay'); e.prove(o, not o.ghost['held'], what + ': the lock is released')

    def finished(s, o, what, at):
        e = s.e; G = o.ghost; rec = G['rec']; won = zb(G['won'])
        e.prove(o, G['fin'] == 1, what + ': the span is finished')
        fl = at['flags'] % 2 if at else Z(0)
        e.prove(o, z3.Implies(z3.Or(z3.Not(won), fl == 0), rec == 0), what + ': a span finished before or not sampled is not recorded')
        if not at: e.prove(o, z3.Not(won), what + ': a span is recorded by the call that finishes it')
        else: e.prove(o, z3.Implies(z3.And(z3.Not(G['broke']), won, fl == 1), rec == 1), what + ': a sampled span is recorded, once, by the call that finishes it')


KIND = {'Span': New, 'LegacySpan': Old}
def cls(ctx, k, name, **kw): w = KIND[k](ctx, k + '::' + name, **kw); w.kind = k; return w
def fnn(w, name): return findre(w.m, w.e, r'^lightstep::%s::%s(\[abi:cxx11\])?\(' % (w.kind, name))


def finish(ctx, K):
    w = cls(ctx, K, 'FinishWithOptions'); e = w.e; st = w.st; w.finish = True
    outs = returns(e, e.run(fnn(w, 'FinishWithOptions'), st, [Ptr(w.span, 0), w.opts(st)]), 'FinishWithOptions'); reachable(e, outs)
    for o in outs:
        e.cur = o
        if w.STABLE: e.prove(o, o.ghost['locks'] >= 1, 'FinishWithOptions: under the lock')
        w.finished(o, 'FinishWithOptions', o.ghost.get('at'))
        w.same(o, 'FinishWithOptions', moved=True)
    return e


def destroy(ctx, K):
    w = cls(ctx, K, '~' + K, exclusive=True); e = w.e; st = w.st; w.finish = True; w.fts = Z(0); st.assume(w.n == 0); w.LT = w.LB = w.LE = z3.Array('none', I, I); w.fields = e.new_obj(st, 'none', kind='array', stride=80, layout={})
    alt = [st]
    if K == 'Span':
        st.ghost['at'] = dict(fin=w.fin0, flags=w.flags0)
        # a span recorded before has handed over its stream
        t = st.clone(); t.assume(w.fin0 == 1); w.gone(t); alt.append(t)
    for s0 in alt:
        w.st = s0; e.cur = s0
        outs = returns(e, e.run('vf_span_destroy' if K == 'Span' else 'vf_legacy_destroy', s0, [Ptr(w.span, 0)]), '~' + K); reachable(e, outs)
        for o in outs: e.cur = o; w.finished(o, '~' + K, o.ghost.get('at'))
    return e


def setter(name, args):
    def f(ctx, K):
        w = cls(ctx, K, name); e = w.e; st = w.st; a = [Ptr(w.span, 0)]
        for x in args:
            if x == 'Value': a.append(Ptr(w.value, 0))
            elif x == 'fields': w.logf = e.new_obj(st, 'fields', kind='array', stride=80, layout={}); w.nf = w.sym(st, 'fields_size', 2 ** 30); a += [Ptr(w.logf, 0), IV(64, u=w.nf)]
            else: a += w.given(st, x)
        outs = returns(e, e.run(fnn(w, name), st, a), name); reachable(e, outs)
        for o in outs:
            e.cur = o; G = o.ghost; w.same(o, name)
            if z3.is_true(G['broke']): continue
            at, snap = G['at'], G['snap']; e.prove(o, G['locks'] == 1, name + ': in one step under the lock')
            if w.STABLE: e.prove(o, G['wrote'] == z3.If(at['fin'] == 0, 1, 0), name + ': takes effect unless the span is finished'); e.prove(o, snap['fin'] == at['fin'], name + ': does not finish the span')
            else: e.prove(o, z3.Implies(G['fin'] == 0, G['wrote'] == 1), name + ': takes effect unless the span is finished'); e.prove(o, z3.Not(zb(G['won'])), name + ': does not finish the span')
            want = at['flags']
            if name == 'SetTag': want = z3.If(z3.And(G['wrote'] == 1, w.KEYIS), at['flags'] - at['flags'] % 2 + z3.If(w.SAMPLED, 1, 0), at['flags'])
            e.prove(o, snap['flags'] == want, name + ': the sampling decision changes with the sampling priority only')
            e.prove(o, G['rec'] == 0, name + ': records nothing')
        return e
    return f


def item(ctx, K):
    w = cls(ctx, K, 'BaggageItem'); e = w.e; st = w.st; r = e.new_obj(st, 'result', kind='struct', size=32)
    outs = returns(e, e.run(fnn(w, 'BaggageItem'), st, [Ptr(r, 0), Ptr(w.span, 0)] + w.given(st, 'key')), 'BaggageItem'); reachable(e, outs)
    for o in outs:
        e.cur = o; G = o.ghost; w.same(o, 'BaggageItem'); v = w.sget(o, Ptr(r, 0))
        if z3.is_true(G['broke']): e.prove(o, v[0] == 'empty' or G['found'] is not None, 'BaggageItem: empty if it fails'); continue
        if G['found'] is False: e.prove(o, v[0] == 'empty', 'BaggageItem: empty if there is none')
        elif G['found'] is None: e.prove(o, False, 'BaggageItem: is looked up')
        else: e.prove(o, w.e.ptr_eq(v[1], Ptr(w.items, z3.simplify(64 * G['found'] + 32))) if v[0] == 'at' else False, 'BaggageItem: the value of the item')
        e.prove(o, G['locks'] == 1, 'BaggageItem: under the lock')
    return e


def foreach(ctx, K):
    w = cls(ctx, K, 'ForeachBaggageItem'); e = w.e; st = w.st; w.fn = e.new_obj(st, 'function', kind='struct', size=32)
    outs = e.run(fnn(w, 'ForeachBaggageItem'), st, [Ptr(w.span, 0), Ptr(w.fn, 0)]); reachable(e, outs)
    for o in outs:
        e.cur = o; w.same(o, 'ForeachBaggageItem')
        if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], 'ForeachBaggageItem: throws only what the function throws'); continue
        e.prove(o, z3.Implies(zb(o.ghost['go']), o.ghost['visited'] == w.nb), 'ForeachBaggageItem: every item unless told to stop')
    return e


def inject(ctx, K):
    engs = []
    for nm, pat in (('ostream', r'std::(basic_)?ostream'), ('text map', r'opentracing::TextMapWriter const&'), ('HTTP headers', r'opentracing::HTTPHeadersWriter const&')):
        w = cls(ctx, K, 'Inject, ' + nm); e = w.e; st = w.st; engs.append(e)
        w.T = ctx.offsets(['tracer/propagation/trace_context.h'], {k: ('lightstep::TraceContext', k) for k in ('trace_id_high', 'trace_id_low', 'parent_id', 'trace_flags')}, {})
        w.ret, w.popts, w.carrier = (e.new_obj(st, n, kind='struct', size=32) for n in ('result', 'options', 'carrier'))
        outs = e.run(findre(w.m, e, r'^lightstep::%s::Inject\(.*, %s' % (K, pat)), st, [Ptr(w.ret, 0), Ptr(w.span, 0), Ptr(w.popts, 0), Ptr(w.carrier, 0)]); reachable(e, outs)
        for o in outs:
            e.cur = o; w.same(o, 'Inject'); e.prove(o, o.ghost['injected'] == 1 and o.ghost['locks'] == 1, 'Inject: once, under the lock')
            if o.outcome[0] == 'throw': e.prove(o, o.ghost['broke'], 'Inject: throws only what writing throws')
    return engs


def getters(ctx, K):
    engs = []
    w = cls(ctx, K, 'trace_state'); e = w.e; engs.append(e)
    outs = returns(e, e.run(fnn(w, 'trace_state'), w.st, [Ptr(w.span, 0)]), 'trace_state'); reachable(e, outs)
    for o in outs: e.cur = o; v = o.outcome[1]; e.prove(o, w.is_state(o, v[0], v[1]), "trace_state: the span's own")
    for k, j in (('trace_id_high', 0), ('trace_id_low', 1), ('span_id', 2)):
        w = cls(ctx, K, k); e = w.e; engs.append(e)
        outs = returns(e, e.run(fnn(w, k), w.st, [Ptr(w.span, 0)]), k); reachable(e, outs)
        for o in outs: e.cur = o; e.prove(o, zi(e.dom.u(e.as_int(o.outcome[1]))) == w.ids[j], k + ': the span\'s own')
    w = cls(ctx, K, 'trace_flags'); e = w.e; engs.append(e)
    outs = returns(e, e.run(fnn(w, 'trace_flags'), w.st, [Ptr(w.span, 0)]), 'trace_flags'); reachable(e, outs)
    for o in outs: e.cur = o; w.same(o, 'trace_flags'); e.prove(o, b_and(o.ghost['locks'] == 1, zi(e.dom.u(e.as_int(o.outcome[1]))) == (o.ghost['at']['flags'] if 'at' in o.ghost else -1)), 'trace_flags: the flags, read under the lock')
    return engs


def sampled(ctx, K):
    """what a sampling priority says"""
    engs = []
    for which in range(9):
        w = cls(ctx, K, 'is_sampled'); e = w.e; st = w.st; engs.append(e); e.contracts = [c for c in e.contracts if c[1] != w.is_sampled]
        v = w.sym(st, 'number');
        st.mem[w.value.id] = {0: (4, IV(32, u=Z(which))), 8: (8, IV(64, u=v))}
        for k in (16, 24, 32, 40, 48, 56): st.mem[w.value.id][k] = (8, NULL)
        outs = returns(e, e.run('vf_is_sampled', st, [Ptr(w.value, 0)]), 'is_sampled'); reachable(e, outs)
        for o in outs: e.cur = o; e.prove(o, zb(o.outcome[1]) == (v != 0 if which in (2, 3) else z3.BoolVal(True)), 'is_sampled: unless the value is the number 0')
    return engs


def units(ctx):
    out = []
    for K in ('Span', 'LegacySpan'):
        def U(name, f, fns, K=K): out.append(Unit(K + ', ' + name, lambda c: f(c, K), [x if '::' in x else K + '::' + x for x in fns]))
        U('FinishWithOptions', finish, ['FinishWithOptions'] + (['FinishImpl'] if K == 'Span' else [])); U('destructor', destroy, ['~' + K] + (['FinishImpl'] if K == 'Span' else []))
        U('SetOperationName', setter('SetOperationName', ['name']), ['SetOperationName']); U('SetTag', setter('SetTag', ['key', 'Value']), ['SetTag']); U('SetBaggageItem', setter('SetBaggageItem', ['key', 'value']), ['SetBaggageItem'])
        U('Log', setter('Log', ['fields']), ['Log']); U('BaggageItem', item, ['BaggageItem']); U('ForeachBaggageItem', foreach, ['ForeachBaggageItem']); U('Inject', inject, ['Inject', 'InjectImpl']); U('getters', getters, ['trace_flags', 'trace_id_high', 'trace_id_low', 'span_id', 'trace_state'])
    return out + [Unit('is_sampled', lambda c: sampled(c, 'Span'), ['is_sampled', 'SetTraceFlag'])]


def natives(ctx, defs=()):
    P, Q = 'src/tracer/propagation/', 'lightstep-tracer-common/'
    srcs = [P + x + '.cpp' for x in ('b3_propagator', 'baggage_propagator', 'binary_propagation', 'cloud_trace_propagator', 'envoy_propagator', 'lightstep_propagator', 'multiheader_propagator', 'propagation', 'propagation_options', 'trace_context', 'trace_context_propagator')]
    srcs += ['src/tracer/' + x + '.cpp' for x in ('span', 'tracer_impl', 'immutable_span_context', 'lightstep_span_context', 'serialization', 'tag', 'utility', 'legacy/legacy_span', 'legacy/legacy_tracer_impl')]
    srcs += ['src/common/' + x + '.cpp' for x in ('in_memory_stream', 'hex_conversion', 'utility', 'chained_stream', 'fragment_input_stream', 'composable_fragment_input_stream', 'serialization', 'logger', 'random', 'timestamp', 'platform/fork_unix', 'platform/utility_unix')] + ['3rd_party/base64/src/base64.cpp']
    kw = dict(srcs=srcs, protos=True, gensrcs=[Q + x for x in ('lightstep_carrier.pb.cc', 'collector.pb.cc', 'google/api/annotations.pb.cc', 'google/api/http.pb.cc')], libs=['-lprotobuf', '-lpthread'])
    return [Native('native/C33.cpp', budget=(12, 90), **kw), Native('native/C33.cpp', defs=['VN_THREADS'], name='C33t', san='thread', budget=(8, 60), **kw)]
