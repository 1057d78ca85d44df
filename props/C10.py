"""C10: ReportRequest / BufferChain - a request announces exactly what it enumerates (contracts on the request over its spans)."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.streams import Streams, G, I, gdata, gsize, at_frag

ASSUMPTIONS = ['spans follow the contract of composed streams (C05)', 'the metrics message yields one fragment carrying the count it was given (C12)', 'total lengths and counts fit in int', 'the header string is not changed after it was handed in (it is const)']
TRUSTED = ['std::string::data/size, std::shared_ptr and std::unique_ptr behave as specified; operator new succeeds']
SRC = ['harness/report.cpp', 'src/recorder/serialization/report_request.cpp', 'src/common/buffer_chain.cpp']
R = 'lightstep::ReportRequest'
MEMBERS = ('header', 'metrics', 'metrics_fragment', 'num_bytes', 'num_spans', 'num_fragments', 'spans')


def prepare(ctx): ctx.protos()


class Req:
    """a request with symbolic content: header of hs bytes, optional metrics fragment, spans of NF fragments"""
    def __init__(s, ctx, name, metrics, spans, blank=False):
        s.ctx = ctx
        m = ctx.module(SRC)
        s.O = ctx.offsets(['recorder/serialization/report_request.h'], {k: (R, k + '_') for k in MEMBERS}, {'R': R, 'E': 'lightstep::EmbeddedMetricsMessage'})
        CS = rx(r'ComposableFragmentInputStream::ForEachFragment\(')
        s.e = e = Engine(m, name=name, contracts=[
            (rx(r'^std::__cxx11::basic_string<.*>::(size|length)\(\) const'), s.hsize), (rx(r'^std::__cxx11::basic_string<.*>::(data|c_str)\(\) const'), s.hdata),
            (rx(r'^lightstep::EmbeddedMetricsMessage::EmbeddedMetricsMessage\('), s.mctor), (rx(r'EmbeddedMetricsMessage::set_num_dropped_spans\('), s.mset), (rx(r'EmbeddedMetricsMessage::num_dropped_spans\('), s.mget), (rx(r'EmbeddedMetricsMessage::MakeFragment\('), s.mmake),
            (rx(r'ComposableFragmentInputStream::num_fragments\('), s.num), (CS, s.each), (rx(r'ComposableFragmentInputStream::Append\('), s.append), (rx(r'(ChainedStream|EmbeddedMetricsMessage)::~'), s.nodtor), ('vf_cb', s.visit)],
            candidates=int_candidates([('bytes enumerated', lambda st: G(st.ghost['fk'])), ('fragments enumerated', lambda st: st.ghost['fk'])], (1, -1), s.cand))
        st = State(); e.cur = st; s.st = st
        s.hs, s.ms, s.F = z3.Ints('header_size metrics_size F')
        s.nb, s.ns, s.nf = z3.Ints('num_bytes num_spans num_fragments')
        s.header = e.new_obj(st, 'header', kind='struct', size=32)
        s.hbytes = e.new_obj(st, 'header bytes', kind='array', stride=1, layout={0: ('int', 8, False)}, n=s.hs)
        s.mbytes = e.new_obj(st, 'metrics bytes', kind='array', stride=1, layout={0: ('int', 8, False)}, n=s.ms)
        s.reg = e.new_obj(st, 'Span', kind='region', layout={0: ('int', 8, False)})
        s.head, s.new = z3.Ints('first_span new_span')
        s.met = e.new_obj(st, 'metrics message', kind='struct', size=s.O['E'])
        s.req = e.new_obj(st, 'request', kind='struct', size=s.O['R'])
        s.context = e.new_obj(st, 'context', kind='struct', size=8)
        k, j = z3.Ints('k j')
        st.assume_q(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j <= s.F), G(k) <= G(j)), patterns=[z3.MultiPattern(G(k), G(j))]))
        lim = 2 ** 31
        st.assume(z3.And(s.hs >= 0, s.hs < lim, s.ms > 0, s.ms < lim, s.F >= 0, s.F < lim, G(0) == 0, G(s.F) >= 0, s.head > 0, s.head < 2 ** 63, s.new > 0, s.new < 2 ** 63, s.head != s.new,
                         s.nb >= 0, s.ns >= 0, s.nf >= 0, s.hs + s.ms + s.nb + G(s.F) < lim, s.ns < lim - 1, s.nf + s.F + 2 < lim))
        st.ghost.update(fk=z3.IntVal(0), step=z3.IntVal(0), stop=z3.BoolVal(False), dropped=z3.IntVal(0), made=z3.IntVal(-1), appended=z3.IntVal(0), enumerated=z3.IntVal(0))
        if not blank:
            mem = {s.O['header']: (8, Ptr(s.header, 0)), s.O['header'] + 8: (8, NULL), s.O['metrics']: (8, Ptr(s.met, 0) if metrics else NULL),
                   s.O['num_bytes']: (4, IV(32, s=s.nb)), s.O['num_spans']: (4, IV(32, s=s.ns)), s.O['num_fragments']: (4, IV(32, s=s.nf)),
                   s.O['spans']: (8, Ptr(s.reg, 0, s.head) if spans else NULL)}
            if metrics: mem |= {s.O['metrics_fragment']: (8, Ptr(s.mbytes, 0)), s.O['metrics_fragment'] + 8: (4, IV(32, s=s.ms))}
            vt = e.gobj('_ZTVN9lightstep13ReportRequestE')
            if vt: mem[0] = (8, Ptr(vt, 16))
            st.mem[s.req.id] = mem
        s.has_metrics = metrics; s.has_spans = spans
        st.writes = frozenset(); st.gwrites = frozenset()

    def cand(s, e, v):
        return [('not stopped', lambda w: z3.Not(w.st.ghost['stop'])), ('steps follow the enumeration', lambda w: w.st.ghost['step'] == w.entry.ghost['step'] + (w.st.ghost['fk'] - w.entry.ghost['fk']))]

    # trusted: std::string
    def hsize(s, eng, st, args, ins):
        eng.prove(st, eng.ptr_eq(args[0], Ptr(s.header, 0)), 'the given header is measured')
        return [(st, IV(64, u=s.hs))]

    def hdata(s, eng, st, args, ins):
        eng.prove(st, eng.ptr_eq(args[0], Ptr(s.header, 0)), 'the given header is read')
        return [(st, Ptr(s.hbytes, 0))]

    # the metrics message (C12)
    def mctor(s, eng, st, args, ins):
        s.metobj = args[0]; st.gset('dropped', z3.IntVal(0)); return [(st, None)]

    def mset(s, eng, st, args, ins):
        st.gset('dropped', zi(eng.dom.s(args[1]))); return [(st, None)]

    def mget(s, eng, st, args, ins): return [(st, IV(32, s=st.ghost['dropped']))]

    def mmake(s, eng, st, args, ins):
        st.gset('made', st.ghost['dropped'])
        return [(st, [Ptr(s.mbytes, 0), IV(32, s=s.ms)])]

    # spans (C05)
    def key(s, p): return zi(p.key) if isinstance(p, Ptr) and p.key is not None else z3.IntVal(0)

    def num(s, eng, st, args, ins):
        eng.prove(st, s.key(args[0]) == s.sub, 'the right span is counted')
        return [(st, IV(32, s=s.F))]

    def each(s, eng, st, args, ins):
        eng.prove(st, s.key(args[0]) == s.sub, 'the right span is enumerated')
        st.gset('enumerated', st.ghost['enumerated'] + 1)
        return Streams.enumerate(None, eng, st, z3.IntVal(0), s.F, args[1], args[2])

    def append(s, eng, st, args, ins):
        x = eng.load(st, args[1], ir.PTR)
        eng.prove(st, z3.And(s.key(args[0]) == s.head, s.key(x) == s.new), 'AddSpan: the new span is appended to the earlier ones')
        eng.store(st, args[1], ir.PTR, NULL)
        st.gset('appended', st.ghost['appended'] + 1)
        return [(st, None)]

    def nodtor(s, eng, st, args, ins):
        eng.prove(st, False, 'nothing the request holds is destroyed')
        return [(st, None)]

    # the caller's visitor
    def visit(s, eng, st, args, ins):
        g = st.ghost; h = 2 if s.has_metrics else 1
        eng.prove(st, z3.Not(g['stop']), 'ForEachFragment: nothing is enumerated after the visitor stopped')
        eng.prove(st, eng.ptr_eq(args[0], Ptr(s.context, 0)), 'ForEachFragment: the caller\'s context is passed on')
        a, n = zi(eng.ptr_term(eng.norm_ptr(args[1]))), zi(eng.dom.u(args[2]))
        i = g['step']
        want = [(i == 0, z3.And(a == zi(s.hbytes.addr), n == s.hs), 'first the header')]
        if s.has_metrics: want.append((i == 1, z3.And(a == zi(s.mbytes.addr), n == s.ms), 'then the metrics'))
        if s.has_spans: want.append((i >= h, z3.And(i == h + g['fk'], a == gdata(g['fk']), n == gsize(g['fk'])), 'then the fragments of the spans in order'))
        for c, f, txt in want: eng.prove(st, z3.Implies(c, f), 'ForEachFragment: ' + txt)
        eng.prove(st, z3.Or([c for c, _, _ in want]), 'ForEachFragment: nothing else is enumerated')
        r = z3.Bool('go!%d' % next(Obj.ids))
        st.gset('step', i + 1); st.gset('stop', z3.Not(r))
        return [(st, r)]

    def f32(s, st, k): return zi(s.e.dom.s(s.e.load(st, Ptr(s.req, s.O[k]), ir.INT(32))))

    def ends(s, fn, args, what):
        outs = returns(s.e, s.e.run(fn, s.st, args), what)
        reachable(s.e, outs)
        for o in outs:
            s.e.cur = o
            if s.e.check_valid(o, False, timeout=1500)[0] != 'proved': yield o


def construct(ctx):
    W = Req(ctx, 'construction', False, False, blank=True); e = W.e; st = W.st
    n = z3.Int('n'); st.assume(z3.And(n >= -2 ** 31, n < 2 ** 31))
    hp = e.new_obj(st, 'header pointer', kind='struct', size=16)
    st.mem[hp.id] = {0: (8, Ptr(W.header, 0)), 8: (8, NULL)}
    for s in W.ends('vf_ctor', [Ptr(W.req, 0), Ptr(hp, 0), IV(32, s=n)], 'construction'):
        L = lambda off: e.load(s, Ptr(W.req, off), ir.PTR)
        has = z3.Not(zb(e.ptr_eq(L(W.O['metrics']), NULL)))
        e.prove(s, has == (n != 0), 'construction: metrics are present exactly when spans were dropped')
        e.prove(s, W.f32(s, 'num_bytes') == W.hs + z3.If(n != 0, W.ms, 0), 'construction: the bytes are those of the header and the metrics')
        e.prove(s, W.f32(s, 'num_fragments') == z3.If(n != 0, 2, 1), 'construction: the fragments are the header and the metrics')
        e.prove(s, W.f32(s, 'num_spans') == 0, 'construction: no spans')
        e.prove(s, e.ptr_eq(L(W.O['spans']), NULL), 'construction: no spans are held')
        e.prove(s, e.ptr_eq(L(W.O['header']), Ptr(W.header, 0)), 'construction: the header is the given one')
        e.prove(s, z3.Implies(n != 0, z3.And(s.ghost['made'] == n, s.ghost['dropped'] == n)), 'construction: the metrics fragment carries the given count')
        e.prove(s, z3.Implies(n != 0, b_and(e.ptr_eq(L(W.O['metrics_fragment']), Ptr(W.mbytes, 0)), zi(e.dom.s(e.load(s, Ptr(W.req, W.O['metrics_fragment'] + 8), ir.INT(32)))) == W.ms)), 'construction: the metrics fragment is kept')
        # what num_dropped_spans reports afterwards
        for t, v in e.call_value(s.clone(), 'vf_dropped', [Ptr(W.req, 0)]):
            e.cur = t
            e.prove(t, zi(e.dom.s(v)) == n, 'num_dropped_spans reports the given count')
    return e


def add(ctx):
    engs = []
    for first in (True, False):
        W = Req(ctx, 'AddSpan' + (' (the first)' if first else ''), False, not first); e = W.e; engs.append(e); st = W.st
        W.sub = W.new
        sp = e.new_obj(st, 'span pointer', kind='struct', size=8); st.mem[sp.id] = {0: (8, Ptr(W.reg, 0, W.new))}
        for s in W.ends('vf_add', [Ptr(W.req, 0), Ptr(sp, 0)], 'AddSpan'):
            e.prove(s, W.f32(s, 'num_bytes') == W.nb + G(W.F), 'AddSpan: exactly the bytes of the span are added to the byte count')
            e.prove(s, W.f32(s, 'num_fragments') == W.nf + W.F, 'AddSpan: exactly the fragments of the span are added to the fragment count')
            e.prove(s, W.f32(s, 'num_spans') == W.ns + 1, 'AddSpan: one span is added')
            e.prove(s, e.ptr_eq(e.load(s, Ptr(sp, 0), ir.PTR), NULL), 'AddSpan: the request owns the span')
            x = W.key(e.load(s, Ptr(W.req, W.O['spans']), ir.PTR))
            e.prove(s, z3.And(x == W.new, s.ghost['appended'] == 0) if first else z3.And(x == W.head, s.ghost['appended'] == 1), 'AddSpan: the span comes after the earlier ones')
    return engs


def foreach(ctx):
    engs = []
    for metrics in (False, True):
        for spans in (False, True):
            W = Req(ctx, 'ForEachFragment' + (', metrics' if metrics else '') + (', spans' if spans else ''), metrics, spans); e = W.e; engs.append(e); W.sub = W.head
            for s in W.ends('vf_foreach', [Ptr(W.req, 0), Ptr(e.gobj('vf_cb'), 0), Ptr(W.context, 0)], 'ForEachFragment'):
                total = 1 + (1 if metrics else 0) + (W.F if spans else 0)
                e.prove(s, zb(s.outcome[1]) == z3.Not(s.ghost['stop']), 'ForEachFragment: reports exactly whether the visitor stopped')
                e.prove(s, z3.Or(s.ghost['stop'], s.ghost['step'] == total), 'ForEachFragment: unless stopped, nothing is left out')
                e.prove(s, not [w for w in s.writes if w[0] == W.req.id], 'ForEachFragment: nothing is modified')
    for fn, what, k in (('vf_spans', 'num_spans', 'ns'), ('vf_fragments', 'num_fragments', 'nf'), ('vf_bytes', 'num_bytes', 'nb'), ('vf_dropped', 'num_dropped_spans', None)):
        for metrics in (False, True):
            W = Req(ctx, what, metrics, True); e = W.e; engs.append(e)
            if metrics: W.st.ghost['dropped'] = z3.Int('d')
            for s in W.ends(fn, [Ptr(W.req, 0)], what):
                r = zi(e.dom.s(s.outcome[1]))
                e.prove(s, r == (getattr(W, k) if k else (z3.Int('d') if metrics else 0)), what + ' reports what was counted')
    return engs


def copyout(ctx):
    m = ctx.module(SRC)
    N, L, P, K = z3.Ints('N L position fragment')

    def bytes_(eng, st, args, ins): return [(st, IV(64, u=G(N)))]

    def each(eng, st, args, ins):
        """the contract of BufferChain::ForEachFragment: callback(context, data, size) on each fragment in order until it answers false"""
        eng.prove(st, st.ghost['runs'] == 0, 'CopyOut: the fragments are enumerated once')
        st.gset('runs', st.ghost['runs'] + 1)
        fn, context = args[1], args[2]
        orig = eng.call_value

        def call(s, inv, a):
            eng.call_value = orig
            try: return orig(s, fn, [context, Ptr(mem, a[1].off), IV(64, u=zi(eng.dom.s(a[2])))])
            finally: eng.call_value = call
        eng.call_value = call
        try: return Streams.enumerate(None, eng, st, z3.IntVal(0), N, context, fn)
        finally: eng.call_value = orig

    def byte(st, o, i): return z3.Select(e.arr(st, o, 0, o.layout[0]), i)
    def done(st): return byte(st, out, P) == byte(st, mem, gdata(K) + P - G(K))

    def inv(e, v):
        r = [('the fragment is copied', lambda w: z3.Implies(w.st.ghost['fk'] > K, done(w.st)))]
        return r + [('%s is where the next byte goes' % (n,), lambda w, n=n: zb(e.ptr_eq(w.get(n), Ptr(out, G(w.st.ghost['fk']))))) for n in v.ptrs()]

    def term(eng, st, args, ins):
        eng.prove(st, False, 'CopyOut: accepts a buffer of num_bytes() bytes')
        raise Done()
    e = Engine(m, name='CopyOut', contracts=[('vf::Chain::num_bytes', bytes_), ('vf::Chain::ForEachFragment', each), ('std::terminate', term)], candidates=int_candidates([('bytes', lambda st: G(st.ghost['fk']))], (1,), inv))
    st = State(); e.cur = st
    k, j = z3.Ints('k j')
    st.assume_q(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j <= N), G(k) <= G(j)), patterns=[z3.MultiPattern(G(k), G(j))]))
    st.assume(z3.And(N >= 0, N < 2 ** 31, G(0) == 0, G(N) >= 0, G(N) < 2 ** 62, L >= G(N), L < 2 ** 62))
    # an arbitrary byte of the enumeration: position P, in fragment K
    st.assume(z3.And(K >= 0, z3.Implies(N > 0, K < N))); at_frag(st, K)
    st.assume(z3.And(G(K) <= P, z3.Or(P < G(K + 1), N == 0)))
    chain = virtual_object(e, st, 'N2vf5ChainE', 'chain')
    out = e.new_obj(st, 'output', kind='array', stride=1, layout={0: ('int', 8, False)}, n=L)
    mem = e.new_obj(st, 'fragment memory', kind='array', stride=1, layout={0: ('int', 8, False)})
    st.ghost.update(fk=z3.IntVal(0), runs=z3.IntVal(0))
    before = byte(st, out, P)
    outs = returns(e, e.run('vf_copyout', st, [Ptr(chain, 0), Ptr(out, 0), IV(64, u=L)]), 'CopyOut')
    reachable(e, outs)
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        e.prove(s, z3.Implies(N > 0, done(s)), 'CopyOut: every byte of the enumeration ends up at its position in the buffer')
        e.prove(s, not [w for w in s.writes if w[0] == mem.id], 'CopyOut: the fragments are not modified')
    return e


def units(ctx):
    Q = 'ReportRequest::'
    return [Unit('construction', construct, [Q + 'ReportRequest', Q + 'num_dropped_spans']), Unit('AddSpan', add, [Q + 'AddSpan']), Unit('ForEachFragment', foreach, [Q + 'ForEachFragment', Q + 'num_spans', Q + 'num_fragments', Q + 'num_bytes', Q + 'num_dropped_spans']), Unit('CopyOut', copyout, ['BufferChain::CopyOut'])]


def natives(ctx):
    S = 'src/common/'; P = 'lightstep-tracer-common/'
    return [Native('native/C10.cpp', srcs=['src/recorder/serialization/report_request.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp', S + 'protobuf.cpp', S + 'buffer_chain.cpp', S + 'chained_stream.cpp', S + 'composable_fragment_input_stream.cpp', S + 'fragment_input_stream.cpp'],
                   protos=True, gensrcs=[P + 'collector.pb.cc', P + 'google/api/annotations.pb.cc', P + 'google/api/http.pb.cc'], libs=['-lprotobuf'], budget=(10, 60))]
