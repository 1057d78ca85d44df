"""C27: ConnectionStream - one well-formed request per connection; every span begun is finished there or counted dropped (contracts on construct/flush/shutdown/reset; history by induction over the connection invariant)."""
import re
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['the writer (network write + Consume, C07/C08) consumes some prefix of the listed streams in their order, reports true exactly when it consumed all of them, and may fail (throw) after having consumed a part',
               'SpanStream keeps the unsent rest of a span as its remnant when it stops within that span, and counts the spans it passed completely (C11)', 'FragmentArrayInputStream yields the fragments given (C06)', 'the embedded metrics message carries the count it was given (C12)',
               'between flushes the shared span stream holds no remnant (established by every flush, as proved here; all connections run on one thread)', 'sizes and counts fit in int']
TRUSTED = ['std::unique_ptr (its inlined library code is executed), snprintf("%llX\\r\\n")']
SRC = ['harness/connection.cpp', 'src/recorder/stream_recorder/connection_stream.cpp', 'src/common/fragment_input_stream.cpp', 'src/common/fragment_array_input_stream.cpp', 'src/common/chained_stream.cpp', 'src/common/composable_fragment_input_stream.cpp']
C = 'lightstep::ConnectionStream'
MEMBERS = ('header_stream', 'terminal_stream', 'span_remnant', 'shutting_down', 'embedded_metrics_message')


def prepare(ctx): ctx.protos()


class W:
    def __init__(s, ctx, name):
        m = ctx.module(SRC)
        s.O = ctx.offsets(['recorder/stream_recorder/connection_stream.h'], {k: (C, k + '_') for k in MEMBERS}, {'C': C, 'S': 'lightstep::SpanStream', 'CS': 'lightstep::ChainedStream', 'M': 'lightstep::MetricsTracker'})
        FA = r'FragmentArrayInputStream::'
        s.e = e = Engine(m, name=name, contracts=[
            ('vf_writer', s.writer),
            (rx(FA + r'operator=\(std::initializer_list'), s.fa_assign), (rx(FA + r'Add\('), s.fa_add), (rx(FA + r'Clear\('), s.fa_clear), (rx(FA + r'Reserve\('), noop), (rx(FA + r'num_fragments\('), s.fa_num), (rx(FA + r'~'), noop),
            (rx(r'(ChainedStream|ComposableFragmentInputStream)::num_fragments\('), s.rem_num), (rx(r'default_delete<lightstep::ChainedStream>::operator\(\)'), s.rem_del),
            (rx(r'SpanStream::Allot\('), s.allot), (rx(r'SpanStream::ConsumeRemnant\('), s.take), (rx(r'SpanStream::metrics\('), lambda g, st, a, i: [(st, Ptr(s.metrics, 0))]), (rx(r'SpanStream::num_fragments\('), s.span_num),
            (rx(r'MetricsTracker::OnSpansSent\('), s.count('sent')), (rx(r'MetricsTracker::OnSpansDropped\('), s.count('dropped')), (rx(r'MetricsTracker::ConsumeDroppedSpans\('), s.consume), (rx(r'MetricsTracker::UnconsumeDroppedSpans\('), s.count('pending')), (rx(r'MetricsTracker::num_dropped_spans\('), lambda g, st, a, i: [(st, IV(32, s=st.ghost['pending']))]),
            (rx(r'^lightstep::EmbeddedMetricsMessage::EmbeddedMetricsMessage\('), s.mctor), (rx(r'EmbeddedMetricsMessage::set_num_dropped_spans\('), s.mset), (rx(r'EmbeddedMetricsMessage::num_dropped_spans\('), lambda g, st, a, i: [(st, IV(32, s=st.ghost['msg']))]), (rx(r'EmbeddedMetricsMessage::MakeFragment\('), s.mmake),
            ('snprintf', s.snprintf), ('strlen', s.strlen)])
        st = State(); e.cur = st; s.st = st
        s.hs, s.cs, s.ms, s.P = z3.Ints('host_size common_size metrics_size pending')
        arr = lambda n, k: e.new_obj(st, n, kind='array', stride=1, layout={0: ('int', 8, False)}, n=k)
        s.host, s.common, s.mbytes = arr('host header', s.hs), arr('common header', s.cs), arr('metrics bytes', s.ms)
        lim = 2 ** 30
        st.assume(z3.And(s.hs > 0, s.hs < lim, s.cs >= 0, s.cs < lim, s.ms > 0, s.ms < lim, s.P >= 0, s.P < lim))
        s.spans = e.new_obj(st, 'span stream', kind='struct', size=s.O['S']); s.metrics = e.new_obj(st, 'metrics tracker', kind='struct', size=s.O['M'])
        s.rem = e.new_obj(st, 'remnant', kind='struct', size=s.O['CS']); s.rem2 = e.new_obj(st, 'new remnant', kind='struct', size=s.O['CS'])
        s.conn = e.new_obj(st, 'connection', kind='struct', size=s.O['C']); s.ctx0 = e.new_obj(st, 'writer context', kind='struct', size=8)
        Z = z3.IntVal(0)
        # h, t, r: fragments left of the header, the terminator, the connection's remnant; sr: the span stream's remnant; tail: how much of the span stream/terminator went out
        st.ghost.update(h=Z, t=Z, r=Z, r2=Z, sr=None, hlist=None, tlist=None, sent=Z, dropped=Z, pending=s.P, msg=Z, made=z3.IntVal(-1), allots=0, calls=0, all=None, tail=False, chunk=None, deleted=(), over=z3.IntVal(-1))
        for o in (s.rem, s.rem2):
            r = e.call_value(st, 'vf_chain', [Ptr(o, 0)])
            if len(r) != 1: raise Unsupported('construction of a chained stream')
            st = s.st = r[0][0]; e.cur = st
        # where the FragmentInputStream is within a ChainedStream
        o = e.call_value(st.clone(), 'vf_stream', [Ptr(s.rem, 0)])
        s.sub = o[0][1].off
        for n in m.funcs:
            if n.startswith('_GLOBAL__sub_I_connection_stream'):
                nx = []
                for x, v in e.call_value(st, n, []): nx.append(x)
                st = s.st = nx[0]; e.cur = st

    # ---- construction of a connection in a given state
    def construct(s):
        e, st = s.e, s.st
        hp, cp = (e.new_obj(st, n, kind='struct', size=16) for n in ('host fragment', 'common fragment'))
        st.mem[hp.id] = {0: (8, Ptr(s.host, 0)), 8: (4, IV(32, s=s.hs))}; st.mem[cp.id] = {0: (8, Ptr(s.common, 0)), 8: (4, IV(32, s=s.cs))}
        outs = returns(e, e.run('vf_ctor', st, [Ptr(s.conn, 0), Ptr(hp, 0), Ptr(cp, 0), Ptr(s.spans, 0)]), 'construction'); reachable(e, outs)
        return outs

    def live(s, remnant, closing):
        """a connection some time after construction: any part of the header sent, with or without an unfinished span, shutting down or not"""
        st = s.construct()[0]; st.outcome = None
        h, t, r, D, A, B = z3.Ints('header_left terminator_left remnant_left reported counted_sent counted_dropped')
        st.assume(z3.And(h >= 0, h < 100, t >= 0, t < 100, r > 0, r < 2 ** 30, D >= 0, D < 2 ** 29))
        st.assume(t > 0 if closing is False else z3.BoolVal(True))
        if remnant: st.assume(z3.And(h == 0, t > 0)); s.e.store(st, Ptr(s.conn, s.O['span_remnant']), ir.PTR, Ptr(s.rem, 0))
        st.assume(z3.Implies(h > 0, t > 0))
        s.e.store(st, Ptr(s.conn, s.O['shutting_down']), ir.INT(8), IV(8, s=z3.IntVal(1 if closing else 0)))
        st.ghost.update(h=h, t=t, r=r if remnant else z3.IntVal(0), msg=D, pending=s.P, sent=z3.IntVal(0), dropped=z3.IntVal(0))
        s.h, s.t, s.r, s.D = h, t, r, D
        s.s0 = st; st.writes = frozenset(); s.e.cur = st
        return st

    # ---- contracts
    def which(s, p):
        if not isinstance(p, Ptr) or p.obj is None: return None
        off = p.off if is_c(p.off) else None
        if p.obj is s.conn: return {s.O['header_stream']: 'h', s.O['terminal_stream']: 't'}.get(off)
        if p.obj is s.spans and off == 0: return 's'
        if p.obj in (s.rem, s.rem2) and off == s.sub: return 'r' if p.obj is s.rem else 'r2'
        return None

    def writer(s, g, st, a, i):
        G = st.ghost
        g.prove(st, g.ptr_eq(a[0], Ptr(s.ctx0, 0)), 'flush: the given writer is used')
        g.prove(st, G['calls'] == 0, 'flush: one write')
        n = g.dom.idx(a[2])
        if not is_c(n): raise Unsupported('number of streams')
        got = [s.which(g.load(st, Ptr(a[1].obj, g.dom.off_add(a[1].off, 8 * k)), ir.PTR)) for k in range(n)]
        closing = zi(g.dom.s(g.load(st, Ptr(s.conn, s.O['shutting_down']), ir.INT(8)))) != 0
        g.prove(st, None not in got, 'flush: only the streams of this connection and its spans are written')
        rank = dict(h=0, r=1, r2=1, s=2, t=3)
        got = [x for x in got if x]
        g.prove(st, all(rank[x] < rank[y] for x, y in zip(got, got[1:])), 'flush: the header goes first, then the unfinished span, then the rest')
        g.prove(st, z3.Implies(closing, z3.BoolVal('s' not in got)), 'shutdown: no other span is begun')
        g.prove(st, z3.Implies(z3.Not(closing), z3.BoolVal('t' not in got)), 'flush: the terminator is not sent before the shutdown')
        g.prove(st, z3.BoolVal('t' in got or 's' in got), 'flush: what is to be sent is offered')
        for k, nm in (('h', 'header'), ('r', 'unfinished span')):
            if k not in got: g.prove(st, G[k] == 0, 'flush: nothing goes before the rest of the ' + nm)
        if 's' in got: g.prove(st, G['allots'] == 1, 'flush: the spans waiting are allotted before')
        out = []
        for cut in ((False, True) if 's' in got else (False,)):
            for throw in (False, True):
                t = st.clone(); N = t.ghost
                N['calls'] = 1
                left = {}
                for k in ('h', 'r', 't'):
                    if k in got: left[k] = z3.Int('%s_left!%d' % (k, next(Obj.ids))); t.assume(z3.And(left[k] >= 0, left[k] <= G[k]))
                    else: left[k] = G[k]
                order = [k for k in got if k in left]
                for x, y in zip(order, order[1:]): t.assume(z3.Implies(left[x] > 0, left[y] == G[y]))
                for k in left: N[k] = left[k]
                done = z3.And([left[k] == 0 for k in order])
                if 's' in got:
                    rest = z3.Bool('spans_left!%d' % next(Obj.ids))
                    if cut: t.assume(done); N['r2'] = z3.Int('cut_left!%d' % next(Obj.ids)); t.assume(N['r2'] > 0); N['sr'] = Ptr(s.rem2, 0); done = z3.BoolVal(False)
                    else: done = z3.And(done, z3.Not(rest))
                N['all'] = done
                N['after'] = left
                out.append((t, Throw('_ZTISt13runtime_error', Ptr(s.ctx0, 0)) if throw else done))
        return out

    def frag(s, g, st, p):
        return (g.load(st, p, ir.PTR), zi(g.dom.s(g.load(st, Ptr(p.obj, g.dom.off_add(p.off, 8), p.key), ir.INT(32)))))

    def fa(s, g, st, this):
        k = s.which(this)
        g.prove(st, k in ('h', 't'), 'the streams of this connection are set')
        if k not in ('h', 't'): raise Unsupported('which stream')
        return k

    def fa_assign(s, g, st, a, i):
        k = s.fa(g, st, a[0]); n = g.dom.idx(a[2])
        if not is_c(n): raise Unsupported('number of fragments')
        st.ghost[k + 'list'] = tuple(s.frag(g, st, Ptr(a[1].obj, g.dom.off_add(a[1].off, 16 * j))) for j in range(n))
        st.ghost[k] = z3.IntVal(n)
        return [(st, a[0])]

    def fa_clear(s, g, st, a, i):
        k = s.fa(g, st, a[0]); st.ghost[k + 'list'] = (); st.ghost[k] = z3.IntVal(0); return [(st, None)]

    def fa_add(s, g, st, a, i):
        k = s.fa(g, st, a[0]); st.ghost[k + 'list'] = (st.ghost[k + 'list'] or ()) + ((a[1], zi(g.dom.s(a[2]))),); st.ghost[k] = st.ghost[k] + 1; return [(st, None)]

    def fa_num(s, g, st, a, i): return [(st, IV(32, s=st.ghost[s.fa(g, st, a[0])]))]

    def rem_num(s, g, st, a, i):
        k = s.which(a[0])
        if k not in ('r', 'r2'): raise Unsupported('fragments of which span')
        g.prove(st, a[0].obj.id not in st.ghost['deleted'], 'the unfinished span is alive')
        return [(st, IV(32, s=st.ghost[k]))]

    def rem_del(s, g, st, a, i):
        o = a[1].obj
        g.prove(st, o in (s.rem, s.rem2) and o.id not in st.ghost['deleted'], 'only the span in hand is disposed of, once')
        st.ghost['deleted'] += (o.id,)
        # its unsent rest can only go uncounted if there is none: compared with what was counted at the end
        st.ghost['lost'] = st.ghost.get('lost', z3.IntVal(0)) + z3.If(st.ghost['r' if o is s.rem else 'r2'] > 0, 1, 0)
        return [(st, None)]

    def allot(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.spans, 0)), 'the spans of this stream'); st.ghost['allots'] += 1; return [(st, None)]

    def span_num(s, g, st, a, i): raise Unsupported('fragments of the span stream')

    def take(s, g, st, a, i):
        # the unique_ptr is returned through its first argument
        g.prove(st, g.ptr_eq(a[1], Ptr(s.spans, 0)), 'the spans of this stream')
        g.store(st, a[0], ir.PTR, st.ghost['sr'] or NULL); st.ghost['sr'] = None
        return [(st, None)]

    def count(s, k):
        def f(g, st, a, i):
            g.prove(st, g.ptr_eq(a[0], Ptr(s.metrics, 0)), 'counts go to the tracker of the span stream')
            n = zi(g.dom.s(a[1])); st.ghost[k] = st.ghost[k] + n
            if k == 'dropped': st.ghost['pending'] = st.ghost['pending'] + n
            return [(st, None)]
        return f

    def consume(s, g, st, a, i):
        v = st.ghost['pending']; st.ghost['pending'] = z3.IntVal(0); return [(st, IV(32, s=v))]

    def mctor(s, g, st, a, i): st.ghost['msg'] = z3.IntVal(0); return [(st, None)]
    def mset(s, g, st, a, i): st.ghost['msg'] = zi(g.dom.s(a[1])); return [(st, None)]
    def mmake(s, g, st, a, i): st.ghost['made'] = st.ghost['msg']; return [(st, [Ptr(s.mbytes, 0), IV(32, s=s.ms)])]

    def strlen(s, g, st, a, i):
        b = s.text(a[0], None)
        if b is None or 0 not in b: raise Unsupported('length of which string')
        return [(st, IV(64, u=z3.IntVal(b.index(0))))]

    def snprintf(s, g, st, a, i):
        if s.text(a[2], None) != b'%llX\r\n\0': raise Unsupported('format')
        v = zi(g.dom.u(a[3])); k = z3.Int('digits!%d' % next(Obj.ids))
        st.assume(z3.And(k >= 1, k <= 16, z3.Implies(z3.And(v >= 0, v < 2 ** 32), k <= 8)))
        g.prove(st, zi(g.dom.u(a[1])) >= k + 3, 'chunk header: the number fits the buffer')
        g.prove(st, a[0].obj is s.conn, 'chunk header: is kept with the connection')
        st.ghost['chunk'] = (a[0], v, k + 2)
        return [(st, IV(32, s=k + 2))]

    # ---- what the fragments of a stream say
    def text(s, p, n):
        """the bytes of a constant of the program"""
        if p.obj is None or not p.obj.const or not is_c(p.off): return None
        b = bytes(x & 255 for x in p.obj.table) if getattr(p.obj, 'table', None) is not None else None
        return None if b is None else b[p.off:] if n is None else b[p.off:p.off + n]

    def pieces(s, st, lst, what):
        """concatenation as a list of bytes / names"""
        e = s.e; out = []
        for p, n in lst:
            p = e.norm_ptr(p) if isinstance(p, Ptr) else p
            for nm, o, k in (('host', s.host, s.hs), ('common', s.common, s.cs), ('metrics', s.mbytes, s.ms)):
                if p.obj is o:
                    e.prove(st, z3.And(zi(p.off) == 0, n == k), '%s: the %s is sent whole' % (what, nm)); out.append(nm); break
            else:
                ch = st.ghost['chunk']
                if p.obj is s.conn and ch and p.off == ch[0].off:
                    e.prove(st, n == ch[2], what + ': the chunk header is sent whole'); out.append('chunk'); continue
                c = z3.simplify(n)
                if not z3.is_int_value(c): e.prove(st, False, what + ': known fragments'); continue
                b = s.text(p, c.as_long())
                if b is None or len(b) < c.as_long(): e.prove(st, False, what + ': known fragments'); continue
                if out and isinstance(out[-1], bytes): out[-1] += b
                else: out.append(b)
        return [x for x in out if x != b'']

    def request(s, st, what):
        """the stream was set up for a new request"""
        e = s.e; G = st.ghost
        e.prove(st, G['hlist'] is not None and G['tlist'] is not None, what + ': header and terminator are set')
        if not G['hlist'] or not G['tlist']: return
        P = s.pieces(st, G['hlist'], what)
        e.prove(st, P[1:] == ['host', b'\r\n', 'chunk', 'common', 'metrics', b'\r\n'] and isinstance(P[0], bytes), what + ': request header, host, a blank line, then one chunk with common header and metrics')
        head = P[0] if P and isinstance(P[0], bytes) else b''
        lines = head.split(b'\r\n')
        e.prove(st, lines[0] == b'POST /api/v2/reports HTTP/1.1' and lines[-1] == b'' and b'' not in lines[:-1], what + ': the request line and whole header lines')
        hl = [re.sub(rb'\s*:\s*', b':', x.lower().strip()) for x in lines[1:-1]]
        e.prove(st, b'transfer-encoding:chunked' in hl and b'connection:close' in hl and b'content-type:application/octet-stream' in hl and len(set(x.split(b':')[0] for x in hl)) == len(hl), what + ': chunked, closed at the end')
        if G['chunk']: e.prove(st, G['chunk'][1] == s.cs + s.ms, what + ': the chunk size is that of common header and metrics')
        e.prove(st, s.pieces(st, G['tlist'], what) == [b'0\r\n\r\n'], what + ': the terminator is an empty last chunk')
        e.prove(st, z3.And(G['h'] > 0, G['t'] > 0), what + ': nothing of either was sent')
        s.head = len(head)

    def remnant(s, st):
        return s.e.norm_ptr(s.e.load(st, Ptr(s.conn, s.O['span_remnant']), ir.PTR))

    def flag(s, st, fn):
        r = []
        for t, v in s.e.call_value(st.clone(), fn, [Ptr(s.conn, 0)]): r.append((t, v))
        if len(r) != 1: raise Unsupported(fn)
        return r[0][1]


def new(ctx):
    w = W(ctx, 'construction'); e = w.e
    for o in w.construct():
        e.cur = o
        w.request(o, 'construction')
        e.prove(o, z3.And(o.ghost['msg'] == w.P, o.ghost['made'] == w.P, o.ghost['pending'] == 0), 'construction: the metrics carry the pending drop count, which is taken off')
        e.prove(o, e.ptr_eq(w.remnant(o), NULL), 'construction: no span is in hand')
        e.prove(o, z3.Not(zb(w.flag(o, 'vf_shutting_down'))), 'construction: not shutting down'); e.prove(o, z3.Not(zb(w.flag(o, 'vf_completed'))), 'construction: not complete')
        e.prove(o, zi(e.dom.s(w.flag(o, 'vf_first'))) == w.head + w.hs + 2, 'first_chunk_position: the length of the request header')
    return e


def flush(remnant, closing):
    def f(ctx):
        nm = ('shutdown' if closing else 'flush') + (' with an unfinished span' if remnant else '')
        w = W(ctx, nm); e = w.e; st = w.live(remnant, closing)
        cb = e.call_value(st, 'vf_get_writer', [])[0][1]
        outs = e.run('vf_flush', st, [Ptr(w.conn, 0), Ptr(w.ctx0, 0), cb]); reachable(e, outs)
        e.prove(w.s0, any(o.outcome[0] == 'throw' for o in outs), 'flush: a failure of the writer is passed on')
        for o in outs:
            e.cur = o
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            G = o.ghost
            e.prove(o, G['calls'] == 1, 'flush: the writer is called')
            if G['calls'] != 1: continue
            if o.outcome[0] != 'throw': e.prove(o, zb(o.outcome[1]) == G['all'], 'flush: reports whether everything was written')
            left = G['after']
            p = w.remnant(o)
            e.prove(o, G['sr'] is None, 'flush: no unfinished span is left behind in the span stream')
            started = not z3.is_int_value(z3.simplify(G['r2']))
            fin = left['r'] == 0 if remnant else z3.BoolVal(True)
            if started:
                e.prove(o, e.ptr_eq(p, Ptr(w.rem2, 0)), 'flush: a span cut off is kept, to be finished first')
            elif remnant:
                e.prove(o, z3.Implies(z3.Not(fin), zb(e.ptr_eq(p, Ptr(w.rem, 0)))), 'flush: a span still unfinished is kept, to be finished first')
                e.prove(o, z3.Implies(fin, zb(e.ptr_eq(p, NULL))), 'flush: a span finished is let go')
            else: e.prove(o, e.ptr_eq(p, NULL), 'flush: no span is in hand unless one was cut off')
            e.prove(o, G['sent'] == (z3.If(fin, 1, 0) if remnant else 0), 'flush: a span finished is counted as sent, once')
            e.prove(o, z3.And(G['dropped'] == 0, G.get('lost', z3.IntVal(0)) == 0, G['pending'] == w.s0.ghost['pending']), 'flush: nothing is dropped')
            e.prove(o, zb(w.flag(o, 'vf_completed')) == (left['t'] == 0), 'completed: exactly when the terminator was sent')
            e.prove(o, zb(w.flag(o, 'vf_shutting_down')) == closing, 'flush: does not change whether the connection shuts down')
            e.prove(o, G['msg'] == w.D, 'flush: the metrics are unchanged')
        return e
    return f


def reset(ctx):
    engs = []
    for remnant in (False, True):
        for closing in (False, True):
            w = W(ctx, 'reset'); e = w.e; engs.append(e); st = w.live(remnant, closing)
            st.ghost['hlist'] = st.ghost['tlist'] = st.ghost['chunk'] = None
            outs = returns(e, e.run('vf_reset', st, [Ptr(w.conn, 0)]), 'reset'); reachable(e, outs)
            for o in outs:
                e.cur = o
                if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
                G = o.ghost; lost = 1 if remnant else 0
                e.prove(o, G['dropped'] == lost, 'reset: a span cut off is counted as dropped, once')
                e.prove(o, G['sent'] == 0, 'reset: nothing is counted as sent')
                back = z3.If(w.h > 0, w.D, 0)
                e.prove(o, z3.And(G['pending'] == 0, G['msg'] == w.P + back + lost, G['made'] == G['msg']), 'reset: drop counts which did not go out are announced again, those that did are not')
                e.prove(o, e.ptr_eq(w.remnant(o), NULL), 'reset: no span is in hand')
                if remnant: e.prove(o, o.ghost['deleted'] == (w.rem.id,), 'reset: the span in hand is freed')
                w.request(o, 'reset')
                e.prove(o, z3.Not(zb(w.flag(o, 'vf_shutting_down'))), 'reset: a new session, not shutting down'); e.prove(o, z3.Not(zb(w.flag(o, 'vf_completed'))), 'reset: a new session, not complete')
    return engs


def shut(ctx):
    w = W(ctx, 'Shutdown'); e = w.e; st = w.live(True, False)
    before = w.remnant(st)
    for o in returns(e, e.run('vf_shutdown', st, [Ptr(w.conn, 0)]), 'Shutdown'):
        e.cur = o
        e.prove(o, zb(w.flag(o, 'vf_shutting_down')), 'shutdown: is begun'); e.prove(o, z3.Not(zb(w.flag(o, 'vf_completed'))), 'shutdown: not complete yet')
        e.prove(o, b_and(e.ptr_eq(w.remnant(o), before), z3.And(o.ghost['h'] == w.h, o.ghost['t'] == w.t, o.ghost['sent'] == 0, o.ghost['dropped'] == 0)), 'shutdown: what is in hand stays')
    return e


def units(ctx):
    F = ['ConnectionStream::Flush', 'ConnectionStream::FlushShutdown']
    return [Unit('construction', new, ['ConnectionStream::ConnectionStream', 'ConnectionStream::InitializeStream', 'WriteChunkHeader', 'ConnectionStream::first_chunk_position', 'MakeFragment'], timeout=300), Unit('flush', flush(False, False), F, timeout=300), Unit('flush, unfinished span', flush(True, False), F, timeout=300),
            Unit('flush when shutting down', flush(False, True), F, timeout=300), Unit('flush when shutting down, unfinished span', flush(True, True), F, timeout=300), Unit('reset', reset, ['ConnectionStream::Reset', 'ConnectionStream::InitializeStream'], timeout=300), Unit('shutdown', shut, ['ConnectionStream::Shutdown', 'ConnectionStream::shutting_down', 'ConnectionStream::completed'], timeout=200)]


Q = 'lightstep-tracer-common/'


def natives(ctx):
    return [Native('native/C27.cpp', srcs=['src/recorder/stream_recorder/connection_stream.cpp', 'src/recorder/stream_recorder/span_stream.cpp', 'src/recorder/metrics_tracker.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp', 'src/common/protobuf.cpp', 'src/common/chained_stream.cpp', 'src/common/composable_fragment_input_stream.cpp', 'src/common/fragment_input_stream.cpp', 'src/common/fragment_array_input_stream.cpp'], protos=True, gensrcs=[Q + 'collector.pb.cc', Q + 'google/api/annotations.pb.cc', Q + 'google/api/http.pb.cc'], libs=['-lprotobuf'], budget=(10, 60))]
