"""C31: span serialization - the bytes recorded for a span field decode to exactly what was set, every declared length exact."""
import re
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['each serialized field is smaller than 2^31 bytes (protobuf\'s own limit), times lie after 1970, fewer than 2^31 log fields',
               'the texts and values passed in do not change while they are written']
TRUSTED = ['protobuf: CodedOutputStream::WriteTag/WriteVarint32/WriteVarint64/WriteRaw and their ToArray forms write the canonical varint resp. the given bytes, VarintSize32/64 is the number of bytes of that varint, GetDirectBufferForNBytesAndAdvance(n) returns null or n writable bytes of the stream; a protobuf decoder reads such tokens as the fields of lightstep-tracer-common/collector.proto',
           'DirectCodedOutputStream::WriteBigVarint64 writes the canonical varint (proved as C13)', 'libstdc++: std::string and std::vector members (data, size, move, emplace_back); opentracing::Value visits the alternative it holds (interface stand-in in harness/stubs)']
SRC = ['src/tracer/serialization.cpp', 'src/common/serialization.cpp']
I = z3.IntSort()
U = z3.Function('varint_size', I, I)
SUM = z3.Function('size_of_items_before', I, I); COUNT = z3.Function('conversions_before', I, I)


def vs(x):
    if is_c(x): return max(1, (x.bit_length() + 6) // 7)
    x = z3.simplify(x)
    if z3.is_int_value(x): return vs(x.as_long())
    return z3.If(x < 128, z3.IntVal(1), U(x))


# ---- what a decoder expects: nested messages with lengths computed from their contents
def tag(f, w): return ('v', f * 8 + w)
def Varint(f, v): return [tag(f, 0), ('v', v)]
def Fixed64(f, v): return [tag(f, 1), ('f', v)]
def Bytes(f, p, n): return [tag(f, 2), ('v', n), ('r', p, n)]
def size(tokens): return sum((vs(t[1]) if t[0] == 'v' else 8 if t[0] == 'f' else t[2] for t in tokens), 0)


def Msg(f, tokens, more=0):
    """a message field of these tokens followed by `more` bytes of repeated fields"""
    n = size(tokens) + more
    return [tag(f, 2), ('v', n)] + tokens


class Proto:
    """field numbers of collector.proto"""
    def __init__(s):
        s.txt = open('/repo/lightstep-tracer-common/collector.proto').read()

    def __call__(s, msg, field):
        m = re.search(r'^message %s \{(.*?)^\}' % msg, s.txt, re.S | re.M)
        return int(re.search(r'\b%s\s*=\s*(\d+)\s*;' % field, m.group(1)).group(1))

    def enum(s, name): return int(re.search(r'\b%s\s*=\s*(\d+)\s*;' % name, s.txt).group(1))


class Writer:
    """contracts of the output stream; the bytes written are checked, token by token, against the expected message
    prefix, then `body(i)` for each i < n"""
    def __init__(s, ctx, name, srcs=SRC, contracts=()):
        s.m = ctx.module(srcs); s.st = st = State(); s.P = Proto()
        C = r'google::protobuf::io::CodedOutputStream::'; D = r'^lightstep::DirectCodedOutputStream::'; S = r'^std::__cxx11::basic_string<char,.*>::'
        s.e = e = Engine(s.m, name=name, contracts=list(contracts) + [
            (rx('^%s(WriteTag|WriteVarint32|WriteVarint64)\\(' % C), s.varint), (rx('^%sWriteRaw\\(' % C), s.raw), (rx('^%s(WriteTagToArray|WriteVarint32ToArray|WriteVarint64ToArray)\\(' % C), s.varint_to), (rx('^%sWriteRawToArray\\(' % C), s.raw_to),
            (rx('^%sVarintSize(32|64)\\(' % C), s.varint_size), (rx('^%sGetDirectBufferForNBytesAndAdvance\\(' % C), s.direct), (rx(D + r'WriteBigVarint64\('), s.big),
            (rx(r'^strlen$'), s.strlen), (rx(S + r'size\('), lambda g, st, a, i: [(st, IV(64, u=s.strof(st, a[0])[1]))]), (rx(S + r'empty\('), lambda g, st, a, i: [(st, s.strof(st, a[0])[1] == 0)]), (rx(S + r'length\('), lambda g, st, a, i: [(st, IV(64, u=s.strof(st, a[0])[1]))]), (rx(S + r'(data|c_str)\('), lambda g, st, a, i: [(st, s.strof(st, a[0])[0])]),
            (rx(S + r'basic_string\(\)'), s.str_none), (rx(S + r'(basic_string|operator=)\(std::__cxx11::basic_string<.*>&&\)'), s.str_move), (rx(S + r'~basic_string\('), noop), (rx(r'^lightstep::ToJson\[abi:cxx11\]\(opentracing::Value const&\)'), s.tojson)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand)
        s.stream = e.new_obj(st, 'stream', kind='struct', size=80)
        x = z3.Int('x'); st.assume_q(z3.ForAll([x], z3.And(U(x) >= 2, U(x) <= 10), patterns=[U(x)]))
        Z = z3.IntVal
        st.ghost.update(phase=Z(0), item=Z(0), pos=Z(0), end=Z(0), jn=Z(0))
        s.prefix = []; s.body = None; s.n = None; s.stride = 1; s.more = None; s.reserved = False; s.jsontext = e.new_obj(st, 'json text', kind='array', stride=1, layout={0: ('int', 8, False)}); s.jl = z3.Int('json_size'); st.assume(z3.And(s.jl >= 0, s.jl < 2 ** 29)); s.json_of = None

    def cand(s, e, view):
        g = lambda w: w.st.ghost
        out = [('%s is what it was' % k, lambda w, k=k: g(w)[k] == w.entry.ghost[k]) for k in ('phase', 'item', 'pos', 'end')] + [('nothing is left to write', lambda w: g(w)['pos'] == g(w)['end'])]
        if s.n is None: return out
        out += [('items written', lambda w: g(w)['pos'] - SUM(g(w)['item']) == w.entry.ghost['pos'] - SUM(w.entry.ghost['item'])), ('item >= 0', lambda w: g(w)['item'] >= 0), ('item <= n', lambda w: g(w)['item'] <= s.n)]
        ints = [n for n, t in view.ints()]; at = {}
        for k in ints:
            x = lambda w, k=k: zi(w.term(w.get(k))); x0 = lambda w, k=k: zi(w.term(w.get_entry(k)))
            out.append(('%s is next to what was written' % (k,), lambda w, x=x, x0=x0: x(w) - g(w)['pos'] == x0(w) - w.entry.ghost['pos']))
            out.append(('%s is the item' % (k,), lambda w, x=x: x(w) == g(w)['item']))
            out.append(('%s is at the item' % (k,), lambda w, x=x: x(w) == s.stride * g(w)['item']))
            out.append(('%s is at the number of conversions' % (k,), lambda w, x=x: x(w) == COUNT(g(w)['item'])))
            at[k] = lambda w, x=x: x(w) / s.stride
        for k in at:
            i = at[k]
            out += [('%s is at an item' % (k,), lambda w, k=k, i=i: z3.And(zi(w.term(w.get(k))) % s.stride == 0, i(w) >= 0, i(w) <= s.n)), ('conversions before %s' % (k,), lambda w, i=i: g(w)['jn'] == COUNT(i(w)))]
            for j in ints:
                if j == k: continue
                y = lambda w, j=j: zi(w.term(w.get(j))); y0 = lambda w, j=j: zi(w.term(w.get_entry(j)))
                out.append(('%s measures the items before %s' % (j, k), lambda w, i=i, y=y, y0=y0: y(w) == y0(w) + SUM(i(w))))
                out.append(('%s counts the items before %s' % (j, k), lambda w, i=i, y=y: y(w) == i(w)))
                out.append(('%s counts the conversions before %s' % (j, k), lambda w, i=i, y=y: y(w) == COUNT(i(w))))
            if s.more: out += s.more(e, view, k, i)
        return out

    def expect(s, prefix, body=None, n=None, k=0):
        s.prefix = prefix; s.body = body; s.n = n; s.nbody = len(body(z3.IntVal(0))) if body else 0
        s.where = ['field %d of the message' % i for i in range(len(prefix))]

    def const_phase(s, st):
        p = z3.simplify(st.ghost['phase'])
        if z3.is_int_value(p): return p.as_long()
        for k in range(len(s.prefix) + s.nbody + 1):
            if s.e.oracle(p == k) is True: return k
        return None

    def next(s, st):
        """the token that has to follow, or None"""
        s.e.cur = st; k = s.const_phase(st); a = len(s.prefix)
        if k is None: return None
        if k < a: return s.prefix[k]
        if s.body is None: return None
        it = st.ghost['item']
        if k == a and s.e.oracle(it < s.n) is not True: return None
        return s.body(it)[k - a]

    def advance(s, st):
        k = s.const_phase(st); a = len(s.prefix); Z = z3.IntVal
        if s.body is not None and k == a + s.nbody - 1: st.gset('phase', Z(a)); st.gset('item', st.ghost['item'] + 1)
        else: st.gset('phase', Z(k + 1))

    def skip(s, st):
        """an empty text may be left out"""
        while True:
            t = s.next(st)
            if t is None or t[0] != 'r' or s.e.oracle(zi(t[2]) == 0) is not True: return
            s.advance(st)

    def emit(s, st, kind, n, *v):
        e = s.e; e.cur = st
        if kind == 'r' and s.e.oracle(n == 0) is True:
            t = s.next(st)
            if t is not None and t[0] == 'r' and e.oracle(zi(t[2]) == 0) is True: s.advance(st)
            return
        if kind != 'r': s.skip(st)
        t = s.next(st)
        if t is None or t[0] not in {'v': 'v', 'r': 'rf', 'kv': 'kv'}[kind] and t[0] != kind:
            e.prove(st, False, 'encoding: nothing but the fields of the message is written')
            st.gset('phase', z3.FreshInt('phase')); st.gset('item', z3.FreshInt('item'))
        else:
            if kind == 'v': e.prove(st, zi(v[0]) == zi(t[1]), 'encoding: each key, length and number is the one the message has')
            elif t[0] == 'r': e.prove(st, b_and(n == zi(t[2]), e.ptr_eq(v[0], t[1])), 'encoding: each text is written from its first to its last byte')
            elif t[0] == 'f': e.prove(st, b_and(n == 8, s.bits(st, v[0]) == t[1]), 'encoding: a double is written as its bits')
            elif kind == 'kv': e.prove(st, v[0] == t[1], 'encoding: the fields of a log in turn')
            s.advance(st)
        st.gset('pos', st.ghost['pos'] + n)
        if s.reserved: e.prove(st, st.ghost['pos'] <= st.ghost['end'], 'encoding: no more bytes than were reserved')
        else: st.gset('end', st.ghost['pos'])

    def bits(s, st, p):
        p = s.e.norm_ptr(p); c = st.mem.get(p.obj.id, {}).get(p.off) if is_c(p.off) else None
        if c is None or c[0] != 8: raise Unsupported('bytes of a number')
        v = c[1]
        if isinstance(v, tuple) and v[0] == 'float': v = v[1]
        if not isinstance(v, IV): raise Unsupported('bytes of a number')
        return zi(s.e.dom.u(v))

    def on_stream(s, st, p):
        s.e.prove(st, s.e.ptr_eq(p, Ptr(s.stream, 0)), 'encoding: written to the given stream')
        s.e.prove(st, st.ghost['pos'] == st.ghost['end'], 'encoding: all of the reserved bytes are written before anything else'); s.reserved = False

    def varint(s, g, st, a, i): s.on_stream(st, a[0]); v = g.dom.u(g.as_int(a[1])); s.emit(st, 'v', vs(v), v); return [(st, None)]

    def raw(s, g, st, a, i):
        n = zi(g.dom.s(g.as_int(a[2])))
        if g.oracle(n == 0) is not True: s.on_stream(st, a[0])
        s.emit(st, 'r', n, a[1]); return [(st, None)]

    def at(s, st, p):
        p = s.e.norm_ptr(p); o = p.obj; s.reserved = True
        if not hasattr(o, 'base'): s.e.prove(st, False, 'encoding: written where bytes were reserved'); return
        s.e.prove(st, z3.And(zi(p.off) == st.ghost['pos'] - o.base, o.base + o.total == st.ghost['end']), 'encoding: written next to what was written before')

    def varint_to(s, g, st, a, i):
        s.at(st, a[1]); v = g.dom.u(g.as_int(a[0])); p = g.norm_ptr(a[1]); s.emit(st, 'v', vs(v), v); return [(st, Ptr(p.obj, g.dom.off_add(p.off, vs(v))))]

    def raw_to(s, g, st, a, i):
        n = zi(g.dom.s(g.as_int(a[1]))); p = g.norm_ptr(a[2])
        if g.oracle(n == 0) is not True: s.at(st, a[2])
        s.emit(st, 'r', n, a[0]); return [(st, Ptr(p.obj, g.dom.off_add(p.off, n)))]

    def big(s, g, st, a, i):
        p = g.load(st, a[0], ir.PTR); q = s.varint_to(g, st, [a[1], p], i)[0][1]; g.store(st, a[0], ir.PTR, q); return [(st, None)]

    def varint_size(s, g, st, a, i): return [(st, IV(64, u=zi(vs(g.dom.u(g.as_int(a[0]))))))]

    def direct(s, g, st, a, i):
        s.on_stream(st, a[0]); n = zi(g.dom.s(a[1])); g.prove(st, n >= 0, 'encoding: the number of bytes reserved')
        t = st.clone(); o = g.new_obj(t, 'reserved', kind='array', stride=1, layout={0: ('int', 8, False)}, n=n)
        o.base = t.ghost['pos']; o.total = n; t.gset('end', o.base + n)
        return [(st, NULL), (t, Ptr(o, 0))]

    def strof(s, st, p):
        p = s.e.norm_ptr(p); e = s.e
        return e.load(st, p, ir.PTR), zi(e.dom.u(e.as_int(e.load(st, Ptr(p.obj, e.dom.off_add(p.off, 8), p.key), ir.INT(64)))))

    def put_str(s, st, p, q, n):
        e = s.e; p = e.norm_ptr(p); e.store(st, p, ir.PTR, q); e.store(st, Ptr(p.obj, e.dom.off_add(p.off, 8), p.key), ir.INT(64), IV(64, u=zi(n)))

    def str_none(s, g, st, a, i): s.put_str(st, a[0], NULL, 0); return [(st, None)]
    def str_move(s, g, st, a, i): p, n = s.strof(st, a[1]); s.put_str(st, a[0], p, n); return [(st, a[0] if i['rt'][0] != 'void' else None)]

    def strlen(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.chars, 0))), 'memory: the length of the given text'); return [(st, IV(64, u=s.cl))]

    def tojson(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[1], s.json_of), 'encoding: the value itself is converted'); s.put_str(st, a[0], Ptr(s.jsontext, 0), s.jl); return [(st, None)]

    def text(s, name):
        e, st = s.e, s.st; o = e.new_obj(st, name, kind='array', stride=1, layout={0: ('int', 8, False)}); n = z3.Int(name + '_size'); st.assume(z3.And(n >= 0, n < 2 ** 29)); return o, n

    def done(s, outs, what):
        e = s.e; outs = returns(e, outs, what); reachable(e, outs)
        for o in outs:
            e.cur = o; s.skip(o); a = len(s.prefix)
            e.prove(o, z3.And(o.ghost['phase'] == a, o.ghost['item'] == s.n) if s.body is not None else o.ghost['phase'] == a, 'encoding: the whole message is written')
            e.prove(o, o.ghost['pos'] == o.ghost['end'], 'encoding: all of the reserved bytes are written')
            total = size(s.prefix) if s.body is None else s.total
            e.prove(o, o.ghost['pos'] == total, 'encoding: as many bytes as the message has')
        return outs

    def sums(s, n, each, trigger):
        """SUM(i): the size of the first i items; SUM(n) is small enough"""
        st = s.st; i = z3.Int('i'); s.n = n
        st.assume(z3.And(n >= 0, n < 2 ** 25, SUM(0) == 0, SUM(n) < 2 ** 30)); s.total = None
        st.assume_q(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), SUM(i + 1) == SUM(i) + zi(each(i))), patterns=[trigger(i)]))
        st.assume_q(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(SUM(i) >= 0, SUM(i) <= SUM(n))), patterns=[SUM(i)]))

    # ---- values
    def value(s, k):
        """an opentracing::Value holding alternative k, and its tokens"""
        e, st, P = s.e, s.st, s.P
        F = lambda f: P('KeyValue', f)
        o = e.new_obj(st, 'value', kind='struct', size=64); s.json_of = Ptr(o, 0)
        x = z3.Int('number'); st.assume(z3.And(x >= 0, x < 2 ** 64)); mem = {0: (4, e.dom.const(32, k))}
        if k == 0: st.assume(x < 2); mem[8] = (1, IV(8, u=x)); t = Varint(F('bool_value'), x)
        elif k == 1: mem[8] = (8, IV(64, u=x)); t = Fixed64(F('double_value'), x)
        elif k in (2, 3): mem[8] = (8, IV(64, u=x)); t = Varint(F('int_value'), x)
        elif k == 4:
            q, n = s.text('string'); so = e.new_obj(st, 'string object', kind='struct', size=32); st.mem[so.id] = {0: (8, Ptr(q, 0)), 8: (8, IV(64, u=n))}
            mem[16] = (8, Ptr(so, 0)); t = Bytes(F('string_value'), Ptr(q, 0), n)
        elif k == 5: t = Varint(F('bool_value'), 0)
        elif k == 6: s.chars, s.cl = s.text('characters'); mem[8] = (8, Ptr(s.chars, 0)); t = Bytes(F('string_value'), Ptr(s.chars, 0), s.cl)
        else:
            so = e.new_obj(st, 'container', kind='struct', size=64); mem[32 if k == 7 else 48] = (8, Ptr(so, 0)); t = Bytes(F('json_value'), Ptr(s.jsontext, 0), s.jl)
        st.mem[o.id] = mem
        return o, t


KINDS = ('bool', 'double', 'int64', 'uint64', 'string', 'nullptr', 'char*', 'values', 'dictionary')


def tags(ctx):
    engs = []
    for k in range(9):
        W = Writer(ctx, 'WriteTag ' + KINDS[k]); e = W.e; engs.append(e)
        key, n = W.text('key'); v, t = W.value(k)
        W.expect(Msg(W.P('Span', 'tags'), Bytes(W.P('KeyValue', 'key'), Ptr(key, 0), n) + t))
        W.done(e.run(find(W.m, e, 'lightstep::WriteTag(google::protobuf::io::CodedOutputStream&'), W.st, [Ptr(W.stream, 0), Ptr(key, 0), IV(64, u=n), Ptr(v, 0)]), 'WriteTag')
    return engs


def keyvalue(ctx):
    """the two halves of a key-value, as the log contract uses them"""
    engs = []
    for k in range(9):
        W = Writer(ctx, 'ComputeKeyValueSerializationSize ' + KINDS[k]); e = W.e; st = W.st; engs.append(e)
        key, n = W.text('key'); v, t = W.value(k)
        js = e.new_obj(st, 'json', kind='struct', size=32); old = e.new_obj(st, 'old json', kind='array', stride=1); st.mem[js.id] = {0: (8, Ptr(old, 0)), 8: (8, IV(64, u=z3.Int('old_size')))}
        c = z3.Int('counter'); st.assume(z3.And(c >= 0, c < 2 ** 30, z3.Int('old_size') >= 0, z3.Int('old_size') < 2 ** 31)); cp = e.new_obj(st, 'counter', kind='struct', size=4); st.mem[cp.id] = {0: (4, IV(32, s=c))}
        for o in returns(e, e.run(find(W.m, e, 'lightstep::ComputeKeyValueSerializationSize('), st, [Ptr(key, 0), IV(64, u=n), Ptr(v, 0), Ptr(js, 0), Ptr(cp, 0)]), 'ComputeKeyValueSerializationSize'):
            e.cur = o; want = size(Bytes(W.P('KeyValue', 'key'), Ptr(key, 0), n) + t)
            e.prove(o, zi(e.dom.u(e.as_int(o.outcome[1]))) == want, 'size: a key-value is measured as it is written')
            e.prove(o, zi(e.dom.s(e.load(o, Ptr(cp, 0), ir.INT(32)))) == c + (1 if k >= 7 else 0), 'size: a value that needs conversion is counted')
            p, m = W.strof(o, Ptr(js, 0)); e.prove(o, b_and(e.ptr_eq(p, Ptr(W.jsontext, 0)), m == W.jl) if k >= 7 else True, 'size: the converted value is handed over')
            e.prove(o, o.ghost['pos'] == 0, 'size: measuring writes nothing')
        W = Writer(ctx, 'WriteKeyValueImpl ' + KINDS[k]); e = W.e; st = W.st; engs.append(e)
        key, n = W.text('key'); v, t = W.value(k)
        W.expect(Bytes(W.P('KeyValue', 'key'), Ptr(key, 0), n) + t)
        c = z3.Int('counter'); m = z3.Int('json_values'); st.assume(z3.And(c >= 0, c < m, m < 2 ** 30)); cp = e.new_obj(st, 'counter', kind='struct', size=4); st.mem[cp.id] = {0: (4, IV(32, s=c))}
        js = e.new_obj(st, 'json values', kind='array', stride=32, layout={0: ('ptr', lambda en, s_, t_, W=W: Ptr(W.jsontext, t_)), 8: ('int', 64, False)}, n=m)
        if k >= 7:      # the entry at the counter is this value's text
            st.assume(z3.And(z3.Select(e.arr(st, js, 0, js.layout[0]), c) == 0, z3.Select(e.arr(st, js, 8, js.layout[8]), c) == W.jl))
        for o in W.done(e.run(find(W.m, e, 'lightstep::WriteKeyValueImpl('), st, [Ptr(W.stream, 0), Ptr(key, 0), IV(64, u=n), Ptr(v, 0), Ptr(js, 0), Ptr(cp, 0)]), 'WriteKeyValueImpl'):
            e.prove(o, zi(e.dom.s(e.load(o, Ptr(cp, 0), ir.INT(32)))) == c + (1 if k >= 7 else 0), 'encoding: a converted value is used once')
    return engs


def simple(ctx):
    engs = []

    def world(name):
        W = Writer(ctx, name); engs.append(W.e); return W, W.e, W.st
    W, e, st = world('WriteOperationName'); p, n = W.text('name')
    W.expect(Bytes(W.P('Span', 'operation_name'), Ptr(p, 0), n))
    W.done(e.run(find(W.m, e, 'lightstep::WriteOperationName('), st, [Ptr(W.stream, 0), Ptr(p, 0), IV(64, u=n)]), 'WriteOperationName')

    W, e, st = world('WriteStartTimestamp'); t = z3.Int('nanoseconds'); st.assume(z3.And(t >= 0, t < 2 ** 63))
    W.expect(Msg(W.P('Span', 'start_timestamp'), Varint(1, t / 10 ** 9) + Varint(2, t % 10 ** 9)))
    W.done(e.run(find(W.m, e, 'lightstep::WriteStartTimestamp('), st, [Ptr(W.stream, 0), IV(64, s=t)]), 'WriteStartTimestamp')

    W, e, st = world('WriteDuration'); t = z3.Int('nanoseconds'); st.assume(z3.And(t >= 0, t < 2 ** 63))
    W.expect(Varint(W.P('Span', 'duration_micros'), t / 1000))
    W.done(e.run(find(W.m, e, 'lightstep::WriteDuration('), st, [Ptr(W.stream, 0), IV(64, s=t)]), 'WriteDuration')

    for kind, name in ((1, 'CHILD_OF'), (2, 'FOLLOWS_FROM')):
        W, e, st = world('WriteSpanReference ' + name); a, b = z3.Ints('trace span'); st.assume(z3.And(a >= 0, a < 2 ** 64, b >= 0, b < 2 ** 64))
        W.expect(Msg(W.P('Span', 'references'), Varint(W.P('Reference', 'relationship'), W.P.enum(name)) + Msg(W.P('Reference', 'span_context'), Varint(W.P('SpanContext', 'trace_id'), a) + Varint(W.P('SpanContext', 'span_id'), b))))
        W.done(e.run(find(W.m, e, 'lightstep::WriteSpanReference('), st, [Ptr(W.stream, 0), e.dom.const(32, kind), IV(64, u=a), IV(64, u=b)]), 'WriteSpanReference')
    return engs


def context(ctx):
    W = Writer(ctx, 'WriteSpanContext'); e, st, P = W.e, W.st, W.P
    a, b, n = z3.Ints('trace span baggage_items'); st.assume(z3.And(a >= 0, a < 2 ** 64, b >= 0, b < 2 ** 64))
    txt = e.new_obj(st, 'texts', kind='array', stride=1, layout={0: ('int', 8, False)})
    P_ = ('ptr', lambda en, s_, t_: Ptr(txt, t_)); L = ('int', 64, False)
    items = e.new_obj(st, 'items', kind='array', stride=64, layout={0: P_, 8: L, 32: P_, 40: L}, n=n); items.const = True
    kp, kl, vp, vl = (e.arr(st, items, k, items.layout[k]) for k in (0, 8, 32, 40))
    i = z3.Int('i'); st.assume_q(z3.ForAll([i], z3.And(kl[i] >= 0, kl[i] < 2 ** 28), patterns=[kl[i]])); st.assume_q(z3.ForAll([i], z3.And(vl[i] >= 0, vl[i] < 2 ** 28), patterns=[vl[i]]))
    vec = e.new_obj(st, 'baggage', kind='struct', size=24); st.mem[vec.id] = {0: (8, Ptr(items, 0)), 8: (8, Ptr(items, 64 * n)), 16: (8, Ptr(items, 64 * n))}
    body = lambda i: Msg(P('SpanContext', 'baggage'), Bytes(1, Ptr(txt, kp[i]), kl[i]) + Bytes(2, Ptr(txt, vp[i]), vl[i]))
    W.sums(n, lambda i: size(body(i)), lambda i: kl[i]); W.stride = 64
    W.expect(Msg(P('Span', 'span_context'), Varint(P('SpanContext', 'trace_id'), a) + Varint(P('SpanContext', 'span_id'), b), SUM(n)), body, n)
    W.total = size(W.prefix) + SUM(n)
    W.done(e.run(find(W.m, e, 'lightstep::WriteSpanContext('), st, [Ptr(W.stream, 0), IV(64, u=a), IV(64, u=b), Ptr(vec, 0)]), 'WriteSpanContext')
    return e


JS = z3.Function('needs_conversion', I, z3.BoolSort()); KV = z3.Function('key_value_size', I, I)


def log(key, fn):
    def f(ctx):
        """WriteLog over the contracts of the two halves of a key-value"""
        W = None; voff = 16 if key == 'view' else 32; stride = voff + 64

        def field(g, st, p, n, v):
            v = g.norm_ptr(v); i = (zi(v.off) - voff) / stride
            if v.obj is not W.fields: raise Unsupported('value of other than a field')
            g.prove(st, z3.And(zi(v.off) == stride * i + voff, i >= 0, i < W.n), 'log: a field of the log')
            g.prove(st, b_and(g.ptr_eq(p, Ptr(W.txt, W.kp[i])), zi(g.dom.u(g.as_int(n))) == W.kl[i]), 'log: a field has its own key')
            return i

        def measure(g, st, a, ins):
            i = field(g, st, a[0], a[1], a[2]); c = zi(g.dom.s(g.load(st, a[4], ir.INT(32))))
            j = W.e.norm_ptr(a[3]); st.gset('js', z3.If(JS(i), i, st.ghost['js'])); W.json = j
            g.store(st, a[4], ir.INT(32), IV(32, s=z3.If(JS(i), c + 1, c))); return [(st, IV(64, u=KV(i)))]

        def write(g, st, a, ins):
            i = field(g, st, a[1], a[2], a[3]); c = zi(g.dom.s(g.load(st, a[5], ir.INT(32)))); W.on_stream(st, a[0])
            g.prove(st, z3.Implies(JS(i), z3.And(zb(g.ptr_eq(a[4], Ptr(W.values, 0))), c >= 0, c < st.ghost['jn'], st.ghost['jv'][c] == i)), 'log: a converted value is written for its own field')
            W.emit(st, 'kv', KV(i), i)
            g.store(st, a[5], ir.INT(32), IV(32, s=z3.If(JS(i), c + 1, c))); return [(st, None)]

        def append(g, st, a, ins):
            g.prove(st, b_and(W.json is not None, g.ptr_eq(a[1], W.json) if W.json is not None else False), 'log: the converted value is kept')
            n = st.ghost['jn']; st.gset('jv', z3.Store(st.ghost['jv'], n, st.ghost['js'])); st.gset('jn', n + 1); st.gset('js', z3.IntVal(-1)); return [(st, None if ins['rt'][0] == 'void' else Ptr(W.values, 32 * n))]
        V = r'std::vector<std::__cxx11::basic_string<char,.*>, .*>::'
        W = Writer(ctx, fn, ['src/tracer/serialization.cpp'], contracts=[('lightstep::ComputeKeyValueSerializationSize(', measure), ('lightstep::WriteKeyValueImpl(', write),
            (rx('^' + V + r'vector\(\)'), lambda g, st, a, i: (st.gset('jn', z3.IntVal(0)), [(st, None)])[1]), (rx('^' + V + r'(~vector|reserve)\('), noop), (rx('^' + V + r'size\('), lambda g, st, a, i: [(st, IV(64, u=st.ghost['jn']))]),
            (rx('^' + V + r'data\('), lambda g, st, a, i: [(st, Ptr(W.values, 0))]), (rx(r'^(void |.*& )?' + V + r'(emplace_back|push_back)(<.*>)?\('), append)])
        e, st, P = W.e, W.st, W.P; W.json = None
        W.values = e.new_obj(st, 'json values', kind='array', stride=32, layout={0: ('ptr', None)})
        W.txt = e.new_obj(st, 'texts', kind='array', stride=1, layout={0: ('int', 8, False)})
        n = z3.Int('log_fields')
        W.fields = fields = e.new_obj(st, 'fields', kind='array', stride=stride, layout={0: ('ptr', lambda en, s_, t_: Ptr(W.txt, t_)), 8: ('int', 64, False)}, n=n); fields.const = True
        W.kp, W.kl = (e.arr(st, fields, k, fields.layout[k]) for k in (0, 8))
        i, j = z3.Ints('i j')
        st.assume_q(z3.ForAll([i], z3.And(KV(i) >= 2, KV(i) < 2 ** 30), patterns=[KV(i)]))
        body = lambda i: [tag(P('Log', 'fields'), 2), ('v', KV(i)), ('kv', i)]
        W.sums(n, lambda i: 1 + vs(KV(i)) + KV(i), lambda i: KV(i)); W.stride = stride
        st.assume(COUNT(0) == 0)
        st.assume_q(z3.ForAll([i], z3.Implies(i >= 0, COUNT(i + 1) == COUNT(i) + z3.If(JS(i), 1, 0)), patterns=[JS(i)]))
        st.assume_q(z3.ForAll([i], z3.And(COUNT(i) >= 0, z3.Implies(i >= 0, COUNT(i) <= i)), patterns=[COUNT(i)]))
        st.assume_q(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j), COUNT(i) + z3.If(JS(i), 1, 0) <= COUNT(j)), patterns=[z3.MultiPattern(COUNT(i), COUNT(j))]))
        t = z3.Int('nanoseconds'); st.assume(z3.And(t >= 0, t < 2 ** 63))
        st.ghost.update(js=z3.IntVal(-1), jv=z3.Array('kept', I, I))

        objs = {}; new = e.new_obj

        def new_obj(*a, **kw): o = new(*a, **kw); objs[o.id] = o; return o
        e.new_obj = new_obj

        def more(e, view, k, at):
            out = []; q = z3.Int('q')
            g = lambda w: w.st.ghost
            out.append(('conversions kept before %s' % (k,), lambda w: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < at(w), JS(q)), g(w)['jv'][COUNT(q)] == q), patterns=[JS(q)])))
            for m in view.modset:
                if len(m) != 2: continue
                def sizes(w, m=m):
                    o = objs[m[0]]
                    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < at(w)), e.arr(w.st, o, m[1], o.layout[m[1]])[q] == KV(q)))
                out.append(('sizes kept before %s' % (k,), sizes))
            return out
        W.more = more
        W.expect(Msg(P('Span', 'logs'), Msg(P('Log', 'timestamp'), Varint(1, t / 10 ** 9) + Varint(2, t % 10 ** 9)), SUM(n)), body, n)
        W.total = size(W.prefix) + SUM(n)
        f = findre(W.m, e, r'^lightstep::WriteLog\(.*, std::pair<%s' % ('opentracing::string_view' if key == 'view' else 'std::__cxx11'))
        W.done(e.run(f, st, [Ptr(W.stream, 0), IV(64, s=t), Ptr(fields, 0), Ptr(fields, stride * n)]), 'WriteLog')
        return e
    return f


def units(ctx):
    L = 'lightstep::'
    T = [L + x for x in ('WriteKeyLength', 'WriteVarint (both)', 'WriteString', 'WriteLengthDelimitedField (both)', 'StringSerializer', 'ComputeVarintSerializationSize (both)', 'ComputeLengthDelimitedSerializationSize')]
    return [Unit('operation name, start, duration, references', simple, [L + x for x in ('WriteOperationName', 'WriteStartTimestamp', 'WriteTimestamp (both)', 'WriteTimestampImpl', 'ComputeTimestampSerializationSize', 'ProtobufFormatTimestamp', 'WriteDuration', 'WriteSpanReference')] + T, 300),
            Unit('span context', context, [L + x for x in ('WriteSpanContext (all)', 'WriteSpanContextImpl', 'ComputeSpanContextSerializationSize', 'WriteBigVarint', 'SpanContextSerializer')] + ['DirectCodedOutputStream::WriteTag/WriteVarint32/WriteVarint64/WriteRaw'], 400),
            Unit('tags', tags, [L + x for x in ('WriteTag', 'WriteKeyValue (both)', 'ComputeKeyValueSerializationSize', 'WriteKeyValueImpl', 'WriteFixed64')] + ['SerializationSizeValueVisitor', 'SerializationValueVisitor'], 300),
            Unit('key-values', keyvalue, [L + 'ComputeKeyValueSerializationSize', L + 'WriteKeyValueImpl'], 300),
            Unit('logs (string_view keys)', log('view', 'WriteLog (string_view keys)'), [L + 'WriteLog', L + 'WriteLogImpl'], 400), Unit('logs (std::string keys)', log('string', 'WriteLog (std::string keys)'), [L + 'WriteLog', L + 'WriteLogImpl'], 400)]


def prepare(ctx): ctx.protos()


def natives(ctx):
    Q = 'lightstep-tracer-common/'
    return [Native('native/C31.cpp', srcs=SRC + ['src/common/utility.cpp', 'src/common/hex_conversion.cpp'], protos=True, gensrcs=[Q + 'collector.pb.cc', Q + 'google/api/annotations.pb.cc', Q + 'google/api/http.pb.cc'], libs=['-lprotobuf'], budget=(10, 60))]
