"""C26: framing - http chunk headers and report-request prefixes (contracts; bit-precise, buffers of any size)."""
from cvg.runner import Unit, Native
from cvg.util import *
from props.C24 import hexdigit, pairs
from props.C13 import canon_len, canon_byte

ASSUMPTIONS = ['the OpenTracing headers are not installed: stand-ins with the documented interface (harness/stubs)', 'the caller supplies the room the headers document (10 bytes for a chunk header, 6 for a report-request prefix)']
SRC = ['harness/framing.cpp', 'src/common/chunked_http_framing.cpp', 'src/common/report_request_framing.cpp', 'src/common/hex_conversion.cpp', 'src/common/utility.cpp']


def prepare(ctx):
    ctx.protos()
    ctx.off = ctx.offsets(['opentracing/util.h', 'cstdint'], {'has': ('opentracing::expected<uint64_t>', 'has_')}, {})


def writer(ctx, fn, what, room, length, byte):
    e = Engine(ctx.module(SRC), dom='bv', unroll=12, name=what); e.table_fns = [pairs]
    st = State(); e.cur = st
    size, x, q = z3.BitVec('size', 64), z3.BitVec('x', 32), z3.BitVec('q', 64)
    st.assume(z3.And(z3.UGE(size, room), z3.ULT(size, 1 << 60)))
    buf = e.new_obj(st, 'buffer', kind='array', stride=1, layout={0: ('int', 8, False)}, n=size)
    before = e.arr(st, buf, 0, ('int', 8, False))
    outs = returns(e, e.run(fn, st, [Ptr(buf, 0), size, x]), what); reachable(e, outs)
    n = length(x)
    for s in outs:
        e.cur = s
        a = e.arr(s, buf, 0, ('int', 8, False))
        e.prove(s, s.outcome[1] == n, 'framing: the length returned is the length of the header (%s)' % what)
        for k in range(room):
            e.prove(s, z3.Implies(z3.ULT(k, n), z3.Select(a, size - n + k) == byte(x, k)), 'framing: byte %d of the header, which ends the buffer (%s)' % (k, what))
        e.prove(s, z3.Implies(z3.ULT(q, size - n), z3.Select(a, q) == z3.Select(before, q)), 'framing: nothing before the header is written (%s)' % what)
    return e


def chunk(ctx):
    def byte(x, k):
        if k == 8: return z3.BitVecVal(13, 8)
        if k == 9: return z3.BitVecVal(10, 8)
        return hexdigit(z3.ZeroExt(4, z3.Extract(31 - 4 * k, 28 - 4 * k, x)))
    return writer(ctx, 'vf_chunk', 'WriteHttpChunkHeader', 10, lambda x: z3.BitVecVal(10, 64), byte)


def spans(ctx):
    def z(x): return z3.ZeroExt(32, x)
    return writer(ctx, 'vf_spans', 'WriteReportRequestSpansHeader', 6, lambda x: 1 + canon_len(z(x)), lambda x, k: z3.BitVecVal(3 << 3 | 2, 8) if k == 0 else canon_byte(z(x), k - 1))


class Reader:
    """a stream that yields its content in pieces of any sizes; the line ends at c (the first carriage return)"""
    def __init__(s, ctx):
        s.N, s.c, s.V, s.q = z3.Ints('N c V q')
        s.ok = z3.Bool('is a number')
        s.B = B = z3.Const('B', z3.ArraySort(z3.IntSort(), z3.IntSort()))
        s.ctx = ctx
        s.e = e = Engine(ctx.module(SRC), name='ReadChunkHeader', contracts=[('VfStream::Next', s.next), ('VfStream::BackUp', s.backup), ('VfStream::Skip', s.skip), ('lightstep::HexToUint64', s.number)], candidates=int_candidates([('the position', lambda st: zi(st.ghost['pos']))], (1,), s.cand))
        s.st = st = State(); e.cur = st
        s.src = e.new_obj(st, 'content', kind='array', stride=1, layout={0: ('int', 8, False)}, n=s.N); s.src.const = True
        st.mem[s.src.id] = {0: B}
        k = z3.Int('k')
        st.assume_q(z3.ForAll([k], z3.And(B[k] >= 0, B[k] < 256, z3.Implies(z3.And(k >= 0, k < s.c), B[k] != 13)), patterns=[B[k]]))
        st.assume(z3.And(s.N >= 0, s.N < 2 ** 60, s.c >= 0, s.c <= s.N, z3.Or(s.c == s.N, B[s.c] == 13), s.V >= 0, s.V < 2 ** 64))
        st.ghost.update(pos=z3.IntVal(0), last=z3.IntVal(0), pieces=z3.Int('pieces')); e.ranks = lambda en, view: [('pieces left', lambda w: zi(w.st.ghost['pieces']))]
        s.obj = virtual_object(e, st, '8VfStream', 'stream')
        s.locals = []; make = e.new_obj
        def note(st, name, **kw):
            o = make(st, name, **kw); s.locals.append(o)
            return o
        e.new_obj = note

    def next(s, g, st, a, i):
        t = st.clone(); t.assume(zi(st.ghost['pos']) == s.N)
        k = z3.Int('piece!%d' % next(Obj.ids)); pos = zi(st.ghost['pos'])
        st.assume(z3.And(k >= 0, pos + k <= s.N, k < 2 ** 31))
        s.e.store(st, a[1], ir.PTR, Ptr(s.src, pos)); s.e.store(st, a[2], ir.INT(32), IV(32, s=k))
        st.ghost['pos'] = pos + k; st.ghost['last'] = k; st.assume(st.ghost['pieces'] >= 1); st.gset('pieces', st.ghost['pieces'] - 1)      # finitely many pieces, some of them empty
        return [(st, z3.BoolVal(True)), (t, z3.BoolVal(False))]

    def backup(s, g, st, a, i):
        n = zi(s.e.dom.s(a[1]))
        s.e.prove(st, z3.And(n >= 0, n <= zi(st.ghost['last'])), 'reading: gives back at most the piece just read')
        st.ghost['pos'] = zi(st.ghost['pos']) - n; st.ghost['last'] = z3.IntVal(0); st.gset('pieces', st.ghost['pieces'] + 1)
        return [(st, None)]

    def skip(s, g, st, a, i):
        n = zi(s.e.dom.s(a[1])); pos = zi(st.ghost['pos'])
        s.e.prove(st, n >= 0, 'reading: only moves forward')
        t = st.clone(); t.assume(pos + n > s.N); t.ghost['pos'] = s.N
        st.assume(pos + n <= s.N); st.ghost['pos'] = pos + n; st.ghost['last'] = z3.IntVal(0)
        return [(st, z3.BoolVal(True)), (t, z3.BoolVal(False))]

    def number(s, g, st, a, i):
        """C24's contract of HexToUint64: whether the text is a number, and which, depends on the text alone"""
        e = s.e; p, n = a[1], zi(e.dom.u(a[2])); q = s.q
        e.prove(st, n == s.c, 'reading: the size is what precedes the line break')
        j = st.clone(); j.assume(z3.And(q >= 0, q < n)); e.cur = j
        e.prove(j, zi(e.dom.u(e.as_int(e.load(j, Ptr(p.obj, p.off + q), ir.INT(8))))) == s.B[q], 'reading: the digits are the ones in the stream')
        e.cur = st
        e.store(st, a[0], ir.INT(64), IV(64, u=s.V)); e.store(st, Ptr(a[0].obj, a[0].off + s.ctx.off['has']), ir.INT(8), IV(8, u=z3.If(s.ok, 1, 0)))
        return [(st, None)]

    def cand(s, e, view):
        out = []
        names = [n for n, _ in view.ints()] + list(view.ptrs())
        def val(w, n):
            v = w.get(n)
            return zi(v.off) if isinstance(v, Ptr) and v.obj is s.src else None if isinstance(v, Ptr) or v is None else zi(e.dom.s(e.as_int(v)))
        ks = [n for n in names if val(view, n) is not None]
        def pos(w): return zi(w.st.ghost['pos'])
        k = z3.Int('k')
        for o in s.locals:
            if o.kind != 'array' or o.stride != 1 or o is s.src: continue
            def digits(w, f, o=o):
                A = e.arr(w.st, o, 0, o.layout[0]); 
                return z3.Implies(z3.And(s.q >= 0, s.q < f(w)), A[s.q] == s.B[s.q])
            for n in ks: out.append(('the digits up to %s are in %s' % (n, o.name), lambda w, n=n, digits=digits: digits(w, lambda w: val(w, n))))
        for n in ks:
            f = lambda w, n=n: val(w, n)
            for lab, x in (('the line break', s.c), ('the room', z3.IntVal(16))): out.append(('%s up to %s' % (n, lab), lambda w, f=f, x=x: f(w) <= x))
            out.append(('%s is the position' % (n,), lambda w, f=f: f(w) == pos(w)))
            out.append(('%s within the piece' % (n,), lambda w, f=f: f(w) <= zi(w.st.ghost['last'])))
            for m in ks:
                if m == n: continue
                h = lambda w, m=m: val(w, m)
                out.append(('%s within %s' % (n, m), lambda w, f=f, h=h: f(w) <= h(w)))
                out.append(('%s and %s from the position of the piece' % (n, m), lambda w, f=f, h=h: f(w) == pos(w) - zi(w.st.ghost['last']) + h(w)))
        return out


def read(ctx):
    R = Reader(ctx); e, st, B, c, N = R.e, R.st, R.B, R.c, R.N
    size = e.new_obj(st, 'size', kind='struct', size=8)
    outs = returns(e, e.run('vf_read', st, [Ptr(R.obj, 0), Ptr(size, 0)]), 'ReadChunkHeader'); reachable(e, outs)
    for o in outs:
        r = zb(o.outcome[1])
        for ok in (True, False):
            if not e.feasible(o, r if ok else z3.Not(r)): continue
            t = o.clone(); t.assume(r if ok else z3.Not(r)); e.cur = t
            if ok:
                e.prove(t, z3.And(R.ok, c < N), 'reading: succeeds only on a complete line with a number')
                e.prove(t, zi(e.dom.u(e.as_int(e.load(t, Ptr(size, 0), ir.INT(64))))) == R.V, 'reading: the size is the number on the line')
                e.prove(t, zi(t.ghost['pos']) == c + 2, 'reading: continues right after the line break')
            else: e.prove(t, z3.Not(z3.And(R.ok, c <= 16, c + 2 <= N)), 'reading: a complete line with a number is never refused')
    return e

def units(ctx):
    return [Unit('chunk header', chunk, ['WriteHttpChunkHeader', 'Uint32ToHex'], timeout=300), Unit('report-request prefix', spans, ['WriteReportRequestSpansHeader', 'ComputeLengthDelimitedHeaderSerializationSize', 'WriteKeyLength'], timeout=300), Unit('reader', read, ['ReadChunkHeader'], timeout=400)]


def natives(ctx):
    return [Native('native/C26.cpp', srcs=['src/common/chunked_http_framing.cpp', 'src/common/report_request_framing.cpp', 'src/common/hex_conversion.cpp', 'src/common/utility.cpp', 'src/common/logger.cpp'], libs=['-lprotobuf'], protos=True, gensrcs=['lightstep-tracer-common/' + f for f in ('collector.pb.cc', 'google/api/annotations.pb.cc', 'google/api/http.pb.cc')], budget=(8, 40))]
