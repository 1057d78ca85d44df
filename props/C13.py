"""C13: DirectCodedOutputStream::WriteBigVarint64 writes the canonical varint, for all 2^64 values."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['the caller supplies a buffer with room for the canonical encoding (contract precondition; at most 10 bytes)']


def canon_len(x):
    n = z3.BitVecVal(1, 64)
    for k in range(1, 10): n = n + z3.If(z3.UGE(x, z3.BitVecVal(1 << (7 * k), 64)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return n


def canon_byte(x, k):
    low = z3.Extract(7, 0, z3.LShR(x, 7 * k)) & 0x7f
    return z3.If(z3.ULT(k + 1, canon_len(x)), low | 0x80, low)


def write(ctx):
    m = ctx.module(['harness/c13.cpp'])
    e = Engine(m, dom='bv', unroll=12, name='WriteBigVarint64')
    st = State(); e.cur = st
    x = z3.BitVec('x', 64)
    n = canon_len(x)
    buf = e.new_obj(st, 'buffer', kind='array', stride=1, layout={0: ('int', 8, False)}, n=n)
    this = e.new_obj(st, 'stream', kind='struct', size=8, init='zero')
    st.mem[this.id] = {0: (8, Ptr(buf, 0))}
    outs = e.run('vf_write_big_varint64', st, [Ptr(this, 0), x])
    outs = returns(e, outs, 'WriteBigVarint64')
    reachable(e, outs)
    for s in outs:
        p = e.load(s, Ptr(this, 0), ir.PTR)
        e.cur = s
        if p.obj is not buf: raise Unsupported('data pointer left the buffer')
        e.prove(s, e.dom.off_eq(p.off, n), 'the stream advances by exactly the canonical length')
        a = e.arr(s, buf, 0, ('int', 8, False))
        for k in range(10):
            e.prove(s, z3.Implies(z3.ULT(k, n), z3.Select(a, z3.BitVecVal(k, 64)) == canon_byte(x, k)), 'byte %d is the canonical varint byte' % k)
    return e


def roundtrip(ctx):
    m = ctx.module(['harness/c13.cpp'])
    e = Engine(m, dom='bv', name='lemma')
    x = z3.BitVec('x', 64)
    r = z3.BitVecVal(0, 64)
    for k in range(10):
        b = canon_byte(x, k)
        r = r | z3.If(z3.ULT(k, canon_len(x)), z3.ZeroExt(56, b & 0x7f) << (7 * k), z3.BitVecVal(0, 64))
    lemma(e, 'a standard varint decoder reads the canonical bytes back as the value', r == x)
    for k in range(10):
        lemma(e, 'continuation bit of byte %d is set exactly before the last byte' % k,
              z3.Implies(z3.ULT(k, canon_len(x)), (canon_byte(x, k) & 0x80 != 0) == z3.ULT(k + 1, canon_len(x))))
    return e


def units(ctx):
    return [Unit('WriteBigVarint64', write, ['lightstep::DirectCodedOutputStream::WriteBigVarint64(uint64_t)', 'lightstep::WriteBigVarint64', 'google::protobuf::io::CodedOutputStream::WriteVarint64ToArray (inlined body)']),
            Unit('decoder lemma', roundtrip, [])]


def natives(ctx):
    return [Native('native/C13.cpp', libs=['-lprotobuf'])]
