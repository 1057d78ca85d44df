"""C12: protobuf framing - embedded messages are framed with their exact key, length and size (bit-precise contracts)."""
import re
from cvg.runner import Unit, Native
from cvg.util import *
from props.C13 import canon_len

ASSUMPTIONS = ['message sizes below 2^63', 'the metrics message is not changed between construction and use except through its setter']
TRUSTED = ['protobuf: WriteVarint32/64 write the canonical varint of their argument, SerializeWithCachedSizes writes exactly ByteSizeLong() bytes once ByteSizeLong() was called, a CodedOutputStream is flushed when destroyed; generated accessors store and return their value', 'std::vector<char>::resize/data/size']
SRC = ['harness/proto.cpp', 'src/common/protobuf.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp']
P = 'google::protobuf::'


def prepare(ctx): ctx.protos()


def key_of(field): return z3.Concat(z3.Extract(28, 0, field), z3.BitVecVal(2, 3))


class Frame:
    """CodedOutputStream as a ghost log of what was written; a message with an arbitrary size"""
    def __init__(s, ctx, name):
        m = ctx.module(SRC); s.m = m
        s.e = e = Engine(m, dom='bv', name=name, contracts=[
            (rx(r'^google::protobuf::io::CodedOutputStream::(WriteVarint32|WriteTag)\('), lambda g, st, a, i: s.emit(st, a, 'varint', z3.ZeroExt(32, a[1]))),
            (rx(r'^google::protobuf::io::CodedOutputStream::WriteVarint64\('), lambda g, st, a, i: s.emit(st, a, 'varint', a[1])),
            (rx(r'^google::protobuf::MessageLite::SerializeWithCachedSizes\('), s.ser), ('vf::Msg::ByteSizeLong', s.bytesize), ('vf::Msg::GetCachedSize', s.cached)])
        st = State(); e.cur = st; s.st = st
        s.field = z3.BitVec('field', 32); s.size = z3.BitVec('size', 64)
        st.assume(z3.And(z3.ULT(s.field, 1 << 29), z3.UGE(s.field, 1), z3.ULT(s.size, 1 << 63)))
        s.msg = virtual_object(e, st, 'N2vf3MsgE', 'message', size=64)
        s.stream = e.new_obj(st, 'stream', kind='struct', size=128)
        st.ghost.update(log=(), cached=False)

    def emit(s, st, a, kind, v):
        s.e.prove(st, s.e.ptr_eq(a[0], Ptr(s.stream, 0)), 'frame: written to the given stream')
        st.ghost['log'] = st.ghost['log'] + ((kind, v),)
        return [(st, None)]

    def ser(s, g, st, a, i):
        s.e.prove(st, s.e.ptr_eq(a[0], Ptr(s.msg, 0)), 'frame: the given message is written')
        s.e.prove(st, st.ghost['cached'], 'frame: the size of the message is known before it is written')
        return s.emit(st, [a[1]], 'message', s.size)

    def bytesize(s, g, st, a, i):
        s.e.prove(st, s.e.ptr_eq(a[0], Ptr(s.msg, 0)), 'frame: the given message is measured')
        st.ghost['cached'] = True
        return [(st, s.size)]

    def cached(s, g, st, a, i):
        s.e.prove(st, st.ghost['cached'], 'frame: the size of the message is known before it is used')
        return [(st, z3.Extract(31, 0, s.size))]


def write(ctx):
    engs = []
    for fn, sized in (('vf_write', False), ('vf_write_sized', True)):
        W = Frame(ctx, 'WriteEmbeddedMessage' + (' (given size)' if sized else '')); e = W.e; engs.append(e)
        if sized: W.st.ghost['cached'] = True
        outs = returns(e, e.run(fn, W.st, [Ptr(W.stream, 0), W.field] + ([W.size] if sized else []) + [Ptr(W.msg, 0)]), 'WriteEmbeddedMessage')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            log = s.ghost['log']
            e.prove(s, [k for k, _ in log] == ['varint', 'varint', 'message'], 'frame: key, length, message, in that order and nothing else (wrote %s)' % ', '.join(k for k, _ in log))
            if len(log) != 3: continue
            e.prove(s, log[0][1] == z3.ZeroExt(32, key_of(W.field)), 'frame: the key is the field number with the length-delimited wire type')
            e.prove(s, log[1][1] == W.size, 'frame: the length is the size of the message')
    return engs


def size(ctx):
    engs = []
    for fn, sized in (('vf_size', False), ('vf_size_sized', True)):
        W = Frame(ctx, 'ComputeEmbeddedMessageSerializationSize' + (' (given size)' if sized else '')); e = W.e; engs.append(e)
        outs = returns(e, e.run(fn, W.st, [W.field] + ([W.size] if sized else [Ptr(W.msg, 0)])), 'ComputeEmbeddedMessageSerializationSize')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, s.outcome[1] == canon_len(z3.ZeroExt(32, key_of(W.field))) + canon_len(W.size) + W.size, 'frame: the size computed in advance is the number of bytes written')
            e.prove(s, s.ghost['log'] == (), 'frame: measuring writes nothing')
    return engs


SZ = z3.Function('frame_size', z3.IntSort(), z3.IntSort(), z3.IntSort())


def metrics(ctx):
    """EmbeddedMetricsMessage over the contracts above and of the generated message classes"""
    f = open('/repo/lightstep-tracer-common/collector.proto').read()
    number = int(re.search(r'\bInternalMetrics\s+internal_metrics\s*=\s*(\d+)', f).group(1))
    engs = []

    class W:
        pass

    def world(name):
        m = ctx.module(SRC)
        E = 'lightstep::EmbeddedMetricsMessage'
        O = ctx.offsets(['recorder/serialization/embedded_metrics_message.h'], {'msg': (E, 'message_'), 'sample': (E, 'dropped_spans_count_'), 'buf': (E, 'buffer_'), 'name': ('lightstep::collector::MetricsSample', '_impl_.name_')}, {'E': E})
        st = State()
        w = W(); w.st = st; w.O = O
        msize = z3.Int('message_size'); w.msize = msize

        def is_msg(eng, st, p, txt): eng.prove(st, eng.ptr_eq(p, Ptr(w.obj, O['msg'])), 'metrics: ' + txt)
        def is_sample(eng, st, p, txt): eng.prove(st, eng.ptr_eq(p, Ptr(w.sample, 0)), 'metrics: ' + txt)

        def add(eng, st, a, i):
            is_msg(eng, st, a[0], 'the count is added to the message')
            st.gset('counts', st.ghost['counts'] + 1)
            return [(st, Ptr(w.sample, 0))]

        def name_(eng, st, a, i):
            eng.prove(st, eng.ptr_eq(a[0], Ptr(w.sample, O['name'])), 'metrics: the count is named')
            p = eng.norm_ptr(a[1]); t = p.obj.table if p.obj else None
            if t is None or not is_c(p.off): raise Unsupported('name that is not a literal')
            st.ghost['name'] = bytes(t[p.off:]).split(b'\0')[0].decode()
            return [(st, None)]

        def setv(eng, st, a, i):
            is_sample(eng, st, a[0], 'the count is set'); st.gset('value', zi(eng.dom.s(a[1]))); return [(st, None)]

        def getv(eng, st, a, i):
            is_sample(eng, st, a[0], 'the count is read'); return [(st, IV(64, s=st.ghost['value']))]

        def bsize(eng, st, a, i):
            is_msg(eng, st, a[0], 'the message is measured'); st.gset('measured', st.ghost['value']); st.gset('hascache', z3.BoolVal(True)); return [(st, IV(64, u=msize))]

        def frame_size(eng, st, a, i):
            if len(i['args']) != 2: raise Unsupported('signature')
            fld = zi(eng.dom.u(a[0]))
            if isinstance(a[1], Ptr): is_msg(eng, st, a[1], 'the message is measured'); st.gset('measured', st.ghost['value']); st.gset('hascache', z3.BoolVal(True)); n = msize
            else: n = zi(eng.dom.u(a[1]))
            r = SZ(fld, n); st.assume(z3.And(r > n, r <= n + 15))
            return [(st, IV(64, u=r))]

        def write_(eng, st, a, i):
            is_stream = eng.ptr_eq(a[0], w.coded) if w.coded is not None else False
            eng.prove(st, is_stream, 'metrics: written to the stream over the buffer')
            fld = zi(eng.dom.u(a[1]))
            if len(a) == 4: n = zi(eng.dom.u(a[2])); mp = a[3]
            else: n = msize; mp = a[2]; st.gset('measured', st.ghost['value']); st.gset('hascache', z3.BoolVal(True))
            is_msg(eng, st, mp, 'the message is written')
            eng.prove(st, z3.And(st.ghost['hascache'], st.ghost['measured'] == st.ghost['value'], n == msize), 'metrics: written with its size')
            eng.prove(st, st.ghost['room'] >= SZ(fld, n), 'metrics: the buffer has room for the frame')
            eng.prove(st, fld == number, 'metrics: the frame is for the internal-metrics field')
            st.gset('written', st.ghost['written'] + 1); st.gset('carried', st.ghost['value']); st.gset('len', SZ(fld, n))
            return [(st, None)]

        def array_stream(eng, st, a, i):
            eng.prove(st, eng.ptr_eq(a[1], Ptr(w.bytes, 0)), 'metrics: the buffer is written from its start')
            n = zi(eng.dom.s(a[2]))
            eng.prove(st, z3.And(n >= 0, n <= st.ghost['cap']), 'metrics: nothing is written beyond the buffer')
            st.gset('room', n); w.array = a[0]
            return [(st, None)]

        def coded(eng, st, a, i):
            eng.prove(st, b_and(w.array is not None, eng.ptr_eq(a[1], w.array) if w.array is not None else False), 'metrics: the coded stream is over the buffer')
            w.coded = a[0]
            return [(st, None)]

        def flush(eng, st, a, i):
            st.gset('flushed', st.ghost['written']); return [(st, None)]

        def resize(eng, st, a, i):
            eng.prove(st, eng.ptr_eq(a[0], Ptr(w.obj, O['buf'])), 'metrics: its own buffer is sized')
            st.gset('cap', zi(eng.dom.u(a[1]))); return [(st, None)]
        C = r'lightstep::collector::'; V = r'^std::vector<char.*>::'
        e = Engine(m, name=name, contracts=[
            (rx(r'^%sInternalMetrics::InternalMetrics\(' % C), lambda g, st, a, i: (st.gset('counts', z3.IntVal(0)), [(st, None)])[1]), (rx(r'InternalMetrics::add_counts\('), add), (rx(r'ArenaStringPtr::Set\(char const\*, google'), name_), (rx(r'MessageLite::GetArenaForAllocation\('), lambda g, st, a, i: [(st, NULL)]),
            (rx(r'MetricsSample::set_int_value\('), setv), (rx(r'MetricsSample::int_value\('), getv), (rx(r'InternalMetrics::ByteSizeLong\('), bsize),
            (rx(r'^lightstep::ComputeEmbeddedMessageSerializationSize\('), frame_size), (rx(r'^lightstep::WriteEmbeddedMessage\('), write_),
            (rx(r'ArrayOutputStream::ArrayOutputStream\('), array_stream), (rx(r'ArrayOutputStream::~'), noop), (rx(r'CodedOutputStream::CodedOutputStream(<.*>)?\('), coded), (rx(r'CodedOutputStream::~'), flush), (rx(r'CodedOutputStream::Trim\('), noop),
            (rx(V + r'resize\('), resize), (rx(V + r'data\('), lambda g, st, a, i: [(st, Ptr(w.bytes, 0))]), (rx(V + r'size\('), lambda g, st, a, i: [(st, IV(64, u=st.ghost['cap']))]), (rx(V + r'vector\('), lambda g, st, a, i: (st.gset('cap', z3.IntVal(0)), [(st, None)])[1]), (rx(V + r'~vector\('), noop)])
        e.cur = st; w.e = e; w.array = w.coded = None
        w.obj = e.new_obj(st, 'metrics', kind='struct', size=O['E'])
        w.sample = e.new_obj(st, 'count', kind='struct', size=64)
        w.bytes = e.new_obj(st, 'buffer', kind='array', stride=1, layout={0: ('int', 8, False)})
        w.v = z3.Int('count')
        st.assume(z3.And(msize >= 0, msize < 2 ** 30, w.v >= -2 ** 31, w.v < 2 ** 31))
        I = z3.IntVal
        st.ghost.update(counts=I(1), value=w.v, measured=z3.Int('m0'), hascache=z3.BoolVal(False), cap=z3.Int('old_buffer_size'), room=I(-1), written=I(0), flushed=I(0), carried=z3.Int('c0'), len=I(-1), name='spans.dropped')
        st.assume(z3.Int('old_buffer_size') >= 0)
        st.mem[w.obj.id] = {O['sample']: (8, Ptr(w.sample, 0))}
        engs.append(e)
        return w

    w = world('construction'); e = w.e
    w.st.ghost['name'] = None; w.st.mem[w.obj.id] = {}
    outs = returns(e, e.run('vf_ctor', w.st, [Ptr(w.obj, 0)]), 'construction'); reachable(e, outs)
    for s in outs:
        e.cur = s
        e.prove(s, s.ghost['counts'] == 1, 'metrics: one count'); e.prove(s, s.ghost['name'] == 'spans.dropped', 'metrics: named spans.dropped (is %s)' % s.ghost['name'])
        e.prove(s, s.ghost['value'] == 0, 'metrics: initially 0'); e.prove(s, e.ptr_eq(e.load(s, Ptr(w.obj, w.O['sample']), ir.PTR), Ptr(w.sample, 0)), 'metrics: the count is kept')
    w = world('set_num_dropped_spans'); e = w.e; n = z3.Int('n'); w.st.assume(z3.And(n >= -2 ** 31, n < 2 ** 31))
    for s in returns(e, e.run('vf_set', w.st, [Ptr(w.obj, 0), IV(32, s=n)]), 'set_num_dropped_spans'): e.cur = s; e.prove(s, s.ghost['value'] == n, 'metrics: carries the given count')
    w = world('num_dropped_spans'); e = w.e
    for s in returns(e, e.run('vf_get', w.st, [Ptr(w.obj, 0)]), 'num_dropped_spans'): e.cur = s; e.prove(s, zi(e.dom.s(s.outcome[1])) == w.v, 'metrics: reports the count it carries')
    w = world('MakeFragment'); e = w.e
    out = e.new_obj(w.st, 'result', kind='struct', size=16)
    outs = returns(e, e.run('vf_make', w.st, [Ptr(w.obj, 0), Ptr(out, 0)]), 'MakeFragment'); reachable(e, outs)
    for s in outs:
        e.cur = s; g = s.ghost
        e.prove(s, z3.And(g['written'] == 1, g['flushed'] == 1), 'metrics: the frame is written once and flushed before the fragment is returned')
        e.prove(s, z3.And(g['carried'] == w.v, g['counts'] == 1), 'metrics: the frame carries the count')
        e.prove(s, e.ptr_eq(e.load(s, Ptr(out, 0), ir.PTR), Ptr(w.bytes, 0)), 'metrics: the fragment is the frame')
        e.prove(s, z3.And(zi(e.dom.s(e.load(s, Ptr(out, 8), ir.INT(32)))) == g['len'], g['cap'] >= g['len']), 'metrics: the fragment has the size of the frame')
    return engs


def units(ctx):
    Q = 'EmbeddedMetricsMessage::'
    return [Unit('WriteEmbeddedMessage', write, ['WriteEmbeddedMessage (both)', 'ComputeStreamMessageKey']), Unit('ComputeEmbeddedMessageSerializationSize', size, ['ComputeEmbeddedMessageSerializationSize (both)', 'google::protobuf::io::CodedOutputStream::VarintSize32/64 (inlined bodies)']),
            Unit('EmbeddedMetricsMessage', metrics, [Q + 'EmbeddedMetricsMessage', Q + 'set_num_dropped_spans', Q + 'num_dropped_spans', Q + 'MakeFragment'])]


def natives(ctx):
    Q = 'lightstep-tracer-common/'
    return [Native('native/C12.cpp', srcs=['src/common/protobuf.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp'], protos=True, gensrcs=[Q + 'collector.pb.cc', Q + 'google/api/annotations.pb.cc', Q + 'google/api/http.pb.cc'], libs=['-lprotobuf'], budget=(10, 60))]
