"""C08: Write - every byte once, in order, whatever the socket accepts."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg import streams as S
from cvg.streams import B, F, G, gsize, gdata

ASSUMPTIONS = ['every stream in the list follows the FragmentInputStream contract (C04-C06, C09, C10 prove it for the streams of this code base) and occurs once in the list',
               'writev returns -1 with errno set, or a number between 0 and the bytes offered', 'total byte and fragment counts fit in int', 'Consume follows its contract (proved in C07)',
               'string formatting of the error message (std::ostringstream, strerror) has no other effect']


def build(ctx):
    m = ctx.module(['harness/streams.cpp', 'src/network/vector_write.cpp', 'src/common/platform/network_unix.cpp', 'src/common/platform/error_unix.cpp'])
    meas = [('fragments passed', lambda s: zi(s.ghost['fk'])), ('fragments counted', lambda s: B(zi(s.ghost['nf']))), ('streams counted', lambda s: zi(s.ghost['nf'])), ('streams passed', lambda s: zi(s.ghost['fe'])),
            ('batch size', lambda s: zi(s.ghost['fk']) - zi(s.ghost['g'])), ('batch bytes', lambda s: G(zi(s.ghost['fk'])) - G(zi(s.ghost['g']))), ('bytes accepted', lambda s: zi(s.ghost['acc'])),
            ('batches', lambda s: zi(s.ghost['g']))]

    def more(eng, view):
        out = [('nothing refused yet', lambda v: z3.Not(v.st.ghost['stop'])), ('no hard error yet', lambda v: z3.Not(v.st.ghost['hard'])),
               ('accepted bytes are those of the finished batches', lambda v: v.st.ghost['acc'] == G(v.st.ghost['g'])),
               ('batch start before current fragment', lambda v: z3.And(v.st.ghost['g'] >= 0, v.st.ghost['g'] <= v.st.ghost['fk'])),
               ('fragments passed = those of the passed streams', lambda v: v.st.ghost['fk'] == B(v.st.ghost['fe'])),
               ('the position is in the list', lambda v: z3.And(v.st.ghost['fe'] >= 0, v.st.ghost['fe'] <= sts.S)), ('the count position is in the list', lambda v: z3.And(v.st.ghost['nf'] >= 0, v.st.ghost['nf'] <= sts.S))]
        for oid, c in [(x.id, x) for x in vlas]:
            o = c
            def content(v, o=o):
                st = v.st
                A, L = eng.arr(st, o, 0, ('ptr', None)), eng.arr(st, o, 8, ('int', 64, False))
                j = z3.Int('j')
                g = st.ghost['g']; n = st.ghost['fk'] - g
                return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(A[j] == gdata(g + j), L[j] == gsize(g + j))))
            out.append(('batch holds the pending fragments', content))
            out.append(('batch is not full', lambda v, o=o: v.st.ghost['fk'] - v.st.ghost['g'] < zi(o.n)))
        return out
    e = Engine(m, name='Write', candidates=int_candidates(meas, (1, -1, 8, 16), more))
    vlas = []
    orig = e.realise_vla

    def rv(st, o, sz, ty):
        orig(st, o, sz, ty)
        o.layout = {0: ('ptr', None), 8: ('int', 64, False)}
        if o not in vlas: vlas.append(o)
    e.realise_vla = rv
    st = State(); e.cur = st
    sts = S.Streams(e, st)
    N = B(sts.S)
    fd = z3.Int('socket'); st.assume(z3.And(fd >= -2 ** 31, fd < 2 ** 31))
    errno = e.new_obj(st, 'errno', kind='struct', size=4)

    def num(eng, s, args, ins):
        i = sts.idx(args[0]); S.at_stream(s, i)
        eng.prove(s, i == s.ghost['nf'], 'every stream is counted once, in list order')
        s.gset('nf', i + 1)
        return [(s, IV(32, s=F(i)))]

    def foreach(eng, s, args, ins):
        i = sts.idx(args[0])
        eng.prove(s, z3.And(i == s.ghost['fe'], z3.Not(s.ghost['stop'])), 'streams are sent in list order, each once, none after a refused write')
        r = sts.foreach()(eng, s, args, ins)
        for t, v in r:
            if v is True: t.gset('fe', i + 1)
        return r

    def writev(eng, s, args, ins):
        p = eng.norm_ptr(args[1]); n = zi(eng.dom.s(args[2]))
        g = s.ghost['g']
        eng.prove(s, zi(eng.dom.s(args[0])) == fd, 'the bytes go to the given socket')
        eng.prove(s, z3.Not(s.ghost['stop']), 'nothing is sent after a short, blocked or failed write')
        eng.prove(s, z3.And(n >= 1, n <= 1024), 'a batch is non-empty and within the system limit')
        eng.prove(s, s.ghost['acc'] == G(g), 'a batch starts at the first byte not yet accepted')
        eng.prove(s, g + n <= N, 'a batch holds only fragments of the streams')
        if p.obj is None or p.obj.kind != 'array': raise Unsupported('iovec storage')
        i0, c0 = eng.elem(p.obj, p.off)
        A, L = eng.arr(s, p.obj, 0, ('ptr', None)), eng.arr(s, p.obj, 8, ('int', 64, False))
        j = z3.Int('j!w'); i0 = zi(i0)
        eng.prove(s, z3.Implies(z3.And(j >= 0, j < n), z3.And(A[i0 + j] == gdata(g + j), L[i0 + j] == gsize(g + j))), 'each batch offers the next fragments in order, with their full sizes')
        total = G(g + n) - G(g)
        out = []
        a = s.clone()
        r = z3.Int('accepted!%d' % next(Obj.ids))
        a.assume(z3.And(r >= 0, r <= total))
        a.gset('acc', a.ghost['acc'] + r); a.gset('g', g + n); a.gset('stop', r < total)
        out.append((a, IV(64, s=r)))
        b = s.clone()
        ev = z3.Int('errno!%d' % next(Obj.ids)); b.assume(z3.And(ev > 0, ev < 4096))
        eng.store(b, Ptr(errno, 0), ir.INT(32), IV(32, s=ev))
        b.gset('stop', z3.BoolVal(True)); b.gset('g', g + n); b.gset('hard', ev != 11)
        out.append((b, IV(64, s=-1)))
        return out

    def consume(eng, s, args, ins):
        eng.prove(s, z3.And(eng.ptr_eq(args[0], Ptr(sts.list, 0)), zi(eng.dom.s(args[1])) == sts.S), 'the same streams are consumed')
        eng.prove(s, zi(eng.dom.s(args[2])) == s.ghost['acc'], 'exactly the accepted bytes are removed from the streams')
        s.gset('consumed', s.ghost['consumed'] + 1)
        return [(s, s.ghost['acc'] == G(N))]

    def ret0(eng, s, args, ins): return [(s, args[0] if args and 'res' in ins else None)]
    e.contracts = [('vf::Stream::num_fragments', num), ('vf::Stream::ForEachFragment', foreach), ('writev', writev), ('lightstep::Consume(', consume),
                   ('__errno_location', lambda eng, s, args, ins: [(s, Ptr(errno, 0))]), ('lightstep::GetErrorCodeMessage', noop),
                   (rx(r'^(std::__cxx11::basic_ostringstream|std::basic_ostream|std::ostream|.*std::operator<<|std::__cxx11::basic_string|std::runtime_error::)'), ret0)]
    st.ghost.update(fk=z3.IntVal(0), fe=z3.IntVal(0), nf=z3.IntVal(0), g=z3.IntVal(0), acc=z3.IntVal(0), stop=z3.BoolVal(False), hard=z3.BoolVal(False), consumed=0)
    outs = e.run(find(m, e, 'lightstep::Write('), st, [IV(32, s=fd)] + sts.args())
    reachable(e, outs)
    for s in outs:
        e.cur = s
        g = s.ghost
        if s.outcome[0] == 'throw':
            e.prove(s, g['hard'], 'an error is raised only on a hard error of the system')
            e.prove(s, s.outcome[1].ty == '_ZTISt13runtime_error', 'the error raised is a runtime_error')
        else:
            r = zb(s.outcome[1])
            e.prove(s, z3.Not(g['hard']), 'a hard error is raised')
            e.prove(s, r == (g['acc'] == G(N)), 'true is returned exactly when every byte was accepted')
            e.prove(s, z3.Or(r, g['stop']), 'false is returned only when the socket accepted less than it was offered')
        e.prove(s, z3.Or(g['consumed'] == 1, g['acc'] == 0), 'the accepted bytes are removed exactly once, also before an error is raised')
    S.lemmas(e)
    return e


def small(ctx):
    m = ctx.module(['harness/streams.cpp', 'src/network/vector_write.cpp', 'src/common/platform/network_unix.cpp', 'src/common/platform/error_unix.cpp'])
    e = Engine(m, name='error codes')
    for fn, want in (('lightstep::IsBlockingErrorCode', (11,)), ('lightstep::IsInProgressErrorCode', (115,))):
        st = State(); e.cur = st
        v = z3.Int('code'); st.assume(z3.And(v >= -2 ** 31, v < 2 ** 31))
        for s in returns(e, e.run(find(m, e, fn), st, [IV(32, s=v)]), fn):
            e.cur = s
            e.prove(s, zb(s.outcome[1]) == z3.Or([v == w for w in want]), '%s holds exactly for %s' % (fn[11:], 'EAGAIN/EWOULDBLOCK' if want[0] == 11 else 'EINPROGRESS'))
    st = State(); e.cur = st
    p, n = z3.Int('p'), z3.Int('n'); st.assume(z3.And(p >= 0, p < 2 ** 64, n >= 0, n < 2 ** 64))
    for s in returns(e, e.run(find(m, e, 'lightstep::MakeIoVec'), st, [Ptr(None, p), IV(64, u=n)]), 'MakeIoVec'):
        e.cur = s
        v = s.outcome[1]
        e.prove(s, z3.And(zi(e.ptr_term(v[0])) == p, zi(e.dom.u(v[1])) == n), 'MakeIoVec: the segment has the given start and length')
    return e


def units(ctx):
    return [Unit('Write', build, ['Write', 'WriteV', 'MakeIoVec', 'IsBlockingErrorCode', 'GetLastErrorCode'], timeout=500), Unit('error codes', small, ['IsBlockingErrorCode', 'IsInProgressErrorCode', 'MakeIoVec'])]


def natives(ctx):
    return [Native('native/C08.cpp', srcs=['src/network/vector_write.cpp', 'src/common/fragment_array_input_stream.cpp', 'src/common/fragment_input_stream.cpp', 'src/common/platform/network_unix.cpp', 'src/common/platform/error_unix.cpp'], flags=['-Wl,--wrap=writev'], budget=(12, 90))]
