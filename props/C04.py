"""C04: ChainedStream - reads back exactly the bytes written."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.streams import I

ASSUMPTIONS = ['the writer follows the ZeroCopyOutputStream protocol: BackUp gives back at most what the last Next returned; reading starts after CloseOutput; seeks stay within the enumerated fragments',
               'operator new succeeds and returns storage distinct from live blocks', 'the total byte count fits in int', 'a fragment of the stream is its bytes at a fixed address: the writer fills the area Next returned']
SRC = ['harness/chained.cpp', 'src/common/chained_stream.cpp', 'src/common/composable_fragment_input_stream.cpp']
CS = 'lightstep::ChainedStream'
BS = 256
ba = z3.Function('blk', I, I)       # address of the i-th block
bx = z3.Function('blkix', I, I)


def setup(ctx, name, measures=(), contracts=(), extra=None):
    m = ctx.module(SRC)
    O = ctx.offsets(['common/chained_stream.h'], {k: (CS, k) for k in ('output_closed_', 'num_blocks_', 'num_bytes_written_', 'current_block_position_', 'current_block_', 'fragment_index_', 'fragment_position_', 'head_')} |
                    {'b.next': (CS + '::Block', 'next'), 'b.size': (CS + '::Block', 'size'), 'b.data': (CS + '::Block', 'data')}, {'Block': CS + '::Block', 'Stream': CS})

    def cand(eng, view):
        out = int_candidates(list(measures), (1, -1), None)(eng, view)
        keys = [k for k, v in view.loc.items() if isinstance(v, Ptr)] + [w for w in view.modset if len(w) == 3 and w[0] in view.st.mem and isinstance(view.st.mem[w[0]].get(w[1], (0, 0))[1], Ptr)]
        for k in keys:
            for lab, g in measures:
                out.append(('%s is block %s' % (k, lab), lambda v, k=k, g=g: zi(eng.ptr_term(v.get(k))) == ba(g(v.st))))
            for d in range(-1, 2):
                for nm, t in view.ints():
                    out.append(('%s is block fi+%s+%d' % (k, nm, d), lambda v, k=k, nm=nm, d=d: zi(eng.ptr_term(v.get(k))) == ba(z3.Int('fi') + zi(v.term(v.get(nm))) + d)))
        for lab, g in measures:
            out.append(('%s >= entry' % lab, lambda v, g=g: g(v.st) >= g(v.entry)))
        if extra: out += extra(eng, view)
        return out
    e = Engine(m, name=name, candidates=cand, contracts=list(contracts))
    st = State(); e.cur = st
    reg = e.new_obj(st, 'Block', kind='region')
    reg.layout = {O['b.next']: ('ptr', reg), O['b.size']: ('int', 32, True)}
    o = e.new_obj(st, 'stream', kind='struct', size=O['Stream'], heap=True)
    o.sub = [(O['head_'], O['head_'] + O['Block'], reg)]
    st.assume(ba(0) == o.addr + O['head_']); st.assume(z3.And(ba(0) > 0, ba(0) < 2 ** 64))
    st.mem[o.id] = {}
    return e, st, o, reg, O


def put(e, st, o, O, **kw):
    for k, v in kw.items():
        off = O[k + '_']
        if isinstance(v, bool): v = IV(8, u=int(v)); sz = 1
        elif isinstance(v, Ptr): sz = 8
        else: v = IV(32, s=v); sz = 4
        st.mem[o.id][off] = (sz, v)


def get(e, s, o, O, k):
    off = O[k + '_']
    if k == 'current_block': return zi(e.ptr_term(e.norm_ptr(e.load(s, Ptr(o, off), ir.PTR))))
    if k == 'output_closed': return zi(e.dom.u(e.load(s, Ptr(o, off), ir.INT(8))))
    return zi(e.dom.s(e.load(s, Ptr(o, off), ir.INT(32))))


def chain(e, s, reg, O, n, pos, T):
    """n blocks ba(0..n-1) linked in order; all but the last full; the last holds pos bytes (its size is set once bytes were obtained)"""
    NX = e.arr(s, reg, O['b.next'], reg.layout[O['b.next']]); SZ = e.arr(s, reg, O['b.size'], reg.layout[O['b.size']])
    i = z3.Int('i')
    return NX, SZ, [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(ba(i) > 0, ba(i) < 2 ** 64, bx(ba(i)) == i, NX[ba(i)] == z3.If(i + 1 < n, ba(i + 1), 0), z3.Implies(i + 1 < n, SZ[ba(i)] == BS))), patterns=[ba(i)]),
                    z3.Implies(T > 0, SZ[ba(n - 1)] == pos)]


def writing(e, st, o, reg, O):
    n, pos, T = z3.Int('n'), z3.Int('pos'), z3.Int('T')
    st.assume(z3.And(n >= 1, n < 2 ** 22, pos >= 0, pos <= BS, T == BS * (n - 1) + pos, z3.Implies(n > 1, T > 0)))
    NX, SZ, f = chain(e, st, reg, O, n, pos, T)
    st.assume_q(f[0]); st.assume(f[1])
    for k in (0, n - 1): st.assume(z3.And(ba(k) > 0, ba(k) < 2 ** 64, bx(ba(k)) == k, z3.Implies(n - 1 != k, SZ[ba(k)] == BS)))
    st.assume(NX[ba(n - 1)] == 0)
    put(e, st, o, O, output_closed=False, num_blocks=n, num_bytes_written=T, current_block_position=pos, current_block=Ptr(reg, 0, ba(n - 1)), fragment_index=0, fragment_position=0)
    st.writes = frozenset()
    return n, pos, T, NX, SZ


def check_writing(e, s, o, reg, O, n, pos, T, what):
    e.prove(s, z3.And(get(e, s, o, O, 'num_blocks') == n, get(e, s, o, O, 'num_bytes_written') == T, get(e, s, o, O, 'current_block_position') == pos), what + ': the counters describe the bytes obtained')
    e.prove(s, z3.And(T == BS * (n - 1) + pos, pos >= 0, pos <= BS), what + ': every block but the last is full')
    e.prove(s, get(e, s, o, O, 'current_block') == ba(n - 1), what + ': the current block is the last one')
    e.prove(s, z3.And(get(e, s, o, O, 'fragment_index') == 0, get(e, s, o, O, 'fragment_position') == 0, get(e, s, o, O, 'output_closed') == 0), what + ': reading starts at the first byte')
    NX = e.arr(s, reg, O['b.next'], None); SZ = e.arr(s, reg, O['b.size'], None)
    j = z3.Int('j')
    e.prove(s, z3.Implies(z3.And(j >= 0, j < n), z3.And(NX[ba(j)] == z3.If(j + 1 < n, ba(j + 1), 0), z3.Implies(j + 1 < n, SZ[ba(j)] == BS))), what + ': the blocks are linked in order of writing and full before the last')
    e.prove(s, z3.Implies(T > 0, SZ[ba(n - 1)] == pos), what + ': the last block records its size')


def build(ctx, part):
    engs = []
    if part == 'write':
        new = {}

        def alloc(eng, s, args, ins):
            sz = eng.dom.idx(eng.as_int(args[0]))
            if not (is_c(sz) and sz == O['Block']): raise Unsupported('allocation of %s bytes' % sz)
            n = new['n']
            k = ba(n)          # the address of the new block: distinct from all live ones
            j = z3.Int('j')
            s.assume(z3.And(k > 0, k < 2 ** 64, bx(k) == n))
            s.gset('allocs', s.ghost['allocs'] + 1)
            eng.prove(s, s.ghost['allocs'] == 1, 'Next: at most one block is allocated')
            return [(s, Ptr(reg, 0, k))]

        def deleted(eng, s, args, ins):
            eng.prove(s, False, 'Next: no block is destroyed')
            return [(s, None)]
        e, st, o, reg, O = setup(ctx, 'Next', contracts=[('operator new(', alloc), (rx(r'default_delete<lightstep::ChainedStream::Block>::operator\(\)'), deleted)])
        e.demangled['_Znwm'] = 'operator new(unsigned long)'
        n, pos, T, NX, SZ = writing(e, st, o, reg, O)
        new['n'] = n; st.ghost['allocs'] = z3.IntVal(0)
        st.assume(T + BS < 2 ** 31)
        d = e.new_obj(st, 'data', kind='struct', size=8); z = e.new_obj(st, 'size', kind='struct', size=4)
        outs = returns(e, e.run('vf_s_next', st, [Ptr(o, 0), Ptr(d, 0), Ptr(z, 0)]), 'Next')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
            e.prove(s, zb(s.outcome[1]), 'Next: output space is always provided')
            size = zi(e.dom.s(e.load(s, Ptr(z, 0), ir.INT(32))))
            data = zi(e.ptr_term(e.norm_ptr(e.load(s, Ptr(d, 0), ir.PTR))))
            e.prove(s, z3.And(size > 0, size == z3.If(pos < BS, BS - pos, BS)), 'Next: the area extends to the end of its block and is not empty')
            e.prove(s, data == z3.If(pos < BS, ba(n - 1) + O['b.data'] + pos, ba(n) + O['b.data']), 'Next: the area continues exactly after the bytes already written')
            n2 = z3.If(pos < BS, n, n + 1); 
            check_writing(e, s, o, reg, O, n2, z3.IntVal(BS), T + size, 'Next')
        engs.append(e)
        e, st, o, reg, O = setup(ctx, 'BackUp')
        n, pos, T, NX, SZ = writing(e, st, o, reg, O)
        c = z3.Int('c'); st.assume(z3.And(c >= 0, c <= pos, T > 0))
        outs = returns(e, e.run('vf_s_backup', st, [Ptr(o, 0), IV(32, s=c)]), 'BackUp')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            check_writing(e, s, o, reg, O, n, pos - c, T - c, 'BackUp')
            SZ2 = e.arr(s, reg, O['b.size'], None)
            e.prove(s, SZ2[ba(n - 1)] == pos - c, 'BackUp: exactly the unused tail of the last block is given back')
        engs.append(e)
        for fn, what in (('vf_s_bytes', 'ByteCount'),):
            e, st, o, reg, O = setup(ctx, what)
            n, pos, T, NX, SZ = writing(e, st, o, reg, O)
            for s in returns(e, e.run(fn, st, [Ptr(o, 0)]), what):
                e.cur = s
                e.prove(s, zi(e.dom.s(s.outcome[1])) == T, 'ByteCount: the number of bytes obtained and not given back')
            engs.append(e)
        e, st, o, reg, O = setup(ctx, 'constructor')
        st.writes = frozenset()
        for s in returns(e, e.run('vf_s_ctor', st, [Ptr(o, 0)]), 'construction'):
            e.cur = s
            check_writing(e, s, o, reg, O, z3.IntVal(1), z3.IntVal(0), z3.IntVal(0), 'construction')
        engs.append(e)
        e, st, o, reg, O = setup(ctx, 'CloseOutput')
        n, pos, T, NX, SZ = writing(e, st, o, reg, O)
        for s in returns(e, e.run('vf_s_close', st, [Ptr(o, 0)]), 'CloseOutput'):
            e.cur = s
            e.prove(s, z3.And(get(e, s, o, O, 'output_closed') != 0, get(e, s, o, O, 'current_block') == ba(0), get(e, s, o, O, 'fragment_index') == 0, get(e, s, o, O, 'fragment_position') == 0,
                              get(e, s, o, O, 'num_blocks') == n, get(e, s, o, O, 'num_bytes_written') == T), 'CloseOutput: reading starts at the first byte, the contents are unchanged')
            e.prove(s, not [w for w in s.writes if w[0] == reg.id], 'CloseOutput: the blocks are unchanged')
        engs.append(e)
        return engs

    def reading(e, st, o, reg, O):
        n, T, fi, fp, last = z3.Int('n'), z3.Int('T'), z3.Int('fi'), z3.Int('fp'), z3.Int('last')
        st.assume(z3.And(n >= 1, n < 2 ** 22, last >= 0, last <= BS, T == BS * (n - 1) + last, fi >= 0, fi < n, fp >= 0))
        NX, SZ, f = chain(e, st, reg, O, n, last, T)
        st.assume_q(f[0]); st.assume(f[1])
        st.assume(z3.Implies(T > 0, fp <= z3.If(fi + 1 < n, BS, last))); st.assume(z3.Implies(T == 0, fp == 0))
        put(e, st, o, O, output_closed=True, num_blocks=n, num_bytes_written=T, current_block_position=last, current_block=Ptr(reg, 0, ba(fi)), fragment_index=fi, fragment_position=fp)
        st.assume(z3.And(ba(fi) > 0, ba(fi) < 2 ** 64, bx(ba(fi)) == fi))
        st.writes = frozenset()
        return n, T, fi, fp, last

    def size_of(k, n, last): return z3.If(k + 1 < n, z3.IntVal(BS), last)

    def read_checks(what, prep=None):
        Z = {}

        def cb(eng, s, args, ins):
            n, T, fi, fp, last, O = Z['s']
            k = s.ghost['k']
            eng.prove(s, eng.ptr_eq(args[0], Z['cb']), what + ': the caller\'s visitor is called')
            eng.prove(s, z3.Not(s.ghost['stop']), what + ': no fragment is offered after the visitor stopped')
            eng.prove(s, z3.And(T > 0, k < n), what + ': only written blocks are offered')
            off = z3.If(k == fi, fp, 0)
            eng.prove(s, zi(eng.ptr_term(eng.norm_ptr(args[1]))) == ba(k) + O['b.data'] + off, what + ': each fragment starts at the next unread byte, in order of writing')
            eng.prove(s, zi(eng.dom.s(args[2])) == size_of(k, n, last) - off, what + ': each fragment extends exactly over the bytes written to its block')
            r = z3.Bool('go!%d' % next(Obj.ids))
            s.gset('k', k + 1); s.gset('stop', z3.Not(r))
            return [(s, r)]

        def more(eng, view): return [('not stopped', lambda v: z3.Not(v.st.ghost['stop'])), ('position in range', lambda v: z3.And(v.st.ghost['k'] >= Z['s'][2], v.st.ghost['k'] <= Z['s'][0])), ('bytes exist', lambda v: Z['s'][1] > 0)]
        e, st, o, reg, O = setup(ctx, 'SegmentForEachFragment', [('k', lambda s: zi(s.ghost['k']))], [('vf_cb', cb)], more)
        e.ranks = lambda en, view: [('fragments left', lambda w: Z['s'][0] - w.st.ghost['k'])]
        n, T, fi, fp, last = reading(e, st, o, reg, O)
        st.assume(ba(n) == 0)
        c = e.new_obj(st, 'callable', kind='struct', size=8); Z['cb'] = Ptr(c, 0)
        starts = [st]
        if prep:
            starts = prep(e, st, o); n, T, fi, fp = [z3.IntVal(0)] * 4
        Z['s'] = (n, T, fi, fp, last, O)
        for s in starts: s.ghost.update(k=zi(fi), stop=z3.BoolVal(False)); s.writes = frozenset()
        outs = [y for x in starts for y in returns(e, e.run('vf_s_foreach', x, [Ptr(o, 0), Ptr(c, 0), Ptr(e.gobj('vf_cb'), 0)]), what)]
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, zb(s.outcome[1]) == z3.Not(s.ghost['stop']), what + ': reports exactly whether the visitor stopped')
            e.prove(s, z3.Or(s.ghost['stop'], s.ghost['k'] == z3.If(T > 0, n, fi)), what + ': unless stopped, every remaining fragment was offered')
            e.prove(s, not [w for w in s.writes if w[0] in (o.id, reg.id)], what + ': nothing is modified')
        e2, st, o, reg, O = setup(ctx, 'segment_num_fragments')
        n, T, fi, fp, last = reading(e2, st, o, reg, O)
        starts = [st]
        if prep: starts = prep(e2, st, o); T = z3.IntVal(0)
        for s in [y for x in starts for y in returns(e2, e2.run('vf_s_num', x, [Ptr(o, 0)]), what)]:
            e2.cur = s
            e2.prove(s, zi(e2.dom.s(s.outcome[1])) == z3.If(T > 0, n - fi, 0), what + ': the fragment count is the number of fragments visited')
        return [e, e2]
    if part == 'read': engs += read_checks('enumeration')
    if part == 'clear':
        def prep(e, st, o):
            outs = returns(e, e.run('vf_s_clear', st, [Ptr(o, 0)]), 'Clear')
            for s in outs: s.outcome = None
            return outs
        engs += read_checks('after SegmentClear', prep)
    if part == 'seek':
        def more(eng, view): return [('%s within the distance' % (nm,), lambda v, nm=nm: z3.And(zi(v.term(v.get(nm))) >= 0, zi(v.term(v.get(nm))) <= r)) for nm, t in view.ints()]
        r, p = z3.Int('r'), z3.Int('p')
        e, st, o, reg, O = setup(ctx, 'SegmentSeek', [], [], more)
        n, T, fi, fp, last = reading(e, st, o, reg, O)
        st.assume(z3.And(T > 0, r >= 0, fi + r < n, p >= 0, p < 2 ** 30, z3.If(r == 0, fp + p, p) <= size_of(fi + r, n, last)))
        outs = returns(e, e.run('vf_s_seek', st, [Ptr(o, 0), IV(32, s=r), IV(32, s=p)]), 'SegmentSeek')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, z3.And(get(e, s, o, O, 'fragment_index') == fi + r, get(e, s, o, O, 'fragment_position') == z3.If(r == 0, fp + p, p)), 'SegmentSeek: moves forward by exactly the given fragments and bytes, relative to the current position')
            e.prove(s, get(e, s, o, O, 'current_block') == ba(fi + r), 'SegmentSeek: the current block is the one at the new index')
            e.prove(s, z3.And(get(e, s, o, O, 'num_blocks') == n, get(e, s, o, O, 'num_bytes_written') == T, get(e, s, o, O, 'output_closed') == 1), 'SegmentSeek: the contents are unchanged')
            e.prove(s, not [w for w in s.writes if w[0] == reg.id], 'SegmentSeek: the blocks are unchanged')
        engs.append(e)
    return engs


def units(ctx):
    C = 'ChainedStream::'
    return [Unit('writing', lambda c: build(c, 'write'), [C + x for x in ('ChainedStream', 'Next', 'BackUp', 'ByteCount', 'CloseOutput')]),
            Unit('SegmentForEachFragment', lambda c: build(c, 'read'), [C + 'SegmentForEachFragment', C + 'segment_num_fragments']),
            Unit('SegmentClear', lambda c: build(c, 'clear'), [C + 'SegmentClear']), Unit('SegmentSeek', lambda c: build(c, 'seek'), [C + 'SegmentSeek'])]


def natives(ctx):
    return [Native('native/C04.cpp', srcs=['src/common/composable_fragment_input_stream.cpp', 'src/common/chained_stream.cpp', 'src/common/fragment_input_stream.cpp'], libs=['-lprotobuf'], budget=(10, 60))]
