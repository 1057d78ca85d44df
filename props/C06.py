"""C06: FragmentArrayInputStream - the remaining suffix of its fragments."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.stdmodel import Vec

ASSUMPTIONS = ['std::vector operations follow their standard contracts (append, assign, clear, reserve)', 'fragment counts and positions fit in int', 'Seek is called within the enumerated fragments (its asserted precondition)']
FRAG = {0: ('ptr', None), 8: ('int', 32, True)}


def build(ctx, part):
    m = ctx.module(['harness/streams.cpp', 'src/common/fragment_array_input_stream.cpp'])
    engs = []
    vec = Vec(r'std::pair<void\*, int>', 16, FRAG)

    def mk(name, extra=(), cand=None):
        e = Engine(m, name=name, contracts=list(extra) + vec.contracts(), candidates=cand); engs.append(e)
        st = State(); e.cur = st
        o = e.new_obj(st, 'stream', kind='struct', size=40, heap=True)
        N = z3.Int('N'); fi = z3.Int('fi'); pos = z3.Int('pos')
        st.assume(z3.And(N >= 0, N < 2 ** 27, fi >= 0, fi <= N, pos >= 0, pos < 2 ** 31))
        st.mem[o.id] = {0: (8, Ptr(e.gobj('_ZTVN9lightstep24FragmentArrayInputStreamE'), 16)), 32: (4, IV(32, s=fi)), 36: (4, IV(32, s=pos))}
        a = vec.new_storage(e, st, Ptr(o, 8), 'fragments', N)
        st.writes = frozenset()
        Pa = e.arr(st, a, 0, FRAG[0]); Sa = e.arr(st, a, 8, FRAG[8])
        return e, st, o, a, N, fi, pos, Pa, Sa

    def fields(e, s, o):
        return e.dom.s(e.load(s, Ptr(o, 32), ir.INT(32))), e.dom.s(e.load(s, Ptr(o, 36), ir.INT(32)))

    def same_content(e, s, o, Pa, Sa, N, what):
        b, n = vec.get(e, s, Ptr(o, 8))
        i = z3.Int('i')
        e.prove(s, zi(n) == zi(N), what + ': the number of stored fragments is as specified')
        if b is None: return
        A, B = e.arr(s, b, 0, FRAG[0]), e.arr(s, b, 8, FRAG[8])
        e.prove(s, z3.Implies(z3.And(i >= 0, i < N), z3.And(A[i] == Pa[i], B[i] == Sa[i])), what + ': the stored fragments are as specified')

    def enumerate_check(what, prep=None, unit='foreach'):
        """ForEachFragment on the (possibly modified) stream enumerates exactly fragments fi..N-1 from pos"""
        S = {}

        def cb(eng, st, args, ins):
            k = st.ghost['k']
            N, fi, pos, Pa, Sa = S['spec']
            eng.prove(st, eng.ptr_eq(args[0], S['cb']), what + ': the caller\'s callback is called')
            eng.prove(st, z3.Not(st.ghost['stopped']), what + ': no fragment is offered after the visitor stopped')
            eng.prove(st, fi + k < N, what + ': no fragment is offered beyond the last one')
            off = z3.If(k == 0, pos, 0)
            eng.prove(st, zi(eng.ptr_term(args[1])) == z3.Select(Pa, fi + k) + off, what + ': each fragment is offered in order, the first from the current position (data)')
            eng.prove(st, zi(eng.dom.s(args[2])) == z3.Select(Sa, fi + k) - off, what + ': each fragment is offered with its remaining size')
            r = z3.Bool('go!%d' % next(Obj.ids))
            st.gset('k', k + 1); st.gset('stopped', z3.Not(r))
            return [(st, r)]
        km = [('fragments offered', lambda s: zi(s.ghost['k']))]

        def more(eng, view):
            return [('visitor has not stopped', lambda v: z3.Not(v.st.ghost['stopped'])), ('offered within bounds', lambda v: z3.And(v.st.ghost['k'] >= 0, S['spec'][1] + v.st.ghost['k'] <= S['spec'][0]))]
        e, st, o, a, N, fi, pos, Pa, Sa = mk(unit, [('vf_cb', cb)], int_candidates(km, (1, -1, 16, -16), more))
        st.ghost.update(k=z3.IntVal(0), stopped=z3.BoolVal(False))
        spec = (N, fi, pos, Pa, Sa)
        starts = prep(e, st, o, spec) if prep else [st]
        if prep: spec = (z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), Pa, Sa)
        S['spec'] = spec; N, fi, pos, Pa, Sa = spec
        i = z3.Int('i')
        c = e.new_obj(st, 'callable', kind='struct', size=8); S['cb'] = Ptr(c, 0)
        outs = []
        for st in starts:
            st.writes = frozenset()
            outs += returns(e, e.run('vf_fa_foreach', st, [Ptr(o, 0), Ptr(c, 0), Ptr(e.gobj('vf_cb'), 0)]), what)
        reachable(e, outs)
        cnt = z3.If(zi(fi) < zi(N), zi(N) - zi(fi), 0)
        for s in outs:
            e.cur = s
            r = zb(s.outcome[1])
            e.prove(s, z3.Implies(r, z3.And(s.ghost['k'] == cnt, z3.Not(s.ghost['stopped']))), what + ': a completed iteration has offered every remaining fragment')
            e.prove(s, z3.Implies(z3.Not(r), s.ghost['stopped']), what + ': an iteration is reported as stopped only when the visitor stopped it')
            e.prove(s, not [w for w in s.writes if w[0] in (o.id, a.id)], what + ': iteration changes nothing in the stream')
        # the count and emptiness agree with it
        e2, st2, o2, a2, N2, fi2, pos2, Pa2, Sa2 = mk(unit + ' count')
        sp = (N2, fi2, pos2, Pa2, Sa2)
        starts2 = prep(e2, st2, o2, sp) if prep else [st2]
        if prep: sp = (z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), Pa2, Sa2)
        n2 = z3.If(zi(sp[1]) < zi(sp[0]), zi(sp[0]) - zi(sp[1]), 0)
        for fn in ('vf_fa_num', 'vf_fa_empty'):
            for s in [y for x in starts2 for y in returns(e2, e2.run(fn, x.clone(), [Ptr(o2, 0)]), what)]:
                e2.cur = s
                if fn == 'vf_fa_num': e2.prove(s, zi(e2.dom.s(s.outcome[1])) == n2, what + ': num_fragments is the number of fragments enumerated')
                else: e2.prove(s, zb(s.outcome[1]) == (n2 == 0), what + ': empty exactly when nothing remains')

    if part == 'foreach': enumerate_check('enumeration')
    if part == 'seek':
        e, st, o, a, N, fi, pos, Pa, Sa = mk('Seek')
        f, p = z3.Int('f'), z3.Int('p')
        st.assume(z3.And(f >= 0, fi + f < N, p >= 0, p < 2 ** 31, pos < z3.Select(Sa, fi)))
        st.assume(z3.If(f == 0, pos + p, p) < z3.Select(Sa, fi + f)); st.assume(z3.Select(Sa, fi + f) < 2 ** 31)
        outs = returns(e, e.run('vf_fa_seek', st, [Ptr(o, 0), IV(32, s=f), IV(32, s=p)]), 'Seek')
        reachable(e, outs)
        for s in outs:
            e.cur = s
            g, q = fields(e, s, o)
            e.prove(s, zi(g) == fi + f, 'Seek: advances by exactly the given number of fragments')
            e.prove(s, zi(q) == z3.If(f == 0, pos + p, p), 'Seek: the position is relative to the current one within the same fragment, absolute in a later one')
            same_content(e, s, o, Pa, Sa, N, 'Seek')
    if part == 'edit':
        def cleared(e, st, o, sp):
            outs = returns(e, e.run('vf_fa_clear', st, [Ptr(o, 0)]), 'Clear')
            for s in outs: s.outcome = None
            return outs
        enumerate_check('after Clear', cleared, 'clear')
        e, st, o, a, N, fi, pos, Pa, Sa = mk('Add')
        x, n = z3.Int('x'), z3.Int('n'); st.assume(z3.And(x >= 0, x < 2 ** 64, n >= 0, n < 2 ** 31))
        for s in returns(e, e.run('vf_fa_add', st, [Ptr(o, 0), Ptr(None, x), IV(32, s=n)]), 'Add'):
            e.cur = s
            g, q = fields(e, s, o)
            e.prove(s, z3.And(zi(g) == fi, zi(q) == pos), 'Add: the current position is unchanged')
            same_content(e, s, o, z3.Store(Pa, N, x), z3.Store(Sa, N, n), N + 1, 'Add')
        e, st, o, a, N, fi, pos, Pa, Sa = mk('Reserve')
        for s in returns(e, e.run('vf_fa_reserve', st, [Ptr(o, 0), IV(64, u=n)]), 'Reserve'):
            e.cur = s
            g, q = fields(e, s, o)
            e.prove(s, z3.And(zi(g) == fi, zi(q) == pos), 'Reserve: the current position is unchanged')
            same_content(e, s, o, Pa, Sa, N, 'Reserve')
        for fn, what in (('vf_fa_assign', 'assignment'), ('vf_fa_ctor_list', 'construction from a list'), ('vf_fa_ctor', 'default construction')):
            e, st, o, a, N, fi, pos, Pa, Sa = mk(what)
            M = z3.Int('M'); st.assume(z3.And(M >= 0, M < 2 ** 27))
            if fn != 'vf_fa_assign': st.mem[o.id] = {}
            il = e.new_obj(st, 'list', kind='array', stride=16, layout=dict(FRAG), n=M)
            LP, LS = e.arr(st, il, 0, FRAG[0]), e.arr(st, il, 8, FRAG[8])
            args = [Ptr(o, 0)] + ([Ptr(il, 0), IV(64, u=M)] if fn != 'vf_fa_ctor' else [])
            for s in returns(e, e.run(fn, st, args), what):
                e.cur = s
                g, q = fields(e, s, o)
                e.prove(s, z3.And(zi(g) == 0, zi(q) == 0), what + ': the sequence starts at its first byte')
                same_content(e, s, o, LP, LS, M if fn != 'vf_fa_ctor' else 0, what)
    return engs


def units(ctx):
    F = 'FragmentArrayInputStream::'
    return [Unit('ForEachFragment', lambda c: build(c, 'foreach'), [F + 'ForEachFragment', F + 'num_fragments', 'FragmentInputStream::empty']),
            Unit('Seek', lambda c: build(c, 'seek'), [F + 'Seek']),
            Unit('Clear, Add, operator=, constructors', lambda c: build(c, 'edit'), [F + 'Clear', F + 'Add', F + 'Reserve', F + 'operator=', F + 'FragmentArrayInputStream'])]


def natives(ctx):
    return [Native('native/C06.cpp', srcs=['src/common/fragment_array_input_stream.cpp', 'src/common/fragment_input_stream.cpp'], budget=(10, 60))]
