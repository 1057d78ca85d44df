"""C28: status line - recognised however the bytes arrive (contracts over texts of any length, inductive over the pieces)."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.stdmodel import Str

ASSUMPTIONS = ['the OpenTracing headers are not installed: string_view is a stand-in with the documented interface (harness/stubs)', 'texts shorter than 2^60 bytes', 'allocation succeeds', 'a code written with more digits than a long holds is whatever strtol makes of it']
TRUSTED = ['std::string append/clear behave as specified', 'strtol reads the decimal number at its argument, skipping blanks, up to the first other character']
SRC = ['harness/status_line.cpp', 'src/recorder/stream_recorder/status_line_parser.cpp']
I = z3.IntSort()
L = z3.Const('line', z3.ArraySort(I, I)); P = z3.Const('piece', z3.ArraySort(I, I))
n, m, c, a, b, q = z3.Ints('n m c a b q')
CR, SP = 13, 32
Dec = z3.Function('Dec', I, I)      # the decimal number that starts at this position of the whole line


def F(k): return z3.If(k < n, L[k], P[k - n])


def prepare(ctx):
    C = 'lightstep::StatusLineParser'
    ctx.off = ctx.offsets(['recorder/stream_recorder/status_line_parser.h'], {'line': (C, 'line_'), 'complete': (C, 'complete_')}, {'size': C})


class Parser:
    def __init__(s, ctx, name, fresh=False):
        s.S = Str(); s.off = ctx.off
        s.e = e = Engine(ctx.module(SRC), name=name, contracts=[((lambda n, d: n in ('strtol', '__isoc23_strtol')), s.strtol), (rx(r'(^| )std::find<(char( const)?\*|__gnu_cxx::__normal_iterator<char( const)?\*, .*>), char>\('), s.find)] + s.S.contracts() + textio(), candidates=int_candidates([], (), s.cand))
        st = State(); e.cur = st; s.st = st
        s.obj = e.new_obj(st, 'parser', kind='struct', size=ctx.off['size'])
        k = z3.Int('k')
        s.piece = e.new_obj(st, 'piece', kind='array', stride=1, layout={0: ('int', 8, False)}, n=m); s.piece.const = True
        st.mem[s.piece.id] = {0: P}
        st.assume(z3.And(n >= 0, n < 2 ** 60, m >= 0, m < 2 ** 60, c >= 0, c <= m, a >= 0, a <= n + c, b <= n + c, z3.Implies(a < n + c, b > a), z3.Implies(a == n + c, b == a)))
        st.assume_q(z3.ForAll([k], z3.And(L[k] >= 0, L[k] < 256), patterns=[L[k]]))
        st.assume_q(z3.ForAll([k], z3.And(P[k] >= 0, P[k] < 256, z3.Implies(z3.And(k >= 0, k < c), P[k] != CR)), patterns=[P[k]]))
        # what is so of the whole line, written in the two parts it comes from
        for A, lo, hi, base in ((L, 0, n, 0), (P, n, n + c, n)):
            st.assume_q(z3.ForAll([k], z3.And(z3.Implies(z3.And(k + base >= lo, k + base < hi, k + base < a), A[k] != SP), z3.Implies(z3.And(k + base >= lo, k + base < hi, k + base > a, k + base < b), A[k] != SP)), patterns=[A[k]]))
        st.assume(z3.And(z3.Implies(c < m, P[c] == CR), z3.Implies(a < n + c, F(a) == SP), z3.Implies(b < n + c, F(b) == SP)))
        st.assume(Dec(a) == Dec(a + 1))         # a blank in front of a number does not matter
        s.line = s.S.fresh(e, st, Ptr(s.obj, ctx.off['line']), 'line', n, L)

    def strtol(s, g, st, args, ins):
        e = s.e; p = e.norm_ptr(args[0])
        s.whole(st, p.obj, 'status')
        e.prove(st, z3.And(zi(p.off) >= 0, zi(p.off) <= s.len(st)), 'memory: the number is read from the line')
        e.prove(st, e.dom.eq(32, args[2], e.dom.const(32, 10)), 'status: read as a decimal number')
        if isinstance(args[1], Ptr) and args[1].obj is not None: raise Unsupported('strtol with an end pointer')
        r = IV(64, s=Dec(zi(p.off)))
        st.assume(z3.And(r.s >= -2 ** 63, r.s < 2 ** 63))
        return [(st, r)]

    def find(s, g, st, args, ins):
        """std::find's contract, discharged for its real instantiations by the unit std::find"""
        e = s.e; f, l = e.norm_ptr(args[0]), e.norm_ptr(args[1])
        if f.obj is not l.obj or f.obj.kind != 'array' or not isinstance(args[2], Ptr): raise Unsupported('find over something else')
        X = e.arr(st, f.obj, 0, f.obj.layout[0]); v = zi(e.dom.u(e.as_int(e.load(st, args[2], ir.INT(8)))))
        top = f.obj.n(st) if callable(f.obj.n) else f.obj.n
        f, l = zi(f.off), zi(l.off)
        e.prove(st, z3.And(f >= 0, f <= l, l <= zi(top)), 'memory: searched within the text')
        r = z3.Int('found!%d' % next(Obj.ids))
        st.assume(z3.And(r >= f, r <= l, z3.Implies(r < l, X[r] == v)))
        for y in (c, a, b): st.assume(z3.Implies(z3.And(y >= f, y < r), X[y] != v))
        return [(st, Ptr(args[0].obj, r))]

    def len(s, st): return s.S.size(s.e, st, Ptr(s.obj, s.off['line']))

    def whole(s, st, o, what):
        """the string's storage holds the whole line so far"""
        arr, A, k = s.S.get(s.e, st, Ptr(s.obj, s.off['line']))
        s.e.prove(st, o is arr, what + ': taken from the line')
        s.e.prove(st, z3.And(k == n + c, z3.Implies(z3.And(q >= 0, q < k), A[q] == F(q))), what + ': the line is everything up to the line break')

    def cand(s, e, view):
        out = []
        names = [x for x, _ in view.ints()] + list(view.ptrs())
        def val(w, x, entry=False):
            v = w.get_entry(x) if entry else w.get(x)
            return zi(v.off) if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'array' else None if isinstance(v, Ptr) or v is None else zi(e.dom.s(e.as_int(v)))
        ks = [x for x in names if val(view, x) is not None]
        for x in ks:
            f = lambda w, x=x: val(w, x)
            out += [('%s up to %s' % (x, l), lambda w, f=f, y=y: f(w) <= y) for l, y in (('the line break', c), ('the first blank', a), ('the second blank', b), ('the end', n + c), ('the end of the piece', m))]
            out += [('%s behind the first blank' % (x,), lambda w, f=f: f(w) > a)]
            for y in ks:
                if y == x: continue
                h = lambda w, y=y: val(w, y)
                out.append(('%s counted down by %s' % (x, y), lambda w, x=x, y=y: val(w, x) + 4 * val(w, y) == val(w, x, True) + 4 * val(w, y, True)))
                out.append(('%s counted with %s' % (x, y), lambda w, x=x, y=y: val(w, x) - val(w, y) == val(w, x, True) - val(w, y, True)))
        return out

    def read(s, st, fn, *args):
        outs = returns(s.e, s.e.run(fn, st.clone(), [Ptr(s.obj, 0)] + list(args)), fn)
        if len(outs) != 1: raise Unsupported(fn + ' branches')
        return outs[0]

    def completed(s, st): return zb(s.read(st, 'vf_completed').outcome[1])


def parse(ctx):
    engs = []
    for done in (False, True):
        X = Parser(ctx, 'Parse (%s)' % ('once complete' if done else 'incomplete line')); e, st = X.e, X.st; engs.append(e)
        k = z3.Int('k')
        if not done: st.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), L[k] != CR), patterns=[L[k]]))
        e.store(st, Ptr(X.obj, ctx.off['complete']), ir.INT(8), IV(8, u=1 if done else 0))
        before = dict(st.mem[X.obj.id])
        outs = e.run('vf_parse', st, [Ptr(X.obj, 0), Ptr(X.piece, 0), IV(64, u=m)]); reachable(e, outs)
        for s in outs:
            e.cur = s
            thrown = s.outcome[0] != 'ret'
            if done:
                e.prove(s, not thrown, 'parsing: never fails once complete')
                e.prove(s, X.completed(s), 'parsing: stays complete')
                arr, A, k = X.S.get(e, s, Ptr(X.obj, ctx.off['line']))
                e.prove(s, arr is X.line and all(x in s.mem[X.obj.id] and e.oracle(e.val_eq(s.mem[X.obj.id][x][1], v[1]) if hasattr(e, 'val_eq') else s.mem[X.obj.id][x][1] is v[1]) is True for x, v in before.items()) or s.writes == frozenset(), 'parsing: what comes later changes nothing')
                e.prove(s, z3.And(k == n, z3.Implies(z3.And(q >= 0, q < n), A[q] == L[q])), 'parsing: the line stays')
                continue
            full = z3.And(c < m, b < n + c)
            if thrown:
                e.prove(s, z3.And(c < m, b == n + c), 'parsing: fails only on a complete line that is malformed')
                e.prove(s, z3.Not(X.completed(s)), 'parsing: as new after a malformed line'); e.prove(s, X.len(s) == 0, 'parsing: nothing kept of a malformed line')
                continue
            r = X.completed(s)
            for ok in (True, False):
                if not e.feasible(s, r if ok else z3.Not(r)): continue
                t = s.clone(); t.assume(r if ok else z3.Not(r)); e.cur = t
                arr, A, k = X.S.get(e, t, Ptr(X.obj, ctx.off['line']))
                if ok:
                    e.prove(t, full, 'parsing: complete only with a complete, well-formed line')
                    code = e.dom.s(e.as_int(X.read(t, 'vf_status').outcome[1]))
                    d = Dec(a)
                    t.assume(z3.And(d >= -2 ** 63, d < 2 ** 63))
                    e.prove(t, z3.Implies(z3.And(d >= -2 ** 31, d < 2 ** 31), zi(code) == d), 'status: the code is the number behind the first blank')
                    rp, rn = (e.new_obj(t, x, kind='struct', size=8) for x in ('reason', 'length'))
                    u = X.read(t, 'vf_reason', Ptr(rp, 0), Ptr(rn, 0)); e.cur = u
                    w, z = e.load(u, Ptr(rp, 0), ir.PTR), zi(e.dom.u(e.as_int(e.load(u, Ptr(rn, 0), ir.INT(64)))))
                    X.whole(u, w.obj, 'reason')
                    e.prove(u, z3.And(zi(w.off) == b + 1, z == n + c - b - 1), 'reason: everything behind the second blank')
                else:
                    e.prove(t, c == m, 'parsing: complete as soon as the line is')
                    e.prove(t, z3.And(k == n + m, z3.Implies(z3.And(q >= 0, q < k), A[q] == F(q))), 'parsing: the pieces add up to the line')
    return engs


def reset(ctx):
    X = Parser(ctx, 'Reset and construction'); e, st = X.e, X.st
    for fn in ('vf_reset', 'vf_init'):
        outs = returns(e, e.run(fn, st.clone(), [Ptr(X.obj, 0)]), fn); reachable(e, outs)
        for s in outs:
            e.cur = s
            e.prove(s, z3.Not(X.completed(s)), 'a new line: not complete (%s)' % fn); e.prove(s, X.len(s) == 0, 'a new line: nothing kept (%s)' % fn)
    return e


def find(ctx):
    engs = []
    lo, hi, y, v = z3.Ints('lo hi y v')
    for fn in ('vf_find', 'vf_find_line'):
        S = Str()
        def cand(e, view):
            out = []
            names = [x for x, _ in view.ints()] + list(view.ptrs())
            def val(w, x, entry=False):
                u = w.get_entry(x) if entry else w.get(x)
                return zi(u.off) if isinstance(u, Ptr) and u.obj is text else None if isinstance(u, Ptr) or u is None else zi(e.dom.s(e.as_int(u)))
            ks = [x for x in names if val(view, x) is not None]
            for x in ks:
                f = lambda w, x=x: val(w, x)
                out += [('%s within' % (x,), lambda w, f=f: z3.And(f(w) >= lo, f(w) <= hi)), ('%s not behind an occurrence' % (x,), lambda w, f=f: z3.Implies(z3.And(y >= lo, y < hi, P[y] == v), f(w) <= y))]
                for o in ks:
                    if o != x: out.append(('%s counted down by %s' % (x, o), lambda w, x=x, o=o: val(w, x) + 4 * val(w, o) == val(w, x, True) + 4 * val(w, o, True)))
            return out
        e = Engine(ctx.module(SRC), name='std::find (%s)' % ('pointers' if fn == 'vf_find' else 'string iterators'), candidates=int_candidates([], (), cand))
        st = State(); e.cur = st; engs.append(e)
        text = e.new_obj(st, 'text', kind='array', stride=1, layout={0: ('int', 8, False)}, n=m); text.const = True
        st.mem[text.id] = {0: P}
        k = z3.Int('k')
        st.assume_q(z3.ForAll([k], z3.And(P[k] >= 0, P[k] < 256), patterns=[P[k]]))
        st.assume(z3.And(lo >= 0, lo <= hi, hi <= m, m < 2 ** 60, v >= 0, v < 256))
        args = [Ptr(text, lo), Ptr(text, hi), IV(8, u=v)]
        outs = returns(e, e.run(fn, st, args), 'std::find'); reachable(e, outs)
        for s in outs:
            e.cur = s
            r = s.outcome[1]
            e.prove(s, r.obj is text, 'std::find: a position in the range'); r = zi(r.off)
            e.prove(s, z3.And(r >= lo, r <= hi, z3.Implies(r < hi, P[r] == v)), 'std::find: an occurrence, or the end')
            e.prove(s, z3.Implies(z3.And(y >= lo, y < r), P[y] != v), 'std::find: the first one')
    return engs


def units(ctx):
    return [Unit('std::find', find, ['std::find<const char*, char>', 'std::find<std::string::iterator, char>'], timeout=200), Unit('Parse', parse, ['StatusLineParser::Parse', 'StatusLineParser::ParseFields', 'StatusLineParser::Reset'], timeout=500), Unit('Reset', reset, ['StatusLineParser::Reset', 'StatusLineParser::StatusLineParser'], timeout=100)]


def natives(ctx):
    return [Native('native/C28.cpp', srcs=['src/recorder/stream_recorder/status_line_parser.cpp'], budget=(6, 30))]
