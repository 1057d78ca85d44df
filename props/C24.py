"""C24: hexadecimal identifiers - rendering, parsing, round trip (contracts; parsing for texts of any length, rendering bit-precise)."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['the OpenTracing headers are not installed: string_view and expected<> are stand-ins with the documented interface (harness/stubs)', 'texts shorter than 2^60 bytes']
TRUSTED = ['isspace is the one of the C locale']
SRC = ['harness/hex.cpp', 'src/common/hex_conversion.cpp']
I = z3.IntSort()
S = z3.Const('text', z3.ArraySort(I, I))
Val = z3.Function('Val', I, I, I)       # Val(f, p): the number written by the characters f .. p-1


def dig(c):
    """value of a hexadecimal digit, -1 for anything else"""
    return z3.If(z3.And(c >= 48, c <= 57), c - 48, z3.If(z3.And(c >= 97, c <= 102), c - 87, z3.If(z3.And(c >= 65, c <= 70), c - 55, z3.IntVal(-1))))


def P16(k):
    r = z3.IntVal(16 ** 16)
    for i in reversed(range(16)): r = z3.If(k == i, z3.IntVal(16 ** i), r)
    return r


def blank(c): return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


class Text:
    def __init__(s, ctx, name, n=None):
        s.n, s.a, s.b, s.z, s.q = z3.Ints('n a b z q'); n_ = s.n
        s.e = e = Engine(ctx.module(SRC), name=name, contracts=[((lambda n, d: n == 'isspace'), s.isspace), (rx(r'(generic|system)_category'), s.category)], candidates=int_candidates([], (), s.cand))
        st = State(); e.cur = st; s.st = st
        s.text = e.new_obj(st, 'text', kind='array', stride=1, layout={0: ('int', 8, False)}, n=s.n)
        s.text.const = True
        st.mem[s.text.id] = {0: S}
        s.cat = e.new_obj(st, 'category', kind='struct', size=8)
        k = z3.Int('k')
        st.assume_q(z3.ForAll([k], z3.And(S[k] >= 0, S[k] < 256), patterns=[S[k]]))
        st.assume(z3.And(s.n >= 0, s.n < 2 ** 60) if n is None else s.n == n)
        # what is between the surrounding blanks, and where its leading zeros end
        st.assume(z3.And(s.a >= 0, s.a <= s.z, s.z <= s.b, s.b <= s.n, z3.Implies(s.a == s.b, s.a == s.n), z3.Implies(s.a < s.b, z3.And(z3.Not(blank(S[s.a])), z3.Not(blank(S[s.b - 1])))), z3.Implies(s.z < s.b, S[s.z] != 48)))
        st.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.n, z3.Or(k < s.a, k >= s.b)), blank(S[k])), patterns=[S[k]]))
        st.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= s.a, k < s.z), S[k] == 48), patterns=[S[k]]))
        st.assume_q(z3.ForAll([k], Val(k, k) == 0, patterns=[Val(k, k)]))
        for x in (s.z, s.b): st.assume(Val(x, x) == 0)
        s.x, s.y = (e.new_obj(st, m, kind='struct', size=8) for m in ('x', 'y'))
        st.writes = frozenset()

    def isspace(s, g, st, a, i):
        c = zi(s.e.dom.s(a[0]))
        s.e.prove(st, z3.And(c >= -1, c < 256), 'memory: isspace is given an unsigned character')
        r = z3.Int('isspace!%d' % next(Obj.ids))
        st.assume(z3.And(r >= -2 ** 31, r < 2 ** 31, (r != 0) == blank(c)))
        return [(st, IV(32, s=r))]

    def category(s, g, st, a, i): return [(st, Ptr(s.cat, 0))]

    def cand(s, e, view):
        out = []
        names = [n for n, _ in view.ints()] + list(view.ptrs())
        def pos(w, n, entry=False):
            v = w.get_entry(n) if entry else w.get(n)
            return zi(v.off) if isinstance(v, Ptr) and v.obj is s.text else None
        ps = [n for n in names if pos(view, n) is not None]
        a, b, z, q = s.a, s.b, s.z, s.q
        for n in ps:
            p = lambda w, n=n: pos(w, n)
            f = lambda w, n=n: pos(w, n, True)
            for lab, x in (('the first character', a), ('the end', b), ('the first significant digit', z), ('the end of the text', s.n), ('the sixteenth digit', z3.IntVal(16))):
                out += [('%s up to %s' % (n, lab), lambda w, p=p, x=x: p(w) <= x), ('%s from %s' % (n, lab), lambda w, p=p, x=x: p(w) >= x)]
            out.append(('%s at most 16 digits from the end' % (n,), lambda w, p=p: p(w) <= b - 16))
            out.append(('%s digits so far' % (n,), lambda w, p=p, f=f: z3.And(z3.Implies(z3.And(q >= f(w), q < p(w)), dig(S[q]) >= 0))))
            for m in names:
                if m in ps: continue
                def r(w, m=m): return zi(e.dom.u(e.as_int(w.get(m))))
                def val(w, p=p, f=f, r=r):
                    w.st.assume(z3.And(Val(f(w), p(w) + 1) == 16 * Val(f(w), p(w)) + dig(S[p(w)]), Val(f(w), f(w)) == 0))       # the definition of Val here
                    return r(w) == Val(f(w), p(w))
                out.append(('%s is the number up to %s' % (m, n), val))
                out.append(('%s has the digits up to %s' % (m, n), lambda w, p=p, f=f, r=r: z3.And(r(w) >= 0, r(w) < P16(p(w) - f(w)))))
        return out

    def word(s, st, o, n=64): return zi(s.e.dom.u(s.e.as_int(s.e.load(st, Ptr(o, 0), ir.INT(n)))))

    def ends(s, fn, args, what):
        outs = returns(s.e, s.e.run(fn, s.st, args), what); reachable(s.e, outs)
        for o in outs:
            s.e.cur = o
            if s.e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            for ok in (True, False):
                c = zb(o.outcome[1])
                if s.e.feasible(o, c if ok else z3.Not(c)):
                    t = o.clone(); t.assume(c if ok else z3.Not(c)); s.e.cur = t
                    yield t, ok


def parse(ctx):
    engs = []
    for wide in (False, True):
        T = Text(ctx, 'HexToUint%d' % (128 if wide else 64)); e = T.e; engs.append(e); a, b, z, q = T.a, T.b, T.z, T.q
        what = 'HexToUint%d' % (128 if wide else 64)
        most = 32 if wide else 16
        for s, ok in T.ends('vf_parse128' if wide else 'vf_parse64', [Ptr(T.text, 0), IV(64, u=T.n), Ptr(T.x, 0)] + ([Ptr(T.y, 0)] if wide else []), what):
            if ok:
                e.prove(s, a < b, 'parsing: an empty text is refused (%s)' % what)
                e.prove(s, b - z <= most, 'parsing: a number that does not fit is refused (%s)' % what)
                e.prove(s, z3.Implies(z3.And(q >= a, q < b), dig(S[q]) >= 0), 'parsing: a text with any other character is refused (%s)' % what)
                if wide:
                    e.prove(s, z3.If(b - z <= 16, z3.And(T.word(s, T.x) == 0, T.word(s, T.y) == Val(z, b)), z3.And(T.word(s, T.x) == Val(z, b - 16), T.word(s, T.y) == Val(b - 16, b))), 'parsing: the number is the one written (%s)' % what)
                else: e.prove(s, T.word(s, T.x) == Val(z, b), 'parsing: the number is the one written (%s)' % what)
            else:
                k = z3.Int('k')
                s.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= a, k < b), dig(S[k]) >= 0), patterns=[S[k]]))
                e.prove(s, z3.Not(z3.And(a < b, b - z <= most)), 'parsing: a hexadecimal number that fits is accepted (%s)' % what)
    return engs


def number(lo, hi):
    r = z3.IntVal(0)
    for k in range(lo, hi): r = 16 * r + dig(S[k])
    return r


def normalized(ctx):
    engs = []
    for fn, n, w in (('vf_norm8', 2, 8), ('vf_norm64', 16, 64), ('vf_norm128', 32, 64)):
        T = Text(ctx, 'Normalized' + fn[3:], n); e = T.e; engs.append(e); q = T.q; what = 'fixed width, %d digits' % n
        for s, ok in T.ends(fn, [Ptr(T.text, 0), Ptr(T.x, 0)] + ([Ptr(T.y, 0)] if n == 32 else []), what):
            k = z3.Int('k')
            if ok: e.prove(s, z3.Implies(z3.And(q >= 0, q < n), dig(S[q]) >= 0), 'parsing: accepted only if all are digits (%s)' % what)
            else:
                s.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), dig(S[k]) >= 0), patterns=[S[k]]))
                e.prove(s, False, 'parsing: accepted if all are digits (%s)' % what)
            if ok:
                for k in range(n):      # the definition of Val
                    for f in (0, 16):
                        if k >= f: s.assume(Val(f, k + 1) == 16 * Val(f, k) + dig(S[k]))
                        s.assume(Val(f, f) == 0)
                e.prove(s, T.word(s, T.x, w) == number(0, min(n, 16)), 'parsing: the number is the one written (%s)' % what)
                if n == 32: e.prove(s, T.word(s, T.y) == number(16, 32), 'parsing: the low half is the one written (%s)' % what)
    # x written as its hexadecimal digits (either case) has the value x: positional notation
    e = Engine(ctx.module(SRC), name='round trip'); st = State(); e.cur = st; engs.append(e)
    ds = z3.Ints(' '.join('d%d' % k for k in range(16)))
    st.assume(z3.And([z3.And(d >= 0, d < 16, S[k] == z3.If(d < 10, 48 + d, 87 + d)) for k, d in enumerate(ds)]))
    x = sum(d * 16 ** (15 - k) for k, d in enumerate(ds))
    e.prove(st, z3.And([dig(S[k]) == d for k, d in enumerate(ds)]), 'round trip: the digits read are the digits written')
    e.prove(st, number(0, 16) == x, 'round trip: the digits of x have the value x')
    return engs


def hexdigit(nib): return z3.If(z3.ULT(nib, 10), nib + 48, nib + 87)


def pairs(off):
    """the table of all two-digit numbers, as a formula (the engine checks it entry by entry before using it)"""
    return z3.If(z3.ULT(off, 512), hexdigit(z3.If(z3.Extract(0, 0, off) == 0, z3.ZeroExt(4, z3.Extract(8, 5, off)), z3.ZeroExt(4, z3.Extract(4, 1, off)))), z3.BitVecVal(0, 8))


def render(ctx):
    engs = []
    for fn, what in (('vf_hex64', 'Uint64ToHex'), ('vf_hex32', 'Uint32ToHex'), ('vf_hex8', 'Uint8ToHex'), ('vf_ser64', 'HexSerializer, 64 bits'), ('vf_ser128', 'HexSerializer, 128 bits')):
        e = Engine(ctx.module(SRC), dom='bv', name=what); e.table_fns = [pairs]; engs.append(e)
        st = State(); e.cur = st
        w = {'vf_hex32': 32, 'vf_hex8': 8}.get(fn, 64)
        x, y = z3.BitVec('x', w), z3.BitVec('y', 64)
        buf = e.new_obj(st, 'buffer', kind='struct', size=32 if 'ser' in fn else w // 4)
        p, n = (e.new_obj(st, m, kind='struct', size=8) for m in ('text', 'length'))
        args = ([Ptr(buf, 0), x] if 'ser' in fn else [x, Ptr(buf, 0)]) + ([y] if fn == 'vf_ser128' else []) + [Ptr(p, 0), Ptr(n, 0)]
        outs = returns(e, e.run(fn, st, args), what); reachable(e, outs)
        for s in outs:
            e.cur = s
            for both in ((False, True) if fn == 'vf_ser128' else (False,)):
                c = (x != 0) if both else (x == 0) if fn == 'vf_ser128' else True
                if not e.feasible(s, c): continue
                t = s.clone(); t.assume(c) if c is not True else None; e.cur = t
                v = z3.Concat(x, y) if both else y if fn == 'vf_ser128' else x
                m = v.size() // 4
                ptr = e.load(t, Ptr(p, 0), ir.PTR); size = e.load(t, Ptr(n, 0), ir.INT(64))
                e.prove(t, e.ptr_eq(ptr, Ptr(buf, 0)), 'rendering: the text is where it was written (%s)' % what)
                e.prove(t, e.dom.eq(64, size, e.dom.const(64, m)), 'rendering: all the digits (%s)' % what)
                for k in range(m):
                    nib = z3.ZeroExt(4, z3.Extract(v.size() - 4 * k - 1, v.size() - 4 * k - 4, v))
                    e.prove(t, e.load(t, Ptr(buf, k), ir.INT(8)) == hexdigit(nib), 'rendering: digit %d (%s)' % (k, what))
    return engs


def units(ctx):
    return [Unit('parse', parse, ['HexToUint64', 'HexToUint128', 'HexToUintImpl', 'RemoveSurroundingWhitespace'], timeout=600), Unit('normalized', normalized, ['NormalizedHexToUint8', 'NormalizedHexToUint64', 'NormalizedHexToUint128', 'HexToUintImpl'], timeout=400), Unit('render', render, ['Uint64ToHex', 'Uint32ToHex', 'Uint8ToHex', 'HexSerializer::Uint64ToHex', 'HexSerializer::Uint128ToHex'], timeout=400)]


def natives(ctx):
    return [Native('native/C24.cpp', srcs=['src/common/hex_conversion.cpp'], budget=(8, 40))]
