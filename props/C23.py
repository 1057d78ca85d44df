"""C23: Base64 - standard text, round trip, everything else refused (contracts with a byte-by-byte specification)."""
from cvg.runner import Unit, Native
from cvg.util import *
from cvg.stdmodel import Str

ASSUMPTIONS = ['texts shorter than 2^31 bytes', 'allocation succeeds']
TRUSTED = ['std::string push_back/append/reserve/move behave as specified']
SRC = ['harness/base64.cpp', '3rd_party/base64/src/base64.cpp']
I = z3.IntSort()
IN = z3.Const('input', z3.ArraySort(I, I)); N = z3.Int('length')
PAD = ord('=')


def T(v):
    """the base64 alphabet (RFC 4648)"""
    return z3.If(v < 26, v + 65, z3.If(v < 52, v - 26 + 97, z3.If(v < 62, v - 52 + 48, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47)))))


def D(c):
    """value of a character, 64 for anything else"""
    return z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 97 + 26, z3.If(z3.And(c >= 48, c <= 57), c - 48 + 52, z3.If(c == 43, z3.IntVal(62), z3.If(c == 47, z3.IntVal(63), z3.IntVal(64))))))


def enc(x, n, q):
    """character q of the base64 text of the n bytes x"""
    g, r = q / 4, q % 4
    a, b, c = (x[3 * g + k] for k in range(3))
    h1, h2 = 3 * g + 1 < n, 3 * g + 2 < n
    pad = z3.IntVal(PAD)
    return z3.If(r == 0, T(a / 4), z3.If(r == 1, T(a % 4 * 16 + z3.If(h1, b / 16, 0)), z3.If(r == 2, z3.If(h1, T(b % 16 * 4 + z3.If(h2, c / 64, 0)), pad), z3.If(h2, T(c % 64), pad))))


def enclen(n): return (n + 2) / 3 * 4


def padding(x, n):
    """characters of padding at the end"""
    return z3.If(z3.And(n > 0, x[n - 1] == PAD), z3.If(x[n - 2] == PAD, 2, 1), 0)


def decs(x, g, r):
    """byte r of the group g of what the text x stands for"""
    a, b, c, d = (D(x[4 * g + k]) for k in range(4))
    return (a * 4 % 256 + b / 16, b * 16 % 256 + c / 4, c * 64 % 256 + d)[r]


def wellformed(x, n, k):
    """position k of the text x is as it must be"""
    p = padding(x, n)
    unused = z3.And(z3.Implies(p == 2, D(x[n - 3]) % 16 == 0), z3.Implies(p == 1, D(x[n - 2]) % 4 == 0))
    return z3.And(n % 4 == 0, z3.Implies(z3.And(k >= 0, k < n - p), D(x[k]) < 64), unused)


def run(ctx, fn, name, cand, n=None):
    m = ctx.module(SRC)
    S = Str()
    e = Engine(m, name=name, contracts=S.contracts(), candidates=int_candidates([], (), lambda eng, view: cand(S, eng, view)))
    st = State(); e.cur = st
    inp = e.new_obj(st, 'input', kind='array', stride=1, layout={0: ('int', 8, False)}, n=N)
    st.mem[inp.id] = {0: IN}; inp.const = True
    j = z3.Int('j')
    st.assume_q(z3.ForAll([j], z3.And(IN[j] >= 0, IN[j] < 256), patterns=[IN[j]]))
    st.assume(z3.And(N >= 0, N < 2 ** 31))
    out = e.new_obj(st, 'result', kind='struct', size=32)
    outs = returns(e, e.run(fn, st, [Ptr(inp, 0), IV(64, u=N), Ptr(out, 0)]), name); reachable(e, outs)
    for s in outs:
        e.cur = s
        if e.check_valid(s, False, timeout=1500)[0] == 'proved': continue
        yield e, s, S.get(e, s, Ptr(out, 0))


def text_of(S, eng, w):
    """the text being written: (bytes, size)"""
    live = [o for o in S.strs if o.id in w.st.mem]
    for o in reversed(live):
        try: return eng.arr(w.st, o, 0, o.layout[0]), o.n(w.st) - 1
        except (KeyError, Unsupported): continue
    raise KeyError('no text')


def encode(ctx):
    q = z3.Int('q'); e = None

    def cand(S, eng, view):
        out = []
        for name, t in view.ints():
            i = lambda w, name=name: zi(w.term(w.get(name)))
            text = lambda w: text_of(S, eng, w)
            out.append(('text up to byte %s' % (name,), lambda w, i=i: text(w)[1] == i(w) / 3 * 4 + i(w) % 3))
            out.append(('%s within' % (name,), lambda w, i=i: z3.And(i(w) >= 0, i(w) <= N)))
            out.append(('%s is the position' % (name,), lambda w, i=i: text(w)[1] / 4 * 3 + text(w)[1] % 4 == i(w)))
            pos = lambda w: text(w)[1] / 4 * 3 + text(w)[1] % 4
            out.append(('%s carries the bits left over' % (name,), lambda w, i=i: i(w) == z3.If(pos(w) % 3 == 0, 0, z3.If(pos(w) % 3 == 1, IN[pos(w) - 1] % 4 * 16, IN[pos(w) - 1] % 16 * 4))))
        out.append(('text so far', lambda w: z3.Implies(z3.And(q >= 0, q < text_of(S, eng, w)[1]), text_of(S, eng, w)[0][q] == enc(IN, N, q))))
        out.append(('text complete groups', lambda w: text_of(S, eng, w)[1] % 4 < 3))
        out.append(('input left', lambda w: z3.And(text_of(S, eng, w)[1] >= 0, text_of(S, eng, w)[1] / 4 * 3 + text_of(S, eng, w)[1] % 4 <= N)))
        return out
    for e, s, (a, A, n) in run(ctx, 'vf_encode', 'encode', cand):
        e.prove(s, n == enclen(N), 'encoding: the text has the standard length')
        e.prove(s, z3.Implies(z3.And(q >= 0, q < enclen(N), n == enclen(N)), A[q] == enc(IN, N, q)), 'encoding: every character is the standard one')
    return e


def decode(ctx):
    q, p = z3.Ints('q p'); e = None

    def cand(S, eng, view):
        out = []
        text = lambda w: text_of(S, eng, w)
        for name, t in view.ints():
            i = lambda w, name=name: zi(w.term(w.get(name)))
            out.append(('%s read' % (name,), lambda w, i=i: z3.And(i(w) >= 0, i(w) <= N, i(w) % 4 == 0, text(w)[1] == i(w) / 4 * 3)))
            out.append(('%s left' % (name,), lambda w, i=i: z3.And(i(w) >= 0, i(w) <= N, i(w) % 4 == 0, text(w)[1] == (N - i(w)) / 4 * 3)))
            out.append(('the last character once read (%s)' % (name,), lambda w, i=i: z3.Implies(i(w) >= N, D(IN[N - 1]) < 64)))
            out.append(('the last character unless left (%s)' % (name,), lambda w, i=i: z3.Implies(i(w) <= 0, D(IN[N - 1]) < 64)))
            out.append(('read within the text (%s)' % (name,), lambda w, i=i: z3.Implies(z3.And(p >= 0, p < i(w)), D(IN[p]) < 64)))
        for r in range(3):
            out.append(('bytes so far (%d of each group)' % r, lambda w, r=r: z3.Implies(z3.And(q >= 0, 3 * q + r < text(w)[1]), text(w)[0][3 * q + r] == decs(IN, q, r))))
        return out
    k = z3.Int('k')         # q: an arbitrary group
    for e, s, (a, A, n) in run(ctx, 'vf_decode', 'decode', cand):
        good = s.clone()
        good.assume(N % 4 == 0)
        e.cur = s
        pad = padding(IN, N)
        full = N / 4 * 3 - pad
        e.prove(s, z3.Or(n == 0, z3.And(N % 4 == 0, n == full)), 'decoding: all of the text or nothing')
        for r in range(3): e.prove(s, z3.Implies(z3.And(n != 0, q >= 0, 3 * q + r < n), A[3 * q + r] == decs(IN, q, r)), 'decoding: every byte is the one the text stands for')
        e.prove(s, z3.Implies(n != 0, wellformed(IN, N, p)), 'decoding: malformed text is refused')
        e.cur = good
        good.assume(z3.And(wellformed(IN, N, z3.IntVal(-1)), N > 0))
        good.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N - pad), D(IN[k]) < 64), patterns=[IN[k]]))
        e.prove(good, n == full, 'decoding: well-formed text is decoded')
    return e


def roundtrip(ctx):
    """decoding the standard text of x stands for x: a lemma over the two specifications"""
    e = Engine(ctx.module(SRC), name='round trip'); st = State(); e.cur = st
    X, Y = z3.Const('x', z3.ArraySort(I, I)), z3.Const('y', z3.ArraySort(I, I)); n, q = z3.Ints('n q')
    st.assume(z3.And(n >= 1, q >= 0))
    g = q           # an arbitrary group
    m = enclen(n)
    for k in range(3): st.assume(z3.And(X[3 * g + k] >= 0, X[3 * g + k] < 256))
    for t in [4 * g + k for k in range(4)]:
        st.assume(z3.Implies(z3.And(t >= 0, t < m), Y[t] == enc(X, n, t)))
    for r in range(3): e.prove(st, z3.Implies(3 * q + r < n, decs(Y, q, r) == X[3 * q + r]), 'round trip: the bytes come back')
    st = State(); e.cur = st
    t = z3.Int('t'); st.assume(z3.And(n >= 1, t >= 0, t < m))
    L = m - 4                       # the last group
    for w in (t / 4 * 3, L / 4 * 3):
        for k in range(3): st.assume(z3.And(X[w + k] >= 0, X[w + k] < 256))
    for u in [t] + [L + k for k in range(4)]: st.assume(z3.Implies(z3.And(u >= 0, u < m), Y[u] == enc(X, n, u)))
    e.prove(st, wellformed(Y, m, t), 'round trip: the standard text is well formed')
    e.prove(st, m / 4 * 3 - padding(Y, m) == n, 'round trip: as many bytes come back')
    return e


def units(ctx):
    return [Unit('encode', encode, ['Base64::encode', 'Base64::encodeBase', 'Base64::encodeLast'], timeout=400), Unit('decode', decode, ['Base64::decode'], timeout=400), Unit('round trip', roundtrip, ['(lemma)'], timeout=200)]


def natives(ctx):
    return [Native('native/C23.cpp', srcs=['3rd_party/base64/src/base64.cpp'], budget=(8, 40))]
