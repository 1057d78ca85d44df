"""Value domains.

IntDom : machine integers as mathematical integers *with explicit wrap-around*: a value of width w carries
         its unsigned reading u in [0,2^w) and/or its signed reading s; unsigned arithmetic wraps, `nsw`
         arithmetic (C++ signed, overflow undefined) is exact and its no-overflow condition is an assumption
         that the evidence lists (or an obligation where the task asks for it).
BVDom  : bit-vectors, exact.
i1 values are Booleans in both.
"""
import z3


class Unsupported(Exception):
    pass


def is_c(x):
    return isinstance(x, (int, bool))


def simp(x):
    """Fold to a python constant when possible."""
    if is_c(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def b_not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def b_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else:
            ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else:
            ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def b_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else z3.Not(c)
    return z3.If(c, zb(a), zb(b))


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_c(a) and is_c(b) and a == b:
        return a
    return z3.If(c, z3.IntVal(a) if is_c(a) else a, z3.IntVal(b) if is_c(b) else b)


def linform(t, out=None, k=1):
    """Linear form of an Int term: ({ast_id: (coef, term)}, const)."""
    top = out is None
    if top:
        out = [{}, 0]
    if is_c(t):
        out[1] += k * int(t)
    elif z3.is_int_value(t):
        out[1] += k * t.as_long()
    elif z3.is_add(t):
        for c in t.children(): linform(c, out, k)
    elif z3.is_sub(t):
        cs = t.children(); linform(cs[0], out, k)
        for c in cs[1:]: linform(c, out, -k)
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        linform(t.arg(0), out, -k)
    elif z3.is_mul(t):
        cs = t.children(); coef = 1; rest = []
        for c in cs:
            if z3.is_int_value(c): coef *= c.as_long()
            else: rest.append(c)
        if len(rest) == 1:
            linform(rest[0], out, k * coef)
        elif not rest:
            out[1] += k * coef
        else:
            tt = rest[0]
            for r in rest[1:]: tt = tt * r
            _acc(out[0], k * coef, tt)
    else:
        _acc(out[0], k, t)
    if top:
        return out[0], out[1]


def _acc(d, k, t):
    i = t.get_id()
    if i in d:
        c = d[i][0] + k
        if c == 0: del d[i]
        else: d[i] = (c, t)
    elif k != 0:
        d[i] = (k, t)


def from_lin(d, c):
    t = None
    for k, x in d.values():
        y = x if k == 1 else (z3.IntVal(k) * x)
        t = y if t is None else t + y
    if t is None:
        return c
    return t + c if c else t


def norm(t):
    if is_c(t): return t
    return from_lin(*linform(t))


def iadd(a, b):
    if is_c(a) and is_c(b): return a + b
    if is_c(b) and b == 0: return a
    if is_c(a) and a == 0: return b
    return norm(a + b)


def isub(a, b):
    if is_c(a) and is_c(b): return a - b
    if is_c(b) and b == 0: return a
    return norm(a - b if not is_c(a) else z3.IntVal(a) - b)


def imul(a, b):
    if is_c(a) and is_c(b): return a * b
    if is_c(a): a, b = b, a
    if is_c(b):
        if b == 0: return 0
        if b == 1: return a
        d, c = linform(a)
        return from_lin({i: (k * b, t) for i, (k, t) in d.items()}, c * b)
    return a * b


def rel(op, a, b):
    if is_c(a) and is_c(b):
        return {'==': a == b, '<': a < b, '<=': a <= b, '!=': a != b}[op]
    d, c = linform((z3.IntVal(a) if is_c(a) else a) - b)
    if not d:
        return {'==': c == 0, '<': c < 0, '<=': c <= 0, '!=': c != 0}[op]
    a = z3.IntVal(a) if is_c(a) else a
    b = z3.IntVal(b) if is_c(b) else b
    return {'==': lambda: a == b, '<': lambda: a < b, '<=': lambda: a <= b, '!=': lambda: a != b}[op]()


class IV:
    """Integer value of width w in IntDom."""
    __slots__ = ('w', 'u', 's', 'parts')

    def __init__(self, w, u=None, s=None):
        self.w = w; self.u = u; self.s = s; self.parts = None
        if u is not None and is_c(u):
            self.u = u % (1 << w)
            self.s = self.u - (1 << w) if self.u >> (w - 1) else self.u
        elif s is not None and is_c(s):
            self.u = s % (1 << w)
            self.s = self.u - (1 << w) if self.u >> (w - 1) else self.u

    def const(self):
        return self.u if self.u is not None and is_c(self.u) else None

    def __repr__(self):
        return 'i%d(u=%s,s=%s)' % (self.w, self.u, self.s)


def zi0(x): return z3.IntVal(x) if is_c(x) else x


class IntDom:
    name = 'int'

    def __init__(self, oracle):
        self.oracle = oracle     # oracle(cond) -> True/False/None under the current path condition
        self.nsw_assumed = 0
        self.cnt = 0
        self.div_hook = None

    def const(self, w, v):
        return IV(w, u=v)

    def u(self, x):
        if x.u is None:
            m = 1 << x.w
            r = self.oracle(rel('<=', 0, x.s))
            if r is True: x2 = x.s
            elif r is False: x2 = iadd(x.s, m)
            else:
                return i_ite(x.s >= 0, x.s, x.s + m)   # state-dependent: do not cache undecided
            return x2
        return x.u

    def s(self, x):
        if x.s is None:
            h = 1 << (x.w - 1)
            r = self.oracle(rel('<', x.u, h))
            if r is True: return x.u
            if r is False: return isub(x.u, 1 << x.w)
            return i_ite(x.u < h, x.u, x.u - (1 << x.w))
        return x.s

    idx = s

    def wrap_u(self, w, t):
        """t mod 2^w for t in (-2^w, 2^(w+1)) (one add/sub)."""
        if is_c(t): return IV(w, u=t)
        m = 1 << w
        if self.oracle(b_and(rel('<=', 0, t), rel('<', t, m))) is True:
            return IV(w, u=t)
        if self.oracle(rel('<', t, 0)) is True:
            return IV(w, u=iadd(t, m))
        if self.oracle(rel('<=', m, t)) is True:
            return IV(w, u=isub(t, m))
        return IV(w, u=i_ite(t < 0, t + m, i_ite(t >= m, t - m, t)))

    def bin(self, op, w, a, b, flags=()):
        if w == 1:
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return b_not(a) if b else a
                if isinstance(a, bool): return b_not(b) if a else b
                return z3.Xor(a, b)
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            raise Unsupported('i1 ' + op)
        ca, cb = a.const(), b.const()
        m = 1 << w
        if ca is not None and cb is not None:
            sa, sb = a.s, b.s
            if op == 'add': return IV(w, u=ca + cb)
            if op == 'sub': return IV(w, u=ca - cb)
            if op == 'mul': return IV(w, u=ca * cb)
            if op == 'and': return IV(w, u=ca & cb)
            if op == 'or': return IV(w, u=ca | cb)
            if op == 'xor': return IV(w, u=ca ^ cb)
            if op == 'shl': return IV(w, u=ca << cb)
            if op == 'lshr': return IV(w, u=ca >> cb)
            if op == 'ashr': return IV(w, s=sa >> cb)
            if op == 'udiv' and cb: return IV(w, u=ca // cb)
            if op == 'urem' and cb: return IV(w, u=ca % cb)
            if op in ('sdiv', 'srem') and cb:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return IV(w, s=q if op == 'sdiv' else sa - q * sb)
        if op in ('shl', 'lshr') and a.parts and cb and cb % 8 == 0 and cb < w:
            k = cb // 8
            if op == 'shl':
                if all(o + sz + k <= w // 8 or o + k >= w // 8 for o, sz, _ in a.parts): return self.compose(w, [(o + k, sz, v) for o, sz, v in a.parts if o + k < w // 8])
            elif all(o >= k or o + sz <= k for o, sz, _ in a.parts): return self.compose(w, [(o - k, sz, v) for o, sz, v in a.parts if o >= k])
        if op == 'or' and a.parts and b.parts and all(o + sz <= p or p + tz <= o for o, sz, _ in a.parts for p, tz, _ in b.parts):
            return self.compose(w, a.parts + b.parts)
        if op in ('add', 'sub'):
            f = iadd if op == 'add' else isub
            if 'nsw' in flags:
                self.nsw_assumed += 1
                return IV(w, s=f(self.s(a), self.s(b)))
            if 'nuw' in flags:
                return IV(w, u=f(self.u(a), self.u(b)))
            # both operands signed-known and result fits: keep signed
            if a.s is not None and b.s is not None:
                t = f(a.s, b.s)
                if self.oracle(b_and(rel('<=', -(m // 2), t), rel('<', t, m // 2))) is True:
                    return IV(w, s=t)
            ua = self.u(a)
            if cb is not None and cb >= m // 2:    # adding a negative constant
                return self.wrap_u(w, f(ua, b.s))
            return self.wrap_u(w, f(ua, self.u(b)))
        if op == 'mul':
            if 'nsw' in flags:
                self.nsw_assumed += 1
                return IV(w, s=imul(self.s(a), self.s(b)))
            if a.s is not None and b.s is not None:
                t = imul(a.s, b.s)
                if self.oracle(b_and(rel('<=', -(m // 2), t), rel('<', t, m // 2))) is True:
                    return IV(w, s=t)
            t = imul(self.u(a), self.u(b))
            if is_c(t): return IV(w, u=t)
            if self.oracle(rel('<', t, m)) is True:
                return IV(w, u=t)
            return IV(w, u=t % m)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'
            if cb is not None and cb != 0 and (not sg or b.s > 0):
                if not sg:
                    x = self.u(a)
                    if 'exact' in flags:
                        return IV(w, u=self._exact(x, cb))
                    return IV(w, u=(x / cb if op == 'udiv' else x % cb))
                x = self.s(a); c = b.s
                if 'exact' in flags and op == 'sdiv':
                    return IV(w, s=self._exact(x, c))
                if self.oracle(rel('<=', 0, x)) is True:
                    return IV(w, s=(x / c if op == 'sdiv' else x % c))
                q = z3.If(x >= 0, x / c, -((-x) / c))
                return IV(w, s=q if op == 'sdiv' else x - q * c)
            x, y = (self.s(a), self.s(b)) if sg else (self.u(a), self.u(b))
            x = z3.IntVal(x) if is_c(x) else x
            y = z3.IntVal(y) if is_c(y) else y
            if sg and not (self.oracle(x >= 0) is True and self.oracle(y > 0) is True):
                raise Unsupported('signed division of possibly negative symbolic values')
            if self.div_hook:
                r = self.div_hook(op[1:], x, y)
                if r is not None:
                    return IV(w, u=r)
            return IV(w, u=(x / y if op[1:] == 'div' else x % y))
        if op == 'shl' and cb is not None:
            if 'nsw' in flags:
                return IV(w, s=imul(self.s(a), 1 << cb))
            t = imul(self.u(a), 1 << cb)
            if self.oracle(rel('<', t, m)) is True: return IV(w, u=t)
            return IV(w, u=t % m)
        if op == 'lshr' and cb is not None:
            return IV(w, u=self.u(a) / (1 << cb)) if cb else a
        if op == 'ashr' and cb is not None:
            return IV(w, s=self.s(a) / (1 << cb)) if cb else a
        if op == 'and':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if cb == 0: return IV(w, u=0)
                if (cb & (cb + 1)) == 0:                     # low mask
                    return IV(w, u=self.u(a) % (cb + 1))
                inv = (m - 1) ^ cb
                if (inv & (inv + 1)) == 0:                   # clears low bits
                    x = self.u(a)
                    return IV(w, u=x - x % (inv + 1))
                if bin(cb).count('1') <= 8: x = zi0(self.u(a)); return IV(w, u=z3.Sum([((x / (1 << k)) % 2) * (1 << k) for k in range(w) if cb >> k & 1]))
                if bin(inv).count('1') <= 8: x = zi0(self.u(a)); return IV(w, u=x - z3.Sum([((x / (1 << k)) % 2) * (1 << k) for k in range(w) if inv >> k & 1]))
        if op in ('and', 'xor') and cb is None and (w == 8 or all(self.oracle(rel('<', self.u(q), 256)) is True for q in (a, b))):      # bit by bit
            x, y = zi0(self.u(a)), zi0(self.u(b)); B = z3.And if op == 'and' else z3.Xor
            return IV(w, u=z3.Sum([z3.If(B((x / (1 << k)) % 2 == 1, (y / (1 << k)) % 2 == 1), 1 << k, 0) for k in range(8)]))
        if op == 'or':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb == 0: return a
            if cb is not None and bin(cb).count('1') <= 8: x = zi0(self.u(a)); return IV(w, u=x + z3.Sum([(1 - (x / (1 << k)) % 2) * (1 << k) for k in range(w) if cb >> k & 1]))
            if w <= 64:                                      # bits of one operand all above those of the other: a sum
                ua, ub = self.u(a), self.u(b)
                for lo, hi in ((ua, ub), (ub, ua)):
                    for k in (4, 2, 6, 1, 3, 5, 7, 8, 16, 24, 32):
                        if k >= w: break
                        if self.oracle(rel('<', lo, 1 << k)) is True:
                            if self.oracle(rel('==', self._mod(hi, 1 << k), 0)) is True: return IV(w, u=iadd(ua, ub))
            if w == 8 or all(self.oracle(rel('<', self.u(q), 256)) is True for q in (a, b)):      # bit by bit
                x, y = zi0(self.u(a)), zi0(self.u(b))
                return IV(w, u=z3.Sum([z3.If(z3.Or((x / (1 << k)) % 2 == 1, (y / (1 << k)) % 2 == 1), 1 << k, 0) for k in range(8)]))
            # some value that is non-zero when either operand is: enough for tests such as (x | y) == 0
            x, y = [z3.IntVal(t) if is_c(t) else t for t in (self.u(a), self.u(b))]
            F = z3.Function('bitor%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort())
            return IV(w, u=z3.If(x == 0, y, z3.If(y == 0, x, 1 + F(x, y) % (m - 1))))
        if op == 'xor' and cb is not None and cb == m - 1:
            return IV(w, s=isub(-1, self.s(a)))
        raise Unsupported('integer op %s in int domain' % op)

    @staticmethod
    def _mod(x, c): return x % c

    def _exact(self, x, c):
        d, k = linform(x)
        if k % c == 0 and all(co % c == 0 for co, _ in d.values()):
            return from_lin({i: (co // c, t) for i, (co, t) in d.items()}, k // c)
        return x / c if not is_c(x) else x // c

    def icmp(self, pred, w, a, b):
        if w == 1:
            e = (a == b) if isinstance(a, bool) and isinstance(b, bool) else (zb(a) == zb(b))
            if pred == 'eq': return e
            if pred == 'ne': return b_not(e)
            raise Unsupported('icmp i1 ' + pred)
        if pred in ('eq', 'ne'):
            if a.s is not None and b.s is not None: r = rel('==', a.s, b.s)
            elif a.u is not None and b.u is not None: r = rel('==', a.u, b.u)
            else: r = rel('==', self.u(a), self.u(b))
            return r if pred == 'eq' else b_not(r)
        sg = pred[0] == 's'
        f = self.s if sg else self.u
        x, y = f(a), f(b)
        p = pred[1:]
        if p == 'lt': return rel('<', x, y)
        if p == 'le': return rel('<=', x, y)
        if p == 'gt': return rel('<', y, x)
        if p == 'ge': return rel('<=', y, x)
        raise Unsupported(pred)

    def compose(self, w, parts):
        """the word with the given values at the given bytes, zero elsewhere; remembers its pieces"""
        parts = sorted(parts, key=lambda t: t[0]); t = 0
        for o, sz, v in parts: t = iadd(t, imul(self.u(v), 1 << (8 * o)))
        r = IV(w, u=t)
        if r.const() is None: r.parts = parts
        return r

    def cast(self, op, fw, tw, a):
        if fw == 1:
            one = 1 if op == 'zext' else -1
            if isinstance(a, bool): return IV(tw, s=one if a else 0)
            return IV(tw, s=i_ite(a, one, 0))
        if op == 'zext':
            x = self.u(a); r = IV(tw, u=x, s=x)
            if a.const() is None and fw % 8 == 0 and tw % 8 == 0: r.parts = list(a.parts or [(0, fw // 8, a)])
            return r
        if op == 'sext':
            return IV(tw, s=self.s(a))
        if op == 'trunc' and a.parts and tw % 8 == 0:
            q = [t for t in a.parts if t[0] < tw // 8]
            if not q: return IV(tw, u=0)
            if len(q) == 1 and q[0][0] == 0 and q[0][1] == tw // 8: return q[0][2]
            if all(o + sz <= tw // 8 for o, sz, _ in q): return self.compose(tw, q)
        if op == 'trunc':
            if tw == 1:
                c = a.const()
                if c is not None: return bool(c & 1)
                x = a.u if a.u is not None else a.s
                # i8 holding a bool is the common case
                y = _bool_of_ite(x)
                if y is not None: return y
                return x % 2 == 1
            m = 1 << tw
            if a.s is not None and not is_c(a.s):
                if self.oracle(b_and(rel('<=', -(m // 2), a.s), rel('<', a.s, m // 2))) is True:
                    return IV(tw, s=a.s)
            x = self.u(a)
            if is_c(x): return IV(tw, u=x)
            if self.oracle(rel('<', x, m // 2)) is True: return IV(tw, u=x, s=x)
            if self.oracle(rel('<', x, m)) is True: return IV(tw, u=x)
            return IV(tw, u=x % m)
        raise Unsupported(op)

    def ite(self, w, c, a, b):
        if isinstance(c, bool): return a if c else b
        if w == 1: return b_ite(c, a, b)
        if a.s is not None and b.s is not None: return IV(w, s=i_ite(c, a.s, b.s))
        if a.u is not None and b.u is not None: return IV(w, u=i_ite(c, a.u, b.u))
        return IV(w, u=i_ite(c, self.u(a), self.u(b)))

    def fresh(self, w, name, signed=None):
        """-> (value, constraint)"""
        self.cnt += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.cnt)), True
        if signed is None: signed = w in (16, 32)
        v = z3.Int('%s!%d' % (name, self.cnt))
        if signed:
            return IV(w, s=v), z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1)))
        return IV(w, u=v), z3.And(v >= 0, v < (1 << w))

    def eq(self, w, a, b):
        return self.icmp('eq', w, a, b)

    # storage in SMT arrays
    def sort(self):
        return z3.IntSort()

    def to_term(self, w, v, signed):
        if w == 1: return i_ite(v, 1, 0)
        t = self.s(v) if signed else self.u(v)
        return z3.IntVal(t) if is_c(t) else t

    def from_term(self, w, t, signed):
        if w == 1: return t == 1
        return IV(w, s=t) if signed else IV(w, u=t)

    def range(self, w, t, signed):
        if signed: return z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1)))
        return z3.And(t >= 0, t < (1 << w))

    # offsets
    def off_const(self, k): return k
    def off_add(self, a, b): return iadd(a, b)
    def off_mul(self, a, k): return imul(a, k)
    def off_eq(self, a, b): return rel('==', a, b)
    def off_cmp(self, pred, a, b):
        return {'lt': rel('<', a, b), 'le': rel('<=', a, b), 'gt': rel('<', b, a), 'ge': rel('<=', b, a)}[pred]
    def off_to_val(self, t): return IV(64, s=t)


def _bool_of_ite(x):
    if not is_c(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
        c, a, b = x.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() == 1 and b.as_long() == 0: return c
            if a.as_long() == 0 and b.as_long() == 1: return z3.Not(c)
    return None


class BVDom:
    name = 'bv'

    def __init__(self, oracle):
        self.oracle = oracle
        self.cnt = 0
        self.nsw_assumed = 0

    def const(self, w, v):
        return z3.BitVecVal(v, w)

    @staticmethod
    def cval(x):
        return x.as_long() if z3.is_bv_value(x) else None

    def bin(self, op, w, a, b, flags=()):
        if w == 1:
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return b_not(a) if b else a
                if isinstance(a, bool): return b_not(b) if a else b
                return z3.Xor(a, b)
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            raise Unsupported('i1 ' + op)
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return z3.simplify(f)
        if op in ('add', 'sub') and (z3.is_bv_value(a) or z3.is_bv_value(b)):
            return z3.simplify(f)
        return f

    def icmp(self, pred, w, a, b):
        if w == 1:
            e = (a == b) if isinstance(a, bool) and isinstance(b, bool) else (zb(a) == zb(b))
            if pred == 'eq': return e
            if pred == 'ne': return b_not(e)
            raise Unsupported('icmp i1 ' + pred)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        r = z3.simplify(r) if (z3.is_bv_value(a) or z3.is_bv_value(b)) else r
        return simp(r)

    def cast(self, op, fw, tw, a):
        if fw == 1:
            one = 1 if op == 'zext' else (1 << tw) - 1
            if isinstance(a, bool): return self.const(tw, one if a else 0)
            return z3.If(a, z3.BitVecVal(one, tw), z3.BitVecVal(0, tw))
        if op == 'zext': r = z3.ZeroExt(tw - fw, a)
        elif op == 'sext': r = z3.SignExt(tw - fw, a)
        elif op == 'trunc':
            r = z3.Extract(tw - 1, 0, a)
            if tw == 1: return simp(z3.simplify(r == 1))
        else: raise Unsupported(op)
        return z3.simplify(r) if z3.is_bv_value(a) else r

    def ite(self, w, c, a, b):
        if isinstance(c, bool): return a if c else b
        if w == 1: return b_ite(c, a, b)
        return z3.If(c, a, b)

    def fresh(self, w, name, signed=None):
        self.cnt += 1
        if w == 1: return z3.Bool('%s!%d' % (name, self.cnt)), True
        return z3.BitVec('%s!%d' % (name, self.cnt), w), True

    def eq(self, w, a, b):
        return self.icmp('eq', w, a, b)

    def idx(self, v):
        c = self.cval(v)
        if c is not None:
            return c - (1 << v.size()) if c >> (v.size() - 1) else c
        if v.size() < 64: return z3.SignExt(64 - v.size(), v)
        return v

    def to_term(self, w, v, signed=None):
        if w == 1: return z3.If(zb(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return v

    def from_term(self, w, t, signed=None):
        if w == 1: return t == 1
        return t

    def range(self, w, t, signed):
        return True

    def off_const(self, k): return k
    @staticmethod
    def _o(a): return z3.BitVecVal(a, 64) if is_c(a) else a
    def _so(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        return t
    def off_add(self, a, b):
        if is_c(a) and is_c(b): return a + b
        return self._so(self._o(a) + self._o(b))
    def off_mul(self, a, k):
        if is_c(a): return a * k
        return self._so(a * z3.BitVecVal(k, 64)) if k != 1 else a
    def off_eq(self, a, b):
        if is_c(a) and is_c(b): return a == b
        return simp(z3.simplify(self._o(a) == self._o(b)))
    def off_cmp(self, pred, a, b):
        if is_c(a) and is_c(b):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred]
        a, b = self._o(a), self._o(b)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred]
    def off_to_val(self, t): return self._o(t)
