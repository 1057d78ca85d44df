"""C17: IpAddress - family, address and port, byte for byte (bit-precise contracts on every constructor, set_port and comparison)."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['socket-level addresses given are IPv4 or IPv6 with their remaining bytes zero (as the system produces them)', 'addresses compared were built by the constructors and set_port']
TRUSTED = ['inet_pton: accepts exactly the texts of its family, stores the address bytes on success and nothing otherwise; no text is both an IPv4 and an IPv6 address', 'htons swaps the two bytes; memcmp is 0 exactly for equal bytes', 'message formatting has no effect']
SRC = ['harness/ip.cpp', 'src/network/ip_address.cpp']
INET, INET6, N = 2, 10, 128
BV8 = lambda n: z3.BitVec(n, 8)
B = lambda k: z3.BitVecVal(k, 8)


class W:
    def __init__(s, ctx, name):
        s.e = e = Engine(ctx.module(SRC), dom='bv', name=name, contracts=[('inet_pton', s.pton), ('inet_ntop', s.ntop), ((lambda n, d: n in ('htons', 'ntohs')), s.swap), ('memcmp', s.memcmp), (rx(r'operator<< <.*char const\*'), s.put)] + textio())
        st = State(); e.cur = st; s.st = st
        s.this = s.obj('address', 'old')
        s.is4, s.is6 = z3.Bools('text_is_ipv4 text_is_ipv6')
        st.assume(z3.Not(z3.And(s.is4, s.is6)))
        s.text = e.new_obj(st, 'text', kind='array', stride=1, layout={0: ('int', 8, False)})
        s.a4 = [BV8('a%d' % k) for k in range(4)]; s.a6 = [BV8('b%d' % k) for k in range(16)]
        s.port = z3.BitVec('port', 16)
        st.ghost.update(printed=None, rendered=None)
        st.writes = frozenset()

    def obj(s, name, pre, size=N):
        o = s.e.new_obj(s.st, name, kind='struct', size=size)
        s.st.mem[o.id] = {k: (1, BV8('%s_%d' % (pre, k))) for k in range(size)}
        return o

    def fill(s, o, bs, at=0):
        s.st.mem[o.id] = dict(s.st.mem[o.id]); s.st.mem[o.id].update({at + k: (1, b) for k, b in enumerate(bs)})

    def swap(s, g, st, a, i): return [(st, z3.Concat(z3.Extract(7, 0, a[0]), z3.Extract(15, 8, a[0])))]

    def pton(s, g, st, a, i):
        e = s.e; dom = e.dom
        e.prove(st, e.ptr_eq(a[1], Ptr(s.text, 0)), 'text: the given text is parsed')
        f = dom.idx(a[0])
        if not is_c(f) or f not in (INET, INET6): raise Unsupported('inet_pton of a computed family')
        out = []
        ok, bs = (s.is4, s.a4) if f == INET else (s.is6, s.a6)
        t = st.clone()
        st.assume(ok); d = e.norm_ptr(a[2])
        for k, b in enumerate(bs): e.store(st, Ptr(d.obj, e.dom.off_add(d.off, k)), ir.INT(8), b)
        t.assume(z3.Not(ok))
        return [(x, z3.BitVecVal(r, 32)) for x, r in ((st, 1), (t, 0)) if e.feasible(x, True)]

    def ntop(s, g, st, a, i):
        e = s.e
        st.ghost['rendered'] = (e.dom.idx(a[0]), a[1], a[2])
        n = z3.ZeroExt(32, a[3]) if a[3].size() == 32 else a[3]
        e.prove(st, z3.UGE(n, 46), 'printing: every address fits')
        return [(st, a[2])]

    def put(s, g, st, a, i):
        if st.ghost['rendered'] is not None and zb(s.e.ptr_eq(a[1], st.ghost['rendered'][2])) is not None:
            if s.e.oracle(s.e.ptr_eq(a[1], st.ghost['rendered'][2])) is True: st.ghost['printed'] = (st.ghost['printed'] or 0) + 1
        return [(st, a[0])]

    def memcmp(s, g, st, a, i):
        e = s.e; n = e.dom.idx(a[2])
        if not is_c(n): raise Unsupported('memcmp length')
        L = lambda p, k: e.load(st, Ptr(p.obj, e.dom.off_add(p.off, k)), ir.INT(8))
        eq = z3.And([L(a[0], k) == L(a[1], k) for k in range(n)] or [True])
        r = z3.BitVec('memcmp!%d' % next(Obj.ids), 32); st.assume((r == 0) == eq)
        return [(st, r)]

    def bytes_of(s, st, o): return [s.e.load(st, Ptr(o, k), ir.INT(8)) for k in range(N)]

    def spec(s, fam, addr, port):
        r = [B(0)] * N
        r[0] = B(fam)
        if port is not None: r[2], r[3] = z3.Extract(15, 8, port), z3.Extract(7, 0, port)
        at = 4 if fam == INET else 8
        for k, b in enumerate(addr): r[at + k] = b
        return r

    def check(s, st, o, want, what):
        got = s.bytes_of(st, o)
        parts = [('the family', range(0, 2)), ('the port', range(2, 4)), ('the address and all remaining bytes', range(4, N))]
        for n, ks in parts: s.e.prove(st, z3.And([got[k] == want[k] for k in ks]), '%s: %s' % (what, n))

    def run(s, fn, args, what, throws=False):
        outs = s.e.run(fn, s.st, args)
        if not throws: outs = returns(s.e, outs, what)
        reachable(s.e, outs)
        for o in outs:
            s.e.cur = o
            if s.e.check_valid(o, False, timeout=1500)[0] != 'proved': yield o


def build(ctx):
    engs = []

    def world(n):
        w = W(ctx, n); engs.append(w.e); return w
    w = world('IpAddress()')
    for s in w.run('vf_default', [Ptr(w.this, 0)], 'IpAddress()'): w.check(s, w.this, w.spec(INET, [], None), 'default address')
    w = world('IpAddress(in_addr)'); a = w.obj('in_addr', 'x', 4); w.fill(a, w.a4)
    for s in w.run('vf_v4', [Ptr(w.this, 0), Ptr(a, 0)], 'IpAddress(in_addr)'): w.check(s, w.this, w.spec(INET, w.a4, None), 'from an IPv4 address')
    w = world('IpAddress(in6_addr)'); a = w.obj('in6_addr', 'x', 16); w.fill(a, w.a6)
    for s in w.run('vf_v6', [Ptr(w.this, 0), Ptr(a, 0)], 'IpAddress(in6_addr)'): w.check(s, w.this, w.spec(INET6, w.a6, None), 'from an IPv6 address')
    for fam in (INET, INET6):
        w = world('IpAddress(sockaddr), family %d' % fam)
        want = w.spec(fam, w.a4 if fam == INET else w.a6, w.port)
        a = w.obj('sockaddr', 'x', 16 if fam == INET else 28); w.fill(a, want[:16 if fam == INET else 28])
        for s in w.run('vf_sockaddr', [Ptr(w.this, 0), Ptr(a, 0)], 'IpAddress(sockaddr)'): w.check(s, w.this, want, 'from a socket address')
    for fn, port in (('vf_text', False), ('vf_text_port', True)):
        w = world('IpAddress(text%s)' % (', port' if port else ''))
        for s in w.run(fn, [Ptr(w.this, 0), Ptr(w.text, 0)] + ([w.port] if port else []), fn, throws=True):
            if s.outcome[0] == 'throw':
                w.e.prove(s, z3.Not(z3.Or(w.is4, w.is6)), 'from text: every address is accepted')
                w.e.prove(s, 'runtime_error' in str(s.outcome[1].ty), 'from text: what is no address is refused with an error')
                continue
            w.e.prove(s, z3.Or(w.is4, w.is6), 'from text: what is no address is refused with an error')
            for fam, c, bs in ((INET, w.is4, w.a4), (INET6, w.is6, w.a6)):
                t = s.clone(); t.assume(c)
                if w.e.feasible(t, True): w.e.cur = t; w.check(t, w.this, w.spec(fam, bs, w.port if port else None), 'from text')
    return engs


def ports(ctx):
    engs = []
    for fam in (INET, INET6):
        w = W(ctx, 'set_port, family %d' % fam); e = w.e; engs.append(e)
        ad = w.a4 if fam == INET else w.a6
        w.fill(w.this, w.spec(fam, ad, z3.BitVec('old_port', 16)))
        for s in w.run('vf_set_port', [Ptr(w.this, 0), w.port], 'set_port'): w.check(s, w.this, w.spec(fam, ad, w.port), 'set_port')
        for fn, want in (('vf_family', z3.BitVecVal(fam, 32)), ('vf_addr', 0), ('vf_ipv4' if fam == INET else 'vf_ipv6', 0)):
            w = W(ctx, fn[3:]); e = w.e; engs.append(e); w.fill(w.this, w.spec(fam, ad, w.port))
            for s in w.run(fn, [Ptr(w.this, 0)], fn[3:]): e.prove(s, s.outcome[1] == want if fn == 'vf_family' else e.ptr_eq(s.outcome[1], Ptr(w.this, 0)), '%s of an address' % fn[3:])
        w = W(ctx, 'printing'); e = w.e; engs.append(e); w.fill(w.this, w.spec(fam, ad, w.port))
        out = e.new_obj(w.st, 'stream', kind='struct', size=272)
        for s in w.run('vf_print', [Ptr(out, 0), Ptr(w.this, 0)], 'printing'):
            r = s.ghost['rendered']
            e.prove(s, b_and(r is not None and r[0] == fam and s.ghost['printed'] == 1, e.ptr_eq(r[1], Ptr(w.this, 4 if fam == INET else 8)) if r is not None else False), 'printing: the text of the address itself')
    return engs


def equal(ctx):
    engs = []
    for fn in ('vf_eq', 'vf_ne'):
        for f1 in (INET, INET6):
            for f2 in (INET, INET6):
                w = W(ctx, '%s, families %d and %d' % (fn[3:], f1, f2)); e = w.e; engs.append(e)
                o = w.obj('other', 'y'); p2 = z3.BitVec('port2', 16)
                a1 = w.a4 if f1 == INET else w.a6; a2 = [BV8('c%d' % k) for k in range(4 if f2 == INET else 16)]
                w.fill(w.this, w.spec(f1, a1, w.port)); w.fill(o, w.spec(f2, a2, p2))
                same = z3.And([x == y for x, y in zip(a1, a2)] + [w.port == p2]) if f1 == f2 else z3.BoolVal(False)
                for s in w.run(fn, [Ptr(w.this, 0), Ptr(o, 0)], fn[3:]):
                    e.prove(s, zb(s.outcome[1]) == (same if fn == 'vf_eq' else z3.Not(same)), 'comparison: equal exactly for equal family, address and port')
                    e.prove(s, not [x for x in s.writes if x[0] in (w.this.id, o.id)], 'comparison: changes nothing')
    return engs


def units(ctx):
    Q = 'IpAddress::'
    return [Unit('construction', build, [Q + 'IpAddress (all six)']), Unit('set_port', ports, [Q + 'set_port', Q + 'family', Q + 'addr', Q + 'ipv4_address', Q + 'ipv6_address', 'operator<<(ostream, IpAddress)']), Unit('comparison', equal, ['operator==', 'operator!='])]


def natives(ctx):
    return [Native('native/C17.cpp', srcs=['src/network/ip_address.cpp'], budget=(8, 40))]
