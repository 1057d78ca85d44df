"""C18: Socket - every descriptor closed exactly once, connecting without leaks (contracts over all results of every system call)."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['F_GETFL succeeds on an open descriptor', 'a socket is not move-assigned to itself (asserted precondition)', 'the address connected to has the IPv4 or IPv6 family (C17) or another one, which is refused']
TRUSTED = ['the system calls: socket returns a new descriptor or -1; every call may fail with any error code', 'message formatting has no effect']
SRC = ['harness/socket.cpp', 'src/network/socket.cpp', 'src/network/ip_address.cpp', 'src/common/platform/network_unix.cpp', 'src/common/platform/error_unix.cpp']
BAD = 0xffffffff
NONBLOCK, GETFL, SETFL, SOL, REUSE, INET, INET6, STREAM, EINPROGRESS, EAGAIN = 0o4000, 3, 4, 1, 2, 2, 10, 1, 115, 11
V = lambda k: z3.BitVecVal(k, 32)


class W:
    def __init__(s, ctx, name):
        s.e = e = Engine(ctx.module(SRC), dom='bv', name=name, contracts=[
            ((lambda n, d, q=q: n == q), h) for q, h in (('socket', s.socket), ('close', s.close), ('fcntl', s.fcntl), ('setsockopt', s.setopt), ('connect', s.connect), ('__errno_location', lambda g, st, a, i: [(st, Ptr(s.errno, 0))]))]
            + [(rx(r'^lightstep::GetErrorCodeMessage'), noop)] + textio())
        st = State(); e.cur = st; s.st = st
        s.errno = e.new_obj(st, 'errno', kind='struct', size=4); st.mem[s.errno.id] = {0: (4, z3.BitVec('errno0', 32))}
        s.this, s.other = (e.new_obj(st, n, kind='struct', size=4) for n in ('socket', 'other'))
        s.fd, s.fd2, s.new, s.flags = (z3.BitVec(n, 32) for n in ('fd', 'fd2', 'new_fd', 'flags'))
        st.assume(z3.And(s.new != BAD, s.new >= 0))
        st.mem[s.this.id] = {0: (4, s.fd)}; st.mem[s.other.id] = {0: (4, s.fd2)}
        st.ghost.update(closed=(), opened=(), nb=False, ra=False, conn=())
        st.writes = frozenset()

    def get(s, st, o): return s.e.load(st, Ptr(o, 0), ir.INT(32))

    def fail(s, st, name):
        """a failing call: -1 with any error code"""
        c = z3.BitVec('error_%s!%d' % (name, next(Obj.ids)), 32)
        st.mem[s.errno.id] = {0: (4, c)}
        st.ghost['failed'] = st.ghost.get('failed', ()) + ((name, c),)
        return (st, V(BAD))

    def socket(s, g, st, a, i):
        st.ghost['asked'] = (a[0], a[1], a[2]); t = st.clone()
        s.e.prove(st, not st.ghost['opened'], 'one descriptor is created')
        st.ghost['opened'] = st.ghost['opened'] + (s.new,)
        return [(st, s.new), s.fail(t, 'socket')]

    def close(s, g, st, a, i):
        s.e.prove(st, z3.And([a[0] != c for c in st.ghost['closed']] or [True]), 'a descriptor is not closed twice')
        s.e.prove(st, a[0] != BAD, 'an invalid descriptor is not closed')
        st.ghost['closed'] = st.ghost['closed'] + (a[0],)
        st.mem[s.errno.id] = {0: (4, z3.BitVec('errno!%d' % next(Obj.ids), 32))}
        return [(st, z3.BitVec('close!%d' % next(Obj.ids), 32))]

    def open_(s, st, fd, what):
        s.e.prove(st, z3.And([fd == s.live] + [fd != c for c in st.ghost['closed']]), what + ': on the open descriptor of the socket')

    def fcntl(s, g, st, a, i):
        s.open_(st, a[0], 'fcntl')
        cmd = s.e.dom.idx(a[1])
        if cmd == GETFL: return [(st, s.flags)]
        if cmd != SETFL: raise Unsupported('fcntl %s' % cmd)
        s.e.prove(st, (a[2] & ~V(NONBLOCK)) == (s.flags & ~V(NONBLOCK)), 'fcntl: the other flags are kept')
        t = st.clone()
        st.ghost['nb'] = s.e.oracle((a[2] & NONBLOCK) != 0) is True
        return [(st, V(0)), s.fail(t, 'fcntl')]

    def setopt(s, g, st, a, i):
        s.open_(st, a[0], 'setsockopt')
        if s.e.oracle(z3.And(a[1] == SOL, a[2] == REUSE)) is not True: return [(st.clone(), V(0)), s.fail(st, 'setsockopt')]
        s.e.prove(st, z3.And(a[4] == 4, s.e.load(st, a[3], ir.INT(32)) != 0), 'setsockopt: address reuse is switched on')
        t = st.clone(); st.ghost['ra'] = True
        return [(st, V(0)), s.fail(t, 'setsockopt')]

    def connect(s, g, st, a, i):
        s.open_(st, a[0], 'connect')
        t = st.clone()
        for x, ok in ((st, True), (t, False)): x.ghost['conn'] = x.ghost['conn'] + ((a[1], a[2], ok),)
        return [(st, V(0)), s.fail(t, 'connect')]

    def ends(s, fn, args, what, throws=False):
        outs = s.e.run(fn, s.st, args)
        if not throws: outs = returns(s.e, outs, what)
        reachable(s.e, outs)
        for o in outs:
            s.e.cur = o
            if s.e.check_valid(o, False, timeout=1500)[0] != 'proved': yield o

    def closes(s, st, which, what):
        """exactly the descriptors `which` (guarded) were closed"""
        c = st.ghost['closed']
        for fd, cond in which:
            s.e.prove(st, z3.Implies(cond, z3.Or([x == fd for x in c] or [False])), what + ': the descriptor is closed')
        for x in c: s.e.prove(st, z3.Or([z3.And(cond, x == fd) for fd, cond in which] or [False]), what + ': nothing else is closed')


T = z3.BoolVal(True)


def own(ctx):
    engs = []

    def world(n):
        w = W(ctx, n); engs.append(w.e); w.live = w.fd; return w
    for fn, dflt in (('vf_default', True), ('vf_make', False)):
        w = world('Socket(%s)' % ('' if dflt else 'family, type')); fam, typ = z3.BitVecs('family type', 32)
        for s in w.ends(fn, [Ptr(w.this, 0)] + ([] if dflt else [fam, typ]), 'creating', throws=True):
            ok = bool(s.ghost['opened'])
            w.e.prove(s, (s.outcome[0] == 'ret') == ok, 'creating: an error is raised exactly when there is no descriptor')
            w.e.prove(s, z3.And(s.ghost['asked'][0] == (V(INET) if dflt else fam), s.ghost['asked'][1] == (V(STREAM) if dflt else typ), s.ghost['asked'][2] == 0), 'creating: of the given family and type')
            w.closes(s, [], 'creating')
            if ok: w.e.prove(s, w.get(s, w.this) == w.new, 'creating: the descriptor is owned')
    w = world('Socket(descriptor)'); fd = z3.BitVec('given', 32)
    for s in w.ends('vf_adopt', [Ptr(w.this, 0), fd], 'adopting'): w.closes(s, [], 'adopting'); w.e.prove(s, w.get(s, w.this) == fd, 'adopting: the descriptor is owned')
    w = world('Socket(Socket&&)')
    for s in w.ends('vf_move', [Ptr(w.this, 0), Ptr(w.other, 0)], 'moving'):
        w.closes(s, [], 'moving'); w.e.prove(s, z3.And(w.get(s, w.this) == w.fd2, w.get(s, w.other) == BAD), 'moving: the descriptor changes its owner')
    w = world('~Socket')
    for s in w.ends('vf_destroy', [Ptr(w.this, 0)], 'destruction'): w.closes(s, [(w.fd, w.fd != BAD)], 'destruction')
    w = world('operator='); w.st.assume(z3.Or(w.fd != w.fd2, w.fd == BAD))
    for s in w.ends('vf_assign', [Ptr(w.this, 0), Ptr(w.other, 0)], 'assignment'):
        w.closes(s, [(w.fd, w.fd != BAD)], 'assignment'); w.e.prove(s, z3.And(w.get(s, w.this) == w.fd2, w.get(s, w.other) == BAD), 'assignment: the descriptor changes its owner')
    w = world('file_descriptor')
    for s in w.ends('vf_fd', [Ptr(w.this, 0)], 'file_descriptor'): w.e.prove(s, s.outcome[1] == w.fd, 'file_descriptor: the owned descriptor'); w.closes(s, [], 'file_descriptor')
    return engs


def calls(ctx):
    engs = []
    for fn, flag, what in (('vf_nonblocking', 'nb', 'SetNonblocking'), ('vf_reuse', 'ra', 'SetReuseAddress'), ('vf_connect', None, 'Socket::Connect')):
        w = W(ctx, what); e = w.e; engs.append(e); w.live = w.fd
        w.st.assume(z3.And(w.fd >= 0))
        addr = e.new_obj(w.st, 'address', kind='struct', size=128); n = z3.BitVec('length', 64); w.st.assume(z3.ULT(n, 1 << 31))
        for s in w.ends(fn, [Ptr(w.this, 0)] + ([] if flag else [Ptr(addr, 0), n]), what, throws=True):
            w.closes(s, [], what)
            w.e.prove(s, w.get(s, w.this) == w.fd, what + ': the descriptor stays owned')
            failed = s.ghost.get('failed', ())
            if flag:
                e.prove(s, (s.outcome[0] == 'ret') == (not failed), what + ': an error is raised exactly when the system call fails')
                if s.outcome[0] == 'ret': e.prove(s, s.ghost[flag], what + ': the option is set')
            else:
                e.prove(s, s.outcome[0] == 'ret' and len(s.ghost['conn']) == 1, 'Socket::Connect: connects once, raising nothing')
                if s.outcome[0] == 'ret': e.prove(s, z3.And(e.ptr_eq(s.ghost['conn'][0][0], Ptr(addr, 0)), z3.ZeroExt(32, s.ghost['conn'][0][1]) == n, s.outcome[1] == (V(BAD) if failed else 0)), 'Socket::Connect: to the given address, returning the result')
    return engs


def connect(ctx):
    engs = []
    for fam in (INET, INET6, None):
        w = W(ctx, 'Connect, family %s' % fam); e = w.e; engs.append(e); st = w.st; w.live = w.new
        addr = e.new_obj(st, 'address', kind='struct', size=128)
        f = z3.BitVec('family', 16); st.mem[addr.id] = {0: (2, f)}
        st.assume(f == fam if fam else z3.And(f != INET, f != INET6))
        for s in w.ends('vf_open', [Ptr(w.this, 0), Ptr(addr, 0)], 'Connect', throws=True):
            g = s.ghost; failed = dict(g.get('failed', ()))
            hard = [n for n in failed if n != 'connect']
            pend = z3.Or(failed['connect'] == EINPROGRESS, failed['connect'] == EAGAIN) if 'connect' in failed else T
            if s.outcome[0] == 'throw':
                w.closes(s, [(w.new, T)] if g['opened'] else [], 'Connect: on an error')
                e.prove(s, z3.Or(bool(hard), z3.Not(pend), fam is None), 'Connect: an error is raised only when a step failed')
                continue
            w.closes(s, [], 'Connect: on success')
            e.prove(s, not hard, 'Connect: a failing step is raised (%s)' % ', '.join(hard))
            e.prove(s, pend, 'Connect: a failed connect is raised unless it is in progress')
            e.prove(s, fam is not None, 'Connect: only to IPv4 and IPv6 addresses')
            e.prove(s, b_and(bool(g['opened']), w.get(s, w.this) == w.new), 'Connect: the socket returned owns the descriptor')
            e.prove(s, g['nb'], 'Connect: the socket is non-blocking'); e.prove(s, g['ra'], 'Connect: its address is reusable')
            e.prove(s, z3.And(z3.BoolVal(len(g['conn']) == 1), g['asked'][0] == z3.SignExt(16, f) if fam != None else T, g['asked'][1] == STREAM), 'Connect: one stream connection of the family of the address')
            if g['conn'] and fam: e.prove(s, b_and(e.ptr_eq(g['conn'][0][0], Ptr(addr, 0)), g['conn'][0][1] == (16 if fam == INET else 28)), 'Connect: to the address, with the length of its structure')
    return engs


def units(ctx):
    Q = 'Socket::'
    return [Unit('ownership', own, [Q + 'Socket (all)', Q + '~Socket', Q + 'operator=', Q + 'Free', Q + 'file_descriptor', 'CloseSocket']),
            Unit('options', calls, [Q + 'SetNonblocking', Q + 'SetReuseAddress', Q + 'Connect', 'SetSocketNonblocking', 'SetSocketReuseAddress']),
            Unit('Connect', connect, ['Connect(IpAddress)', 'GetLastErrorCode', 'IsBlockingErrorCode', 'IsInProgressErrorCode'])]


def natives(ctx):
    return [Native('native/C18.cpp', srcs=[x for x in SRC if x.startswith('src')], libs=['-Wl,--wrap=socket,--wrap=close,--wrap=fcntl,--wrap=setsockopt,--wrap=connect'], budget=(8, 40))]
