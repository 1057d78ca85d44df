"""C40: name resolution - every query is answered, with what the name servers said, or times out; sockets stay watched."""
import os
from cvg.runner import Unit, Native, REPO
from cvg.util import *
from props import C36

ASSUMPTIONS = ['c-ares answers each query handed to it once, if told which of its sockets are ready and called when its timeout has passed', 'libevent calls the callback of an armed event when its descriptor is ready or its time has passed; a persistent one stays armed', 'c-ares reports each socket with 0 or 1 for reading and writing', 'the timeout configured is below 2^31 ms', 'an answer has fewer than 2^31 - 1 addresses', 'logging does not throw', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)']
TRUSTED = ['c-ares and libevent, by contract', 'std::unordered_map keeps one event per descriptor', 'std::shared_ptr counts its owners', 'when event_new, event_add or memory fails, a socket is not watched: its queries time out']
S = 'src/network/'
SRC = ['harness/ares.cpp', S + 'ares_dns_resolver/ares_dns_resolver.cpp', S + 'ares_dns_resolver/ares_library_handle.cpp', S + 'event.cpp', S + 'timer_event.cpp', 'src/common/utility.cpp']
Z = z3.IntVal; T, F = z3.BoolVal(True), z3.BoolVal(False); I = z3.IntSort()
R = 'lightstep::AresDnsResolver'
EV_READ, EV_WRITE, EV_PERSIST = 2, 4, 16
BAD = -1; INET, INET6 = 2, 10
MAP = r'^std::unordered_map<int, lightstep::Event.*>::'
BITS = {'udp': 1 << 4, 'tcp': 1 << 5, 'servers': 1 << 6, 'cb': 1 << 9, 'timeout': 1 << 13}
MARK = 2 ** 40


def prepare(ctx): ctx.protos()


class World(C36.World):
    """the resolver, its channel, timer and the sockets it watches; one socket, any, is represented by `fd` and `present`"""
    def __init__(s, ctx, name, extra=(), src=None):
        s.O = O = ctx.offsets(['network/ares_dns_resolver/ares_dns_resolver.h', 'ares.h'],
                              {**{k: (R, k) for k in ('ares_library_handle_', 'logger_', 'event_base_', 'channel_', 'socket_events_', 'timer_')}, 'tevent': ('lightstep::TimerEvent', 'event_'), **{'o.' + k: ('lightstep::DnsResolverOptions', k) for k in ('resolution_servers', 'resolution_server_port', 'timeout')}, **{'a.' + k: ('ares_options', k) for k in ('timeout', 'udp_port', 'tcp_port', 'servers', 'nservers', 'sock_state_cb', 'sock_state_cb_data')}},
                              {'R': R, 'P': 'lightstep::DnsResolverOptions', 'A': 'ares_options', 'IP': 'lightstep::IpAddress'})
        s.m = ctx.module(src or SRC); s.st = st = State()
        SP = r'^std::shared_ptr<lightstep::AresLibraryHandle const>::'
        s.e = e = Engine(s.m, name=name, contracts=list(extra) + [
            (rx(r'^(void )?lightstep::Logger::'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]), (rx(r'^std::runtime_error::runtime_error\('), s.error), (rx(r'^std::runtime_error::~runtime_error'), noop),
            ('event_new', s.event_new), ('event_add', s.event_add), ('event_del', s.event_del), ('event_free', s.event_free),
            ('ares_gethostbyname', s.query), ('ares_timeout', s.timeout), ('ares_process_fd', s.process), ('ares_strerror', s.strerror), ('ares_init_options', s.init), ('ares_destroy', s.destroy), ('strlen', s.strlen), (rx(r'^std::char_traits<char>::length\('), s.strlen),
            (rx(MAP + r'unordered_map\(\)'), s.map_new), (rx(MAP + r'~unordered_map\('), s.map_end), (rx(MAP + r'operator\[\]\('), s.map_at), (rx(MAP + r'erase\(int const&\)'), s.map_erase),
            (rx(SP + r'shared_ptr\(std::shared_ptr<lightstep::AresLibraryHandle const> const&\)'), s.share), (rx(SP + r'~shared_ptr\('), s.unshare),
            (rx(r'^VfCallback::OnDnsResolution\('), s.answered), (rx(r'^vf_visit\('), s.visit), (rx(r'^lightstep::IpAddress::IpAddress\(\)'), lambda g, st, a, i: s.setmark(st, a[0], Z(0))), (rx(r'^lightstep::IpAddress::IpAddress\(in_addr const&\)'), lambda g, st, a, i: s.address(st, a, 0)), (rx(r'^lightstep::IpAddress::IpAddress\(in6_addr const&\)'), lambda g, st, a, i: s.address(st, a, 1)),
            (lambda n, d: n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'), s.copy), (rx(r'^operator delete\('), s.free)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand); e.ranks = lambda en, view: [('addresses left', lambda w: s.n - w.st.ghost['k'])]
        o = lambda n, k=64, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.conn = o('resolver', O['R']); s.options = o('options', O['P']); s.logger, s.base, s.lbase, s.textobj, s.channel, s.handle, s.host, s.servers = (o(n) for n in ('logger', 'event base', 'libevent base', 'message', 'channel', 'library handle', 'host name', 'servers'))
        s.callback = virtual_object(e, st, '10VfCallback', 'callback'); st.mem[s.base.id] = {0: (8, Ptr(s.lbase, 0))}
        s.fd = z3.Int('socket'); s.family = z3.Int('family'); s.status = z3.Int('status'); s.n = z3.Int('addresses'); s.htype = z3.Int('address type'); s.len = z3.Int('message length'); s.ns, s.port, s.ms = z3.Ints('servers port timeout')
        st.assume(z3.And(s.fd >= 0, s.fd < 2 ** 31, s.family >= 0, s.family < 2 ** 16, s.status > -2 ** 31, s.status < 2 ** 31, s.n >= 0, s.n < 2 ** 31 - 1, s.htype >= 0, s.htype < 2 ** 16, s.len > 0, s.len < 2 ** 31, s.ns >= 0, s.ns < 2 ** 31, s.port >= 0, s.port < 2 ** 16, s.ms >= 0, s.ms < 2 ** 31))
        v = O['o.resolution_servers']; st.mem[s.options.id] = {v: (8, Ptr(s.servers, 0)), v + 8: (8, Ptr(s.servers, z3.simplify(4 * s.ns))), v + 16: (8, Ptr(s.servers, z3.simplify(4 * s.ns))), O['o.resolution_server_port']: (2, IV(16, u=s.port)), O['o.timeout']: (8, IV(64, s=s.ms, u=s.ms))}
        st.ghost.update(E={}, queries=Z(0), processed=Z(0), wanted=None, stuck=False, refs=0, map=False, cell=None, present=False, chan=False, gone=0, freed=0, answers=Z(0), k=Z(0), said=T, text=None, cb=None, statecb=None)
    # ---- contracts
    def event_add(s, g, st, a, i):
        r = C36.World.event_add(s, g, st, a, i)
        if len(r) == 2: r[1][0].ghost['stuck'] = True
        return r
    def ischan(s, st, p, why): s.e.prove(st, b_and(s.e.ptr_eq(p, Ptr(s.channel, 0)), st.ghost['chan']), why + ': of the channel that was made')
    def query(s, g, st, a, i):
        s.ischan(st, a[0], 'query'); f = g.norm_ptr(a[3]); g.prove(st, b_and(g.ptr_eq(a[1], Ptr(s.host, 0)), s.si(a[2]) == s.family, g.ptr_eq(a[4], Ptr(s.callback, 0)), f.obj is not None and f.obj.kind == 'func'), 'query: the name and family asked for, answered to the callback given')
        st.ghost['cb'] = f.obj.fname if f.obj is not None and f.obj.kind == 'func' else None; st.gset('queries', st.ghost['queries'] + 1); st.ghost['wanted'] = None; return [(st, None)]
    def timeout(s, g, st, a, i):
        s.ischan(st, a[0], 'timeout')
        if g.norm_ptr(a[1]).obj is not None: raise Unsupported('a limit for ares_timeout')
        t = st.clone(); t.ghost['wanted'] = 'none'; sec, us = z3.FreshInt('s'), z3.FreshInt('us'); st.assume(z3.And(sec >= 0, sec < 2 ** 40, us >= 0, us < 10 ** 6)); p = g.norm_ptr(a[2])
        for k, x in ((0, sec), (8, us)): g.store(st, Ptr(p.obj, g.dom.off_add(p.off, k)), ir.INT(64), IV(64, s=x, u=x))
        st.ghost['wanted'] = sec * 10 ** 6 + us; return [(st, p), (t, NULL)]
    def process(s, g, st, a, i):
        s.ischan(st, a[0], 'sockets'); w = st.ghost.get('what'); r, x = s.si(a[1]), s.si(a[2])
        if w is None: g.prove(st, z3.And(r == BAD, x == BAD), 'timeout: no socket is called ready')
        else: g.prove(st, z3.And(r == z3.If((w / 2) % 2 == 1, s.fd, Z(BAD)), x == z3.If((w / 4) % 2 == 1, s.fd, Z(BAD))), 'sockets: called ready for what they are ready for')
        st.gset('processed', st.ghost['processed'] + 1); st.ghost['wanted'] = None; return [(st, None)]
    def strerror(s, g, st, a, i): g.prove(st, s.si(a[0]) == s.status, 'answer: the message of its status'); st.ghost['text'] = True; return [(st, Ptr(s.textobj, 0))]
    def strlen(s, g, st, a, i):
        if g.norm_ptr(a[0]).obj is not s.textobj: raise Unsupported('the length of another text')
        return [(st, IV(64, u=s.len))]
    def init(s, g, st, a, i):
        O = s.O; p = g.norm_ptr(a[1]); m = s.u(a[2]); bit = lambda k: (m / BITS[k]) % 2 == 1; fld = lambda k, t: g.load(st, Ptr(p.obj, g.dom.off_add(p.off, O['a.' + k])), t); has = s.ns > 0
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('channel_')), not st.ghost['chan']), 'constructor: makes its channel once'); g.prove(st, z3.And(bit('udp'), bit('tcp'), s.u(fld('udp_port', ir.INT(16))) == s.port, s.u(fld('tcp_port', ir.INT(16))) == s.port), 'options: the port of the name servers')
        g.prove(st, z3.And(bit('timeout') == (s.ms != 0), z3.Implies(s.ms != 0, s.si(fld('timeout', ir.INT(32))) == s.ms)), 'options: the timeout'); g.prove(st, bit('servers') == has, 'options: name servers if any are given')
        sv = fld('servers', ir.PTR); g.prove(st, z3.Implies(has, b_and(g.ptr_eq(sv, Ptr(s.servers, 0)), s.si(fld('nservers', ir.INT(32))) == s.ns)), 'options: all name servers given')
        f = g.norm_ptr(fld('sock_state_cb', ir.PTR)); ok = f.obj is not None and f.obj.kind == 'func'; g.prove(st, b_and(bit('cb'), ok, g.ptr_eq(fld('sock_state_cb_data', ir.PTR), Ptr(s.conn, 0))), 'options: the resolver is told which sockets to watch'); g.prove(st, st.ghost['map'], 'constructor: the sockets can be kept when the channel is made')
        st.ghost['statecb'] = f.obj.fname if ok else None; t = st.clone(); x = z3.FreshInt('status'); t.assume(z3.And(x > 0, x < 2 ** 31)); s.fixed(t, x); st.ghost['chan'] = True; g.store(st, a[0], ir.PTR, Ptr(s.channel, 0)); return [(st, IV(32, s=Z(0))), (t, IV(32, s=x))]
    def fixed(s, st, x): st.assume(x == s.status)
    def destroy(s, g, st, a, i):
        s.ischan(st, a[0], 'destructor'); g.prove(st, b_and(st.ghost['map'], st.ghost['refs'] == 1), 'destructor: the channel goes before what it uses'); st.ghost['gone'] += 1; out = []
        for o, v in g.call_value(st, s.cbs['state'], [Ptr(s.conn, 0), IV(32, s=s.fd), IV(32, s=Z(0)), IV(32, s=Z(0))]) if s.cbs and st.ghost['present'] else [(st, None)]: o.ghost['chan'] = False; out.append((o, v if isinstance(v, Throw) else None))
        return out
    def map_new(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], s.at('socket_events_')), 'sockets: the resolver\'s'); st.ghost['map'] = True; return [(st, None)]
    def map_end(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('socket_events_')), st.ghost['map'], not st.ghost['chan']), 'destructor: sockets are kept as long as the channel'); outs = s.drop(st) if st.ghost['present'] else [st]
        for o in outs: o.ghost['map'] = False
        return [(o, None) for o in outs]
    def key(s, g, st, a):
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('socket_events_')), st.ghost['map'], s.si(g.load(st, g.norm_ptr(a[1]), ir.INT(32))) == s.fd), 'sockets: the one that changed')
    def map_at(s, g, st, a, i):
        s.key(g, st, a); out = []
        if not st.ghost['present']: out.append(s.fails(st)); st.ghost['present'] = True; st.ghost['cell'] = g.new_obj(st, 'entry', kind='struct', size=8); g.store(st, Ptr(st.ghost['cell'], 0), ir.PTR, NULL)
        return [(st, Ptr(st.ghost['cell'], 0))] + out
    def drop(s, st): return [o for o, v in s.e.call_value(s.gone(st), findre(s.m, s.e, r'^lightstep::Event::~Event\('), [Ptr(st.ghost['cell'], 0)])]
    def gone(s, st): st.ghost['present'] = False; return st
    def map_erase(s, g, st, a, i):
        s.key(g, st, a)
        return [(o, IV(64, u=Z(1))) for o in s.drop(st)] if st.ghost['present'] else [(st, IV(64, u=Z(0)))]
    def share(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[1], Ptr(g.gobj('_ZN9lightstep17AresLibraryHandle8InstanceE'), 0)), 'library: the one handle'); out = []
        for null in (False, True): t = st.clone(); g.store(t, a[0], ir.PTR, NULL if null else Ptr(s.handle, 0)); t.ghost['refs'] += 0 if null else 1; t.ghost['nolib'] = null; out.append((t, None))
        return out
    def unshare(s, g, st, a, i):
        g.prove(st, not st.ghost['chan'], 'destructor: the library is kept as long as the channel'); p = g.norm_ptr(g.load(st, a[0], ir.PTR)); st.ghost['refs'] -= 0 if p.obj is None else 1; return [(st, None)]
    def free(s, g, st, a, i): st.ghost['freed'] += 1; return [(st, None)]
    # ---- answers: an address is represented by which of the hosts' addresses it is and its family
    def setmark(s, st, p, v): s.e.store(st, p, ir.INT(64), IV(64, u=zi(v))); return [(st, None)]
    def mark(s, st, p): return s.u(s.e.load(st, p, ir.INT(64)))
    def address(s, st, a, six):
        p = s.e.norm_ptr(a[1]); s.e.prove(st, p.obj is s.addrs, 'answer: an address of the host')
        if p.obj is not s.addrs: return [(st, None)]
        return s.setmark(st, a[0], zi(p.key) + six * MARK)
    def copy(s, g, st, a, i):
        n = z3.simplify(s.u(a[2])); n = n.as_long() if z3.is_int_value(n) else -1
        if n == s.O['IP']: return s.setmark(st, a[0], s.mark(st, a[1]))
        if n <= 0 or n % 8 or n > 32: raise Unsupported('memcpy of %s bytes' % n)
        d, p = g.norm_ptr(a[0]), g.norm_ptr(a[1])
        for k in range(0, n, 8): g.store(st, Ptr(d.obj, g.dom.off_add(d.off, k)), ir.INT(64), g.load(st, Ptr(p.obj, g.dom.off_add(p.off, k)), ir.INT(64)))
        return [(st, None)]
    def visit(s, g, st, a, i):
        k = st.ghost['k']; g.prove(st, k < s.n, 'answer: no more addresses than there are'); g.prove(st, zb(st.ghost['said']), 'answer: none after it was told to stop'); g.prove(st, s.mark(st, a[1]) == z3.If(s.htype == INET6, k + 1 + MARK, k + 1), 'answer: each address in turn, of its family'); g.prove(st, z3.Or(s.htype == INET, s.htype == INET6), 'answer: only of families known'); r = z3.FreshBool('go on'); st.gset('k', k + 1); st.gset('said', r); return [(st, r)]
    def answered(s, g, st, a, i):
        """looks at all addresses"""
        g.prove(st, g.ptr_eq(a[0], Ptr(s.callback, 0)), 'answer: to the callback given'); st.gset('answers', st.ghost['answers'] + 1); t = g.norm_ptr(a[2]); n = s.u(a[3]); st.ghost['error'] = (t, n); out = []
        for o, v in g.call_value(st, 'vf_each', [a[1]]):
            if not isinstance(v, Throw): o.gset('all', zb(v))
            out.append((o, v if isinstance(v, Throw) else None))
        return out
    def cand(s, e, view):
        G = lambda w: w.st.ghost; out = [('goes on', lambda w: zb(G(w)['said'])), ('so far', lambda w: z3.And(G(w)['k'] >= 0, G(w)['k'] <= s.n)), ('other family', lambda w: z3.Implies(z3.And(s.htype != INET, s.htype != INET6), G(w)['k'] == 0))]
        for name, t in view.ints():
            x = lambda v, name=name: zi(v.term(v.get(name)))
            out += [('%s is the next' % (name,), lambda v, x=x: x(v) == G(v)['k']), ('%s within' % (name,), lambda v, x=x: z3.And(x(v) >= 0, x(v) <= s.n)), ('%s is the next if known' % (name,), lambda v, x=x: z3.Implies(z3.Or(s.htype == INET, s.htype == INET6), x(v) == G(v)['k']))]
        return out
    def ranked(s):
        return lambda en, view: [('addresses left', lambda w: s.n - w.st.ghost['k'])] + [('addresses left by %s' % (n,), lambda w, n=n: s.n - zi(w.term(w.get(n)))) for n, t in view.ints()]
    # ---- states
    def live(s, cbs, present=False, armed=None):
        st = s.st; O = s.O; e = s.e; s.cbs = cbs
        st.mem[s.conn.id] = {0: (8, Ptr(e.gobj('_ZTVN9lightstep15AresDnsResolverE'), 16)), O['ares_library_handle_']: (8, Ptr(s.handle, 0)), O['logger_']: (8, Ptr(s.logger, 0)), O['event_base_']: (8, Ptr(s.base, 0)), O['channel_']: (8, Ptr(s.channel, 0))}
        st.ghost.update(refs=1, chan=True, map=True); arm = z3.Bool('timer armed'); x = z3.Int('timer'); st.assume(x >= 0)
        s.timer = s.new(Ptr(s.conn, O['timer_'] + O['tevent']), Z(-1), EV_PERSIST, cbs.get('timer'), arm, x)
        if present:
            c = e.new_obj(st, 'entry', kind='struct', size=8); st.ghost.update(cell=c, present=True); r = z3.Int('directions'); st.assume(z3.And(r >= 1, r <= 3)); s.old = s.new(Ptr(c, 0), s.fd, EV_PERSIST + 2 * r, cbs.get('event'), T, None)
        return s
    def new(s, at, fd, what, cb, armed, tv):
        o = s.e.new_obj(s.st, 'event', kind='struct', size=8); s.st.ghost['E'] = {**s.st.ghost['E'], o.id: dict(fd=fd, what=zi(what), cb=cb, armed=armed, tv=tv, freed=False, obj=o)}; s.e.store(s.st, at, ir.PTR, Ptr(o, 0)); return o
    def timerobj(s, st): return s.e.norm_ptr(s.e.load(st, Ptr(s.conn, s.O['timer_'] + s.O['tevent']), ir.PTR)).obj
    def kept(s, st): return {k for k, x in st.ghost['E'].items() if not x['freed']}
    def entry(s, st): return s.e.norm_ptr(s.e.load(st, Ptr(st.ghost['cell'], 0), ir.PTR)).obj if st.ghost['present'] else None
    def clocked(s, o, what):
        """the timer runs for what the channel wants now"""
        G = o.ghost; t = s.timerobj(o); w = G['wanted']; s.e.prove(o, w is not None, what + ': the channel is asked how long to wait')
        if w is None or t is None or G['stuck']: s.e.prove(o, t is not None, what + ': the timer is kept'); return
        E = G['E'][t.id]
        if isinstance(w, str): s.e.prove(o, z3.Not(zb(E['armed'])), what + ': no timer without queries')
        else: s.e.prove(o, b_and(E['armed'], E['tv'] is not None and E['tv'] == w), what + ': the timer runs, for what the channel wants')


def registered(ctx):
    """what the constructor hands out: handlers for sockets that change, for the timer, and for events"""
    w = World(ctx, 'registered'); e = w.e; cbs = {}
    for o in made(w):
        if o.outcome[0] == 'throw' or not o.ghost['chan']: continue
        t = w.timerobj(o); cbs.update(state=o.ghost['statecb'], timer=o.ghost['E'][t.id]['cb'] if t is not None else None)
    if None in cbs.values() or len(cbs) != 2: raise Unsupported('handlers for sockets and timer')
    w = World(ctx, 'events').live(cbs)
    for o, v in w.e.call_value(w.st, cbs['state'], [Ptr(w.conn, 0), IV(32, s=w.fd), IV(32, s=Z(1)), IV(32, s=Z(0))]):
        x = w.entry(o)
        if x is not None: cbs['event'] = o.ghost['E'][x.id]['cb']
    if not cbs.get('event'): raise Unsupported('a handler for events')
    return cbs
def made(w): return w.e.run(findre(w.m, w.e, '^' + R + r'::AresDnsResolver\([^()]*\)$'), w.st, [Ptr(w.conn, 0), Ptr(w.logger, 0), Ptr(w.base, 0), Ptr(w.options, 0)])


def constructor(ctx):
    w = World(ctx, 'AresDnsResolver'); e = w.e; n = 0
    for o in made(w):
        e.cur = o; G = o.ghost
        if o.outcome[0] == 'throw': e.prove(o, not w.kept(o) and G['refs'] == 0 and not G['chan'] and not G['map'], 'constructor: nothing is kept when it throws'); continue
        n += 1; t = w.timerobj(o); e.prove(o, b_and(G['chan'], not G['nolib'], G['map'], G['refs'] == 1), 'constructor: a channel, made with the library'); e.prove(o, t is not None and w.kept(o) == {t.id}, 'constructor: one timer')
        if t is None: continue
        E = G['E'][t.id]; e.prove(o, b_and(E['fd'] == -1, (E['what'] / 2) % 4 == 0, z3.Not(zb(E['armed']))), 'constructor: the timer waits for queries'); L = lambda k: e.load(o, w.at(k), ir.PTR); e.prove(o, b_and(e.ptr_eq(L('logger_'), Ptr(w.logger, 0)), e.ptr_eq(L('event_base_'), Ptr(w.base, 0)), e.ptr_eq(L('channel_'), Ptr(w.channel, 0)), e.ptr_eq(L('ares_library_handle_'), Ptr(w.handle, 0))), 'constructor: keeps what it is given')
    e.prove(w.st, n > 0, 'constructor: succeeds'); return e


def destructor(ctx):
    engs = []; cbs = registered(ctx)
    for present in (False, True):
        w = World(ctx, '~AresDnsResolver').live(cbs, present); e = w.e; engs.append(e)
        for o in C36.ends(w, e.run('vf_delete', w.st, [Ptr(w.conn, 0)]), 'destructor'): e.cur = o; G = o.ghost; e.prove(o, b_and(G['gone'] == 1, G['refs'] == 0, not G['map'], not w.kept(o)), 'destructor: channel, sockets, timer and library are given back'); e.prove(o, G['freed'] == 1, 'destructor: freed once')
    return engs


def resolve(ctx):
    w = World(ctx, 'Resolve').live(registered(ctx)); e = w.e
    for o in C36.ends(w, e.run('vf_resolve', w.st, [Ptr(w.conn, 0), Ptr(w.host, 0), IV(32, s=w.family), Ptr(w.callback, 0)]), 'Resolve'): e.cur = o; e.prove(o, o.ghost['queries'] == 1, 'Resolve: one query'); e.prove(o, w.kept(o) == {w.timer.id}, 'Resolve: nothing else changes'); w.clocked(o, 'Resolve')
    return e


def answer(ctx):
    engs = []; cbs = registered(ctx); w = World(ctx, 'query').live(cbs); cb = None
    for o in w.e.run('vf_resolve', w.st, [Ptr(w.conn, 0), Ptr(w.host, 0), IV(32, s=w.family), Ptr(w.callback, 0)]): cb = cb or o.ghost['cb']
    if cb is None: raise Unsupported('a handler for answers')
    for kind in ('failure', 'failure with hosts', 'no hosts', 'hosts'):
        w = World(ctx, 'answer: ' + kind); e, st = w.e, w.st; engs.append(e); fail = kind.startswith('failure'); st.assume(w.status != 0 if fail else w.status == 0); e.ranks = w.ranked(); j = z3.Int('j')
        w.addrs = e.new_obj(st, 'addresses', kind='region', layout={0: ('int', 8, False)}); lst = e.new_obj(st, 'list', kind='array', stride=8, n=z3.simplify(w.n + 1), layout={0: ('ptr', w.addrs)}, const=True); st.mem[lst.id] = {0: z3.Lambda([j], z3.If(z3.And(j >= 0, j < w.n), j + 1, Z(0)))}
        h = e.new_obj(st, 'hosts', kind='struct', size=32); st.mem[h.id] = {16: (4, IV(32, s=w.htype, u=w.htype)), 24: (8, Ptr(lst, 0))}; hosts = NULL if kind in ('failure', 'no hosts') else Ptr(h, 0); t0 = z3.Int('timeouts'); st.assume(z3.And(t0 >= 0, t0 < 2 ** 31))
        for o in C36.ends(w, [(o, v) for o, v in e.call_value(st, cb, [Ptr(w.callback, 0), IV(32, s=w.status), IV(32, s=t0), hosts])], 'answer'):
            e.cur = o; G = o.ghost; e.prove(o, G['answers'] == 1, 'answer: the callback is called once')
            if 'error' not in G: continue
            t, n = G['error']; known = z3.Or(w.htype == INET, w.htype == INET6)
            if fail: e.prove(o, b_and(e.ptr_eq(t, Ptr(w.textobj, 0)), n == w.len, G['text'] is True), 'answer: a failure has the message of its status'); e.prove(o, z3.And(G['k'] == 0, zb(G['all'])), 'answer: a failure has no addresses')
            else: e.prove(o, n == 0, 'answer: a success has no message')
            if kind == 'no hosts': e.prove(o, z3.And(G['k'] == 0, zb(G['all'])), 'answer: no hosts, no addresses')
            if kind == 'hosts': e.prove(o, z3.Implies(z3.And(zb(G['said']), known), G['k'] == w.n), 'answer: every address, unless told to stop'); e.prove(o, z3.Implies(z3.Not(known), G['k'] == 0), 'answer: no address of a family not known'); e.prove(o, zb(G['all']) == zb(G['said']), 'answer: tells whether it was told to stop')
    return engs


def change(ctx):
    engs = []; cbs = registered(ctx)
    for present in (False, True):
        for rd in (0, 1):
            for wr in (0, 1):
                w = World(ctx, 'socket%s, %d %d' % (', watched' if present else '', rd, wr)).live(cbs, present); e = w.e; engs.append(e); good = 0
                for o in C36.ends(w, e.call_value(w.st, cbs['state'], [Ptr(w.conn, 0), IV(32, s=w.fd), IV(32, s=Z(rd)), IV(32, s=Z(wr))]), 'socket'):
                    e.cur = o; G = o.ghost; x = w.entry(o); E = G['E']; ok = x is None or x.id in E and not E[x.id]['freed']; e.prove(o, ok, 'socket: its event exists'); e.prove(o, w.kept(o) == {w.timer.id} | ({x.id} if x is not None else set()), 'socket: no other events are kept')
                    if rd + wr == 0: e.prove(o, not G['present'], 'socket: no longer watched'); good += 1; continue
                    if not ok or x is None or present and x is w.old: continue            # only after a failure: see below
                    good += 1; y = E[x.id]; e.prove(o, b_and(y['fd'] == w.fd, y['cb'] == cbs['event'], y['armed'], y['tv'] is None), 'socket: watched until told otherwise')
                    e.prove(o, z3.And((y['what'] / 2) % 2 == rd, (y['what'] / 4) % 2 == wr), 'socket: for reading and writing as told'); e.prove(o, (y['what'] / EV_PERSIST) % 2 == 1, 'socket: still watched after it was ready')
                e.prove(w.st, good == 1, 'socket: watched, unless that fails')
    return engs


def fired(ctx):
    engs = []; cbs = registered(ctx)
    for k in ('event', 'timer'):
        w = World(ctx, k).live(cbs, True); e, st = w.e, w.st; engs.append(e); x = z3.Int('ready'); st.assume(z3.And(x >= 0, x < 2 ** 15))
        if k == 'event': st.gset('what', x)
        for o in C36.ends(w, e.call_value(st, cbs[k], [IV(32, s=w.fd if k == 'event' else Z(-1)), IV(16, u=x, s=x), Ptr(w.conn, 0)]), k): e.cur = o; e.prove(o, o.ghost['processed'] == 1, '%s: the channel is told, once' % k); w.clocked(o, k); e.prove(o, w.kept(o) == {w.timer.id, w.old.id}, '%s: nothing is freed' % k)
    return engs


def make(ctx):
    def ctor(g, st, a, i):
        w = box['w']; g.prove(st, b_and(g.ptr_eq(a[1], Ptr(w.logger, 0)), g.ptr_eq(a[2], Ptr(w.base, 0)), g.ptr_eq(a[3], Ptr(w.options, 0))), 'MakeDnsResolver: with what it is given'); t = w.fails(st); st.ghost['it'] = g.norm_ptr(a[0]); return [(st, None), t]
    box = {}; w = box['w'] = World(ctx, 'MakeDnsResolver', extra=[(rx('^' + R + r'::AresDnsResolver\([^()]*\)$'), ctor)]); e, st = w.e, w.st; r = e.new_obj(st, 'result', kind='struct', size=8); n = 0
    for o in e.run(findre(w.m, e, r'^lightstep::MakeDnsResolver\('), st, [Ptr(r, 0), Ptr(w.logger, 0), Ptr(w.base, 0), Ptr(w.options, 0)]):
        e.cur = o; it = o.ghost.get('it')
        if o.outcome[0] == 'throw': e.prove(o, it is None, 'MakeDnsResolver: throws only what the constructor throws'); continue
        n += 1; e.prove(o, b_and(it is not None, o.ghost['freed'] == 0) and e.ptr_eq(e.load(o, Ptr(r, 0), ir.PTR), it), 'MakeDnsResolver: a resolver')
    e.prove(st, n > 0, 'MakeDnsResolver: succeeds'); return e


def library(ctx):
    """the library is initialised once, and given up by whoever holds the handle last"""
    H = 'lightstep::AresLibraryHandle'; engs = []; SP = r'^std::shared_ptr<lightstep::AresLibraryHandle const>::shared_ptr'
    def init(g, st, a, i):
        g.prove(st, z3.simplify(w.si(a[0]) == 1), 'library: all of it'); st.ghost['inits'] = st.ghost.get('inits', 0) + 1; x = z3.FreshInt('status'); st.assume(z3.And(x > -2 ** 31, x < 2 ** 31, x == w.status)); return [(st, IV(32, s=x))]
    def cleanup(g, st, a, i): st.ghost['cleanups'] = st.ghost.get('cleanups', 0) + 1; return [(st, None)]
    w = World(ctx, 'AresLibraryHandle', extra=[('ares_library_init', init)] + textio()); e = w.e; engs.append(e); this = e.new_obj(w.st, 'handle', kind='struct', size=8); seen = set()
    for o in e.run(findre(w.m, e, '^' + H + r'::AresLibraryHandle\(\)$'), w.st, [Ptr(this, 0)]): e.cur = o; bad = o.outcome[0] == 'throw'; seen.add(bad); e.prove(o, o.ghost.get('inits') == 1, 'library: initialised once'); e.prove(o, (w.status != 0) if bad else w.status == 0, 'library: a failure is told')
    e.prove(w.st, seen == {True, False}, 'library: may fail')
    w = World(ctx, '~AresLibraryHandle', extra=[('ares_library_cleanup', cleanup)]); e = w.e; engs.append(e); this = e.new_obj(w.st, 'handle', kind='struct', size=8)
    for o in C36.ends(w, e.run(findre(w.m, e, '^' + H + r'::~AresLibraryHandle\(\)$'), w.st, [Ptr(this, 0)]), 'library'): e.cur = o; e.prove(o, o.ghost.get('cleanups') == 1, 'library: given up once')
    def made(g, st, a, i): t = w.fails(st); st.ghost['made'] = g.norm_ptr(a[0]); return [(st, None), t]
    def keep(g, st, a, i): g.prove(st, st.ghost.get('made') is not None and g.ptr_eq(a[1], st.ghost['made']), 'library: what is kept was made'); t = w.fails(st); g.store(st, a[0], ir.PTR, a[1]); return [(st, None), t]
    def none(g, st, a, i): g.store(st, a[0], ir.PTR, NULL); return [(st, None)]
    w = World(ctx, 'AresLibraryHandle::Instance', extra=[(rx('^' + H + r'::AresLibraryHandle\(\)$'), made), (rx(SP + r'(<.*>)?\(lightstep::AresLibraryHandle\*\)'), keep), (rx(SP + r'\((decltype\(nullptr\))?\)$'), none), ('fprintf', noop)]); e = w.e; engs.append(e); r = e.new_obj(w.st, 'instance', kind='struct', size=16); n = 0
    for o in C36.ends(w, e.run(findre(w.m, e, '^' + H + r'::\$_\d+::operator\(\)\(\) const$'), w.st, [Ptr(r, 0)]), 'library'):
        e.cur = o; p = e.norm_ptr(e.load(o, Ptr(r, 0), ir.PTR)); n += p.obj is not None; e.prove(o, p.obj is None or o.ghost.get('made') is not None, 'library: a handle, or none if that fails'); e.prove(o, o.ghost['freed'] == (0 if o.ghost.get('made') is not None else 1), 'library: nothing is lost')
    e.prove(w.st, n > 0, 'library: succeeds'); return engs


def plain(ctx):
    """without c-ares: names that are addresses"""
    src = ['harness/ares.cpp', S + 'no_dns_resolver.cpp']; box = {}
    def parsed(g, st, a, i): w = box['w']; g.prove(st, g.ptr_eq(a[1], Ptr(w.host, 0)), 'query: the name asked for'); t = w.fails(st); t[0].ghost['parsed'] = False; st.ghost['parsed'] = True; return w.setmark(st, a[0], z3.If(w.htype == INET6, 1 + MARK, 1)) + [t]
    def family(g, st, a, i): w = box['w']; return [(st, IV(32, s=z3.If(w.mark(st, a[0]) >= MARK, Z(INET6), Z(INET))))]
    w = box['w'] = World(ctx, 'IpOnlyDnsResolver::Resolve', src=src, extra=[(rx(r'^lightstep::IpAddress::IpAddress\(char const\*\)'), parsed), (rx(r'^lightstep::IpAddress::family\('), family)]); e, st = w.e, w.st; st.assume(z3.And(w.n == 1, z3.Or(w.htype == INET, w.htype == INET6))); r = e.new_obj(st, 'result', kind='struct', size=8); seen = set()
    for o in e.run(findre(w.m, e, r'^lightstep::MakeDnsResolver\('), st, [Ptr(r, 0), Ptr(w.logger, 0), Ptr(w.base, 0), Ptr(w.options, 0)]):
        if o.outcome[0] == 'throw': continue
        p = e.load(o, Ptr(r, 0), ir.PTR); o.outcome = None
        for q in C36.ends(w, e.run('vf_resolve', o, [p, Ptr(w.host, 0), IV(32, s=w.family), Ptr(w.callback, 0)]), 'Resolve'):
            e.cur = q; G = q.ghost; ok = G.get('parsed') is True; seen.add(ok); e.prove(q, G['answers'] == 1, 'answer: the callback is called once'); e.prove(q, z3.And(G['k'] == z3.If(z3.And(z3.BoolVal(ok), w.family == w.htype), Z(1), Z(0)), zb(G['all']) == zb(G['said'])), 'answer: the address named, if it is one of the family')
    e.prove(st, seen == {True, False}, 'Resolve: answers either way'); return e


def units(ctx):
    A = 'AresDnsResolver::'
    return [Unit('resolve', resolve, [A + 'Resolve', A + 'UpdateTimer', 'TimerEvent::Reset(timeval)', 'Event::Add', 'Event::Remove'], 300), Unit('answer', answer, ['OnDnsResolution', 'AresDnsResolution::ForeachIpAddress', 'DnsResolution::ForeachIpAddress', 'FunctionRef::operator()'], 300), Unit('sockets', change, [A + 'OnSocketStateChange', 'MakeEventCallback<AresDnsResolver>', 'Event::Event', 'Event::operator=', 'Event::~Event'], 300),
            Unit('events', fired, [A + 'OnEvent', A + 'OnTimeout', A + 'UpdateTimer', 'MakeTimerCallback<AresDnsResolver>'], 300), Unit('constructor', constructor, [A + 'AresDnsResolver', 'SetAresOptions', 'TimerEvent::TimerEvent'], 300), Unit('destructor', destructor, [A + '~AresDnsResolver', 'TimerEvent::~TimerEvent'], 300), Unit('make', make, ['MakeDnsResolver'], 300), Unit('library', library, ['AresLibraryHandle::AresLibraryHandle', 'AresLibraryHandle::~AresLibraryHandle', 'AresLibraryHandle::Instance'], 300), Unit('without c-ares', plain, ['IpOnlyDnsResolver::Resolve', 'SingleIpDnsResolution::ForeachIpAddress', 'MakeDnsResolver (no_dns_resolver)'], 300)]


def natives(ctx):
    srcs = SRC[1:] + [S + x for x in ('event_base.cpp', 'ip_address.cpp')] + ['src/common/' + x for x in ('logger.cpp', 'random.cpp', 'hex_conversion.cpp', 'platform/utility_unix.cpp', 'platform/error_unix.cpp', 'platform/time_unix.cpp', 'platform/fork_unix.cpp', 'platform/string_unix.cpp')]; Q = 'lightstep-tracer-common/'
    return [Native('native/C40.cpp', srcs=[x for x in dict.fromkeys(srcs) if os.path.exists(REPO + '/' + x)], protos=True, gensrcs=[Q + x for x in ('collector.pb.cc', 'google/api/annotations.pb.cc', 'google/api/http.pb.cc')], libs=['-levent', '-lcares', '-lprotobuf', '-lpthread'], budget=(12, 120))]
