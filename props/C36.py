"""C36: satellite connections - recover from every failure, one socket at a time, and shut down when asked."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['a satellite does not send faster than it is read for ever', 'libevent calls a callback that was added, once per event_add or event_base_once, and does not fail to remove an event', 'the event loop runs one callback at a time, on the thread that made the streamer', 'a connection is started once, when endpoints are ready', 'the periods of the recorder options are not negative (and below 2^60 us)', 'logging does not throw', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)']
TRUSTED = ['libevent', 'ConnectionStream (proved as C05), HostHeader and StatusLineParser (C19), Connect, Read and Write (C10, C20, C27), RequestEndpoint, RandomTraverser (C14), GenerateRandomDuration: by contract only', 'when memory for a retry cannot be had (event_base_once fails), the connection stays idle']
S = 'src/recorder/stream_recorder/'
SRC = ['harness/satellite.cpp', S + 'satellite_connection.cpp', S + 'satellite_streamer.cpp', 'src/network/event.cpp', 'src/network/event_base.cpp', 'src/network/timer_event.cpp', 'src/network/socket.cpp', 'src/common/utility.cpp']
EVENTS = ('read_event_', 'write_event_', 'reconnect_timer_', 'graceful_shutdown_timeout_')
PERIODS = ('satellite_write_timeout', 'satellite_failure_retry_period', 'min_satellite_reconnect_period', 'max_satellite_reconnect_period', 'satellite_graceful_stream_shutdown_timeout')
READ, WRITE, RT, GT = EVENTS
EV_TIMEOUT, EV_READ, EV_WRITE = 1, 2, 4
Z = z3.IntVal; T, F = z3.BoolVal(True), z3.BoolVal(False)


def prepare(ctx): ctx.protos()


class World:
    """a connection, its events, sockets and collaborators; ghosts:
    E: event -> what it was made with, whether it is armed and for how long; pend: retries asked for; open: the sockets
    that are open; dirty, pdirty, shut: stream and parser were used since reset, the stream was told to end"""
    def __init__(s, ctx, name):
        C = 'lightstep::SatelliteConnection'; M = 'lightstep::SatelliteStreamer'
        s.O = ctx.offsets(['recorder/stream_recorder/satellite_connection.h', 'recorder/stream_recorder/satellite_streamer.h'],
                          {**{k: (C, k) for k in EVENTS + ('streamer_', 'host_header_', 'connection_stream_', 'status_line_parser_', 'socket_', 'writable_', 'is_shutting_down_', 'was_shutdown_')}, **{k: (M, k) for k in ('logger_', 'event_base_', 'tracer_options_', 'recorder_options_', 'endpoint_manager_', 'connections_', 'connection_traverser_', 'span_buffer_')}, **{k: ('lightstep::StreamRecorderOptions', k) for k in PERIODS}},
                          {'C': C, 'M': M, 'P': 'lightstep::StreamRecorderOptions', 'IP': 'lightstep::IpAddress'})
        s.m = ctx.module(SRC); s.st = st = State(); L = lambda p: rx(r'^lightstep::' + p)
        s.e = e = Engine(s.m, name=name, contracts=[
            (rx(r'^(void )?lightstep::Logger::'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]), (rx(r'^std::runtime_error::runtime_error\('), s.error), (rx(r'^std::runtime_error::~runtime_error'), noop), (rx(r'^operator delete\('), noop),
            ('event_new', s.event_new), ('event_add', s.event_add), ('event_del', s.event_del), ('event_free', s.event_free), ('event_base_once', s.once),
            (L(r'Connect\(lightstep::IpAddress const&\)'), s.connect), (L(r'CloseSocket\('), s.close), (L(r'Read\('), s.read), (L(r'Write\('), s.write),
            (L(r'SatelliteEndpointManager::RequestEndpoint\('), s.endpoint), (L(r'HostHeader::set_host\('), s.set_host), (L(r'HostHeader::fragment\('), s.fragment), (L(r'HostHeader::HostHeader\('), s.mayfail), (L(r'HostHeader::~'), noop), (rx(r'header_common_fragment\(\) const'), s.fragment),
            (L(r'ConnectionStream::ConnectionStream\('), s.mayfail), (L(r'ConnectionStream::~'), noop), (L(r'ConnectionStream::Flush\('), s.flush), (L(r'ConnectionStream::Shutdown\('), s.shutdown), (L(r'ConnectionStream::Reset\('), s.reset), (L(r'ConnectionStream::completed\('), s.completed), (L(r'ConnectionStream::shutting_down\('), s.shutting),
            (L(r'StatusLineParser::StatusLineParser\('), noop), (L(r'StatusLineParser::~'), noop), (L(r'StatusLineParser::Reset\('), s.preset), (L(r'StatusLineParser::Parse\('), s.parse), (L(r'StatusLineParser::completed\('), lambda g, st, a, i: [(st, z3.FreshBool('line complete'))]), (L(r'StatusLineParser::status_code\('), s.status), (L(r'StatusLineParser::reason\('), s.anytext),
            (rx(r'^(.* )?lightstep::GenerateRandomDuration'), s.random), (L(r'GetLastErrorCode\('), s.anyint), (L(r'IsBlockingErrorCode\('), lambda g, st, a, i: [(st, st.ghost['blocking'])]), (L(r'GetErrorCodeMessage(\[|\()'), noop), (rx(r'^std::__cxx11::basic_string<.*>::~basic_string'), noop)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand)
        o = lambda n, k=64, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.conn = o('connection', s.O['C']); s.streamer = o('streamer', s.O['M']); s.options = o('options', s.O['P']); s.logger, s.base, s.lbase, s.topt, s.textobj, s.hosts = (o(n) for n in ('logger', 'event base', 'libevent base', 'tracer options', 'message', 'host name'))
        s.p = {}
        st.mem[s.options.id] = {}
        for k in PERIODS: s.p[k] = z3.Int(k); st.assume(z3.And(s.p[k] >= 0, s.p[k] < 2 ** 60)); st.mem[s.options.id][s.O[k]] = (8, IV(64, s=s.p[k], u=s.p[k]))
        st.assume(s.p['min_satellite_reconnect_period'] <= s.p['max_satellite_reconnect_period'])
        O = s.O; st.mem[s.streamer.id] = {O['logger_']: (8, Ptr(s.logger, 0)), O['event_base_']: (8, Ptr(s.base, 0)), O['tracer_options_']: (8, Ptr(s.topt, 0)), O['recorder_options_']: (8, Ptr(s.options, 0))}
        st.mem[s.base.id] = {0: (8, Ptr(s.lbase, 0))}
        e.ranks = lambda en, view: [('what the satellite sends is finite', lambda w: w.st.ghost['unread'])]
        st.ghost.update(E={}, pend=(), open=(), dirty=F, pdirty=F, shut=F, named=F, broke=F, got=Z(-1), blocking=z3.Bool('blocking'), stuck=False, wrote=False, unread=z3.Int('unread'))

    # ---- values
    def si(s, x): return zi(s.e.dom.s(s.e.as_int(x)))
    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    def at(s, k): return Ptr(s.conn, s.O[k])
    def flag(s, st, k): return z3.simplify(s.u(s.e.load(st, s.at(k), ir.INT(8))) != 0)
    def fd(s, st): return z3.simplify(s.si(s.e.load(st, s.at('socket_'), ir.INT(32))))
    def event(s, st, k): return s.e.norm_ptr(s.e.load(st, s.at(k), ir.PTR)).obj
    def fails(s, st): t = st.clone(); return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception'), 0)))
    def us(s, st, tv):
        tv = s.e.norm_ptr(tv)
        if tv.obj is None: return None
        sec, usec = (s.si(s.e.load(st, Ptr(tv.obj, s.e.dom.off_add(tv.off, k)), ir.INT(64))) for k in (0, 8)); s.e.prove(st, z3.And(usec >= 0, usec < 10 ** 6, sec >= 0), 'timeout: well-formed'); return sec * 10 ** 6 + usec
    def mod(s, st, o, **kw): E = dict(st.ghost['E']); E[o.id] = {**E[o.id], **kw}; st.ghost['E'] = E

    # ---- contracts
    def error(s, g, st, a, i): g.store(st, a[0], ir.PTR, Ptr(g.gobj('_ZTV7VfError'), 16)); return [(st, None)]
    def mayfail(s, g, st, a, i): return [(st, None), s.fails(st)]
    def anyint(s, g, st, a, i): return [(st, g.fresh_val(st, i['rt'], 'error code'))]
    def anytext(s, g, st, a, i): n = z3.FreshInt('length'); st.assume(z3.And(n >= 0, n < 2 ** 31)); return [(st, (Ptr(s.textobj, 0), IV(64, u=n)))]
    def fragment(s, g, st, a, i): return [(st, (Ptr(s.textobj, 0), g.fresh_val(st, ir.INT(32), 'size')))]
    def status(s, g, st, a, i): return [(st, g.fresh_val(st, ir.INT(32), 'status'))]

    def event_new(s, g, st, a, i):
        base, fd, what, cb, c = a; g.prove(st, g.ptr_eq(base, Ptr(s.lbase, 0)), 'event: in the event loop'); t = st.clone()
        o = g.new_obj(st, 'event', kind='struct', size=8); f = g.norm_ptr(cb); g.prove(st, f.obj is not None and f.obj.kind == 'func', 'event: calls a function'); g.prove(st, g.ptr_eq(c, Ptr(s.conn, 0)), 'event: for this connection')
        st.ghost['E'] = {**st.ghost['E'], o.id: dict(fd=s.si(fd), what=z3.simplify(s.u(what)), cb=f.obj.fname if f.obj is not None and f.obj.kind == 'func' else None, armed=F, tv=None, freed=False, obj=o)}; return [(st, Ptr(o, 0)), (t, NULL)]
    def ev(s, st, p, why):
        o = s.e.norm_ptr(p).obj; ok = o is not None and o.id in st.ghost['E'] and not st.ghost['E'][o.id]['freed']; s.e.prove(st, ok, 'event: %s only while it exists' % why); return o if ok else None
    def event_add(s, g, st, a, i):
        o = s.ev(st, a[0], 'added')
        if o is None: return [(st, IV(32, s=0))]
        t = st.clone(); s.mod(st, o, armed=T, tv=s.us(st, a[1])); return [(st, IV(32, s=Z(0))), (t, IV(32, s=Z(-1)))]
    def event_del(s, g, st, a, i):
        o = s.ev(st, a[0], 'removed')
        if o is not None: s.mod(st, o, armed=F)
        return [(st, IV(32, s=Z(0)))]
    def event_free(s, g, st, a, i):
        o = s.ev(st, a[0], 'freed')
        if o is not None: s.mod(st, o, armed=F, freed=True)
        return [(st, None)]
    def once(s, g, st, a, i):
        base, fd, what, cb, c, tv = a; g.prove(st, b_and(g.ptr_eq(base, Ptr(s.lbase, 0)), g.ptr_eq(c, Ptr(s.conn, 0)), s.si(fd) == -1, s.u(what) == EV_TIMEOUT), 'retry: of this connection, in the event loop'); f = g.norm_ptr(cb); g.prove(st, f.obj is not None and f.obj.kind == 'func', 'retry: calls a function')
        t = st.clone(); t.ghost['stuck'] = True; st.ghost['pend'] += ((f.obj.fname if f.obj is not None and f.obj.kind == 'func' else None, s.us(st, tv)),); return [(st, IV(32, s=Z(0))), (t, IV(32, s=Z(-1)))]

    def endpoint(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[1], Ptr(s.streamer, s.O['endpoint_manager_'])), 'connect: to an endpoint of the manager'); name = Ptr(s.hosts, 0)
        st.ghost['asked'] = g.norm_ptr(a[0]); g.store(st, Ptr(a[0].obj, g.dom.off_add(a[0].off, (s.O['IP'] + 7) // 8 * 8)), ir.PTR, name); st.gset('named', F); return [(st, None)]
    def connect(s, g, st, a, i):
        q = st.ghost.get('asked'); g.prove(st, q is not None and g.ptr_eq(a[1], q), 'connect: to the endpoint asked for'); g.prove(st, len(st.ghost['open']) == 0, 'connect: one socket at a time'); t = s.fails(st)
        fd = z3.FreshInt('fd'); st.assume(z3.And(fd >= 0, fd < 2 ** 31)); st.ghost['open'] = (fd,); g.store(st, a[0], ir.INT(32), IV(32, s=fd)); return [(st, None), t]
    def close(s, g, st, a, i):
        fd = s.si(a[0]); n = [x for x in st.ghost['open'] if g.oracle(x == fd) is not True]; g.prove(st, len(n) < len(st.ghost['open']), 'close: only the socket that is open'); st.ghost['open'] = tuple(n); return [(st, g.fresh_val(st, i['rt'], 'closed') if i['rt'][0] != 'void' else None)]
    def isopen(s, st, fd, why): s.e.prove(st, z3.Or(*[x == fd for x in st.ghost['open']]) if st.ghost['open'] else F, why + ': the socket that is open')
    def set_host(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('host_header_')), g.ptr_eq(a[1], Ptr(s.hosts, 0))), 'connect: the host named is the one connected to'); st.gset('named', T); return [(st, None)]
    def stream(s, st, p): s.e.prove(st, s.e.ptr_eq(p, s.at('connection_stream_')), 'the connection\'s own stream')
    def flush(s, g, st, a, i):
        """writes through the writer any number of times (here: never or once), until it fails or says so"""
        p = a[1:]; s.stream(st, a[0]); out = [(st.clone(), z3.FreshBool('flushed')), s.fails(st)]; st.gset('dirty', T); st.ghost['wrote'] = True
        if len(p) == 1: w = g.norm_ptr(p[0]); obj, call = (g.load(st, Ptr(w.obj, g.dom.off_add(w.off, k)), ir.PTR) for k in (0, 8))
        else: obj, call = p[0], p[1]
        ls = g.new_obj(st, 'streams', kind='struct', size=64)
        for t, v in g.call_value(st, call, [obj, Ptr(ls, 0), IV(64, u=z3.FreshInt('n'))]):
            out.append((t, v if isinstance(v, Throw) else z3.FreshBool('flushed')))
        return out
    def write(s, g, st, a, i): s.isopen(st, s.si(a[0]), 'write'); g.prove(st, st.ghost['named'], 'write: only after naming the host'); return [(st, z3.FreshBool('written')), s.fails(st)]
    def shutdown(s, g, st, a, i): s.stream(st, a[0]); st.gset('shut', T); return [(st, None)]
    def reset(s, g, st, a, i): s.stream(st, a[0]); st.gset('shut', F); st.gset('dirty', F); return [(st, None)]
    def completed(s, g, st, a, i): s.stream(st, a[0]); return [(st, z3.Bool('stream complete'))]
    def shutting(s, g, st, a, i): s.stream(st, a[0]); return [(st, st.ghost['shut'])]
    def preset(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], s.at('status_line_parser_')), 'the connection\'s own parser'); st.gset('pdirty', F); return [(st, None)]
    def read(s, g, st, a, i):
        s.isopen(st, s.si(a[0]), 'read'); n = z3.FreshInt('read'); cap = s.u(a[2]); g.prove(st, zb(st.ghost['got'] <= 0), 'read: what was read is parsed before more is read'); st.assume(z3.And(n >= -1, n <= cap, n < 2 ** 31)); st.gset('got', n); st.assume(z3.Implies(n > 0, st.ghost['unread'] >= 1)); st.gset('unread', z3.If(n > 0, st.ghost['unread'] - 1, st.ghost['unread'])); s.buf = g.norm_ptr(a[1]); s.cap(st, a[1], cap); return [(st, IV(32, s=n))]
    def cap(s, st, p, n):
        p = s.e.norm_ptr(p); k = p.obj.size if p.obj is not None else None
        s.e.prove(st, b_and(p.obj is not None, zi(p.off) + n <= k) if k is not None else F, 'read: no more than the buffer holds')
    def parse(s, g, st, a, i):
        g.prove(st, b_and(g.ptr_eq(a[0], s.at('status_line_parser_')), g.ptr_eq(a[1], s.buf), s.u(a[2]) == st.ghost['got'], st.ghost['got'] > 0), 'read: exactly what was read is parsed'); st.gset('pdirty', T); st.gset('got', Z(0)); return [(st, None), s.fails(st)]
    def random(s, g, st, a, i):
        lo, hi = (s.si(x) for x in a); g.prove(st, lo <= hi, 'random: in a range'); v = z3.FreshInt('random'); st.assume(z3.And(v >= lo, v <= hi)); return [(st, IV(64, s=v, u=v))]
    def cand(s, e, view):
        G = lambda w: w.st.ghost
        return [('what was read is parsed', lambda w: zb(G(w)['got'] <= 0)), ('parser used only then', lambda w: z3.Implies(zb(w.entry.ghost['pdirty']), zb(G(w)['pdirty'])))] + [('%s as it was' % k, lambda w, k=k: zb(G(w)[k]) == zb(w.entry.ghost[k])) for k in ('dirty', 'shut', 'named', 'broke')]

    # ---- states
    def put(s, k, v): s.e.store(s.st, s.at(k), ir.INT(8), IV(8, u=z3.If(v, Z(1), Z(0))))
    def mk(s, k, fd, what, armed, tv):
        o = s.e.new_obj(s.st, k, kind='struct', size=8); s.st.ghost['E'] = {**s.st.ghost['E'], o.id: dict(fd=fd, what=Z(what), cb=s.cbs[k], armed=armed, tv=tv, freed=False, obj=o)}; s.e.store(s.st, s.at(k), ir.PTR, Ptr(o, 0)); return o
    def state(s, kind, cbs):
        """any state of the invariant: idle, wait, live or dead"""
        st = s.st; s.cbs = cbs; B = z3.Bool; O = s.O; P = s.p; live = kind == 'live'; dead = kind == 'dead'
        st.mem[s.conn.id] = {O['streamer_']: (8, Ptr(s.streamer, 0))}
        s.isd = T if dead else B('shutting down'); s.writable = B('writable') if live else F; s.grace = F if dead else B('grace') if live else s.isd
        s.put('writable_', s.writable); s.put('is_shutting_down_', s.isd); s.put('was_shutdown_', T if dead else F)
        s.F = z3.Int('socket') if live else Z(-1)
        if live: st.assume(z3.And(s.F >= 0, s.F < 2 ** 31, z3.Implies(s.isd, s.grace))); st.ghost['open'] = (s.F,)
        s.e.store(st, s.at('socket_'), ir.INT(32), IV(32, s=s.F))
        rt = B('reconnect pending') if live else F
        if live: st.assume(z3.Or(rt, s.grace))
        r = z3.Int('reconnect_period'); st.assume(z3.And(r >= P['min_satellite_reconnect_period'], r <= P['max_satellite_reconnect_period']))
        s.old = {}
        if live: s.old = {READ: s.mk(READ, s.F, EV_READ, T, None), WRITE: s.mk(WRITE, s.F, EV_WRITE, z3.Not(s.writable), P['satellite_write_timeout'])}
        else:
            for k in (READ, WRITE): s.e.store(st, s.at(k), ir.PTR, NULL)
        s.old[RT] = s.mk(RT, Z(-1), 0, rt, r); s.old[GT] = s.mk(GT, Z(-1), 0, s.grace, P['satellite_graceful_stream_shutdown_timeout'])
        st.ghost['shut'] = F if dead else s.grace; st.ghost['dirty'] = B('stream used') if live else F; st.ghost['pdirty'] = B('parser used') if live else F; st.ghost['named'] = T if live else F
        if kind == 'wait': st.ghost['pend'] = ((cbs['retry'], P['satellite_failure_retry_period']),)
        return s
    def fire(s, k, what):
        """the event loop calls an event that was armed"""
        o = s.old[k]; E = s.st.ghost['E'][o.id]; s.st.assume(zb(E['armed'])); s.mod(s.st, o, armed=F); return s.call(E['cb'], E['fd'], what)
    def call(s, f, fd, what): return s.e.call_value(s.st, f, [IV(32, s=zi(fd)), IV(16, u=zi(what), s=zi(what)), Ptr(s.conn, 0)])

    def inv(s, o, what, idle=False, cbs=None):
        """where the connection is; whatever it is, something will take it further"""
        e = s.e; P = s.p; e.cur = o; G = o.ghost; E = G['E']; cbs = cbs or s.cbs; pr = lambda f, w: e.prove(o, f, '%s: %s' % (what, w))
        isd, wsd, wr, fd = s.flag(o, 'is_shutting_down_'), s.flag(o, 'was_shutdown_'), s.flag(o, 'writable_'), s.fd(o); live = len(G['open']) == 1
        evs = {k: s.event(o, k) for k in EVENTS}; A = lambda k: zb(E[evs[k].id]['armed']) if evs[k] is not None else F
        pr(all(x is None or x.id in E and not E[x.id]['freed'] for x in evs.values()), 'its events exist'); pr({x.id for x in evs.values() if x is not None} == {k for k in E if not E[k]['freed']}, 'no other events are kept')
        if not all(x is None or x.id in E and not E[x.id]['freed'] for x in evs.values()): return
        for k in (RT, GT): pr(evs[k] is not None and e.oracle(z3.And(E[evs[k].id]['fd'] == -1, E[evs[k].id]['what'] == 0)) is True, 'timers are timers')
        if cbs:
            for k in EVENTS:
                if evs[k] is not None: pr(E[evs[k].id]['cb'] == cbs[k], '%s calls its handler' % k)
        for k in EVENTS:
            if evs[k] is not None:
                tv = E[evs[k].id]['tv']; a = A(k)
                if e.oracle(a) is False: continue
                if k == READ: pr(z3.Implies(a, tv is None), 'reading does not time out')
                elif tv is None: pr(z3.Not(a), '%s has a timeout' % k)
                elif k == WRITE: pr(z3.Implies(a, tv == P['satellite_write_timeout']), 'writing times out')
                elif k == GT: pr(z3.Implies(a, tv == P['satellite_graceful_stream_shutdown_timeout']), 'a graceful end has its time')
                else: pr(z3.Implies(a, z3.And(tv >= P['min_satellite_reconnect_period'], tv <= P['max_satellite_reconnect_period'])), 'reconnecting in the time configured')
        for f, tv in G['pend']: pr(tv is not None and tv == P['satellite_failure_retry_period'], 'retries after the time configured')
        if cbs and 'retry' in cbs:
            for f, tv in G['pend']: pr(f == cbs['retry'], 'a retry connects')
        pr(z3.Implies(wsd, isd), 'ends only when asked to'); pr(z3.Implies(z3.Not(wsd), A(GT) == zb(G['shut'])), 'the time for a graceful end runs exactly while the stream is ending'); pr(z3.Implies(z3.And(isd, z3.Not(wsd)), A(GT)), 'a shutdown will complete')
        pr(z3.Implies(wsd, z3.And(z3.Not(A(RT)), z3.Not(A(GT)), z3.Not(zb(G['shut'])), z3.BoolVal(not live))), 'nothing is left after a shutdown')
        if live:
            pr(fd == G['open'][0], 'the socket is the one that is open'); ok = evs[READ] is not None and evs[WRITE] is not None; pr(ok, 'the socket is watched'); pr(len(G['pend']) == 0, 'no retry while connected')
            if ok:
                R, W = E[evs[READ].id], E[evs[WRITE].id]; pr(z3.And(R['fd'] == fd, R['what'] == EV_READ, A(READ)), 'the socket is read'); pr(z3.And(W['fd'] == fd, W['what'] == EV_WRITE, A(WRITE) == z3.Not(wr)), 'the socket is watched for writing exactly while it is not writable')
            pr(z3.Or(A(RT), A(GT)), 'no connection lives forever'); pr(zb(G['named']), 'the host is named')
        else:
            pr(fd == -1, 'no socket is kept'); pr(z3.Not(wr), 'not writable without a socket'); pr(z3.Not(A(RT)), 'no reconnecting without a connection'); pr(z3.And(z3.Not(zb(G['dirty'])), z3.Not(zb(G['pdirty']))), 'the next connection starts afresh')
            for k in (READ, WRITE): pr(z3.Not(A(k)), 'no socket is watched')
            if not idle and not G['stuck']: pr(z3.Or(isd, z3.BoolVal(len(G['pend']) == 1)), 'a retry is coming')
            pr(len(G['pend']) <= 1, 'one retry at a time')
    def replaced(s, o, what):
        """the connection there was is over"""
        G = o.ghost; s.e.cur = o; s.e.prove(o, all(s.e.oracle(x == s.F) is not True or not x.eq(s.F) for x in G['open']), what + ': the socket is closed'); s.e.prove(o, z3.Implies(s.isd, s.flag(o, 'was_shutdown_')), what + ': a shutdown completes'); s.e.prove(o, z3.Implies(z3.Not(s.isd), z3.Not(s.flag(o, 'was_shutdown_'))), what + ': otherwise it goes on'); s.e.prove(o, z3.Implies(z3.BoolVal(bool(G['open'])), z3.And(z3.Not(zb(G['dirty'])), z3.Not(zb(G['pdirty'])), z3.Not(zb(G['shut'])), z3.Not(s.flag(o, 'writable_')))), what + ': what replaces it starts afresh')


def callbacks(ctx):
    """what the constructor and the first connection register: event -> handler"""
    w = World(ctx, 'callbacks'); e = w.e; st = w.st; cbs = {}
    for o in e.run(findre(w.m, e, r'^lightstep::SatelliteConnection::SatelliteConnection\('), st, [Ptr(w.conn, 0), Ptr(w.streamer, 0)]):
        if o.outcome[0] == 'throw': continue
        e.cur = o; cbs.update({k: o.ghost['E'][w.event(o, k).id]['cb'] for k in (RT, GT)}); w.st = o; o.outcome = None
        for o in e.run(findre(w.m, e, r'^lightstep::SatelliteConnection::Start\('), o.clone(), [Ptr(w.conn, 0)]):
            e.cur = o
            for k in (READ, WRITE):
                x = w.event(o, k)
                if x is not None: cbs[k] = o.ghost['E'][x.id]['cb']
            if o.ghost['pend']: cbs['retry'] = o.ghost['pend'][0][0]
    if set(cbs) != set(EVENTS) | {'retry'}: raise Unsupported('not every event is registered: %s' % sorted(cbs))
    return cbs


def start(ctx, name, kind):
    w = World(ctx, name); return w.state(kind, callbacks(ctx))


KINDS = ('idle', 'wait', 'live', 'dead')


def run(w, name, args):
    e = w.e; return e.run(findre(w.m, e, r'^lightstep::' + name), w.st, args)
def ends(w, outs, what):
    """a noexcept function has returned"""
    r = []
    for o in outs:
        st, v = o if isinstance(o, tuple) else (o, None)
        if isinstance(v, Throw) or (not isinstance(o, tuple) and st.outcome[0] == 'throw'): w.e.cur = st; w.e.prove(st, False, what + ': does not throw')
        else: r.append(st)
    reachable(w.e, r); return r


def constructor(ctx):
    w = World(ctx, 'SatelliteConnection'); e = w.e; w.isd = F; n = 0
    outs = e.run(findre(w.m, e, r'^lightstep::SatelliteConnection::SatelliteConnection\('), w.st, [Ptr(w.conn, 0), Ptr(w.streamer, 0)]); reachable(e, outs)
    for o in outs:
        e.cur = o
        if o.outcome[0] == 'throw': e.prove(o, all(x['freed'] for x in o.ghost['E'].values()), 'constructor: nothing is kept when it throws'); continue
        n += 1; w.cbs = {}; w.inv(o, 'constructor', idle=True); e.prove(o, z3.And(z3.Not(w.flag(o, 'is_shutting_down_')), z3.Not(w.flag(o, 'was_shutdown_')), z3.BoolVal(not o.ghost['pend'])), 'constructor: idle')
    e.prove(w.st, n > 0, 'constructor: succeeds'); return e


def begin(ctx):
    """Start: from idle it connects or retries; after a shutdown it does nothing"""
    engs = []
    for kind in ('idle', 'dead'):
        w = start(ctx, 'Start, ' + kind, kind); e = w.e; engs.append(e)
        for o in ends(w, run(w, r'SatelliteConnection::Start\(', [Ptr(w.conn, 0)]), 'Start'):
            w.inv(o, 'Start', idle=False); stays(w, o, kind, 'Start')
            if kind == 'idle': progress(w, o, 'Start')
    return engs
def stays(w, o, kind, what):
    G = o.ghost
    if kind == 'dead': w.e.prove(o, z3.And(w.flag(o, 'was_shutdown_'), z3.BoolVal(not G['open'] and not G['pend'] and not G['wrote'])), what + ': nothing happens after a shutdown')
def progress(w, o, what):
    """connected, or a retry is coming, or a shutdown is done (unless the event loop refuses)"""
    G = o.ghost; w.e.cur = o; w.e.prove(o, z3.Or(z3.BoolVal(len(G['open']) == 1), z3.BoolVal(len(G['pend']) == 1), z3.BoolVal(G['stuck']), z3.And(w.isd, w.flag(o, 'was_shutdown_'))), what + ': connects, tries again later, or is done')


def retry(ctx):
    engs = []
    for kind in ('wait', 'dead'):
        w = start(ctx, 'retry, ' + kind, kind); e = w.e; engs.append(e); w.st.ghost['pend'] = ()
        for o in ends(w, w.call(w.cbs['retry'], -1, EV_TIMEOUT), 'retry'):
            w.inv(o, 'retry'); stays(w, o, kind, 'retry')
            if kind == 'wait': progress(w, o, 'retry')
    return engs


def fired(k, what, post, pre=None):
    """the event loop calls an armed event of a live connection"""
    def f(ctx):
        engs = []
        for kind in (('live', 'idle', 'wait') if k == GT else ('live',)):
            for wh in what:
                w = start(ctx, '%s, %s, %d' % (k.strip('_'), kind, wh), kind); e = w.e; engs.append(e)
                if pre: pre(w)
                for o in ends(w, w.fire(k, wh), k):
                    w.inv(o, k, idle=kind == 'idle' and False); post(w, o, kind, wh)
        return engs
    return f
def after_rt(w, o, kind, wh):
    """told to reconnect: the stream ends gracefully, within its time"""
    G = o.ghost; same = len(G['open']) == 1; w.e.prove(o, z3.Implies(z3.BoolVal(same), z3.And(zb(G['shut']), w.fd(o) == w.F)), 'reconnecting: the stream is told to end'); progress(w, o, 'reconnecting'); w.e.prove(o, z3.Implies(w.grace, z3.BoolVal(not G['wrote'])) if False else T, 'reconnecting')
def after_gt(w, o, kind, wh):
    w.replaced(o, 'out of time'); progress(w, o, 'out of time')
def after_write(w, o, kind, wh):
    G = o.ghost
    if wh & EV_TIMEOUT: w.replaced(o, 'not writable in time'); progress(w, o, 'not writable in time'); w.e.prove(o, not G['wrote'], 'not writable in time: nothing more is written')
    else: kept(w, o, 'writable')
def kept(w, o, what):
    """the same connection, or it failed"""
    G = o.ghost; same = bool(G['open']) and w.e.oracle(G['open'][0] == w.F) is True and G['open'][0].eq(w.F)
    if same: w.e.prove(o, z3.And(w.flag(o, 'is_shutting_down_') == w.isd, zb(G['shut']) == w.st0), what + ': the connection goes on as it was'); 
    else: w.replaced(o, what); progress(w, o, what)
    return same
def after_read(w, o, kind, wh):
    G = o.ghost; same = bool(G['open']) and G['open'][0].eq(w.F); w.e.cur = o
    if same: w.e.prove(o, z3.And(G['got'] < 0, zb(G['blocking'])), 'readable: kept while there may be more to come'); w.e.prove(o, z3.And(w.flag(o, 'is_shutting_down_') == w.isd, zb(G['shut']) == w.grace), 'readable: the connection goes on as it was')
    else: w.replaced(o, 'readable'); progress(w, o, 'readable')


def flush(ctx):
    w = start(ctx, 'Flush', 'live'); e = w.e; w.st.assume(z3.And(w.writable, z3.Not(w.grace))); outs = run(w, r'SatelliteConnection::Flush\(\)$', [Ptr(w.conn, 0)]); w.st0 = F
    for o in ends(w, outs, 'Flush'):
        w.inv(o, 'Flush'); same = kept(w, o, 'Flush'); v = zb(o.outcome[1])
        e.prove(o, z3.Implies(v, w.flag(o, 'writable_')), 'Flush: all flushed leaves it writable'); e.prove(o, z3.Implies(z3.Not(v), z3.Not(w.flag(o, 'writable_'))), 'Flush: waits to become writable otherwise')
    return e


def shut(ctx):
    engs = []
    for kind in KINDS:
        w = start(ctx, 'InitiateShutdown, ' + kind, kind); e = w.e; engs.append(e)
        if kind == 'idle': w.cbs = dict(w.cbs)
        for o in ends(w, run(w, r'SatelliteConnection::InitiateShutdown\(', [Ptr(w.conn, 0)]), 'InitiateShutdown'):
            w.inv(o, 'InitiateShutdown', idle=kind == 'idle'); G = o.ghost; e.prove(o, w.flag(o, 'is_shutting_down_'), 'InitiateShutdown: it is shutting down'); stays(w, o, kind, 'InitiateShutdown')
            e.prove(o, z3.BoolVal(not G['open'] or G['open'][0].eq(w.F)), 'InitiateShutdown: no new connection'); e.prove(o, len(G['pend']) <= (kind == 'wait'), 'InitiateShutdown: no new retry')
    return engs


def destroy(ctx):
    engs = []
    for kind in KINDS:
        w = start(ctx, 'destructor, ' + kind, kind); e = w.e; engs.append(e)
        for o in ends(w, run(w, r'SatelliteConnection::~SatelliteConnection\(', [Ptr(w.conn, 0)]), 'destructor'):
            G = o.ghost; e.cur = o; e.prove(o, all(x['freed'] for x in G['E'].values()), 'destructor: no event is left'); e.prove(o, len(G['open']) == 0, 'destructor: no socket is left')
            e.prove(o, z3.Implies(z3.Not(w.writable), z3.BoolVal(not G['wrote'])), 'destructor: writes only if that does not block')
    return engs


def ask(ctx):
    engs = []
    for kind in KINDS:
        w = start(ctx, 'ready, is_active, ' + kind, kind); e = w.e; engs.append(e)
        for o in returns(e, run(w, r'SatelliteConnection::ready\(', [Ptr(w.conn, 0)]), 'ready'): e.prove(o, zb(o.outcome[1]) == z3.And(w.writable, z3.Not(w.grace)), 'ready: writable, and not ending'); e.prove(o, zb(o.outcome[1]) == F if kind != 'live' else T, 'ready: only when connected')
    return engs


class Streamer:
    """the connections of a streamer, each seen through its contract; q is any one of them"""
    def __init__(s, ctx, name):
        C = 'lightstep::SatelliteConnection'; M = 'lightstep::SatelliteStreamer'
        s.O = O = ctx.offsets(['recorder/stream_recorder/satellite_connection.h', 'recorder/stream_recorder/satellite_streamer.h'], {k: (M, k) for k in ('connections_', 'connection_traverser_', 'span_buffer_')}, {'C': C, 'M': M})
        s.m = ctx.module(SRC); s.st = st = State(); V = lambda n: rx(r'^lightstep::SatelliteConnection::%s\(' % n); I, B = z3.IntSort(), z3.BoolSort()
        s.active, s.ready = z3.Function('active', I, B), z3.Function('ready', I, B)
        s.e = e = Engine(s.m, name=name, contracts=[(V('is_active'), lambda g, st, a, i: s.asked(g, st, a)), (V('ready'), lambda g, st, a, i: [(st, s.ready(s.index(st, a[0])))]), (V('InitiateShutdown'), s.told), (V('Start'), s.told), (V('Flush'), s.flushed), (rx(r'RandomTraverser::ForEachIndex\('), s.each), (rx(r'^lightstep::CircularBuffer<.*>::empty\('), s.empty)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand); s.n, s.q = z3.Int('connections'), z3.Int('any'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 31, s.q >= 0, s.q < s.n))
        s.conns = e.new_obj(st, 'connections', kind='array', stride=O['C'], layout={}, n=s.n); s.vec = e.new_obj(st, 'vector', kind='array', stride=8, layout={0: ('ptr', lambda en, t, k: Ptr(s.conns, z3.simplify(zi(z3.simplify(k)) * O['C'])))}, n=s.n, const=True); j = z3.Int('j'); st.mem[s.vec.id] = {0: z3.Lambda([j], j)}
        s.streamer = e.new_obj(st, 'streamer', kind='struct', size=O['M']); s.buffer = e.new_obj(st, 'buffer', kind='struct', size=64); v = O['connections_']
        st.mem[s.streamer.id] = {v: (8, Ptr(s.vec, 0)), v + 8: (8, Ptr(s.vec, z3.simplify(8 * s.n))), v + 16: (8, Ptr(s.vec, z3.simplify(8 * s.n))), O['span_buffer_']: (8, Ptr(s.buffer, 0))}
        st.ghost.update(hit=F, told=Z(0), walked=0, flushes=())
    def index(s, st, p):
        p = s.e.norm_ptr(p); s.e.prove(st, p.obj is s.conns, 'one of the connections'); k = z3.FreshInt('index'); st.assume(zi(p.off) == k * s.O['C']); return k
    def asked(s, g, st, a): k = s.index(st, a[0]); st.gset('hit', z3.Or(st.ghost['hit'], s.active(k))); return [(st, s.active(k))]
    def told(s, g, st, a, i): k = s.index(st, a[0]); st.gset('told', st.ghost['told'] + z3.If(k == s.q, Z(1), Z(0))); return [(st, None)]
    def flushed(s, g, st, a, i): k = s.index(st, a[0]); r = z3.FreshBool('flushed'); g.prove(st, s.ready(k), 'Flush: only connections that are ready'); st.ghost['flushes'] += ((k, r),); return [(st, r)]
    def empty(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.buffer, 0)), 'Flush: the buffer of spans'); return [(st, z3.Bool('buffer empty'))]
    def each(s, g, st, a, i):
        """calls back with distinct indexes, until told to stop; here with any one of them"""
        g.prove(st, g.ptr_eq(a[0], Ptr(s.streamer, s.O['connection_traverser_'])), 'Flush: over its connections'); st.ghost['walked'] += 1; p = a[1:]; out = [(st.clone(), z3.FreshBool('finished'))]
        if len(p) == 1: w = g.norm_ptr(p[0]); p = [g.load(st, Ptr(w.obj, g.dom.off_add(w.off, k)), ir.PTR) for k in (0, 8)]
        k = z3.Int('index'); st.assume(z3.And(k >= 0, k < s.n))
        for t, v in g.call_value(st, p[1], [p[0], IV(32, s=k, u=k)]):
            if isinstance(v, Throw): out.append((t, v)); continue
            g.cur = t; fl = t.ghost['flushes']; done = [r for _, r in fl]
            g.prove(t, len(fl) <= 1, 'Flush: a connection is flushed once'); g.prove(t, z3.BoolVal(bool(fl)) == s.ready(k), 'Flush: every connection that is ready'); g.prove(t, b_and(*[zi(j) == k for j, _ in fl]) if fl else T, 'Flush: the connection chosen'); g.prove(t, zb(v) == z3.Not(z3.Or(*done, F)), 'Flush: goes on to the next connection until everything is flushed'); out.append((t, z3.FreshBool('finished')))
        return out
    def cand(s, e, view):
        G = lambda w: w.st.ghost; out = [('none so far', lambda w: z3.Not(zb(G(w)['hit'])))]
        for n, t in view.ints():
            x = lambda w, n=n: zi(w.term(w.get(n)))
            for c in (1, 8): out += [('%s * %d in range' % (str(n), c), lambda w, x=x, c=c: z3.And(x(w) % c == 0, x(w) <= c * s.n))] + [('%s has not passed it without asking' % (n,), lambda w, x=x, c=c: z3.Implies(c * s.q < x(w), z3.Not(s.active(s.q)))), ('told iff passed by %s / %d' % (str(n), c), lambda w, x=x, c=c: G(w)['told'] == z3.If(c * s.q < x(w), Z(1), Z(0)))]
        return out


def loops(ctx):
    engs = []; P = lambda w: [Ptr(w.streamer, 0)]; run = lambda w, n: ends(w, w.e.run(findre(w.m, w.e, r'^lightstep::SatelliteStreamer::%s\(\)' % n + ('( const)?$')), w.st, P(w)), n)
    w = Streamer(ctx, 'is_active'); engs.append(w.e)
    for o in run(w, 'is_active'): v = zb(o.outcome[1]); w.e.cur = o; w.e.prove(o, z3.Implies(w.active(w.q), v), 'is_active: while any connection is'); w.e.prove(o, z3.Implies(v, o.ghost['hit']), 'is_active: only while one is')
    for n in ('InitiateShutdown', 'OnEndpointManagerReady'):
        w = Streamer(ctx, n); engs.append(w.e)
        for o in run(w, n): w.e.cur = o; w.e.prove(o, o.ghost['told'] == 1, n + ': every connection, once')
    w = Streamer(ctx, 'Flush'); engs.append(w.e)
    for o in run(w, 'Flush'): w.e.cur = o; w.e.prove(o, z3.Implies(z3.Not(z3.Bool('buffer empty')), z3.BoolVal(o.ghost['walked'] == 1)), 'Flush: unless there is nothing to send')
    return engs


def units(ctx):
    U = lambda n, f, fs: Unit(n, f, fs, 900); C = 'SatelliteConnection::'; common = ['Event', 'Socket', 'EventBase::OnTimeout', 'ToTimeval']
    def pre(w): w.st0 = w.grace
    return [U('constructor', constructor, [C + 'SatelliteConnection'] + common), U('Start', begin, [C + 'Start', C + 'Connect', C + 'ScheduleReconnect', C + 'HandleFailure', C + 'FreeSocket'] + common), U('retry', retry, [C + 'Connect', C + 'HandleFailure'] + common),
            U('reconnect timer', fired(RT, (EV_TIMEOUT,), after_rt), [C + 'InitiateReconnect', C + 'ShutdownStream', C + 'Flush']), U('grace timer', fired(GT, (EV_TIMEOUT,), after_gt), [C + 'GracefulShutdownTimeout', C + 'Reconnect']),
            U('readable', fired(READ, (EV_READ,), after_read), [C + 'OnReadable', C + 'OnSocketError', C + 'Reconnect']), U('writable', fired(WRITE, (EV_WRITE, EV_TIMEOUT), after_write, pre), [C + 'OnWritable', C + 'OnSocketError', C + 'Flush']),
            U('Flush', flush, [C + 'Flush', C + 'HandleFailure']), U('InitiateShutdown', shut, [C + 'InitiateShutdown', C + 'ShutdownStream']), U('destructor', destroy, [C + '~SatelliteConnection', 'Event::~Event', 'Socket::~Socket']), U('ready', ask, [C + 'ready']), U('streamer', loops, ['SatelliteStreamer::' + x for x in ('is_active', 'InitiateShutdown', 'OnEndpointManagerReady', 'Flush')])]


def natives(ctx, defs=(), name='C36'):
    Q = 'lightstep-tracer-common/'; S = 'src/recorder/stream_recorder/'
    srcs = [S + x + '.cpp' for x in ('satellite_streamer', 'satellite_connection', 'satellite_endpoint_manager', 'satellite_dns_resolution_manager', 'connection_stream', 'span_stream', 'fragment_span_input_stream', 'embedded_metrics_message', 'host_header', 'status_line_parser', 'utility')]
    srcs += ['src/recorder/metrics_tracker.cpp', 'src/recorder/serialization/report_request_header.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp', 'src/tracer/serialization.cpp', 'src/tracer/tag.cpp'] + ['src/network/' + x + '.cpp' for x in ('event', 'event_base', 'timer_event', 'ip_address')]
    srcs += ['src/common/' + x + '.cpp' for x in ('chained_stream', 'fragment_input_stream', 'fragment_array_input_stream', 'composable_fragment_input_stream', 'serialization', 'protobuf', 'serialization_chain', 'logger', 'random', 'random_traverser', 'utility', 'timestamp', 'hex_conversion', 'platform/fork_unix', 'platform/utility_unix', 'platform/error_unix', 'platform/time_unix', 'platform/string_unix', 'platform/memory_unix')]
    import os
    from cvg.runner import REPO
    srcs = [s for s in srcs if os.path.exists(REPO + '/' + s)]
    return [Native('native/C36.cpp', name=name, defs=defs, srcs=srcs, protos=True, gensrcs=[Q + x for x in ('collector.pb.cc', 'google/api/annotations.pb.cc', 'google/api/http.pb.cc')], libs=['-lprotobuf', '-lpthread'], budget=(15, 120))]
