"""C37: satellite addresses - each host is resolved again and again, and endpoints with addresses are used in turn."""
from cvg.runner import Unit, Native
from cvg.util import *
from props import C36

ASSUMPTIONS = ['libevent calls a callback given to event_base_once once', 'a DNS resolver answers each query once, with a callback for each address until told to stop', 'the periods of the recorder options are not negative (and below 2^60 us)', 'fewer than 2^32 endpoints are requested (the counters do not wrap)', 'logging does not throw', 'an endpoint is requested only when some host has addresses (that is what the callback announces)', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)']
TRUSTED = ['libevent', 'the DNS resolver (c-ares)', 'SeparateEndpoints (C20), IpAddress::set_port (C17), GenerateRandomDuration', 'std::vector and std::function hold what they are given', 'when the event loop refuses a timer (event_base_once fails), a host is not resolved again']
S = 'src/recorder/stream_recorder/'
SRC = ['harness/addresses.cpp', S + 'satellite_dns_resolution_manager.cpp', S + 'satellite_endpoint_manager.cpp', 'src/network/event_base.cpp', 'src/common/utility.cpp']
PERIODS = ('dns_failure_retry_period', 'min_dns_resolution_refresh_period', 'max_dns_resolution_refresh_period')
Z = z3.IntVal; T, F = z3.BoolVal(True), z3.BoolVal(False); I, B = z3.IntSort(), z3.BoolSort()
BIG = 2 ** 32
D = 'lightstep::SatelliteDnsResolutionManager'; M = 'lightstep::SatelliteEndpointManager'
V = r'^std::vector<lightstep::IpAddress.*>::'


def prepare(ctx): ctx.protos()


def offsets(ctx):
    H = M + '::SatelliteHostManager'
    return ctx.offsets(['recorder/stream_recorder/satellite_dns_resolution_manager.h', 'recorder/stream_recorder/satellite_endpoint_manager.h'],
                       {**{k: (D, k) for k in ('logger_', 'event_base_', 'dns_resolver_', 'recorder_options_', 'family_', 'name_', 'on_ready_callback_', 'ip_addresses_')}, **{'m.' + k: (M, k) for k in ('on_ready_callback_', 'host_managers_', 'endpoints_', 'endpoint_index_', 'num_resolutions_ready_')}, **{k: (H, k) for k in ('ipv4_resolutions', 'ipv6_resolutions', 'address_index')}, **{k: ('lightstep::StreamRecorderOptions', k) for k in PERIODS + ('dns_resolver_options',)}, 'satellite_endpoints': ('lightstep::LightStepTracerOptions', 'satellite_endpoints')},
                       {'D': D, 'M': M, 'H': H, 'P': 'lightstep::StreamRecorderOptions', 'IP': 'lightstep::IpAddress', 'TO': 'lightstep::LightStepTracerOptions'})


class Dns(C36.World):
    """one host and family: a vector of addresses is represented by its size and by whether it is the one there was (tag 1)
    or made of the answer (tag 0)"""
    def __init__(s, ctx, name):
        s.O = O = offsets(ctx); s.m = ctx.module(SRC); s.st = st = State()
        s.e = e = Engine(s.m, name=name, contracts=[
            (rx(r'^(void )?lightstep::Logger::'), noop), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]), (rx(r'^std::runtime_error::runtime_error\('), s.error), (rx(r'^std::runtime_error::~runtime_error'), noop), ('event_base_once', s.once),
            (rx(r'^VfResolver::Resolve\('), s.resolve), (rx(r'^VfResolution::ForeachIpAddress\('), s.foreach), (rx(r'^lightstep::MakeDnsResolver\('), s.make), (rx(r'^(.* )?lightstep::GenerateRandomDuration'), s.random),
            (rx(V + r'vector\(\)'), s.fresh), (rx(V + r'~vector'), noop), (rx(V + r'(size|capacity)\('), lambda g, st, a, i: [(st, IV(64, u=s.mark(st, a[0]) % BIG))]), (rx(V + r'empty\('), lambda g, st, a, i: [(st, s.mark(st, a[0]) % BIG == 0)]), (rx(V + r'reserve\('), s.mayfail), (rx(V + r'clear\('), s.clear), (rx('^(.* )?' + V[1:] + r'(push_back|emplace_back)'), s.push), (rx(V + r'operator=\(std::vector<.*&&\)'), s.move), (rx(V + r'swap\('), s.swap),
            (rx(r'^std::function<void \(\)>::operator\(\)'), s.ready), (rx(r'^std::function<void \(\)>::function\(std::function<void \(\)>&&\)'), s.take), (rx(r'^std::function<void \(\)>::~function'), noop)])
        e.cur = st; e.candidates = int_candidates([], extra=lambda e, v: [])
        o = lambda n, k=64, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.conn = o('manager', O['D']); s.options = o('options', O['P']); s.logger, s.base, s.lbase, s.textobj, s.name, s.callback = (o(n) for n in ('logger', 'event base', 'libevent base', 'message', 'name', 'ready callback'))
        s.resolver = virtual_object(e, st, '10VfResolver', 'resolver'); s.answer = virtual_object(e, st, '12VfResolution', 'answer'); s.addrs = e.new_obj(st, 'addresses', kind='array', stride=O['IP'], layout={})
        s.p = {}; st.mem[s.options.id] = {}
        for k in PERIODS: s.p[k] = z3.Int(k); st.assume(z3.And(s.p[k] >= 0, s.p[k] < 2 ** 60)); st.mem[s.options.id][O[k]] = (8, IV(64, s=s.p[k], u=s.p[k]))
        st.assume(s.p[PERIODS[1]] <= s.p[PERIODS[2]]); st.mem[s.base.id] = {0: (8, Ptr(s.lbase, 0))}
        s.n0, s.n, s.fam = z3.Int('addresses before'), z3.Int('addresses answered'), z3.Int('family'); st.assume(z3.And(s.n0 >= 0, s.n0 < 2 ** 31, s.n >= 0, s.n < 2 ** 31, s.fam >= 0, s.fam < 2 ** 16))
        st.ghost.update(pend=(), stuck=False, asked=Z(0), ready=Z(0), walked=0, made=0, k=Z(0))
    def whole(s):
        O = s.O; vt = s.e.gobj('_ZTVN9lightstep29SatelliteDnsResolutionManagerE')
        s.st.mem[s.conn.id] = {0: (8, Ptr(vt, 16)), O['logger_']: (8, Ptr(s.logger, 0)), O['event_base_']: (8, Ptr(s.base, 0)), O['dns_resolver_']: (8, Ptr(s.resolver, 0)), O['recorder_options_']: (8, Ptr(s.options, 0)), O['family_']: (4, IV(32, s=s.fam, u=s.fam)), O['name_']: (8, Ptr(s.name, 0)), O['ip_addresses_']: (8, IV(64, u=BIG + s.n0))}; return s
    def mark(s, st, p): return s.u(s.e.load(st, s.e.norm_ptr(p), ir.INT(64)))
    def setmark(s, st, p, v): s.e.store(st, p, ir.INT(64), IV(64, u=zi(v)))
    def fresh(s, g, st, a, i): s.setmark(st, a[0], 0); return [(st, None)]
    def clear(s, g, st, a, i): s.setmark(st, a[0], 0); return [(st, None)]
    def move(s, g, st, a, i): v = s.mark(st, a[1]); s.setmark(st, a[1], 0); s.setmark(st, a[0], v); return [(st, a[0])]
    def swap(s, g, st, a, i): v, w = s.mark(st, a[0]), s.mark(st, a[1]); s.setmark(st, a[0], w); s.setmark(st, a[1], v); return [(st, None)]
    def push(s, g, st, a, i):
        t = s.fails(st); m = s.mark(st, a[0]); g.prove(st, b_and(m == st.ghost['k'], g.ptr_eq(a[1], Ptr(s.addrs, z3.simplify(s.O['IP'] * st.ghost['k'])))), 'answer: each address, in turn, once'); s.setmark(st, a[0], m + 1); st.ghost['into'] = g.norm_ptr(a[0]); return [(st, None), t]
    def foreach(s, g, st, a, i):
        """calls back with each of n addresses; each call is one step from any number of addresses collected before"""
        w = g.norm_ptr(a[1]); g.prove(st, g.ptr_eq(a[0], Ptr(s.answer, 0)), 'answer: the one given'); st.ghost['walked'] += 1; obj, call = (g.load(st, Ptr(w.obj, g.dom.off_add(w.off, k)), ir.PTR) for k in (0, 8))
        t = st.clone(); t.ghost['k'] = Z(0); out = []; none = t.clone(); none.assume(s.n == 0); out.append((none, z3.FreshBool('all'))); into = None
        t.assume(s.n > 0)
        for o, v in g.call_value(t, call, [obj, Ptr(s.addrs, 0)]):                   # the first address
            if isinstance(v, Throw): out.append((o, v)); continue
            g.cur = o; g.prove(o, zb(v), 'answer: every address'); into = o.ghost.get('into')
            if into is None: g.prove(o, False, 'answer: every address is kept'); continue
            g.prove(o, s.mark(o, into) == 1, 'answer: addresses are collected'); base = o
            k = z3.FreshInt('collected'); q = o.clone(); q.assume(z3.And(k >= 1, k < s.n)); q.ghost['k'] = k; s.setmark(q, into, k)
            for r, v in g.call_value(q, call, [obj, Ptr(s.addrs, z3.simplify(s.O['IP'] * k))]):   # any further one
                if isinstance(v, Throw): out.append((r, v)); continue
                g.cur = r; g.prove(r, zb(v), 'answer: every address'); g.prove(r, s.mark(r, into) == k + 1, 'answer: addresses are collected'); g.prove(r, len(r.ghost['pend']) == len(o.ghost['pend']), 'answer: nothing else meanwhile')
            f = o.clone(); s.setmark(f, into, s.n); f.ghost['k'] = s.n; out.append((f, z3.FreshBool('all')))
        return out
    def resolve(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.resolver, 0)), g.ptr_eq(a[1], Ptr(s.name, 0)), s.si(a[2]) == s.fam, g.ptr_eq(a[3], Ptr(s.conn, 0))), 'query: for the name and family, answered to the manager'); st.gset('asked', st.ghost['asked'] + 1); return [(st, None)]
    def make(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[1], Ptr(s.logger, 0)), g.ptr_eq(a[2], Ptr(s.base, 0)), g.ptr_eq(a[3], Ptr(s.options, s.O['dns_resolver_options']))), 'resolver: made with the options given'); t = s.fails(st); st.ghost['made'] += 1; g.store(st, a[0], ir.PTR, Ptr(s.resolver, 0)); return [(st, None), t]
    def ready(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], s.at('on_ready_callback_')), 'ready: its own callback'); g.prove(st, z3.And(s.mark(st, s.at('ip_addresses_')) > 0, s.mark(st, s.at('ip_addresses_')) < BIG), 'ready: only when there are addresses'); st.gset('ready', st.ghost['ready'] + 1); return [(st, None)]
    def take(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[1], Ptr(s.callback, 0)), g.ptr_eq(a[0], s.at('on_ready_callback_'))), 'ready: the callback given'); st.ghost['made'] += 1; return [(st, None)]


def refresh(ctx):
    """the handler that is registered to resolve again"""
    w = Dns(ctx, 'registered').whole(); cbs = set()
    for o in answer(w, T): cbs |= {f for f, _ in o.ghost['pend']}
    if len(cbs) != 1: raise Unsupported('one handler resolves again: %s' % sorted(cbs))
    return cbs.pop()
def answer(w, error):
    n = z3.Int('error length'); w.st.assume(z3.And(n >= 0, n < 2 ** 31, (n > 0) == error)); return w.e.run(findre(w.m, w.e, '^' + D + r'::OnDnsResolution\(lightstep::DnsResolution const&, opentracing::string_view\)$'), w.st, [Ptr(w.conn, 0), Ptr(w.answer, 0), Ptr(w.textobj, 0), IV(64, u=n)])


def resolution(ctx):
    engs = []; cb = refresh(ctx)
    for error in (T, F):
        w = Dns(ctx, 'OnDnsResolution, ' + ('error' if error is T else 'addresses')).whole(); e = w.e; engs.append(e); P = w.p; got = 0
        for o in C36.ends(w, answer(w, error), 'OnDnsResolution'):
            G = o.ghost; e.cur = o; m = w.mark(o, w.at('ip_addresses_')); new = e.oracle(m < BIG) is True; got += new
            e.prove(o, z3.BoolVal(len(G['pend']) == 1 or G['stuck'] and not G['pend']), 'OnDnsResolution: it is resolved again, once'); e.prove(o, G['asked'] == 0, 'OnDnsResolution: not at once')
            if new: e.prove(o, z3.And(m == w.n, w.n > 0, z3.Not(error)), 'OnDnsResolution: all addresses of the answer'); e.prove(o, G['ready'] == z3.If(w.n0 == 0, Z(1), Z(0)), 'OnDnsResolution: ready when first resolved')
            else: e.prove(o, m == BIG + w.n0, 'OnDnsResolution: otherwise the addresses are kept'); e.prove(o, G['ready'] == 0, 'OnDnsResolution: ready only when resolved')
            for f, tv in G['pend']:
                e.prove(o, f == cb, 'OnDnsResolution: what is registered resolves again')
                e.prove(o, z3.And(tv >= P[PERIODS[1]], tv <= P[PERIODS[2]]) if new else tv == P[PERIODS[0]], 'OnDnsResolution: refreshed in the time configured' if new else 'OnDnsResolution: tried again after the time configured')
        if error is F: e.prove(w.st, got > 0, 'OnDnsResolution: addresses are taken over')
    return engs


def query(ctx):
    engs = []; cb = refresh(ctx)
    w = Dns(ctx, 'Start').whole(); e = w.e; engs.append(e)
    for o in C36.ends(w, e.run(findre(w.m, e, '^' + D + r'::Start\('), w.st, [Ptr(w.conn, 0)]), 'Start'): e.cur = o; e.prove(o, z3.And(o.ghost['asked'] == 1, z3.BoolVal(not o.ghost['pend'])), 'Start: one query')
    w = Dns(ctx, 'refresh').whole(); e = w.e; engs.append(e)
    for o in C36.ends(w, w.call(cb, -1, C36.EV_TIMEOUT), 'refresh'): e.cur = o; e.prove(o, z3.And(o.ghost['asked'] == 1, z3.BoolVal(not o.ghost['pend'])), 'refresh: one query'); e.prove(o, w.mark(o, w.at('ip_addresses_')) == BIG + w.n0, 'refresh: the addresses are kept meanwhile')
    w = Dns(ctx, 'constructor'); e = w.e; engs.append(e); O = w.O
    for o in e.run(findre(w.m, e, '^' + D + r'::SatelliteDnsResolutionManager\('), w.st, [Ptr(w.conn, 0), Ptr(w.logger, 0), Ptr(w.base, 0), Ptr(w.options, 0), IV(32, s=w.fam, u=w.fam), Ptr(w.name, 0), Ptr(w.callback, 0)]):
        e.cur = o
        if o.outcome[0] == 'throw': e.prove(o, o.ghost['made'] == 0, 'constructor: throws only what the resolver throws'); continue
        L = lambda k: e.load(o, w.at(k), ir.PTR); e.prove(o, o.ghost['made'] == 2, 'constructor: a resolver and a callback')
        e.prove(o, b_and(e.ptr_eq(L('logger_'), Ptr(w.logger, 0)), e.ptr_eq(L('event_base_'), Ptr(w.base, 0)), e.ptr_eq(L('dns_resolver_'), Ptr(w.resolver, 0)), e.ptr_eq(L('recorder_options_'), Ptr(w.options, 0)), e.ptr_eq(L('name_'), Ptr(w.name, 0)), w.si(e.load(o, w.at('family_'), ir.INT(32))) == w.fam, w.mark(o, w.at('ip_addresses_')) == 0), 'constructor: keeps what it is given'); e.prove(o, z3.And(o.ghost['asked'] == 0, z3.BoolVal(not o.ghost['pend'])), 'constructor: no query yet')
    return engs


class Endpoints(C36.World):
    """the endpoints, hosts and their resolutions: host h has size(family, h) addresses; q is any host, p any position"""
    def __init__(s, ctx, name):
        s.O = O = offsets(ctx); s.m = ctx.module(SRC); s.st = st = State()
        s.size = z3.Function('addresses', I, I, I); s.addr = z3.Function('address', I, I, I, I); s.host, s.port = z3.Function('host', I, I), z3.Function('port', I, I)
        s.e = e = Engine(s.m, name=name, contracts=[
            (rx(r'^(void )?lightstep::Logger::'), noop), (rx(r'SatelliteDnsResolutionManager::ip_addresses\('), lambda g, st, a, i: [(st, Ptr(g.norm_ptr(a[0]).obj, g.dom.off_add(a[0].off, O['ip_addresses_'])))]), (rx(r'SatelliteDnsResolutionManager::name\('), s.named), (rx(r'SatelliteDnsResolutionManager::Start\('), s.started),
            (rx(V + r'empty\('), lambda g, st, a, i: [(st, s.count(st, a[0]) == 0)]), (rx(V + r'size\('), lambda g, st, a, i: [(st, IV(64, u=s.count(st, a[0])))]), (rx(V + r'operator\[\]'), s.nth),
            (lambda n, d: n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'), s.copy), (rx(r'^lightstep::IpAddress::set_port\('), s.setport), (rx(r'^std::function<void \(\)>::operator\(\)'), s.ready)])
        e.cur = st; e.candidates = int_candidates([], extra=s.cand)
        s.ne, s.nh, s.q, s.start, s.usable, s.before, s.nr = (z3.Int(k) for k in ('endpoints', 'hosts', 'any host', 'first position', 'usable position', 'skipped position', 'resolutions ready'))
        st.assume(z3.And(s.ne >= 1, s.ne < 2 ** 31, s.nh >= 1, s.nh < 2 ** 31, s.q >= 0, s.q < s.nh, s.start >= 0, s.start + s.ne < BIG, s.nr >= 0, s.nr < 2 ** 31 - 1, s.before >= s.start, s.usable >= s.start, s.usable < s.start + s.ne))
        s.man = {k: e.new_obj(st, k + ' resolutions', kind='array', stride=O['D'], layout={}, n=s.nh) for k in ('ipv4', 'ipv6')}; j = z3.Int('j'); s.idx0 = z3.Array('address_index', I, I)
        s.hosts = e.new_obj(st, 'hosts', kind='array', stride=O['H'], n=s.nh, layout={O['ipv4_resolutions']: ('ptr', lambda en, t, k: Ptr(s.man['ipv4'], z3.simplify(zi(z3.simplify(k)) * O['D']))), O['ipv6_resolutions']: ('ptr', lambda en, t, k: Ptr(s.man['ipv6'], z3.simplify(zi(z3.simplify(k)) * O['D']))), O['address_index']: ('int', 32, False)})
        st.mem[s.hosts.id] = {O['ipv4_resolutions']: z3.Lambda([j], j), O['ipv6_resolutions']: z3.Lambda([j], j), O['address_index']: s.idx0}
        s.eps = e.new_obj(st, 'endpoints', kind='array', stride=8, n=s.ne, layout={0: ('int', 32, True), 4: ('int', 16, False)}, const=True); st.mem[s.eps.id] = {0: z3.Lambda([j], s.host(j)), 4: z3.Lambda([j], s.port(j))}
        st.assume_q(z3.ForAll([j], z3.And(s.host(j) >= 0, s.host(j) < s.nh, s.port(j) >= 0, s.port(j) < 2 ** 16), patterns=[s.host(j), s.port(j)])); h, f = z3.Ints('h f'); st.assume_q(z3.ForAll([f, h], z3.And(s.size(f, h) >= 0, s.size(f, h) < 2 ** 31), patterns=[s.size(f, h)])); st.assume_q(z3.ForAll([h], z3.And(z3.Select(s.idx0, h) >= 0, z3.Select(s.idx0, h) < BIG - 1), patterns=[z3.Select(s.idx0, h)]))
        s.mgr = e.new_obj(st, 'endpoint manager', kind='struct', size=O['M']); v, x = O['m.host_managers_'], O['m.endpoints_']
        st.mem[s.mgr.id] = {v: (8, Ptr(s.hosts, 0)), v + 8: (8, Ptr(s.hosts, z3.simplify(O['H'] * s.nh))), v + 16: (8, Ptr(s.hosts, z3.simplify(O['H'] * s.nh))), x: (8, Ptr(s.eps, 0)), x + 8: (8, Ptr(s.eps, z3.simplify(8 * s.ne))), x + 16: (8, Ptr(s.eps, z3.simplify(8 * s.ne))), O['m.endpoint_index_']: (4, IV(32, u=s.start)), O['m.num_resolutions_ready_']: (4, IV(32, u=s.nr, s=s.nr))}
        s.names = e.new_obj(st, 'names', kind='array', stride=1, layout={0: ('int', 8, False)}); s.res = e.new_obj(st, 'result', kind='struct', size=O['IP'] + 16); st.ghost.update(ready=Z(0), st4=Z(0), st6=Z(0), used=None)
    def which(s, st, p):
        p = s.e.norm_ptr(p); f = 4 if p.obj is s.man['ipv4'] else 6; s.e.prove(st, p.obj in s.man.values(), 'resolutions of a host')
        h = z3.FreshInt('host'); off = zi(p.off); st.assume(h == off / s.O['D']); return Z(f), h
    def count(s, st, p): f, h = s.which(st, p); return s.size(f, h)
    def named(s, g, st, a, i): f, h = s.which(st, a[0]); return [(st, Ptr(s.names, z3.simplify(h)))]
    def started(s, g, st, a, i): f, h = s.which(st, a[0]); k = 'st%s' % f; st.gset(k, st.ghost[k] + z3.If(h == s.q, Z(1), Z(0))); return [(st, None)]
    def nth(s, g, st, a, i):
        f, h = s.which(st, a[0]); k = s.u(a[1]); g.prove(st, z3.And(k >= 0, k < s.size(f, h)), 'address: one there is'); o = g.new_obj(st, 'address', kind='struct', size=s.O['IP']); v = z3.FreshInt('address'); st.assume(z3.And(v >= 0, v < 2 ** 32)); st.mem[o.id] = {0: (8, IV(64, u=v))}; st.ghost['used'] = (f, h, k, v); return [(st, Ptr(o, 0))]
    def copy(s, g, st, a, i):
        if g.oracle(s.u(a[2]) == s.O['IP']) is not True: raise Unsupported('memcpy of %s bytes' % (a[2],))
        v = g.load(st, a[1], ir.INT(64)); g.store(st, a[0], ir.INT(64), v); return [(st, None)]
    def setport(s, g, st, a, i): v = s.u(g.load(st, a[0], ir.INT(64))); g.store(st, a[0], ir.INT(64), IV(64, u=v % 2 ** 32 + 2 ** 32 * (s.u(a[1]) + 1))); return [(st, None)]
    def ready(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.mgr, s.O['m.on_ready_callback_'])), 'ready: its own callback'); st.gset('ready', st.ghost['ready'] + 1); return [(st, None)]
    def empty_at(s, p): h = s.host(p % s.ne); return z3.And(s.size(Z(4), h) == 0, s.size(Z(6), h) == 0)
    def cand(s, e, view):
        G = lambda w: w.st.ghost; out = [('no address chosen', lambda w: z3.BoolVal(G(w)['used'] is None))]
        for n, t in view.ints():
            x = lambda w, n=n: zi(w.term(w.get(n)))
            out += [('%s has not passed the usable one' % str(n), lambda w, x=x: z3.And(x(w) >= s.start, x(w) <= s.usable)), ('%s passed only empty ones' % str(n), lambda w, x=x: z3.Implies(s.before < x(w), s.empty_at(s.before)))]
            for c in (1, s.O['H']): out += [('%s * %d in range' % (str(n), c), lambda w, x=x, c=c: z3.And(x(w) % c == 0, x(w) <= c * s.nh))] + [('%s iff passed by %s / %d' % (k, str(n), c), lambda w, x=x, c=c, k=k: G(w)[k] == z3.If(c * s.q < x(w), Z(1), Z(0))) for k in ('st4', 'st6')]
        return out


def request(ctx):
    w = Endpoints(ctx, 'RequestEndpoint'); e = w.e; O = w.O; w.st.assume(z3.Not(w.empty_at(w.usable)))
    for o in C36.ends(w, e.run(findre(w.m, e, '^' + M + r'::RequestEndpoint\(\)$'), w.st, [Ptr(w.res, 0), Ptr(w.mgr, 0)]), 'RequestEndpoint'):
        e.cur = o; i1 = w.u(e.load(o, Ptr(w.mgr, O['m.endpoint_index_']), ir.INT(32))); r = i1 - 1; k = r % w.ne; h = w.host(k); u = o.ghost['used']; pr = lambda f, t: e.prove(o, f, 'RequestEndpoint: ' + t)
        if u is None: pr(False, 'an address is chosen'); continue
        f, hh, a, v = u; pr(z3.And(r >= w.start, r <= w.usable), 'the position moves on to a usable endpoint, within one round'); pr(z3.Implies(w.before < r, w.empty_at(w.before)), 'only endpoints without addresses are skipped')
        pr(hh == h, 'an address of the endpoint\'s host'); pr(f == z3.If(w.size(Z(4), h) > 0, Z(4), Z(6)), 'IPv4 if there is'); n = w.size(f, h); i0 = z3.Select(w.idx0, h); pr(a == i0 % n, 'the addresses of a host in turn')
        idx1 = o.mem[w.hosts.id][O['address_index']]; pr(z3.Select(idx1, h) == i0 + 1, 'next time its next address'); pr(z3.Implies(w.q != h, z3.Select(idx1, w.q) == z3.Select(w.idx0, w.q)), 'no other host moves on')
        pr(w.u(e.load(o, Ptr(w.res, 0), ir.INT(64))) == v + 2 ** 32 * (w.port(k) + 1), 'that address, with the endpoint\'s port'); pr(e.ptr_eq(e.load(o, Ptr(w.res, (O['IP'] + 7) // 8 * 8), ir.PTR), Ptr(w.names, h)), 'named as the host')
    return e


def begin(ctx):
    engs = []; w = Endpoints(ctx, 'Start'); e = w.e; engs.append(e)
    for o in C36.ends(w, e.run(findre(w.m, e, '^' + M + r'::Start\(\)$'), w.st, [Ptr(w.mgr, 0)]), 'Start'): e.cur = o; e.prove(o, z3.And(o.ghost['st4'] == 1, o.ghost['st6'] == 1), 'Start: each host is resolved, for both families, once')
    w = Endpoints(ctx, 'OnResolutionReady'); e = w.e; engs.append(e)
    for o in C36.ends(w, e.run(findre(w.m, e, '^' + M + r'::OnResolutionReady\(\)$'), w.st, [Ptr(w.mgr, 0)]), 'OnResolutionReady'): e.cur = o; e.prove(o, o.ghost['ready'] == z3.If(w.nr == 0, Z(1), Z(0)), 'OnResolutionReady: told at the first, once'); e.prove(o, w.si(e.load(o, Ptr(w.mgr, w.O['m.num_resolutions_ready_']), ir.INT(32))) == w.nr + 1, 'OnResolutionReady: counted')
    return engs


class Make(Endpoints):
    """making the hosts: a resolution is represented by the number of its name and its family"""
    def __init__(s, ctx):
        super().__init__(ctx, 'SatelliteEndpointManager'); e, st, O = s.e, s.st, s.O; VH = r'std::vector<lightstep::SatelliteEndpointManager::SatelliteHostManager.*>::'
        ANY = r'std::vector<(std::pair<int, unsigned short>|char const\*|lightstep::SatelliteEndpointManager::SatelliteHostManager),'
        e.contracts[:0] = [(rx(r'^std::function<void \(\)>::function\(std::function<void \(\)>&&\)'), s.take), (rx(r'^std::function<void \(\)>::~function'), noop), (rx(r'^std::function<void \(\)>::function<lightstep::'), s.bind), (rx('^' + ANY + r'.*>::(vector\(\)|~vector)'), noop), (rx(r'^std::pair<std::vector<.*::~pair'), noop), (rx(r'^std::vector<std::pair<std::__cxx11::basic_string<.*>::empty\('), s.none), (rx(r'^std::runtime_error::runtime_error\('), s.error), (rx(r'^operator new\('), s.new), (rx(r'^operator delete\('), noop),
            (rx(r'^lightstep::SeparateEndpoints\('), s.separate), (rx(r'^std::tuple<std::vector<char const\*.* std::tie<'), s.tie), (rx(r'^std::enable_if<.*std::tuple<std::vector<char const\*.*::operator='), s.assign), (rx(r'^' + VH + r'reserve'), s.mayfail), (rx(r'^(.* )?' + VH + r'(emplace_back|push_back)'), s.keep),
            (rx(r'^' + D + r'::SatelliteDnsResolutionManager\('), s.resolution), (rx(r'^std::default_delete<.*SatelliteDnsResolutionManager>::operator\(\)'), noop), (rx(r'^std::unique_ptr<lightstep::SatelliteDnsResolutionManager.*::~unique_ptr'), noop)]
        o = lambda n, k=64: e.new_obj(st, n, kind='struct', size=k); s.logger, s.base, s.options, s.topt, s.callback = o('logger'), o('event base'), o('options', O['P']), o('tracer options', O['TO']), o('callback'); st.mem[s.mgr.id] = {}; j = z3.Int('j')
        s.list = e.new_obj(st, 'host names', kind='array', stride=8, layout={0: ('ptr', lambda en, t, k: Ptr(s.names, z3.simplify(k)))}, n=s.nh, const=True); st.mem[s.list.id] = {0: z3.Lambda([j], j)}; st.ghost.update(sep=None, tied=None, assigned=False, kept=Z(0), made=0, threw=False)
    def fails(s, st): t, v = super().fails(st); t.gset('broke', T); return t, v
    def take(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.mgr, s.O['m.on_ready_callback_'])), g.ptr_eq(a[1], Ptr(s.callback, 0))), 'constructor: keeps the callback'); st.ghost['made'] += 1; return [(st, None)]
    def bind(s, g, st, a, i): t = s.fails(st); f = g.norm_ptr(a[1]); g.prove(st, g.ptr_eq(g.load(st, f, ir.PTR), Ptr(s.mgr, 0)), 'constructor: each host tells the manager'); g.store(st, a[0], ir.INT(64), IV(64, u=Z(77))); return [(st, None)] + ([] if 'noexcept' in i else [])
    def none(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.topt, s.O['satellite_endpoints'])), 'constructor: the endpoints configured'); return [(st, z3.Bool('no endpoints'))]
    def new(s, g, st, a, i): t = s.fails(st); n = g.dom.u(g.as_int(a[0])); return [(st, Ptr(g.new_obj(st, 'new', kind='struct', size=n if isinstance(n, int) else None, heap=True), 0)), t]
    def separate(s, g, st, a, i): t = s.fails(st); g.prove(st, g.ptr_eq(a[1], Ptr(s.topt, s.O['satellite_endpoints'])), 'constructor: the endpoints configured'); st.ghost['sep'] = g.norm_ptr(a[0]); return [(st, None), t]
    def tie(s, g, st, a, i): st.ghost['tied'] = tuple(g.norm_ptr(x) for x in a[-2:]); return [(st, None)]
    def assign(s, g, st, a, i):
        p, q = st.ghost['tied'] or (NULL, NULL); g.prove(st, b_and(st.ghost['sep'] is not None and g.ptr_eq(a[1], st.ghost['sep']), g.ptr_eq(q, Ptr(s.mgr, s.O['m.endpoints_']))), 'constructor: the endpoints are taken over'); st.ghost['assigned'] = True
        for k, v in ((0, 0), (8, s.nh), (16, s.nh)): g.store(st, Ptr(p.obj, g.dom.off_add(p.off, k)), ir.PTR, Ptr(s.list, z3.simplify(8 * zi(v))))
        return [(st, a[0])]
    def resolution(s, g, st, a, i):
        this, lg, b, op, fam, name, fn = a; g.prove(st, b_and(g.ptr_eq(lg, Ptr(s.logger, 0)), g.ptr_eq(b, Ptr(s.base, 0)), g.ptr_eq(op, Ptr(s.options, 0)), s.u(g.load(st, fn, ir.INT(64))) == 77), 'constructor: each host resolved as configured'); nm = g.norm_ptr(name); g.prove(st, nm.obj is s.names, 'constructor: by a host name'); t = s.fails(st); g.store(st, this, ir.INT(64), IV(64, u=zi(nm.off) + BIG * s.u(fam))); return [(st, None), t]
    def keep(s, g, st, a, i):
        t = s.fails(st); O = s.O; k = st.ghost['kept']; h = g.norm_ptr(a[1]); g.prove(st, g.ptr_eq(a[0], Ptr(s.mgr, O['m.host_managers_'])), 'constructor: into the hosts')
        for f, n in ((2, 'ipv4_resolutions'), (10, 'ipv6_resolutions')): q = Ptr(h.obj, g.dom.off_add(h.off, O[n])); r = g.norm_ptr(g.load(st, q, ir.PTR)); g.prove(st, r.obj is not None and s.u(g.load(st, r, ir.INT(64))) == k + BIG * f, 'constructor: hosts in order, for both families'); g.store(st, q, ir.PTR, NULL)
        g.prove(st, s.u(g.load(st, Ptr(h.obj, g.dom.off_add(h.off, O['address_index'])), ir.INT(32))) == 0, 'constructor: from its first address'); st.gset('kept', k + 1); return [(st, None if i['rt'][0] == 'void' else g.fresh_val(st, i['rt'], 'kept')), t]
    def cand(s, e, view):
        G = lambda w: w.st.ghost; out = [('as failed as it was', lambda w: zb(G(w)['broke']) == zb(w.entry.ghost['broke']))]
        for n, t in view.ints(): x = lambda w, n=n: zi(w.term(w.get(n))); out += [('%s at the host kept last' % str(n), lambda w, x=x: x(w) == 8 * G(w)['kept']), ('%s in range' % str(n), lambda w, x=x: z3.And(x(w) >= 0, x(w) <= 8 * s.nh))]
        return out


def construct(ctx):
    w = Make(ctx); e = w.e; w.st.ghost['broke'] = F; n = 0; O = w.O
    for o in e.run(findre(w.m, e, '^' + M + r'::SatelliteEndpointManager\([^$]*$'), w.st, [Ptr(w.mgr, 0), Ptr(w.logger, 0), Ptr(w.base, 0), Ptr(w.topt, 0), Ptr(w.options, 0), Ptr(w.callback, 0)]):
        e.cur = o; G = o.ghost; no = z3.Bool('no endpoints')
        if o.outcome[0] == 'throw': e.prove(o, z3.Or(no, zb(G['broke'])), 'constructor: throws only without endpoints or memory'); continue
        n += 1; e.prove(o, z3.And(z3.Not(no), z3.BoolVal(G['assigned'] and G['made'] == 1), G['kept'] == w.nh), 'constructor: every host is resolved'); e.prove(o, z3.And(w.u(e.load(o, Ptr(w.mgr, O['m.endpoint_index_']), ir.INT(32))) == 0, w.u(e.load(o, Ptr(w.mgr, O['m.num_resolutions_ready_']), ir.INT(32))) == 0), 'constructor: from the start')
    e.prove(w.st, n > 0, 'constructor: succeeds'); return e


def units(ctx):
    n, m = 'SatelliteDnsResolutionManager::', 'SatelliteEndpointManager::'
    return [Unit('OnDnsResolution', resolution, [n + x for x in ('OnDnsResolution', 'OnFailure', 'ScheduleRefresh')] + ['EventBase::OnTimeout', 'ToTimeval'], 900), Unit('queries', query, [n + x for x in ('SatelliteDnsResolutionManager', 'Start', 'OnRefresh')], 900),
            Unit('constructor', construct, [m + 'SatelliteEndpointManager'], 900), Unit('RequestEndpoint', request, [m + 'RequestEndpoint'], 900), Unit('Start', begin, [m + 'Start', m + 'OnResolutionReady'], 900)]


def natives(ctx): return C36.natives(ctx, ('ADDRESSES',), 'C37')
