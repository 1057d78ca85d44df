"""C42: making a tracer - the tracer asked for, or none; nothing lost, nothing owned twice, whatever fails."""
import re
from cvg.runner import Unit, Native, REPO
from cvg.util import *

ASSUMPTIONS = ['logging does not throw', 'exceptions derive from std::exception', 'the OpenTracing headers are not installed: stand-ins with the documented interface are used (harness/stubs)', 'std::chrono and string members of the options are passed on by their move constructor', 'a transporter given has std::unique_ptr\'s default deleter']
TRUSTED = ['the constructors of recorders and tracers, by contract: they take over what they are given (their own behaviour is C30, C33, C35, C38, C39); one that throws may or may not have taken it over', 'MakePropagationOptions is C41, MakeStreamRecorder C38, the gRPC transporter is not verified', 'std::shared_ptr counts its owners; std::unordered_map is a map']
SRC = ['harness/make_tracer.cpp', 'src/tracer/tracer.cpp']
Z = z3.IntVal; OPT = 'lightstep::LightStepTracerOptions'
SPL = r'^std::shared_ptr<lightstep::Logger>::'; SPT = r'^std::shared_ptr<lightstep::LightStepTracer>::'; ACC = r'^std::__shared_ptr_access<lightstep::Logger.*>::'
STR = r'^std::__cxx11::basic_string<char,.*>::'; TAGS = r'std::unordered_map<std::__cxx11::basic_string<char.*>, opentracing::Value.*>::'; VEC = r'^std::vector<std::pair<opentracing::string_view, opentracing::Value>.*>::'
UPT = r'^std::default_delete<lightstep::(Sync|Async|LegacyAsync|)Transporter>::operator\(\)'
FIELDS = ('component_name', 'tags', 'verbose', 'use_thread', 'use_stream_recorder', 'collector_plaintext', 'transporter', 'ssl_root_certificates', 'logger_sink')
NT, SZ = 4, 80          # default tags; size of one
DEFAULT = ('lightstep.tracer_platform', 'lightstep.tracer_platform_version', 'lightstep.tracer_version', 'lightstep.opentracing_version')


class World:
    def __init__(s, ctx, name):
        s.O = ctx.offsets(['lightstep/tracer.h', 'tracer/propagation/propagation_options.h'], {k: (OPT, k) for k in FIELDS}, {'OPT': OPT, 'R': 'lightstep::PropagationOptions'}); O = s.O
        s.m = ctx.module(SRC); s.st = st = State()
        ctor = lambda k: (rx(r'^lightstep::%s::%s\(' % (k, k)), s.recorder(k))
        s.e = e = Engine(s.m, name=name, contracts=[
            (rx(r'^(void )?lightstep::Logger::set_level'), s.level), (rx(r'^(void )?lightstep::Logger::'), s.log), (rx(r'^VfError::what'), lambda g, st, a, i: [(st, Ptr(s.textobj, 0))]), ('fprintf', noop), ('__cxa_end_catch', noop),
            (rx(r'.*std::make_shared<lightstep::Logger'), s.make_logger), (rx(SPL + r'shared_ptr\(std::shared_ptr<lightstep::Logger> const&\)'), s.share), (rx(SPL + r'shared_ptr\(std::shared_ptr<lightstep::Logger>&&\)'), s.pass_on), (rx(SPL + r'~shared_ptr\('), s.unshare), (rx(ACC + r'operator(->|\*)'), s.deref), (rx(SPL + r'(operator(->|\*)|get)\('), s.deref),
            (rx(r'^lightstep::GetDefaultTags\('), lambda g, st, a, i: [(st, Ptr(s.defaults, 0)), s.fails(st)]), (rx(VEC + r'c?begin\(\)'), lambda g, st, a, i: [(st, Ptr(s.elts, Z(0)))]), (rx(VEC + r'c?end\(\)'), lambda g, st, a, i: [(st, Ptr(s.elts, Z(NT * SZ)))]),
            (rx(VEC + r'(operator\[\]|at)\('), s.element), (rx(VEC + r'size\(\)'), lambda g, st, a, i: [(st, g.dom.const(64, NT))]), (rx(VEC + r'(front|data)\('), lambda g, st, a, i: [(st, Ptr(s.elts, Z(0)))]), (rx(r'^opentracing::string_view::operator std::'), s.text), (rx(r'^(.* )?' + TAGS + r'operator\[\]'), s.tag), (rx(r'^opentracing::Value::operator=\('), s.assign), (rx(r'.*' + TAGS + r'emplace'), s.component),
            (rx(STR + r'empty\(\)'), s.isempty), (rx(STR + r'basic_string\(char const\*, unsigned long'), s.cert), (rx(STR + r'operator=\(std::__cxx11::basic_string<.*&&\)'), s.certs), (rx(STR + r'~basic_string'), noop), (rx(r'^std::(__new_)?allocator<char>::|^std::__new_allocator<'), noop), (rx(r'^lightstep::GetProgramName'), s.program),
            ('__dynamic_cast', s.cast), (rx(UPT), s.dead), (rx(r'^std::default_delete<lightstep::Recorder>::operator\(\)'), s.dead_recorder), ('operator new(unsigned long)', s.alloc), (rx(r'^operator delete\('), noop),
            (rx(r'^lightstep::LightStepTracerOptions::LightStepTracerOptions\(lightstep::LightStepTracerOptions&&\)'), s.move_options), (rx(r'^lightstep::LightStepTracerOptions::~LightStepTracerOptions'), s.end_options),
            (rx(r'^lightstep::MakePropagationOptions\('), s.propagation), (rx(r'^lightstep::PropagationOptions::~PropagationOptions'), noop), (rx(r'^lightstep::MakeGrpcTransporter\('), s.grpc), (rx(r'^lightstep::MakeStreamRecorder\('), s.stream),
            ctor('AutoRecorder'), ctor('ManualRecorder'), ctor('LegacyManualRecorder'), (rx(r'^lightstep::TracerImpl::TracerImpl\('), s.tracer('new')), (rx(r'^lightstep::LegacyTracerImpl::LegacyTracerImpl\('), s.tracer('legacy')),
            (rx(SPT + r'shared_ptr\((decltype\(nullptr\)|std::nullptr_t)\)'), lambda g, st, a, i: s.put(st, a[0], NULL)), (rx(SPT + r'shared_ptr<lightstep::(Legacy)?TracerImpl, void>\('), s.own)], candidates=int_candidates([], (), s.cand))
        e.demangled['_Znwm'] = 'operator new(unsigned long)'; e.cur = st; e.ranks = lambda en, view: [('tags left by %s' % (n,), lambda w, n=n: NT * SZ - zi(w.term(w.get(n)))) for n, t in view.ints()] + [('tags not yet counted by %s' % (n,), lambda w, n=n: NT - zi(w.term(w.get(n)))) for n, t in view.ints()]; e.total = True
        o = lambda n, k=64, **kw: e.new_obj(st, n, kind='struct', size=k, **kw)
        s.out, s.opt, s.logger, s.textobj, s.defaults, s.transporter, s.grpcobj = o('result', 16), o('options', O['OPT']), o('logger'), o('message'), o('default tags'), o('transporter', heap=True), o('gRPC transporter', heap=True)
        s.elts = e.new_obj(st, 'elements', kind='array', stride=1, layout={0: ('int', 8, False)}, n=Z(NT * SZ)); st.mem[s.elts.id] = {0: z3.Array('unread', z3.IntSort(), z3.IntSort())}
        s.cell = o('tag')
        B = z3.Bool; s.verbose, s.thread, s.streaming, s.plain, s.given, s.sync, s.async_, s.legacy, s.named, s.nossl = (B(x) for x in ('verbose', 'use_thread', 'use_stream_recorder', 'plaintext', 'transporter given', 'is Sync', 'is Async', 'is LegacyAsync', 'named', 'no certificates'))
        s.recorders = {}; s.tracers = {}
        st.ghost.update(refs=0, broke=False, level=None, key=None, props=None, moved=False, owner=None, cowner=None, dead=(), comp=0, copies=(), rec=None)
        for j in range(NT): st.ghost['tag%d' % j] = z3.BoolVal(False)
        b = lambda x: (1, IV(8, u=z3.If(x, Z(1), Z(0))))
        st.mem[s.opt.id] = {O['verbose']: b(s.verbose), O['use_thread']: b(s.thread), O['use_stream_recorder']: b(s.streaming), O['collector_plaintext']: b(s.plain)}
    def fails(s, st): t = st.clone(); t.ghost['broke'] = True; return (t, Throw('_ZTISt13runtime_error', Ptr(virtual_object(s.e, t, '7VfError', 'exception'), 0)))
    def u(s, x): return zi(s.e.dom.u(s.e.as_int(x)))
    def put(s, st, p, v): s.e.store(st, p, ir.PTR, v); return [(st, None)]
    def get(s, st, p): return s.e.norm_ptr(s.e.load(st, p, ir.PTR))
    # ---- the logger
    def make_logger(s, g, st, a, i): t = s.fails(st); g.prove(st, g.ptr_eq(a[1], Ptr(s.opt, s.O['logger_sink'])), 'logger: writes where it is told to'); st.ghost['refs'] += 1; return s.put(st, a[0], Ptr(s.logger, 0)) + [t]
    def alive(s, st, why): s.e.prove(st, st.ghost['refs'] > 0, 'logger: alive ' + why)
    def level(s, g, st, a, i): s.alive(st, 'when used'); st.ghost['level'] = zi(g.dom.s(g.as_int(a[1]))); return [(st, None)]
    def log(s, g, st, a, i): s.alive(st, 'when used'); g.prove(st, g.ptr_eq(a[0], Ptr(s.logger, 0)), 'logger: the one made'); return [(st, None)]
    def share(s, g, st, a, i): p = s.get(st, a[1]); st.ghost['refs'] += 1 if p.obj is not None else 0; return s.put(st, a[0], p)
    def pass_on(s, g, st, a, i): p = s.get(st, a[1]); s.put(st, a[1], NULL); return s.put(st, a[0], p)
    def unshare(s, g, st, a, i): st.ghost['refs'] -= 1 if s.get(st, a[0]).obj is not None else 0; return [(st, None)]
    def deref(s, g, st, a, i): p = s.get(st, a[0]); g.prove(st, p.obj is s.logger, 'logger: not one that was passed on'); return [(st, Ptr(s.logger, 0))]
    # ---- tags
    def text(s, g, st, a, i):
        p = g.norm_ptr(a[1])
        if p.obj is not s.elts: raise Unsupported('another text')
        t = s.fails(st); g.store(st, a[0], ir.PTR, p); return [(st, None), t]
    def element(s, g, st, a, i):
        k = s.u(a[1]); g.prove(st, k < NT, 'tags: the index of one'); return [(st, Ptr(s.elts, z3.simplify(k * SZ)))]
    def tag(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[0], Ptr(s.opt, s.O['tags'])), 'tags: those of the options'); p = s.get(st, a[1])
        if p.obj is not s.elts: raise Unsupported('another tag')
        t = s.fails(st); st.gset('at', zi(p.off)); return [(st, Ptr(s.cell, 0)), t]
    def assign(s, g, st, a, i):
        p = g.norm_ptr(a[1]); g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.cell, 0)), p.obj is s.elts), 'tags: a default one is set')
        if p.obj is not s.elts: raise Unsupported('another value')
        g.prove(st, zi(p.off) == st.ghost['at'] + 16, 'tags: each with its own value')
        for j in range(NT): st.gset('tag%d' % j, z3.Or(st.ghost['tag%d' % j], st.ghost['at'] == j * SZ))
        return [(st, a[0])]
    def component(s, g, st, a, i):
        t = s.fails(st); k = g.norm_ptr(a[1]); v = g.norm_ptr(a[2]); named = g.ptr_eq(v, Ptr(s.opt, s.O['component_name'])); p = NULL if v.obj is s.opt else s.get(st, v)
        g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.opt, s.O['tags'])), k.obj is not None and k.obj.name.find('component_name_key') >= 0), 'component: its tag'); g.prove(st, z3.If(s.named, zb(named), zb(p.obj is s.textobj)), 'component: the name given, or else that of the program'); st.ghost['comp'] += 1
        return [(st, (NULL, IV(8, u=z3.FreshInt('inserted')))), t]
    def program(s, g, st, a, i): t = s.fails(st); return s.put(st, a[0], Ptr(s.textobj, 0)) + [t]
    def isempty(s, g, st, a, i):
        for f, x in (('component_name', z3.Not(s.named)), ('ssl_root_certificates', s.nossl)):
            if s.same(st, a[0], Ptr(s.opt, s.O[f])): return [(st, x)]
        raise Unsupported('another string')
    def same(s, st, p, q): return z3.is_true(z3.simplify(zb(s.e.ptr_eq(p, q))))
    def cert(s, g, st, a, i): return [(st, None), s.fails(st)]
    def certs(s, g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.opt, s.O['ssl_root_certificates'])), s.nossl), 'certificates: only if none are given'); return [(st, a[0])]
    # ---- ownership
    def cast(s, g, st, a, i):
        p = g.norm_ptr(a[0]); t = g.norm_ptr(a[2]).obj.name; g.prove(st, p.obj is s.transporter, 'transporter: the one given')
        for k, b in (('15SyncTransporter', s.sync), ('22LegacyAsyncTransporter', s.legacy), ('16AsyncTransporter', s.async_)):
            if k in t: u = st.clone(); st.assume(b); u.assume(z3.Not(b)); return [(st, p), (u, NULL)]
        raise Unsupported('dynamic_cast to ' + t)
    def kill(s, st, p):
        p = s.e.norm_ptr(p)
        if p.obj is None: return
        s.e.prove(st, p.obj not in st.ghost['dead'] and p.obj in (s.transporter, s.grpcobj), 'transporter: destroyed once'); st.ghost['dead'] += (p.obj,)
    def dead(s, g, st, a, i): s.kill(st, a[1]); return [(st, None)]
    def end_recorder(s, st, o):
        s.alive(st, 'as long as the recorder'); s.e.prove(st, o in s.recorders and o not in st.ghost['dead'], 'recorder: destroyed once'); st.ghost['dead'] += (o,)
        if st.ghost['owner'] is not None and st.ghost['owner'][0] is o and st.ghost['owner'][1] is not None: s.kill(st, Ptr(st.ghost['owner'][1], 0))
    def dead_recorder(s, g, st, a, i):
        p = g.norm_ptr(a[1])
        if p.obj is not None: s.end_recorder(st, p.obj)
        return [(st, None)]
    def alloc(s, g, st, a, i): n = g.dom.u(g.as_int(a[0])); t = s.fails(st); return [(st, Ptr(g.new_obj(st, 'new', kind='struct', size=n if isinstance(n, int) else None, heap=True), 0)), t]
    def options(s, st, p, why):
        """the options, as complete as they will be, unless they were moved from"""
        q = s.e.norm_ptr(p); s.e.prove(st, b_and(q.obj is s.opt, not st.ghost['moved']) if q.obj is s.opt else q.obj in st.ghost['copies'], why + ': from the options given')
        s.e.prove(st, z3.And([st.ghost['tag%d' % j] for j in range(NT)] + [zb(st.ghost['comp'] == 1)]), why + ': with the tags of the tracer'); s.e.prove(st, (st.ghost['level'] == z3.If(s.verbose, 2, 4)) if st.ghost['level'] is not None else False, why + ': the logger is as verbose as asked for')
    def move_options(s, g, st, a, i):
        s.options(st, a[1], 'options'); st.ghost['moved'] = True; p = g.norm_ptr(a[0]); st.ghost['copies'] += (p.obj,); f = s.O['transporter']; src = Ptr(s.opt, f)
        if not isinstance(p.off, int) or p.off != 0: raise Unsupported('options inside another object')
        t = s.get(st, src); s.put(st, src, NULL); return s.put(st, Ptr(p.obj, f), t)
    def end_options(s, g, st, a, i):
        p = g.norm_ptr(a[0]); s.kill(st, s.get(st, Ptr(p.obj, s.O['transporter']))); return [(st, None)]
    def propagation(s, g, st, a, i): t = s.fails(st); s.options(st, a[1], 'propagation'); st.ghost['props'] = g.norm_ptr(a[0]).obj; return [(st, None), t]
    def grpc(s, g, st, a, i):
        t = s.fails(st); s.options(st, a[2], 'gRPC'); g.prove(st, g.ptr_eq(a[1], Ptr(s.logger, 0)), 'gRPC: logs where it is told to'); g.prove(st, z3.Not(s.given), 'gRPC: only without a transporter given'); st.ghost['grpc'] = True; return s.put(st, a[0], Ptr(s.grpcobj, 0)) + [t]
    def stream(s, g, st, a, i):
        t = s.fails(st); s.options(st, a[2], 'recorder'); g.prove(st, g.ptr_eq(a[1], Ptr(s.logger, 0)), 'recorder: logs where it is told to'); s.alive(st, 'when the recorder is made'); st.ghost['moved'] = True; o = g.new_obj(st, 'recorder', kind='struct', size=64, heap=True); s.recorders[o] = 'StreamRecorder'; st.ghost['owner'] = (o, None)
        return s.put(st, a[0], Ptr(o, 0)) + [t]
    def recorder(s, k):
        def f(g, st, a, i):
            s.options(st, a[2], 'recorder'); g.prove(st, g.ptr_eq(a[1], Ptr(s.logger, 0)), 'recorder: logs where it is told to'); s.alive(st, 'when the recorder is made'); p = s.get(st, a[3]); g.prove(st, p.obj is not None and p.obj in (s.transporter, s.grpcobj) and p.obj not in st.ghost['dead'], 'recorder: with its transporter'); q = g.norm_ptr(a[2])
            if q.obj is s.opt: st.ghost['moved'] = True; g.prove(st, s.get(st, Ptr(s.opt, s.O['transporter'])).obj is not p.obj, 'transporter: owned once')
            t = s.fails(st); w = s.fails(st); s.kill(w[0], p); s.put(w[0], a[3], NULL); o = g.norm_ptr(a[0]).obj; s.recorders[o] = k; st.ghost['owner'] = (o, p.obj); s.put(st, a[3], NULL); return [(st, None), t, w]
        return f
    def tracer(s, k):
        def f(g, st, a, i):
            g.prove(st, s.get(st, a[1]).obj is s.logger, 'tracer: has the logger'); s.alive(st, 'in the tracer'); g.prove(st, g.norm_ptr(a[2]).obj is st.ghost['props'] and st.ghost['props'] is not None, 'tracer: with the formats of its options'); p = s.get(st, a[3]); g.prove(st, p.obj in s.recorders and p.obj not in st.ghost['dead'], 'tracer: with a recorder')
            s.put(st, a[1], NULL); s.put(st, a[3], NULL); s.tracers[g.norm_ptr(a[0]).obj] = (k, p.obj); return [(st, None)]
        return f
    def end_tracer(s, st, o): s.end_recorder(st, s.tracers[o][1]); st.ghost['refs'] -= 1
    def own(s, g, st, a, i):
        p = g.norm_ptr(a[1]); g.prove(st, p.obj in s.tracers, 'tracer: the one made'); t = s.fails(st); s.end_tracer(t[0], p.obj); return s.put(st, a[0], p) + [t]
    def cand(s, e, view):
        out = []; G = lambda w: w.st.ghost
        for name, t in view.ints():
            p = view.get(name)
            if not isinstance(p, Ptr):
                n = lambda w, name=name: zi(w.term(w.get(name)))
                out += [('%s counts tags' % (name,), lambda w, n=n: z3.And(n(w) >= 0, n(w) <= NT))] + [('tag %d set when %s is past it' % (j, name), lambda w, j=j, n=n: G(w)['tag%d' % j] == (n(w) > j)) for j in range(NT)]
                continue
            if not (isinstance(p, Ptr) and p.obj is s.elts): continue
            off = lambda w, name=name: zi(w.term(w.get(name)))
            out += [('%s at a tag' % (name,), lambda w, off=off: z3.And(off(w) % SZ == 0, off(w) >= 0, off(w) <= NT * SZ))]
            out += [('tag %d set by %s' % (j, name), lambda w, j=j, off=off: G(w)['tag%d' % j] == (off(w) > j * SZ)) for j in range(NT)]
        return out


def make(ctx, given):
    s = World(ctx, 'make'); e, st, O = s.e, s.st, s.O; st.assume(s.given == given); st.mem[s.opt.id][O['transporter']] = (8, Ptr(s.transporter, 0) if given else NULL); st.writes = frozenset(); st.gwrites = frozenset(); e.cur = st; st.ghost['grpc'] = False
    outs = returns(e, e.run(findre(s.m, e, r'^lightstep::MakeLightStepTracer\('), st, [Ptr(s.out, 0), Ptr(s.opt, 0)]), 'make'); reachable(e, outs)
    want = {'StreamRecorder': z3.And(s.thread, s.streaming, s.plain, z3.Not(s.given)), 'AutoRecorder': z3.And(s.thread, z3.Not(s.streaming), z3.Or(z3.Not(s.given), s.sync)), 'ManualRecorder': z3.And(z3.Not(s.thread), s.given, s.async_), 'LegacyManualRecorder': z3.And(z3.Not(s.thread), s.given, z3.Not(s.async_), s.legacy)}
    for o in outs:
        e.cur = o; G = o.ghost; p = s.get(o, Ptr(s.out, 0)); left = s.get(o, Ptr(s.opt, O['transporter'])); dead = G['dead']
        if p.obj is None:
            e.prove(o, zb(G['broke']) if G['broke'] else z3.Not(z3.Or(list(want.values()))), 'make: a tracer, unless the options contradict each other or something fails'); e.prove(o, G['refs'] == 0, 'make: the logger goes with a failure')
            if given: e.prove(o, (left.obj is s.transporter) != (dead.count(s.transporter) == 1), 'make: a transporter given is still the options\', or destroyed')
            e.prove(o, not G['grpc'] or dead.count(s.grpcobj) == 1, 'make: nothing is left behind by a failure')
            e.prove(o, G['owner'] is None or dead.count(G['owner'][0]) == 1, 'make: no recorder is left behind by a failure')
        else:
            k, r = s.tracers[p.obj]; kind = s.recorders[r]
            e.prove(o, b_and(want[kind], not G['broke']), 'make: the recorder asked for'); e.prove(o, k == ('legacy' if kind in ('AutoRecorder', 'LegacyManualRecorder') else 'new'), 'make: the tracer that records as its recorder expects')
            e.prove(o, G['refs'] == 1 and not dead, 'make: the tracer owns logger and recorder'); e.prove(o, left.obj is None, 'make: a transporter given is the recorder\'s alone')
            e.prove(o, G['owner'][0] is r and G['owner'][1] is (None if kind == 'StreamRecorder' else s.transporter if given else s.grpcobj), 'make: the recorder has the transporter')
    return e


def tags(ctx):
    """the default tags and the key of the component name"""
    m = ctx.module(SRC); st = State(); seen = []
    def const(g, p, n=None):
        p = g.norm_ptr(p)
        if p.obj is None or getattr(p.obj, 'table', None) is None or not isinstance(p.off, int): return None
        b = bytes(x & 255 for x in p.obj.table)[p.off:]
        return (b if n is None else b[:n + 1]).split(b'\0')[0].decode() if n is None or b[n:n + 1] == b'\0' else None
    def strlen(g, st, a, i):
        c = const(g, a[0])
        if c is None: raise Unsupported('the length of another text')
        return [(st, g.dom.const(64, len(c)))]
    def num(g, st, p, k, w): v = g.dom.u(g.as_int(g.load(st, Ptr(p.obj, g.dom.off_add(p.off, k)), ir.INT(w)))); v = v if isinstance(v, int) else z3.simplify(v); return v if isinstance(v, int) else v.as_long()
    def listed(g, st, a, i):
        p = g.norm_ptr(a[1]); n = z3.simplify(zi(g.dom.u(g.as_int(a[2])))).as_long(); got = {}
        for j in range(n):
            e = Ptr(p.obj, g.dom.off_add(p.off, j * SZ)); k = const(g, g.load(st, e, ir.PTR), num(g, st, e, 8, 64)); w = num(g, st, e, 16, 32); got[k] = (w, const(g, g.load(st, Ptr(e.obj, g.dom.off_add(e.off, 24)), ir.PTR)) if w == 6 else num(g, st, e, 24, 64) if w == 2 else None)
        seen.append(got); g.prove(st, set(got) == set(DEFAULT) and n == len(DEFAULT), 'tags: platform, its version, and those of tracer and OpenTracing')
        g.prove(st, got.get(DEFAULT[0]) == (6, 'c++'), 'tags: the platform'); g.prove(st, (got.get(DEFAULT[1]) or (0, 0))[1] not in (None, 0), 'tags: the version of the language'); g.prove(st, all((got.get(k) or (0, None))[0] == 6 and (got.get(k) or (0, ''))[1] for k in DEFAULT[2:]), 'tags: the versions')
        return [(st, None)]
    e = Engine(m, name='tags', contracts=[('strlen', strlen), (rx(r'^std::char_traits<char>::length\('), strlen), ('__cxa_atexit', noop), ('__cxa_guard_acquire', lambda g, st, a, i: [(st, g.dom.const(32, 1))]), ('__cxa_guard_release', noop), (rx(VEC + r'vector\(std::initializer_list'), listed), (rx(r'^std::(__new_)?allocator<|^std::__new_allocator<'), noop), (rx(r'^(std::pair<opentracing::string_view, opentracing::Value>::~pair|opentracing::Value::~Value)'), noop), (rx(r'^std::ios_base::Init::'), noop), (rx(r'^std::shared_ptr<.* const>::shared_ptr\(\)'), noop)]); e.cur = st
    e.candidates = int_candidates([], ()); guard = [n for n in m.funcs if 'GetDefaultTags' in e.dem(n)]
    if len(guard) != 1: raise Unsupported('no function makes the default tags')
    st.writes = frozenset(); st.gwrites = frozenset()
    for n in m.funcs:
        if n.startswith('_GLOBAL__sub_I_'): (st, _), = e.call_value(st, n, []); e.cur = st
    k = e.gobj('_ZN9lightstepL18component_name_keyE'); e.prove(st, const(e, e.load(st, Ptr(k, 0), ir.PTR), num(e, st, Ptr(k, 0), 8, 64)) == 'lightstep.component_name', 'tags: the key of the component name')
    st.frames = []; outs = returns(e, e.run(guard[0], st, []), 'tags'); reachable(e, outs); e.cur = st; e.prove(st, len(seen) == 1, 'tags: made once')
    return e


def units(ctx):
    F = ['lightstep::MakeLightStepTracer', 'lightstep::MakeThreadedTracer', 'lightstep::MakeStreamTracer', 'lightstep::MakeSingleThreadedTracer', 'lightstep::MakeLegacySingleThreadedTracer']
    return [Unit('tags', tags, ['lightstep::GetDefaultTags'], 120), Unit('with a transporter', lambda c: make(c, True), F, 300), Unit('without a transporter', lambda c: make(c, False), F, 300)]


def prepare(ctx): ctx.protos()
def natives(ctx): return []
