"""C29: propagation - extracting what was injected yields the same context."""
import re
import z3
from cvg import ir
from cvg.engine import Engine, State, Throw, Ptr, IV, NULL, Unsupported, b_and
from cvg.util import rx, noop, lemma, reachable, returns, virtual_object, zi, zb, int_candidates
from cvg.runner import Unit, Native, REPO

ASSUMPTIONS = ['the OpenTracing headers are not installed: the carrier interfaces, string_view and expected<> are stand-ins with the documented interface (harness/stubs); the carrier gives back the entries that were written and its keys are distinct (a map, as in every OpenTracing binding), with fewer than 2^28 entries',
               'baggage keys are non-empty; the text formats carry them in lower case (header names do not keep case)',
               'characters above 127 are converted as the C locale does (isdigit, tolower leave them alone)']
TRUSTED = ['protobuf: SerializeToString / ParseFromString of BinaryCarrier are inverse to each other on UTF-8 baggage, and its Map returns what was inserted (its own code is not verified)',
           'Base64 (C23), hexadecimal (C24) and trace-context text (C25) are used by the contracts proved in those checks',
           'strtoull, snprintf and std::string of libc / libstdc++ by contract',
           'which propagators a list of modes stands for is proved in C41']

Q = 'lightstep-tracer-common/'
P = 'src/tracer/propagation/'
B = 2 ** 32                     # entry i of a carrier: its key and its value begin at i * B of two abstract blocks of bytes
KL, VL = z3.Function('key_length', z3.IntSort(), z3.IntSort()), z3.Function('value_length', z3.IntSort(), z3.IntSort())
HDR = ['tracer/propagation/' + x + '.h' for x in ('propagation', 'multiheader_propagator', 'baggage_propagator', 'envoy_propagator', 'cloud_trace_propagator', 'trace_context_propagator')]
TC = 'lightstep::TraceContext'
OK, FOUND = 'opentracing::expected<void>', 'opentracing::expected<bool>'


def prepare(ctx): ctx.protos()


def sgn(x): return z3.If(x >= 2 ** 31, x - 2 ** 32, x)


def fold_eq(mod, n, d):
    """a comparison of two string views regardless of case: proved to be one in its own unit"""
    f = mod.funcs.get(n)
    return f is not None and f.rettype == ir.INT(1) and len(f.params) in (4, 5) and re.search(r'(::\$_\d+::operator\(\)|[eE]quals?[A-Za-z]*)\(opentracing::string_view, opentracing::string_view\)( const)?$', d) is not None


def iequals(srcs):
    def f(ctx):
        mod = ctx.module(['harness/propagation.cpp'] + srcs); engs = []; probe = Engine(mod)
        for fn in [n for n in mod.funcs if fold_eq(mod, n, probe.dem(n))]:
            n, m, D = z3.Ints('n m D'); L, R = z3.Array('L', z3.IntSort(), z3.IntSort()), z3.Array('R', z3.IntSort(), z3.IntSort())
            low = lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
            def tolower(g, st, a, i):
                c = zi(g.dom.s(a[0])); g.prove(st, z3.And(c >= -128, c < 256), 'memory: tolower is given a character'); return [(st, IV(32, s=low(c)))]
            def cand(e, view):
                out = []; names = [x for x in [x for x, _ in view.ints()] + list(view.ptrs()) if isinstance(view.get(x), Ptr)]
                for name in names:
                    p = e.norm_ptr(view.get(name))
                    if p.obj in objs: out += [('%s up to the first difference' % (name,), lambda w, name=name: zi(e.norm_ptr(w.get(name)).off) <= D), ('%s from 0' % (name,), lambda w, name=name: zi(e.norm_ptr(w.get(name)).off) >= 0)]
                ps = [x for x in names if e.norm_ptr(view.get(x)).obj in objs]
                out += [('%s = %s' % (x, y), lambda w, x=x, y=y: zi(e.norm_ptr(w.get(x)).off) == zi(e.norm_ptr(w.get(y)).off)) for x in ps for y in ps if str(x) < str(y)]
                return out
            e = Engine(mod, name='iequals', contracts=[('tolower', tolower)], candidates=int_candidates([], (), cand)); st = State(); e.cur = st; objs = []
            for nm, k, A in (('left', n, L), ('right', m, R)):
                o = e.new_obj(st, nm, kind='array', stride=1, layout={0: ('int', 8, True)}, n=k); o.const = True; st.mem[o.id] = {0: A}; objs.append(o)
            k = z3.Int('k')
            st.assume(z3.And(n >= 0, m >= 0, n < 2 ** 31, m < 2 ** 31, D >= 0, D <= n, z3.Implies(z3.And(n == m, D < n), low(L[D]) != low(R[D]))))
            st.assume_q(z3.ForAll([k], z3.Implies(z3.And(n == m, k >= 0, k < D), low(L[k]) == low(R[k])), patterns=[L[k]])); st.assume_q(z3.ForAll([k], z3.And(L[k] >= -128, L[k] < 128), patterns=[L[k]])); st.assume_q(z3.ForAll([k], z3.And(R[k] >= -128, R[k] < 128), patterns=[R[k]]))
            st.writes = frozenset()
            outs = returns(e, e.run(fn, st, ([NULL] if len(mod.funcs[fn].params) == 5 else []) + [Ptr(objs[0], 0), IV(64, u=n), Ptr(objs[1], 0), IV(64, u=m)]), 'iequals'); reachable(e, outs)
            for o in outs:
                e.cur = o; e.prove(o, zb(o.outcome[1]) == z3.And(n == m, D == n), 'iequals: texts are equal exactly if they differ in case only')
            engs.append(e)
        if not engs: raise Unsupported('no comparison found')
        return engs
    return f


class Prop:
    """a propagator together with a carrier: a writer which records what is set, a reader over entries 0 .. n-1"""
    def __init__(s, ctx, name, srcs, contracts=(), roles=None, fold=False, extra=None, measures=()):
        s.fold, s.extra = fold, extra
        s.roles = roles or {}           # header name -> (present, the entry it is in)
        s.O = ctx.offsets(HDR, {**{k: (TC, m) for k, m in (('high', 'trace_id_high'), ('low', 'trace_id_low'), ('span', 'parent_id'), ('flags', 'trace_flags'), ('version', 'version'))}, 'ok.has': (OK, 'has_'), 'ok.error': (OK, 'error_'), 'found.has': (FOUND, 'has_'), 'found.error': (FOUND, 'error_'), 'found.value': (FOUND, 'value_'),
                               'u64.has': ('opentracing::expected<uint64_t>', 'has_'), 'u64.value': ('opentracing::expected<uint64_t>', 'value_'), 'sv.has': ('opentracing::expected<opentracing::string_view>', 'has_'), 'sv.value': ('opentracing::expected<opentracing::string_view>', 'value_'), 'sv.error': ('opentracing::expected<opentracing::string_view>', 'error_')}, {'TC': TC, 'OK': OK, 'FOUND': FOUND})
        S = r'^std::__cxx11::basic_string<char,.*>::'
        mod = ctx.module(['harness/propagation.cpp'] + srcs)
        s.e = e = Engine(mod, name=name, contracts=list(contracts) + [
            ('strlen', s.strlen), ('__cxa_atexit', noop), ('operator new(unsigned long)', s.alloc), ('operator delete(void*)', noop), (rx(r'^std::ios_base::Init::'), noop),
            (rx(r'^opentracing::propagation_error_category\('), s.category('propagation')), (rx(r'^std::_V2::(system|generic)_category\('), s.category('system')),
            (rx(r'^VfWriter::Set\('), s.set), ('vf_more', s.more), ('vf_entry', s.entry), ('vf_end', s.end), (rx(r'^VfReader::LookupKey\('), s.lookup),
            (rx(r'^std::equal_to<opentracing::string_view>::operator\(\)'), s.equal_to), (rx(r'^opentracing::operator==\(opentracing::string_view'), s.equal), ((lambda n, d: fold_eq(mod, n, d)), s.iequals),
            (rx(r'^lightstep::HexToUint128\('), s.hex128), (rx(r'^lightstep::HexToUint64\('), s.hex64), (rx(r'^lightstep::HexSerializer::Uint(64|128)ToHex'), s.tohex), (rx(r'^lightstep::ToLower\[abi:cxx11\]\('), s.lower),
            (rx(S + r'basic_string\(\)'), s.str_none), (rx(S + r'operator=\(std::__cxx11::basic_string<'), s.str_move), (rx(S + r'empty\(\) const'), s.str_empty), (rx(S + r'length\(\) const'), s.str_size),
            (rx(S + r'basic_string\(char const\*, unsigned long'), s.str_range), (rx(S + r'basic_string\(std::__cxx11::basic_string<'), s.str_copy), (rx(S + r'~basic_string'), noop), (rx(S + r'data\(\) const'), s.str_data), (rx(S + r'(size|length)\(\) const'), s.str_size), (rx(S + r'assign\(char const\*, unsigned long'), s.str_assign),
            (rx(r'^google::protobuf::Map<.*>::insert\('), s.insert)],
            candidates=int_candidates(list(measures), (), s.cand))
        e.demangled['_Znwm'] = 'operator new(unsigned long)'
        st = State(); e.cur = st; s.st = st
        blk = lambda n: e.new_obj(st, n, kind='array', stride=1, layout={0: ('int', 8, False)}, n=z3.Int(n + '_size'))
        s.keys, s.vals, s.low = blk('keys'), blk('values'), blk('lower-case keys')
        s.cats = {k: virtual_object(e, st, c, k + ' category') for k, c in (('propagation', '21VfPropagationCategory'), ('system', '16VfSystemCategory'))}
        s.n, s.x, s.err, s.p = z3.Ints('n x writer_error p')
        i = z3.Int('i')
        st.assume(z3.And(s.n >= 0, s.n < 2 ** 28, s.x >= 0, s.x < 2 ** 31, s.err > 0, s.err < 2 ** 31, s.p >= 0, z3.Or(s.p < s.n, s.n == 0)))
        st.assume_q(z3.ForAll([i], z3.And(KL(i) >= 0, KL(i) < 2 ** 31), patterns=[KL(i)])); st.assume_q(z3.ForAll([i], z3.And(VL(i) >= 0, VL(i) < 2 ** 31), patterns=[VL(i)]))
        st.ghost.update(cur=z3.IntVal(0), next=z3.IntVal(0), ins=z3.IntVal(0), sets=(), failed=False, hexbuf=None, pieces=(), ended=z3.BoolVal(False), state=None)
        s.out = e.new_obj(st, 'result', kind='struct', size=s.O['FOUND'])
        s.tc = e.new_obj(st, 'trace context', kind='struct', size=s.O['TC'])
        s.w = virtual_object(e, st, '8VfWriter', 'writer'); s.r = virtual_object(e, st, '8VfReader', 'reader')
        s.map = e.new_obj(st, 'baggage', kind='struct', size=64)
        s.T = {k: z3.Int('tc_' + k) for k in ('high', 'low', 'span', 'flags', 'version')}
        for k, v in s.T.items():
            w = 8 if k in ('flags', 'version') else 64
            st.assume(z3.And(v >= 0, v < 2 ** w)); e.store(st, Ptr(s.tc, s.O[k]), ir.INT(w), IV(w, u=v))
        for n in e.m.funcs:
            if n.startswith('_GLOBAL__sub_I_'):
                (st, _), = e.call_value(st, n, []); e.cur = st
        s.st = st; st.writes = frozenset(); st.gwrites = frozenset()

    # ---- plumbing
    def cell(s, st, k, o=None, w=None): return zi(s.e.dom.u(s.e.as_int(s.e.load(st, Ptr(o or s.tc, s.O[k]), ir.INT(w or (8 if k in ('flags', 'version') else 64))))))
    def has(s, st, k): return s.cell(st, k + '.has', s.out, 8) == 1
    def errno(s, st, k): return zi(s.e.dom.s(s.e.as_int(s.e.load(st, Ptr(s.out, s.O[k + '.error']), ir.INT(32)))))
    def strlen(s, g, st, a, i):
        p = g.norm_ptr(a[0]); b = bytes(x & 255 for x in p.obj.table)[p.off:]
        return [(st, g.dom.const(64, b.index(0)))]
    def alloc(s, g, st, a, i): return [(st, Ptr(g.new_obj(st, 'allocated', kind='struct', size=g.dom.u(g.as_int(a[0]))), 0))]
    def category(s, k): return lambda g, st, a, i: [(st, Ptr(s.cats[k], 0))]

    def const(s, p, n):
        """the text of a string view of constant characters"""
        p = s.e.norm_ptr(p); n = n if isinstance(n, int) else z3.simplify(zi(n))
        n = n if isinstance(n, int) else n.as_long() if z3.is_int_value(n) else None
        if p.obj is None or getattr(p.obj, 'table', None) is None or n is None: return None
        t = bytes(x & 255 for x in p.obj.table)[p.off:p.off + n]
        return t.decode('latin-1') if len(t) == n else None

    def sv(s, st, p): p = s.e.norm_ptr(p); return s.e.load(st, p, ir.PTR), zi(s.e.dom.u(s.e.as_int(s.e.load(st, Ptr(p.obj, s.e.dom.off_add(p.off, 8), p.key), ir.INT(64)))))
    def put_sv(s, st, p, ptr, n): p = s.e.norm_ptr(p); s.e.store(st, p, ir.PTR, ptr); s.e.store(st, Ptr(p.obj, s.e.dom.off_add(p.off, 8), p.key), ir.INT(64), IV(64, u=n))
    def put_ok(s, st, p, k, ok, err=None, cat=None):
        """an opentracing::expected<...> at p"""
        e = s.e; e.store(st, Ptr(p.obj, e.dom.off_add(p.off, s.O[k + '.has']), p.key), ir.INT(8), e.dom.const(8, 1 if ok else 0))
        if not ok:
            o = e.dom.off_add(p.off, s.O[k + '.error'] if k + '.error' in s.O else s.O['ok.error'])
            e.store(st, Ptr(p.obj, o, p.key), ir.INT(32), IV(32, s=err)); e.store(st, Ptr(p.obj, e.dom.off_add(o, 8), p.key), ir.PTR, Ptr(s.cats[cat], 0))

    # ---- the reader
    def more(s, g, st, a, i):
        g.prove(st, zi(g.dom.s(a[0])) == st.ghost['next'], 'reader: the entries in turn'); return [(st, st.ghost['next'] < s.n)]

    def entry(s, g, st, a, i):
        k = zi(g.dom.s(a[0])); st.gset('cur', k); st.gset('next', k + 1)
        g.prove(st, z3.And(k >= 0, k < s.n), 'reader: the entries of the carrier')
        s.put_sv(st, a[1], Ptr(s.keys, k * B), KL(k)); s.put_sv(st, a[2], Ptr(s.vals, k * B), VL(k))
        return [(st, None)]

    def end(s, g, st, a, i): return [(st, IV(32, s=s.x))]

    def lookup(s, g, st, a, i): raise Unsupported('LookupKey')

    def isval(s, st, p, n): return b_and(s.e.norm_ptr(p).obj is s.vals, z3.And(zi(s.e.norm_ptr(p).off) == st.ghost['cur'] * B, zi(n) == VL(st.ghost['cur'])) if s.e.norm_ptr(p).obj is s.vals else False)

    def compare(s, st, p1, n1, p2, n2, fold):
        """equality of two string views, at least one of them constant"""
        e = s.e; c = s.const(p1, n1); 
        if c is not None: p1, n1, p2, n2 = p2, n2, p1, n1
        else: c = s.const(p2, n2)
        if c is None: raise Unsupported('comparison with other than a constant text')
        d = s.const(p1, n1)
        if d is not None: return z3.BoolVal(c.lower() == d.lower() if fold else c == d)
        p1 = e.norm_ptr(p1); cur = st.ghost['cur']
        if p1.obj is s.keys:
            e.prove(st, z3.And(zi(p1.off) == cur * B, zi(n1) >= 0, zi(n1) <= KL(cur)), 'memory: a comparison stays inside the key')
            return z3.And(zi(n1) == len(c), z3.If(zi(n1) == KL(cur), s.key(c, fold)(cur), s.prefix(c, fold)(cur)))
        if p1.obj is s.vals:
            e.prove(st, z3.And(zi(p1.off) == cur * B, zi(n1) >= 0, zi(n1) <= VL(cur)), 'memory: a comparison stays inside the value')
            return z3.And(zi(n1) == len(c), z3.If(zi(n1) == VL(cur), s.value(c)(cur), z3.Function('value begins ' + c, z3.IntSort(), z3.BoolSort())(cur)))
        raise Unsupported('comparison of other text')

    def key(s, c, fold):
        """entry -> its key is c (up to case)"""
        for name, (have, at) in s.roles.items():
            if (c.lower() == name.lower() if fold else c == name): return lambda i: z3.And(have, i == at)
        return s.prefix(c, fold) if c.lower() == 'ot-baggage-' else z3.Function('key is ' + c, z3.IntSort(), z3.BoolSort())

    def prefix(s, c, fold): return BAG if (c.lower() if fold else c) == 'ot-baggage-' else z3.Function('key begins ' + c, z3.IntSort(), z3.BoolSort())
    def value(s, c): return z3.Function('value is ' + c, z3.IntSort(), z3.BoolSort())

    def equal_to(s, g, st, a, i): (p, n), (q, m) = s.sv(st, a[1]), s.sv(st, a[2]); return [(st, s.compare(st, p, n, q, m, False))]
    def equal(s, g, st, a, i): return [(st, s.compare(st, a[0], zi(g.dom.u(g.as_int(a[1]))), a[2], zi(g.dom.u(g.as_int(a[3]))), False))]
    def iequals(s, g, st, a, i): return [(st, s.compare(st, a[1], zi(g.dom.u(g.as_int(a[2]))), a[3], zi(g.dom.u(g.as_int(a[4]))), True))]

    # ---- parsing (C24)
    def hex128(s, g, st, a, i):
        g.prove(st, s.isval(st, a[1], g.dom.u(g.as_int(a[2]))), 'extract: an id is read from the value of its entry'); k = st.ghost['cur']
        p = g.norm_ptr(a[0]); t = st.clone(); st.assume(VALID(k)); t.assume(z3.Not(VALID(k)))
        s.put_ok(st, p, 'ok', True); s.put_ok(t, p, 'ok', False, z3.IntVal(22), 'system')
        g.store(st, a[3], ir.INT(64), IV(64, u=HI(k))); g.store(st, a[4], ir.INT(64), IV(64, u=LO(k))); st.assume(z3.And(HI(k) >= 0, HI(k) < 2 ** 64, LO(k) >= 0, LO(k) < 2 ** 64))
        return [(st, None), (t, None)]

    def hex64(s, g, st, a, i):
        g.prove(st, s.isval(st, a[1], g.dom.u(g.as_int(a[2]))), 'extract: an id is read from the value of its entry'); k = st.ghost['cur']
        p = g.norm_ptr(a[0]); t = st.clone(); st.assume(VALID(k)); t.assume(z3.Not(VALID(k)))
        s.put_ok(st, p, 'u64', True); s.put_ok(t, p, 'u64', False, z3.IntVal(22), 'system')
        g.store(st, Ptr(p.obj, g.dom.off_add(p.off, s.O['u64.value']), p.key), ir.INT(64), IV(64, u=LO(k))); st.assume(z3.And(LO(k) >= 0, LO(k) < 2 ** 64))
        return [(st, None), (t, None)]

    # ---- strings: views of characters which do not change
    def str_range(s, g, st, a, i): s.put_sv(st, a[0], a[1], zi(g.dom.u(g.as_int(a[2])))); return [(st, None)]
    def str_copy(s, g, st, a, i): p, n = s.sv(st, a[1]); s.put_sv(st, a[0], p, n); return [(st, None)]
    def str_none(s, g, st, a, i): s.put_sv(st, a[0], NULL, z3.IntVal(0)); return [(st, None)]
    def str_move(s, g, st, a, i): p, n = s.sv(st, a[1]); s.put_sv(st, a[0], p, n); return [(st, a[0])]
    def str_empty(s, g, st, a, i): return [(st, s.sv(st, a[0])[1] == 0)]
    def str_data(s, g, st, a, i): return [(st, s.sv(st, a[0])[0])]
    def str_size(s, g, st, a, i): return [(st, IV(64, u=s.sv(st, a[0])[1]))]
    def str_assign(s, g, st, a, i): s.put_sv(st, a[0], a[1], zi(g.dom.u(g.as_int(a[2])))); return [(st, a[0])]

    def lower(s, g, st, a, i):
        p = g.norm_ptr(a[1]); n = zi(g.dom.u(g.as_int(a[2])))
        if p.obj is not s.keys: raise Unsupported('ToLower of other text')
        k = st.ghost['cur']; g.prove(st, z3.And(zi(p.off) >= k * B, zi(p.off) + n <= k * B + KL(k)), 'memory: only the key is read')
        s.put_sv(st, a[0], Ptr(s.low, p.off), n); return [(st, None)]

    def insert(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[-2], Ptr(s.map, 0)), 'extract: into the baggage'); k = st.ghost['cur']; q = g.norm_ptr(a[-1])
        kp, kn = s.sv(st, q); vp, vn = s.sv(st, Ptr(q.obj, g.dom.off_add(q.off, 32), q.key)); kp, vp = g.norm_ptr(kp), g.norm_ptr(vp)
        g.prove(st, b_and(kp.obj is s.low, z3.And(zi(kp.off) == k * B + 11, kn == KL(k) - 11, kn > 0) if kp.obj is s.low else False), 'extract: a baggage item has what follows the prefix as its key, in lower case')
        g.prove(st, s.isval(st, vp, vn), 'extract: a baggage item has its value')
        g.prove(st, BAG(k), 'extract: only baggage becomes baggage')
        st.gset('ins', st.ghost['ins'] + z3.If(k == s.p, 1, 0))
        return [(st, None if i['rt'][0] == 'void' else g.fresh_val(st, i['rt'], 'inserted'))]

    # ---- the writer
    def tohex(s, g, st, a, i):
        wide = '128' in g.dem(i['callee'][1]); p = g.norm_ptr(a[0])
        st.ghost['hexbuf'] = (p.obj, ('hex128', zi(g.dom.u(a[1])), zi(g.dom.u(a[2]))) if wide else ('hex64', zi(g.dom.u(a[1]))), 32 if wide else 16)
        return [(st, (Ptr(p.obj, p.off), g.dom.const(64, 32 if wide else 16)))]

    def token(s, st, p, n):
        c = s.const(p, n)
        if c is not None: return ('text', c)
        p = s.e.norm_ptr(p); h = st.ghost['hexbuf']; pieces = [x for x in st.ghost['pieces'] if x[0] is p.obj]
        if pieces:
            at, parts = zi(p.off), []
            for o, off, ln, what in pieces: s.e.prove(st, zi(off) == at, 'inject: the text is written without gaps'); at = at + ln; parts += what
            s.e.prove(st, zi(n) == at - zi(p.off), 'inject: all of the text is written'); return ('parts', joined(parts))
        if h and h[0] is p.obj:
            s.e.prove(st, z3.And(zi(p.off) == 0, zi(n) == h[2]), 'inject: all of the text is written'); return h[1]
        return ('view', p, zi(n))

    def set(s, g, st, a, i):
        off = 1 if i['rt'][0] == 'void' else 0
        g.prove(st, b_and(g.ptr_eq(a[off], Ptr(s.w, 0)), not st.ghost['failed']), 'inject: nothing is written after an error')
        k = s.token(st, a[off + 1], g.dom.u(g.as_int(a[off + 2]))); v = s.token(st, a[off + 3], g.dom.u(g.as_int(a[off + 4])))
        st.ghost['sets'] += ((k, v),); t = st.clone(); t.ghost['failed'] = True
        s.put_ok(st, g.norm_ptr(a[0]), 'ok', True); s.put_ok(t, g.norm_ptr(a[0]), 'ok', False, s.err, 'system')
        return [(st, None), (t, None)]

    def cand(s, e, view):
        g = lambda w: w.st.ghost
        out = [('baggage taken', lambda w: g(w)['ins'] == z3.If(z3.And(g(w)['next'] > s.p, BAG(s.p), KL(s.p) > 11), 1, 0)), ('next >= 0', lambda w: g(w)['next'] >= 0), ('next <= n', lambda w: g(w)['next'] <= s.n)]
        seen = lambda w, r: z3.And(s.roles[r][0], g(w)['next'] > s.roles[r][1])
        for r in s.roles: out += [('%s not seen' % r, lambda w, r=r: z3.Not(seen(w, r)))]
        for r in s.roles: out.append(('%s seen is valid' % r, lambda w, r=r: z3.Implies(seen(w, r), VALID(s.roles[r][1]))))
        for name, t in view.ints():
            def v(w, name=name): return zi(w.term(w.get(name)))
            out.append(('%s is the position' % (name,), lambda w, v=v: v(w) == g(w)['next']))
            if s.extra: out += [('%s %s' % (name, l), f) for l, f in s.extra(s, v, seen)]
        return out


BAG, VALID = z3.Function('is baggage', z3.IntSort(), z3.BoolSort()), z3.Function('parses', z3.IntSort(), z3.BoolSort())
HI, LO = z3.Function('parsed high', z3.IntSort(), z3.IntSort()), z3.Function('parsed low', z3.IntSort(), z3.IntSort())
MULTI = [P + x + '.cpp' for x in ('b3_propagator', 'lightstep_propagator', 'multiheader_propagator')]
NAMES = {'b3': ('X-B3-TraceId', 'X-B3-SpanId', 'X-B3-Sampled'), 'lightstep': ('ot-tracer-traceid', 'ot-tracer-spanid', 'ot-tracer-sampled')}


def made(s, fmt):
    """the propagator the factory makes"""
    e, st = s.e, s.st; o = e.new_obj(st, 'made', kind='struct', size=8); st.mem[o.id] = {0: (8, NULL)}
    outs = returns(e, e.run('vf_make_' + fmt, st, [Ptr(o, 0)]), 'make')
    if len(outs) != 1: raise Unsupported('factory')
    s.st = st = outs[0]; st.frames = []; e.cur = st; st.writes = frozenset(); st.gwrites = frozenset()
    return e.load(st, Ptr(o, 0), ir.PTR)


def multi_inject(fmt):
    def f(ctx):
        engs = []
        for kind in 'pf':
            s = Prop(ctx, '%s inject' % fmt, MULTI); e = s.e; engs.append(e); p = made(s, fmt); st = s.st
            v = e.new_obj(st, 'trace state', kind='struct', size=16); st.mem[v.id] = {0: (8, NULL), 8: (8, e.dom.const(64, 0))}
            outs = returns(e, e.run('vf_multi_inject_' + kind, st, [p, Ptr(s.w, 0), Ptr(s.tc, 0), Ptr(v, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'inject'); reachable(e, outs); done = 0
            a, b, c = NAMES[fmt]
            for o in outs:
                e.cur = o; G = o.ghost
                if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
                if G['failed']: e.prove(o, z3.And(z3.Not(s.has(o, 'ok')), s.errno(o, 'ok') == s.err), 'inject: the writer\'s error is returned'); continue
                done += 1
                e.prove(o, s.has(o, 'ok'), 'inject: succeeds')
                got = dict((k[1], v) for k, v in G['sets'] if k[0] == 'text')
                e.prove(o, len(got) == len(G['sets']) == 3 and set(got) == {a, b, c}, 'inject: one header each for trace id, span id and sampling decision')
                if set(got) != {a, b, c}: continue
                if fmt == 'b3': e.prove(o, b_and(got[a][0] == 'hex128', z3.And(got[a][1] == s.T['high'], got[a][2] == s.T['low']) if got[a][0] == 'hex128' else False), 'inject: the trace id')
                else: e.prove(o, b_and(got[a][0] == 'hex64', got[a][1] == s.T['low'] if got[a][0] == 'hex64' else False), 'inject: the trace id')
                e.prove(o, b_and(got[b][0] == 'hex64', got[b][1] == s.T['span'] if got[b][0] == 'hex64' else False), 'inject: the span id')
                e.prove(o, b_and(got[c][0] == 'text', z3.BoolVal(got[c] == ('text', '1')) == (s.T['flags'] % 2 == 1), got[c][1] in ('0', '1')), 'inject: the sampling decision')
            e.cur = s.st; e.prove(s.st, done > 0, 'inject: succeeds where the writer does')
        return engs
    return f


def multi_extract(fmt, fold):
    def f(ctx):
        names = NAMES[fmt]; H = {k: z3.Bool('has_' + k) for k in 'abc'}; A = dict(zip('abc', z3.Ints('at_trace at_span at_sampled')))
        def extra(s, v, seen):
            a, b, c = names; one = lambda x: z3.If(x, 1, 0)
            return [('counts the ids', lambda w: v(w) == one(seen(w, a)) + one(seen(w, b))), ('is the high id', lambda w: z3.Implies(seen(w, a), v(w) == HI(A['a']))), ('is the low id', lambda w: z3.Implies(seen(w, a), v(w) == LO(A['a']))), ('is the span id', lambda w: z3.Implies(seen(w, b), v(w) == LO(A['b']))),
                    ('is the decision', lambda w: v(w) == z3.If(z3.And(seen(w, c), z3.Or(s.value('0')(A['c']), s.value('false')(A['c']))), 0, 1))]
        s = Prop(ctx, '%s extract%s' % (fmt, ', any case' if fold else ''), MULTI, roles={n: (H[k], A[k]) for n, k in zip(names, 'abc')}, fold=fold, extra=extra); e = s.e; p = made(s, fmt); st = s.st
        for k, n in zip('abc', names): st.assume(z3.And(A[k] >= 0, z3.Implies(H[k], z3.And(A[k] < s.n, KL(A[k]) == len(n), z3.Not(BAG(A[k]))))))
        st.assume(z3.Distinct(list(A.values())))       # different names
        for t in ('0', 'false'): st.assume(z3.Implies(s.value(t)(A['c']), VL(A['c']) == len(t)))
        so = e.new_obj(st, 'trace state', kind='struct', size=32); st.mem[so.id] = {0: (8, NULL), 8: (8, e.dom.const(64, 0))}
        outs = returns(e, e.run('vf_multi_extract', st, [p, Ptr(s.r, 0), not fold, Ptr(s.tc, 0), Ptr(so, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'extract'); reachable(e, outs)
        good = z3.And(H['a'], H['b'], VALID(A['a']), VALID(A['b']), s.x == 0); kinds = set()
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            has, val = s.has(o, 'found'), s.cell(o, 'found.value', s.out, 8) == 1
            e.prove(o, z3.And(has, val) == good, 'extract: a context is found exactly if both ids are there and well formed')
            e.prove(o, z3.And(has, z3.Not(val)) == z3.And(z3.Not(H['a']), z3.Not(H['b']), s.x == 0), 'extract: none is found exactly if neither id is there')
            e.prove(o, z3.Implies(good, z3.And(s.cell(o, 'high') == HI(A['a']), s.cell(o, 'low') == LO(A['a']))), 'extract: the trace id')
            e.prove(o, z3.Implies(good, s.cell(o, 'span') == LO(A['b'])), 'extract: the span id')
            e.prove(o, z3.Implies(good, s.cell(o, 'flags') == z3.If(z3.And(H['c'], z3.Or(s.value('0')(A['c']), s.value('false')(A['c']))), 0, 1)), 'extract: the sampling decision')
            e.prove(o, z3.Implies(good, G['ins'] == z3.If(z3.And(s.p < s.n, BAG(s.p), KL(s.p) > 11), 1, 0)), 'extract: every baggage item, once')
            for nm, c in (('found', good), ('none', z3.And(has, z3.Not(val))), ('error', z3.Not(has))):
                if nm not in kinds and e.feasible(o, c): kinds.add(nm)
        e.cur = s.st; e.prove(s.st, kinds == {'found', 'none', 'error'}, 'extract: finds, finds none, or fails')
        return e
    return f

TCX = [P + 'trace_context_propagator.cpp']
INIT = 2 ** 61          # where the text of the initial trace state is


def fields(s, st): return [s.cell(st, k) for k in ('high', 'low', 'span', 'flags', 'version')]


def tc_inject(ctx):
    engs = []
    for kind in 'pf':
        def serialize(g, st, a, i):
            g.prove(st, z3.And(*[x == y for x, y in zip([s.cell(st, k, g.norm_ptr(a[0]).obj) for k in s.T], s.T.values())]) if g.norm_ptr(a[0]).off == 0 else False, 'inject: the context itself is written')
            st.ghost['hexbuf'] = (g.norm_ptr(a[1]).obj, ('traceparent',), 55); g.prove(st, zi(g.norm_ptr(a[1]).off) == 0, 'memory: the buffer'); return [(st, None)]
        s = Prop(ctx, 'trace context inject', TCX, contracts=[(rx(r'^lightstep::SerializeTraceContext\('), serialize)]); e = s.e; engs.append(e); st = s.st
        v = e.new_obj(st, 'trace state', kind='struct', size=16); n = z3.Int('state_length'); st.assume(z3.And(n >= 0, n < 2 ** 31)); s.put_sv(st, Ptr(v, 0), Ptr(s.vals, INIT), n)
        p = e.new_obj(st, 'propagator', kind='struct', size=8)
        outs = returns(e, e.run('vf_tc_inject_' + kind, st, [Ptr(p, 0), Ptr(s.w, 0), Ptr(s.tc, 0), Ptr(v, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'inject'); reachable(e, outs); done = set()
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            if G['failed']: e.prove(o, z3.And(z3.Not(s.has(o, 'ok')), s.errno(o, 'ok') == s.err), 'inject: the writer\'s error is returned'); continue
            e.prove(o, s.has(o, 'ok'), 'inject: succeeds')
            got = dict((k[1], v) for k, v in G['sets'] if k[0] == 'text'); done.add(len(got))
            e.prove(o, b_and(len(got) == len(G['sets']), got.get('traceparent') == ('traceparent',), set(got) <= {'traceparent', 'tracestate'}), 'inject: the context is written once, under its name')
            e.prove(o, z3.BoolVal('tracestate' in got) == (n > 0), 'inject: the trace state is written unless it is empty')
            if 'tracestate' in got: e.prove(o, b_and(got['tracestate'][0] == 'view', z3.And(zi(got['tracestate'][1].off) == INIT, got['tracestate'][2] == n) if got['tracestate'][0] == 'view' and got['tracestate'][1].obj is s.vals else False), 'inject: the trace state itself')
        e.cur = s.st; e.prove(s.st, done == {1, 2}, 'inject: succeeds where the writer does')
    return engs


FIELD = {k: z3.Function('parsed ' + k, z3.IntSort(), z3.IntSort()) for k in ('high', 'low', 'span', 'flags', 'version')}


def parsed(s, rule):
    """contract of a parser of one header: the whole value in, every field out"""
    def f(g, st, a, i):
        o = 1 if rule == 'C25' else 2
        g.prove(st, s.isval(st, a[o], g.dom.u(g.as_int(a[o + 1]))), 'extract: the context is read from the value of its entry'); k = st.ghost['cur']
        p = g.norm_ptr(a[0]); q = g.norm_ptr(a[o + 2]); g.prove(st, b_and(q.obj is s.tc, z3.BoolVal(q.off == 0)), 'extract: into the context')
        t = st.clone(); st.assume(VALID(k)); t.assume(z3.Not(VALID(k)))
        s.put_ok(st, p, 'ok', True); s.put_ok(t, p, 'ok', False, z3.IntVal(22), 'system')
        for x in s.T:
            if rule == 'C29' and x == 'version': continue
            w = 8 if x in ('flags', 'version') else 64
            f = FIELD[x](k)
            st.assume(z3.And(f >= 0, f < 2 ** w)); g.store(st, Ptr(s.tc, s.O[x]), ir.INT(w), IV(w, u=f)); g.store(t, Ptr(s.tc, s.O[x]), ir.INT(w), g.fresh_val(t, ir.INT(w), 'partly read'))
        return [(st, None), (t, None)]
    return f


def single_extract(fmt, fold):
    """the formats which keep the whole context in one header"""
    head, state, srcs, entry = {'tc': ('traceparent', 'tracestate', TCX, 'vf_tc_extract'), 'cloud': ('x-cloud-trace-context', None, CLOUD, 'vf_cloud_extract')}[fmt]
    keep = [k for k in FIELD if not (fmt == 'cloud' and k == 'version')]
    def f(ctx):
        hp, hs = z3.Bools('has_parent has_state'); ap, as_ = z3.Ints('at_parent at_state'); box = {}
        roles = {head: (hp, ap)}
        if state: roles[state] = (hs, as_)
        def extra(s, v, seen):
            out = [('is whether it was found', lambda w: z3.And(v(w) == z3.If(seen(w, head), 1, 0)))] + [('is the %s' % k, lambda w, k=k: z3.Implies(seen(w, head), v(w) == FIELD[k](ap))) for k in keep]
            if state: out += [('is the state', lambda w: v(w) == z3.If(seen(w, state), as_ * B, INIT)), ('is the length of the state', lambda w: v(w) == z3.If(seen(w, state), VL(as_), 0))]
            return out
        def parse(g, st, a, i): return parsed(box['s'], 'C25' if fmt == 'tc' else 'C29')(g, st, a, i)
        s = Prop(ctx, '%s extract%s' % (fmt, ', any case' if fold else ''), srcs, roles=roles, fold=fold, extra=extra, contracts=[(rx(r'^lightstep::(ParseTraceContext|CloudTracePropagator::ParseCloudTrace)\('), parse)]); box['s'] = s; e = s.e; st = s.st
        for n, (h, x) in roles.items(): st.assume(z3.And(x >= 0, z3.Implies(h, z3.And(x < s.n, KL(x) == len(n), z3.Not(BAG(x))))))
        if state: st.assume(ap != as_)
        so = e.new_obj(st, 'trace state', kind='struct', size=32); s.put_sv(st, Ptr(so, 0), Ptr(s.vals, INIT), z3.IntVal(0))
        p = e.new_obj(st, 'propagator', kind='struct', size=8)
        outs = returns(e, e.run(entry, st, [Ptr(p, 0), Ptr(s.r, 0), not fold, Ptr(s.tc, 0), Ptr(so, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'extract'); reachable(e, outs); kinds = set()
        good = z3.And(hp, VALID(ap), s.x == 0)
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            has, val = s.has(o, 'found'), s.cell(o, 'found.value', s.out, 8) == 1
            e.prove(o, z3.And(has, val) == good, 'extract: a context is found exactly if its header is there and well formed')
            e.prove(o, z3.And(has, z3.Not(val)) == z3.And(z3.Not(hp), s.x == 0), 'extract: none is found exactly if the header is not there')
            e.prove(o, z3.Implies(good, z3.And(*[s.cell(o, k) == FIELD[k](ap) for k in keep])), 'extract: the context of that header')
            if fmt == 'cloud': e.prove(o, z3.Implies(has, s.cell(o, 'version') == s.T['version']), 'extract: the version is left alone')
            q, l = s.sv(o, Ptr(so, 0)); q = e.norm_ptr(q)
            e.prove(o, b_and(q.obj is s.vals, z3.Implies(has, z3.And(zi(l) == z3.If(hs, VL(as_), 0), z3.Implies(hs, zi(q.off) == as_ * B)) if state else zi(l) == 0) if q.obj is s.vals else False), 'extract: the trace state' if state else 'extract: no trace state is made up')
            e.prove(o, z3.Implies(has, G['ins'] == z3.If(z3.And(s.p < s.n, BAG(s.p), KL(s.p) > 11), 1, 0)), 'extract: every baggage item, once')
            for nm, c in (('found', good), ('none', z3.And(has, z3.Not(val))), ('error', z3.Not(has))):
                if nm not in kinds and e.feasible(o, c): kinds.add(nm)
        e.cur = s.st; e.prove(s.st, kinds == {'found', 'none', 'error'}, 'extract: finds, finds none, or fails')
        return e
    return f


def joined(parts):
    """a text as a list of literals and rendered numbers, adjacent literals as one"""
    out = []
    for x in parts:
        if x[0] == 'text' and out and out[-1][0] == 'text': out[-1] = ('text', out[-1][1] + x[1])
        elif x != ('text', ''): out.append(x)
    return out


def same(parts, want):
    """the formula: two such texts are the same"""
    if len(parts) != len(want) or any(x[0] != y[0] for x, y in zip(parts, want)): return False
    if any(x[0] == 'text' and x[1] != y[1] for x, y in zip(parts, want)): return False
    return z3.And(*[x[1] == y[1] for x, y in zip(parts, want) if x[0] != 'text'] or [True])


LEN10 = z3.Function('decimal_digits', z3.IntSort(), z3.IntSort())


def cloud_inject(ctx):
    engs = []
    for kind in 'pf':
        box = {}
        def room(g, st, p, n): g.prove(st, z3.And(zi(p.off) >= 0, zi(p.off) + n <= zi(p.obj.size if p.obj.size is not None else p.obj.n)), 'memory: the buffer is long enough')
        def hexed(g, st, a, i):
            p = g.norm_ptr(a[1]); room(g, st, p, 16); st.ghost['pieces'] += ((p.obj, p.off, z3.IntVal(16), (('hex64', zi(g.dom.u(a[0]))),)),)
            return [(st, (Ptr(p.obj, p.off), g.dom.const(64, 16)))]
        def printed(g, st, a, i):
            q = g.norm_ptr(a[2]); b = bytes(x & 255 for x in q.obj.table)[q.off:]; f = b[:b.index(0)].decode('latin-1'); args = list(a[3:]); parts, n = [], z3.IntVal(0)
            for m in re.finditer(r'%(ll|l|z|)([ud])|%%|[^%]', f):
                if m.group(2) is None: c = m.group(0)[:1]; parts.append(('text', c)); n = n + 1; continue
                v = args.pop(0); v = zi(g.dom.u(v) if m.group(2) == 'u' else g.dom.s(v)); parts.append(('dec', v))
                g.prove(st, v >= 0, 'inject: numbers are not negative'); st.assume(z3.And(LEN10(v) >= 1, LEN10(v) <= 20, z3.Implies(v < 10, LEN10(v) == 1), z3.Implies(v < 2 ** 64, LEN10(v) <= 20))); n = n + LEN10(v)
            if ''.join(m.group(0) for m in re.finditer(r'%(ll|l|z|)([ud])|%%|[^%]', f)) != f: raise Unsupported('format ' + f)
            p = g.norm_ptr(a[0]); size = zi(g.dom.u(g.as_int(a[1])))
            room(g, st, p, size); g.prove(st, n < size, 'inject: the whole text fits'); st.ghost['pieces'] += ((p.obj, p.off, n, tuple(parts)),)
            return [(st, IV(32, s=n))]
        s = Prop(ctx, 'cloud trace inject', CLOUD, contracts=[(rx(r'^lightstep::Uint64ToHex\(unsigned long, char\*'), hexed), ('snprintf', printed)]); e = s.e; engs.append(e); st = s.st
        p = e.new_obj(st, 'propagator', kind='struct', size=8); v = e.new_obj(st, 'trace state', kind='struct', size=16); s.put_sv(st, Ptr(v, 0), Ptr(s.vals, INIT), z3.Int('state_length'))
        outs = returns(e, e.run('vf_cloud_inject_' + kind, st, [Ptr(p, 0), Ptr(s.w, 0), Ptr(s.tc, 0), Ptr(v, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'inject'); reachable(e, outs); done = 0
        want = [('hex64', s.T['high']), ('hex64', s.T['low']), ('text', '/'), ('dec', s.T['span']), ('text', ';o='), ('dec', s.T['flags'] % 2)]
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            if G['failed']: e.prove(o, z3.And(z3.Not(s.has(o, 'ok')), s.errno(o, 'ok') == s.err), 'inject: the writer\'s error is returned'); continue
            e.prove(o, s.has(o, 'ok'), 'inject: succeeds'); done += 1
            got = G['sets']; ok = len(got) == 1 and got[0][0] == ('text', 'x-cloud-trace-context') and got[0][1][0] == 'parts'
            e.prove(o, ok, 'inject: the context is written once, under its name')
            if ok: e.prove(o, same(got[0][1][1], want), 'inject: trace id, span id and sampling decision')
        e.cur = s.st; e.prove(s.st, done > 0, 'inject: succeeds where the writer does')
    return engs


def cloud_parse(ctx):
    """for a text of any length: the first 32 characters are the trace id, what follows / is the span id in decimal, ;o=0 says not sampled"""
    mod = ctx.module(['harness/propagation.cpp'] + CLOUD); n, D, q, num, base = z3.Ints('n D q number_written base'); S = z3.Array('text', z3.IntSort(), z3.IntSort()); V = z3.Bool('trace_id_parses'); objs = {}
    O = ctx.offsets(HDR, {**{k: (TC, m) for k, m in (('high', 'trace_id_high'), ('low', 'trace_id_low'), ('span', 'parent_id'), ('flags', 'trace_flags'), ('version', 'version'))}, 'ok.has': (OK, 'has_'), 'ok.error': (OK, 'error_')}, {'TC': TC, 'OK': OK})
    W = {k: 8 if k in ('flags', 'version') else 64 for k in ('high', 'low', 'span', 'flags', 'version')}; T = {k: z3.Int('tc_' + k) for k in W}; HI0, LO0 = z3.Ints('parsed_high parsed_low')
    digit = lambda c: z3.And(c >= 48, c <= 57)
    def hex128(g, st, a, i):
        p = g.norm_ptr(a[1]); g.prove(st, b_and(p.obj is text, z3.And(zi(p.off) == 0, zi(g.dom.u(g.as_int(a[2]))) == 32) if p.obj is text else False), 'parse: the trace id is the first 32 characters')
        r = g.norm_ptr(a[0]); t = st.clone(); st.assume(V); t.assume(z3.Not(V))
        for x, ok in ((st, True), (t, False)):
            g.store(x, Ptr(r.obj, g.dom.off_add(r.off, O['ok.has']), r.key), ir.INT(8), g.dom.const(8, int(ok)))
            if not ok: g.store(x, Ptr(r.obj, g.dom.off_add(r.off, O['ok.error']), r.key), ir.INT(32), IV(32, s=z3.IntVal(22))); g.store(x, Ptr(r.obj, g.dom.off_add(r.off, O['ok.error'] + 8), r.key), ir.PTR, Ptr(cat, 0))
            g.store(x, a[3], ir.INT(64), IV(64, u=HI0) if ok else g.fresh_val(x, ir.INT(64), 'partly read')); g.store(x, a[4], ir.INT(64), IV(64, u=LO0) if ok else g.fresh_val(x, ir.INT(64), 'partly read'))
        return [(st, None), (t, None)]
    def isdigit(g, st, a, i):
        c = zi(g.dom.s(a[0])); g.prove(st, z3.And(c >= -128, c < 256), 'memory: isdigit is given a character'); r = g.fresh_val(st, ir.INT(32), 'isdigit'); st.assume((zi(g.dom.s(r)) != 0) == digit(c)); return [(st, r)]
    def strtoull(g, st, a, i):
        p = g.norm_ptr(a[0]); k = zi(p.off); o = p.obj
        if o is None or o.kind != 'array': raise Unsupported('strtoull of other text')
        at = lambda j: z3.Select(g.arr(st, o, 0, o.layout[0]), j)
        g.prove(st, z3.And(k >= 0, k + D + 1 <= zi(o.n)), 'memory: the digits and their end are in the buffer')
        g.prove(st, z3.Implies(z3.And(q >= 0, q < D), at(k + q) == S[33 + q]), 'parse: the span id is read from its digits, all of them'); g.prove(st, at(k + D) == 0, 'parse: and nothing else')
        g.prove(st, zi(g.dom.s(a[2])) == 10, 'parse: in decimal'); g.prove(st, z3.And(n >= 34, S[32] == 47), 'parse: the span id follows a slash')
        t = st.clone(); st.assume(num < 2 ** 64); t.assume(num >= 2 ** 64); g.store(t, Ptr(err, 0), ir.INT(32), g.dom.const(32, 34))
        if g.norm_ptr(a[1]).obj is not None: raise Unsupported('strtoull with an end pointer')
        return [(st, IV(64, u=num)), (t, IV(64, u=z3.IntVal(2 ** 64 - 1)))]
    def ne(g, st, a, i):
        L, m, R, l = g.norm_ptr(a[0]), zi(g.dom.u(g.as_int(a[1]))), g.norm_ptr(a[2]), zi(g.dom.u(g.as_int(a[3])))
        if L.obj is not text: L, m, R, l = R, l, L, m
        l = z3.simplify(l)
        if L.obj is not text or getattr(R.obj, 'table', None) is None or not z3.is_int_value(l): raise Unsupported('comparison of other text')
        c = [x & 255 for x in R.obj.table][R.off:R.off + l.as_long()]
        g.prove(st, z3.And(zi(L.off) >= 0, zi(L.off) + m <= n), 'memory: a comparison stays inside the text')
        r = z3.And(m == len(c), *[S[zi(L.off) + j] == x for j, x in enumerate(c)])
        return [(st, z3.Not(r) if 'operator!=' in g.dem(i['callee'][1]) else r)]
    def strlen(g, st, a, i):
        p = g.norm_ptr(a[0]); b = bytes(x & 255 for x in p.obj.table)[p.off:]; return [(st, g.dom.const(64, b.index(0)))]
    def cand(e, view):
        out = []; xs = [x for x, _ in view.ints()]
        val = lambda w, x: zi(w.term(w.get(x)))
        for x in xs:
            for off in (0, 33):
                out.append(('%s <= %d + D' % (x, off), lambda w, x=x, off=off: val(w, x) <= off + D)); out.append(('%s >= %d' % (x, off), lambda w, x=x, off=off: val(w, x) >= off))
                for m in view.modset:
                    if len(m) == 2 and m[0] in objs: out.append(('copied up to %s - %d' % (x, off), lambda w, x=x, off=off, m=m: z3.Implies(z3.And(q >= 0, q < val(w, x) - off), z3.Select(e.arr(w.st, objs[m[0]], m[1], objs[m[0]].layout[m[1]]), q) == S[33 + q])))
            for y in xs:
                if str(x) < str(y): out += [('%s - %s = %d' % (x, y, c), lambda w, x=x, y=y, c=c: val(w, x) - val(w, y) == c) for c in (-33, 0, 33)]
        return out
    e = Engine(mod, name='ParseCloudTrace', contracts=[(rx(r'^lightstep::(Normalized)?HexToUint128\('), hex128), ('isdigit', isdigit), (rx(r'^(__isoc23_)?strtoull'), strtoull), ('__errno_location', lambda g, st, a, i: [(st, Ptr(err, 0))]), (rx(r'^opentracing::operator[!=]=\(opentracing::string_view'), ne), ('strlen', strlen), (rx(r'^std::_V2::(system|generic)_category\('), lambda g, st, a, i: [(st, Ptr(cat, 0))])],
               candidates=int_candidates([], (), cand)); st = State(); e.cur = st
    make = e.new_obj
    def new_obj(*a, **k): o = make(*a, **k); objs[o.id] = o; return o
    e.new_obj = new_obj
    text = e.new_obj(st, 'text', kind='array', stride=1, layout={0: ('int', 8, True)}, n=n); text.const = True; st.mem[text.id] = {0: S}; k = z3.Int('k')
    cat, err, tc, out = (e.new_obj(st, nm, kind='struct', size=sz) for nm, sz in (('category', 8), ('errno', 4), ('trace context', O['TC']), ('result', O['OK'])))
    for x, v in T.items(): st.assume(z3.And(v >= 0, v < 2 ** W[x])); e.store(st, Ptr(tc, O[x]), ir.INT(W[x]), IV(W[x], u=v))
    st.assume_q(z3.ForAll([k], z3.And(S[k] >= -128, S[k] < 128), patterns=[S[k]])); st.assume(z3.And(n >= 0, n < 2 ** 31, num >= 0, HI0 >= 0, HI0 < 2 ** 64, LO0 >= 0, LO0 < 2 ** 64))
    st.assume(z3.And(D >= 0, D <= 20, z3.Implies(n >= 33, 33 + D <= n), z3.Implies(n < 33, D == 0), z3.Implies(z3.And(D < 20, 33 + D < n), z3.Not(digit(S[33 + D])))))      # D: the number of digits of the span id
    st.assume_q(z3.ForAll([k], z3.Implies(z3.And(k >= 33, k < 33 + D), digit(S[k])), patterns=[S[k]]))
    sv, p = e.new_obj(st, 'value', kind='struct', size=16), e.new_obj(st, 'propagator', kind='struct', size=8)
    e.store(st, Ptr(sv, 0), ir.PTR, Ptr(text, 0)); e.store(st, Ptr(sv, 8), ir.INT(64), IV(64, u=n)); st.writes = frozenset(); st.gwrites = frozenset()
    outs = returns(e, e.run('vf_cloud_parse', st, [Ptr(p, 0), Ptr(sv, 0), Ptr(tc, 0), Ptr(out, 0)]), 'parse'); reachable(e, outs); kinds = set()
    full = n - 33 - D >= 4; mark = z3.And(S[33 + D] == 59, S[34 + D] == 111, S[35 + D] == 61)
    good = z3.And(n >= 32, V, z3.Implies(n >= 34, z3.And(S[32] == 47, num < 2 ** 64, z3.Implies(full, mark))))
    for o in outs:
        e.cur = o
        if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
        cell = lambda x: zi(e.dom.u(e.as_int(e.load(o, Ptr(tc, O[x]), ir.INT(W[x])))))
        has = zi(e.dom.u(e.as_int(e.load(o, Ptr(out, O['ok.has']), ir.INT(8))))) == 1
        e.prove(o, has == good, 'parse: succeeds exactly on well-formed text'); ok = o.clone(); ok.assume(good); e.cur = ok
        for nm, f in (('id alone', n < 34), ('id and span', z3.And(n >= 34, z3.Not(full))), ('all', z3.And(n >= 34, full))):
            if nm not in kinds and e.feasible(ok, f): kinds.add(nm)
        e.prove(ok, z3.And(cell('high') == HI0, cell('low') == LO0), 'parse: the trace id'); e.prove(ok, cell('span') == z3.If(n >= 34, num, T['span']), 'parse: the span id')
        e.prove(ok, cell('flags') % 2 == z3.If(z3.And(n >= 34, full, S[36 + D] == 48), 0, 1), 'parse: the sampling decision: yes unless it says 0'); e.prove(ok, z3.And(cell('flags') / 2 == T['flags'] / 2, cell('version') == T['version']), 'parse: nothing else changes')
        e.cur = o
    e.cur = st; e.prove(st, kinds == {'id alone', 'id and span', 'all'}, 'parse: short and long forms are read')
    d, f = z3.Ints('d f')       # what SerializeCloudTrace writes: 32 digits of id, /, d digits of span, ;o=, f
    lemma(e, 'the text which is written is well formed, and read back as it was', z3.Implies(z3.And(n == 37 + d, d >= 1, d <= 20, S[32] == 47, S[33 + d] == 59, S[34 + d] == 111, S[35 + d] == 61, S[36 + d] == 48 + f, f >= 0, f <= 1, V, num >= 0, num < 2 ** 64,
        z3.Implies(D < d, digit(S[33 + D])), D >= 0, D <= 20, 33 + D <= n, z3.Implies(z3.And(D < 20, 33 + D < n), z3.Not(digit(S[33 + D]))), z3.Implies(D > d, digit(S[33 + d]))), z3.And(D == d, good, z3.If(z3.And(n >= 34, full, S[36 + D] == 48), 0, 1) == f)))
    return e


def binary_inject(s, box):
    """contract of the binary encoding: the arguments in, an abstract encoding out"""
    def f(g, st, a, i):
        o = 1 if i['rt'][0] == 'void' else 0
        g.prove(st, b_and(g.ptr_eq(a[o + 4], Ptr(s.map, 0)), z3.And(zi(g.dom.u(g.as_int(a[o + 1]))) == s.T['low'], zi(g.dom.u(g.as_int(a[o + 2]))) == s.T['span'], zb(g.dom.s(a[o + 3]) != 0 if isinstance(a[o + 3], IV) else a[o + 3]) == (s.T['flags'] % 2 == 1))), 'inject: trace id, span id, sampling decision and baggage are encoded')
        t = st.clone(); st.ghost['encoded'] = g.norm_ptr(a[o]).obj; s.put_ok(st, g.norm_ptr(a[0]), 'ok', True); s.put_ok(t, g.norm_ptr(a[0]), 'ok', False, box['binerr'], 'system'); t.ghost['failed'] = True
        return [(st, None), (t, None)]
    return f


def envoy_inject(ctx):
    engs = []
    for kind in 'pf':
        box = dict(binerr=z3.Int('encoding_error')); EL, BL = z3.Ints('encoded_length base64_length')
        def ostr(g, st, a, i):
            g.prove(st, st.ghost.get('encoded') is g.norm_ptr(a[1]).obj and g.norm_ptr(a[1]).obj is not None, 'inject: the encoding is taken from the stream it was written to'); s.put_sv(st, a[0], Ptr(box['enc'], 0), EL); return [(st, None)]
        def encode(g, st, a, i):
            p = g.norm_ptr(a[1]); g.prove(st, b_and(p.obj is box['enc'], z3.And(zi(p.off) == 0, zi(g.dom.u(g.as_int(a[2]))) == EL) if p.obj is box['enc'] else False), 'inject: the whole encoding is written in base 64'); s.put_sv(st, a[0], Ptr(box['b64'], 0), BL); return [(st, None)]
        s = Prop(ctx, 'envoy inject', ENVOY, contracts=[(rx(r'^std::__cxx11::basic_o?stringstream<.*>::(basic_o?stringstream|~basic_o?stringstream)\('), noop), (rx(r'^std::__cxx11::basic_o?stringstream<.*>::str\(\)'), ostr), (rx(r'^lightstep::Base64::encode'), encode),
            (rx(r'lightstep::InjectSpanContext<.*>\(std::(basic_ostream<|ostream)'), lambda g, st, a, i: binary_inject(s, box)(g, st, a, i))]); e = s.e; engs.append(e); st = s.st
        for k in ('enc', 'b64'): box[k] = e.new_obj(st, k, kind='array', stride=1, layout={0: ('int', 8, False)}, n=z3.Int(k + '_size'))
        st.assume(z3.And(EL >= 0, EL < 2 ** 31, BL >= 0, BL < 2 ** 31, box['binerr'] > 0, box['binerr'] < 2 ** 31)); st.ghost['encoded'] = None
        p = e.new_obj(st, 'propagator', kind='struct', size=8); v = e.new_obj(st, 'trace state', kind='struct', size=16); s.put_sv(st, Ptr(v, 0), Ptr(s.vals, INIT), z3.Int('state_length'))
        outs = returns(e, e.run('vf_envoy_inject_' + kind, st, [Ptr(p, 0), Ptr(s.w, 0), Ptr(s.tc, 0), Ptr(v, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'inject'); reachable(e, outs); done = 0
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            if G['failed']: e.prove(o, z3.And(z3.Not(s.has(o, 'ok')), s.errno(o, 'ok') == (s.err if G['sets'] else box['binerr'])), 'inject: an error of the encoding or of the writer is returned'); continue
            e.prove(o, s.has(o, 'ok'), 'inject: succeeds'); done += 1; got = G['sets']; ok = len(got) == 1 and got[0][0] == ('text', 'x-ot-span-context') and got[0][1][0] == 'view'
            e.prove(o, ok, 'inject: the context is written once, under its name')
            if ok: e.prove(o, b_and(got[0][1][1].obj is box['b64'], z3.And(zi(got[0][1][1].off) == 0, got[0][1][2] == BL) if got[0][1][1].obj is box['b64'] else False), 'inject: the encoding in base 64')
        e.cur = s.st; e.prove(s.st, done > 0, 'inject: succeeds where the writer does')
    return engs


def envoy_extract(fold):
    def f(ctx):
        KEY = 'x-ot-span-context'; H, A = z3.Bool('has_context'), z3.Int('at_context'); DL = z3.Function('decoded_length', z3.IntSort(), z3.IntSort()); box = {}
        lerr, mode, LF, NF, BE, SM = z3.Int('lookup_error'), z3.Int('lookup'), z3.Bool('decodes'), z3.Bool('nothing_encoded'), z3.Int('decoding_error'), z3.Bool('was_sampled')
        def lookup(g, st, a, i):
            g.prove(st, s.const(a[2], g.dom.u(g.as_int(a[3]))) == KEY, 'extract: the header is looked up by its name'); out, p = [], g.norm_ptr(a[0])
            for m, c, cat in ((0, z3.And(mode == 0, H), None), (1, z3.And(mode == 0, z3.Not(H)), 4), (2, mode == 1, 5), (3, mode == 2, lerr)):
                t = st.clone(); t.assume(c)
                if m == 0: s.put_ok(t, p, 'sv', True); s.put_sv(t, Ptr(p.obj, g.dom.off_add(p.off, s.O['sv.value']), p.key), Ptr(s.vals, A * B), VL(A)); t.gset('cur', A)
                else: s.put_ok(t, p, 'sv', False, z3.IntVal(cat) if isinstance(cat, int) else cat, 'system' if m == 3 else 'propagation')
                out.append((t, None))
            return out
        def decode(g, st, a, i):
            p = g.norm_ptr(a[1]); g.prove(st, s.isval(st, p, g.dom.u(g.as_int(a[2]))), 'extract: the whole value of the header is decoded'); s.put_sv(st, a[0], Ptr(box['dec'], 0), DL(st.ghost['cur'])); return [(st, None)]
        def stream(g, st, a, i):
            p = g.norm_ptr(a[1]); g.prove(st, b_and(p.obj is box['dec'], z3.And(zi(p.off) == 0, zi(g.dom.u(g.as_int(a[2]))) == DL(st.ghost['cur'])) if p.obj is box['dec'] else False), 'extract: the stream reads all that was decoded'); st.ghost['stream'] = g.norm_ptr(a[0]).obj; return [(st, None)]
        def binary(g, st, a, i):
            g.prove(st, b_and(st.ghost['stream'] is not None and g.norm_ptr(a[1]).obj is st.ghost['stream'], g.ptr_eq(a[5], Ptr(s.map, 0))), 'extract: the context is read from that stream, baggage into the baggage'); p, k = g.norm_ptr(a[0]), st.ghost['cur']; out = []
            for ok, c in ((1, LF), (0, z3.And(z3.Not(LF), NF)), (-1, z3.And(z3.Not(LF), z3.Not(NF)))):
                t = st.clone(); t.assume(c); s.put_ok(t, p, 'found', ok >= 0, BE, 'system')
                if ok >= 0: g.store(t, Ptr(p.obj, g.dom.off_add(p.off, s.O['found.value']), p.key), ir.INT(8), g.dom.const(8, ok))
                if ok == 1:
                    t.assume(z3.And(LO(k) >= 0, LO(k) < 2 ** 64, FIELD['span'](k) >= 0, FIELD['span'](k) < 2 ** 64)); g.store(t, a[2], ir.INT(64), IV(64, u=LO(k))); g.store(t, a[3], ir.INT(64), IV(64, u=FIELD['span'](k))); g.store(t, a[4], ir.INT(8), IV(8, u=z3.If(SM, 1, 0))); t.ghost['read'] = True
                elif ok < 0:
                    for x, w in ((2, 64), (3, 64)): g.store(t, a[x], ir.INT(w), g.fresh_val(t, ir.INT(w), 'partly read'))
                out.append((t, None))
            return out
        s = Prop(ctx, 'envoy extract%s' % (', any case' if fold else ''), ENVOY, roles={KEY: (H, A)}, fold=fold, contracts=[(rx(r'^VfReader::LookupKey\('), lookup), (rx(r'^lightstep::Base64::decode'), decode), (rx(r'^lightstep::in_memory_stream::in_memory_stream\('), stream), (rx(r'^(virtual thunk to )?(lightstep::in_memory_(stream|buffer)::~|std::basic_(ios|istream|streambuf)<.*>::~)'), noop), (rx(r'^lightstep::ExtractSpanContext\(std::(basic_istream<|istream)'), binary)]); e = s.e; st = s.st
        box['dec'] = e.new_obj(st, 'decoded', kind='array', stride=1, layout={0: ('int', 8, False)}, n=z3.Int('decoded_size')); st.ghost.update(stream=None, read=False)
        st.assume(z3.And(mode >= 0, mode <= 2, lerr > 0, lerr < 2 ** 31, BE > 0, BE < 2 ** 31, A >= 0, z3.Implies(H, z3.And(A < s.n, KL(A) == len(KEY), z3.Not(BAG(A)))), DL(A) >= 0, DL(A) < 2 ** 31))
        so = e.new_obj(st, 'trace state', kind='struct', size=32); s.put_sv(st, Ptr(so, 0), Ptr(s.vals, INIT), z3.IntVal(0)); p = e.new_obj(st, 'propagator', kind='struct', size=8)
        outs = returns(e, e.run('vf_envoy_extract', st, [Ptr(p, 0), Ptr(s.r, 0), not fold, Ptr(s.tc, 0), Ptr(so, 0), Ptr(s.map, 0), Ptr(s.out, 0)]), 'extract'); reachable(e, outs); kinds = set()
        there = z3.And(mode != 2, H); good = z3.And(there, DL(A) > 0, LF); none = z3.Or(z3.And(mode == 0, z3.Not(H)), z3.And(mode == 1, z3.Not(H), s.x == 0), z3.And(there, DL(A) > 0, z3.Not(LF), NF))
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            has, val = s.has(o, 'found'), s.cell(o, 'found.value', s.out, 8) == 1
            e.prove(o, z3.And(has, val) == good, 'extract: a context is found exactly if its header is there and well formed'); e.prove(o, z3.And(has, z3.Not(val)) == none, 'extract: none is found exactly if there is no header, or nothing in it')
            e.prove(o, z3.Implies(good, z3.And(s.cell(o, 'high') == 0, s.cell(o, 'low') == LO(A), s.cell(o, 'span') == FIELD['span'](A), s.cell(o, 'flags') == z3.If(SM, 1, 0))), 'extract: the context of that header')
            err = s.errno(o, 'found')
            e.prove(o, z3.Implies(z3.Not(has), err == z3.If(mode == 2, lerr, z3.If(z3.Not(H), s.x, z3.If(DL(A) == 0, 3, BE)))), 'extract: the error of the reader or of the decoding is returned')
            e.prove(o, G['ins'] == 0, 'extract: baggage comes from the header alone')
            for nm, c in (('found', good), ('none', none), ('error', z3.Not(has)), ('found by search', z3.And(good, mode == 1))):
                if nm not in kinds and e.feasible(o, c): kinds.add(nm)
        e.cur = s.st; e.prove(s.st, kinds == {'found', 'none', 'error', 'found by search'}, 'extract: finds, finds none, or fails')
        return e
    return f


class Items:
    """a baggage map: items 0 .. n-1, each a pair of strings; both as a flat map and as a protobuf map"""
    def __init__(b): b.s = b.src = None
    def contracts(b):
        S = r'^std::__cxx11::basic_string<char,.*>::'; M = r'^google::protobuf::Map<std::__cxx11::basic_string<char.*>::'
        return [(lambda n, d: False, None), (rx(M + r'(begin|cbegin)\(\) const'), b.begin), (rx(M + r'(end|cend)\(\) const'), b.end), (rx(M + r'(empty)\(\) const'), b.empty), (rx(M + r'(size)\(\) const'), b.size), (rx(r'^google::protobuf::operator!=\(google::protobuf::Map<.*iterator'), b.ne), (rx(r'^google::protobuf::operator==\(google::protobuf::Map<.*iterator'), b.eq),
                (rx(M + r'const_iterator::operator\*\(\) const'), b.deref), (rx(M + r'const_iterator::operator->\(\) const'), b.deref), (rx(M + r'const_iterator::operator\+\+\(\)'), b.advance),
                (rx(S + r'data\(\) const|' + S + r'c_str\(\) const'), b.str_data), (rx(S + r'(size|length)\(\) const'), b.str_size)]
    def setup(b, s):
        b.s = s; e, st = s.e, s.st
        b.pairs = e.new_obj(st, 'items', kind='array', stride=64, layout={}, n=s.n); b.flat = e.new_obj(st, 'flat map', kind='struct', size=24)
        st.mem[b.flat.id] = {0: (8, Ptr(b.pairs, 0)), 8: (8, Ptr(b.pairs, s.n * 64)), 16: (8, Ptr(b.pairs, s.n * 64))}
    def at(b, p):
        """the item and the half of it which a string is"""
        p = b.s.e.norm_ptr(p)
        if p.obj is not b.pairs: return None
        i, c = b.s.e.elem(b.pairs, p.off); b.s.e.prove(b.s.e.cur, z3.And(zi(i) >= 0, zi(i) < b.s.n), 'memory: an item of the map'); return zi(i), c
    def str_data(b, g, st, a, i):
        x = b.at(a[0])
        if x is None: return [(st, b.s.sv(st, a[0])[0])]
        return [(st, Ptr(b.s.keys if x[1] == 0 else b.s.vals, x[0] * B))]
    def str_size(b, g, st, a, i):
        x = b.at(a[0])
        return [(st, IV(64, u=b.s.sv(st, a[0])[1] if x is None else (KL if x[1] == 0 else VL)(x[0])))]
    def index(b, st, p): return zi(b.s.e.dom.u(b.s.e.as_int(b.s.e.load(st, b.s.e.norm_ptr(p), ir.INT(64)))))
    def mapped(b, g, st, p): g.prove(st, g.ptr_eq(p, Ptr(b.src or b.s.map, 0)), 'the items of the baggage given')
    def begin(b, g, st, a, i): b.mapped(g, st, a[1]); g.store(st, a[0], ir.INT(64), IV(64, u=0)); return [(st, None)]
    def end(b, g, st, a, i): b.mapped(g, st, a[1]); g.store(st, a[0], ir.INT(64), IV(64, u=b.s.n)); return [(st, None)]
    def empty(b, g, st, a, i): b.mapped(g, st, a[0]); return [(st, b.s.n == 0)]
    def size(b, g, st, a, i): b.mapped(g, st, a[0]); return [(st, IV(64, u=b.s.n))]
    def ne(b, g, st, a, i): return [(st, b.index(st, a[0]) != b.index(st, a[1]))]
    def eq(b, g, st, a, i): return [(st, b.index(st, a[0]) == b.index(st, a[1]))]
    def deref(b, g, st, a, i): x = b.index(st, a[0]); g.prove(st, z3.And(x >= 0, x < b.s.n), 'memory: an item of the map'); return [(st, Ptr(b.pairs, x * 64))]
    def advance(b, g, st, a, i): x = b.index(st, a[0]); g.prove(st, z3.And(x >= 0, x < b.s.n), 'memory: the map is not left'); g.store(st, g.norm_ptr(a[0]), ir.INT(64), IV(64, u=x + 1)); return [(st, a[0])]
    def extra(b, s, v, seen): return [('is the count', lambda w: v(w) == w.st.ghost['k']), ('is the count of pairs', lambda w: v(w) == 64 * w.st.ghost['k'])]
    def glob(b, e, view):
        s = b.s; g = lambda w: w.st.ghost
        return [('taken once', lambda w: g(w)['written'] == z3.If(g(w)['k'] > s.p, 1, 0)), ('k >= 0', lambda w: g(w)['k'] >= 0), ('k <= n', lambda w: g(w)['k'] <= s.n), ('no error', lambda w: z3.Not(g(w)['bad']))]


def with_items(name, srcs, contracts, box):
    def make(ctx):
        b = Items(); s = Prop(ctx, name, srcs, contracts=list(contracts) + b.contracts()[1:], extra=b.extra); b.setup(s); old = s.cand
        s.e.candidates = int_candidates([], (), lambda e, view: old(e, view) + b.glob(e, view)); s.st.ghost.update(k=z3.IntVal(0), written=z3.IntVal(0), bad=z3.BoolVal(False), tail=z3.IntVal(-1)); box['s'], box['b'] = s, b
        return s, b
    return make


def baggage_inject(ctx):
    """each item is written once, under the prefix followed by its key"""
    engs = []
    for kind in 'pf':
        box = {}; PRE = 'ot-baggage-'
        def move(g, st, a, i):
            s = box['s']; p, n = s.sv(st, a[1]); c = s.const(p, n)
            if c is None: raise Unsupported('string assignment')
            g.prove(st, c == PRE, 'inject: keys begin with the prefix'); s.put_sv(st, a[0], Ptr(box['key'], 0), n); st.gset('tail', z3.IntVal(-1)); st.ghost['owner'] = g.norm_ptr(a[0]).obj; return [(st, a[0])]
        def own(g, st, p):
            if st.ghost.get('owner') is None or g.norm_ptr(p).obj is not st.ghost['owner']: raise Unsupported('operation on another string')
        def tailed(g, st, p, i):
            s, b = box['s'], box['b']; x = b.at(i)
            if x is None: raise Unsupported('string operation')
            g.prove(st, x[1] == 0, 'inject: the key follows the prefix'); q, n = s.sv(st, p); s.e.store(st, Ptr(g.norm_ptr(p).obj, g.dom.off_add(g.norm_ptr(p).off, 8)), ir.INT(64), IV(64, u=len(PRE) + KL(x[0]))); st.gset('tail', x[0])
        def replace(g, st, a, i):
            own(g, st, a[0]); s = box['s']; q, n = s.sv(st, a[0]); f, l = g.norm_ptr(a[1]), g.norm_ptr(a[2])
            g.prove(st, b_and(f.obj is box['key'] and l.obj is box['key'], z3.And(zi(f.off) == len(PRE), zi(l.off) == n) if f.obj is box['key'] and l.obj is box['key'] else False), 'inject: all after the prefix is replaced'); tailed(g, st, a[0], a[3]); return [(st, a[0])]
        def resize(g, st, a, i):
            own(g, st, a[0]); g.prove(st, zi(g.dom.u(g.as_int(a[1]))) == len(PRE), 'inject: the prefix is kept'); s = box['s']; s.e.store(st, Ptr(g.norm_ptr(a[0]).obj, g.dom.off_add(g.norm_ptr(a[0]).off, 8)), ir.INT(64), IV(64, u=z3.IntVal(len(PRE)))); st.gset('tail', z3.IntVal(-1)); return [(st, None)]
        def append(g, st, a, i): own(g, st, a[0]); g.prove(st, st.ghost['tail'] == -1, 'inject: the key follows the prefix alone'); tailed(g, st, a[0], a[1]); return [(st, a[0])]
        def begin(g, st, a, i): own(g, st, a[0]); return [(st, Ptr(box['key'], 0))]
        def end(g, st, a, i): own(g, st, a[0]); return [(st, Ptr(box['key'], box['s'].sv(st, a[0])[1]))]
        def put(g, st, a, i):
            s = box['s']; o = 1 if i['rt'][0] == 'void' else 0; k, v = g.norm_ptr(a[o + 1]), g.norm_ptr(a[o + 3]); x = st.ghost['tail']
            g.prove(st, b_and(g.ptr_eq(a[o], Ptr(s.w, 0)), z3.Not(st.ghost['bad'])), 'inject: nothing is written after an error')
            g.prove(st, b_and(k.obj is box['key'], z3.And(zi(k.off) == 0, x >= 0, zi(g.dom.u(g.as_int(a[o + 2]))) == len(PRE) + KL(x)) if k.obj is box['key'] else False), 'inject: an item is written under the prefix and its key')
            g.prove(st, b_and(v.obj is s.vals, z3.And(zi(v.off) == x * B, zi(g.dom.u(g.as_int(a[o + 4]))) == VL(x)) if v.obj is s.vals else False), 'inject: with its value, all of it')
            t = st.clone(); st.gset('k', x + 1); st.gset('written', st.ghost['written'] + z3.If(x == s.p, 1, 0)); t.gset('bad', z3.BoolVal(True))
            s.put_ok(st, g.norm_ptr(a[0]), 'ok', True); s.put_ok(t, g.norm_ptr(a[0]), 'ok', False, s.err, 'system'); return [(st, None), (t, None)]
        S = r'^std::__cxx11::basic_string<char,.*>::'
        s, b = with_items('baggage inject', [P + 'baggage_propagator.cpp', P + 'lightstep_propagator.cpp'], [(rx(S + r'operator=\(std::__cxx11::basic_string<'), move), (rx(S + r'replace\(__gnu_cxx::__normal_iterator'), replace), (rx(S + r'resize\(unsigned long\)'), resize), (rx(S + r'(append|operator\+=)\(std::__cxx11::basic_string<'), append), (rx(S + r'c?begin\(\)'), begin), (rx(S + r'c?end\(\)'), end), (rx(r'^VfWriter::Set\('), put)], box)(ctx); e, st = s.e, s.st; engs.append(e)
        box['key'] = e.new_obj(st, 'key', kind='array', stride=1, layout={0: ('int', 8, False)}, n=z3.Int('key_capacity')); st.ghost['owner'] = None
        p = e.new_obj(st, 'propagator', kind='struct', size=24); (st,) = returns(e, e.run('vf_baggage_make', st, [Ptr(p, 0)]), 'make'); st.frames = []; s.st = st; e.cur = st; st.writes = st.gwrites = frozenset()
        v = e.new_obj(st, 'trace state', kind='struct', size=16); s.put_sv(st, Ptr(v, 0), Ptr(s.vals, INIT), z3.Int('state_length'))
        outs = returns(e, e.run('vf_baggage_' + kind, st, [Ptr(p, 0), Ptr(s.w, 0), Ptr(s.tc, 0), Ptr(v, 0), Ptr(s.map if kind == 'p' else b.flat, 0), Ptr(s.out, 0)]), 'inject'); reachable(e, outs); kinds = set()
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            e.prove(o, z3.If(G['bad'], z3.And(z3.Not(s.has(o, 'ok')), s.errno(o, 'ok') == s.err), s.has(o, 'ok')), 'inject: succeeds unless the writer fails, whose error is returned')
            e.prove(o, z3.Implies(z3.Not(G['bad']), G['written'] == z3.If(s.p < s.n, 1, 0)), 'inject: every item is written, once')
            for nm, c in (('empty', s.n == 0), ('done', z3.And(z3.Not(G['bad']), s.n > 0)), ('error', G['bad'])):
                if nm not in kinds and e.feasible(o, c): kinds.add(nm)
        e.cur = s.st; e.prove(s.st, kinds == {'empty', 'done', 'error'}, 'inject: succeeds where the writer does')
    return engs


def binary_inject_unit(ctx):
    """every field of the message set from the arguments, every item of the baggage in it; then the message is serialized (trusted)"""
    engs = []
    for kind in 'pf':
        box = {}; SER, GOOD = z3.Bools('serialized stream_is_good'); T = dict(zip(('trace', 'span', 'sampled'), z3.Ints('trace_id span_id sampled')))
        S = r'^std::__cxx11::basic_string<char,.*>::'; M = r'^google::protobuf::Map<std::__cxx11::basic_string<char.*>::'
        def message(g, st, a, i): st.ghost['message'] = g.norm_ptr(a[0]).obj; st.gset('clear', z3.BoolVal(True)); return [(st, None)]
        def mine(g, st, p): g.prove(st, st.ghost['message'] is not None and g.norm_ptr(p).obj is st.ghost['message'], 'inject: into the message which is serialized')
        def clear(g, st, a, i): mine(g, st, a[0]); st.gset('clear', z3.BoolVal(True)); st.gset('k', z3.IntVal(0)); st.gset('written', z3.IntVal(0)); [st.gset('f_' + x, z3.IntVal(0)) for x in T]; return [(st, None)]
        def basic(g, st, a, i): mine(g, st, a[0]); return [(st, Ptr(box['basic'], 0))]
        def field(x):
            def f(g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(box['basic'], 0)), 'inject: into the message which is serialized'); v = a[1]; st.gset('f_' + x, zi(g.dom.u(v)) if isinstance(v, IV) else z3.If(zb(v), 1, 0)); return [(st, None)]
            return f
        def items(g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(box['basic'], 0)), 'inject: into the message which is serialized'); return [(st, Ptr(box['items'], 0))]
        def item(g, st, p, i):
            x = box['b'].at(p)
            if x is None: raise Unsupported('a string not of the baggage')
            g.prove(st, x[1] == i, 'inject: a key as key, a value as value'); return x[0]
        def index(g, st, a, i):
            g.prove(st, g.ptr_eq(a[0], Ptr(box['items'], 0)), 'inject: into the message which is serialized'); t = st.clone(); st.gset('slot', item(g, st, a[1], 0)); t.gset('bad', z3.BoolVal(True)); return [(st, Ptr(box['slot'], 0)), (t, Throw('_ZTISt9bad_alloc', NULL))]
        def assign(g, st, a, i):
            if g.norm_ptr(a[0]).obj is not box['slot']: raise Unsupported('string assignment')
            x = item(g, st, a[1], 32); g.prove(st, st.ghost['slot'] == x, 'inject: the value of an item under its key'); t = st.clone(); st.gset('k', x + 1); st.gset('written', st.ghost['written'] + z3.If(x == box['s'].p, 1, 0)); t.gset('bad', z3.BoolVal(True)); return [(st, a[0]), (t, Throw('_ZTISt9bad_alloc', NULL))]
        def serialize(g, st, a, i):
            s = box['s']; G = st.ghost; mine(g, st, a[0]); g.prove(st, g.ptr_eq(a[1], Ptr(box['stream'], 0)), 'inject: into the stream given')
            g.prove(st, z3.And(G['clear'], *[G['f_' + x] == T[x] for x in T]), 'inject: trace id, span id and sampling decision are in the message'); g.prove(st, z3.And(z3.Not(G['bad']), G['written'] == z3.If(s.p < s.n, 1, 0)), 'inject: every item of the baggage is in the message'); st.gset('ser', z3.BoolVal(True)); return [(st, SER)]
        def good(g, st, a, i): g.prove(st, st.ghost['flushed'], 'inject: the state of the stream is looked at once all has reached it'); return [(st, GOOD)]
        def flush(g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(box['stream'], 0)), 'inject: the stream given is flushed'); st.gset('flushed', z3.BoolVal(True)); return [(st, a[0])]
        s, b = with_items('binary inject', [P + 'binary_propagation.cpp'], [(rx(r'^lightstep::BinaryCarrier::BinaryCarrier\('), message), (rx(r'^lightstep::BinaryCarrier::~BinaryCarrier'), noop), (rx(r'^lightstep::BinaryCarrier::Clear\('), clear), (rx(r'^lightstep::BinaryCarrier::mutable_basic_ctx\('), basic),
            (rx(r'^lightstep::BasicTracerCarrier::set_trace_id\('), field('trace')), (rx(r'^lightstep::BasicTracerCarrier::set_span_id\('), field('span')), (rx(r'^lightstep::BasicTracerCarrier::set_sampled\('), field('sampled')), (rx(r'^lightstep::BasicTracerCarrier::mutable_baggage_items'), items),
            (rx(r'google::protobuf::Map<.*>::operator\[\]<'), index), (rx(S + r'operator=\(std::__cxx11::basic_string<.*> const&\)'), assign), (rx(r'^google::protobuf::MessageLite::SerializeToOstream\('), serialize), (rx(r'^std::(basic_ostream<.*>|ostream)::flush\('), flush), (rx(r'^std::basic_ios<.*>::good\(\) const'), good)], box)(ctx); e, st = s.e, s.st; engs.append(e)
        for x in ('basic', 'items', 'slot'): box[x] = e.new_obj(st, x, kind='struct', size=64)
        box['stream'] = virtual_stream(e, st)
        st.ghost.update(message=None, clear=z3.BoolVal(False), slot=z3.IntVal(-1), ser=z3.BoolVal(False), flushed=z3.BoolVal(False), **{'f_' + x: z3.IntVal(0) for x in T}); st.assume(z3.And(T['trace'] >= 0, T['trace'] < 2 ** 64, T['span'] >= 0, T['span'] < 2 ** 64, T['sampled'] >= 0, T['sampled'] <= 1)); st.writes = st.gwrites = frozenset()
        outs = returns(e, e.run('vf_binary_inject_' + kind, st, [Ptr(box['stream'], 0), IV(64, u=T['trace']), IV(64, u=T['span']), T['sampled'] == 1, Ptr(s.map if kind == 'p' else b.flat, 0), Ptr(s.out, 0)]), 'inject'); reachable(e, outs); kinds = set()
        for o in outs:
            e.cur = o; G = o.ghost
            if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
            ok = z3.And(G['ser'], SER, GOOD)
            e.prove(o, s.has(o, 'ok') == ok, 'inject: succeeds exactly if the stream took it'); e.prove(o, z3.Implies(z3.Not(ok), s.errno(o, 'ok') == z3.If(G['bad'], 12, 5)), 'inject: or says that memory or the stream failed')
            for nm, c in (('ok', ok), ('memory', G['bad']), ('stream', z3.And(G['ser'], z3.Not(ok)))):
                if nm not in kinds and e.feasible(o, c): kinds.add(nm)
        e.cur = s.st; e.prove(s.st, kinds == {'ok', 'memory', 'stream'}, 'inject: succeeds where the stream does')
    return engs


def virtual_stream(e, st):
    """an ostream or istream: its virtual base is found through its vtable; only its contracts are used"""
    o = e.new_obj(st, 'stream', kind='struct', size=512); vt = e.new_obj(st, 'stream vtable', kind='struct', size=64); st.mem[vt.id] = {0: (8, e.dom.const(64, 16)), 24: (8, NULL)}; st.mem[o.id] = {0: (8, Ptr(vt, 24))}
    return o


def binary_extract_unit(ctx):
    """a stream which parses yields the message's fields and every item of its baggage, in lower case"""
    box = {}; OKS, EMPTY, PARSES = z3.Bools('stream_is_good stream_is_empty parses'); T = dict(zip(('trace', 'span', 'sampled'), z3.Ints('trace_id span_id sampled')))
    S = r'^std::__cxx11::basic_string<char,.*>::'; M = r'^google::protobuf::Map<std::__cxx11::basic_string<char.*>::'
    def message(g, st, a, i): st.ghost['message'] = g.norm_ptr(a[0]).obj; return [(st, None)]
    def good(g, st, a, i): return [(st, OKS)]
    def peek(g, st, a, i): g.prove(st, z3.And(OKS, g.ptr_eq(a[0], Ptr(box['stream'], 0))), 'extract: a stream in error is not taken for an empty one'); c = z3.Int('first_character'); st.assume(z3.And(c >= -1, c < 256, (c == -1) == EMPTY)); return [(st, IV(32, s=c))]
    def parse(g, st, a, i): g.prove(st, b_and(st.ghost['message'] is not None and g.norm_ptr(a[0]).obj is st.ghost['message'], g.ptr_eq(a[1], Ptr(box['stream'], 0))), 'extract: the stream given is parsed'); st.gset('parsed', z3.BoolVal(True)); return [(st, PARSES)]
    def read(g, st): g.prove(st, z3.And(st.ghost['parsed'], PARSES), 'extract: only what was parsed is read')
    def basic(g, st, a, i): read(g, st); g.prove(st, st.ghost['message'] is not None and g.norm_ptr(a[0]).obj is st.ghost['message'], 'extract: the message parsed is read'); return [(st, Ptr(box['basic'], 0))]
    def field(x): return lambda g, st, a, i: [(st, T['sampled'] == 1 if x == 'sampled' else IV(64, u=T[x]))] if g.prove(st, g.ptr_eq(a[0], Ptr(box['basic'], 0)), 'extract: the message parsed is read') or True else None
    def items(g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(box['basic'], 0)), 'extract: the message parsed is read'); return [(st, Ptr(box['items'], 0))]
    def lower(g, st, a, i):
        s, b = box['s'], box['b']; p = g.norm_ptr(a[1]); n = zi(g.dom.u(g.as_int(a[2]))); x = st.ghost['k']
        g.prove(st, b_and(p.obj is s.keys, z3.And(zi(p.off) == x * B, n == KL(x)) if p.obj is s.keys else False), 'extract: a key is lower-cased, all of it'); t = st.clone(); t.gset('bad', z3.BoolVal(True)); s.put_sv(st, a[0], Ptr(s.low, x * B), n); return [(st, None), (t, Throw('_ZTISt9bad_alloc', NULL))]
    def copy(g, st, a, i):
        s, b = box['s'], box['b']; x = b.at(a[1])
        if x is None: q, n = s.sv(st, a[1]); s.put_sv(st, a[0], q, n)
        else: s.put_sv(st, a[0], Ptr(s.keys if x[1] == 0 else s.vals, x[0] * B), (KL if x[1] == 0 else VL)(x[0]))
        return [(st, None)]
    def newmap(g, st, a, i): st.ghost['result'] = g.norm_ptr(a[0]).obj; st.gset('written', z3.IntVal(0)); return [(st, None)]
    def insert(g, st, a, i):
        s = box['s']; o = 0 if i['rt'][0] != 'void' else 1; q = g.norm_ptr(a[-1]); g.prove(st, g.norm_ptr(a[-2]).obj in (st.ghost['result'], s.map), 'extract: into the baggage'); x = st.ghost['k']
        kp, kn = s.sv(st, q); vp, vn = s.sv(st, Ptr(q.obj, g.dom.off_add(q.off, 32), q.key)); kp, vp = g.norm_ptr(kp), g.norm_ptr(vp)
        g.prove(st, b_and(kp.obj is s.low and vp.obj is s.vals, z3.And(zi(kp.off) == x * B, kn == KL(x), zi(vp.off) == x * B, vn == VL(x)) if kp.obj is s.low and vp.obj is s.vals else False), 'extract: a baggage item has its key in lower case and its value')
        t = st.clone(); t.gset('bad', z3.BoolVal(True)); st.gset('written', st.ghost['written'] + z3.If(x == s.p, 1, 0)); st.gset('k', x + 1); return [(st, None if i['rt'][0] == 'void' else g.fresh_val(st, i['rt'], 'inserted')), (t, Throw('_ZTISt9bad_alloc', NULL))]
    def give(g, st, a, i): s = box['s']; g.prove(st, b_and(g.ptr_eq(a[0], Ptr(s.map, 0)), g.norm_ptr(a[1]).obj is st.ghost['result'] and st.ghost['result'] is not None), 'extract: the baggage is given to the caller'); st.gset('given', z3.BoolVal(True)); return [(st, a[0])]
    s, b = with_items('binary extract', [P + 'binary_propagation.cpp'], [(rx(r'^lightstep::BinaryCarrier::BinaryCarrier\('), message), (rx(r'^lightstep::BinaryCarrier::~BinaryCarrier'), noop), (rx(r'^lightstep::BinaryCarrier::basic_ctx\('), basic), (rx(r'^lightstep::BasicTracerCarrier::trace_id\('), field('trace')), (rx(r'^lightstep::BasicTracerCarrier::span_id\('), field('span')), (rx(r'^lightstep::BasicTracerCarrier::sampled\('), field('sampled')),
        (rx(r'^lightstep::BasicTracerCarrier::baggage_items'), items), (rx(r'^lightstep::ToLower\[abi:cxx11\]\(opentracing::string_view'), lower), (rx(S + r'basic_string\(std::__cxx11::basic_string<'), copy), (rx(M + r'Map\(\)'), newmap), (rx(M + r'~Map\(\)'), noop), (rx(M + r'insert\('), insert), (rx(M + r'operator=\('), give), (rx(M + r'swap\('), give),
        (rx(r'^std::basic_ios<.*>::good\(\) const'), good), (rx(r'^std::(basic_istream<.*>|istream)::peek\('), peek), (rx(r'^google::protobuf::MessageLite::ParseFromIstream\('), parse)], box)(ctx); e, st = s.e, s.st
    for x in ('basic', 'items'): box[x] = e.new_obj(st, x, kind='struct', size=64)
    b.src = box['items']; box['stream'] = virtual_stream(e, st); outs3 = [e.new_obj(st, x, kind='struct', size=8) for x in ('trace', 'span', 'sampled')]
    st.ghost.update(message=None, result=None, parsed=z3.BoolVal(False), given=z3.BoolVal(False)); st.assume(z3.And(T['trace'] >= 0, T['trace'] < 2 ** 64, T['span'] >= 0, T['span'] < 2 ** 64, T['sampled'] >= 0, T['sampled'] <= 1)); st.writes = st.gwrites = frozenset()
    outs = returns(e, e.run('vf_binary_extract', st, [Ptr(box['stream'], 0), *[Ptr(x, 0) for x in outs3], Ptr(s.map, 0), Ptr(s.out, 0)]), 'extract'); reachable(e, outs); kinds = set()
    for o in outs:
        e.cur = o; G = o.ghost
        if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
        has, val = s.has(o, 'found'), s.cell(o, 'found.value', s.out, 8) == 1; good_ = z3.And(OKS, z3.Not(EMPTY), PARSES, z3.Not(G['bad'])); none = z3.And(OKS, EMPTY)
        e.prove(o, z3.And(has, val) == good_, 'extract: a context is found exactly if the stream parses'); e.prove(o, z3.And(has, z3.Not(val)) == none, 'extract: none is found exactly in an empty stream')
        e.prove(o, z3.Implies(z3.Not(has), s.errno(o, 'found') == z3.If(z3.Not(OKS), 5, z3.If(PARSES, 12, 3))), 'extract: an error says what failed')
        f = o.clone(); f.assume(good_); e.cur = f
        if e.feasible(f, True) and e.check_valid(f, False, timeout=1500)[0] != 'proved':
            get = lambda x, w: zi(e.dom.u(e.as_int(e.load(f, Ptr(outs3[x], 0), ir.INT(w)))))
            e.prove(f, z3.And(get(0, 64) == T['trace'], get(1, 64) == T['span'], get(2, 8) == T['sampled']), 'extract: trace id, span id and sampling decision'); e.prove(f, z3.And(G['given'], G['written'] == z3.If(s.p < s.n, 1, 0)), 'extract: every item of the baggage, once')
        e.cur = o
        for nm, c in (('found', good_), ('none', none), ('error', z3.Not(has)), ('memory', G['bad'])):
            if nm not in kinds and e.feasible(o, c): kinds.add(nm)
    e.cur = s.st; e.prove(s.st, kinds == {'found', 'none', 'error', 'memory'}, 'extract: finds, finds none, or fails')
    return e


def all_formats(ctx, kind):
    """the loop over the formats of a list of any length: kind p, f - inject; t, h - extract"""
    inject = kind in 'pf'; box = {}; NONE, BAD, ERR = z3.Function('finds_none', z3.IntSort(), z3.BoolSort()), z3.Function('fails', z3.IntSort(), z3.BoolSort()), z3.Function('error_of', z3.IntSort(), z3.IntSort())
    def context(g, st, s, a, o):
        key = g.norm_ptr(a[o]).key
        if key is None or g.norm_ptr(a[o]).obj is not box['reg']: raise Unsupported('call of another propagator')
        j = zi(key) - 1; g.prove(st, z3.And(j == st.ghost['k'], j < s.n, st.ghost['stop'] == 0), 'the formats in the order of the list, none after one which failed%s' % ('' if inject else ' or found')); return j
    def inject_(g, st, a, i):
        s = box['s']; o = 1 if i['rt'][0] == 'void' else 0; j = context(g, st, s, a, o); q = g.norm_ptr(a[o + 3])
        g.prove(st, b_and(g.ptr_eq(a[o + 1], Ptr(s.w, 0)), g.ptr_eq(a[o + 2], Ptr(s.tc, 0)), g.ptr_eq(a[o + 5], Ptr(s.map, 0)), z3.And(zi(q.off) == INIT, zi(g.dom.u(g.as_int(a[o + 4]))) == box['n']) if q.obj is s.vals else False), 'inject: every format writes the context, the trace state and the baggage to the carrier')
        t = st.clone(); st.assume(z3.Not(BAD(j))); t.assume(BAD(j)); st.gset('k', j + 1); t.gset('stop', z3.IntVal(2)); t.assume(z3.And(ERR(j) > 0, ERR(j) < 2 ** 31)); s.put_ok(st, g.norm_ptr(a[0]), 'ok', True); s.put_ok(t, g.norm_ptr(a[0]), 'ok', False, ERR(j), 'system'); return [(st, None), (t, None)]
    def extract_(g, st, a, i):
        s = box['s']; j = context(g, st, s, a, 1); cs = a[3]; cs = zb(cs) if not isinstance(cs, IV) else zi(g.dom.u(cs)) != 0
        g.prove(st, b_and(g.ptr_eq(a[2], Ptr(s.r, 0)), cs == z3.BoolVal(kind == 't'), g.ptr_eq(a[4], Ptr(s.tc, 0)), g.ptr_eq(a[5], Ptr(box['so'], 0)), g.ptr_eq(a[6], Ptr(s.map, 0))), 'extract: every format reads the carrier into the context, names of http headers in any case')
        g.prove(st, st.ghost['clear'], 'extract: no baggage is left of a format which found nothing'); out = []
        for stop, c in ((0, z3.And(NONE(j), z3.Not(BAD(j)))), (1, z3.And(z3.Not(NONE(j)), z3.Not(BAD(j)))), (2, BAD(j))):
            t = st.clone(); t.assume(c); t.gset('clear', z3.BoolVal(False)); p = g.norm_ptr(a[0]); s.put_ok(t, p, 'found', stop < 2, ERR(j), 'system')
            if stop < 2: g.store(t, Ptr(p.obj, g.dom.off_add(p.off, s.O['found.value']), p.key), ir.INT(8), g.dom.const(8, stop))
            else: t.assume(z3.And(ERR(j) > 0, ERR(j) < 2 ** 31))
            if stop == 0: t.gset('k', j + 1)
            else: t.gset('stop', z3.IntVal(stop))
            out.append((t, None))
        return out
    def clear(g, st, a, i): g.prove(st, b_and(g.ptr_eq(a[0], Ptr(box['s'].map, 0)), st.ghost['stop'] == 0), 'extract: baggage which was found is kept'); st.gset('clear', z3.BoolVal(True)); return [(st, None)]
    def extra(s, v, seen): return [('is the count', lambda w: v(w) == w.st.ghost['k']), ('is the count of pointers', lambda w: v(w) == 8 * w.st.ghost['k'])]
    s = Prop(ctx, 'all formats', [P + 'propagation.cpp'], contracts=[(rx(r'^VfPropagator::InjectSpanContext\('), inject_), (rx(r'^VfPropagator::ExtractSpanContext\('), extract_), (rx(r'^google::protobuf::Map<.*>::clear\(\)'), clear)], extra=extra); e, st = s.e, s.st; box['s'] = s; old = s.cand; g = lambda w: w.st.ghost
    e.candidates = int_candidates([], (), lambda e, view: old(e, view) + [('k >= 0', lambda w: g(w)['k'] >= 0), ('k <= n', lambda w: g(w)['k'] <= s.n), ('going on', lambda w: g(w)['stop'] == 0), ('nothing so far', lambda w: z3.Implies(s.p < g(w)['k'], z3.And(z3.Not(BAD(s.p)), z3.Or(inject, NONE(s.p)))))])
    O = ctx.offsets(['tracer/propagation/propagation_options.h'], {'i': ('lightstep::PropagationOptions', 'inject_propagators'), 'x': ('lightstep::PropagationOptions', 'extract_propagators')}, {'size': 'lightstep::PropagationOptions'}); vt = e.gobj('_ZTV12VfPropagator')
    reg = box['reg'] = e.new_obj(st, 'propagator', kind='region', layout={0: ('ptr', lambda en, x, t: Ptr(vt, 16))}); arr = e.new_obj(st, 'propagators', kind='array', stride=8, layout={0: ('ptr', lambda en, x, t: Ptr(reg, 0, t))}, n=s.n); arr.const = True
    A = z3.Array('propagators', z3.IntSort(), z3.IntSort()); j = z3.Int('j'); st.mem[arr.id] = {0: A}; st.assume_q(z3.ForAll([j], A[j] == j + 1, patterns=[A[j]])); opts = e.new_obj(st, 'options', kind='struct', size=O['size']); st.mem[opts.id] = {O['i' if inject else 'x'] + 8 * k: (8, Ptr(arr, 0 if k == 0 else s.n * 8)) for k in range(3)}
    box['n'] = z3.Int('state_length'); st.assume(z3.And(box['n'] >= 0, box['n'] < 2 ** 31)); st.ghost.update(k=z3.IntVal(0), stop=z3.IntVal(0), clear=z3.BoolVal(False))
    v = e.new_obj(st, 'trace state', kind='struct', size=16); s.put_sv(st, Ptr(v, 0), Ptr(s.vals, INIT), box['n']); box['so'] = e.new_obj(st, 'trace state read', kind='struct', size=32); st.writes = st.gwrites = frozenset()
    args = [Ptr(opts, 0), Ptr(s.w, 0), Ptr(s.tc, 0), Ptr(v, 0), Ptr(s.map, 0), Ptr(s.out, 0)] if inject else [Ptr(opts, 0), Ptr(s.r, 0), Ptr(s.tc, 0), Ptr(box['so'], 0), Ptr(s.map, 0), Ptr(s.out, 0)]
    outs = returns(e, e.run('vf_%s_%s' % ('inject' if inject else 'extract', kind), st, args), 'all formats'); reachable(e, outs); kinds = set()
    for o in outs:
        e.cur = o; G = o.ghost
        if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
        k, stop = G['k'], G['stop']; w = 'ok' if inject else 'found'; has, val = s.has(o, w), z3.BoolVal(False) if inject else s.cell(o, 'found.value', s.out, 8) == 1
        e.prove(o, has == (stop != 2), 'succeeds unless a format fails'); e.prove(o, z3.Implies(stop == 2, z3.And(s.errno(o, w) == ERR(k), BAD(k), k < s.n)), 'the error of the first format which fails is returned')
        e.prove(o, z3.Implies(stop == 0, k == s.n), 'every format of the list has its turn'); e.prove(o, z3.Implies(s.p < k, z3.And(z3.Not(BAD(s.p)), z3.Or(inject, NONE(s.p)))), 'the first format which finds a context decides' if not inject else 'no error is lost')
        if not inject: e.prove(o, z3.Implies(has, val == (stop == 1)), 'extract: found exactly if a format found it'); e.prove(o, z3.Implies(stop == 1, z3.Not(NONE(k))), 'extract: the first format which finds a context decides')
        for x in (0, 2) if inject else (0, 1, 2):
            if x not in kinds and e.feasible(o, stop == x): kinds.add(x)
    e.cur = s.st; e.prove(s.st, kinds == ({0, 2} if inject else {0, 1, 2}), 'succeeds, finds, or fails')
    return e


ENVOY = [P + 'envoy_propagator.cpp']
CLOUD = [P + 'cloud_trace_propagator.cpp']


def units(ctx):
    U = [Unit('comparison up to case: ' + x, iequals([P + x + '.cpp']), ['(anonymous) iequals of ' + x], timeout=200) for x in ('multiheader_propagator', 'trace_context_propagator', 'cloud_trace_propagator', 'envoy_propagator')]
    for fmt in ('b3', 'lightstep'):
        U.append(Unit('%s: InjectSpanContext' % fmt, multi_inject(fmt), ['MultiheaderPropagator::InjectSpanContext', 'MultiheaderPropagator::InjectSpanContextImpl', 'MultiheaderPropagator::MultiheaderPropagator', 'MakeB3Propagator', 'MakeLightStepPropagator'], timeout=200))
        for fold in (False, True): U.append(Unit('%s: ExtractSpanContext%s' % (fmt, ', http headers' if fold else ', text map'), multi_extract(fmt, fold), ['MultiheaderPropagator::ExtractSpanContext', 'MultiheaderPropagator::ExtractSpanContextImpl'], timeout=300))
    U.append(Unit('trace context: InjectSpanContext', tc_inject, ['TraceContextPropagator::InjectSpanContext', '(static) InjectSpanContextImpl'], timeout=200))
    U.append(Unit('envoy: InjectSpanContext', envoy_inject, ['EnvoyPropagator::InjectSpanContext', 'EnvoyPropagator::InjectSpanContextImpl'], timeout=200))
    for fold in (False, True): U.append(Unit('envoy: ExtractSpanContext%s' % (', http headers' if fold else ', text map'), envoy_extract(fold), ['EnvoyPropagator::ExtractSpanContext', 'EnvoyPropagator::ExtractSpanContextImpl', 'LookupKey', 'AreErrorsEqual'], timeout=300))
    U.append(Unit('baggage: InjectSpanContext', baggage_inject, ['BaggagePropagator::BaggagePropagator', 'BaggagePropagator::InjectSpanContext', 'BaggagePropagator::InjectSpanContextImpl', '(static) InjectSpanContextBaggage'], timeout=200))
    U.append(Unit('binary: InjectSpanContext', binary_inject_unit, ['InjectSpanContext (binary)', '(static) InjectSpanContext (BinaryCarrier)'], timeout=200))
    U.append(Unit('binary: ExtractSpanContext', binary_extract_unit, ['ExtractSpanContext (binary)', '(static) ExtractSpanContext (BinaryCarrier)', '(static) ToLower (baggage)'], timeout=200))
    U.append(Unit('InjectSpanContext, all formats', lambda c: [all_formats(c, 'p'), all_formats(c, 'f')], ['InjectSpanContext'], timeout=200))
    U.append(Unit('ExtractSpanContext, all formats', lambda c: [all_formats(c, 't'), all_formats(c, 'h')], ['ExtractSpanContext', '(static) ExtractSpanContextImpl'], timeout=200))
    U.append(Unit('cloud: InjectSpanContext', cloud_inject, ['CloudTracePropagator::InjectSpanContext', 'CloudTracePropagator::InjectSpanContextImpl', 'CloudTracePropagator::SerializeCloudTrace'], timeout=200))
    U.append(Unit('cloud: ParseCloudTrace', cloud_parse, ['CloudTracePropagator::ParseCloudTrace'], timeout=300))
    for fmt, c in (('tc', 'TraceContextPropagator'), ('cloud', 'CloudTracePropagator')):
        for fold in (False, True): U.append(Unit('%s: ExtractSpanContext%s' % (fmt, ', http headers' if fold else ', text map'), single_extract(fmt, fold), [c + '::ExtractSpanContext', c + '::ExtractSpanContextImpl'], timeout=300))
    return U


def natives(ctx):
    srcs = [P + x + '.cpp' for x in ('b3_propagator', 'baggage_propagator', 'binary_propagation', 'cloud_trace_propagator', 'envoy_propagator', 'lightstep_propagator', 'multiheader_propagator', 'propagation', 'propagation_options', 'trace_context', 'trace_context_propagator')]
    srcs += ['src/common/' + x + '.cpp' for x in ('in_memory_stream', 'hex_conversion', 'utility')] + ['3rd_party/base64/src/base64.cpp']
    return [Native('native/C29.cpp', srcs=srcs, protos=True, gensrcs=[Q + x for x in ('lightstep_carrier.pb.cc', 'collector.pb.cc', 'google/api/annotations.pb.cc', 'google/api/http.pb.cc')], libs=['-lprotobuf', '-lpthread'], budget=(10, 60))]
