"""C25: W3C trace context - header text, parsing, round trip (contracts over texts of any length)."""
from cvg.runner import Unit, Native
from cvg.util import *
from props.C24 import dig, Val, S, P16, hexdigit, pairs

ASSUMPTIONS = ['the OpenTracing headers are not installed: string_view and expected<> are stand-ins with the documented interface (harness/stubs)', 'texts shorter than 2^60 bytes']
TRUSTED = []
SRC = ['harness/trace_context.cpp', 'src/tracer/propagation/trace_context.cpp', 'src/common/hex_conversion.cpp']
FIELDS = (('version', 0, 2, 8), ('trace_id_high', 3, 16, 64), ('trace_id_low', 19, 16, 64), ('parent_id', 36, 16, 64), ('trace_flags', 53, 2, 8))
DASHES = (2, 35, 52)
ENDS = (2, 19, 35, 52, 55)


def prepare(ctx):
    ctx.off = ctx.offsets(['tracer/propagation/trace_context.h'], {f[0]: ('lightstep::TraceContext', f[0]) for f in FIELDS}, {'size': 'lightstep::TraceContext'})


def parse(ctx):
    n, q = z3.Ints('n q')

    def cand(e, view):
        out = []
        names = [m for m, _ in view.ints()] + list(view.ptrs())
        def pos(w, m, entry=False):
            v = w.get_entry(m) if entry else w.get(m)
            return zi(v.off) if isinstance(v, Ptr) and v.obj is text else None
        ps = [m for m in names if pos(view, m) is not None]
        for m in ps:
            p = lambda w, m=m: pos(w, m)
            f = lambda w, m=m: pos(w, m, True)
            for x in ENDS: out.append(('%s up to %d' % (m, x), lambda w, p=p, x=x: p(w) <= x))
            out.append(('%s digits so far' % (m,), lambda w, p=p, f=f: z3.Implies(z3.And(q >= f(w), q < p(w)), dig(S[q]) >= 0)))
            for o in names:
                if o in ps: continue
                def r(w, o=o): return zi(e.dom.u(e.as_int(w.get(o))))
                def val(w, p=p, f=f, r=r):
                    w.st.assume(z3.And(Val(f(w), p(w) + 1) == 16 * Val(f(w), p(w)) + dig(S[p(w)]), Val(f(w), f(w)) == 0))       # the definition of Val here
                    return r(w) == Val(f(w), p(w))
                out.append(('%s is the number up to %s' % (o, m), val))
                out.append(('%s has the digits up to %s' % (o, m), lambda w, p=p, f=f, r=r: z3.And(r(w) >= 0, r(w) < P16(p(w) - f(w)))))
        return out
    e = Engine(ctx.module(SRC), name='ParseTraceContext', contracts=[(rx(r'(generic|system)_category'), lambda g, st, a, i: [(st, Ptr(cat, 0))])], candidates=int_candidates([], (), cand))
    st = State(); e.cur = st
    text = e.new_obj(st, 'text', kind='array', stride=1, layout={0: ('int', 8, False)}, n=n)
    text.const = True
    cat = e.new_obj(st, 'category', kind='struct', size=8)
    st.mem[text.id] = {0: S}
    k = z3.Int('k')
    st.assume_q(z3.ForAll([k], z3.And(S[k] >= 0, S[k] < 256), patterns=[S[k]]))
    st.assume(z3.And(n >= 0, n < 2 ** 60))
    tc = e.new_obj(st, 'context', kind='struct', size=ctx.off['size'])
    isfield = z3.Or([z3.And(q >= a, q < a + m) for _, a, m, _ in FIELDS])
    outs = returns(e, e.run('vf_parse', st, [Ptr(text, 0), IV(64, u=n), Ptr(tc, 0)]), 'parse'); reachable(e, outs)
    for o in outs:
        e.cur = o
        if e.check_valid(o, False, timeout=1500)[0] == 'proved': continue
        c = zb(o.outcome[1])
        for ok in (True, False):
            if not e.feasible(o, c if ok else z3.Not(c)): continue
            s = o.clone(); s.assume(c if ok else z3.Not(c)); e.cur = s
            if ok:
                e.prove(s, n >= 55, 'parsing: a text that is too short is refused')
                e.prove(s, z3.And([S[d] == 45 for d in DASHES]), 'parsing: the fields are separated by dashes')
                e.prove(s, z3.Implies(isfield, dig(S[q]) >= 0), 'parsing: a text with any other character is refused')
                for name, a, m, w in FIELDS:
                    s.assume(Val(a, a) == 0)
                    for j in range(a, a + m): s.assume(Val(a, j + 1) == 16 * Val(a, j) + dig(S[j]))
                    v = zi(e.dom.u(e.as_int(e.load(s, Ptr(tc, ctx.off[name]), ir.INT(w)))))
                    want = z3.IntVal(0)
                    for j in range(a, a + m): want = 16 * want + dig(S[j])
                    e.prove(s, v == want, 'parsing: %s is the number written' % name)
            else:
                s.assume(z3.And([S[d] == 45 for d in DASHES]))
                s.assume_q(z3.ForAll([k], z3.Implies(z3.Or([z3.And(k >= a, k < a + m) for _, a, m, _ in FIELDS]), dig(S[k]) >= 0), patterns=[S[k]]))
                e.prove(s, n < 55, 'parsing: a well-formed header is accepted')
    return e


def serialize(ctx):
    e = Engine(ctx.module(SRC), dom='bv', name='SerializeTraceContext'); e.table_fns = [pairs]
    st = State(); e.cur = st
    tc = e.new_obj(st, 'context', kind='struct', size=ctx.off['size'])
    v = {f[0]: z3.BitVec(f[0], f[3]) for f in FIELDS}
    st.mem[tc.id] = {ctx.off[f[0]]: (f[3] // 8, v[f[0]]) for f in FIELDS}
    out = e.new_obj(st, 'header', kind='struct', size=55)
    st.writes = frozenset()
    outs = returns(e, e.run('vf_serialize', st, [Ptr(tc, 0), Ptr(out, 0)]), 'serialize'); reachable(e, outs)
    for s in outs:
        e.cur = s
        for d in DASHES: e.prove(s, e.load(s, Ptr(out, d), ir.INT(8)) == 45, 'serializing: dash at %d' % d)
        for name, a, m, w in FIELDS:
            for j in range(m):
                nib = z3.ZeroExt(4, z3.Extract(w - 4 * j - 1, w - 4 * j - 4, v[name]))
                e.prove(s, e.load(s, Ptr(out, a + j), ir.INT(8)) == hexdigit(nib), 'serializing: digit %d of %s' % (j, name))
        e.prove(s, not [x for x in s.writes if x[0] == tc.id], 'serializing: the context is unchanged')
    return e


def flags(ctx):
    e = Engine(ctx.module(SRC), dom='bv', name='trace flags'); f = z3.BitVec('flags', 8)
    for val in (True, False):
        st = State(); e.cur = st
        for s in returns(e, e.run('vf_set', st, [f, val]), 'SetTraceFlag'):
            e.cur = s
            e.prove(s, s.outcome[1] == ((f | 1) if val else (f & 0xFE)), 'flags: exactly the sampled bit is %s' % ('set' if val else 'cleared'))
    st = State(); e.cur = st
    for s in returns(e, e.run('vf_is', st, [f]), 'IsTraceFlagSet'):
        e.cur = s; e.prove(s, zb(s.outcome[1]) == (f & 1 != 0), 'flags: the sampled bit is read')
    return e


def roundtrip(ctx):
    """digits written of a value read back as that value (positional notation), and the layouts of both directions agree"""
    e = Engine(ctx.module(SRC), name='round trip'); st = State(); e.cur = st
    for name, a, m, w in FIELDS:
        ds = z3.Ints(' '.join('%s_%d' % (name, k) for k in range(m)))
        t = State(); e.cur = t
        t.assume(z3.And([z3.And(d >= 0, d < 16, S[a + k] == z3.If(d < 10, 48 + d, 87 + d)) for k, d in enumerate(ds)]))
        got = z3.IntVal(0)
        for k in range(m): got = 16 * got + dig(S[a + k])
        e.prove(t, z3.And([dig(S[a + k]) == d for k, d in enumerate(ds)]), 'round trip: the digits written are digits (%s)' % name)
        e.prove(t, got == sum(d * 16 ** (m - 1 - k) for k, d in enumerate(ds)), 'round trip: %s comes back' % name)
    e.prove(st, sorted([d for d in DASHES] + [a + k for _, a, m, _ in FIELDS for k in range(m)]) == list(range(55)), 'layout: the fields and dashes are exactly the 55 characters')
    return e


def units(ctx):
    return [Unit('parse', parse, ['ParseTraceContext', 'NormalizedHexToUint8', 'NormalizedHexToUint64', 'NormalizedHexToUint128', 'HexToUintImpl'], timeout=600), Unit('serialize', serialize, ['SerializeTraceContext', 'Uint64ToHex', 'Uint8ToHex'], timeout=400), Unit('flags', flags, ['IsTraceFlagSet', 'SetTraceFlag']), Unit('round trip', roundtrip, ['(lemma)'])]


def natives(ctx):
    return [Native('native/C25.cpp', srcs=['src/tracer/propagation/trace_context.cpp', 'src/common/hex_conversion.cpp'], budget=(8, 40))]
