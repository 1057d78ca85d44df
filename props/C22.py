"""C22: FunctionRef - dispatch to exactly the bound callable."""
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['const callables are outside the class (binding one does not compile)', 'instantiations examined: object, function pointer, void/bool/reference results, move-only argument, copies; callables are opaque (their contract: any behaviour)',
               'a function reference does not outlive the callable it was made from (documented non-owning semantics)']


def build(ctx):
    m = ctx.module(['harness/c22.cpp'])
    engs = []

    def target(kind):
        def h(eng, st, args, ins):
            k = len(st.ghost.get('calls', ()))
            if kind == 'void': v = None
            elif kind == 'bool': v = eng.fresh_val(st, ir.INT(1), 'res')
            elif kind == 'ref':
                v = Ptr(eng.new_obj(st, 'resobj', kind='struct', size=24), 0)
            else: v = eng.fresh_val(st, ir.INT(64), 'res')
            extra = None
            if kind == 'move': extra = eng.load(st, args[1], ir.PTR)
            st.ghost['calls'] = st.ghost.get('calls', ()) + ((args, v, extra),)
            return [(st, v)]
        return h

    def fptr(eng, st, args, ins): return target('long')(eng, st, [None] + args, ins)
    C = [('vf::Functor::operator()', target('long')), ('vf::VFunctor::operator()', target('void')), ('vf::BFunctor::operator()', target('bool')),
         ('vf::MFunctor::operator()', target('move')), ('vf::RFunctor::operator()', target('ref')), ('vf_target', fptr)]

    def same(e, a, b):
        if isinstance(a, Ptr): return e.ptr_eq(a, b)
        return zb(simp(e.dom.eq(32, a, b))) if a.w == 32 else zb(simp(e.dom.eq(a.w, a, b)))

    def setup(name):
        e = Engine(m, name=name, contracts=C); engs.append(e)
        st = State(); e.cur = st
        f = e.new_obj(st, 'callable', kind='struct', size=8); b = e.new_obj(st, 'big', kind='struct', size=24); s = e.new_obj(st, 'str', kind='struct', size=8)
        x = e.fresh_val(st, ir.INT(32), 'x')
        return e, st, Ptr(f, 0), x, Ptr(s, 0), Ptr(b, 0)

    def check(e, outs, this, args, what, n=1):
        reachable(e, outs)
        for s in outs:
            e.cur = s
            cs = s.ghost.get('calls', ())
            e.prove(s, len(cs) == n, what + ': the callable is called exactly once')
            if len(cs) != n: continue
            got, v, extra = cs[0]
            if this is not None: e.prove(s, e.ptr_eq(got[0], this), what + ': it is called on the object the reference was made from')
            for i, a in enumerate(args):
                if a is not None: e.prove(s, same(e, got[1 + i], a), what + ': argument %d arrives unchanged' % (i + 1))
            if v is not None and s.outcome[1] is not None:
                e.prove(s, zb(v) == zb(s.outcome[1]) if not isinstance(v, (IV, Ptr)) else same(e, v, s.outcome[1]), what + ': its result is returned')
    for fn in ('vf_functor', 'vf_copy'):
        e, st, f, x, p, b = setup(fn)
        check(e, returns(e, e.run(fn, st, [f, x, p, b]), fn), f, [x, p, b], {'vf_functor': 'object', 'vf_copy': 'copied reference'}[fn])
    e, st, f, x, p, b = setup('vf_ptr')
    check(e, returns(e, e.run('vf_ptr', st, [Ptr(e.gobj('vf_target'), 0), x, p, b]), 'vf_ptr'), None, [x, p, b], 'function pointer')
    e, st, f, x, p, b = setup('vf_void')
    check(e, returns(e, e.run('vf_void', st, [f, x]), 'vf_void'), f, [x], 'void result')
    e, st, f, x, p, b = setup('vf_boolr')
    check(e, returns(e, e.run('vf_boolr', st, [f]), 'vf_boolr'), f, [], 'bool result')
    e, st, f, x, p, b = setup('vf_ref')
    check(e, returns(e, e.run('vf_ref', st, [f, b]), 'vf_ref'), f, [b], 'reference result')
    e, st, f, x, p, b = setup('vf_move')
    ho = e.new_obj(st, 'heapint', kind='struct', size=4, heap=True)
    outs = returns(e, e.run('vf_move', st, [f, Ptr(ho, 0), x]), 'vf_move')
    check(e, outs, f, [None, x], 'move-only argument')
    for s in outs:
        cs = s.ghost.get('calls', ())
        e.cur = s
        if len(cs) == 1: e.prove(s, e.ptr_eq(cs[0][2], Ptr(ho, 0)), 'move-only argument: ownership reaches the callable')
    e, st, f, x, p, b = setup('vf_twice')
    g = Ptr(e.new_obj(st, 'callable2', kind='struct', size=8), 0)
    for s in returns(e, e.run('vf_twice', st, [f, g, x, p, b]), 'vf_twice'):
        e.cur = s
        cs = s.ghost.get('calls', ())
        e.prove(s, len(cs) == 2, 'two references: each callable is called once')
        if len(cs) == 2: e.prove(s, z3.And(zb(e.ptr_eq(cs[0][0][0], f)), zb(e.ptr_eq(cs[1][0][0], g))), 'two references: each calls its own object')
    for fn, want in (('vf_bool_functor', True), ('vf_bool_null', False), ('vf_bool_copy', True), ('vf_bool_copy_null', False)):
        e, st, f, x, p, b = setup(fn)
        for s in returns(e, e.run(fn, st, [f] if m.funcs[fn].params else []), fn):
            e.cur = s
            e.prove(s, zb(s.outcome[1]) == want, '%s: a reference made from %s tests %s' % (fn, 'nothing' if not want else 'a callable', want))
    for tgt, want in ((True, True), (False, False)):
        e, st, f, x, p, b = setup('vf_bool_ptr')
        for s in returns(e, e.run('vf_bool_ptr', st, [Ptr(e.gobj('vf_target'), 0) if tgt else NULL]), 'vf_bool_ptr'):
            e.cur = s
            e.prove(s, zb(s.outcome[1]) == want, 'a reference made from a %s function pointer tests %s' % ('non-null' if tgt else 'null', want))
    return engs


def units(ctx):
    return [Unit('FunctionRef', build, ['FunctionRef::FunctionRef', 'FunctionRef::BindTo (object, function pointer, nullptr)', 'FunctionRef::operator()', 'FunctionRef::operator bool'])]


def natives(ctx):
    return [Native('native/C22.cpp', budget=(8, 40))]
