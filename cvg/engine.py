"""Symbolic executor / verification-condition generator over LLVM IR with function contracts.

 * A call is answered by the callee's contract when the task supplies one, otherwise the callee's body (from
   the same IR) is executed in place; an unknown callee without either is `Unsupported` (never guessed).
 * A loop is cut at its header: everything the body can change is havocked, the candidate invariants supplied
   by the task are filtered to the largest inductive subset (Houdini), and the body and the code behind the
   loop are checked once for an arbitrary iteration.  Loops of constant trip count are simply executed.
 * Obligations are discharged by z3, then cvc5.
"""
import os, subprocess, tempfile, time, itertools, sys
import z3
from . import ir
from .dom import *

sys.setrecursionlimit(20000)


class Throw:
    def __init__(self, ty, obj=None):
        self.ty = ty; self.obj = obj


class Obj:
    ids = itertools.count(1)

    def __init__(self, name, kind='struct', size=None, stride=None, layout=None, init='undef', n=None, const=False,
                 heap=False, dom='int'):
        self.id = next(Obj.ids); self.name = name; self.kind = kind; self.size = size; self.stride = stride
        self.layout = layout or {}; self.init = init; self.n = n; self.const = const; self.heap = heap
        self.addr = z3.Int('addr_%s_%d' % (name, self.id)) if dom == 'int' else z3.BitVec('addr_%s_%d' % (name, self.id), 64)
        self.sub = []          # (lo, hi, region): bytes [lo,hi) are the region element addr+lo
        self.initcache = {}
        self.fresh_fields = {} # off -> hint for lazily created cells: ('int',w,signed)|('ptr',decode)
        self.table = None      # python list of constant ints (constant byte tables)
        self.esize = None
        self.cells = None
        self.shared = None     # function(off) -> bool : concurrently accessed cell
        self.valid = None      # region: f(state, key) -> formula
        self.fname = None

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Ptr:
    __slots__ = ('obj', 'off', 'key')

    def __init__(self, obj, off=0, key=None):
        self.obj = obj; self.off = off; self.key = key

    def __repr__(self):
        return 'Ptr(%s%s+%s)' % (self.obj, '' if self.key is None else '[%s]' % self.key, self.off)


NULL = Ptr(None, 0)


class PtrInt:
    """result of ptrtoint, or (diff) the difference of two pointers into one object"""
    __slots__ = ('p', 'diff')
    def __init__(self, p=None, diff=None):
        self.p = p; self.diff = diff


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'env', 'callins', 'active', 'visits')

    def __init__(self, fn, env, callins):
        self.fn = fn; self.block = fn.entry; self.idx = 0; self.env = env; self.callins = callins
        self.active = (); self.visits = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.block = self.block; f.idx = self.idx; f.env = dict(self.env); f.callins = self.callins
        f.active = self.active; f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ('frames', 'pc', 'q', 'mem', 'ghost', 'freed', 'writes', 'gwrites', 'outcome', 'trace', 'exc', 'local')

    def __init__(self):
        self.frames = []; self.pc = []; self.q = []; self.mem = {}; self.ghost = {}; self.freed = frozenset()
        self.writes = frozenset(); self.gwrites = frozenset(); self.outcome = None; self.trace = (); self.exc = None
        self.local = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]; s.pc = list(self.pc); s.q = list(self.q)
        s.mem = dict(self.mem); s.ghost = dict(self.ghost); s.freed = self.freed
        s.writes = self.writes; s.gwrites = self.gwrites; s.outcome = self.outcome; s.trace = self.trace; s.exc = self.exc
        s.local = dict(self.local)
        return s

    def assume(self, f):
        if f is True: return self
        self.pc.append(zb(f)); return self

    def assume_q(self, f):
        if f is True: return self
        self.q.append(f); return self

    def gset(self, k, v):
        self.ghost[k] = v; self.gwrites = self.gwrites | {k}

    def note(self, s):
        self.trace = self.trace + (s,)


class Unknown:
    """a ghost value that a loop may have set or not: any use of it fails"""
    def __bool__(self): raise Unsupported('ghost value not known here')


def same_ghost(a, b):
    if isinstance(a, Unknown) and isinstance(b, Unknown): return True
    if a is b: return True
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(same_ghost(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(same_ghost(a[k], b[k]) for k in a)
    return type(a) is type(b) and isinstance(a, (int, str, bool, frozenset, set)) and a == b


class Obligation:
    def __init__(self, name, ok, status, model=None, backend='', secs=0.0, where='', trace=(), formula=None):
        self.name = name; self.ok = ok; self.status = status; self.model = model; self.backend = backend
        self.secs = secs; self.where = where; self.trace = trace; self.formula = formula


class Done(Exception):
    pass


class Engine:
    ALL = []
    def __init__(self, module, dom='int', contracts=None, candidates=None, loop_policy=None, timeout=15000,
                 on_atomic=None, after_atomic=None, unroll=64, name=''):
        Engine.ALL.append(self)
        self.m = module; self.L = ir.Layout(module)
        self.dom = (IntDom if dom == 'int' else BVDom)(self.oracle)
        self.domname = dom
        self.contracts = contracts or []       # list of (matcher(name, demangled) , handler)
        self.candidates = candidates           # f(eng, view) -> list of (label, f(view)->formula)
        self.loop_policy = loop_policy or (lambda fn, header: 'cut' if dom == 'int' else 'unroll')
        self.timeout = timeout; self.unroll = unroll
        self.obls = []; self.quiet = 0
        self.globals = {}; self.funcobjs = {}
        self.on_atomic = on_atomic; self.after_atomic = after_atomic
        self.cur = None
        self.os = z3.Solver(); self.os.set('timeout', 400); self.ostack = []
        self.memo = set()      # ghost entries that only remember terms (a subset of them is as good)
        self.stats = dict(feas=0, oracle=0, solver_s=0.0, z3=0, cvc5=0, loops=0, houdini_rounds=0, inv_kept=[], ranked=[], unranked=[], inlined=set(), contracts_used=set())
        self.demangled = {}
        self.axioms = []          # global assumptions (quantified lemmas)
        self.name = name
        self.default_external = None
        self.assert_is_obligation = True
        self.max_steps = 400000; self.steps = 0
        self.deadline = None
        self.ocache = {}
        self.cand_rlimit = 700000
        self.total = True    # prove that loops end ('try': where a measure is found)
        self.ranks = None

    # ---- solver ----------------------------------------------------------------------------------------
    def sync(self, pc):
        st = self.ostack
        k = 0
        while k < len(st) and k < len(pc) and st[k] is pc[k]:
            k += 1
        for _ in range(len(st) - k):
            self.os.pop()
        del st[k:]
        for f in pc[k:]:
            self.os.push(); self.os.add(f); st.append(f)

    def oracle(self, cond):
        if isinstance(cond, bool): return cond
        st = self.cur
        if st is None: return None
        self.stats['oracle'] += 1
        self.sync(st.pc)
        if self.os.check(z3.Not(cond)) == z3.unsat: return True
        if self.os.check(cond) == z3.unsat: return False
        return None

    def feasible(self, st, cond=True):
        if cond is False: return False
        self.stats['feas'] += 1
        self.sync(st.pc)
        return self.os.check(*([] if cond is True else [cond])) != z3.unsat

    def check_valid(self, st, goal, timeout=None, rlimit=None):
        """-> (status, model, backend, secs); status in proved / refuted / unknown"""
        t0 = time.time()
        if goal is True: return 'proved', None, 'syntactic', 0.0
        if st.q and rlimit is None and not _has_q(goal):      # most obligations need no quantified fact
            s = z3.Solver(); s.set('timeout', 1000)
            for f in st.pc: s.add(f)
            s.add(z3.Not(zb(goal)))
            if s.check() == z3.unsat:
                self.stats['z3'] += 1; self.stats['solver_s'] += time.time() - t0
                return 'proved', None, 'z3', time.time() - t0
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        if rlimit: s.set('rlimit', rlimit)
        for f in st.pc: s.add(f)
        for f in st.q: s.add(f)
        for f in self.axioms: s.add(f)
        s.add(z3.Not(zb(goal)))
        r = s.check()
        secs = time.time() - t0
        self.stats['solver_s'] += secs
        if r == z3.unsat:
            self.stats['z3'] += 1
            return 'proved', None, 'z3', secs
        if r == z3.sat:
            return 'refuted', s.model(), 'z3', secs
        # second back end
        if rlimit is None and (timeout is None or timeout >= 2000):
            st2 = self.cvc5(s, timeout or self.timeout)
            if st2 == 'unsat':
                self.stats['cvc5'] += 1
                return 'proved', None, 'cvc5', time.time() - t0
            if st2 == 'sat':
                return 'refuted', None, 'cvc5', time.time() - t0
        reason = s.reason_unknown()
        mdl = None
        try:
            mdl = s.model()
        except z3.Z3Exception:
            pass
        return ('unknown-timeout' if 'timeout' in reason or 'canceled' in reason else 'unknown'), mdl, 'z3', time.time() - t0

    def cvc5(self, solver, timeout):
        txt = '(set-logic ALL)\n' + solver.to_smt2()
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '-'], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
            out = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else ''
            return out
        except Exception:
            return 'error'

    def prove(self, st, goal, name, where='', timeout=None):
        """Record an obligation and assume it afterwards."""
        if self.quiet:
            if goal is not True and not isinstance(goal, bool) : st.assume_q(goal) if _has_q(goal) else st.assume(goal)
            if goal is False: st.assume(False)
            return True
        status, mdl, be, secs = self.check_valid(st, goal, timeout)
        self.obls.append(Obligation(name, status == 'proved', status, mdl, be, secs, where or self.where(st), st.trace, goal))
        if goal is False:
            st.assume(False)
        elif goal is not True:
            st.assume_q(goal) if _has_q(goal) else st.assume(goal)
        return status == 'proved'

    def where(self, st):
        if not st.frames: return ''
        f = st.frames[-1]
        return '%s:%s' % (self.dem(f.fn.name), f.block)

    def dem(self, n):
        if n not in self.demangled:
            names = [x for x in list(self.m.funcs) + list(self.m.decls) if x not in self.demangled]
            if n not in names: names.append(n)
            out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            for a, b in zip(names, out): self.demangled[a] = b
        return self.demangled[n]

    # ---- objects ---------------------------------------------------------------------------------------
    def new_obj(self, st, name, **kw):
        kw.setdefault('dom', self.domname)
        o = Obj(name, **kw)
        st.mem[o.id] = {}
        if o.kind == 'region': pass
        else:
            if self.domname == 'int':
                st.assume(o.addr > 0)
        return o

    def fobj(self, name):
        if name not in self.funcobjs:
            o = Obj('fn_' + name, kind='func', dom=self.domname); o.fname = name
            self.funcobjs[name] = o
        return self.funcobjs[name]

    def gobj(self, name):
        while name in self.m.aliases:
            name = self.m.aliases[name][1]
        if name in self.globals: return self.globals[name]
        if name in self.m.funcs or name in self.m.decls:
            return self.fobj(name)
        g = self.m.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        o = Obj('g_' + name, kind='struct', const=g['const'], dom=self.domname, init='symbolic')
        try:
            o.size = self.L.size(g['type'])
        except Exception:
            o.size = None
        self.globals[name] = o
        if g['init'] is not None:
            rt = self.L.resolve(g['type'])
            cells = {}
            tbl = self.byte_table(g['type'], g['init'])
            if tbl is not None:
                o.table = tbl
            elif g['init'][0] == 'zero':
                o.init = 'zero'
            else:
                self.flatten(g['type'], g['init'], 0, cells)
                o.cells = cells
                o.init = 'zero'
        return o

    def byte_table(self, ty, init):
        ty = self.L.resolve(ty)
        if ty[0] == 'struct' and len(ty[1]) == 1 and init[0] == 'agg':
            return self.byte_table(init[1][0][0], init[1][0][1])
        if ty[0] == 'array' and ty[2] == ('int', 8) and init[0] == 'bytes':
            return list(init[1])
        if ty[0] == 'array' and ty[2] == ('int', 8) and init[0] == 'agg':
            return [v[1] & 255 for _, v in init[1]]
        return None

    def flatten(self, ty, init, off, cells):
        ty = self.L.resolve(ty)
        if init[0] == 'zero':
            n = self.L.size(ty)
            for k in range(0, n, 8):
                w = min(8, n - k)
                if ty[0] in ('int', 'ptr') : w = n
                cells[off + k] = (w, self.dom.const(8 * w, 0) if w in (1, 2, 4, 8) else None)
            if ty[0] == 'ptr': cells[off] = (8, NULL)
            return
        if init[0] == 'undef': return
        if ty[0] in ('struct', 'array'):
            if init[0] == 'bytes':
                for i, b in enumerate(init[1]): cells[off + i] = (1, self.dom.const(8, b))
                return
            for i, (ety, v) in enumerate(init[1]):
                fo, _ = self.L.field(ty, i)
                self.flatten(ety, v, off + fo, cells)
            return
        cells[off] = (self.L.size(ty), self.constval(ty, init))

    def constval(self, ty, v):
        k = v[0]
        if k == 'int':
            if ty[1] == 1: return bool(v[1])
            return self.dom.const(ty[1], v[1])
        if k == 'null': return NULL
        if k == 'global': return Ptr(self.gobj(v[1]), 0)
        if k == 'zero':
            return self.zero(ty)
        if k == 'gep':
            p = self.constval(ir.PTR, v[2])
            return self.do_gep(None, v[1], p, [self.constval(t, x) for t, x in v[3]])
        if k == 'cast':
            if v[1] == 'ptrtoint': return PtrInt(self.constval(v[2], v[3]))
            if v[1] == 'inttoptr':
                a = self.constval(v[2], v[3])
                if isinstance(a, PtrInt): return a.p
                return Ptr(None, self.dom.idx(a))
            if v[1] == 'bitcast': return self.constval(v[2], v[3])
        if k == 'float':
            return ('float', v[1])
        if k == 'agg':
            return [self.constval(t, x) for t, x in v[1]]
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty):
        ty = self.L.resolve(ty)
        if ty[0] == 'int': return False if ty[1] == 1 else self.dom.const(ty[1], 0)
        if ty[0] == 'ptr': return NULL
        if ty[0] == 'struct': return [self.zero(t) for t in ty[1]]
        if ty[0] == 'array': return [self.zero(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero %r' % (ty,))

    # ---- values ----------------------------------------------------------------------------------------
    def fresh_val(self, st, ty, name, signed=None):
        ty = self.L.resolve(ty)
        if ty[0] == 'int':
            v, c = self.dom.fresh(ty[1], name, signed)
            if c is not True: st.assume(c)
            return v
        if ty[0] == 'ptr':
            t = z3.Int('%s_p!%d' % (name, next(Obj.ids))) if self.domname == 'int' else z3.BitVec('%s_p!%d' % (name, next(Obj.ids)), 64)
            if self.domname == 'int': st.assume(z3.And(t >= 0, t < 2 ** 64))
            return Ptr(None, t)
        if ty[0] == 'struct': return [self.fresh_val(st, t, name) for t in ty[1]]
        if ty[0] in ('double', 'float'): return ('float', name)
        raise Unsupported('fresh %r' % (ty,))

    def paddr(self, p):
        if p.obj is None: base = 0
        elif p.key is not None: base = p.key
        else: base = p.obj.addr
        if p.obj is None: return p.off
        return self.dom.off_add(base, p.off)

    def ptr_term(self, p):
        t = self.paddr(p)
        if is_c(t):
            return z3.IntVal(t) if self.domname == 'int' else z3.BitVecVal(t, 64)
        return t

    def norm_ptr(self, p):
        """map plain object pointers into a subregion they cover"""
        if p.obj is not None and p.key is None and p.obj.sub and is_c(p.off):
            for lo, hi, reg in p.obj.sub:
                if lo <= p.off < hi:
                    return Ptr(reg, p.off - lo, self.dom.off_add(p.obj.addr, lo))
        return p

    def ptr_eq(self, a, b):
        a = self.norm_ptr(a); b = self.norm_ptr(b)
        if a.obj is b.obj and a.obj is not None:
            if a.key is None and b.key is None: return self.dom.off_eq(a.off, b.off)
            if a.key is not None and b.key is not None:
                if is_c(a.key) and is_c(b.key) or (not is_c(a.key) and not is_c(b.key) and a.key.eq(b.key)):
                    return self.dom.off_eq(a.off, b.off)
        an = a.obj is None; bn = b.obj is None
        if an and bn: return self.dom.off_eq(a.off, b.off)
        for x, y in ((a, b), (b, a)):
            if x.obj is None and is_c(x.off) and x.off == 0:
                if y.key is None: return False          # address of a live object is not null
        if not an and not bn and a.key is None and b.key is None and a.obj is not b.obj:
            return False                               # distinct live objects
        if not an and not bn and (a.key is None) != (b.key is None):
            x = a if a.key is None else b
            if not getattr(x.obj, 'may_alias_region', False): return False
        return self.dom.off_eq(self.paddr(a), self.paddr(b))

    def ptr_cmp(self, pred, a, b):
        if pred == 'eq': return self.ptr_eq(a, b)
        if pred == 'ne': return b_not(self.ptr_eq(a, b))
        if a.obj is b.obj and a.obj is not None and a.key is None and b.key is None:
            return self.dom.off_cmp(pred[1:], a.off, b.off)
        return self.dom.off_cmp(pred[1:], self.paddr(a), self.paddr(b))

    def as_int(self, v, w=64):
        if isinstance(v, PtrInt):
            t = v.diff if v.diff is not None else self.paddr(v.p)
            if self.domname == 'int':
                return IV(64, s=t)
            return self.dom._o(t)
        if isinstance(v, Ptr):
            return self.as_int(PtrInt(v))
        return v

    def val(self, st, ty, v):
        if v[0] == 'local':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('use of undefined %%%s in %s' % (v[1], st.frames[-1].fn.name))
        if v[0] == 'undef':
            return self.fresh_val(st, ty, 'undef')
        return self.constval(self.L.resolve(ty), v)

    def do_gep(self, st, base, p, idx):
        off = p.off
        ty = base
        for n, iv in enumerate(idx):
            i = self.dom.idx(self.as_int(iv))
            if n == 0:
                off = self.dom.off_add(off, self.dom.off_mul(i, self.L.size(ty)) if self.L.size(ty) != 0 else 0)
            else:
                r = self.L.resolve(ty)
                if r[0] == 'struct':
                    fo, ty = self.L.field(r, i)
                    off = self.dom.off_add(off, fo)
                else:
                    ty = r[2]
                    off = self.dom.off_add(off, self.dom.off_mul(i, self.L.size(ty)))
        return Ptr(p.obj, off, p.key)

    # ---- memory ----------------------------------------------------------------------------------------
    def content(self, st, o):
        c = st.mem.get(o.id)
        if c is None:
            c = dict(o.cells) if o.cells else {}
            st.mem[o.id] = c
        return c

    def elem(self, o, off):
        """array object: offset -> (index, field offset)"""
        if is_c(off):
            return off // o.stride, off % o.stride
        if self.domname == 'int':
            d, c = linform(off)
            if all(k % o.stride == 0 for k, _ in d.values()):
                return from_lin({i: (k // o.stride, t) for i, (k, t) in d.items()}, c // o.stride), c % o.stride
            if o.stride == 1: return off, 0
            raise Unsupported('unaligned symbolic offset %s stride %d' % (off, o.stride))
        if o.stride == 1: return off, 0
        # bit-vectors: only forms k*stride + c
        sh = o.stride.bit_length() - 1
        if (1 << sh) == o.stride:
            low = z3.simplify(z3.Extract(sh - 1, 0, off))
            if z3.is_bv_value(low):
                return self.dom._so(z3.LShR(off, sh)), low.as_long()
        raise Unsupported('bv offset')

    def zidx(self, i):
        if is_c(i): return z3.IntVal(i) if self.domname == 'int' else z3.BitVecVal(i, 64)
        return i

    def spec_sort(self, spec):
        if self.domname == 'int': return z3.IntSort()
        return z3.BitVecSort(64 if spec[0] == 'ptr' else (8 if spec[1] == 1 else spec[1]))

    def arr(self, st, o, c, spec):
        cont = self.content(st, o)
        if c not in cont:
            ix = z3.IntSort() if self.domname == 'int' else z3.BitVecSort(64)
            a = o.initcache.get(c)
            if a is None:
                a = z3.Array('%s_%d.%d' % (o.name, o.id, c), ix, self.spec_sort(spec))
                o.initcache[c] = a
            cont = dict(cont); cont[c] = a; st.mem[o.id] = cont
        return st.mem[o.id][c]

    def decode(self, st, spec, term):
        if spec[0] == 'int':
            sg = spec[2] if len(spec) > 2 else (spec[1] in (16, 32))
            rg = self.dom.range(spec[1], term, sg)
            if rg is not True: st.assume(rg)
            return self.dom.from_term(spec[1], term, sg)
        d = spec[1]
        if d is None: 
            if self.domname == 'int': st.assume(z3.And(term >= 0, term < 2 ** 64))
            return Ptr(None, term)
        if isinstance(d, Obj): return Ptr(d, 0, term)
        return d(self, st, term)

    def encode(self, st, spec, v):
        if spec[0] == 'int':
            sg = spec[2] if len(spec) > 2 else (spec[1] in (16, 32))
            return self.dom.to_term(spec[1], self.as_int(v), sg)
        if isinstance(v, Ptr): return self.ptr_term(self.norm_ptr(v))
        if isinstance(v, PtrInt): return self.ptr_term(v.p)
        return self.dom.to_term(64, v, False)

    def access_ok(self, st, p, size, what):
        o = p.obj
        if o is None:
            if not is_c(p.off) and self.oracle(self.dom.off_eq(p.off, 0)) is not True:
                raise Unsupported('%s through a pointer of unknown provenance (%s)' % (what, p.off))
            self.prove(st, False, 'memory: %s through a null pointer' % what)
            raise Done()
        if o.id in st.freed:
            self.prove(st, False, 'memory: %s of freed object %s' % (what, o.name))
            raise Done()
        if o.kind == 'func': raise Unsupported('data access to function')

    def field_spec(self, o, c, size, ty):
        sp = o.layout.get(c)
        if sp is None:
            if ty[0] == 'ptr': sp = ('ptr', None)
            else: sp = ('int', 8 * size, size in (2, 4))
            o.layout[c] = sp
        return sp

    def load(self, st, p, ty, atomic=False):
        ty = self.L.resolve(ty)
        if ty[0] == 'struct':
            out = []
            for i in range(len(ty[1])):
                fo, ft = self.L.field(ty, i)
                out.append(self.load(st, Ptr(p.obj, self.dom.off_add(p.off, fo), p.key), ft))
            return out
        size = self.L.size(ty)
        p = self.norm_ptr(p)
        self.access_ok(st, p, size, 'load')
        o = p.obj
        if o.shared and not atomic and (o.shared is True or is_c(p.off) and o.shared(p.off)):
            self.prove(st, False, 'data race: non-atomic load of shared %s+%s' % (o.name, p.off))
        if ty[0] in ('double', 'float'):
            c = st.mem.get(o.id, {}).get(p.off) if o.kind == 'struct' and is_c(p.off) and p.key is None else None
            if c is not None and c[0] == size and isinstance(c[1], IV): return ('float', c[1])      # the same bits
            return ('float', 'load')
        if o.kind == 'region':
            if not is_c(p.off): raise Unsupported('symbolic offset in region element')
            if o.valid is not None:
                self.prove(st, o.valid(st, p.key), 'memory: load from a valid %s' % o.name)
            else:
                self.prove(st, b_not(self.dom.off_eq(p.key, 0)), 'memory: load through non-null %s pointer' % o.name)
            spec = self.field_spec(o, p.off, size, ty)
            self.spec_match(spec, ty, size)
            a = self.arr(st, o, p.off, spec)
            return self.conv(st, self.decode(st, spec, z3.Select(a, self.zidx(p.key))), ty)
        if o.kind == 'array':
            return self.load_array(st, o, p.off, ty, size)
        if o.kind != 'struct': raise Unsupported('load from ' + o.kind)
        if not is_c(p.off):
            if o.table is not None and size == 1:
                n = len(o.table)
                off = self.dom._o(p.off) if self.domname == 'bv' else p.off
                self.prove(st, z3.And(off >= 0, off < n), 'memory: index within table %s' % o.name)
                return self.table_load(o, off)
            c = self.make_array(st, o, size, ty)
            return self.load_array(st, o, p.off, ty, size)
        if o.size is not None and is_c(o.size) and (p.off < 0 or p.off + size > o.size):
            self.prove(st, False, 'memory: load within %s' % o.name); raise Done()
        if o.table is not None:
            v = 0
            for k in range(size): v |= o.table[p.off + k] << (8 * k)
            return self.conv(st, self.dom.const(8 * size, v), ty)
        return self.load_struct(st, o, p.off, ty, size)

    def table_load(self, o, off):
        tb = o.table
        if 'fn' not in o.initcache:         # a closed form of the table, used only if it is checked for every entry
            o.initcache['fn'] = None
            for f in getattr(self, 'table_fns', ()):
                k = (lambda i: z3.BitVecVal(i, 64)) if self.domname == 'bv' else z3.IntVal
                if all(z3.simplify(f(k(i))).as_long() == v for i, v in enumerate(tb)): o.initcache['fn'] = f; break
        if o.initcache['fn']:
            r = o.initcache['fn'](off)
            return r if self.domname == 'bv' else IV(8, u=r)
        runs = []
        i = 0
        while i < len(tb):
            # constant run or slope-1 run
            j = i + 1
            if j < len(tb) and tb[j] == tb[i]:
                while j < len(tb) and tb[j] == tb[i]: j += 1
                runs.append((i, j, 'c', tb[i]))
            else:
                while j < len(tb) and tb[j] - j == tb[i] - i: j += 1
                runs.append((i, j, 's', tb[i] - i))
            i = j
        if self.domname == 'bv':
            if len(runs) > 200:
                if 'tarr' not in o.initcache:
                    a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
                    for i, v in enumerate(tb): a = z3.Store(a, z3.BitVecVal(i, 64), z3.BitVecVal(v, 8))
                    o.initcache['tarr'] = a
                return z3.Select(o.initcache['tarr'], off)
            x = z3.Extract(7, 0, off)
            r = z3.BitVecVal(0, 8)
            for i, j, k, d in reversed(runs):
                r = z3.If(z3.ULT(off, j), z3.BitVecVal(d, 8) if k == 'c' else x + z3.BitVecVal(d % 256, 8), r)
            return r
        r = z3.IntVal(0)
        for i, j, k, d in reversed(runs):
            r = z3.If(off < j, z3.IntVal(d) if k == 'c' else off + d, r)
        return IV(8, u=r)

    def spec_match(self, spec, ty, size):
        if spec[0] == 'int':
            if (spec[1] + 7) // 8 != size: raise Unsupported('access size mismatch')
        elif size != 8: raise Unsupported('partial pointer access')

    def bounds(self, st, o, i, what):
        if o.n is None: return
        z = self.zidx(i)
        n = o.n(st) if callable(o.n) else o.n
        n = self.zidx(n) if is_c(n) else n
        self.prove(st, z3.And(z >= 0, z < n) if self.domname == 'int' else z3.ULT(z, n), 'memory: %s index within %s' % (what, o.name))

    def load_array(self, st, o, off, ty, size):
        i, c = self.elem(o, off)
        if o.stride == 1 and size > 1:
            v = None
            for k in range(size):
                b = self.load_array(st, o, self.dom.off_add(off, k), ir.INT(8), 1)
                v = b if v is None else (z3.Concat(b, v) if self.domname == 'bv' else IV(8 * (k + 1), u=iadd(v.u, imul(self.dom.u(b), 1 << (8 * k)))))
            return self.conv(st, v, ty)
        self.bounds(st, o, i, 'load')
        spec = self.field_spec(o, c, size, ty); self.spec_match(spec, ty, size)
        a = self.arr(st, o, c, spec)
        return self.conv(st, self.decode(st, spec, z3.Select(a, self.zidx(i))), ty)

    def store_array(self, st, o, off, ty, size, v):
        i, c = self.elem(o, off)
        if o.stride == 1 and size > 1:
            v = self.as_int(v)
            for k in range(size):
                if self.domname == 'bv': b = z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
                else:
                    u = self.dom.u(v); b = IV(8, u=(u >> (8 * k)) & 255 if is_c(u) else (u / (1 << (8 * k))) % 256)
                self.store_array(st, o, self.dom.off_add(off, k), ir.INT(8), 1, b)
            return
        self.bounds(st, o, i, 'store')
        spec = self.field_spec(o, c, size, ty); self.spec_match(spec, ty, size)
        a = self.arr(st, o, c, spec)
        cont = dict(self.content(st, o)); cont[c] = z3.Store(a, self.zidx(i), self.encode(st, spec, v))
        st.mem[o.id] = cont
        st.writes = st.writes | {(o.id, c)}

    def make_array(self, st, o, size, ty):
        """convert a struct-kind object (e.g. a local char buffer) to an array of `size`-byte elements"""
        cont = self.content(st, o)
        for k, (sz, v) in cont.items():
            if sz != size: raise Unsupported('symbolic index into mixed object %s' % o.name)
        if o.size is None or not is_c(o.size) or o.size % size: raise Unsupported('symbolic index into %s' % o.name)
        o2 = o
        spec = ('ptr', None) if ty[0] == 'ptr' else ('int', 8 * size, size in (2, 4))
        ix = z3.IntSort() if self.domname == 'int' else z3.BitVecSort(64)
        init = self.zidx(0) if False else None
        a = z3.Array('%s_%d.arr' % (o.name, o.id), ix, self.spec_sort(spec))
        if o.init == 'zero':
            a = z3.K(ix, z3.IntVal(0) if self.domname == 'int' else z3.BitVecVal(0, self.spec_sort(spec).size()))
        for k, (sz, v) in sorted(cont.items()):
            a = z3.Store(a, self.zidx(k // size), self.encode(st, spec, v))
        o.kind = 'array'; o.stride = size; o.layout = {0: spec}; o.n = o.size // size
        st.mem[o.id] = {0: a}

    def conv(self, st, v, ty):
        """adapt a stored value to the loaded type"""
        if ty[0] == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, bool) or v is None: raise Unsupported('bool as pointer')
            return Ptr(None, self.dom.idx(v))
        if ty[0] == 'int':
            if ty[1] == 1:
                if isinstance(v, bool) or z3.is_bool(v): return v
                return self.dom.cast('trunc', 8, 1, v)
            if isinstance(v, Ptr): return PtrInt(v)
            if isinstance(v, bool) or (not isinstance(v, (IV, PtrInt)) and z3.is_bool(v)):
                return self.dom.cast('zext', 1, ty[1], v)
            return v
        raise Unsupported('load %r' % (ty,))

    def init_cell(self, st, o, off, size, ty):
        k = (off, size)
        if k in o.initcache: 
            v, cs = o.initcache[k]
            for c in cs:
                if not any(c is x for x in st.pc): st.assume(c)
            return v
        n = len(st.pc)
        if callable(o.init):
            v = o.init(self, st, off, size, ty)
            if v is None: v = self.fresh_val(st, ty, '%s_%s' % (o.name, off))
        elif o.init == 'zero':
            v = NULL if ty[0] == 'ptr' else (self.dom.const(8 * size, 0))
        else:
            hint = o.fresh_fields.get(off)
            if hint is not None and hint[0] == 'ptr' and ty[0] == 'ptr':
                v = hint[1](self, st) if callable(hint[1]) else Ptr(hint[1])
            elif hint is not None and hint[0] == 'int':
                v = self.fresh_val(st, ir.INT(hint[1]), '%s_%d' % (o.name, off), hint[2])
            else:
                v = self.fresh_val(st, ty if ty[0] == 'ptr' else ir.INT(8 * size), '%s_%d' % (o.name, off))
        o.initcache[k] = (v, st.pc[n:])
        return v

    def load_struct(self, st, o, off, ty, size):
        cont = self.content(st, o)
        if off in cont and cont[off][0] == size:
            return self.conv(st, cont[off][1], ty)
        ov = [k for k, (sz, _) in cont.items() if k < off + size and off < k + sz]
        if not ov:
            v = self.init_cell(st, o, off, size, ty)
            cont = dict(cont); cont[off] = (size, v); st.mem[o.id] = cont
            return self.conv(st, v, ty)
        if self.domname != 'bv' and ty[0] == 'int':
            # several whole cells moved as one word: keep them apart
            cells = sorted((k, cont[k]) for k in ov); at = off
            for k, (sz, v) in cells:
                if k != at or not isinstance(v, IV): break
                at += sz
            else:
                if at == off + size:
                    r = self.dom.compose(8 * size, [(k - off, sz, v) for k, (sz, v) in cells])
                    return self.conv(st, r, ty)
        # assemble from bytes
        bs = [self.byte_at(st, o, off + i) for i in range(size)]
        return self.conv(st, self.join(bs), ty)

    def join(self, bs):
        if self.domname == 'bv':
            r = bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))
            return z3.simplify(r)
        t = 0
        for i, b in enumerate(bs): t = iadd(t, imul(self.dom.u(b), 1 << (8 * i)))
        return IV(8 * len(bs), u=t)

    def byte_at(self, st, o, off):
        cont = self.content(st, o)
        for k, (sz, v) in cont.items():
            if k <= off < k + sz:
                v = self.as_int(v)
                if isinstance(v, bool) or (not isinstance(v, IV) and z3.is_bool(v)): v = self.dom.cast('zext', 1, 8, v)
                j = off - k
                if sz == 1: return v
                if self.domname == 'bv': return z3.simplify(z3.Extract(8 * j + 7, 8 * j, v))
                u = self.dom.u(v)
                return IV(8, u=(u >> (8 * j)) & 255 if is_c(u) else (u / (1 << (8 * j))) % 256)
        v = self.init_cell(st, o, off, 1, ir.INT(8))
        cont = dict(cont); cont[off] = (1, v); st.mem[o.id] = cont
        return v

    def store(self, st, p, ty, v, atomic=False):
        ty = self.L.resolve(ty)
        if ty[0] in ('struct', 'array'):
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            for i in range(n):
                fo, ft = self.L.field(ty, i)
                self.store(st, Ptr(p.obj, self.dom.off_add(p.off, fo), p.key), ft, v[i])
            return
        size = self.L.size(ty)
        p = self.norm_ptr(p)
        self.access_ok(st, p, size, 'store')
        o = p.obj
        if o.const: self.prove(st, False, 'memory: store to constant %s' % o.name)
        if o.shared and not atomic and (o.shared is True or is_c(p.off) and o.shared(p.off)):
            self.prove(st, False, 'data race: non-atomic store to shared %s+%s' % (o.name, p.off))
        if ty[0] in ('double', 'float'):
            if o.kind == 'struct' and is_c(p.off) and self.domname == 'int':
                self.store_struct(st, o, p.off, size, v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], IV) else self.dom.fresh(8 * size, 'double'))
            return
        if o.kind == 'region':
            if not is_c(p.off): raise Unsupported('symbolic offset in region element')
            if o.valid is not None:
                self.prove(st, o.valid(st, p.key), 'memory: store to a valid %s' % o.name)
            else:
                self.prove(st, b_not(self.dom.off_eq(p.key, 0)), 'memory: store through non-null %s pointer' % o.name)
            spec = self.field_spec(o, p.off, size, ty); self.spec_match(spec, ty, size)
            a = self.arr(st, o, p.off, spec)
            cont = dict(self.content(st, o)); cont[p.off] = z3.Store(a, self.zidx(p.key), self.encode(st, spec, v))
            st.mem[o.id] = cont; st.writes = st.writes | {(o.id, p.off)}
            return
        if o.kind == 'array':
            return self.store_array(st, o, p.off, ty, size, v)
        if not is_c(p.off):
            self.make_array(st, o, size, ty)
            return self.store_array(st, o, p.off, ty, size, v)
        if o.size is not None and is_c(o.size) and (p.off < 0 or p.off + size > o.size):
            self.prove(st, False, 'memory: store within %s' % o.name); raise Done()
        self.store_struct(st, o, p.off, size, v)

    def store_struct(self, st, o, off, size, v):
        if isinstance(v, IV) and v.parts and len(v.parts) > 1 and v.w == 8 * size:
            at = 0
            for k, sz, x in v.parts + [(size, 0, None)]:
                while at < k:
                    n = next(n for n in (8, 4, 2, 1) if at % n == 0 and at + n <= k)
                    self.store_struct(st, o, off + at, n, IV(8 * n, u=0)); at += n
                if sz: self.store_struct(st, o, off + k, sz, x); at += sz
            return
        cont = dict(self.content(st, o))
        ov = [k for k, (sz, _) in cont.items() if k < off + size and off < k + sz and not (k == off and sz == size)]
        for k in ov:
            sz, old = cont[k]
            if k < off or k + sz > off + size:
                keep = [(b, self.byte_at(st, o, b)) for b in range(k, k + sz) if not (off <= b < off + size)]
                del cont[k]
                for b, bv in keep: cont[b] = (1, bv)
            else:
                del cont[k]
        cont[off] = (size, v)
        st.mem[o.id] = cont
        st.writes = st.writes | {(o.id, off, size)}

    def memcpy(self, st, d, s, n):
        d = self.norm_ptr(d); s = self.norm_ptr(s)
        nc = self.dom.idx(n) if not is_c(n) else n
        if not is_c(nc):
            r = None
            return self.memcpy_sym(st, d, s, nc)
        if nc == 0: return
        self.access_ok(st, d, nc, 'memcpy'); self.access_ok(st, s, nc, 'memcpy')
        if d.obj.kind == 'struct' and s.obj.kind == 'struct' and is_c(d.off) and is_c(s.off):
            if s.obj.table is not None:
                for k in range(nc): self.store_struct(st, d.obj, d.off + k, 1, self.dom.const(8, s.obj.table[s.off + k]))
                return
            for o, off in ((d.obj, d.off), (s.obj, s.off)):
                if o.size is not None and is_c(o.size) and (off < 0 or off + nc > o.size):
                    self.prove(st, False, 'memory: memcpy within %s' % o.name); raise Done()
            cont = self.content(st, s.obj)
            k = s.off; end = s.off + nc; todo = []
            while k < end:
                if k in cont and k + cont[k][0] <= end:
                    todo.append((k, cont[k][0], cont[k][1])); k += cont[k][0]; continue
                if any(a < k < a + sz for a, (sz, _) in cont.items()) or (k in cont):
                    todo.append((k, 1, self.byte_at(st, s.obj, k))); cont = self.content(st, s.obj); k += 1; continue
                # untouched gap
                g = k
                while g < end and not any(a <= g < a + sz for a, (sz, _) in cont.items()): g += 1
                for w in (8, 4, 2, 1):
                    if k % w == 0 and k + w <= g:
                        if s.obj.init == 'undef' and False: pass
                        v = self.load_struct(st, s.obj, k, ir.INT(8 * w), w); cont = self.content(st, s.obj)
                        todo.append((k, w, v)); k += w
                        break
            for k, sz, v in todo:
                self.store_struct(st, d.obj, d.off + k - s.off, sz, v)
            return
        # element-wise for arrays
        if s.obj.kind == 'array' and d.obj.kind == 'array' and s.obj.stride == d.obj.stride and nc % s.obj.stride == 0 and nc // s.obj.stride <= 64:
            vals = []
            for e in range(nc // s.obj.stride):
                for c, sp in list(s.obj.layout.items()):
                    ty = ir.PTR if sp[0] == 'ptr' else ir.INT(sp[1])
                    vals.append((e * s.obj.stride + c, ty, self.load(st, Ptr(s.obj, self.dom.off_add(s.off, e * s.obj.stride + c)), ty)))
            for o, ty, v in vals: self.store(st, Ptr(d.obj, self.dom.off_add(d.off, o)), ty, v)
            return
        if nc <= 64:
            lay = None
            for p in (s, d):
                if p.obj.kind in ('array', 'region') and p.obj.layout: lay = (p, p.obj.layout); break
            if lay is None:
                for p in (s, d):
                    if p.obj.kind == 'struct' and is_c(p.off):
                        cells = self.content(st, p.obj)
                        m = {k - p.off: ('ptr', None) if isinstance(v, Ptr) else ('int', 8 * sz) for k, (sz, v) in cells.items() if p.off <= k < p.off + nc}
                        if m: lay = (p, m); break
            if lay is not None:
                vals = []
                for c, sp in lay[1].items():
                    if c < nc:
                        ty = ir.PTR if sp[0] == 'ptr' else ir.INT(sp[1])
                        vals.append((c, ty, self.load(st, Ptr(s.obj, self.dom.off_add(s.off, c), s.key), ty)))
                for o, ty, v in vals: self.store(st, Ptr(d.obj, self.dom.off_add(d.off, o), d.key), ty, v)
                return
        self.memcpy_sym(st, d, s, nc)

    def memcpy_sym(self, st, d, s, n):
        """byte arrays, symbolic length"""
        for p in (d, s):
            if p.obj is None:
                # copying zero bytes through any pointer is fine
                if self.oracle(self.dom.off_eq(n, 0)) is True: return
                raise Unsupported('memcpy on unknown pointer')
        if d.obj.kind != 'array' or s.obj.kind != 'array' or d.obj.stride != 1 or s.obj.stride != 1:
            raise Unsupported('symbolic memcpy %s <- %s' % (d.obj, s.obj))
        z = self.zidx
        if self.domname != 'int': raise Unsupported('symbolic memcpy in bv domain')
        for p, w in ((d, 'store'), (s, 'load')):
            if p.obj.n is not None:
                pn = p.obj.n(st) if callable(p.obj.n) else p.obj.n
                self.prove(st, z3.And(z(p.off) >= 0, z(p.off) + z(n) <= z(pn)) if True else True, 'memory: memcpy %s within %s' % (w, p.obj.name))
        A = self.arr(st, s.obj, 0, ('int', 8, False)); D = self.arr(st, d.obj, 0, ('int', 8, False))
        i = z3.Int('i!mc%d' % next(Obj.ids))
        new = z3.Lambda([i], z3.If(z3.And(i >= d.off, i < d.off + n), z3.Select(A, i - d.off + s.off), z3.Select(D, i)))
        cont = dict(self.content(st, d.obj)); cont[0] = new; st.mem[d.obj.id] = cont
        st.writes = st.writes | {(d.obj.id, 0)}

    def memset(self, st, d, v, n):
        nc = self.dom.idx(n)
        d = self.norm_ptr(d)
        if not is_c(nc): raise Unsupported('symbolic memset')
        if nc == 0: return
        self.access_ok(st, d, nc, 'memset')
        b = v.const() if self.domname == 'int' else BVDom.cval(v)
        if d.obj.kind == 'struct' and is_c(d.off):
            if d.obj.size is not None and is_c(d.obj.size) and (d.off < 0 or d.off + nc > d.obj.size):
                self.prove(st, False, 'memory: memset within %s' % d.obj.name); raise Done()
            if b is None: raise Unsupported('memset value')
            k = d.off; end = d.off + nc
            while k < end:
                for w in (8, 4, 2, 1):
                    if k % w == 0 and k + w <= end:
                        self.store_struct(st, d.obj, k, w, self.dom.const(8 * w, int.from_bytes(bytes([b] * w), 'little'))); k += w; break
            return
        if d.obj.kind == 'region' and b == 0:
            for c, sp in sorted(d.obj.layout.items()):
                if d.off <= c < d.off + nc:
                    ty = ir.PTR if sp[0] == 'ptr' else ir.INT(sp[1])
                    self.store(st, Ptr(d.obj, c, d.key), ty, NULL if sp[0] == 'ptr' else self.dom.const(sp[1], 0))
            return
        raise Unsupported('memset on ' + d.obj.kind)

    # ---- exploration -----------------------------------------------------------------------------------
    def start(self, st, fname, args):
        fn = self.m.funcs[fname]
        env = {}
        for (ty, nm, at), a in zip(fn.params, args): env[nm] = a
        st.frames.append(Frame(fn, env, None))
        return st

    def run(self, fname, st, args):
        """execute a function to completion; returns end states with outcome ('ret',v) / ('throw',ty)"""
        base = len(st.frames)
        self.start(st, fname, args)
        return self.explore([st], lambda s, b: None, base)

    def explore(self, work, stop, base):
        """stop(state, block) is consulted on block entry; a state whose frames drop to `base` is finished."""
        out = []
        work = list(work)
        while work:
            st = work.pop()
            while True:
                if st.outcome is not None and len(st.frames) <= base:
                    out.append(st); break
                if st.outcome and st.outcome[0] == 'stop':
                    out.append(st); break
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
                self.cur = st
                try:
                    res = self.step(st, stop, base)
                except Done:
                    break
                if res is None: continue
                if len(res) == 1:
                    st = res[0]; continue
                work.extend(reversed(res))
                break
        return out

    def goto(self, st, target, stop, base):
        f = st.frames[-1]
        prev = f.block
        ins = f.fn.blocks[target]
        vals = []
        for i in ins:
            if i['op'] != 'phi': break
            for v, l in i['inc']:
                if l == prev:
                    vals.append((i['res'], self.val(st, i['ty'], v))); break
            else:
                raise Unsupported('phi')
        for k, v in vals: f.env[k] = v
        f.block = target; f.idx = len(vals)
        tag = stop(st, target)
        if tag:
            st.outcome = ('stop', tag); return [st]
        loops = f.fn.loops()
        if target in loops:
            body = loops[target]
            pol = self.loop_policy(f.fn, target)
            if prev not in body:
                f.visits[target] = 0
            if pol == 'unroll' or (pol == 'auto'):
                f.visits[target] = f.visits.get(target, 0) + 1
                if f.visits[target] > self.unroll:
                    if pol == 'unroll':
                        self.prove(st, False, 'unwinding: loop %s in %s exceeds %d iterations' % (target, self.dem(f.fn.name), self.unroll))
                        raise Done()
                return None
            if prev not in body:
                if self.leaves_at_once(st, target, body): return None
                return self.cut_ir_loop(st, target, body, stop, base)
        return None

    SIMPLE = {'icmp', 'br', 'getelementptr', 'load', 'add', 'sub', 'zext', 'sext', 'trunc', 'ptrtoint', 'select', 'and', 'or', 'xor', 'phi', 'freeze'}

    def leaves_at_once(self, st, header, body):
        """the loop's guard fails on entry: its body cannot run, so no invariant is needed"""
        f = st.frames[-1]
        if any(i['op'] not in self.SIMPLE or i.get('atomic') for i in f.fn.blocks[header]): return False
        last = f.fn.blocks[header][-1]
        if last['op'] != 'br' or last['cond'] is None or all(t in body for t in last['targets']): return False
        depth = len(st.frames)
        self.quiet += 1
        try:
            res = self.explore([st.clone()], lambda s, b: 'body' if b in body else 'exit', depth - 1)
        except Unsupported:
            return False
        finally:
            self.quiet -= 1; self.cur = st
        return bool(res) and all(s.outcome == ('stop', 'exit') for s in res)

    # loop cutting
    def cut_ir_loop(self, st, header, body, outer_stop, base):
        depth = len(st.frames)
        f = st.frames[-1]
        phis = [i for i in f.fn.blocks[header] if i['op'] == 'phi']

        def mkstop(s, b):
            if len(s.frames) == depth and s.frames[-1].fn is f.fn:
                if b == header: return 'back'
                if b not in body:
                    return 'exit'
            elif len(s.frames) < depth:
                return 'exit'
            return None

        def havoc(h, modset, gmod, ptrinfo):
            hf = h.frames[-1]
            for i in phis:
                r = i['res']; v = hf.env[r]
                hf.env[r] = self.havoc_val(h, v, i['ty'], 'phi_' + r, ptrinfo.get(('phi', r)))
            self.havoc_mem(h, modset, gmod, ptrinfo)

        def run_body(h):
            res = self.explore([h], mkstop, depth - 1)
            back, exits = [], []
            for s in res:
                if s.outcome[0] == 'stop' and s.outcome[1] == 'back': back.append(s)
                else: exits.append(s)
            return back, exits

        def phivals(s):
            e = s.frames[depth - 1].env
            return {('phi', i['res']): e[i['res']] for i in phis}

        exits = self.cut_loop(st, havoc, run_body, phivals, '%s/%s' % (self.dem(f.fn.name)[:60], header))
        out = []
        for s in exits:
            if s.outcome and s.outcome[0] == 'stop':
                s.outcome = None
                if len(s.frames) == depth or True:
                    tag = outer_stop(s, s.frames[-1].block)
                    if tag: s.outcome = ('stop', tag)
                    else:
                        # the exit target may itself be a loop header
                        fr = s.frames[-1]
                        lp = fr.fn.loops()
                        if fr.block in lp and self.loop_policy(fr.fn, fr.block) == 'cut' and self.entered_from_outside(s, fr):
                            r = self.cut_ir_loop(s, fr.block, lp[fr.block], outer_stop, base)
                            out.extend(r if r else [])
                            continue
            elif s.outcome and s.outcome[0] == 'throw' and len(s.frames) == depth - 1 > base:
                # a call (not an invoke) of the body threw out of this function: go on in its caller
                exc = s.outcome[1]; s.outcome = None; self.cur = s; ci = f.callins
                try:
                    r = self.goto(s, ci['unwind'], outer_stop, base) if ci['op'] == 'invoke' else self.unwind(s, exc, outer_stop, base)
                except Done:
                    continue
                out.extend([s] if r is None else r)
                continue
            out.append(s)
        return out

    def entered_from_outside(self, s, fr):
        return True

    def havoc_val(self, st, v, ty, name, pi=None):
        ty = self.L.resolve(ty) if ty is not None else None
        if isinstance(v, Ptr) or (ty and ty[0] == 'ptr'):
            kind = pi or ('off',)
            if kind[0] == 'same': return v
            if kind[0] == 'region':
                k = z3.Int('%s_k!%d' % (name, next(Obj.ids)))
                st.assume(z3.And(k >= 0, k < 2 ** 64))
                return Ptr(kind[1], 0, k)
            if kind[0] == 'raw':
                return self.fresh_val(st, ir.PTR, name)
            v = self.norm_ptr(v)
            if v.key is not None:
                k = z3.Int('%s_k!%d' % (name, next(Obj.ids)))
                st.assume(z3.And(k >= 0, k < 2 ** 64))
                return Ptr(v.obj, v.off, k)
            if v.obj is None:
                return self.fresh_val(st, ir.PTR, name)
            if v.obj.kind == 'func': return v
            if self.domname == 'bv':
                return Ptr(v.obj, z3.BitVec('%s_o!%d' % (name, next(Obj.ids)), 64))
            k = z3.Int('%s_o!%d' % (name, next(Obj.ids)))
            st.assume(z3.And(k > -2 ** 62, k < 2 ** 62))
            if v.obj.kind == 'array':
                # keep stride alignment: offset = stride*k + const
                _, c = self.elem(v.obj, v.off)
                return Ptr(v.obj, iadd(imul(k, v.obj.stride), c))
            return Ptr(v.obj, k)
        if isinstance(v, PtrInt):
            return self.fresh_val(st, ir.INT(64), name)
        if isinstance(v, IV):
            return self.fresh_val(st, ir.INT(v.w), name, signed=v.s is not None and (v.u is None or v.w in (16, 32)))
        if isinstance(v, bool) or z3.is_bool(v):
            return self.fresh_val(st, ir.INT(1), name)
        if isinstance(v, list):
            return [self.havoc_val(st, x, None, name) for x in v]
        if z3.is_bv(v): return self.fresh_val(st, ir.INT(v.size()), name)
        if isinstance(v, tuple): return v
        raise Unsupported('havoc %r' % (v,))

    def havoc_mem(self, st, modset, gmod, ptrinfo):
        for w in sorted(modset, key=str):
            oid = w[0]
            if oid not in st.mem: continue       # object born in the body
            cont = dict(st.mem[oid])
            if len(w) == 2:
                if w[1] in cont:
                    a = cont[w[1]]
                    cont[w[1]] = z3.Const('hv!%d' % next(Obj.ids), a.sort())
            else:
                off, size = w[1], w[2]
                if off in cont and cont[off][0] == size:
                    st.mem[oid] = cont
                    nv = self.havoc_val(st, cont[off][1], None, 'm%d_%d' % (oid, off), ptrinfo.get(w))
                    cont[off] = (size, nv)
                else:
                    # cell not yet materialised before the loop: drop overlapping cells, lazily fresh
                    for k in [k for k, (sz, _) in cont.items() if k < off + size and off < k + sz]: del cont[k]
                    if off not in cont:
                        cont[off] = (size, self.fresh_val(st, ir.INT(8 * size), 'm%d_%d' % (oid, off)) if size in (1, 2, 4, 8) else None)
                        if ptrinfo.get(w):
                            cont[off] = (size, self.havoc_val(st, NULL, ir.PTR, 'mp', ptrinfo.get(w)))
            st.mem[oid] = cont
        for g in gmod:
            v = st.ghost.get(g)
            if v is None or isinstance(v, Unknown):          # first set inside the loop: unusable until set again
                st.ghost[g] = Unknown(); continue
            st.ghost[g] = self.havoc_ghost(st, g, v)

    def havoc_ghost(self, st, g, v):
        if isinstance(v, (int, bool)) and not isinstance(v, bool):
            return z3.Int('gh_%s!%d' % (g, next(Obj.ids)))
        if isinstance(v, bool):
            return z3.Bool('gh_%s!%d' % (g, next(Obj.ids)))
        if isinstance(v, z3.ExprRef):
            return z3.Const('gh_%s!%d' % (g, next(Obj.ids)), v.sort())
        raise Unsupported('ghost havoc %s' % g)

    def cut_loop(self, entry, havoc, run_body, localvals, name, extra_candidates=None, ends=False):
        """generic invariant-based treatment of a loop.  havoc(state, modset, gmod, ptrinfo) makes the header state;
        run_body(state) -> (states back at the header, states that left)."""
        self.stats['loops'] += 1
        modset, gmod, ptrinfo = set(), set(), {}
        w0, g0 = entry.writes, entry.gwrites
        # 1. discover what the body changes
        self.quiet += 1
        try:
            for _ in range(12):
                h = entry.clone(); h.writes = frozenset(); h.gwrites = frozenset()
                born = next(Obj.ids)         # objects the body itself creates are not the loop's to havoc
                self.cur = h
                havoc(h, modset, gmod, ptrinfo)
                hv = localvals(h)
                backs, exits = run_body(h.clone())
                ch = False
                for s in backs + exits:
                    if s in backs:
                        ws = {w for w in s.writes if w[0] < born}
                        if not ws <= modset: modset |= ws; ch = True
                        gs = s.gwrites | {k for k in set(s.ghost) | set(h.ghost) if k not in self.memo and not same_ghost(s.ghost.get(k), h.ghost.get(k))}
                        if not gs <= gmod: gmod |= gs; ch = True
                for s in backs:
                    if any(i in entry.mem for i in s.freed - entry.freed): raise Unsupported('loop frees an object that existed before it: ' + name)
                    lv = localvals(s)
                    for k, v in lv.items():
                        if self.ptr_shape(k, hv[k], v, ptrinfo): ch = True
                    for w in modset:
                        if len(w) == 3 and w[0] in entry.mem:
                            c0 = h.mem.get(w[0], {}).get(w[1]); c1 = s.mem[w[0]].get(w[1])
                            if c0 is not None and c1 is not None and isinstance(c1[1], Ptr):
                                e = c0[1] if isinstance(c0[1], Ptr) else NULL
                                if self.ptr_shape(w, e, c1[1], ptrinfo): ch = True
                if not ch: break
            else:
                raise Unsupported('loop modification set does not stabilise in ' + name)
            # 2. Houdini
            cands = []
            if self.candidates or extra_candidates:
                h = entry.clone(); self.cur = h
                havoc(h, modset, gmod, ptrinfo)
                view = View(self, h, localvals(h), entry, localvals(entry), modset)
                if self.candidates: cands += list(self.candidates(self, view))
                if extra_candidates: cands += list(extra_candidates(self, view))
            self.cur = entry
            ev = View(self, entry, localvals(entry), entry, localvals(entry), modset)
            keep = []; gs = []
            for lab, fn in cands:
                try:
                    g = fn(ev)
                except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception) as x:
                    if DEBUG: print('DROP at entry', name, lab, repr(x))
                    continue
                keep.append((lab, fn)); gs.append(g)
            bad = self.failing(entry, gs)
            if DEBUG: print('DROP at entry', name, [keep[i][0] for i in sorted(bad)])
            keep = [k for i, k in enumerate(keep) if i not in bad]
            while True:
                self.stats['houdini_rounds'] += 1
                h = entry.clone(); h.writes = frozenset(); h.gwrites = frozenset(); self.cur = h
                havoc(h, modset, gmod, ptrinfo)
                hview = View(self, h, localvals(h), entry, localvals(entry), modset)
                self.assume_all(h, hview, keep)
                backs, exits = run_body(h)
                drop = set()
                for s in backs:
                    self.cur = s
                    v = View(self, s, localvals(s), entry, localvals(entry), modset)
                    ix = []; gs = []
                    for i, (lab, fn) in enumerate(keep):
                        if i in drop: continue
                        try:
                            g = fn(v)
                        except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception) as x:
                            if DEBUG: print('DROP', name, lab, repr(x))
                            drop.add(i); continue
                        ix.append(i); gs.append(g)
                    drop |= {ix[k] for k in self.failing(s, gs)}
                if not drop: break
                if DEBUG: print('DROP', name, [keep[i][0] for i in sorted(drop)])
                keep = [k for i, k in enumerate(keep) if i not in drop]
        finally:
            self.quiet -= 1
        # 3. final run, obligations on (unless nested in someone else's dry run)
        h = entry.clone(); h.writes = frozenset(); h.gwrites = frozenset(); self.cur = h
        havoc(h, modset, gmod, ptrinfo)
        hview = View(self, h, localvals(h), entry, localvals(entry), modset)
        self.assume_all(h, hview, keep)
        head = View(self, h.clone(), localvals(h), entry, localvals(entry), modset)
        if not self.quiet:
            self.stats['inv_kept'].append((name, [l for l, _ in keep]))
        backs, exits = run_body(h)
        for s in exits:
            s.writes = s.writes | w0 | frozenset(modset); s.gwrites = s.gwrites | g0 | frozenset(gmod)
        if not self.quiet:
            for s in backs:
                self.cur = s
                v = View(self, s, localvals(s), entry, localvals(entry), modset)
                for lab, fn in keep:
                    self.prove(s, fn(v), 'loop invariant preserved: %s [%s]' % (lab, name))
            if backs and self.total and not ends: self.terminates(head, backs, localvals, entry, modset, name)
        return exits

    def terminates(self, hview, backs, localvals, entry, modset, name):
        """the loop ends: some measure gets strictly smaller each time round and stays bounded.  Every machine integer and
        pointer offset is bounded, so any that only grows or only shrinks will do; self.ranks(view) may add measures (which
        must not get negative)."""
        views = [View(self, s, localvals(s), entry, localvals(entry), modset) for s in backs]
        ms = []
        for k, t in hview.ints():
            ms += [('%s grows' % (k,), None, lambda w, k=k: -_int(w.term(w.get(k)))), ('%s shrinks' % (k,), None, lambda w, k=k: _int(w.term(w.get(k))))]
        for lab, fn in (self.ranks(self, hview) if self.ranks else []): ms.append((lab, 0, fn))
        names = [k for k, _ in hview.ints()]
        for a in names:
            for b in names:
                if a != b: ms.append(('%s - %s shrinks' % (a, b), None, lambda w, a=a, b=b: _int(w.term(w.get(a))) - _int(w.term(w.get(b)))))
        good = None
        def step(m, v):
            x, y = m[2](hview), m[2](v); return z3.And(y < x, y >= 0) if m[1] is not None else y < x
        ok = []
        for m in ms:
            try:
                for v in views: step(m, v)
                ok.append(m)
            except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception): pass
        left = list(range(len(ok)))
        self.quiet += 1
        try:
            for v in views:
                self.cur = v.st
                bad = self.failing(v.st, [step(ok[i], v) for i in left])
                left = [i for j, i in enumerate(left) if j not in bad]
                if not left: break
        finally: self.quiet -= 1
        self.stats['ranked' if left else 'unranked'].append(name)
        for v in views:
            self.cur = v.st
            if left: self.prove(v.st, step(ok[left[0]], v), 'loop ends: %s [%s]' % (ok[left[0]][0], name))
            elif self.total is True and names and not self.on_atomic:      # a round that changes nothing: there is no such measure
                same = [_int(v.term(v.get(k))) == _int(t) for k, t in hview.ints()]
                self.prove(v.st, z3.Not(z3.And(same)), 'loop ends: no round leaves everything as it was [%s]' % name)

    def assume_all(self, h, view, keep):
        for lab, fn in keep:
            g = fn(view)
            if g is True: continue
            h.assume_q(g) if _has_q(g) else h.assume(g)

    def failing(self, st, gs):
        """indices of the formulas that cannot be shown to hold in st; models refute many at once"""
        bad = {i for i, g in enumerate(gs) if g is False}
        rest = [i for i, g in enumerate(gs) if not isinstance(g, bool)]
        t0 = time.time()
        qf = [i for i in rest if not _has_q(gs[i])]
        s = z3.Solver(); s.set('timeout', 20000); s.set('rlimit', self.cand_rlimit)
        for f in st.pc: s.add(f)
        for f in st.q: s.add(f)
        for f in self.axioms: s.add(f)
        left = list(qf); done = not left
        while left:
            s.push(); s.add(z3.Or([z3.Not(gs[i]) for i in left]))
            r = s.check()
            if r == z3.unsat: done = True
            if r != z3.sat: s.pop(); break
            m = s.model(); s.pop()
            drop = [i for i in left if z3.is_false(m.eval(gs[i], model_completion=True))]
            if not drop: break
            bad |= set(drop); left = [i for i in left if i not in bad]
            if not left: done = True
        self.stats['solver_s'] += time.time() - t0
        for i in rest:
            if i in bad or (done and i in left): continue
            if not self.holds(st, gs[i]): bad.add(i)
        return bad

    def holds(self, st, g):
        if isinstance(g, bool): return g
        # a resource limit rather than a time limit: the outcome must not depend on the load of the machine
        s = self.check_valid(st, g, timeout=20000, rlimit=self.cand_rlimit)[0]
        return s == 'proved'

    def ptr_shape(self, k, hv, v, ptrinfo):
        """does pointer value v at the back edge fit the shape assumed at the header? refine ptrinfo if not"""
        if not isinstance(v, Ptr): return False
        v = self.norm_ptr(v); 
        hv = self.norm_ptr(hv) if isinstance(hv, Ptr) else NULL
        if v.obj is hv.obj and (v.key is None) == (hv.key is None):
            if v.key is not None and is_c(v.off) and v.off != hv.off:
                raise Unsupported('loop pointer changes field')
            return False
        if v.key is not None and ptrinfo.get(k) != ('region', v.obj) and (hv.obj is None or hv.obj is v.obj):
            ptrinfo[k] = ('region', v.obj); return True
        if hv.key is not None and v.obj is None and is_c(v.off) and v.off == 0:
            return False      # null of that region
        if ptrinfo.get(k) != ('raw',):
            ptrinfo[k] = ('raw',); return True
        return False

    # ---- one instruction -------------------------------------------------------------------------------
    def branch(self, st, cond, targets, stop, base):
        c = simp(cond)
        if isinstance(c, bool):
            return self.goto(st, targets[0] if c else targets[1], stop, base)
        ft = self.feasible(st, c); ff = self.feasible(st, z3.Not(c))
        if ft and not ff:
            return self.goto(st, targets[0], stop, base)
        if ff and not ft:
            return self.goto(st, targets[1], stop, base)
        if not ft and not ff:
            raise Done()
        a = st.clone(); a.assume(c); b = st; b.assume(z3.Not(c))
        out = []
        for s, t in ((a, targets[0]), (b, targets[1])):
            self.cur = s
            try:
                r = self.goto(s, t, stop, base)
            except Done:
                continue
            out.extend([s] if r is None else r)
        if not out: raise Done()
        return out

    def step(self, st, stop, base):
        f = st.frames[-1]
        ins = f.fn.blocks[f.block][f.idx]
        op = ins['op']
        env = f.env
        V = lambda ty, v: self.val(st, ty, v)
        if op == 'br':
            if ins['cond'] is None:
                return self.goto(st, ins['targets'][0], stop, base)
            return self.branch(st, V(ir.INT(1), ins['cond']), ins['targets'], stop, base)
        if op == 'switch':
            v = self.as_int(V(ins['ty'], ins['v']))
            w = ins['ty'][1]
            c = v.const() if self.domname == 'int' else BVDom.cval(v)
            if c is not None:
                for k, l in ins['cases']:
                    if k % (1 << w) == c % (1 << w): return self.goto(st, l, stop, base)
                return self.goto(st, ins['default'], stop, base)
            out = []; neg = []
            for k, l in ins['cases'] + [(None, ins['default'])]:
                s = st.clone()
                for n in neg: s.assume(b_not(n))
                if k is not None:
                    e = self.dom.eq(w, v, self.dom.const(w, k)); neg.append(e)
                    if not self.feasible(s, e): continue
                    s.assume(e)
                elif not self.feasible(s): continue
                self.cur = s
                try:
                    r = self.goto(s, l, stop, base)
                except Done:
                    continue
                out.extend([s] if r is None else r)
            if not out: raise Done()
            return out
        if op == 'ret':
            v = V(ins['ty'], ins['val']) if ins['ty'] != ir.VOID else None
            return self.do_return(st, v, stop, base)
        if op == 'unreachable':
            self.prove(st, False, 'unreachable code is not reached')
            raise Done()
        if op in ('call', 'invoke'):
            return self.do_call(st, ins, stop, base)
        if op == 'resume':
            return self.unwind(st, st.exc, stop, base)
        r = None
        if op == 'alloca':
            n = V(*ins['n']); nc = self.dom.idx(n)
            if is_c(nc) and ins['n'][1][0] != 'local':
                try:
                    sz = self.L.size(ins['ty']) * nc
                except NotImplementedError:
                    sz = None
                o = self.new_obj(st, 'a_%s' % (ins['res']), kind='struct', size=sz)
            else:
                o = self.new_obj(st, 'vla_%s' % (ins['res']), kind='array', stride=1, size=None)
                o.vla_bytes = self.dom.off_mul(nc, self.L.size(ins['ty']))
                o.kind = 'vla'
            r = Ptr(o, 0)
        elif op == 'load':
            p = V(ir.PTR, ins['ptr'])
            if ins['atomic']:
                return self.atomic(st, ins, p)
            r = self.load(st, p, ins['ty'])
        elif op == 'store':
            p = V(ir.PTR, ins['ptr']); v = V(ins['ty'], ins['val'])
            if ins['atomic']:
                return self.atomic(st, ins, p, v)
            self.store(st, p, ins['ty'], v)
        elif op == 'getelementptr':
            r = self.do_gep(st, ins['base'], V(ir.PTR, ins['ptr']), [V(t, v) for t, v in ins['idx']])
            if r.obj is not None and r.obj.kind == 'vla' and len(ins['idx']) == 1:
                sz = self.L.size(ins['base'])
                if sz > 1: self.realise_vla(st, r.obj, sz, ins['base'])
        elif op in ir.BIN_OPS:
            a = V(ins['ty'], ins['a']); b = V(ins['ty'], ins['b'])
            if ins['ty'][0] in ('double', 'float'):
                r = ('float', op)
            else:
                if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p and b.p:
                    pa, pb = self.norm_ptr(a.p), self.norm_ptr(b.p)
                    if pa.obj is pb.obj and pa.obj is not None and pa.key is None:
                        r = PtrInt(diff=self.dom.off_add(pa.off, self.dom.off_mul(pb.off, -1)))
                if r is None and op == 'sdiv' and isinstance(a, PtrInt) and a.diff is not None and self.domname == 'int':
                    r = self.dom.bin('sdiv', 64, IV(64, s=a.diff), b, ins['flags'])
                if r is None and op == 'and' and isinstance(a, PtrInt) and a.p and ins['b'] == ('int', 1):
                    pa = self.norm_ptr(a.p)      # functions have even addresses (pointers to members use the lowest bit)
                    if pa.obj is not None and pa.obj.kind == 'func' and is_c(pa.off) and pa.off == 0: r = self.dom.const(64, 0)
                if r is None:
                    r = self.dom.bin(op, ins['ty'][1], self.as_int(a), self.as_int(b), ins['flags'])
        elif op == 'icmp':
            a = V(ins['ty'], ins['a']); b = V(ins['ty'], ins['b'])
            if ins['ty'] == ir.PTR:
                r = self.ptr_cmp(ins['pred'], a, b)
            else:
                r = self.dom.icmp(ins['pred'], ins['ty'][1], self.as_int(a), self.as_int(b))
            r = simp(r)
        elif op in ir.CAST_OPS:
            a = V(ins['ty'], ins['a'])
            if op == 'ptrtoint': r = PtrInt(a)
            elif op == 'inttoptr':
                r = a.p if isinstance(a, PtrInt) and a.p is not None else Ptr(None, self.dom.idx(self.as_int(a)))
            elif op == 'bitcast': r = a
            elif op in ('trunc', 'zext', 'sext'):
                r = self.dom.cast(op, ins['ty'][1], ins['to'][1], self.as_int(a))
                if op == 'trunc' and ins['to'][1] == 1: r = simp(r)
            else:
                r = self.fresh_val(st, ins['to'], 'fp')
        elif op == 'select':
            c = simp(V(ir.INT(1), ins['c'])); a = V(ins['ty'], ins['a']); b = V(ins['ty'], ins['b'])
            if not isinstance(c, bool):
                if isinstance(a, Ptr) or isinstance(a, list) or isinstance(a, PtrInt) or isinstance(b, PtrInt):
                    return self.fork(st, c, lambda s, t: self.finish(s, ins, a if t else b))
                r = self.dom.ite(ins['ty'][1], c, a, b)
            else: r = a if c else b
        elif op == 'extractvalue':
            r = V(ins['ty'], ins['a'])
            for i in ins['idx']: r = r[i]
        elif op == 'insertvalue':
            a = V(ins['ty'], ins['a']); r = _ins(a, ins['idx'], V(ins['vty'], ins['v']))
        elif op == 'freeze':
            r = V(ins['ty'], ins['a'])
        elif op == 'landingpad':
            return self.landing(st, ins)
        elif op == 'cmpxchg':
            return self.atomic(st, ins, V(ir.PTR, ins['ptr']), V(ins['ty'], ins['cmp']), V(ins['ty'], ins['new']))
        elif op == 'atomicrmw':
            return self.atomic(st, ins, V(ir.PTR, ins['ptr']), V(ins['ty'], ins['val']))
        elif op == 'fence':
            pass
        elif op == 'fcmp':
            r = self.fresh_val(st, ir.INT(1), 'fcmp')
        else:
            raise Unsupported('instruction ' + ins['text'])
        self.finish(st, ins, r)
        return None

    def realise_vla(self, st, o, sz, ty):
        o.kind = 'array'; o.stride = sz; o.layout = {}
        d = self.dom._exact(o.vla_bytes, sz) if self.domname == 'int' else None
        o.n = d

    def fork(self, st, c, k):
        out = []
        for t in (True, False):
            g = c if t else z3.Not(c)
            if not self.feasible(st, g): continue
            s = st.clone(); s.assume(g); self.cur = s
            k(s, t); out.append(s)
        if not out: raise Done()
        return out

    def finish(self, st, ins, r):
        f = st.frames[-1]
        if 'res' in ins and r is not None: f.env[ins['res']] = r
        f.idx += 1

    def do_return(self, st, v, stop, base):
        f = st.frames.pop()
        if len(st.frames) <= base:
            st.outcome = ('ret', v); return [st]
        ci = f.callins
        g = st.frames[-1]
        if 'res' in ci and v is not None: g.env[ci['res']] = v
        if ci['op'] == 'invoke':
            return self.goto(st, ci['normal'], stop, base)
        g.idx += 1
        return None

    def unwind(self, st, exc, stop, base):
        st.exc = exc
        f = st.frames.pop()
        while True:
            if len(st.frames) <= base:
                st.outcome = ('throw', exc); return [st]
            ci = f.callins
            if ci['op'] == 'invoke':
                return self.goto(st, ci['unwind'], stop, base)
            f = st.frames.pop()

    def throw_here(self, st, ins, exc, stop, base):
        """exception raised by the call instruction `ins` of the top frame"""
        st.exc = exc
        if ins['op'] == 'invoke':
            return self.goto(st, ins['unwind'], stop, base)
        return self.unwind(st, exc, stop, base)

    def landing(self, st, ins):
        sel = None
        for c in ins['clauses']:
            if c[0] == 'catch':
                if c[1][0] == 'null': sel = 1; break
                nm = c[1][1] if c[1][0] == 'global' else None
                if st.exc is not None and (nm == st.exc.ty or self.derived(st.exc.ty, nm)):
                    sel = self.typeid(nm); break
        if sel is None:
            if any(c[0] == 'cleanup' for c in ins['clauses']): sel = 0
            else:
                # not caught here: keep unwinding. (LLVM would not enter this pad.)
                sel = 0
        xo = st.exc.obj if st.exc is not None else None
        if not (isinstance(xo, Ptr) and xo.obj is not None): xo = Ptr(self.new_obj(st, 'exc', kind='struct', size=16), 0)
        self.finish(st, ins, [xo, self.dom.const(32, sel)])
        return None

    def derived(self, t, base):
        H = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception']}
        return base in H.get(t, [])

    def typeid(self, nm):
        return 2 + (hash(nm) % 1000003)

    # ---- atomics ---------------------------------------------------------------------------------------
    def atomic(self, st, ins, p, *vals):
        """One atomic step: the environment may act before it (on_atomic); after_atomic checks guarantee/invariant."""
        op = ins['op']
        ty = ins['ty']
        p = self.norm_ptr(p)
        states = [st]
        if self.on_atomic:
            r = self.on_atomic(self, st, ins, p)
            if r is not None: states = r
        out = []
        for s in states:
            self.cur = s
            old = self.load(s, p, ty, atomic=True)
            pre = s.clone() if self.after_atomic else None
            if op == 'load':
                self.finish(s, ins, old)
                if self.after_atomic: self.after_atomic(self, pre, s, ins, p, 'load', old, None)
                out.append(s)
            elif op == 'store':
                self.store(s, p, ty, vals[0], atomic=True)
                self.finish(s, ins, None)
                if self.after_atomic: self.after_atomic(self, pre, s, ins, p, 'store', old, vals[0])
                out.append(s)
            elif op == 'atomicrmw':
                v = vals[0]
                k = ins['rmw']
                if k == 'xchg': nv = v
                elif k in ('add', 'sub', 'and', 'or', 'xor'):
                    nv = self.dom.bin(k, ty[1], self.as_int(old), self.as_int(v), {'nsw'} if ins.get('nsw') else set())
                else: raise Unsupported('atomicrmw ' + k)
                self.store(s, p, ty, nv, atomic=True)
                self.finish(s, ins, old)
                if self.after_atomic: self.after_atomic(self, pre, s, ins, p, 'rmw', old, nv)
                out.append(s)
            elif op == 'cmpxchg':
                cmpv, newv = vals
                eq = simp(self.ptr_eq(old, cmpv) if ty == ir.PTR else self.dom.eq(ty[1], self.as_int(old), self.as_int(cmpv)))
                opts = []
                if eq is True: opts = [(True, True)]
                elif eq is False: opts = [(False, True)]
                else: opts = [(True, eq), (False, z3.Not(eq))]
                if ins['weak'] and eq is not False: opts.append((None, True))
                for succ, cond in opts:
                    if cond is not True and not self.feasible(s, cond): continue
                    c = s.clone(); c.assume(cond); self.cur = c
                    pre2 = c.clone() if self.after_atomic else None
                    if succ:
                        self.store(c, p, ty, newv, atomic=True)
                        self.finish(c, ins, [old, True])
                        if self.after_atomic: self.after_atomic(self, pre2, c, ins, p, 'cas', old, newv)
                    else:
                        self.finish(c, ins, [old, False])
                        if self.after_atomic: self.after_atomic(self, pre2, c, ins, p, 'casfail', old, None)
                    out.append(c)
        if not out: raise Done()
        return out

    # ---- calls -----------------------------------------------------------------------------------------
    def do_call(self, st, ins, stop, base):
        args = []
        for ty, v, at in ins['args']:
            a = self.val(st, ty, v) if ty != ('metadata',) else None
            if 'byval' in at and isinstance(a, Ptr):
                o = self.new_obj(st, 'byval', kind='struct', size=None)
                sz = self.L.size(ir.parse_type(ir.Toks(at['byval']))); o.size = sz
                self.memcpy(st, Ptr(o, 0), a, sz); a = Ptr(o, 0)
            args.append(a)
        cv = ins['callee']
        if cv[0] == 'global':
            o = self.gobj(cv[1]); name = o.fname
        else:
            p = self.val(st, ir.PTR, cv)
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'func':
                h = getattr(self, 'indirect', None)
                if h is not None:
                    return self.apply(st, ins, h, args, ('indirect', p), stop, base)
                if isinstance(p, Ptr) and p.obj is None and is_c(p.off):
                    self.prove(st, False, 'memory: call through a null function pointer'); raise Done()
                raise Unsupported('indirect call through %r' % (p,))
            name = p.obj.fname
        return self.call_named(st, ins, name, args, stop, base)

    def find_contract(self, name):
        d = self.dem(name)
        for m, h in self.contracts:
            if callable(m):
                if m(name, d): return h
            elif d.startswith(m) or name == m: return h
        return None

    def call_named(self, st, ins, name, args, stop, base):
        h = self.find_contract(name)
        if h is not None:
            self.stats['contracts_used'].add(self.dem(name)[:120])
            return self.apply(st, ins, h, args, name, stop, base)
        r = self.builtin(st, ins, name, args, stop, base)
        if r is not False: return r
        if name in self.m.funcs:
            if len(st.frames) > 80: raise Unsupported('recursion depth at ' + self.dem(name))
            self.stats['inlined'].add(self.dem(name)[:120])
            fn = self.m.funcs[name]
            env = {}
            for (ty, nm, at), a in zip(fn.params, args): env[nm] = a
            st.frames.append(Frame(fn, env, ins))
            return None
        if self.default_external is not None:
            r = self.default_external(self, st, name, self.dem(name), args, ins)
            if r is not None:
                return self.results(ins, r, stop, base)
        raise Unsupported('call to unknown function ' + self.dem(name))

    def apply(self, st, ins, h, args, name, stop, base):
        return self.results(ins, h(self, st, args, ins), stop, base)

    def results(self, ins, rs, stop, base):
        out = []
        for s, v in rs:
            if s.outcome and s.outcome[0] == 'stop':
                out.append(s); continue
            self.cur = s
            try:
                if isinstance(v, Throw):
                    r = self.throw_here(s, ins, v, stop, base)
                    out.extend([s] if r is None else r)
                    continue
                if 'res' in ins and v is not None: s.frames[-1].env[ins['res']] = v
                if ins['op'] == 'invoke':
                    r = self.goto(s, ins['normal'], stop, base)
                    out.extend([s] if r is None else r)
                else:
                    s.frames[-1].idx += 1
                    out.append(s)
            except Done:
                continue
        if not out: raise Done()
        return out

    def call_value(self, st, fname_or_ptr, args):
        """Call from a contract handler: run a function body/contract to completion on state st.
        -> list of (state, value|Throw)"""
        name = fname_or_ptr.obj.fname if isinstance(fname_or_ptr, Ptr) else fname_or_ptr
        h = self.find_contract(name)
        if h is not None:
            return h(self, st, args, {'op': 'call'})
        if name not in self.m.funcs: raise Unsupported('call_value ' + name)
        base = len(st.frames)
        fn = self.m.funcs[name]
        env = {}
        for (ty, nm, at), a in zip(fn.params, args): env[nm] = a
        st.frames.append(Frame(fn, env, {'op': 'call', 'args': []}))
        res = self.explore([st], lambda s, b: None, base)
        out = []
        for s in res:
            o = s.outcome; s.outcome = None
            if o[0] == 'ret': out.append((s, o[1]))
            elif o[0] == 'throw': out.append((s, o[1]))
        return out

    def builtin(self, st, ins, name, a, stop, base):
        def ret(v=None):
            if 'res' in ins and v is not None: st.frames[-1].env[ins['res']] = v
            if ins['op'] == 'invoke': return self.goto(st, ins['normal'], stop, base)
            st.frames[-1].idx += 1
            return None
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.donothing')): return ret()
            if name.startswith('llvm.stacksave'): return ret(NULL)
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.memcpy(st, a[0], a[1], self.as_int(a[2])); return ret()
            if name.startswith('llvm.memset'):
                self.memset(st, a[0], a[1], self.as_int(a[2])); return ret()
            if name.startswith('llvm.assume'): return ret()
            if name.startswith(('llvm.expect', 'llvm.threadlocal.address')): return ret(a[0])
            if name.startswith('llvm.is.constant'): return ret(False)
            if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
                self.prove(st, False, 'trap is not reached'); raise Done()
            if name.startswith('llvm.eh.typeid.for'):
                return ret(self.dom.const(32, self.typeid(ins['args'][0][1][1])))
            if name.startswith('llvm.umul.with.overflow'):
                w = ins['args'][0][0][1]
                x, y = self.as_int(a[0]), self.as_int(a[1])
                if self.domname == 'int':
                    t = imul(self.dom.u(x), self.dom.u(y))
                    return ret([self.dom.bin('mul', w, x, y), simp(rel('<=', 1 << w, t))])
                return ret([x * y, simp(z3.simplify(z3.Not(z3.BVMulNoOverflow(x, y, False))))])
            if name.startswith('llvm.uadd.with.overflow'):
                w = ins['args'][0][0][1]
                x, y = self.as_int(a[0]), self.as_int(a[1])
                if self.domname == 'int':
                    t = iadd(self.dom.u(x), self.dom.u(y))
                    return ret([self.dom.bin('add', w, x, y), simp(rel('<=', 1 << w, t))])
                return ret([x + y, z3.ULT(x + y, x)])
            mm = {'llvm.umin': ('ult', 1), 'llvm.umax': ('ugt', 1), 'llvm.smin': ('slt', 1), 'llvm.smax': ('sgt', 1)}
            for k, (pr, _) in mm.items():
                if name.startswith(k + '.'):
                    w = ins['args'][0][0][1]
                    return ret(self.dom.ite(w, simp(self.dom.icmp(pr, w, self.as_int(a[0]), self.as_int(a[1]))), a[0], a[1]))
            if name.startswith('llvm.bswap'):
                w = ins['args'][0][0][1]
                if self.domname != 'bv': raise Unsupported('bswap in int domain')
                x = a[0]
                return ret(z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])))
            if name.startswith('llvm.ctlz'):
                w = ins['args'][0][0][1]
                if self.domname != 'bv': raise Unsupported('ctlz in int domain')
                x = a[0]; r = z3.BitVecVal(w, w)
                for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
                return ret(r)
            raise Unsupported(name)
        if name in ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', 'malloc'):
            n = self.dom.idx(self.as_int(a[0]))
            o = self.new_obj(st, 'new', kind='struct', size=n if is_c(n) else None, heap=True)
            return ret(Ptr(o, 0))
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            p = a[0]
            if p.obj is not None and p.key is None:
                self.prove(st, p.obj.heap and p.obj.id not in st.freed and self.oracle(self.dom.off_eq(p.off, 0)) is True, 'memory: delete of %s is a live heap object' % p.obj.name)
                st.freed = st.freed | {p.obj.id}
            return ret()
        if name == '__assert_fail':
            msg = a[0].obj.table if a[0].obj is not None else None
            txt = bytes(msg).rstrip(b'\0').decode('latin1') if msg else ''
            self.prove(st, False, 'assertion holds: ' + txt)
            raise Done()
        if name in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_call_unexpected'):
            self.prove(st, False, 'std::terminate/abort is not reached')
            raise Done()
        if name == '__cxa_allocate_exception':
            return ret(Ptr(self.new_obj(st, 'excobj', kind='struct', size=None, heap=True), 0))
        if name == '__cxa_free_exception': return ret()
        if name == '__cxa_throw':
            tv = a[1].obj.name[2:] if a[1].obj is not None and a[1].obj.name.startswith('g_') else '?'
            r = self.throw_here(st, ins, Throw(tv, a[0]), stop, base)
            return r
        if name == '__cxa_rethrow':
            return self.throw_here(st, ins, st.exc, stop, base)
        if name == '__cxa_begin_catch': return ret(a[0])
        if name == '__cxa_end_catch': return ret()
        if name in ('__cxa_guard_acquire',): return ret(self.dom.const(32, 1))
        if name in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit'):
            return ret(self.dom.const(32, 0) if 'res' in ins else None)
        return False


def _ins(a, idx, v):
    if isinstance(a, list): a = list(a)
    if len(idx) == 1:
        a[idx[0]] = v
    else:
        a[idx[0]] = _ins(a[idx[0]], idx[1:], v)
    return a


_hq = {}
def _has_q(f):
    if isinstance(f, bool): return False
    k = f.get_id()
    # ids may be reused by z3 after garbage collection, so no caching
    st = [f]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            if not x.is_lambda(): return True
            st.append(x.body()); continue
        st.extend(x.children())
    return False


DEBUG = bool(__import__('os').environ.get('CVG_DEBUG'))


def _int(t): return z3.IntVal(t) if isinstance(t, int) else t


class View:
    """what a candidate invariant may talk about: the state, the loop's local values, the entry state"""
    def __init__(self, eng, st, loc, entry, entryloc, modset):
        self.eng = eng; self.st = st; self.loc = loc; self.entry = entry; self.entryloc = entryloc; self.modset = modset

    def ints(self):
        """(name, signed term) of every integer the loop changes (locals and cells)"""
        out = []
        for k, v in self.loc.items():
            t = self.term(v)
            if t is not None: out.append((k, t))
        for w in sorted(self.modset, key=str):
            if len(w) == 3 and w[0] in self.entry.mem:
                c = self.st.mem[w[0]].get(w[1])
                if c is not None and c[0] == w[2]:
                    t = self.term(c[1])
                    if t is not None: out.append((w, t))
        return out

    def ptrs(self):
        """names of the pointers the loop changes that ints() has no offset for"""
        out = [k for k, v in self.loc.items() if isinstance(v, Ptr) and self.term(v) is None]
        for w in sorted(self.modset, key=str):
            if len(w) == 3 and w[0] in self.entry.mem:
                c = self.st.mem[w[0]].get(w[1])
                if c is not None and c[0] == w[2] and isinstance(c[1], Ptr) and self.term(c[1]) is None: out.append(w)
        return out

    def get(self, name):
        if name[0] == 'phi': return self.loc[name]
        return self.st.mem[name[0]][name[1]][1]

    def get_entry(self, name):
        if name[0] == 'phi': return self.entryloc[name]
        return self.entry.mem[name[0]][name[1]][1]

    def term(self, v):
        if isinstance(v, IV): return v.s if v.s is not None else v.u
        if isinstance(v, PtrInt) and v.diff is not None: return v.diff
        if isinstance(v, Ptr) and v.obj is not None and v.key is None and v.obj.kind in ('array', 'vla'): return v.off
        return None
