"""contracts assumed for the standard library (trusted: they describe libstdc++, not /repo)"""
import re
import z3
from . import ir
from .engine import *
from .dom import *


def zi(x):
    return z3.IntVal(x) if is_c(x) else x


class Vec:
    """std::vector of trivially copyable elements: object {begin, end, end_of_storage} over one growable array.
    Assumed: allocation succeeds; element addresses are not compared across reallocation."""
    def __init__(self, elem_rx, stride, layout):
        self.rx = elem_rx; self.stride = stride; self.layout = layout
        self.vecs = {}

    def new_storage(self, eng, st, vp, name, n):
        a = eng.new_obj(st, name, kind='array', stride=self.stride, layout=dict(self.layout))
        vp = eng.norm_ptr(vp)
        a.n = lambda s, o=vp.obj, off=vp.off, k=vp.key: self.size_of(eng, s, Ptr(o, off, k))
        self.set(eng, st, vp, a, n)
        return a

    def set(self, eng, st, vp, a, n):
        for k, m in ((0, 0), (8, n), (16, n)):
            eng.store(st, Ptr(vp.obj, eng.dom.off_add(vp.off, k), vp.key), ir.PTR, Ptr(a, imul(m, self.stride)))

    def size_of(self, eng, st, vp):
        e = st.mem[vp.obj.id].get(vp.off + 8)
        b = st.mem[vp.obj.id].get(vp.off)
        if e is None or b is None or not isinstance(e[1], Ptr) or e[1].obj is None: return 0
        d, c = linform(isub(e[1].off, b[1].off)) if not is_c(isub(e[1].off, b[1].off)) else ({}, isub(e[1].off, b[1].off))
        if c % self.stride or any(k % self.stride for k, _ in d.values()): raise Unsupported('vector size')
        return from_lin({i: (k // self.stride, t) for i, (k, t) in d.items()}, c // self.stride)

    def get(self, eng, st, vp):
        """(storage object or None, size)"""
        vp = eng.norm_ptr(vp)
        b = eng.load(st, vp, ir.PTR)
        if b.obj is None: return None, 0
        eng.load(st, Ptr(vp.obj, eng.dom.off_add(vp.off, 8), vp.key), ir.PTR)
        return b.obj, self.size_of(eng, st, vp)

    def ty(self, sp):
        return ir.PTR if sp[0] == 'ptr' else ir.INT(sp[1])

    def append(self, eng, st, vp, fields):
        a, n = self.get(eng, st, vp)
        if a is None:
            a = self.new_storage(eng, st, vp, 'vec', 0); n = 0
        eng.store(st, Ptr(vp.obj, eng.dom.off_add(vp.off, 8), vp.key), ir.PTR, Ptr(a, imul(iadd(n, 1), self.stride)))
        for c, v in fields.items():
            eng.store(st, Ptr(a, iadd(imul(n, self.stride), c)), self.ty(self.layout[c]), v)

    def contracts(self):
        V = r'std::vector<%s.*>::' % self.rx

        def read(eng, st, ref):
            return {c: eng.load(st, Ptr(ref.obj, eng.dom.off_add(ref.off, c), ref.key), self.ty(sp)) for c, sp in self.layout.items()}

        def emplace(eng, st, args, ins):
            if len(args) == 2: f = read(eng, st, args[1])
            elif len(args) == 1 + len(self.layout):
                f = {c: eng.load(st, a, self.ty(sp)) for (c, sp), a in zip(sorted(self.layout.items()), args[1:])}
            elif len(args) == 1: f = {c: (NULL if sp[0] == 'ptr' else eng.dom.const(sp[1], 0)) for c, sp in self.layout.items()}
            else: raise Unsupported('emplace_back arguments')
            self.append(eng, st, args[0], f)
            return [(st, None)]

        def assign(eng, st, args, ins):
            n = eng.dom.u(eng.as_int(args[2]))
            a = self.new_storage(eng, st, args[0], 'veca', n)
            src = args[1]
            if not (is_c(n) and n == 0):
                if src.obj is None or src.obj.kind != 'array' or src.obj.stride != self.stride: raise Unsupported('initializer list storage')
                i0, c0 = eng.elem(src.obj, src.off)
                if not (is_c(i0) and i0 == 0 and c0 == 0): raise Unsupported('initializer list offset')
                st.mem[a.id] = {c: eng.arr(st, src.obj, c, sp) for c, sp in self.layout.items()}
            return [(st, args[0])]

        def empty_ctor(eng, st, args, ins):
            for k in (0, 8, 16): eng.store(st, Ptr(args[0].obj, eng.dom.off_add(args[0].off, k), args[0].key), ir.PTR, NULL)
            return [(st, None)]

        def reserve(eng, st, args, ins): return [(st, None)]

        def r(p): return lambda name, dem, c=re.compile(p): c.search(dem) is not None
        return [(r(r'^(void |.*& )?' + V + r'(emplace_back|push_back)(<.*>)?\('), emplace), (r(r'^' + V + r'(operator=|vector)\(std::initializer_list'), assign), (r(r'^' + V + r'assign\(std::initializer_list'), assign),
                (r(r'^' + V + r'vector\(\)'), empty_ctor), (r(r'^' + V + r'~vector\('), reserve), (r(r'^' + V + r'reserve\('), reserve), (r(r'^' + V + r'shrink_to_fit\('), reserve)]


class Str:
    """std::string: object {data, size, local buffer[16]} over one growable array of bytes.  Assumed: allocation succeeds and the
    text is NUL terminated behind its size; members not listed are verified inline where they only read data and size."""
    def __init__(self):
        self.strs = []

    def fresh(self, eng, st, sp, name, n, arr=None):
        sp = eng.norm_ptr(sp)
        a = eng.new_obj(st, name, kind='array', stride=1, layout={0: ('int', 8, False)})
        a.n = lambda s, o=sp: iadd(self.size(eng, s, o), 1)
        if arr is not None: st.mem[a.id] = {0: arr}
        eng.store(st, Ptr(sp.obj, sp.off, sp.key), ir.PTR, Ptr(a, 0))
        self.set_size(eng, st, sp, n)
        self.strs.append(a)
        return a

    def set_size(self, eng, st, sp, n):
        sp = eng.norm_ptr(sp)
        eng.store(st, Ptr(sp.obj, eng.dom.off_add(sp.off, 8), sp.key), ir.INT(64), eng.dom.const(64, n) if is_c(n) else IV(64, u=n))

    def size(self, eng, st, sp):
        sp = eng.norm_ptr(sp)
        return zi(eng.dom.u(eng.as_int(eng.load(st, Ptr(sp.obj, eng.dom.off_add(sp.off, 8), sp.key), ir.INT(64)))))

    def get(self, eng, st, sp):
        """(array object, its bytes, size)"""
        sp = eng.norm_ptr(sp)
        p = eng.load(st, sp, ir.PTR)
        if p.obj is None or p.obj.kind != 'array': raise Unsupported('string storage')
        return p.obj, eng.arr(st, p.obj, 0, p.obj.layout[0]), self.size(eng, st, sp)

    def push(self, eng, st, sp, byte):
        a, A, n = self.get(eng, st, sp)
        self.set_size(eng, st, sp, n + 1)
        eng.store(st, Ptr(a, n), ir.INT(8), byte)

    def contracts(self):
        S = r'^std::__cxx11::basic_string<char,.*>::'
        def init(eng, st, args, ins):
            self.fresh(eng, st, args[0], 'text', 0)
            return [(st, None)]

        def move(eng, st, args, ins):
            d, s = eng.norm_ptr(args[0]), eng.norm_ptr(args[1])
            a, A, n = self.get(eng, st, s)
            if '&&' not in eng.dem(ins['callee'][1]): A2 = A
            self.fresh(eng, st, d, 'text', n, A)
            if '&&' in eng.dem(ins['callee'][1]) and not (d.obj is s.obj): self.fresh(eng, st, s, 'moved', 0)
            return [(st, args[0] if ins['rt'][0] != 'void' else None)]

        def push(eng, st, args, ins):
            self.push(eng, st, args[0], args[1])
            return [(st, args[0] if ins['rt'][0] != 'void' else None)]

        def repeat(eng, st, args, ins):
            n = eng.dom.u(eng.as_int(args[1]))
            if not is_c(n) or n > 64: raise Unsupported('append of a computed number of characters')
            for _ in range(n): self.push(eng, st, args[0], args[2])
            return [(st, args[0])]

        def literal(eng, st, args, ins):
            p = eng.norm_ptr(args[1])
            if p.obj is None or p.obj.table is None or not is_c(p.off): raise Unsupported('append of other than a literal')
            for b in p.obj.table[p.off:]:
                if b == 0: break
                self.push(eng, st, args[0], eng.dom.const(8, b))
            return [(st, args[0])]

        def part(eng, st, args, ins):
            k = zi(eng.dom.u(eng.as_int(args[2]))); p = eng.norm_ptr(args[1])
            a, A, n = self.get(eng, st, args[0])
            q = z3.Int('q')
            if p.obj is None or p.obj.kind != 'array': raise Unsupported('append of other text')
            top = p.obj.n(st) if callable(p.obj.n) else p.obj.n
            eng.prove(st, z3.And(zi(p.off) >= 0, zi(p.off) + k <= zi(top)), 'memory: the appended text is readable')
            B = eng.arr(st, p.obj, 0, p.obj.layout[0])
            self.fresh(eng, st, args[0], 'text', n + k, z3.Lambda([q], z3.If(q < n, A[q], B[zi(p.off) + q - n])))
            return [(st, args[0])]

        def clear(eng, st, args, ins):
            self.set_size(eng, st, args[0], 0)
            return [(st, None)]

        def pop(eng, st, args, ins):
            a, A, n = self.get(eng, st, args[0])
            eng.prove(st, n > 0, 'memory: a character is removed only from a text that has one')
            self.set_size(eng, st, args[0], n - 1)
            return [(st, None)]

        def resize(eng, st, args, ins):
            a, A, n = self.get(eng, st, args[0]); m = zi(eng.dom.u(eng.as_int(args[1])))
            c = zi(eng.dom.u(eng.as_int(args[2]))) if len(args) > 2 else z3.IntVal(0)
            q = z3.Int('q')
            self.fresh(eng, st, args[0], 'text', m, z3.Lambda([q], z3.If(q < n, A[q], c)))
            return [(st, None)]

        def nop(eng, st, args, ins): return [(st, None)]

        def r(p): return lambda name, dem, c=re.compile(p): c.search(dem) is not None
        return [(r(S + r'basic_string\(\)'), init), (r(S + r'(basic_string|operator=)\(std::__cxx11::basic_string<.*>( const)?&&?\)$'), move), (r(S + r'(push_back|operator\+=)\(char\)'), push),
                (r(S + r'append\(unsigned long, char\)'), repeat), (r(S + r'(append|operator\+=)\(char const\*\)'), literal), (r(S + r'append\(char const\*, unsigned long\)'), part), (r(S + r'clear\('), clear), (r(S + r'pop_back\('), pop), (r(S + r'resize\('), resize),
                (r(S + r'(reserve|~basic_string|shrink_to_fit)\('), nop)]
