"""C32: value conversion - a list or dictionary becomes one well-formed JSON text that denotes it; every other value is stored as what it is."""
import re
from cvg.runner import Unit, Native
from cvg.util import *

ASSUMPTIONS = ['writing to a string stream succeeds (an allocation failure is an exception that passes through)', 'the value does not change while it is converted; a char pointer is a NUL-terminated text',
               'doubles are printed by the stream with its default precision (six significant digits)']
TRUSTED = ['libstdc++: ostream insertion of characters, numbers and manipulators (hex/dec, setw, setfill), the width applying to the next insertion only; ostringstream, its imbue and str; std::isnan, isinf, signbit; iteration over std::unordered_map visits every element once; std::string data and size',
           'protobuf: the generated setters of collector::KeyValue', 'opentracing::Value visits the alternative it holds (interface stand-in in harness/stubs)',
           'the JSON grammar is compositional: "[" values joined by "," "]" and "{" string ":" value pairs joined by "," "}" denote the list and the dictionary of what the parts denote (structural induction over the value)']
SRC = ['src/common/utility.cpp']
I = z3.IntSort()
KINDS = ('bool', 'double', 'int64', 'uint64', 'string', 'nullptr', 'char*', 'values', 'dictionary')
ESC = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, 0x62: 8, 0x66: 12, 0x6e: 10, 0x72: 13, 0x74: 9}
NAN, INF = z3.Function('is_nan', I, z3.BoolSort()), z3.Function('is_infinite', I, z3.BoolSort())
FLAGS = {16: 0x1008, 8: 0x1040}       # ios flags with this base; 0x1002 is decimal


class World:
    def __init__(s, ctx, name, calls=True):
        s.m = ctx.module(SRC); s.st = st = State()
        W = r'^std::__cxx11::basic_ostringstream<.*>::'; B = r'^std::basic_ios<.*>::'; O = r'^std::basic_ostream<.*>::'; F = r'^std::basic_ostream<.*>& std::operator<<.*'; S = r'^std::__cxx11::basic_string<char,.*>::'; U = r'std::unordered_map<.*>::'; X = r'^(lightstep::|void lightstep::)collector::KeyValue::'
        one = lambda f: lambda g, st, a, i: (s.on(st, a[0]), f(g, st, a, i), [(st, a[0])])[-1]
        call = [(rx(r'^lightstep::WriteEscapedString\('), s.escaped)] if calls else []
        s.e = e = Engine(s.m, name=name, contracts=call + [
            (rx(r'^lightstep::ToJson\(std::.*ostringstream<.*Value const&'), s.json), (rx(r'^lightstep::ToJson\[abi:cxx11\]\(opentracing::Value const&\)'), s.tojson),
            (rx(F + r'\(std::basic_ostream<.*>&, (signed |unsigned )?char\)'), one(lambda g, st, a, i: s.bytes(st, [a[1]]))), (rx(O + r'put\(char\)'), one(lambda g, st, a, i: s.bytes(st, [a[1]], True))),
            (rx(F + r'\(std::basic_ostream<.*>&, (signed |unsigned )?char const\*\)'), one(lambda g, st, a, i: s.literal(st, a[1]))), (rx(O + r'write\(char const\*, long\)'), one(lambda g, st, a, i: s.literal(st, a[1], g.dom.s(g.as_int(a[2]))))),
            (rx(F + r'std::_Setw\)'), one(lambda g, st, a, i: st.gset('width', zi(g.dom.s(g.as_int(a[1])))))), (rx(F + r'std::_Setfill<char>\)'), one(lambda g, st, a, i: st.gset('fill', zi(g.dom.s(g.as_int(a[1])))))),
            (rx(O + r'operator<<\(std::ios_base& \(\*\)'), one(s.manip)), (rx(O + r'operator<<\((short|int|long|long long)\)'), one(lambda g, st, a, i: s.number(st, g.dom.s(g.as_int(a[1])), True))),
            (rx(O + r'operator<<\(unsigned (short|int|long|long long)\)'), one(lambda g, st, a, i: s.number(st, g.dom.u(g.as_int(a[1])), False))), (rx(O + r'operator<<\(double\)'), one(lambda g, st, a, i: s.double(st, a[1]))),
            (rx(r'^std::(__cxx11::)?basic_o?(ios|stringstream)<.*>::fill\(char\)'), lambda g, st, a, i: [(st, s.swap(st, 'fill', a[1], 8))]), (rx(r'^std::ios_base::width\(long\)'), lambda g, st, a, i: [(st, s.swap(st, 'width', a[1], 64))]),
            (rx(r'^std::ios_base::flags\(\)'), lambda g, st, a, i: [(st, s.flags(st))]), (rx(r'^std::ios_base::flags\(std::_Ios_Fmtflags\)'), s.setflags), (rx(r'^std::ios_base::setf\(std::_Ios_Fmtflags, std::_Ios_Fmtflags\)'), s.setf),
            (rx(W + r'basic_ostringstream\('), s.open), (rx(W + r'~basic_ostringstream\('), noop), (rx(W + r'str\(\) const'), s.str), (rx(B + r'imbue\('), s.imbue), (rx(B + r'exceptions\('), noop), (rx(r'^std::locale::classic\('), lambda g, st, a, i: [(st, Ptr(s.classic, 0))]), (rx(r'^std::locale::(~locale|locale)\('), noop), (rx(r'^std::operator\|\(std::_Ios_Iostate'), lambda g, st, a, i: [(st, g.dom.const(32, 5))]),
            (rx(r'^std::isnan\(double\)'), lambda g, st, a, i: [(st, zi_bool(NAN(s.bits(a[0]))))]), (rx(r'^std::isinf\(double\)'), lambda g, st, a, i: [(st, zi_bool(INF(s.bits(a[0]))))]), (rx(r'^std::isfinite\(double\)'), lambda g, st, a, i: [(st, zi_bool(z3.Not(z3.Or(NAN(s.bits(a[0])), INF(s.bits(a[0]))))))]), (rx(r'^std::signbit\(double\)'), lambda g, st, a, i: [(st, zi_bool(s.bits(a[0]) >= 2 ** 63))]),
            (rx(r'^strlen$'), s.strlen), (rx(S + r'(size|length)\('), lambda g, st, a, i: [(st, IV(64, u=s.strof(st, a[0])[1]))]), (rx(S + r'(data|c_str)\('), lambda g, st, a, i: [(st, s.strof(st, a[0])[0])]), (rx(S + r'empty\('), lambda g, st, a, i: [(st, zi_bool(s.strof(st, a[0])[1] == 0))]), (rx(S + r'~basic_string\('), noop),
            (rx('^' + U + r'c?begin\('), lambda g, st, a, i: [(st, Ptr(s.items, 0))]), (rx('^' + U + r'c?end\('), lambda g, st, a, i: [(st, Ptr(s.items, s.stride * s.n))]), (rx('^' + U + r'size\('), lambda g, st, a, i: [(st, IV(64, u=s.n))]), (rx('^' + U + r'empty\('), lambda g, st, a, i: [(st, zi_bool(s.n == 0))]),
            (rx(r'^std::__detail::_Node_iterator_base<.*>::_M_incr\('), s.incr), (rx(r'^std::__detail::_Node_const_iterator<.*>::operator(\*|->)\('), lambda g, st, a, i: [(st, g.load(st, a[0], ir.PTR))]),
            (rx(r'^lightstep::collector::KeyValue::(KeyValue|~KeyValue)\('), noop), (rx(X + r'set_(bool|int|double|string|json)_value'), s.setter), (rx(r'^google::protobuf::internal::ArenaStringPtr::Set\('), s.setkey), (rx(r'^google::protobuf::MessageLite::GetArenaForAllocation\('), lambda g, st, a, i: [(st, NULL)]),
            (rx(r'^opentracing::string_view::operator std::__cxx11::basic_string<'), s.to_string)])
        e.cur = st; e.candidates = int_candidates([('i', lambda st: st.ghost['i'])], coefs=(1, 64, 96), extra=s.cand)
        vt = e.new_obj(st, 'vtable of the stream', kind='struct', size=32); st.mem[vt.id] = {0: (8, e.dom.const(64, 112))}
        s.vt = vt; s.writer = e.new_obj(st, 'stream', kind='struct', size=376); st.mem[s.writer.id] = {0: (8, Ptr(vt, 24))}
        s.classic = e.new_obj(st, 'classic locale', kind='struct', size=8)
        Z = z3.IntVal; s.n = z3.Int('n'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 40))
        st.ghost.update(base=Z(10), width=Z(0), fill=z3.Int('fill0'), classic=z3.BoolVal(True), i=Z(0), phase=Z(0), acc=Z(0), done=Z(0), out=())
        s.text = None; s.items = None; s.kind = None; s.stride = 64; s.kv = ()

    # ---- candidates
    def cand(s, e, view):
        g = lambda w: w.st.ghost; out = []
        for k in ('base', 'width', 'phase', 'classic'): out.append(('%s is what it was' % k, lambda w, k=k: g(w)[k] == w.entry.ghost[k]))
        out += [('0 <= i', lambda w: g(w)['i'] >= 0), ('i <= n', lambda w: g(w)['i'] <= s.n)]
        for a, b in ((1, 2), (1, 4)): out.append(('phase %d after the last of the parts' % b, lambda w, a=a, b=b: g(w)['phase'] == z3.If(z3.And(g(w)['i'] == s.n, s.n > 0), z3.IntVal(b), z3.IntVal(a))))
        for a, b in ((1, 2), (1, 4)): out.append(('phase %d after the first of the parts' % b, lambda w, a=a, b=b: g(w)['phase'] == z3.If(g(w)['i'] == 0, z3.IntVal(a), z3.IntVal(b))))
        for k, t in view.ints():
            x = lambda w, k=k: zi(w.term(w.get(k)))
            for a, b in ((1, 0), (0, 1)): out.append(('%s tells whether it is the first (%d)' % (k, a), lambda w, x=x, a=a, b=b: x(w) == z3.If(g(w)['i'] == 0, z3.IntVal(a), z3.IntVal(b))))
        return out

    # ---- the output
    def on(s, st, p): s.e.prove(st, s.e.ptr_eq(p, Ptr(s.writer, 0)), 'json: written to the given stream')

    def fresh(s, st, what):
        s.e.prove(st, False, what)

    def bytes(s, st, bs, raw=False):
        """the characters bs are written"""
        if not raw: s.e.prove(st, st.ghost['width'] == 0, 'json: no padding is inserted'); st.gset('width', z3.IntVal(0))
        for b in bs: s.byte(st, zi(s.e.dom.u(s.e.as_int(b))) if not is_c(b) else b)

    def literal(s, st, p, n=None):
        p = s.e.norm_ptr(p)
        if p.obj is None or getattr(p.obj, 'table', None) is None or not is_c(p.off): raise Unsupported('writing other than a literal')
        t = list(p.obj.table[p.off:]); t = t[:t.index(0)] if n is None else t[:n if is_c(n) else None]
        if n is not None and not is_c(n): raise Unsupported('writing a computed part of a literal')
        s.bytes(st, t, n is not None)

    def const(s, t):
        if is_c(t): return t
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else None

    def byte(s, st, b):
        c = s.const(b)
        if s.kind == 'string': return s.in_string(st, zi(b), c)
        if s.kind in ('values', 'dictionary'): return s.in_container(st, c)
        if c is None: raise Unsupported('a computed character')
        st.ghost['out'] = st.ghost['out'] + (c,)

    def phase(s, st, top):
        s.e.cur = st; c = s.const(st.ghost['phase'])
        if c is not None: return c
        for k in range(top):
            if s.e.oracle(st.ghost['phase'] == k) is True: return k
        return None

    def in_string(s, st, b, c):
        """JSON string grammar: 0 before, 1 inside, 2 after a backslash, 3..6 after \\u and 0..3 digits, 7 done; i characters are denoted so far"""
        e = s.e; k = s.phase(st, 8); Z = z3.IntVal; j = st.ghost['i']; p = lambda f, w: e.prove(st, f, w)
        if k == 0: p(b == 0x22, 'json: a string begins with a quotation mark'); st.gset('phase', Z(1))
        elif k == 1 and c == 0x22: p(j == s.n, 'json: the string ends only after the last character of the text'); st.gset('phase', Z(7))
        elif k == 1 and c == 0x5c: st.gset('phase', Z(2))
        elif k == 1:
            p(z3.And(b >= 0x20, b != 0x22, b != 0x5c), 'json: quotation mark, backslash and control characters are escaped'); p(z3.And(j < s.n, s.chars[j] == b), 'json: the string denotes the characters of the text'); st.gset('i', j + 1)
        elif k == 2 and c in ESC: p(z3.And(j < s.n, s.chars[j] == ESC[c]), 'json: the string denotes the characters of the text'); st.gset('i', j + 1); st.gset('phase', Z(1))
        elif k == 2 and c == 0x75: st.gset('acc', Z(0)); st.gset('phase', Z(3))
        elif k is not None and 3 <= k <= 6:
            p(z3.Or(z3.And(b >= 48, b <= 57), z3.And(b >= 97, b <= 102), z3.And(b >= 65, b <= 70)), 'json: \\u is followed by four hexadecimal digits')
            st.gset('acc', 16 * st.ghost['acc'] + z3.If(b <= 57, b - 48, z3.If(b <= 70, b - 55, b - 87)))
            if k < 6: st.gset('phase', Z(k + 1))
            else: s.code_point(st)
        else: p(False, 'json: the string is well-formed')

    def code_point(s, st):
        j = st.ghost['i']; v = st.ghost['acc']
        s.e.prove(st, z3.And(j < s.n, v < 128, s.chars[j] == v), 'json: the string denotes the characters of the text'); st.gset('i', j + 1); st.gset('phase', z3.IntVal(1))

    def in_container(s, st, c):
        """grammar of a list: 0 before, 1 part expected, 2 after a part, 9 done; of a dictionary: 1 key expected, 2 after the key, 3 value expected, 4 after the value, 9 done"""
        e = s.e; g = st.ghost; ph, j = g['phase'], g['i']; Z = z3.IntVal; after = 2 if s.kind == 'values' else 4
        if c == {'values': 0x5b, 'dictionary': 0x7b}[s.kind]: e.prove(st, ph == 0, 'json: the opening bracket comes first'); st.gset('phase', Z(1))
        elif c == 0x2c: e.prove(st, z3.And(ph == after, j < s.n), 'json: a comma comes between two parts'); st.gset('phase', Z(1))
        elif c == 0x3a and s.kind == 'dictionary': e.prove(st, ph == 2, 'json: a colon comes after a key'); st.gset('phase', Z(3))
        elif c == {'values': 0x5d, 'dictionary': 0x7d}[s.kind]:
            e.prove(st, z3.Or(z3.And(ph == 1, j == 0, s.n == 0), z3.And(ph == after, j == s.n)), 'json: the closing bracket comes after the last part'); st.gset('phase', Z(9))
        else: e.prove(st, False, 'json: nothing but brackets, commas, colons and the parts is written'); st.gset('phase', z3.FreshInt('phase'))

    def number(s, st, v, signed):
        e = s.e; g = st.ghost; b = g['base']; w = g['width']; v = zi(v)
        if s.kind == 'string':
            if s.phase(st, 8) != 3: e.prove(st, False, 'json: a number in a string is an escape'); return
            e.prove(st, z3.And(b == 16, w == 4, g['fill'] == 48, v >= 0, v < 65536), 'json: \\u is followed by four hexadecimal digits'); st.gset('acc', v); s.code_point(st)
        elif s.kind in ('values', 'dictionary'): e.prove(st, False, 'json: nothing but brackets, commas, colons and the parts is written')
        else:
            e.prove(st, b == 10, 'json: integers are written in decimal'); e.prove(st, w == 0, 'json: no padding is inserted'); e.prove(st, g['classic'], 'json: without the digit grouping of a locale')
            st.ghost['out'] = g['out'] + (('n', v),)
        st.gset('width', z3.IntVal(0))

    def bits(s, v):
        if not (isinstance(v, tuple) and v[0] == 'float' and isinstance(v[1], IV)): raise Unsupported('a computed floating-point number')
        return zi(s.e.dom.u(v[1]))

    def double(s, st, v):
        g = st.ghost; v = s.bits(v)
        if s.kind != 'value': s.e.prove(st, False, 'json: a number only where one is expected'); return
        s.e.prove(st, z3.Not(z3.Or(NAN(v), INF(v))), 'json: NaN and infinities are not numbers'); s.e.prove(st, g['width'] == 0, 'json: no padding is inserted'); s.e.prove(st, g['classic'], 'json: without the decimal comma of a locale')
        st.ghost['out'] = g['out'] + (('d', v),)

    def manip(s, g, st, a, i):
        n = g.dem(a[1].obj.fname) if a[1].obj is not None and a[1].obj.kind == 'func' else ''
        for k, b in (('std::hex(', 16), ('std::dec(', 10), ('std::oct(', 8)):
            if n.startswith(k): st.gset('base', z3.IntVal(b)); return
        if n.startswith('std::nouppercase('): return
        raise Unsupported('manipulator ' + n)

    def swap(s, st, key, v, w):
        old = st.ghost[key]; st.gset(key, zi(s.e.dom.s(s.e.as_int(v)))); return IV(w, s=old)

    def flags(s, st):
        b = st.ghost['base']; return IV(32, s=z3.If(b == 16, z3.IntVal(0x1008), z3.If(b == 8, z3.IntVal(0x1040), z3.IntVal(0x1002))))

    def setflags(s, g, st, a, i):
        old = s.flags(st); f = zi(g.dom.s(g.as_int(a[1])))
        if g.oracle(z3.Or(f == 0x1008, f == 0x1040, f == 0x1002)) is not True: raise Unsupported('format flags')
        st.gset('base', z3.If(f == 0x1008, z3.IntVal(16), z3.If(f == 0x1040, z3.IntVal(8), z3.IntVal(10)))); return [(st, old)]

    def setf(s, g, st, a, i):
        f, m = s.const(zi(g.dom.s(g.as_int(a[1])))), s.const(zi(g.dom.s(g.as_int(a[2]))))
        if m != 0x4a or f not in (2, 8, 0x40): raise Unsupported('format flags')
        old = s.flags(st); st.gset('base', z3.IntVal({2: 10, 8: 16, 0x40: 8}[f])); return [(st, old)]

    # ---- callees
    def start(s, st, a):
        """the precondition of the functions that write"""
        s.on(st, a); g = st.ghost
        s.e.prove(st, z3.And(g['base'] == 10, g['width'] == 0, g['classic']), 'json: what is written does not depend on what was written before')

    def escaped(s, g, st, a, i):
        s.start(st, a[0]); p, n = a[1], zi(g.dom.u(g.as_int(a[2]))); st.gset('fill', z3.FreshInt('fill'))
        if s.kind == 'dictionary':
            j = st.ghost['i']; g.prove(st, st.ghost['phase'] == 1, 'json: a key comes where one is expected')
            g.prove(st, z3.And(j < s.n, zb(g.ptr_eq(p, Ptr(s.txt, s.kp[j]))), n == s.kl[j]), 'json: the key of the next entry'); st.gset('phase', z3.IntVal(2))
        elif s.kind == 'value': st.ghost['out'] = st.ghost['out'] + (('S', p, n),)
        else: g.prove(st, False, 'json: nothing but brackets, commas, colons and the parts is written')
        return [(st, None)]

    def json(s, g, st, a, i):
        s.start(st, a[0]); v = g.norm_ptr(a[1]); st.gset('fill', z3.FreshInt('fill'))
        if s.kind in ('values', 'dictionary'):
            j = st.ghost['i']; off = s.voff
            g.prove(st, st.ghost['phase'] == (1 if s.kind == 'values' else 3), 'json: a value comes where one is expected')
            g.prove(st, z3.And(j < s.n, zb(g.ptr_eq(v, Ptr(s.items, s.stride * j + off)))), 'json: the next of the values'); st.gset('i', j + 1); st.gset('phase', z3.IntVal(2 if s.kind == 'values' else 4))
        elif s.kind == 'top': g.prove(st, g.ptr_eq(v, s.value), 'json: the value itself is written'); st.gset('done', st.ghost['done'] + 1)
        else: g.prove(st, False, 'json: nothing but the value is written')
        return [(st, None)]

    def open(s, g, st, a, i):
        Z = z3.IntVal; p = g.norm_ptr(a[0]); s.writer = p.obj; g.store(st, p, ir.PTR, Ptr(s.vt, 24))
        for k, v in (('base', Z(10)), ('width', Z(0)), ('fill', Z(32)), ('classic', z3.Bool('the global locale is the classic one')), ('done', Z(0))): st.gset(k, v)
        return [(st, None)]

    def imbue(s, g, st, a, i):
        s.on(st, Ptr(g.norm_ptr(a[1]).obj, g.norm_ptr(a[1]).off - 112)); st.gset('classic', zb(g.ptr_eq(a[2], Ptr(s.classic, 0)))); return [(st, None)]

    def str(s, g, st, a, i):
        s.on(st, a[1]); g.prove(st, st.ghost['done'] == 1, 'json: the text is the value, written once'); s.put_str(st, a[0], Ptr(s.jsontext, 0), s.jl); return [(st, None)]

    def strof(s, st, p):
        p = s.e.norm_ptr(p); e = s.e
        return e.load(st, p, ir.PTR), zi(e.dom.u(e.as_int(e.load(st, Ptr(p.obj, e.dom.off_add(p.off, 8), p.key), ir.INT(64)))))

    def put_str(s, st, p, q, n):
        e = s.e; p = e.norm_ptr(p); e.store(st, p, ir.PTR, q); e.store(st, Ptr(p.obj, e.dom.off_add(p.off, 8), p.key), ir.INT(64), IV(64, u=zi(n)))

    def strlen(s, g, st, a, i): g.prove(st, g.ptr_eq(a[0], Ptr(s.chars_obj, 0)), 'memory: the length of the given text'); return [(st, IV(64, u=s.cl))]

    def incr(s, g, st, a, i):
        p = g.load(st, a[0], ir.PTR); g.store(st, a[0], ir.PTR, Ptr(p.obj, g.dom.off_add(p.off, s.stride))); return [(st, None)]

    def to_string(s, g, st, a, i):
        p, n = g.load(st, a[1], ir.PTR), g.load(st, Ptr(a[1].obj, g.dom.off_add(a[1].off, 8), a[1].key), ir.INT(64)); s.put_str(st, a[0], p, zi(g.dom.u(g.as_int(n)))); return [(st, None)]

    def tojson(s, g, st, a, i):
        g.prove(st, g.ptr_eq(a[1], s.value), 'value: the value itself is converted'); s.put_str(st, a[0], Ptr(s.jsontext, 0), s.jl); return [(st, None)]

    def setter(s, g, st, a, i):
        f = re.search(r'set_(\w+?)_value', g.dem(i['callee'][1])).group(1); t = g.dem(i['callee'][1])
        g.prove(st, g.ptr_eq(a[0], Ptr(s.kvobj, 0)), 'value: stored in the result')
        if f in ('string', 'json'):
            if re.search(r'<char const\*( const)?&>', t) or re.search(r'<char const\*>', t):
                p = g.load(st, a[1], ir.PTR); v = ('chars', p)
            elif 'basic_string<' in t: v = ('text',) + s.strof(st, a[1])
            else: raise Unsupported('setter ' + t)
        elif f == 'double': v = ('bits', s.bits(a[1])) if isinstance(a[1][1], IV) else ('bits', z3.FreshInt('another_double'))
        elif f == 'bool': v = ('n', z3.If(zb(a[1]), z3.IntVal(1), z3.IntVal(0)) if not isinstance(a[1], IV) else zi(g.dom.u(a[1])))
        else: v = ('n', zi(g.dom.s(g.as_int(a[1]))))
        st.ghost['out'] = st.ghost['out'] + ((f, v),); return [(st, None)]

    def setkey(s, g, st, a, i):
        if 'char const*' in g.dem(i['callee'][1]): raise Unsupported('key from characters')
        g.prove(st, g.ptr_eq(a[0], Ptr(s.kvobj, s.keyoff)), 'value: the key is stored as the key of the result')
        st.ghost['out'] = st.ghost['out'] + (('key', ('text',) + s.strof(st, a[1])),); return [(st, None)]

    # ---- values
    def texts(s, name):
        e, st = s.e, s.st; o = e.new_obj(st, name, kind='array', stride=1, layout={0: ('int', 8, False)}); n = z3.Int(name + '_size'); st.assume(z3.And(n >= 0, n < 2 ** 40)); return o, n

    def make(s, k):
        """an opentracing::Value that holds alternative k"""
        e, st = s.e, s.st; o = e.new_obj(st, 'value', kind='struct', size=64); s.value = Ptr(o, 0); mem = {0: (4, e.dom.const(32, k))}
        s.jsontext, s.jl = s.texts('json')
        x = s.x = z3.Int('number'); lo, hi = {0: (0, 2), 2: (-2 ** 63, 2 ** 63)}.get(k, (0, 2 ** 64)); st.assume(z3.And(x >= lo, x < hi))
        st.assume(z3.Not(z3.And(NAN(x), INF(x))))
        if k == 0: mem[8] = (1, IV(8, u=x))
        elif k == 2: mem[8] = (8, IV(64, s=x))
        elif k in (1, 3): mem[8] = (8, IV(64, u=x))
        elif k == 4:
            s.so, s.sl = s.texts('string'); so = e.new_obj(st, 'string object', kind='struct', size=32); st.mem[so.id] = {0: (8, Ptr(s.so, 0)), 8: (8, IV(64, u=s.sl))}; mem[16] = (8, Ptr(so, 0))
        elif k == 6: s.chars_obj, s.cl = s.texts('characters'); mem[8] = (8, Ptr(s.chars_obj, 0))
        elif k == 7:
            s.kind = 'values'; s.stride = 64; s.voff = 0; s.items = e.new_obj(st, 'values', kind='array', stride=64, n=s.n)
            v = e.new_obj(st, 'vector', kind='struct', size=24); st.mem[v.id] = {0: (8, Ptr(s.items, 0)), 8: (8, Ptr(s.items, 64 * s.n)), 16: (8, Ptr(s.items, 64 * s.n))}; mem[32] = (8, Ptr(v, 0))
        elif k == 8:
            s.kind = 'dictionary'; s.stride = 96; s.voff = 32; s.txt = e.new_obj(st, 'texts', kind='array', stride=1, layout={0: ('int', 8, False)})
            s.items = e.new_obj(st, 'entries', kind='array', stride=96, layout={0: ('ptr', lambda en, s_, t: Ptr(s.txt, t)), 8: ('int', 64, False)}, n=s.n); s.items.const = True
            s.kp, s.kl = (e.arr(st, s.items, c, s.items.layout[c]) for c in (0, 8)); q = z3.Int('q')
            st.assume_q(z3.ForAll([q], z3.And(s.kl[q] >= 0, s.kl[q] < 2 ** 40), patterns=[s.kl[q]]))
            v = e.new_obj(st, 'map', kind='struct', size=56); mem[48] = (8, Ptr(v, 0))
        st.mem[o.id] = mem
        return o


def zi_bool(b): return b


def literal(t): return tuple(t.encode())


def string(ctx):
    W = World(ctx, 'WriteEscapedString', calls=False); e, st = W.e, W.st; W.kind = 'string'
    o = e.new_obj(st, 'text', kind='array', stride=1, layout={0: ('int', 8, False)}, n=W.n); o.const = True; W.chars = e.arr(st, o, 0, o.layout[0])
    q = z3.Int('q'); st.assume_q(z3.ForAll([q], z3.And(W.chars[q] >= 0, W.chars[q] < 256), patterns=[W.chars[q]]))
    outs = returns(e, e.run(find(W.m, e, 'lightstep::WriteEscapedString('), st, [Ptr(W.writer, 0), Ptr(o, 0), IV(64, u=W.n)]), 'WriteEscapedString'); reachable(e, outs)
    for s in outs:
        e.prove(s, s.ghost['phase'] == 7, 'json: the string ends with a quotation mark')
        e.prove(s, z3.And(s.ghost['base'] == 10, s.ghost['width'] == 0), 'json: the stream formats numbers as before')
    return e


def values(ctx):
    engs = []
    for k in range(9):
        W = World(ctx, 'ToJson ' + KINDS[k]); e, st = W.e, W.st; engs.append(e); W.kind = 'value'; W.make(k)
        outs = returns(e, e.run(findre(W.m, e, r'^lightstep::ToJson\(std::.*ostringstream<.*Value const&\)'), st, [Ptr(W.writer, 0), W.value]), 'ToJson'); reachable(e, outs)
        for s in outs:
            e.cur = s; g = s.ghost; x = W.x
            e.prove(s, z3.And(g['base'] == 10, g['width'] == 0), 'json: the stream formats numbers as before')
            if k >= 7: e.prove(s, g['phase'] == 9, 'json: the text ends with the closing bracket'); continue
            got = g['out']; is_ = lambda t: got == literal(t)
            if k == 0: e.prove(s, x == (1 if is_('true') else 0) if is_('true') or is_('false') else False, 'json: a bool is written as true or false')
            elif k == 1:
                if is_('"NaN"'): f = NAN(x)
                elif is_('"+Inf"'): f = z3.And(INF(x), x < 2 ** 63)
                elif is_('"-Inf"'): f = z3.And(INF(x), x >= 2 ** 63)
                else: f = len(got) == 1 and got[0][0] == 'd' and got[0][1] == x
                e.prove(s, f, 'json: a double is written as itself')
            elif k in (2, 3): e.prove(s, len(got) == 1 and isinstance(got[0], tuple) and got[0][0] == 'n' and got[0][1] == x, 'json: an integer is written as itself')
            elif k == 5: e.prove(s, is_('null'), 'json: null')
            else:
                p, n = (Ptr(W.so, 0), W.sl) if k == 4 else (Ptr(W.chars_obj, 0), W.cl)
                e.prove(s, len(got) == 1 and isinstance(got[0], tuple) and got[0][0] == 'S' and b_and(e.ptr_eq(got[0][1], p), got[0][2] == n), 'json: a text is written as a string')
    return engs


def top(ctx):
    W = World(ctx, 'ToJson'); e, st = W.e, W.st; W.kind = 'top'; W.make(5); W.kind = 'top'
    r = e.new_obj(st, 'result', kind='struct', size=32)
    outs = returns(e, e.run(findre(W.m, e, r'^lightstep::ToJson\[abi:cxx11\]\(opentracing::Value const&\)'), st, [Ptr(r, 0), W.value]), 'ToJson'); reachable(e, outs)
    for s in outs:
        p, n = W.strof(s, Ptr(r, 0)); e.prove(s, b_and(e.ptr_eq(p, Ptr(W.jsontext, 0)), n == W.jl), 'json: the result is the text that was written')
    return e


def keyvalue(ctx):
    engs = []
    off = ctx.offsets(['lightstep-tracer-common/collector.pb.h'], {'key': ('lightstep::collector::KeyValue', '_impl_.key_')})
    for k in range(9):
        W = World(ctx, 'ToKeyValue ' + KINDS[k]); e, st = W.e, W.st; engs.append(e); W.make(k); W.kind = None; W.keyoff = off['key']
        W.kvobj = e.new_obj(st, 'result', kind='struct', size=64); p, n = W.texts('key')
        outs = returns(e, e.run(find(W.m, e, 'lightstep::ToKeyValue('), st, [Ptr(W.kvobj, 0), Ptr(p, 0), IV(64, u=n), W.value]), 'ToKeyValue'); reachable(e, outs)
        for s in outs:
            e.cur = s; got = dict(s.ghost['out']); f = len(got) == 2 and len(s.ghost['out']) == 2 and 'key' in got
            e.prove(s, b_and(f, b_and(e.ptr_eq(got['key'][1], Ptr(p, 0)), got['key'][2] == n) if f else False), 'value: the key is kept')
            name, v = [(a, b) for a, b in s.ghost['out'] if a != 'key'][0] if f else (None, None); x = W.x
            want = {0: 'bool', 1: 'double', 2: 'int', 3: 'int', 4: 'string', 5: 'bool', 6: 'string', 7: 'json', 8: 'json'}[k]
            e.prove(s, name == want, 'value: stored as the kind it has')
            if name != want: continue
            if k == 0: c = v[1] == x
            elif k == 1: c = v[1] == x
            elif k == 2: c = v[1] == x
            elif k == 3: c = v[1] == z3.If(x >= 2 ** 63, x - 2 ** 64, x)
            elif k == 4: c = b_and(v[0] == 'text', b_and(e.ptr_eq(v[1], Ptr(W.so, 0)), v[2] == W.sl) if v[0] == 'text' else False)
            elif k == 5: c = v[1] == 0
            elif k == 6: c = v[0] == 'chars' and e.ptr_eq(v[1], Ptr(W.chars_obj, 0))
            else: c = b_and(v[0] == 'text', b_and(e.ptr_eq(v[1], Ptr(W.jsontext, 0)), v[2] == W.jl) if v[0] == 'text' else False)
            e.prove(s, c, 'value: stored unchanged')
    return engs


def prepare(ctx): ctx.protos()


def units(ctx):
    V = 'lightstep::(anonymous namespace)::JsonValueVisitor::operator()'
    return [Unit('string', string, ['lightstep::WriteEscapedString'], 200), Unit('values', values, ['lightstep::ToJson(ostringstream&, Value const&)', V + ' (nine alternatives)'], 300),
            Unit('whole', top, ['lightstep::ToJson(Value const&)'], 100), Unit('key-value', keyvalue, ['lightstep::ToKeyValue', 'lightstep::(anonymous namespace)::ValueVisitor::operator() (nine alternatives)'], 200)]


def natives(ctx):
    return [Native('native/C32.cpp', srcs=['src/common/utility.cpp', 'src/common/hex_conversion.cpp', 'src/common/logger.cpp'], protos=True, gensrcs=['lightstep-tracer-common/collector.pb.cc', 'lightstep-tracer-common/google/api/annotations.pb.cc', 'lightstep-tracer-common/google/api/http.pb.cc'], libs=['-lprotobuf'], budget=(6, 60))]
