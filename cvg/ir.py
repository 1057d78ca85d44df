"""Parser for the textual LLVM IR (opaque pointers, LLVM 18) that clang emits for /repo's sources.

Only syntax is handled here; nothing is abstracted. Instructions become small dicts.
"""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9\\]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-fKLMH]+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p><\{|\}>|[()\[\]{}<>,=*:|])
''', re.X)

ATTR_WORDS = set('''noundef nonnull zeroext signext inreg nocapture noalias readonly readnone writeonly
returned nofree nest immarg swiftself swifterror noreturn nounwind writable dead_on_unwind local_unnamed_addr
unnamed_addr dso_local dso_preemptable private internal linkonce_odr linkonce weak weak_odr external common
available_externally hidden protected default tail musttail notail fastcc ccc coldcc nnan ninf nsz arcp contract afn reassoc fast
inbounds nuw nsw exact disjoint nneg volatile atomic weak constant global thread_local appending externally_initialized
allocptr noinline inlinehint alwaysinline mustprogress uwtable sspstrong cold hot'''.split())


class Toks:
    def __init__(self, s):
        self.t = []
        for m in TOK.finditer(s):
            self.t.append((m.lastgroup, m.group()))
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise SyntaxError("expected %r got %r in %r" % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


INT = lambda w: ('int', w)
PTR = ('ptr',)
VOID = ('void',)


def unq(s):
    """Strip sigil and quotes of an identifier."""
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s


def parse_type(t):
    k = t.peek()
    if k is None:
        raise SyntaxError("type expected")
    if t.kind() == 'id' and k[0] == '%':
        t.next()
        ty = ('named', unq(k))
    elif k == '[':
        t.next(); n = int(t.next()); t.expect('x'); e = parse_type(t); t.expect(']')
        ty = ('array', n, e)
    elif k == '<':
        t.next(); n = int(t.next()); t.expect('x'); e = parse_type(t); t.expect('>')
        ty = ('vector', n, e)
    elif k in ('{', '<{'):
        packed = k == '<{'
        close = '}>' if packed else '}'
        t.next(); fs = []
        while not t.accept(close):
            fs.append(parse_type(t)); t.accept(',')
        ty = ('struct', tuple(fs), packed)
    else:
        t.next()
        if re.fullmatch(r'i[0-9]+', k):
            ty = ('int', int(k[1:]))
        elif k == 'ptr':
            ty = PTR
            if t.peek() == 'addrspace':
                t.next(); t.expect('('); t.next(); t.expect(')')
        elif k in ('void', 'float', 'double', 'label', 'metadata', 'opaque', 'token', 'x86_fp80', 'half', 'fp128'):
            ty = (k,)
        else:
            raise SyntaxError("type? %r" % k)
    # function type  T (args)
    if t.peek() == '(' and ty != PTR:
        pass
    return ty


def skip_attrs(t):
    """Skip parameter / return attributes; return dict of interesting ones."""
    out = {}
    while True:
        k = t.peek()
        if k is None:
            return out
        if k in ATTR_WORDS:
            t.next(); out[k] = True
        elif k == 'align':
            t.next()
            if t.accept('('):
                t.next(); t.expect(')')
            else:
                t.next()
        elif k in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'inalloca', 'preallocated', 'elementtype', 'byref', 'allocsize', 'allockind', 'memory', 'nofpclass', 'range', 'addrspace', 'captures') and t.peek(1) == '(':
            t.next(); t.next()
            depth = 1; inner = []
            while depth:
                v = t.next()
                if v == '(': depth += 1
                if v == ')': depth -= 1
                if depth: inner.append(v)
            out[k] = ' '.join(inner)
        elif t.kind() == 'attr':
            t.next()
        else:
            return out


CAST_OPS = {'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'}
BIN_OPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def parse_value(t, ty):
    """A value of known type: ('local',n) ('global',n) ('int',v) ('null',) ('undef',) ('zero',) ('agg',[...]) ('expr',...)"""
    k = t.peek()
    kd = t.kind()
    if kd == 'id':
        t.next()
        return ('local', unq(k)) if k[0] == '%' else ('global', unq(k))
    if kd == 'num':
        t.next()
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return ('float', k)
        return ('int', int(k, 0))
    if kd == 'str':
        t.next()
        return ('bytes', cstr(k))
    if k in ('true', 'false'):
        t.next(); return ('int', 1 if k == 'true' else 0)
    if k == 'null':
        t.next(); return ('null',)
    if k in ('undef', 'poison'):
        t.next(); return ('undef',)
    if k == 'zeroinitializer':
        t.next(); return ('zero',)
    if k == 'none':
        t.next(); return ('undef',)
    if k in ('{', '<{', '['):
        close = {'{': '}', '<{': '}>', '[': ']'}[k]
        t.next(); vs = []
        while not t.accept(close):
            e = parse_type(t)
            vs.append((e, parse_value(t, e))); t.accept(',')
        return ('agg', vs)
    if k == 'getelementptr':
        t.next()
        while t.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            t.next()
            if t.peek() == '(' and t.peek(-1) == 'inrange':
                while t.next() != ')': pass
        t.expect('(')
        base = parse_type(t); t.expect(',')
        pt = parse_type(t); p = parse_value(t, pt)
        idx = []
        while t.accept(','):
            while t.peek() == 'inrange': t.next()
            it = parse_type(t); idx.append((it, parse_value(t, it)))
        t.expect(')')
        return ('gep', base, p, idx)
    if k in CAST_OPS:
        t.next(); t.expect('(')
        ft = parse_type(t); v = parse_value(t, ft); t.expect('to'); tt = parse_type(t); t.expect(')')
        return ('cast', k, ft, v, tt)
    if k in BIN_OPS:
        t.next()
        while t.peek() in ('nuw', 'nsw', 'exact'): t.next()
        t.expect('(')
        ft = parse_type(t); a = parse_value(t, ft); t.expect(','); ft2 = parse_type(t); b = parse_value(t, ft2); t.expect(')')
        return ('bin', k, ft, a, b)
    if k == 'icmp':
        t.next(); pred = t.next(); t.expect('(')
        ft = parse_type(t); a = parse_value(t, ft); t.expect(','); ft2 = parse_type(t); b = parse_value(t, ft2); t.expect(')')
        return ('icmp', pred, ft, a, b)
    raise SyntaxError("value? %r (type %r)" % (k, ty))


def cstr(s):
    s = s[2:-1] if s.startswith('c') else s[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode(); i += 1
    return bytes(out)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, attrs)
        self.rettype = None
        self.blocks = {}      # label -> [inst]
        self.order = []
        self.entry = None
        self._loops = None

    # natural loops ---------------------------------------------------------------------------
    def succs(self, b):
        i = self.blocks[b][-1]
        op = i['op']
        if op == 'br':
            return list(dict.fromkeys(i['targets']))
        if op == 'switch':
            return list(dict.fromkeys([i['default']] + [l for _, l in i['cases']]))
        if op == 'invoke':
            return [i['normal'], i['unwind']]
        return []

    def loops(self):
        """header -> set(blocks)"""
        if self._loops is not None:
            return self._loops
        preds = {b: [] for b in self.order}
        reach = []; seen = set(); st = [self.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); reach.append(b)
            for s in self.succs(b):
                preds[s].append(b); st.append(s)
        dom = {b: set(seen) for b in seen}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b == self.entry or b not in seen: continue
                ps = [dom[p] for p in preds[b] if p in seen]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n; ch = True
        loops = {}
        for b in seen:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in preds[x] if p in seen)
        self._loops = loops
        return loops


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> dict(type, init, const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}


def _arg_list(t):
    """call/invoke arguments"""
    t.expect('(')
    args = []
    while not t.accept(')'):
        ty = parse_type(t)
        if ty == ('metadata',):
            # metadata operand: skip to , or )
            depth = 0
            while not (depth == 0 and t.peek() in (',', ')')):
                v = t.next()
                if v in '({': depth += 1
                if v in ')}': depth -= 1
            args.append((ty, ('undef',), {}))
        else:
            at = skip_attrs(t)
            args.append((ty, parse_value(t, ty), at))
        t.accept(',')
    return args


def parse_call(t, ins):
    fl = skip_attrs(t)
    if t.peek() == 'cc':
        t.next(); t.next()
    fl2 = skip_attrs(t)
    rt = parse_type(t)
    if t.peek() == '(':      # full function type (varargs)
        depth = 0
        while True:
            v = t.next()
            if v == '(': depth += 1
            if v == ')':
                depth -= 1
                if depth == 0: break
    if t.peek() == 'asm':    # never executed by the engine (no contract names it)
        while t.peek() != '(': t.next()
        callee = ('global', 'asm:' + ins['text'])
    else: callee = parse_value(t, PTR)
    args = _arg_list(t)
    ins.update(rt=rt, callee=callee, args=args)


def parse_inst(line):
    t = Toks(line)
    ins = {'text': line.strip()}
    if t.kind() == 'id' and t.peek(1) == '=':
        ins['res'] = unq(t.next()); t.next()
    op = t.next()
    if op in ('tail', 'musttail', 'notail'):
        op = t.next()
    ins['op'] = op
    if op == 'alloca':
        while t.peek() in ('inalloca',): t.next()
        ins['ty'] = parse_type(t); ins['n'] = (INT(32), ('int', 1))
        if t.accept(','):
            if t.peek() != 'align':
                ty = parse_type(t); ins['n'] = (ty, parse_value(t, ty))
    elif op == 'load':
        ins['atomic'] = t.accept('atomic'); t.accept('volatile')
        ins['ty'] = parse_type(t); t.expect(',')
        parse_type(t); ins['ptr'] = parse_value(t, PTR)
        if ins['atomic']:
            if t.peek() == 'syncscope':
                t.next(); t.expect('('); t.next(); t.expect(')')
            ins['ord'] = t.next()
    elif op == 'store':
        ins['atomic'] = t.accept('atomic'); t.accept('volatile')
        ins['ty'] = parse_type(t); ins['val'] = parse_value(t, ins['ty']); t.expect(',')
        parse_type(t); ins['ptr'] = parse_value(t, PTR)
        if ins['atomic']:
            if t.peek() == 'syncscope':
                t.next(); t.expect('('); t.next(); t.expect(')')
            ins['ord'] = t.next()
    elif op == 'getelementptr':
        while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
        ins['base'] = parse_type(t); t.expect(',')
        parse_type(t); ins['ptr'] = parse_value(t, PTR)
        ins['idx'] = []
        while t.accept(','):
            ty = parse_type(t); ins['idx'].append((ty, parse_value(t, ty)))
    elif op in BIN_OPS:
        ins['flags'] = set()
        while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
            ins['flags'].add(t.next())
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty']); t.expect(','); ins['b'] = parse_value(t, ins['ty'])
    elif op in ('icmp', 'fcmp'):
        while t.peek() in ('samesign', 'fast', 'nnan', 'ninf', 'nsz'): t.next()
        ins['pred'] = t.next(); ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty']); t.expect(','); ins['b'] = parse_value(t, ins['ty'])
    elif op in CAST_OPS:
        while t.peek() in ('nneg', 'nuw', 'nsw'): t.next()
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty']); t.expect('to'); ins['to'] = parse_type(t)
    elif op == 'phi':
        skip_attrs(t)
        ins['ty'] = parse_type(t); ins['inc'] = []
        while True:
            t.expect('['); v = parse_value(t, ins['ty']); t.expect(','); l = unq(t.next()); t.expect(']')
            ins['inc'].append((v, l))
            if not t.accept(','): break
            if t.peek() != '[': break
    elif op == 'select':
        skip_attrs(t)
        ct = parse_type(t); ins['c'] = parse_value(t, ct); t.expect(',')
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty']); t.expect(','); parse_type(t); ins['b'] = parse_value(t, ins['ty'])
    elif op == 'br':
        if t.peek() == 'label':
            t.next(); ins['cond'] = None; ins['targets'] = [unq(t.next())]
        else:
            parse_type(t); ins['cond'] = parse_value(t, INT(1)); t.expect(','); t.expect('label'); a = unq(t.next()); t.expect(','); t.expect('label'); b = unq(t.next())
            ins['targets'] = [a, b]
    elif op == 'switch':
        ins['ty'] = parse_type(t); ins['v'] = parse_value(t, ins['ty']); t.expect(','); t.expect('label'); ins['default'] = unq(t.next())
        t.expect('['); ins['cases'] = []
        while not t.accept(']'):
            ty = parse_type(t); v = parse_value(t, ty); t.expect(','); t.expect('label'); ins['cases'].append((v[1], unq(t.next())))
    elif op == 'ret':
        ins['ty'] = parse_type(t)
        if ins['ty'] != VOID:
            ins['val'] = parse_value(t, ins['ty'])
    elif op == 'call':
        parse_call(t, ins)
    elif op == 'invoke':
        parse_call(t, ins)
        while t.peek() != 'to': t.next()
        t.expect('to'); t.expect('label'); ins['normal'] = unq(t.next()); t.expect('unwind'); t.expect('label'); ins['unwind'] = unq(t.next())
    elif op == 'extractvalue':
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty']); ins['idx'] = []
        while t.accept(','): ins['idx'].append(int(t.next()))
    elif op == 'insertvalue':
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty']); t.expect(','); ins['vty'] = parse_type(t); ins['v'] = parse_value(t, ins['vty']); ins['idx'] = []
        while t.accept(','): ins['idx'].append(int(t.next()))
    elif op == 'landingpad':
        ins['ty'] = parse_type(t); ins['clauses'] = []
        while not t.done():
            k = t.next()
            if k == 'cleanup': ins['clauses'].append(('cleanup',))
            elif k == 'catch':
                ty = parse_type(t); ins['clauses'].append(('catch', parse_value(t, ty)))
            elif k == 'filter':
                ty = parse_type(t); ins['clauses'].append(('filter', parse_value(t, ty)))
    elif op == 'resume':
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty'])
    elif op == 'cmpxchg':
        ins['weak'] = t.accept('weak'); t.accept('volatile')
        parse_type(t); ins['ptr'] = parse_value(t, PTR); t.expect(',')
        ins['ty'] = parse_type(t); ins['cmp'] = parse_value(t, ins['ty']); t.expect(','); parse_type(t); ins['new'] = parse_value(t, ins['ty'])
        ins['ord'] = t.next(); ins['ord2'] = t.next()
    elif op == 'atomicrmw':
        t.accept('volatile')
        ins['rmw'] = t.next(); parse_type(t); ins['ptr'] = parse_value(t, PTR); t.expect(',')
        ins['ty'] = parse_type(t); ins['val'] = parse_value(t, ins['ty']); ins['ord'] = t.next()
    elif op == 'fence':
        ins['ord'] = t.next()
    elif op == 'freeze':
        ins['ty'] = parse_type(t); ins['a'] = parse_value(t, ins['ty'])
    elif op in ('unreachable',):
        pass
    else:
        ins['op'] = 'unknown:' + op
    return ins


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            t = Toks(ln); name = unq(t.next()); t.expect('='); t.expect('type')
            m.types[name] = parse_type(t)
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('declare'):
            f = parse_header(ln); m.decls[f.name] = f
        elif ln.startswith('define'):
            f = parse_header(ln)
            i += 1
            cur = None
            first = True
            while lines[i] != '}':
                l = lines[i]
                if l.strip() == '' or l.startswith(';'):
                    i += 1; continue
                mm = re.match(r'^((?:"[^"]*")|[-a-zA-Z$._0-9]+):', l)
                if mm and not l.startswith(' '):
                    lab = mm.group(1).strip('"')
                    cur = lab; f.blocks[cur] = []; f.order.append(cur)
                    if first: f.entry = cur; first = False
                    i += 1; continue
                if first:
                    # unnamed entry: number = number of params that are unnamed
                    cur = str(f.unnamed); f.blocks[cur] = []; f.order.append(cur); f.entry = cur; first = False
                s = l
                if re.match(r'^\s+switch ', s):
                    while ']' not in s:
                        i += 1; s += ' ' + lines[i].strip()
                while i + 1 < n and re.match(r'^ {10}\S', lines[i+1]):
                    i += 1; s += ' ' + lines[i].strip()
                s = re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+\s*$', '', s)
                f.blocks[cur].append(parse_inst(s))
                i += 1
            m.funcs[f.name] = f
        i += 1
    return m


def parse_header(ln):
    t = Toks(ln)
    t.next()
    while True:
        k = t.peek()
        if k in ATTR_WORDS or k in ('comdat',):
            t.next()
        elif k == 'cc':
            t.next(); t.next()
        else:
            a = skip_attrs(t)
            if not a and t.peek() not in ATTR_WORDS:
                break
    rt = parse_type(t)
    name = unq(t.next())
    f = Func(name)
    f.rettype = rt
    t.expect('(')
    cnt = 0
    f.vararg = False
    while not t.accept(')'):
        if t.accept('...'):
            f.vararg = True; continue
        ty = parse_type(t); at = skip_attrs(t)
        nm = None
        if t.kind() == 'id':
            nm = unq(t.next())
        else:
            nm = str(cnt)
        if re.fullmatch(r'[0-9]+', nm): cnt += 1
        f.params.append((ty, nm, at)); t.accept(',')
    f.unnamed = cnt
    f.nounwind = False
    return f


def parse_global(m, ln):
    t = Toks(ln)
    name = unq(t.next()); t.expect('=')
    const = False; ext = False; alias = False
    tls = False
    while True:
        k = t.peek()
        if k in ('constant', 'global'):
            const = k == 'constant'; t.next(); break
        if k == 'alias':
            t.next(); alias = True; break
        if k in ('external', 'extern_weak'):
            ext = True
        if k == 'thread_local':
            tls = True
            t.next()
            if t.accept('('):
                t.next(); t.expect(')')
            continue
        if k is None:
            return
        if k == 'addrspace':
            t.next(); t.expect('('); t.next(); t.expect(')'); continue
        t.next()
    if alias:
        mm = re.search(r', ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', ln)
        if mm:
            m.aliases[name] = ('global', unq(mm.group(1)))
        return
    ty = parse_type(t)
    init = None
    if not ext and t.peek() is not None and t.peek() != ',':
        init = parse_value(t, ty)
    m.globals[name] = dict(type=ty, init=init, const=const, tls=tls)


class Layout:
    def __init__(self, m):
        self.m = m
        self.cache = {}

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.m.types[ty[1]]
        return ty

    def size_align(self, ty):
        if ty in self.cache:
            return self.cache[ty]
        r = self._sa(ty)
        self.cache[ty] = r
        return r

    def _sa(self, ty):
        k = ty[0]
        if k == 'named':
            return self.size_align(self.m.types[ty[1]])
        if k == 'int':
            w = ty[1]; b = (w + 7) // 8
            p = 1
            while p < b: p *= 2
            return (p, min(p, 16))
        if k == 'ptr': return (8, 8)
        if k == 'float': return (4, 4)
        if k == 'double': return (8, 8)
        if k == 'x86_fp80': return (16, 16)
        if k == 'array':
            s, a = self.size_align(ty[2]); return (s * ty[1], a)
        if k == 'vector':
            s, a = self.size_align(ty[2]); return (s * ty[1], s * ty[1])
        if k == 'struct':
            off = 0; al = 1
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'opaque': return (0, 1)
        raise NotImplementedError(ty)

    def size(self, ty):
        return self.size_align(ty)[0]

    def field(self, ty, i):
        """(offset, type) of member i of an aggregate type."""
        ty = self.resolve(ty)
        if ty[0] == 'struct':
            off = 0
            for j, f in enumerate(ty[1]):
                s, a = self.size_align(f)
                if ty[2]: a = 1
                off = (off + a - 1) // a * a
                if j == i: return off, f
                off += s
        if ty[0] in ('array', 'vector'):
            return self.size(ty[2]) * i, ty[2]
        raise NotImplementedError((ty, i))
