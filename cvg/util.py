"""helpers shared by the property modules"""
import z3
from . import ir
from .engine import *
from .dom import *


def find(m, eng, pat, defined=True):
    """the unique function whose demangled name starts with pat"""
    c = [n for n in (m.funcs if defined else list(m.funcs) + list(m.decls)) if eng.dem(n).startswith(pat)]
    if len(c) > 1: c = [n for n in c if '$_' not in eng.dem(n) and "'lambda" not in eng.dem(n)]
    if len(c) != 1: raise Unsupported('%d functions match %s' % (len(c), pat))
    return c[0]


def findre(m, eng, rx, defined=True):
    import re
    c = [n for n in (m.funcs if defined else list(m.funcs) + list(m.decls)) if re.search(rx, eng.dem(n))]
    if len(c) > 1: c = [n for n in c if '$_' not in eng.dem(n) and 'lambda' not in eng.dem(n)]
    if len(c) != 1: raise Unsupported('%d functions match %s: %s' % (len(c), rx, c[:4]))
    return c[0]


def reachable(eng, states):
    """vacuity guard: at least one end state must not be provably contradictory"""
    if any(o.status == 'refuted' for o in eng.obls): return True     # already reported
    for s in states:
        st = eng.check_valid(s, False, timeout=1200)[0]
        if st != 'proved': return True
    raise Unsupported('vacuous: every end state is contradictory')


def returns(eng, states, what):
    """all end states must be normal returns"""
    out = []
    for s in states:
        eng.cur = s
        if s.outcome[0] == 'throw':
            eng.prove(s, False, what + ': no exception is raised')
        else: out.append(s)
    return out


def lemma(eng, name, formula, timeout=None):
    st = State(); eng.cur = st
    return eng.prove(st, formula, 'lemma: ' + name, where='lemma', timeout=timeout)


def rx(pat):
    """contract matcher: regular expression on the demangled name"""
    import re
    c = re.compile(pat)
    return lambda name, dem: c.search(dem) is not None


def noop(eng, st, args, ins):
    return [(st, None)]


def orders(ins):
    import re
    return re.findall(r'\b(unordered|monotonic|acquire|release|acq_rel|seq_cst)\b', ins['text'])


def has_acquire(ins, fail=False):
    o = orders(ins)
    return bool(o) and o[-1 if fail else 0] in ('acquire', 'acq_rel', 'seq_cst')


def has_release(ins):
    o = orders(ins)
    return bool(o) and o[0] in ('release', 'acq_rel', 'seq_cst')


def virtual_object(eng, st, cls, name, size=8, **kw):
    """an object whose dynamic type is the (harness) class with mangled name cls: its vtable pointer is set"""
    o = eng.new_obj(st, name, kind='struct', size=size, **kw)
    vt = eng.gobj('_ZTV' + cls)
    st.mem[o.id] = {0: (8, Ptr(vt, 16))}
    return o


def zi(x):
    return z3.IntVal(x) if is_c(x) else x


def int_candidates(measures, coefs=(1, -1), extra=None):
    """candidate loop invariants over everything the loop changes, independent of names:
    x - c*(m - m_entry) == x_entry and x == c*m for each measure m(view)->Int, plus bounds.  Only those that the
    verifier proves inductive are ever used."""
    def gen(eng, view):
        out = []
        for name, t in view.ints():
            def x(v, name=name): return zi(v.term(v.get(name)))
            def x0(v, name=name): return zi(v.term(v.get_entry(name)))
            out.append(('%s unchanged' % (name,), lambda v, x=x, x0=x0: x(v) == x0(v)))
            out.append(('%s >= 0' % (name,), lambda v, x=x: x(v) >= 0))
            out.append(('%s >= entry' % (name,), lambda v, x=x, x0=x0: x(v) >= x0(v)))
            for mn, m in measures:
                for c in coefs:
                    out.append(('%s = entry + %d*(%s - entry)' % (name, c, mn), lambda v, x=x, x0=x0, m=m, c=c: x(v) == x0(v) + c * (m(v.st) - m(v.entry))))
                    out.append(('%s = %d*%s' % (name, c, mn), lambda v, x=x, m=m, c=c: x(v) == c * m(v.st)))
        for name in view.ptrs():
            def same(v, name=name): return zb(eng.ptr_eq(v.get(name), v.get_entry(name)))
            out.append(('%s is the pointer it was' % (name,), same))
        if extra: out += extra(eng, view)
        return out
    return gen


def textio():
    """contracts of message formatting (string streams, strings, exception objects): no effect on the program's state"""
    def same(eng, st, args, ins): return [(st, args[0])]
    def plain(eng, st, args, ins): return [(st, eng.fresh_val(st, ins['rt'], 'text') if ins.get('rt') and ins['rt'][0] != 'void' else None)]
    return [(rx(r'basic_ostream<.*>& std::(operator ?<<|endl)'), same), (rx(r'^std::(basic_ostream|ostream)<.*>::operator<<'), same),
            (rx(r'^std::__cxx11::basic_(o|i)?stringstream<'), plain), (rx(r'^std::__cxx11::basic_string<.*>::(basic_string|~basic_string|append|assign|reserve|push_back|operator(=|\+=))'), plain),
            (rx(r'^std::(__cxx11::)?to_string\('), plain), (rx(r'basic_string<.*> std::operator\+'), plain), (rx(r'^std::(runtime_error|logic_error|invalid_argument|system_error|exception|bad_alloc)::'), plain)]


def findall(m, eng, rx):
    """every defined function whose demangled name matches"""
    import re
    return [n for n in m.funcs if re.search(rx, eng.dem(n))]
