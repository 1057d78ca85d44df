"""Abstract fragment streams: a list of streams denotes a flat sequence of fragments.
Flat index k in [0,N); stream i owns [B(i), B(i)+F(i)), B(0)=0, B(i+1)=B(i)+F(i), N=B(S); gdata(k)/gsize(k) describe
fragment k; G(k) is the number of bytes before it.  The functions are uninterpreted; their defining equations are
assumed at the terms where they are used."""
import z3
from . import ir
from .engine import *
from .dom import *
from .util import zi

I = z3.IntSort()
B = z3.Function('B', I, I)
F = z3.Function('F', I, I)
gdata = z3.Function('gdata', I, I)
gsize = z3.Function('gsize', I, I)
G = z3.Function('G', I, I)
sidx = z3.Function('sidx', I, I)      # position of a stream object in the list


def at_frag(st, k):
    st.assume(z3.And(gsize(k) >= 0, gsize(k) < 2 ** 31, G(k + 1) == G(k) + gsize(k), gdata(k) > 0, gdata(k) < 2 ** 64))


def at_stream(st, i):
    st.assume(z3.And(F(i) >= 0, B(i + 1) == B(i) + F(i)))


class Streams:
    def __init__(self, eng, st, cls='N2vf6StreamE'):
        self.S = z3.Int('S'); self.eng = eng
        vt = eng.gobj('_ZTV' + cls)
        self.region = eng.new_obj(st, 'Stream', kind='region', layout={0: ('ptr', lambda e, s, t: Ptr(vt, 16))})

        def dec(e, s, term):
            i = term.arg(1)
            s.assume(z3.And(term > 0, term < 2 ** 64, sidx(term) == i, i >= 0, i < self.S))
            at_stream(s, i)
            return Ptr(self.region, 0, term)
        self.list = eng.new_obj(st, 'list', kind='array', stride=8, layout={0: ('ptr', dec)}, n=self.S)
        k, j = z3.Ints('k j')
        # consequences of the definitions (proved by induction in the unit 'lemmas')
        st.assume_q(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j <= B(self.S)), G(k) <= G(j)), patterns=[z3.MultiPattern(G(k), G(j))]))
        st.assume_q(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j <= self.S), B(k) <= B(j)), patterns=[z3.MultiPattern(B(k), B(j))]))
        st.assume(z3.And(self.S >= 0, self.S < 2 ** 20, B(0) == 0, G(0) == 0, B(self.S) < 2 ** 31, B(self.S) >= 0, G(B(self.S)) < 2 ** 31, G(B(self.S)) >= 0))

    def args(self):
        return [Ptr(self.list, 0), IV(64, s=self.S)]

    def idx(self, p):
        return sidx(p.key)

    def foreach(self, on_true=None, gk='fk'):
        """contract of FragmentInputStream::ForEachFragment: calls the visitor on each fragment in order until it answers false"""
        def h(eng, st, args, ins):
            i = self.idx(args[0]); at_stream(st, i)
            this, callable_, invoker = args
            return self.enumerate(eng, st, B(i), F(i), callable_, invoker, gk)
        return h

    def enumerate(self, eng, st, base, count, callable_, invoker, gk='fk'):
        depth = len(st.frames)
        st.gset(gk, base if not is_c(base) else z3.IntVal(base))

        def havoc(h, modset, gmod, ptrinfo):
            eng.havoc_mem(h, modset, gmod | {gk}, ptrinfo)
            h.assume(z3.And(h.ghost[gk] >= base, h.ghost[gk] <= base + count))

        def body(h):
            backs, exits = [], []
            k = h.ghost[gk]
            d = h.clone()
            if eng.feasible(d, k == base + count):
                d.assume(k == base + count); d.ghost['fe_ret'] = True
                exits.append(d)
            if eng.feasible(h, k < base + count):
                h.assume(k < base + count); at_frag(h, k)
                eng.cur = h
                for s, v in eng.call_value(h, invoker, [callable_, Ptr(None, gdata(k)), IV(32, s=gsize(k))]):
                    v = zb(v); eng.cur = s
                    if eng.feasible(s, v):
                        a = s.clone(); a.assume(v); a.gset(gk, k + 1); backs.append(a)
                    if eng.feasible(s, z3.Not(v)):
                        b = s.clone(); b.assume(z3.Not(v)); b.ghost['fe_ret'] = False; exits.append(b)
            return backs, exits
        ex = eng.cut_loop(st, havoc, body, lambda s: {}, 'ForEachFragment(visitor)', ends=True)
        return [(s, s.ghost['fe_ret']) for s in ex]


def lemmas(eng):
    """the two monotonicity facts, by induction on the upper index (base and step)"""
    k, j = z3.Ints('k j')
    st = State(); eng.cur = st
    eng.prove(st, z3.Implies(z3.And(gsize(j) >= 0, G(j + 1) == G(j) + gsize(j), G(k) <= G(j)), G(k) <= G(j + 1)), 'lemma: byte offsets are monotone (induction step; base G(k) <= G(k))', where='lemma')
    eng.prove(st, z3.Implies(z3.And(F(j) >= 0, B(j + 1) == B(j) + F(j), B(k) <= B(j)), B(k) <= B(j + 1)), 'lemma: stream offsets are monotone (induction step; base B(k) <= B(k))', where='lemma')
