import itertools
from vc.contract import *
from vc.expr import *


def pos_gen(rng):
    return rng.uniform(0.2, 3.0)


class Recs:
    """array of records of w reals; fields by offset"""

    def __init__(self, c, name, n, w=7, gen=None):
        self.a = c.arr(name, n * w, gen=gen)
        self.w, self.n = w, n

    def _v(self, f, i):
        i = i if isinstance(i, E) else I(i)
        return V(*[f(i * self.w + k) for k in range(3)])

    def _o(self, o, i):
        i = i if isinstance(i, E) else I(i)
        return i * self.w + o

    def pos(self, i):
        return V(*[self.a[self._o(k, i)] for k in range(3)])

    def vel(self, i):
        return V(*[self.a[self._o(3 + k, i)] for k in range(3)])

    def m(self, i):
        return self.a[self._o(6, i)]

    def npos(self, i):
        return V(*[self.a.new(self._o(k, i)) for k in range(3)])

    def nvel(self, i):
        return V(*[self.a.new(self._o(3 + k, i)) for k in range(3)])

    def nm(self, i):
        return self.a.new(self._o(6, i))

    # group quantities
    def M(self):
        return Sum(0, self.n, lambda i: self.m(i))

    def P(self):
        return VSum(0, self.n, lambda i: self.pos(i) * self.m(i))

    def Q(self):
        return VSum(0, self.n, lambda i: self.vel(i) * self.m(i))

    def ke(self):
        return Sum(0, self.n, lambda i: self.m(i) * self.vel(i).norm2()) * Fraction(1, 2)

    def pe(self):
        return -Sum(0, self.n, lambda i: Sum(i + 1, self.n, lambda j: self.m(i) * self.m(j) / (self.pos(i) - self.pos(j)).norm()))


def out_vec(o, k):
    return V(o.new(k), o.new(k + 1), o.new(k + 2))


def Max(n, f, init=0):
    """maximum of init and f(0..n-1)"""
    bv = mk('ivar', (fresh_name('x'),), 'I')
    return rfold('max', bv, n if isinstance(n, E) else I(n), f(at_lin(bv)), init if isinstance(init, E) else R(init))


def rmax(a, b):
    return If(lt(a, b), b, a)


def rmin(a, b):
    return If(lt(b, a), b, a)


def bracket(f):
    """candidate invariants of a bisection loop"""
    def inv(v):
        out = []
        for lo, hi in itertools.permutations(v.R, 2):
            out += [le(lo, hi), le(f(lo) * f(hi), 0)]
        for x in v.R:
            out += [le(v.R0[0], x), le(v.R0[1], x), le(x, v.R0[0]), le(x, v.R0[1])] if len(v.R0) > 1 else []
        return out
    return inv
