"""contracts shared by the particle-system properties (harness/system.cpp)"""
from .common import *
SYS = {'simple': 0, 'chain': 1, 'regularized': 2, 'archain': 3}
FRC = ['internal force', 'internal + velocity-independent force', 'internal + velocity-dependent force', 'all forces']
H = Fraction(1, 2)
z0 = lambda rng: 0.0
small = lambda rng: rng.uniform(-0.5, 0.5)


def links(a, n):
    """chain vectors along idx of the Cartesian vectors a (head last)"""
    def link(i):
        d = a.v(iread('idx', i + 1)) - a.v(iread('idx', i))
        h = a.v(iread('idx', I(0)))
        return V(*[If(lt(i, n - 1), d[q], h[q]) for q in range(3)])
    return link


class Sys:
    def __init__(self, prop, kind, frc, reg, fname, title, opts=None, **kw):
        k = SYS[kind]
        self.chain, self.regu, self.dep, self.ind = k in (1, 3), k >= 2, frc >= 2, frc in (1, 3)
        self.reg, self.kind, self.frc = reg, kind, frc
        lo = 2 if k else 0
        defs = ['VX_SYS=%d' % k, 'VX_FRC=%d' % frc] + (['VX_REG=' + reg] if self.regu else [])
        c = self.c = Contract(prop, 'system', fname, '%s%s, %s: %s' % (kind, ' ' + reg if self.regu else '', FRC[frc], title), defs=tuple(defs),
                              bounded={'n': [lo, 1, 2, 3] if lo == 0 else list(range(lo, 4))}, tol=1e-6 if self.chain else 1e-9, **kw)
        n = self.n = c.int('n', lo, 1 << 20)
        self.nv = n * 3 * (3 if self.dep else 2) + (3 if self.regu else 1)
        self.g = c.arr('g', 3, gen=pos_gen)
        self.pos = c.arr('pos', n * 3, gen=pos_gen)
        self.vel = c.arr('vel', n * 3, gen=small)
        self.aux = c.arr('aux', n * 3, gen=small)
        self.mass = c.arr('mass', n, gen=pos_gen)
        if self.chain:
            self.cpos = c.defvec('cpos', n, links(self.pos, n))
            self.cvel = c.defvec('cvel', n, links(self.vel, n))
            self.caux = c.defvec('caux', n, links(self.aux, n))
        else:
            for x in ('cpos', 'cvel', 'caux'):
                setattr(self, x, c.arr(x, n * 3, gen=z0))
        self.inc = c.arr('inc', self.nv, gen=small)
        self.idx = c.iarr('idx', n, perm=True)
        if self.chain:
            c.inverse('inv', self.idx)

    # forces of the harness
    def f(self, tag, x, v=None):
        a = list(x) + (list(v) if v is not None else [])
        return V(*[fn('uf%d' % (tag + q), *a) for q in range(3)])

    def N(self, i):
        return self.f(0, self.pos.v(i))

    def E(self, i):
        return self.f(3, self.pos.v(i)) if self.ind else V(R(0), R(0), R(0))

    def D(self, i, v):
        return self.f(6, self.pos.v(i), v) if self.dep else V(R(0), R(0), R(0))

    def A0(self, i):
        return self.N(i) + self.E(i) if self.ind else self.N(i)

    # energies
    def KE(self):
        return Sum(0, self.n, lambda i: self.mass[i] * self.vel.v(i).norm2()) * H

    def U(self):
        """minus the potential energy"""
        if self.chain:
            return fn('uf90', *(list(self.pos.v(0)) + [self.mass[0]]))
        return Sum(0, self.n, lambda i: Sum(i + 1, self.n, lambda j: self.mass[i] * self.mass[j] / (self.pos.v(i) - self.pos.v(j)).norm()))

    def dpos(self, h):
        if not self.regu or self.reg == 'None':
            return h
        return h / (self.g[2] + self.KE()) if self.reg == 'LogH' else h / self.g[1]

    def dvel(self, h):
        if not self.regu or self.reg == 'None':
            return h
        return h / self.U()

    def power(self, v, a):
        """sum m v.a with v, a functions of the particle"""
        return Sum(0, self.n, lambda i: self.mass[i] * v(i).dot(a(i)))

    # contracts
    def same(self, *names, k=None):
        for nm in names:
            a = getattr(self, nm)
            self.c.ensures_vec(nm + ' unchanged', a.vnew(k), a.v(k))

    def linked(self, nm, cnm, k):
        """the chain array describes the new Cartesian array"""
        a, ca = getattr(self, nm), getattr(self, cnm)
        self.c.ensures_vec('%s = links of %s' % (cnm, nm), ca.vnew(k), a.vnew(self.idx[k + 1]) - a.vnew(self.idx[k]), guard=lt(k, self.n - 1))
        self.c.ensures_vec('%s head' % cnm, ca.vnew(self.n - 1), a.vnew(self.idx[0]))

    def chained(self, f, k):
        """increments of the flattened state for particle/link k of a per-particle vector f"""
        if not self.chain:
            return f(k)
        return f(self.idx[k + 1]) - f(self.idx[k])
