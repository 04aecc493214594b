from .common import *
P = 'P01'


def newton_term(pos, mass, k, j):
    d = pos.v(j) - pos.v(k)
    r = d.norm()
    return d * (mass[j] / (r * r * r))


def cart():
    c = Contract(P, 'forces', 'h_newton', 'newtonian cartesian', bounded={'n': [1, 2, 3, 4]})
    n = c.int('n', 0)
    pos = c.arr('pos', n * 3)
    mass = c.arr('mass', n, gen=pos_gen)
    acc = c.arr('acc', n * 3)
    k = c.skolem('k', 0, n)
    s = VSum(0, n, lambda j: V(*[If(eq(j, k), 0, x) for x in newton_term(pos, mass, k, j)]))
    c.ensures_vec('a_k = a0_k + sum_j G m_j (x_j-x_k)/r^3', acc.vnew(k), acc.v(k) + s)


cart()


def chain():
    c = Contract(P, 'forces', 'h_newton_chain', 'newtonian chain', bounded={'n': [2, 3, 4, 5]})
    n = c.int('n', 2)
    pos = c.arr('pos', n * 3)
    mass = c.arr('mass', n, gen=pos_gen)
    chp = None
    def cp(i):
        a, b = iread('idx', i), iread('idx', i + 1)
        return pos.v(b) - pos.v(a)
    chp = c.defvec('chpos', n, cp)
    idx = c.iarr('idx', n, perm=True)
    acc = c.arr('acc', n * 3)
    k = c.skolem('k', 0, n)
    ik = idx[k]
    s = VSum(0, n, lambda j: V(*[If(eq(j, k), 0, x) for x in newton_term(pos, mass, ik, idx[j])]))
    c.ensures_vec('a_idx[k] = a0 + sum over all other chain members', acc.vnew(ik), acc.v(ik) + s)


chain()
