from .common import *
P = 'P06'
nb = {'n': [1, 2, 3, 4]}


def links(v):
    """the chain array describes exactly the vectors v along the order idx"""
    def link(i):
        a = v.v(iread('idx', i + 1)) - v.v(iread('idx', i))
        h = v.v(iread('idx', I(0)))
        return V(*[If(lt(i, v.length3 - 1), a[q], h[q]) for q in range(3)])
    return link


c = Contract(P, 'chain', 'h_relink', 'update_chain', bounded=nb)
n = c.int('n', 1)
cart = Arr(c, 'cart', n * 3, 'R', 'inout')
cart.length3 = n
ch = c.defvec('chain', n, links(cart))
cart = c.arr('cart', n * 3)
idx = c.iarr('idx', n, perm=True)
nidx = c.iarr('nidx', n, perm=True)
c.inverse('inv', idx)
k = c.skolem('k', 0, n - 1)
c.ensures_vec('the new links describe the same relative positions', ch.vnew(k), cart.v(nidx[k + 1]) - cart.v(nidx[k]))
c.ensures_vec('head entry', ch.vnew(n - 1), cart.v(nidx[0]))


# after an iteration the systems re-link their chains
from .syslib import Sys


def post(kind, frc, reg, same):
    s = Sys(P, kind, frc, reg, 'h_post_same' if same else 'h_post', 'order %s after a step' % ('kept' if same else 'changed'))
    c, n = s.c, s.n
    order = s.idx if same else c.iarr('order', n, perm=True)
    # the two outcomes of comparing the orders; equal ones are the same array here
    c.handlers = dict(c.handlers or {}, vx_same=lambda e, st, a, i: TRUE if same else FALSE)
    k = c.skolem('k', 0, n)
    for nm, ca in (('pos', s.cpos), ('vel', s.cvel)):
        a = getattr(s, nm)
        c.ensures_vec('cartesian %s unchanged' % nm, a.vnew(order[k]), a.v(order[k]))
        c.ensures_vec('links of %s follow the order' % nm, ca.vnew(k), a.v(order[k + 1]) - a.v(order[k]), guard=lt(k, n - 1))
        c.ensures_vec('head of %s' % nm, ca.vnew(n - 1), a.v(order[I(0)]))
    c.ensures('order in use', eq(s.idx.new(k), order[k]))
    c.ensures('mass unchanged', eq(s.mass.new(k), s.mass[k]))
    c.ensures('time', eq(s.g.new(0), s.g[0]))


for same in (False, True):
    post('chain', 0, None, same)
    post('chain', 2, None, same)
    post('archain', 0, 'LogH', same)
    post('archain', 2, 'TTL', same)
