from .common import *
P = 'P05'
nb = {'n': [1, 2, 3, 4]}

# cartesian -> chain
c = Contract(P, 'chain', 'h_to_chain', 'cartesian to chain', bounded=nb)
n = c.int('n', 1)
cart = c.arr('cart', n * 3)
ch = c.arr('chain', n * 3)
idx = c.iarr('idx', n, perm=True)
k = c.skolem('k', 0, n - 1)
c.ensures_vec('chain[k] = difference of consecutive members', ch.vnew(k), cart.v(idx[k + 1]) - cart.v(idx[k]))
c.ensures_vec('last chain entry is the position of the head', ch.vnew(n - 1), cart.v(idx[0]))
c.ensures_vec('cartesian unchanged', cart.vnew(k), cart.v(k))

# chain -> cartesian
c = Contract(P, 'chain', 'h_to_cart', 'chain to cartesian', bounded=nb)
n = c.int('n', 1)
mass = c.arr('mass', n)
ch = c.arr('chain', n * 3)
cart = c.arr('cart', n * 3)
idx = c.iarr('idx', n, perm=True)
k = c.skolem('k', 0, n)
c.ensures_vec('member k sits at the head plus the first k links', cart.vnew(idx[k]), ch.v(n - 1) + VSum(0, k, lambda j: ch.v(j)))
c.ensures_vec('chain unchanged', ch.vnew(k), ch.v(k))

# inverses
c = Contract(P, 'chain', 'h_round', 'cartesian to chain to cartesian', bounded=nb)
n = c.int('n', 1)
mass = c.arr('mass', n)
ch = c.arr('chain', n * 3)
cart = c.arr('cart', n * 3)
idx = c.iarr('idx', n, perm=True)
k = c.skolem('k', 0, n)
c.ensures_vec('restores every member', cart.vnew(idx[k]), cart.v(idx[k]))

c = Contract(P, 'chain', 'h_round2', 'chain to cartesian to chain', bounded=nb)
n = c.int('n', 1)
mass = c.arr('mass', n)
ch = c.arr('chain', n * 3)
cart = c.arr('cart', n * 3)
idx = c.iarr('idx', n, perm=True)
k = c.skolem('k', 0, n - 1)
c.ensures_vec('restores every link', ch.vnew(k), ch.v(k))
c.ensures_vec('restores the head', ch.vnew(n - 1), ch.v(n - 1))
