from .common import *
P = 'P18'

c = Contract(P, 'groups', 'h_com', 'total mass and centre of mass', bounded={'n': [1, 2, 3]})
n = c.int('n', 1)
r = Recs(c, 'ptc', n)
o = c.arr('out', 7)
c.requires(gt(r.M(), 0))
c.ensures('M_tot', eq(o.new(0), r.M()))
c.ensures_vec('COM_p', out_vec(o, 1), r.P() / r.M())
c.ensures_vec('COM_v', out_vec(o, 4), r.Q() / r.M())

for k, f in ((2, 'h_com2'), (3, 'h_com3')):
    c = Contract(P, 'groups', f, 'total mass and centre of mass of %d particles' % k)
    r = Recs(c, 'ptc', I(k))
    o = c.arr('out', 7)
    c.requires(gt(expand(r.M()), 0))
    c.ensures('M_tot', expand(eq(o.new(0), r.M())))
    c.ensures_vec('COM_p', out_vec(o, 1), V(*[expand(x) for x in r.P() / r.M()]))
    c.ensures_vec('COM_v', out_vec(o, 4), V(*[expand(x) for x in r.Q() / r.M()]))


def moved(f, nn, title):
    c = Contract(P, 'groups', f, title, bounded={'n': [1, 2, 3], 'which': [0, 1, 2, 3]})
    n = c.int('n', 1) if nn is None else I(nn)
    ex = (lambda x: x) if nn is None else expand
    r = Recs(c, 'ptc', n)
    tp = c.arr('tp', 3)
    tv = c.arr('tv', 3)
    w = c.int('which', 0, 3)
    c.requires(ex(ne(r.M(), 0)))
    k = c.skolem('k', 0, n)
    dp = V(*[ex(If(le(w, 1), a, If(eq(w, 2), b, 0)) - If(eq(w, 2), b, b)) for a, b in zip(tp.v(0), (r.P() / r.M()))])
    dv = V(*[ex(If(eq(w, 0), a, If(eq(w, 2), a, If(eq(w, 1), b, 0))) - b) for a, b in zip(tv.v(0), (r.Q() / r.M()))])
    ks = [k] if nn is None else [I(x) for x in range(nn)]
    for q in ks:
        t = '' if nn is None else ' (particle %s)' % show(q)
        c.ensures_vec('positions translate together' + t, r.npos(q) - r.pos(q), dp)
        c.ensures_vec('velocities translate together' + t, r.nvel(q) - r.vel(q), dv)
        c.ensures('mass unchanged' + t, eq(r.nm(q), r.m(q)))


moved('h_move', None, 'moving a group')
moved('h_move1', 1, 'moving one particle')
moved('h_move3', 3, 'moving three particles')

c = Contract(P, 'groups', 'h_move_to_com', 'move array to centre of mass', bounded={'n': [1, 2, 3]})
n = c.int('n', 1)
mass = c.arr('mass', n, gen=pos_gen)
var = c.arr('var', n * 3)
M = Sum(0, n, lambda i: mass[i])
c.requires(gt(M, 0))
k = c.skolem('k', 0, n)
c.ensures_vec('v_k - com', var.vnew(k), var.v(k) - VSum(0, n, lambda i: var.v(i) * mass[i]) / M)

c = Contract(P, 'groups', 'h_two_clusters', 'two-cluster quantities', bounded={'n': [1, 2], 'm': [1, 2]})
n = c.int('n', 1)
a = Recs(c, 'ptc', n)
m = c.int('m', 1)
b = Recs(c, 'ptd', m)
R1 = c.real('R1', gen=pos_gen)
R2 = c.real('R2', gen=pos_gen)
o = c.arr('out', 9)
Ma, Mb = a.M(), b.M()
c.requires(gt(Ma, 0), gt(Mb, 0), gt(R1, 0), gt(R2, 0))
d = a.P() / Ma - b.P() / Mb
dv = a.Q() / Ma - b.Q() / Mb
r = d.norm()
u = Ma + Mb
c.ensures('reduced mass', eq(o.new(0), Ma * Mb / (Ma + Mb)))
c.ensures('tidal energy', eq(o.new(1), -(Ma * Mb) * (R1 + R2) / d.norm2()))
c.ensures('tidal factor of first', eq(o.new(2), Mb / Ma * (R1 / r) ** 3))
c.ensures('tidal factor of second', eq(o.new(3), Ma / Mb * (R2 / r) ** 3))
c.ensures('vis-viva a', eq(o.new(4), -u / (dv.norm2() - 2 * u / r)))
c.ensures('semi-major axis', eq(o.new(6), -u / (dv.norm2() - 2 * u / r)))
ev = (d * (dv.norm2() - u / r) - dv * d.dot(dv)) / u
c.ensures('eccentricity', eq(o.new(7), ev.norm()))
c.ensures('eccentricity (a,e)', eq(o.new(5), ev.norm()))

c = Contract(P, 'groups', 'h_size', 'cluster size', bounded={'n': [0, 1, 2, 3]})
n = c.int('n')
r = Recs(c, 'ptc', n)
i = c.skolem('i', 0, n)
j = c.skolem('j', 0, n)
c.ensures('no pair is farther apart', le((r.pos(i) - r.pos(j)).norm(), c.result()), guard=lt(i, j))

c = Contract(P, 'groups', 'h_two_auto', 'two clusters with their own sizes')
n = c.int('n')
a = Recs(c, 'ptc', n)
m = c.int('m')
b = Recs(c, 'ptd', m)
f = c.real('f', gen=pos_gen)
o = c.arr('out', 8)
c.requires(gt(a.M(), 0), gt(b.M(), 0), gt(f, 0))
c.ensures('tidal factor of first uses the sizes of the two clusters', eq(o.new(0), o.new(2)))
c.ensures('tidal factor of second uses the sizes of the two clusters', eq(o.new(1), o.new(3)))
c.ensures('tidal energy uses the sizes of the two clusters', eq(o.new(4), o.new(5)))
c.ensures('tidal radius uses the size of the disrupted cluster', eq(o.new(6), o.new(7)))

c = Contract(P, 'groups', 'h_two_single', 'two single particles')
a, b, o = c.arr('a', 8), c.arr('b', 8), c.arr('out', 3)
c.requires(gt(a[6], 0), gt(b[6], 0))
d = V(*[a[k] - b[k] for k in range(3)])
r = d.norm()
c.requires(gt(r, 0))
c.ensures('tidal factor of first', eq(o.new(0), b[6] / a[6] * (a[7] / r) ** 3))
c.ensures('tidal factor of second', eq(o.new(1), a[6] / b[6] * (b[7] / r) ** 3))
c.ensures('tidal energy', eq(o.new(2), -(a[6] * b[6]) * (a[7] + b[7]) / d.norm2()))
