from .common import *
P = 'P03'
ns = {'n': [0, 1, 2, 3, 4]}


def soa(c, n, what='pvm'):
    r = {}
    if 'p' in what:
        r['p'] = c.arr('pos', n * 3)
    if 'v' in what:
        r['v'] = c.arr('vel', n * 3)
    if 'm' in what:
        r['m'] = c.arr('mass', n, gen=pos_gen)
    return r


def KE(n, vel, mass):
    return Sum(0, n, lambda i: mass[i] * vel.v(i).norm2()) * Fraction(1, 2)


def PE(n, pos, mass):
    return -Sum(0, n, lambda i: Sum(i + 1, n, lambda j: mass[i] * mass[j] / (pos.v(i) - pos.v(j)).norm()))


c = Contract(P, 'groups', 'h_ke', 'kinetic energy', bounded=ns)
n = c.int('n')
s = soa(c, n, 'vm')
c.ensures('T = 1/2 sum m v^2', eq(c.result(), KE(n, s['v'], s['m'])))

c = Contract(P, 'groups', 'h_pe', 'potential energy', bounded=ns)
n = c.int('n')
s = soa(c, n, 'pm')
c.ensures('U = -sum_{i<j} G m_i m_j / r_ij', eq(c.result(), PE(n, s['p'], s['m'])))

c = Contract(P, 'groups', 'h_pe_chain', 'potential energy chain', bounded={'n': [2, 3, 4, 5]})
n = c.int('n', 2)
pos = c.arr('pos', n * 3)
mass = c.arr('mass', n, gen=pos_gen)
c.defvec('chpos', n, lambda i: pos.v(iread('idx', i + 1)) - pos.v(iread('idx', i)))
idx = c.iarr('idx', n, perm=True)
c.ensures('U over the chain ordering', eq(c.result(), -Sum(0, n, lambda i: Sum(i + 1, n, lambda j: mass[idx[i]] * mass[idx[j]] /
                                                                             (pos.v(idx[i]) - pos.v(idx[j])).norm()))))

c = Contract(P, 'groups', 'h_etot', 'total energy', bounded=ns)
n = c.int('n')
s = soa(c, n)
c.ensures('E = T + U', eq(c.result(), KE(n, s['v'], s['m']) + PE(n, s['p'], s['m'])))

c = Contract(P, 'groups', 'h_eerr', 'relative energy error', bounded=ns)
n = c.int('n')
s = soa(c, n)
e0 = c.real('e0')
c.requires(ne(e0, 0))
c.ensures('|(E-E0)/E0|', eq(c.result(), fabs((KE(n, s['v'], s['m']) + PE(n, s['p'], s['m']) - e0) / e0)))

c = Contract(P, 'groups', 'h_angmom', 'angular momentum', bounded=ns)
n = c.int('n')
s = soa(c, n)
o = c.arr('out', 3)
c.ensures_vec('L = sum m r x v', out_vec(o, 0), VSum(0, n, lambda i: s['p'].v(i).cross(s['v'].v(i)) * s['m'][i]))

c = Contract(P, 'groups', 'h_angmom_idx', 'angular momentum of a subset', bounded={'n': [3], 'k': [0, 1, 2, 3]})
n = c.int('n')
s = soa(c, n)
k = c.int('k')
c.requires(gt(n, 0))
id_ = c.iarr('id', k, rng=n)
o = c.arr('out', 3)
c.ensures_vec('L = sum over the subset', out_vec(o, 0), VSum(0, k, lambda i: s['p'].v(id_[i]).cross(s['v'].v(id_[i])) * s['m'][id_[i]]))

c = Contract(P, 'groups', 'h_angmom_iso', 'angular momentum of a subset about its centre of mass', bounded={'n': [3], 'k': [1, 2, 3]})
n = c.int('n')
s = soa(c, n)
k = c.int('k')
c.requires(gt(n, 0), gt(k, 0))
id_ = c.iarr('id', k, rng=n)
o = c.arr('out', 3)
M = Sum(0, k, lambda i: s['m'][id_[i]])
c.requires(gt(M, 0))
cp = VSum(0, k, lambda i: s['p'].v(id_[i]) * s['m'][id_[i]]) / M
cv = VSum(0, k, lambda i: s['v'].v(id_[i]) * s['m'][id_[i]]) / M
c.ensures_vec('L about COM', out_vec(o, 0), VSum(0, k, lambda i: (s['p'].v(id_[i]) - cp).cross(s['v'].v(id_[i]) - cv) * s['m'][id_[i]]))

c = Contract(P, 'groups', 'h_energy_c', 'energies of a particle group', bounded={'n': [1, 2, 3]})
n = c.int('n', 1)
r = Recs(c, 'ptc', n)
o = c.arr('out', 5)
c.requires(gt(r.M(), 0))
c.ensures('E_k', eq(o.new(0), r.ke()))
c.ensures('E_p', eq(o.new(1), r.pe()))
c.ensures('E_tot', eq(o.new(2), r.ke() + r.pe()))
kc = r.Q().norm2() / r.M() * Fraction(1, 2)
c.ensures('E_k of the centre of mass', eq(o.new(3), kc))
c.ensures('E_inner', eq(o.new(4), r.ke() + r.pe() - kc))

c = Contract(P, 'groups', 'h_energy_3', 'energies of three particles')
r = Recs(c, 'ptc', I(3))
o = c.arr('out', 5)
c.requires(gt(expand(r.M()), 0))
for k, (l, v) in enumerate([('E_k', r.ke()), ('E_p', r.pe()), ('E_tot', r.ke() + r.pe()), ('E_k of the centre of mass', r.Q().norm2() / r.M() * Fraction(1, 2)),
                            ('E_inner', r.ke() + r.pe() - r.Q().norm2() / r.M() * Fraction(1, 2))]):
    c.ensures(l, expand(eq(o.new(k), v)))
