from .common import *
P = 'P02'
CC = 299792.458 * (1 / 149597870.7) / (2 * 3.14159265358979323846 / 365.25636042 / 24 / 60 / 60)
F = Fraction


def consts(c):
    return (c.const('invC2', CC ** -2), c.const('invC4', CC ** -4), c.const('invC5', CC ** -5))


def pn1(K, d, v1, v2, m1, m2):
    """acceleration of body 1; d = x1 - x2 (Blanchet 2014, eq. 203)"""
    r = d.norm()
    n = d / r
    A = -v1.norm2() - v2.norm2() * 2 + v1.dot(v2) * 4 + n.dot(v2) ** 2 * F(3, 2) + m1 / r * 5 + m2 / r * 4
    B = n.dot(v1) * 4 - n.dot(v2) * 3
    return (n * A + (v1 - v2) * B) * (K[0] * m2 / (r * r))


def pn2(K, d, v1, v2, m1, m2):
    r = d.norm()
    n = d / r
    s1, s2, v12 = v1.norm2(), v2.norm2(), v1.dot(v2)
    n1, n2 = n.dot(v1), n.dot(v2)
    g1, g2 = m1 / r, m2 / r
    A = (g1 * g1 * F(-57, 4) - g1 * g2 * F(69, 2) - g2 * g2 * 9
         + (n2 ** 4 * F(-15, 8) + n2 ** 2 * s1 * F(3, 2) - n2 ** 2 * v12 * 6 - v12 ** 2 * 2 + n2 ** 2 * s2 * F(9, 2) + v12 * s2 * 4 - s2 ** 2 * 2)
         + g1 * (n1 ** 2 * F(39, 2) - n1 * n2 * 39 + n2 ** 2 * F(17, 2) - s1 * F(15, 4) - v12 * F(5, 2) + s2 * F(5, 4))
         + g2 * (n1 ** 2 * 2 - n1 * n2 * 4 - n2 ** 2 * 6 - v12 * 8 + s2 * 4))
    B = (g2 * (n1 * -2 - n2 * 2) + g1 * (n1 * F(-63, 4) + n2 * F(55, 4))
         + (n1 * n2 ** 2 * -6 + n2 ** 3 * F(9, 2) + n2 * s1 - n1 * v12 * 4 + n2 * v12 * 4 + n1 * s2 * 4 - n2 * s2 * 5))
    return (n * A + (v1 - v2) * B) * (K[1] * m2 / (r * r))


def pn25(K, d, v1, v2, m1, m2):
    r = d.norm()
    n = d / r
    v = v1 - v2
    nv = n.dot(v)
    s = v.norm2()
    g1, g2 = m1 / r, m2 / r
    A = nv * (g2 * F(208, 15) - g1 * F(24, 5) + s * F(12, 5))
    B = g1 * F(8, 5) - g2 * F(32, 5) - s * F(4, 5)
    return (n * A + v * B) * (K[2] * m1 * m2 / (r * r * r))


def cart(f, law, title):
    c = Contract(P, 'pn', 'h_' + f, title + ' cartesian', bounded={'n': [1, 2, 3, 4]})
    K = consts(c)
    n = c.int('n', 0)
    pos, vel = c.arr('pos', n * 3), c.arr('vel', n * 3)
    mass = c.arr('mass', n, gen=pos_gen)
    acc = c.arr('acc', n * 3, gen=lambda rng: 0.0)
    k = c.skolem('k', 0, n)
    s = VSum(0, n, lambda j: V(*[If(eq(j, k), 0, x) for x in law(K, pos.v(k) - pos.v(j), vel.v(k), vel.v(j), mass[k], mass[j])]))
    c.ensures_vec('a_k = a0_k + sum over the other bodies of the ' + title + ' law', acc.vnew(k), acc.v(k) + s)


def chain(f, law, title, comps=(0, 1, 2)):
    c = Contract(P, 'pn', 'h_%s_chain' % f, title + ' chain' + (' ' + 'xyz'[comps[0]] if len(comps) == 1 else ''), bounded={'n': [2, 3, 4]}, budget=400)
    K = consts(c)
    n = c.int('n', 2)
    pos, vel = c.arr('pos', n * 3), c.arr('vel', n * 3)
    mass = c.arr('mass', n, gen=pos_gen)
    c.defvec('chpos', n, lambda i: pos.v(iread('idx', i + 1)) - pos.v(iread('idx', i)))
    c.defvec('chvel', n, lambda i: vel.v(iread('idx', i + 1)) - vel.v(iread('idx', i)))
    idx = c.iarr('idx', n, perm=True)
    acc = c.arr('acc', n * 3, gen=lambda rng: 0.0)
    k = c.skolem('k', 0, n)
    ik = idx[k]
    s = VSum(0, n, lambda j: V(*[If(eq(j, k), 0, x) for x in law(K, pos.v(ik) - pos.v(idx[j]), vel.v(ik), vel.v(idx[j]), mass[ik], mass[idx[j]])]))
    for q in comps:
        c.ensures('a_idx[k] = a0 + sum over the other chain members.' + 'xyz'[q], eq(acc.vnew(ik)[q], (acc.v(ik) + s)[q]))


for f, law, t in (('pn1', pn1, '1PN'), ('pn2', pn2, '2PN'), ('pn25', pn25, '2.5PN')):
    cart(f, law, t)
    if f == 'pn2':
        for q in range(3):
            chain(f, law, t, (q,))
    else:
        chain(f, law, t)


# ------------------------------------------------------------------ tides
def tide(d, dv, m1, m2, R1, R2, k1, k2, t1, t2):
    """acceleration of body 1; d = x2 - x1"""
    r2 = d.norm2()
    r = sqrt(r2)
    x = d.dot(dv) / r2

    def part(k, R, t, m):
        return If(eq(k, 0), 0, k * R ** 5 * m * m * 3 * (t * x * 3 + 1))
    return d * ((part(k1, R1, t1, m2) + part(k2, R2, t2, m1)) / (m1 * (r2 ** 4)))


def zero_some(rng):
    return rng.choice([0.0, rng.uniform(0.1, 1)])


def tidal(chain):
    c = Contract(P, 'drag', 'h_tidal_chain' if chain else 'h_tidal', 'equilibrium tide ' + ('chain' if chain else 'cartesian'),
                 bounded={'n': [2, 3, 4] if chain else [1, 2, 3]})
    n = c.int('n', 2 if chain else 0)
    pos, vel = c.arr('pos', n * 3), c.arr('vel', n * 3)
    mass, rad = c.arr('mass', n, gen=pos_gen), c.arr('rad', n, gen=pos_gen)
    kk, tau = c.arr('k', n, gen=zero_some), c.arr('tau', n)
    k = c.skolem('k', 0, n)
    if chain:
        c.defvec('chpos', n, lambda i: pos.v(iread('idx', i + 1)) - pos.v(iread('idx', i)))
        c.defvec('chvel', n, lambda i: vel.v(iread('idx', i + 1)) - vel.v(iread('idx', i)))
        idx = c.iarr('idx', n, perm=True)
    acc = c.arr('acc', n * 3, gen=lambda rng: 0.0)
    at = (lambda i: idx[i]) if chain else (lambda i: i)
    ik = at(k)
    s = VSum(0, n, lambda j: V(*[If(eq(j, k), 0, x) for x in tide(
        pos.v(at(j)) - pos.v(ik), vel.v(at(j)) - vel.v(ik), mass[ik], mass[at(j)], rad[ik], rad[at(j)], kk[ik], kk[at(j)], tau[ik], tau[at(j)])]))
    c.ensures_vec('a_k = a0_k + sum over the other bodies of the tidal law', acc.vnew(ik), acc.v(ik) + s)


tidal(False)
tidal(True)

# ------------------------------------------------------------------ static gas drag
c = Contract(P, 'drag', 'h_gasdrag', 'static gas drag', bounded={'n': [0, 1, 2]})
n = c.int('n')
pos, vel = c.arr('pos', n * 3), c.arr('vel', n * 3)
mass = c.arr('mass', n, gen=pos_gen)
cc, cs = c.arr('c', n), c.arr('cs', n, gen=pos_gen)
acc = c.arr('acc', n * 3)
k = c.skolem('k', 0, n)
sp = c.const('sqrt_pi_2', (3.14159265358979323846 / 2) ** 0.5)
u = vel.v(k).norm()
coef = If(lt(u, cs[k]), cc[k] * mass[k], sp * 3 * cc[k] * cs[k] ** 3 * mass[k] / u ** 3)
c.ensures_vec('a_k = a0_k - f v_k', acc.vnew(k), acc.v(k) - vel.v(k) * coef)

# ------------------------------------------------------------------ composition of forces
def comp(f, parts, title):
    c = Contract(P, 'pn', 'h_' + f, title, bounded={'n': [0, 1, 2]})
    n = c.int('n')
    pos, vel = c.arr('pos', n * 3), c.arr('vel', n * 3)
    mass = c.arr('mass', n)
    a = [c.arr('a%d' % i, n * 3) for i in range(5)]
    k = c.skolem('k', 0, n)
    p, v = pos.v(k), vel.v(k)

    def g(K):
        return V(uf(K, mass[k], p[0], v[0], v[1]), uf(K + 1, mass[k], p[1], v[1], v[2]), uf(K + 2, mass[k], p[2], v[2], v[0]))

    def tot(ps):
        s = V(0, 0, 0)
        for K, _ in ps:
            s = s + g(K)
        return s
    ext = parts[1:]
    dep = [x for x in ext if x[1]]
    ind = [x for x in ext if not x[1]]
    c.ensures_vec('total acceleration is the sum of all forces', a[0].vnew(k), tot(parts))
    c.ensures_vec('external acceleration', a[1].vnew(k), tot(ext) if ext else a[1].v(k))
    c.ensures_vec('velocity-dependent part', a[2].vnew(k), tot(dep) if dep else a[2].v(k))
    c.ensures_vec('velocity-independent part', a[3].vnew(k), tot(ind) if ind else a[3].v(k))
    c.ensures_vec('internal part', a[4].vnew(k), tot(parts[:1]))


N0, I1, I2, D1, D2 = (10, 0), (20, 0), (30, 0), (40, 1), (50, 1)
comp('comp_n', [N0], 'force composition: internal only')
comp('comp_ni', [N0, I1], 'force composition: velocity-independent')
comp('comp_nd', [N0, D1], 'force composition: velocity-dependent')
comp('comp_nidid', [N0, I1, D1, I2, D2], 'force composition: mixed')
comp('comp_ndi', [N0, D1, I1], 'force composition: both')
