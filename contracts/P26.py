from .common import *
import math
P = 'P26'
PI = R(Fraction(math.pi))
pg = pos_gen
third = lambda x: fn('cbrt', x)


def C(fname, title, **kw):
    kw.setdefault('opts', {'canon': 'trig'})
    return Contract(P, 'scatter', fname, title, **kw)


c = C('h_scalars', 'critical velocity, largest impact parameter and hard radius')
m1, m2 = c.real('m1', gen=pg), c.real('m2', gen=pg)
E1, E2 = c.real('E1', gen=lambda r: -pg(r)), c.real('E2', gen=lambda r: -pg(r))
v, rp, me, sg = [c.real(q, gen=pg) for q in ('v', 'rp', 'me', 'sg')]
for x in (m1, m2, v, rp, me, sg):
    c.requires(lt(0, x))
c.requires(lt(E1 + E2, 0))
o = c.arr('o', 3)
c.ensures('critical velocity: the kinetic energy of the relative motion cancels the inner energies',
          eq(m1 * m2 / (m1 + m2) * o.new(0) * o.new(0) / 2 + E1 + E2, 0))
c.ensures('critical velocity is not negative', le(0, o.new(0)))
c.ensures('the orbit with the largest impact parameter has the given pericentre: energy and angular momentum at distance rp',
          eq(v * v / 2, (o.new(1) * v / rp) ** 2 / 2 - (m1 + m2) / rp))
c.ensures('largest impact parameter is not negative', le(0, o.new(1)))
c.ensures('hard radius: binding energy of the pair equals the kinetic energy of the environment', eq(o.new(2) * me * sg * sg, m1 * m2))

c = C('h_bmax6', 'tidal radius and impact parameter of two bodies')
m1, m2, R1_, R2_, v, f = [c.real(q, gen=pg) for q in ('m1', 'm2', 'R1', 'R2', 'v', 'f')]
for x in (m1, m2, R1_, R2_, v, f):
    c.requires(lt(0, x))
o = c.arr('o', 6)
c.ensures('impact parameter of the tidal radius', eq(o.new(0), o.new(1)))
c.ensures('one of the bodies has the requested tidal factor at the tidal radius', bor(eq(o.new(2), f), eq(o.new(3), f)))
c.ensures('the tidal factor of the second body at its tidal radius is the requested one', eq(o.new(5), f))

for k, nm in ((0, 'in'), (1, 'out')):
    c = C('h_hyper', 'hyperbolic orbit from scattering parameters (%sgoing)' % nm, aborts='any')
    m1, m2, v, b = [c.real(q, gen=pg) for q in ('m1', 'm2', 'v', 'b')]
    i, Om, om = [c.real(q) for q in ('i', 'Om', 'om')]
    r = c.real('r', gen=lambda rng: 20 * pg(rng))
    ou = c.int('ou')
    c.requires(eq(ou, I(k)))
    for x in (m1, m2, v, b, r):
        c.requires(lt(0, x))
    o = c.arr('o', 10)
    n = o.new
    u = m1 + m2
    c.ensures('masses', band(eq(n(0), m1), eq(n(1), m2)))
    c.ensures('orientation', band(eq(n(4), i), eq(n(5), Om), eq(n(6), om)))
    c.ensures('hyperbolic', eq(n(8), 2))
    c.ensures('stored impact parameter', eq(n(9), b))
    c.ensures('energy: velocity v at infinity', eq(u * (n(3) * n(3) - 1) / (2 * n(2)), v * v / 2))
    c.ensures('angular momentum: impact parameter b', eq(u * n(2), b * b * v * v))
    c.ensures('the starting phase is at distance r', eq(r * (1 + n(3) * cos(n(7))), n(2)))
    c.ensures('the eccentricity exceeds one', lt(1, n(3)))
    c.ensures('side of the pericentre', le(n(7), 0) if k == 0 else le(0, n(7)))

for k, nm in ((0, 'in'), (1, 'out')):
    c = C('h_hyper_state', 'state of a hyperbolic orbit from scattering parameters (%sgoing)' % nm, aborts='any')
    m1, m2, v, b = [c.real(q, gen=pg) for q in ('m1', 'm2', 'v', 'b')]
    i, Om, om = [c.real(q) for q in ('i', 'Om', 'om')]
    r = c.real('r', gen=lambda rng: 20 * pg(rng))
    ou = c.int('ou')
    c.requires(eq(ou, I(k)))
    for x in (m1, m2, v, b, r):
        c.requires(lt(0, x))
    o = c.arr('o', 4)
    n = o.new
    u = m1 + m2
    c.ensures('distance', eq(n(0), r * r))
    c.ensures('energy', eq(n(1) / 2 - u / r, v * v / 2))
    c.ensures('angular momentum', eq(n(3), b * b * v * v))
    c.ensures('direction', le(n(2), 0) if k == 0 else le(0, n(2)))

c = C('h_ellip', 'elliptic orbit from its elements', aborts='any')
m1, m2, a, e = [c.real(q, gen=g) for q, g in (('m1', pg), ('m2', pg), ('a', pg), ('e', lambda r: r.uniform(0, .95)))]
i, Om, om, nu = [c.real(q) for q in ('i', 'Om', 'om', 'nu')]
c.requires(lt(0, a))
c.requires(band(le(R(0), e), lt(e, 1)))
o = c.arr('o', 10)
n = o.new
for j, x in enumerate((m1, m2, a * (1 - e * e), e, i, Om, om, nu)):
    c.ensures(['m1', 'm2', 'semi-latus rectum', 'eccentricity', 'inclination', 'node', 'argument of pericentre', 'true anomaly'][j], eq(n(j), x))
c.ensures('elliptic', eq(n(8), 0))
c.ensures('semi-major axis', eq(n(9), a))

c = C('h_incident', 'random incident orbit', aborts='any')
m1, m2, v, bm = [c.real(q, gen=pg) for q in ('m1', 'm2', 'v', 'bm')]
r = c.real('r', gen=lambda rng: 20 * pg(rng))
U = lambda r: r.uniform(0.01, 1)
u1, u2 = c.real('u1', gen=U), c.real('u2', gen=U)
for x in (m1, m2, v, bm, r, u1):
    c.requires(lt(0, x))
o = c.arr('o', 10)
n = o.new
u = m1 + m2
b2 = u1 * bm * bm
c.ensures('masses', band(eq(n(0), m1), eq(n(1), m2)))
c.ensures('impact parameter uniform in the area of the circle of radius b_max', eq(n(9) * n(9), b2))
c.ensures('impact parameter is not negative', le(0, n(9)))
c.ensures('inclination uniform in the full circle', eq(n(4), u2 * 2 * PI))
c.ensures('node and argument of pericentre', band(eq(n(5), 0), eq(n(6), 0)))
c.ensures('energy: velocity v at infinity', eq(u * (n(3) * n(3) - 1) / (2 * n(2)), v * v / 2))
c.ensures('angular momentum: the drawn impact parameter', eq(u * n(2), b2 * v * v))
c.ensures('the starting phase is at distance r', eq(r * (1 + n(3) * cos(n(7))), n(2)))
c.ensures('incoming side of the pericentre', le(n(7), 0))


def clusters(c):
    n = c.int('n')
    a = c.arr('ptc', 7 * n)
    m = c.int('m')
    b = c.arr('ptd', 7 * m)
    return n, m


c = C('h_incident2', 'random incident orbit of two clusters', aborts='any', opts={'alpha': True})
clusters(c)
for q in ('v', 'f'):
    c.real(q, gen=pg)
for q in ('u1', 'u2'):
    c.real(q, gen=U)
o = c.arr('o', 20)
for j, q in enumerate('m1 m2 p e i Omega omega nu type b'.split()):
    c.ensures('same orbit as from the totals of the clusters: ' + q, eq(o.new(j), o.new(j + 10)))

c = C('h_clusters', 'critical velocity and impact parameter of two clusters', aborts='any', opts={'alpha': True})
clusters(c)
for q in ('v', 'f'):
    c.real(q, gen=pg)
o = c.arr('o', 4)
c.ensures('critical velocity from the totals of the clusters', eq(o.new(0), o.new(1)))
c.ensures('impact parameter from the totals of the clusters', eq(o.new(2), o.new(3)))
