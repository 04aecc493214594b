from .common import *
import math
P = 'P17'
PI = R(Fraction(math.pi))
ang = lambda rng: rng.uniform(-3, 3)


def C(fname, title, defs=(), **kw):
    return Contract(P, 'orbits', fname, title, defs=defs, **kw)


def rotate(v, phi, theta, psi):
    s, c = sin, cos
    return V(v[0] * (c(phi) * c(psi) - s(phi) * c(theta) * s(psi)) - v[1] * (c(phi) * s(psi) + s(phi) * c(theta) * c(psi)) + v[2] * (s(phi) * s(theta)),
             v[0] * (s(phi) * c(psi) + c(phi) * c(theta) * s(psi)) - v[1] * (s(phi) * s(psi) - c(phi) * c(theta) * c(psi)) - v[2] * (c(phi) * s(theta)),
             v[0] * (s(theta) * s(psi)) + v[1] * (s(theta) * c(psi)) + v[2] * c(theta))


def classify(e):
    return If(band(le(R(0), e), lt(e, 1)), R(0), If(lt(1, e), R(2), If(eq(e, 1), R(1), R(3))))


def sgn(x):
    return If(lt(0, x), R(1), R(-1))


def clamp(x):
    return If(lt(x, -1), R(-1), If(lt(1, x), R(1), x))


# rotation
c = C('h_rotate', 'Euler rotation')
v = c.arr('v', 3)
phi, theta, psi = c.real('phi', gen=ang), c.real('theta', gen=ang), c.real('psi', gen=ang)
x, y = v.v(0), v.vnew(0)
c.ensures_vec('z-x-z rotation', y, rotate(x, phi, theta, psi))
c.ensures('length preserved', eq(y.norm2(), x.norm2()))

# elements -> state
for defs in ((), ('VX_TUPLE',)):
    c = C('h_to_coord', 'elements to state' + (' (returned)' if defs else ' (assigned)'), defs)
    o = c.arr('o', 8, gen=lambda rng: rng.uniform(0.1, 0.9))
    pos, vel = c.arr('pos', 3), c.arr('vel', 3)
    c.requires(lt(0, o[0] + o[1]))
    c.requires(lt(0, o[2]))
    p, e, i, Om, om, nu = (o[k] for k in range(2, 8))
    c.requires(lt(0, 1 + e * cos(nu)))
    u = o[0] + o[1]
    r = p / (1 + e * cos(nu))
    w = sqrt(u / p)
    x, y = pos.vnew(0), vel.vnew(0)
    c.ensures_vec('position: perifocal vector seen from the second body, rotated by the orbit angles', x, rotate(V(r * cos(nu), r * sin(nu), R(0)), Om, i, om + PI))
    c.ensures_vec('velocity', y, rotate(V(-(w * sin(nu)), w * (e + cos(nu)), R(0)), Om, i, om + PI))
    c.ensures('distance', eq(x.norm2(), r * r))
    c.ensures('energy', eq(y.norm2(), u * (2 / r - (1 - e * e) / p)))
    L = x.cross(y)
    l = sqrt(u * p)
    c.ensures('angular momentum', eq(L.norm2(), u * p))
    c.ensures('inclination', eq(L[2], r * w * cos(i) * (1 + e * cos(nu))))
    c.ensures('node.x', eq(L[0], r * w * (1 + e * cos(nu)) * sin(i) * sin(Om)))
    c.ensures('node.y', eq(L[1], -(r * w * (1 + e * cos(nu)) * sin(i) * cos(Om))))

# state -> elements
for defs in ((), ('VX_TUPLE',)):
    c = C('h_to_orbit', 'state to elements' + (' (returned)' if defs else ' (assigned)'), defs, opts={'canon': True})
    m1, m2 = c.real('m1', gen=pos_gen), c.real('m2', gen=pos_gen)
    dr, dv, o = c.arr('dr', 3), c.arr('dv', 3), c.arr('o', 9)
    r, v = dr.v(0), dv.v(0)
    u = m1 + m2
    c.requires(lt(0, u))
    c.requires(lt(0, r.norm2()))
    L = r.cross(v)
    N = V(-L[1], L[0], R(0))
    c.requires(lt(0, L.norm2()))
    l, n, rr = L.norm(), N.norm(), r.norm()
    E = (r * (v.norm2() - u / rr) - v * r.dot(v)) / u
    e = E.norm()
    c.ensures('masses', band(eq(o.new(0), m1), eq(o.new(1), m2)))
    c.ensures('eccentricity vector length', eq(o.new(3), e))
    c.ensures('orbit type by eccentricity', eq(o.new(8), classify(e)))
    c.examples = [{'m1': 1.0, 'm2': 1.0, 'dr': [1.0, 0.0, 0.0], 'dv': [0.0, 2.0, 0.0], 'o': [0.0] * 9}]
    c.defined('semi-latus rectum of a parabola is a number', o.new(2), guard=eq(e, 1))
    par = eq(rr * v.norm2(), 2 * u)
    c.ensures('semi-latus rectum from the angular momentum (bound or unbound)', eq(o.new(2), (1 - e * e) / (2 / rr - v.norm2() / u)), guard=band(bnot(par), bnot(eq(e, 1))))
    c.ensures('semi-latus rectum from the angular momentum (parabola)', eq(o.new(2), L.norm2() / u), guard=eq(e, 1))
    c.ensures('inclination', eq(o.new(4), fn('acos', L[2] / l)))
    ac = lambda t: fn('acos', clamp(t))
    circ, flat = eq(e, 0), eq(n, 0)
    peri = L.cross(N)
    c.ensures('node', eq(o.new(5), sgn(N[1]) * ac(N[0] / n)), guard=bnot(flat))
    c.ensures('argument of periapsis', eq(o.new(6), If(circ, R(0), sgn(E[2]) * ac((E / e).dot(N / n)))), guard=bnot(flat))
    c.ensures('true anomaly', eq(o.new(7), sgn(r.dot(v)) * ac((E / e).dot(r / rr))), guard=bnot(circ))
    c.ensures('argument of latitude of a circular orbit', eq(o.new(7), -(sgn(N.dot(r)) * ac((peri / peri.norm()).dot(r / rr)))), guard=band(circ, bnot(flat)))
    c.ensures('longitude of a circular orbit in the plane', eq(o.new(7), sgn(r[1]) * fn('acos', r[0] / rr)), guard=band(circ, flat))
    c.ensures('longitude of periapsis in the plane', eq(o.new(6), If(circ, R(0), -(sgn(E[1]) * ac(-(E[0] / e))))), guard=flat)
    # (the node of a planar orbit is undefined: no obligation)

# energy and eccentricity of a state
c = C('h_elements', 'semi-major axis, eccentricity vector and angular momentum')
m1, m2 = c.real('m1', gen=pos_gen), c.real('m2', gen=pos_gen)
dr, dv, o = c.arr('dr', 3), c.arr('dv', 3), c.arr('out', 21)
r, v = dr.v(0), dv.v(0)
u = m1 + m2
c.requires(lt(0, u))
c.requires(lt(0, r.norm2()))
rr = r.norm()
a = R(1) / (2 / rr - v.norm2() / u)
c.requires(bnot(eq(rr * v.norm2(), 2 * u)))
E = (r * (v.norm2() - u / rr) - v * r.dot(v)) / u
for k in (0, 8, 10, 14):
    c.ensures('vis-viva semi-major axis [%d]' % k, eq(o.new(k), a))
for k in (1, 9):
    c.ensures('eccentricity [%d]' % k, eq(o.new(k), E.norm()))
for k in (2, 11, 15):
    c.ensures_vec('eccentricity vector [%d]' % k, V(o.new(k), o.new(k + 1), o.new(k + 2)), E)
L = r.cross(v) * (m1 * m2 / u)
for k in (5, 18):
    c.ensures_vec('angular momentum [%d]' % k, V(o.new(k), o.new(k + 1), o.new(k + 2)), L)
c.ensures('eccentricity follows from energy and angular momentum', eq(E.norm2(), 1 + (v.norm2() - 2 * u / rr) * r.cross(v).norm2() / (u * u)))

# elements -> state -> elements
c = C('h_round', 'elements of the generated state', opts={'canon': True})
o = c.arr('o', 8, gen=lambda rng: rng.uniform(0.1, 0.9))
out = c.arr('out', 8)
c.requires(lt(0, o[0] + o[1]))
c.requires(lt(0, o[2]))
c.requires(le(0, o[3]))
c.requires(bnot(eq(o[3], 1)))
p, e, i, Om, om, nu = (o[k] for k in range(2, 8))
c.requires(lt(0, 1 + e * cos(nu)))
u = o[0] + o[1]
c.ensures('semi-major axis', eq(out.new(0) * (1 - e * e), p))
c.ensures('eccentricity', eq(out.new(1), e))
l = sqrt(u / p) * p * (o[0] * o[1] / u)
c.ensures_vec('angular momentum', V(out.new(2), out.new(3), out.new(4)), V(sin(i) * sin(Om), -(sin(i) * cos(Om)), cos(i)) * l)
c.ensures_vec('eccentricity vector', V(out.new(5), out.new(6), out.new(7)), rotate(V(e, R(0), R(0)), Om, i, om + PI))

# small definitions
c = C('h_classify', 'orbit type')
e = c.real('e')
c.ensures('by eccentricity', eq(c.result(), classify(e)))
c = C('h_slr', 'semi-latus rectum')
a, e = c.real('a'), c.real('e')
c.ensures('a (1 - e^2)', eq(c.result(), a * (1 - e * e)))

c = C('h_kepler', 'orbit from elements', aborts='any')
x, o = c.arr('in', 8, gen=pos_gen), c.arr('o', 9)
for k in range(8):
    c.ensures('element %d stored' % k, eq(o.new(k), x[k]))
c.ensures('type', eq(o.new(8), classify(x[3])))

c = C('h_elliptic', 'ellipse from elements', aborts='any')
x, o = c.arr('in', 8, gen=lambda rng: rng.uniform(0.1, 0.9)), c.arr('o', 10)
for k in (0, 1, 3, 4, 5, 6, 7):
    c.ensures('element %d stored' % k, eq(o.new(k), x[k]))
c.ensures('semi-latus rectum', eq(o.new(2), x[2] * (1 - x[3] * x[3])))
c.ensures('semi-major axis', eq(o.new(9), x[2]))
c.ensures('type', eq(o.new(8), 0))

c = C('h_hyperbolic', 'hyperbola from velocity at infinity and impact parameter', aborts='any')
x = c.arr('in', 8, gen=lambda rng: rng.uniform(0.5, 5))
out = c.flag('out')
o = c.arr('o', 10)
m1, m2, vi, b, i, Om, om, r = (x[k] for k in range(8))
c.requires(lt(0, m1 + m2))
c.requires(lt(0, vi))
u = m1 + m2
a = -(u / (vi * vi))
e, p = o.new(3), o.new(2)
c.ensures('masses and angles stored', band(*[eq(o.new(k), x[k]) for k in (0, 1, 4, 5, 6)]))
c.ensures('energy at infinity', eq(p * vi * vi, u * (e * e - 1)))
c.ensures('angular momentum at infinity', eq(u * p, (b * vi) * (b * vi)))
c.ensures('eccentricity', eq(e, sqrt(1 + b * b / (a * a))))
c.ensures('true anomaly at the distance', eq(o.new(7), fn('acos', (p - r) / (e * r)) * If(eq(out, 1), R(1), R(-1))))
c.ensures('hyperbola', eq(o.new(8), 2))
c.ensures('impact parameter', eq(o.new(9), b))

c = C('h_period', 'period', aborts='any')
m1, m2, a = c.real('m1', gen=pos_gen), c.real('m2', gen=pos_gen), c.real('a', gen=pos_gen)
c.ensures('third law', eq(c.result(), 2 * PI * sqrt(a * a * a / (m1 + m2))))
c = C('h_period_k', 'period of an orbit', aborts='any')
o = c.arr('o', 8, gen=lambda rng: rng.uniform(0.1, 0.9))
a = o[2] / (1 - o[3] * o[3])
c.ensures('third law', eq(c.result(), 2 * PI * sqrt(a * a * a / (o[0] + o[1]))))
