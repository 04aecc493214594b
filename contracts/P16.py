from .common import *
import math
P = 'P16'
PI = R(Fraction(math.pi))
EPS = 1e-9


def C(fname, title, defs=(), **kw):
    return Contract(P, 'orbits', fname, title, defs=defs, **kw)


def dom(c, kind, e):
    if kind == 'ellipse':
        c.requires(band(le(R(0), e), lt(e, 1)))
    elif kind == 'hyperbola':
        c.requires(lt(1, e))
    else:
        c.requires(eq(e, 1))


EG = {'ellipse': lambda rng: rng.uniform(0, 0.95), 'hyperbola': lambda rng: rng.uniform(1.05, 4), 'parabola': lambda rng: 1.0}
half = lambda x: R(Fraction(1, 2)) * x


def tv(kind, E, e):
    """true from eccentric anomaly"""
    h = half(E)
    if kind == 'ellipse':
        return 2 * fn('atan2', sqrt(1 + e) * sin(h), sqrt(1 - e) * cos(h))
    if kind == 'hyperbola':
        return 2 * fn('atan2', sqrt(e + 1) * fn('sinh', h), sqrt(e - 1) * fn('cosh', h))
    return 2 * fn('atan', E)


def ev(kind, T, e):
    h = half(T)
    if kind == 'ellipse':
        return 2 * fn('atan2', sqrt(1 - e) * sin(h), sqrt(1 + e) * cos(h))
    if kind == 'hyperbola':
        return 2 * fn('atanh', sqrt((e - 1) / (e + 1)) * fn('tan', h))
    return fn('tan', h)


def mv(kind, E, e):
    if kind == 'ellipse':
        return E - e * sin(E)
    if kind == 'hyperbola':
        return e * fn('sinh', E) - E
    return E + E * E * E / 3


for kind in ('ellipse', 'parabola', 'hyperbola'):
    inpi = lambda x: band(lt(-PI, x), lt(x, PI))
    g = lambda rng: rng.uniform(-3, 3)
    gt = (lambda rng: rng.uniform(-1.2, 1.2)) if kind == 'hyperbola' else g

    def mk_(fname, title, gen, **kw):
        c = C(fname, '%s: %s' % (kind, title), opts={'canon': 'trig'}, **kw)
        x, e = c.real('x', gen=gen), c.real('e', gen=EG[kind])
        dom(c, kind, e)
        return c, x, e
    ab = 'any' if kind == 'hyperbola' else None     # abort exactly where atanh is undefined, see below

    c, E_, e = mk_('h_E2T', 'true from eccentric anomaly', g)
    c.ensures('half-angle relation', eq(c.result(), tv(kind, E_, e)))
    c, T, e = mk_('h_T2E', 'eccentric from true anomaly', gt, aborts=ab)
    c.ensures('half-angle relation', eq(c.result(), ev(kind, T, e)))
    c, E_, e = mk_('h_E2M', 'mean from eccentric anomaly', g)
    c.ensures('Kepler equation', eq(c.result(), mv(kind, E_, e)))
    c, T, e = mk_('h_T2M', 'mean from true anomaly', gt, aborts=ab)
    c.ensures('Kepler equation', eq(c.result(), mv(kind, ev(kind, T, e), e)))
    c, E_, e = mk_('h_ETE', 'eccentric anomaly recovered from the true anomaly', g, aborts=ab)
    if kind == 'ellipse':
        c.requires(inpi(E_))
    c.ensures('inverse', eq(c.result(), E_))
    c, T, e = mk_('h_TET', 'true anomaly recovered from the eccentric anomaly', gt, aborts=ab)
    c.requires(inpi(T))
    c.requires(lt(0, cos(half(T))))
    c.ensures('inverse', eq(c.result(), T))

    # time to periapsis
    G = {'ellipse': lambda rng: rng.uniform(0.1, 0.9), 'parabola': lambda rng: 1.0, 'hyperbola': lambda rng: rng.uniform(1.1, 1.4)}[kind]
    c = C('h_peri', kind + ': time to periapsis of an orbit', opts={'canon': 'trig'}, aborts=ab)
    o = c.arr('o', 8, gen=G)
    dom(c, kind, o[3])
    c.requires(lt(0, o[0] + o[1]))
    c.requires(lt(0, o[2]))
    e, p, u = o[3], o[2], o[0] + o[1]
    M = mv(kind, ev(kind, o[7], e), e)
    a = p / (1 - e * e)
    if kind == 'ellipse':
        c.ensures('mean anomaly over mean motion', eq(c.result(), sqrt(a * a * a / u) * M))
    elif kind == 'parabola':
        c.ensures('Barker equation, positive before periapsis', eq(c.result(), -(R(Fraction(1, 2)) * sqrt(p * p * p / u) * M)))
    else:
        c.ensures('mean anomaly over mean motion, positive before periapsis', eq(c.result(), -(sqrt(-(a * a * a) / u) * M)))
    c = C('h_peri4', kind + ': time to periapsis from the mean anomaly', opts={'canon': 'trig'})
    e, u, a, M = c.real('e', gen=EG[kind]), c.real('u', gen=pos_gen), c.real('a', gen=(lambda rng: -rng.uniform(0.5, 3)) if kind == 'hyperbola' else pos_gen), c.real('M')
    dom(c, kind, e)
    c.requires(lt(0, u))
    c.requires(lt(a, 0) if kind == 'hyperbola' else lt(0, a))
    k = {'ellipse': sqrt(a * a * a / u), 'parabola': R(Fraction(1, 2)) * sqrt(a * a * a / u), 'hyperbola': sqrt(-(a * a * a) / u)}[kind]
    c.ensures('mean anomaly over mean motion', eq(c.result(), k * M))

    # mean to eccentric anomaly: bisection of Kepler's equation
    for fname, title in (('h_M2E', 'eccentric from mean anomaly'), ('h_M2T', 'true from mean anomaly')):
        M_, E_ = rvar('M'), rvar('e')
        f = lambda x, kind=kind: mv(kind, x, E_) - M_
        c = C(fname, '%s: %s' % (kind, title), opts={'inv': bracket(f)})
        M = c.real('M', gen=(lambda rng: rng.uniform(-3.1, 3.1)) if kind == 'ellipse' else (lambda rng: rng.choice([rng.uniform(-3, 3), rng.uniform(-200, 200)])))
        e = c.real('e', gen=EG[kind])
        dom(c, kind, e)
        small = Fraction(1, 2 ** 52)
        lo, hi = c.ghost('lo'), c.ghost('hi')
        if kind == 'ellipse':
            c.requires(band(le(R(Fraction(-31415926, 10 ** 7)), M), le(M, R(Fraction(31415926, 10 ** 7)))))
        r = c.result()
        zero = R(0) if fname == 'h_M2E' else tv(kind, R(0), e)
        c.ensures("zero mean anomaly", eq(c.result(), zero), guard=le(fabs(M), R(small)))
        br = band(le(lo, hi), le(f(lo) * f(hi), 0), le(hi - lo, fabs(hi) * R(small)))
        if fname == 'h_M2T':
            c.ensures("true anomaly of a root of Kepler's equation bracketed to rounding",
                      band(br, bor(*[eq(r, tv(kind, x, e)) for x in (lo, hi, (lo + hi) / 2)])), guard=lt(R(small), fabs(M)))
        else:
            c.ensures("root of Kepler's equation bracketed to rounding", band(le(lo, r), le(r, hi), br), guard=lt(R(small), fabs(M)))
            c.replay("Kepler's equation", lt(fabs(mv(kind, r, e) - M), R(Fraction(1, 10 ** 9)) * (1 + fabs(M))))
