from .common import *
P = 'P13'
S1, S2 = Fraction(13, 20), Fraction(19, 20)
ords = {'order': list(range(0, 12)) + [15, 16, 49]}


def pw(a, b):
    return fn('pow', a if isinstance(a, E) else R(a), b if isinstance(b, E) else R(b))


def hi(o, s3=Fraction(1, 50), s4=4):
    return If(eq(o, 0), s4, pw(1 / (s3 if isinstance(s3, E) else R(s3)), 1 / i2r(o)))


def lo(o, s3=Fraction(1, 50), s4=4):
    s4 = s4 if isinstance(s4, E) else R(s4)
    return If(eq(o, 0), 1 / s4, pw(s3, 1 / i2r(o)) / s4)


def expo(o):
    return If(eq(o, 0), 0, 1 / i2r(o))


def err_gen(rng):
    return rng.choice([0.0, 10 ** rng.choice([rng.uniform(-12, 6), rng.uniform(-60, 60)])])


def mk_c(f, title, **kw):
    c = Contract(P, 'step', f, title, bounded=ords, unroll=12, **kw)
    o = c.int('order', 0, 49)
    return c, o


def nxt(o, e, g=None, kp=Fraction(7, 10), ki=Fraction(2, 5), s1=S1, s2=S2):
    if g is None:
        return If(eq(e, 0), hi(o), pw((s2 if isinstance(s2, E) else R(s2)) / e, expo(o)) * s1)
    s2 = s2 if isinstance(s2, E) else R(s2)
    return If(eq(e, 0), hi(o), pw(s2 / e, expo(o) * kp) * s1 * pw(g / s2, expo(o) * ki))


for f, t in (('h_next', 'factor for one error'), ('h_next1', 'factor for a one-element history')):
    c, o = mk_c(f, t)
    e = c.real('e', gen=err_gen)
    c.requires(ge(e, 0))
    c.ensures('safety-weighted power of the error; zero error: largest growth', eq(c.result(), nxt(o, e)))
    c.ensures('finite and positive', gt(c.result(), 0))

c, o = mk_c('h_next2', 'factor for a two-element history')
e, g = c.real('e', gen=err_gen), c.real('e0', gen=pos_gen)
c.requires(ge(e, 0), gt(g, 0))
c.ensures('proportional-integral factor', eq(c.result(), nxt(o, e, g)))
c.ensures('finite and positive', gt(c.result(), 0))

for f, t in (('h_nextlim1', 'limited factor, one error'), ('h_nextlim2', 'limited factor, two errors')):
    c, o = mk_c(f, t)
    e = c.real('e', gen=err_gen)
    c.requires(ge(e, 0))
    g = None
    if f.endswith('2'):
        g = c.real('e0', gen=pos_gen)
        c.requires(gt(g, 0))
    x = nxt(o, e, g)
    c.ensures('not above the limit of the order', le(c.result(), hi(o)))
    c.ensures('not below the limit of the order', ge(c.result(), lo(o)))
    c.ensures('the unlimited factor clamped', eq(c.result(), rmin(rmax(lo(o), x), hi(o))))

c, o = mk_c('h_limiter', 'limiter')
x, out = c.real('x', gen=pos_gen), c.arr('out', 6)
c.ensures('clamped to the limits of the order', eq(out.new(0), rmin(rmax(lo(o), x), hi(o))))
c.ensures('lower limit', eq(out.new(1), lo(o)))
c.ensures('upper limit', eq(out.new(2), hi(o)))
c.ensures('limits bracket one', band(le(lo(o), 1), ge(hi(o), 1)))
c.ensures('order-independent limiter', eq(out.new(3), rmin(rmax(R(Fraction(1, 4)), x), R(4))))
c.ensures('order-independent limits', band(eq(out.new(4), R(Fraction(1, 4))), eq(out.new(5), R(4))))

c, o = mk_c('h_setpid', 'configured coefficients')
e, g = c.real('e', gen=err_gen), c.real('e0', gen=pos_gen)
kp, ki, kd, s1, s2 = [c.real(k, gen=pos_gen) for k in ('kp', 'ki', 'kd', 's1', 's2')]
c.requires(ge(e, 0), gt(g, 0), gt(s1, 0), gt(s2, 0))
c.ensures('the configured coefficients are used', eq(c.result(), nxt(o, e, g, kp, ki, s1, s2)))

c, o = mk_c('h_setlimiter', 'configured limits')
s3, s4, x, out = c.real('s3', gen=lambda r: r.uniform(0.01, 0.9)), c.real('s4', gen=lambda r: r.uniform(1.1, 9)), c.real('x', gen=pos_gen), c.arr('out', 4)
c.requires(gt(s3, 0), lt(s3, 1), ge(s4, 1))
c.ensures('lower limit', eq(out.new(1), lo(o, s3, s4)))
c.ensures('upper limit', eq(out.new(2), hi(o, s3, s4)))
c.ensures('clamped to the configured limits', eq(out.new(0), rmin(rmax(lo(o, s3, s4), x), hi(o, s3, s4))))
c.ensures('order-independent limiter', eq(out.new(3), rmin(rmax(1 / s4, x), s4)))
