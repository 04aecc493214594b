from .common import *
P = 'P29'
U = lambda rng: rng.uniform(0, 1)
Z = lambda rng: rng.gauss(0, 1)


def C(name, title, *ps, draws=1, gen=U, **kw):
    c = Contract(P, 'rnd', 'h_' + name, title, **kw)
    v = [c.real(p, gen=pos_gen) for p in ps]
    u = c.arr('u', draws, gen=gen)
    if gen is U:
        for k in range(draws):
            c.requires(band(le(0, u[k]), lt(u[k], 1)))
    return [c] + v + [u]


c, lo, hi, u = C('uniform', 'uniform', 'lo', 'hi')
c.requires(le(lo, hi))
c.ensures('the fraction of the range below the value is the draw', eq(c.result() - lo, u[0] * (hi - lo)))
c.ensures('inside the range', band(le(lo, c.result()), le(c.result(), hi)))

lg = lambda x: fn('log10', x)
c, lo, hi, u = C('logarithm', 'logarithmic', 'lo', 'hi')
c.requires(gt(lo, 0), le(lo, hi))
c.ensures('the logarithm is uniform', eq(c.result(), fn('pow', R(10), lg(lo) + u[0] * (lg(hi) - lg(lo)))))

c, p, lo, hi, u = C('powerlaw', 'power law', 'p', 'lo', 'hi')
c.requires(gt(lo, 0), le(lo, hi))
pw = lambda x, y: fn('pow', x, y)
eps = R(Fraction(1, 2 ** 52))
c.ensures('inverse of the cumulative distribution x^(p+1)',
          eq(c.result(), pw(pw(lo, p + 1) + u[0] * (pw(hi, p + 1) - pw(lo, p + 1)), 1 / (p + 1))), guard=ge(fabs(p + 1), eps))
c.ensures('the power -1 is logarithmic', eq(c.result(), fn('pow', R(10), lg(lo) + u[0] * (lg(hi) - lg(lo)))), guard=lt(fabs(p + 1), eps))

c, m, s, u = C('normal', 'normal', 'mean', 'sigma', gen=Z)
c.ensures('mean plus sigma times a standard normal draw', eq(c.result(), m + s * u[0]))

c, s, u = C('maxwellian', 'Maxwellian', 'sigma', draws=3, gen=Z)
c.ensures('norm of three independent normal components', eq(c.result(), sqrt((s * u[0]) ** 2 + (s * u[1]) ** 2 + (s * u[2]) ** 2)))

for nm, k in (('tnormal', 1), ('tmaxwellian', 3)):
    c = Contract(P, 'rnd', 'h_' + nm, 'truncated ' + ('normal' if k == 1 else 'Maxwellian'),
                 opts={'inv': lambda v: []}, aborts='any')
    ps = ['lo', 'hi'] + (['mean'] if k == 1 else []) + ['sigma']
    v = [c.real(q, gen=pos_gen) for q in ps]
    n = c.int('n')
    c.requires(le(I(1), n))
    u = c.arr('u', n, gen=Z)
    kk = c.iarr('k', 1, mode='inout')
    r, last = c.result(), kk.new(0)
    if k == 1:
        c.ensures('the value is the last draw of the untruncated distribution', eq(r, v[2] + v[3] * u[last - 1]))
    else:
        c.ensures('the value is the last draw of the untruncated distribution',
                  eq(r, sqrt((v[2] * u[last - 3]) ** 2 + (v[2] * u[last - 2]) ** 2 + (v[2] * u[last - 1]) ** 2)))
    c.ensures('inside the range', band(le(v[0], r), le(r, v[1])))

c = Contract(P, 'rnd', 'h_fixed', 'fixed')
x = c.real('x')
c.ensures('the given value', eq(c.result(), x))

c = Contract(P, 'rnd', 'h_normal2', 'pair of normal draws (polar method)', opts={'inv': lambda v: []}, aborts='any')
rmin, n = c.real('rmin', gen=U), c.int('n')
c.requires(le(I(1), n))
u, o, kk = c.arr('u', n, gen=U), c.arr('o', 2), c.iarr('k', 1, mode='inout')
last = kk.new(0)
x, y = u[last - 2] * 2 - 1, u[last - 1] * 2 - 1
r2 = x * x + y * y
f = sqrt(-2 * fn('log', r2) / r2)
c.ensures('polar transform of the last point inside the unit disc', band(eq(o.new(0), x * f), eq(o.new(1), y * f), lt(r2, 1), gt(r2, rmin * rmin)))

c = Contract(P, 'rnd', 'h_parameter', 'bounded parameter', opts={'inv': lambda v: [band(le(I(1), m), eq(x, rvar('a') + (rvar('b') - rvar('a')) * v.mem('u', m - 1))) for x in v.R for m in v.I + [v.mem('vx_drawn', 0, 'I')]]}, aborts='any')
lo, hi, a, b = [c.real(q, gen=pos_gen) for q in ('lo', 'hi', 'a', 'b')]
n = c.int('n')
c.requires(le(I(1), n))
u, kk = c.arr('u', n, gen=U), c.iarr('k', 1, mode='inout')
last = kk.new(0)
c.ensures('inside the boundary', band(le(lo, c.result()), le(c.result(), hi)))
c.ensures('the value is the last draw of the distribution', eq(c.result(), a + (b - a) * u[last - 1]))
