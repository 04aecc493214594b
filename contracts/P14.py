from .common import *
P = 'P14'
ns = {'n': [1, 2, 3, 4]}


def tol(c):
    a, r = c.real('at', gen=lambda g: g.choice([1e-3, g.uniform(0.01, 1)])), c.real('rt', gen=lambda g: g.uniform(0.0, 1))
    c.requires(gt(a, 0), ge(r, 0))
    return a, r


def vmaxabs(v):
    return rmax(rmax(fabs(v[0]), fabs(v[1])), fabs(v[2]))


def start(f, title, k, vec):
    c = Contract(P, 'step', f, title, bounded=ns)
    n = c.int('n', 1)
    ys = [c.arr('y%d' % i, n * (3 if vec else 1)) for i in range(k)]
    a, r = tol(c)
    return c, n, ys, a, r


def posit(c, agree, n):
    c.ensures('never negative', ge(c.result(), 0))


# root mean square
c, n, (y0, y1, y2), a, r = start('h_rms3', 'root-mean-square error', 3, False)
q = lambda i: fabs(y1[i] - y2[i]) / (rmax(fabs(y0[i]), fabs(y1[i])) * r + a)
c.ensures('root of the mean squared scaled difference', eq(c.result(), sqrt(Sum(0, n, lambda i: q(i) * q(i)) / i2r(n))))
posit(c, None, n)

c, n, (y0, y1, y2), a, r = start('h_worst3', 'worst-offender error', 3, False)
k = c.skolem('k', 0, n)
q = lambda i: fabs(y1[i] - y2[i]) / (rmax(fabs(y0[i]), fabs(y1[i])) * r + a)
c.ensures('largest scaled difference', eq(c.result(), Max(n, q)))
c.ensures('bounds every component', ge(c.result(), q(k)))
posit(c, None, n)


c, n, (y0, y1), a, r = start('h_worst2', 'worst-offender error of a difference', 2, False)
k = c.skolem('k', 0, n)
q = lambda i: fabs(y1[i]) / (fabs(y0[i]) * r + a)
c.ensures('largest scaled difference', eq(c.result(), Max(n, q)))
c.ensures('bounds every component', ge(c.result(), q(k)))
posit(c, None, n)

c, n, (y0, y1), a, r = start('h_worst2v', 'worst-offender error of a vector difference', 2, True)
q = lambda i: vmaxabs(y1.v(i)) / (vmaxabs(y0.v(i)) * r + a)
c.ensures('largest scaled difference', eq(c.result(), Max(n, q)))
posit(c, None, n)

c, n, (y0, y1, y2), a, r = start('h_ratio3', 'largest difference over largest scale', 3, False)
c.ensures('ratio of the maxima', eq(c.result(), Max(n, lambda i: fabs(y2[i] - y1[i])) / Max(n, lambda i: a + fabs(y0[i]) * r)))
posit(c, None, n)
c, n, (y0, y1, y2), a, r = start('h_ratio3v', 'largest difference over largest scale of vectors', 3, True)
c.ensures('ratio of the maxima', eq(c.result(), Max(n, lambda i: vmaxabs(y2.v(i) - y1.v(i))) / Max(n, lambda i: a + vmaxabs(y0.v(i)) * r)))
posit(c, None, n)
c, n, (y0, y1), a, r = start('h_ratio2', 'largest given difference over largest scale', 2, False)
c.ensures('ratio of the maxima', eq(c.result(), Max(n, lambda i: fabs(y1[i])) / Max(n, lambda i: a + fabs(y0[i]) * r)))
posit(c, None, n)

for nm in ('rms', 'ratio', 'worst'):
    c = Contract(P, 'step', 'h_%s_set' % nm, nm + ' tolerances')
    a, r, o = c.real('at'), c.real('rt'), c.arr('out', 4)
    c.ensures('tolerances are stored', band(eq(o.new(0), a), eq(o.new(1), r), eq(o.new(2), a), eq(o.new(3), r)))
