from .common import *
from math import comb
P = 'P15'


def radau_nodes():
    """the 7 interior Gauss-Radau nodes on [0, 1] to 40 digits: roots of (P7 + P8)(2x - 1) / x"""
    def leg(n):
        a, b = [Fraction(1)], [Fraction(-1), Fraction(2)]
        for k in range(1, n):
            nxt = [Fraction(0)] * (k + 2)
            for i, v in enumerate(b):
                nxt[i] -= v * Fraction(2 * k + 1, k + 1)
                nxt[i + 1] += v * Fraction(4 * k + 2, k + 1)
            for i, v in enumerate(a):
                nxt[i] -= v * Fraction(k, k + 1)
            a, b = b, nxt
        return b
    p7, p8 = leg(7), leg(8)
    p = [(p7[i] if i < 8 else 0) + p8[i] for i in range(9)][1:]
    val = lambda x: sum(v * x ** i for i, v in enumerate(p))
    roots, prev = [], Fraction(0)
    for k in range(1, 401):
        x = Fraction(k, 400)
        if val(prev) * val(x) < 0:
            lo, hi = prev, x
            for _ in range(130):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if val(lo) * val(mid) > 0 else (lo, mid)
            roots.append(Fraction(round(lo * 10 ** 36), 10 ** 36))
        prev = x
    assert len(roots) == 7
    return roots


H = radau_nodes() + [Fraction(1)]


def newton_to_power():
    """K[j][k]: coefficient of x^(k+1) in x (x-h0)...(x-h_{j-1})"""
    K, p = [], [Fraction(1)]
    for j in range(7):
        K.append(p + [Fraction(0)] * (7 - len(p)))
        q = [Fraction(0)] * (len(p) + 1)
        for i, v in enumerate(p):
            q[i + 1] += v
            q[i] -= H[j] * v
        p = q
    return K


def power_to_newton(K):
    L = [[Fraction(0)] * 7 for _ in range(7)]       # x^(j+1) = sum_k L[j][k] N_k
    for j in range(7):
        L[j][j] = Fraction(1)
        for k in range(j):
            for m in range(7):
                L[j][m] -= K[j][k] * L[k][m]
    return L


K = newton_to_power()
L = power_to_newton(K)
TOL = Fraction(1, 10 ** 13)


def tab(c, name, n):
    return [c.arr('%s%d' % (name, j), n) for j in range(7)]


def near(x, y, *scale, tol=TOL):
    return le(fabs(x - y), R(tol) * sum((fabs(s) for s in scale[1:]), fabs(scale[0])))


c = Contract(P, 'radau', 'h_g2b', 'Newton to power coefficients')
n = c.int('n')
g, b = tab(c, 'g', n), tab(c, 'b', n)
i = c.skolem('i', 0, n)
for k in range(7):
    c.ensures('power coefficient %d of the Newton form' % k, near(b[k].new(i), sum((g[j][i] * R(K[j][k]) for j in range(7)), R(0)), *[g[j][i] for j in range(7)]))
    c.ensures('Newton coefficient %d unchanged' % k, eq(g[k].new(i), g[k][i]))

c = Contract(P, 'radau', 'h_b2g', 'power to Newton coefficients')
n = c.int('n')
b, g = tab(c, 'b', n), tab(c, 'g', n)
i = c.skolem('i', 0, n)
for k in range(7):
    c.ensures('Newton coefficient %d of the power form' % k, near(g[k].new(i), sum((b[j][i] * R(L[j][k]) for j in range(7)), R(0)), *[b[j][i] for j in range(7)]))
    c.ensures('power coefficient %d unchanged' % k, eq(b[k].new(i), b[k][i]))

c = Contract(P, 'radau', 'h_predict', 'prediction for the next step')
n = c.int('n')
q = c.real('q')
b, o, g = tab(c, 'b', n), tab(c, 'o', n), tab(c, 'g', n)
i = c.skolem('i', 0, n)
x = rvar('x')
for k in range(7):
    pred = sum((b[j][i] * comb(j + 1, k + 1) for j in range(k, 7)), R(0)) * q ** (k + 1)
    c.ensures('coefficient %d of the polynomial continued beyond the step and rescaled by the step ratio' % k, eq(o[k].new(i), pred))
    c.ensures('last correction of coefficient %d added' % k, eq(b[k].new(i), pred + b[k][i] - o[k][i]))
    c.ensures('Newton coefficient %d follows' % k, near(g[k].new(i), sum((b[j].new(i) * R(L[j][k]) for j in range(7)), R(0)), *[b[j].new(i) for j in range(7)]))

for s in range(8):
    c = Contract(P, 'radau', 'h_integrate_to', 'state predicted at substep %d' % s)
    n, h, st = c.int('n'), c.real('h'), c.int('stage')
    b, in_, d0, out = tab(c, 'b', n), c.arr('in', n), c.arr('d0', n), c.arr('out', n)
    c.requires(eq(st, I(s)))
    i = c.skolem('i', 0, n)
    terms = [d0[i] * R(H[s])] + [b[k][i] * R(H[s] ** (k + 2) / (k + 2)) for k in range(7)]
    c.ensures('start plus the integral of the polynomial', near(out.new(i), in_[i] + h * sum(terms[1:], terms[0]), *[h * t for t in [d0[i]] + [b[k][i] for k in range(7)]]))

c = Contract(P, 'radau', 'h_evaluate', 'state at the end of the step')
n, h = c.int('n'), c.real('h')
b, in_, d0, out = tab(c, 'b', n), c.arr('in', n), c.arr('d0', n), c.arr('out', n)
i = c.skolem('i', 0, n)
c.ensures('start plus the integral of the polynomial over the step', eq(out.new(i), in_[i] + h * sum((b[k][i] / (k + 2) for k in range(7)), d0[i])))

for s in range(7):
    c = Contract(P, 'radau', 'h_update%d' % s, 'divided differences at substep %d' % s)
    n = c.int('n')
    d0, d1 = c.arr('d0', n), c.arr('d1', n)
    b, g, dg = tab(c, 'b', n), tab(c, 'g', n), c.arr('dg', n)
    i = c.skolem('i', 0, n)

    def basis(j, x=H[s]):
        r = x
        for m in range(j):
            r *= x - H[m]
        return r
    c.ensures('the polynomial meets the derivative at the node', near(sum((g[j].new(i) * R(basis(j)) for j in range(s + 1)), d0[i]), d1[i], d0[i], d1[i], *[g[j][i] for j in range(s)]))
    for j in range(7):
        if j != s:
            c.ensures('Newton coefficient %d unchanged' % j, eq(g[j].new(i), g[j][i]))
        c.ensures('power coefficient %d follows' % j, near(b[j].new(i), b[j][i] + (g[s].new(i) - g[s][i]) * R(K[s][j]), g[s].new(i) - g[s][i]))
    c.ensures('change of the Newton coefficient recorded', eq(dg.new(i), g[s].new(i) - g[s][i]))


def sweep(fname, title):
    c = Contract(P, 'radau', fname, title)
    n, h = c.int('n'), c.real('h')
    f = [c.arr('f%d' % k, n) for k in range(8)]
    b, g, sn, st = tab(c, 'b', n), tab(c, 'g', n), tab(c, 's', n), c.arr('state', n)
    i = c.skolem('i', 0, n)
    return c, h, f, b, g, sn, st, i


c, h, f, b, g, sn, st, i = sweep('h_correct', 'corrector sweep')
c.ensures('one derivative at the start and one at every node', eq(c.result('I'), I(8)))
c.ensures('the system is left as it was', eq(st.new(i), st[i]))
for k in range(7):
    nd = [Fraction(0)] + H[:k + 1]
    val = R(0)
    for a in range(k + 2):         # divided difference on 0, h0..hk
        w = Fraction(1)
        for m in range(k + 2):
            if m != a:
                w /= nd[a] - nd[m]
        val = val + f[a][i] * R(w)
    c.ensures('Newton coefficient %d is the divided difference of the derivatives' % k, near(g[k].new(i), val, *[f[a][i] for a in range(k + 2)], tol=TOL * 10 ** 4))
# a consistent table (b the power form of g) stays consistent and becomes the interpolation polynomial
for k in range(7):
    old = sum((g[j][i] * R(K[j][k]) for j in range(7)), R(0))
    new = sum((g[j].new(i) * R(K[j][k]) for j in range(7)), R(0))
    c.ensures('power coefficient %d follows the Newton table' % k, near(b[k].new(i), b[k][i] + new - old, *[g[j].new(i) - g[j][i] for j in range(7)], tol=TOL * 10))

for s in range(7):
    ck = lambda k: b[k][i] + sum(((g[j].new(i) - g[j][i]) * R(K[j][k]) for j in range(s)), R(0))
    c.ensures('the derivative at node %d is taken at the predicted state' % s,
              near(sn[s].new(i), st[i] + h * (f[0][i] * R(H[s]) + sum((ck(k) * R(H[s] ** (k + 2) / (k + 2)) for k in range(7)), R(0))),
                   *[h * v[i] for v in f + b + g], tol=TOL * 10 ** 4))

# order: with any derivative that is a polynomial of degree 14 in the time since the start of the step,
# corrector and step give the exact integral whatever prediction they started from
c = Contract(P, 'radau', 'h_poly', 'order of the step')
h = c.real('h')
p = c.arr('p', 15)
g, st = c.arr('g', 7), c.arr('state', 1)
c.ensures('the step is the exact integral of every derivative of degree 14',
          near(st.new(0), st[0] + h * sum((p[k] / (k + 1) for k in range(1, 15)), p[0]), *[h * p[k] for k in range(15)], *[h * g[j] for j in range(7)], tol=TOL * 100))
