from .common import *
P = 'P11'
TOL = Fraction(1, 10 ** 13)
SEQ = [1, 2, 3, 5, 8, 12, 17, 25]


def near(x, y, *scale, tol=TOL):
    return le(fabs(x - y), R(tol) * sum((fabs(s) for s in scale[1:]), fabs(scale[0])))


for nm, N, kdk in (('dkd', 8, 0), ('kdk', 8, 1), ('long', 13, 0)):
    c = Contract(P, 'bs', 'h_consts_' + nm, 'constants ' + nm, unroll=400)
    co, cost, h = c.arr('coef', N * N), c.arr('cost', N), c.iarr('h', N, mode='inout')
    for i in range(N):
        c.ensures('sub-step number %d grows' % i, lt(h.new(i - 1) if i else I(0), h.new(i)))
        c.ensures('work of column %d' % i, eq(cost.new(i), sum((i2r(h.new(j)) + 2 * kdk for j in range(i + 1)), R(0))))
        for j in range(i):
            a, b = i2r(h.new(i)), i2r(h.new(i - j - 1))
            c.ensures('extrapolation coefficient %d %d' % (i, j), band(le(fabs(co.new(i * N + j) * (a * a - b * b) - b * b), R(TOL) * b * b)))

c = Contract(P, 'bs', 'h_extrapolate', 'extrapolation table', unroll=400)
n = c.int('n')
r = [c.arr('r%d' % k, n) for k in range(8)]
best, low = c.arr('best', n * 8), c.arr('low', n * 8)
i = c.skolem('i', 0, n)


def lagrange0(ks, y):
    """value at 0 of the polynomial in (1/n)^2 through the results of the sub-step numbers ks"""
    s = R(0)
    for a in ks:
        w = Fraction(1)
        for b in ks:
            if b != a:
                w *= Fraction(SEQ[a] ** 2, SEQ[a] ** 2 - SEQ[b] ** 2)
        s = s + y(a) * R(w)
    return s


for k in range(1, 8):
    sc = [r[a][i] for a in range(k + 1)]
    c.ensures('best value after %d columns is the limit of the polynomial through all results' % k,
              near(best.new(i * 8 + k), lagrange0(range(k + 1), lambda a: r[a][i]), *sc, tol=TOL * 100))
    c.ensures('value compared with it after %d columns leaves the coarsest result out' % k,
              near(low.new(i * 8 + k), lagrange0(range(1, k + 1), lambda a: r[a][i]), *sc[1:], tol=TOL * 100))

for nm, first, second in (('dkd', 'drifts', 'kicks'), ('kdk', 'kicks', 'drifts')):
    c = Contract(P, 'bs', 'h_nsteps_' + nm, 'sub-steps ' + nm, bounded={'steps': [1, 2, 3, 5]})
    h, s = c.real('h'), c.int('steps', 1)
    a = {'drifts': c.arr('drifts', s + 1), 'kicks': c.arr('kicks', s + 1)}
    num = c.iarr('num', 3, mode='inout')
    x, y = a[first], a[second]
    q = h / i2r(s)
    k = c.skolem('k', 1, s)
    c.ensures('half a sub-step at both ends', band(eq(x.new(0), q / 2), eq(x.new(s), q / 2)))
    c.ensures('full sub-steps inside', band(eq(x.new(k), q), eq(y.new(k), q), eq(y.new(I(0)), q)))
    nx, ny = (0, 1) if nm == 'dkd' else (1, 0)
    c.ensures('number of sub-steps', band(eq(num.new(nx), s + 1), eq(num.new(ny), s)))
    c.ensures('drifts and kicks alternate', eq(num.new(2), I(0)))

# order and step of the next trial, after column k of a trial aimed at column K
DEC, INC = Fraction(8, 10), Fraction(9, 10)
for nm, kdk in (('dkd', 0), ('kdk', 1)):
    CUM = [sum(SEQ[:i + 1]) + 2 * kdk * (i + 1) for i in range(8)]
    for first in (0, 1):
        for k in range(1, 8):
            c = Contract(P, 'bs', 'h_next_' + nm, 'order selection %s, column %d of %s step' % (nm, k, ('a later', 'the first')[first]), unroll=400, aborts='any')
            kv = c.int('k')
            rank = c.iarr('rank', 1, mode='inout', rng=7)
            fv, rej = c.int('first'), c.int('reject')
            S, W = c.arr('ideal', 8, gen=lambda rng: rng.choice([1.0, 2.0, 0.5, 1.1])), c.arr('cost', 8, gen=lambda rng: rng.choice([1.0, 1.05, 0.7, 2.0]))
            K = rank[0]
            c.requires(eq(kv, I(k)))
            c.requires(eq(fv, I(first)))
            c.requires(band(le(I(0), rej), le(rej, I(1))))
            c.requires(band(le(I(2), K), le(K, I(6))))
            if not first:
                c.requires(band(le(K - 1, I(k)), le(I(k), K + 1)))
            N, h = rank.new(0), c.result()
            acc = eq(rej, I(0))
            c.ensures('the column aimed at stays inside the table', band(le(I(2), N), le(N, I(6))))
            if first:
                c.ensures('a first step goes on with the step of the column reached', eq(h, S[k]))
                c.ensures('a rejected first step aims at the same column', eq(N, K), guard=bnot(acc))
                continue
            for q in range(2, 7):
                if q <= k:
                    c.ensures('the step is the one of column %d when that is aimed at' % q, eq(h, S[q]), guard=band(eq(N, I(q))))
                elif q == k + 1:
                    c.ensures('the step is scaled by the work when column %d is aimed at' % q, eq(h * CUM[k], S[k] * CUM[k + 1]), guard=band(eq(N, I(q))))
                else:
                    c.ensures('column %d is out of reach' % q, bnot(eq(N, I(q))), guard=TRUE)
            c.ensures('no higher column after a rejection', le(N, I(max(k, 2))), guard=band(bnot(acc)))
            clamp = lambda q: I(min(max(q, 2), 6))
            near_ = le(I(k), K)
            down, up = lt(W[k - 1], W[k] * R(DEC)), band(acc, lt(W[k], W[k - 1] * R(INC)))
            c.ensures('one column less when that is clearly cheaper', eq(N, clamp(k - 1)), guard=band(near_, down))
            c.ensures('one column more when this one is clearly cheaper than the one before', eq(N, clamp(k + 1)), guard=band(near_, bnot(down), up))
            c.ensures('otherwise the column reached', eq(N, clamp(k)), guard=band(near_, bnot(down), bnot(up)))

c = Contract(P, 'bs', 'h_window', 'convergence window')
k, K, first = c.int('k'), c.int('rank', 1), c.int('first')
c.ensures('one column around the one aimed at, every column of a first step',
          eq(c.result('I'), If(bor(eq(first, I(1)), band(le(K - 1, k), le(k, K + 1))), I(1), I(0))))

c = Contract(P, 'bs', 'h_diverged', 'rejection before the last column', unroll=400)
k, K, first, e = c.int('k'), c.int('rank', 1), c.int('first'), c.real('error', gen=lambda rng: rng.choice([0.5, 1.5, 10.0, 1e3, 1e4, 1e6]))
c.requires(band(le(I(2), K), le(K, I(6)), le(K - 1, k), le(k, K + 1)))
c.ensures('a first step is given up in the last column only', eq(c.result('I'), If(eq(k, K + 1), I(1), I(0))), guard=eq(first, I(1)))
for q in range(2, 7):
    for d, lim in ((-1, (Fraction(SEQ[q] * SEQ[q + 1])) ** 2), (0, Fraction(SEQ[q + 1]) ** 2), (1, Fraction(1))):
        c.ensures('a trial at column %d aimed at %d is given up when the error cannot fall below one' % (q + d, q),
                  eq(c.result('I'), If(lt(R(lim), e), I(1), I(0))), guard=band(bnot(eq(first, I(1))), eq(K, I(q)), eq(k, I(q + d))))

c = Contract(P, 'bs', 'h_tol', 'tolerances')
a, r, o = c.real('atol'), c.real('rtol'), c.arr('out', 2)
c.ensures('handed to the error estimator', band(eq(o.new(0), a), eq(o.new(1), r)))

F = lambda x, t: fn('uf1', x, t)
for s in (1, 2, 3, 5, 8, 12):
    c = Contract(P, 'bs', 'h_mid%d' % s, 'modified midpoint rule with %d sub-steps' % s)
    n, H, t = c.int('n'), c.real('h'), c.real('t')
    x, o = c.arr('x', n), c.arr('out', n)
    i = c.skolem('i', 0, n)
    q = H / s
    ys = [x[i], x[i] + q * F(x[i], t)]
    for m in range(1, s):
        ys.append(ys[-2] + 2 * q * F(ys[-1], t + q * m))
    c.ensures('result', eq(o.new(i), (ys[-1] + ys[-2] + q * F(ys[-1], t + q * s)) / 2))
    c.ensures('start state unchanged', eq(x.new(i), x[i]))
