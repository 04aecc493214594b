from .common import *
from vc import expr
P = 'P07'


def order_defect(p):
    """largest deviation of the coefficient of any word in A (drift) and B (kick) of length <= p in
    the product of the sub-step exponentials from the one in exp(A+B): 0 iff the order is >= p"""
    def f(*dk):
        co = {(): 1.0}
        words = [()]
        lv = [()]
        for k in range(p):
            lv = [w + (x,) for w in lv for x in (0, 1)]
            words += lv
        for w in words[1:]:
            co[w] = 0.0
        for i, h in enumerate(dk):
            if h == 0:
                continue
            x = i % 2
            new = {}
            for w in words:
                s, c, j = 0.0, 1.0, 0
                while True:
                    s += c * co[w[:len(w) - j]]
                    if j == len(w) or w[len(w) - 1 - j] != x:
                        break
                    j += 1
                    c *= h / j
                new[w] = s
            co = new
        fact = [1.0]
        for k in range(1, p + 1):
            fact.append(fact[-1] * k)
        return max(abs(co[w] - 1 / fact[len(w)]) for w in words)
    return f


for p in (2, 3, 5, 7, 9):
    expr.PYFN['order_defect%d' % p] = order_defect(p)

h0 = lambda rng: rng.uniform(-2, 2)
for nm, stages, order in (('dkd', 3, 2), ('kdk', 3, 2), ('s2', 3, 2), ('s4', 7, 4), ('s6', 15, 6), ('s8', 31, 8), ('s10', 63, 10)):
    N = 80
    c = Contract(P, 'sympl', 'h_' + nm, 'sub-steps ' + nm, unroll=200)
    h, log = c.real('h', gen=h0), c.arr('log', 2 * N, gen=lambda rng: 0.0)
    n = c.result('I')
    E0 = [log.new(i) for i in range(2 * stages)]
    D, K = E0[0::2], E0[1::2]
    tot = lambda xs: sum(xs[1:], xs[0])
    c.ensures('number of sub-steps', eq(n, stages))
    small = lambda x: band(le(x, fabs(h) * Fraction(1, 10 ** 12)), ge(x, fabs(h) * Fraction(-1, 10 ** 12)))
    c.ensures('drifts add up to the step', small(tot(D) - h))
    c.ensures('kicks add up to the step', small(tot(K) - h))
    c.ensures('reads the same forwards and backwards', band(*[band(eq(D[i], D[stages - 1 - i]), eq(K[i], K[stages - 1 - i])) for i in range(stages // 2)]))
    c = Contract(P, 'sympl', 'h_%s_unit' % nm, 'coefficients ' + nm, unroll=200)
    h, log, unit = c.real('h', gen=h0), c.arr('log', 2 * N, gen=lambda rng: 0.0), c.arr('unit', 2 * N, gen=lambda rng: 0.0)
    c.ensures('every sub-step is a fixed fraction of the step', band(*[eq(log.new(i), unit.new(i) * h) for i in range(2 * stages)]))
    q = order - 1 if order > 2 else 2
    # a self-adjoint scheme has even order: conditions of odd length below the order suffice
    d = fn('order_defect%d' % q, *[unit.new(i) for i in range(2 * stages)])
    c.ensures('conditions of order %d' % order, le(d, Fraction(1, 10 ** 10)))
    if order == 10:
        c.ensures('conditions of order 4', le(fn('order_defect3', *[unit.new(i) for i in range(2 * stages)]), Fraction(1, 10 ** 10)))
    c = Contract(P, 'sympl', 'h_%s_order' % nm, 'claimed order ' + nm)
    c.ensures('order', eq(c.result('I'), order))
