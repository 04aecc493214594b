from .common import *
P = 'P20'


def fl(x):
    return fn('uf0', x)


def kahan(r, e, x):
    y = fl(x - e)
    t = fl(r + y)
    return [t, fl(fl(t - r) - y)]


def two_sum(a, b):
    """branch-dependent compensated addition a + b: (sum, error)"""
    s = fl(a + b)
    return s, If(lt(fabs(b), fabs(a)), fl(fl(a - s) + b), fl(fl(b - s) + a))


def neumaier(r, e, x):
    return list(two_sum(r, fl(x + e)))


def klein(r, e, ee, x):
    s, ee2 = two_sum(x, fl(e + ee))
    t, e2 = two_sum(r, s)
    return [t, e2, ee2]


TYPES = [('kahan', 2, kahan, -1), ('neumaier', 2, neumaier, 1), ('klein', 3, klein, 1)]
G = lambda rng: rng.uniform(-3, 3)
for name, k, step, sg in TYPES:
    for op in ('add', 'sub'):
        c = Contract(P, 'kahan', 'h_%s_%s' % (name, op), '%s %s' % (name, '+=' if op == 'add' else '-='))
        a, b = c.arr('a', k, gen=G), c.arr('b', k, gen=G)
        want = step(*[a[j] for j in range(k)], b[0] if op == 'add' else -b[0])
        for j, nm in enumerate(['sum', 'error term', 'error of the error term'][:k]):
            c.ensures(nm + ' follows the recurrence for every rounding', eq(a.new(j), want[j]))
        c.ensures('the right operand is only read', band(*[eq(b.new(j), b[j]) for j in range(k)]))
        # exact arithmetic: the compensated value is the mathematical sum
        c = Contract(P, 'kahan', 'h_r%s_%s' % (name, op), '%s %s in exact arithmetic' % (name, '+=' if op == 'add' else '-='))
        a, b = c.arr('a', k, gen=G), c.arr('b', k, gen=G)
        val = lambda f: f(0) + sg * sum([f(j) for j in range(2, k)], f(1))
        x = b[0] if op == 'add' else -b[0]
        c.ensures('sum and error terms together carry the exact value', eq(val(a.new), val(lambda j: a[j]) + x))
        c.ensures('nothing is lost without rounding', band(*[eq(a.new(j), 0) for j in range(1, k)]))
    for op in ('mul', 'div'):
        c = Contract(P, 'kahan', 'h_%s_%s' % (name, op), '%s %s' % (name, '*=' if op == 'mul' else '/='))
        a, b = c.arr('a', k, gen=G), c.arr('b', k, gen=G)
        c.ensures('acts on the principal value', eq(a.new(0), fl(a[0] * b[0] if op == 'mul' else a[0] / b[0])))
    c = Contract(P, 'kahan', 'h_%s_misc' % name, name + ' copy, conversion, negation')
    a, b, s, o = c.arr('a', k, gen=G), c.arr('b', k, gen=G), c.real('s'), c.arr('out', 17)
    c.ensures('negation negates the principal value', eq(o.new(0), -a[0]))
    c.ensures('copy construction copies every part', band(*[eq(o.new(3 + j), a[j]) for j in range(k)]))
    c.ensures('assignment copies every part', band(*[eq(o.new(6 + j), a[j]) for j in range(k)]))
    c.ensures('a plain scalar carries no error', band(eq(o.new(9), s), *[eq(o.new(9 + j), 0) for j in range(1, k)]))
    c.ensures('zero_err clears the errors and keeps the value', band(eq(o.new(12), a[0]), *[eq(o.new(12 + j), 0) for j in range(1, k)]))
    c.ensures('conversion returns the principal value', band(eq(o.new(15), a[0]), eq(o.new(16), a[0])))
    c = Contract(P, 'kahan', 'h_%s_chain' % name, name + ' chained compound assignment')
    a, b, cc = c.arr('a', k, gen=G), c.arr('b', k, gen=G), c.arr('cc', k, gen=G)
    w1 = step(*[a[j] for j in range(k)], b[0])
    w2 = step(*w1, -cc[0])
    c.ensures('compound assignment returns the updated number itself', band(*[eq(a.new(j), w2[j]) for j in range(k)]))
    c = Contract(P, 'kahan', 'h_%s_in' % name, name + ' input')
    a, s = c.arr('a', k, gen=G), c.real('s')
    c.ensures('reading a value replaces the number and clears its errors', band(eq(a.new(0), s), *[eq(a.new(j), 0) for j in range(1, k)]))
    val = lambda f, sg=sg, k=k: f(0) + sg * sum([f(j) for j in range(2, k)], f(1))
    box = []

    def inv(v, k=k, val=val, box=box):
        a, xs = box
        return [x for m in v.I for x in (le(I(0), m), le(m, ivar('n')))] + [eq(val(lambda j: q[j]), val(lambda j: a[j]) + Sum(0, m, lambda i: xs[i])) for q in itertools.permutations(v.R, k) for m in v.I]
    c = Contract(P, 'kahan', 'h_r%s_sum' % name, name + ' summation of any number of terms in exact arithmetic', opts={'inv': inv})
    n = c.int('n')
    a, xs = c.arr('a', k, gen=G), c.arr('xs', n, gen=G)
    box += [a, xs]
    c.ensures('sum and error terms together carry the exact total', eq(val(a.new), val(lambda j: a[j]) + Sum(0, n, lambda i: xs[i])))
