from .common import *
P = 'P23'


def v3(a, k=0):
    return V(a[k], a[k + 1], a[k + 2])


def nz(v):
    return [ne(x, 0) for x in v]


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b}
for nm, f in OPS.items():
    c = Contract(P, 'vec', 'h_' + nm, 'component-wise ' + nm)
    a, b, o = c.arr('a', 3), c.arr('b', 3), c.arr('out', 9)
    if nm == 'div':
        c.requires(*nz(v3(b)))
    for k in range(3):
        c.ensures('a op b [%d]' % k, eq(o.new(k), f(a[k], b[k])))
        c.ensures('a op= b [%d]' % k, eq(o.new(3 + k), f(a[k], b[k])))
        c.ensures('operands unchanged [%d]' % k, band(eq(a.new(k), a[k]), eq(b.new(k), b[k]), eq(o.new(6 + k), b[k])))
    c = Contract(P, 'vec', 'h_%ss' % nm, 'vector scalar ' + nm)
    a, s, o = c.arr('a', 3), c.real('c'), c.arr('out', 9)
    if nm == 'div':
        c.requires(ne(s, 0), *nz(v3(a)))
    for k in range(3):
        c.ensures('v op c [%d]' % k, eq(o.new(k), f(a[k], s)))
        c.ensures('v op= c [%d]' % k, eq(o.new(3 + k), f(a[k], s)))
        c.ensures('c op v [%d]' % k, eq(o.new(6 + k), f(s, a[k])))

c = Contract(P, 'vec', 'h_self', 'compound assignment with itself')
a, o = c.arr('a', 3), c.arr('out', 12)
c.requires(*nz(v3(a)))
for k in range(3):
    c.ensures('self [%d]' % k, band(eq(o.new(k), a[k] * 2), eq(o.new(3 + k), 0), eq(o.new(6 + k), a[k] * a[k]), eq(o.new(9 + k), 1)))

c = Contract(P, 'vec', 'h_misc', 'unary operations, construction and norms')
a, s, o = c.arr('a', 3), c.real('c'), c.arr('out', 32)
A = v3(a)
c.requires(gt(A.norm2(), 0))
for k in range(3):
    c.ensures('negation [%d]' % k, eq(o.new(k), -a[k]))
    c.ensures('absolute value [%d]' % k, band(eq(o.new(3 + k), fabs(a[k])), eq(o.new(6 + k), fabs(a[k]))))
    c.ensures('fill constructor and assignment [%d]' % k, band(eq(o.new(9 + k), s), eq(o.new(12 + k), s), eq(o.new(15 + k), 0)))
    c.ensures('copies [%d]' % k, band(eq(o.new(18 + k), a[k]), eq(o.new(21 + k), a[k])))
c.ensures('norm', band(eq(o.new(24), A.norm()), eq(o.new(26), A.norm())))
c.ensures('norm2', band(eq(o.new(25), A.norm2()), eq(o.new(27), A.norm2())))
c.ensures('re_norm', band(eq(o.new(28), 1 / A.norm()), eq(o.new(29), 1 / A.norm())))
mc = o.new(30)
c.ensures('max_component', band(*[ge(mc, x) for x in A], bor(*[eq(mc, x) for x in A])))
mc = o.new(31)
c.ensures('max_abs', band(*[ge(mc, fabs(x)) for x in A], bor(*[eq(mc, fabs(x)) for x in A])))

c = Contract(P, 'vec', 'h_two', 'dot, cross, distance, component max and min')
a, b, o = c.arr('a', 3), c.arr('b', 3), c.arr('out', 11)
A, B = v3(a), v3(b)
c.ensures('distance', eq(o.new(0), (A - B).norm()))
c.ensures('dot', eq(o.new(1), A.dot(B)))
c.ensures_vec('cross', out_vec(o, 2), A.cross(B))
for k in range(3):
    c.ensures('vec_max [%d]' % k, band(ge(o.new(5 + k), a[k]), ge(o.new(5 + k), b[k]), bor(eq(o.new(5 + k), a[k]), eq(o.new(5 + k), b[k]))))
    c.ensures('vec_min [%d]' % k, band(le(o.new(8 + k), a[k]), le(o.new(8 + k), b[k]), bor(eq(o.new(8 + k), a[k]), eq(o.new(8 + k), b[k]))))

c = Contract(P, 'vec', 'h_laws', 'algebraic laws')
a, b, d, s, o = c.arr('a', 3), c.arr('b', 3), c.arr('c', 3), c.real('s'), c.arr('out', 15)
A = v3(a)
c.ensures('cross is orthogonal to its operands', band(eq(o.new(0), 0), eq(o.new(1), 0)))
c.ensures_vec('cross is antisymmetric', out_vec(o, 2), V(0, 0, 0))
c.ensures('scalar triple product', eq(o.new(5), o.new(6)))
c.ensures_vec('vector triple product', out_vec(o, 7), V(0, 0, 0))
c.ensures('norm2 is homogeneous', eq(o.new(10), s * s * A.norm2()))
c.ensures('norm is homogeneous', band(ge(o.new(11), 0), eq(o.new(11) * o.new(11), s * s * A.norm2())))
c.ensures('distance is symmetric and the norm of the difference', band(eq(o.new(12), o.new(13)), eq(o.new(12), o.new(14))))
