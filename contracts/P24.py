from .common import *
P = 'P24'
ns = {'n': [0, 1, 2, 3]}


def arrs(f, title, spec, extra=None):
    """spec: list of ('a', width)|('s', name); last 'd'"""


def elementwise(fname, title, params, dim, value):
    """dst[k] = value(k, component) for every k, every other array untouched"""
    c = Contract(P, 'arrays', fname, title, bounded=ns)
    n = c.int('n')
    A = {}
    for p in params:
        if p in ('s', 't'):
            A[p] = c.real(p)
        else:
            A[p] = c.arr(p, n * dim)
    k = c.skolem('k', 0, n)
    at = [k * dim + q for q in range(dim)]
    c.ensures('every element', band(*[eq(A['d'].new(x), value(A, x)) for x in at]))
    for p in params:
        if p not in ('s', 't', 'd'):
            c.ensures(p + ' unchanged', band(*[eq(A[p].new(x), A[p][x]) for x in at]))
    return c


elementwise('h_add', 'array_add', 'abcd', 1, lambda A, k: A['a'][k] + A['b'][k] + A['c'][k])
elementwise('h_addv', 'array_add of vectors', 'abd', 3, lambda A, k: A['a'][k] + A['b'][k])
elementwise('h_mul', 'array_mul', 'abcd', 1, lambda A, k: A['a'][k] * A['b'][k] * A['c'][k])
elementwise('h_sub', 'array_sub', 'abd', 1, lambda A, k: A['a'][k] - A['b'][k])
elementwise('h_div', 'array_div', 'abd', 1, lambda A, k: A['a'][k] / A['b'][k])
elementwise('h_scale', 'array_scale', 'asd', 3, lambda A, k: A['a'][k] * A['s'])
elementwise('h_div_scale', 'array_div_scale', 'asd', 3, lambda A, k: A['a'][k] / A['s'])
elementwise('h_scale_add', 'array_scale_add (x+y)*c', 'absd', 1, lambda A, k: (A['a'][k] + A['b'][k]) * A['s'])
elementwise('h_scale_add2', 'array_scale_add x*b+y*d', 'asbtd', 3, lambda A, k: A['a'][k] * A['s'] + A['b'][k] * A['t'])
elementwise('h_scale_sub', 'array_scale_sub', 'absd', 1, lambda A, k: (A['a'][k] - A['b'][k]) * A['s'])
elementwise('h_advance', 'array_advance', 'da', 3, lambda A, k: A['d'][k] + A['a'][k])
elementwise('h_advance_s', 'array_advance with step', 'das', 3, lambda A, k: A['d'][k] + A['a'][k] * A['s'])
elementwise('h_advance_to', 'array_advance to destination', 'dvas', 3, lambda A, k: A['v'][k] + A['a'][k] * A['s'])
elementwise('h_retreat', 'array_retreat', 'da', 3, lambda A, k: A['d'][k] - A['a'][k])
elementwise('h_retreat_s', 'array_retreat with step', 'das', 3, lambda A, k: A['d'][k] - A['a'][k] * A['s'])
elementwise('h_retreat_to', 'array_retreat to destination', 'dvas', 3, lambda A, k: A['v'][k] - A['a'][k] * A['s'])

c = Contract(P, 'arrays', 'h_set_zero', 'set_arrays_zero', bounded={'n': [0, 1, 2], 'm': [0, 1, 2]})
n = c.int('n')
d = c.arr('d', n)
m = c.int('m')
v = c.arr('v', m * 3)
k, l = c.skolem('k', 0, n), c.skolem('l', 0, m)
c.ensures('every scalar is zero', eq(d.new(k), 0))
c.ensures('every vector component is zero', band(*[eq(v.new(l * 3 + q), 0) for q in range(3)]))

c = Contract(P, 'arrays', 'h_dot2', 'array_dot of two', bounded=ns)
n = c.int('n')
a, b = c.arr('a', n), c.arr('b', n)
c.ensures('sum a_i b_i', eq(c.result(), Sum(0, n, lambda i: a[i] * b[i])))

c = Contract(P, 'arrays', 'h_dot4', 'array_dot of four', bounded=ns)
n = c.int('n')
a, b, cc, d = c.arr('a', n), c.arr('b', n), c.arr('c', n), c.arr('d', n)
c.ensures('sum a_i b_i c_i d_i', eq(c.result(), Sum(0, n, lambda i: a[i] * b[i] * cc[i] * d[i])))

c = Contract(P, 'arrays', 'h_sum', 'array_sum', bounded=ns)
n = c.int('n')
a = c.arr('a', n)
c.ensures('sum a_i', eq(c.result(), Sum(0, n, lambda i: a[i])))

c = Contract(P, 'arrays', 'h_coord_dot', 'coord_dot', bounded=ns)
n = c.int('n')
a, b, d = c.arr('a', n * 3), c.arr('b', n * 3), c.arr('d', n)
k = c.skolem('k', 0, n)
c.ensures('d_k = a_k . b_k', eq(d.new(k), a.v(k).dot(b.v(k))))

c = Contract(P, 'arrays', 'h_contract', 'weighted contraction', bounded=ns)
n = c.int('n')
w, a, b = c.arr('c', n), c.arr('a', n * 3), c.arr('b', n * 3)
c.ensures('sum c_i a_i . b_i', eq(c.result(), Sum(0, n, lambda i: w[i] * a.v(i).dot(b.v(i)))))

c = Contract(P, 'arrays', 'h_contract1', 'contraction', bounded=ns)
n = c.int('n')
a, b = c.arr('a', n * 3), c.arr('b', n * 3)
c.ensures('sum a_i . b_i', eq(c.result(), Sum(0, n, lambda i: a.v(i).dot(b.v(i)))))

c = Contract(P, 'arrays', 'h_com', 'weighted mean', bounded={'n': [1, 2, 3]})
n = c.int('n', 1)
m, v, o = c.arr('m', n, gen=pos_gen), c.arr('v', n * 3), c.arr('out', 3)
M = Sum(0, n, lambda i: m[i])
c.requires(gt(M, 0))
c.ensures_vec('sum m v / sum m', out_vec(o, 0), VSum(0, n, lambda i: v.v(i) * m[i]) / M)


def kahan(fname, title, names):
    c = Contract(P, 'arrays', fname, title, bounded=ns)
    n = c.int('n')
    out = {}
    for nm, w in names:
        out[nm] = c.arr(nm, n * w)
    return c, n, out


# memory layout of a compensated scalar: value, error
c, n, A = kahan('h_load_err', 'array_load_err', (('d', 2), ('v', 6), ('s', 1), ('sv', 3)))
k = l = c.skolem('k', 0, n)
c.ensures('errors loaded', band(eq(A['d'].new(k * 2 + 1), A['s'][k]), *[eq(A['v'].new((l * 3 + q) * 2 + 1), A['sv'][(l * 3 + q)]) for q in range(3)]))
c.ensures('values unchanged', band(eq(A['d'].new(k * 2), A['d'][k * 2]), *[eq(A['v'].new((l * 3 + q) * 2), A['v'][(l * 3 + q) * 2]) for q in range(3)]))

c, n, A = kahan('h_save_err', 'array_save_err', (('d', 2), ('v', 6), ('s', 1), ('sv', 3)))
k = l = c.skolem('k', 0, n)
c.ensures('errors saved', band(eq(A['s'].new(k), A['d'][k * 2 + 1]), *[eq(A['sv'].new((l * 3 + q)), A['v'][(l * 3 + q) * 2 + 1]) for q in range(3)]))
c.ensures('state unchanged', band(eq(A['d'].new(k * 2), A['d'][k * 2]), *[eq(A['v'].new((l * 3 + q) * 2), A['v'][(l * 3 + q) * 2]) for q in range(3)]))

c, n, A = kahan('h_copy_err', 'array_copy_err', (('d', 2), ('v', 6), ('s', 2), ('sv', 6)))
k = l = c.skolem('k', 0, n)
c.ensures('errors copied', band(eq(A['d'].new(k * 2 + 1), A['s'][k * 2 + 1]), *[eq(A['v'].new((l * 3 + q) * 2 + 1), A['sv'][(l * 3 + q) * 2 + 1]) for q in range(3)]))
c.ensures('values unchanged', band(eq(A['d'].new(k * 2), A['d'][k * 2]), *[eq(A['v'].new((l * 3 + q) * 2), A['v'][(l * 3 + q) * 2]) for q in range(3)]))

c, n, A = kahan('h_err_zero', 'array_set_err_zero', (('d', 2), ('v', 6)))
k = l = c.skolem('k', 0, n)
c.ensures('errors zero', band(eq(A['d'].new(k * 2 + 1), 0), *[eq(A['v'].new((l * 3 + q) * 2 + 1), 0) for q in range(3)]))
c.ensures('values unchanged', band(eq(A['d'].new(k * 2), A['d'][k * 2]), *[eq(A['v'].new((l * 3 + q) * 2), A['v'][(l * 3 + q) * 2]) for q in range(3)]))
