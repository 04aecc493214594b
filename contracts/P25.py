from .common import *
P = 'P25'

c = Contract(P, 'vec', 'h_math', 'scalar helpers')
x, y, z, o = c.real('x'), c.real('y'), c.real('z'), c.arr('out', 7)
c.ensures('min', band(le(o.new(0), x), le(o.new(0), y), bor(eq(o.new(0), x), eq(o.new(0), y))))
c.ensures('max', band(ge(o.new(1), x), ge(o.new(1), y), bor(eq(o.new(1), x), eq(o.new(1), y))))
c.ensures('abs', eq(o.new(2), fabs(x)))
c.ensures('in_range stays inside', band(ge(o.new(3), x), le(o.new(3), z)), guard=le(x, z))
c.ensures('in_range is the identity inside', eq(o.new(3), y), guard=band(le(x, y), le(y, z)))
c.ensures('in_range clamps to the nearer end', band(bor(ge(y, x), eq(o.new(3), x)), bor(le(y, z), eq(o.new(3), z))), guard=le(x, z))
c.ensures('step', eq(o.new(4), If(gt(x, 0), 1, 0)))
c.ensures('sign', eq(o.new(5), If(gt(x, 0), 1, -1)))
c.ensures('inverse square root', eq(o.new(6), 1 / sqrt(x)), guard=gt(x, 0))

c = Contract(P, 'vec', 'h_iseq', 'approximate equality')
x, y = c.real('x'), c.real('y')
eps = Fraction(1, 2 ** 52)
c.ensures('equal iff closer than epsilon', eq(c.result('I'), If(lt(fabs(x - y), R(eps)), I(1), I(0))))

c = Contract(P, 'vec', 'h_imath', 'integer helpers')
x, y, z = c.int('x'), c.int('y'), c.int('z')
o = c.iarr('out', 3, mode='inout')
c.ensures('min', eq(o.new(0), If(lt(x, y), x, y)))
c.ensures('max', eq(o.new(1), If(lt(x, y), y, x)))
c.ensures('in_range', band(ge(o.new(2), x), le(o.new(2), z)), guard=le(x, z))
c.ensures('in_range is the identity inside', eq(o.new(2), y), guard=band(le(x, y), le(y, z)))

c = Contract(P, 'vec', 'h_consts', 'numeric limits')
o = c.arr('out', 3)
c.ensures('machine epsilon', eq(o.new(0), R(eps)))
c.ensures('largest value', band(gt(o.new(1), R(Fraction(17, 10))), lt(o.new(1), R(Fraction(18, 10)))))


# bisection: the loop invariant keeps a sign change inside [low, high]
C_ = rvar('c')
F = lambda x: fn('uf0', x) - C_
c = Contract(P, 'vec', 'h_bisect', 'root bisection', opts={'inv': bracket(F)})
a, b = c.real('lo'), c.real('hi')
c.real('c', gen=lambda rng: rng.uniform(0, 3))
c.requires(le(a, b))
c.requires(le(F(a) * F(b), 0))
lo, hi = c.ghost('lo'), c.ghost('hi')
c.ensures('the root returned lies in a bracket with a sign change no wider than the tolerance',
          band(le(lo, c.result()), le(c.result(), hi), le(a, lo), le(hi, b), le(lo, hi), le(F(lo) * F(hi), 0), le(hi - lo, fabs(hi) * R(eps))))
d = R(Fraction(1, 10 ** 12)) * (fabs(a) + fabs(b))
c.replay('sign change at the root', le(F(c.result() - d) * F(c.result() + d), 0))
