"""concrete evaluation of terms: (value, magnitude) in double precision.
Used for replaying counterexamples against the compiled code only."""
import math
import cmath
from .expr import *


CVAL = {}


class Skip(Exception):
    """term has no finite value at this input"""


def uf(tag, *x):
    """the fixed instance of an uninterpreted function used by native replays
    (must agree with vx_uf in harness/vx.hpp)"""
    s = 0.3 + 0.7 * tag
    for i, v in enumerate(x):
        s += (0.11 + 0.07 * i) * v + 0.013 * (i + 1) * v * v + 0.017 * tag * v
    return s


FN = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log,
      'pow': math.pow, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'atan2': math.atan2,
      'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'abs': abs, 'log10': math.log10,
      'cbrt': lambda x: math.copysign(abs(x) ** (1.0 / 3), x), 'floor': math.floor, 'ceil': math.ceil,
      'acosh': math.acosh, 'asinh': math.asinh, 'atanh': math.atanh, 'fmod': math.fmod, 'copysign': math.copysign,
      'hypot': math.hypot}


class Ev:
    scale = 1.0

    def __init__(self, env, arrays):
        self.env = env          # ivar/rvar/bvar name -> value
        self.arrays = arrays    # name -> list
        self.memo = {}

    def _bind(self, e, var, val):
        sub = Ev(dict(self.env), self.arrays)
        sub.env[var.a[0]] = val
        return sub

    def i(self, e):
        op, a = e.op, e.a
        if op == 'lin':
            return a[0] + sum(v * self.i(k) for k, v in a[1])
        if op == 'ivar':
            return self.env[a[0]]
        if op == 'ite':
            return self.i(a[1] if self.b(a[0]) else a[2])
        if op == 'ird':
            return self.arr(a[0], self.i(a[1]))
        if op == 'imul':
            r = 1
            for x in a:
                r *= self.i(x)
            return r
        if op in ('idiv', 'irem'):
            x, y = self.i(a[0]), self.i(a[1])
            if y == 0:
                raise Skip()
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return q if op == 'idiv' else x - q * y
        if op == 'r2i':
            return int(self.r(a[0])[0])
        raise Skip('int ' + op)

    def arr(self, name, k):
        v = self.arrays.get(name)
        if v is None or not (0 <= k < len(v)):
            raise Skip('%s[%s]' % (name, k))
        return v[k]

    def b(self, e):
        op, a = e.op, e.a
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'le0':
            return self.i(a[0]) <= 0
        if op == 'eq0':
            return self.i(a[0]) == 0
        if op == 'not':
            return not self.b(a[0])
        if op == 'and':
            return all(self.b(x) for x in a)
        if op == 'or':
            return any(self.b(x) for x in a)
        if op == 'rlt':
            return self.r(a[0])[0] < self.r(a[1])[0]
        if op == 'rle':
            return self.r(a[0])[0] <= self.r(a[1])[0]
        if op == 'req':
            return self.r(a[0])[0] == self.r(a[1])[0]
        if op == 'bvar':
            return bool(self.env[a[0]])
        if op == 'ite':
            return self.b(a[1] if self.b(a[0]) else a[2])
        raise Skip('bool ' + op)

    def r(self, e):
        """(value, magnitude)"""
        m = self.memo.get(e)
        if m is None:
            try:
                m = self._r(e)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Skip('math')
            self.memo[e] = m
        return m

    def _r(self, e):
        op, a = e.op, e.a
        if op == 'rc':
            v = float(a[0])
            return v, abs(v)
        if op == 'rvar' and a[0] in CVAL and a[0] not in self.env:
            v = CVAL[a[0]]
            return v, abs(v)
        if op == 'rvar':
            v = self.env.get(a[0])
            if v is None:
                if a[0] == 'const_inf':
                    v = math.inf
                elif a[0] == 'const_neginf':
                    v = -math.inf
                else:
                    raise Skip(a[0])
            return v, abs(v)
        if op == 'rd':
            v = self.arr(a[0], self.i(a[1]))
            return v, abs(v)
        if op == '+':
            x, mx = self.r(a[0])
            y, my = self.r(a[1])
            return x + y, mx + my
        if op == '*':
            x, mx = self.r(a[0])
            y, my = self.r(a[1])
            return x * y, mx * my
        if op == '/':
            x, mx = self.r(a[0])
            y, my = self.r(a[1])
            if y == 0:
                raise Skip('div0')
            return x / y, mx / abs(y) * max(1.0, my / abs(y))
        if op == 'i2r':
            v = float(self.i(a[0]))
            return v, abs(v)
        if op == 'ite':
            return self.r(a[1] if self.b(a[0]) else a[2])
        if op == 'sum':
            bv, hi, body = a
            s = m = 0.0
            for k in range(self.i(hi)):
                v, mv = self._bind(e, bv, k).r(body)
                s += v
                m += mv
            return s, m
        if op == 'fold':
            kind, bv, hi, body, init = a
            s, m = self.r(init)
            for k in range(self.i(hi)):
                v, mv = self._bind(e, bv, k).r(body)
                s = max(s, v) if kind == 'max' else min(s, v)
                m = max(m, mv)
            return s, m
        if op == 'fn':
            name = a[0]
            xs = [self.r(x) for x in a[1:]]
            vs = [x[0] for x in xs]
            if name.startswith('uf'):
                v = uf(int(name[2:]), *vs)
                return v, abs(v) + sum(x[1] for x in xs)
            f = FN.get(name) or PYFN.get(name)
            if f is None:
                raise Skip(name)
            v = f(*vs)
            if v != v or abs(v) == math.inf:
                raise Skip('nan')
            # conditioning by cancellation in the argument
            mag = abs(v)
            for (x, mx) in xs:
                if name in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2'):
                    mag = max(mag, 1.0, mx)
                elif abs(x) > 0 and mx > abs(x):
                    mag = max(mag, abs(v) * mx / abs(x) if name in ('sqrt', 'abs', 'cbrt') else abs(v) * (1 + mx))
                elif name in ('exp', 'sinh', 'cosh', 'pow', 'log'):
                    mag = max(mag, abs(v) * (1 + mx), 1.0 if name == 'log' else 0)
            return v, mag
        raise Skip('real ' + op)


def check(goal, ev, tol=1e-9):
    """does the goal hold numerically? True/False (raises Skip if undefined)"""
    op = goal.op
    if op == 'and':
        return all(check(g, ev, tol) for g in goal.a)
    if op == 'or':
        for g in goal.a:
            if check(g, ev, tol):
                return True
        return False
    if op == 'req':
        x, mx = ev.r(goal.a[0])
        y, my = ev.r(goal.a[1])
        if x != x or y != y:
            return x != x and y != y
        if x == y:
            return True
        floor = tol * 1e-3 * min(ev.scale ** 4, 1e200) if goal.a[0] is R0 or goal.a[1] is R0 else 1e-300
        return abs(x - y) <= tol * max(mx, my) + floor
    if op in ('rlt', 'rle'):
        x, mx = ev.r(goal.a[0])
        y, my = ev.r(goal.a[1])
        return x <= y + tol * max(mx, my)
    if op == 'not' and goal.a[0].op == 'req':
        x, mx = ev.r(goal.a[0].a[0])
        y, my = ev.r(goal.a[0].a[1])
        return True if x != y else False
    return ev.b(goal)
