"""deterministic polynomial form of real expressions: two expressions that are
equal as polynomials in their atoms (with inverses, square roots and sin^2)
become the same term.  Used as a pre-pass (option `canon` of a contract) where
values are compared inside conditions and function arguments."""
from fractions import Fraction
import z3
from .expr import *
from .prove import Z

ONE = Fraction(1)


class Canon:
    def __init__(self, cap=4000, ctx=None):
        self.ctx = ctx          # enables the inverse-function rules
        self.memo = {}
        self.pm = {}
        self.cap = cap
        self.rules = {}         # inverse atom -> (lead monomial, lead coef, tail poly)

    # ---- monomials: tuple of (atom, exponent>0) sorted by id; polys: dict
    @staticmethod
    def mmul(a, b):
        d = dict(a)
        for k, v in b:
            d[k] = d.get(k, 0) + v
        return tuple(sorted(d.items(), key=lambda t: t[0].id))

    @staticmethod
    def okey(m):
        return (sum(v for _, v in m), tuple((a.id, v) for a, v in m))

    def mul(self, p, q):
        if len(p) * len(q) > self.cap * 4:
            raise OverflowError
        r = {}
        for k, v in p.items():
            for l, w in q.items():
                m = self.mmul(k, l)
                r[m] = r.get(m, 0) + v * w
        return self.reduce({k: v for k, v in r.items() if v})

    @staticmethod
    def add(p, q, c=ONE):
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0) + c * v
            if not r[k]:
                del r[k]
        return r

    def step(self, m):
        """one rewrite of a monomial: poly or None"""
        d = dict(m)
        for at, ex in m:
            if at.op == 'fn' and ex >= 2 and at.a[0] in ('sqrt', 'sin', 'cosh'):
                if at.a[0] == 'sqrt':
                    q = self.poly(at.a[1])
                elif at.a[0] == 'cosh':
                    c = mk('fn', ('sinh', at.a[1]), 'R')
                    q = {(): ONE, ((c, 2),): ONE}
                else:
                    c = mk('fn', ('cos', at.a[1]), 'R')
                    q = {(): ONE, ((c, 2),): -ONE}
                d[at] -= 2
                return tuple((k, v) for k, v in m2(d)), q
            if at.op == 'fn' and ex >= 3 and at.a[0] == 'cbrt':
                d[at] -= 3
                return tuple((k, v) for k, v in m2(d)), self.poly(at.a[1])
            if at in self.rules:
                lead, lc, tail = self.rules[at]
                if all(d.get(k, 0) >= v for k, v in lead):
                    for k, v in lead:
                        d[k] -= v
                    rest = dict(d)
                    rest[at] -= 1
                    q = {(): 1 / lc}
                    for k, v in tail.items():
                        k2 = self.mmul(k, ((at, 1),))
                        q[k2] = q.get(k2, 0) - v / lc
                    return tuple(m2(rest)), q
        return None

    def reduce(self, p):
        out = {}
        work = dict(p)
        n = 0
        while work:
            m, c = work.popitem()
            if not c:
                continue
            s = self.step(m)
            if s is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            n += 1
            if n > 40 * self.cap or len(work) > 4 * self.cap:
                raise OverflowError
            rest, q = s
            for k, v in q.items():
                k2 = self.mmul(k, rest)
                v2 = work.get(k2, 0) + v * c
                if v2:
                    work[k2] = v2
                else:
                    work.pop(k2, None)
        if len(out) > self.cap:
            raise OverflowError
        return out

    def inv(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): 1 / c}
            for at, ex in m:
                for _ in range(ex):
                    r = self.mul(r, self.inv1(at))
            return r
        # monomial content
        lead = max(p, key=self.okey)
        lc = p[lead]
        com = dict(lead)
        for m in p:
            d = dict(m)
            com = {k: min(v, d.get(k, 0)) for k, v in com.items() if d.get(k, 0)}
        cm = tuple(m2(com))
        q = {}
        for m, c in p.items():
            d = dict(m)
            for k, v in cm:
                d[k] -= v
            q[tuple(m2(d))] = c / lc
        qe = self.build(q)
        at = mk('/', (R1, qe), 'R')
        if at not in self.rules:
            l2 = max(q, key=self.okey)
            t = dict(q)
            c2 = t.pop(l2)
            self.rules[at] = (l2, c2, t)
        r = {((at, 1),): 1 / lc}
        if cm:
            r = self.mul(r, self.inv({cm: ONE}))
        return self.reduce(r)

    def inv1(self, at):
        if at.op == 'fn' and at.a[0] == 'sqrt':
            return self.mul({((at, 1),): ONE}, self.inv(self.poly(at.a[1])))
        if at.op == '/' and at in self.rules:
            return self.poly(at.a[1])
        r = mk('/', (R1, at), 'R')
        if r not in self.rules:
            self.rules[r] = (((at, 1),), ONE, {})
        return {((r, 1),): ONE}

    def poly(self, e):
        r = self.pm.get(e)
        if r is not None:
            return r
        op, a = e.op, e.a
        if op == 'rc':
            r = {(): a[0]} if a[0] else {}
        elif op == '+':
            r = {}
            st = [e]
            while st:
                x = st.pop()
                if x.op == '+' and x not in self.pm:
                    st += [x.a[0], x.a[1]]
                else:
                    r = self.add(r, self.poly(x))
        elif op == '*':
            r = self.mul(self.poly(a[0]), self.poly(a[1]))
        elif op == '/':
            r = self.mul(self.poly(a[0]), self.inv(self.poly(a[1])))
        elif op == 'fn' and a[0] == 'pow' and rconst(a[2]) is not None and rconst(a[2]).denominator == 1 and 0 <= rconst(a[2]) <= 8:
            r = {(): ONE}
            q = self.poly(a[1])
            for _ in range(int(rconst(a[2]))):
                r = self.mul(r, q)
        elif op == 'ite':
            c = self.go(a[0])
            x, y = self.poly(a[1]), self.poly(a[2])
            if x == y:
                r = x
            else:
                r = self.atom(ite(c, self.build(x), self.build(y)))
        elif op == 'i2r' and any(k.op == 'ite' for k, v in a[0].a[1]):
            c, ts = a[0].a
            r = {(): Fraction(c)} if c else {}
            for k, v in ts:
                q = i2r(at_lin(k)) if k.op != 'ite' else ite(k.a[0], i2r(k.a[1]), i2r(k.a[2]))
                r = self.add(r, self.poly(q), Fraction(v))
        else:
            f = None
            if op == 'fn' and self.ctx is not None:
                f = self.trig(e)
            if f is None:
                f = rebuild(e, self.go) if op in ('fn', 'sum', 'fold') else e
            r = self.poly(f) if f.op in ('+', '*', '/') or f is not e and f in self.pm else self.atom(f)
        self.pm[e] = r
        return r

    # ---- inverse functions
    def trig(self, e):
        n = e.a[0]
        if n == 'sqrt' and e.a[1].op == '/' and self.positive(e.a[1].a[1]):
            return rdiv(rfn('sqrt', e.a[1].a[0]), rfn('sqrt', e.a[1].a[1]))
        if n == 'tan':
            return rdiv(rfn('sin', e.a[1]), rfn('cos', e.a[1]))
        if n == 'pow' and rconst(e.a[2]) is not None and abs(rconst(e.a[2]) - Fraction(1, 3)) < Fraction(1, 10 ** 16):
            return self.go(rfn('cbrt', e.a[1]))
        if n in ('sin', 'cos'):
            p = self.poly(e.a[1])
            if len(p) == 1:
                (m, k), = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].a[0] == 'acos' and abs(k) == 1:
                    x = m[0][0].a[1]
                    return x if n == 'cos' else rmul(R(k), rfn('sqrt', rsub(R1, rmul(x, x))))
        if n == 'tanh':
            return rdiv(rfn('sinh', e.a[1]), rfn('cosh', e.a[1]))
        if n == 'atan':
            return self.go(rfn('atan2', e.a[1], R1))
        xs = [self.go(x) for x in e.a[1:]]
        f = None
        if n in ('sin', 'cos') and xs[0].op == 'fn' and xs[0].a[0] == 'atan2':
            y, x = xs[0].a[1:]
            h = rfn('sqrt', radd(rmul(x, x), rmul(y, y)))
            f = rdiv(y if n == 'sin' else x, h)
        elif n in ('sinh', 'cosh') and xs[0].op == 'fn' and xs[0].a[0] == 'atanh':
            p = xs[0].a[1]
            h = rfn('sqrt', rsub(R1, rmul(p, p)))
            f = rdiv(p if n == 'sinh' else R1, h)
        elif n == 'atan2':
            p, q = self.poly(xs[0]), self.poly(xs[1])
            for a in sorted(fnargs(xs[0], ('sin',)), key=lambda t: t.id):
                s, c = self.poly(rfn('sin', a)), self.poly(rfn('cos', a))
                if self.add(self.mul(p, c), self.mul(q, s), -ONE):
                    continue
                k = self.add(self.mul(q, c), self.mul(p, s))
                pi = R(Fraction(3.141592653589793))
                if self.pospoly(k) and self.ctx.entails(rle(a, pi), real=2000) and self.ctx.entails(rlt(rneg(pi), a), real=2000):
                    return a
        elif n == 'atanh':
            p = self.poly(xs[0])
            for a in sorted(fnargs(xs[0], ('sinh',)), key=lambda t: t.id):
                s, c = self.poly(rfn('sinh', a)), self.poly(rfn('cosh', a))
                if not self.add(self.mul(p, c), s, -ONE):
                    return a
        return f

    def positive(self, e):
        from .prove import sign
        if e.op == 'fn' and e.a[0] == 'sqrt':
            return self.positive(e.a[1])
        if e.op == '/' and e.a[0] is R1:
            return self.positive(e.a[1])
        return sign(e, self.ctx) == 2 or self.ctx.entails(rlt(R0, e), real=2000)

    def pospoly(self, p):
        if len(p) != 1:
            return self.positive(self.build(p))
        (m, c), = p.items()
        sg = 1 if c > 0 else -1
        sq = [at.a[1] for at, ex in m if at.op == 'fn' and at.a[0] == 'sqrt']
        iv = [at.a[1] for at, ex in m if at.op == '/']
        for at, ex in m:
            if ex % 2 == 0 or self.positive(at):
                continue
            if at.op == '/':
                # the radicand of a square root that is divided by is positive
                r = [self.ratio(x, at.a[1]) for x in sq]
                r = [x for x in r if x]
                if r:
                    sg *= 1 if r[0] > 0 else -1
                    continue
                if self.positive(rneg(at.a[1])):
                    sg = -sg
                    continue
            if at.op == 'fn' and at.a[0] == 'sqrt' and any(self.ratio(at.a[1], q) for q in iv):
                continue
            return False
        return sg > 0

    def ratio(self, x, q):
        """x = c q with a constant c"""
        a, b = self.poly(x), self.poly(q)
        if set(a) != set(b) or not a:
            return None
        m = next(iter(a))
        r = a[m] / b[m]
        return r if all(a[k] == r * b[k] for k in a) else None

    def atom(self, f):
        if f.op == 'rc':
            return {(): f.a[0]} if f.a[0] else {}
        if f.op == 'fn' and f.a[0] == 'sqrt':
            p = self.poly(f.a[1])
            # content: rational square, even powers are not extracted (sign)
            lead = max(p, key=self.okey) if p else None
        return {((f, 1),): ONE} if f.op not in ('+', '*') else self.poly(f)

    def build(self, p):
        r = R0
        for m in sorted(p, key=self.okey):
            t = R1
            for at, ex in m:
                for _ in range(ex):
                    t = rmul(t, at)
            r = radd(r, rmul(R(p[m]), t))
        return r

    def go(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        op, a = e.op, e.a
        try:
            if op in ('rlt', 'rle', 'req'):
                p = self.add(self.poly(a[1]), self.poly(a[0]), -ONE)
                if p:
                    l = p[max(p, key=self.okey)]
                    s = 1 / l if op == 'req' else 1 / abs(l)
                    p = {k: v * s for k, v in p.items()}
                x = self.build(p)
                r = {'rlt': rlt, 'rle': rle, 'req': req}[op](R0, x)
            elif e.sort == 'R' and op in ('+', '*', '/', 'fn', 'ite', 'rc', 'sum', 'fold'):
                r = self.build(self.poly(e))
            elif op in ('and', 'or', 'not', 'ite'):
                r = rebuild(e, self.go)
            else:
                r = e
        except (OverflowError, ZeroDivisionError):
            r = rebuild(e, self.go) if op not in ('rd', 'rvar') else e
        self.memo[e] = r
        return r


def fnargs(e, names):
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'fn' and x.a[0] in names:
            out.add(x.a[1])
        for y in x.a:
            if isinstance(y, E):
                go(y)
    go(e)
    return out


class Abs(Z):
    """linear abstraction for z3: every monic polynomial without constant term
    becomes a variable, functions are uninterpreted, ites are kept"""

    def __init__(self, cn):
        Z.__init__(self)
        self.cn = cn
        self.v = {}
        self.ax = []
        self.fns = set()

    def real(self, e):
        return self.poly(self.cn.poly(e))

    def lift(self, m):
        """monomial -> (ite atom, rest) or None"""
        for at, ex in m:
            if at.op == 'ite':
                d = dict(m)
                d[at] -= 1
                return at, tuple(m2(d))
        return None

    def poly(self, p):
        out = z3.RealVal(0)
        rest = {}
        for m, c in p.items():
            if not m:
                out = out + z3.Q(c.numerator, c.denominator)
                continue
            l = self.lift(m)
            if l is not None:
                at, r = l
                cc = self.b(at.a[0])
                x = self.poly(self.cn.mul(self.cn.poly(at.a[1]), {r: c}))
                y = self.poly(self.cn.mul(self.cn.poly(at.a[2]), {r: c}))
                out = out + z3.If(cc, x, y)
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].a[0] != 'sqrt':
                out = out + z3.Q(c.numerator, c.denominator) * self.fn(m[0][0])
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'i2r':
                out = out + z3.Q(c.numerator, c.denominator) * z3.ToReal(self.i(m[0][0].a[0]))
                continue
            rest[m] = c
        if rest:
            l = rest[max(rest, key=self.cn.okey)]
            key = frozenset((m, c / l) for m, c in rest.items())
            v = self.v.get(key)
            if v is None:
                v = self.v[key] = z3.Real('q%d' % len(self.v))
                if len(rest) == 1:
                    (m, c), = rest.items()
                    if all(ex % 2 == 0 or (at.op == 'fn' and at.a[0] in ('sqrt', 'abs', 'exp')) for at, ex in m):
                        self.ax.append(v >= 0)
                    if len(m) == 1 and m[0][0].op == 'fn' and m[0][0].a[0] == 'sqrt':
                        self.ax.append((v == 0) == (self.real(m[0][0].a[1]) <= 0))
            out = out + z3.Q(l.numerator, l.denominator) * v
        return out

    def fn(self, e):
        f = z3.Function('f_' + e.a[0], *([z3.RealSort()] * len(e.a)))
        if e.a[0] not in self.fns and len(e.a) == 2:
            self.fns.add(e.a[0])
            for c in (-1, 0, 1):
                v = rconst(rfn(e.a[0], R(c)))
                if v is not None:
                    self.ax.append(f(z3.RealVal(c)) == z3.Q(v.numerator, v.denominator))
        return f(*[self.real(x) for x in e.a[1:]])

    r = real


def prove_abs(facts, goal, cn, timeout=20000):
    try:
        A = Abs(cn)
        fs = [A.b(f) for f in facts]
        g = A.b(goal)
        A.ax += A.side
    except (OverflowError, ZeroDivisionError):
        return False
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*fs)
    s.add(*A.ax)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def m2(d):
    return sorted(((k, v) for k, v in d.items() if v), key=lambda t: t[0].id)
