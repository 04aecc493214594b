"""Decision procedures.

 * linear integer / boolean facts: z3 (library), quantifier free
 * real equalities: own ring normaliser (exact rational arithmetic, s^2 = q for
   s = sqrt q, sin^2 = 1-cos^2, linear algebra of finite sums)
 * real inequalities: z3 nlsat on the normalised atoms
"""
from fractions import Fraction
import time
import z3
from .expr import *

STATS = {'ring': 0, 'lia': 0, 'nra': 0, 'syntactic': 0, 'solver_s': 0.0}
COEF_TOL = Fraction(1, 10 ** 11)


class Undecided(Exception):
    pass


class Budget(Exception):
    """ran out of the time given to one obligation"""


DEADLINE = [None]


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Budget()


# --------------------------------------------------------------- z3 encoding
class Z:
    """translation of terms to z3; real atoms become fresh reals"""

    def __init__(self):
        self.m = {}
        self.side = []
        self.keep = []      # keep z3 objects alive

    def i(self, e):
        if e in self.m:
            return self.m[e]
        op, a = e.op, e.a
        if op == 'lin':
            r = z3.IntVal(a[0])
            for k, v in a[1]:
                x = self.i(k)
                r = r + (x if v == 1 else x * v)
        elif op == 'ivar':
            r = z3.Int(a[0])
        elif op == 'ite':
            r = z3.If(self.b(a[0]), self.i(a[1]), self.i(a[2]))
        elif op == 'ird':
            f = z3.Function('ird_' + a[0], z3.IntSort(), z3.IntSort())
            r = f(self.i(a[1]))
        elif op == 'idiv':
            y = iconst(a[1])
            if y and y > 0:
                x = self.i(a[0])
                r = z3.If(x >= 0, x / y, -((-x) / y))
            else:
                r = z3.Int('idiv_%d' % e.id)
        elif op == 'irem':
            y = iconst(a[1])
            if y and y > 0:
                x = self.i(a[0])
                r = z3.If(x >= 0, x % y, -((-x) % y))
            else:
                r = z3.Int('irem_%d' % e.id)
        else:
            r = z3.Int('iat_%d' % e.id)
            if op == 'u2i':
                pass
        self.m[e] = r
        return r

    def b(self, e):
        if e in self.m:
            return self.m[e]
        op, a = e.op, e.a
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'le0':
            r = self.i(a[0]) <= 0
        elif op == 'eq0':
            r = self.i(a[0]) == 0
        elif op == 'not':
            r = z3.Not(self.b(a[0]))
        elif op == 'and':
            r = z3.And(*[self.b(x) for x in a])
        elif op == 'or':
            r = z3.Or(*[self.b(x) for x in a])
        elif op == 'req':
            r = self.r(a[0]) == self.r(a[1])
        elif op == 'rlt':
            r = self.r(a[0]) < self.r(a[1])
        elif op == 'rle':
            r = self.r(a[0]) <= self.r(a[1])
        elif op == 'bvar':
            r = z3.Bool(a[0])
        elif op == 'ite':
            r = z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        else:
            r = z3.Bool('bat_%d' % e.id)
        self.m[e] = r
        return r

    def r(self, e):
        if e in self.m:
            return self.m[e]
        op, a = e.op, e.a
        if op == 'rc':
            r = z3.RealVal(str(a[0]))
        elif op == 'rvar':
            r = z3.Real(a[0])
        elif op == '+':
            r = self.r(a[0]) + self.r(a[1])
        elif op == '*':
            r = self.r(a[0]) * self.r(a[1])
        elif op == '/':
            n, d = self.r(a[0]), self.r(a[1])
            r = z3.Real('div_%d' % e.id)
            self.side.append(z3.Implies(d != 0, r * d == n))
        elif op == 'ite':
            r = z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
        elif op == 'i2r':
            r = z3.ToReal(self.i(a[0]))
        elif op == 'fn':
            r = z3.Real('fn_%s_%d' % (a[0], e.id))
            if a[0] == 'sqrt':
                x = self.r(a[1])
                self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            elif a[0] == 'abs':
                x = self.r(a[1])
                r = z3.If(x >= 0, x, -x)
            elif a[0] == 'exp':
                self.side.append(r > 0)
            elif a[0] == 'pow':
                x = self.r(a[1])
                y = self.r(a[2])
                self.side.append(z3.Implies(x > 0, r > 0))
                self.side.append(z3.Implies(z3.And(x >= 1, y >= 0), r >= 1))
                self.side.append(z3.Implies(z3.And(x > 0, x <= 1, y >= 0), r <= 1))
                self.side.append(z3.Implies(z3.And(x >= 1, y <= 0), r <= 1))
                self.side.append(z3.Implies(z3.And(x > 0, x <= 1, y <= 0), r >= 1))
            elif a[0] in ('sin', 'cos'):
                self.side.append(z3.And(r >= -1, r <= 1))
            elif a[0] == 'sinh':
                x = self.r(a[1])
                self.side.append(z3.Implies(x >= 0, 6 * r >= 6 * x + x * x * x))
                self.side.append(z3.Implies(x <= 0, 6 * r <= 6 * x + x * x * x))
            elif a[0] == 'acos':
                self.side.append(z3.And(r >= 0, r <= z3.RealVal('3.1415926536')))
            elif a[0] == 'cbrt':
                x = self.r(a[1])
                self.side.append(r * r * r == x)
                self.side.append((r >= 0) == (x >= 0))
        elif op == 'rd':
            f = z3.Function('rd_' + a[0], z3.IntSort(), z3.RealSort())
            r = f(self.i(a[1]))
        else:
            r = z3.Real('rat_%d' % e.id)
        self.m[e] = r
        return r


def z3_unsat(facts, timeout_ms=4000, want_model=False):
    """True: facts unsatisfiable. False: satisfiable. None: unknown"""
    t0 = time.time()
    zz = Z()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    cs = [zz.b(f) for f in facts]
    for c in cs:
        s.add(c)
    for c in zz.side:
        s.add(c)
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    if r == z3.unsat:
        return (True, None, zz) if want_model else True
    if r == z3.sat:
        return (False, s.model(), zz) if want_model else False
    return (None, None, zz) if want_model else None


_int_only = {}


def int_only(e):
    """boolean term without real atoms"""
    r = _int_only.get(e)
    if r is None:
        r = not contains(e, lambda x: x.sort == 'R' or (x.sort == 'U'))
        _int_only[e] = r
    return r


_IP = {}


def int_part(f):
    """weakening of a fact to what it says about integers"""
    if int_only(f):
        return f
    r = _IP.get(f)
    if r is None:
        if f.op == 'and':
            r = band(*[int_part(x) for x in f.a])
        elif f.op == 'or':
            r = bor(*[int_part(x) for x in f.a])
        else:
            r = TRUE
        _IP[f] = r
    return r


class Ctx:
    """a conjunction of facts; answers entailment queries (cached)"""

    def __init__(self, facts=(), parent=None):
        self.facts = []
        for f in facts:
            for g in (f.a if f.op == 'and' else (f,)):
                if g is not TRUE and g not in self.facts:
                    self.facts.append(g)
        self.set = set(self.facts)
        i = 0
        while i < len(self.facts):      # unit propagation
            f = self.facts[i]
            i += 1
            if f.op != 'or':
                continue
            left = [x for x in f.a if bnot(x) not in self.set]
            if len(left) == 1:
                for g in (left[0].a if left[0].op == 'and' else left):
                    if g not in self.set:
                        self.facts.append(g)
                        self.set.add(g)
        for f in self.facts:
            if f.op == 'rlt':
                self.set.add(rle(f.a[0], f.a[1]))
        self.cache = {}
        self._int = [f for f in self.facts if int_only(f)]
        for f in self.facts:
            if f.op == 'or' and not int_only(f):
                g = int_part(f)
                if g is not TRUE and g not in self._int:
                    self._int.append(g)
        self.key = frozenset(self._int)
        self._consts = None
        self.signs = {}
        self.bad = FALSE in self.set or any(bnot(f) in self.set for f in self.facts)

    def plus(self, *fs):
        return Ctx(self.facts + list(fs))

    def consts(self):
        """integer variables fixed by an equality among the facts"""
        if self._consts is None:
            self._consts = {}
            for f in self._int:
                if f.op == 'eq0' and f.a[0].op == 'lin' and len(f.a[0].a[1]) == 1:
                    (k, v), = f.a[0].a[1]
                    if k.op == 'ivar' and f.a[0].a[0] % v == 0:
                        self._consts[k] = I(-(f.a[0].a[0] // v))
        return self._consts

    def _relevant(self, c):
        return self._int

    _GC = {}

    def entails(self, c, real=False):
        """True if facts |= c (False means: not shown)"""
        if c is TRUE or self.bad:
            return True
        if c is FALSE:
            return self.unsat()
        if c in self.set:
            return True
        if c.op == 'and':
            return all(self.entails(x, real) for x in c.a)
        if c.op == 'or' and any(x in self.set for x in c.a):
            return True
        k = (c, real)
        if k in self.cache:
            return self.cache[k]
        if int_only(c):
            gk = (self.key, c)
            r = Ctx._GC.get(gk)
            if r is None:
                fs = self._extra(c)
                r = z3_unsat(self._int + fs + [bnot(c)]) is True
                STATS['lia'] += 1
                Ctx._GC[gk] = r
        else:
            r = False
            if bnot(c) in self.set:
                r = False
            elif real:
                STATS['nra'] += 1
                r = z3_unsat(self.facts + self._extra(c) + [bnot(c)], 8000 if real is True else real) is True
        self.cache[k] = r
        return r

    def _extra(self, c):
        return axioms_for(self._int + [c])

    def unsat(self):
        if self.bad:
            return True
        k = ('unsat',)
        if k not in self.cache:
            gk = (self.key, FALSE)
            r = Ctx._GC.get(gk)
            if r is None:
                r = z3_unsat(self._int + axioms_for(self._int)) is True
                Ctx._GC[gk] = r
            self.cache[k] = r
        return self.cache[k]

    def unsat_real(self, timeout=8000):
        if self.unsat():
            return True
        return z3_unsat(self.facts + axioms_for(self.facts), timeout) is True


# axioms about integer arrays: range / injectivity, instantiated on the index
# terms that occur.  AX maps array name -> function(list of index terms)->facts
AX = {}


def ird_terms(es):
    out = {}
    st = list(es)
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ird':
            out.setdefault(x.a[0], set()).add(x.a[1])
        if x.op == 'lin':
            st += [k for k, _ in x.a[1]]
        else:
            st += [y for y in x.a if isinstance(y, E)]
    return out


def axioms_for(es):
    out = []
    done = set()
    for _ in range(3):
        new = []
        for name, idxs in ird_terms(list(es) + out).items():
            if name in AX:
                key = (name, frozenset(idxs))
                if key in done:
                    continue
                done.add(key)
                new += AX[name](sorted(idxs, key=lambda e: e.id))
        new = [f for f in new if f is not TRUE]
        if not new:
            break
        out += new
    return out


# --------------------------------------------------------------- simplify
def simp(e, ctx, memo=None):
    """resolve conditions that ctx decides"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        tick()
        if x.op == 'ite':
            c = go(x.a[0])
            if c is TRUE or ctx.entails(c):
                r = go(x.a[1])
            elif c is FALSE or ctx.entails(bnot(c)):
                r = go(x.a[2])
            else:
                r = ite(c, go(x.a[1]), go(x.a[2]))
                if r.op == 'ite' and r.a[0].op == 'rlt' and {r.a[1], r.a[2]} == set(r.a[0].a):
                    lo, hi = r.a[0].a
                    if rle(lo, hi) in ctx.set:
                        r = r.a[1]
                    elif rle(hi, lo) in ctx.set:
                        r = r.a[2]
        elif x.op in ('le0', 'eq0', 'req', 'rlt', 'rle', 'bvar'):
            y = rebuild(x, go)
            if y is not TRUE and y is not FALSE:
                if ctx.entails(y):
                    y = TRUE
                elif ctx.entails(bnot(y)):
                    y = FALSE
                elif x.op in ('req', 'rlt', 'rle') and y.op == x.op:
                    up, dn = [q if p is R0 else R0 if p is q else rsub(q, p) for p, q in (y.a, (y.a[1], y.a[0]))]
                    u, v = sign(up, ctx), sign(dn, ctx)
                    if u == 2 or v == 2:
                        y = B(u == 2 and x.op != 'req')
                    elif (u and x.op == 'rle'):
                        y = TRUE
                    elif (v and x.op == 'rlt'):
                        y = FALSE
            r = y
        elif x.op == 'sum':
            bv, hi, body = x.a
            hi = go(hi)
            k = at_lin(bv)
            c2 = ctx.plus(ile(I(0), k), ilt(k, hi))
            if ctx.entails(ile(hi, I(0))):
                r = R0
            elif c2.unsat():
                r = R0
            elif iconst(hi) is None and len(fv(hi)) and ctx.entails(ile(hi, I(2))):
                v = 1 if ctx.entails(ile(hi, I(1))) else 2
                if ctx.entails(ile(I(v), hi)):
                    r = R0
                    for q in range(v):
                        r = radd(r, simp(subst(body, {bv: I(q)}), ctx))
                else:
                    r = rsum(bv, I(0), hi, simp(body, c2))
            else:
                r = rsum(bv, I(0), hi, simp(body, c2))
        elif x.op == 'fold':
            kind, bv, hi, body, init = x.a
            hi = go(hi)
            k = at_lin(bv)
            c2 = ctx.plus(ile(I(0), k), ilt(k, hi))
            if ctx.entails(ile(hi, I(0))):
                r = go(init)
            else:
                r = rfold(kind, bv, hi, simp(body, c2), go(init))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    m = ctx.consts()
    if m:
        ks = set(m)
        if fv(e) & ks:
            e = subst(e, m)
    return go(e)


def find_ite(e):
    """an undecided condition outside sums (None if none)"""
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            c = x.a[0]
            inner = find_ite(c)
            if inner is not None:
                return inner
            while c.op in ('and', 'or'):
                c = c.a[0]
            if c.op == 'not':
                c = c.a[0]
            return c
        if x.op == 'lin':
            st += [k for k, _ in x.a[1]]
        elif x.op in ('sum', 'fold'):
            st.append(x.a[1] if x.op == 'sum' else x.a[2])
            if x.op == 'fold':
                st.append(x.a[4])
        else:
            st += [y for y in x.a if isinstance(y, E)]
    return None


# --------------------------------------------------------------- polynomials
# poly: dict mono -> Fraction ; mono: tuple((atom E, exp),...) sorted by id
class P:
    __slots__ = ('d', 'm')

    def __init__(self, d, m=None):
        self.d = d          # coefficients
        self.m = m          # magnitude (sum of |terms|) or None -> |coef|

    def mag(self, k):
        if self.m is None:
            return abs(self.d[k])
        return self.m.get(k, abs(self.d.get(k, 0)))


def p_const(c):
    return P({(): c} if c else {})


def p_atom(a):
    return P({((a, 1),): Fraction(1)})


def p_add(x, y):
    d = dict(x.d)
    m = dict(x.m) if x.m is not None else None
    for k, v in y.d.items():
        o = d.get(k)
        if o is None:
            d[k] = v
            if m is not None or y.m is not None:
                if m is None:
                    m = {}
                m[k] = y.mag(k)
        else:
            if m is None:
                m = {}
            mg = (m[k] if k in m else abs(o)) + y.mag(k)
            s = o + v
            if s == 0:
                del d[k]
                m[k] = mg
            else:
                d[k] = s
                m[k] = mg
    # keep magnitudes of cancelled monomials of y too
    if y.m is not None:
        for k, v in y.m.items():
            if k not in y.d:
                if m is None:
                    m = {}
                m[k] = (m[k] if k in m else abs(d.get(k, 0))) + v
    return P(d, m)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted(d.items(), key=lambda kv: kv[0].id))


MAXTERMS = 400000


def p_mul(x, y):
    if len(x.d) > len(y.d):
        x, y = y, x
    if len(x.d) * len(y.d) > MAXTERMS:
        raise Undecided('polynomial too large')
    tick()
    d = {}
    m = {}
    plain = x.m is None and y.m is None
    for k1, v1 in x.d.items():
        for k2, v2 in y.d.items():
            k = mono_mul(k1, k2)
            v = v1 * v2
            mg = abs(v) if plain else x.mag(k1) * y.mag(k2)
            if k in d:
                d[k] += v
                m[k] += mg
            else:
                d[k] = v
                m[k] = mg
    dd = {k: v for k, v in d.items() if v != 0}
    # only keep magnitudes that differ
    mm = {k: m[k] for k in m if k not in dd or m[k] != abs(dd[k])}
    return P(dd, mm or None)


def p_scale(x, c):
    if c == 0:
        return P({})
    return P({k: v * c for k, v in x.d.items()}, {k: v * abs(c) for k, v in x.m.items()} if x.m else None)


def p_pow(x, n):
    r = p_const(Fraction(1))
    for _ in range(n):
        r = p_mul(r, x)
    return r


def p_zero(x):
    """zero up to rounding of literal constants"""
    for k, v in x.d.items():
        if abs(v) > COEF_TOL * max(x.mag(k), abs(v)):
            return False
    return True


def p_exact_zero(x):
    return not x.d


class Norm:
    """rational normal form under a context (no ites outside sums)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.atoms = {}         # canonical representatives: kind -> list of (key exprs, atom)
        self.depth = 0

    def nf(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        op, a = e.op, e.a
        one = p_const(Fraction(1))
        if op == 'rc':
            r = (p_const(a[0]), one)
        elif op == '+':
            # flatten
            terms = []
            st = [e]
            while st:
                x = st.pop()
                if x.op == '+':
                    st += [x.a[0], x.a[1]]
                else:
                    terms.append(x)
            groups = []
            for t in terms:
                n, d = self.nf(t)
                for g in groups:
                    if g[1].d == d.d:
                        g[0] = p_add(g[0], n)
                        break
                else:
                    groups.append([n, d])
            n, d = groups[0]
            for n2, d2 in groups[1:]:
                n, d = self.addq(n, d, n2, d2)
            r = (n, d)
        elif op == '*':
            n1, d1 = self.nf(a[0])
            n2, d2 = self.nf(a[1])
            r = self.red(p_mul(n1, n2), p_mul(d1, d2))
        elif op == '/':
            n1, d1 = self.nf(a[0])
            n2, d2 = self.nf(a[1])
            r = self.red(p_mul(n1, d2), p_mul(d1, n2))
        elif op == 'fn' and a[0] == 'abs':
            x = a[1]
            if self.ctx.entails(rle(R0, x), real=2000):
                r = self.nf(x)
            elif self.ctx.entails(rle(x, R0), real=2000):
                n, d = self.nf(x)
                r = (p_scale(n, Fraction(-1)), d)
            else:
                r = (p_atom(self.canon(e)), one)
        elif op == 'fn' and a[0] == 'pow' and rconst(a[2]) is not None and rconst(a[2]).denominator == 1 \
                and 0 <= rconst(a[2]) <= 12:
            n, d = self.nf(a[1])
            k = int(rconst(a[2]))
            r = (p_pow(n, k), p_pow(d, k))
        elif op == 'fn' or op == 'rd' or op == 'i2r':
            r = (p_atom(self.canon(e)), one)
        elif op == 'rvar':
            r = (p_atom(e), one)
        elif op == 'sum':
            r = self.nf_sum(e)
        elif op == 'fold':
            r = (p_atom(self.canon(e)), one)
        else:
            r = (p_atom(e), one)
        self.memo[e] = r
        return r

    def addq(self, n, d, n2, d2):
        # cheap lcm: monomial denominators
        if len(d.d) == 1 and len(d2.d) == 1:
            (k1, c1), = d.d.items()
            (k2, c2), = d2.d.items()
            m1, m2 = dict(k1), dict(k2)
            l = dict(m1)
            for k, v in m2.items():
                l[k] = max(l.get(k, 0), v)
            q1 = tuple(sorted(((k, v - m1.get(k, 0)) for k, v in l.items() if v > m1.get(k, 0)), key=lambda t: t[0].id))
            q2 = tuple(sorted(((k, v - m2.get(k, 0)) for k, v in l.items() if v > m2.get(k, 0)), key=lambda t: t[0].id))
            lk = tuple(sorted(l.items(), key=lambda t: t[0].id))
            a = p_mul(n, P({q1: 1 / c1}))
            b = p_mul(n2, P({q2: 1 / c2}))
            return p_add(a, b), P({lk: Fraction(1)})
        return p_add(p_mul(n, d2), p_mul(n2, d)), p_mul(d, d2)

    def red(self, n, d):
        """cancel common monomial factors"""
        if not d.d or (len(d.d) > 1 and not self.reduce(d).d):
            raise Undecided('denominator is identically zero')
        if len(d.d) == 1 and n.d:
            (k, c), = d.d.items()
            if k:
                common = dict(k)
                for mk_ in n.d:
                    mm = dict(mk_)
                    for x in list(common):
                        v = min(common[x], mm.get(x, 0))
                        if v:
                            common[x] = v
                        else:
                            del common[x]
                    if not common:
                        break
                if common:
                    def sub(t):
                        t = dict(t)
                        for x, v in common.items():
                            t[x] -= v
                        return tuple(sorted(((x, v) for x, v in t.items() if v), key=lambda q: q[0].id))
                    n = P({sub(t): v for t, v in n.d.items()},
                          {sub(t): v for t, v in n.m.items() if all(dict(t).get(x, 0) >= v2 for x, v2 in common.items())}
                          if n.m else None)
                    d = P({sub(k): c})
        elif n.d == d.d and n.d:
            return p_const(Fraction(1)), p_const(Fraction(1))
        return n, d

    def reduce(self, p):
        """apply s^2=q for polynomial q and sin^2 = 1-cos^2"""
        changed = True
        while changed:
            changed = False
            for k in list(p.d):
                for at, ex in k:
                    if ex >= 2 and at.op == 'fn' and at.a[0] in ('sqrt', 'sin'):
                        if at.a[0] == 'sqrt':
                            n, d = self.nf(at.a[1])
                            if not (len(d.d) == 1 and () in d.d):
                                continue
                            q = p_scale(n, 1 / d.d[()])
                        else:
                            cs = self.canon(mk('fn', ('cos', at.a[1]), 'R'))
                            q = p_add(p_const(Fraction(1)), p_scale(p_mul(p_atom(cs), p_atom(cs)), Fraction(-1)))
                        out = {}
                        rest = P({}, p.m)
                        acc = None
                        keep = {}
                        for k2, v2 in p.d.items():
                            dd = dict(k2)
                            x = dd.get(at, 0)
                            if x >= 2:
                                del dd[at]
                                if x % 2:
                                    dd[at] = 1
                                km = tuple(sorted(dd.items(), key=lambda t: t[0].id))
                                term = p_mul(P({km: v2}, {km: p.mag(k2)}), p_pow(q, x // 2))
                                acc = term if acc is None else p_add(acc, term)
                            else:
                                keep[k2] = v2
                        p = p_add(P(keep, {k: v for k, v in (p.m or {}).items()} or None), acc)
                        changed = True
                        break
                if changed:
                    break
        return p

    # canonical representative of an atom with real/int arguments
    def canon(self, e):
        key = (e.op, e.a[0] if e.op in ('fn', 'rd', 'fold') else None)
        lst = self.atoms.setdefault(key, [])
        for f in lst:
            if f is e:
                return f
        if e.op == 'fn':
            # inner atoms first (comparisons below then only meet known atoms)
            for x in e.a[1:]:
                if x.sort == 'R':
                    self.nf(x)
            for f in lst:
                if f is e:
                    return f
        for f in lst:
            if self.same(e, f):
                return f
        lst.append(e)
        return e

    def same(self, e, f):
        if e.op == 'rd':
            return self.ctx.entails(ieq(e.a[1], f.a[1]))
        if e.op == 'i2r':
            return self.ctx.entails(ieq(e.a[0], f.a[0]))
        if e.op == 'fn':
            if len(e.a) != len(f.a):
                return False
            return all(self.eq(x, y) for x, y in zip(e.a[1:], f.a[1:]))
        if e.op == 'fold':
            k1, b1, h1, body1, i1 = e.a
            k2, b2, h2, body2, i2 = f.a
            if k1 != k2 or not self.ctx.entails(ieq(h1, h2)):
                return False
            if not self.eq(i1, i2):
                return False
            k = at_lin(b1)
            body2 = subst(body2, {b2: k})
            c2 = self.ctx.plus(ile(I(0), k), ilt(k, h1))
            return prove_eq(body1, body2, c2)
        return False

    def eq(self, x, y):
        if x is y:
            return True
        if x.sort == 'I':
            return self.ctx.entails(ieq(x, y))
        e = rsub(x, y)
        if weak(e)[0] == 0:
            return True
        return self.zero(e)

    def nf_sum(self, e):
        bv, hi, body = e.a
        k = at_lin(bv)
        ctx2 = self.ctx.plus(ile(I(0), k), ilt(k, hi))
        one = p_const(Fraction(1))
        if ctx2.unsat():
            return P({}), one
        body = simp(body, ctx2)
        if find_ite(body) is not None:
            raise Undecided('conditional in sum body: %s' % show(body)[:200])
        n2 = Norm(ctx2)
        try:
            n, d = n2.nf(body)
        except Undecided:
            raise
        # if the denominator does not mention bv, distribute
        def dep(p):
            return any(bv in fv(at) for mono in p.d for at, _ in mono)
        if len(d.d) == 1:
            (dk, dc), = d.d.items()
            din = tuple((x, v) for x, v in dk if bv in fv(x))
            dout = tuple((x, v) for x, v in dk if bv not in fv(x))
            if not din:
                out = P({})
                for mono, c in n.d.items():
                    ins = tuple((x, v) for x, v in mono if bv in fv(x))
                    outs = tuple((x, v) for x, v in mono if bv not in fv(x))
                    if not ins:
                        t = self.nf(i2r(hi))[0]
                    else:
                        b2 = R1
                        for x, v in ins:
                            for _ in range(v):
                                b2 = rmul(b2, x)
                        t = p_atom(self.sum_atom(bv, hi, b2))
                    outs = tuple((self.outer(x), v) for x, v in outs)
                    pm = P({(): c}, {(): n.mag(mono)})
                    for x, v in outs:
                        pm = p_mul(pm, p_pow(p_atom(x), v))
                    out = p_add(out, p_mul(pm, t))
                dd = p_const(dc)
                for x, v in dout:
                    dd = p_mul(dd, p_pow(p_atom(self.outer(x)), v))
                return out, dd
        # pull out k-independent common factor cheaply is not attempted
        return p_atom(self.sum_atom(bv, hi, body)), one

    def outer(self, x):
        if x.op in ('fn', 'rd', 'i2r', 'fold'):
            return self.canon(x)
        return x

    def sum_atom(self, bv, hi, body):
        e = mk('sum', (bv, hi, body), 'R')
        lst = self.atoms.setdefault(('sum', None), [])
        for f in lst:
            if f is e:
                return f
        k = at_lin(bv)
        for f in lst:
            if not self.ctx.entails(ieq(hi, f.a[1])):
                continue
            b2 = subst(f.a[2], {f.a[0]: k})
            c2 = self.ctx.plus(ile(I(0), k), ilt(k, hi))
            try:
                if prove_eq(body, b2, c2):
                    return f
            except Undecided:
                pass
        lst.append(e)
        return e

    def flat(self, e, cap=3000):
        """e as a list of (coef, [factor terms])"""
        out = []

        def go(x, c, fs):
            if len(out) > cap:
                raise Undecided('too many terms')
            if x.op == '+':
                go(x.a[0], c, fs)
                go(x.a[1], c, fs)
            elif x.op == '*':
                p, q = x.a
                if rconst(p) is not None:
                    go(q, c * rconst(p), fs)
                elif rconst(q) is not None:
                    go(p, c * rconst(q), fs)
                elif big(p) and not big(q):
                    go(p, c, fs + [q])
                elif big(q) and not big(p):
                    go(q, c, fs + [p])
                else:
                    out.append((c, fs + [x]))
            else:
                out.append((c, fs + [x]))

        def big(x):
            return contains(x, lambda y: y.op == '/' or y.op == 'sum')
        go(e, Fraction(1), [])
        return out

    def zero(self, e):
        try:
            terms = self.flat(e)
        except Undecided:
            terms = None
        if terms is None or len(terms) == 1:
            n, d = self.nf(e)
            return self.pzero(n)
        if any(f.op == 'sum' for c, fs in terms for f in fs):
            r = self.sum_terms(terms)
            if r is not None:
                return r
        groups = []
        for c, fs in terms:
            n, d = p_const(c), p_const(Fraction(1))
            for f in fs:
                n2, d2 = self.nf(f)
                n, d = p_mul(n, n2), p_mul(d, d2)
            n, d = self.red(n, d)
            if len(d.d) == 1:
                (dk, dc), = d.d.items()
                if dc != 1:
                    n, d = p_scale(n, 1 / dc), P({dk: Fraction(1)})
            for g in groups:
                if g[1].d == d.d:
                    g[0] = p_add(g[0], n)
                    break
            else:
                groups.append([n, d])
        groups = [g for g in groups if not p_zero(g[0])]
        if len(groups) > 1:
            groups = [g for g in groups if not self.pzero(g[0], False)]
        if not groups:
            return True
        n, d = groups[0]
        for n2, d2 in groups[1:]:
            n, d = self.addq(n, d, n2, d2)
        return self.pzero(n)

    def pzero(self, n, sums=True):
        if p_zero(n):
            return True
        n = self.reduce(n)
        if p_zero(n):
            return True
        # clear sqrt-of-quotient atoms
        n = self.clear_sqrt(n)
        if p_zero(n):
            return True
        if not sums and not any(x.op == 'sum' for k in n.d for x, _ in k):
            return False
        # linear in sum atoms: combine sums of equal range
        return self.sums_zero(n)

    def clear_sqrt(self, p):
        for _ in range(20):
            tgt = None
            for k in p.d:
                for at, ex in k:
                    if ex >= 2 and at.op == 'fn' and at.a[0] == 'sqrt':
                        tgt = at
                        break
                if tgt:
                    break
            if tgt is None:
                return p
            n, d = self.nf(tgt.a[1])
            mx = max(dict(k).get(tgt, 0) // 2 for k in p.d)
            acc = P({})
            for k, v in p.d.items():
                dd = dict(k)
                x = dd.pop(tgt, 0)
                if x % 2:
                    dd[tgt] = 1
                km = tuple(sorted(dd.items(), key=lambda t: t[0].id))
                t = p_mul(P({km: v}, {km: p.mag(k)}), p_mul(p_pow(n, x // 2), p_pow(d, mx - x // 2)))
                acc = p_add(acc, t)
            p = self.reduce(acc)
        return p

    def sums_zero(self, n):
        """polynomial linear in sums"""
        terms = []
        for k, v in n.d.items():
            if abs(v) <= COEF_TOL * max(n.mag(k), abs(v)):
                continue
            terms.append((v, [x for x, e in k for _ in range(e)]))
        if not any(f.op == 'sum' for c, fs in terms for f in fs):
            return False
        return bool(self.sum_terms(terms))

    def sum_terms(self, terms):
        """every sum over [a,b) of g is F_g(b)-F_g(a) for the formal
        antidifference F_g; F_g(x+1) = F_g(x)+g(x).  None: not applicable"""
        groups = []     # [x, G(j)]
        rest = R0
        jv = mk('ivar', (fresh_name('j'),), 'I')
        j = at_lin(jv)

        def addg(x, body):
            for g in groups:
                if g[0] is x or self.ctx.entails(ieq(g[0], x)):
                    g[1] = radd(g[1], body)
                    return
            groups.append([x, body])
        for c, fs in terms:
            ss = [f for f in fs if f.op == 'sum']
            t = R(c)
            if not ss:
                for f in fs:
                    t = rmul(t, f)
                rest = radd(rest, t)
                continue
            if len(ss) > 1:
                return None
            sa = ss[0]
            for f in fs:
                if f is not sa:
                    t = rmul(t, f)
            bv, hi, body = sa.a
            if not self.ctx.entails(ile(I(0), hi)):
                if self.ctx.entails(ile(hi, I(0))):
                    continue
                raise NeedCase(ile(hi, I(0)))
            s = sum_shift(bv, body)
            g = rmul(t, subst(body, {bv: isub(j, s)}))
            addg(iadd(s, hi), g)
            addg(s, rneg(g))
        c2 = self.ctx

        def vanish(g):
            try:
                return prove_eq(g, R0, c2)
            except Undecided:
                return False
        live = [g for g in groups if not vanish(g[1])]
        extra = R0
        while live:
            tick()
            # two groups whose positions differ by a constant
            best = None
            for p in range(len(live)):
                for q in range(len(live)):
                    if p != q:
                        d = iconst(isub(live[p][0], live[q][0]))
                        if d is None and self.ctx.entails(ieq(live[p][0], live[q][0])):
                            d = 0
                        if d is not None and 0 <= d <= 40 and (best is None or d < best[0]):
                            best = (d, p, q)
            if best is None:
                return None
            d, p, q = best
            hi_, lo_ = live[p], live[q]
            for i in range(d):
                extra = radd(extra, subst(hi_[1], {jv: iadd(lo_[0], i)}))
            lo_[1] = radd(lo_[1], hi_[1])
            live = [g for g in live if g is not hi_]
            live = [g for g in live if g is not lo_ or not vanish(g[1])]
        return prove_eq(radd(rest, extra), R0, self.ctx)


def sum_shift(bv, body):
    """canonical reference offset of the bound variable in a sum body"""
    best = None
    st = [body]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('rd', 'ird'):
            t = x.a[1]
            for k, v in t.a[1]:
                if k is bv and v > 0:
                    if all(vv % v == 0 for kk, vv in t.a[1]) and not any(bv in fv(kk) for kk, vv in t.a[1] if kk is not bv):
                        s = mk('lin', (t.a[0] // v, tuple((kk, vv // v) for kk, vv in t.a[1] if kk is not bv)), 'I')
                        key = (x.op != 'ird', str(x.a[0]), tuple(sorted((show(kk), vv) for kk, vv in s.a[1])), s.a[0])
                        if best is None or key < best[0]:
                            best = (key, s)
        if x.op == 'lin':
            st += [k for k, _ in x.a[1]]
        else:
            st += [y for y in x.a if isinstance(y, E)]
    return best[1] if best else I(0)


# --------------------------------------------------------------- sums with conditions
def split_sums(e, ctx, depth=0):
    """rewrite sums whose body has integer conditions on the bound variable
    into sums over sub-ranges"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if not contains(x, lambda y: y.op == 'sum'):
            memo[x] = x
            return x
        if x.op == 'sum':
            bv, hi, body = x.a
            k = at_lin(bv)
            c2 = ctx.plus(ile(I(0), k), ilt(k, hi))
            body = split_sums(simp(body, c2), c2, depth + 1)
            r = sum_cases(bv, hi, body, ctx, depth)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(e)


def sum_cases(bv, hi, body, ctx, depth, n=0):
    try:
        return do_sum(bv, hi, body, ctx, depth)
    except NeedCase as nc:
        c = nc.c
        if n > 12 or bv in fv(c):
            raise Undecided('case split on bound variable')
    out = []
    for f in (c, bnot(c)):
        c2 = ctx.plus(f)
        if c2.unsat():
            out.append(R0)
            continue
        k = at_lin(bv)
        b2 = simp(body, c2.plus(ile(I(0), k), ilt(k, hi)))
        out.append(sum_cases(bv, simp(hi, c2), b2, c2, depth, n + 1))
    return ite(c, out[0], out[1])


class NeedCase(Exception):
    def __init__(self, c):
        self.c = c


def solve_bv(c, bv):
    """integer condition c (le0/eq0) linear in bv with unit coefficient:
    returns (kind, bound) with kind in 'le','ge','eq' meaning bv<=bound ..."""
    t = c.a[0]
    co = 0
    rest = {}
    for k, v in t.a[1]:
        if k is bv:
            co = v
        else:
            if bv in fv(k):
                return None
            rest[k] = v
    if co == 0:
        return ('indep', None)
    r = mk('lin', (t.a[0], tuple(sorted(rest.items(), key=lambda kv: kv[0].id))), 'I')
    if abs(co) != 1:
        return None
    if c.op == 'eq0':
        return ('eq', imulc(r, -co))
    if co == 1:
        return ('le', imulc(r, -1))
    return ('ge', r)


def _top_conds(body):
    """an integer condition occurring (outside nested sums) in body"""
    return find_ite(body)


def do_sum(bv, hi, body, ctx, depth):
    tick()
    # distribute over +
    if body.op == '+':
        return radd(do_sum(bv, hi, body.a[0], ctx, depth), do_sum(bv, hi, body.a[1], ctx, depth))
    c = find_ite(body)
    k = at_lin(bv)
    if c is None:
        # swap of nested sums is not attempted
        return rsum(bv, I(0), hi, body)
    if bv not in fv(c):
        raise NeedCase(c)
    if c.op in ('le0', 'eq0'):
        s = solve_bv(c, bv)
        if s is None:
            s = solve_perm(c, bv)
        if s is None:
            # cannot split: keep
            return rsum(bv, I(0), hi, body)
        kind, b = s
        def part(lo_, hi_, c_):
            """sum over [lo_,hi_) with condition value c_ known"""
            if ctx.entails(ile(hi_, lo_)):
                return R0
            cc = ctx.plus(ile(lo_, k), ilt(k, hi_), ile(I(0), k), ilt(k, hi), c if c_ else bnot(c))
            bd = simp(body, cc)
            if bd is R0:
                return R0
            nb = mk('ivar', (fresh_name('k'),), 'I')
            bd = subst(bd, {bv: iadd(at_lin(nb), lo_)})
            ln = isub(hi_, lo_)
            return do_sum(nb, ln, bd, ctx, depth)
        def clamp(x):
            # clamp x into [0,hi]
            if ctx.entails(ile(x, I(0))):
                return I(0)
            if ctx.entails(ile(hi, x)):
                return hi
            if ctx.entails(band(ile(I(0), x), ile(x, hi))):
                return x
            if not ctx.entails(ile(I(0), x)):
                raise NeedCase(ile(x, I(0)))
            raise NeedCase(ile(hi, x))
        if kind == 'le':        # true for bv<=b
            m = clamp(iadd(b, 1))
            return radd(part(I(0), m, True), part(m, hi, False))
        if kind == 'ge':
            m = clamp(b)
            return radd(part(I(0), m, False), part(m, hi, True))
        if kind == 'eq':
            if ctx.entails(band(ile(I(0), b), ilt(b, hi))):
                ct = ctx.plus(ieq(k, b))
                hit = simp(subst(body, {bv: b}), ctx)
                return radd(radd(part(I(0), b, False), part(iadd(b, 1), hi, False)), hit)
            if ctx.entails(bor(ilt(b, I(0)), ile(hi, b))):
                return part(I(0), hi, False)
            if not ctx.entails(ile(I(0), b)):
                raise NeedCase(ilt(b, I(0)))
            raise NeedCase(ile(hi, b))
    # real condition inside a sum: keep as is
    return rsum(bv, I(0), hi, body)


PERM = set()    # names of integer arrays known to be injective


def solve_perm(c, bv):
    """idx[bv+c] == idx[e]  ->  bv+c == e for injective idx"""
    if c.op != 'eq0':
        return None
    t = c.a[0]
    if t.a[0] != 0 or len(t.a[1]) != 2:
        return None
    (x, cx), (y, cy) = t.a[1]
    if x.op == 'ird' and y.op == 'ird' and x.a[0] == y.a[0] and cx == -cy and x.a[0] in PERM:
        return solve_bv(eq0(isub(x.a[1], y.a[1])), bv) if isub(x.a[1], y.a[1]).a[1] else None
    return None


def perm_simplify(e):
    """idx[a]==idx[b] -> a==b for injective arrays"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'eq0':
            t = x.a[0]
            if t.a[0] == 0 and len(t.a[1]) == 2:
                (p, cp), (q, cq) = t.a[1]
                if p.op == 'ird' and q.op == 'ird' and p.a[0] == q.a[0] and cp == -cq and p.a[0] in PERM:
                    r = ieq(p.a[1], q.a[1])
                    memo[x] = r
                    return r
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(e)


# --------------------------------------------------------------- top level
# ------------------------------------------------ weak (non-expanding) form
_W = {}


def _wid(key):
    r = _W.get(key)
    if r is None:
        r = len(_W) + 1
        _W[key] = r
        _WK[r] = key
    return r


_WK = {}
_WM = {}
_ONE = _wid(('one',))


def weak(e, depth=0):
    """(coefficient, id): associative-commutative form without distribution;
    equal forms are equal reals"""
    k = (e, depth)
    r = _WM.get(k)
    if r is None:
        r = _WM[k] = _weak(e, depth)
    return r


def _wsum(terms):
    terms = {i: c for i, c in terms.items() if c}
    if not terms:
        return (Fraction(0), _ONE)
    if len(terms) == 1:
        (i, c), = terms.items()
        return (c, i)
    lead = terms[min(terms)]
    return (lead, _wid(('sum+', tuple(sorted((i, c / lead) for i, c in terms.items())))))


def _wprod(c, fs):
    fs = {i: x for i, x in fs.items() if x and i != _ONE}
    for i in [i for i, x in fs.items() if abs(x) >= 2 and _WK[i][:2] == ('fn', 'sqrt')]:
        # sqrt(t)^2 = t where the root is defined
        x = fs.pop(i)
        h = x // 2 if x > 0 else -(-x // 2)
        if x - 2 * h:
            fs[i] = x - 2 * h
        ca, ia = _WK[i][2]
        if ca == 0:
            return (Fraction(0), _ONE) if x > 0 else (c, _wid(('prod', tuple(sorted({**fs, i: x}.items())))))
        c *= ca ** h
        kk = _WK[ia]
        for j, y in (kk[1] if kk[0] == 'prod' else ((ia, 1),)):
            fs[j] = fs.get(j, 0) + y * h
        return _wprod(c, fs)
    if c == 0:
        return (Fraction(0), _ONE)
    if not fs:
        return (c, _ONE)
    if len(fs) == 1 and next(iter(fs.values())) == 1:
        return (c, next(iter(fs)))
    return (c, _wid(('prod', tuple(sorted(fs.items())))))


def _weak(e, depth):
    op, a = e.op, e.a
    if op == 'rc':
        return (a[0], _ONE)
    if op == '+':
        terms = {}
        st = [e]
        while st:
            x = st.pop()
            if x.op == '+':
                st += [x.a[0], x.a[1]]
                continue
            c, i = weak(x, depth)
            kk = _WK[i]
            if kk[0] == 'sum+':
                for j, d in kk[1]:
                    terms[j] = terms.get(j, 0) + c * d
            else:
                terms[i] = terms.get(i, 0) + c
        return _wsum(terms)
    if op in ('*', '/'):
        c1, i1 = weak(a[0], depth)
        c2, i2 = weak(a[1], depth)
        if op == '/':
            if c2 == 0:
                return (Fraction(1), _wid(('e', e)))
            c = c1 / c2
        else:
            c = c1 * c2
        fs = {}
        for i, sg in ((i1, 1), (i2, -1 if op == '/' else 1)):
            kk = _WK[i]
            for j, x in (kk[1] if kk[0] == 'prod' else ((i, 1),)):
                fs[j] = fs.get(j, 0) + sg * x
                if fs[j] == 0 and x < 0 or fs[j] == 0 and sg < 0:
                    pass        # t/t = 1 (t is a denominator somewhere: defined only if nonzero)
        return _wprod(c, fs)
    if op == 'fn' and a[0] == 'abs':
        c, i = weak(a[1], depth)
        return (abs(c), _wid(('fn', 'abs', (Fraction(1), i)))) if i != _ONE else (abs(c), _ONE)
    if op == 'fn':
        return (Fraction(1), _wid(('fn', a[0]) + tuple(weak(x, depth) if x.sort == 'R' else x for x in a[1:])))
    if op == 'sum':
        bv, hi, body = a
        v = at_lin(mk('ivar', ('#%d' % depth,), 'I'))
        c, i = weak(subst(body, {bv: v}), depth + 1)
        if c == 0:
            return (c, _ONE)
        return (c, _wid(('SUM', hi, i)))
    if op == 'fold':
        kind, bv, hi, body, init = a
        v = at_lin(mk('ivar', ('#%d' % depth,), 'I'))
        return (Fraction(1), _wid(('FOLD', kind, hi, weak(subst(body, {bv: v}), depth + 1), weak(init, depth))))
    if op == 'ite':
        return (Fraction(1), _wid(('ite', a[0], weak(a[1], depth), weak(a[2], depth))))
    return (Fraction(1), _wid(('e', e)))


def plus_leaves(t):
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.op == '+':
            st += [x.a[0], x.a[1]]
        else:
            out.append(x)
    return out


class Gen:
    """generalisation: additive subterms (and sums) that occur, up to weak
    form, in several top-level terms of e are replaced by fresh variables.
    If the generalised equation holds so does e = 0."""

    def __init__(self, e, ctx):
        self.e, self.ctx = e, ctx
        count = {}
        self.height = {}
        self.cand = {}
        for t in plus_leaves(e):
            ids = set()
            self.scan(t, ids, set(), False)
            for i in ids:
                count[i] = count.get(i, 0) + 1
        self.common = {i for i, c in count.items() if c >= 2 and i != _ONE}
        self.hm = {}
        self.levels = sorted({self.h(t) for t in self.cand if weak(t)[1] in self.common}, reverse=True) if self.common else []

    def scan(self, t, ids, seen, under_plus):
        st = [(t, under_plus)]
        while st:
            x, up = st.pop()
            if (x, up) in seen:
                continue
            seen.add((x, up))
            if x.op in ('sum', 'fold'):
                ids.add(weak(x)[1])
                self.cand[x] = 1
                continue
            if x.op == '+' and not up:
                ids.add(weak(x)[1])
                self.cand[x] = 1
            for y in x.a:
                if isinstance(y, E) and y.sort == 'R':
                    st.append((y, x.op == '+'))

    def h(self, t, up=False):
        """nesting height of common candidates in t"""
        k = (t, up)
        r = self.hm.get(k)
        if r is None:
            if t.op in ('sum', 'fold'):
                r = 1 if weak(t)[1] in self.common else 0
            else:
                r = 0
                for y in t.a:
                    if isinstance(y, E) and y.sort == 'R':
                        r = max(r, self.h(y, t.op == '+'))
                if t.op == '+' and not up and weak(t)[1] in self.common:
                    r += 1
            self.hm[k] = r
        return r

    def at(self, lev, pair=None):
        vs = {}
        memo = {}
        facts = []
        sq = has_sqrt(self.e)

        def go(t, up=False):
            k = (t, up)
            r = memo.get(k)
            if r is not None:
                return r
            if t.sort == 'R' and (t.op in ('sum', 'fold') or (t.op == '+' and not up)) and self.h(t) <= lev:
                c, i = weak(t)
                if c and i in self.common:
                    if i not in vs:
                        v = vs[i] = rvar('gen%d' % i)
                        if sq:
                            cv = v if c > 0 else rneg(v)
                            if self.ctx.entails(rlt(R0, t), real=500):
                                facts.append(rlt(R0, cv))
                            elif nonneg(t, self.ctx):
                                facts.append(rle(R0, cv))
                    r = rmul(R(c), vs[i])
            if r is None:
                r = t if t.op in ('sum', 'fold') else rebuild(t, lambda y: go(y, t.op == '+'))
            memo[k] = r
            return r
        if pair is not None:
            r = (go(pair[0]), go(pair[1]), facts)
        else:
            r = (go(self.e, True), R0, facts)
        return r if vs else None


def linear_vars(e):
    """bijective linear change of variables: atoms that occur in differences
    a - b become b + d with d fresh"""
    edges = []
    seen = set()
    st = [(e, False)]
    while st:
        x, up = st.pop()
        if (x, up) in seen:
            continue
        seen.add((x, up))
        if x.op in ('sum', 'fold'):
            continue
        if x.op == '+' and not up:
            lv = plus_leaves(x)
            if len(lv) == 2:
                at = []
                for l in lv:
                    c = Fraction(1)
                    while l.op == '*' and rconst(l.a[0]) is not None:
                        c *= rconst(l.a[0])
                        l = l.a[1]
                    while l.op == '*' and rconst(l.a[1]) is not None:
                        c *= rconst(l.a[1])
                        l = l.a[0]
                    at.append((c, l))
                if at[0][0] == -at[1][0] and all(l.op in ('rd', 'rvar') for _, l in at):
                    edges.append((at[0][1], at[1][1]))
        for y in x.a:
            if isinstance(y, E) and y.sort == 'R':
                st.append((y, x.op == '+'))
    if not edges:
        return None
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    mp = {}
    done = set()
    for r in sorted(adj, key=lambda x: x.id):
        if r in done:
            continue
        done.add(r)
        q = [r]
        while q:
            a = q.pop(0)
            for b in sorted(adj[a], key=lambda x: x.id):
                if b not in done:
                    done.add(b)
                    mp[b] = radd(mp.get(a, a), rvar('dif%d' % b.id))
                    q.append(b)
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = mp.get(t)
            if r is None:
                r = t if t.op in ('sum', 'fold') else rebuild(t, go)
            memo[t] = r
        return r
    for t in list(mp):
        if contains(e, lambda u: u.op in ('sum', 'fold') and contains(u, lambda w: w is t)):
            return None
    return go(e)


def unify_indices(e, ctx):
    """replace array indices the context forces to be equal by one of them"""
    idx = {}
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('rd', 'ird') and isinstance(x.a[1], E):
            idx.setdefault((x.a[0]), set()).add(x.a[1])
        if x.op == 'lin':
            st += [k for k, _ in x.a[1]]
        else:
            st += [y for y in x.a if isinstance(y, E)]
    mp = {}
    for name, s in idx.items():
        lst = sorted(s, key=lambda t: (0 if iconst(t) is not None else 1, t.id))
        if len(lst) > 40:
            continue
        rep = []
        for t in lst:
            for r in rep:
                if iconst(isub(t, r)) is None and ctx.entails(ieq(t, r)):
                    mp[(name, t)] = r
                    break
            else:
                rep.append(t)
    if not mp:
        return e
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op in ('sum', 'fold'):
                r = x
            else:
                r = rebuild(x, go)
                for _ in range(4):
                    if r.op not in ('rd', 'ird') or (r.a[0], r.a[1]) not in mp:
                        break
                    r = mk(r.op, (r.a[0], mp[(r.a[0], r.a[1])]) + tuple(r.a[2:]), r.sort)
            memo[x] = r
        return r
    r = go(e)
    return r if r is e else unify_indices(r, ctx)


def collect_linear(e):
    """cancel equal atoms inside additions of c*atom terms"""
    memo = {}

    def coef(l):
        c = Fraction(1)
        while l.op == '*' and (rconst(l.a[0]) is not None or rconst(l.a[1]) is not None):
            i = 0 if rconst(l.a[0]) is not None else 1
            c *= rconst(l.a[i])
            l = l.a[1 - i]
        return c, l

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('sum', 'fold'):
            r = x
        elif x.op == '+':
            d = {}
            oth = []
            lv = plus_leaves(x)
            ls = [coef(l)[1] for l in lv]
            if len(set(ls)) == len(ls) or not any(l.op in ('rd', 'rvar') and ls.count(l) > 1 for l in set(ls)):
                r = memo[x] = rebuild(x, go)
                return r
            for l in lv:
                c, l2 = coef(l)
                if l2.op in ('rd', 'rvar'):
                    d[l2] = d.get(l2, 0) + c
                elif l2.op == 'rc':
                    d[None] = d.get(None, 0) + c * l2.a[0]
                else:
                    oth.append(l)
            r = R0
            for l2 in sorted((t for t in d if t is not None), key=lambda t: t.id):
                if d[l2] != 0:
                    r = radd(r, rmul(R(d[l2]), l2))
            if d.get(None):
                r = radd(r, R(d[None]))
            for l in oth:
                r = radd(r, go(l))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(e)


def nodes(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += [y for y in x.a if isinstance(y, E)]
    return len(seen)


def max_sum_body(e):
    m = 0
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('sum', 'fold'):
            m = max(m, nodes(x))
            continue
        st += [y for y in x.a if isinstance(y, E)]
    return m


def dist_leaves(e):
    """additive leaves, constants distributed over additions"""
    out = []

    def go(x, c):
        if x.op == '+':
            go(x.a[0], c)
            go(x.a[1], c)
        elif x.op == '*' and rconst(x.a[0]) is not None:
            go(x.a[1], c * rconst(x.a[0]))
        elif x.op == '*' and rconst(x.a[1]) is not None:
            go(x.a[0], c * rconst(x.a[1]))
        else:
            out.append(x if c == 1 else rmul(R(c), x))
    go(e, Fraction(1))
    return out


def clusters(e):
    """partition the terms of a sum into parts that share no atoms other than
    those every part uses"""
    lv = dist_leaves(e)
    if len(lv) < 2:
        return [e]
    ats = []
    for t in lv:
        out = set()
        sm = False
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('sum', 'fold'):
                sm = True
                continue
            if x.op in ('rd', 'rvar'):
                out.add(x)
            st += [y for y in x.a if isinstance(y, E) and y.sort == 'R']
        ats.append((t, out, sm))
    common = None
    for t, o, sm in ats:
        if not sm and len(o) > 3:
            common = set(o) if common is None else common & o
    groups = []
    smg = R0
    for t, o, sm in ats:
        if sm:
            smg = radd(smg, t)
            continue
        o = o - (common or set())
        merged = [t]
        rest = []
        for g in groups:
            if g[1] & o:
                merged += g[0]
                o = o | g[1]
            else:
                rest.append(g)
        groups = rest + [(merged, o)]
    out = []
    for g, _ in groups:
        r = R0
        for t in g:
            r = radd(r, t)
        out.append(r)
    if smg is not R0:
        out.append(smg)
    return out


class NoEval(Exception):
    pass


def num_eval(e, salt, memo):
    """value of a sum-free term under a pseudo-random assignment of its atoms"""
    import math
    import random

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        tick()
        op, a = x.op, x.a
        if op == 'rc':
            r = float(a[0])
        elif op in ('rvar', 'rd'):
            r = random.Random('%d/%d' % (salt, x.id)).uniform(0.3, 1.9)
        elif op == '+':
            r = go(a[0]) + go(a[1])
        elif op == '*':
            r = go(a[0]) * go(a[1])
        elif op == '/':
            d = go(a[1])
            if abs(d) < 1e-9:
                raise NoEval
            r = go(a[0]) / d
        elif op == 'fn' and a[0] == 'sqrt':
            v = go(a[1])
            if v < 0:
                raise NoEval
            r = math.sqrt(v)
        elif op == 'fn' and a[0] == 'abs':
            r = abs(go(a[1]))
        elif op == 'fn' and a[0] in ('sin', 'cos', 'exp'):
            v = go(a[1])
            if abs(v) > 50:
                raise NoEval
            r = getattr(math, a[0])(v)
        elif op == 'rlt':
            r = go(a[0]) < go(a[1])
        elif op == 'rle':
            r = go(a[0]) <= go(a[1])
        elif op == 'not':
            r = not go(a[0])
        else:
            raise NoEval
        memo[x] = r
        return r
    return go(e)


def refuted(e, ctx):
    """e = 0 fails at a sample point that satisfies the real facts of ctx"""
    real = [f for f in ctx.facts if not int_only(f)]
    try:
        for salt in (1, 2, 3):
            memo = {}
            v = num_eval(e, salt, memo)
            m = max([abs(t) for t in memo.values() if isinstance(t, float)] + [1.0])
            if not all(num_eval(f, salt, memo) for f in real):
                continue
            if abs(v) > 1e-6 * m:
                return True
            return False
    except (NoEval, OverflowError, ValueError):
        pass
    return False


def has_sqrt(e):
    return contains(e, lambda x: x.op == 'fn' and x.a[0] == 'sqrt')


def nonneg(e, ctx):
    """e >= 0 (syntactically, or by a short solver call on a factor)"""
    if e.op == 'rc':
        return e.a[0] >= 0
    if e.op == 'fn' and e.a[0] in ('sqrt', 'abs', 'exp'):
        return True
    if e.op in ('*', '/'):
        if e.op == '*' and e.a[0] is e.a[1]:
            return True
        return nonneg(e.a[0], ctx) and nonneg(e.a[1], ctx)
    if e.op == '+':
        if nonneg(e.a[0], ctx) and nonneg(e.a[1], ctx):
            return True
    if e.op in ('rd', 'rvar', '+', 'sum'):
        return ctx.entails(rle(R0, e), real=500)
    return False


def prove_eq(x, y, ctx, depth=0, trail=None):
    """prove x = y over the reals under ctx. Returns True, or False (not shown);
    trail (list) receives the case facts of the first failing case"""
    tick()
    if x is y:
        STATS['syntactic'] += 1
        return True
    if ctx.unsat():
        return True
    e = rsub(x, y)
    if weak(e)[0] == 0:
        STATS['syntactic'] += 1
        return True
    if PERM:
        e = perm_simplify(e)
    e = simp(e, ctx)
    if e is R0 or weak(e)[0] == 0:
        return True
    c = None
    try:
        e = split_sums(e, ctx)
        e = simp(e, ctx)
        c = find_ite(e)
    except NeedCase as nc:
        c = nc.c
    if c is not None:
        if depth > 24 and depth < 41 or depth > 60:
            raise Undecided('too many case splits')
        for f in (c, bnot(c)):
            c2 = ctx.plus(f)
            if c2.unsat():
                continue
            if not int_only(f) and c2.unsat_real(1500):
                continue
            if not prove_eq(x, y, c2, depth + 1, trail):
                return False
        return True
    STATS['ring'] += 1
    if weak(e)[0] == 0:
        return True
    nosum = not contains(e, lambda u: u.op in ('sum', 'fold'))
    if nosum and depth < 46:
        e = collect_linear(unify_indices(e, ctx))
        if weak(e)[0] == 0:
            return True
        if refuted(e, ctx):
            STATS['refuted'] = STATS.get('refuted', 0) + 1
            return False
    if depth < 46:
        cl = clusters(e)
        if len(cl) > 1:
            try:
                if all(prove_eq(t, R0, ctx, 39, None) for t in cl):
                    STATS['clustered'] = STATS.get('clustered', 0) + 1
                    return True
            except Undecided:
                pass
    if depth < 40 and (nosum or max_sum_body(e) <= 80):
        try:
            G = Gen(e, ctx)
            lv = G.levels
            if len(lv) > 4:
                lv = lv[:1] + lv[-3:]
            pair = None
            if lv and has_sqrt(x) and has_sqrt(y):
                pair = [simp(split_sums(simp(t, ctx), ctx), ctx) for t in (x, y)]
            for h in lv:
                g = G.at(h, pair)
                if g is not None and prove_eq(g[0], g[1], ctx.plus(*g[2]), 45, None):
                    STATS['generalised'] = STATS.get('generalised', 0) + 1
                    return True
        except Undecided:
            pass
    if depth < 47 and nosum:
        g = linear_vars(e)
        if g is not None:
            e = g
    n = Norm(ctx)
    try:
        ok = n.zero(e)
    except NeedCase as nc:
        c = nc.c
        for f in (c, bnot(c)):
            if not prove_eq(x, y, ctx.plus(f), depth + 1, trail):
                return False
        return True
    if not ok and nonneg(x, ctx) and nonneg(y, ctx) and (has_sqrt(x) and has_sqrt(y)) and depth != 41:
        if prove_eq(rmul(x, x), rmul(y, y), ctx, 41, None):
            return True
    if not ok:
        # conditions may make real atoms equal (e.g. x==0): last resort z3
        if len(ctx.facts) > len(ctx._int) and depth < 40:
            if z3_unsat(ctx.facts + axioms_for(ctx.facts) + [bnot(req(e, R0))], 5000) is True:
                return True
        if trail is not None and not trail:
            trail.append(list(ctx.facts))
    return ok


class NZ:
    """inequalities: facts and goal are translated to z3 over the canonical
    atoms of the ring normaliser, with axioms for sqrt, abs, max/min folds"""

    def __init__(self, ctx, goal):
        self.ctx = ctx
        self.n = Norm(ctx)
        self.z = Z()
        self.goal = goal
        self.vars = {}
        self.side = []
        self.todo = []
        self.nl = []
        self.ck = {}

    def poly(self, p):
        r = z3.RealVal(0)
        for k, c in p.d.items():
            t = z3.RealVal(str(c))
            for a, e in k:
                v = self.atom(a)
                for _ in range(e):
                    t = t * v
            r = r + t
        return r

    def atom(self, a):
        v = self.vars.get(a)
        if v is None:
            v = z3.Real('at_%d' % a.id)
            self.vars[a] = v
            self.todo.append((a, v, 0))
        return v

    def frac(self, e):
        n, d = self.n.nf(simp(split_sums(e, self.ctx), self.ctx))
        n, d = self.n.reduce(n), self.n.reduce(d)
        if len(d.d) == 1 and () in d.d:
            return self.poly(p_scale(n, 1 / d.d[()])), None
        return self.poly(n), self.poly(d)

    def val(self, e):
        """z3 real for e (ite allowed at the top)"""
        if e.op == 'ite':
            return z3.If(self.b(e.a[0]), self.val(e.a[1]), self.val(e.a[2]))
        n, d = self.frac(e)
        if d is None:
            return n
        r = z3.Real('q_%d' % e.id)
        self.side.append(z3.Implies(d != 0, r * d == n))
        self.z.keep.append(r)
        return r

    def b(self, e):
        r = self.ck.get(e)
        if r is not None:
            return r
        op, a = e.op, e.a
        if op == 'not':
            r = z3.Not(self.b(a[0]))
        elif op == 'and':
            r = z3.And(*[self.b(x) for x in a])
        elif op == 'or':
            r = z3.Or(*[self.b(x) for x in a])
        elif op in ('rlt', 'rle', 'req'):
            x, y = a
            if x.op == 'ite' or y.op == 'ite':
                x, y = self.val(x), self.val(y)
                r = x < y if op == 'rlt' else (x <= y if op == 'rle' else x == y)
            else:
                n, d = self.frac(rsub(x, y))
                if d is not None:
                    q = z3.Real('q_%d' % e.id)
                    self.side.append(z3.Implies(d != 0, q * d == n))
                    n = q
                r = n < 0 if op == 'rlt' else (n <= 0 if op == 'rle' else n == 0)
        else:
            r = self.z.b(e)
        self.ck[e] = r
        return r

    def cands(self):
        out = set()
        st = list(self.ctx.facts) + [self.goal]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ivar':
                out.add(at_lin(x))
            if x.op in ('sum', 'fold'):
                continue
            if x.op == 'lin':
                st += [k for k, _ in x.a[1]]
            else:
                st += [y for y in x.a if isinstance(y, E)]
        return sorted(out, key=lambda e: e.id)[:8]

    def refute(self, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        fs = []
        for f in self.ctx.facts + axioms_for(self.ctx.facts + [self.goal]):
            try:
                fs.append(self.b(f))
            except (Undecided, NeedCase):
                continue
        fs.append(z3.Not(self.b(self.goal)))
        cs = self.cands()
        rounds = 0
        while self.todo and rounds < 60:
            rounds += 1
            a, v, dep = self.todo.pop()
            if a.op == 'fn' and a.a[0] == 'sqrt':
                n, d = self.frac(a.a[1])
                if d is None:
                    self.side.append(z3.Implies(n >= 0, v >= 0))
                    self.nl.append(z3.Implies(n >= 0, z3.And(v >= 0, v * v == n)))
                else:
                    self.side.append(v >= 0)
            elif a.op == 'fn' and a.a[0] == 'abs':
                x = self.val(a.a[1])
                self.side.append(z3.And(v >= x, v >= -x, z3.Or(v == x, v == -x)))
            elif a.op == 'fn' and a.a[0] in ('sin', 'cos'):
                self.side.append(z3.And(v >= -1, v <= 1))
            elif a.op == 'fn' and a.a[0] == 'exp':
                self.side.append(v > 0)
            elif a.op == 'fn' and a.a[0] == 'pow':
                x, y = self.val(a.a[1]), self.val(a.a[2])
                self.side += [z3.Implies(x > 0, v > 0), z3.Implies(z3.And(x >= 1, y >= 0), v >= 1),
                              z3.Implies(z3.And(x > 0, x <= 1, y >= 0), v <= 1), z3.Implies(z3.And(x >= 1, y <= 0), v <= 1),
                              z3.Implies(z3.And(x > 0, x <= 1, y <= 0), v >= 1)]
            elif a.op == 'fold':
                kind, bv, T, body, init = a.a
                i0 = self.val(init)
                le_ = (lambda p, q: p <= q) if kind == 'max' else (lambda p, q: p >= q)
                self.side.append(le_(i0, v))
                more = []
                k0 = at_lin(bv)
                for c in cs:
                    more.append(c)
                    for c2 in cs:
                        if c2 is not c:
                            more.append(iadd(isub(c, c2), -1))
                for c in more:
                    if self.ctx.plus(ile(I(0), c), ilt(c, T)).unsat():
                        continue
                    try:
                        bc = self.val(subst(body, {bv: c}))
                    except (Undecided, NeedCase):
                        continue
                    self.side.append(z3.Implies(z3.And(self.z.b(ile(I(0), c)), self.z.b(ilt(c, T))), le_(bc, v)))
                w = at_lin(mk('ivar', (fresh_name('w'),), 'I'))
                try:
                    bw = self.val(subst(body, {bv: w}))
                    self.side.append(z3.Or(v == i0, z3.And(self.z.b(ile(I(0), w)), self.z.b(ilt(w, T)), v == bw)))
                except (Undecided, NeedCase):
                    pass
            elif a.op == 'sum':
                bv, T, body = a.a
                k = at_lin(bv)
                c2 = self.ctx.plus(ile(I(0), k), ilt(k, T))
                if c2.entails(rle(R0, body), real=1500):
                    self.side.append(v >= 0)
                elif c2.entails(rle(body, R0), real=1500):
                    self.side.append(v <= 0)
        for f in fs:
            s.add(f)
        for f in self.side + self.z.side:
            s.add(f)
        if self.nl:
            s.set('timeout', min(timeout, 2000))
            if s.check() == z3.unsat:
                return True
            s.set('timeout', timeout)
            for f in self.nl:
                s.add(f)
        return s.check() == z3.unsat


def sign(e, ctx, bvs=(), d=0):
    """2: e > 0, 1: e >= 0, 0: not shown -- compositional (wherever e is defined)"""
    k = (e, d // 8)
    r = ctx.signs.get(k)
    if r is None:
        r = ctx.signs[k] = _sign(e, ctx, bvs, d)
    return r


def _sign(e, ctx, bvs, d):
    op, a = e.op, e.a
    if d > 30:
        return 0
    if op == 'rc':
        return 2 if a[0] > 0 else 1 if a[0] == 0 else 0
    if rlt(R0, e) in ctx.set:
        return 2
    r = 1 if rle(R0, e) in ctx.set else 0
    if op in ('*', '/'):
        x = sign(a[0], ctx, bvs, d + 1)
        if op == '*' and weak(a[0])[1] == weak(a[1])[1]:
            if weak(a[0])[0] * weak(a[1])[0] > 0:
                return 2 if x == 2 else 1
        y = sign(a[1], ctx, bvs, d + 1) if x else 0
        if op == '/' and y == 1:
            y = 2           # a divisor is nonzero where the quotient is defined
        return max(r, min(x, y))
    if op == '+':
        x = sign(a[0], ctx, bvs, d + 1)
        y = sign(a[1], ctx, bvs, d + 1) if x else 0
        return max(x, y) if x and y else r
    if op == 'ite':
        x = sign(a[1], ctx, bvs, d + 1)
        y = sign(a[2], ctx, bvs, d + 1)
        if a[0].op == 'rlt' and a[0].a[0] is a[2] and a[0].a[1] is a[1]:
            return max(x, y)            # maximum
        if x and y:
            return min(x, y)
        if not int_only(a[0]):
            x = x or sign(a[1], ctx.plus(a[0]), bvs, d + 8)
            y = y or sign(a[2], ctx.plus(bnot(a[0])), bvs, d + 8)
        return max(r, min(x, y))
    if op == 'i2r':
        if any(b in fv(a[0]) for b in bvs):
            return r
        if ctx.entails(ilt(I(0), a[0])):
            return 2
        return 1 if ctx.entails(ile(I(0), a[0])) else r
    if op == 'fn':
        if a[0] in ('exp', 'cosh'):
            return 2
        if a[0] == 'pow' and sign(a[1], ctx, bvs, d + 1) == 2:
            return 2
        if a[0] in ('sqrt', 'cbrt') and sign(a[1], ctx, bvs, d + 1) == 2:
            return 2
        if a[0] in ('abs', 'sqrt'):
            return 1
        return r
    if op == 'sum':
        return 1 if sign(a[2], ctx, bvs + (a[0],), d + 1) else r
    if op == 'fold' and a[0] == 'max':
        z = sign(a[4], ctx, bvs, d + 1)
        if z == 2:
            return 2
        b = sign(a[3], ctx, bvs + (a[1],), d + 1)
        if b == 2 and ctx.entails(ilt(I(0), a[2])):
            return 2
        return max(z, r)
    return r


def fold_bound(x, y, ctx, goal, depth=0):
    """x <= max-fold (or min-fold <= y) by naming the element"""
    if y.op == 'fold' and y.a[0] == 'max':
        f, up = y, True
    elif x.op == 'fold' and x.a[0] == 'min':
        f, up = x, False
    else:
        if depth == 0:
            return False
        try:
            if prove_eq(x, y, ctx):
                return True
        except (Undecided, NeedCase):
            pass
        return False
    _, bv, T, body, init = f.a
    cs = NZ(ctx, goal).cands()
    more = list(cs) + [iadd(isub(a, b), -1) for a in cs for b in cs if a is not b]
    more += [I(0), iadd(T, -1)]
    for c in more:
        if not ctx.entails(band(ile(I(0), c), ilt(c, T))):
            continue
        b = subst(body, {bv: c})
        if fold_bound(x, b, ctx, goal, depth + 1) if up else fold_bound(b, y, ctx, goal, depth + 1):
            return True
    return False


def lin_terms(e, out=None, k=Fraction(1)):
    """e as a linear combination of atoms: {atom: coefficient} (constants under 1)"""
    if out is None:
        out = {}
    c = rconst(e)
    if c is not None:
        out[1] = out.get(1, 0) + k * c
    elif e.op == '+':
        for x in e.a:
            lin_terms(x, out, k)
    elif e.op == '*' and (rconst(e.a[0]) is not None or rconst(e.a[1]) is not None):
        x, y = e.a if rconst(e.a[0]) is not None else e.a[::-1]
        lin_terms(y, out, k * rconst(x))
    else:
        out[e] = out.get(e, 0) + k
    return out


def abs_bound(g, ctx):
    """|D| <= sum w_k |t_k|: every coefficient of D is bounded by the weight of its monomial (triangle inequality)"""
    t = lin_terms(rsub(g.a[1], g.a[0]) if g.a[0] is not R0 else g.a[1])
    neg = [(k, v) for k, v in t.items() if v < 0]
    if len(neg) != 1 or any(k == 1 or k.op != 'fn' or k.a[0] != 'abs' for k in t):
        return False
    k0, c0 = neg[0]
    try:
        nz = Norm(ctx)
        n, d = nz.nf(k0.a[1])
        if len(d.d) != 1 or () not in d.d:
            return False
        w = {}
        for k, v in t.items():
            if v <= 0:
                continue
            m, q = nz.nf(k.a[1])
            if len(m.d) != 1 or len(q.d) != 1 or () not in q.d:
                continue
            (mono, co), = m.d.items()
            w[mono] = w.get(mono, 0) + v * abs(co / q.d[()])
        return all(abs(v / d.d[()]) * -c0 <= w.get(mono, 0) for mono, v in n.d.items())
    except (Undecided, NeedCase):
        return False


def loop_subst(goal, ctx):
    """eliminate loop-cut symbols (names with '!') fixed by the equalities among the facts"""
    changed = False
    for _ in range(6):
        m = {}
        for f in ctx.facts:
            if f.op == 'req':
                t = lin_terms(rsub(f.a[0], f.a[1]))
                for x, k in t.items():
                    if x != 1 and x.op == 'rvar' and '!' in x.a[0] and k != 0 \
                            and not any(y != 1 and y is not x and x in fv(y) for y in t):
                        r = R0
                        for y, q in t.items():
                            if y is not x and q != 0:
                                r = radd(r, R(-q / k) if y == 1 else rmul(R(-q / k), y))
                        m = {x: r}
                        break
            elif f.op == 'le0' and f.a[0].op == 'lin':
                n = mk('lin', (-f.a[0].a[0], tuple((y, -q) for y, q in f.a[0].a[1])), 'I')
                if le0(n) in ctx.set:
                    for x, k in f.a[0].a[1]:
                        if abs(k) == 1 and x.op == 'ivar' and '!' in x.a[0] and not any(x in fv(y) for y, _ in f.a[0].a[1] if y is not x):
                            l = f.a[0]
                            m = {x: mk('lin', (-k * l.a[0], tuple((y, -k * q) for y, q in l.a[1] if y is not x)), 'I')}
                            break
            if m:
                break
        if not m:
            break
        changed = True
        goal = subst(goal, m)
        ctx = Ctx([subst(f, m) for f in ctx.facts])
    return (goal, ctx) if changed else None


def prove(goal, ctx, trail=None, timeout=10000, depth=0):
    """prove a boolean goal under ctx"""
    tick()
    if depth == 0 and goal is not TRUE and goal.op != 'and':
        r = loop_subst(goal, ctx)
        if r is not None:
            goal, ctx = r
    if goal is TRUE:
        return True
    if goal.op == 'and':
        return all(prove(g, ctx, trail, timeout) for g in goal.a)
    if ctx.unsat():
        return True
    if goal.op == 'req':
        if depth == 0 and any(f.op == 'or' and not int_only(f) for f in ctx.facts) and goal.a[0] is not goal.a[1] \
                and (getattr(goal.a[0], 'op', '') in ('rvar', 'rd', 'ite') or goal.a[1].op in ('rvar', 'rd', 'ite')) \
                and z3_unsat(ctx.facts + [bnot(goal)], 1000) is True:
            return True
        return prove_eq(goal.a[0], goal.a[1], ctx, 0, trail)
    if ctx.entails(goal):
        return True
    g = simp(goal, ctx)
    if g is TRUE:
        return True
    if int_only(g):
        ok = ctx.entails(g)
        if not ok and any(f.op == 'or' and not int_only(f) for f in ctx.facts):
            ok = z3_unsat(ctx.facts + [bnot(g)], 2000) is True
        if not ok and trail is not None and not trail:
            trail.append(list(ctx.facts))
        return ok
    if g.op in ('rle', 'rlt'):
        d = g.a[1] if g.a[0] is R0 else rsub(g.a[1], g.a[0])
        if sign(d, ctx) >= (1 if g.op == 'rle' else 2):
            STATS['sign'] = STATS.get('sign', 0) + 1
            return True
    if g.op == 'rle' and fold_bound(g.a[0], g.a[1], ctx, goal):
        return True
    if g.op == 'rle' and abs_bound(g, ctx):
        STATS['sign'] = STATS.get('sign', 0) + 1
        return True
    c = find_ite(g)
    if c is not None and depth > 40:
        raise Undecided('too many case splits')
    if c is not None and depth == 0 and any(f.op == 'or' and not int_only(f) for f in ctx.facts) \
            and z3_unsat(ctx.facts + [bnot(goal)], 1500) is True:
        return True
    if c is not None:
        for f in (c, bnot(c)):
            c2 = ctx.plus(f)
            if c2.unsat():
                continue
            if not int_only(f) and c2.unsat_real(1500):
                continue
            if not prove(goal, c2, trail, timeout, depth + 1):
                return False
        return True
    STATS['nra'] += 1
    r = z3_unsat(ctx.facts + axioms_for(ctx.facts + [g]) + [bnot(g)], min(timeout, 3000))
    if r is not True:
        try:
            if NZ(ctx, g).refute(timeout):
                return True
        except (Undecided, NeedCase):
            pass
    if r is not True and trail is not None and not trail:
        trail.append(list(ctx.facts) + [bnot(g)])
    return r is True
