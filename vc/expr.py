"""Hash-consed terms for the verification-condition generator.

Sorts: 'R' (double modelled as a real), 'I' (machine integer modelled as an
integer), 'B' (i1), 'P' (pointer: region + byte offset), 'U' (undef).
Integer terms are kept in linear normal form so that addresses can be
compared coefficient-wise.
"""
from fractions import Fraction

_table = {}
_ctr = [0]


class E:
    __slots__ = ('op', 'a', 'sort', 'id', '_fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, args, sort):
    key = (op, args, sort)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = args
        e.sort = sort
        _ctr[0] += 1
        e.id = _ctr[0]
        e._fv = None
        _table[key] = e
    return e


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


# ------------------------------------------------------------------ booleans
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def B(b):
    return TRUE if b else FALSE


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    r = _neg.get(x)
    if r is None:
        r = _neg[x] = _bnot(x)
    return r


_neg = {}


def _bnot(x):
    if x.op == 'not':
        return x.a[0]
    if x.op == 'le0':       # t<=0  ->  t>=1 -> 1-t<=0
        return le0(iadd(I(1), imul(x.a[0], -1)))
    if x.op == 'rlt':
        return mk('rle', (x.a[1], x.a[0]), 'B')
    if x.op == 'rle':
        return mk('rlt', (x.a[1], x.a[0]), 'B')
    if x.op == 'and':
        r = bor(*[bnot(y) for y in x.a])
    elif x.op == 'or':
        r = band(*[bnot(y) for y in x.a])
    else:
        r = mk('not', (x,), 'B')
    return r


def _nary(op, xs, unit, zero):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == op else (x,)
        for y in ys:
            if y is zero:
                return zero
            if y is unit or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if bnot(y) in seen:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(out), 'B')


def band(*xs):
    return _nary('and', xs, TRUE, FALSE)


def bor(*xs):
    return _nary('or', xs, FALSE, TRUE)


def bvar(n):
    return mk('bvar', (n,), 'B')


def imp(a, b):
    return bor(bnot(a), b)


# ------------------------------------------------------------------ integers
# lin: a = (const, ((atom, coef), ...)) sorted by atom id
def I(n):
    return mk('lin', (int(n), ()), 'I')


def ivar(n):
    at = mk('ivar', (n,), 'I')
    return at_lin(at)


def at_lin(at):
    return mk('lin', (0, ((at, 1),)), 'I')


def lin_parts(e):
    assert e.op == 'lin', e
    return e.a


def _mklin(c, d):
    t = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
    return mk('lin', (c, t), 'I')


def iadd(*xs):
    c = 0
    d = {}
    for x in xs:
        if isinstance(x, int):
            c += x
            continue
        c0, t = x.a
        c += c0
        for k, v in t:
            d[k] = d.get(k, 0) + v
    return _mklin(c, d)


def imulc(x, n):
    c, t = x.a
    return mk('lin', (c * n, tuple((k, v * n) for k, v in t)), 'I') if n else I(0)


def iconst(x):
    """python int if constant else None"""
    if x.op == 'lin' and not x.a[1]:
        return x.a[0]
    return None


def imul(x, y):
    if isinstance(y, int):
        return imulc(x, y)
    if isinstance(x, int):
        return imulc(y, x)
    cx, cy = iconst(x), iconst(y)
    if cx is not None:
        return imulc(y, cx)
    if cy is not None:
        return imulc(x, cy)
    # distribute
    c1, t1 = x.a
    c2, t2 = y.a
    out = I(c1 * c2)
    for k, v in t1:
        out = iadd(out, imulc(at_lin(k), v * c2))
        for k2, v2 in t2:
            fs = []
            for q in (k, k2):
                fs += list(q.a) if q.op == 'imul' else [q]
            fs = tuple(sorted(fs, key=lambda e: e.id))
            out = iadd(out, imulc(at_lin(mk('imul', fs, 'I')), v * v2))
    for k2, v2 in t2:
        out = iadd(out, imulc(at_lin(k2), v2 * c1))
    return out


def isub(x, y):
    return iadd(x, imulc(y, -1))


def idiv(x, y):
    """C truncated division, exact if divisible coefficient-wise"""
    cy = iconst(y)
    cx = iconst(x)
    if cy == 1:
        return x
    if cx is not None and cy:
        q = abs(cx) // abs(cy)
        return I(q if (cx >= 0) == (cy > 0) else -q)
    if cy:
        c, t = x.a
        if c % cy == 0 and all(v % cy == 0 for _, v in t):
            return mk('lin', (c // cy, tuple((k, v // cy) for k, v in t)), 'I')
    return at_lin(mk('idiv', (x, y), 'I'))


def irem(x, y):
    cy = iconst(y)
    cx = iconst(x)
    if cx is not None and cy:
        r = abs(cx) % abs(cy)
        return I(r if cx >= 0 else -r)
    if cy:
        c, t = x.a
        if c % cy == 0 and all(v % cy == 0 for _, v in t):
            return I(0)
    return at_lin(mk('irem', (x, y), 'I'))


def le0(t):
    c = iconst(t)
    if c is not None:
        return B(c <= 0)
    # normalise by gcd
    from math import gcd
    g = 0
    for _, v in t.a[1]:
        g = gcd(g, v)
    if g > 1:
        c0 = t.a[0]
        # sum + c0 <= 0 -> sum/g <= floor(-c0/g)
        t = mk('lin', (-((-c0) // g), tuple((k, v // g) for k, v in t.a[1])), 'I')
    return mk('le0', (t,), 'B')


def ile(x, y):
    return le0(isub(x, y))


def ilt(x, y):
    return le0(iadd(isub(x, y), 1))


def eq0(t):
    c = iconst(t)
    if c is not None:
        return B(c == 0)
    from math import gcd
    g = 0
    for _, v in t.a[1]:
        g = gcd(g, v)
    if t.a[0] % g:
        return FALSE
    if t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][0].op == 'iop' and t.a[1][0][0].a[0] == 'or':
        # bitwise or is zero iff both operands are
        return band(eq0(t.a[1][0][0].a[1]), eq0(t.a[1][0][0].a[2]))
    if t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][0].op == 'iop' and t.a[1][0][0].a[0] == 'xor':
        return ieq(t.a[1][0][0].a[1], t.a[1][0][0].a[2])
    s = 1 if t.a[1][0][1] > 0 else -1
    t = mk('lin', (s * t.a[0] // g, tuple((k, s * v // g) for k, v in t.a[1])), 'I')
    return mk('eq0', (t,), 'B')


def ieq(x, y):
    return eq0(isub(x, y))


# ------------------------------------------------------------------ reals
def nice(v):
    """the rational a double literal stands for: literals within a few ulps of
    a rational with a small denominator are read as that rational"""
    v = Fraction(v)
    if v.denominator < (1 << 20):
        return v
    w = v.limit_denominator(10 ** 6)
    if w and abs(v / w - 1) < Fraction(1, 10 ** 15):
        return w
    return v


def R(v):
    if isinstance(v, float):
        v = nice(v)
    return mk('rc', (Fraction(v),), 'R')


CONSTS = []         # (float value, term): symbolic mathematical constants


def const_term(c):
    for f, t in CONSTS:
        q = (Fraction(c) / Fraction(f))
        w = q.limit_denominator(1000)
        if w and abs(w.numerator) <= 1000 and abs(q / w - 1) < Fraction(1, 10 ** 13):
            return t if w == 1 else rmul(R(w), t)
    return R(nice(c))


R0 = R(0)
R1 = R(1)


def rvar(n):
    return mk('rvar', (n,), 'R')


def rconst(x):
    return x.a[0] if x.op == 'rc' else None


def radd(x, y):
    a, b = rconst(x), rconst(y)
    if a is not None and b is not None:
        return R(a + b)
    if a == 0:
        return y
    if b == 0:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('+', (x, y), 'R')


def rmul(x, y):
    a, b = rconst(x), rconst(y)
    if a is not None and b is not None:
        return R(a * b)
    if a == 0 or b == 0:
        return R0
    if a == 1:
        return y
    if b == 1:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('*', (x, y), 'R')


def rneg(x):
    return rmul(R(-1), x)


def rsub(x, y):
    if x is y:
        return R0
    return radd(x, rneg(y))


def rdiv(x, y):
    a, b = rconst(x), rconst(y)
    if b is not None and b != 0:
        return rmul(x, R(1 / b))
    if a == 0:
        return R0
    return mk('/', (x, y), 'R')


def _isqrt_exact(v):
    import math
    if v < 0:
        return None
    n, d = v.numerator, v.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def rfn(name, *args):
    if name == 'sqrt':
        c = rconst(args[0])
        if c is not None:
            s = _isqrt_exact(c)
            if s is not None:
                return R(s)
    if name == 'abs':
        c = rconst(args[0])
        if c is not None:
            return R(abs(c))
        args = (_abs_arg(args[0]),)
        c = rconst(args[0])
        if c is not None:
            return R(abs(c))
    if all(rconst(x) is not None for x in args):
        # fold transcendental constants to the double the compiler would give
        v = fold_fn(name, [float(rconst(x)) for x in args])
        if v is not None:
            return R(v)
    return mk('fn', (name,) + tuple(args), 'R')


def _abs_arg(x):
    """canonical argument of |x| among x and -x, sum leaves in a fixed order"""
    co = Fraction(1)
    leaves = {}
    st = [(x, co)]
    n = 0
    while st:
        t, s = st.pop()
        n += 1
        if n > 64:
            return x
        if t.op == '+':
            st += [(t.a[0], s), (t.a[1], s)]
            continue
        if t.op == '*' and rconst(t.a[0]) is not None:
            st.append((t.a[1], s * rconst(t.a[0])))
            continue
        c = rconst(t)
        if c is not None:
            s, t = s * c, R1
        leaves[t] = leaves.get(t, 0) + s
    ls = sorted(((t, s) for t, s in leaves.items() if s), key=lambda q: q[0].id)
    if not ls:
        return R0
    sg = 1 if ls[0][1] > 0 else -1
    r = None
    for t, s in ls:
        u = rmul(R(s * sg), t)
        r = u if r is None else radd(r, u)
    return r


PYFN = {}       # functions defined by the contracts, evaluated at constants


def fold_fn(name, vals):
    import math
    try:
        if name in PYFN:
            return PYFN[name](*vals)
        f = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
             'log': math.log, 'pow': math.pow, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2,
             'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
             'log10': math.log10, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'asin': math.asin}.get(name)
        if f is None:
            return None
        v = f(*vals)
        if isinstance(v, complex) or v != v or v in (math.inf, -math.inf):
            return None
        return Fraction(v)
    except (ValueError, OverflowError, ZeroDivisionError):
        return None


def i2r(x):
    c = iconst(x)
    if c is not None:
        return R(c)
    return mk('i2r', (x,), 'R')


def rread(arr, idx):
    return mk('rd', (arr, idx), 'R')


INV = {}        # mutually inverse integer arrays (ghost inverse of a permutation)


def iread(arr, idx):
    v = INV.get(arr)
    if v is not None and idx.op == 'lin' and idx.a[0] == 0 and len(idx.a[1]) == 1 and idx.a[1][0][1] == 1:
        k = idx.a[1][0][0]
        if k.op == 'ird' and k.a[0] == v:
            return k.a[1]
    return at_lin(mk('ird', (arr, idx), 'I'))


def rsum(bv, lo, hi, body):
    """sum_{bv=lo}^{hi-1} body; bv an ivar atom"""
    c = iconst(isub(hi, lo))
    if c is not None:
        if c <= 0:
            return R0
        if c <= 1:
            return subst(body, {bv: lo})
    if body is R0:
        return R0
    # shift so that lo = 0 and use a canonical bound variable
    if iconst(lo) != 0:
        body = subst(body, {bv: iadd(at_lin(bv), lo)})
        hi = isub(hi, lo)
        lo = I(0)
    return mk('sum', (bv, hi, body), 'R')


def rfold(kind, bv, hi, body, init):
    """kind in {'max','min',...}: fold over bv in [0,hi)"""
    c = iconst(hi)
    if c is not None and c <= 0:
        return init
    return mk('fold', (kind, bv, hi, body, init), 'R')


def req(x, y):
    a, b = rconst(x), rconst(y)
    if a is not None and b is not None:
        return B(a == b)
    if x is y:
        return TRUE
    if x.id > y.id:
        x, y = y, x
    return mk('req', (x, y), 'B')


def rlt(x, y):
    a, b = rconst(x), rconst(y)
    if a is not None and b is not None:
        return B(a < b)
    if x is y:
        return FALSE
    return mk('rlt', (x, y), 'B')


def rle(x, y):
    a, b = rconst(x), rconst(y)
    if a is not None and b is not None:
        return B(a <= b)
    if x is y:
        return TRUE
    return mk('rle', (x, y), 'B')


# ------------------------------------------------------------------ pointers
NULL = mk('null', (), 'P')


def ptr(region, off):
    return mk('ptr', (region, off), 'P')


UNDEF = mk('undef', (), 'U')


# ------------------------------------------------------------------ generic
def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x.sort == 'U' and y.sort != 'U':
        pass
    if x.sort == 'B' and y.sort == 'B':
        if x is TRUE and y is FALSE:
            return c
        if x is FALSE and y is TRUE:
            return bnot(c)
        return bor(band(c, x), band(bnot(c), y))
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if x.op == 'ite' and x.a[0] is c and x.sort != 'I':
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c and y.sort != 'I':
        y = y.a[2]
    if x is y:
        return x
    s = x.sort if x.sort != 'U' else y.sort
    if s == 'R' and c.op in ('rlt', 'rle') and {c.a[0], c.a[1]} == {x, y}:
        # maximum / minimum of two reals: one canonical form
        top = c.a[1] is x
        lo, hi = (x, y) if x.id < y.id else (y, x)
        c = mk('rlt', (lo, hi), 'B') if rconst(lo) is None or rconst(hi) is None else rlt(lo, hi)
        x, y = (hi, lo) if top else (lo, hi)
        return mk('ite', (c, x, y), s)
    if s == 'I':
        # pull common linear part
        return at_lin(mk('ite', (c, x, y), 'I')) if True else None
    return mk('ite', (c, x, y), s)


def fv(e):
    """set of free ivar/rvar/bvar/array-name leaf atoms (E objects or names)"""
    if e._fv is not None:
        return e._fv
    op = e.op
    if op in ('ivar', 'rvar', 'bvar'):
        r = frozenset((e,))
    elif op == 'lin':
        r = frozenset().union(*[fv(k) for k, _ in e.a[1]]) if e.a[1] else frozenset()
    elif op == 'sum':
        r = (fv(e.a[2]) - {e.a[0]}) | fv(e.a[1])
    elif op == 'fold':
        r = (fv(e.a[3]) - {e.a[1]}) | fv(e.a[2]) | fv(e.a[4])
    else:
        r = frozenset()
        for x in e.a:
            if isinstance(x, E):
                r = r | fv(x)
    e._fv = r
    return r


def rebuild(e, f):
    """rebuild e applying f to child terms"""
    op, a = e.op, e.a
    if op == 'lin':
        out = I(a[0])
        for k, v in a[1]:
            x = f(k)
            if x.op != 'lin':
                x = at_lin(x)
            out = iadd(out, imulc(x, v))
        return out
    if op in ('rc', 'rvar', 'ivar', 'bvar', 'true', 'false', 'null', 'undef'):
        return e
    if op == '+':
        return radd(f(a[0]), f(a[1]))
    if op == '*':
        return rmul(f(a[0]), f(a[1]))
    if op == '/':
        return rdiv(f(a[0]), f(a[1]))
    if op == 'fn':
        return rfn(a[0], *[f(x) for x in a[1:]])
    if op == 'i2r':
        return i2r(f(a[0]))
    if op == 'rd':
        return rread(a[0], f(a[1]))
    if op == 'ird':
        if INV:
            r = iread(a[0], f(a[1]))
            return r.a[1][0][0] if r.op == 'lin' and r.a[0] == 0 and len(r.a[1]) == 1 and r.a[1][0][1] == 1 else r
        return mk('ird', (a[0], f(a[1])), 'I')
    if op == 'ite':
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == 'le0':
        return le0(f(a[0]))
    if op == 'eq0':
        return eq0(f(a[0]))
    if op == 'req':
        return req(f(a[0]), f(a[1]))
    if op == 'rlt':
        return rlt(f(a[0]), f(a[1]))
    if op == 'rle':
        return rle(f(a[0]), f(a[1]))
    if op == 'not':
        return bnot(f(a[0]))
    if op == 'and':
        return band(*[f(x) for x in a])
    if op == 'or':
        return bor(*[f(x) for x in a])
    if op == 'idiv':
        return idiv(f(a[0]), f(a[1]))
    if op == 'irem':
        return irem(f(a[0]), f(a[1]))
    if op == 'imul':
        out = I(1)
        for x in a:
            y = f(x)
            out = imul(out, y if y.op == 'lin' else at_lin(y))
        return out
    if op == 'ptr':
        return ptr(a[0], f(a[1]))
    if op == 'sum':
        return rsum(a[0], I(0), f(a[1]), f(a[2]))
    if op == 'fold':
        return rfold(a[0], a[1], f(a[2]), f(a[3]), f(a[4]))
    # generic
    return mk(op, tuple(f(x) if isinstance(x, E) else x for x in a), e.sort)


def subst(e, m, memo=None):
    """substitute atoms (ivar atom -> lin, rvar -> real, other atoms)"""
    if not m:
        return e
    if memo is None:
        memo = {}
    keys = set(m)
    simple = all(k.op in ('ivar', 'rvar', 'bvar') for k in keys)

    def go(x):
        if x in memo:
            return memo[x]
        if simple and not (fv(x) & keys):
            memo[x] = x
            return x
        if x in m:
            r = m[x]
        elif x.op == 'sum' and x.a[0] in keys:
            # bound variable shadowed: rename
            nb = mk('ivar', (fresh_name('k'),), 'I')
            y = mk('sum', (nb, x.a[1], subst(x.a[2], {x.a[0]: at_lin(nb)})), 'R')
            r = rebuild(y, go)
        elif x.op == 'sum' and any(x.a[0] in fv(m[k]) for k in keys):
            nb = mk('ivar', (fresh_name('k'),), 'I')
            y = mk('sum', (nb, x.a[1], subst(x.a[2], {x.a[0]: at_lin(nb)})), 'R')
            r = rebuild(y, go)
        elif x.op == 'fold' and (x.a[1] in keys or any(x.a[1] in fv(m[k]) for k in keys)):
            nb = mk('ivar', (fresh_name('k'),), 'I')
            y = mk('fold', (x.a[0], nb, x.a[2], subst(x.a[3], {x.a[1]: at_lin(nb)}), x.a[4]), 'R')
            r = rebuild(y, go)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(e)


def contains(e, pred, memo=None):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        if x.op == 'lin':
            st += [k for k, _ in x.a[1]]
        else:
            st += [y for y in x.a if isinstance(y, E)]
    return False


def show(e, d=0):
    if d > 14:
        return '...'
    op, a = e.op, e.a
    s = lambda x: show(x, d + 1) if isinstance(x, E) else str(x)
    if op == 'lin':
        ts = []
        for k, v in a[1]:
            ts.append(('' if v == 1 else '%d*' % v) + s(k))
        if a[0] or not ts:
            ts.append(str(a[0]))
        return '(' + '+'.join(ts) + ')' if len(ts) > 1 else ts[0]
    if op == 'rc':
        v = a[0]
        return str(v) if v.denominator < 100 else repr(float(v))
    if op in ('ivar', 'rvar', 'bvar'):
        return a[0]
    if op in ('+', '*', '/'):
        return '(' + s(a[0]) + op + s(a[1]) + ')'
    if op == 'fn':
        return a[0] + '(' + ','.join(s(x) for x in a[1:]) + ')'
    if op in ('rd', 'ird'):
        return '%s[%s]' % (a[0], s(a[1]))
    if op == 'sum':
        return 'SUM{%s<%s}(%s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'le0':
        return s(a[0]) + '<=0'
    if op == 'eq0':
        return s(a[0]) + '==0'
    if op == 'rlt':
        return s(a[0]) + '<' + s(a[1])
    if op == 'rle':
        return s(a[0]) + '<=' + s(a[1])
    if op == 'req':
        return s(a[0]) + '==' + s(a[1])
    return op + '(' + ','.join(s(x) for x in a) + ')'


_height = {}
_alpha = {}


def binder_height(e):
    r = _height.get(e)
    if r is None:
        r = 0
        for x in e.a:
            for y in ([k for k, v in x] if e.op == 'lin' and isinstance(x, tuple) else [x]):
                if isinstance(y, E):
                    r = max(r, binder_height(y))
        if e.op in ('sum', 'fold'):
            r += 1
        _height[e] = r
    return r


def alpha(e):
    """bound variables of sums and folds renamed by their nesting height: terms that
    differ only in the names of bound variables become the same term"""
    r = _alpha.get(e)
    if r is not None:
        return r
    if e.op in ('sum', 'fold'):
        e2 = rebuild(e, alpha)
        if e2.op == e.op:
            k = 0 if e.op == 'sum' else 1
            nb = mk('ivar', ('k!c%d' % binder_height(e2),), 'I')
            m = {e2.a[k]: at_lin(nb)}
            if e2.op == 'sum':
                e2 = mk('sum', (nb, e2.a[1], subst(e2.a[2], m)), 'R')
            else:
                e2 = mk('fold', (e2.a[0], nb, e2.a[2], subst(e2.a[3], m), e2.a[4]), 'R')
        r = e2
    else:
        r = rebuild(e, alpha)
    _alpha[e] = r
    return r
