"""Contract language: contracts are terms over the inputs (old state), the
outputs (new state) and skolem indices; they are proved symbolically for all
inputs and evaluated concretely when a counterexample is replayed."""
import ctypes
import json
import math
import os
import random
import re
import signal
import struct
import sys
import time
import traceback
from fractions import Fraction
from .expr import *
from . import expr, build, num, prove as PR
from .ir import Module, IRError
from .canon import Canon, prove_abs
from .sym import Exec, St, Unsupported, LoopFail, p2i
from .prove import Ctx, prove, prove_eq, Undecided, Budget, simp, PERM, AX, DEADLINE, STATS, z3_unsat


# ------------------------------------------------------------ operators on E
def _co(x, like):
    if isinstance(x, E):
        if like.sort == 'R' and x.sort == 'I':
            return i2r(x)
        return x
    if like.sort == 'I' and isinstance(x, int):
        return I(x)
    return R(x)


def _bin(fr, fi):
    def f(a, b):
        if not isinstance(b, (E, int, float, Fraction)):
            return NotImplemented
        if a.sort == 'I' and (isinstance(b, int) or (isinstance(b, E) and b.sort == 'I')):
            return fi(a, _co(b, a))
        if a.sort == 'I':
            a = i2r(a)
        return fr(a, _co(b, a))
    return f


E.__add__ = _bin(radd, lambda x, y: iadd(x, y))
E.__radd__ = E.__add__
E.__sub__ = _bin(rsub, isub)
E.__rsub__ = lambda a, b: (-a) + b
E.__mul__ = _bin(rmul, imul)
E.__rmul__ = E.__mul__
E.__neg__ = lambda a: imulc(a, -1) if a.sort == 'I' else rneg(a)
E.__truediv__ = _bin(rdiv, None)
E.__rtruediv__ = lambda a, b: rdiv(_co(b, a), a)


def _pow(a, n):
    r = R1 if a.sort == 'R' else I(1)
    for _ in range(n):
        r = r * a
    return r


E.__pow__ = _pow
E.__and__ = lambda a, b: band(a, b)
E.__or__ = lambda a, b: bor(a, b)
E.__invert__ = lambda a: bnot(a)


def _pair(a, b):
    if not isinstance(a, E):
        a = _co(a, b)
    b = _co(b, a)
    a = _co(a, b)
    return a, b


def eq(a, b):
    a, b = _pair(a, b)
    if a.sort == 'I':
        return ieq(a, b)
    if a.sort == 'B':
        return bor(band(a, b), band(bnot(a), bnot(b)))
    return mk('req', (a, b), 'B') if a is not b else TRUE


def ne(a, b):
    return bnot(eq(a, b))


def le(a, b):
    a, b = _pair(a, b)
    return ile(a, b) if a.sort == 'I' else rle(a, b)


def lt(a, b):
    a, b = _pair(a, b)
    return ilt(a, b) if a.sort == 'I' else rlt(a, b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def between(lo, x, hi):
    """lo <= x < hi"""
    return band(le(lo, x), lt(x, hi))


def sqrt(x):
    return rfn('sqrt', x)


def sin(x):
    return rfn('sin', x)


def cos(x):
    return rfn('cos', x)


def fabs(x):
    return rfn('abs', x)


def fn(name, *xs):
    return rfn(name, *[x if isinstance(x, E) else R(x) for x in xs])


def uf(tag, *xs):
    return rfn('uf%d' % tag, *xs)


def If(c, a, b):
    a, b = _pair(a, b) if isinstance(a, E) or isinstance(b, E) else (R(a), R(b))
    return ite(c, a, b)


def Sum(lo, hi, f):
    lo = lo if isinstance(lo, E) else I(lo)
    hi = hi if isinstance(hi, E) else I(hi)
    k = mk('ivar', (fresh_name('s'),), 'I')
    b = f(at_lin(k))
    if not isinstance(b, E):
        b = R(b)
    return rsum(k, lo, hi, b)


class V:
    """3-vectors of terms"""

    def __init__(self, x, y, z):
        self.c = tuple(v if isinstance(v, E) else R(v) for v in (x, y, z))

    def __getitem__(self, i):
        return self.c[i]

    def __iter__(self):
        return iter(self.c)

    def __add__(self, o):
        return V(*[a + b for a, b in zip(self.c, o.c)])

    def __sub__(self, o):
        return V(*[a - b for a, b in zip(self.c, o.c)])

    def __mul__(self, s):
        return V(*[a * s for a in self.c])
    __rmul__ = __mul__

    def __truediv__(self, s):
        return V(*[a / s for a in self.c])

    def __neg__(self):
        return V(*[-a for a in self.c])

    def dot(self, o):
        return self.c[0] * o.c[0] + self.c[1] * o.c[1] + self.c[2] * o.c[2]

    def cross(self, o):
        a, b = self.c, o.c
        return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])

    def norm2(self):
        return self.dot(self)

    def norm(self):
        return sqrt(self.norm2())


def VSum(lo, hi, f):
    return V(*[Sum(lo, hi, lambda k, c=c: f(k)[c]) for c in range(3)])


class Arr:
    """an array parameter; a[i] old value, a.new(i) value after the call"""

    def __init__(self, c, name, length, sort, mode):
        self.c, self.name, self.length, self.sort, self.mode = c, name, length, sort, mode
        self.gen = None

    def __getitem__(self, i):
        i = i if isinstance(i, E) else I(i)
        if self.mode == 'def':
            w, f = self.defn
            d = i.a[0] % w
            if any(v % w for _, v in i.a[1]):
                raise Unsupported('index of defined array')
            return list(f(idiv(iadd(i, -d), I(w))))[d]
        return rread(self.name, i) if self.sort == 'R' else iread(self.name, i)

    def new(self, i):
        i = i if isinstance(i, E) else I(i)
        return rread(self.name + "'", i) if self.sort == 'R' else iread(self.name + "'", i)

    def v(self, i):
        """i-th 3-vector, old"""
        i = i if isinstance(i, E) else I(i)
        return V(*[self[i * 3 + c] for c in range(3)])

    def vnew(self, i):
        i = i if isinstance(i, E) else I(i)
        return V(*[self.new(i * 3 + c) for c in range(3)])


class Ensure:
    def __init__(self, label, goal, skolems, guard, tol, sample):
        self.label, self.goal, self.skolems, self.guard, self.tol = label, goal, skolems, guard, tol
        self.sample = sample
        self.wd = False


REGISTRY = {}       # property -> list of Contract


class Contract:
    def __init__(self, prop, harness, fname, title, defs=(), bounded=None, handlers=None, opts=None, unroll=60,
                 aborts=None, native=True, samples=40, note=None, budget=None, ret=None, only_bounded=False, tol=1e-9):
        self.prop, self.harness, self.fname, self.title = prop, harness, fname, title
        self.defs = tuple(defs)
        self.params = []
        self.pre = []
        self.ens = []
        self.bounded = bounded or {}        # int name -> list of values for the bounded fall-back
        self.only_bounded = only_bounded
        self.handlers = handlers or {}
        self.opts = opts or {}
        self.unroll = unroll
        self.aborts = aborts                # None: no abort allowed under pre; else condition under which abort is required
        self.native = native
        self.samples = samples
        self.replays = []
        self.note = note
        self.budget = budget
        self.ret = ret
        self.tol = tol
        self.perm = set()
        self.inv = {}
        self.ax = {}
        self.sampler = None
        self.specials = []
        self.assume = []
        REGISTRY.setdefault(prop, []).append(self)

    @property
    def id(self):
        return '%s/%s' % (self.harness, self.title)

    # parameters, in the order of the C signature
    def int(self, name, lo=0, hi=1 << 32, gen=None, unsigned=True):
        v = ivar(name)
        self.params.append(('int', name, lo, hi, gen))
        self.pre += [le(lo, v), le(v, hi)]
        return v

    def flag(self, name):
        v = ivar(name)
        self.params.append(('bool', name, 0, 1, None))
        self.pre += [le(0, v), le(v, 1)]
        return v

    def real(self, name, gen=None):
        v = rvar(name)
        self.params.append(('real', name, gen))
        return v

    def arr(self, name, length, mode='inout', gen=None):
        a = Arr(self, name, length if isinstance(length, E) else I(length), 'R', mode)
        a.gen = gen
        self.params.append(('arr', a))
        return a

    def iarr(self, name, length, mode='in', gen=None, perm=False, rng=None):
        a = Arr(self, name, length if isinstance(length, E) else I(length), 'I', mode)
        a.gen = gen
        self.params.append(('arr', a))
        if perm or rng is not None:
            hi = rng if rng is not None else a.length
            hi = hi if isinstance(hi, E) else I(hi)
            a.range = hi
            if perm:
                self.perm.add(name)

            def ax(idxs, name=name, hi=hi, n=a.length, perm=perm):
                out = []
                for i in idxs:
                    v = iread(name, i)
                    out.append(bor(ilt(i, I(0)), ile(n, i), band(ile(I(0), v), ilt(v, hi))))
                if perm and len(idxs) <= 8:
                    for x in range(len(idxs)):
                        for y in range(x):
                            i, j = idxs[x], idxs[y]
                            out.append(bor(ilt(i, I(0)), ile(n, i), ilt(j, I(0)), ile(n, j), ieq(i, j),
                                           bnot(ieq(iread(name, i), iread(name, j)))))
                return out
            self.ax[name] = ax
        return a

    def inverse(self, name, a):
        """ghost: the inverse permutation of the index array a"""
        g = Arr(self, name, a.length, 'I', 'in')
        self.inv[name] = a.name

        def ax(idxs, name=name, n=a.length):
            out = []
            for i in idxs:
                v = iread(name, i)
                out.append(bor(ilt(i, I(0)), ile(n, i), band(ile(I(0), v), ilt(v, n))))
            if len(idxs) <= 8:
                for x in range(len(idxs)):
                    for y in range(x):
                        i, j = idxs[x], idxs[y]
                        out.append(bor(ieq(i, j), bnot(ieq(iread(name, i), iread(name, j)))))
            return out
        self.ax[name] = ax

        def find(e, st, args, ins):
            b, n, v = args[0], args[1], args[2]
            b = e.resolve(st, b)
            m = st.mem.get(b.a[0])
            ctx = e.ctx(st.pc)
            if e.regions[b.a[0]].name != a.name or (m is not None and m.kind != 'base') or iconst(b.a[1]) != 0 \
                    or not ctx.entails(ieq(n, subst(a.length, e.mp))) or not ctx.entails(ile(I(0), v)) or not ctx.entails(ilt(v, n)):
                raise Unsupported('search outside the contract of std::find')
            return iread(name, v)
        self.handlers = dict(self.handlers)
        self.handlers['vx_find'] = find
        return g

    def defvec(self, name, n, f):
        """3-vector array whose initial contents are defined by f(i) (a
        universally quantified precondition used as a definition)"""
        a = Arr(self, name, n * 3, 'R', 'def')
        a.defn = (3, f)
        self.params.append(('arr', a))
        return a

    def defarr(self, name, n, f):
        a = Arr(self, name, n if isinstance(n, E) else I(n), 'R', 'def')
        a.defn = (1, lambda i: (f(i),))
        self.params.append(('arr', a))
        return a

    def const(self, name, value, *rel):
        """a mathematical constant: literals of the code within a few ulps of a
        small rational multiple of value are read as that multiple of it"""
        v = rvar(name)
        num.CVAL[name] = float(value)
        self.opts = dict(self.opts)
        self.opts['consts'] = self.opts.get('consts', []) + [(value, v)]
        self.pre.append(lt(R(0), v) if value > 0 else lt(v, R(0)))
        return v

    def requires(self, *cs):
        self.pre += list(cs)

    def skolem(self, name, lo, hi):
        v = ivar('$' + name)
        lo = lo if isinstance(lo, E) else I(lo)
        hi = hi if isinstance(hi, E) else I(hi)
        self._sk = getattr(self, '_sk', {})
        self._sk[v.a[1][0][0]] = (lo, hi)
        return v

    def ensures(self, label, goal, guard=TRUE, tol=None, sample=True):
        """sample=False: not evaluated natively"""
        if not isinstance(goal, E):
            goal = B(goal)
        sk = []
        leaves = fv(goal) | fv(guard)
        for k, (lo, hi) in getattr(self, '_sk', {}).items():
            if k in leaves:
                sk.append((k, lo, hi))
        self.ens.append(Ensure(label, goal, sk, guard, tol or self.tol, sample))

    def replay(self, label, goal, guard=TRUE):
        """only evaluated on native runs, to replay the failure of an obligation
        whose own formula cannot be evaluated (existential bracket ...)"""
        self.ensures(label, goal, guard)
        self.replays.append(self.ens.pop())

    def ghost(self, name):
        """existentially quantified real of the postconditions"""
        return rvar('ghost_' + name)

    def defined(self, label, x, guard=TRUE):
        """no division by zero is evaluated on the way to x"""
        self.ensures(label, rle(R0, rfn('abs', x)), guard)
        self.ens[-1].wd = True

    def ensures_vec(self, label, a, b, guard=TRUE, tol=None):
        for i, n in enumerate('xyz'):
            self.ensures('%s.%s' % (label, n), eq(a[i], b[i]), guard, tol)

    def result(self, sort='R'):
        self.ret = sort
        return rvar('ret') if sort == 'R' else (ivar('ret') if sort == 'I' else bvar('ret'))


# ---------------------------------------------------------------- symbolic run
def divisors(e):
    """(condition, divisor) for every division evaluated in e"""
    out = {}
    seen = set()

    def go(x, cond):
        if (x, cond) in seen:
            return
        seen.add((x, cond))
        if x.op == '/':
            if rconst(x.a[1]) is None:
                out[(cond, x.a[1])] = 1
        if x.op == 'ite':
            go(x.a[0], cond)
            go(x.a[1], band(cond, x.a[0]))
            go(x.a[2], band(cond, bnot(x.a[0])))
            return
        for y in x.a:
            if isinstance(y, E):
                go(y, cond)
            elif isinstance(y, tuple):
                for k, v in y:
                    go(k, cond)
    go(e, TRUE)
    return list(out)


def expand(e):
    """unroll sums/folds with constant ranges"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'sum':
            hi = go(x.a[1])
            c = iconst(hi)
            if c is not None and c <= 64:
                r = R0
                for k in range(c):
                    r = radd(r, go(subst(x.a[2], {x.a[0]: I(k)})))
            else:
                r = rsum(x.a[0], I(0), hi, go(x.a[2]))
        elif x.op == 'fold':
            hi = go(x.a[2])
            c = iconst(hi)
            if c is not None and c <= 64:
                r = go(x.a[4])
                for k in range(c):
                    v = go(subst(x.a[3], {x.a[1]: I(k)}))
                    r = ite(rlt(r, v), v, r) if x.a[0] == 'max' else ite(rlt(v, r), v, r)
            else:
                r = rebuild(x, go)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(e)


class Run:
    """one symbolic execution of a contract's function (optionally with some
    integer parameters fixed)"""

    def __init__(self, c, module, fixed=None):
        self.c = c
        self.fixed = fixed or {}
        mp = {ivar(k).a[1][0][0]: I(v) for k, v in self.fixed.items()}
        self.mp = mp
        self.pre = [subst(p, mp) for p in c.pre]
        expr.CONSTS[:] = c.opts.get('consts', [])
        PERM.clear()
        PERM.update(c.perm)
        expr.INV.clear()
        for k, v in c.inv.items():
            expr.INV[k], expr.INV[v] = v, k
            PERM.add(k)
        AX.clear()
        for k, f in c.ax.items():
            AX[k] = (lambda idxs, f=f: [subst(x, mp) for x in f(idxs)]) if mp else f
        self.ex = Exec(module, handlers=c.handlers, facts=self.pre, unroll=c.unroll if not fixed else max(c.unroll, 80), opts=dict(c.opts))
        if fixed:
            self.ex.opts['unroll_first'] = True
        self.ex.contract = c
        self.ex.mp = mp
        fn_ = module.funcs.get('@' + c.fname)
        if fn_ is None:
            raise Unsupported('function %s not found in the extracted IR' % c.fname)
        args = []
        self.reg = {}
        for p in c.params:
            if p[0] in ('int',):
                args.append(subst(ivar(p[1]), mp))
            elif p[0] == 'bool':
                args.append(bnot(ieq(subst(ivar(p[1]), mp), I(0))))
            elif p[0] == 'real':
                args.append(rvar(p[1]))
            else:
                a = p[1]
                base = ('sym', a.name, 8, a.sort)
                if a.mode == 'def':
                    w, f = a.defn
                    if mp:
                        f = (lambda i, f=f: [subst(x, mp) for x in f(i)])
                    base = ('fn', a.name, w, f)
                rid = self.ex.region(a.name, base)
                self.reg[a.name] = rid
                args.append(ptr(rid, I(0)))
        # bool params arrive as i1
        for i, ((t, _), v) in enumerate(zip(fn_.params, args)):
            rt = module.types.resolve(t)
            if rt == ('i', 1) and v.sort == 'I':
                args[i] = bnot(ieq(v, I(0)))
            if rt[0] == 'i' and rt[1] > 1 and v.sort == 'B':
                args[i] = ite(v, I(1), I(0))
        self.ex.opts.setdefault('arg_regions', set())
        self.ex.opts['arg_regions'] = set(self.reg.values())
        out = self.ex.run_body(fn_, args, St({}, {}, ()))
        if out is None:
            self.st, self.ret = None, None
        else:
            self.st, self.ret = out

    def outs(self, e, ctx):
        """replace references to the new state by the computed closed forms"""
        names = {n + "'": rid for n, rid in self.reg.items()}
        memo = {}

        def isout(x):
            return (x.op in ('rd', 'ird') and x.a[0] in names) or (x.op in ('rvar', 'ivar', 'bvar') and x.a[0] == 'ret')
        if not contains(e, isout):
            return e

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ('rd', 'ird') and x.a[0] in names:
                rid = names[x.a[0]]
                r = self.ex.read(self.ex.mem_of(self.st, rid), imulc(go(x.a[1]), 8), 'R' if x.op == 'rd' else 'I', 8, ctx)
            elif x.op in ('rvar', 'ivar', 'bvar') and x.a[0] == 'ret':
                r = self.ret
                if r.sort == 'B' and x.op == 'ivar':
                    r = ite(r, I(1), I(0))
                if r.sort == 'I' and x.op == 'bvar':
                    r = bnot(ieq(r, I(0)))
            elif x.op == 'sum':
                k = at_lin(x.a[0])
                c2 = ctx.plus(ile(I(0), k), ilt(k, x.a[1]))
                r = rsum(x.a[0], I(0), x.a[1], self.outs(x.a[2], c2))
            elif x.op == 'fold':
                k = at_lin(x.a[1])
                c2 = ctx.plus(ile(I(0), k), ilt(k, x.a[2]))
                r = rfold(x.a[0], x.a[1], x.a[2], self.outs(x.a[3], c2), go(x.a[4]))
            elif x.op == 'ite':
                cc = go(x.a[0])
                r = ite(cc, self.outs(x.a[1], ctx.plus(cc)), self.outs(x.a[2], ctx.plus(bnot(cc))))
            else:
                r = rebuild(x, go)
            memo[x] = r
            return r
        return go(e)

    def discharge(self, en, trail):
        """True proved / False refuted-or-not-shown"""
        mp = self.mp
        goal, guard = subst(en.goal, mp), subst(en.guard, mp)
        rngs = [(k, subst(lo, mp), subst(hi, mp)) for k, lo, hi in en.skolems]
        if self.fixed:
            # enumerate skolems
            def rec(i, m):
                if i == len(rngs):
                    return self.one(expand(subst(goal, m)), expand(subst(guard, m)), [], trail)
                k, lo, hi = rngs[i]
                lo, hi = iconst(subst(lo, m)), iconst(subst(hi, m))
                if lo is None or hi is None:
                    return self.one(expand(subst(goal, m)), expand(subst(guard, m)),
                                    [f for k, lo, hi in rngs[i:] for f in (ile(subst(lo, m), at_lin(k)), ilt(at_lin(k), subst(hi, m)))], trail)
                for v in range(lo, hi):
                    m2 = dict(m)
                    m2[k] = I(v)
                    if not rec(i + 1, m2):
                        return False
                return True
            return rec(0, {})
        facts = [f for k, lo, hi in rngs for f in (ile(lo, at_lin(k)), ilt(at_lin(k), hi))]
        self.wd = en.wd
        return self.one(goal, guard, facts, trail)

    def one(self, goal, guard, facts, trail):
        if self.st is None:
            # every path aborts
            return Ctx(self.pre + facts).unsat()
        pc = list(self.st.pc)
        ctx0 = Ctx(list(self.pre) + facts + pc)
        guard = self.outs(guard, ctx0)
        ctx = ctx0.plus(guard) if guard is not TRUE else ctx0
        if ctx.unsat():
            return True
        goal = self.outs(goal, ctx)
        if self.fixed:
            goal = expand(goal)
        if getattr(self, 'wd', False):
            g = band(*[bor(bnot(cond), bnot(req(d, R0))) for cond, d in divisors(goal)])
            cn = Canon()
            if prove_abs([cn.go(f) for f in ctx.facts], cn.go(g), cn):
                STATS['abstracted'] = STATS.get('abstracted', 0) + 1
                return True
            return prove(g, ctx, trail)
        gs = sorted((v for v in fv(goal) if isinstance(v, E) and v.op in ('rvar', 'ivar') and str(v.a[0]).startswith('ghost_')), key=lambda v: v.a[0])
        if gs:
            # existential: witnesses among the variables of the loops cut by an invariant
            import itertools
            pool = [x for g in self.ex.ghosts for x in g]
            for w in itertools.permutations(pool, len(gs)):
                mp = {g: x for g, x in zip(gs, w) if g.sort == x.sort or g.sort == 'I'}
                if len(mp) < len(gs) or any(at_lin(g).sort != x.sort if g.op == 'ivar' else x.sort != 'R' for g, x in mp.items()):
                    continue
                try:
                    if prove(subst(goal, mp), ctx, None, 4000):
                        return True
                except Undecided:
                    pass
            return False
        if self.c.opts.get('alpha'):
            facts, pc, guard, goal = [alpha(f) for f in facts], [alpha(f) for f in pc], alpha(guard), alpha(goal)
            ctx = Ctx([alpha(f) for f in self.pre] + facts + pc + [guard])
        if self.c.opts.get('canon'):
            # deterministic polynomial form of everything compared
            trig = self.c.opts['canon'] == 'trig'
            if trig:
                known = {}
                for f in self.pre:
                    for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])) if f.op == 'req' else ():
                        if x.op in ('rvar', 'rd') and rconst(y) is not None:
                            known[x] = y
                sub = (lambda z: subst(z, known)) if known else (lambda z: z)
                facts, pc, guard, goal = [sub(f) for f in facts], [sub(f) for f in pc], sub(guard), sub(goal)
                ctx = Ctx([sub(f) for f in self.pre] + facts + pc + [guard])
                goal = simp(goal, ctx)
            cn = Canon(ctx=ctx if trig else None)
            ctx = Ctx([cn.go(f) for f in list(self.pre) + facts + pc + [guard]])
            goal = cn.go(goal)
            if prove_abs(ctx.facts, goal, cn):
                STATS['abstracted'] = STATS.get('abstracted', 0) + 1
                return True
        return prove(goal, ctx, trail)

    def check_aborts(self, trail):
        """abort paths are infeasible under pre (and the contract's abort condition)"""
        c = self.c
        for pc, why in self.ex.aborts:
            if isinstance(why, Exception):
                ctx = Ctx(list(self.pre) + list(pc))
                if not ctx.unsat() and not ctx.unsat_real():
                    raise why
        if c.aborts == 'any':
            return True
        allowed = FALSE if c.aborts is None else subst(c.aborts, self.mp)
        for pc, why in self.ex.aborts:
            if isinstance(why, Exception):
                continue
            ctx = Ctx(list(self.pre) + list(pc))
            if ctx.unsat():
                continue
            if allowed is FALSE:
                if not ctx.unsat_real():
                    trail.append(list(pc))
                    return False
            elif not prove(allowed, ctx, trail):
                return False
        if c.aborts is not None and self.st is not None:
            # the normal path must not be taken when abort is required
            ctx = Ctx(list(self.pre) + list(self.st.pc))
            if not prove(bnot(allowed), ctx, trail):
                return False
        return True


# ---------------------------------------------------------------- native runs
class Native:
    def __init__(self, c):
        self.lib = ctypes.CDLL(build.native(c.harness, c.defs))
        self.f = getattr(self.lib, c.fname)
        self.c = c
        ats = []
        for p in c.params:
            ats.append({'int': ctypes.c_int64, 'bool': ctypes.c_bool, 'real': ctypes.c_double}.get(p[0], ctypes.c_void_p))
        self.f.argtypes = ats
        self.f.restype = {'R': ctypes.c_double, 'I': ctypes.c_int64, 'B': ctypes.c_bool, None: None}[c.ret]

    def run(self, inp):
        """inp: name -> value/list; returns (ret, outputs name'->list)"""
        args = []
        bufs = {}
        for p in self.c.params:
            if p[0] in ('int', 'bool'):
                args.append(inp[p[1]])
            elif p[0] == 'real':
                args.append(inp[p[1]])
            else:
                a = p[1]
                ty = ctypes.c_double if a.sort == 'R' else ctypes.c_int64
                vals = inp[a.name]
                pad = 64
                b = (ty * (len(vals) + pad))(*(list(vals) + [0] * pad))
                bufs[a.name] = (b, len(vals))
                args.append(ctypes.cast(b, ctypes.c_void_p))
        r = self.f(*args)
        return r, {k + "'": list(b[:n]) for k, (b, n) in bufs.items()}


def sample_input(c, rng, specials=(), k=0):
    """a random input; None if not satisfying the precondition"""
    if c.sampler is not None:
        inp = c.sampler(rng, k)
    else:
        inp = {}
        for p in c.params:
            if p[0] in ('int', 'bool'):
                _, name, lo, hi, gen = p
                if gen is not None:
                    v = gen(rng)
                elif p[0] == 'bool':
                    v = rng.randint(0, 1)
                else:
                    v = rng.randint(lo, min(hi, lo + 6))
                    if hi <= 4096 and k % 2:
                        v = rng.randint(lo, hi)
                    elif k % 17 == 16:
                        v = rng.randint(lo, min(hi, lo + 40))
                inp[name] = v
        env = Ev0(inp)
        for p in c.params:
            if p[0] == 'real':
                inp[p[1]] = p[2](rng) if p[2] else rnd(rng, k, specials)
        for p in sorted(c.params, key=lambda p: p[0] == 'arr' and p[1].mode == 'def'):
            if p[0] == 'arr':
                a = p[1]
                n = env.i(a.length)
                if a.mode == 'def':
                    continue
                if a.gen is not None:
                    inp[a.name] = [a.gen(rng) for _ in range(n)]
                elif a.sort == 'R':
                    inp[a.name] = [rnd(rng, k, specials) for _ in range(n)]
                elif a.name in c.perm:
                    v = list(range(n))
                    rng.shuffle(v)
                    inp[a.name] = v
                elif hasattr(a, 'range'):
                    h = env.i(a.range)
                    inp[a.name] = [rng.randrange(max(1, h)) for _ in range(n)]
                else:
                    inp[a.name] = [rng.randint(0, 5) for _ in range(n)]
    fill_defs(c, inp)
    return inp


def fill_defs(c, inp):
    """arrays whose contents are defined by the precondition"""
    env = Ev0(inp)
    for p in c.params:
        if p[0] == 'arr' and p[1].mode == 'def':
            a = p[1]
            w, f = a.defn
            n = env.i(a.length)
            ev = Ev0(inp)

            def dv(x):
                try:
                    return ev.r(_co(x, R0))[0]
                except num.Skip:
                    return 0.0
            inp[a.name] = [dv(x) for i in range(n // w) for x in f(I(i))]


def Ev0(inp):
    env = {k: v for k, v in inp.items() if not isinstance(v, list)}
    m = 1.0
    for v in inp.values():
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, float) and x == x and abs(x) < 1e60:
                m = max(m, abs(x))
    e = num.Ev(env, {k: v for k, v in inp.items() if isinstance(v, list)})
    e.scale = m
    return e


def rnd(rng, k, specials):
    m = k % 5
    if specials and rng.random() < (0.25 if m == 4 else 0.08):
        s = rng.choice(specials)
        return s * rng.choice([1, 1, 0.5, 2, 1 + 1e-9, 1 - 1e-9, -1])
    if m == 1:
        return float(rng.randint(-3, 3)) or 0.5
    if m == 2:
        return rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 3)
    return rng.uniform(-2, 2)


def sat_pre(c, inp):
    ev = Ev0(inp)
    try:
        for p in c.pre:
            if not strict(p, ev):
                return False
    except num.Skip:
        return False
    return True


def strict(p, ev):
    return ev.b(p)


def eval_post(c, inp, ret, outs, tol_scale=1.0):
    """list of violated ensures: (label, detail)"""
    bad = []
    done = 0
    ev = Ev0(inp)
    ev.arrays.update(outs)
    if ret is not None:
        ev.env['ret'] = ret
    for en in c.ens + c.replays:
        if not en.sample or any(str(v.a[0]).startswith('ghost_') for v in fv(en.goal)):
            continue

        def rec(i, e):
            nonlocal done
            if i == len(en.skolems):
                try:
                    if en.guard is not TRUE and not e.b(en.guard):
                        return None
                    ok = num.check(en.goal, e, en.tol * tol_scale)
                    done += 1
                except num.Skip:
                    return None
                if ok:
                    return None
                d = {str(k[0].a[0]): e.env[k[0].a[0]] for k in en.skolems}
                if en.goal.op == 'req':
                    try:
                        d['got'] = e.r(en.goal.a[0])[0]
                        d['expected'] = e.r(en.goal.a[1])[0]
                    except num.Skip:
                        pass
                return d
            k, lo, hi = en.skolems[i]
            for v in range(e.i(lo), e.i(hi)):
                e2 = num.Ev(dict(e.env), e.arrays)
                e2.env[k.a[0]] = v
                e2.scale = e.scale
                r = rec(i + 1, e2)
                if r is not None:
                    return r
            return None
        try:
            r = rec(0, ev)
        except num.Skip:
            r = None
        if r is not None:
            bad.append((en.label, r))
    return bad, done


def native_batch(c, inputs, per_timeout=20.0):
    """run inputs in a child process; returns list of (kind, ret, outs) kind in
    'ok','abort','crash','hang','skip'"""
    res = [None] * len(inputs)
    i = 0
    build.native(c.harness, c.defs)
    aborts = 0
    while i < len(inputs):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                d = build.tmpdir()
                sc = os.path.join(d, 'run%d' % os.getpid())
                os.makedirs(sc, exist_ok=True)
                os.chdir(sc)
                nat = Native(c)
                import pickle
                for j in range(i, len(inputs)):
                    out = nat.run(inputs[j])
                    b = pickle.dumps((j, out))
                    os.write(w, struct.pack('<Q', len(b)))
                    v = memoryview(b)
                    while v:
                        n = os.write(w, v)
                        v = v[n:]
                b = pickle.dumps((-1, None))
                os.write(w, struct.pack('<Q', len(b)) + b)
            except BaseException:
                os._exit(77)
            os._exit(0)
        os.close(w)
        import pickle
        import select
        nxt = i
        finished = False

        def rd(n):
            buf = b''
            t1 = time.time() + per_timeout
            while len(buf) < n:
                to = t1 - time.time()
                if to <= 0:
                    return 'hang'
                rl, _, _ = select.select([r], [], [], to)
                if not rl:
                    return 'hang'
                x = os.read(r, n - len(buf))
                if not x:
                    return 'eof'
                buf += x
            return buf
        why = None
        while True:
            h = rd(8)
            if h in ('hang', 'eof'):
                why = h
                break
            b = rd(struct.unpack('<Q', h)[0])
            if b in ('hang', 'eof'):
                why = b
                break
            j, out = pickle.loads(b)
            if j == -1:
                finished = True
                break
            res[j] = ('ok',) + out
            nxt = j + 1
        if why == 'hang':
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if finished:
            break
        if nxt >= len(inputs):
            break
        if why == 'hang':
            res[nxt] = ('hang', None, None)
        elif os.WIFSIGNALED(status):
            res[nxt] = ('crash', os.WTERMSIG(status), None)
        elif os.WEXITSTATUS(status) == 77:
            res[nxt] = ('skip', None, None)
        else:
            res[nxt] = ('abort', None, None)
            aborts += 1
        i = nxt + 1
        if aborts > 60:
            break
    return res


def native_search(c, rng, count, specials=(), extra=(), deadline=None, loose=1.0):
    """random (and suggested) inputs against the compiled code.
    returns dict(tested, evaluated, violation or None)"""
    tested = ev = 0
    pend = [x for x in extra if sat_pre(c, x)]
    k = 0
    tries = 0
    while tested < count:
        batch = []
        while len(batch) < min(200, count - tested) and tries < count * 60:
            tries += 1
            if pend:
                inp = pend.pop()
            else:
                inp = sample_input(c, rng, specials, k)
                k += 1
            if inp is None or not sat_pre(c, inp):
                continue
            batch.append(inp)
        if not batch:
            break
        for inp, r in zip(batch, native_batch(c, batch)):
            if r is None or r[0] == 'skip':
                continue
            tested += 1
            if r[0] in ('crash', 'hang'):
                return dict(tested=tested, evaluated=ev, violation=dict(kind=r[0], input=inp, obligations=[[r[0], {'signal': r[1]}]]))
            if r[0] == 'abort':
                if c.aborts == 'any':
                    continue
                al = False
                if c.aborts is not None:
                    try:
                        al = num.check(c.aborts, Ev0(inp))
                    except num.Skip:
                        al = True
                if not al:
                    return dict(tested=tested, evaluated=ev, violation=dict(kind='abort', input=inp, obligations=[['no-abort', {}]]))
                continue
            if c.aborts is not None and c.aborts != 'any':
                try:
                    if num.check(c.aborts, Ev0(inp)) and not num.check(bnot(c.aborts), Ev0(inp)):
                        return dict(tested=tested, evaluated=ev, violation=dict(kind='no-abort', input=inp, obligations=[['must-abort', {}]]))
                except num.Skip:
                    pass
            bad, done = eval_post(c, inp, r[1], r[2], loose)
            ev += done
            if bad:
                return dict(tested=tested, evaluated=ev,
                            violation=dict(kind='postcondition', input=inp, obligations=[list(b) for b in bad], ret=r[1],
                                           outputs=r[2]))
        if deadline and time.time() > deadline:
            break
    return dict(tested=tested, evaluated=ev, violation=None)


def ir_constants(module, fname):
    """literal reals appearing in the function (search hints)"""
    out = set()
    seen = set()
    todo = ['@' + fname]
    while todo:
        f = todo.pop()
        if f in seen or f not in module.funcs:
            continue
        seen.add(f)
        try:
            body = module.body(module.funcs[f])
        except Exception:
            continue
        fb = module.funcs[f]
        for b in fb.blocks.values():
            for ins in b:
                for a in ins.args:
                    st = [a]
                    while st:
                        x = st.pop()
                        if isinstance(x, tuple):
                            if len(x) == 2 and x[0] == 'c' and isinstance(x[1], (Fraction, float)):
                                try:
                                    v = float(x[1])
                                    if v == v and abs(v) < 1e12 and v != 0:
                                        out.add(v)
                                except OverflowError:
                                    pass
                            elif len(x) == 2 and x[0] == 'glob':
                                todo.append(x[1])
                            else:
                                st += [y for y in x if isinstance(y, tuple)]
    return sorted(out)


def model_inputs(c, trail, rng):
    """inputs suggested by a model of the failing case"""
    out = []
    if not trail:
        return out
    try:
        r, m, zz = z3_unsat(list(trail[0]), 3000, want_model=True)
    except Exception:
        return out
    if m is None:
        return out
    import z3
    for t in range(6):
        inp = sample_input(c, rng, (), t)
        if inp is None:
            continue
        try:
            for e, z in list(zz.m.items()):
                if e.op == 'ivar' and e.a[0] in inp and not isinstance(inp[e.a[0]], list):
                    v = m.eval(z, model_completion=False)
                    if z3.is_int_value(v) and abs(v.as_long()) < 200:
                        inp[e.a[0]] = v.as_long()
            env = Ev0(inp)
            for p in c.params:
                if p[0] == 'arr':
                    n = env.i(p[1].length)
                    l = inp[p[1].name]
                    while len(l) < n:
                        l.append(rnd(rng, t, ()) if p[1].sort == 'R' else len(l))
                    inp[p[1].name] = l[:n] if p[1].name not in c.perm else list(range(n))
            for e, z in list(zz.m.items()):
                if e.op == 'rvar' and e.a[0] in inp:
                    v = m.eval(z)
                    if z3.is_rational_value(v):
                        inp[e.a[0]] = float(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        inp[e.a[0]] = float(v.approx(20).as_fraction())
                elif e.op == 'rd' and e.a[0] in inp:
                    ix = m.eval(zz.i(e.a[1]))
                    v = m.eval(z)
                    if z3.is_int_value(ix) and 0 <= ix.as_long() < len(inp[e.a[0]]):
                        if z3.is_rational_value(v):
                            inp[e.a[0]][ix.as_long()] = float(v.as_fraction())
                        elif z3.is_algebraic_value(v):
                            inp[e.a[0]][ix.as_long()] = float(v.approx(20).as_fraction())
            fill_defs(c, inp)
            out.append(inp)
        except Exception:
            continue
    return out


# ---------------------------------------------------------------- one contract
def run_contract(c, tier, seed, known=None):
    """returns a result record"""
    t0 = time.time()
    rec = dict(id=c.id, function=c.fname, harness=c.harness, title=c.title, obligations=[], side=0, loops=[], mode=None,
               native=None, violation=None, errors=[], note=c.note)
    budget = c.budget or (150 if tier == 'quick' else 600)
    rng = random.Random(seed * 7919 + hash_str(c.id))
    module = None
    trails = []
    specials = list(c.specials)
    st0 = dict(STATS)
    failed = []
    try:
        module = Module(build.to_ir(c.harness, c.defs))
        specials += ir_constants(module, c.fname)[:60]
    except build.BuildError as e:
        rec['errors'].append('extraction: ' + str(e)[-1500:])
    except Exception as e:
        rec['errors'].append('IR: %r' % (e,))
    # vacuity: the precondition has a model
    if module is not None:
        done = False
        if not c.only_bounded:
            DEADLINE[0] = time.time() + budget * 0.6
            try:
                done = symbolic(c, module, None, rec, trails, failed)
            except (Unsupported, IRError, Undecided, Budget, RecursionError) as e:
                rec['errors'].append('unbounded: %s: %s' % (type(e).__name__, str(e)[:400]))
            except Exception as e:
                rec['errors'].append('unbounded: internal %s' % traceback.format_exc()[-800:])
        und = [] if done else None
        if not done and c.bounded:
            rec['obl_unbounded'] = rec['obligations']
            failed_u = list(failed)
            skip = {o['label'] for o in rec['obligations'] if o['status'] == 'proved'}
            okb, obl, tr2 = bounded(c, module, rec, time.time() + budget, skip)
            if okb:
                # obligations proved without bound keep that status
                pu = {o['label']: o for o in rec['obligations'] if o['status'] == 'proved'}
                bo = {o['label']: o for o in obl}
                bo.update(pu)
                rec['obligations'] = [bo[k] for k in ([obl[0]['label']] + [e.label for e in c.ens]) if k in bo]
                failed = []
            else:
                if obl is not None:
                    failed = [o['label'] for o in obl if o['status'] != 'bounded']
                    rec['obligations'] = obl
                elif not failed:
                    failed = ['*']
                trails += tr2
        elif not done and not failed:
            failed = ['*']
        DEADLINE[0] = None
        if not rec['obligations']:
            rec['obligations'] = [dict(label=en.label, status='undecided') for en in c.ens]
    else:
        failed = ['extraction']
        rec['obligations'] = [dict(label=en.label, status='undecided') for en in c.ens]
    # native: witnesses of the precondition, cross-check, and search on failure
    if c.native:
        try:
            extra = []
            extra += [dict(x) for x in getattr(c, 'examples', [])]
            for tr in trails[:4]:
                extra += model_inputs(c, [tr], rng)
            n = c.samples if not failed else max(c.samples, 4000 if tier == 'quick' else 40000)
            if tier == 'thorough' and not failed:
                n *= 10
            r = native_search(c, rng, n, specials, extra, deadline=time.time() + (90 if failed else 60),
                              loose=1.0 if failed else 1000.0)
            rec['native'] = dict(tested=r['tested'], evaluated=r['evaluated'])
            if r['violation']:
                rec['violation'] = r['violation']
        except build.BuildError as e:
            rec['errors'].append('native build: ' + str(e)[-1200:])
            if not failed:
                failed = ['native-build']
        except Exception:
            rec['errors'].append('native: ' + traceback.format_exc()[-800:])
    rec['failed'] = failed
    rec['trail'] = [[show(f)[:300] for f in tr[-12:]] for tr in trails[:3]]
    rec['wall'] = time.time() - t0
    rec['stats'] = {k: STATS[k] - st0.get(k, 0) for k in STATS}
    return rec


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % (1 << 31)
    return h


def symbolic(c, module, fixed, rec, trails, failed, skip=()):
    r = Run(c, module, fixed)
    if z3_unsat([p for p in r.pre], 5000) is True:
        raise Unsupported('vacuous precondition')
    if r.st is not None and Ctx(list(r.pre) + list(r.st.pc)).unsat_real(3000):
        raise Unsupported('vacuous: no feasible normal return')
    rec['loops'] = r.ex.notes[:30]
    rec['side'] += r.ex.obl
    allok = True
    obl = []
    tr = []
    try:
        ok = r.check_aborts(tr)
    except Undecided:
        ok = False
    obl.append(dict(label='no-abort' if c.aborts is None else 'abort-condition', status='proved' if ok else 'failed'))
    if not ok:
        failed.append(obl[-1]['label'])
        trails += tr[:1]
        allok = False
    end = DEADLINE[0]
    for n, en in enumerate(c.ens):
        if en.label in skip:
            continue
        tr = []
        t1 = time.time()
        if end:
            left = end - t1
            DEADLINE[0] = t1 + max(min(left, 8), left / max(1, (len(c.ens) - n)) * 2)
        try:
            ok = r.discharge(en, tr)
            st = 'proved' if ok else 'failed'
        except (Undecided, Budget, Unsupported, LoopFail, RecursionError) as e:
            ok = False
            st = 'undecided: %s %s' % (type(e).__name__, str(e)[:120])
        obl.append(dict(label=en.label, status=st, t=round(time.time() - t1, 3)))
        if not ok:
            failed.append(en.label)
            if tr:
                trails.append(tr[0])
            allok = False
    DEADLINE[0] = end
    rec['obligations'] = obl
    rec['mode'] = 'unbounded'
    return allok


def bounded(c, module, rec, deadline, skip=()):
    """bounded stand-in: integer parameters fixed, everything else symbolic"""
    import itertools
    keys = list(c.bounded)
    combos = list(itertools.product(*[c.bounded[k] for k in keys]))
    agg = None
    DEADLINE[0] = deadline
    trs = []
    for combo in combos:
        fx = dict(zip(keys, combo))
        rr = dict(obligations=[], loops=[], side=0)
        tr, fl = [], []
        try:
            ok = symbolic(c, module, fx, rr, tr, fl, skip)
        except (Unsupported, IRError, Undecided, Budget, RecursionError) as e:
            if 'vacuous precondition' in str(e):
                continue
            rec['errors'].append('bounded %s: %s: %s' % (fx, type(e).__name__, str(e)[:300]))
            return False, None, trs
        except Exception:
            rec['errors'].append('bounded %s: internal %s' % (fx, traceback.format_exc()[-800:]))
            return False, None, trs
        rec['side'] += rr['side']
        trs += tr
        if agg is None:
            agg = [dict(label=o['label'], status='bounded', bound=str(c.bounded)) for o in rr['obligations']]
        for a, o in zip(agg, rr['obligations']):
            if o['status'] != 'proved':
                a['status'] = o['status'] + ' at %s' % fx
        if not ok:
            return False, agg, trs
    if agg is None:
        return False, None, trs
    rec['mode'] = 'bounded %s' % (c.bounded,)
    return True, agg, trs
