"""Symbolic execution of LLVM IR with per-iteration loop summaries.

Every loop is replaced by its strongest inductive invariant in closed form
(state as a function of the iteration number t), derived from the effect of one
symbolic iteration; derivation obligations (non-interference, trip count) are
discharged by prove.py.  Loops outside that class are unrolled completely when
their bound is decided, or need an invariant given in the contract."""
import re
import time
from fractions import Fraction
from math import gcd
from .expr import *
from . import expr
from .ir import cfg_info, IRError
from .prove import Ctx, simp, prove_eq, prove, Undecided, Budget, tick, find_ite, z3_unsat, axioms_for, int_only
from .prove import perm_simplify, PERM
from .expr import INV


class Unsupported(Exception):
    pass


class LoopFail(Unsupported):
    pass


class ConstTrip(LoopFail):
    pass


def rounds_first(ex, L, ct):
    return True


# ------------------------------------------------------------------ memory
class Mem:
    __slots__ = ('kind', 'parent', 'd')

    def __init__(self, kind, parent, d):
        self.kind, self.parent, self.d = kind, parent, d


_rid = [0]


class Region:
    def __init__(self, name, base):
        _rid[0] += 1
        self.id = _rid[0]
        self.name = name
        self.base = base

    def __repr__(self):
        return self.name


def off_rel(r, s, w, z):
    """relation of access [r,r+s) to [w,w+z): 'eq','ne', ('maybe',cond), 'partial'"""
    d = isub(r, w)
    c = iconst(d)
    if c is not None:
        if c == 0 and s == z:
            return 'eq'
        if c >= z or c <= -s:
            return 'ne'
        return 'partial'
    g = 0
    for _, v in d.a[1]:
        g = gcd(g, v)
    m = d.a[0] % g
    if m >= z and m <= g - s:
        return 'ne'
    if m == 0 and s == z and g >= s:
        return ('maybe', eq0(d))
    if s == z and g % s == 0 and d.a[0] % s == 0:
        return ('maybe', eq0(d))
    return 'partial'


SORTSZ = {'R': 8, 'P': 8}


class St:
    __slots__ = ('regs', 'mem', 'pc', 'pts')

    def __init__(self, regs, mem, pc):
        self.regs, self.mem, self.pc = regs, mem, pc

    def copy(self):
        return St(dict(self.regs), dict(self.mem), self.pc)


class Agg(tuple):
    pass


def conv(v, sort, size=8):
    """reinterpret stored value v as sort"""
    if v.sort == sort or v.sort == 'U':
        return v
    if v.op == 'ite' and v.sort != 'I':
        return ite(v.a[0], conv(v.a[1], sort), conv(v.a[2], sort))
    if sort == 'R' and v.sort == 'I' and iconst(v) == 0:
        return R0
    if sort == 'I' and v.sort == 'R':
        if v is R0:
            return I(0)
        return at_lin(mk('bits', (v,), 'I'))
    if sort == 'R' and v.sort == 'I':
        t = v.a[1]
        if len(t) == 1 and v.a[0] == 0 and t[0][1] == 1:
            k = t[0][0]
            if k.op == 'bits':
                return k.a[0]
            if k.op == 'ird':
                return rread(k.a[0], k.a[1])
            if k.op == 'ite':
                return ite(k.a[0], conv(k.a[1], 'R'), conv(k.a[2], 'R'))
    if sort == 'I' and v.sort == 'B':
        return ite(v, I(1), I(0))
    if sort == 'B' and v.sort == 'I':
        return bnot(ieq(v, I(0)))
    if sort == 'P' and v.sort == 'I':
        if iconst(v) == 0:
            return NULL
        t = v.a[1]
        if len(t) == 1 and t[0][1] == 1 and t[0][0].op == 'p2i':
            return ptr(t[0][0].a[0], I(v.a[0]))
    if sort == 'I' and v.sort == 'P':
        return p2i(v)
    raise Unsupported('value of sort %s used as %s: %s' % (v.sort, sort, show(v)[:100]))


def p2i(v):
    if v is NULL:
        return I(0)
    if v.op == 'ptr':
        return iadd(at_lin(mk('p2i', (v.a[0],), 'I')), v.a[1])
    if v.op == 'ite':
        return ite(v.a[0], p2i(v.a[1]), p2i(v.a[2]))
    return at_lin(mk('p2iv', (v,), 'I'))


class InvView:
    """loop variables and memory at a loop head, for candidate invariants"""

    def __init__(self, ex, phis, st, init, st0, cells=(), ph=None):
        self.ex, self.st, self.st0 = ex, st, st0
        self.R, self.I, self.B, self.R0, self.I0 = [], [], [], [], []
        for p in phis:      # a value still undefined is an arbitrary one
            so = ph[p.res].sort

            def val(v):
                if v.sort == so or v.sort != 'U':
                    return v
                n = fresh_name('u')
                return rvar(n) if so == 'R' else ivar(n) if so == 'I' else bvar(n)
            if so in 'RIB':
                getattr(self, so).append(val(st.regs[p.res]))
            if so in 'RI':
                getattr(self, so + '0').append(val(init[p.res]))

        self.cells = cells

    def cell(self, sort):
        """values of the memory cells the loop is known to modify"""
        return [self.ex.read(self.ex.mem_of(self.st, rid), off, sort, size, self.ex.ctx(self.st.pc))
                for (rid, k), (off, size, X) in self.cells.items() if X.sort == sort]

    def mem(self, name, i=0, sort='R', old=False):
        st = self.st0 if old else self.st
        rs = list(self.ex.regions.items())
        for rid, r in [x for x in rs if x[1].name == name] + [x for x in rs if str(x[1].name).startswith('var@') and name in x[1].name]:
                i = I(i) if isinstance(i, int) else i
                return self.ex.read(self.ex.mem_of(st, rid), imulc(i, 8), sort, 8, self.ex.ctx(st.pc))
        raise Unsupported('no region ' + name)

    def raw(self, name, off, sort, size):
        for rid, r in self.ex.regions.items():
            if r.name == name:
                return self.ex.read(self.ex.mem_of(self.st, rid), off, sort, size, self.ex.ctx(self.st.pc))
        raise Unsupported('no region ' + name)


class Exec:
    def __init__(self, module, handlers=None, facts=(), unroll=40, opts=None):
        self.m = module
        self.handlers = handlers or {}
        self.facts = tuple(facts)       # global preconditions
        self.unroll = unroll
        self.opts = opts or {}
        self.regions = {}
        self.globs = {}
        self.ctxs = {}
        self.aborts = []
        self.ghosts = []
        self.in_inv = 0                # (pc, reason)
        self.notes = []                 # loop summaries established
        self.obl = 0                    # side obligations discharged
        self.depth = 0
        self.hm = {}                    # header-memory id -> info
        self.loopinv = self.opts.get('loopinv', {})
        self.trace = self.opts.get('trace')

    # ---------------------------------------------------------------- util
    demand = {}

    def region(self, name, base):
        r = Region(name, base)
        self.regions[r.id] = r
        return r.id

    def ctx(self, pc):
        c = self.ctxs.get(pc)
        if c is None:
            if len(self.ctxs) > 3000:
                self.ctxs.clear()
            c = Ctx(self.facts + pc)
            self.ctxs[pc] = c
        return c

    def mem_of(self, st, rid):
        m = st.mem.get(rid)
        if m is None:
            m = Mem('base', None, self.regions[rid].base)
            st.mem[rid] = m
        return m

    # ---------------------------------------------------------------- reads
    def read(self, m, off, sort, size, ctx):
        pend = []       # (cond, value)
        while True:
            k = m.kind
            if k == 'store':
                w, z, v = m.d
                r = off_rel(off, size, w, z)
                if r == 'eq':
                    res = conv(v, sort)
                    break
                if r == 'ne':
                    m = m.parent
                    continue
                if r == 'partial':
                    res = self.partial(m, off, sort, size, ctx)
                    if res is not None:
                        break
                    if self.never(ctx, off, size, w, z):
                        m = m.parent
                        continue
                    raise Unsupported('partial overlap %s/%d vs %s/%d' % (show(off), size, show(w), z))
                c = r[1]
                if ctx.entails(c):
                    res = conv(v, sort)
                    break
                if not ctx.entails(bnot(c)):
                    try:
                        cv = conv(v, sort)
                    except Unsupported:
                        res = self.partial(m, off, sort, size, ctx)
                        if res is None:
                            raise
                        break
                    pend.append((c, cv))
                m = m.parent
            elif k == 'bulk':
                # parallel map writes: entries (bvs, off, size, val); injective
                for bvs, w, z, v in m.d:
                    hit = self.bulk_hit(bvs, w, z, v, off, size, ctx)
                    if hit is None:
                        continue
                    c, val = hit
                    val = conv(val, sort)
                    pend.append((c, val))
                    if c is TRUE:
                        break
                if pend and pend[-1][0] is TRUE:
                    res = pend.pop()[1]
                    break
                m = m.parent
            elif k == 'add':
                base = self.read(m.parent, off, sort, size, ctx)
                if sort != 'R':
                    for bvs, w, z, v in m.d:
                        if not self.never(ctx, off, size, w, z, bvs):
                            raise Unsupported('non-real read of additive region')
                    res = base
                    break
                tot = base
                for bvs, w, z, v in m.d:
                    tot = radd(tot, self.add_read(bvs, w, z, v, off, size, ctx))
                res = tot
                break
            elif k == 'cond':
                c, a, b = m.d
                if c is TRUE or ctx.entails(c):
                    m = a
                    continue
                if ctx.entails(bnot(c)):
                    m = b
                    continue
                ca = Ctx(ctx.facts + [c])
                cb = Ctx(ctx.facts + [bnot(c)])
                res = ite(c, self.read(a, off, sort, size, ca), self.read(b, off, sort, size, cb))
                break
            elif k == 'copy':
                d, ln, srcm, s = m.d
                inside = band(ile(d, off), ile(iadd(off, size), iadd(d, ln)))
                outside = bor(ile(iadd(off, size), d), ile(iadd(d, ln), off))
                if ctx.entails(inside):
                    m = srcm
                    off = iadd(isub(off, d), s)
                    continue
                if ctx.entails(outside):
                    m = m.parent
                    continue
                pend.append((inside, self.read(srcm, iadd(isub(off, d), s), sort, size, ctx)))
                m = m.parent
            elif k == 'fill':
                d, ln, v = m.d
                inside = band(ile(d, off), ile(iadd(off, size), iadd(d, ln)))
                outside = bor(ile(iadd(off, size), d), ile(iadd(d, ln), off))
                z = R0 if sort == 'R' else (NULL if sort == 'P' else (FALSE if sort == 'B' else I(0)))
                if v != 0:
                    z = mk('undef', (), 'U') if False else rvar(fresh_name('fill')) if sort == 'R' else I(-1)
                if ctx.entails(inside):
                    res = z
                    break
                if not ctx.entails(outside):
                    pend.append((inside, z))
                m = m.parent
            elif k == 'base':
                res = self.base_read(m.d, off, sort, size, ctx)
                break
            else:
                raise Unsupported('mem ' + k)
        for c, v in reversed(pend):
            res = ite(c, v, res)
        return res

    def partial(self, m, off, sort, size, ctx):
        """an index chosen by a condition: read under either outcome"""
        if self.never(ctx, off, size, m.d[0], m.d[1]):
            return None
        c = find_ite(off)
        if c is None:
            return None
        out = []
        for f in (c, bnot(c)):
            cx = Ctx(ctx.facts + [f])
            if cx.unsat():
                continue
            o = simp(off, cx)
            if o is off:
                return None
            out.append(self.read(m, o, sort, size, cx))
        return ite(c, out[0], out[1]) if len(out) == 2 else out[0]

    def never(self, ctx, off, size, w, z, bvs=()):
        g = [f for bv, hi in bvs for f in (ile(I(0), at_lin(bv)), ilt(at_lin(bv), hi))]
        c = bor(ile(iadd(off, size), w), ile(iadd(w, z), off))
        cc = Ctx(ctx.facts + g) if g else ctx
        return cc.entails(c)

    def fresh_bvs(self, bvs, *terms):
        mp = {}
        nb = []
        for bv, hi in bvs:
            n = mk('ivar', (fresh_name('k'),), 'I')
            nb.append((n, subst(hi, mp)))
            mp[bv] = at_lin(n)
        return nb, [subst(t, mp) for t in terms]

    def bulk_hit(self, bvs, w, z, v, off, size, ctx):
        """does the map write hit off?  -> None / (cond, value)"""
        # decide impossible via gcd on the difference
        r = off_rel(off, size, w, z)
        if r == 'ne':
            return None
        if r == 'partial':
            if self.never(ctx, off, size, w, z, bvs):
                return None
            raise Unsupported('partial bulk %s vs %s' % (show(off), show(w)))
        cond = TRUE if r == 'eq' else r[1]
        if len(bvs) != 1:
            raise Unsupported('nested bulk map')
        bv, hi = bvs[0]
        if cond is TRUE:
            raise Unsupported('bulk write at fixed offset')
        sol = self.solve(cond, bv)
        if sol is None:
            if self.never(ctx, off, size, w, z, bvs):
                return None
            raise Unsupported('cannot invert map index %s = %s' % (show(w), show(off)))
        if sol is False:
            return None
        rng = band(ile(I(0), sol), ilt(sol, hi))
        if ctx.entails(rng):
            rng = TRUE
        elif ctx.entails(bnot(rng)):
            return None
        return rng, subst(v, {bv: sol})

    def solve(self, cond, bv):
        """solve eq0 condition for bv; lin / None (unknown) / False"""
        if cond.op != 'eq0':
            return None
        t = cond.a[0]
        co = 0
        rest = {}
        for k, v in t.a[1]:
            if k is bv:
                co = v
            elif bv in fv(k):
                # injective index array idx[bv+c]
                if k.op == 'ird' and k.a[0] in PERM:
                    rest2 = isub(t, imulc(at_lin(k), v))
                    # v*idx[f(bv)] + rest2 = 0
                    if abs(v) == 1:
                        tgt = imulc(rest2, -v)
                        # target must itself be idx[e]
                        tt = tgt.a
                        if tt[0] == 0 and len(tt[1]) == 1 and tt[1][0][1] == 1 and tt[1][0][0].op == 'ird' and \
                                tt[1][0][0].a[0] == k.a[0]:
                            return self.solve(ieq(k.a[1], tt[1][0][0].a[1]), bv)
                    inv = INV.get(k.a[0])
                    if inv is not None and bv not in fv(rest2) and rest2.a[0] % v == 0 and all(w % v == 0 for _, w in rest2.a[1]):
                        e = mk('lin', (-rest2.a[0] // v, tuple((q, -w // v) for q, w in rest2.a[1])), 'I')
                        return self.solve(ieq(k.a[1], iread(inv, e)), bv)
                return None
            else:
                rest[k] = v
        if co == 0:
            return None
        r = mk('lin', (t.a[0], tuple(sorted(rest.items(), key=lambda kv: kv[0].id))), 'I')
        if abs(co) == 1:
            return imulc(r, -co)
        return None

    def add_read(self, bvs, w, z, v, off, size, ctx):
        if bvs:
            bvs, (w, v) = self.fresh_bvs(bvs, w, v)
        r = off_rel(off, size, w, z)
        if r == 'ne':
            return R0
        if r == 'partial':
            if self.never(ctx, off, size, w, z, bvs):
                return R0
            raise Unsupported('partial additive')
        cond = TRUE if r == 'eq' else r[1]
        if PERM:
            cond = perm_simplify(cond)
        if len(bvs) == 1 and cond.op == 'eq0':
            bv, hi = bvs[0]
            sol = self.solve(cond, bv)
            if sol is False:
                return R0
            if sol is not None and bv not in fv(sol):
                rng = [x for x in (ile(I(0), sol), ilt(sol, hi)) if not ctx.entails(x)]
                if not rng or len(rng) == 1:
                    if any(ctx.entails(bnot(x)) for x in rng):
                        return R0
                    return ite(band(*rng), subst(v, {bv: sol}), R0)
        e = ite(cond, v, R0)
        for bv, hi in reversed(bvs):
            e = rsum(bv, I(0), hi, e)
        return e

    def base_read(self, base, off, sort, size, ctx):
        k = base[0]
        if k == 'sym':          # ('sym', name, elemsize, sort)
            name, esz, s = base[1:4]
            idx = idiv(off, I(esz))
            if any(a.op == 'idiv' for a, _ in idx.a[1]) and not off.a[1][0][0].op == 'idiv':
                raise Unsupported('misaligned access %s in %s' % (show(off), name))
            if size != esz:
                raise Unsupported('access size %d in %s' % (size, name))
            v = rread(name, idx) if s == 'R' else iread(name, idx)
            return conv(v, sort)
        if k == 'fn':
            name, w, f = base[1:4]
            off8 = idiv(off, I(8))
            if size != 8 or any(a.op == 'idiv' for a, _ in off8.a[1]):
                raise Unsupported('access to defined array ' + name)
            d = off8.a[0] % w
            if any(v % w for _, v in off8.a[1]):
                raise Unsupported('index of defined array ' + name)
            return conv(list(f(idiv(iadd(off8, -d), I(w))))[d], sort)
        if k == 'zero':
            return R0 if sort == 'R' else (NULL if sort == 'P' else (FALSE if sort == 'B' else I(0)))
        if k == 'undef':
            if sort == 'R':
                return rread('undef%d' % base[1], off)
            if sort == 'I':
                return iread('undef%d' % base[1], off)
            if sort == 'B':
                return mk('brd', ('undef%d' % base[1], off), 'B')
            return mk('prd', ('undef%d' % base[1], off), 'P')
        if k == 'hm':
            if sort == 'R':
                return rread('hm%d' % base[1], off)
            if sort == 'I':
                return at_lin(mk('ird', ('hm%d' % base[1], off), 'I'))
            if sort == 'B':
                return mk('brd', ('hm%d' % base[1], off), 'B')
            if iconst(off) is not None:
                self.demand.setdefault('%d' % base[1], set()).add(off)
            return mk('prd', ('hm%d' % base[1], off), 'P')
        if k == 'const':
            items = base[1]
            c = iconst(off)
            if c is not None:
                if c in items:
                    return conv(items[c], sort)
                if base[2]:
                    return self.base_read(('zero',), off, sort, size, ctx)
                raise Unsupported('read constant at %d' % c)
            res = None
            for o, v in sorted(items.items(), reverse=True):
                if v.sort != sort:
                    continue
                cnd = ieq(off, I(o))
                if cnd is FALSE or (len(items) <= 64 and ctx.entails(bnot(cnd))):
                    continue
                res = v if res is None else ite(cnd, v, res)
            if res is None:
                raise Unsupported('constant table read')
            return res
        raise Unsupported('base ' + k)

    # ---------------------------------------------------------------- typed access
    def tsort(self, t):
        t = self.m.types.resolve(t)
        if t[0] == 'i':
            return ('B', 1) if t[1] == 1 else ('I', self.m.types.size(t))
        if t[0] == 'f':
            return 'R', self.m.types.size(t)
        if t[0] == 'ptr':
            return 'P', 8
        raise Unsupported('type %r' % (t,))

    def resolve(self, st, p):
        """choose the branch of a conditional pointer that the path condition decides"""
        while p.op == 'ite':
            c = self.ctx(st.pc)
            if c.entails(p.a[0]):
                p = p.a[1]
            elif c.entails(bnot(p.a[0])):
                p = p.a[2]
            else:
                return p
        return p

    def load(self, st, p, t):
        t = self.m.types.resolve(t)
        if p.op == 'ite':
            p = self.resolve(st, p)
        if t[0] in ('st', 'arr', 'vec'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            out = []
            for i in range(n):
                o, ft = self.m.types.field_off(t, i)
                out.append(self.load(st, self.padd(p, I(o)), ft))
            return Agg(out)
        if p.op == 'ite':
            s1 = self.load(st, p.a[1], t)
            s2 = self.load(st, p.a[2], t)
            return ite(p.a[0], s1, s2)
        if p.op != 'ptr':
            raise Unsupported('load through %s' % show(p)[:80])
        sort, size = self.tsort(t)
        return self.read(self.mem_of(st, p.a[0]), p.a[1], sort, size, self.ctx(st.pc))

    def store(self, st, p, t, v):
        t = self.m.types.resolve(t)
        if p.op == 'ite':
            p = self.resolve(st, p)
        if t[0] in ('st', 'arr', 'vec'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            for i in range(n):
                o, ft = self.m.types.field_off(t, i)
                self.store(st, self.padd(p, I(o)), ft, v[i])
            return
        if p.op == 'ite':
            c = p.a[0]
            for q, cc in ((p.a[1], c), (p.a[2], bnot(c))):
                old = self.load(st, q, t)
                self.store(st, q, t, ite(cc, v, old))
            return
        if p.op != 'ptr':
            raise Unsupported('store through %s' % show(p)[:80])
        sort, size = self.tsort(t)
        m = self.mem_of(st, p.a[0])
        st.mem[p.a[0]] = Mem('store', m, (p.a[1], size, v))

    def padd(self, p, off):
        if p.op == 'ptr':
            return ptr(p.a[0], iadd(p.a[1], off))
        if p.op == 'ite':
            return ite(p.a[0], self.padd(p.a[1], off), self.padd(p.a[2], off))
        if p is NULL or p.sort == 'U':
            return mk('nullptr+', (off,), 'P')
        if iconst(off) == 0:
            return p
        return mk('padd', (p, off), 'P')

    # ---------------------------------------------------------------- operands
    def val(self, st, v, t):
        k = v[0]
        if k == 'reg':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise Unsupported('register ' + v[1])
        if k == 'c':
            c = v[1]
            if isinstance(c, bool):
                return B(c)
            rt = self.m.types.resolve(t)
            if rt[0] == 'f':
                if isinstance(c, float):
                    # inf / nan literal
                    return rvar('const_nan' if c != c else ('const_inf' if c > 0 else 'const_neginf'))
                return const_term(c)
            if rt[0] == 'i' and rt[1] == 1:
                return B(c)
            return I(c)
        if k == 'null':
            return NULL
        if k == 'undef':
            rt = self.m.types.resolve(t)
            if rt[0] == 'st':
                return Agg(self.val(st, ('undef',), x) for x in rt[1])
            if rt[0] in ('arr', 'vec'):
                return Agg(self.val(st, ('undef',), rt[2]) for _ in range(rt[1]))
            return UNDEF
        if k == 'zero':
            rt = self.m.types.resolve(t)
            if rt[0] == 'st':
                return Agg(self.val(st, ('zero', x), x) for x in rt[1])
            if rt[0] in ('arr', 'vec'):
                return Agg(self.val(st, ('zero', rt[2]), rt[2]) for _ in range(rt[1]))
            if rt[0] == 'f':
                return R0
            if rt[0] == 'ptr':
                return NULL
            return FALSE if rt == ('i', 1) else I(0)
        if k == 'agg':
            return Agg(self.val(st, x, tt) for tt, x in v[1])
        if k == 'glob':
            return ptr(self.glob(v[1]), I(0))
        if k == 'gep':
            b = self.val(st, v[2], ('ptr',))
            return self.gep(st, v[1], b, [(None, x) for x in v[3]])
        if k == 'cast':
            x = self.val(st, v[2], v[3])
            if v[1] == 'ptrtoint':
                return p2i(x)
            return x
        raise Unsupported('operand %r' % (v,))

    def glob(self, name):
        if name in self.globs:
            return self.globs[name]
        g = self.m.globals.get(name)
        if g is None or g[1] is None:
            rid = self.region('glob' + name, ('symglob', name))
            self.regions[rid].base = ('undef', rid)
        elif g[2]:
            items = {}
            zero = [False]
            self.flat(g[0], g[1], 0, items, zero)
            rid = self.region('const' + name, ('const', items, zero[0]))
        else:
            rid = self.region('var' + name, ('sym', 'g' + name, self.m.types.size(g[0]) if self.m.types.resolve(g[0])[0] in ('f', 'i') else 8,
                                             'R' if self.m.types.resolve(g[0])[0] == 'f' else 'I'))
        self.globs[name] = rid
        return rid

    def flat(self, t, v, off, items, zero):
        rt = self.m.types.resolve(t)
        if v[0] == 'zero':
            zero[0] = True
            return
        if v[0] == 'undef':
            return
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o, _ = self.m.types.field_off(rt, i)
                self.flat(et, ev, off + o, items, zero)
            return
        if v[0] == 'cstr':
            zero[0] = True
            return
        try:
            items[off] = self.val(None, v, t)
        except Unsupported:
            pass

    def gep(self, st, bt, b, idx):
        off = I(0)
        t = bt
        for n, (it, x) in enumerate(idx):
            i = self.val(st, x, it or ('i', 64)) if isinstance(x, tuple) else x
            if n == 0:
                off = iadd(off, imulc(i, self.m.types.size(t)))
            else:
                rt = self.m.types.resolve(t)
                if rt[0] == 'st':
                    o, t = self.m.types.field_off(rt, iconst(i))
                    off = iadd(off, o)
                else:
                    t = rt[2]
                    off = iadd(off, imulc(i, self.m.types.size(t)))
        return self.padd(b, off)

    # ---------------------------------------------------------------- instructions
    def icmp(self, st, pred, a, b):
        if a.sort == 'U' or b.sort == 'U':
            return bvar(fresh_name('undefcmp'))
        if a.sort == 'P' or b.sort == 'P':
            if a.sort != 'P':
                a = conv(a, 'P')
            if b.sort != 'P':
                b = conv(b, 'P')
            if a.op == 'ite':
                return ite(a.a[0], self.icmp(st, pred, a.a[1], b), self.icmp(st, pred, a.a[2], b))
            if b.op == 'ite':
                return ite(b.a[0], self.icmp(st, pred, a, b.a[1]), self.icmp(st, pred, a, b.a[2]))
            if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]:
                x, y = a.a[1], b.a[1]
                if pred in ('eq', 'ne'):
                    r = ieq(x, y)
                    return r if pred == 'eq' else bnot(r)
                return {'ult': ilt(x, y), 'ule': ile(x, y), 'ugt': ilt(y, x), 'uge': ile(y, x),
                        'slt': ilt(x, y), 'sle': ile(x, y), 'sgt': ilt(y, x), 'sge': ile(y, x)}[pred]
            known = lambda p: p is NULL or p.op == 'ptr'
            if known(a) and known(b):
                same = a is b
                if pred in ('eq', 'ne'):
                    return B(same == (pred == 'eq'))
            return mk('bat', (pred, a, b), 'B')
        if a.sort == 'B':
            x = bor(band(a, bnot(b)), band(bnot(a), b))
            if pred == 'ne':
                return x
            if pred == 'eq':
                return bnot(x)
            a, b = ite(a, I(1), I(0)), ite(b, I(1), I(0))
        if pred == 'eq':
            return self.icmp_eq(a, b)
        if pred == 'ne':
            return bnot(self.icmp_eq(a, b))
        if pred in ('sgt', 'sge', 'ugt', 'uge'):
            a, b = b, a
            pred = pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]]
        lt = ilt(a, b) if pred[1:] == 'lt' else ile(a, b)
        if pred[0] == 's':
            return lt
        ctx = self.ctx(st.pc) if st is not None else Ctx()
        za, zb = ile(I(0), a), ile(I(0), b)
        za = TRUE if ctx.entails(za) else (FALSE if ctx.entails(bnot(za)) else za)
        zb = TRUE if ctx.entails(zb) else (FALSE if ctx.entails(bnot(zb)) else zb)
        return bor(band(za, zb, lt), band(za, bnot(zb)), band(bnot(za), bnot(zb), lt))

    def icmp_eq(self, a, b):
        # ite(c,x,y) == const
        d = isub(a, b)
        if len(d.a[1]) == 1 and d.a[1][0][0].op == 'ite':
            k, v = d.a[1][0]
            c = I(d.a[0])
            return ite(k.a[0], eq0(iadd(imulc(k.a[1], v), c)), eq0(iadd(imulc(k.a[2], v), c)))
        r = eq0(d)
        if PERM:
            r = perm_simplify(r)
        return r

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        if pred == 'ord':
            return TRUE
        if pred == 'uno':
            return FALSE
        if a.sort == 'U' or b.sort == 'U':
            return bvar(fresh_name('undefcmp'))
        inf = lambda x: x.op == 'rvar' and x.a[0] in ('const_inf', 'const_neginf')
        if inf(a) or inf(b):
            # comparisons against +-inf with finite values
            if inf(a) and inf(b) and a is b:
                return B(pred[1:] in ('eq', 'le', 'ge'))
            p = pred[1:]
            if p == 'eq':
                return FALSE
            if p == 'ne':
                return TRUE
            neg = lambda x: x.a[0] == 'const_neginf'
            a_less = (inf(a) and neg(a)) or (inf(b) and not neg(b))
            return B(a_less == (p in ('lt', 'le')))
        p = pred[1:]
        if p == 'eq':
            return req(a, b)
        if p == 'ne':
            return bnot(req(a, b))
        return {'lt': rlt(a, b), 'le': rle(a, b), 'gt': rlt(b, a), 'ge': rle(b, a)}[p]

    def int_binop(self, st, op, a, b, t, fl):
        if a.sort == 'U' or b.sort == 'U':
            return UNDEF
        if self.m.types.resolve(t) == ('i', 1):
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bor(band(a, bnot(b)), band(bnot(a), b))
        if a.sort == 'B':
            a = conv(a, 'I')
        if b.sort == 'B':
            b = conv(b, 'I')
        if op == 'add' or (op == 'or' and 'disjoint' in fl):
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        if op == 'mul':
            return imul(a, b)
        if op in ('sdiv', 'udiv'):
            return idiv(a, b)
        if op in ('srem', 'urem'):
            return irem(a, b)
        cb = iconst(b)
        ca = iconst(a)
        if ca is not None and cb is not None:
            w = self.m.types.resolve(t)[1]
            M = (1 << w) - 1
            x, y = ca & M, cb & M
            z = min(y, w)
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': (x << z) & M, 'lshr': x >> z,
                 'ashr': ((ca) >> z) & M}[op]
            if r >> (w - 1):
                r -= 1 << w
            return I(r)
        if op == 'shl' and cb is not None:
            return imulc(a, 1 << cb)
        if op in ('lshr', 'ashr') and cb is not None:
            return idiv(a, I(1 << cb))
        if op == 'and' and cb is not None and cb > 0 and (cb & (cb + 1)) == 0:
            return irem(a, I(cb + 1))
        if op == 'xor' and cb == -1:
            return isub(I(-1), a)
        return at_lin(mk('iop', (op, a, b), 'I'))

    def fp_binop(self, op, a, b):
        if a.sort == 'U' or b.sort == 'U':
            return UNDEF
        if op == 'fadd':
            return radd(a, b)
        if op == 'fsub':
            return rsub(a, b)
        if op == 'fmul':
            return rmul(a, b)
        if op == 'fdiv':
            return rdiv(a, b)
        return rfn('fmod', a, b)

    def vecop(self, f, a, b):
        if isinstance(a, Agg):
            return Agg(f(x, y) for x, y in zip(a, b))
        return f(a, b)

    def step(self, st, ins):
        """execute one non-terminator instruction; returns False if path ends"""
        op = ins.op
        R_ = st.regs
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.val(st, ins.args[0], ins.ty)
            b = self.val(st, ins.args[1], ins.ty)
            hook = self.opts.get('fp')
            f = (lambda x, y: hook(op, x, y)) if hook else (lambda x, y: self.fp_binop(op, x, y))
            R_[ins.res] = self.vecop(f, a, b)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.val(st, ins.args[0], ins.ty)
            b = self.val(st, ins.args[1], ins.ty)
            R_[ins.res] = self.int_binop(st, op, a, b, ins.ty, ins.x)
        elif op == 'fneg':
            a = self.val(st, ins.args[0], ins.ty)
            R_[ins.res] = Agg(rneg(x) for x in a) if isinstance(a, Agg) else rneg(a)
        elif op == 'load':
            R_[ins.res] = self.load(st, self.val(st, ins.args[0], ('ptr',)), ins.ty)
        elif op == 'store':
            self.store(st, self.val(st, ins.args[1], ('ptr',)), ins.ty, self.val(st, ins.args[0], ins.ty))
        elif op == 'getelementptr':
            b = self.val(st, ins.args[0], ('ptr',))
            R_[ins.res] = self.gep(st, ins.ty, b, ins.x)
        elif op == 'icmp':
            a = self.val(st, ins.args[0], ins.ty)
            b = self.val(st, ins.args[1], ins.ty)
            R_[ins.res] = self.icmp(st, ins.x, a, b)
        elif op == 'fcmp':
            a = self.val(st, ins.args[0], ins.ty)
            b = self.val(st, ins.args[1], ins.ty)
            R_[ins.res] = self.fcmp(ins.x, a, b)
        elif op == 'select':
            c = self.val(st, ins.args[0], ('i', 1))
            a = self.val(st, ins.args[1], ins.ty)
            b = self.val(st, ins.args[2], ins.ty)
            R_[ins.res] = self.sel(c, a, b)
        elif op in ('zext', 'sext'):
            a = self.val(st, ins.args[0], ins.x)
            if a.sort == 'B':
                a = ite(a, I(1 if op == 'zext' else -1), I(0))
            R_[ins.res] = a
        elif op == 'trunc':
            a = self.val(st, ins.args[0], ins.x)
            if self.m.types.resolve(ins.ty) == ('i', 1) and a.sort == 'I':
                if len(a.a[1]) == 1 and a.a[1][0][0].op == 'ite' and a.a[0] == 0:
                    k, v = a.a[1][0]
                    a = ite(k.a[0], bnot(ieq(k.a[1], I(0))), bnot(ieq(k.a[2], I(0))))
                else:
                    a = bnot(ieq(a, I(0)))
            R_[ins.res] = a
        elif op in ('sitofp', 'uitofp'):
            a = self.val(st, ins.args[0], ins.x)
            if a.sort == 'B':
                a = ite(a, I(1), I(0))
            R_[ins.res] = i2r(a)
        elif op in ('fptosi', 'fptoui'):
            a = self.val(st, ins.args[0], ins.x)
            if a.op == 'i2r':
                R_[ins.res] = a.a[0]
            elif a.op == 'rc':
                R_[ins.res] = I(int(a.a[0]))
            else:
                R_[ins.res] = at_lin(mk('r2i', (a,), 'I'))
        elif op in ('fpext', 'fptrunc', 'freeze', 'bitcast', 'addrspacecast'):
            a = self.val(st, ins.args[0], ins.x if op != 'freeze' else ins.ty)
            if op == 'bitcast' and not isinstance(a, Agg):
                s, _ = self.tsort(ins.ty)
                a = conv(a, s)
            R_[ins.res] = a
        elif op == 'ptrtoint':
            R_[ins.res] = p2i(self.val(st, ins.args[0], ins.x))
        elif op == 'inttoptr':
            R_[ins.res] = conv(self.val(st, ins.args[0], ins.x), 'P')
        elif op == 'alloca':
            rid = self.region('stack' + (ins.res or ''), None)
            self.regions[rid].base = ('undef', rid)
            R_[ins.res] = ptr(rid, I(0))
        elif op == 'extractvalue':
            a = self.val(st, ins.args[0], ins.ty)
            for i in ins.x:
                a = a[i] if isinstance(a, Agg) else UNDEF
            R_[ins.res] = a
        elif op == 'insertvalue':
            a = self.val(st, ins.args[0], ins.ty)
            v = self.val(st, ins.args[1], ('ptr',))

            def ins_(a, idx):
                if not idx:
                    return v
                if not isinstance(a, Agg):
                    raise Unsupported('insertvalue')
                l = list(a)
                l[idx[0]] = ins_(l[idx[0]], idx[1:])
                return Agg(l)
            # operand type of the scalar only matters for constants
            if ins.args[1][0] == 'c' and not isinstance(ins.args[1][1], (bool, int)):
                v = R(ins.args[1][1])
            R_[ins.res] = ins_(a, ins.x)
        elif op == 'extractelement':
            a = self.val(st, ins.args[0], ins.ty)
            i = iconst(self.val(st, ins.args[1], ('i', 64)))
            R_[ins.res] = a[i]
        elif op == 'insertelement':
            a = self.val(st, ins.args[0], ins.ty)
            et = self.m.types.resolve(ins.ty)[2]
            v = self.val(st, ins.args[1], et)
            i = iconst(self.val(st, ins.args[2], ('i', 64)))
            l = list(a) if isinstance(a, Agg) else [UNDEF] * self.m.types.resolve(ins.ty)[1]
            l[i] = v
            R_[ins.res] = Agg(l)
        elif op == 'shufflevector':
            a = self.val(st, ins.args[0], ins.ty)
            b = self.val(st, ins.args[1], ins.ty)
            mvec = self.val(st, ins.args[2], ('vec', 0, ('i', 32)))
            l = list(a) + list(b)
            R_[ins.res] = Agg(l[iconst(x)] if x.sort == 'I' else UNDEF for x in mvec)
        elif op in ('call', 'invoke'):
            return self.call(st, ins)
        elif op in ('fence', 'landingpad'):
            pass
        else:
            raise Unsupported('instruction ' + ins.text)
        return True

    def sel(self, c, a, b):
        if isinstance(a, Agg):
            return Agg(self.sel(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    # ---------------------------------------------------------------- calls
    def call(self, st, ins):
        callee = ins.args[0]
        if ins.x and ins.x[0] == 'asm':
            return True
        args = []
        for at, v, info in ins.args[1:]:
            if at[0] == 'metadata':
                args.append(UNDEF)
            else:
                args.append(self.val(st, v, at))
        if callee[0] == 'glob':
            name = callee[1][1:].strip('"')
        elif callee[0] == 'reg':
            fp = st.regs.get(callee[1])
            h = self.handlers.get('*indirect')
            if h:
                r = h(self, st, [fp] + args, ins)
                if r is False:
                    return False
                if ins.res:
                    st.regs[ins.res] = r
                return True
            fp = self.resolve(st, fp) if isinstance(fp, E) and fp.sort == 'P' else fp
            if not isinstance(fp, E) or fp.op != 'ptr' or iconst(fp.a[1]) != 0 or fp.a[0] not in self.globs.values():
                raise Unsupported('indirect call')
            name = [k for k, v in self.globs.items() if v == fp.a[0]][0][1:].strip('"')
        else:
            raise Unsupported('callee')
        h = self.handlers.get(name)
        if h is None:
            for pat, hh in self.handlers.items():
                if pat.startswith('~') and re.search(pat[1:], name):
                    h = hh
                    break
        if h is None:
            h = self.builtin(name)
        if h is not None:
            r = h(self, st, args, ins)
            if r is False:
                return False
            if ins.res and r is not None:
                st.regs[ins.res] = r
            return True
        f = self.m.funcs.get('@' + name) or self.m.funcs.get('@"' + name + '"')
        if f is not None:
            if self.depth > 20:
                raise Unsupported('recursion in ' + name)
            self.depth += 1
            try:
                outs = self.run_body(f, args, st)
            finally:
                self.depth -= 1
            if not outs:
                return False
            s2, rv = outs
            st.mem = s2.mem
            st.pc = s2.pc
            if ins.res:
                st.regs[ins.res] = rv
            return True
        raise Unsupported('external function ' + name)

    MATH1 = {'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'acos': 'acos', 'asin': 'asin', 'atan': 'atan',
             'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'cbrt': 'cbrt',
             'fabs': 'abs', 'floor': 'floor', 'ceil': 'ceil', 'acosh': 'acosh', 'asinh': 'asinh', 'atanh': 'atanh',
             'round': 'round', 'trunc': 'trunc', 'log2': 'log2', 'exp2': 'exp2'}
    MATH2 = {'pow': 'pow', 'atan2': 'atan2', 'fmod': 'fmod', 'copysign': 'copysign', 'hypot': 'hypot'}

    def builtin(self, name):
        n = name
        m = re.match(r'llvm\.([a-z0-9]+(?:\.[a-z]+)*)\.', name + '.')
        if name.startswith('llvm.'):
            b = name.split('.')[1]
            if b in ('lifetime', 'dbg', 'invariant', 'experimental', 'prefetch', 'stacksave', 'stackrestore', 'donothing',
                     'launder', 'trap', 'var'):
                return (lambda e, s, a, i: False) if b == 'trap' else (lambda e, s, a, i: None)
            if b == 'assume':
                return lambda e, s, a, i: None
            if b == 'expect':
                return lambda e, s, a, i: a[0]
            if b in ('memcpy', 'memmove'):
                return self.b_memcpy
            if b == 'memset':
                return self.b_memset
            if b in ('fmuladd', 'fma'):
                return lambda e, s, a, i: e.vecop(radd, e.vecop(rmul, a[0], a[1]), a[2])
            if b in ('maxnum', 'maximum'):
                return lambda e, s, a, i: ite(rlt(a[0], a[1]), a[1], a[0])
            if b in ('minnum', 'minimum'):
                return lambda e, s, a, i: ite(rlt(a[1], a[0]), a[1], a[0])
            if b in ('umax', 'smax'):
                return lambda e, s, a, i: ite(ilt(a[0], a[1]), a[1], a[0])
            if b in ('umin', 'smin'):
                return lambda e, s, a, i: ite(ilt(a[1], a[0]), a[1], a[0])
            if b == 'abs':
                return lambda e, s, a, i: ite(ilt(a[0], I(0)), imulc(a[0], -1), a[0])
            if b == 'powi':
                return lambda e, s, a, i: rfn('pow', a[0], i2r(a[1]))
            if b == 'is':       # llvm.is.fpclass: finite reals
                return lambda e, s, a, i: B(bool(iconst(a[1]) & 0b0110011000) and not (iconst(a[1]) & 0x207) and False)
            if b == 'usub' and 'sat' in name:
                return lambda e, s, a, i: ite(ile(a[1], a[0]), isub(a[0], a[1]), I(0))
            if b == 'objectsize':
                return None
            n = b
        base = n[:-1] if n.endswith(('f', 'l')) and n[:-1] in self.MATH1 | self.MATH2.keys() else n
        if base in self.MATH1:
            fn = self.MATH1[base]
            return lambda e, s, a, i: (rfn(fn, a[0]) if not isinstance(a[0], Agg) else Agg(rfn(fn, x) for x in a[0]))
        if base in self.MATH2:
            fn = self.MATH2[base]
            return lambda e, s, a, i: rfn(fn, a[0], a[1])
        if n == 'vx_new' or n in ('_Znwm', '_Znam', 'malloc'):
            def f(e, s, a, i):
                rid = e.region('heap', None)
                e.regions[rid].base = ('zero',) if n == 'vx_new' else ('undef', rid)
                return ptr(rid, I(0))
            return f
        if re.match(r'vx_uf\d$', n):
            return lambda e, s, a, i: rfn('uf%d' % iconst(a[0]), *a[1:])
        if n in ('vx_free', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            return lambda e, s, a, i: None
        if n in ('memcpy', 'memmove'):
            return self.b_memcpy
        if n in ('exit', 'abort', '_ZSt9terminatev', '__cxa_throw', '_ZSt17__throw_bad_allocv') or n.startswith('_ZSt') and '__throw' in n:
            def f(e, s, a, i):
                e.aborts.append((s.pc, n))
                return False
            return f
        if n.startswith('_ZNSo') or n.startswith('_ZStls') or n.startswith('_ZSt16__ostream') or n.startswith('_ZNKSt5ctype') \
                or n.startswith('_ZSt4endl') or n.startswith('_ZNSolsE'):
            def f(e, s, a, i):
                return a[0] if a and a[0].sort == 'P' else UNDEF
            return f
        return None

    def b_memcpy(self, e, st, a, i):
        d, s, n = a[0], a[1], a[2]
        if iconst(n) == 0:
            return d
        d, s = self.resolve(st, d), self.resolve(st, s)
        if d.op == 'ite' or s.op == 'ite' or d.op != 'ptr' or s.op != 'ptr':
            raise Unsupported('memcpy through %s <- %s' % (show(d)[:60], show(s)[:60]))
        src = self.mem_of(st, s.a[0])
        dst = self.mem_of(st, d.a[0])
        st.mem[d.a[0]] = Mem('copy', dst, (d.a[1], n, src, s.a[1]))
        return d

    def b_memset(self, e, st, a, i):
        d, v, n = a[0], a[1], a[2]
        if d.op != 'ptr':
            raise Unsupported('memset')
        st.mem[d.a[0]] = Mem('fill', self.mem_of(st, d.a[0]), (d.a[1], n, iconst(v)))
        return d

    # ---------------------------------------------------------------- merging
    def merge(self, sts):
        if len(sts) == 1:
            return sts[0]
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        pa, pb = a.pc, b.pc
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        ra, rb = band(*pa[i:]), band(*pb[i:])
        pc = pa[:i]
        o = bor(ra, rb)
        c = ra
        # pull common conjuncts
        if o is not TRUE:
            sa = set(ra.a) if ra.op == 'and' else {ra}
            sb = set(rb.a) if rb.op == 'and' else {rb}
            com = [x for x in (ra.a if ra.op == 'and' else (ra,)) if x in sb]
            if com:
                xa = band(*[x for x in (ra.a if ra.op == 'and' else (ra,)) if x not in com])
                xb = band(*[x for x in (rb.a if rb.op == 'and' else (rb,)) if x not in com])
                pc = pc + tuple(com)
                o = bor(xa, xb)
                c = xa
        if bnot(rb) is ra or (o is TRUE):
            pass
        if o is not TRUE:
            pc = pc + (o,)
        # prefer the simpler discriminator
        if c.op == 'and' and len(c.a) > 1:
            # a conjunct whose negation is in b
            xb_all = set(rb.a) if rb.op == 'and' else {rb}
            for x in c.a:
                if bnot(x) in xb_all:
                    c = x
                    break
        elif c is TRUE:
            c = ra
        regs = {}
        for k, v in a.regs.items():
            w = b.regs.get(k)
            if w is None:
                continue
            if v is w or v == w and not isinstance(v, Agg):
                regs[k] = v
            else:
                regs[k] = self.mval(c, v, w)
        mem = {}
        for k in set(a.mem) | set(b.mem):
            x = a.mem.get(k)
            y = b.mem.get(k)
            if x is None or y is None:
                base = Mem('base', None, self.regions[k].base)
                # region untouched on one side
                if x is None:
                    x = base
                if y is None:
                    y = base
            if x is y or (x.kind == 'base' and y.kind == 'base'):
                mem[k] = x
            else:
                mem[k] = Mem('cond', None, (c, x, y))
        return St(regs, mem, pc)

    def mval(self, c, v, w):
        if isinstance(v, Agg) or isinstance(w, Agg):
            if not (isinstance(v, Agg) and isinstance(w, Agg)):
                return v if isinstance(v, Agg) else w
            return Agg(self.mval(c, x, y) for x, y in zip(v, w))
        if v is w:
            return v
        if v.sort == 'U':
            return w if w.sort != 'P' else w
        if w.sort == 'U':
            return v
        if v.sort != w.sort:
            return UNDEF
        if v.sort == 'P' and v.op == 'ptr' and w.op == 'ptr' and v.a[0] == w.a[0]:
            return ptr(v.a[0], ite(c, v.a[1], w.a[1]))
        return ite(c, v, w)

    # ---------------------------------------------------------------- control flow
    def run_body(self, f, args, st0):
        self.m.body(f)
        succ, pred, rpo, num, loops, inner = cfg_info(f)
        regs = {}
        for (t, n), v in zip(f.params, args):
            regs[n] = v
        st = St(regs, dict(st0.mem), st0.pc)
        entry = f.order[0]
        exits, rets = self.run_region(f, [b for b in rpo], entry, [(None, st)], None)
        if not rets:
            return None
        return self.merge_rets(rets)

    def merge_rets(self, rets):
        for s, v in rets:
            s.regs = {'%ret': v} if v is not None else {}
        s = self.merge([s for s, _ in rets])
        return s, s.regs.get('%ret')

    def run_region(self, f, blocks, entry, incoming, cur_loop, skip_header_phis=False):
        """blocks: rpo list; returns (exits: list of (from,to,state) leaving the set or back to the entry, rets)"""
        succ, pred, rpo, num, loops, inner = cfg_info(f)
        bset = set(blocks)
        inc = {entry: list(incoming)}
        exits = []
        rets = []
        done = set()
        for b in blocks:
            if b in done or b not in inc:
                continue
            tick()
            ins_ = inc.pop(b)
            L = loops.get(b)
            if L is not None and L is not cur_loop:
                try:
                    outs, rts = self.run_loop(f, L, ins_)
                except (Unsupported, LoopFail) as ex_:
                    if isinstance(ex_, ConstTrip):
                        raise
                    # out of reach: acceptable only where the path turns out to be infeasible
                    done |= L.blocks
                    for _, s in ins_:
                        self.aborts.append((s.pc, ex_))
                    continue
                rets += rts
                done |= L.blocks
                for (fr, to, s) in outs:
                    if to in bset and not (cur_loop is not None and to == cur_loop.header):
                        inc.setdefault(to, []).append((fr, s))
                    else:
                        exits.append((fr, to, s))
                continue
            st = self.enter(f, b, ins_, skip_header_phis and b == entry)
            if st is None:
                continue
            alive = True
            for ins in f.blocks[b]:
                if ins.op == 'phi':
                    continue
                if ins.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    break
                try:
                    ok = self.step(st, ins)
                except Unsupported as ex_:
                    self.aborts.append((st.pc, ex_))
                    ok = False
                if not ok:
                    alive = False
                    break
                if ins.op == 'invoke':
                    break
            if not alive:
                continue
            for to, s in self.term(st, f.blocks[b][-1], rets):
                if to in bset and not (cur_loop is not None and to == cur_loop.header):
                    inc.setdefault(to, []).append((b, s))
                else:
                    exits.append((b, to, s))
        return exits, rets

    def enter(self, f, b, ins_, skip_phis):
        if skip_phis:
            return ins_[0][1].copy()
        sts = []
        phis = [i for i in f.blocks[b] if i.op == 'phi']
        for pr, s in ins_:
            s = s.copy()
            vals = {}
            for ph in phis:
                for v, lab in ph.args:
                    if lab == pr:
                        vals[ph.res] = self.val(s, v, ph.ty)
                        break
            s.regs.update(vals)
            sts.append(s)
        if not sts:
            return None
        return self.merge(sts)

    def split(self, st, c):
        """feasible (value, state) outcomes of condition c"""
        ctx = self.ctx(st.pc)
        c = self.simp_c(c, ctx)
        if c is TRUE:
            return [(True, st)]
        if c is FALSE:
            return [(False, st)]
        if ctx.entails(c):
            return [(True, st)]
        if ctx.entails(bnot(c)):
            return [(False, st)]
        out = []
        for val, f in ((True, c), (False, bnot(c))):
            s = st.copy()
            s.pc = st.pc + (f.a if f.op == 'and' else (f,))
            if self.opts.get('prune_real') and not int_only(f) and self.ctx(s.pc).unsat_real(300):
                continue
            out.append((val, s))
        return out

    def simp_c(self, c, ctx):
        if c.op in ('and', 'or') or contains(c, lambda x: x.op == 'ite'):
            return simp(c, ctx)
        return c

    def term(self, st, ins, rets):
        op = ins.op
        if op == 'br':
            if len(ins.x) == 1:
                return [(ins.x[0], st)]
            c = self.val(st, ins.args[0], ('i', 1))
            if c.sort == 'U':
                raise Unsupported('branch on undef')
            if ins.x[0] == ins.x[1]:
                return [(ins.x[0], st)]
            return [(ins.x[0] if v else ins.x[1], s) for v, s in self.split(st, c)]
        if op == 'switch':
            v = self.val(st, ins.args[0], ins.ty)
            out = []
            cur = st
            for cv, lab in ins.x[1]:
                if v.sort == 'B':
                    c = v if cv not in (0, False) else bnot(v)
                else:
                    c = self.icmp_eq(v, I(int(cv)))
                nxt = None
                for val, s in self.split(cur, c):
                    if val:
                        out.append((lab, s))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            out.append((ins.x[0], cur))
            return out
        if op == 'ret':
            rets.append((st, self.val(st, ins.args[0], ins.ty) if ins.args else None))
            return []
        if op == 'invoke':
            return [(ins.x[0], st)]
        if op in ('unreachable', 'resume'):
            return []
        raise Unsupported('terminator ' + ins.text)

    # ---------------------------------------------------------------- loops
    def run_loop(self, f, L, incoming):
        succ, pred, rpo, num, loops, inner = cfg_info(f)
        order = [b for b in rpo if b in L.blocks]
        st0 = self.enter(f, L.header, incoming, False)
        if st0 is None:
            return [], []
        outs, rets = [], []
        # 1. complete unrolling while the loop's continuation is decided
        cur = st0
        n = 0
        first_try = None
        limit = self.unroll
        if self.opts.get('inv_first') and self.opts['inv_first'] != 'all' and any(o is not L and o.header in L.blocks for o in (loops.values() if isinstance(loops, dict) else loops)):
            return self.inv_loop(f, L, order, st0)
        if self.opts.get('inv_first') == 'all':
            ex, rt = self.iterate(f, L, order, st0)
            if any(b == L.header for a, b, s in ex) and (rt or any(b != L.header for a, b, s in ex)):
                return self.inv_loop(f, L, order, st0)
        if not self.opts.get('unroll_first') and self.opts.get('inv_first') != 'all':
            snap = len(self.aborts)
            try:
                return self.summarise(f, L, order, st0)
            except ConstTrip:
                pass
            except LoopFail as e:
                first_try = e
            del self.aborts[snap:]
        while True:
            snap = len(self.aborts)
            ex, rt = self.iterate(f, L, order, cur)
            back = [(a, b, s) for a, b, s in ex if b == L.header]
            leave = [(a, b, s) for a, b, s in ex if b != L.header]
            if not back:
                outs += leave
                rets += rt
                return outs, rets
            if leave or rt:
                # undecided: try closed form from here
                if n == 0 or True:
                    seen = self.aborts[snap:]
                    try:
                        del self.aborts[snap:]
                        o2, r2 = self.summarise(f, L, order, cur)
                        return outs + o2, rets + r2
                    except LoopFail as e:
                        del self.aborts[snap:]
                        self.aborts += seen
                        first_try = first_try or e
                        if self.opts.get('inv'):
                            try:
                                o2, r2 = self.inv_loop(f, L, order, cur)
                                return outs + o2, rets + r2
                            except LoopFail as e2:
                                raise LoopFail('%s; %s' % (e, e2))
                        if not self.opts.get('unroll_symbolic', False):
                            raise
                # bounded early-exit loop: keep exits, go on
                outs += leave
                rets += rt
            n += 1
            if n > limit:
                # long concrete loop: summarise instead
                try:
                    o2, r2 = self.summarise(f, L, order, cur)
                    return outs + o2, rets + r2
                except LoopFail as e:
                    raise LoopFail('loop not closed after %d iterations (%s)' % (n, e))
            cur = self.enter(f, L.header, [(a, s) for a, b, s in back], False)

    # -- candidate invariants (given by the contract), weakened until inductive
    def inv_loop(self, f, L, order, st0):
        if not self.opts.get('inv') or self.in_inv > 2:
            raise LoopFail('no invariant given')
        self.in_inv += 1
        try:
            return self._inv_loop(f, L, order, st0)
        finally:
            self.in_inv -= 1

    def _inv_loop(self, f, L, order, st0):
        from .prove import prove, Undecided
        phis = [i for i in f.blocks[L.header] if i.op == 'phi']
        init = {p.res: st0.regs[p.res] for p in phis}
        ph = {}
        for p in phis:
            v = init[p.res]
            if isinstance(v, Agg):
                raise LoopFail('aggregate phi')
            ph[p.res] = self.placeholder(p, v)
        cells = {}          # (rid, off) -> (off, size, symbol)
        whole = {}          # rid -> havoc name
        frame = {}          # cells of such regions expected to stay as they are (verified every round)
        snap = len(self.aborts)
        keep = None
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise LoopFail('no invariant fixpoint')
            del self.aborts[snap:]
            st = st0.copy()
            for p in phis:
                st.regs[p.res] = ph[p.res]
            for rid, h in whole.items():
                m = Mem('base', None, ('hm', h))
                for (r2, ok_), (off, size, v0) in frame.items():
                    if r2 == rid and (r2, ok_) not in cells:
                        m = Mem('store', m, (off, size, v0))
                st.mem[rid] = m
            for (rid, ok_), (off, size, X) in cells.items():
                st.mem[rid] = Mem('store', self.mem_of(st, rid), (off, size, X))
            hv = InvView(self, phis, st, init, st0, cells, ph)
            cands = list(self.opts['inv'](hv))
            if keep is None:
                iv = InvView(self, phis, st0, init, st0, cells, ph)
                c0 = list(self.opts['inv'](iv))
                ctx0 = self.ctx(st0.pc)
                keep = []
                for i, c in enumerate(c0):
                    if self.holds(c, ctx0):
                        keep.append(i)
            st.pc = st0.pc + tuple(y for i in keep if cands[i] is not TRUE for y in (cands[i].a if cands[i].op == 'and' else (cands[i],)))
            hdr_mem = dict(st.mem)
            ex, rt = self.iterate(f, L, order, st)
            back = [self.enter(f, L.header, [(a, s)], False) for a, b, s in ex if b == L.header]
            back = [s for s in back if s is not None and not self.ctx(s.pc).unsat()]
            # modified memory
            grew = False
            for s in back:
                for rid, m in s.mem.items():
                    if m is hdr_mem.get(rid) or rid in whole:
                        continue
                    if rid not in st0.mem and not self.region_preexists(rid, st0):
                        continue
                    hm = hdr_mem.get(rid)
                    ws = self.layer_cells(m, hm)
                    if ws is None:
                        whole[rid] = int(fresh_name('h').split('!')[1])
                        frame.update(self.const_cells(st0, rid))
                        grew = True
                        continue
                    for off, size, v in ws:
                        key = (rid, off.id)
                        if key in cells:
                            continue
                        if v.sort == 'P':
                            i0 = self.read(self.mem_of(st0, rid), off, 'P', 8, self.ctx(st0.pc))
                            if v is i0:
                                continue
                            raise LoopFail('pointer written in loop')
                        so = self.stored_sort(m, off, v.sort)
                        ctx = self.ctx(s.pc)
                        try:
                            if self.same(self.read(m, off, so, size, ctx), self.read(hm if hm is not None else self.mem_of(st0, rid), off, so, size, ctx), ctx):
                                continue
                        except Unsupported:
                            pass
                        n = fresh_name('c')
                        X = rvar(n) if so == 'R' else bvar(n) if so == 'B' else ivar(n)
                        cells[key] = (off, size, X)
                        grew = True
            for s in back:
                for key, (off, size, v0) in frame.items():
                    if key in cells:
                        continue
                    v = self.read(self.mem_of(s, key[0]), off, v0.sort, size, self.ctx(s.pc))
                    if v is not v0 and not self.same(v, v0, self.ctx(s.pc)):
                        n = fresh_name('c')
                        so = self.stored_sort(self.mem_of(s, key[0]), off, v0.sort)
                        cells[key] = (off, size, rvar(n) if so == 'R' else bvar(n) if so == 'B' else ivar(n))
                        grew = True
            if grew:
                keep = None
                continue
            bad = set()
            for s in back:
                nv = InvView(self, phis, s, init, st0, cells, ph)
                nc = list(self.opts['inv'](nv))
                ctx = self.ctx(s.pc)
                for i in keep:
                    if i not in bad and not self.holds(nc[i], ctx):
                        bad.add(i)
            if bad:
                keep = [i for i in keep if i not in bad]
                continue
            break
        self.obl += 2 * len(keep)
        self._lastkeep = [cands[i] for i in keep]
        self.notes.append('loop %s: invariant with %d of %d conjuncts' % (L.header, len(keep), len(cands)))
        self.ghosts.append([X for X in ph.values() if X.sort in 'RI'] + [X for _, _, X in cells.values()])
        return [(a, b, s) for a, b, s in ex if b != L.header], rt

    def holds(self, c, ctx):
        from .prove import prove, Undecided
        try:
            return c is TRUE or prove(c, ctx, None, 4000)
        except (Undecided, Unsupported):
            return False

    def same(self, v, w, ctx):
        if v.sort == 'R':
            return self.holds(req(v, w), ctx)
        if v.sort == 'I':
            return self.holds(ieq(v, w), ctx)
        return False

    def stored_sort(self, m, off, sort):
        # zero is stored as an integer whatever the type of the cell
        stack = [m]
        while stack:
            m = stack.pop()
            while m is not None and m.kind != 'base':
                if m.kind == 'store' and m.d[0] is off and m.d[2].sort in 'RIB' and iconst(m.d[2]) is None:
                    return m.d[2].sort
                if m.kind == 'cond':
                    stack += [m.d[1], m.d[2]]
                    break
                m = m.parent
        return sort

    def const_cells(self, st, rid):
        out = {}
        seen = []
        stack = [self.mem_of(st, rid)]
        while stack:
            m = stack.pop()
            while m is not None and m.kind != 'base':
                if m.kind == 'store' and iconst(m.d[0]) is not None and m.d[2].sort in 'RIB':
                    seen.append((m.d[0], m.d[1], m.d[2].sort))
                elif m.kind == 'cond':
                    stack += [m.d[1], m.d[2]]
                    break
                m = m.parent
        for off, size, sort in seen:
            key = (rid, off.id)
            lo = iconst(off)
            if key in out or any(o[1] != size and iconst(o[0]) < lo + size and lo < iconst(o[0]) + o[1] for o in seen):
                continue
            try:
                out[key] = (off, size, self.read(self.mem_of(st, rid), off, sort, size, self.ctx(st.pc)))
            except Unsupported:
                pass
        return out

    def layer_cells(self, m, hdr):
        out = []

        def walk(m):
            while m is not hdr:
                if m is None or m.kind == 'base':
                    return hdr is None or (m is not None and hdr is None)
                if m.kind == 'store':
                    if iconst(m.d[0]) is None:
                        return False
                    out.append(m.d)
                elif m.kind == 'cond':
                    return walk(m.d[1]) and walk(m.d[2])
                else:
                    return False
                m = m.parent
            return True
        return out if walk(m) else None

    def iterate(self, f, L, order, st):
        """run the loop body once from header state st (phis already set)"""
        return self.run_region(f, order, L.header, [(None, st)], L, skip_header_phis=True)

    # -- closed forms
    def summarise(self, f, L, order, st0):
        phis = [i for i in f.blocks[L.header] if i.op == 'phi']
        init = {p.res: st0.regs[p.res] for p in phis}
        t_at = mk('ivar', (fresh_name('t'),), 'I')
        t = at_lin(t_at)
        tfact = ile(I(0), t)
        known = self.guess_ivs(f, L, phis, st0, t)      # phi reg -> closed form in t
        guessed = dict(known)
        cells = {}      # region -> list of (off, size, closed in t) resolved int/pointer cells
        modset = set()
        ptrcells = set()
        badptr = set()
        rounds = 0
        snap = len(self.aborts)
        trip_facts = ()
        while True:
            rounds += 1
            if rounds > 40:
                raise LoopFail('no fixpoint')
            del self.aborts[snap:]
            # header state at iteration t
            ph = {}
            st = st0.copy()
            st.pc = st0.pc + (tfact,) + trip_facts
            for p in phis:
                if p.res in known:
                    st.regs[p.res] = known[p.res]
                else:
                    v = init[p.res]
                    X = self.placeholder(p, v)
                    ph[p.res] = X
                    st.regs[p.res] = X
            hmid = {}
            for rid in modset:
                h = fresh_name('h').split('!')[1]
                hmid[rid] = h
                m = Mem('base', None, ('hm', int(h)))
                for off, size, v in cells.get(rid, []):
                    m = Mem('store', m, (off, size, v))
                st.mem[rid] = m
            hdr_mem = dict(st.mem)
            ex, rt = self.iterate(f, L, order, st)
            back = [(a, s) for a, b, s in ex if b == L.header]
            # pointer cells the body reads: guessed constant, verified below
            progress = False
            for rid in sorted(modset):
                for off in sorted(self.demand.get(hmid[rid], ()), key=lambda o: iconst(o)):
                    if (rid, off) in badptr or any(o is off for o, _, _ in cells.get(rid, [])):
                        continue
                    try:
                        i0 = self.read(st0.mem.get(rid) or Mem('base', None, self.regions[rid].base), off, 'P', 8, self.ctx(st0.pc))
                    except Unsupported:
                        i0 = None
                    if i0 is None or i0.op not in ('ptr', 'null'):
                        badptr.add((rid, off))
                        continue
                    cells.setdefault(rid, []).append((off, 8, i0))
                    ptrcells.add((rid, off))
                    progress = True
            if progress:
                continue
            if not back:
                raise LoopFail('no back edge state')
            nxt = self.enter(f, L.header, back, False)
            for rid, off in sorted(ptrcells, key=lambda p: (p[0], iconst(p[1]))):
                i0 = [v for o, _, v in cells[rid] if o is off][0]
                if self.read(nxt.mem[rid], off, 'P', 8, self.ctx(nxt.pc)) is not i0:
                    cells[rid] = [x for x in cells[rid] if x[0] is not off]
                    ptrcells.discard((rid, off))
                    badptr.add((rid, off))
                    progress = True
            if progress:
                trip_facts = ()
                continue
            # modified regions (existing before the loop)
            newmod = set()
            for rid, m in nxt.mem.items():
                if rid in st0.mem or rid in modset:
                    if m is not hdr_mem.get(rid):
                        if rid in st0.mem or rid in modset:
                            newmod.add(rid)
                else:
                    if m.kind != 'base' and rid not in modset and self.region_preexists(rid, st0):
                        newmod.add(rid)
            if not newmod <= modset:
                modset |= newmod
                continue
            # integer / pointer phis
            progress = False
            for r_, g in list(guessed.items()):
                # inductive step of the guessed closed form
                N = nxt.regs.get(r_)
                g1 = subst(g, {t_at: iadd(t, 1)})
                if N is not g1 and not (isinstance(N, E) and N.sort == g1.sort and
                                        self.ctx(nxt.pc).entails(self.icmp_eq(N, g1))):
                    del guessed[r_]
                    del known[r_]
                    progress = True
            if progress:
                trip_facts = ()
                continue
            for p in phis:
                if p.res in known:
                    continue
                X = ph[p.res]
                N = nxt.regs.get(p.res)
                if isinstance(N, Agg) or N is None:
                    raise LoopFail('aggregate phi')
                cf = self.iv_closed(X, N, init[p.res], t, t_at, ph, hmid)
                if cf is not None:
                    known[p.res] = cf
                    progress = True
            # integer fixed cells
            for rid in modset:
                for off, size, v in self.flat_writes_cells(nxt.mem[rid], hdr_mem[rid], self.ctx(nxt.pc)):
                    if t_at in fv(off) or self.mentions(off, ph, hmid):
                        continue
                    if any(o is off for o, _, _ in cells.get(rid, [])):
                        continue
                    if v.sort == 'I' and size in (8, 4, 1):
                        X = at_lin(mk('ird', ('hm%s' % hmid[rid], off), 'I'))
                        i0 = self.read(st0.mem.get(rid) or Mem('base', None, self.regions[rid].base), off, 'I', size, self.ctx(st0.pc))
                    elif v.sort == 'P':
                        X = mk('prd', ('hm%s' % hmid[rid], off), 'P')
                        i0 = self.read(st0.mem.get(rid) or Mem('base', None, self.regions[rid].base), off, 'P', size, self.ctx(st0.pc))
                    else:
                        continue
                    cf = self.iv_closed(X, v, i0, t, t_at, ph, hmid)
                    if cf is None and v.sort == 'P' and X is v:
                        cf = i0
                    if cf is not None:
                        cells.setdefault(rid, []).append((off, size, cf))
                        progress = True
            if progress:
                continue
            if not trip_facts:
                # try the trip count as soon as the guard is expressed in known things
                tc = self.trip(ex, nxt, L, t, t_at, st0, ph, hmid, rt)
                if tc is not None:
                    ct = iconst(tc)
                    if ct is not None and ct <= self.unroll and rounds_first(self, L, ct):
                        raise ConstTrip()
                    self_T = tc
                    trip_facts = (ilt(t, tc),)
                    continue
                raise LoopFail('trip count of loop %s in %s not derivable' % (L.header, f.name))
            break
        # now everything integer is known and 0<=t<T; real phis and memory
        Texpr = self_T
        ctx_in = self.ctx(st.pc)
        if [1 for a, b, s in ex if b != L.header and not self.ctx(s.pc).unsat()] or \
                [1 for s, _ in rt if not self.ctx(s.pc).unsat()]:
            raise LoopFail('early exit from loop')
        closed, memgen = self.solve_reals(phis, ph, init, nxt, st0, hdr_mem, modset, hmid, cells, t, t_at, Texpr, ctx_in)
        # exit state: header state at t = T, then run the exit path
        def header_state(tt, pc):
            s = st0.copy()
            s.pc = pc
            mp = {t_at: tt}
            for p in phis:
                v = known.get(p.res)
                if v is None:
                    v = closed[p.res]
                s.regs[p.res] = subst(v, mp) if not isinstance(v, Agg) else v
            for rid in modset:
                s.mem[rid] = memgen[rid](tt)
            return s
        self.obl += 1
        self.notes.append('loop %s: T=%s' % (L.header, show(Texpr)[:60]))
        sT = header_state(Texpr, st0.pc)
        ex, rt = self.iterate(f, L, order, sT)
        back = [s for a, b, s in ex if b == L.header and not self.ctx(s.pc).unsat()]
        if back:
            raise LoopFail('trip count not exact')
        return [(a, b, s) for a, b, s in ex if b != L.header], rt

    def guess_ivs(self, f, L, phis, st0, t):
        """phis advanced by a chain of constant adds / constant geps: init + c*t
        (a guess; its inductive step is checked on the loop body)"""
        defs = {}
        for b in L.blocks:
            for i in f.blocks[b]:
                if i.res:
                    defs[i.res] = i
        out = {}
        for p in phis:
            i0 = st0.regs[p.res]
            if isinstance(i0, Agg) or not (i0.sort == 'I' or i0.op == 'ptr'):
                continue
            vs = {v for v, lab in p.args if lab in L.blocks}
            if len(vs) != 1:
                continue
            v = next(iter(vs))
            chain = []
            ok = True
            while v != ('reg', p.res):
                i = defs.get(v[1]) if v[0] == 'reg' else None
                if i is None or len(chain) > 6:
                    ok = False
                    break
                if i.op == 'getelementptr' and all(x[1][0] == 'c' for x in i.x):
                    pass
                elif i.op in ('add', 'sub') and i.args[1][0] == 'c':
                    pass
                else:
                    ok = False
                    break
                chain.append(i)
                v = i.args[0]
            if not ok or not chain:
                continue
            s = St({p.res: i0}, {}, ())
            try:
                for i in reversed(chain):
                    self.step(s, i)
                n = s.regs[chain[0].res]
                if i0.sort == 'I':
                    d = iconst(isub(n, i0))
                    if d is not None:
                        out[p.res] = iadd(i0, imulc(t, d))
                elif n.op == 'ptr' and n.a[0] == i0.a[0]:
                    d = iconst(isub(n.a[1], i0.a[1]))
                    if d is not None:
                        out[p.res] = ptr(i0.a[0], iadd(i0.a[1], imulc(t, d)))
            except (Unsupported, KeyError, TypeError):
                continue
        return out

    def region_preexists(self, rid, st0):
        # regions created before the loop have ids smaller than any created inside;
        # those without an entry in mem are still at their base state
        return rid in self._preregs(st0)

    def _preregs(self, st0):
        s = getattr(self, '_prs', {}).get(id(st0))
        if s is None:
            if not hasattr(self, '_prs'):
                self._prs = {}
            s = set()
            def addp(v):
                if isinstance(v, Agg):
                    for x in v:
                        addp(x)
                elif v.sort == 'P':
                    stt = [v]
                    while stt:
                        x = stt.pop()
                        if x.op == 'ptr':
                            s.add(x.a[0])
                        elif x.op == 'ite':
                            stt += [x.a[1], x.a[2]]
            for v in st0.regs.values():
                addp(v)
            # pointers stored in memory
            for rid, m in st0.mem.items():
                s.add(rid)
                while m is not None:
                    if m.kind == 'store' and m.d[2].sort == 'P':
                        addp(m.d[2])
                    m = m.parent
            s |= set(self.globs.values())
            s |= set(self.opts.get('arg_regions', ()))
            self._prs[id(st0)] = s
            self._keep = getattr(self, '_keep', [])
            self._keep.append(st0)
        return s

    def placeholder(self, p, v):
        n = fresh_name('X' + p.res)
        if isinstance(v, Agg):
            raise LoopFail('aggregate phi')
        if v.sort == 'I':
            return ivar(n)
        if v.sort == 'R':
            return rvar(n)
        if v.sort == 'B':
            return bvar(n)
        if v.sort == 'P':
            if v.op == 'ptr':
                return ptr(v.a[0], ivar(n))
            return mk('pvar', (n,), 'P')
        if v.sort == 'U':
            ty = self.m.types.resolve(p.ty)
            if ty[0] == 'f':
                return rvar(n)
            if ty[0] == 'i':
                return bvar(n) if ty[1] == 1 else ivar(n)
        raise LoopFail('phi sort')

    def mentions(self, e, ph, hmid):
        if not isinstance(e, E):
            return False
        leaves = set()
        for X in ph.values():
            for a in fv(X):
                leaves.add(a)
            if X.op == 'pvar':
                leaves.add(X)
        names = {'hm%s' % h for h in hmid.values()}
        return contains(e, lambda x: x in leaves or (x.op in ('rd', 'ird', 'brd', 'prd') and x.a[0] in names))

    def iv_closed(self, X, N, i0, t, t_at, ph, hmid):
        """closed form for next(X)=N, integer or pointer"""
        if N is X:
            return i0
        if X.sort == 'P':
            if X.op == 'ptr' and N.op == 'ptr' and N.a[0] == X.a[0] and i0.op == 'ptr':
                c = self.iv_closed(X.a[1], N.a[1], i0.a[1], t, t_at, ph, hmid)
                return ptr(X.a[0], c) if c is not None else None
            if N is i0:
                return i0
            return None
        if X.sort == 'I':
            if N.sort != 'I':
                return None
            s = isub(N, X)
            if self.mentions(s, ph, hmid):
                if not self.mentions(N, ph, hmid):
                    if t_at not in fv(N):
                        return i0 if N is i0 else ite(ile(t, I(0)), i0, N)
                    # last value of something known: N(t-1)
                    prev = subst(N, {t_at: iadd(t, -1)})
                    # common case: N(t-1) at t=0 equals init
                    at0 = subst(prev, {t_at: I(0)})
                    if at0 is i0:
                        return prev
                    return ite(ile(t, I(0)), i0, prev)
                return None
            if t_at in fv(s):
                # polynomial of degree 1 in t -> quadratic; only unit case
                return None
            if i0.sort == 'U':
                return None
            return iadd(i0, imul(s, t))
        if X.sort == 'B' and not self.mentions(N, ph, hmid):
            if t_at not in fv(N):
                return ite(ile(t, I(0)), i0, N)
            return ite(ile(t, I(0)), i0, subst(N, {t_at: iadd(t, -1)}))
        return None

    def flat_writes_cells(self, m, hdr, ctx):
        """(off,size,val) of plain stores on top of hdr"""
        out = []
        seen = set()
        offs = []

        def walk(m):
            while m is not hdr and m is not None:
                if m.kind == 'store':
                    if m.d[0] not in seen:
                        seen.add(m.d[0])
                        offs.append((m.d[0], m.d[1], m.d[2].sort))
                elif m.kind == 'cond':
                    walk(m.d[1])
                    walk(m.d[2])
                    return
                m = m.parent
        walk(m)
        for off, size, sort in offs:
            if sort in ('I', 'P'):
                try:
                    v = self.read(m, off, sort, size, ctx)
                except Unsupported:
                    continue
                out.append((off, size, v))
        return out

    def trip(self, ex, nxt, L, t, t_at, st0, ph, hmid, rt):
        """find T with: continue at t<T, exit at t=T"""
        base = len(st0.pc) + 1
        back_pc = nxt.pc[base:]
        conds = [c for c in back_pc]
        cands = []
        for c in conds:
            for x in (c.a if c.op == 'and' else (c,)):
                if self.mentions(x, ph, hmid):
                    continue
                if t_at not in fv(x):
                    continue
                cands.append(x)
        ctx0 = self.ctx(st0.pc)
        for x in cands:
            T = None
            if x.op == 'le0':
                lt_ = x.a[0]
                co = dict(lt_.a[1]).get(t_at, 0)
                rest = isub(lt_, imulc(t, co))
                if co == 1 and t_at not in fv(rest):
                    T = isub(I(1), rest)        # t + rest <= 0
                elif co > 1 and t_at not in fv(rest):
                    # co*t+rest<=0  <=> t <= -rest/co
                    T = iadd(idiv(imulc(rest, -1), I(co)), 1)
                    if not ctx0.entails(ile(rest, I(0))):
                        continue
            elif x.op == 'not' and x.a[0].op == 'eq0':
                lt_ = x.a[0].a[0]
                co = dict(lt_.a[1]).get(t_at, 0)
                rest = isub(lt_, imulc(t, co))
                if abs(co) >= 1 and t_at not in fv(rest):
                    q = imulc(rest, -1 if co > 0 else 1)
                    if abs(co) == 1:
                        T = q
                    else:
                        T = idiv(q, I(abs(co)))
                        if any(a.op == 'idiv' for a, _ in T.a[1]):
                            continue
            if T is None:
                continue
            # clamp
            if ctx0.entails(ile(I(0), T)):
                pass
            elif ctx0.entails(ile(T, I(0))):
                T = I(0)
            elif x.op == 'not':
                continue
            else:
                T = ite(ile(I(0), T), T, I(0))
            # verify: for 0<=t<T every exit is infeasible w.r.t. this guard (others checked later);
            # at t=T the guard is false
            c1 = Ctx(list(self.facts) + list(st0.pc) + [ile(I(0), t), ilt(t, T)])
            if not c1.entails(x):
                continue
            c2 = Ctx(list(self.facts) + list(st0.pc) + [ieq(t, T)])
            if not c2.entails(bnot(x)):
                continue
            self.obl += 2
            return T
        return None

    # -- real recurrences and memory effects
    def lin_in(self, N, X, ctx, memo=None):
        """N = c*X + r with c constant and r free of X; returns (c, r) or None"""
        if N is X:
            return (Fraction(1), R0)
        if not contains(N, lambda y: y is X):
            return (Fraction(0), N)
        if N.op == '+':
            a = self.lin_in(N.a[0], X, ctx)
            b = self.lin_in(N.a[1], X, ctx)
            if a is None or b is None:
                return None
            return (a[0] + b[0], radd(a[1], b[1]))
        if N.op == '*':
            a, b = N.a
            if not contains(a, lambda y: y is X):
                a, b = b, a
            # a contains X
            if contains(b, lambda y: y is X):
                return None
            k = rconst(b)
            if k is None:
                return None
            q = self.lin_in(a, X, ctx)
            return None if q is None else (q[0] * k, rmul(q[1], b))
        if N.op == 'ite':
            if contains(N.a[0], lambda y: y is X):
                return None
            a = self.lin_in(N.a[1], X, ctx)
            b = self.lin_in(N.a[2], X, ctx)
            if a is None or b is None or a[0] != b[0]:
                return None
            return (a[0], ite(N.a[0], a[1], b[1]))
        return None

    def minmax(self, N, X, i0):
        """N = max/min(X, e) patterns -> (kind, e)"""
        if N.op == 'fold' and N.a[4] is X and not contains(N.a[3], lambda y: y is X):
            # max(X, inner fold): valid with the inner fold started at the outer
            # start value, because X never drops below (rises above) it
            return N.a[0], rfold(N.a[0], N.a[1], N.a[2], N.a[3], i0)
        if N.op == 'ite' and N.a[0].op in ('rlt', 'rle'):
            c, a, b = N.a
            p, q = c.a      # p < q
            # if X < e then e else X  -> max ; if e < X then e else X -> min
            if p is X and a is q and b is X:
                return 'max', q
            if q is X and a is p and b is X:
                return 'min', p
            if p is X and a is X and b is q:
                return 'min', q
            if q is X and a is X and b is p:
                return 'max', p
        return None

    def solve_reals(self, phis, ph, init, nxt, st0, hdr_mem, modset, hmid, cells, t, t_at, T, ctx_in):
        closed = {}
        names = {int(h): rid for rid, h in hmid.items()}
        hmnames = {'hm%s' % h: rid for rid, h in hmid.items()}
        M0 = {rid: (st0.mem.get(rid) or Mem('base', None, self.regions[rid].base)) for rid in modset}
        ctx_t = Ctx(list(ctx_in.facts))
        ctx_n = self.ctx(nxt.pc)
        ctx0 = self.ctx(st0.pc)
        # ---- collect writes per region
        writes = {}
        for rid in modset:
            writes[rid] = self.collect(nxt.mem[rid], hdr_mem[rid], ctx_n, cells.get(rid, []))
        phX = {r: X for r, X in ph.items()}
        # ---- real phis
        pend = {}
        for p in phis:
            if p.res in ph:
                N = nxt.regs[p.res]
                if N is None or isinstance(N, Agg):
                    raise LoopFail('phi')
                pend[p.res] = simp(N, ctx_n) if N.sort == 'R' else N
        # classify memory writes
        adds = {}       # rid -> list (bvs, off, size, delta)
        maps = {}       # rid -> list (bvs, off, size, val)
        carry = {}
        lastv = {}
        fixed = {}      # rid -> list (off,size,closed fn)
        resolved_subst = {}

        def depends(e):
            """unresolved placeholders / header memory in e"""
            return self.mentions(e, ph, hmid)

        # resolve hm reads: first decide which are unaffected by earlier iterations
        allw = {rid: [(bvs, off, size) for (kind, bvs, off, size, val, delta) in ws] for rid, ws in writes.items()}
        t2 = mk('ivar', (fresh_name('u'),), 'I')
        memo_res = {}

        def resolve(e, ctx, allow_fixed=True):
            """replace reads of the iteration-start memory by closed forms"""
            def pred(x):
                return x.op in ('rd', 'ird', 'brd', 'prd') and x.a[0] in hmnames
            if not contains(e, pred):
                return e
            memo = {}

            def go(x):
                if x in memo:
                    return memo[x]
                if pred(x):
                    r = res_read(x, go)
                elif x.op in ('sum',):
                    # bound variable facts matter for non-interference
                    k = at_lin(x.a[0])
                    c2 = Ctx(ctx.facts + [ile(I(0), k), ilt(k, x.a[1])])
                    r = rsum(x.a[0], I(0), resolve(x.a[1], ctx), resolve(x.a[2], c2))
                elif x.op == 'ite':
                    c = go(x.a[0])
                    r = ite(c, resolve(x.a[1], Ctx(ctx.facts + [c])), resolve(x.a[2], Ctx(ctx.facts + [bnot(c)])))
                else:
                    r = rebuild(x, go)
                memo[x] = r
                return r

            def res_read(x, go):
                rid = hmnames[x.a[0]]
                off = x.a[1]
                sort = {'rd': 'R', 'ird': 'I', 'brd': 'B', 'prd': 'P'}[x.op]
                size = 8 if sort in ('R', 'P') else 8
                for fo, fs, fc in fixed.get(rid, []):
                    if fo is off:
                        return fc
                # untouched by iterations u<t ?
                for (bvs, w, z) in allw[rid]:
                    nb, (w2,) = self.fresh_bvs(bvs, w) if bvs else ([], (w,))
                    mp = {t_at: at_lin(t2)}
                    w2 = subst(w2, mp)
                    nb = [(b, subst(h, mp)) for b, h in nb]
                    g = [ile(I(0), at_lin(t2)), ilt(at_lin(t2), t)]
                    c2 = Ctx(ctx.facts + g)
                    r = off_rel(off, size, w2, z)
                    if r == 'ne':
                        continue
                    if not self.never(c2, off, size, w2, z, nb):
                        # additive-only region: value at iteration start = M0 + partial sums
                        if rid in adds and rid not in maps:
                            return self.read(memgen[rid](t), off, sort, size, ctx)
                        raise LoopFail('loop-carried read %s[%s] vs write %s' % (self.regions[rid].name, show(off)[:80], show(w)[:80]))
                return self.read(M0[rid], off, sort, size, ctx)
            return go(e)

        memgen = {}
        # pass 1: additive classification needs deltas free of unresolved things
        order_ = list(modset)
        work = {rid: list(ws) for rid, ws in writes.items()}
        for rid in order_:
            for (kind, bvs, off, size, val, delta) in work[rid]:
                if depends(off):
                    raise LoopFail('write offset %s depends on loop-carried value' % show(off)[:100])
        # iterate resolution: phis and cells
        remaining = True
        pending_cells = {}
        for rid in order_:
            for w in work[rid]:
                pending_cells.setdefault(rid, []).append(w)
        guard = 0
        phsub = {}
        while pend or any(pending_cells.values()):
            guard += 1
            if guard > 12:
                raise LoopFail('unresolved recurrences: %s' % (list(pend) + [show(w[2])[:60] for ws in pending_cells.values() for w in ws][:3]))
            progress = False
            for res in list(pend):
                N = pend[res]
                X = ph[res]
                if phsub:
                    N = subst(N, phsub)
                    pend[res] = N
                i0 = init[res]
                if N.sort != 'R':
                    cf = self.iv_closed(X, N, i0, t, t_at, {k: v for k, v in ph.items() if k in pend}, hmid)
                    if cf is None:
                        continue
                    closed[res] = cf
                    for a in fv(X):
                        phsub[a] = cf
                    del pend[res]
                    progress = True
                    continue
                others = {k: v for k, v in ph.items() if k in pend and k != res}
                le = self.lin_in(N, X, ctx_n)
                cf = None
                if le is not None and le[0] == 1 and not self.mentions(le[1], others, {}):
                    try:
                        e = resolve(le[1], ctx_n)
                    except LoopFail:
                        continue
                    if self.mentions(e, {k: v for k, v in ph.items() if k in pend}, hmid):
                        continue
                    k = mk('ivar', (fresh_name('k'),), 'I')
                    ek = subst(e, {t_at: at_lin(k)})
                    cf = self.telescope(i0, k, ek, t, [subst(f, {t_at: at_lin(k)}) for f in ctx_n.facts]) if INV \
                        else radd(i0, rsum(k, I(0), t, ek))
                elif le is not None and le[0] == 0 and not self.mentions(le[1], others, {}):
                    try:
                        e = resolve(le[1], ctx_n)
                    except LoopFail:
                        continue
                    if self.mentions(e, {k: v for k, v in ph.items() if k in pend}, hmid):
                        continue
                    prev = subst(e, {t_at: iadd(t, -1)})
                    if i0.sort == 'U':
                        cf = prev
                    else:
                        at0 = simp(subst(prev, {t_at: I(0)}), ctx0)
                        cf = prev if at0 is i0 else ite(ile(t, I(0)), i0, prev)
                elif le is not None and le[0] == -1 and not self.mentions(le[1], others, {}) and le[1] is R0:
                    continue
                else:
                    mmx = self.minmax(N, X, i0)
                    if mmx is not None and not self.mentions(mmx[1], {k: v for k, v in ph.items() if k in pend}, {}):
                        try:
                            e = resolve(mmx[1], ctx_n)
                        except LoopFail:
                            continue
                        if self.mentions(e, ph, hmid):
                            continue
                        k = mk('ivar', (fresh_name('k'),), 'I')
                        cf = rfold(mmx[0], k, t, subst(e, {t_at: at_lin(k)}), i0)
                if cf is None:
                    continue
                closed[res] = cf
                phsub[X] = cf
                del pend[res]
                progress = True
            if phsub:
                for res in list(pend):
                    pend[res] = subst(pend[res], phsub)
            unresolved = {k: v for k, v in ph.items() if k in pend}
            for rid in order_:
                ws = pending_cells.get(rid, [])
                if not ws:
                    continue
                # try to classify the whole region at once
                try:
                    r = self.classify(rid, ws, phsub, unresolved, hmid, hmnames, resolve, allw, M0[rid], ctx_n, ctx0, t, t_at, t2, st0, cells.get(rid, []), fixed, adds, maps)
                except LoopFail as e:
                    self._last_cls = e
                    if guard > 10:
                        raise
                    continue
                if r is None:
                    continue
                pending_cells[rid] = []
                memgen[rid] = r
                progress = True
            if not progress:
                why = getattr(self, '_last_cls', None)
                raise LoopFail('unresolved recurrence %s (%s)' % (
                    [(k, show(pend[k])[:150]) for k in pend][:3], why))
        for rid in modset:
            if rid not in memgen:
                memgen[rid] = (lambda m: (lambda tt: m))(M0[rid])
        return closed, memgen

    def collect(self, m, hdr, ctx, cells):
        """writes of one iteration, oldest first:
        (kind, bvs, off, size, val, delta)  kind in 'store','bulk','add'"""
        layers = []
        x = m
        while x is not hdr:
            if x is None:
                raise LoopFail('memory chain lost')
            if x.kind == 'cond':
                # flatten conditional: union of write locations
                return self.collect_cond(m, hdr, ctx)
            if x.kind in ('copy', 'fill'):
                # constant-size copies: expand by 8-byte cells
                return self.collect_cond(m, hdr, ctx)
            layers.append(x)
            x = x.parent
        out = []
        for l in reversed(layers):
            if l.kind == 'store':
                off, size, v = l.d
                delta = None
                if v.sort == 'R':
                    r = self.read(l.parent, off, 'R', size, ctx)
                    le = self.lin_in(v, r, ctx)
                    if le is not None and le[0] == 1:
                        delta = le[1]
                out.append(('store', [], off, size, v, delta))
            elif l.kind == 'bulk':
                for bvs, off, size, v in l.d:
                    out.append(('bulk', bvs, off, size, v, None))
            elif l.kind == 'add':
                for bvs, off, size, v in l.d:
                    out.append(('add', bvs, off, size, None, v))
            else:
                raise LoopFail('layer ' + l.kind)
        return out

    def collect_cond(self, m, hdr, ctx):
        locs = {}

        def walk(x, stop):
            while x is not stop and x is not None:
                if x.kind == 'store':
                    locs.setdefault((x.d[0], x.d[1]), x.d[2].sort)
                elif x.kind == 'cond':
                    walk(x.d[1], stop)
                    walk(x.d[2], stop)
                    return
                elif x.kind in ('copy', 'fill'):
                    n = iconst(x.d[1])
                    if n is None or n > 512 or n % 8:
                        raise LoopFail('symbolic copy in loop body')
                    for i in range(0, n, 8):
                        locs.setdefault((iadd(x.d[0], i), 8), 'R')
                else:
                    raise LoopFail('conditional %s in loop body' % x.kind)
                x = x.parent
        walk(m, hdr)
        out = []
        for (off, size), sort in locs.items():
            v = self.read(m, off, sort, size, ctx)
            if sort == 'R':
                old = self.read(hdr, off, 'R', size, ctx)
                le = self.lin_in(v, old, ctx)
                delta = le[1] if le is not None and le[0] == 1 else None
            else:
                delta = None
            out.append(('store', [], off, size, v, delta))
        # pairwise distinctness needed for the incremental reading
        keys = list(locs)
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                r = off_rel(keys[i][0], keys[i][1], keys[j][0], keys[j][1])
                if r != 'ne' and not self.never(ctx, keys[i][0], keys[i][1], keys[j][0], keys[j][1]):
                    raise LoopFail('possibly aliasing conditional writes')
        return out

    def classify(self, rid, ws, phsub, unresolved, hmid, hmnames, resolve, allw, M0, ctx, ctx0, t, t_at, t2, st0, cells, fixed, adds, maps):
        """closed-form memory of one region; returns fn(tt)->Mem"""
        def clean(e):
            if phsub:
                e = subst(e, phsub)
            if self.mentions(e, unresolved, {}):
                raise LoopFail('write depends on unresolved phi')
            return e
        cell_offs = {o for o, _, _ in cells}
        cell_vals = list(cells)
        todo = [w for w in ws if w[2] not in cell_offs]
        # --- all additive?
        reals = [w for w in todo if (w[0] == 'add') or (w[4] is not None and w[4].sort == 'R')]
        others = [w for w in todo if w not in reals]
        add_e = []
        ok = True
        own = {'hm%s' % hmid[rid]}
        for kind, bvs, off, size, val, delta in reals:
            if delta is None:
                ok = False
                break
            d = clean(delta)
            if contains(d, lambda x: x.op == 'rd' and x.a[0] in own):
                try:
                    d = resolve(d, ctx)
                except LoopFail:
                    ok = False
                    break
            else:
                d = resolve(d, ctx)
            if self.mentions(d, unresolved, hmid):
                ok = False
                break
            add_e.append((bvs, off, size, d))
        if ok and reals and not self.all_indep_overwrite(reals):
            mapo = self.map_writes(rid, others, clean, resolve, ctx, t, t_at, t2, allw, unresolved, hmid, M0) if others else []
            adds[rid] = True

            def gen(tt, add_e=add_e, M0=M0, cell_vals=cell_vals, mapo=mapo):
                m = M0
                if mapo:
                    m = self.mk_bulk(m, mapo, t_at, tt)
                ents = []
                for bvs, off, size, d in add_e:
                    k = mk('ivar', (fresh_name('k'),), 'I')
                    mp = {t_at: at_lin(k)}
                    ents.append(([(k, tt)] + [(b, subst(h, mp)) for b, h in bvs], subst(off, mp), size, subst(d, mp)))
                m = Mem('add', m, ents)
                for off, size, v in cell_vals:
                    m = Mem('store', m, (off, size, subst(v, {t_at: tt})))
                return m
            return gen
        # --- map / last value / carried
        mp_entries = self.map_writes(rid, todo, clean, resolve, ctx, t, t_at, t2, allw, unresolved, hmid, M0)
        maps[rid] = True

        def gen(tt, mp_entries=mp_entries, M0=M0, cell_vals=cell_vals):
            m = self.mk_bulk(M0, mp_entries, t_at, tt)
            for off, size, v in cell_vals:
                m = Mem('store', m, (off, size, subst(v, {t_at: tt})))
            return m
        return gen

    def all_indep_overwrite(self, reals):
        return False

    def mk_bulk(self, M0, entries, t_at, tt):
        m = M0
        bulk = []
        last = []
        for typ, bvs, off, size, v in entries:
            if typ in ('map', 'map1'):
                k = mk('ivar', (fresh_name('k'),), 'I')
                mp = {t_at: at_lin(k)}
                if typ == 'map1':       # entry k = 0 rewrites the value that is there
                    bulk.append(([(k, iadd(tt, 1))], subst(off, mp), size, subst(v, mp)))
                    continue
                bulk.append(([(k, tt)] + [(b, subst(h, mp)) for b, h in bvs], subst(off, mp), size, subst(v, mp)))
            else:
                last.append((off, size, v))
        if bulk:
            m = Mem('bulk', m, bulk)
        if last:
            top = m
            for off, size, v in last:
                top = Mem('store', top, (subst(off, {t_at: iadd(tt, -1)}), size, subst(v, {t_at: iadd(tt, -1)})))
            c = ile(I(1), tt)
            m = top if c is TRUE else (m if c is FALSE else Mem('cond', None, (c, top, m)))
        return m

    def map_writes(self, rid, ws, clean, resolve, ctx, t, t_at, t2, allw, unresolved, hmid, M0=None):
        out = []
        # later writes to the same location in one iteration override earlier ones
        final = []
        for w in ws:
            kind, bvs, off, size, val, delta = w
            if kind == 'add':
                raise LoopFail('additive inner effect mixed with map')
            final = [x for x in final if not (x[2] is off and x[3] == size)]
            final.append(w)
        firsts = []
        for kind, bvs, off, size, val, delta in final:
            v = clean(val)
            dep = t_at in fv(off)
            try:
                v = resolve(v, ctx)
            except LoopFail as e:
                v2 = self.carried(rid, off, size, clean(val), ctx, t, t_at, hmid, resolve, M0) if kind == 'store' and len(final) <= 12 else None
                if v2 is None:
                    raise e
                prev, v, v1 = v2
                if dep and not self.mentions(v, unresolved, hmid):
                    firsts.append((subst(prev, {t_at: I(0)}), size, off))
                    out.append(('map1', [], prev, size, v1))
                    continue
            if self.mentions(v, unresolved, hmid):
                raise LoopFail('map value depends on loop-carried memory: %s' % show(v)[:120])
            if kind == 'bulk':
                if dep:
                    # nested map: needs injectivity across both; only allow reading via solve -> unsupported there
                    out.append(('map', bvs, off, size, v))
                else:
                    raise LoopFail('overwriting inner map in outer loop')
            elif dep:
                out.append(('map', [], off, size, v))
            else:
                out.append(('last', [], off, size, v))
        # cross-iteration disjointness of different entries / injectivity
        ents = [(a[0], a[1], subst(a[2], {t_at: iadd(t, 1)}), a[3], a[4]) if a[0] == 'map1' else a for a in out]
        for i, (r0, size, _) in enumerate(firsts):
            for a in ents:
                if a[1] or not self.never(ctx, r0, size, a[2], a[3]):
                    raise LoopFail('prefix sum: the first location is written again: %s / %s' % (show(r0)[:80], show(a[2])[:80]))
            for r1, size1, _ in firsts[i + 1:]:
                if not self.never(ctx, r0, size, r1, size1):
                    raise LoopFail('prefix sum: first locations collide')
        t1 = at_lin(t2)
        for i, a in enumerate(ents):
            for b in ents[i:]:
                if a[0] == 'last' and b[0] == 'last':
                    continue
                if a[1] or b[1]:
                    continue
                w1 = a[2]
                w2 = subst(b[2], {t_at: t1})
                g = [ile(I(0), t1), bnot(ieq(t1, t))]
                if a is b and a[0] == 'last':
                    continue
                if a[0] == 'last' or b[0] == 'last':
                    g = [ile(I(0), t1)]
                r = off_rel(w1, a[3], w2, b[3])
                if r == 'ne':
                    continue
                T_f = [f for f in ctx.facts if t_at in fv(f)]
                g += [subst(f, {t_at: t1}) for f in T_f if int_only(f)]
                c2 = Ctx(ctx.facts + g)
                self.obl += 1
                if not self.never(c2, w1, a[3], w2, b[3]):
                    raise LoopFail('map writes collide across iterations: %s / %s' % (show(w1)[:80], show(w2)[:80]))
        return out

    def carried(self, rid, off, size, val, ctx, t, t_at, hmid, resolve, M0):
        """val(t) = hm[r] + e with r(t) = off(t-1): prefix sum"""
        own = 'hm%s' % hmid[rid]
        X = []

        def pred(x):
            if x.op == 'rd' and x.a[0] == own:
                X.append(x)
            return False
        contains(val, pred)
        for x in set(X):
            prev = subst(off, {t_at: iadd(t, -1)})
            c = Ctx(ctx.facts + [ile(I(1), t)])
            if not c.entails(ieq(x.a[1], prev)):
                continue
            le = self.lin_in(val, x, ctx)
            if le is None or le[0] != 1:
                continue
            e = resolve(le[1], ctx)
            r0 = subst(x.a[1], {t_at: I(0)})
            base = self.read(M0, r0, 'R', size, Ctx([f for f in ctx.facts if t_at not in fv(f)]))
            k = mk('ivar', (fresh_name('k'),), 'I')
            s = self.telescope(base, k, subst(e, {t_at: at_lin(k)}), t, [subst(f, {t_at: at_lin(k)}) for f in ctx.facts])
            # location of iteration t-1, value after iteration t, value after iteration t-1
            return x.a[1], subst(s, {t_at: iadd(t, 1)}), s
        return None

    def telescope(self, base, k, e, hi, facts):
        """base + sum_{k=0}^{hi-1} e, in closed form when e is a difference G(k+1) - G(k)"""
        kv = at_lin(k)
        c = Ctx(facts)
        D, Bs = expand(simp(e, c)), expand(simp(base, Ctx([f for f in facts if k not in fv(f)])))
        plain = radd(base, rsum(k, I(0), hi, e))
        if D is None or Bs is None:
            return plain
        memo = {}

        def at(M, v):
            return tuple(sorted((subst(a, {k: v}) for a in M), key=lambda a: a.id))
        tot = dict(Bs)

        def add(M, cf):
            # substitution may have folded an atom to a sum or a constant
            X = expand(mono(M))
            for m, v in X.items():
                tot[m] = tot.get(m, 0) + cf * v
                if tot[m] == 0:
                    del tot[m]
        rest = dict(D)
        for M in list(D):
            if M not in rest or k not in fv(mono(M)):
                continue
            S = at(M, iadd(kv, 1))
            if S in rest and rest[S] == -rest[M]:
                cf = rest.pop(S)
                del rest[M]
                add(at(M, hi), cf)
                add(at(M, I(0)), -cf)
        if rest:
            return plain
        s = R0
        for M, cf in sorted(tot.items(), key=lambda x: [a.id for a in x[0]]):
            s = radd(s, rmul(R(cf), mono(M)))
        return s


def mono(M):
    r = R(1)
    for a in M:
        r = rmul(r, a)
    return r


def expand(e, limit=400):
    """monomials over atoms; None when too large"""
    c = rconst(e)
    if c is not None:
        return {(): c} if c != 0 else {}
    if e.op == '+':
        a, b = expand(e.a[0], limit), expand(e.a[1], limit)
        if a is None or b is None:
            return None
        r = dict(a)
        for m, v in b.items():
            r[m] = r.get(m, 0) + v
            if r[m] == 0:
                del r[m]
        return r
    if e.op == '*':
        a, b = expand(e.a[0], limit), expand(e.a[1], limit)
        if a is None or b is None or len(a) * len(b) > limit:
            return None
        r = {}
        for m, v in a.items():
            for m2, v2 in b.items():
                q = tuple(sorted(m + m2, key=lambda x: x.id))
                r[q] = r.get(q, 0) + v * v2
                if r[q] == 0:
                    del r[q]
        return r
    return {(e,): Fraction(1)}
