from .syslib import *
P = 'P09'


def blocks(s):
    """layout: (name, cartesian array, array that is flattened, offset)"""
    n, c = s.n, s.chain
    r = [('pos', s.pos, s.cpos if c else s.pos, I(1)), ('vel', s.vel, s.cvel if c else s.vel, 1 + n * 3)]
    if s.dep:
        r.append(('aux', s.aux, s.caux if c else s.aux, 1 + n * 6))
    return r


def write(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_write', 'state to flat array')
    c, n = s.c, s.n
    y = c.arr('y', s.nv)
    ln = c.iarr('len', 5, rng=1, mode='inout')
    k = c.skolem('k', 0, n)
    c.ensures('length is the number of scalars written', band(eq(ln.new(0), s.nv), eq(ln.new(1), s.nv)))
    c.ensures('block offsets', band(eq(ln.new(2), 0), eq(ln.new(3), 1), eq(ln.new(4), 1 + n * 3)))
    c.ensures('time first', eq(y.new(0), s.g[0]))
    for nm, a, f, o in blocks(s):
        for q in range(3):
            c.ensures('%s block.%s' % (nm, 'xyz'[q]), eq(y.new(o + k * 3 + q), f[k * 3 + q]))
    if s.regu:
        o = 1 + n * 3 * (3 if s.dep else 2)
        c.ensures('omega and binding energy last', band(eq(y.new(o), s.g[1]), eq(y.new(o + 1), s.g[2])))


def read(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_read', 'flat array to state')
    c, n = s.c, s.n
    y = c.arr('y', s.nv)
    k = c.skolem('k', 0, n)
    c.ensures('time', eq(s.g.new(0), y[0]))
    for nm, a, f, o in blocks(s):
        e = lambda j: V(*[y[o + j * 3 + q] for q in range(3)])
        c.ensures_vec('%s read' % nm, f.vnew(k), e(k))
        if s.chain:
            c.ensures_vec('cartesian %s follows the links read' % nm, a.vnew(s.idx[k]), e(n - 1) + VSum(0, k, e))
    if s.regu:
        o = 1 + n * 3 * (3 if s.dep else 2)
        c.ensures('omega and binding energy', band(eq(s.g.new(1), y[o]), eq(s.g.new(2), y[o + 1])))
    c.ensures('masses unchanged', eq(s.mass.new(k), s.mass[k]))


def rnd(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_round', 'written and read back')
    c, n = s.c, s.n
    c.arr('g2', 3)
    for x in ('pos2', 'vel2', 'aux2', 'cpos2', 'cvel2', 'caux2'):
        c.arr(x, n * 3)
    k = c.skolem('k', 0, n)
    i = s.idx[k] if s.chain else k
    c.ensures('time restored', eq(s.g.new(0), s.g[0]))
    for nm, a, f, o in blocks(s):
        c.ensures_vec('%s restored' % nm, a.vnew(i), a.v(i))
        if s.chain:
            c.ensures_vec('links of %s restored' % nm, f.vnew(k), f.v(k))
    if s.regu:
        c.ensures('omega and binding energy restored', band(eq(s.g.new(1), s.g[1]), eq(s.g.new(2), s.g[2])))


def deriv(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_deriv', 'derivative of the flat state')
    c, n = s.c, s.n
    y = c.arr('y', s.nv)
    ln = c.iarr('len', 5, rng=1, mode='inout')
    k = c.skolem('k', 0, n)
    c.ensures('one derivative per scalar of the state', eq(ln.new(0), s.nv))
    dp, dv = s.dpos(R(1)), s.dvel(R(1))
    c.ensures('time', eq(y.new(0), dp))
    acc = lambda i: s.A0(i) + s.D(i, s.vel.v(i)) if s.dep else s.A0(i)
    ext = lambda i: s.E(i) + s.D(i, s.vel.v(i))
    gd = lt(k, n - 1) if s.chain else TRUE
    head = lambda f: f(s.idx[I(0)])
    for j, (f, w, nm) in enumerate([(s.vel.v, dp, 'position'), (acc, dv, 'velocity')] + ([(acc, dv, 'auxiliary velocity')] if s.dep else [])):
        o = 1 + n * 3 * j
        d = s.chained(f, k)
        for q in range(3):
            c.ensures('%s.%s' % (nm, 'xyz'[q]), eq(y.new(o + k * 3 + q), d[q] * w), guard=gd)
            if s.chain:
                c.ensures('%s of the head.%s' % (nm, 'xyz'[q]), eq(y.new(o + (n - 1) * 3 + q), head(f)[q] * w))
    if s.regu:
        o = 1 + n * 3 * (3 if s.dep else 2)
        dom = s.power(s.vel.v, s.N) * dv if s.reg == 'TTL' else R(0)
        dbe = -(s.power(s.vel.v, ext) * dv) if s.reg == 'LogH' and (s.dep or s.ind) else R(0)
        c.ensures('omega', eq(y.new(o), dom))
        c.ensures('binding energy', eq(y.new(o + 1), dbe))


for kind in ('simple', 'chain', 'regularized', 'archain'):
    for frc in range(4):
        reg = 'LogH' if SYS[kind] >= 2 else None
        if frc in (0, 2):
            write(kind, frc, reg)
            read(kind, frc, reg)
            rnd(kind, frc, reg)
        for r in ('LogH', 'TTL', 'None') if reg else (None,):
            deriv(kind, frc, r)
