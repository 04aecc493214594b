from .syslib import *
P = 'P08'


def drift(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_drift', 'drift')
    c, n = s.c, s.n
    col = c.flag('collect')
    h = c.real('h')
    dt = s.dpos(h)
    k = c.skolem('k', 0, n)
    i = s.idx[k] if s.chain else k
    c.ensures('time advances by the physical step', eq(s.g.new(0), s.g[0] + dt))
    c.ensures_vec('position advances by velocity', s.pos.vnew(i), s.pos.v(i) + s.vel.v(i) * dt)
    s.same('vel', 'aux', k=i)
    c.ensures('mass unchanged', eq(s.mass.new(k), s.mass[k]))
    if s.chain:
        s.linked('pos', 'cpos', k)
        s.linked('vel', 'cvel', k)
    if s.regu:
        c.ensures('omega and binding energy unchanged', band(eq(s.g.new(1), s.g[1]), eq(s.g.new(2), s.g[2])))
    one = If(eq(col, 1), R(1), R(0))
    c.ensures('time increment', eq(s.inc.new(0), s.inc[0] + one * dt))
    d = s.chained(s.vel.v, k) * dt
    for q in range(3):
        c.ensures('position increment.%s' % 'xyz'[q], eq(s.inc.new(1 + k * 3 + q), s.inc[1 + k * 3 + q] + one * d[q]), guard=lt(k, n - 1) if s.chain else TRUE)
        w = 1 + n * 3 + k * 3 + q
        c.ensures('velocity increment unchanged.%s' % 'xyz'[q], eq(s.inc.new(w), s.inc[w]))


def kick(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_kick', 'kick')
    c, n = s.c, s.n
    col = c.flag('collect')
    h = c.real('h')
    dt = s.dvel(h)
    k = c.skolem('k', 0, n)
    i = s.idx[k] if s.chain else k
    if s.dep:
        v1 = lambda i: s.vel.v(i) + (s.A0(i) + s.D(i, s.aux.v(i))) * (dt * H)
        w1 = lambda i: s.aux.v(i) + (s.A0(i) + s.D(i, v1(i))) * dt
        v2 = lambda i: v1(i) + (s.A0(i) + s.D(i, w1(i))) * (dt * H)
        c.ensures_vec('auxiliary velocity: full step with the half-step velocity', s.aux.vnew(i), w1(i))
        c.ensures_vec('velocity: two half steps with the auxiliary velocity', s.vel.vnew(i), v2(i))
    else:
        v2 = lambda i: s.vel.v(i) + s.A0(i) * dt
        c.ensures_vec('velocity advances by acceleration', s.vel.vnew(i), v2(i))
        s.same('aux', k=k)
    s.same('pos', k=k)
    if s.regu:
        one = If(eq(col, 1), R(1), R(0))
        v1_ = v1 if s.dep else None
        if s.dep:
            dom = s.power(v1, s.N) * dt
            dbe = -(s.power(v1, lambda i: s.E(i) + s.D(i, v1(i))) * dt)
        else:
            dom = (s.power(s.vel.v, s.N) + s.power(v2, s.N)) * dt * H
            dbe = -((s.power(s.vel.v, s.E) + s.power(v2, s.E)) * dt * H)
        ttl, logh = s.reg == 'TTL', s.reg == 'LogH' and (s.dep or s.ind)
        dom, dbe = (dom if ttl else R(0)), (dbe if logh else R(0))
        c.ensures('omega advances by the power of the Newtonian acceleration' if ttl else 'omega unchanged', eq(s.g.new(1), s.g[1] + dom))
        c.ensures('binding energy advances by the power of the external acceleration' if logh else 'binding energy unchanged', eq(s.g.new(2), s.g[2] + dbe))
        o = 1 + n * 3 * (3 if s.dep else 2)
        c.ensures('omega increment', eq(s.inc.new(o), s.inc[o] + one * dom))
        c.ensures('binding energy increment', eq(s.inc.new(o + 1), s.inc[o + 1] + one * dbe))
    c.ensures('time and masses unchanged', band(eq(s.g.new(0), s.g[0]), eq(s.mass.new(k), s.mass[k])))
    if s.chain:
        s.linked('vel', 'cvel', k)
        if s.dep:
            s.linked('aux', 'caux', k)
        s.linked('pos', 'cpos', k)
    one = If(eq(col, 1), R(1), R(0))
    d = s.chained(v2, k) - s.chained(s.vel.v, k)
    gd = lt(k, n - 1) if s.chain else TRUE
    for q in range(3):
        x = 1 + k * 3 + q
        c.ensures('position increment unchanged.%s' % 'xyz'[q], eq(s.inc.new(x), s.inc[x]))
        x = 1 + n * 3 + k * 3 + q
        c.ensures('velocity increment.%s' % 'xyz'[q], eq(s.inc.new(x), s.inc[x] + one * d[q]), guard=gd)
        if s.dep:
            dw = s.chained(w1, k) - s.chained(s.aux.v, k)
            x = 1 + n * 6 + k * 3 + q
            c.ensures('auxiliary increment.%s' % 'xyz'[q], eq(s.inc.new(x), s.inc[x] + one * dw[q]), guard=gd)
    c.ensures('time increment unchanged', eq(s.inc.new(0), s.inc[0]))


def pre(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_pre', 'start of an iteration')
    c, n = s.c, s.n
    k = c.skolem('k', 0, n)
    s.same('pos', 'vel', k=k)
    c.ensures_vec('auxiliary velocity starts at the velocity', s.aux.vnew(k), s.vel.v(k) if s.dep else s.aux.v(k))
    if s.chain and s.dep:
        s.linked('aux', 'caux', k)


for kind in ('simple', 'chain', 'regularized', 'archain'):
    for reg in ('LogH', 'TTL', 'None') if SYS[kind] >= 2 else (None,):
        for frc in range(4):
            drift(kind, frc, reg)
            kick(kind, frc, reg)
            if reg in (None, 'LogH'):
                pre(kind, frc, reg)
