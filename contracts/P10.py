from .syslib import *
P = 'P10'


def init(kind, frc, reg=None):
    s = Sys(P, kind, frc, reg, 'h_init', 'initial values')
    c, n = s.c, s.n
    src = c.arr('src', n * 7, gen=pos_gen)
    sc = c.arr('sc', 3)
    k = c.skolem('k', 0, n)
    x = lambda i, o: V(*[src[i * 7 + o + q] for q in range(3)])
    P0, V0, M0 = (lambda i: x(i, 0)), (lambda i: x(i, 3)), (lambda i: src[i * 7 + 6])
    i = s.idx[k] if s.chain else k
    if s.chain:
        U = fn('uf90', *(list(P0(I(0))) + [M0(I(0))]))
    else:
        U = Sum(0, n, lambda i: Sum(i + 1, n, lambda j: M0(i) * M0(j) / (P0(i) - P0(j)).norm()))
    K = Sum(0, n, lambda i: M0(i) * V0(i).norm2()) * H
    c.ensures('omega starts at minus the potential energy', eq(s.g.new(1), U))
    c.ensures('binding energy starts at minus the total energy', eq(s.g.new(2), U - K))
    c.ensures('step scale', eq(sc.new(0), R(1) if reg == 'None' else U))
    c.ensures('time', eq(s.g.new(0), s.g[0]))
    c.ensures_vec('position', s.pos.vnew(i), P0(i))
    c.ensures_vec('velocity', s.vel.vnew(i), V0(i))
    c.ensures('mass', eq(s.mass.new(i), M0(i)))
    if s.dep:
        c.ensures_vec('auxiliary velocity', s.aux.vnew(i), V0(i))


def factor(kind, reg):
    s = Sys(P, kind, 3, reg, 'h_factor', 'step factors')
    c = s.c
    h = c.real('h')
    out = c.arr('out', 4)
    c.ensures('drift time', eq(out.new(0), s.dpos(h)))
    c.ensures('kick time', eq(out.new(2), s.dvel(h)))
    if reg != 'None':
        c.ensures('scale after the drift time', eq(out.new(1), s.g[2] + s.KE() if reg == 'LogH' else s.g[1]))
        c.ensures('scale after the kick time', eq(out.new(3), s.U()))
    c.ensures('omega and binding energy unchanged', band(eq(s.g.new(1), s.g[1]), eq(s.g.new(2), s.g[2])))


def evolve(kind, frc, reg):
    s = Sys(P, kind, frc, reg, 'h_kick', 'auxiliary variables in a kick')
    c = s.c
    c.flag('collect')
    h = c.real('h')
    dt = s.dvel(h)
    if s.dep:
        v1 = lambda i: s.vel.v(i) + (s.A0(i) + s.D(i, s.aux.v(i))) * (dt * H)
        dom = s.power(v1, s.N) * dt
        dbe = -(s.power(v1, lambda i: s.E(i) + s.D(i, v1(i))) * dt)
    else:
        v2 = lambda i: s.vel.v(i) + s.A0(i) * dt
        dom = (s.power(s.vel.v, s.N) + s.power(v2, s.N)) * dt * H
        dbe = -((s.power(s.vel.v, s.E) + s.power(v2, s.E)) * dt * H)
    c.ensures('omega advances by the power of the Newtonian acceleration' if reg == 'TTL' else 'omega unchanged',
              eq(s.g.new(1), s.g[1] + (dom if reg == 'TTL' else R(0))))
    logh = reg == 'LogH' and (s.dep or s.ind)
    c.ensures('binding energy advances by the power of the external acceleration' if logh else 'binding energy unchanged',
              eq(s.g.new(2), s.g[2] + (dbe if logh else R(0))))


def rate(kind, frc, reg):
    s = Sys(P, kind, frc, reg, 'h_deriv', 'rates of the auxiliary variables')
    c = s.c
    y = c.arr('y', s.nv)
    c.iarr('len', 5, rng=1, mode='inout')
    dv = s.dvel(R(1))
    ext = lambda i: s.E(i) + s.D(i, s.vel.v(i))
    o = 1 + s.n * 3 * (3 if s.dep else 2)
    c.ensures('time', eq(y.new(0), s.dpos(R(1))))
    c.ensures('omega', eq(y.new(o), s.power(s.vel.v, s.N) * dv if reg == 'TTL' else R(0)))
    c.ensures('binding energy', eq(y.new(o + 1), -(s.power(s.vel.v, ext) * dv) if reg == 'LogH' and (s.dep or s.ind) else R(0)))


for kind in ('regularized', 'archain'):
    for reg in ('LogH', 'TTL', 'None'):
        init(kind, 2, reg)
        factor(kind, reg)
        for frc in range(4):
            evolve(kind, frc, reg)
            rate(kind, frc, reg)
