from .common import *
P = 'P21'
nS, nO, nE, nC, cS, cO, cE, cC, pre, steps, bad, fired, any_, nG = range(14)
dNext, dEnd, dRtol, dH, dAtol, dTol, dT, nD = range(8)


def inv(v):
    G = lambda k: v.mem('gg', k, 'I')
    out = [eq(G(bad), I(0)), eq(G(pre), I(0))]
    for x in v.I:
        out.append(le(I(0), x))
        for k in (nS, nO, nE, nC):
            out.append(le(x, G(k)))
        for k in (cS, cO, cE, cC):
            out.append(eq(x, G(k)))
    for k in (cS, cO, cE, cC):
        out.append(eq(G(k), I(0)))
    for a, b in ((cS, nS), (cO, nO), (cE, nE), (cC, nC)):
        out += [eq(G(a), G(b)), le(G(a), G(b))]
    out += [eq(G(fired), I(0)), le(I(0), G(steps)), eq(G(steps), I(0))]
    for x in v.R + v.cell('R'):
        out.append(eq(x, v.mem('dd', dNext)))
    return out


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def run(title, first, **kw):
    c = Contract(P, 'simul', 'h_run', title, opts={'inv': inv, 'inv_first': 'all'}, aborts=None, budget=300, **kw)
    n = c.int('n')
    c.requires(le(I(1), n))
    end = [0.0]
    T = c.arr('times', n, gen=lambda rng: pick(rng, -1.0, 0.0, 1.0, 3.0, 3.0, 3.0 * (1 - 1e-9), rng.uniform(-1, 4)))
    S = c.arr('scales', n, gen=lambda rng: pick(rng, 0.5, 1.0, 2.0, 0.0))
    N = c.arr('nexts', n, gen=lambda rng: pick(rng, 0.1, 1.0, 5.0, -1.0))
    nm = c.int('nmass')
    c.arr('mass', nm, gen=pos_gen), c.arr('pos', 3 * nm)
    r = c.arr('r', 5, gen=lambda rng: pick(rng, 0.3, 3.0, 3.0, 1e-8, 0.01, 0.0) if first else pick(rng, 3.0, 0.0))
    es = c.int('end_set')
    g = c.iarr('gg', nG, mode='inout')
    d = c.arr('dd', nD)
    num = {}
    for q, k in (('S', nS), ('O', nO), ('E', nE), ('C', nC)):
        num[k] = c.int('N' + q)
    c.requires(bnot(eq(r[0], 0)) if first else eq(r[0], 0))
    c.requires(bnot(eq(r[1], 0)))
    c.requires(bor(eq(es, I(1)), band(eq(es, I(0)), le(I(1), num[nC]))))
    G = g.new
    return c, T, S, r, es, d, G


c, T, S, r, es, d, G = run('run with a given first step', True)
some = bnot(eq(S[I(0)], 0))
end = d.new(dEnd)
c.ensures('the end time is the one asked for', eq(end, r[1]), guard=eq(es, I(1)))
c.ensures('every event is in order and carries the right step size', eq(G(bad), I(0)))
c.ensures('start operations run once', eq(G(cS), G(nS)), guard=some)
c.ensures('operations run once after the last step', eq(G(cO), G(nO)), guard=some)
c.ensures('stop operations run once', eq(G(cE), G(nE)), guard=some)
c.ensures('a started step is completed', eq(G(pre), I(0)), guard=some)
c.ensures('the run ends at the end time or when a stop condition holds', eq(G(any_), I(1)), guard=some)
c.ensures('the step size left is the one the iterator proposed', eq(d.new(dT), d.new(dNext)), guard=some)
c.ensures('the iterator gets the absolute tolerance', eq(d.new(dAtol), r[2]), guard=some)
c.ensures('the iterator gets the relative tolerance', eq(d.new(dTol), r[3]), guard=some)
for k in (cS, cO, cE, cC, steps):
    c.ensures('nothing happens when the step scale is zero: counter %d' % k, eq(G(k), I(0)), guard=eq(S[I(0)], 0))
