from .common import *
P = 'P12'
col, phase, coll, bad, ev, done, ideal, tries, nG = range(9)
X0, H, ERR, RAT, INC0, INC, EXT0, EXT1, NH, RET, ST, T0, nD = range(13)


def inv(v):
    G = lambda k: v.mem('gg', k, 'I')
    D = lambda k: v.mem('dd', k)
    out = [eq(G(bad), I(0)), eq(G(done), I(0)), eq(G(col), I(0)), eq(G(coll), I(1)), le(I(0), G(ev)), le(I(2), G(ideal)), le(G(ideal), I(6))]
    out += [eq(G(phase), I(k)) for k in (0, 3)]
    out += [bor(eq(G(phase), I(0)), lt(I(1), G(col))), bor(eq(G(phase), I(3)), le(G(col), I(1)))]
    out += [eq(D(ST), D(X0))]
    for x in v.I:
        out += [eq(x, G(col)), le(I(0), x), le(I(1), x), le(x, G(ideal) + 1), le(x, G(ideal) + 2)]
    for x in v.cell('I'):
        out += [eq(x, G(ideal)), eq(x, G(tries))]
    for x in v.R + v.cell('R'):
        out += [eq(x, D(k)) for k in (X0, H)]
        out += [bor(lt(I(1), G(col)), eq(x, D(INC0))), bor(le(G(col), I(1)), eq(x, D(EXT0)))]
    return out


def bs(fname, title):
    c = Contract(P, 'iter', fname, title, opts={'inv': inv, 'inv_first': 'all'}, aborts='any', budget=300, unroll=20)
    n = c.int('n', 1)
    c.arr('draws', n, gen=lambda rng: rng.choice([0.3, 0.7, 1.0, 1.5, 2.0, 30.0, 300.0]))
    c.iarr('ranks', n, rng=9)
    g, d = c.iarr('gg', nG, mode='inout'), c.arr('dd', nD)
    h, x = c.real('h'), c.real('x')
    rank, first = c.int('rank', 2), c.int('first')
    c.requires(le(rank, I(6)))
    G = g.new
    return c, g, d, h, x


c, g, d, h, x = bs('h_bs', 'Bulirsch-Stoer step of a particle system')
c.ensures('every call of the trial is the right one', eq(g.new(bad), I(0)))
c.ensures('returns only within tolerance', band(eq(g.new(done), I(1)), le(d.new(ERR), R(1))))
c.ensures('the system is at the start plus the extrapolated increment', eq(d.new(ST), d.new(X0) + d.new(EXT0)))
c.ensures('start state as given', eq(d.new(X0), x))
c.ensures('next step from the controller', eq(c.result(), d.new(RET)))
c.ensures('increments are no longer collected', eq(g.new(coll), I(0)))
c.ensures('later steps are no first steps, counters and order are consistent', eq(g.new(phase), I(1)))

c, g, d, h, x = bs('h_bsf', 'Bulirsch-Stoer step of an equation given as a function')
tm = c.arr('time', 1)
c.ensures('every call of the trial is the right one', eq(g.new(bad), I(0)))
c.ensures('returns only within tolerance', band(eq(g.new(done), I(1)), le(d.new(ERR), R(1))))
c.ensures('the data are the extrapolated result', eq(d.new(ST), d.new(EXT0)))
c.ensures('time has advanced once by the accepted step', eq(tm.new(0), tm[0] + d.new(H)))
c.ensures('start state as given', eq(d.new(X0), x))
c.ensures('next step from the controller', eq(c.result(), d.new(RET)))
c.ensures('later steps are no first steps, counters and order are consistent', eq(g.new(phase), I(1)))


# --- IAS15
i_phase, i_bad, i_ev, i_done, i_warm, i_evals, i_nG = range(7)
i_H, i_E6, i_LAST, i_ERR, i_RAT, i_LIM, i_LMIN, i_nD = range(8)


def inv15(v):
    G = lambda k: v.mem('gg', k, 'I')
    D = lambda k: v.mem('dd', k)
    out = [eq(G(i_bad), I(0)), eq(G(i_done), I(0)), eq(G(i_phase), I(0)), le(I(0), G(i_ev)), eq(G(i_evals), I(0))]
    for x in v.R + v.cell('R'):
        out += [eq(x, D(i_H)), eq(x, D(i_LAST))]
    return out


c = Contract(P, 'iter15', 'h_ias', 'IAS15 step', opts={'inv': inv15, 'inv_first': 'all'}, aborts='any', budget=300, unroll=20)
n = c.int('n', 1)
c.arr('draws', n, gen=lambda rng: rng.choice([0.3, 0.7, 1.0, 1.5, 2.0, 30.0, 0.001]))
g, d = c.iarr('gg', i_nG, mode='inout'), c.arr('dd', i_nD)
h, last, lmin = c.real('h'), c.real('last'), c.real('lmin')
warmed = c.int('warmed')
c.ensures('every call of the trial is the right one', eq(g.new(i_bad), I(0)))
c.ensures('returns only after an accepted, evaluated and predicted trial', band(eq(g.new(i_done), I(1)), eq(g.new(i_evals), I(1)), lt(lmin, d.new(i_RAT))))
c.ensures('next step from the controller', eq(c.result(), d.new(i_H) * d.new(i_LIM)))


# --- sequence and fixed-step iterators
s_bad, s_ev, s_trial, s_sub, s_phase, s_done, s_nG = range(7)
s_X0, s_H, s_OLD, s_NEW, s_ERR, s_LIM, s_ST, s_nD = range(8)
c = Contract(P, 'iterseq', 'h_seq', 'sequence iterator step', opts={'unroll_symbolic': True, 'unroll_first': True}, unroll=40, budget=200)
n = c.int('n', 1)
c.arr('draws', n, gen=lambda rng: rng.choice([0.3, 0.7, 1.0, 15.5, 200.0, 30.0]))
g, d = c.iarr('gg', s_nG, mode='inout'), c.arr('dd', s_nD)
h, x = c.real('h'), c.real('x')
c.ensures('every call of the trial is the right one', eq(g.new(s_bad), I(0)))
c.ensures('ends within tolerance or with the finest trial', band(eq(g.new(s_done), I(1)), bor(le(d.new(s_ERR), R(1)), eq(g.new(s_trial), I(11)))))
c.ensures('the system is at the result of the last trial', eq(d.new(s_ST), d.new(s_NEW)))
c.ensures('next step from the controller', eq(c.result(), h * d.new(s_LIM)))

c = Contract(P, 'iterseq', 'h_const', 'fixed-step iterator')
g, d = c.iarr('gg', s_nG, mode='inout'), c.arr('dd', s_nD)
h = c.real('h')
c.ensures('one step of the given size', band(eq(g.new(s_ev), I(1)), eq(d.new(s_H), h)))
c.ensures('the step size is kept', eq(c.result(), h))
