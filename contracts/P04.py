from .common import *
P = 'P04'
bad, head, tail, last, asked, answer, dead, Q, total, num, links, pushes, ev, nG = range(14)


def inv(v):
    G = lambda k: v.mem('gg', k, 'I')
    out = [eq(G(bad), I(0)), le(I(0), G(ev)), eq(G(dead), I(0)), eq(G(dead), I(1)), le(I(0), G(dead)), le(G(dead), I(1)), le(I(1), G(links))]
    q = G(Q)
    i, j = v.mem('i', q, 'I'), v.mem('j', q, 'I')
    w = v.raw('heap', I(24), 'I', 1)
    dd = eq(G(dead), I(1))
    out += [bor(bnot(eq(v.mem('avail', q, 'I'), I(0))), dd), bor(bnot(eq(G(last), q)), bnot(eq(w, I(0))), dd)]
    out += [eq(v.raw('heap', I(8), 'I', 8), v.mem('i', G(last), 'I')), eq(v.raw('heap', I(16), 'I', 8), v.mem('j', G(last), 'I'))]
    touch = bor(eq(i, G(head)), eq(j, G(head)), eq(i, G(tail)), eq(j, G(tail)))
    for x in v.I:
        out += [le(I(1), x), le(I(0), x), eq(x, G(head)), eq(x, G(tail)), eq(x + 1, G(links)), eq(x, G(links))]
        out += [bor(le(x, q), eq(G(dead), I(1)), bnot(touch))]
    for x in v.cell('I'):
        out += [eq(x, G(head)), eq(x, G(tail)), eq(x + 1, G(links)), eq(x, G(links))]
    return out


c = Contract(P, 'chainidx', 'h_index', 'links are taken in order of length', opts={'inv': inv}, budget=200)
m, nd = c.int('m', 1), c.int('nd', 1)
i, j = c.iarr('i', m), c.iarr('j', m)
av = c.iarr('avail', m, rng=2, mode='inout')
c.iarr('draws', nd, rng=2)
cont = c.iarr('content', m + 1)
n, q = c.int('n', 2), c.int('q', 1)
c.requires(lt(q, m))
c.requires(eq(av[q], I(1)))
g, o = c.iarr('gg', nG, mode='inout'), c.iarr('out', m + 1, mode='inout')
k = c.skolem('k', 0, m + 1)


def sampler(rng, k):
    n = rng.randint(3, 6)
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    rng.shuffle(pairs)
    m = len(pairs)
    return dict(m=m, nd=16, n=n, q=rng.randint(1, m - 1), i=[a for a, b in pairs], j=[b for a, b in pairs], avail=[1] * m,
                draws=[rng.randint(0, 1) for _ in range(16)], content=[rng.randint(0, 9) for _ in range(m + 1)], gg=[0] * nG, out=[0] * (m + 1))


c.sampler = sampler
c.ensures('every link is the first one that can be attached', eq(g.new(bad), I(0)))
c.ensures('the chain stops when it is complete or no link can be attached', bor(eq(g.new(answer), I(0)), le(n, g.new(links) + 1)))
c.ensures('the order has one entry per member', eq(g.new(pushes), g.new(links) + 1))
c.ensures('the order is the list of the chain', eq(o.new(k), cont[k]), guard=lt(k, g.new(pushes)))

c = Contract(P, 'chainidx', 'h_steps', 'distances, sort, links')
m, n = c.int('m', 1), c.int('n', 2)
r = c.arr('r', 2)
g = c.iarr('gg', nG, mode='inout')
c.sampler = lambda rng, k: dict(m=rng.randint(1, 6), n=rng.randint(2, 6), r=[float(rng.randint(0, 2)), float(rng.randint(0, 2))], gg=[0] * nG)
c.ensures('all nodes are made, sorted and linked, in this order', band(eq(g.new(bad), I(0)), eq(g.new(ev), I(3))))
c.ensures('the shorter distance comes first', eq(g.new(answer), If(lt(r[0], r[1]), I(1), I(0))))


def inv2(v):
    G = lambda k: v.mem('gg', k, 'I')
    out = []
    for x in v.I:
        out += [bor(lt(G(last), x)), eq(x, G(last) + 1), eq(x, I(0)), le(I(0), x), bor(lt(ivar('$k'), I(0)), le(x, ivar('$k')), bnot(eq(v.mem('content', ivar('$k'), 'I'), ivar('x'))))]
    return out


c = Contract(P, 'chainidx', 'h_not_in', 'search of the chain', opts={'inv': inv2, 'inv_first': 'all'})
m = c.int('m', 1)
cont = c.iarr('content', m)
x = c.int('x', 0)
g = c.iarr('gg', nG, mode='inout')
k = c.skolem('k', 0, m)
res = c.result('I')


def search(rng, k):
    m = rng.randint(1, 6)
    co = [rng.randint(0, 9) for _ in range(m)]
    return dict(m=m, content=co, x=rng.choice(co + [11]), gg=[0] * nG)


c.sampler = search
c.ensures('a particle that is not found is none of the members', bnot(eq(cont[k], x)), guard=bnot(eq(res, I(0))))
c.ensures('a particle that is found is a member', eq(cont[g.new(last)], x), guard=eq(res, I(0)))


def inv3(v):
    G = lambda k: v.mem('gg', k, 'I')
    a, b, n = ivar('a'), ivar('b'), ivar('n')
    out = [eq(G(bad), I(0)), eq(G(num), n)]
    for x, s in zip(v.I, v.I0):
        out += [le(I(0), x), eq(G(links), If(band(lt(a, x), lt(b, n)), I(1), I(0))), le(x, n), le(s, x)]
        for y in (s, s - 1, s - 2):
            out += [eq(G(links), If(bor(band(lt(a, y), lt(b, n)), band(eq(a, y), lt(b, x))), I(1), I(0)))]
    return out


c = Contract(P, 'chainidx', 'h_pairs', 'one node per pair of particles', opts={'inv': inv3, 'inv_first': 'all'})
n = c.int('n', 0)
p = c.arr('p', 3 * n)
a, b = c.int('a', 0), c.int('b', 0)
c.requires(lt(a, b))
g = c.iarr('gg', nG, mode='inout')


def pairs(rng, k):
    n = rng.randint(2, 7)
    b = rng.randint(1, n - 1)
    return dict(n=n, p=[rng.uniform(-2, 2) for _ in range(3 * n)], a=rng.randint(0, b - 1), b=b, gg=[0] * nG)


c.sampler = pairs
c.ensures('a node names two particles and holds the square of their distance', eq(g.new(bad), I(0)))
c.ensures('every pair has one node', eq(g.new(links), I(1)), guard=lt(b, n))
