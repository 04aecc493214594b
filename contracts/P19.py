from .common import *
P = 'P19'
ns = {'n': [0, 1, 2, 3]}
z0 = lambda rng: 0.0
KINDS = {'point': [], 'size': [7], 'tide': [7, 8, 9], 'drag': [7, 8]}


def outs(c, cap):
    o = {}
    for nm, w in (('pos', 3), ('vel', 3), ('mass', 1), ('x0', 1), ('x1', 1), ('x2', 1)):
        o[nm] = c.arr(nm, cap * w, gen=z0)
    o['idn'] = c.iarr('idn', cap, mode='inout')
    o['sizes'] = c.iarr('sizes', 8, mode='inout')
    o['time'] = c.arr('time', 1, gen=z0)
    return o


def same(o, ex, k, rec, j):
    """slot k of the container holds the attributes of record j"""
    w = 7 + len(ex)
    b = j * w
    g = [eq(o['pos'].new(k * 3 + q), rec[b + q]) for q in range(3)]
    g += [eq(o['vel'].new(k * 3 + q), rec[b + 3 + q]) for q in range(3)]
    g += [eq(o['mass'].new(k), rec[b + 6])]
    g += [eq(o['x%d' % i].new(k), rec[b + x]) for i, x in enumerate(ex)]
    return band(*g)


for kind, ex in KINDS.items():
    w = 7 + len(ex)

    def start(f, title, extra=None):
        c = Contract(P, 'parts', 'h_%s_%s' % (kind, f), '%s %s' % (kind, title), bounded=ns)
        n = c.int('n', 0, 1 << 20)
        rec = c.arr('recs', n * w)
        t = c.real('t')
        return c, n, rec, t
    c, n, rec, t = start('ctor', 'construct')
    o = outs(c, n)
    k = c.skolem('k', 0, n)
    c.ensures('attributes stay together', same(o, ex, k, rec, k))
    c.ensures('consecutive identifiers', eq(o['idn'].new(k), k))
    c.ensures('sizes', band(*[eq(o['sizes'].new(q), n) for q in range(8)]))
    c.ensures('time', eq(o['time'].new(0), t))

    c, n, rec, t = start('append', 'append')
    one = c.arr('one', w)
    o = outs(c, n + 1)
    k = c.skolem('k', 0, n)
    c.ensures('other particles unchanged', band(same(o, ex, k, rec, k), eq(o['idn'].new(k), k)))
    c.ensures('appended at the end', same(o, ex, n, one, I(0)))
    c.ensures('next identifier', eq(o['idn'].new(n), n))
    c.ensures('sizes', band(*[eq(o['sizes'].new(q), n + 1) for q in range(8)]))
    c.ensures('time', eq(o['time'].new(0), t))

    c, n, rec, t = start('resize', 'resize')
    m = c.int('m', 0, 1 << 20)
    c.bounded = {'n': [0, 1, 2], 'm': [0, 1, 3]}
    o = outs(c, m)
    k = c.skolem('k', 0, m)
    c.ensures('remaining particles unchanged', band(same(o, ex, k, rec, k), eq(o['idn'].new(k), k)), guard=lt(k, n))
    c.ensures('sizes', band(*[eq(o['sizes'].new(q), m) for q in range(8)]))
    c.ensures('time', eq(o['time'].new(0), t))

    c, n, rec, t = start('clear', 'clear')
    o = outs(c, n)
    c.ensures('sizes', band(*[eq(o['sizes'].new(q), 0) for q in range(8)]))

    c, n, rec, t = start('slot', 'read one slot')
    k = c.int('k', 0, 1 << 20)
    c.requires(lt(k, n))
    c.bounded = {'n': [1, 2, 3], 'k': [0, 1, 2]}
    out = c.arr('out', 8 + len(ex), gen=z0)
    c.ensures('attributes of the slot', band(*([eq(out.new(q), rec[k * w + q]) for q in range(7)] + [eq(out.new(8 + i), rec[k * w + x]) for i, x in enumerate(ex)])))
    c.ensures('identifier', eq(out.new(7), i2r(k)))

    c, n, rec, t = start('aos', 'read back')
    out = c.arr('out', n * w, gen=z0)
    k = c.skolem('k', 0, n)
    c.ensures('same particles', band(*[eq(out.new(k * w + q), rec[k * w + q]) for q in range(w)]))
    c.ensures('count', eq(c.result('I'), n))

for f, par in (('point', ['m']), ('size', ['m', 'r']), ('tide', ['m', 'r', 'k', 'tau']), ('drag', ['m', 's', 'cs'])):
    c = Contract(P, 'parts', 'h_%s_one' % f, 'single %s particle' % f)
    ps = [c.real(x) for x in par]
    pv = c.arr('pv', 6)
    w = 6 + len(par)
    out = c.arr('out', 2 * w, gen=z0)
    for j, nm in ((0, 'vectors'), (1, 'components')):
        c.ensures('from ' + nm, band(*([eq(out.new(j * w + q), pv[q]) for q in range(6)] + [eq(out.new(j * w + 6 + i), x) for i, x in enumerate(ps)])))
