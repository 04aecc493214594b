from .common import *
P = 'P27'
NAMES = ['AU', 'Ms', 'year', 'deg', 'kyr', 'Myr', 'Gyr', 'month', 'day', 'hr', 'min', 'sec', 'T_hubble', 'kg', 'mp', 'km', 'm', 'cm',
         'PC', 'Rs', 'Re', 'Rj', 'kms', 'cms', 'Me', 'Mj', 'Mmoon']
ULP = Fraction(1, 10 ** 14)


def near(x, y, rel=ULP):
    """relative agreement"""
    y = y if isinstance(y, E) else R(y)
    return le(fabs(x - y), R(rel) * fabs(y))


def D(s):
    return Fraction(s)


pi = D('3.14159265358979323846')
c = Contract(P, 'units', 'h_units', 'units')
o = c.arr('out', 27)
u = {n: o.new(k) for k, n in enumerate(NAMES)}
for n in NAMES:
    c.ensures(n + ' is positive', gt(u[n], 0))
REL = [('year', 'AU', 2 * pi), ('deg', 'AU', pi / 180), ('kyr', 'year', 10 ** 3), ('Myr', 'year', 10 ** 6), ('Gyr', 'year', 10 ** 9),
       ('year', 'month', 12), ('day', 'hr', 24), ('hr', 'min', 60), ('min', 'sec', 60), ('km', 'm', 1000), ('m', 'cm', 100)]
for a, b, f in REL:
    c.ensures('%s in %s' % (a, b if b != 'AU' else 'code units'), near(u[a], u[b] * R(Fraction(f))))
c.ensures('the code unit of length is the astronomical unit', eq(u['AU'], 1))
c.ensures('the code unit of mass is the solar mass', eq(u['Ms'], 1))
c.ensures('kms is a kilometre per second', near(u['kms'] * u['sec'], u['km']))
c.ensures('cms is a centimetre per second', near(u['cms'] * u['sec'], u['cm']))
# physical definitions (IAU / SI / CODATA), to the precision the sources agree on
SI = [('astronomical unit in km', u['km'] * R(D('149597870.7')), 1, '1e-9'),
      ('parsec in AU', u['PC'], 648000 / pi, '1e-9'),
      ('solar mass in kg', u['kg'] * R(D('1.98847e30')), 1, '5e-5'),
      ('sidereal year in days', u['day'] * R(D('365.25636')), 2 * pi, '1e-6'),
      ('Hubble time in Gyr', u['T_hubble'] / u['Gyr'], D('13.8'), '0.02'),
      ('solar radius in km', u['Rs'] / u['km'], 695700, '1e-3'),
      ('Earth radius in km', u['Re'] / u['km'], 6371, '3e-3'),
      ('Jupiter radius in km', u['Rj'] / u['km'], 69911, '3e-2'),
      ('Earth mass in kg', u['Me'] / u['kg'], D('5.9722e24'), '1e-3'),
      ('Jupiter mass in kg', u['Mj'] / u['kg'], D('1.89813e27'), '1e-3'),
      ('Moon mass in kg', u['Mmoon'] / u['kg'], D('7.346e22'), '1e-3'),
      ('proton mass in kg', u['mp'] / u['kg'], D('1.67262192e-27'), '1e-8'),
      ('G = 1: G = 6.6743e-11 SI in code units', R(D('6.6743e-11')) * u['m'] * u['m'] * u['m'] / (u['kg'] * u['sec'] * u['sec']), 1, '3e-4')]
for n, x, v, tol in SI:
    c.ensures(n, near(x, Fraction(v), D(tol)))
c.note = 'constants of the compiled program as exact rationals of their doubles'

c = Contract(P, 'units', 'h_consts27', 'physical constants')
o = c.arr('out', 20)
c.ensures('pi', near(o.new(0), pi))
c.ensures('G is 1 in code units', eq(o.new(1), 1))
AUkm = D('149597870.7')
daysec = 86400
year = D('365.25636')
kms = year * daysec / (2 * pi) / AUkm          # one km/s in code units
c.ensures('speed of light', near(o.new(2), D('299792.458') * kms, D('1e-6')))
kB = D('1.380649e-23') / 10 ** 6 * kms * kms / D('1.98847e30')
c.ensures('Boltzmann constant', near(o.new(3), kB, D('1e-4')))
c.ensures('Boltzmann constant over the proton mass', near(o.new(4), kB / (D('1.67262192e-27') / D('1.98847e30')), D('1e-4')))
for k, (pl, v) in enumerate([('Jupiter', ('5.2044', '0.0489', '100.464', '273.867', '6.09')),
                             ('Neptune', ('30.11', '0.009456', '131.784', '276.336', '6.43')),
                             ('Mercury', ('0.387098', '0.20563', '48.331', '29.124', '3.38'))]):
    for j, (n, x) in enumerate(zip(('semi-major axis in AU', 'eccentricity', 'node in degrees', 'periapsis in degrees', 'inclination in degrees'), v)):
        c.ensures('%s %s' % (pl, n), near(o.new(5 + 5 * k + j), D(x) * (pi / 180 if j > 1 else 1)))

c = Contract(P, 'units', 'h_lit_any', 'literals of any amount')
x, n = c.real('x'), c.int('n')
o = c.arr('out', 9)
for k in range(3):
    c.ensures('floating literal %d' % k, eq(o.new(2 * k), x * o.new(6 + k)))
    c.ensures('integer literal %d' % k, eq(o.new(2 * k + 1), i2r(n) * o.new(6 + k)))

c = Contract(P, 'units', 'h_literals_all', 'literals of every unit')
o = c.arr('out', 108)
for k, nm in enumerate(NAMES):
    c.ensures(nm + ' literals scale the unit', band(near(o.new(2 * k), o.new(54 + 2 * k)), near(o.new(2 * k + 1), o.new(55 + 2 * k))))
