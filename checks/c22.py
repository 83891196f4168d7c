"""Disk sampling."""
from lib import *
from mat import *

BOUNDS = ['every sample point of the unit square']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic, sine and cosine as exact functions (sin^2 + cos^2 = 1, '
               'addition theorem); the f32 constants of pi count as their exact values, hence the tolerance of 1e-6 on '
               'angles']
OUTSIDE = ['rounding error']
PI32, EPS = Fr(13176795, 4194304), Fr(1, 10 ** 6)


def pre(c):
    return [c.And(c.Not(c.lt(c.x[k], 0)), c.Not(c.lt(1, c.x[k]))) for k in range(2)]


def sample(rng):
    return [rng.choice([0., 1., .5, rng.random()]) for _ in range(2)]


def post_uniform(c):
    u, v = c.x[:2]
    a = 2 * c.k(PI32) * u
    r = c.sqrt(v)
    # roots, sines, cosines and products are within an ulp of exact
    return [('never outside the unit disk by more than rounding', c.Not(c.lt(c.k(1 + Fr(1, 2 ** 21)), c.o(0) * c.o(0) + c.o(1) * c.o(1)))),
            ('radius zero is the centre', c.Implies(c.same(v, 0), c.And(c.same(c.o(0), 0), c.same(c.o(1), 0)))),
            ('the squared radius is the second sample', c.eq(c.o(0) * c.o(0) + c.o(1) * c.o(1), v)),
            ('in the unit disk', c.le(c.o(0) * c.o(0) + c.o(1) * c.o(1), 1)),
            ('the angle is a full turn times the first sample (x)', c.eq(c.o(0), r * c.cos(a))),
            ('the angle is a full turn times the first sample (y)', c.eq(c.o(1), r * c.sin(a)))]


def near(c, a, b, r):
    d = a - b
    e = c.k(EPS) * c.abs(r)
    return c.And(c.le(d, e), c.le(-e, d))


def post_concentric(c):
    x, y = 1 - 2 * c.x[0], 1 - 2 * c.x[1]
    ax, ay = c.abs(x), c.abs(y)
    o, p = c.o(0), c.o(1)
    r = c.max(ax, ay)
    horiz = c.lt(ay, ax)
    q = c.k(PI32) / 4
    a, b = c.div(q * y, x), c.div(q * x, y)
    nz = c.Not(c.And(c.same(x, 0), c.same(y, 0)))
    return [('concentric squares become concentric circles', c.eq(o * o + p * p, r * r)),
            ('in the unit disk', c.le(o * o + p * p, 1)),
            ('never outside the unit disk by more than rounding', c.Not(c.lt(c.k(1 + Fr(1, 2 ** 21)), o * o + p * p))),
            ('the centre is kept', c.Implies(c.Not(nz), c.And(c.eq(o, 0), c.eq(p, 0)))),
            ('left and right quadrants: angle (x)', c.Implies(horiz, near(c, o, x * c.cos(a), r))),
            ('left and right quadrants: angle (y)', c.Implies(horiz, near(c, p, x * c.sin(a), r))),
            ('upper and lower quadrants: angle (x)', c.Implies(c.And(nz, c.lt(ax, ay)), near(c, o, y * c.sin(b), r))),
            ('upper and lower quadrants: angle (y)', c.Implies(c.And(nz, c.lt(ax, ay)), near(c, p, y * c.cos(b), r)))]


def obligations(tier):
    kw = dict(pre=pre, sample=sample, nout=2)
    return [Ob('uniform', 'disk_uniform_f32', 'f32', 2, post_uniform, **kw),
            Ob('concentric', 'disk_concentric_f32', 'f32', 2, post_concentric, **kw)]
