"""Transformed bounding boxes."""
from lib import *
from mat import *

BOUNDS = ['every affine 3x4 matrix pair and every ordered box of finite coordinates']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic']
OUTSIDE = ['rounding error', 'projective matrices (last row other than 0 0 0 1)', 'boxes with pmin > pmax']


def pre(c):
    return [c.le(c.x[24 + k], c.x[27 + k]) for k in range(3)] + \
           [c.And(c.le(c.x[24 + k], c.g[k]), c.le(c.g[k], c.x[27 + k])) for k in range(3)]


def gs(x, rng):
    return [x[24 + k] + (x[27 + k] - x[24 + k]) * rng.choice([0, 1, rng.random()]) for k in range(3)]


def sample(rng):
    out = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) for _ in range(24)]
    a = [rng.uniform(-3, 3) for _ in range(3)]
    return out + a + [v + rng.choice([0, rng.uniform(0, 4)]) for v in a]


def mk(off, mo):
    def post(c):
        m = [c.x[mo + 4 * r:mo + 4 * r + 4] for r in range(3)]
        lo, hi = c.x[24:27], c.x[27:30]
        out = []
        for i in range(3):
            # the extreme values over the box of row i
            l, h = m[i][3], m[i][3]
            for j in range(3):
                a, b = m[i][j] * lo[j], m[i][j] * hi[j]
                l, h = l + c.min(a, b), h + c.max(a, b)
            out += [('smallest coordinate[%d]' % i, c.eq(c.o(off + i), l)), ('largest coordinate[%d]' % i, c.eq(c.o(off + 3 + i), h))]
        return out
    return post


def mkin(off, mo):
    """the image of every point of the box lies in the mapped box"""
    def post(c):
        out = []
        for i in range(3):
            v = dot(c.x[mo + 4 * i:mo + 4 * i + 3], c.g) + c.x[mo + 4 * i + 3]
            out += [('contains the image of every point (low %d)' % i, c.le(c.o(off + i), v)),
                    ('contains the image of every point (high %d)' % i, c.le(v, c.o(off + 3 + i)))]
        return out
    return post


def hull():
    """the extreme values of a linear form over an interval are taken at its ends and contain all others"""
    a, l, h, x = z3.Reals('a l h x')
    mn, mx = z3.If(a * l <= a * h, a * l, a * h), z3.If(a * l <= a * h, a * h, a * l)
    return [l <= x, x <= h], z3.And(mn <= a * x, a * x <= mx)


def obligations(tier):
    A = lambda n, fn, post: Ob(n, fn, 'f32', 30, post, pre=pre, ghosts=3, gsample=gs, sample=sample, nout=6)
    return [Lemma('extremes_at_the_ends', hull),
            A('map', 'bb_mapf_f32', mk(0, 0)), A('map_inverse', 'bb_mapi_f32', mk(0, 12)),
            A('map_contains', 'bb_mapf_f32', mkin(0, 0)), A('map_inverse_contains', 'bb_mapi_f32', mkin(0, 12))]
