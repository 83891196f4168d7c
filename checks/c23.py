"""The thin lens camera."""
from lib import *
from mat import *

BOUNDS = ['every view matrix pair (affine), every camera with 0 < focal length < focal distance, aspect ratio > 0, lens '
          'radius >= 0, field of view in (0, 3.14], every pair of samples of the unit square']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic, sine and cosine as exact functions']
OUTSIDE = ['rounding error']


def geo(c):
    fd, fov, fl, R, asp = c.x[24:29]
    i = [c.x[12 + 4 * r:16 + 4 * r] for r in range(3)]
    h = fov / 2
    t = c.sin(h) / c.cos(h)
    F = [(2 * c.x[29] - 1) * t * fd, (2 * c.x[30] - 1) * t * fd / asp, -fd]
    L = [R * c.o(7), R * c.o(8), 0 * fd]
    return i, F, L


def pre(c):
    fd, fov, fl, R, asp = c.x[24:29]
    return ([c.lt(0, fl), c.lt(fl, fd), c.lt(0, asp), c.Not(c.lt(R, 0)), c.lt(0, fov), c.Not(c.lt(c.k(Fr(314, 100)), fov)),
             c.lt(0, c.cos(fov / 2)), c.lt(0, c.sin(fov / 2))] +
            [c.And(c.Not(c.lt(c.x[k], 0)), c.Not(c.lt(1, c.x[k]))) for k in range(29, 33)])


def sample(rng):
    u = lambda: rng.choice([0., 1., .5, rng.random()])
    return ([rng.uniform(-2, 2) for _ in range(24)] + [rng.uniform(2, 9), rng.uniform(.3, 2.5), rng.uniform(.2, 1.5),
            rng.choice([0., rng.uniform(0, 1)]), rng.uniform(.5, 2)] + [u() for _ in range(4)])


def post(c):
    i, F, L = geo(c)
    d = sub(F, L)
    n = c.sqrt(dot(d, d))
    out = []
    for a in range(3):
        out += [('the ray starts on the lens[%d]' % a, c.eq(c.o(a), dot(i[a][:3], L) + i[a][3])),
                ('the ray aims at the point in focus[%d]' % a, c.eq(c.o(3 + a) * n, dot(i[a][:3], d)))]
    return out + [('the ray is unbounded', c.eq(c.o(6), c.k(Fr(FMAX))))]


FMAX = (2 ** 24 - 1) * 2 ** 104


def obligations(tier):
    return [Ob('camera ray', 'cam_ray_f32', 'f32', 33, post, pre=pre, sample=sample, nout=9,
               hints=lambda c: [(None, c.x[24])])]
