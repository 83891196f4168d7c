"""Sphere geometry: parametrisation, normal and tangents at a hit, bounding box, area."""
from lib import *
from mat import *
import c18

BOUNDS = ['every radius > 0, z_min < z_max with z_min < radius and z_max > -radius, phi_max in (-pi, pi], every ray with '
          'non-zero direction and tmax >= 0; normal and tangents where the hit is not on the z axis']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic (the f32 constant pi as its exact value); atan2 and acos as '
               'exact functions, axiomatised by range, quadrant, monotonicity and sin^2 + cos^2 = 1']
OUTSIDE = ['rounding error', 'hits exactly on the z axis (the parametrisation is singular there)']
PI32 = Fr(13176795, 4194304)
PIL = Fr(31415, 10000)


def pre(c):
    x = c.x
    return c18.pre(c) + [c.lt(x[1], x[0]), c.lt(-x[0], x[2]), c.lt(c.k(-PIL), x[3])]


def clampz(c, z, r):
    q = z / r
    return c.If(c.lt(q, -1), c.k(-1), c.If(c.lt(1, q), c.k(1), q))


def post_new(c):
    r, z0, z1, ph = c.x[:4]
    ar = (ph + c.pi) * r * (z1 - z0)
    inr = c.And(c.Not(c.lt(z0, -r)), c.Not(c.lt(r, z1)))
    q = c.g[:3]
    on = c.And(c.eq(dot(q, q), r * r), c.Not(c.lt(q[2], z0)), c.Not(c.lt(z1, q[2])))
    return [('keeps radius, z range and phi_max', c.And(c.eq(c.o(0), r), c.eq(c.o(1), z0), c.eq(c.o(2), z1), c.eq(c.o(5), ph))),
            ('theta_min', c.eq(c.o(3), c.acos(clampz(c, z0, r)))), ('theta_max', c.eq(c.o(4), c.acos(clampz(c, z1, r)))),
            ('area', c.Implies(inr, c.le(c.abs(c.o(6) - ar), c.k(Fr(1, 10 ** 6)) * r * (z1 - z0)))),
            ] + [('the bounding box contains the surface (axis %d)' % k, c.Implies(on, c.And(c.le(c.o(7 + k), q[k]), c.le(q[k], c.o(10 + k)))))
                 for k in range(3)]


def s_new(rng):
    return c18.sample(rng)[:4]


def pre_new(c):
    x = c.x
    return [c.lt(0, x[0]), c.lt(x[1], x[2]), c.Not(c.lt(c.k(Fr(31416, 10000)), x[3])), c.lt(c.k(-PIL), x[3])]


def g_new(x, rng):
    v = [rng.gauss(0, 1) for _ in range(3)]
    n = sum(t * t for t in v) ** .5
    return [x[0] * t / n for t in v]


def parts(c):
    p, n = [c.o(1 + k) for k in range(3)], [c.o(4 + k) for k in range(3)]
    u, v = [c.o(9 + k) for k in range(3)], [c.o(12 + k) for k in range(3)]
    k1, k2 = c.x[3] + c.k(PI32), c.o(16) - c.o(15)
    rho = c.sqrt(p[0] * p[0] + p[1] * p[1])
    return p, n, u, v, k1, k2, rho


def post_tangents(c):
    p, n, u, v, k1, k2, rho = parts(c)
    H = lambda g: c.Implies(c.And(c.flag(0), c.lt(0, p[0] * p[0] + p[1] * p[1])), g)
    return [('the tangents are finite', H(c.fin(*range(9, 15)))),
            ('dp/du (x)', H(c.eq(u[0], -p[1] * k1))), ('dp/du (y)', H(c.eq(u[1], p[0] * k1))), ('dp/du (z)', H(c.eq(u[2], 0))),
            ('dp/dv (x)', H(c.eq(v[0] * rho, p[2] * p[0] * k2))), ('dp/dv (y)', H(c.eq(v[1] * rho, p[2] * p[1] * k2))),
            ('dp/dv (z)', H(c.eq(v[2], -rho * k2)))]


def post_normal(c):
    p, n, u, v, k1, k2, rho = parts(c)
    H = lambda g: c.Implies(c.And(c.flag(0), c.lt(0, p[0] * p[0] + p[1] * p[1])), g)
    return [('the normal is finite', H(c.fin(4, 5, 6))),
            ('unit normal', H(c.eq(dot(n, n), 1))), ('normal perpendicular to dp/du', H(c.eq(dot(n, u), 0))),
            ('normal perpendicular to dp/dv', H(c.eq(dot(n, v), 0))), ('outward normal', H(c.Not(c.lt(dot(n, p), 0))))] + \
           [('radial normal[%d]' % k, H(c.eq(n[k] * c.x[0], p[k]))) for k in range(3)]


def post_uv(c):
    p = [c.o(1 + k) for k in range(3)]
    k1, k2 = c.x[3] + c.k(PI32), c.o(16) - c.o(15)
    u, v = c.o(7), c.o(8)
    H = lambda g: c.Implies(c.flag(0), g)
    return [('finite', H(c.fin(0, 1, 2, 3, 7, 8))),
            ('u is the fraction of phi', H(c.eq(u * k1, c.atan2(p[1], p[0]) + c.k(PI32)))),
            ('v is the fraction of theta', H(c.eq(v * k2, c.acos(p[2] / c.x[0]) - c.o(15)))),
            ('u in [0, 1]', H(c.And(c.ge(u, 0), c.le(u, 1)))), ('v in [0, 1]', H(c.And(c.ge(v, 0), c.le(v, 1))))]


def cut(c):
    """What the hit parameters satisfy (t, p, phi); shown on every path of the intersection routine, then used."""
    x = c.x

    def facts(tag, v, _):
        if tag != 1:
            return []
        if None in v:
            return [False]
        t, px, py, pz, ph = v
        return [px * px + py * py + pz * pz == x[0] * x[0], z3.And(x[1] <= pz, pz <= x[2]), ph <= x[3]]
    return Cut(r'6Sphere13intersect_ray(\||$)', (4, 8, 12, 16, 20), facts, defs={4: lambda v: c.atan2(v[2], v[1])},
               sig=(r'^@_RNvMs.*8geometry6sphereNt\w+6Sphere', ['ptr', 'ptr', 'ptr']),
               alts=[(20, 8, 12, 16, 4), (16, 4, 8, 12, 20), (20, 4, 8, 12, 16), (4, 12, 16, 20, 8), (8, 12, 16, 20, 4)])


def obligations(tier):
    kw = dict(pre=pre, sample=c18.sample, nout=17, opts=dict(cuts=[c18.cut, cut], roots=c18.quad, finite=False))
    return [Ob('construction', 'sp_new_f32', 'f32', 4, post_new, pre=pre_new, sample=s_new, ghosts=3, gsample=g_new, nout=13),
            Ob('tangents', 'sp_hit_f32', 'f32', 11, post_tangents, **kw),
            Ob('normal', 'sp_hit_f32', 'f32', 11, post_normal, **kw),
            Ob('uv', 'sp_hit_f32', 'f32', 11, post_uv, **kw)]
