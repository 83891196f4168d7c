"""Ray against (partial) sphere."""
from lib import *
from mat import *

BOUNDS = ['every radius > 0, z_min < z_max, phi_max in [-pi, pi], every ray with non-zero direction and tmax >= 0, infinite included']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic; atan2 as the exact angle (quadrant, range and '
               'functional congruence)']
OUTSIDE = ['rounding error']
PIH = Fr(31416, 10000)


def pre(c):
    x = c.x
    return [c.lt(0, x[0]), c.lt(x[1], x[2])] + ([c.Not(c.lt(x[10], 0))] if len(x) > 10 else []) + [
            c.Or(*[c.Not(c.same(x[7 + k], 0)) for k in range(3)]),
            c.Not(c.lt(c.k(PIH), x[3])), c.Not(c.lt(x[3], c.k(-PIH)))]


def at(c, t):
    return [c.x[4 + k] + c.x[7 + k] * t for k in range(3)]


def sample(rng):
    if rng.random() < .15:
        # exact cases: rays along an axis, tangent ones among them
        r = float(rng.randint(1, 3))
        k = rng.randrange(3)
        o, d = [float(rng.randint(-3, 3)) for _ in range(3)], [0.] * 3
        d[k] = rng.choice([1., -1., 2.])
        if rng.random() < .6:
            o[(k + 1) % 3], o[(k + 2) % 3] = rng.choice([(r, 0.), (0., r), (-r, 0.), (0., -r)])
        return [r, rng.choice([-r, -2 * r, 0.]), rng.choice([r, 2 * r]), 3.1415927] + o + d + [rng.choice([1., 4., 9., 1e30])]
    r = rng.choice([1., rng.uniform(.2, 4)])
    z0 = rng.choice([-r, -2 * r, rng.uniform(-r, r)])
    z1 = max(z0 + .01, rng.choice([r, 2 * r, rng.uniform(-r, r)]))
    v = [rng.gauss(0, 1) for _ in range(3)]
    n = sum(q * q for q in v) ** .5
    p = [q / n * r for q in v]
    d = [rng.choice([0., 1., rng.uniform(-2, 2)]) for _ in range(3)]
    if not any(d):
        d = [0., 0., 1.]
    s = rng.uniform(-2, 5)
    return [r, z0, z1, rng.choice([3.1415927, rng.uniform(-3.1, 3.1)])] + [p[k] - s * d[k] for k in range(3)] + d + \
        [rng.choice([rng.uniform(0, 9), 1e30])]


def roots(x):
    import mpmath
    o, d = x[4:7], x[7:10]
    a, b, cc = dot(d, d), 2 * dot(o, d), dot(o, o) - x[0] * x[0]
    q = b * b - 4 * a * cc
    if q < 0 or a == 0:
        return [mpmath.mpf(0)]
    return [(-b - mpmath.sqrt(q)) / (2 * a), (-b + mpmath.sqrt(q)) / (2 * a)]


def gs(x, rng):
    return [rng.choice(roots(x))]


def surface(c, q, lt, tol=False):
    """q on the sphere, within the z range and the phi range"""
    le = c.le if tol else lambda a, b: c.Not(c.lt(b, a))
    x = c.x
    return [('on the sphere', c.eq(dot(q, q), x[0] * x[0])), ('above z_min', le(x[1], q[2])),
            ('below z_max', le(q[2], x[2])), ('within phi_max', le(c.atan2(q[1], q[0]), x[3]))]


def post_sound(c):
    t, p = c.o(0), [c.o(1 + k) for k in range(3)]
    hit = c.flag(0)
    e = at(c, t)
    H = lambda g: c.Implies(hit, g)
    return [('the results are finite', H(c.fin(0, 1, 2, 3))), ('the parameter is within the ray', H(c.And(c.ge(t, 0), c.le(t, c.x[10]) if len(c.x) > 10 else True)))] + \
           [('the hit point is the ray point at t (axis %d)' % k, H(c.eq(p[k], e[k]))) for k in range(3)] + \
           [('the hit point lies ' + n, H(g)) for n, g in surface(c, e, c.lt, True)]


def hyp(c):
    g = c.g[0]
    q = at(c, g)
    return c.And(c.Not(c.lt(g, 0)), *([c.Not(c.lt(c.x[10], g))] if len(c.x) > 10 else []), *[h for _, h in surface(c, q, c.lt)])


def post_complete(c):
    h = hyp(c)
    return [('a ray point on the surface is found', c.Implies(h, c.flag(0))),
            ('no surface point lies before the hit', c.Implies(c.And(h, c.flag(0)), c.le(c.o(0), c.g[0])))]


def post_any(c):
    return [('a ray point on the surface is found', c.Implies(hyp(c), c.flag(0)))]


def post_both(c):
    return [('do_intersect agrees with intersect', c.Iff(c.flag(0), c.flag(1)))]


def quad(c):
    """coefficients of the quadratic for the ray parameter"""
    o, d = c.x[4:7], c.x[7:10]
    return dot(d, d), 2 * dot(o, d), dot(o, o) - c.x[0] * c.x[0]


def cut(c):
    """What the quadratic solver returns; shown on each of its paths, then used."""
    def facts(tag, v, args):
        a, b, cc = args
        if tag != 1:
            return [b * b - 4 * a * cc < 0]
        if None in v:
            return [z3.And(b == 0, cc == 0)] + [t == 0 for t in v if t is not None]
        t0, t1 = v
        return [t0 <= t1, a * (t0 + t1) == -b, a * t0 * t1 == cc, a * t0 * t0 + b * t0 + cc == 0,
                a * t1 * t1 + b * t1 + cc == 0]
    return Cut('quadratic', (4, 8), facts, requires=lambda args: [args[0] > 0],
               sig=(r'8geometry6sphere', ['ptr', 'float', 'float', 'float']))


# rays along the z axis against the whole sphere: few unknowns, so that the quadratic is examined without a contract
def axis_pre(c):
    x = c.x
    return [c.lt(0, x[0]), c.Not(c.lt(x[5], 0)), c.Not(c.same(x[4], 0))]


def axis_pt(c, t):
    return [c.x[1], c.x[2], c.x[3] + c.x[4] * t]


def axis_post(c):
    t, g, x = c.o(0), c.g[0], c.x
    on = lambda v: c.eq(dot(axis_pt(c, v), axis_pt(c, v)), x[0] * x[0])
    p, e = [c.o(1 + k) for k in range(3)], axis_pt(c, t)
    hit = c.flag(0)
    root = c.And(c.Not(c.lt(g, 0)), c.Not(c.lt(x[5], g)), on(g))
    return [('a ray point on the sphere is found', c.Implies(root, hit)),
            ('no point of the sphere lies before the hit', c.Implies(c.And(root, hit), c.le(t, g))),
            ('the hit lies on the sphere', c.Implies(hit, c.And(c.fin(0, 1, 2, 3), on(t)))),
            ('the parameter is within the ray', c.Implies(hit, c.And(c.ge(t, 0), c.le(t, x[5])))),
            ('the hit point is the ray point', c.Implies(hit, c.And(*[c.eq(p[k], e[k]) for k in range(3)])))]


def axis_sample(rng):
    x = sample(rng)
    r = x[0]
    q = [float(rng.randint(-3, 3)) for _ in range(3)]
    if rng.random() < .5:
        r, (q[0], q[1]) = 2., rng.choice([(2., 0.), (0., 2.), (0., -2.), (-2., 0.)])
    return [r] + q + [rng.choice([1., -1., .5, 2.]), x[10]]


def axis_gs(x, rng):
    return [rng.choice(roots([x[0]] + [0] * 3 + list(x[1:4]) + [0, 0, x[4], x[5]]))]


def obligations(tier):
    kw = dict(pre=pre, sample=sample, opts=dict(cuts=[cut], roots=quad, finite=False), nout=15)
    ku = dict(kw, sample=lambda r: sample(r)[:10])
    return [Ob('sound', 'sp_hit_f32', 'f32', 11, post_sound, **kw),
            Ob('complete', 'sp_hit_f32', 'f32', 11, post_complete, ghosts=1, gsample=gs, **kw),
            Ob('any_complete', 'sp_any_f32', 'f32', 11, post_any, ghosts=1, gsample=gs, **kw),
            Ob('sound_unbounded', 'sp_hitu_f32', 'f32', 10, post_sound, **ku),
            Ob('complete_unbounded', 'sp_hitu_f32', 'f32', 10, post_complete, ghosts=1, gsample=gs, **ku),
            Ob('any_unbounded', 'sp_anyu_f32', 'f32', 10, post_any, ghosts=1, gsample=gs, **ku),
            Ob('axis', 'sp_axis_f32', 'f32', 6, axis_post, pre=axis_pre, sample=axis_sample, ghosts=1, gsample=axis_gs,
               opts=dict(finite=False), nout=4),
            Ob('any_agrees', 'sp_both_f32', 'f32', 11, post_both, **kw)]
