"""Ray against bounding box."""
from lib import *
from mat import *

BOUNDS = ['every ordered box, every ray of finite origin and direction (zero direction components included) and tmax >= 0, infinite included']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic extended with the IEEE infinities and NaN of divisions by zero']
OUTSIDE = ['rounding error', 'boxes with pmin > pmax', 'infinite coordinates']


def pre(c):
    return [c.Not(c.lt(c.x[3 + k], c.x[k])) for k in range(3)] + [c.Not(c.lt(c.x[12], 0))]


def lo(c):
    return c.x[:3]


def hi(c):
    return c.x[3:6]


def at(c, t):
    return [c.x[6 + k] + c.x[9 + k] * t for k in range(3)]


def sample(rng):
    a = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) for _ in range(3)]
    b = [v + rng.choice([0, 1., rng.uniform(0, 4)]) for v in a]
    o = [rng.choice([a[k], b[k], rng.uniform(-4, 4)]) for k in range(3)]
    d = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) for _ in range(3)]
    return a + b + o + d + [rng.choice([0., 1., rng.uniform(0, 9), 1e30])]


def gs(x, rng):
    c = [0, x[12], x[12] * rng.random(), rng.random() * 4]
    for k in range(3):
        if x[9 + k]:
            c += [(x[k] - x[6 + k]) / x[9 + k], (x[3 + k] - x[6 + k]) / x[9 + k]]
    return [rng.choice(c)]


def post(c):
    t = c.g[0]
    p = at(c, t)
    dom = c.And(c.Not(c.lt(t, 0)), c.Not(c.lt(c.x[12], t)))
    ins = c.And(dom, *[c.And(c.Not(c.lt(p[k], c.x[k])), c.Not(c.lt(c.x[3 + k], p[k]))) for k in range(3)])
    hit = c.flag(0)
    a, b = c.o(0), c.o(1)
    q = c.And(hit, c.Not(c.lt(t, a)), c.Not(c.lt(b, t)))
    return [('a ray point in the box is reported', c.Implies(ins, hit)),
            ('the period is ordered, non-negative and within tmax',
             c.Implies(hit, c.And(c.ge(a, 0), c.le(a, b), c.le(b, c.x[12])))),
            ('the period covers every ray point in the box', c.Implies(c.And(hit, ins), c.And(c.le(a, t), c.le(t, b))))] + \
           [('every point of the period is in the box (axis %d)' % k,
             c.Implies(q, c.And(c.ge(p[k], c.x[k]), c.le(p[k], c.x[3 + k])))) for k in range(3)]


def pre_u(c):
    return [c.Not(c.lt(c.x[3 + k], c.x[k])) for k in range(3)]


def post_u(c):
    t = c.g[0]
    p = at(c, t)
    ins = c.And(c.Not(c.lt(t, 0)), *[c.And(c.Not(c.lt(p[k], c.x[k])), c.Not(c.lt(c.x[3 + k], p[k]))) for k in range(3)])
    hit, inf = c.flag(0), c.pinf(1)
    a, b = c.o(0), c.o(1)
    q = c.And(hit, c.Not(c.lt(t, a)), c.Or(inf, c.Not(c.lt(b, t))))
    return [('a ray point in the box is reported', c.Implies(ins, hit)),
            ('do_intersect agrees with intersect_ray', c.Iff(c.flag(0), c.flag(1))),
            ('the period is ordered and non-negative',
             c.Implies(hit, c.And(c.fin(0), c.Or(inf, c.fin(1)), c.ge(a, 0), c.Or(inf, c.le(a, b))))),
            ('the period covers every ray point in the box', c.Implies(c.And(hit, ins), c.And(c.le(a, t), c.Or(inf, c.le(t, b)))))] + \
           [('every point of the period is in the box (axis %d)' % k,
             c.Implies(q, c.And(c.ge(p[k], c.x[k]), c.le(p[k], c.x[3 + k])))) for k in range(3)]


def post_any(c):
    return [('do_intersect agrees with intersect_ray', c.Iff(c.flag(0), c.flag(1)))]


def post_any2(c):
    return [('do_intersect agrees with intersect', c.Iff(c.flag(0), c.flag(1)))]


def obligations(tier):
    kw = dict(pre=pre, sample=sample, wall=120)
    return [Ob('period', 'bb_ray_f32', 'f32', 13, post, ghosts=1, gsample=gs, nout=2, **kw),
            Ob('period_unbounded', 'bb_rayu_f32', 'f32', 12, post_u, ghosts=1, gsample=lambda x, r: gs(list(x) + [9], r), nout=2,
               pre=pre_u, sample=lambda r: sample(r)[:12], opts=dict(finite=False), wall=120),
            Ob('any', 'bb_any_f32', 'f32', 13, post_any, **kw),
            Ob('any_hit', 'bb_any2_f32', 'f32', 13, post_any2, opts=dict(merge_all='4bbox'), **kw)]
