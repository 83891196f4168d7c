"""Surface interaction of a ray that meets a bounding box from outside."""
from lib import *
from mat import *
import c16

BOUNDS = ['every box with pmin < pmax, every ray whose origin is not strictly inside it, tmax >= 0 (infinite included), zero direction '
          'components included']
ASSUMPTIONS = c16.ASSUMPTIONS
OUTSIDE = ['rounding error', 'rays that start inside the box (documented as unsupported in the source)', 'texture coordinates']


def pre(c):
    x = c.x
    return [c.lt(x[k], x[3 + k]) for k in range(3)] + ([c.Not(c.lt(x[12], 0))] if len(x) > 12 else []) + \
        [c.Or(*[c.Or(c.Not(c.lt(x[k], x[6 + k])), c.Not(c.lt(x[6 + k], x[3 + k]))) for k in range(3)])]


def sample(rng):
    a = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) for _ in range(3)]
    b = [v + rng.choice([1., 2., rng.uniform(.1, 4)]) for v in a]
    q = [rng.choice([a[k], b[k], rng.uniform(a[k], b[k])]) for k in range(3)]
    d = [rng.choice([0., 1., -1., rng.uniform(-2, 2)]) for _ in range(3)]
    s = rng.uniform(0, 5)
    return a + b + [q[k] - s * d[k] for k in range(3)] + d + [rng.choice([rng.uniform(0, 9), 1e30])]


def post(which):
    def f(c):
        hit = c.flag(0)
        t, p, n = c.o(0), [c.o(1 + k) for k in range(3)], [c.o(4 + k) for k in range(3)]
        u, v = [c.o(9 + k) for k in range(3)], [c.o(12 + k) for k in range(3)]
        lo, hi, tm = c.x[:3], c.x[3:6], c.x[12] if len(c.x) > 12 else None
        e = c16.at(c, t)
        H = lambda g: c.Implies(hit, g)
        if which == 'entry':
            q = c16.at(c, c.g[0])
            ins = c.And(c.Not(c.lt(c.g[0], 0)), True if tm is None else c.Not(c.lt(tm, c.g[0])),
                        *[c.And(c.Not(c.lt(q[k], lo[k])), c.Not(c.lt(hi[k], q[k]))) for k in range(3)])
            return [('a ray point in the box is reported', c.Implies(ins, hit)),
                    ('no earlier ray point is in the box', H(c.Implies(ins, c.le(t, c.g[0]))))]
        if which == 'point':
            return [('the results are finite', H(c.fin(0, 1, 2, 3))),
                    ('the parameter is within the ray', H(c.And(c.ge(t, 0), True if tm is None else c.le(t, tm))))] + \
                   [('the hit point is the ray point at t (axis %d)' % k, H(c.eq(p[k], e[k]))) for k in range(3)] + \
                   [('the hit point is in the box (axis %d)' % k, H(c.And(c.ge(p[k], lo[k]), c.le(p[k], hi[k]))))
                    for k in range(3)]
        z, o = c.k(0), c.k(1)
        face = []
        for k in range(3):
            for s, b in ((-1, lo), (1, hi)):
                nn = [c.k(s if j == k else 0) for j in range(3)]
                face.append(c.And(c.eq(p[k], b[k]), *[c.eq(n[j], nn[j]) for j in range(3)]))
        out = [('the results are finite', H(c.fin(*range(15)))), ('the normal is the outward normal of a face that contains the hit point', H(c.Or(*face))),
               ('tangents of unit length', H(c.And(c.eq(dot(u, u), 1), c.eq(dot(v, v), 1)))),
               ('tangents perpendicular', H(c.And(c.eq(dot(u, v), 0), c.eq(dot(u, n), 0), c.eq(dot(v, n), 0))))]
        x = cross(v, u)
        return out + [('same handedness on every face[%d]' % k, H(c.eq(x[k], n[k]))) for k in range(3)]
    return f


def cut(c):
    """What the entry parameter of Bbox3::intersect_ray satisfies; shown on every path of that function, then used."""
    x = c.x
    end = lambda t: t <= x[12] if len(x) > 12 else True

    def facts(tag, v, _):
        if any(t is None for t in v) or v and isinstance(v[0], str):
            return [False]
        if tag != 1:
            if not c.g:
                return []
            q = c16.at(c, c.g[0])
            return [z3.Not(z3.And(c.g[0] >= 0, end(c.g[0]), *[z3.And(q[k] >= x[k], q[k] <= x[3 + k]) for k in range(3)]))]
        a, b = v
        p = c16.at(c, a)
        d = x[9:12]
        return [z3.And(a >= 0, end(a)), *[z3.And(p[k] >= x[k], p[k] <= x[3 + k]) for k in range(3)],
                z3.Or(a == 0, *[z3.Or(z3.And(d[k] > 0, p[k] == x[k]), z3.And(d[k] < 0, p[k] == x[3 + k]))
                                for k in range(3)])]
    return Cut(r'5Bbox313intersect_ray(\||$)', (4, 8), facts, inf=len(x) == 12)


def obligations(tier):
    kw = dict(pre=pre, sample=sample, nout=15, wall=350, hard=750, opts=dict(cuts=[cut], finite=False))
    ku = dict(pre=pre, sample=lambda r: sample(r)[:12], nout=15, wall=350, hard=750, opts=kw['opts'])
    return [Ob('entry', 'bb_hit_f32', 'f32', 13, post('entry'), ghosts=1, gsample=c16.gs, **kw),
            Ob('point', 'bb_hit_f32', 'f32', 13, post('point'), **kw),
            Ob('frame', 'bb_hit_f32', 'f32', 13, post('frame'), **kw),
            Ob('entry_unbounded', 'bb_hitu_f32', 'f32', 12, post('entry'), ghosts=1,
               gsample=lambda x, r: c16.gs(list(x) + [9], r), **ku),
            Ob('point_unbounded', 'bb_hitu_f32', 'f32', 12, post('point'), **ku),
            Ob('frame_unbounded', 'bb_hitu_f32', 'f32', 12, post('frame'), **ku)]
