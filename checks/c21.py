"""A primitive placed by a transform."""
from lib import *
from mat import *
import c15

BOUNDS = ['every affine matrix pair, every ray, one primitive of arbitrary behaviour: its hit parameter is an arbitrary '
          'linear function of the ray it is given (so every component of that ray is observed), the reported point, '
          'normal, tangents, texture coordinates and box are arbitrary']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic']
OUTSIDE = ['rounding error', 'normals the inverse matrix maps to zero']


def mats(c):
    m = [c.x[4 * r:4 * r + 4] for r in range(3)]
    i = [c.x[12 + 4 * r:16 + 4 * r] for r in range(3)]
    return m, i


def seen(c):
    """the functional of the primitive on the ray in object space"""
    m, i = mats(c)
    k, r = c.x[24:31], c.x[51:58]
    o = [dot(i[a][:3], r[:3]) + i[a][3] for a in range(3)]
    d = [dot(i[a][:3], r[3:6]) for a in range(3)]
    return dot(k[:3], o) + dot(k[3:6], d) + k[6] * r[6]


def wn(c):
    m, i = mats(c)
    n = c.x[34:37]
    return [i[0][a] * n[0] + i[1][a] * n[1] + i[2][a] * n[2] for a in range(3)]


def pre(c):
    return [c.lt(0, dot(wn(c), wn(c)))]


def post_hit(c):
    m, i = mats(c)
    t = seen(c)
    hit = c.flag(0)
    H = lambda g: c.Implies(hit, g)
    out = [('the primitive is asked with the ray in object space', c.Iff(hit, c.lt(0, t))), ('finite', H(c.fin(*range(15)))),
           ('the ray parameter is that of the primitive', H(c.eq(c.o(0), t)))]
    p, u, v = c.x[31:34], c.x[39:42], c.x[42:45]
    for a in range(3):
        out += [('the point is mapped to world space[%d]' % a, H(c.eq(c.o(1 + a), dot(m[a][:3], p) + m[a][3]))),
                ('dp/du is mapped to world space[%d]' % a, H(c.eq(c.o(9 + a), dot(m[a][:3], u)))),
                ('dp/dv is mapped to world space[%d]' % a, H(c.eq(c.o(12 + a), dot(m[a][:3], v))))]
    out += [('texture coordinates are kept', H(c.And(c.eq(c.o(7), c.x[37]), c.eq(c.o(8), c.x[38]))))]
    n, w = [c.o(4 + a) for a in range(3)], wn(c)
    x = cross(n, w)
    out += [('the normal is the mapped normal (direction %d)' % a, H(c.eq(x[a], 0))) for a in range(3)]
    out += [('the normal has unit length', H(c.eq(dot(n, n), 1))),
            ('the normal keeps its side', H(c.pos(dot(n, w), (1, dot(w, w)))))]
    return out


def post_any(c):
    return [('the primitive is asked with the ray in object space', c.Iff(c.flag(0), c.lt(0, seen(c))))]


def pre_ord(c):
    return [c.le(c.x[45 + k], c.x[48 + k]) for k in range(3)]


def pre_box(c):
    return [c.le(c.x[45 + k], c.x[48 + k]) for k in range(3)] + \
           [c.And(c.Not(c.lt(c.g[k], c.x[45 + k])), c.Not(c.lt(c.x[48 + k], c.g[k]))) for k in range(3)]


def g_box(x, rng):
    return [x[45 + k] + (x[48 + k] - x[45 + k]) * rng.random() for k in range(3)]


def post_box(c):
    m, _ = mats(c)
    out = []
    for a in range(3):
        q = dot(m[a][:3], c.g) + m[a][3]
        out.append(('the box contains the image of the box of the primitive (axis %d)' % a, c.And(c.le(c.o(a), q), c.le(q, c.o(3 + a)))))
    return out


def post_tight(c):
    m, _ = mats(c)
    lo, hi = c.x[45:48], c.x[48:51]
    out = []
    for a in range(3):
        l, h = m[a][3], m[a][3]
        for j in range(3):
            p, q = m[a][j] * lo[j], m[a][j] * hi[j]
            l, h = l + c.min(p, q), h + c.max(p, q)
        out += [('the box is the transformed box (low %d)' % a, c.eq(c.o(a), l)), ('the box is the transformed box (high %d)' % a, c.eq(c.o(3 + a), h))]
    return out


def sample(rng):
    v = [rng.uniform(-2, 2) for _ in range(45)]
    a = [rng.uniform(-2, 2) for _ in range(3)]
    return v + a + [t + rng.uniform(0, 2) for t in a] + [rng.uniform(-2, 2) for _ in range(6)] + [rng.uniform(0, 9)]


def obligations(tier):
    kw = dict(sample=sample)
    return [Ob('hit', 'tp_hit_f32', 'f32', 58, post_hit, pre=pre, nout=15, opts=dict(finite=False), **kw),
            Ob('any', 'tp_any_f32', 'f32', 58, post_any, **kw),
            Ob('bbox', 'tp_bbox_f32', 'f32', 58, post_box, pre=pre_box, ghosts=3, gsample=g_box, nout=6, **kw),
            Ob('bbox_tight', 'tp_bbox_f32', 'f32', 58, post_tight, pre=pre_ord, nout=6, **kw)]
