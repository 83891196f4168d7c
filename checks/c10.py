"""What a transform does to points, vectors, normals and rays."""
from lib import *
from mat import *

BOUNDS = ['all 32 matrix entries and all coordinates arbitrary reals (laws: affine matrices with non-zero determinant)']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic']
OUTSIDE = ['rounding error', 'vectors under a matrix whose last row does not vanish on them and points with w = 0 '
           '(the code panics there)']


def bottom(c, k):
    return c.x[k + 12] * c.x[32] + c.x[k + 13] * c.x[33] + c.x[k + 14] * c.x[34]


def vgoal(c, name, k, e):
    return [('%s[%d]' % (name, j), c.eq(c.o(k + j), v)) for j, v in enumerate(e)]


def lin(m, v):
    return [m[r][0] * v[0] + m[r][1] * v[1] + m[r][2] * v[2] for r in range(3)]


def linT(m, v):
    return [m[0][r] * v[0] + m[1][r] * v[1] + m[2][r] * v[2] for r in range(3)]


def post_vec(k):
    def post(c):
        e = lin(M(c.x, k), c.x[32:35])
        return vgoal(c, 'vector', 0, e) + ([] if k else vgoal(c, 'vector (trait)', 6, e))
    return post


def post_pt(k, off=0):
    def post(c):
        m = M(c.x, k)
        h = mv(m, list(c.x[32:35]) + [c.k(1)])
        return vgoal(c, 'point', off, [h[r] / h[3] for r in range(3)])
    return post


def post_nor(c):
    n = c.x[32:35]
    return vgoal(c, 'normal', 0, linT(M(c.x, 16), n)) + vgoal(c, 'normal inverse', 3, linT(M(c.x, 0), n))


def post_ray(k):
    def post(c):
        m = M(c.x, k)
        h = mv(m, list(c.x[32:35]) + [c.k(1)])
        return (vgoal(c, 'origin', 0, [h[r] / h[3] for r in range(3)]) +
                vgoal(c, 'direction', 3, lin(m, c.x[35:38])) + [('tmax', c.eq(c.o(6), c.x[38]))])
    return post


def w_of(c, k):
    return mv(M(c.x, k), list(c.x[32:35]) + [c.k(1)])[3]


def ray_panic(k):
    def p(c):
        d = c.x[35:38]
        m = M(c.x, k)
        return c.Or(c.eq(w_of(c, k), 0), c.Not(c.same(m[3][0] * d[0] + m[3][1] * d[1] + m[3][2] * d[2], 0)))
    return p


def post_eval(c):
    o, d, t = c.x[0:3], c.x[3:6], c.x[7]
    return vgoal(c, 'eval', 0, add(o, scal(d, t))) + vgoal(c, 'origin', 3, o) + vgoal(c, 'direction', 6, d) + \
        [('tmax', c.eq(c.o(9), c.x[6]))]


def adet(c, k):
    x = c.x
    return det3(x[k:k + 3], x[k + 4:k + 7], x[k + 8:k + 11])


def post_round(c):
    p, v, n = c.x[24:27], c.x[27:30], c.x[30:33]
    out = []
    for j, (nm, e) in enumerate((('inverse after map, point', p), ('map after inverse, point', p),
                                 ('inverse after map, vector', v), ('map after inverse, vector', v),
                                 ('inverse after map, normal', n), ('map after inverse, normal', n))):
        out += vgoal(c, nm, 3 * j, e)
    out += [('normals stay perpendicular', c.eq(c.o(18), dot(n, v))),
            ('normals stay perpendicular (inverse)', c.eq(c.o(19), dot(n, v)))]
    out += vgoal(c, 'inverse().map is map_inverse', 20, [c.o(23 + j) for j in range(3)])
    return out


def post_comp(c):
    return (vgoal(c, 'composition, point', 0, [c.o(3 + j) for j in range(3)]) +
            vgoal(c, 'composition, vector', 6, [c.o(9 + j) for j in range(3)]) +
            vgoal(c, 'identity, point', 12, c.x[24:27]) + vgoal(c, 'identity, vector', 15, c.x[27:30]))


def post_rlaw(c):
    return (vgoal(c, 'mapped ray passes the mapped points', 0, [c.o(3 + j) for j in range(3)]) +
            vgoal(c, 'mapped ray (inverse)', 7, [c.o(10 + j) for j in range(3)]) +
            [('tmax', c.eq(c.o(6), c.x[39])), ('tmax (inverse)', c.eq(c.o(13), c.x[39]))])


def post_cmp(c):
    x = c.x
    return [('==', c.Iff(c.flag(0), c.And(*[c.same(a, b) for a, b in zip(x[:32], x[32:64])])))]


def post_alm(c):
    return [('almost_eq compares both matrices', c.Iff(c.flag(1), c.And(c.flag(2), c.flag(3))))]


def s_cmp(rng):
    a = [rng.uniform(-3, 3) for _ in range(32)]
    b = list(a)
    if rng.random() < .7:
        b[rng.randrange(32)] += rng.choice([1e-7, 1, -1])
    return a + b


def s_aff(rng):
    u = lambda: rng.uniform(-3, 3)
    m = [u() for _ in range(16)]
    return m[:12] + [0, 0, 0, 1.] + [u() for _ in range(12)] + [0, 0, 0, 1.] + [u() for _ in range(7)]


def obligations(tier):
    out = []
    for t in FT:
        A = lambda n, fn, k, post, **kw: out.append(Ob('%s_%s' % (n, t), '%s_%s' % (fn, t), t, k, post, **kw))
        A('vector', 'tr_vec', 35, post_vec(0), nout=9, panic=lambda c: c.Not(c.same(bottom(c, 0), 0)), sample=s_aff)
        A('vector_inverse', 'tr_veci', 35, post_vec(16), nout=3, panic=lambda c: c.Not(c.same(bottom(c, 16), 0)),
          sample=s_aff)
        A('point', 'tr_pt', 35, post_pt(0), nout=3, panic=lambda c: c.eq(w_of(c, 0), 0), sample=s_aff)
        A('point_inverse', 'tr_pti', 35, post_pt(16), nout=3, panic=lambda c: c.eq(w_of(c, 16), 0), sample=s_aff)
        A('normal', 'tr_nor', 35, post_nor, nout=6, sample=s_aff)
        A('ray', 'tr_ray', 39, post_ray(0), nout=7, panic=ray_panic(0), sample=s_aff)
        A('ray_inverse', 'tr_rayi', 39, post_ray(16), nout=7, panic=ray_panic(16), sample=s_aff)
        A('ray_eval', 'ray_eval', 8, post_eval, nout=10)
        A('roundtrip', 'tr_round', 33, post_round, nout=26, pre=lambda c: [c.Not(c.eq(adet(c, 0), 0))])
        A('composition', 'tr_comp', 30, post_comp, nout=18,
          pre=lambda c: [c.Not(c.eq(adet(c, 0), 0)), c.Not(c.eq(adet(c, 12), 0))])
        A('ray_law', 'tr_raylaw', 41, post_rlaw, nout=14)
        A('compare', 'tr_cmp', 64, post_cmp, nout=1, sample=s_cmp)
        A('almost', 'tr_alm', 64, post_alm, nout=1, sample=s_cmp, opts=dict(merge_all='almost_eq|fequals'), prio=9)
    return out
