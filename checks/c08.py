"""4x4 matrix algebra and the matrix inverse."""
from lib import *
from mat import *

BOUNDS = ['all 16 entries of each operand arbitrary reals; inverse: every matrix with non-zero determinant']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic']
OUTSIDE = ['rounding error', 'singular matrices (the inverse does not exist)']


def post_mul(c):
    a, b = M(c.x), M(c.x, 16)
    return meq(c, 'product', 0, mm(a, b)) + meq(c, 'identity is neutral', 16, a) + \
        meq(c, 'zero', 32, kz(c, [[0] * 4] * 4)) + meq(c, 'new is identity', 48, kz(c, ID)) + \
        meq(c, 'default is identity', 64, kz(c, ID))


def post_ops(c):
    a, s = M(c.x), c.x[16]
    st = T(a)
    st[1][2] = s
    return (meq(c, 'transpose', 0, T(a)) + meq(c, 'scalar product', 16, [[s * v for v in r] for r in a]) +
            meq(c, 'row', 32, a) + meq(c, 'col', 48, T(a)) + meq(c, 'row_vec', 64, a) + meq(c, 'col_vec', 80, T(a)) +
            meq(c, 'index', 96, a) + meq(c, 'index_mut', 112, st))


def post_cmp(c):
    a, b = c.x[:16], c.x[16:32]
    return [('==', c.Iff(c.flag(0), c.And(*[c.same(p, q) for p, q in zip(a, b)])))]


def post_alm(c):
    return [('almost_eq is entrywise', c.Iff(c.flag(1), c.flag(2)))]


def post_inv(c):
    a = M(c.x)
    b = [[c.o(4 * r + k) for k in range(4)] for r in range(4)]
    p, q = mm(a, b), mm(b, a)
    return [('m * inverse[%d][%d]' % (r, k), c.eq(p[r][k], c.k(ID[r][k]))) for r in range(4) for k in range(4)] + \
           [('inverse * m[%d][%d]' % (r, k), c.eq(q[r][k], c.k(ID[r][k]))) for r in range(4) for k in range(4)]


def pre_inv(c):
    return [c.Not(c.eq(det4(M(c.x)), 0))]


def obligations(tier):
    out = []
    for t in FT:
        out.append(Ob('mul_' + t, 'mx_mul_' + t, t, 32, post_mul, nout=80))
        out.append(Ob('ops_' + t, 'mx_ops_' + t, t, 17, post_ops, nout=128))
        out.append(Ob('cmp_' + t, 'mx_cmp_' + t, t, 32, post_cmp, nout=1, sample=s_cmp))
        out.append(Ob('almost_' + t, 'mx_alm_' + t, t, 32, post_alm, nout=1, sample=s_cmp,
                      opts=dict(merge_all='almost_eq|fequals')))
        out.append(Ob('inverse_' + t, 'tr_inv_' + t, t, 16, post_inv, pre=pre_inv, nout=16))
    return out


def s_cmp(rng):
    a = [rng.uniform(-3, 3) for _ in range(16)]
    b = list(a)
    if rng.random() < .6:
        b[rng.randrange(16)] += rng.choice([1e-7, 1e-5, 1, -1])
    return a + b
