"""Every transform carries a matrix and its true inverse."""
from lib import *
from mat import *

BOUNDS = ['all real parameters: any translation, any non-zero scale, any angle, any non-zero axis, any camera pose '
          'whose up vector is not parallel to the viewing direction, any 0 < fov < pi and 0 < near < far; composition: '
          'any two transforms']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic; sin/cos by sin^2 + cos^2 = 1']
OUTSIDE = ['rounding error']


def consistent(c):
    m, n = MO(c, 0), MO(c, 16)
    i = kz(c, ID)
    return mmeq(c, 'm * minv', mm(m, n), i) + mmeq(c, 'minv * m', mm(n, m), i)


def post_compose(c):
    a, ai, b, bi = M(c.x, 0), M(c.x, 16), M(c.x, 32), M(c.x, 48)
    return meq(c, 'composed matrix', 0, mm(a, b)) + meq(c, 'composed inverse', 16, mm(bi, ai))


def post_basic(c):
    a, ai = M(c.x, 0), M(c.x, 16)
    i = kz(c, ID)
    return (meq(c, 'inverse swaps (m)', 0, ai) + meq(c, 'inverse swaps (minv)', 16, a) + meq(c, 'identity', 32, i) +
            meq(c, 'identity inverse', 48, i) + meq(c, 'new keeps m', 64, a) + meq(c, 'new keeps minv', 80, ai))


def lem_compose():
    """A X = I, X A = I, B Y = I, Y B = I  =>  (A B)(Y X) = I, one entry at a time"""
    A, X, B, Y = ([[z3.Real('%s%d%d' % (n, r, k)) for k in range(4)] for r in range(4)] for n in 'AXBY')
    # B Y = I is used as: C = (B Y) X with B Y replaced entrywise
    BY = mm(B, Y)
    hyp = [BY[r][k] == ID[r][k] for r in range(4) for k in range(4)]
    AX = mm(A, X)
    hyp += [AX[r][k] == ID[r][k] for r in range(4) for k in range(4)]
    P = mm(mm(A, B), mm(Y, X))
    # (A B)(Y X) - A X = A (B Y - I) X, identically
    D = [[BY[r][k] - ID[r][k] for k in range(4)] for r in range(4)]
    Q = mm(mm(A, D), X)
    z = z3.RealVal(0)
    return [], z3.And(*[z3.simplify(P[r][k] - AX[r][k] - Q[r][k], som=True) == z for r in range(4) for k in range(4)])


def nz(*ks):
    return lambda c: [c.Not(c.eq(c.x[k], 0)) for k in ks]


def pre_axis(c):
    return [c.Not(c.eq(dot(c.x[:3], c.x[:3]), 0))]


def pre_look(c):
    d = sub(c.x[0:3], c.x[3:6])
    n = cross(c.x[6:9], d)
    return [c.Not(c.eq(dot(n, n), 0))]


def h_look(c):
    up, d = c.x[6:9], sub(c.x[0:3], c.x[3:6])
    n = cross(up, d)
    uu, dd = dot(up, up), dot(d, d)
    return [(uu * dd, dot(n, n)), (dd, dot(n, n)), (uu, dot(n, n))]


def pre_persp(c):
    return [c.lt(0, c.x[0]), c.lt(c.x[0], c.k(rat_pi)), c.lt(0, c.x[1]), c.lt(c.x[1], c.x[2]),
            c.Not(c.eq(c.sin(c.x[0] / 2), 0)), c.Not(c.eq(c.cos(c.x[0] / 2), 0))]


rat_pi = PI


def s_persp(rng):
    n = rng.uniform(.1, 3)
    return [rng.uniform(.2, 2.8), n, n + rng.uniform(.5, 5)]


def s_look(rng):
    return [rng.uniform(-4, 4) for _ in range(9)]


def obligations(tier):
    out = [Lemma('lemma_composition', lem_compose)]
    for t in FT:
        A = lambda n, fn, k, **kw: out.append(Ob('%s_%s' % (n, t), 'tr_%s_%s' % (fn, t), t, k, consistent, nout=32, **kw))
        A('translate', 'translate', 3)
        A('scale', 'scale', 3, pre=nz(0, 1, 2))
        A('rotate_x', 'rotx', 1)
        A('rotate_y', 'roty', 1)
        A('rotate_z', 'rotz', 1)
        A('rotate', 'rotate', 4, pre=pre_axis)
        A('look_at', 'look', 9, pre=pre_look, sample=s_look, hints=h_look)
        A('perspective', 'persp', 3, pre=pre_persp, sample=s_persp)
        out.append(Ob('compose_' + t, 'tr_compose_' + t, t, 64, post_compose, nout=32))
        out.append(Ob('basic_' + t, 'tr_basic_' + t, t, 32, post_basic, nout=96))
    return out
