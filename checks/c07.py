"""Vector, point and normal algebra."""
from lib import *

BOUNDS = ['dimensions 2, 3 and 4; vectors, points and normals; every finite component value (reals), i16 components '
          'in [-16, 15]']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic']
OUTSIDE = ['rounding error of the floating-point results', 'overflow, infinities and NaN']


def vecgoal(c, name, k, exp):
    return [('%s[%d]' % (name, j), c.eq(c.o(k + j), e)) for j, e in enumerate(exp)]


def post_ops(n):
    def post(c):
        a, b, s = c.x[:n], c.x[n:2 * n], c.x[2 * n]
        out = []
        out += vecgoal(c, 'a + b', 0, [p + q for p, q in zip(a, b)])
        out += vecgoal(c, 'a += b', 4, [p + q for p, q in zip(a, b)])
        out += vecgoal(c, 'a * b', 8, [p * q for p, q in zip(a, b)])
        out += vecgoal(c, 'a * s', 12, [p * s for p in a])
        out += vecgoal(c, '-a', 16, [-p for p in a])
        out += vecgoal(c, 'min', 20, [c.min(p, q) for p, q in zip(a, b)])
        out += vecgoal(c, 'max', 24, [c.max(p, q) for p, q in zip(a, b)])
        out += vecgoal(c, 'from array', 28, [s] * n)
        out += vecgoal(c, 'default is zero', 32, [c.k(0)] * n)
        out += vecgoal(c, 'index_mut', 36, list(reversed(b)))
        dot = lambda u, v: sum((p * q for p, q in zip(u[1:], v[1:])), u[0] * v[0])
        out += [('dot', c.eq(c.o(40), dot(a, b))), ('square_norm', c.eq(c.o(41), dot(a, a))),
                ('dot trait', c.eq(c.o(42), dot(a, a))), ('square_norm trait', c.eq(c.o(43), dot(b, b)))]
        return out
    return post


def post_div(n):
    def post(c):
        a, b, s = c.x[:n], c.x[n:2 * n], c.x[2 * n]
        return vecgoal(c, 'a / b', 0, [p / q for p, q in zip(a, b)]) + vecgoal(c, 'a / s', 4, [p / s for p in a])
    return post


def pre_div(n):
    return lambda c: [c.Not(c.eq(v, 0)) for v in c.x[n:2 * n + 1]]


def post_cmp(n):
    def post(c):
        a, b = c.x[:n], c.x[n:2 * n]
        same = c.And(*[c.same(p, q) for p, q in zip(a, b)])
        alm = c.And(*[c.flag(4 + k) for k in range(n)])
        return [('==', c.Iff(c.flag(0), same)), ('!=', c.Iff(c.flag(1), c.Not(same))),
                ('almost_eq is componentwise', c.Iff(c.flag(2), alm))]
    return post


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def post_mix(c):
    a, b = c.x[:3], c.x[3:6]
    d = [p - q for p, q in zip(a, b)]
    s = [p + q for p, q in zip(a, b)]
    dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    exp = [('vector - vector', d), ('vector -= vector', d), ('point - point', d), ('vector + point', s),
           ('point + vector', s), ('point - vector', d), ('cross', cross(a, b)), ('normal from vector', a),
           ('point from vector', a), ('vector from point', b), ('vector from normal', b),
           ('normal cross', cross(a, b)), ('dot/square_distance/point dot', [dot(a, b), dot(d, d), dot(a, b)])]
    return [g for k, (n, e) in enumerate(exp) for g in vecgoal(c, n, 3 * k, e)]


def post_acc(c):
    x = c.x
    exp = [x[0], x[1], x[2], x[3], x[0], x[1], x[2], x[0], x[1], x[4], x[5], x[6], x[7], x[4], x[1], x[2], x[0], x[5],
           x[6]]
    return [('accessor %d' % k, c.eq(c.o(k), e)) for k, e in enumerate(exp)]


def post_norm(n):
    def post(c):
        a, b = c.x[:n], c.x[n:2 * n]
        dot = lambda u, v: sum((p * q for p, q in zip(u[1:], v[1:])), u[0] * v[0])
        d = [p - q for p, q in zip(a, b)]
        last = {2: 3, 3: 7, 4: 5}[n]
        out = [('norm is the root of square_norm', c.And(c.ge(c.o(0), 0), c.eq(c.o(0) * c.o(0), dot(a, a)))),
               ('distance', c.And(c.ge(c.o(last), 0), c.eq(c.o(last) * c.o(last), dot(d, d))))]
        for j in range(n):
            out.append(('normalize is parallel [%d]' % j, c.eq(c.o(1 + j) * c.o(0), a[j])))
        u = [c.o(1 + j) for j in range(n)]
        out.append(('normalize has unit length', c.eq(dot(u, u), 1)))
        if n == 3:
            for j in range(n):
                out.append(('normal normalize[%d]' % j, c.eq(c.o(4 + j), c.o(1 + j))))
        return out
    return post


def pre_norm(n):
    return lambda c: [c.Or(*[c.Not(c.eq(v, 0)) for v in c.x[:n]])]


# ---- integers -----------------------------------------------------------------------------------------------------
def ipre(n, nz=()):
    def pre(c):
        lim = z3.BitVecVal(16, 16)
        return [z3.And(v >= -lim, v < lim) for v in c.x[:n]] + [c.x[k] != 0 for k in nz]
    return pre


class IC:
    """integer view of a context for the same postconditions"""

    def __init__(self, c):
        self.c, self.x = c, [iv(v) for v in c.x]

    def o(self, k):
        return iv(self.c.o(k))

    def k(self, v):
        return iv(v)

    def eq(self, a, b):
        return a.t == b.t

    def same(self, a, b):
        return a.t == b.t

    def min(self, a, b):
        return iv(z3.If(a.t < b.t, a.t, b.t))

    def max(self, a, b):
        return iv(z3.If(a.t < b.t, b.t, a.t))

    def flag(self, k):
        return self.c.flag(k)

    def And(self, *a):
        return self.c.And(*a)

    def Not(self, a):
        return self.c.Not(a)

    def Iff(self, a, b):
        return beq(a, b)


class iv:
    def __init__(self, t):
        self.t = t.t if isinstance(t, iv) else bv(t, 16)

    def __add__(self, o):
        return iv(self.t + o.t)

    def __sub__(self, o):
        return iv(self.t - o.t)

    def __mul__(self, o):
        return iv(self.t * o.t)

    def __truediv__(self, o):
        return iv(self.t / o.t)

    def __neg__(self):
        return iv(-self.t)


def obligations(tier):
    out = []
    shapes = {'f32': ['v4', 'v3', 'v2', 'p3', 'p2', 'n3'], 'f64': ['v4', 'v3', 'v2', 'p3', 'n3']}
    for t in FT:
        for s in shapes[t]:
            n = int(s[1])
            out.append(Ob('ops_%s_%s' % (s, t), 've_%s_%s' % (s, t), t, 2 * n + 1, post_ops(n), nout=44))
            out.append(Ob('div_%s_%s' % (s, t), 've_%sd_%s' % (s, t), t, 2 * n + 1, post_div(n), pre=pre_div(n), nout=8))
            out.append(Ob('cmp_%s_%s' % (s, t), 've_%sc_%s' % (s, t), t, 2 * n, post_cmp(n), nout=1))
        out.append(Ob('mix_' + t, 've_mix_' + t, t, 6, post_mix, nout=39))
        out.append(Ob('access_' + t, 've_acc_' + t, t, 8, post_acc, nout=19))
        for n in (2, 3, 4):
            out.append(Ob('norm%d_%s' % (n, t), 've_norm%d_%s' % (n, t), t, 2 * n, post_norm(n), pre=pre_norm(n), nout=8))
    I = lambda f: lambda c: f(IC(c))
    for s in ('v3', 'p2'):
        n = int(s[1])
        out.append(Ob('ops_%s_i16' % s, 've_%s_i16' % s, 'i16', 2 * n + 1, I(post_ops(n)), pre=ipre(2 * n + 1), dom='I', nout=44))
        out.append(Ob('div_%s_i16' % s, 've_%sd_i16' % s, 'i16', 2 * n + 1, I(post_div(n)),
                      pre=ipre(2 * n + 1, range(n, 2 * n + 1)), dom='I', nout=8))
        out.append(Ob('cmp_%s_i16' % s, 've_%sc_i16' % s, 'i16', 2 * n, I(post_cmp(n)), pre=ipre(0), dom='I', nout=1))
    out.append(Ob('mix_i16', 've_mix_i16', 'i16', 6, I(post_mix), pre=ipre(6), dom='I', nout=39))
    out.append(Ob('access_i16', 've_acc_i16', 'i16', 8, I(post_acc), pre=ipre(0), dom='I', nout=19))
    return out
