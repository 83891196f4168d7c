"""Trigonometric functions of intervals."""
from lib import *
import c01

BOUNDS = ['every interval with finite ends of magnitude at most 2^30 (sin, cos), within [-1, 1] (asin, acos), any (atan), '
          'every pair of intervals (atan2)']
ASSUMPTIONS = ['libm: results within one ulp of the exact value, of its sign, enclosed by the neighbours of the result; '
               'asin, acos and atan weakly monotone',
               'exact sine and cosine by their monotone half periods; no non-zero float is closer than 2^-100 to a zero of '
               'sine or cosine', 'next_up/next_down by their specification (C02)']
OUTSIDE = ['ends of sin/cos with 0 < |end| < 2^-100', 'infinite or NaN ends']
TINY = Fr(1, 2 ** 100)


def mag_ok(c, kind):
    out = [c.Not(c.lt(c.x[1], c.x[0]))]
    for k in range(2):
        x = c.x[k]
        out += [c.Not(c.lt(2 ** 30, c.abs(x))), c.Or(c.same(x, 0), c.Not(c.lt(c.abs(x), c.k(TINY))))]
        d = c.cos(x) if kind == 'sin' else c.sin(x)
        out.append(c.Or(c.same(x, 0) if kind == 'cos' else False, c.Not(c.lt(c.abs(d), c.k(TINY)))))
    c.trig_range(kind, c.x[0], c.x[1])
    return out


def trig(kind, t):
    f = FMT[FT[t]]

    def post(c):
        lo, hi = c.trig_range(kind, c.x[0], c.x[1])
        w = c.x[1] - c.x[0]
        ok = c.Or(c.lt(w, c.k(Fr(314, 100))), c.And(c.lt(c.k(Fr(315, 100)), w), c.Or(c.lt(w, c.k(Fr(628, 100))),
                                                                                c.lt(c.k(Fr(629, 100)), w))))
        sl = lambda v: c.k(16 * f['u']) * c.abs(v) + c.k(Fr(1, 2 ** 140))
        return [('lower bound encloses', c01.lo_ok(c, 0, lo)), ('upper bound encloses', c01.hi_ok(c, 1, hi)),
                ('lower bound tight', c.Implies(ok, c.ge(c.o(0), lo - sl(lo)))),
                ('upper bound tight', c.Implies(ok, c.le(c.o(1), hi + sl(hi))))]
    return post


def s_trig(rng):
    a = rng.choice([0., rng.uniform(-10, 10), rng.uniform(-1e4, 1e4)])
    return sorted([a, a + rng.choice([0, rng.uniform(0, 3), rng.uniform(0, 7)])])


def inv(name, t):
    f = FMT[FT[t]]

    def post(c):
        a, b = c.mono(name, c.x[0]), c.mono(name, c.x[1])
        if name == 'acos':
            a, b = b, a
        sl = lambda v: c.k(16 * f['u']) * c.abs(v) + c.k(Fr(1, 2 ** 140))
        return [('lower bound encloses', c01.lo_ok(c, 0, a)), ('upper bound encloses', c01.hi_ok(c, 1, b)),
                ('lower bound tight', c.ge(c.o(0), a - sl(a))), ('upper bound tight', c.le(c.o(1), b + sl(b)))]
    return post


def p_inv(name):
    def pre(c):
        out = [c.Not(c.lt(c.x[1], c.x[0]))]
        if name != 'atan':
            out += [c.Not(c.lt(1, c.abs(c.x[k]))) for k in range(2)]
        return out
    return pre


def le(c, i, j):
    """output i is at most output j"""
    return c.Or(c.ninf(i), c.pinf(j), c.And(c.fin(i, j), c.le(c.o(i), c.o(j))))


def tan(c):
    """tan encloses the quotient of the intervals of sin and cos, so by C01 every quotient of a sine and a cosine"""
    if not c.sym:
        a, b = c.x[0], c.x[1]
        lo, hi = c.trig_range('cos', a, b)
        if lo > 0 or hi < 0:
            t = [('encloses', c.And(c01.lo_ok(c, 0, c.sin(a) / c.cos(a)), c01.hi_ok(c, 1, c.sin(b) / c.cos(b))))]
        else:
            t = [('encloses', c.And(c.ninf(0), c.pinf(1)))]
    else:
        t = [('encloses', c.And(le(c, 0, 2), le(c, 3, 1)))]
    return t + [('sin_cos is the pair of sin and cos', c.And(*[c.And(c.fin(k, k + 4), c.eq(c.o(k), c.o(k + 4)))
                                                              for k in (4, 5, 6, 7)]))]


def p_at2(c):
    return [c.le(c.x[0], c.x[1]), c.le(c.x[2], c.x[3]), c.Or(*[c.lt(0, c.abs(v)) for v in c.x[:4]])]


def hull(c, sy, sx, tol):
    """bounds of the polar angle over the box without the origin, y of sign class sy and x of sign class sx"""
    a, b, d, e = c.x[:4]
    pi, h, z = c.k(PI), c.k(PI / 2), c.k(0)
    at = lambda p, q: c.mono('atan', c.div(p, q))
    if sx > 0:
        hi = c.If(c.lt(0, b), c.If(c.lt(0, d), at(b, d), h), c.If(c.lt(b, 0), c.If(c.lt(0, e), at(b, e), -h), z))
        lo = c.If(c.lt(a, 0), c.If(c.lt(0, d), at(a, d), -h), c.If(c.lt(0, a), c.If(c.lt(0, e), at(a, e), h), z))
        return lo, hi
    if sy == 0:
        return -pi, pi
    # the code adds pi rounded to the format in the left half plane, hence the tolerance there
    if sy > 0:
        lo = at(a, e) if sx == 0 else c.If(c.lt(e, 0), at(b, e) + pi + tol, c.If(c.lt(0, b), h, pi))
        return lo, c.If(c.lt(0, a), at(a, d) + pi - tol, pi)
    hi = at(b, e) if sx == 0 else c.If(c.lt(e, 0), at(a, e) - pi - tol, -h)
    return c.If(c.lt(b, 0), at(b, d) - pi + tol, -pi), c.If(c.lt(b, 0), hi, pi)


def lem_at2(sy, sx):
    """the quotient at any point of the box lies between the quotients at the corners that hull names"""
    def claim():
        a, b, d, e, y, x, q, l, u = z3.Reals('a b d e y x q l u')
        box = [a <= y, y <= b, d <= x, x <= e, q * x == y]
        sg = {1: lambda p, r: [p >= 0], -1: lambda p, r: [p < 0, r <= 0], 0: lambda p, r: [p < 0, r > 0]}
        box += sg[sy](a, b)
        if sx > 0:
            # hi: b/d or b/e, lo: a/d or a/e
            return box + [d > 0, l * z3.If(a < 0, d, e) == a, u * z3.If(b > 0, d, e) == b], z3.And(l <= q, q <= u)
        if sy > 0:
            return box + [e < 0, l * e == b, u * d == a], z3.And(l <= q, q <= u)
        return box + [e < 0, b < 0, l * d == b, u * e == a], z3.And(l <= q, q <= u)
    return claim


def at2(c, t, sy, sx):
    lo, hi = hull(c, sy, sx, c.k(2 * FMT[FT[t]]['u']))
    return [('lower bound encloses', c01.lo_ok(c, 0, lo)), ('upper bound encloses', c01.hi_ok(c, 1, hi))]


def sign(c, k, s):
    """the interval starting at input k is not negative (1), not positive without being zero (-1), of both signs (0)"""
    a, b = c.x[k], c.x[k + 1]
    return [c.le(0, a)] if s > 0 else [c.le(b, 0), c.lt(a, 0)] if s < 0 else [c.lt(a, 0), c.lt(0, b)]


def sgn(a, b, s):
    a, b = sorted([a, b])
    return [a, b] if s > 0 else [-b - .01, -a] if s < 0 else [-a - .01, b + .01]


def s_at2(rng):
    def iv():
        a = rng.choice([0., rng.uniform(-3, 3), rng.uniform(-3, 3)])
        return sorted([a, rng.choice([a, 0., rng.uniform(-3, 3)])])
    return iv() + iv()


def obligations(tier):
    out = [Lemma('lemma_atan2_%s%s' % ('n0p'[sy + 1], 'n0p'[sx + 1]), lem_at2(sy, sx)) for sy in (-1, 0, 1) for sx in (-1, 1)
           if (sy, sx) != (0, -1)]
    lin = dict(linear='only', plan=[('lin', .3), ('default', .4), ('nlsat', .3)])
    for t in FT:
        for kind in ('sin', 'cos'):
            out.append(Ob('%s_%s' % (kind, t), 'iv_%s_%s' % (kind, t), t, 2, trig(kind, t), dom='RR', sample=s_trig,
                          pre=lambda c, kind=kind: mag_ok(c, kind), nout=2, timeout=60, opts=lin))
        out.append(Ob('tan_%s' % t, 'iv_tan_%s' % t, t, 2, tan, dom='RX', sample=s_trig, nout=12, timeout=60,
                      pre=lambda c: [c.le(c.x[0], c.x[1])], opts=dict(next_spec=True, finite=False)))
        for sy in (-1, 0, 1):
            for sx in (-1, 0, 1):
                def pre(c, sy=sy, sx=sx):
                    return sign(c, 0, sy) + sign(c, 2, sx) + p_at2(c)

                def smp(rng, sy=sy, sx=sx):
                    v = [abs(z) for z in s_at2(rng)]
                    return sgn(v[0], v[1], sy) + sgn(v[2], v[3], sx)
                out.append(Ob('atan2_%s%s_%s' % ('n0p'[sy + 1], 'n0p'[sx + 1], t), 'iv_atan2_%s' % t, t, 4,
                              lambda c, t=t, sy=sy, sx=sx: at2(c, t, sy, sx), dom='RR', sample=smp, pre=pre, nout=2,
                              timeout=60, opts=dict(lin, next_spec=True)))
        for name in ('asin', 'acos', 'atan'):
            s = (lambda rng: sorted([rng.uniform(-1, 1), rng.choice([-1., 1., 0., rng.uniform(-1, 1)])])) if name != 'atan' \
                else c01.s_iv
            out.append(Ob('%s_%s' % (name, t), 'iv_%s_%s' % (name, t), t, 2, inv(name, t), dom='RR', pre=p_inv(name),
                          sample=s, nout=2, timeout=60, opts=lin))
    return out
