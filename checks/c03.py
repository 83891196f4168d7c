"""Intervals as sets: union, intersection, membership, order, sign tests, abs/min/max, approx, constants."""
from lib import *

BOUNDS = ['every interval with inf <= sup, infinite ends included (f32 and f64)']
ASSUMPTIONS = ['IEEE-754 semantics of z3 FloatingPoint/BitVec theories']


def ok(*xs):
    return [fle(xs[k], xs[k + 1]) for k in range(0, len(xs), 2)]


def mn(a, b):
    return z3.If(z3.fpLT(a.fp, b.fp), a.fp, b.fp)


def mx(a, b):
    return z3.If(z3.fpLT(a.fp, b.fp), b.fp, a.fp)


def is2(c, lo, hi):
    return [('lower end', z3.fpEQ(c.o(0).fp, lo)), ('upper end', z3.fpEQ(c.o(1).fp, hi))]


def p_union(c):
    a, b, d, e = c.x[:4]
    return is2(c, mn(a, d), mx(b, e))


def p_isect(c):
    a, b, d, e = c.x[:4]
    return is2(c, mx(a, d), mn(b, e))


def disjoint(c):
    a, b, d, e = c.x[:4]
    return z3.Or(flt(b, d), flt(e, a))


def p_max(c):
    a, b, d, e = c.x[:4]
    return is2(c, mx(a, d), mx(b, e))


def p_min(c):
    a, b, d, e = c.x[:4]
    return is2(c, mn(a, d), mn(b, e))


def p_abs(c):
    a, b, s = c.x[:3]
    ab = z3.fpAbs(s.fp)
    m = z3.And(fle(a, s), fle(s, b))
    z = c.const(0.0, a.w)
    ends = lambda v: z3.Or(z3.fpEQ(v, z3.fpAbs(a.fp)), z3.fpEQ(v, z3.fpAbs(b.fp)))
    return [('encloses |s| of every member', z3.Implies(m, z3.And(z3.fpLEQ(c.o(0).fp, ab), z3.fpLEQ(ab, c.o(1).fp)))),
            ('is never negative', fle(z, c.o(0))),
            ('upper end is the larger magnitude', ends(c.o(1).fp))]


def p_q1(c):
    a, b, s, t = c.x[:4]
    z = c.const(0.0, a.w)
    fl = c.flag
    lt, gt = flt(b, s), flt(s, a)
    eq = z3.And(feq(a, b), feq(a, s))
    o = c.fval(8)
    return [('contains', beq(fl(0), z3.And(fle(a, s), fle(s, b)))),
            ('in_range', beq(fl(1), z3.And(fle(s, a), fle(b, t)))),
            ('is_exact', beq(fl(2), feq(a, b))),
            ('is_positive', beq(fl(3), flt(z, a))), ('is_negative', beq(fl(4), flt(b, z))),
            ('is_nonpositive', beq(fl(5), fle(b, z))), ('is_nonnegative', beq(fl(6), fle(z, a))),
            ('equals a number only as the exact point', beq(fl(7), eq)),
            ('order against a number', o == z3.If(eq, bv(1, 64), z3.If(lt, bv(0, 64), z3.If(gt, bv(2, 64), bv(3, 64))))),
            ('generic is_positive is certain', z3.Implies(tb(fl(10)), flt(z, a))),
            ('generic is_negative is certain', z3.Implies(tb(fl(11)), flt(b, z))),
            ('generic is_nonpositive is certain', z3.Implies(tb(fl(12)), fle(b, z))),
            ('generic is_nonnegative is certain', z3.Implies(tb(fl(13)), fle(z, a))),
            ('generic sign tests decide strict cases', z3.And(z3.Implies(flt(z, a), z3.And(tb(fl(10)), tb(fl(13)))),
                                                              z3.Implies(flt(b, z), z3.And(tb(fl(11)), tb(fl(12))))))]


def tb(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def p_q2(c):
    a, b, d, e = c.x[:4]
    fl = c.flag
    eq = z3.And(feq(a, b), feq(d, e), feq(a, d))
    lt, gt = flt(b, d), flt(e, a)
    return [('equality means both are the same exact point', beq(fl(0), eq)),
            ('order', c.fval(1) == z3.If(eq, bv(1, 64), z3.If(lt, bv(0, 64), z3.If(gt, bv(2, 64), bv(3, 64))))),
            ('is_same', beq(fl(2), z3.And(feq(a, d), feq(b, e)))),
            ('<', beq(fl(4), lt)), ('<=', beq(fl(5), z3.Or(lt, eq))), ('>', beq(fl(6), gt)),
            ('>=', beq(fl(7), z3.Or(gt, eq)))]


def p_alm(c):
    a, b, d, e, s = c.x[:5]
    fl = c.flag
    return [('almost_eq compares both ends', c.Iff(fl(0), c.And(fl(1), fl(2)))),
            ('almost equal to a number', c.Iff(fl(3), c.And(c.le(a, s), c.le(s, b), fl(4), fl(5))))]


def p_approx(c):
    a, b = c.x[:2]
    tol = c.k(Fr(1, 2 ** (21 if c.w == 32 else 50))) * (c.max(a, -a) + c.max(b, -b)) + c.k(Fr(2) ** (-140 if c.w == 32 else -1060))
    m = (a + b) / 2
    return [('approx is the middle up to rounding', c.And(c.le(m - tol, c.o(0)), c.le(c.o(0), m + tol))), ('approx is a member', c.And(c.fin(0), c.le(a, c.o(0)), c.le(c.o(0), b))),
            ('conversion to a number is approx', c.And(c.fin(1), c.eq(c.o(0), c.o(1))))]


def pre_approx(c):
    w = c.w
    h = c.k(FMT[w]['mx'] / 2)
    return [c.le(c.x[0], c.x[1]), c.le(-h, c.x[0]), c.le(c.x[1], h)]


def p_consts(c):
    w = c.x[0].w
    o = c.o
    mxv = FMT[w]['mx']
    inf = float('inf')
    exact = [(0, 'zero', 0), (2, 'one', 1), (4, 'two', None), (6, 'lowest', -mxv), (8, 'highest', mxv),
             (16, 'half', Fr(1, 2)), (30, 'min_positive_value', Fr(2) ** (-126 if w == 32 else -1022))]
    out = []
    for k, n, v in exact:
        if v is None:
            two = c.constf(2, w)
            out.append((n, z3.And(fle(o(k), two), fle(two, o(k + 1)))))
            continue
        out.append((n, z3.And(feq(o(k), c.constf(v, w)), feq(o(k + 1), c.constf(v, w)))))
    out.append(('infinity', z3.And(feq(o(10), c.const(inf, w)), feq(o(11), c.const(inf, w)))))
    out.append(('neg_infinity', z3.And(feq(o(12), c.const(-inf, w)), feq(o(13), c.const(-inf, w)))))
    out.append(('neg_zero', z3.And(iszero(o(14)), iszero(o(15)))))
    from domains import py_to_bits_exact, np_next, bits_to_py
    for k, n, v in ((18, 'pi', PI), (20, 'tau', 2 * PI), (22, 'pi/2', PI / 2), (24, 'pi/4', PI / 4)):
        b = py_to_bits_exact(v, w)
        lo, hi = (b, np_next(b, w, True)) if Fr(bits_to_py(b, w)) < v else (np_next(b, w, False), b)
        out.append((n + ' encloses', z3.And(fle(o(k), c.dom.const(lo, w)), fle(c.dom.const(hi, w), o(k + 1)))))
    out.append(('nan', z3.Or(isnan(o(32)), isnan(o(33)))))
    return out


def p_cls(c):
    a, b = c.x[:2]
    return [('is_nan', beq(c.flag(0), z3.Or(isnan(a), isnan(b)))),
            ('is_finite', beq(c.flag(1), z3.And(isfin(a), isfin(b)))),
            ('is_infinite', beq(c.flag(2), z3.And(isinf(a), isinf(b), feq(a, b))))]


def p_from(c):
    a, b, d = c.x[:3]
    return [('from a number', z3.And(feq(c.o(0), a), feq(c.o(1), a))),
            ('from a pair', z3.And(feq(c.o(2), b), feq(c.o(3), d)))]


def p_shift(up):
    def post(c):
        a, b, y = c.x[:3]
        out = []
        inf = c.const(float('inf') if up else float('-inf'), a.w)
        for k, e in ((0, a), (1, b)):
            o = c.o(k)
            l, h = (e, o) if up else (o, e)
            out.append(('end %d moves one step' % k, z3.And(z3.Not(z3.And(flt(l, y), flt(y, h))),
                                                            z3.If(feq(e, inf), feq(o, inf), flt(l, h)))))
        return out
    return post


def s4(rng):
    def one():
        return rng.choice([rng.uniform(-3, 3), float(rng.randint(-2, 2)), rng.uniform(-1, 1) * 10 ** rng.uniform(-9, 9)])
    return sorted([one(), one()]) + sorted([one(), one()])


def s3(rng):
    a = s4(rng)
    if rng.random() < .5:
        a[2] = a[0] + (a[1] - a[0]) * rng.random()
    return a


def obligations(tier):
    out = []
    pre2 = lambda c: ok(*c.x[:4])
    pre1 = lambda c: ok(*c.x[:2])
    for t in FT:
        def ob(name, fn, nin, post, pre, samp=s4, nout=2, **k):
            out.append(Ob('%s_%s' % (name, t), 'iv_%s_%s' % (fn, t), t, nin, post, pre=pre, dom='F', sample=samp,
                          nout=nout, timeout=100, **k))
        ob('union', 'union', 4, p_union, pre2)
        ob('intersect', 'isect', 4, p_isect, pre2, panic=disjoint)
        ob('max', 'max', 4, p_max, pre2)
        ob('min', 'min', 4, p_min, pre2)
        ob('abs', 'abs', 3, p_abs, pre1, s3)
        ob('queries', 'q1', 4, p_q1, lambda c: ok(*c.x[:2]) + [z3.Not(isnan(c.x[2])), z3.Not(isnan(c.x[3]))], s3, 1)
        ob('relations', 'q2', 4, p_q2, pre2, s4, 1)
        # doubling a float below MAX/2 is exact: 2*inf and 2*sup are representable
        out.append(Ob('approx_' + t, 'iv_approx_' + t, t, 2, p_approx, pre=pre_approx, dom='RR', nout=2,
                      sample=lambda r: s4(r)[:2], reps=lambda c: [2 * c.x[0], 2 * c.x[1]], opts=dict(coarse=False)))
        out.append(Ob('almost_' + t, 'iv_alm_' + t, t, 5, p_alm, dom='RR', nout=1,
                      pre=lambda c: [c.le(c.x[0], c.x[1]), c.le(c.x[2], c.x[3])],
                      sample=lambda r: s4(r) + [r.uniform(-3, 3)]))
        ob('constants', 'consts', 1, p_consts, None, None, 34)
        ob('class', 'cls', 2, p_cls, None, None, 1)
        ob('from', 'from', 3, p_from, lambda c: [z3.Not(isnan(c.x[0]))] + ok(c.x[1], c.x[2]), lambda r: [r.uniform(-3, 3)] + s4(r)[:2], 4)
        ob('next_up', 'nu', 3, p_shift(True), pre1, s3)
        ob('next_down', 'nd', 3, p_shift(False), pre1, s3)
    return out
