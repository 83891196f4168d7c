"""Interval arithmetic: inclusion and tightness, for every pair of intervals with finite ends."""
from lib import *

BOUNDS = ['operands: every interval with finite endpoints (f32 and f64); ghosts: every pair of real members']
ASSUMPTIONS = ['IEEE-754 round-to-nearest axioms (|err| <= u|x| + eta/2, nearest, monotone, symmetric, overflow rule)',
               'next_up/next_down by their specification, which C02 decides bit-precisely on the code']
OUTSIDE = ['operands with infinite or NaN endpoints (documented in the code as not handled)']


# products and quotients of the ends read as unknowns first: the rounding facts about them are linear
LIN = [('lin', 0.3), ('default', 0.1), ('nlsat', 0.2), ('qfnra', 0.2), ('default', 0.2)]


def pre2(c):
    x = c.x
    return [c.le(x[0], x[1]), c.le(x[2], x[3]), c.le(x[0], c.g[0]), c.le(c.g[0], x[1]), c.le(x[2], c.g[1]),
            c.le(c.g[1], x[3])]


def pre1(c):
    x = c.x
    return [c.le(x[0], x[1]), c.le(x[0], c.g[0]), c.le(c.g[0], x[1])]


def gs2(xs, rng):
    f = lambda a, b: a if rng.random() < .3 else b if rng.random() < .4 else a + (b - a) * rng.random()
    return [f(xs[0], xs[1]), f(xs[2], xs[3])]


def gs1(xs, rng):
    f = lambda a, b: a if rng.random() < .3 else b if rng.random() < .4 else a + (b - a) * rng.random()
    return [f(xs[0], xs[1])]


def mag(rng):
    z = rng.random()
    if z < .5:
        return rng.uniform(-4, 4)
    if z < .7:
        return float(rng.randint(-3, 3))
    return rng.uniform(-1, 1) * 10 ** rng.uniform(-12, 12)


def s_iv(rng):
    a, b = mag(rng), mag(rng)
    if rng.random() < .15:
        b = a
    return sorted([a, b])


def sample2(rng):
    return s_iv(rng) + s_iv(rng)


def sample_s(rng):
    return s_iv(rng) + [mag(rng)]


def lo_ok(c, k, e):
    """lower bound output k is at most e (or -inf, never NaN or +inf)"""
    return c.Or(c.ninf(k), c.And(c.fin(k), c.le(c.o(k), e)))


def hi_ok(c, k, e):
    return c.Or(c.pinf(k), c.And(c.fin(k), c.le(e, c.o(k))))


def incl(f):
    def post(c):
        e = f(c)
        return [('lower bound encloses', lo_ok(c, 0, e)), ('upper bound encloses', hi_ok(c, 1, e))]
    return post


def tight(t, corners):
    """the result exceeds the hull of the corner values by at most a few ulps"""
    f = FMT[FT[t]]

    def post(c):
        cs = corners(c)
        lo, hi = c.min(*cs), c.max(*cs)
        sl = lambda v: c.k(16 * max(f['u'], Fr(1, 2 ** 50))) * c.abs(v) + c.k(Fr(1, 2 ** 140))
        top = c.k(2 ** 60)
        return [('lower bound tight', c.Implies(c.lt(c.abs(lo), top), c.And(c.fin(0), c.ge(c.o(0), lo - sl(lo))))),
                ('upper bound tight', c.Implies(c.lt(c.abs(hi), top), c.And(c.fin(1), c.le(c.o(1), hi + sl(hi)))))]
    return post


def both(*ps):
    return lambda c: [g for p in ps for g in p(c)]


def cr2(op):
    return lambda c: [op(c.x[i], c.x[j]) for i in (0, 1) for j in (2, 3)]


def crs(op):
    return lambda c: [op(c.x[i], c.x[2]) for i in (0, 1)]


def nozero(c):
    return [c.Or(c.lt(0, c.x[2]), c.lt(c.x[3], 0))]


def base2(c):
    return [c.le(c.x[0], c.x[1]), c.le(c.x[2], c.x[3])]


def base1(c):
    return [c.le(c.x[0], c.x[1])]


def corners(cs):
    """every corner value is enclosed; lemma mul_hull / div_hull extends this to all members"""
    def post(c):
        out = []
        for k, e in enumerate(cs(c)):
            out.append(('lower bound encloses corner %d' % k, lo_ok(c, 0, e)))
            out.append(('upper bound encloses corner %d' % k, hi_ok(c, 1, e)))
        return out
    return post


def div_post(num, den):
    def post(c):
        out = []
        for k, (a, b) in enumerate([(a, b) for a in num(c) for b in den(c)]):
            # b is not zero
            out.append(('lower bound encloses corner %d' % k,
                        c.alt(c.Or(c.ninf(0), c.And(c.fin(0), divle(c, c.o(0), a, b))), lambda: lo_ok(c, 0, a / b))))
            out.append(('upper bound encloses corner %d' % k,
                        c.alt(c.Or(c.pinf(1), c.And(c.fin(1), divle2(c, a, b, c.o(1)))), lambda: hi_ok(c, 1, a / b))))
        return out
    return post


def contains_zero(lo, hi):
    """a divisor that may be zero: the result is the whole line"""
    def post(c):
        z = c.And(c.le(lo(c), 0), c.le(0, hi(c)))
        return [('divisor containing zero gives the whole line', c.And(c.ninf(0), c.pinf(1)))] if z is not False else []
    return post


def lem_mul():
    a, b, p, d, e, q = z3.Reals('a b p d e q')
    mn = lambda *t: t[0] if len(t) == 1 else z3.If(t[0] <= mn(*t[1:]), t[0], mn(*t[1:]))
    mx = lambda *t: t[0] if len(t) == 1 else z3.If(t[0] >= mx(*t[1:]), t[0], mx(*t[1:]))
    L, U = z3.Reals('L U')
    hyp = [a <= p, p <= b, d <= q, q <= e] + [z3.And(L <= x * y, x * y <= U) for x in (a, b) for y in (d, e)]
    return hyp, z3.And(L <= p * q, p * q <= U)


def lem_div():
    a, b, p, d, e, q, L, U = z3.Reals('a b p d e q L U')
    # divisors of one sign: 1/q lies between 1/e and 1/d, then the product lemma applies
    r, rd, re = z3.Reals('r rd re')
    return [z3.Or(d > 0, e < 0), d <= q, q <= e, r * q == 1, rd * d == 1, re * e == 1], z3.And(re <= r, r <= rd)


def obligations(tier):
    out = [Lemma('lemma_mul_hull', lem_mul), Lemma('lemma_recip_hull', lem_div)]
    add, sub, mul, div = (lambda a, b: a + b), (lambda a, b: a - b), (lambda a, b: a * b), (lambda a, b: a / b)
    for t in FT:
        def ob(name, fn, nin, post, pre, samp, gh=0, gs=None, **k):
            out.append(Ob('%s_%s' % (name, t), 'iv_%s_%s' % (fn, t), t, nin, post, pre=pre, dom='RR', ghosts=gh,
                          gsample=gs, sample=samp, nout=2, timeout=60, **k))
        def ob2(nm, *a, **k):
            ob(*a, **k)

        for nm, fn, op in (('add', 'add', add), ('sub', 'sub', sub), ('add_assign', 'adda', add),
                           ('sub_assign', 'suba', sub)):
            ob(nm, fn, 4, incl(lambda c, op=op: op(c.g[0], c.g[1])), pre2, sample2, 2, gs2)
            ob2(nm, nm + '_tight', fn, 4, tight(t, cr2(op)), base2, sample2)
        for nm, fn in (('mul', 'mul'), ('mul_assign', 'mula')):
            ob(nm, fn, 4, corners(cr2(mul)), base2, sample2, prio=5, opts=dict(plan=LIN))
            ob2(nm, nm + '_tight', fn, 4, tight(t, cr2(mul)), base2, sample2, prio=5, opts=dict(plan=LIN))
        for nm, fn in (('div', 'div'), ('div_assign', 'diva')):
            ob(nm, fn, 4, div_post(lambda c: c.x[:2], lambda c: c.x[2:4]), lambda c: base2(c) + nozero(c), sample2,
               prio=5)
            ob2(nm, nm + '_tight', fn, 4, tight(t, cr2(div)), lambda c: base2(c) + nozero(c), sample2, prio=5, opts=dict(plan=LIN))
            ob(nm + '_zero', fn, 4, contains_zero(lambda c: c.x[2], lambda c: c.x[3]),
               lambda c: base2(c) + [c.le(c.x[2], 0), c.le(0, c.x[3])],
               lambda rng: s_iv(rng) + [-abs(mag(rng)), abs(mag(rng))])
        for nm, fn, op in (('add_scalar', 'adds', add), ('sub_scalar', 'subs', sub), ('mul_scalar', 'muls', mul),
                           ('mul_scalar_assign', 'mulsa', mul)):
            ob(nm, fn, 3, incl(lambda c, op=op: op(c.g[0], c.x[2])), pre1, sample_s, 1, gs1)
            ob2(nm, nm + '_tight', fn, 3, tight(t, crs(op)), base1, sample_s)
        for nm, fn in (('div_scalar', 'divs'), ('div_scalar_assign', 'divsa')):
            nz = lambda c: base1(c) + [c.Not(c.eq(c.x[2], 0))]
            ob(nm, fn, 3, div_post(lambda c: c.x[:2], lambda c: c.x[2:3]), nz, sample_s)
            ob2(nm, nm + '_tight', fn, 3, tight(t, crs(div)), nz, sample_s)
            ob(nm + '_zero', fn, 2, contains_zero(lambda c: c.k(0), lambda c: c.k(0)), base1, s_iv)
        ob('neg', 'neg', 2, lambda c: [('exact', c.And(c.fin(0, 1), c.eq(c.o(0), -c.x[1]), c.eq(c.o(1), -c.x[0])))],
           base1, s_iv)
        for nm, fn in (('square', 'square'), ('scalar_square', 'squares')):
            ob(nm, fn, 2, incl(lambda c: c.g[0] * c.g[0]), pre1, s_iv, 1, gs1)
            ob2(nm, nm + '_tight', fn, 2, tight(t, lambda c: [c.x[0] * c.x[0], c.x[1] * c.x[1]] + [
                c.If(c.And(c.le(c.x[0], 0), c.le(0, c.x[1])), c.k(0), c.x[0] * c.x[0])]), base1, s_iv)
        for nm, fn in (('sqrt', 'sqrt'), ('gfloat_sqrt', 'gsqrt')):
            # a real s >= 0 whose square lies in the operand
            ob(nm, fn, 2, incl(lambda c: c.g[0]),
               lambda c: [c.le(0, c.x[0]), c.le(c.x[0], c.x[1]), c.le(0, c.g[0]), c.le(c.x[0], c.g[0] * c.g[0]),
                          c.le(c.g[0] * c.g[0], c.x[1])], lambda rng: sorted(abs(v) for v in s_iv(rng)), 1,
               lambda xs, rng: [mpsqrt(xs[0] + (xs[1] - xs[0]) * rng.random())])
            ob2(nm, nm + '_tight', fn, 2, tight(t, lambda c: [c.sqrt(c.x[0]), c.sqrt(c.x[1])]),
               lambda c: [c.le(0, c.x[0]), c.le(c.x[0], c.x[1])], lambda rng: sorted(abs(v) for v in s_iv(rng)))
        nz1 = lambda c: base1(c) + [c.Or(c.lt(0, c.x[0]), c.lt(c.x[1], 0))]
        ob('recip', 'recip', 2, div_post(lambda c: [c.k(1)], lambda c: c.x[:2]), nz1, s_iv)
        ob('recip_tight', 'recip', 2, tight(t, lambda c: [1 / c.x[0], 1 / c.x[1]]), nz1, s_iv)
        ob('extend_by_ulp', 'ext', 2, incl(lambda c: c.g[0]), pre1, s_iv, 1, gs1)
    return out


def mpsqrt(v):
    import mpmath
    return mpmath.sqrt(v)


def divle(c, l, a, b):
    """l <= a/b without division (b != 0)"""
    return c.Or(c.And(c.lt(0, b), c.le(l * b, a)), c.And(c.lt(b, 0), c.ge(l * b, a)))


def divle2(c, a, b, u):
    """a/b <= u"""
    return c.Or(c.And(c.lt(0, b), c.le(a, u * b)), c.And(c.lt(b, 0), c.ge(a, u * b)))
