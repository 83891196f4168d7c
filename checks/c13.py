"""Interval coordinates through transforms and rays."""
from lib import *
from mat import *
import c01

BOUNDS = ['every affine matrix pair, every box of interval coordinates with finite ends']
ASSUMPTIONS = ['exact part: float arithmetic read as exact real arithmetic, next_up/next_down as the identity; rounding part: '
               'IEEE round-to-nearest axioms, next_up/next_down by their specification (C02), one matrix row free at a '
               'time']
OUTSIDE = ['infinite or NaN endpoints']


def prod(c, m, k):
    """hull of m * [x[k], x[k+1]]"""
    a, b = m * c.x[k], m * c.x[k + 1]
    return c.min(a, b), c.max(a, b)


def ordered(*ks):
    return lambda c: [c.Not(c.lt(c.x[k + 1], c.x[k])) for k in ks]


def samp(n, *ks):
    def s(rng):
        xs = [rng.choice([rng.uniform(-3, 3), float(rng.randint(-2, 2))]) for _ in range(n)]
        for k in ks:
            xs[k], xs[k + 1] = sorted((xs[k], xs[k + 1]))
        return xs
    return s


def hull(c, co, ks, add=None):
    lo = hi = 0
    for m, k in zip(co, ks):
        a, b = prod(c, m, k)
        lo, hi = lo + a, hi + b
    return (lo, hi) if add is None else (lo + add, hi + add)


def rows(c, k, inv, kind):
    m = [c.x[k + 4 * r:k + 4 * r + 4] for r in range(3)]
    i = [c.x[inv + 4 * r:inv + 4 * r + 4] for r in range(3)]
    ks = (24, 26, 28)
    if kind == 'nor':
        return [hull(c, [i[j][r] for j in range(3)], ks) for r in range(3)]
    return [hull(c, m[r][:3], ks, m[r][3] if kind == 'pt' else None) for r in range(3)]


def full(kind):
    def post(c):
        out = []
        for nm, off, k, inv in (('', 0, 0, 12), ('inverse ', 6, 12, 0)):
            for r, (lo, hi) in enumerate(rows(c, k, inv, kind)):
                out += [('%shull[%d] lower end' % (nm, r), c.eq(c.o(off + 2 * r), lo)),
                        ('%shull[%d] upper end' % (nm, r), c.eq(c.o(off + 2 * r + 1), hi))]
        return out
    return post


def ray(c):
    m = [c.x[4 * r:4 * r + 4] for r in range(3)]
    out = [('tmax is kept', c.And(c.eq(c.o(12), c.x[36]), c.eq(c.o(13), c.x[37])))]
    for r in range(3):
        a, b = hull(c, m[r][:3], (24, 26, 28), m[r][3])
        d, e = hull(c, m[r][:3], (30, 32, 34))
        for nm, k, v in (('origin lower', 2 * r, a), ('origin upper', 2 * r + 1, b), ('direction lower', 6 + 2 * r, d),
                         ('direction upper', 7 + 2 * r, e)):
            out.append(('%s[%d]' % (nm, r), c.eq(c.o(k), v)))
    return out


def evalp(c):
    out = []
    for r in range(3):
        p = [c.x[6 + 2 * r + a] * c.x[12 + b] for a in (0, 1) for b in (0, 1)]
        out += [('point at t, lower end[%d]' % r, c.eq(c.o(2 * r), c.x[2 * r] + c.min(*p))),
                ('point at t, upper end[%d]' % r, c.eq(c.o(2 * r + 1), c.x[2 * r + 1] + c.max(*p)))]
    return out


def rnd(kind, r):
    def post(c):
        lo, hi = hull(c, c.x[:3], (4, 6, 8), c.x[3] if kind == 'pt' else None)
        return [('encloses, lower end', c01.lo_ok(c, 2 * r, lo)), ('encloses, upper end', c01.hi_ok(c, 2 * r + 1, hi))]
    return post


def pre_rnd(c):
    # the last entries are facts about products of ordered numbers, spelt out for the solver
    return (ordered(4, 6, 8)(c) + [c.And(c.Not(c.lt(v, -2 ** 20)), c.Not(c.lt(2 ** 20, v))) for v in c.x[:10]] +
            [f for j in range(3) for m, a, b in [(c.x[j], c.x[4 + 2 * j], c.x[5 + 2 * j])]
             for f in (c.Implies(c.Not(c.lt(m, 0)), c.Not(c.lt(m * b, m * a))),
                       c.Implies(c.Not(c.lt(0, m)), c.Not(c.lt(m * a, m * b))))] +
            [c.And(c.Not(c.lt(p, -2 ** 40)), c.Not(c.lt(2 ** 40, p))) for j in range(3)
             for p in (c.x[j] * c.x[4 + 2 * j], c.x[j] * c.x[5 + 2 * j])])


def conv(c):
    out = []
    for k in range(3):
        out += [('a number becomes the interval of itself[%d]' % k,
                 c.And(c.fin(3 + 2 * k, 4 + 2 * k), c.eq(c.o(3 + 2 * k), c.x[6 + k]), c.eq(c.o(4 + 2 * k), c.x[6 + k]))),
                ('an interval becomes a member[%d]' % k,
                 c.And(c.fin(k), c.le(c.x[2 * k], c.o(k)), c.le(c.o(k), c.x[2 * k + 1])))]
    return out


def pre_conv(c):
    h = c.k(FMT[c.w]['mx'] / 2)
    return [p for k in range(0, 6, 2) for p in (c.le(c.x[k], c.x[k + 1]), c.le(-h, c.x[k]), c.le(c.x[k + 1], h))]


def obligations(tier):
    out = []
    for t in FT:
        # coordinates times (or over) a number, one component at a time
        mul, div = (lambda a, b: a * b), (lambda a, b: a / b)
        nz = lambda c: c01.base1(c) + [c.Not(c.eq(c.x[2], 0))]
        for k in range(3):
            for nm, fn, post, pre in (
                    ('scaled', 'mul', c01.incl(lambda c: c.g[0] * c.x[2]), c01.pre1),
                    ('scaled_tight', 'mul', c01.tight(t, c01.crs(mul)), c01.base1),
                    ('divided', 'div', c01.div_post(lambda c: c.x[:2], lambda c: c.x[2:3]), nz),
                    ('divided_tight', 'div', c01.tight(t, c01.crs(div)), nz)):
                g = nm == 'scaled'
                out.append(Ob('%s%d_%s' % (nm, k, t), 'ivs_%s%d_%s' % (fn, k, t), t, 3, post, pre=pre, dom='RR',
                              ghosts=int(g), gsample=c01.gs1 if g else None, sample=c01.sample_s, nout=2, timeout=60))
        out.append(Ob('converted_%s' % t, 'ivs_conv_%s' % t, t, 9, conv, pre=pre_conv, dom='RR', sample=samp(9, 0, 2, 4),
                      nout=9, reps=lambda c: [2 * v for v in c.x[:6]], opts=dict(coarse=False)))
    for t in FT:
        ord1 = ordered(24, 26, 28)
        for kind, nm in (('vec', 'vector'), ('pt', 'point'), ('nor', 'normal')):
            out.append(Ob('%s_%s' % (nm, t), 'ivt_%s_%s' % (kind, t), t, 30, full(kind), pre=ord1,
                          sample=samp(30, 24, 26, 28), nout=12, opts=OPT))
        out.append(Ob('ray_%s' % t, 'ivt_ray_%s' % t, t, 38, ray, pre=ordered(24, 26, 28, 30, 32, 34, 36),
                      sample=samp(38, 24, 26, 28, 30, 32, 34, 36), nout=14, opts=OPT))
        out.append(Ob('eval_%s' % t, 'ivt_eval_%s' % t, t, 14, evalp, pre=ordered(*range(0, 14, 2)),
                      sample=samp(14, *range(0, 14, 2)), nout=6, opts=OPT))
    for kind, nm in (('vec', 'vector'), ('pt', 'point'), ('nor', 'normal')):
        for r in range(3):
            out.append(Ob('rounding_%s_row%d' % (nm, r), 'ivr_%s%d_f32' % (kind, r), 'f32', 10, rnd(kind, r), dom='RR',
                          pre=pre_rnd, opts=dict(merge_all='8interval', linear='only', plan=[('lin', .2), ('default', .3), ('nlsat', .5)]), sample=samp(10, 4, 6, 8), nout=6, timeout=60))
    return out


OPT = dict(next_spec=True, merge_all='8interval')
