"""Bounding box algebra."""
from lib import *

BOUNDS = ['box algebra: every non-NaN f32 coordinate (bit-precise), boxes ordered or not; centre, diagonal and extents: '
          'exact reals']
ASSUMPTIONS = ['centre/diagonal/extent: float arithmetic read as exact real arithmetic']
OUTSIDE = ['NaN coordinates', 'rounding of centre and diagonal']


def nonan(n):
    return lambda c: [z3.Not(isnan(v)) for v in c.x[:n]]


def fmin(a, b):
    return z3.If(flt(a, b), a.fp, b.fp)


def le(a, b):
    return z3.fpLEQ(a, b)


def post_new(c):
    out = []
    for k in range(3):
        a, b = c.x[k], c.x[3 + k]
        lo, hi = c.o(k), c.o(3 + k)
        out.append(('min[%d]' % k, z3.fpEQ(lo.fp, z3.If(fle(a, b), a.fp, b.fp))))
        out.append(('max[%d]' % k, z3.fpEQ(hi.fp, z3.If(fle(a, b), b.fp, a.fp))))
    out += [('contains the first corner', beq(c.flag(0), True)), ('contains the second corner', beq(c.flag(1), True))]
    return out


def lohi(c, k):
    return c.x[k:k + 3], c.x[k + 3:k + 6]


def mn(a, b):
    return z3.If(fle(a, b), a.fp, b.fp)


def mx(a, b):
    return z3.If(fle(a, b), b.fp, a.fp)


def post_pair(c):
    (al, ah), (bl, bh) = lohi(c, 0), lohi(c, 6)
    out = []
    for k in range(3):
        for nm, off in (('union', 0), ('+', 12), ('+=', 18)):
            out.append(('%s min[%d]' % (nm, k), z3.fpEQ(c.o(off + k).fp, mn(al[k], bl[k]))))
            out.append(('%s max[%d]' % (nm, k), z3.fpEQ(c.o(off + 3 + k).fp, mx(ah[k], bh[k]))))
        out.append(('intersect min[%d]' % k, z3.fpEQ(c.o(6 + k).fp, mx(al[k], bl[k]))))
        out.append(('intersect max[%d]' % k, z3.fpEQ(c.o(9 + k).fp, mn(ah[k], bh[k]))))
    ov = z3.And(*[z3.And(flt(bl[k], ah[k]), flt(al[k], bh[k])) for k in range(3)])
    return out + [('overlaps', beq(c.flag(0), ov)), ('overlaps is symmetric', beq(c.flag(1), ov))]


def ins(q, l, h):
    return z3.And(*[z3.And(fle(l[k], q[k]), fle(q[k], h[k])) for k in range(3)])


def post_point(c):
    (al, ah), (bl, bh) = lohi(c, 0), lohi(c, 6)
    q = c.x[12:15]
    ia, ib = ins(q, al, ah), ins(q, bl, bh)
    return [('inside is the closed box', z3.And(beq(c.flag(0), ia), beq(c.flag(1), ib))),
            ('union contains both', z3.Implies(z3.Or(ia, ib), c.flag(2))),
            ('intersection is the common part', beq(c.flag(3), z3.And(ia, ib)))]


def post_default(c):
    al, ah = lohi(c, 0)
    out = [('an empty box contains nothing', beq(c.flag(0), False))]
    for k in range(3):
        out.append(('empty union a min[%d]' % k, z3.And(feq(c.o(k), al[k]), feq(c.o(6 + k), al[k]))))
        out.append(('empty union a max[%d]' % k, z3.And(feq(c.o(3 + k), ah[k]), feq(c.o(9 + k), ah[k]))))
    return out


def pre_default(c):
    return [isfin(v) for v in c.x[:9]]


def post_shape(c):
    l, h = c.x[:3], c.x[3:6]
    e = [h[k] - l[k] for k in range(3)]
    out = []
    for k in range(3):
        out += [('diagonal[%d]' % k, c.eq(c.o(k), e[k])), ('center[%d]' % k, c.eq(c.o(3 + k) * 2, l[k] + h[k])),
                ('bbox of a box is itself', c.And(c.eq(c.o(8 + k), l[k]), c.eq(c.o(11 + k), h[k]))),
                ('bounds[%d]' % k, c.And(c.eq(c.o(14 + k), l[k]), c.eq(c.o(17 + k), h[k])))]
    f = c.fval(0)
    is_ = lambda k: (f == k) if isinstance(f, int) else simp_bool(f == z3.BitVecVal(k, 64))
    m = c.max(*e)
    for k in range(3):
        out.append(('max_extent axis %d' % k, c.Implies(is_(k), c.And(c.ge(e[k], m), c.eq(c.o(6), l[k]),
                                                                       c.eq(c.o(7), h[k])))))
    out.append(('max_extent axis is 0, 1 or 2', c.Or(*[is_(k) for k in range(3)])))
    return out


def obligations(tier):
    return [
        Ob('new', 'bb_new_f32', 'f32', 6, post_new, pre=nonan(6), dom='F', nout=6, opts=dict(diamond=True)),
        Ob('pair', 'bb_pair_f32', 'f32', 12, post_pair, pre=nonan(12), dom='F', nout=24, opts=dict(diamond=True)),
        Ob('point', 'bb_point_f32', 'f32', 15, post_point, pre=nonan(15), dom='F', nout=1, opts=dict(diamond=True)),
        Ob('empty', 'bb_default_f32', 'f32', 9, post_default, pre=pre_default, dom='F', nout=12),
        Ob('shape', 'bb_shape_f32', 'f32', 6, post_shape, nout=20),
    ]
