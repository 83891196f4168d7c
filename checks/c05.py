from lib import *

ASSUMPTIONS = ['IEEE-754 semantics of z3 FloatingPoint/BitVec theories']
BOUNDS = ['all bit patterns of u8..u64, i8..i64, f32, f64 (NaN operands excluded from the ordering laws)']


def sgn_lt(t):
    if t[0] == 'u':
        return z3.ULT, z3.ULE
    return (lambda a, b: a < b), (lambda a, b: a <= b)


def post_cmp_int(t):
    lt, le = sgn_lt(t)
    w = IW[t]

    def post(c):
        a, b, d = c.x[:3]
        o = [bv(c.o(k), w) for k in range(5)]
        return [('min', o[0] == z3.If(lt(a, b), a, b)), ('max', o[1] == z3.If(lt(a, b), b, a)),
                ('min_max first', o[2] == z3.If(lt(a, b), a, b)), ('min_max second', o[3] == z3.If(lt(a, b), b, a)),
                ('clamp', z3.Implies(le(b, d), o[4] == z3.If(lt(a, b), b, z3.If(lt(d, a), d, a)))),
                ('in_range', beq(c.flag(0), z3.And(le(b, a), le(a, d)))),
                ('is_zero', beq(c.flag(1), a == 0)), ('is_one', beq(c.flag(2), a == 1))]
    return post


def post_cmp_f(c):
    a, b, d = c.x[:3]
    o = [c.o(k) for k in range(5)]
    ok = z3.Not(z3.Or(isnan(a), isnan(b)))
    ok3 = z3.And(ok, z3.Not(isnan(d)))
    w = a.w

    def pick(o, lo):
        f = (lambda p, q: fle(p, q)) if lo else (lambda p, q: fle(q, p))
        return z3.Implies(ok, z3.And(z3.Or(feq(o, a), feq(o, b)), f(o, a), f(o, b)))
    return [('min', pick(o[0], True)), ('max', pick(o[1], False)), ('min_max first', pick(o[2], True)),
            ('min_max second', pick(o[3], False)),
            ('clamp', z3.Implies(z3.And(ok3, fle(b, d)),
                                 z3.And(z3.Implies(flt(a, b), feq(o[4], b)), z3.Implies(flt(d, a), feq(o[4], d)),
                                        z3.Implies(z3.And(fle(b, a), fle(a, d)), feq(o[4], a))))),
            ('in_range', beq(c.flag(0), z3.And(fle(b, a), fle(a, d)))),
            ('is_zero', beq(c.flag(1), iszero(a))),
            ('is_one', beq(c.flag(2), feq(a, c.const(1.0, w))))]


def post_const_int(t):
    w = IW[t]
    lo = 0 if t[0] == 'u' else -(1 << (w - 1))
    hi = (1 << w) - 1 if t[0] == 'u' else (1 << (w - 1)) - 1

    def post(c):
        return [(n, bv(c.o(k), w) == bv(v, w)) for k, (n, v) in
                enumerate([('zero', 0), ('one', 1), ('two', 2), ('lowest', lo), ('highest', hi)])]
    return post


def post_const_f(c):
    w = c.dom and c.x[0].w
    mx = FMT[w]['mx']
    return [(n, feq(c.o(k), c.constf(v, w))) for k, (n, v) in
            enumerate([('zero', 0), ('one', 1), ('two', 2), ('lowest', -mx), ('highest', mx)])]


def post_sgn_int(t):
    w = IW[t]

    def post(c):
        a = c.x[0]
        return [('signum', bv(c.o(0), w) == z3.If(a > 0, bv(1, w), z3.If(a < 0, bv(-1, w), bv(0, w)))),
                ('abs', bv(c.o(1), w) == z3.If(a < 0, -a, a)),
                ('is_positive', beq(c.flag(0), a > 0)), ('is_negative', beq(c.flag(1), a < 0)),
                ('is_nonpositive', beq(c.flag(2), a <= 0)), ('is_nonnegative', beq(c.flag(3), a >= 0))]
    return post


def post_sgn_f(c):
    a = c.x[0]
    w = a.w
    z, one, m1 = c.const(0.0, w), c.const(1.0, w), c.const(-1.0, w)
    pos, neg = flt(z, a), flt(a, z)
    s, ab = c.o(0), c.o(1)
    return [('signum', z3.Implies(z3.Not(isnan(a)), z3.If(pos, feq(s, one), z3.If(neg, feq(s, m1), feq(s, z))))),
            ('abs', z3.Implies(z3.Not(isnan(a)), z3.And(fle(z, ab), z3.fpEQ(ab.fp, z3.fpAbs(a.fp))))),
            ('is_positive', beq(c.flag(0), pos)), ('is_negative', beq(c.flag(1), neg)),
            ('is_nonpositive', beq(c.flag(2), fle(a, z))), ('is_nonnegative', beq(c.flag(3), fle(z, a)))]


def post_cls(c):
    a = c.x[0]
    return [('is_nan', beq(c.flag(0), isnan(a))), ('is_finite', beq(c.flag(1), isfin(a))),
            ('is_infinite', beq(c.flag(2), isinf(a)))]


def near(c, v, exact, w):
    return feq(v, c.constf(exact, w))


def post_gconst(c):
    w = c.x[0].w
    o = c.o
    f = FMT[w]
    mp = Fr(2) ** (-126 if w == 32 else -1022)
    out = [('nan', isnan(o(0))), ('infinity', feq(o(1), c.const(float('inf'), w))),
           ('neg_infinity', feq(o(2), c.const(float('-inf'), w))),
           ('neg_zero', c.bits(o(3)) == z3.BitVecVal(1 << (w - 1), w)),
           ('min_positive_value', near(c, o(4), mp, w)), ('half', near(c, o(5), Fr(1, 2), w)),
           ('pi', near(c, o(6), PI, w)), ('tau', near(c, o(7), 2 * PI, w)), ('pi/2', near(c, o(8), PI / 2, w)),
           ('pi/4', near(c, o(9), PI / 4, w)),
           ('abs_epsilon positive', z3.And(flt(c.const(0.0, w), o(10)), fle(o(10), c.const(1e-3, w)))),
           ('rel_epsilon positive', z3.And(flt(c.const(0.0, w), o(11)), fle(o(11), c.const(1e-3, w))))]
    for k, n, v in ((12, 'pi', PI), (14, 'tau', 2 * PI), (16, 'pi/2', PI / 2), (18, 'pi/4', PI / 4)):
        # lower and upper are the two floats that bracket the real constant
        from domains import py_to_bits_exact, np_next, bits_to_py
        b = py_to_bits_exact(v, w)
        if Fr(bits_to_py(b, w)) < v:
            lo, hi = b, np_next(b, w, True)
        else:
            lo, hi = np_next(b, w, False), b
        out.append((n + ' lower below', fle(o(k), c.dom.const(lo, w))))
        out.append((n + ' upper above', fle(c.dom.const(hi, w), o(k + 1))))
        out.append((n + ' lower tight', fle(c.dom.const(np_next(np_next(lo, w, False), w, False), w), o(k))))
        out.append((n + ' upper tight', fle(o(k + 1), c.dom.const(np_next(np_next(hi, w, True), w, True), w))))
    return out


def post_cast(c):
    x = c.x[0]
    d = c.dom
    i = d.to_int_sat(x, True, 64)
    f32v = z3.fpFPToFP(z3.RNE(), x.fp, z3.Float32())
    got32 = z3.fpBVToFP(z3.Extract(31, 0, c.fval(1)), z3.Float32())
    f64v = z3.fpFPToFP(z3.RNE(), x.fp, z3.Float64())
    return [('to_i64 truncates and saturates', c.fval(0) == i),
            ('to_f32', z3.Or(got32 == f32v, z3.And(z3.fpIsNaN(got32), z3.fpIsNaN(f32v)))),
            ('to_f64', z3.Or(c.o(0).fp == f64v, z3.And(isnan(c.o(0)), z3.fpIsNaN(f64v))))]


def post_conv(f):
    def post(c):
        e = f(c.x[0])
        return [('converted value', z3.Or(c.o(0).fp == e, z3.And(isnan(c.o(0)), z3.fpIsNaN(e))))]
    return post


def post_recip(c):
    e = z3.fpDiv(z3.RNE(), z3.FPVal(1.0, c.x[0].fp.sort()), c.x[0].fp)
    return [('recip', z3.Or(c.o(0).fp == e, z3.And(isnan(c.o(0)), z3.fpIsNaN(e))))]


def post_sq_f(c):
    e = z3.fpMul(z3.RNE(), c.x[0].fp, c.x[0].fp)
    return [('square', z3.Or(c.o(0).fp == e, z3.And(isnan(c.o(0)), z3.fpIsNaN(e))))]


def wide_sq(t):
    w = IW[t]
    e = z3.SignExt if t[0] == 'i' else z3.ZeroExt

    def post(c):
        x = e(w, c.x[0])
        return [('square', e(w, bv(c.o(0), w)) == x * x)]

    def panic(c):
        x = e(w, c.x[0])
        p = x * x
        return e(w, z3.Extract(w - 1, 0, p)) != p
    return post, panic


def obligations(tier):
    out = []
    for t in INTS:
        out.append(Ob('cmp_' + t, 'sc_cmp_' + t, t, 3, post_cmp_int(t), dom='I', nout=5,
                      panic=None, bound=''))
        out.append(Ob('const_' + t, 'sc_const_' + t, t, 1, post_const_int(t), dom='I', nout=5))
        if t[0] == 'i':
            mn = 1 << (IW[t] - 1)
            out.append(Ob('sign_' + t, 'sc_sgn_' + t, t, 1, post_sgn_int(t), dom='I', nout=2,
                          panic=lambda c, mn=mn: c.x[0] == mn))
    for t in ('u8', 'i16'):
        p, pan = wide_sq(t)
        out.append(Ob('square_' + t, 'sc_sq_' + t, t, 1, p, dom='I', nout=1, panic=pan))
    for t in FT:
        w = FT[t]
        S = z3.Float32() if w == 32 else z3.Float64()
        out.append(Ob('cmp_' + t, 'sc_cmp_' + t, t, 3, post_cmp_f, dom='F', nout=5))
        out.append(Ob('const_' + t, 'sc_const_' + t, t, 1, post_const_f, dom='F', nout=5))
        out.append(Ob('sign_' + t, 'sc_sgn_' + t, t, 1, post_sgn_f, dom='F', nout=2))
        out.append(Ob('class_' + t, 'gf_cls_' + t, t, 1, post_cls, dom='F', nout=1, nvalid=40))
        out.append(Ob('gconst_' + t, 'gf_const_' + t, t, 1, post_gconst, dom='F', nout=20))
        out.append(Ob('cast_' + t, 'gf_cast_' + t, t, 1, post_cast, tout='f64', dom='F', nout=1, nvalid=30))
        out.append(Ob('recip_' + t, 'gf_recip_' + t, t, 1, post_recip, dom='F', nout=1))
        out.append(Ob('square_' + t, 'sc_sq_' + t, t, 1, post_sq_f, dom='F', nout=1))
        out.append(Ob('from_i64_' + t, 'gf_fi_' + t, 'i64', 1, post_conv(lambda x, S=S: z3.fpSignedToFP(z3.RNE(), x, S)),
                      tout=t, dom='F', nout=1))
        for u in FT:
            out.append(Ob('from_%s_%s' % (u, t), 'gf_ff%s_%s' % (u[1:], t), u, 1,
                          post_conv(lambda x, S=S: z3.fpFPToFP(z3.RNE(), x.fp, S)), tout=t, dom='F', nout=1))
    return out
