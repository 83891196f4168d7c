from lib import *
import c03
import c07
import c08
import c10

BOUNDS = ['all bit patterns; the tolerance law covers all finite operands']
ASSUMPTIONS = ['tolerance law: IEEE rounding axioms (error at most half an ulp)']


def post_int(c):
    a, b = c.x[:2]
    return [('almost_eq is equality', beq(c.flag(0), a == b)), ('symmetric', beq(c.flag(1), a == b))]


def post_f(c):
    a, b = c.x[:2]
    fin = z3.And(isfin(a), isfin(b))
    return [('symmetric on non-finite values', z3.Implies(z3.Not(fin), beq(c.flag(0), c.flag(1)))),
            ('reflexive on finite values', z3.Implies(z3.And(fin, feq(a, b)), c.flag(0))),
            ('NaN is almost equal to nothing', z3.Implies(z3.Or(isnan(a), isnan(b)), z3.Not(c.flag(0))))]


def post_tol(t):
    # documented tolerances: absolute 1e-6, relative 1e-4 (f32) / 1e-6 (f64)
    ae, re = (Fr(1, 10 ** 6), Fr(1, 10 ** 4)) if t == 'f32' else (Fr(1, 10 ** 6), Fr(1, 10 ** 6))

    def post(c):
        a, b = c.x[:2]
        d = c.abs(a - b)
        m = c.max(c.abs(a), c.abs(b))
        s = Fr(1, 2 ** 20) if t == 'f32' else Fr(1, 2 ** 49)  # rounding of the comparison itself
        near = c.Or(c.le(d, c.k(ae * (1 - s))), c.le(d, c.k(re * (1 - s)) * m))
        far = c.And(c.lt(c.k(ae * (1 + s)), d), c.lt(c.k(re * (1 + s)) * m, d))
        return [('values within the tolerance are almost equal', c.Implies(near, c.flag(0))),
                ('values beyond the tolerance are not', c.Implies(far, c.Not(c.flag(0)))),
                ('symmetric', c.Iff(c.flag(0), c.flag(1)))]
    return post


def pre_tol(t):
    def pre(c):
        # the difference does not overflow
        h = c.k(FMT[FT[t]]['mx'] / 2)
        return [c.le(c.abs(v), h) for v in c.x[:2]]
    return pre


def obligations(tier):
    out = []
    for t in INTS:
        out.append(Ob('int_' + t, 'sc_alm_' + t, t, 2, post_int, dom='I', nout=1))
    for t in FT:
        out.append(Ob('laws_' + t, 'sc_alm_' + t, t, 2, post_f, dom='F', nout=1))
        out.append(Ob('tolerance_' + t, 'sc_alm_' + t, t, 2, post_tol(t), pre=pre_tol(t), dom='RR', nout=1,
                      opts=dict(next_spec=True)))
    # aggregates compare part by part
    for m in (c03, c07, c08, c10):
        for o in m.obligations(tier):
            if o.name.startswith(('almost_', 'cmp_v', 'cmp_p', 'cmp_n')):
                post = o.post
                o.post = lambda c, post=post: [g for g in post(c) if 'almost' in g[0]]
                o.name = '%s_%s' % ({c03: 'interval', c07: 'vector', c08: 'matrix', c10: 'transform'}[m], o.name)
                out.append(o)
    return out
