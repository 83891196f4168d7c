from lib import *

ASSUMPTIONS = ['IEEE-754 semantics of z3 FloatingPoint/BitVec theories', 'rustc lowers the source faithfully to LLVM IR']
BOUNDS = ['all 2^32 / 2^64 bit patterns of f32 / f64, no bound']


def post_next(c):
    x, y = c.x[0], c.x[1]
    up, dn = c.o(0), c.o(1)
    w = x.w
    inf, ninf = c.const(float('inf'), w), c.const(float('-inf'), w)
    return [
        ('next_up of NaN is NaN', z3.Implies(isnan(x), isnan(up))),
        ('next_down of NaN is NaN', z3.Implies(isnan(x), isnan(dn))),
        ('next_up fixes +inf', z3.Implies(feq(x, inf), feq(up, inf))),
        ('next_down fixes -inf', z3.Implies(feq(x, ninf), feq(dn, ninf))),
        ('next_up is greater', z3.Implies(z3.Not(z3.Or(isnan(x), feq(x, inf))), flt(x, up))),
        ('next_down is smaller', z3.Implies(z3.Not(z3.Or(isnan(x), feq(x, ninf))), flt(dn, x))),
        ('nothing between x and next_up', z3.Not(z3.And(flt(x, y), flt(y, up)))),
        ('nothing between next_down and x', z3.Not(z3.And(flt(dn, y), flt(y, x)))),
    ]


def post_inv(c):
    x, a, b = c.x[0], c.o(0), c.o(1)
    w = x.w
    fin = isfin(x)
    return [('next_down undoes next_up', z3.Implies(fin, feq(a, x))),
            ('next_up undoes next_down', z3.Implies(fin, feq(b, x)))]


def obligations(tier):
    out = []
    for t in FT:
        out.append(Ob('next_' + t, 'gf_next_' + t, t, 2, post_next, dom='F', nout=2, nvalid=40))
        out.append(Ob('inverse_' + t, 'gf_nextinv_' + t, t, 1, post_inv, dom='F', nout=2, nvalid=40))
    return out
