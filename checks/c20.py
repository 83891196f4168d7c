"""Lists of primitives."""
from lib import *

BOUNDS = ['lists of 0 to 6 primitives (7 in the thorough run) of arbitrary behaviour: each is met by the ray at an '
          'arbitrary parameter or not at all (tmax infinite included), reports only hits within tmax, and has an arbitrary box']
ASSUMPTIONS = ['primitives honour tmax (Bbox3, Sphere: properties C16-C18)']
OUTSIDE = ['longer lists', 'NaN and infinite hit parameters', 'which of several equally distant hits is reported']
# the branches inside a member are merged
MERGE = dict(merge_all='4Mock')


def mk(n):
    K = 8 * n

    def pre(c):
        return [isfin(v) for v in c.x[:K + 6]] + [z3.Not(z3.fpIsNaN(c.x[K + 6].fp))] + [z3.fpGEQ(c.x[8 * k + 1].fp, z3.FPVal(0, c.x[0].fp.sort())) for k in range(n)] + \
            [fle(c.x[8 * k + 2 + j], c.x[8 * k + 5 + j]) for k in range(n) for j in range(3)]

    def met(c, k):
        z = z3.FPVal(0, c.x[0].fp.sort())
        return z3.And(z3.fpGT(c.x[8 * k].fp, z), fle(c.x[8 * k + 1], c.x[K + 6]))

    def post(c):
        m = [met(c, k) for k in range(n)]
        anyb = z3.Or(*m) if m else z3.BoolVal(False)
        out = [('a hit is reported exactly when some primitive is hit', beq(c.flag(0), anyb))]
        if c.flag(0) is False:
            return out
        hit = c.flag(0)
        hit = z3.BoolVal(hit) if isinstance(hit, bool) else hit if z3.is_bool(hit) else hit != 0
        H = lambda g: z3.Implies(hit, g)
        o = [c.o(k) for k in range(15)]
        rx, ry, rz, dx, dy, dz = c.x[K:K + 6]
        for k in range(n):
            out.append(('no hit of primitive %d is nearer' % k, H(z3.Implies(m[k], fle(o[0], c.x[8 * k + 1])))))
        out.append(('the result is that of the primitive at this distance', H(z3.Or(*[
            z3.And(m[k], feq(o[0], c.x[8 * k + 1]), feq(o[12], o[0]), *[z3.fpEQ(o[j].fp, z3.FPVal(k, o[1].fp.sort())) for j in (1, 6, 7, 10, 14)])
            for k in range(n)]))))
        out.append(('primitives see the given ray, and what they report is kept', H(z3.And(*[feq(o[j], v) for j, v in (
            (2, rx), (3, dx), (4, ry), (5, rz), (8, dy), (9, dz), (11, rx), (13, ry))]))))
        return out

    def posta(c):
        m = [met(c, k) for k in range(n)]
        return [('do_intersect reports whether some primitive is hit', beq(c.flag(0), z3.Or(*m) if m else z3.BoolVal(False)))]

    def postb(c):
        out = []
        for j in range(3):
            lo, hi = c.o(j), c.o(3 + j)
            for k in range(n):
                out.append(('covers box %d axis %d' % (k, j), z3.And(fle(lo, c.x[8 * k + 2 + j]), fle(c.x[8 * k + 5 + j], hi))))
            if n:
                out.append(('smallest such box axis %d' % j, z3.And(z3.Or(*[feq(lo, c.x[8 * k + 2 + j]) for k in range(n)]),
                                                                    z3.Or(*[feq(hi, c.x[8 * k + 5 + j]) for k in range(n)]))))
            else:
                out.append(('empty axis %d' % j, z3.fpLT(hi.fp, lo.fp)))
        return out
    return pre, post, posta, postb


def obligations(tier):
    out = []
    for n in range(8):
        pre, post, posta, postb = mk(n)

        def sample(rng, n=n):
            v = []
            for _ in range(n):
                a = [rng.uniform(-3, 3) for _ in range(3)]
                v += [rng.choice([1., 0., 1.]), rng.choice([0., 1., rng.uniform(0, 9)])] + a + [t + rng.uniform(0, 2) for t in a]
            return v + [rng.uniform(-3, 3) for _ in range(6)] + [rng.choice([rng.uniform(0, 9), float('inf')])]
        t = 'quick' if n < 7 else 'thorough'
        out.append(Ob('hit%d' % n, 'pl_hit%d_f32' % n, 'f32', 8 * n + 7, post, pre=pre, dom='F', nout=15, sample=sample, tier=t, wall=120, opts=MERGE))
        out.append(Ob('any%d' % n, 'pl_any%d_f32' % n, 'f32', 8 * n + 7, posta, pre=pre, dom='F', nout=1, sample=sample, tier=t, wall=120))
        out.append(Ob('bbox%d' % n, 'pl_bbox%d_f32' % n, 'f32', 8 * n + 7, postb, pre=pre, dom='F', nout=6, sample=sample, tier=t, wall=120))
    return out
