"""Exact normaliser for identities between rational expressions with square-root and
sine/cosine variables.  residual(a - b) == 0 means a and b are equal wherever every
denominator is non-zero and every square root is real."""
from fractions import Fraction

import z3
from sympy import QQ
from sympy.polys.rings import ring as mkring


class NoNormal(Exception):
    pass


def collect(ts):
    seen, order = {}, []
    st = list(ts)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            order.append(x)
        else:
            st.extend(x.children())
    return order


class Ring:
    def __init__(self, terms, rules, cap=200000):
        """rules: list of (var, term) meaning var^2 = term, in creation order."""
        self.cap = cap
        need = {v.get_id(): v for v in collect(terms)}
        self.rules = []
        changed = True
        while changed:
            changed = False
            for v, t in rules:
                if v.get_id() in need and not any(v.eq(r[0]) for r in self.rules):
                    self.rules.append((v, t))
                    for u in collect([t]):
                        need.setdefault(u.get_id(), u)
                    changed = True
        pos = {v.get_id(): k for k, (v, t) in enumerate(rules)}
        self.rules.sort(key=lambda r: pos[r[0].get_id()], reverse=True)   # latest first
        self.vars = list(need.values())
        names = ['v%d' % k for k in range(len(self.vars))]
        r = mkring(names or ['dummy'], QQ)
        self.R = r[0]
        self.gens = {v.get_id(): g for v, g in zip(self.vars, r[1:])}
        self.idx = {v.get_id(): k for k, v in enumerate(self.vars)}
        self.memo = {}
        self.dens = []
        self.rule_rf = []
        for v, t in self.rules:
            self.rule_rf.append((self.idx[v.get_id()], self.ev(t)))

    # rational function: (num poly, {den index: power})
    def const(self, fr):
        return (self.R(QQ(fr.numerator, fr.denominator)), {})

    def den_index(self, p):
        lc = p.LC
        q = p.mul_ground(1 / lc)
        for k, d in enumerate(self.dens):
            if d == q:
                return k, lc
        self.dens.append(q)
        return len(self.dens) - 1, lc

    def dpoly(self, d):
        r = self.R(1)
        for k, e in d.items():
            for _ in range(e):
                r = r * self.dens[k]
        return r

    def add(self, a, b):
        (na, da), (nb, db) = a, b
        if da == db:
            return (na + nb, da)
        d = dict(da)
        for k, e in db.items():
            d[k] = max(d.get(k, 0), e)
        ma = {k: e - da.get(k, 0) for k, e in d.items() if e > da.get(k, 0)}
        mb = {k: e - db.get(k, 0) for k, e in d.items() if e > db.get(k, 0)}
        n = na * self.dpoly(ma) + nb * self.dpoly(mb)
        return (n, d)

    def mul(self, a, b):
        d = dict(a[1])
        for k, e in b[1].items():
            d[k] = d.get(k, 0) + e
        n = a[0] * b[0]
        if len(n) > self.cap:
            raise NoNormal('polynomial too large')
        return self.cancel(n, d)

    def cancel(self, n, d):
        """Cancels denominator factors that divide the numerator (cheap cases only)."""
        if not d or not n:
            return (n, {} if not n else d)
        if len(n) > 400:
            return (n, d)
        d = dict(d)
        for k in list(d):
            while d[k] > 0 and len(self.dens[k]) <= 12:
                q, r = divmod(n, self.dens[k])
                if r:
                    break
                n = q
                d[k] -= 1
            if d[k] == 0:
                del d[k]
        return (n, d)

    def inv(self, a):
        n, d = a
        if not n:
            raise NoNormal('division by zero polynomial')
        n = self.reduce_num(n)
        if not n:
            raise NoNormal('division by zero polynomial')
        if n.is_ground:
            return (self.dpoly(d).mul_ground(1 / n.LC), {})
        k, lc = self.den_index(n)
        return (self.dpoly(d).mul_ground(1 / lc), {k: 1})

    def ev(self, t):
        key = t.get_id()
        if key in self.memo:
            return self.memo[key][1]
        r = self._ev(t)
        self.memo[key] = (t, r)
        return r

    def _ev(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_const(t):
            return (self.gens[t.get_id()], {})
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.ev(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.ev(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.ev(ch[0])
            for c in ch[1:]:
                n, d = self.ev(c)
                r = self.add(r, (-n, d))
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.ev(ch[0])
            return (-n, d)
        if k == z3.Z3_OP_MUL:
            r = self.ev(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.ev(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.ev(ch[0]), self.inv(self.ev(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = ch[1].as_long()
            r = self.const(Fraction(1))
            b = self.ev(ch[0])
            for _ in range(e):
                r = self.mul(r, b)
            return r
        raise NoNormal('operator %s' % t.decl().name())

    def subst_sq(self, n, vi, rf):
        """Numerator of n with v^2 replaced by rf (times a power of rf's denominator)."""
        nn, dd = rf
        groups = {}
        for mon, c in n.terms():
            e = mon[vi]
            m = list(mon)
            m[vi] = e % 2
            groups.setdefault(e // 2, []).append((tuple(m), c))
        if list(groups) == [0] or not groups:
            return n
        mx = max(groups)
        D = self.dpoly(dd)
        Dp = [self.R(1)]
        Np = [self.R(1)]
        for _ in range(mx):
            Dp.append(Dp[-1] * D)
            Np.append(Np[-1] * nn)
        out = self.R(0)
        for h, ts in groups.items():
            p = self.R(0)
            for m, c in ts:
                p[m] = p.get(m, 0) + c
            p = p.copy()
            out = out + p * Np[h] * Dp[mx - h]
            if len(out) > self.cap:
                raise NoNormal('polynomial too large')
        return out

    def reduce_num(self, n):
        for _ in range(4):
            old = n
            for vi, rf in self.rule_rf:
                n = self.subst_sq(n, vi, rf)
            if n == old:
                break
        return n

    def residual(self, t):
        """Numerator of t reduced modulo the rules."""
        n, d = self.ev(t)
        return self.reduce_num(n)

    def to_z3(self, p):
        out = []
        for mon, c in p.terms():
            f = [z3.RealVal('%d/%d' % (c.numerator, c.denominator))]
            for k, e in enumerate(mon):
                f += [self.vars[k]] * e
            out.append(f[0] if len(f) == 1 else z3.Product(*f))
        return z3.Sum(*out) if out else z3.RealVal(0)
