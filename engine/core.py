"""Obligations: harness function + domain + precondition + postcondition, decided path by
path by the solver; counterexamples are replayed on the native library."""
import json
import math
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import mpmath
import z3
from mpmath import mp, mpf

import ring
from domains import (CDom, FDom, RDom, RV, FV, CF, FMT, PI, Unsupported, b_and, b_ite, b_not, b_or, bits_to_py, is_sos,
                     const_of, py_to_bits, py_to_bits_exact, rat, simp_bool, tob)
from llir import IRError
from native import NF, NI, NO, W
from symex import (UNDEF, Cut, Executor, Limit, Obj, Ptr, is_float, relevant_axioms)

mp.prec = 600
F0 = Fraction


DIAMOND = bool(os.environ.get('VP_DIAMOND'))     # for trying it out


class Ob:
    """One obligation.
    fn: harness function; tin/tout: element types; nin: number of inputs used;
    dom: 'F' bit-precise, 'RX' exact reals, 'RR' reals + rounding, 'I' integers (bit-vectors)
    ghosts: number of universally quantified real variables that are not inputs of the code
    pre(c), post(c): lists of conditions / list of (label, condition)
    panic: None = a panic is a violation; otherwise pred(c): panics are allowed where it holds
    """

    def __init__(self, name, fn, tin, nin, post, tout=None, pre=None, dom='RX', ghosts=0, panic=None, opts=None,
                 sample=None, gsample=None, tier='quick', timeout=60, bound='', nout=None, exact=None, tol=2e-3,
                 nice=None, hints=None, wall=None, free=None, nvalid=6, prio=0, hard=None, reps=None):
        self.name, self.fn, self.tin, self.nin = name, fn, tin, nin
        self.tout = tout or tin
        self.pre, self.post, self.dom = pre, post, dom
        self.ghosts, self.panic, self.opts = ghosts, panic, dict(opts or {})
        self.sample, self.gsample = sample, gsample
        self.tier, self.timeout, self.bound = tier, timeout, bound
        self.nout = nout
        if dom == 'RX' and nout and self.opts.get('finite', True):
            self.post = lambda c: [('results are finite', c.fin(*range(nout)))] + post(c)
        self.exact = (dom in ('F', 'I', 'RR')) if exact is None else exact
        self.tol = tol
        self.nice = nice
        self.hints = hints
        self.wall = wall
        self.free = free
        self.nvalid = nvalid
        self.prio, self.hard, self.reps = prio, hard, reps


class Lemma(Ob):
    """A code-independent fact used by the obligations of a check, discharged by the solver as well.
    claim: function without arguments returning (hypotheses, conclusion)"""

    def __init__(self, name, claim, timeout=60):
        Ob.__init__(self, name, '-', 'f32', 0, None, timeout=timeout)
        self.claim = claim


# ----------------------------------------------------------------- contexts
class Ctx:
    And = staticmethod(b_and)
    Or = staticmethod(b_or)
    Not = staticmethod(b_not)

    @staticmethod
    def Implies(a, b):
        return b_or(b_not(a), b)

    @staticmethod
    def Iff(a, b):
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))

    def all(self, xs):
        return b_and(*xs)

    def eqv(self, a, b, **k):
        return [self.eq(x, y, **k) for x, y in zip(a, b)]


class SymR(Ctx):
    """Symbolic context of the real domains."""
    sym = True

    def __init__(self, dom, xs, gs, outs, flags, margin=0):
        self.dom = dom
        self.xv = xs
        self.x = [v.r for v in xs]
        self.g = gs
        self.ov = outs
        self.flags = flags
        self.margin = Fraction(margin)
        self.eqs = {}
        self.poss = {}
        self.alts = {}
        self.pi = rat(PI)
        self.w = xs[0].w if xs else 32

    def k(self, v):
        return rat(Fraction(v))

    def o(self, k):
        v = self.ov[k]
        if v is UNDEF:
            # not written on this path: any value
            v = self.ov[k] = self.dom.input('undef%d' % k, self.w)
        return v.r

    def fin(self, *ks):
        return b_and(*[self.ov[k].fin for k in ks if self.ov[k] is not UNDEF])

    def nan(self, k):
        return self.ov[k].nan

    def pinf(self, k):
        return self.ov[k].pinf

    def ninf(self, k):
        return self.ov[k].ninf

    def flag(self, k):
        v = self.flags[k]
        if isinstance(v, (int, bool)):
            return v != 0
        return simp_bool(v != 0) if z3.is_bv(v) else v

    def fval(self, k):
        return self.flags[k]

    def same(self, a, b):
        """equality without tolerance in concrete evaluation"""
        return lift(a) == lift(b)

    def eq(self, a, b, tol=0):
        m = max(Fraction(tol), self.margin)
        a, b = lift(a), lift(b)
        if m:
            return z3.And(a - b <= rat(m), b - a <= rat(m))
        r = simp_bool(a == b)
        if r is not True and r is not False:
            self.eqs[r.get_id()] = (a, b, r)
        return r

    def le(self, a, b, tol=0):
        m = max(Fraction(tol), self.margin)
        a, b = lift(a), lift(b)
        return simp_bool(a <= b + rat(m)) if m else simp_bool(a <= b)

    def ge(self, a, b, tol=0):
        return self.le(b, a, tol)

    def pos(self, t, *cands):
        """t > 0, with candidates (factor, target): t * factor * (product of square roots) == target"""
        r = simp_bool(lift(t) > 0)
        if not isinstance(r, bool):
            self.poss[r.get_id()] = (lift(t), cands, r)
        return r

    def alt(self, g, h):
        """the goal g, or h, which implies it: h is tried first, with non-linear terms as unknowns"""
        g = simp_bool(g)
        if not isinstance(g, bool):
            self.alts[g.get_id()] = (h(), g)
        return g

    def lt(self, a, b):
        """Strict test used in hypotheses."""
        return simp_bool(lift(a) < lift(b))

    def If(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return z3.If(c, lift(a), lift(b))

    def sqrt(self, t):
        """the square root of t; shares the symbol of a root in the code whose argument is the same rational function"""
        t = lift(t)
        if const_of(t) is None and self.dom._key('sqrt', z3.simplify(t)) not in self.dom.memo:
            for q, t2 in self.dom.rules:
                if str(q).startswith('sqrt') and self.dom.same_rf(t, t2):
                    return q
        return self.dom.sqrt_term(t)

    def sin(self, t):
        return self.dom.sincos_term(lift(t))[0]

    def cos(self, t):
        return self.dom.sincos_term(lift(t))[1]

    def half_period(self, kind, t):
        """Position of t among the half periods of sin / cos: (r, odd), with t = r + k*pi (+ pi/2 for sin), 0 <= r < pi.
        On [0, pi) the function times (-1)^k falls (cos) or rises (sin) strictly, the other one is not negative."""
        dom, t = self.dom, lift(t)
        key = dom._key('half' + kind, z3.simplify(t))
        if key not in dom.memo:
            s, c = dom.sincos_term(t)
            f, g = (c, s) if kind == 'cos' else (-s, c)
            r, odd = z3.Real('hp!%s%d' % (kind, len(dom.memo))), z3.Bool('odd!%s%d' % (kind, len(dom.memo)))
            u, w = z3.If(odd, -f, f), z3.If(odd, -g, g)
            dom.ax(z3.And(r >= 0, r < rat(PI), w >= 0, (w == 0) == (r == 0), (u == 1) == (r == 0), u > -1, u <= 1), s)
            dom.ax(z3.And(r >= 0, r < rat(PI), w >= 0, (w == 0) == (r == 0), (u == 1) == (r == 0), u > -1, u <= 1), c)
            zero = z3.Implies(t == 0, z3.And(r == (rat(PI / 2) if kind == 'sin' else 0), z3.Not(odd), s == 0, c == 1))
            dom.ax(zero, s)
            dom.ax(zero, c)
            for r2, u2, s2, c2 in dom.memo.setdefault('halves' + kind, []):
                dom.ax(z3.And((r < r2) == (u > u2), (r == r2) == (u == u2)), s, s2)
                dom.ax(z3.And((r < r2) == (u > u2), (r == r2) == (u == u2)), c, c2)
            dom.memo['halves' + kind].append((r, u, s, c))
            dom.memo[key] = (r, odd)
        return dom.memo[key]

    def half_dist(self, kind, a, b):
        """Booleans (0, 1, 2 half periods begin in (a, b]) for 0 <= b - a < 2 pi."""
        dom, a, b = self.dom, lift(a), lift(b)
        key = dom._key('hdist' + kind, a, b)
        if key not in dom.memo:
            (r, o), (q, p) = self.half_period(kind, a), self.half_period(kind, b)
            m = [z3.Bool('hd!%d!%d' % (len(dom.memo), k)) for k in range(3)]
            f = z3.Implies(z3.And(b >= a, b - a < 2 * rat(PI)), z3.And(z3.PbEq([(x, 1) for x in m], 1), *[
                z3.Implies(m[k], z3.And(b - a == q - r + k * rat(PI), p == (z3.Not(o) if k == 1 else o)))
                for k in range(3)]))
            f = z3.And(f, z3.Or(*m))
            for v in (dom.sincos_term(a), dom.sincos_term(b)):
                dom.ax(f, v[0])
                dom.ax(f, v[1])
            dom.memo[key] = m
        return dom.memo[key]

    def trig_range(self, kind, a, b):
        """the exact range of sin / cos over [a, b], 0 <= b - a"""
        a, b = lift(a), lift(b)
        o = self.half_period(kind, a)[1]
        m = self.half_dist(kind, a, b)
        k = 0 if kind == 'sin' else 1
        f, g = self.dom.sincos_term(a)[k], self.dom.sincos_term(b)[k]
        wide = b - a >= 2 * rat(PI)
        # u = (-1)^k f falls from 1 on each half period; for sin, f stands for -sin
        first, second = z3.Or(m[1], m[2]), m[2]
        eo = z3.Not(o)
        if kind == 'sin':
            eo, o = o, eo
        # f is -1 at the first beginning of a half period after a if that of a is even, at the second if it is odd
        isneg = z3.Or(wide, z3.And(first, eo), z3.And(second, o))
        ispos = z3.Or(wide, z3.And(first, o), z3.And(second, eo))
        return (z3.If(isneg, z3.RealVal(-1), z3.If(f <= g, f, g)), z3.If(ispos, z3.RealVal(1), z3.If(f >= g, f, g)))

    def mono(self, name, t):
        """asin, acos or atan of t"""
        h = rat(PI / 2)
        return self.dom.mono_fn(name, lift(t), *{'asin': (True, -h, h, True), 'atan': (True, -h, h, True),
                                                 'acos': (False, z3.RealVal(0), rat(PI), False)}[name])

    def acos(self, t):
        return self.dom.acos_term(lift(t))

    def atan2(self, y, x):
        return self.dom.atan2_term(lift(y), lift(x))

    def div(self, a, b):
        return a / b

    def abs(self, t):
        t = lift(t)
        return z3.If(t >= 0, t, -t)

    def max(self, *ts):
        r = lift(ts[0])
        for t in ts[1:]:
            r = z3.If(r >= lift(t), r, lift(t))
        return r

    def min(self, *ts):
        r = lift(ts[0])
        for t in ts[1:]:
            r = z3.If(r <= lift(t), r, lift(t))
        return r


def lift(t):
    if isinstance(t, (int, Fraction)):
        return rat(Fraction(t))
    if isinstance(t, float):
        return rat(Fraction(t))
    return t


class ConR(Ctx):
    """Concrete context: inputs and outputs are numbers, arithmetic at high precision."""
    sym = False

    def __init__(self, xs, gs, outs, flags, tol):
        self.x = xs
        self.g = gs
        self.ovals = outs
        self.flags = flags
        self.tol = tol
        self.pi = mp.pi + 0
        self.margin = 0

    def k(self, v):
        v = Fraction(v)
        return mpf(v.numerator) / mpf(v.denominator)

    def o(self, k):
        return self.ovals[k]

    def fin(self, *ks):
        return all(mpmath.isfinite(self.ovals[k]) for k in ks)

    def nan(self, k):
        return bool(mpmath.isnan(self.ovals[k]))

    def pinf(self, k):
        return self.ovals[k] == mp.inf

    def ninf(self, k):
        return self.ovals[k] == -mp.inf

    def flag(self, k):
        return self.flags[k] != 0

    def fval(self, k):
        return self.flags[k]

    def _t(self, a, b, tol):
        if not (mpmath.isfinite(a) and mpmath.isfinite(b)):
            return mpf(0)
        t = max(mpf(self.tol), self.k(tol) if tol else mpf(0))
        if self.tol == 0 and not tol:
            return mpf(0)
        return t * (1 + max(abs(a), abs(b)))

    def same(self, a, b):
        return a == b

    def eq(self, a, b, tol=0):
        a, b = mpf(a), mpf(b)
        if mpmath.isnan(a) or mpmath.isnan(b):
            return False
        if a == b:
            return True
        return bool(abs(a - b) <= self._t(a, b, tol))

    def le(self, a, b, tol=0):
        a, b = mpf(a), mpf(b)
        return bool(a <= b + self._t(a, b, tol))

    def ge(self, a, b, tol=0):
        return self.le(b, a, tol)

    def alt(self, g, h):
        return g

    def pos(self, t, *cands):
        return self.le(0, t)

    def lt(self, a, b):
        return bool(a < b)

    def If(self, c, a, b):
        return a if c else b

    def sqrt(self, t):
        return mpmath.sqrt(t) if t >= 0 else mpf('nan')

    def sin(self, t):
        return mpmath.sin(t)

    def cos(self, t):
        return mpmath.cos(t)

    def half_dist(self, kind, a, b):
        return None

    def trig_range(self, kind, a, b):
        f = mpmath.sin if kind == 'sin' else mpmath.cos
        v = [f(a), f(b)]
        off = mpmath.pi / 2 if kind == 'sin' else mpf(0)
        k = mpmath.ceil((a - off) / mpmath.pi)
        for j in range(3):
            if (k + j) * mpmath.pi + off <= b:
                v.append(mpf(-1) if int(k + j) % 2 else mpf(1))
        return min(v), max(v)

    def mono(self, name, t):
        return getattr(mpmath, name)(t) if name == 'atan' or abs(t) <= 1 else mpf('nan')

    def acos(self, t):
        return mpmath.acos(t) if abs(t) <= 1 else mpf('nan')

    def atan2(self, y, x):
        return mpmath.atan2(y, x)

    def div(self, a, b):
        return a / b if b else self.k(0)

    def abs(self, t):
        return abs(t)

    def max(self, *ts):
        return max(ts)

    def min(self, *ts):
        return min(ts)


class FCtx(Ctx):
    """Bit-precise context (symbolic or constant)."""

    def __init__(self, dom, xs, gs, outs, flags, sym=True):
        self.dom, self.x, self.g, self.ov, self.flags, self.sym = dom, xs, gs, outs, flags, sym
        self.margin = 0

    def o(self, k):
        return self.ov[k]

    def flag(self, k):
        v = self.flags[k]
        if isinstance(v, (int, bool)):
            return v != 0
        return simp_bool(v != 0)

    def fval(self, k):
        v = self.flags[k]
        return z3.BitVecVal(int(v), 64) if isinstance(v, (int, bool)) else v

    def bits(self, v):
        b = self.dom.to_bits(v)
        return z3.BitVecVal(b, v.w) if isinstance(b, int) else b

    def nan(self, v):
        return z3.fpIsNaN(v.fp)

    def same(self, a, b):
        """Same value, NaNs identified (signs of zero distinguished)."""
        return z3.Or(z3.And(z3.fpIsNaN(a.fp), z3.fpIsNaN(b.fp)), z3.And(z3.Not(z3.fpIsNaN(a.fp)), a.fp == b.fp))

    def lt(self, a, b):
        return z3.fpLT(a.fp, b.fp)

    def le(self, a, b):
        return z3.fpLEQ(a.fp, b.fp)

    def feq(self, a, b):
        return z3.fpEQ(a.fp, b.fp)

    def const(self, v, w):
        return self.dom.const(py_to_bits(float(v), w), w)

    def constf(self, fr, w):
        return self.dom.const(py_to_bits_exact(Fraction(fr), w), w)


# ----------------------------------------------------------------- solving
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}

    def add(self, who, dt):
        self.queries += 1
        self.solver_s += dt
        self.by[who] = self.by.get(who, 0) + 1


def cvc5_check(fs, timeout_s):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), name], capture_output=True, text=True,
                           timeout=timeout_s + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
        if '(error' in p.stdout or '(error' in p.stderr:
            return 'unknown'
        return out if out in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(name)


LIN_MEMO = {}, {}, {}


def linearise(fs):
    """fs with every non-linear real subterm replaced by a fresh variable: unsatisfiable only if fs is."""
    memo, names, done = LIN_MEMO

    def fresh_for(t):
        return names.setdefault(t.sexpr(), z3.Real('lin!%d' % len(names)))

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        ch = t.children()
        k = t.decl().kind()
        if not ch:
            r = t
        elif k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(x) for x in ch) > 1:
            co = [x for x in ch if z3.is_rational_value(x)]
            rest = [x for x in ch if not z3.is_rational_value(x)]
            p = rest[0]
            for x in rest[1:]:
                p = p * x
            r = fresh_for(z3.simplify(p, som=True))
            for x in co:
                r = x * r
        elif k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not (
                k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1])):
            r = fresh_for(t) if z3.is_real(t) else t
        else:
            n = [go(x) for x in ch]
            r = t if all(a.eq(b) for a, b in zip(n, ch)) else t.decl()(*n) if k not in (
                z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else rebuild(k, n)
        memo[i] = (t, r)
        return r

    def rebuild(k, n):
        if k == z3.Z3_OP_AND:
            return z3.And(*n)
        if k == z3.Z3_OP_OR:
            return z3.Or(*n)
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*n)
        r = n[0]
        for x in n[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r * x
        return r

    def top(f):
        # kept for later queries, which share most of their formulas
        i = f.get_id()
        if i not in done:
            done[i] = (f, go(z3.simplify(f, som=True)))
        return done[i][1]
    return [top(f) for f in fs]


def z3_check(fs, ms, how='default'):
    if how == 'lin':
        r, _ = z3_check(linearise(fs), ms, 'lra')
        return ('unsat', None) if r == 'unsat' else ('unknown', None)
    if how == 'default':
        s = z3.Solver()
    elif how == 'nlsat':
        s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'simplify',
                    'tseitin-cnf', 'qfnra-nlsat').solver()
    elif how == 'qfnra':
        s = z3.SolverFor('QF_NRA')
    elif how == 'lra':
        s = z3.SolverFor('QF_LRA')
    elif how == 'qffp':
        s = z3.SolverFor('QF_FP')
    s.set('timeout', int(ms))
    for f in fs:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        try:
            return 'sat', s.model()
        except z3.Z3Exception:
            return 'unknown', None
    return 'unknown', None


REAL_PLAN = [('default', 0.1), ('nlsat', 0.25), ('qfnra', 0.25), ('default', 0.4)]
F_PLAN = [('default', 0.3), ('qffp', 0.7)]


class Run:
    """Executes one obligation."""
    ntol = None

    def __init__(self, prog, nat, ob, seed, scale=1.0):
        self.prog, self.nat, self.ob, self.seed = prog, nat, ob, seed
        self.stats = Stats()
        self.scale = scale
        self.rng = random.Random('%s/%s' % (seed, ob.name))
        self.log = []
        self.coarse = False

    # ------------------------------------------------------------ harness
    def mk_dom(self):
        d = self.ob.dom
        if d in ('F', 'I'):
            return FDom()
        return RDom(rounding=(d == 'RR'), coarse=self.coarse)

    def entry(self, ex, dom, invals):
        ob = self.ob
        wi, wo = W[ob.tin] // 8, W[ob.tout] // 8
        zi = (lambda: dom.const(0, W[ob.tin])) if ob.tin[0] == 'f' else (lambda: 0)

        def run():
            io, oo, fo = Obj(NI * wi, 0, 'in'), Obj(NO * wo, 0, 'out'), Obj(NF * 8, 0, 'flags')
            for k in range(NI):
                io.cells[k * wi] = (wi, invals[k] if k < len(invals) else zi())
            ex.exec(self.prog.funcs['@' + ob.fn], [Ptr(io, 0), Ptr(oo, 0), Ptr(fo, 0)], 0)
            ty = {'f32': ('float',), 'f64': ('double',)}.get(ob.tout, ('int', W[ob.tout]))
            outs = [ex.load(ty, Ptr(oo, k * wo)) for k in range(ob.nout or NO)]
            fl = [ex.load(('int', 64), Ptr(fo, 8 * k)) for k in range(NF)]
            return outs, fl
        return run

    def sym_inputs(self, dom):
        ob = self.ob
        out = []
        for k in range(ob.nin):
            if ob.tin[0] == 'f':
                out.append(dom.input('x%d' % k, W[ob.tin]))
            else:
                out.append(z3.BitVec('x%d' % k, W[ob.tin]))
        return out

    def ctx(self, dom, xs, gs, outs, fl, margin=0):
        if self.ob.dom in ('F', 'I'):
            return FCtx(dom, xs, gs, outs, fl)
        return SymR(dom, xs, gs, outs, fl, margin)

    # ------------------------------------------------------------ queries
    def decide(self, fs, dom, eqpair=None, budget=None):
        """Returns ('unsat', how) / ('sat', model) / ('unknown', None) for the conjunction fs."""
        ob = self.ob
        budget = budget or ob.timeout * self.scale
        if any(f is False for f in fs):
            self.stats.add('trivial', 0)
            return 'unsat', 'trivial'
        fs = [tob(f) for f in fs if f is not True]
        fs = fs + relevant_axioms(dom, fs)
        plan = F_PLAN if ob.dom in ('F', 'I') else ob.opts.get('plan', REAL_PLAN)
        t00 = time.time()
        for how, frac in plan:
            t = time.time()
            if how == 'cvc5':
                r = cvc5_check(fs, frac * budget)
                m = None
                if r == 'sat':
                    r = 'unknown'
            else:
                r, m = z3_check(fs, 1000 * frac * budget, how)
            self.stats.add(how, time.time() - t)
            if r == 'unsat':
                return 'unsat', how
            if r == 'sat':
                return 'sat', m
        return 'unknown', None

    def ring_zero(self, dom, a, b):
        try:
            R = ring.Ring([a, b], [(v, t) for v, t in dom.rules])
            p = R.residual(a - b)
        except ring.NoNormal:
            return None
        except RecursionError:
            return None
        if not p:
            return True
        return False

    def prove_goal(self, dom, c, base, pc, goal):
        if goal is True:
            self.stats.add('trivial', 0)
            return 'unsat', 'trivial'
        t = time.time()
        if not isinstance(goal, bool) and isinstance(c, SymR) and goal.get_id() in c.eqs:
            a, b, _ = c.eqs[goal.get_id()]
            z = self.ring_zero(dom, a, b)
            if z is True:
                # the residual is the zero polynomial: the query residual != 0 is unsatisfiable
                r, _m = z3_check([z3.RealVal(0) != z3.RealVal(0)], 1000)
                self.stats.add('ring', time.time() - t)
                return r, 'ring'
        if not isinstance(goal, bool) and isinstance(c, SymR) and goal.get_id() in c.poss:
            r = self.prove_pos(dom, c.poss[goal.get_id()], base, pc)
            if r:
                return 'unsat', r
        if not isinstance(goal, bool) and isinstance(c, SymR) and goal.get_id() in c.alts:
            fs = [tob(f) for f in base + pc + [b_not(c.alts[goal.get_id()][0])] if f is not True]
            r, _m = z3_check(fs + relevant_axioms(dom, fs), 4000, 'lin')
            self.stats.add('lin', time.time() - t)
            if r == 'unsat':
                return r, 'lin'
        ng = b_not(goal)
        # quick attempt without the path condition helps nothing for unsat of pc; go straight to the full query
        r = self.decide(base + pc + [ng], dom)
        return r

    def prove_pos(self, dom, p, base, pc):
        T, cands, _ = p
        from itertools import combinations
        qs = [v for v, _t in dom.rules if str(v).startswith('sqrt')]
        for factor, target in cands:
            for n in range(min(len(qs), 4) + 1):
                for sel in combinations(qs, n):
                    prod = lift(factor)
                    for q in sel:
                        prod = prod * q
                    if n <= 4 and self.ring_zero(dom, T * prod, lift(target)):
                        # target > 0, factor >= 0, roots >= 0 and the identity give the sign of T
                        f, g = lift(factor), lift(target)
                        st, how = self.decide(base + pc + [g == 0 if is_sos(g) else g <= 0], dom)
                        if st != 'unsat':
                            continue
                        if not is_sos(f):
                            st, _ = self.decide(base + pc + [f < 0], dom)
                            if st != 'unsat':
                                continue
                        tv, fv, gv = z3.Reals('pos!t pos!f pos!g')
                        e, hyp = tv * fv, []
                        for k in range(n):
                            qv = z3.Real('pos!q%d' % k)
                            e = e * qv
                            hyp.append(qv >= 0)
                        st, how = self.decide(hyp + [tv <= 0, e == gv, fv >= 0, gv > 0], dom)
                        if st == 'unsat':
                            return 'sign by ' + how
        return None

    # ------------------------------------------------------------ main
    def run(self):
        """RR obligations: first with the coarse (weaker, hence sound) format parameters, then exactly."""
        if self.ob.dom == 'RR' and self.ob.opts.get('coarse', True):
            self.coarse = True
            r = self.run1(final=False)
            if r['status'] == 'ok':
                return r
            self.coarse = False
        r = self.run1()
        if not isinstance(self.ob, Lemma) and not r['violations'] and \
                (r['status'] == 'unknown' or r['status'] == 'error' and 'Limit:' in r['note']):
            # no verdict, mostly because of too many paths: once more, merging the two sides of a branch where they meet again
            self.diamond = True
            r2 = self.run1()
            if r2['status'] in ('ok', 'violation'):
                return r2
        return r

    def run1(self, final=True):
        ob = self.ob
        t0 = time.time()
        res = dict(name=ob.name, fn=ob.fn, dom=ob.dom, status='ok', goals=0, discharged=0, paths=0, panics=0,
                   bound=ob.bound, violations=[], unknown=[], note='')
        if isinstance(ob, Lemma):
            hyp, con = ob.claim()
            res['goals'] = 1
            st, m = 'unknown', None
            for how, ms in (('default', 5000), ('nlsat', 20000), ('qfnra', 20000), ('default', 20000)):
                t = time.time()
                st, m = z3_check(list(hyp) + [z3.Not(con)], ms, how)
                self.stats.add(how, time.time() - t)
                if st != 'unknown':
                    break
            sat = z3_check(list(hyp), 10000)[0] == 'sat'
            res.update(discharged=int(st == 'unsat'), queries=self.stats.queries + 1, how={how: 1},
                       solver_s=round(self.stats.solver_s, 3), status='ok' if st == 'unsat' and sat else 'error',
                       note='' if st == 'unsat' else 'lemma %s: %s' % (st, m))
            return res
        dom = self.mk_dom()
        xs = self.sym_inputs(dom)
        gs = [z3.Real('g%d' % k) for k in range(ob.ghosts)]
        opts = dict(ob.opts)
        opts.pop('plan', None)
        opts.pop('coarse', None)
        opts.pop('linear', None)
        opts.setdefault('next_spec', ob.dom == 'RR')
        opts['wall'] = (ob.wall or 200) * self.scale
        if getattr(self, 'diamond', False) or DIAMOND:
            opts['diamond'] = True
        ex = Executor(self.prog, dom, opts)
        base = []
        if ob.dom in ('RX', 'RR'):
            if ob.dom == 'RR':
                mx = dom.fmt(W[ob.tin])['mx']
                base += [z3.And(v.r <= mx, v.r >= -mx) for v in xs]
        c0 = self.ctx(dom, xs, gs, None, None)
        if ob.hints and ob.dom in ('RX', 'RR'):
            cands = ob.hints(c0)

            def on_sqrt(q, t):
                # t * factor == target where the normaliser shows it: a lemma that helps the solver
                for factor, target in cands:
                    if factor is None:
                        # a summand of t is the square of the target
                        for a in t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]:
                            if is_sos(a) and self.ring_zero(dom, a, lift(target) * lift(target)):
                                dom.ax(z3.And(q >= lift(target), q >= -lift(target)) if is_sos(t) else True, q)
                        continue
                    if self.ring_zero(dom, t * lift(factor), lift(target)):
                        f, g = lift(factor), lift(target)
                        ok = q * q * f == g
                        dom.ax(ok if is_sos(t) else z3.Implies(z3.And(f > 0, g >= 0), ok), q)
            dom.on_sqrt = on_sqrt
        if ob.pre:
            base += [p for p in ob.pre(c0) if p is not True]
        if ob.reps and ob.dom == 'RR':
            dom.reps += ob.reps(c0)
        if ob.opts.get('linear'):
            ex.o['linearise'], ex.o['only_linear'] = linearise, ob.opts['linear'] == 'only'
        ex.base = list(base)
        ex.o['prover'] = lambda fs: self.decide(fs, dom)[0] == 'unsat'
        if ex.o['roots']:
            ex.o['roots'] = [lift(v) for v in ex.o['roots'](c0)]
        ex.o['cuts'] = [c if isinstance(c, Cut) else c(c0) for c in ex.o['cuts']]
        run = self.entry(ex, dom, xs)
        nonvac = False
        suspicious = []
        try:
            for kind, pc, r in ex.explore(run):
                res['paths'] += 1
                if kind == 'panic':
                    res['panics'] += 1
                    allowed = False
                    if ob.panic is not None:
                        allowed = ob.panic(self.ctx(dom, xs, gs, None, None))
                    if allowed is True:
                        continue
                    res['goals'] += 1
                    st, m = self.decide(base + pc + [b_not(allowed)], dom)
                    if st == 'unsat':
                        res['discharged'] += 1
                    else:
                        suspicious.append(('no panic', st, m, base + pc + [b_not(allowed)], None, r))
                    continue
                outs, fl = r
                c = self.ctx(dom, xs, gs, outs, fl)
                if not nonvac:
                    st, m = self.decide(base + pc, dom, budget=min(10, ob.timeout))
                    nonvac = st == 'sat'
                for label, goal in ob.post(c):
                    res['goals'] += 1
                    goal = simp_bool(goal)
                    st, m = self.prove_goal(dom, c, base, pc, goal)
                    if st == 'unsat':
                        res['discharged'] += 1
                        res.setdefault('how', {})
                        res['how'][m] = res['how'].get(m, 0) + 1
                    else:
                        suspicious.append((label, st, m, base + pc, (outs, fl), None))
                        if len(suspicious) >= (6 if final else 1):
                            break
                if len(suspicious) >= (6 if final else 1):
                    break
        except (Unsupported, IRError, Limit) as e:
            res['status'] = 'error'
            res['note'] = '%s: %s' % (type(e).__name__, e)
            suspicious.append(('encoding: ' + res['note'], 'unknown', None, None, None, None))
        res['functions'] = sorted(ex.funcs_seen)
        if ex.note:
            res['note'] += ' ' + ex.note
        res['steps'] = ex.total_steps
        res['feas_queries'] = ex.feas_calls
        self.stats.solver_s += ex.solver_s
        if suspicious and not final:
            res['status'] = 'retry'
            return res
        if suspicious:
            self.hunt(dom, xs, gs, suspicious, res)
        if not nonvac and not res['violations']:
            # a concrete input that satisfies the precondition and returns is a witness as well
            nonvac = self.witness()
        res['nonvacuous'] = bool(nonvac)
        if res['status'] == 'ok':
            if res['violations']:
                res['status'] = 'violation'
            elif res['unknown']:
                res['status'] = 'unknown'
            elif not nonvac:
                res['status'] = 'error'
                res['note'] = 'vacuous: no input satisfying the precondition reaches the assertion'
        elif res['violations']:
            res['status'] = 'violation'
        res['queries'] = self.stats.queries
        res['solver_s'] = round(self.stats.solver_s, 3)
        res['by'] = self.stats.by
        res['wall_s'] = round(time.time() - t0, 3)
        return res

    # ------------------------------------------------------------ concretisation and replay
    def hunt(self, dom, xs, gs, suspicious, res):
        ob = self.ob
        t_end = time.time() + max(20, min(90, ob.timeout)) * self.scale
        for (label, st, m, fs, r, info) in suspicious:
            if time.time() > t_end and res['violations']:
                break
            found = None
            cands = []
            if m is not None:
                if ob.dom in ('RX',) and r is not None:
                    mm = self.margin_model(dom, xs, gs, fs, r, label)
                    if mm is not None:
                        cands.append(mm)
                cands.append(m)
            for mdl in cands:
                for inp, gv in self.concretise(dom, xs, gs, mdl):
                    v = self.replay(inp, gv)
                    if v:
                        found = (inp, gv, v, 'solver model')
                        break
                if found:
                    break
            if not found:
                seeds = []
                for mdl in cands:
                    seeds += self.concretise(dom, xs, gs, mdl)[:2]
                found = self.search(seeds, min(t_end, time.time() + 25 * self.scale))
                if not found and ob.dom == 'RX' and not ob.exact and m is not None:
                    # a deviation that is small, but larger than rounding: the run at high precision has to confirm it
                    self.ntol = min(ob.tol, 2e-5)
                    mm = self.margin_model(dom, xs, gs, fs, r, label, (Fraction(1, 1000), Fraction(1, 4000), Fraction(1, 15000))) \
                        if r is not None else None
                    near = self.concretise(dom, xs, gs, mm) if mm is not None else []
                    for inp, gv in near:
                        v = self.replay(inp, gv)
                        if v:
                            found = (inp, gv, v, 'solver model')
                            break
                    found = found or self.search(near[:2] or seeds, time.time() + 15 * self.scale)
                    self.ntol = None
            if found:
                inp, gv, v, how = found
                res['violations'].append(dict(goal=v[0], expected_goal=label, inputs=[self.show(b) for b in inp],
                                              bits=inp, ghosts=[mpmath.nstr(x, 40) for x in gv], outputs=v[1],
                                              flags=v[2], panicked=v[3], found_by=how))
                return
            res['unknown'].append(dict(goal=label, solver=st, model=str(m)[:int(os.environ.get('VERIF_MODEL', 600))] if m is not None else None,
                                       info=str(info)))

    def margin_model(self, dom, xs, gs, fs, r, label, margins=(Fraction(1, 4), Fraction(1, 32), Fraction(1, 200))):
        ob = self.ob
        outs, fl = r
        nice = []
        for v in xs:
            nice.append(z3.And(v.r <= 8, v.r >= -8))
        if ob.nice:
            nice += ob.nice(self.ctx(dom, xs, gs, None, None))
        for margin in margins:
            c = self.ctx(dom, xs, gs, outs, fl, margin)
            for l2, goal in ob.post(c):
                if l2 != label:
                    continue
                st, m = self.decide(fs + nice + [b_not(simp_bool(goal))], dom, budget=10)
                if st == 'sat':
                    return m
        return None

    def show(self, b):
        return bits_to_py(b, W[self.ob.tin]) if self.ob.tin[0] == 'f' else b

    def mval(self, m, t):
        v = m.eval(t, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(60)
        f = const_of(v)
        return f if f is not None else Fraction(0)

    def concretise(self, dom, xs, gs, m):
        """List of (input bits, ghost values) candidates from a model."""
        ob = self.ob
        w = W[ob.tin]
        if ob.dom in ('F', 'I'):
            bits = []
            for v in xs:
                t = v._bv if isinstance(v, FV) else v
                bits.append(m.eval(t, model_completion=True).as_long())
            gv = [self.tomp(self.mval(m, g)) for g in gs]
            return [(bits, gv)]
        vals = [self.mval(m, v.r) for v in xs]
        gv = [self.tomp(self.mval(m, g)) for g in gs]
        # angles: choose the input so that its sine and cosine match the model
        for (t, s, c) in list(getattr(dom, 'trig', {}).values()):
            for k, v in enumerate(xs):
                coef = linear_coeff(t, v.r)
                if coef:
                    sv, cv = self.mval(m, s), self.mval(m, c)
                    vals[k] = Fraction(math.atan2(float(sv), float(cv))) / coef
        out = []
        bits = [py_to_bits_exact(v, w) for v in vals]
        out.append((bits, gv))
        # neighbours of the rounded values (preconditions may sit on a boundary)
        for _ in range(40):
            b2 = [py_to_bits_exact(v * (1 + Fraction(self.rng.randint(-3, 3), 1 << (w // 2 + 4))), w) for v in vals]
            out.append((b2, gv))
        return out

    def tomp(self, f):
        return mpf(f.numerator) / mpf(f.denominator)

    def con_ctx(self, bits, gv, outs, fl, tol):
        ob = self.ob
        if ob.dom in ('F', 'I'):
            d = FDom()
            xs = [d.const(b, W[ob.tin]) if ob.tin[0] == 'f' else z3.BitVecVal(b, W[ob.tin]) for b in bits]
            os_ = None
            if outs is not None:
                os_ = [d.const(b, W[ob.tout]) if ob.tout[0] == 'f' else b for b in outs]
            return FCtx(d, xs, gv, os_, fl, sym=False)
        xs = [tompf(b, W[ob.tin]) for b in bits]
        os_ = None if outs is None else [o if isinstance(o, mpf) else tompf(o, W[ob.tout]) for o in outs]
        c = ConR(xs, gv, os_, fl, tol)
        c.w = W[ob.tin]
        return c

    def pre_ok(self, bits, gv):
        ob = self.ob
        if ob.tin[0] == 'f' and ob.dom in ('RX', 'RR'):
            for b in bits:
                v = bits_to_py(b, W[ob.tin])
                if v != v or math.isinf(v):
                    return False
        if not ob.pre:
            return True
        c = self.con_ctx(bits, gv, None, None, 0 if ob.exact else 1e-5)
        try:
            return all(conc(p) for p in ob.pre(c))
        except ZeroDivisionError:
            return False

    def goals_failed(self, bits, gv, outs, fl, tol):
        c = self.con_ctx(bits, gv, outs, fl, tol)
        try:
            for label, g in self.ob.post(c):
                if not conc(g):
                    return label
        except ZeroDivisionError:
            # the specification is undefined on this input: not a usable counterexample
            return None
        return None

    def replay(self, bits, gv):
        """None, or (goal, outputs, flags, panicked) when the native code violates a goal."""
        ob = self.ob
        if not self.pre_ok(bits, gv):
            return None
        pan, outs, fl = self.nat.run(ob.fn, ob.tin, ob.tout, bits)
        n = ob.nout or NO
        if pan:
            ok = False
            if ob.panic is not None:
                ok = conc(ob.panic(self.con_ctx(bits, gv, None, None, 0)))
            if ok:
                return None
            if not ob.exact and not self.hp_fails(bits, gv, panic=True):
                return None
            return ('no panic', None, None, True)
        lab = self.goals_failed(bits, gv, outs[:n], fl, 0 if ob.exact else self.ntol or ob.tol)
        if lab is None:
            return None
        if not ob.exact and not self.hp_fails(bits, gv):
            return None
        so = [bits_to_py(b, W[ob.tout]) if ob.tout[0] == 'f' else b for b in outs[:n]]
        return (lab, so, fl, False)

    def hp_fails(self, bits, gv, panic=False):
        """Re-executes the code on the same inputs at high precision: is the failure more than rounding?"""
        from mdom import MDom
        ob = self.ob
        d = MDom()
        ex = Executor(self.prog, d, {k: v for k, v in ob.opts.items() if k in ('max_steps',)})
        xs = [d.const(b, W[ob.tin]) for b in bits]
        run = self.entry(ex, d, xs)
        try:
            for kind, pc, r in ex.explore(run):
                if kind == 'panic':
                    return True
                if panic:
                    return False
                outs, fl = r
                os_ = [o.v if o is not UNDEF else mpf(0) for o in outs]
                return self.goals_failed(bits, gv, os_, [0 if f is UNDEF else f for f in fl], 1e-5) is not None
        except (Unsupported, Limit):
            return True
        return True

    # ------------------------------------------------------------ sampling
    def default_sample(self):
        ob, rng = self.ob, self.rng
        if ob.tin[0] != 'f':
            w = W[ob.tin]
            out = []
            for k in range(ob.nin):
                z = rng.random()
                if z < .3:
                    out.append(rng.choice([0, 1, 2, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 3, 10]) &
                               ((1 << w) - 1))
                elif z < .5 and out:
                    out.append(rng.choice(out))
                else:
                    out.append(rng.getrandbits(w))
            return out
        w = W[ob.tin]
        out = []
        for k in range(ob.nin):
            z = rng.random()
            if z < .25:
                v = float(rng.randint(-4, 4))
            elif z < .7:
                v = rng.uniform(-4, 4)
            elif z < .8 and out:
                out.append(rng.choice(out))
                continue
            elif z < .9:
                v = rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 3)
            elif ob.dom == 'F' or ob.dom == 'RR':
                out.append(rng.getrandbits(w) if rng.random() < .6 else
                           rng.choice([0, 1 << (w - 1), 1, (0x7f800000 if w == 32 else 0x7ff0000000000000)]))
                continue
            else:
                v = rng.choice([0.0, 1.0, -1.0, 0.5])
            out.append(py_to_bits(v, w))
        return out

    def draw(self):
        ob = self.ob
        if ob.sample:
            vals = ob.sample(self.rng)
            bits = [py_to_bits(float(v), W[ob.tin]) if ob.tin[0] == 'f' else int(v) & ((1 << W[ob.tin]) - 1)
                    for v in vals]
        else:
            bits = self.default_sample()
        return bits

    def ghosts_for(self, bits):
        ob = self.ob
        if not ob.ghosts:
            return []
        if ob.gsample:
            if ob.tin[0] == 'f':
                return ob.gsample([tompf(b, W[ob.tin]) for b in bits], self.rng)
            return ob.gsample(bits, self.rng)
        return [mpf(self.rng.uniform(-4, 4)) for _ in range(ob.ghosts)]

    def search(self, seeds, t_end):
        """Native random search for a concrete failure, around the solver's models first."""
        ob, rng = self.ob, self.rng
        w = W[ob.tin]
        n = 0
        while time.time() < t_end:
            n += 1
            if seeds and ob.tin[0] == 'f' and rng.random() < .5:
                b0, g0 = rng.choice(seeds)
                s = 10 ** rng.uniform(-6, 0)
                bits = []
                for b in b0:
                    v = bits_to_py(b, w)
                    if math.isfinite(v):
                        v = v + rng.gauss(0, s) * (abs(v) + (.1 if rng.random() < .5 else 0))
                        bits.append(py_to_bits(v, w))
                    else:
                        bits.append(b)
                gv = g0 if rng.random() < .3 else self.ghosts_for(bits)
            else:
                bits = self.draw()
                gv = self.ghosts_for(bits)
            try:
                v = self.replay(bits, gv)
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if v:
                return (bits, gv, v, 'search near the solver model' if seeds else 'search')
        return None

    def witness(self):
        for _ in range(4000):
            bits = self.draw()
            gv = self.ghosts_for(bits)
            try:
                if not self.pre_ok(bits, gv):
                    continue
            except (ZeroDivisionError, ValueError):
                continue
            pan, _, _ = self.nat.run(self.ob.fn, self.ob.tin, self.ob.tout, bits)
            if not pan:
                return True
        return False

    # ------------------------------------------------------------ validation of the executor
    def validate(self, n):
        """Concrete runs of the executor against the native code.  Returns (runs, mismatches)."""
        ob = self.ob
        d = CDom()
        runs, bad, sample = 0, [], None
        for _ in range(n):
            bits = None
            for _ in range(30):
                b = self.draw()
                try:
                    if self.pre_ok(b, self.ghosts_for(b)):
                        bits = b
                        break
                except (ZeroDivisionError, ValueError, OverflowError):
                    pass
            if bits is None:
                bits = self.draw()
            pan, outs, fl = self.nat.run(ob.fn, ob.tin, ob.tout, bits)
            if sample is None:
                sh = lambda b: bits_to_py(b, W[ob.tout]) if ob.tout[0] == 'f' else b
                sample = dict(obligation=ob.name, function=ob.fn, inputs=[self.show(b) for b in bits], panicked=pan,
                              native_outputs=[sh(b) for b in outs[:min(ob.nout or 16, 16)]], native_flags=fl[:8])
            ex = Executor(self.prog, d, {})
            xs = [d.const(b, W[ob.tin]) if ob.tin[0] == 'f' else b for b in bits]
            for kind, pc, r in ex.explore(self.entry(ex, d, xs)):
                runs += 1
                if (kind == 'panic') != pan:
                    bad.append((bits, 'panic', pan, r))
                elif not pan:
                    o2, f2 = r
                    for k, v in enumerate(o2):
                        if v is UNDEF:
                            continue
                        b2 = d.to_bits(v) if is_float(v) else v
                        if ob.tout[0] == 'f' and not (b2 | outs[k]) & ((1 << (W[ob.tout] - 1)) - 1):
                            continue                      # two zeros: IEEE leaves the sign open for minNum and maxNum
                        if b2 != outs[k] and not (ob.tout[0] == 'f' and isnanb(b2, W[ob.tout]) and
                                                  isnanb(outs[k], W[ob.tout])):
                            bad.append((bits, 'out%d' % k, outs[k], b2))
                            break
                    for k, v in enumerate(f2):
                        if v is not UNDEF and v != fl[k]:
                            bad.append((bits, 'flag%d' % k, fl[k], v))
        return runs, bad, sample


def isnanb(b, w):
    return (b & ((1 << (w - 1)) - 1)) > (0x7f800000 if w == 32 else 0x7ff0000000000000)


def conc(g):
    if isinstance(g, bool):
        return g
    if z3.is_expr(g):
        s = z3.simplify(g)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        sv = z3.Solver()
        sv.set('timeout', 5000)
        sv.add(z3.Not(s))
        return sv.check() == z3.unsat
    return bool(g)


def tompf(b, w):
    v = bits_to_py(b, w)
    return mpf(v)


def linear_coeff(t, x):
    """k if t == k*x for a rational k, else None."""
    if t.eq(x):
        return Fraction(1)
    from symex import term_vars
    if term_vars(t) != {x.get_id()}:
        return None
    z = const_of(z3.simplify(z3.substitute(t, (x, z3.RealVal(0)))))
    o = const_of(z3.simplify(z3.substitute(t, (x, z3.RealVal(1)))))
    w = const_of(z3.simplify(z3.substitute(t, (x, z3.RealVal(2)))))
    if z == 0 and o and w == 2 * o:
        return o
    return None
