"""Symbolic executor for LLVM IR (as emitted by rustc).  One executor = one harness
function in one float domain.  Memory is concrete in shape (objects, offsets), symbolic
in scalar content.  Paths are explored by re-execution along decision prefixes."""
import re
import time

import z3

from domains import (const_of, fresh, CF, FV, RV, BitsOf, Unsupported, b_and, b_ite, b_not, b_or, simp_bool, tob)
import ring
from llir import IRError, ensure_parsed


class Limit(Exception):
    """A stated bound (paths, steps) was exceeded."""


class PanicEnd(Exception):
    def __init__(self, what):
        self.what = what


class Restart(Exception):
    pass


class Infeasible(Exception):
    pass


class NotMergeable(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Obj:
    __slots__ = ('size', 'cells', 'level', 'name', 'const')
    n = 0

    def __init__(self, size, level=0, name=None):
        self.size = size
        self.cells = {}
        self.level = level
        self.name = name
        self.const = False


class FuncObj:
    __slots__ = ('fname',)

    def __init__(self, fname):
        self.fname = fname


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%r+%r)' % (getattr(self.obj, 'name', self.obj), self.off)


NULL = Ptr(None, 0)


class Pieces:
    """A value assembled from several memory cells: list of (offset, size, value)."""
    __slots__ = ('size', 'parts')

    def __init__(self, size, parts):
        self.size = size
        self.parts = parts


def is_float(v):
    if type(v).__name__ == 'MV':
        return True
    return isinstance(v, (CF, FV, RV))


def mask(n):
    return (1 << n) - 1


def bvv(v, n):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def simp_bv(t):
    s = z3.simplify(t)
    if z3.is_bv_value(s):
        return s.as_long()
    return s


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


PANIC_RE = re.compile(r'9panicking|12handle_error|18handle_alloc_error|begin_panic|17rust_begin_unwind|'
                      r'slice_error_fail|slice_(start|end)_index|7expect_failed|13unwrap_failed|alloc_error|'
                      r'panic_bounds_check|assert_failed|capacity_overflow|process5abort')

MATHFN = {}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'hypot', 'fma', 'exp', 'log', 'pow', 'fmod',
           'cbrt', 'sinh', 'cosh', 'tanh', 'exp2', 'log2', 'log10', 'expm1', 'log1p', 'fdim'):
    MATHFN['@' + _n] = (_n, 64)
    MATHFN['@' + _n + 'f'] = (_n, 32)
INTRIN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqrt': 'sqrt', 'fabs': 'fabs', 'copysign': 'copysign',
          'minimumnum': 'min', 'maximumnum': 'max', 'minnum': 'min', 'maxnum': 'max', 'fma': 'fma',
          'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'roundeven': 'roundeven', 'rint': 'roundeven',
          'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2', 'exp': 'exp', 'log': 'log', 'pow': 'pow'}


def denominators(t):
    """non-constant divisors in t"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ch = x.children()
        if z3.is_app_of(x, z3.Z3_OP_DIV) and const_of(ch[1]) is None:
            out.append(ch[1])
        st.extend(ch)
    return out


INF = 'inf'


def succs(block):
    t = block[-1]
    for ins in block:
        if ins[0] in ('br', 'condbr', 'switch', 'ret', 'unreachable'):
            t = ins
            break
    k = t[0]
    return [t[2]] if k == 'br' else [t[3], t[4]] if k == 'condbr' else [t[4]] + [lab for _, lab in t[5]] if k == 'switch' else []


def uses(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
            out.add(x[1])
        else:
            for y in x:
                uses(y, out)
    elif isinstance(x, list):
        for y in x:
            uses(y, out)


def joins(f, b, most=14):
    B = f.blocks
    alive = {n for n in B if any(i[0] == 'ret' for i in B[n])}      # blocks from which the function can return
    more = True
    while more:
        new = {n for n in B if n not in alive and any(s in alive for s in succs(B[n]))}
        alive |= new
        more = bool(new)
    nx = lambda n: [s for s in succs(B[n]) if s in alive]
    if len(set(nx(b))) < 2:
        return None

    def region(j):
        seen, work = set(), [s for s in nx(b) if s != j]
        while work:
            n = work.pop()
            if n in seen:
                continue
            if n == b or any(i[0] == 'ret' for i in B[n]) or len(seen) > most:
                return None
            seen.add(n)
            work += [s for s in nx(n) if s != j]
        return seen
    # candidates in breadth-first order
    order, work = [], list(nx(b))
    while work and len(order) < 2 * most:
        n = work.pop(0)
        if n not in order:
            order.append(n)
            work += nx(n)
    for j in order:
        if j == b:
            continue
        r = region(j)
        if r is None:
            continue
        # no loop inside
        state = {}

        def cyc(n):
            state[n] = 1
            for s in nx(n):
                if s in r and (state.get(s) == 1 or s not in state and cyc(s)):
                    return True
            state[n] = 2
            return False
        if any(cyc(n) for n in r if n not in state):
            continue
        defs = {i[1] for n in r for i in B[n] if i[1] is not None and isinstance(i[1], str)}
        used = set()
        for n in B:
            if n in r:
                continue
            for i in B[n]:
                if not (n == j and i[0] == 'phi'):
                    uses(i[2:], used)
        if defs & used:
            return None
        return j
    return None


class Cut:
    """rx: function names; the result is an Option of floats written through the first argument: a 32-bit tag at offset
    0 and floats at the given offsets when the tag is 1.  facts(tag, values, args): what is shown and then used (a value
    is None where it is NaN).  requires(args): if given, the function is examined once for arbitrary float arguments that
    satisfy it."""

    def __init__(self, rx, offs, facts, w=32, requires=None, defs=None, sig=None, alts=(), inf=False):
        """defs: index of a value -> its definition by the other values (a function of the list of values)"""
        self.inf = inf                           # a value may be +infinity (the facts are then given INF)
        self.sig, self.alts = sig, list(alts)    # alts: other layouts of the result to try
        self.rx, self.offs, self.facts0, self.w, self.requires, self.defs = rx, offs, facts, w, requires, defs or {}

    def matches(self, f):
        """by name, or (sig: a pattern of the name and the parameter types) by module and signature"""
        if re.search(self.rx, f.name):
            return True
        return bool(self.sig and re.search(self.sig[0], f.name) and [t[0] for t, _n in f.params] == self.sig[1])

    def facts(self, tag, vals, args):
        return self.facts0(tag, vals, args) + [vals[k] == d(vals) for k, d in self.defs.items() if tag == 1]

    def split(self, ex, p):
        """Decides the tag and which values are NaN."""
        tag = ex.load(('int', 32), p)
        if tag is UNDEF:
            raise Unsupported('tag')
        if not isinstance(tag, int):
            tag = int(ex.decide(tag == 1))
        vals = []
        if tag == 1:
            for o in self.offs:
                v = ex.load(('float',) if self.w == 32 else ('double',), Ptr(p.obj, p.off + o))
                if v is UNDEF:
                    raise Unsupported('value')
                vals.append(None if ex.decide(v.nan) else INF if self.inf and ex.decide(v.pinf) else v)
        return tag, vals

    def write(self, ex, p, tag, vals):
        ex.raw_store(p, 4, tag)
        for o, v in zip(self.offs, vals):
            ex.raw_store(Ptr(p.obj, p.off + o), self.w // 8,
                         RV(self.w, z3.RealVal(0), nan=True) if v is None else RV(self.w, z3.RealVal(0), pinf=True) if v is INF else v)


class Executor:
    def __init__(self, prog, dom, opts=None):
        self.prog = prog
        self.dom = dom
        o = dict(max_paths=4000, max_steps=400000, max_depth=120, merge=True, feas_ms=400, prove_ms=400,
                 next_spec=False, linearise=None, only_linear=False, intercept=None, merge_all=False, merge_max_paths=64, wall=None,
                 no_merge=None, cuts=(), prover=None, roots=None, diamond=False)
        o.update(opts or {})
        self.o = o
        self.symbolic = dom.symbolic
        self.funcs_seen = {}
        self.steps = 0
        self.total_steps = 0
        self.npaths = 0
        self.feas_calls = 0
        self.ev = 0
        self.decide_cache = {}
        self.keep = []
        self.solver_s = 0.0
        self.unmergeable = set()
        self.joins = {}
        self.uncut = set()
        self.note = ''
        self.cut_cache = {}
        self.rootc, self.rootc2 = {}, {}
        self.gobjs = {}
        self.prove_cache = {}
        self.base = []          # preconditions
        self.t0 = time.time()
        if self.symbolic:
            dom.prove = self.prove
        self.level = 0
        self.undo = None

    # ------------------------------------------------------------ solver
    def relevant(self, fs):
        return relevant_axioms(self.dom, fs)

    def check(self, fs, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        fs = [tob(f) for f in fs]
        fs += self.relevant(fs)
        t = time.time()
        if self.o.get('linearise'):
            s2 = z3.SolverFor('QF_LRA')
            s2.set('timeout', ms)
            s2.add(*self.o['linearise'](fs))
            if s2.check() == z3.unsat:
                self.solver_s += time.time() - t
                self.feas_calls += 1
                return z3.unsat
            if self.o['only_linear']:
                return z3.unknown
        for f in fs:
            s.add(f)
        r = s.check()
        self.solver_s += time.time() - t
        self.feas_calls += 1
        return r

    def prove(self, cond):
        """True if cond follows from the current path (False: unknown or not)."""
        if cond is True:
            return True
        if cond is False:
            return False
        key = self.event()
        if key in self.prove_cache:
            self.same_point(self.prove_cache[key][1])
            return self.prove_cache[key][0]
        r = self.check(self.base + self.pc + [z3.Not(cond)], self.o['prove_ms']) == z3.unsat
        self.prove_cache[key] = (r, self.steps - self.steps0)
        return r

    def event(self):
        """Identifies the current point of the execution: the decisions and a counter, per merge level.  Solver answers
        are memoised under it, so that a replayed prefix meets exactly the same answers."""
        self.ev += 1
        return tuple((tuple(v for v, _ in t), n) for t, n in self.outer + [(self.trace, self.ev)])

    def same_point(self, steps):
        if steps != self.steps - self.steps0:
            raise Limit('replayed execution diverged')

    def assume(self, c):
        self.pc.append(c)

    def decide(self, cond):
        cond = simp_bool(cond)
        if cond is True or cond is False:
            return cond
        if self.o['wall'] and time.time() - self.t0 > self.o['wall']:
            raise Limit('time bound')
        i = self.di
        self.di += 1
        key = self.event()
        if i < len(self.prefix):
            v, c0 = self.prefix[i]
            self.same_point(c0)
            self.trace.append((v, c0))
            self.pc.append(cond if v else b_not(cond))
            return v
        if key in self.decide_cache:
            outcome, c0 = self.decide_cache[key]
            self.same_point(c0)
        else:
            ms = self.o['feas_ms']
            if self.check(self.base + self.pc + [cond], ms) == z3.unsat:
                outcome = 'F'
            elif self.check(self.base + self.pc + [z3.Not(cond)], ms) == z3.unsat:
                outcome = 'T'
            else:
                outcome = 'B'
            self.decide_cache[key] = (outcome, self.steps - self.steps0)
        v = outcome != 'F'
        if outcome == 'B':
            self.work.append(self.trace + [(False, self.steps - self.steps0)])
        self.trace.append((v, self.steps - self.steps0))
        self.pc.append(cond if v else b_not(cond))
        return v

    # ------------------------------------------------------------ memory
    def new_obj(self, size, name=None):
        return Obj(size, self.level, name)

    def touch(self, obj):
        """Called before obj is modified: supports merged sub-executions."""
        if self.undo is not None and obj.level < self.level:
            if id(obj) not in self.undo:
                self.undo[id(obj)] = (obj, dict(obj.cells))

    def overlap(self, obj, off, size):
        return [(o, c) for o, c in obj.cells.items() if o < off + size and off < o + c[0]]

    def split(self, obj, at):
        """Makes offset `at` a cell boundary."""
        for o, (sz, v) in list(obj.cells.items()):
            if o < at < o + sz:
                k = at - o
                self.touch(obj)
                lo = self.sub(v, sz, 0, k)
                hi = self.sub(v, sz, k, sz - k)
                obj.cells[o] = (k, lo)
                obj.cells[at] = (sz - k, hi)

    def sub(self, v, size, off, n):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return (v >> (8 * off)) & mask(8 * n)
        if isinstance(v, Pieces):
            return self.gather([(o, s, x) for o, s, x in v.parts], off, n)
        if is_float(v):
            b = self.dom.to_bits(v)
            if isinstance(b, BitsOf):
                raise Unsupported('part of a float')
            return self.sub(b, size, off, n)
        if isinstance(v, Ptr):
            if v.obj is None:
                return (v.off >> (8 * off)) & mask(8 * n)
            raise Unsupported('part of a pointer')
        return simp_bv(z3.Extract(8 * (off + n) - 1, 8 * off, bvv(v, size * 8)))

    def gather(self, parts, off, n):
        out = []
        pos = off
        for o, s, v in sorted(parts, key=lambda x: x[0]):
            if o + s <= off or o >= off + n:
                continue
            a, b = max(o, off), min(o + s, off + n)
            if a > pos:
                out.append((pos - off, a - pos, UNDEF))
            out.append((a - off, b - a, v if (a == o and b == o + s) else self.sub(v, s, a - o, b - a)))
            pos = b
        if pos < off + n:
            out.append((pos - off, off + n - pos, UNDEF))
        if len(out) == 1:
            return out[0][2]
        if all(x[2] is UNDEF for x in out):
            return UNDEF
        if all(isinstance(x[2], int) for x in out):
            r = 0
            for o, s, v in out:
                r |= v << (8 * o)
            return r
        return Pieces(n, out)

    def bounds(self, p, size):
        if not isinstance(p, Ptr) or p.obj is None or isinstance(p.obj, FuncObj):
            raise Unsupported('access through %r' % (p,))
        if p.off < 0 or p.off + size > p.obj.size:
            raise Unsupported('out of bounds access %r size %d of %d' % (p, size, p.obj.size))

    def raw_store(self, p, size, v):
        self.bounds(p, size)
        obj, off = p.obj, p.off
        self.touch(obj)
        c = obj.cells.get(off)
        if not (c and c[0] == size):
            self.split(obj, off)
            self.split(obj, off + size)
            for o, _ in self.overlap(obj, off, size):
                del obj.cells[o]
        if isinstance(v, Pieces):
            if off in obj.cells:
                del obj.cells[off]
            for o, s, x in v.parts:
                if x is not UNDEF:
                    obj.cells[off + o] = (s, x)
            return
        obj.cells[off] = (size, v)

    def raw_load(self, p, size):
        self.bounds(p, size)
        c = p.obj.cells.get(p.off)
        if c and c[0] == size:
            return c[1]
        parts = [(o, s, v) for o, (s, v) in self.overlap(p.obj, p.off, size)]
        return self.gather(parts, p.off, size)

    def store(self, ty, v, p):
        ty = self.prog.resolve(ty)
        if ty[0] in ('struct', 'array', 'vector'):
            if v is UNDEF:
                return
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            for i in range(n):
                off, et = self.prog.field_off(ty, i)
                self.store(et, v[i], Ptr(p.obj, p.off + off))
            return
        size = (ty[1] + 7) // 8 if ty[0] == 'int' else self.prog.size_align(ty)[0]
        if ty[0] == 'int' and ty[1] % 8:
            v = self.cast_bits(v, ty[1], size * 8)
        self.raw_store(p, size, v)

    def cast_bits(self, v, n, m):
        if v is UNDEF or isinstance(v, int):
            return int(v) if v is not UNDEF else v
        if z3.is_bool(v):
            return simp_bv(z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m)))
        return simp_bv(z3.ZeroExt(m - n, v))

    def load(self, ty, p):
        ty = self.prog.resolve(ty)
        if ty[0] in ('struct', 'array', 'vector'):
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            out = []
            for i in range(n):
                off, et = self.prog.field_off(ty, i)
                out.append(self.load(et, Ptr(p.obj, p.off + off)))
            return out
        size = (ty[1] + 7) // 8 if ty[0] == 'int' else self.prog.size_align(ty)[0]
        return self.convert(self.raw_load(p, size), ty, size)

    def convert(self, v, ty, size):
        if v is UNDEF:
            return v
        k = ty[0]
        if k == 'int':
            if isinstance(v, (Ptr, Pieces, BitsOf)):
                return self.pieces_int(v, size) if isinstance(v, Pieces) else v
            if is_float(v):
                return self.dom.to_bits(v)
            if isinstance(v, bool):
                v = int(v)
            if ty[1] < size * 8:
                v = self.trunc(v, size * 8, ty[1])
            return v
        if k in ('float', 'double'):
            if is_float(v):
                return v
            if isinstance(v, Pieces):
                v = self.pieces_int(v, size)
            return self.dom.from_bits(v, size * 8)
        if k == 'ptr':
            if isinstance(v, int):
                return Ptr(None, v)
            return v
        raise Unsupported('load %r' % (ty,))

    def pieces_int(self, v, size):
        """Pieces -> bit-vector if every part is an integer, else stays Pieces."""
        ps = []
        for o, s, x in v.parts:
            if isinstance(x, (Ptr, BitsOf, RV)) or x is UNDEF:
                return v
            if is_float(x):
                x = self.dom.to_bits(x)
                if not (isinstance(x, int) or z3.is_expr(x)):
                    return v
            ps.append(bvv(x, 8 * s))
        return simp_bv(z3.Concat(*reversed(ps)))

    def memcpy(self, d, s, n):
        if n == 0:
            return
        self.bounds(d, n)
        self.bounds(s, n)
        src = []
        pos = s.off
        for o, (sz, v) in sorted(self.overlap(s.obj, s.off, n)):
            a, b = max(o, s.off), min(o + sz, s.off + n)
            src.append((a - s.off, b - a, v if (a == o and b == o + sz) else self.sub(v, sz, a - o, b - a)))
        self.touch(d.obj)
        self.split(d.obj, d.off)
        self.split(d.obj, d.off + n)
        for o, _ in self.overlap(d.obj, d.off, n):
            del d.obj.cells[o]
        for o, sz, v in src:
            d.obj.cells[d.off + o] = (sz, v)

    # ------------------------------------------------------------ globals / constants
    def global_ptr(self, name):
        if name in self.gobjs:
            return self.gobjs[name]
        if name in self.prog.funcs or name in self.prog.decls and name not in self.prog.globals:
            p = Ptr(FuncObj(name), 0)
            self.gobjs[name] = p
            return p
        g = self.prog.globals.get(name)
        if g is None or g[0] != 'init':
            p = Ptr(Obj(8, 0, name), 0)
            self.gobjs[name] = p
            return p
        size = self.prog.size_align(g[1])[0]
        o = Obj(size, 0, name)
        p = Ptr(o, 0)
        self.gobjs[name] = p
        self.init_const(o, 0, g[1], g[2])
        return p

    def init_const(self, o, off, ty, v):
        ty = self.prog.resolve(ty)
        if v[0] == 'undef':
            return
        if v[0] == 'bytes':
            if v[1]:
                o.cells[off] = (len(v[1]), int.from_bytes(v[1], 'little'))
            return
        if v[0] == 'zero':
            s = self.prog.size_align(ty)[0]
            if s:
                o.cells[off] = (s, 0)
            return
        if v[0] == 'agg':
            for i, (et, e) in enumerate(v[1]):
                fo, _ = self.prog.field_off(ty, i)
                self.init_const(o, off + fo, et, e)
            return
        s = self.prog.size_align(ty)[0]
        o.cells[off] = (s, self.const_val(v, ty))

    def const_val(self, v, ty):
        k = v[0]
        if k == 'i':
            if ty == ('int', 1):
                return bool(v[1])
            return v[1]
        if k == 'f':
            return self.dom.const(v[1], 32 if v[2][0] == 'float' else 64)
        if k == 'g':
            return self.global_ptr(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const_val(e, t) for t, e in v[1]]
        if k == 'gep':
            return self.gep(v[1], self.const_val(v[2], ('ptr',)), [(t, self.const_val(i, t)) for t, i in v[3]])
        if k == 'inttoptr':
            x = self.const_val(v[1], v[2])
            return Ptr(None, x) if isinstance(x, int) else x
        if k in ('ptrtoint', 'bitcast'):
            return self.const_val(v[1], v[2])
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty):
        ty = self.prog.resolve(ty)
        if ty[0] == 'int':
            return False if ty[1] == 1 else 0
        if ty[0] == 'float':
            return self.dom.const(0, 32)
        if ty[0] == 'double':
            return self.dom.const(0, 64)
        if ty[0] == 'ptr':
            return NULL
        if ty[0] in ('array', 'vector'):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        return [self.zero(t) for t in ty[1]]

    def gep(self, et, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = et
        first = True
        for it, iv in idx:
            if not isinstance(iv, int) or isinstance(iv, bool):
                iv = self.concretize(iv, it[1])
            iv = sgn(iv, it[1])
            if first:
                off += iv * self.prog.size_align(t)[0]
                first = False
            else:
                fo, t = self.prog.field_off(t, iv)
                off += fo
        return Ptr(base.obj, off)

    def concretize(self, v, n):
        """Forks over the feasible values of a symbolic index."""
        if v is UNDEF or isinstance(v, (Ptr, Pieces, BitsOf)):
            raise Unsupported('index %r' % (v,))
        for k in range(64):
            if self.decide(simp_bool(v == z3.BitVecVal(k, n))):
                return k
        raise Unsupported('symbolic index')

    # ------------------------------------------------------------ exploration
    def explore(self, run):
        """run() executes the harness; yields ('ok'|'panic', pc, result) per feasible path."""
        self.work = [[]]
        self.outer = []
        while self.work:
            self.prefix = self.work.pop()
            self.di = 0
            self.trace = []
            self.pc = []
            self.steps = self.steps0 = 0
            self.level = 0
            self.undo = None
            self.outer = []
            self.gobjs = {}
            self.ev = 0
            self.npaths += 1
            if self.npaths > self.o['max_paths']:
                raise Limit('path bound %d exceeded' % self.o['max_paths'])
            try:
                res = run()
                yield ('ok', list(self.pc), res)
            except PanicEnd as e:
                yield ('panic', list(self.pc), e.what)
            except Infeasible:
                pass
            except Restart:
                # a function turned out not to be mergeable: start over without merging it
                self.work = [[]]
                self.decide_cache.clear()
                self.prove_cache.clear()
            self.total_steps += self.steps

    # ------------------------------------------------------------ calls
    def call_function(self, name, args, depth):
        if depth > self.o['max_depth']:
            raise Limit('call depth')
        ic = self.o['intercept']
        if ic is not None:
            r = ic(self, name, args)
            if r is not NotImplemented:
                return r
        if self.o['next_spec'] and self.symbolic:
            m = re.search(r'6GFloat(7next_up|9next_down)$', name)
            if m and len(args) == 1 and is_float(args[0]):
                r = self.dom.next(m.group(1) == '7next_up', args[0])
                if r is not None:
                    return r
        f = self.prog.funcs.get(name)
        if f is None:
            return self.external(name, args)
        for cut in self.o['cuts'] if self.symbolic else ():
            if f.name not in self.uncut and cut.matches(f):
                return self.call_cut(cut, f, args, depth)
        if self.symbolic and self.o['merge'] and self.mergeable(f, args):
            return self.call_merged(f, args, depth)
        return self.exec(f, args, depth)

    def mergeable(self, f, args):
        if f.name in self.unmergeable:
            return False
        if self.o['no_merge'] and re.search(self.o['no_merge'], f.name):
            return False
        if self.o['merge_all'] and re.search(self.o['merge_all'], f.name):
            return True
        if f.ret[0] not in ('float', 'double', 'int'):
            return False
        if not args:
            return False
        return all(is_float(a) or isinstance(a, (int, bool)) or z3.is_expr(a) for a in args)

    def call_cut(self, cut, f, args, depth):
        """Explores f on its own, shows on each of its paths that the result satisfies the stated facts, and goes on with
        an arbitrary result that satisfies them (one continuation per shape of result instead of one per path)."""
        p = args[0]
        key = self.event()
        ts = lambda xs: [x if x is None or x is INF else x.r for x in xs]
        fl = lambda xs: [x.r for x in xs if is_float(x)]
        if key not in self.cut_cache:
            state = (self.steps, self.ev, self.base, self.pc)
            groups = {}
            try:
                a2 = list(args)
                if cut.requires:
                    a2 = [self.dom.input(fresh('arg'), x.w) if is_float(x) else x for x in args]
                    for need in cut.requires(fl(args)) + [x.fin for x in args if is_float(x)]:
                        if need is not True and (need is False or not self.o['prover'](self.base + self.pc + [b_not(need)])):
                            raise Unsupported('precondition of the cut')
                    self.base, self.pc = cut.requires(fl(a2)), []
                results = self.sub_paths(f, a2, depth, lambda: cut.split(self, p))
                if results is None:
                    raise Unsupported('paths')
                for kind, (tag, vals), mods, pc in results:
                    if any(o is not p.obj for o, _ in mods.values()):
                        raise Unsupported('other effects')
                    for fact in cut.facts(tag, ts(vals), fl(a2)) + [v.fin for v in vals if v is not None and v is not INF]:
                        if fact is not True and (fact is False or not self.o['prover'](self.base + pc + [b_not(fact)])):
                            raise Unsupported('fact not shown')
                    sh = (tag, tuple(2 if v is INF else int(v is None) for v in vals))
                    if sh not in groups:
                        vs = groups[sh] = [v if v is None or v is INF else self.dom.input(fresh('cut'), v.w) for v in vals]
                        for k, d in cut.defs.items() if tag == 1 else ():
                            vs[k] = RV(vs[k].w, d(ts(vs)))
            except Unsupported as e:
                if cut.alts:
                    cut.offs = cut.alts.pop(0)
                    raise Restart()
                self.uncut.add(f.name)
                self.note = 'no cut at %s: %s' % (f.name, e)
                raise Restart()
            finally:
                self.total_steps += self.steps - state[0]
                self.steps, self.ev, self.base, self.pc = state
            val = (groups, [z3.Bool(fresh('choice')) for _ in groups])
            if cut.requires and not any(isinstance(x, Ptr) for x in args[1:]):
                # a function of its float arguments: the same arguments give the same result
                rs = [x.r for x in args if is_float(x)]
                self.keep += rs
                val = self.cut_cache.setdefault(('args', f.name) + tuple(r.get_id() for r in rs), val)
            self.cut_cache[key] = val
        groups, flags = self.cut_cache[key]
        shapes = sorted(groups)
        pick = shapes[-1]
        for t, b in zip(shapes[:-1], flags):
            if self.decide(b):
                pick = t
                break
        self.pc += [x for x in cut.facts(pick[0], ts(groups[pick]), fl(args)) if x is not True]
        cut.write(self, p, pick[0], groups[pick])
        return None

    def sub_paths(self, f, args, depth, after):
        """All paths of f from the current state: (kind, value of after(), modified objects, path condition), or None."""
        outer = (self.prefix, self.di, self.trace, self.pc, self.work, self.level, self.undo, self.steps0, self.ev)
        self.ev += 1
        base_pc = self.pc
        results, work = [], [[]]
        try:
            self.level += 1
            self.outer = self.outer + [(outer[2], self.ev)]
            while work:
                self.prefix = work.pop()
                self.work, self.di, self.trace, self.pc, self.undo = work, 0, [], list(base_pc), {}
                self.steps0, self.ev = self.steps, 0
                if len(results) > 1000:
                    raise NotMergeable()
                try:
                    self.exec(f, args, depth)
                    r, kind = after(), 'ok'
                except PanicEnd as e:
                    raise Unsupported('panic')
                finally:
                    mods = [(o, old, o.cells) for o, old in self.undo.values()]
                    for o, old, new in mods:
                        o.cells = old
                results.append((kind, r, {id(o): (o, new) for o, old, new in mods}, self.pc))
        except NotMergeable:
            results = None
        finally:
            self.outer = self.outer[:-1]
            (self.prefix, self.di, self.trace, self.pc, self.work, self.level, self.undo,
             self.steps0, self.ev) = outer
            self.ev += 1
        return results

    def call_merged(self, f, args, depth):
        outer = (self.prefix, self.di, self.trace, self.pc, self.work, self.level, self.undo, self.steps0, self.ev)
        self.ev += 1
        base_pc = self.pc
        results = []
        work = [[]]
        try:
            self.level += 1
            self.outer = self.outer + [(outer[2], self.ev)]
            while work:
                self.prefix = work.pop()
                self.work = work
                self.di = 0
                self.trace = []
                self.pc = list(base_pc)
                self.undo = {}
                self.steps0 = self.steps
                self.ev = 0
                if len(results) > self.o['merge_max_paths']:
                    raise NotMergeable()
                try:
                    r = self.exec(f, args, depth)
                    kind = 'ok'
                except PanicEnd as e:
                    r, kind = e.what, 'panic'
                finally:
                    mods = [(o, old, o.cells) for o, old in self.undo.values()]
                    for o, old, new in mods:
                        o.cells = old
                cond = b_and(*self.pc[len(base_pc):])
                results.append((kind, cond, r, {id(o): (o, new) for o, old, new in mods}))
            merged = None
        except NotMergeable:
            results = None
        finally:
            self.outer = self.outer[:-1]
            (self.prefix, self.di, self.trace, self.pc, self.work, self.level, self.undo,
             self.steps0, self.ev) = outer
            self.ev += 1
        if results is None:
            self.unmergeable.add(f.name)
            raise Restart()
        oks = [r for r in results if r[0] == 'ok']
        pans = [r for r in results if r[0] == 'panic']
        try:
            if oks:
                acc = oks[-1][2]
                for k in range(len(oks) - 2, -1, -1):
                    acc = self.ite(oks[k][1], oks[k][2], acc, f.ret)
                objs = {}
                for r in oks:
                    for i, (o, new) in r[3].items():
                        objs[i] = o
                finals = []
                for i, o in objs.items():
                    cur = None
                    for r in reversed(oks):
                        cells = r[3][i][1] if i in r[3] else o.cells
                        cur = cells if cur is None else self.merge_cells(r[1], cells, cur)
                    finals.append((o, cur))
        except NotMergeable:
            self.unmergeable.add(f.name)
            raise Restart()
        if pans:
            pc = b_or(*[r[1] for r in pans])
            if not oks or self.decide(pc):
                raise PanicEnd(pans[0][2])
        for o, cur in finals:
            self.touch(o)
            o.cells = cur
        return acc

    def merge_cells(self, c, a, b):
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                if a[k] is b[k] or (a[k][0] == b[k][0] and a[k][1] is b[k][1]):
                    out[k] = a[k]
                    continue
                if a[k][0] != b[k][0]:
                    raise NotMergeable()
                out[k] = (a[k][0], self.ite(c, a[k][1], b[k][1], None, a[k][0]))
            else:
                out[k] = a.get(k) or b.get(k)   # undefined on the other side
        return out

    def ite(self, c, a, b, ty, size=None):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, list):
            ts = self.agg_types(ty)
            return [self.ite(c, x, y, t) for x, y, t in zip(a, b, ts)]
        if is_float(a) and is_float(b):
            return self.dom.ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off:
            return a
        if isinstance(a, (Ptr, Pieces, BitsOf)) or isinstance(b, (Ptr, Pieces, BitsOf)):
            raise NotMergeable()
        isb = isinstance(a, bool) or (z3.is_expr(a) and z3.is_bool(a))
        isb2 = isinstance(b, bool) or (z3.is_expr(b) and z3.is_bool(b))
        if isb and isb2:
            return simp_bool(b_ite(c, a, b))
        if is_float(a) or is_float(b):
            raise NotMergeable()
        if isinstance(a, int) and isinstance(b, int) and a == b and not isb and not isb2:
            return a
        n = size * 8 if size else (self.prog.resolve(ty)[1] if ty else None)
        if n is None:
            n = a.size() if z3.is_bv(a) else b.size()
        return simp_bv(z3.If(c, bvv(a, n), bvv(b, n)))

    def agg_types(self, ty):
        ty = self.prog.resolve(ty)
        if ty[0] == 'struct':
            return ty[1]
        return [ty[2]] * ty[1]

    def external(self, name, args):
        dom = self.dom
        if name in MATHFN:
            fn, w = MATHFN[name]
            return dom.call(fn, args)
        if name.startswith('@llvm.'):
            return self.intrinsic(name[6:], args)
        if PANIC_RE.search(name):
            raise PanicEnd(name)
        if name.endswith('rust_no_alloc_shim_is_unstable_v2') or 'no_alloc_shim' in name:
            return None
        if '__rust_alloc' in name or '__rustc12___rust_alloc' in name or re.search(r'___rust_alloc', name):
            size = args[0]
            o = self.new_obj(size, 'heap')
            if 'zeroed' in name:
                o.cells[0] = (size, 0)
            return Ptr(o, 0)
        if '___rust_dealloc' in name:
            return None
        if 'grow_amortized' in name or 'grow_one' in name:
            return self.grow(name, args)
        if '10deallocate' in name:
            return None
        raise Unsupported('external function ' + name)

    def grow(self, name, args):
        # RawVecInner { cap: usize @0, ptr @8, .. }; args (self, len, additional, layout...)
        selfp = args[0]
        ints = [a for a in args[1:] if isinstance(a, int)]
        cap = self.load(('int', 64), selfp)
        ptr = self.load(('ptr',), Ptr(selfp.obj, selfp.off + 8))
        if 'grow_one' in name:
            size = ints[-1]
            need = cap + 1
        else:
            need = ints[0] + ints[1]
            size = ints[-1]
        ncap = max(cap * 2, need, 4)
        o = self.new_obj(ncap * size, 'heap')
        if cap and isinstance(ptr.obj, Obj):
            self.memcpy(Ptr(o, 0), ptr, min(cap * size, ptr.obj.size))
        self.store(('int', 64), ncap, selfp)
        self.store(('ptr',), Ptr(o, 0), Ptr(selfp.obj, selfp.off + 8))
        return [(1 << 64) - 1, 0]      # Ok(())

    def intrinsic(self, n, args):
        dom = self.dom
        base = n.split('.')[0]
        if base in ('lifetime', 'assume', 'dbg', 'experimental', 'prefetch', 'donothing', 'sideeffect'):
            return None
        if base == 'expect':
            return args[0]
        if base in ('memcpy', 'memmove'):
            if not isinstance(args[2], int):
                raise Unsupported('symbolic memcpy size')
            self.memcpy(args[0], args[1], args[2])
            return None
        if base == 'memset':
            if args[1] is UNDEF:
                return None
            if args[1] not in (0,):
                v = int.from_bytes(bytes([args[1]]) * args[2], 'little')
            else:
                v = 0
            if args[2]:
                self.raw_store(args[0], args[2], v)
            return None
        if base in INTRIN:
            return dom.call(INTRIN[base], args)
        if base == 'trap':
            raise PanicEnd('llvm.trap')
        m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if m:
            s, op, w = m.group(1), m.group(2), int(m.group(3))
            a, b = args
            if isinstance(a, int) and isinstance(b, int):
                x, y = (sgn(a, w), sgn(b, w)) if s == 's' else (a, b)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                rm = r & mask(w)
                return [rm, (sgn(rm, w) if s == 's' else rm) != r]
            A, B = bvv(a, w), bvv(b, w)
            ext = (lambda t, k: z3.SignExt(k, t)) if s == 's' else (lambda t, k: z3.ZeroExt(k, t))
            k = w if op == 'mul' else 1
            if s == 'u' and op == 'sub':
                return [simp_bv(A - B), simp_bool(z3.ULT(A, B))]
            X, Y = ext(A, k), ext(B, k)
            R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
            lo = {'add': A + B, 'sub': A - B, 'mul': A * B}[op]
            return [simp_bv(lo), simp_bool(ext(lo, k) != R)]
        m = re.match(r'(fptosi|fptoui)\.sat\.i(\d+)\.', n)
        if m:
            return dom.to_int_sat(args[0], m.group(1) == 'fptosi', int(m.group(2)))
        m = re.match(r'(s|u)(min|max)\.i(\d+)$', n)
        if m:
            w = int(m.group(3))
            a, b = args
            if isinstance(a, int) and isinstance(b, int):
                k = (lambda t: sgn(t, w)) if m.group(1) == 's' else (lambda t: t)
                return (min if m.group(2) == 'min' else max)(a, b, key=k)
            A, B = bvv(a, w), bvv(b, w)
            lt = (A < B) if m.group(1) == 's' else z3.ULT(A, B)
            return simp_bv(z3.If(lt, A, B) if m.group(2) == 'min' else z3.If(lt, B, A))
        m = re.match(r'abs\.i(\d+)$', n)
        if m:
            w = int(m.group(1))
            if isinstance(args[0], int):
                return abs(sgn(args[0], w)) & mask(w)
            A = args[0]
            return simp_bv(z3.If(A < 0, -A, A))
        m = re.match(r'ctpop\.i(\d+)$', n)
        if m and isinstance(args[0], int):
            return bin(args[0]).count('1')
        m = re.match(r'is\.fpclass\.f(\d+)$', n)
        if m:
            a = args[0]
            w = a.w
            inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
            sb = 1 << (w - 1)
            tst = args[1]
            isnan = dom.fcmp('uno', a, a)
            pinf = dom.fcmp('oeq', a, dom.const(inf, w))
            ninf = dom.fcmp('oeq', a, dom.const(inf | sb, w))
            fin = b_not(b_or(isnan, pinf, ninf))
            r = []
            if tst & 3:
                r.append(isnan)
            if tst & 4:
                r.append(ninf)
            if tst & 0x200:
                r.append(pinf)
            if tst & 0x1f8 == 0x1f8:
                r.append(fin)
            elif tst & 0x1f8:
                raise Unsupported('fpclass')
            return simp_bool(b_or(*r))
        raise Unsupported('intrinsic ' + n)

    # ------------------------------------------------------------ interpreter
    def exec(self, f, args, depth):
        ensure_parsed(f)
        self.funcs_seen[f.name] = self.funcs_seen.get(f.name, 0) + 1
        regs = {}
        if self.symbolic:
            self.keep.append(regs)   # terms stay alive, so that simplification is the same on every replay
        for (t, n), a in zip(f.params, args):
            if n is not None:
                regs[n] = a
        for i, ((t, n), a) in enumerate(zip(f.params, args)):
            if n is None:
                regs['%%%d' % i] = a
        return self.run_blocks(f, regs, f.entry, None, None, depth)[1]

    def run_blocks(self, f, regs, cur, prev, stop, depth, skip_phis=False):
        """Executes from block cur.  ('ret', value), or ('stop', values of the phis of the block stop) when it is reached."""
        prog = self.prog
        dom = self.dom

        def val(op, ty):
            if op[0] == 'r':
                return regs[op[1]]
            return self.const_val(op, ty)

        while True:
            block = f.blocks[cur]
            nxt = None
            phis = {}
            if cur == stop:
                out = []
                for ins in block:
                    if ins[0] != 'phi':
                        break
                    out.append((ins[1], ins[2], next(val(v, ins[2]) for v, lab in ins[3] if lab == prev)))
                return 'stop', out
            for ins in block:
                if skip_phis:
                    if ins[0] == 'phi':
                        continue
                    skip_phis = False
                self.steps += 1
                if self.steps > self.o['max_steps']:
                    raise Limit('step bound')
                k = ins[0]
                if k == 'load':
                    regs[ins[1]] = self.load(ins[2], val(ins[3], ('ptr',)))
                elif k == 'store':
                    self.store(ins[2], val(ins[3], ins[2]), val(ins[4], ('ptr',)))
                elif k == 'gep':
                    regs[ins[1]] = self.gep(ins[2], val(ins[3], ('ptr',)), [(t, val(i, t)) for t, i in ins[4]])
                elif k == 'alloca':
                    sz = prog.size_align(ins[2])[0]
                    cnt = val(ins[3], ('int', 64))
                    regs[ins[1]] = Ptr(self.new_obj(sz * cnt, ins[1]), 0)
                elif k == 'call':
                    callee = ins[3]
                    av = [val(v, t) if t[0] != 'metadata' else None for t, v in ins[4]]
                    if callee[0] == 'r':
                        fp = regs[callee[1]]
                        if not isinstance(fp, Ptr) or not isinstance(fp.obj, FuncObj):
                            raise Unsupported('indirect call through %r' % (fp,))
                        name = fp.obj.fname
                    elif callee[0] == 'g':
                        name = callee[1]
                    else:
                        raise Unsupported('callee')
                    r = self.call_function(name, av, depth + 1)
                    if ins[1] is not None:
                        regs[ins[1]] = r
                elif k == 'bin':
                    regs[ins[1]] = self.binop(ins[2], ins[3], val(ins[4], ins[3]), val(ins[5], ins[3]))
                elif k == 'fcmp':
                    regs[ins[1]] = dom.fcmp(ins[2], val(ins[4], ins[3]), val(ins[5], ins[3]))
                elif k == 'icmp':
                    regs[ins[1]] = self.icmp(ins[2], ins[3], val(ins[4], ins[3]), val(ins[5], ins[3]))
                elif k == 'br':
                    nxt = ins[2]
                    break
                elif k == 'condbr':
                    c = val(ins[2], ('int', 1))
                    if c is UNDEF:
                        raise Unsupported('branch on undef')
                    if self.o['diamond'] and self.symbolic and not isinstance(c, bool):
                        join = self.join_of(f, cur)
                        if join is not None and not isinstance(simp_bool(c), bool):
                            self.branch_merged(f, regs, cur, ins, join, depth)
                            nxt, skip_phis = join, True
                            break
                    nxt = ins[3] if self.decide(c) else ins[4]
                    break
                elif k == 'ret':
                    return 'ret', None if ins[2] is None else val(ins[3], ins[2])
                elif k == 'extractvalue':
                    v = val(ins[3], ins[2])
                    for i in ins[4]:
                        v = UNDEF if v is UNDEF else v[i]
                    regs[ins[1]] = v
                elif k == 'insertvalue':
                    v = val(ins[3], ins[2])
                    regs[ins[1]] = self.insertv(v, ins[2], val(ins[5], ins[4]), ins[6])
                elif k == 'cast':
                    regs[ins[1]] = self.cast(ins[2], ins[3], val(ins[4], ins[3]), ins[5])
                elif k == 'fneg':
                    regs[ins[1]] = dom.neg(val(ins[3], ins[2]))
                elif k == 'switch':
                    v = val(ins[3], ins[2])
                    if isinstance(v, bool):
                        v = int(v)
                    if isinstance(v, int):
                        nxt = ins[4]
                        for cv, lab in ins[5]:
                            if cv == v:
                                nxt = lab
                                break
                    else:
                        if not z3.is_expr(v):
                            raise Unsupported('switch on %r' % (v,))
                        nxt = None
                        n = ins[2][1]
                        for cv, lab in ins[5]:
                            c = (v if cv else z3.Not(v)) if z3.is_bool(v) else v == z3.BitVecVal(cv, n)
                            if self.decide(simp_bool(c)):
                                nxt = lab
                                break
                        if nxt is None:
                            nxt = ins[4]
                    break
                elif k == 'phi':
                    for v, lab in ins[3]:
                        if lab == prev:
                            phis[ins[1]] = val(v, ins[2])
                            break
                    else:
                        raise IRError('phi')
                    # phis read their operands simultaneously
                    j = block.index(ins)
                    if not (j + 1 < len(block) and block[j + 1][0] == 'phi'):
                        regs.update(phis)
                elif k == 'select':
                    c = val(ins[3], ('int', 1))
                    a, b = val(ins[4], ins[2]), val(ins[5], ins[2])
                    c = simp_bool(c)
                    if c is True or c is False:
                        regs[ins[1]] = a if c else b
                    else:
                        try:
                            regs[ins[1]] = self.ite(c, a, b, ins[2])
                        except NotMergeable:
                            regs[ins[1]] = a if self.decide(c) else b
                elif k == 'unreachable':
                    raise Unsupported('reached unreachable in ' + f.name)
                elif k == 'freeze':
                    regs[ins[1]] = val(ins[3], ins[2])
                elif k == 'extractelement':
                    regs[ins[1]] = val(ins[3], ins[2])[val(ins[4], ('int', 64))]
                elif k == 'insertelement':
                    v = val(ins[3], ins[2])
                    v = [UNDEF] * ins[2][1] if v is UNDEF else list(v)
                    v[val(ins[5], ('int', 64))] = val(ins[4], ins[2][2])
                    regs[ins[1]] = v
                else:
                    raise Unsupported('instruction %r' % (ins[:3],))
            prev, cur = cur, nxt
            if cur is None:
                raise IRError('fell off block')

    def join_of(self, f, b):
        """The block where the two sides of the branch at the end of block b meet again, if what lies between is small, has
        no loop and no way out other than a panic, and defines no register that is used behind it."""
        key = (f.name, b)
        if key in self.unmergeable:
            return None
        if key not in self.joins:
            self.joins[key] = joins(f, b)
        return self.joins[key]

    def branch_merged(self, f, regs, cur, ins, join, depth):
        """Executes both sides of a branch up to the block where they meet and merges the states."""
        outer = (self.prefix, self.di, self.trace, self.pc, self.work, self.level, self.undo, self.steps0, self.ev)
        self.ev += 1
        base_pc = self.pc
        results, work, failed = [], [[]], False
        try:
            self.level += 1
            self.outer = self.outer + [(outer[2], self.ev)]
            while work:
                self.prefix = work.pop()
                self.work, self.di, self.trace, self.pc, self.undo = work, 0, [], list(base_pc), {}
                self.steps0, self.ev = self.steps, 0
                if len(results) > 8:
                    raise NotMergeable()
                r2 = dict(regs)
                self.keep.append(r2)
                c = r2[ins[2][1]] if ins[2][0] == 'r' else self.const_val(ins[2], ('int', 1))
                try:
                    nxt = ins[3] if self.decide(c) else ins[4]
                    kind, phis = self.run_blocks(f, r2, nxt, cur, join, depth)
                    if kind != 'stop':
                        raise NotMergeable()
                except PanicEnd:
                    raise NotMergeable()
                finally:
                    mods = [(o, old, o.cells) for o, old in self.undo.values()]
                    for o, old, new in mods:
                        o.cells = old
                results.append((b_and(*self.pc[len(base_pc):]), phis, {id(o): (o, new) for o, old, new in mods}))
        except NotMergeable:
            failed = True
        finally:
            self.outer = self.outer[:-1]
            (self.prefix, self.di, self.trace, self.pc, self.work, self.level, self.undo,
             self.steps0, self.ev) = outer
            self.ev += 1
        try:
            if failed:
                raise NotMergeable()
            vals = []
            for k, (n, ty, v) in enumerate(results[-1][1]):
                for r in reversed(results[:-1]):
                    v = self.ite(r[0], r[1][k][2], v, ty)
                vals.append((n, v))
            objs = {i: o for r in results for i, (o, new) in r[2].items()}
            finals = []
            for i, o in objs.items():
                cells = None
                for r in reversed(results):
                    new = r[2][i][1] if i in r[2] else o.cells
                    cells = new if cells is None else self.merge_cells(r[0], new, cells)
                finals.append((o, cells))
        except NotMergeable:
            self.unmergeable.add((f.name, cur))
            raise Restart()
        for o, cells in finals:
            self.touch(o)
            o.cells = cells
        regs.update(vals)

    def insertv(self, v, ty, e, idx):
        ty = self.prog.resolve(ty)
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        i = idx[0]
        if len(idx) == 1:
            v[i] = e
        else:
            et = ty[1][i] if ty[0] == 'struct' else ty[2]
            v[i] = self.insertv(v[i], et, e, idx[1:])
        return v

    def trunc(self, v, n, m):
        if v is UNDEF:
            return v
        if isinstance(v, Pieces):
            v2 = self.sub(v, v.size, 0, m // 8) if m % 8 == 0 else None
            if v2 is None:
                raise Unsupported('trunc of pieces')
            return v2 if not is_float(v2) else BitsOf(v2) if isinstance(v2, RV) else self.dom.to_bits(v2)
        if isinstance(v, (Ptr, BitsOf)):
            raise Unsupported('trunc of %r' % (v,))
        if isinstance(v, int):
            r = v & mask(m)
            return bool(r) if m == 1 else r
        if m == 1:
            return simp_bool(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
        return simp_bv(z3.Extract(m - 1, 0, v))

    def cast(self, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        dom = self.dom
        if op == 'trunc':
            return self.trunc(v, t[1], t2[1])
        if op in ('zext', 'sext'):
            n, m = t[1], t2[1]
            if isinstance(v, bool):
                return (mask(m) if op == 'sext' else 1) if v else 0
            if isinstance(v, int):
                return sgn(v, n) & mask(m) if op == 'sext' else v
            if isinstance(v, BitsOf) or isinstance(v, (Ptr, Pieces)):
                if op == 'zext' and isinstance(v, BitsOf):
                    return Pieces(m // 8, [(0, n // 8, v.v), (n // 8, (m - n) // 8, 0)])
                raise Unsupported('ext of %r' % (v,))
            if z3.is_bool(v):
                one = mask(m) if op == 'sext' else 1
                return simp_bv(z3.If(v, z3.BitVecVal(one, m), z3.BitVecVal(0, m)))
            return simp_bv(z3.SignExt(m - n, v) if op == 'sext' else z3.ZeroExt(m - n, v))
        if op == 'bitcast':
            if t[0] == 'int' and t2[0] in ('float', 'double'):
                if isinstance(v, Pieces):
                    raise Unsupported('bitcast of pieces')
                return dom.from_bits(v, t[1])
            if t[0] in ('float', 'double') and t2[0] == 'int':
                return dom.to_bits(v)
            return v
        if op in ('ptrtoint', 'ptrtoaddr'):
            if isinstance(v, Ptr) and v.obj is None:
                return v.off
            return v
        if op == 'inttoptr':
            return Ptr(None, v) if isinstance(v, int) else v
        if op == 'fpext':
            return dom.fpext(v, 64)
        if op == 'fptrunc':
            return dom.fptrunc(v, 32)
        if op in ('sitofp', 'uitofp'):
            return dom.from_int(int(v) if isinstance(v, bool) else v, op == 'sitofp', t[1],
                                32 if t2[0] == 'float' else 64)
        raise Unsupported('cast ' + op)

    def root_value(self, v):
        """Where the normaliser shows that v is a root of the given quadratic a t^2 + b t + c (coefficients: terms over the
        inputs), goes on with an arbitrary root in its place; a second root is known by the sum of the two."""
        if not isinstance(v, RV) or const_of(v.r) is not None:
            return v
        a, b, c = self.o['roots']
        key = v.r.get_id()
        if key not in self.rootc:
            sq = [(q, t) for q, t in self.dom.rules if str(q).startswith('sqrt')]
            ids = {x.get_id() for x in ring.collect([v.r])}
            used = [t for q, t in sq if q.get_id() in ids]
            ok = bool(used) and self.ring_zero(a * v.r * v.r + b * v.r + c)
            self.rootc[key] = (v.r, used, denominators(v.r), self.dom.input(fresh('root'), v.w)) if ok else None
            self.keep.append(v.r)
        if self.rootc[key] is None:
            return v
        if not self.decide(v.fin):
            if not self.decide(v.nan):
                return v
            none = z3.And(b == 0, c == 0)
            if self.prove(none):
                self.pc.append(none)
            return RV(v.w, z3.RealVal(0), nan=True)
        r, used, dens, T = self.rootc[key]
        if not all([self.prove(simp_bool(t >= 0)) for t in used] + [self.prove(simp_bool(d != 0)) for d in dens]):
            return v
        self.pc.append(a * T.r * T.r + b * T.r + c == 0)
        for k2, e2 in list(self.rootc.items()):
            if k2 != key and e2 is not None:
                pk = (min(key, k2), max(key, k2))
                if pk not in self.rootc2:
                    self.rootc2[pk] = self.ring_zero(a * (r + e2[0]) + b)
                if self.rootc2[pk]:
                    self.pc += [a * (T.r + e2[3].r) == -b, a * T.r * e2[3].r == c]
        return T

    def ring_zero(self, t):
        try:
            return not ring.Ring([t], list(self.dom.rules), cap=50000).residual(t)
        except (ring.NoNormal, RecursionError):
            return False

    def binop(self, op, t, a, b):
        if t[0] in ('float', 'double'):
            v = self.dom.bin(op, a, b)
            if self.o['roots'] and self.symbolic and op in ('fmul', 'fdiv'):
                v = self.root_value(v)
            return v
        n = t[1]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b, n)
        if n == 1:
            if op == 'and':
                return simp_bool(b_and(a, b))
            if op == 'or':
                return simp_bool(b_or(a, b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                    return bool(a) != bool(b)
                return simp_bool(z3.Xor(tob(a), tob(b)))
            raise Unsupported('i1 ' + op)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, n), sgn(b, n)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = a >> b
            elif op == 'ashr':
                r = sa >> b
            elif op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            elif op == 'sdiv':
                r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            elif op == 'srem':
                r = abs(sa) % abs(sb) * (-1 if sa < 0 else 1)
            else:
                raise Unsupported(op)
            return r & mask(n)
        if isinstance(a, (Pieces, BitsOf)) or isinstance(b, (Pieces, BitsOf)):
            return self.pieces_op(op, a, b, n)
        A, B = bvv(a, n), bvv(b, n)
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B,
             'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B),
             'ashr': lambda: A >> B, 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
             'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return simp_bv(r)

    def pieces_op(self, op, a, b, n):
        """Packing/unpacking of floats inside integers (shl, lshr, or)."""
        def parts(v):
            if isinstance(v, BitsOf):
                p = [(0, v.w // 8, v.v)]
                if n // 8 > v.w // 8:
                    p.append((v.w // 8, n // 8 - v.w // 8, 0))
                return p
            if isinstance(v, Pieces):
                return [(o, s, x) for o, s, x in v.parts]
            return None
        pa = parts(a)
        if op in ('shl', 'lshr') and pa and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            nb = n // 8
            if op == 'shl':
                out = [(0, k, 0)] + [(o + k, s, x) for o, s, x in pa if o + k < nb]
            else:
                out = [(o - k, s, x) for o, s, x in pa if o >= k] + [(nb - k, k, 0)]
            return self.gather(out, 0, nb)
        if op == 'or':
            pb = parts(b)
            if pa and pb:
                out = []
                for o, s, x in pa:
                    y = self.gather(pb, o, s)
                    if isinstance(x, int) and x == 0:
                        out.append((o, s, y))
                    elif isinstance(y, int) and y == 0:
                        out.append((o, s, x))
                    else:
                        raise Unsupported('or of pieces')
                return self.gather(out, 0, n // 8)
        raise Unsupported('integer operation %s on a float bit pattern' % op)

    def ptr_arith(self, op, a, b, n):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return (a.off - b.off) & mask(n)
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, a.off + (sgn(b, n) if op == 'add' else -sgn(b, n)))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
            # alignment checks: objects are maximally aligned
            return (a.off if a.obj is not None else a.off) & b
        raise Unsupported('pointer arithmetic ' + op)

    def icmp(self, p, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if t[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            def key(x):
                if isinstance(x, Ptr):
                    if isinstance(x.obj, FuncObj):
                        return ('fn', x.obj.fname, 0)
                    return (id(x.obj) if x.obj is not None else 0, x.off)
                return (0, x)
            ka, kb = key(a), key(b)
            if p == 'eq':
                return ka == kb
            if p == 'ne':
                return ka != kb
            if ka[0] == kb[0]:
                x, y = ka[1], kb[1]
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]
            if ka[0] == 0 or kb[0] == 0:
                # real objects have large addresses
                x = 1 << 40 if ka[0] != 0 else ka[1]
                y = 1 << 40 if kb[0] != 0 else kb[1]
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]
            raise Unsupported('pointer comparison')
        n = t[1]
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            x, y = (sgn(a, n), sgn(b, n)) if p[0] == 's' else (a, b)
            return {'eq': a == b, 'ne': a != b, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[
                p if p in ('eq', 'ne') else p[1:]]
        if n == 1:
            A, B = tob(bool(a) if isinstance(a, int) else a), tob(bool(b) if isinstance(b, int) else b)
            if p == 'eq':
                return simp_bool(A == B)
            if p == 'ne':
                return simp_bool(A != B)
            raise Unsupported('i1 icmp')
        if isinstance(a, (BitsOf, Pieces)) or isinstance(b, (BitsOf, Pieces)):
            raise Unsupported('integer comparison of a float bit pattern')
        A, B = bvv(a, n), bvv(b, n)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B)}[p]()
        return simp_bool(r)


# ----------------------------------------------------------------- relevance
_vars_cache = {}


def term_vars(t):
    """Ids of the uninterpreted constants in t."""
    i = t.get_id()
    hit = _vars_cache.get(i)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(xi)
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(('uf', x.decl().name()))
            st.extend(x.children())
    _vars_cache[i] = (t, out)
    return out


def relevant_axioms(dom, fs):
    """Axioms whose defined variables occur (transitively) in fs."""
    axs = dom.axioms()
    if not axs:
        return []
    need = set()
    for f in fs:
        if not isinstance(f, bool):
            need |= term_vars(f)
    out = []
    todo = list(axs)
    changed = True
    while changed:
        changed = False
        rest = []
        for a in todo:
            if all(d in need for d in a[1]):
                out.append(a[0])
                nv = term_vars(a[0])
                if not nv <= need:
                    need |= nv
                changed = True
            else:
                rest.append(a)
        todo = rest
    return out
