"""Float domains for the symbolic executor.

  CDom  concrete IEEE arithmetic (validation of the executor against native runs)
  FDom  bit-precise IEEE-754 (SMT FloatingPoint / BitVec theories)
  RDom  extended reals; rounding=False: every operation exact ("RX"),
        rounding=True: every operation followed by an arbitrary IEEE
        round-to-nearest result, constrained by sound rounding axioms ("RR")
"""
import ctypes
import math
import struct
from fractions import Fraction

import numpy as np
import mpmath
import z3

np.seterr(all='ignore')


class Unsupported(Exception):
    """The code uses something that cannot be expressed in this domain."""


# ----------------------------------------------------------------- booleans
def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return b_not(c)
    if a is b:
        return a
    return z3.If(c, tob(a), tob(b))


def tob(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def simp_bool(e):
    """Python bool if trivially decided, else the term."""
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return e


def is_sos(t):
    """t is syntactically a sum of products of squares and non-negative constants."""
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        return all(is_sos(x) for x in ch)
    if k == z3.Z3_OP_POWER:
        return z3.is_rational_value(ch[1]) and ch[1].as_fraction() % 2 == 0 and ch[1].as_fraction() > 0
    if k == z3.Z3_OP_MUL:
        n = {}
        for x in ch:
            n.setdefault(x.get_id(), [0, x])[0] += 1
        return all(m % 2 == 0 or is_sos(x) for m, x in n.values())
    return False


# ----------------------------------------------------------------- bits helpers
def bits_to_py(bits, w):
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', bits & 0xffffffff))[0]
    return struct.unpack('<d', struct.pack('<Q', bits & 0xffffffffffffffff))[0]


def py_to_bits(v, w):
    if w == 32:
        return int(np.array(np.float32(v)).view(np.uint32))
    return struct.unpack('<Q', struct.pack('<d', v))[0]


LIBM = ctypes.CDLL('libm.so.6')


def libm(name, w, nargs):
    f = getattr(LIBM, name + ('f' if w == 32 else ''))
    t = ctypes.c_float if w == 32 else ctypes.c_double
    f.restype = t
    f.argtypes = [t] * nargs
    return f


# ================================================================= concrete
class CF:
    __slots__ = ('w', 'v')

    def __init__(self, w, v):
        self.w = w
        self.v = v


class CDom:
    name = 'C'
    symbolic = False

    def ty(self, w):
        return np.float32 if w == 32 else np.float64

    def const(self, bits, w):
        u = np.uint32 if w == 32 else np.uint64
        return CF(w, np.array(bits, dtype=u).view(self.ty(w))[()])

    def bin(self, op, a, b):
        f = {'fadd': np.add, 'fsub': np.subtract, 'fmul': np.multiply, 'fdiv': np.divide, 'frem': np.fmod}[op]
        return CF(a.w, f(a.v, b.v))

    def neg(self, a):
        return self.const(self.to_bits(a) ^ (1 << (a.w - 1)), a.w)

    def to_bits(self, a):
        u = np.uint32 if a.w == 32 else np.uint64
        return int(np.array(a.v).view(u)[()])

    def from_bits(self, v, w):
        return self.const(v, w)

    def fcmp(self, p, a, b):
        x, y = a.v, b.v
        un = bool(np.isnan(x) or np.isnan(y))
        if p == 'ord':
            return not un
        if p == 'uno':
            return un
        if p == 'true':
            return True
        if p == 'false':
            return False
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
        r = bool(r)
        if p[0] == 'o':
            return (not un) and r
        return un or r

    def ite(self, c, a, b):
        return a if c else b

    def call(self, name, args):
        a = args[0]
        w = a.w
        if name == 'fabs':
            return self.const(self.to_bits(a) & ((1 << (w - 1)) - 1), w)
        if name == 'sqrt':
            return CF(w, np.sqrt(a.v))
        if name == 'copysign':
            return CF(w, np.copysign(a.v, args[1].v))
        if name in ('min', 'max'):
            x, y = a, args[1]
            if np.isnan(x.v):
                return y
            if np.isnan(y.v):
                return x
            if x.v == y.v:
                xs = self.to_bits(x) >> (w - 1)
                if name == 'min':
                    return x if xs else y
                return y if xs else x
            return (x if x.v < y.v else y) if name == 'min' else (x if x.v > y.v else y)
        if name in ('floor', 'ceil', 'trunc'):
            return CF(w, getattr(np, name)(a.v))
        if name == 'roundeven':
            return CF(w, np.rint(a.v))
        if name == 'fma':
            f = libm('fma', w, 3)
            return CF(w, self.ty(w)(f(a.v, args[1].v, args[2].v)))
        f = libm(name, w, len(args))
        return CF(w, self.ty(w)(f(*[x.v for x in args])))

    def fpext(self, a, w):
        return CF(w, self.ty(w)(a.v))

    fptrunc = fpext

    def from_int(self, v, signed, n, w):
        if signed and v >> (n - 1):
            v -= 1 << n
        # correctly rounded
        return CF(w, self.ty(w)(v)) if w == 64 else self.const(py_to_bits_exact(v, 32), 32)

    def to_int_sat(self, a, signed, n):
        v = float(a.v)
        if v != v:
            return 0
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if v == math.inf:
            r = hi
        elif v == -math.inf:
            r = lo
        else:
            r = max(lo, min(hi, int(v)))
        return r & ((1 << n) - 1)

    def next(self, up, a):
        return None


def py_to_bits_exact(v, w):
    """Round an int/Fraction to nearest-even float of width w; returns bits."""
    x = Fraction(v)
    if x == 0:
        return 0
    p, emin, emax = (24, -149, 127) if w == 32 else (53, -1074, 1023)
    s = 0
    if x < 0:
        s = 1
        x = -x
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    q = max(e - (p - 1), emin)
    m = x / (Fraction(2) ** q)
    n = m.numerator // m.denominator
    rem = m - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n % 2):
        n += 1
    val = n * Fraction(2) ** q
    mx = (2 - Fraction(1, 2 ** (p - 1))) * Fraction(2) ** emax
    sign = s << (w - 1)
    if val > mx:
        return sign | (0x7f800000 if w == 32 else 0x7ff0000000000000)
    return sign | py_to_bits(float(val), w)


# ================================================================= bit-precise
RNE = z3.RNE()
S32 = z3.Float32()
S64 = z3.Float64()


def fsort(w):
    return S32 if w == 32 else S64


class FV:
    __slots__ = ('w', '_fp', '_bv')

    def __init__(self, w, fp=None, bv=None):
        self.w = w
        self._fp = fp
        self._bv = bv

    @property
    def fp(self):
        if self._fp is None:
            self._fp = z3.simplify(z3.fpBVToFP(self._bv, fsort(self.w)))
        return self._fp


_cnt = [0]


def fresh(pfx):
    _cnt[0] += 1
    return '%s!%d' % (pfx, _cnt[0])


def def_ids(defs):
    return [d.get_id() for d in defs if z3.is_const(d) and d.decl().kind() == z3.Z3_OP_UNINTERPRETED]


class FDom:
    name = 'F'
    symbolic = True

    def __init__(self):
        self.side = []          # (formula, defined variables)
        self.inputs = {}
        self.uf = {}

    def ax(self, f, *defs):
        self.side.append((f, def_ids(defs), defs))

    def reset_path(self):
        pass

    def input(self, name, w):
        if name not in self.inputs:
            bv = z3.BitVec(name, w)
            self.inputs[name] = FV(w, bv=bv)
        return self.inputs[name]

    def const(self, bits, w):
        return FV(w, bv=z3.BitVecVal(bits, w))

    def bin(self, op, a, b):
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if f is None:
            raise Unsupported(op)
        return FV(a.w, z3.simplify(f(RNE, a.fp, b.fp)))

    def neg(self, a):
        if a._bv is not None:
            return FV(a.w, bv=z3.simplify(a._bv ^ z3.BitVecVal(1 << (a.w - 1), a.w)))
        return FV(a.w, z3.simplify(z3.fpNeg(a.fp)))

    def to_bits(self, a):
        if a._bv is None:
            b = z3.BitVec(fresh('bits'), a.w)
            self.ax(z3.fpBVToFP(b, fsort(a.w)) == a.fp, b)
            a._bv = b
        s = z3.simplify(a._bv)
        if z3.is_bv_value(s):
            return s.as_long()
        return a._bv

    def from_bits(self, v, w):
        if isinstance(v, int):
            return self.const(v, w)
        return FV(w, bv=z3.simplify(v))

    def fcmp(self, p, a, b):
        if p == 'true':
            return True
        if p == 'false':
            return False
        x, y = a.fp, b.fp
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if p == 'ord':
            return simp_bool(z3.Not(un))
        if p == 'uno':
            return simp_bool(un)
        r = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ,
             'ne': lambda x, y: z3.Not(z3.fpEQ(x, y))}[p[1:]](x, y)
        if p[0] == 'o':
            if p == 'one':
                r = z3.And(z3.Not(un), r)
        else:
            if p != 'une':
                r = z3.Or(un, r)
        return simp_bool(r)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a._bv is not None and b._bv is not None:
            return FV(a.w, bv=z3.If(c, a._bv, b._bv))
        return FV(a.w, z3.If(c, a.fp, b.fp))

    def call(self, name, args):
        a = args[0]
        w = a.w
        if name == 'fabs':
            if a._bv is not None:
                return FV(w, bv=z3.simplify(a._bv & z3.BitVecVal((1 << (w - 1)) - 1, w)))
            return FV(w, z3.simplify(z3.fpAbs(a.fp)))
        if name == 'sqrt':
            return FV(w, z3.simplify(z3.fpSqrt(RNE, a.fp)))
        if name == 'copysign':
            m = z3.BitVecVal((1 << (w - 1)) - 1, w)
            x = self.to_bits(a)
            y = self.to_bits(args[1])
            return FV(w, bv=z3.simplify((x & m) | (y & ~m)))
        if name in ('min', 'max'):
            b = args[1]
            less = z3.fpLT(a.fp, b.fp) if name == 'min' else z3.fpGT(a.fp, b.fp)
            tie = z3.fpIsNegative(a.fp) if name == 'min' else z3.fpIsPositive(a.fp)
            r = z3.If(z3.fpIsNaN(a.fp), b.fp,
                      z3.If(z3.fpIsNaN(b.fp), a.fp,
                            z3.If(z3.fpEQ(a.fp, b.fp), z3.If(tie, a.fp, b.fp), z3.If(less, a.fp, b.fp))))
            return FV(w, z3.simplify(r))
        if name == 'fma':
            return FV(w, z3.fpFMA(RNE, a.fp, args[1].fp, args[2].fp))
        if name in ('floor', 'ceil', 'trunc', 'roundeven'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'roundeven': RNE}[name]
            return FV(w, z3.fpRoundToIntegral(rm, a.fp))
        if name in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'hypot'):
            key = (name, w)
            if key not in self.uf:
                self.uf[key] = z3.Function('%s%d' % (name, w), *([fsort(w)] * (len(args) + 1)))
            r = self.uf[key](*[x.fp for x in args])
            anyn = z3.Or(*[z3.fpIsNaN(x.fp) for x in args])
            self.ax(z3.Implies(anyn, z3.fpIsNaN(r)))
            if name in ('sin', 'cos'):
                self.ax(z3.Implies(z3.fpIsInf(a.fp), z3.fpIsNaN(r)))
                one = z3.FPVal(1.0, fsort(w))
                self.ax(z3.Implies(z3.Not(z3.Or(anyn, z3.fpIsInf(a.fp))),
                                            z3.And(z3.fpLEQ(r, one), z3.fpGEQ(r, z3.fpNeg(one)))))
            return FV(w, r)
        raise Unsupported('F-domain call ' + name)

    def fpext(self, a, w):
        return FV(w, z3.simplify(z3.fpFPToFP(RNE, a.fp, fsort(w))))

    fptrunc = fpext

    def from_int(self, v, signed, n, w):
        if isinstance(v, int):
            if signed and v >> (n - 1):
                v -= 1 << n
            return self.const(py_to_bits_exact(v, w), w)
        f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
        return FV(w, f(RNE, v, fsort(w)))

    def to_int_sat(self, a, signed, n):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        flo = z3.FPVal(float(lo), fsort(a.w))
        fhi = z3.FPVal(float(hi + 1), fsort(a.w))
        conv = (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), a.fp, z3.BitVecSort(n))
        return z3.If(z3.fpIsNaN(a.fp), z3.BitVecVal(0, n),
                     z3.If(z3.fpLEQ(a.fp, flo), z3.BitVecVal(lo, n),
                           z3.If(z3.fpGEQ(a.fp, fhi), z3.BitVecVal(hi, n), conv)))

    def next(self, up, a):
        return None

    def axioms(self):
        return self.side


# ================================================================= reals
class RV:
    """Extended real.  r: z3 Real (value when finite); nan/pinf/ninf: bool or z3 Bool.
    ex: (RR only) exact real of which r is the rounding / libm approximation."""
    __slots__ = ('w', 'r', 'nan', 'pinf', 'ninf', 'ex')

    def __init__(self, w, r, nan=False, pinf=False, ninf=False, ex=None):
        self.w = w
        self.r = r
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.ex = ex

    @property
    def special(self):
        return b_or(self.nan, self.pinf, self.ninf)

    @property
    def fin(self):
        return b_not(self.special)


class BitsOf:
    """Opaque bit pattern of a real-domain float."""
    __slots__ = ('v', 'w')

    def __init__(self, v):
        self.v = v
        self.w = v.w


PI_LO = Fraction(314159265358979323846264338327950288419716939937510, 10 ** 50)
PI = Fraction(31415926535897932384626433832795028841971693993751058209749445923078, 10 ** 67)


def rat(f):
    f = Fraction(f)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def const_of(t):
    """Fraction if t is a numeral, else None."""
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


FMT = {32: dict(u=Fraction(1, 2 ** 24), eta=Fraction(1, 2 ** 149), mx=(2 - Fraction(1, 2 ** 23)) * Fraction(2) ** 127),
       64: dict(u=Fraction(1, 2 ** 53), eta=Fraction(1, 2 ** 1074),
                mx=(2 - Fraction(1, 2 ** 52)) * Fraction(2) ** 1023)}
for _w, _d in FMT.items():
    _d['ovf'] = _d['mx'] + _d['mx'] * _d['u'] / (2 - 2 * _d['u'])  # MAX + half ulp(MAX)
FMT[32]['ovf'] = FMT[32]['mx'] + Fraction(2) ** (127 - 24)
FMT[64]['ovf'] = FMT[64]['mx'] + Fraction(2) ** (1023 - 53)


class RDom:
    symbolic = True

    def __init__(self, rounding=False, prove=None, coarse=False):
        self.rounding = rounding
        self.coarse = coarse
        self.fmts = {}
        self.name = 'RR' if rounding else 'RX'
        self.inputs = {}
        self.side = []          # definitional constraints (valid whenever their guard holds)
        self.on_sqrt = None
        self.rules = []         # (var, polynomial value of var^2) for the normaliser
        self.memo = {}
        self.reps = []          # representable values (z3 terms), RR
        self.rounds = []        # (r, e, w)
        self.libms = []
        self.keep = []
        self.trig = {}          # arg ast id -> (S, C)
        self.atans = []
        self.mono = {}          # function name -> list of (arg, value) for monotonicity axioms
        self.prove = prove      # callback(cond) -> True if cond is implied by the current path
        self.monolib = []       # (name, increasing, exact arg, libm result) for the libm monotonicity contract

    def fmt(self, w):
        """Format parameters: u, eta are rationals, mx and ovf terms."""
        if w not in self.fmts:
            f = FMT[w]
            if self.coarse:
                # weaker parameters, valid in particular for the real ones: shorter numerals
                mx, ovf = z3.Real('MX%d' % w), z3.Real('OVF%d' % w)
                d = dict(u=max(f['u'], Fraction(1, 2 ** 50)), eta=max(f['eta'], Fraction(1, 2 ** 149)), mx=mx, ovf=ovf)
                self.ax(z3.And(mx >= rat(2 ** 100), ovf > mx, ovf <= 2 * mx), mx, ovf)
            else:
                d = dict(u=f['u'], eta=f['eta'], mx=rat(f['mx']), ovf=rat(f['ovf']))
            self.fmts[w] = d
        return self.fmts[w]

    def ax(self, f, *defs):
        self.side.append((f, def_ids(defs), defs))

    # ------------------------------------------------------------ values
    def input(self, name, w):
        if name not in self.inputs:
            v = RV(w, z3.Real(name))
            self.inputs[name] = v
            self.reps.append(v.r)
        return self.inputs[name]

    def const(self, bits, w):
        v = bits_to_py(bits, w)
        if v != v:
            return RV(w, z3.RealVal(0), nan=True)
        if v == math.inf:
            return RV(w, z3.RealVal(0), pinf=True)
        if v == -math.inf:
            return RV(w, z3.RealVal(0), ninf=True)
        z = RV(w, rat(Fraction(v)))
        if v == 0:
            self.keep.append(z)
            self.memo[('zsign', id(z))] = math.copysign(1, v) > 0
        return z

    def _key(self, tag, *ts):
        for t in ts:
            self.keep.append(t)
        return (tag,) + tuple(t.get_id() for t in ts)

    def zero_pos(self, v):
        """sign of v should it be a zero (True: +0); the same for every use of the same value"""
        key = ('zsign', id(v))
        if key not in self.memo:
            self.keep.append(v)
            self.memo[key] = z3.Bool(fresh('zsign'))
        return self.memo[key]

    def S(self, t):
        return z3.simplify(t, som=False)

    # ------------------------------------------------------------ rounding
    def rnd(self, v):
        """Applies rounding to an exact RV."""
        if not self.rounding:
            return v
        if const_of(v.r) is not None and v.special is False:
            c = const_of(v.r)
            b = py_to_bits_exact(c, v.w)
            k = self.const(b, v.w)
            k.ex = v.r
            return k
        e = v.r
        key = self._key('rnd%d' % v.w, e)
        f = self.fmt(v.w)
        if key in self.memo:
            r = self.memo[key]
        else:
            r = z3.Real(fresh('fl'))
            self.memo[key] = r
            ab = z3.If(e >= 0, e, -e)
            inr = z3.And(e < f['ovf'], e > -f['ovf'])
            err = rat(f['u']) * ab + rat(f['eta'] / 2)
            self.ax(z3.Implies(inr, z3.And(r - e <= err, e - r <= err,
                                           r <= f['mx'], r >= -f['mx'])), r)
            self.ax(z3.And(z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0)), r)
            self.relate_round(r, e)
            self.reps.append(r)
            self.rounds.append((r, e, v.w))
        ovp = simp_bool(e >= f['ovf'])
        ovn = simp_bool(e <= -f['ovf'])
        if self.prove and ovp is not False and self.prove(b_not(ovp)):
            ovp = False
        if self.prove and ovn is not False and self.prove(b_not(ovn)):
            ovn = False
        fin = v.fin
        return RV(v.w, r, v.nan, b_or(v.pinf, b_and(fin, ovp)), b_or(v.ninf, b_and(fin, ovn)), ex=e)

    def next(self, up, a):
        """next_up / next_down as specified by IEEE (the real implementation is checked
        bit-precisely by its own property)."""
        if not self.rounding:
            return a
        c = const_of(a.r)
        f = self.fmt(a.w)
        if c is not None and a.special is False:
            b = py_to_bits_exact(c, a.w)
            v = np_next(b, a.w, up)
            k = self.const(v, a.w)
            return k
        key = self._key('nu' if up else 'nd', a.r)
        if key in self.memo:
            u = self.memo[key]
        else:
            u = z3.Real(fresh('nu' if up else 'nd'))
            self.memo[key] = u
            ab = z3.If(a.r >= 0, a.r, -a.r)
            ulp = rat(2 * f['u']) * ab + rat(f['eta'])
            if up:
                self.ax(z3.And(u > a.r, u <= a.r + ulp, u >= a.r + rat(f['u']) * ab), u)
            else:
                self.ax(z3.And(u < a.r, u >= a.r - ulp, u <= a.r - rat(f['u']) * ab), u)
            self.reps.append(u)
            # neighbours: no representable value strictly between
            self.memo.setdefault('neigh', []).append((a.r, u, up))
        if a.ex is not None:
            # |exact - r| is at most the distance to the neighbour (round to nearest / libm contract)
            ok = a.fin
            self.ax(z3.Implies(tob(ok), u >= a.ex if up else u <= a.ex), u)
        if up:
            top = simp_bool(a.r >= f['mx'])
            if top is not False and self.prove and self.prove(b_not(b_and(a.fin, top))):
                top = False
            pinf = b_or(a.pinf, b_and(a.fin, top))
            ninf = False
            r = b_ite_r(a.ninf, -f['mx'], u)
        else:
            bot = simp_bool(a.r <= -f['mx'])
            if bot is not False and self.prove and self.prove(b_not(b_and(a.fin, bot))):
                bot = False
            ninf = b_or(a.ninf, b_and(a.fin, bot))
            pinf = False
            r = b_ite_r(a.pinf, f['mx'], u)
        return RV(a.w, r, a.nan, pinf, ninf)

    # ------------------------------------------------------------ arithmetic
    def bin(self, op, a, b):
        if op == 'fadd':
            return self.add(a, b)
        if op == 'fsub':
            return self.add(a, self.neg(b))
        if op == 'fmul':
            return self.mul(a, b)
        if op == 'fdiv':
            return self.div(a, b)
        raise Unsupported(op)

    def add(self, a, b):
        nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
        nn = b_not(nan)
        pinf = b_and(nn, b_or(a.pinf, b.pinf))
        ninf = b_and(nn, b_or(a.ninf, b.ninf))
        ca, cb = const_of(a.r), const_of(b.r)
        if ca == 0:
            r = b.r
        elif cb == 0:
            r = a.r
        elif ca is not None and cb is not None:
            r = rat(ca + cb)
        else:
            r = a.r + b.r
        v = RV(a.w, r, nan, pinf, ninf)
        if self.rounding and (ca == 0 or cb == 0):
            v.ex = v.r
            return v
        return self.rnd(v)

    def neg(self, a):
        c = const_of(a.r)
        r = rat(-c) if c is not None else neg_term(a.r)
        return RV(a.w, r, a.nan, a.ninf, a.pinf, None if a.ex is None else neg_term(a.ex))

    def mul(self, a, b):
        sp = b_or(a.special, b.special)
        ca, cb = const_of(a.r), const_of(b.r)
        if ca is not None and cb is not None:
            r = rat(ca * cb)
        elif ca == 1:
            r = b.r
        elif cb == 1:
            r = a.r
        elif ca == 0 or cb == 0:
            r = z3.RealVal(0)
        elif ca == -1:
            r = neg_term(b.r)
        elif cb == -1:
            r = neg_term(a.r)
        else:
            r = a.r * b.r
        if sp is False:
            v = RV(a.w, r)
        else:
            ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
            az = b_and(a.fin, simp_bool(a.r == 0))
            bz = b_and(b.fin, simp_bool(b.r == 0))
            nan = b_or(a.nan, b.nan, b_and(ainf, bz), b_and(binf, az))
            apos = b_or(a.pinf, b_and(a.fin, simp_bool(a.r > 0)))
            aneg = b_or(a.ninf, b_and(a.fin, simp_bool(a.r < 0)))
            bpos = b_or(b.pinf, b_and(b.fin, simp_bool(b.r > 0)))
            bneg = b_or(b.ninf, b_and(b.fin, simp_bool(b.r < 0)))
            inf = b_and(b_not(nan), b_or(ainf, binf))
            pinf = b_and(inf, b_or(b_and(apos, bpos), b_and(aneg, bneg)))
            ninf = b_and(inf, b_or(b_and(apos, bneg), b_and(aneg, bpos)))
            v = RV(a.w, r, nan, pinf, ninf)
        if self.rounding and (ca in (0, 1, -1) or cb in (0, 1, -1)):
            v.ex = v.r
            return v
        return self.rnd(v)

    def div(self, a, b):
        ca, cb = const_of(a.r), const_of(b.r)
        bz = simp_bool(b.r == 0)
        if bz is not False and self.prove and self.prove(b_not(b_and(b.fin, bz))):
            bz = False
        bz = b_and(b.fin, bz)
        if cb is not None and cb != 0:
            r = rat(ca / cb) if ca is not None else (a.r if cb == 1 else a.r * rat(1 / cb))
        elif ca == 0:
            r = z3.RealVal(0)
        elif cb == 0:
            r = z3.RealVal(0)
        else:
            r = a.r / b.r
        if bz is False and a.special is False and b.special is False:
            v = RV(a.w, r)
        else:
            az = b_and(a.fin, simp_bool(a.r == 0))
            ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
            nan = b_or(a.nan, b.nan, b_and(ainf, binf), b_and(az, bz))
            nn = b_not(nan)
            apos = b_or(a.pinf, b_and(a.fin, simp_bool(a.r > 0)))
            # sign of b, where a zero divisor may carry either sign
            zs = self.zero_pos(b) if bz is not False else True
            bpos = b_or(b.pinf, b_and(b.fin, simp_bool(b.r > 0)), b_and(bz, zs))
            isinf = b_and(nn, b_or(ainf, b_and(bz, b_not(az), a.fin)))
            same = b_or(b_and(apos, bpos), b_and(b_not(apos), b_not(bpos)))
            pinf = b_and(isinf, same)
            ninf = b_and(isinf, b_not(same))
            r = b_ite_r(b_and(nn, binf), z3.RealVal(0), r)
            v = RV(a.w, r, nan, pinf, ninf)
        return self.rnd(v)

    def to_bits(self, a):
        return BitsOf(a)

    def from_bits(self, v, w):
        if isinstance(v, BitsOf):
            return v.v
        if isinstance(v, int):
            return self.const(v, w)
        raise Unsupported('bit manipulation of floats in real domain')

    def fcmp(self, p, a, b):
        if p == 'true':
            return True
        if p == 'false':
            return False
        nan = b_or(a.nan, b.nan)
        if p == 'ord':
            return b_not(nan)
        if p == 'uno':
            return nan
        q = p[1:]
        if q == 'gt':
            return self.fcmp(p[0] + 'lt', b, a)
        if q == 'ge':
            return self.fcmp(p[0] + 'le', b, a)
        if self.rounding:
            self.round_mono(a.r, b.r)
            self.round_mono(b.r, a.r)
        if a.special is False and b.special is False:
            f = {'lt': lambda: a.r < b.r, 'le': lambda: a.r <= b.r, 'eq': lambda: a.r == b.r,
                 'ne': lambda: a.r != b.r}[q]()
            return simp_bool(f)
        fin = b_and(a.fin, b.fin)
        if q == 'lt':
            r = b_or(b_and(fin, simp_bool(a.r < b.r)), b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf)))
        elif q == 'le':
            r = b_or(b_and(fin, simp_bool(a.r <= b.r)), a.ninf, b.pinf)
        else:
            eq = b_or(b_and(fin, simp_bool(a.r == b.r)), b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf))
            r = eq if q == 'eq' else b_not(eq)
        if p[0] == 'o':
            return simp_bool(b_and(b_not(nan), r))
        return simp_bool(b_or(nan, r))

    def round_mono(self, v, k):
        """rounding to nearest is monotone and keeps the representable constant k"""
        if z3.is_const(v) and not z3.is_rational_value(v) and const_of(k) is not None:
            for r, e, w in self.rounds:
                if r.eq(v):
                    key = self._key('rmono', v, k)
                    if key not in self.memo:
                        self.memo[key] = True
                        mid = [k, k]
                        q = const_of(k)
                        if 0 < abs(q) < 2 ** 100:
                            b = py_to_bits_exact(q, w)
                            mid = [rat((q + Fraction(float(bits_to_py(np_next(b, w, up), w)))) / 2) for up in (False, True)]
                        self.ax(z3.And(z3.Implies(z3.Or(e > mid[0], e >= k), v >= k),
                                       z3.Implies(z3.Or(e < mid[1], e <= k), v <= k)), v)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        ex = None
        if self.rounding and (a.ex is not None or b.ex is not None):
            ex = z3.If(c, a.ex if a.ex is not None else a.r, b.ex if b.ex is not None else b.r)
        return RV(a.w, b_ite_r(c, a.r, b.r), b_ite(c, a.nan, b.nan), b_ite(c, a.pinf, b.pinf),
                  b_ite(c, a.ninf, b.ninf), ex)

    # ------------------------------------------------------------ functions
    def sqrt_term(self, t):
        """Real square root of t (t >= 0 must hold where it is used)."""
        c = const_of(t)
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return rat(Fraction(n, d))
        t = z3.simplify(t)
        key = self._key('sqrt', t)
        if key not in self.memo:
            q = z3.Real(fresh('sqrt'))
            self.memo[key] = q
            self.ax(z3.And(q >= 0, q * q == t if is_sos(t) else z3.Implies(t >= 0, q * q == t)), q)
            self.rules.append((q, t))
            if self.on_sqrt:
                self.on_sqrt(q, t)
        return self.memo[key]

    def sincos_term(self, t):
        """(S, C) = exact sine and cosine of the real t."""
        t = z3.simplify(t)
        c = const_of(t)
        if c == 0:
            return z3.RealVal(0), z3.RealVal(1)
        key = self._key('trig', t)
        if key not in self.memo and not self.rounding and c is None:
            r = self.sincos_reduce(t)
            if r is not None:
                self.memo[key] = r
                return r
        if key not in self.memo:
            k0 = c
            s, c = z3.Real(fresh('sin')), z3.Real(fresh('cos'))
            self.memo[key] = (s, c)
            self.trig[t.get_id()] = (t, s, c)
            if k0 is not None:
                m = mpmath.mpf(k0.numerator) / k0.denominator
                for v, w in ((s, mpmath.sin(m)), (c, mpmath.cos(m))):
                    lo = Fraction(int(mpmath.floor(w * 10 ** 30)), 10 ** 30)
                    self.ax(z3.And(v >= rat(lo), v <= rat(lo + Fraction(1, 10 ** 30))), v)
            self.ax(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1), s)
            self.ax(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1), c)
            self.rules.append((s, 1 - c * c))
        return self.memo[key]

    def sincos_reduce(self, t):
        """Sine and cosine of t by those of another term: a constant summand is split off by the addition theorem, the
        sign is normalised, and terms equal as rational functions share their symbols."""
        e = z3.simplify(t, som=True)
        ms = e.children() if z3.is_add(e) else [e]
        cs = [m for m in ms if const_of(m) is not None]
        if cs and len(ms) > len(cs):
            u = z3.simplify(z3.Sum([m for m in ms if const_of(m) is None]))
            a, b = self.sincos_term(cs[0]), self.sincos_term(u)
            return a[0] * b[1] + a[1] * b[0], a[1] * b[1] - a[0] * b[0]
        m = ms[0]
        k = const_of(m.children()[0]) if z3.is_mul(m) else None
        if k is not None and k < 0:
            s, c = self.sincos_term(z3.simplify(-e))
            return -s, c
        for t2, s, c in list(self.trig.values()):
            if self.same_rf(t, t2):
                return s, c
        return None

    def same_rf(self, a, b):
        """equal as rational functions (with the known square roots)"""
        import ring
        from symex import term_vars
        if const_of(a) is not None or const_of(b) is not None:
            return False
        try:
            return not ring.Ring([a, b], [(v, t) for v, t in self.rules], cap=20000).residual(a - b)
        except (ring.NoNormal, RecursionError):
            return False

    def mono_fn(self, name, t, inc, lo, hi, odd):
        """Exact value of a monotone function, axiomatised by monotonicity and range."""
        t = z3.simplify(t)
        key = self._key(name, t)
        if key not in self.memo:
            v = z3.Real(fresh(name))
            # the inverse sine and cosine are defined on [-1, 1] only
            dm = lambda q: z3.And(q >= -1, q <= 1) if name in ('asin', 'acos') else z3.BoolVal(True)
            self.ax(z3.Implies(dm(t), z3.And(v >= lo, v <= hi)), v)
            if odd:
                self.ax(z3.Implies(dm(t), z3.And(z3.Implies(t > 0, v > 0), z3.Implies(t < 0, v < 0),
                                                 z3.Implies(t == 0, v == 0))), v)
            for (t2, v2) in self.mono.get(name, []):
                g = z3.And(dm(t), dm(t2))
                if inc:
                    self.ax(z3.Implies(g, z3.And(z3.Implies(t < t2, v < v2), z3.Implies(t > t2, v > v2),
                                                 z3.Implies(t == t2, v == v2))), v, v2)
                else:
                    self.ax(z3.Implies(g, z3.And(z3.Implies(t < t2, v > v2), z3.Implies(t > t2, v < v2),
                                                 z3.Implies(t == t2, v == v2))), v, v2)
            self.mono.setdefault(name, []).append((t, v))
            self.memo[key] = v
        return self.memo[key]

    def acos_term(self, t):
        v = self.mono_fn('acos', t, False, z3.RealVal(0), rat(PI), False)
        key = self._key('acos-link', v)
        if key not in self.memo:
            self.memo[key] = True
            s = self.sqrt_term(1 - t * t)
            self.memo[self._key('trig', v)] = (s, t)
            self.trig[v.get_id()] = (v, s, t)
            # quadrant facts
            self.ax(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(
                z3.Implies(t > 0, v < rat(PI / 2)), z3.Implies(t < 0, v > rat(PI / 2)),
                z3.Implies(t == 0, v == rat(PI / 2)), z3.Implies(t == 1, v == 0),
                z3.Implies(t == -1, v == rat(PI)))), v)
        return v

    def atan2_term(self, y, x):
        y, x = z3.simplify(y), z3.simplify(x)
        key = self._key('atan2', y, x)
        if key not in self.memo:
            v = z3.Real(fresh('atan2'))
            self.memo[key] = v
            rho = self.sqrt_term(x * x + y * y)
            s, c = z3.Real(fresh('sin')), z3.Real(fresh('cos'))
            self.memo[self._key('trig', v)] = (s, c)
            self.trig[v.get_id()] = (v, s, c)
            self.ax(z3.And(s * s + c * c == 1, s * rho == y, c * rho == x), s)
            self.ax(z3.And(s * s + c * c == 1, s * rho == y, c * rho == x), c)
            self.rules.append((s, 1 - c * c))
            pi = rat(PI)
            self.ax(z3.And(v >= -pi, v <= pi,
                                    (v > 0) == z3.Or(y > 0, z3.And(y == 0, x < 0)),
                                    (v < 0) == (y < 0),
                                    z3.Implies(z3.And(y == 0, x < 0), v == pi),
                                    z3.Implies(z3.And(x == 0, y > 0), v == pi / 2),
                                    z3.Implies(z3.And(x == 0, y < 0), v == -pi / 2),
                                    (z3.And(v > -pi / 2, v < pi / 2)) == z3.Or(x > 0, z3.And(x == 0, y == 0))), v)
            self.ax(z3.Implies(z3.And(x == 0, y == 0), z3.And(s == 0, c == 1)), s, c)
            # equal arguments, equal results
            for y2, x2, v2 in self.atans:
                self.ax(z3.Implies(z3.And(y == y2, x == x2), v == v2), v, v2)
            self.atans.append((y, x, v))
        return self.memo[key]

    def _libm(self, w, term, nan, lo=None, hi=None, mono=None, arg=None):
        """Result of a library function whose exact value is `term`."""
        if not self.rounding:
            return RV(w, term, nan)
        key = self._key('libm', term)
        if key not in self.memo:
            r = z3.Real(fresh('lm'))
            self.memo[key] = r
            f = self.fmt(w)
            ab = z3.If(term >= 0, term, -term)
            err = rat(2 * f['u']) * ab + rat(f['eta'])
            self.ax(z3.And(r - term <= err, term - r <= err), r)
            self.ax(z3.And(z3.Implies(term > 0, r >= 0), z3.Implies(term < 0, r <= 0),
                           z3.Implies(term == 0, r == 0)), r)
            if lo is not None:
                self.ax(z3.And(r >= lo, r <= hi), r)
            self.reps.append(r)
            self.libms.append((r, term, w))
            if mono is not None:
                for (m2, a2, r2) in self.monolib:
                    if m2 == mono:
                        inc = mono[1]
                        a, b = (arg, a2) if inc else (a2, arg)
                        self.ax(z3.And(z3.Implies(a <= b, r <= r2), z3.Implies(a >= b, r >= r2)), r, r2)
                self.monolib.append((mono, arg, r))
        return RV(w, self.memo[key], nan, ex=term)

    def call(self, name, args):
        a = args[0]
        w = a.w
        if name == 'fabs':
            ex = None if a.ex is None else z3.If(a.r >= 0, a.ex, -a.ex)
            c = const_of(a.r)
            r = rat(abs(c)) if c is not None else z3.If(a.r >= 0, a.r, -a.r)
            return RV(w, r, a.nan, b_or(a.pinf, a.ninf), False, ex)
        if name == 'sqrt':
            neg = simp_bool(a.r < 0)
            if neg is not False and is_sos(a.r):
                neg = False
            if neg is not False and self.prove and self.prove(b_not(b_and(a.fin, neg))):
                neg = False
            nan = b_or(a.nan, a.ninf, b_and(a.fin, neg))
            q = self.sqrt_term(a.r)
            return self.rnd(RV(w, q, nan, a.pinf, False))
        if name == 'copysign':
            b = args[1]
            ab = self.call('fabs', [a])
            zs = b_not(self.zero_pos(b))
            if b.nan is not False:
                raise Unsupported('copysign with possible NaN sign')
            negb = b_or(b.ninf, b_and(b.fin, b_or(simp_bool(b.r < 0), b_and(simp_bool(b.r == 0), zs))))
            return self.ite(negb, self.neg(ab), ab)
        if name in ('min', 'max'):
            b = args[1]
            c = self.fcmp('ule', a, b) if name == 'min' else self.fcmp('uge', a, b)
            # NaN operands are ignored
            c = b_or(b.nan, b_and(b_not(a.nan), c))
            return self.ite(simp_bool(c), a, b)
        if name == 'fma':
            p = RDom.mul_exact(self, a, args[1])
            return self.rnd(RDom.add_exact(self, p, args[2]))
        if name in ('sin', 'cos', 'tan'):
            nan = b_or(a.nan, a.pinf, a.ninf)
            s, c = self.sincos_term(a.r)
            if name == 'tan':
                return self.div(self._libm(w, s, nan), self._libm(w, c, nan))
            return self._libm(w, s if name == 'sin' else c, nan)
        if name == 'acos':
            out = b_or(simp_bool(a.r > 1), simp_bool(a.r < -1))
            if out is not False and self.prove and self.prove(b_not(b_and(a.fin, out))):
                out = False
            nan = b_or(a.special, out)
            v = self.acos_term(a.r) if not self.rounding else \
                self.mono_fn('acos', a.r, False, z3.RealVal(0), rat(PI), False)
            return self._libm(w, v, nan, mono=('acos', False), arg=a.r)
        if name == 'asin':
            out = b_or(simp_bool(a.r > 1), simp_bool(a.r < -1))
            nan = b_or(a.special, out)
            return self._libm(w, self.mono_fn('asin', a.r, True, -rat(PI / 2), rat(PI / 2), True), nan,
                              mono=('asin', True), arg=a.r)
        if name == 'atan':
            # weakly monotone, so bounded by its values at the infinities
            top = rat(Fraction(float(libm('atan', w, 1)(math.inf)))) if self.rounding else rat(PI / 2)
            v = self._libm(w, self.mono_fn('atan', a.r, True, -rat(PI / 2), rat(PI / 2), True), a.nan, -top, top,
                           mono=('atan', True), arg=a.r)
            if a.pinf is not False:
                v = self.ite(a.pinf, RV(w, top, False, ex=rat(PI / 2)), v)
            if a.ninf is not False:
                v = self.ite(a.ninf, RV(w, z3.simplify(-top), False, ex=rat(-PI / 2)), v)
            return v
        if name == 'atan2':
            b = args[1]
            if any(z.special is not False and not (self.prove and self.prove(b_not(z.special))) for z in (a, b)):
                raise Unsupported('atan2 of possibly non-finite values')
            return self._libm(w, self.atan2_term(a.r, b.r), False)
        if name == 'hypot':
            b = args[1]
            return self.rnd(RV(w, self.sqrt_term(a.r * a.r + b.r * b.r), b_or(a.special, b.special)))
        if name in ('floor', 'ceil', 'trunc', 'roundeven'):
            f = {'floor': lambda t: z3.ToReal(z3.ToInt(t)), 'ceil': lambda t: -z3.ToReal(z3.ToInt(-t)),
                 'trunc': lambda t: z3.If(t >= 0, z3.ToReal(z3.ToInt(t)), -z3.ToReal(z3.ToInt(-t)))}.get(name)
            if f is None:
                raise Unsupported(name)
            return RV(w, f(a.r), a.nan, a.pinf, a.ninf)
        raise Unsupported('R-domain call ' + name)

    def mul_exact(self, a, b):
        r, self.rounding = self.rounding, False
        try:
            return self.mul(a, b)
        finally:
            self.rounding = r

    def add_exact(self, a, b):
        r, self.rounding = self.rounding, False
        try:
            return self.add(a, b)
        finally:
            self.rounding = r

    def fpext(self, a, w):
        return RV(w, a.r, a.nan, a.pinf, a.ninf, a.ex)

    def fptrunc(self, a, w):
        return self.rnd(RV(w, a.r, a.nan, a.pinf, a.ninf))

    def from_int(self, v, signed, n, w):
        if isinstance(v, int):
            if signed and v >> (n - 1):
                v -= 1 << n
            return self.const(py_to_bits_exact(v, w), w)
        raise Unsupported('symbolic int to float')

    def to_int_sat(self, a, signed, n):
        raise Unsupported('float to int in real domain')

    # ------------------------------------------------------------ axioms
    def relate_round(self, r, e):
        for (r2, e2, w2) in self.rounds:
            self.ax(z3.And(z3.Implies(e == e2, r == r2), z3.Implies(e == -e2, r == -r2)), r, r2)

    def axioms(self):
        """All axioms as (formula, ids of the variables it defines, vars)."""
        out = list(self.side)
        if self.rounding:
            two = z3.RealVal(2)
            for (r, e, w) in self.rounds:
                for f in self.reps:
                    if f.eq(r):
                        continue
                    # round to nearest: the exact value is on r's side of the midpoint with any other float
                    out.append((z3.And(z3.Implies(f < r, two * e >= f + r), z3.Implies(f > r, two * e <= f + r)),
                                def_ids((r, f)), (r, f)))
            for (r, e, w) in self.libms:
                for f in self.reps:
                    if f.eq(r):
                        continue
                    # the exact value lies between the neighbours of the result of a library function
                    out.append((z3.And(z3.Implies(f < r, e >= f), z3.Implies(f > r, e <= f)), def_ids((r, f)), (r, f)))
            for (x, u, up) in self.memo.get('neigh', []):
                for f in self.reps:
                    if f.eq(u) or f.eq(x):
                        continue
                    out.append((z3.Implies(f > x, f >= u) if up else z3.Implies(f < x, f <= u),
                                def_ids((u, f)), (u, f)))
        return out


def b_ite_r(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def neg_term(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return t.arg(0)
    c = const_of(t)
    if c is not None:
        return rat(-c)
    return -t


def np_next(bits, w, up):
    """IEEE nextUp/nextDown on bit patterns (reference)."""
    sign = 1 << (w - 1)
    inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
    ab = bits & (sign - 1)
    if ab > inf:
        return bits
    if not up:
        return np_next(bits ^ sign, w, True) ^ sign
    if bits == inf:
        return bits
    if ab == 0:
        return 1
    return bits + 1 if bits == ab else bits - 1
