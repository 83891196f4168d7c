"""Concrete high-precision evaluation (mpmath): tells rounding noise from real deviations."""
import mpmath
from mpmath import mpf

from domains import Unsupported, bits_to_py


class MV:
    __slots__ = ('w', 'v')

    def __init__(self, w, v):
        self.w = w
        self.v = v


class MDom:
    name = 'M'
    symbolic = False

    def const(self, bits, w):
        return MV(w, mpf(bits_to_py(bits, w)))

    def bin(self, op, a, b):
        x, y = a.v, b.v
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            if y == 0:
                r = mpf('nan') if (x == 0 or mpmath.isnan(x)) else (mpf('inf') if x > 0 else -mpf('inf'))
            else:
                r = x / y
        else:
            raise Unsupported(op)
        return MV(a.w, r)

    def neg(self, a):
        return MV(a.w, -a.v)

    def to_bits(self, a):
        from domains import BitsOf
        return BitsOf(a)

    def from_bits(self, v, w):
        from domains import BitsOf
        if isinstance(v, BitsOf):
            return v.v
        if isinstance(v, int):
            return self.const(v, w)
        raise Unsupported('bits')

    def fcmp(self, p, a, b):
        x, y = a.v, b.v
        un = bool(mpmath.isnan(x) or mpmath.isnan(y))
        if p == 'ord':
            return not un
        if p == 'uno':
            return un
        r = bool({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])
        return ((not un) and r) if p[0] == 'o' else (un or r)

    def ite(self, c, a, b):
        return a if c else b

    def call(self, name, args):
        a = args[0]
        w = a.w
        nan = mpf('nan')
        if any(mpmath.isnan(x.v) for x in args) and name not in ('min', 'max'):
            return MV(w, nan)
        if name == 'fabs':
            return MV(w, abs(a.v))
        if name == 'sqrt':
            return MV(w, mpmath.sqrt(a.v) if a.v >= 0 else nan)
        if name in ('min', 'max'):
            b = args[1]
            if mpmath.isnan(a.v):
                return b
            if mpmath.isnan(b.v):
                return a
            return MV(w, (min if name == 'min' else max)(a.v, b.v))
        if name in ('sin', 'cos', 'tan'):
            return MV(w, getattr(mpmath, name)(a.v) if mpmath.isfinite(a.v) else nan)
        if name in ('acos', 'asin'):
            return MV(w, getattr(mpmath, name)(a.v) if abs(a.v) <= 1 else nan)
        if name == 'atan':
            return MV(w, mpmath.atan(a.v))
        if name == 'atan2':
            return MV(w, mpmath.atan2(a.v, args[1].v))
        if name == 'hypot':
            return MV(w, mpmath.hypot(a.v, args[1].v))
        if name == 'fma':
            return MV(w, a.v * args[1].v + args[2].v)
        if name == 'copysign':
            return MV(w, abs(a.v) if args[1].v >= 0 else -abs(a.v))
        if name in ('floor', 'ceil'):
            return MV(w, getattr(mpmath, name)(a.v))
        raise Unsupported('M call ' + name)

    def fpext(self, a, w):
        return MV(w, a.v)

    fptrunc = fpext

    def from_int(self, v, signed, n, w):
        if signed and v >> (n - 1):
            v -= 1 << n
        return MV(w, mpf(v))

    def to_int_sat(self, a, signed, n):
        raise Unsupported('to int')

    def next(self, up, a):
        return a
