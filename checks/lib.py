"""Shared helpers of the property checks."""
from fractions import Fraction as Fr

import z3

from core import Lemma, Ob
from symex import Cut
from domains import FMT, PI, b_and, b_ite, b_not, b_or, rat, simp_bool

FT = {'f32': 32, 'f64': 64}
INTS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
IW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def isnan(v):
    return z3.fpIsNaN(v.fp)


def isinf(v):
    return z3.fpIsInf(v.fp)


def isfin(v):
    return z3.Not(z3.Or(z3.fpIsNaN(v.fp), z3.fpIsInf(v.fp)))


def iszero(v):
    return z3.fpIsZero(v.fp)


def feq(a, b):
    return z3.fpEQ(a.fp, b.fp)


def flt(a, b):
    return z3.fpLT(a.fp, b.fp)


def fle(a, b):
    return z3.fpLEQ(a.fp, b.fp)


def beq(flag, cond):
    """flag (bool or term) equals cond (term)."""
    flag = z3.BoolVal(flag) if isinstance(flag, bool) else flag
    cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
    return flag == cond


def bv(v, w):
    return z3.BitVecVal(int(v) & ((1 << w) - 1), w) if isinstance(v, (int, bool)) else v
