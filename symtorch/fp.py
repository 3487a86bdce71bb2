"""Bit-precise floating-point elements: IEEE values of the solver's FP theory, round to nearest even.

They live beside the exact rationals: constants met in an operation are rounded to the format of the FP operand (what torch
does with Python scalars and constants of the same type); anything else mixed in is unsupported."""
import math
from fractions import Fraction
import z3
from .elem import SB, Unsupported, Poly, _Inf
import torch

SORTS = {torch.float64: z3.Float64, torch.float32: z3.Float32, torch.float16: z3.Float16}
RNE = z3.RNE()


def _b(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SB(z)


class FP:
    __slots__ = ('z', 'dt')
    _fp = True
    __array_priority__ = 1001
    __array_ufunc__ = None

    def __init__(self, z, dt):
        self.z, self.dt = z, dt

    @staticmethod
    def const(v, dt):
        return FP(z3.FPVal(float(v), SORTS[dt]()), dt)

    def lift(self, v):
        if isinstance(v, FP):
            return v.to_dtype(self.dt)
        if isinstance(v, _Inf):
            return FP(z3.fpInfinity(SORTS[self.dt](), v.s < 0), self.dt)
        if isinstance(v, (Poly, SB)):
            raise Unsupported('symbolic real mixed with a floating-point value')
        if isinstance(v, (int, float, Fraction)):
            return FP.const(v, self.dt)
        return None

    def _pair(self, o):
        if isinstance(o, FP):
            # the wider format wins
            if o.dt != self.dt:
                w = torch.promote_types(self.dt, o.dt)
                return self.to_dtype(w), o.to_dtype(w)
            return self, o
        return self, self.lift(o)

    def _bin(self, o, f, swap=False):
        a, b = self._pair(o)
        if b is None:
            return NotImplemented
        if swap:
            a, b = b, a
        return FP(z3.simplify(f(RNE, a.z, b.z)), a.dt)

    def __add__(self, o): return self._bin(o, z3.fpAdd)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, z3.fpSub)
    def __rsub__(self, o): return self._bin(o, z3.fpSub, True)
    def __mul__(self, o): return self._bin(o, z3.fpMul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, z3.fpDiv)
    def __rtruediv__(self, o): return self._bin(o, z3.fpDiv, True)
    def __neg__(self): return FP(z3.simplify(z3.fpNeg(self.z)), self.dt)
    def abs(self): return FP(z3.simplify(z3.fpAbs(self.z)), self.dt)
    __abs__ = abs
    def sqrt(self): return FP(z3.fpSqrt(RNE, self.z), self.dt)

    def __pow__(self, n):
        if n == 2:
            return self * self
        if n == 1:
            return self
        raise Unsupported('power of a floating-point value')

    def rpow(self, n):
        raise Unsupported('power of a floating-point value')

    def _cmp(self, o, f):
        a, b = self._pair(o)
        if b is None:
            return NotImplemented
        return _b(f(a.z, b.z))

    def __lt__(self, o): return self._cmp(o, z3.fpLT)
    def __le__(self, o): return self._cmp(o, z3.fpLEQ)
    def __gt__(self, o): return self._cmp(o, z3.fpGT)
    def __ge__(self, o): return self._cmp(o, z3.fpGEQ)
    def __eq__(self, o): return self._cmp(o, z3.fpEQ)
    def __ne__(self, o): return self._cmp(o, lambda x, y: z3.Not(z3.fpEQ(x, y)))
    __hash__ = None

    def max(self, o):
        a, b = self._pair(o)
        return FP(z3.simplify(z3.If(z3.fpGEQ(a.z, b.z), a.z, b.z)), a.dt)

    def min(self, o):
        a, b = self._pair(o)
        return FP(z3.simplify(z3.If(z3.fpLEQ(a.z, b.z), a.z, b.z)), a.dt)

    def round(self, f):
        m = {math.floor: z3.RTN(), math.ceil: z3.RTP(), math.trunc: z3.RTZ()}.get(f, RNE)
        return FP(z3.simplify(z3.fpRoundToIntegral(m, self.z)), self.dt)

    def isnan(self): return _b(z3.fpIsNaN(self.z))
    def isinf(self): return _b(z3.fpIsInf(self.z))
    def like(self, n): return FP.const(n, self.dt)

    def to_dtype(self, dt):
        if dt == self.dt:
            return self
        if dt not in SORTS:
            raise Unsupported(f'floating-point value as {dt}')
        return FP(z3.simplify(z3.fpToFP(RNE, self.z, SORTS[dt]())), dt)

    def opaque(self, name):
        raise Unsupported(f'{name} of a floating-point value')

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported('a symbolic floating-point value was read out as a Python number')

    def __repr__(self):
        return f'FP({self.z})'


def value(m, z):
    """The value of a floating-point term in a model."""
    v = m.eval(z, model_completion=True)
    if z3.is_bool(v):
        return 0. if z3.is_true(v) else 1.
    if z3.is_fp_value(v):
        if v.isNaN():
            return float('nan')
        if v.isInf():
            return float('-inf') if v.isNegative() else float('inf')
        s = -1 if v.sign() else 1
        if v.isZero():
            return s * 0.0
        sb, eb = v.sort().sbits(), v.sort().ebits()
        sig = Fraction(v.significand_as_long(), 2 ** (sb - 1))
        e = v.exponent_as_long(biased=False)
        if not v.isSubnormal():
            sig += 1
        return float(s * sig * Fraction(2) ** e)
    raise Unsupported(f'model value {v}')
