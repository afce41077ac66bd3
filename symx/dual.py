"""Truncated Taylor numbers: a value with its first and second derivative, carried through the code under test."""
import math
from .syms import SymNum, SymBool


def _f(name, x):
    m = getattr(x, name, None)
    if m is not None and type(x) not in (int, float):
        return m()
    return getattr(math, name)(x)


def lift(x):
    if type(x) is Dual:
        return x
    if hasattr(x, "item") and not isinstance(x, SymNum) and getattr(x, "shape", None) == ():
        x = x.item()
    if isinstance(x, (int, float, SymNum)):
        return Dual(x, 0, 0)
    return None


class Dual:
    __symtype__ = float
    __array_priority__ = 1000

    def __init__(self, v, d=0, e=0):
        self.v, self.d, self.e = v, d, e

    def chain(self, f, f1, f2):
        return Dual(f, f1 * self.d, f2 * self.d * self.d + f1 * self.e)

    def _bin(self, o, fn):
        if hasattr(o, "shape") and not isinstance(o, SymNum) and o.shape != ():
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else fn(self, o)

    def __add__(self, o): return self._bin(o, lambda a, b: Dual(a.v + b.v, a.d + b.d, a.e + b.e))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: Dual(a.v - b.v, a.d - b.d, a.e - b.e))
    def __rsub__(self, o): return self._bin(o, lambda a, b: Dual(b.v - a.v, b.d - a.d, b.e - a.e))
    def __mul__(self, o):
        return self._bin(o, lambda a, b: Dual(a.v * b.v, a.d * b.v + a.v * b.d, a.e * b.v + 2 * a.d * b.d + a.v * b.e))
    __rmul__ = __mul__
    def inv(self):
        r = 1 / self.v
        return self.chain(r, -r * r, 2 * r * r * r)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a * b.inv())
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b * a.inv())
    def __neg__(self): return Dual(-self.v, -self.d, -self.e)
    def __pos__(self): return self
    def __abs__(self): return self if self.cmp(Dual(0)) >= 0 else -self
    def __pow__(self, k):
        if k == 1:
            return self
        if k == 0:
            return Dual(1.0)
        if k == 0.5:
            return self.sqrt()
        if k == int(k) and k > 0:
            r = self
            for _ in range(int(k) - 1):
                r = r * self
            return r
        if k < 0:
            return (self ** -k).inv()
        return self ** int(k) * self.sqrt()

    def cmp(self, o):
        """-1, 0 or 1 just beside the point, in the direction of the derivative: code may bend at a tie (|x|, max, a branch)"""
        for x, y in ((self.v, o.v), (self.d, o.d), (self.e, o.e)):
            if bool(x > y):
                return 1
            if bool(x < y):
                return -1
        return 0

    def __lt__(self, o): return self._bin(o, lambda a, b: a.cmp(b) < 0)
    def __le__(self, o): return self._bin(o, lambda a, b: a.cmp(b) <= 0)
    def __gt__(self, o): return self._bin(o, lambda a, b: a.cmp(b) > 0)
    def __ge__(self, o): return self._bin(o, lambda a, b: a.cmp(b) >= 0)
    def __eq__(self, o): return self._bin(o, lambda a, b: a.cmp(b) == 0)
    def __ne__(self, o): return self._bin(o, lambda a, b: a.cmp(b) != 0)
    __hash__ = None
    def __bool__(self): return self.cmp(Dual(0)) != 0
    def __float__(self): return float(self.v)

    def exp(self):
        e = _f("exp", self.v)
        return self.chain(e, e, e)

    def log(self):
        r = 1 / self.v
        return self.chain(_f("log", self.v), r, -r * r)

    def sqrt(self):
        s = _f("sqrt", self.v)
        return self.chain(s, 1 / (2 * s), -1 / (4 * s * s * s))

    def cosh(self):
        e = self.exp()
        return (e + e.inv()) / 2

    def sinh(self):
        e = self.exp()
        return (e - e.inv()) / 2

    def tanh(self):
        e = self.exp()
        e = e * e
        return (e - 1) / (e + 1)

    def log1p(self): return (1 + self).log()
    def expm1(self): return self.exp() - 1
    def absolute(self): return abs(self)
    def fabs(self): return abs(self)
    def square(self): return self * self
    def reciprocal(self): return self.inv()
    def copy(self): return self
    def item(self): return self
