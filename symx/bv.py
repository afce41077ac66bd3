"""Small integers as 32-bit vectors with interval tracking: exact Python arithmetic as long as the interval fits.  Used where
the code does modular arithmetic bit for bit (tables, products, remainders), which integer arithmetic solves badly."""
import math
import z3
from . import engine, syms
from .engine import Unsupported, ctx
from .syms import SymBool, mkbool

W = 40
LIM = 1 << (W - 2)


def bvc(v):
    return z3.BitVecVal(v, W)


def new(h, name, lo, hi):
    """input of a check"""
    if not h.symbolic:
        return h.int(name, lo, hi)
    c = ctx()
    v = z3.BitVec(name, W)
    if name not in c.inputs:
        c.inputs[name] = ("w", v)
        c.assume_input(z3.And(v >= bvc(lo), v <= bvc(hi)))
    return BVInt(v, lo, hi)


def lift(o):
    if type(o) is BVInt:
        return o
    if type(o) in (int, bool):
        return BVInt(bvc(int(o)), int(o), int(o)) if abs(o) < LIM else None
    return None


def narrow(e, hi):
    """low bits of a non-negative term not above hi"""
    w = max(1, hi.bit_length())
    return (z3.Extract(w - 1, 0, e), w) if w < W else (e, W)


def widen(e, w):
    return z3.ZeroExt(W - w, e) if w < W else e


def udivrem(e, hi, c, f):
    x, w = narrow(e, hi)
    if c >> w:
        return bvc(0) if f is z3.UDiv else e
    return widen(f(x, z3.BitVecVal(c, w)), w)


class BVInt:
    __slots__ = ("e", "lo", "hi")
    __class__ = property(lambda self: int)
    __symtype__ = int

    def __init__(self, e, lo, hi):
        if lo < -LIM or hi > LIM:
            raise Unsupported("bit vector too narrow")
        self.e, self.lo, self.hi = e, lo, hi

    def simp(self):
        return self.lo if self.lo == self.hi else self

    def _bin(self, o, f, rng):
        if type(o) is float and o == int(o):
            o = int(o)
        b = lift(o)
        if b is None:
            if type(o) is int:
                raise Unsupported("bit vector too narrow")
            return NotImplemented
        lo, hi = rng(self, b)
        if lo < -LIM or hi > LIM:
            raise Unsupported("bit vector too narrow")
        return BVInt(f(self.e, b.e), lo, hi)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: (a.lo + b.lo, a.hi + b.hi))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: (b.lo - a.hi, b.hi - a.lo))

    def __mul__(self, o):
        def rng(a, b):
            x = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(x), max(x)
        def mul(a, b):
            x, y = lift(self), lift(o)
            if x.lo < 0 or y.lo < 0:
                return a * b
            h = x.hi * y.hi
            xs, w = narrow(a, h)
            ys, w = narrow(b, h)
            return widen(xs * ys, w)
        return self._bin(o, mul, rng)
    __rmul__ = __mul__

    def __neg__(self): return 0 - self
    def __pos__(self): return self
    def __abs__(self): return self if self.lo >= 0 else BVInt(z3.If(self.e >= 0, self.e, -self.e), 0, max(-self.lo, self.hi))

    def __mod__(self, c):
        c = conc(c)
        if c == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if c < 0:
            raise Unsupported("negative modulus")
        if 0 <= self.lo and self.hi < c:
            return self
        if self.lo >= 0:
            return BVInt(udivrem(self.e, self.hi, c, z3.URem), 0, c - 1)
        # make it non-negative first: one unsigned remainder
        k = (-self.lo + c - 1) // c * c
        return BVInt(udivrem(self.e + bvc(k), self.hi + k, c, z3.URem), 0, c - 1)

    def __floordiv__(self, c):
        c = conc(c)
        if c == 0:
            raise ZeroDivisionError("integer division by zero")
        if c < 0:
            return (-self) // -c
        k = 0 if self.lo >= 0 else (-self.lo + c - 1) // c
        return BVInt(udivrem(self.e + bvc(k * c), max(0, self.hi + k * c), c, z3.UDiv) - bvc(k), self.lo // c, self.hi // c)

    def __truediv__(self, o):
        raise Unsupported("division of a bit vector")

    def __rmod__(self, o): return o % conc(self)
    def __rfloordiv__(self, o): return o // conc(self)

    def __pow__(self, e, m=None):
        if m is None:
            r = 1
            for _ in range(conc(e)):
                r = self * r
            return r
        return powmod(self, e, m)

    def __rpow__(self, b, m=None):
        return b ** conc(self)

    def _cmp(self, o, op):
        if type(o) is float:
            if o != o:
                return op == "!="
            if o in (math.inf, -math.inf):
                return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
            if o != int(o):
                f = math.floor(o)
                return {"<": lambda: self <= f, "<=": lambda: self <= f, ">": lambda: self > f, ">=": lambda: self > f,
                        "==": lambda: False, "!=": lambda: True}[op]()
            o = int(o)
        b = lift(o)
        if b is None:
            if type(o) is int:
                return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
            return NotImplemented
        if op == "<":
            return True if self.hi < b.lo else False if self.lo >= b.hi else mkbool(self.e < b.e)
        if op == "<=":
            return True if self.hi <= b.lo else False if self.lo > b.hi else mkbool(self.e <= b.e)
        if op == ">":
            return True if self.lo > b.hi else False if self.hi <= b.lo else mkbool(self.e > b.e)
        if op == ">=":
            return True if self.lo >= b.hi else False if self.hi < b.lo else mkbool(self.e >= b.e)
        if self.hi < b.lo or self.lo > b.hi:
            return op == "!="
        r = z3.simplify(self.e == b.e)
        r = mkbool(r)
        return r if op == "==" else syms.b_not(r)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __hash__(self): return hash(conc(self))
    def __bool__(self):
        r = self != 0
        return bool(r)
    def __index__(self): return ctx().concretize(z3.BV2Int(self.e, True))
    def __int__(self): return self.__index__()
    def __symint__(self): return self
    def __round__(self, nd=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __float__(self): return float(self.__index__())
    def __repr__(self): return "<symint>"
    __str__ = __repr__
    def __format__(self, spec): return "<symint>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def absolute(self): return abs(self)
    def fabs(self): return abs(self)
    def __and__(self, o):
        return BVInt(self.e & lift(o).e, 0, o) if type(o) is int and o >= 0 else self.__index__() & o
    def __rshift__(self, k): return self // (1 << k)
    def __lshift__(self, k): return self * (1 << k)
    def bit_length(self): return self.__index__().bit_length()


def conc(x):
    if type(x) is BVInt:
        return x.lo if x.lo == x.hi else x.__index__()
    return x


def table(x, c, f):
    """f(x) for x in [0, c)"""
    vals = [f(v) for v in range(c)]

    xs, w = narrow(x.e, c - 1)
    rb = max(1, max(vals).bit_length())

    def tree(prefix, bits):
        """value for the residues with the given high bits"""
        lo = prefix << bits
        sub = vals[lo:lo + (1 << bits)]
        if not sub:
            return None
        if all(v == sub[0] for v in sub):
            return z3.BitVecVal(sub[0], rb)
        l, r = tree(prefix << 1, bits - 1), tree(prefix << 1 | 1, bits - 1)
        if r is None:
            return l
        return z3.If(z3.Extract(bits - 1, bits - 1, xs) == 1, r, l)
    return BVInt(widen(tree(0, w), rb), min(vals), max(vals))


def powmod(a, b, c):
    c = conc(c)
    b = conc(b)
    if type(a) is not BVInt:
        return pow(a, b, c)
    if b < 0:
        a, b = invert(a, c), -b
    if c > 50000:
        raise Unsupported("table too large")
    return table(a % c, c, lambda v: pow(v, b, c))


def invert(a, b):
    b = conc(b)
    if type(a) is not BVInt:
        try:
            return pow(a, -1, b)
        except ValueError:
            raise ZeroDivisionError("invert() no inverse exists")
    inv = table(a % b, b, lambda v: pow(v, -1, b) if math.gcd(v, b) == 1 else 0)
    if b > 1 and bool(inv == 0):
        raise ZeroDivisionError("invert() no inverse exists")
    return inv
