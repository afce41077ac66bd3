"""Symbolic scalars.  SymInt/SymReal are (quotients of) polynomials over z3 atoms with rational coefficients;
comparisons give SymBool, whose truth value forks the path."""
import math
import operator
import z3
from fractions import Fraction
from . import engine
from .engine import Unsupported, ctx

ONE = ()      # the empty monomial


# ---------------------------------------------------------------- polynomials
def p_const(c):
    return {ONE: c} if c else {}


def p_add(a, b, kb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if kb == 1 else c * kb)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()} if k else {}


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2 if not m1 or not m2 else tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_isconst(a):
    return not a or (len(a) == 1 and ONE in a)


def p_cval(a):
    return a.get(ONE, 0)


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def zc(c, is_int):
    if is_int:
        return z3.IntVal(int(c))
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


def p_term(p, as_int):
    """z3 term of a polynomial."""
    C = ctx()
    terms = []
    for m in sorted(p):
        c = p[m]
        if not m:
            terms.append(zc(c, as_int))
            continue
        fs = []
        for i in m:
            t = C.atoms[i]
            if not as_int and C.atom_int[i]:
                t = z3.ToReal(t)
            fs.append(t)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        if c != 1:
            t = zc(c, as_int) * t
        terms.append(t)
    if not terms:
        return zc(0, as_int)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


def p_isint(p):
    C = ctx()
    for m, c in p.items():
        if isinstance(c, Fraction) and c.denominator != 1:
            return False
        for i in m:
            if not C.atom_int[i]:
                return False
    return True


def p_cmp0(p, op):
    """z3 Bool / Python bool of  p op 0."""
    if p_isconst(p):
        c = p_cval(p)
        return {"<": c < 0, "<=": c <= 0, "==": c == 0}[op]
    # clear denominators when every atom is an integer
    C = ctx()
    allint = all(C.atom_int[i] for m in p for i in m)
    if allint:
        d = 1
        for c in p.values():
            if isinstance(c, Fraction):
                d = d * c.denominator // math.gcd(d, c.denominator)
        q = {m: int(c * d) for m, c in p.items()}
        g = 0
        for m, c in q.items():
            g = math.gcd(g, c)
        if g > 1:
            q = {m: c // g for m, c in q.items()}
        t = p_term({m: c for m, c in q.items() if m}, True)
        k = z3.IntVal(-q.get(ONE, 0))
    else:
        t = p_term({m: c for m, c in p.items() if m}, False)
        k = zc(-Fraction(p.get(ONE, 0)), False)
    if op == "<":
        return t < k
    if op == "<=":
        return t <= k
    return t == k


MAXTERMS = 80


class SymBool:
    __slots__ = ("e", "weak")
    __class__ = property(lambda self: bool)

    def __init__(self, e, weak=None):
        self.e = e
        self.weak = weak

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, b_expr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.e == b_expr(o))
        if type(o) in (int, float) or isinstance_real(o, SymNum):
            return self._num() == o
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def _num(self):
        return SymInt.atom(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __lt__(self, o): return self._num() < o
    def __gt__(self, o): return self._num() > o
    def __le__(self, o): return self._num() <= o
    def __ge__(self, o): return self._num() >= o
    def __str__(self): return "<symbool>"
    __repr__ = __str__
    def __format__(self, spec): return "<symbool>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def any(self, *a, **k): return self
    all = any


def b_expr(b):
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_and(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SymBool(es[0] if len(es) == 1 else z3.And(*es))


def b_or(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SymBool(es[0] if len(es) == 1 else z3.Or(*es))


def b_not(b):
    if type(b) is SymBool:
        return SymBool(z3.Not(b.e))
    return not b


def is_sym(x):
    return isinstance_real(x, (SymNum, SymBool)) or hasattr(type(x), "__symtype__")


def isinstance_real(x, cls):
    return issubclass(type(x), cls)


def _finite(o):
    return not (type(o) is float and (o != o or o in (math.inf, -math.inf)))


class SymNum:
    __slots__ = ("n", "d", "_t")
    is_int = False

    def __init__(self, n, d=None):
        self.n = n
        self.d = d          # None = 1
        self._t = None

    # ---- construction
    @classmethod
    def atom(cls, term):
        i = ctx().atom(term, term.sort() == z3.IntSort())
        return (SymInt if term.sort() == z3.IntSort() else SymReal)({(i,): 1})

    @property
    def term(self):
        if self._t is None:
            if self.d is None:
                self._t = p_term(self.n, self.is_int)
            else:
                self._t = p_term(self.n, False) / p_term(self.d, False)
        return self._t

    def rterm(self):
        t = self.term
        return z3.ToReal(t) if t.sort() == z3.IntSort() else t

    def const(self):
        """Fraction if constant, else None."""
        if self.d is None and p_isconst(self.n):
            return Fraction(p_cval(self.n))
        return None

    # ---- comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:      # inf / nan
            if o != o:
                return False
            return {"<": o > 0, "<=": o > 0, "==": False, ">": o < 0, ">=": o < 0}[op]
        diff = add(self, o, -1)
        if op in (">", ">="):
            diff = SymReal(p_scale(diff.n, -1), diff.d) if diff.d is not None else type(diff)(p_scale(diff.n, -1))
            op = {">": "<", ">=": "<="}[op]
        if diff.d is None:
            return mkbool(p_cmp0(diff.n, op))
        if op == "==":
            return mkbool(p_cmp0(diff.n, op))
        s = den_sign(diff.d)
        if s:
            return mkbool(p_cmp0(p_scale(diff.n, s), op))
        return mkbool(p_cmp0(p_mul(diff.n, diff.d), op))

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return True if r is NotImplemented else b_not(r)

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return 0x5eed

    def __bool__(self):
        return bool(self != 0)

    # ---- arithmetic
    def __add__(self, o): return arith(self, o, "+")
    def __radd__(self, o): return arith(o, self, "+")
    def __sub__(self, o): return arith(self, o, "-")
    def __rsub__(self, o): return arith(o, self, "-")
    def __mul__(self, o): return arith(self, o, "*")
    def __rmul__(self, o): return arith(o, self, "*")
    def __truediv__(self, o): return arith(self, o, "/")
    def __rtruediv__(self, o): return arith(o, self, "/")
    def __floordiv__(self, o): return arith(self, o, "//")
    def __rfloordiv__(self, o): return arith(o, self, "//")
    def __mod__(self, o):
        if type(o) is int and o > 2:
            K = ctx().hooks.get("group")
            if K is not None and o in K.subs:
                from . import group
                r = group.reduce_sub(self, o)
                if r is not None:
                    return r
        return arith(self, o, "%")

    def __rmod__(self, o): return arith(o, self, "%")

    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __neg__(self):
        return type(self)(p_scale(self.n, -1), self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.const()
        if c is not None:
            return type(self)(p_const(norm_c(abs(c)))) if not self.is_int else abs(int(c))
        h = ctx().hooks.get("abs")
        if h == "fork":
            return self if bool(self >= 0) else -self
        t = self.term
        return SymNum.atom(z3.If(t >= 0, t, -t))

    def __pow__(self, o, mod=None):
        if mod is not None:
            return powmod(self, o, mod)
        if isinstance_real(o, SymNum):
            c = o.const()
            if c is None:
                if o.is_int:
                    o = o.__index__()
                else:
                    raise Unsupported("symbolic real exponent")
            else:
                o = norm_c(c)
        if isinstance(o, Fraction) or (type(o) is float and o == int(o)):
            o = norm_c(Fraction(o)) if float(o) == int(o) else float(o)
        if type(o) is float and o == int(o):
            o = int(o)
        if type(o) is int:
            r = lift(1)
            for _ in range(abs(o)):
                r = r * self
            if o < 0:
                return 1 / r
            return r if isinstance_real(r, SymNum) else (float(r) if not self.is_int else r)
        if type(o) is float:
            if o == 0.5:
                return self.sqrt()
            if (2 * o) == int(2 * o) and o > 0:
                return self.__pow__(int(o)) * self.sqrt()
            if (2 * o) == int(2 * o):
                return 1 / self.__pow__(-o)
        raise Unsupported("power %r" % (o,))

    def __rpow__(self, base):
        if self.is_int:
            return base ** self.__index__()
        c = self.const()
        if c is not None:
            return base ** float(c)
        raise Unsupported("symbolic exponent")

    # ---- conversions
    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().concretize(self.term)

    def __int__(self):
        t = to_int(self)
        return t if type(t) is int else ctx().concretize(t.term)

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        if self.is_int:
            return float(self.__index__())
        C = ctx()
        C._ensure_model()
        v = engine.frac_of(C.model.eval(self.term, model_completion=True))
        C.stats.approx += 1
        C.note("a symbolic real was fixed to one value at a C boundary")
        C.assume_expr(self.rterm() == zc(v, False))
        return float(v)

    def __trunc__(self): return to_int(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)

    def __round__(self, nd=None):
        if self.is_int:
            return self
        if nd is not None:
            if type(nd) is not int:
                nd = int(nd)
            s = 10 ** nd if nd >= 0 else Fraction(1, 10 ** -nd)
            return to_real(round_half_even(self * s)) / s
        return round_half_even(self)

    def __str__(self):
        c = self.const()
        if c is not None:
            return str(int(c)) if self.is_int else str(float(c))
        h = ctx().hooks.get("str") if ctx() else None
        if h:
            return h(self)
        return "<sym>"
    __repr__ = __str__

    def __format__(self, spec):
        h = ctx().hooks.get("format") if ctx() else None
        if h:
            return h(self, spec)
        return str(self)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic value")

    # ---- numpy object-array protocol (ufuncs call methods of these names)
    def exp(self): return t_exp(self)
    def log(self): return t_log(self)
    def sqrt(self): return t_sqrt(self)
    def tanh(self):
        e = t_exp(self * 2)
        return (e - 1) / (e + 1)
    def cosh(self):
        e = t_exp(self)
        return (e + 1 / e) / 2
    def sinh(self):
        e = t_exp(self)
        return (e - 1 / e) / 2
    def log1p(self): return t_log(1 + self)
    def expm1(self): return t_exp(self) - 1
    def absolute(self): return abs(self)
    def fabs(self): return to_real(abs(self))
    def floor(self): return to_real(floor(self))
    def ceil(self): return to_real(ceil(self))
    def rint(self): return to_real(round_half_even(self))
    def square(self): return self * self
    def conjugate(self): return self
    def item(self): return self
    def copy(self): return self
    def tolist(self): return self
    def is_integer(self): return to_real(floor(self)) == self
    def bit_length(self):
        return self.__index__().bit_length()
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    def isnan(self): return False
    def isfinite(self): return True
    def isinf(self): return False
    ndim = 0
    shape = ()

    def astype(self, t): return to_real(self)

    # bit operations on integers
    def __lshift__(self, k): return self * (1 << int(k))
    def __rlshift__(self, b): return b << self.__index__()
    def __rshift__(self, k): return self // (1 << int(k))
    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0 and self.is_int:
            return self % (o + 1)
        return self.__index__() & int(o)
    __rand__ = __and__
    def __or__(self, o): return self.__index__() | int(o)
    __ror__ = __or__
    def __xor__(self, o): return self.__index__() ^ int(o)
    __rxor__ = __xor__
    def __invert__(self): return -self - 1


class SymInt(SymNum):
    __slots__ = ()
    is_int = True
    __class__ = property(lambda self: int)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import net
        return net.binary(self, length, byteorder, signed)


class SymReal(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: float)


class SymKey(SymInt):
    """Integer used as a key: every key hashes alike, so equality decides (and forks)."""
    __slots__ = ()

    def __hash__(self):
        return 0x5eed


def lift(o):
    """-> SymNum, float inf/nan, or None when not a number."""
    t = type(o)
    if issubclass(t, SymNum):
        return o
    if t is SymBool:
        return o._num()
    if t is bool or t is int:
        return SymInt(p_const(int(o)))
    if t is float:
        if not _finite(o):
            return o
        return SymReal(p_const(norm_c(Fraction(o))))
    if t is Fraction:
        return SymReal(p_const(norm_c(o)))
    try:
        import numpy as np
        if isinstance(o, np.bool_) or isinstance(o, np.integer):
            return SymInt(p_const(int(o)))
        if isinstance(o, np.floating):
            return lift(float(o))
        if isinstance(o, np.ndarray) and o.shape == ():
            return lift(o.item())
    except ImportError:
        pass
    return None


def out(n, d, is_int):
    if d is not None and p_isconst(d):
        k = Fraction(p_cval(d))
        n = {m: norm_c(Fraction(c) / k) for m, c in n.items()}
        d = None
    if is_int and d is None:
        if p_isconst(n):
            return int(p_cval(n))
        return SymInt(n)
    return SymReal(n, d)


def atomize(x):
    """Replaces a large rational expression by a fresh real."""
    C = ctx()
    v = z3.Real(C.fresh_name("q"))
    if x.d is None:
        C.add(v == p_term(x.n, False))
    else:
        C.add(v * p_term(x.d, False) == p_term(x.n, False))
    return SymNum.atom(v)


def add(a, b, kb=1):
    if a.d is None and b.d is None:
        n = p_add(a.n, b.n, kb)
        return SymInt(n) if (a.is_int and b.is_int) else SymReal(n)
    if a.d is not None and b.d is not None and a.d == b.d:
        n = p_add(a.n, b.n, kb)
        return SymReal(n, a.d) if n else SymReal({})
    da = a.d or p_const(1)
    db = b.d or p_const(1)
    n = p_add(p_mul(a.n, db), p_mul(b.n, da), kb)
    if not n:
        return SymReal({})
    return SymReal(n, p_mul(da, db))


PYOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod}


def arith(a, b, op):
    import numpy as np
    if isinstance(a, np.ndarray) and a.shape != () or isinstance(b, np.ndarray) and b.shape != ():
        arr = a if isinstance(a, np.ndarray) else b
        def one(x, y):
            r = arith(x, y, op)
            return PYOPS[op](x, y) if r is NotImplemented else r
        f = np.frompyfunc(one, 2, 1)
        return f(a, b)
    a = lift(a)
    b = lift(b)
    if a is None or b is None:
        return NotImplemented
    if type(a) is float or type(b) is float:        # a non-finite operand
        return nonfinite(a, b, op)
    is_int = a.is_int and b.is_int
    if op in "+-":
        r = add(a, b, 1 if op == "+" else -1)
        return shrink(out(r.n, r.d, is_int))
    if op == "*":
        n = p_mul(a.n, b.n)
        d = None
        if a.d is not None or b.d is not None:
            d = p_mul(a.d or p_const(1), b.d or p_const(1))
            if not n:
                d = None
        return shrink(out(n, d, is_int))
    if op == "/":
        z = b._cmp(0, "==")
        if z is True or (z is not False and bool(z)):
            raise ZeroDivisionError("division by zero")
        c = b.const()
        if c is not None:
            return out({m: norm_c(Fraction(x) / c) for m, x in a.n.items()}, a.d, False)
        n = a.n if b.d is None else p_mul(a.n, b.d)
        d = b.n if a.d is None else p_mul(a.d, b.n)
        if n == d:
            return SymReal(p_const(1))
        return shrink(out(n, d, False))
    # // and %
    if is_int and a.d is None and b.d is None:
        return int_divmod(a, b, op)
    q = a / b if isinstance_real(a, SymNum) else lift(a) / b
    fl = floor(q)
    if op == "//":
        return to_real(fl)
    return a - b * fl


def nonfinite(a, b, op):
    for x, y, first in ((a, b, True), (b, a, False)):
        if type(x) is float:
            if x != x:
                return math.nan
            if type(y) is float:
                return {"+": a + b, "-": a - b, "*": a * b}.get(op, math.nan)
            if op == "+":
                return x
            if op == "-":
                return x if first else -x
            if op == "/" and not first:
                return 0.0
            if op in "*/":
                if bool(y > 0):
                    return x
                if bool(y < 0):
                    return -x
                if op == "/":
                    raise ZeroDivisionError("float division by zero")
                return math.nan
    raise Unsupported("non-finite arithmetic")


def p_divexact(n, d):
    """n / d when d divides n, else None (lexicographic division)"""
    lead = max(d)
    lc = Fraction(d[lead])
    r = dict(n)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        m = max(r)
        mm = list(m)
        for a in lead:
            if a in mm:
                mm.remove(a)
            else:
                return None
        mm = tuple(mm)
        c = norm_c(Fraction(r[m]) / lc)
        q[mm] = c
        r = p_add(r, p_mul({mm: c}, d), -1)
        if r and max(r) >= m:
            return None
    return q


def cancel(x):
    """remove common factors of numerator and denominator (single atoms and denominators seen before)"""
    if not isinstance_real(x, SymReal) or x.d is None or not x.n:
        return x
    n, d = x.n, x.d
    common = None
    for m in list(n) + list(d):
        s = set(m)
        common = s if common is None else common & s
        if not common:
            break
    for a in common or ():
        k = min(min(m.count(a) for m in n), min(m.count(a) for m in d))

        def strip(p):
            o = {}
            for m, c in p.items():
                m = list(m)
                for _ in range(k):
                    m.remove(a)
                o[tuple(m)] = c
            return o
        n, d = strip(n), strip(d)
    seen = ctx().hooks.setdefault("_factors", [])
    if 1 < len(d) <= 6 and d not in seen and len(seen) < 12:
        seen.append(d)
    for f in seen:
        while len(d) >= len(f) or d == f:
            qd = p_divexact(d, f)
            if qd is None:
                break
            qn = p_divexact(n, f)
            if qn is None:
                break
            n, d = qn, qd
    return out(n, d, False)


def shrink(x):
    if ctx().hooks.get("cancel"):
        x = cancel(x)
    if isinstance_real(x, SymReal) and (len(x.n) > MAXTERMS or (x.d is not None and len(x.d) > MAXTERMS)):
        return atomize(x)
    return x


def den_sign(d):
    """+1/-1 when the sign of the denominator is known on this path by a cheap query, else 0."""
    C = ctx()
    cache = C.hooks.setdefault("_densign", {})
    k = tuple(sorted(d.items()))
    if k in cache:
        return cache[k]
    t = p_cmp0(p_scale(d, -1), "<")      # d > 0
    s = 0
    if t is True:
        s = 1
    elif t is False:
        s = -1
    else:
        r, _ = C._check(z3.Not(t))
        if r == z3.unsat:
            s = 1
        else:
            r, _ = C._check(t)
            if r == z3.unsat:
                s = -1
    if s:
        cache[k] = s
    return s


def int_divmod(a, b, op):
    c = b.const()
    C = ctx()
    if c is None:
        if bool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(b < 0):
            q = int_divmod(-a if isinstance_real(-a, SymNum) else lift(-a), lift(-b), "//")
        else:
            q = SymNum.atom(z3.IntVal(0) + a.term / b.term)
            q = SymNum.atom(a.term / b.term)
        return q if op == "//" else a - b * q
    c = int(c)
    if c == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if c < 0:
        q = int_divmod(lift(-a), lift(-c), "//")
        return q if op == "//" else a - q * c
    if op == "%" and C.hooks.get("group") is not None:
        from . import group
        g = group.recognise(a, c)
        if g is not None:
            return g
    # split off the part of the polynomial divisible by c (coefficients become symmetric residues)
    div, rest = {}, {}
    for m, k in a.n.items():
        k = int(k)
        q, r = divmod(k, c)
        if 2 * r > c:
            q, r = q + 1, r - c
        if q:
            div[m] = q
        if r:
            rest[m] = r
    if p_isconst(rest):
        k = p_cval(rest)
        q = out(p_add(div, p_const(k // c)), None, True)
        return q if op == "//" else int(k) % c
    mf = C.hooks.get("modfork")
    if mf and c >= mf and max(abs(k) for k in rest.values()) << 20 < c * (1 << 12 if not C.hooks.get('group') else 1):
        # numbers next to zero modulo a large modulus: fork on the sign instead of introducing a quotient
        ra = SymInt(rest)
        dv = out(div, None, True)
        if C.branch(b_expr(b_and(ra >= 0, ra < c))):
            return dv if op == "//" else ra
        if C.branch(b_expr(b_and(ra < 0, ra >= -c))):
            return dv - 1 if op == "//" else ra + c
    if C.hooks.get("modpoly"):
        # the remainder is kept as a polynomial, so that later reductions can cancel
        key = ("divmodp", c, tuple(sorted(rest.items())))
        cache = C.hooks.setdefault("_divmod", {})
        if key not in cache:
            qv = z3.Int(C.fresh_name("dq"))
            C.atom(qv, True)
            rem = out(p_add(rest, p_scale(SymNum.atom(qv).n, -c)), None, True)
            t = p_term(rem.n, True)
            C.add(z3.And(t >= 0, t < c))
            cache[key] = (SymNum.atom(qv), rem)
        q, r = cache[key]
        return r if op == "%" else out(p_add(q.n, div), None, True)
    key = ("divmod", c, tuple(sorted(rest.items())))
    cache = C.hooks.setdefault("_divmod", {})
    if key not in cache:
        qv = z3.Int(C.fresh_name("dq"))
        rv = z3.Int(C.fresh_name("dr"))
        C.add(z3.And(p_term(rest, True) == c * qv + rv, rv >= 0, rv < c))
        cache[key] = (SymNum.atom(qv), SymNum.atom(rv))
    q, r = cache[key]
    if op == "%":
        return r
    return out(p_add(q.n, div), None, True)


def powmod(a, e, m):
    hk = ctx().hooks.get("powmod")
    if hk is not None:
        return hk(a, e, m)
    return powmod_sq(a, e, m)


def powmod_sq(a, e, m):
    if isinstance_real(e, SymNum):
        e = e.__index__()
    if isinstance_real(m, SymNum):
        m = m.__index__()
    if e < 0:
        raise Unsupported("negative modular exponent")
    r = 1 % m
    b = a % m
    while e:
        if e & 1:
            r = (r * b) % m
        e >>= 1
        if e:
            b = (b * b) % m
    return r


def to_real(x):
    if hasattr(type(x), "__symtype__"):
        return x
    if isinstance_real(x, SymInt):
        return SymReal(x.n)
    if isinstance_real(x, SymReal):
        return x
    if type(x) is SymBool:
        return to_real(x._num())
    return float(x)


def to_int(x):
    if hasattr(type(x), "__symtype__"):
        return x
    """int(x) for symbolic x (truncation towards zero)."""
    if isinstance_real(x, SymInt):
        return x
    if type(x) is SymBool:
        return x._num()
    if x.d is None and p_isint(x.n):
        return out(x.n, None, True)
    c = x.const()
    if c is not None:
        return int(c)
    t = x.term
    return SymNum.atom(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def floor(x):
    if hasattr(type(x), "__symtype__"):
        return x
    if isinstance_real(x, SymInt):
        return x
    if not isinstance_real(x, SymNum):
        return math.floor(x)
    if x.d is None and p_isint(x.n):
        return out(x.n, None, True)
    c = x.const()
    if c is not None:
        return math.floor(c)
    return SymNum.atom(z3.ToInt(x.term))


def ceil(x):
    if hasattr(type(x), "__symtype__"):
        return x
    if isinstance_real(x, SymInt):
        return x
    if not isinstance_real(x, SymNum):
        return math.ceil(x)
    return -floor(-x)


def round_half_even(x):
    if isinstance_real(x, SymInt):
        return x
    if x.d is None and p_isint(x.n):
        return out(x.n, None, True)
    c = x.const()
    if c is not None:
        return round(c)
    C = ctx()
    cache = C.hooks.setdefault("_round", {})
    key = (tuple(sorted(x.n.items())), tuple(sorted(x.d.items())) if x.d else None)
    if key not in cache:
        r = z3.Int(C.fresh_name("rnd"))
        h = z3.Int(C.fresh_name("half"))
        d = x.term - z3.ToReal(r)
        half = z3.RealVal("1/2")
        C.add(z3.And(d >= -half, d <= half, z3.Implies(z3.Or(d == half, d == -half), r == 2 * h)))
        cache[key] = SymNum.atom(r)
    return cache[key]


# ---------------------------------------------------------------- transcendental functions
_EXP = z3.Function("exp_", z3.RealSort(), z3.RealSort())
_LOG = z3.Function("log_", z3.RealSort(), z3.RealSort())


def _lead_negative(x):
    if not x.n:
        return False
    m = max(x.n, key=lambda k: (len(k), k))
    return x.n[m] < 0


def t_exp(x):
    x = lift(x)
    if type(x) is float:
        return math.exp(x)
    c = x.const()
    if c is not None:
        if c == 0:
            return lift(1.0)
        # a constant argument: fixed to the double nearest to e**c
        return lift(math.exp(float(c)))
    C = ctx()
    on = C.hooks.get("on_exp")
    if on:
        on(x)
    if C.hooks.get("underflow") and bool(x < -746):
        return lift(0.0)
    if C.hooks.get("expsplit") and x.d is None:
        r = _exp_split(x)
        if r is not None:
            return r
    if _lead_negative(x):
        e = _exp_atom(-x)
        return 1 / e
    return _exp_atom(x)


def _exp_split(x):
    """e**(sum of integer multiples of atoms) as a product of powers of e**atom"""
    r = lift(1.0)
    for m, c in sorted(x.n.items()):
        c = Fraction(c)
        if m == ():
            r = r * lift(math.exp(float(c)))
            continue
        if c.denominator != 1 or abs(c) > 8:
            return None
        e = _exp_atom(SymReal({m: 1}))
        r = r * (e ** int(abs(c)) if c > 0 else 1 / e ** int(abs(c)))
    return r


def _exp_content(x):
    """x = product of powers of exp atoms times rest: (list of (argument, power), rest)"""
    parts = []
    n, d = x.n, x.d or p_const(1)
    for k2, (u, e) in ctx().hooks.get("_exp", {}).items():
        if e.d is not None or len(e.n) != 1:
            continue
        (m, c), = e.n.items()
        if len(m) != 1 or c != 1:
            continue
        a = m[0]
        kn = min(mm.count(a) for mm in n)
        kd = min(mm.count(a) for mm in d)
        if kn or kd:
            def strip(p, k):
                out_ = {}
                for mm, cc in p.items():
                    mm = list(mm)
                    for _ in range(k):
                        mm.remove(a)
                    out_[tuple(mm)] = cc
                return out_
            n, d = strip(n, kn), strip(d, kd)
            parts.append((u, kn - kd))
    return parts, (n, d)


def _exp_atom(x):
    """e**x for x with positive leading coefficient: a fresh positive real with monotonicity axioms."""
    C = ctx()
    x = to_real(x)
    cache = C.hooks.setdefault("_exp", {})
    # integer multiples of a known argument become powers:  exp(k*u) = exp(u)**k
    key = (tuple(sorted(x.n.items())), tuple(sorted(x.d.items())) if x.d else None)
    if key in cache:
        return cache[key][1]
    for k2, (x2, e2) in list(cache.items()):
        if (x2.d or None) == (x.d or None) and set(x2.n) == set(x.n) and len(x.n):
            m0 = next(iter(x.n))
            ratio = Fraction(x.n[m0]) / Fraction(x2.n[m0])
            if ratio.denominator == 1 and ratio > 0 and all(Fraction(x.n[m]) == ratio * x2.n[m] for m in x.n):
                r = e2 ** int(ratio)
                cache[key] = (x, r)
                return r
    # exp(a + c): split off differences with known arguments that are sums of known ones
    e = z3.Real(C.fresh_name("exp"))
    t = x.rterm()
    C.add(z3.And(e > 0, e >= 1 + t, (e > 1) == (t > 0), (e == 1) == (t == 0)))
    for k2, (x2, e2) in cache.items():
        t2 = x2.rterm()
        C.add(z3.And((e < e2.rterm()) == (t < t2), (e == e2.rterm()) == (t == t2)))
    r = SymNum.atom(e)
    cache[key] = (x, r)
    return r


def t_log(x):
    x = lift(x)
    if type(x) is float:
        return math.log(x) if x > 0 else math.nan
    c = x.const()
    if c is not None:
        if c <= 0:
            raise Unsupported("log of a non-positive number")
        return lift(0.0) if c == 1 else lift(math.log(float(c)))
    if not bool(x > 0):
        if bool(x == 0):
            return -math.inf
        return math.nan
    C = ctx()
    # log(exp(u)) = u
    for k2, (x2, e2) in C.hooks.get("_exp", {}).items():
        if e2.n == x.n and e2.d == x.d:
            return x2
    if C.hooks.get("expsplit"):
        parts, (n, d) = _exp_content(x)
        if parts:
            cd = d.get((), None) if set(d) <= {()} else None
            rest = out({m: norm_c(Fraction(c) / cd) for m, c in n.items()}, None, False) if cd is not None \
                else out(n, d, False)
            r = t_log(rest)
            for u, k in parts:
                r = r + u * k
            return r
        if x.d is not None:
            es = {next(iter(e.n))[0] for _, e in C.hooks.get("_exp", {}).values() if e.d is None and len(e.n) == 1}
            if all(c > 0 and set(m) <= es for p in (x.n, x.d) for m, c in p.items()):
                return t_log(SymReal(x.n)) - t_log(SymReal(x.d))
    cache = C.hooks.setdefault("_log", {})
    key = (tuple(sorted(x.n.items())), tuple(sorted(x.d.items())) if x.d else None)
    if key in cache:
        return cache[key][1]
    inv = None
    if x.d is not None:
        ikey = (tuple(sorted(x.d.items())), tuple(sorted(x.n.items())))
        if ikey in cache:
            return -cache[ikey][1]
    l = z3.Real(C.fresh_name("log"))
    t = x.rterm()
    C.add(z3.And(l <= t - 1, (l > 0) == (t > 1), (l == 0) == (t == 1)))
    for k2, (x2, l2) in cache.items():
        t2 = x2.rterm()
        C.add(z3.And((l < l2.rterm()) == (t < t2), (l == l2.rterm()) == (t == t2)))
    for k2, (u, e2) in C.hooks.get("_exp", {}).items():
        C.add(z3.And((l < u.rterm()) == (t < e2.rterm()), (l == u.rterm()) == (t == e2.rterm())))
    r = SymNum.atom(l)
    cache[key] = (x, r)
    return r


def t_sqrt(x):
    x = lift(x)
    if type(x) is float:
        return math.sqrt(x)
    c = x.const()
    if c is not None:
        f = math.sqrt(float(c))
        if Fraction(f) ** 2 == c:
            return lift(f)
    if bool(x < 0):
        return math.nan
    C = ctx()
    cache = C.hooks.setdefault("_sqrt", {})
    key = (tuple(sorted(x.n.items())), tuple(sorted(x.d.items())) if x.d else None)
    if key not in cache:
        s = z3.Real(C.fresh_name("sqrt"))
        if x.d is None:
            C.add(z3.And(s >= 0, s * s == x.rterm()))
        else:
            C.add(z3.And(s >= 0, s * s * p_term(x.d, False) == p_term(x.n, False)))
        cache[key] = SymNum.atom(s)
    return cache[key]
