"""The interface a check is written against.  The same check function runs symbolically (SymH: inputs are solver
variables, checks are obligations) and concretely (ConcH: inputs are read from an assignment, checks are evaluated)."""
import math
import random as _random
import z3
from fractions import Fraction
import numpy as np
from . import engine, syms, npshim
from .engine import PathAbort, Unsupported
from .syms import SymNum, SymBool, SymInt, SymReal, SymKey, mkbool, b_and, b_or, b_not, b_expr, lift
from .world import World


class CheckFailed(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class AssumeFailed(BaseException):
    pass


class Rejected(Exception):
    """raised by expect() helpers"""


class HBase:
    def world(self, **k):
        w = World(self.symbolic, hooks=self.hooks, **k)
        self.w = w
        return w

    def mod(self, name):
        return self.w.load(name)

    def cls(self, mod, name):
        return getattr(self.w.load(mod), name)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def pick(self, name, options):
        options = list(options)
        return options[self.choose(name, len(options))]

    def expect(self, excs, fn, *a, key=None, msg="expected an exception", **k):
        """fn must raise one of excs."""
        try:
            fn(*a, **k)
        except excs as e:
            self.check(True, msg, key)
            return e
        self.check(False, msg, key)

    def total(self, xs, start=0):
        s = start
        for x in xs:
            s = s + x
        return s

    def every(self, *bs):
        return self.land(*bs)


class SymH(HBase):
    symbolic = True

    def __init__(self, c):
        self.c = c
        self.hooks = c.hooks
        self.seed_rng = _random.Random(0)

    # ---- inputs
    def _num(self, name, kind, lo, hi, cls, strict=False):
        c = self.c
        if name in c.inputs:
            return cls({(c.atom(c.inputs[name][1], kind == "i"),): 1})
        v = z3.Int(name) if kind == "i" else z3.Real(name)
        c.inputs[name] = (kind, v)
        cons = []
        mk = (lambda x: z3.IntVal(int(x))) if kind == "i" else (lambda x: syms.zc(Fraction(x), False))
        if lo is not None:
            cons.append(v >= mk(lo) if not strict else v > mk(lo))
        if hi is not None:
            cons.append(v <= mk(hi) if not strict else v < mk(hi))
        if cons:
            c.assume_input(z3.And(*cons))
        return cls({(c.atom(v, kind == "i"),): 1})

    def real(self, name, lo=None, hi=None, strict=False):
        return self._num(name, "r", lo, hi, SymReal, strict)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return self._num(name, "i", lo, hi, SymInt)

    def key(self, name, lo=0, hi=None):
        if lo is not None and lo == hi:
            return SymKey(syms.p_const(lo))
        return self._num(name, "i", lo, hi, SymKey)

    def boolean(self, name):
        c = self.c
        if name not in c.inputs:
            c.inputs[name] = ("b", z3.Bool(name))
        return SymBool(c.inputs[name][1])

    def choose(self, name, n):
        return self.c.choose(name, n)

    # ---- logic
    def assume(self, cond):
        if type(cond) is SymBool:
            self.c.assume_expr(cond.e)
        elif not cond:
            self.c.flush()
            self.c.abort()

    def check(self, cond, msg, key=None, weak=None):
        c = self.c
        c.alive()
        c.reached += 1
        c.stats.obligations += 1
        if type(cond) is SymBool:
            c.pending.append((cond.e, b_expr(weak) if weak is not None else None, msg, key))
            if len(c.pending) > 200:
                c.flush()
        elif cond:
            c.stats.trivial += 1
        elif weak is not None and (type(weak) is SymBool or weak):
            if type(weak) is SymBool:
                c.pending.append((weak.e, None, msg, key))
            else:
                c.stats.trivial += 1
        else:
            c.pending.append((z3.BoolVal(False), None, msg, key))
            c.flush()

    def close(self, a, b, msg, key=None, tol=1e-9):
        """a equals b (exactly over the reals; a difference above tol is what counts as a violation)."""
        self.observe(a)
        if a is None or b is None:
            return self.check(a is None and b is None, msg, key)
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return self.check(False, msg + " (not a number: %s / %s)" % (type(a).__name__, type(b).__name__), key)
        if type(la) is float or type(lb) is float:
            same = type(la) is float and type(lb) is float and (la == lb or (la != la and lb != lb))
            return self.check(same, msg, key)
        d = la - lb
        eq = d == 0
        if eq is True or eq is False:
            if eq:
                return self.check(True, msg, key)
            if not isinstance(d, SymNum):
                return self.check(abs(d) <= tol * (1 + abs(float(Fraction(b))) if not isinstance(b, SymNum) else 1), msg, key)
        t = Fraction(tol)
        w = b_and(d <= t, d >= -t)
        self.check(eq, msg, key, weak=w)

    def land(self, *bs):
        return b_and(*bs)

    def lor(self, *bs):
        return b_or(*bs)

    def lnot(self, b):
        return b_not(b)

    def implies(self, a, b):
        return b_or(b_not(a), b)

    def ite(self, c, a, b):
        return npshim.ite(c, a, b)

    def eq(self, a, b):
        return a == b

    def le(self, a, b, tol=1e-9):
        return a <= b

    def lt(self, a, b, tol=1e-9):
        """strict comparison; never holds by rounding alone in the concrete replay"""
        return a < b

    def num(self, c):
        return c._num() if type(c) is SymBool else int(c)

    def observe(self, v):
        self.c.observed.append(None if self.hooks.get("noobs") else v)

    def branch(self, cond):
        return bool(cond)

    def value(self, x):
        """concrete value of a symbolic integer (forks over all values)"""
        return x.__index__() if isinstance(x, SymNum) else x

    def concrete(self, x):
        return x


class ConcH(HBase):
    symbolic = False

    def __init__(self, assignment, tol=1e-6):
        self.a = assignment
        self.hooks = {}
        self.used = set()
        self.failures = []
        self.nchecks = 0
        self.observed = []
        self.tol = tol

    def _get(self, name, default):
        self.used.add(name)
        if name not in self.a:
            return default
        return self.a[name][1]

    def real(self, name, lo=None, hi=None, strict=False):
        v = self._get(name, None)
        f = float(Fraction(v)) if v is not None else float(lo if lo is not None else (hi if hi is not None else 0.0))
        if strict and ((lo is not None and f <= lo) or (hi is not None and f >= hi)):
            raise AssumeFailed()
        return f

    def int(self, name, lo=None, hi=None):
        v = self._get(name, None)
        return int(Fraction(v)) if v is not None else int(lo if lo is not None else 0)

    def key(self, name, lo=0, hi=None):
        return self.int(name, lo, hi)

    def boolean(self, name):
        return bool(self._get(name, False))

    def choose(self, name, n):
        return int(self._get(name, 0))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg, key=None, weak=None):
        self.nchecks += 1
        if weak is not None and weak:
            return
        if not cond:
            self.failures.append((msg, key))

    def close(self, a, b, msg, key=None, tol=1e-9):
        self.nchecks += 1
        if a is None or b is None:
            if a is not None or b is not None:
                self.failures.append((msg + ": %r != %r" % (a, b), key))
            return
        try:
            x, y = to_f(a), to_f(b)
            self.observed.append(x)
        except (TypeError, ValueError):
            self.failures.append((msg + ": %r != %r" % (a, b), key))
            return
        if x == y or (x != x and y != y):
            return
        if math.isinf(x) or math.isinf(y) or x != x or y != y:
            self.failures.append((msg + ": %r != %r" % (a, b), key))
            return
        t = max(tol / 2, 1e-12) + 1e-9 * max(abs(x), abs(y)) if tol < self.tol else tol / 2
        if abs(x - y) > t:
            self.failures.append((msg + ": %r != %r" % (a, b), key))

    def land(self, *bs):
        return all(bool(b) for b in bs)

    def lor(self, *bs):
        return any(bool(b) for b in bs)

    def lnot(self, b):
        return not b

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        if isinstance(a, (int, str, bool, type(None))) and isinstance(b, (int, str, bool, type(None))):
            return a == b
        try:
            x, y = to_f(a), to_f(b)
        except (TypeError, ValueError):
            return a == b
        return x == y or abs(x - y) <= 1e-12 + 1e-9 * max(abs(x), abs(y))

    def le(self, a, b, tol=1e-9):
        return a <= b + tol * (1 + abs(b))

    def lt(self, a, b, tol=1e-9):
        return a < b - tol * (1 + abs(b))

    def num(self, c):
        return int(bool(c))

    def observe(self, v):
        try:
            self.observed.append(to_f(v))
        except (TypeError, ValueError):
            self.observed.append(None)

    def branch(self, cond):
        return bool(cond)

    def value(self, x):
        return int(x)

    def concrete(self, x):
        return x


def to_f(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.item()
    return float(x)
