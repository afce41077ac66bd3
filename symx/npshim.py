"""numpy / math stand-ins for the symbolic world: delegate to the real library, keep symbolic values symbolic."""
import math
import types
import operator
import numpy as np
from . import syms
from .syms import SymNum, SymBool, SymReal, SymInt, isinstance_real, arith, b_or, b_and
from .engine import Unsupported, ctx


def issym(x):
    return issubclass(type(x), (SymNum, SymBool)) or hasattr(type(x), "__symtype__")


class ndarray(np.ndarray):
    """Object array that never converts its symbolic elements to doubles."""
    def astype(self, dtype, *a, **k):
        if dtype in (object, None):
            return np.ndarray.astype(self, object)
        if self.dtype == object:
            name = getattr(dtype, "__name__", str(dtype))
            if "int" in name:
                return wrap(np.frompyfunc(lambda x: syms.to_int(x) if issym(x) else int(x), 1, 1)(self.view(np.ndarray)))
            if "float" in name or name == "d":
                from .world import conv_float
                return wrap(np.frompyfunc(lambda x: conv_float(x), 1, 1)(self.view(np.ndarray)))
        return np.ndarray.astype(self, dtype, *a, **k)

    def __deepcopy__(self, memo):
        import copy
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            out[i] = copy.deepcopy(self[i], memo)
        return out.view(ndarray)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        args = [np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) else x for x in args]
        if method == "__call__" and ufunc.__name__.endswith("(vectorized)"):
            return wrap(ufunc(*args, **kw))
        if method == "__call__":
            kw2 = dict(kw)
            out = kw2.pop("out", None)
            r = Ufunc(ufunc)(*args, **kw2)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        if "out" in kw:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, np.ndarray) else o for o in kw["out"])
        return wrap(getattr(ufunc, method)(*args, **kw))

    def any(self, *a, **k):
        if self.dtype == object and not a and not k:
            return b_or(*[x if issym(x) else bool(x) for x in self.ravel()])
        return np.ndarray.any(self, *a, **k)

    def all(self, *a, **k):
        if self.dtype == object and not a and not k:
            return b_and(*[x if issym(x) else bool(x) for x in self.ravel()])
        return np.ndarray.all(self, *a, **k)


SymArr = ndarray


def wrap(r):
    """Result of a numpy call -> form used in the symbolic world."""
    if isinstance(r, np.ndarray):
        if r.dtype.kind == "f":
            r = r.astype(object)
        if r.dtype == object:
            if r.shape == ():
                return r.item()
            return r.view(SymArr)
        return r
    if isinstance(r, np.floating):
        return float(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    return r


def _has_float_or_sym(x):
    if issym(x) or isinstance(x, (float, np.floating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object or x.dtype.kind == "f"
    if isinstance(x, (list, tuple)):
        return any(_has_float_or_sym(y) for y in x)
    return not isinstance(x, (int, str, bytes, bool, np.generic))


def mk(x, copy=True):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return (np.array(x, copy=True) if copy else x).view(SymArr) if x.shape != () else x
        if x.dtype.kind == "f":
            return wrap(np.array(x))
        return np.array(x) if copy else x
    if isinstance(x, (list, tuple)):
        if _has_float_or_sym(x):
            try:
                real = np.array(_shape_only(x))
                shape = real.shape
            except ValueError:
                shape = (len(x),)
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(shape):
                v = x
                for k in i:
                    v = v[k]
                out[i] = _plain(v)
            return out.view(SymArr)
        try:
            return np.array(x)
        except ValueError:            # ragged: numpy < 1.24 gives an object array
            out = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                out[i] = v
            return out.view(SymArr)
    if issym(x) or not isinstance(x, (int, str, bytes, bool, float, np.generic)):
        out = np.empty((), dtype=object)
        out[()] = x
        return out.view(SymArr)
    return np.array(x)


def _plain(v):
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, np.integer):
        return int(v)
    return v


def _shape_only(x):
    if isinstance(x, np.ndarray):
        return np.zeros(x.shape)
    if isinstance(x, (list, tuple)):
        return [_shape_only(y) for y in x]
    return 0.0


def _np_float(v):
    with np.errstate(all="ignore"):
        return v


UNARY = {"exp": lambda x: x.exp(), "log": lambda x: x.log(), "sqrt": lambda x: x.sqrt(), "tanh": lambda x: x.tanh(),
         "cosh": lambda x: x.cosh(), "sinh": lambda x: x.sinh(), "log1p": lambda x: x.log1p(),
         "expm1": lambda x: x.expm1(), "absolute": abs, "fabs": lambda x: syms.to_real(abs(x)), "negative": lambda x: -x,
         "square": lambda x: x * x, "floor": lambda x: syms.to_real(syms.floor(x)),
         "ceil": lambda x: syms.to_real(syms.ceil(x)), "rint": lambda x: syms.to_real(syms.round_half_even(x)),
         "isnan": lambda x: False, "isfinite": lambda x: True, "isinf": lambda x: False,
         "sign": lambda x: syms.to_real(ite(x > 0, 1, ite(x < 0, -1, 0))), "reciprocal": lambda x: 1 / x,
         "logical_not": lambda x: syms.b_not(x if type(x) is SymBool else x != 0), "positive": lambda x: x,
         "trunc": lambda x: syms.to_real(syms.to_int(x)), "conjugate": lambda x: x,
         "log2": lambda x: x.log() / math.log(2), "log10": lambda x: x.log() / math.log(10),
         "exp2": lambda x: (x * math.log(2)).exp()}


def _div(x, y):
    """numpy true division: zero denominators give inf/nan instead of raising."""
    try:
        return x / y
    except ZeroDivisionError:
        if bool(x == 0):
            return math.nan
        return math.inf if bool(x > 0) else -math.inf


def _pow(x, y):
    return x ** y


BINARY = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": _div, "true_divide": _div,
          "floor_divide": operator.floordiv, "power": _pow, "float_power": _pow, "remainder": operator.mod,
          "mod": operator.mod,
          "maximum": lambda x, y: x if bool(x >= y) else y, "minimum": lambda x, y: x if bool(x <= y) else y,
          "fmax": lambda x, y: x if bool(x >= y) else y, "fmin": lambda x, y: x if bool(x <= y) else y,
          "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
          "equal": operator.eq, "not_equal": operator.ne,
          "logical_and": lambda x, y: b_and(tob(x), tob(y)), "logical_or": lambda x, y: b_or(tob(x), tob(y)),
          "bitwise_and": operator.and_, "bitwise_or": operator.or_, "bitwise_xor": operator.xor}
BOOLS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not",
         "isnan", "isfinite", "isinf"}


def tob(x):
    return x if type(x) in (bool, SymBool) else x != 0


def ite(c, a, b):
    """if-then-else without forking."""
    import z3
    if type(c) is not SymBool:
        return a if c else b
    la, lb = syms.lift(a), syms.lift(b)
    if la is None or lb is None or type(la) is float or type(lb) is float:
        return a if bool(c) else b
    if la.is_int and lb.is_int:
        return SymNum.atom(z3.If(c.e, la.term, lb.term))
    return SymNum.atom(z3.If(c.e, la.rterm(), lb.rterm()))


class Ufunc:
    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__

    def __getattr__(self, n):
        real = getattr(self.real, n)
        if n in ("reduce", "accumulate", "reduceat", "outer", "at") and self.__name__ in BINARY:
            def call(*a, **k):
                a = [mk(x, False) if isinstance(x, (list, tuple)) else x for x in a]
                return wrap(real(*a, **k))
            return call
        return real

    def __call__(self, *args, **kw):
        name = self.__name__
        kw.pop("dtype", None)
        if "where" in kw or "out" in kw:
            return wrap(self.real(*args, **kw))
        args = [mk(a, False) if isinstance(a, (list, tuple)) else a for a in args]
        sy = any(issym(a) or (isinstance(a, np.ndarray) and a.dtype == object) for a in args)
        if not sy:
            with np.errstate(all="ignore"):
                return wrap(self.real(*args, **kw))
        if len(args) == 1:
            f = UNARY.get(name)
            real = self.real
        else:
            f = BINARY.get(name)
            real = self.real
        if f is None:
            raise Unsupported("numpy function %s on symbolic values" % name)

        def one(*xs):
            if any(issym(x) for x in xs):
                return f(*xs)
            if any(x is None or isinstance(x, (str, list, dict, tuple)) for x in xs):
                return f(*xs)
            if len(xs) == 2 and all(isinstance(x, int) for x in xs) and f is not _div:
                return f(*xs)
            if not all(isinstance(x, (int, float, np.generic, bool)) for x in xs):
                return f(*xs)
            with np.errstate(all="ignore"):
                r = real(*xs)
            return r.item() if isinstance(r, np.generic) else r
        if all(not isinstance(a, np.ndarray) or a.shape == () for a in args):
            return one(*[a.item() if isinstance(a, np.ndarray) else a for a in args])
        args = [_box(a) for a in args]
        r = np.frompyfunc(one, len(args), 1)(*args)
        if name in BOOLS:
            return np.frompyfunc(bool, 1, 1)(r).astype(bool)
        return wrap(r)


def _box(a):
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray)
    o = np.empty((), dtype=object)
    o[()] = a
    return o


class TypeProxyMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real) and not issym(x)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "real", c) if isinstance(c, TypeProxyMeta) else c, cls.real)

    def __call__(cls, *a, **k):
        if a and issym(a[0]):
            return syms.to_int(a[0]) if "int" in cls.__name__ else syms.to_real(a[0])
        if a and isinstance(a[0], np.ndarray):
            return wrap(np.asarray(a[0]))
        return wrap(cls.real(*a, **k))

    def __eq__(cls, o):
        return cls is o or cls.real is o

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, n):
        return getattr(cls.real, n)


def type_proxy(real):
    return TypeProxyMeta(real.__name__, (), {"real": real})


def _hasobj(x):
    return issym(x) or (isinstance(x, np.ndarray) and x.dtype == object) or \
        (isinstance(x, (list, tuple)) and any(_hasobj(y) for y in x))


class NumpyShim(types.ModuleType):
    def __init__(self, world):
        super().__init__("numpy")
        self._world = world
        for t in ("float64", "float32", "float16", "double", "longdouble", "int64", "int32", "int16", "int8", "uint8",
                  "floating", "integer"):
            setattr(self, t, type_proxy(getattr(np, t)))
        self.ndarray = np.ndarray
        self.float = self.float64
        self.int = self.int64

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        real = getattr(np, n)
        if isinstance(real, np.ufunc):
            r = Ufunc(real)
        elif isinstance(real, type) or not callable(real):
            r = real
        else:
            def r(*a, **k):
                if "dtype" in k:
                    k["dtype"] = object if _hasobj(a) else getattr(k["dtype"], "real", k["dtype"])
                a = [mk(x, False) if (isinstance(x, (list, tuple)) and _hasobj(x)) else
                     (_box(x) if issym(x) else x) for x in a]
                a = [x.view(np.ndarray) if isinstance(x, SymArr) else x for x in a]
                return wrap(real(*a, **k))
        setattr(self, n, r)
        return r

    # ---- construction
    def array(self, x, dtype=None, copy=True, **k):
        r = mk(x, True)
        return self._cast(r, dtype)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and dtype is None:
            return x if x.dtype.kind != "f" else wrap(x)
        return self._cast(mk(x, False), dtype)
    asanyarray = asarray
    ascontiguousarray = asarray

    def _cast(self, r, dtype):
        if dtype is None or dtype is object:
            return r.astype(object).view(SymArr) if dtype is object and isinstance(r, np.ndarray) else r
        name = getattr(dtype, "__name__", str(dtype))
        if "float" in name or name in ("d", "f", "double"):
            if r.dtype.kind in "US":
                from .world import conv_float
                r = np.frompyfunc(lambda x: conv_float(str(x)), 1, 1)(r.astype(object)).view(SymArr)
                return r
            if r.dtype != object:
                r = r.astype(float).astype(object).view(SymArr)
            return r.view(SymArr).astype(np.float64)
        if "int" in name and r.dtype == object:
            return r.view(SymArr).astype(np.int64)
        if r.dtype == object:
            return r
        return r.astype(getattr(dtype, "real", dtype))

    def _fill(self, shape, v, dtype):
        name = getattr(dtype, "__name__", str(dtype))
        if dtype is not None and ("int" in name or "bool" in name or "str" in name):
            a = np.empty(shape, dtype=object)
            a[...] = int(v) if not issym(v) and "int" in name else v
            if "bool" in name:
                return a.astype(bool)
            return a.view(SymArr)
        a = np.empty(shape, dtype=object)
        if isinstance(v, np.ndarray):
            a[...] = v
        else:
            for i in np.ndindex(a.shape):
                a[i] = v
        return a.view(SymArr)

    def zeros(self, shape, dtype=None, **k): return self._fill(shape, 0.0, dtype)
    def ones(self, shape, dtype=None, **k): return self._fill(shape, 1.0, dtype)
    def empty(self, shape, dtype=None, **k): return self._fill(shape, 0.0, dtype)
    def full(self, shape, v, dtype=None, **k): return self._fill(shape, v, dtype)
    def zeros_like(self, a, dtype=None, **k): return self._fill(np.shape(a), 0 if _intarr(a) else 0.0, dtype)
    def ones_like(self, a, dtype=None, **k): return self._fill(np.shape(a), 1 if _intarr(a) else 1.0, dtype)
    def empty_like(self, a, dtype=None, **k): return self._fill(np.shape(a), 0.0, dtype)
    def full_like(self, a, v, dtype=None, **k): return self._fill(np.shape(a), v, dtype)

    # ---- functions
    def abs(self, x): return Ufunc(np.absolute)(x)

    def ndim(self, x): return 0 if issym(x) else np.ndim(x)
    def shape(self, x): return () if issym(x) else np.shape(x)
    def size(self, x, *a): return 1 if issym(x) else np.size(x, *a)
    def isscalar(self, x): return True if issym(x) else np.isscalar(x)

    def nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
        big = np.finfo(np.float64).max

        def one(v):
            if issym(v):
                return v
            if v != v:
                return nan
            if v == math.inf:
                return float(big) if posinf is None else posinf
            if v == -math.inf:
                return float(-big) if neginf is None else neginf
            return v
        if isinstance(x, (list, tuple)):
            x = mk(x)
        if isinstance(x, np.ndarray):
            return wrap(np.frompyfunc(one, 1, 1)(x))
        return one(x)

    def clip(self, x, lo, hi, **k):
        def one(v):
            if lo is not None and bool(v < lo):
                return lo
            if hi is not None and bool(v > hi):
                return hi
            return v
        if isinstance(x, (list, tuple)):
            x = mk(x)
        if isinstance(x, np.ndarray):
            return wrap(np.frompyfunc(one, 1, 1)(x))
        return one(x)

    def dot(self, a, b):
        a = mk(a, False) if isinstance(a, (list, tuple)) else a
        b = mk(b, False) if isinstance(b, (list, tuple)) else b
        if issym(a) or issym(b):
            return a * b
        return wrap(np.dot(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray)))

    def where(self, c, *ab):
        if not ab:
            return np.where(c)
        a, b = ab
        if type(c) is SymBool:
            return a if bool(c) else b
        a = mk(a, False) if isinstance(a, (list, tuple)) else a
        b = mk(b, False) if isinstance(b, (list, tuple)) else b
        c = np.frompyfunc(bool, 1, 1)(c).astype(bool) if isinstance(c, np.ndarray) and c.dtype == object else c
        return wrap(np.frompyfunc(lambda q, x, y: x if q else y, 3, 1)(c, _box(a), _box(b)))

    def any(self, x, *a, **k):
        x = mk(x, False)
        return x.view(SymArr).any(*a, **k) if x.dtype == object else np.any(x, *a, **k)

    def all(self, x, *a, **k):
        x = mk(x, False)
        return x.view(SymArr).all(*a, **k) if x.dtype == object else np.all(x, *a, **k)

    def _red(name):
        def f(self, x, *a, **k):
            if issym(x):
                return x
            k.pop("dtype", None)
            x = mk(x, False) if isinstance(x, (list, tuple)) else x
            if isinstance(x, SymArr):
                x = x.view(np.ndarray)
            return wrap(getattr(np, name)(x, *a, **k))
        return f
    sum = _red("sum")
    max = _red("max")
    amax = _red("max")
    min = _red("min")
    amin = _red("min")
    mean = _red("mean")
    prod = _red("prod")
    argmax = _red("argmax")
    argmin = _red("argmin")
    sort = _red("sort")
    argsort = _red("argsort")
    cumsum = _red("cumsum")
    unique = _red("unique")

    def var(self, x, *a, **k):
        x = mk(x, False)
        m = self.mean(x)
        return self.mean((x - m) * (x - m))

    def std(self, x, *a, **k):
        v = self.var(x)
        return v.sqrt() if issym(v) else math.sqrt(v)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        a, b = mk(a, False), mk(b, False)
        d = self.abs(a - b)
        t = self.abs(b) * rtol + atol
        return b_and(*[x <= y for x, y in zip(np.ravel(d), np.ravel(t))]) if isinstance(d, np.ndarray) else d <= t

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        d = self.abs(a - b)
        return d <= self.abs(b) * rtol + atol

    def finfo(self, t):
        return np.finfo(getattr(t, "real", t))

    @property
    def linalg(self):
        return Linalg(self)


def _intarr(a):
    return isinstance(a, np.ndarray) and a.dtype.kind == "i"


class Linalg:
    def __init__(self, shim):
        self.shim = shim

    def norm(self, x, ord=None, **k):
        x = mk(x, False).ravel()
        if ord in (None, 2, 2.0):
            s = 0
            for v in x:
                s = s + v * v
            return s.sqrt() if issym(s) else math.sqrt(s)
        if ord in (math.inf,):
            return self.shim.max(self.shim.abs(x))
        if ord == 1:
            s = 0
            for v in x:
                s = s + abs(v)
            return s
        s = 0
        for v in x:
            s = s + abs(v) ** ord
        return _root(s, ord)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


def _root(s, p):
    """the p-th root of a non-negative number"""
    import z3
    if not issym(s):
        return s ** (1.0 / p)
    if int(p) != p:
        raise Unsupported("fractional norm order")
    C = ctx()
    r = z3.Real(C.fresh_name("root"))
    x = SymNum.atom(r)
    y = x ** int(p)
    C.add(z3.And(r >= 0, y.rterm() == s.rterm()))
    return x


class MathShim(types.ModuleType):
    def __init__(self, world):
        super().__init__("math")
        self._world = world

    def __getattr__(self, n):
        return getattr(math, n)

    def _one(name, f):
        def g(self, x):
            if issym(x):
                return f(x)
            return getattr(math, name)(x)
        return g
    exp = _one("exp", lambda x: x.exp())
    sqrt = _one("sqrt", lambda x: _sqrt(x))
    fabs = _one("fabs", lambda x: syms.to_real(abs(x)))
    tanh = _one("tanh", lambda x: x.tanh())
    cosh = _one("cosh", lambda x: x.cosh())
    log1p = _one("log1p", lambda x: x.log1p())
    expm1 = _one("expm1", lambda x: x.expm1())
    floor = _one("floor", syms.floor)
    ceil = _one("ceil", syms.ceil)
    trunc = _one("trunc", syms.to_int)
    isnan = _one("isnan", lambda x: False)
    isinf = _one("isinf", lambda x: False)
    isfinite = _one("isfinite", lambda x: True)

    def log(self, x, base=None):
        if issym(x):
            if not bool(x > 0):
                raise ValueError("math domain error")
            r = syms.t_log(x)
            return r if base is None else r / math.log(base)
        return math.log(x) if base is None else math.log(x, base)

    def log2(self, x):
        return self.log(x, 2) if issym(x) else math.log2(x)

    def pow(self, a, b):
        return syms.to_real(a ** b) if issym(a) or issym(b) else math.pow(a, b)

    def gcd(self, *xs):
        return math.gcd(*[int(x.__index__()) if issym(x) else x for x in xs])

    def frexp(self, x):
        if issym(x):
            h = self._world.hooks.get("math.frexp")
            if h is None:
                raise Unsupported("frexp of a symbolic value")
            return h(x)
        return math.frexp(x)

    def fsum(self, xs):
        s = 0.0
        for x in xs:
            s = s + x
        return s

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if not (issym(a) or issym(b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return b_or(d <= abs(a) * rel_tol, d <= abs(b) * rel_tol, d <= abs_tol)


def _sqrt(x):
    if bool(x < 0):
        raise ValueError("math domain error")
    return x.sqrt()
