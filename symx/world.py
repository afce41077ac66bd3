"""Loads the modules of /repo into a fresh name space: every path runs on freshly executed module code.

The symbolic world replaces `float`, `int`, `type`, numpy, math, random, gmpy2, protobuf ... by stand-ins that
carry symbolic values; the concrete world runs the same code on the real libraries (with stand-ins only for packages
that are not installed here)."""
import ast
import builtins
import copy
import math
import os
import re
import sys
import types
import functools
import numpy as np
from . import engine, syms
from .syms import SymNum, SymBool, SymInt, SymReal
from .engine import Unsupported, ctx
from .npshim import NumpyShim, MathShim, SymArr, issym, wrap, mk, _root

REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = {}


class FmtTransform(ast.NodeTransformer):
    """"text" % args  ->  __fmt__("text", args): formatting happens in C and would need concrete numbers."""
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id="__fmt__", ctx=ast.Load()),
                                              args=[node.left, node.right], keywords=[]), node)
        return node


    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, bytes) and len(node.args) == 1:
            return ast.copy_location(ast.Call(func=ast.Name(id="__bjoin__", ctx=ast.Load()),
                                              args=[f.value, node.args[0]], keywords=[]), node)
        if isinstance(f, ast.Name) and f.id in ("float", "int") and len(node.args) == 1 and not node.keywords:
            f.id = "__%s1__" % f.id
        return node


def code_for(path):
    if path not in CODE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(FmtTransform().visit(tree))
            CODE[path] = compile(tree, path, "exec")
    return CODE[path]


def repo_tops():
    tops = set()
    for n in os.listdir(REPO):
        if n.startswith("."):
            continue
        p = os.path.join(REPO, n)
        if n.endswith(".py"):
            tops.add(n[:-3])
        elif os.path.isdir(p):
            tops.add(n)
    return tops


TOPS = None


# ------------------------------------------------------------------------------------------- builtins
class NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(unproxy(c), cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, n):
        if n == "from_bytes":
            from . import net
            return net.from_bytes
        return getattr(cls.real, n)

    def __repr__(cls):
        return repr(cls.real)

    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)


def unproxy(c):
    return c.real if isinstance(c, NumMeta) else c


def one_elem(x):
    return isinstance(x, np.ndarray) and x.size == 1


def conv_float(*a):
    if len(a) == 1:
        x = a[0]
        if one_elem(x):
            x = x.item()
        if issym(x):
            return syms.to_real(x)
        if builtins.type(x) is str and ctx() is not None:
            v = ctx().hooks.get("floatstr", {}).get(x.strip())
            if v is not None:
                return v
        return float(x)
    return float(*a)


def conv_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        f = getattr(builtins.type(x), "__symint__", None)
        if f is not None:
            return f(x)
        if one_elem(x):
            x = x.item()
        if issym(x):
            return syms.to_int(x)
        return int(x)
    return int(*a, **k)


class float_proxy(metaclass=NumMeta):
    real = float
    conv = staticmethod(conv_float)


class int_proxy(metaclass=NumMeta):
    real = int
    conv = staticmethod(conv_int)


float_proxy.__name__ = "float"
int_proxy.__name__ = "int"
float_proxy.__qualname__ = "float"
int_proxy.__qualname__ = "int"


class TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            t = builtins.type(x)
            if t is float or issubclass(t, SymReal) or getattr(t, "__symtype__", None) is float:
                return float_proxy
            if t is int or issubclass(t, SymInt) or hasattr(t, "__symtype__"):
                return int_proxy
            if t is SymBool:
                return bool
            if t is SymArr:
                return np.ndarray
            if issubclass(t, type):
                return type if t in (NumMeta, TypeMeta) else t
            return t
        return builtins.type(*a, **k)

    def __getattr__(cls, n):
        return getattr(type, n)


class type_proxy(metaclass=TypeMeta):
    pass


def sym_fmt(f, args):
    if type(args) is tuple:
        vals = args
    else:
        vals = (args,)
    if any(_deep_sym(v) for v in vals):
        hook = ctx().hooks.get("format") if ctx() is not None and len(vals) == 1 else None
        m = re.match(r"%(-?)(0?)(\d*)[dsi]$", f) if hook and isinstance(f, str) else None
        if m:
            return hook(vals[0], (("<" if m[1] else ">" + m[2]) + m[3]) if m[3] else "")
        return f
    return f % args


def _deep_sym(v, d=0):
    if issym(v):
        return True
    if d < 3:
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(_deep_sym(x, d + 1) for x in v)
        if isinstance(v, dict):
            return any(_deep_sym(x, d + 1) for x in v.values())
        if isinstance(v, np.ndarray) and v.dtype == object:
            return True
    return False


def bjoin(sep, items):
    items = list(items)
    if all(isinstance(x, (bytes, bytearray)) for x in items):
        return sep.join(items)
    r = b""
    for i, x in enumerate(items):
        r = r + x if i == 0 or not sep else r + sep + x
    return r


def sym_len(x):
    t = builtins.type(x)
    f = getattr(t, "__symlen__", None)
    return f(x) if f is not None else len(x)


def real_fmt(f, args):
    return f % args


# ------------------------------------------------------------------------------------------- random
class RandomShim(types.ModuleType):
    """random / numpy.random with hooks supplied by the harness (hook names: "random.shuffle", "np.choice" ...)."""
    def __init__(self, world, name, real, prefix):
        super().__init__(name)
        self._w = world
        self._real = real
        self._p = prefix

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        h = self._w.hooks.get(self._p + n)
        if h is not None:
            return h
        if n == "SystemRandom":
            return lambda *a: SysRandom(self._w, self._p)
        real = getattr(self._real, n, None)
        if real is None:
            raise AttributeError(n)
        if self._w.symbolic and callable(real) and n not in ("seed", "getstate", "setstate"):
            def undefined(*a, **k):
                raise Unsupported("no model for %s%s" % (self._p, n))
            return undefined
        return real


class SysRandom:
    def __init__(self, w, p):
        self.w = w
        self.p = p

    def __getattr__(self, n):
        h = self.w.hooks.get(self.p + n)
        if h is not None:
            return h
        if self.w.symbolic:
            raise Unsupported("no model for SystemRandom.%s" % n)
        import random
        return getattr(random.SystemRandom(), n)


# ------------------------------------------------------------------------------------------- absent packages
def gmpy2_shim(world):
    m = types.ModuleType("gmpy2")

    def powmod(a, b, c):
        h = world.hooks.get("gmpy2.powmod")
        if h:
            return h(a, b, c)
        if issym(a) or issym(b) or issym(c):
            return syms.powmod(a, b, c)
        return pow(a, b, c)

    def invert(a, b):
        h = world.hooks.get("gmpy2.invert")
        if h:
            return h(a, b)
        if issym(a) or issym(b):
            a = a.__index__() if issym(a) else a
            b = b.__index__() if issym(b) else b
        try:
            return pow(a, -1, b)
        except ValueError:
            raise ZeroDivisionError("invert() no inverse exists")

    def next_prime(x):
        h = world.hooks.get("gmpy2.next_prime")
        if h:
            return h(x)
        import sympy
        return sympy.nextprime(x)

    def isqrt(n):
        if issym(n):
            n = n.__index__()
        return math.isqrt(n)
    m.powmod, m.invert, m.next_prime, m.isqrt = powmod, invert, next_prime, isqrt
    m.mpz = lambda x=0: x
    m.bit_set = lambda x, n: x | (1 << n)
    m.gcd = lambda a, b: math.gcd(a if not issym(a) else a.__index__(), b if not issym(b) else b.__index__())
    m.lcm = lambda a, b: math.lcm(a, b)
    m.is_prime = lambda x: __import__("sympy").isprime(x)
    m.mul = lambda a, b: a * b
    m.f_mod = lambda a, b: a % b
    m.c_mod = lambda a, b: a % b
    m.mpz_random = None
    return m


def numba_shim():
    m = types.ModuleType("numba")

    def jit(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f
    m.jit = m.njit = m.vectorize = jit
    m.prange = range
    return m


# ------------------------------------------------------------------------------------------- protobuf stand-in
class PbField:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.message_type = k.get("message_type")


class PbDesc:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.fields_by_name = {f.name: f for f in k.get("fields", ())}
        self.containing_type = None
        self.nested_types_by_name = {n.name: n for n in k.get("nested_types", ())}
        for n in k.get("nested_types", ()):
            n.containing_type = self

    def __hash__(self):
        return id(self)


_INT32 = (-2 ** 31, 2 ** 31 - 1)


def pb_check(f, v):
    t = f.type
    if t in (1, 2):
        if issym(v):
            return syms.to_real(v)
        if isinstance(v, (int, float, np.number)):
            return float(v)
        raise TypeError("%r has type %s, but expected one of: int, float" % (v, type(v).__name__))
    if t in (3, 4, 5, 13, 17, 18):
        if issym(v) and v.__class__ is int:
            return v
        if isinstance(v, (int, np.integer)) and not issym(v):
            if t == 5 and not _INT32[0] <= v <= _INT32[1]:
                raise ValueError("Value out of range: %d" % v)
            return int(v)
        raise TypeError("%r has type %s, but expected one of: int" % (v, type(v).__name__))
    if t == 8:
        if type(v) is SymBool:
            return v
        if isinstance(v, (bool, int)):
            return bool(v)
        raise TypeError("%r has type %s, but expected one of: bool, int" % (v, type(v).__name__))
    if t == 9:
        if isinstance(v, bytes):
            return v.decode()
        if isinstance(v, str):
            return v
        raise TypeError("%r has type %s, but expected one of: bytes, str" % (v, type(v).__name__))
    raise Unsupported("protobuf field type %s" % t)


class RepeatedScalarContainer(list):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def append(self, v):
        super().append(pb_check(self.f, v))

    def extend(self, vs):
        vs = list(vs) if vs is not None else []
        super().extend([pb_check(self.f, v) for v in vs])

    def insert(self, i, v):
        super().insert(i, pb_check(self.f, v))

    def __setitem__(self, i, v):
        super().__setitem__(i, pb_check(self.f, v))

    def __deepcopy__(self, memo):
        r = RepeatedScalarContainer(self.f)
        list.extend(r, self)
        return r


class RepeatedCompositeContainer(list):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def add(self, **k):
        m = self.cls(**k)
        list.append(self, m)
        return m

    def append(self, m):
        if not isinstance(m, self.cls):
            raise TypeError("Parameter to append() must be instance of same class")
        list.append(self, copy.deepcopy(m))

    def extend(self, ms):
        for m in ms:
            self.append(m)

    def __setitem__(self, i, v):
        raise TypeError("object does not support item assignment")

    def __deepcopy__(self, memo):
        r = RepeatedCompositeContainer(self.cls)
        for m in self:
            list.append(r, copy.deepcopy(m, memo))
        return r


class PbMap(dict):
    def __init__(self, desc):
        super().__init__()
        self.kf = desc.fields_by_name["key"]
        self.vf = desc.fields_by_name["value"]

    def __setitem__(self, k, v):
        super().__setitem__(pb_check(self.kf, k), pb_check(self.vf, v))

    def update(self, o):
        for k in o:
            self[k] = o[k]

    def __getitem__(self, k):
        if k not in self:
            dict.__setitem__(self, k, {9: "", 8: False}.get(self.vf.type, 0.0 if self.vf.type in (1, 2) else 0))
        return dict.__getitem__(self, k)

    def __deepcopy__(self, memo):
        r = PbMap.__new__(PbMap)
        dict.__init__(r)
        r.kf, r.vf = self.kf, self.vf
        dict.update(r, self)
        return r


class PbMessage:
    DESCRIPTOR = None

    def __init__(self, **k):
        d = self.__dict__
        d["_v"] = {}
        for n, v in k.items():
            if n not in self.DESCRIPTOR.fields_by_name:
                raise ValueError("Protocol message %s has no \"%s\" field." % (self.DESCRIPTOR.name, n))
            if v is None:
                continue
            f = self.DESCRIPTOR.fields_by_name[n]
            if f.label == 3:
                if pb_ismap(f):
                    getattr(self, n).update(v)
                else:
                    getattr(self, n).extend(v)
            elif f.type == 11:
                getattr(self, n).CopyFrom(v)
            else:
                setattr(self, n, v)

    def __getattr__(self, n):
        f = type(self).DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            raise AttributeError(n)
        v = self._v
        if n not in v:
            if f.label == 3:
                if pb_ismap(f):
                    v[n] = PbMap(f.message_type)
                elif f.type == 11:
                    v[n] = RepeatedCompositeContainer(f.message_type._cls)
                else:
                    v[n] = RepeatedScalarContainer(f)
            elif f.type == 11:
                v[n] = f.message_type._cls()
            else:
                return {9: "", 8: False}.get(f.type, 0.0 if f.type in (1, 2) else 0)
        return v[n]

    def __setattr__(self, n, val):
        f = type(self).DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            raise AttributeError("Assignment not allowed (no field \"%s\" in protocol message object)." % n)
        if f.label == 3 or f.type == 11:
            raise AttributeError("Assignment not allowed to repeated/composite field \"%s\"" % n)
        self._v[n] = pb_check(f, val)

    def CopyFrom(self, o):
        if type(o) is not type(self):
            raise TypeError("Parameter to CopyFrom() must be instance of same class")
        self.__dict__["_v"] = copy.deepcopy(o._v)

    def MergeFrom(self, o):
        self.CopyFrom(o)

    def SerializeToString(self):
        return copy.deepcopy(self)

    def ParseFromString(self, o):
        self.CopyFrom(o)

    def HasField(self, n):
        return n in self._v

    def __deepcopy__(self, memo):
        r = type(self)()
        r.__dict__["_v"] = copy.deepcopy(self._v, memo)
        return r

    def __repr__(self):
        return "<%s>" % self.DESCRIPTOR.name
    __str__ = __repr__


def pb_ismap(f):
    return f.label == 3 and f.type == 11 and f.message_type.name == _camel(f.name) + "Entry"


def _camel(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))


def protobuf_shim():
    google = types.ModuleType("google")
    pb = types.ModuleType("google.protobuf")
    google.protobuf = pb
    mods = {"google": google, "google.protobuf": pb}

    def sub(n):
        m = types.ModuleType("google.protobuf." + n)
        setattr(pb, n, m)
        mods["google.protobuf." + n] = m
        return m
    d = sub("descriptor")

    class FileDescriptor:
        def __init__(self, **k):
            self.__dict__.update(k)
            self.message_types_by_name = {}
    d.FileDescriptor = FileDescriptor
    d.FieldDescriptor = PbField
    d.Descriptor = PbDesc
    d._internal_create_key = None
    d.MakeDescriptor = None
    message = sub("message")
    message.Message = PbMessage
    refl = sub("reflection")

    def gen(name, bases, ns):
        ns = dict(ns)
        ns.pop("__module__", None)
        cls = type(name, (PbMessage,), {k: v for k, v in ns.items()})
        cls.DESCRIPTOR._cls = cls
        return cls
    refl.GeneratedProtocolMessageType = gen
    sdb = sub("symbol_database")

    class DB:
        def RegisterFileDescriptor(self, x): pass
        def RegisterMessage(self, x): return x
    sdb.Default = lambda: DB()
    desc_pb2 = sub("descriptor_pb2")

    class Any_:
        def __getattr__(self, n):
            return lambda *a, **k: None
    for n in ("MessageOptions", "FieldOptions", "FileOptions"):
        setattr(desc_pb2, n, Any_)
    return mods


# ------------------------------------------------------------------------------------------- numpy, concrete world
class NumpyCompat(types.ModuleType):
    """Real numpy; only what numpy 1.21 (the pinned version) accepted and numpy 2 refuses is put back:
    ragged np.array, np.float / np.int."""
    def __init__(self, world):
        super().__init__("numpy")
        self.float = float
        self.int = int
        self.bool = bool
        self.object = object

    def __getattr__(self, n):
        return getattr(np, n)

    def array(self, x, *a, **k):
        try:
            return np.array(x, *a, **k)
        except ValueError:
            if isinstance(x, (list, tuple)) and not a and not k and any(hasattr(y, "__len__") for y in x):
                out = np.empty(len(x), dtype=object)
                for i, v in enumerate(x):
                    out[i] = v
                return out
            raise

    def asarray(self, x, *a, **k):
        if isinstance(x, np.ndarray):
            return np.asarray(x, *a, **k)
        return self.array(x, *a, **k)


def cconv_float(*a):
    if len(a) == 1 and one_elem(a[0]):
        return float(a[0].item())
    return float(*a)


def cconv_int(*a, **k):
    if len(a) == 1 and one_elem(a[0]):
        return int(a[0].item(), **k)
    return int(*a, **k)


class QuietLogger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class World:
    def __init__(self, symbolic=True, hooks=None, extra=None, builtin_extra=None):
        global TOPS
        if TOPS is None:
            TOPS = repo_tops()
        self.symbolic = symbolic
        self.hooks = hooks if hooks is not None else {}
        self.mods = {}
        self.extra = dict(extra or {})
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["__fmt__"] = sym_fmt if symbolic else real_fmt
        b["print"] = lambda *a, **k: self.hooks["print"](*a, **k) if "print" in self.hooks else None
        b["__bjoin__"] = bjoin
        b["__float1__"] = float_proxy if symbolic else cconv_float
        b["__int1__"] = int_proxy if symbolic else cconv_int
        if symbolic:
            b["len"] = sym_len
            b["float"] = float_proxy
            b["int"] = int_proxy
            b["type"] = type_proxy
        b.update(builtin_extra or {})
        self.builtins = b
        s = self.shims = {}
        s["gmpy2"] = gmpy2_shim(self)
        s["numba"] = numba_shim()
        import random
        s["random"] = RandomShim(self, "random", random, "random.")
        npr = RandomShim(self, "numpy.random", np.random, "np.")
        if symbolic:
            s["numpy"] = NumpyShim(self)
            s["math"] = MathShim(self)
            s.update(protobuf_shim())
        else:
            s["numpy"] = NumpyCompat(self)
        s["numpy"].random = npr
        s["numpy.random"] = npr
        mt = types.ModuleType("numpy.random.mtrand")
        mt.rand = lambda *a: npr.rand(*a)
        npr.mtrand = mt
        s["numpy.random.mtrand"] = mt
        s.update(self.extra)

    # ---- loading
    def __getitem__(self, name):
        return self.load(name)

    def get(self, name, attr):
        return getattr(self.load(name), attr)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        base = os.path.join(REPO, *name.split("."))
        path = None
        pkg = False
        if os.path.isfile(base + ".py"):
            path = base + ".py"
        elif os.path.isdir(base):
            pkg = True
            if os.path.isfile(os.path.join(base, "__init__.py")):
                path = os.path.join(base, "__init__.py")
        else:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [base]
        self.mods[name] = m
        if path:
            try:
                exec(code_for(path), m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if name == "ml.utils.logger" and hasattr(m, "MyLoggerFactory"):
            self._quiet(m)
        if parent:
            setattr(pm, leaf, m)
        return m

    def _quiet(self, m):
        q = QuietLogger()
        f = m.MyLoggerFactory
        f.build = classmethod(lambda cls, *a, **k: q)
        f.get_logger = classmethod(lambda cls, *a, **k: q)
        f.logger = q

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if name in self.shims or top in self.shims:
            if name in self.shims:
                m = self.shims[name]
            else:
                m = self.shims[top]
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            if fromlist:
                return m
            return self.shims[top]
        if top in TOPS:
            m = self.load(name)
            if not fromlist:
                return self.load(top)
            for a in fromlist:
                if a != "*" and not hasattr(m, a):
                    try:
                        self.load(name + "." + a)
                    except ModuleNotFoundError:
                        pass
            return m
        return builtins.__import__(name, None, None, fromlist, 0)


def add_venv():
    """protobuf and pycryptodomex live in the repository's own environment."""
    p = "/opt/venv/lib/python3.12/site-packages"
    if p not in sys.path and os.path.isdir(p):
        sys.path.append(p)


add_venv()
