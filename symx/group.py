"""Ciphertexts of the Paillier group Z*_{n^2} as pairs (plaintext a modulo n, n-th residue): an element is (1 + n*a) * rho,
where rho is a product of n-th powers of known obfuscators.

Facts used about the modular primitives (and nothing about the code under test):
  (1+n*a)(1+n*b) = 1 + n*(a+b)  mod n^2,   ((1+n*a) rho)^k = (1 + n*k*a) rho^k,
  rho^(p-1) = 1 mod p^2 for an n-th residue rho and a prime p | n (Euler)."""
from math import isqrt
import z3
from . import engine, syms
from .engine import Unsupported, ctx
from .syms import SymInt, SymNum, ONE, isinstance_real, lift


class Keys:
    """registered moduli (concrete)"""
    def __init__(self):
        self.byn = {}            # nsquare -> (n, p, q)
        self.subs = {}           # square of a prime -> nsquare
        self.draws = {}          # atom term id -> name of an obfuscator drawn

        self.consts = {}         # (nsquare, residue) -> obfuscator: n-th powers of known small numbers

    def register(self, p, q):
        n = p * q
        self.byn[n * n] = (n, p, q)
        self.subs[p * p] = self.subs[q * q] = n * n
        for r in (2, 3, 5, 7):
            self.consts[(n * n, pow(r, n, n * n))] = r


def install(h):
    k = Keys()
    h.hooks["group"] = k
    h.hooks["gmpy2.powmod"] = powmod
    h.hooks["gmpy2.invert"] = invert
    h.hooks["powmod"] = powmod
    return k


def keys():
    return ctx().hooks.get("group")


def plain(a):
    """1 + n*a recognised from an integer polynomial modulo nsq: coefficients are multiples of n except the constant 1"""


def recognise(x, nsq):
    """int or SymInt congruent to 1 modulo n -> GInt, else None"""
    K = keys()
    if K is None or nsq not in K.byn:
        return None
    n = K.byn[nsq][0]
    if type(x) is GInt:
        return x if x.nsq == nsq else None
    if type(x) is int:
        if (nsq, x) in K.consts:
            return GInt(nsq, 0, {"const%d" % K.consts[(nsq, x)]: 1})
        return GInt(nsq, (x - 1) // n, {}) if (x - 1) % n == 0 else None
    if isinstance_real(x, SymInt):
        d = {}
        for m, c in x.n.items():
            c = int(c) - (1 if m == ONE else 0)
            if c % n:
                return None
            if c:
                d[m] = c // n
        if ONE not in x.n:
            return None
        return GInt(nsq, syms.out(d, None, True), {})
    return None


def reduce_sub(x, m):
    """x % m for the square m of a registered prime, when x is a recognised element (else None)"""
    g = recognise(x, keys().subs[m])
    return None if g is None else GRed(g, m)


class GInt(SymInt):
    """an element of the group, as the integer in [1, nsq) (or an unreduced product)"""
    __slots__ = ("nsq", "a", "rho", "_n", "red")

    def __init__(self, nsq, a, rho, red=True):
        self.nsq = nsq
        self.a = a
        self.rho = {k: v for k, v in rho.items() if not (type(v) is int and v == 0)}
        self._n = None
        self.d = None
        self._t = None
        self.red = red

    @property
    def n(self):
        if self._n is None:
            C = ctx()
            if not self.red:
                raise Unsupported("an unreduced product of ciphertexts used as a number")
            n = keys().byn[self.nsq][0]
            if not self.rho:
                r = self.a % n
                x = 1 + n * r
                self._n = x.n if isinstance_real(x, SymNum) else syms.p_const(x)
            else:
                v = z3.Int(C.fresh_name("cipher"))
                C.add(z3.And(v >= 1, v < self.nsq))
                self._n = {(C.atom(v, True),): 1}
        return self._n

    @n.setter
    def n(self, v):
        self._n = v

    def mul(self, o):
        g = recognise(o, self.nsq)
        if g is None:
            if isinstance_real(o, SymInt) or type(o) is int:
                return SymInt(self.n) * o
            return NotImplemented
        rho = dict(self.rho)
        for k, v in g.rho.items():
            rho[k] = rho.get(k, 0) + v
        return GInt(self.nsq, self.a + g.a, rho, red=False)

    __mul__ = __rmul__ = mul

    def _cmp(self, o, op):
        # an obfuscated ciphertext is a generic residue: below nsq, above everything smaller (the small keys cover all residues)
        if self.rho and type(o) is int and op in ("<", "<=", ">", ">="):
            return (o >= self.nsq) == (op in ("<", "<="))
        return SymInt._cmp(self, o, op)

    def __mod__(self, m):
        if m == self.nsq:
            return GInt(self.nsq, self.a, self.rho)
        if type(m) is int and m > 1:
            n, p, q = keys().byn[self.nsq]
            if m in (p * p, q * q):
                return GRed(self, m)
            if n % m == 0 and not self.rho:
                return 1
        if not self.red:
            return self % self.nsq % m
        return SymInt(self.n) % m

    def __eq__(self, o):
        if type(o) is int and o == 1:
            return False if self.rho else SymInt.__eq__(self, o)
        if type(o) is GInt and o.nsq == self.nsq and o.rho == self.rho:
            n = keys().byn[self.nsq][0]
            return (self.a - o.a) % n == 0
        if type(o) is GInt:
            return False
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        return syms.b_not(self.__eq__(o))

    __hash__ = SymNum.__hash__

    def __pow__(self, e, m=None):
        if m is None:
            raise Unsupported("power of a ciphertext without a modulus")
        return powmod(self, e, m)

    def __repr__(self):
        return "<cipher>"


class GRed(GInt):
    """a group element reduced modulo the square of one of the primes"""
    __slots__ = ("of", "mod")

    def __init__(self, of, mod):
        GInt.__init__(self, of.nsq, of.a, of.rho)
        self.of = of
        self.mod = mod

    @property
    def n(self):
        if self._n is None:
            C = ctx()
            v = z3.Int(C.fresh_name("reduced"))
            C.add(z3.And(v >= 1, v < self.mod))
            self._n = {(C.atom(v, True),): 1}
        return self._n

    @n.setter
    def n(self, v):
        self._n = v

    def mul(self, o):
        return SymInt(self.n) * o

    __mul__ = __rmul__ = mul

    def _cmp(self, o, op):
        if self.rho and type(o) is int and op in ("<", "<=", ">", ">="):
            return (o >= self.mod) == (op in ("<", "<="))
        return SymInt._cmp(self, o, op)

    def __mod__(self, m):
        return self if m == self.mod else SymInt(self.n) % m

    def __eq__(self, o):
        if type(o) is GRed and o.mod == self.mod and o.of is self.of:
            return True
        if type(o) is int and o == 1:
            # (1 + n*a) mod p^2 is 1 exactly when p divides a
            return False if self.rho else self.a % isqrt(self.mod) == 0
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        return syms.b_not(self.__eq__(o))

    __hash__ = SymNum.__hash__


def powmod(a, b, c):
    K = keys()
    C = ctx()
    if type(a) is GRed:
        if c != a.mod:
            raise Unsupported("power of a reduced ciphertext modulo another number")
        a = GInt(a.nsq, a.a, a.rho)
    if type(a) is GInt and not a.red:
        a = a % a.nsq
    if type(a) is not GInt and K is not None and c in K.byn:
        g = recognise(a, c)
        if g is not None and (isinstance_real(a, SymNum) or isinstance_real(b, SymNum)):
            a = g
        elif isinstance_real(a, SymInt) and type(b) is int:
            n, p, q = K.byn[c]
            nm = draw_name(a)
            if nm is not None and b % n == 0:
                return GInt(c, 0, {nm: b // n})
    if type(a) is GInt:
        if c == a.nsq:
            return GInt(c, a.a * b, {k: v * b for k, v in a.rho.items()})
        n, p, q = K.byn[a.nsq]
        for pr in (p, q):
            if c == pr * pr and type(b) is int and (b % (pr - 1) == 0 or not a.rho):
                # (1 + n*a*b) mod p^2 with an unconstrained quotient (its range never matters to the caller's L function)
                x = a.a * (n * b % c) + 1
                if not isinstance_real(x, SymNum):
                    return x % c
                k = z3.Int(C.fresh_name("k"))
                return x - SymNum.atom(k) * c
        raise Unsupported("power of a ciphertext modulo another number")
    if not any(isinstance_real(x, SymNum) for x in (a, b, c)):
        return pow(a, b, c)
    return small_powmod(a, b, c)


def small_powmod(a, b, c):
    if isinstance_real(b, SymNum) and not isinstance_real(a, SymNum) and not isinstance_real(c, SymNum):
        return pow(a, b.__index__(), c)
    if type(b) is int and 0 <= b <= 3:
        return syms.powmod_sq(a, b, c)
    raise Unsupported("modular power of a symbolic number")


def invert(a, b):
    K = keys()
    if type(a) is GRed:
        raise Unsupported("inverse of a reduced ciphertext")
    if type(a) is GInt and not a.red:
        a = a % a.nsq
    if K is not None and type(b) is int and b in K.byn and isinstance_real(a, SymNum):
        g = recognise(a, b)
        if g is not None:
            return GInt(b, -g.a, {k: -v for k, v in g.rho.items()})
    if isinstance_real(b, SymNum):
        b = b.__index__()
    if not isinstance_real(a, SymNum):
        try:
            return pow(a, -1, b)
        except ValueError:
            raise ZeroDivisionError("invert() no inverse exists")
    raise Unsupported("inverse of a symbolic number")


def draw_name(a):
    K = keys()
    if a.d is None and len(a.n) == 1:
        (m, c), = a.n.items()
        if c == 1 and len(m) == 1:
            return K.draws.get(m[0])
    return None
