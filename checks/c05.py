"""C05: RSA and affine ciphers."""
from fractions import Fraction
from math import gcd
from symx.runner import Case
from symx import bv, syms
from checks.c03 import frexp, near, sym_scalar

DESC = ("RSA on small keys with symbolic 32-bit messages and exact power tables; the affine cipher with symbolic plaintexts and "
        "symbolic shift over concrete invertible multipliers, integers exact.")


def rsa(p, q, e):
    n, phi = p * q, (p - 1) * (q - 1)
    d = pow(e, -1, phi)

    def fn(h):
        h.world()
        if h.symbolic:
            h.hooks["gmpy2.powmod"] = bv.powmod
            h.hooks["gmpy2.invert"] = bv.invert
        R = h.cls("ml.secureprotol.encrypt", "RsaEncrypt")
        D = h.cls("computing.d_table", "DTable")
        a, b = R(), R()
        used = h.pick("used", [0, 1])
        if used:            # objects that held another key before
            b.set_privacy_key({"d": 3, "n": 15})
        m = bv.new(h, "m", 0, n - 1)
        h.check(a.encrypt(m) is None and a.decrypt(m) is None, "without a key nothing comes back", "nokey")
        if used:
            a.set_public_key({"e": 3, "n": 15})
        a.set_public_key({"e": e, "n": n})
        h.check(a.get_public_key() == (e, n), "public key kept", "keys")
        c = a.encrypt(m)
        h.check(h.land(c >= 0, c < n), "a ciphertext is a residue", "range")
        h.check(a.decrypt(c) is None, "a public key does not decrypt", "nokey")
        how = h.pick("how", ["two", "one", "list", "table"])
        if how == "two":
            b.set_privacy_key({"d": d, "n": n})
            h.check(b.encrypt(m) is None, "a private key alone does not encrypt", "nokey")
            h.check(b.get_privacy_key() == (d, n), "private key kept", "keys")
            r = b.decrypt(c)
        else:
            a.set_privacy_key({"d": d, "n": n})
            h.check(a.get_key_pair() == (e, d, n), "key triple", "keys")
            if how == "one":
                r = a.decrypt(a.encrypt(m))
            elif how == "list":
                l = a.decrypt_list(a.encrypt_list([m, 2]))
                h.check(len(l) == 2, "list length", "list")
                h.check(h.eq(l[1], 2), "second list item", "list")
                r = l[0]
            else:
                t = D(True, [("a", m), ("b", 3)])
                t2 = dict(a.distribute_decrypt(a.distribute_encrypt(t)).collect())
                h.check(sorted(t2) == ["a", "b"], "table keys", "table")
                r = t2["a"]
        h.observe(r)
        h.check(h.eq(r, m), "decryption of an encryption", "decrypt")
    return fn


def generated():
    """generate_key hands the library's triple through unchanged"""
    def fn(h):
        h.world()
        M = h.mod("ml.secureprotol.encrypt")
        class Key:
            e, d, n = 3, 7, 33
        class Lib:
            asked = None
            @staticmethod
            def generate(bits, *a):
                Lib.asked = bits
                return Key
        M.RSA = Lib
        r = M.RsaEncrypt()
        k = h.pick("bits", [512, 1024])
        r.generate_key(k)
        h.check(Lib.asked == k, "key length asked for", "bits")
        h.check(r.get_key_pair() == (3, 7, 33) and r.get_public_key() == (3, 33) and r.get_privacy_key() == (7, 33), "key parts", "keys")
    return fn


N64 = 2 ** 256 - 189
A64 = [3, 1, 2 ** 200 + 7, N64 - 2, 0x1234567890abcdef1234567890abcdef123456789]


def affine(n, mults, prec, bits, ops):
    def fn(h):
        h.world()
        if h.symbolic:
            h.hooks["math.frexp"] = frexp(h)
            h.hooks["modpoly"] = True
            h.hooks["modfork"] = 5000
            h.hooks["group"] = None
        M = h.mod("ml.secureprotol.affine")
        a = h.pick("a", mults)
        b = h.int("b", 0, n - 1)
        K = M.AffineCipherKey(a, b, n, prec)
        op = h.pick("op", ops)

        def plain(name):
            if h.pick(name + "_kind", ["int", "float"]) == "int":
                return h.int(name, -(2 ** bits), 2 ** bits)
            return sym_scalar(h, name, "float", -52 + (3 if name == "x" else 10))
        x = plain("x")
        c = K.encrypt(x)
        want = x if h.symbolic else Fraction(x)
        want = syms.to_real(want) if h.symbolic else want
        if op == "dec":
            r = c
        elif op == "add" or op == "sub":
            y = plain("y")
            cy = K.encrypt(y)
            r = c + cy if op == "add" else c - cy
            yy = y if h.symbolic else Fraction(y)
            want = want + yy if op == "add" else want - yy
        elif op in ("mul", "rmul"):
            k = h.pick("k", [-3, -1, 0, 1, 2, 7])
            r = c * k if op == "mul" else k * c
            want = want * k
        elif op == "mulsym":
            k = h.value(h.int("k", -8, 8))
            r = c * k
            want = want * k
        elif op == "sum":
            y = plain("y")
            r = sum([c, K.encrypt(y)])
            want = want + (y if h.symbolic else Fraction(y))
        elif op == "mix":
            y = plain("y")
            r = (c * 3 - K.encrypt(y)) * -2 + c
            want = want * -5 + (y if h.symbolic else Fraction(y)) * 2
        got = K.decrypt(r)
        h.observe(got)
        tol = Fraction(1, 2 ** 40)
        if h.symbolic:
            d = got - want
            h.check(h.land(d <= tol, d >= -tol), "%s decrypts to the plain result" % op, op)
        else:
            h.check(abs(Fraction(got) - want) <= tol + abs(want) / 2 ** 45, "%s decrypts to the plain result: %r" % (op, got), op)
        d2 = K.decrypt(c)
        x2 = x if h.symbolic else Fraction(x)
        dd = (d2 if h.symbolic else Fraction(d2)) - x2
        h.check(h.land(dd <= tol + (0 if h.symbolic else abs(x2) / 2 ** 45), dd >= -tol - (0 if h.symbolic else abs(x2) / 2 ** 45)),
                "the operand keeps its value", "operand")
    return fn


def ranges():
    """results inside both ends of the representable range -n/10 .. 9n/10"""
    def fn(h):
        h.world()
        if h.symbolic:
            h.hooks["modpoly"] = True
            h.hooks["modfork"] = 5000
            h.hooks["group"] = None
        M = h.mod("ml.secureprotol.affine")
        n, prec = N64, 2 ** 100
        b = h.int("b", 0, n - 1)
        K = M.AffineCipherKey(h.pick("a", A64[:3]), b, n, prec)
        d = h.int("d", 1, 2 ** 40)
        low, high = -(n // 10 // prec), 9 * (n // 10) // prec
        m = (n >> 44) // prec
        where = h.pick("where", ["low", "high", "lower-half", "upper-half"])
        x = {"low": low + m + d, "high": high - m - d, "lower-half": low // 2 - d, "upper-half": high // 2 + d}[where]
        how = h.pick("how", ["one", "sum", "product"])
        if how == "one":
            got = K.decrypt(K.encrypt(x))
        elif how == "sum":
            y = 12345 if x < 0 else -12345
            got = K.decrypt(K.encrypt(x - y) + K.encrypt(y))
        else:
            got = K.decrypt(K.encrypt(-x) * -1)
            if where in ("high", "upper-half"):
                return
        # a quotient of integers: compare relatively
        tol = abs(low) // 2 ** 40 + 1
        if where.startswith("h") or where.startswith("u"):
            tol = high // 2 ** 40 + 1
        if h.symbolic:
            h.check(h.land(got - x <= tol, got - x >= -tol), "a result near the ends of the range (%s)" % where, "range")
        else:
            h.check(abs(Fraction(got) - x) <= tol, "a result near the ends of the range (%s): %r" % (where, got), "range")
    return fn


def types():
    def fn(h):
        h.world()
        M = h.mod("ml.secureprotol.affine")
        n = 2 ** 160 - 47
        K = M.AffineCipherKey(5, h.int("b", 0, n - 1), n)
        x = h.int("x", -1000, 1000)
        c = K.encrypt(x)
        o = h.pick("o", [1.5, "a", None, [1], True, False, 0.0, 5, -1])
        what = h.pick("what", ["mul", "rmul", "add", "radd"])
        if what in ("mul", "rmul"):
            if type(o) is int:
                return h.check((c * o).multiplier == o, "an integer multiplier is accepted", "mul")
            h.expect((TypeError,), (lambda: c * o) if what == "mul" else (lambda: o * c), key="type", msg="a %s multiplier was accepted" % type(o).__name__)
        else:
            h.expect((TypeError,), (lambda: c + o) if what == "add" else (lambda: o + c), key="type",
                     msg="adding a plain %s was accepted" % type(o).__name__)
        r = c + 0
        h.check(h.eq(r.cipher, c.cipher), "adding zero keeps the ciphertext", "zero")
    return fn


def wrapper():
    def fn(h):
        h.world()
        if h.symbolic:
            h.hooks["modpoly"] = True
            h.hooks["modfork"] = 5000
        M = h.mod("ml.secureprotol.encrypt")
        A = h.mod("ml.secureprotol.affine")
        e = M.AffineEncrypt()
        h.check(e.encrypt(3) is None and e.decrypt(3) is None, "without a key nothing comes back", "nokey")
        cnt = [0]
        n = 2 ** 160 - 47
        seq = h.pick("bits", [[n, 7, 12345], [n, 0, 9, 3 ** 60], [n, n * 3, 5, 0]])

        def getrandbits(k):
            cnt[0] += 1
            return seq[(cnt[0] - 1)] if cnt[0] <= len(seq) else 11
        h.hooks["random.getrandbits"] = getrandbits
        h.hooks["random.random"] = lambda: 0.5
        e.generate_key(160)
        x = h.int("x", -10 ** 6, 10 ** 6)
        r = e.decrypt(e.encrypt(x))
        h.observe(r)
        d = r - x
        h.check(h.land(d <= 1e-6, d >= -1e-6), "round trip with a generated key", "decrypt")
        h.check(gcd(e.key.a, e.key.n) == 1, "the multiplier is invertible", "gcd")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = []
    for p, q, e in [(5, 11, 3), (7, 11, 7), (3, 17, 5)] + ([(13, 17, 5), (11, 19, 7), (13, 19, 5)] if big else []):
        out.append(Case("rsa-%d-%d" % (p, q), rsa(p, q, e), bounds="every message below %d, exponent %d" % (p * q, e)))
    out.append(Case("rsa-generate", generated(), bounds="key material passed through"))
    ops = ["dec", "add", "sub", "mul", "rmul", "sum", "mix"] + (["mulsym"] if big else [])
    out.append(Case("affine", affine(N64, A64 if big else A64[:3], 2 ** 100, 40, ops), bounds="256-bit modulus, listed multipliers, every shift, 40-bit integers and doubles"))
    out.append(Case("ranges", ranges(), bounds="integers within 2^40 of points 2^-44 n inside the ends and the middle of -n/10..9n/10"))
    out.append(Case("types", types(), bounds="operand types"))
    out.append(Case("wrapper", wrapper(), bounds="AffineEncrypt with generated keys, draws including non-invertible multipliers"))
    return out
