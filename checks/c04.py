"""C04: Paillier.  Small keys: every residue bit-precisely.  Large keys: every plaintext, ciphertexts as elements of the
group Z*_{n^2} (symx/group.py)."""
from fractions import Fraction
from math import gcd
from symx.runner import Case
from symx import syms, group, bv
from checks.c03 import frexp, near, exact, value, sym_scalar, fits

DESC = ("Small-key cases run the whole encryption and decryption on symbolic residues with the modular powers as exact tables; "
        "large-key cases run the same code on a 1024-bit key where ciphertexts are group elements with symbolic plaintext and obfuscator.")



PRIMES = {
    256: [(72370055773322622139731865630429942408293740416025352524660990004946706025517,
           86844066927987146567678238756515930889952488499230423029593188006165847229983),
          (72370055773322622139731865630429942408293740416025352524660990004947706025193,
           86844066927987146567678238756515930889952488499230423029593188006242847230363)],
    512: [(8379879956214123187233765623878653829674603637870245861077225902326102518795966860501171436354314642306269911366553781783596176757466606216521031628803951,
           10055855947456947824680518748654384595609524365444295033292671082791323022555160232601405723625177570767523893639864538140315412108959927459825467754563233),
          (8379879956214123187233765623878653829674603637870245861077225902326102518795966860501171436354314642306269911366553781783596176757466606216521032628802957,
           10055855947456947824680518748654384595609524365444295033292671082791323022555160232601405723625177570767523893639864538140315412108959927459825544754563219)],
}


def keys(h, bits, which=0):
    return PRIMES[bits][which]


def start(h, big=None):
    h.world()
    if h.symbolic:
        h.hooks["math.frexp"] = frexp(h)
        if big:
            h.hooks["modfork"] = 5000
            h.K = group.install(h)
        else:
            h.hooks["gmpy2.powmod"] = bv.powmod
            h.hooks["gmpy2.invert"] = bv.invert
    h.ndraw = 0
    h.units = None

    def draw(lo, hi=None):
        if hi is None:
            lo, hi = 0, lo
        h.ndraw += 1
        if h.units is not None:
            return h.pick("r%d" % h.ndraw, h.units)
        r = h.int("r%d" % h.ndraw, max(lo, 2), hi - 1)
        if h.symbolic:
            (m,), = r.n.keys()
            h.K.draws[m] = "r%d" % h.ndraw
        return r
    h.hooks["random.randrange"] = draw
    h.hooks["random.randint"] = lambda a, b: draw(a, b + 1)
    return h.mod("ml.secureprotol.fate_paillier")


def pair(h, M, p, q):
    pub = M.PaillierPublicKey(p * q)
    if h.symbolic and hasattr(h, "K"):
        h.K.register(p, q)
    return pub, M.PaillierPrivateKey(pub, p, q)


# ------------------------------------------------------------------------------------------- small keys
def small(p, q):
    n = p * q
    units = [r for r in range(1, n) if gcd(r, n) == 1]

    def fn(h):
        M = start(h)
        pub, prv = pair(h, M, p, q)
        h.units = units
        m = bv.new(h, "m", 0, n - 1)
        how = h.choose("how", 2)
        r = h.pick("r", units)
        c = pub.raw_encrypt(m, r)
        h.check(h.land(c >= 0, c < n * n), "a ciphertext is a residue modulo n squared", "range")
        if how:
            d = prv.raw_decrypt(c)
        else:
            d = prv.raw_decrypt(pub.apply_obfuscator(c, r))
        h.observe(d)
        h.check(h.eq(d, m), "decryption of an encryption", "decrypt")
    return fn


def small_api(p, q, big=False):
    """numbers (not residues) through encrypt / decrypt with drawn obfuscators"""
    n = p * q
    units = [r for r in range(1, n) if gcd(r, n) == 1]

    def fn(h):
        M = start(h)
        pub, prv = pair(h, M, p, q)
        h.units = units[:8] if big else units[:2] + units[-1:]
        mx = n // 3 - 1
        v = bv.new(h, "v", -mx, mx)
        c = pub.encrypt(v)
        exact(h, prv.decrypt(c), v, "decryption of an encrypted integer", "decrypt")
        x = c.ciphertext(False)
        k = h.pick("k", [-2, -1, 0, 1, 2] if big else [-2, 3])
        h.assume(h.land(v * k <= mx, v * k >= -mx))
        exact(h, prv.decrypt(c * k), v * k, "multiplication of a ciphertext", "mul")
        exact(h, prv.decrypt(c), v, "operand after the operation", "operand")
        h.check(h.eq(c.ciphertext(False), x), "operand ciphertext unchanged", "operand")
    return fn


def keygen(nlen, valid):
    def fn(h):
        M = start(h)
        cnt = [0]

        def bits(k):
            cnt[0] += 1
            if cnt[0] > (3 if nlen > 6 else 4):
                h.assume(False)
            return h.value(h.int("bits%d" % cnt[0], 0, 2 ** k - 1))
        h.hooks["random.getrandbits"] = bits
        pub, prv = M.PaillierKeypair.generate_keypair(nlen)
        import sympy
        p, q, n = int(prv.p), int(prv.q), int(pub.n)
        h.check(n.bit_length() == nlen, "modulus of the requested length", "length")
        h.check(p != q and sympy.isprime(p) and sympy.isprime(q) and p * q == n, "two different primes", "primes")
        h.check(prv.public_key == pub, "the pair belongs together", "pair")
        if valid and gcd(n, (p - 1) * (q - 1)) == 1:
            h.hooks.pop("random.randrange", None)
            h.hooks["random.randrange"] = h.hooks["random.randint"] = lambda *a: 1
            m = bv.new(h, "m", -(n // 3 - 1), n // 3 - 1)
            exact(h, prv.decrypt(pub.encrypt(m)), m, "round trip with the generated key", "decrypt")
    return fn


# ------------------------------------------------------------------------------------------- large keys
def operand(h, M, pub, name, ex, bits, how):
    """a ciphertext of m * 16**-ex with symbolic m of the given width"""
    m = h.int(name, -(2 ** bits), 2 ** bits)
    neg = h.branch(m < 0)
    c = pub.raw_encrypt(m + pub.n if neg else m, 1)
    e = M.PaillierEncryptedNumber(pub, c, ex)
    if how:
        e.apply_obfuscator()
    return e, value(h, m, ex), m


def roundtrip(bits, kinds):
    def fn(h):
        M = start(h, True)
        p, q = keys(h, bits)
        if h.choose("order", 2):
            p, q = q, p
        pub, prv = pair(h, M, p, q)
        kind = h.pick("kind", kinds)
        if kind == "int":
            v = h.int("v", -(2 ** 60), 2 ** 60)
        else:
            v = sym_scalar(h, "v", "float", kind)
        c = pub.encrypt(v)
        near(h, prv.decrypt(c), v, [v], "decryption of an encryption", "decrypt")
        h.check(h.ndraw >= 1, "an encryption draws an obfuscator", "draw")
        h.check(c.public_key == pub, "the ciphertext knows its key", "key")
        w = h.pick("handed", [0, 2])
        for i in range(w):
            before = h.ndraw
            x = c.ciphertext()
            near(h, prv.decrypt(c), v, [v], "value after handing out the ciphertext", "decrypt")
        exact_cipher = c.ciphertext(be_secure=False)
        h.check(h.eq(exact_cipher, c.ciphertext(be_secure=False)), "the raw ciphertext is stable", "stable")
        if w:
            return
        explicit = pub.encrypt(v, random_value=h.pick("rv", [1, 5]))
        near(h, prv.decrypt(explicit), v, [v], "encryption with a given obfuscator", "decrypt")
    return fn


def arithmetic(bits, ops, exps, scal, big=False):
    def fn(h):
        M = start(h, True)
        p, q = keys(h, bits)
        pub, prv = pair(h, M, p, q)
        n = pub.n
        op = h.pick("op", ops)
        ea = 0 if op == "wide" else h.pick("ea", exps if op != "handed" or big else [0, 3])
        obf = h.choose("obf", 2) if big else 0
        if op != "wide":
            A, va, ma = operand(h, M, pub, "a", ea, 50, obf)
        if op in ("cc", "cc-"):
            eb = h.pick("eb", exps)
            B, vb, mb = operand(h, M, pub, "b", eb, 50, 0)
            r = A + B if op == "cc" else A - B
            want = va + vb if op == "cc" else va - vb
            near(h, prv.decrypt(r), want, [want], "sum of ciphertexts" if op == "cc" else "difference of ciphertexts", op, bits=50)
            near(h, prv.decrypt(B), vb, [vb], "right operand afterwards", "operand", bits=50)
        elif op in ("c+", "+c", "c-", "-c"):
            s = h.pick("s", scal)
            if s == "int":
                b = h.int("b", -(2 ** 30), 2 ** 30)
                vb = b
            else:
                b = sym_scalar(h, "b", "float", s)
                vb = b if h.symbolic else Fraction(b)
            r = {"c+": lambda: A + b, "+c": lambda: b + A, "c-": lambda: A - b, "-c": lambda: b - A}[op]()
            want = {"c+": lambda: va + vb, "+c": lambda: va + vb, "c-": lambda: va - vb, "-c": lambda: vb - va}[op]()
            near(h, prv.decrypt(r), want, [va, vb], "ciphertext and plain number", op)
        elif op in ("c*", "*c", "c/"):
            s = h.pick("k", [3, -7, 0, 1, -1, 0.5, -0.375, 2.5e-3, 1e6] if op != "c/" else [4, -3, 0.125, -1.5e-3, 7.0])
            r = {"c*": lambda: A * s, "*c": lambda: s * A, "c/": lambda: A / s}[op]()
            k = Fraction(s) if op != "c/" else Fraction(1) / Fraction(s)
            want = va * k
            near(h, prv.decrypt(r), want, [want], "ciphertext times/over a plain number", op, bits=46)
        elif op == "c*sym":
            b = h.int("b", -(2 ** 20), 2 ** 20)
            near(h, prv.decrypt(A * b), va * b, [va * b], "ciphertext times a symbolic integer", op, bits=50)
        elif op == "wide":
            # operands of any size up to the plaintext space
            k = h.pick("wk", ["*", "+", "s"])
            mx = pub.max_int - 2 ** 41
            lim = mx // 2
            top = mx if k == "*" else lim
            b = h.pick("wa", [top, -top, 2 ** (top.bit_length() - 2), -(top // 3)]) + h.int("wb", -(2 ** 40), 2 ** 40)
            neg = h.branch(b < 0)

            def cipher(m, neg):
                return M.PaillierEncryptedNumber(pub, pub.raw_encrypt(m + pub.n if neg else m, 1), 0)
            if k == "*":
                u = h.pick("wu", [1, -1])
                r, want = cipher(u, u < 0) * b, b * u
            elif k == "s":
                u = h.pick("wu", [5, -lim, lim])
                r, want = cipher(u, u < 0) + b, b + u
            else:
                w = h.pick("wc", [lim, -lim, 3]) + h.int("ww", -(2 ** 40), 2 ** 40)
                r, want = cipher(b, neg) + cipher(w, h.branch(w < 0)), b + w
            exact(h, prv.decrypt(r), want, "operands of any size", "wide")
            return
        elif op == "raise":
            d = h.pick("d", [-1, 0, 1, 7])
            if d < 0:
                h.expect((ValueError,), A.increase_exponent_to, ea + d, key="lower", msg="lowering the exponent was accepted")
            else:
                r = A.increase_exponent_to(ea + d)
                h.check(r.exponent == ea + d, "the exponent asked for", "exponent")
                near(h, prv.decrypt(r), va, [va], "value after raising the exponent", "raise", bits=50)
        elif op == "handed":
            B, vb, mb = operand(h, M, pub, "b", h.pick("eb", exps if big else [0]), 50, 0)
            r = h.pick("mk", [lambda: A + B, lambda: A * 3, lambda: A + 1, lambda: A - B, lambda: A.increase_exponent_to(ea + 1)])()
            raw = r.ciphertext(False)
            before = h.ndraw
            v0 = prv.decrypt(r)
            out = r.ciphertext()
            h.check(h.ndraw > before, "a ciphertext handed out securely draws a fresh obfuscator", "fresh")
            h.check(h.lnot(h.eq(out, raw)), "a ciphertext handed out securely is re-randomised", "fresh")
            near(h, prv.decrypt(r), v0, [v0], "re-randomising keeps the plaintext", "handed", bits=50)
            near(h, prv.decrypt(M.PaillierEncryptedNumber(pub, out, r.exponent)), v0, [v0], "the number handed out decrypts alike",
                 "handed", bits=50)
        near(h, prv.decrypt(A), va, [va], "left operand afterwards", "operand", bits=50)
    return fn


def chain(bits, steps):
    """sequences of operations on one running value"""
    def fn(h):
        M = start(h, True)
        p, q = keys(h, bits)
        pub, prv = pair(h, M, p, q)
        c, v, m = operand(h, M, pub, "a", h.pick("ea", [0, 2]), 30, 0)
        for i in range(steps):
            o = h.pick("op%d" % i, ["add", "mul", "sub", "scal"])
            if o in ("add", "sub"):
                d, vd, md = operand(h, M, pub, "b%d" % i, h.pick("eb%d" % i, [0, 3] if steps > 2 else [3]), 30, 0)
                c, v = (c + d, v + vd) if o == "add" else (c - d, v - vd)
            elif o == "mul":
                k = h.pick("k%d" % i, [-2, 0.25])
                c, v = c * k, v * Fraction(k)
            else:
                s = h.int("s%d" % i, -1000, 1000)
                c, v = s + c, v + s
        near(h, prv.decrypt(c), v, [v], "value after %d operations" % steps, "chain", bits=50)
    return fn


def foreign(bits):
    def fn(h):
        M = start(h, True)
        p, q = keys(h, bits)
        p2, q2 = keys(h, bits, 1)
        pub, prv = pair(h, M, p, q)
        pub2, prv2 = pair(h, M, p2, q2)
        v = h.int("v", -1000, 1000)
        w = h.int("w", -1000, 1000)
        a, b = pub.encrypt(v), pub2.encrypt(w)
        what = h.pick("what", ["dec", "dec2", "add", "sub", "radd", "ctor", "ctor2", "same", "enc", "exact"])
        if what == "dec":
            h.expect((ValueError,), prv.decrypt, b, key="foreign", msg="a foreign ciphertext was decrypted")
        elif what == "dec2":
            h.expect((TypeError,), prv.decrypt, h.pick("x", [5, "a", None]), key="type", msg="a non-ciphertext was decrypted")
        elif what == "add":
            h.expect((ValueError,), lambda: a + b, key="foreign", msg="ciphertexts of two keys were added")
        elif what == "sub":
            h.expect((ValueError,), lambda: a - b, key="foreign", msg="ciphertexts of two keys were subtracted")
        elif what == "radd":
            h.expect((ValueError,), lambda: b + a, key="foreign", msg="ciphertexts of two keys were added")
        elif what == "ctor":
            h.expect((ValueError,), M.PaillierPrivateKey, pub, p2, q2, key="ctor", msg="a private key of another modulus was accepted")
        elif what == "ctor2":
            h.expect((ValueError,), M.PaillierPrivateKey, M.PaillierPublicKey(p * p), p, p, key="ctor", msg="equal primes were accepted")
        elif what == "same":
            # an equal key object is the same key
            pub3 = M.PaillierPublicKey(p * q)
            c = pub3.encrypt(w) + a
            exact(h, prv.decrypt(c), v + w, "ciphertexts under an equal key object", "same")
        elif what == "enc":
            h.expect((TypeError,), pub.raw_encrypt, h.pick("x", [0.5, "a"]), key="type", msg="a non-integer residue was encrypted")
            h.expect((TypeError,), prv.raw_decrypt, h.pick("y", [0.5, "a"]), key="type", msg="a non-integer was decrypted")
        else:
            h.expect((ValueError,), pub.encrypt, pub.n // 2, key="big", msg="a number beyond the plaintext space was encrypted")
    return fn


def foreign_small(p, q, p2, q2):
    """small keys, also of moduli next to each other"""
    def fn(h):
        M = start(h)
        h.units = [1]
        pub, prv = pair(h, M, p, q)
        pub2, prv2 = pair(h, M, p2, q2)
        a, b = pub.encrypt(h.pick("v", [0, 1, -2])), pub2.encrypt(h.pick("w", [0, 3, -1]))
        h.check(not (pub == pub2) and pub != pub2, "keys of different moduli differ", "keys")
        h.expect((ValueError,), prv.decrypt, b, key="foreign", msg="a foreign ciphertext was decrypted")
        h.expect((ValueError,), prv2.decrypt, a, key="foreign", msg="a foreign ciphertext was decrypted")
        h.expect((ValueError,), lambda: a + b, key="foreign", msg="ciphertexts of two keys were added")
        h.expect((ValueError,), lambda: b - a, key="foreign", msg="ciphertexts of two keys were subtracted")
        h.expect((ValueError,), M.PaillierPrivateKey, pub, p2, q2, key="ctor", msg="a private key of another modulus was accepted")
    return fn


def wrappers(bits):
    def fn(h):
        M = start(h, True)
        E = h.mod("ml.secureprotol.encrypt").PaillierEncrypt
        D = h.cls("computing.d_table", "DTable")
        p, q = keys(h, bits)
        pub, prv = pair(h, M, p, q)
        g, ho = E(), E()
        h.check(g.encrypt(3) is None and g.decrypt(3) is None, "without a key nothing is produced", "nokey")
        ho.set_public_key(pub)
        g.set_public_key(pub)
        g.set_privacy_key(prv)
        h.check(g.get_public_key() == pub and g.get_privacy_key() == prv and g.get_key_pair() == (pub, prv), "keys are kept", "keys")
        vs = h.ints("v", 2, -(2 ** 40), 2 ** 40)
        how = h.pick("how", ["one", "list", "table", "rec"])
        if how == "one":
            c = ho.encrypt(vs[0])
            h.check(ho.decrypt(c) is None, "a public key does not decrypt", "nokey")
            exact(h, g.decrypt(c), vs[0], "wrapper round trip", "one")
        elif how == "list":
            for x, y in zip(g.decrypt_list(ho.encrypt_list(vs)), vs):
                exact(h, x, y, "list round trip", "list")
        elif how == "table":
            t = D(True, list(zip(["a", "b"], vs)))
            r = dict(g.distribute_decrypt(ho.distribute_encrypt(t)).collect())
            h.check(list(r) == ["a", "b"], "table keys", "table")
            for k, y in zip("ab", vs):
                exact(h, r[k], y, "table round trip", "table")
        else:
            import numpy as np
            cs = ho.encrypt_list(vs) + ho.encrypt_list([1, -2])
            a = np.empty((2, 2), dtype=object)
            for i in range(4):
                a[i // 2, i % 2] = cs[i]
            r = g.recursive_decrypt(h.pick("form", [a, [list(a[0]), list(a[1])]]))
            for i, y in enumerate(vs + [1, -2]):
                exact(h, r[i // 2][i % 2], y, "array round trip", "rec")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = []
    ks = [(5, 7), (7, 5), (3, 11)] + ([(7, 11), (5, 13)] if big else [])
    for p, q in ks:
        out.append(Case("small-%d-%d" % (p, q), small(p, q), bounds="key p=%d q=%d: every plaintext residue and obfuscator" % (p, q)))
    for p, q in ks[:1] if not big else ks[:2]:
        out.append(Case("api-%d-%d" % (p, q), small_api(p, q, big), bounds="key p=%d q=%d: every encodable integer, drawn obfuscators, multiplier -2..2" % (p, q)))
    out.append(Case("keygen-6", keygen(6, False), bounds="6-bit moduli, every draw of the two primes (at most 4 draws)"))
    out.append(Case("keygen-7", keygen(7, True), bounds="7-bit moduli, every draw (at most 3), every plaintext"))
    kinds = ["int", -52, -20, -90] + ([0, -60, 30, -110] if big else [])
    nb = 512
    out.append(Case("roundtrip", roundtrip(nb, kinds), bounds="1024-bit key in both orders, 60-bit integers and doubles of listed binary exponents"))
    exps = [0, 13] if not big else [-2, 0, 3, 7, 13, 20]
    for ops in (["cc", "cc-"], ["c+", "+c"], ["c-", "-c"], ["c*", "*c", "c/"], ["c*sym"], ["raise"], ["handed"]):
        out.append(Case("arith-" + "/".join(ops), arithmetic(nb, ops, exps, ["int", -52, -70, 3], big),
                        bounds="1024-bit key, 50-bit mantissas of both signs, exponents %s, doubles of listed binary exponents" % exps))
    out.append(Case("wide", arithmetic(nb if big else 256, ["wide"], exps, []), bounds="%d-bit key, operands within 2^40 of the ends, a quarter and a sixth of the plaintext space" % (1024 if big else 512)))
    out.append(Case("chain", chain(nb, 2 if not big else 3), bounds="sequences of %d operations, 30-bit operands" % (2 if not big else 3)))
    out.append(Case("foreign", foreign(nb), bounds="two 1024-bit keys"))
    for t in [(5, 7, 3, 11), (5, 11, 3, 19), (7, 11, 5, 17)]:
        out.append(Case("foreign-%d-%d" % (t[0] * t[1], t[2] * t[3]), foreign_small(*t), bounds="small keys of similar moduli"))
    neg = [-14, -2, 0] if not big else [-20, -14, -5, -2, 0, 3]
    for ops in (["cc", "cc-"], ["c+", "c-"], ["raise"], ["c*"]):
        out.append(Case("large-" + "/".join(ops), arithmetic(nb, ops, neg, ["int", 20, 60], big),
                        bounds="ciphertexts of numbers of up to 106 bits (exponents %s), doubles of binary exponent 20 and 60" % neg))
    out.append(Case("wrappers", wrappers(nb), bounds="two 40-bit integers through every wrapper"))
    return out
