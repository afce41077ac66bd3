"""C06: encryption modes."""
from symx.runner import Case
from checks import c04

DESC = ("EncryptModeCalculator runs over symbolic data, symbolic random draws and a ghost cipher that carries its plaintext, for "
        "sequences of rounds; one case uses the repository's Paillier on a 1024-bit key.")


class Cipher:
    """additively homomorphic ghost ciphertext"""
    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Cipher(self.v + (o.v if type(o) is Cipher else o))
    __radd__ = __add__

    def __mul__(self, k):
        if type(k) is Cipher:
            raise TypeError("product of ciphertexts")
        return Cipher(self.v * k)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self + o * -1

    def __rsub__(self, o):
        return o + self * -1

    def __truediv__(self, k):
        return Cipher(self.v / k)


class Encrypter:
    def __init__(self):
        self.n = 0
        self.seen = []

    def encrypt(self, v):
        self.n += 1
        self.seen.append(v)
        return Cipher(v)

    def decrypt(self, c):
        if type(c) is not Cipher:
            raise TypeError("not a ciphertext: %s" % type(c).__name__)
        return c.v


def make_row(h, np, shape, name, width):
    if shape == "scalar":
        v = h.real(name + "_0")
        return v, [v]
    vs = [h.real("%s_%d" % (name, i)) for i in range(width)]
    if shape == "array":
        return np.array(vs), vs
    return (tuple(vs) if shape == "tuple" else list(vs)), vs


def items(row, shape):
    return [row] if shape == "scalar" else list(row)


def rounds(nrounds, nrows, shapes, modes, paillier=False, swap=False, width=2):
    def fn(h):
        if paillier:
            M = c04.start(h, True)
            pub, prv = c04.pair(h, M, *c04.keys(h, 512))
            E = h.mod("ml.secureprotol.encrypt").PaillierEncrypt()
            E.set_public_key(pub)
            E.set_privacy_key(prv)
            enc, dec = E, E.decrypt
        else:
            h.world()
            enc = Encrypter()
            dec = enc.decrypt
        np = h.w.shims["numpy"] if h.symbolic else __import__("numpy")
        D = h.cls("computing.d_table", "DTable")
        Calc = h.cls("ml.secureprotol.encrypt_mode", "EncryptModeCalculator")
        mode = h.pick("mode", modes)
        rate = h.real("rate", 0, 1) if mode == "balance" else h.pick("fixedrate", [1, 0.25])
        nd = [0]
        drawn = []

        def rnd():
            nd[0] += 1
            x = h.real("draw%d" % nd[0], 0, 1)
            h.assume(x < 1)
            drawn.append(x)
            return x
        h.hooks["random.random"] = rnd
        calc = Calc(enc, mode, rate)
        shape = h.pick("shape", shapes)
        keys = ["a", "b", "c"][:nrows]
        prev = None
        for r in range(nrounds):
            rows, plain = {}, {}
            order = keys if not (swap and r % 2) else keys[::-1]
            for k in order:
                if paillier:
                    v = h.int("x%d%s" % (r, k), -(2 ** 40), 2 ** 40)
                    rows[k], plain[k] = (v, [v]) if shape == "scalar" else ((v, 3 * r), [v, 3 * r])
                else:
                    rows[k], plain[k] = make_row(h, np, shape, "x%d%s" % (r, k), width)
            t = D(True, [(k, rows[k]) for k in order])
            n0 = getattr(enc, "n", 0)
            del drawn[:]
            out = calc.encrypt(t)
            if not paillier:
                new, total = enc.n - n0, sum(len(plain[k]) for k in order)
                if r == 0:
                    h.check(new == total, "the first round encrypts every value", "first")
                elif mode == "fast":
                    h.check(new == 0, "fast mode encrypts in the first round only", "fast")
                elif mode == "balance" and len(drawn) == 1:
                    d = drawn[0]
                    h.assume(h.lor(d - rate < -1e-4, d - rate > 1e-4))
                    fresh = h.branch(d < rate)
                    h.check(new == (total if fresh else 0), "balance mode encrypts anew with the configured rate", "balance")
            back = dict(t.collect())
            h.check(list(back) == order and all(back[k] is rows[k] for k in order), "the caller's table keeps its rows", "caller")
            for k in order:
                for x, y in zip(items(back[k], shape), plain[k]):
                    h.check(x is y or h.eq(x, y), "the caller's rows keep their values", "caller")
            got = dict(out.collect())
            h.check(sorted(got) == sorted(order), "round %d: the keys of the data" % r, "keys")
            for k in got:
                if k not in plain:
                    continue
                cs = items(got[k], shape)
                h.check(len(cs) == len(plain[k]), "one ciphertext per value", "length")
                if shape != "scalar":
                    h.check(type(got[k]).__name__ == type(rows[k]).__name__, "the row keeps its type", "type")
                for c, y in zip(cs, plain[k]):
                    h.close(dec(c), y, "round %d decrypts to the data of that round" % r, "data")
            if mode == "strict" and not paillier:
                want = sum(len(plain[k]) for k in order)
                h.check(enc.n - n0 == want, "strict mode encrypts every value each round", "strict")
                if enc.n - n0 == want:
                    for x, y in zip(enc.seen[n0:], [v for k in order for v in plain[k]]):
                        h.check(h.eq(x, y), "strict mode encrypts the values themselves", "strict")
            if prev is not None:
                # the ciphertexts of the previous round keep their plaintexts
                pout, pplain = prev
                for k, row in pout.collect():
                    for c, y in zip(items(row, shape), pplain[k]):
                        h.close(dec(c), y, "ciphertexts of an earlier round keep their plaintexts", "earlier")
            prev = (out, plain)
    return fn


def rounds_same(nrounds, shapes):
    """values that do not change between rounds, or are 0"""
    def fn(h):
        h.world()
        enc = Encrypter()
        np = h.w.shims["numpy"] if h.symbolic else __import__("numpy")
        D = h.cls("computing.d_table", "DTable")
        Calc = h.cls("ml.secureprotol.encrypt_mode", "EncryptModeCalculator")
        mode = h.pick("mode", ["strict", "fast", "balance"])
        h.hooks["random.random"] = lambda: h.pick("draw", [0.125, 0.75])
        calc = Calc(enc, mode, 0.5)
        shape = h.pick("shape", shapes)
        x, y = h.real("x"), h.real("y")
        seqs = h.pick("seq", [[(x, y, 0.0), (x, 0.0, y), (0.0, 0.0, 0.0)], [(0.0, 0.0, 0.0), (x, y, y), (x, y, y)], [(x, x, x), (x, y, x), (y, y, y)]])
        for r in range(nrounds):
            vs = list(seqs[r])
            if shape == "scalar":
                rows = {"k%d" % i: v for i, v in enumerate(vs)}
            else:
                rows = {"k": np.array(vs) if shape == "array" else tuple(vs) if shape == "tuple" else vs}
            got = dict(calc.encrypt(D(True, list(rows.items()))).collect())
            h.check(set(got) == set(rows), "the keys of the data", "keys")
            out = [c for k in rows for c in items(got[k], shape)]
            h.check(len(out) == len(vs), "one ciphertext per value", "length")
            for c, v in zip(out, vs):
                h.close(enc.decrypt(c), v, "round %d decrypts to the data of that round" % r, "data")
    return fn


def rounds_many(nrounds, nrows, ncalc):
    """many rounds over many rows, one value any each round; several calculators (one per class) at work by turns"""
    def fn(h):
        h.world()
        enc = Encrypter()
        np = h.w.shims["numpy"] if h.symbolic else __import__("numpy")
        D = h.cls("computing.d_table", "DTable")
        Calc = h.cls("ml.secureprotol.encrypt_mode", "EncryptModeCalculator")
        mode = h.pick("mode", ["strict", "fast", "balance"])
        again = h.choose("again", nrounds + 1)
        nd = [0]

        def rnd():
            nd[0] += 1
            return 0.75 if (nd[0] - 1) // nrows != again else (nd[0] % 3) * 0.25
        h.hooks["random.random"] = rnd
        calcs = [Calc(enc, mode, 0.5) for _ in range(ncalc)]
        shape = h.pick("shape", ["array", "tuple", "list", "scalar"])
        keys = ["k%d" % ((7 * i) % nrows) for i in range(nrows)] if nrows % 7 else list(range(nrows))
        held = []
        for r in range(nrounds):
            for q, calc in enumerate(calcs):
                plain = {}
                for i, k in enumerate(keys):
                    w = 1 if shape == "scalar" else 3
                    plain[k] = [float((r + 2) * (i + 1) - j * (q + 1)) for j in range(w)]
                plain[keys[r % nrows]][-1] = h.real("x%d_%d" % (r, q))
                if shape == "scalar":
                    rows = [(k, plain[k][0]) for k in keys]
                else:
                    rows = [(k, np.array(v) if shape == "array" else tuple(v) if shape == "tuple" else list(v)) for k, v in plain.items()]
                n0 = enc.n
                out = calc.encrypt(D(True, rows))
                if mode == "strict":
                    h.check(enc.n - n0 == sum(len(v) for v in plain.values()), "strict mode encrypts every value each round", "strict")
                held.append((r, out, plain))
        for r, out, plain in held:
            got = dict(out.collect())
            h.check(list(got) == keys, "round %d: the keys of the data" % r, "keys")
            for k in keys:
                cs = items(got[k], shape)
                h.check(len(cs) == len(plain[k]), "one ciphertext per value", "length")
                for c, y in zip(cs, plain[k]):
                    h.close(enc.decrypt(c), y, "round %d decrypts to the data of that round" % r, "data")
    return fn


def cases(tier):
    big = tier == "thorough"
    n = 4 if big else 3
    shapes = ["array", "tuple", "list", "scalar"]
    out = []
    for m in ("strict", "fast", "balance"):
        out.append(Case("rounds-" + m, rounds(n, 2, shapes, [m]), bounds="%d rounds, 2 rows of 1-2 values, all draws and rates" % n))
    out.append(Case("reorder", rounds(3, 2 if not big else 3, ["tuple", "array"], ["fast", "balance"], swap=True), bounds="rows arriving in another order each round"))
    out.append(Case("wide", rounds(2, 1, ["tuple", "array", "list"], ["fast", "balance"], width=4), bounds="2 rounds, rows of 4 values"))
    out.append(Case("repeated", rounds_same(3, ["tuple", "array", "list", "scalar"]), bounds="3 rounds with values that stay the same or become 0"))
    out.append(Case("many", rounds_many(7, 9, 1), bounds="7 rounds, 9 rows of 1-3 values, one of them any each round"))
    out.append(Case("calculators", rounds_many(3, 4, 3), bounds="3 calculators by turns, 3 rounds, 4 rows, one value any each round"))
    out.append(Case("paillier", rounds(2 if not big else 3, 1, ["tuple", "scalar"] if big else ["scalar"], ["fast", "strict", "balance"], paillier=True),
                    bounds="1024-bit Paillier key, 40-bit integers, %d rounds" % (2 if not big else 3)))
    return out
