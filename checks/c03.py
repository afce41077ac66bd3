"""C03: fixed-point encoding; scalars are m * 2**e with a symbolic 53-bit mantissa m and enumerated e."""
from fractions import Fraction
from symx.runner import Case
from symx import syms
from symx.engine import frac_of
from symx.syms import SymNum, b_expr, b_and

DESC = ("FixedPointNumber runs on scalars m*2**e with symbolic 53-bit mantissa m (every double of that binary exponent) or "
        "symbolic integers; residues modulo n are exact integers, so every bit is covered.")

Q = 293973345475167247070445277780365744413
N256 = 104668127936413127349237213912862312953803204393519432421018397543811962413729
N10 = 10007


def sym_scalar(h, name, kind, e=0, bits=53):
    """(scalar as the code sees it, exact value)"""
    if kind == "int":
        x = h.int(name, -(2 ** bits), 2 ** bits)
        return x
    neg = h.choose(name + "_neg", 2)
    m = h.int(name, 2 ** 52, 2 ** 53 - 1)
    return scaled(h, -m if neg else m, e)


def scaled(h, m, e):
    if h.symbolic:
        return syms.to_real(m) * Fraction(2) ** e if isinstance(m, SymNum) else float(Fraction(m) * Fraction(2) ** e)
    return float(Fraction(m) * Fraction(2) ** e)


def frexp(h):
    """math.frexp of a symbolic number: forks over its binary exponent"""
    def f(x):
        if not isinstance(x, SymNum) or x.const() is not None:
            import math
            return math.frexp(float(x))
        if h.branch(x == 0):
            return (0.0, 0)
        c = h.c
        a = x if h.branch(x > 0) else -x

        def value_of(model):
            v = frac_of(model.eval(a.rterm(), model_completion=True))
            t = (v.numerator.bit_length() - v.denominator.bit_length()) + 1
            while Fraction(2) ** (t - 1) > v:
                t -= 1
            while Fraction(2) ** t <= v:
                t += 1
            return t
        t = c.enum(value_of, lambda t: b_expr(b_and(a >= Fraction(2) ** (t - 1), a < Fraction(2) ** t)), 200)
        return (x / (Fraction(2) ** t), t)
    return f


def start(h):
    h.world()
    if h.symbolic:
        h.hooks["math.frexp"] = frexp(h)
        h.hooks["modfork"] = 5000
    return h.cls("ml.secureprotol.fixedpoint", "FixedPointNumber")


def near(h, got, want, scale, msg, key, bits=48):
    """|got - want| <= |scale| * 2**-bits  (scale: list of magnitudes, the largest counts)"""
    h.observe(got)
    if h.symbolic:
        d = got - want
        ok = []
        for s in scale:
            t = Fraction(1, 2 ** bits)
            ok.append(h.land(d <= s * t, d >= -(s * t)))
            ok.append(h.land(d <= -(s * t), d >= s * t))
        h.check(h.lor(*ok), msg, key)
    else:
        g, w = Fraction(got), Fraction(want)
        s = max([abs(Fraction(x)) for x in scale] + [Fraction(0)])
        h.check(abs(g - w) <= s / 2 ** (bits - 1), msg + ": %r instead of %r" % (float(g), float(w)), key)


def exact(h, got, want, msg, key):
    h.observe(got)
    if h.symbolic:
        h.check(h.eq(got, want), msg, key)
    else:
        h.check(Fraction(got) == Fraction(want), msg + ": %r instead of %r" % (got, want), key)


def mod_of(n):
    return {} if n is None else dict(n=n, max_int=n // 3 - 1)


def roundtrip_int(n, bits):
    def fn(h):
        F = start(h)
        x = sym_scalar(h, "x", "int", bits=bits)
        mx = (n or Q) // 3 - 1
        fits = h.branch(h.land(x <= mx, x >= -mx))
        try:
            e = F.encode(x, **mod_of(n))
        except ValueError:
            return h.check(not fits, "a number that fits was refused", "refused")
        h.check(fits, "a number that does not fit was accepted", "accepted")
        exact(h, e.decode(), x, "integer round trip", "int")
        h.check(h.land(e.encoding >= 0, e.encoding < (n or Q)), "encoding is a residue", "residue")
    return fn


def roundtrip_float(n, exps):
    def fn(h):
        F = start(h)
        e2 = h.pick("e", exps)
        x = sym_scalar(h, "x", "float", e2)
        mx = h.pick("maxexp", [None, 0, 20])
        kw = mod_of(n)
        if mx is not None:
            kw["max_exponent"] = mx
        try:
            e = F.encode(x, **kw)
        except ValueError:
            M = (n or Q) // 3 - 1
            big = Fraction(2) ** 53 * Fraction(16) ** (mx if mx is not None else -10 ** 3) * Fraction(2) ** e2
            return h.check(mx is not None and big > M or M < 2 ** 53, "a number that fits was refused", "refused")
        tiny = h.branch(h.land(x < 1e-200, x > -1e-200))
        if tiny:
            exact(h, e.decode(), 0, "a magnitude below 1e-200 encodes as zero", "tiny")
        else:
            near(h, e.decode(), x, [x], "float round trip", "float")
        h.check(h.land(e.encoding >= 0, e.encoding < (n or Q)), "encoding is a residue", "residue")
    return fn


def decode_guard(n):
    def fn(h):
        F = start(h)
        N = n or Q
        mx = N // 3 - 1
        enc = h.int("enc", 0, 2 * N)
        ex = h.pick("ex", [-3, 0, 2, 13])
        f = F(enc, ex) if n is None else F(enc, ex, n, mx)
        pos = h.branch(enc <= mx)
        neg = h.branch(h.land(enc >= N - mx, enc < N))
        try:
            v = f.decode()
        except (ValueError, OverflowError):
            return h.check(not pos and not neg, "a valid encoding was refused", "refused")
        h.check(pos or neg, "a value in the gap or beyond the modulus was decoded", "gap")
        w = enc if pos else enc - N
        near(h, v, value(h, w, ex), [value(h, w, ex)], "decoded value", "value", bits=51)
    return fn


def value(h, m, ex):
    """m * 16**-ex exactly"""
    k = Fraction(16) ** -ex
    if h.symbolic and isinstance(m, SymNum):
        return syms.to_real(m) * k
    return Fraction(m) * k


def operand(h, name, F, n, ex, bits, low=0):
    """an encoding built directly: mantissa M (symbolic), exponent ex -> (encoding object, exact value, M)"""
    N = n or Q
    M = h.int(name, 0 if not low else 2 ** (bits - low), 2 ** bits)
    neg = h.choose(name + "_neg", 2)
    if neg:
        h.assume(M > 0)
    enc = N - M if neg else M
    f = F(enc, ex) if n is None else F(enc, ex, n, N // 3 - 1)
    m = -M if neg else M
    return f, value(h, m, ex), m


def fits(h, m, k, N):
    """m * 16**k stays within the plaintext space"""
    b = (N // 3 - 1) // 16 ** k
    return h.land(m <= b, m >= -b)


OPS = ["add", "radd", "sub", "rsub", "neg"]


def addsub(n, pairs, kinds, bits=53):
    def fn(h):
        F = start(h)
        N = n or Q
        ea, eb = h.pick("exps", pairs)
        a, va, ma = operand(h, "a", F, n, ea, bits)
        kind = h.pick("kind", kinds)
        op = h.pick("op", ["add", "sub", "radd", "rsub"])
        if kind == "enc":
            b, vb, mb = operand(h, "b", F, n, eb, bits, 6 if op == "sub" else 0)
            h.assume(fits(h, ma, max(0, eb - ea), N // 2))
            h.assume(fits(h, mb, max(0, ea - eb), N // 2))
            if op in ("radd", "rsub"):
                h.assume(False)
            if op == "sub" and eb > 0:
                # the subtrahend is re-encoded as a double, whose exponent may be up to (60 - bits) / 4 larger
                h.assume(fits(h, ma, max(0, eb + (60 - bits) // 4 - ea), N // 2))
                h.assume(fits(h, mb, max(0, ea - eb, (60 - bits) // 4), N // 2))
        elif kind == "int":
            b = vb = h.int("b", -(2 ** 20), 2 ** 20)
            h.assume(fits(h, b, max(0, ea), N // 2))
            h.assume(fits(h, ma, max(0, -ea), N // 2))
        else:
            e2 = h.pick("e2", [-52, -60, -30, 3])
            b = vb = sym_scalar(h, "b", "float", e2)
            if not h.symbolic:
                vb = Fraction(b)
            h.assume(fits(h, ma, max(0, 14 - ea + (-(e2 + 52)) // 4 + 1), N // 2))
        if op == "add":
            r, want = a + b, va + vb
        elif op == "radd":
            r, want = b + a, va + vb
        elif op == "sub":
            r, want = a - b, va - vb
        else:
            r, want = b - a, vb - va
        near(h, r.decode(), want, [va, vb], "%s of encodings (%s)" % (op, kind), op)
        h.check(r.n == N and r.max_int == N // 3 - 1, "the result keeps the modulus", "modulus")
        # the operand keeps its value
        near(h, a.decode(), va, [va], "operand after %s" % op, "operand", bits=51)
    return fn


def muldiv(n, exps, consts, bits=40):
    def fn(h):
        F = start(h)
        N = n or Q
        a, va, ma = operand(h, "a", F, n, h.pick("ea", exps), bits, 3)
        c = h.pick("c", consts)
        op = h.pick("op", ["mul", "rmul", "div", "mulenc", "divenc", "rdiv", "rdivenc"])
        cf = Fraction(c)
        kw = mod_of(n)
        if op == "mul":
            r, want = a * c, va * cf
        elif op == "rmul":
            r, want = c * a, va * cf
        elif op == "mulenc":
            r, want = a * F.encode(c, **kw), va * cf
        elif op == "div":
            r, want = a / c, va * (1 / cf)
        elif op == "divenc":
            r, want = a / F.encode(c, **kw), va * (1 / cf)
        elif op == "rdiv":
            # symbolic number divided by a constant encoding
            x = h.int("x", 2 ** 28, 2 ** 30)
            if h.choose("xneg", 2):
                x = -x
            r, want = x / F.encode(c, **kw), value(h, x, 0) * (1 / cf)
        else:
            r, want = a / F.encode(c, **kw), va * (1 / cf)
        near(h, r.decode(), want, [want], "%s of an encoding by %r" % (op, c), op, bits=46)
        h.check(r.n == N and r.max_int == N // 3 - 1, "the result keeps the modulus", "modulus")
    return fn


def mulsym(n, bits):
    def fn(h):
        F = start(h)
        a, va, ma = operand(h, "a", F, n, 0, bits)
        b, vb, mb = operand(h, "b", F, n, 0, bits)
        exact(h, (a * b).decode(), va * vb, "product of integer encodings", "mul")
    return fn


def compare(n, pairs, bits):
    def fn(h):
        F = start(h)
        ea, eb = h.pick("exps", pairs)
        a, va, ma = operand(h, "a", F, n, ea, bits)
        if h.choose("plain", 2):
            b = vb = h.int("b", -(2 ** 30), 2 ** 30)
        else:
            b, vb, mb = operand(h, "b", F, n, eb, bits)
        op = h.pick("op", ["<", ">", "<=", ">=", "==", "!="])
        got = {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
               "==": lambda: a == b, "!=": lambda: a != b}[op]()
        want = {"<": va < vb, ">": va > vb, "<=": va <= vb, ">=": va >= vb, "==": va == vb, "!=": va != vb}[op]
        h.check(h.eq(want, True) if got else h.lnot(want), "comparison %s" % op, "cmp" + op)
        h.check(got is True or got is False, "a comparison answers a bool", "bool")
    return fn


def raising(n, bits):
    def fn(h):
        F = start(h)
        N = n or Q
        ex = h.pick("ex", [-2, 0, 5])
        a, va, ma = operand(h, "a", F, n, ex, bits)
        d = h.int("d", -3, 6)
        dd = h.value(d)
        if dd < 0:
            h.expect((ValueError,), a.increase_exponent_to, ex + dd, key="lower", msg="lowering the exponent was accepted")
            return
        h.assume(fits(h, ma, dd, N))
        r = a.increase_exponent_to(ex + dd)
        h.check(r.exponent == ex + dd, "the exponent is the requested one", "exponent")
        near(h, r.decode(), va, [va], "value after raising the exponent", "raise", bits=51)
        near(h, a.decode(), va, [va], "operand", "operand", bits=51)
    return fn


def numpy_scalars(n):
    """numbers as they come out of arrays"""
    def fn(h):
        import numpy as np
        F = start(h)
        t = h.pick("type", [np.int16, np.int32, np.int64, np.float64, int, float])
        if t in (float, np.float64):
            v = h.pick("float", [0.0, -0.1, 1.5, -3.0, 2.0 ** 40, 1e-9, 12345.678])
        else:
            lim = {np.int16: 15, np.int32: 31}.get(t, 63)
            v = h.pick("int", [0, 1, -1, 255, -2 ** (lim - 1), 2 ** (lim - 1) - 1])
        x = t(v)
        a = F.encode(x, **mod_of(n))
        k = h.pick("k", [-7, 1, 1000])
        near(h, Fraction(a.decode()), Fraction(v), [Fraction(v)], "round trip of a %s" % t.__name__, "numpy")
        near(h, Fraction((a * k).decode()), Fraction(v) * k, [Fraction(v) * k], "product with a %s" % t.__name__, "numpy", bits=46)
        b = F.encode(k, **mod_of(n))
        near(h, Fraction((b + x).decode()), Fraction(v) + k, [Fraction(v), k], "sum with a %s" % t.__name__, "numpy", bits=46)
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [Case("numpy-Q", numpy_scalars(None), bounds="numpy integers and doubles"), Case("numpy-n256", numpy_scalars(N256), bounds="numpy integers and doubles")]
    fl = [-1074 + 60, -720, -717, -300, -121, -53, -52, -51, -50, -49, -20, 0, 1, 40, 500]
    if big:
        fl = sorted(set(fl + list(range(-130, 60, 3)) + list(range(-725, -712)) + list(range(400, 971, 57))))
    for nm, n in (("Q", None), ("n256", N256), ("n10007", N10)):
        out.append(Case("int-" + nm, roundtrip_int(n, 300), bounds="all integers of up to 300 bits"))
        out.append(Case("decode-" + nm, decode_guard(n), bounds="all encodings 0..2n, 4 exponents"))
        if n != N10:
            out.append(Case("float-" + nm, roundtrip_float(n, fl), bounds="every 53-bit mantissa and sign, binary exponents %s" % fl))
            pairs = [(0, 0), (0, 3), (13, 13), (13, 5), (2, 11), (-2, 4)]
            if big:
                pairs += [(x, y) for x in range(-3, 15, 2) for y in range(-3, 15, 3)]
            out.append(Case("addsub-" + nm, addsub(n, pairs, ["enc", "int", "float"], 53 if n else 44),
                            bounds="mantissas of %d bits, exponent pairs %s" % (53 if n else 44, pairs)))
            out.append(Case("muldiv-" + nm, muldiv(n, [0, 3, 9] if not big else [-2, 0, 1, 3, 6, 9, 11],
                                                   [2, -3, 0.5, -0.1, 7.25, 1e-3] + ([1e5, -1e-7, 3.3, 1, -1, 12345] if big else [])),
                            bounds="40-bit mantissas, listed constants on the other side"))
            out.append(Case("mul-" + nm, mulsym(n, 30), bounds="30-bit integer mantissas on both sides"))
            out.append(Case("compare-" + nm, compare(n, [(0, 0), (0, 4), (5, 2), (-1, 3), (13, 13)], 50), bounds="50-bit mantissas"))
            out.append(Case("raise-" + nm, raising(n, 60), bounds="60-bit mantissas, exponent change -3..6"))
    return out
