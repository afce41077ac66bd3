"""C28: numeric helpers."""
from symx.runner import Case
from checks.common import array, instance, sep

DESC = ("fate_operator's dot, reduce_add and norm, the convergence criteria over sequences of symbolic losses and weights, and "
        "gmpy_math's modular power and inverse on symbolic operands, compared with their definitions.")
OP = "ml.utils.fate_operator"
CONV = "ml.optim.convergence"
GM = "ml.secureprotol.gmpy_math"


def vec(h, kind, xs):
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    return array(h, xs)


def settled(h, x):
    """far from the 1e-5 band"""
    h.assume(h.lor(x == 0, x >= 0.001, x <= -0.001))


def dot1(n, kind, free=None):
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        m = h.mod(OP)
        xs, ws = h.reals("x", n, -10, 10), h.reals("w", n, -10, 10)
        if free is not None:
            xs = [x if i in free else 0.5 * i - 1 for i, x in enumerate(xs)]
        for i, x in enumerate(xs):
            if free is None or i in free:
                settled(h, x)
        arg = instance(h, xs) if kind == "instance" else vec(h, kind, xs)
        got = m.dot(arg, array(h, ws))
        h.close(got, h.total([a * b for a, b in zip(xs, ws)]), "the inner product", "dot")
    return fn


def dot_small(n):
    """entries inside the band change the result by at most 1e-5 times the weight"""
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        m = h.mod(OP)
        xs, ws = h.reals("x", n, -2e-5, 2e-5), h.reals("w", n, 1, 10)
        got = m.dot(array(h, xs), array(h, ws))
        d = got - h.total([a * b for a, b in zip(xs, ws)])
        lim = h.total(ws) * 1.001e-5
        h.check(h.land(d <= lim, -d <= lim), "only entries below 1e-5 are skipped", "skip")
    return fn


def dot2(rows, n, cols):
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        m = h.mod(OP)
        np = h.w.shims["numpy"] if h.symbolic else __import__("numpy")
        xs = [h.reals("x%d_" % r, n, -10, 10) for r in range(rows)]
        for r in xs:
            for x in r:
                settled(h, x)
        if cols:
            ws = [h.reals("w%d_" % r, cols, -10, 10) for r in range(n)]
            got = m.dot(np.array(xs), np.array(ws))
            h.check(tuple(got.shape) == (rows, cols), "the shape of the product", "shape")
            for i in range(rows):
                for j in range(cols):
                    h.close(got[i][j], h.total([xs[i][k] * ws[k][j] for k in range(n)]), "the matrix product", "dot")
        else:
            ws = h.reals("w", n, -10, 10)
            got = m.dot(np.array(xs), array(h, ws))
            h.check(len(got) == rows, "one value per row", "shape")
            for i in range(rows):
                h.close(got[i], h.total([a * b for a, b in zip(xs[i], ws)]), "the inner product of each row", "dot")
    return fn


def reduce_add(n):
    def fn(h):
        h.world()
        m = h.mod(OP)
        miss = h.choose("missing", 4)
        kind = h.pick("kind", ["scalar", "list", "array"])
        xs, ys = h.reals("x", n, -10, 10), h.reals("y", n, -10, 10)
        make = (lambda v: v[0]) if kind == "scalar" else (lambda v: vec(h, kind, v))
        x = None if miss & 1 else make(xs)
        y = None if miss & 2 else make(ys)
        got = m.reduce_add(x, y)
        if miss == 3:
            h.check(got is None, "nothing plus nothing is nothing", "none")
            return
        want = ys if miss == 1 else xs if miss == 2 else [a + b for a, b in zip(xs, ys)]
        if kind == "scalar":
            h.close(got, want[0], "the sum, a missing operand is neutral", "sum")
        else:
            h.check(len(got) == n, "one value per element", "shape")
            for i in range(n):
                h.close(got[i], want[i], "the sum, a missing operand is neutral", "sum")
        if miss == 0 and kind != "scalar":
            for i in range(n):
                h.close(x[i], xs[i], "the operands are not altered", "alter")
                h.close(y[i], ys[i], "the operands are not altered", "alter")
    return fn


def norm(n, free=None):
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        m = h.mod(OP)
        xs = h.reals("x", n, -10, 10)
        if free is not None:
            xs = [x if i in free else 0.5 * i - 1 for i, x in enumerate(xs)]
        kind = h.pick("kind", ["array", "list"])
        p = h.pick("p", [None, 1, 2, 3])
        got = m.norm(vec(h, kind, xs)) if p is None else m.norm(vec(h, kind, xs), p)
        if p == 1:
            h.close(got, h.total([h.ite(x >= 0, x, -x) for x in xs]), "the sum of the magnitudes", "norm")
        elif p == 3:
            h.check(h.le(0, got), "a norm is not negative", "norm")
            h.close(got * got * got, h.total([h.ite(x >= 0, x, -x) * x * x for x in xs]), "the cube root of the sum of cubes", "norm", tol=1e-6)
        else:
            h.check(h.le(0, got), "a norm is not negative", "norm")
            h.close(got * got, h.total([x * x for x in xs]), "the square root of the sum of squares", "norm", tol=1e-6)
    return fn


def norm_reject():
    def fn(h):
        h.world()
        m = h.mod(OP)
        p = h.real("p", -5, 1)
        h.assume(p < 1)
        h.expect(ValueError, m.norm, array(h, [1.0, 2.0]), p, key="reject", msg="p below 1 is rejected")
    return fn


def diff(n):
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        D = h.cls(CONV, "DiffConverge")
        eps = h.real("eps", 0, 2)
        first = h.choose("first", 2)
        ls = h.reals("l", n, -5, 5)
        prev = h.real("prev", -5, 5) if first else None
        c = D(pre_loss=prev, eps=eps) if first else D(eps=eps)
        for l in ls:
            got = c.is_converge(l)
            if prev is None:
                h.check(h.lnot(got), "never on the first loss", "first")
            else:
                d = h.ite(l >= prev, l - prev, prev - l)
                h.assume(h.lor(d - eps >= 1e-6, eps - d >= 1e-6))
                h.check(h.eq(h.num(got), h.num(d < eps)), "exactly when the change is below the tolerance", "diff")
            prev = l
            h.close(c.pre_loss, l, "the last loss is remembered", "remember")
    return fn


def diff_edge():
    """a change of exactly the tolerance (numbers that doubles hold exactly) is not below it"""
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        D = h.cls(CONV, "DiffConverge")
        prev, l, eps = [h.int(nm, lo, 2) / 4 for nm, lo in (("prev", -2), ("l", -2), ("eps", 0))]
        c = D(pre_loss=prev, eps=eps)
        d = h.ite(l >= prev, l - prev, prev - l)
        h.check(h.eq(h.num(c.is_converge(l)), h.num(d < eps)), "exactly when the change is below the tolerance", "diff")
    return fn


def absolute():
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        A = h.cls(CONV, "AbsConverge")
        eps = h.real("eps", 0, 2)
        c = A(eps=eps)
        for i in range(2):
            l = h.real("l%d" % i, -1, 5)
            h.check(h.eq(h.num(c.is_converge(l)), h.num(l <= eps)), "exactly when the loss is not above the tolerance", "abs")
    return fn


def weight(n, steps):
    def fn(h):
        h.hooks["abs"] = "fork"
        h.world()
        W = h.cls(CONV, "WeightDiffConverge")
        eps = h.pick("eps", [0.0625, 0.5])
        c = W(eps=eps)
        prev = None
        for s in range(steps):
            ws = h.reals("w%d_" % s, n, -3, 3)
            got = c.is_converge(array(h, ws))
            if prev is None:
                h.check(h.lnot(got), "never on the first weights", "first")
            else:
                d2 = h.total([(a - b) * (a - b) for a, b in zip(ws, prev)])
                n2 = h.total([a * a for a in ws])
                lim = eps * eps * h.ite(n2 > 1, n2, 1)
                h.assume(h.lor(d2 - lim >= 1e-6, lim - d2 >= 1e-6))
                h.check(h.eq(h.num(got), h.num(d2 < lim)), "exactly when the relative change is below the tolerance", "weight")
            prev = ws
            for i in range(n):
                h.close(c.pre_weight[i], ws[i], "the last weights are remembered", "remember")
    return fn


def powmod(mods, exps, lim):
    def fn(h):
        h.hooks["modpoly"] = True
        h.world()
        m = h.mod(GM)
        c = h.pick("modulus", mods)
        e = h.pick("exponent", exps)
        a = h.int("a", 0, lim)
        got = m.powmod(a, e, c)
        want = 1
        for _ in range(e):
            want = (want * a) % c
        h.check(got == want % c, "a**b mod c", "powmod")
        h.check(h.land(0 <= got, got < c), "reduced", "powmod")
    return fn


def invert(mods):
    def fn(h):
        import math
        h.world()
        m = h.mod(GM)
        b = h.pick("modulus", mods)
        a = h.value(h.int("a", 0, 30))
        if math.gcd(a, b) != 1:
            h.expect(ZeroDivisionError, m.invert, a, b, key="noinverse", msg="no inverse: ZeroDivisionError")
            return
        x = m.invert(a, b)
        h.check(h.land((a * x) % b == 1 % b, 0 < x, x < b), "a times the inverse is 1", "invert")
    return fn


def invert_contract():
    """whatever gmpy2 answers within its contract (an inverse, or 0 or an exception when there is none) is passed on"""
    def fn(h):
        h.world()
        m = h.mod(GM)
        b = h.pick("modulus", [2 ** 64 - 59, 2 ** 89 - 1, 2 ** 127 - 1])
        mode = h.choose("mode", 3)
        a = 12345678901234567 * 3 + h.choose("a", 3)
        calls = []

        def answer(x, y):
            calls.append((x, y))
            if mode == 0:
                return pow(x, -1, y)
            if mode == 1:
                return 0
            raise ZeroDivisionError("invert() no inverse exists")
        h.w.hooks["gmpy2.invert"] = answer
        if mode == 0:
            x = m.invert(a, b)
            h.check((a * x) % b == 1 and 0 < x < b, "a times the inverse is 1", "invert")
        else:
            h.expect(ZeroDivisionError, m.invert, a, b, key="noinverse", msg="no inverse: ZeroDivisionError")
    return fn


BIG = [2 ** 64 - 59, 2 ** 64, 2 ** 64 + 13, 2 ** 89 - 1]


def cases(tier):
    big = tier == "thorough"
    out = [Case("dot-%s" % k, dot1(2, k), bounds="2 entries") for k in ("array", "list", "instance")]
    out += [
        Case("dot-3", dot1(3, "array"), bounds="3 entries"),
        Case("dot-9", dot1(9, "array", (0, 4, 8)), bounds="9 entries, three of them and all weights any"),
        Case("dot-9-list", dot1(9, "list", (5,)), bounds="9 entries, one of them and all weights any"),
        Case("norm-6", norm(6, (4,)), bounds="6 entries, one of them any"),
        Case("dot-small", dot_small(2), bounds="2 entries up to 2e-5"),
        Case("dot-rows", dot2(2, 2, 0), bounds="2x2 matrix and vector"),
        Case("dot-tall", dot2(3, 1, 0), bounds="3x1 matrix and vector"), Case("dot-wide", dot2(1, 3, 0), bounds="1x3 matrix and vector"),
        Case("dot-matrix", dot2(2, 2, 2), bounds="2x2 matrices"),
        Case("reduce-add", reduce_add(2), bounds="2 entries"),
        Case("norm-1", norm(1), bounds="1 entry"), Case("norm-3", norm(3), bounds="3 entries, p 1 and 2"),
        Case("norm-reject", norm_reject(), bounds="p in [-5,1)"),
        Case("diff", diff(3), bounds="3 losses in [-5,5], tolerance in [0,2]"),
        Case("diff-edge", diff_edge(), bounds="multiples of 1/4 in [-1/2,1/2]"),
        Case("abs", absolute(), bounds="2 losses"),
        Case("weight", weight(2, 2), bounds="2 weights, 2 rounds"),
        Case("weight-1", weight(1, 3), bounds="1 weight, 3 rounds"),
        Case("powmod-small", powmod([2, 3, 10, 97], [0, 1, 2, 3], 500), bounds="base up to 500"),
        Case("powmod-large", powmod(BIG, [0, 1, 2], 2 ** 66), bounds="base up to 2**66, moduli around 2**64 and 2**89"),
        Case("invert", invert([2, 3, 8, 9, 12, 30, 31]), bounds="operand up to 30"),
        Case("invert-contract", invert_contract(), bounds="large moduli"),
    ]
    if big:
        out += [Case("dot-4", dot1(4, "array"), bounds="4 entries"), Case("diff-5", diff(5), bounds="5 losses"),
                Case("norm-4", norm(4), bounds="4 entries"), Case("powmod-5", powmod([97, 101, 1000], [4, 5, 7], 500), bounds="exponent up to 7"),
                Case("dot-rows-3", dot2(3, 2, 0), bounds="3x2"), Case("weight-3", weight(2, 3), bounds="3 rounds")]
    return out
