"""C20: activation functions."""
import math
from symx.runner import Case
from checks.common import array

DESC = ("The real activation functions run on symbolic scores; exponentials are positive solver variables ordered like their "
        "arguments, related by exp(a+b)=exp(a)exp(b). Results are compared with the definitions; every exponentiation is "
        "checked to have an argument that cannot overflow.")
ACT = "ml.optim.activation"


def setup(h, guard=False):
    h.hooks["abs"] = "fork"
    h.hooks["expsplit"] = True
    h.hooks["cancel"] = True
    h.hooks["noobs"] = True
    h.world()
    if guard:
        if h.symbolic:
            h.hooks["on_exp"] = lambda x: h.check(x <= 0, "the exponent is never positive", "overflow")
    return h.mod(ACT)


def E(h, x):
    if h.symbolic:
        on = h.hooks.pop("on_exp", None)
        r = x.exp()
        if on:
            h.hooks["on_exp"] = on
        return r
    return math.exp(x)


def LN(h, x):
    return x.log() if h.symbolic and hasattr(x, "log") else math.log(x)


def one(x):
    if hasattr(x, "shape") and getattr(x, "shape", ()) != () and x.size == 1:
        return x.reshape(-1)[0]
    return x


def sigmoid(shape, lim=300):
    def fn(h):
        m = setup(h, True)
        x = h.real("x", -lim, lim)
        e = E(h, x)
        s = one(m.sigmoid(array(h, [x]) if shape == "array" else x))
        h.close(s, e / (1 + e), "1/(1+exp(-x))", "formula")
        h.close(s * (1 + e) / e, 1, "1/(1+exp(-x)), relative to its size", "formula")
        h.check(h.land(h.le(0, s), h.le(s, 1)), "a probability", "range")
    return fn


def sigmoid_monotone():
    def fn(h):
        m = setup(h)
        x, y = h.real("x", -20, 20), h.real("y", -20, 20)
        h.assume(x <= y)
        E(h, x), E(h, y)
        h.check(h.le(m.sigmoid(x), m.sigmoid(y)), "monotone", "monotone")
        h.close(m.sigmoid(x) + m.sigmoid(-x), 1, "sigmoid(-x) = 1 - sigmoid(x)", "symmetry")
    return fn


def softmax(k, rows=0, lim=20, free=None):
    def fn(h):
        m = setup(h, True)
        n = max(rows, 1)
        xs = [h.reals("x%d_" % r, k, -lim, lim) for r in range(n)]
        if free is not None:        # the other scores are equal to one of two free ones
            xs = [[row[i] if i in free else row[free[i % len(free)]] for i in range(k)] for row in xs]
        es = [[E(h, x) for x in row] for row in xs]
        if rows:
            np = h.w.shims["numpy"] if h.symbolic else __import__("numpy")
            arg = np.array([list(r) for r in xs])
        else:
            arg = array(h, xs[0])
        got = m.softmax(arg)
        h.check(tuple(got.shape) == ((rows, k) if rows else (k,)), "the shape of the scores", "shape")
        for r in range(n):
            g = got[r] if rows else got
            tot = h.total(es[r])
            for i in range(k):
                h.close(g[i], es[r][i] / tot, "exp(x_i) / sum exp(x_j)", "formula")
                if k <= 2:
                    h.close(g[i] * tot / es[r][i], 1, "exp(x_i) / sum exp(x_j), relative to its size", "formula")
                h.check(h.land(h.le(0, g[i]), h.le(g[i], 1)), "a probability", "range")
            h.close(h.total(list(g)), 1, "the probabilities sum to one", "sum")
            a = arg[r] if rows else arg
            for i in range(k):
                h.close(a[i], xs[r][i], "the scores are not altered", "alter")
    return fn


def shift(k):
    def fn(h):
        m = setup(h)
        xs = h.reals("x", k, -10, 10)
        c = h.real("c", -10, 10)
        for x in xs:
            E(h, x)
        E(h, c)
        a = m.softmax(array(h, xs))
        b = m.softmax(array(h, [x + c for x in xs]))
        for i in range(k):
            h.close(a[i], b[i], "adding a constant to all scores changes nothing", "shift")
        for i in range(k):
            for j in range(k):
                h.check(h.implies(xs[i] <= xs[j], h.le(a[i], a[j])), "a higher score has a higher probability", "order")
    return fn


def log_logistic(lim=300):
    def fn(h):
        m = setup(h, True)
        x = h.real("x", -lim, lim)
        e = E(h, x)
        s = m.log_logistic(x)
        if h.symbolic:
            want = LN(h, e / (1 + e))
        else:
            want = -math.log1p(math.exp(-x)) if x > 0 else x - math.log1p(math.exp(x))
        h.close(s, want, "log(1/(1+exp(-x)))", "formula")
        h.check(h.le(s, 0), "the logarithm of a probability", "range")
    return fn


def log_logistic_monotone():
    def fn(h):
        m = setup(h)
        x, y = h.real("x", -10, 10), h.real("y", -10, 10)
        h.assume(x <= y)
        ex, ey = E(h, x), E(h, y)
        if h.symbolic:      # logarithms of both as values of one increasing function
            lx, ly = LN(h, ex / (1 + ex)), LN(h, ey / (1 + ey))
        a, b = m.log_logistic(x), m.log_logistic(y)
        if h.symbolic:
            h.close(a, lx, "log(1/(1+exp(-x)))", "formula")
            h.close(b, ly, "log(1/(1+exp(-x)))", "formula")
        else:
            h.check(h.le(a, b), "monotone", "monotone")
    return fn


def softplus():
    def fn(h):
        m = setup(h)
        x = h.real("x", -20, 20)
        e = E(h, x)
        s = one(m.softplus(x))
        h.close(s, LN(h, 1 + e), "log(1+exp(x))", "formula")
        h.check(h.land(h.le(0, s), h.le(x, s)), "at least 0 and at least x", "range")
    return fn


def hard():
    def fn(h):
        m = setup(h)
        n = h.choose("n", 3)
        xs = h.reals("x", max(n, 1), -10, 10)
        got = m.hard_sigmoid(array(h, xs)) if n else [m.hard_sigmoid(xs[0])]
        h.check(len(got) == max(n, 1), "one value per score", "shape")
        for x, g in zip(xs, got):
            y = 0.2 * x + 0.5
            h.close(g, h.ite(y < 0, 0, h.ite(y > 1, 1, y)), "0.2 x + 0.5, clipped to [0,1]", "formula")
    return fn


def softsign():
    def fn(h):
        m = setup(h)
        n = h.choose("n", 3)
        xs = h.reals("x", max(n, 1), -1000, 1000)
        got = m.softsign(array(h, xs)) if n else [m.softsign(xs[0])]
        h.check(len(got) == max(n, 1), "one value per score", "shape")
        for x, g in zip(xs, got):
            a = h.ite(x >= 0, x, -x)
            h.close(g * (1 + a), x, "x / (1+|x|)", "formula", tol=1e-6)
            h.check(h.land(h.le(-1, g), h.le(g, 1)), "between -1 and 1", "range")
        if len(xs) == 2:
            h.check(h.implies(xs[0] <= xs[1], h.le(got[0], got[1])), "monotone", "monotone")
    return fn


def tanh():
    def fn(h):
        m = setup(h)
        n = h.choose("n", 2)
        xs = h.reals("x", n + 1, -10, 10)
        es = [E(h, x) for x in xs]
        got = m.tanh(array(h, xs)) if n else [m.tanh(xs[0])]
        for e, g in zip(es, got):
            h.close(g, (e * e - 1) / (e * e + 1), "the hyperbolic tangent", "formula")
        if n:
            h.check(h.implies(xs[0] <= xs[1], h.le(got[0], got[1])), "monotone", "monotone")
    return fn


def huge():
    """no overflow for any finite double (executed on concrete extremes chosen by the solver's model of the branches)"""
    def fn(h):
        m = setup(h, True)
        x = h.real("x", -1e308, 1e308)
        h.assume(h.lor(x <= -709.8, x >= 709.8))
        h.hooks["underflow"] = True
        which = h.choose("which", 4)
        if not h.symbolic:
            import numpy as np
            with np.errstate(over="raise"):
                return body(h, m, x, which)
        return body(h, m, x, which)

    def body(h, m, x, which):
        if which == 0:
            s = m.sigmoid(x)
            h.check(h.land(h.le(0, s), h.le(s, 1)), "a probability", "range")
        elif which == 1:
            s = m.softmax(array(h, [x, 0.0, -x]))
            for v in s:
                h.check(h.land(h.le(0, v), h.le(v, 1)), "a probability", "range")
        elif which == 3:
            np = h.w.shims["numpy"] if h.symbolic else __import__("numpy")
            s = m.softmax(np.array([[x, 0.0], [0.0, 0.5]]))
            for row in s:
                for v in row:
                    h.check(h.land(h.le(0, v), h.le(v, 1)), "a probability", "range")
                h.close(row[0] + row[1], 1, "the probabilities sum to one", "sum")
        else:
            s = m.log_logistic(x)
            h.check(s <= 0, "a logarithm of a probability", "range")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("sigmoid", sigmoid("scalar"), bounds="score in [-300,300]"),
        Case("sigmoid-array", sigmoid("array"), bounds="one-element array"),
        Case("sigmoid-monotone", sigmoid_monotone(), bounds="two scores in [-20,20]"),
        Case("softmax-1", softmax(1), bounds="1 score"),
        Case("softmax-2", softmax(2, lim=300), bounds="2 scores in [-300,300]"),
        Case("softmax-3", softmax(3), bounds="3 scores in [-20,20]"),
        Case("softmax-6", softmax(6, free=(1, 4)), bounds="6 scores with two different values"),
        Case("softmax-9", softmax(9, free=(8, 3)), bounds="9 scores with two different values"),
        Case("softmax-rows", softmax(2, 2), bounds="2 rows of 2 scores"),
        Case("softmax-rows-3", softmax(3, 2), bounds="2 rows of 3 scores"),
        Case("softmax-shift", shift(3), bounds="3 scores in [-10,10], shift in [-10,10]"),
        Case("log-logistic", log_logistic(), bounds="score in [-300,300]"),
        Case("log-logistic-2", log_logistic_monotone(), bounds="two scores"),
        Case("softplus", softplus(), bounds="score in [-20,20]"),
        Case("hard-sigmoid", hard(), bounds="up to 2 scores in [-10,10]"),
        Case("softsign", softsign(), bounds="up to 2 scores in [-1000,1000]"),
        Case("tanh", tanh(), bounds="up to 2 scores in [-10,10]"),
        Case("huge", huge(), bounds="any finite double beyond 709.8 in size; exponentials below exp(-746) are 0"),
    ]
    if big:
        out += [Case("softmax-4", softmax(4), bounds="4 scores"), Case("softmax-shift-4", shift(4), bounds="4 scores"),
                Case("softmax-rows-33", softmax(3, 3), bounds="3 rows of 3 scores")]
    return out
