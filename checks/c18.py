"""C18: gradients and hessians are the derivatives of the loss."""
import math
from symx.runner import Case
from symx.dual import Dual
from checks.common import table, array

DESC = ("The real compute_loss of every objective runs on one-sample tables whose raw score is a truncated Taylor number "
        "(value, first and second derivative, all symbolic); the derivatives that come out are compared with compute_grad and "
        "compute_hess on the plain symbolic score. Exponentials, logarithms and roots are solver variables with their axioms.")
REG = "ml.loss.regression_loss"
CE = "ml.loss.cross_entropy"


def one(x):
    """the number in a one-element result"""
    if hasattr(x, "shape") and getattr(x, "shape", ()) != () and x.size == 1:
        return x.reshape(-1)[0]
    return x


def derivs(x):
    x = one(x)
    if type(x) is Dual:
        return x.v, x.d, x.e
    return x, 0.0, 0.0


def make(h, name):
    m = h.mod(CE if "CrossEntropy" in name else REG)
    L = getattr(m, name)
    if name == "HuberLoss":
        return L(h.real("delta", 0.25, 4))
    if name == "FairLoss":
        return L(h.real("c", 0.25, 4))
    if name == "TweedieLoss":
        return L(1.5)
    return L()


def setup(h):
    h.hooks["abs"] = "fork"
    h.hooks["expsplit"] = True
    h.hooks["cancel"] = True
    h.hooks["noobs"] = True
    h.world()


def arr(h, xs):
    if h.symbolic:
        return h.w.shims["numpy"].array(xs)
    import numpy as np
    out = np.empty(len(xs), dtype=object)
    out[:] = xs
    return out


def regression(name, shape, lim=3, lo=None, key=""):
    """shape: "scalar" or "array" (a one-element score array, as training keeps it)"""
    def fn(h):
        setup(h)
        loss = make(h, name)
        y = h.real("y", 0 if name == "TweedieLoss" else -lim, lim)
        s = h.real("s", lo if lo is not None else -lim, lim)
        if name == "LogCoshLoss" and h.symbolic:
            s.exp(), y.exp()
        if name in ("LeastAbsoluteErrorLoss",):
            h.assume(h.lor(s - y > 0.01, y - s > 0.01))
        box = (lambda v: arr(h, [v])) if shape == "array" else (lambda v: v)
        got = loss.compute_loss(table(h, [("a", y)]), table(h, [("a", loss.predict(box(Dual(s, 1, 0))))]))
        v, d, e = derivs(got)
        pred = loss.predict(array(h, [s]) if shape == "array" else s)
        g = one(loss.compute_grad(y, pred))
        hs = one(loss.compute_hess(y, pred))
        h.close(g, d, "the gradient is the derivative of the loss", key + "gradient", tol=1e-6)
        if name == "LeastAbsoluteErrorLoss":
            h.close(hs, 1, "the hessian of the absolute error is 1", key + "hessian")
        else:
            h.close(hs, e, "the hessian is the second derivative of the loss", key + "hessian", tol=1e-6)
    return fn


def absolute(shape):
    """sign of the residual, zero inside the band"""
    def fn(h):
        setup(h)
        loss = make(h, "LeastAbsoluteErrorLoss")
        y = h.real("y", -3, 3)
        s = h.real("s", -3, 3)
        d = s - y
        for b in (1e-6, -1e-6):
            h.assume(h.lor(d - b >= 1e-9, b - d >= 1e-9))
        want = h.ite(d > 1e-6, 1, h.ite(d < -1e-6, -1, 0))
        g = loss.compute_grad(y, array(h, [s]) if shape == "array" else s)
        h.close(one(g), want, "the sign of the residual", "sign")
        h.close(one(loss.compute_hess(y, array(h, [s]) if shape == "array" else s)), 1, "hessian 1", "hessian")
    return fn


def elementwise(name, n):
    """an array of scores gives the gradients and hessians of its elements, and leaves its arguments alone"""
    def fn(h):
        setup(h)
        loss = make(h, name)
        ys = h.reals("y", n, 0.5, 3)
        ss = h.reals("s", n, 0.5, 3)
        if h.symbolic and name == "LogCoshLoss":
            for v in ys + ss:
                v.exp()
        if name == "LeastAbsoluteErrorLoss":
            for a, b in zip(ys, ss):
                h.assume(h.lor(a == b, a - b > 0.01, b - a > 0.01))
        ya, sa = array(h, ys), array(h, ss)
        for what in ("compute_grad", "compute_hess"):
            got = getattr(loss, what)(ya, sa)
            h.check(getattr(got, "shape", None) == (n,), "one value per element", "shape")
            for i in range(n):
                h.close(got[i], getattr(loss, what)(ys[i], ss[i]), "arrays and scalars agree", "array")
                h.close(sa[i], ss[i], "the scores are not altered", "alter")
                h.close(ya[i], ys[i], "the labels are not altered", "alter")
    return fn


def binary(shape):
    def fn(h):
        setup(h)
        loss = make(h, "SigmoidBinaryCrossEntropyLoss")
        y = h.choose("label", 2)
        s = h.real("s", -6, 6)
        box = (lambda v: arr(h, [v])) if shape == "array" else (lambda v: v)
        got = loss.compute_loss(table(h, [("a", y)]), table(h, [("a", loss.predict(box(Dual(s, 1, 0))))]))
        v, d, e = derivs(got)
        p = loss.predict(array(h, [s]) if shape == "array" else s)
        h.close(one(loss.compute_grad(y, p)), d, "the gradient is the derivative of the loss", "gradient", tol=1e-6)
        h.close(one(loss.compute_hess(y, p)), e, "the hessian is the second derivative of the loss", "hessian", tol=1e-6)
    return fn


def softmax(k):
    def fn(h):
        setup(h)
        loss = make(h, "SoftmaxCrossEntropyLoss")
        y = h.choose("label", k)
        ss = h.reals("s", k, -4, 4)
        p = loss.predict(array(h, ss))
        g = loss.compute_grad(y, p)
        hs = loss.compute_hess(y, p)
        h.check(len(g) == k and len(hs) == k, "one gradient per class", "shape")
        for j in range(k):
            duals = [Dual(v, 1 if i == j else 0, 0) for i, v in enumerate(ss)]
            got = loss.compute_loss(table(h, [("a", y)]), table(h, [("a", loss.predict(arr(h, duals)))]))
            v, d, e = derivs(got)
            h.close(g[j], d, "the gradient is the derivative of the loss", "gradient", tol=1e-6)
            h.close(hs[j], e, "the hessian is the second derivative of the loss", "hessian", tol=1e-6)
        # the probabilities are not altered
        q = loss.predict(array(h, ss))
        for j in range(k):
            h.close(p[j], q[j], "the probabilities are not altered", "alter")
    return fn


def mean(name, n, k=3):
    """the loss over a table is the mean of the losses of its samples"""
    def fn(h):
        setup(h)
        loss = make(h, name)
        if name == "SoftmaxCrossEntropyLoss":
            ys = [h.choose("y%d" % i, k) for i in range(n)]
            ps = [array(h, h.reals("p%d_" % i, k, 0.05, 0.95)) for i in range(n)]
        elif name == "SigmoidBinaryCrossEntropyLoss":
            ys = [h.choose("y%d" % i, 2) for i in range(n)]
            ps = [array(h, [h.real("p%d" % i, 0.05, 0.95)]) for i in range(n)]
        else:
            ys = h.reals("y", n, 0.5, 3)
            ps = [array(h, [h.real("p%d" % i, 0.5, 3)]) if name != "TweedieLoss" else h.real("p%d" % i, 0.5, 3)
                  for i in range(n)]
        keys = ["a", "b", "c", "d"][:n]
        whole = one(loss.compute_loss(table(h, list(zip(keys, ys))), table(h, list(reversed(list(zip(keys, ps)))))))
        singles = [one(loss.compute_loss(table(h, [(kk, y)]), table(h, [(kk, p)]))) for kk, y, p in zip(keys, ys, ps)]
        h.close(whole, h.total(singles) / n, "the loss is the mean over the samples", "mean", tol=1e-6)
        for s in singles:
            h.observe(s)
    return fn


def formula(name, lim=3):
    """the per-sample loss is the documented formula"""
    def fn(h):
        setup(h)
        if name in ("HuberLoss", "FairLoss"):
            q = h.real("scale", 0.25, 4)
            loss = getattr(h.mod(REG), name)(q)
        else:
            loss = make(h, name)
        ln = (lambda x: x.log() if hasattr(x, "log") else math.log(x))
        exp = (lambda x: x.exp() if hasattr(x, "exp") else math.exp(x))
        if name == "SigmoidBinaryCrossEntropyLoss":
            y, s = h.choose("y", 2), h.real("p", 0.001, 0.999)
        elif name == "SoftmaxCrossEntropyLoss":
            y, s = h.choose("y", 3), array(h, h.reals("p", 3, 0.001, 0.999))
        else:
            y, s = h.real("y", -lim, lim), h.real("s", -lim, lim)
        if name not in ("SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"):
            d = s - y
            a = h.ite(d >= 0, d, -d)
        arg = array(h, [s]) if h.choose("array", 2) and name != "SoftmaxCrossEntropyLoss" else s
        got = one(loss.compute_loss(table(h, [("a", y)]), table(h, [("a", arg)])))
        if name == "LeastSquaredErrorLoss":
            h.close(got, d * d, "the squared residual", "loss")
        elif name == "LeastAbsoluteErrorLoss":
            h.close(got, a, "the size of the residual", "loss")
        elif name == "HuberLoss":
            z = got / (q * q) + 1
            h.check(h.le(1, z), "the pseudo-Huber loss", "loss")
            h.close(z * z, 1 + d * d / (q * q), "the pseudo-Huber loss", "loss", tol=1e-6)
        elif name == "FairLoss":
            h.close(got, q * a - q * q * ln(a / q + 1), "the Fair loss", "loss", tol=1e-6)
        elif name == "LogCoshLoss":
            e = exp(s - y)
            h.close(got, ln((e + 1 / e) / 2), "the logarithm of the hyperbolic cosine of the residual", "loss", tol=1e-6)
        elif name == "SigmoidBinaryCrossEntropyLoss":
            h.close(got, -ln(s if y else 1 - s), "the negative log-likelihood", "loss", tol=1e-6)
        else:
            h.close(got, -ln(s[y]), "the negative log-likelihood", "loss", tol=1e-6)
    return fn


def saturated(h):
    """a probability that rounds to 0 or 1 and is right costs nothing"""
    setup(h)
    n = 2
    ps = [h.real("p%d" % i, 0.05, 0.95) for i in range(n)]
    at = h.choose("at", n + 1)
    if h.choose("multi", 2):
        loss = make(h, "SoftmaxCrossEntropyLoss")
        ys = [h.choose("y%d" % i, 2) for i in range(n)]
        rows = [array(h, [p, 1 - p]) for p in ps]
        parts = [[r[y]] for r, y in zip(rows, ys)]
    else:
        loss = make(h, "SigmoidBinaryCrossEntropyLoss")
        ys = [h.choose("y%d" % i, 2) for i in range(n)]
        rows = [array(h, [p]) for p in ps]
        parts = [[p if y else 1 - p] for p, y in zip(ps, ys)]
    y = h.choose("sat", 2)
    ys.insert(at, y)
    rows.insert(at, array(h, [1.0 - y, float(y)] if "Softmax" in type(loss).__name__ else [float(y)]))
    keys = ["a", "b", "c"]
    import numpy as np
    with np.errstate(all="ignore"):
        got = one(loss.compute_loss(table(h, list(zip(keys, ys))), table(h, list(zip(keys, rows)))))
    ln = (lambda x: x.log() if hasattr(x, "log") else math.log(x))
    h.close(got, h.total([-ln(p) for p, in parts]) / 3, "a certain and right prediction costs nothing", "saturated", tol=1e-6)


def mixed(name, n):
    """one label and an array of scores, as in training"""
    def fn(h):
        setup(h)
        loss = make(h, name)
        y = h.real("y", 0.5, 3)
        ss = h.reals("s", n, 0.5, 3)
        if h.symbolic and name == "LogCoshLoss":
            for v in [y] + ss:
                v.exp()
        if name == "LeastAbsoluteErrorLoss":
            for b in ss:
                h.assume(h.lor(y == b, y - b > 0.01, b - y > 0.01))
        sa = array(h, ss)
        for what in ("compute_grad", "compute_hess"):
            got = getattr(loss, what)(y, sa)
            h.check(getattr(got, "shape", None) == (n,), "one value per element", "shape")
            for i in range(n):
                h.close(got[i], getattr(loss, what)(y, ss[i]), "arrays and scalars agree", "array")
                h.close(sa[i], ss[i], "the scores are not altered", "alter")
    return fn


def defaults():
    """a missing or tiny scale means the smallest scale"""
    def fn(h):
        setup(h)
        name = h.pick("name", ["HuberLoss", "FairLoss"])
        which = h.choose("which", 3)
        L = getattr(h.mod(REG), name)
        loss = L(None) if which == 0 else L(0) if which == 1 else L(h.real("t", -9e-7, 9e-7))
        ref = L(1e-6)
        y, s = h.real("y", -3, 3), h.real("s", -3, 3)
        h.close(loss.compute_grad(y, s), ref.compute_grad(y, s), "the smallest scale is used", "scale", tol=1e-6)
        h.close(loss.compute_hess(y, s), ref.compute_hess(y, s), "the smallest scale is used", "scale", tol=1e-6)
    return fn


REGS = ["LeastSquaredErrorLoss", "LeastAbsoluteErrorLoss", "HuberLoss", "FairLoss", "LogCoshLoss"]


def cases(tier):
    big = tier == "thorough"
    out = []
    for name in REGS:
        for shape in ("scalar", "array"):
            out.append(Case("derivative-%s-%s" % (name, shape), regression(name, shape), bounds="label and score in [-3,3], scale in [0.25,4]"))
        out.append(Case("elementwise-%s" % name, elementwise(name, 2), bounds="2 elements"))
    for shape in ("scalar", "array"):
        out.append(Case("absolute-%s" % shape, absolute(shape), bounds="label and score in [-3,3]"))
        out.append(Case("binary-%s" % shape, binary(shape), bounds="score in [-6,6], both labels"))
    out.append(Case("tweedie-derivative", regression("TweedieLoss", "scalar", lo=0.5), bounds="label in [0,3], score in [0.5,3], rho 1.5"))
    out.append(Case("elementwise-TweedieLoss", elementwise("TweedieLoss", 2), bounds="2 elements"))
    for k in (2, 3):
        out.append(Case("softmax-%d" % k, softmax(k), bounds="%d classes, scores in [-4,4]" % k))
    for name in REGS + ["TweedieLoss", "SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"]:
        out.append(Case("mean-%s" % name, mean(name, 2), bounds="2 samples"))
        out.append(Case("mean3-%s" % name, mean(name, 3), bounds="3 samples"))
    for name in REGS + ["SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"]:
        out.append(Case("formula-%s" % name, formula(name), bounds="label and score in [-3,3] (probabilities in [0.001,0.999]), scale in [0.25,4]"))
    for name in REGS + ["TweedieLoss"]:
        out.append(Case("mixed-%s" % name, mixed(name, 1), bounds="one label, one-element score array"))
        out.append(Case("mixed2-%s" % name, mixed(name, 2), bounds="one label, two scores"))
    out.append(Case("saturated", saturated, bounds="3 samples, one with probability exactly 0 or 1"))
    out.append(Case("defaults", defaults(), bounds="scale None, 0 or below 1e-6"))
    if big:
        for name in REGS:
            out.append(Case("elementwise3-%s" % name, elementwise(name, 3), bounds="3 elements"))
            out.append(Case("wide-%s" % name, regression(name, "array", 30), bounds="label and score in [-30,30]"))
        out.append(Case("softmax-4", softmax(4), bounds="4 classes"))
    return out
