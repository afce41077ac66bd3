"""C21: labels and prediction rows."""
from symx.runner import Case
from checks.trees import exact
from checks.boost import Boost, scalar
from checks.common import table
from checks.c19 import conf, Stub

DESC = ("Guest and hosts train and predict over in-memory channels with arbitrary tree outputs and symbolic labels (any integers in any "
        "order, with ties) or labels of other types; the classes used in training are read off the gradients the trees receive, the "
        "prediction rows are compared with the definition; label checks are run on every label pattern.")


def distinct(h, ys):
    """the distinct labels in increasing order (forks)"""
    out = []
    for y in ys:
        if not any(h.branch(y == z) for z in out):
            out.append(y)
    for i in range(len(out)):
        for j in range(i):
            if h.branch(out[i] < out[j]):
                x = out.pop(i)
                out.insert(j, x)
                break
    return out


def where(h, y, cl):
    for i, c in enumerate(cl):
        if i == len(cl) - 1 or h.branch(y == c):
            return i


def binary_row(h, row, label, cl, p, t):
    h.check(len(row) == 4, "a row has four entries", "row")
    h.check(row[0] == label, "the row carries the true label", "true-label")
    h.close(row[2], p, "the score is the probability of the larger label", "score", tol=1e-6)
    if h.branch(row[2] > t):
        h.check(row[1] == cl[1], "above the threshold the larger label is predicted", "predicted")
    else:
        h.check(row[1] == cl[0], "up to the threshold the smaller label is predicted", "predicted")
    d = row[3]
    h.check(isinstance(d, dict) and set(d) == {"0", "1"}, "the detail lists both classes", "detail")
    h.close(d["1"], row[2], "probability of class 1", "detail-1", tol=1e-6)
    h.close(d["0"] + d["1"], exact(h, 1), "the probabilities sum to one", "detail-sum", tol=1e-6)


def multi_row(h, row, label, cl, probs):
    h.check(len(row) == 4, "a row has four entries", "row")
    h.check(row[0] == label, "the row carries the true label", "true-label")
    d = row[3]
    h.check(isinstance(d, dict) and len(d) == len(cl), "the detail lists every class", "detail")
    vals = []
    for c, p in zip(cl, probs):
        h.check(str(c) in d, "the detail is keyed by the labels", "detail-key")
        vals.append(d[str(c)])
        h.close(d[str(c)], p, "the probability of the class", "detail-value", tol=1e-6)
    s = exact(h, 0)
    for v in vals:
        s = s + v
    h.close(s, exact(h, 1), "the probabilities sum to one", "detail-sum", tol=1e-6)
    k = where(h, row[1], cl)
    h.check(row[1] == cl[k], "the prediction is one of the labels", "predicted")
    for v in vals:
        h.check(h.lor(vals[k] >= v, v - vals[k] <= 1e-9), "the predicted class has the highest probability", "highest")
    h.close(row[2], vals[k], "the score is the highest probability", "score", tol=1e-6)


def classify(n, labels=None, split=None, wr=2, rounds=1, thresholds=(0.5,), weights=None, patterns=None, newlabels=None):
    """labels: list of lists to pick from; None: any integers"""
    def fn(h):
        h.hooks["expsplit"] = True
        h.hooks["cancel"] = True
        h.hooks["noobs"] = True
        h.world()
        sp = split or [i % 2 for i in range(n)]
        ks = ["s%d" % i for i in range(n)]
        if labels is None:
            ys = [h.key("y%d" % i, -50, 50) for i in range(n)]
        else:
            ys = h.pick("labels", labels)
        if labels is None and patterns:      # the labels are equal in the given pattern
            for i in range(n):
                for j in range(i):
                    if patterns[i] == patterns[j]:
                        h.assume(ys[i] == ys[j])
                    else:
                        h.assume(h.lnot(ys[i] == ys[j]))
        cl = distinct(h, ys) if labels is None else sorted(set(ys))
        h.assume(len(cl) >= 2)
        if labels is None and h.symbolic:    # equal labels print alike
            h.hooks["str"] = lambda y: "label%d" % where(h, y, cl)
        dim = len(cl) if len(cl) > 2 else 1
        if weights is None:
            W = [(h.real("l%d" % t, -wr, wr), h.real("r%d" % t, -wr, wr)) for t in range(rounds * dim)]
        elif weights == "graded":            # another output for every tree
            W = [(0.25 * t - 0.5, 0.75 - 0.5 * t) for t in range(rounds * dim)]
            j = h.choose("tree", len(W))
            W[j] = (W[j][0], h.real("free", -wr, wr))
        else:
            W = [h.pick("w%d" % t, weights) for t in range(rounds * dim)]
        t = h.real("t", 0, 1) if thresholds is None else h.pick("t", thresholds)
        c = conf("classification", "cross_entropy", rounds, 0.5)
        c["predict_param"] = {"threshold": t}
        rows = {k: [[2.0 if sp[i] else 1.0]] + [[1.0]] * (0 if getattr(h, "alone", False) else 1) for i, k in enumerate(ks)}
        b = Boost(h, rows, dict(zip(ks, ys)), c)
        g, hosts = b.models()
        st = Stub(h, sp, W, ks)
        C = h.mod("ml.loss.cross_entropy")
        for nm in ("SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"):
            getattr(C, nm).compute_loss = staticmethod(lambda y, yp: 1.0)
        b.fit()
        h.check(st.n == rounds * dim, "one score for two classes, one per class for more", "dims")
        for i, k in enumerate(ks):           # the classes the first trees were trained on
            y = where(h, ys[i], cl)
            for d in range(dim):
                gr = scalar(st.inputs[d][k][0])
                want = 0.5 - y if dim == 1 else 1.0 / dim - (1 if y == d else 0)
                h.close(gr, want, "the classes are numbered in sorted order", "class", tol=1e-6)
        np = h.w.shims["numpy"]
        L = C.SigmoidBinaryCrossEntropyLoss if dim == 1 else C.SoftmaxCrossEntropyLoss
        test = dict(zip(ks, newlabels)) if newlabels else dict(zip(ks, ys))
        b.labels = test
        out = b.predict()
        h.check(set(out) == set(ks), "one row per sample", "rows")
        for i, k in enumerate(ks):
            F = [exact(h, 0)] * dim
            for r in range(rounds):
                for d in range(dim):
                    F[d] = F[d] + 0.5 * st.out(r * dim + d, i)
            p = L.predict(np.array(F))
            if dim == 1:
                binary_row(h, out[k], test[k], cl, scalar(p), t)
            else:
                multi_row(h, out[k], test[k], cl, [p[d] for d in range(dim)])
    return fn


def regress(n, objective="lse", params=None):
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        ys = [h.real("y%d" % i, 0.5, 4) for i in range(n)]
        sp = [i % 2 for i in range(n)]
        rows = {k: [[2.0 if sp[i] else 1.0]] + [[1.0]] * (0 if getattr(h, "alone", False) else 1) for i, k in enumerate(ks)}
        b = Boost(h, rows, dict(zip(ks, ys)), conf("regression", objective, 1, 0.5, params=params))
        b.models()
        st = Stub(h, sp, [(h.real("l", -2, 2), h.real("r", -2, 2))], ks)
        R = h.mod("ml.loss.regression_loss")
        for c in vars(R).values():
            if isinstance(c, type) and hasattr(c, "compute_loss"):
                c.compute_loss = staticmethod(lambda *a: 1.0)
                c.compute_grad = staticmethod(lambda *a: [0.0])
                c.compute_hess = staticmethod(lambda *a: [1.0])
        b.fit()
        out = b.predict()
        if objective != "lae":
            m = exact(h, 0)
            for y in ys:
                m = m + y
            m = m / n
        else:
            m = out[ks[0]][2] - 0.5 * st.out(0, 0)
        for i, k in enumerate(ks):
            row = out[k]
            want = m + 0.5 * st.out(0, i)
            h.check(len(row) == 4, "a row has four entries", "row")
            h.check(row[0] == ys[i], "the row carries the true label", "true-label")
            h.close(row[1], want, "the prediction is the score", "predicted", tol=1e-6)
            h.close(row[2], want, "the score", "score", tol=1e-6)
            h.check(isinstance(row[3], dict) and list(row[3]) == ["label"], "the detail holds the score", "detail")
            h.close(row[3]["label"], want, "the detail holds the score", "detail", tol=1e-6)
    return fn


def limit(n, most):
    """at most `most` classes (the limit of 1000 is lowered; limit-1000 looks at the real one)"""
    def fn(h):
        h.world()
        h.mod("ml.utils.consts").MAX_CLASSNUM = most
        ys = [h.key("y%d" % i, -20, 20) for i in range(n)]
        k = len(distinct(h, ys))
        t = table(h, [("s%d" % i, y) for i, y in enumerate(ys)])
        V = h.cls("ml.utils.classfiy_label_checker", "ClassifyLabelChecker")
        if k > most:
            h.expect((ValueError,), V.validate_y, t, key="limit", msg="too many classes are rejected")
        else:
            num, cl = V.validate_y(t)
            h.check(num == k, "number of classes", "number")
            cl = list(cl)
            h.check(len(cl) == k, "one entry per class", "classes")
            for y in ys:
                h.check(h.lor(*[y == c for c in cl]), "every label is a class", "classes")
    return fn


def limit_real(h):
    h.world()
    V = h.cls("ml.utils.classfiy_label_checker", "ClassifyLabelChecker")
    n = h.pick("n", [999, 1000, 1001, 1002])
    off = h.pick("offset", [-3, 0, 1])
    t = table(h, [("s%d" % i, i + off) for i in range(n)] + [("d%d" % i, i + off) for i in range(3)])
    if n > 1000:
        h.expect((ValueError,), V.validate_y, t, key="limit", msg="more than 1000 classes are rejected")
    else:
        num, cl = V.validate_y(t)
        h.check(num == n and len(list(cl)) == n, "number of classes", "number")


def bad_label(h):
    """a label that is not a number, anywhere in the table"""
    h.world()
    ks = ["s0", "s1", "s2"]
    bad = h.pick("bad", ["abc", None, "", [1.0, 2.0], {}, "1,5", object])
    at = h.choose("at", 3)
    ys = [h.real("y%d" % i, -4, 4) for i in range(3)]
    ys[at] = bad
    rows = {k: [[float(i)]] + ([] if getattr(h, "alone", False) else [[1.0]]) for i, k in enumerate(ks)}
    b = Boost(h, rows, dict(zip(ks, ys)), conf("regression", "lse", 1, 0.5))
    g, hosts = b.models()
    b.connect()
    h.expect((ValueError,), g.fit, b.table(0), key="non-numeric", msg="a label that is not a number is rejected")


def cases(tier):
    big = tier == "thorough"
    S = [["yes", "no", "no"], ["a", "b", "a"], [1, 0, 1], [0, 1, 1], [-1, 1, 1], [2, 1, 2], [1.5, -0.5, 1.5], ["10", "9", "9"], [True, False, True],
         [1, 0, 0.0], [10, 9, 9], [-1, -10, -1]]
    M = [["c", "a", "b"], [3, 1, 2], [0, 1, 2], [2, 0, 1], ["10", "9", "1"], [-1, 0, 1], [1.5, 2, -3.25], [10, 9, 100], [-2, -10, 1]]
    out = [
        Case("binary-int", classify(2), bounds="2 samples, any integer labels, any tree outputs"),
        Case("binary-int-3", classify(3, patterns=[0, 1, 0]), bounds="3 samples, any two integer labels"),
        Case("binary-types", classify(3, labels=S, weights=[(1.0, -0.5), (0.0, 2.0)]), bounds="labels of several types"),
        Case("threshold", classify(2, labels=[["x", "y"]], weights=[(0.0, 1.0)], thresholds=None), bounds="any threshold, probability exactly 1/2 and sigmoid(1/2)"),
        Case("threshold-any", classify(2, labels=[[0, 1]], thresholds=(0.0, 0.25, 0.5, 0.75, 1.0)), bounds="any tree output, 5 thresholds"),
        Case("multi-int", classify(3, patterns=[0, 1, 2], weights=[(1.0, -0.5), (0.5, 0.5)]), bounds="3 samples, any three integer labels, in any order"),
        Case("multi-any", classify(3, labels=[["c", "a", "b"], [5, 2, 3]]), bounds="3 classes, any tree outputs"),
        Case("multi-types", classify(3, labels=M, weights=[(1.0, -0.5), (0.0, 2.0), (1.0, 2.0)]), bounds="labels of several types, ties"),
        Case("multi-rounds", classify(3, labels=[["c", "a", "b"], [10, 9, 100]], rounds=3, weights="graded"), bounds="3 classes, 3 rounds, any output of one tree"),
        Case("binary-rounds", classify(3, labels=[["b", "a", "a"]], rounds=3, weights="graded", thresholds=(0.25, 0.5)), bounds="3 rounds, any output of one tree"),
        Case("multi-4", classify(4, labels=[["d", "c", "a", "b"]], weights=[(1.0, -0.5), (0.0, 2.0)]), bounds="4 classes"),
        Case("multi-6", classify(8, labels=[[7, 3, 5, 1, 9, 11, 3, 9], ["f", "b", "a", "e", "d", "c", "a", "f"]], split=[0, 1, 0, 1, 1, 0, 1, 0], weights=[(1.0, -0.5)]), bounds="8 samples, 6 classes"),
        Case("binary-int-6", classify(6, patterns=[0, 1, 0, 1, 1, 0], weights=[(1.0, -0.5), (0.0, 2.0)]), bounds="6 samples, any two integer labels"),
        Case("new-labels", classify(3, labels=[["c", "a", "b"], ["a", "b", "a"]], weights=[(1.0, -0.5)], newlabels=[None, "z", 7]), bounds="unlabelled and unseen labels in prediction"),
        Case("regression", regress(3), bounds="any labels, any tree outputs"),
        Case("regression-all", lambda h: regress(2, *h.pick("objective", [("lae",), ("huber", [1.5]), ("fair", [1.5]), ("tweedie", [1.5]), ("log_cosh",)]))(h),
             bounds="other objectives"),
        Case("limit", limit(4, 3), bounds="any 4 integer labels, limit lowered to 3"),
        Case("limit-1000", limit_real, bounds="999..1002 classes"),
        Case("bad-label", bad_label, bounds="7 non-numbers at 3 places"),
    ]
    if big:
        out += [
            Case("int-3", classify(3, weights=[(1.0, -0.5), (0.25, 0.5)]), bounds="3 samples, any integer labels"),
            Case("int-4", classify(4, weights=[(1.0, -0.5)]), path_s=120, bounds="4 samples, any integer labels"),
            Case("multi-4-any", classify(4, labels=[["d", "c", "a", "b"]]), path_s=120, bounds="4 classes, any tree outputs"),
            Case("binary-2r", classify(3, labels=[["b", "a", "a"]], rounds=2, thresholds=(0.25, 0.5)), bounds="2 rounds"),
            Case("limit-5", limit(5, 4), bounds="any 5 integer labels, limit lowered to 4"),
        ]
    return out
