"""C29: the stand-alone trainer (package xgboost)."""
from symx.runner import Case
from checks import c12, c13, c14, c19, c21, c25, c26, c27
from checks.trees import Setup, exact
from checks.boost import Boost, scalar
from checks.c12 import inspect
from checks.c13 import FORTY, PLACE, concrete_rows
from checks.c19 import conf, mean

DESC = ("The stand-alone trainer runs with all columns at one party and no other party; trees, weights, scores, rounds, importances, "
        "prediction rows and feature masks are compared with the same definitions as the federated models, with the reference trainer "
        "that holds all columns, and with the federated models themselves on divided columns.")


def alone(fn):
    """fn with the stand-alone classes"""
    def run(h):
        h.alone = True
        return fn(h)
    return run


def together(rows):
    """all columns at one party"""
    return {k: [[x for part in v for x in part]] for k, v in rows.items()}


def grads(name, fixed=None, hess=None, gr=4, **opts):
    place, nb = PLACE[name]

    def fn(h):
        h.alone = True
        h.world()
        n = len(place[0][0])
        ks = ["s%d" % i for i in range(n)]
        gh = {k: (h.real("g%d" % i, -gr, gr) if not fixed or fixed[i] is None else exact(h, fixed[i]),
                  exact(h, hess[i] if hess else 0.25 * (1 + i % 3))) for i, k in enumerate(ks)}
        cols = [[[0.5 + j for j in range(nb - 1)] for p in place for _ in p]]
        s = Setup(h, cols, together(concrete_rows(place, ks)), gh, **opts)
        ref = s.reference()
        g, hosts, fed = s.train()
        inspect(h, s, g, hosts)
        out = dict(g.predict_weights.collect())
        for k in ks:
            h.close(out.get(k), ref[k], "the output of the trainer that holds all columns", "output")
        got = s.predict(g, hosts, [s.raw(0)])
        h.check(set(got) == set(ks), "one result per sample", "samples")
        for k in ks:
            h.close(got[k], ref[k], "prediction reproduces the training output", "predict")
    return fn


def values(cols, n, gs, **opts):
    def fn(h):
        h.alone = True
        h.world()
        ks = ["s%d" % i for i in range(n)]
        data = {k: [[h.real("x%d_%d" % (i, f), -4, 4) for f in range(len(cols[0]))]] for i, k in enumerate(ks)}
        gh = {k: (h.real("g%d" % i, -4, 4) if gs[i] is None else exact(h, gs[i]), exact(h, 0.5)) for i, k in enumerate(ks)}
        s = Setup(h, cols, data, gh, **opts)
        ref = s.reference()
        g, hosts, fed = s.train()
        inspect(h, s, g, hosts)
        out = dict(g.predict_weights.collect())
        for k in ks:
            h.close(out.get(k), ref[k], "the output of the trainer that holds all columns", "output")
    return fn


def both(rows, labels, free, rounds=2, depth=3, lr=0.5, lam=0.5, mg=0.25, sparse=False):
    """stand-alone and federated models of the same data; rows: [[value per feature] per party] per sample"""
    def fn(h):
        h.world()
        n = len(rows)
        ks = ["s%d" % i for i in range(n)]
        ys = {k: h.real("y%d" % i, -4, 4) if i in free else labels[i] for i, k in enumerate(ks)}
        divided = dict(zip(ks, rows))
        joined = together(divided)
        c = conf("regression", "lse", rounds, lr, max_depth=depth, criterion_params=[lam], min_impurity_split=mg)
        c["bin_num"] = 8
        # the definition
        cols = [sorted(set(joined[k][0][f] for k in ks))[:-1] for f in range(len(joined[ks[0]][0]))]
        F = {k: mean(h, list(ys.values())) for k in ks}
        for r in range(rounds):
            s = Setup(h, [cols], joined, {k: (2 * (F[k] - ys[k]), exact(h, 2)) for k in ks}, depth=depth, lam=lam, mg=mg)
            w = s.reference()
            F = {k: F[k] + lr * w[k] for k in ks}
        res = []
        for one in (True, False):
            h.alone = one
            b = Boost(h, joined if one else divided, ys, c, sparse=sparse)
            b.models()
            b.fit()
            res.append((b, b.predict()))
        (b1, o1), (b2, o2) = res
        h.check(len(b1.guest.trees_) == len(b2.guest.trees_) == rounds, "the same number of trees", "rounds")
        h.check(len(b1.guest.history_loss) == len(b2.guest.history_loss), "the same number of losses", "losses")
        for x, y in zip(b1.guest.history_loss, b2.guest.history_loss):
            h.close(scalar(x), scalar(y), "the same losses", "losses", tol=1e-6)
        h.check(sum(b1.guest.feature_importances_.values()) == sum(b2.guest.feature_importances_.values()), "the same number of splits", "splits")
        for k in ks:
            h.check(k in o1 and k in o2, "the same samples", "samples")
            h.close(o1[k][2], F[k], "the score of the definition", "score", tol=1e-6)
            h.close(o1[k][2], o2[k][2], "the score of the federated model", "federated-score", tol=1e-6)
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    D4 = [[[1.0, 3.0], [1.0]], [[1.0, 1.0], [2.0]], [[2.0, 2.0], [1.0]], [[3.0, 2.0], [2.0]]]
    pts = [0.5, 1.5, 2.5, 3.5]
    fx = {(i, 0, p): float(v) for p, cols in enumerate(PLACE["eight"][0]) for v, i in [(v, i) for i, v in enumerate(cols[0])] if (i, p) != (3, 0)}
    out = [
        Case("trained-eight", alone(c14.trained([[pts, pts]], 8, [1.5, 2.0, -3.0, 1.0, -0.5, 4.0, -1.75, 2.5], fixed=fx, extra=0, depth=5, mg=0.0)),
             bounds="8 samples, 5 bins, depth 5, one value any"),
        Case("tree-two", grads("two", [N, 1.0, N, -2.0], depth=3), bounds="4 samples, 2 features, 2 gradients any in [-4,4]"),
        Case("tree-three", grads("three", depth=3), bounds="3 samples, all gradients any"),
        Case("tree-wide", grads("wide-host", [1.0, N, -3.0, N], depth=3, batch=2, lam=1.0), bounds="4 features"),
        Case("tree-2f", grads("two-features", [N, 1.0, -3.0, 0.25], depth=4, mg=0.0, sparse=True, batch=1), bounds="4 features, 3 bins, sparse, batches of 1"),
        Case("tree-valid", grads("two-features", [N, 1.0, -3.0, 0.25], depth=3, valid=[[False, True, True, False]]), bounds="half of the features sampled"),
        Case("tree-leaf2", grads("six", [N, 2.0, -3.0, 1.0, -0.5, 4.0], depth=4, mg=0.0, min_leaf=2, min_sample=3), bounds="6 samples, leaves of 2"),
        Case("tree-values", values([[[0.5], [-0.5]]], 4, [N, -1.0, 0.5, -3.0], depth=3), bounds="4 samples, all values, one gradient any"),
        Case("tree-values-3", values([[[-0.5, 0.5], [0.0]]], 3, [2.0, N, -3.5], depth=3, sparse=True), bounds="3 samples, 3 bins, all values"),
        Case("reload", alone(c14.loaded(["leaf", "stump", "left", "right"], nh=0)), bounds="up to 5 nodes, any features, thresholds, values"),
        Case("reload-full", alone(c14.loaded(["full", "zigzag"], nh=0)), bounds="7 nodes"),
        Case("absent", alone(c14.loaded(["left"], nh=0, nrows=2, absent=True)), bounds="2 samples, any entries absent"),
        Case("trained", alone(c14.trained([[[0.5], [-0.5]]], 3, [2.0, -1.0, -3.5], depth=3)), bounds="3 samples + 1 new one, all values"),
        Case("lse-3", alone(c19.lse([0, 1, 1], rounds=2, lrs=(0.5, 1.0), nh=0)), bounds="3 samples, any labels, 2 rounds"),
        Case("lse-stop", alone(c19.lse([0, 1], rounds=3, stop=True, fixed=[N, 1.5], nh=0)), bounds="any label, any tolerance, 3 rounds"),
        Case("lse-gain", alone(c19.lse([0, 1, 0], rounds=2, importance="gain", nh=0)), bounds="importance by gain"),
        Case("binary", alone(c19.classes([0, 1, 0], ["b", "a", "a"], 2)), bounds="3 samples, 2 rounds, any tree outputs"),
        Case("multi", alone(c19.classes([0, 1, 0], ["c", "a", "b"], 2, nw=(0, 3))), bounds="3 classes, 2 rounds"),
        Case("stopping", alone(c19.stopping(4, nh=0)), bounds="any 4 losses, any tolerance"),
        Case("stopping-multi", alone(c19.stopping(3, stops=(True,), dim=3, nh=0)), bounds="3 classes"),
        Case("start", lambda h: alone(c19.start(2, *h.pick("objective", [("lse",), ("lae",), ("huber", [1.5]), ("fair", [1.5]), ("tweedie", [1.5]), ("log_cosh",)])))(h),
             bounds="any 2 labels, all objectives"),
        Case("rows-binary", alone(c21.classify(3, patterns=[0, 1, 0])), bounds="3 samples, any two integer labels"),
        Case("rows-threshold", alone(c21.classify(2, labels=[["x", "y"]], weights=[(0.0, 1.0)], thresholds=None)), bounds="any threshold"),
        Case("rows-multi", alone(c21.classify(3, labels=[["c", "a", "b"], [5, 2, 3]])), bounds="3 classes, any tree outputs"),
        Case("rows-regression", alone(c21.regress(3)), bounds="any labels, any tree outputs"),
        Case("sampling", alone(c27.sampling([3])), bounds="3 features, any rate in [0,1], every draw"),
        Case("sampling-two", alone(c27.sampling([3], rounds=2, rates=(0.5, 0.34, 0.7))), bounds="2 rounds"),
        Case("data", alone(c25.model(nh=0)), bounds="3 samples, one value any"),
        Case("federated", both(D4, [1.0, -2.0, 3.0, 0.5], (0,)), bounds="4 samples, 2+1 features, one label any, 2 rounds"),
        Case("tree-eight", grads("eight", [N, 2.0, -3.0, 1.0, -0.5, 4.0, -1.75, 2.5], depth=6, mg=0.0, batch=1), bounds="8 samples, 5 bins, depth 6, batches of 1, one gradient any"),
        Case("tree-eight-bins", grads("eight-host", [1.5, 2.0, N, 1.0, -0.5, 4.0, -1.75, 2.5], depth=6, mg=0.0, batch=2, sparse=True),
             bounds="8 samples, 6 bins, depth 6, sparse, one gradient any"),
        Case("tree-40", grads("forty", FORTY, gr=0.5, depth=7, mg=0.0, batch=5), path_s=60, bounds="40 samples, 4 features of up to 12 bins, depth 7, batches of 5, one gradient any in [-1/2,1/2]"),
        Case("tree-25f", grads("many-features", [1.5, -2.0, N, 1.25, -0.5, 4.0], depth=4, mg=0.0, batch=2), bounds="6 samples, 25 features, one gradient any"),
        Case("reload-deep", alone(c14.loaded(["bushy", "long"], nh=0, nf=2)), bounds="9 and 11 nodes"),
        Case("rows-multi-4", alone(c21.classify(4, labels=[["d", "c", "a", "b"], [7, -2, 5, 0]], weights=[(1.0, -0.5), (0.0, 2.0)])), bounds="4 classes"),
        Case("rows-types", alone(c21.classify(3, labels=[[10, 9, 9], [-1, -10, -1], [1.5, -0.5, 1.5], [10, 9, 100]], weights=[(1.0, -0.5)])), bounds="labels of several types"),
        Case("bad-label", alone(c21.bad_label), bounds="7 non-numbers at 3 places"),
        Case("sampling-6", alone(c27.sampling([6], rates=(0.0, 0.5, 0.84, 1.0), n=3)), bounds="6 features, 4 rates, every draw"),
        Case("importance", alone(c19.importance("two-features", [1.0, None, 3.0, -2.5], depth=3, mg=0.0)), bounds="4 features, depth 3, 1 gradient any"),
        Case("bins", alone(c26.bins()), bounds="7 samples, 2 columns, one value any, 2, 3, 5 or 50 bins"),
        Case("objective", alone(c26.objective), bounds="6 objectives, any parameter in (1,2), 2 rounds"),
        Case("federated-2", both([r[:1] + [[r[1][0] - 1.0, 2.0 - r[0][0]]] for r in D4], [1.0, -2.0, 3.0, 0.5], (2,), rounds=1, depth=4, mg=0.0, sparse=True),
             bounds="sparse rows, one label any"),
    ]
    if big:
        out += [
            Case("tree-two-all", grads("two", depth=3), path_s=240, bounds="4 samples, all gradients any"),
            Case("tree-six-2", grads("six", [N, 2.0, -3.0, 1.0, -0.5, N], depth=4, mg=0.0), path_s=120, bounds="6 samples"),
            Case("tree-values-4", values([[[-0.5, 0.5], [0.0]]], 4, [2.0, -1.0, -3.5, 0.5], depth=4, mg=0.0), bounds="4 samples, 3 bins, all values"),
            Case("reload-bushy", alone(c14.loaded(["bushy", "long"], nh=0, nf=1)), bounds="11 nodes"),
            Case("federated-3", both(D4, [1.0, -2.0, 3.0, 0.5], (0, 3), rounds=2), path_s=240, bounds="two labels any"),
            Case("sampling-5", alone(c27.sampling([5], depth=3)), bounds="5 features, any rate, every draw"),
        ]
    return out
