"""C15: lock-step of the parties."""
from symx.fed import Stuck, Fed
from symx.runner import Case
from checks.trees import Setup, exact
from checks.c13 import FORTY, PLACE, concrete_rows
from checks.boost import Boost
from checks.c19 import conf, Stub

DESC = ("The real code of guest and hosts runs against each other over in-memory FIFO channels, for trees and for whole boosted models, "
        "with symbolic gradients, labels, feature values, losses and tolerances; a state in which nobody can continue, a message left "
        "over, or a different number of trees is a violation. Channels have one writer and one reader and receives block, so one "
        "schedule of the parties decides all of them.")


def finish(h, fed, fn, what):
    """runs fn; every party must finish and no message may be left"""
    try:
        r = fn()
    except Stuck as e:
        h.check(False, "%s: deadlock, %s" % (what, e), what + "-deadlock")
        h.assume(False)
        return None
    return r


def ended(h, fed, what):
    h.check(not fed.left(), "%s leaves no message behind" % what, what + "-left")
    h.check(fed.stuck is None and all(p.done for p in fed.parties.values()), "all parties finish %s" % what, what + "-finish")


def tree(name=None, cols=None, n=None, fixed=None, depth=3, mg=0.25, min_sample=2, min_leaf=1, batch=65536, valid=None, gs=None,
         rows=None, free=(), lam=0.5, sparse=False, hs=None, gr=4):
    """a tree with symbolic gradients; prediction for every sample combination of `rows` or the training rows"""
    def fn(h):
        h.world()
        if name:
            place, nb = PLACE[name]
            ks = ["s%d" % i for i in range(len(place[0][0]))]
            columns = [[[0.5 + j for j in range(nb - 1)] for _ in p] for p in place]
            data = concrete_rows(place, ks)
        else:
            ks = ["s%d" % i for i in range(n)]
            columns = cols
            data = {k: [[h.real("x%d_%d_%d" % (i, p, f), -2, 2) for f in range(len(c))] for p, c in enumerate(cols)] for i, k in enumerate(ks)}
        g0 = fixed or [None] * len(ks)
        gh = {k: (exact(h, g0[i]) if g0[i] is not None else h.real("g%d" % i, -gr, gr), exact(h, hs[i] if hs else 0.25 * (1 + i % 3))) for i, k in enumerate(ks)}
        s = Setup(h, columns, data, gh, depth=depth, lam=lam, mg=mg, min_sample=min_sample, min_leaf=min_leaf, batch=batch, valid=valid,
                  sparse=sparse)
        r = finish(h, None, s.train, "training")
        ended(h, s.fed, "training")
        g, hosts, fed = r
        sites = lambda t: [(x.id, x.is_leaf, x.sitename if not x.is_leaf else None, x.left_nodeid, x.right_nodeid) for x in t.tree_]
        for m in hosts:
            h.check(sites(m) == sites(g), "all parties have the same tree", "same-tree")
        out = dict(g.predict_weights.collect())
        h.check(set(out) == set(ks), "every sample ends in a leaf", "leaves")
        test = data
        if free:
            test = {}
            for i in range(len(free)):
                test["t%d" % i] = [[h.real("z%d_%d_%d" % (i, p, f), -1, 3) if (p, f) in free[i] else 1.0 for f in range(len(c))]
                                   for p, c in enumerate(columns)]
        tabs = [s.raw(p, rows=test, order=list(test)) for p in range(len(columns))]
        res = finish(h, None, lambda: s.predict(g, hosts, tabs), "prediction")
        ended(h, s.pfed, "prediction")
        h.check(set(res) == set(test), "every sample gets a prediction", "predicted")
    return fn


def model(n, widths, task="regression", labels=(1.0, -2.0, 3.0, 0.5), free=(), rounds=2, depth=2, stop=False, tol=None, rate=1.0, mode="strict",
          pick=None, mg=0.25, newrows=True, batch=None, gr=4):
    def fn(h):
        h.hooks["noobs"] = True
        h.world()
        ks = ["s%d" % i for i in range(n)]
        labs = h.pick("labels", pick) if pick else labels
        ys = [h.real("y%d" % i, -gr, gr) if i in free else labs[i] for i in range(n)]
        rows = {k: [[float(1 + ((i >> (f % 2)) + f + p * i) % 3) for f in range(w)] for p, w in enumerate(widths)] for i, k in enumerate(ks)}
        eps = h.real("tol", 0, 2) if tol is None and stop else (tol if tol is not None else 0.0001)
        c = conf(task, "lse" if task == "regression" else "cross_entropy", rounds, 0.5, stop, eps, max_depth=depth)
        c["subsample_feature_rate"] = rate
        c["tree_param"]["min_impurity_split"] = mg
        if batch:
            c["tree_param"]["max_split_nodes"] = batch
        c["encrypted_mode_calculator_param"] = {"mode": mode}
        b = Boost(h, rows, dict(zip(ks, ys)), c)
        g, hosts = b.models()
        finish(h, None, b.fit, "training")
        ended(h, b.fed, "training")
        for m in hosts:
            h.check(len(m.trees_) == len(g.trees_), "all parties build the same number of trees", "trees")
            h.check(m.tree_dim == g.tree_dim, "all parties know the number of trees per round", "dims")
        h.check(len(g.trees_) == len(g.history_loss) * g.tree_dim, "complete rounds", "rounds")
        if not stop:
            h.check(len(g.history_loss) == rounds, "all rounds are run", "rounds")
        if newrows:
            new = {"t%d" % i: [[float((i + f + p) % 4) for f in range(w)] for p, w in enumerate(widths)] for i in range(3)}
            b.labels = dict(b.labels, **{k: None for k in new})
        else:
            new = rows
        res = finish(h, None, lambda: b.predict(b.tables(rows=new, order=[list(new)] * len(widths))), "prediction")
        ended(h, b.pfed, "prediction")
        h.check(set(res) == set(new), "every sample gets a prediction", "predicted")
        res = finish(h, None, lambda: b.predict(b.tables(rows=rows)), "prediction")
        ended(h, b.pfed, "prediction")
    return fn


def stopping(rounds, dim, nh):
    """arbitrary losses: all parties stop after the same round"""
    def fn(h):
        h.world()
        labels = [0, 1, 1] if dim == 1 else list(range(dim))
        n = len(labels)
        split = [i % 2 for i in range(n)]
        ks = ["s%d" % i for i in range(n)]
        rows = {k: [[2.0 if split[i] else 1.0]] + [[float(i)]] * nh for i, k in enumerate(ks)}
        stop = h.boolean("stop")
        eps = h.real("tol", 0, 4)
        losses = [h.real("loss%d" % i, -4, 4) for i in range(rounds)]
        b = Boost(h, rows, dict(zip(ks, labels)), conf("classification", "cross_entropy", rounds, 0.5, stop, eps))
        g, hosts = b.models()
        Stub(h, split, [(0.5, -0.5)] * (rounds * dim), ks)
        C = h.mod("ml.loss.cross_entropy")
        calls = []

        def compute(y, yp):
            calls.append(1)
            return losses[len(calls) - 1]
        for nm in ("SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"):
            getattr(C, nm).compute_loss = staticmethod(compute)
        finish(h, None, b.fit, "training")
        ended(h, b.fed, "training")
        for m in hosts:
            h.check(len(m.trees_) == len(g.trees_), "all parties stop after the same round", "trees")
        finish(h, None, b.predict, "prediction")
        ended(h, b.pfed, "prediction")
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    out = [
        Case("two", tree("two", fixed=[N, 1.0, N, -2.0], depth=3), bounds="4 samples, 2 parties, depth 3, two gradients any"),
        Case("three", tree("three", depth=3, batch=1), bounds="3 samples, all gradients any, batches of 1"),
        Case("root", tree("two", depth=1), bounds="depth 1"),
        Case("3p", tree("three-parties", fixed=[N, 1.0, -2.0, 0.5], depth=4, mg=0.0, batch=2), bounds="3 parties, depth 4, batches of 2, one gradient any"),
        Case("six", tree("six", fixed=[N, 2.0, -3.0, 1.0, -0.5, 4.0], depth=5, mg=0.0, batch=3, min_sample=2), bounds="6 samples, depth 5, batches of 3"),
        Case("zero-hess", tree("two", fixed=[N, 1.5, -0.5, 2.0], hs=[0.0, 0.5, 0.0, 0.0], depth=4, mg=0.0), bounds="hessians of 0"),
        Case("zero-grads", tree("six", fixed=[N, 0.0, 0.0, 0.0, 0.0, 2.0], hs=[0.0, 1.0, 0.0, 0.0, 1.0, 0.0], depth=4, mg=0.0, batch=1), bounds="gradients of 0"),
        Case("eight", tree("eight", fixed=[N, 2.0, -3.0, 1.0, -0.5, 4.0, 1.75, -2.5], depth=5, mg=0.0, batch=3), bounds="8 samples, 5 bins, depth 5, batches of 3"),
        Case("eight-host", tree("eight-host", fixed=[1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5], depth=6, mg=0.0), bounds="8 samples, host with 6 bins, depth 6"),
        Case("12p", tree("twelve-parties", fixed=[1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5], depth=4, mg=0.0, batch=3), bounds="8 samples, guest+11 hosts, depth 4, one gradient any"),
        Case("4p", tree("four-parties", fixed=[1.5, -2.0, N, 1.0, -0.5, 3.0], depth=4, mg=0.0, batch=2), bounds="6 samples, guest+3 hosts, depth 4, batches of 2"),
        Case("forty", tree("forty", fixed=FORTY, depth=7, mg=0.0, batch=5, gr=0.5), path_s=60, bounds="40 samples, 4 features of up to 12 bins, depth 7, batches of 5, one gradient any in [-1/2,1/2]"),
        Case("twelve", tree("twelve", fixed=[1.5, 2.0, -3.0, 0.5, -0.5, 4.0, -1.75, N, 1.25, -2.25, 3.5, -1.0], depth=7, mg=0.0, batch=3), bounds="12 samples, 7 bins, depth 7, batches of 3"),
        Case("none-valid", tree("two-features", fixed=[N, 1.0, -3.0, 0.25], valid=[[False, False], [False, False]]), bounds="no usable feature"),
        Case("guest-only", tree("two-features", fixed=[N, 1.0, -3.0, 0.25], valid=[[True, True], [False, False]]), bounds="only guest features"),
        Case("host-only", tree("wide-host", fixed=[N, 1.0, -3.0, 0.25], valid=[[False], [True, True, True]], batch=1, mg=0.0), bounds="only host features"),
        Case("leaf", tree("two", mg=1000.0), bounds="no split is worth it"),
        Case("big-leaf", tree("five", fixed=[N, N, -3.0, 2.0, -0.5], min_leaf=2, min_sample=3, batch=1, mg=0.0, depth=4), bounds="leaves of at least 2"),
        Case("values", tree(cols=[[[0.5]], [[-0.5]]], n=3, fixed=[2.0, -1.0, -3.5], depth=3), bounds="3 samples, any feature values"),
        Case("values-3p", tree(cols=[[[0.5]], [[-0.5]], [[0.0]]], n=3, fixed=[2.0, -1.0, -3.5], depth=3, batch=1), bounds="3 parties, any feature values"),
        Case("predict-new", tree("three-parties", fixed=[2.0, 1.0, -2.0, -3.0], depth=4, mg=0.0, free=[[(0, 0), (1, 0)], [(2, 0), (1, 0)], []]),
             bounds="3 new samples with any values"),
        Case("lse-40", model(40, [2, 2], labels=[((i * 37 + i * i * 13) % 101 - 50) / 16.0 for i in range(40)], free=(17,), depth=4, rounds=3, gr=0.5), path_s=60, bounds="boosting with 40 samples, 3 rounds, one label any"),
        Case("lse", model(3, [1, 1], free=(1,)), bounds="boosting, one label any"),
        Case("lse-stop", model(3, [1, 1], free=(1,), stop=True, rounds=3, depth=1), bounds="boosting with early stopping, any label and tolerance"),
        Case("lse-2h", model(4, [1, 2, 1], labels=(1.0, -2.0, 3.0, 0.5), depth=3, batch=1), bounds="2 hosts"),
        Case("binary", model(4, [1, 1], task="classification", pick=[(0, 1, 1, 0), (1, 0, 0, 0), ("b", "a", "a", "b"), (-1, 1, -1, 1)]), bounds="two classes"),
        Case("multi", model(4, [1, 1], task="classification", pick=[(0, 1, 2, 0), ("c", "a", "b", "b"), (3, 1, 2, 0)]), bounds="three and four classes"),
        Case("multi-stop", model(3, [1, 1], task="classification", pick=[(0, 1, 2), (0, 1, 1)], stop=True, rounds=3, tol=0.2), bounds="early stopping with classes"),
        Case("modes", lambda h: model(3, [1, 1], mode=h.pick("mode", ["strict", "fast", "balance", "confusion_opt"]))(modes(h)), bounds="all encryption modes"),
        Case("sampling", model(3, [2, 2], rate=0.5, rounds=2), bounds="feature sampling, every draw"),
        Case("stopping", stopping(3, 1, 2), bounds="any losses and tolerance, 2 hosts"),
        Case("stopping-multi", stopping(3, 3, 1), bounds="any losses and tolerance, 3 classes"),
    ]
    if big:
        out += [
            Case("two-all", tree("two", depth=3), path_s=240, bounds="4 samples, all gradients any"),
            Case("3p-2", tree("three-parties", fixed=[N, 1.0, -2.0, N], depth=4, mg=0.0, batch=2), path_s=120, bounds="3 parties, two gradients any"),
            Case("six-2", tree("six", fixed=[N, 2.0, -3.0, 1.0, -0.5, N], depth=5, mg=0.0, batch=2), path_s=120, bounds="6 samples, depth 5, two gradients any"),
            Case("3p-all", tree("three-parties", fixed=[N, 1.0, N, N], depth=4, mg=0.0, batch=1), path_s=120, bounds="3 parties, three gradients any"),
            Case("values-4", tree(cols=[[[0.5]], [[-0.5]]], n=4, fixed=[2.0, -1.0, 0.5, -3.0], depth=3, batch=1), bounds="4 samples, any feature values"),
            Case("values-4p", tree(cols=[[[0.5]], [[-0.5]], [[0.0]], [[0.25]]], n=3, fixed=[2.0, -1.0, -3.5], depth=3), bounds="4 parties"),
            Case("lse-2", model(3, [1, 1], free=(1, 2)), path_s=240, bounds="boosting, two labels any"),
            Case("stopping-5", stopping(5, 1, 3), bounds="5 rounds, 3 hosts"),
        ]
    return out


def modes(h):
    h.hooks["random.random"] = lambda: 0.25
    h.hooks["random.shuffle"] = lambda x: None
    h.hooks["np.rand"] = lambda *a: 0.25
    return h
