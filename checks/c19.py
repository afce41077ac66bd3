"""C19: boosting adds the scaled trees and stops when it converges."""
from symx.runner import Case
from checks.trees import Setup, exact
from checks.boost import Boost, scalar
from checks.common import table, guest_class
from checks.c07 import rank_ok
from checks.c12 import route
from checks.c13 import PLACE, concrete_rows

DESC = ("Guest and hosts train and predict whole boosted models over in-memory channels. In the lse cases everything is real and the "
        "labels are symbolic; in the other cases the trees (and, for early stopping, the losses) are arbitrary: their outputs are "
        "symbolic values, and scores, gradients, loss history, number of rounds and importances are compared with the definition.")


def conf(task, objective, rounds, lr, stop=False, tol=0.0001, params=None, **tree):
    t = {"max_depth": 2, "min_impurity_split": -1e9, "criterion_params": [0.5]}
    t.update(tree)
    return {"task_type": task, "objective_param": {"objective": objective, "params": params}, "num_trees": rounds, "learning_rate": lr,
            "subsample_feature_rate": 1.0, "n_iter_no_change": stop, "tol": tol, "tree_param": t}


def mean(h, xs):
    s = exact(h, 0)
    for x in xs:
        s = s + x
    return s / len(xs)


def lse(split, rounds=2, lrs=(0.5,), stop=False, tol=None, fixed=None, importance="split", nh=1, lam=0.5):
    """split: for each sample whether it lies right of the only useful threshold"""
    def fn(h):
        h.world()
        n = len(split)
        ks = ["s%d" % i for i in range(n)]
        labels = {k: (fixed[i] if fixed and fixed[i] is not None else h.real("y%d" % i, -4, 4)) for i, k in enumerate(ks)}
        rows = {k: [[2.0 if split[i] else 1.0]] + [[1.0]] * nh for i, k in enumerate(ks)}
        lr = h.pick("lr", lrs) if lrs else exact(h, 0) + h.real("lr", 0, 1)
        eps = h.real("tol", 0, 4) if tol is None and stop else (tol or 0.0)
        b = Boost(h, rows, labels, conf("regression", "lse", rounds, lr, stop, eps, feature_importance_type=importance,
                                        criterion_params=[lam]))
        g, hosts = b.models()
        fed = b.fit()
        # the reference
        F = {k: mean(h, list(labels.values())) for k in ks}
        init = F[ks[0]]
        losses, imp, done = [], exact(h, 0), 0
        for r in range(rounds):
            done += 1
            s, gains = {}, exact(h, 0)
            for side in (False, True):
                grp = [k for i, k in enumerate(ks) if bool(split[i]) is side]
                G = exact(h, 0)
                for k in grp:
                    G = G + 2 * (F[k] - labels[k])
                s[side] = (G, 2 * len(grp), grp)
                gains = gains + G * G / (2 * len(grp) + exact(h, lam))
            Gt = s[False][0] + s[True][0]
            imp = imp + (1 if importance == "split" else gains - Gt * Gt / (2 * n + exact(h, lam)))
            for G, H, grp in s.values():
                for k in grp:
                    F[k] = F[k] + lr * (-G / (H + exact(h, lam)))
            losses.append(mean(h, [(labels[k] - F[k]) * (labels[k] - F[k]) for k in ks]))
            if stop and len(losses) > 1:
                d = losses[-1] - losses[-2]
                if h.branch(h.land(d < eps, -d < eps)):
                    h.assume(h.land(d < eps - 1e-4, -d < eps - 1e-4))
                    break
                h.assume(h.lor(d > eps + 1e-4, -d > eps + 1e-4))
        h.check(len(g.trees_) == done, "training stops after the right round", "rounds")
        for m in hosts:
            h.check(len(m.trees_) == done, "the hosts stop after the same round", "rounds-host")
        h.check(not fed.left(), "no message is left", "left")
        h.check(len(g.history_loss) == done, "one loss per round", "losses")
        for a, e in zip(g.history_loss, losses):
            h.close(scalar(a), e, "the loss of the round", "loss", tol=1e-6)
        out = b.predict()
        h.check(set(out) == set(ks), "one prediction per sample", "samples")
        for k in ks:
            h.close(out[k][2], F[k], "prediction reproduces the training scores", "score", tol=1e-6)
        fi = dict(g.feature_importances_)
        h.check(set(fi) == {("guest", 0)}, "only used features have importances", "importance-keys")
        h.close(fi.get(("guest", 0), 0), imp, "the importance sums over the trees", "importance", tol=1e-6)
    return fn


class Stub:
    """trees with arbitrary outputs: the fit methods of both parties are replaced, everything else is real"""
    def __init__(self, h, split, weights, ks, imps=None):
        """weights: list per tree of (left, right)"""
        self.h, self.split, self.weights, self.ks, self.imps = h, split, weights, ks, imps
        self.inputs = []
        self.n = 0
        Node = h.cls("ml.tree.node", "Node")
        stub = self

        def tree(w):
            return [Node(id=0, sitename="guest", fid=0, left_nodeid=1, right_nodeid=2),
                    Node(id=1, sitename="guest", is_leaf=True, weight=w[0]),
                    Node(id=2, sitename="guest", is_leaf=True, weight=w[1])]

        def guest_fit(self):
            w = stub.weights[stub.n]
            stub.inputs.append(dict(self.grad_and_hess.collect()))
            self.tree_ = tree(w)
            self.split_maskdict = {0: 1.5}
            self.predict_weights = table(h, [(k, w[1] if stub.split[i] else w[0]) for i, k in enumerate(stub.ks)])
            if stub.imps:
                self.feature_importances_ = dict(stub.imps[stub.n])
            stub.n += 1

        def host_fit(self):
            self.tree_ = tree((None, None))
            for x in self.tree_:
                x.weight = 0.0
            self.split_maskdict = {}

        guest_class(h, "tree").fit = guest_fit
        h.cls("ml.tree.hetero_decision_tree_host", "HeteroDecisionTreeHost").fit = host_fit

    def out(self, t, i):
        return self.weights[t][1] if self.split[i] else self.weights[t][0]


def classes(split, labels, rounds, lrs=(0.5,), wr=2, nw=None):
    """classification with arbitrary tree outputs"""
    def fn(h):
        h.hooks["expsplit"] = True
        h.hooks["cancel"] = True
        h.hooks["noobs"] = True
        h.world()
        ks = ["s%d" % i for i in range(len(split))]
        cl = sorted(set(labels))
        dim = len(cl) if len(cl) > 2 else 1
        W = [(h.real("l%d" % t, -wr, wr), h.real("r%d" % t, -wr, wr)) for t in range(rounds * dim)]
        if nw is not None:
            W = [w if t in nw else (0.5 * t - 1, 1 - 0.25 * t) for t, w in enumerate(W)]
        rows = {k: [[2.0 if split[i] else 1.0]] + [[1.0]] * (0 if getattr(h, "alone", False) else 1) for i, k in enumerate(ks)}
        lr = h.pick("lr", lrs)
        b = Boost(h, rows, dict(zip(ks, labels)), conf("classification", "cross_entropy", rounds, lr))
        b.models()
        st = Stub(h, split, W, ks, [{("guest", 0): 1 + t, ("host.0", t % 2): 2} for t in range(rounds * dim)])
        g, hosts = b.guest, b.hosts
        # losses are not looked at here
        C = h.mod("ml.loss.cross_entropy")
        for n in ("SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"):
            getattr(C, n).compute_loss = staticmethod(lambda y, yp: 1.0)
        b.fit()
        T = rounds * dim
        h.check(len(g.trees_) == T and st.n == T, "one tree per round and class", "trees")
        L = C.SigmoidBinaryCrossEntropyLoss if dim == 1 else C.SoftmaxCrossEntropyLoss
        np = h.w.shims["numpy"]
        zero = exact(h, 0)
        F = {k: [zero] * dim for k in ks}
        for r in range(rounds):
            for d in range(dim):
                t = r * dim + d
                got = st.inputs[t]
                h.check(set(got) == set(ks), "every sample has a gradient", "gradient-samples")
                for i, k in enumerate(ks):
                    p = L.predict(np.array(F[k]))
                    y = cl.index(labels[i])
                    h.close(scalar(got[k][0]), L.compute_grad(y, p)[d], "the gradient of the current scores", "gradient", tol=1e-6)
                    h.close(scalar(got[k][1]), L.compute_hess(y, p)[d], "the hessian of the current scores", "hessian", tol=1e-6)
            for d in range(dim):
                for i, k in enumerate(ks):
                    F[k] = list(F[k])
                    F[k][d] = F[k][d] + lr * st.out(r * dim + d, i)
        out = b.predict()
        for i, k in enumerate(ks):
            p = L.predict(np.array(F[k]))
            if dim == 1:
                h.close(out[k][2], scalar(p), "the probability of the summed scores", "score", tol=1e-6)
            else:
                det = list(out[k][3].values())
                h.check(len(det) == dim, "one probability per class", "detail")
                for d in range(dim):
                    h.close(det[d], p[d], "the probability of the summed scores", "score", tol=1e-6)
        want = {}
        for t in range(T):
            for key, v in (st.imps[t]).items():
                want[key] = want.get(key, 0) + v
        h.check(dict(g.feature_importances_) == want, "importances sum over all trees", "importance")
    return fn


def stopping(rounds, stops=(True, False), dim=1, nh=1, tols=None, free=None):
    """arbitrary losses"""
    def fn(h):
        h.world()
        labels = [0, 1] if dim == 1 else [0, 1, 2]
        split = [0, 1] if dim == 1 else [0, 1, 1]
        ks = ["s%d" % i for i in range(len(split))]
        rows = {k: [[2.0 if split[i] else 1.0]] + [[1.0]] * nh for i, k in enumerate(ks)}
        stop = h.pick("stop", stops)
        eps = h.real("tol", 0, 4) if tols is None else h.pick("tol", tols)
        losses = [h.real("loss%d" % i, -4, 4) if free is None or i in free else 3.0 - 0.75 * i for i in range(rounds)]
        b = Boost(h, rows, dict(zip(ks, labels)), conf("classification", "cross_entropy", rounds, 0.5, stop, eps))
        g, hosts = b.models()
        st = Stub(h, split, [(0.5, -0.5)] * (rounds * dim), ks)
        C = h.mod("ml.loss.cross_entropy")
        calls = []

        def compute(y, yp):
            calls.append(1)
            return losses[len(calls) - 1]
        for n in ("SigmoidBinaryCrossEntropyLoss", "SoftmaxCrossEntropyLoss"):
            getattr(C, n).compute_loss = staticmethod(compute)
        want = rounds
        for i in range(1, rounds):
            d = losses[i] - losses[i - 1]
            if stop and h.branch(h.land(d < eps, -d < eps)):
                want = i + 1
                break
        fed = b.fit()
        h.check(len(calls) == want, "one loss per round", "loss-calls")
        h.check(len(g.trees_) == want * dim, "training stops exactly after the first round within the tolerance", "rounds")
        for m in hosts:
            h.check(len(m.trees_) == want * dim, "the hosts stop after the same round", "rounds-host")
        h.check(len(g.history_loss) == want, "the history has one loss per round", "history")
        for a, e in zip(g.history_loss, losses):
            h.close(a, e, "the history records the losses in order", "history-value")
        h.check(not fed.left(), "no message is left", "left")
    return fn


def start(n, objective, params=None, rounds=1, order=None):
    """the initial score"""
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        lo = 0.5 if objective == "tweedie" else -4
        ys = [h.real("y%d" % i, lo, 4) for i in range(n)]
        labels = dict(zip(ks, ys))
        split = [i % 2 for i in range(n)]
        rows = {k: [[2.0 if split[i] else 1.0]] + [[1.0]] * (0 if getattr(h, "alone", False) else 1) for i, k in enumerate(ks)}
        lr = 0.5
        b = Boost(h, rows, labels, conf("regression", objective, rounds, lr, params=params))
        g, hosts = b.models()
        W = [(h.real("l%d" % t, -1000, 1000), h.real("r%d" % t, -1000, 1000)) for t in range(rounds)]
        st = Stub(h, split, W, ks)
        R = h.mod("ml.loss.regression_loss")
        for c in vars(R).values():
            if isinstance(c, type) and hasattr(c, "compute_loss"):
                c.compute_loss = staticmethod(lambda *a: 1.0)
                c.compute_grad = staticmethod(lambda *a: [0.0])
                c.compute_hess = staticmethod(lambda *a: [1.0])
        b.fit()
        out = b.predict()
        for i, k in enumerate(ks):
            s = out[k][2]
            for t in range(rounds):
                s = s - lr * st.out(t, i)
            if objective == "lae":
                h.check(h.lor(*[h.land(s - y < 1e-6, y - s < 1e-6) for y in ys]), "the start is a label", "start")
                rank_ok(h, ys, s, 0.5, 0.001, n, "the start is the median label", "median")
            else:
                h.close(s, mean(h, ys), "the start is the mean label", "start", tol=1e-6)
    return fn


def importance(name, fixed=None, kinds=("split", "gain"), **opts):
    """the importances of one tree: split counts or gains per party and feature"""
    place, nb = PLACE[name]

    def fn(h):
        h.world()
        n = len(place[0][0])
        ks = ["s%d" % i for i in range(n)]
        gh = {k: (h.real("g%d" % i, -4, 4) if not fixed or fixed[i] is None else exact(h, fixed[i]), exact(h, 0.25 * (1 + i % 3))) for i, k in enumerate(ks)}
        parts = place
        rows = concrete_rows(place, ks)
        if getattr(h, "alone", False):
            parts = [[c for p in place for c in p]]
            rows = {k: [[x for part in v for x in part]] for k, v in rows.items()}
        cols = [[[0.5 + j for j in range(nb - 1)] for _ in p] for p in parts]
        kind = h.pick("kind", kinds)
        s = Setup(h, cols, rows, gh, importance=kind, **opts)
        g, hosts, fed = s.train()
        parties = s.trees(g, hosts)
        members = {t.id: [] for t in g.tree_}
        for k in ks:
            for i in route(h, s, parties, k):
                members[i].append(k)
        want = {}
        for t in g.tree_:
            if not t.is_leaf:
                key = (s.owner(t.sitename), t.fid)
                inc = 1 if kind == "split" else s.gain(members[t.left_nodeid], members[t.right_nodeid])
                want[key] = want[key] + inc if key in want else inc
        got = {(s.owner(site), f): v for (site, f), v in g.get_feature_importance().items()}
        h.check(set(got) == set(want), "exactly the features of the splits have an importance", "tree-importance")
        for key in want:
            if kind == "split":
                h.check(got.get(key) == want[key], "the number of splits of the party's feature", "tree-importance")
            else:
                h.close(got.get(key), want[key], "the summed gains of the party's feature", "tree-importance", tol=1e-6)
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    out = [
        Case("lse-2", lse([0, 1], rounds=3), bounds="2 samples, any labels in [-4,4], 3 rounds"),
        Case("lse-3", lse([0, 1, 1], rounds=2, lrs=(0.5, 1.0), nh=2), bounds="3 samples, any labels, 2 rounds, 2 hosts"),
        Case("lse-stop", lse([0, 1], rounds=3, stop=True, fixed=[N, 1.5]), bounds="any label, any tolerance, 3 rounds"),
        Case("lse-gain", lse([0, 1, 0], rounds=2, importance="gain"), bounds="importance by gain"),
        Case("lse-rate", lse([0, 1], rounds=2, lrs=None, fixed=[N, 2.0]), bounds="any learning rate"),
        Case("binary", classes([0, 1, 0], ["b", "a", "a"], 3), bounds="3 samples, 3 rounds, any tree outputs"),
        Case("binary-num", classes([1, 0], [3, -1], 2, lrs=(1.0, 0.25)), bounds="numeric labels"),
        Case("multi", classes([0, 1, 0], ["c", "a", "b"], 2, nw=(0, 2, 3, 4)), bounds="3 classes, 2 rounds, 4 of 6 trees with any outputs"),
        Case("multi-4", classes([0, 1, 0, 1], [4, 1, 2, 3], 1), bounds="4 classes"),
        Case("multi-12", classes([i % 2 for i in range(12)], [3, 11, 0, 10, 1, 2, 9, 4, 12, 5, 20, 100], 1, nw=(7,)), bounds="12 classes with labels of one to three digits, one tree with any outputs"),
        Case("multi-many", classes([0, 1, 0], ["c", "a", "b"], 5, nw=(11,)), bounds="3 classes, 5 rounds (15 trees), one tree with any outputs"),
        Case("stopping-4", stopping(4), bounds="any 4 losses, any tolerance, early stopping on or off"),
        Case("stopping-8", stopping(8, free=(3, 7)), bounds="8 rounds, losses 4 and 8 and the tolerance any"),
        Case("lse-8", lse([0, 1], rounds=8, fixed=[N, 1.5]), bounds="8 rounds, one label any"),
        Case("binary-12", classes([0, 1], ["no", "yes"], 12, nw=(11,)), bounds="12 rounds, the last tree with any outputs"),
        Case("binary-8", classes([0, 1], ["no", "yes"], 8, nw=(2,)), bounds="8 rounds, one tree with any outputs"),
        Case("stopping-multi", stopping(3, stops=(True,), dim=3, nh=2), bounds="3 classes, 2 hosts"),
        Case("imp-two", importance("two", [N, 1.0, N, -2.0]), bounds="guest+1 host, 2 gradients any"),
        Case("imp-3p", importance("three-parties", [N, 1.0, -1.5, -2.0]), bounds="guest+2 hosts, 1 gradient any"),
        Case("imp-deep", importance("eight", [N, 1.5, -3.0, 2.0, -0.5, 1.0, -2.0, 0.25], depth=4, mg=0.0), bounds="8 samples, depth 4, 1 gradient any"),
        Case("imp-features", importance("two-features", [1.0, N, 3.0, -2.5], depth=3, mg=0.0, batch=1), bounds="2 features each, batches of 1"),
        Case("start-lse", start(3, "lse"), bounds="any 3 labels"),
        Case("start-lae", start(3, "lae"), bounds="any 3 labels"),
        Case("start-huber", start(2, "huber", [1.5], rounds=2), bounds="any 2 labels"),
        Case("start-fair", start(2, "fair", [1.5]), bounds="any 2 labels"),
        Case("start-tweedie", start(2, "tweedie", [1.5]), bounds="any 2 positive labels"),
        Case("start-log-cosh", start(2, "log_cosh"), bounds="any 2 labels"),
    ]
    if big:
        out += [
            Case("lse-4", lse([0, 1, 1, 0], rounds=4, lrs=(0.5, 0.1)), path_s=120, bounds="4 samples, any labels, 4 rounds"),
            Case("lse-stop-2", lse([0, 1, 1], rounds=4, stop=True, fixed=[N, 1.5, N]), path_s=240, bounds="2 labels any, any tolerance, 4 rounds"),
            Case("multi-all", classes([0, 1, 0], ["c", "a", "b"], 2), bounds="3 classes, 2 rounds, any tree outputs"),
            Case("multi-3r", classes([0, 1, 0, 1], ["c", "a", "b", "a"], 3, nw=(0, 2, 4, 5, 7)), bounds="3 classes, 3 rounds"),
            Case("binary-5", classes([0, 1, 0, 1], [0, 1, 1, 0], 5), bounds="5 rounds"),
            Case("stopping-6", stopping(6), bounds="any 6 losses"),
            Case("start-lae-4", start(4, "lae"), bounds="any 4 labels"),
            Case("start-lse-5", start(5, "lse", rounds=2), bounds="any 5 labels"),
        ]
    return out
