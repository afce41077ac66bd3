"""C17: what the guest gets to see."""
from symx.runner import Case
from checks.trees import Setup, exact
from checks.c13 import PLACE
from checks.boost import Boost
from checks.c19 import conf
from checks.leak import messages, same, flat
from checks.common import table, instance

DESC = ("Self-composition: guest and hosts train and predict twice with the same gradients, labels and guest data and with host data that "
        "fall in the same bins but have different symbolic values and split points; everything the guest received, ciphertexts "
        "compared by their content, and the guest's model must be the same, for every pair of host data.")


def host_columns(h, place, run, nb, extra, spread, least=-16):
    """symbolic split points of the hosts and sample values inside the bins; the guest's are concrete"""
    cols, vals = [], []
    for p, feats in enumerate(place):
        cs, vs = [], []
        for f, bins in enumerate(feats):
            if p == 0:
                cs.append([0.5 + j for j in range(nb - 1)])
                vs.append([float(b) for b in bins])
                continue
            pts = [h.real("t%d_%d_%d_%d" % (run, p, f, j), least, 16) for j in range(nb - 1)]
            for a, b in zip(pts, pts[1:]):
                h.assume(b >= a + 1)
            col = []
            for i, b in enumerate(bins):
                lo, hi = (pts[b - 1] if b else None), (pts[b] if b < len(pts) else None)
                if (p, f, i) in spread:
                    x = h.real("v%d_%d_%d_%d" % (run, p, f, i), -32, 32)
                    if lo is not None:
                        h.assume(x > lo)
                    if hi is not None:
                        h.assume(x <= hi)
                elif hi is not None:
                    x = hi - (0.25 if run else 0.5)
                else:
                    x = lo + (0.25 if run else 0.5)
                col.append(x)
            if extra and run:       # a further, empty bin below the others
                pts = [exact(h, -100)] + pts
            cs.append(pts)
            vs.append(col)
        cols.append(cs)
        vals.append(vs)
    return cols, vals


def tree(name, fixed, hess=None, depth=2, mg=0.25, batch=65536, min_leaf=1, spread=(), extra=False, gany=(), valid=None, sparse=False, least=-16):
    place, nb = PLACE[name]

    def fn(h):
        h.world()
        n = len(place[0][0])
        ks = ["s%d" % i for i in range(n)]
        hs = hess or [0.25 * (1 + i % 3) for i in range(n)]
        gh = {k: (h.real("g%d" % i, -4, 4) if i in gany else exact(h, fixed[i]), exact(h, hs[i])) for i, k in enumerate(ks)}
        runs = []
        for r in (0, 1):
            cols, vals = host_columns(h, place, r, nb, extra, spread, least)
            data = {k: [[vals[p][f][i] for f in range(len(place[p]))] for p in range(len(place))] for i, k in enumerate(ks)}
            s = Setup(h, cols, data, gh, depth=depth, mg=mg, batch=batch, min_leaf=min_leaf, valid=valid, sparse=sparse)
            g, hosts, fed = s.train()
            log = list(fed.log)
            model = flat(g.get_model(), opaque=False)
            out = s.predict(g, hosts, [s.raw(p) for p in range(len(cols))])
            runs.append((s, log, list(s.pfed.log), model, out, g))
        a, b = runs
        for k in range(a[0].nh):
            same(h, messages(a[1], "guest", k), messages(b[1], "guest", k), "training, from host %d" % k, "training", opaque=False)
            same(h, messages(a[2], "guest", k), messages(b[2], "guest", k), "prediction, from host %d" % k, "prediction", opaque=False)
        compare_models(h, a[3], b[3])
        for x in a[5].tree_:
            if not x.is_leaf and x.sitename != "guest":
                h.check(x.bid is None or x.bid == -1, "the guest has no bin of a host's split", "bin")
    return fn


def compare_models(h, a, b):
    h.check([p for p, _ in a] == [p for p, _ in b], "the guest's model has the same shape", "model-shape")
    for (p, u), (q, v) in zip(a, b):
        if u is v:
            continue
        if u is None or v is None or isinstance(u, str) != isinstance(v, str):
            h.check(False, "the guest's model: %s is the same" % p, "model")
        else:
            h.check(u == v if h.symbolic or not isinstance(u, float) else abs(u - v) <= 1e-9, "the guest's model: %s is the same" % p, "model")


def model(cols, labels, task="regression", rounds=1, bins=4, free=None, depth=2, sparse=False, rate=None, newcols=None):
    """whole models: host columns are given as ranks; both runs have symbolic positive values with those ranks"""
    def fn(h):
        h.hooks["noobs"] = True
        h.world()
        n = len(labels)
        ks = ["s%d" % i for i in range(n)]
        runs = []
        picked = None
        for r in (0, 1):
            rows = {k: [[float(1 + i % 2)]] for i, k in enumerate(ks)}
            for p, feats in enumerate(cols):
                vals = []
                for f, ranks in enumerate(feats):
                    # value of rank j
                    vs = {}
                    prev = None
                    for j in sorted(set(ranks)):
                        if free is None or j in free:
                            x = h.real("x%d_%d_%d_%d" % (r, p, f, j), 1, 64)
                        else:
                            x = exact(h, 10 * (j + 1) + 5 * r)
                        if prev is not None:
                            h.assume(x >= prev + 0.5)
                        vs[j] = prev = x
                    vals.append([vs[j] for j in ranks])
                for i, k in enumerate(ks):
                    rows[k].append([v[i] for v in vals])
            c = conf(task, "lse" if task == "regression" else "cross_entropy", rounds, 0.5, max_depth=depth)
            c["bin_num"] = bins
            c["tree_param"]["min_impurity_split"] = 0.0
            b = Boost(h, rows, dict(zip(ks, labels)), c, sparse=sparse)
            g, hosts = b.models()
            b.fit()
            out = b.predict()
            m = flat([g.trees_, g.tree_meta, g.tree_dim, g.init_score, sorted(g.feature_importances_.items())], opaque=False)
            runs.append((list(b.fed.log), list(b.pfed.log), m, out))
        a, b = runs
        for k in range(len(cols)):
            same(h, messages(a[0], "guest", k), messages(b[0], "guest", k), "training, from host %d" % k, "training", opaque=False)
            same(h, messages(a[1], "guest", k), messages(b[1], "guest", k), "prediction, from host %d" % k, "prediction", opaque=False)
        compare_models(h, a[2], b[2])
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("two", tree("two", [1.0, -2.0, 3.0, 0.5], spread=((1, 0, 0), (1, 0, 3))), bounds="4 samples, one split point and two values any"),
        Case("two-any", tree("two", [1.0, None, 3.0, 0.5], gany=(1,)), bounds="one gradient any"),
        Case("nested", tree("nested", [1.0, -2.0, 0.25, 3.5], depth=3, mg=0.0, spread=((1, 0, 3),)), bounds="depth 3"),
        Case("two-features", tree("two-features", [1.0, -2.0, 3.0, -0.5], depth=3, mg=0.0, spread=((1, 0, 1), (1, 1, 0))), bounds="2 features, 3 bins"),
        Case("extra-bin", tree("two-features", [1.0, -2.0, 3.0, -0.5], depth=3, mg=0.0, extra=True, batch=1), bounds="different bin numbering"),
        Case("wide-host", tree("wide-host", [1.0, None, -3.0, 2.0], gany=(1,), depth=3, mg=0.0, batch=1), bounds="three host features"),
        Case("3p", tree("three-parties", [1.0, -2.0, 3.0, -0.5], depth=3, mg=0.0, spread=((1, 0, 0), (2, 0, 1))), bounds="3 parties"),
        Case("3p-any", tree("three-parties", [None, -2.0, 3.0, -0.5], gany=(0,), depth=3, mg=0.0), bounds="3 parties, one gradient any"),
        Case("4p", tree("four-parties", [1.5, -2.0, 0.25, 1.0, -0.5, 3.0], depth=4, mg=0.0, batch=1, least=1), bounds="6 samples, guest+3 hosts, depth 4"),
        Case("eight-host", tree("eight-host", [1.5, 2.0, -3.0, None, -0.5, 4.0, -1.75, 2.5], gany=(3,), depth=5, mg=0.0, batch=2, spread=((1, 0, 3), (1, 1, 6)), sparse=True, least=1), bounds="8 samples, host with 6 bins, depth 5"),
        Case("min-leaf", tree("five", [1.0, -2.0, 3.0, -0.5, 2.0], depth=3, mg=0.0, min_leaf=2, spread=((1, 0, 4),)), bounds="min_leaf_node 2"),
        Case("masked", tree("two-features", [1.0, -2.0, 3.0, -0.5], depth=3, mg=0.0, valid=[[True, False], [False, True]]), bounds="feature masks"),
        Case("model", model([[[0, 1, 0, 1]]], [0.5, 2.0, -1.0, 3.0], rounds=2), bounds="boosting, 2 distinct values"),
        Case("model-3", model([[[0, 1, 2, 1], [1, 0, 0, 1]]], [0.5, 2.0, -1.0, 3.0]), bounds="boosting, 2 features"),
        Case("model-bin", model([[[0, 1, 1, 0]]], [0, 1, 1, 0], "classification"), bounds="two classes"),
        Case("model-multi", model([[[0, 1, 1, 0]], [[1, 0, 1, 0]]], [0, 1, 2, 0], "classification"), bounds="three classes, 2 hosts"),
        Case("model-few", model([[[0, 1, 2, 3]]], [0.5, 2.0, -1.0, 3.0], bins=2, depth=3), bounds="fewer bins than values"),
    ]
    if big:
        out += [
            Case("six", tree("six", [1.0, None, 3.0, -0.5, 2.0, -1.0], gany=(1,), depth=4, mg=0.0, batch=2, spread=((1, 0, 4), (1, 0, 1))),
                 path_s=120, bounds="6 samples, depth 4"),
            Case("two-features-any", tree("two-features", [1.0, None, 3.0, -0.5], gany=(1,), depth=3, mg=0.0, spread=((1, 0, 1), (1, 1, 0)), extra=True),
                 path_s=120, bounds="one gradient any"),
            Case("model-deep", model([[[0, 1, 2, 3, 1], [1, 0, 2, 1, 2]]], [0.5, 2.0, -1.0, 3.0, 1.5], bins=3, depth=4, rounds=2), path_s=120,
                 bounds="5 samples, two rounds"),
        ]
    return out
