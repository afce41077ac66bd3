"""C25: the caller's data stays as it was; the sparse form."""
import copy
from fractions import Fraction
from symx.runner import Case
from checks.trees import exact
from checks.boost import Boost, scalar
from checks.common import table, instance, sep
from checks.c19 import conf, Stub

DESC = ("Binning, training and prediction run on tables with symbolic feature values; afterwards the caller's tables are compared with a "
        "snapshot, and predictions on the used tables with those on fresh copies; the sparse form of a symbolic row is compared with the "
        "definition.")
ZERO = 1e-6


def values(h, inst):
    """(kind, {column: value} or list, shape) of the features"""
    f = inst.features
    if hasattr(f, "get_all_data"):
        return ("sparse", dict(f.get_all_data()), f.get_shape())
    return ("dense", [f[i] for i in range(f.shape[0])], f.shape[0])


def snap(h, t):
    return (copy.deepcopy(t.schema) if t.schema is not None else None,
            [(k, v.inst_id, v.label, v.weight, values(h, v)) for k, v in t.collect()])


def eq(h, a, b):
    """two numbers or keys are the same"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    return a == b


def unchanged(h, t, before, what, key="unchanged"):
    schema, rows = before
    h.check((dict(t.schema) if t.schema is not None else None) == schema, "the schema %s" % what, key + "-schema")
    now = list(t.collect())
    h.check(len(now) == len(rows), "the rows %s" % what, key + "-rows")
    for (k, v), (k0, i0, l0, w0, f0) in zip(now, rows):
        h.check(eq(h, k, k0), "the ids %s" % what, key + "-ids")
        h.check(eq(h, v.inst_id, i0) and eq(h, v.weight, w0), "the instances %s" % what, key + "-instance")
        h.check(eq(h, v.label, l0), "the labels %s" % what, key + "-label")
        f = values(h, v)
        if not (f[0] == f0[0] and f[2] == f0[2] and len(f[1]) == len(f0[1])):
            h.check(False, "the features %s" % what, key + "-features")
            continue
        if f[0] == "dense":
            pairs = zip(f[1], f0[1])
        else:
            if list(f[1]) != list(f0[1]):
                h.check(False, "the features %s" % what, key + "-features")
                continue
            pairs = [(f[1][c], f0[1][c]) for c in f0[1]]
        for x, y in pairs:
            h.check(eq(h, x, y), "the features %s" % what, key + "-features")


def transform(n, sparse=False, cols=None):
    """the sparse form"""
    def fn(h):
        h.world()
        xs = [h.real("x%d" % i, -2, 2) for i in range(n)]
        lab = h.real("y", -4, 4)
        B = h.cls("ml.tree.boosting_tree", "BoostingTree")
        if sparse:
            has = [h.boolean("has%d" % i) for i in range(n)]
            feats = {i: x for i, x in enumerate(xs) if has[i]}
            inst = instance(h, feats, label=lab, inst_id="a", sparse=True, shape=n)
        else:
            inst = instance(h, xs, label=lab, inst_id="a")
        t = table(h, [("a", inst)], header=["c%d" % (n - i) for i in range(n)])
        before = snap(h, t)
        b = B()
        out = b.data_alignment(t)
        unchanged(h, t, before, "stay as they were")
        rows = list(out.collect())
        h.check(len(rows) == 1 and rows[0][0] == "a", "one row per sample", "rows")
        r = rows[0][1]
        h.check(r.inst_id == "a" and eq(h, r.label, lab), "ids and labels are kept", "labels")
        h.check(list(out.schema["header"]) == ["c%d" % (n - i) for i in range(n)], "the header is kept", "header")
        kind, vals, shape = values(h, r)
        h.check(kind == "sparse" and shape == n, "the sparse form has the original shape", "shape")
        for i, x in enumerate(xs):
            if sparse:
                h.check((i in vals) == has[i], "sparse rows keep their entries", "entries")
            else:
                small = h.branch(h.land(x < ZERO, -x < ZERO))
                h.check((i in vals) == (not small), "exactly the entries of magnitude at least 1e-6 are kept", "entries")
            if i in vals:
                h.check(vals[i] == x, "with their column and value", "value")
            elif not sparse:
                pass
        h.check(all(isinstance(c, int) and 0 <= c < n for c in vals), "no other entries", "columns")
    return fn


def empty(h):
    h.world()
    b = h.cls("ml.tree.boosting_tree", "BoostingTree")()
    h.expect((ValueError,), b.data_alignment, table(h, [], header=["a"]), key="empty", msg="an empty table is rejected")
    which = h.choose("party", 2)
    name = [("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest"),
            ("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost")][which]
    m = h.cls(*name)()
    m._init_model(h.cls("ml.param.boosting_tree_param", "BoostingTreeParam")())
    if h.choose("call", 2):
        h.expect((ValueError,), m.fit, table(h, [], header=["a"]), key="empty-fit", msg="training on an empty table is rejected")
    else:
        h.expect((ValueError,), m.predict, table(h, [], header=["a"]), key="empty-predict", msg="predicting an empty table is rejected")


def binning(n, ncol, sparse=False, bins=2, cols=None, twice=False):
    def fn(h):
        h.world()
        rows = []
        for r in range(n):
            xs = [h.real("x%d_%d" % (r, c), -2, 2) if c == 0 else float((r * 3 + c) % 4 + 1) for c in range(ncol)]
            if sparse:
                inst = instance(h, {i: x for i, x in enumerate(xs)}, label=r, inst_id="k%d" % r, sparse=True, shape=ncol)
            else:
                inst = instance(h, xs, label=r, inst_id="k%d" % r)
            rows.append(("k%d" % r, inst))
        sep(h, [values(h, v)[1][0] for _, v in rows], 2.0 ** -6)
        t = table(h, rows, header=["c%d" % (ncol - i) for i in range(ncol)])
        before = snap(h, t)
        P = h.cls("ml.param.feature_binning_param", "FeatureBinningParam")
        Q = h.cls("ml.feature.binning.quantile_binning", "QuantileBinning")
        q = Q(P(bin_num=bins, cols=cols if cols is not None else -1))
        q.fit_split_points(t)
        unchanged(h, t, before, "are not changed by fitting", "fit")
        first = q.convert_feature_to_bin(t)
        unchanged(h, t, before, "are not changed by the conversion", "convert")
        second = q.convert_feature_to_bin(t)
        a, b = dict(first[0].collect()), dict(second[0].collect())
        for k in a:
            x, y = values(h, a[k])[1], values(h, b[k])[1]
            for c in (range(len(x)) if not sparse else list(x)):
                h.check(eq(h, x[c], y[c]), "converting again gives the same bins", "again")
    return fn


def model(sparse=False, task="regression", n=3, free=((0, 0, 0),), rounds=1, nh=1, stub=True, depth=2):
    """fit and predict; free: (sample, party, feature) with any value"""
    def fn(h):
        h.hooks["noobs"] = True
        h.world()
        ks = ["s%d" % i for i in range(n)]
        base = [([[1.0 + i, 0.0], [2.0 * (i % 2) + 1.0]] + [[float(i % 3)]] * (nh - 1))[:nh + 1] for i in range(n)]
        rows = {k: [list(c) for c in base[i]] for i, k in enumerate(ks)}
        for i, p, f in free:
            rows[ks[i]][p][f] = h.real("x%d_%d_%d" % (i, p, f), -2, 6)
            sep(h, [rows[k][p][f] for k in ks], 2.0 ** -6)
        ys = [1.0, 3.0, -1.0, 0.5][:n] if task == "regression" else [0, 1, 1, 0][:n]
        c = conf(task, "lse" if task == "regression" else "cross_entropy", rounds, 0.5, max_depth=depth)
        c["tree_param"]["min_impurity_split"] = 0.0
        c["bin_num"] = 3
        b = Boost(h, rows, dict(zip(ks, ys)), c, sparse=sparse)
        b.models()
        tables = b.tables()
        before = [snap(h, t) for t in tables]
        b.fit(tables)
        for p, t in enumerate(tables):
            unchanged(h, t, before[p], "are not changed by training (party %d)" % p, "training")
        fresh = b.tables()
        want = b.predict(fresh)
        for p, t in enumerate(fresh):
            unchanged(h, t, before[p], "are not changed by prediction (party %d)" % p, "prediction")
        seq = h.pick("sequence", ["used", "again"])
        got = b.predict(tables if seq == "used" else fresh)
        h.check(set(got) == set(want), "the same samples", "same-samples")
        for k in want:
            h.check(len(got[k]) == len(want[k]) and eq(h, got[k][1], want[k][1]), "the same prediction", "same")
            h.close(got[k][2], want[k][2], "the same score", "same-score", tol=1e-6)
        if h.pick("more", [False, True]):
            b2 = Boost(h, rows, dict(zip(ks, ys)), c, sparse=sparse)
            b2.models()
            b2.fit(tables)               # training again on the same tables
            b3 = Boost(h, rows, dict(zip(ks, ys)), c, sparse=sparse)
            b3.models()
            b3.fit()
            a, d = b2.predict(), b3.predict()
            for k in a:
                h.close(a[k][2], d[k][2], "training on a used table gives the same model", "retrain", tol=1e-6)
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("dense-form", transform(4), bounds="a row of 4, any values in [-2,2]"),
        Case("sparse-form", transform(4, True), bounds="a sparse row of 4"),
        Case("empty", empty, bounds="training and prediction at both parties"),
        Case("binning-dense", binning(3, 2), bounds="3 rows, 2 columns, any values in one"),
        Case("binning-sparse", binning(3, 2, True), bounds="3 sparse rows"),
        Case("binning-cols", binning(3, 3, False, cols=[0, 2]), bounds="a selection of columns"),
        Case("model", model(), bounds="3 samples, one guest value any"),
        Case("model-host", model(free=((1, 1, 0),)), bounds="one host value any"),
        Case("model-sparse", model(True, free=((0, 0, 0),), rounds=2), bounds="sparse rows, 2 rounds"),
        Case("model-class", model(task="classification", free=((2, 0, 1),)), bounds="classification"),
        Case("model-2h", model(nh=2, free=((0, 0, 0),), depth=3), bounds="2 hosts, depth 3"),
    ]
    if big:
        out += [
            Case("dense-form-6", transform(6), bounds="a row of 6"),
            Case("binning-dense-4", binning(4, 2, bins=3), bounds="4 rows, 3 bins"),
            Case("model-2", model(free=((0, 0, 0), (1, 1, 0))), path_s=120, bounds="two values any"),
            Case("model-4", model(n=4, free=((0, 0, 0), (3, 0, 1)), depth=3, rounds=2), path_s=120, bounds="4 samples, 2 rounds"),
        ]
    return out
