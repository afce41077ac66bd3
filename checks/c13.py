"""C13: federated training equals training on the joined data."""
from symx.runner import Case
from checks.trees import Setup, exact

DESC = ("Guest and hosts train a whole tree over in-memory channels (real code of all parties, ghost cipher); the leaf outputs are "
        "compared with a reference trainer that holds all columns, for symbolic gradients (fixed placements) and for symbolic "
        "feature values (fixed gradients).")

# placements of samples in bins: {party: [[bin of each sample] per feature]}
PLACE = {
    "two": ([[[0, 0, 1, 1]], [[0, 1, 0, 1]]], 2),
    "nested": ([[[0, 1, 1, 1]], [[0, 0, 0, 1]]], 2),
    "three-parties": ([[[0, 0, 1, 1]], [[0, 1, 0, 1]], [[0, 1, 1, 0]]], 2),
    "two-features": ([[[0, 0, 1, 2], [1, 0, 0, 1]], [[0, 1, 0, 2], [0, 1, 1, 1]]], 3),
    "wide-host": ([[[0, 0, 0, 0]], [[0, 1, 0, 1], [1, 1, 0, 0], [0, 0, 1, 0]]], 2),
    "five": ([[[0, 0, 1, 1, 1]], [[0, 1, 0, 1, 2]]], 3),
    "six": ([[[0, 0, 1, 1, 2, 2]], [[0, 1, 0, 1, 0, 1]]], 3),
    "eight": ([[[0, 1, 2, 3, 3, 2, 1, 0]], [[3, 0, 1, 2, 4, 4, 2, 1]]], 5),
    "eight-host": ([[[0, 0, 0, 0, 0, 0, 0, 1]], [[0, 1, 2, 3, 4, 5, 3, 1], [2, 1, 0, 2, 1, 0, 2, 1]]], 6),
    "four-parties": ([[[0, 0, 0, 1, 1, 1]], [[0, 1, 0, 1, 0, 1]], [[0, 0, 1, 1, 0, 1], [1, 1, 0, 0, 1, 0]], [[1, 0, 2, 0, 1, 2]]], 3),
    "twelve": ([[[0, 1, 2, 3, 3, 2, 1, 0, 4, 5, 6, 6], [0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1]], [[3, 0, 1, 2, 4, 4, 2, 1, 5, 0, 6, 3]],
                [[0, 1, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0], [6, 5, 4, 3, 2, 1, 0, 0, 1, 2, 3, 4]]], 7),
    "twelve-parties": ([[[0, 1, 0, 1, 0, 1, 0, 1]]] + [[[1 if (i * (k + 3) + k) % 8 < 3 else 0 for i in range(8)]] for k in range(10)] + [[[0, 0, 0, 1, 0, 1, 1, 0]]], 2),
    "many-features": ([[[1 if (i * (f + 2) + f) % 6 < 2 else 0 for i in range(6)] for f in range(12)],
                       [[1 if (i * (f + 3) + 2 * f) % 7 < 3 else 0 for i in range(6)] for f in range(11)] + [[0, 1, 0, 0, 1, 1]] + [[0, 0, 1, 2, 1, 2]]], 3),
    "forty": ([[[i % 7 for i in range(40)], [(i * i + i // 7) % 11 for i in range(40)]], [[(3 * i + i // 5) % 12 for i in range(40)], [i // 14 for i in range(40)]]], 12),
    "three": ([[[0, 0, 1]], [[0, 1, 0]]], 2),
    "hosts-same-split": ([[[0, 0, 0, 1]], [[0, 0, 1, 1]], [[1, 1, 0, 0]]], 2),
}


FORTY = [None if i == 17 else ((i * 37 + i * i * 13) % 101 - 50) / 16.0 for i in range(40)]


def concrete_rows(place, keys):
    """raw values so that sample i of feature f lies in the given bin (thresholds 0.5, 1.5, ...)"""
    return {k: [[float(col[i]) for col in cols] for cols in place] for i, k in enumerate(keys)}


def grads(name, hess=None, depth=2, lam=0.5, mg=0.25, min_sample=2, min_leaf=1, batch=65536, sparse=False, valid=None, keys=None,
          shuffled=False, gr=4, fixed=None, names=None):
    place, nb = PLACE[name]

    def fn(h):
        h.world()
        n = len(place[0][0])
        ks = keys or ["s%d" % i for i in range(n)]
        hs = hess or [0.25 * (1 + i % 3) for i in range(n)]
        gh = {k: (exact(h, fixed[i]) if fixed and fixed[i] is not None else h.real("g%d" % i, -gr, gr), exact(h, hs[i]))
              for i, k in enumerate(ks)}
        cols = [[[0.5 + j for j in range(nb - 1)] for _ in p] for p in place]
        order = None
        if shuffled:
            order = [ks] + [list(reversed(ks)) if p % 2 else ks[1:] + ks[:1] for p in range(len(place) - 1)]
        s = Setup(h, cols, concrete_rows(place, ks), gh, depth=depth, lam=lam, mg=mg, min_sample=min_sample, min_leaf=min_leaf,
                  batch=batch, sparse=sparse, valid=valid, order=order, names=names)
        ref = s.reference()
        g, hosts, fed = s.train()
        out = dict(g.predict_weights.collect())
        h.check(set(out) == set(ks), "every sample has an output", "samples")
        for k in ks:
            h.close(out[k], ref[k], "the output of the joined trainer", "output")
    return fn


def values(cols, n, gs, hs=None, depth=2, lam=0.5, mg=0.25, min_leaf=1, batch=65536, sparse=False, fixed=None):
    """symbolic feature values; fixed: {(sample, party, feature): value}"""
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        data = {}
        for i, k in enumerate(ks):
            data[k] = [[fixed[i, p, f] if fixed and (i, p, f) in fixed else h.real("x%d_%d_%d" % (i, p, f), -4, 4)
                        for f in range(len(c))] for p, c in enumerate(cols)]
        gh = {k: (h.real("g%d" % i, -4, 4) if gs[i] is None else exact(h, gs[i]), exact(h, hs[i] if hs else 0.5)) for i, k in enumerate(ks)}
        s = Setup(h, cols, data, gh, depth=depth, lam=lam, mg=mg, min_leaf=min_leaf, batch=batch, sparse=sparse)
        ref = s.reference()
        g, hosts, fed = s.train()
        out = dict(g.predict_weights.collect())
        h.check(set(out) == set(ks), "every sample has an output", "samples")
        for k in ks:
            h.close(out[k], ref[k], "the output of the joined trainer", "output")
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    out = [
        Case("grads-two", grads("two", fixed=[N, 1.0, N, -2.0]), bounds="4 samples, guest+1 host, depth 2, 2 gradients any in [-4,4]"),
        Case("grads-three", grads("three", depth=3), bounds="3 samples, depth 3, all gradients any"),
        Case("grads-two-depth3", grads("two", depth=3, fixed=[N, 1.5, -0.5, N]), bounds="4 samples, depth 3"),
        Case("grads-3p", grads("three-parties", fixed=[N, 1.0, N, -2.0]), bounds="4 samples, guest+2 hosts"),
        Case("grads-3p-deep", grads("three-parties", fixed=[N, 1.0, -2.0, 0.5], depth=4, mg=0.0, batch=1), bounds="4 samples, guest+2 hosts, depth 4, batches of 1"),
        Case("grads-2f", grads("two-features", fixed=[N, 1.0, 3.0, N], mg=1.0, min_leaf=2), bounds="4 samples, 2 features each, leaves of 2"),
        Case("grads-2f-sparse", grads("two-features", fixed=[N, 1.0, -3.0, 0.25], depth=3, sparse=True, shuffled=True), bounds="4 samples, sparse bins, other row order at the host"),
        Case("grads-valid", grads("two-features", fixed=[N, 1.0, -3.0, 0.25], depth=3, valid=[[False, True], [True, False]]), bounds="one feature of two sampled"),
        Case("grads-wide", grads("wide-host", fixed=[1.0, N, -3.0, N], depth=3, batch=2, lam=1.0), bounds="guest without useful feature, host with 3"),
        Case("grads-none", grads("wide-host", fixed=[1.0, N, -3.0, N], depth=3, valid=[[True], [False, False, False]]), bounds="no split anywhere"),
        Case("grads-five", grads("five", fixed=[1.0, N, -3.0, 2.0, -0.5], depth=4, mg=0.0, batch=2), bounds="5 samples, depth 4, batches of 2"),
        Case("grads-six", grads("six", fixed=[N, 2.0, -3.0, 1.0, -0.5, 4.0], depth=4, mg=0.0, min_sample=3, batch=1), bounds="6 samples, depth 4, min sample 3"),
        Case("grads-eight", grads("eight", fixed=[N, 2.0, -3.0, 1.0, -0.5, 4.0, 1.75, -2.5], depth=5, mg=0.0), bounds="8 samples, 5 bins, depth 5"),
        Case("grads-eight-host", grads("eight-host", fixed=[1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5], depth=5, mg=0.0, batch=3, sparse=True), bounds="8 samples, host with 6 bins, depth 5, batches of 3"),
        Case("grads-4p", grads("four-parties", fixed=[1.5, -2.0, N, 1.0, -0.5, 3.0], depth=4, mg=0.0, batch=2), bounds="6 samples, guest+3 hosts, depth 4, batches of 2, one gradient any"),
        Case("grads-twelve", grads("twelve", fixed=[1.5, 2.0, -3.0, 0.5, -0.5, 4.0, -1.75, N, 1.25, -2.25, 3.5, -1.0], depth=6, mg=0.0, batch=3),
             bounds="12 samples, guest+2 hosts, 5 features of 7 bins, depth 6, batches of 3, one gradient any"),
        Case("grads-12p", grads("twelve-parties", fixed=[1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5], depth=4, mg=0.0, names=[1, 2, 10, 11, 3, 100, 0, 12, 21, 110, 5]), bounds="8 samples, guest+11 hosts whose names are prefixes of one another, depth 4, one gradient any"),
        Case("grads-forty", grads("forty", fixed=FORTY, depth=7, mg=0.0, batch=5, gr=0.5), path_s=60, bounds="40 samples, 4 features of up to 12 bins, depth 7, batches of 5, one gradient any in [-1/2,1/2]"),
        Case("grads-24f", grads("many-features", fixed=[1.5, -2.0, N, 1.25, -0.5, 4.0], depth=4, mg=0.0, batch=2), bounds="6 samples, 12 guest and 13 host features, depth 4"),
        Case("grads-24f-valid", grads("many-features", fixed=[1.5, -2.0, 0.5, 1.25, N, 4.0], depth=3, mg=0.0, sparse=True,
                                      valid=[[f % 3 == 1 for f in range(12)], [f in (2, 10, 11) for f in range(13)]]), bounds="a few of 25 features sampled"),
        Case("grads-int-keys", grads("hosts-same-split", fixed=[N, 1.0, -3.0, N], keys=[11, 2, "2", 7], shuffled=True), bounds="integer and string ids"),
        Case("grads-depth1", grads("two", fixed=[N, N, N, N], depth=1), bounds="root only"),
        Case("grads-lam0", grads("two", fixed=[N, 1.0, -2.0, 0.5], depth=3, lam=0.0), bounds="lambda 0"),
        Case("values-4", values([[[0.5]], [[-0.5]]], 4, [N, -1.0, 0.5, -3.0], depth=3), bounds="4 samples, 2 features, all values, one gradient any"),
        Case("values-3p", values([[[0.5]], [[-0.5]], [[0.0]]], 3, [2.0, -1.0, -3.5], depth=3, batch=1), bounds="3 samples, 3 parties, all values"),
        Case("values-3bins", values([[[-0.5, 0.5]], [[-1.0, 1.0]]], 3, [2.0, N, -3.5], [1.0, 0.5, 0.25], depth=3, sparse=True), bounds="3 samples, 3 bins, all values, one gradient any"),
        Case("values-5", values([[[0.5]], [[-0.5]], [[0.25]]], 5, [2.0, -1.0, 0.5, -3.0, 1.25], depth=4, mg=0.0, batch=1,
                                fixed={(i, p, 0): v for p, vs in ((0, [1.0, 0.0, 0.0, 2.0]), (2, [1.0, -1.0, 1.0, -1.0, 1.0])) for i, v in enumerate(vs)}),
             bounds="5 samples, 3 parties, 6 of 15 values free"),
    ]
    if big:
        out += [
            Case("grads-two-all", grads("two"), path_s=240, bounds="4 samples, all gradients any"),
            Case("grads-two-depth3-all", grads("two", depth=3), path_s=240, bounds="4 samples, depth 3, all gradients any"),
            Case("grads-2f-2", grads("two-features", fixed=[N, 1.0, N, -2.0], depth=3), bounds="4 samples, 2 features each, depth 3"),
            Case("grads-3p-2", grads("three-parties", fixed=[N, 1.0, -2.0, N], depth=4, mg=0.0, batch=1), path_s=120, bounds="3 parties, depth 4"),
            Case("grads-six-2", grads("six", fixed=[N, 2.0, -3.0, 1.0, -0.5, N], depth=4, mg=0.0), path_s=120, bounds="6 samples, depth 4"),
            Case("values-3p-4", values([[[0.5]], [[-0.5]], [[0.0]]], 4, [2.0, -1.0, 0.5, -3.5], depth=3, batch=2), bounds="4 samples, 3 parties, all values"),
            Case("values-3bins-4", values([[[-0.5, 0.5]], [[-1.0, 1.0]]], 4, [2.0, -1.0, -3.5, 0.5], depth=4, mg=0.0), bounds="4 samples, 3 bins, all values"),
            Case("values-5-all", values([[[0.5]], [[-0.5]]], 5, [2.0, -1.0, 0.5, -3.0, 1.25], depth=4, mg=0.125, batch=1), bounds="5 samples, all values"),
            Case("values-4p", values([[[0.5]], [[-0.5]], [[0.0]], [[0.25]]], 3, [2.0, -1.0, -3.5], depth=3), bounds="3 samples, 4 parties, all values"),
        ]
    return out
