"""C12: trained trees are well formed; their leaves carry the optimal weights."""
from symx.runner import Case
from checks.trees import Setup, exact
from checks.c13 import FORTY, PLACE, concrete_rows

DESC = ("Guest and hosts train a whole tree over in-memory channels; the tree at every party, the routing of every sample, node sums "
        "and weights, minimum sizes and gains are checked for symbolic gradients, hessians and feature values.")


def route(h, s, parties, key, rows=None):
    """node ids from the root to the leaf, by the thresholds of the owners"""
    tree = parties[0].tree_
    nid, path = 0, [0]
    for _ in range(len(tree) + 1):
        n = tree[nid]
        if n.is_leaf:
            return path
        p = s.owner(n.sitename)
        x = (rows or s.data)[key][p][n.fid]
        t = s.threshold(parties, p, nid)
        nid = n.left_nodeid if h.branch(x <= t) else n.right_nodeid
        path.append(nid)
    return path


def inspect(h, s, g, hosts):
    parties = s.trees(g, hosts)
    tree = g.tree_
    n = len(tree)
    h.check(n >= 1, "there is a root", "shape")
    h.check([t.id for t in tree] == list(range(n)), "node i is at position i", "shape")
    nxt, level = 1, {0: 0}
    for t in tree:
        if t.is_leaf:
            h.check(t.left_nodeid == -1 and t.right_nodeid == -1, "a leaf has no children", "shape")
            continue
        h.check((t.left_nodeid, t.right_nodeid) == (nxt, nxt + 1), "the children of inner nodes follow in breadth-first order", "shape")
        level[nxt] = level[nxt + 1] = level[t.id] + 1
        nxt += 2
        p = s.owner(t.sitename)
        h.check(p is not None, "an inner node belongs to a party", "owner")
        if p is None:
            return
        f = t.fid
        h.check(f is not None and 0 <= f < len(s.columns[p]) and s.valid[p][f], "the split feature is a sampled feature of its owner", "owner")
        th = s.threshold(parties, p, t.id)
        h.check(th is not None and any(bool(th == x) for x in s.columns[p][f]), "the threshold is a split point of the feature", "owner")
        if th is None:
            return
    h.check(nxt == n, "every node but the root has exactly one parent", "shape")
    h.check(all(level.get(i, 0) <= s.depth for i in range(n)), "the depth stays within the maximum", "depth")
    for k, t in enumerate(hosts):
        h.check(len(t.tree_) == n, "the host has the same nodes", "host-copy")
        for a, b in zip(tree, t.tree_):
            h.check((a.id, a.sitename, a.is_leaf, a.left_nodeid, a.right_nodeid) == (b.id, b.sitename, b.is_leaf, b.left_nodeid, b.right_nodeid),
                    "the host has the same structure", "host-copy")
        used = [a.id for a in tree if not a.is_leaf and s.owner(a.sitename) == k + 1]
        h.check(set(t.split_maskdict) == set(used), "the host keeps the thresholds of its split nodes only", "host-copy")
    members = {i: [] for i in range(n)}
    out = g.predict_weights.collect()
    out = list(out)
    h.check(len(out) == len(s.keys) and set(k for k, _ in out) == set(s.keys), "every sample ends in exactly one leaf", "samples")
    out = dict(out)
    for key in s.keys:
        path = route(h, s, parties, key)
        for i in path:
            members[i].append(key)
        h.check(tree[path[-1]].is_leaf, "the route ends in a leaf", "samples")
        h.close(out.get(key), tree[path[-1]].weight, "the sample has the weight of its leaf", "samples")
    for t in tree:
        m = members[t.id]
        h.check(len(m) >= 1, "no empty node", "min-leaf")
        G, H = s.sums(m)
        h.close(t.sum_grad, G, "gradient sum of the samples in the node", "sums")
        h.close(t.sum_hess, H, "hessian sum of the samples in the node", "sums")
        h.close(t.weight * (H + s.lam), -G, "the optimal weight", "weight", tol=1e-7)
        if not t.is_leaf:
            L, R = members[t.left_nodeid], members[t.right_nodeid]
            h.check(len(L) >= s.min_leaf and len(R) >= s.min_leaf, "both sides have the minimum number of samples", "min-leaf")
            h.check(len(m) >= s.min_sample, "the split node has the minimum number of samples", "min-sample")
            x = s.gain(L, R)
            mg = exact(h, s.mg)
            h.check(h.lt(mg, x) if h.symbolic else x > s.mg - 1e-9, "the split gains more than the minimum", "gain", weak=(x > mg - 1e-9) if h.symbolic else None)


def grads(name, fixed=None, hess=None, nb=None, keys=None, shuffled=False, gr=4, **opts):
    place, nb = PLACE[name]

    def fn(h):
        h.world()
        n = len(place[0][0])
        ks = keys or ["s%d" % i for i in range(n)]
        hs = hess or [0.25 * (1 + i % 3) for i in range(n)]
        gh = {}
        for i, k in enumerate(ks):
            a = h.real("g%d" % i, -gr, gr) if not fixed or fixed[i] is None else exact(h, fixed[i])
            b = h.real("h%d" % i, 0, 4) if hs[i] is None else exact(h, hs[i])
            gh[k] = (a, b)
        cols = [[[0.5 + j for j in range(nb - 1)] for _ in p] for p in place]
        order = [ks] + [list(reversed(ks)) if p % 2 else ks[1:] + ks[:1] for p in range(len(place) - 1)] if shuffled else None
        s = Setup(h, cols, concrete_rows(place, ks), gh, order=order, **opts)
        g, hosts, fed = s.train()
        inspect(h, s, g, hosts)
    return fn


def values(cols, n, gs, hs=None, fixed=None, **opts):
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        data = {}
        for i, k in enumerate(ks):
            data[k] = [[fixed[i, p, f] if fixed and (i, p, f) in fixed else h.real("x%d_%d_%d" % (i, p, f), -4, 4)
                        for f in range(len(c))] for p, c in enumerate(cols)]
        gh = {k: (h.real("g%d" % i, -4, 4) if gs[i] is None else exact(h, gs[i]), exact(h, hs[i] if hs else 0.5)) for i, k in enumerate(ks)}
        s = Setup(h, cols, data, gh, **opts)
        g, hosts, fed = s.train()
        inspect(h, s, g, hosts)
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    fx5 = {(i, p, 0): v for p, vs in ((0, [1.0, 0.0, 0.0, 2.0]), (2, [1.0, -1.0, 1.0, -1.0, 1.0])) for i, v in enumerate(vs)}
    out = [
        Case("two", grads("two", [N, 1.0, N, -2.0]), bounds="4 samples, guest+1 host, depth 2, 2 gradients any in [-4,4]"),
        Case("three", grads("three", depth=3), bounds="3 samples, depth 3, all gradients any"),
        Case("two-deep", grads("two", [N, 1.5, -0.5, N], depth=3), bounds="4 samples, depth 3"),
        Case("two-deeper", grads("two", [N, 1.5, -0.5, 2.0], depth=5, mg=0.0), bounds="4 samples, depth 5 (deeper than needed)"),
        Case("3p", grads("three-parties", [N, 1.0, N, -2.0]), bounds="4 samples, guest+2 hosts"),
        Case("3p-deep", grads("three-parties", [N, 1.0, -2.0, 0.5], depth=4, mg=0.0, batch=1), bounds="guest+2 hosts, depth 4, batches of 1"),
        Case("2f-leaf2", grads("two-features", [N, 1.0, 3.0, N], mg=1.0, min_leaf=2, depth=3), bounds="2 features each, leaves of 2"),
        Case("2f-sparse", grads("two-features", [N, 1.0, -3.0, 0.25], depth=3, sparse=True, shuffled=True), bounds="sparse bins, other row order at the host"),
        Case("2f-valid", grads("two-features", [N, 1.0, -3.0, 0.25], depth=3, valid=[[False, True], [True, False]]), bounds="one feature of two sampled"),
        Case("wide", grads("wide-host", [1.0, N, -3.0, N], depth=3, batch=2, lam=1.0), bounds="host with 3 features"),
        Case("five", grads("five", [1.0, N, -3.0, 2.0, -0.5], depth=4, mg=0.0, batch=2), bounds="5 samples, depth 4, batches of 2"),
        Case("six", grads("six", [N, 2.0, -3.0, 1.0, -0.5, 4.0], depth=4, mg=0.0, min_sample=3, batch=1), bounds="6 samples, min sample 3"),
        Case("six-leaf2", grads("six", [N, 2.0, -3.0, 1.0, -0.5, 4.0], depth=4, mg=0.0, min_leaf=2, batch=3), bounds="6 samples, leaves of 2"),
        Case("eight", grads("eight", [N, 2.0, -3.0, 1.0, -0.5, 4.0, 1.75, -2.5], depth=5, mg=0.0, batch=3), bounds="8 samples, 5 bins, depth 5, batches of 3"),
        Case("eight-host", grads("eight-host", [1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5], depth=5, mg=0.0, sparse=True), bounds="8 samples, host with 6 bins, depth 5"),
        Case("4p", grads("four-parties", [N, 1.0, -2.0, 0.5, 3.0, -1.5], depth=4, mg=0.0, batch=1), bounds="guest+3 hosts, depth 4"),
        Case("forty", grads("forty", FORTY, depth=7, mg=0.0, batch=5, gr=0.5), path_s=60, bounds="40 samples, 4 features of up to 12 bins, depth 7, batches of 5, one gradient any in [-1/2,1/2]"),
        Case("twelve", grads("twelve", [1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5, 0.25, -1.0, 3.0, -2.25], depth=5, mg=0.0, batch=2, min_leaf=2), bounds="12 samples, depth 5, leaves of 2"),
        Case("many-features", grads("many-features", [1.5, -2.0, N, 1.25, -0.5, 4.0], depth=4, mg=0.0, batch=2), bounds="6 samples, 12 guest and 13 host features, depth 4"),
        Case("zero-hess", grads("two", [N, 1.5, -0.5, 2.0], [0.0, 0.5, 0.0, 0.0], depth=4, mg=0.0), bounds="hessians of 0"),
        Case("hess", grads("three", [1.0, -2.0, 0.5], [N, 0.5, N], depth=3), bounds="3 samples, hessians any in [0,4]"),
        Case("int-keys", grads("hosts-same-split", [N, 1.0, -3.0, N], keys=[11, 2, "2", 7], shuffled=True), bounds="integer and string ids"),
        Case("root", grads("two", depth=1), bounds="root only"),
        Case("values-4", values([[[0.5]], [[-0.5]]], 4, [N, -1.0, 0.5, -3.0], depth=3), bounds="4 samples, 2 features, all values, one gradient any"),
        Case("values-3p", values([[[0.5]], [[-0.5]], [[0.0]]], 3, [2.0, -1.0, -3.5], depth=3, batch=1), bounds="3 samples, 3 parties, all values"),
        Case("values-3bins", values([[[-0.5, 0.5]], [[-1.0, 1.0]]], 3, [2.0, -1.0, -3.5], [1.0, 0.5, 0.25], depth=3, sparse=True), bounds="3 samples, 3 bins, all values"),
        Case("values-5", values([[[0.5]], [[-0.5]], [[0.25]]], 5, [2.0, -1.0, 0.5, -3.0, 1.25], depth=4, mg=0.0, batch=1, fixed=fx5), bounds="5 samples, 3 parties, 6 of 15 values free"),
    ]
    if big:
        out += [
            Case("two-all", grads("two"), path_s=240, bounds="all gradients any"),
            Case("two-deep-all", grads("two", depth=3), path_s=240, bounds="depth 3, all gradients any"),
            Case("values-3bins-g", values([[[-0.5, 0.5]], [[-1.0, 1.0]]], 3, [2.0, N, -3.5], [1.0, 0.5, 0.25], depth=3, sparse=True), bounds="3 samples, 3 bins, all values, one gradient any"),
            Case("hess-3", grads("three", [1.0, -2.0, 0.5], [N, N, N], depth=3), path_s=120, bounds="all hessians any"),
            Case("2f-3", grads("two-features", [N, 1.0, N, -2.0], depth=3), bounds="2 features each, depth 3"),
            Case("3p-2", grads("three-parties", [N, 1.0, -2.0, N], depth=4, mg=0.0, batch=1), path_s=120, bounds="3 parties, depth 4"),
            Case("six-2", grads("six", [N, 2.0, -3.0, 1.0, -0.5, N], depth=4, mg=0.0), path_s=120, bounds="6 samples"),
            Case("values-3p-4", values([[[0.5]], [[-0.5]], [[0.0]]], 4, [2.0, -1.0, 0.5, -3.5], depth=3, batch=2), bounds="4 samples, 3 parties, all values"),
            Case("values-3bins-4", values([[[-0.5, 0.5]], [[-1.0, 1.0]]], 4, [2.0, -1.0, -3.5, 0.5], depth=4, mg=0.0), bounds="4 samples, 3 bins, all values"),
            Case("values-5-all", values([[[0.5]], [[-0.5]]], 5, [2.0, -1.0, 0.5, -3.0, 1.25], depth=4, mg=0.125, batch=1), bounds="5 samples, all values"),
        ]
    return out
