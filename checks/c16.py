"""C16: what hosts get to see."""
from symx.runner import Case
from checks.trees import Setup, exact
from checks.c13 import PLACE, concrete_rows
from checks.boost import Boost
from checks.c19 import conf
from checks.leak import messages, same, holds_key

DESC = ("Self-composition: guest and hosts train (and predict) twice with the same host data but different symbolic gradients or labels and "
        "different guest values and thresholds; whenever the two runs have the same tree structure, sample positions and choices among "
        "the host's own candidates, everything each host received (ciphertexts opaque) must be equal, for every pair of inputs.")


def structure(s, g, hosts):
    """what a host may know: the nodes, where the samples are, and the choice among its own candidates at each node"""
    h = s.h
    parties = [g] + list(hosts)
    node = {x.id: x for x in g.tree_}
    out = []
    todo = [(0, list(s.keys))]
    while todo:
        nid, keys = todo.pop(0)
        x = node[nid]
        site = None if x.is_leaf else x.sitename
        row = [nid, bool(x.is_leaf), site, x.fid if site else None, x.left_nodeid, x.right_nodeid, tuple(keys)]
        # choices
        cands = s.candidates(keys)
        for p in range(1, s.nh + 1):
            best, idx = None, -1
            mine = [c for c in cands if c[0] == p]
            for i, (_, f, b, L, R) in enumerate(mine):
                gain = s.gain(L, R)
                if h.branch(gain > s.mg) and (best is None or h.branch(gain > best)):
                    best, idx = gain, i
            row.append(idx)
        out.append(tuple(row))
        if site:
            p = s.owner(site)
            th = parties[p].split_maskdict[nid]
            L = [k for k in keys if h.branch(s.data[k][p][x.fid] <= th)]
            R = [k for k in keys if k not in L]
            todo += [(x.left_nodeid, L), (x.right_nodeid, R)]
    return out


def tree(name, fixed1, fixed2, hess=(None, None), depth=2, mg=0.25, batch=65536, shift=0.25, min_leaf=1, predict=True, lam=0.5, extra=False):
    place, nb = PLACE[name]

    def fn(h):
        h.world()
        n = len(place[0][0])
        ks = ["s%d" % i for i in range(n)]
        runs = []
        for r, fixed in enumerate((fixed1, fixed2)):
            hs = hess[r] or [0.25 * (1 + (i + r) % 3) for i in range(n)]
            gh = {k: (exact(h, fixed[i]) if fixed[i] is not None else h.real("g%d_%d" % (r, i), -4, 4), exact(h, hs[i]))
                  for i, k in enumerate(ks)}
            cols = [[[0.5 + j for j in range(nb - 1)] for _ in p] for p in place]
            data = concrete_rows(place, ks)
            if r:       # other guest values and thresholds, same side for every sample
                cols[0] = [[t * 3.0 + shift for t in pts] for pts in cols[0]]
                for k in ks:
                    data[k][0] = [x * 3.0 + shift for x in data[k][0]]
                if extra:     # one more bin at the bottom: the guest's bin numbers differ too
                    cols[0] = [[-7.0] + pts for pts in cols[0]]
            s = Setup(h, cols, data, gh, depth=depth, lam=lam, mg=mg, batch=batch, min_leaf=min_leaf)
            g, hosts, fed = s.train()
            plog = []
            if predict:
                s.predict(g, hosts, [s.raw(p) for p in range(len(cols))])
                plog = s.pfed.log
            runs.append((s, g, hosts, fed.log, plog))
        (s1, g1, h1, l1, p1), (s2, g2, h2, l2, p2) = runs
        h.check(not holds_key(l1 + p1), "the private key is not sent", "key")
        if structure(s1, g1, h1) != structure(s2, g2, h2):
            return
        for k in range(s1.nh):
            same(h, messages(l1, to=k), messages(l2, to=k), "training, host %d" % k, "training")
            if predict:
                same(h, messages(p1, to=k), messages(p2, to=k), "prediction, host %d" % k, "prediction")
    return fn


def model(n, task="regression", rounds=2, nh=1, labels=None, free=((), ()), picks=None, rates=(0.5, 0.5), stop=False, hostsplit=False, depth=2):
    """whole boosted models: each party has at most one candidate, so the structure depends on who wins only"""
    def fn(h):
        h.hooks["noobs"] = True
        h.world()
        ks = ["s%d" % i for i in range(n)]
        runs = []
        for r in (0, 1):
            labs = h.pick("labels%d" % r, picks) if picks else labels[r]
            ys = [h.real("y%d_%d" % (r, i), -4, 4) if i in free[r] else labs[i] for i in range(n)]
            gv = (1.0, 2.0) if r == 0 else (3.0, 7.5)
            rows = {k: [[gv[i % 2]]] + [[float(1 + (i // 2) % 2) if hostsplit else 1.0]] * nh for i, k in enumerate(ks)}
            c = conf(task, "lse" if task == "regression" else "cross_entropy", rounds, rates[r], stop, 0.3, max_depth=depth)
            b = Boost(h, rows, dict(zip(ks, ys)), c)
            g, hosts = b.models()
            b.fit()
            b.predict()
            shape = [[(x.id, x.is_leaf, x.sitename if not x.is_leaf else None, x.fid if not x.is_leaf else None, x.left_nodeid, x.right_nodeid)
                      for x in t.tree_] for t in g.trees_]
            stops = []
            for u, v in zip(g.history_loss, g.history_loss[1:]) if stop else ():
                d = abs(v - u)
                stops.append("<" if h.branch(d < exact(h, 0.3)) else ">" if h.branch(d > exact(h, 0.3)) else "=")
            runs.append((shape, g.tree_dim, len(g.trees_), b.fed.log, b.pfed.log, stops))
        h.check(not any(holds_key(r[3] + r[4]) for r in runs), "the private key is not sent", "key")
        if runs[0][:3] != runs[1][:3] or runs[0][5] != runs[1][5]:
            return
        for k in range(nh):
            same(h, messages(runs[0][3], to=k), messages(runs[1][3], to=k), "training, host %d" % k, "training")
            same(h, messages(runs[0][4], to=k), messages(runs[1][4], to=k), "prediction, host %d" % k, "prediction")
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    out = [
        Case("two", tree("two", [N, 1.0, 0.5, -2.0], [N, -1.0, 3.0, -0.5]), bounds="4 samples, one gradient any in each run"),
        Case("two-wide", tree("two", [2.0, N, -3.0, -3.5], [1.5, N, -2.0, -1.0], shift=-9.0, depth=3), bounds="guest splits, depth 3"),
        Case("extra-bin", tree("two", [2.0, N, -3.0, -3.5], [1.5, N, -2.0, -1.0], extra=True), bounds="guest bins numbered differently"),
        Case("leaf", tree("two", [N, N, N, N], [N, N, N, N], mg=1000.0), bounds="single leaf, all gradients any"),
        Case("depth1", tree("two", [N, 1.0, N, 2.0], [1.0, N, N, 3.0], depth=1), bounds="depth 1"),
        Case("host", tree("wide-host", [1.0, N, -3.0, 2.0], [N, 2.0, -2.0, 2.5], depth=3, mg=0.0, batch=1), bounds="host splits, depth 3, batches of 1"),
        Case("3p", tree("three-parties", [N, 1.0, -2.0, -3.0], [2.0, N, -1.0, -3.5], depth=3), bounds="3 parties"),
        Case("2f", tree("two-features", [N, 1.0, 3.0, -2.0], [1.0, N, 2.0, -3.0], depth=2), bounds="2 features per party"),
        Case("4p", tree("four-parties", [N, 1.0, -2.0, -3.0, 2.5, 0.5], [2.0, 1.5, -1.0, -3.5, 2.0, 1.0], depth=4, mg=0.0, batch=1), bounds="6 samples, guest+3 hosts, depth 4"),
        Case("eight", tree("eight", [1.5, 2.0, -3.0, N, -0.5, 4.0, -1.75, 2.5], [1.53125, 2.0625, -3.0625, 0.75, -0.5, 4.0625, -1.8125, 2.5625], hess=(None, [0.25 * (1 + i % 3) for i in range(8)]), depth=5, mg=0.0, batch=3), bounds="8 samples, 5 bins, depth 5"),
        Case("lse", model(3, labels=[[0.5, N, 2.0], [1.0, N, -1.0]], free=((1,), (1,)), rounds=2), bounds="boosting, one label any in each run"),
        Case("lse-all", model(2, labels=[[N, N], [N, N]], free=((0, 1), (0, 1)), rounds=1), bounds="boosting, all labels any"),
        Case("lse-host", model(4, labels=[[0.5, N, 2.0, 1.0], [1.0, N, -1.0, 3.0]], free=((1,), (1,)), rounds=1, hostsplit=True), bounds="guest and host splits"),
        Case("classes", model(4, "classification", picks=[(0, 1, 1, 0), (1, 0, 1, 0), ("b", "a", "a", "a"), (0, 1, 0, 1)], rates=(0.5, 0.25)), bounds="two classes"),
        Case("multi", model(4, "classification", picks=[(0, 1, 2, 0), (2, 1, 0, 0), ("c", "b", "a", "a")], rates=(0.5, 0.25), rounds=1, nh=2), bounds="three classes"),
        Case("stop", model(3, "regression", labels=[[0.5, N, 2.0], [1.0, 0.25, -1.0]], free=((1,), ()), rounds=2, stop=True), bounds="early stopping"),
    ]
    if big:
        out += [
            Case("two-2", tree("two", [N, 1.0, N, -2.0], [N, -1.0, N, -0.5]), path_s=120, bounds="two gradients any in each run"),
            Case("five", tree("five", [N, 2.0, -3.0, 1.0, -0.5], [1.0, N, -3.0, 2.0, -1.0], depth=4, mg=0.0, batch=2), path_s=120, bounds="5 samples, depth 4"),
            Case("3p-deep", tree("three-parties", [N, 1.0, -2.0, -3.0], [2.0, N, -1.0, -3.5], depth=4, mg=0.0, batch=1), path_s=120, bounds="3 parties, depth 4"),
            Case("lse-2", model(3, labels=[[0.5, N, N], [1.0, N, N]], free=((1, 2), (1, 2)), rounds=2), path_s=120, bounds="two labels any in each run"),
        ]
    return out
