"""C27: feature sampling."""
from symx.runner import Case
from checks.boost import Boost
from checks.common import guest_class
from checks.c19 import conf

DESC = ("Guest and hosts train boosted models over in-memory channels; the feature rate is symbolic and every outcome of the random draws "
        "is explored; the draws, the mask each tree gets and the features its splits use are compared with the definition.")


def floor_of(h, x, n):
    """floor of x in [0, n] (forks)"""
    k = 0
    while k < n and h.branch(x >= k + 1):
        k += 1
    return k


def sampling(widths, rounds=1, rates=None, labels=(1.0, -2.0, 3.0, 0.5), depth=2, task="regression", free=(), n=4):
    """widths: features of guest, host 0, ..."""
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        ys = [h.real("y%d" % i, -4, 4) if i in free else labels[i] for i in range(n)]
        rows = {}
        for i, k in enumerate(ks):
            rows[k] = [[float(1 + ((i >> (f % 2)) + f + p * i) % 3) for f in range(w)] for p, w in enumerate(widths)]
        rate = h.real("rate", 0, 1) if rates is None else h.pick("rate", rates)
        c = conf(task, "lse" if task == "regression" else "cross_entropy", rounds, 0.5, max_depth=depth)
        c["subsample_feature_rate"] = rate
        c["tree_param"]["min_impurity_split"] = 0.0
        b = Boost(h, rows, dict(zip(ks, ys)), c)
        g, hosts = b.models()
        masks = {p: [] for p in range(len(widths))}
        draws = {p: [] for p in range(len(widths))}
        order = []
        G = guest_class(h, "tree")
        H = h.cls("ml.tree.hetero_decision_tree_host", "HeteroDecisionTreeHost")
        gfit, hfit = G.fit, H.fit

        def guest_fit(self):
            masks[0].append(list(self.valid_features))
            return gfit(self)

        def host_fit(self):
            masks[int(self.runtime_idx) + 1].append(list(self.valid_features))
            return hfit(self)
        G.fit, H.fit = guest_fit, host_fit

        # who draws: the party whose thread runs
        real_subset = b.draws.subset

        def party():
            for name, p in b.fed_now.parties.items():
                import threading
                if p.thread is threading.current_thread():
                    return 0 if name == "guest" else name + 1
            return None

        def subset(pool, k):
            out = real_subset(pool, k)
            draws[party()].append((list(pool), list(out)))
            return out
        b.draws.subset = subset
        h.hooks["random.sample"] = lambda pop, k: subset(list(pop), k)
        connect = b.connect

        def conn():
            b.fed_now = connect()
            return b.fed_now
        b.connect = conn
        b.fit()
        trees = rounds * (1 if task == "regression" or len(set(labels[:n])) == 2 else len(set(labels[:n])))
        for p, w in enumerate(widths):
            k = floor_of(h, rate * w, w)
            k = max(1, k)
            h.check(len(masks[p]) == trees, "one mask per tree", "trees")
            for m in masks[p]:
                h.check(len(m) == w, "the mask covers all features", "mask-length")
                h.check(sum(1 for x in m if x) == k, "max(1, floor(rate*n)) features are usable", "count")
            if draws[p]:
                if k < w:
                    h.check(not b.draws.repeats, "no draw repeats another", "anew")
                    h.check(len(draws[p]) >= trees, "every tree draws anew", "anew")
                if len(draws[p]) == trees:
                    for m, (pool, out) in zip(masks[p], draws[p]):
                        if len(out) == k:
                            h.check(sorted(pool) == list(range(w)), "all features take part in the draw", "pool")
                            h.check(sorted(int(x) for x in out) == [f for f in range(w) if m[f]], "the drawn features are usable", "drawn")
            model = g if p == 0 else hosts[p - 1]
            site = "guest" if p == 0 else "host.%d" % (p - 1)
            for t, tree in enumerate(model.trees_):
                for node in tree.tree_:
                    if not node.is_leaf and node.sitename == site:
                        h.check(0 <= node.fid < w and masks[p][t][node.fid], "a split uses a drawn feature", "used")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("rate", sampling([3, 2]), bounds="3 and 2 features, any rate in [0,1], every draw"),
        Case("rate-4", sampling([4, 1], n=3), bounds="4 and 1 features, any rate, every draw"),
        Case("host-4", sampling([1, 4], n=3, depth=3), bounds="1 and 4 features, any rate, every draw, depth 3"),
        Case("two-trees", sampling([3, 2], rounds=2, rates=(0.5, 0.34, 0.7)), bounds="2 rounds"),
        Case("rate-8", sampling([8, 1], n=3, rates=(0.3, 0.13, 0.9)), bounds="8 and 1 features, every draw"),
        Case("host-8", sampling([1, 8], n=3, rates=(0.26, 0.8)), bounds="1 and 8 features, every draw"),
        Case("two-hosts", sampling([2, 2, 2], rates=(0.5, 0.99, 1.0, 0.0)), bounds="2 hosts"),
        Case("classes", sampling([2, 2], rates=(0.5,), labels=(0, 1, 2, 0), task="classification"), bounds="3 classes, one draw per class"),
        Case("label", sampling([2, 2], rates=(0.5,), free=(1,), depth=3), bounds="one label any"),
    ]
    if big:
        out += [
            Case("rate-5", sampling([5, 4], n=4, depth=3), bounds="5 and 4 features, any rate, every draw"),
            Case("three-trees", sampling([3, 2], rounds=3, rates=(0.5, 0.67)), bounds="3 rounds"),
            Case("label-2", sampling([3, 2], rates=(0.34,), free=(1, 2), depth=3), path_s=120, bounds="two labels any"),
        ]
    return out
