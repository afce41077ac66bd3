"""C14: prediction walks to the leaf the model defines, also after reload."""
from symx.runner import Case
from symx.fed import Fed
from checks.common import table, instance, guest_class
from checks.trees import Setup, exact
from checks.c12 import route
from checks.c13 import FORTY, PLACE

DESC = ("Federated prediction of the real guest and host trees runs over in-memory channels on models of symbolic shape, owners, "
        "thresholds and weights (loaded through the model messages) and on trained trees; results are compared with a direct walk.")

L = None


def rope(n):
    """a chain of n splits that turns left and right"""
    s = (L, L)
    for i in range(n - 1):
        s = (L, s) if i % 3 else (s, L)
    return s


SHAPES = {
    "leaf": L,
    "stump": (L, L),
    "left": ((L, L), L),
    "right": (L, (L, L)),
    "zigzag": ((L, (L, L)), L),
    "full": ((L, L), (L, L)),
    "chain": (((L, L), L), L),
    "long": (L, (L, (L, (L, L)))),
    "bushy": (((L, L), L), (L, (L, L))),
    "fifteen": (((L, L), (L, L)), ((L, L), (L, L))),
    "rope": (L, ((L, ((L, ((L, ((L, L), L)), L)), L)), L)),
    "many": rope(140),
    "thirty-one": ((((L, L), (L, L)), ((L, L), (L, L))), (((L, L), (L, L)), ((L, L), (L, L)))),
}


def layout(shape):
    """[(left id, right id) or None] in breadth-first order"""
    out, queue, nxt = [], [shape], 1
    while queue:
        s = queue.pop(0)
        if s is None:
            out.append(None)
        else:
            out.append((nxt, nxt + 1))
            queue += [s[0], s[1]]
            nxt += 2
    return out


def fields(n):
    return (n.id, n.sitename, n.is_leaf, n.left_nodeid, n.right_nodeid)


class Model:
    """a model as the messages of every party describe it"""
    def __init__(self, h, shape, owners, fids, ths, ws, nh, names):
        self.h, self.nodes, self.owners, self.fids, self.ths, self.ws, self.nh = h, layout(shape), owners, fids, ths, ws, nh
        self.names = ["guest"] + ["host.%d" % i for i in names]
        self.idx = names

    def message(self, p):
        Param = self.h.cls("arch.api.boosting_tree_model_param_pb2", "DecisionTreeModelParam")
        m = Param()
        for i, ch in enumerate(self.nodes):
            if ch is None:
                m.tree_.add(id=i, sitename="guest", weight=self.ws[i], is_leaf=True, left_nodeid=-1, right_nodeid=-1)
            else:
                o = self.owners[i]
                m.tree_.add(id=i, sitename=self.names[o], fid=self.fids[i] if (o == p or p == 0) else 0, weight=self.ws[i],
                            is_leaf=False, left_nodeid=ch[0], right_nodeid=ch[1])
        m.split_maskdict.update({i: self.ths[i] for i, ch in enumerate(self.nodes) if ch is not None and self.owners[i] == p})
        return m

    def meta(self, guest, vals):
        Meta = self.h.cls("arch.api.boosting_tree_model_meta_pb2", "DecisionTreeModelMeta")
        C = self.h.cls("arch.api.boosting_tree_model_meta_pb2", "CriterionMeta")
        m = Meta()
        if guest:
            m.criterion_meta.CopyFrom(C(criterion_method="xgboost", criterion_param=[vals[4], vals[5]]))
        m.max_depth, m.min_sample_split, m.min_impurity_split, m.min_leaf_node = vals[:4]
        return m

    def walk(self, row):
        h, nid = self.h, 0
        while self.nodes[nid] is not None:
            x = row[self.owners[nid]].get(self.fids[nid], 0)
            nid = self.nodes[nid][0] if h.branch(x <= self.ths[nid]) else self.nodes[nid][1]
        return self.ws[nid]


def fresh(h, cls, nh_idx=None):
    P = h.cls("ml.param.boosting_tree_param", "DecisionTreeParam")
    if cls == "guest":
        t = guest_class(h, "tree")(P())
    else:
        t = h.cls("ml.tree.hetero_decision_tree_host", "HeteroDecisionTreeHost")(P())
    if nh_idx is not None:
        t.set_runtime_idx(nh_idx)
    return t


def predict(h, g, hosts, tables):
    fed = Fed(len(hosts))
    if not getattr(h, "alone", False):
        g.set_transfer_inst(fed.guest_inst())
    for i, t in enumerate(hosts):
        t.set_transfer_inst(fed.host_inst(i))
    jobs = {"guest": lambda: g.predict(tables[0])}
    for i in range(len(hosts)):
        jobs[i] = (lambda i=i: hosts[i].predict(tables[i + 1]))
    res = fed.run(jobs)
    h.check(not fed.left(), "no message is left over", "messages")
    out = list(res["guest"].collect())
    h.check(len(out) == len(set(k for k, _ in out)), "one result per sample", "samples")
    return dict(out)


def same_message(h, a, b, what):
    h.check(len(a.tree_) == len(b.tree_), "%s keeps all nodes" % what, "reload")
    for x, y in zip(a.tree_, b.tree_):
        h.check(fields(x) == fields(y), "%s keeps the node's structure" % what, "reload")
        h.check(x.fid == y.fid and x.bid == y.bid, "%s keeps feature and bin" % what, "reload")
        h.close(x.weight, y.weight, "%s keeps the weight" % what, "reload")
    da, db = dict(a.split_maskdict), dict(b.split_maskdict)
    h.check(set(da) == set(db), "%s keeps the thresholds" % what, "reload")
    for k in da:
        if k in db:
            h.close(da[k], db[k], "%s keeps the thresholds" % what, "reload")


def same_meta(h, a, b, guest):
    h.check(a.max_depth == b.max_depth, "the depth is kept", "meta")
    h.check(a.min_sample_split == b.min_sample_split, "the minimum sample count is kept", "meta")
    h.check(a.min_leaf_node == b.min_leaf_node, "the minimum leaf size is kept", "meta")
    h.close(a.min_impurity_split, b.min_impurity_split, "the minimum gain is kept", "meta")
    if guest:
        h.check(a.criterion_meta.criterion_method == b.criterion_meta.criterion_method, "the criterion is kept", "meta")
        x, y = list(a.criterion_meta.criterion_param), list(b.criterion_meta.criterion_param)
        h.check(len(x) == len(y), "the criterion's parameters are kept", "meta")
        for u, v in zip(x, y):
            h.close(u, v, "the criterion's parameters are kept", "meta")


def loaded(shapes, nh=1, nf=2, nrows=1, names=None, fixed_owner=None, absent=False, free=None):
    """free: (node with a free threshold, row with free values); everything else is given"""
    names = names or [100 + 11 * k for k in range(nh)]

    def fn(h):
        h.world()
        shape = SHAPES[h.pick("shape", shapes)]
        nodes = layout(shape)
        own, fid, ths, ws = {}, {}, {}, {}
        inner = [i for i, ch in enumerate(nodes) if ch is not None]
        chain = free == "last"
        fr = (inner[-1], 0) if chain else free
        for i, ch in enumerate(nodes):
            ws[i] = h.real("w%d" % i, -10, 10) if len(nodes) < 100 else 0.25 * i - 9
            if ch is not None:
                own[i] = h.choose("o%d" % i, nh + 1) if fixed_owner is None else fixed_owner[i % len(fixed_owner)]
                fid[i] = (5 * i) % nf if free else h.choose("f%d" % i, nf) if nf > 1 and i % 2 == 0 else 0
                ths[i] = h.real("t%d" % i, -5, 5) if not free or i == fr[0] else 0.5 * ((3 * i) % 7) - 1.25
                if chain and i != fr[0]:        # values near zero stay in the chain, others leave it on the way
                    ths[i] = (5 - 4.0 * i / len(nodes)) * (1 if nodes[ch[0]] is not None else -1)
        model = Model(h, shape, own, fid, ths, ws, nh, names)
        vals = [h.int("depth", 1, 10), h.int("ms", 1, 10), h.real("mi", 0, 1), h.int("ml", 1, 10), h.real("lam", 0, 2), h.real("alpha", 0, 2)]
        parties = [fresh(h, "guest")] + [fresh(h, "host", names[k]) for k in range(nh)]
        for p, t in enumerate(parties):
            t.load_model(model.meta(p == 0, vals), model.message(p))
        rows = {}
        for r in range(nrows):
            row = []
            for p in range(nh + 1):
                feats = {}
                for f in range(nf):
                    if h.choose("a%d_%d_%d" % (r, p, f), 2) if absent else ((r + p + f) % 3 == 2 and f > 0):
                        continue                      # absent: counts as 0
                    feats[f] = h.real("x%d_%d_%d" % (r, p, f), -5, 5) if not free or (r == fr[1] and f == fid.get(fr[0])) else \
                        (7 * r + 3 * p + 5 * f) % 11 / (2 if not chain or r > 2 else 6) - (2.5 if not chain or r > 2 else 0.8)
                row.append(feats)
            rows["r%d" % r] = row
        want = {k: model.walk(row) for k, row in rows.items()}

        def tabs():
            return [table(h, [(k, instance(h, row[p], inst_id=k, sparse=True, shape=nf)) for k, row in
                              (rows.items() if p % 2 == 0 else reversed(list(rows.items())))]) for p in range(nh + 1)]
        for turn in range(2):
            got = predict(h, parties[0], parties[1:], tabs())
            h.check(set(got) == set(rows), "one result per sample", "samples")
            for k in rows:
                h.close(got.get(k), want[k], "the weight of the leaf the model defines", "leaf" if turn == 0 else "leaf-reloaded")
            if turn == 1:
                break
            again = []
            for p, t in enumerate(parties):
                meta, param = t.get_model()
                same_message(h, model.message(p), param, "export")
                same_meta(h, model.meta(p == 0, vals), meta, p == 0)
                t2 = fresh(h, "guest") if p == 0 else fresh(h, "host", names[p - 1])
                t2.load_model(meta, param)
                m2, p2 = t2.get_model()
                same_message(h, param, p2, "reload")
                same_meta(h, meta, m2, p == 0)
                again.append(t2)
            parties = again
    return fn


def trained(cols, n, gs, fixed=None, extra=1, **opts):
    """prediction of trained trees: on the training samples and on new ones"""
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        data = {}
        for i, k in enumerate(ks):
            data[k] = [[fixed[i, p, f] if fixed and (i, p, f) in fixed else h.real("x%d_%d_%d" % (i, p, f), -4, 4)
                        for f in range(len(c))] for p, c in enumerate(cols)]
        gh = {k: (h.real("g%d" % i, -4, 4) if gs[i] is None else exact(h, gs[i]), exact(h, 0.5)) for i, k in enumerate(ks)}
        s = Setup(h, cols, data, gh, **opts)
        g, hosts, fed = s.train()
        trainout = dict(g.predict_weights.collect())
        rows = dict(data)
        for e in range(extra):
            rows["n%d" % e] = [[h.real("y%d_%d_%d" % (e, p, f), -4, 4) for f in range(len(c))] for p, c in enumerate(cols)]
        parties = s.trees(g, hosts)
        want = {k: g.tree_[route(h, s, parties, k, rows)[-1]].weight for k in rows}
        for turn in range(2):
            got = predict(h, parties[0], parties[1:], [s.raw(p, rows, list(rows)) for p in range(len(cols))])
            h.check(set(got) == set(rows), "one result per sample", "samples")
            for k in rows:
                h.close(got.get(k), want[k], "the weight of the leaf the model defines", "trained-leaf")
            for k in ks:
                h.close(got.get(k), trainout.get(k), "the output of training", "trained-same")
            again = []
            for p, t in enumerate(parties):
                meta, param = t.get_model()
                t2 = fresh(h, "guest") if p == 0 else fresh(h, "host", s.idx[p - 1])
                t2.load_model(meta, param)
                for a, b in zip(t.tree_, t2.tree_):
                    h.check(fields(a) == fields(b), "a reloaded tree keeps every node", "reload")
                    if p == 0:
                        h.close(b.weight, a.weight, "a reloaded tree keeps every weight", "reload")
                    if s.owner(a.sitename) == p and not a.is_leaf:
                        h.check(a.fid == b.fid, "a reloaded tree keeps the split features", "reload")
                h.check(len(t.tree_) == len(t2.tree_), "a reloaded tree keeps every node", "reload")
                d1, d2 = dict(t.split_maskdict), dict(t2.split_maskdict)
                h.check(set(d1) == set(d2), "a reloaded tree keeps every threshold", "reload")
                for k in d1:
                    h.close(d2.get(k), d1[k], "a reloaded tree keeps every threshold", "reload")
                h.check((t.max_depth, t.min_sample_split, t.min_leaf_node) == (t2.max_depth, t2.min_sample_split, t2.min_leaf_node),
                        "the settings are kept", "meta")
                h.close(t2.min_impurity_split, t.min_impurity_split, "the settings are kept", "meta")
                if p == 0:
                    h.check(t.criterion_method == t2.criterion_method, "the criterion is kept", "meta")
                    c1, c2 = list(t.criterion_params), list(t2.criterion_params)
                    h.check(len(c1) == len(c2), "the criterion's parameters are kept", "meta")
                    for u, v in zip(c1, c2):
                        h.close(v, u, "the criterion's parameters are kept", "meta")
                again.append(t2)
            parties = again
    return fn


def cases(tier):
    big = tier == "thorough"
    N = None
    out = [
        Case("small-1host", loaded(["leaf", "stump", "left", "right"]), bounds="up to 5 nodes, guest+1 host, any owners, features, thresholds, values"),
        Case("small-2hosts", loaded(["stump", "left", "right"], nh=2), bounds="up to 5 nodes, guest+2 hosts"),
        Case("full-1host", loaded(["full"], nf=1), bounds="7 nodes"),
        Case("chain-2hosts", loaded(["chain", "zigzag"], nh=2, nf=1), bounds="7 nodes, guest+2 hosts"),
        Case("long-2hosts", loaded(["long"], nh=2, nf=1, fixed_owner=[1, 2, 0]), bounds="9 nodes, owners alternate"),
        Case("bushy-3hosts", loaded(["bushy"], nh=3, nf=1, fixed_owner=[1, 0, 3, 2]), bounds="11 nodes, 3 hosts"),
        Case("fifteen", loaded(["fifteen"], nh=2, nf=3, nrows=6, fixed_owner=[2, 0, 1, 1], free=(4, 1)), bounds="15 nodes, 6 samples, guest+2 hosts, one threshold and one sample's values any"),
        Case("rope", loaded(["rope"], nh=1, nf=4, nrows=6, fixed_owner=[1, 0, 0, 1, 1], free=(9, 0)), bounds="19 nodes, depth 9, 6 samples"),
        Case("thirty-one", loaded(["thirty-one"], nh=3, nf=12, nrows=8, fixed_owner=[3, 1, 0, 2, 1], free=(0, 5)), bounds="31 nodes, 12 features, 8 samples, guest+3 hosts"),
        Case("many", loaded(["many"], nh=2, nf=3, nrows=4, fixed_owner=[1, 0, 2, 2, 0], free="last"), bounds="281 nodes (numbers beyond 256), depth 140, 4 samples, the values that lead through the chain, the last threshold any"),
        Case("two-samples", loaded(["stump", "left"], nrows=2, nf=1), bounds="2 samples, up to 5 nodes"),
        Case("two-samples-2hosts", loaded(["left", "right"], nrows=2, nh=2, nf=1), bounds="2 samples, guest+2 hosts"),
        Case("three-samples", loaded(["right"], nrows=3, nh=1, nf=1), bounds="3 samples"),
        Case("host-names", loaded(["left"], nh=2, nf=1, names=[1, 11]), bounds="site names where one is a prefix of the other"),
        Case("absent", loaded(["stump", "left", "right"], nf=1, absent=True), bounds="up to 5 nodes, any entries absent"),
        Case("absent-2", loaded(["stump"], nf=2, nrows=2, absent=True), bounds="2 samples of 2 features, any entries absent"),
        Case("trained-3", trained([[[0.5]], [[-0.5]]], 3, [2.0, -1.0, -3.5], depth=3), bounds="3 samples + 1 new one, all values"),
        Case("trained-3p", trained([[[0.5]], [[-0.5]], [[0.0]]], 4, [2.0, -1.0, -3.5, 1.0], depth=4, mg=0.0, batch=1,
                                   fixed={(i, p, 0): v for p, vs in ((0, [1.0, 0.0, 0.0, 2.0]), (1, [-1.0, 0.0, 0.0]), (2, [1.0, -1.0])) for i, v in enumerate(vs)}),
             bounds="4 samples, 3 parties + 1 new sample, part of the values free"),
        Case("trained-grads", trained([[[0.5]], [[-0.5]]], 3, [N, -1.0, N], depth=3,
                                      fixed={(0, 0, 0): 0.0, (1, 0, 0): 0.0, (2, 0, 0): 1.0, (0, 1, 0): -1.0, (1, 1, 0): 0.0, (2, 1, 0): 0.0}),
             bounds="2 gradients any + 1 new sample"),
    ]
    fx = {(i, p, f): float(v) for p, cols in enumerate(PLACE["eight-host"][0]) for f, col in enumerate(cols) for i, v in enumerate(col) if (i, p, f) != (3, 1, 0)}
    pts = lambda nb: [0.5 + j for j in range(nb - 1)]
    out.append(Case("trained-eight", trained([[pts(2)], [pts(6), pts(3)]], 8, [1.5, 2.0, -3.0, 1.0, -0.5, 4.0, -1.75, 2.5], fixed=fx, extra=0, depth=5, mg=0.0),
                    bounds="8 samples, host with 6 bins, depth 5, one value any"))
    fx = {(i, p, f): float(v) for p, cols in enumerate(PLACE["eight"][0]) for f, col in enumerate(cols) for i, v in enumerate(col) if (i, p, f) != (3, 0, 0)}
    out.append(Case("trained-eight-guest", trained([[pts(5)], [pts(5)]], 8, [1.5, 2.0, -3.0, 1.0, -0.5, 4.0, -1.75, 2.5], fixed=fx, extra=0, depth=5, mg=0.0),
                    bounds="8 samples, 5 bins, depth 5, one value any"))
    fx = {(i, p, f): float(v) for p, cols in enumerate(PLACE["forty"][0]) for f, col in enumerate(cols) for i, v in enumerate(col) if (i, p, f) != (9, 0, 0)}
    out.append(Case("trained-forty", trained([[pts(12), pts(12)], [pts(12), pts(12)]], 40, [0.25 if g is None else g for g in FORTY], fixed=fx, extra=0, depth=7, mg=0.0, batch=5),
                    path_s=60, bounds="40 samples, 4 features of 12 bins, depth 7, batches of 5, one value any"))
    if big:
        out += [
            Case("full-2hosts", loaded(["full"], nh=2, nf=2), bounds="7 nodes, guest+2 hosts, 2 features"),
            Case("long-1host", loaded(["long"], nh=1, nf=1), bounds="9 nodes"),
            Case("bushy-2hosts", loaded(["bushy"], nh=2, nf=1), bounds="11 nodes, guest+2 hosts, any owners"),
            Case("three-samples-2hosts", loaded(["left", "right"], nrows=3, nh=2, nf=1), bounds="3 samples, guest+2 hosts"),
            Case("two-samples-full", loaded(["full"], nrows=2, nh=1, nf=1), bounds="2 samples, 7 nodes"),
            Case("trained-4", trained([[[0.5]], [[-0.5]]], 4, [2.0, -1.0, -3.5, 0.5], depth=3), bounds="4 samples + 1 new one"),
            Case("trained-3p-3", trained([[[0.5]], [[-0.5]], [[0.0]]], 3, [2.0, -1.0, -3.5], depth=4, mg=0.0), bounds="3 samples, 3 parties + 1 new one"),
        ]
    return out
