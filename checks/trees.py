"""Whole trees: the real guest and host code trained and used over the in-memory federation, and reference models."""
from fractions import Fraction
from symx.fed import Fed
from symx.syms import SymReal
from checks.common import table, instance, guest_class
from checks.c06 import Cipher, Encrypter

GAP = 2.0 ** -19          # just above the 1e-6 tie tolerance


def exact(h, x):
    """an exact constant of the symbolic world"""
    return SymReal({(): Fraction(x)} if x else {}) if h.symbolic else float(x)


class EncMode:
    """stands for EncryptModeCalculator (C06): a table of fresh ciphertexts"""
    def __init__(self, enc):
        self.enc = enc

    def encrypt(self, t):
        return t.mapValues(lambda row: tuple(self.enc.encrypt(v) for v in row))


class Setup:
    """columns: list over parties (guest first) of lists of split points per feature;
    data: {key: [[raw value per feature] per party]}; gh: {key: (g, h)}"""
    def __init__(self, h, columns, data, gh, depth=2, lam=0.5, mg=0.25, min_sample=2, min_leaf=1, batch=65536, sparse=False,
                 valid=None, names=None, order=None, importance="split"):
        self.importance = importance
        self.h, self.columns, self.data, self.gh = h, columns, data, gh
        self.depth, self.lam, self.mg, self.min_sample, self.min_leaf = depth, lam, mg, min_sample, min_leaf
        self.batch, self.sparse = batch, sparse
        self.valid = valid or [[True] * len(c) for c in columns]
        self.keys = list(data)
        self.order = order or [self.keys] * len(columns)
        self.nh = len(columns) - 1
        self.idx = names or [10 * (k + 1) for k in range(self.nh)]
        self.bins = {}
        for key in self.keys:
            for p, cols in enumerate(columns):
                for f, pts in enumerate(cols):
                    self.bins[key, p, f] = self._bin(data[key][p][f], pts)

    def _bin(self, x, pts):
        h = self.h
        b = 0
        for t in pts:
            if h.branch(t < x):
                b += 1
            else:
                break
        return b

    def zero_bin(self, p, f):
        return sum(1 for t in self.columns[p][f] if t < 0)

    def is_zero(self, x):
        return type(x) is float and x == 0.0

    # ---- inputs of the trees
    def data_bin(self, p):
        h = self.h
        out = []
        for key in self.order[p]:
            feats = {}
            for f in range(len(self.columns[p])):
                if self.sparse and self.bins[key, p, f] == self.zero_bin(p, f):
                    continue
                feats[f] = self.bins[key, p, f]
            out.append((key, instance(h, feats, inst_id=key, sparse=True, shape=len(self.columns[p]))))
        return table(h, out)

    def raw(self, p, rows=None, order=None):
        h = self.h
        out = []
        for key in (order or self.order[p]):
            row = rows[key][p] if rows else self.data[key][p]
            feats = {f: x for f, x in enumerate(row) if not self.is_zero(x)}
            out.append((key, instance(h, feats, inst_id=key, sparse=True, shape=len(self.columns[p]))))
        return table(h, out)

    def points(self, p):
        np = self.h.w.shims["numpy"] if self.h.symbolic else __import__("numpy")
        real = __import__("numpy")
        arr = real.empty(len(self.columns[p]), dtype=object)
        for f, pts in enumerate(self.columns[p]):
            if any(type(x) not in (int, float) for x in pts):
                arr[f] = np.array(list(pts))
            else:
                arr[f] = real.array([float(x) for x in pts])
        return arr

    def sparse_points(self, p):
        return {f: self.zero_bin(p, f) for f in range(len(self.columns[p]))}

    def param(self):
        h = self.h
        P = h.cls("ml.param.boosting_tree_param", "DecisionTreeParam")
        t = P(criterion_params=[self.lam], max_depth=self.depth, min_sample_split=self.min_sample, min_leaf_node=self.min_leaf,
              max_split_nodes=self.batch)
        t.feature_importance_type = self.importance
        t.min_impurity_split = exact(h, self.mg)
        return t

    def guest(self, fed, enc=None, encmode=None):
        h = self.h
        G = guest_class(h, "tree")
        g = G(self.param())
        gh = table(h, [(k, self.gh[k]) for k in self.order[0]])
        g.set_inputinfo(self.data_bin(0), gh, self.points(0), self.sparse_points(0))
        g.set_valid_features(list(self.valid[0]))
        enc = enc or Encrypter()
        g.set_encrypter(enc)
        g.set_encrypted_mode_calculator(encmode or EncMode(enc))
        if not getattr(h, "alone", False):            # the stand-alone tree gets no channels
            g.set_transfer_inst(fed.guest_inst())
        return g

    def host(self, fed, k):
        h = self.h
        H = h.cls("ml.tree.hetero_decision_tree_host", "HeteroDecisionTreeHost")
        t = H(self.param())
        t.set_inputinfo(data_bin=self.data_bin(k + 1), bin_split_points=self.points(k + 1), bin_sparse_points=self.sparse_points(k + 1))
        t.set_runtime_idx(self.idx[k])
        t.set_valid_features(list(self.valid[k + 1]))
        t.set_transfer_inst(fed.host_inst(k))
        return t

    def train(self, **k):
        fed = Fed(self.nh)
        g = self.guest(fed, **k)
        hosts = [self.host(fed, i) for i in range(self.nh)]
        jobs = {"guest": g.fit}
        for i in range(self.nh):
            jobs[i] = hosts[i].fit
        fed.run(jobs)
        self.fed, self.g, self.hosts = fed, g, hosts
        return g, hosts, fed

    def predict(self, g, hosts, tables):
        """tables: one table per party; returns {key: weight}"""
        fed = Fed(self.nh)
        if not getattr(self.h, "alone", False):
            g.set_transfer_inst(fed.guest_inst())
        for i, t in enumerate(hosts):
            t.set_transfer_inst(fed.host_inst(i))
        jobs = {"guest": lambda: g.predict(tables[0])}
        for i in range(self.nh):
            jobs[i] = (lambda i=i: hosts[i].predict(tables[i + 1]))
        res = fed.run(jobs)
        self.pfed = fed
        return dict(res["guest"].collect())

    # ---- reading a model
    def owner(self, sitename):
        if sitename == "guest":
            return 0
        for k in range(self.nh):
            if sitename == "host.%s" % self.idx[k]:
                return k + 1
        return None

    def trees(self, g, hosts):
        return [g] + list(hosts)

    def threshold(self, parties, p, nid):
        """threshold of the split node, as its owner knows it"""
        return parties[p].split_maskdict.get(nid)

    # ---- reference
    def weight(self, keys):
        G, H = self.sums(keys)
        return -G / (H + self.lam)

    def sums(self, keys):
        G, H = exact(self.h, 0), exact(self.h, 0)
        for k in keys:
            G, H = G + self.gh[k][0], H + self.gh[k][1]
        return G, H

    def gain(self, left, right):
        def s(keys):
            G, H = self.sums(keys)
            return G * G / (H + self.lam)
        return s(left) + s(right) - s(list(left) + list(right))

    def candidates(self, keys):
        """[(party, feature, bin, left keys, right keys)] of the admissible splits of a node"""
        out = []
        if len(keys) < self.min_sample:
            return out
        for p, cols in enumerate(self.columns):
            for f, pts in enumerate(cols):
                if not self.valid[p][f]:
                    continue
                for b in range(len(pts)):
                    L = [k for k in keys if self.bins[k, p, f] <= b]
                    R = [k for k in keys if self.bins[k, p, f] > b]
                    if len(L) >= self.min_leaf and len(R) >= self.min_leaf:
                        out.append((p, f, b, L, R))
        return out

    def reference(self):
        """{key: weight} of the tree a single trainer with all columns builds; assumes gains are clearly different"""
        h = self.h
        leaf = {}
        nodes = [self.keys]
        for dep in range(self.depth):
            nxt = []
            for keys in nodes:
                best = None
                if dep + 1 < self.depth:
                    groups = {}
                    for p, f, b, L, R in self.candidates(keys):
                        groups.setdefault(frozenset([frozenset(L), frozenset(R)]), (L, R))
                    gains = [(self.gain(L, R), L, R) for L, R in groups.values()]
                    gap = exact(h, GAP)
                    mg = exact(h, self.mg)
                    for x, L, R in gains:
                        if best is None or h.branch(x > best[0] + gap):
                            best = (x, L, R)
                        else:
                            h.assume(x < best[0] - gap)
                    if best is not None and not h.branch(best[0] > mg + gap):
                        h.assume(best[0] <= mg)
                        best = None
                if best is None:
                    w = self.weight(keys)
                    for k in keys:
                        leaf[k] = w
                else:
                    nxt += [best[1], best[2]]
            nodes = nxt
        return leaf
