"""Building blocks shared by the checks: tables of Instances, arrays, params."""


def array(h, xs):
    """what the CSV loader produces: a float array"""
    if h.symbolic:
        np = h.w.shims["numpy"]
        return np.array([x if _sym(x) else float(x) for x in xs])
    import numpy as np
    return np.array(xs, dtype=float)


def _sym(x):
    from symx.npshim import issym
    return issym(x)


def instance(h, features, label=None, inst_id=None, sparse=False, shape=None):
    Inst = h.cls("ml.feature.instance", "Instance")
    if sparse:
        SV = h.cls("ml.feature.sparse_vector", "SparseVector")
        items = sorted(features.items())
        f = SV([i for i, _ in items], [v for _, v in items], shape)
    else:
        f = array(h, features)
    return Inst(inst_id=inst_id, features=f, label=label)


def table(h, items, header=None):
    """items: list of (key, value)"""
    D = h.cls("computing.d_table", "DTable")
    t = D(True, list(items))
    if header is not None:
        t.schema = {"header": list(header)}
    return t


def guest_class(h, kind):
    """the guest's tree or boosting class; with h.alone that of the stand-alone copy"""
    mod, cls = {"tree": ("hetero_decision_tree_guest", "HeteroDecisionTreeGuest"),
                "boost": ("hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")}[kind]
    return h.cls(("xgboost." if getattr(h, "alone", False) else "ml.tree.") + mod, cls)


def below(h, v, points):
    """how many of the points are below v (forks)"""
    n = 0
    for p in points:
        if h.branch(h.lt(p, v)):
            n += 1
    return n


def increasing(h, pts):
    return h.land(*[h.lt(a, b) for a, b in zip(pts, pts[1:])])


def sep(h, xs, d=0.01):
    """inputs are equal or clearly different, so that float rounding cannot change their order in a replay"""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(i):
            h.assume(h.lor(xs[i] == xs[j], xs[i] - xs[j] >= d, xs[j] - xs[i] >= d))
