"""C09: histograms."""
from symx.runner import Case
from checks.common import instance, table, _sym
from checks.c06 import Cipher

DESC = ("FeatureHistogram runs over every assignment of samples to nodes, states and (stored or implicit) bins within the bound, with "
        "symbolic gradients and hessians; every entry is compared with the sum over the samples that belong to it.")

NODES = {7: 0, 3: 1}


def points(h, nb):
    """threshold arrays: nb[f] thresholds for feature f"""
    np = h.w.shims["numpy"]
    return np.array([np.array([float(i) for i in range(n)]) for n in nb])


def gen(h, n, nb, tag="", states=True, symbin=None, symb=False):
    """n samples: (node, state, bins, g, hess); absent entries are implicit"""
    rows = []
    for i in range(n):
        if states:
            node, state = h.pick("%snode%d" % (tag, i), [(7, 1), (3, 1), (7, 0), (99, 1)])
        else:
            node, state = h.pick("%snode%d" % (tag, i), [(7, 1), (3, 1)])
        d = {}
        for f, k in enumerate(nb):
            if symbin is not None and f not in symbin:
                if (i + f) % 2 == 0:
                    d[f] = (i + f) % (k + 1)
                continue
            if symb:                 # the bin is a solver variable
                if h.choose("%shas%d_%d" % (tag, i, f), 2):
                    d[f] = h.int("%sbin%d_%d" % (tag, i, f), 0, k)
                continue
            b = h.choose("%sbin%d_%d" % (tag, i, f), k + 2)
            if b:
                d[f] = b - 1
        rows.append((node, state, d, h.real("%sg%d" % (tag, i)), h.real("%sh%d" % (tag, i))))
    return rows


def expected(h, rows, node, f, b, zero, cumulative):
    g = s = c = 0
    for nd, st, d, gi, hi in rows:
        if nd != node or st == 0:
            continue
        k = d.get(f, zero[f])
        if _sym(k) or not h.symbolic:
            i = h.num(h.le(k, b) if cumulative else h.eq(k, b))
            g, s, c = g + i * gi, s + i * hi, c + i
        elif k == b or (cumulative and k < b):
            g, s, c = g + gi, s + hi, c + 1
    return g, s, c


def plain(x):
    return x.v if type(x) is Cipher else x


def compare(h, hist, rows, nb, zero, valid, node_map, cumulative, cipher=False, key="entry"):
    h.check(len(hist) == len(node_map), "one histogram per node", "shape")
    for node, k in node_map.items():
        h.check(len(hist[k]) == len(nb), "one histogram per feature", "shape")
        for f, n in enumerate(nb):
            if valid is not None and not valid[f]:
                h.check(len(hist[k][f]) == 0, "no entries for an unusable feature", "valid")
                continue
            h.check(len(hist[k][f]) == n + 1, "one entry per bin", "shape")
            for b in range(n + 1):
                g, s, c = expected(h, rows, node, f, b, zero, cumulative)
                e = hist[k][f][b]
                h.check(len(e) == 3, "gradient, hessian, count", "shape")
                h.check(h.eq(e[2], c), "count of a bin", key)
                if cipher:
                    h.check(c == 0 or (type(e[0]) is Cipher and type(e[1]) is Cipher), "sums of ciphertexts are ciphertexts", key)
                h.close(plain(e[0]), g, "gradient sum of a bin", key)
                h.close(plain(e[1]), s, "hessian sum of a bin", key)


def table_of(h, rows, nb, cipher=False, order=None):
    data = [("k%d" % i, (instance(h, d, sparse=True, shape=len(nb)), (st, nd))) for i, (nd, st, d, _, _) in enumerate(rows)]
    wrap = Cipher if cipher else (lambda x: x)
    gh = [("k%d" % i, (wrap(g), wrap(s))) for i, (_, _, _, g, s) in enumerate(rows)]
    if order:
        gh = gh[::-1]
    return table(h, data), table(h, gh)


def full(n, nb, masks, maps, cipher=False, states=True, symbin=None, symb=False):
    def fn(h):
        h.world()
        FH = h.cls("ml.tree.feateur_histogram", "FeatureHistogram")
        valid = h.pick("valid", masks)
        node_map = h.pick("map", maps)
        zero = [h.choose("zero%d" % f, k + 1) if f == 0 else k // 2 for f, k in enumerate(nb)]
        zb = h.pick("zkind", [dict(enumerate(zero))])
        rows = gen(h, n, nb, states=states, symbin=symbin, symb=symb)
        data, gh = table_of(h, rows, nb, cipher, order=h.choose("reverse", 2) if n < 3 else None)
        hist = FH.calculate_histogram(data, gh, points(h, nb), zb, valid, node_map)
        compare(h, hist, rows, nb, zero, valid, node_map, False, cipher, "sum")
        acc = FH.accumulate_histogram(hist)
        compare(h, acc, rows, nb, zero, valid, node_map, True, cipher, "prefix")
    return fn


def many(nodes, nb, free=(0,), cipher=False):
    """more nodes, bins and features; the node and bins of the free samples vary"""
    def fn(h):
        h.world()
        FH = h.cls("ml.tree.feateur_histogram", "FeatureHistogram")
        ids = [5 * k + 2 for k in range(nodes)][::-1]
        node_map = {n: k for k, n in enumerate(ids)}
        zero = [k // 2 for k in nb]
        rows = []
        for i in range(2 * nodes):
            node = h.pick("node%d" % i, ids) if i in free else ids[i % nodes]
            d = {f: (i * 2 + f) % (k + 1) for f, k in enumerate(nb) if (i + f) % 3}
            if i in free:
                d[0] = h.choose("bin%d" % i, nb[0] + 1)
            rows.append((node, 1, d, h.real("g%d" % i), h.real("h%d" % i)))
        valid = h.pick("valid", [[True] * len(nb), [f % 2 == 0 for f in range(len(nb))]])
        data, gh = table_of(h, rows, nb, cipher)
        hist = FH.calculate_histogram(data, gh, points(h, nb), dict(enumerate(zero)), valid, node_map)
        compare(h, hist, rows, nb, zero, valid, node_map, False, cipher, "sum")
        compare(h, FH.accumulate_histogram(hist), rows, nb, zero, valid, node_map, True, cipher, "prefix")
    return fn


def parts(nb, sizes):
    """histograms of parts of the data add up"""
    def fn(h):
        h.world()
        FH = h.cls("ml.tree.feateur_histogram", "FeatureHistogram")
        valid = h.pick("valid", [[True] * len(nb), [True] + [False] * (len(nb) - 1)])
        zero = [h.choose("zero%d" % f, k + 1) for f, k in enumerate(nb)]
        rows, total = [], None
        for k, n in enumerate(sizes):
            part = gen(h, n, nb, "p%d_" % k)
            rows += part
            data, gh = table_of(h, part, nb)
            kv = data.join(gh, lambda a, b: (a, b)).collect()
            out = FH.batch_calculate_histogram(kv, points(h, nb), dict(enumerate(zero)), valid, NODES)
            h.check(len(out) == 1, "one histogram per part", "shape")
            total = out[0] if total is None else FH.aggregate_histogram(total, out[0], NODES)
        compare(h, total, rows, nb, zero, valid, NODES, False, key="parts")
    return fn


def storage(nb):
    """storing an entry of the zero bin or leaving it out makes no difference; neither does the order of rows"""
    def fn(h):
        h.world()
        FH = h.cls("ml.tree.feateur_histogram", "FeatureHistogram")
        zero = [h.choose("zero%d" % f, k + 1) for f, k in enumerate(nb)]
        rows = gen(h, 2, nb, states=False)
        filled = [(nd, st, {f: d.get(f, zero[f]) for f in range(len(nb))}, g, s) for nd, st, d, g, s in rows]
        res = []
        for rs in (rows, filled, rows[::-1]):
            data, gh = table_of(h, rs, nb)
            res.append(FH.accumulate_histogram(FH.calculate_histogram(data, gh, points(h, nb), dict(enumerate(zero)),
                                                                      [True] * len(nb), NODES)))
        for other in res[1:]:
            for a, b in zip(res[0], other):
                for x, y in zip(a, b):
                    for p, q in zip(x, y):
                        for u, v in zip(p, q):
                            h.close(u, v, "storage form and order do not matter", "storage")
    return fn


def cases(tier):
    big = tier == "thorough"
    T, F = True, False
    out = [
        Case("one-feature", full(2, [3], [[T], None], [NODES], symb=True), bounds="2 samples, 4 bins, all states"),
        Case("empty", full(0, [2, 1], [[T, T], [T, F]], [NODES, {7: 0}]), bounds="no samples"),
        Case("two-features", full(2, [2, 1], [[T, T], [F, T], [T, F], [F, F], None], [NODES], states=False, symb=True), bounds="2 samples, 3 and 2 bins, all usable-feature masks"),
        Case("three-samples", full(3, [2, 1], [[T, T], None], [{3: 0, 7: 1}, {7: 0}], symbin=[0]), bounds="3 samples, one feature varied"),
        Case("ciphertexts", full(2, [2, 1], [[T, T], [F, T]], [NODES], cipher=True), bounds="2 samples, encrypted gradients"),
        Case("no-thresholds", full(2, [0, 2], [[T, T], [T, F]], [NODES]), bounds="a feature without thresholds"),
        Case("many", many(4, [5, 3, 0, 4]), bounds="8 samples, 4 nodes, features of 6, 4, 1 and 5 bins, one sample varied"),
        Case("many-cipher", many(3, [4, 6], cipher=True), bounds="6 samples, 3 nodes, 5 and 7 bins, encrypted"),
        Case("many-features", many(2, [1, 2, 1, 3, 1, 1, 2, 1, 0, 1, 2, 1, 3]), bounds="4 samples, 2 nodes, 13 features, one sample varied"),
        Case("parts", parts([2, 1], [1, 1]), bounds="two parts of one sample"),
        Case("storage", storage([2, 1]), bounds="2 samples, stored or implicit"),
    ]
    if big:
        out += [
            Case("four-samples", full(4, [2], [[T], None], [NODES], states=False), bounds="4 samples"),
            Case("three-wide", full(3, [2, 2], [[T, T], [T, F]], [NODES], states=False), bounds="3 samples, 2 features of 3 bins"),
            Case("parts-2", parts([2, 1], [2, 1]), bounds="parts of 2 and 1 samples"),
        ]
    return out
