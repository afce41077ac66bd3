"""C08: quantile binning and the conversion of values to bins."""
from symx.runner import Case
from checks.common import array, instance, table, increasing

DESC = ("QuantileBinning fits and converts tables of symbolic values (every ordering and tie; dense and sparse; every pattern of missing "
        "entries up to the bound); the reported bin is compared with the number of thresholds below the value.")
HEADER = ["a", "b", "c"]


def binning(h, bin_num, cols=-1, abnormal=None, **kw):
    P = h.cls("ml.param.feature_binning_param", "FeatureBinningParam")
    Q = h.cls("ml.feature.binning.quantile_binning", "QuantileBinning")
    return Q(P(bin_num=bin_num, cols=cols, **kw), "guest", abnormal) if abnormal is not None else Q(P(bin_num=bin_num, cols=cols, **kw), "guest")


def is_bin(h, got, v, pts, key, msg="bin of a value"):
    """got == number of thresholds below v, thresholds increasing"""
    n = h.total([h.num(h.lt(p, v)) for p in pts])
    h.check(h.land(0 <= got, got <= len(pts)), msg + " is in range", key)
    h.check(h.eq(got, n), msg, key)


def bin_num(n, sparse):
    def fn(h):
        h.world()
        B = h.cls("ml.feature.binning.base_binning", "Binning")
        pts = h.reals("t", n)
        h.assume(increasing(h, pts)) if n > 1 else None
        v = h.real("v")
        if h.choose("kind", 2):
            pts = array(h, pts) if n else pts
        is_bin(h, B.get_bin_num(v, pts), v, pts, "bin")
    return fn


def bin_many(n, step=0.5):
    """any value against many given thresholds"""
    def fn(h):
        h.world()
        B = h.cls("ml.feature.binning.base_binning", "Binning")
        pts = [-3.25 + step * i + (i % 3) * 0.125 for i in range(n)]
        v = h.real("v", -1000, 1000)
        if h.choose("kind", 2):
            pts = array(h, pts)
        is_bin(h, B.get_bin_num(v, pts), v, pts, "bin")
    return fn


def many(n, bins, at, how, sparse=False):
    """a column of many given values, one of them free: thresholds are values of the column, bins count the thresholds below"""
    def fn(h):
        h.world()
        k = h.pick("bin_num", bins)
        b = binning(h, k)
        vals = [float((7 * i) % n) - 2.5 if how == "mixed" else float(i // 2) - 2.5 if how == "ties" else float(n - i) - 2.5 for i in range(n)]
        j = h.pick("at", at)
        vals[j] = h.real("v", -4, n)
        if sparse:
            h.assume(h.lor(vals[j] >= 0.001, vals[j] <= -0.001))
        rows = [({0: v, 1: float(i)} if i % 4 else {0: v}) if sparse else [v, float(i)] for i, v in enumerate(vals)]
        t = make(h, rows, 2, sparse)
        b.fit_split_points(t)
        sp = b.split_points
        for c in (0, 1):
            pts = sp[HEADER[c]]
            h.check(1 <= len(pts) <= k - 1, "at least one and at most bin_num-1 thresholds", "points")
            if len(pts) > 1:
                h.check(increasing(h, pts), "thresholds are strictly increasing", "points")
            col = [r[c] for r in rows if not sparse or c in r] + ([0] if sparse else [])
            for p in pts:
                h.check(h.lor(*[h.eq(p, v) for v in col]), "a threshold is a value of its own column", "points")
        new, arr, zb = b.convert_feature_to_bin(t)
        check_rows(h, rows, new, sp, [0, 1], sparse, 2)
        for c in (0, 1):
            is_bin(h, zb[c], 0, sp[HEADER[c]], "zero", "bin of absent entries")
    return fn


def rows_of(h, n, ncol, sparse, tag="v"):
    """n rows; column 0 is fully symbolic, the last column is concrete, one in between is shared"""
    rows = []
    for i in range(n):
        if sparse:
            r = {}
            if h.choose("%shas%d" % (tag, i), 2):
                x = h.real("%s%d" % (tag, i))
                h.assume(h.lor(x >= 0.001, x <= -0.001))
                r[0] = x
            if i % 2 == 0 and ncol > 1:
                r[1] = float(i) - 1.5
            rows.append(r)
        else:
            rows.append([h.real("%s%d" % (tag, i))] + [float(i * k) - 1.5 for k in range(1, ncol)])
    return rows


def make(h, rows, ncol, sparse, tag="r"):
    return table(h, [("%s%d" % (tag, i), instance(h, r, label=i % 2, inst_id=100 + i, sparse=sparse, shape=ncol))
                     for i, r in enumerate(rows)], HEADER[:ncol])


def check_rows(h, rows, out, sp, cols, sparse, ncol, tag="r"):
    got = dict(out.collect())
    h.check(list(got) == ["%s%d" % (tag, i) for i in range(len(rows))], "rows keep their ids and order", "rows")
    for i, r in enumerate(rows):
        inst = got["%s%d" % (tag, i)]
        h.check(inst.label == i % 2 and inst.inst_id == 100 + i, "labels and ids stay", "rows")
        if sparse:
            d = dict(inst.features.get_all_data())
            h.check(sorted(d) == sorted(r) and inst.features.get_shape() == ncol, "entries keep their columns", "cols")
            items = r.items()
        else:
            d = inst.features
            h.check(len(d) == ncol, "row length", "cols")
            items = enumerate(r)
        for c, v in items:
            if c in cols:
                is_bin(h, d[c], v, sp[HEADER[c]], "bin", "bin of a value in a table")
            else:
                h.check(h.eq(d[c], v), "columns outside the selection stay as they are", "other")


def fit(n, ncol, sparse, bins, cols=-1, tcols=-1, kw=None, abnormal=None):
    def fn(h):
        h.world()
        k = h.pick("bin_num", bins)
        b = binning(h, k, cols=cols, abnormal=abnormal, **(kw or {}))
        rows = rows_of(h, n, ncol, sparse)
        if sparse and not any(rows):
            return
        t = make(h, rows, ncol, sparse)
        b.fit_split_points(t)
        fitted = list(range(ncol)) if cols == -1 else [int(c) for c in cols]
        sp = b.split_points
        h.check(sorted(sp) == sorted(HEADER[c] for c in fitted), "thresholds for each selected column", "points")
        for c in fitted:
            pts = sp[HEADER[c]]
            vals = [r[c] for r in rows if not sparse or c in r]
            if abnormal:
                vals = [v for v in vals if not h.branch(h.eq(v, abnormal[0]))]
                if not vals:
                    vals = [0]
            h.check(len(pts) <= k - 1, "at most bin_num-1 thresholds", "points")
            if len(pts) > 1:
                h.check(increasing(h, pts), "thresholds are strictly increasing", "points")
            zero = [0] if sparse else []
            for p in pts:
                h.check(h.lor(*[h.eq(p, v) for v in vals + zero]), "a threshold is a value of its own column", "points")
            if k >= 2 and not sparse and not abnormal:
                h.check(len(pts) >= 1, "a fitted column has a threshold", "points")
        tc = fitted if tcols == -1 else tcols
        new, arr, zb = b.convert_feature_to_bin(t, tcols) if tcols != -1 else b.convert_feature_to_bin(t)
        check_rows(h, rows, new, sp, tc, sparse, ncol)
        h.check(new.schema.get("header") == HEADER[:ncol], "header is kept", "schema")
        h.check(sorted(zb) == sorted(tc), "zero bins for the converted columns", "zero")
        for c in tc:
            is_bin(h, zb[c], 0, sp[HEADER[c]], "zero", "bin of absent entries")
        h.check(len(arr) == len(fitted), "one list of thresholds per fitted column", "points")
        for a, c in zip(arr, sorted(fitted)):
            h.check(len(a) == len(sp[HEADER[c]]), "thresholds of the right column", "points")
            for x, y in zip(a, sp[HEADER[c]]):
                h.check(h.eq(x, y), "thresholds of the right column", "points")
    return fn


def reuse(sparse):
    """fitted thresholds applied to another table, and given thresholds"""
    def fn(h):
        h.world()
        b = binning(h, h.pick("bin_num", [2, 3]))
        first = rows_of(h, 2, 2, sparse)
        if sparse and not any(first):
            return
        b.fit_split_points(make(h, first, 2, sparse))
        other = rows_of(h, 2, 2, sparse, "w")
        if sparse and not any(other):
            return
        t = make(h, other, 2, sparse, "s")
        if h.choose("given", 2):
            p = h.real("gp")
            sp = {"a": [p], "b": [0.25, 1.5]}
            new, arr, zb = b.convert_feature_to_bin(t, split_points=sp)
        else:
            sp = b.split_points
            new, arr, zb = b.convert_feature_to_bin(t)
        check_rows(h, other, new, sp, [0, 1], sparse, 2, "s")
        for c in (0, 1):
            is_bin(h, zb[c], 0, sp[HEADER[c]], "zero", "bin of absent entries")
    return fn


def merge_parts(sparse):
    """summaries of parts, merged as fit_split_points merges them"""
    def fn(h):
        h.world()
        Q = h.cls("ml.feature.binning.quantile_binning", "QuantileBinning")
        P = h.cls("ml.param.feature_binning_param", "FeatureBinningParam")
        parts, all_rows = [], []
        for k, n in enumerate((2, 1)):
            rows = rows_of(h, n, 2, sparse, "p%d_" % k)
            all_rows.append(rows)
            t = make(h, rows, 2, sparse)
            parts.append(Q.approxiQuantile(t.collect(), P(error=0.0), {"a": 0, "b": 1}, [], ["a", "b"], sparse))
        h.check(all(len(p) == 1 for p in parts), "one summary per part", "merge")
        m = Q.merge_summary_dict(parts[0][0], parts[1][0])
        h.check(Q.merge_summary_dict(None, None) is None, "nothing merged with nothing", "merge")
        h.check(Q.merge_summary_dict(m, None) is m and Q.merge_summary_dict(None, m) is m, "merging with nothing", "merge")
        h.check(sorted(m) == ["a", "b"], "columns of the merged summary", "merge")
        flat = [r for rows in all_rows for r in rows]
        for c, name in enumerate(["a", "b"]):
            vals = [r[c] for r in flat if not sparse or c in r]
            h.check(m[name].count == len(vals), "every value of both parts is counted in its own column", "merge")
            got = [s.value for s in m[name].sampled]
            h.check(len(got) == len(vals), "every value is kept", "merge")
            if vals:
                h.check(h.land(*[h.lor(*[h.eq(v, g) for g in got]) for v in vals]), "values of the right column", "merge")
    return fn


def bad_cols():
    def fn(h):
        h.world()
        t = make(h, [[1.0, 2.0], [3.0, 4.0]], 2, False)
        kind = h.choose("kind", 4)
        if kind == 0:
            c = h.int("col", 2, 6)
            h.expect(ValueError, binning(h, 2, cols=[h.value(c)]).fit_split_points, t, msg="a column beyond the data is rejected", key="cols")
        elif kind == 1:
            h.expect(ValueError, binning(h, 2, cols=["x"]).fit_split_points, t, msg="a column that is no number is rejected", key="cols")
        else:
            b = binning(h, 2, cols=[0])
            b.fit_split_points(t)
            if kind == 2:
                h.expect(RuntimeError, b.convert_feature_to_bin, t, [1], msg="only fitted columns are converted", key="cols")
            else:
                out = b.convert_feature_to_bin(t, None)
                h.check(out[0] is t and out[1] is None and out[2] is None, "nothing selected converts nothing", "cols")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in range(0, 7 if big else 5):
        out.append(Case("bin-%d" % n, bin_num(n, False), bounds="%d increasing thresholds, every value" % n))
    out.append(Case("bin-40", bin_many(40), bounds="40 given thresholds, every value"))
    out.append(Case("bin-17", bin_many(17, 0.25), bounds="17 given thresholds, every value"))
    out.append(Case("many-12", many(12, [4, 10, 32], [0, 5, 11], "mixed"), bounds="12 rows, one value free, 4, 10 and 32 bins"))
    out.append(Case("many-12-ties", many(12, [3, 10], [4, 11], "ties"), bounds="12 rows with ties, one value free"))
    out.append(Case("many-12-down", many(12, [5, 16], [6], "down"), bounds="12 falling rows, one value free"))
    out.append(Case("many-12-sparse", many(12, [4, 10], [0, 7], "mixed", True), bounds="12 sparse rows, one value free"))
    if big:
        out.append(Case("many-30", many(30, [8, 32], [0, 13, 29], "mixed"), bounds="30 rows, one value free"))
    for n in (1, 2, 3, 4) + ((5,) if big else ()):
        out.append(Case("dense-%d" % n, fit(n, 2, False, [1, 2, 3, 4] if n < 4 else [3, 5]), bounds="%d rows, 1..4 bins" % n))
        out.append(Case("sparse-%d" % n, fit(n, 2, True, [1, 2, 3, 4] if n < 4 else [3, 5]), bounds="%d rows, every pattern of missing entries" % n))
    out.append(Case("dense-buffers", fit(3, 2, False, [2, 4], kw={"head_size": 2, "compress_thres": 2, "error": 0.1}), bounds="small buffers"))
    if big:
        out.append(Case("sparse-buffers", fit(4, 2, True, [2, 4], kw={"head_size": 1, "compress_thres": 2, "error": 0.1}), bounds="small buffers"))
        out.append(Case("dense-10", fit(3, 2, False, [10, 32]), bounds="more bins than rows"))
    out.append(Case("sparse-10", fit(2, 2, True, [10]), bounds="more bins than rows"))
    out.append(Case("subset-dense", fit(2, 3, False, [3], cols=[2, 0]), bounds="columns 2 and 0 of 3"))
    out.append(Case("subset-sparse", fit(2, 3, True, [3], cols=[2, 0]), bounds="columns 2 and 0 of 3"))
    out.append(Case("transform-subset", fit(2, 3, False, [3], tcols=[0, 1]), bounds="converting columns 0, 1 of 3"))
    out.append(Case("transform-subset-sparse", fit(2, 2, True, [3], tcols=[0]), bounds="converting column 0 of 2"))
    out.append(Case("abnormal", fit(3, 2, False, [3], abnormal=[2.0]), bounds="an abnormal value"))
    out.append(Case("reuse-dense", reuse(False), bounds="fit on 2 rows, convert 2 others"))
    out.append(Case("reuse-sparse", reuse(True), bounds="fit on 2 rows, convert 2 others"))
    out.append(Case("parts-dense", merge_parts(False), bounds="parts of 2 and 1 rows"))
    out.append(Case("parts-sparse", merge_parts(True), bounds="parts of 2 and 1 rows"))
    out.append(Case("cols", bad_cols(), bounds="column indices 2..6"))
    return out
