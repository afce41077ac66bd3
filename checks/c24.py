"""C24: column statistics."""
from symx.runner import Case
from checks.common import table, instance, array, sep
from checks.c07 import rank_ok, member

DESC = ("SummaryStatistics and MultivariateStatisticalSummary run on tables of symbolic values; results are compared with the "
        "definitions over the column, merges with the union.")
ZERO = 1e-6
HUGE = 1e25


def definitions(h, vals, got, key):
    """got: dict with mean, variance, std_variance, max_value, min_value"""
    n = len(vals)
    mean = h.total(vals) / n
    h.close(got["mean"], mean, "the mean of the values", key + "mean")
    var = h.total([(v - mean) * (v - mean) for v in vals]) / n
    small = h.branch(var < ZERO) if h.symbolic else abs(var - ZERO) > 1e-9 and var < ZERO
    if small:
        h.check(h.eq(got["variance"], 0), "a variance below 1e-6 is reported as 0", key + "variance")
        h.check(h.eq(got["std_variance"], 0), "a deviation below 1e-3 is reported as 0", key + "std")
    elif h.symbolic or var > ZERO + 1e-9:
        h.close(got["variance"], var, "the variance of the values", key + "variance", tol=1e-6)
        s = got["std_variance"]
        h.check(s >= 0, "the deviation is not negative", key + "std")
        h.close(s * s, var, "the square of the deviation is the variance", key + "std", tol=1e-5)
    mx, mn = got["max_value"], got["min_value"]
    h.check(h.land(h.lor(*[h.eq(v, mx) for v in vals]), *[h.le(v, mx) for v in vals]), "the largest value", key + "max")
    h.check(h.land(h.lor(*[h.eq(v, mn) for v in vals]), *[h.le(mn, v) for v in vals]), "the smallest value", key + "min")


def take(s):
    return {k: getattr(s, k) for k in ("mean", "variance", "std_variance", "max_value", "min_value")}


def single(n, lo=-100, hi=100):
    def fn(h):
        h.world()
        S = h.cls("ml.statistic.statics", "SummaryStatistics")
        s = S()
        vals = h.reals("v", n, lo, hi)
        for v in vals:
            s.add_value(v)
        h.check(s.count == n, "every value is counted", "count")
        definitions(h, vals, take(s), "")
    return fn


def huge(n):
    """only the extremes, for values of any size"""
    def fn(h):
        h.world()
        S = h.cls("ml.statistic.statics", "SummaryStatistics")
        a, b = S(), S()
        vals = h.reals("v", n, -HUGE, HUGE)
        k = h.choose("cut", n + 1)
        for i, v in enumerate(vals):
            (a if i < k else b).add_value(v)
        a.merge(b)
        h.check(h.land(h.lor(*[h.eq(v, a.max_value) for v in vals]), *[h.le(v, a.max_value) for v in vals]), "the largest value", "max")
        h.check(h.land(h.lor(*[h.eq(v, a.min_value) for v in vals]), *[h.le(a.min_value, v) for v in vals]), "the smallest value", "min")
    return fn


def merged(n):
    def fn(h):
        h.world()
        S = h.cls("ml.statistic.statics", "SummaryStatistics")
        vals = h.reals("v", n, -100, 100)
        k = h.choose("cut", n + 1)
        a, b = S(), S()
        for i, v in enumerate(vals):
            (a if i < k else b).add_value(v)
        a.merge(b)
        h.check(a.count == n, "every value is counted", "count")
        definitions(h, vals, take(a), "merged-")
    return fn


def abnormal():
    def fn(h):
        h.world()
        S = h.cls("ml.statistic.statics", "SummaryStatistics")
        bad = h.real("bad", -10, 10)
        vals = h.reals("v", 3, -10, 10)
        sep(h, [bad] + vals)
        s = S(abnormal_list=[bad, "NA", None])
        xs = list(vals)
        xs.insert(h.choose("p1", 3), bad)
        xs.insert(h.choose("p2", 3), h.pick("junk", ["NA", None]))
        for x in xs:
            s.add_value(x)
        good = [v for v in vals if not h.branch(v == bad)]
        h.check(s.count == len(good), "abnormal values are not counted", "abnormal")
        if good:
            definitions(h, good, take(s), "abnormal-")
    return fn


def whole(n, ncol, kind="instance"):
    """a table; all or selected columns"""
    def fn(h):
        h.world()
        M = h.cls("ml.statistic.statics", "MultivariateStatisticalSummary")
        names = ["x%d" % c for c in range(ncol)]
        rows = [[h.real("v%d_%d" % (r, c), -100, 100) for c in range(ncol)] for r in range(n)]
        if kind == "instance":
            t = table(h, [("k%d" % r, instance(h, rows[r])) for r in range(n)], names)
        else:
            t = table(h, [("k%d" % r, array(h, rows[r])) for r in range(n)], names)
        sel = h.pick("sel", [-1] + [[c] for c in range(ncol)] + ([[ncol - 1, 0]] if ncol > 1 else []))
        m = M(t, sel)
        want = list(range(ncol)) if sel == -1 else sel
        which = h.pick("first", ["mean", "variance", "std_variance", "max", "min"])   # whichever is asked first
        getattr(m, "get_" + which)()
        res = dict(mean=m.get_mean(), variance=m.get_variance(), std_variance=m.get_std_variance(), max_value=m.get_max(),
                   min_value=m.get_min())
        for k, d in res.items():
            h.check(set(d) == set(names[c] for c in want), "one result per selected column", "columns")
        for c in want:
            definitions(h, [row[c] for row in rows], {k: d[names[c]] for k, d in res.items()}, "table-")
        sub = {names[want[0]]: want[0]}
        d = m.get_mean(sub)
        h.check(set(d) == set(sub), "one result per asked column", "columns")
    return fn


def quantiles(n, ncol=1, unset=False):
    def fn(h):
        h.world()
        M = h.cls("ml.statistic.statics", "MultivariateStatisticalSummary")
        names = ["x%d" % c for c in range(ncol)]
        rows = [[h.real("v%d_%d" % (r, c), -100, 100) if c == 0 else float(3 * r % 4) for c in range(ncol)] for r in range(n)]
        t = table(h, [("k%d" % r, instance(h, rows[r])) for r in range(n)], names)
        m = M(t, -1)
        col = [row[0] for row in rows]
        if h.choose("median", 2):
            d = m.get_median()
            h.check(set(d) == set(names), "one median per column", "columns")
            x, p = d[names[0]], 0.5
            if ncol > 1:
                rank_ok(h, [row[1] for row in rows], d[names[1]], p, 0.001, n, "rank of the median", "median")
        else:
            p = h.real("p", 0, 1)
            d = m.get_quantile_point(p)
            h.check(set(d) == set(names), "one point per column", "columns")
            x = d[names[0]]
        member(h, col, x, "quantile-member")
        rank_ok(h, col, x, p, 0.001, n, "rank of the quantile point", "quantile")
    return fn


def arranged(order, free, bad=None):
    """many rows: a column in the given order with free values at some places (and an abnormal value, which does not count)"""
    def fn(h):
        h.world()
        M = h.cls("ml.statistic.statics", "MultivariateStatisticalSummary")
        col = [h.real("v%d" % r, 0, len(order) + 1) if r in free else float(x) for r, x in enumerate(order)]
        other = [float((7 * x) % len(order)) for x in order]
        rows = [[a, b] for a, b in zip(col, other)]
        if bad is not None:
            for i, p in enumerate(bad):
                rows.insert(p, [-999.0, 500.0 if i % 2 else -999.0])
                if i % 2:
                    other.append(500.0)
        t = table(h, [("k%d" % r, instance(h, row)) for r, row in enumerate(rows)], ["x0", "x1"])
        m = M(t, -1, [-999.0]) if bad is not None else M(t, -1)
        for name, c in (("x0", col), ("x1", other)):
            x = m.get_median()[name]
            member(h, c, x, "quantile-member")
            rank_ok(h, c, x, 0.5, 0.001, len(c), "rank of the median", "median")
            for p in (0.0, 0.1, 0.3, 0.75, 1.0):
                x = m.get_quantile_point(p)[name]
                member(h, c, x, "quantile-member")
                rank_ok(h, c, x, p, 0.001, len(c), "rank of the quantile point", "quantile")
            definitions(h, c, dict(mean=m.get_mean()[name], variance=m.get_variance()[name], std_variance=m.get_std_variance()[name],
                                   max_value=m.get_max()[name], min_value=m.get_min()[name]), "arranged-")
    return fn


def guards():
    def fn(h):
        h.world()
        M = h.cls("ml.statistic.statics", "MultivariateStatisticalSummary")
        t = table(h, [("a", instance(h, [1.0, 2.0]))], ["x", "y"])
        h.expect(ValueError, M, t, [2], key="range", msg="a column that does not exist is rejected")
        h.expect(ValueError, M, t, ["q"], key="range", msg="a column index that is no number is rejected")
        d = M(t, ["1"]).get_max()
        h.check(set(d) == {"y"} and h.branch(d["y"] == 2.0), "a numeric string selects the column", "columns")
    return fn


def labels(n):
    """the objectives' initial scores rest on these statistics"""
    def fn(h):
        h.world()
        R = h.mod("ml.loss.regression_loss")
        ys = h.reals("y", n, -100, 100)
        y = table(h, [("k%d" % i, v) for i, v in enumerate(ys)])
        name = h.pick("loss", ["LeastSquaredErrorLoss", "HuberLoss", "FairLoss", "TweedieLoss", "LogCoshLoss", "LeastAbsoluteErrorLoss"])
        F, init = getattr(R, name).initialize(y)
        if name == "LeastAbsoluteErrorLoss":
            rank_ok(h, ys, init[0], 0.5, 0.001, n, "the initial score is the median label", "init")
            member(h, ys, init[0], "init")
        else:
            h.close(init[0], h.total(ys) / n, "the initial score is the mean label", "init")
        F = dict(F.collect())
        h.check(set(F) == set("k%d" % i for i in range(n)), "one score per sample", "init")
        for k in F:
            h.check(len(F[k]) == 1 and len(init) == 1, "one score per sample", "init")
            h.close(F[k][0], init[0], "all samples start from the initial score", "init")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("single-1", single(1), bounds="1 value in [-100,100]"),
        Case("single-2", single(2), bounds="2 values"),
        Case("single-3", single(3), bounds="3 values"),
        Case("merge-3", merged(3), bounds="3 values in two parts"),
        Case("huge", huge(3), bounds="values up to 1e25"),
        Case("abnormal", abnormal(), bounds="3 values and 2 abnormal ones"),
        Case("table-1", whole(2, 1), bounds="2 rows, 1 column"),
        Case("table-2", whole(2, 2), bounds="2 rows, 2 columns"),
        Case("table-array", whole(2, 2, "array"), bounds="rows are arrays"),
        Case("quantile-1", quantiles(1), bounds="1 row"),
        Case("quantile-3", quantiles(3), bounds="3 rows"),
        Case("quantile-4", quantiles(4, 2), bounds="4 rows, 2 columns"),
        Case("many", arranged([5, 3, 8, 1, 9, 2, 7, 4, 6], [2]), bounds="9 rows, 2 columns, one free value"),
        Case("many-down", arranged([9, 8, 7, 6, 5, 4, 3, 2, 1], [0]), bounds="9 rows, 2 columns, one free value"),
        Case("many-abnormal", arranged([5, 3, 8, 1, 9, 2, 7], [3], bad=[0, 4, 9]), bounds="7 rows and 3 with abnormal values"),
        Case("guards", guards(), bounds="column selection"),
        Case("labels", labels(3), bounds="3 labels"),
    ]
    if big:
        out += [
            Case("single-5", single(5), bounds="5 values"),
            Case("merge-4", merged(4), bounds="4 values in two parts"),
            Case("table-3", whole(3, 2), bounds="3 rows, 2 columns"),
            Case("single-7", single(7), bounds="7 values"),
            Case("merge-6", merged(6), bounds="6 values"),
            Case("table-3x3", whole(3, 3), bounds="3 rows, 3 columns"),
            Case("table-4x2", whole(4, 2), bounds="4 rows, 2 columns"),
            Case("quantile-5", quantiles(5), bounds="5 rows"),
            Case("quantile-6", quantiles(6), bounds="6 rows"),
            Case("labels-4", labels(4), bounds="4 labels"),
            Case("huge-5", huge(5), bounds="5 values up to 1e25"),
        ]
    return out
