"""C07: quantile summaries."""
import math
import random
from fractions import Fraction
from symx.runner import Case
from symx.syms import SymInt

DESC = ("QuantileSummaries runs on symbolic values (the solver resolves every comparison, so all orderings and ties are covered), "
        "a symbolic quantile and a symbolic error parameter.")


def rank_ok(h, vals, x, p, e, N, msg, key, zeros=0):
    """floor((p-2e)N) <= rank(x) <= ceil((p+2e)N) for some rank of x among the (tied) values"""
    h.observe(x)
    le = h.total([h.num(h.le(v, x)) for v in vals]) + (zeros if zeros == 0 else zeros * h.num(h.le(0, x)))
    lt = h.total([h.num(h.lt(v, x)) for v in vals]) + (zeros if zeros == 0 else zeros * h.num(h.lt(0, x)))
    # floor(a) <= r  <=>  r > a - 1 ;  r <= ceil(b)  <=>  r < b + 1   (r integer)
    a = (p - 2 * e) * N
    b = (p + 2 * e) * N
    if not h.symbolic:      # a bound within rounding of an integer is that integer
        a, b = [round(c) if abs(c - round(c)) < 1e-9 else c for c in (a, b)]
    top = le
    bot = h.ite(lt + 1 <= le, lt + 1, le)
    edge = False
    if zeros:               # a quantile exactly on an edge of the implicit zeros may answer 0
        neg, pos = h.total([h.num(h.lt(v, 0)) for v in vals]), h.total([h.num(h.lt(0, v)) for v in vals])
        edge = h.land(h.eq(x, 0), h.lor(h.eq(p * N, neg), h.eq((1 - p) * N, pos)))
    h.check(h.lor(h.land(top > a - 1, h.lor(bot < b + 1, bot <= 1)), edge), msg, key)


def member(h, vals, x, key, extra=()):
    h.check(h.lor(*[h.eq(v, x) for v in list(vals) + list(extra)]), "the answer is one of the values", key)


def error_of(h, es):
    if es == "sym":
        return h.real("err", 0, Fraction(1, 2))
    return h.pick("err", es)


def exact(h, n):
    """counts divide as rationals in the symbolic run, so that no path exists only by the rounding of count/total"""
    return SymInt({(): n}) if h.symbolic else n


def dense(n, heads, thresholds, es, twice=False):
    def fn(h):
        h.world()
        Q = h.cls("ml.feature.quantile_summaries", "QuantileSummaries")
        e = error_of(h, es)
        head, thr = h.pick("head", heads), h.pick("thr", thresholds)
        q = Q(compress_thres=thr, head_size=head, error=e)
        vals = h.reals("v", n)
        ask_at = h.choose("ask_at", n) if twice else None
        for i, v in enumerate(vals):
            q.insert(v)
            if i == ask_at:
                p0 = h.real("p0", 0, 1)
                x0 = q.query(p0)
                rank_ok(h, vals[:i + 1], x0, p0, e, i + 1, "rank of an early answer", "rank")
        if h.choose("explicit", 2) and not twice:
            q.compress()
        p = h.real("p", 0, 1)
        x = q.query(p)
        member(h, vals, x, "member")
        rank_ok(h, vals, x, p, e, n, "rank of the answer for %d values" % n, "rank")
        h.check(q.count == n, "every value is counted", "count")
    return fn


def arranged(n, how):
    """n numbers in a fixed arrangement; a free value is inserted among them"""
    a = list(range(n))
    if how == "down":
        a = a[::-1]
    elif how == "zigzag":
        a = [x for pair in zip(a[: (n + 1) // 2], a[::-1]) for x in pair][:n]
    elif how.startswith("mixed"):
        random.Random(int(how[5:])).shuffle(a)
    return a


def long(n, how, es, heads, thrs, at):
    """buffers flushed and compressed several times: the order of n-1 values is fixed, the remaining value and the quantile are free"""
    def fn(h):
        h.world()
        Q = h.cls("ml.feature.quantile_summaries", "QuantileSummaries")
        e, head, thr = h.pick("err", es), h.pick("head", heads), h.pick("thr", thrs)
        q = Q(compress_thres=thr, head_size=head, error=e)
        vals = list(arranged(n - 1, how))
        vals.insert(h.pick("at", at), h.real("v", -1, n))
        for v in vals:
            q.insert(v)
        p = h.real("p", 0, 1)
        x = q.query(p)
        member(h, vals, x, "member")
        rank_ok(h, vals, x, p, Fraction(str(e)) if h.symbolic else e, n, "rank of the answer for %d values" % n, "rank")
        h.check(q.count == n, "every value is counted", "count")
    return fn


def long_merge(parts, how, es, heads, thrs, at, two):
    """merged summaries that were flushed and compressed: every value of both counts once and the bound with 3e holds"""
    def fn(h):
        h.world()
        Q = h.cls("ml.feature.quantile_summaries", "QuantileSummaries")
        e, head, thr = h.pick("err", es), h.pick("head", heads), h.pick("thr", thrs)
        n = sum(parts)
        vals = list(arranged(n - 1, how))
        vals.insert(h.pick("at", at), h.real("v", -1, n))
        i, q = 0, None
        for size in parts:
            o = Q(compress_thres=thr, head_size=head, error=e)
            for v in vals[i:i + size]:
                o.insert(v)
            i += size
            if q is None:
                q = o
            else:
                q.merge(o)
        p = h.real("p", 0, 1)
        x = q.query(p)
        member(h, vals, x, "merge-member")
        rank_ok(h, vals, x, p, Fraction(str(e)) * Fraction(3, 2) if h.symbolic else e * 1.5, n, "rank in a merged summary of %d values" % n, "merge-rank")
        h.check(q.count == n, "every value is counted", "merge-count")
        if not two:
            return
        r = h.real("r", 0, 1)
        h.assume(p <= r)
        h.check(h.le(x, q.query(r)), "a larger quantile of a merged summary answers no smaller value", "merge-order")
    return fn


def order(n):
    """larger quantiles never answer smaller values"""
    def fn(h):
        h.world()
        Q = h.cls("ml.feature.quantile_summaries", "QuantileSummaries")
        q = Q(compress_thres=h.pick("thr", [2, 100]), head_size=h.pick("head", [2, 100]), error=h.pick("e", [0, 0.1]))
        for v in h.reals("v", n):
            q.insert(v)
        p, r = h.real("p", 0, 1), h.real("r", 0, 1)
        h.assume(p <= r)
        h.check(h.le(q.query(p), q.query(r)), "a larger quantile answers no smaller value", "order")
    return fn


def guards():
    def fn(h):
        h.world()
        M = h.mod("ml.feature.quantile_summaries")
        q = M.QuantileSummaries(head_size=h.pick("head", [1, 5]))
        h.check(q.query(0.5) == 0, "no values answer 0", "empty")
        v = h.real("v")
        q.insert(v)
        p = h.real("p", -3, 3)
        inside = h.branch(h.land(p >= 0, p <= 1))
        try:
            x = q.query(p)
        except ValueError:
            return h.check(not inside, "a quantile in [0,1] was rejected", "range")
        h.check(inside, "a quantile outside [0,1] was answered", "range")
        h.check(h.eq(x, v), "the only value", "single")
    return fn


def abnormal(sparse):
    def fn(h):
        h.world()
        M = h.mod("ml.feature.quantile_summaries")
        bad = h.real("bad")
        C = M.SparseQuantileSummaries if sparse else M.QuantileSummaries
        q = C(head_size=h.pick("head", [1, 2, 10]), error=0.0, abnormal_list=[bad, "NA"])
        vals = h.reals("v", 3)
        for v in vals:
            h.assume(h.lor(v == bad, v - bad >= 0.01, bad - v >= 0.01))
        if sparse:
            for v in vals + [bad]:
                h.assume(h.lor(v >= 1e-3, v <= -1e-3))
        xs = list(vals)
        pos = h.choose("pos", 3)
        xs.insert(pos, bad)
        if not sparse:
            xs.insert(h.choose("pos2", 2), "NA")
        for x in xs:
            q.insert(x)
        keep = [v for v in vals if not h.branch(h.eq(v, bad))]
        n = len(keep)
        if sparse:
            q.set_total_count(exact(h, n + 1))
        p = h.real("p", 0, 1)
        x = q.query(p)
        if not keep and not sparse:
            return h.check(h.eq(x, 0), "nothing but abnormal values", "empty")
        if sparse:
            rank_ok(h, keep, x, p, 0, n + 1, "rank with abnormal values ignored", "abnormal", zeros=1)
            member(h, keep, x, "member", [0])
        else:
            rank_ok(h, keep, x, p, 0, n, "rank with abnormal values ignored", "abnormal")
            member(h, keep, x, "member")
    return fn


def sparse(n, zeros, heads, es):
    def fn(h):
        h.world()
        Q = h.cls("ml.feature.quantile_summaries", "SparseQuantileSummaries")
        e = error_of(h, es)
        z = h.pick("zeros", zeros)
        q = Q(compress_thres=h.pick("thr", [2, 100]), head_size=h.pick("head", heads), error=e)
        vals = h.reals("v", n)
        for v in vals:
            h.assume(h.lor(v >= 1e-5, v <= -1e-5, v == 0))
            q.insert(v)
        q.set_total_count(exact(h, n + z))
        p = h.real("p", 0, 1)
        x = q.query(p)
        member(h, vals, x, "member", [0])
        rank_ok(h, vals, x, p, e, n + z, "rank with %d implicit zeros" % z, "sparse", zeros=z)
    return fn


def merging(parts, heads, sp, es=(0.0, 0.1, 0.3), thrs=(2, 50), twice=False):
    def fn(h):
        h.world()
        M = h.mod("ml.feature.quantile_summaries")
        C = M.SparseQuantileSummaries if sp else M.QuantileSummaries
        e = h.pick("err", list(es))
        head, thr = h.pick("head", heads), h.pick("thr", list(thrs))
        qs, vals = [], []
        for i, n in enumerate(parts):
            q = C(compress_thres=thr, head_size=head, error=e)
            for v in h.reals("v%d_" % i, n):
                if sp:
                    h.assume(h.lor(v >= 1e-5, v <= -1e-5))
                q.insert(v)
                vals.append(v)
            qs.append(q)
        q = qs[0]
        for o in qs[1:]:
            q.merge(o)
        h.check(q.count == len(vals), "a merged summary counts every value", "merge-count")
        h.check(sum(s.g for s in q.sampled) <= len(vals), "the samples stand for no more values than there are", "merge-g")
        if sp:
            h.check(q.smaller_num + q.bigger_num == len(vals), "smaller and bigger values add up", "merge-sides")
            q.set_total_count(exact(h, len(vals)))
        p = h.real("p", 0, 1)
        x = q.query(p)
        h.observe(x)
        if not vals:
            return h.check(h.eq(x, 0), "nothing merged with nothing", "merge-empty")
        member(h, vals, x, "merge-member", [0] if sp else [])
        if not sp:
            if h.branch(p == 0):
                h.check(h.land(*[h.le(x, v) for v in vals]), "quantile 0 of a merged summary is the least value", "merge-min")
            elif h.branch(p == 1):
                h.check(h.land(*[h.le(v, x) for v in vals]), "quantile 1 of a merged summary is the greatest value", "merge-max")
            else:
                rank_ok(h, vals, x, p, e * 1.5, len(vals), "rank in a merged summary", "merge-rank")
        if twice:
            r = h.real("r", 0, 1)
            h.assume(p <= r)
            h.check(h.le(x, q.query(r)), "a larger quantile of a merged summary answers no smaller value", "merge-order")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4) + ((5,) if big else ()):
        hs = [1, 2, n + 1] if n < 4 else ([1, 2, 3, 10] if big else [1, 3, 10])
        out.append(Case("dense-%d" % n, dense(n, hs, [1, 2, 100] if n < 4 or big else [2, 100], "sym" if n < 4 or big else [0.0, 0.05, 0.2]),
                        bounds="%d values, head sizes %s, every quantile, errors 0..0.5" % (n, hs)))
    out.append(Case("dense-5s", dense(5, [2, 3], [2, 3], [0.001, 0.15]), bounds="5 values"))
    for how in ("up", "down", "zigzag") + tuple("mixed%d" % i for i in range(8 if big else 5)):
        out.append(Case("long-10-" + how, long(10, how, [0.1, 0.2, 0.4], [4, 3], [5, 3], [0, 5, 9]), bounds="10 values, one of them free, buffers of 3 and 4, errors 0.1, 0.2 and 0.4"))
        out.append(Case("long-12-" + how, long(12, how, [0.15, 0.25], [1, 5], [3], [6]), bounds="12 values, one of them free, buffers of 1 and 5"))
        out.append(Case("long-30-" + how, long(30, how, [0.1], [6], [5], [13]), bounds="30 values, one of them free, buffers of 6, samples compressed above 5"))
        if big:
            out.append(Case("long-20-" + how, long(20, how, [0.05, 0.1, 0.25], [1, 4, 7], [5], [0, 10, 19]), bounds="20 values, one of them free"))
    for how in ("up", "down", "zigzag", "mixed0", "mixed1"):
        for parts in ([4, 6], [7, 3], [3, 3, 3]) + (([10, 10], [5, 5, 5, 5]) if big else ()):
            out.append(Case("long-merge-%s-%s" % ("-".join(map(str, parts)), how), long_merge(parts, how, [0.1, 0.2, 0.4], [2, 4], [3], [0, parts[0] - 1, sum(parts) - 1] if big else [parts[0] - 1], big or (how, parts[0]) == ("zigzag", 4)),
                            bounds="merged parts of %s values, one of them free" % parts))
    if big:
        out.append(Case("dense-6s", dense(6, [2, 4], [3], [0.001, 0.1, 0.2]), bounds="6 values"))
    out.append(Case("twice", dense(3 if not big else 4, [1, 2, 4], [2, 10], [0.0, 0.1, 0.3], True), bounds="a query between insertions"))
    out.append(Case("order", order(3 if not big else 4), bounds="pairs of quantiles"))
    out.append(Case("guards", guards(), bounds="one value, quantile -3..3"))
    out.append(Case("abnormal", abnormal(False), bounds="3 values and an abnormal one in every position"))
    out.append(Case("abnormal-sparse", abnormal(True), bounds="3 values and an abnormal one, one implicit zero"))
    for n in (0, 1, 2, 3) + ((4,) if big else ()):
        out.append(Case("sparse-%d" % n, sparse(n, [1, 2, 5] if n < 1 else [0, 1, 4], [1, 2, 10] if n else [5], "sym" if n < 3 or big else [0.0, 0.1]),
                        bounds="%d stored values, 0..5 implicit zeros" % n))
    for parts in ([0, 1], [1, 0], [0, 0], [1, 1], [2, 1], [2, 2]) + (([3, 1], [1, 3], [1, 1, 1], [3, 2]) if big else ()):
        out.append(Case("merge-" + "-".join(map(str, parts)), merging(parts, [1, 2, 10], False), bounds="parts of %s values" % parts))
    out.append(Case("merge-order-3-1", merging([3, 1], [2], False, (0.0, 0.4), (2,), True), bounds="parts of 3 and 1 values, compressed, two quantiles"))
    out.append(Case("merge-order-4-1", merging([4, 1], [10], False, (0.3, 0.5), (2,), True), bounds="parts of 4 and 1 values, compressed, two quantiles"))
    out.append(Case("merge-order-1-4", merging([1, 4], [10], False, (0.3, 0.5), (2,), True), bounds="parts of 1 and 4 values, compressed, two quantiles"))
    out.append(Case("merge-sparse", merging([2, 1], [1, 10], True), bounds="sparse parts of 2 and 1 values"))
    return out
