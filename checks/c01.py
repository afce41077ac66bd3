"""C01: DTable against a plain keyed mapping; keys symbolic (all equality patterns), values and callbacks free terms."""
from symx.runner import Case

DESC = ("DTable is executed with symbolic keys and values; callbacks build free terms, so the comparison covers every "
        "callback; the oracle is a list of pairs.")


def sameterm(h, a, b):
    """structural equality of free terms, without forking"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return h.land(*[sameterm(h, x, y) for x, y in zip(a, b)])
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
        return type(a) is type(b) and a == b
    return h.eq(a, b)


def f2(a, b):
    return ("f", a, b)


POOL = [None, 0, "", False, (), "x"]
KEYS = [None, 0, "", (1, 2), "a", 1.5]


def pairs(h, p, n, distinct=True):
    if h.hooks.get("odd"):
        # values and keys that are easily mistaken for "nothing there"
        r = h.choose("%srot" % p, len(POOL))
        ks = [KEYS[(i + (0 if p == "a" else 1)) % len(KEYS)] for i in range(n)]
        if not distinct and n > 1 and h.choose("%sdup" % p, 2):
            ks[-1] = ks[0]
        return [(k, POOL[(i + r) % len(POOL)]) for i, k in enumerate(ks)]
    if h.hooks.get("many"):
        # a longer table: one key is any integer, the others are given (every other one of b also in a)
        ks = [h.key("%sc%d" % (p, i), *[(7 * i) % 64 if p == "a" else (14 * i) % 101] * 2) for i in range(n)]
        ks[n // 2] = h.key("%sk" % p, -5, 105)
    else:
        ks = [h.key("%sk%d" % (p, i), -50, 50) for i in range(n)]
    if distinct:
        for i in range(n):
            for j in range(i):
                h.assume(h.lnot(h.eq(ks[i], ks[j])))
    return [(k, h.int("%sv%d" % (p, i), -9, 9)) for i, k in enumerate(ks)]


def table(h, ps):
    return h.cls("computing.d_table", "DTable")(True, list(ps))


def odd(fn):
    def g(h):
        h.hooks["odd"] = True
        fn(h)
    return g


def many(fn):
    def g(h):
        h.hooks["many"] = True
        fn(h)
    return g


def kvs(t):
    return list(t.collect())


def same_ordered(h, got, want, msg):
    got = list(got)
    if len(got) != len(want):
        return h.check(False, msg + ": %d entries instead of %d" % (len(got), len(want)), "size")
    ok = []
    for x, y in zip(got, want):
        ok.append(isinstance(x, tuple) and len(x) == 2 and sameterm(h, tuple(x), tuple(y)))
    h.check(h.land(*ok), msg + ": wrong entries", "entries")


def same_map(h, got, want, msg):
    got = list(got)
    if len(got) != len(want):
        return h.check(False, msg + ": %d entries instead of %d" % (len(got), len(want)), "size")
    for k, v in want:
        h.check(h.lor(*[h.land(h.eq(k, gk), sameterm(h, gv, v)) for gk, gv in got]), msg + ": an entry is wrong", "entries")


def lookup(h, k, ps):
    """value under k in ps (forks on the key equalities)"""
    for kk, v in ps:
        if h.branch(h.eq(k, kk)):
            return (v,)
    return None


def m_join(h, A, B, f):
    out = []
    for k, v in A:
        w = lookup(h, k, B)
        if w:
            out.append((k, f(v, w[0])))
    return out


def m_union(h, A, B, f):
    out = []
    for k, v in A:
        w = lookup(h, k, B)
        out.append((k, f(v, w[0]) if w else v))
    for k, v in B:
        if not lookup(h, k, A):
            out.append((k, v))
    return out


def m_sub(h, A, B):
    return [(k, v) for k, v in A if not lookup(h, k, B)]


def construct(n):
    def fn(h):
        h.world()
        DT = h.cls("computing.d_table", "DTable")
        ps = pairs(h, "a", n, distinct=False)
        dup = False
        for i in range(n):
            for j in range(i):
                if h.branch(h.eq(ps[i][0], ps[j][0])):
                    dup = True
        try:
            t = DT(True, list(ps))
        except ValueError:
            h.check(dup, "distinct keys were refused", "refused")
        else:
            h.check(not dup, "duplicate keys were accepted", "dup")
            if not dup:
                same_ordered(h, kvs(t), ps, "constructed table")
                same_ordered(h, t.get_kvs(), ps, "get_kvs")
                h.check(t.count() == n, "count", "count")
        vals = [v for k, v in ps]
        t = DT(False, list(vals))
        same_ordered(h, kvs(t), list(enumerate(vals)), "table without keys")
        h.check(DT(True).count() == 0 and DT(False, None).count() == 0, "a table without data is empty", "empty")
    return fn


def malformed(h):
    h.world()
    DT = h.cls("computing.d_table", "DTable")
    k, v = h.key("k", 0, 9), h.int("v", 0, 9)
    bad = h.pick("bad", [(k, v, v), [k, v], k, None, "ab", (k,), (), {"a": 1, "b": 2}])
    pos = h.choose("pos", 3)
    items = [(100, 1), (200, 2)]
    items.insert(pos, bad)
    h.expect((TypeError,), DT, True, items, key="malformed", msg="a malformed item was accepted")
    inc = h.pick("inc", [1, 0, None, "yes", 1.0])
    h.expect((TypeError,), DT, inc, [(k, v)], key="include_key", msg="a non-bool include_key was accepted")
    data = h.pick("data", [{k: v}, ((k, v),), "abc", 5])
    h.expect((TypeError,), DT, True, data, key="data", msg="data that is not a list was accepted")


def unary(n):
    def fn(h):
        h.world()
        ps = pairs(h, "a", n)
        t = table(h, ps)
        op = h.pick("op", ["take", "first", "map", "mapValues", "filter", "reduce", "mapPartitions", "views"])
        if op == "take":
            m = h.choose("m", n + 2)
            same_ordered(h, t.take(m), ps[:m], "take(%d)" % m)
            same_ordered(h, t.take(), ps[:1], "take()")
        elif op == "first":
            r = t.first()
            h.check(r is None if n == 0 else sameterm(h, r, ps[0][1]), "first", "first")
        elif op == "map":
            same_ordered(h, kvs(t.map(lambda k, v: ("m", k, v))), [(k, ("m", k, v)) for k, v in ps], "map")
        elif op == "mapValues":
            same_ordered(h, kvs(t.mapValues(lambda v: ("m", v))), [(k, ("m", v)) for k, v in ps], "mapValues")
        elif op == "filter":
            keep = {i: h.boolean("keep%d" % i) if not h.hooks.get("many") or i == n - 2 else i % 3 != 1 for i in range(n)}
            calls = []

            def pred(k, v):
                i = len(calls)
                calls.append((k, v))
                return keep[i] if i in keep else False
            r = kvs(t.filter(pred))
            same_ordered(h, calls, ps, "arguments of the filter predicate")
            want = [p for i, p in enumerate(ps) if h.branch(keep[i])]
            same_ordered(h, r, want, "filter")
        elif op == "reduce":
            r = t.reduce(f2)
            if n == 0:
                h.check(r is None, "reduce of an empty table", "reduce")
            else:
                if not h.hooks.get("odd"):
                    h.check(len(flat(r)) == n, "reduce folds every value once", "reduce")
                w = ps[0][1]
                for k, v in ps[1:]:
                    w = f2(w, v)
                h.check(sameterm(h, r, w), "reduce folds the values in order", "reduce")
        elif op == "mapPartitions":
            r = t.mapPartitions(lambda it: [("p", k, v) for k, v in it])
            same_ordered(h, kvs(r), list(enumerate([("p", k, v) for k, v in ps])), "mapPartitions")
        else:
            ks, vs = list(t.get_keys()), list(t.get_values())
            h.check(len(ks) == n and len(vs) == n and t.count() == n, "sizes of the views", "views")
            h.check(h.land(*[h.eq(a, b[0]) for a, b in zip(ks, ps)]), "get_keys", "views")
            h.check(h.land(*[sameterm(h, a, b[1]) for a, b in zip(vs, ps)]), "get_values", "views")
        same_ordered(h, kvs(t), ps, "operand after " + op)
    return fn


def flat(t):
    if isinstance(t, tuple):
        return flat(t[1]) + flat(t[2])
    return [t]


def map_reduce(n):
    def fn(h):
        h.world()
        ps = pairs(h, "a", n)
        if h.hooks.get("odd"):
            nk = [h.pick("n%d" % i, KEYS[:3]) for i in range(n)]
        elif h.hooks.get("many"):
            nk = [h.key("nc%d" % i, i % 5, i % 5) for i in range(n)]
            nk[n // 2] = h.key("n", -1, 5)
        else:
            nk = [h.key("n%d" % i, -50, 50) for i in range(n)]
        t = table(h, ps)
        em = (lambda k, v: v) if h.hooks.get("odd") else (lambda k, v: ("m", k, v))
        r = kvs(t.mapReducePartitions(lambda it: [(nk[i], em(k, v)) for i, (k, v) in enumerate(it)], f2))
        want = []
        for i, (k, v) in enumerate(ps):
            for j, (kk, vv) in enumerate(want):
                if h.branch(h.eq(kk, nk[i])):
                    want[j] = (kk, f2(vv, em(k, v)))
                    break
            else:
                want.append((nk[i], em(k, v)))
        same_map(h, r, want, "mapReducePartitions")
        same_ordered(h, kvs(t), ps, "operand after mapReducePartitions")
    return fn


def binary(n, m):
    def fn(h):
        h.world()
        A, B = pairs(h, "a", n), pairs(h, "b", m)
        ta, tb = table(h, A), table(h, B)
        op = h.pick("op", ["join", "join0", "union", "union0", "sub"])
        first = lambda a, b: a
        if op == "join":
            same_map(h, kvs(ta.join(tb, f2)), m_join(h, A, B, f2), op)
        elif op == "join0":
            same_map(h, kvs(ta.join(tb)), m_join(h, A, B, first), op)
        elif op == "union":
            same_map(h, kvs(ta.union(tb, f2)), m_union(h, A, B, f2), op)
        elif op == "union0":
            same_map(h, kvs(ta.union(tb)), m_union(h, A, B, first), op)
        else:
            same_ordered(h, kvs(ta.subtractByKey(tb)), m_sub(h, A, B), op)
        same_ordered(h, kvs(ta), A, "left operand after " + op)
        same_ordered(h, kvs(tb), B, "right operand after " + op)
    return fn


def history(n, m, steps, course=None):
    """a table goes through several operations; every intermediate table stays as it was"""
    def fn(h):
        h.world()
        A, B = pairs(h, "a", n), pairs(h, "b", m)
        tabs = [(table(h, A), A), (table(h, B), B)]
        cur, cm = tabs[0]
        other, om = tabs[1]
        begin = h.choose("begin", len(course)) if course else 0
        for s in range(steps):
            op = course[(begin + s) % len(course)] if course else h.pick("op%d" % s, ["join", "union", "sub", "filter", "map", "swap"])
            if op == "join":
                cur, cm = cur.join(other, f2), m_join(h, cm, om, f2)
            elif op == "union":
                cur, cm = cur.union(other, f2), m_union(h, cm, om, f2)
            elif op == "sub":
                cur, cm = cur.subtractByKey(other), m_sub(h, cm, om)
            elif op == "filter":
                lim = h.int("lim%d" % s, -50, 50)
                cur, cm = cur.filter(lambda k, v: k >= lim), [p for p in cm if h.branch(p[0] >= lim)]
            elif op == "map":
                cur, cm = cur.map(lambda k, v: ("m", k, v)), [(k, ("m", k, v)) for k, v in cm]
            else:
                cur, cm, other, om = other, om, cur, cm
            same_map(h, kvs(cur), cm, "result of step %d (%s)" % (s, op))
            h.check(cur.count() == len(cm), "count after step %d" % s, "count")
            tabs.append((cur, None))
            tabs[-1] = (cur, kvs(cur))
        for t, ps in tabs:
            same_ordered(h, kvs(t), ps, "table after later operations")
    return fn


def cases(tier):
    big = tier == "thorough"
    N = 4 if big else 3
    out = [Case("malformed", malformed, bounds="8 malformed items at 3 positions")]
    for n in range(0, N + 1):
        out.append(Case("construct-%d" % n, construct(n), bounds="%d pairs, every equality pattern of keys" % n))
        out.append(Case("unary-%d" % n, unary(n), bounds="%d pairs" % n))
        out.append(Case("mapreduce-%d" % n, map_reduce(n), bounds="%d pairs, every equality pattern of emitted keys" % n))
    for n in range(0, N + 1):
        for m in range(0, N + 1):
            out.append(Case("binary-%d-%d" % (n, m), binary(n, m), bounds="%d and %d pairs, every key overlap" % (n, m)))
    for n, m in ((2, 3), (3, 3)) if not big else ((2, 3), (3, 3), (4, 5), (5, 4)):
        out.append(Case("odd-binary-%d-%d" % (n, m), odd(binary(n, m)), bounds="%d and %d pairs, empty-like keys and values" % (n, m)))
    for n in (1, 2, 3) if not big else (1, 2, 3, 4, 5):
        out.append(Case("odd-unary-%d" % n, odd(unary(n)), bounds="%d pairs, empty-like keys and values" % n))
        out.append(Case("odd-construct-%d" % n, odd(construct(n)), bounds="%d pairs, empty-like keys and values" % n))
        out.append(Case("odd-mapreduce-%d" % n, odd(map_reduce(n)), bounds="%d pairs, empty-like keys and values" % n))
    for n in (9, 17) if not big else (9, 17, 33):
        b = "%d pairs, one key any integer" % n
        out.append(Case("many-unary-%d" % n, many(unary(n)), bounds=b + ", one filter decision any"))
        out.append(Case("many-construct-%d" % n, many(construct(n)), bounds=b))
        out.append(Case("many-mapreduce-%d" % n, many(map_reduce(n)), bounds=b + ", 5 groups"))
        out.append(Case("many-binary-%d" % n, many(binary(n, n - 3)), bounds="%d and %d pairs, one key of each any integer" % (n, n - 3)))
    out.append(Case("history-long", many(history(5, 4, 6, ["join", "sub", "map", "union", "swap", "union", "filter"])),
                    bounds="tables of 5 and 4 rows, a fixed course of 6 operations, starting anywhere in it"))
    out.append(Case("history", history(2, 2, 3 if big else 2), bounds="two 2-row tables, %d operations" % (3 if big else 2)))
    return out
