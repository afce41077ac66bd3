"""C23: CSV loading and the train/test split."""
import os
import shutil
import sys
import tempfile
from fractions import Fraction
from itertools import permutations
from symx.runner import Case
from checks.common import array

DESC = ("The real CSV readers parse real files whose numeric fields stand for symbolic values; data_split runs with a symbolic "
        "ratio and an arbitrary permutation per (seed, length) in place of the generator's; the guest's and the host's entry "
        "points run on files with the same ids, with model and transport replaced by recorders.")


def write(h, d, name, header, rows, newline):
    """rows: list of lists of str or symbolic numbers"""
    toks = h.hooks.setdefault("floatstr", {}) if h.symbolic else {}
    lines = [",".join(header)]
    for r in rows:
        out = []
        for v in r:
            if isinstance(v, str):
                out.append(v)
            elif h.symbolic:
                t = "%d.5" % (7700000 + len(toks))
                toks[t] = v
                out.append(t)
            else:
                out.append(repr(float(v)))
        lines.append(",".join(out))
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("\n".join(lines) + ("\n" if newline else ""))
    return p


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vcsv")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


IDS = ["7", "a3", "0", "12", " u 1", "007", "b", "1e3", "x y ", "10", "11", "9"]
LABELS = ["1", "0", "-1", "2", "0", "1", "1", "0", "2", "0", "1", "3"]


def reader(labelled, maxrows, maxcols, sizes=None, wide=None):
    def fn(h):
        h.world()
        m = h.mod("i_o.utils")
        n = h.pick("size", sizes) if sizes else h.choose("rows", maxrows + 1)
        k = wide or 1 + h.choose("cols", maxcols)
        nl = h.choose("newline", 2)
        vals = [h.reals("v%d_" % i, k, -1000, 1000) for i in range(n)]
        header = (["id", "y"] if labelled else ["id"]) + ["x%d" % (k - j) for j in range(k)]
        rows = [[IDS[i]] + ([LABELS[i]] if labelled else []) + vals[i] for i in range(n)]
        with Scratch() as d:
            p = write(h, d, "t.csv", header, rows, nl)
            got = (m.read_from_csv_with_lable if labelled else m.read_from_csv_with_no_lable)(p)
        h.check(len(got) == (4 if labelled else 3), "header, ids, features and labels", "shape")
        hd, ids, feats = got[0], got[1], got[2]
        h.check(list(hd) == ["x%d" % (k - j) for j in range(k)], "the header without id and label", "header")
        h.check(list(ids) == IDS[:n], "the ids in file order", "ids")
        h.check(len(feats) == n, "one row per line", "rows")
        for i in range(n):
            h.check(len(feats[i]) == k, "every feature of the row", "rows")
            for j in range(k):
                h.close(feats[i][j], vals[i][j], "the value of the field", "value")
        if labelled:
            h.check(list(got[3]) == LABELS[:n], "the labels in file order", "labels")
    return fn


class Gen:
    """random.seed / random.shuffle / random.sample as an arbitrary function of the seed and the length"""
    def __init__(self, h, party):
        self.h = h
        self.state = "boot-%s" % party

    def seed(self, s=None, version=2):
        self.state = "seed-%r" % (s,) if s is not None else "boot-%s-again" % self.state

    def perm(self, n):
        if n <= 3:
            ps = list(permutations(range(n)))
        else:
            ps = [tuple(range(n)), tuple(reversed(range(n))), tuple(list(range(1, n)) + [0]), tuple([n - 1] + list(range(n - 1))),
                  tuple([1, 0] + list(range(2, n)))]
        p = ps[self.h.choose("perm %s %d" % (self.state, n), len(ps))]
        self.state = "%s/%d" % (self.state, n)
        return p

    def shuffle(self, x, random=None):
        p = self.perm(len(x))
        y = list(x)
        for i, j in enumerate(p):
            x[i] = y[j]

    def sample(self, population, k, **kw):
        p = self.perm(len(population))
        return [population[j] for j in p[:k]]

    def Random(self, s=None):
        g = Gen(self.h, "obj")
        g.seed(s)
        return g

    def install(self):
        for n in ("seed", "shuffle", "sample", "Random"):
            self.h.hooks["random." + n] = getattr(self, n)


def split(maxn, shuffle, sizes=None):
    def fn(h):
        h.world()
        n = h.pick("size", sizes) if sizes else h.choose("n", maxn + 1)
        ratio = h.real("ratio", 0, 1)
        seed = h.pick("seed", [2, None]) if shuffle else None
        off = h.value(h.int("offset", 0, n))
        q = ratio * n
        h.assume(h.land(q >= off, q < off + 1))
        h.assume(h.lor(q == off, q >= off + 1e-6))
        h.assume(q <= off + 1 - 1e-6)
        res = {}
        for party in ("guest", "host"):
            Gen(h, party).install()
            m = h.mod(party)
            rows = ["row%d" % i for i in range(n)]
            a, b = m.data_split(list(rows), ratio, shuffle, seed)
            a, b = list(a), list(b)
            h.check(sorted(a + b) == sorted(rows), "every row is in exactly one part", "partition")
            if h.symbolic or abs(q - round(q)) > 1e-7 or float(Fraction(ratio) * n) == q:
                h.check(len(a) == off, "the first part has floor(n*ratio) rows", "size")
            if not shuffle and len(a) == off:
                h.check(a + b == rows, "without shuffling the order is kept", "order")
            res[party] = (a, b)
        if not shuffle or seed is not None:
            h.check(res["guest"] == res["host"], "guest and host make the same choice", "aligned")
    return fn


class Stop(Exception):
    pass


def entry(maxn, sizes=None):
    """the scripts' entry points, up to the calls of fit and predict"""
    def fn(h):
        h.world()
        n = h.pick("size", sizes) if sizes else 2 + h.choose("n", maxn - 1)
        ratio = h.pick("ratio", ["0.5", "0.8", "0.1", "1"])
        gv = [h.reals("g%d_" % i, 2, -10, 10) for i in range(n)]
        hv = [h.reals("h%d_" % i, 2, -10, 10) for i in range(n)]
        calls = {}
        ti = h.mod("federation.transfer_inst")

        class Transport:
            def __init__(self, *a, **k):
                calls.setdefault("transport", []).append((a, k))
        ti.TransferInstGuest = Transport
        ti.TransferInstHost = Transport
        G = h.cls("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")
        H = h.cls("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost")

        def record(party):
            def fit(self, data_instances=None, *a, **k):
                calls[party, "fit"] = data_instances

            def predict(self, data_instances=None, *a, **k):
                calls[party, "predict"] = data_instances
                return data_instances.mapValues(lambda inst: [inst.label, inst.label, 1, {}])
            return fit, predict
        G.fit, G.predict = record("guest")
        H.fit, H.predict = record("host")
        saved = sys.argv
        with Scratch() as d:
            gp = write(h, d, "g.csv", ["id", "y", "x0", "x1"], [[IDS[i], LABELS[i]] + gv[i] for i in range(n)], True)
            hp = write(h, d, "h.csv", ["id", "z0", "z1"], [[IDS[i]] + hv[i] for i in range(n)], True)
            try:
                Gen(h, "guest").install()
                sys.argv = ["guest.py", gp, "1", ratio, "CLASSIFICATION", "10086"]
                try:
                    h.mod("guest").test_hetero_secure_boost_guest()
                except (ZeroDivisionError, TypeError):
                    if float(ratio) < 1:       # accuracy of an empty test part
                        raise
                Gen(h, "host").install()
                sys.argv = ["host.py", hp, ratio, "10086", "0"]
                h.mod("host").test_hetero_seucre_boost_host()
            finally:
                sys.argv = saved
        off = int(n * float(ratio))
        for step, count in (("fit", off), ("predict", n - off)):
            g, k = calls.get(("guest", step)), calls.get(("host", step))
            h.check(g is not None and k is not None, "both parties train and predict", "called")
            if g is None or k is None:
                return
            g, k = dict(g.collect()), dict(k.collect())
            h.check(len(g) == count and len(k) == count, "the part has floor(n*ratio) rows", "size")
            h.check({x: i.inst_id for x, i in g.items()} == {x: i.inst_id for x, i in k.items()},
                    "the same row has the same key at both parties", "aligned")
            for x, i in g.items():
                r = IDS.index(i.inst_id)
                h.check(i.label == LABELS[r], "the label of the row", "label")
                for j in range(2):
                    h.close(i.features[j], gv[r][j], "the features of the row", "value")
            for x, i in k.items():
                r = IDS.index(i.inst_id)
                for j in range(2):
                    h.close(i.features[j], hv[r][j], "the features of the row", "value")
        ids = [i.inst_id for s in ("fit", "predict") for _, i in calls["guest", s].collect()]
        h.check(sorted(ids) == sorted(IDS[:n]), "every row is used once", "partition")
        for s in ("fit", "predict"):
            h.check(list(calls["guest", s].schema["header"]) == ["x0", "x1"], "the header", "header")
            h.check(list(calls["host", s].schema["header"]) == ["z0", "z1"], "the header", "header")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("labelled", reader(True, 3, 3), bounds="up to 3 rows and 3 features"),
        Case("unlabelled", reader(False, 3, 3), bounds="up to 3 rows and 3 features"),
        Case("split", split(6, False), bounds="up to 6 rows, any ratio in [0,1]"),
        Case("split-shuffled", split(4, True), bounds="up to 4 rows, any ratio, any permutation (5 of them for 4 rows)"),
        Case("labelled-12", reader(True, 0, 2, (5, 12)), bounds="5 and 12 rows, up to 2 features"),
        Case("unlabelled-12", reader(False, 0, 2, (5, 12)), bounds="5 and 12 rows, up to 2 features"),
        Case("wide", reader(True, 2, 0, wide=12), bounds="up to 2 rows, 12 features"),
        Case("wide-unlabelled", reader(False, 2, 0, wide=11), bounds="up to 2 rows, 11 features"),
        Case("split-shuffled-12", split(0, True, (9, 12)), bounds="9 and 12 rows, any ratio, 5 permutations"),
        Case("entry-12", entry(0, (11,)), bounds="11 rows, four ratios, 5 permutations"),
        Case("entry", entry(4), bounds="2 to 4 rows, four ratios"),
    ]
    if big:
        out += [Case("labelled-4", reader(True, 4, 5), bounds="up to 4 rows and 5 features"),
                Case("split-12", split(12, False), bounds="up to 12 rows"),
                Case("split-shuffled-8", split(8, True), bounds="up to 8 rows")]
    return out
