"""C30: the guest and host programs train, predict the held-out rows and report the accuracy."""
import inspect
import io
import os
import re
import sys
from symx.runner import Case
from symx.fed import Fed
from checks.boost import Draws, ghost_paillier
from checks.c23 import Gen, Scratch, write

DESC = ("The guest's and the host's entry points run against each other on real CSV files with symbolic cells; the sockets are replaced "
        "by in-memory channels. In the report cases fit and predict are recorders and the predictions are symbolic, in the whole "
        "cases everything but the sockets and Paillier's arithmetic is real, with the default parameters.")

NUM = re.compile(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


class Fixed(Gen):
    """the generator's shuffle as one of a few permutations, a function of seed and length"""
    def perm(self, n):
        ps = [tuple(range(n)), tuple(list(range(1, n)) + [0]), tuple(reversed(range(n)))]
        p = ps[self.h.choose("perm %s %d" % (self.state, n), len(ps))]
        self.state = "%s/%d" % (self.state, n)
        return p


def programs(h, d, gfile, hfiles, ratio, names, task="CLASSIFICATION", port="10086", entries=None):
    """runs all programs; returns (what the guest printed, how the channels were opened, the federation)"""
    ti = h.mod("federation.transfer_inst")
    fed = Fed(len(hfiles))
    opened = {}
    who = {}

    def stand_in(real, party):
        sig = inspect.signature(real.__init__)

        def make(*a, **k):
            b = sig.bind(None, *a, **k)
            b.apply_defaults()
            p = party()
            opened.setdefault(p, []).append(b.arguments)
            return fed.guest_inst() if p == "guest" else fed.host_inst(p)
        return make
    import threading
    ti.TransferInstGuest = stand_in(ti.TransferInstGuest, lambda: "guest")
    ti.TransferInstHost = stand_in(ti.TransferInstHost, lambda: who[threading.current_thread()])
    Fixed(h, "all").install()
    saved = sys.argv
    out = io.StringIO()

    def guest():
        sys.argv = ["guest.py", gfile, str(len(hfiles)), ratio, task, port]
        m = h.mod("guest")
        Fixed(h, "guest").install()
        getattr(m, entries[0] if entries else "test_hetero_secure_boost_guest")()

    def host(k):
        who[threading.current_thread()] = k
        m = h.mod("host")
        sys.argv = ["host.py", hfiles[k], ratio, port, str(names[k])]
        Fixed(h, "host").install()
        getattr(m, entries[1] if entries else "test_hetero_seucre_boost_host")()
    jobs = {"guest": guest}
    for k in range(len(hfiles)):
        jobs[k] = (lambda k=k: host(k))
    h.mod("guest"), h.mod("host")
    try:
        h.hooks["print"] = lambda *a, **k: print(*a, **dict(k, file=out))
        fed.run(jobs)
    finally:
        h.hooks.pop("print", None)
        sys.argv = saved
    return out.getvalue(), opened, fed


def reported(h, text):
    """the last number of the line about the accuracy"""
    lines = [l for l in text.splitlines() if "accuracy" in l.lower()]
    h.check(len(lines) == 1, "the guest program reports the accuracy once", "reported")
    if not lines:
        return None
    nums = NUM.findall(lines[0])
    h.check(len(nums) >= 1, "the report is a number", "reported-number")
    return float(nums[-1]) if nums else None


def channels(h, opened, nh, port=10086):
    h.check(set(opened) == {"guest"} | set(range(nh)) and all(len(v) == 1 for v in opened.values()), "every party opens one channel", "open")
    for p, v in opened.items():
        h.check(v[0].get("port") == port, "the port given on the command line is used", "open-port")
    g = opened.get("guest")
    if g:
        h.check(g[0].get("conn_num") == nh, "the guest waits for the given number of hosts", "open-count")


def report(sizes, ratios, nh=1):
    def fn(h):
        h.world()
        ghost_paillier(h)
        n = h.pick("size", sizes)
        ratio = h.pick("ratio", ratios)
        labels = [("1", "10", "0")[i % 3] for i in range(n)]
        off = int(n * float(ratio))
        calls = []
        rows = []
        G = h.cls("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")
        H = h.cls("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost")

        def gfit(self, data_instances=None, *a, **k):
            calls.append(("guest", "fit", self, data_instances))

        def gpredict(self, data_instances=None, *a, **k):
            calls.append(("guest", "predict", self, data_instances))
            out = []
            for i, (key, inst) in enumerate(sorted(data_instances.collect())):
                right = h.branch(h.real("p%d" % i, -1, 1) > 0)
                rows.append(right)
                other = {"1": "10", "10": "1"}.get(inst.label, "10")
                out.append((key, [inst.label, inst.label if right else other, [0.5, 0.0, 1.0][i % 3], {"0": 0.5, "1": 0.5}]))
            D = h.cls("computing.d_table", "DTable")
            return D(True, out)

        def hfit(self, data_instances=None, *a, **k):
            calls.append((self.runtime_idx, "fit", self, data_instances))

        def hpredict(self, data_instances=None, *a, **k):
            calls.append((self.runtime_idx, "predict", self, data_instances))
        G.fit, G.predict, H.fit, H.predict = gfit, gpredict, hfit, hpredict
        names = [4, 1, 7][:nh]
        with Scratch() as d:
            gp = write(h, d, "g.csv", ["id", "y", "x0"], [["r%d" % i, labels[i], h.real("x%d" % i, -9, 9)] for i in range(n)], True)
            hp = [write(h, d, "h%d.csv" % k, ["id", "z%d" % k], [["r%d" % i, h.real("z%d_%d" % (k, i), -9, 9)] for i in range(n)], True) for k in range(nh)]
            text, opened, fed = programs(h, d, gp, hp, ratio, names)
        channels(h, opened, nh)
        for p in ["guest"] + names:
            mine = [c for c in calls if c[0] == p]
            h.check([c[1] for c in mine] == ["fit", "predict"], "every program trains once and then predicts once", "calls")
            if len(mine) != 2:
                return
            h.check(mine[0][2] is mine[1][2], "the trained model predicts", "same-model")
            a, b = [sorted(i.inst_id for _, i in c[3].collect()) for c in mine]
            h.check(len(a) == off and sorted(a + b) == sorted("r%d" % i for i in range(n)), "trained on the first part, predicted the rest", "parts")
        acc = reported(h, text)
        if acc is not None:
            h.check(abs(acc - sum(rows) / len(rows)) < 1e-6, "the reported accuracy is the share of right predictions", "accuracy")
    return fn


def whole(n, ratio, gcols=1, hcols=(1,), free=(), labels=None):
    """free: (party, row, column) of the cells with any value"""
    def fn(h):
        h.world()
        ghost_paillier(h)
        Draws(h)
        lab = labels or ["0", "1"] * n

        def cell(p, i, f):
            return h.real("x%d_%d_%d" % (p, i, f), -4, 4) if (p, i, f) in free else float((3 * i + 2 * p + f) % 5) - 1.5
        seen = {}
        G = h.cls("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")
        real = G.predict

        def predict(self, *a, **k):
            seen["rows"] = real(self, *a, **k)
            seen["model"] = self
            return seen["rows"]
        G.predict = predict
        H = h.cls("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost")
        names = [3, 1, 2][:len(hcols)]
        hmodels = {}
        rfit = H.fit

        def hfit(self, *a, **k):
            hmodels[self.runtime_idx] = self
            return rfit(self, *a, **k)
        H.fit = hfit
        with Scratch() as d:
            gp = write(h, d, "g.csv", ["id", "y"] + ["x%d" % f for f in range(gcols)],
                       [["r%d" % i, lab[i]] + [cell(0, i, f) for f in range(gcols)] for i in range(n)], True)
            hp = [write(h, d, "h%d.csv" % k, ["id"] + ["z%d_%d" % (k, f) for f in range(c)],
                        [["r%d" % i] + [cell(k + 1, i, f) for f in range(c)] for i in range(n)], True) for k, c in enumerate(hcols)]
            text, opened, fed = programs(h, d, gp, hp, ratio, names)
        h.check(not fed.left(), "no message is left over", "left")
        channels(h, opened, len(hcols))
        rows = dict(seen["rows"].collect())
        off = int(n * float(ratio))
        h.check(len(rows) == n - off, "one prediction per held-out row", "rows")
        for k in names:
            h.check(k in hmodels and len(hmodels[k].trees_) == len(seen["model"].trees_), "all parties build the same trees", "trees")
        acc = reported(h, text)
        if acc is not None and rows:
            right = sum(1 for r in rows.values() if r[0] == r[1])
            h.check(abs(acc - right / len(rows)) < 1e-6, "the reported accuracy is the share of right predictions", "accuracy")
            h.check(all(r[1] in lab for r in rows.values()), "the predicted labels are labels of the file", "labels")
    return fn


def fixed_files(n):
    """the entry points that train on the whole of the files that come with the repository"""
    def fn(h):
        h.world()
        ghost_paillier(h)
        calls = []
        G = h.cls("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")
        H = h.cls("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost")

        def gfit(self, data_instances=None, *a, **k):
            calls.append(("guest", data_instances, self.transfer_inst.fed))
            self.transfer_inst.send_data_to_hosts("x", -1)

        def hfit(self, data_instances=None, *a, **k):
            calls.append(("host", data_instances, self.transfer_inst.fed))
            h.check(self.transfer_inst.recv_data_from_guest() == "x", "guest and host are connected", "connected")
        G.fit, H.fit = gfit, hfit
        xs = [h.reals("x%d_" % i, 2, -9, 9) for i in range(n)]
        zs = [h.reals("z%d_" % i, 2, -9, 9) for i in range(n)]
        here = os.getcwd()
        with Scratch() as d:
            dd = os.path.join(d, "data", "breast_hetero")
            os.makedirs(dd)
            write(h, dd, "breast_hetero_guest.csv", ["id", "y", "x0", "x1"], [["r%d" % i, str(i % 2)] + xs[i] for i in range(n)], True)
            write(h, dd, "breast_hetero_host.csv", ["id", "z0", "z1"], [["r%d" % i] + zs[i] for i in range(n)], True)
            try:
                os.chdir(d)
                _, opened, fed = programs(h, d, None, [None], "1", [0], entries=("heteto_sbt_guest", "heteto_sbt_host"))
            finally:
                os.chdir(here)
        h.check(sorted(c[0] for c in calls) == ["guest", "host"], "both train once", "calls")
        ports = [v[0].get("port") for v in opened.values()]
        h.check(len(set(ports)) == 1, "both use the same port", "open-port")
        h.check(opened["guest"][0].get("conn_num") == 1, "the guest waits for one host", "open-count")
        for p, t, _ in calls:
            got = dict(t.collect())
            h.check(sorted(got) == list(range(n)), "all rows", "rows")
            for i, inst in got.items():
                h.check(inst.inst_id == "r%d" % i, "the row's id", "id")
                for a, b in zip(inst.features, xs[i] if p == "guest" else zs[i]):
                    h.close(a, b, "the row's features", "value")
                if p == "guest":
                    h.check(inst.label == str(i % 2), "the row's label", "label")
            h.check(list(t.schema["header"]) == (["x0", "x1"] if p == "guest" else ["z0", "z1"]), "the header", "header")
    return fn


def task(names):
    """a task the program does not know"""
    def fn(h):
        h.world()
        ghost_paillier(h)
        t = h.pick("task", names)
        with Scratch() as d:
            gp = write(h, d, "g.csv", ["id", "y", "x"], [["r%d" % i, str(i % 2), h.real("x%d" % i, -1, 1)] for i in range(3)], True)
            try:
                programs(h, d, gp, [], "0.5", [], task=t)
                ok = True
            except ValueError:
                ok = False
        h.check(not ok, "an unknown task is rejected with ValueError", "task")
    return fn


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("report", report([2, 4], ["0.5", "0.3"]), bounds="2 and 4 rows, any predictions right or wrong"),
        Case("report-hosts", report([5], ["0.5"], nh=3), bounds="5 rows, 3 hosts"),
        Case("whole", whole(5, "0.6", free=[(0, 1, 0)]), bounds="5 rows, guest+1 host, default parameters, one cell any, 3 shuffles"),
        Case("whole-host", whole(5, "0.6", hcols=(1, 1), free=[(2, 2, 0)]), bounds="5 rows, guest+2 hosts, one cell of a host any"),
        Case("whole-multi", whole(5, "0.8", free=[(1, 2, 0)], labels=["2", "0", "1", "0", "2"]), bounds="3 classes"),
        Case("fixed-files", fixed_files(3), bounds="3 rows of any values"),
        Case("task", task(["REGRESSION", "classification", "x", ""]), bounds="four names"),
    ]
    if big:
        out += [Case("report-8", report([9, 12], ["0.5", "0.8"], nh=2), bounds="9 and 12 rows"),
                Case("whole-2", whole(6, "0.7", free=[(0, 1, 0), (1, 2, 0)]), bounds="6 rows, two cells any")]
    return out
