"""C26: configuration and the run workflow."""
from symx.runner import Case
from checks.trees import exact
from checks.boost import Boost, GhostKey, GhostPublic, scalar
from checks.common import table, instance, sep
from checks.c19 import conf, Stub
from checks.c06 import Cipher

DESC = ("The parameter extractor runs on configurations that override every pair of fields (and all fields) with symbolic values; the "
        "boosting models are configured through it, with symbolic settings, and their behaviour is compared with the settings; run() "
        "and the stage dispatch run for every combination of data sets and options over tables with symbolic rows.")

TREE = ["criterion_method", "criterion_params", "max_depth", "min_sample_split", "min_impurity_split", "min_leaf_node", "max_split_nodes",
        "feature_importance_type", "n_iter_no_change", "tol"]
TOP = ["task_type", "learning_rate", "num_trees", "subsample_feature_rate", "n_iter_no_change", "tol", "bin_num"]
NESTED = {"tree_param": TREE, "objective_param": ["objective", "params"], "encrypt_param": ["method", "key_length"],
          "encrypted_mode_calculator_param": ["mode", "re_encrypted_rate"], "predict_param": ["threshold"], "cv_param": ["n_splits", "shuffle", "need_cv"]}
FIELDS = [(f,) for f in TOP] + [(s, f) for s in NESTED for f in NESTED[s]]


def getpath(obj, path):
    for p in path:
        obj = getattr(obj, p)
    return obj


def put(conf, path, v):
    for p in path[:-1]:
        conf = conf.setdefault(p, {})
    conf[path[-1]] = v


def snapshot(h, obj, pre=()):
    """every field at every level"""
    out = {}
    for k, v in vars(obj).items():
        if hasattr(v, "__dict__") and type(v).__module__.startswith("ml."):
            out.update(snapshot(h, v, pre + (k,)))
        else:
            out[pre + (k,)] = v
    return out


def override(which="pairs", extra=False):
    def fn(h):
        h.world()
        P = h.cls("ml.param.boosting_tree_param", "BoostingTreeParam")
        X = h.cls("ml.utils.param_extract", "ParamExtract")
        param = P()
        before = snapshot(h, param)
        fields = sorted(before)
        for f in FIELDS:
            h.check(f in before, "field %s exists" % ".".join(f), "fields")
        if which == "pairs":
            i = h.choose("i", len(fields))
            j = h.choose("j", len(fields))
            h.assume(j <= i)
            chosen = sorted({fields[i], fields[j]})
        elif which == "all":
            chosen = fields
        elif which == "half":
            par = h.choose("parity", 2)
            chosen = [f for n, f in enumerate(fields) if n % 2 == par]
        else:
            chosen = []
        conf, want = {}, {}
        for n, f in enumerate(chosen):
            kind = h.choose("kind%d" % n, 4) if which == "pairs" else n % 4
            v = [h.real("v%d" % n), h.int("w%d" % n), None, "text%d" % n][kind]
            want[f] = v
            put(conf, f, v)
        if extra:
            put(conf, ("no_such_field",), 3)
            put(conf, ("tree_param", "other"), 4)
        section = {"BoostingTreeParam": conf}
        if extra:
            section["OtherParam"] = {"num_trees": 99}
        got = X().parse_param_from_config(param, section)
        after = snapshot(h, got)
        h.check(set(after) == set(before), "no field appears or disappears", "fields")
        for f in after:
            if f in want:
                w = want[f]
                if isinstance(w, str) or w is None:
                    h.check(after[f] == w if w is not None else after[f] is None, "field %s has the configured value" % ".".join(f), "set")
                else:
                    h.check(type(after[f]) is type(w) and after[f] == w, "field %s has the configured value" % ".".join(f), "set")
            else:
                h.check(same(after[f], before[f]), "field %s keeps its default" % ".".join(f), "kept")
    return fn


def same(a, b):
    return type(a) is type(b) and a == b


def rejected(h):
    h.world()
    P = h.cls("ml.param.boosting_tree_param", "BoostingTreeParam")
    X = h.cls("ml.utils.param_extract", "ParamExtract")
    bad = h.pick("bad", [None, [], [("BoostingTreeParam", {})], "BoostingTreeParam", 3, (), 0.5, set(), True])
    h.expect((Exception,), X().parse_param_from_config, P(), bad, key="not-a-dictionary", msg="only dictionaries are accepted")


def absent(h):
    """no section for the model: all defaults"""
    h.world()
    P = h.cls("ml.param.boosting_tree_param", "BoostingTreeParam")
    X = h.cls("ml.utils.param_extract", "ParamExtract")
    p = P()
    before = snapshot(h, p)
    got = X().parse_param_from_config(p, h.pick("conf", [{}, {"Other": {"num_trees": 3}}, {"boostingtreeparam": {"num_trees": 3}}]))
    after = snapshot(h, got)
    h.check(after == before, "defaults are kept", "defaults")


def settings(host=False):
    """the model works with the configured values"""
    def fn(h):
        h.world()
        name = ("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost") if host else \
            ("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")
        other = h.cls(*name)()
        m = h.cls(*name)()
        other._init_runtime_parameters({})
        ref = snapshot(h, h.cls("ml.param.boosting_tree_param", "BoostingTreeParam")())
        lr = h.real("lr", 0.0625, 1)
        rate = h.real("rate", 0, 1)
        tol = h.real("tol", 0, 1)
        thr = h.real("thr", 0, 1)
        ren = h.real("ren", 0, 1)
        nt = h.int("trees", 1, 50)
        bins = h.int("bins", 2, 50)
        depth = h.int("depth", 1, 9)
        ms = h.int("ms", 2, 9)
        leaf = h.int("leaf", 1, 9)
        batch = h.int("batch", 10, 70000)
        mg = h.real("mg", 0.0625, 1)
        ttol = h.real("ttol", 0, 1)
        lam = h.real("lam", 0, 1)
        task, obj, params = h.pick("task", [("classification", "cross_entropy", None), ("regression", "lse", None), ("regression", "huber", [0.5])])
        stop = h.pick("stop", [True, False])
        mode = h.pick("mode", ["strict", "fast", "balance", "confusion_opt"])
        imp = h.pick("imp", ["split", "gain"])
        key = h.pick("key", [1024, 2048])
        m._init_runtime_parameters({"BoostingTreeParam": {
            "task_type": task, "learning_rate": lr, "num_trees": nt, "subsample_feature_rate": rate, "n_iter_no_change": stop, "tol": tol,
            "bin_num": bins, "objective_param": {"objective": obj, "params": params}, "encrypt_param": {"key_length": key},
            "encrypted_mode_calculator_param": {"mode": mode, "re_encrypted_rate": ren}, "predict_param": {"threshold": thr},
            "cv_param": {"n_splits": 7, "shuffle": False, "evaluate_param": {"pos_label": "yes"}},
            "tree_param": {"max_depth": depth, "min_sample_split": ms, "min_leaf_node": leaf, "max_split_nodes": batch,
                           "min_impurity_split": mg, "feature_importance_type": imp, "tol": ttol, "criterion_params": [lam]}}})
        # the attributes the models work with (see C19, C21, C27 for what they do with them)
        for n, w in (("learning_rate", lr), ("num_trees", nt), ("subsample_feature_rate", rate), ("tol", tol), ("bin_num", bins),
                     ("re_encrypted_rate", ren)):
            h.check(getattr(m, n) == w, "the model uses the configured %s" % n, "setting")
        h.check(m.task_type == task and m.n_iter_no_change is stop and m.calculated_mode == mode, "task, early stopping and mode", "setting")
        h.check(m.objective_param.objective == obj and m.objective_param.params == params, "objective", "setting")
        h.check(m.encrypt_param.key_length == key and m.encrypt_param.method == "Paillier", "encryption", "setting")
        h.check(m.predict_param.threshold == thr, "threshold", "setting")
        T = h.cls("ml.tree.hetero_decision_tree_" + ("host" if host else "guest"), "HeteroDecisionTree" + ("Host" if host else "Guest"))
        t = T(m.tree_param)
        for n, w in (("max_depth", depth), ("min_sample_split", ms), ("min_leaf_node", leaf), ("max_split_nodes", batch),
                     ("min_impurity_split", mg)):
            h.check(getattr(t, n) == w, "trees use the configured %s" % n, "tree-setting")
        h.check(t.feature_importance_type == imp, "importance type", "tree-setting")
        for n, w in (("min_impurity_split", mg), ("min_sample_split", ms), ("min_leaf_node", leaf)):
            h.check(getattr(t.splitter, n) == w, "splits use the configured %s" % n, "tree-setting")
        G, H = exact(h, 3), exact(h, 2)
        h.close(t.splitter.node_weight(G, H), -G / (H + lam), "weights use the configured lambda", "tree-setting")
        h.check(m.cv_param.n_splits == 7 and m.cv_param.shuffle is False and m.cv_param.evaluate_param.pos_label == "yes", "cross validation", "setting")
        # a model with no configuration is not affected, before or after
        for q in (other, h.cls(*name)()):
            now = snapshot(h, q.model_param)
            h.check(set(now) == set(ref) and all(same(now[f], ref[f]) for f in ref), "another model keeps its defaults", "shared")
        for n, f in (("learning_rate", "learning_rate"), ("num_trees", "num_trees"), ("tol", "tol"), ("bin_num", "bin_num")):
            h.check(getattr(other, n) == ref[(f,)], "another model keeps its defaults", "shared")
        h.check(other.tree_param.max_depth == ref[("tree_param", "max_depth")] and other.tree_param.criterion_params == ref[("tree_param", "criterion_params")]
                and other.predict_param.threshold == ref[("predict_param", "threshold")], "another model keeps its defaults", "shared")
    return fn


def invalid(h):
    """a setting outside its domain, at any level, does not reach the model"""
    h.world()
    name = ("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost") if h.choose("host", 2) else \
        ("ml.tree.hetero_secureboosting_tree_guest", "HeteroSecureBoostingTreeGuest")
    m = h.cls(*name)()
    trees, bins, rate = h.int("trees", -3, 5), h.int("bins", -3, 5), h.real("rate", -1, 2)
    depth, batch, key = h.int("depth", -3, 5), h.int("batch", -3, 5), h.int("key", -3, 5)
    c = {"num_trees": trees, "bin_num": bins, "subsample_feature_rate": rate, "encrypt_param": {"key_length": key},
         "tree_param": {"max_depth": depth, "max_split_nodes": batch}}
    ok = h.land(trees >= 1, bins >= 2, rate >= 0, rate <= 1, depth >= 1, batch >= 1, key >= 1)
    if h.branch(ok):
        m._init_runtime_parameters({"BoostingTreeParam": c})
        h.check(h.land(m.num_trees == trees, m.bin_num == bins, m.subsample_feature_rate == rate), "accepted settings are used", "setting")
    else:
        h.expect((ValueError,), m.run if h.choose("run", 2) else m._init_runtime_parameters, {"BoostingTreeParam": c},
                 *([{"data": None}] if h.choose("run", 2) else []), key="rejected", msg="a setting outside its domain is rejected")


def behaviour(h):
    """configured through the dictionary and run: rounds, rate and importance show in the result"""
    h.world()
    ks = ["s0", "s1", "s2"]
    sp = [0, 1, 1]
    ys = [1.0, 2.0, 4.0]
    rows = {k: [[2.0 if sp[i] else 1.0], [1.0]] for i, k in enumerate(ks)}
    b = Boost(h, rows, dict(zip(ks, ys)))
    b.models()
    nt = h.pick("trees", [1, 2, 3])
    lr = h.real("lr", 0.0625, 1)
    c = {"BoostingTreeParam": {"task_type": "regression", "objective_param": {"objective": "lse"}, "num_trees": nt, "learning_rate": lr,
                               "n_iter_no_change": False, "subsample_feature_rate": 1.0}}
    for m in [b.guest] + b.hosts:
        m._init_runtime_parameters(c)
    W = [(h.real("l%d" % t, -2, 2), h.real("r%d" % t, -2, 2)) for t in range(nt)]
    st = Stub(h, sp, W, ks)
    tt, ev = b.tables(), b.tables(rows={"s1": rows["s1"]})
    h.mod("ml.loss.regression_loss").LeastSquaredErrorLoss.compute_loss = staticmethod(lambda *a: 1.0)
    withev = h.boolean("eval")
    # the keys of the evaluation table differ from those of the training table
    if withev:
        ev = [table(h, [("e1", v) for _, v in t.collect()], b.headers[p]) for p, t in enumerate(ev)]

    def job(m, p):
        d = {"train_data": tt[p]}
        if withev:
            d["eval_data"] = ev[p]
        return lambda: m.run(c, {"data": {"x": d}})
    fed = b.connect()
    jobs = {"guest": job(b.guest, 0)}
    for k, m in enumerate(b.hosts):
        jobs[k] = job(m, k + 1)
    fed.run(jobs)
    h.check(not fed.left(), "no message is left", "left")
    out = dict(b.guest.save_data().collect())
    want = {"s0": (0, "train"), "s1": (1, "train"), "s2": (2, "train")}
    if withev:
        want["e1"] = (1, "validation")
    h.check(set(out) == set(want), "one row per training and evaluation sample", "rows")
    for k in want:
        i, kind = want[k]
        s = exact(h, 0) + 7.0 / 3
        for t in range(nt):
            s = s + lr * st.out(t, i)
        if k in out:
            h.check(len(out[k]) == 5 and out[k][4] == kind, "the row is marked with its origin", "origin")
            h.check(out[k][0] == ys[i], "the row carries the label", "label")
            h.close(out[k][2], s, "the score with the configured rate and number of trees", "score", tol=1e-6)


def bins(n=7, choices=(2, 3, 5, 50), free=True):
    """the configured number of bins is what both parties' columns are divided into"""
    def fn(h):
        h.world()
        ks = ["s%d" % i for i in range(n)]
        sp = [i % 2 for i in range(n)]
        alone = getattr(h, "alone", False)
        rows = {k: [[2.0 if sp[i] else 1.0, float(3 * i % n)]] + ([] if alone else [[float(5 * i % n) - 2, float(i)]]) for i, k in enumerate(ks)}
        at = h.choose("party", 1 if alone else 2)
        if free:
            rows["s3"][at][1] = h.real("x", -3, 9)
            sep(h, [rows[k][at][1] for k in ks], 2.0 ** -6)
        nb = h.pick("bins", choices)
        c = conf("regression", "lse", 1, 0.5)
        c["bin_num"] = nb
        b = Boost(h, rows, {k: float(i) for i, k in enumerate(ks)}, c)
        b.models()
        Stub(h, sp, [(0.5, -0.5)], ks)
        b.fit()
        P = h.cls("ml.param.feature_binning_param", "FeatureBinningParam")
        Q = h.cls("ml.feature.binning.quantile_binning", "QuantileBinning")
        for p, m in enumerate([b.guest] + b.hosts):
            q = Q(P(bin_num=nb))
            t = b.guest.data_alignment(b.table(p))
            q.fit_split_points(t)
            want = q.convert_feature_to_bin(t)[1]
            got = m.bin_split_points
            h.check(len(got) == len(want), "one list of split points per feature", "bins")
            for g, w in zip(got, want):
                h.check(len(g) == len(w) and len(g) <= nb, "the configured number of bins", "bins")
                for u, v in zip(g, w):
                    h.check(u == v, "the split points of the configured number of bins", "bins")
    return fn


def ciphers(x):
    if type(x) is Cipher:
        return [x]
    if isinstance(x, dict):
        return [c for v in x.values() for c in ciphers(v)]
    if hasattr(x, "collect"):
        return [c for _, v in x.collect() for c in ciphers(v)]
    if isinstance(x, str) or not hasattr(x, "__iter__"):
        return []
    return [c for v in x for c in ciphers(v)]


def encryption(h):
    """the keys have the configured length and the gradients are encrypted in the configured mode"""
    h.world()
    n = 4
    ks = ["s%d" % i for i in range(n)]
    rows = {k: [[float(i)], [float(3 * i % n)]] for i, k in enumerate(ks)}
    rounds = h.pick("rounds", [1, 3])
    key = h.int("key", 8, 8192)
    mode = h.pick("mode", ["strict", "fast", "balance"])
    rate = h.real("rate", 0, 1)
    c = conf("regression", "lse", rounds, 0.5)
    c["encrypt_param"] = {"key_length": key}
    c["encrypted_mode_calculator_param"] = {"mode": mode, "re_encrypted_rate": rate}
    c["tree_param"] = {"max_depth": 1, "min_leaf_node": 1, "min_sample_split": 2}
    E = h.mod("ml.secureprotol.encrypt").PaillierEncrypt
    real = E.generate_key
    b = Boost(h, rows, {k: float(i * i) for i, k in enumerate(ks)}, {})
    E.generate_key = real
    lengths, draws, enc = [], [], []

    def generate(n_length=1024):
        lengths.append(n_length)
        return GhostPublic(), GhostKey()
    h.mod("ml.secureprotol.fate_paillier").PaillierKeypair.generate_keypair = staticmethod(generate)
    ghost = E.encrypt

    def encrypt(self, v):
        out = ghost(self, v)
        enc.append(v)
        out.serial = len(enc)
        return out
    E.encrypt = encrypt

    def draw():
        u = h.real("draw%d" % len(draws), 0, 1)
        h.assume(h.lor(u - rate > 2.0 ** -10, rate - u >= 0))
        draws.append(u)
        return u
    h.hooks["random.random"] = draw
    b.models()
    for m in [b.guest] + b.hosts:
        m._init_runtime_parameters({"BoostingTreeParam": c})
    b.fit()
    h.check(len(lengths) == 1, "one key pair is generated", "key")
    for x in lengths:
        h.check(x == key, "the keys have the configured length", "key")
    again = rounds - 1 if mode == "strict" else 0
    if mode == "balance":
        h.check(len(draws) == rounds - 1, "one decision to re-encrypt per later round", "mode")
        for u in draws:
            if h.branch(u <= rate):
                again += 1
    # what the host received for whole tables of samples: ciphertexts made by encrypting, not by adding to earlier ones
    sent = [c for c in (ciphers(m) for a, to, m in b.fed.log if a == "guest") if len(c) >= 2 * n]
    h.check(len(sent) == rounds, "the gradients are sent once per round", "mode")
    made = {c.serial for cs in sent for c in cs if hasattr(c, "serial")}
    h.check(len(made) == 2 * n * (1 + again), "gradients and hessians are encrypted anew as often as the mode says", "mode")


def objective(h):
    """the trees are trained on the gradients of the configured objective with its parameter"""
    h.world()
    ks = ["s0", "s1", "s2"]
    sp = [0, 1, 1]
    ys = [1.0, 2.0, 4.5]
    alone = getattr(h, "alone", False)
    rows = {k: [[2.0 if sp[i] else 1.0]] + ([] if alone else [[1.0]]) for i, k in enumerate(ks)}
    name, cls = h.pick("objective", [("huber", "HuberLoss"), ("fair", "FairLoss"), ("tweedie", "TweedieLoss"), ("lse", "LeastSquaredErrorLoss"),
                                     ("lae", "LeastAbsoluteErrorLoss"), ("log_cosh", "LogCoshLoss")])
    given = name in ("huber", "fair", "tweedie")
    par = h.real("par", 1.0625, 1.9375) if name != "tweedie" else h.pick("par", [1.25, 1.5])
    params = h.pick("params", [[par], [par, 0.5]]) if given else None
    R = h.mod("ml.loss.regression_loss")
    for x in vars(R).values():
        if isinstance(x, type) and hasattr(x, "compute_loss"):
            x.compute_loss = staticmethod(lambda *a: 1.0)
    b = Boost(h, rows, dict(zip(ks, ys)), conf("regression", name, 2, 0.5, params=params))
    b.models()
    W = [(1.5, -0.75), (0.25, 1.0)]
    st = Stub(h, sp, W, ks)
    b.fit()
    L = getattr(R, cls)
    loss = L(par) if given else L()
    F0 = scalar(b.guest.init_score)
    for t in range(2):
        for i, k in enumerate(ks):
            f = F0 if t == 0 else F0 + 0.5 * st.out(0, i)
            h.close(scalar(st.inputs[t][k][0]), loss.compute_grad(ys[i], f), "the gradient of the objective", "objective-gradient", tol=1e-6)
            h.close(scalar(st.inputs[t][k][1]), loss.compute_hess(ys[i], f), "the hessian of the objective", "objective-hessian", tol=1e-6)


def workflow(nrow=2, predicts=True, hows=("plain", "ovr", "cv")):
    """every combination of data sets and options"""
    def fn(h):
        h.world()
        Base = h.cls("ml.model_base", "ModelBase")
        log = []
        rows = {}

        def mk(name):
            items = [(h.key("%s_k%d" % (name, i), 0, 30), [h.real("%s_v%d" % (name, i))]) for i in range(nrow)]
            rows[name] = items
            for i in range(nrow):
                for j in range(i):
                    h.assume(h.lnot(items[i][0] == items[j][0]))
            t = table(h, items)
            t.schema = {"header": ["c"], "sid_name": "id"}
            t.tag = name
            return t

        class Sub:
            pass

        class Param:
            def __init__(self):
                self.need_run = True
                self.one_vs_rest_param = Sub()
                self.one_vs_rest_param.need_one_vs_rest = False
                self.cv_param = Sub()
                self.cv_param.need_cv = False

            def check(self):
                log.append(("check", None))

        class M(Base):
            def __init__(self):
                super().__init__()
                self.model_param = Param()

            def fit(self, t):
                log.append(("fit", t))
                return t

            def predict(self, t):
                log.append(("predict", t))
                return t.mapValues(lambda v: [v[0], 7]) if predicts else None

            def transform(self, t):
                log.append(("transform", t))
                return t

            def cross_validation(self, t):
                log.append(("cv", t))

            def _load_model(self, d):
                log.append(("load", d))

            def one_vs_rest_fit(self, t):
                log.append(("ovr-fit", t))

            def one_vs_rest_predict(self, t):
                log.append(("ovr-predict", t))
                return t.mapValues(lambda v: [v[0], 7]) if predicts else None

        m = M()
        sets = {}
        has = {}
        for name in ("train_data", "eval_data", "data"):
            has[name] = h.boolean("has_" + name)
        joint = h.boolean("same_set")
        T = {}
        for i, name in enumerate(has):
            if has[name]:
                T[name] = mk(name)
                sets.setdefault("x" if joint else "x%d" % i, {})[name] = T[name]
        h.assume(len(T) > 0)
        allk = [k for name in ("train_data", "eval_data") for k, _ in rows.get(name, [])]
        for i in range(len(allk)):
            for j in range(i):
                h.assume(h.lnot(allk[i] == allk[j]))
        run = h.boolean("need_run")
        what = h.pick("stage", ["fit", "model", "isometric"])
        args = {"data": sets}
        if what == "model":
            args["model"] = {"m": 1}
        if what == "isometric":
            args["isometric_model"] = {"m": 1}
        how = h.pick("how", hows)
        cfg = {"need_run": run}
        if how == "ovr":
            cfg["one_vs_rest_param"] = {"need_one_vs_rest": True}
            h.assume(has["train_data"] or has["eval_data"])
            h.assume(what != "isometric")
        if how == "cv":
            cfg["cv_param"] = {"need_cv": True}
            h.assume(has["train_data"] and what == "fit")
        m.run({"Param": cfg}, args)
        h.check(m.need_run is run, "need_run comes from the configuration", "need-run")
        kinds = [k for k, _ in log]
        h.check((kinds.count("load") == 1) == (what != "fit"), "a given model is loaded", "load")
        calls = [(k, t) for k, t in log if k not in ("check", "load")]
        out = m.save_data()
        if not run:
            h.check(not calls, "a model told not to run does nothing", "passive")
            h.check(out is T.get("data"), "a model told not to run passes its data through", "pass-through")
            return
        def expect(seq):
            h.check(len(calls) == len(seq) and all(a == k and t is w for (a, t), (k, w) in zip(calls, seq)), "the calls " + " ".join(k for k, _ in seq), "calls")

        def outrows(parts):
            if not predicts:
                h.check(out is None, "no output without predictions", "none")
                return
            got = list(out.collect())
            n = sum(len(rows[p]) for p, _ in parts)
            h.check(len(got) == n, "one output row per sample", "rows")
            for p, kind in parts:
                for k, v in rows[p]:
                    hits = [r for kk, r in got if h.branch(kk == k)]
                    h.check(len(hits) == 1, "each sample has its row", "rows")
                    for r in hits:
                        h.check(len(r) == 3 and r[1] == 7 and r[2] == kind, "the row is marked %s" % kind, "origin")
                        h.check(r[0] == v[0], "the row holds the sample's prediction", "value")
            sc = out.schema
            h.check(isinstance(sc, dict) and list(sc.get("header")) == ["label", "predict_result", "predict_score", "predict_detail", "type"],
                    "the output names its columns", "schema")
            h.check(sc.get("sid_name") == "id", "the output keeps the id name", "schema")

        fit, predict = ("ovr-fit", "ovr-predict") if how == "ovr" else ("fit", "predict")
        if how == "cv":
            expect([("cv", T["train_data"])])
        elif has["train_data"]:
            seq = [(fit, T["train_data"]), (predict, T["train_data"])]
            if has["eval_data"]:
                seq.append((predict, T["eval_data"]))
            expect(seq)
            outrows([("train_data", "train")] + ([("eval_data", "validation")] if has["eval_data"] else []))
        elif has["eval_data"]:
            expect([(predict, T["eval_data"])])
            outrows([("eval_data", "test")])
        else:
            expect([("transform" if what == "model" else "fit", T["data"])])
            h.check(out is T["data"], "the output is what the step returned", "step")
    return fn


def nothing(h):
    """no data: only the configuration is read"""
    h.world()
    Base = h.cls("ml.model_base", "ModelBase")
    P = h.cls("ml.param.predict_param", "PredictParam")
    m = Base()
    m.model_param = P()
    t = h.real("t", 0, 1)
    m.run({"PredictParam": {"threshold": t}}, h.pick("args", [{}, {"data": None}]))
    h.check(m.save_data() is None, "no output without data", "none")
    h.check(m.model_param.threshold == t, "the configuration is read", "set")


def cases(tier):
    big = tier == "thorough"
    out = [
        Case("override-all", override("all"), bounds="every field overridden"),
        Case("override-half", override("half", True), bounds="every other field overridden, unknown fields present"),
        Case("override-none", override("none", True), bounds="nothing overridden"),
        Case("override-pairs", override("pairs"), budget=150, bounds="every pair of fields, values real, integer, None or text"),
        Case("rejected", rejected, bounds="9 values that are not dictionaries"),
        Case("absent", absent, bounds="no section"),
        Case("settings-guest", settings(), bounds="any values in the accepted ranges"),
        Case("bins", bins(), bounds="7 samples, 2+2 columns, one value any, 2, 3, 5 or 50 bins"),
        Case("bins-many", bins(67, (32, 40, 64, 65), False), bounds="67 samples, 2+2 columns, 32 to 65 bins"),
        Case("encryption", encryption, min_paths=6, bounds="any key length, 3 modes, any rate and draws, 1 or 3 rounds"),
        Case("objective", objective, bounds="6 objectives, any parameter in (1,2), 2 rounds"),
        Case("settings-host", settings(True), bounds="any values in the accepted ranges"),
        Case("invalid", invalid, bounds="seven settings at once, any integers in [-3,5]; rate in [-1,2]"),
        Case("behaviour", behaviour, bounds="1-3 rounds, any rate, any tree outputs"),
        Case("workflow", workflow(), bounds="every combination of data sets, options and stages; tables of 2 rows"),
        Case("workflow-host", workflow(predicts=False), bounds="the same for a party without predictions"),
        Case("nothing", nothing, bounds="no data"),
    ]
    if big:
        out += [Case("workflow-3", workflow(nrow=3), bounds="tables of 3 rows")]
    return out
