"""C22: parameter checks."""
import copy
from symx.runner import Case

DESC = ("Each parameter object's real check runs on symbolic numbers of either type, every kind of wrongly typed value and the "
        "accepted names in any case, for every pair of fields; it has to accept exactly the documented domain, raise only "
        "ValueError, normalise names and alter nothing else.")
P = "ml.param."


def values(h, tag, names, lists=False):
    """(kind, value) with the numbers symbolic"""
    kinds = ["int", "float", "true", "false", "none", "tuple", "dict"] + ["name:" + n for n in names] + ["badname", "empty"]
    if lists:
        kinds += ["list-empty", "list-int", "list-float", "list-str", "list-none", "list-bool"]
    k = h.pick(tag + "_kind", kinds)
    if k == "int":
        return k, h.int(tag + "_i", -5, 70000)
    if k == "float":
        return k, h.real(tag + "_f", -5, 5)
    if k == "list-int":
        return k, [h.int(tag + "_li", -5, 70000)]
    if k == "list-float":
        return k, [h.real(tag + "_lf", -5, 5), "x"]
    fixed = {"true": True, "false": False, "none": None, "tuple": (0.5,), "dict": {"a": 1}, "badname": "no such thing", "empty": "",
             "list-empty": [], "list-str": ["0.1"], "list-none": [None], "list-bool": [True]}
    if k in fixed:
        return k, fixed[k]
    n = k[5:]
    return "name", n


# a domain: (accepted names, lists?, predicate(h, kind, value) -> True / False / condition / None = not stated)
def integer(lo=None, hi=None):
    def pred(h, k, v):
        if k != "int":
            return False
        c = True
        if lo is not None:
            c = h.land(c, v >= lo)
        return c

    def full(h, k, v):
        c = pred(h, k, v)
        if hi is not None and k == "int":
            if h.branch(v > hi):
                return None            # the documentation and the check differ about values this large
        return c
    return ((), False, full)


def number(cond=None):
    def pred(h, k, v):
        if k not in ("int", "float"):
            return False
        return cond(h, v) if cond else True
    return ((), False, pred)


def boolean():
    return ((), False, lambda h, k, v: k in ("true", "false"))


def name(*ok, other=()):
    vals = []
    for o in ok:
        vals += [o, o.upper(), o.capitalize(), o + " "]
    return (tuple(dict.fromkeys(vals)) + tuple(other), False, lambda h, k, v: k == "name" and v.lower() in ok)


def exact(*ok):
    vals = []
    for o in ok:
        vals += [o, o.upper() + "x"]
    return (tuple(vals), False, lambda h, k, v: k == "name" and v in ok)


def anystr(*ok):
    return (tuple(x for o in ok for x in (o, o.lower(), o.upper())) + ("something",), False, lambda h, k, v: k in ("name", "badname", "empty"))


def numlist():
    def pred(h, k, v):
        return k in ("list-int", "list-float")
    return ((), True, pred)


TREE = {
    "criterion_method": name("xgboost"), "criterion_params": numlist(), "max_depth": integer(1), "min_sample_split": integer(),
    "min_impurity_split": number(), "min_leaf_node": integer(), "max_split_nodes": integer(1, 2 ** 16),
    "n_iter_no_change": boolean(), "tol": number(), "feature_importance_type": name("split", "gain"),
}
BOOST = {
    "task_type": exact("classification", "regression"), "learning_rate": number(), "num_trees": integer(1),
    "subsample_feature_rate": number(lambda h, v: h.land(v >= 0, v <= 1)), "n_iter_no_change": boolean(), "tol": number(),
    "bin_num": integer(2),
}
MODE = {"mode": name("strict", "fast", "balance"), "re_encrypted_rate": number()}
ENC = {"method": anystr("Paillier"), "key_length": integer(1)}
PRED = {"with_proba": boolean(), "threshold": number()}
EVAL = {"eval_type": name("binary", "multi", "regression"),
        "pos_label": (("1",), False, lambda h, k, v: k in ("int", "float", "name", "badname", "empty"))}
CV = {"n_splits": integer(1), "mode": exact("homo", "hetero"), "role": exact("host", "guest", "arbiter"), "shuffle": boolean(),
      "random_seed": integer(1)}
BIN = {
    "method": name("quantile"), "compress_thres": integer(1), "head_size": integer(1),
    "error": ((), False, lambda h, k, v: k == "float" and (None if h.branch(v == 1) else h.land(v >= 0, v <= 1))),
    "bin_num": integer(1), "cols": ((), True, lambda h, k, v: k == "int" or k.startswith("list")),
    "adjustment_factor": ((), False, lambda h, k, v: k == "float" and h.land(v > 0, v < 1)),
}
TRANS = {
    "transform_cols": ((), True, lambda h, k, v: None if (k == "int" and h.branch(v != -1)) or (k == "float" and h.branch(v == -1)) else
                       (k == "int" or k == "none" or k.startswith("list"))),
    "transform_type": (("bin_num",), False, lambda h, k, v: k == "none" or (k == "name" and v == "bin_num")),
}
LOWERED = {"criterion_method", "feature_importance_type", "eval_type"}


def snapshot(o):
    out = {}
    for k, v in vars(o).items():
        out[k] = snapshot(v) if type(v).__module__.startswith("ml.") else copy.copy(v)
    return out


def same(h, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(h, a[k], b[k]) is not False for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(h, x, y) is not False for x, y in zip(a, b))
    try:
        r = a is b or a == b
    except Exception:
        return False
    return r if type(r) is bool else h.branch(r)


def decide(h, obj, check, ok, fields, key, changed=()):
    """run the check and compare; fields in changed may be rewritten"""
    before = snapshot(obj)
    try:
        check()
        got = True
    except ValueError:
        got = False
    if ok is None:
        return got
    h.check(got == ok, "%s: accepted %s, in the documented domain: %s" % (key, got, ok), key)
    after = snapshot(obj)
    if got:
        for k in before:
            if k not in changed:
                h.check(same(h, before[k], after.get(k)), "%s: the check altered %s" % (key, k), key + "-alter")
    return got


def pair(mod, cls, spec, pairs, lowered=(), extra=None):
    """vary two fields, the others at their defaults"""
    def fn(h):
        h.world()
        C = h.cls(P + mod, cls)
        a, b = h.pick("fields", pairs)
        obj = C()
        oks = []
        for f in (a, b):
            if f is None:
                continue
            names, lists, pred = spec[f]
            k, v = values(h, f, names, lists)
            setattr(obj, f, v)
            oks.append(pred(h, k, v))
        if extra:
            oks = [extra(h, obj, a, b, oks)] if extra(h, obj, a, b, oks) is not False else oks
        if any(o is None for o in oks):
            ok = False if any(o is False for o in oks) else None
        else:
            ok = h.land(*oks)
            if not isinstance(ok, bool):
                ok = h.branch(ok)
        given = {f: getattr(obj, f) for f in (a, b) if f}
        got = decide(h, obj, obj.check, ok, (a, b), cls + "." + "/".join(f for f in (a, b) if f),
                     [f for f in lowered])
        if got:
            for f in lowered:
                v = given.get(f)
                if isinstance(v, str):
                    h.check(getattr(obj, f) == v.lower(), "%s is normalised to lower case" % f, cls + "-lower")
    return fn


def mode_pair():
    """the rate only matters in balance mode"""
    def fn(h):
        h.world()
        obj = h.cls(P + "encrypted_mode_calculation_param", "EncryptedModeCalculatorParam")()
        k1, m = values(h, "mode", MODE["mode"][0])
        k2, r = values(h, "rate", ())
        obj.mode, obj.re_encrypted_rate = m, r
        ok = k1 == "name" and m.lower() in ("strict", "fast", "balance")
        if ok and m.lower() == "balance":
            ok = k2 in ("int", "float")
        elif ok and k2 not in ("int", "float"):
            ok = None
        if decide(h, obj, obj.check, ok, (), "mode", ["mode"]) and k1 == "name":
            h.check(obj.mode == m.lower(), "the mode is normalised to lower case", "mode-lower")
    return fn


def encrypt():
    def fn(h):
        h.world()
        obj = h.cls(P + "encrypt_param", "EncryptParam")()
        k1, m = values(h, "method", ("Paillier", "paillier", "PAILLIER", "something"))
        k2, r = values(h, "key", ())
        obj.method, obj.key_length = m, r
        ok = k1 in ("name", "badname", "empty") or k1 == "none"
        if k1 == "none":
            ok = None
        length = k2 == "int" and h.branch(r >= 1)
        if not length:
            ok = False
        got = decide(h, obj, obj.check, ok, (), "encrypt", ["method"])
        if got and k1 == "name":
            h.check(obj.method == ("Paillier" if m.lower() == "paillier" else m), "the method is normalised", "encrypt-name")
    return fn


def objective():
    def fn(h):
        h.world()
        obj = h.cls(P + "boosting_tree_param", "ObjectiveParam")()
        task = h.pick("task", [None, "classification", "regression", "via-boosting"])
        regs = ("lse", "lae", "huber", "fair", "log_cosh", "tweedie")
        k, name_ = values(h, "objective", ("cross_entropy",) + regs + ("LSE", "Huber", "TWEEDIE", "Cross_Entropy"))
        kp, params = values(h, "params", (), True)
        obj.objective, obj.params = name_, params
        low = name_.lower() if k == "name" else None
        top, check = obj, (lambda: obj.check() if task is None else obj.check(task))
        t = task
        if task == "via-boosting":
            top = h.cls(P + "boosting_tree_param", "BoostingTreeParam")()
            t = top.task_type = h.pick("boost-task", ["classification", "regression"])
            top.objective_param = obj
            check = top.check
        if k == "none":
            ok = True
        elif k != "name":
            ok = False
        elif t is None:
            ok = True
        elif t == "classification":
            ok = name_ == "cross_entropy"
            if low == "cross_entropy" and not ok:
                ok = None
        elif low not in regs:
            ok = False
        elif low in ("huber", "fair", "tweedie"):
            if kp not in ("list-int", "list-float"):
                ok = False
            else:
                p = params[0]
                ok = h.branch(h.land(p >= 1, p < 2) if low == "tweedie" else p > 0)
        else:
            ok = True
        got = decide(h, obj, check, ok, (), "objective", ["objective"])
        if got and k == "name":
            h.check(obj.objective == low, "the objective is normalised to lower case", "objective-lower")
    return fn


def nested():
    """the boosting check covers the tree's and the encryption's parameters"""
    def fn(h):
        h.world()
        obj = h.cls(P + "boosting_tree_param", "BoostingTreeParam")()
        which = h.pick("which", sorted(TREE) + ["key_length"])
        if which == "key_length":
            k, v = values(h, "v", ())
            obj.encrypt_param.key_length = v
            ok = integer(1)[2](h, k, v)
        else:
            names, lists, pred = TREE[which]
            k, v = values(h, "v", names, lists)
            setattr(obj.tree_param, which, v)
            ok = pred(h, k, v)
        if ok is not None and not isinstance(ok, bool):
            ok = h.branch(ok)
        before = snapshot(obj)
        try:
            obj.check()
            got = True
        except ValueError:
            got = False
        if ok is not None:
            h.check(got == ok, "accepted %s, in the documented domain: %s" % (got, ok), "nested-" + which)
        if got and not (k == "name" and which in ("criterion_method", "feature_importance_type")):
            h.check(same(h, before, snapshot(obj)), "the check alters nothing", "nested-alter")
    return fn


def defaults():
    def fn(h):
        h.world()
        mods = [("boosting_tree_param", "BoostingTreeParam"), ("boosting_tree_param", "DecisionTreeParam"),
                ("boosting_tree_param", "ObjectiveParam"), ("encrypt_param", "EncryptParam"), ("predict_param", "PredictParam"),
                ("encrypted_mode_calculation_param", "EncryptedModeCalculatorParam"), ("evaluation_param", "EvaluateParam"),
                ("cross_validation_param", "CrossValidationParam"), ("feature_binning_param", "FeatureBinningParam"),
                ("feature_binning_param", "TransformParam")]
        m, c = h.pick("class", mods)
        obj = h.cls(P + m, c)()
        before = snapshot(obj)
        try:
            obj.check()
            ok = True
        except Exception as e:
            ok = False
        h.check(ok, "%s: the defaults are accepted" % c, "defaults-" + c)
        h.check(same(h, before, snapshot(obj)), "%s: the defaults are unaltered" % c, "defaults-" + c)
        # two objects share nothing that a check or a user could alter through one of them
        a, b = h.cls(P + m, c)(), h.cls(P + m, c)()
        for f, v in vars(a).items():
            if hasattr(v, "__dict__"):
                h.check(v is not getattr(b, f), "%s.%s is not shared" % (c, f), "shared-" + c)
    return fn


def singles(spec):
    return [(f, None) for f in spec]


def pairs(spec):
    f = list(spec)
    return [(f[i], f[j]) for i in range(len(f)) for j in range(i + 1, len(f))]


def cases(tier):
    big = tier == "thorough"
    out = []
    for mod, cls, spec, low in (("boosting_tree_param", "DecisionTreeParam", TREE, ("criterion_method", "feature_importance_type")),
                                ("boosting_tree_param", "BoostingTreeParam", BOOST, ()),
                                ("predict_param", "PredictParam", PRED, ()),
                                ("evaluation_param", "EvaluateParam", EVAL, ("eval_type",)),
                                ("cross_validation_param", "CrossValidationParam", CV, ()),
                                ("feature_binning_param", "FeatureBinningParam", BIN, ("method",)),
                                ("feature_binning_param", "TransformParam", TRANS, ())):
        if cls == "BoostingTreeParam":
            def extra(h, obj, a, b, oks):
                # the objective belongs to the task
                if obj.task_type == "regression":
                    obj.objective_param.objective = "lse"
                return False
        else:
            extra = None
        out.append(Case(cls, pair(mod, cls, spec, singles(spec), low, extra), bounds="one field varied, integers in [-5,70000], floats in [-5,5]"))
        out.append(Case(cls + "-pairs", pair(mod, cls, spec, pairs(spec), low, extra),
                        bounds="two fields varied"))
    out += [Case("mode", mode_pair(), bounds="both fields varied"), Case("encrypt", encrypt(), bounds="both fields varied"),
            Case("objective", objective(), bounds="objective, its parameters and the task varied"),
            Case("nested", nested(), bounds="one nested field varied"), Case("defaults", defaults(), bounds="default objects")]
    return out
