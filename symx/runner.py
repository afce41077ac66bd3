"""Explores the cases of a check in parallel, replays counterexamples on the concrete code, writes evidence."""
import argparse
import concurrent.futures as cf
import io
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import threading
import time
import traceback
import z3
from . import engine, syms, world
from .engine import Ctx, PathAbort, Unsupported, Stats
from .harness import SymH, ConcH, AssumeFailed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT") or VERIF     # trials on mutated copies write their evidence and replays elsewhere


class Case:
    def __init__(self, name, fn, budget=None, validate=True, bounds="", path_s=60, query_ms=20000, max_enum=64,
                 quick=True, hang=15, min_paths=1):
        self.name = name
        self.fn = fn
        self.budget = budget
        self.validate = validate
        self.bounds = bounds
        self.path_s = path_s
        self.query_ms = query_ms
        self.max_enum = max_enum
        self.hang = hang
        self.min_paths = min_paths


class Hang(BaseException):
    pass


class Alarm:
    """Raises Hang in the main thread after s seconds."""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.main = threading.current_thread() is threading.main_thread()
        if self.main:
            def h(sig, frame):
                if engine.CTX is not None:
                    engine.CTX.dead = True
                raise Hang()
            self.old = signal.signal(signal.SIGALRM, h)
            signal.setitimer(signal.ITIMER_REAL, self.s)
        return self

    def __exit__(self, *a):
        if self.main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


class Quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        if not os.environ.get("VERIF_DEBUG"):
            sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


# ---------------------------------------------------------------- which functions of /repo were executed
FUNCS = set()
TOOL = 3


def start_trace():
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "verif")
    except ValueError:
        pass
    repo = os.path.realpath(world.REPO) + os.sep
    raw = world.REPO + os.sep

    def cb(code, off):
        f = code.co_filename
        if f.startswith(raw) or f.startswith(repo):
            FUNCS.add(f[len(raw):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.PY_START, cb)
    mon.set_events(TOOL, mon.events.PY_START)


# ---------------------------------------------------------------- concrete runs
def api_mismatch(e):
    """The harness called something that no longer exists in this form (renamed, other parameters): nothing is decided."""
    t = str(e)
    if isinstance(e, ImportError):
        return True
    if isinstance(e, TypeError):
        return bool(re.search(r"unexpected keyword argument|takes .*positional argument|missing \d+ required", t))
    if isinstance(e, AttributeError):
        m = re.search(r"^'(\w+)' object has no attribute|^module '|^type object '", t)
        return bool(m) and m.group(1) not in ("NoneType", "int", "float", "list", "tuple", "dict", "str", "bool", "ndarray")
    return False


def run_concrete(case, assignment, hang=None):
    """-> ('ok'|'skip'|'fail'|'hang', [(msg, key)], harness)"""
    engine.CTX = None
    h = ConcH(assignment)
    with Quiet():
        try:
            with Alarm(hang or case.hang):
                case.fn(h)
        except AssumeFailed:
            return ("fail" if h.failures else "skip"), h.failures, h
        except Hang:
            return "hang", [("does not finish", "hang")], h
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(world.REPO + os.sep)]
            if not loc and api_mismatch(e):
                return "skip", [], h
            where = "%s:%s" % (os.path.relpath(loc[-1].filename, world.REPO), loc[-1].name) if loc else "harness"
            h.failures.append(("unexpected %s: %s (%s)" % (type(e).__name__, str(e)[:160], where),
                               "exception:%s:%s" % (type(e).__name__, where)))
            if not loc and os.environ.get("VERIF_DEBUG"):
                traceback.print_exc(file=sys.__stderr__)
            return "fail", h.failures, h
    return ("fail" if h.failures else "ok"), h.failures, h


# ---------------------------------------------------------------- one symbolic path
def run_path(case, prefix, model, stats):
    c = Ctx(prefix, model, stats, dict(query_ms=case.query_ms, max_enum=case.max_enum,
                                       path_deadline=time.time() + case.path_s))
    engine.CTX = c
    h = SymH(c)
    status = "done"
    exc = None
    with Quiet():
        try:
            with Alarm(case.path_s + 10):
                try:
                    case.fn(h)
                    c.alive()
                    c.finish()
                    stats.paths += 1
                except PathAbort:
                    stats.aborted += 1
                    status = "aborted"
                except Unsupported as e:
                    status = "unsupported"
                    exc = e
                except RecursionError as e:
                    status = "unsupported"
                    exc = e
                except Exception as e:
                    if c.dead:
                        stats.aborted += 1
                        status = "aborted"
                    else:
                        status = "exception"
                        exc = e
        except Hang:
            status = "hang"
            stats.truncated += 1
    if status in ("unsupported", "exception") and not c.dead:
        try:
            with Alarm(60):
                c.finish()
        except (Hang, PathAbort, Unsupported):
            pass
    return c, status, exc


def sat_model(c):
    if c.model_ok:
        return c.model
    try:
        r, m = c._check()
    except z3.Z3Exception:
        return None
    return m


def eval_obs(m, v):
    if isinstance(v, bool) or v is None:
        return v
    if type(v) is syms.SymBool:
        return float(z3.is_true(m.eval(v.e, model_completion=True)))
    if getattr(type(v), "__symtype__", None) is float:
        return eval_obs(m, v.v)
    if hasattr(type(v), "__symtype__"):
        return float(m.eval(v.e, model_completion=True).as_signed_long())
    if issubclass(type(v), syms.SymNum):
        try:
            return float(engine.frac_of(m.eval(v.rterm(), model_completion=True)))
        except (Unsupported, OverflowError):
            return None
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def explain(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if f.filename.startswith(world.REPO + os.sep)]
    last = tb[-1]
    return "%s: %s at %s [%s]" % (type(e).__name__, str(e)[:200],
                                  "%s:%d" % (os.path.relpath(loc[-1].filename, world.REPO), loc[-1].lineno) if loc else "-",
                                  "%s:%d" % (os.path.basename(last.filename), last.lineno))


def work(case, jobs, slice_s, validate_left, stop_at):
    """Worker: explores from the given prefixes for slice_s seconds."""
    t0 = time.time()
    stats = Stats()
    FUNCS_before = len(FUNCS)
    viol, notes, samples = [], [], []
    stack = [(p, None) for p in jobs]
    nval = 0
    val_s = 0.0
    status_count = {}
    while stack and time.time() - t0 < slice_s and time.time() < stop_at:
        prefix, model = stack.pop()
        c, status, exc = run_path(case, prefix, model, stats)
        status_count[status] = status_count.get(status, 0) + 1
        for n in c.notes:
            if n not in notes:
                notes.append(n)
        stack.extend(c.alts)
        cands = []
        for v in c.violations:
            cands.append((v["msg"], v["key"], v["pc"], v["goal"], v["inputs"], v["model"]))
        if status == "exception":
            m = sat_model(c)
            msg = "unhandled " + explain(exc)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exception(exc, file=sys.__stderr__)
            if m is not None:
                cands.append((msg, "exception", list(c.pc), None, dict(c.inputs), m))
        if status == "hang":
            m = None
            try:
                c.dead = False
                m = sat_model(c)
            except BaseException:
                pass
            if m is not None:
                cands.append(("path does not finish", "hang", list(c.pc), None, dict(c.inputs), m))
        undecided = 0
        for (msg, key, pc, goal, inputs, model_) in cands[:6]:
            confirmed = False
            if len(viol) < 12:
                for a in c.candidate_inputs(pc, goal, inputs, model_):
                    stats.replays += 1
                    st, fails, hh = run_concrete(case, a)
                    if st in ("fail", "hang"):
                        for (fm, fk) in fails[:3]:
                            viol.append(dict(case=case.name, msg=fm, key=fk, solver_msg=msg, assignment=a,
                                             confirmed=True))
                        confirmed = True
                        break
            if not confirmed:
                undecided += 1
                if status == "exception" and key == "exception":
                    stats.unsupported += 1
                    notes.append("not encoded: " + msg)
                elif key == "hang":
                    notes.append("path too long")
                else:
                    stats.inconclusive += 1
                    notes.append("solver counterexample not reproduced: " + msg)
                    if os.environ.get("VERIF_DEBUG"):
                        print("UNREPRODUCED", case.name, msg, c.model_inputs(model_, inputs), file=sys.__stderr__)
        late = status == "aborted" and getattr(c, "late", False)
        if late and len(viol) >= 12:
            late = False
        if status == "unsupported" or late:
            if not late:
                stats.unsupported += 1
                notes.append("not encoded: " + explain(exc))
            if os.environ.get("VERIF_DEBUG") and exc is not None:
                traceback.print_exception(exc, file=sys.__stderr__)
            # the path condition still yields concrete inputs: run the real code on them
            m = sat_model(c)
            if m is not None and val_s < slice_s:
                a = c.model_inputs(m)
                t = time.time()
                st, fails, hh = run_concrete(case, a)
                val_s += time.time() - t
                if st in ("fail", "hang"):
                    for (fm, fk) in fails[:3]:
                        viol.append(dict(case=case.name, msg=fm, key=fk, solver_msg="input of an undecided path",
                                         assignment=a, confirmed=True))
        elif status == "done" and case.validate and not c.violations and nval < validate_left and val_s < 0.5 * slice_s:
            t = time.time()
            m = sat_model(c)
            if m is not None:
                a = c.model_inputs(m)
                obs = [eval_obs(m, x) for x in c.observed]
                st, fails, hh = run_concrete(case, a)
                if st in ("fail", "hang"):
                    for (fm, fk) in fails[:3]:
                        viol.append(dict(case=case.name, msg=fm, key=fk, solver_msg="solver model of a path, run concretely",
                                         assignment=a, confirmed=True))
                elif st == "ok":
                    stats.validated += 1
                    nval += 1
                    bad = False
                    if len(hh.observed) == len(obs):
                        for x, y in zip(obs, hh.observed):
                            if x is not None and y is not None and x == x and y == y and \
                                    abs(x - y) > 1e-6 * (1 + abs(x)) and abs(x) != float("inf"):
                                bad = True
                    if bad:
                        stats.mismatch += 1
                        notes.append("a concrete run differed numerically from its symbolic path")
                        if os.environ.get("VERIF_DEBUG"):
                            print("MISMATCH", case.name, a, obs, hh.observed, file=sys.__stderr__)
                    if len(samples) < 3:
                        samples.append(dict(case=case.name, inputs={k: v[1] for k, v in list(a.items())[:24]},
                                            decisions=len(c.trace), outcome="held, concrete run agrees"))
                else:
                    notes.append("concrete run left the assumed domain (rounding)")
            val_s += time.time() - t
        if len(notes) > 40:
            notes = notes[:40]
        if viol and len(viol) >= 12:
            break
    engine.CTX = None
    return dict(case=case.name, stats=stats.asdict(), left=[p for p, m in stack], viol=viol, notes=notes,
                samples=samples, funcs=sorted(FUNCS), secs=time.time() - t0, status=status_count)


_CASES = {}


def _work_named(name, jobs, slice_s, validate_left, stop_at):
    return work(_CASES[name], jobs, slice_s, validate_left, stop_at)


def _winit():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:                      # never outlive the main process
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    start_trace()


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def run_check(prop, cases, tier, desc, budget):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    _CASES.clear()
    for c in cases:
        assert c.name not in _CASES, c.name
        _CASES[c.name] = c
    stop_at = t0 + budget
    findings = load_findings(prop)
    seen_known = set()
    total = Stats()
    per = {c.name: dict(stats=Stats(), secs=0.0, left=0, notes=[], status={}) for c in cases}
    queue = {c.name: [[()]] for c in cases}
    val_left = {c.name: (12 if tier == "quick" else 60) for c in cases}
    funcs, samples, violations = set(), [], []
    nw = int(os.environ.get("VERIF_JOBS", "8"))
    ctx = mp.get_context("fork")
    err = None
    ex = cf.ProcessPoolExecutor(nw, mp_context=ctx, initializer=_winit)
    running = {}
    secs = {c.name: 0.0 for c in cases}
    nrun = {c.name: 0 for c in cases}
    stop = False
    try:
        while True:
            # hand out work
            while not stop and len(running) < nw and time.time() < stop_at:
                ready = [n for n in queue if queue[n]]
                if not ready:
                    break
                n = min(ready, key=lambda k: (secs[k] + 2 * nrun[k], k))
                cb = _CASES[n].budget
                if cb is not None and secs[n] > cb * nw:
                    per[n]["left"] += sum(len(j) for j in queue[n])
                    queue[n] = []
                    continue
                jobs = queue[n].pop()
                sl = 0.4 if secs[n] < 1 else (1.5 if secs[n] < 20 else 4.0)
                f = ex.submit(_work_named, n, jobs, sl, max(0, val_left[n]), stop_at)
                running[f] = n
                nrun[n] += 1
            if not running:
                break
            done, _ = cf.wait(list(running), timeout=5, return_when=cf.FIRST_COMPLETED)
            if time.time() > stop_at + 75 and not done:
                for n in running.values():
                    per[n]["left"] += 1
                    per[n]["notes"].append("a worker did not come back in time")
                break
            for f in done:
                n = running.pop(f)
                nrun[n] -= 1
                r = f.result()
                per[n]["stats"].add(r["stats"])
                total.add(r["stats"])
                secs[n] += r["secs"]
                val_left[n] -= r["stats"]["validated"]
                funcs.update(r["funcs"])
                for k, v in r["status"].items():
                    per[n]["status"][k] = per[n]["status"].get(k, 0) + v
                for x in r["notes"]:
                    if x not in per[n]["notes"] and len(per[n]["notes"]) < 30:
                        per[n]["notes"].append(x)
                if len([s for s in samples if s["case"] == n]) < 2:
                    samples.extend(r["samples"][:1])
                for v in r["viol"]:
                    k = match(findings, v)
                    if k is not None:
                        seen_known.add(k)
                    else:
                        violations.append(v)
                        stop = True
                left = r["left"]
                if left:
                    parts = max(1, min(nw, len(left)))
                    for i in range(parts):
                        queue[n].append([p for p in left[i::parts]])
            if stop and not running:
                break
    except cf.process.BrokenProcessPool as e:
        err = "a worker process died: %s" % e
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    for n in queue:
        per[n]["left"] += sum(len(j) for j in queue[n])
    total.unexplored = sum(p["left"] for p in per.values())
    wall = time.time() - t0
    empty = [n for n in per if per[n]["stats"].paths < _CASES[n].min_paths or per[n]["stats"].obligations == 0]
    incomplete = {n: dict(left=p["left"], notes=p["notes"]) for n, p in per.items() if p["left"] or p["notes"]}
    complete = not stop and total.unexplored == 0 and total.truncated == 0 and total.unsupported == 0 \
        and total.inconclusive == 0 and not empty
    cov = dict(
        states=total.paths + total.aborted, transitions=total.branches,
        traces_validated_against_impl=total.validated,
        samples=samples[:20],
        functions_encoded=sorted(funcs),
        bounds={c.name: c.bounds for c in cases},
        paths=total.paths, infeasible_paths=total.aborted, obligations=total.obligations,
        obligations_trivial=total.trivial, obligations_discharged_by_solver=total.discharged,
        queries=total.queries, queries_sat=total.sat, queries_unsat=total.unsat, queries_unknown=total.unknown,
        solver_s=round(total.solver_s, 2), value_approximations=total.approx,
        complete_within_bounds=bool(complete),
        undecided=dict(unsupported_paths=total.unsupported, inconclusive=total.inconclusive, truncated=total.truncated,
                       unexplored_prefixes=total.unexplored, numeric_mismatches=total.mismatch, detail=incomplete),
        cases={n: dict(paths=p["stats"].paths, obligations=p["stats"].obligations, queries=p["stats"].queries,
                       cpu_s=round(secs[n], 2), outcomes=p["status"]) for n, p in per.items()},
        concrete_replays=total.replays, known_findings_seen=sorted(seen_known), description=desc)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d paths, %d obligations (%d by solver), %d queries, %.1f s solver, %d validated, %.1f s wall%s" % (
        prop, tier, total.paths, total.obligations, total.discharged, total.queries, total.solver_s, total.validated,
        wall, "" if complete else ", NOT complete"))
    for n, d in incomplete.items():
        if d["left"] or per[n]["stats"].unsupported or per[n]["stats"].inconclusive or per[n]["stats"].truncated or os.environ.get("VERIF_V"):
            print("  INCOMPLETE %s: %d prefixes unexplored; %s" % (n, d["left"], "; ".join(d["notes"])[:600]))
    for d in findings:
        if d["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    if os.environ.get("VERIF_V"):
        for n in per:
            print("   %-40s paths %6d  obl %7d  q %6d  cpu %.1f %s" % (n, per[n]["stats"].paths, per[n]["stats"].obligations,
                                                            per[n]["stats"].queries, secs[n], per[n]["status"]))
    if violations:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        shown = []
        for v in violations:
            if (v["case"], v["key"]) in shown or len(shown) >= 8:
                continue
            shown.append((v["case"], v["key"]))
            path = os.path.join(d, "%s-%d.json" % (prop, len(shown)))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, **v), f, indent=1)
            print("  %s [%s]: %s" % (v["case"], v["key"], v["msg"]))
            print("    inputs: %s" % json.dumps({k: x[1] for k, x in v["assignment"].items()})[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if err:
        print("ERROR: " + err)
        return 2
    if empty:
        print("ERROR: nothing decided for: " + ", ".join(empty))
        bad = [n for n in empty if per[n]["left"] == 0 or True]
        if len(empty) == len(per):
            return 2
    return 0


def match(findings, v):
    for d in findings:
        if d.get("case") not in (None, v["case"]):
            continue
        if d.get("key") is not None and d["key"] != v["key"]:
            continue
        return d["id"]
    return None


def main(prop, module, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    if a.replay:
        r = json.load(open(a.replay))
        cs = {c.name: c for t in ("quick", "thorough") for c in module.cases(t)}
        st, fails, h = run_concrete(cs[r["case"]], r["assignment"], hang=60)
        print(st)
        for m, k in fails:
            print("  [%s] %s" % (k, m))
        return 1 if st in ("fail", "hang") else 0
    cases = module.cases(a.tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    budget = a.budget or getattr(module, "BUDGET", {}).get(a.tier) or (150 if a.tier == "quick" else 780)
    return run_check(prop, cases, a.tier, getattr(module, "DESC", ""), budget)
