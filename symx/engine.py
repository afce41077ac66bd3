"""Path explorer: depth-first search over decision prefixes; z3 decides feasibility and obligations.

One `Ctx` object per executed path.  `Ctx` is installed as the global CTX while the path runs, so that the
symbolic values of syms.py can reach it from inside the code under test.
"""
import time
import z3
from fractions import Fraction

CTX = None


def ctx():
    return CTX


class PathAbort(BaseException):
    """Path is infeasible or given up; must pass through `except Exception`."""


class Unsupported(Exception):
    """The engine cannot express an operation (the path is then counted as not decided)."""


class Stats:
    FIELDS = ("paths", "aborted", "unsupported", "branches", "forks", "queries", "sat", "unsat", "unknown",
              "obligations", "trivial", "discharged", "inconclusive", "solver_s", "approx", "truncated",
              "validated", "mismatch", "unexplored", "replays")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (other.get(f, 0) if isinstance(other, dict) else getattr(other, f)))

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Decision(tuple):
    pass


def frac_of(v):
    """z3 numeral -> Fraction (algebraic numbers are approximated)."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("no numeral: %s" % v)


class Ctx:
    symbolic = True

    def __init__(self, prefix=(), model=None, stats=None, opts=None):
        opts = opts or {}
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # decisions taken on this path
        self.alts = []           # (prefix, model) of unexplored siblings
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.query_ms = opts.get("query_ms", 20000)
        self.solver.set("timeout", self.query_ms)
        self.pc = []
        self.model = model if self.prefix else None
        self.model_ok = False    # model is known to satisfy pc
        self.pending_model = model
        self.decided = {}
        self.keep = []
        self.inputs = {}         # name -> (kind, z3 var | concrete)
        self.pending = []        # obligations not yet discharged
        self.violations = []
        self.dead = False
        self.reached = 0
        self.max_enum = opts.get("max_enum", 64)
        self.notes = []
        self.fresh_n = 0
        self.atoms = []          # z3 term per atom index
        self.atom_int = []
        self.atom_id = {}
        self.hooks = {}
        self.exp_terms = []
        self.deadline = opts.get("path_deadline")
        self.grid_vars = []
        self.validate_bad = []
        self.observed = []

    # ---- solver plumbing -------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            # nonlinear fall-back
            s = z3.Tactic("qfnra-nlsat").solver() if self._pure_real(extra) else z3.Solver()
            s.set("timeout", self.query_ms)
            s.add(*self.pc)
            s.add(*extra)
            try:
                r = s.check()
                if r == z3.sat:
                    m = s.model()
            except z3.Z3Exception:
                r = z3.unknown
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def _pure_real(self, extra):
        return not any(self.atom_int)

    def add(self, e):
        """Adds a constraint known to be consistent (axioms of fresh values)."""
        self.pc.append(e)
        self.solver.add(e)
        self.model_ok = False

    def _ensure_model(self):
        if self.model_ok:
            return
        if self.pending_model is not None and self.pos >= len(self.prefix):
            m = self.pending_model
            self.pending_model = None
            if self.fresh_ok(m):
                self.model = m
                self.model_ok = True
                return
        r, m = self._check()
        if r == z3.unsat:
            self.abort()
        if m is None:
            self.note("unknown feasibility")
            self.stats.truncated += 1
            self.abort()
        self.model = m
        self.model_ok = True

    def fresh_ok(self, m):
        try:
            return all(z3.is_true(m.eval(e, model_completion=True)) for e in self.pc)
        except z3.Z3Exception:
            return False

    def abort(self):
        self.dead = True
        raise PathAbort()

    def alive(self):
        if self.dead:
            raise PathAbort()
        if self.deadline is not None and time.time() > self.deadline:
            self.stats.truncated += 1
            self.late = True
            self.note("time budget of the path used up")
            self.abort()

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # ---- decisions --------------------------------------------------------------------------------
    def branch(self, e):
        """Truth value of z3 Boolean e on this path (forks when both sides are possible)."""
        self.alive()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.decided:
            return self.decided[k]
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert d[0] == "b", ("non-deterministic replay", d, e)
            v = d[1]
            self.pos += 1
            self.model_ok = False
        else:
            self._ensure_model()
            v = z3.is_true(self.model.eval(e, model_completion=True))
            other = z3.Not(e) if v else e
            r, m = self._check(other)
            if r != z3.unsat:
                if r == z3.unknown:
                    self.note("unknown branch feasibility (explored)")
                self.stats.forks += 1
                self.alts.append((self.trace + [("b", not v)], m))
            d = ("b", v)
        self.trace.append(d)
        self.keep.append(e)
        self.decided[k] = v
        ne = z3.Not(e)
        self.keep.append(ne)
        self.decided[ne.get_id()] = not v
        c = e if v else ne
        self.pc.append(c)
        self.solver.add(c)
        return v

    def concretize(self, e, limit=None):
        """An int value of z3 Int term e; explores all values up to the enumeration limit."""
        self.alive()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        limit = limit or self.max_enum
        excl = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            assert d[0] in ("v", "ne"), ("non-deterministic replay", d, e)
            if d[0] == "v":
                v = d[1]
                self.trace.append(d)
                self._addc(e == v)
                return v
            excl = list(d[1])
            for x in excl:
                self._addc(e != x)
        self._ensure_model()
        v = frac_of(self.model.eval(e, model_completion=True)).numerator
        r, m = self._check(e != v)
        if r != z3.unsat:
            if len(excl) + 1 >= limit:
                self.stats.truncated += 1
                self.note("value enumeration cut at %d" % limit)
            else:
                self.stats.forks += 1
                self.alts.append((self.trace + [("ne", tuple(excl + [v]))], m))
        self.trace.append(("v", v))
        self.pc.append(e == v)
        self.solver.add(e == v)
        return v

    def enum(self, value_of, cond_of, limit=64):
        """Forks over the values of a function of the model: value_of(model) -> v, cond_of(v) -> z3 constraint "the
        function has value v"."""
        self.alive()
        excl = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            assert d[0] in ("v", "ne"), ("non-deterministic replay", d)
            if d[0] == "v":
                self.trace.append(d)
                self._addc(cond_of(d[1]))
                return d[1]
            excl = list(d[1])
            for x in excl:
                self._addc(z3.Not(cond_of(x)))
        self._ensure_model()
        v = value_of(self.model)
        cond = cond_of(v)
        r, m = self._check(z3.Not(cond))
        if r != z3.unsat:
            if len(excl) + 1 >= limit:
                self.stats.truncated += 1
                self.note("value enumeration cut at %d" % limit)
            else:
                self.stats.forks += 1
                self.alts.append((self.trace + [("ne", tuple(excl + [v]))], m))
        self.trace.append(("v", v))
        self.pc.append(cond)
        self.solver.add(cond)
        return v

    def _addc(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self.model_ok = False

    def choose(self, name, n):
        """Nondeterministic choice 0..n-1 (all explored); recorded as an input."""
        self.alive()
        if name in self.inputs:
            return self.inputs[name][1]
        if n == 1:
            v = 0
        elif self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert d[0] == "c", ("non-deterministic replay", d, name)
            v = d[1]
            self.pos += 1
            self.trace.append(d)
        else:
            v = 0
            for o in range(n - 1, 0, -1):
                self.stats.forks += 1
                self.alts.append((self.trace + [("c", o)], None))
            self.trace.append(("c", v))
        self.inputs[name] = ("c", v)
        return v

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    # ---- inputs -------------------------------------------------------------------------------------
    def atom(self, term, is_int):
        k = term.get_id()
        i = self.atom_id.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(term)
            self.atom_int.append(is_int)
            self.atom_id[k] = i
        return i

    def fresh_name(self, p="t"):
        self.fresh_n += 1
        return "%s!%d" % (p, self.fresh_n)

    # ---- assertions -----------------------------------------------------------------------------------
    def assume_input(self, e):
        """Range of a fresh input: always satisfiable, so no query is needed."""
        self.pc.append(e)
        self.solver.add(e)
        self.model_ok = False

    def assume_expr(self, e):
        self.alive()
        if z3.is_true(e):
            return
        self.flush()
        if z3.is_false(e):
            self.abort()
        self.pc.append(e)
        self.solver.add(e)
        if self.model_ok and z3.is_true(self.model.eval(e, model_completion=True)):
            return
        self.model_ok = False
        if self.pos < len(self.prefix):
            return
        self._ensure_model()

    def flush(self):
        """Discharges the pending obligations under the current path condition."""
        if not self.pending or self.dead:
            return
        pend, self.pending = self.pending, []
        if self.pos < len(self.prefix):
            # this point lies inside the replayed prefix: the sibling path that created the prefix discharged
            # exactly these obligations under exactly this path condition
            return
        strong = [p[0] for p in pend]
        r, m = self._check(z3.Not(z3.And(*strong)) if len(strong) > 1 else z3.Not(strong[0]))
        if r == z3.unsat:
            self.stats.discharged += len(pend)
            return
        for (s, weak, msg, key) in pend:
            goal = weak if weak is not None else s
            if len(pend) > 1 or weak is not None:
                r, m = self._check(z3.Not(s))
                if r == z3.unsat:
                    self.stats.discharged += 1
                    continue
                if weak is not None:
                    r, m = self._check(z3.Not(weak))
                    if r == z3.unsat:
                        self.stats.discharged += 1
                        continue
            if r == z3.sat:
                self.violations.append(dict(msg=msg, key=key, goal=goal, model=m, pc=list(self.pc),
                                            inputs=dict(self.inputs)))
            elif r == z3.unknown:
                self.stats.inconclusive += 1
                self.note("inconclusive obligation: " + msg)
            else:
                self.stats.discharged += 1

    def finish(self):
        self.flush()

    # ---- models -----------------------------------------------------------------------------------------
    def model_inputs(self, m, inputs=None):
        out = {}
        for name, (kind, var) in (inputs or self.inputs).items():
            if kind == "c":
                out[name] = ["c", var]
            elif kind == "w":
                out[name] = ["i", str(m.eval(var, model_completion=True).as_signed_long())]
            elif kind == "b":
                out[name] = ["b", bool(z3.is_true(m.eval(var, model_completion=True)))]
            else:
                f = frac_of(m.eval(var, model_completion=True))
                out[name] = [kind, str(f)]
        return out

    def candidate_inputs(self, pc, goal, inputs, model):
        """Several models of pc and not goal, friendliest (coarse dyadic grid) first."""
        neg = [z3.Not(goal)] if goal is not None else []
        cands = []
        for grid in (4, 64, 1024):
            reals = [v for (k, v) in inputs.values() if k == "r"]
            if not reals or len(reals) > 60:
                break
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*pc)
            s.add(*neg)
            for i, v in enumerate(reals):
                s.add(v * grid == z3.ToReal(z3.Int("grid!%d" % i)))
            if s.check() == z3.sat:
                cands.append(self.model_inputs(s.model(), inputs))
                break
        if model is not None:
            cands.append(self.model_inputs(model, inputs))
        # a second, different model: push every real away from the first one
        return cands
