"""Symbolic execution core: path enumeration by re-execution on top of z3.

The code under test runs for real (CPython executes it); inputs are proxy
objects carrying z3 terms (see values.py).  Every `if` over a proxy calls
Engine.branch(), which asks the solver which outcomes are feasible under the
current path condition and forks.  Paths are enumerated depth first by
re-running the harness with a recorded prefix of decisions; the solver keeps
the common prefix asserted (push/pop).

Engine.check(cond) is the deciding step: `path condition and not cond` is sent
to the solver; unsat discharges the obligation for every value on this path,
sat gives a model that the runner replays on the unmodified code.
"""
import os
import sys
import time
import fractions

_Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3PATH not in sys.path:
    sys.path.append(_Z3PATH)

import z3  # noqa: E402


class SymxControl(BaseException):
    """Base of the engine's own control flow (never caught by `except Exception`)."""


class Leak(SymxControl):
    """A symbolic value reached an operation the engine does not model."""


class Inconclusive(SymxControl):
    """Solver unknown/timeouts or a bound of the exploration was exceeded."""


class PathInfeasible(SymxControl):
    """The current path was cut by an unsatisfiable assume()."""


class PathStop(SymxControl):
    """The harness ended this path on purpose (after its check)."""


class Nondeterminism(SymxControl):
    pass


class Crash(SymxControl):
    """Simulated process death at a crash point."""


class Violation:
    def __init__(self, label, model, info):
        self.label = label
        self.model = model
        self.info = info


ENG = None  # the active engine


def eng():
    if ENG is None:
        raise RuntimeError("no active engine")
    return ENG


class Engine:
    def __init__(self, timeout_ms=60000, max_paths=200000, deadline=None, fp="slack"):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.fp = fp
        self.trail = []  # [kind, cond, value, alt_pending, alt_model, pushed]
        self.pos = 0
        self.model = None
        self.names = {}
        self.inputs = {}  # name -> (kind, payload)
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.solver_time = 0.0
        self.paths = 0
        self.cut = 0
        self.branches = 0
        self.covered = {}
        self.violations = []
        self.on_violation = None
        self.entered = set()
        self.cleanups = []
        self.samples = []
        self.leaks = []
        self.err_vars = []
        self.concretizations = 0
        self.seen_violation_labels = set()
        self.slow = []
        self.memo = {}
        self.round_cache = {}

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t0
        self.solver_time += dt
        self.queries += 1
        if dt > 2.0:
            self.slow.append(round(dt, 2))
        if r == z3.unknown:
            # one more try with a fresh solver and a different seed
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.set("random_seed", 7)
            s.add(self.solver.assertions())
            t0 = time.time()
            r2 = s.check(*extra)
            self.solver_time += time.time() - t0
            self.queries += 1
            if r2 == z3.unknown:
                raise Inconclusive("solver: %s" % s.reason_unknown())
            r = r2
            self._last_model = s.model() if r == z3.sat else None
        else:
            self._last_model = self.solver.model() if r == z3.sat else None
        if r == z3.sat:
            self.sat += 1
        else:
            self.unsat += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time budget of the exploration exhausted")
        return r

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            self.model = self._last_model
        return self.model

    def _true_in_model(self, m, e):
        v = m.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ----------------------------------------------------------------- paths
    def explore(self, fn):
        """Enumerate every path of fn()."""
        global ENG
        ENG = self
        try:
            while True:
                self._begin_run()
                outcome = "ok"
                try:
                    fn()
                except PathInfeasible:
                    outcome = "cut"
                except PathStop:
                    outcome = "stop"
                finally:
                    for c in reversed(self.cleanups):
                        c()
                    self.cleanups = []
                if outcome == "cut":
                    self.cut += 1
                else:
                    self.paths += 1
                if self.paths + self.cut > self.max_paths:
                    raise Inconclusive("path bound exceeded")
                if not self._backtrack():
                    return
        finally:
            ENG = None

    def _begin_run(self):
        self.pos = 0
        self.names = {}
        self.inputs = {}
        self.err_vars = []
        self.on_begin()

    def on_begin(self):
        pass

    def _backtrack(self):
        while self.trail:
            kind, cond, value, alt, alt_model, pushed = self.trail[-1]
            if pushed:
                self.solver.pop()
            self.trail.pop()
            if kind == "b" and alt:
                nv = not value
                self.solver.push()
                self.solver.add(cond if nv else z3.Not(cond))
                self.trail.append(["b", cond, nv, False, None, True])
                self.model = alt_model
                return True
        self.model = None
        return False

    def branch(self, cond):
        """Truth value of a z3 boolean on this path (forks when both feasible)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] not in ("b", "f") or not same(ent[1], cond):
                raise Nondeterminism("replayed path diverged: %s vs %s" % (ent[1], cond))
            self.pos += 1
            return ent[2]
        self.branches += 1
        m = self.get_model()
        v = self._true_in_model(m, cond)
        if v is None:
            # model evaluation undecided (e.g. algebraic values): ask the solver
            self.solver.push()
            self.solver.add(cond)
            r = self._check()
            self.solver.pop()
            v = r == z3.sat
            if v:
                m = self._last_model
        other = z3.Not(cond) if v else cond
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        alt_model = self._last_model
        self.solver.pop()
        if r == z3.unsat:
            self.trail.append(["f", cond, v, False, None, False])
            self.pos += 1
            return v
        self.solver.push()
        self.solver.add(cond if v else z3.Not(cond))
        self.trail.append(["b", cond, v, True, alt_model, True])
        self.pos += 1
        self.model = m
        return v

    def pick(self, e):
        """A feasible value of the integer term e (recorded, so that it replays)."""
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != "k" or not same(ent[1], e):
                raise Nondeterminism("replayed path diverged at pick: %s vs %s" % (ent[1], e))
            self.pos += 1
            return ent[2]
        k = int(_num(self.get_model().eval(e, model_completion=True)))
        self.trail.append(["k", e, k, False, None, False])
        self.pos += 1
        return k

    def axiom(self, expr):
        """Constrain the path without a feasibility check (definitional axioms)."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != "a" or not same(ent[1], expr):
                raise Nondeterminism("replayed path diverged at axiom: %s vs %s" % (ent[1], expr))
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(expr)
        self.trail.append(["a", expr, None, False, None, True])
        self.pos += 1
        if self.model is not None and self._true_in_model(self.model, expr) is not True:
            self.model = None

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise PathInfeasible()
            return
        if not isinstance(expr, z3.ExprRef):
            expr = expr.e
        replaying = self.pos < len(self.trail)
        self.axiom(expr)
        if not replaying:
            self.get_model()  # raises PathInfeasible on unsat

    # ------------------------------------------------------------- variables
    def uname(self, name):
        """A name used once per run (deterministic order)."""
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    # ------------------------------------------------------------ obligation
    def check(self, cond, label, info=None):
        """The property: must hold for all values on this path."""
        self.cover(label)
        if self.pos < len(self.trail):
            return True  # decided by an earlier run that shares this prefix
        self.obligations += 1
        if isinstance(cond, bool):
            if cond:
                self.discharged += 1
                return True
            expr = z3.BoolVal(False)
        else:
            expr = z3.simplify(cond if isinstance(cond, z3.ExprRef) else cond.e)
        if z3.is_true(expr):
            self.discharged += 1
            return True
        self.solver.push()
        self.solver.add(z3.Not(expr))
        r = self._check()
        if r == z3.unsat:
            self.solver.pop()
            self.discharged += 1
            return True
        model = self._last_model
        models = [model]
        # nicer models first: no rounding error terms, dyadic / decimal inputs
        seen = sum(1 for v in self.violations if v.label == label)
        try:
            for extra in self._nice() if seen < 6 else ():
                self.solver.push()
                self.solver.add(*extra)
                try:
                    self.solver.set("timeout", 5000)
                    if self.solver.check() == z3.sat:
                        models.insert(0, self.solver.model())
                        break
                finally:
                    self.solver.set("timeout", self.timeout_ms)
                    self.solver.pop()
        finally:
            self.solver.pop()
        for m in models:
            vals = self.model_inputs(m)
            self.violations.append(Violation(label, vals, _show(info)))
        if self.on_violation is not None:
            self.on_violation(label, seen)
        if len(self.violations) >= 400:
            raise Inconclusive("too many candidate violations")
        raise PathStop()

    def _nice(self):
        zero = [e == 0 for e in self.err_vars]
        reals = [p for (k, p) in self.inputs.values() if k == "float"]
        if not reals:
            return
        for den in (1, 8, 100, 10000):
            ks = [z3.Int("nice!%d" % i) for i in range(len(reals))]
            yield zero + [r * den == z3.ToReal(k) for r, k in zip(reals, ks)]
        yield zero

    def model_inputs(self, m):
        out = {}
        for name, (kind, p) in self.inputs.items():
            if kind == "int":
                out[name] = _num(m.eval(p, model_completion=True))
            elif kind == "bool":
                out[name] = bool(z3.is_true(m.eval(p, model_completion=True)))
            elif kind == "float":
                out[name] = float(_num(m.eval(p, model_completion=True)))
            elif kind == "str":
                out[name] = "".join(
                    c if isinstance(c, str) else chr(_num(m.eval(c, model_completion=True))) for c in p
                )
            elif kind == "bytes":
                out[name] = [
                    c if isinstance(c, int) else _num(m.eval(c, model_completion=True)) for c in p
                ]
            else:
                out[name] = p
        return out

    def cover(self, label):
        self.covered[label] = self.covered.get(label, 0) + 1

    def sample(self, **kw):
        """Remember a concrete witness of this path (for the evidence file)."""
        if len(self.samples) < 6:
            try:
                m = self.get_model()
                self.samples.append({"inputs": _trim(self.model_inputs(m)), **{k: (v if type(v) in (str, int, bool) else _show(v)) for k, v in kw.items()}})
            except SymxControl:
                pass


def same(a, b):
    """Equal terms up to the order of arguments of commutative operators."""
    if a.eq(b):
        return True
    return _norm(a) == _norm(b)


def _norm(t):
    cs = [_norm(c) for c in t.children()]
    if z3.is_app(t) and t.decl().kind() in _COMM:
        cs.sort()
    return "(%s %s)" % (t.decl().name() if not t.num_args() == 0 else t.sexpr(), " ".join(cs))


_COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


def _trim(d):
    items = list(d.items())[:24]
    return {k: v for k, v in items}


def _num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return fractions.Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_bv_value(v):
        return v.as_long()
    raise Leak("cannot read model value %s" % v)


def _show(info):
    if info is None:
        return None
    try:
        return repr(info)[:2000]
    except BaseException:
        return "<symbolic>"
