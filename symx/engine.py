"""Symbolic execution engine: path exploration by re-execution.

A harness is a Python function ``h(ctx)`` that drives the real code.  In
symbolic mode ``ctx`` hands out proxy values backed by z3 terms; every branch
on a proxy asks the solver which sides are feasible and the explorer runs the
harness once per feasible path.  ``ctx.check(cond)`` becomes the solver query
``path condition and not cond``.
"""
from fractions import Fraction

from time import perf_counter as perf

from .z3imp import z3

CURRENT = None  # the active Engine (None: concrete execution)


class PathEnd(BaseException):
    """Ends the current path (assumption infeasible or limit reached)"""

    def __init__(self, *args):
        super().__init__(*args)
        # may be raised in any cothread: the others have to end as well
        if CURRENT is not None and CURRENT.pending_abort is None:
            CURRENT.pending_abort = self


class Limit(PathEnd):
    """A stated bound was exceeded on this path"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.branches = 0
        self.checks = 0
        self.trivial_checks = 0
        self.lossy = 0
        self.lossy_where = {}
        self.fork_values = 0

    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, dict):
                d = getattr(self, k)
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                setattr(self, k, getattr(self, k) + v)


class Engine:
    """One exploration of one harness"""

    def __init__(self, query_ms=20000, max_fork=70, stats=None):
        self.stats = stats or Stats()
        self.query_ms = query_ms
        self.max_fork = max_fork
        self.stack = []  # pending prefixes (lists of decisions)
        self.pending_abort = None

    # ---------------------------------------------------------------- a path
    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.pc = []
        self.vars = {}  # name -> (kind, z3 const, meta)
        self.model = None
        self.lossy = []
        self.inconclusive = []
        self.nfresh = 0
        self.pending_abort = None
        self.unsupported = None
        self.texts = {}
        self.opaque_hash = False

    def _query(self, *assumptions):
        t = perf()
        r = self.solver.check(*assumptions)
        dt = perf() - t
        if r == z3.unknown:
            # one retry with another strategy
            s = z3.Then("simplify", "solve-eqs", "smt").solver()
            s.set("timeout", self.query_ms)
            for a in self.pc:
                s.add(a)
            for a in assumptions:
                s.add(a)
            r = s.check()
            self.last_model = s.model() if r == z3.sat else None
        else:
            self.last_model = self.solver.model() if r == z3.sat else None
        st = self.stats
        st.queries += 1
        st.solver_time += perf() - t
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def assume(self, cond):
        """Constrain the path; ends it when nothing satisfies it"""
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd("assume(False)")
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.add(cond)
        if self.model is None:
            r = self._query()
            if r == z3.unsat:
                raise PathEnd("assumption infeasible")
            if r == z3.sat:
                self.model = self.last_model

    def ensure_model(self):
        if self.model is None:
            r = self._query()
            if r == z3.sat:
                self.model = self.last_model
            elif r == z3.unsat:
                raise PathEnd("infeasible path")
            else:
                self.inconclusive.append("path condition unknown")
                raise Limit("solver unknown on a path condition")
        return self.model

    def branch(self, cond):
        if self.pending_abort is not None:
            raise self.pending_abort
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            assert kind == "b", "non-deterministic re-execution"
            self.pos += 1
            self.decisions.append((kind, val))
            self.add(cond if val else z3.Not(cond))
            return val
        self.stats.branches += 1
        self.ensure_model()
        mv = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if mv else cond
        r = self._query(other)
        if r != z3.unsat:
            if r == z3.unknown:
                self.inconclusive.append("branch feasibility unknown")
            self.stack.append(self.decisions + [("b", not mv)])
            self.decisions.append(("b", mv))
            self.pos += 1
            self.prefix = self.decisions
            self.add(cond if mv else z3.Not(cond))
        # else: cond is implied, no decision recorded - but keep replay in
        # step: implied branches must also be recorded so that the prefix
        # positions agree on re-execution
        else:
            self.decisions.append(("b", mv))
            self.pos += 1
            self.prefix = self.decisions
        return mv

    def concretize_int(self, e, why="index"):
        """Fork over every feasible value of an integer term"""
        if self.pending_abort is not None:
            raise self.pending_abort
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                assert kind in ("v", "n"), "non-deterministic re-execution"
                self.pos += 1
                self.decisions.append((kind, val))
                if kind == "v":
                    self.add(e == val)
                    return val
                self.add(e != val)
                n += 1
                continue
            self.ensure_model()
            v = self.model.eval(e, model_completion=True)
            val = v.as_long()
            r = self._query(e != val)
            if r != z3.unsat:
                if n >= self.max_fork:
                    self.lossy.append(f"fork over >{self.max_fork} values: {why}")
                else:
                    self.stack.append(self.decisions + [("n", val)])
            self.stats.fork_values += 1
            self.decisions.append(("v", val))
            self.pos += 1
            self.prefix = self.decisions
            self.add(e == val)
            return val

    def concretize_real(self, e, why):
        """No complete fork is possible: take one value and say so"""
        e = z3.simplify(e)
        f = as_fraction(e)
        if f is not None:
            return f
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            assert kind == "r"
            self.pos += 1
            self.decisions.append((kind, val))
        else:
            self.ensure_model()
            val = as_fraction(self.model.eval(e, model_completion=True))
            if val is None:
                val = Fraction(0)
            self.decisions.append(("r", val))
            self.pos += 1
            self.prefix = self.decisions
        self.lossy.append(f"real concretised: {why}")
        import traceback
        for fr in reversed(traceback.extract_stack(limit=14)):
            if "/symx/" not in fr.filename:
                w = f"{fr.filename}:{fr.lineno}"
                self.stats.lossy_where[w] = self.stats.lossy_where.get(w, 0) + 1
                break
        self.add(e == z3.RealVal(str(val)))
        return val

    # ------------------------------------------------------------- the models
    def nice_model(self, extra=()):
        """A model of the path condition whose reals are short binary
        fractions where possible, so that floats represent them exactly"""
        base = list(extra)
        r = self._query(*base)
        if r != z3.sat:
            return None
        m = self.last_model
        reals = [(n, c) for n, (k, c, _) in self.vars.items() if k == "real"]
        fixed = []
        for n, c in reals:
            val = as_fraction(m.eval(c, model_completion=True))
            if val is None:
                val = Fraction(0)
            cands = []
            for d in (1, 8, 1024, 2 ** 20):
                q = Fraction(round(val * d), d)
                if q not in cands:
                    cands.append(q)
            for q in cands:
                f = c == z3.RealVal(str(q))
                if q == val or self._query(*(base + fixed + [f])) == z3.sat:
                    fixed.append(f)
                    if q != val:
                        m = self.last_model
                    break
            else:
                fixed.append(c == z3.RealVal(str(val)))
        if fixed:
            if self._query(*(base + fixed)) == z3.sat:
                m = self.last_model
        return m

    def assignment(self, m):
        out = {}
        for n, (k, c, meta) in self.vars.items():
            v = m.eval(c, model_completion=True)
            if k == "int" or k == "grid":
                out[n] = v.as_long()
            elif k == "bool":
                out[n] = z3.is_true(v)
            elif k == "real":
                f = as_fraction(v)
                out[n] = [f.numerator, f.denominator] if f is not None else [0, 1]
            elif k == "bv":
                out[n] = v.as_signed_long()
        return out


def as_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
