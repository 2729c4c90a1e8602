"""The harness-facing context, in a symbolic and a concrete flavour."""
from fractions import Fraction

from . import engine as E
from . import values as V
from .z3imp import z3

And, Or, Not, Implies, ite = V.And, V.Or, V.Not, V.Implies, V.ite


class CheckFailed(Exception):
    pass


class Base:
    symbolic = False
    And = staticmethod(V.And)
    Or = staticmethod(V.Or)
    Not = staticmethod(V.Not)
    Implies = staticmethod(V.Implies)
    ite = staticmethod(V.ite)

    def __init__(self, params=None):
        self.params = params or {}
        self.covered = set()

    def choice(self, name, options):
        """One of a list of concrete options, picked by a solver variable"""
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def settle(self):
        """Run every other cothread until it blocks"""
        import cothread

        cothread.Yield(None)

    def advance(self, dt):
        """Let virtual time pass"""
        import cothread

        cothread.Sleep(dt)

    def symbolic_arrays(self):
        """np.zeros and friends give arrays that can hold symbolic numbers"""
        if self.symbolic:
            from . import rewrite

            rewrite.SYMBOLIC_ARRAYS[0] = True

    def opaque_hash(self):
        """Symbolic numbers may be parts of dictionary keys whose other parts differ"""
        if self.symbolic:
            E.CURRENT.opaque_hash = True

    def cover(self, label):
        self.covered.add(label)

    def eq(self, a, b):
        """Structural equality of values that may hold symbolic numbers"""
        return struct_eq(a, b, 0.0)

    def close(self, a, b, tol=1e-6):
        return struct_eq(a, b, tol)


def struct_eq(a, b, tol):
    import numpy as np
    from collections.abc import Mapping, Sequence

    ta, tb = V.to_term(a), V.to_term(b)
    if ta is not None and tb is not None:
        if tol:
            d = a - b
            if isinstance(d, np.generic):
                d = d.item()
            return V.And(d <= tol, d >= -tol)
        return a == b
    if (ta is None) != (tb is None):
        # numbers that are inf/nan have no term
        return a == b
    if isinstance(a, Mapping) and isinstance(b, Mapping):
        if list(a) != list(b) and set(a) != set(b):
            return False
        return V.And(*[struct_eq(a[k], b[k], tol) for k in a])
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    if isinstance(a, (Sequence, np.ndarray)) and isinstance(b, (Sequence, np.ndarray)):
        if len(a) != len(b):
            return False
        return V.And(*[struct_eq(x, y, tol) for x, y in zip(a, b)])
    return a == b


class SymCtx(Base):
    symbolic = True

    def __init__(self, en, params=None):
        super().__init__(params)
        self.en = en
        self.failures = []  # (label, detail, z3 negated condition)
        self.observed = []
        self.nchecks = 0
        self.on_fail = None

    def int(self, name, lo, hi):
        c = z3.Int(name)
        self.en.vars[name] = ("int", c, (lo, hi))
        if lo is not None:
            self.en.add(c >= lo)
        if hi is not None:
            self.en.add(c <= hi)
        return V.SymInt(c)

    def bits(self, name, lo, hi):
        """An integer as a bit vector: for code that packs bits"""
        c = z3.BitVec(name, V._W)
        self.en.vars[name] = ("bv", c, None)
        self.en.add(z3.And(c >= lo, c <= hi))
        return V.SymBV(c, max(lo.bit_length(), hi.bit_length()) + 1)

    def real(self, name, lo=None, hi=None):
        c = z3.Real(name)
        self.en.vars[name] = ("real", c, (lo, hi))
        if lo is not None:
            self.en.add(c >= V.frac_term(lo))
        if hi is not None:
            self.en.add(c <= V.frac_term(hi))
        return V.SymReal(c)

    def bool(self, name):
        c = z3.Bool(name)
        self.en.vars[name] = ("bool", c, None)
        return V.SymBool(c)

    def assume(self, cond):
        self.en.assume(V.b_term(cond) if V.is_sym(cond) else bool(cond))

    def check(self, cond, label, detail=""):
        en = self.en
        self.nchecks += 1
        if not V.is_sym(cond):
            en.stats.trivial_checks += 1
            if not cond:
                # Only a violation when the path itself is feasible
                r = en._query()
                if r == z3.sat:
                    self.fail(label, detail, [])
                elif r == z3.unknown:
                    en.inconclusive.append(f"check {label}: path unknown")
                raise E.PathEnd("check failed")
            return
        t = z3.simplify(V.b_term(cond))
        en.stats.checks += 1
        if z3.is_true(t):
            return
        r = en._query(z3.Not(t))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            en.inconclusive.append(f"check {label}: unknown")
            return
        self.fail(label, detail, [z3.Not(t)])
        self.en.assume(t)

    def fail(self, label, detail, extra):
        """A counterexample: replayed at once on the unmodified code"""
        if self.en.unsupported is not None:
            raise E.PathEnd("after an operation outside the encoding")
        self.failures.append(label)
        if self.on_fail is not None and self.on_fail(self, label, str(detail), extra):
            raise E.PathEnd("check failed")

    def grid(self, name, lo, hi, den=1024):
        """A real on the grid 1/den: floats represent every value exactly"""
        c = z3.Int(name)
        self.en.vars[name] = ("grid", c, den)
        self.en.add(c >= int(lo * den))
        self.en.add(c <= int(hi * den))
        return V.SymReal(z3.ToReal(c) / den)

    def observe(self, name, value):
        self.observed.append((name, value))

    def eval(self, m, v):
        import numpy as np
        from collections.abc import Mapping, Sequence

        if V.is_sym(v):
            x = m.eval(v._e, model_completion=True)
            if v._k == "bool":
                return z3.is_true(x)
            f = E.as_fraction(x)
            if f is None:
                return None
            return int(f) if v._k == "int" else float(f)
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, (np.ndarray,)):
            return [self.eval(m, x) for x in v]
        if isinstance(v, Mapping):
            return {str(k): self.eval(m, v[k]) for k in v}
        if isinstance(v, (list, tuple)):
            return [self.eval(m, x) for x in v]
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, Sequence):
            return [self.eval(m, x) for x in v]
        return str(v)


class ConcreteCtx(Base):
    def __init__(self, values, params=None):
        super().__init__(params)
        self.values = values
        self.failures = []
        self.observed = []
        self.missing = []
        self.nchecks = 0

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def int(self, name, lo, hi):
        return int(self._get(name, lo if lo is not None else 0))

    def bits(self, name, lo, hi):
        return int(self._get(name, lo))

    def real(self, name, lo=None, hi=None):
        v = self._get(name, [lo or 0, 1])
        return float(Fraction(v[0]) / Fraction(v[1]))

    def grid(self, name, lo, hi, den=1024):
        return self._get(name, int(lo * den)) / den

    def bool(self, name):
        return bool(self._get(name, False))

    def assume(self, cond):
        if not cond:
            raise E.PathEnd("assume")

    def check(self, cond, label, detail=""):
        self.nchecks += 1
        if not cond:
            self.failures.append((label, str(detail)))
            raise E.PathEnd("check failed")

    def observe(self, name, value):
        self.observed.append((name, value))

    def plain(self, v):
        import numpy as np
        from collections.abc import Mapping, Sequence

        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, np.ndarray):
            return [self.plain(x) for x in v]
        if isinstance(v, Mapping):
            return {str(k): self.plain(v[k]) for k in v}
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, (list, tuple, Sequence)):
            return [self.plain(x) for x in v]
        return str(v)
