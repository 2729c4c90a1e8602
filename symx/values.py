"""Symbolic proxy values.

SymBool / SymInt / SymReal wrap z3 terms.  They answer ``isinstance`` like
bool / int / float.  Anything that needs a machine value forks over every
feasible value (ints, bools) or takes one value and records the loss (reals).
"""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import engine as E
from .z3imp import z3


class Unsupported(Exception):
    """The encoding does not cover this operation"""

    def __init__(self, *args):
        super().__init__(*args)
        # the code under test may swallow it: remember
        if E.CURRENT is not None and E.CURRENT.unsupported is None:
            E.CURRENT.unsupported = self


def eng():
    e = E.CURRENT
    if e is None:
        raise RuntimeError("symbolic value used outside exploration")
    return e


def is_sym(x):
    return isinstance_sym(x)


def isinstance_sym(x):
    return type(x) in _SYM


def with_attributes(x):
    """The same symbolic number, as an object that can have attributes"""
    global _SYM
    t = type(x)
    if t not in _ATTRS:
        _ATTRS[t] = type(t.__name__ + "Attrs", (t,), {})
        _SYM = _SYM | {_ATTRS[t]}
    return _ATTRS[t](x._e)


_ATTRS = {}


def frac_term(f):
    f = Fraction(f)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def to_term(x):
    """(kind, term) of a concrete or symbolic number; None when not a number"""
    t = type(x)
    if t in _SYM:
        return x._k, x._e
    if t is bool or t is np.bool_:
        return "bool", z3.BoolVal(bool(x))
    if t is int or isinstance(x, np.integer):
        return "int", z3.IntVal(int(x))
    if t is float or isinstance(x, np.floating):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return None
        return "real", frac_term(f)
    if t is Fraction:
        return "real", frac_term(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_term(x.item())
    return None


def as_int_term(k, e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if k == "bool" else e


def as_real_term(k, e):
    if k == "real":
        return e
    return z3.ToReal(as_int_term(k, e))


def mk(k, e):
    if k == "bool":
        return SymBool(e)
    if k == "int":
        return SymInt(e)
    return SymReal(e)


def _arr(op, a, b, swap):
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape):
        x = b[i]
        if isinstance(x, np.generic):
            x = x.item()
        out[i] = op(x, a) if swap else op(a, x)
    return out


def arith(name, a, b):
    """a <op> b for symbolic/concrete scalars"""
    if type(a) is SymBV or type(b) is SymBV or (
        name in ("and", "or", "xor", "lshift")
        and (type(a) is SymBool) != (type(b) is SymBool)
        and not isinstance(b if type(a) is SymBool else a, (bool, np.bool_))
    ):
        r = bv_arith(name, a, b)
        if r is not None:
            return r
    ta, tb = to_term(a), to_term(b)
    if ta is None or tb is None:
        return NotImplemented
    (ka, ea), (kb, eb) = ta, tb
    if name in ("add", "sub", "mul"):
        if ka == "real" or kb == "real":
            ea, eb = as_real_term(ka, ea), as_real_term(kb, eb)
            k = "real"
        else:
            ea, eb = as_int_term(ka, ea), as_int_term(kb, eb)
            k = "int"
        e = ea + eb if name == "add" else ea - eb if name == "sub" else ea * eb
        return mk(k, e)
    if name == "truediv":
        ea, eb = as_real_term(ka, ea), as_real_term(kb, eb)
        npish = isinstance(a, np.generic) or isinstance(b, np.generic)
        if eng().branch(eb == 0):
            if npish:
                raise Unsupported("numpy division by zero")
            raise ZeroDivisionError("float division by zero")
        return mk("real", ea / eb)
    if name in ("floordiv", "mod"):
        real = ka == "real" or kb == "real"
        if real:
            ea, eb = as_real_term(ka, ea), as_real_term(kb, eb)
        else:
            ea, eb = as_int_term(ka, ea), as_int_term(kb, eb)
        if eng().branch(eb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if real:
            q = z3.ToInt(ea / eb)  # floor
            return mk("real", z3.ToReal(q) if name == "floordiv" else ea - eb * q)
        # z3 div/mod are Euclidean: equal to Python's for a positive divisor
        if eng().branch(eb > 0):
            q, r = ea / eb, ea % eb
        else:
            q, r = (-ea) / (-eb), -((-ea) % (-eb))
        return mk("int", q if name == "floordiv" else r)
    if name == "pow":
        if not is_sym(b) and float(b) == int(b) and 0 <= int(b) <= 6:
            k = ka if ka == "real" else "int"
            ea = as_int_term(ka, ea) if k == "int" else ea
            out = z3.IntVal(1) if k == "int" else z3.RealVal(1)
            for _ in range(int(b)):
                out = out * ea
            if isinstance(b, (float, np.floating)) and k == "int":
                return mk("real", z3.ToReal(out))
            return mk(k, out)
        if not is_sym(b) and float(b) == 0.5:
            return sym_sqrt(mk(ka, ea))
        if not is_sym(a) and kb == "int":
            n = eng().concretize_int(eb, "exponent")
            return a ** n
        return NotImplemented
    if name in ("lshift", "rshift"):
        if ka == "real" or kb == "real":
            return NotImplemented
        n = b if not is_sym(b) else eng().concretize_int(as_int_term(kb, eb), "shift")
        n = int(n)
        ea = as_int_term(ka, ea)
        if n < 0:
            raise ValueError("negative shift count")
        p = z3.IntVal(2 ** n)
        return mk("int", ea * p if name == "lshift" else ea / p)
    if name in ("and", "or", "xor"):
        if ka == "real" or kb == "real":
            return NotImplemented
        if ka == "bool" and kb == "bool":
            f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[name]
            return mk("bool", f(ea, eb))
        return bitop(name, as_int_term(ka, ea), as_int_term(kb, eb))
    raise Unsupported(name)


def bitop(name, ea, eb):
    ea, eb = z3.simplify(ea), z3.simplify(eb)
    if z3.is_int_value(ea):
        ea, eb = eb, ea
    if z3.is_int_value(eb):
        m = eb.as_long()
        if m == 0:
            return mk("int", z3.IntVal(0) if name == "and" else ea)
        if m < 0:
            # and with ~x : a - (a & x)
            if name == "and":
                inv = ~m
                r = bitop("and", ea, z3.IntVal(inv))
                return mk("int", ea - _t(r))
            raise Unsupported("bit operation with negative constant")
        # split the mask into contiguous runs of ones
        total = z3.IntVal(0)
        bit = 0
        mm = m
        while mm:
            if mm & 1:
                lo = bit
                while mm & 1:
                    mm >>= 1
                    bit += 1
                total = total + ((ea / (2 ** lo)) % (2 ** (bit - lo))) * (2 ** lo)
            else:
                mm >>= 1
                bit += 1
        if name == "and":
            return mk("int", total)
        if name == "or":
            return mk("int", ea + m - total)
        return mk("int", ea + m - 2 * total)
    ma, mb = maybe_bits(ea), maybe_bits(eb)
    if ma is not None and mb is not None and not ma & mb:
        return mk("int", z3.IntVal(0) if name == "and" else ea + eb)
    # both symbolic: 64-bit bit-vectors, inputs constrained to fit
    en = eng()
    if en.branch(z3.And(ea >= 0, ea < 2 ** 64, eb >= 0, eb < 2 ** 64)):
        a, b = z3.Int2BV(ea, 64), z3.Int2BV(eb, 64)
        r = a & b if name == "and" else a | b if name == "or" else a ^ b
        return mk("int", z3.BV2Int(r))
    raise Unsupported("bit operation outside 64 bits")


def maybe_bits(e, depth=12):
    """Mask of the bits that can be one in a (non-negative) integer term, or
    None when nothing is known"""
    if z3.is_int_value(e):
        v = e.as_long()
        return v if v >= 0 else None
    if depth == 0 or not z3.is_app(e):
        return None
    k = e.decl().kind()
    cs = e.children()

    def pw(c):
        if z3.is_int_value(c):
            v = c.as_long()
            if v > 0 and v & (v - 1) == 0:
                return v.bit_length() - 1
        return None

    if k == z3.Z3_OP_MOD:
        n = pw(cs[1])
        if n is None:
            return None
        m = maybe_bits(cs[0], depth - 1)
        return (2 ** n - 1) if m is None else m & (2 ** n - 1)
    if k == z3.Z3_OP_IDIV:
        n = pw(cs[1])
        m = maybe_bits(cs[0], depth - 1)
        return None if n is None or m is None else m >> n
    if k == z3.Z3_OP_MUL and len(cs) == 2:
        for a, b in (cs, cs[::-1]):
            n = pw(a)
            if n is not None:
                m = maybe_bits(b, depth - 1)
                return None if m is None else m << n
        return None
    if k == z3.Z3_OP_ADD:
        t = 0
        for c in cs:
            m = maybe_bits(c, depth - 1)
            if m is None or m & t:
                return None
            t |= m
        return t
    if k == z3.Z3_OP_ITE:
        a, b = maybe_bits(cs[1], depth - 1), maybe_bits(cs[2], depth - 1)
        return None if a is None or b is None else a | b
    return None


def _t(x):
    return to_term(x)[1]


def sym_sqrt(x):
    k, e = to_term(x)
    e = as_real_term(k, e)
    f = E.as_fraction(z3.simplify(e))
    if f is not None:
        if f < 0:
            raise ValueError("math domain error")
        return math.sqrt(float(f))
    en = eng()
    if en.branch(e < 0):
        raise ValueError("math domain error")
    r = z3.Real(f"sqrt!{en.nfresh}")
    en.nfresh += 1
    en.add(z3.And(r >= 0, r * r == e))
    return mk("real", r)


def compare(name, a, b):
    if type(a) is SymBV or type(b) is SymBV:
        r = bv_compare(name, a, b)
        if r is not None:
            return r
    ta, tb = to_term(a), to_term(b)
    if ta is None or tb is None:
        if isinstance(b, float) and math.isinf(b):
            if name == "eq":
                return False
            if name == "ne":
                return True
            return (name in ("lt", "le")) == (b > 0)
        if isinstance(b, float) and math.isnan(b):
            return name == "ne"
        if name == "eq":
            return NotImplemented
        if name == "ne":
            return NotImplemented
        return NotImplemented
    (ka, ea), (kb, eb) = ta, tb
    if ka == "bool" and kb == "bool" and name in ("eq", "ne"):
        return mk("bool", ea == eb if name == "eq" else ea != eb)
    if ka == "real" or kb == "real":
        ea, eb = as_real_term(ka, ea), as_real_term(kb, eb)
    else:
        ea, eb = as_int_term(ka, ea), as_int_term(kb, eb)
    e = {
        "eq": lambda: ea == eb,
        "ne": lambda: ea != eb,
        "lt": lambda: ea < eb,
        "le": lambda: ea <= eb,
        "gt": lambda: ea > eb,
        "ge": lambda: ea >= eb,
    }[name]()
    return mk("bool", e)


def _binop(name, r=False):
    def f(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            g = _FN[name]
            return _arr(g, self, other, r)
        return arith(name, other, self) if r else arith(name, self, other)

    return f


def _cmpop(name):
    def f(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            return _arr(_CMPFN[name], self, other, False)
        return compare(name, self, other)

    return f


import operator as _op

_FN = {
    "add": _op.add, "sub": _op.sub, "mul": _op.mul, "truediv": _op.truediv,
    "floordiv": _op.floordiv, "mod": _op.mod, "pow": _op.pow,
    "lshift": _op.lshift, "rshift": _op.rshift, "and": _op.and_, "or": _op.or_,
    "xor": _op.xor,
}
_CMPFN = {n: getattr(_op, n) for n in ("eq", "ne", "lt", "le", "gt", "ge")}


class Sym:
    __slots__ = ("_e", "_np")
    _k = None
    __array_ufunc__ = None  # numpy defers to our reflected operators

    def __init__(self, e):
        self._e = e

    def __bool__(self):
        raise NotImplementedError

    def __repr__(self):
        return text_of(self)

    def __str__(self):
        return text_of(self)

    def __format__(self, spec):
        return text_of(self)

    def __hash__(self):
        if E.CURRENT is not None and E.CURRENT.opaque_hash:
            return 1
        return hash(self.__concrete__("hash"))

    def __neg__(self):
        return arith("sub", 0, self)

    def __pos__(self):
        return arith("add", 0, self)

    def __abs__(self):
        k, e = self._k, self._e
        e = as_int_term(k, e)
        return mk("real" if k == "real" else "int", z3.If(e >= 0, e, -e))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    # numpy scalar look-alikes
    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lshift",
           "rshift", "and", "or", "xor"):
    setattr(Sym, f"__{_n}__", _binop(_n))
    setattr(Sym, f"__r{_n}__", _binop(_n, True))
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(Sym, f"__{_n}__", _cmpop(_n))


class SymBool(Sym):
    __slots__ = ()
    _k = "bool"

    @property
    def __class__(self):
        return bool

    def __concrete__(self, why):
        return eng().branch(self._e)

    def __bool__(self):
        return eng().branch(self._e)

    def __invert__(self):
        return SymBool(z3.Not(self._e))

    def __index__(self):
        return int(eng().branch(self._e))

    __int__ = __index__

    def __float__(self):
        return float(eng().branch(self._e))


class SymInt(Sym):
    __slots__ = ()
    _k = "int"

    @property
    def __class__(self):
        return int

    def __concrete__(self, why):
        return eng().concretize_int(self._e, why)

    def __bool__(self):
        return eng().branch(self._e != 0)

    def __index__(self):
        return eng().concretize_int(self._e, "index")

    def __int__(self):
        return eng().concretize_int(self._e, "int()")

    def __float__(self):
        return float(eng().concretize_int(self._e, "float()"))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __invert__(self):
        return SymInt(-self._e - 1)

    def bit_length(self):
        return int(self).bit_length()

    def astype(self, t):
        return cast_np(t, self)

    def is_integer(self):
        return True


class SymReal(Sym):
    __slots__ = ()
    _k = "real"

    @property
    def __class__(self):
        return float

    def __concrete__(self, why):
        return float(eng().concretize_real(self._e, why))

    def __bool__(self):
        return eng().branch(self._e != 0)

    def __int__(self):
        return int(sym_int(self))

    def __float__(self):
        return float(eng().concretize_real(self._e, "float()"))

    def __round__(self, n=None):
        if n is None:
            return sym_round(self)
        p = 10 ** n
        return SymReal(z3.ToReal(sym_round(self * p)._e) / p)

    def __floor__(self):
        return SymInt(z3.ToInt(self._e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self._e))

    def __trunc__(self):
        return sym_int(self)

    def is_integer(self):
        return SymBool(z3.IsInt(self._e))

    def astype(self, t):
        return cast_np(t, self)


_W = 128


class SymBV(SymInt):
    """An integer held as a 128 bit two's complement vector; _n bits suffice"""

    __slots__ = ("_bv", "_n", "_i")

    def __init__(self, bv, n):
        self._bv = bv
        self._n = n
        self._i = None

    @property
    def _e(self):
        if self._i is None:
            self._i = z3.BV2Int(self._bv, is_signed=True)
        return self._i

    def __concrete__(self, why):
        return eng().concretize_int(self._e, why)

    def __bool__(self):
        return eng().branch(self._bv != 0)

    def __invert__(self):
        return SymBV(~self._bv, self._n)

    def __neg__(self):
        return bv_arith("sub", 0, self)

    def __abs__(self):
        return SymBV(z3.If(self._bv < 0, -self._bv, self._bv), self._n + 1)


def bv_of(x):
    """(vector, bits) of a value that has one"""
    t = type(x)
    if t is SymBV:
        return x._bv, x._n
    if t is SymBool:
        return z3.If(x._e, z3.BitVecVal(1, _W), z3.BitVecVal(0, _W)), 2
    if t in (int, bool, np.bool_) or isinstance(x, np.integer):
        v = int(x)
        n = v.bit_length() + 1
        if n < 120:
            return z3.BitVecVal(v, _W), n
    return None


def bv_wrap(x, bits, signed):
    if signed:
        if x._n <= bits:
            return x
        return SymBV(z3.SignExt(_W - bits, z3.Extract(bits - 1, 0, x._bv)), bits)
    return SymBV(z3.ZeroExt(_W - bits, z3.Extract(bits - 1, 0, x._bv)), bits + 1)


def _pow2(x):
    if type(x) in (int,) or isinstance(x, np.integer):
        v = int(x)
        if v > 0 and v & (v - 1) == 0:
            return v.bit_length() - 1
    return None


def bv_arith(name, a, b):
    if name in ("lshift", "rshift"):
        if type(a) is SymBool:
            a = SymBV(*bv_of(a))
        if type(a) is not SymBV or is_sym(b):
            return None
        n = int(b)
        if n < 0:
            raise ValueError("negative shift count")
        if name == "rshift":
            return SymBV(a._bv >> min(n, _W - 1), max(a._n - n, 1))
        if a._n + n > 120:
            return None
        return SymBV(a._bv << n, a._n + n)
    if name in ("mod", "floordiv"):
        k = _pow2(b)
        if k is None or type(a) is not SymBV or k > 100:
            return None
        if name == "floordiv":
            return SymBV(a._bv >> k, max(a._n - k, 1))
        return SymBV(a._bv & (2 ** k - 1), k + 1)
    x, y = bv_of(a), bv_of(b)
    if x is None or y is None:
        return None
    (xa, na), (xb, nb) = x, y
    if name == "and":
        n = max(na, nb)
        for v, m in ((a, na), (b, nb)):
            if not is_sym(v) and int(v) >= 0:
                n = min(n, m)
        return SymBV(xa & xb, n)
    if name in ("or", "xor"):
        return SymBV(xa | xb if name == "or" else xa ^ xb, max(na, nb))
    if name in ("add", "sub") and max(na, nb) < 119:
        return SymBV(xa + xb if name == "add" else xa - xb, max(na, nb) + 1)
    if name == "mul" and na + nb < 119 and (not is_sym(a) or not is_sym(b)):
        return SymBV(xa * xb, na + nb)
    return None


def bv_compare(name, a, b):
    x, y = bv_of(a), bv_of(b)
    if x is None or y is None:
        return None
    p, q = x[0], y[0]
    return SymBool({
        "eq": lambda: p == q, "ne": lambda: p != q, "lt": lambda: p < q,
        "le": lambda: p <= q, "gt": lambda: p > q, "ge": lambda: p >= q}[name]())


_SYM = frozenset([SymBool, SymInt, SymReal, SymBV])


def sym_int(x):
    if type(x) is SymBV:
        return x
    k, e = to_term(x)
    if k == "real":
        fl = z3.ToInt(e)
        return SymInt(z3.If(e >= 0, fl, -z3.ToInt(-e)))
    return SymInt(as_int_term(k, e))


def sym_float(x):
    k, e = to_term(x)
    return SymReal(as_real_term(k, e))


def sym_round(x):
    """Python 3 round(): half to even"""
    k, e = to_term(x)
    if k != "real":
        return SymInt(as_int_term(k, e))
    fl = z3.ToInt(e)
    d = e - fl
    half = z3.RealVal("1/2")
    return SymInt(
        z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    )


_NPINT = {
    np.int8: (8, True), np.int16: (16, True), np.int32: (32, True),
    np.int64: (64, True), np.uint8: (8, False), np.uint16: (16, False),
    np.uint32: (32, False), np.uint64: (64, False),
}


def wrap_int(e, bits, signed):
    m = 2 ** bits
    if signed:
        return (e + m // 2) % m - m // 2
    return e % m


def cast_np(t, x):
    """numpy scalar constructor on a symbolic value (numpy 1.26 semantics)"""
    if isinstance(t, np.dtype):
        t = t.type
    if isinstance(t, str):
        t = np.dtype(t).type
    r = _cast_np(t, x)
    if isinstance(t, type) and issubclass(t, np.generic) and type(r) in (
            SymInt, SymReal, SymBV):
        r = SymBV(r._bv, r._n) if type(r) is SymBV else type(r)(r._e)
        r._np = t
    return r


def _cast_np(t, x):
    if t in (bool, np.bool_):
        k, e = to_term(x)
        return x if k == "bool" else SymBool(e != 0)
    if t in (float, np.float64, np.float32):
        # float32 rounding is not modelled (reals)
        return sym_float(x)
    if t is int:
        t = np.int64
    if t in _NPINT:
        bits, signed = _NPINT[t]
        if type(x) is SymBool:
            return SymBV(*bv_of(x))
        if type(x) is SymBV and (bits < 64 or x._n <= 64):
            return bv_wrap(x, bits, signed)
        y = sym_int(x)
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1)) if signed else (0, 2 ** bits)
        en = eng()
        if en.branch(z3.And(y._e >= lo, y._e < hi)):
            return y
        if bits == 64 and en.branch(z3.Or(y._e < -(2 ** 63), y._e >= 2 ** 64)):
            raise OverflowError("Python int too large to convert to C long")
        return SymInt(wrap_int(y._e, bits, signed))
    raise Unsupported(f"cast to {t}")


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)

_TEXT_L, _TEXT_R = "\u27e6", "\u27e7"


def text_of(x):
    """An opaque text standing for the decimal form of a symbolic value"""
    en = E.CURRENT
    f = E.as_fraction(z3.simplify(x._e)) if x._k != "bool" else None
    if f is not None:
        return str(int(f)) if x._k == "int" else str(float(f))
    if en is None:
        return f"{_TEXT_L}{x._e}{_TEXT_R}"
    for key, y in en.texts.items():
        if y._k == x._k and y._e.eq(x._e):
            return key
    key = f"{_TEXT_L}{x._k}{len(en.texts)}{_TEXT_R}"
    en.texts[key] = x
    return key


def from_text(s):
    en = E.CURRENT
    if en is not None and isinstance(s, str) and _TEXT_L in s:
        return en.texts.get(s.strip())
    return None


def has_sym(x, depth=3):
    t = type(x)
    if t in _SYM:
        return True
    if depth and t in (list, tuple, set):
        return any(has_sym(y, depth - 1) for y in x)
    if t is SymArr or t is np.ndarray and x.dtype == object:
        return any(has_sym(y, 0) for y in x.flat)
    return False


def ite(c, a, b):
    """if-then-else without forking"""
    if isinstance(c, (bool, np.bool_)) and type(c) is not SymBool:
        return a if c else b
    if type(a) is SymBV or type(b) is SymBV:
        x, y = bv_of(a), bv_of(b)
        if x is not None and y is not None:
            return SymBV(z3.If(c._e, x[0], y[0]), max(x[1], y[1]))
    (ka, ea), (kb, eb) = to_term(a), to_term(b)
    if ka == "real" or kb == "real":
        return SymReal(z3.If(c._e, as_real_term(ka, ea), as_real_term(kb, eb)))
    if ka == "bool" and kb == "bool":
        return SymBool(z3.If(c._e, ea, eb))
    return SymInt(z3.If(c._e, as_int_term(ka, ea), as_int_term(kb, eb)))


def b_term(c):
    if type(c) in _SYM:
        return c._e if c._k == "bool" else c._e != 0
    return z3.BoolVal(bool(c))


def And(*cs):
    if any(is_sym(c) for c in cs):
        return SymBool(z3.And([b_term(c) for c in cs]))
    return all(cs)


def Or(*cs):
    if any(is_sym(c) for c in cs):
        return SymBool(z3.Or([b_term(c) for c in cs]))
    return any(cs)


def Not(c):
    if is_sym(c):
        return SymBool(z3.Not(b_term(c)))
    return not c


def Implies(a, b):
    return Or(Not(a), b)


class SymArr(np.ndarray):
    """An object array of symbolic values that claims a numeric dtype"""

    def __array_finalize__(self, obj):
        self._claim = getattr(obj, "_claim", None)

    @property
    def dtype(self):
        c = getattr(self, "_claim", None)
        return c if c is not None else np.dtype(object)

    def astype(self, t, *a, **k):
        return claim(
            np.array([cast_np(t, x) if is_sym(x) else np.dtype(t).type(x).item()
                      for x in self.flat] + [None], dtype=object)[:-1].reshape(self.shape),
            t)

    def tolist(self):
        return [x for x in np.ndarray.view(self, np.ndarray)]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        claims = [getattr(x, "dtype", None) for x in inputs]
        plain = [
            np.ndarray.view(x, np.ndarray) if isinstance(x, SymArr) else x
            for x in inputs
        ]
        args = dict(kw)
        outs = None
        if out is not None:
            outs = tuple(
                np.ndarray.view(o, np.ndarray) if isinstance(o, SymArr) else o
                for o in out
            )
        if method == "__call__" and ufunc in _INT_UFUNCS and all(
            c is None or c.kind in "biu" for c in claims
        ):
            # integer arithmetic in the dtype numpy would use
            try:
                probe = [
                    np.zeros(1, c) if isinstance(x, SymArr) else x
                    for x, c in zip(inputs, claims)
                ]
                dt = np.result_type(*probe)
            except TypeError:
                dt = None
            if dt is not None:
                if ufunc in (np.left_shift, np.right_shift) and dt.kind in "iu":
                    n = plain[1]
                    bits = dt.itemsize * 8
                    if isinstance(n, (int, np.integer)) and not is_sym(n) and n >= bits:
                        if ufunc is np.left_shift:
                            res = plain[0] * 0
                        else:
                            res = plain[0] >> (bits - 1)
                    else:
                        res = ufunc(*plain, dtype=object)
                else:
                    res = ufunc(*[
                        p if not isinstance(p, np.ndarray) or p.dtype == object
                        else p.astype(object) for p in plain], dtype=object)
                res = np.asarray(res, dtype=object)
                if outs is not None:
                    odt = out[0].dtype
                    res2 = _wrap_arr(res, odt if odt != object else dt)
                    outs[0][...] = np.ndarray.view(res2, np.ndarray)
                    return out[0]
                return _wrap_arr(res, dt)
        if outs is not None:
            getattr(ufunc, method)(*plain, out=outs, **args)
            return out[0] if len(out) == 1 else out
        return getattr(ufunc, method)(*plain, **args)


_INT_UFUNCS = {
    np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.left_shift, np.right_shift,
    np.add, np.subtract, np.multiply,
}


def _wrap_arr(a, dt):
    dt = np.dtype(dt)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        x = a[i]
        if dt.kind == "b":
            out[i] = x
        elif type(x) is SymBV:
            out[i] = bv_wrap(x, dt.itemsize * 8, dt.kind == "i")
        elif is_sym(x):
            k, e = to_term(x)
            bits = dt.itemsize * 8
            e = as_int_term(k, e)
            m = maybe_bits(z3.simplify(e))
            lim = 2 ** (bits - (dt.kind == "i"))
            if m is not None and m < lim:
                out[i] = SymInt(e)
            else:
                out[i] = SymInt(wrap_int(e, bits, dt.kind == "i"))
        else:
            bits = dt.itemsize * 8
            v = int(x) % 2 ** bits
            if dt.kind == "i" and v >= 2 ** (bits - 1):
                v -= 2 ** bits
            out[i] = v
    return claim(out, dt)


def claim(a, dt):
    out = np.asarray(a, dtype=object).view(SymArr)
    out._claim = np.dtype(dt) if dt is not None else None
    return out
