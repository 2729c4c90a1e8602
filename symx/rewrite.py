"""Import hook: compiles the packages under test from their current source
with every call routed through ``sx_call`` and ``%`` through ``sx_mod`` so that
symbolic arguments reach a semantic handler instead of a C function."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import math
import operator
import os
import sys

import numpy as np
from annotypes import Array

from . import values as V
from .values import has_sym, is_sym

SKIP_NAMES = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_NAMES:
            return node
        if isinstance(f, ast.Name) and f.id.startswith("__sx"):
            return node
        new = ast.Call(
            func=ast.Name(id="__sx_call__", ctx=ast.Load()),
            args=[f] + node.args,
            keywords=node.keywords,
        )
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            new = ast.Call(
                func=ast.Name(id="__sx_mod__", ctx=ast.Load()),
                args=[node.left, node.right],
                keywords=[],
            )
            return ast.copy_location(new, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            new = ast.Call(
                func=ast.Name(id="__sx_in__", ctx=ast.Load()),
                args=[node.left, node.comparators[0]],
                keywords=[],
            )
            if isinstance(node.ops[0], ast.NotIn):
                new = ast.UnaryOp(op=ast.Not(), operand=new)
            return ast.copy_location(new, node)
        return node

    def visit_FunctionDef(self, node):
        # decorators, defaults and annotations are evaluated at import time
        # with concrete values, but rewriting them is harmless
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def sx_mod(a, b):
    if type(a) is str or type(a) is bytes:
        if has_sym(b):
            return V_percent(a, b)
    return a % b


def sx_in(a, b):
    if is_sym(a) and type(b) in (set, frozenset, dict):
        # membership by value: hashing would pick one value
        return V.Or(*[a == k for k in b if V.to_term(k) is not None])
    return a in b


def V_percent(fmt, b):
    import re

    vals = b if type(b) is tuple else (b,)
    it = iter(vals)

    def sub(m):
        if m.group(0) == "%%":
            return "%"
        v = next(it)
        if is_sym(v):
            return V.text_of(v)
        return m.group(0) % v

    if type(b) is dict:
        raise V.Unsupported("% formatting with a mapping")
    return re.sub(r"%%|%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]", sub, fmt)


HANDLERS = {}
_SEQ = (list, tuple, np.ndarray, V.SymArr)


def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h

    return deco


@handler(int)
def _int(f, args, kw):
    x = args[0]
    if type(x) is str:
        y = V.from_text(x)
        return V.sym_int(y) if y is not None else int(*args, **kw)
    return V.sym_int(x)


@handler(float, np.float64, np.float32)
def _float(f, args, kw):
    x = args[0]
    if type(x) is str:
        y = V.from_text(x)
        return V.sym_float(y) if y is not None else f(*args, **kw)
    if type(x) in _SEQ:
        return _nparray(np.array, (x,), {})
    return V.sym_float(x) if f is float else V.cast_np(f, x)


@handler(np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32,
         np.uint64, np.bool_)
def _npint(f, args, kw):
    x = args[0]
    if type(x) is str:
        y = V.from_text(x)
        if y is None:
            return f(*args, **kw)
        x = V.sym_int(y)
    return V.cast_np(f, x)


@handler(bool)
def _bool(f, args, kw):
    # keep it symbolic: later uses fork only when they must
    x = args[0]
    if type(x) is V.SymBool:
        return x
    k, e = V.to_term(x)
    return V.SymBool(e != 0)


@handler(type)
def _type(f, args, kw):
    return args[0].__class__ if len(args) == 1 else type(*args, **kw)


@handler(str, repr)
def _str(f, args, kw):
    if len(args) == 1 and is_sym(args[0]):
        return V.text_of(args[0])
    return f(*args, **kw)


@handler(round)
def _round(f, args, kw):
    return args[0].__round__(*args[1:])


@handler(math.sqrt, np.sqrt)
def _sqrt(f, args, kw):
    if isinstance(args[0], np.ndarray):
        return _map(V.sym_sqrt, args[0])
    return V.sym_sqrt(args[0])


def _map(g, a):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = g(a[i])
    return out


def _elem(g):
    def h(f, args, kw):
        x = args[0]
        if type(x) in _SEQ:
            return _map(lambda v: g(v, *args[1:], **kw), x)
        return g(x, *args[1:], **kw)

    return h


def _as_f(x):
    return V.sym_float(x) if is_sym(x) else float(x)


HANDLERS[np.floor] = _elem(lambda v: _as_f(math.floor(v)) if is_sym(v) else np.floor(v))
HANDLERS[np.ceil] = _elem(lambda v: _as_f(math.ceil(v)) if is_sym(v) else np.ceil(v))
HANDLERS[np.round] = _elem(
    lambda v, n=0, decimals=None: (
        _as_f(v.__round__(n)) if is_sym(v) else np.round(v, n)
    )
)
HANDLERS[np.around] = HANDLERS[np.round]
HANDLERS[np.abs] = _elem(abs)
HANDLERS[np.fabs] = _elem(abs)
HANDLERS[math.fabs] = HANDLERS[np.abs]
HANDLERS[math.floor] = lambda f, a, k: a[0].__floor__()
HANDLERS[math.ceil] = lambda f, a, k: a[0].__ceil__()
HANDLERS[math.trunc] = lambda f, a, k: a[0].__trunc__()
HANDLERS[math.isnan] = lambda f, a, k: False
HANDLERS[math.isinf] = lambda f, a, k: False
HANDLERS[np.isnan] = _elem(lambda v: False)
HANDLERS[np.isinf] = _elem(lambda v: False)
HANDLERS[np.isscalar] = lambda f, a, k: True
HANDLERS[np.sign] = _elem(lambda v: V.ite(v > 0, 1.0, V.ite(v < 0, -1.0, 0.0)))
HANDLERS[np.square] = _elem(lambda v: v * v)


@handler(math.copysign, np.copysign)
def _copysign(f, args, kw):
    a, b = args
    return V.ite(b >= 0, abs(a), -abs(a))


@handler(np.isclose, math.isclose)
def _isclose(f, args, kw):
    a, b = args[0], args[1]
    if f is np.isclose:
        rtol = args[2] if len(args) > 2 else kw.get("rtol", 1e-5)
        atol = args[3] if len(args) > 3 else kw.get("atol", 1e-8)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(np.asarray(a, object), np.asarray(b, object))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                out[i] = abs(a[i] - b[i]) <= atol + rtol * abs(b[i])
            return out
        return abs(a - b) <= atol + rtol * abs(b)
    rt = kw.get("rel_tol", 1e-9)
    at = kw.get("abs_tol", 0.0)
    return V.Or(abs(a - b) <= rt * abs(a), abs(a - b) <= rt * abs(b), abs(a - b) <= at)


@handler(np.allclose)
def _allclose(f, args, kw):
    r = _isclose(np.isclose, args, kw)
    if isinstance(r, np.ndarray):
        return V.And(*list(r.flat))
    return r


@handler(np.array, np.asarray, np.ascontiguousarray)
def _nparray(f, args, kw):
    x = args[0]
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
    else:
        a = np.array(x, dtype=object)
    if dt is not None and dt is not object:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            v = a[i]
            out[i] = V.cast_np(dt, v) if is_sym(v) else np.dtype(dt).type(v).item()
        return V.claim(out, dt)
    return a


@handler(np.sum)
def _npsum(f, args, kw):
    a = np.asarray(args[0], dtype=object)
    t = 0
    for v in a.flat:
        t = t + v
    return t


@handler(np.all, np.any)
def _npall(f, args, kw):
    a = np.asarray(args[0], dtype=object)
    return (V.And if f is np.all else V.Or)(*list(a.flat))


@handler(np.min, np.amin)
def _npmin(f, args, kw):
    return _minmax(min, (list(np.asarray(args[0], dtype=object).flat),), {})


@handler(np.max, np.amax)
def _npmax(f, args, kw):
    return _minmax(max, (list(np.asarray(args[0], dtype=object).flat),), {})


@handler(np.minimum, np.maximum)
def _npminmax2(f, args, kw):
    a, b = args[:2]
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(np.asarray(a, object), np.asarray(b, object))
        return _map2(lambda x, y: _minmax(min if f is np.minimum else max, (x, y), {}), a, b)
    return _minmax(min if f is np.minimum else max, (a, b), {})


def _map2(g, a, b):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = g(a[i], b[i])
    return out


@handler(min, max)
def _minmax(f, args, kw):
    if kw:
        return f(*args, **kw)
    xs = list(args[0]) if len(args) == 1 else list(args)
    if not xs:
        return f(*args)
    if not all(V.to_term(x) for x in xs):
        return f(xs)
    r = xs[0]
    for x in xs[1:]:
        r = V.ite(x < r, x, r) if f is min else V.ite(x > r, x, r)
    return r


@handler(abs, operator.abs)
def _abs(f, args, kw):
    return abs(args[0])


@handler(pow)
def _pow(f, args, kw):
    return args[0] ** args[1]


@handler(isinstance)
def _isinst(f, args, kw):
    x, t = args
    ts = t if type(t) is tuple else (t,)
    tag = getattr(x, "_np", None)
    if tag is not None:
        # made by a numpy type: an instance of that and no other
        return any(isinstance(c, type) and issubclass(tag, c) for c in ts)
    # numpy number types match the Python type a symbolic value stands for
    for c in ts:
        if c in (np.floating, np.float64) and x._k == "real":
            return True
        if c in (np.integer,) and x._k == "int":
            return True
        if c is np.number and x._k != "bool":
            return True
    return isinstance(x, t)


@handler(hasattr)
def _hasattr(f, args, kw):
    if is_sym(args[0]) and args[1] in ("shape", "ndim", "item", "tolist", "astype",
                                       "dtype", "copy"):
        return False
    return f(*args, **kw)


@handler(np.linspace)
def _linspace(f, args, kw):
    a, b, n = args[0], args[1], args[2] if len(args) > 2 else kw.get("num", 50)
    endpoint = kw.get("endpoint", True)
    n = int(n)
    d = (n - 1) if endpoint else n
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = a + (b - a) * i / d if d else a
    return out


@handler(np.diff)
def _diff(f, args, kw):
    a = np.asarray(args[0], dtype=object)
    return a[1:] - a[:-1]


@handler(np.concatenate, np.append)
def _concat(f, args, kw):
    if f is np.append:
        parts = [args[0], args[1]]
    else:
        parts = list(args[0])
    return np.concatenate([np.atleast_1d(np.asarray(p, dtype=object)) for p in parts])


@handler(np.cumsum)
def _cumsum(f, args, kw):
    a = np.asarray(args[0], dtype=object)
    out = np.empty(a.shape, dtype=object)
    t = 0
    for i, v in enumerate(a):
        t = t + v
        out[i] = t
    return out


@handler(np.repeat)
def _repeat(f, args, kw):
    return np.repeat(np.asarray(args[0], dtype=object), *args[1:], **kw)


# number arrays made from scratch can hold symbolic values when a harness asks
ALWAYS = {}
SYMBOLIC_ARRAYS = [False]


def _made(fill):
    def h(f, args, kw):
        out = f(*args, **kw)
        if out.dtype.kind in "iufb":
            return V.claim(out.astype(object), out.dtype)
        return out

    return h


for _f in (np.zeros, np.empty, np.ones, np.full):
    ALWAYS[_f] = _made(_f)


def sx_call(f, /, *args, **kw):
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        for a in args:
            t = type(a)
            if t in V._SYM:
                return h(f, args, kw)
            if t in _SEQ and (has_sym(a) or (
                    t is np.ndarray and a.dtype == object
                    and f in (np.isclose, np.allclose))):
                if f is isinstance or f is type or f is bool or f is hasattr \
                        or f is str or f is repr:
                    break
                return h(f, args, kw)
            if t is str and "\u27e6" in a and (
                    f is int or f is float or h is _npint or h is _float):
                return h(f, args, kw)
            if t is Array and f in (np.array, np.asarray) and has_sym(a.seq):
                return h(f, (list(a.seq),) + args[1:], kw)
    elif SYMBOLIC_ARRAYS[0] and f.__class__ is not type:
        if _hashable_in(f, ALWAYS):
            return ALWAYS[f](f, args, kw)
        if getattr(f, "__name__", "") == "copy" and type(
                getattr(f, "__self__", None)) is np.ndarray:
            return _made(f)(f, args, kw)
    return f(*args, **kw)


def _hashable_in(f, d):
    try:
        return f in d
    except TypeError:
        return False


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as fh:
            data = fh.read()
        tree = ast.parse(data, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


REWRITTEN = set()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, packages):
        self.packages = tuple(packages)

    def find_spec(self, fullname, path, target=None):
        root = fullname.split(".")[0]
        if root not in self.packages:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec = importlib.machinery.ModuleSpec(
            fullname,
            Loader(fullname, spec.origin),
            origin=spec.origin,
            is_package=spec.submodule_search_locations is not None,
        )
        spec.has_location = True
        if spec.submodule_search_locations is not None:
            spec.submodule_search_locations = [os.path.dirname(spec.origin)]
        REWRITTEN.add(spec.origin)
        return spec


def install(packages=("malcolm",)):
    builtins.__sx_call__ = sx_call
    builtins.__sx_mod__ = sx_mod
    builtins.__sx_in__ = sx_in
    for p in packages:
        assert p not in sys.modules, f"{p} imported before the rewriter"
    sys.meta_path.insert(0, Finder(packages))


def patch_annotypes():
    """annotypes is imported by the interpreter's start-up file, so its one
    dynamic cast is wrapped in memory instead of being rewritten"""
    import annotypes._anno as A

    orig = A.Anno.__call__

    def call(self, *args, **kwargs):
        if not self.is_array and not self.is_mapping:
            return sx_call(self.typ, *args, **kwargs)
        return orig(self, *args, **kwargs)

    A.Anno.__call__ = call


MARK = "\ue000"


def patch_json():
    """JSON text can hold symbolic numbers: they are written as marked texts and
    read back as the same symbolic numbers"""
    import json

    dumps, loads = json.dumps, json.loads

    def out(x, depth=0):
        if type(x) in V._SYM:
            return MARK + V.text_of(x)
        if isinstance(x, dict):
            return {k: out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [out(v) for v in x]
        return x

    def sym_dumps(o, *args, default=None, **kw):
        def d(x):
            if default is None:
                raise TypeError(
                    f"Object of type {type(x).__name__} is not JSON serializable")
            return out(default(x))

        return dumps(out(o), *args, default=d, **kw)

    def back(x):
        t = type(x)
        if t is str and x.startswith(MARK):
            y = V.from_text(x[1:])
            if y is not None:
                return y
            x = x[1:]
            return float(x) if "." in x else int(x)
        if t is list:
            return [back(y) for y in x]
        return x

    def sym_loads(s, *args, object_hook=None, object_pairs_hook=None, **kw):
        if not isinstance(s, str) or MARK not in s and "\\ue000" not in s:
            return loads(s, *args, object_hook=object_hook,
                         object_pairs_hook=object_pairs_hook, **kw)

        def pairs(ps):
            ps = [(k, back(v)) for k, v in ps]
            if object_pairs_hook is not None:
                return object_pairs_hook(ps)
            d = dict(ps)
            return d if object_hook is None else object_hook(d)

        return back(loads(s, *args, object_pairs_hook=pairs, **kw))

    json.dumps, json.loads = sym_dumps, sym_loads
