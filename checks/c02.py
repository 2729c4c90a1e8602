"""Validation of values by the descriptions of attributes and methods"""
from symx.harness import Harness

TITLE = "An attribute only ever holds valid values"
ASSUMPTIONS = [
    "floating point values are exact reals; 32 bit floats are tried with values "
    "they can represent",
]
INTS = dict(int8=(-2 ** 7, 2 ** 7 - 1), uint8=(0, 2 ** 8 - 1),
            int16=(-2 ** 15, 2 ** 15 - 1), uint16=(0, 2 ** 16 - 1),
            int32=(-2 ** 31, 2 ** 31 - 1), uint32=(0, 2 ** 32 - 1),
            int64=(-2 ** 63, 2 ** 63 - 1), uint64=(0, 2 ** 64 - 1))
FLOATS = dict(float32=None, float64=None)


def np_type(x):
    """The type of a number, also of a symbolic one"""
    return getattr(x, "_np", None) or type(x)


def dtype_of(seq):
    d = getattr(seq, "dtype", None)
    return None if d is None else str(d)


class Target:
    """A block with one attribute that can be put to"""

    def __init__(self, ctx, meta, initial):
        from malcolm.core import Controller, Process

        self.ctx = ctx
        self.process = Process("proc")
        self.c = Controller("B")
        self.process.add_controller(self.c)
        self.process.start()
        self.attr = meta.create_attribute_model(initial)
        self.c.add_block_field("attr", self.attr, self.attr.set_value, False)
        self.n = 0

    def put(self, value):
        """None, or the error"""
        from malcolm.core import Error, Put

        out = []
        self.n += 1
        r = Put(self.n, ["B", "attr", "value"], value)
        r.set_callback(out.append)
        self.c.handle_request(r)
        self.ctx.settle()
        self.ctx.check(len(out) == 1, "answered once", out)
        if isinstance(out[0], Error):
            return out[0].message

    @property
    def value(self):
        return self.attr.value


def a_value(ctx, name, kind, lo, hi):
    if kind == "int":
        return ctx.int(name, lo, hi)
    if kind in INTS:
        return ctx.int(name, *INTS[kind])
    if kind == "grid":
        return ctx.grid(name, -1000, 1000)
    if kind == "real":
        return ctx.real(name, -10 ** 6, 10 ** 6)
    if kind == "bool":
        return ctx.bool(name)
    raise ValueError(kind)


def number(ctx):
    """Every number of each type, from an int, a float, a bool or nothing; things
    that are not numbers"""
    import numpy as np

    from malcolm.core import NumberMeta

    p = ctx.params
    dt = p["dtype"]
    typ = getattr(np, dt)
    lo, hi = INTS.get(dt, (-2 ** 24, 2 ** 24))
    meta = NumberMeta(dt, "d", writeable=True)
    t = Target(ctx, meta, 1)
    old = t.value
    kind = p["kind"]
    if kind == "bad":
        bad = ctx.choice("bad", [[1, 2], [], "x", "", dict(a=1), [[1]], object(), (3, 4),
                                 np.array([1, 2])])
        err = t.put(bad)
        ctx.check(err is not None, "not a number is refused", (bad, t.value))
        ctx.check(t.value is old, "old value stays", t.value)
        ctx.cover("refused")
        return
    if kind == "none":
        v, given = 0, None
    elif kind == "text":
        v = ctx.choice("text", [0, 1, 100])
        given = str(v)
    else:
        v = given = a_value(ctx, "v", kind, lo, hi)
    err = t.put(given)
    if err is not None:
        ctx.check(dt in INTS and kind in ("grid", "real"), "representable is accepted",
                  (v, err))
        ctx.check(t.value is old, "old value stays", t.value)
        return
    got = t.value
    ctx.check(issubclass(np_type(got), typ), "of the declared type", (np_type(got), dt))
    if dt in FLOATS or kind in ("int", "none", "text", "bool"):
        ctx.check(got == v, "equals what was written", (got, v))
    else:
        whole = v == int(v) if not ctx.symbolic else (v // 1 == v)
        fits = ctx.And(v >= lo, v <= hi)
        ctx.check(ctx.Implies(ctx.And(whole, fits), got == v),
                  "equals what was written", (got, v))
    again = meta.validate(got)
    ctx.check(ctx.And(np_type(again) is np_type(got), again == got),
              "validates to itself", again)
    ctx.cover("accepted")


def elements_of(ctx, kind, n, lo, hi):
    return [a_value(ctx, f"v{i}", kind, lo, hi) for i in range(n)]


def array(ctx):
    """Arrays of 0..3 numbers or booleans of each type, given as a list, tuple,
    Array, numpy array or a single value; things that are not numbers"""
    import numpy as np
    from annotypes import Array

    from malcolm.core import BooleanArrayMeta, NumberArrayMeta

    p = ctx.params
    dt = p["dtype"]
    lo, hi = INTS.get(dt, (-2 ** 24, 2 ** 24))
    if dt == "bool":
        meta = BooleanArrayMeta("d", writeable=True)
        lo, hi = 0, 1
    else:
        meta = NumberArrayMeta(dt, "d", writeable=True)
    t = Target(ctx, meta, [1, 0])
    old = t.value
    how = p["how"]
    if how == "bad":
        cases = [dict(a=1), object(), [dict(a=1)], {1, 2}, ["x"]]
        if dt == "bool":
            cases = [[[1, 2], [3]]]
        bad = ctx.choice("bad", cases)
        err = t.put(bad)
        ctx.check(err is not None, "not numbers is refused", (bad, t.value))
        ctx.check(t.value is old, "old value stays", t.value)
        ctx.cover("refused")
        return
    if how == "none":
        vs, given = [], None
    elif how == "scalar":
        vs = elements_of(ctx, p["kind"], 1, lo, hi)
        given = vs[0]
    else:
        vs = elements_of(ctx, p["kind"], int(ctx.int("n", 0, 3)), lo, hi)
        if how == "list":
            given = list(vs)
        elif how == "tuple":
            given = tuple(vs)
        elif how == "array":
            given = Array[int](list(vs))
        elif how == "self":
            given = meta.validate(list(vs))
        elif how == "other":
            # an array that is fine for another attribute
            given = NumberArrayMeta(p["other"]).validate(list(vs))
    err = t.put(given)
    ctx.check(err is None, "representable is accepted", (given, err))
    got = t.value
    ctx.check(type(got) is Array, "an array", got)
    ctx.check(len(got) == len(vs), "same length", (got, vs))
    if len(got):
        # empty ones have nothing to be of a type
        ctx.check(dtype_of(got.seq) == dt, "elements of the declared type",
                  (got, dtype_of(got.seq), dt))
    if how == "self":
        ctx.check(got is given, "valid arrays are kept", got)
    if dt == "bool":
        ctx.check(ctx.And(*[(a == (v != 0)) if ctx.symbolic else bool(a) == bool(v)
                            for a, v in zip(got, vs)]),
                  "equals what was written", (got, vs))
    elif p.get("kind") == "grid" and dt in INTS:
        pass
    else:
        ctx.check(ctx.And(*[a == v for a, v in zip(got, vs)]),
                  "equals what was written", (got, vs))
    again = meta.validate(got)
    ctx.check(len(again) == len(got) and ctx.And(*[a == b for a, b in zip(again, got)]),
              "validates to itself", again)
    ctx.cover("accepted")


def choices(ctx):
    """1..3 choices, strings or an Enum; every index, name and other value, one of
    them or an array of 0..3"""
    from enum import Enum

    from annotypes import Array

    from malcolm.core import ChoiceArrayMeta, ChoiceMeta

    first = "1" if ctx.params.get("digits") else "red"

    class Col(Enum):
        RED = first
        BLUE = "blue"
        NONE = ""

    p = ctx.params
    n = int(ctx.int("n", 1, 3))
    opts = list(Col)[:n] if p["enum"] else [first, "blue", ""][:n]
    names = [first, "blue", ""][:n]
    cls = ChoiceArrayMeta if p["array"] else ChoiceMeta
    if p.get("changed"):
        # it had other choices before
        meta = cls("d", ["green", "old", "older", "oldest"], writeable=True)
        meta.set_choices(opts)
    else:
        meta = cls("d", opts, writeable=True)
    if p.get("again"):
        # another description of another type does not matter
        cls("other", ["q"] if p["enum"] else list(Col))
    if p.get("served"):
        from malcolm.core.models import VMeta
        from annotypes import deserialize_object, json_decode, json_encode

        meta = deserialize_object(json_decode(json_encode(meta)), VMeta)
        opts = names
    t = Target(ctx, meta, [opts[0]] if p["array"] else opts[0])
    old = t.value

    def one(k):
        kind = ctx.choice("kind" + k, ["index", "name", "member", "bad", "none"])
        if kind == "index":
            i = int(ctx.int("i" + k, -2, 4))
            return i, opts[i] if 0 <= i < n else None
        if kind == "name":
            i = int(ctx.int("i" + k, 0, 2))
            x = [first, "blue", ""][i]
            return x, opts[i] if i < n else None
        if kind == "member":
            i = int(ctx.int("i" + k, 0, n - 1))
            return opts[i], opts[i]
        if kind == "none":
            return None, opts[0]
        return ctx.choice("b" + k, ["Red", "green", "0", 0.5, (1,)]), None

    if p["array"]:
        m = int(ctx.int("m", 0, p["len"]))
        pairs = [one(str(i)) for i in range(m)]
        given = [x for x, _ in pairs]
        want = [w for _, w in pairs]
        if p.get("wrap"):
            given = Array[str](given)
        ok = None not in want
    else:
        given, want = one("")
        ok = want is not None
    err = t.put(given)
    ctx.check((err is None) == ok, "one of the choices, or refused", (given, err))
    if not ok:
        ctx.check(t.value is old, "old value stays", t.value)
        ctx.cover("refused")
        return
    got = t.value
    if p["array"]:
        ctx.check(type(got) is Array and list(got) == want and
                  all(type(a) is type(opts[0]) for a in got), "the choices written",
                  (given, got))
        again = meta.validate(got)
        ctx.check(list(again) == want, "validates to itself", again)
    else:
        ctx.check(got == want and type(got) is type(opts[0]), "the choice written",
                  (given, got))
        ctx.check(meta.validate(got) is got, "validates to itself", got)
    ctx.cover("accepted")


def simple(ctx):
    """Booleans and strings from ints, floats, bools, texts and nothing"""
    import numpy as np

    from malcolm.core import BooleanMeta, StringMeta

    p = ctx.params
    kind = p["kind"]
    if kind == "text":
        texts = ["", "0", "1", "False", "True", "false", "no", "No", "x", "yes", "NO"]
        v = given = ctx.choice("text", texts)
    elif kind == "none":
        v = given = None
    elif kind == "list":
        v = given = ctx.choice("list", [[], [0], ["x"]])
    else:
        v = given = a_value(ctx, "v", kind, -10, 10)
    if p["meta"] == "bool":
        meta = BooleanMeta("d", writeable=True)
        t = Target(ctx, meta, True)
        old = t.value
        err = t.put(given)
        if err is not None:
            ctx.check(kind == "list" and t.value is old, "old value stays", t.value)
            return
        got = t.value
        ctx.check(isinstance(got, bool), "a bool", got)
        if kind == "text":
            ctx.check(got == (v not in ("0", "False", "false", "no", "No", "NO", "")),
                      "true or false", (v, got))
        elif kind == "none":
            ctx.check(got is False, "nothing is false", got)
        else:
            ctx.check(got == (v != 0), "true or false", (v, got))
        ctx.check(meta.validate(got) == got, "validates to itself", got)
    else:
        meta = StringMeta("d", writeable=True)
        t = Target(ctx, meta, "old")
        err = t.put(given)
        ctx.check(err is None, "accepted", err)
        got = t.value
        ctx.check(isinstance(got, str), "a string", got)
        if kind == "text":
            ctx.check(got == v, "the text written", got)
        elif kind == "none":
            ctx.check(got == "", "nothing is empty", got)
        ctx.check(meta.validate(got) == got, "validates to itself", got)
    ctx.cover("accepted")


def strings(ctx):
    """Arrays of strings of 0..2 elements from lists, tuples, Arrays, one string and
    things that are not strings"""
    from annotypes import Array

    from malcolm.core import StringArrayMeta

    meta = StringArrayMeta("d", writeable=True)
    t = Target(ctx, meta, ["old"])
    old = t.value
    pick = ["", "a", "long one", 1, None, 2.5, b"x"]
    n = int(ctx.int("n", 0, 2))
    vs = [pick[int(ctx.int(f"v{i}", 0, len(pick) - 1))] for i in range(n)]
    how = ctx.choice("how", ["list", "tuple", "Array", "one"])
    if how == "one":
        if n != 1 or vs[0] is None:
            return
        given = vs[0]
    else:
        given = dict(list=list, tuple=tuple, Array=Array[str])[how](vs)
    ok = all(isinstance(v, str) for v in vs)
    err = t.put(given)
    ctx.check((err is None) == ok, "strings, or refused", (given, err))
    if ok:
        ctx.check(type(t.value) is Array and list(t.value) == vs, "strings written",
                  (given, t.value))
        ctx.check(list(meta.validate(t.value)) == vs, "validates to itself")
        ctx.cover("accepted")
    else:
        ctx.check(t.value is old, "old value stays", t.value)
        ctx.cover("refused")


def table(ctx):
    """Tables of an int32, a string and a bool column with 0..2 rows each, columns
    missing or extra, as a dictionary or a Table"""
    from annotypes import Array

    from malcolm.core import (
        BooleanArrayMeta, NumberArrayMeta, StringArrayMeta, Table, TableMeta,
    )

    p = ctx.params
    cols = dict(x=NumberArrayMeta("int32", "x"), y=StringArrayMeta("y"),
                z=BooleanArrayMeta("z"))
    names = p.get("columns", "xyz")
    cols = {k: cols[k] for k in names}
    meta = TableMeta("d", writeable=True, elements=cols)
    t = Target(ctx, meta, {k: dict(x=[1], y=["a"], z=[True])[k]
                              for k in names})
    old = t.value
    given = {}
    lens = {}
    for k in names:
        if p.get("drop") and ctx.bool("drop" + k):
            continue
        n = lens[k] = int(ctx.int("n" + k, 0, 2))
        if k == "x":
            given[k] = [ctx.int(f"x{i}", -2 ** 31, 2 ** 31 - 1) for i in range(n)]
        elif k == "y":
            given[k] = [f"s{i}" for i in range(n)]
        else:
            given[k] = [ctx.bool(f"z{i}") for i in range(n)]
    if p.get("drop") and ctx.bool("extra"):
        given["q"] = [1] * lens.get("x", 0)
    if p.get("bad"):
        given["y"] = [3 for _ in given["y"]]
    want = {k: list(v) for k, v in given.items()}
    ok = set(given) == set(names) and len(set(lens.values())) == 1 and not (
        p.get("bad") and lens["y"])
    if p.get("table"):
        if set(given) != set(names):
            return
        given = meta.table_cls(**{k: Array[str](v) if k == "y" else
                                  meta.elements[k].validate(v)
                                  for k, v in given.items()})
    elif p.get("typeid"):
        given["typeid"] = "malcolm:core/Table:1.0"
    err = t.put(given)
    ctx.check((err is None) == ok, "columns of equal length, or refused", (want, err))
    if not ok:
        ctx.check(t.value is old, "old value stays", t.value)
        ctx.cover("refused")
        return
    got = t.value
    ctx.check(isinstance(got, Table) and list(got.call_types) == list(names),
              "a table", got)
    for k in names:
        ctx.check(type(got[k]) is Array and len(got[k]) == len(want[k]), "column", k)
        ctx.check(ctx.And(*[a == b for a, b in zip(got[k], want[k])]),
                  "column as written", (k, got[k], want[k]))
    if lens["x"]:
        ctx.check(dtype_of(got.x.seq) == "int32" and (
            "z" not in names or dtype_of(got.z.seq) == "bool"),
                  "columns of the declared type")
    again = meta.validate(got)
    for k in names:
        ctx.check(ctx.And(*[a == b for a, b in zip(again[k], got[k])]),
                  "validates to itself", k)
    rows = list(got.rows())
    ctx.check(len(rows) == lens["x"], "rows", rows)
    for i, row in enumerate(rows):
        ctx.check(ctx.And(*[a == want[k][i] for k, a in zip(names, row)]), "row", row)
    ctx.cover("accepted")


def method(ctx):
    """A method with required and optional arguments; any subset of them given in any
    order, and an unknown one"""
    import numpy as np
    from annotypes import Anno, add_call_types

    from malcolm.core import Controller, Error, Part, Post, Process

    AA = Anno("a", name="a").set_typ(int)
    AB = Anno("b", name="b").set_typ(float)
    AC = Anno("c", name="c").set_typ(str)
    calls = []

    class P(Part):
        def setup(self, registrar):
            super().setup(registrar)
            registrar.add_method_model(self.go)

        @add_call_types
        def go(self, a: AA, b: AB = 2.5, c: AC = "sea") -> AA:
            calls.append((a, b, c))
            return a

    process = Process("proc")
    ctrl = Controller("B")
    ctrl.add_part(P("part"))
    process.add_controller(ctrl)
    process.start()
    names = ["a", "b", "c", "d"]
    if ctx.params.get("reverse"):
        names.reverse()
    vals = dict(a=ctx.int("a", -2 ** 40, 2 ** 40), b=ctx.real("b", -10 ** 6, 10 ** 6),
                c="text", d=1)
    bad = ctx.params.get("bad")
    if bad:
        vals.update(bad)
    given = {}
    for k in names:
        if ctx.bool("give" + k):
            given[k] = vals[k]
    ok = "a" in given and "d" not in given and not (bad and set(bad) & set(given))
    out = []
    r = Post(1, ["B", "go"], given or None)
    r.set_callback(out.append)
    ctrl.handle_request(r)
    ctx.settle()
    ctx.check(len(out) == 1, "answered once", out)
    ctx.check(isinstance(out[0], Error) != ok, "arguments as declared, or refused",
              (given, out))
    if not ok:
        ctx.check(not calls, "nothing called", calls)
        ctx.cover("refused")
        return
    ctx.check(len(calls) == 1, "called once", calls)
    a, b, c = calls[0]
    ctx.check(issubclass(np_type(a), (np.int64, int)), "of the declared type", a)
    ctx.check(ctx.And(a == vals["a"], b == (vals["b"] if "b" in given else 2.5),
                      c == (vals["c"] if "c" in given else "sea")),
              "arguments passed", (given, calls))
    ctx.check(out[0].value == vals["a"], "value returned", out[0])
    took = ctrl.block_view()._data.go.took
    ctx.check(sorted(took.present) == sorted(given), "arguments logged", took)
    ctx.check(ctx.And(*[took.value[k] == vals[k] for k in given]), "values logged", took)
    ctx.cover("accepted")


def describe(ctx):
    """Descriptions of every kind with any texts, limits and options, sent as JSON and
    read back"""
    from enum import Enum

    import numpy as np
    from annotypes import deserialize_object, json_decode, json_encode

    from malcolm.core import (
        BooleanArrayMeta, BooleanMeta, ChoiceArrayMeta, ChoiceMeta, NumberArrayMeta,
        NumberMeta, StringArrayMeta, StringMeta, TableMeta,
    )
    from malcolm.core.models import Display, VMeta

    p = ctx.params
    tags = ["t1", "t2"][:int(ctx.int("ntags", 0, 2))]
    kw = dict(description=ctx.choice("desc", ["", "some text"]), tags=tags,
              writeable=ctx.bool("writeable"), label=ctx.choice("label", ["", "La"]))
    k = p["meta"]
    if k in ("NumberMeta", "NumberArrayMeta"):
        if ctx.bool("display"):
            kw["display"] = Display(
                limitLow=ctx.grid("low", -100, 100), limitHigh=ctx.grid("high", -100, 100),
                precision=ctx.int("precision", 0, 20), units="mm", description="dd")
        kw["dtype"] = ctx.choice("dtype", list(INTS) + list(FLOATS))
    elif k in ("ChoiceMeta", "ChoiceArrayMeta"):
        kw["choices"] = ["a", "", "c"][:int(ctx.int("nchoices", 0, 3))]
    elif k == "TableMeta":
        els = dict(x=NumberArrayMeta("int8", "x", label="EX"), y=StringArrayMeta("y"),
                   z=ChoiceArrayMeta("z", ["q", "w"]), w=BooleanArrayMeta())
        names = ["w", "x", "y", "z"] if ctx.bool("order") else ["z", "y", "x"]
        kw["elements"] = {n: els[n] for n in names}
    cls = dict(NumberMeta=NumberMeta, NumberArrayMeta=NumberArrayMeta,
               ChoiceMeta=ChoiceMeta, ChoiceArrayMeta=ChoiceArrayMeta,
               BooleanMeta=BooleanMeta, BooleanArrayMeta=BooleanArrayMeta,
               StringMeta=StringMeta, StringArrayMeta=StringArrayMeta,
               TableMeta=TableMeta)[k]
    if not p.get("json"):
        meta = cls(**kw)
        back = deserialize_object(meta.to_dict(), VMeta)
    else:
        for n in list(kw):
            if n == "writeable":
                kw[n] = bool(kw[n])
        if "display" in kw:
            kw["display"] = Display(1.5, -2.5, "x", 7, "m")
        meta = cls(**kw)
        back = deserialize_object(json_decode(json_encode(meta)), VMeta)
    from .c01 import order, plain

    a, b = plain(meta), plain(back)
    ctx.check(type(back) is cls, "same kind", back)
    ctx.check(ctx.eq(a, b), "reads back the same", (a, b))
    ctx.check(order(a) == order(b), "in the same order", (a, b))
    for n in ("description", "label"):
        ctx.check(getattr(back, n) == kw[n], "text", n)
    ctx.check(back.writeable == kw["writeable"], "writeable", back)
    if "display" in kw:
        d = kw["display"]
        ctx.check(ctx.And(back.display.limitLow == d.limitLow,
                          back.display.limitHigh == d.limitHigh,
                          back.display.precision == d.precision), "display", back)
    # and works the same
    probe = dict(NumberMeta=5, NumberArrayMeta=[5, 6], BooleanMeta=1,
                 BooleanArrayMeta=[1, 0], StringMeta="s", StringArrayMeta=["s"],
                 TableMeta=None)
    v = probe.get(k)
    if k.startswith("Choice"):
        v = kw["choices"][-1:] if k == "ChoiceArrayMeta" else (kw["choices"] or [None])[-1]
    x, y = meta.validate(v), back.validate(v)
    ctx.check(plain(x) == plain(y), "validates the same", (x, y))
    ctx.cover("done")


ALL = list(INTS) + list(FLOATS)
NUM = [dict(dtype=d, kind=k) for d in ALL for k in ("int", "grid", "bool", "none", "bad",
                                                    "text")
       if not (d in ("float32",) and k == "real")]
ARR = [dict(dtype=d, how=h, kind="int") for d in ("int8", "uint16", "int32", "float64")
       for h in ("list", "tuple", "array", "self", "scalar")]
ARR += [dict(dtype="bool", how=h, kind="bool") for h in ("list", "self", "scalar")]
ARR += [dict(dtype="float64", how=h, kind="grid") for h in ("list", "scalar")]
ARR += [dict(dtype=d, how=h) for d in ("int32", "float64", "bool") for h in ("none", "bad")]
ARR += [dict(dtype=d, how="other", other=o, kind=k) for d, o, k in (
    ("int32", "int64", "int8"), ("int64", "int32", "int32"), ("uint8", "uint32", "uint8"),
    ("float64", "float32", "int8"), ("float64", "int8", "int8"),
    ("int16", "uint16", "uint8"))]
ARR_T = [dict(dtype=d, how=h, kind="int") for d in ALL
         for h in ("list", "tuple", "array", "self", "scalar")]
ARR_T += [x for x in ARR if x not in ARR_T]
CH = [dict(enum=e, array=0) for e in (0, 1)] + [
    dict(enum=0, array=0, again=1), dict(enum=1, array=0, again=1),
    dict(enum=1, array=0, served=1), dict(enum=0, array=0, digits=1),
    dict(enum=1, array=0, digits=1)] + [
    dict(enum=e, array=0, changed=1) for e in (0, 1)]
CHA = [dict(enum=0, array=1, len=1), dict(enum=1, array=1, len=1),
       dict(enum=0, array=1, len=1, wrap=1), dict(enum=1, array=1, len=1, again=1),
       dict(enum=0, array=1, len=1, changed=1)]
METAS = ["NumberMeta", "NumberArrayMeta", "ChoiceMeta", "ChoiceArrayMeta", "BooleanMeta",
         "BooleanArrayMeta", "StringMeta", "StringArrayMeta", "TableMeta"]
TAB = [dict(), dict(drop=1), dict(table=1), dict(typeid=1), dict(bad=1),
       dict(columns="xy"), dict(columns="xy", table=1), dict(columns="yx", drop=1)]
HARNESSES = {
    "number": Harness(number, quick=NUM, must=["accepted", "refused"]),
    "array": Harness(array, quick=ARR, thorough=ARR_T, must=["accepted", "refused"]),
    "choices": Harness(choices, quick=CH + CHA, thorough=CH + [
        dict(x, len=2) for x in CHA], must=["accepted", "refused"]),
    "simple": Harness(simple, quick=[dict(meta=m, kind=k) for m in ("bool", "str")
                                     for k in ("text", "none", "int", "grid", "bool",
                                               "list")], must=["accepted"]),
    "strings": Harness(strings, must=["accepted", "refused"]),
    "table": Harness(table, quick=TAB, must=["accepted", "refused"]),
    "method": Harness(method, quick=[dict(), dict(reverse=1), dict(bad=dict(a="x")),
                                     dict(bad=dict(b=[1, 2]))],
                      must=["accepted", "refused"]),
    "describe": Harness(describe, quick=[dict(meta=m) for m in METAS] + [
        dict(meta=m, json=1) for m in METAS], must=["done"]),
}
