"""What is sent or stored as dictionaries and JSON reads back the same"""
from symx.harness import Harness

from .c01 import order, plain

TITLE = "Serialised data reads back the same"
ASSUMPTIONS = [
    "texts, names and the kinds of things are picked by the solver from lists, the "
    "texts of tags from all strings up to a length over an alphabet; numbers, flags, "
    "alarms and times are symbolic; blocks as a whole are in C20",
    "numbers in JSON stand for themselves (the text json writes for a number reads "
    "back as that number)",
]


def kinds():
    from malcolm.core import (
        BooleanArrayMeta, BooleanMeta, ChoiceArrayMeta, ChoiceMeta, NumberArrayMeta,
        NumberMeta, StringArrayMeta, StringMeta, TableMeta,
    )

    return dict(
        int8=lambda: NumberMeta("int8", "d"), uint32=lambda: NumberMeta("uint32"),
        int64=lambda: NumberMeta("int64"), float64=lambda: NumberMeta("float64"),
        bool=BooleanMeta, text=lambda: StringMeta("d", ["t"], True, "Lab"),
        choice=lambda: ChoiceMeta("d", ["a", "b", "c"]),
        int32s=lambda: NumberArrayMeta("int32"), float64s=lambda: NumberArrayMeta(
            "float64"),
        bools=BooleanArrayMeta, texts=StringArrayMeta,
        choices=lambda: ChoiceArrayMeta("d", ["a", "b", "c"]),
        table=lambda: TableMeta("d", elements=dict(
            n=NumberArrayMeta("int32", label="N"), s=StringArrayMeta(),
            c=ChoiceArrayMeta("", ["a", "b", "c"]), b=BooleanArrayMeta(),
            f=NumberArrayMeta("float64"))),
    )


RANGES = dict(int8=(-128, 127), uint32=(0, 2 ** 32 - 1), int64=(-2 ** 63, 2 ** 63 - 1),
              int32s=(-2 ** 31, 2 ** 31 - 1))
TEXTS = ["", "x", "two words", "\u00e9\u2603", 'quo"te\\', "new\nline", "None"]


def value_of(ctx, kind, name="v", n=None):
    """Any value of this kind, as plain Python"""
    if kind in RANGES and kind != "int32s":
        return ctx.int(name, *RANGES[kind])
    if kind == "float64":
        return ctx.real(name, -1e6, 1e6)
    if kind == "bool":
        return bool(ctx.bool(name))
    if kind == "text":
        return ctx.choice(name, TEXTS[:2] if "kinds" in ctx.params else TEXTS)
    if kind == "choice":
        return ctx.choice(name, ["a", "b", "c"])
    if n is None:
        n = int(ctx.int(name + "len", 0, 2))
    if kind == "table":
        return dict((k, value_of(ctx, t, name + k, n)) for k, t in (
            ("n", "int32s"), ("s", "texts"), ("c", "choices"), ("b", "bools"),
            ("f", "float64s")))
    if kind == "int32s":
        return [ctx.int(f"{name}{i}", *RANGES[kind]) for i in range(n)]
    one = {"float64s": "float64", "bools": "bool", "texts": "text",
           "choices": "choice"}[kind]
    if one in ("text", "choice") and n:
        # one of them varies
        return [value_of(ctx, one, name + "0")] + ["a"] * (n - 1)
    return [value_of(ctx, one, f"{name}{i}") for i in range(n)]


def alarm_of(ctx, name=""):
    from malcolm.core import Alarm, AlarmSeverity, AlarmStatus

    sev = ctx.choice(name + "sev", list(AlarmSeverity))
    status = ctx.choice(name + "status", list(AlarmStatus)[::3])
    return Alarm(sev, status, "why" if sev.value else "")


def stamp_of(ctx, name=""):
    from malcolm.core import TimeStamp

    return TimeStamp(ctx.int(name + "secs", 0, 2 ** 40), ctx.int(name + "ns", 0, 10 ** 9 - 1),
                     ctx.int(name + "tag", -5, 5))


def values(o):
    """As plain, with Enums as they are sent"""
    from enum import Enum

    o = plain(o)

    def walk(o):
        if isinstance(o, dict):
            return {k: walk(v) for k, v in o.items()}
        if isinstance(o, list):
            return [walk(x) for x in o]
        if isinstance(o, Enum):
            o = o.value
            return o.item() if hasattr(o, "item") else o
        if isinstance(o, BaseException):
            return f"{type(o).__name__}: {o}"
        return o
    return walk(o)


def types(o):
    """What everything in it is"""
    from collections.abc import Mapping

    if hasattr(o, "call_types"):
        name = type(o).__name__
        if name in ("TableSubclass",):
            name = "Table"
        if name == "MethodLog":
            # what was logged is not described by the log, so stays as it was sent
            return name, list(o.call_types)
        return name, [(k, types(getattr(o, k))) for k in o.call_types]
    if isinstance(o, Mapping):
        return "map", [(k, types(v)) for k, v in o.items()]
    return None


def both_ways(ctx, o, cls, what):
    """There and back, as a dictionary or as JSON"""
    from annotypes import deserialize_object, json_decode, json_encode

    if ctx.params.get("json"):
        d = json_decode(json_encode(o))
    else:
        d = o.to_dict()
    ctx.check(d["typeid"] == o.typeid, "says what it is", what)
    ctx.check(list(d) == ["typeid"] + list(o.call_types), "every field is there",
              (what, list(d)))
    ctx.check(ctx.eq(values(d), values(o)), "has the values it had",
              (what, values(d), values(o)))
    back = deserialize_object(d, cls)
    ctx.check(type(back) is type(o), "reads back as what it was", (what, type(back)))
    ctx.check(ctx.eq(values(back), values(o)), "reads back the same",
              (what, values(back), values(o)))
    ctx.check(order(values(back)) == order(values(o)), "in the same order", what)
    ctx.check(types(back) == types(o), "made of the same things",
              (what, types(back), types(o)))
    return back


def attributes(ctx):
    """An attribute of every kind holding any value, alarm and time"""
    from malcolm.core import AttributeModel

    kind = ctx.params["kind"]
    meta = kinds()[kind]()
    meta.set_writeable(bool(ctx.bool("writeable")))
    meta.set_label(ctx.choice("label", ["", "Lab"]))
    a = meta.create_attribute_model()
    v = value_of(ctx, kind)
    al = alarm_of(ctx) if ctx.params.get("alarms") else None
    ts = stamp_of(ctx)
    a.set_value(v, alarm=al, ts=ts)
    back = both_ways(ctx, a, AttributeModel, kind)
    ctx.check(ctx.eq(values(back.value) if kind != "table" else
                     {k: values(back.value[k]) for k in v}, v), "the value it was given",
              (v, values(back.value)))
    if al:
        ctx.check(back.alarm == al and not back.alarm != al, "its alarm", al)
        ctx.check(back.alarm.is_ok() == (al.severity.value == 0), "ok or not", al)
    ctx.check(ctx.And(back.timeStamp.secondsPastEpoch == ts.secondsPastEpoch,
                      back.timeStamp.nanoseconds == ts.nanoseconds,
                      back.timeStamp.userTag == ts.userTag), "its time", kind)
    # and it can hold another value
    back.set_value(v)
    ctx.check(ctx.eq(values(back.value), values(a.value)), "can be set", kind)
    if kind == "table":
        ctx.check(back.value == a.value and not back.value != a.value, "equal tables", v)
    ctx.cover("done")


def methods(ctx):
    """A method that takes and returns arguments of any two kinds, with any of them
    required or with a default, and what it was last called with"""
    from malcolm.core import Alarm, MapMeta, MethodMeta, MethodModel
    from malcolm.core.models import MethodLog

    p = ctx.params
    ks = kinds()
    one, two = p["kinds"]
    els = dict(one=ks[one](), two=ks[two]())
    if ctx.bool("swap"):
        els = dict(two=els["two"], one=els["one"])
    required = [k for k in els if ctx.bool("need " + k)]
    v1, v2 = value_of(ctx, one, "v1", 1), value_of(ctx, two, "v2", 1)
    defaults = {k: v for k, v in (("two", v2), ("one", v1)) if k not in required}
    meta = MethodMeta(MapMeta(els, required), defaults, "does it", ["t1", "t2"],
                      bool(ctx.bool("writeable")), "Label",
                      MapMeta(dict(ret=ks[one]()), ["ret"]))
    m = MethodModel(meta=meta)
    took = MethodLog(meta.takes.validate(dict(one=v1, two=v2)), ["one"], ctx.choice(
        "alarm", [Alarm.ok, Alarm.major("it broke")]),
                     stamp_of(ctx, "t"))
    m.set_took(took)
    m.set_returned(MethodLog(meta.returns.validate(dict(ret=v1)), ["ret"], None,
                             stamp_of(ctx, "r")))
    back = both_ways(ctx, m, MethodModel, p["kinds"])
    ctx.check(list(back.meta.takes.elements) == list(els), "arguments in order", els)
    ctx.check(list(back.meta.takes.required) == required, "which are required", required)
    ctx.check(list(back.meta.defaults) == list(defaults), "which have defaults", defaults)
    for k, v in defaults.items():
        ctx.check(ctx.eq(values(back.meta.defaults[k]), values(
            meta.takes.elements[k].validate(v))), "its default", k)
    args = back.meta.takes.validate(dict(two=v2, one=v1))
    ctx.check(list(args) == list(els), "takes them in order", args)
    ctx.check(ctx.And(ctx.eq(values(args["one"]), values(took.value["one"])),
                      ctx.eq(values(args["two"]), values(took.value["two"]))),
              "takes them", args)
    ctx.cover("done")


def messages(ctx):
    """Requests and responses of every kind with any id, path and value"""
    from malcolm.core import Delta, Error, Get, Post, Put, Return, Subscribe, Unsubscribe
    from malcolm.core import Update
    from malcolm.core.request import Request
    from malcolm.core.response import Response

    kind = ctx.params["kind"]
    id_ = ctx.int("id", -1, 2 ** 31)
    path = [["B"], ["B", "a"], ["B", "a", "value"], ["\u00e9", ""]][
        int(ctx.int("path", 0, 3))]
    v = {"none": None, "number": ctx.int("n", -2 ** 40, 2 ** 40), "text": "te:xt",
         "list": [1, "b", None], "map": dict(b=1, a=[2], c=dict(d=None))}[
             ctx.choice("what", ["none", "number", "text", "list", "map"])]
    o, cls = dict(
        Get=lambda: (Get(id_, path), Request),
        Put=lambda: (Put(id_, path, v, bool(ctx.bool("get"))), Request),
        Post=lambda: (Post(id_, path, dict(z=v, a=1)), Request),
        Subscribe=lambda: (Subscribe(id_, path, bool(ctx.bool("delta"))), Request),
        Unsubscribe=lambda: (Unsubscribe(id_), Request),
        Return=lambda: (Return(id_, v), Response),
        Update=lambda: (Update(id_, v), Response),
        Delta=lambda: (Delta(id_, [[path, v], [path[:1]]]), Response),
        Error=lambda: (Error(id_, ValueError("bad")), Response))[kind]()
    if kind == "Error":
        # what was raised is text from then on
        from annotypes import deserialize_object

        d = o.to_dict()
        ctx.check(d["message"] == "ValueError: bad", "says what was raised", d)
        back = deserialize_object(d, Error)
        ctx.check(ctx.And(back.id == id_, back.message == "ValueError: bad"),
                  "reads back the same", back)
        o = back
    back = both_ways(ctx, o, cls, kind)
    ctx.check(ctx.eq(back.id, id_), "its id", kind)
    if hasattr(back, "path"):
        ctx.check(list(back.path) == path, "its path", (back.path, path))
    if kind in ("Put", "Return", "Update"):
        ctx.check(ctx.eq(values(back.value), v), "its value", kind)
    ctx.cover("done")


def wrong(ctx):
    """Dictionaries with something missing, unknown or of the wrong kind"""
    from annotypes import deserialize_object

    from malcolm.core import Get, MapMeta, MethodMeta, MethodModel, NumberMeta
    from malcolm.core import NumberArrayMeta, Put, StringMeta, TableMeta
    from malcolm.core.models import Display

    from collections import OrderedDict

    what = ctx.params["what"]
    alarm = OrderedDict(typeid="alarm_t", severity=0, status=0, message="")
    time = OrderedDict(typeid="time_t", secondsPastEpoch=1, nanoseconds=2, userTag=3)
    table = TableMeta("d", elements=dict(n=NumberArrayMeta("int32")))
    method = MethodMeta(MapMeta(dict(p=NumberMeta("int32")), ["p"]), {}, "d")
    base = dict(
        scalar=lambda: NumberMeta("int32", "d").create_attribute_model(3),
        array=lambda: NumberArrayMeta("int32", "d").create_attribute_model([3]),
        table=lambda: table.create_attribute_model(dict(n=[3])),
        number=lambda: NumberMeta("int32", "d"), tablemeta=lambda: table,
        method=lambda: MethodModel(meta=method), put=lambda: Put(3, ["B"], 3),
        get=lambda: Get(3, ["B"]))[what]().to_dict(OrderedDict)
    n = ctx.int("n", -50, 50)
    bad = [
        ("no typeid", lambda d: d.pop("typeid")),
        ("unknown typeid", lambda d: d.update(typeid="malcolm:core/What:1.0")),
        ("typeid of something else", lambda d: d.update(typeid="time_t")),
        ("unknown field", lambda d: d.update(zz=n)),
    ]
    fields = dict(
        description=[n, None, ["x"], alarm], label=[n, None], tags=[[n], [None]],
        writeable=["x"], meta=[alarm, None, n, "x", StringMeta().to_dict()],
        alarm=[time, n, "x", dict(alarm, severity=n), dict(alarm, message=n),
               dict(alarm, extra=1)],
        timeStamp=[alarm, "x", dict(time, secondsPastEpoch="x")],
        value=["x", [[1, 2]], dict(m=[1]), dict(n=[1], m=[2])],
        dtype=["int33", n, None], display=[alarm, n, "x", dict(typeid="display_t", zz=1)],
        elements=[dict(n=StringMeta().to_dict()), dict(n=alarm), dict(n=n), n],
        path=[[], None])
    if what in ("put", "get"):
        fields.pop("value")
        fields.pop("meta")
    if what == "scalar":
        fields["meta"].append(NumberArrayMeta("int32").to_dict())
        # a StringMeta is fine if the value is text
        fields["meta"] = [x for x in fields["meta"] if not isinstance(x, dict) or
                          x.get("typeid") != "malcolm:core/StringMeta:1.0"]
    if what == "method":
        # None is the same as not giving it
        fields["meta"].remove(None)
    ctx.assume(n != 0)
    for k, vs in fields.items():
        if k in base:
            bad += [(f"{k} is {v!r}", lambda d, k=k, v=v: d.update({k: v})) for v in vs]
    i = int(ctx.int("bad", 0, len(bad) - 1))
    name, change = bad[i]
    if "severity" in name:
        ctx.assume(ctx.Or(n < 0, n > 4))
    change(base)
    try:
        got = deserialize_object(base)
    except (AssertionError, TypeError, ValueError, KeyError, AttributeError):
        ctx.cover("refused")
    else:
        ctx.check(False, "refused", (what, name, got))


ALPHABET = ["a", ":", "Z", "_", "7"]


def tags(ctx):
    """Port, group, config, link and badge tags with any short texts, among others"""
    from malcolm.core import Port, Widget, config_tag, get_config_tag, group_tag
    from malcolm.core.tags import (
        badge_value_tag, linked_value_tag, without_config_tags, without_group_tags,
        without_linked_value_tags,
    )

    p = ctx.params
    n = int(ctx.int("len", 0, p["n"]))
    text = "".join(ctx.choice(f"c{i}", ALPHABET) for i in range(n))
    port = ctx.choice("port", list(Port))
    source = bool(ctx.bool("source"))
    tag = port.source_port_tag(text) if source else port.sink_port_tag(text)
    others = [Widget.COMBO.tag(), group_tag("outputs"), config_tag(2),
              linked_value_tag("mri:x", text), badge_value_tag("m", text)]
    where = p["where"]
    full = others[:where] + [tag] + others[where:]
    got = Port.port_tag_details(full)
    ctx.check(got == (source, port, text), "the port's details", (full, got))
    ctx.check(Port.port_tag_details(others) is None, "nothing if not a port", others)
    ctx.check(get_config_tag(full) == "config:2", "the config tag", full)
    for f, t in ((without_config_tags, config_tag(2)),
                 (without_group_tags, group_tag("outputs")),
                 (without_linked_value_tags, linked_value_tag("mri:x", text))):
        ctx.check(f(full) == [x for x in full if x != t], "without these tags", (t, full))
    ctx.check(get_config_tag(without_config_tags(full)) is None, "no config tag", full)
    other = ctx.choice("other", list(Port))
    new = other.with_source_port_tag(full, "new:" + text)
    ctx.check(new == [x for x in full if not source or x != tag]
              + [other.source_port_tag("new:" + text)], "with another source", (full, new))
    if source:
        ctx.check(Port.port_tag_details(new) == (True, other, "new:" + text),
                  "its details", new)
    ctx.cover("done")


def rows(ctx):
    """Tables made of rows and rows of tables"""
    from malcolm.modules.builtin.util import LayoutTable

    n = int(ctx.int("n", 0, ctx.params["n"]))
    data = [[f"n{i}", f"m{i}", ctx.real(f"x{i}", -100, 100), ctx.real(f"y{i}", -100, 100),
             bool(ctx.bool(f"v{i}"))] for i in range(n)]
    t = LayoutTable.from_rows(data)
    ctx.check(ctx.eq([values(r) for r in t.rows()], data), "gives the rows", data)
    for i in range(n):
        ctx.check(ctx.eq(values(t[i]), data[i]), "row by number", i)
        ctx.check(ctx.eq(values(t[i - n]), data[i]), "row from the end", i)
    ctx.check(list(t.to_dict())[1:] == ["name", "mri", "x", "y", "visible"], "columns", t)
    again = LayoutTable.from_rows(t.rows())
    ctx.check(again == t and not again != t, "the same table", data)
    if n:
        # one that differs anywhere is another one
        i, j = int(ctx.int("row", 0, n - 1)), int(ctx.int("col", 0, 4))
        other = [list(r) for r in data]
        v = other[i][j]
        other[i][j] = (not v) if j == 4 else v + 1 if j in (2, 3) else v + "x"
        t2 = LayoutTable.from_rows(other)
        ctx.check(t2 != t and not t2 == t, "another table", (i, j))
        short = LayoutTable.from_rows(data[:-1])
        ctx.check(short != t, "a shorter table", n)
        cols = {k: list(getattr(t, k).seq) for k in t.call_types}
        cols[list(cols)[j]].pop()
        try:
            list(LayoutTable(**cols).rows())
        except AssertionError:
            ctx.cover("uneven")
        else:
            ctx.check(False, "columns of different lengths are refused", cols)
    ctx.cover("done")


KINDS = ["int8", "uint32", "int64", "float64", "bool", "text", "choice", "int32s",
         "float64s", "bools", "texts", "choices", "table"]
A = [dict(kind=k, json=j) for k in KINDS for j in (0, 1)]
A += [dict(kind=k, json=1, alarms=1) for k in ("int8", "bools")]
PAIRS = [("int8", "table"), ("choice", "float64s"), ("texts", "bool"), ("table", "text"),
         ("bools", "int64")]
MSG = ["Get", "Put", "Post", "Subscribe", "Unsubscribe", "Return", "Update", "Delta",
       "Error"]
HARNESSES = {
    "attributes": Harness(attributes, quick=A, thorough=A + [
        dict(kind=k, json=j, alarms=1) for k in KINDS for j in (0, 1)], must=["done"]),
    "methods": Harness(methods, quick=[dict(kinds=k, json=i % 2)
                                       for i, k in enumerate(PAIRS)],
                       thorough=[dict(kinds=k, json=j) for k in PAIRS for j in (0, 1)],
                       must=["done"]),
    "messages": Harness(messages, quick=[dict(kind=k, json=j) for k in MSG
                                         for j in (0, 1)], must=["done"]),
    "wrong": Harness(wrong, quick=[dict(what=w) for w in (
        "scalar", "array", "table", "number", "tablemeta", "method", "put", "get")],
        must=["refused"]),
    "tags": Harness(tags, quick=[dict(n=2, where=0), dict(n=2, where=5)],
                    thorough=[dict(n=3, where=w) for w in (0, 3, 5)], must=["done"]),
    "rows": Harness(rows, quick=[dict(n=3)], thorough=[dict(n=4)],
                    must=["done", "uneven"]),
}
