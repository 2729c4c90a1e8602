"""Manager blocks: exported fields, layout and port connections"""
from symx.harness import Harness

from .c01 import plain
from .c07 import config_dir, no_sync

TITLE = "Exports and port links show what the children have"
ASSUMPTIONS = [
    "the children are real blocks whose hardware is a stand-in that stores what is put",
    "the real cothread scheduler runs on a virtual clock",
]


class Boom(Exception):
    pass


class Kids:
    """A manager over children with attributes, a method and ports"""

    def __init__(self, ctx, mris, ports=False, visible=True, connect=None):
        from annotypes import Anno

        from malcolm.core import (
            NumberMeta, Part, Port, Process, StringMeta, TableMeta, NumberArrayMeta,
            config_tag,
        )
        from malcolm.modules.builtin.controllers import (
            BasicController, ManagerController,
        )
        from malcolm.modules.builtin.parts import ChildPart

        no_sync()
        self.ctx = ctx
        self.calls = []
        self.attrs = {}
        self.fields = {}
        self.process = Process("proc")
        outer = self

        class Leaf(Part):
            def setup(self, registrar):
                super().setup(registrar)
                mri = self.name
                n = NumberMeta("int32", "n", tags=[config_tag(1)],
                               writeable=True).create_attribute_model(0)
                r = NumberMeta("float64", "r").create_attribute_model(0.5)
                t = TableMeta("t", elements=dict(
                    i=NumberArrayMeta("int32", "i"), j=NumberArrayMeta("int32", "j")),
                    writeable=True).create_attribute_model(dict(i=[1], j=[2]))
                registrar.add_attribute_model("n", n, outer.put(mri, "n", n))
                registrar.add_attribute_model("t", t, outer.put(mri, "t", t))
                registrar.add_attribute_model("r", r)
                outer.attrs.update({(mri, "n"): n, (mri, "r"): r, (mri, "t"): t})

                def go(p, q=5):
                    outer.calls.append((mri, "go", dict(p=p, q=q)))
                    if p > 90:
                        raise Boom("too much")
                    return p + 1

                go.call_types = dict(p=Anno("p", name="p").set_typ(int),
                                     q=Anno("q", name="q").set_typ(int))
                go.call_types["q"].default = 5
                go.return_type = Anno("ret", name="return").set_typ(int)
                registrar.add_method_model(go, "go")

        class Ports(Part):
            def setup(self, registrar):
                super().setup(registrar)
                mri = self.name
                for s, port in (("in1", Port.INT32), ("in2", Port.BOOL)):
                    a = StringMeta(tags=[port.sink_port_tag("ZERO"), config_tag(1)],
                                   writeable=True).create_attribute_model(
                        (connect or {}).get((mri, s), "ZERO"))
                    registrar.add_attribute_model(s, a, outer.put(mri, s, a))
                    outer.attrs[(mri, s)] = a
                for s, port in (("out1", Port.INT32), ("out2", Port.BOOL)):
                    v = f"{mri}.{s}"
                    a = StringMeta(tags=[port.source_port_tag(v)]
                                   ).create_attribute_model(v)
                    registrar.add_attribute_model(s, a)

        self.c = ManagerController("M", config_dir())
        self.leaf = {}
        self.kids = {}
        for m in mris:
            c = BasicController(m)
            c.add_part((Ports if ports else Leaf)(m))
            self.leaf[m] = c
            self.process.add_controller(c)
            self.kids[m] = ChildPart(m.lower(), m, initial_visibility=visible,
                                     stateful=False)
            self.c.add_part(self.kids[m])
        self.process.add_controller(self.c)
        self.process.start()
        self.block = self.c.block_view()
        ctx.settle()
        self.base = self.shown()

    def put(self, mri, name, attr):
        def f(value):
            self.calls.append((mri, name, value))
            attr.set_value(value)

        return f

    def shown(self):
        """The names of the fields of the block"""
        return [k for k in self.c._block if k != "meta"]

    def field(self, name):
        from malcolm.core.notifier import freeze

        return plain(freeze(self.c._block[name]))

    def child_field(self, mri, name):
        from malcolm.core.notifier import freeze

        return plain(freeze(self.leaf[mri]._block[name]))

    def layout(self):
        t = self.c.layout.value
        return {n: dict(mri=m, x=x, y=y, visible=v) for n, m, x, y, v in
                zip(t.name, t.mri, t.x, t.y, t.visible)}


def check_exports(ctx, k, rows, what):
    """The block has its own fields and the exports of these rows, nothing else"""
    vis = k.layout()
    want = {}
    for source, name in rows:
        part, field = source.split(".")
        if vis[part]["visible"]:
            want[name or field] = (vis[part]["mri"], field)
    ctx.check(sorted(k.shown()) == sorted(k.base + list(want)),
              "exactly the exported fields are shown", (what, k.shown(), want))
    ctx.check(sorted(k.c._block.meta.fields) == sorted(k.shown()), "and listed", what)
    for name, (mri, field) in want.items():
        got, src = k.field(name), k.child_field(mri, field)
        label = "".join(" " + c if c.isupper() or c.isdigit() else c for c in name)
        ctx.check(got["meta"]["label"].replace(" ", "").lower()
                  == label.replace(" ", "").lower(), "an export is labelled with its name",
                  (what, name, got["meta"]["label"]))
        ctx.check(not [t for t in got["meta"].get("tags", ()) if t.startswith("config:")],
                  "an export is not saved by the block above", (what, name, got["meta"]))
        for d in (got, src):
            d["meta"] = {x: y for x, y in d["meta"].items() if x not in ("label", "tags", "writeable")}
            d.pop("took", None)
            d.pop("returned", None)
        ctx.check(ctx.eq(got, src), "an export shows the child's field",
                  (what, name, got, src))
    return want


TABLES = {
    "none": [],
    "n": [("a.n", "n")],
    "named": [("a.n", "speed")],
    "two": [("a.n", "speed"), ("b.n", "other")],
    "swapped": [("b.n", "speed"), ("a.n", "other")],
    "read only": [("a.r", "value1")],
    "method": [("a.go", "go")],
    "named method": [("b.go", "fire"), ("b.t", "tab")],
    "twice": [("a.n", "one"), ("a.n", "two")],
}
BAD = {
    "same name": [("a.n", "speed"), ("b.n", "speed")],
    "no name": [("a.n", "")],
    "own field": [("a.n", "layout")],
    "own method": [("a.n", "save")],
    "own state": [("a.n", "state")],
    "not a name": [("a.n", "Bad Name")],
    "block meta": [("a.n", "meta")],
}


def exports(ctx):
    """Any sequence of export tables, changes of the children, puts and posts through
    the exports and hiding of a child"""
    p = ctx.params
    k = Kids(ctx, ["A", "B"])
    rows = []
    what = []
    seq = ctx.choice("plan", p["plans"])
    for i, op in enumerate(seq):
        if op == "table":
            name = ctx.choice(f"table{i}", p["tables"])
            what.append(name)
            bad = name in BAD
            new = BAD.get(name) or TABLES[name]
            before = k.shown(), plain(k.c.exports.value)
            err = None
            try:
                k.block.exports.put_value(dict(source=[x for x, _ in new],
                                               export=[y for _, y in new]))
            except Exception as e:
                err = e
            ctx.settle()
            ctx.check((err is not None) == bad, "refused exactly if it can't be shown",
                      (what, err))
            if bad:
                ctx.check((k.shown(), plain(k.c.exports.value)) == before,
                          "a refused table changes nothing", (what, err))
                ctx.cover("refused")
            else:
                rows = new
        elif op == "child":
            v = ctx.int(f"c{i}", -50, 50)
            f = ctx.choice(f"f{i}", ["n", "r", "alarm", "t", "label", "tags"])
            what.append("child " + f)
            if f == "alarm":
                from malcolm.core import Alarm

                k.attrs[("A", "n")].set_value(v, alarm=Alarm.major("oh"))
            elif f in ("label", "tags"):
                m = k.attrs[("A", "n")].meta
                if f == "label":
                    m.set_label("Mine")
                else:
                    m.set_tags(list(m.tags) + ["group:x", "seen"])
            elif f == "t":
                t = k.attrs[("B", "t")]
                t.set_value(type(t.value)(i=[v], j=t.value.j))
            else:
                for m in ("A", "B"):
                    k.attrs[(m, f)].set_value(v)
            ctx.settle()
        elif op == "writeable":
            what.append(op)
            m = k.leaf["A"]._block["n"].meta
            m.set_writeable(not m.writeable)
            ctx.settle()
        elif op == "hide":
            what.append(op)
            v = not k.layout()["a"]["visible"]
            k.block.layout.put_value(dict(name=["a"], mri=[""], x=[0], y=[0],
                                          visible=[v]))
            ctx.settle()
        elif op == "use":
            want = check_exports(ctx, k, rows, what)
            for j, (name, (mri, field)) in enumerate(want.items()):
                use(ctx, k, name, mri, field, f"u{i}{j}", what)
        check_exports(ctx, k, rows, what)
    ctx.cover("done")


def use(ctx, k, name, mri, field, var, what):
    """A put or post to an export is one to the child, and gives its answer"""
    v = ctx.int(var, -50, 50)
    k.calls.clear()
    others = {x: plain(a.value) for x, a in k.attrs.items() if x != (mri, field)}
    err = got = None
    if field == "go":
        fail = ctx.choice(var + "fail", [False, True])
        q = ctx.choice(var + "q", [None, 3])
        p = 95 if fail else v
        kw = dict(p=p) if q is None else dict(p=p, q=q)
        try:
            got = k.block[name](**kw)
        except Exception as e:
            err = e
        ctx.check(len(k.calls) == 1 and k.calls[0][:2] == (mri, "go"),
                  "a post reaches its child once", (what, name, k.calls, err))
        ctx.check(ctx.eq(k.calls[0][2], dict(p=p, q=5 if q is None else q)),
                  "with its parameters", (what, k.calls))
        if fail:
            ctx.check(err is not None and "too much" in str(err),
                      "the child's error is given", (what, err))
        else:
            ctx.check(err is None, "a post works", (what, err))
            ctx.check(ctx.eq(got, v + 1), "the child's answer is given", (what, got))
        ctx.cover("post")
    else:
        value = dict(i=[v, v], j=[3, v]) if field == "t" else v
        old = plain(k.attrs[(mri, field)].value)
        ok = k.leaf[mri]._block[field].meta.writeable
        try:
            k.block[name].put_value(value)
        except Exception as e:
            err = e
        ctx.settle()
        now = plain(k.attrs[(mri, field)].value)
        ctx.check((err is None) == ok, "a put works if the child's field is writeable",
                  (what, name, err))
        ctx.check(len(k.calls) == (1 if ok else 0), "a put reaches its child once",
                  (what, name, k.calls))
        if ok:
            now.pop("typeid", None) if isinstance(now, dict) else 0
            ctx.check(ctx.eq(now, value), "the child has the value", (what, name, now))
        else:
            ctx.check(ctx.eq(now, old), "a refused put changes nothing", (what, name))
        ctx.cover("put")
    ctx.check(ctx.eq({x: plain(k.attrs[x].value) for x in others}, others),
              "nothing else is changed", (what, name))


def fields(ctx):
    """Fields of a child come and go: exports, choices and modified follow"""
    from malcolm.core import NumberMeta, config_tag

    k = Kids(ctx, ["A", "B"])
    a = k.leaf["A"]
    k.block.exports.put_value(dict(source=["a.n", "b.n"], export=["x", "y"]))
    k.block.save("d")
    attr = k.attrs[("A", "n")]
    have = True
    for i in range(ctx.params["n"]):
        op = ctx.choice(f"op{i}", ["remove" if have else "add", "change"])
        if op == "remove":
            with a.changes_squashed:
                a._block.remove_endpoint("n")
            have = False
        elif op == "add":
            attr = NumberMeta("int32", "n", tags=[config_tag(1)],
                              writeable=True).create_attribute_model(0)
            k.attrs[("A", "n")] = attr
            a.add_block_field("n", attr, k.put("A", "n", attr), False)
            have = True
        elif have:
            attr.set_value(ctx.int(f"v{i}", -50, 50))
        ctx.settle()
        ctx.settle()
        rows = ([("a.n", "x")] if have else []) + [("b.n", "y")]
        check_exports(ctx, k, rows, (i, op))
        choices = k.c.exports.meta.elements["source"].choices
        ctx.check(sorted(choices) == sorted(
            [f"a.{f}" for f in a._block.meta.fields]
            + [f"b.{f}" for f in k.leaf["B"]._block.meta.fields]),
            "every field can be exported", (i, op, choices))
        if have:
            diff = ctx.Not(ctx.eq(attr.value, 0))
            got = k.block.modified.value
            ctx.check(diff if got else ctx.Not(diff), "modified follows the field",
                      (i, op, got, k.c.modified.alarm.message))
    ctx.cover("done")


def nested(ctx):
    """A manager exports what another manager exports while that one changes what it
    exports, is saved, or hides a child"""
    from malcolm.core import Alarm
    from malcolm.core.notifier import freeze
    from malcolm.modules.builtin.controllers import ManagerController
    from malcolm.modules.builtin.parts import ChildPart

    p = ctx.params
    k = Kids(ctx, ["A", "B"])
    k.block.exports.put_value(dict(source=["a.n"], export=["speed"]))
    top = ManagerController("TOP", config_dir())
    top.add_part(ChildPart("m", "M", initial_visibility=True))
    k.process.add_controller(top)
    ctx.settle()
    block = top.block_view()
    block.exports.put_value(dict(source=["m.speed", "m.state"], export=["top", "st"]))
    base = [x for x in top._block if x not in ("meta", "top", "st")]
    rows = [("a.n", "speed")]
    what = []
    for i in range(p["n"]):
        op = ctx.choice(f"op{i}", p["ops"])
        what.append(op)
        if op == "set":
            v = ctx.int(f"v{i}", -50, 50)
            k.attrs[("A", "n")].set_value(v, alarm=Alarm.major("oh"))
            k.attrs[("B", "n")].set_value(v + 1)
        elif op == "save":
            k.block.save("d")
        elif op == "hide":
            k.block.layout.put_value(dict(
                name=["a"], mri=[""], x=[0], y=[0],
                visible=[not k.layout()["a"]["visible"]]))
        else:
            rows = {"b": [("b.n", "speed")], "a": [("a.n", "speed")],
                    "more": [("b.n", "other"), ("a.n", "speed")],
                    "none": []}[op]
            k.block.exports.put_value(dict(source=[x for x, _ in rows],
                                           export=[y for _, y in rows]))
        for j in range(3):
            ctx.settle()
        want = check_exports(ctx, k, rows, what)
        expect = ["st"] + (["top"] if "speed" in want else [])
        ctx.check(sorted(x for x in top._block if x != "meta") == sorted(base + expect),
                  "what is exported twice is shown exactly if it is there", what)
        for name, src in (("st", "state"), ("top", "speed")):
            if name in expect:
                got, exp = plain(freeze(top._block[name])), k.field(src)
                for d in (got, exp):
                    d["meta"] = {x: y for x, y in d["meta"].items()
                                 if x not in ("label", "tags", "writeable")}
                ctx.check(ctx.eq(got, exp), "and as it is", (what, name, got, exp))
        ctx.check(top._block["st"].meta.label == "St", "under its name", what)
        if "top" in expect:
            v = ctx.int(f"put{i}", -50, 50)
            k.calls.clear()
            block["top"].put_value(v)
            ctx.settle()
            mri, field = want["speed"]
            ctx.check(len(k.calls) == 1 and k.calls[0][:2] == (mri, field)
                      and bool(ctx.eq(k.calls[0][2], v)),
                      "a put goes all the way down", (what, k.calls))
            ctx.check(ctx.eq(block["top"].value, v), "and is seen", what)
            ctx.cover("put")
        else:
            ctx.cover("gone")
    ctx.cover("done")


def layouts(ctx):
    """Children with connected ports are hidden, shown and moved in any order, by
    tables of any of their rows"""
    p = ctx.params
    mris = p["mris"]
    sources = ["ZERO", "junk"] + [f"{m}.{s}" for m in mris for s in ("out1", "out2")]
    sources = [s for s in sources if s in p.get("sources", sources)]
    init = {}
    names = [(m, s) for m in mris for s in ("in1", "in2") if s in p["sinks"]]
    if p["connect"] == "before":
        init = {x: ctx.choice("c%s%s" % x, sources) for x in names}
    k = Kids(ctx, mris, ports=True, visible=p["visible"], connect=init)
    if p["connect"] == "after":
        for m, s in names:
            k.process.block_view(m)[s].put_value(ctx.choice(f"c{m}{s}", sources))
    ctx.settle()
    typ = dict(in1="out1", in2="out2")
    now = k.layout()
    ctx.check(sorted(now) == sorted(m.lower() for m in mris), "every child is there", now)
    if p["visible"] is None:
        linked = set()
        for (m, s), v in init.items():
            if "." in v and v.split(".")[1] == typ[s]:
                linked |= {m, v.split(".")[0]}
        for m in mris:
            ctx.check(now[m.lower()]["visible"] == (m in linked),
                      "visible at first if connected", (init, m))
    for i in range(p["n"]):
        before = k.layout()
        sinks = {x: k.attrs[x].value for x in names}
        rows = ctx.choice(f"rows{i}", p["rows"])
        new = {}
        for m in rows:
            new[m] = dict(x=ctx.real(f"x{i}{m}", -10, 10), y=ctx.int(f"y{i}", 0, 9),
                          visible=bool(ctx.bool(f"vis{i}{m}")))
        k.block.layout.put_value(dict(
            name=[m.lower() for m in rows], mri=[""] * len(rows),
            x=[new[m]["x"] for m in rows], y=[new[m]["y"] for m in rows],
            visible=[new[m]["visible"] for m in rows]))
        ctx.settle()
        after = k.layout()
        what = (i, new, sinks)
        for m in mris:
            want = dict(before[m.lower()])
            want.update(new.get(m, {}))
            want["mri"] = m
            ctx.check(ctx.eq(after[m.lower()], want), "the layout is what was put",
                      (what, after[m.lower()], want))
        hidden = [m for m in rows if before[m.lower()]["visible"]
                  and not new[m]["visible"]]
        for (m, s), v in sinks.items():
            cut = m in hidden or any(v == f"{h}.{typ[s]}" for h in hidden)
            got = k.attrs[(m, s)].value
            ctx.check(got == ("ZERO" if cut else v),
                      "hiding disconnects exactly what was connected",
                      (what, m, s, got))
            if cut and v != "ZERO":
                ctx.cover("cut")
    ctx.cover("done")


PLANS = [["table", "child", "use"], ["table", "table", "child", "use"],
         ["child", "table", "hide", "child", "hide", "use"],
         ["table", "writeable", "use", "writeable", "table", "use"]]
GOOD = list(TABLES)
HARNESSES = {
    "exports": Harness(exports, quick=[
        dict(plans=[PLANS[0]], tables=GOOD + list(BAD)),
        dict(plans=[PLANS[1]], tables=["none", "two", "swapped", "read only", "same name",
                                      "own field", "block meta"]),
        dict(plans=[PLANS[2]], tables=["two", "named method", "read only"]),
        dict(plans=[PLANS[3]], tables=["two", "method", "n"])],
        thorough=[dict(plans=[x], tables=GOOD + list(BAD)) for x in PLANS],
        must=["done", "put", "post", "refused"]),
    "fields": Harness(fields, quick=[dict(n=4)], thorough=[dict(n=6)], must=["done"]),
    "nested": Harness(nested, quick=[
        dict(n=2, ops=["set", "save", "hide", "a", "b", "more", "none"]),
        dict(n=3, ops=["hide", "b", "none"])],
        thorough=[dict(n=4, ops=["set", "save", "hide", "a", "b", "more", "none"])],
        must=["done", "put", "gone"]),
    "layouts": Harness(layouts, quick=[
        dict(mris=["A", "B"], connect=c, visible=v, n=1, sinks=["in1", "in2"],
             rows=[["A"], ["A", "B"]], sources=["ZERO", "A.out1", "A.out2"])
        for c, v in (("before", True), ("after", True), ("before", None))] + [
        dict(mris=["A", "B"], connect=c, visible=v, n=2, sinks=["in1"],
             rows=[["A"], ["A", "B"]], sources=["ZERO", "A.out1", "B.out1"])
        for c, v in (("before", True), ("after", True), ("before", None))] + [
        dict(mris=["A", "B", "C"], connect=c, visible=v, n=1, sinks=["in1"],
             rows=[["A"], ["B", "C"]], sources=["ZERO", "A.out1", "B.out1"])
        for c, v in (("before", None), ("after", True))],
        thorough=[dict(mris=["A", "B", "C"], connect=c, visible=v, n=2, sinks=["in1"],
                       rows=[["A"], ["B", "C"], ["A", "B", "C"]])
                  for c, v in (("before", None), ("after", True), ("before", True))],
        must=["done", "cut"]),
}
