"""A proxy of a block in another process, over PVAccess"""
from symx.harness import Harness

from .c01 import plain
from .pvalib import Net, net_classes

TITLE = "A block over PVAccess is the block"
ASSUMPTIONS = [
    "the PVAccess network (channels, monitors, operations) is a stand-in; both "
    "processes, the server and the client comms and the conversions are real",
    "for symbolic runs p4p's Type and Value, which are compiled, are a model of them; "
    "replays use the real ones on every path",
    "the real cothread scheduler runs on a virtual clock",
]


class Boom(Exception):
    pass


def text(x):
    """Without enums, which are texts in the other process"""
    if isinstance(x, dict):
        return {k: text(v) for k, v in x.items()}
    if isinstance(x, list):
        return [text(v) for v in x]
    return x.value if isinstance(getattr(x, "value", None), str) else x


def result(x):
    x = text(plain(x))
    return {k: v for k, v in x.items() if k != "typeid"} if isinstance(x, dict) else x


class Two:
    """A process with a block, and another with a proxy of it"""

    def __init__(self, ctx):
        from annotypes import Anno

        from malcolm.core import (
            BooleanArrayMeta, BooleanMeta, ChoiceArrayMeta, ChoiceMeta, NumberArrayMeta,
            NumberMeta, Part, Process, StringArrayMeta, StringMeta, TableMeta,
        )
        from malcolm.modules.builtin.controllers import (
            BasicController, ProxyController,
        )
        from malcolm.modules.pva.controllers import PvaClientComms, PvaServerComms

        from .pvatypes import Colour, Pair, Rows

        self.ctx = ctx
        self.net = Net(ctx)
        net_classes(self.net)
        self.calls = []
        outer = self
        self.attrs = {}
        self.block_on = {}

        class Leaf(Part):
            def setup(self, registrar):
                super().setup(registrar)
                a = outer.attrs
                a["n"] = NumberMeta("int32", "n").create_attribute_model(0)
                a["u"] = NumberMeta("uint8", "u").create_attribute_model(3)
                a["l"] = NumberMeta("int64", "l").create_attribute_model(4)
                a["x"] = NumberMeta("float64", "x").create_attribute_model(0.5)
                a["s"] = StringMeta("s").create_attribute_model("a")
                a["b"] = BooleanMeta("b").create_attribute_model(False)
                a["c"] = ChoiceMeta("c", ["p", "q"]).create_attribute_model("p")
                a["an"] = NumberArrayMeta("int16", "an").create_attribute_model([1, 2])
                a["ax"] = NumberArrayMeta("float64", "ax").create_attribute_model([1.5])
                a["ab"] = BooleanArrayMeta("ab").create_attribute_model([True])
                a["as"] = StringArrayMeta("as").create_attribute_model(["one"])
                a["ac"] = ChoiceArrayMeta("ac", ["p", "q"]).create_attribute_model(
                    ["q"])
                a["t"] = TableMeta("t", elements=dict(
                    i=NumberArrayMeta("int32", "i"), j=NumberArrayMeta("float64", "j"),
                    k=StringArrayMeta("k"), m=BooleanArrayMeta("m"),
                    c=ChoiceArrayMeta("c", ["p", "q"]))
                ).create_attribute_model(dict(i=[1], j=[2.5], k=["a"], m=[True],
                                              c=["p"]))
                for k in list(a):
                    registrar.add_attribute_model(k, a[k], outer.put(k))
                a["r"] = NumberMeta("int32", "r").create_attribute_model(4)
                registrar.add_attribute_model("r", a["r"])

                def go(p, q=5):
                    outer.calls.append(("go", dict(p=p, q=q)))
                    outer.wait("go")
                    if p > 90:
                        raise Boom("too much")
                    return p + 1

                go.call_types = dict(p=Anno("p", name="p").set_typ(int),
                                     q=Anno("q", name="q").set_typ(int))
                go.call_types["q"].default = 5
                go.return_type = Anno("ret", name="return").set_typ(int)
                registrar.add_method_model(go, "go")

                # one method for each kind of argument and result
                def method(name, call_types, return_type, f):
                    def m(**kw):
                        outer.calls.append((name, kw))
                        return f(**kw)

                    m.call_types = {
                        k: Anno(k, name=k).set_typ(t, is_array=arr)
                        for k, (t, arr) in call_types.items()}
                    m.return_type = Anno("ret", name="return").set_typ(
                        *return_type) if return_type else None
                    registrar.add_method_model(m, name)

                method("nothing", {}, None, lambda: None)
                method("text", dict(a=(str, False)), (str,), lambda a: a + "!")
                method("flag", dict(a=(bool, False)), (bool,), lambda a: a)
                method("real", dict(a=(float, False)), (float,), lambda a: a)
                method("reals", dict(a=(float, True)), (float, True), lambda a: a)
                method("ints", dict(a=(int, True)), (int, True), lambda a: a)
                method("flags", dict(a=(bool, True)), (bool, True), lambda a: a)
                method("texts", dict(a=(str, True)), (str, True), lambda a: a)
                method("pick", dict(a=(Colour, False)), (Colour,), lambda a: a)
                method("picks", dict(a=(Colour, True)), (Colour, True), lambda a: a)
                method("table", dict(a=(Rows, False)), (Rows,), lambda a: a)
                method("pair", dict(a=(int, False), b=(str, False)), (Pair,),
                       lambda a, b: Pair(a, b))

        self.server = Process("server")
        self.pva = PvaServerComms("PVA")
        self.server.add_controller(self.pva)
        self.c = BasicController("B")
        self.c.add_part(Leaf("leaf"))
        self.server.add_controller(self.c)
        self.server.start()
        ctx.settle()
        self.process = Process("client")
        self.comms = PvaClientComms("COMMS")
        self.process.add_controller(self.comms)
        self.proxy = ProxyController("B", "COMMS")
        self.process.add_controller(self.proxy)
        self.process.start()
        ctx.settle()
        self.block = self.proxy.block_view()

    def wait(self, name):
        import cothread

        if name in self.block_on:
            cothread.Sleep(self.block_on[name])

    def put(self, name):
        def f(value):
            self.calls.append((name, value))
            self.wait(name)
            if name == "s" and value == "bad":
                raise Boom("no good")
            self.attrs[name].set_value(value)

        return f

    def same(self, what):
        from malcolm.core.notifier import freeze

        a = text(plain(freeze(self.c._block)))
        b = text(plain(freeze(self.proxy._block)))
        self.ctx.check(list(a) == list(b), "the same fields in the same order",
                       (what, list(a), list(b)))
        for k in a:
            self.ctx.check(self.ctx.eq(a[k], b[k]), "the proxy shows what is there",
                           (what, k, a[k], b[k]))


def results(ctx):
    """Methods with arguments and results of every kind, called through the proxy"""
    w = Two(ctx)
    name = ctx.choice("method", ["nothing", "text", "flag", "real", "reals", "ints",
                                 "flags", "texts", "pick", "picks", "table", "pair"])
    n = ctx.choice("n", [0, 1, 2]) if name[-1] == "s" or name == "table" else 1
    args = dict(
        nothing=lambda: {}, text=lambda: dict(a=ctx.choice("a", ["", "x"])),
        flag=lambda: dict(a=ctx.bool("a")), real=lambda: dict(a=ctx.real("a", -9, 9)),
        reals=lambda: dict(a=[ctx.real(f"a{i}", -9, 9) for i in range(n)]),
        ints=lambda: dict(a=[ctx.int(f"a{i}", -9, 9) for i in range(n)]),
        flags=lambda: dict(a=[ctx.bool(f"a{i}") for i in range(n)]),
        texts=lambda: dict(a=["x", "", "y"][:n]),
        pick=lambda: dict(a=ctx.choice("a", ["red", "blue"])),
        picks=lambda: dict(a=["blue", "red"][:n]),
        table=lambda: dict(a=dict(i=[ctx.int(f"a{i}", -9, 9) for i in range(n)],
                                  k=["x", ""][:n], c=["blue", "red"][:n])),
        pair=lambda: dict(a=ctx.int("a", -9, 9), b="x"))[name]()
    local = w.c.block_view()[name](**args)
    ctx.settle()
    took = w.calls.pop()
    ctx.check(not w.calls, "called once", w.calls)
    remote = w.block[name](**args)
    ctx.settle()
    ctx.check(len(w.calls) == 1 and w.calls[0][0] == name, "called once", w.calls)
    a, b = text(plain(took[1])), text(plain(w.calls[0][1]))
    ctx.check(ctx.eq(a, b), "the arguments are those that were sent", (name, a, b))

    a, b = result(local), result(remote)
    ctx.check(ctx.eq(a, b), "the result is what was returned", (name, a, b))
    w.same(name)
    ctx.cover(name)


def puts(ctx):
    """Values of every kind put through the proxy, or by a PVAccess client to the
    channel of the block or of the field; things that can't be put"""
    w = Two(ctx)
    name = ctx.choice("attribute", ["n", "u", "l", "x", "s", "b", "c", "an", "ax", "ab",
                                    "as", "ac", "t", "r"])
    k = ctx.choice("rows", [0, 1, 2]) if name[0] == "a" or name == "t" else 1
    value = dict(
        n=lambda: ctx.int("v", -50, 50), u=lambda: ctx.int("v", 0, 255),
        l=lambda: ctx.int("v", -2 ** 63, 2 ** 63 - 1),
        x=lambda: ctx.real("v", -50, 50), r=lambda: ctx.int("v", -9, 9),
        s=lambda: ctx.choice("v", ["", "x", "bad"]), b=lambda: ctx.bool("v"),
        c=lambda: ctx.choice("v", ["p", "q", "nonsense"]),
        an=lambda: [ctx.int(f"v{i}", -9, 9) for i in range(k)],
        ax=lambda: [ctx.real(f"v{i}", -9, 9) for i in range(k)],
        ab=lambda: [ctx.bool(f"v{i}") for i in range(k)],
        ac=lambda: ["q", "p"][:k], t=lambda: dict(
            i=[ctx.int(f"v{i}", -9, 9) for i in range(k)], j=[0.5, 1.5][:k],
            k=["x", ""][:k], m=[False, True][:k], c=["q", "p"][:k]),
        **{"as": lambda: ["x", ""][:k]})[name]()
    how = ctx.params["how"]
    before = text(plain(w.attrs[name].value))
    err = None
    if how != "proxy":
        me = Watcher(w, "B" if how == "block" else "B." + name)
        ctx.settle()
    try:
        if how == "proxy":
            w.block[name].put_value(value)
        else:
            path = f"{name}.value" if how == "block" else "value"
            values = {path: value}
            extra = ctx.choice("extra", [None, "field", "meta"])
            if extra == "field" and how == "block":
                values["n.value" if name != "n" else "u.value"] = 1
            elif extra == "meta":
                del values[path]
                values[path.replace("value", "meta.label")] = "Mine"
            else:
                extra = None
            w.comms._ctxt.put(me.name, values)
    except Exception as e:
        err = e
    ctx.settle()
    bad = how != "proxy" and extra or name == "r" or name == "c" and (
        value == "nonsense") or name == "s" and value == "bad"
    if bad:
        ctx.check(err is not None, "the error comes back", (name, how))
        ctx.check(ctx.eq(before, text(plain(w.attrs[name].value))), "nothing changes",
                  (name, how))
        if name == "s" and how == "proxy":
            ctx.check("no good" in str(err), "the error comes back", str(err))
        ctx.cover("refused")
    else:
        ctx.check(err is None, "the put works", (name, how, repr(err)))
        ctx.check(len(w.calls) == 1 and w.calls[0][0] == name, "put once", w.calls)
        got = result(w.calls[0][1])
        ctx.check(ctx.eq(value, got), "the value that was put", (name, how, value, got))
        ctx.check(type(w.calls[0][1]) is type(w.attrs[name].meta.validate(value)),
                  "of its type", type(w.calls[0][1]))
        ctx.cover("put")
    w.same((name, how))


def calls(ctx):
    """Remote calls of PVAccess clients: by a URI, to the channel of the method, or
    naming the method in the request; of methods that work, fail or aren't there"""
    import p4p.nt

    w = Two(ctx)
    how = ctx.choice("how", ["uri", "field", "request"])
    name = ctx.choice("method", ["go", "nothing", "pair", "absent", "n", "fails",
                                 "unknown", "missing"])
    v = ctx.int("v", -50, 50)
    args, types = dict(
        nothing=({}, []), pair=(dict(a=v, b="x"), [("a", "l"), ("b", "s")]),
        absent=({}, []), n=({}, []), fails=(dict(p=91), [("p", "l")]),
        unknown=(dict(p=v, z=1), [("p", "l"), ("z", "l")]),
        missing=(dict(q=v), [("q", "l")])).get(name) or (dict(p=v), [("p", "l")])
    if name == "go" and ctx.choice("both", [False, True]):
        args["q"] = ctx.int("q", -50, 50)
        types.append(("q", "l"))
    method = dict(fails="go", unknown="go", missing="go").get(name, name)
    channel = "B." + method if how == "field" else "B"
    err = ret = None
    request = {}
    if how == "uri":
        uri = p4p.nt.NTURI(types)
        value = uri.wrap(path="B." + method, kws=args, scheme="pva")
    else:
        value = w.net.Value(w.net.Type(types), args)
        if how == "request":
            request = dict(method=method)
    try:
        ret = w.comms._ctxt.rpc(channel, value, request)
    except Exception as e:
        err = e
    ctx.settle()
    if name in ("go", "nothing", "pair"):
        ctx.check(err is None, "the call works", (how, name, repr(err)))
        want = dict(args, q=args.get("q", 5)) if name == "go" else args
        ctx.check(len(w.calls) == 1 and w.calls[0][0] == name, "called once", w.calls)
        ctx.check(ctx.eq(plain(w.calls[0][1]), want), "with the arguments sent",
                  (how, name, w.calls))
        got = dict(ret.items())
        ctx.check(ctx.eq(got, {"return": v + 1} if name == "go" else args),
                  "the result comes back", (how, name, got))
        ctx.cover("works")
    else:
        ctx.check(err is not None, "the error comes back", (how, name))
        ctx.check(not w.calls or name == "fails", "not called", w.calls)
        if name == "fails":
            ctx.check("too much" in str(err), "the error comes back", str(err))
        ctx.cover("fails")
    w.same((how, name))


def life(ctx):
    """Clients come and go, the server is stopped and started again, the block is no
    longer there: who is connected has what is there"""
    p = ctx.params
    w = Two(ctx)
    from malcolm.core.notifier import freeze
    from malcolm.modules.pva.controllers.pvaconvert import convert_value_to_dict

    clients = []
    up = True

    def look(what):
        ctx.settle()
        block = text(plain(freeze(w.c._block)))
        for c in clients:
            if not up:
                continue
            ctx.check(c.value is not None, "connected", what)
            got = plain(convert_value_to_dict(c.value))
            want = block["n"] if c.name == "B.n" else block
            a, b = leaves(want), leaves(got)
            ctx.check(list(a) == list(b), "the same fields", what)
            for k in ("value", "n.value", "x.value"):
                if k in a:
                    ctx.check(ctx.eq(a[k], b[k]), "the value is what is there", (what, k))
        h = w.proxy._block.health
        if up:
            w.same(what)
        else:
            ctx.check(h.alarm.severity.name != "NO_ALARM" and
                      "disconnected" in h.value, "the proxy shows that it is lost",
                      (what, h.value))

    what = []
    for i in range(p["n"]):
        op = ctx.choice(f"op{i}", p["first"] if not i else p["ops"])
        what.append(op)
        if op in ("B", "B.n") and up:
            clients.append(Watcher(w, op))
        elif op == "go" and clients:
            c = clients.pop(0)
            c.pv.disconnect(c)
        elif op in ("n", "add", "remove"):
            change(ctx, w, op, i)
        elif op == "stop" and up:
            del clients[:]
            w.pva.block_view().disable()
            up = False
            ctx.cover("stopped")
        elif op == "start" and not up:
            w.pva.block_view().reset()
            up = True
            ctx.cover("started")
        look(what)
    if not up:
        w.pva.block_view().reset()
        up = True
        look(what + ["start"])
    w.block.n.put_value(3)
    ctx.settle()
    ctx.check(w.attrs["n"].value == 3, "puts still work", what)
    look(what + ["put"])


def change(ctx, w, op, i):
    """One change of the block on the server"""
    from malcolm.core import Alarm, NumberMeta, StringMeta, config_tag

    a = w.attrs
    if op == "n":
        a["n"].set_value(ctx.int(f"n{i}", -50, 50))
    elif op == "u":
        a["u"].set_value(ctx.int(f"u{i}", 0, 255))
    elif op == "l":
        a["l"].set_value(ctx.int(f"l{i}", -2 ** 63, 2 ** 63 - 1))
    elif op == "x":
        a["x"].set_value(ctx.real(f"x{i}", -50, 50))
    elif op == "c":
        a["c"].set_value(ctx.choice(f"c{i}", ["p", "q"]))
    elif op == "array":
        n = ctx.choice(f"len{i}", [0, 3])
        a["an"].set_value([ctx.int(f"an{i}{k}", -9, 9) for k in range(n)])
    elif op == "reals":
        n = ctx.choice(f"len{i}", [0, 2])
        a["ax"].set_value([ctx.real(f"ax{i}{k}", -9, 9) for k in range(n)])
    elif op == "bools":
        n = ctx.choice(f"len{i}", [0, 2])
        a["ab"].set_value([ctx.bool(f"ab{i}{k}") for k in range(n)])
    elif op == "texts":
        a["as"].set_value(ctx.choice(f"as{i}", [[], ["x", ""], ["two"]]))
    elif op == "picks":
        a["ac"].set_value(ctx.choice(f"ac{i}", [[], ["p", "q"], ["p"]]))
    elif op == "alarm":
        a["n"].set_value(ctx.int(f"n{i}", -50, 50), alarm=Alarm.major("oh"))
    elif op == "table":
        n = ctx.choice(f"len{i}", [0, 2])
        vals = dict(i=[ctx.int(f"t{i}{k}", 0, 9) for k in range(n)],
                    j=[0.5] * n, k=["b"] * n, m=[False] * n, c=["q"] * n)
        a["t"].set_value({k: vals.get(k, [1.5] * n) for k in a["t"].meta.elements})
    elif op == "column":
        t = a["t"].value
        vals = {k: t[k] for k in t}
        if "j" in vals:
            vals["j"] = [ctx.real(f"j{i}", 0, 9)] * len(t.j)
        a["t"].set_value(type(t)(**vals))
    elif op == "label":
        a["n"].meta.set_label("Label %d" % i)
    elif op == "choices":
        a["c"].meta.set_choices(["p", "q", "r%d" % i])
    elif op == "display":
        a["x"].meta.display.set_limitHigh(ctx.real(f"d{i}", -9, 9))
    elif op == "element":
        a["t"].meta.elements["j"].set_label("Column %d" % i)
    elif op == "elements":
        m = a["t"].meta
        m.set_elements(dict(m.elements))
    elif op == "other table":
        # with fewer, more or other columns
        from malcolm.core import NumberArrayMeta, TableMeta

        els = ctx.choice(f"columns{i}", [
            dict(j="float64"), dict(i="int32", j="float64", z="float64"),
            dict(i="float64", j="float64")])
        m = TableMeta("again", elements={
            k: NumberArrayMeta(d, k) for k, d in els.items()}).create_attribute_model(
                {k: [ctx.int(f"o{i}", 0, 9)] for k in els})
        a["t"] = m
        w.c.add_block_field("t", m, w.put("t"), False)
    elif op == "writeable":
        m = w.c._block["go"].meta
        m.set_writeable(not m.writeable)
    elif op == "argument":
        w.c._block["go"].meta.takes.elements["p"].set_description("d%d" % i)
    elif op == "required":
        w.c._block["go"].meta.takes.set_required([])
    elif op == "add":
        m = NumberMeta("int32", "new", tags=[config_tag(1)]).create_attribute_model(
            ctx.int(f"a{i}", -9, 9))
        name = "new%d" % i
        a[name] = m
        w.c.add_block_field(name, m, w.put(name), False)
    elif op == "remove":
        have = [k for k in ("s", "b") if k in w.c._block]
        if have:
            w.c._block.remove_endpoint(have[0])
    elif op == "replace":
        m = NumberMeta("int32", "again").create_attribute_model(
            ctx.int(f"r{i}", -9, 9))
        a["n"] = m
        w.c.add_block_field("n", m, w.put("n"), False)
    elif op == "other type":
        m = NumberMeta("float64", "again").create_attribute_model(
            ctx.real(f"r{i}", -9, 9))
        a["n"] = m
        w.c.add_block_field("n", m, w.put("n"), False)
    elif op == "other kind":
        m = StringMeta("again").create_attribute_model("some text")
        a["n"] = m
        w.c.add_block_field("n", m, w.put("n"), False)
    elif op == "call":
        if w.c._block["go"].meta.writeable:
            w.c.block_view().go(ctx.int(f"g{i}", -9, 9))
    elif op == "health":
        from malcolm.modules.builtin.infos import HealthInfo

        w.c.update_health(w.c, HealthInfo(Alarm.major("ill %d" % i)))
    elif op == "tags":
        w.c._block.meta.set_tags(["t%d" % i])
    else:
        raise NotImplementedError(op)


class Watcher:
    """A PVAccess client of a channel that keeps what it is sent"""

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.marks = []
        self.pv = None
        self.opened = 0
        self.connect()

    def connect(self):
        self.pv = self.w.pva._make_channel(self.name, "me")
        self.pv.connect(self)

    def first(self, value):
        self.value = self.w.net.full(value)
        self.opened += 1
        del self.marks[:]

    def update(self, value):
        marks = value.changedSet(expand=True)
        for k in marks:
            self.value[k] = value[k]
        self.marks.append(marks)

    def lost(self):
        self.value = None
        self.connect()


TOUCHES = dict(
    n="n.value n.alarm n.timeStamp", u="u.value u.timeStamp", l="l.value l.timeStamp",
    x="x.value x.timeStamp", c="c.value c.timeStamp", array="an.value an.timeStamp",
    reals="ax.value ax.timeStamp", bools="ab.value ab.timeStamp",
    texts="as.value as.timeStamp", picks="ac.value ac.timeStamp",
    alarm="n.value n.alarm n.timeStamp", table="t.value t.timeStamp",
    column="t.value.j t.timeStamp", label="n.meta.label", choices="c.meta.choices",
    display="x.meta.display.limitHigh", element="t.meta.elements.j.label t.labels",
    elements="t.meta.elements t.labels", writeable="go.meta.writeable",
    argument="go.meta.takes.elements.p.description", required="go.meta.takes.required",
    replace="n meta.fields", **{"other table": "t meta.fields", "other type": "n meta.fields",
       "other kind": "n meta.fields"}, call="go.took go.returned", health="health", tags="meta.tags")


def leaves(d, prefix=""):
    """Dotted names of everything that is not a structure, with its value"""
    out = {}
    for k, v in d.items():
        if hasattr(v, "items"):
            out.update(leaves(v, f"{prefix}{k}."))
        elif k != "typeid":
            out[prefix + k] = v
    return out


def watch(ctx):
    """PVAccess clients of the block and of one of its fields: what they are sent adds
    up to what is there, and says exactly what changed"""
    from malcolm.core.notifier import freeze
    from malcolm.modules.pva.controllers.pvaconvert import convert_value_to_dict

    p = ctx.params
    w = Two(ctx)
    field = p["field"]
    clients = [Watcher(w, "B")] + ([Watcher(w, "B." + field)] if field else [])

    def look(what):
        ctx.settle()
        block = plain(freeze(w.c._block))
        for c in clients:
            want = block[field] if c.name != "B" else block
            ctx.check(c.value is not None, "connected", (what, c.name))
            got = plain(convert_value_to_dict(c.value))
            for k in want:
                if k in ("typeid",):
                    ctx.check(got.get(k, "structure") == want[k], "type", (what, k))
            a, b = leaves(want), leaves(got)
            ctx.check(list(a) == list(b), "the same fields", (
                what, sorted(set(a) ^ set(b)), list(a) == list(b)))
            for k in a:
                x = a[k]
                x = x.value if hasattr(x, "value") else x
                x = [y.value if hasattr(y, "value") else y for y in x] if isinstance(
                    x, list) else x
                ctx.check(ctx.eq(x, b[k]), "the value is what is there",
                          (what, c.name, k, x, b[k]))
            if c.name == "B":
                t = c.value["t"]
                els = t["meta"]["elements"]
                ctx.check(list(t["labels"]) == [els[k]["label"] or k for k in els.keys()],
                          "labels of the columns", (what, list(t["labels"])))

    look("at first")
    for i in range(p["n"]):
        op = ctx.choice(f"op{i}", p["ops"] if i else p.get("first", p["ops"]))
        before = [leaves(plain(convert_value_to_dict(c.value))) for c in clients]
        for c in clients:
            del c.marks[:]
            c.opened = 0
        change(ctx, w, op, i)
        look(op)
        for c, b in zip(clients, before):
            if c.opened:
                ctx.cover("opened again")
                continue
            if not c.marks:
                continue
            ctx.cover("updated")
            now = leaves(plain(convert_value_to_dict(c.value)))
            marks = set().union(*c.marks)
            pre = "" if c.name == "B" else field + "."
            allowed = TOUCHES[op].split()
            for k in marks:
                full = pre + k
                ctx.check(any(full == x or full.startswith(x + ".") or
                              x.startswith(full + ".") for x in allowed),
                          "only what changed is marked", (op, c.name, k))


def mirror(ctx):
    """Any sequence of changes of the block, one at a time, several as one, or so fast
    that the client gets them merged"""
    p = ctx.params
    w = Two(ctx)
    w.same("at first")
    what = []
    ops = [p["first"]] + [p.get("ops")] * (p["n"] - 1)
    group = ctx.choice("together", p["together"])
    if group == "as one":
        with w.c.changes_squashed:
            for i in range(p["n"]):
                what.append(ctx.choice(f"op{i}", ops[i]))
                change(ctx, w, what[-1], i)
    else:
        w.net.slow = group == "fast"
        for i in range(p["n"]):
            what.append(ctx.choice(f"op{i}", ops[i]))
            change(ctx, w, what[-1], i)
            if group == "apart":
                ctx.settle()
                w.same(what)
        w.net.slow = False
        for m in w.comms._monitors:
            m.event.Signal()
    ctx.settle()
    w.same(what)
    ctx.check(not w.net.errors, "no update goes wrong", (what, w.net.errors))
    ctx.cover(group)


OPS = ["n", "u", "l", "x", "c", "array", "reals", "bools", "texts", "picks", "alarm",
       "table", "column", "label", "choices", "display", "element", "elements", "other table",
       "writeable", "argument", "required", "add", "remove", "replace", "other type",
       "other kind", "call", "health", "tags"]
FEW = ["n", "alarm", "table", "column", "label", "element", "other table", "writeable",
       "add", "remove", "replace", "other type", "health"]
LIFE = ["B", "B.n", "go", "n", "add", "stop", "start"]
HARNESSES = {
    "mirror": Harness(mirror, quick=[
        dict(n=1, first=OPS, together=["apart"])] + [
        dict(n=2, ops=FEW, first=FEW[i:i + 3], together=[t])
        for i in range(0, len(FEW), 3) for t in ("apart", "as one", "fast")],
        must=["apart", "as one", "fast"]),
    "results": Harness(results, must=["nothing", "pair", "table", "picks", "reals"]),
    "puts": Harness(puts, quick=[dict(how=x) for x in ("proxy", "block", "field")], must=["put", "refused"]),
    "calls": Harness(calls, must=["works", "fails"]),
    "life": Harness(life, quick=[
        dict(n=2, first=LIFE, ops=LIFE), dict(n=3, first=["stop"], ops=LIFE),
        dict(n=3, first=["B"], ops=["B.n", "go", "add", "stop"])],
        thorough=[dict(n=4, first=[x], ops=LIFE) for x in LIFE],
                    must=["stopped", "started"]),
    "watch": Harness(watch, quick=[
        dict(n=1, ops=OPS, field=None), dict(n=1, ops=OPS, field="n"),
        dict(n=2, ops=FEW, first=FEW[:6], field="t"),
        dict(n=2, ops=FEW, first=FEW[6:], field="t")], must=["updated", "opened again"]),
}
