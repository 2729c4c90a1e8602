"""A proxy of a block in another process, over the web client"""
from symx.harness import Harness

from .c01 import plain
from .weblib import Link, Server, Tornado, use_connect

TITLE = "A remote block mirrors the original"
ASSUMPTIONS = [
    "the web connection is a stand-in that carries every message in order until it is "
    "cut; both processes, the web server part, the web client and the event loop are real",
    "the real cothread scheduler runs on a virtual clock",
]


class Boom(Exception):
    pass


class Two:
    """A process with a block, and another with a proxy of it"""

    def __init__(self, ctx, sync=True):
        from annotypes import Anno

        from malcolm.core import (
            BooleanMeta, ChoiceMeta, NumberArrayMeta, NumberMeta, Part, Process,
            StringMeta, TableMeta,
        )
        from malcolm.modules.builtin.controllers import (
            BasicController, ProxyController,
        )
        from malcolm.modules.web.controllers import WebsocketClientComms

        self.ctx = ctx
        self.calls = []
        self.tornado = Tornado(ctx)
        self.server = Server(ctx, self.tornado)
        outer = self
        self.attrs = {}
        self.block_on = {}

        class Leaf(Part):
            def setup(self, registrar):
                super().setup(registrar)
                a = outer.attrs
                a["n"] = NumberMeta("int32", "n").create_attribute_model(0)
                a["x"] = NumberMeta("float64", "x").create_attribute_model(0.5)
                a["s"] = StringMeta("s").create_attribute_model("a")
                a["b"] = BooleanMeta("b").create_attribute_model(False)
                a["c"] = ChoiceMeta("c", ["p", "q"]).create_attribute_model("p")
                a["t"] = TableMeta("t", elements=dict(
                    i=NumberArrayMeta("int32", "i"), j=NumberArrayMeta("float64", "j"))
                ).create_attribute_model(dict(i=[1], j=[2.5]))
                for k in ("n", "x", "s", "b", "c", "t"):
                    registrar.add_attribute_model(k, a[k], outer.put(k))
                a["r"] = NumberMeta("int32", "r").create_attribute_model(4)
                registrar.add_attribute_model("r", a["r"])

                def go(p, q=5):
                    outer.calls.append(("go", dict(p=p, q=q)))
                    outer.wait("go")
                    if p > 90:
                        raise Boom("too much")
                    return p + 1

                go.call_types = dict(p=Anno("p", name="p").set_typ(int),
                                     q=Anno("q", name="q").set_typ(int))
                go.call_types["q"].default = 5
                go.return_type = Anno("ret", name="return").set_typ(int)
                registrar.add_method_model(go, "go")

        self.c = BasicController("B")
        self.c.add_part(Leaf("leaf"))
        self.server.process.add_controller(self.c)
        self.server.process.start()
        self.tornado.settle()
        self.links = []
        self.refuse = False

        def make(url):
            if self.refuse:
                return ConnectionError("refused")
            self.links.append(Link(self.server))
            return self.links[-1]

        use_connect(make)
        self.process = Process("client")
        self.comms = WebsocketClientComms("COMMS", "host", 8008)
        self.process.add_controller(self.comms)
        self.proxy = ProxyController("B", "COMMS")
        self.process.add_controller(self.proxy)
        self.process.start()
        self.tornado.settle()
        self.block = self.proxy.block_view()

    def more(self):
        """The server gets another block"""
        from malcolm.modules.builtin.controllers import BasicController

        n = len(self.server.process.mri_list)
        self.server.process.add_controller(BasicController(f"MORE{n}"))
        self.tornado.settle()

    def wait(self, name):
        import cothread

        if name in self.block_on:
            cothread.Sleep(self.block_on[name])

    def put(self, name):
        def f(value):
            self.calls.append((name, value))
            self.wait(name)
            if name == "s" and value == "bad":
                raise Boom("no good")
            self.attrs[name].set_value(value)

        return f

    def same(self, what):
        from malcolm.core.notifier import freeze

        a = plain(freeze(self.c._block))
        b = plain(freeze(self.proxy._block))
        self.ctx.check(list(a) == list(b), "the same fields in the same order",
                       (what, list(a), list(b)))
        for k in a:
            self.ctx.check(self.ctx.eq(a[k], b[k]), "the proxy shows what is there",
                           (what, k, a[k], b[k]))


def change(ctx, w, op, i):
    """One change of the block on the server"""
    from malcolm.core import Alarm, NumberMeta, config_tag

    a = w.attrs
    if op == "n":
        a["n"].set_value(ctx.int(f"n{i}", -50, 50))
    elif op == "x":
        a["x"].set_value(ctx.real(f"x{i}", -50, 50))
    elif op == "c":
        a["c"].set_value(ctx.choice(f"c{i}", ["p", "q"]))
    elif op == "alarm":
        a["n"].set_value(ctx.int(f"n{i}", -50, 50), alarm=Alarm.major("oh"))
    elif op == "table":
        n = ctx.choice(f"len{i}", [0, 1, 2])
        a["t"].set_value(dict(i=[ctx.int(f"t{i}{k}", 0, 9) for k in range(n)],
                              j=[0.5] * n))
    elif op == "column":
        t = a["t"].value
        a["t"].set_value(type(t)(i=[ctx.int(f"i{i}", 0, 9)] * len(t.i), j=t.j))
    elif op == "label":
        a["n"].meta.set_label("Label %d" % i)
    elif op == "choices":
        a["c"].meta.set_choices(["p", "q", "r%d" % i])
    elif op == "element":
        a["t"].meta.elements["i"].set_label("Column %d" % i)
    elif op == "elements":
        m = a["t"].meta
        m.set_elements(dict(m.elements))
    elif op == "writeable":
        m = w.c._block["go"].meta
        m.set_writeable(not m.writeable)
    elif op == "argument":
        w.c._block["go"].meta.takes.elements["p"].set_description("d%d" % i)
    elif op == "add":
        m = NumberMeta("int32", "new", tags=[config_tag(1)]).create_attribute_model(
            ctx.int(f"a{i}", -9, 9))
        name = "new%d" % i
        a[name] = m
        w.c.add_block_field(name, m, w.put(name), False)
    elif op == "remove":
        have = [k for k in ("s", "b") if k in w.c._block]
        if have:
            w.c._block.remove_endpoint(have[0])
    elif op == "replace":
        m = NumberMeta("int32", "again").create_attribute_model(
            ctx.int(f"r{i}", -9, 9))
        a["n"] = m
        w.c.add_block_field("n", m, w.put("n"), False)
    elif op == "call":
        if w.c._block["go"].meta.writeable:
            w.c.block_view().go(ctx.int(f"g{i}", -9, 9))
    elif op == "health":
        from malcolm.modules.builtin.infos import HealthInfo

        w.c.update_health(w.c, HealthInfo(Alarm.major("ill %d" % i)))
    elif op == "tags":
        w.c._block.meta.set_tags(["t%d" % i])


def mirror(ctx):
    """Any sequence of changes of the block, one at a time or several as one"""
    p = ctx.params
    w = Two(ctx)
    w.same("at first")
    what = []
    group = ctx.choice("together", p["together"])
    if group:
        with w.c.changes_squashed:
            for i in range(p["n"]):
                what.append(ctx.choice(f"op{i}", p["ops"]))
                change(ctx, w, what[-1], i)
    else:
        for i in range(p["n"]):
            what.append(ctx.choice(f"op{i}", p["ops"]))
            change(ctx, w, what[-1], i)
            if p.get("settle", True):
                w.tornado.settle()
                w.same(what)
    w.tornado.settle()
    w.same(what)
    ctx.check(not w.tornado.errors, "no update goes wrong", (what, w.tornado.errors))
    ctx.cover("together" if group else "apart")


def atomic(ctx):
    """Whoever watches the proxy sees a change made in several steps as one update"""
    from malcolm.core import Alarm, Subscribe

    w = Two(ctx)
    seen = []
    s = Subscribe(3, ["B"], delta=ctx.choice("delta", [False, True]))
    s.set_callback(seen.append)
    w.proxy.handle_request(s)
    w.tornado.settle()
    n = len(seen)
    v = ctx.int("v", -9, 9)
    with w.c.changes_squashed:
        w.attrs["n"].set_value(v, alarm=Alarm.major("oh"))
        w.attrs["x"].set_value(1.5)
        w.attrs["n"].meta.set_label("New")
    w.tornado.settle()
    w.same("after")
    ctx.check(len(seen) == n + 1, "one change is one update", seen[n:])
    ctx.cover("done")


def requests(ctx):
    """Puts and posts through the proxy, several at a time, ending in any order"""
    import cothread

    p = ctx.params
    w = Two(ctx)
    ops = [ctx.choice(f"op{i}", p["ops"]) for i in range(p["n"])]
    if p["n"] > 1:
        # how long each takes on the other side
        d = ctx.choice("first", [0.0, 1.0, 3.0])
        w.block_on = dict(n=d, go=2.0)
    results = {}
    vals = [ctx.int(f"v{i}", -50, 50) for i in range(p["n"])]

    def run(i):
        from malcolm.core import Context

        op, v = ops[i], vals[i]
        context = Context(w.process)
        b = context.block_view("B")
        try:
            if op == "n":
                r = b.n.put_value(v)
            elif op == "x":
                r = b.x.put_value(v + 0.5)
            elif op == "table":
                r = b.t.put_value(dict(i=[v, 1], j=[0.25, v]))
            elif op == "bad":
                r = b.s.put_value("bad")
            elif op == "read only":
                r = b.r.put_value(v)
            elif op == "post":
                r = b.go(v)
            elif op == "post both":
                r = b.go(p=v, q=3)
            elif op == "post fails":
                r = b.go(91)
            elif op == "choice":
                r = b.c.put_value("nonsense")
            results[i] = (True, r)
        except Exception as e:
            results[i] = (False, str(e))

    for i in range(p["n"]):
        cothread.Spawn(run, i)
        if ctx.choice(f"gap{i}", [False, True]):
            w.tornado.settle()
    ctx.advance(10)
    w.tornado.settle()
    calls = list(w.calls)
    for i, op in enumerate(ops):
        ctx.check(i in results, "every request ends", (ops, results))
        ok, r = results[i]
        v = vals[i]
        want_call = dict(
            n=("n", v), x=("x", v + 0.5), table=("t", dict(i=[v, 1], j=[0.25, v])),
            bad=("s", "bad"), post=("go", dict(p=v, q=5)),
            **{"post both": ("go", dict(p=v, q=3)),
               "post fails": ("go", dict(p=91, q=5))}).get(op)
        if op in ("bad", "read only", "post fails", "choice"):
            text = {"bad": "no good", "post fails": "too much"}.get(op, "")
            ctx.check(not ok and text in r, "the error comes back", (ops, op, r))
            ctx.cover("error")
        else:
            ctx.check(ok, "a request works", (ops, op, r))
            if op.startswith("post"):
                ctx.check(ctx.eq(r, v + 1), "the answer comes to who asked",
                          (ops, op, r))
                ctx.cover("answer")
        if want_call:
            found = None
            for j, (name, val) in enumerate(calls):
                val = plain(val)
                if isinstance(val, dict):
                    val = {k: x for k, x in val.items() if k != "typeid"}
                if name == want_call[0] and bool(ctx.eq(val, want_call[1])):
                    found = j
                    break
            ctx.check(found is not None, "the other side gets the value",
                      (ops, op, calls))
            calls.pop(found)
    ctx.check(not calls, "and nothing else", (ops, calls))
    w.same(ops)
    ctx.cover("done")


def lost(ctx):
    """The connection is cut while requests are under way, before or after them, and
    then made again"""
    import cothread

    p = ctx.params
    w = Two(ctx)
    w.block_on = dict(n=2.0, go=2.0)
    results = {}

    def run(i, op):
        from malcolm.core import Context

        try:
            context = Context(w.process)
            b = context.block_view("B")
            if op == "put":
                results[i] = (True, b.n.put_value(i))
            elif op == "post":
                results[i] = (True, b.go(i))
            else:
                results[i] = (True, b.go(object()) if op == "object" else None)
        except Exception as e:
            results[i] = (False, str(e))

    sent = 0
    plan = ctx.choice("plan", p["plans"])
    down = False
    for i, step in enumerate(plan):
        if step in ("put", "post"):
            cothread.Spawn(run, i, step)
        elif step == "cut":
            w.links[-1].cut()
            down = True
        elif step == "settle":
            w.tornado.settle()
        elif step == "wait":
            ctx.advance(3)
            w.tornado.settle()
        elif step == "reset":
            w.tornado.settle()
            ctx.check(w.comms.state.value == "Fault", "a lost connection is a fault",
                      (plan, w.comms.state.value))
            w.more()
            n = len(w.links)
            w.comms.block_view().reset()
            w.tornado.settle()
            ctx.check(len(w.links) == n + 1, "a reset connects again", plan)
            ctx.check(w.comms.state.value == "Ready", "and is ready again", plan)
            down = False
        elif step == "refused":
            w.tornado.settle()
            w.refuse = True
            err = None
            try:
                w.comms.block_view().reset()
            except Exception as e:
                err = e
            w.refuse = False
            ctx.check(err is not None and w.comms.state.value == "Fault",
                      "failing to connect is a fault", (plan, err))
        elif step == "disable":
            w.comms.block_view().disable()
            w.tornado.settle()
            ctx.check(w.comms.state.value == "Disabled", "disabled", plan)
            ctx.check(all(x.lost for x in w.links), "disabling disconnects", plan)
            down = True
        elif step == "enable":
            w.more()
            w.comms.block_view().reset()
            w.tornado.settle()
            ctx.check(w.comms.state.value == "Ready", "enabled again", plan)
            down = False
    at = w.tornado
    ctx.advance(10)
    at.settle()
    for i, step in enumerate(plan):
        if step in ("put", "post"):
            ctx.check(i in results, "every request ends", (plan, i, results))
            # it was up all the time from then until it must have been done
            later = plan[i:]
            cut = [j for j, x in enumerate(later) if x in ("cut", "disable")]
            up = [x for x in plan[:i] if x in ("cut", "reset", "disable", "enable")]
            is_up = not up or up[-1] in ("reset", "enable")
            if not is_up:
                ctx.check(not results[i][0], "a request without a connection fails",
                          (plan, i, results[i]))
                ctx.cover("refused")
            elif cut and "wait" not in later[:cut[0]]:
                ctx.check(not results[i][0], "a request fails if its connection is lost",
                          (plan, i, results[i]))
                ctx.cover("failed")
            else:
                ctx.check(results[i][0], "a request works", (plan, i, results[i]))
                ctx.cover("worked")
    ctx.check(w.comms.state.value == (
        "Ready" if not down else "Disabled" if plan[-1] == "disable" or
        "disable" in plan and plan.index("disable") == max(
            j for j, x in enumerate(plan) if x in ("cut", "disable")) else "Fault"),
        "the state shows the connection", (plan, w.comms.state.value))
    if not down:
        # the blocks that can be reached are kept up to date
        ctx.check(list(w.comms.remote_blocks.value.mri) ==
                  list(w.server.web.blocks.value.mri), "the remote blocks are listed",
                  (plan, w.comms.remote_blocks.value))
    ctx.cover("done")


OPS = ["n", "x", "c", "alarm", "table", "column", "label", "choices", "element",
       "elements", "writeable", "argument", "add", "remove", "replace", "call",
       "health", "tags"]
TOGETHER = [x for x in OPS if x != "call"]
PLANS = [
    ["put"], ["put", "settle", "cut"], ["put", "cut"], ["cut", "put"],
    ["cut", "settle", "put"], ["cut", "settle", "post", "put"],
    ["post", "put", "settle", "cut", "settle"], ["put", "wait", "cut"],
    ["cut", "reset"], ["cut", "reset", "put", "settle", "cut"],
    ["cut", "reset", "post", "wait", "cut", "settle", "reset", "put"],
    ["put", "settle", "cut", "reset", "put"],
    ["cut", "refused", "reset", "put"], ["cut", "refused", "refused", "put"],
    ["disable"], ["put", "settle", "disable"], ["disable", "put"],
    ["disable", "enable", "put"], ["cut", "settle", "disable", "enable", "put"],
    ["cut", "reset", "disable", "enable", "cut", "reset", "put"],
]
HARNESSES = {
    "mirror": Harness(mirror, quick=[
        dict(n=2, ops=OPS, together=[False]), dict(n=2, ops=TOGETHER, together=[True]),
        dict(n=3, ops=["column", "remove", "add", "replace"], together=[False]),
        dict(n=3, ops=["column", "remove", "add", "replace"], together=[True])],
        thorough=[dict(n=3, ops=TOGETHER if x else OPS, together=[x], settle=s)
                  for x, s in ((False, True), (True, True), (False, False))],
        must=["together", "apart"]),
    "atomic": Harness(atomic, must=["done"]),
    "requests": Harness(requests, quick=[
        dict(n=1, ops=["n", "x", "table", "bad", "read only", "post", "post both",
                       "post fails", "choice"]),
        dict(n=2, ops=["n", "table", "bad", "post", "post fails"])],
        thorough=[dict(n=3, ops=["n", "table", "bad", "post", "post fails"])],
        must=["done", "error", "answer"]),
    "lost": Harness(lost, quick=[dict(plans=PLANS)], must=[
        "done", "refused", "failed", "worked"]),
}
