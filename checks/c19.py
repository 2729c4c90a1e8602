"""Web clients of a server"""
import json

from symx.harness import Harness

from .c01 import plain
from .weblib import Server, Tornado

TITLE = "Web clients only get answers to their own requests"
ASSUMPTIONS = [
    "the web sockets are stand-ins that give the server their messages in order and "
    "record what it sends; the server, its event loop and the blocks are real",
    "network interfaces are stand-ins for what the kernel tells about them",
    "the real cothread scheduler runs on a virtual clock",
]


class Boom(Exception):
    pass


class Web:
    """A process with a block and a web server"""

    def __init__(self, ctx, interfaces=None):
        from annotypes import Anno

        from malcolm.core import NumberMeta, Part
        from malcolm.modules.builtin.controllers import BasicController

        self.ctx = ctx
        self.tornado = Tornado(ctx)
        self.server = Server(ctx, self.tornado, interfaces=interfaces)
        self.calls = []
        outer = self

        class Leaf(Part):
            def setup(self, registrar):
                super().setup(registrar)
                outer.n = NumberMeta("int32", "n").create_attribute_model(0)
                outer.m = NumberMeta("int32", "m").create_attribute_model(0)
                registrar.add_attribute_model("n", outer.n, outer.put)
                registrar.add_attribute_model("m", outer.m)

                def go(p):
                    outer.calls.append(("go", p))
                    if p > 90:
                        raise Boom("too much")
                    return p + 1

                go.call_types = dict(p=Anno("p", name="p").set_typ(int))
                go.return_type = Anno("ret", name="return").set_typ(int)
                registrar.add_method_model(go, "go")

                outer.odd = NumberMeta("int32", "odd").create_attribute_model(0)
                registrar.add_attribute_model("odd", outer.odd, lambda v: object())

        self.c = BasicController("B")
        self.c.add_part(Leaf("leaf"))
        self.server.process.add_controller(self.c)
        self.server.process.start()
        self.tornado.settle()

    def put(self, value):
        self.calls.append(("n", value))
        self.n.set_value(value)


class Client:
    """A web client: what it sent, and what the server sent to it"""

    def __init__(self, ctx, web, name, ip="127.0.0.1"):
        self.ctx, self.web, self.name = ctx, web, name
        self.socket = web.server.connect(ip)
        self.expect = []  # (id, what) still to be answered, in the order sent
        self.subs = {}  # id: [path, active]
        self.read = 0
        self.closed = False

    def ask(self, typ, id, **kw):
        from annotypes import json_encode

        d = dict(typeid=f"malcolm:core/{typ}:1.0", id=id)
        d.update(kw)
        self.socket.send(json_encode(d))

    def take(self):
        """What came since last time, decoded"""
        from annotypes import json_decode

        got = self.socket.got[self.read:]
        self.read = len(self.socket.got)
        return [json_decode(x) for x in got]


def kind(d):
    return d["typeid"].split("/")[1].split(":")[0]


MALFORMED = ["", "{", "[1]", "5", '"x"', "null", '{"id": 1}',
             '{"typeid": "malcolm:core/Get:1.0", "id": 1}',
             '{"typeid": "malcolm:core/Get:1.0", "id": 1, "path": []}',
             '{"typeid": "malcolm:core/Get:1.0", "path": ["B"]}',
             '{"typeid": "malcolm:core/Nope:1.0", "id": 1, "path": ["B"]}',
             '{"typeid": "malcolm:core/Return:1.0", "id": 1, "value": 3}',
             '{"typeid": "malcolm:core/Get:1.0", "id": 1, "path": ["NOPE"]}',
             '{"typeid": "malcolm:core/Subscribe:1.0", "id": 1, "path": ["NOPE"]}',
             '{"typeid": "malcolm:core/Unsubscribe:1.0", "id": 77}',
             '{"typeid": "malcolm:core/Post:1.0", "id": 1, "path": ["B", "go"], '
             '"parameters": {"p": "x"}}']


def clients(ctx):
    """Two clients with overlapping ids send requests in any order while the block
    changes, the event loop stands still for any part of it, and one goes away"""
    p = ctx.params
    web = Web(ctx)
    cs = [Client(ctx, web, k) for k in range(2)]
    what = []
    value = 0
    want = [[] for _ in cs]  # answers to come: (id, kind, check)
    subs = [{} for _ in cs]  # id: field
    final = {}
    for i in range(p["n"]):
        op = ctx.choice(f"op{i}", p["ops"])
        what.append(op)
        if op == "change":
            web.m.set_value(ctx.int(f"m{i}", 0, 9))
        elif op == "hold":
            web.tornado.hold(not web.tornado.held)
        else:
            k = ctx.choice(f"who{i}", p.get("who", [0, 1]))
            what[-1] = (op, k)
            c = cs[k]
            if c.closed:
                continue
            if op == "close":
                c.closed = True
                c.socket.close()
                continue
            if op == "bad":
                c.socket.send(ctx.choice(f"bad{i}", p["bad"]))
                want[k].append((None, "Error", None))
                continue
            n = 1 if i == 0 else ctx.choice(f"id{i}", [1, 2])
            what[-1] = (op, k, n)
            v = ctx.int(f"v{i}", -50, 50)
            if op == "get":
                c.ask("Get", n, path=["B", "meta", "label"])
                want[k].append((n, "Return", "B"))
            elif op == "put":
                c.ask("Put", n, path=["B", "n", "value"], value=v, get=True)
                want[k].append((n, "Return", v))
            elif op == "post":
                c.ask("Post", n, path=["B", "go"], parameters=dict(p=v))
                want[k].append((n, "Return", v + 1))
            elif op == "odd":
                # its answer can't be sent
                c.ask("Put", n, path=["B", "odd", "value"], value=v, get=True)
                want[k].append((n, "Error", ""))
            elif op == "post fails":
                c.ask("Post", n, path=["B", "go"], parameters=dict(p=91))
                want[k].append((n, "Error", "too much"))
            elif op == "subscribe":
                c.ask("Subscribe", n, path=["B", "m", "value"], delta=False)
                if n in subs[k]:
                    want[k].append((n, "Error", None))
                    ctx.cover("duplicate")
                else:
                    subs[k][n] = True
                    final[k, n] = None
            elif op == "unsubscribe":
                c.ask("Unsubscribe", n)
                if n in subs[k]:
                    del subs[k][n]
                    want[k].append((n, "Return", None))
                    ctx.cover("unsubscribed")
                else:
                    want[k].append((n, "Error", None))
            if p.get("settle") and not web.tornado.held:
                web.tornado.settle()
    if web.tornado.held:
        web.tornado.hold(False)
    web.tornado.settle()
    # a last change, that everyone who is subscribed has to see
    for last in (10, 11):
        web.m.set_value(last)
        web.tornado.settle()
        ctx.advance(1)
    for k, c in enumerate(cs):
        if c.closed:
            n = c.socket.refused
            web.m.set_value(12)
            web.tornado.settle()
            ctx.check(c.socket.refused == n, "nothing more for who is gone", what)
            ctx.cover("gone")
    last = web.m.value
    for k, c in enumerate(cs):
        if c.closed:
            continue
        todo = list(want[k])
        seen = {}
        for d in c.take():
            if kind(d) == "Update":
                seen[d["id"]] = d["value"]
                ctx.check((k, d["id"]) in final, "an update is for a subscription",
                          (what, k, d))
                continue
            found = None
            # an error may be to a malformed message if nothing else fits
            for j, (n, typ, val) in sorted(enumerate(todo), key=lambda x: not x[1][0]):
                if typ == kind(d) and (n is None or n == d["id"]) and (
                        val is None if n is None or val is None else
                        val in d["message"] if typ == "Error" else
                        bool(ctx.eq(d["value"], val))):
                    found = j
                    break
            ctx.check(found is not None, "an answer is to a request", (what, k, d, todo))
            todo.pop(found)
        ctx.check(not todo, "every request is answered", (what, k, todo))
        for n in subs[k]:
            ctx.check(n in seen and bool(ctx.eq(seen[n], last)),
                      "a subscriber has the last value", (what, k, n, seen))
            ctx.cover("subscribed")
        for n, v in seen.items():
            if n not in subs[k]:
                ctx.check(bool(ctx.Not(ctx.eq(v, last))),
                          "no updates after unsubscribing", (what, k, n))
    puts = [x for x in web.calls if x[0] == "n"]
    ctx.check(len(puts) <= sum(1 for x in what if x[0] == "put"), "no put is repeated",
              (what, puts))
    ctx.check(not web.tornado.errors, "nothing goes wrong", (what, web.tornado.errors))
    ctx.observe("got", [len(c.socket.got) for c in cs])
    ctx.cover("done")


def malformed(ctx):
    """A malformed message at any point is answered with an error, and everything else
    goes on"""
    web = Web(ctx)
    a, b = Client(ctx, web, 0), Client(ctx, web, 1)
    a.ask("Subscribe", 5, path=["B", "m", "value"], delta=False)
    b.ask("Subscribe", 1, path=["B", "m", "value"], delta=False)
    web.tornado.settle()
    a.take(), b.take()
    bad = ctx.choice("bad", MALFORMED)
    n = ctx.choice("times", [1, 2])
    for i in range(n):
        a.socket.send(bad)
    web.tornado.settle()
    got = a.take()
    ctx.check([kind(d) for d in got] == ["Error"] * n, "it is answered with an error",
              (bad, got))
    try:
        sent = json.loads(bad)["id"]
    except Exception:
        sent = -1
    ctx.check(all(d["id"] == sent for d in got), "with the id that was sent", (bad, got))
    ctx.check(not b.take(), "and nobody else hears of it", bad)
    v = ctx.int("v", -50, 50)
    web.m.set_value(v)
    # the same id can be used
    a.ask("Subscribe", 1, path=["B", "n", "value"], delta=False)
    web.tornado.settle()
    a.ask("Put", 3, path=["B", "n"], value=v)
    web.tornado.settle()
    got = a.take()
    ctx.check(ctx.eq([(d["id"], d.get("value")) for d in got],
                     [(5, v), (1, 0), (1, v), (3, None)]),
              "everything goes on", (bad, got))
    got = b.take()
    ctx.check(ctx.eq([(d["id"], d["value"]) for d in got], [(1, v)]),
              "for everyone", (bad, got))
    ctx.check(a.socket.open and b.socket.open, "and nobody is cut off", bad)
    ctx.cover("done")


def flood(ctx):
    """More updates than are sent without waiting, to a client that is there, slow or
    gone, with answers in between"""
    p = ctx.params
    web = Web(ctx)
    a, b = Client(ctx, web, 0), Client(ctx, web, 1)
    for c in (a, b):
        c.ask("Subscribe", 1, path=["B", "m", "value"], delta=False)
    web.tornado.settle()
    base = ctx.int("base", 0, 1000)
    gone = ctx.choice("gone", p["gone"])
    held = ctx.choice("held", p["held"])
    n = p["n"]

    import cothread

    def change():
        for i in range(n):
            web.m.set_value(base + i)

    odd = ctx.choice("odd", [0, 3])
    for i in range(odd):
        # answers that can't be sent
        b.ask("Put", 3, path=["B", "odd", "value"], value=1, get=True)
    for i in range(3):
        # let it run until it waits for the client
        if i == 0:
            web.tornado.hold(held)
            cothread.Spawn(change)
            ctx.settle()
        elif i == 1:
            if gone:
                a.socket.close()
            b.ask("Get", 7, path=["B", "meta", "label"])
            web.tornado.hold(False)
        for j in range(n):
            web.tornado.settle()
    got = b.take()
    ctx.check(ctx.eq([d["value"] for d in got if d["id"] == 1],
                     [0] + [base + i for i in range(n)]),
              "every update is sent once and in order", got)
    ctx.check([d["value"] for d in got if d["id"] == 7] == ["B"], "and answers too", got)
    ctx.check([kind(d) for d in got if d["id"] == 3] == ["Error"] * odd,
              "or an error instead", got)
    got = a.take()
    if not gone:
        ctx.check(ctx.eq([d["value"] for d in got], [0] + [base + i for i in range(n)]),
                  "for everyone", got)
    else:
        ctx.check(ctx.eq([d["value"] for d in got],
                         ([0] + [base + i for i in range(n)])[:len(got)]),
                  "until it is gone", got)
        web.m.set_value(4)
        web.tornado.settle()
        r = a.socket.refused
        web.m.set_value(5)
        web.tornado.settle()
        ctx.check(a.socket.refused == r, "nothing more for who is gone", r)
        ctx.cover("gone")
    ctx.cover("done")


def ip(a, b, c, d):
    return (a << 24) + (b << 16) + (c << 8) + d


NETS = {
    "none": None,
    "one": dict(eth0=(ip(172, 23, 5, 9), ip(255, 255, 240, 0), True)),
    "two": dict(lo=(ip(127, 0, 0, 1), ip(255, 0, 0, 0), True),
                eth0=(ip(172, 23, 5, 9), ip(255, 255, 255, 0), True)),
    "down": dict(lo=(ip(127, 0, 0, 1), ip(255, 0, 0, 0), True),
                 eth0=(ip(172, 23, 5, 9), ip(255, 255, 255, 0), False)),
    "no address": dict(lo=(ip(127, 0, 0, 1), ip(255, 0, 0, 0), True),
                       wlan0=(None, None, True)),
}


def subnet(ctx):
    """Clients at any address of a server with or without restriction"""
    import ipaddress

    name = ctx.choice("net", list(NETS))
    nets = NETS[name]
    web = Web(ctx, interfaces=nets)
    addr = ctx.choice("ip", ["127.0.0.1", "::1", "172.23.5.200", "172.23.15.255",
                             "172.23.16.0", "172.22.5.9", "8.8.8.8", "127.9.9.9",
                             "fe80::1"])
    c = Client(ctx, web, 0, addr)
    real = ipaddress.ip_address(addr)
    if addr == "::1":
        real = ipaddress.ip_address("127.0.0.1")
    allowed = nets is None or real.version == 4 and any(
        int(real) & m == a & m for a, m, up in nets.values() if up and a is not None)
    ops = ["put", "post", "get", "subscribe"]
    first = ctx.choice("first", ops)
    v = ctx.int("v", -50, 50)
    n = 0
    for op in [first] + ops:
        n += 1
        calls = len(web.calls)
        if op == "put":
            c.ask("Put", n, path=["B", "n", "value"], value=v)
        elif op == "post":
            c.ask("Post", n, path=["B", "go"], parameters=dict(p=v))
        elif op == "get":
            c.ask("Get", n, path=["B", "meta", "label"])
        else:
            c.ask("Subscribe", n, path=["B", "m", "value"], delta=False)
        web.tornado.settle()
        got = c.take()
        ctx.check(len(got) == 1 and got[0]["id"] == n, "every request is answered",
                  (name, addr, op, got))
        if op in ("put", "post"):
            ctx.check(kind(got[0]) == ("Return" if allowed else "Error"),
                      "puts and posts are refused exactly from outside",
                      (name, addr, op, got))
            ctx.check(len(web.calls) - calls == (1 if allowed else 0),
                      "and then do nothing", (name, addr, op))
            ctx.cover("allowed" if allowed else "refused")
        else:
            ctx.check(kind(got[0]) in ("Return", "Update"), "anyone can look",
                      (name, addr, op, got))
    ctx.cover("done")


REST = ["get", "odd", "put", "post", "post fails", "subscribe", "unsubscribe", "bad", "change",
        "hold", "close"]
HARNESSES = {
    "clients": Harness(clients, quick=[
        dict(n=3, ops=["put", "post"], who=[0, 1]),
        dict(n=3, ops=["put", "subscribe", "unsubscribe"], who=[0, 1]),
        dict(n=3, ops=["subscribe", "unsubscribe", "change", "close"], settle=True),
        dict(n=4, ops=["subscribe", "unsubscribe", "change"], who=[0]),
        dict(n=3, ops=["hold", "put", "subscribe", "change", "close"]),
        dict(n=2, ops=REST, bad=MALFORMED[:3] + MALFORMED[-2:])],
        thorough=[
            dict(n=4, ops=["put", "post", "subscribe", "unsubscribe", "change"]),
            dict(n=5, ops=["subscribe", "unsubscribe", "change", "close"], settle=True),
            dict(n=4, ops=["hold", "put", "subscribe", "change", "close",
                           "unsubscribe"]),
            dict(n=3, ops=REST, bad=MALFORMED)],
        must=["done", "duplicate", "unsubscribed", "gone", "subscribed"]),
    "malformed": Harness(malformed, must=["done"]),
    "flood": Harness(flood, quick=[
        dict(n=n, gone=[False, True], held=[False, True]) for n in (8, 9, 10, 11, 25)],
        thorough=[dict(n=n, gone=[False, True], held=[False, True])
                  for n in list(range(1, 25)) + [40]],
        must=["done", "gone"]),
    "subnet": Harness(subnet, must=["done", "allowed", "refused"]),
}
