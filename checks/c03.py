"""Requests to a block: one final answer each"""
from symx.harness import Harness

from .c01 import plain

TITLE = "Every request gets exactly one final answer"
ASSUMPTIONS = [
    "the functions behind the attribute and the method are stand-ins that return, "
    "raise or wait as told; callbacks only record the response",
    "the real cothread scheduler runs on a virtual clock; a waiting function is "
    "released at a symbolic time",
]


class Boom(Exception):
    pass


class Rude(Exception):
    def __str__(self):
        raise RuntimeError("no text")


BEHAVIOURS = ["store", "none", "value", "raise", "aborted", "rude"]


class Client:
    """Sends requests to a real block and keeps the answers"""

    def __init__(self, ctx):
        from annotypes import Anno

        from malcolm.core import (
            AttributeModel, Controller, MethodModel, NumberMeta, Part, Process,
        )

        self.ctx = ctx
        self.calls = []
        self.scripts = {}
        self.sent = []
        self.ids = 10
        outer = self
        self.a = NumberMeta("int32", "a", writeable=True).create_attribute_model(3)
        self.r = NumberMeta("int32", "r").create_attribute_model(4)

        AP = Anno("p", name="p").set_typ(int)
        AR = Anno("ret", name="return").set_typ(int)

        def m(p, q=7):
            return outer.call("m", dict(p=p, q=q))

        def fixed(p=5):
            return outer.call("fixed", dict(p=p))

        m.call_types = dict(p=AP, q=Anno("q", name="q").set_typ(int))
        m.call_types["q"].default = 7
        m.return_type = AR
        fixed.call_types = dict(p=Anno("p", name="p").set_typ(int))
        fixed.call_types["p"].default = 5
        fixed.return_type = None

        class P(Part):
            def setup(self, registrar):
                super().setup(registrar)
                registrar.add_attribute_model("a", outer.a, outer.put)
                registrar.add_attribute_model("r", outer.r)
                registrar.add_method_model(m, "m")
                registrar.add_method_model(fixed, "fixed")

        self.process = Process("proc")
        self.c = Controller("B")
        self.c.add_part(P("part"))
        self.process.add_controller(self.c)
        self.process.start()
        self.block = self.c._block
        self.block["fixed"].meta.set_writeable(False)
        ctx.settle()

    # code behind the block
    def put(self, value):
        return self.call("a", value)

    def call(self, name, value):
        import cothread

        from malcolm.core import AbortedError

        key = (name, len([x for x in self.calls if x[0] == name]))
        self.calls.append((name, value))
        kind, ret, delay = self.scripts.get(key, ("store", 0, 0))
        if delay:
            cothread.Sleep(delay)
        if kind == "raise":
            raise Boom("it failed")
        if kind == "aborted":
            raise AbortedError("stopped")
        if kind == "rude":
            raise Rude()
        if name == "a":
            if kind in ("store", "value"):
                self.a.set_value(value)
            return ret if kind == "value" else None
        return "junk" if kind == "junk" else ret

    # what clients do
    def send(self, request):
        """Send, keep the answers that come for it"""
        e = Sent(request)
        request.set_callback(e.on)
        self.sent.append(e)
        self.c.handle_request(request)
        return e

    def id(self):
        self.ids += 1
        return self.ids

    def snapshot(self):
        from malcolm.core.notifier import freeze

        return plain(freeze(self.block))


class Sent:
    def __init__(self, request):
        self.request = request
        self.got = []

    def on(self, response):
        self.got.append(response)

    def final(self):
        from malcolm.core import Error, Return

        return [x for x in self.got if isinstance(x, (Return, Error))]


def one_answer(ctx, e, kind, what):
    """Exactly one answer, of this kind, with the id of the request"""
    from malcolm.core import Error, Return

    ctx.check(len(e.got) == 1, "exactly one answer", (what, e.got))
    x = e.got[0]
    ctx.check(ctx.eq(x.id, e.request.id), "the answer has the id of the request", what)
    ctx.check(isinstance(x, Return if kind == "return" else Error),
              f"answered with {kind}", (what, x, getattr(x, "message", None)))
    if kind == "error":
        ctx.check(isinstance(x.message, Exception), "an error says what went wrong",
                  (what, x.message))
        return x.message
    return plain(x.value)


GETS = {
    "block": (["B"], True), "field": (["B", "a"], True),
    "value": (["B", "a", "value"], True), "deep": (["B", "a", "meta", "label"], True),
    "no field": (["B", "zz"], False), "no child": (["B", "a", "zz"], False),
    "below a value": (["B", "a", "value", "x"], False),
    "below a string": (["B", "a", "meta", "label", "x"], False),
    "not in meta": (["B", "a", "meta", "zz"], False),
    "a python attribute": (["B", "a", "set_value"], False),
    "method": (["B", "m"], True), "log": (["B", "m", "took", "value"], True),
}
PUTS = {
    "attribute": (["B", "a"], True), "value": (["B", "a", "value"], True),
    "block": (["B"], False), "no field": (["B", "zz"], False),
    "read only": (["B", "r"], False), "read only value": (["B", "r", "value"], False),
    "method": (["B", "m"], False), "meta": (["B", "meta"], False),
    "alarm": (["B", "a", "alarm"], False), "its meta": (["B", "a", "meta"], False),
    "flag": (["B", "a", "meta", "writeable"], False),
    "beyond": (["B", "a", "value", "x"], False),
}
POSTS = {
    "method": (["B", "m"], True), "block": (["B"], False),
    "no field": (["B", "zz"], False), "attribute": (["B", "a"], False),
    "not allowed": (["B", "fixed"], False), "meta": (["B", "meta"], False),
    "beyond": (["B", "m", "took"], False),
}


def still_alive(ctx, c, what):
    from malcolm.core import Get, Post, Put

    v = ctx.int("after", -50, 50)
    g = c.send(Put(c.id(), ["B", "a"], v, True))
    ctx.settle()
    ctx.check(ctx.eq(one_answer(ctx, g, "return", what), v), "later puts work", what)
    g = c.send(Get(c.id(), ["B", "a", "value"]))
    ctx.settle()
    ctx.check(ctx.eq(one_answer(ctx, g, "return", what), v), "later gets work", what)
    g = c.send(Post(c.id(), ["B", "m"], dict(p=1)))
    ctx.settle()
    one_answer(ctx, g, "return", what)
    for x in c.sent:
        ctx.check(len(x.final()) <= 1, "nothing answered twice", what)


def gets(ctx):
    """A get of any path, in a block that holds any values"""
    from malcolm.core import Get
    from malcolm.core.notifier import freeze

    c = Client(ctx)
    v = ctx.int("v", -2 ** 31, 2 ** 31 - 1)
    c.a.set_value(v)
    name = ctx.choice("path", sorted(GETS))
    path, ok = GETS[name]
    before = c.snapshot()
    e = c.send(Get(ctx.int("id", 0, 2 ** 31), path))
    ctx.settle()
    got = one_answer(ctx, e, "return" if ok else "error", name)
    if ok:
        want = before
        for p in path[1:]:
            want = want[p]
        ctx.check(ctx.eq(got, want), "a get gives what the block holds", (name, got))
    ctx.check(ctx.eq(c.snapshot(), before), "a get changes nothing", name)
    still_alive(ctx, c, name)
    if ok:
        ctx.check(ctx.eq(plain(e.got[0].value), want), "an answer stays as it was", name)
    ctx.cover("ok" if ok else "refused")


def puts(ctx):
    """A put of any value to any path, the function behind it doing anything"""
    from malcolm.core import Put

    c = Client(ctx)
    c.a.set_value(ctx.int("old", -100, 100))
    name = ctx.params["path"]
    path, ok = PUTS[name]
    get = bool(ctx.bool("get"))
    what = ctx.choice("what", ["number", "number", "text", "none", "list"])
    v = ctx.int("v", -100, 100)
    value = dict(number=v, text="x", none=None, list=[1, 2])[what]
    if what == "none":
        v = 0
    kind = ctx.choice("kind", BEHAVIOURS)
    ret = ctx.int("ret", -100, 100)
    if ok and what in ("number", "none"):
        c.scripts[("a", 0)] = (kind, ret, 0)
    else:
        ok = False
    before = c.snapshot()
    old = before["a"]["value"]
    e = c.send(Put(ctx.int("id", 0, 2 ** 31), path, value, get))
    ctx.settle()
    w = (name, what, kind, get)
    if not ok:
        one_answer(ctx, e, "error", w)
        ctx.check(not c.calls, "a refused put calls nothing", w)
        ctx.check(ctx.eq(c.snapshot(), before), "a refused put changes nothing", w)
        ctx.cover("refused")
    else:
        ctx.check(len(c.calls) == 1 and ctx.eq(c.calls[0][1], v),
                  "the function is called once with the value", (w, c.calls))
        if kind in ("raise", "aborted", "rude"):
            m = one_answer(ctx, e, "error", w)
            if kind == "raise":
                ctx.check(isinstance(m, Boom) and m.args == ("it failed",),
                          "the error is the one that was raised", (w, m))
            ctx.check(ctx.eq(c.snapshot(), before), "a failed put changes nothing", w)
            ctx.cover("failed")
        else:
            got = one_answer(ctx, e, "return", w)
            now = c.snapshot()["a"]["value"]
            ctx.check(ctx.eq(now, old if kind == "none" else v), "what is stored", w)
            if not get:
                ctx.check(got is None, "no value unless asked for", w)
            elif kind == "value":
                ctx.check(ctx.eq(got, ret), "the value that was returned", w)
            else:
                ctx.check(ctx.eq(got, now), "the value that is held", w)
            ctx.cover("done")
    still_alive(ctx, c, w)


def posts(ctx):
    """A post of any parameters to any path, the method doing anything"""
    from malcolm.core import Post

    c = Client(ctx)
    name = ctx.params["path"]
    path, ok = POSTS[name]
    v, q = ctx.int("v", -100, 100), ctx.int("q", -100, 100)
    params, good = {
        "p": (dict(p=v), True), "both": (dict(p=v, q=q), True),
        "swapped": (dict(q=q, p=v), True),
        "none": (None, False), "empty": ({}, False), "only q": (dict(q=q), False),
        "unknown": (dict(p=v, zz=1), False), "text": (dict(p="x"), False),
        "list": ([1], False),
    }[ctx.choice("what", ["p", "both", "swapped", "none", "empty", "only q", "unknown",
                          "text"])]
    kind = ctx.choice("kind", ["value", "raise", "aborted", "rude", "junk"])
    ret = ctx.int("ret", -100, 100)
    c.scripts[("m", 0)] = (kind, ret, 0)
    before = c.snapshot()
    e = c.send(Post(ctx.int("id", 0, 2 ** 31), path, params))
    ctx.settle()
    w = (name, params and sorted(params), kind)
    if not (ok and good):
        one_answer(ctx, e, "error", w)
        ctx.check(not c.calls, "a refused post calls nothing", w)
        ctx.check(ctx.eq(c.snapshot(), before), "a refused post changes nothing", w)
        c.scripts = {}
        ctx.cover("refused")
    else:
        want = dict(p=v, q=params.get("q", 7))
        ctx.check(len(c.calls) == 1 and c.calls[0][0] == "m",
                  "the method is called once", (w, c.calls))
        ctx.check(ctx.eq(c.calls[0][1], want), "with the parameters given", (w, c.calls))
        after = c.snapshot()["m"]
        if kind == "value":
            ctx.check(ctx.eq(one_answer(ctx, e, "return", w), ret),
                      "what the method returned", w)
            ctx.check(ctx.eq(after["returned"]["value"], {"return": ret}),
                      "the log has the returned value", (w, after))
            ctx.check(after["returned"]["alarm"]["severity"].value == 0, "no alarm", w)
            ctx.cover("done")
        else:
            m = one_answer(ctx, e, "error", w)
            if kind == "raise":
                ctx.check(isinstance(m, Boom) and m.args == ("it failed",),
                          "the error is the one that was raised", (w, m))
                ctx.check(after["returned"]["alarm"]["severity"].value == 2,
                          "the log shows the failure", (w, after))
            ctx.cover("failed")
        if kind in ("value", "raise", "aborted"):
            took = after["took"]
            ctx.check(ctx.eq({k: took["value"][k] for k in params}, dict(params)),
                      "the log has the parameters", (w, took))
            ctx.check(sorted(took["present"]) == sorted(params),
                      "the log has which were given", (w, took))
    still_alive(ctx, c, w)


def mixes(ctx):
    """Several requests at once, to functions that take any time"""
    from malcolm.core import Get, Post, Put

    p = ctx.params
    c = Client(ctx)
    n = p["n"]
    kinds = [ctx.choice(f"kind{i}", p["kinds"]) for i in range(n)]
    vals = [ctx.int(f"v{i}", -100, 100) for i in range(n)]
    delays = [int(ctx.int(f"delay{i}", 0, 2)) if k in ("put", "post", "putfail",
                                                      "postfail") else 0
              for i, k in enumerate(kinds)]
    # the same id may be in use by several callers
    ids = [ctx.choice("id", [5, 6])] + [5] * (n - 1)
    count = dict(a=0, m=0)
    es = []
    for i, k in enumerate(kinds):
        if k.startswith("put"):
            c.scripts[("a", count["a"])] = ("raise" if k == "putfail" else "store", None,
                                            2 * delays[i] + 0.25 * i)
            count["a"] += 1
            r = Put(ids[i], ["B", "a"], vals[i], True)
        elif k.startswith("post"):
            c.scripts[("m", count["m"])] = ("raise" if k == "postfail" else "value",
                                            vals[i], 2 * delays[i] + 0.25 * i)
            count["m"] += 1
            r = Post(ids[i], ["B", "m"], dict(p=vals[i]))
        elif k == "get":
            r = Get(ids[i], ["B", "r", "value"])
        elif k == "bad":
            r = Put(ids[i], ["B", "r"], vals[i])
        es.append(c.send(r))
    ctx.settle()
    # a waiting function holds up nobody else
    for i, (e, k) in enumerate(zip(es, kinds)):
        w = (kinds, delays, i)
        if k in ("get", "bad"):
            one_answer(ctx, e, "return" if k == "get" else "error", w)
        elif i or delays[i]:
            ctx.check(not e.got, "no answer while the function is running", w)
    for t in range(24):
        ctx.advance(0.25)
        for i, (e, k) in enumerate(zip(es, kinds)):
            if k in ("get", "bad"):
                continue
            at = 2 * delays[i] + 0.25 * i
            if at < 0.25 * (t + 1) - 0.1:
                ctx.check(len(e.got) == 1, "answered when its function is done",
                          (kinds, delays, i, t))
            elif at > 0.25 * (t + 1) + 0.1:
                ctx.check(len(e.got) == 0, "not answered before its function is done",
                          (kinds, delays, i, t))
    for i, (e, k) in enumerate(zip(es, kinds)):
        w = (kinds, delays, i)
        got = one_answer(ctx, e, "return" if k in ("get", "put", "post") else "error", w)
        if k in ("put", "post"):
            ctx.check(ctx.eq(got, vals[i]), "its own result", (w, got))
        elif k == "get":
            ctx.check(ctx.eq(got, 4), "its own result", (w, got))
    ctx.cover("done")
    c.scripts = {}
    still_alive(ctx, c, kinds)


SUBS = dict(good=["B", "a", "value"], whole=["B"], missing=["B", "zz"],
            below=["B", "a", "value", "x"])


def subscriptions(ctx):
    """Clients subscribe, unsubscribe (also what they never subscribed to), and values
    change, in any order"""
    from malcolm.core import Delta, Error, Return, Subscribe, Unsubscribe, Update

    p = ctx.params
    c = Client(ctx)
    cbs = [Sent(None), Sent(None)]
    for cb in cbs:
        c.sent.append(cb)
    live = {}
    delta = bool(ctx.bool("delta"))
    for i in range(p["n"]):
        ops = ["change", "sub", "unsub"]
        op = ctx.choice(f"op{i}", ops)
        counts = [len(x.got) for x in cbs]
        w = (i, op)
        if op == "change":
            v = ctx.int(f"v{i}", -100, 100)
            ctx.assume(v != c.a.value)
            c.a.set_value(v)
            ctx.settle()
            for j, cb in enumerate(cbs):
                new = cb.got[counts[j]:]
                mine = {id: where for (k, id), where in live.items() if k == j}
                told = [x.id for x in new]
                ctx.check(len(set(told)) == len(told) and set(told) <= set(mine),
                          "a change is told once to those who subscribed", (w, new))
                ctx.check(all(id in told for id in mine
                              if mine[id] in ("good", "whole")),
                          "a change is told to everybody who subscribed", (w, new))
                for x in new:
                    ctx.check(isinstance(x, Delta if delta else Update),
                              "as they asked", (w, x))
            continue
        # two clients may use the same id
        who, id = ctx.choice(f"who{i}", [(0, 1), (0, 2), (1, 1)])
        if op == "sub":
            ctx.assume((who, id) not in live)
            where = ctx.choice(f"where{i}", p["where"])
            r = Subscribe(id, SUBS[where], delta)
            r.set_callback(cbs[who].on)
            c.c.handle_request(r)
            ctx.settle()
            new = cbs[who].got[counts[who]:]
            ctx.check(len(new) == 1 and new[0].id == id and
                      isinstance(new[0], Delta if delta else Update),
                      "a subscription starts with what is there", (w, new))
            live[(who, id)] = where
            ctx.cover("sub")
        else:
            r = Unsubscribe(id)
            r.set_callback(cbs[who].on)
            c.c.handle_request(r)
            ctx.settle()
            new = cbs[who].got[counts[who]:]
            ctx.check(len(new) == 1 and new[0].id == id, "one answer", (w, new))
            if live.pop((who, id), None):
                ctx.check(isinstance(new[0], Return), "unsubscribed", (w, new))
                ctx.cover("unsub")
            else:
                ctx.check(isinstance(new[0], Error), "nothing to unsubscribe", (w, new))
                ctx.cover("nothing")
        ctx.check(len(cbs[1 - who].got) == counts[1 - who],
                  "nothing goes to anybody else", w)


HARNESSES = {
    "gets": Harness(gets, must=["ok", "refused"]),
    "puts": Harness(puts, quick=[dict(path=x) for x in PUTS],
                    must=["refused", "failed", "done"]),
    "posts": Harness(posts, quick=[dict(path=x) for x in POSTS],
                     must=["refused", "failed", "done"]),
    "mixes": Harness(mixes, quick=[
        dict(n=2, kinds=["put", "post", "putfail", "postfail", "get", "bad"]),
        dict(n=3, kinds=["put", "post"]), dict(n=3, kinds=["put", "putfail"])],
        thorough=[dict(n=3, kinds=["put", "post", "putfail", "postfail", "get"]),
                  dict(n=4, kinds=["put", "post"])], must=["done"]),
    "subscriptions": Harness(subscriptions, quick=[
        dict(n=3, where=["good", "missing"]), dict(n=3, where=["whole", "below"])],
        thorough=[dict(n=4, where=["good", "missing"]),
                  dict(n=4, where=["whole", "below"])],
        must=["sub", "unsub", "nothing"]),
}
