"""Subscriptions: what a subscriber holds is what the block holds"""
from symx.harness import Harness

TITLE = "A subscriber's view always equals the block"
ASSUMPTIONS = [
    "callbacks of subscribers only record what they are given",
    "the real cothread scheduler runs on a virtual clock",
]

# every kind of place in a block; the last ones only exist some of the time
PATHS = [
    [], ["meta"], ["meta", "fields"], ["meta", "label"],
    ["a"], ["a", "value"], ["a", "alarm"], ["a", "alarm", "severity"],
    ["a", "timeStamp"], ["a", "timeStamp", "secondsPastEpoch"], ["a", "meta"],
    ["a", "meta", "tags"], ["a", "meta", "writeable"], ["a", "meta", "display"],
    ["a", "meta", "display", "precision"],
    ["t"], ["t", "value"], ["t", "value", "x"], ["t", "value", "y"], ["t", "meta"],
    ["t", "meta", "elements"], ["t", "meta", "elements", "x"],
    ["t", "meta", "elements", "x", "label"],
    ["m"], ["m", "meta", "takes", "elements"], ["m", "meta", "takes", "elements", "p"],
    ["m", "meta", "takes", "elements", "q"],
    ["m", "meta", "takes", "elements", "p", "label"], ["m", "took"],
    ["m", "took", "value"], ["m", "took", "value", "p"], ["m", "took", "present"],
    ["c"], ["c", "value"], ["c", "meta"], ["c", "meta", "label"],
    ["c", "meta", "choices"], ["c", "alarm", "message"],
]


def plain(o):
    """Nested plain Python of anything a response can hold"""
    from collections.abc import Mapping

    import numpy as np

    if hasattr(o, "call_types"):
        d = {k: plain(getattr(o, k)) for k in o.call_types}
        if getattr(o, "typeid", None):
            d["typeid"] = o.typeid
        return d
    if isinstance(o, Mapping):
        return {k: plain(v) for k, v in o.items()}
    if hasattr(o, "seq"):
        o = o.seq
    if isinstance(o, np.ndarray):
        return [plain(x) for x in o]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, np.generic):
        return o.item()
    return o


def order(o):
    """The order of the keys at every level"""
    if isinstance(o, dict):
        return [(k, order(v)) for k, v in o.items() if k != "typeid"]
    if isinstance(o, list):
        return [order(x) for x in o]


NOTHING = object()


class Sub:
    """A client that keeps a copy from the responses it gets"""

    def __init__(self, rig, path, delta):
        from malcolm.core import Subscribe

        self.path, self.delta = path, delta
        self.got = []
        self.data = NOTHING
        rig.ids += 1
        self.request = Subscribe(rig.ids, ["B"] + path, delta=delta)
        self.request.set_callback(self.on)
        rig.send(self.request)

    def on(self, response):
        from malcolm.core import Delta, Update

        self.got.append(response)
        if isinstance(response, Update):
            self.data = plain(response.value)
        elif isinstance(response, Delta):
            for change in response.changes:
                self.apply(*change)

    def apply(self, path, *value):
        value = [plain(v) for v in value]
        if not path:
            self.data = value[0] if value else None
            return
        d = self.data
        for k in path[:-1]:
            d = d[k]
        if value:
            d[path[-1]] = value[0]
        else:
            del d[path[-1]]


class Oops(Exception):
    pass


class Broken(Sub):
    """A client that can't take what it is sent once it is broken"""

    broken = False

    def on(self, response):
        if self.broken:
            raise Oops()


class Rig:
    ids = 0

    def __init__(self, ctx):
        from malcolm.core import (
            Controller, MethodMeta, MethodModel, NumberArrayMeta, NumberMeta, Process,
            StringArrayMeta, StringMeta, TableMeta,
        )

        self.ctx = ctx
        self.process = Process("proc")
        self.c = Controller("B")
        self.process.add_controller(self.c)
        self.process.start()
        b = self.c
        self.a = NumberMeta("int32", "an a").create_attribute_model()
        self.t = TableMeta("a t", elements=dict(
            x=NumberArrayMeta("int32", label="X"), y=StringArrayMeta())
        ).create_attribute_model()
        self.m = MethodModel(meta=MethodMeta(takes=dict(
            typeid="malcolm:core/MapMeta:1.0", elements=dict(
                p=NumberMeta("int32").to_dict(), r=StringMeta().to_dict()),
            required=["p"])))
        self.t.set_value(dict(x=[1, 2, 3], y=["r", "s", "t"]))
        b.add_block_field("a", self.a, None, False)
        b.add_block_field("t", self.t, None, False)
        b.add_block_field("m", self.m, lambda p, r="": None, False)
        self.n = 0
        ctx.settle()

    def send(self, request):
        self.c.handle_request(request)
        self.ctx.settle()

    def fresh(self):
        self.n += 1
        return self.ctx.int(f"v{self.n}", -1000, 1000)

    def model(self):
        return self.c.block_view()

    def at(self, path):
        """What a Get of the path gives, None if there is no such thing"""
        from malcolm.core import Get, Return

        out = []
        self.ids += 1
        g = Get(self.ids, ["B"] + path)
        g.set_callback(out.append)
        self.send(g)
        assert len(out) == 1, out
        return plain(out[0].value) if isinstance(out[0], Return) else None


def c_attr():
    from malcolm.core import ChoiceMeta

    return ChoiceMeta("a c", ["one", "two"], label="See").create_attribute_model("two")


def op_value(r):
    r.a.set_value(r.fresh())
    return [["a", "value"], ["a", "alarm"], ["a", "timeStamp"]]


def op_value_only(r):
    r.a.set_value(r.fresh(), set_alarm_ts=False)
    return [["a", "value"]]


def op_value_alarm(r):
    from malcolm.core import Alarm, TimeStamp

    r.a.set_value(r.fresh(), alarm=Alarm.major(f"bad{r.n}"), ts=TimeStamp.zero)
    return [["a", "value"], ["a", "alarm"], ["a", "timeStamp"]]


def op_alarm(r):
    from malcolm.core import Alarm

    r.a.set_alarm(Alarm.invalid("worse"))
    return [["a", "alarm"]]


def op_tags(r):
    r.a.meta.set_tags([f"tag{r.n}", "other"])
    r.n += 1
    return [["a", "meta", "tags"]]


def op_writeable(r):
    r.a.meta.set_writeable(bool(r.ctx.bool(f"w{r.n}")))
    r.n += 1
    return [["a", "meta", "writeable"]]


def op_precision(r):
    r.a.meta.display.set_precision(r.fresh())
    return [["a", "meta", "display", "precision"]]


def op_display(r):
    from malcolm.core.models import Display

    r.a.meta.set_display(Display(precision=r.fresh(), units="mm"))
    return [["a", "meta", "display"]]


def op_meta(r):
    from malcolm.core import NumberMeta

    r.a.set_meta(NumberMeta("int64", f"new {r.n}", tags=["n"]))
    r.n += 1
    return [["a", "meta"]]


def column(r, **new):
    v = r.t.value
    r.t.set_value(dict(dict(x=v.x, y=v.y), **new))
    # the other column is converted if its type has changed since
    return [["t", "value", k] for k in "xy" if r.t.value[k] is not v[k]] + [
        ["t", "alarm"], ["t", "timeStamp"]]


def op_table(r):
    r.t.set_value(dict(x=[r.fresh(), r.fresh()], y=["p", "q"]))
    return [["t", "value"], ["t", "alarm"], ["t", "timeStamp"]]


def op_column(r):
    return column(r, x=[r.fresh() for _ in r.t.value.y])


def op_column_y(r):
    return column(r, y=[f"s{r.n}" for _ in r.t.value.y])


def op_element(r):
    r.t.meta.elements["x"].set_label(f"l{r.n}")
    r.n += 1
    return [["t", "meta", "elements", "x", "label"]]


def op_elements(r):
    from malcolm.core import NumberArrayMeta, StringArrayMeta

    r.t.meta.set_elements(dict(x=NumberArrayMeta("int64", label=f"n{r.n}"),
                               y=StringArrayMeta("new")))
    r.n += 1
    return [["t", "meta", "elements"]]


def op_takes(r):
    from malcolm.core import NumberMeta

    if r.n % 2:
        r.m.meta.takes.set_elements(dict(p=NumberMeta("int32", f"d{r.n}")))
    else:
        r.m.meta.takes.set_elements(dict(
            p=NumberMeta("int32", label=f"d{r.n}"), q=NumberMeta("float64")))
    r.n += 1
    return [["m", "meta", "takes", "elements"]]


def op_post(r):
    from malcolm.core import Post

    r.ids += 1
    p = Post(r.ids, ["B", "m"], dict(p=r.fresh()))
    p.set_callback(lambda x: None)
    r.send(p)
    return [["m", "took"], ["m", "returned"]]


def op_add(r):
    r.c.add_block_field("c", c_attr(), None, False)
    return [["c"], ["meta", "fields"]]


def op_remove(r):
    if "c" in r.c.block_view()._data.call_types:
        r.c.block_view()._data.remove_endpoint("c")
        return [["c"], ["meta", "fields"]]
    return []


def op_c(r):
    m = r.c.block_view()._data
    if "c" in m.call_types:
        m.c.set_value("one" if m.c.value == "two" else "two")
        return [["c", "value"], ["c", "alarm"], ["c", "timeStamp"]]
    return []


def op_choices(r):
    m = r.c.block_view()._data
    if "c" in m.call_types:
        with r.c.changes_squashed:
            m.c.meta.set_choices(["three", f"four{r.n}"])
            m.c.set_value(1)
        return [["c"]]
    return []


def op_replace(r):
    """The field is replaced by a new one, the old one still changes"""
    from malcolm.core import NumberMeta

    old = r.a
    r.a = NumberMeta("int32", "another").create_attribute_model(r.fresh())
    r.c.block_view()._data.set_endpoint_data("a", r.a)
    old.set_value(12345)
    old.meta.set_label("gone")
    return [["a"], ["meta", "fields"]]


OPS = dict((k[3:], v) for k, v in list(globals().items()) if k.startswith("op_"))
NAMES = sorted(OPS)
CORE = ["add", "column", "elements", "meta", "remove", "replace", "value"]


def related(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def check_subs(ctx, r, subs, touched, before, what):
    whole = r.at([])
    ctx.check(list(whole["meta"]["fields"]) == [k for k in whole
                                                if k not in ("typeid", "meta")],
              "the fields are listed", (what, whole["meta"]["fields"]))
    for s in subs:
        now = r.at(s.path)
        name = ("delta" if s.delta else "update") + " of " + ".".join(["B"] + s.path)
        ctx.check(s.data is not NOTHING, name + ": has something", what)
        ctx.check(ctx.eq(s.data, now), name + ": equals the block", (what, s.data, now))
        if s.delta:
            ctx.check(order(s.data) == order(now), name + ": in the same order",
                      (what, order(s.data), order(now)))
        n = len(s.got) - before[s]
        if not s.path or any(related(s.path, t) for t in touched):
            ctx.check(n <= 1, name + ": one update for one change", (what, n))
        else:
            ctx.check(n == 0, name + ": nothing of other fields", (what, s.got[-1:]))


LEAVE = {
    "a third": lambda j, s: j % 3 == 0,
    "updates": lambda j, s: not s.delta,
    "deltas": lambda j, s: s.delta,
    "odd lengths": lambda j, s: len(s.path) % 2,
    "even lengths": lambda j, s: len(s.path) % 2 == 0,
    "all but the last": lambda j, s: j < 75,
}


def changes(ctx):
    """Sequences of 2 or 3 changes, single or batched, of any kind to a block with a
    number, a table, a method and a field that comes and goes; full and delta
    subscriptions to 38 paths, made at the start or in between and ended at any time"""
    p = ctx.params
    r = Rig(ctx)
    names = p.get("ops", NAMES)
    if p.get("batch"):
        # a method runs in another thread
        names = [x for x in names if x != "post"]
    seq = [p["first"]] if "first" in p else []
    k = 0
    while len(seq) < p["n"]:
        seq.append(names[int(ctx.int(f"op{k}", 0, len(names) - 1))])
        k += 1
    subs = [Sub(r, path, d) for path in PATHS for d in (False, True)]
    late_at = p.get("late")
    gone_at = p.get("gone")
    batch = p.get("batch")  # the last so many are one change
    late, gone = [], []
    steps = [[x] for x in seq]
    if batch:
        steps = steps[:-batch] + [sum(steps[-batch:], [])]
    kept = []
    for i, step in enumerate(steps):
        if late_at == i:
            late = [Sub(r, path, d) for path in PATHS for d in (False, True)]
            subs += late
        if gone_at == i:
            from malcolm.core import Return, Unsubscribe

            who = ctx.choice("who", list(LEAVE))
            gone = [s for j, s in enumerate(subs) if LEAVE[who](j, s)]
            if p.get("reverse"):
                gone.reverse()
            subs = [s for s in subs if s not in gone]
            for s in gone:
                u = Unsubscribe(s.request.id)
                u.set_callback(s.on)
                n = len(s.got)
                r.send(u)
                ctx.check(len(s.got) == n + 1 and isinstance(s.got[-1], Return) and
                          s.got[-1].id == s.request.id, "unsubscribing gives a return",
                          s.got[n:])
        before = {s: len(s.got) for s in subs + gone}
        touched = []
        ctx.advance(10)
        if len(step) == 1:
            touched += OPS[step[0]](r)
        else:
            try:
                with r.c.changes_squashed:
                    for x in step:
                        touched += OPS[x](r)
                    if p.get("fails"):
                        raise Oops()
            except Oops:
                # what was changed before stays changed
                ctx.cover("failed")
        ctx.settle()
        check_subs(ctx, r, subs, touched, before, step)
        for s in gone:
            ctx.check(len(s.got) == before[s], "nothing after unsubscribing",
                      (step, s.path))
    ctx.cover("done")
    if late:
        ctx.cover("late")
    if gone:
        ctx.cover("gone")


def snapshots(ctx):
    """What was sent for one change is not altered by the next"""
    p = ctx.params
    r = Rig(ctx)
    names = p["ops"]
    op_add(r)
    subs = [Sub(r, path, False) for path in PATHS]
    seq = [p["first"], ctx.choice("second", names)]
    OPS[seq[0]](r)
    ctx.settle()
    held = [(s, s.got[-1], plain(s.got[-1].value)) for s in subs]
    OPS[seq[1]](r)
    ctx.settle()
    for s, resp, data in held:
        ctx.check(ctx.eq(plain(resp.value), data), "what was sent stays as it was",
                  (seq, s.path))
    ctx.cover("done")


def threads(ctx):
    """A change in two steps with a pause in between, and at any time another change,
    a subscriber coming, or one going in another thread"""
    import cothread

    p = ctx.params
    r = Rig(ctx)
    subs = [Sub(r, path, d) for path in PATHS for d in (False, True)]
    one = ctx.choice("one", p["ops"])
    two = ctx.choice("two", p["ops"])
    other = p["other"]
    when = int(ctx.int("when", 0, 2))
    before = {s: len(s.got) for s in subs}
    late = []

    def batch():
        cothread.Sleep(1)
        with r.c.changes_squashed:
            OPS[one](r)
            cothread.Sleep(1)
            seen.append([len(s.got) - before[s] for s in subs])
            OPS[two](r)

    def intruder():
        cothread.Sleep(when + 0.5)
        if other == "subscribe":
            late.extend(Sub(r, path, d) for path in PATHS for d in (False, True))
        else:
            OPS[other](r)

    seen = []
    ts = [cothread.Spawn(batch), cothread.Spawn(intruder)]
    cothread.WaitForAll(ts)
    ctx.advance(5)
    if not (when == 0 and other != "subscribe"):
        ctx.check(not any(seen[0]), "nothing is seen of half a change", seen)
    for s in subs + late:
        now = r.at(s.path)
        name = ("delta" if s.delta else "update") + " of " + ".".join(["B"] + s.path)
        ctx.check(ctx.eq(s.data, now), name + ": equals the block",
                  (one, two, other, when, s.data, now))
        if s.delta:
            ctx.check(order(s.data) == order(now), name + ": in the same order",
                      (one, two, other, when))
        if s not in late:
            ctx.check(len(s.got) - before[s] <= 2, name + ": one update for one change",
                      (one, two, other, when))
    ctx.cover("done")


def broken(ctx):
    """Subscribers that fail when they are told of a change, between others"""
    p = ctx.params
    r = Rig(ctx)
    subs, bad = [], []
    for i, path in enumerate(PATHS):
        if i % 3 == int(p["bad"]):
            bad.append(Broken(r, path, i % 2 == 0))
        subs += [Sub(r, path, d) for d in (False, True)]
    for s in bad:
        s.broken = True
    before = {s: len(s.got) for s in subs}
    op = ctx.choice("op", p["ops"])
    touched = None
    try:
        with r.c.changes_squashed:
            touched = OPS[op](r)
    except Oops:
        # whoever makes the change may be told
        ctx.cover("told")
    ctx.settle()
    check_subs(ctx, r, subs, touched, before, op)
    ctx.cover("done")


Q = [dict(n=2, first=f) for f in NAMES]
Q += [dict(n=2, first=f, batch=2) for f in NAMES if f != "post"]
Q += [dict(n=2, first=f, ops=["add", "column", "replace", "value"], late=1, gone=1,
           reverse=r)
      for f in ("column", "meta", "remove", "value") for r in (False, True)]
Q += [dict(n=2, first=f, batch=2, ops=CORE, fails=True) for f in CORE]
T = [dict(n=3, first=f, ops=CORE) for f in NAMES]
T += [dict(n=3, first=f, batch=3, ops=CORE) for f in NAMES if f != "post"]
T += [dict(n=2, first=f, ops=CORE, late=1, gone=1, reverse=r) for f in CORE
      for r in (False, True)]
T += [dict(n=3, first=f, ops=CORE, late=2, gone=1) for f in CORE]
SNAP = [x for x in NAMES if x not in ("post",)]
HARNESSES = {
    "changes": Harness(changes, quick=Q, thorough=Q + T, must=["done", "late", "gone", "failed"]),
    "broken": Harness(broken, quick=[
        dict(bad=b, ops=[x for x in NAMES if x != "post"]) for b in range(3)],
        must=["done"]),
    "snapshots": Harness(snapshots, quick=[dict(first=f, ops=CORE + ["column_y", "tags"])
                                           for f in SNAP[::3]],
                         thorough=[dict(first=f, ops=SNAP) for f in SNAP],
                         must=["done"]),
    "threads": Harness(threads, quick=[
        dict(ops=["value", "column", "meta", "add"], other=o)
        for o in ("value_alarm", "subscribe", "table")], thorough=[
        dict(ops=CORE, other=o) for o in ("value_alarm", "subscribe", "table", "add")],
        must=["done"]),
}
