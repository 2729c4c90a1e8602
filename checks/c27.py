"""Attributes and methods of EPICS PVs"""
from symx.harness import Harness

TITLE = "Attributes of PVs follow their PV, and puts go to it"
ASSUMPTIONS = [
    "catools is a stand-in that does what cothread's does: monitors merge updates that "
    "were not delivered yet, are called one at a time, one that raises is closed; a get or "
    "put of a disconnected PV takes 5 seconds and fails",
    "the real cothread scheduler runs on a virtual clock",
    "numbers are symbolic; texts, choices and arrays are picked by the solver from lists",
]


class ca_nothing(Exception):
    def __init__(self, name):
        super().__init__(name)
        self.ok = False
        self.name = name
        self.errorcode = 1

    def __bool__(self):
        return self.ok


class Record:
    """A record: its value is set from below or by puts"""

    enums = ["zero", "one", "two"]
    precision, units, lower_disp_limit, upper_disp_limit = 3, "mm", -5.0, 7.5

    def __init__(self, name, dbr, value):
        self.name, self.dbr, self.value = name, dbr, value
        self.severity = 0
        self.connected = True
        self.stamp = (100, 1)
        self.links = []
        self.take = lambda v: v
        self.busy = 0.0


VALUES = {}


def annotate(v):
    """The same value, of a class that can have attributes"""
    import numpy as np

    from symx import values as V

    if isinstance(v, np.ndarray):
        if "a" not in VALUES:
            VALUES["a"] = type("PvArray", (np.ndarray,), {})
        return v.copy().view(VALUES["a"])
    if V.is_sym(v):
        return V.with_attributes(v)
    t = next(t for t in (str, int, float) if isinstance(v, t))
    if t not in VALUES:
        VALUES[t] = type("Pv" + t.__name__, (t,), {})
    return VALUES[t](v)


class Sub:
    open = True

    def __init__(self, ioc, record, cb, dbr, disc):
        self.ioc, self.record, self.cb, self.dbr, self.disc = ioc, record, cb, dbr, disc
        self.pending = None

    def close(self):
        self.open = False
        if self in self.ioc.subs:
            self.ioc.subs.remove(self)

    def signal(self, value):
        """From the network: merged with what was not delivered yet"""
        if self.pending is None:
            self.ioc.queue.append(self)
            self.ioc.wake.Signal()
        self.pending = value


class Ioc:
    """The IOC and catools"""

    FORMAT_CTRL, FORMAT_TIME = "ctrl", "time"
    ca_nothing = ca_nothing

    def __init__(self, ctx):
        import cothread

        self.ctx = ctx
        self.records = {}
        self.subs = []
        self.queue = []
        self.puts = []
        self.broken = []
        self.clock = 100
        self.wake = cothread.Event()
        cothread.Spawn(self.deliver)

    def __getattr__(self, name):
        if name.startswith("DBR_"):
            return name
        raise AttributeError(name)

    def deliver(self):
        while True:
            while not self.queue:
                self.wake.Wait()
            s = self.queue.pop(0)
            v, s.pending = s.pending, None
            if s.open:
                try:
                    s.cb(v)
                except Exception as e:
                    self.broken.append(repr(e))
                    s.close()

    def record(self, name, dbr, value):
        r = self.records[name] = Record(name, dbr, value)
        return r

    def value(self, r, format, dbr):
        if not r.connected:
            return ca_nothing(r.name)
        dbr = dbr or r.dbr
        if dbr != r.dbr:
            assert (dbr, r.dbr) == ("DBR_STRING", "DBR_ENUM"), (dbr, r.dbr)
            v = annotate(r.enums[r.value])
        else:
            v = annotate(r.value)
        v.ok, v.name = True, r.name
        if format:
            v.severity, v.status = r.severity, 0
        if format == "time":
            v.raw_stamp = r.stamp
            v.timestamp = r.stamp[0] + r.stamp[1] * 1e-9
        if format == "ctrl":
            if dbr == "DBR_ENUM":
                v.enums = r.enums
            if dbr in ("DBR_DOUBLE", "DBR_LONG"):
                v.units = r.units
                v.lower_disp_limit, v.upper_disp_limit = (r.lower_disp_limit,
                                                          r.upper_disp_limit)
            if dbr == "DBR_DOUBLE":
                v.precision = r.precision
        return v

    def caget(self, pv, format=None, datatype=None, throw=True, timeout=5, **kw):
        import cothread

        if not isinstance(pv, str):
            return [self.caget(x, format, datatype, throw, timeout) for x in pv]
        r = self.records[pv]
        if not r.connected:
            cothread.Sleep(5)
        v = self.value(r, format, datatype)
        if not v.ok and throw:
            raise v
        return v

    def caput(self, pv, value, wait=False, timeout=5, datatype=None, throw=True, **kw):
        import cothread

        assert isinstance(pv, str)
        r = self.records[pv]
        self.puts.append((pv, value, wait, datatype))
        if not r.connected:
            cothread.Sleep(5)
            raise ca_nothing(pv)
        if wait and r.busy:
            if timeout is not None and timeout < r.busy:
                cothread.Sleep(timeout)
                raise ca_nothing(pv)
            cothread.Sleep(r.busy)
        new = r.take(value)
        for x in [r] + r.links:
            self.set(x, new)
        v = ca_nothing(pv)
        v.ok = True
        return v

    def camonitor(self, pv, callback, format=None, datatype=None, notify_disconnect=False,
                  **kw):
        if not isinstance(pv, str):
            return [self.camonitor(x, lambda v, i=i: callback(v, i), format, datatype,
                                   notify_disconnect) for i, x in enumerate(pv)]
        r = self.records[pv]
        s = Sub(self, r, callback, (format, datatype), notify_disconnect)
        self.subs.append(s)
        if r.connected or notify_disconnect:
            s.signal(self.value(r, format, datatype))
        return s

    def changed(self, r):
        for s in list(self.subs):
            if s.record is r and (r.connected or s.disc):
                s.signal(self.value(r, *s.dbr))

    def set(self, r, value, severity=None):
        import numpy as np

        self.clock += 1
        r.stamp = (self.clock, 5)
        if r.dbr == "DBR_DOUBLE" and isinstance(value, (list, tuple)):
            value = np.array(value, "float64")
        elif r.dbr == "DBR_LONG" and isinstance(value, (list, tuple)):
            value = np.array(value, "int32")
        elif isinstance(value, np.generic):
            value = value.item()
        r.value = value
        if severity is not None:
            r.severity = severity
        self.changed(r)

    def connect(self, r, on):
        r.connected = on
        self.changed(r)


class Stub:
    now = None

    def __getattr__(self, k):
        return getattr(Stub.now, k)


def use_ioc(ctx):
    import malcolm.modules.ca.util as U

    Stub.now = Ioc(ctx)
    U.catools = Stub()
    return Stub.now


def arrays(dtype):
    import numpy as np

    return [np.array(x, dtype) for x in ([1, 2], [])]


KINDS = {
    # part, what its PV is, values
    "double": ("CADoublePart", "DBR_DOUBLE", None),
    "long": ("CALongPart", "DBR_LONG", None),
    "bool": ("CABooleanPart", "DBR_LONG", None),
    "string": ("CAStringPart", "DBR_STRING", ["one", ""]),
    "chars": ("CACharArrayPart", "DBR_CHAR_STR", ["one", "a" * 60]),
    "choice": ("CAChoicePart", "DBR_ENUM", [0, 2]),
    "doubles": ("CADoubleArrayPart", "DBR_DOUBLE", "float64"),
    "longs": ("CALongArrayPart", "DBR_LONG", "int32"),
}


def some(ctx, kind, name):
    """A value that the PV could have"""
    if kind == "double":
        return ctx.real(name, -1000, 1000)
    if kind == "long":
        return ctx.int(name, -1000, 1000)
    if kind == "bool":
        return ctx.int(name, 0, 1)
    options = KINDS[kind][2]
    if isinstance(options, str):
        options = arrays(options)
    return ctx.choice(name, options)


def shown_as(kind, v):
    """What the attribute has for a value of the PV"""
    if kind == "choice":
        return Record.enums[v]
    if kind in ("doubles", "longs"):
        return v.tolist()
    return v


def differ(ctx, kind, got, v):
    if kind in ("doubles", "longs"):
        return list(got) != v.tolist()
    if kind == "bool":
        return ctx.Not(ctx.And(ctx.Implies(v == 0, got == False),  # noqa: E712
                               ctx.Implies(v != 0, got == True)))  # noqa: E712
    return ctx.Not(ctx.eq(got, shown_as(kind, v)))


def follow(ctx):
    """Every kind of attribute, with a demand PV, a readback PV or both; changes of value
    and alarm from below, bursts of them, lost connections, puts that work, are changed by
    the record or fail, resets and disables"""
    from malcolm.core import Process
    from malcolm.modules.builtin.controllers import StatefulController
    from malcolm.modules.ca import parts as P

    p = ctx.params
    kind, mode = p["kind"], p["mode"]
    cls, dbr, _ = KINDS[kind]
    ioc = use_ioc(ctx)
    kw = dict(pv=dict(pv="PV"), rbv=dict(rbv="R"), both=dict(pv="PV", rbv="R"),
              suffix=dict(pv="PV", rbv_suffix="_R"))[mode]
    names = dict(pv=("PV", "PV"), rbv=(None, "R"), both=("PV", "R"),
                 suffix=("PV", "PV_R"))[mode]
    r = ioc.record(names[1], dbr, some(ctx, kind, "v"))
    pv = r
    if names[0] and names[0] != names[1]:
        pv = ioc.record(names[0], dbr, r.value)
        pv.links = [r]
    throw = p.get("throw", True)
    if not throw:
        kw["throw"] = False
    if p.get("start") == "off":
        r.connected = False
        ctx.assume(True)
    part = getattr(P, cls)("attr", "What it is", timeout=3.0, **kw)
    process = Process("proc")
    c = StatefulController("B")
    c.add_part(part)
    process.add_controller(c)
    process.start()
    b = c.block_view()
    attr = c._block.attr
    state = "Ready" if r.connected or not throw else "Fault"
    last = r.value if r.connected else None
    what = []

    def check():
        nonlocal last
        ctx.check(b.state.value == state, "state of the block", (what, b.state.value))
        ctx.check(not ioc.broken, "a monitor never fails", (what, ioc.broken))
        if state == "Ready":
            ctx.check(len([s for s in ioc.subs if s.record is r]) == 1 == len(ioc.subs),
                      "monitored once", (what, len(ioc.subs)))
            if r.connected:
                last = r.value
                ctx.check(attr.alarm.severity.value == r.severity, "alarm of the PV",
                          (what, attr.alarm.severity, r.severity))
                ts = attr.timeStamp
                ctx.check((ts.secondsPastEpoch, ts.nanoseconds) == r.stamp,
                          "time of the PV", (what, ts.secondsPastEpoch, r.stamp))
            else:
                ctx.check(attr.alarm.severity.value == 4 or "isconnect" in
                          attr.alarm.message, "shown as disconnected",
                          (what, attr.alarm.severity, attr.alarm.message))
        elif state == "Disabled":
            ctx.check(not ioc.subs, "not monitored when disabled", what)
        if last is not None:
            ctx.check(ctx.Not(differ(ctx, kind, attr.value, last)), "value of the PV",
                      (what, attr.value, last))

    ctx.advance(1)
    check()
    if kind == "choice" and r.connected:
        ctx.check(list(attr.meta.choices) == Record.enums, "choices", attr.meta.choices)
    if kind in ("double", "doubles") and r.connected:
        d = attr.meta.display
        ctx.check((d.limitLow, d.limitHigh, d.precision, d.units) == (-5.0, 7.5, 3, "mm"),
                  "limits and units", d.to_dict())
    if state == "Ready":
        ctx.check(attr.meta.writeable == (names[0] is not None),
                  "writeable if it has a demand", mode)
    for i in range(p["n"]):
        op = ctx.choice(f"op{i}", p["ops"])
        what.append(op)
        if op == "value":
            ioc.set(r, some(ctx, kind, f"v{i}"), ctx.choice(f"s{i}", p.get("alarms", [0, 2])))
        elif op == "off":
            ioc.connect(r, not r.connected)
        elif op == "burst":
            # a fast PV
            seen = []
            from malcolm.core import Context

            cx = Context(process)
            f = cx.subscribe(["B", "attr", "value"], lambda v: seen.append(1))
            end = some(ctx, kind, f"v{i}")
            for k in range(20):
                ioc.set(r, some(ctx, kind, "v"), 2 * (k % 2))
                ctx.advance(0.01)
            ioc.set(r, end, 0)
            ctx.advance(0.06)
            if state == "Ready" and r.connected:
                ctx.check(ctx.Not(differ(ctx, kind, attr.value, end)),
                          "the last of many values is shown soon", (what, attr.value))
            ctx.check(len(seen) <= 10, "updates are limited", (what, len(seen)))
            cx.unsubscribe(f)
        elif op == "reset" and state in ("Disabled", "Fault") or op == "again":
            if op == "again" and state != "Disabled":
                b.disable()
                ctx.settle()
                ctx.check(not ioc.subs, "not monitored when disabled", what)
            err = None
            try:
                b.reset()
            except Exception as e:
                err = e
            ok = (r.connected and pv.connected) or not throw
            ctx.check((err is None) == ok, "reset works if the PV is there", (what, err))
            state = "Ready" if ok else "Fault"
        elif op == "disable" and state == "Ready":
            b.disable()
            state = "Disabled"
        elif op == "put" and state == "Ready":
            put(ctx, ioc, b, kind, pv, r, i, what, names)
        ctx.advance(1)
        check()
    ctx.cover("done")


def put(ctx, ioc, b, kind, pv, r, i, what, names):
    import time

    v = some(ctx, kind, f"v{i}")
    how = ctx.choice(f"how{i}", ["same", "changed", "refused", "slow", "too slow"])
    what.append(how)
    other = some(ctx, kind, "v")
    pv.take = lambda x: x
    pv.busy = 0.0
    if how == "changed":
        # the record does something else, a limit say
        pv.take = lambda x: other
    elif how == "refused":

        def no(x):
            raise ca_nothing(pv.name)

        pv.take = no
    elif how == "slow":
        pv.busy = 2.0
    elif how == "too slow":
        pv.busy = 4.0
    ioc.puts.clear()
    before = time.time()
    err = None
    try:
        b.attr.put_value(shown_as(kind, v))
    except Exception as e:
        err = e
    if names[0] is None:
        ctx.check(err is not None and not ioc.puts, "a readback can't be put", what)
        ctx.cover("not writeable")
        return
    fails = how in ("refused", "too slow") or not pv.connected or not r.connected
    ctx.check((err is not None) == fails, "a put fails exactly if that of the PV does",
              (what, repr(err), r.connected))
    ctx.check(len(ioc.puts) == 1, "one put", (what, ioc.puts))
    name, value, wait, dbr = ioc.puts[0]
    ctx.check(name == pv.name, "to the demand PV", what)
    ctx.check(wait, "is waited for", what)
    ctx.check(dbr == pv.dbr, "of its type", dbr)
    if kind in ("doubles", "longs"):
        ctx.check(list(value) == v.tolist(), "the value put", (what, value))
    elif kind == "bool":
        ctx.check(ctx.And(ctx.Implies(v == 0, value == 0), ctx.Implies(v != 0, value == 1)),
                  "the value put", (what, value))
    else:
        ctx.check(ctx.eq(value, v), "the value put", (what, value, v))
    if not fails:
        if how == "slow":
            ctx.check(time.time() - before >= 2.0, "waits for the record", what)
        ctx.check(ctx.Not(differ(ctx, kind, b.attr.value, other if how == "changed" else v)),
                  "shows what the record has when the put is done", (what, b.attr.value))
        ctx.cover("put")
    else:
        ctx.cover("failed put")


def table(ctx):
    """Tables of two waveforms; changes of length, value and alarm of one at a time, lost
    connections"""
    import numpy as np

    from malcolm.core import Process
    from malcolm.modules.builtin.controllers import StatefulController
    from malcolm.modules.ca.parts import CAWaveformTablePart

    p = ctx.params
    ioc = use_ioc(ctx)
    rs = [ioc.record(n, "DBR_DOUBLE", np.array([1.0, 2.0 + i]))
          for i, n in enumerate(["Y", "X"])]
    rs[1].units = "s"
    rs[0].severity = ctx.choice("s", [0, 2])
    process = Process("proc")
    c = StatefulController("B")
    c.add_part(CAWaveformTablePart("attr", "What it is", ["Y", "X"], ["y", "x"]))
    process.add_controller(c)
    process.start()
    b = c.block_view()
    attr = c._block.attr
    ctx.advance(1)
    ctx.check(b.state.value == "Ready", "ready", b.state.value)
    ctx.check([attr.meta.elements[k].display.units for k in "yx"] == ["mm", "s"],
              "units of each column")
    shown = [r.value.tolist() for r in rs]
    what = []
    for i in range(p["n"] + 1):
        if i:
            op = ctx.choice(f"op{i}", ["value", "value", "alarm", "off", "again"])
            w = ctx.choice(f"w{i}", [0, 1])
            what.append((op, w))
            r = rs[w]
            if op == "value":
                ioc.set(r, np.array(ctx.choice(f"v{i}", [[5.0, 6.0], [7.0], []])))
            elif op == "alarm":
                ioc.set(r, r.value, ctx.choice(f"s{i}", [0, 1, 2]))
            elif op == "off":
                ioc.connect(r, not r.connected)
            elif op == "again" and all(r.connected for r in rs) and (
                    len(rs[0].value) == len(rs[1].value)):
                b.disable()
                ctx.check(not ioc.subs, "not monitored when disabled", what)
                b.reset()
            ctx.advance(1)
        ctx.check(not ioc.broken, "a monitor never fails", (what, ioc.broken))
        ctx.check(len(ioc.subs) == 2, "each is monitored once", what)
        if all(r.connected for r in rs):
            if len(rs[0].value) == len(rs[1].value):
                shown = [r.value.tolist() for r in rs]
                ctx.check(attr.alarm.severity.value == max(r.severity for r in rs),
                          "the worst alarm", (what, attr.alarm.severity))
                ctx.cover("shown")
        else:
            ctx.check(attr.alarm.severity.value == 4 or "isconnect" in attr.alarm.message,
                      "shown as disconnected", (what, attr.alarm.severity))
            ctx.cover("disconnected")
        got = [list(attr.value[k]) for k in "yx"]
        ctx.check(got == shown, "the columns of the PVs", (what, got, shown))


def action(ctx):
    """Actions with a status that gets good after any time, or gets bad, with a message or
    not; PVs that are not there"""
    import cothread

    from malcolm.core import Process
    from malcolm.modules.builtin.controllers import StatefulController
    from malcolm.modules.ca.parts import CAActionPart

    p = ctx.params
    ioc = use_ioc(ctx)
    go = ioc.record("GO", "DBR_LONG", 0)
    st = ioc.record("ST", "DBR_ENUM", 0)
    ioc.record("MSG", "DBR_CHAR_STR", "it broke")
    status, message = p["status"], p["message"]
    wait = p.get("wait", True)
    throw = p.get("throw", True)
    part = CAActionPart("go", "Do it", pv="GO", status_pv="ST" if status else "",
                        good_status="one" if status else "", status_timeout=2,
                        message_pv="MSG" if message else "", value=7, wait=wait, throw=throw)
    if not throw:
        go.connected = ctx.choice("there", [False, True])
    process = Process("proc")
    c = StatefulController("B")
    c.add_part(part)
    process.add_controller(c)
    process.start()
    b = c.block_view()
    ctx.check(b.state.value == "Ready", "ready", b.state.value)

    def hidden():
        return "method:hidden" in c._block.go.meta.tags

    if not throw:
        ctx.check(hidden() == (not go.connected), "hidden if it is not there",
                  (go.connected, c._block.go.meta.tags))
        for i in range(p["resets"]):
            go.connected = ctx.choice(f"there{i}", [False, True])
            b.disable()
            b.reset()
            ctx.check(hidden() == (not go.connected), "hidden if it is not there",
                      (i, go.connected, c._block.go.meta.tags))
        ctx.check(len(set(c._block.go.meta.tags)) == len(c._block.go.meta.tags),
                  "tags", c._block.go.meta.tags)
        ctx.cover("done")
        return
    go.busy = ctx.choice("busy", [0.0, 10.0])
    kind = ctx.choice("what", ["good", "bad", "none", "off"])
    later = ctx.real("t", 0, 4)
    ctx.assume(ctx.Or(later < 1.75, later > 2.25))
    ctx.assume(ctx.Or(later > 0.25, later == 0))

    def become(x):
        ioc.set(go, x)
        if kind in ("good", "bad"):
            cothread.Spawn(change)
        return x

    def change():
        if later > 0:
            cothread.Sleep(later)
        if kind == "bad":
            ioc.set(st, 2)
        else:
            ioc.set(st, 2)
            ioc.set(st, 1)

    go.take = become
    if kind == "off":
        go.connected = False
    import time

    start = time.time()
    err = None
    try:
        b.go()
    except Exception as e:
        err = e
    took = time.time() - start
    ctx.check(len(ioc.puts) == 1 and ioc.puts[0][:3] == ("GO", 7, wait), "one put",
              ioc.puts)
    ctx.check(not ioc.subs, "not monitored afterwards", len(ioc.subs))
    if kind == "off":
        ctx.check(err is not None, "fails if its PV does", err)
        ctx.cover("off")
    elif not status:
        ctx.check(err is None, "works", repr(err))
        ctx.check(took >= (go.busy if wait else 0), "waits for the record", took)
        ctx.cover("done")
    else:
        ok = ctx.And(kind == "good", later < 2)
        ctx.check(ok if err is None else ctx.Not(ok),
                  "works exactly if the status gets good in time", (kind, later, repr(err)))
        if err is not None:
            ctx.check(("it broke" in str(err)) == bool(message), "the message is given",
                      str(err))
            ctx.cover("failed")
        else:
            ctx.cover("good")
        ctx.check(took <= (go.busy if wait else 0) + 2.1, "no longer than needed", took)


ALL = ["value", "off", "put", "again"]
REST = ["value", "off", "reset", "disable", "burst"]
HARNESSES = {
    "follow": Harness(
        follow,
        quick=[dict(kind="double", mode=m, n=3, ops=ALL) for m in ("pv", "both")]
        + [dict(kind="double", mode="suffix", n=3, ops=REST),
           dict(kind="double", mode="suffix", n=1, ops=["value"], alarms=[0, 1, 2, 3]),
           dict(kind="double", mode="rbv", n=2, ops=ALL + REST),
           dict(kind="double", mode="pv", n=2, ops=["value", "off", "reset"], start="off"),
           dict(kind="double", mode="both", n=2, ops=["value", "off", "again"],
                start="off", throw=False)]
        + [dict(kind=k, mode=m, n=2, ops=["value", "off", "put", "burst"])
           for k, m in [("long", "both"), ("bool", "suffix"), ("string", "pv"),
                        ("chars", "both"), ("choice", "both"), ("choice", "pv"),
                        ("doubles", "suffix"), ("longs", "both")]],
        thorough=[dict(kind=k, mode=m, n=n, ops=ops) for k in KINDS
                  for m in ("pv", "rbv", "both", "suffix")
                  for n, ops in ((3, ALL), (3, REST))]
        + [dict(kind="double", mode="both", n=4, ops=ALL),
           dict(kind="double", mode="suffix", n=4, ops=REST)],
        must=["done"],
    ),
    "table": Harness(table, quick=[dict(n=2)], thorough=[dict(n=3)],
                     must=["shown", "disconnected"]),
    "action": Harness(
        action,
        quick=[dict(status=True, message=True), dict(status=True, message=False),
               dict(status=False, message=False), dict(status=False, message=False,
                                                       wait=False),
               dict(status=True, message=False, throw=False, resets=2)],
    ),
}
