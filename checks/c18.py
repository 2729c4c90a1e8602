"""The PandA client and manager against a stand-in box"""
import json

from symx.harness import Harness

from .c07 import config_dir, no_sync
from .pandalib import Box, socket_for

TITLE = "Commands to the PandA get their own replies"
ASSUMPTIONS = [
    "the box is a stand-in that answers every line it is sent in order and reports every "
    "change of a field to every connection; its replies reach the client in the pieces "
    "that the solver picks",
    "the real client loops, manager and block controllers run on the cothread scheduler "
    "and a virtual clock",
]

LINES = {
    "M.NONE": [], "M.ONE": ["caf\u00e9"], "M.TWO": ["!x", ""],
    "M.ODD": [".", "ERR not one", "OK"],
}
TEXTS = {"B.PLAIN": "12", "B.UNI": "5 \u00b5s", "B.EURO": "\u20ac", "B.EMPTY": "",
         "B.ODD": "ERR=."}


def start(ctx, box, split=None):
    from malcolm.core import Process, Queue
    from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient

    process = Process("p")
    process.start()
    client = PandABlocksClient("h", 8888, Queue)
    client.start(process.spawn, socket_for(box, split))
    ctx.settle()
    return client


class Held:
    """Replies wait until they are let go, cut into pieces"""

    def __init__(self):
        self.data = b""
        self.held = True

    def split(self, data):
        if self.held:
            self.data += data
            return []
        return [data]

    def release(self, sock, cuts):
        data, self.data = self.data, b""
        self.held = False
        last = 0
        for c in sorted(set(cuts)) + [len(data)]:
            sock.packets.append(data[last:c])
            last = c
        sock.packets = [x for x in sock.packets if x]
        sock.event.Signal()


def command(client, box, kind, i):
    """(what a caller does, what it should get, what the box should be told)"""
    if kind in TEXTS:
        return (lambda: client.get_field(*kind.split(".")), TEXTS[kind], [])
    if kind in LINES:
        return (lambda: client.send_recv(f"{kind}?\n"), LINES[kind], [])
    if kind == "missing":
        return lambda: client.get_field("B", "NONE"), ValueError, []
    if kind == "set":
        return (lambda: client.set_field("B", f"S{i}", f"v{i}"), None,
                [(f"B.S{i}", f"v{i}", True)])
    if kind == "refused":
        return (lambda: client.set_field("B", "NO", f"v{i}"), ValueError,
                [("B.NO", f"v{i}", False)])
    if kind == "several":
        return (lambda: client.set_fields({f"B.S{i}": 1, "B.NO": i, f"B.T{i}": 3}),
                ValueError, [(f"B.S{i}", "1", True), ("B.NO", f"{i}", False),
                             (f"B.T{i}", "3", True)])
    if kind == "table":
        return (lambda: client.set_table("B", f"T{i}", [1, 2, i]), None,
                [(f"B.T{i}", ["1", "2", f"{i}"], True)])
    if kind == "empty table":
        return lambda: client.set_table("B", f"T{i}", []), None, [(f"B.T{i}", [], True)]
    if kind == "refused table":
        return (lambda: client.set_table("B", "NO", [1]), Exception,
                [("B.NO", ["1"], False)])
    if kind == "newline":
        return lambda: client.set_field("B", f"S{i}", "a\nB.X=b"), Exception, []
    if kind == "surrogate":
        return lambda: client.set_field("B", f"S{i}", "\ud800"), Exception, []
    raise KeyError(kind)


def replies(ctx):
    """Commands of different callers whose replies come in any pieces: the stream cut
    at any byte, at any two, or into single bytes; all sent before the first reply or
    one after the other"""
    import cothread

    p = ctx.params
    box = Box(ctx, {})
    box.values.update(TEXTS)
    box.values.update(LINES)
    box.refuse["B.NO"] = "not now"
    held = Held()
    client = start(ctx, box, held.split)
    ctx.check(len(box.sockets) == 1, "one connection")
    sock = box.sockets[0]
    got, want, sets = [], [], []
    kinds = [ctx.choice(f"k{i}", p["kinds"]) for i in range(p["n"])]

    def caller(i, f):
        try:
            got.append((i, f()))
        except Exception as e:
            got.append((i, e))

    for i, k in enumerate(kinds):
        f, w, s = command(client, box, k, i)
        want.append(w)
        sets += s
        cothread.Spawn(caller, i, f)
        if p["wait"]:
            ctx.settle()
    ctx.settle()
    data = held.data
    if p["cuts"] == "all":
        cuts = list(range(1, len(data)))
    else:
        cuts = []
        for j in range(p["cuts"]):
            if len(data) > 1:
                cuts.append(int(ctx.int(f"c{j}", 1, len(data) - 1)))
    held.release(sock, cuts)
    ctx.settle()
    ctx.settle()
    ctx.check(sorted(i for i, _ in got) == list(range(len(kinds))),
              "every command ends at once", (kinds, got))
    for i, g in got:
        w = want[i]
        if isinstance(w, type):
            ctx.check(isinstance(g, w), "an error", (kinds, i, g))
            ctx.cover("error")
        else:
            ctx.check(g == w, "its own reply", (kinds, i, g, w))
    ctx.check(box.sets == sets, "sent once, in order", (kinds, box.sets, sets))
    # and what follows is not disturbed
    ctx.check(client.get_field("B", "PLAIN") == "12", "the next command", kinds)
    client.stop()
    ctx.check(not box.sockets, "disconnected")
    ctx.cover("done")


def number(text):
    from symx import values as V

    x = V.from_text(text)
    return float(text) if x is None else x


BLOCKS = {
    "TTLIN": (2, {"VAL": ("bit_out", "", []),
                  "TERM": ("param", "enum", ["High-Z", "50-Ohm"])}),
    "INENC": (1, {"VAL": ("pos_out", "", []), "A": ("bit_out", "", [])}),
    "COUNTER": (2, {"OUT": ("pos_out", "", []),
                    "ENABLE": ("bit_mux", "", ["ZERO", "ONE", "TTLIN1.VAL", "INENC.A"]),
                    "INP": ("pos_mux", "", ["ZERO", "INENC.VAL", "COUNTER2.OUT"]),
                    "STEP": ("param", "uint", []), "START": ("param", "int", []),
                    "FLAG": ("param", "bit", []),
                    "HEALTH": ("read", "enum", ["OK", "Bad thing"]),
                    "DT": ("time", "", [])}),
    "SEQ": (1, {"TABLE": ("table", "", {"REPEATS": (15, 0, [], "uint"),
                                        "POS": (63, 32, [], "int"),
                                        "TRIG": (19, 16, ["Now", "Later"], "")})}),
    "PCAP": (1, {"BITS0": ("ext_out", "bits", ["TTLIN1.VAL", "TTLIN2.VAL", ""]),
                 "BITS1": ("ext_out", "bits", ["INENC.A", ""]),
                 "TS": ("ext_out", "timestamp", ["No", "Value"])}),
}


class World:
    def __init__(self, ctx):
        from malcolm.core import Process
        from malcolm.modules.pandablocks.controllers import (
            PandAManagerController, pandamanagercontroller,
        )

        no_sync()
        ctx.symbolic_arrays()
        ctx.opaque_hash()
        self.ctx = ctx
        self.box = Box(ctx, BLOCKS)
        self.held = Held()
        self.held.held = False
        pandamanagercontroller.socket = socket_for(self.box, self.held.split)
        self.process = Process("p")
        self.c = PandAManagerController("P", config_dir(), hostname="h",
                                        poll_period=0.1)
        self.process.add_controller(self.c)
        self.process.start()
        ctx.settle()

    def attr(self, block, name):
        return self.process.get_controller(f"P:{block}")._block[name]

    def poll(self, n=1):
        for i in range(n):
            self.ctx.advance(0.11)
            self.ctx.settle()

    def same(self, what):
        ctx, v = self.ctx, self.box.values
        ctx.check(self.c.state.value == "Ready", "ready", (what, self.c.state.value,
                                                          self.c.health.value))

        def eq(a, b, *label):
            ctx.check(ctx.eq(a, b), "shows what the box has", (what, label, a, b))

        for b in ("TTLIN1", "TTLIN2"):
            eq(self.attr(b, "val").value, v[f"{b}.VAL"] == "1", b, "val")
            eq(self.attr(b, "term").value, v[f"{b}.TERM"], b, "term")
        eq(self.attr("INENC", "a").value, v["INENC.A"] == "1", "INENC.A")
        eq(self.attr("INENC", "val").value, number(v["INENC.VAL"]), "INENC.VAL")
        for b in ("COUNTER1", "COUNTER2"):
            for f, name in (("OUT", "out"), ("STEP", "step"), ("START", "start"),
                            ("ENABLE.DELAY", "enableDelay"), ("DT", "dt")):
                if v[f"{b}.{f}"] is not None:
                    eq(self.attr(b, name).value, number(v[f"{b}.{f}"]), b, f)
            eq(self.attr(b, "flag").value, v[f"{b}.FLAG"] == "1", b, "FLAG")
            eq(self.attr(b, "dtUnits").value, v[f"{b}.DT.UNITS"], b, "units")
            for f, name in (("ENABLE", "enable"), ("INP", "inp")):
                mux = self.attr(b, name)
                eq(mux.value, v[f"{b}.{f}"], b, f)
                link = [t for t in mux.meta.tags if t.startswith("linkedvalue")]
                w = v[f"{b}.{f}"].split(".")
                w = [f"linkedvalue:{w[1].lower()}:P:{w[0]}"] if len(w) == 2 else []
                eq(link, w, b, f, "link")
            h = v[f"{b}.HEALTH"]
            eq(self.attr(b, "health").value, "OK" if h == "OK" else h, b, "health")
            eq(self.attr(b, "health").alarm.is_ok(), h == "OK", b, "health alarm")
        for name in self.box.blocks:
            for i in range(self.box.blocks[name][0]):
                b = name if self.box.blocks[name][0] == 1 else f"{name}{i + 1}"
                label = v[f"*METADATA.LABEL_{name}{i + 1}"]
                if not label:
                    label = f"{name} desc" + (f" {i + 1}" if b != name else "")
                eq(self.attr(b, "label").value, label, b, "label")
                eq(self.process.get_controller(f"P:{b}")._block.meta.label, label, b,
                   "block label")
        rows = v["SEQ.TABLE"]
        t = self.attr("SEQ", "table").value
        eq([list(t.repeats), list(t.pos), list(t.trig)],
           [[int(x) % 65536 for x in rows[::2]],
            [int(x) - 2 ** 32 * (int(x) >= 2 ** 31) for x in rows[1::2]],
            [["Now", "Later"][int(x) // 65536 % 16] for x in rows[::2]]], "table")
        eq(self.attr("PCAP", "tsCapture").value, v["PCAP.TS.CAPTURE"], "TS")
        bits = self.c.busses.bits.value
        names = ["TTLIN1.VAL", "TTLIN2.VAL", "INENC.A"]
        eq(list(bits.name), names, "bits")
        eq(list(bits.value), [v[n] == "1" for n in names], "bit values")
        eq(list(bits.capture), [v[f"PCAP.BITS{i}.CAPTURE"] != "No" for i in (0, 0, 1)],
           "bit captures")
        pos = self.c.busses.positions.value
        names = ["COUNTER1.OUT", "COUNTER2.OUT", "INENC.VAL"]
        eq(list(pos.name), names, "positions")
        for i, n in enumerate(names):
            eq(pos.units[i], v[f"{n}.UNITS"], n, "units")
            eq(pos.capture[i].value, v[f"{n}.CAPTURE"], n, "capture")
            eq(pos.scale[i], number(v[f"{n}.SCALE"]), n, "scale")
            eq(pos.offset[i], number(v[f"{n}.OFFSET"]), n, "offset")
            ctx.check(ctx.close(pos.value[i], number(v[n]) * number(v[f"{n}.SCALE"]) +
                                number(v[f"{n}.OFFSET"]), 1e-6),
                      "shows what the box has", (what, n, pos.value[i]))
        if v["*METADATA.LAYOUT"]:
            want = json.loads("".join(v["*METADATA.LAYOUT"]))
            rows = {r[0]: dict(x=r[2], y=r[3])
                    for r in self.c.layout.value.rows() if r[4]}
            eq(rows, want, "layout")


def text(x):
    return f"{x}"


def external(ctx, box, op, i):
    """Something at the box changes"""
    if op == "bit":
        f = ctx.choice(f"bit{i}", ["TTLIN1.VAL", "INENC.A"])
        box.change(f, ctx.choice(f"v{i}", ["0", "1"]))
    elif op == "pos":
        box.change("INENC.VAL", text(ctx.int(f"v{i}", -1000, 1000)))
    elif op == "scaled":
        box.change("INENC.VAL", text(ctx.int(f"v{i}", -1000, 1000)))
        box.change("INENC.VAL.SCALE", ctx.choice(f"s{i}", ["0.5", "-2"]))
        box.change("INENC.VAL.OFFSET", text(ctx.real(f"o{i}", -10, 10)))
    elif op == "capture":
        box.change("COUNTER2.OUT.CAPTURE", ctx.choice(f"v{i}", ["Value", "Min Max"]))
    elif op == "capture bits":
        box.change(f"PCAP.BITS{ctx.choice(f'b{i}', [0, 1])}.CAPTURE",
                   ctx.choice(f"v{i}", ["No", "Value"]))
    elif op == "step":
        box.change("COUNTER1.STEP", text(ctx.int(f"v{i}", 0, 100)))
        box.change("COUNTER2.START", text(ctx.int(f"w{i}", -100, 100)))
    elif op == "flag":
        box.change("COUNTER1.FLAG", ctx.choice(f"v{i}", ["0", "1"]))
    elif op == "time":
        box.change("COUNTER1.DT", text(ctx.real(f"v{i}", 0, 10)))
        box.change("COUNTER1.DT.UNITS", ctx.choice(f"u{i}", ["ms", "s"]))
    elif op == "mux":
        box.change("COUNTER1.ENABLE", ctx.choice(f"v{i}", ["ZERO", "TTLIN1.VAL",
                                                          "INENC.A"]))
        box.change("COUNTER1.INP", ctx.choice(f"w{i}", ["COUNTER2.OUT", "ZERO"]))
    elif op == "error":
        box.change("COUNTER1.STEP", None)
        box.change("COUNTER1.START", text(ctx.int(f"v{i}", 0, 100)))
    elif op == "health":
        box.change("COUNTER2.HEALTH", ctx.choice(f"v{i}", ["OK", "Bad thing"]))
    elif op == "label":
        box.change("*METADATA.LABEL_TTLIN2", ctx.choice(f"v{i}", ["", "a=b"]))
        box.change("*METADATA.LABEL_PCAP1", "Caf\u00e9")
    elif op == "table":
        box.change("SEQ.TABLE", ctx.choice(f"v{i}", [
            [], ["1", "4294967295", "65537", "5"]]))
    elif op == "layout":
        d = ctx.choice(f"v{i}", [
            {"PCAP": dict(x=1.5, y=2.0)},
            {"TTLIN1": dict(x=-1.0, y=0.0), "SEQ": dict(x=3.0, y=4.0)}])
        box.change("*METADATA.LAYOUT", [json.dumps(d)])
    elif op == "other":
        box.change("*METADATA.DESIGN", "my design")


def put(ctx, w, op, i):
    """(block, field, value, {what the box is told} or None)"""
    if op == "put step":
        v = ctx.int(f"v{i}", 0, 100)
        return "P:COUNTER1", "step", v, {"COUNTER1.STEP": text(v)}
    if op == "put flag":
        v = ctx.choice(f"v{i}", [False, True])
        return "P:COUNTER1", "flag", v, {"COUNTER1.FLAG": str(int(v))}
    if op == "put dt":
        v = ctx.real(f"v{i}", 0, 10)
        return "P:COUNTER2", "dt", v, {"COUNTER2.DT": text(v)}
    if op == "put mux":
        v = ctx.choice(f"v{i}", ["ZERO", "INENC.A"])
        return "P:COUNTER1", "enable", v, {"COUNTER1.ENABLE": v}
    if op == "put refused":
        w.box.refuse["COUNTER2.STEP"] = "too big"
        return "P:COUNTER2", "step", 5, None
    if op == "put label":
        v = ctx.choice(f"v{i}", ["new", "caf\u00e9"])
        return "P:TTLIN2", "label", v, {"*METADATA.LABEL_TTLIN2": v}
    if op == "put label refused":
        w.box.refuse["*METADATA.LABEL_TTLIN1"] = "no label"
        return "P:TTLIN1", "label", "other", None
    if op == "put newline":
        return "P:TTLIN1", "label", "a\nTTLIN1.TERM=50-Ohm", None
    if op == "put table":
        n = ctx.choice(f"n{i}", [0, 1])
        t = dict(repeats=[3] * n, pos=[-1] * n, trig=["Later"] * n)
        return "P:SEQ", "table", t, {"SEQ.TABLE": [str(65536 + 3), str(2 ** 32 - 1)] * n}
    if op == "put bits":
        old = w.c.busses.bits.value
        row = ctx.choice(f"r{i}", [0, 2])
        v = [bool(x) for x in old.capture]
        v[row] = not v[row]
        t = dict(name=list(old.name), value=list(old.value), capture=v)
        f = "PCAP.BITS%d.CAPTURE" % (row // 2)
        others = {"PCAP.BITS0.CAPTURE": "Value" if v[0] or v[1] else "No",
                  "PCAP.BITS1.CAPTURE": "Value" if v[2] else "No"}
        return "P", "bits", t, {f: others[f]}
    if op == "put some bits":
        v = ctx.choice(f"v{i}", [True, False])
        return "P", "bits", dict(name=["INENC.A"], value=[False], capture=[v]), {
            "PCAP.BITS1.CAPTURE": "Value" if v else "No"}
    if op == "put unknown bit":
        return "P", "bits", dict(
            name=["INENC.A", "GONE.VAL"], value=[False] * 2, capture=[True] * 2), {
            "PCAP.BITS1.CAPTURE": "Value"}
    if op == "put positions":
        old = w.c.busses.positions.value
        o = ctx.real(f"o{i}", -10, 10)
        c = ctx.choice(f"c{i}", ["Value", "Mean"])
        cols = {k: list(old[k]) for k in old}
        cols["offset"][2], cols["capture"][2] = o, c
        cols["capture"][:2] = [x.value for x in cols["capture"][:2]]
        return "P", "positions", cols, {
            "INENC.VAL.OFFSET": text(o), "INENC.VAL.CAPTURE": c}
    if op == "put layout":
        n = ctx.choice(f"n{i}", ["TTLIN1", "PCAP"])
        t = dict(name=[n], mri=[f"P:{n}"], x=[2.5], y=[1.0],
                 visible=[ctx.choice(f"v{i}", [True, False])])
        return "P", "layout", t, {}
    raise KeyError(op)


def changes(ctx):
    """Changes at the box and puts, polled after each or together, or while the replies
    of the box are under way: once polled, every attribute shows what the box has"""
    import cothread

    from malcolm.core import Put
    from malcolm.core.response import Error

    p = ctx.params
    w = World(ctx)
    box = w.box
    w.same("at first")
    answers = []
    what = []
    when = ctx.choice("when", p["when"])
    ctx.cover(when)
    if when == "flight":
        # the box answers late
        w.held.held = True
        asked = ctx.choice("asked", list(range(p["n"] + 2)))
    expected = []
    for i in range(p["n"]):
        if when == "flight" and i == asked:
            w.poll()
        op = ctx.choice(f"op{i}", p["ops"] if i else p.get("first", p["ops"]))
        what.append(op)
        if op.startswith("put"):
            mri, field, value, told = put(ctx, w, op, i)
            r = Put(i, [mri, field, "value"], value)
            r.set_callback(lambda r, told=told, op=op: answers.append((op, told, r)))
            expected.append((op, told))
            before = len(box.sets)
            w.process.get_controller(mri).handle_request(r)
            ctx.settle()
            if when != "flight":
                sets = {f: x for f, x, ok in box.sets[before:] if ok}
                if told:
                    for f, x in told.items():
                        ctx.check(same_text(ctx, box.values[f], x), "the box is told",
                                  (what, f, box.values[f], x))
                elif told is None:
                    ctx.check(not sets, "nothing else is set", (what, sets))
        else:
            external(ctx, box, op, i)
        if when == "each":
            w.poll(2)
            w.same(what)
    if when == "flight":
        if asked == p["n"]:
            w.poll()
        for sock in list(box.sockets):
            w.held.release(sock, [])
        ctx.settle()
    w.poll(3)
    ctx.check(len(answers) == len(expected), "every put ends", (what, answers))
    for op, told, r in answers:
        ctx.check(isinstance(r, Error) == (told is None), "answer", (what, op, r))
    w.same(what)
    ctx.cover("done")


def same_text(ctx, a, b):
    from symx import values as V

    if isinstance(a, list):
        return a == b
    x, y = V.from_text(a), V.from_text(b)
    if x is None and y is None:
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
        except ValueError:
            return a == b
    return ctx.eq(number(a), number(b))


EXTERNAL = ["bit", "pos", "scaled", "capture", "capture bits", "step", "flag", "time",
            "mux", "error", "health", "label", "table", "layout", "other"]
PUTS = ["put step", "put flag", "put dt", "put mux", "put refused", "put label",
        "put label refused", "put newline", "put table", "put bits", "put some bits",
        "put unknown bit", "put positions", "put layout"]


def toggles(ctx):
    """A bit that changed and changed back between two polls is seen to change, and in
    the end shows its value"""
    from malcolm.core import Subscribe

    p = ctx.params
    w = World(ctx)
    seen = []
    s = Subscribe(1, ["P:TTLIN1", "val", "value"])
    s.set_callback(lambda r: seen.append(bool(r.value)))
    w.process.get_controller("P:TTLIN1").handle_request(s)
    ctx.settle()
    now, n = False, 0
    for i in range(p["n"]):
        x = ctx.choice(f"x{i}", ["same", "other", "none"])
        if x != "none":
            now = now if x == "same" else not now
            before = len(seen)
            w.box.change("TTLIN1.VAL", "1" if now else "0")
        w.poll()
        if x != "none":
            ctx.check(len(seen) > before, "the change is seen", (i, seen))
    w.poll(2)
    ctx.check(seen[-1] == now, "shows its value in the end", (seen, now))
    w.same("end")
    ctx.cover("done")


def lost(ctx):
    """The connection is lost, comes back, or is refused; the manager is reset, or
    disabled and reset, and follows the box again"""
    p = ctx.params
    plan = p["plans"][int(ctx.int("plan", 0, len(p["plans"]) - 1))]
    w = World(ctx)
    c = w.c
    for i, step in enumerate(plan):
        if step == "cut":
            for s in list(w.box.sockets):
                s.cut()
            w.box.change("COUNTER1.STEP", text(ctx.int(f"c{i}", 0, 100)))
            ctx.advance(25)
            ctx.check(c.state.value == "Fault", "a lost box is a fault",
                      (plan, i, c.state.value))
            ctx.cover("fault")
        elif step == "bad":
            # something that can't be shown
            w.box.change("TTLIN1.TERM", "Nonsense")
            w.poll(2)
            ctx.check(c.state.value == "Fault", "a fault", (plan, i, c.state.value))
            w.box.change("TTLIN1.TERM", "50-Ohm")
        elif step == "reset":
            c.block_view().reset()
            w.poll(3)
            w.same((plan, i))
        elif step == "refused":
            w.box.no_connect = True
            try:
                c.block_view().reset()
            except Exception:
                ctx.check(c.state.value == "Fault", "a fault", (plan, i))
            else:
                ctx.check(False, "reset fails", (plan, i))
            w.box.no_connect = False
        elif step == "disable":
            c.block_view().disable()
            ctx.check(not w.box.sockets, "disconnected", (plan, i))
        elif step == "change":
            w.box.change("COUNTER1.START", text(ctx.int(f"v{i}", -100, 100)))
            w.box.change("TTLIN1.VAL", ctx.choice(f"b{i}", ["0", "1"]))
            if c.state.value == "Ready":
                w.poll(3)
                w.same((plan, i))
    ctx.cover("done")


QUICK_KINDS = ["B.UNI", "M.TWO", "M.NONE", "missing", "set", "table", "newline"]
ALL_KINDS = list(TEXTS) + list(LINES) + [
    "missing", "set", "refused", "several", "table", "empty table", "refused table",
    "newline", "surrogate"]
PLANS = [
    ["change", "disable", "reset", "change"],
    ["cut", "reset", "change"],
    ["cut", "disable", "change", "reset", "change"],
    ["bad", "reset", "change"],
    ["cut", "refused", "reset", "change"],
    ["disable", "refused", "reset", "change", "cut", "reset"],
]
HARNESSES = {
    "replies": Harness(replies, quick=[
        dict(n=1, kinds=ALL_KINDS, cuts=1, wait=False),
        dict(n=2, kinds=ALL_KINDS, cuts="all", wait=False),
        dict(n=2, kinds=QUICK_KINDS, cuts=1, wait=False),
        dict(n=2, kinds=["B.EURO", "M.ODD", "surrogate"], cuts=1, wait=True),
        dict(n=3, kinds=["B.UNI", "M.TWO", "set", "refused"], cuts=0, wait=False)],
        thorough=[
        dict(n=2, kinds=ALL_KINDS, cuts=1, wait=False),
        dict(n=1, kinds=ALL_KINDS, cuts=2, wait=False),
        dict(n=2, kinds=["B.EURO", "M.ONE", "set"], cuts=2, wait=False),
        dict(n=3, kinds=ALL_KINDS, cuts="all", wait=False),
        dict(n=2, kinds=ALL_KINDS, cuts=0, wait=True)],
        must=["done", "error"]),
    "changes": Harness(changes, quick=[
        dict(n=1, ops=EXTERNAL + PUTS, when=["each"]),
        dict(n=1, ops=EXTERNAL + PUTS, when=["late"]),
        dict(n=1, ops=PUTS, when=["flight"]),
        dict(n=2, first=["bit", "scaled", "capture", "capture bits"],
             ops=["put bits", "put positions"], when=["flight"]),
        dict(n=2, first=["put bits", "put positions"],
             ops=["bit", "scaled", "capture", "capture bits"], when=["flight"]),
        dict(n=2, ops=["step", "put step", "put label", "label"], when=["flight"]),
        dict(n=2, ops=["layout", "put layout", "table", "put table"], when=["each"]),
    ], thorough=[
        dict(n=2, first=[op], ops=EXTERNAL + PUTS, when=[x])
        for op in EXTERNAL + PUTS for x in ("each", "late", "flight")],
        must=["done"]),
    "toggles": Harness(toggles, quick=[dict(n=4)], thorough=[dict(n=6)], must=["done"]),
    "lost": Harness(lost, quick=[dict(plans=PLANS[::2]), dict(plans=PLANS[1::2])],
                    must=["done"]),
}
