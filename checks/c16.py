"""PandA sequencer tables reproduce the scan"""
from symx.harness import Harness

from . import scanlib as L

TITLE = "PandA sequencer tables play exactly the requested pulses"
ASSUMPTIONS = [
    "floats are modelled as exact reals",
    "sequencer blocks are stand-ins that record the tables written to them",
    "the turnaround velocity profile is an arbitrary one that ends in the "
    "direction of the next row",
    "half periods of at least 10 ticks, so the hand-over can be taken off",
]
HANDOVER = 6
MAXROWS = 4096
MAXREP = 4096


# ---------------------------------------------------------------- stand-ins
class Attr:
    def __init__(self, value=None):
        self.value = value
        self.puts = []
        self.handlers = []

    def put_value(self, v):
        self.value = v
        self.puts.append(v)

    def subscribe_value(self, cb, *args):
        self.handlers.append((cb, args))
        return (self, cb, args)


class Seq:
    def __init__(self, name, log):
        self.name = name
        self.label = Attr(name)
        self.repeats = Attr(1)
        self.prescale = Attr(0)
        self.active = Attr(False)
        self.table = Attr()
        self.table.put_value = lambda t: log.append((name, t))


class Ctx:
    def unsubscribe(self, f):
        attr, cb, args = f
        attr.handlers.remove((cb, args))


def conserved(ctx, table_rows, pulses, last=True):
    """table_rows: list of tables (lists of row tuples).  pulses: the requested
    (repeats, time1+time2, key) list.  Checks the played sequence."""


def row_key(r):
    return (r[1], r[2], r[4], r[5])


# ---------------------------------------------------------------- harnesses
def entry(ctx):
    """one pulse entry repeated 1..20000 times (or endlessly), any half period
    10..1000000, any trim: the rows play exactly that many pulses"""
    from malcolm.modules.ADPandABlocks.doublebuffer import SequencerRows

    count = ctx.int("count", 1, 20000)
    half = ctx.int("half", 10, 1000000)
    trim = ctx.int("trim", 0, 5)
    rows = SequencerRows()
    rows.add_seq_entry(count=count, half_duration=half, live=1, trim=trim, position=7)
    total = 0
    out = rows.as_tuples()
    for r in out:
        ctx.check(ctx.And(r[0] >= 1, r[0] <= MAXREP), "row repeats 1..4096", r[0])
        ctx.check(ctx.And(r[3] == half, r[10] == half - trim), "row phase times")
        ctx.check(r[4] == 1 and r[5] == 0 and r[2] == 7, "row outputs")
        total = total + r[0]
    ctx.observe("n", len(out))
    ctx.check(ctx.eq(total, count), "number of pulses")
    if len(out) > 1:
        ctx.cover("several rows")
    else:
        ctx.cover("one row")
    ctx.check(
        ctx.close(rows.duration, count * (2 * half - trim) * 8e-9, 1e-9), "duration"
    )


def split(ctx):
    """3 rows with symbolic repeats 1..4096 and times, split after 1..5 rows,
    optionally with the endless idle row at the end"""
    from malcolm.modules.ADPandABlocks.doublebuffer import SequencerRows
    from malcolm.modules.ADPandABlocks.util import SequencerRow

    n = ctx.params["n"]
    endless = ctx.params["endless"]
    rows = []
    for i in range(n):
        rep = ctx.int(f"rep{i}", 1, MAXREP)
        t1 = ctx.int(f"t1_{i}", 10, 100000)
        t2 = ctx.int(f"t2_{i}", 10, 100000)
        rows.append(
            SequencerRow(rep, "Immediate", i, t1, 1, 0, 0, 0, 0, 0, t2, 0, 0, 0, 0, 0, 0)
        )
    idle = SequencerRow(
        0, "Immediate", 99, 1250, 0, 0, 0, 0, 0, 0, 1250, 0, 0, 0, 0, 0, 0
    )
    if endless:
        rows.append(idle)
    count = ctx.int("count", 1, n + 2)
    orig = list(rows)
    seq = SequencerRows(list(rows))
    ticks = sum(r[0] * (r[3] + r[10]) for r in orig)
    ctx.check(ctx.close(seq.duration, ticks * 8e-9, 1e-9), "duration before split")
    rest = seq.split(count)
    a, b = seq.as_tuples(), rest.as_tuples()
    ctx.observe("len", [len(a), len(b)])
    ctx.check(len(a) >= 1 and ctx.Or(len(a) <= count), "fits in the table")
    has_idle = endless and a[-1][0] is not None and a[-1][2] == 99
    if has_idle:
        ctx.cover("endless row kept")
        ctx.check(len(b) == 0, "nothing after the endless row")
        ctx.check(ctx.eq(list(map(list, a)), list(map(list, orig))), "kept as it was")
        return
    # the last pulse is played once and shortened by the hand-over
    ctx.check(ctx.eq(a[-1][0], 1), "last row of a table has one repeat")
    play(ctx, [a, b], orig, "split")
    ctx.check(
        ctx.close(
            seq.duration,
            sum(r[0] * (r[3] + r[10]) for r in a) * 8e-9, 1e-9), "duration after split")
    ctx.check(
        ctx.close(
            rest.duration,
            sum(r[0] * (r[3] + r[10]) for r in b) * 8e-9, 1e-9), "duration of the rest")
    ctx.cover("rest" if len(b) else "no rest")


def play(ctx, tables, orig, what):
    """Pulses played by the tables == pulses of the original rows, where the
    final pulse of every table but the last is HANDOVER ticks shorter."""
    got = []
    for ti, t in enumerate(tables):
        for ri, r in enumerate(t):
            r = list(r)
            if ri == len(t) - 1 and ti < len(tables) - 1:
                r[10] = r[10] + HANDOVER
            got.append(r)
    oi = 0
    used = 0
    for g in got:
        ctx.check(oi < len(orig), f"{what}: more rows than requested")
        o = orig[oi]
        ctx.check(
            ctx.And(g[3] == o[3], g[10] == o[10], g[2] == o[2]) if g[1] == o[1]
            else False, f"{what}: pulse shape and order", (g, o))
        ctx.check(g[4] == o[4] and g[5] == o[5], f"{what}: outputs")
        used = used + g[0]
        ctx.check(used <= o[0], f"{what}: too many repeats")
        if o[0] == 0:
            oi += 1
            used = 0
        elif used == o[0]:
            oi += 1
            used = 0
    ctx.check(oi == len(orig), f"{what}: pulses lost")


def tables(ctx):
    """row batches around the 4096 row table limit (filler of 4094..4097 rows
    or none) and around the 15 s minimum table duration, 1-3 batches of up to
    3 symbolic rows, then the closing dead pulse and endless idle row"""
    from malcolm.modules.ADPandABlocks.doublebuffer import DoubleBuffer, SequencerRows
    from malcolm.modules.ADPandABlocks.util import SequencerRow

    filler = ctx.params["filler"]
    shape = ctx.params["shape"]
    allrows = []
    batches = []
    fill = [
        SequencerRow(1, "Immediate", 3, 500, 1, 0, 0, 0, 0, 0, 500, 0, 0, 0, 0, 0, 0)
    ] * filler
    for bi, nrows in enumerate(shape):
        rows = []
        if bi == 0:
            rows += fill
        for i in range(nrows):
            rep = ctx.int(f"rep{bi}{i}", 1, MAXREP)
            half = ctx.int(f"half{bi}{i}", 10, 4000000)
            trig = "BITA=1" if i == 0 else "Immediate"
            rows.append(
                SequencerRow(
                    rep, trig, bi * 10 + i, half, 1, 0, 0, 0, 0, 0, half, 0, 0, 0,
                    0, 0, 0,
                )
            )
        batches.append(SequencerRows(list(rows)))
        allrows += rows
    end = SequencerRows()
    end.add_seq_entry(half_duration=1250, dead=1)
    end.add_seq_entry(count=0)
    batches.append(end)
    allrows += list(end.as_tuples())
    log = []
    a, b = Seq("A", log), Seq("B", log)
    db = DoubleBuffer(Ctx(), a, b)
    db.configure(iter(batches))
    db.run()
    # the two sequencers run in turn; the events of a switch come in either order
    cur, other = a, b
    for cb, args in list(cur.active.handlers):
        cb(True, *args)
    for k in range(6):
        first = ctx.bool(f"order{k}") if k < 2 else True
        n = len(log)
        if not cur.active.handlers:
            break
        if first:
            tell(cur, False)
            tell(other, True)
        else:
            tell(other, True)
            tell(cur, False)
        ctx.check(len(log) <= n + 1, "one table per switch")
        for name, _ in log[n:]:
            ctx.check(name == cur.name, "only the idle sequencer is reloaded")
        cur, other = other, cur
    names = [x[0] for x in log]
    ctx.check(names == ["A", "B"] * (len(names) // 2) + ["A"] * (len(names) % 2),
              "sequencers loaded alternately", names)
    tabs = [list(t.rows()) for _, t in log]
    for t in tabs:
        ctx.check(1 <= len(t) <= MAXROWS, "table size", len(t))
    for t in tabs[:-1]:
        ctx.check(ctx.eq(t[-1][0], 1), "hand-over row has one repeat")
    for ti, t in enumerate(tabs):
        for ri, r in enumerate(t):
            endless = ti == len(tabs) - 1 and ri == len(t) - 1
            ctx.check(
                r[0] == 0 if endless else r[0] >= 1, "only the very last row is endless"
            )
    ctx.observe("tables", [len(t) for t in tabs])
    ctx.cover(f"{min(len(tabs), 3)} tables")
    # the filler rows are identical: compare them in one go
    flat = [list(r) for t in tabs for r in t]
    play(ctx, tabs, allrows, "tables")


def tell(seq, value):
    for cb, args in list(seq.active.handlers):
        cb(value, *args)


class Gen:
    """Any N points: symbolic durations, joined or not"""

    def __init__(self, points):
        self.points = points

    def get_points(self, a, b):
        return self.points[a:b]


def pos(ctx, name, fixed, value):
    return float(value) if fixed else ctx.real(name, -100, 100)


def make_points(ctx, n, axes, fixed=0):
    import numpy as np
    from scanpointgenerator import Points

    p = Points()

    def arr(xs):
        out = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            out[i] = x
        return out if ctx.symbolic else np.array(xs, dtype=float)

    p.duration = arr([ctx.real(f"dur{i}", 0.0001, 5) for i in range(n)])
    p.delay_after = arr([0.0] * n)
    for a in axes:
        lo = [pos(ctx, f"{a}lo{i}", i < fixed, -i) for i in range(n)]
        up = [pos(ctx, f"{a}up{i}", i < fixed, 1 - i) for i in range(n)]
        mid = [(x + y) / 2 for x, y in zip(lo, up)]
        # bounds that differ do so by more than 1/1024
        for x, y in zip(up[:-1], lo[1:]):
            ctx.assume(ctx.Or(x == y, x - y > 2 ** -10, y - x > 2 ** -10))
        p.lower[a], p.upper[a], p.positions[a] = arr(lo), arr(up), arr(mid)
    p.indexes = np.arange(n)
    return p


def motor(name, res, off):
    from malcolm.modules.pmac.infos import MotorInfo

    return MotorInfo("X", "CS1", 10.0, res, off, 1000.0, 0.0, name, 0.0, "mm",
                     0, 0, 0, 0)


def ticks_half(d):
    return round(d / 8e-9 / 2)


def expand(rows):
    out = []
    for r in rows:
        for t in r.as_tuples():
            out.append(list(t))
    return out


def triggers(ctx):
    """N points (2..4) with symbolic durations and bounds, every start point,
    batches of 2 or 3 points; row gate triggering, position compare on one of
    two axes, or no axes at all"""
    import malcolm.modules.ADPandABlocks.parts.pandaseqtriggerpart as M
    from malcolm.modules import pmac
    from malcolm.modules.pmac.util import MinTurnaround

    n, mode, batch = ctx.params["n"], ctx.params["mode"], ctx.params["batch"]
    if hasattr(M, "BATCH_SIZE"):
        M.BATCH_SIZE = batch
    axes = {"gate": ["x"], "pcomp": ["x", "y"], "none": []}[mode]
    if ctx.params.get("one"):
        axes = ["x"]
    pts = make_points(ctx, n, axes, ctx.params.get("fixed", 0))
    start = ctx.params.get("start", 0)
    mapping = {}
    enums = {}
    res = {}
    if mode != "none":
        for a in axes:
            r = {"x": 0.001, "y": -0.002}[a]
            mapping[a] = motor(a, r, 0.5)
            res[a] = r
            if mode == "pcomp":
                i = axes.index(a)
                enums[(a, True)] = f"POS{'AB'[i]}>=POSITION"
                enums[(a, False)] = f"POS{'AB'[i]}<=POSITION"
    blinds = []
    if mode == "pcomp":

        def fake_profile(axis_mapping, last, point, min_time, min_interval):
            # any profile: three segments, last velocity in the row's direction
            ts, vs = {}, {}
            k = len(blinds)
            t1 = ctx.real(f"bt1_{k}", 0.001, 1)
            t2 = ctx.real(f"bt2_{k}", 0.001, 1)
            v1 = ctx.real(f"bv1_{k}", -5, 5)
            ctx.assume(ctx.Or(v1 == 0, v1 > 0.001, v1 < -0.001))
            v0 = ctx.real(f"bv0_{k}", -5, 5)
            for ax in axis_mapping:
                vend = (point.upper[ax] - point.lower[ax]) / point.duration
                ts[ax] = [0, t1, t1 + t2]
                vs[ax] = [v0, v1, vend]
            blinds.append((t1, t2, v0, v1, last, point))
            return ts, vs

        pmac.util.profile_between_points = fake_profile
    st = M.SeqTriggers(Gen(pts), mapping, enums, MinTurnaround(0.002, 0.002))
    if mode == "pcomp":
        # every point moves at least one count on some axis
        for i in range(n):
            ctx.assume(
                ctx.Or(*[abs(pts.positions[a][i] - pts.lower[a][i]) > 0.01 for a in axes])
            )
    rows = expand(st.get_rows(start, n))
    # reference: one live pulse per point
    ctx.check(rows[-1][0] == 0, "ends with an endless idle row")
    ctx.check(rows[-1][4] == 0 and rows[-1][5] == 0, "idle row has no outputs")
    ctx.check(
        rows[-2][0] == 1 and rows[-2][5] == 1 and rows[-2][4] == 0, "closing dead pulse"
    )
    body = rows[:-2]
    i = start
    k = 0
    nblind = 0
    while i < n:
        joined = True
        if axes:
            joined = i > start and all(
                bool(pts.upper[a][i - 1] == pts.lower[a][i]) for a in axes
            )
        if i == start and not axes:
            joined = True
        ctx.check(k < len(body), "pulses missing", i)
        if not joined:
            ctx.cover("row start")
            if i > start:
                ctx.cover("turnaround")
                dead = body[k]
                k += 1
                ctx.check(dead[0] == 1 and dead[5] == 1 and dead[4] == 0,
                          "dead pulse between rows")
                if mode == "gate":
                    ctx.check(dead[1] == "BITA=0", "dead pulse waits for the gate end")
                else:
                    ctx.check(dead[1] == "Immediate", "blind pulse")
                    t1, t2, v0, v1, last, point = blinds[nblind]
                    nblind += 1
                    ctx.check(
                        ctx.And(*[
                            ctx.And(last.upper[a] == pts.upper[a][i - 1],
                                    point.lower[a] == pts.lower[a][i]) for a in axes]),
                        "turnaround between the right points")
                ctx.check(k < len(body), "pulses missing", i)
            r = body[k]
            k += 1
            ctx.check(ctx.And(r[0] == 1, r[4] == 1, r[5] == 0), "first pulse of a row")
            if mode == "gate":
                ctx.check(r[1] == "BITA=1", "row waits for the gate")
            else:
                check_pcomp(ctx, pts, i, axes, res, r,
                            (dead, t1, t2, v0, v1) if i > start else None)
            ctx.check(ctx.And(r[3] == ticks_half(pts.duration[i]), r[10] == r[3]),
                      "pulse duration", i)
            i += 1
            continue
        r = body[k]
        k += 1
        ctx.check(r[1] == "Immediate" and r[4] == 1 and r[5] == 0, "pulse within a row")
        reps = r[0]
        ctx.check(reps >= 1, "repeats")
        for q in range(int(reps)):
            ctx.check(i < n, "too many pulses")
            if q and axes:
                ctx.check(
                    all(bool(pts.upper[a][i - 1] == pts.lower[a][i]) for a in axes),
                    "repeat runs over the end of a row")
            ctx.check(ctx.And(r[3] == ticks_half(pts.duration[i]), r[10] == r[3]),
                      "pulse duration", i)
            i += 1
        if int(reps) > 1:
            ctx.cover("merged")
    ctx.check(k == len(body), "extra rows")
    ctx.observe("rows", [list(r[:6]) + [r[10]] for r in rows])


def check_pcomp(ctx, pts, i, axes, res, r, blind):
    cts = {}
    for a in axes:
        lo = round((pts.lower[a][i] - 0.5) / res[a])
        mid = round((pts.positions[a][i] - 0.5) / res[a])
        cts[a] = (lo, mid - lo)
    idx = {"POSA": 0, "POSB": 1}[r[1][:4]]
    ax = axes[idx]
    lo, diff = cts[ax]
    ctx.check(ctx.And(*[abs(diff) >= abs(cts[a][1]) for a in axes]),
              "compares on the axis that moves most")
    up = r[1][4:6] == ">="
    ctx.check(diff > 0 if up else diff < 0, "compare direction")
    ctx.check(ctx.eq(r[2], lo), "compare position is the start of the point")
    if blind:
        dead, t1, t2, v0, v1 = blind
        sgn = 1 if res[ax] > 0 else -1
        w0, w1 = v0 * sgn, v1 * sgn
        wrong1 = w1 <= 0 if up else w1 >= 0
        end = ctx.ite(wrong1, t1, 0)
        ctx.check(ctx.And(dead[3] == ticks_half(end), dead[10] == dead[3]),
                  "blind until the axis moves the right way")
        ctx.cover("blind")


# ---------------------------------------------------------------- the whole part
AXES = ("x", "y")


def values_part(values, on_put=None, methods=()):
    """A part with attributes {name: (meta, value)} and methods (name, func)"""
    from malcolm.core import Part, PartRegistrar

    class Values(Part):
        attrs = {}

        def setup(self, registrar: PartRegistrar) -> None:
            self.attrs = {}
            for k, (meta, v) in values.items():
                a = self.attrs[k] = meta.create_attribute_model(v)

                def put(value, k=k, a=a):
                    if on_put:
                        on_put(k, value)
                    a.set_value(value)

                registrar.add_attribute_model(k, a, put if meta.writeable else None)
            for name, func in methods:
                registrar.add_method_model(func, name)

    return Values("part")


class Panda:
    """A PandA with two sequencers, gated together, that are run like the real ones"""

    def __init__(self, ctx, process, inputs, scales, bits):
        from malcolm.core import BooleanMeta, NumberMeta, StringMeta, TableMeta
        from malcolm.modules.ADCore.util import AttributeDatasetType
        from malcolm.modules.ADPandABlocks.util import (
            DatasetPositionsTable, SequencerTable)
        from malcolm.modules.builtin.controllers import BasicController, ManagerController
        from malcolm.modules.builtin.parts import ChildPart
        from malcolm.modules.builtin.util import ExportTable
        from malcolm.modules.pandablocks.util import PositionCapture

        self.ctx = ctx
        self.enabled = 0
        self.playing = False
        self.runs = []  # the tables played each time they were enabled
        self.tables = [None, None]
        self.seqs = []
        names = list(scales)
        n = len(names)
        pos = DatasetPositionsTable(
            name=names, value=[0.0] * n, units=[""] * n,
            scale=[scales[k][0] for k in names], offset=[scales[k][1] for k in names],
            capture=[PositionCapture.NO] * n,
            datasetName=[scales[k][2] for k in names],
            datasetType=[AttributeDatasetType.POSITION] * n)
        panda = self.controller = ManagerController("PANDA", L.scratch())
        panda.add_part(values_part({"positions": (
            TableMeta.from_table(DatasetPositionsTable, "Positions"), pos)}))
        for i in range(2):
            vals = {"table": (TableMeta.from_table(
                SequencerTable, "Table", writeable=list(SequencerTable.call_types)), None)}
            for suff, v in zip("abc", inputs[i]):
                vals["pos" + suff] = StringMeta("Input"), v
            vals["bita"] = StringMeta("Input"), bits[i]
            vals["active"] = BooleanMeta("Active"), False
            vals["label"] = StringMeta("Label"), f"Seq{i}"
            for k, v in (("repeats", ctx.params.get("repeats", 1)), ("prescale", 0)):
                m = NumberMeta("int32", k)
                m.set_writeable(True)
                vals[k] = m, v

            def on_put(k, value, i=i):
                if k == "table":
                    ctx.check(not (self.playing and self.at == i),
                              "a sequencer is reloaded while it plays")
                    self.tables[i] = value

            part = values_part(vals, on_put)
            self.seqs.append(part)
            c = BasicController(f"PANDA:SEQ{i + 1}")
            c.add_part(part)
            process.add_controller(c)
            panda.add_part(ChildPart(f"SEQ{i + 1}", f"PANDA:SEQ{i + 1}",
                                     initial_visibility=True, stateful=False))
        c = BasicController("PANDA:SRGATE1")
        c.add_part(values_part({}, None, [("forceSet", self.start), ("forceRst", self.stop)]))
        process.add_controller(c)
        panda.add_part(ChildPart("SRGATE1", "PANDA:SRGATE1", initial_visibility=True,
                                 stateful=False))
        process.add_controller(panda)
        self.exports = ExportTable.from_rows([
            ("SEQ1.table", "seqTableA"), ("SEQ2.table", "seqTableB"),
            ("SRGATE1.forceSet", "seqSetEnable"), ("SRGATE1.forceRst", "seqReset")])

    def start(self) -> None:
        import cothread

        if self.playing:
            return
        self.playing = True
        self.enabled += 1
        self.at = 0
        self.runs.append([])
        cothread.Spawn(self.play, self.enabled)

    def stop(self) -> None:
        self.playing = False
        self.enabled += 1
        for s in self.seqs:
            s.attrs["active"].set_value(False)

    def play(self, me):
        import cothread

        while self.enabled == me:
            i = self.at
            table = self.tables[i]
            self.ctx.check(table is not None, "a sequencer with nothing to play is run")
            rows = [list(r) for r in table.rows()]
            self.runs[-1].append(rows)
            self.tables[i] = None
            a = self.seqs[i].attrs
            a["active"].set_value(True)
            wait = sum(int(r[0]) * (int(r[3]) + int(r[10])) for r in rows) * 8e-9
            if int(rows[-1][0]) == 0:
                return
            self.ctx.check(a["repeats"].value == 1 and a["prescale"].value == 0,
                           "a table that is handed over from is played once")
            cothread.Sleep(wait)
            if self.enabled != me:
                return
            self.at = 1 - i
            a["active"].set_value(False)


class Motion:
    """Does the steps, one after the other, telling how far it is"""

    def __init__(self, ctx, panda, duration):
        self.ctx = ctx
        self.panda = panda
        self.duration = duration
        self.moves = True

    def behave(self, part, hook, context):
        from malcolm.modules.scanning.infos import RunProgressInfo

        if hook in ("Configure", "PostRunArmed", "Seek"):
            # others may take their time
            context.sleep(0.5)
            self.ctx.check(not self.panda.playing, "not started before it is asked to run")
        elif hook == "PreRun":
            context.sleep(0.5)
            self.ctx.check(self.moves or not self.panda.playing,
                           "pulses before everything is ready to run")
        elif hook == "Run":
            self.ctx.check(not self.moves or self.panda.playing,
                           "the motion starts before the sequencers")
            for i in range(part.todo):
                context.sleep(self.duration)
                part.registrar.report(RunProgressInfo(part.start + i + 1))


def listener(seen):
    """A part that notes how the motion is asked to trigger"""
    from annotypes import add_call_types

    from malcolm.core import Part, PartRegistrar
    from malcolm.modules.scanning import hooks as H
    from malcolm.modules.scanning.infos import MotionTriggerInfo

    class Listener(Part):
        def setup(self, registrar: PartRegistrar) -> None:
            registrar.hook(H.ConfigureHook, self.on_configure)

        @add_call_types
        def on_configure(self, part_info: H.APartInfo) -> None:
            seen[:] = [i.trigger.name for i in MotionTriggerInfo.filter_values(part_info)]

    return Listener("listener")


def pmac(process):
    from malcolm.core import NumberMeta, StringMeta
    from malcolm.modules.builtin.controllers import BasicController, ManagerController
    from malcolm.modules.builtin.parts import ChildPart

    p = ManagerController("PMAC", L.scratch())
    for n, ax in zip(AXES, "AB"):
        num = dict(maxVelocity=10.0, maxVelocityPercent=100.0, accelerationTime=0.1,
                   resolution=0.125, offset=3.0, readback=0.0, velocitySettle=0.0,
                   userHighLimit=0.0, userLowLimit=0.0, dialHighLimit=0.0,
                   dialLowLimit=0.0)
        vals = {k: (NumberMeta("float64", k), v) for k, v in num.items()}
        vals["cs"] = StringMeta("cs"), "CS1," + ax
        vals["units"] = StringMeta("units"), "mm"
        c = BasicController("PMAC:" + n)
        c.add_part(values_part(vals))
        process.add_controller(c)
        p.add_part(ChildPart(n, "PMAC:" + n, initial_visibility=True, stateful=False))
    process.add_controller(p)


INPUTS = {"x": "INENC1.VAL", "y": "INENC2.VAL"}


def scan(ctx):
    """A scan of 1..2 rows of 1..3 points of 2 to 20 s with the real part in a real scan,
    row gate or position compare on one of two axes (either order on the inputs, either
    sign of scale) or no motion; after another scan of either kind, done or aborted;
    with breakpoints, run up to any step, then paused and sent back anywhere"""
    import cothread
    from scanpointgenerator import CompoundGenerator, LineGenerator, StaticPointGenerator

    from malcolm.core import Process
    from malcolm.modules.ADPandABlocks.blocks import panda_seq_trigger_block
    from malcolm.modules.ADPandABlocks.parts import PandASeqTriggerPart
    from malcolm.modules.scanning.controllers import RunnableController

    p = ctx.params
    mode = p["mode"]
    nx = int(ctx.int("nx", 1, 3))
    ny = int(ctx.int("ny", 1, 2))
    dur = float(p["dur"])
    sign = {a: ctx.choice("sign" + a, [1, -1]) if mode == "pcomp" else 1 for a in AXES}
    inputs = ["ZERO", INPUTS["x"], INPUTS["y"]]
    if mode == "pcomp":
        inputs = ctx.choice("inputs", [
            [INPUTS["x"], INPUTS["y"], "ZERO"], [INPUTS["y"], "ZERO", INPUTS["x"]],
            ["ZERO", INPUTS["x"], "COUNTER1.VAL"]])
    wrong = p.get("wrong")
    other = list(inputs)
    bits = ["TTLIN1.VAL"] * 2
    if wrong:
        if mode == "pcomp":
            other[1] = "INENC3.VAL"
        else:
            bits = ctx.choice("bits", [["ZERO", "ZERO"], ["TTLIN1.VAL", "TTLIN2.VAL"]])
    scales = {"INENC3.VAL": (1.0, 0.0, ""),
              INPUTS["y"]: (0.25 * sign["y"], 2.0, "y"),
              "COUNTER1.VAL": (2.0, 0.0, "I0"),
              INPUTS["x"]: (0.5 * sign["x"], -1.0, "x")}
    process = Process("proc")
    panda = Panda(ctx, process, [inputs, other], scales, bits)
    pmac(process)
    for c in panda_seq_trigger_block("SCAN:PCOMP", panda="PANDA", pmac="PMAC"):
        process.add_controller(c)
    motion = Motion(ctx, panda, dur)
    s = RunnableController("SCAN", L.scratch())
    s.add_part(L.make_part("MOTION", [], motion.behave))
    s.add_part(PandASeqTriggerPart("PCOMP", "SCAN:PCOMP"))
    seen = []
    s.add_part(listener(seen))
    process.add_controller(s)
    process.start()
    panda.controller.block_view().exports.put_value(panda.exports)
    block = s.block_view()
    child = process.block_view("SCAN:PCOMP")
    value = {"pcomp": "Position Compare", "gate": "Motion Controller",
             "none": "Position Compare"}

    alt = nx > 1 and not p.get("pause")

    def gen(mode, nx, ny):
        if mode == "none":
            g = CompoundGenerator([StaticPointGenerator(nx * ny)], [], [], dur)
            return dict(generator=g, axesToMove=[])
        # get_points of scanpointgenerator has a single point of a reversed row the
        # wrong way round, so don't start from there
        g = CompoundGenerator([LineGenerator("y", "mm", 1, 2, ny),
                               LineGenerator("x", "mm", 0, 8, nx, alternate=alt)],
                              [], [], dur)
        return dict(generator=g, axesToMove=["x", "y"])

    how = p.get("before")
    if how:
        m = p["bmode"]
        child.rowTrigger.put_value(value[m])
        nb = int(ctx.int("nb", 1, 2))
        motion.moves = m != "none"
        L.earlier(ctx, block, how, **gen(m, 2, nb))
        ctx.check(how == "done" or not panda.playing, "the sequencers are stopped")
        panda.runs.clear()
    motion.moves = mode != "none"
    child.rowTrigger.put_value(value[mode])
    kw = gen(mode, nx, ny)
    total = nx * ny
    bps = []
    if p.get("bps") and total > 1:
        b = int(ctx.int("bp", 1, total - 1))
        bps = kw["breakpoints"] = [b, total - b]
    else:
        bps = [total]
    if wrong:
        try:
            block.configure(**kw)
        except Exception:
            ctx.check(block.state.value == "Fault", "state", block.state.value)
            ctx.check(not panda.playing, "never started")
            ctx.cover("refused")
            return
        ctx.check(False, "wiring that can't work was accepted", (other, bits))
        return
    block.configure(**kw)
    ctx.check(seen == ["ROW_GATE" if mode == "gate" else "NONE"],
              "what the motion is asked for", seen)
    ref = kw["generator"]
    ref.prepare()
    ends = [sum(bps[:i + 1]) for i in range(len(bps))]
    done = 0
    paused = 0
    while True:
        ctx.check(block.state.value == "Armed", "armed", block.state.value)
        end = next(e for e in ends if e > done)
        n = len(panda.runs)
        if p.get("pause") and not paused:
            # look back or go on from anywhere
            paused = 1
            f = block.run_async()
            k = int(ctx.int("stopat", 0, max(0, end - done - 1)))
            cothread.Sleep(dur * k + dur / 2)
            to = int(ctx.int("to", 0, total - 1))
            block.pause(lastGoodStep=to)
            if to == end:
                to -= 1
            ctx.check(not panda.playing, "the sequencers are stopped by a pause")
            ctx.check(len(panda.runs) == n + 1, "started once", len(panda.runs))
            played(ctx, panda.runs[n], ref, mode, done, end, inputs, scales, True)
            ctx.check(block.completedSteps.value == to, "where it goes on from")
            n = len(panda.runs)
            done = to
            end = next(e for e in ends if e > done)
            block.resume()
            f.result(timeout=1000)
            ctx.cover("paused")
        else:
            block.run_async().result(timeout=1000)
        ctx.check(len(panda.runs) == n + 1, "started once for a run", len(panda.runs) - n)
        cothread.Sleep(100)
        played(ctx, panda.runs[n], ref, mode, done, end, inputs, scales, False)
        done = end
        if done == total:
            break
        ctx.cover("more to do")
    ctx.check(block.state.value == "Finished", "finished", block.state.value)
    block.reset()
    ctx.check(not panda.playing, "the sequencers are stopped by a reset")


def played(ctx, tables, gen, mode, start, end, inputs, scales, cut):
    """The pulses that come out when these tables are played are those of the points"""
    rows = [r for t in tables for r in t]
    if len(tables) > 1:
        ctx.cover("several tables")
    if not cut:
        ctx.check(rows and rows[-1][0] == 0, "the last table holds", rows[-1:])
        rows = rows[:-1]
    live = []
    for r in rows:
        ctx.check(r[0] > 0 or cut, "a row that never ends in the middle")
        live += [r] * int(r[0]) if r[4] else []
    ctx.check(cut or len(live) == end - start, "one pulse for each point",
              (len(live), start, end))
    ctx.check(len(live) <= end - start, "too many pulses", (len(live), start, end))
    last = None
    for i, r in zip(range(start, end), live):
        pt = gen.get_point(i)
        half = round(pt.duration / 8e-9 / 2)
        ctx.check(r[3] == half and half - 6 <= r[10] <= half, "duration of a pulse", r[:11])
        new = last is None or any(last.upper[a] != pt.lower[a] for a in pt.lower)
        if mode == "none" or not new:
            ctx.check(r[1] == "Immediate", "trigger of a pulse within a row", r[1])
        elif mode == "gate":
            ctx.check(r[1] == "BITA=1", "trigger of the first pulse of a row", r[1])
        else:
            k = inputs.index(INPUTS["x"])
            scale, offset, _ = scales[INPUTS["x"]]
            up = (pt.upper["x"] - pt.lower["x"]) * scale > 0
            ctx.check(r[1] == f"POS{'ABC'[k]}{'>=' if up else '<='}POSITION",
                      "trigger of the first pulse of a row", r[1])
            ctx.check(r[2] == round((pt.lower["x"] - offset) / scale),
                      "position of the first pulse of a row",
                      (r[2], pt.lower["x"], offset, scale))
            ctx.cover("compared")
        last = pt
    ctx.observe("pulses", [(r[1], int(r[2])) for r in live])


HARNESSES = {
    "entry": Harness(entry, must=["several rows", "one row"]),
    "split": Harness(
        split,
        quick=[dict(n=2, endless=False), dict(n=3, endless=False), dict(n=2, endless=True)],
        thorough=[dict(n=n, endless=e) for n in (1, 2, 3, 4, 5) for e in (False, True)],
        must=["rest", "no rest", "endless row kept"],
    ),
    "tables": Harness(
        tables,
        quick=[dict(filler=0, shape=[2, 2]), dict(filler=0, shape=[1, 1, 1]),
               dict(filler=4095, shape=[1, 1]), dict(filler=4096, shape=[1])],
        thorough=[dict(filler=f, shape=s)
                  for f in (0, 4092, 4093, 4094, 4095, 4096, 4097, 8190)
                  for s in ([1], [2], [1, 1], [3, 1], [2, 2], [1, 1, 1])],
        must=["1 tables", "2 tables", "3 tables"],
    ),
    "triggers": Harness(
        triggers,
        quick=[dict(n=3, mode="gate", batch=2), dict(n=4, mode="gate", batch=3, start=1),
               dict(n=4, mode="none", batch=2),
               dict(n=2, mode="pcomp", batch=3, fixed=1), dict(n=1, mode="pcomp", batch=3), dict(n=3, mode="pcomp", batch=2, one=True)],
        thorough=[dict(n=n, mode=m, batch=b, start=s) for n in (2, 3, 4, 5)
                  for m in ("gate", "none") for b in (1, 2, 3) for s in (0, 1)]
        + [dict(n=2, mode="pcomp", batch=b) for b in (1, 2, 3)]
        + [dict(n=3, mode="pcomp", batch=b, fixed=2) for b in (1, 2, 3)],
        must=["row start", "turnaround", "merged", "blind"],
    ),
    "scan": Harness(
        scan,
        quick=[dict(mode="pcomp", dur=8), dict(mode="gate", dur=8),
               dict(mode="none", dur=8, before="part", bmode="gate"),
               dict(mode="pcomp", dur=2, before="done", bmode="gate"),
               dict(mode="gate", dur=16, before="armed", bmode="pcomp"),
               dict(mode="gate", dur=8, before="part", bmode="pcomp"),
               dict(mode="gate", dur=8, bps=1), dict(mode="none", dur=8, bps=1, pause=1),
               dict(mode="pcomp", dur=16, pause=1),
               dict(mode="gate", dur=16, pause=1, bps=1),
               dict(mode="pcomp", dur=2, wrong=1), dict(mode="gate", dur=2, wrong=1)],
        thorough=[dict(mode=m, dur=d, before=h, bmode=b) for m in ("pcomp", "gate", "none")
                  for d in (2, 8, 20) for b in ("pcomp", "gate", "none")
                  for h in ("done", "armed", "part", "reset")]
        + [dict(mode=m, dur=d, bps=b, pause=1, before="part", bmode="gate")
           for m in ("pcomp", "gate", "none") for d in (2, 8, 20) for b in (0, 1)]
        + [dict(mode=m, dur=2, wrong=1) for m in ("pcomp", "gate")],
        must=["several tables", "compared", "paused", "more to do", "refused"],
    ),
}
