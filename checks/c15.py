"""Each axis's points go to the coordinate system axis of its motor, and nowhere else"""
from symx.harness import Harness

from . import pmaclib as L

TITLE = "Each axis's points go to the right motor, in motor units"
ASSUMPTIONS = [
    "the blocks below the trajectory and coordinate system parts are stand-ins that "
    "record what is put to them",
    "the velocity_profile library is replaced by its contract",
    "floats are exact reals",
    "channel access is a stand-in that gives the values and updates of the harness",
]
CS = ["", "BRICK2CS1,X", "BRICK2CS1,Y", "BRICK2CS2,X", "BRICK2CS2,Z", "BRICK2CS1,I"]


def gen_points(ctx, names, n=2, dur=0.5):
    lo, mid, up = {}, {}, {}
    for a in names:
        x = ctx.real(a + "0", -4, 4)
        w = ctx.real(a + "w", -1, 1)
        lo[a] = [x + i * w for i in range(n)]
        mid[a] = [x + i * w + w / 2 for i in range(n)]
        up[a] = [x + (i + 1) * w for i in range(n)]
    return L.points(ctx, [dur] * n, [0.0] * n, lo, mid, up), lo, mid, up


def mapping(ctx):
    """3 motors, each in any of two coordinate systems, on the same axis or not, on none
    or on an axis that can't be scanned; every set of axes asked for, with one that has
    no motor and one that is static"""
    from scanpointgenerator import StaticPointGenerator

    p = ctx.params
    names = p["motors"]
    cs = {a: ctx.choice("cs_" + a, p.get("cs", CS)) for a in names}
    asked = [a for a in names + ["q"] if ctx.bool("move_" + a)]
    L.use_profile({1000.0: (0.25, 0.5)})
    motors = {a: L.motor_block(cs[a], max_velocity=100.0, accl=0.1) for a in names}
    m = L.Pmac(ctx, motors)
    pts, lo, mid, up = gen_points(ctx, names + ["q"])
    gen = L.Points(pts)
    if p.get("static"):
        gen.generators = (StaticPointGenerator(2, axes=["q"]),)
        moving = [a for a in asked if a != "q"]
    else:
        moving = asked
    if not moving:
        # the trajectory still runs for its triggers: see triggers_only
        return
    parts = [cs[a].split(",") for a in moving if a in cs]
    bad = ("q" in moving or not all(cs[a] for a in moving if a in cs)
           or any(x[1:] == ["I"] for x in parts)
           or len({x[0] for x in parts}) > 1
           or len({x[1] for x in parts if len(x) > 1}) < len(parts))
    try:
        m.configure(gen, asked, 0, 2, {})
    except AssertionError:
        ctx.check(bad, "refused without a reason", (moving, cs))
        ctx.check(not m.moves and not m.rows and not m.builds,
                  "refused before anything moves", (m.moves, m.rows))
        ctx.cover("refused")
        return
    ctx.check(not bad, "accepted what it can't move", (moving, cs))
    number = int(parts[0][0][-1])
    port = parts[0][0]
    (k, demands, kw), = m.moves
    ctx.check(k == number, "coordinate system moved", (k, number))
    axes = {a: cs[a].split(",")[1] for a in moving}
    ctx.check(sorted(demands) == sorted(axes.values()), "axes moved", (demands, axes))
    ctx.check(m.cs == port, "coordinate system scanned", (m.cs, port))
    ctx.check(sorted(m.axes) == sorted(axes.values()), "axes scanned", (m.axes, axes))
    rows = [r for r in m.rows if int(r["prog"])][:5]
    for a, c in axes.items():
        ctx.check(abs(demands[c] - lo[a][0]) <= 0.01, "start of the axis", a)
        want = [lo[a][0], mid[a][0], up[a][0], mid[a][1], up[a][1]]
        ctx.check(ctx.close([r[c] for r in rows], want, 1e-9), "positions of the axis", a)
    ctx.cover("done")
    if len(axes) > 1:
        ctx.cover("several axes")


def triggers_only(ctx):
    """3 motors in any coordinate systems, none of them moved: the triggers go out on the
    first that has a motor that can be scanned"""
    p = ctx.params
    names = p["motors"]
    cs = {a: ctx.choice("cs_" + a, CS) for a in names}
    motors = {a: L.motor_block(cs[a]) for a in names}
    L.use_profile({10.0: (0.25, 0.5)})
    m = L.Pmac(ctx, motors)
    pts, lo, mid, up = gen_points(ctx, [])
    usable = [cs[a].split(",")[0] for a in names if cs[a] and not cs[a].endswith("I")]
    try:
        m.configure(L.Points(pts), [], 0, 2, {})
    except ValueError:
        ctx.check(not usable, "no coordinate system found", cs)
        ctx.check(not m.moves and not m.rows, "nothing done", m.rows)
        ctx.cover("none")
        return
    ctx.check(usable, "accepted without a coordinate system", cs)
    ctx.check(m.cs == usable[0], "coordinate system", (m.cs, usable))
    ctx.check(not m.axes and not m.moves, "nothing is moved", (m.axes, m.moves))
    ctx.cover("done")


def limits(ctx):
    """1..2 axes with soft limits anywhere, or none: the scan is refused when the run-up
    starts, or the tail-off ends, outside of them"""
    p = ctx.params
    axes = "xy"[:p["axes"]]
    L.use_profile({16.0: (0.25, 0.5)})
    start, n = 0, 2
    motors, lim, v = {}, {}, {}
    pts, lo, mid, up = gen_points(ctx, list(axes), n)
    bad_start, bad_end = [], []
    for k, a in enumerate(axes):
        h, low = ctx.real(a + "high", -6, 6), ctx.real(a + "low", -6, 6)
        on = p["on"][k]
        dials = [(0.0, 0.0), (0.0, 5.0), (-3.0, 0.0), (10.0, -10.0)][on]
        motors[a] = L.motor_block(f"BRICK2CS1,{'XV'[k]}", max_velocity=8.0, accl=0.5,
                                  high=h, low=low, dial_high=dials[0], dial_low=dials[1])
        vel = (up[a][0] - lo[a][0]) / 0.5
        t = abs(vel) / 16
        t1 = t if t > 0.002 else 0.002
        first = lo[a][0] - vel * t1 / 2
        last = up[a][-1] + vel * t / 2
        for x, bad in ((first, bad_start), (last, bad_end)):
            if on:
                for d in (h - x, x - low):
                    ctx.assume(ctx.Or(d > 1e-6, d < -1e-6))
                bad.append(ctx.Or(x > h, x < low))
    m = L.Pmac(ctx, motors)
    try:
        m.configure(L.Points(pts), list(axes), start, n - start, {})
    except AssertionError:
        ctx.check(ctx.Or(*bad_start, *bad_end), "refused within the limits")
        if m.moves:
            ctx.check(ctx.Not(ctx.Or(*bad_start)), "moved outside the limits", m.moves)
            ctx.cover("tail-off")
        ctx.check(not m.rows or len(m.rows) == 1, "no trajectory", m.rows)
        ctx.cover("refused")
        return
    ctx.check(ctx.Not(ctx.Or(*bad_start)), "starts outside the limits")
    ctx.check(ctx.Not(ctx.Or(*bad_end)), "ends outside the limits")
    ctx.cover("done")


def counts(ctx):
    """Any position and offset, with several resolutions: the nearest count"""
    from malcolm.modules.pmac.util import cs_axis_mapping
    from malcolm.modules.builtin.util import LayoutTable

    p = ctx.params
    pos, off = ctx.real("pos", -50, 50), ctx.real("offset", -50, 50)
    for res in p["res"]:
        context = L.Context()
        context.blocks["M"] = L.motor_block("CS1,X", resolution=res, offset=off)
        info = cs_axis_mapping(
            context, LayoutTable(["x"], ["M"], [0], [0], [True]), ["x"])["x"]
        c = info.in_cts(pos)
        err = c * res + off - pos
        ctx.check(ctx.And(err <= abs(res) * 0.5 + 1e-9, err >= -abs(res) * 0.5 - 1e-9),
                  "nearest count", (c, res))
        if not ctx.symbolic:
            ctx.check(type(c) is int, "whole counts", c)
    ctx.cover("done")


class Recorder(L.Block):
    """Puts in the order they are made"""

    def __init__(self, log, **kw):
        self._log = log
        super().__init__(**kw)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        a = L.Attr(on_put=lambda v: self._log.append((k, v)))
        setattr(self, k, a)
        return a


def move(ctx):
    """A coordinated move of any of 3 axes to anywhere: each demand goes to its axis, while
    moves are deferred"""
    from malcolm.modules.pmac.parts import CSPart

    log = []
    context = L.Context()
    context.blocks["CS"] = blk = Recorder(log)
    reg = L.Registrar()
    L.add(reg, CSPart("CS", 3))
    axes = ctx.params["axes"]
    kw = {}
    for a in axes:
        if ctx.bool("use_" + a):
            kw[a] = ctx.real("to_" + a, -5, 5)
    t = ctx.real("time", 0, 9)
    if ctx.bool("timed"):
        reg.methods["moveCS3"](context, moveTime=t, **kw)
    else:
        t = 0
        reg.methods["moveCS3"](context, **kw)
    names = [k for k, _ in log]
    got = dict(log)
    first, last = names.index("deferMoves"), len(names) - 1 - names[::-1].index("deferMoves")
    defers = [v for k, v in log if k == "deferMoves"]
    ctx.check(defers == [True, False], "deferred, then let go", defers)
    demands = {k: v for k, v in log if k.startswith("demand")}
    ctx.check(ctx.eq(demands, {"demand" + a.upper(): v for a, v in kw.items()}),
              "demands", (demands, kw))
    for i, k in enumerate(names):
        if k.startswith("demand") or k == "csMoveTime":
            ctx.check(first < i < last, "put while moves are deferred", names)
    ctx.check(ctx.close(got["csMoveTime"], t * 1000), "move time in ms", got)
    ctx.cover("done")


def profile(ctx):
    """A build and an append of trajectories on any of 3 axes, with and without the other
    arrays, of right and wrong lengths; all trajectory program versions"""
    from malcolm.core import IncompatibleError
    from malcolm.modules.pmac.parts import PmacTrajectoryPart

    p = ctx.params
    context = L.Context()
    reg = L.Registrar()
    L.add(reg, PmacTrajectoryPart("traj", "TRAJ"))
    log = []
    acts = []

    blk = context.blocks["TRAJ"] = Recorder(log)
    blk.buildProfile = lambda: acts.append("build")
    blk.appendProfile = lambda: acts.append("append")
    ver = ctx.choice("version", [1, 2, 3, 4]) if p.get("versions") else 3
    blk.trajectoryProgVersion = L.Attr(ver)
    total = 0
    use = None
    for step in range(2):
        n = ctx.choice(f"n{step}", [1, 2, 3])
        if use is None:
            use = [a for a in "avz" if ctx.bool("use_" + a)]
        kw = {a: L.arr(ctx, [ctx.real(f"{a}{step}_{i}", -9, 9) for i in range(n)])
              for a in use}
        kw["timeArray"] = list(range(1, n + 1))
        short = False
        for k in ("velocityMode", "userPrograms"):
            w = ctx.choice(f"{k}{step}", ["right", "none", "short"]) if p.get("lengths") \
                else "right"
            if w != "none":
                kw[k] = [k[0] == "v"] * (n - (w == "short"))
            short = short or w == "short"
        if step == 0:
            kw["csPort"] = "BRICK2CS1"
        del log[:]
        del acts[:]
        try:
            reg.methods["writeProfile"](context, **kw)
        except IncompatibleError:
            ctx.check(ver < 2, "version refused", ver)
            ctx.check(not acts and not log, "nothing written", log)
            ctx.cover("version")
            return
        except AssertionError:
            ctx.check(short, "refused without a reason", kw)
            ctx.check(not acts, "not built", acts)
            ctx.cover("length")
            return
        ctx.check(ver >= 2, "old version accepted", ver)
        ctx.check(not short, "wrong length accepted", kw)
        total += n
        got = dict(log)
        ctx.check(acts == (["append"] if step else ["build"]), "what it does", acts)
        if not step:
            ctx.check(got["cs"] == "BRICK2CS1", "coordinate system", got)
            ctx.check({a: bool(got["use" + a]) for a in L.AXES} ==
                      {a: a.lower() in use for a in L.AXES}, "axes used", got)
        else:
            ctx.check("cs" not in got and not [k for k in got if k.startswith("use")
                                               and k != "userPrograms"],
                      "goes on with the same", got)
        pos = {k: v for k, v in got.items() if k.startswith("positions")}
        ctx.check(ctx.eq(pos, {"positions" + a.upper(): kw[a] for a in use}),
                  "positions of each axis", (pos, kw))
        ctx.check(got["pointsToBuild"] == n, "number of points", got)
        ctx.check(ctx.eq(list(got["timeArray"]), kw["timeArray"]), "times", got)
        for k in ("velocityMode", "userPrograms"):
            ctx.check([int(x) for x in got[k]] == [int(x) for x in kw.get(k, [0] * n)], k,
                      got)
    waited = []
    blk.executeProfile = lambda: acts.append("execute")
    blk.when_value_matches = lambda name, value, *a, **kw: waited.append((name, value))
    reg.methods["executeProfile"](context)
    ctx.check(acts[-1] == "execute" and waited == [("pointsScanned", total)],
              "waits for all the points", (acts, waited, total))
    ctx.check(not context.subs, "subscriptions undone", context.subs)
    ctx.cover("done")


class Text(str):
    ok = True
    severity = 0


class Index(int):
    ok = True
    severity = 0
    enums = ["NONE", "BRICK1CS1", "BRICK1CS2"]


class Catools:
    """Values of PVs, and what monitors them"""

    FORMAT_CTRL, FORMAT_TIME = "ctrl", "time"

    def __init__(self):
        self.pvs = {}
        self.monitors = {}
        self.puts = []

    def caget(self, pv, **kw):
        if isinstance(pv, str):
            return self.pvs[pv]
        return [self.pvs[x] for x in pv]

    def caput(self, pv, value, **kw):
        for k, v in (zip(pv, value) if not isinstance(pv, str) else [(pv, value)]):
            self.puts.append((k, v))
            new = Index(v) if isinstance(v, int) else Text(v)
            self.pvs[k] = new
            self.pvs[k + "_RBV"] = new

    def camonitor(self, pv, cb, **kw):
        out = []
        many = not isinstance(pv, str)
        for i, k in enumerate(pv if many else [pv]):
            self.monitors[k] = (lambda v, i=i: cb(v, i)) if many else cb
            out.append(Closer(self, k))
        return out if many else out[0]

    def update(self, pv, value, ok=True):
        value = type(value)(value)
        value.ok = ok
        self.pvs[pv] = value
        if pv in self.monitors:
            self.monitors[pv](value)


class Closer:
    def __init__(self, ca, pv):
        self.ca, self.pv = ca, pv

    def close(self):
        self.ca.monitors.pop(self.pv, None)


class Stub:
    def __getattr__(self, k):
        return getattr(Stub.now, k)


def use_ca():
    import malcolm.modules.ca.util as U

    Stub.now = Catools()
    U.catools = Stub()
    return Stub.now


def sink(ctx):
    """A raw motor's coordinate system port and axis, from the first values and 2..3
    changes to them, by a put or from below, with and without connection"""
    from malcolm.modules.pmac.parts import RawMotorSinkPortsPart

    p = ctx.params
    ca = use_ca()
    reg = L.Registrar()
    part = L.add(reg, RawMotorSinkPortsPart("PV"))
    port = ctx.choice("port", [0, 1, 2])
    axis = ctx.choice("axis", ["A", "Z", "I"])
    ok = {"port": True, "axis": True}
    for k in (":CsPort", ":CsPort_RBV"):
        ca.pvs["PV" + k] = Index(port)
    for k in (":CsAxis", ":CsAxis_RBV"):
        ca.pvs["PV" + k] = Text(axis)
    ca.pvs["PV.OUT"] = Text("@asyn(BRICK1, 7)")
    attr = reg.methods["cs"]

    def check(when):
        if ok["port"] and ok["axis"] and axis:
            want = f"{Index.enums[port]},{axis}" if port else ""
        else:
            want = ""
        ctx.check(attr.value == want, "coordinate system axis", (when, attr.value, want))
        if not (ok["port"] and ok["axis"]):
            ctx.check(not attr.alarm.is_ok(), "shown as bad", when)
        elif axis:
            ctx.check(attr.alarm.is_ok(), "shown as good", when)

    def connect():
        for f in reg.hooks["InitHook"]:
            f()

    connect()
    check("start")
    ctx.check(reg.methods["pmac"].value == "BRICK1" and
              reg.methods["axisNumber"].value == 7, "motor", reg.methods["pmac"].value)
    for i in range(p["n"]):
        what = ctx.choice(f"what{i}", ["port", "axis", "put", "lost", "reset"])
        if what == "port":
            port = ctx.choice(f"port{i}", [0, 1, 2])
            ok["port"] = True
            ca.update("PV:CsPort_RBV", Index(port))
        elif what == "axis":
            axis = ctx.choice(f"axis{i}", ["A", "B", "I", "Q", ""])
            ok["axis"] = axis in list("ABI")
            ca.update("PV:CsAxis_RBV", Text(axis))
        elif what == "put":
            v = ctx.choice(f"put{i}", ["", "BRICK1CS2,B", "BRICK1CS1,I"])
            part.caput(v)
            ok["port"] = ok["axis"] = True
            port, axis = ((Index.enums.index(v.split(",")[0]), v.split(",")[1]) if v
                          else (0, ""))
            ctx.check(dict(ca.puts)["PV:CsPort"] == port and
                      dict(ca.puts)["PV:CsAxis"] == axis, "put", ca.puts)
        elif what == "lost":
            k = ctx.choice(f"lost{i}", ["port", "axis"])
            ok[k] = False
            if k == "port":
                ca.update("PV:CsPort_RBV", Index(0), ok=False)
            else:
                ca.update("PV:CsAxis_RBV", Text(""), ok=False)
        else:
            if not all(v.ok for v in ca.pvs.values()):
                return
            connect()
        check((i, what))
    ctx.cover("done")


def compound(ctx):
    """A compound motor's coordinate system axis, before and after a change"""
    from malcolm.modules.pmac.parts import CompoundMotorSinkPortsPart

    ca = use_ca()
    reg = L.Registrar()
    L.add(reg, CompoundMotorSinkPortsPart("cs", "PV.OUT"))
    text = lambda k: (k, Text(f"@asyn({ctx.choice('form' + str(k), ['CS3,%d', 'CS3, %d', 'CS12,%d'])})" % k))
    for i in range(2):
        k, v = text(ctx.choice(f"k{i}", list(range(1, 10))))
        if i == 0:
            ca.pvs["PV.OUT"] = v
            for f in reg.hooks["InitHook"]:
                f()
        else:
            ca.update("PV.OUT", v)
        want = v.split("(")[1].split(",")[0] + "," + L.AXES[k - 1]
        got = reg.methods["cs"].value
        ctx.check(got == want, "coordinate system axis", (got, want))
    ctx.cover("done")


HARNESSES = {
    "mapping": Harness(mapping, quick=[
        dict(motors=["x", "y", "z"], cs=["BRICK2CS1,X", "BRICK2CS1,Y", "BRICK2CS2,Z"]),
        dict(motors=["x", "y"]),
                                       dict(motors=["x", "y"], static=1)],
                       thorough=[dict(motors=["x", "y", "z"]),
                                 dict(motors=["x", "y", "z"], static=1)],
                       must=["done", "refused", "several axes"], max_fork=200),
    "triggers_only": Harness(triggers_only, quick=[dict(motors=["x", "y"])],
                             thorough=[dict(motors=["x", "y", "z"])],
                             must=["done", "none"]),
    "limits": Harness(limits, quick=[dict(axes=1, on=[k]) for k in range(4)] +
                      [dict(axes=2, on=[3, 1])],
                      thorough=[dict(axes=1, on=[k]) for k in range(4)] +
                      [dict(axes=2, on=[i, j]) for i in range(4) for j in range(i, 4)],
                      must=["done", "refused", "tail-off"]),
    "counts": Harness(counts, quick=[dict(res=[0.5, -0.001]), dict(res=[3.0, 0.25])],
                      must=["done"]),
    "move": Harness(move, quick=[dict(axes="axz"), dict(axes="cuv")],
                    thorough=[dict(axes="abcuv"), dict(axes="wxyza")], must=["done"]),
    "profile": Harness(profile, quick=[dict(), dict(versions=1), dict(lengths=1)],
                       must=["done", "version", "length"]),
    "sink": Harness(sink, quick=[dict(n=2)], thorough=[dict(n=3)], must=["done"],
                    max_fork=200),
    "compound": Harness(compound, quick=[dict()], must=["done"]),
}
