"""The trajectory sent to the motion controller goes through every scan point"""
from symx.harness import Harness

from . import pmaclib as L

TITLE = "The trajectory goes through every scan point on time"
ASSUMPTIONS = [
    "the blocks below the trajectory and coordinate system parts are stand-ins that "
    "record what is put to them and play the rows in order",
    "the velocity_profile library is replaced by its contract: any profile that goes "
    "from v1 to v2 over the distance in the time needed",
    "floats are exact reals; bounds that differ do so by more than 1/1024",
    "buffers of 6 rows and batches of 2 or 3 points stand for the 2000 and 20000",
]
LIVE, DEAD, MID, ZERO, NONE = 1, 2, 4, 8, 0
TICK = 1e-6
MAXT = 4000000
TOL = 1e-6


def small_buffers(profile, batch):
    import malcolm.modules.pmac.parts.pmacchildpart as M

    for k, v in (("PROFILE_POINTS", profile), ("BATCH_POINTS", batch)):
        if hasattr(M, k):
            setattr(M, k, v)


def make_points(ctx, p):
    """Points of any shape: joined or not, curved or not"""
    n, axes = p["n"], p["axes"]
    dur = [p["dur"][i % len(p["dur"])] for i in range(n)]
    gaps = [False] * n
    for i in range(n - 1):
        gaps[i] = bool(ctx.bool(f"gap{i}")) if i in p.get("gaps", range(9)) else False
    delay = [0.0] * n
    if p.get("delay"):
        for i in range(n - 1):
            if gaps[i]:
                delay[i] = float(ctx.choice(f"delay{i}", [0.0, 0.25, 5.0]))
    lo, mid, up = {}, {}, {}
    for a in axes:
        lo[a], mid[a], up[a] = [], [], []
        for i in range(n):
            if i and not gaps[i - 1]:
                x = up[a][-1]
            else:
                x = ctx.real(f"{a}lo{i}", -2, 2)
            w = ctx.real(f"{a}w{i}", -1, 1)
            if p.get("line") and i and not gaps[i - 1]:
                # as fast as the last one, or differently
                if ctx.bool(f"{a}same{i}"):
                    w = (up[a][-1] - lo[a][-1]) / dur[i - 1] * dur[i]
                else:
                    ctx.assume(ctx.Or(
                        w - (up[a][-1] - lo[a][-1]) / dur[i - 1] * dur[i] > 0.01,
                        w - (up[a][-1] - lo[a][-1]) / dur[i - 1] * dur[i] < -0.01))
            if p.get("curve"):
                m = x + w / 2 + ctx.real(f"{a}c{i}", -0.1, 0.1)
            else:
                m = x + w / 2
            lo[a].append(x)
            mid[a].append(m)
            up[a].append(x + w)
    for i in range(n - 1):
        if gaps[i] and axes:
            if delay[i] == 0:
                # some axis has to move
                ctx.assume(ctx.Or(*[ctx.Or(up[a][i] - lo[a][i + 1] > 2 ** -10,
                                           up[a][i] - lo[a][i + 1] < -2 ** -10)
                                    for a in axes]))
    pts = L.points(ctx, dur, delay, lo, mid, up)
    return pts, dur, gaps, delay, lo, mid, up


def rig(ctx, p):
    small_buffers(p.get("profile", 6), p.get("batch", 3))
    motors = {}
    need = {}
    for k, a in enumerate(("x", "y")):
        # max velocities 100 and 200; accelerations 1000, 500
        vmax = 100.0 * (k + 1)
        accl = 0.1 if k == 0 else 0.4
        settle = p.get("settle", 0.0) if k == 0 else 0.0
        motors[a] = L.motor_block(f"BRICK2CS1,{'XV'[k]}", max_velocity=vmax, accl=accl,
                                  settle=settle)
        need[vmax / accl] = p["need"][k]
    L.use_profile(need)
    m = L.Pmac(ctx, motors)
    m.acc = {"x": 1000.0, "y": 500.0}
    m.need = {"x": p["need"][0], "y": p["need"][1]}
    m.settle = {"x": p.get("settle", 0.0), "y": 0.0}
    m.cs_axis = {"x": "X", "y": "V"}
    m.steps = p.get("steps", [1])
    return m


def info(p):
    from malcolm.modules.scanning.infos import (
        MinTurnaroundInfo, MotionTrigger, MotionTriggerInfo,
    )

    out = {}
    if p.get("trigger"):
        out["trig"] = [MotionTriggerInfo(MotionTrigger[p["trigger"]])]
    if p.get("min"):
        out["turn"] = [MinTurnaroundInfo(p["min"][0], p["min"][1])]
    return out


def velocity(dur, lo, mid, up, entry):
    vp = (up - lo) / dur
    half = (mid - lo) if entry else (up - mid)
    return 4 * half / dur - vp


class Expect:
    """Where the axes have to be, and when (times in ticks from the first row's end)"""

    def __init__(self):
        self.at = []   # (ticks, {axis: pos}, program or None, mode or None, done)

    def add(self, t, pos, prog, mode, done, row=True):
        self.at.append((t, pos, prog, mode, done, row))


def ticks(seconds):
    return int(round(seconds / TICK))


def expected(ctx, p, m, pts, gaps, delay, start):
    n, axes = p["n"], p["axes"]
    dur = p["dur"]
    prog = dict(NONE=dict(live=0, mid=0, join=0, end=0, turn=0),
                ROW_GATE=dict(live=1, mid=0, join=0, end=8, turn=0),
                EVERY_POINT=dict(live=1, mid=4, join=1, end=2, turn=8))[
        p.get("trigger") or "EVERY_POINT"]
    every = (p.get("trigger") or "EVERY_POINT") == "EVERY_POINT"
    e = Expect()
    t = 0.0
    P = lambda d, i: {a: d[a][i] for a in axes}
    mint = max(0.002, p["min"][0]) if p.get("min") else 0.002
    for i in range(start, n):
        d = dur[i % len(dur)]
        last = i == n - 1
        if i == start or (gaps[i - 1] and axes):
            e.add(t, P(pts.lower, i), prog["live"], 1, i)
        e.add(t + d / 2, P(pts.positions, i), prog["mid"], 0, i, every)
        t += d
        joined = not last and not (gaps[i] and axes)
        e.add(t, P(pts.upper, i), prog["join"] if joined else prog["end"],
              0 if joined else None, i + 1, every or not joined)
        if last or joined:
            continue
        T = max([mint, delay[i]] + [m.need[a][0] for a in axes])
        marks = set()
        profs = {}
        for a in axes:
            v1 = velocity(d, pts.lower[a][i], pts.positions[a][i], pts.upper[a][i], False)
            dn = dur[(i + 1) % len(dur)]
            v2 = velocity(dn, pts.lower[a][i + 1], pts.positions[a][i + 1],
                          pts.upper[a][i + 1], True)
            q = L.Profile(v1, v2, pts.lower[a][i + 1] - pts.upper[a][i], T, m.acc[a], 0,
                          m.settle[a], 0)
            profs[a] = q
            marks.update(q.make_arrays()[0][1:])
        for at in sorted(marks):
            if at < T - 1e-9:
                e.add(t + at, {a: pts.upper[a][i] + profs[a].position(at) for a in axes},
                      prog["turn"], 1, i + 1)
        t += T
    return e, t, prog


def check_rows(ctx, p, m, rows, e, start, prog):
    """Each expectation is a row, or (row=False) between two that are joined linearly"""
    axes = p["axes"]
    slack = 2 * len(m.written) + 1
    cum = 0
    at = 0
    prev = None
    done_after = []
    done = start
    zero = None
    for k, r in enumerate(rows):
        ctx.check(ctx.And(r["t"] > 0, r["t"] <= MAXT), "row takes some time", (k, r))
        if k == 0:
            zero = r["t"]
            cum = 0
        else:
            cum = cum + r["t"]
        if at < len(e.at):
            # pass those that need no row of their own
            while not e.at[at][5] and ticks(e.at[at][0]) < cum - slack:
                t, pos, _, _, d, _ = e.at[at]
                frac = (ticks(t) - pcum) / (cum - pcum)
                for a in axes:
                    c = m.cs_axis[a]
                    ctx.check(ctx.close(prev[c] + (r[c] - prev[c]) * frac, pos[a], 1e-4),
                              "point on the way", (k, a))
                at += 1
            ctx.check(at < len(e.at), "rows after the end", k)
            t, pos, pr, mode, d, _ = e.at[at]
            if abs(ticks(t) - cum) <= slack:
                for a in axes:
                    ctx.check(ctx.close(r[m.cs_axis[a]], pos[a], TOL), "at the point",
                              (k, a))
                ctx.check(int(r["prog"]) == pr, "trigger of the point", (k, r, pr))
                if mode is not None:
                    ctx.check(int(r["mode"]) == mode, "velocity mode", (k, r, mode))
                done = d
                at += 1
            else:
                # a long row was cut in parts
                ctx.check(cum < ticks(t) and int(r["prog"]) == 0 and
                          r["t"] * 2 > MAXT // 2,
                          "row between the points", (k, r, cum, ticks(t)))
                ctx.cover("long move")
        prev, pcum = r, cum
        done_after.append(done)
        if at == len(e.at):
            return k + 1, cum, done_after
    ctx.check(False, "points missing", (at, len(e.at), len(rows)))


HOOKS = ["ConfigureHook", "PostRunArmedHook", "SeekHook"]


def earlier(ctx, p, m):
    """Another scan was configured, and run to some row, before"""
    b = p["before"]
    axes = b.get("axes", p["axes"])
    dur, n = 0.5, b.get("n", 3)
    lo = {a: [0.25 * i + (1.0 if i > 1 else 0.0) for i in range(n)] for a in axes}
    up = {a: [x + 0.25 for x in lo[a]] for a in axes}
    mid = {a: [x + 0.125 for x in lo[a]] for a in axes}
    pts = L.points(ctx, [dur] * n, [0.0] * n, lo, mid, up)
    m.configure(L.Points(pts), axes, 0, n, info(dict(trigger=b.get("trigger"))))
    m.limit = ctx.choice("ran", b["ran"])
    if m.limit != 0:
        try:
            m.run()
        except L.Stopped:
            ctx.cover("stopped")
    if m.limit is not None:
        m.call("AbortHook", m.context)
    m.limit = None
    m.builds, m.rows, m.written, m.moves, m.progress = [], [], [], [], []
    ctx.cover("before")


def trajectory(ctx):
    """2..4 points on 0..2 axes, all positions, gaps, curved paths and start points;
    short and long points and turnarounds; written at once or in parts"""
    p = ctx.params
    m = rig(ctx, p)
    pts, dur, gaps, delay, lo, mid, up = make_points(ctx, p)
    n, axes = p["n"], p["axes"]
    start = p.get("start", 0)
    gen = L.Points(pts)
    hook = "ConfigureHook"
    if p.get("before"):
        earlier(ctx, p, m)
        hook = ctx.choice("hook", p["before"].get("hooks", HOOKS))
    stop = p.get("stop", n)
    m.configure(gen, axes, start, stop - start, info(p), hook=hook)
    # nothing after the last step matters
    n = stop
    p = dict(p, n=n)
    ctx.check(len(m.builds) == 1 and len(m.builds[0]) == 1 and
              int(m.builds[0][0]["prog"]) == ZERO, "outputs set to zero first", m.builds)
    ctx.check(sorted(m.axes) == sorted(m.cs_axis[a] for a in axes), "axes used", m.axes)
    # how it gets to the start
    interval = p["min"][1] if p.get("min") else 0.002
    accs = [interval]
    for a in axes:
        v = velocity(dur[start], lo[a][start], mid[a][start], up[a][start], True)
        accs.append(abs(v) / m.acc[a])
    if axes:
        ctx.check(len(m.moves) == 1 and m.moves[0][0] == 1, "moved to the start", m.moves)
    m.run()
    rows = m.rows
    ctx.check(m.played == rows, "every row is played", (len(m.played), len(rows)))
    ctx.check(max(m.written) <= p.get("profile", 6), "buffer size", m.written)
    e, t, prog = expected(ctx, p, m, pts, gaps, delay, start)
    k, cum, done_after = check_rows(ctx, p, m, rows, e, start, prog)
    ctx.check(ctx.And(*[rows[0]["t"] >= x * 1e6 - 1 for x in accs]), "run up time",
              (rows[0], accs))
    # then it stops
    ctx.check(len(rows) == k + 1, "one row to stop", (len(rows), k))
    tail = rows[-1]
    ctx.check(int(tail["mode"]) == 3 and int(tail["prog"]) == prog["turn"], "stops", tail)
    for a in axes:
        i = n - 1
        v = velocity(dur[i % len(dur)], lo[a][i], mid[a][i], up[a][i], False)
        dist = tail[m.cs_axis[a]] - up[a][i]
        ctx.check(ctx.close(dist * 2 * m.acc[a], v * abs(v), 1e-3), "way to stop", a)
        ctx.check(tail["t"] * 1e-6 * m.acc[a] >= abs(v) - 1e-3, "time to stop", a)
    done_after.append(n)
    every = (p.get("trigger") or "EVERY_POINT") == "EVERY_POINT"
    if every:
        for played, step in m.progress:
            ctx.check(step == done_after[played - 1], "steps completed",
                      (played, step, done_after))
        ctx.check(m.progress and m.progress[-1] == (len(rows), n), "all steps completed",
                  m.progress)
    else:
        ctx.check(not m.progress, "no progress shown", m.progress)
    ctx.observe("rows", len(rows))
    ctx.observe("writes", m.written)
    ctx.cover("done")
    if len(m.written) > 1:
        ctx.cover("several writes")


def timing(ctx):
    """2 points with any duration between 0.1 ms and 10 s: the whole number of ticks of
    the rows adds up"""
    p = ctx.params
    m = rig(ctx, dict(p, profile=20, batch=20))
    n = p["n"]
    dur = [ctx.real(f"dur{i}", p["lo"], p["hi"]) for i in range(n)]
    pos = [0.01 * i for i in range(n + 1)]
    axes = p["axes"]
    lo = {a: [float(x) for x in pos[:-1]] for a in axes}
    up = {a: [float(x) for x in pos[1:]] for a in axes}
    mid = {a: [(x + y) / 2 for x, y in zip(lo[a], up[a])] for a in axes}
    pts = L.points(ctx, dur, [0.0] * n, lo, mid, up)
    m.configure(L.Points(pts), axes, 0, n, {})
    m.run()
    rows = m.rows
    err = 0
    want = 0
    k = 1
    for i in range(n):
        for half in (0, 1):
            want = want + dur[i] / 2 / TICK
            got = 0
            while True:
                r = rows[k]
                ctx.check(ctx.And(r["t"] >= 1, r["t"] <= MAXT + 1), "row takes some time", r)
                got = got + r["t"]
                k += 1
                if int(r["prog"]):
                    break
                ctx.cover("long move")
            err = err + got
            ctx.check(ctx.And(err - want <= 2, want - err <= 2), "no drift", (i, half))
            if axes:
                w = mid["x"][i] if not half else up["x"][i]
                ctx.check(ctx.close(r["X"], w, TOL), "at the point", (i, half))
    ctx.cover("done")


def selector(ctx):
    """A beam selector, from any step, with exposures of its two detectors longer and shorter
    than the turnaround: each step exposes the one detector at one angle and the other at the other"""
    from malcolm.modules.pmac.parts import BeamSelectorPart
    from malcolm.modules.scanning.util import DetectorTable
    from scanpointgenerator import CompoundGenerator, StaticPointGenerator

    p = ctx.params
    ctx.symbolic_arrays()
    small_buffers(p.get("profile", 50), p.get("batch", 50))
    di, im = [ctx.choice(k, [0.05, 0.2500007, 0.4]) for k in ("di", "im")]
    size = p["size"]
    start = ctx.choice("start", list(range(size)))
    n = ctx.choice("n", list(range(1, size - start + 1)))
    names = ["di", "im"] if ctx.bool("order") else ["im", "di"]
    exp = {"di": di, "im": im}
    L.use_profile({1000.0: (0.1, 0.25)})
    m = L.Pmac(ctx, {"sel": L.motor_block("BRICK2CS1,X", max_velocity=100.0, accl=0.1)},
               part=BeamSelectorPart("bs", "PMAC", "sel", 10.0, 20.0, "im", "di", 0.5))
    gen = CompoundGenerator([StaticPointGenerator(size)], [], [], duration=1.0)
    gen.prepare()
    dets = DetectorTable([True, True], names, ["D", "I"], [exp[k] for k in names], [1, 1])
    kw = dict(part_info={}, detectors=dets)
    (validate,) = [f for f in m.reg.hooks["ValidateHook"]]
    tweak = validate(generator=gen, **kw)
    gen = tweak.value
    ctx.check(ctx.close(gen.duration, di + im + 1.0), "duration of a step", gen.duration)
    ctx.check(validate(generator=gen, **kw) is None, "accepted as it is")
    gen.prepare()
    m.call("ConfigureHook", m.context, completed_steps=start, steps_to_do=n,
           generator=gen, axesToMove=[], **kw)
    ctx.check(ctx.close(m.moves[0][1], {"X": 9.8}), "moved to the start", m.moves)
    m.run()
    rows = m.rows
    k = 0
    done = start
    marks = []
    for i in range(n):
        for at, wait in ((10.0, di), (20.0, im)):
            live, mid, end = rows[k:k + 3]
            ctx.check([int(r["prog"]) for r in (live, mid, end)] == [1, 4, 2],
                      "triggers of a move", (i, at))
            ctx.check(ctx.close([live["X"], mid["X"], end["X"]], [at, 15.0, 30.0 - at]),
                      "positions of a move", (i, at, live, mid, end))
            ctx.check(ctx.close([mid["t"], end["t"]], [250000, 250000], 1.5), "move time",
                      (mid, end))
            k += 3
            marks.append((k, done))
            t = 0
            while int(rows[k]["prog"]) != 1:
                t = t + rows[k]["t"]
                k += 1
            t = t + rows[k]["t"]
            want = ctx.ite(wait > 0.1, wait, 0.1) * 1e6
            ctx.check(ctx.And(t >= want - 4, t <= want + 4), "time at the position",
                      (i, at, t))
        done += 1
        marks.append((k, done))
    ctx.check(len(rows) == k + 1, "nothing else", (len(rows), k))
    ctx.check(int(rows[-1]["mode"]) == 3 and ctx.close(rows[-1]["X"], 10.0), "stops",
              rows[-1])
    for played, step in m.progress:
        least = [d for j, d in marks if j <= played - 3]
        most = [d for j, d in marks if j <= played + 3]
        ctx.check((least[-1] if least else start) <= step <= (most[-1] if most else start),
                  "steps completed", (played, step, marks))
    ctx.check(m.progress[-1] == (len(rows), start + n), "all steps completed", m.progress)
    ctx.cover("done")


N3 = dict(n=3, dur=[0.5], need=[[0.2, 0.5], [0.1, 0.25]], axes=["x"])
T = [
    dict(N3),
    dict(N3, curve=1, n=2),
    dict(N3, curve=1, axes=["x", "y"], n=2),
    dict(N3, axes=["x", "y"], need=[[0.1, 0.5], [0.3, 0.5]], start=1),
    dict(N3, axes=["x", "y"], n=2, settle=0.125, need=[[0.5, 0.5], [0.25, 0.75]]),
    dict(N3, axes=[], gaps=[], n=4),
    dict(N3, dur=[9.0, 0.5], n=2),
    dict(N3, need=[[9.0, 0.5], [0.1, 0.5]], n=2),
    dict(N3, delay=1, gaps=[0]),
    dict(N3, min=[0.3, 0.125]),
    dict(N3, n=6, batch=2, gaps=[2]),
    dict(N3, n=6, batch=1, steps=[2, 3], start=1, gaps=[1, 4]),
    dict(N3, n=4, batch=2, axes=["x", "y"], gaps=[1], profile=8),
    dict(N3, trigger="ROW_GATE", line=1),
    dict(N3, trigger="ROW_GATE", line=1, n=4, batch=2, dur=[0.5, 0.25]),
    dict(N3, trigger="NONE", line=1, n=5, batch=1, gaps=[2]),
    dict(N3, trigger="ROW_GATE", line=1, n=5, batch=2, start=1, gaps=[3]),
    dict(N3, trigger="ROW_GATE", axes=[], gaps=[], n=4, batch=2),
    dict(N3, n=2, before=dict(ran=[0, 2, None])),
    dict(N3, n=2, axes=["y"], gaps=[], before=dict(
        ran=[2, None], axes=["x", "y"], n=5, trigger="ROW_GATE", hooks=["ConfigureHook"])),
    dict(N3, n=3, trigger="ROW_GATE", line=1, gaps=[1],
         before=dict(ran=[0, 5, None], n=7, trigger="NONE")),
    dict(N3, n=3, stop=2, gaps=[0]),
    dict(N3, n=4, stop=3, start=1, trigger="ROW_GATE", line=1, gaps=[1]),
]
T2 = [dict(x, n=x["n"] + 1) for x in T] + [dict(x, profile=5, batch=2) for x in T]
HARNESSES = {
    "selector": Harness(selector, quick=[dict(size=3)], thorough=[dict(size=5)],
                        must=["done"]),
    "trajectory": Harness(trajectory, quick=T, thorough=T + T2,
                          must=["done", "several writes", "long move"]),
    "timing": Harness(timing, quick=[
        dict(n=1, axes=["x"], lo=0.0001, hi=9, need=[[0.1, 0.5], [0.1, 0.5]]),
        dict(n=2, axes=[], lo=0.0001, hi=10, need=[[0.1, 0.5], [0.1, 0.5]])],
        thorough=[
        dict(n=2, axes=["x"], lo=0.0001, hi=9, need=[[0.1, 0.5], [0.1, 0.5]]),
        dict(n=3, axes=[], lo=0.0001, hi=20, need=[[0.1, 0.5], [0.1, 0.5]])],
        must=["done", "long move"]),
}
