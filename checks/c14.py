"""Turnarounds, run-ups and guessed durations stay within what the axes can do"""
from symx.harness import Harness

from . import pmaclib as L

TITLE = "Motion profiles respect velocity and acceleration limits"
ASSUMPTIONS = [
    "the velocity_profile library (not part of this repository) is replaced by its "
    "contract: a profile takes the time asked for or longer, however much longer",
    "floats are exact reals; durations of points are concrete",
]


class Made:
    """What a velocity profile was asked for; it takes any longer time"""

    ctx = None
    made = []

    def __init__(self, v1, v2, d, t_total, a, v_max, settle_time=0, interval=0):
        ctx = Made.ctx
        k = len(Made.made)
        Made.made.append(self)
        self.v1, self.v2, self.d, self.asked = v1, v2, d, t_total
        self.a, self.v_max, self.settle, self.interval = a, v_max, settle_time, interval
        need = Made.need(k, a)
        self.t_total = need if need > t_total else t_total
        self.quantized = 0
        self.solved = 0
        self.arrays = None

    def get_profile(self):
        self.solved += 1

    def check_quantize(self):
        return bool(Made.ctx.bool(f"quant{Made.made.index(self)}"))

    def quantize(self):
        self.quantized += 1

    def make_arrays(self):
        self.arrays = (["times", self], ["velocities", self])
        return self.arrays


def use(ctx, need):
    import velocity_profile.velocityprofile as lib

    Made.ctx = ctx
    Made.made = []
    Made.need = staticmethod(need)
    lib.VelocityProfile = Made


def motor(k, **kw):
    from malcolm.modules.pmac.infos import MotorInfo

    d = dict(cs_axis="XYZ"[k], cs_port="CS1", acceleration=[100.0, 30.0, 7.0][k],
             resolution=0.001, offset=0.0, max_velocity=[8.0, 5.0, 3.0][k],
             current_position=0.0, scannable="xyz"[k], velocity_settle=[0.25, 0.0, 0.5][k],
             units="mm", user_high_limit=0.0, user_low_limit=0.0, dial_high_limit=0.0,
             dial_low_limit=0.0)
    d.update(kw)
    return MotorInfo(**d)


def turn(ctx):
    """1..3 axes, any positions of two points of different durations, any times the
    profiles of the axes take"""
    from malcolm.modules.pmac.util import profile_between_points

    p = ctx.params
    axes = "xyz"[:p["axes"]]
    dur = p["dur"]
    lo, mid, up = {}, {}, {}
    for a in axes:
        r = lambda n: ctx.real(a + n, -4, 4)
        lo[a], mid[a], up[a] = ([r("lo0"), r("lo1")], [r("mid0"), r("mid1")],
                                [r("up0"), r("up1")])
        d = lo[a][1] - up[a][0]
        ctx.assume(ctx.Or(d == 0, d > 1e-6, d < -1e-6))
    pts = L.points(ctx, dur, [0.0, 0.0], lo, mid, up)
    info = {a: motor(k) for k, a in enumerate(axes)}
    mint = ctx.real("min_time", 0.002, 1)
    interval = ctx.real("interval", 0.001, 0.5)
    steady = ctx.params.get("steady", True)

    def need(k, a):
        if steady:
            i = [100.0, 30.0, 7.0].index(float(a))
            return ctx.real(f"need{i}", 0.0, 2)
        return ctx.real(f"need{k}", 0.0, 2)

    use(ctx, need)
    v = {}
    too_fast = []
    for a in axes:
        vs = []
        for i, sign in ((0, 0), (1, 1)):
            half = (mid[a][i] - lo[a][i]) if sign else (up[a][i] - mid[a][i])
            x = 4 * half / dur[i] - (up[a][i] - lo[a][i]) / dur[i]
            vs.append(x)
            over = (abs(x) - info[a].max_velocity) / info[a].max_velocity
            ctx.assume(ctx.Or(over < 0.9e-6, over > 1.1e-6))
            too_fast.append(over > 1e-6)
        v[a] = vs
    try:
        times, velocities = profile_between_points(info, pts[0], pts[1], mint, interval)
    except AssertionError:
        ctx.check(ctx.Or(*too_fast), "refused without a reason")
        ctx.cover("too fast")
        return
    except ValueError:
        ctx.check(not steady, "no consistent time found")
        ctx.cover("no consistent time")
        return
    ctx.check(ctx.Not(ctx.Or(*too_fast)), "velocity over the maximum accepted", too_fast)
    ctx.check(list(times) == list(axes) and list(velocities) == list(axes),
              "all the axes", (list(times), list(velocities)))
    used = {}
    for a in axes:
        t, w = times[a], velocities[a]
        ctx.check(t[0] == "times" and w[0] == "velocities" and t[1] is w[1],
                  "times and velocities of one profile", (t, w))
        q = used[a] = t[1]
        ctx.check(q.arrays[0] is t and q.arrays[1] is w, "latest arrays", a)
        ctx.check(q.solved >= 1, "solved", a)
        ctx.check(ctx.close(q.v1, v[a][0]), "leaves with the exit velocity", (a, q.v1))
        ctx.check(ctx.close(q.v2, v[a][1]), "enters with the entry velocity", (a, q.v2))
        ctx.check(ctx.close(q.d, lo[a][1] - up[a][0], 1e-9), "distance", (a, q.d))
        ctx.check(q.a == info[a].acceleration and q.v_max == info[a].max_velocity and
                  q.settle == info[a].velocity_settle, "limits of the axis",
                  (a, q.a, q.v_max, q.settle))
        ctx.check(q.interval == interval, "interval between points", a)
    total = [used[a].t_total for a in axes]
    for t in total:
        ctx.check(t >= mint - (1e-8 + 2e-5 * mint), "minimum time", total)
        for u in total:
            ctx.check(ctx.And(t - u <= 3e-5 * t + 2e-8, u - t <= 3e-5 * t + 2e-8),
                      "same time for all axes", total)
    if steady:
        needs = [ctx.real(f"need{i}", 0.0, 2) for i in range(len(axes))]
        m = mint
        for n in needs:
            m = n if n > m else m
        ctx.check(ctx.And(*[t <= m * (1 + 1e-4) + 1e-6 for t in total]),
                  "no longer than needed", total)
    wants = [bool(ctx.bool(f"quant{Made.made.index(used[a])}")) for a in axes]
    qs = [used[a].quantized for a in axes]
    ctx.check(qs == ([1] * len(axes) if any(wants) else [0] * len(axes)),
              "quantised together when one needs it", (qs, wants))
    ctx.cover("done")
    if any(wants):
        ctx.cover("quantised")


def ramp(ctx):
    """1..2 axes: the first point entered at any velocity; limits above and below.
    The move to the start stops where the axis can still get up to speed"""
    p = ctx.params
    axes = "xy"[:p["axes"]]
    vmax = [16.0, 8.0]
    accl = [0.5, 0.25]
    acc = {"x": 32.0, "y": 32.0}
    percent = p.get("percent", 100.0)
    L.use_profile({32.0 * percent / 100: (0.25, 0.5)})
    motors = {a: L.motor_block(f"CS1,{'XV'[k]}", max_velocity=vmax[k], accl=accl[k],
                               percent=percent)
              for k, a in enumerate(axes)}
    m = L.Pmac(ctx, motors)
    start, n = p.get("start", 0), 2
    dur = [0.5, 0.5]
    lo, mid, up = {}, {}, {}
    for a in axes:
        x0 = ctx.real(a + "0", -4, 4)
        w = ctx.real(a + "w", -9, 9)
        c = ctx.real(a + "c", -0.5, 0.5)
        lo[a] = [x0 - w / 2, x0 + w / 2]
        mid[a] = [x0 + c, x0 + w + c]
        up[a] = [x0 + w / 2, x0 + w + w / 2]
    pts = L.points(ctx, dur, [0.0] * n, lo, mid, up)
    vin, vout = {}, {}
    fast = []
    for k, a in enumerate(axes):
        i = start
        vin[a] = 4 * (mid[a][i] - lo[a][i]) / dur[i] - (up[a][i] - lo[a][i]) / dur[i]
        i = n - 1
        vout[a] = 4 * (up[a][i] - mid[a][i]) / dur[i] - (up[a][i] - lo[a][i]) / dur[i]
        for v in (vin[a], vout[a]):
            over = abs(v) - vmax[k] * percent / 100
            ctx.assume(ctx.Or(over < 0, over > 0.001))
            fast.append(over > 0)
    try:
        m.configure(L.Points(pts), list(axes), start, n - start, {})
    except AssertionError:
        ctx.check(ctx.Or(*fast), "refused without a reason")
        ctx.cover("too fast")
        return
    ctx.check(ctx.Not(ctx.Or(*fast)), "velocity over the maximum accepted")
    (k, demands, kw), = m.moves
    for a, c in zip(axes, "XV"):
        ac = acc[a] * percent / 100
        d = lo[a][start] - demands[c]
        v = vin[a]
        t = abs(v) / ac
        t = t if t > 0.002 else 0.002
        ctx.check(ctx.close(2 * d, v * t, 1e-6), "distance to get up to speed", a)
        tail = m.rows[-1]
        dist = tail[c] - up[a][-1]
        ctx.check(ctx.close(2 * dist * ac, vout[a] * abs(vout[a]), 1e-4),
                  "distance to stop", a)
        ctx.check(m.rows[0]["t"] * 1e-6 * ac >= abs(v) - 1e-3, "time to get up to speed", a)
        ctx.check(tail["t"] * 1e-6 * ac >= abs(vout[a]) - 1e-3, "time to stop", a)
    ctx.cover("done")


class Unlimited(L.Points):
    """A generator that is asked to guess its duration"""

    def __init__(self, points, duration, continuous=True):
        super().__init__(points)
        self.duration = duration
        self.continuous = continuous

    def to_dict(self):
        from scanpointgenerator import CompoundGenerator, LineGenerator

        return CompoundGenerator(
            [LineGenerator(["x"], ["mm"], [0], [1], 2)], duration=0.0).to_dict()


def validate(ctx):
    """0..2 axes that move any way between two points: the duration given in its place,
    for fly and step scans and every kind of trigger"""
    from malcolm.modules.scanning.infos import MinTurnaroundInfo, MotionTrigger, \
        MotionTriggerInfo

    p = ctx.params
    axes = "xy"[:p["axes"]]
    vmax = {"x": 16.0, "y": 4.0}
    motors = {a: L.motor_block(f"CS1,{'XV'[k]}", max_velocity=vmax[a], accl=0.5)
              for k, a in enumerate("xy")}
    m = L.Pmac(ctx, motors)
    freq = p.get("freq", 4000.0)
    m.servo = freq
    n = p.get("n", 2)
    d = {a: ctx.real("d" + a, -8, 8) for a in axes}
    for a in axes:
        ctx.assume(ctx.Or(d[a] == 0, d[a] > 1e-3, d[a] < -1e-3))
    lo = {a: [-d[a] / 2, d[a] / 2][:n] for a in axes}
    mid = {a: [0.0, d[a]][:n] for a in axes}
    up = {a: [d[a] / 2, d[a] + d[a] / 2][:n] for a in axes}
    pts = L.points(ctx, [1.0] * n, [0.0] * n, lo, mid, up)
    given, k = 0.0, None
    if p.get("given"):
        # between two servo ticks, or on one
        k = ctx.choice("ticks", [1, 2, 3, 4, 7, 10, 33, 400, 1999, 20001])
        frac = 1 if ctx.bool("exact") else ctx.real("frac", 0.001, 0.999)
        given = 2 * (k - 1 + frac) / freq
    continuous = p.get("continuous", True)
    gen = Unlimited(pts, given, continuous)
    trig = MotionTrigger[p.get("trigger", "NONE")]
    info = {"a": [MotionTriggerInfo(trig)]}
    if p.get("gap"):
        info["b"] = [MinTurnaroundInfo(p["gap"], 0.002)]
    tweak = m.call("ValidateHook", m.context, generator=gen, axesToMove=list(axes),
                   part_info=info)
    got = given if tweak is None else tweak.value.duration
    if tweak is not None:
        ctx.check(tweak.parameter == "generator", "what is tweaked", tweak.parameter)
    if not axes and trig == MotionTrigger.NONE:
        ctx.check(tweak is None, "not taking part", got)
        ctx.cover("done")
        return
    slack = 0.0
    if trig == MotionTrigger.EVERY_POINT:
        # aligned with the servo clock, which it may fall short of by a jitter
        slack = 0.0041 / freq + 2.1e-6
    if given:
        want = [given]
        most = given
    elif axes and continuous and n > 1:
        want = [abs(d[a]) / vmax[a] for a in axes] + [1e-6]
        most = want[0]
        for w in want[1:]:
            most = w if w > most else most
    elif axes:
        most = max(0.002, p.get("gap", 0.0))
        want = [most]
    else:
        most = 1e-6
        want = [most]
    for w in want:
        ctx.check(got >= w - slack, "too short for an axis", (got, w))
    over = 2 / freq if trig == MotionTrigger.EVERY_POINT else 0
    ctx.check(got <= most + over + 1e-9, "longer than needed", got)
    ctx.check(got > 0, "takes time", got)
    if trig == MotionTrigger.EVERY_POINT:
        if k is not None:
            d_ = k - got * 0.5 * freq
            # half a point is a whole number of servo ticks, less the jitter and rounding
            ctx.check(ctx.And(d_ >= -1e-6, d_ <= 0.0021 + freq * 1.01e-6),
                      "half a point is a whole number of servo ticks", got)
        again = m.call("ValidateHook", m.context, generator=Unlimited(pts, got, continuous),
                       axesToMove=list(axes), part_info=info)
        ctx.check(again is None or ctx.close(again.value.duration, got, 1e-9),
                  "stays as it is", got)
        ctx.cover("aligned")
    ctx.cover("done")


T = [dict(axes=1, dur=[0.5, 0.25]), dict(axes=2, dur=[0.5, 2.0]),
     dict(axes=2, dur=[1.0, 1.0], steady=False)]
V = [dict(axes=0), dict(axes=1), dict(axes=2), dict(axes=2, continuous=False),
     dict(axes=1, continuous=False, gap=0.25), dict(axes=1, n=1, gap=0.001),
     dict(axes=1, trigger="ROW_GATE"), dict(axes=0, trigger="ROW_GATE"),
     dict(axes=0, trigger="EVERY_POINT", given=1),
     dict(axes=0, trigger="EVERY_POINT", given=1, freq=3200.0),
     dict(axes=0, trigger="EVERY_POINT", given=1, freq=5000.5),
     dict(axes=1, trigger="EVERY_POINT", freq=3200.0),
     dict(axes=1, trigger="ROW_GATE", given=1)]
HARNESSES = {
    "turn": Harness(turn, quick=T, thorough=T + [dict(axes=3, dur=[0.5, 0.25])],
                    must=["done", "too fast", "quantised", "no consistent time"]),
    "ramp": Harness(ramp, quick=[dict(axes=1), dict(axes=2, start=1),
                                 dict(axes=1, percent=50.0)],
                    thorough=[dict(axes=1), dict(axes=2), dict(axes=2, start=1),
                              dict(axes=2, percent=50.0)],
                    must=["done", "too fast"]),
    "validate": Harness(validate, quick=V, must=["done", "aligned"]),
}
