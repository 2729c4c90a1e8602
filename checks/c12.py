"""Exposure / frame duration arithmetic"""
from symx.harness import Harness

TITLE = "Exposure, dead time and frame duration always fit together"
ASSUMPTIONS = ["floats are modelled as exact reals"]


def gen(duration):
    from scanpointgenerator import CompoundGenerator, LineGenerator

    return CompoundGenerator(
        [LineGenerator("x", "mm", 0, 2, 2)], [], [], duration=duration
    )


def fits(ctx):
    from malcolm.modules.scanning.parts import ExposureDeadtimePart

    readout = ctx.real("readout", 0, 10)
    acc = ctx.real("ppm", 0, 100000)
    mine = ctx.real("min_exposure", 0, 10)
    d = ctx.real("duration", 0, 1000)
    e = ctx.real("exposure", 0, 1000)
    part = ExposureDeadtimePart(
        "x", readout_time=readout, frequency_accuracy=acc, min_exposure=mine
    )
    frames = ctx.int("frames", 1, 8)
    try:
        tweak = part.on_validate(gen(d), e, frames)
    except AssertionError:
        tweak = "rejected"
    if d > 0:
        big = d - readout - acc * d / 1000000.0
        mx = ctx.ite(big > mine, big, mine)
        if e > 0:
            if tweak == "rejected":
                ctx.cover("rejected")
                ctx.check(ctx.Or(e < mine, e > mx - 1e-9), "wrongly rejected")
            else:
                ctx.cover("accepted")
                ctx.check(tweak is None, "unexpected tweak")
                ctx.check(ctx.And(e >= mine, e <= mx + 1e-9), "wrongly accepted")
        else:
            ctx.cover("tweak exposure")
            ctx.check(tweak.parameter == "exposure", "tweaks the exposure")
            ne = tweak.value
            ctx.observe("ne", ne)
            ctx.check(ctx.And(ne >= mine, ctx.close(ne, mx)), "tweaked exposure")
            ctx.check(
                ctx.Implies(big >= mine, ne + readout + acc * d / 1e6 <= d + 1e-9),
                "frame fits",
            )
    else:
        ctx.cover("tweak duration")
        ctx.check(tweak.parameter == "generator", "tweaks the generator")
        nd = tweak.value.duration
        ee = ctx.ite(e > 0, e, mine)
        per = nd / frames
        ctx.observe("nd", nd)
        ctx.check(per - readout - acc * per / 1e6 >= ee - 1e-9, "frame too short")
        ctx.check(per * (1 - acc / 1e6) <= (ee + readout) * (1 + 1e-9) + 1e-9,
                  "frame longer than needed")


def shortest(ctx):
    """A driver with any minimum period, any duration (or none) and 1..8 frames"""
    from malcolm.modules.ADCore.parts import DetectorDriverPart

    least = ctx.real("least", 0, 100)
    d = ctx.real("duration", 0, 1000)
    frames = ctx.int("frames", 1, 8)
    part = DetectorDriverPart("x", "X", min_acquire_period=least)
    try:
        tweak = part.on_validate(None, gen(d), frames)
    except AssertionError:
        ctx.check(ctx.And(d > 0, d < least), "wrongly refused", (d, least))
        ctx.cover("refused")
        return
    if tweak is None:
        ctx.check(ctx.Or(d >= least, least == 0), "accepted although it is too short",
                  (d, least))
        ctx.cover("accepted")
    else:
        ctx.check(ctx.And(d == 0, least > 0), "changed without need", (d, least))
        ctx.check(tweak.parameter == "generator", "what is changed", tweak.parameter)
        nd = tweak.value.duration
        ctx.check(ctx.close(nd, least * frames), "duration chosen", (nd, least, frames))
        ctx.cover("chosen")


def armed(ctx):
    """A whole detector with any readout time, accuracy, minimum exposure, duration and
    exposure (or none), triggered or not, with breakpoints or not, sought to any step or
    not: each time it is armed it has the exposure that was validated and a period that
    fits the duration"""
    from . import c23
    from . import scanlib as L

    p = ctx.params
    readout = ctx.real("readout", 0, 10)
    acc = p.get("ppm", 50.0)
    mine = ctx.real("min_exposure", 0.001, 10)
    d = ctx.real("duration", 0, 100)
    e = ctx.real("exposure", 0, 100)
    ctx.assume(ctx.Or(d == 0, d * (1 - acc / 1e6) - readout >= mine + 1e-6))
    soft = ctx.choice("soft", [False, True])
    ch = c23.Chain(ctx, soft=soft, dead=(readout, acc, mine))
    b = ch.block
    g = c23.make_gen("line", d)
    kw = dict(breakpoints=[1, 3]) if p["bp"] else {}
    if p.get("default"):
        e = 0.0
    else:
        ctx.assume(ctx.And(e >= mine))
        ctx.assume(ctx.Implies(d > 0, e + readout <= d * (1 - acc / 1e6) - 1e-6))
        kw["exposure"] = e
    b.configure(generator=g, axesToMove=["x"], fileDir=L.scratch(), **kw)
    shown = b.exposure.value
    if p.get("default") and d > 0:
        ctx.check(ctx.close(shown, d * (1 - acc / 1e6) - readout),
                  "the exposure is as long as fits", (shown, d, readout))
    elif p.get("default"):
        # and then as much of that duration as can be used
        ctx.check(ctx.And(shown >= mine - 1e-6, shown <= mine * (1 + 1e-6) + readout * 1e-6
                          + 1e-6),
                  "the shortest exposure", (shown, mine))
    else:
        ctx.check(shown == e, "the exposure asked for is kept", (shown, e))
    if p["seek"]:
        b.pause(lastGoodStep=int(ctx.int("seek", 0, 3)))
    n = 0
    while b.state.value == "Armed" and n < 5:
        b.run()
        n += 1
    ctx.check(b.state.value == "Finished", "finished", b.state.value)
    dur = ctx.ite(d > 0, d, (ctx.ite(e > 0, e, mine) + readout) / (1 - acc / 1e6) + 1e-6)
    for a in ch.drv.arms:
        ctx.check(a["exposure"] == shown, "armed with the exposure of the scan",
                  (a, shown))
        ctx.check(ctx.And(a["acquirePeriod"] >= shown + readout - 1e-9,
                          a["acquirePeriod"] <= dur + 1e-9),
                  "armed with a period that fits the duration", (a, shown, readout, d))
    ctx.check(all(ctx.And(a["acquirePeriod"] == ch.drv.arms[0]["acquirePeriod"]) for a in ch.drv.arms),
              "armed with the same period every time", ch.drv.arms)
    ctx.cover("several" if len(ch.drv.arms) > 1 else "once")
    ctx.observe("arms", len(ch.drv.arms))


def andor(ctx):
    """The same with an Andor, which says its readout time itself"""
    from . import c23
    from . import scanlib as L

    p = ctx.params
    readout = ctx.real("readout", 0, 10)
    d = ctx.real("duration", 0, 100)
    e = ctx.real("exposure", 0.001, 100)
    soft = ctx.choice("soft", [False, True])
    ch = c23.Chain(ctx, soft=soft, andor=True)
    ch.drv.set("andorReadoutTime", readout)
    b = ch.block
    kw = dict(breakpoints=[1, 3]) if p["bp"] else {}
    if p["default"]:
        ctx.assume(d > readout * 1.01 + 0.01)
    else:
        ctx.assume(ctx.Or(
            d == 0, e + readout + d * 0.004 + 0.001 <= d * (1 - 50 / 1e6) - 1e-6))
        kw["exposure"] = e
    try:
        b.configure(generator=c23.make_gen("line", d), axesToMove=["x"],
                    fileDir=L.scratch(), **kw)
    except AssertionError:
        ctx.check(False, "refused")
    shown = b.exposure.value
    if not p["default"] and d > 0:
        ctx.check(shown == e, "the exposure asked for is kept", (shown, e))
        ctx.cover("kept")
    if p["seek"]:
        b.pause(lastGoodStep=int(ctx.int("seek", 0, 3)))
    n = 0
    while b.state.value == "Armed" and n < 5:
        b.run()
        n += 1
    ctx.check(b.state.value == "Finished", "finished", b.state.value)
    for a in ch.drv.arms:
        ctx.check(a["exposure"] == shown, "armed with the exposure of the scan", (a, shown))
        ctx.check(a["acquirePeriod"] >= shown + readout - 1e-9, "time to read out",
                  (a, readout))
        if d > 0:
            ctx.check(a["acquirePeriod"] <= d + 1e-9, "the period fits the duration",
                      (a, d))


HARNESSES = {
    "shortest": Harness(shortest, must=["refused", "accepted", "chosen"]),
    "andor": Harness(
        andor,
        quick=[dict(bp=bp, seek=seek, default=df) for bp in (False, True)
               for seek in (False, True) for df in (False, True)],
        must=["kept"],
    ),
    "armed": Harness(
        armed,
        quick=[dict(bp=bp, seek=seek, default=df) for bp in (False, True)
               for seek in (False, True) for df in (False, True)],
        must=["several", "once"],
    ),
    "fits": Harness(fits, must=["rejected", "accepted", "tweak exposure", "tweak duration"]),
}
