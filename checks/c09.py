"""Step accounting of a scan"""
from symx.harness import Harness

from . import scanlib as L
from .c10 import pause, seek

TITLE = "A scan does every step exactly once, in order"
ASSUMPTIONS = [
    "the generator is a stand-in with symbolic dimension sizes; its points are "
    "not calculated",
    "the parts are stand-ins that record what they are told to do",
    "the real cothread scheduler runs on a virtual clock",
]


def scan(ctx):
    """dimension sizes symbolic (inner 1..1000, others 1..3), up to 2
    breakpoints of any size, run until Finished"""
    p = ctx.params
    dims, inner = [], 1
    move = p["move"]
    for i, (axes, big) in enumerate(p["dims"]):
        size = ctx.int(f"size{i}", 1, 1000) if big else ctx.int(f"size{i}", 1, 3)
        dims.append((size, axes))
    gen = L.make_generator(dims)
    # the part of the scan done by one inner scan: from the fastest dimension
    # outwards, as long as the dimension is moved or has no axes to move
    left = set(move)
    for size, axes in reversed(dims):
        if axes and not left:
            break
        left -= set(axes)
        inner = inner * size
    log = []
    running = []

    def behave(part, hook, context):
        if hook == "Run":
            running.append((part.start, part.todo))

    rig = L.Rig([L.make_part("part", log, behave)])
    for r, nbp in enumerate([p["nbp"]] + p.get("then", [])):
        del log[:], running[:]
        bps = [ctx.int(f"bp{i}" if not r else f"bp{r}{i}", 1, 1000) for i in range(nbp)]
        try:
            rig.block.configure(generator=gen, axesToMove=move, breakpoints=bps)
        except Exception as e:
            ctx.check(isinstance(e, AssertionError) and bps, "refused", repr(e))
            ctx.check(sum(bps) > inner, "refused although the breakpoints fit")
            ctx.check(rig.state == "Fault", "fault after a refusal")
            ctx.cover("refused")
            rig.block.reset()
            continue
        if bps:
            ctx.check(sum(bps) <= inner, "accepted although the breakpoints do not fit")
        if r and not log[0][1] == "PreConfigure":
            ctx.check(log[0][1] == "Reset", "the parts are reset before another scan", log)
            ctx.cover("again")
        one_scan(ctx, rig, gen, log, running, bps, inner)


def one_scan(ctx, rig, gen, log, running, bps, inner):
    """Configured: do all of it"""
    total = gen.size
    ctx.check(ctx.And(rig.block.totalSteps.value == total), "total steps")
    # expected segments
    if bps:
        one = list(bps)
        rest = inner - sum(bps)
        if rest > 0:
            one.append(rest)
            ctx.cover("remainder")
    else:
        one = [inner]
    pos = 0
    n = 0
    while True:
        ctx.check(n < 60, "scan never ends")
        ctx.check(rig.state == "Armed", "armed", rig.state)
        seg = [x for x in log if x[1] in ("Configure", "PostRunArmed", "Seek")][-1]
        want = one[n % len(one)]
        ctx.check(ctx.And(seg[2] == pos, seg[3] == want), "segment told to the parts",
                  (n, seg))
        c, conf, tot = rig.steps()
        ctx.check(ctx.And(c == pos, conf == pos + want, tot == total), "steps shown",
                  (c, conf, tot))
        rig.block.run()
        n += 1
        ctx.check(len(running) == n, "one run per segment")
        ctx.check(ctx.And(running[-1][0] == pos, running[-1][1] == want),
                  "steps run", running[-1])
        pos = pos + want
        ctx.check(pos <= total, "beyond the end")
        if rig.state == "Finished":
            break
    ctx.check(ctx.And(pos == total), "finished with every step done", (pos, total))
    c, conf, tot = rig.steps()
    ctx.check(ctx.And(c == total, conf == total), "steps shown at the end")
    ctx.check(len([x for x in log if x[1] in ("Configure", "PostRunArmed")]) == n,
              "one configuration per segment")
    ctx.observe("n", n)
    ctx.cover("one segment" if n == 1 else "several segments")


def D(*ds):
    return [list(d) for d in ds]


QUICK = [
    dict(dims=D(["x", 1]), move=["x"], nbp=0, then=[1, 0]),
    dict(dims=D(["y", 0], ["x", 1]), move=["x"], nbp=0),
    dict(dims=D(["y", 0], ["x", 1]), move=["x", "y"], nbp=1, then=[0]),
    dict(dims=D(["y", 0], ["x", 1]), move=["x"], nbp=2),
    dict(dims=D(["", 0], ["x", 1]), move=["x"], nbp=1),
    dict(dims=D(["y", 0], ["", 0], ["x", 1]), move=["x"], nbp=1),
    dict(dims=D(["y", 0], ["x", 1], ["", 0]), move=["x"], nbp=1),
    dict(dims=D(["z", 0], ["y", 0], ["x", 1]), move=["x"], nbp=1),
    dict(dims=D(["z", 0], ["y", 0], ["x", 0]), move=["x", "y"], nbp=2),
    dict(dims=D(["y", 0], ["xw", 1]), move=["x", "w"], nbp=1),
    dict(dims=D(["y", 0], ["x", 0]), move=[], nbp=0),
    dict(dims=D(["y", 0], ["x", 1]), move=["x"], nbp=1, then=[0]),
    dict(dims=D(["y", 0], ["x", 1]), move=["x"], nbp=0, then=[2]),
]

HARNESSES = {
    "scan": Harness(scan, quick=QUICK,
                    thorough=QUICK + [dict(q, nbp=3) for q in QUICK if q["nbp"]]
                    + [dict(dims=D(["z", 0], ["y", 0], ["x", 1]), move=["x", "y"], nbp=n)
                       for n in (0, 1, 2)],
                    must=["one segment", "several segments", "remainder", "refused",
                          "again"]),
    "paused": Harness(pause, quick=[
        dict(outer=2, nbp=0, first=0), dict(outer=1, nbp=2, first=1),
        dict(outer=2, nbp=1, first=0)], must=["paused"]),
    "sought": Harness(seek, quick=[
        dict(outer=2, nbp=0, runs=1, seeks=1), dict(outer=2, nbp=1, runs=1, seeks=1)],
                      must=["seek"]),
}
