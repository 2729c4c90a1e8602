"""Pause, seek, resume and abort"""
import time

from symx.harness import Harness

from . import scanlib as L

TITLE = "Pause, seek, resume and abort keep the step count right"
ASSUMPTIONS = [
    "the generator is a stand-in with symbolic dimension sizes; its points are "
    "not calculated",
    "the parts are stand-ins that record what they are told to do, report any "
    "progress within the segment and stop when told to",
    "the real cothread scheduler runs on a virtual clock",
]


class Scan:
    """A configured scan of outer x inner steps with breakpoints"""

    def __init__(self, ctx, outer, nbp, nparts=1, block=(), inner_max=1000):
        self.ctx = ctx
        self.inner = ctx.int("inner", 1, inner_max)
        self.outer = outer
        self.total = self.inner * outer
        self.inner_max = inner_max
        self.log = []
        self.say = {}
        self.seen = []
        self.runs = []  # (part, start, todo)
        self.ended = []
        # (hook, how many times it was called): the call doesn't end by itself
        self.block = set(block)
        self.ncall = {}
        self.parts = [L.make_part(f"p{i}", self.log, self.behave) for i in range(nparts)]
        self.rig = L.Rig(self.parts)
        gen = L.make_generator([(outer, "y"), (self.inner, "x")])
        self.gen = gen
        self.configure("bp", nbp, ("Configure", 1) in self.block)

    def configure(self, name, nbp, wait=False):
        ctx = self.ctx
        self.bps = [ctx.int(f"{name}{i}", 1, self.inner_max) for i in range(nbp)]
        if nbp:
            ctx.assume(sum(self.bps) <= self.inner)
        self.fut = self.rig.block.configure_async(
            generator=self.gen, axesToMove=["x"], breakpoints=self.bps)
        if not wait:
            self.fut.result(timeout=100.0)
        one = list(self.bps)
        if nbp:
            rest = self.inner - sum(self.bps)
            if rest > 0:
                one.append(rest)
        else:
            one = [self.inner]
        self.ends = []
        t = 0
        for _ in range(self.outer):
            for s in one:
                t = t + s
                self.ends.append(t)

    def behave(self, part, hook, context):
        n = self.ncall[part.name, hook] = self.ncall.get((part.name, hook), 0) + 1
        if hook == "Run":
            self.runs.append((part.name, part.start, part.todo))
            if part.name in self.say:
                self.report(self.parts.index(part), self.say[part.name])
                self.seen.append(self.rig.steps()[0])
        if (hook, n) in self.block:
            try:
                while True:
                    context.sleep(1000.0)
            finally:
                self.ended.append(part.name)
        return None

    def end_of(self, s):
        """End of the segment that step s is in"""
        ctx = self.ctx
        e = self.ends[-1]
        for x in reversed(self.ends):
            e = ctx.ite(s < x, x, e)
        return e

    def segs(self, part="p0"):
        return [x for x in self.log if x[0] == part
                and x[1] in ("Configure", "PostRunArmed", "Seek")]

    def report(self, i, steps):
        from malcolm.modules.scanning.infos import RunProgressInfo

        self.parts[i].registrar.report(RunProgressInfo(steps))

    def check_at(self, s, state, what):
        ctx = self.ctx
        ctx.check(self.rig.state == state, f"{what}: state", self.rig.state)
        c, conf, tot = self.rig.steps()
        e = self.end_of(s)
        ctx.check(ctx.And(c == s, tot == self.total), f"{what}: completed steps", (c, s))
        ctx.check(ctx.And(conf == e), f"{what}: configured steps", (conf, e))
        for p in self.parts:
            seg = self.segs(p.name)[-1]
            ctx.check(ctx.And(seg[2] == s, seg[3] == e - s), f"{what}: told to the parts",
                      (seg, s, e))

    def finish(self, s, what):
        """Armed at s: run everything, each step exactly once"""
        ctx = self.ctx
        n = 0
        while self.rig.state == "Armed":
            ctx.check(n <= len(self.ends), f"{what}: never ends")
            k = len(self.runs)
            e = self.end_of(s)
            ctx.check(s < self.total, f"{what}: armed with nothing left to do")
            self.rig.block.run()
            self.check_runs(k, s, e, what)
            s = e
            n += 1
        ctx.check(self.rig.state == "Finished", f"{what}: state at the end",
                  self.rig.state)
        ctx.check(ctx.And(s == self.total), f"{what}: every step done", (s, self.total))
        c, conf, _ = self.rig.steps()
        ctx.check(ctx.And(c == self.total, conf == self.total), f"{what}: steps shown")

    def check_runs(self, k, s, e, what):
        ctx = self.ctx
        new = self.runs[k:]
        ctx.check(sorted(x[0] for x in new) == [p.name for p in self.parts],
                  f"{what}: every part runs once", new)
        for r in new:
            ctx.check(ctx.And(r[1] == s, r[2] == e - s), f"{what}: steps run", (r, s, e))


def target(ctx, sc, name, completed, configured, running):
    """What a pause request asks for, and where it must land"""
    req = ctx.int(name, -1, None)
    ctx.assume(req <= sc.total + 2)
    s = ctx.ite(req < 0, completed, ctx.ite(req >= sc.total, sc.total - 1, req))
    if running:
        # within a run the end of the segment means its last step
        s = ctx.ite(s == configured, s - 1, s)
    return req, s


def seek(ctx):
    """Armed after 0..2 segments: seek anywhere (twice), then do the rest.
    outer 1..2, inner 1..1000 steps, 0..2 breakpoints, all positions"""
    p = ctx.params
    sc = Scan(ctx, p["outer"], p["nbp"], p.get("parts", 1))
    sc.check_at(0, "Armed", "configure")
    done = 0
    for i in range(p["runs"]):
        e = sc.end_of(done)
        k = len(sc.runs)
        sc.rig.block.run()
        sc.check_runs(k, done, e, "first runs")
        done = e
        if sc.rig.state != "Armed":
            break
    finished = sc.rig.state == "Finished"
    if finished:
        ctx.cover("finished")
    where = done
    for i in range(p["seeks"]):
        c, conf, _ = sc.rig.steps()
        req, s = target(ctx, sc, f"seek{i}", c, conf, False)
        n = len(sc.log)
        if p.get("put") and not finished:
            ctx.assume(req >= 0)
            sc.rig.block.completedSteps.put_value(req)
        else:
            sc.rig.block.pause(lastGoodStep=req)
        if finished and req < 0:
            ctx.check(sc.rig.state == "Finished" and len(sc.log) == n,
                      "pause when finished does nothing")
            ctx.cover("nothing to do")
            return
        finished = False
        sc.check_at(s, "Armed", "seek")
        where = s
        ctx.cover("seek")
    sc.finish(where, "after seek")


def pause(ctx):
    """Running in segment 1 or 2 with any progress reported by each part:
    pause (anywhere), maybe seek while paused, resume, do the rest.
    outer 1..2, inner 1..1000 steps, 0..2 breakpoints, all positions"""
    p = ctx.params
    np_ = p.get("parts", 1)
    first = p["first"]
    at = p.get("at", "Run")
    sc = Scan(ctx, p["outer"], p["nbp"], np_, block=[(at, first + 1)])
    done = 0
    for i in range(first):
        ctx.assume(len(sc.ends) > first)
        sc.rig.block.run()
        done = sc.end_of(done)
    end = sc.end_of(done)
    k = len(sc.runs)
    fut = sc.rig.block.run_async()
    ctx.settle()
    ctx.check(sc.rig.state == "Running", "running", sc.rig.state)
    if at != "PreRun":
        sc.check_runs(k, done, end, "run before pause")
    latest = {}
    shown = done
    for r in range(p.get("reports", 1)):
        for i in range(np_):
            lo = latest.get(i, done)
            prog = ctx.int(f"prog{r}{i}", 0, None)
            ctx.assume(prog >= lo)
            ctx.assume(prog <= end)
            latest[i] = prog
            sc.report(i, prog)
            c = sc.rig.block.completedSteps.value
            # the slowest of the parts that have reported, and never back
            m = latest[0]
            for x in latest.values():
                m = ctx.ite(x < m, x, m)
            ctx.check(c == ctx.ite(m > shown, m, shown), "progress shown", (c, latest))
            shown = c
    c, conf, _ = sc.rig.steps()
    ctx.check(ctx.And(c == shown, conf == end), "steps shown", (c, conf, shown, end))
    req, s = target(ctx, sc, "pause", c, conf, True)
    t0 = time.time()
    sc.rig.block.pause(lastGoodStep=req)
    ctx.check(time.time() - t0 < 1.0, "pause doesn't wait for what has stopped")
    ctx.check(sorted(sc.ended) == [x.name for x in sc.parts],
              "running parts have stopped before pause returns", sc.ended)
    ctx.check(not fut.done(), "run is not interrupted by pause")
    sc.check_at(s, "Paused", "pause")
    ctx.cover("paused")
    for i in range(p.get("seeks", 0)):
        c, conf, _ = sc.rig.steps()
        req, s = target(ctx, sc, f"seek{i}", c, conf, True)
        sc.rig.block.pause(lastGoodStep=req)
        sc.check_at(s, "Paused", "seek while paused")
        ctx.cover("seek while paused")
    if p.get("abort"):
        t0 = time.time()
        sc.rig.block.abort()
        ctx.check(time.time() - t0 < 1.0, "abort doesn't wait for what has stopped")
        after_abort(ctx, sc, [fut])
        return
    k = len(sc.runs)
    e = sc.end_of(s)
    sc.rig.block.resume()
    ctx.settle()
    fut.result(timeout=100.0)
    sc.check_runs(k, s, e, "resume")
    if e == sc.total:
        ctx.check(sc.rig.state == "Finished", "finished when every step is done",
                  sc.rig.state)
        ctx.cover("resumed to the end")
    else:
        ctx.check(sc.rig.state == "Armed", "armed when steps are left", sc.rig.state)
        ctx.cover("resumed to the next segment")
    if sc.rig.state == "Armed":
        sc.check_at(e, "Armed", "after resume")
    sc.finish(e, "rest of the scan")


def after_abort(ctx, sc, futs, nbp=None):
    from malcolm.core import AbortedError

    ctx.check(sc.rig.state == "Aborted", "aborted", sc.rig.state)
    ctx.settle()
    ctx.check(sc.rig.state == "Aborted", "still aborted", sc.rig.state)
    for fut in futs:
        try:
            fut.result(timeout=100.0)
            err = None
        except Exception as e:
            err = e
        ctx.check(isinstance(err, AbortedError), "what was aborted reports it", repr(err))
    sc.rig.block.reset()
    ctx.check(sc.rig.state == "Ready", "ready after reset", sc.rig.state)
    c, conf, tot = sc.rig.steps()
    ctx.check(ctx.And(c == 0, conf == 0, tot == 0), "no steps left over")
    sc.block = set()
    sc.configure("again", len(sc.bps) if nbp is None else nbp)
    sc.check_at(0, "Armed", "configure after abort")
    # the last part is the only one to report: its progress is shown
    last = sc.parts[-1]
    x = ctx.int("progress", 0, None)
    ctx.assume(x <= sc.ends[0])
    sc.say = {last.name: x}
    k = len(sc.runs)
    sc.rig.block.run()
    sc.say = {}
    ctx.check(len(sc.seen) == 1 and ctx.And(sc.seen[0] == x), "progress after abort",
              (sc.seen, x))
    sc.check_runs(k, 0, sc.ends[0], "run after abort")
    if len(sc.ends) > 1:
        sc.check_at(sc.ends[0], "Armed", "first run after abort")
    sc.finish(sc.ends[0], "scan after abort")
    ctx.cover("scan after abort")


WHEN = {"configured": None, "armed": None, "finished": None, "running": "Run",
        "pre run": "PreRun", "post run": "PostRunArmed", "last post run": "PostRunReady",
        "configuring": "Configure", "seeking": "Seek", "seeking in a run": "Seek",
        "resumed": "Run"}


def abort(ctx):
    """abort while configuring, armed, running (any progress, in each of the stages
    of a run), seeking, resumed or finished: the scan can be configured and done again
    from the start, with the same or other breakpoints"""
    p = ctx.params
    state = p["state"]
    hook = WHEN[state]
    block = [(hook, 1)] if hook else []
    if state == "resumed":
        block.append(("Run", 2))
    elif state == "seeking in a run":
        block.append(("Run", 1))
    sc = Scan(ctx, 2, p["nbp"], 2, block=block)
    futs = []
    if state == "configuring":
        futs.append(sc.fut)
        ctx.settle()
    elif state == "last post run":
        for i in range(len(sc.ends) - 1):
            sc.rig.block.run()
        futs.append(sc.rig.block.run_async())
        ctx.settle()
    elif state == "seeking":
        sc.rig.block.run()
        futs.append(sc.rig.block.pause_async(lastGoodStep=0))
        ctx.settle()
    elif hook:
        futs.append(sc.rig.block.run_async())
        ctx.settle()
        if state != "post run":
            prog = ctx.int("prog", 0, None)
            ctx.assume(prog <= sc.end_of(0))
            sc.report(0, prog)
        if state == "seeking in a run":
            futs.append(sc.rig.block.pause_async())
            ctx.settle()
            sc.ended = []
        elif state == "resumed":
            sc.rig.block.pause()
            sc.rig.block.resume()
            ctx.settle()
            sc.ended = []
    elif state == "armed":
        sc.rig.block.run()
    elif state == "finished":
        sc.finish(0, "before")
    t0 = time.time()
    sc.rig.block.abort()
    ctx.check(time.time() - t0 < 1.0, "abort doesn't wait for what has stopped")
    if hook:
        ctx.check(sorted(sc.ended) == ["p0", "p1"],
                  "what was going on has stopped before abort returns", sc.ended)
    after_abort(ctx, sc, futs, p.get("then"))


PAUSES = [
    dict(outer=2, nbp=0, first=0), dict(outer=2, nbp=0, first=1),
    dict(outer=2, nbp=0, first=0, seeks=1), dict(outer=2, nbp=0, first=1, seeks=1),
    dict(outer=1, nbp=1, first=0, seeks=1), dict(outer=1, nbp=1, first=1, seeks=1),
    dict(outer=1, nbp=2, first=0, parts=2), dict(outer=2, nbp=1, first=1),
    dict(outer=2, nbp=1, first=2),
    dict(outer=1, nbp=0, first=0, parts=2, reports=2),
    dict(outer=2, nbp=0, first=0, at="PreRun"), dict(outer=2, nbp=1, first=1, at="PreRun"),
    dict(outer=2, nbp=0, first=0, abort=True), dict(outer=2, nbp=1, first=1, seeks=1, abort=True),
]
SEEKS = [
    dict(outer=1, nbp=0, runs=0, seeks=2), dict(outer=2, nbp=0, runs=0, seeks=1),
    dict(outer=2, nbp=0, runs=1, seeks=2), dict(outer=2, nbp=0, runs=2, seeks=1),
    dict(outer=1, nbp=1, runs=0, seeks=1), dict(outer=1, nbp=2, runs=1, seeks=1, put=True),
    dict(outer=1, nbp=1, runs=2, seeks=1), dict(outer=2, nbp=1, runs=1, seeks=1),
    dict(outer=2, nbp=1, runs=4, seeks=1), dict(outer=2, nbp=0, runs=0, seeks=1, parts=2),
]
HARNESSES = {
    "seek": Harness(seek, quick=SEEKS,
                    thorough=SEEKS + [dict(outer=o, nbp=b, runs=r, seeks=s)
                                      for o in (1, 2, 3) for b in (0, 1, 2)
                                      for r in (0, 1, 2, 3) for s in (1, 2)],
                    must=["seek", "finished", "nothing to do"]),
    "pause": Harness(pause, quick=PAUSES,
                     thorough=PAUSES + [dict(outer=o, nbp=b, first=f, seeks=s, parts=q)
                                        for o in (1, 2) for b in (0, 1, 2)
                                        for f in (0, 1) for s in (0, 1, 2)
                                        for q in (1, 2) if o > f or b],
                     must=["paused", "seek while paused", "resumed to the end",
                           "resumed to the next segment"]),
    "abort": Harness(abort, quick=[dict(state=s, nbp=b) for s in WHEN for b in (0, 1)]
                     + [dict(state="running", nbp=1, then=0),
                        dict(state="armed", nbp=0, then=1)],
                     must=["scan after abort"]),
}
