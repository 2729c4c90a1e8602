"""Detectors in a scan"""
from symx.harness import Harness

from . import scanlib as L

TITLE = "Every detector is asked for the frames of every step"
ASSUMPTIONS = [
    "the detectors are real runnable blocks with a stand-in part that takes frames by "
    "itself, evenly over a second per step",
    "the generators are real; points and frames are concrete, exposures and durations of "
    "the detectors tables are exact reals",
    "the real cothread scheduler runs on a virtual clock, pauses between frames",
]

GENS = {
    "line": [("x", 4, False)],
    "grid": [("y", 2, False), ("x", 3, False)],
    "snake": [("y", 3, False), ("x", 2, True)],
}


def make_gen(name, duration=1.0):
    from scanpointgenerator import CompoundGenerator, LineGenerator

    return CompoundGenerator(
        [LineGenerator(a, "mm", 0, 1, n, alt) for a, n, alt in GENS[name]], [], [],
        duration=duration)


class Detector:
    """A detector that takes its frames when it is run"""

    def __init__(self, process, mri, readout=None, design=False, frame_time=1.0):
        from malcolm.modules.scanning.controllers import RunnableController
        from malcolm.modules.scanning.infos import RunProgressInfo
        from malcolm.modules.scanning.parts import DatasetTablePart, ExposureDeadtimePart

        self.log = []
        self.frames = []
        self.was = "Ready"
        self.time = frame_time

        def behave(part, hook, context):
            if hook == "Run":
                for i in range(part.start, part.start + part.todo):
                    context.sleep(self.time)
                    self.frames.append(i)
                    part.registrar.report(RunProgressInfo(i + 1))

        self.part = L.make_part("FRAMES", self.log, behave)
        self.controller = RunnableController(mri, L.scratch())
        self.controller.add_part(self.part)
        self.controller.add_part(DatasetTablePart("DSET"))
        if readout is not None:
            self.controller.add_part(ExposureDeadtimePart("DEAD", *readout))
        self.controller.add_part(param_part())
        process.add_controller(self.controller)
        self.block = self.controller.block_view()

    def segments(self):
        return [x for x in self.log if x[1] in ("Configure", "PostRunArmed", "Seek")]


def param_part():
    """Takes the directory and names, shows what it was given"""
    from annotypes import add_call_types

    from malcolm.core import Part
    from malcolm.modules.scanning import hooks as H

    class ParamPart(Part):
        given = None

        def setup(self, registrar):
            super().setup(registrar)
            registrar.hook(H.ConfigureHook, self.on_configure)
            registrar.report(H.ConfigureHook.create_info(self.on_configure))

        # noinspection PyPep8Naming
        @add_call_types
        def on_configure(self, generator: H.AGenerator, fileDir: H.AFileDir,
                         formatName: H.AFormatName = "det",
                         fileTemplate: H.AFileTemplate = "%s.h5") -> H.UInfos:
            from malcolm.modules.scanning.infos import DatasetProducedInfo
            from malcolm.modules.scanning.util import DatasetType

            self.given = dict(generator=generator, fileDir=fileDir,
                              formatName=formatName, fileTemplate=fileTemplate)
            return [DatasetProducedInfo(f"{formatName}.data", fileTemplate % formatName,
                                        DatasetType.PRIMARY, 3, "/a", "/b")]

    return ParamPart("PARAM")


def multi_part(mris):
    from annotypes import add_call_types

    from malcolm.core import Part
    from malcolm.modules.scanning import hooks as H
    from malcolm.modules.scanning.infos import DetectorMutiframeInfo

    class MultiPart(Part):
        def setup(self, registrar):
            super().setup(registrar)
            registrar.hook(H.ReportStatusHook, self.on_report_status)

        @add_call_types
        def on_report_status(self) -> H.UInfos:
            return [DetectorMutiframeInfo(m) for m in mris]

    return MultiPart("MULTI")


class Scan:
    def __init__(self, ctx, dets, multi, motion=False):
        """dets: {name: (readout or None, frame time)}"""
        from malcolm.core import Process
        from malcolm.modules.scanning.controllers import RunnableController
        from malcolm.modules.scanning.parts import DatasetTablePart, DetectorChildPart

        self.process = Process("proc")
        self.dets = {}
        c = self.controller = RunnableController("SCAN", L.scratch())
        self.log = []
        c.add_part(L.make_part("MOTION", self.log, L.nothing))
        for n, (readout, t) in dets.items():
            self.dets[n] = Detector(self.process, "M:" + n, readout, frame_time=t)
            c.add_part(DetectorChildPart(n, "M:" + n, True))
        c.add_part(multi_part(["M:" + n for n in multi]))
        c.add_part(DatasetTablePart("DSET"))
        self.process.add_controller(c)
        self.process.start()
        self.block = c.block_view()


def rows_table(rows):
    from malcolm.modules.scanning.util import DetectorTable

    return DetectorTable.from_rows(rows)


def frames(ctx):
    """2 detectors, taking part or not, with 1..3 frames per step each (the second slower
    or faster), a scan of 4 to 6 steps in 1 or 2 dimensions with breakpoints or not; sought
    anywhere when armed, or paused at any step and sought to any step of the run: each
    detector that takes part does all its frames of every step, in order"""
    import cothread

    p = ctx.params
    name = ctx.choice("gen", p["gens"])
    gen = make_gen(name)
    gen.prepare()
    f1 = ctx.choice("f1", p.get("f1", [1, 2, 3]))
    f2 = ctx.choice("f2", p.get("f2", [0, 1, 2]))
    off = ctx.choice("off", p.get("off", ["disabled"])) if f2 == 0 else None
    late = ctx.choice("late", p.get("late", [0.5]))
    sc = Scan(ctx, dict(A=(None, 1.0 / f1), B=(None, late / max(f2, 1))), ["A", "B"])
    b = sc.block
    if p.get("before"):
        fr = ctx.choice("frames before", [(1, 2), (3, 0), (0, 1)])
        L.earlier(ctx, b, ctx.choice("before", p["before"]),
                  generator=make_gen("grid"), axesToMove=["x", "y"], fileDir="/old",
                  breakpoints=[2, 3, 1],
                  detectors=rows_table([(k > 0, n, "M:" + n, 0.0, max(k, 1))
                                        for n, k in zip("AB", fr)]))
        for d in sc.dets.values():
            del d.frames[:]
            del d.log[:]
            if d.block.state.value != "Ready":
                d.was = d.block.state.value
        ctx.cover("before")
    rows = [(True, "A", "M:A", 0.0, f1)]
    if f2:
        rows.append((True, "B", "M:B", 0.0, f2))
    elif off == "disabled":
        rows.append((False, "B", "M:B", 0.0, 1))
    if p.get("swap"):
        rows.reverse()
    kw = {}
    if p.get("bp"):
        kw["breakpoints"] = ctx.choice(
            "bps", [x for x in p["bp"] if sum(x) <= gen.size])
        ctx.cover("breakpoints")
    move = [a for a in gen.axes if a in p.get("move", gen.axes)]
    if name == "snake" and max(f1, f2) > 1:
        # frames can't be added to an alternating dimension
        try:
            b.configure(generator=make_gen(name), axesToMove=move, fileDir="/dir",
                        detectors=rows_table(rows), **kw)
        except ValueError:
            ctx.check(not any(d.frames for d in sc.dets.values()), "frames are taken")
            ctx.cover("refused")
            return
    b.configure(generator=make_gen(name), axesToMove=move, fileDir="/dir",
                fileTemplate="x-%s.h5", detectors=rows_table(rows), **kw)
    parts = {"A": f1, "B": f2}
    for n, f in parts.items():
        d = sc.dets[n]
        if not f:
            # (it may be reset)
            ctx.check(not d.segments() and not d.frames
                      and d.block.state.value in ("Ready", d.was),
                      "a detector that does not take part is left alone", d.log)
            continue
        (given,) = [x.given for x in d.controller.parts.values()
                    if x.name == "PARAM"]
        ctx.check(given["fileDir"] == "/dir" and given["formatName"] == n
                  and given["fileTemplate"] == "x-%s.h5", "where a detector writes",
                  given)
        g = given["generator"]
        ctx.check(g.size == gen.size * f, "frames of the whole scan", (g.size, f))
        ctx.check([x.size for x in g.dimensions]
                  == [x.size for x in gen.dimensions[:-1]] + [gen.dimensions[-1].size * f],
                  "frames are added to the fastest dimension",
                  [x.size for x in g.dimensions])
        ctx.check(abs(g.duration * f - gen.duration) < 1e-9, "frames share the step",
                  (g.duration, f))
        for i in range(g.size):
            # point i of the detector is frame i % f of step i // f
            a, c = g.get_point(i).positions, gen.get_point(i // f).positions
            ctx.check(all(a[k] == c[k] for k in c), "the frames of a step are at its point",
                      (i, a, c))
    shown = [list(r)[:2] for r in b.datasets.value.rows()]
    ctx.check(shown == [[f"{n}.data", f"x-{n}.h5"] for n, f in parts.items() if f],
              "the datasets of the detectors are shown", shown)

    def check_segment(what):
        s, e = b.completedSteps.value, b.configuredSteps.value
        for n, f in parts.items():
            if f:
                seg = sc.dets[n].segments()[-1]
                ctx.check((seg[2], seg[3]) == (s * f, (e - s) * f),
                          f"{what}: a detector is set up for the frames of the same steps",
                          (n, f, seg, s, e))

    n_pauses = p["pauses"]
    want = {"A": [], "B": []}
    k = 0
    while b.state.value == "Armed":
        k += 1
        ctx.check(k < 30, "the scan ends")
        check_segment("armed")
        if n_pauses and p.get("armed"):
            n_pauses -= 1
            b.pause(lastGoodStep=int(ctx.int(f"seek{n_pauses}", -1, gen.size)))
            ctx.check(b.state.value == "Armed", "armed after a seek", b.state.value)
            continue
        f = b.run_async()
        start, end = b.completedSteps.value, b.configuredSteps.value
        while n_pauses and not p.get("armed"):
            first = b.completedSteps.value
            after = int(ctx.int(f"after{n_pauses}", 0, gen.size - 1))
            if first + after >= end:
                break
            n_pauses -= 1
            part = ctx.choice(f"part{n_pauses}", p.get("parts", [0.05]))
            before = {n: len(sc.dets[n].frames) for n in parts}
            cothread.Sleep(after + part)
            done = b.completedSteps.value
            req = int(ctx.int(f"seek{n_pauses}", -1, gen.size - 1))
            ctx.assume(req == -1 or start <= req < end)
            b.pause(lastGoodStep=req)
            ctx.check(b.state.value == "Paused", "paused", b.state.value)
            ctx.check(b.completedSteps.value == (done if req < 0 else req)
                      or done == end, "sought to", (b.completedSteps.value, done, req))
            ctx.cover("paused")
            for n, ff in parts.items():
                got = sc.dets[n].frames[before[n]:]
                ctx.check(got == list(range(first * ff, first * ff + len(got))),
                          "frames are taken in order", (n, got, first, ff))
                # steps shown as done have all their frames
                ctx.check(len(got) >= (done - first) * ff,
                          "steps shown as done have all their frames", (n, got, done))
                want[n] += got
            check_segment("paused")
            b.resume()
        first = b.completedSteps.value
        for n, ff in parts.items():
            want[n] += list(range(first * ff, end * ff))
        f.result(timeout=1000)
        ctx.check(b.completedSteps.value == end, "all steps of the run are done")
        for n in parts:
            ctx.check(sc.dets[n].frames == want[n], "each detector takes all its frames",
                      (n, sc.dets[n].frames, want[n]))
    ctx.check(b.state.value == "Finished", "the scan finishes", b.state.value)
    for n, ff in parts.items():
        s = sc.dets[n].block.state.value
        ctx.check(s in (("Finished",) if ff else ("Ready", sc.dets[n].was)),
                  "the detectors finish", (n, s))
    ctx.observe("frames", [sc.dets[n].frames for n in parts])


ACC = 50.0
Z = 0.0  # compared by identity, as exposures are symbolic


def table(ctx):
    """2 detectors, one of which takes an exposure (any readout time and minimum), with a
    trigger multiplier or not; rows in any order, missing, disabled or enabled with any
    exposure or none and 0 (to be chosen) to 3 frames; any duration or none: what is
    accepted fits, what fits is accepted and kept"""
    from malcolm.core import BadValueError

    p = ctx.params
    readout = ctx.real("readout", 0, 1)
    least = ctx.real("least", 0.01, 1)
    d = p["d"] if "d" in p else ctx.real("duration", 0.01, 100)
    multi = [n for n in "AB" if ctx.choice(f"multi{n}", p.get("multi", [False, True]))]
    sc = Scan(ctx, dict(A=((readout, ACC, least), 1.0), B=(None, 1.0)), multi)
    b = sc.block
    rows = {}
    for n in "AB":
        how = ctx.choice(f"row{n}", p[f"row{n}"])
        if how == "missing":
            continue
        fr = ctx.choice(f"frames{n}", p.get("frames", [0, 1, 3])) if how != "off" else 1
        if how == "exposure":
            e = ctx.real(f"exposure{n}", 0.001, 100)
        else:
            e = Z
        rows[n] = (how != "off", e, fr)
    if "A" in rows and rows["A"][0]:
        # whether a duration that is too short for the shortest exposure is refused
        # depends on the other parts, which might ask for a longer one
        ctx.assume((d / max(rows["A"][2], 1)) * (1 - ACC / 1e6) - readout >= least)
    order = sorted(rows, reverse=ctx.choice("reverse", [False, True]))
    dead = readout + ACC * d / 1e6

    def fits(e, f, tol):
        """A can do f frames of exposure e in a step"""
        each = (d / f) * (1 - ACC / 1e6) - readout
        return ctx.And(e >= least - tol, e <= each + tol)

    try:
        ret = b.validate(generator=make_gen("line", d), fileDir="/dir",
                         detectors=rows_table([(rows[n][0], n, "M:" + n, rows[n][1],
                                                rows[n][2]) for n in order]))
    except BadValueError as err:
        # for a reason
        why = []
        for n, (on, e, f) in rows.items():
            if not on:
                continue
            if f > 1 and n not in multi:
                why.append(True)
            if n == "B" and n not in multi and rows[n][1] is not Z:
                why.append(True)
            if n == "A" and (e is not Z):
                why.append(ctx.Not(fits(e, max(f, 1), -1e-9)))
                if f == 0 and n not in multi:
                    # more frames would fit, but can't be triggered
                    why.append(d >= 2 * (e + dead) - 1e-6)
        ctx.check(ctx.Or(*why) if why else False, "a table that can be done is refused",
                  (str(err), rows))
        ctx.cover("refused")
        return
    except KeyError:
        # asked to choose the frames of a detector that has no exposure
        ctx.check("B" in rows and rows["B"][2] == 0 and rows["B"][1] is not Z,
                  "a table is refused for no reason", rows)
        return
    got = {r[1]: r for r in ret.detectors.rows()}
    ctx.check(len(got) == len(list(ret.detectors.rows())) and set(got) == {"A", "B"},
              "each detector has a row", list(ret.detectors.rows()))
    ctx.check([r[1] for r in ret.detectors.rows()][: len(order)] == order,
              "rows stay in order")
    for n in "AB":
        on, name, mri, e2, f2 = got[n]
        ctx.check(mri == "M:" + n, "rows keep their block", mri)
        if n not in rows or not rows[n][0]:
            ctx.check(not on, "a detector that was not asked to take part does not")
            continue
        on0, e, f = rows[n]
        ctx.check(bool(on), "a detector that was asked to take part does")
        if f:
            ctx.check(f2 == f, "the number of frames is kept", (n, f, f2))
        ctx.check(f2 >= 1, "at least a frame per step", f2)
        if n not in multi:
            ctx.check(f2 == 1, "more frames than triggers", (n, f2))
        if e is not Z:
            ctx.check(e2 == e, "the exposure asked for is kept", (n, e, e2))
        if n == "A":
            for k in range(1, 4):
                if f2 == k:
                    ctx.check(fits(e2, k, 1e-9), "the frames fit in the step",
                              (d, e2, k, readout, least))
                    if e is Z:
                        ctx.check(ctx.Not(fits(e2, k, -1e-6)),
                                  "the exposure is as long as fits", (d, e2, k))
                    elif f == 0:
                        ctx.check(d < (k + 1) * (e2 + dead) + 1e-6,
                                  "as many frames as fit", (d, e2, k))
            ctx.cover("accepted")
        elif e is Z:
            ctx.check(e2 == 0, "no exposure for a detector that takes none", e2)
    ctx.check(ret.generator.duration == d, "the duration is kept")


def durations(ctx):
    """2 detectors with any readout times, 1..3 frames each, an exposure or none: when the
    scan has no duration, it gets the shortest in which all of them fit"""
    p = ctx.params
    frames_of = dict(A=ctx.choice("fA", p["fA"]), B=ctx.choice("fB", p["fB"]))
    r = {n: ctx.real(f"readout{n}", 0, 1) for n in "AB"}
    least = {n: ctx.real(f"least{n}", 0.01, 1) for n in "AB"}
    e = {n: Z if ctx.choice(f"given{n}", [0, 1]) == 0 else None for n in "AB"}
    for n in "AB":
        if e[n] is None:
            e[n] = ctx.real(f"exposure{n}", 0.01, 10)
            ctx.assume(e[n] >= least[n])
    sc = Scan(ctx, {n: ((r[n], ACC, least[n]), 1.0) for n in "AB"}, ["A", "B"])
    rows = [(frames_of[n] > 0, n, "M:" + n, e[n] if frames_of[n] else 0.0,
             max(frames_of[n], 1)) for n in "AB"]
    gen = make_gen("grid", 0.0)
    ret = sc.block.validate(generator=gen, fileDir="/dir", detectors=rows_table(rows))
    ctx.check(list(ret.generator.axes) == list(gen.axes)
              and len(ret.generator.generators) == len(gen.generators),
              "the scan keeps its points", list(ret.generator.axes))
    d = ret.generator.duration
    need = []
    for n in "AB":
        if frames_of[n]:
            ee = least[n] if e[n] is Z else e[n]
            need.append(frames_of[n] * (ee + r[n]) / (1 - ACC / 1e6))
    for x in need:
        ctx.check(d >= x - 1e-9, "the duration is long enough for the frames", (d, x))
    ctx.check(ctx.Or(*[d <= x * (1 + 1e-9) + 1e-9 for x in need]),
              "the duration is as short as possible", (d, need))
    got = {x[1]: x for x in ret.detectors.rows()}
    for n in "AB":
        if frames_of[n]:
            ctx.check(got[n][4] == frames_of[n], "frames are kept", got[n])
            e2 = got[n][3]
            if e[n] is not Z:
                ctx.check(e2 == e[n], "exposures are kept", (e2, e[n]))
            ctx.check(ctx.And(
                e2 >= least[n] - 1e-9,
                (e2 + r[n]) * frames_of[n] <= d * (1 - ACC / 1e6) + 1e-6),
                "exposures fit", (e2, d))
    ctx.cover("two" if len(need) > 1 else "one")


HARNESSES = {
    "durations": Harness(
        durations,
        quick=[dict(fA=[1], fB=[0, 1]), dict(fA=[2], fB=[0, 1, 3])],
        must=["two", "one"],
    ),
    "table": Harness(
        table,
        quick=[
            dict(rowA=["none"], rowB=["missing", "off", "none"], frames=[1, 3]),
            dict(rowA=["exposure"], rowB=["missing", "off"], frames=[1, 3]),
            dict(rowA=["exposure"], rowB=["none"], frames=[1, 2]),
            dict(rowA=["missing", "off"], rowB=["exposure", "none"], frames=[0, 1, 2]),
            dict(rowA=["none", "exposure"], rowB=["missing"], frames=[0], d=1.0),
            dict(rowA=["exposure"], rowB=["exposure"], frames=[0, 1], d=2.0,
                 multi=[True]),
        ],
        must=["refused", "accepted"],
    ),
    "frames": Harness(
        frames,
        quick=[
            dict(gens=["line", "grid", "snake"], pauses=0, off=["disabled", "missing"]),
            dict(gens=["grid", "snake"], pauses=0, move=["x"], swap=True),
            dict(gens=["line", "snake"], pauses=0, bp=[[1, 2], [2, 1], [3], [2]]),
            dict(gens=["line"], pauses=1, f1=[1], f2=[2], late=[0.5, 1.5]),
            dict(gens=["line"], pauses=1, f1=[2], f2=[0, 1], parts=[0.3, 0.05]),
            dict(gens=["line"], pauses=1, f1=[3], f2=[2], parts=[0.4]),
            dict(gens=["grid"], pauses=1, f1=[2], f2=[1], move=["x"]),
            dict(gens=["line"], pauses=1, f1=[2], f2=[1], bp=[[1, 2], [2]]),
            dict(gens=["line", "grid"], pauses=1, armed=True, f1=[2], f2=[1, 3]),
            dict(gens=["grid"], pauses=1, armed=True, f1=[2], f2=[1], move=["x"]),
            dict(gens=["line"], pauses=1, armed=True, f1=[2], f2=[1], bp=[[1, 2], [3]]),
            dict(gens=["line"], pauses=0, f1=[1, 2], before=["done", "reset"]),
            dict(gens=["line"], pauses=0, f1=[1, 2], before=["armed", "part"]),
            dict(gens=["line"], pauses=1, f1=[2], f2=[1], before=["part"]),
        ],
        thorough=[dict(gens=["line"], pauses=2, f1=[a], f2=[c], late=[0.5, 1.5],
                       parts=[0.05, 0.4]) for a in (1, 2, 3) for c in (0, 1, 2)]
        + [dict(gens=["grid"], pauses=2, f1=[a], f2=[c], move=["x"], armed=z)
           for a in (1, 2) for c in (0, 1) for z in (False, True)]
        + [dict(gens=["line"], pauses=2, f1=[a], f2=[c], armed=z, bp=[[1, 2], [2, 1], [2]])
           for a in (1, 2) for c in (0, 3) for z in (False, True)],
        must=["paused", "breakpoints"],
    ),
}
