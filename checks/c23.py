"""Files of a detector: frames at the place of their point"""
import os

from symx.harness import Harness

from . import adlib as A
from . import scanlib as L

TITLE = "Detector files have the shape of the scan"
ASSUMPTIONS = [
    "the driver, position labeller and HDF writer are stand-ins that do what the "
    "areaDetector plugins do: frames count up from the array counter, each gets the "
    "position at its id minus idStart, and goes to the indices that the writer's "
    "dimensions name; frames go down the chain at once",
    "the generators are real; their positions are concrete",
    "the real cothread scheduler runs on a virtual clock, a frame every second, pauses "
    "between frames",
]

GENS = {
    "line": [("x", 0, 1, 4, False)],
    "two": [("x", 3, 1, 2, False)],
    "one": [("x", -2.5, 3.25, 1, False)],
    "grid": [("y", 1e-7, 2e5, 2, False), ("x", 0, 1, 3, False)],
    "snake": [("y", -1, 1, 3, False), ("x", 0.1, 0.3, 2, True)],
    "deep": [("z", 0, 3, 2, False), ("y", 2, 1, 1, False), ("x", 0, 1, 2, True)],
    "spiral": "spiral",
}


def make_gen(name, duration=1.0):
    from scanpointgenerator import CompoundGenerator, LineGenerator, LissajousGenerator

    spec = GENS[name]
    if spec == "spiral":
        gens = [LineGenerator("e", "eV", 10, 11, 2),
                LissajousGenerator(["x", "y"], ["mm", "um"], [0, 0], [1, 2], 1, 3)]
    else:
        gens = [LineGenerator(a, "mm", s, e, n, alt) for a, s, e, n, alt in spec]
    return CompoundGenerator(gens, [], [], duration=duration)


def driver_part(kind):
    if kind == "tucsen":
        from malcolm.modules.ADTucsen.parts import TucsenDriverPart as P
    elif kind == "xmap":
        from malcolm.modules.xmap.parts import XmapDriverPart as P
    elif kind == "reframe":
        from malcolm.modules.adUtil.parts import ReframePluginPart as P
    elif kind == "tetramm":
        from malcolm.modules.ADTetrAMM.parts import TetrAMMDriverPart as P
    else:
        from malcolm.modules.ADEiger.parts import EigerDriverPart as P
    return P("DRV", "DRV")


class Chain:
    def __init__(self, ctx, windows=None, soft=False, useful=True, stats=None, dead=None,
                 kw=None, andor=False, kind=None):
        from malcolm.core import Process
        from malcolm.modules.ADCore import parts as P
        from malcolm.modules.scanning.controllers import RunnableController
        from malcolm.modules.scanning.parts import DatasetTablePart

        self.ctx = ctx
        self.sim = A.Sim()
        self.soft = soft
        self.process = Process("proc")
        cls = dict(xmap=A.Xmap, reframe=A.Reframe, tetramm=A.TetrAMM, eiger=A.Eiger).get(
            kind, A.Andor if andor else A.Driver)
        self.drv = cls(self.process, "DRV", self.sim)
        self.pos = A.Labeller(self.process, "POS", self.sim)
        self.hdf = A.Writer(self.process, "HDF", self.sim)
        if kind == "reframe":
            self.drv.set("triggerMode", "Always On" if soft else "Rising Edge")
            self.drv.set("triggerOffCondition", "Always On" if soft else "Rising Edge")
        else:
            self.drv.set("triggerMode", "Internal" if soft else "External")
        self.drv.sink, self.pos.sink = self.pos, self.hdf
        c = self.controller = RunnableController("DET", L.scratch())
        win = windows is not None
        drv = P.DetectorDriverPart("DRV", "DRV", soft_trigger_modes=["Internal"],
                                   main_dataset_useful=useful, runs_on_windows=win)
        if andor:
            from malcolm.modules.ADAndor.parts import AndorDriverPart

            drv = AndorDriverPart("DRV", "DRV")
        if kind:
            drv = driver_part(kind)
        self.motion = A.motion_part(self.sim, self.drv, soft)
        self.parts = [
            drv, P.PositionLabellerPart("POS", "POS"),
            P.HDFWriterPart("HDF", "HDF", runs_on_windows=win, **(kw or {})),
            DatasetTablePart("DSET"), self.motion]
        if win:
            self.parts.append(P.FilepathTranslatorPart("WIN", *windows))
        if stats is not None:
            self.stat = A.Stats(self.process, "STAT")
            self.parts.insert(1, P.StatsPluginPart("STAT", "STAT", stats, win))
        if dead:
            from malcolm.modules.scanning.parts import ExposureDeadtimePart

            self.parts.append(ExposureDeadtimePart("DEAD", *dead))
        for p in self.parts:
            c.add_part(p)
        self.process.add_controller(c)
        self.process.start()
        self.block = c.block_view()
        t = self.block.layout.value
        self.block.layout.put_value(dict(
            name=t.name, mri=t.mri, x=t.x, y=t.y, visible=[True] * len(t.name)))

    def file(self):
        """What is in the file: {index, slowest first: step the frame was taken at}"""
        return {tuple(reversed(k)): self.sim.frames[f][1]
                for k, f in self.hdf.file.items()}


def check_file(ctx, ch, gen, what, covered):
    shape = [d.size for d in gen.dimensions]
    ctx.check(list(reversed(ch.hdf.sizes)) == shape, f"{what}: shape of the file",
              (ch.hdf.sizes, shape))
    ctx.check(ch.hdf.opened["positionMode"] and ch.hdf.opened["fileWriteMode"] == "Stream",
              f"{what}: the writer places frames by their position")
    ctx.check(not ch.sim.bad, f"{what}: frames are inside the file", ch.sim.bad)
    f = ch.file()
    for n in sorted(covered):
        key = tuple(gen.get_point(n).indexes)
        ctx.check(f.get(key) == n, f"{what}: the frame of each point is at its place",
                  (n, key, f, ch.sim.dropped, ch.sim.missed))
    ctx.check(len(f) == len(covered), f"{what}: nothing else is in the file",
              (f, covered))


def seeks(ctx):
    """A scan of 1..6 points in 1..3 dimensions, snaked or not, triggered or not, with
    breakpoints or not, positions sent 1, 2 or 5000 at a time: paused after any number
    of frames and sought to any step of the run (once or twice), or sought anywhere when
    armed, then done to the end: every frame is at the place of its point"""
    import cothread

    from malcolm.modules.ADCore.parts import positionlabellerpart as PL

    p = ctx.params
    name = ctx.choice("gen", p["gens"])
    gen = make_gen(name)
    gen.prepare()
    soft = ctx.choice("soft", p.get("soft", [False, True]))
    old = PL.POSITIONS_PER_XML
    PL.POSITIONS_PER_XML = ctx.choice("batch", p.get("batch", [1, 2, 5000]))
    try:
        kind = ctx.choice("kind", p["kinds"]) if "kinds" in p else None
        ch = Chain(ctx, soft=soft, kind=kind)
        b = ch.block
        if p.get("before"):
            L.earlier(ctx, b, ctx.choice("before", p["before"]),
                      generator=make_gen(p.get("gen0", "snake")), axesToMove=["x", "y"],
                      fileDir=L.scratch(), breakpoints=[2, 1])
            del ch.drv.arms[:]
            ctx.cover("before")
        move = p.get("move", gen.axes)
        kw = {}
        if p.get("bp"):
            kw["breakpoints"] = ctx.choice("bps", [x for x in p["bp"]
                                                   if sum(x) <= gen.size])
        b.configure(generator=make_gen(name), axesToMove=[a for a in gen.axes if a in move],
                    fileDir=L.scratch(), **kw)
        n_pauses = p["pauses"]
        covered = set()
        while b.state.value == "Armed":
            s0 = b.completedSteps.value
            if n_pauses and p.get("armed"):
                req = int(ctx.int(f"seek{n_pauses}", -1, gen.size))
                n_pauses -= 1
                b.pause(lastGoodStep=req)
                ctx.check(b.state.value == "Armed", "armed after a seek", b.state.value)
                continue
            f = b.run_async()
            end = b.configuredSteps.value
            while n_pauses and not p.get("armed"):
                # after any number of the frames of this run
                k = int(ctx.int(f"after{n_pauses}", 0, gen.size - 1))
                done = b.completedSteps.value
                if done + k >= end:
                    break
                n_pauses -= 1
                cothread.Sleep(k + 0.5)
                covered |= set(range(done, done + k))
                ctx.check(b.completedSteps.value == done + k,
                          "steps shown are the frames written",
                          (b.completedSteps.value, done, k))
                req = int(ctx.int(f"seek{n_pauses}", -1, gen.size - 1))
                ctx.assume(ctx.And(req >= s0 - 0 if req >= 0 else True, req < end))
                b.pause(lastGoodStep=req)
                ctx.check(b.state.value == "Paused", "paused", b.state.value)
                ctx.cover("paused")
                cothread.Sleep(ctx.choice(f"gap{n_pauses}", p.get("gaps", [0.1])))
                b.resume()
            covered |= set(range(b.completedSteps.value, end))
            f.result(timeout=1000)
        ctx.check(b.state.value == "Finished", "the scan finishes", b.state.value)
        ctx.check(b.completedSteps.value == gen.size, "all steps are shown as done")
        check_file(ctx, ch, gen, "at the end", covered)
        for a in ch.drv.arms:
            ctx.check(a["numImages"] >= 1, "the detector is asked for frames", ch.drv.arms)
        ctx.observe("frames", [list(x) for x in ch.sim.frames])
    finally:
        PL.POSITIONS_PER_XML = old


def lost(ctx):
    """A scan of 4 points, the frame of any of them never taken or never written: the
    scan fails and never says that it did all steps"""
    gen = make_gen("line")
    ch = Chain(ctx)
    b = ch.block
    b.configure(generator=gen, axesToMove=["x"], fileDir=L.scratch())
    ch.sim.lose = (ctx.choice("where", ["driver", "writer"]), int(ctx.int("step", 0, 3)))
    try:
        b.run_async().result(timeout=1000)
    except Exception as e:
        ctx.check(b.state.value == "Fault", "a scan that lost a frame fails",
                  (b.state.value, repr(e)))
        ctx.check(b.completedSteps.value < 4, "all steps are shown as done although a "
                  "frame is missing", b.completedSteps.value)
    else:
        ctx.check(False, "a scan that lost a frame says it is done", ch.file())


def to_windows(path, drive, prefix, network):
    """The path as the detector sees it"""
    return ((network + path) if network else drive + ":" + path[len(prefix):]).replace(
        "/", "\\")


def files(ctx):
    """A scan of 1..6 points in 1..3 dimensions; 0..2 extra attributes of any type and
    source, a statistic or none, the frames useful or not, positions in the layout or in
    a file of their own, Linux or Windows with a drive or a network prefix, 3 templates:
    every dataset shown is in the file that it is shown in, as what it is shown as, and
    the files that were made for the scan are removed at reset"""
    import shutil
    import tempfile

    import h5py
    from xml.etree import ElementTree as ET

    from malcolm.modules.ADCore.util import (
        AttributeDatasetType as T,
        DataType as DT,
        SourceType as ST,
        StatisticsName,
    )

    p = ctx.params
    gen = make_gen(ctx.choice("gen", p["gens"]))
    gen.prepare()
    base = tempfile.mkdtemp(dir=L.scratch())
    here = os.getcwd()
    try:
        os.chdir(base)
        # the same names again, and one that only starts the same
        file_dir = base + ctx.choice("dir", p.get("dirs", [""]))
        os.makedirs(file_dir, exist_ok=True)
        win = None
        if p.get("win"):
            prefix = base + ctx.choice("prefix", p["prefix"])
            win = (ctx.choice("drive", ["Z", "C"]), prefix,
                   ctx.choice("network", ["", "//dc"]))
        stats = ctx.choice("stats", p.get("stats", [None]))
        useful = ctx.choice("useful", p.get("useful", [True]))
        demand = ctx.choice("demand", p.get("demand", [False]))
        fmt, template, slash = ctx.choice("names", p.get("names", [
            ["det", "%s.h5", ""], ["a-b_1", "x-%s.2.hdf", "/"]]))
        ch = Chain(ctx, windows=win, useful=useful,
                   stats=stats and getattr(StatisticsName, stats),
                   kw=dict(remove_demand_positions_from_xml=demand))
        rows = []
        for i in range(ctx.choice("rows", p.get("rows", [0]))):
            src, dt = ctx.choice(f"src{i}", p.get("sources", [
                ["PV", "INT"], ["PV", "DOUBLE"], ["PV", "STRING"], ["PV", "DBRNATIVE"],
                ["PARAM", "INT"], ["PARAM", "DOUBLE"], ["PARAM", "STRING"]]))
            src, dt = ST[src], DT[dt]
            typ = ctx.choice(f"type{i}", [T.DETECTOR, T.MONITOR, T.POSITION])
            rows.append((f"n{i}", f"S:{i}<&", f"desc {i}", src, dt, typ))
        b = ch.block
        if rows:
            cols = list(zip(*rows))
            b.attributesToCapture.put_value(dict(
                name=cols[0], sourceId=cols[1], description=cols[2], sourceType=cols[3],
                dataType=cols[4], datasetType=cols[5]))
        try:
            b.configure(generator=gen, axesToMove=gen.axes, fileDir=file_dir + slash,
                        formatName=fmt, fileTemplate=template)
        except AssertionError:
            ctx.check(win and not (file_dir + "/").startswith(win[1] + "/"),
                      "a scan is refused", (file_dir, win))
            ctx.cover("refused")
            return
        if win:
            ctx.check((file_dir + "/").startswith(win[1] + "/"),
                      "a directory that is not under the prefix is refused",
                      (file_dir, win, ch.hdf.get("filePath")))
            seen = lambda path: to_windows(path, *win)  # noqa
            ctx.cover("windows")
        else:
            seen = lambda path: path  # noqa
        made = []
        # where the detector is told to write
        name = template % fmt
        got = ch.hdf.opened["filePath"]
        ctx.check(got[:-1] == seen(file_dir) and got[-1] in "/\\",
                  "the file is in the directory of the scan", (got, seen(file_dir)))
        ctx.check(ch.hdf.opened["fileTemplate"] == "%s" + template
                  and ch.hdf.opened["fileName"] == fmt, "the file has the name asked for",
                  (ch.hdf.opened["fileTemplate"], ch.hdf.opened["fileName"]))

        def read(pv, what):
            """What is in the file that a PV says"""
            for f in os.listdir(file_dir):
                f = os.path.join(file_dir, f)
                if seen(f) == pv or pv == f and not win:
                    made.append(f)
                    with open(f) as fd:
                        return fd.read()
            ctx.check(False, f"{what} is where the detector looks for it",
                      (pv, os.listdir(file_dir)))

        tree = A.layout_tree(read(ch.hdf.opened["xmlLayout"], "the layout"))
        links = {k: e for k, e in tree.items() if e.tag == "hardlink"}
        for k, e in links.items():
            ctx.check(tree.get(e.get("target")) is not None
                      and tree[e.get("target")].tag == "dataset",
                      "links go to a dataset", (k, e.get("target")))
        attr_files = {}
        if rows:
            r = ET.fromstring(read(ch.drv.get("attributesFile"), "the attributes file"))
            dbr = {DT.INT: "DBR_LONG", DT.DOUBLE: "DBR_DOUBLE", DT.STRING: "DBR_STRING",
                   DT.DBRNATIVE: "DBR_NATIVE"}
            for (n, sid, desc, src, dt, typ), e in zip(rows, r):
                attr_files[n] = sid
                ctx.check(e.get("name") == n and e.get("source") == sid
                          and e.get("type") == ("EPICS_PV" if src is ST.PV else "PARAM")
                          and (e.get("dbrtype") == dbr[dt] if src is ST.PV
                               else e.get("datatype") == dt.value),
                          "the detector captures the attributes asked for",
                          (n, sid, dict(e.attrib)))
            ctx.check(len(list(r)) == len(rows), "and only those")
        if stats:
            r = ET.fromstring(read(ch.stat.get("attributesFile"), "the statistic"))
            (e,) = list(r)
            attr_files[e.get("name")] = e.get("source")
            ctx.check(e.get("source") == StatisticsName[stats].value
                      and ch.stat.get("computeStatistics") and ch.stat.get("enableCallbacks"),
                      "the statistic is calculated")
        # what is shown
        table = list(b.datasets.value.rows())
        nd = len(gen.dimensions)
        want = {}
        if useful:
            want[f"{fmt}.data"] = ("primary", nd + 2)
            if stats:
                want[f"{fmt}.{stats.lower()}"] = ("secondary", nd)
        for n, sid, desc, src, dt, typ in rows:
            if typ is T.POSITION:
                want[f"{n}.value"] = ("position_value", nd)
            else:
                want[f"{n}.data"] = ("primary" if typ is T.DETECTOR else "monitor", nd)
        for a in gen.axes:
            want[f"{a}.value_set"] = ("position_set", 1)
        shown = {r[0]: r for r in table}
        ctx.check(len(shown) == len(table) and set(shown) == set(want),
                  "the datasets shown are those of the scan", (sorted(shown), sorted(want)))
        extra_sets = {}
        for n, fname, typ, rank, path, uid in table:
            ctx.check((typ.value, int(rank)) == want[n], "type and rank of a dataset",
                      (n, typ, rank, want[n]))
            if typ.value == "position_set":
                axis = n[: -len(".value_set")]
                (dim,) = [d for d in gen.dimensions if axis in d.axes]
                pts = [float(x) for x in dim.get_positions(axis)]
                if fname == name:
                    e = tree.get(path)
                    ctx.check(e is not None and e.get("source") == "constant",
                              "positions shown are in the layout", path)
                    vals = [float(x) for x in e.get("value").split(",")]
                    ctx.check(len(vals) == len(pts)
                              and all(abs(x - y) <= 1e-11 * max(abs(x), abs(y))
                                      for x, y in zip(vals, pts)),
                              "positions in the layout are those of the scan", (vals, pts))
                    units = [c.get("value") for c in e if c.get("name") == "units"]
                    ctx.check(units == [gen.units[axis]], "units of the positions", units)
                else:
                    extra_sets[axis] = (os.path.join(file_dir, fname), path, pts)
                continue
            ctx.check(fname == name, "the file of a dataset", (n, fname, name))
            e = tree.get(path)
            ctx.check(e is not None and e.tag == "dataset", "a dataset shown is in the file",
                      (n, path, sorted(tree)))
            if n == f"{fmt}.data":
                ctx.check(e.get("source") == "detector"
                          and e.get("det_default") == "true", "the frames are stored")
            else:
                ctx.check(e.get("source") == "ndattribute"
                          and e.get("ndattribute") in attr_files,
                          "an attribute that is captured is stored",
                          (n, dict(e.attrib), attr_files))
                want_attr = n.rsplit(".", 1)[0] if typ.value != "secondary" else (
                    "STATS_" + StatisticsName[stats].value)
                ctx.check(e.get("ndattribute") == want_attr,
                          "an attribute is stored under its own name",
                          (n, e.get("ndattribute")))
            e = tree.get(uid)
            ctx.check(e is not None and e.get("ndattribute") == "NDArrayUniqueId",
                      "the unique ids are stored", uid)
        ctx.check(all(k.split("/")[-1] in {f"{a}_set" for a in gen.axes}
                      for k in links), "links are to positions", sorted(links))
        # the frames themselves are stored even if they are not shown
        ctx.check(any(e.get("det_default") == "true" for e in tree.values()),
                  "frames have a place in the file")
        ctx.check(bool(extra_sets) == bool(demand), "where the positions are",
                  (extra_sets, demand))
        b.abort()
        b.reset()
        for axis, (f, path, pts) in extra_sets.items():
            ctx.check(os.path.isfile(f), "the file of the positions exists",
                      (f, os.listdir(file_dir), os.listdir(".")))
            with h5py.File(f, "r") as h:
                vals = [float(x) for x in h[path][()]]
                ctx.check(vals == pts, "positions in their file are those of the scan",
                          (vals, pts))
                ctx.check(h[path].attrs["units"] == gen.units[axis], "their units")
        for f in made:
            ctx.check(not os.path.exists(f), "files made for the scan are removed", f)
        ctx.observe("rows", [[x if isinstance(x, str) else str(x) for x in r]
                             for r in table])
    finally:
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)


ALL = ["line", "one", "grid", "snake", "deep", "spiral"]
HARNESSES = {
    "lost": Harness(lost),
    "files": Harness(
        files,
        quick=[
            dict(gens=ALL, rows=[0], stats=[None, "SUM"], useful=[True, False],
                 demand=[False, True]),
            dict(gens=["grid"], rows=[1], stats=[None, "MIN_X"], useful=[True, False]),
            dict(gens=["grid"], rows=[2], stats=["NET"], names=[["d", "%s.h5", ""]],
                 sources=[["PV", "INT"], ["PARAM", "DOUBLE"]]),
            dict(gens=["snake"], win=True, prefix=["", "/d"], demand=[False, True],
                 dirs=["", "/d", "/d_sw", "/d/d/d"], stats=["SUM"],
                 names=[["d", "%s.h5", ""]]),
            dict(gens=["one"], win=True, prefix=["/d"], dirs=["/d/d_s/d"], rows=[1],
                 stats=[None, "SUM"], names=[["d", "%s.h5", "/"]]),
        ],
        must=["refused", "windows"],
    ),
    "seeks": Harness(
        seeks,
        quick=[
            dict(gens=["line", "grid", "snake", "deep", "spiral", "one"], pauses=0),
            dict(gens=["line"], pauses=1, soft=[True]),
            dict(gens=["line"], pauses=1, soft=[False]),
            dict(gens=["snake"], pauses=1, soft=[True], batch=[2]),
            dict(gens=["snake"], pauses=1, soft=[False], batch=[2]),
            dict(gens=["grid"], pauses=1, move=["x"]),
            dict(gens=["line"], pauses=1, batch=[2], bp=[[1, 2], [2, 1], [3], [2]]),
            dict(gens=["snake"], pauses=1, batch=[5000], bp=[[1, 2], [2]]),
            dict(gens=["line", "snake", "deep"], pauses=1, batch=[2], armed=True),
            dict(gens=["grid"], pauses=2, armed=True, batch=[2], move=["x"]),
            dict(gens=["one"], pauses=2, batch=[2]),
            dict(gens=["two"], pauses=2, batch=[2]),
            dict(gens=["line"], pauses=0, before=["done", "reset", "armed", "part"]),
            dict(gens=["line"], pauses=1, batch=[2], soft=[False], before=["done", "part"]),
            dict(gens=["line", "grid"], pauses=1, batch=[2], kinds=["tucsen", "reframe"],
                 move=["x"]),
            dict(gens=["line"], pauses=1, batch=[2], kinds=["tucsen", "reframe"],
                 bp=[[1, 2], [2]]),
            dict(gens=["line", "grid"], pauses=1, batch=[2], kinds=["xmap"], soft=[False],
                 move=["x"]),
            dict(gens=["line"], pauses=1, batch=[2], kinds=["xmap"], soft=[False],
                 bp=[[1, 2], [2]]),
            dict(gens=["line", "snake"], pauses=1, batch=[2], kinds=["eiger", "tetramm"],
                 soft=[False]),
        ],
        thorough=[
            dict(gens=[g], pauses=2, soft=[soft], batch=[b])
            for g in ("line", "grid", "snake", "deep") for soft in (False, True)
            for b in (1, 2)
        ] + [
            dict(gens=["line", "snake"], pauses=2, soft=[soft], batch=[2],
                 bp=[[1, 2], [2, 1], [3], [2]]) for soft in (False, True)
        ] + [dict(gens=["line", "snake", "grid", "deep"], pauses=3, soft=[soft], batch=[2],
                  armed=True, move=["x"]) for soft in (False, True)],
        must=["paused"],
    ),
}
