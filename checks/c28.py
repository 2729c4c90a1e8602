"""The PandA in a scan: gates for the frames, datasets for the captures"""
from symx.harness import Harness

from . import c24
from . import scanlib as L

TITLE = "The PandA gates every frame and names what it captures"
ASSUMPTIONS = [
    "the PandA is a real manager of stand-in PULSE blocks (and, for the datasets, the real "
    "busses part with a client that records what is set); the detectors are real runnable "
    "blocks with a stand-in part that takes the frames",
    "durations, exposures and readout times are exact reals; points are concrete",
]

FIELDS = ("step", "width", "delay", "pulses")


def pulse_part(log, units):
    from malcolm.core import NumberMeta, Part, StringMeta

    class PulsePart(Part):
        def setup(self, registrar):
            super().setup(registrar)
            for f in FIELDS:
                attr = NumberMeta("float64", writeable=True).create_attribute_model()

                def put(value, f=f, attr=attr):
                    log.append((f, value))
                    attr.set_value(value)

                registrar.add_attribute_model(f, attr, put)
                if f != "pulses":
                    registrar.add_attribute_model(
                        f + "Units",
                        StringMeta("units").create_attribute_model(units.get(f, "s")))

    return PulsePart("part")


class World:
    """A scan with detectors, each with its own PULSE block in the PandA"""

    def __init__(self, ctx, dets, exports, units=None, zero=()):
        """dets: {name: readout or None}"""
        from malcolm.core import Process
        from malcolm.modules.ADPandABlocks.blocks import panda_pulse_trigger_block
        from malcolm.modules.ADPandABlocks.parts import PandAPulseTriggerPart
        from malcolm.modules.builtin.controllers import BasicController, ManagerController
        from malcolm.modules.builtin.parts import ChildPart
        from malcolm.modules.builtin.util import ExportTable
        from malcolm.modules.scanning.controllers import RunnableController
        from malcolm.modules.scanning.parts import DatasetTablePart, DetectorChildPart

        self.ctx = ctx
        p = self.process = Process("proc")
        self.log = {}
        panda = self.panda = ManagerController("PANDA", L.scratch())
        for i in (1, 2, 3):
            n = f"PULSE{i}"
            self.log[n] = []
            c = BasicController(f"PANDA:{n}")
            c.add_part(pulse_part(self.log[n], (units or {}).get(n, {})))
            p.add_controller(c)
            panda.add_part(ChildPart(n, f"PANDA:{n}", initial_visibility=True,
                                     stateful=False))
        p.add_controller(panda)
        s = self.scan = RunnableController("SCAN", L.scratch())
        s.add_part(L.make_part("MOTION", [], L.nothing))
        self.dets = {}
        for n, readout in dets.items():
            self.dets[n] = c24.Detector(p, "M:" + n, readout)
            for c in panda_pulse_trigger_block("SCAN:" + n, panda="PANDA",
                                               detector="M:" + n):
                p.add_controller(c)
            s.add_part(DetectorChildPart(n, "M:" + n, True))
            s.add_part(PandAPulseTriggerPart(
                n.lower() + "Trigger", "SCAN:" + n, zero_delay=n in zero))
        s.add_part(DatasetTablePart("DSET"))
        p.add_controller(s)
        p.start()
        self.block = s.block_view()
        panda.block_view().exports.put_value(ExportTable.from_rows(exports))

    def take(self):
        """What was put since the last time"""
        ret = {k: list(v) for k, v in self.log.items()}
        for v in self.log.values():
            del v[:]
        return ret


def exports_of(n, pulse):
    return [(f"{pulse}.{f}", n.lower() + "Trigger" + f.title()) for f in FIELDS]


READ = (0.25, 0.0, 0.01)  # readout time, clock accuracy, shortest exposure


def gates(ctx):
    """2 detectors, one of which may show no exposure, each taking part or not with 1 to 4
    frames per step; any duration and exposures; configured twice, with other numbers the
    second time: every frame has one gate of the exposure that the detector has, within
    its share of the step"""
    p = ctx.params
    zero = ctx.choice("zero", p.get("zero", [(), ("A",)]))
    d = {"A": READ, "B": READ if ctx.choice("has", p["has"]) else None}
    w = World(ctx, d, exports_of("A", "PULSE2") + exports_of("B", "PULSE1"), zero=zero)
    pulse = dict(A="PULSE2", B="PULSE1")
    b = w.block
    w.take()
    for i in range(p["scans"]):
        T = ctx.real(f"duration{i}", 1, 100)
        rows = []
        frames = {}
        for n in "AB":
            f = frames[n] = ctx.choice(f"frames{n}{i}", p[f"f{n}"])
            e = 0.0
            if f and d[n] and ctx.choice(f"given{n}{i}", p.get("given", [0, 1])):
                e = ctx.real(f"exposure{n}{i}", 0.01, 100)
                ctx.assume(e + READ[0] <= T / f)
            elif f and d[n]:
                ctx.assume(T / f - READ[0] >= 0.01)
            if f or ctx.choice(f"row{n}{i}", [True, False]):
                rows.append((f > 0, n, "M:" + n, e, max(f, 1)))
        b.configure(generator=c24.make_gen("line", T), axesToMove=["x"], fileDir="/dir",
                    detectors=c24.rows_table(rows))
        ctx.check(b.state.value == "Armed", "armed", b.state.value)
        put = w.take()
        ctx.check(not put["PULSE3"], "another pulse block is touched", put)
        for n in "AB":
            got = put[pulse[n]]
            if not frames[n]:
                ctx.check(not got, "the pulse block of a detector that does not take "
                          "part is left alone", got)
                continue
            ctx.check(sorted(x[0] for x in got) == sorted(FIELDS),
                      "everything is set, once", [x[0] for x in got])
            v = dict(got)
            f = frames[n]
            ctx.check(v["pulses"] == f, "one gate for each frame", (n, v["pulses"], f))
            ctx.check(abs(v["step"] * f - T) < 1e-6, "the frames share the step",
                      (n, v["step"], f, T))
            if d[n]:
                want = w.dets[n].block.exposure.value
                ctx.check(v["width"] == want, "the gate is as long as the exposure",
                          (n, v["width"], want))
                ctx.cover("exposure")
            else:
                ctx.check(ctx.And(v["width"] < v["step"], v["width"] > v["step"] - 1e-5),
                          "without an exposure the gate fills the frame", v)
                ctx.cover("no exposure")
            ctx.check(ctx.And(v["delay"] >= 0, v["delay"] + v["width"] <= v["step"]),
                      "the gate is within the frame", v)
            if n in zero:
                ctx.check(v["delay"] == 0, "no delay", v)
            else:
                ctx.check(abs(v["delay"] * 2 + v["width"] - v["step"]) < 1e-9,
                          "the gate is in the middle of the frame", v)
        b.abort()
        b.reset()
        ctx.check(not any(w.take().values()), "abort and reset touch the PandA")


def wiring(ctx):
    """Exports that are missing, wired to more than one PULSE block, or in other units:
    a scan with a detector that would be triggered wrongly is refused, any other is not"""
    p = ctx.params
    ex = []
    right = True
    for f in FIELDS:
        src = ctx.choice(f"src{f}", p["src"])
        if src == "none":
            right = False
            continue
        ex.append((f"{src}.{f}", "aTrigger" + f.title()))
    pulses = {s.split(".")[0] for s, _ in ex}
    if len(pulses) != 1:
        right = False
    units = {}
    if right:
        bad = ctx.choice("bad", [None, "step", "width", "delay"])
        where = ctx.choice("where", ["PULSE1", "PULSE2"])
        if bad:
            units = {where: {bad: "ms"}}
            right = where not in pulses
    ex += exports_of("B", "PULSE3")
    if ctx.choice("reverse", [False, True]):
        ex.reverse()
    w = World(ctx, {"A": READ, "B": READ}, ex, units=units)
    w.take()
    b = w.block
    T = ctx.real("duration", 1, 10)
    refused = False
    try:
        b.configure(generator=c24.make_gen("line", T), axesToMove=["x"], fileDir="/dir",
                    detectors=c24.rows_table([(True, "A", "M:A", 0.0, 1),
                                              (True, "B", "M:B", 0.0, 1)]))
    except AssertionError:
        refused = True
    put = w.take()
    ctx.check(refused == (not right), "wrong wiring is refused, right wiring is not",
              (ex, units, refused))
    if refused:
        ctx.check(b.state.value == "Fault", "at fault", b.state.value)
        ctx.check(not any(put.values()), "nothing is set", put)
        ctx.cover("refused")
    else:
        for pn, v in put.items():
            want = sorted(FIELDS) if pn in pulses or pn == "PULSE3" else []
            ctx.check(sorted(x[0] for x in v) == want, "the right block is set", (pn, v))
        ctx.cover("accepted")


# Datasets ---------------------------------------------------------------------------


class Client:
    def __init__(self):
        self.sets = []
        self.fail = False

    def set_fields(self, values):
        if self.fail:
            raise OSError("refused")
        self.sets.append(dict(values))


def collector():
    from annotypes import add_call_types

    from malcolm.core import Part
    from malcolm.modules.scanning import hooks as H

    class Collector(Part):
        infos = None

        def setup(self, registrar):
            super().setup(registrar)
            registrar.hook(H.ConfigureHook, self.on_configure)

        @add_call_types
        def on_configure(self, part_info: H.APartInfo) -> H.UInfos:
            from malcolm.modules.ADCore.infos import NDAttributeDatasetInfo

            self.infos = NDAttributeDatasetInfo.filter_values(part_info)
            return []

    return Collector("COLLECT")


BITS = {"PCAP.BITS0": ["TTLIN1.VAL", "", "TTLIN2.VAL"], "PCAP.BITS1": ["SEQ1.OUTA"]}
BIT_NAMES = ["TTLIN1.VAL", "TTLIN2.VAL", "SEQ1.OUTA"]
POS = ["INENC1.VAL", "COUNTER1.OUT"]


def datasets(ctx):
    """Any of 3 bits and 2 positions captured in every way, with dataset names and types
    or none, set by a put or changed at the box, in 1 or 2 steps: what is reported at the
    next configure are exactly the datasets of what is captured and named"""
    from malcolm.core import Process, TimeStamp
    from malcolm.modules.ADCore.util import AttributeDatasetType as T
    from malcolm.modules.ADPandABlocks.parts.pandadatasetbussespart import (
        PandADatasetBussesPart,
    )
    from malcolm.modules.pandablocks.util import PositionCapture as C
    from malcolm.modules.scanning.controllers import RunnableController
    from malcolm.modules.scanning.util import DatasetType as D

    p = ctx.params
    client = Client()
    part = PandADatasetBussesPart("busses", client)
    coll = collector()
    c = RunnableController("PANDA", L.scratch())
    for x in (part, coll, L.make_part("MOTION", [], L.nothing)):
        c.add_part(x)
    process = Process("proc")
    process.add_controller(c)
    process.start()
    part.create_busses({k: list(v) for k, v in BITS.items()}, list(POS))
    b = c.block_view()
    types = [T.DETECTOR, T.MONITOR, T.POSITION]
    # what we think is there
    bits = {n: [False, "", T.MONITOR] for n in BIT_NAMES}
    poss = {n: [C.NO, "", T.POSITION if n.startswith("INENC") else T.MONITOR]
            for n in POS}
    caps = [C(x) for x in p["caps"]]
    for k, op in enumerate(p["ops"]):
        if op == "put bits":
            t = b.bits.value
            new = {x: list(t[x]) for x in t}
            n = ctx.choice(f"bit{k}", p.get("bits", BIT_NAMES))
            i = BIT_NAMES.index(n)
            cap = ctx.choice(f"cap{k}", [True, False])
            changed = bool(bits[n][0]) != cap
            new["capture"][i] = cap
            new["datasetName"][i] = ctx.choice(f"name{k}", ["b", ""])
            new["datasetType"][i] = ctx.choice(f"type{k}", types)
            before = len(client.sets)
            b.bits.put_value(t.__class__(**new))
            bits[n] = [cap, new["datasetName"][i], new["datasetType"][i]]
            field = [f for f, v in BITS.items() if n in v][0]
            if changed:
                sent = {}
                for x in client.sets[before:]:
                    sent.update(x)
                others = any(bits[o][0] for o in BITS[field] if o and o != n)
                want = "Value" if cap or others else "No"
                ctx.check(sent.get(field) == want, "the capture of the bit is set",
                          (sent, field, want))
                for f, v in sent.items():
                    if f != field:
                        have = any(bits[o][0] for o in BITS[f] if o)
                        ctx.check(v == ("Value" if have else "No"),
                                  "the captures of other bits stay", (sent, f))
            else:
                ctx.check(len(client.sets) == before, "nothing to set", client.sets)
        elif op == "put positions":
            t = b.positions.value
            new = {x: list(t[x]) for x in t}
            n = ctx.choice(f"pos{k}", p.get("poss", POS))
            i = POS.index(n)
            cap = ctx.choice(f"cap{k}", caps)
            new["capture"][i] = cap
            new["datasetName"][i] = ctx.choice(f"name{k}", ["x", ""])
            new["datasetType"][i] = ctx.choice(f"type{k}", types)
            b.positions.put_value(t.__class__(**new))
            poss[n] = [cap, new["datasetName"][i], new["datasetType"][i]]
            sent = {}
            for x in client.sets:
                sent.update(x)
            for o in POS:
                f = o + ".CAPTURE"
                if f in sent:
                    ctx.check(sent[f] == poss[o][0].value, "the capture is set",
                              (sent, o))
        elif op == "box":
            n = ctx.choice(f"pos{k}", p.get("poss", POS))
            cap = ctx.choice(f"cap{k}", caps)
            changes = {n + ".CAPTURE": cap.value}
            poss[n][0] = cap
            field = ctx.choice(f"field{k}", list(BITS) + [""])
            if field:
                on = ctx.choice(f"on{k}", ["No", "Value"])
                changes[field] = on
                for o in BITS[field]:
                    if o:
                        bits[o][0] = on == "Value"
            part.handle_changes(changes, TimeStamp())
            # the puts made so far no longer say what is there
            client.sets.append(dict(changes))
    b.configure(generator=c24.make_gen("line"), axesToMove=["x"])
    got = sorted((i.name, i.type.name, i.attr) for i in coll.infos)
    want = []
    kinds = {T.DETECTOR: (".data", D.PRIMARY), T.MONITOR: (".data", D.MONITOR),
             T.POSITION: (".value", D.POSITION_VALUE)}
    for n, (cap, name, typ) in bits.items():
        if cap and name:
            s, dt = kinds[typ]
            want.append((name + s, dt.name, n))
            ctx.cover("bit")
    for n, (cap, name, typ) in poss.items():
        if cap is C.NO or not name:
            continue
        parts = cap.value.split(" ")
        s, dt = kinds[typ]
        if len(parts) == 1:
            want.append((name + s, dt.name, f"{n}.{parts[0]}"))
            ctx.cover("position")
            continue
        for x in parts:
            if x == "Min":
                want.append((name + ".min", D.POSITION_MIN.name, f"{n}.Min"))
            elif x == "Max":
                want.append((name + ".max", D.POSITION_MAX.name, f"{n}.Max"))
            else:
                want.append((name + s, dt.name, f"{n}.{x}"))
        ctx.cover("min and max")
    ctx.check(got == sorted(want), "the datasets are those that are captured and named",
              (got, sorted(want)))
    ctx.observe("datasets", got)


# Kinematics -------------------------------------------------------------------------


class Blocks:
    """A context in which every block is a stand-in"""

    def __init__(self, blocks):
        self.blocks = blocks

    def block_view(self, mri):
        return self.blocks[mri]


RAW = {"m1": 1, "m2": 12}  # raw motor: axis number
COMPOUND = {"x": "A", "y": "Y"}  # compound motor: coordinate system axis
Q = {"A": 1, "B": 2, "C": 3, "U": 4, "V": 5, "W": 6, "X": 7, "Y": 8, "Z": 9}


def kinematics(ctx):
    """2 raw motors under 2 compound ones, either or both of which are scanned; the
    encoders anywhere in the positions table, captured in any way; configured once or
    twice: the file for the forward kinematics links the variables of every raw motor to
    its dataset and has the program and variables, and the datasets that are shown are in
    the file they are shown in"""
    import os

    import h5py
    from malcolm.modules.ADPandABlocks.parts.kinematicssavupart import KinematicsSavuPart
    from malcolm.modules.ADPandABlocks.util import DatasetPositionsTable
    from malcolm.modules.builtin.util import LayoutTable
    from malcolm.modules.pandablocks.util import PositionCapture as C
    from malcolm.modules.scanning.infos import DatasetProducedInfo
    from malcolm.modules.scanning.util import DatasetType as D

    from . import pmaclib as M

    p = ctx.params
    d = os.path.join(L.scratch(), "kin")
    os.makedirs(d, exist_ok=True)
    motors = {n: M.motor_block("CS1,I") for n in RAW}
    motors.update({n: M.motor_block(f"CS1,{a}") for n, a in COMPOUND.items()})
    motors["z"] = M.motor_block("CS2,X")
    for n, k in dict(RAW, z=3).items():
        motors[n].axisNumber = M.Attr(k)
    names = list(motors)
    pmac = M.Block(layout=LayoutTable(
        name=names, mri=["M:" + n for n in names], x=[0.0] * 5, y=[0.0] * 5,
        visible=[True] * 5))
    panda = M.Block(positions=None)
    status = M.Block(iVariables="I12=3 I13=$FF", pVariables="P4801=0.5 P4912=7",
                     mVariables="")
    cs = M.Block(forwardKinematic="Q1=P1\nQ8=P12", qVariables="Q22=12345")
    context = Blocks({"PMAC": pmac, "PANDA": panda, "PMAC:STATUS": status, "PMAC:CS1": cs,
                      "KIN": M.Block(pmac="PMAC", panda="PANDA")})
    for n in motors:
        context.blocks["M:" + n] = motors[n]
    part = KinematicsSavuPart(
        "KIN", "KIN", cs_mri_suffix="CS1", **({"cs_port": "CS1"} if p["port"] else {}))
    part.setup(M.Registrar())
    for i in range(p["scans"]):
        # the positions, in any order
        rows = [("m1", "INENC1.VAL"), ("m2", "INENC2.VAL"), ("", "COUNTER1.OUT")]
        k = ctx.choice(f"order{i}", p.get("orders", [0, 1, 2]))
        rows = rows[k:] + rows[:k]
        caps = {n: ctx.choice(f"cap_{n}{i}", p["caps"]) for n in RAW}
        scale, offset = ctx.choice(f"scale{i}", [(1.0, 0.0), (0.25, 0.0), (1.0, 2.0)])
        panda.positions.value = DatasetPositionsTable(
            name=[r[1] for r in rows], value=[0.0] * 3, units=["mm"] * 3,
            scale=[scale] * 3, offset=[offset] * 3,
            capture=[C(caps.get(r[0], "Mean")) for r in rows],
            datasetName=[r[0] for r in rows],
            datasetType=["position"] * 3)
        move = ctx.choice(f"move{i}", p["moves"])
        gen = c24.make_gen("grid")
        gen.prepare()
        name = f"s{i}"
        good = all(x in ("Mean", "Value", "Min Max Mean") for x in caps.values())
        try:
            infos = part.on_configure(
                context, fileDir=d, generator=gen, axesToMove=list(move), part_info={},
                fileTemplate=name + "-%s.h5")
        except AssertionError:
            ctx.check(not good, "refused without a reason", (rows, caps))
            ctx.cover("refused")
            continue
        ctx.check(good, "accepted without datasets", caps)
        minmax = all(x == "Min Max Mean" for x in caps.values())
        kinds = {"mean": D.POSITION_VALUE}
        if minmax:
            kinds.update(min=D.POSITION_MIN, max=D.POSITION_MAX)
            ctx.cover("min and max")
        want = sorted((f"{a}.{k}", t.name, 2) for a in move for k, t in kinds.items())
        got = sorted((x.name, x.type.name, x.rank) for x in infos)
        ctx.check(got == want, "datasets shown", (got, want))
        produced = []
        for n, pos in rows:
            if n:
                ks = {"value": D.POSITION_VALUE}
                if caps[n] == "Min Max Mean":
                    ks.update(min=D.POSITION_MIN, max=D.POSITION_MAX)
                produced += [DatasetProducedInfo(f"{n}.{k}", "panda.h5", t, 2,
                                                 f"/entry/{pos}.{k}", "/u")
                             for k, t in ks.items()]
        produced.append(DatasetProducedInfo("m12.value", "other.h5", D.POSITION_VALUE, 2,
                                            "/entry/other", "/u"))
        part.on_post_configure(context, {"HDF": produced})
        with h5py.File(os.path.join(d, name + "-savu.nxs"), "r") as f:
            e = f["/entry/inputs"]
            links = {}
            for key in e:
                link = e.get(key, getlink=True)
                if isinstance(link, h5py.ExternalLink):
                    links[key] = (link.filename, link.path)
            want = {}
            for n, pos in rows:
                if n:
                    for kk in kinds:
                        want[f"p{RAW[n]}{kk}"] = (
                            "panda.h5",
                            f"/entry/{pos}.{'value' if kk == 'mean' else kk}")
            extra = {k: v for k, v in links.items() if k not in want}
            ctx.check({k: links.get(k) for k in want} == want,
                      "the variables of every raw motor are linked", (links, want))
            ctx.check(all(not k.endswith("mean") for k in extra), "nothing else is",
                      extra)
            ctx.check(bool(e["use_minmax"][0]) == minmax, "whether min and max are used")
            lines = [x.decode() if isinstance(x, bytes) else x for x in e["program"][()]]
            ctx.check(lines == ["Q1=P1", "Q8=P12"], "program", lines)
            v = {(x[0].decode() if isinstance(x[0], bytes) else x[0]): float(x[1])
                 for x in e["variables"][()]}
            # a scale that the PandA applies is not applied again
            ctx.check(v == {"I12": 3, "P4801": 0.5 if scale == 1.0 else 1.0,
                            "P4912": 7 if offset == 0.0 else 0, "Q22": 12345}, "variables", v)
        (file,) = {x.filename for x in infos}
        with h5py.File(os.path.join(d, file), "r") as f:
            for x in infos:
                ctx.check(x.path in f, "datasets that are shown are in the file",
                          (x.path, list(f["/entry"])))
                ds = f[x.path]
                ctx.check(ds.shape == (2, 3), "shape", ds.shape)
                axis, kk = x.name.split(".")
                (src,) = ds.virtual_sources()
                q = Q[COMPOUND[axis]]
                lo = src.src_space.get_select_bounds()[0]
                ctx.check(src.dset_name == f"/entry/final_result_q{kk}/data"
                          and lo[0] == q - 1, "where the dataset comes from",
                          (src, lo, q))
                ctx.check(src.file_name == os.path.join(
                    d, name + "-savuproc", name + "-savu_processed.nxs"),
                    "file of the results", src.file_name)
        ctx.cover("done")
        with open(os.path.join(d, name + "-savu_pl.nxs"), "rb") as f1:
            got = f1.read()
        import malcolm.modules.ADPandABlocks as pkg

        src = os.path.join(os.path.dirname(pkg.__file__), "kinematics",
                           "min_mean_max.nxs" if minmax else "only_mean.nxs")
        with open(src, "rb") as f2:
            ctx.check(got == f2.read(), "the process list is that of what is captured")


ALL = ["No", "Value", "Diff", "Sum", "Mean", "Min", "Max", "Min Max", "Min Max Mean"]
HARNESSES = {
    "gates": Harness(gates, quick=[
        dict(scans=1, has=[1], fA=[0, 1, 4], fB=[0, 2]),
        dict(scans=1, has=[0], fA=[0, 3], fB=[1, 2], given=[1]),
        dict(scans=2, has=[1], fA=[1, 2], fB=[0, 3], given=[1], zero=[()]),
        dict(scans=2, has=[0], fA=[0, 2], fB=[0, 2], given=[0], zero=[("A",)]),
    ], thorough=[
        dict(scans=2, has=[h], fA=[a, a + 2], fB=[0, 1, 3]) for h in (0, 1) for a in (0, 1)
    ], must=["exposure"]),
    "wiring": Harness(wiring, quick=[
        dict(src=["PULSE1", "PULSE2"]), dict(src=["PULSE1", "none"]),
    ], thorough=[dict(src=["PULSE1", "PULSE2", "none"])], must=["refused", "accepted"]),
    "datasets": Harness(datasets, quick=[
        dict(ops=["put positions", "put bits"], caps=ALL, bits=["TTLIN2.VAL"],
             poss=["COUNTER1.OUT"]),
        dict(ops=["put bits", "put bits"], caps=["No"], bits=BIT_NAMES[:2]),
        dict(ops=["put bits", "put bits"], caps=["No"], bits=BIT_NAMES[1:]),
        dict(ops=["put positions", "box"], caps=["No", "Mean", "Min Max"], poss=POS[:1]),
        dict(ops=["put positions", "box"], caps=["No", "Min Max Mean"]),
        dict(ops=["box", "put bits"], caps=["No", "Diff"], poss=["INENC1.VAL"]),
    ], thorough=[
        dict(ops=o, caps=["No", "Value", "Min Max Mean"], poss=[q])
        for q in POS
        for o in (["put positions", "put bits", "box"], ["box", "put bits", "put bits"],
                  ["put bits", "box", "put positions"])
    ], must=["bit"]),
    "kinematics": Harness(kinematics, quick=[
        dict(port=1, scans=1, caps=["No", "Mean", "Value", "Min Max", "Min Max Mean"],
             moves=[("x",), ("x", "y"), ("y",)]),
        dict(port=0, scans=2, caps=["Mean", "Min Max Mean"], moves=[("y", "x")],
             orders=[0]),
    ], thorough=[
        dict(port=q, scans=2, caps=["No", "Mean", "Min Max Mean"],
             moves=[("x",), ("x", "y")], orders=[o]) for q in (0, 1) for o in (0, 1, 2)
    ], must=["done"]),
}
