"""A stand-in areaDetector chain: a driver that takes frames, a labeller that gives each
frame the indices of a scan point and a writer that puts it in the file there"""
from collections import OrderedDict
from xml.etree import ElementTree as ET

from . import scanlib as L

SUFFIXES = "NXY3456789"


def block_classes():
    from malcolm.core import (
        BooleanMeta,
        ChoiceMeta,
        NumberMeta,
        Part,
        StringMeta,
    )

    class SimPart(Part):
        """attrs: {name: initial}, puts: {name: function}, methods: {name: function}"""

        def configure_with(self, attrs, puts, methods):
            self.spec = attrs, puts, methods
            self.attrs = {}
            return self

        def setup(self, registrar):
            super().setup(registrar)
            attrs, puts, methods = self.spec
            for k, v in attrs.items():
                if isinstance(v, tuple):
                    meta, v = ChoiceMeta("d", choices=list(v)), v[0]
                elif isinstance(v, bool):
                    meta = BooleanMeta("d")
                elif isinstance(v, int):
                    meta = NumberMeta("int32", "d")
                elif isinstance(v, float):
                    meta = NumberMeta("float64", "d")
                else:
                    meta = StringMeta("d")
                a = meta.create_attribute_model(v)
                self.attrs[k] = a

                def put(value, k=k, a=a):
                    a.set_value(value)
                    if k in puts:
                        puts[k](value)

                registrar.add_attribute_model(k, a, put)
            for k, f in methods.items():
                registrar.add_method_model(f, k)

    return SimPart


class Plugin:
    """A block of the chain"""

    attrs = {}

    def __init__(self, process, mri):
        from malcolm.modules.builtin.controllers import StatefulController

        puts = {k[4:]: getattr(self, k) for k in dir(self) if k.startswith("put_")}
        methods = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("do_")}
        attrs = OrderedDict(self.attrs)
        self.part = block_classes()("sim").configure_with(attrs, puts, methods)
        self.controller = StatefulController(mri)
        self.controller.add_part(self.part)
        process.add_controller(self.controller)
        self.waiting = []

    def get(self, name):
        return self.part.attrs[name].value

    def set(self, name, value):
        self.part.attrs[name].set_value(value)

    def wait(self):
        """Until released"""
        from malcolm.core import Queue

        q = Queue()
        self.waiting.append(q)
        q.get()

    def release(self):
        w, self.waiting = self.waiting, []
        for q in w:
            q.put(None)


class Driver(Plugin):
    """Takes a frame for every trigger, or by itself if it is not triggered"""

    attrs = OrderedDict(
        arrayCounter=0, arrayCounterReadback=0, imageMode=("Single", "Multiple"),
        numImages=1, arrayCallbacks=False, exposure=0.1, acquirePeriod=0.1,
        acquiring=False, triggerMode=("Internal", "External"), attributesFile="",
        driverVersion="2.2",
    )
    sink = None
    left = 0
    run_id = 0
    count = 0
    counts = True
    soft_mode = "Internal"

    def __init__(self, process, mri, sim):
        super().__init__(process, mri)
        self.sim = sim
        self.arms = []

    def put_arrayCounter(self, value):
        self.count = value
        self.set("arrayCounterReadback", value)

    def do_start(self):
        """Acquire"""
        if not self.get("acquiring"):
            self.arms.append({k: self.get(k) for k in
                              ("numImages", "exposure", "acquirePeriod", "arrayCounter")})
            self.left = self.frames_of_run()
            self.run_id += 1
            self.set("acquiring", True)
            if self.get("triggerMode") == self.soft_mode:
                import cothread

                cothread.Spawn(self.free_run, self.run_id)
        self.wait()

    def frames_of_run(self):
        if self.get("imageMode") == "Single":
            return 1
        return self.get("numImages")

    def do_stop(self):
        self.run_id += 1
        self.left = 0
        self.set("acquiring", False)
        self.release()

    def free_run(self, me):
        import cothread

        while True:
            cothread.Sleep(self.sim.period)
            if me != self.run_id:
                return
            self.frame(self.sim.next_soft())

    def trigger(self, step):
        if self.get("acquiring"):
            self.frame(step)
        else:
            self.sim.missed.append(step)

    def frame(self, step):
        if self.sim.lose == ("driver", step):
            return
        n = self.count = self.count + 1
        self.left -= 1
        last = self.left == 0
        if last:
            self.run_id += 1
            self.set("acquiring", False)
        self.sim.frames.append((n, step))
        if self.counts:
            self.set("arrayCounterReadback", n)
        if self.get("arrayCallbacks"):
            self.sink.frame(n, len(self.sim.frames) - 1, {})
        if last:
            self.release()


class Xmap(Driver):
    """Its mapping mode ends after pixelsPerRun"""

    attrs = OrderedDict(
        Driver.attrs, collectMode=("MCA spectra", "MCA mapping"),
        pixelAdvanceMode=("Software", "Gate"), presetMode=("Real time", "No preset"),
        ignoreGate=("Yes", "No"), pixelsPerRun=1, autoPixelsPerBuffer=("Auto", "Manual"),
        pixelsPerBuffer=124, binsInSpectrum=1024,
        inputLogicPolarity=("Inverted", "Normal"))

    def frames_of_run(self):
        ok = [self.get(k) for k in ("collectMode", "pixelAdvanceMode", "presetMode",
                                    "ignoreGate", "inputLogicPolarity")]
        assert ok == ["MCA mapping", "Gate", "No preset", "No", "Normal"], ok
        return self.get("pixelsPerRun")


class Reframe(Driver):
    """Its trigger mode says if it is triggered, it has no exposure"""

    attrs = OrderedDict(
        Driver.attrs, triggerMode=("Always On", "Rising Edge"), postCount=0,
        averageSamples=("No", "Yes"), triggerOffCondition=("Rising Edge", "Always On"))
    soft_mode = "Always On"


class TetrAMM(Driver):
    """Goes on until it is stopped"""

    attrs = OrderedDict(Driver.attrs, valuesPerRead=1, numImagesPerSeries=7)

    def frames_of_run(self):
        return -1


class Eiger(Driver):
    """Goes on until it is stopped and doesn't count its frames; takes some time until
    its fan is ready"""

    attrs = OrderedDict(Driver.attrs, numImagesPerSeries=7, fanStateReady=0)
    counts = False

    def frames_of_run(self):
        assert self.get("numImagesPerSeries") == 1
        import cothread

        self.set("fanStateReady", 0)
        cothread.Spawn(self.ready, self.run_id + 1)
        return -1

    def ready(self, me):
        import cothread

        cothread.Sleep(3.0)
        if me == self.run_id:
            self.set("fanStateReady", 1)

    def trigger(self, step):
        if self.get("fanStateReady"):
            super().trigger(step)
        else:
            self.sim.missed.append(step)


class Andor(Driver):
    """Its period is never less than it needs"""

    attrs = OrderedDict(Driver.attrs, andorReadoutTime=0.0, andorFrameTransferMode=False,
                        andorAccumulatePeriod=0.0)

    def put_acquirePeriod(self, value):
        least = self.get("exposure") + self.get("andorReadoutTime")
        if value < least:
            self.set("acquirePeriod", least)


class Labeller(Plugin):
    attrs = OrderedDict(xml="", enableCallbacks=False, idStart=1, qty=0, arrayCounter=0,
                        arrayCounterReadback=0, running=False)
    sink = None

    def __init__(self, process, mri, sim):
        super().__init__(process, mri)
        self.sim = sim
        self.positions = []

    def put_xml(self, value):
        root = ET.fromstring(value)
        dims = [e.get("name") for e in root.find("dimensions")]
        for e in root.find("positions"):
            self.positions.append({d: int(e.get(d)) for d in dims})
        self.set("qty", len(self.positions))

    def put_arrayCounter(self, value):
        self.set("arrayCounterReadback", value)

    def do_delete(self):
        self.positions = []
        self.set("qty", 0)

    def do_start(self):
        self.first = self.get("idStart")
        self.set("running", True)
        self.wait()

    def do_stop(self):
        self.set("running", False)
        self.release()

    def frame(self, uid, frame, labels):
        if not self.get("enableCallbacks"):
            return
        if not self.get("running"):
            self.sim.dropped.append(("not running", uid))
        elif uid < self.first:
            self.sim.dropped.append(("old", uid))
        elif uid - self.first >= len(self.positions):
            self.sim.dropped.append(("no label", uid))
        else:
            pos = self.positions[uid - self.first]
            self.sink.frame(uid, frame, dict(labels, **pos))
            self.set("qty", len(self.positions) - (uid - self.first) - 1)
        self.set("arrayCounterReadback", self.get("arrayCounterReadback") + 1)


class Writer(Plugin):
    attrs = OrderedDict(
        enableCallbacks=False, fileWriteMode=("Single", "Capture", "Stream"),
        swmrMode=False, storeAttr=False, positionMode=False, dimAttDatasets=False,
        lazyOpen=False, numCapture=1, numCapturedReadback=0, flushDataPerNFrames=0,
        flushAttrPerNFrames=0, xmlLayout="", xmlLayoutValid=True, xmlErrorMsg="",
        filePath="", fileName="", fileTemplate="", numExtraDims=0, arrayCounter=0,
        arrayCounterReadback=0, running=False, uniqueId=0, driverVersion="3.12",
    )
    for _s in SUFFIXES:
        attrs[f"posNameDim{_s}"] = "old"
        attrs[f"extraDimSize{_s}"] = 77

    def __init__(self, process, mri, sim):
        super().__init__(process, mri)
        self.sim = sim
        self.file = {}
        self.flushes = 0

    def put_arrayCounter(self, value):
        self.set("arrayCounterReadback", value)

    def do_start(self):
        self.file = {}
        self.opened = {k: self.get(k) for k in self.attrs}
        self.set("numCapturedReadback", 0)
        n = self.opened["numExtraDims"] + 1
        self.names = [self.opened[f"posNameDim{SUFFIXES[i]}"] for i in range(n)]
        self.sizes = [self.opened[f"extraDimSize{SUFFIXES[i]}"] for i in range(n)]
        self.set("running", True)
        self.wait()

    def do_stop(self):
        self.set("running", False)
        self.release()

    def do_flushNow(self):
        self.flushes += 1

    def frame(self, uid, frame, labels):
        if not self.get("enableCallbacks"):
            return
        self.set("uniqueId", uid)
        self.set("arrayCounterReadback", self.get("arrayCounterReadback") + 1)
        if not self.get("running"):
            self.sim.dropped.append(("not capturing", uid))
            return
        if self.sim.lose == ("writer", self.sim.frames[frame][1]):
            return
        key = tuple(labels.get(x, -1) for x in self.names)
        if not all(0 <= k < s for k, s in zip(key, self.sizes)):
            self.sim.bad.append((key, self.names, self.sizes))
        self.file[key] = frame
        self.set("numCapturedReadback", self.get("numCapturedReadback") + 1)


class Stats(Plugin):
    attrs = OrderedDict(enableCallbacks=False, computeStatistics=False, attributesFile="",
                        arrayCounter=0)


class Sim:
    """What happened"""

    period = 1.0
    lose = None

    def __init__(self):
        self.frames = []  # (uid, step)
        self.missed = []
        self.dropped = []
        self.bad = []
        self.motion = None
        self.soft = 0

    def next_soft(self):
        s = self.motion.start + self.soft
        self.soft += 1
        return s


def motion_part(sim, driver, soft):
    """Moves through the steps it is told to, triggering at each"""

    def behave(part, hook, context):
        if hook in ("Configure", "PostRunArmed", "Seek"):
            sim.motion = part
            sim.soft = 0
        elif hook == "Run" and not soft:
            for i in range(part.start, part.start + part.todo):
                context.sleep(sim.period)
                driver.trigger(i)

    return L.make_part("MOTION", [], behave)


def layout_tree(text):
    """{path: element} of a layout"""
    out = {}

    def walk(e, path):
        for c in e:
            if c.tag in ("group", "dataset", "hardlink"):
                p = f"{path}/{c.get('name')}"
                out[p] = c
                walk(c, p)

    walk(ET.fromstring(text), "")
    return out
