"""Files of an Odin detector: every frame of every writer at the place of its point"""
import os
import shutil
import tempfile
from collections import OrderedDict

from symx.harness import Harness

from . import adlib as A
from . import scanlib as L

TITLE = "Odin files show every frame of every writer at its point"
ASSUMPTIONS = [
    "the writer block is a stand-in: the data writers take turns of blockSize frames, and "
    "number (or letter) their files as Odin (or Xspress) does",
    "in symbolic runs h5py.File and the virtual layouts of vdsgen are stand-ins that record "
    "what is put in them, so that the number of points can be symbolic; vdsgen itself is "
    "the real one; replays use real files, written by the stand-in writers and read back",
    "the positions of the generator are never calculated; the scans are run on a virtual "
    "clock, a frame every second",
]
HEIGHT, WIDTH = 2, 3


# ---------------------------------------------------------------- stand-in files


def norm(path):
    return "/".join(x for x in path.split("/") if x)


class Layout:
    def __init__(self, shape, dtype=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.maps = []

    def __setitem__(self, key, source):
        self.maps.append((key, source))


class Source:
    def __init__(self, path, name=None, shape=None, dtype=None):
        self.path, self.name, self.shape, self.dtype = path, name, tuple(shape), dtype
        self.start, self.stop = 0, self.shape[0]

    def __getitem__(self, key):
        first = key[0] if isinstance(key, tuple) else key
        rest = key[1:] if isinstance(key, tuple) else ()
        assert all(k == slice(None) for k in rest), key
        out = Source(self.path, self.name, self.shape, self.dtype)
        if isinstance(first, slice):
            assert first.step in (None, 1), key
            out.start = 0 if first.start is None else first.start
            out.stop = self.shape[0] if first.stop is None else first.stop
        else:
            out.start, out.stop = first, first + 1
        return out


class Dataset:
    def __init__(self, layout=None, data=None):
        self.layout = layout
        self.data = data
        self.attrs = {}

    @property
    def shape(self):
        return self.layout.shape if self.layout else (self.data.size,)

    @property
    def dtype(self):
        return self.layout.dtype


class Group:
    def __init__(self):
        self.attrs = {}


class Files:
    """Replaces h5py.File"""

    def __init__(self):
        self.files = {}

    def __call__(self, path, mode="r", **kw):
        path = os.path.abspath(path)
        if mode == "w":
            self.files.pop(path, None)
        if mode in ("w", "a") and path not in self.files:
            self.files[path] = File()
            open(path, "w").close()
        if path not in self.files:
            raise OSError(f"No file {path}")
        return self.files[path]


class File:
    swmr_mode = False

    def __init__(self):
        self.nodes = OrderedDict()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass

    def get(self, name, default=None):
        return self.nodes.get(norm(name), default)

    def __getitem__(self, name):
        return self.nodes[norm(name)]

    def __contains__(self, name):
        return norm(name) in self.nodes

    def parents(self, name):
        bits = norm(name).split("/")[:-1]
        for i in range(len(bits)):
            n = self.nodes.setdefault("/".join(bits[:i + 1]), Group())
            assert isinstance(n, Group), name

    def __setitem__(self, name, value):
        if norm(name) in self.nodes:
            raise OSError(f"Name already exists {name}")
        self.parents(name)
        self.nodes[norm(name)] = value

    def create_group(self, name):
        self[name] = Group()
        return self[name]

    def require_group(self, name):
        if name not in self:
            self.create_group(name)
        return self[name]

    def create_virtual_dataset(self, name, layout, fillvalue=None):
        self[name] = Dataset(layout=layout)

    def create_dataset(self, name, data=None, **kw):
        self[name] = Dataset(data=data)
        return self[name]


class Positions:
    def __init__(self, axis, size):
        self.axis, self.size = axis, size


def patched(ctx):
    """Stand-ins for symbolic runs; returns (files, undo)"""
    import h5py
    from vdsgen import interleavevdsgenerator as I
    from vdsgen import reshapevdsgenerator as R

    files = Files()
    undo = []
    if ctx.symbolic:
        for mod, name, new in [(h5py, "File", files), (I, "VirtualLayout", Layout),
                               (I, "VirtualSource", Source), (R, "VirtualLayout", Layout),
                               (R, "VirtualSource", Source)]:
            undo.append((mod, name, getattr(mod, name)))
            setattr(mod, name, new)

    def back():
        for mod, name, old in undo:
            setattr(mod, name, old)

    return files, back


# ---------------------------------------------------------------- the detector


class WriterBlock(A.Plugin):
    attrs = OrderedDict(
        numCapture=0, filePath="", fileName="", numCaptured=0, arrayCounter=0,
        imageWidth=WIDTH, imageHeight=HEIGHT, blockSize=1, numProcesses=1,
        dataType="UInt16", numFramesChunks=0)
    opened = None
    stops = 0

    def do_start(self):
        self.opened = {k: self.get(k) for k in self.attrs}
        self.set("numCaptured", 0)
        self.running = True
        self.wait()

    def do_stop(self):
        self.stops += 1
        self.running = False
        self.release()

    def frame(self, n=1):
        if self.opened and self.running:
            self.set("numCaptured", self.get("numCaptured") + n)

    def close(self):
        self.release()


class Detector:
    def __init__(self, ctx, kind, writers, block, uid="uid", lose=None, pairs=1):
        from malcolm.core import Process
        from malcolm.modules.ADOdin.parts import OdinWriterPart
        from malcolm.modules.scanning.controllers import RunnableController
        from malcolm.modules.scanning.parts import DatasetTablePart
        from malcolm.modules.xspress3.parts import XspressWriterPart

        self.ctx, self.kind, self.writers, self.bs, self.uid = ctx, kind, writers, block, uid
        self.process = Process("proc")
        w = self.w = WriterBlock(self.process, "W")
        self.lose = lose
        c = self.controller = RunnableController("DET", L.scratch())
        if kind == "odin":
            part = OdinWriterPart("W", "W", uid_name=uid, sum_name="sum")
        else:
            part = XspressWriterPart("W", "W", num_pairs=pairs, num_datasets=2 * writers)
        self.pairs = pairs
        self.shown = []
        for p in [part, DatasetTablePart("DSET"), self.motion()]:
            c.add_part(p)
        self.process.add_controller(c)
        self.process.start()
        w.set("blockSize", block)
        w.set("numProcesses", writers)
        self.block = c.block_view()
        t = self.block.layout.value
        self.block.layout.put_value(dict(
            name=t.name, mri=t.mri, x=t.x, y=t.y, visible=[True] * len(t.name)))

    def motion(self):
        def behave(part, hook, context):
            if hook == "Run":
                for i in range(part.start, part.start + part.todo):
                    context.sleep(1.0)
                    for k in range(self.pairs):
                        if self.lose != (i, k):
                            self.w.frame()
                    self.shown.append((i + 1, self.block.completedSteps.value))
            elif hook == "PostRunReady":
                self.w.close()

        return L.make_part("MOTION", [], behave)

    def raw(self, i):
        """The file that writer i would write"""
        o = self.w.opened
        name = o["filePath"] + o["fileName"]
        if self.kind == "odin":
            return os.path.abspath(f"{name}_{i + 1:06d}.h5")
        return os.path.abspath(f"{name}_{'ABCDEFGH'[i]}_000000.h5")

    def write(self, size):
        """What the writers write"""
        import h5py
        import numpy as np

        for i in range(self.writers):
            ks = [k + 1 for k in range(size) if (k // self.bs) % self.writers == i]
            with h5py.File(self.raw(i), "w", libver="latest") as f:
                a = np.zeros((len(ks), HEIGHT, WIDTH), "uint16")
                for j, k in enumerate(ks):
                    a[j] = k
                f["data"] = a
                for n, m in ((self.uid, 1), ("sum", HEIGHT * WIDTH)):
                    f[n] = np.array(ks, "uint64").reshape(-1, 1, 1) * m
                for c in range(8):
                    f[f"mca_{c}"] = a
        if self.kind == "xspress":
            o = self.w.opened
            with h5py.File(o["filePath"] + o["fileName"] + "_meta.h5", "w") as f:
                f["dtc"] = np.zeros((1, 1))
                for i in range(9):
                    f[f"scalar_{i}"] = np.zeros((1, 1))


def make_gen(ctx, sizes, alternate):
    g = L.make_generator([(s, [a]) for s, a in zip(sizes, "zyx"[-len(sizes):])])
    g.shape = tuple(sizes)
    for d, alt in zip(g.dimensions, alternate):
        d.alternate = alt

        def get_positions(axis, d=d):
            if ctx.symbolic:
                return Positions(axis, d.size)
            import numpy as np

            return np.arange(d.size) * 0.5 + ord(axis)

        d.get_positions = get_positions
    g.units = {a: "u" + a for a in g.axes}
    return g


def source_of(ctx, files, vds, name, index, t):
    """[(condition, file, node, index in it)] of the frame at that index"""
    d = files.files[vds][name]
    out = []
    for key, s in d.layout.maps:
        first = key[0] if isinstance(key, tuple) else key
        path = os.path.abspath(s.path)
        if first is Ellipsis:
            out += [(ctx.And(s.shape[0] == len_of(d.layout.shape[:-2]), c), f, n, i)
                    for c, f, n, i in ([(True, path, norm(s.name), t)] if path != vds else
                                       source_of(ctx, files, vds, s.name, (t,), t))]
            continue
        if isinstance(first, slice):
            start = 0 if first.start is None else first.start
            stop = d.layout.shape[0] if first.stop is None else first.stop
            cond = ctx.And(start <= t, t < stop, stop - start == s.stop - s.start)
            idx = t - start + s.start
        elif hasattr(first, "count"):
            off = t - first.start
            q, r = off // first.stride, off % first.stride
            cond = ctx.And(off >= 0, q < first.count, r < first.block,
                           s.stop - s.start == first.count * first.block)
            idx = q * first.block + r + s.start
        else:
            cond = ctx.And(*[k == i for k, i in zip(key, index)])
            idx = s.start
            assert path != vds
        out.append((ctx.And(cond, idx < s.stop, idx < s.shape[0]), path, norm(s.name), idx))
    return out


def len_of(shape):
    n = 1
    for s in shape:
        n = n * s
    return n


def mapping(ctx):
    """Scans of 1..3 dimensions, the last of any size up to the bound, into 1..4 writers
    with blocks of 1..4: the frame of any point"""
    import h5py

    p = ctx.params
    kind, writers, bs = p["kind"], p["writers"], p["block"]
    uid = p.get("uid", "uid")
    n = ctx.int("n", 1, p.get("most", 300))
    sizes = list(p["outer"]) + [n]
    alternate = [False] * len(sizes)
    if p.get("snake"):
        alternate = [bool(ctx.bool(f"alt{i}")) for i in range(len(sizes))]
    index = [int(ctx.int(f"i{i}", 0, s - 1)) for i, s in enumerate(p["outer"])]
    j = ctx.int("j", 0, p.get("most", 300))
    ctx.assume(j < n)
    index.append(j)
    t = 0
    for i, s in zip(index, sizes):
        t = t * s + i
    size = len_of(sizes)
    tmp = tempfile.mkdtemp(prefix="symx-odin-")
    files, back = patched(ctx)
    try:
        d = Detector(ctx, kind, writers, bs, uid, pairs=writers)
        b = d.block
        g = make_gen(ctx, sizes, alternate)
        kw = {}
        if p.get("named"):
            kw = dict(formatName="zap", fileTemplate="a-%s-b.hdf")
        name = "a-zap-b.hdf" if kw else {"odin": "odin.h5", "xspress": "xspress3.h5"}[kind]
        err = None
        try:
            b.configure(generator=g, axesToMove=list(g.axes), fileDir=tmp + p.get("tail", ""), **kw)
        except Exception as e:
            err = e
        if any(alternate[1:]):
            ctx.check(err is not None, "snaked scans are refused", alternate)
            ctx.cover("snake")
            return
        ctx.check(err is None, "configure", err)
        if err is not None:
            return
        o = d.w.opened
        ctx.check(o is not None, "the writer is started")
        ctx.check(o["numCapture"] == size, "frames the writer is to capture",
                  (o["numCapture"], size))
        ctx.check(os.path.dirname(os.path.abspath(d.raw(0))) == tmp, "where it writes",
                  o)
        vds = os.path.join(tmp, name)
        ctx.check(d.raw(0) != vds, "not over the file itself")
        shape = tuple(sizes) + (HEIGHT, WIDTH)
        w, at = (t // bs) % writers, (t // (bs * writers)) * bs + t % bs
        base = "entry/detector" if kind == "odin" else "entry/xspress"
        sets = [("data", base + "/data", "data", (HEIGHT, WIDTH), 1)]
        if kind == "odin":
            sets += [("uid", base + "_uid/uid", uid, (1, 1), 1),
                     ("sum", base + "_sum/sum", "sum", (1, 1), HEIGHT * WIDTH)]
        raws = [d.raw(i) for i in range(writers)]
        if ctx.symbolic:
            f = files.files[vds]
            for what, path, node, hw, m in sets:
                ctx.check(path in f, f"{what}: is in the file", list(f.nodes))
                got = f[path].shape
                ctx.check(len(got) == len(shape), f"{what}: dimensions", got)
                ctx.check(ctx.And(*[x == y for x, y in zip(got, tuple(sizes) + hw)]),
                          f"{what}: shape", (got, shape))
                maps = source_of(ctx, files, vds, path, index, t)
                ctx.check(ctx.Or(*[c for c, _, _, _ in maps]), f"{what}: has the frame",
                          (t, n))
                for c, path2, node2, i in maps:
                    ok = path2 in raws and node2 == node
                    ctx.check(ctx.Implies(c, ctx.And(
                        ok, w == (raws.index(path2) if ok else -1), i == at)),
                        f"{what}: the frame at the place of its point",
                        (t, n, path2, node2, i))
        else:
            d.write(size)
            f = h5py.File(vds, "r")
            for what, path, node, hw, m in sets:
                ctx.check(path in f, f"{what}: is in the file")
                got = f[path].shape
                ctx.check(len(got) == len(shape), f"{what}: dimensions", got)
                ctx.check(got == tuple(sizes) + hw, f"{what}: shape", (got, shape))
                v = f[path][tuple(index)]
                ctx.check((v == (t + 1) * m).all(),
                          f"{what}: the frame at the place of its point", (t, n, v.tolist()))
        try:
            rows(ctx, d, f, g, base, name, raws, uid)
        finally:
            f.close()
        if bs * writers > 1 and size % (bs * writers) != 0:
            ctx.cover("not whole rounds")
        else:
            ctx.cover("whole rounds")
    finally:
        back()
        shutil.rmtree(tmp, ignore_errors=True)


def rows(ctx, d, f, g, base, name, raws, uid):
    """The datasets shown are in the file, and what they are said to be"""
    t = d.block.datasets.value
    rank = len(g.dimensions)
    seen = {}
    for i, n in enumerate(t.name):
        path = t.path[i]
        ctx.check(t.filename[i] == name, "file of the dataset", (n, t.filename[i]))
        ctx.check(n not in seen, "shown once", n)
        seen[n] = path
        ctx.check(path in f, "the dataset shown is in the file", (n, path))
        if t.uniqueid[i] and d.kind == "odin":
            ctx.check(t.uniqueid[i] in f, "its unique ids are in the file", n)
        typ = getattr(t.type[i], "value", t.type[i])
        if typ in ("primary", "secondary", "position_set"):
            ctx.check(t.rank[i] == len(f[path].shape), "rank", (n, t.rank[i]))
    ctx.check(list(seen.values())[:1] == ["/" + base + "/data"], "the data is shown", seen)
    for i, dim in enumerate(g.dimensions):
        a, = dim.axes
        ctx.check(seen.get(f"{a}.value_set") == f"/{base}/{a}_set", "demands are shown", seen)
        x = f[f"{base}/{a}_set"]
        ctx.check(x.attrs["units"] == "u" + a, "units", (a, x.attrs["units"]))
        if ctx.symbolic:
            ctx.check(isinstance(x.data, Positions) and x.data.axis == a, "demands", a)
        else:
            ctx.check(list(x[...]) == list(dim.get_positions(a)), "demands", a)
        ctx.check(f[base].attrs[f"{a}_set_indices"] == i, "dimension of the axis", a)
        ctx.check(f[base].attrs["axes"][i] == f"{a}_set", "axes", a)
    ctx.check(len(f[base].attrs["axes"]) == rank + 2, "axes")
    ctx.check(f[base].attrs["signal"] == "data", "signal")
    if d.kind == "odin":
        links = {f"raw{i + 1}": (r, "data") for i, r in enumerate(raws)}
        links.update({f"uid{i + 1}": (r, uid) for i, r in enumerate(raws)})
    else:
        links = {f"raw/uid{i}": (r, "uid") for i, r in enumerate(raws)}
        for c in range(2 * d.writers):
            links[f"raw/mca{c}"] = (raws[c // 2], f"mca_{c}")
    for k, (r, node) in links.items():
        link = f[k] if ctx.symbolic else f.get(k, getlink=True)
        ctx.check((os.path.abspath(link.filename), norm(link.path)) == (r, node),
                  "links to the raw files", (k, link.filename, link.path))
        ctx.check("/" + k in seen.values(), "raw datasets are shown", (k, seen))


def runs(ctx):
    """Scans of 1..6 points with breakpoints or none; all frames are captured, or one is
    lost"""
    p = ctx.params
    n = int(ctx.int("n", 1, p["most"]))
    parts = int(ctx.int("parts", 1, min(n, p.get("parts", 3))))
    bps = []
    left = n
    for i in range(parts - 1):
        x = int(ctx.int(f"bp{i}", 1, left - (parts - 1 - i)))
        bps.append(x)
        left -= x
    bps.append(left)
    pairs = p["pairs"]
    lost = int(ctx.int("lost", -1, n - 1))
    lose = None
    if lost >= 0:
        lose = (lost, int(ctx.int("pair", 0, pairs - 1)))
    tmp = tempfile.mkdtemp(prefix="symx-odin-")
    files, back = patched(ctx)
    try:
        d = Detector(ctx, p["kind"], pairs, 1, lose=lose, pairs=pairs)
        b = d.block
        if p.get("before"):
            # another scan before, done or aborted
            d.lose = None
            m = int(ctx.int("m", 1, 3))
            how = ctx.choice("before", ["done", "armed", "running"])
            b.configure(generator=make_gen(ctx, [m], [False]), axesToMove=["x"],
                        fileDir=tmp, formatName="other", breakpoints=[1] * m)
            if how == "done":
                for i in range(m):
                    b.run()
                ctx.check(b.completedSteps.value == m, "progress of the scan before")
            else:
                import cothread

                if how == "running":
                    f = b.run_async()
                    cothread.Sleep(0.5)
                stops = d.w.stops
                b.abort()
                ctx.check(d.w.stops > stops, "aborting stops the writer")
                ctx.check(b.state.value == "Aborted", "aborted", b.state.value)
                b.reset()
            d.lose = lose
            d.shown.clear()
        g = make_gen(ctx, [n], [False])
        kw = dict(breakpoints=bps) if parts > 1 else {}
        b.configure(generator=g, axesToMove=list(g.axes), fileDir=tmp, **kw)
        done = 0
        ended = False
        for i, todo in enumerate(bps):
            f = b.run_async()
            first = sum(bps[:i])
            bad = lose and first <= lose[0] < first + todo
            if bad and first == 0 and n * pairs == 1:
                # the first frame is waited for as long as it takes
                ctx.cover("nothing captured")
                ended = True
                b.abort()
                break
            if bad and first == 0 and todo * pairs == 1:
                ended = True
                b.abort()
                break
            err = None
            try:
                f.result(timeout=200)
            except Exception as e:
                err = e
            if bad:
                ctx.check(err is not None and b.state.value == "Fault",
                          "a frame lost is an error", (err, b.state.value, lose, bps))
                ctx.cover("lost")
                ended = True
                break
            ctx.check(err is None, "run", (repr(err), bps, lose))
            done += todo
            ctx.check(d.w.get("numCaptured") == done * pairs, "the frames are all captured",
                      (d.w.get("numCaptured"), done))
            ctx.check(b.completedSteps.value == done, "progress at the end of a run",
                      (b.completedSteps.value, done))
        for step, shown in d.shown:
            ctx.check(shown <= step, "progress is not ahead of the frames",
                      (step, shown, d.shown))
        for step, shown in d.shown[2:]:
            if lose is None:
                ctx.check(shown >= step - 2, "progress follows the frames", (d.shown,))
        if not ended:
            ctx.check(b.state.value == "Finished", "finished", b.state.value)
            ctx.check(d.w.get("numCaptured") == n * pairs, "not stopped")
            ctx.cover("finished")
    finally:
        back()
        shutil.rmtree(tmp, ignore_errors=True)


HARNESSES = {
    "mapping": Harness(
        mapping,
        quick=[dict(kind="odin", writers=w, block=bs, outer=o, **kw)
               for w, bs, o, kw in [
                   (1, 1, [], dict(named=True)),
                   (2, 1, [3], dict(uid="frame", tail="/")),
                   (2, 4, [], {}), (2, 4, [3], dict(most=9)),
                   (3, 2, [2, 2], dict(most=7, snake=True)),
                   (4, 1, [2], {}), (4, 3, [], dict(named=True, uid="frame")),
               ]] + [
            dict(kind="xspress", writers=2, block=3, outer=[2], most=8, snake=True),
            dict(kind="xspress", writers=4, block=1, outer=[], named=True),
        ],
        thorough=[dict(kind=k, writers=w, block=bs, outer=o, most=m)
                  for k in ("odin", "xspress") for w in (1, 2, 3, 4, 8) for bs in (1, 2, 3, 5)
                  for o, m in (([], 3 * w * bs + 1), ([3], 2 * w * bs), ([2, 2], w * bs))],
        must=["whole rounds"],
    ),
    "runs": Harness(
        runs,
        quick=[dict(kind="odin", pairs=1, most=5), dict(kind="xspress", pairs=2, most=4),
               dict(kind="odin", pairs=1, most=3, parts=2, before=True),
               dict(kind="xspress", pairs=2, most=2, parts=2, before=True),
               dict(kind="xspress", pairs=3, most=2)],
        thorough=[dict(kind="odin", pairs=1, most=8, parts=4),
                  dict(kind="xspress", pairs=2, most=6, parts=4),
                  dict(kind="xspress", pairs=4, most=4)],
        must=["lost", "finished"],
    ),
}
