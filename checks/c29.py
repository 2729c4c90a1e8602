"""The scan runner does every scan of its file, and accounts for each of them"""
import os
import shutil
import tempfile

from symx.harness import Harness

from . import scanlib as L

TITLE = "The scan runner does every scan of its file once per repeat and accounts for it"
ASSUMPTIONS = [
    "the scan block is a real runnable block with a stand-in part that fails where it "
    "is told to",
    "the real cothread scheduler runs on a virtual clock, the names of directories are "
    "made from the real one",
]
# how a scan may go: what is raised, in which hook, what the report says
WAYS = {
    "fine": (None, None, "Success"),
    "refused": ("Configure", AssertionError, "Misconfigured"),
    "broken": ("Configure", ValueError, "Misconfigured"),
    "assert": ("Run", AssertionError, "Fail"),
    "error": ("Run", ValueError, "Other"),
    "timeout": ("Run", "TimeoutError", "Timeout"),
    "readonly": ("Run", "NotWriteableError", "Notwriteable"),
    "aborted": (None, None, "Aborted"),
}


def scan_part(world):
    from annotypes import add_call_types

    from malcolm.core import Part, PartRegistrar
    from malcolm.modules.scanning import hooks as H

    class ScanPart(Part):
        def setup(self, registrar: PartRegistrar) -> None:
            registrar.hook(H.ConfigureHook, self.on_configure)
            registrar.hook(H.RunHook, self.on_run)
            registrar.hook(H.AbortHook, self.on_abort)
            registrar.report(H.ConfigureHook.create_info(self.on_configure))

        # noinspection PyPep8Naming
        @add_call_types
        def on_configure(self, context: H.AContext, generator: H.AGenerator,
                         fileDir: H.AFileDir) -> None:
            world.begin(generator, fileDir)
            context.sleep(1.0)
            world.act("Configure")

        @add_call_types
        def on_run(self, context: H.AContext) -> None:
            world.ran.append(len(world.begun) - 1)
            context.sleep(1.0)
            world.act("Run")

        @add_call_types
        def on_abort(self, context: H.AContext) -> None:
            # takes its time
            context.sleep(0.75)

    return ScanPart("SCANPART")


def remote(process, server):
    """Connects to the blocks of another process, everything goes through JSON"""
    from malcolm.core import Post, Put, Subscribe, Delta, Return, ResponseError
    from annotypes import deserialize_object, json_decode, json_encode

    from malcolm.modules.builtin.controllers import ClientComms

    class Comms(ClientComms):
        def sync_proxy(self, mri, block):
            def handle(response):
                if isinstance(response, Delta):
                    with block.notifier.changes_squashed:
                        for change in json_decode(json_encode(response))["changes"]:
                            apply(block, change)

            request = Subscribe(path=[mri], delta=True)
            request.set_callback(handle)
            server.get_controller(mri).handle_request(request)

        def ask(self, request):
            got = []
            request.set_callback(got.append)
            mri = request.path[0]
            server.get_controller(mri).handle_request(request).wait()
            if isinstance(got[0], Return):
                return json_decode(json_encode(got[0])).get("value")
            raise ResponseError(str(got[0].message))

        def send_put(self, mri, attribute_name, value):
            value = json_decode(json_encode(value))
            return self.ask(Put(path=[mri, attribute_name, "value"], value=value))

        def send_post(self, mri, method_name, **params):
            params = json_decode(json_encode(params))
            return self.ask(Post(path=[mri, method_name], parameters=params))

    def apply(block, change):
        path = change[0]
        if not path:
            for k, v in change[1].items():
                if k == "meta":
                    meta = deserialize_object(v)
                    for kk in block.meta.call_types:
                        block.meta.apply_change([kk], meta[kk])
                elif k not in ("typeid", "health"):
                    block.set_endpoint_data(k, v)
        elif len(path) == 1 and path[0] not in ("health", "meta"):
            block.set_endpoint_data(path[0], change[1])
        else:
            block.apply_change(path, *change[1:])

    process.add_controller(Comms("COMMS"))


class World:
    def __init__(self, ctx, ways, far=False):
        from malcolm.core import Process
        from malcolm.modules.builtin.controllers import BasicController, ProxyController
        from malcolm.modules.scanning.controllers import RunnableController
        from malcolm.modules.scanning.parts import ScanRunnerPart

        self.ctx = ctx
        self.ways = ways
        self.begun = []
        self.ran = []
        self.process = Process("proc")
        scan = RunnableController("SCAN", L.scratch())
        scan.add_part(scan_part(self))
        if far:
            self.server = Process("server")
            self.server.add_controller(scan)
            self.server.start()
            remote(self.process, self.server)
            self.process.add_controller(ProxyController("SCAN", "COMMS"))
        else:
            self.process.add_controller(scan)
        c = BasicController("RUNNER")
        c.add_part(ScanRunnerPart("runner", "SCAN"))
        self.process.add_controller(c)
        self.process.start()
        self.scan = scan.block_view()
        self.block = c.block_view()

    def begin(self, generator, directory):
        self.ctx.check(os.path.isdir(directory), "the directory of a scan is made first")
        self.ctx.check(not os.listdir(directory), "a scan has a directory of its own")
        with open(os.path.join(directory, "data"), "w"):
            pass
        self.begun.append((generator, directory))

    def way(self):
        n = len(self.begun) - 1
        return self.ways[n] if n < len(self.ways) else "fine"

    def act(self, hook):
        from malcolm import core

        way = self.way()
        where, what, _ = WAYS[way]
        if way == "aborted" and hook == "Run":
            # someone else stops this scan
            import cothread

            cothread.Spawn(self.scan.abort)
            cothread.Sleep(1.0)
        if where == hook:
            if isinstance(what, str):
                what = getattr(core, what)
            raise what("as it was told to")


def scan_file(path, sets):
    """sets: [(name, repeats or None, size)]"""
    with open(path, "w") as f:
        for name, repeats, size in sets:
            f.write(f"""- scan:
    name: {name}
    generator:
      generators:
        - line:
            axes: x
            units: mm
            start: {size}
            stop: 7
            size: {size}
      duration: 0.5
""")
            if repeats is not None:
                f.write(f"    repeats: {repeats}\n")


def begin(ctx, ways, sets):
    d = tempfile.mkdtemp(prefix="runner-", dir=L.scratch())
    w = World(ctx, ways, ctx.params.get("far"))
    b = w.block
    path = os.path.join(d, "scans.yaml")
    scan_file(path, sets)
    out = os.path.join(d, "out")
    os.mkdir(out)
    b.scanFile.put_value(path)
    slash = ctx.bool("slash")
    b.outputDirectory.put_value(out + ("/" if slash else ""))
    b.loadFile()
    ctx.check(b.runnerState.value == "Configured", "loaded", b.runnerState.value)
    want = [(name, i, size) for name, repeats, size in sets
            for i in range(1, (1 if repeats is None else repeats) + 1)]
    ctx.check(b.scansConfigured.value == len(want), "scans configured",
              b.scansConfigured.value)
    return w, out, want


def sets_of(ctx, n):
    out = []
    for i in range(n):
        r = int(ctx.int(f"repeats{i}", 0, 2))
        # the second says nothing about repeats: once
        out.append((f"set{i}", None if i == 1 and r == 1 else r, i + 1))
    return out


def check_scans(ctx, w, out, want, begun):
    """The scans begun are the first of those wanted"""
    runs = os.listdir(out)
    ctx.check(len(runs) <= 1, "one directory for a run", runs)
    for (name, i, size), (g, d) in zip(want, begun):
        top = os.path.join(out, runs[0], "scanset-" + name, f"scan-{i}")
        ctx.check(d == top, "directory of a scan", (d, top))
        ctx.check([x.size for x in g.generators] == [size] and
                  list(g.generators[0].start) == [float(size)] and g.duration == 0.5,
                  "generator of a scan", g.to_dict())


def report(out):
    (run,) = os.listdir(out)
    p = os.path.join(out, run, "report.txt")
    if not os.path.exists(p):
        return []
    return [line.split()[:3] for line in open(p)]


def scans(ctx):
    """1 or 2 sets of 0..2 repeats; every scan fine, refused, failing in any of 5 ways or
    aborted by someone else; then another run of the same sets"""
    p = ctx.params
    sets = sets_of(ctx, p["sets"])
    total = sum(1 if r is None else r for _, r, _ in sets)
    ctx.assume(total > 0)
    names = p["ways"]
    ways = [ctx.choice(f"way{i}", names) for i in range(min(total, p.get("bad", 2)))]
    w, out, want = begin(ctx, ways, sets)
    b = w.block
    for again in range(p.get("runs", 1)):
        if again:
            out = out + "2"
            os.mkdir(out)
            b.outputDirectory.put_value(out)
            w.begun.clear()
            w.ran.clear()
            w.ways = ways[::-1]
        b.run_async().result(timeout=1000)
        ctx.check(len(w.begun) == len(want), "every scan is done", (len(w.begun), want))
        check_scans(ctx, w, out, want, w.begun)
        how = [w.ways[i] if i < len(w.ways) else "fine" for i in range(len(want))]
        ctx.check(w.ran == [i for i, x in enumerate(how) if WAYS[x][0] != "Configure"],
                  "a scan that is refused is not run, the others once", (w.ran, how))
        good = sum(x == "fine" for x in how)
        ctx.check(b.scansCompleted.value == len(want), "scans completed",
                  b.scansCompleted.value)
        ctx.check(b.scanSuccesses.value == good and
                  b.scanFailures.value == len(want) - good, "successes and failures",
                  (b.scanSuccesses.value, b.scanFailures.value, how))
        lines = report(out)
        if p.get("far"):
            # only the message of an error gets here
            ctx.check(all(x[2] in ("Success", "Other", "Misconfigured") for x in lines),
                      "the report", lines)
            lines = [[n, i, WAYS[how[k]][2] if x == "Other" and how[k] != "fine" else x]
                     for k, (n, i, x) in enumerate(lines)]
        ctx.check(lines == [[n, str(i), WAYS[x][2]] for (n, i, _), x in zip(want, how)],
                  "the report", (lines, how))
        ctx.check(b.runnerState.value == "Finished", "state", b.runnerState.value)
        ctx.check(b.currentScanSet.value == "", "no set is current at the end")
        if good < len(want):
            ctx.cover("failures")
        ctx.observe("counts", [b.scansCompleted.value, b.scanSuccesses.value])


def abort(ctx):
    """Aborted while configuring, running or having run any of the scans of 1 or 2 sets:
    no scan is begun after that; then a run does them all"""
    import cothread

    p = ctx.params
    sets = sets_of(ctx, p["sets"])
    total = sum(1 if r is None else r for _, r, _ in sets)
    ctx.assume(total > 0)
    w, out, want = begin(ctx, [], sets)
    b = w.block
    k = int(ctx.int("at", 0, 2 * total))
    f = b.run_async()
    cothread.Sleep(k + 0.5)
    over = k >= 2 * total
    if over:
        f.result(timeout=100)
        ctx.check(b.runnerState.value == "Finished", "finished", b.runnerState.value)
    n = len(w.begun)
    ctx.check(over or n == k // 2 + 1, "one after the other", (n, k))
    if over:
        # nothing to stop
        ctx.cover("over")
        return
    g = b.abort_async()
    try:
        f.result(timeout=100)
    except Exception:
        pass
    g.result(timeout=100)
    cothread.Sleep(20)
    ctx.check(len(w.begun) == n, "a scan is begun after the abort", (len(w.begun), n))
    ctx.check(b.runnerState.value == "Aborted", "state after the abort",
              b.runnerState.value)
    ctx.check(w.scan.state.value == "Aborted", "state of the scan", w.scan.state.value)
    ctx.check(b.scansCompleted.value <= n and b.scanSuccesses.value == k // 2,
              "what was done", (b.scansCompleted.value, b.scanSuccesses.value))
    check_scans(ctx, w, out, want, w.begun)
    ctx.cover("aborted in configure" if k % 2 == 0 else "aborted in run")
    # again
    w.begun.clear()
    w.ran.clear()
    out = out + "2"
    os.mkdir(out)
    b.outputDirectory.put_value(out)
    b.run_async().result(timeout=1000)
    check_scans(ctx, w, out, want, w.begun)
    ctx.check(len(w.begun) == len(want) and b.scanSuccesses.value == len(want) and
              b.runnerState.value == "Finished", "every scan is done by the next run",
              (len(w.begun), b.scanSuccesses.value, b.runnerState.value))


BAD = {
    "missing": None,
    "syntax": "- scan: [",
    "other": "- thing:\n    name: x\n",
    "noname": "- scan:\n    generator:\n      generators: []\n      duration: 1\n",
    "noduration": "- scan:\n    name: x\n    generator:\n      generators: []\n",
}


def load(ctx):
    """Files that can't be used (5 kinds), before or after one that can"""
    sets = [("set0", 2, 1)]
    w, out, want = begin(ctx, [], sets)
    b = w.block
    good = b.scanFile.value
    kind = ctx.choice("kind", list(BAD))
    states = []
    b.runnerState.subscribe_value(states.append)
    path = good + ".bad"
    if BAD[kind] is not None:
        with open(path, "w") as f:
            f.write(BAD[kind])
    b.scanFile.put_value(path)
    try:
        b.loadFile()
    except Exception:
        ctx.cover(kind)
    else:
        ctx.check(False, "a file that can't be used is loaded", kind)
    ctx.check(b.runnerState.value == "Fault", "state", (kind, b.runnerState.value))
    ctx.check(states[-1] == "Fault", "the state shown", states)
    # what was said is seen by everyone
    ctx.check(b.runnerStatusMessage.value not in ("Load complete", "Loading scan file"),
              "the message", b.runnerStatusMessage.value)
    b.scanFile.put_value(good)
    b.loadFile()
    ctx.check(b.runnerState.value == "Configured" and b.scansConfigured.value == 2,
              "loaded", b.runnerState.value)
    b.run_async().result(timeout=1000)
    check_scans(ctx, w, out, want, w.begun)
    ctx.check(b.scanSuccesses.value == 2 and len(w.begun) == 2, "every scan is done")


HARNESSES = {
    "scans": Harness(
        scans,
        quick=[dict(sets=2, ways=["fine", "refused", "assert"]),
               dict(sets=1, ways=list(WAYS), bad=2),
               dict(sets=1, ways=["fine", "broken", "aborted"], runs=2),
               dict(sets=2, ways=["fine", "refused", "aborted"], bad=1, far=True)],
        thorough=[dict(sets=2, ways=list(WAYS), bad=2),
                  dict(sets=2, ways=["fine", "refused", "error", "aborted"], bad=3),
                  dict(sets=2, ways=["fine", "broken", "timeout"], runs=2),
                  dict(sets=2, ways=list(WAYS), bad=2, far=True)],
        must=["failures"]),
    "abort": Harness(abort, quick=[dict(sets=1), dict(sets=2), dict(sets=1, far=True)],
                     must=["aborted in configure", "aborted in run"]),
    "load": Harness(load, must=list(BAD)),
}
