"""Stand-ins shared by the scanning checks"""
import os
import tempfile

SCRATCH = []


def scratch():
    """One scratch directory per process, removed at exit"""
    if not SCRATCH:
        import atexit
        import shutil

        d = tempfile.mkdtemp(prefix="symx-scan-")
        SCRATCH.append(d)
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return SCRATCH[0]


class Dim:
    def __init__(self, size, axes):
        self.size = size
        self.axes = list(axes)


_GEN = []


def make_generator(dims, duration=1.0):
    """A generator of dimensions [(size, axes)], slowest first.  The sizes may
    be symbolic, so the points themselves are never calculated."""
    from scanpointgenerator import CompoundGenerator

    if not _GEN:

        class FakeGenerator(CompoundGenerator):
            prepared = 0

            def prepare(self):
                self.prepared += 1

        _GEN.append(FakeGenerator)
    g = _GEN[0]([], [], [], duration=duration)
    g.axes = [a for d in dims for a in d[1]]
    g.units = {a: "mm" for a in g.axes}
    g.dimensions = [Dim(*d) for d in dims]
    g.size = 1
    for d in dims:
        g.size = g.size * d[0]
    return g


class Stop(Exception):
    pass


def make_part(name, log, behave, extra=None):
    """A part that records every hook it is called with.

    behave(part, hook, context, **kw) is called in each hook; what it returns is
    returned to the controller"""
    from annotypes import add_call_types

    from malcolm.core import Part, PartRegistrar
    from malcolm.modules.builtin.hooks import DisableHook, HaltHook, InitHook, ResetHook
    from malcolm.modules.scanning import hooks as H

    class ScanPart(Part):
        start = 0
        todo = 0
        registrar = None

        def setup(self, registrar: PartRegistrar) -> None:
            super().setup(registrar)
            self.registrar = registrar
            for hook, f in [
                (H.ConfigureHook, self.on_configure),
                (H.PostRunArmedHook, self.on_post_run_armed),
                (H.SeekHook, self.on_seek),
            ]:
                registrar.hook(hook, f)
            for hook in (H.PreConfigureHook, H.PreRunHook, H.RunHook,
                         H.PostRunReadyHook, H.PauseHook, H.AbortHook, InitHook,
                         ResetHook, DisableHook, HaltHook):
                registrar.hook(hook, self.plain(hook.__name__[:-4]))

        def plain(self, hname):
            @add_call_types
            def f(context: H.AContext) -> None:
                log.append((self.name, hname))
                return behave(self, hname, context)

            return f

        def seg(self, hname, context, completed_steps, steps_to_do):
            self.start = completed_steps
            self.todo = steps_to_do
            log.append((self.name, hname, completed_steps, steps_to_do))
            return behave(self, hname, context)

        @add_call_types
        def on_configure(self, context: H.AContext, completed_steps: H.ACompletedSteps,
                         steps_to_do: H.AStepsToDo, generator: H.AGenerator,
                         axesToMove: H.AAxesToMove,
                         breakpoints: H.ABreakpoints) -> H.UInfos:
            return self.seg("Configure", context, completed_steps, steps_to_do)

        @add_call_types
        def on_post_run_armed(self, context: H.AContext,
                              completed_steps: H.ACompletedSteps,
                              steps_to_do: H.AStepsToDo) -> None:
            return self.seg("PostRunArmed", context, completed_steps, steps_to_do)

        @add_call_types
        def on_seek(self, context: H.AContext, completed_steps: H.ACompletedSteps,
                    steps_to_do: H.AStepsToDo) -> None:
            return self.seg("Seek", context, completed_steps, steps_to_do)

    return ScanPart(name)


def nothing(part, hook, context):
    return None


class Rig:
    """A process with one runnable block"""

    def __init__(self, parts, mri="SCAN", start=True):
        from malcolm.core import Context, Process
        from malcolm.modules.scanning.controllers import RunnableController

        self.process = Process("proc")
        self.controller = RunnableController(mri, scratch())
        for p in parts:
            self.controller.add_part(p)
        self.process.add_controller(self.controller)
        if start:
            self.process.start()
        self.block = self.controller.block_view()

    @property
    def state(self):
        return self.block.state.value

    def steps(self):
        b = self.block
        return b.completedSteps.value, b.configuredSteps.value, b.totalSteps.value


def earlier(ctx, block, how, **kw):
    """Another scan was done before: to its end ("done", "reset"), not at all ("armed")
    or partly ("part"), then aborted"""
    import cothread

    block.configure(**kw)
    if how in ("done", "reset"):
        while block.state.value == "Armed":
            block.run_async().result(timeout=1000)
        ctx.check(block.state.value == "Finished", "the scan before finishes",
                  block.state.value)
    else:
        f = None
        if how == "part":
            f = block.run_async()
            cothread.Sleep(1.75)
        block.abort()
        if f:
            try:
                f.result(timeout=1000)
            except Exception:
                ctx.cover("aborted before")
    if how != "done":
        block.reset()
        ctx.check(block.state.value == "Ready", "reset", block.state.value)
