"""Phases of an operation: every part, in step, stopped together"""
from symx.harness import Harness

from . import scanlib as L

TITLE = "Parts are driven in step, and stopped together"
ASSUMPTIONS = [
    "the parts are stand-ins that return, fail or wait as told, and stop within "
    "the ten seconds the framework gives them",
    "the real cothread scheduler runs on a virtual clock; orders of events are "
    "chosen by symbolic times",
]


class Boom(Exception):
    pass


def make_parts(ctx, n, asks, log):
    from annotypes import Anno, add_call_types

    from malcolm.core import Controller, Part, Process
    from malcolm.modules.builtin.hooks import AContext, ControllerHook

    AA = Anno("a", int, "a")
    AB = Anno("b", int, "b")

    class PhaseHook(ControllerHook):
        def validate_return(self, ret):
            return ret

    class OtherHook(ControllerHook):
        pass

    class P(Part):
        script = None

        def setup(self, registrar):
            super().setup(registrar)
            f = dict(none=None, context=self.f_c, a=self.f_a, ab=self.f_ab,
                     nothing=self.f_0, other=self.f_c)[self.asks]
            if f is not None:
                registrar.hook(OtherHook if self.asks == "other" else PhaseHook, f)

        def go(self, context, **kw):
            log.append(("start", self.name, kw))
            try:
                return self.script(self, context, kw)
            finally:
                log.append(("end", self.name))

        @add_call_types
        def f_c(self, context: AContext):
            return self.go(context)

        @add_call_types
        def f_a(self, context: AContext, a: AA):
            return self.go(context, a=a)

        @add_call_types
        def f_ab(self, b: AB, context: AContext, a: AA):
            return self.go(context, a=a, b=b)

        def f_0(self):
            return self.go(None)

    process = Process("proc")
    c = Controller("MRI")
    parts = []
    for i in range(n):
        p = P(f"p{i}")
        p.asks = asks[i]
        c.add_part(p)
        parts.append(p)
    process.add_controller(c)
    process.start()
    return process, c, parts, PhaseHook


def phase(ctx):
    """2..3 parts asking for different arguments; each returns any value, fails or
    waits to be stopped, after 0..2 s, in any combination"""
    import cothread

    from malcolm.core import AbortedError, Context

    p = ctx.params
    n = len(p["asks"])
    log = []
    process, c, parts, PhaseHook = make_parts(ctx, n, p["asks"], log)
    a, b = ctx.int("a", -100, 100), ctx.int("b", -100, 100)
    if p.get("empty"):
        # arguments that are there but not set
        a, b = ctx.choice("a is", [None, 0, a]), ctx.choice("b is", [None, False, b])
    args = dict(a=a, b=b)
    rets = {x.name: ctx.int("ret" + x.name, 1, 100) for x in parts}
    hooked = [x for x in parts if x.asks not in ("none", "other")]
    kinds, delays = {}, {}
    for x in hooked:
        ks = ["return", "fail"] + (["wait"] if x.asks != "nothing" else [])
        kinds[x.name] = ctx.choice("kind" + x.name, ks)
        delays[x.name] = ctx.int("delay" + x.name, 0, p.get("delay", 2))
        slow = 0

    def script(part, context, kw):
        k = kinds[part.name]
        d = int(delays[part.name])
        if k == "wait":
            try:
                context.sleep(500.0)
            except AbortedError:
                cothread.Sleep(d)
                raise
            raise Boom("never stopped")
        if d:
            if context is not None:
                context.sleep(d)
            else:
                cothread.Sleep(d)
        if k == "fail":
            raise Boom(part.name)
        return rets[part.name]

    for x in parts:
        x.script = script
    contexts = {x: Context(process) for x in parts}
    if p.get("stopped"):
        # stops from before the phase are not for this phase
        for x in parts:
            for _ in range(int(ctx.int("stops" + x.name, 0, 2))):
                contexts[x].stop()
    failing = [x for x in hooked if kinds[x.name] == "fail"]
    waiting = [x for x in hooked if kinds[x.name] == "wait"]
    abort = None
    if waiting and not failing:
        # somebody stops everything from outside
        abort = int(ctx.int("abort", 0, 3))

        def stopper():
            cothread.Sleep(abort + 0.5)
            for x in parts:
                contexts[x].stop()

        cothread.Spawn(stopper)
    err = ret = None
    try:
        ret = c.run_hooks(PhaseHook(x, contexts[x], **args) for x in parts)
    except Exception as e:
        err = e
    started = [e[1] for e in log if e[0] == "start"]
    ended = [e[1] for e in log if e[0] == "end"]
    names = sorted(x.name for x in hooked)
    ctx.check(sorted(started) == names, "every part of the phase is called once", started)
    ctx.check(sorted(ended) == names, "the phase goes on when all have returned", ended)
    want = dict(a=["a"], ab=["a", "b"])
    for e in log:
        if e[0] == "start":
            asked = want.get(parts[int(e[1][1:])].asks, [])
            ctx.check(sorted(e[2]) == asked, "arguments passed", e)
            ctx.check(ctx.And(*[e[2][k] is None if args[k] is None else e[2][k] == args[k] for k in asked]),
                      "values of the arguments", e)
    if failing:
        first = min(int(delays[x.name]) for x in failing)
        ctx.check(isinstance(err, Boom) and str(err) in
                  [x.name for x in failing if int(delays[x.name]) == first],
                  "the first failure is what the caller sees", repr(err))
        ctx.cover("failed")
        if waiting:
            ctx.cover("failed and others stopped")
    elif waiting:
        ctx.check(isinstance(err, AbortedError), "aborted", repr(err))
        ctx.cover("aborted")
    else:
        ctx.check(err is None, "phase works", repr(err))
        ctx.check(sorted(ret) == names, "results of all the parts", list(ret))
        ctx.check(ctx.And(*[ret[x.name] == rets[x.name] for x in hooked]),
                  "each result is from its part", ret)
        ctx.cover("returned")
    # the contexts still work in the next phase
    if err is not None:
        del log[:]
        for x in hooked:
            kinds[x.name] = "return"
        ret = c.run_hooks(PhaseHook(x, contexts[x], **args) for x in parts)
        ctx.check(sorted(ret) == names, "next phase", list(ret))
        ctx.check(ctx.And(*[ret[x.name] == rets[x.name] for x in hooked]),
                  "results of the next phase", ret)


def stopping(ctx):
    """abort, pause or disable while 1..3 parts run; each takes 0..3 s to stop"""
    import cothread

    from malcolm.core import AbortedError

    p = ctx.params
    log = []
    busy = []
    slow = {f"p{i}": ctx.int(f"slow{i}", 0, 3) for i in range(p["parts"])}
    fails = {f"p{i}": ctx.bool(f"fails{i}") for i in range(p["parts"])}
    stage = p["hook"]

    def behave(part, hook, context):
        if hook == stage and armed:
            busy.append(part.name)
            try:
                context.sleep(1000.0)
            except AbortedError:
                cothread.Sleep(int(slow[part.name]))
                if fails[part.name]:
                    raise Boom("when stopped")
                raise
            finally:
                busy.remove(part.name)
        elif hook in ("Abort", "Pause"):
            # the parts are at rest by now
            at_rest.append(list(busy))

    armed = [1]
    at_rest = []
    parts = [L.make_part(f"p{i}", log, behave) for i in range(p["parts"])]
    rig = L.Rig(parts)
    gen = L.make_generator([(2, "y"), (3, "x")])
    b = rig.block
    if stage == "Configure":
        fut = b.configure_async(generator=gen, axesToMove=["x"])
    else:
        b.configure(generator=gen, axesToMove=["x"])
        fut = b.run_async()
    ctx.settle()
    ctx.check(len(busy) == p["parts"], "all parts running", busy)
    op = p["op"]
    err = None
    try:
        getattr(b, op)()
    except Exception as e:
        err = e
    ctx.check(not busy, f"every part has finished when {op} returns", busy)
    bad = any(bool(f) for f in fails.values())
    if not bad:
        ctx.check(err is None, f"{op} works", repr(err))
        ctx.check(len(at_rest) == p["parts"] and not any(at_rest),
                  "parts are told once all are at rest", at_rest)
        ctx.check(rig.state == dict(abort="Aborted", pause="Paused")[op], "state",
                  rig.state)
        ctx.cover(op)
    else:
        ctx.cover("failure when stopped")
        try:
            fut.result(timeout=100)
        except Exception:
            pass
        ctx.check(not busy, "nothing left running", busy)


ASKS = [["context", "a"], ["ab", "none", "a"], ["nothing", "context"],
        ["context", "other", "ab"]]
HARNESSES = {
    "phase": Harness(phase, quick=[dict(asks=x) for x in ASKS] + [
        dict(asks=["a", "context"], stopped=True), dict(asks=["ab", "none"], empty=True),
        dict(asks=["context", "a", "ab"], delay=1)],
        thorough=[dict(asks=x) for x in ASKS + [["a", "ab", "context"]]] + [
            dict(asks=["a", "context"], stopped=True), dict(asks=["ab", "a"], empty=True)],
        must=["failed", "failed and others stopped", "aborted", "returned"]),
    "stopping": Harness(stopping, quick=[
        dict(parts=n, op=o, hook=h) for n in (1, 2)
        for o, h in (("abort", "Run"), ("pause", "Run"), ("abort", "Configure"))],
        thorough=[dict(parts=n, op=o, hook=h) for n in (1, 2, 3)
                  for o, h in (("abort", "Run"), ("pause", "Run"), ("abort", "Configure"))],
        must=["abort", "pause"]),
}
