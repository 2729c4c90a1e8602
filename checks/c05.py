"""State machine of blocks"""
from symx.harness import Harness

from . import scanlib as L

TITLE = "Blocks only make legal state changes"
ASSUMPTIONS = [
    "the parts are stand-ins that record, block or fail as told",
    "the generator is a stand-in of 2 x 3 steps",
    "the real cothread scheduler runs on a virtual clock",
]

# The documented state machine, written out independently of the code
LEGAL = {
    "Disabling": "Disabled Fault",
    "Disabled": "Resetting",
    "Fault": "Resetting Disabling",
    "Resetting": "Ready",
    "Ready": "Saving Loading Configuring Aborting",
    "Saving": "Ready",
    "Loading": "Ready",
    "Configuring": "Armed Aborting",
    "Armed": "Running Seeking Resetting Aborting",
    "Running": "PostRun Seeking Aborting",
    "PostRun": "Finished Armed Seeking Aborting",
    "Finished": "Seeking Resetting Configuring Aborting",
    "Seeking": "Armed Paused Finished Aborting",
    "Paused": "Seeking Running Aborting",
    "Aborting": "Aborted",
    "Aborted": "Resetting",
}
LEGAL = {k: set(v.split()) for k, v in LEGAL.items()}
for _s in LEGAL:
    if _s not in ("Fault", "Disabled", "Disabling"):
        LEGAL[_s] |= {"Fault", "Disabling"}

ALL = set(LEGAL)
NOT_DIS = ALL - {"Disabled", "Disabling"}
WRITEABLE = {
    "configure": {"Ready", "Finished"},
    "run": {"Armed"},
    "pause": {"Armed", "Paused", "Running", "Finished"},
    "resume": {"Paused"},
    "abort": {"Ready", "Configuring", "Armed", "Running", "PostRun", "Paused",
              "Seeking", "Finished"},
    "reset": {"Fault", "Disabled", "Aborted", "Armed", "Finished"},
    "disable": NOT_DIS,
    "validate": NOT_DIS,
    "save": {"Ready"},
    "completedSteps": {"Paused", "Armed"},
    "layout": {"Ready"},
    "exports": {"Ready"},
    "design": {"Ready"},
    "configuredSteps": set(),
    "totalSteps": set(),
    "state": set(),
    "health": set(),
    "modified": set(),
}


class Boom(Exception):
    pass


class Machine:
    def __init__(self, ctx, nparts=2):
        self.ctx = ctx
        self.log = []
        self.block_runs = False
        self.armed_fail = None  # hook calls left until a part fails
        self.block_at = None
        self.failed = 0
        self.in_run = []
        self.slow_at = None
        self.parts = [L.make_part(f"p{i}", self.log, self.behave) for i in range(nparts)]
        self.fut = None
        self.rig = L.Rig(self.parts, start=False)
        self.trace = []
        self.health = []
        self.subscribe("state", self.trace)
        self.subscribe("health", self.health)
        self.gen = L.make_generator([(2, "y"), (3, "x")])
        self.expect = "Disabled"
        self.done = 0

    def subscribe(self, field, out):
        from malcolm.core import Subscribe

        r = Subscribe(id=len(field), path=["SCAN", field], delta=False)
        r.set_callback(lambda resp: out.append(resp.value))
        self.pending = getattr(self, "pending", []) + [r]

    def start(self):
        self.rig.process.start()
        for r in self.pending:
            self.rig.controller.handle_request(r)
        self.ctx.settle()
        self.ctx.check(self.trace and self.trace[-1]["value"] in ("Ready", "Fault"),
                       "state after starting", self.rig.state)

    def behave(self, part, hook, context):
        if self.armed_fail is not None and hook not in ("Init", "Halt"):
            n = self.armed_fail
            self.armed_fail = n - 1
            if n == 0:
                self.failed += 1
                self.ctx.cover(f"failure in {hook}")
                raise Boom(f"failure in {hook}")
        if self.slow_at is not None and hook in ("Reset", "Disable", "Abort"):
            n = self.slow_at
            self.slow_at = n - 1
            if n == 0:
                import cothread

                self.ctx.cover(f"slow {hook}")
                self.in_run.append(part.name)
                cothread.Sleep(5.0)
                self.in_run.remove(part.name)
        if self.block_at is not None and hook in STOPPABLE:
            n = self.block_at
            self.block_at = n - 1
            if n == 0:
                self.ctx.cover(f"interrupted in {hook}")
                self.in_run.append(part.name)
                try:
                    for i in range(50):
                        context.sleep(20.0)
                finally:
                    self.in_run.remove(part.name)
        if hook == "Run" and self.block_runs:
            self.in_run.append(part.name)
            try:
                while self.block_runs:
                    context.sleep(20.0)
            finally:
                self.in_run.remove(part.name)

    # ------------------------------------------------------------ operations
    def call(self, op):
        b = self.rig.block
        if op == "configure":
            b.configure(generator=self.gen, axesToMove=["x"])
        elif op == "put":
            b.completedSteps.put_value(1)
        elif op == "start":
            if not self.available(self.rig.state, "run"):
                return b.run()
            self.block_runs = True
            self.fut = b.run_async()
            self.ctx.settle()
            if not self.in_run:
                f, self.fut = self.fut, None
                self.block_runs = False
                f.result(timeout=100)
        elif op == "release":
            self.block_runs = False
            if self.fut is not None:
                self.fut.result(timeout=100)
        elif op == "resume":
            self.block_runs = False
            b.resume()
            self.ctx.settle()
            if self.fut is not None:
                self.fut.result(timeout=100)
        elif op == "validate":
            b.validate(generator=self.gen, axesToMove=["x"])
        elif op == "save":
            b.save(designName="d")
        elif op == "writelayout":
            b.layout.put_value(b.layout.value)
        else:
            getattr(b, op)()

    def after(self, state, op):
        """The state an operation ends in when nothing fails"""
        if op == "configure":
            self.done = 0
            return "Armed"
        if op in ("run", "release", "resume"):
            self.done = 3 if self.done < 3 else 6
            return "Armed" if self.done < 6 else "Finished"
        if op == "start":
            return "Running"
        if op == "pause":
            return "Paused" if state == "Running" else state
        if op == "put":
            self.done = 0
            return state
        if op == "abort":
            return "Aborted"
        if op == "reset":
            return "Ready"
        if op == "disable":
            return "Disabled"
        return state

    def available(self, state, op):
        if op == "put":
            return state in WRITEABLE["completedSteps"]
        if op == "start":
            return state in WRITEABLE["run"]
        if op == "release":
            return state == "Running"
        if op == "writelayout":
            return state in WRITEABLE["layout"]
        return state in WRITEABLE[op]

    def do(self, op, fail_at=None):
        """One operation, and everything that must hold after it"""
        from malcolm.core import NotWriteableError

        ctx = self.ctx
        state = self.rig.state
        ok = self.available(state, op)
        if op == "release" and not ok:
            return
        n, nh = len(self.trace), len(self.log)
        self.armed_fail = fail_at
        was = self.failed
        err = None
        try:
            self.call(op)
        except Exception as e:
            err = e
        self.armed_fail = None
        self.ctx.settle()
        what = f"{op} in {state}"
        self.history(what)
        if not ok:
            ctx.check(isinstance(err, NotWriteableError), f"{what}: refused", repr(err))
            ctx.check(len(self.trace) == n and len(self.log) == nh and
                      self.rig.state == state, f"{what}: changes nothing")
            ctx.cover("refused")
            return
        if self.failed > was:
            ctx.check(err is not None, f"{what}: the failure is reported")
            ctx.check("failure in" in str(err), f"{what}: the failure is reported",
                      repr(err))
            want = "Fault"
            ctx.check(self.health[-1]["value"] == str(err), "health shows the failure",
                      self.health[-1]["value"])
            ctx.cover("failed")
        else:
            ctx.check(err is None, f"{what}: works", repr(err))
            want = self.after(state, op)
            ctx.cover(op)
        ctx.check(self.rig.state == want, f"{what}: state {want}", self.rig.state)
        self.quiet(want, what)
        if want in ("Aborted", "Disabled", "Fault"):
            # nothing goes on running behind the block's back
            self.ended(what)

    def ended(self, what):
        from malcolm.core import AbortedError

        ctx = self.ctx
        ctx.check(not self.in_run, f"{what}: parts stopped", self.in_run)
        if self.fut is not None:
            try:
                self.fut.result(timeout=100)
                e = None
            except Exception as x:
                e = x
            ctx.check(isinstance(e, (AbortedError, Boom)) or "failure in" in str(e)
                      or e is None, f"{what}: the run ends as aborted", repr(e))
            self.fut = None
        self.block_runs = False
        self.ctx.advance(30)
        s = self.rig.state
        ctx.check(s == self.trace[-1]["value"], "state is stable")
        self.history(what)
        self.quiet(s, what + " later")
        self.last = s

    def history(self, what):
        ctx = self.ctx
        for a, b in zip(self.trace, self.trace[1:]):
            if a["value"] != b["value"]:
                ctx.check(b["value"] in LEGAL[a["value"]], f"{what}: legal transition",
                          (a["value"], b["value"]))

    def quiet(self, state, what):
        """Everything shown agrees with the state"""
        ctx = self.ctx
        b = self.rig.block
        ctx.check(self.rig.state == state, f"{what}: state", self.rig.state)
        h = b.health
        if state == "Fault":
            ctx.check(h.alarm.severity.name == "MAJOR_ALARM" and h.value != "OK",
                      f"{what}: health in fault", (h.value, h.alarm))
        elif state == "Disabled":
            ctx.check(h.value == "Disabled" and h.alarm.severity.name == "INVALID_ALARM",
                      f"{what}: health when disabled", (h.value, h.alarm))
        else:
            ctx.check(h.value == "OK" and h.alarm.severity.name == "NO_ALARM",
                      f"{what}: health", (h.value, h.alarm))
        sev = b.state.alarm.severity.name
        ctx.check((sev == "MAJOR_ALARM") == (state == "Fault"), f"{what}: state alarm", sev)
        for name, states in WRITEABLE.items():
            w = bool(b[name].meta.writeable)
            ctx.check(w == (state in states), f"{what}: {name} available", w)


STOPPABLE = ("PreConfigure", "Configure", "PreRun", "Run", "PostRunArmed",
             "PostRunReady", "Seek")
OPS = ["configure", "run", "start", "release", "pause", "resume", "abort", "reset",
       "disable", "validate", "save", "put", "writelayout"]

REACH = {
    "Ready": [],
    "Armed": ["configure"],
    "Armed2": ["configure", "run"],
    "Running": ["configure", "start"],
    "Running2": ["configure", "run", "start"],
    "Paused": ["configure", "start", "pause"],
    "Finished": ["configure", "run", "run"],
    "Aborted": ["configure", "abort"],
    "Disabled": ["disable"],
    "RunningAfterAbort": ["configure", "abort", "reset", "configure", "start"],
}


def ops(ctx):
    """from each state: any operation with a failure in any (or no) part call,
    then any operation(s) without one"""
    p = ctx.params
    m = Machine(ctx)
    m.start()
    for op in REACH[p["state"]]:
        m.do(op)
    first = ctx.choice("op0", OPS)
    fail = ctx.int("fail", 0, 12)
    m.do(first, fail)
    for i in range(1, p["depth"]):
        m.do(ctx.choice(f"op{i}", OPS))
    # whatever happened, the block can be brought back
    if m.rig.state not in ("Ready",):
        if m.rig.state not in WRITEABLE["reset"]:
            m.do("abort")
        m.do("reset")
        ctx.check(m.rig.state == "Ready", "reset works")
    m.do("configure")
    m.do("run")


def interrupt(ctx):
    """configure, run or pause held up in any part call: any operation can come
    in, and works or is refused as the state it finds says"""
    from malcolm.core import AbortedError

    p = ctx.params
    m = Machine(ctx)
    m.start()
    for op in REACH[p["state"]]:
        m.do(op)
    b = m.rig.block
    m.block_at = ctx.int("block", 0, 8)
    if p["op"] == "configure":
        m.fut = b.configure_async(generator=m.gen, axesToMove=["x"])
    else:
        m.fut = getattr(b, p["op"] + "_async")()
    ctx.settle()
    m.block_at = None
    if not m.in_run:
        ctx.cover("not held up")
        return
    state = m.rig.state
    ctx.check(state == dict(configure="Configuring", pause="Seeking").get(p["op"], state)
              and state in ("Configuring", "Seeking", "Running", "PostRun"),
              "state in the middle", state)
    m.quiet(state, "in the middle")
    op = ctx.choice("op", ["abort", "disable", "pause", "reset", "configure", "run",
                           "resume", "put", "save", "validate"])
    if op == "pause" and state == "Running":
        m.do("pause")
        m.quiet("Paused", "pause")
        ctx.cover("pause")
        m.do("resume")
    else:
        m.do(op)
        ctx.cover(op)
    if m.rig.state in ("Aborted", "Disabled"):
        m.do("reset")
        m.do("configure")
        m.do("run")


def between(ctx):
    """reset, disable or abort held up in any part call: what may be used in the state
    in between may, and everything else is refused"""
    p = ctx.params
    m = Machine(ctx)
    m.start()
    for op in REACH[p["state"]]:
        m.do(op)
    b = m.rig.block
    m.slow_at = ctx.int("slow", 0, 1)
    fut = getattr(b, p["op"] + "_async")()
    ctx.settle()
    m.slow_at = None
    state = m.rig.state
    ctx.check(state == dict(reset="Resetting", disable="Disabling",
                            abort="Aborting")[p["op"]], "state in between", state)
    m.quiet(state, "in between")
    op = ctx.choice("op", ["disable", "abort", "pause", "reset", "configure", "run",
                           "resume", "put", "save", "validate", "writelayout"])
    if op == "disable" and m.available(state, op):
        b.disable()
        ctx.check(m.rig.state == "Disabled", "disabled in between", m.rig.state)
        m.quiet("Disabled", "disabled in between")
        m.history("disabled in between")
        ctx.cover("disabled")
    else:
        m.do(op)
    ctx.advance(30)
    try:
        fut.result(timeout=10)
    except Exception as e:
        ctx.check(op == "disable", "it ends well", repr(e))
    m.history("in the end")
    end = m.rig.state
    ctx.check(end in ("Ready", "Disabled", "Aborted"), "it ends", end)
    m.quiet(end, "in the end")
    m.ended("in the end")
    if end != "Ready":
        m.do("reset")
    m.do("configure")


def table(ctx):
    """every pair of states of the three kinds of block"""
    from malcolm.modules.builtin.util import ManagerStates, StatefulStates
    from malcolm.modules.scanning.util import RunnableStates

    kind = ctx.params["kind"]
    sset = dict(stateful=StatefulStates, manager=ManagerStates,
                runnable=RunnableStates)[kind]()
    names = list(LEGAL)
    if kind != "runnable":
        names = ["Disabling", "Disabled", "Fault", "Resetting", "Ready"]
        if kind == "manager":
            names += ["Saving", "Loading"]
    ctx.check(set(sset.possible_states) == set(names), "states", sset.possible_states)
    a = ctx.choice("from", names)
    b = ctx.choice("to", names)
    got = sset.transition_allowed(initial_state=a, target_state=b)
    ctx.check(bool(got) == (b in LEGAL[a]), f"transition {a} to {b}", got)
    ctx.cover("allowed" if got else "not allowed")


HARNESSES = {
    "table": Harness(table, quick=[dict(kind=k) for k in
                                   ("stateful", "manager", "runnable")],
                     must=["allowed", "not allowed"], max_fork=20),
    "interrupt": Harness(interrupt, quick=[
        dict(state="Ready", op="configure"), dict(state="Finished", op="configure"),
        dict(state="Armed", op="run"), dict(state="Armed2", op="run"),
        dict(state="Armed", op="pause"), dict(state="Paused", op="pause")],
        must=["abort", "disable", "pause", "refused"] + [
            f"interrupted in {h}" for h in STOPPABLE]),
    "between": Harness(between, quick=[
        dict(state="Disabled", op="reset"), dict(state="Aborted", op="reset"),
        dict(state="Finished", op="reset"), dict(state="Ready", op="disable"),
        dict(state="Running", op="disable"), dict(state="Running", op="abort"),
        dict(state="Armed", op="abort")], must=["refused", "disabled", "slow Reset",
                                                "slow Disable", "slow Abort"]),
    "ops": Harness(ops, quick=[dict(state=s, depth=2) for s in REACH],
                   thorough=[dict(state=s, depth=3) for s in REACH],
                   must=["refused", "failed"] + OPS, replay_all=True),
}
