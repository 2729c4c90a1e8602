"""Blocks of a process: found, started, published and halted"""
from symx.harness import Harness

TITLE = "The process publishes exactly the live blocks"
ASSUMPTIONS = [
    "parts of the blocks are stand-ins that return, fail or take their time; the "
    "client comms of the proxies is a stand-in, as is the server that hears what is "
    "published (any controller with a ProcessPublishHook does)",
    "the real cothread scheduler runs on a virtual clock; threads switch where they "
    "block, so orders are those of the symbolic start and duration times",
]


class Boom(Exception):
    pass


def make_classes(log):
    from malcolm.core import Part
    from malcolm.modules.builtin.controllers import (
        BasicController,
        ClientComms,
        StatefulController,
    )
    from malcolm.modules.builtin.hooks import (
        DisableHook,
        HaltHook,
        InitHook,
    )

    class P(Part):
        """Does what its block's slot says"""

        slot = None
        process = None

        def setup(self, registrar):
            super().setup(registrar)
            registrar.hook(InitHook, self.on_init)
            registrar.hook(HaltHook, self.on_halt)
            registrar.hook(DisableHook, self.on_disable)

        def on_init(self):
            log.append(("init", id(self.slot)))
            self.slot.act()

        def on_halt(self):
            log.append(("halt", id(self.slot)))
            self.slot.stop_act()

        def on_disable(self):
            log.append(("disable", id(self.slot)))

    class Comms(ClientComms):
        slots = None

        def sync_proxy(self, mri, block):
            s = [x for x in self.slots if x.controller._block is block][0]
            log.append(("init", id(s)))
            s.act()

    class Server(BasicController):
        heard = None

        def hear(self, published):
            self.heard.append(list(published))

    return P, Comms, Server, StatefulController, BasicController


class Slot:
    """One block that somebody adds"""

    def __init__(self, w, i, mri, kind, behave, child=None):
        from malcolm.core import ProcessPublishHook
        from malcolm.modules.builtin.controllers import ProxyController

        self.w, self.i, self.mri, self.kind, self.behave = w, i, mri, kind, behave
        self.child = child
        self.nested = []
        self.refused = None
        self.added = False
        if kind == "server":
            self.controller = c = w.Server(mri)
            c.heard = []
            c.register_hooked(ProcessPublishHook, c.hear, lambda *a: ["published"])
        elif kind == "plain":
            self.controller = w.Basic(mri)
        elif kind in ("hidden", "shown"):
            self.controller = ProxyController(mri, "COMMS", publish=kind == "shown")
        else:
            self.controller = w.Stateful(mri)
            part = w.P("p")
            part.slot = self
            self.controller.add_part(part)
            if child is not None:
                # how the process knows that one block is the child of another
                other = w.Plain("c")
                other.mri = child
                self.controller.add_part(other)

    def act(self):
        import cothread

        if "slow" in self.behave:
            cothread.Sleep(2.0)
        if self.nested:
            self.w.add(self.nested)
        if "fail" in self.behave:
            raise Boom(self.mri)

    def stop_act(self):
        import cothread

        if "halt slow" in self.behave:
            cothread.Sleep(2.0)
        if "halt bad" in self.behave:
            raise Boom(self.mri)


class World:
    def __init__(self):
        from malcolm.core import Part, Process

        self.log = []
        self.P, self.Comms, self.Server, self.Stateful, self.Basic = make_classes(
            self.log
        )
        self.Plain = type("Plain", (Part,), {})
        self.process = Process("proc")
        self.comms = self.Comms("COMMS")
        self.comms.slots = []
        self.process.add_controller(self.comms)
        self.slots = []

    def slot(self, *a, **k):
        s = Slot(self, len(self.slots), *a, **k)
        self.slots.append(s)
        self.comms.slots.append(s)
        return s

    def add(self, slots):
        """Add a list of blocks; it is refused if a name is used already"""
        names = [s.mri for s in slots]
        taken = {s.mri for s in self.slots if s.added} | {"COMMS"}
        bad = len(set(names)) < len(names) or set(names) & taken
        if not bad:
            for s in slots:
                s.added = True
        try:
            self.process.add_controllers([s.controller for s in slots])
        except AssertionError:
            refused = True
        else:
            refused = False
        for s in slots:
            s.refused = refused
            s.wrong = refused != bool(bad)


def verify(ctx, w, when):
    """What the process should show now"""
    p = w.process
    live = [s for s in w.slots if s.added]
    for s in w.slots:
        if s.refused is not None:
            ctx.check(not s.wrong, f"{when}: a list of blocks is refused exactly when it "
                      "has a name that is in use", (s.i, s.mri, s.refused))
    ctx.check(sorted(p.mri_list) == sorted([s.mri for s in live] + ["COMMS"]),
              f"{when}: the blocks of the process are those added", p.mri_list)
    for s in live:
        ctx.check(p.get_controller(s.mri) is s.controller,
                  f"{when}: a block is found under its name", s.mri)
    names = {s.mri for s in live}
    for n in ("A", "B", "C", "D", "NONE"):
        if n not in names:
            try:
                p.get_controller(n)
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, f"{when}: no other block is found", n)


def started(ctx, w, when):
    """Everything that was added has started and been published"""
    live = [s for s in w.slots if s.added]
    expect = sorted([s.mri for s in live if s.kind != "hidden"] + ["COMMS"])
    hidden = {s.mri for s in live if s.kind == "hidden"}
    for s in w.slots:
        inits = w.log.count(("init", id(s)))
        if s.kind in ("server", "plain"):
            continue
        ctx.check(inits == (1 if s.added else 0), f"{when}: each block is started once",
                  (s.i, s.mri, inits, s.added))
        if s.added and s.kind == "stateful":
            fails = "fail" in s.behave or any(n.wrong for n in s.nested)
            state = s.controller.state.value
            ctx.check(state == ("Fault" if fails else "Ready"),
                      f"{when}: a block is ready, or shows that it failed to start",
                      (s.mri, s.behave, state))
        if s.added and s.kind in ("hidden", "shown"):
            ctx.cover(f"{s.kind} {s.behave}")
    for s in live:
        if s.kind != "server":
            continue
        heard = s.controller.heard
        ctx.check(heard and sorted(heard[-1]) == expect,
                  f"{when}: what is published last is exactly the blocks meant to be",
                  (heard[-1:], expect))
        ctx.check(all(not hidden & set(h) for h in heard),
                  f"{when}: a block not meant to be published never is", heard)
        ctx.check(all(len(set(h)) == len(h) for h in heard),
                  f"{when}: a block is published once", heard)
        ctx.cover("heard")


def stopped(ctx, w):
    p = w.process
    live = [s for s in w.slots if s.added]
    p.stop(timeout=30)
    for s in live:
        if s.kind != "stateful":
            continue
        h = w.log.count(("halt", id(s)))
        ctx.check(h == 1, "stopping halts every block once", (s.mri, h))
        if "halt bad" not in s.behave:
            ctx.check(w.log.count(("disable", id(s))) == 1
                      and s.controller.state.value == "Disabled",
                      "stopping disables every block", (s.mri, s.controller.state.value))
    for s in w.slots:
        if not s.added:
            ctx.check(w.log.count(("halt", id(s))) == 0,
                      "a refused block is not halted", s.mri)
    ctx.check(p.mri_list == [], "a stopped process has no blocks", p.mri_list)
    # and can be used again
    n = World.__new__(World)
    n.__dict__.update(w.__dict__)
    n.slots = []
    n.comms = w.Comms("COMMS")
    n.comms.slots = []
    p.add_controller(n.comms)
    a = n.slot("S", "server", "ok")
    b = n.slot("A", "stateful", "ok")
    n.add([a])
    p.start()
    n.add([b])
    ctx.settle()
    verify(ctx, n, "again")
    started(ctx, n, "again")
    p.stop(timeout=30)


def life(ctx):
    """A server and 2 (or 3) more blocks of any kind, with names from A, B (so also
    the same), starting well, slowly or failing; added before the start, by another
    block while it starts, after it in one list or one by one, or by another thread at
    any time from 0 to 3 s after the start is called; then the process is stopped"""
    import cothread

    q = ctx.params
    w = World()
    server = w.slot("S", "server", "ok")
    names = q.get("names", ["A", "B"])
    slots = []
    for i in range(q["n"]):
        kind = ctx.choice(f"kind{i}", q["kinds"][i])
        behave = "ok" if kind == "plain" else ctx.choice(f"behave{i}", q["behave"][i])
        child = None
        if q.get("children") and kind == "stateful":
            child = ctx.choice(f"child{i}", [None] + names)
            if child == names[i]:
                child = None
        mri = names[i] if not q.get("same") else ctx.choice(f"mri{i}", names)
        s = w.slot(mri, kind, behave, child)
        s.when = ctx.choice(f"when{i}", q["when"][i])
        slots.append(s)
    # a block that is its own descendant is never at the top of the tree
    kids = {s.mri: s.child for s in slots}
    for m in kids:
        seen, x = [], m
        while x is not None:
            ctx.assume(x not in seen)
            seen.append(x)
            x = kids.get(x)
    server_when = ctx.choice("server", q["server"])
    lists = {}
    for s in slots:
        s.adder = None
        if s.when == "nested":
            # by the block before it, which may itself never be added
            prev = slots[slots.index(s) - 1]
            if prev.kind in ("stateful", "shown", "hidden"):
                prev.nested.append(s)
                s.adder = prev
            else:
                s.when = "after"
        if s.adder is None:
            lists.setdefault(s.when, []).append(s)
    if server_when == "before":
        w.add([server])
    if "before" in lists:
        w.add(lists["before"])
    threads = []

    def later(s):
        def run(s=s, at=ctx.int(f"at{s.i}", 0, 3)):
            # half a second later, so it never comes at the time something ends
            cothread.Sleep(int(at) + 0.5)
            w.add([s])

        threads.append(cothread.Spawn(run))

    for s in lists.get("thread", []):
        later(s)
    w.process.start()
    if server_when == "after":
        w.add([server])
    if "after" in lists:
        w.add(lists["after"])
    for s in lists.get("one by one", []):
        w.add([s])
    for t in threads:
        t.Wait()
    ctx.advance(10)
    verify(ctx, w, "at the end")
    started(ctx, w, "at the end")
    for s in slots:
        ctx.cover(f"{s.when} {'refused' if s.refused else 'added'}")
    stopped(ctx, w)
    ctx.observe("log", [x[0] for x in w.log])
    ctx.observe("heard", server.controller.heard)


def spawned(ctx):
    """Up to 3 functions spawned by a process before it is stopped, and one more spawned
    by the first, each lasting 0 to 2 s and returning or failing: all have ended when
    stop returns, and each gives its own result, also when the process clears out
    those that have ended after every spawn"""
    import cothread

    from malcolm.core import Process, process as mod

    p = Process("proc")
    p.start()
    old = mod.SPAWN_CLEAR_COUNT
    mod.SPAWN_CLEAR_COUNT = ctx.choice("clear", [0, 1, 1000])
    try:
        done = []
        res = {}

        def work(i, d, bad, result):
            if i == 0:
                res["n"] = p.spawn(work, "n", dn, False, 77)
            cothread.Sleep(d)
            done.append(i)
            if bad:
                raise Boom(str(i))
            return result

        n = ctx.int("n", 1, 2)
        dn = int(ctx.int("dn", 0, 2))
        values = {}
        for i in range(int(n)):
            values[i] = ctx.int(f"v{i}", -9, 9)
            res[i] = p.spawn(work, i, int(ctx.int(f"d{i}", 0, 2)),
                             bool(ctx.bool(f"bad{i}")), result=values[i])
        ctx.advance(int(ctx.int("gap", 0, 1)))
        p.stop(timeout=30)
        ctx.check(len(done) == len(res), "stop waits for everything spawned", done)
        for i, s in res.items():
            ctx.check(s.ready(), "and it is ready", i)
            if i == "n":
                ctx.check(s.get(0) == 77, "nested result")
                continue
            try:
                r = s.get(0)
            except Boom as e:
                ctx.check(str(e) == str(i), "each failure is given to who waits for it")
                r = None
            if r is not None:
                ctx.check(r == values[i], "each result is given to who waits for it")
        try:
            p.spawn(work, 9, 0, False, 1)
            ok = False
        except AssertionError:
            ok = True
        ctx.check(ok, "nothing can be spawned when stopped")
        ctx.observe("done", [str(x) for x in done])
    finally:
        mod.SPAWN_CLEAR_COUNT = old


KINDS = ["plain", "stateful", "hidden", "shown"]
WHEN = ["before", "after", "one by one"]


def life_params(deep=False):
    r = []
    B = ["ok", "fail", "slow", "slow fail"]
    for k in ["stateful", "hidden", "shown"]:
        # added by another block while it starts, or by a thread
        r.append(dict(n=2, kinds=[["stateful"], [k]], behave=[B, B[:2] + ["slow"]],
                      when=[["before", "after", "thread"], ["nested"]],
                      server=["before", "after"], same=True))
    for k in KINDS:
        r.append(dict(n=2, kinds=[[k], KINDS], behave=[B[:2], B[:2]],
                      when=[WHEN, WHEN], server=["before", "after"], same=True))
        r.append(dict(n=2, kinds=[[k], ["hidden", "stateful"]],
                      behave=[["ok", "slow"], ["slow", "slow fail"]],
                      when=[["thread", "before", "after"], ["thread"]],
                      server=["before"], same=True))
    r.append(dict(n=3, names=["A", "B", "C"], kinds=[["stateful"], ["stateful"], ["hidden", "stateful"]],
                  behave=[["ok"]] * 3, when=[["before"], ["before", "after"], ["before", "after"]],
                  server=["before"], children=True))
    r.append(dict(n=2, kinds=[["stateful"]] * 2,
                  behave=[["ok", "halt bad", "halt slow", "halt slow halt bad", "fail"]] * 2,
                  when=[["before", "after"]] * 2, server=["before"]))
    if deep:
        r.append(dict(n=3, names=["A", "B", "C"], kinds=[["stateful", "hidden"]] * 3,
                      behave=[["ok", "slow fail"]] * 3,
                      when=[["before", "thread"], ["thread", "nested"], ["thread", "nested"]],
                      server=["before"]))
        r.append(dict(n=3, names=["A", "B"], kinds=[["stateful"], KINDS[1:], KINDS[1:]],
                      behave=[["ok", "slow"], ["ok", "fail"], ["ok", "slow"]],
                      when=[["before", "after"], ["nested", "after"], ["nested", "after"]],
                      server=["before"], same=True))
    return r


HARNESSES = {
    "life": Harness(life, quick=life_params(), thorough=life_params(True),
                    must=["heard"]),
    "spawned": Harness(spawned),
}
