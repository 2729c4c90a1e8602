"""Designs: what was saved is what is loaded, and modified tells the difference"""
import os
from enum import Enum

from symx.harness import Harness

from .c01 import plain
from .scanlib import scratch

TITLE = "Saved designs restore what was saved"
ASSUMPTIONS = [
    "the children are real blocks with stand-in hardware: a put stores the value, and "
    "setting mode also resets rate",
    "the JSON text of a symbolic number is an opaque token read back as that number; "
    "replays use the real text",
    "the sync command is replaced by one that does nothing",
    "the real cothread scheduler runs on a virtual clock",
]


class Boom(Exception):
    pass


class Colour(Enum):
    RED = "Red"
    GREEN = "Green"


COUNT = [0]


def config_dir():
    COUNT[0] += 1
    d = os.path.join(scratch(), f"c{COUNT[0]}")
    os.mkdir(d)
    return d


def no_sync():
    import subprocess

    if not hasattr(subprocess, "_symx"):
        real = subprocess._symx = subprocess.call
        subprocess.call = lambda cmd, *a, **k: 0 if cmd == "sync" else real(cmd, *a, **k)


def make_leaf(ctx, process, mri, world, kinds):
    """A block with settings of the given kinds"""
    from malcolm.core import (
        BooleanMeta, ChoiceMeta, NumberArrayMeta, NumberMeta, Part, StringMeta,
        TableMeta, config_tag,
    )
    from malcolm.modules.builtin.controllers import BasicController

    def table():
        return TableMeta("t", elements=dict(
            i=NumberArrayMeta("int32", "i"), s=NumberArrayMeta("float64", "s")),
            writeable=True)

    make = dict(
        n=lambda: (NumberMeta("int32", "n"), 0), f=lambda: (NumberMeta("float64", "f"), 0),
        c=lambda: (ChoiceMeta("c", ["p", "q"]), "p"),
        e=lambda: (ChoiceMeta("e", list(Colour)), Colour.RED),
        b=lambda: (BooleanMeta("b"), False), s=lambda: (StringMeta("s"), ""),
        arr=lambda: (NumberArrayMeta("int32", "arr"), [0, 0]),
        t=lambda: (table(), dict(i=[0], s=[0.5])),
        mode=lambda: (NumberMeta("int32", "mode"), 0),
        rate=lambda: (NumberMeta("int32", "rate"), 1),
        u=lambda: (NumberMeta("int32", "u"), 0), k=lambda: (NumberMeta("int32", "k"), 0),
        r=lambda: (NumberMeta("int32", "r"), 0),
    )

    class P(Part):
        def setup(self, registrar):
            super().setup(registrar)
            for kind in kinds:
                meta, default = make[kind]()
                it = dict(mode=2, rate=10, u=0).get(kind, 1)
                if it and kind != "r":
                    meta.set_tags([config_tag(it)])
                meta.set_writeable(kind != "r")
                attr = meta.create_attribute_model(default)
                world.attrs[(mri, kind)] = attr
                if kind == "r":
                    registrar.add_attribute_model(kind, attr)
                else:
                    registrar.add_attribute_model(kind, attr, self.setter(kind, attr))

        def setter(self, kind, attr):
            def put(value):
                world.puts.append((mri, kind))
                if world.fail == (mri, kind):
                    raise Boom(kind)
                attr.set_value(value)
                if kind == "mode" and (mri, "rate") in world.attrs:
                    world.attrs[(mri, "rate")].set_value(1)

            return put

    c = BasicController(mri)
    c.add_part(P("leaf"))
    process.add_controller(c)
    return c


class World:
    """A manager block over some leaves"""

    def __init__(self, ctx, leaves, directory=None, design=""):
        from malcolm.core import NumberMeta, Part, Process, config_tag
        from malcolm.modules.builtin.controllers import ManagerController
        from malcolm.modules.builtin.parts import ChildPart

        no_sync()
        self.ctx = ctx
        self.attrs = {}
        self.puts = []
        self.fail = None
        self.save_fails = None
        self.dir = directory or config_dir()
        self.leaves = leaves
        self.process = Process("proc")
        outer = self

        class Child(ChildPart):
            no_save_attribute_names = {"k"}

            def on_save(self, context):
                if outer.save_fails == self.name:
                    raise Boom("save")
                return ChildPart.on_save(self, context)

            on_save.call_types = ChildPart.on_save.call_types
            on_save.return_type = ChildPart.on_save.return_type

        class Own(Part):
            def setup(self, registrar):
                super().setup(registrar)
                attr = NumberMeta("int32", "own", tags=[config_tag(1)],
                                  writeable=True).create_attribute_model(0)
                outer.attrs[("M", "own")] = attr
                registrar.add_attribute_model("own", attr, attr.set_value)

        self.c = ManagerController("M", self.dir, initial_design=design)
        self.c.add_part(Own("ownPart"))
        self.children = {}
        for mri, kinds in leaves.items():
            make_leaf(ctx, self.process, mri, self, kinds)
            self.children[mri] = Child(mri.lower(), mri, initial_visibility=True,
                                       stateful=False)
            self.c.add_part(self.children[mri])
        self.process.add_controller(self.c)
        self.process.start()
        self.block = self.c.block_view()
        ctx.settle()

    def saved_keys(self):
        return [k for k in self.attrs if k[1] not in ("u", "k", "r")]

    def now(self):
        """Every saved setting"""
        d = {k: plain(self.attrs[k].value) for k in self.saved_keys()}
        d["exports"] = plain(self.c.exports.value)
        d["layout"] = plain(self.c.layout.value)
        return d

    def others(self):
        return {k: plain(a.value) for k, a in self.attrs.items()
                if k[1] in ("u", "k", "r")}

    def visible(self):
        t = self.c.layout.value
        return {m: v for m, v in zip(t.mri, t.visible)}

    def differs(self, saved):
        """Whether a saved setting of a visible child, the visibility or the exports
        differ from what was saved"""
        ctx = self.ctx
        vis = self.visible()
        now = self.now()
        same = [ctx.eq(now[k], saved[k]) for k in self.saved_keys() if vis.get(k[0])]
        same.append(ctx.eq(now["exports"], saved["exports"]))
        same.append(ctx.eq(now["layout"]["visible"], saved["layout"]["visible"]))
        return ctx.Not(ctx.And(*same))


def value_for(ctx, kind, name):
    v = ctx.int(name, -100, 100)
    if kind == "f":
        return ctx.real(name + "f", -100, 100)
    if kind == "c":
        return ctx.choice(name + "c", ["p", "q"])
    if kind == "e":
        return ctx.choice(name + "e", ["Red", "Green"])
    if kind == "b":
        return bool(ctx.bool(name + "b"))
    if kind == "s":
        return ctx.choice(name + "s", ["", "text", "\u00e9\"\\\n"])
    if kind == "arr":
        return [v, 7][: ctx.choice(name + "n", [2, 0])]
    if kind == "t":
        return dict(i=[v, 3], s=[0.25, 1.5])
    return v


def check_modified(ctx, w, saved, what):
    ctx.settle()
    got = w.c.modified.value
    want = w.differs(saved)
    ctx.check(ctx.Not(want) if not got else want, "modified exactly when it differs",
              (what, got, w.c.modified.alarm.message))


def check_file(ctx, w, name, saved, what):
    """The design on disk holds this: load it into a block of its own"""
    w2 = World(ctx, w.leaves, directory=w.dir)
    w2.block.design.put_value(name)
    ctx.check(ctx.eq(w2.now(), saved), "the design on disk is what was saved",
              (what, w2.now(), saved))


def histories(ctx):
    """Any sequence of puts, saves under two names, loads, and changes of layout and
    exports"""
    p = ctx.params
    w = World(ctx, p["leaves"])
    designs = {}
    current = w.now()
    what = []
    for i in range(p["n"]):
        op = ctx.choice(f"op{i}", p["ops"] if i else p["first"])
        what.append(op)
        if op.startswith("put"):
            mri, kind = op[4:].split(".")
            v = value_for(ctx, kind, f"v{i}")
            b = w.process.block_view(mri)
            before = {k: x for k, x in w.now().items()
                      if k != (mri, kind) and (kind != "mode" or k != (mri, "rate"))}
            b[kind].put_value(v)
            ctx.settle()
            after = w.now()
            ctx.check(ctx.eq({k: after[k] for k in before}, before),
                      "a put changes nothing else", what)
        elif op.startswith("save"):
            before = w.now()
            w.block.save(op[5:])
            ctx.check(ctx.eq(w.now(), before), "saving changes nothing", what)
            current = designs[op[5:]] = before
            ctx.check(w.block.design.value == op[5:], "the design saved", what)
            ctx.cover("saved")
        elif op.startswith("load"):
            ctx.assume(op[5:] in designs)
            others = w.others()
            w.puts.clear()
            w.block.design.put_value(op[5:])
            ctx.settle()
            ctx.check(ctx.eq(w.now(), designs[op[5:]]), "a load restores all of it",
                      (what, w.now(), designs[op[5:]]))
            ctx.check(ctx.eq(w.others(), others), "a load touches nothing else", what)
            ctx.check(w.block.design.value == op[5:], "the design loaded", what)
            ctx.check(w.block.modified.value is False, "not modified after a load",
                      (what, w.c.modified.alarm.message))
            current = designs[op[5:]]
            ctx.cover("loaded")
        elif op == "hide":
            t = w.block.layout.value
            vis = [not t.visible[0]] + list(t.visible[1:])
            w.block.layout.put_value(dict(name=t.name, mri=t.mri, x=[1.5] * len(t.x),
                                          y=t.y, visible=vis))
        elif op == "export":
            m = sorted(w.leaves)[0]
            k = w.leaves[m][0]
            src = [] if w.c.exports.value.source else [f"{m.lower()}.{k}"]
            w.block.exports.put_value(dict(source=src, export=["thing"] * len(src)))
        ctx.check(w.block.state.value == "Ready", "ready again", what)
        check_modified(ctx, w, current, what)
    ctx.cover("done")
    for name, saved in designs.items():
        check_file(ctx, w, name, saved, what)


def restarts(ctx):
    """The process stops, and another one starts with a design that was saved"""
    leaves = ctx.params["leaves"]
    w = World(ctx, leaves)
    for (mri, kind) in list(w.attrs):
        if mri != "M" and kind not in ("r",):
            w.process.block_view(mri)[kind].put_value(value_for(ctx, kind, mri + kind))
    w.block.own.put_value(ctx.int("own", -100, 100))
    m = sorted(leaves)[0]
    w.block.exports.put_value(dict(source=[f"{m.lower()}.{leaves[m][0]}"],
                                   export=["thing"]))
    w.block.save("d")
    saved = w.now()
    w.process.stop(timeout=1)
    w2 = World(ctx, leaves, directory=w.dir, design="d")
    ctx.check(w2.block.state.value == "Ready", "ready", w2.block.state.value)
    ctx.check(ctx.eq(w2.now(), saved), "a start with a design restores all of it",
              (w2.now(), saved))
    ctx.check(w2.block.modified.value is False, "not modified after a start",
              w2.c.modified.alarm.message)
    ctx.cover("done")
    (mri, kind) = sorted(k for k in w2.saved_keys() if k[0] != "M")[0]
    w2.process.block_view(mri)[kind].put_value(value_for(ctx, kind, "later"))
    check_modified(ctx, w2, saved, "after a start")


def failures(ctx):
    """Saving fails at any point: the design that was there before still loads"""
    import builtins

    leaves = ctx.params["leaves"]
    w = World(ctx, leaves)
    a = w.process.block_view("A")
    a.n.put_value(ctx.int("v0", -100, 100))
    w.block.save("d")
    saved = w.now()
    a.n.put_value(ctx.int("v1", -100, 100))
    where = ctx.params["where"]
    how = int(ctx.int("how", 0, 3))
    hit = []
    real = builtins.open, os.replace, os.rename

    def guarded(path):
        return isinstance(path, (str, os.PathLike)) and str(path).startswith(w.dir)

    class Bad:
        """A file on a full disk"""

        def __init__(self, f):
            self.f = f

        def write(self, text):
            hit.append(how)
            if how in (0, 1):
                self.f.write(text[: len(text) * how // 2])
                self.f.flush()
                raise OSError("No space left on device")
            return self.f.write(text)

        def close(self):
            self.f.close()
            if how == 2:
                raise OSError("Input/output error")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __getattr__(self, name):
            return getattr(self.f, name)

    def bad_open(path, mode="r", *args, **kw):
        if guarded(path) and set("wax+") & set(mode):
            if how == 3:
                hit.append(how)
                raise OSError("Permission denied")
            return Bad(real[0](path, mode, *args, **kw))
        return real[0](path, mode, *args, **kw)

    def bad_move(f):
        def move(src, dst, *args, **kw):
            if guarded(dst) and how == 0:
                hit.append(how)
                raise OSError("Input/output error")
            return f(src, dst, *args, **kw)

        return move

    if where == "file":
        builtins.open = bad_open
    elif where == "move":
        os.replace, os.rename = bad_move(real[1]), bad_move(real[2])
        if how:
            ctx.assume(False)
    else:
        w.save_fails = where
        hit.append(1)
        if how:
            ctx.assume(False)
    err = None
    try:
        w.block.save("d")
    except Exception as e:
        err = e
    finally:
        builtins.open, os.replace, os.rename = real
        w.save_fails = None
    ctx.settle()
    if not hit:
        # nothing to fail in how the code does it
        ctx.check(err is None, "saved", err)
        return
    # a close that fails after the write can leave either the old or the new design
    if err is None:
        ctx.check(where == "file" and how == 2, "a failed save is an error", how)
        return
    ctx.check(w.block.state.value == "Fault", "fault after a failure", err)
    w.block.reset()
    ctx.check(w.block.state.value == "Ready", "can be reset", err)
    check_file(ctx, w, "d", saved, (where, how))
    # and it can be loaded here too
    w.block.design.put_value("d")
    ctx.check(ctx.eq(w.now(), saved), "the old design can be loaded", (where, how))
    ctx.check(w.block.modified.value is False, "not modified after a load",
              w.c.modified.alarm.message)
    ctx.cover("failed")


def refusals(ctx):
    """Saves and loads that can't be done are refused, and change nothing"""
    w = World(ctx, ctx.params["leaves"])
    a = w.process.block_view("A")
    a.n.put_value(ctx.int("v0", -100, 100))
    before = w.now()
    what = ctx.choice("what", ["no name", "template", "unknown", "no child"])
    err = None
    if what == "no child":
        w.block.save("d")
        v1 = ctx.int("v1", -100, 100)
        ctx.assume(v1 != before[("A", "n")])
        a.n.put_value(v1)
        w.fail = ("A", "n")
    try:
        if what == "no name":
            w.block.save("")
        elif what == "template":
            w.block.save("template_x")
        elif what == "no child":
            w.block.design.put_value("d")
        else:
            w.block.design.put_value("nothing")
    except Exception as e:
        err = e
    ctx.check(err is not None, "refused", what)
    ctx.settle()
    files = os.listdir(os.path.join(w.dir, "M"))
    ctx.check(files == (["d.json"] if what == "no child" else []), "no file written",
              (what, files))
    if what == "no child":
        ctx.check(w.block.state.value == "Fault", "fault when a child fails", err)
        w.fail = None
        w.block.reset()
        w.block.design.put_value("d")
        ctx.check(w.block.modified.value is False, "loads after the fault", what)
    ctx.check(ctx.eq(w.now(), before), "nothing changed", what)
    ctx.cover(what)


def nested(ctx):
    """A manager whose child is a manager with a design of its own"""
    from malcolm.modules.builtin.controllers import ManagerController
    from malcolm.modules.builtin.parts import ChildPart

    w = World(ctx, dict(A=["n"]))
    top = ManagerController("TOP", w.dir)
    top.add_part(ChildPart("m", "M", initial_visibility=True))
    w.process.add_controller(top)
    t = top.block_view()
    a = w.process.block_view("A")
    vals = [ctx.int(f"v{i}", -100, 100) for i in range(3)]
    for v, d in zip(vals, ("d0", "d1")):
        a.n.put_value(v)
        w.block.save(d)
        t.save("t" + d)
        ctx.check(t.modified.value is False, "not modified after a save",
                  top.modified.alarm.message)
    a.n.put_value(vals[2])
    for d in ctx.choice("order", [["d0", "d1"], ["d1", "d0"], ["d0", "d0"]]):
        t.design.put_value("t" + d)
        ctx.check(w.block.design.value == d, "the child has its design", d)
        saved = vals[0] if d == "d0" else vals[1]
        if w.block.design.value == d:
            ctx.check(t.modified.value is False, "not modified after a load",
                      top.modified.alarm.message)
        if d == "d0":
            # the child's design was changed, so it was loaded
            ctx.check(ctx.eq(a.n.value, saved), "the child has its settings", d)
    w.block.design.put_value("d1" if w.block.design.value == "d0" else "d0")
    ctx.settle()
    ctx.check(t.modified.value is True, "another design of the child is a change", "")
    ctx.cover("done")


def nested_restarts(ctx):
    """A manager whose child is a manager, both start with a design: the child keeps
    its own, and the parent shows whether that is the one that it was saved with"""
    from malcolm.modules.builtin.controllers import ManagerController
    from malcolm.modules.builtin.parts import ChildPart

    def start(w, design):
        top = ManagerController("TOP", w.dir, initial_design=design)
        top.add_part(ChildPart("m", "M", initial_visibility=True))
        w.process.add_controller(top)
        ctx.settle()
        return top

    w = World(ctx, dict(A=["n"]))
    top = start(w, "")
    t = top.block_view()
    a = w.process.block_view("A")
    vals = dict(d0=ctx.int("v0", -100, 100), d1=ctx.int("v1", -100, 100))
    for d, v in vals.items():
        a.n.put_value(v)
        w.block.save(d)
        t.save("t" + d)
    w.process.stop(timeout=1)
    mine, saved = ctx.choice("mine", ["", "d0", "d1"]), ctx.choice("saved", ["td0", "td1"])
    w2 = World(ctx, dict(A=["n"]), directory=w.dir, design=mine)
    top2 = start(w2, saved)
    t2 = top2.block_view()
    ctx.check(t2.state.value == "Ready" and w2.block.state.value == "Ready", "ready")
    ctx.check(t2.design.value == saved, "the design it starts with", t2.design.value)
    ctx.check(w2.block.design.value == mine, "the child keeps its own",
              (w2.block.design.value, mine))
    ctx.check(ctx.eq(w2.attrs[("A", "n")].value, vals.get(mine, 0)),
              "and what is in it", (mine, w2.attrs[("A", "n")].value))
    ctx.check(t2.modified.value is ("t" + mine != saved), "modified if it is another",
              (mine, saved, top2.modified.alarm.message))
    ctx.cover("same" if "t" + mine == saved else "other")
    t2.design.put_value(saved)
    ctx.settle()
    ctx.check(w2.block.design.value == saved[1:], "loaded later, with the child's",
              (w2.block.design.value, saved))
    ctx.check(ctx.eq(w2.attrs[("A", "n")].value, vals[saved[1:]]), "and what is in it")
    ctx.check(t2.modified.value is False, "no longer modified",
              (mine, saved, top2.modified.alarm.message))


SIMPLE = dict(A=["n", "u", "k"], B=["n"])
TWO = dict(A=["n", "rate"])
RICH = dict(A=["rate", "mode", "n"], B=["e", "t", "arr"])
TYPES = dict(A=["f", "c", "b", "s"], B=["t", "arr", "e"])
OPS = ["put A.n", "put M.own", "put B.n", "put A.u", "put A.k", "save x", "save y", "load x",
       "load y", "hide", "export"]
Q = [dict(leaves=SIMPLE, n=3, first=[f], ops=OPS) for f in
     ("put A.n", "save x", "hide", "export")]
Q += [dict(leaves=SIMPLE, n=4, first=["save x"],
           ops=["put A.n", "put B.n", "save y", "load x"])]
Q += [dict(leaves=SIMPLE, n=4, first=["put M.own"],
           ops=["put M.own", "put A.n", "save x", "load x"])]
Q += [dict(leaves=TWO, n=4, first=["put A.n"],
           ops=["put A.n", "put A.rate", "save x", "load x"]),
      dict(leaves=TWO, n=4, first=["save x"],
           ops=["put A.n", "put A.rate", "save y", "load x"])]
Q += [dict(leaves=RICH, n=3, first=["save x"], ops=[
    "put A.mode", "put A.rate", "put B.e", "put B.t", "put B.arr", "load x"])]
Q += [dict(leaves=TYPES, n=3, first=["save x"], ops=[
    "put A.f", "put A.c", "put A.b", "put A.s", "load x"])]
T = [dict(leaves=SIMPLE, n=4, first=[f], ops=OPS) for f in OPS if f[:4] != "load"]
T += [dict(leaves=SIMPLE, n=5, first=["save x"],
           ops=["put A.n", "put B.n", "save y", "load x"])]
T += [dict(leaves=RICH, n=4, first=["save x"], ops=[
    "put A.mode", "put A.rate", "put B.e", "put B.t", "put B.arr", "load x",
    "save y", "load y"])]
HARNESSES = {
    "histories": Harness(histories, quick=Q, thorough=Q + T,
                         must=["saved", "loaded", "done"]),
    "restarts": Harness(restarts, quick=[dict(leaves=x) for x in (SIMPLE, RICH, TYPES)],
                        must=["done"]),
    "failures": Harness(failures, quick=[dict(leaves=SIMPLE, where=x) for x in
                                         ("file", "move", "a", "b")], must=["failed"]),
    "refusals": Harness(refusals, quick=[dict(leaves=SIMPLE)],
                        must=["no name", "template", "unknown", "no child"]),
    "nested": Harness(nested, must=["done"]),
    "nested_restarts": Harness(nested_restarts, must=["same", "other"]),
}
