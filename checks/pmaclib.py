"""A motion controller made of stand-ins below the real pmac parts.

PmacChildPart -> (PmacTrajectoryPart, CSPart) are the real classes; the blocks that
talk to the hardware are recorded instead.  What was written is played back as the
controller would do it: rows in order, telling how many have been played."""
AXES = "ABCUVWXYZ"


class Attr:
    def __init__(self, value=None, on_put=None):
        self.value = value
        self.puts = []
        self.handlers = []
        self.on_put = on_put

    def put_value(self, v, **kw):
        self.value = v
        self.puts.append(v)
        if self.on_put:
            self.on_put(v)

    def put_value_async(self, v):
        self.put_value(v)
        return "future"

    def subscribe_value(self, cb, *args):
        self.handlers.append((cb, args))
        return (self, cb, args)


class Block:
    """Attributes by name; what is put is remembered"""

    def __init__(self, **attrs):
        for k, v in attrs.items():
            setattr(self, k, v if callable(v) else Attr(v))
        self._fields = set(attrs)

    def attr(self, k):
        return getattr(self, k)

    def put_attribute_values(self, d, **kw):
        for k, v in d.items():
            self.attr(k).put_value(v)

    def put_attribute_values_async(self, d):
        self.put_attribute_values(d)
        return ["future"]

    def when_value_matches(self, name, value, *args, **kw):
        got = self.attr(name).value
        if not isinstance(got, bool) and not got == value:
            raise AssertionError(f"{name} is {got}, never {value}")

    def __getitem__(self, k):
        return getattr(self, k)

    def __contains__(self, k):
        return k in self._fields


class Hardware(Block):
    """Has every attribute asked for"""

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        a = Attr()
        setattr(self, k, a)
        return a


class Registrar:
    def __init__(self):
        self.hooks = {}
        self.methods = {}
        self.reports = []

    def hook(self, hooks, func, args_gen=None):
        for h in hooks if isinstance(hooks, (tuple, list)) else (hooks,):
            self.hooks.setdefault(h.__name__, []).append(func)

    def add_method_model(self, func, name=None, description=None, **kw):
        self.methods[name or func.__name__] = func

    def add_attribute_model(self, name, model, *args, **kw):
        self.methods[name] = model

    def report(self, info):
        self.reports.append(info)

    def __getattr__(self, k):
        return lambda *a, **kw: None


class Context:
    def __init__(self):
        self.blocks = {}
        self.subs = []
        self.waited = []

    def block_view(self, mri):
        return self.blocks[mri]

    def unsubscribe_all(self, *a, **kw):
        self.subs = []

    def wait_all_futures(self, fs, *a, **kw):
        self.waited.append(fs)

    def subscribe(self, path, cb, *args):
        self.subs.append((path, cb, args))
        return self.subs[-1]

    def unsubscribe(self, f, *a, **kw):
        self.subs.remove(f)


def add(registrar, part):
    part.setup(registrar)
    return part


def motor_block(cs, max_velocity=10.0, percent=100.0, accl=1.0, resolution=0.001,
                offset=0.0, readback=0.0, settle=0.0, high=0.0, low=0.0, dial_high=0.0,
                dial_low=0.0):
    return Block(cs=cs, maxVelocity=max_velocity, maxVelocityPercent=percent,
                 accelerationTime=accl, resolution=resolution, offset=offset,
                 readback=readback, velocitySettle=settle, units="mm",
                 userHighLimit=high, userLowLimit=low, dialHighLimit=dial_high,
                 dialLowLimit=dial_low)


class Stopped(Exception):
    pass


class Pmac:
    """motors: name -> motor block"""

    def __init__(self, ctx, motors, cs=(1, 2), part=None):
        from malcolm.modules.builtin.util import LayoutTable
        from malcolm.modules.pmac.parts import (
            CSPart, PmacChildPart, PmacTrajectoryPart,
        )

        self.ctx = ctx
        self.context = Context()
        self.reg = Registrar()
        self.part = add(self.reg, part or PmacChildPart("pmac", "PMAC"))
        self.treg = Registrar()
        self.traj = add(self.treg, PmacTrajectoryPart("traj", "TRAJ"))
        names = list(motors)
        n = len(names)
        self.pmac = Block(
            layout=LayoutTable(names, ["M:" + m for m in names], [0] * n, [0] * n,
                               [True] * n),
            writeProfile=lambda **kw: self.write(kw),
            executeProfile=lambda: self.execute(),
            abortProfile=lambda: self.log.append("abort"),
            servoFrequency=lambda: self.servo,
            pointsScanned=0,
        )
        self.servo = 4000.0
        self.log = []
        self.cs_parts = {}
        for k in cs:
            reg = Registrar()
            add(reg, CSPart(f"CS{k}", k))
            blk = Hardware(port=f"BRICK2CS{k}", deferMoves=False, csMoveTime=0.0)
            self.context.blocks[f"CS{k}"] = blk
            self.cs_parts[k] = (reg, blk)
            setattr(self.pmac, f"moveCS{k}_async", self.mover(k))
        self.hw = Hardware(trajectoryProgVersion=3, pointsScanned=0, pointsBuilt=0,
                        buildProfile=lambda: self.build("build"),
                        appendProfile=lambda: self.build("append"),
                        executeProfile=lambda: self.play())
        self.context.blocks.update(PMAC=self.pmac, TRAJ=self.hw)
        for m, b in motors.items():
            self.context.blocks["M:" + m] = b
        self.builds = []   # finished trajectories: lists of rows
        self.rows = []     # rows of the present trajectory
        self.written = []  # number of rows of each write
        self.axes = []
        self.cs = None
        self.moves = []
        self.played = []
        self.steps = [1]
        self.limit = None  # play that many rows only
        self.progress = []  # (rows played, step reported)

    def mover(self, k):
        def move(**kw):
            reg, blk = self.cs_parts[k]
            for a in AXES:
                blk.attr("demand" + a).puts = []
            reg.methods[f"moveCS{k}"](self.context, **kw)
            demands = {a: blk.attr("demand" + a).puts[-1] for a in AXES
                       if blk.attr("demand" + a).puts}
            self.moves.append((k, demands, kw))
            return "future"

        return move

    def write(self, kw):
        self.treg.methods["writeProfile"](self.context, **kw)

    def execute(self):
        self.treg.methods["executeProfile"](self.context)

    def build(self, what):
        ctx, hw = self.ctx, self.hw
        if what == "build":
            if self.rows:
                self.builds.append(self.rows)
            self.rows = []
            self.written = []
            self.cs = hw.cs.value
            self.axes = [a for a in AXES if hw.attr("use" + a).value]
        n = hw.pointsToBuild.value
        cols = dict(t=hw.timeArray.value, mode=hw.velocityMode.value,
                    prog=hw.userPrograms.value)
        for a in self.axes:
            cols[a] = hw.attr("positions" + a).value
        for k, v in cols.items():
            ctx.check(len(v) == n, "arrays of the number of rows", (k, len(v), n))
        for i in range(n):
            self.rows.append({k: v[i] for k, v in cols.items()})
        self.written.append(n)

    def play(self):
        """The controller plays what was built, asking for more as it goes"""
        done = 0
        k = 0
        while done < len(self.rows):
            if self.limit is not None and done >= self.limit:
                raise Stopped()
            done = min(done + self.steps[k % len(self.steps)], len(self.rows))
            k += 1
            self.hw.pointsScanned.value = done
            for path, cb, args in list(self.context.subs):
                if path[1] == "pointsScanned":
                    cb(done, *args)
            n = len(self.reg.reports)
            shown = self.treg.methods["pointsScanned"].value
            for cb, args in list(self.pmac.pointsScanned.handlers):
                cb(shown, *args)
            for r in self.reg.reports[n:]:
                self.progress.append((done, r.steps))
        self.played = list(self.rows)

    def call(self, hook, *args, **kw):
        out = None
        for f in self.reg.hooks[hook]:
            out = f(*args, **kw)
        return out

    def configure(self, gen, axes, start, n, info=None, hook="ConfigureHook"):
        self.call(hook, self.context, completed_steps=start, steps_to_do=n,
                  part_info=info or {}, generator=gen, axesToMove=axes)

    def run(self):
        self.pmac.pointsScanned.handlers = []
        self.call("RunHook", self.context)


class Points:
    """Stand-in generator over given points"""

    generators = ()
    continuous = True

    def __init__(self, points):
        self.points = points
        self.size = len(points)
        self.duration = points.duration[0]
        self.prepared = 0

    def prepare(self):
        self.prepared += 1

    def get_points(self, a, b):
        assert 0 <= a < b <= self.size, (a, b)
        return self.points[a:b]

    def get_point(self, i):
        assert 0 <= i < self.size, i
        return self.points[i]


def arr(ctx, xs):
    import numpy as np

    if not ctx.symbolic:
        return np.array(xs, dtype=float)
    out = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def points(ctx, duration, delay, lower, mid, upper):
    """lower, mid, upper: axis -> list"""
    import numpy as np
    from scanpointgenerator import Points as P

    p = P()
    p.duration = arr(ctx, duration)
    p.delay_after = arr(ctx, delay)
    for a in lower:
        p.lower[a], p.upper[a] = arr(ctx, lower[a]), arr(ctx, upper[a])
        p.positions[a] = arr(ctx, mid[a])
    p.indexes = np.arange(len(duration))
    return p


class Profile:
    """Any velocity profile of the library's contract: from v1 to v2, over distance d,
    in at least the time asked for and the time the axis needs, which is given by the
    axis's acceleration in NEED: acceleration -> (time needed, split)"""

    NEED = {}
    made = []

    def __init__(self, v1, v2, d, t_total, a, v_max, settle_time=0, interval=0):
        need, self.split = self.NEED[float(a)]
        self.v1, self.v2, self.d = v1, v2, d
        self.t_total = max(t_total, need)
        self.settle = settle_time
        self.a, self.v_max, self.interval = a, v_max, interval
        Profile.made.append(self)

    def get_profile(self):
        pass

    def check_quantize(self):
        return False

    def quantize(self):
        pass

    def make_arrays(self):
        t = self.t_total - self.settle
        d = self.d - self.v2 * self.settle
        t1 = t * self.split
        vm = (2 * d - self.v1 * t1 - self.v2 * (t - t1)) / t
        ts, vs = [0.0, t1, t], [self.v1, vm, self.v2]
        if self.settle:
            ts.append(self.t_total)
            vs.append(self.v2)
        return ts, vs

    def position(self, at):
        """Distance gone at a time"""
        ts, vs = self.make_arrays()
        pos = 0
        for k in range(1, len(ts)):
            if at >= ts[k] - 1e-9:
                pos = pos + (vs[k - 1] + vs[k]) * (ts[k] - ts[k - 1]) / 2
            else:
                part = at - ts[k - 1]
                v = vs[k - 1] + (vs[k] - vs[k - 1]) * (part / (ts[k] - ts[k - 1]))
                return pos + (vs[k - 1] + v) * part / 2
        return pos


def use_profile(need):
    """Put the contract in the place of the velocity profile library"""
    import velocity_profile.velocityprofile as lib

    Profile.NEED = {float(k): v for k, v in need.items()}
    Profile.made = []
    lib.VelocityProfile = Profile
