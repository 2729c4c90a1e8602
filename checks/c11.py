"""Validation ends with parameters that every part accepts, or with an error"""
from symx.harness import Harness

from . import scanlib as S

TITLE = "Validation yields parameters that every part accepts"
ASSUMPTIONS = [
    "floats are exact reals",
    "the parts of the first harness are stand-ins with their own rules about what they "
    "accept; the detectors of the second are real parts in real child blocks",
]


def copy_gen(duration):
    return S.make_generator([(4, ["x"])], duration)


def rule_part(name, calls, rules):
    """A part that asks for changes by its rules: name -> f(value, duration) giving the
    value it wants, or raising"""
    from annotypes import Anno, add_call_types

    from malcolm.core import Info, Part, PartRegistrar
    from malcolm.modules.scanning import hooks as H
    from malcolm.modules.scanning.infos import ParameterTweakInfo

    class Status(Info):
        def __init__(self, who):
            self.who = who

    AExposure = Anno("An exposure", name="exposure").set_typ(float)
    AMode = Anno("A mode", name="mode").set_typ(int)

    def validate(duration, part_info, given):
        calls.append((name, "validate", duration, dict(given)))
        calls.append((name, "info", sorted(
            x.who for v in part_info.values() for x in v if hasattr(x, "who"))))
        ret = []
        for k, f in rules.items():
            if k == "duration":
                want = f(duration, duration)
                if want is not None:
                    ret.append(ParameterTweakInfo("generator", copy_gen(want)))
            else:
                want = f(given[k], duration)
                if want is not None:
                    ret.append(ParameterTweakInfo(k, want))
        return ret

    def configure(duration, given):
        calls.append((name, "configure", duration, dict(given)))

    class RulePart(Part):
        def setup(self, registrar: PartRegistrar) -> None:
            super().setup(registrar)
            v, c = fs
            registrar.hook(H.ReportStatusHook, self.on_status)
            registrar.hook(H.ValidateHook, v)
            registrar.hook(H.ConfigureHook, c)
            registrar.report(H.ConfigureHook.create_info(c))

        @add_call_types
        def on_status(self) -> H.UInfos:
            return Status(name)

    names = [k for k in rules if k != "duration"]
    if names == []:
        @add_call_types
        def v(generator: H.AGenerator, part_info: H.APartInfo) -> H.UParameterTweakInfos:
            return validate(generator.duration, part_info, {})

        @add_call_types
        def c(generator: H.AGenerator) -> None:
            configure(generator.duration, {})
    elif names == ["exposure"]:
        @add_call_types
        def v(generator: H.AGenerator, part_info: H.APartInfo,
              exposure: AExposure = 0.0) -> H.UParameterTweakInfos:
            return validate(generator.duration, part_info, dict(exposure=exposure))

        @add_call_types
        def c(generator: H.AGenerator, exposure: AExposure = 0.0) -> None:
            configure(generator.duration, dict(exposure=exposure))
    elif names == ["mode"]:
        @add_call_types
        def v(generator: H.AGenerator, part_info: H.APartInfo,
              mode: AMode) -> H.UParameterTweakInfos:
            return validate(generator.duration, part_info, dict(mode=mode))

        @add_call_types
        def c(generator: H.AGenerator, mode: AMode) -> None:
            configure(generator.duration, dict(mode=mode))
    else:
        @add_call_types
        def v(generator: H.AGenerator, part_info: H.APartInfo, mode: AMode,
              exposure: AExposure = 0.0) -> H.UParameterTweakInfos:
            return validate(generator.duration, part_info,
                            dict(exposure=exposure, mode=mode))

        @add_call_types
        def c(generator: H.AGenerator, mode: AMode, exposure: AExposure = 0.0) -> None:
            configure(generator.duration, dict(exposure=exposure, mode=mode))
    fs = (v, c)
    return RulePart(name)


class Refused(Exception):
    pass


def rules(ctx):
    """2..3 parts that want a longest or shortest duration, an exposure below one that
    depends on it, or a mode of their own; any given values"""
    p = ctx.params
    calls = []
    parts = []
    every = []
    readouts = []
    least = []
    modes = []
    for i, kinds in enumerate(p["parts"]):
        r = {}
        if "d" in kinds:
            need = ctx.real(f"need{i}", 0.5, 4)
            least.append(need)
            r["duration"] = lambda v, d, need=need: need if v < need else None
        if "e" in kinds:
            ro = ctx.real(f"readout{i}", 0.01, 0.25)
            readouts.append(ro)

            def exposure(v, d, ro=ro):
                if v > d - ro:
                    return d - ro
                if v == 0:
                    return d - ro
                return None

            r["exposure"] = exposure
        if "m" in kinds:
            want = ctx.int(f"mode{i}", 0, 1)
            modes.append(want)
            r["mode"] = lambda v, d, want=want: None if v == want else want
        if "x" in kinds:
            most = ctx.real("most", 0.5, 4)

            def refuse(v, d, most=most):
                if v > most:
                    raise Refused()

            r["duration"] = refuse
        every.append(r)
        parts.append(rule_part(f"p{i}", calls, r))
    rig = S.Rig(parts)
    b = rig.block
    d0 = ctx.real("duration", 0.5, 4)
    kw = {}
    if modes:
        kw["mode"] = ctx.int("mode", 0, 2)
    if readouts and ctx.bool("give exposure"):
        kw["exposure"] = ctx.real("exposure", 0, 4)
    del calls[:]
    contradict = len(modes) == 2 and bool(modes[0] != modes[1])

    def done(values, who, d, given):
        r = every[int(who[1:])]
        for k, f in r.items():
            try:
                want = f(d if k == "duration" else given[k], d)
            except Refused:
                return False
            if want is not None:
                return False
        return True

    how = p.get("how", "validate")
    try:
        if how == "validate":
            out = b.validate(copy_gen(d0), **kw)
        else:
            out = b.configure(copy_gen(d0), **kw)
    except Refused:
        refused = True
        if least:
            ctx.cover("refused")
        d = d0
        for x in least:
            d = x if x > d else d
        ctx.check(ctx.Or(d > ctx.real("most", 0.5, 4), d0 > ctx.real("most", 0.5, 4)),
                  "refused without a reason")
        ctx.check(not [c for c in calls if c[1] == "configure"], "not configured", calls)
        ctx.check(str(b.state.value) == "Ready", "left as it was", b.state.value)
        return
    except ValueError as e:
        ctx.check(contradict, "no consistent set found", str(e))
        ctx.check(not [c for c in calls if c[1] == "configure"], "not configured", calls)
        ctx.check(str(b.state.value) == "Ready", "left as it was", b.state.value)
        ctx.cover("contradiction")
        return
    ctx.check(not contradict, "contradiction accepted")
    d = out["generator"].duration
    # what everyone was told last is what is returned, and was accepted
    last = {}
    for c in calls:
        if c[1] == "validate":
            last[c[0]] = c
        if c[1] == "info":
            ctx.check(c[2] == [x.name for x in parts], "told the status of all", c)
    ctx.check(sorted(last) == [x.name for x in parts], "all were asked", list(last))
    for who, _, dd, given in last.values():
        ctx.check(dd == d, "duration everyone agreed to", (who, dd, d))
        for k, v in given.items():
            ctx.check(v == out[k], "value everyone agreed to", (who, k, v))
        ctx.check(done(None, who, d, given), "not accepted", (who, d, given))
    # only changed when somebody asked for it
    want = d0
    for x in least:
        want = x if x > want else want
    ctx.check(d == want, "duration changed without need", (d, want))
    if "mode" in kw:
        ctx.check(out["mode"] == (modes[0]), "mode", out["mode"])
    if "exposure" in kw and readouts:
        # accepted from the start
        fine = ctx.And(*[kw["exposure"] <= d0 - r for r in readouts], kw["exposure"] > 0)
        ctx.check(ctx.Implies(fine, out["exposure"] == kw["exposure"]),
                  "exposure changed without need", out["exposure"])
        if fine:
            ctx.cover("kept")
    ctx.check(list(out["axesToMove"]) == ["x"] and not len(out["breakpoints"]),
              "rest is as given", out["axesToMove"])
    if how == "configure":
        got = {c[0]: c for c in calls if c[1] == "configure"}
        ctx.check(sorted(got) == [x.name for x in parts], "all were configured", list(got))
        for who, _, dd, given in got.values():
            ctx.check(dd == d and ctx.eq(given, {k: out[k] for k in given}),
                      "configured with what was agreed", (who, dd, given))
    else:
        args = {k: out[k] for k in ("exposure", "mode") if k in out}
        again = b.validate(out["generator"], **args)
        ctx.check(again["generator"].duration == d and
                  ctx.eq({k: again[k] for k in args}, args), "accepted unchanged", args)
    ctx.cover("done")


def child_part():
    from annotypes import add_call_types

    from malcolm.core import Part, PartRegistrar
    from malcolm.modules.scanning import hooks as H

    class FilePart(Part):
        def setup(self, registrar: PartRegistrar) -> None:
            super().setup(registrar)
            registrar.hook(H.ConfigureHook, self.on_configure)
            registrar.report(H.ConfigureHook.create_info(self.on_configure))

        @add_call_types
        def on_configure(self, fileDir: H.AFileDir, formatName: H.AFormatName = "det",
                         fileTemplate: H.AFileTemplate = "%s.h5") -> None:
            pass

    return FilePart("FILE")


def multi_part(mris):
    from annotypes import add_call_types

    from malcolm.core import Part, PartRegistrar
    from malcolm.modules.scanning import hooks as H
    from malcolm.modules.scanning.infos import DetectorMutiframeInfo

    class Multi(Part):
        def setup(self, registrar: PartRegistrar) -> None:
            super().setup(registrar)
            registrar.hook(H.ReportStatusHook, self.on_status)

        @add_call_types
        def on_status(self) -> H.UInfos:
            return [DetectorMutiframeInfo(m) for m in mris]

    return Multi("MULTI")


def detectors(ctx):
    """1..2 detectors with their own readout times, in the table or not, enabled or not,
    with given or free exposures, frames per step and duration"""
    from malcolm.core import BadValueError, Process
    from malcolm.modules.scanning.controllers import RunnableController
    from malcolm.modules.scanning.parts import (
        DatasetTablePart, DetectorChildPart, ExposureDeadtimePart,
    )
    from malcolm.modules.scanning.util import DetectorTable
    from scanpointgenerator import CompoundGenerator, LineGenerator

    p = ctx.params
    ctx.symbolic_arrays()
    process = Process("proc")
    outer = RunnableController("OUT", S.scratch())
    names = []
    ro, mine = [], []
    for i, det in enumerate(p["dets"]):
        c = RunnableController(f"DET{i}", S.scratch())
        ro.append(p["readout"][i])
        mine.append(p["min"][i])
        c.add_part(ExposureDeadtimePart("EXP", readout_time=ro[i], frequency_accuracy=0.0,
                                        min_exposure=mine[i]))
        c.add_part(child_part())
        c.add_part(DatasetTablePart("DSET"))
        process.add_controller(c)
        outer.add_part(DetectorChildPart(f"D{i}", f"DET{i}", True))
        names.append(f"D{i}")
    if p.get("multi"):
        outer.add_part(multi_part([f"DET{i}" for i in p["multi"]]))
    process.add_controller(outer)
    process.start()
    b = outer.block_view()
    given_d = "d" in p["give"]
    d0 = ctx.real("duration", 0.25, 4) if given_d else 0.0
    rows = []
    exps, frames, on = {}, {}, {}
    for i, det in enumerate(p["dets"]):
        if det == "absent":
            on[i] = False
            continue
        on[i] = det == "on"
        exps[i] = ctx.real(f"exposure{i}", 0.01, 4) if i in p["exposed"] else 0.0
        frames[i] = p["frames"][i]
        rows.append([on[i], f"D{i}", f"DET{i}", exps[i], frames[i]])
    table = DetectorTable.from_rows(rows)
    gen = CompoundGenerator([LineGenerator("x", "mm", 0, 2, 2)], [], [], duration=d0)
    order = [i for i in on if on[i]]
    try:
        out = b.validate(gen, fileDir="/tmp", detectors=table)
    except (BadValueError, AssertionError) as e:
        ctx.cover("refused")
        why = []
        for i in order:
            f = frames[i] or 1
            if f > 1 and i not in (p.get("multi") or ()):
                why.append(True)
            if i in p["exposed"]:
                why.append(exps[i] < mine[i] + 1e-9)
                if given_d:
                    why.append(ctx.And(exps[i] > d0 / f - ro[i] - 1e-9,
                                       exps[i] > mine[i] - 1e-9))
                    if not frames[i]:
                        why.append(exps[i] + ro[i] > d0 - 1e-9)
        ctx.check(ctx.Or(*why), "refused without a reason", str(e))
        return
    d = out["generator"].duration
    if given_d:
        ctx.check(ctx.close(d, d0, 1e-9), "duration changed", (d, d0))
    ctx.check(d > 0 if order else d == d0, "some duration", d)
    got = {r[1]: list(r) for r in out["detectors"].rows()}
    ctx.check(sorted(got) == names, "a row for each detector", list(got))
    for i, n in enumerate(names):
        en, _, mri, e, f = got[n]
        ctx.check(bool(en) == on[i] and mri == f"DET{i}", "row", got[n])
        if not on[i]:
            if i in exps:
                ctx.check(ctx.eq([e, f], [exps[i], frames[i]]), "left alone", got[n])
            continue
        if i in p["exposed"]:
            ctx.check(ctx.close(e, exps[i], 1e-9), "exposure changed", (n, e, exps[i]))
        if frames[i]:
            ctx.check(f == frames[i], "frames changed", got[n])
        ctx.check(ctx.And(e >= mine[i] - 1e-9), "exposure below the minimum", got[n])
        f = int(f)
        ctx.check(f >= 1, "frames for each step", got[n])
        fit = ctx.Or(f * (e + ro[i]) <= d * (1 + 1e-9) + 1e-9,
                     # the minimum is always allowed
                     e <= mine[i] + 1e-9)
        ctx.check(fit, "exposures don't fit in the step", (got[n], d))
        if i not in p["exposed"] and given_d:
            longest = d / f - ro[i]
            ctx.check(ctx.Or(ctx.close(e, longest, 1e-6), e <= mine[i] + 1e-6),
                      "the longest that fits", got[n])
    if not given_d and order and len(order) == 1 and frames[order[0]]:
        i = order[0]
        e = exps[i] if i in p["exposed"] else mine[i]
        ctx.check(ctx.close(d, (e + ro[i]) * frames[i], 1e-6) if (
            i in (p.get("multi") or ()) or frames[i] == 1) else True,
            "duration longer than needed", d)
    again = b.validate(out["generator"], fileDir="/tmp", detectors=out["detectors"])
    ctx.check(ctx.close(again["generator"].duration, d, 1e-9), "duration accepted", d)
    ctx.check(ctx.close({r[1]: list(r)[3:] for r in again["detectors"].rows()},
                        {k: v[3:] for k, v in got.items()}, 1e-9), "accepted unchanged")
    ctx.cover("done")


def given_part(name, calls, takes):
    """A part whose hooks take the arguments takes: name -> (type, default)"""
    from annotypes import NO_DEFAULT, Anno

    from malcolm.core import Part, PartRegistrar
    from malcolm.modules.scanning import hooks as H

    def validate(**kw):
        calls.append((name, "validate", kw))
        return None

    def configure(**kw):
        calls.append((name, "configure", kw))
        return None

    for f in (validate, configure):
        f.call_types = {}
        for k, (typ, default) in takes.items():
            a = Anno(f"The {k}", name=k).set_typ(typ)
            a.default = NO_DEFAULT if default is None else default
            f.call_types[k] = a
        f.return_type = None
    validate.return_type = Anno("tweaks", name="tweaks").set_typ(object)

    class GivenPart(Part):
        def setup(self, registrar: PartRegistrar) -> None:
            super().setup(registrar)
            registrar.hook(H.ValidateHook, validate)
            registrar.hook(H.ConfigureHook, configure)
            registrar.report(H.ConfigureHook.create_info(configure))

    return GivenPart(name)


def given(ctx):
    """Two parts with arguments of several types, with and without a default: each that
    was given is what was given, each other has its default, and each part is told the
    ones that it takes"""
    p = ctx.params
    calls = []
    takes = [dict(gain=(int, 5), flag=(bool, True), word=(str, "w")),
             dict(gain=(int, 7), need=(float, None), flag=(bool, True))]
    if p["parts"] == 1:
        takes[1].pop("gain")
    rig = S.Rig([given_part(f"p{i}", calls, t) for i, t in enumerate(takes)])
    b = rig.block
    gen = S.make_generator([(2, ["y"]), (4, ["x"])], 1.0)
    del calls[:]
    kw = {}
    want = dict(gain=7 if p["parts"] == 2 else 5, flag=True, word="w",
                axesToMove=["y", "x"], breakpoints=[])
    some = ctx.choice("which", [
        ["need"], ["need", "gain"], ["need", "flag"], ["need", "word"],
        ["need", "gain", "flag", "word"], ["gain"], [], ["need", "axes"],
        ["need", "axes", "breakpoints"], ["need", "other"], ["need", "wrong"]])
    if "need" in some:
        kw["need"] = ctx.real("need", -2, 2)
    if "gain" in some:
        kw["gain"] = ctx.int("gain", -9, 9)
    if "flag" in some:
        kw["flag"] = ctx.bool("flag")
    if "word" in some:
        kw["word"] = ctx.choice("word", ["", "w", "v"])
    if "axes" in some:
        kw["axesToMove"] = ["x"]
    if "breakpoints" in some:
        kw["breakpoints"] = [ctx.int("bp", 1, 4)]
    if "other" in some:
        kw["other"] = 1
    if "wrong" in some:
        kw["gain"] = "loud"
    want.update(kw)
    f = b.validate if p["how"] == "validate" else b.configure
    try:
        out = f(gen, **kw)
    except Exception as e:
        ctx.check("need" not in some or "other" in some or "wrong" in some, "refused",
                  repr(e))
        ctx.check(not calls, "no part is told", calls)
        ctx.check(rig.state == "Ready", "left as it was", rig.state)
        ctx.cover("refused")
        return
    ctx.check("need" in some and "other" not in some and "wrong" not in some,
              "accepted", some)
    for k, v in want.items():
        got = out[k]
        if isinstance(v, list):
            got = list(got)
        ctx.check(ctx.eq(got, v), "what was given, or the default", (k, got, v))
    ctx.check(out["generator"] is gen, "the generator")
    hooks = ["validate"] if p["how"] == "validate" else ["validate", "configure"]
    ctx.check(sorted(c[:2] for c in calls) == sorted((f"p{i}", h) for i in (0, 1)
                                                     for h in hooks), "who is told", calls)
    for who, hook, told in calls:
        t = takes[int(who[1:])]
        ctx.check(sorted(told) == sorted(t), "only what it takes", (who, hook, told))
        for k in t:
            ctx.check(ctx.eq(told[k], want[k]), "told the part", (who, hook, k, told[k]))
    ctx.cover("done")


R = [dict(parts=["d", "d"]), dict(parts=["d", "e"]), dict(parts=["e", "e"]),
     dict(parts=["m", "e"]), dict(parts=["m", "dm"]), dict(parts=["x", "d"]),
     dict(parts=["e", "em"], how="configure"), dict(parts=["m", "m"], how="configure"),
     dict(parts=["x", "d"], how="configure")]
D1 = dict(readout=[0.0625, 0.125], min=[0.03125, 0.25], frames=[1, 1], exposed=[],
          give="d")
D = [dict(D1, dets=["on"]), dict(D1, dets=["on"], exposed=[0]),
     dict(D1, dets=["on"], give=""), dict(D1, dets=["on"], give="", exposed=[0]),
     dict(D1, dets=["on", "on"]), dict(D1, dets=["on", "on"], exposed=[0]),
     dict(D1, dets=["on", "off"], exposed=[1]), dict(D1, dets=["absent", "on"]),
     dict(D1, dets=["on", "on"], give="", exposed=[1]),
     dict(D1, dets=["on"], frames=[3], multi=[0]),
     dict(D1, dets=["on"], frames=[3]),
     dict(D1, dets=["on"], frames=[0], multi=[0], exposed=[0]),
     dict(D1, dets=["on"], frames=[0]),
     dict(D1, dets=["on", "on"], frames=[2, 1], multi=[0], exposed=[0])]
HARNESSES = {
    "rules": Harness(rules, quick=R, thorough=R + [
        dict(parts=["d", "e", "de"]), dict(parts=["d", "d", "d"]),
        dict(parts=["e", "e", "e"]), dict(parts=["m", "e", "d"], how="configure")],
        must=["done", "refused", "contradiction", "kept"]),
    "given": Harness(given, quick=[dict(parts=n, how=h) for n in (1, 2)
                                   for h in ("validate", "configure")],
                     must=["done", "refused"]),
    "detectors": Harness(detectors, quick=D, must=["done", "refused"]),
}
