"""Explores one harness symbolically; every path is replayed on the code as
Python imports it (no rewriting) in a separate process."""
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

perf = time.perf_counter


def load_check(cid):
    import importlib

    return importlib.import_module(f"checks.{cid.lower()}")


def silence():
    import logging

    logging.disable(logging.CRITICAL)


def covered_functions():
    """Record which functions of the code under test run (sys.monitoring)"""
    seen = {}
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "symx")

    def start(code, off):
        fn = code.co_filename
        if "/repo/malcolm" in fn:
            seen[(fn.split("/repo/", 1)[1], code.co_qualname)] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


class Replayer:
    def __init__(self, cid):
        self.cid = cid
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [sys.executable, "-m", "symx.replay", "--server", self.cid],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            text=True,
        )

    def run(self, harness, params, values, timeout=60):
        if self.p is None:
            self.start()
        msg = json.dumps(dict(harness=harness, params=params, values=values))
        try:
            self.p.stdin.write(msg + "\n")
            self.p.stdin.flush()
            import select

            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p = None
                return dict(status="hang", failures=[], observed=[])
            line = self.p.stdout.readline()
        except (BrokenPipeError, ValueError):
            line = ""
        if not line:
            self.p = None
            return dict(status="died", failures=[], observed=[])
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()


def same(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * (1 + abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, str) and "\u27e6" in a:
        return True
    return a == b


def explore(cid, hname, params, budget, out):
    from . import engine as E
    from . import rewrite, values, vtime
    from .ctx import SymCtx

    sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
    rewrite.install(("malcolm", "scanpointgenerator", "velocity_profile"))
    rewrite.patch_annotypes()
    rewrite.patch_json()
    silence()
    vtime.install()
    mod = load_check(cid)
    seen = covered_functions()
    h = mod.HARNESSES[hname]
    en = E.Engine(query_ms=h.query_ms, max_fork=h.max_fork)
    st = en.stats
    res = dict(
        harness=hname, params=params, paths=0, replayed=0, agreed=0, mismatches=[],
        violations=[], unreproduced=[], lossy=0, lossy_notes={}, inconclusive={},
        truncated=False, exceptions={}, covered={}, checks=0, deadlocks=0,
        infeasible=0, degraded=0, samples=[],
    )
    rp = Replayer(cid)
    t0 = perf()
    en.stack.append([])
    seen_labels = {}

    def watchdog(*_):
        # a path that takes this long is handed to the concrete replay, which
        # finds out whether the code itself hangs
        if E.CURRENT is not None:
            raise values.Unsupported("path takes too long")

    signal.signal(signal.SIGALRM, watchdog)

    def on_fail(ctx, label, detail, extra):
        if seen_labels.get(label, 0) >= 2:
            return True
        E.CURRENT = None
        try:
            ok = confirm(en, rp, hname, params, label, detail, extra, res)
        finally:
            E.CURRENT = en
        if ok:
            seen_labels[label] = seen_labels.get(label, 0) + 1
        return ok

    while en.stack:
        if perf() - t0 > budget or len(seen_labels) and perf() - t0 > budget / 3:
            res["truncated"] = True
            break
        prefix = en.stack.pop()
        en.start(list(prefix))
        E.CURRENT = en
        vtime.fresh()
        ctx = SymCtx(en, params)
        ctx.on_fail = on_fail
        exc = None
        ended = False
        signal.setitimer(signal.ITIMER_REAL, h.path_s, 5)
        try:
            if h.setup:
                h.setup()
            h.fn(ctx)
        except E.Limit as e:
            ended = True
            res["inconclusive"]["limit"] = res["inconclusive"].get("limit", 0) + 1
        except E.PathEnd as e:
            ended = True
        except Exception as e:
            exc = e
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # cothread internals re-raising
            exc = e
        signal.setitimer(signal.ITIMER_REAL, 0)
        E.CURRENT = None
        if isinstance(en.pending_abort, E.Limit) and not ended:
            res["inconclusive"]["limit"] = res["inconclusive"].get("limit", 0) + 1
        if en.pending_abort is not None:
            ended, exc = True, None
        if en.unsupported is not None:
            ended, exc = False, en.unsupported
        res["checks"] += ctx.nchecks
        for c in ctx.covered:
            res["covered"][c] = res["covered"].get(c, 0) + 1
        for n in en.lossy:
            res["lossy_notes"][n] = res["lossy_notes"].get(n, 0) + 1
        for n in en.inconclusive:
            res["inconclusive"][n] = res["inconclusive"].get(n, 0) + 1
        if ended and not ctx.failures:
            res["infeasible"] += 1
            continue
        res["paths"] += 1
        if en.lossy:
            res["lossy"] += 1
        E.CURRENT = en
        try:
            if exc is not None:
                key = f"{type(exc).__name__}: {exc}"[:200]
                res["exceptions"][key] = res["exceptions"].get(key, 0) + 1
                res["degraded"] += 1
                tb = "".join(
                    traceback.format_exception(type(exc), exc, exc.__traceback__)
                )
                if len(res["exceptions"]) <= 3:
                    res.setdefault("tracebacks", []).append(tb[-3000:])
            # replay this path on the unmodified code
            if not ctx.failures and (h.replay_all or res["replayed"] < 200):
                m = en.nice_model()
                if m is None:
                    res["inconclusive"]["no model for path"] = (
                        res["inconclusive"].get("no model for path", 0) + 1
                    )
                else:
                    vals = en.assignment(m)
                    obs = [(n, ctx.eval(m, v)) for n, v in ctx.observed]
                    r = rp.run(hname, params, vals)
                    res["replayed"] += 1
                    if len(res["samples"]) < 3:
                        res["samples"].append(dict(values=vals, status=r["status"]))
                    if r["status"] == "ok":
                        if exc is None and not same(_norm(obs), r["observed"]):
                            res["mismatches"].append(
                                dict(values=vals, symbolic=_norm(obs), real=r["observed"])
                            )
                        elif exc is None:
                            res["agreed"] += 1
                    else:
                        # the real code misbehaves on this path's witness
                        for lab in r["failures"] or [[r["status"], r.get("error", "")]]:
                            if seen_labels.get(lab[0], 0) < 2:
                                seen_labels[lab[0]] = seen_labels.get(lab[0], 0) + 1
                                res["violations"].append(
                                    dict(
                                        harness=hname, params=params, label=lab[0],
                                        detail=lab[1], values=vals,
                                        error=r.get("error", ""),
                                    )
                                )
        finally:
            E.CURRENT = None
    res["pending"] = len(en.stack)
    rp.close()
    res["stats"] = dict(st.__dict__)
    res["wall"] = perf() - t0
    res["maxrss"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    res["functions"] = sorted(f"{a}:{b}" for a, b in seen)
    with open(out, "w") as f:
        json.dump(res, f)


def _norm(obs):
    return [[n, v] for n, v in obs]


def confirm(en, rp, hname, params, label, detail, extra, res):
    """Replay a counterexample; several models are tried so that rounding of
    reals to floats cannot hide a genuine one"""
    extra = list(extra)
    tried = []
    from .z3imp import z3

    for attempt in range(4):
        m = en.nice_model(extra)
        if m is None:
            break
        vals = en.assignment(m)
        r = rp.run(hname, params, vals)
        tried.append(vals)
        if r["status"] != "ok":
            lab = (r["failures"] or [[r["status"], ""]])[0]
            res["violations"].append(
                dict(
                    harness=hname, params=params, label=lab[0] or label,
                    detail=lab[1] or detail, values=vals, error=r.get("error", ""),
                )
            )
            return True
        blk = []
        for n, (k, c, _) in en.vars.items():
            blk.append(c != m.eval(c, model_completion=True))
        if not blk:
            break
        extra = extra + [z3.Or(blk)]
    res["unreproduced"].append(dict(label=label, detail=detail, values=tried[:1]))
    return False


if __name__ == "__main__":
    cid, hname, params, budget, out = sys.argv[1:6]
    sys.stderr = open(os.environ.get("SYMX_STDERR", os.devnull), "a")
    explore(cid, hname, json.loads(params), float(budget), out)
