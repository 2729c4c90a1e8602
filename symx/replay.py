"""Runs a harness with concrete values on the code as Python imports it.

    python -m symx.replay --server C01       (used by the workers)
    python -m symx.replay FILE.json          (replay a recorded violation)
"""
import json
import os
import sys
import traceback


def setup():
    sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
    from . import vtime
    from .worker import silence

    silence()
    vtime.install()


def run_one(mod, hname, params, values):
    from . import engine as E
    from . import vtime
    from .ctx import ConcreteCtx

    h = mod.HARNESSES[hname]
    vtime.fresh()
    ctx = ConcreteCtx(values, params)
    err = ""
    status = "ok"
    try:
        if h.setup:
            h.setup()
        h.fn(ctx)
    except E.PathEnd:
        pass
    except Exception as e:
        status = "exception"
        err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        ctx.failures.append((f"unexpected {type(e).__name__}", str(e)[:500]))
    if ctx.failures and status == "ok":
        status = "fail"
    return dict(
        status=status,
        failures=[[a, b] for a, b in ctx.failures],
        observed=[[n, ctx.plain(v)] for n, v in ctx.observed],
        error=err,
        missing=ctx.missing,
        checks=ctx.nchecks,
    )


def server(cid):
    from .worker import load_check

    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    setup()
    mod = load_check(cid)
    for line in sys.stdin:
        q = json.loads(line)
        r = run_one(mod, q["harness"], q["params"], q["values"])
        out.write(json.dumps(r) + "\n")
        out.flush()


def main():
    if sys.argv[1] == "--server":
        return server(sys.argv[2])
    from .worker import load_check

    with open(sys.argv[1]) as f:
        v = json.load(f)
    setup()
    mod = load_check(v["property"])
    r = run_one(mod, v["harness"], v["params"], v["values"])
    print(json.dumps(r, indent=1))
    return 1 if r["status"] != "ok" else 0


if __name__ == "__main__":
    sys.exit(main())
