"""python -m symx.run C01 quick|thorough : decide one property."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


def meta(cid):
    """The check's static description, read in a child so that this process
    never imports the code under test"""
    code = (
        "import sys,json,os\n"
        f"sys.path.insert(0,{ROOT!r})\n"
        "sys.path.insert(0,os.environ.get('SYMX_REPO','/repo'))\n"
        "from symx import vtime; vtime.install()\n"
        f"m=__import__('checks.{cid.lower()}',fromlist=['x'])\n"
        "print('@@'+json.dumps(dict(title=m.TITLE,assumptions=m.ASSUMPTIONS,"
        "harnesses={k:dict(quick=h.quick,thorough=h.thorough,must=h.must,"
        "bounds=h.bounds) for k,h in m.HARNESSES.items()})))\n"
    )
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:]), None
    return None, p.stderr[-4000:]


def main(cid, tier):
    t0 = time.time()
    only = os.environ.get("SYMX_ONLY")
    verbose = os.environ.get("SYMX_VERBOSE")
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("EPICS_CA_AUTO_ADDR_LIST", "NO")
    os.makedirs(EVID, exist_ok=True)
    info, err = meta(cid)
    if info is None:
        # The code under test cannot even be imported by the harness
        print(err)
        print(f"check {cid}: the harness cannot be loaded")
        return 2
    jobs = []
    for hn, h in info["harnesses"].items():
        if only and not hn.startswith(only):
            continue
        for i, p in enumerate(h[tier]):
            jobs.append((hn, p, i))
    budget = float(os.environ.get("SYMX_BUDGET", 600 if tier == "quick" else 3000))
    ncpu = int(os.environ.get("SYMX_JOBS", os.cpu_count() or 4))
    # the time budget is shared when there are more jobs than processors
    per_job = budget if len(jobs) <= ncpu else max(60.0, budget * ncpu / len(jobs))
    tmp = tempfile.mkdtemp(prefix=f"symx-{cid}-")
    results = []
    try:
        running = []
        queue = list(jobs)
        n = 0
        while queue or running:
            while queue and len(running) < ncpu:
                hn, p, i = queue.pop(0)
                out = os.path.join(tmp, f"{n}.json")
                n += 1
                left = max(30.0, budget - (time.time() - t0))
                proc = subprocess.Popen(
                    [sys.executable, "-m", "symx.worker", cid, hn, json.dumps(p),
                     str(min(left, budget)), out],
                    cwd=ROOT,
                    stdout=subprocess.DEVNULL,
                    stderr=subprocess.PIPE if False else open(out + ".err", "w"),
                    env=dict(os.environ, SYMX_STDERR=out + ".err"),
                )
                running.append((proc, hn, p, out, time.time()))
            time.sleep(0.05)
            for r in list(running):
                proc, hn, p, out, started = r
                if proc.poll() is None:
                    if time.time() - started > budget + 120:
                        proc.kill()
                    continue
                running.remove(r)
                if os.path.exists(out):
                    with open(out) as f:
                        results.append(json.load(f))
                else:
                    with open(out + ".err") as f:
                        e = f.read()
                    results.append(dict(harness=hn, params=p, crashed=e[-3000:]))
                if verbose:
                    x = results[-1]
                    print(hn, p, {k: x.get(k) for k in (
                        "paths", "replayed", "agreed", "checks", "lossy", "degraded",
                        "infeasible", "truncated", "wall", "crashed", "inconclusive",
                        "exceptions", "lossy_notes")},
                        "q", x.get("stats", {}).get("queries"),
                        "mism", len(x.get("mismatches", [])),
                        "unrep", x.get("unreproduced"),
                        "viol", [v["label"] for v in x.get("violations", [])],
                        flush=True)
                    print("   lossy at", x.get("stats", {}).get("lossy_where"))
                    for tb in x.get("tracebacks", []):
                        print(tb)
                    for tb in x.get("mismatches", [])[:2]:
                        print("MISMATCH", tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(cid, tier, info, results, t0, bool(only))


def report(cid, tier, info, results, t0, partial):
    from collections import Counter

    tot = Counter()
    notes = {}
    funcs = set()
    samples = []
    violations, unrep, crashed, inconclusive, vac = [], [], [], Counter(), []
    per = []
    cov = {}
    for r in results:
        if "crashed" in r:
            crashed.append(r)
            continue
        s = r["stats"]
        tot["paths"] += r["paths"]
        tot["replayed"] += r["replayed"]
        tot["agreed"] += r["agreed"]
        tot["mismatches"] += len(r["mismatches"])
        tot["assertions"] += r["checks"]
        tot["lossy"] += r["lossy"]
        tot["degraded"] += r["degraded"]
        tot["truncated"] += bool(r["truncated"])
        for k in ("queries", "sat", "unsat", "unknown", "branches", "checks",
                  "trivial_checks", "fork_values"):
            tot["s_" + k] += s[k]
        tot["solver_ms"] += int(s["solver_time"] * 1000)
        funcs |= set(r["functions"])
        for v in r["violations"]:
            violations.append(v)
        for u in r["unreproduced"]:
            unrep.append(dict(u, harness=r["harness"], params=r["params"]))
        for k, v in r["inconclusive"].items():
            inconclusive[k] += v
        for k in r["covered"]:
            cov.setdefault(r["harness"], set()).add(k)
        samples += [dict(x, harness=r["harness"]) for x in r["samples"][:1]]
        per.append(
            dict(
                harness=r["harness"], params=r["params"], paths=r["paths"],
                queries=s["queries"], solver_s=round(s["solver_time"], 3),
                wall_s=round(r["wall"], 2), replayed=r["replayed"],
                agreed=r["agreed"], truncated=r["truncated"],
                degraded=r["degraded"], concretised=r["lossy"],
            )
        )
    for hn, h in info["harnesses"].items():
        if any(r["harness"] == hn for r in results):
            miss = set(h["must"]) - cov.get(hn, set())
            if miss:
                vac.append(f"{hn}: never reached {sorted(miss)}")
    known = load_known(cid)
    fresh, listed = [], []
    for v in violations:
        k = match_known(known, v)
        (listed if k else fresh).append((v, k))
    evidence = dict(
        property=cid,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1")),
        level="model_checking",
        coverage=dict(
            states=tot["s_branches"] + tot["paths"],
            transitions=tot["s_queries"],
            traces_validated_against_impl=tot["agreed"],
            samples=(samples[:5] or ["none"]),
            paths=tot["paths"],
            assertions=tot["assertions"],
            queries_discharged=tot["s_queries"],
            query_results=dict(sat=tot["s_sat"], unsat=tot["s_unsat"],
                               unknown=tot["s_unknown"]),
            solver_time_s=round(tot["solver_ms"] / 1000, 3),
            assertion_queries=tot["s_checks"],
            assertions_constant_on_path=tot["s_trivial_checks"],
            functions_encoded=sorted(funcs),
            bounds={k: h["bounds"] for k, h in info["harnesses"].items()},
            reached={k: sorted(v) for k, v in cov.items()},
            replays=dict(run=tot["replayed"], agreed=tot["agreed"],
                         disagreed=tot["mismatches"]),
            concretised_paths=tot["lossy"],
            degraded_paths=tot["degraded"],
            truncated_harnesses=tot["truncated"],
            inconclusive=dict(inconclusive),
            unreproduced=unrep[:5],
            vacuity=vac,
            harness_errors=[c["harness"] for c in crashed],
            per_harness=per,
        ),
        assumptions=info["assumptions"],
        violations=len(fresh),
        wall_s=round(time.time() - t0, 2),
    )
    with open(os.path.join(EVID, f"{cid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{cid} {tier}: {tot['paths']} paths, {tot['assertions']} assertions, "
        f"{tot['s_queries']} solver queries ({tot['solver_ms']/1000:.1f}s), "
        f"{tot['agreed']}/{tot['replayed']} replays agree, "
        f"{tot['lossy']} concretised, {tot['degraded']} degraded, "
        f"{tot['truncated']} truncated, {sum(inconclusive.values())} inconclusive, "
        f"{time.time()-t0:.1f}s"
    )
    for k in {id(k): k for _, k in listed}.values():
        print(f"KNOWN-FINDING: property={cid} {k['what']}")
    if fresh:
        # different ones first
        kinds = {}
        for v, k in fresh:
            kinds.setdefault((v["harness"], v["label"]), []).append((v, k))
        fresh = [x[0] for x in kinds.values()] + [y for x in kinds.values() for y in x[1:]]
        for i, (v, _) in enumerate(fresh[:12]):
            path = os.path.join(EVID, f"{cid}-violation-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=cid, how=(
                    "cd /verif && /opt/venv/bin/python -m symx.replay " + path)), f,
                    indent=1)
            print(f"  {v['harness']} {v['params']}: {v['label']}: {v['detail'][:600]}")
            print(f"    values {json.dumps(v['values'])[:600]}")
            if v.get("error"):
                print("    " + v["error"].strip().splitlines()[-1][:300])
            print(f"VIOLATION property={cid} replay={path}")
        return 1
    for c in crashed:
        print("HARNESS ERROR", c["harness"], c["params"], c["crashed"][-1500:])
    for u in unrep[:5]:
        print("COUNTEREXAMPLE DID NOT REPRODUCE", json.dumps(u)[:800])
    for v in vac:
        print("VACUOUS", v)
    if crashed:
        return 2
    if unrep:
        return 3
    if vac and not tot["truncated"]:
        return 2
    return 0


def load_known(cid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == cid and k["status"] == "known"]


def match_known(known, v):
    for k in known:
        if k["harness"] != v["harness"] or k["label"] != v["label"]:
            continue
        cond = k.get("when", "True")
        try:
            if eval(cond, {"__builtins__": {}}, dict(values=v["values"], params=v["params"])):
                return k
        except Exception:
            continue
    return None


if __name__ == "__main__":
    os.chdir(ROOT)
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else
                  os.environ.get("VERIF_TIER", "quick")))
