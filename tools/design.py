#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the checks, their last evidence,
known_findings.json and seeded/ (the parts that can go out of date)."""
import glob
import importlib
import inspect
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
from tools.outside import NA, OUTSIDE  # noqa

out = [open(ROOT + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
props = [json.loads(x) for x in open(ROOT + "/properties.jsonl")]
seeds = {}
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
caught = {}
try:
    caught = json.load(open(ROOT + "/tools/caught.json"))
except IOError:
    pass
for p in props:
    pid = p["id"]
    out += [f"### {pid} {p['title']}", ""]
    if not os.path.exists(f"{ROOT}/checks/{pid.lower()}.py"):
        out += ["Not claimed: " + NA.get(pid, "no check"), ""]
        continue
    m = importlib.import_module("checks." + pid.lower())
    cost = ""
    try:
        e = json.load(open(f"{ROOT}/evidence/{pid}.json"))
        c = e["coverage"]
        cost = (f" A {e['tier']} run: {c['paths']} paths, {c['assertions']} assertions, "
                f"{c['queries_discharged']} solver queries ({c['solver_time_s']:.0f} s in the solver), "
                f"{c['traces_validated_against_impl']} paths replayed on the real code; "
                f"{e.get('wall_s') or c.get('wall_s') or e.get('duration_s') or 0:.0f} s on 8 cores.")
    except (IOError, KeyError):
        pass
    out += [f"Decided by `checks/{pid.lower()}.py`.{cost}", ""]
    for k, h in m.HARNESSES.items():
        f = next((v for v in vars(h).values() if inspect.isfunction(v)), None)
        doc = " ".join((f.__doc__ or "").split()) if f else ""
        out.append(f"- `{k}` ({len(h.quick)} sets of bounds, {len(h.thorough)} in the thorough tier): {doc}")
    out += ["", "Assumed: " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    if pid in OUTSIDE:
        out += ["Outside: " + OUTSIDE[pid], ""]
    if pid in seeds:
        out += ["Planted: " + "; ".join(f"`{i}` ({d['what_it_breaks'].rstrip('.')}) {caught.get(i, 'not tried')}" for i, d in seeds[pid]) + ".", ""]
out += ["## Defects found and repaired", "",
        "Each is one `fix:` commit in /repo; none was suppressed, so the check reports it again if it returns.", ""]
kf = json.load(open(ROOT + "/known_findings.json"))["findings"]
for f in kf:
    if f["status"] == "fixed":
        out.append(f"- {f['property']} {f['commit']}: {f['what'].split(f['commit'], 1)[1].strip()}")
rest = [f for f in kf if f["status"] != "fixed"]
out += ["", "Known findings that are not repaired: " + ("none are listed." if not rest else "")]
for f in rest:
    out.append(f"- {f['property']}: {f['what']}")
out.append("")
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
