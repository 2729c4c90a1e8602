"""Helper for planted changes.

mk(...) writes seeded/<id>/; 'python3 tools/mkseed.py ID [TESTPATH...]' confirms
one in a scratch copy: the demonstration and the given tests."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
"""


def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    out = ""
    byfile = {}
    for file, old, new in edits:
        s = byfile.get(file) or open("/repo/" + file).read()
        assert s.count(old) == 1, (file, old, s.count(old))
        byfile[file] = s.replace(old, new)
    for file, new in byfile.items():
        a = open("/repo/" + file).read()
        out += "".join(difflib.unified_diff(
            a.splitlines(True), new.splitlines(True), "a/" + file, "b/" + file))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(id, tests):
    d = os.path.join(ROOT, "seeded", id)
    t = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(t, "repo")
    try:
        shutil.copytree("/repo", r, symlinks=True)
        sh = ["bash", os.path.join(d, "demo.sh")]
        a = subprocess.run(sh, cwd=r, capture_output=True, text=True)
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r)
        b = subprocess.run(sh, cwd=r, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0 and p.returncode == 0
        print(id, "demo clean", a.returncode, "patched", b.returncode, "OK" if ok else "BAD")
        if not ok:
            print(a.stderr[-2000:], b.stdout[-500:], b.stderr[-1500:])
        else:
            print("   ", (b.stderr.strip().splitlines() or [""])[-1][:150])
        for f in tests:
            x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                                "no:cacheprovider", "-o", "addopts=", "--timeout=60", f],
                               cwd=r, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            print("   tests", f, x.stdout.strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    confirm(sys.argv[1], sys.argv[2:])
