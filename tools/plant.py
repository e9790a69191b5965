#!/usr/bin/env python3
"""plant.py DEFS.py [ID ...]: create/confirm planted bugs in seeded/<id>/ from definitions.

DEFS.py holds BUGS: a list of dict(id, prop, file, edits=[(old, new), ...], demo, needs, breaks).
Each bug is built in a scratch copy of /repo, its demonstration is run on both trees, the stable
tests are run on the changed copy, and the property's quick check is run against the copy.
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYFHD_TEST_PATH="/opt/vp/test_data")
for b in ns["BUGS"]:
    if want and b["id"] not in want:
        continue
    d = os.path.join(V, "seeded", b["id"])
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    r = os.path.join(w, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        files = [b["file"]] if isinstance(b["file"], str) else b["file"]
        for e in b["edits"]:
            f, old, new = (files[0], *e) if len(e) == 2 else e
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        old_src = "\n".join(subprocess.run(["git", "-C", r, "show", "a06dda4:" + f], capture_output=True, text=True).stdout for f in {(files[0] if len(e) == 2 else e[0]) for e in b["edits"]})
        base_lines = set(old_src.splitlines())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base_lines:
                print("  WARNING: not an original line:", l)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for h in b.get("helpers", []):
            shutil.copy(os.path.join(V, "pbt", h), d)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-n", "4", "-p", "no:cacheprovider", "--tb=line", "-W", "ignore", "-rA",
                            "--continue-on-collection-errors", "--basetemp", w + "/bt"], cwd=r, env=dict(env, PYTHONPATH=r), capture_output=True, text=True)
        npass = sum(1 for l in t.stdout.splitlines() if l.startswith("PASSED"))
        ok = good.returncode == 0 and bad.returncode != 0 and npass >= len(base)
        c = subprocess.run(["bash", "check.sh", b["prop"], "quick"], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_EVIDENCE_DIR=w))
        caught = c.returncode == 1 and f"VIOLATION property={b['prop']}" in c.stdout
        print(f"{b['id']}: {'valid' if ok else 'INVALID'} good={good.returncode} bad={bad.returncode} tests={npass}/{len(base)} "
              f"check={'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode}", flush=True)
        if good.returncode:
            print("  good-tree demo:", (good.stdout + good.stderr)[-800:])
        if bad.returncode == 0:
            print("  demo did not notice the change")
        if caught:
            print("   ", [l for l in c.stdout.splitlines() if l.startswith("  [")][0][:300])
        elif c.returncode not in (0, 1):
            print(c.stdout[-1500:])
    finally:
        shutil.rmtree(w)
