"""run.py <PROPERTY> [--tier quick|thorough] [--sub NAME] [--replay FILE]"""

import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def child_env():
    e = dict(os.environ)
    e.update(
        PYTHONPATH=REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        TZ="UTC",
    )
    return e


def load(prop):
    return importlib.import_module(prop.lower())


def worker(prop, subname, tier, seed, out):
    import core

    mod = load(prop)
    sub = {s.name: s for s in mod.SUBS}[subname]
    core.run_sub(prop, sub, tier, seed, out)


def replay(path):
    import traceback

    import core

    d = json.load(open(path))
    mod = load(d["property"])
    sub = {s.name: s for s in mod.SUBS}[d["check"]]
    try:
        core.evaluate(sub, d["case"])
    except core.HarnessError:
        raise
    except (Exception, SystemExit):
        traceback.print_exc()
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("replay passes")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--sub")
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.worker:
        worker(a.prop, a.worker, a.tier, a.seed, a.out)
        return 0

    t0 = time.monotonic()
    prop = a.prop.upper()
    # the sub list is obtained in a child so that a native crash cannot take us down
    q = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", f"import sys;sys.path[:0]=[{HERE!r},{REPO!r}];import {prop.lower()} as m;print('SUBS '+' '.join(s.name for s in m.SUBS))"],
        env=child_env(), capture_output=True, text=True,
    )
    names = [l for l in q.stdout.splitlines() if l.startswith("SUBS ")]
    if q.returncode or not names:
        sys.stderr.write(q.stdout + q.stderr)
        print(f"ERROR property={prop}: check could not be loaded")
        return 2
    names = names[0].split()[1:]
    if a.sub:
        names = [n for n in names if n in a.sub.split(",")]
    evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    limit = 780 if a.tier == "quick" else 6 * 3600
    results, errors = {}, []
    with tempfile.TemporaryDirectory(prefix="pyfhd-pbt-run-") as td:
        pending, running = list(names), {}
        env = child_env()
        env["TMPDIR"] = td
        env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(td, "hyp")
        while pending or running:
            while pending and len(running) < a.jobs:
                n = pending.pop(0)
                out = os.path.join(td, n + ".json")
                log = open(os.path.join(td, n + ".log"), "w")
                p = subprocess.Popen(
                    [sys.executable, "-W", "ignore", os.path.join(HERE, "run.py"), prop, "--worker", n, "--out", out,
                     "--tier", a.tier, "--seed", str(a.seed)],
                    env=env, stdout=log, stderr=log, cwd=td,
                )
                running[n] = (p, out, log, time.monotonic())
            for n, (p, out, log, ts) in list(running.items()):
                rc = p.poll()
                if rc is None:
                    if time.monotonic() - t0 > limit:
                        p.kill()
                        p.wait()
                        errors.append(f"{n}: time limit reached (inconclusive)")
                        del running[n]
                    continue
                del running[n]
                log.close()
                if os.path.exists(out):
                    results[n] = json.load(open(out))
                    if results[n]["error"]:
                        errors.append(f"{n}: {results[n]['error']}")
                elif rc in (-11, -6, -8, -7, -4) and os.path.exists(out + ".case"):
                    results[n] = {"sub": n, "evals": 1, "nontrivial": 0, "labels": {}, "samples": [], "error": None,
                                  "rule": "", "wall": 0,
                                  "fail": {"case": json.load(open(out + ".case")), "msg": f"process died with signal {-rc}", "tb": ""}}
                else:
                    errors.append(f"{n}: worker exit {rc}\n" + open(os.path.join(td, n + ".log")).read()[-3000:])
            time.sleep(0.02)
    viol = 0
    for n in names:
        r = results.get(n)
        if r and r["fail"]:
            viol += 1
            path = os.path.join(repdir, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "check": n, "case": r["fail"]["case"], "message": r["fail"]["msg"],
                           "traceback": r["fail"]["tb"],
                           "replay": f"/opt/venv/bin/python /verif/pbt/run.py {prop} --replay {path}"}, f, indent=1)
            print(f"  [{n}] {r['fail']['msg'][:1500]}")
            print(f"  case: {json.dumps(r['fail']['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
    # known findings
    known = 0
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf) and not a.sub:
        for e in json.load(open(kf)):
            if e.get("status") != "open" or e["property"] != prop:
                continue
            p = subprocess.run([sys.executable, "-W", "ignore", "-c",
                                f"import sys;sys.path[:0]=[{HERE!r},{REPO!r}];import {prop.lower()} as m;"
                                f"print('KF', m.KNOWN[{e['id']!r}]())"], env=child_env(), capture_output=True, text=True)
            out = [l for l in p.stdout.splitlines() if l.startswith("KF ")]
            if not out:
                errors.append(f"known-finding probe {e['id']}: {p.stderr[-1500:]}")
            elif out[0] != "KF None":
                known += 1
                print(f"KNOWN-FINDING: property={prop} {e['id']}: {e['what']} [{out[0][3:]}]")
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results.values()),
            "distinct_nontrivial": sum(r["nontrivial"] for r in results.values()),
            "rule": " || ".join(f"{n}: {results[n]['rule']}" for n in names if n in results),
            "samples": [s for n in names if n in results for s in results[n]["samples"][:2]][:40],
            "per_check": {n: {"evaluations": r["evals"], "distinct_nontrivial": r["nontrivial"], "labels": r["labels"],
                              "wall_s": round(r["wall"], 2)} for n, r in results.items()},
            "known_findings_reproduced": known,
        },
        "assumptions": getattr(sys.modules.get(prop.lower()), "ASSUMPTIONS", []) or
        ["generated inputs follow the preconditions of the pipeline's own callers, as stated in DESIGN.md"],
        "wall_s": round(time.monotonic() - t0, 2), "violations": viol,
    }
    if not a.sub:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n in names:
        if n in results:
            r = results[n]
            print(f"  {n}: {r['evals']} cases, {r['nontrivial']} non-trivial, {r['wall']:.1f}s {r['labels'] if r['labels'] else ''}")
    print(f"{prop}: {ev['coverage']['evaluations']} cases, {viol} violation(s), {ev['wall_s']} s")
    if viol:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
