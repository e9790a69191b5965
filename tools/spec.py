#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: run `python3 tools/spec.py`."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []
U = "PyFHD/pyfhd_tools/pyfhd_utils.py"


def P(id, title, statement, text, why, files, mech, note, over=("inputs",), observe=(), technique=None, claim=True, reason=None):
    files = [files] if isinstance(files, str) else list(files)
    PROPS.append(dict(
        d=dict(id=id, title=title, statement=" ".join(statement.split()),
               quantifier=dict(over=list(over), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                            observe_at=list(observe), hook_needed=None)),
        note=" ".join(note.split()), technique=technique or "property-based testing (Hypothesis generators + shrinking) against an independent reference model",
        claim=claim, reason=reason))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())


def main():
    assert len({p["d"]["id"] for p in PROPS}) == len(PROPS)
    for p in PROPS:
        assert len(p["d"]["title"]) <= 80, p["d"]["title"]
        assert p["d"]["statement"].count(". ") <= 2, (p["d"]["id"], "too many sentences")
        for f in p["d"]["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["d"]) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["d"]["id"]
        if p["claim"] and os.path.exists(os.path.join(HERE, "pbt", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                               evidence_file=f"evidence/{i}.json", technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=i, reason=p["reason"] or "check not built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="No hooks are used: every check drives public functions of /repo's working tree in fresh processes. fix: commits in /repo are listed in known_findings.json.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not claimed")


main()
