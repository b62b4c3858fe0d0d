"""Writes properties.jsonl and MANIFEST.json from tools/props.py; run from /verif."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import P
import importlib


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": q["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for q in P:
        i = q["id"]
        path = os.path.join(ROOT, "sa", "props", i + ".py")
        if q["na"] or not os.path.exists(path):
            na.append({"property": i, "reason": q["na"] or "no check built yet"})
            continue
        mod = importlib.import_module("sa.props." + i)
        checks.append({
            "property": i,
            "quick_cmd": "python3 -m sa.check --property %s --tier quick" % i,
            "thorough_cmd": "python3 -m sa.check --property %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": q["technique"] or getattr(mod, "TECHNIQUE", "abstract interpretation of the current source (gated value graph), obligations on abstract observations"),
            "level": "other",
            "level_note": q["note"] or getattr(mod, "NOTE", "Every obligation is decided on the abstract value the analysis derives from the current source; constructs outside the abstraction leave their obligation undecided (listed in the evidence), never refuted. Trusted: the interpreter's models of Python and numpy, and the reference semantics in the check."),
        })
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only: nothing of the repository is imported or executed. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not")


main()
