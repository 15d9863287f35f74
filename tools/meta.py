#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json; run to regenerate both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, technique="", level="exploration", note="", na=None):
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "observe_at": observe, "hook_needed": hook}})
    if na:
        NA[id] = na
    else:
        CHECKS[id] = (technique, level, note)


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": HOOKS,
    "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                "technique": t, "level": l, "level_note": n} for i, (t, l, n) in CHECKS.items()],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
    "notes": NOTES,
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties,", len(CHECKS), "checks")
