#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from props import PROPS
from checks import CHECKS
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: every monitor observes the library at its public interface", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick",
                "thorough_cmd": f"python3 run.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
               for p in PROPS if p["id"] in CHECKS and not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"] or "check not built yet"} for p in PROPS
                       if p["na"] or p["id"] not in CHECKS],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
    for f in p["files"] + [b for _, b in p["mech"]]:
        assert os.path.exists(os.path.join("/repo", f)), f
print(len(PROPS), "properties", len(man["checks"]), "checks")
