"""Write properties.jsonl and MANIFEST.json from spec.py."""
import json, os
from spec import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NI = {p["id"]: r for p, r in NA}
with open(V + "/properties.jsonl", "w") as fh:
    for p in P + [q for q, _ in NA]:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
        for _, f in p["mech"]:
            assert os.path.exists("/repo/" + f.split(":")[0]), f
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        fh.write(json.dumps(d) + "\n")
PY = "/opt/venv/bin/python /verif/run.py "
m = {"version": 1, "setup_cmd": PY + "--selftest",
     "checks": [{"property": p["id"], "quick_cmd": PY + p["id"], "thorough_cmd": PY + p["id"] + " --tier thorough",
                 "technique": p["tech"], "level": "model_checking", "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
     "notes": "No hooks in /repo. Everything runs on the source under /repo/src and /repo/bench; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "checks", len(NA), "n/a")
