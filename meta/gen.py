#!/opt/veriftools/pyvenv/bin/python
"""writes properties.jsonl and MANIFEST.json from table.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import P
root = os.path.dirname(here)
try:
    from table import NA
except ImportError:
    NA = []
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
py = "/opt/veriftools/pyvenv/bin/python"
json.dump({"version": 1, "setup_cmd": "%s -c 'import z3, sys; sys.exit(0)'" % py,
           "checks": [{"property": p["id"], "quick_cmd": "%s /verif/check.py %s" % (py, p["id"]), "thorough_cmd": "%s /verif/check.py %s thorough" % (py, p["id"]),
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]}
                      for p in P if p["id"] not in [n[0] for n in NA]],
           "not_applicable": [{"property": a, "reason": b} for a, b in NA],
           "notes": "No hooks: the verifier reads the IR of the unmodified sources."}, open(root + "/MANIFEST.json", "w"), indent=1)
