#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PROOF = "contract-based deductive verification (Verus) of functions extracted mechanically from /repo/src on every run"
P = []
def p(id, title, statement, over, text, why, files, mech, note, claimed=True, reason="", state=None, theorems=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claimed=claimed, reason=reason, state=state or [], theorems=theorems or [], level=level))

exec(open(os.path.join(V, "tools/gen/table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "state": x["state"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash checks/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: contracts are attached to code extracted from /repo/src on every run", "source_commits": []},
    "checks": [dict(property=x["id"], quick_cmd="python3 checks/check.py %s" % x["id"], thorough_cmd="python3 checks/check.py %s --tier thorough" % x["id"],
                    evidence_file="evidence/%s.json" % x["id"], technique=PROOF, level=x["level"], level_note=x["note"], **({"theorems": x["theorems"]} if x["theorems"] else {})) for x in P if x["claimed"]],
    "not_applicable": [dict(property=x["id"], reason=x["reason"]) for x in P if not x["claimed"]],
    "notes": "See DESIGN.md. One driver (checks/check.py), one extractor (tools/vx), contracts in overlay/, concrete replay and search in tools/harness.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
