#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and the table in DESIGN.md from props.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import P
from checks import CHECKS

assert {x["id"] for x in P} == set(CHECKS), {x["id"] for x in P} ^ set(CHECKS)
P.sort(key=lambda x: x["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        for fn in x["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Every check builds its harness with /repo's working tree (GOPATH mode, through a symlink) and watches the real code; no hooks in /repo are needed. Replay a violation with: python3 check.py <ID> --replay <file>."}
for x in P:
    m["checks"].append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"],
                        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + x["id"],
                        "technique": x["technique"], "level": "exploration", "level_note": x["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
d = os.path.join(V, "DESIGN.md")
t = open(d).read()
tab = []
for x in P:
    c = CHECKS[x["id"]]
    ins = []
    if c.get("race"):
        ins.append("race detector")
    if c.get("fx"):
        ins.append("injected delays")
    if c.get("flags"):
        ins.append("checkptr")
    if c.get("nobody"):
        ins.append("unprivileged user")
    tab.append("### %s %s\n\n*Decided by:* %s (`harness/cmd/%s`%s).\n\n%s\n\n*Strength:* %s.\n" % (
        x["id"], x["title"], x["technique"], c["cmd"], "; " + ", ".join(ins) if ins else "", x["how"], x["note"]))
t = re.sub(r"(<!-- properties -->\n).*?(<!-- /properties -->)", lambda k: k.group(1) + "\n" + "\n".join(tab) + "\n" + k.group(2), t, flags=re.S)
open(d, "w").write(t)
