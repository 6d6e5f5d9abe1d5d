#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over whole-program runs"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./tools/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.py %s quick" % p["id"],
        "thorough_cmd": "./check.py %s thorough" % p["id"],
        "technique": TECH,
        "level": "exploration",
        "level_note": note,
    } for p, note in P if note],
    "not_applicable": NA,
    "notes": "No hooks in /repo: the seams (system calls, clock, randomness, terminal, network, child programs) are put in at build time "
             "by overlaying the Go standard library and a few dependencies (tools/mkoverlay.py).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
