#!/usr/bin/env python3
"""Writes /verif/properties.jsonl, plan.json and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "lightstep/sdk/metric/"
P = []

def prop(id, title, statement, over, text, why, files, mech, run, technique, note, assumptions=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  run=run, technique=technique, note=note, assumptions=list(assumptions)))

exec(open(os.path.join(V, "tools", "props_table.py")).read())

def main():
    skip = set(sys.argv[1].split(",")) if len(sys.argv) > 1 and sys.argv[1] else set()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            if len(p["title"]) > 80: raise SystemExit("title too long: " + p["title"])
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    base = ["The Go memory model's sequentially consistent semantics of sync and sync/atomic; scheduling points are the synchronisation, channel, goroutine and clock operations of the SDK packages (data races between them are looked for separately under C24).",
            "Executions that need more preemptions, threads or operations than the stated bounds are not explored."]
    seq = ["Inputs, configurations and operation sequences outside the enumerated tables are not explored."]
    plan = {}
    for p in P:
        if p["id"] in skip or not p["run"]: continue
        a = base if "core" in p["run"] or "race" in p["run"] else seq
        plan[p["id"]] = {"run": p["run"], "assumptions": a + p["assumptions"]}
    with open(os.path.join(V, "plan.json"), "w") as f:
        json.dump(plan, f, indent=1); f.write("\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none: /repo carries no hooks",
                     "enable": "go build -overlay: tools/instr rewrites the SDK's imports of sync, sync/atomic, time, context and runtime, its go statements and channel operations into a scratch directory at check time",
                     "source_commits": []},
           "checks": [], "not_applicable": [],
           "notes": "Every check is 'python3 check.py <id> <tier>'; see DESIGN.md. Genuine defects found are in known-findings.txt."}
    for p in P:
        if p["id"] not in plan:
            man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
            continue
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                              "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                              "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
main()
