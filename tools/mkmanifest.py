#!/usr/bin/env python3
""" writes MANIFEST.json from properties.jsonl and the check modules that are there """
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(file):
    rv = {}
    for node in ast.parse(open(file).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                rv[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return rv


checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    file = os.path.join(VERIF, "checks", pid.lower() + ".py")
    if not os.path.exists(file):
        missing.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    c = constants(file)
    checks.append({
        "property": pid,
        "quick_cmd": f"./run.sh {pid} quick",
        "thorough_cmd": f"./run.sh {pid} thorough",
        "technique": c.get("TECHNIQUE", "property-based testing: generated test programs (Hypothesis) against an executable oracle, with shrinking"),
        "level": c.get("LEVEL", "exploration"),
        "level_note": c.get("LEVEL_NOTE",
                            "Held on every generated case of a seeded search; says nothing about inputs that were not "
                            "generated. Trusts the oracle in checks/" + pid.lower() + ".py, CPython and Hypothesis. "
                            "Cases: " + c["RULE"]),
    })

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the checks import booktest from /repo's working tree (PYTHONPATH=/repo, no bytecode written) "
             "and judge its public API and command line. See DESIGN.md. Replay: ./run.sh <id> --replay <file>.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
