#!/usr/bin/env python3
"""Generate /verif/MANIFEST.json from the checks present (run after adding one)."""
import ast, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i + ".py")
    if os.path.exists(f):
        note = ""
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "LEVEL_NOTE":
                note = ast.literal_eval(n.value)
        checks.append(
            {
                "property": i,
                "quick_cmd": "./check " + i,
                "thorough_cmd": "./check " + i + " --tier thorough",
                "technique": "symbolic execution of the real Python functions, z3 deciding every branch and assertion",
                "level": "model_checking",
                "level_note": note
                or "Holds for every value and path within the bounds listed per harness in the evidence; nothing is claimed outside them. Trusted: the engine in symx/, z3, and the stubs listed under assumptions; sampled path models are re-run on the unpatched code to validate the encoding.",
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
json.dump(
    {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks are needed: the checks import the code from /repo/src and substitute environment objects from outside.",
    },
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks,", len(na), "not claimed")
