#!/usr/bin/env python3
"""Rewrites MANIFEST.json and the "fixed" list of known_findings.json from the
claims below, /repo's fix commits and harness/internal/props (which properties have a check)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each fix commit, by a part of its subject
FIXES = [("AddReturnType", "C20"), ("embedded struct fields, which", "C16"), ("panic after a call", "C16"),
 ("hides the calls nested", "C16"), ("fewer arguments", "C16"), ("custom functions share", "C17"), ("recursive helpers", "C16"),
 ("alias types", "C03"), ("followed by the name of the context", "C05"), ("unnamed context", "C16"), ("recursive types", "C03"),
 ("func or chan field", "C16"), ("enum values misread", "C14"), ("nested collections", "C03"), ("length of an array", "C03"),
 ("component names collide", "C04"), ("views of structs", "C21"), ("types without tags for their encoding", "C21"),
 ("several form fields", "C02"), ("bound headers have no name", "C02"), ("parameters are repeated", "C09"), ("TRACE", "C08"),
 ("values of constant expressions", "C01"), ("type of an expression", "C01"), ("helpers of packages with", "C05"),
 ("error is only substituted", "C13"), ("headers bound to types of the main", "C02"), ("struct tag options", "C21"),
 ("embedded types that are unexported", "C03"), ("YAML cache", "C07"), ("custom type mappings are not restored", "C07"),
 ("refuses every Azure", "C06"), ("replace parameters inside", "C11"), ("can delete the whole project", "C10"),
 ("dot in the last path element", "C08"), ("another module with the same path", "C09"), ("method handlers", "C16"),
 ("embed files", "C16"), ("large integer enum", "C07"), ("empty content type", "C01")]
import importlib.util
spec = importlib.util.spec_from_file_location("extra", os.path.join(V, "tools", "manifest_data.py"))
data = importlib.util.module_from_spec(spec); spec.loader.exec_module(data)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "base..HEAD"], capture_output=True, text=True)
lines = [l for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines() if " fix: " in l]
fixed = []
for l in lines:
    h, s = l.split(" ", 1)
    m = [p for k, p in FIXES + getattr(data, "FIXES", []) if k in s]
    assert len(m) == 1, (l, m)
    fixed.append(f"fixed: property={m[0]} {h} {s[5:]}")
kf = json.load(open(os.path.join(V, "known_findings.json")))
kf["fixed"] = fixed
json.dump(kf, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
d = os.path.join(V, "harness/internal/props")
for f in os.listdir(d):
    have |= set(re.findall(r'register\("(C\d+)"', open(os.path.join(d, f)).read() if f.endswith(".go") else ""))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in data.CHECKS:
        t, note = data.CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh ID runs the check of one property, check.sh replay FILE one saved case; tools/genprops.py and tools/genmeta.py write properties.jsonl and this file."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
