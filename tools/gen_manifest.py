"""Writes MANIFEST.json from modules.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import modules as M
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
tech = "contract-based deductive verification: pre/postconditions on the functions, obligations generated from clang IR of the current source and discharged by z3 function by function"
checks = []
for p in props:
    i = p["id"]
    if i not in M.PROPS: continue
    checks.append({"property": i, "quick_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s --tier quick" % i, "thorough_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s --tier thorough" % i,
        "technique": tech + M.TECH.get(i, ""), "level": "proof", "level_note": M.NOTE.get(i, "every function listed in the evidence is proved against its contract for all inputs; a bounded randomized run of the real code supplies failing inputs and is never counted as proved")})
na = [{"property": p["id"], "reason": M.NA.get(p["id"], "not built yet")} for p in props if p["id"] not in M.PROPS]
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "HARBOL_VERIF_HOOKS", "enable": "no hooks are needed: the unmodified source is compiled to IR", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
