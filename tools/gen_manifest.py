"""Write MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
meta = json.load(open(os.path.join(H, "checks.json")))
checks, na = [], []
for p in props:
    m = meta.get(p)
    if m is None:
        na.append({"property": p, "reason": "no check built yet"})
        continue
    checks.append({
        "property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": "contract-based deductive verification of the current source (pyvc: symbolic execution with inductive loop summaries, ring/Sum normalisation, z3, cvc5), runtime replay of the contract",
        "level": m.get("level", "proof"),
        "level_note": m.get("note", "") or "All obligations of the contract are discharged for all inputs; trusts pyvc, the assumed library contracts listed in the evidence, and real arithmetic for floats."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo. Known findings and repaired defects: known_findings.json."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
