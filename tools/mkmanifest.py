"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(H, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "mkdir -p build evidence replay-out", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in conf:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": conf[i].get("technique", "property-based testing: random structured generation against an independent reference, with shrinking"),
            "level": "exploration",
            "level_note": conf[i].get("level_note", "Random search over generated cases (counts in the evidence file); no exhaustive bound is claimed. Trusts the reference definitions in harness/ and the installed compiler, Kokkos and Eigen."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
