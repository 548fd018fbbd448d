"""Writes MANIFEST.json from checks.json and the list of properties."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
conf = json.load(open(H + "/checks.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = conf["not_applicable"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf["checks"]:
        c = conf["checks"][i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: " + c["technique"],
            "level": "exploration",
            "level_note": c["note"] + " " + conf["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": conf["notes"]}, open(H + "/MANIFEST.json", "w"), indent=1)
