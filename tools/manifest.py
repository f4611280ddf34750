"""Writes MANIFEST.json: one entry per checks/Cxx.py that exists, the rest not_applicable."""
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, d)
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl"))]
notes = json.load(open(os.path.join(d, "tools", "notes.json")))
m = {"version": 1, "setup_cmd": "python3 vf/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(d, "checks", i + ".py")) and i in notes["checks"]:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i,
                            "thorough_cmd": "python3 run.py " + i + " thorough",
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "TLA+ specification (%s.tla): TLC model checking + trace validation of the real code" % notes["checks"][i]["spec"],
                            "level": "model_checking", "level_note": notes["checks"][i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": notes["na"].get(i, "not claimed: no check has been built for it yet")})
m["notes"] = notes["notes"]
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
