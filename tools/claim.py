"""python3 tools/claim.py <ID> <spec> <note>: claim a property (updates notes.json, properties.jsonl and MANIFEST.json)."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "notes.json")
n = json.load(open(p))
n["checks"][sys.argv[1]] = {"spec": sys.argv[2], "note": sys.argv[3]}
n["na"].pop(sys.argv[1], None)
json.dump(n, open(p, "w"), indent=1)
for s in ("props.py", "manifest.py"):
    subprocess.check_call([sys.executable, os.path.join(d, s)])
