"""python3 tools/diffq.py <replay>: which queries of a rejected event differ from the specification."""
import json, re, sys
d = json.load(open(sys.argv[1]))
ev = d["event"]
e = json.loads(re.sub(r"<<", "[", d["specification_expects"]).replace(">>", "]"))
obs = ev["obs"]["v"]
print(ev["op"].get("op"))
for q, a, b in zip(ev["op"].get("qs", []), obs, e):
    if a != b:
        print(q)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                print(" ", i, x, y)
