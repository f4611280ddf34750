"""SYS filter: for C02, find failing scenarios of a phase, minimise and print them.  python3 tools/minq.py <filter> [seed] [n] [queryfilter]"""
import json, os, subprocess, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
from checks import C02
build.build_lib()
exe = build.build_driver("cache")
env = dict(os.environ, CANTERA_DATA=build.REPO + "/data:" + build.REPO + "/test/data", MALLOC_PERTURB_="165")
def run(ss, verbose=False):
    open("/tmp/mq.in", "w").write("".join(json.dumps(dict(s, id=i)) + "\n" for i, s in enumerate(ss)))
    if os.path.exists("/tmp/mq.out"): os.unlink("/tmp/mq.out")
    r = subprocess.run([exe, "/tmp/mq.in", "/tmp/mq.out"], env=dict(env, **({"DRV_VERBOSE": "1"} if verbose else {})), capture_output=True, text=True)
    out = [json.loads(l) for l in open("/tmp/mq.out")]
    return out, r
def bad(t):
    ks = [0, 0]; memo = {}
    for i, e in enumerate(t["ev"]):
        if e["op"]["op"] == "q" and e["obs"].get("v") != e["obs"].get("f"): return i
    return None
flt = sys.argv[1]; r = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1); n = int(sys.argv[3]) if len(sys.argv) > 3 else 60
qf = sys.argv[4] if len(sys.argv) > 4 else ""
sys_ = [s for s in C02.SYS if flt == s["file"] + ":" + s["phase"] or flt == s["phase"]]
ss = [C02.scenario(r, sys_[i % len(sys_)]) for i in range(n)]
seen = set(); shown = 0
out, p = run(ss)
if p.returncode: print("rc", p.returncode, p.stderr[-600:])
for t, s in zip(out, ss):
    k = bad(t)
    if k is None: continue
    q = s["ops"][k]["q"]
    if q in seen or qf not in q: continue
    ops = s["ops"][:k + 1]
    i = 0
    while i < len(ops) - 1:
        c = dict(s, ops=ops[:i] + ops[i + 1:])
        o, _ = run([c])
        if o and bad(o[0]) == len(c["ops"]) - 1: ops = c["ops"]
        else: i += 1
    o, p = run([dict(s, ops=ops)], True)
    seen.add(q)
    print("----", s["cfg"]["phase"], q)
    for x in ops: print("   ", json.dumps(x))
    print(p.stderr[-700:] if ":" not in p.stderr[-1500:] else "\n".join(l[:260] for l in p.stderr.strip().split("\n")[-2:]))
    shown += 1
    if shown >= 6: break
