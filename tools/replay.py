"""python3 tools/replay.py <replay file>: run one replay file through the driver, verbosely, and print the recorded trace."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
d = json.load(open(sys.argv[1]))
build.build_lib()
exe = build.build_driver(d["driver"])
open("/tmp/rp.in", "w").write(json.dumps({"id": 0, "cfg": d["cfg"], "ops": d["ops"]}) + "\n")
r = subprocess.run([exe, "/tmp/rp.in", "/tmp/rp.out"], env=dict(os.environ, DRV_VERBOSE="1", CANTERA_DATA=build.REPO + "/data:" + build.REPO + "/test/data"), capture_output=True, text=True)
print(r.returncode, r.stdout[-2000:], r.stderr[-3000:])
for l in open("/tmp/rp.out"):
    for e in json.loads(l)["ev"][-int(os.environ.get("LAST", "3")):]:
        print(json.dumps(e)[:1500])
print("expected:", d.get("specification_expects"))
