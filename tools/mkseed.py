"""mkseed(id, prop, file, [(old, new)...], needs, breaks, demo_py= or demo_cpp=): writes seeded/<id>/."""
import json, os, subprocess, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH_CPP = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run in /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
lib=$PWD/build/lib
g++ -std=c++17 -O0 -w -I"$PWD/include" -I/usr/include/eigen3 "$here/demo.cpp" -o "$work/demo" \\
    -L"$lib" -lcantera_shared -lfmt -lyaml-cpp -Wl,-rpath,"$lib" -Wl,--allow-shlib-undefined -pthread || exit 9
cd "$work" && CANTERA_DATA="$OLDPWD/data" OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
'''
SH_PY = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run in /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
cp "$here/demo.py" "$work/"
cd "$work" && PYTHONPATH="$repo/build/python" LD_LIBRARY_PATH="$repo/build/lib" CANTERA_DATA="$repo/data" OPENBLAS_NUM_THREADS=1 \\
    timeout 200 /opt/cantera-venv/bin/python demo.py
'''


def mkseed(id, prop, edits, needs, breaks, cpp=None, py=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        t = files.get(f) or subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        assert t.count(old) == 1, (id, f, t.count(old), old)
        files[f] = t.replace(old, new)
    work = tempfile.mkdtemp()
    diff = ""
    for f, t in files.items():
        orig = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout
        for side, txt in (("a", orig), ("b", t)):
            os.makedirs(os.path.join(work, side, os.path.dirname(f)), exist_ok=True)
            open(os.path.join(work, side, f), "w").write(txt)
    diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=work, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(work)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], capture_output=True, text=True)
    assert r.returncode == 0, (id, r.stderr, diff[:500])
    if cpp:
        open(os.path.join(d, "demo.cpp"), "w").write(cpp)
        open(os.path.join(d, "demo.sh"), "w").write(SH_CPP)
    else:
        open(os.path.join(d, "demo.py"), "w").write(py)
        open(os.path.join(d, "demo.sh"), "w").write(SH_PY)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("seeded", id)
