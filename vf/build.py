"""Content-addressed build of Cantera's C++ library (from /repo's working tree) and of the
conformance drivers in /verif/drivers.  An object is reused only when the command and the bytes of
the source and of every non-system header it included are unchanged, so neither mtimes nor leftovers
of another run can make a stale object be used."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4
SUBDIRS = "base clib equil extensions kinetics numerics oneD thermo tpx transport zeroD".split()
SKIP = {"pythonShim.cpp", "PythonExtensionManager.cpp", "canteraStatic.cpp", "canteraShared.cpp"}
LIBS = ["-lfmt", "-lyaml-cpp", "-lsundials_cvodes", "-lsundials_idas", "-lsundials_nvecserial",
        "-lopenblas", "-ldl", "-lpthread"]
_hashes = {}
_hl = threading.Lock()


class BuildError(Exception):
    pass


def fhash(path):
    with _hl:
        h = _hashes.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hl:
            _hashes[path] = h
    return h


def flags(extra=()):
    gen = os.path.join(OUT, "gen")
    cfg = os.path.join(REPO, "include/cantera/base/config.h")
    inc = []
    if not os.path.exists(cfg):   # generated by SCons and ignored by git: fall back on a saved copy
        d = os.path.join(gen, "cantera/base")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "config.h")
        src = os.path.join(VERIF, "data/config.h")
        if not os.path.exists(dst) or open(dst).read() != open(src).read():
            shutil.copy(src, dst)
        inc = ["-I" + gen]
    return (["-std=c++17", "-fPIC", "-pthread", "-w"] + list(extra) + inc +
            ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
             "-isystem", "/usr/include/eigen3",
             '-DCANTERA_DATA="%s"' % os.path.join(REPO, "data"), '-DGIT_COMMIT="verif"'])


def parse_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [d.replace("\\ ", " ") for d in re.split(r"(?<!\\)\s+", txt.strip()) if d]


def compile_one(src, obj, cmdflags):
    meta = obj + ".json"
    cmd = ["g++"] + cmdflags + ["-c", src, "-o", obj]
    cmdkey = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmdkey and os.path.exists(obj) and \
                all(fhash(p) == h for p, h in m["deps"].items()):
            return False, m["key"]
    except (OSError, ValueError, KeyError):
        pass
    d = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", d], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-6000:]))
    deps = {p: fhash(p) for p in parse_deps(d)}
    os.unlink(d)
    key = hashlib.sha256((cmdkey + json.dumps(sorted(deps.items()))).encode()).hexdigest()
    with open(meta + ".tmp", "w") as f:
        json.dump({"cmd": cmdkey, "deps": deps, "key": key}, f)
    os.replace(meta + ".tmp", meta)
    return True, key


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_lib(opt="-O1", variant="", extra=()):
    """Build libct<variant>.so; returns its path."""
    with Lock():
        _hashes.clear()
        odir = os.path.join(OUT, "obj" + variant)
        os.makedirs(odir, exist_ok=True)
        srcs = []
        for s in SUBDIRS:
            for p in sorted(glob.glob(os.path.join(REPO, "src", s, "*.cpp"))):
                if os.path.basename(p) not in SKIP:
                    srcs.append(p)
        fl = flags([opt] + list(extra))

        def one(p):
            o = os.path.join(odir, os.path.relpath(p, os.path.join(REPO, "src")).replace("/", "_") + ".o")
            changed, key = compile_one(p, o, fl)
            return o, key, changed
        # the biggest sources first
        order = sorted(srcs, key=lambda p: -os.path.getsize(p))
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, order))
        res.sort()
        lib = os.path.join(OUT, "libct%s.so" % variant)
        key = hashlib.sha256(json.dumps([(o, k) for o, k, c in res]).encode()).hexdigest()
        kf = lib + ".key"
        if not (os.path.exists(lib) and os.path.exists(kf) and open(kf).read() == key):
            r = subprocess.run(["g++", "-shared", "-fPIC"] + list(extra) + ["-o", lib + ".tmp"] +
                               [o for o, k, c in res] + LIBS, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link failed\n" + r.stderr[-4000:])
            os.replace(lib + ".tmp", lib)
            with open(kf, "w") as f:
                f.write(key)
        return lib


def build_driver(name, variant="", extra=(), opt="-O0"):
    with Lock():
        _hashes.clear()
        odir = os.path.join(OUT, "drv" + variant)
        os.makedirs(odir, exist_ok=True)
        src = os.path.join(VERIF, "drivers", name + ".cpp")
        obj = os.path.join(odir, name + ".o")
        fl = flags([opt, "-I" + os.path.join(VERIF, "drivers")] + list(extra))
        changed, key = compile_one(src, obj, fl)
        exe = os.path.join(odir, name)
        kf = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
            r = subprocess.run(["g++"] + list(extra) + ["-o", exe + ".tmp", obj, "-L" + OUT, "-lct" + variant,
                                "-Wl,-rpath," + OUT, "-Wl,--allow-shlib-undefined"] + LIBS,
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link failed: " + name + "\n" + r.stderr[-4000:])
            os.replace(exe + ".tmp", exe)
            with open(kf, "w") as f:
                f.write(key)
        return exe


if __name__ == "__main__":
    print(build_lib())
    for n in sys.argv[1:]:
        print(build_driver(n))
