"""Shared machinery of all checks: TLC runs (exhaustive model checking, behaviour generation, trace
validation), driver runs, violation reporting and evidence."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import build

VERIF = build.VERIF
TLADIR = os.path.join(VERIF, "tla")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer (exit code 3)."""


def scratch_root():
    d = os.path.join(VERIF, "build", "run")
    os.makedirs(d, exist_ok=True)
    return d


class Ctx:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=pid + "_", dir=scratch_root())
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.detail = [], [], {}
        self.violations = []
        self.findings = load_findings(pid)
        self.found = {}
        self.opcounts = {}
        self.timing = {}

    def thorough(self):
        return self.tier == "thorough"

    def rng(self, salt=""):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, salt))

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


# ---------------------------------------------------------------- TLC

def run_tlc(ctx, module, cfg, name, args=(), env=None, timeout=600, workers=NCPU, heap="6g", extra_modules=None):
    """module: TLA+ text of the root module called `name`; cfg: text."""
    d = os.path.join(ctx.dir, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(module)
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + TLADIR, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", name + ".cfg"] + list(args) + [name + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -9
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return None
    g, dd = m[-1]
    return int(g.replace(",", "")), int(dd.replace(",", ""))


def tail(s, n=3000):
    return s[-n:]


def model_check(ctx, spec, name, body="", invariants=("Inv",), constants=None, init="Init", nxt="Next", constraint=None,
                timeout=600, properties=(), view=None, deadlock=False):
    """Exhaustive exploration of the specification; an invariant violation here means the *specification*
    is inconsistent, which is an error of the check, not of the code."""
    mod = "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (name, spec, body)
    cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK %s\n" % (init, nxt, "TRUE" if deadlock else "FALSE")
    cfg += "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % i for i in properties)
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    if view:
        cfg += "VIEW %s\n" % view
    for k, v in (constants or {}).items():
        cfg += "CONSTANT %s = %s\n" % (k, v) if not str(v).startswith("<-") else "CONSTANT %s %s\n" % (k, v)
    t = time.time()
    rc, out = run_tlc(ctx, mod, cfg, name, timeout=timeout, env={"TRACE": "/dev/null"})
    c = counts(out)
    if rc != 0 or c is None:
        raise CheckError("TLC did not accept the specification %s (rc %s)\n%s" % (name, rc, tail(out)))
    ctx.states += c[1]
    ctx.transitions += c[0]
    ctx.detail.setdefault("model_checking", []).append(
        {"module": name, "distinct_states": c[1], "states_generated": c[0], "wall_s": round(time.time() - t, 1)})
    ctx.log("model checked %s: %d distinct states, %d transitions" % (name, c[1], c[0]))
    return c


GEN = """---- MODULE %(name)s ----
EXTENDS %(spec)s, TLC, Json, Sequences
%(body)s
VARIABLES hist, c0
GInit == /\\ \\E c \\in Cfgs : c0 = c /\\ st = InitSt(c)
         /\\ hist = << >>
GNext == /\\ Len(hist) < %(depth)d
         /\\ \\E o \\in Ops(st) : st' = Step(st, o).st /\\ hist' = Append(hist, o)
         /\\ UNCHANGED c0
GView == st
GEmit == Len(hist) = %(depth)d => PrintT("GEN " \\o ToJson([cfg |-> c0, ops |-> hist]))
GCover == /\\ Len(hist) <= %(depth)d
          /\\ \\A o \\in Ops(st) : PrintT("GEN " \\o ToJson([cfg |-> c0, ops |-> Append(hist, o)]))
====
"""


def parse_gen(out):
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"GEN ') and line.endswith('"'):
            # TLC prints strings with \\ and " escaped
            body = line[5:-1].replace('\\"', '"').replace("\\\\", "\\")
            try:
                res.append(json.loads(body))
            except ValueError:
                pass
    return res


def gen_simulate(ctx, spec, name, num, depth, body="", timeout=300):
    """Random behaviours of the specification."""
    mod = GEN % dict(spec=spec, name=name, body=body, depth=depth)
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT GEmit\nCHECK_DEADLOCK FALSE\n"
    rc, out = run_tlc(ctx, mod, cfg, name, args=["-simulate", "num=%d" % num, "-depth", str(depth + 1),
                                                  "-seed", str(ctx.seed)], timeout=timeout, workers=1,
                      env={"TRACE": "/dev/null"})
    res = parse_gen(out)
    if not res:
        raise CheckError("TLC generated no behaviours for %s (rc %s)\n%s" % (name, rc, tail(out)))
    ctx.log("TLC generated %d behaviours of %s (simulation, depth %d)" % (len(res), spec, depth))
    ctx.detail.setdefault("generated", []).append({"module": spec, "mode": "simulate", "behaviours": len(res),
                                                   "depth": depth})
    return res


def gen_cover(ctx, spec, name, depth, body="", timeout=300, limit=None):
    """One behaviour per transition of the (bounded) state graph: every reachable abstract state within
    `depth` steps, extended by every operation enabled there."""
    mod = GEN % dict(spec=spec, name=name, body=body, depth=depth)
    cfg = "INIT GInit\nNEXT GNext\nINVARIANT GCover\nVIEW GView\nCHECK_DEADLOCK FALSE\n"
    rc, out = run_tlc(ctx, mod, cfg, name, timeout=timeout, workers=1, env={"TRACE": "/dev/null"})
    res = parse_gen(out)
    c = counts(out)
    if rc != 0 or not res:
        raise CheckError("TLC generated no behaviours for %s (rc %s)\n%s" % (name, rc, tail(out)))
    ctx.states += c[1]
    ctx.transitions += c[0]
    n = len(res)
    if limit and n > limit:
        res = ctx.rng(name).sample(res, limit)
    ctx.log("TLC enumerated %d transitions of %s (%d states, depth %d), using %d" % (n, spec, c[1], depth, len(res)))
    ctx.detail.setdefault("generated", []).append({"module": spec, "mode": "transition cover", "behaviours": n,
                                                   "used": len(res), "depth": depth, "distinct_states": c[1]})
    return res


TRACE = """---- MODULE %(name)s ----
EXTENDS %(spec)s, TLC, Json, IOUtils, Sequences
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
TInit == /\\ sc \\in 1..Len(Scn)
         /\\ l = 1
         /\\ st = InitSt(Scn[sc].cfg)
TNext == /\\ l <= Len(Scn[sc].ev)
         /\\ LET e == Scn[sc].ev[l]
                r == IF "uncaught" \\in DOMAIN e.obs THEN [ok |-> FALSE, st |-> st, exp |-> "no such error"]
                     ELSE Check(st, e.op, e.obs)
            IN IF r.ok THEN /\\ st' = r.st
                            /\\ l' = l + 1
                            /\\ sc' = sc
               ELSE /\\ PrintT("MISMATCH " \\o ToString(sc) \\o " " \\o ToString(l) \\o " " \\o ToString(r.exp))
                    /\\ FALSE
TInv == Inv(st)
====
"""


def validate_traces(ctx, spec, traces, name, body="", timeout=600, inv=True):
    """traces: list of {"id","cfg","ev"}.  Returns list of (index, event_no, expected) that the
    specification rejects."""
    if not traces:
        return []
    d = os.path.join(ctx.dir, name)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "trace.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}) + "\n")
    mod = TRACE % dict(spec=spec, name=name, body=body)
    cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n" + ("INVARIANT TInv\n" if inv else "")
    rc, out = run_tlc(ctx, mod, cfg, name, env={"TRACE": path}, timeout=timeout)
    c = counts(out)
    bad = []
    seen = set()
    for m in re.finditer(r'^"MISMATCH (\d+) (\d+) (.*)$', out, re.M):
        i = int(m.group(1)) - 1
        if i not in seen:
            seen.add(i)
            bad.append((i, int(m.group(2)) - 1, m.group(3).rstrip('"').replace('\\"', '"')))
    expect = sum(len(t["ev"]) + 1 for t in traces)
    short = sum(len(traces[i]["ev"]) - k for i, k, _ in bad)
    if rc != 0 or c is None or c[1] != expect - short:
        m = re.search(r"Error:.*", out, re.S)
        raise CheckError("trace validation of %s gave no answer (rc %s, states %s, expected %d)\n%s" %
                         (spec, rc, c, expect - short, (m.group(0) if m else out)[:4000]))
    os.unlink(path)
    return bad


# ---------------------------------------------------------------- drivers

def run_driver(ctx, exe, scenarios, chunks=NCPU, timeout=600, env=None, args=()):
    """Runs scenarios through the driver; returns list of traces (same order).  A trace of a scenario in which
    the process died has "crash": <how>."""
    res = [None] * len(scenarios)
    e = dict(os.environ)
    e.update({"MALLOC_PERTURB_": "165", "CANTERA_DATA": os.path.join(build.REPO, "data"), "OPENBLAS_NUM_THREADS": "1",
              "OMP_NUM_THREADS": "1", "HOME": ctx.dir})
    e.update(env or {})
    deadline = time.time() + timeout

    def work(ck):
        idx = list(range(ck, len(scenarios), chunks))
        rd = os.path.join(ctx.dir, "drv_%s_%d" % (os.path.basename(exe), ck))
        os.makedirs(rd, exist_ok=True)
        ncrash = 0
        while idx:
            inp = os.path.join(rd, "in.ndjson")
            outp = os.path.join(rd, "out.ndjson")
            with open(inp, "w") as f:
                for i in idx:
                    s = scenarios[i]
                    f.write(json.dumps({"id": i, "cfg": s["cfg"], "ops": s["ops"]}) + "\n")
            if os.path.exists(outp):
                os.unlink(outp)
            errp = os.path.join(rd, "err.txt")
            with open(errp, "w") as ef:
                try:
                    p = subprocess.run([exe, inp, outp] + list(args), cwd=rd, env=e, stdout=subprocess.DEVNULL, stderr=ef,
                                       timeout=max(5, deadline - time.time()))
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    raise CheckError("driver %s exceeded its time budget" % exe)
            done = set()
            if os.path.exists(outp):
                for line in open(outp, errors="replace"):
                    try:
                        t = json.loads(line)
                    except ValueError:
                        continue
                    res[t["id"]] = t
                    done.add(t["id"])
            rest = [i for i in idx if i not in done]
            if not rest:
                break
            msg = open(errp, errors="replace").read()[-1500:]
            if rc == 77:
                raise CheckError("driver %s: %s" % (exe, msg))
            # the first scenario not reported is where the process died
            i = rest[0]
            how = "signal %d" % -rc if rc < 0 else "exit %d" % rc
            if rc == -signal.SIGALRM:
                how = "hang"
            res[i] = {"id": i, "cfg": scenarios[i]["cfg"], "ev": [], "crash": how, "stderr": msg}
            ncrash += 1
            if ncrash >= 5:
                for j in rest[1:]:
                    res[j] = {"id": j, "cfg": scenarios[j]["cfg"], "ev": [], "skipped": True}
                break
            idx = rest[1:]
        shutil.rmtree(rd, ignore_errors=True)

    with ThreadPoolExecutor(chunks) as ex:
        list(ex.map(work, range(min(chunks, max(1, len(scenarios))))))
    return res


# ---------------------------------------------------------------- conformance

def match_finding(ctx, text):
    for f in ctx.findings:
        if all(re.search(p, text, re.S) for p in f["match"]):
            return f
    return None


def conform(ctx, spec, driver, scenarios, name, exe=None, timeout=600, body="", minimise=True, inv=True, args=(), env=None,
            post=None):
    """Run scenarios through the real code, validate the recorded traces against `spec`."""
    exe = exe or build.build_driver(driver)
    t = time.time()
    traces = run_driver(ctx, exe, scenarios, timeout=timeout, args=args, env=env)
    if post:
        traces = [post(x) for x in traces]
    ctx.log("%s: ran %d scenarios through the code in %.1fs" % (name, len(scenarios), time.time() - t))
    good = [(i, x) for i, x in enumerate(traces) if x and "crash" not in x and not x.get("skipped")]
    t = time.time()
    bad = validate_traces(ctx, spec, [x for _, x in good], name, body=body, timeout=timeout, inv=inv)
    nev = sum(len(x["ev"]) for _, x in good)
    ctx.log("%s: TLC validated %d traces (%d events) in %.1fs, %d rejected" %
            (name, len(good), nev, time.time() - t, len(bad)))
    ctx.traces += len(good) - len(bad)
    ctx.events += nev
    for _, x in good:
        for e in x["ev"]:
            k = str(e["op"].get("op", "?")) if isinstance(e["op"], dict) else "?"
            ctx.opcounts[k] = ctx.opcounts.get(k, 0) + 1
    if good and len(ctx.samples) < 4:
        ctx.samples.append({"spec": spec, "cfg": good[0][1]["cfg"], "events": good[0][1]["ev"][:4]})
    failing = [(good[i][0], k, exp, None) for i, k, exp in bad]
    failing += [(i, len(x["ev"]), "no crash", x["crash"]) for i, x in enumerate(traces) if x and "crash" in x]
    if os.environ.get("SHOWFAIL"):
        for i, k, exp, crash in failing:
            e = traces[i]["ev"][k] if crash is None else None
            os.makedirs("/tmp/fails", exist_ok=True)
            with open("/tmp/fails/%d" % i, "w") as f:
                json.dump({"driver": driver, "cfg": scenarios[i]["cfg"], "ops": scenarios[i]["ops"][:k + 1], "specification_expects": str(exp)}, f)
            ctx.log("FAIL", i, {x: y for x, y in scenarios[i]["cfg"].items() if isinstance(y, (str, int)) and len(str(y)) < 60},
                    json.dumps(e)[:int(os.environ["SHOWFAIL"])] if e else crash + " " + traces[i].get("stderr", "")[-200:])
    # known findings first
    new = []
    for i, k, exp, crash in failing:
        act = traces[i]["ev"][k] if crash is None else {"op": "?", "obs": crash, "stderr": traces[i].get("stderr", "")}
        text = json.dumps({"cfg": scenarios[i]["cfg"], "event": act, "expected": exp, "spec": spec})
        f = match_finding(ctx, text)
        if f:
            ctx.found[f["id"]] = f
        else:
            new.append((i, k, exp, crash))
    # confirm: the scenario, run again on its own, must be rejected again
    n = 0
    for i, k, exp, crash in new[:12]:
        s = scenarios[i]
        t2 = run_driver(ctx, exe, [s], chunks=1, timeout=120, args=args, env=env)[0]
        if post:
            t2 = post(t2)
        if "crash" in t2:
            if crash is None:
                continue
            ev, e2, k2 = {"crash": t2["crash"], "stderr": t2.get("stderr", "")[-600:]}, "no crash", -1
        else:
            if crash is not None:
                continue
            b2 = validate_traces(ctx, spec, [t2], name + "_confirm", body=body, inv=inv)
            if not b2:
                continue
            k2, e2 = b2[0][1], b2[0][2]
            ev = t2["ev"][k2]
        rec = {"property": ctx.pid, "spec": spec, "driver": driver, "cfg": s["cfg"], "ops": s["ops"][:k2 + 1] if k2 >= 0 else s["ops"],
               "rejected_event": k2, "event": ev, "specification_expects": e2}
        violation(ctx, rec)
        n += 1
        if n >= 3:
            break
    if new and n == 0:
        raise CheckError("%d rejected traces of %s could not be reproduced; first: %s" % (len(new), name, new[0]))
    return traces


def violation(ctx, rec):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(rec, indent=1)
    p = os.path.join(d, "%s_%s.json" % (ctx.pid, hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(body)
    ctx.violations.append(p)
    print("rejected: " + json.dumps({k: rec[k] for k in rec if k not in ("ops", "cfg")})[:1500])
    print("VIOLATION property=%s replay=%s" % (ctx.pid, p), flush=True)


def finish(ctx, level="model_checking"):
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "events_validated": ctx.events, "events_by_operation": ctx.opcounts, "samples": ctx.samples}
    cov.update(ctx.detail)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", ctx.pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for f in ctx.findings:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, f["what"]))
    ctx.close()
    return 1 if ctx.violations else 0
