"""Acceptance of reactions and the duplicate check."""
import itertools
from vf import core
COMP = {"H": (1, 0, 0, 0), "O": (0, 1, 0, 0), "OX": (0, 1, 0, 0), "HX": (1, 0, 0, 0), "H2": (2, 0, 0, 0), "H2X": (2, 0, 0, 0),
        "O2": (0, 2, 0, 0), "OH": (1, 1, 0, 0), "OHX": (1, 1, 0, 0), "H2O": (2, 1, 0, 0), "H+": (1, 0, -1, 0), "OH-": (1, 1, 1, 0),
        "O2+": (0, 2, -1, 0), "O-": (0, 1, 1, 0), "E": (0, 0, 1, 0), "AR": (0, 0, 0, 1)}
ELEM = ("H", "O", "E", "Ar")
_pool = {}


def pool():
    if not _pool:
        names = [n for n in COMP if n != "AR"]
        for k in (1, 2, 3):
            for c in itertools.combinations_with_replacement(names, k):
                d = {}
                for x in c:
                    d[x] = d.get(x, 0) + 2
                key = tuple(sum(COMP[x][e] * v for x, v in d.items()) for e in range(4))
                _pool.setdefault(key, []).append(d)
    return _pool


def header(names, opts=""):
    y = "phases:\n- name: gas\n  thermo: ideal-gas\n  kinetics: gas\n%s  species: [%s]\n  elements: [H, O, E, Ar]\nspecies:\n" % (
        opts or "  reactions: none\n", ", ".join(names))
    for n in names:
        y += "- name: %s\n  composition: {%s}\n  thermo: {model: constant-cp, T0: 1000, h0: 0, s0: 0, cp0: 0}\n" % (
            n, ", ".join("%s: %d" % (e, c) for e, c in zip(ELEM, COMP[n]) if c))
    return y


def term(n, c2):
    if n.startswith("(+"):
        return " " + n
    return (" + " if True else "") + ("" if c2 == 2 else "%g " % (c2 / 2)) + n


def side(q):
    return "".join(term(n, c) for n, c in q).lstrip(" +").strip()


def yaml_of(x):
    eq = side(x["reac"]) + (" <=> " if x["rev"] else " => ") + side(x["prod"])
    f = ["equation: '%s'" % eq]
    a = -1 if x["rate"] == "neg" else 1
    k = "{A: %d, b: 0, Ea: 0}" % a
    if x["typ"] in ("elementary", "three-body"):
        f.append("type: " + x["typ"])
    if x["typ"] == "falloff":
        f += ["type: falloff", "low-P-rate-constant: {A: 1, b: 0, Ea: 0}", "high-P-rate-constant: {A: %d, b: 0, Ea: 0}" % a]
    elif x["typ"] == "plog":
        f += ["type: pressure-dependent-Arrhenius", "rate-constants: [{P: 1 bar, A: %d, b: 0, Ea: 0}, {P: 2 bar, A: 1, b: 0, Ea: 0}]" % a]
    elif x["rate"] != "none":
        f.append("rate-constant: " + k)
    if x["dup"]:
        f.append("duplicate: true")
    if x["ord"]:
        f.append("orders: {%s}" % ", ".join("%s: %g" % (n, o / 2) for n, o in x["ord"]))
    if x["nonr"]:
        f.append("nonreactant-orders: true")
    if x["nego"]:
        f.append("negative-orders: true")
    if x["effs"]:
        f.append("efficiencies: {%s}" % ", ".join("%s: %d" % (n, v) for n, v in x["effs"]))
    if x["deff"] >= 0:
        f.append("default-efficiency: %d" % x["deff"])
    return "{" + ", ".join(f) + "}"


def base(r, names, pu):
    """Two sides of equal composition; undeclared species with probability pu."""
    for _ in range(200):
        g = r.choice(list(pool().values()))
        if len(g) < 2:
            continue
        a, b = r.sample(g, 2)
        u = [n for n in list(a) + list(b) if n not in names]
        if u and r.random() > pu:
            continue
        a, b = [[n, c] for n, c in a.items()], [[n, c] for n, c in b.items()]
        r.shuffle(a), r.shuffle(b)
        return a, b
    return None


def reaction(r, names, faults=True):
    pf = 0.1 if faults else 0
    q = base(r, names, 0.05)
    if not q:
        return None
    a, b = q
    x = {"reac": a, "prod": b, "rev": r.random() < 0.6, "typ": "", "ord": [], "nonr": False, "nego": False, "effs": [], "deff": -1,
         "rate": "ok", "dup": r.random() < 0.2}
    y = r.random()
    if y < 0.35:
        t = r.choice(["M", "M", "AR", "H2", "O2"] + (["XX"] if faults else []))
        x["typ"] = r.choice(["", "", "three-body"])
        a.append([t, 2]), b.append([t, 2])
    elif y < 0.55:
        t = r.choice(["(+M)", "(+M)", "(+AR)", "(+H2)"] + (["(+XX)"] if faults else []))
        x["typ"] = "falloff"
        a.append([t, 2]), b.append([t, 2])
    elif y < 0.65:
        x["typ"] = "plog"
    elif y < 0.75:
        x["typ"] = "elementary"
    # a species on both sides that need not be the collider
    names_a, names_b = [n for n, _ in a], [n for n, _ in b]
    for n in set(names_a):
        if names_a.count(n) > 1 or names_b.count(n) > 1:
            return None
    if len(set(names_a)) < len(names_a) or len(set(names_b)) < len(names_b):
        return None
    col = [n for n in names_a if n in ("M", "(+M)") and n in names_b]
    if col and r.random() < 0.4:
        k = r.randint(1, 3)
        cand = r.sample([n for n in COMP], k)
        if r.random() < 0.2:
            cand.append("XX")
        x["effs"] = [[n, r.choice([0, 1, 2])] for n in cand]
        if len(x["effs"]) == 1:
            x["effs"].append([next(n for n in ("O", "H") if n != x["effs"][0][0]), 3])
    if col and r.random() < 0.3:
        x["deff"] = r.choice([0, 0, 1, 2])
        if not x["effs"] and x["deff"] != 0:
            x["deff"] = 0
    if not x["rev"] and not col and r.random() < 0.15 and x["typ"] in ("", "elementary"):
        x["ord"] = [[n, r.choice([0, 1, 2])] for n, _ in a if r.random() < 0.7 and n in COMP]
    # faults
    if r.random() < pf:
        k = r.choice([p for p in a if not p[0].startswith("(+")])
        k[1] += 2
    if r.random() < pf / 2:
        r.choice([p for p in b if not p[0].startswith("(+")])[0] = r.choice(["H+", "O-", "H", "XX", "O2+"])
        nb = [n for n, _ in b]
        if len(set(nb)) < len(nb):
            return None
    if r.random() < pf / 2:
        x["rate"] = r.choice(["neg", "none"] if x["typ"] not in ("falloff", "plog") else ["neg"])
        if x["typ"] == "falloff":
            x["rate"] = "ok"
    if r.random() < pf:
        o = r.choice(["XX", "AR", "H2", "O"])
        if o not in [n for n, _ in x["ord"]]:
            x["ord"].append([o, 2])
            x["nonr"] = r.random() < 0.5
    if x["ord"] and r.random() < 0.15:
        x["ord"][0][1] = -2
        x["nego"] = r.random() < 0.5
    if r.random() < pf / 3:
        x["deff"] = 1
    if r.random() < pf / 3 and x["rate"] == "ok":
        x["typ"] = r.choice(["three-body", "plog", "elementary"])
    # forms outside the documented use of third bodies
    marks = [n for n, _ in a + b if n.startswith("(+")]
    if marks and x["typ"] in ("", "three-body"):
        return None
    shared = set(n for n, _ in a) & set(n for n, _ in b)
    m = [n for n in shared if n in ("M",) or n.startswith("(+")]
    amb = len(shared) > 1 or any(dict(map(tuple, a))[n] > 2 and dict(map(tuple, b))[n] > 2 for n in shared)
    if amb and not m and (x["effs"] or x["deff"] >= 0):
        return None
    return x


def variant(r, x, names):
    """Another way of writing (nearly) the same reaction: the interesting cases of the duplicate check."""
    y = {k: ([list(p) for p in v] if isinstance(v, list) else v) for k, v in x.items()}
    z = r.random()
    if z < 0.35:
        y["reac"], y["prod"] = y["prod"], y["reac"]
        if y["ord"]:
            y["ord"] = []
    elif z < 0.5 and not any(n in ("M",) or n.startswith("(+") for n, _ in y["reac"]):
        f = r.choice([2, 2, 3])
        for q in ("reac", "prod"):
            for p in y[q]:
                p[1] = p[1] * f // (1 if f == 2 else 1)
    elif z < 0.65:
        cur = {"M": "AR", "AR": "M", "H2": "M", "(+M)": "(+AR)", "(+AR)": "(+M)", "(+H2)": "(+M)"}
        for q in ("reac", "prod"):
            for p in y[q]:
                if p[0] in cur:
                    p[0] = cur[p[0]]
        if any(p[0] in ("AR", "(+AR)") for p in y["reac"]):
            y["effs"], y["deff"] = [], -1
        for q in ("reac", "prod"):
            ns = [n for n, _ in y[q]]
            if len(set(ns)) < len(ns):
                return None
    elif z < 0.8:
        # other species with the same participants: swap species between the sides if that stays balanced
        a, b = y["reac"], y["prod"]
        for i, j in itertools.product(range(len(a)), range(len(b))):
            if COMP.get(a[i][0]) == COMP.get(b[j][0]) and a[i][0] != b[j][0] and a[i][0] in COMP:
                a[i][0], b[j][0] = b[j][0], a[i][0]
                break
        for q in (a, b):
            ns = [n for n, _ in q]
            if len(set(ns)) < len(ns):
                return None
        y["ord"] = []
    y["rev"] = r.random() < 0.5 and not y["ord"]
    y["dup"] = x["dup"] if r.random() < 0.7 else not x["dup"]
    r.shuffle(y["reac"])
    for q in ("reac", "prod"):      # coefficients of three-body colliders stay one
        q = y[q]
        if any(n.startswith("(+") for n, _ in q):
            t = [p for p in q if p[0].startswith("(+")]
            q[:] = [p for p in q if not p[0].startswith("(+")] + t
    return y


def scenario(r):
    names = r.sample([n for n in COMP if n != "AR"], r.randint(5, 12))
    if r.random() < 0.8:
        names.append("AR")
    r.shuffle(names)
    cfg = {"names": names, "comp": [list(COMP[n]) for n in names], "yaml": header(names)}
    ops = []
    if r.random() < 0.35:
        rs = [x for x in (reaction(r, names, faults=r.random() < 0.1) for _ in range(r.randint(1, 3))) if x]
        for x in list(rs):
            if r.random() < 0.6:
                v = variant(r, x, names)
                if v:
                    rs.append(v)
        r.shuffle(rs)
        if not rs:
            return None
        s, t, m = r.random() < 0.5, r.random() < 0.5, r.choice(["warn", "warn", "error", "error", "mark-duplicate", "modify-efficiency"])
        opts = "  reactions: %s\n  skip-undeclared-third-bodies: %s\n" % ("declared-species" if s else "all", str(t).lower())
        if m != "warn" or r.random() < 0.5:
            opts += "  explicit-third-body-duplicates: %s\n" % m
        y = header(names, opts) + "reactions:\n" + "".join("- %s\n" % yaml_of(x) for x in rs)
        return {"cfg": cfg, "ops": [{"op": "load", "rx": rs, "skipS": s, "skipT": t, "mode": m, "yaml": y}]}
    have = []
    for _ in range(r.randint(3, 12)):
        z = r.random()
        if z < 0.15:
            ops.append({"op": "flags", "skipS": r.random() < 0.4, "skipT": r.random() < 0.4, "mode": r.choice(["warn", "error"])})
        elif z < 0.3 and have:
            ops.append({"op": "check"})
        else:
            x = variant(r, r.choice(have), names) if have and r.random() < 0.5 else reaction(r, names)
            if x:
                have.append(x)
                ops.append({"op": "add", "rx": x, "y": yaml_of(x)})
    if not ops:
        return None
    if r.random() < 0.3:
        ops.append({"op": "flags", "skipS": False, "skipT": False, "mode": r.choice(["mark-duplicate", "modify-efficiency"])})
        ops.append({"op": "check"})
        ops.append({"op": "check"})
    else:
        ops.append({"op": "check"})
    return {"cfg": cfg, "ops": ops}


def run(ctx):
    core.model_check(ctx, "MechSpec", "MC_Mech", invariants=("MCInv",))
    r = ctx.rng()
    scen = [s for s in (scenario(r) for _ in range(ctx.pick(4000, 60000))) if s]
    core.conform(ctx, "MechSpec", "mech", scen, "Trace_Mech")
