"""Elements, species, names and species locks of a phase."""
from vf import core
KNOWN = {"H": 1008000, "He": 4002602, "C": 12011000, "N": 14007000, "O": 15999000, "E": 549}
NAMES = ["A", "a", "B", "AB", "Ab", "aB", "OH", "Oh", "O2", "o2", "CO", "Co", "X(s)", "e-"]
ELS = ["H", "He", "C", "N", "O", "Q", "Zq", "E"]


def species(r, els=None):
    n = r.choice(NAMES)
    el = r.sample([e for e in ELS[:5] if True] + (["Q"] if r.random() < 0.3 else []) + (["Zq"] if r.random() < 0.1 else []), r.randint(1, 3))
    if els and r.random() < 0.7:
        own = sorted(set(e for e in els if e != "E"))
        if own:
            el = r.sample(own, min(len(own), r.randint(1, 3)))
    c = [[e, r.randint(1, 3)] for e in el]
    q = r.choice([0, 0, 0, 0, 1, -1, 2])
    if q and r.random() < 0.4:
        c.append(["E", -q if r.random() < 0.6 else r.choice([1, -2])])
    c.sort()
    return {"n": n, "l": n.lower(), "c": c, "q": q, "sz": 2 if n in ("AB", "aB", "O2", "X(s)", "CO") else 1, "p0": r.choice([100000] * 9 + [101325]),
            "th": r.random() > 0.04, "h": r.randint(-3, 3), "poly": False}


def scenario(r):
    surf = r.random() < 0.25
    ops, nid, held, sp, els = [], 0, [], [], []
    for _ in range(r.randint(0, 3)):
        e = r.choice(ELS[:6])
        ops.append({"op": "el", "n": e, "w": 2500000 if e == "Q" else -1})
        els.append(e)
    for _ in range(r.randint(5, 24)):
        x = r.random()
        if x < 0.42:
            s = species(r, els)
            ops.append({"op": "sp", "x": s})
            sp.append(s)
        elif x < 0.5:
            e = r.choice(ELS)
            w = r.choice([-1, -1, 0, KNOWN.get(e, 2500000), 2500000])
            if e in ("Q", "Zq"):
                w = r.choice([2500000, 2500000, 3000000, -1])
            if e == "E":
                w = 545
            els.append(e)
            ops.append({"op": "el", "n": e, "w": w})
        elif x < 0.58:
            a, n = r.choice(NAMES + ["al", "Al", "bet"]), r.choice(NAMES + [s["n"] for s in sp])
            ops.append({"op": "alias", "a": a, "al": a.lower(), "n": n, "nl": n.lower()})
        elif x < 0.63:
            ops.append({"op": "policy", "p": r.choice(["error", "add", "ignore"])})
        elif x < 0.67:
            ops.append({"op": "case", "v": r.random() < 0.5})
        elif x < 0.74 and sp:
            k = r.randint(0, len(sp))
            s = dict(r.choice(sp))
            s["h"] = r.randint(4, 9)
            y = r.random()
            if y < 0.15:
                s["q"] = s["q"] + r.choice([-1, 1])
            elif y < 0.3:
                s["c"] = s["c"][:1]
            elif y < 0.4:
                s["poly"] = True
            elif y < 0.45:
                s["th"] = False
            for k2 in ([k] if r.random() < 0.3 else range(len(sp))):
                ops.append({"op": "modify", "k": k2, "x": s})
        elif x < 0.82:
            m, seen = [], set()
            for s in r.sample(sp, min(len(sp), 3)) if sp else []:
                n = s["n"] if r.random() < 0.8 else r.choice([s["n"].lower(), s["n"].upper(), "none"])
                if n.lower() not in seen:
                    seen.add(n.lower())
                    m.append([n, n.lower(), r.randint(1, 5)])
            if m:
                ops.append({"op": "set", "m": m, "mass": r.random() < 0.4})
        elif x < 0.9:
            kinds = ["lock", "mix", "mix2"] if surf else \
                ["lock", "array", "slice", "badslice", "mix", "mix2", "latemix", "reservoir", "reactor", "moved", "away"]
            ops.append({"op": "hold", "kind": r.choice(kinds), "id": nid})
            held.append(nid)
            nid += 1
        elif x < 0.97 and held:
            i = held.pop(r.randrange(len(held)))
            ops.append({"op": "release", "id": i})
        elif x < 0.98:
            ops.append({"op": "unlock?"})
        else:
            ns = r.sample(NAMES + ["al", "Al", "bet", "AL", "ab", "oh", "zz"], 6)
            ops.append({"op": "look", "ns": [[n, n.lower()] for n in ns], "es": r.sample(ELS, 3), "iso": (r.choice(sp)["c"] if sp else [["H", 1]])})
    ns = NAMES + ["al", "bet", "ab", "oh", "E-"]
    ops.append({"op": "look", "ns": [[n, n.lower()] for n in ns], "es": ELS, "iso": r.choice(sp)["c"] if sp else [["H", 1]]})
    return {"cfg": {"thermo": "ideal-surface" if surf else "ideal-gas", "policy": r.choice(["error", "add", "add", "ignore"]),
                    "known": [{"n": k, "w": v} for k, v in KNOWN.items()]}, "ops": fix(ops)}


def fix(ops):
    """Holders need at least one species: decided from a replica of what will have been accepted is avoided by holding only
    after a species that is certainly accepted; the number of locks held is tracked here."""
    out, held, base = [], {}, False
    for o in ops:
        if o["op"] == "hold":
            w, ok = {"lock": (1, 1), "array": (1, 1), "slice": (1, 1), "badslice": (0, -1), "mix": (1, 1), "mix2": (2, 1),
                     "latemix": (0, -1), "reservoir": (1, 1), "reactor": (1, 1), "moved": (1, 1), "away": (0, 1)}[o["kind"]]
            o = dict(o, w=w, ok=ok)
            if ok == 1:
                held[o["id"]] = w
            if not base:
                out.append({"op": "policy", "p": "add"})
                if not held or sum(held.values()) == w:
                    out.append({"op": "sp", "x": {"n": "base", "l": "base", "c": [["H", 1]], "q": 0, "sz": 1, "p0": 100000, "th": True, "h": 1,
                                                  "poly": False}})
                base = True
        elif o["op"] == "release":
            if o["id"] not in held:
                continue
            o = dict(o, w=held.pop(o["id"]))
        elif o["op"] == "unlock?":
            if sum(held.values()):
                continue
            o = {"op": "unlock"}
        out.append(o)
    return out


def run(ctx):
    core.model_check(ctx, "RegSpec", "MC_Reg", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    core.conform(ctx, "RegSpec", "reg", [scenario(r) for _ in range(ctx.pick(2000, 40000))], "Trace_Reg")
    ctx.assumptions += ["atomic weights are compared to 1e-6, molecular weights to 4e-5"]
