"""Units: dimension algebra, unit systems, activation energies, nested `units` blocks."""
from vf import core

UNITS = {"mass": ["kg", "g"], "length": ["m", "micron", "angstrom"], "time": ["s", "min", "hr"],
         "quantity": ["mol", "gmol", "mole", "kmol", "kgmol", "molec"], "energy": ["J", "cal", "erg", "eV"],
         "pressure": ["Pa", "atm", "bar"], "temperature": ["K", "C"], "current": ["A"],
         "other": ["N", "dyn", "liter", "L", "l", "cc", "ohm", "V", "coulomb"]}
ALL = [u for v in UNITS.values() for u in v]
SMALL = ["k", "h", "d", "c", "m", "u", "n", "M", "G"]
BIG = ["T", "P", "E", "Z", "Y", "p", "f", "a", "z", "y"]
BASE = set(ALL) | {""}
PREF = set(SMALL + BIG)


def atom(p, u, e2=2):
    return {"p": p, "u": u, "e2": e2}


def prefix(r, u, big=True):
    """A prefix whose spelling is not itself another unit (`min` is minutes, not milli-inch)."""
    for _ in range(20):
        p = r.choice([""] * 6 + SMALL * 2 + (BIG if big else []))
        if p + u not in BASE or p == "":
            return p
    return ""


def render(x, r):
    """A unit string with that meaning, in one of several spellings."""
    s = ""
    for k, a in enumerate(x):
        e2 = a["e2"]
        if k and e2 < 0 and r.random() < 0.7:
            s += r.choice(["/", " / "])
            e2 = -e2
        elif k:
            s += r.choice(["*", " * "])
        s += a["p"] + a["u"]
        if e2 != 2:
            s += "^" + (str(e2 // 2) if e2 % 2 == 0 else "%.1f" % (e2 / 2))
    return s


def expr(r, n=None):
    x = []
    for _ in range(n or r.choice([1, 1, 2, 2, 3, 4])):
        u = r.choice(ALL)
        p = prefix(r, u)
        e2 = 2 if p in BIG else r.choice([2, 2, 2, -2, -2, 4, -4, 6, -6, 1, -1, 3])
        if not x and e2 < 0 and r.random() < 0.5:
            e2 = -e2
        x.append(atom(p, u, e2))
    return x


def same_dims(r, kind=None):
    """Two expressions of the same dimensions."""
    fam = {"V": [[atom("", "L")], [atom("", "cc")], [atom("", "m", 6)], [atom("c", "m", 6)]],
           "P": [[atom("", "Pa")], [atom("", "atm")], [atom("", "bar")], [atom("", "N"), atom("", "m", -4)],
                 [atom("", "dyn"), atom("c", "m", -4)], [atom("", "J"), atom("", "L", -2)]],
           "E": [[atom("", "J")], [atom("k", "cal")], [atom("", "eV")], [atom("", "N"), atom("", "m")],
                 [atom("", "V"), atom("", "coulomb")], [atom("", "Pa"), atom("", "m", 6)], [atom("", "erg")]],
           "H": [[atom("", "J"), atom("", "kmol", -2)], [atom("k", "cal"), atom("", "mol", -2)],
                 [atom("", "eV"), atom("", "molec", -2)], [atom("", "L"), atom("", "atm"), atom("", "mol", -2)]],
           "R": [[atom("", "m", 6), atom("", "kmol", -2), atom("", "s", -2)],
                 [atom("c", "m", 6), atom("", "mol", -2), atom("", "min", -2)],
                 [atom("", "L"), atom("", "molec", -2), atom("", "hr", -2)]],
           "M": [[atom("", "kg")], [atom("", "g")], [atom("u", "g")]], "T": [[atom("", "s")], [atom("", "min")], [atom("n", "s")]],
           "L": [[atom("", "m")], [atom("", "angstrom")], [atom("", "micron")]],
           "O": [[atom("", "V"), atom("", "A", -2)], [atom("m", "ohm")], [atom("", "J"), atom("", "A", -4), atom("", "s", -2)]],
           "Q": [[atom("", "mol")], [atom("", "molec")], [atom("k", "mol")]]}
    f = fam[kind or r.choice(sorted(fam))]
    return r.choice(f), r.choice(f)


def item(r, how):
    dim = r.choice(["mass", "length", "time", "quantity", "pressure", "energy"])
    u = r.choice(UNITS[dim])
    x = [atom(prefix(r, u, big=False), u)]
    if r.random() < 0.15 and dim == "pressure":
        x = [atom("", "dyn"), atom("c", "m", -4)]
    if r.random() < 0.05:
        dim, x = r.choice([("temperature", [atom("", "K")]), ("current", [atom("", "A")])])
    return {"dim": dim if how == "map" else "", "s": render(x, r), "x": x}


def ae_item(r):
    x = r.choice([[atom("", "K")], [atom("", "eV")], [atom("", "J"), atom("", "mol", -2)], [atom("k", "cal"), atom("", "mol", -2)],
                  [atom("", "J"), atom("", "kmol", -2)], [atom("k", "J"), atom("", "mol", -2)], [atom("k", "K")], [atom("m", "eV")],
                  [atom("", "cal"), atom("", "gmol", -2)]])
    return {"dim": "activation-energy", "s": render(x, r), "x": x}


def bad_item(r, how):
    if how == "map":
        d = r.choice(["mass", "length", "time", "quantity", "pressure", "energy", "temperature"])
        x = r.choice([[atom("", "K", 4)], [atom("", "ohm")], [atom("m", "K")]])
        return {"dim": d, "s": render(x, r), "x": x}
    if how == "ae":
        x = r.choice([[atom("", "kg")], [atom("", "J"), atom("", "kg", -2)], [atom("", "Pa")]])
        return {"dim": "activation-energy", "s": render(x, r), "x": x}
    x = r.choice([[atom("m", "K")], [atom("m", "A")], [atom("", "ohm")], [atom("", "m", 6)]])
    return {"dim": "", "s": render(x, r), "x": x}


def items(r, how):
    if how == "ae":
        return [ae_item(r)]
    n = r.choice([1, 1, 2, 3, 4])
    out, seen = [], set()
    for _ in range(n):
        it = item(r, how)
        if it["dim"] in seen and how == "map":
            continue
        seen.add(it["dim"])
        out.append(it)
    if how == "map" and r.random() < 0.3:
        out.append(ae_item(r))
    return out


def ae_expr(r):
    if r.random() < 0.1:
        return expr(r, 1)
    return ae_item(r)["x"]


def scenario(r):
    ops = []
    have = 0
    for _ in range(r.randint(8, 30)):
        k = r.random()
        i, j = r.randint(1, 3), r.randint(1, 3)
        val = r.choice([1.0, 2.5, 300.0, 0.0125])
        if k < 0.25:
            how = r.choice(["list", "map", "map", "ae"])
            ops.append({"op": "def", "i": i, "how": how, "items": items(r, how)})
        elif k < 0.27:
            ops.append({"op": "fresh", "i": i})
        elif k < 0.42:
            x, y = same_dims(r) if r.random() < 0.8 else (expr(r), expr(r))
            ops.append({"op": "conv", "x": x, "y": y, "s": render(x, r), "s2": render(y, r), "val": val,
                        "via": r.randint(0, 3)})
        elif k < 0.55:
            x = same_dims(r)[0] if r.random() < 0.6 else expr(r)
            o = r.choice(["to", "to", "from"])
            ops.append({"op": o, "i": i, "x": x, "s": render(x, r), "val": val, "via": r.randint(0, 2)})
        elif k < 0.62:
            x, y = ae_expr(r), ae_expr(r)
            ops.append({"op": "ae", "x": x, "y": y, "s": render(x, r), "s2": render(y, r), "val": val, "via": r.randint(0, 1)})
        elif k < 0.70:
            x = ae_expr(r)
            ops.append({"op": r.choice(["aeto", "aefrom"]), "i": i, "x": x, "s": render(x, r), "val": val, "via": r.randint(0, 1)})
        elif k < 0.75:
            ops.append({"op": "defaults", "i": i})
        elif k < 0.80:
            ops.append({"op": "delta", "i": i, "j": j})
        elif k < 0.86:
            x = expr(r)
            ops.append({"op": "unit", "i": i, "x": x, "s": render(x, r), "rt": 1})
            have = 1
        elif k < 0.90:
            ops.append(r.choice([{"op": "cmp", "i": i, "j": j}, {"op": "mul", "i": i, "j": j}]))
            if ops[-1]["op"] == "mul":
                x = expr(r, 1)
                ops.insert(-1, {"op": "unit", "i": j, "x": x, "s": render(x, r), "rt": 1})
        elif k < 0.92:
            x = [a for a in expr(r, 2)]
            ops.append({"op": "unit", "i": i, "x": x, "s": render(x, r), "rt": 1})
            half = [1, -1, 3] if all(a["e2"] % 2 == 0 for a in x) else []
            ops.append({"op": "pow", "i": i, "e2": r.choice([4, -2, 2, -4, 0] + half)})
        elif k < 0.96:
            x = expr(r, 2)
            ops.append({"op": "sstd", "x": x, "s": render(x, r)})
            pool = [expr(r, 1) for _ in range(3)]
            for _ in range(r.randint(1, 5)):
                if r.random() < 0.4:
                    ops.append({"op": "sjoin", "e2": r.choice([2, -2, 1, -1, 4])})
                else:
                    x = r.choice(pool)
                    ops.append({"op": "supd", "x": x, "s": render(x, r), "e2": r.choice([2, -2, 4, -1])})
            ops.append({"op": "sprod"})
        else:
            lv = []
            for _ in range(r.randint(1, 4)):
                kind = r.choice(["map", "map", "list", "lmap"])
                lv.append({"k": kind, "items": [] if kind == "map" and r.random() < 0.3 else items(r, "map"),
                           "outer": items(r, "map") if kind == "lmap" and r.random() < 0.8 else []})
            x = same_dims(r)[0]
            ops.append({"op": "yaml", "levels": lv, "x": x, "s": render(x, r), "copy": r.randint(0, 1)})
    if r.random() < 0.2:
        how = r.choice(["list", "map", "ae"])
        ops.append({"op": "def", "i": 1, "how": how, "items": [bad_item(r, how)]})
    return {"cfg": "", "ops": ops}


def run(ctx):
    core.model_check(ctx, "UnitsSpec", "MC_Units", invariants=("MCInv",))
    r = ctx.rng()
    core.conform(ctx, "UnitsSpec", "units", [scenario(r) for _ in range(ctx.pick(2500, 25000))], "Trace_Units")
    ctx.assumptions += ["conversion factors are compared to a relative precision of 6e-5",
                        "unit expressions use the units and prefixes listed in the documentation of UnitSystem"]
