"""Systems and operation generator for C01."""
GAS = ["TP", "TD", "HP", "UV", "SP", "SV", "DP"]
REAL = GAS[:-1]
INC = ["TP", "HP", "SP"]
FLUID = REAL + ["TV", "PV", "UP"]
OH = [[0, 2, 0, 0], [0, 1, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [1, 1, 0, 0], [1, 2, 0, 0], [2, 1, 0, 0], [2, 2, 0, 0], [0, 0, 1, 0], [0, 0, 0, 2]]
RKA = [[1, 2, 0, 0], [0, 1, 2, 0], [0, 0, 2, 0], [1, 1, 0, 0], [1, 0, 4, 0], [0, 2, 0, 0], [0, 0, 0, 2]]


def chon(atoms, names):
    """C, H, O, S counts of each species"""
    return [[sum(a for a, e in zip(row, names) if e == x) for x in "CHOS"] for row in atoms]


def sysd(file, phase, T, P, K, atoms, els, comp=False, pure=False, el=True, w=1, q=None, gas=None, how=None, dense=False, nz=None, inv=True):
    return dict(file=file, phase=phase, T=T, P=P, K=K, atoms=atoms, chon=chon(atoms, els), comp=comp, pure=pure, el=el, w=w, q=q, gas=gas,
                how=how or (FLUID if pure else (GAS if "air" in phase or "ohm" in phase else REAL) if comp else INC), nz=nz, inv=inv, jump="CO2-PR" in phase or "carbondioxide" == phase or phase == "methane_co2")


LP = [0.5e5, 101325.0, 3e5, 1e6, 2.5e6]
SYS = [
    sysd("h2o2.yaml", "ohmech", [300, 400, 700, 900, 1100, 1500, 2200, 3000], LP, 10, OH, ["O", "H", "Ar", "N"], comp=True, w=6,
         gas=dict(fuel=[0, 1], ox=[2, 3], inert=[8, 9])),
    sysd("airNASA9.yaml", "airNASA9", [300, 700, 1100, 2500, 7000], LP, 11, [[0, 2, 0], [2, 0, 0], [1, 1, 0], [0, 1, 0], [1, 0, 0], [0, 2, -1], [2, 0, -1],
         [1, 1, -1], [0, 1, -1], [1, 0, -1], [0, 0, 1]], ["O", "N", "E"], comp=True, el=False, w=2, nz=5),
    sysd("co2_RK_example.yaml", "carbondioxide", [400, 600, 900, 1300], [1e5, 1e6, 5e6], 7, RKA, ["C", "O", "H", "N"], comp=True, w=2,
         gas=dict(fuel=[2, 3, 4], ox=[5], inert=[6])),
    sysd("co2_PR_example.yaml", "CO2-PR", [400, 600, 900, 1300], [1e5, 1e6, 5e6], 7, RKA, ["C", "O", "H", "N"], comp=True, w=2,
         gas=dict(fuel=[2, 3, 4], ox=[5], inert=[6])),
    sysd("methane_co2.yaml", "methane_co2", [400, 600, 900], [1e5, 1e6, 5e6], 2, [[1, 4, 0], [1, 0, 2]], ["C", "H", "O"], comp=True, w=1),
    sysd("thermo-models.yaml", "debye-huckel-B-dot-ak", [290, 320, 350], [1e5, 5e5, 2e6], 6, [[2, 1, 0, 0, 0], [0, 0, -1, 1, 0], [0, 0, 1, 0, 1],
         [1, 0, -1, 0, 0], [1, 1, 1, 0, 0], [0, 0, 0, 1, 1]], ["H", "O", "E", "Na", "Cl"], el=False),
    sysd("thermo-models.yaml", "HMW-NaCl-electrolyte", [290, 320, 350], [1e5, 5e5, 2e6], 5, [[2, 1, 0, 0, 0], [0, 0, 1, 1, 0], [1, 0, 0, -1, 0],
         [0, 0, 0, -1, 1], [1, 1, 0, 1, 0]], ["H", "O", "Cl", "E", "Na"], el=False),
    sysd("thermo-models.yaml", "IdealSolidSolnPhase", [300, 500, 900], [1e5, 1e6, 5e7], 3, [[2, 2], [1, 0], [0, 2]], ["C", "H"]),
    sysd("thermo-models.yaml", "molten-salt-Margules", [900, 1000, 1200], [1e5, 1e6, 5e7], 2, [[1, 1, 0], [1, 0, 1]], ["Cl", "K", "Li"]),
    sysd("thermo-models.yaml", "ideal-molal-aqueous", [290, 320, 350], [1e5, 5e5, 2e6], 4, [[2, 1, 0, 0], [0, 2, 1, 0], [2, 0, 0, 1], [4, 0, 1, 0]], ["H", "O", "C", "S"]),
    sysd("thermo-models.yaml", "Redlich-Kister-LiC6", [290, 400, 600], [1e5, 1e6, 5e7], 2, [[6, 1], [6, 0]], ["C", "Li"], inv=False),
    sysd("graphite.yaml", "graphite", [300, 700, 1500], [1e5, 1e6, 1e8], 1, [[1]], ["C"]),
    sysd("liquidvapor.yaml", "water", [290, 350, 420, 600, 800], [1e4, 101325.0, 5e6], 1, [[1, 2]], ["O", "H"], comp=True, pure=True, w=2, q=[320, 400, 500, 600]),
    sysd("liquidvapor.yaml", "nitrogen", [75, 95, 130, 300, 500], [2e4, 101325.0, 5e6], 1, [[2]], ["N"], comp=True, pure=True, q=[70, 90, 110]),
    sysd("liquidvapor.yaml", "HFC-134a", [220, 280, 350, 420], [2e4, 101325.0, 5e6], 1, [[2, 4, 2]], ["C", "F", "H"], comp=True, pure=True, q=[210, 260, 320]),
    sysd("liquidvapor.yaml", "carbon-dioxide", [240, 280, 350, 600], [2e5, 1e6, 3e7], 1, [[1, 2]], ["C", "O"], comp=True, pure=True, q=[230, 260, 290]),
    sysd("liquidvapor.yaml", "hydrogen", [18, 25, 60, 300], [2e4, 101325.0, 5e6], 1, [[2]], ["H"], comp=True, pure=True, q=[18, 22, 28]),
    sysd("liquidvapor.yaml", "oxygen", [80, 110, 200, 400], [2e4, 101325.0, 5e6], 1, [[2]], ["O"], comp=True, pure=True, q=[75, 100, 130]),
    sysd("liquidvapor.yaml", "heptane", [330, 420, 560, 650], [2e4, 101325.0, 5e6], 1, [[7, 16]], ["C", "H"], comp=True, pure=True, q=[330, 400, 480]),
    sysd("liquidvapor.yaml", "methane", [100, 150, 250, 400], [2e4, 101325.0, 5e6], 1, [[1, 4]], ["C", "H"], comp=True, pure=True, q=[100, 130, 160]),
]


def comp(r, s):
    K = s["K"]
    if s["jump"]:       # no condensing species
        n = comp(r, dict(s, jump=False))
        if K > 2:
            n[1] = 0
        return n if sum(n) else [1] + [0] * (K - 1)
    if K == 1:
        return [1]
    lim = s["nz"] or K
    style = r.random()
    if s["phase"] in ("debye-huckel-B-dot-ak", "HMW-NaCl-electrolyte", "ideal-molal-aqueous"):
        return [r.randint(200, 500)] + [r.randint(0, 6) for _ in range(K - 1)]
    n = [0] * K
    if style < 0.25:
        n[r.randrange(lim)] = 1
    elif style < 0.75:
        for k in r.sample(range(lim), min(lim, r.randint(2, 4))):
            n[k] = r.randint(1, 9)
    else:
        for k in range(lim):
            n[k] = r.randint(1, 30)
    return n


def scenario(r, s):
    tab = []
    ncomp = [comp(r, s) for _ in range(2)]
    basis = [r.choice("XY") for _ in range(2)]
    for _ in range(r.randint(2, 4)):
        if s["q"] and r.random() < 0.4:
            tab.append(dict(T=r.choice(s["q"]), P=0, q=r.choice([0, 10, 50, 85, 100]), b="X", n=[1]))
        else:
            i = r.randrange(2)
            tab.append(dict(T=r.choice(s["T"]), P=r.choice(s["P"]), q=-1, b=basis[i], n=ncomp[i]))
    if all(t["q"] >= 0 for t in tab):
        tab[0] = dict(T=r.choice(s["T"]), P=r.choice(s["P"]), q=-1, b="X", n=[1])
    sp = [j for j, t in enumerate(tab) if t["q"] < 0]
    tp = [j for j, t in enumerate(tab) if t["q"] >= 0]
    ops = [{"op": "tab"}]
    for o in (0, 1):
        j = r.choice(sp)
        ops.append(pair(r, s, tab, j, "TP", o, True))
    for _ in range(r.randint(4, 14)):
        ops.append(step(r, s, tab, sp, tp))
    return {"cfg": dict(file=s["file"], phase=s["phase"], comp=s["comp"], pure=s["pure"], inv=s["inv"], jump=s["jump"], el=s["el"], atoms=s["atoms"], chon=s["chon"], tab=tab), "ops": ops}


def pair(r, s, tab, j, how, o, withn):
    via = r.choice(["call", "arr", "str", "cmap"]) if how == "TP" and withn else "call"
    if how in MAPS and r.random() < 0.4:
        via = "map"
    n = tab[j]["n"] if withn else []
    return {"op": "pair", "how": how, "how2": list(how), "via": via, "j": j, "n": n, "b": tab[j]["b"], "al": r.randrange(6),
            "unit": int(r.random() < 0.3), "str": int(r.random() < 0.5), "o": o}


MAPS = {"TP", "TD", "HP", "UV", "SP", "SV", "DP", "ST", "TV", "PV", "UP", "VH", "TH", "SH"}


def step(r, s, tab, sp, tp):
    o = r.randrange(2)
    x = r.random()
    if x < 0.38:
        j = r.choice(sp)
        how = r.choice(s["how"])
        if tp and r.random() < 0.4:
            j = r.choice(tp)
            how = r.choice([h for h in s["how"] if h not in ("TP", "TD", "PT") or h == "TD"])
        return pair(r, s, tab, j, how, o, r.random() < 0.7)
    if x < 0.42:
        how = r.choice(["", "T", "P"])
        j = r.choice(sp) if how else -1
        return {"op": "pair", "how": how, "how2": list(how), "via": "map", "j": j, "n": tab[j]["n"] if r.random() < 0.5 else [], "b": tab[j]["b"],
                "al": r.randrange(6), "unit": 0, "str": r.randrange(2), "o": o}
    if x < 0.50:
        return {"op": "one", "how": r.choice("TPD" if s["comp"] else "TP"), "j": r.choice(sp), "o": o}
    if x < 0.60 and s["K"] > 1:
        b = r.choice("XY")
        n = comp(r, s) if r.random() < 0.5 else tab[r.choice(sp)]["n"]
        return {"op": "comp", "n": n, "b": b, "via": r.choice(["arr", "str", "map", "moles", "nonorm"] if b == "X" else ["arr", "str", "map", "nonorm"]), "o": o}
    if x < 0.64 and s["comp"] and s["K"] > 1:
        return {"op": "conc", "n": comp(r, s), "via": r.choice(["arr", "nonorm"]), "o": o}
    if x < 0.74 and s["gas"]:
        g, K = s["gas"], s["K"]
        f, y = [0] * K, [0] * K
        for k in r.sample(g["fuel"], r.randint(1, len(g["fuel"]))):
            f[k] = r.randint(1, 3)
        for k in r.sample(g["ox"], r.randint(1, len(g["ox"]))):
            y[k] = r.randint(1, 3)
        if r.random() < 0.6:
            y[r.choice(g["inert"])] = r.randint(1, 4)
        if r.random() < 0.3:
            f[r.choice(g["inert"])] = 1
        d = r.randint(1, 4)
        if r.random() < 0.6:
            return {"op": "phi", "num": r.randint(1, 6), "den": d, "fuel": f, "ox": y, "b": r.choice("XXY"), "via": r.choice(["arr", "str", "map"]), "o": o}
        return {"op": "mix", "num": r.randint(0, d), "den": d, "fuel": f, "ox": y, "b": r.choice("YYX"), "via": r.choice(["arr", "str", "map"]), "o": o}
    if x < 0.80 and tp:
        return {"op": "sat", "how": r.choice(["TQ", "TPQ", "mT"] + ["PQ", "mP"] * (s["phase"] != "heptane")), "j": r.choice(tp), "al": r.randrange(2), "o": o}
    if x < 0.90:
        return {"op": r.choice(["save", "restore"]), "slot": r.randrange(3), "o": o}
    kinds = ["T-", "T0", "Tnan", "TPT-", "X?", "Y?", "Xdup", "Xsyn", "TPX?", "TPY?", "len", "map?", "mapunit"] + ["mapX?"] + (["TP-", "TPnan", "HP-", "SP0"] if "DP" in s["how"] else [])
    kinds += ["D0", "D-", "Dnan"] + ["UV-", "SV0", "TD-"] if s["comp"] else ["Dinc"]
    if s["pure"]:
        kinds += ["Q"]
    return {"op": "bad", "kind": r.choice(kinds), "o": o}


_h = [x for x in SYS if x["phase"] == "heptane"][0]
_m = [x for x in SYS if x["phase"] == "ideal-molal-aqueous"][0]
_m["w"] = 0
_t = dict(T=300, P=1e5, q=-1, b="X", n=[300, 2, 0, 1])
_tp = {"op": "pair", "how": "TP", "how2": ["T", "P"], "via": "arr", "j": 0, "n": _t["n"], "b": "X", "al": 0, "unit": 0, "str": 0}
MOLAL = {"cfg": dict({k: _m[k] for k in ("file", "phase", "comp", "pure", "inv", "jump", "el", "atoms", "chon")}, tab=[_t]),
         "ops": [{"op": "tab"}, dict(_tp, o=0), dict(_tp, o=1)]}
HEPTANE = {"cfg": dict({k: _h[k] for k in ("file", "phase", "comp", "pure", "inv", "jump", "el", "atoms", "chon")}, tab=[dict(T=400, P=0, q=50, b="X", n=[1])]),
           "ops": [{"op": "tab"}, {"op": "sat", "how": "TQ", "j": 0, "al": 0, "o": 0}, {"op": "sat", "how": "TQ", "j": 0, "al": 0, "o": 1},
                   {"op": "sat", "how": "PQ", "j": 0, "al": 0, "o": 0}]}
