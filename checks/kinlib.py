"""Mechanism generator shared by the kinetics checks."""
import itertools, math
R = 8.31446261815324e3
LN2 = math.log(2.0)
COMP = {"H": (1, 0, 0), "O": (0, 1, 0), "H2": (2, 0, 0), "O2": (0, 2, 0), "OH": (1, 1, 0), "H2O": (2, 1, 0), "HO2": (1, 2, 0),
        "H2O2": (2, 2, 0), "O3": (0, 3, 0), "AR": (0, 0, 1)}
ELEM = ("H", "O", "Ar")


def species(r, n=None):
    names = [x for x in COMP if x != "AR"]
    n = n or r.randint(4, 8)
    names = r.sample(names, n)
    if r.random() < 0.9:
        names.append("AR")
    r.shuffle(names)
    return [{"n": x, "h": r.choice([0, 0, 1, -1]), "s": r.choice([0, 0, 1, -1, 2]), "comp": list(COMP[x])} for x in names]


def phase_yaml(sp, extra="", thermo="ideal-gas", kinetics="kinetics: gas"):
    y = "phases:\n- name: gas\n  thermo: %s\n  %s\n  reactions: none\n%s" % (thermo, kinetics, extra)
    y += "  species: [%s]\n  elements: [O, H, Ar]\n" % ", ".join(s["n"] for s in sp)
    y += "species:\n"
    for s in sp:
        comp = ", ".join("%s: %d" % (e, c) for e, c in zip(ELEM, s["comp"]) if c)
        y += ("- name: %s\n  composition: {%s}\n  thermo: {model: constant-cp, T0: 1000, h0: %.17g, s0: %.17g, cp0: 0,"
              " reference-pressure: %.17g}\n" % (s["n"], comp, s["h"] * R * 1000 * LN2, s["s"] * R * LN2, R * 1000))
    return y


def comp_of(side, sp):
    return tuple(sum(sp[k - 1]["comp"][e] * n for k, n in side.items()) for e in range(3))


def fmt2(c2):
    return "" if c2 == 2 else ("%d " % (c2 // 2) if c2 % 2 == 0 else "%.1f " % (c2 / 2))


def side_str(side, sp):
    return " + ".join(fmt2(c2) + sp[k - 1]["n"] for k, c2 in side)


_pools = {}


def pool(frac):
    """All small multisets of species (name -> twice the coefficient), grouped by composition."""
    if frac in _pools:
        return _pools[frac]
    names = list(COMP)
    out = []
    sizes = (1, 2, 3) if frac else (1, 2, 3, 4)
    for n in sizes:
        for c in itertools.combinations_with_replacement(names, n):
            d = {}
            for x in c:
                d[x] = d.get(x, 0) + 2
            out.append(d)
    if frac:
        for n in (1, 2):
            for c in itertools.combinations(names, n):
                for f in itertools.product((1, 2, 3), repeat=n):
                    if any(v % 2 for v in f):
                        out.append(dict(zip(c, f)))
    groups = {}
    for d in out:
        k = tuple(sum(COMP[x][e] * v for x, v in d.items()) for e in range(3))
        groups.setdefault(k, []).append(d)
    keys = [k for k in groups if len(groups[k]) > 1]
    _pools[frac] = (groups, keys)
    return _pools[frac]


def random_sides(r, sp, frac=False):
    """Balanced reaction: two dicts species index -> twice the coefficient, disjoint or not."""
    groups, keys = pool(frac)
    ix = {s["n"]: k for k, s in enumerate(sp, 1)}
    for _ in range(60):
        g = [d for d in groups[r.choice(keys)] if all(x in ix for x in d)]
        if len(g) < 2:
            continue
        a, b = r.sample(g, 2)
        return {ix[x]: v for x, v in a.items()}, {ix[x]: v for x, v in b.items()}
    return None


def rand_reaction(r, sp, kind, falloff=True, der=False, want=None):
    """Returns (structure for the specification, YAML text) or None."""
    sides = random_sides(r, sp, frac=(kind == "sq" and r.random() < 0.6))
    if not sides:
        return None
    a, b = sides
    reac, prod = sorted(a.items()), sorted(b.items())
    r.shuffle(reac), r.shuffle(prod)
    rev = r.random() < 0.7
    tb = "none"
    x = r.random()
    shared = set(a) & set(b)
    if x < 0.25 and not shared:
        tb = "act"
    elif x < 0.45 and falloff and not shared:
        tb = r.choice(["low", "high"])
    elif x < 0.55 and not shared:
        tb = "coll"
    if want and tb not in want:
        return None
    ord_ = None
    opts = []
    if kind != "int" or r.random() < 0.15:
        if tb == "none" and r.random() < 0.5:
            rev = False
            ord_ = []
            o = {}
            for k, c2 in reac:
                if r.random() < 0.6:
                    o[k] = {"sq": r.choice([0, 1, 2, 3, 4]), "neg": r.choice([0, -2, 2, 4]), "int": r.choice([0, 2, 4])}[kind]
            for k in range(1, len(sp) + 1):
                if k not in a and r.random() < 0.15:
                    o[k] = {"sq": r.choice([1, 2]), "neg": r.choice([-2, 2]), "int": r.choice([2])}[kind]
                    if "nonreactant-orders: true" not in opts:
                        opts.append("nonreactant-orders: true")
            if any(v < 0 for v in o.values()):
                opts.append("negative-orders: true")
            if o:
                opts.append("orders: {%s}" % ", ".join("%s: %.2g" % (sp[k - 1]["n"], v / 2) for k, v in o.items()))
                ord_ = [[k, o.get(k, c2)] for k, c2 in reac] + [[k, v] for k, v in o.items() if k not in a]
    if any(c % 2 for c in list(a.values()) + list(b.values())) and kind != "sq":
        return None
    total = sum(v for k, v in prod) - sum(v for k, v in reac)
    if total % 2 or any(sum((b.get(k, 0) - a.get(k, 0)) * s[f] for k, s in enumerate(sp, 1)) % 2 for f in ("h", "s")):
        if rev or True:
            return None     # equilibrium constant would not be a power of two
    eff = [0] * len(sp)
    left, right = side_str(reac, sp), side_str(prod, sp)
    arrow = r.choice([" <=> ", " = "]) if rev else " => "
    collider = None
    if tb in ("act", "low", "high"):
        deff = r.choice([1, 1, 0, 2])
        ex = {k: r.choice([0, 1, 2, 3]) for k in range(1, len(sp) + 1) if r.random() < 0.3}
        eff = [ex.get(k, deff) for k in range(1, len(sp) + 1)]
        if tb == "high":
            eff = [max(1, e) for e in eff]
            ex = {k: max(1, v) for k, v in ex.items()}
            deff = max(1, deff)
        if ex:
            opts.append("efficiencies: {%s}" % ", ".join("%s: %d" % (sp[k - 1]["n"], v) for k, v in ex.items()))
        if deff != 1:
            opts.append("default-efficiency: %d" % deff)
        m = " + M" if tb == "act" else " (+M)"
        left, right = left + m, right + m
    elif tb == "coll":
        names = [k for k in range(1, len(sp) + 1) if k not in a and k not in b]
        if not names:
            return None
        collider = r.choice(names)
        eff = [1 if k == collider else 0 for k in range(1, len(sp) + 1)]
        left, right = left + " + " + sp[collider - 1]["n"], right + " + " + sp[collider - 1]["n"]
        tb = "act"
    aa, bb, ee = r.choice([1, 2, 3]) * 8, r.choice([0, 0, 1, -1]), r.choice([0, 0, 1])
    if der:
        aa = 8
    x = {"reac": [list(p) for p in reac], "prod": [list(p) for p in prod], "ord": ord_ or [list(p) for p in reac], "rev": rev,
         "tb": tb, "eff": eff, "a": aa, "b": bb, "e": ee}
    eq = left + arrow + right
    typ = ""
    kinds = ["arr"]
    if tb == "act":
        typ = "type: three-body, "
    elif tb == "none":
        if r.random() < 0.3 and not shared:
            kinds.append("plog")
        typ = "type: elementary, "
    meta = {"eq": eq, "typ": typ, "opts": opts, "k": r.choice(kinds), "falloff": r.choice(["Lindemann"]),
            "ca": r.random() < 0.4}
    x2 = dict(x)
    return x2, meta


def arr(a, b, e, f=1.0):
    return "{A: %.17g, b: %d, Ea: %.17g}" % (a * f / 1000.0 ** b, b, e * R * 1000 * LN2)


def rx_yaml(x, meta):
    rate = "rate-constant: " + arr(x["a"], x["b"], x["e"])
    typ = meta["typ"]
    if x["tb"] == "low":
        # (chemically activated reactions tend to their low-pressure rate constant, falloff ones to k0 [M])
        typ = "type: falloff, "
        rate = "low-P-rate-constant: %s, high-P-rate-constant: {A: 1.0e+25, b: 0, Ea: 0}" % arr(x["a"], x["b"], x["e"])
    elif x["tb"] == "high":
        if meta["ca"]:
            typ = "type: chemically-activated, "
            rate = "low-P-rate-constant: %s, high-P-rate-constant: {A: 1.0e+25, b: 0, Ea: 0}" % arr(x["a"], x["b"], x["e"])
        else:
            typ = "type: falloff, "
            rate = "high-P-rate-constant: %s, low-P-rate-constant: {A: 1.0e+25, b: 0, Ea: 0}" % arr(x["a"], x["b"], x["e"])
    elif meta["k"] == "plog":
        typ = "type: pressure-dependent-Arrhenius, "
        q = arr(x["a"], x["b"], x["e"])[1:-1]
        rate = "rate-constants: [{P: 1 bar, %s}, {P: 10 bar, %s}]" % (q, q)
    return "{equation: '%s', %s%s%s, duplicate: true}" % (meta["eq"], typ, rate, "".join(", " + o for o in meta["opts"]))


def magnitude(x, sp, cmax, fmax):
    """Upper bound of 64 * rate over all states, and whether it is always an exact multiple."""
    dn = (sum(c for k, c in x["prod"]) - sum(c for k, c in x["reac"])) // 2
    nu = {}
    for k, c in x["prod"]:
        nu[k] = nu.get(k, 0) + c
    for k, c in x["reac"]:
        nu[k] = nu.get(k, 0) - c
    ds = sum(c * sp[k - 1]["s"] for k, c in nu.items()) // 2
    dh = sum(c * sp[k - 1]["h"] for k, c in nu.items()) // 2
    worst, ok = 0, True
    for th in (1, 2):
        lg = th - 1
        f = -x["b"] * lg - x["e"] * th
        kc = ds - th * dh + lg * dn
        if abs(kc) > 6:
            return 1 << 60, False
        msum = max(1, sum(x["eff"]) * cmax) if x["tb"] in ("act", "low") else 1
        cp = 1
        for k, o in x["ord"]:
            cp *= max(1, cmax) ** max(0, o / 2)
        cr = 1
        for k, o in x["prod"]:
            cr *= cmax ** (o / 2)
        neg = sum(2 * -o // 2 for k, o in x["ord"] if o < 0)     # c up to 4: two powers of two per order
        worst = max(worst, 64 * x["a"] * fmax * msum * cp * 2.0 ** f * 4, 64 * x["a"] * fmax * msum * cr * 2.0 ** (f - kc) * 4)
        # a is a multiple of 8
        if f - neg + 9 < 0 or f - kc + 9 < 0:
            ok = False
    return worst, ok


def bad_reaction(r, sp):
    """A reaction that must be refused, with another reason each time."""
    a, b = r.sample([s["n"] for s in sp], 2)
    ok = "rate-constant: {A: 1, b: 0, Ea: 0}"
    fo = "type: falloff, low-P-rate-constant: {A: 1, b: 0, Ea: 0}, high-P-rate-constant: {A: 1, b: 0, Ea: 0}"
    return r.choice(["{equation: '%s + XX => %s + XX', %s}" % (a, b, ok), "{equation: '%s => 2 %s', %s}" % (a, a, ok),
                     "{equation: '%s + M => 2 %s + M', %s}" % (a, a, ok), "{equation: '%s (+M) => 2 %s (+M)', %s}" % (a, a, fo),
                     "{equation: '%s => %s', type: elementary, rate-constant: {A: -1, b: 0, Ea: 0}}" % (a, a),
                     "{equation: '%s + M => %s + M', type: three-body, efficiencies: {XX: 1}, %s}" % (a, a, ok),
                     "{equation: '%s => %s', type: elementary, orders: {%s: 1}, %s}" % (a, a, b, ok),
                     "{equation: '%s <=> %s', type: elementary, orders: {%s: 1}, %s}" % (a, a, a, ok),
                     "{equation: '%s => %s', type: pressure-dependent-Arrhenius, rate-constants: [{P: 1 bar, A: -1, b: 0, Ea: 0}]}" % (a, a)])
