"""Rate law, stoichiometric sums, multipliers and third bodies of homogeneous kinetics."""
from vf import core
from . import kinlib as K

PLAIN = ["fwd", "rev", "net", "cre", "des", "npr", "kf", "kr", "kri", "kc", "tbc", "dh", "dssh", "rs", "ps", "rpm", "delta", "dsum", "revs",
         "mult"]
DER = ["dfwd", "drev", "dnet", "dnpr", "dcre", "ddes", "dfx", "drx", "dnx", "dfc", "drc", "dnc", "dfp"]
DERT = ["dft", "drt", "dkt"]


def scenario(r):
    kind = r.choice(["int", "int", "int", "sq", "neg"])
    sp = K.species(r)
    n = len(sp)
    tfree = r.random() < 0.3
    if tfree:
        for q in sp:
            q["h"] = 0
    cvals = {"int": [0, 1, 2, 3], "sq": [0, 1, 4], "neg": [1, 2, 4]}[kind]
    fvals = [0, 1, 2, 3]
    der = kind == "int" and r.random() < 0.6
    if der:
        cvals = [1, 2]
    ops, rx = [], []

    def new():
        want = r.choice([None, None, None, ("none",), ("act",), ("low", "high")])
        for _ in range(300):
            q = K.rand_reaction(r, sp, kind, der=der, want=want)
            if not q:
                continue
            x, meta = q
            if tfree:
                x["e"] = 0
            w, ok = K.magnitude(x, sp, max(cvals), 3)
            if ok and w * 8 < ((2e6 if x["tb"] in ("low", "high") else 2e7) if der else 4e7):
                return x, meta
        return None

    def add():
        k = r.choice([1, 1, 2, 3, 5])
        new_ = [q for q in (new() for _ in range(k)) if q]
        if not new_ or len(rx) + len(new_) > 8:
            return
        rx.extend(new_)
        ops.append({"op": "add", "rx": [x for x, m in new_], "y": [K.rx_yaml(x, m) for x, m in new_],
                    "defer": r.randint(0, 1) if len(new_) > 1 else 0})

    def state():
        c = [r.choice(cvals) for _ in sp]
        if sum(c) == 0 or der:
            c = [max(1, v) for v in c]
        if r.random() < 0.25 and state.last:     # change one species only: same temperature
            c = list(state.last[0])
            k = r.randrange(n)
            c[k] = r.choice(cvals)
            if sum(c) == 0:
                c[k] = 1
            th = state.last[1]
        elif r.random() < 0.25 and state.last:   # same composition, other temperature
            c, th = list(state.last[0]), 3 - state.last[1]
        else:
            th = r.choice([1, 2])
        # a falloff reaction at its high-pressure limit needs a collider
        state.last = (c, th)
        ops.append({"op": "state", "c": c, "th": th, "how": r.randint(0, 1)})
    state.last = None

    def query():
        qs = r.sample(PLAIN, r.randint(1, 6))
        if der:
            qs += r.sample(DER, r.randint(0, 3))
            if tfree:
                qs += r.sample(DERT, r.randint(0, 2))
            r.shuffle(qs)
        ops.append({"op": "q", "qs": qs})

    add()
    if not rx:
        return None
    state()
    for _ in range(r.randint(6, 24)):
        x = r.random()
        if x < 0.1:
            add()
        elif x < 0.32:
            state()
        elif x < 0.42:
            ops.append({"op": "mult", "i": r.randint(1, len(rx)), "f": r.choice(fvals)})
        elif x < 0.52:
            i = r.randrange(len(rx))
            xo, m = rx[i]
            xn = dict(xo)
            xn.update(a=r.choice([1, 2, 3]) * 8, b=r.choice([0, 1, -1]), e=0 if tfree else r.choice([0, 1]))
            m2 = dict(m, opts=list(m["opts"]))
            same = True
            y = r.random()
            if y < 0.12:
                xn["rev"], same = not xn["rev"], False
                m2["eq"] = m2["eq"].replace(" <=> ", " = ").replace(" => ", " = ") if xn["rev"] else \
                    m2["eq"].replace(" <=> ", " => ").replace(" = ", " => ")
                if xn["rev"] and xn["ord"] != xn["reac"]:
                    continue
            elif y < 0.24 and xn["tb"] == "act" and "type: three-body, " in m2["typ"] and " + M" in m2["eq"]:
                xn["eff"], same = [3] * len(sp), False
                m2["opts"] = [o for o in m2["opts"] if "effic" not in o] + ["default-efficiency: 3"]
            elif y < 0.3 and xn["tb"] == "none" and not xn["rev"] and xn["ord"] == xn["reac"]:
                xn["ord"], same = [[k, 2] for k, _ in xn["reac"]], False
                m2["opts"] = m2["opts"] + ["orders: {%s}" % ", ".join("%s: 1" % sp[k - 1]["n"] for k, _ in xn["reac"])]
            w, ok = K.magnitude(xn, sp, max(cvals), 3)
            if ok and w * 8 < ((2e6 if xn["tb"] in ("low", "high") else 2e7) if der else 4e7):
                if same:
                    rx[i] = (xn, m2)
                ops.append({"op": "modify", "i": i + 1, "rx": xn, "y": K.rx_yaml(xn, m2)})
        elif x < 0.54:
            ops.append({"op": "inval"})
        elif x < 0.57:
            ops.append({"op": "dset", "skip3": r.random() < 0.4, "skipf": r.random() < 0.4})
        elif x < 0.6:
            ops.append({"op": "bad", "y": K.bad_reaction(r, sp)})
        else:
            query()
    ops.append({"op": "q", "qs": PLAIN + (DER if der else []) + (DERT if der and tfree else [])})
    return {"cfg": {"sp": sp, "yaml": K.phase_yaml(sp)}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "KinSpec", "MC_Kin", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    scen = [s for s in (scenario(r) for _ in range(ctx.pick(1500, 25000))) if s]
    core.conform(ctx, "KinSpec", "kin", scen, "Trace_Kin")
    ctx.assumptions += ["rate parameters, concentrations and equilibrium constants are chosen exactly representable; results are "
                        "compared to 1e-7 relative"]
