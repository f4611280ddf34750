"""Reactor networks obey their balances: exact right-hand sides for every reactor type, device, wall and surface."""
import itertools
from vf import core

SP = ["P1", "P2", "P3", "D", "E"]
M = {"P1": 2, "P2": 3, "P3": 4, "D": 6, "E": 4}
HAS = {"toy": ["P1", "P2", "P3", "D"], "toy2": ["P1", "P3", "D", "E"], "inert": ["P1", "P3"]}
KINDS = ["Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor",
         "MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"]
COMP = {}
for ph, names in HAS.items():
    COMP[ph] = []
    for c in itertools.product(range(7), repeat=len(names)):
        if sum(a * M[n] for a, n in zip(c, names)) in (6, 8, 12, 24) and sum(c) <= 12:
            COMP[ph].append(dict({k: 0 for k in SP}, **dict(zip(names, c))))


def gas(r, ph, only=None):
    c = [q for q in COMP[ph] if only is None or all(q[k] == 0 for k in SP if k not in only)]
    return {"T": 120 * r.randint(2, 8), "c": r.choice(c)}


def cover(r, n):
    th = r.choice([[12, 0, 0], [4, 4, 4], [6, 0, 6], [0, 12, 0], [2, 8, 2], [8, 2, 2], [1, 1, 10]])
    return th


class Gen:
    def __init__(self, r, adv):
        self.r, self.adv = r, adv
        self.ops, self.R, self.D, self.W, self.S = [], [], [], [], 0

    def reactor(self, kind=None, phase=None):
        r = self.r
        kind = kind or r.choice(KINDS + ["Reservoir"] * 4)
        ph = phase or r.choice(["toy"] * 5 + ["toy2"] * 2 + ["inert"])
        share = -1
        if r.random() < 0.3:
            # several reactors may look at one phase
            c = [i for i, q in enumerate(self.R) if q["phase"] == ph ]
            if c:
                share = r.choice(c)
        g = gas(r, ph)
        e = 1 if r.random() < (0.9 if self.adv else 0.85) else 0
        ch = 1 if ph != "inert" and r.random() < 0.8 else 0
        v = r.randint(1, 3)
        self.R.append({"kind": kind, "phase": ph, "share": share, "root": share if share >= 0 and False else len(self.R), "e": e, "chem": ch, "V": v, "c": g["c"],
                       "grp": self.R[share]["grp"] if share >= 0 else len(self.R)})
        self.ops.append(dict(g, op="reactor", kind=kind, phase=ph, share=share, energy=e, chem=ch, V=v))

    def real(self):
        return [i for i, q in enumerate(self.R) if q["kind"] != "Reservoir"]

    def ends(self):
        r = self.r
        for _ in range(20):
            a, b = r.randrange(len(self.R)), r.randrange(len(self.R))
            if a != b and (self.R[a]["kind"] != "Reservoir" or self.R[b]["kind"] != "Reservoir"):
                return a, b
        return None

    def flows(self, a, b):
        """does everything in a exist in b"""
        return all(s in HAS[self.R[b]["phase"]] for s in HAS[self.R[a]["phase"]])

    def dev(self):
        r = self.r
        e = self.ends()
        if not e:
            return
        a, b = e
        if not self.flows(a, b) and r.random() < 0.8:
            return
        k = r.choice(["MassFlowController", "MassFlowController", "Valve", "PressureController"])
        prim = [i for i, d in enumerate(self.D) if d["kind"] == "MassFlowController"]
        if k == "PressureController" and not prim:
            return
        i = len(self.D)
        self.D.append({"kind": k, "a": a, "b": b, "pf": False, "ps": 0})
        self.ops.append({"op": "dev", "kind": k, "a": a, "b": b})
        if k == "PressureController":
            if r.random() < 0.97:
                self.ops.append({"op": "devset", "d": i, "what": "primary", "a": r.choice(prim), "b": 0, "pscale": 0, "via": ""})
        if k != "MassFlowController" and r.random() < 0.5:
            self.D[i]["pf"] = True
            self.ops.append({"op": "devset", "d": i, "what": "pf", "a": r.randint(-3, 3), "b": r.randint(-1, 1), "pscale": 0, "via": ""})
        self.setK(i)
        if r.random() < 0.5:
            self.tune(i)

    def setK(self, i):
        r = self.r
        d = self.D[i]
        ps = 0 if d["kind"] == "MassFlowController" or d["pf"] else 1
        via = "mdot" if d["kind"] == "MassFlowController" else "own"
        K = r.randint(-1, 4 if not self.adv else 2) if d["kind"] == "MassFlowController" else r.randint(0, 1) if ps else r.randint(-1, 2)
        self.ops.append({"op": "devset", "d": i, "what": "K", "a": K, "b": 0, "pscale": ps, "via": via})

    def tune(self, i):
        r = self.r
        d = self.D[i]
        x = r.random()
        if x < 0.5:
            b = r.randint(-2, 2) if not self.adv or r.random() < 0.3 else 0
            if d["kind"] != "PressureController" or r.random() < 0.2:
                self.ops.append({"op": "devset", "d": i, "what": "tf", "a": r.randint(-2, 3), "b": b, "pscale": 0, "via": ""})
        elif x < 0.6 and d["pf"]:
            self.ops.append({"op": "devset", "d": i, "what": "pf", "a": r.randint(-3, 3), "b": r.randint(-1, 1), "pscale": 0, "via": ""})
        elif x < 0.63 and d["kind"] == "MassFlowController":
            self.ops.append({"op": "devset", "d": i, "what": "pf", "a": 1, "b": 0, "pscale": 0, "via": ""})
        else:
            self.setK(i)

    def wall(self):
        e = self.ends()
        if not e:
            return
        a, b = e
        self.W.append((a, b))
        self.ops.append({"op": "wall", "a": a, "b": b})
        for _ in range(self.r.randint(1, 4)):
            self.wallset(len(self.W) - 1)

    def wallset(self, i):
        r = self.r
        w = r.choice(["A", "K", "U", "eps", "v", "q"])
        o = {"op": "wallset", "w": i, "what": w, "a": 0, "b": 0}
        if w == "A":
            o["a"] = r.randint(1, 2)
        elif w == "K":
            o["a"] = r.randint(0, 1)
        elif w == "U":
            o["a"], o["b"] = r.randint(1, 3), r.randint(0, 1)
            if o["b"] == 0 and r.random() < 0.2:
                o["a"] = 0
        elif w == "eps":
            o["a"] = r.choice([0, 1, 2, 10, 11, -1, 3])
        elif w == "v":
            o["a"], o["b"] = r.randint(-1, 2), r.choice([0, 0, 1, -1]) if not self.adv else r.choice([0, 0, 0, 1])
        else:
            o["a"], o["b"] = r.randint(-50, 50), r.choice([0, 0, 3, -3])
        self.ops.append(o)

    def surf(self):
        c = [i for i in self.real() if self.R[i]["phase"] == "toy" and self.R[i]["chem"]]
        if c:
            i = self.r.choice(c)
            self.ops.append({"op": "surf", "r": i, "A": self.r.randint(1, 3), "th": cover(self.r, 0)})
            self.S += 1

    def state(self, i, sync=1):
        g = gas(self.r, self.R[i]["phase"])
        self.ops.append(dict(g, op="state", r=i, sync=sync, V=self.R[i]["V"]))

    def rates(self):
        self.ops.append({"op": "rates", "t": self.r.randint(0, 3), "init": self.r.choice([0, 0, 1]), "via": self.r.choice(["once", "twice"])})

    def change(self):
        r = self.r
        x = r.random()
        if x < 0.12 and self.real():
            i = r.choice(self.real())
            w = r.choice(["energy", "chem", "V"])
            if w == "chem" and (self.R[i]["phase"] == "inert" or self.S):
                return
            v = r.randint(0, 1) if w != "V" else r.randint(1, 3)
            if w == "chem":
                self.R[i]["chem"] = v
            if w == "V":
                self.R[i]["V"] = v
            self.ops.append({"op": "flag", "r": i, "what": w, "v": v})
        elif x < 0.4:
            self.state(r.randrange(len(self.R)), 1 if r.random() < 0.75 else 0)
        elif x < 0.5:
            self.ops.append({"op": "look", "r": r.randrange(len(self.R))})
        elif x < 0.64:
            self.dev() if r.random() < 0.5 or not self.D else self.tune(r.randrange(len(self.D)))
        elif x < 0.78:
            self.wall() if r.random() < 0.4 or not self.W else self.wallset(r.randrange(len(self.W)))
        elif x < 0.82:
            self.surf()
        elif x < 0.86 and self.S:
            self.ops.append({"op": "cov", "s": r.randrange(self.S), "th": cover(r, 0)})
        elif x < 0.9 and len(self.R) < 5:
            self.reactor()
        else:
            self.rates()


def scenario(r, adv=False):
    g = Gen(r, adv)
    for _ in range(r.randint(1, 4)):
        g.reactor()
    if not g.real():
        g.reactor(kind=r.choice(KINDS))
    for _ in range(r.randint(0, 4)):
        g.dev()
    for _ in range(r.randint(0, 3)):
        g.wall()
    if r.random() < 0.3:
        g.surf()
    if not adv:
        g.rates()
        for _ in range(r.randint(3, 14)):
            g.change()
        g.rates()
    else:
        if r.random() < 0.3:
            g.rates()
        for _ in range(r.randint(1, 2)):
            for _ in range(r.randint(0, 3)):
                if r.random() < 0.5 and g.R:
                    g.state(r.randrange(len(g.R)))
            g.ops.append({"op": "advance", "ms": r.choice([5, 10]) if g.S else r.choice([20, 50, 100]), "t0": r.choice([0, 0, 2]), "via": r.choice(["advance", "step"])})
            for i in g.real():
                g.state(i)
                g.ops.append({"op": "flag", "r": i, "what": "V", "v": g.R[i]["V"]})
            for s in range(g.S):
                g.ops.append({"op": "cov", "s": s, "th": cover(r, 0)})
            if r.random() < 0.5:
                g.rates()
    return {"cfg": {"x": 0}, "ops": g.ops}


def run(ctx):
    core.model_check(ctx, "NetSpec", "MC_Net", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    sc = [scenario(r) for _ in range(ctx.pick(1500, 20000))] + [scenario(r, True) for _ in range(ctx.pick(500, 6000))]
    core.conform(ctx, "NetSpec", "net", sc, "Trace_Net", timeout=700)
