"""The life cycle of reactor networks: time, initialisation, advancing, stepping, limits, external changes."""
from vf import core

KINDS = ["Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor",
         "MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"]


def scenario(r):
    ops, R, net = [], [], []
    fresh = [False]          # the integrator has taken no step since it was (re)initialised

    def new():
        k = r.choice(KINDS)
        R.append({"k": k, "in": False})
        ops.append({"op": "new", "kind": k, "phase": r.choice(["gas2", "gas3"]), "T": r.choice([300, 400, 500]), "m": r.choice([500, 600, 800]),
                    "V": r.choice([100, 200, 250, 400]), "name": r.choice(["", "", "a%d" % len(R)])})

    def add():
        c = [i for i in range(len(R)) if not R[i]["in"]]
        if c:
            i = r.choice(c)
            R[i]["in"] = True
            net.append(i)
            ops.append({"op": "add", "r": i})

    def rate(i=None):
        i = r.randrange(len(R)) if i is None else i
        ops.append({"op": "rate", "r": i, "m": r.randint(-3, 3), "v": r.randint(-1, 2), "thru": r.choice([0, 0, 1, 5])})

    for _ in range(r.randint(1, 2)):
        new()
    if r.random() < 0.15:
        for o in r.sample([{"op": "init"}, {"op": "reinit"}, {"op": "advance", "dt": 1}, {"op": "step"}, {"op": "maxstep", "h": 1}, {"op": "names"}], 2):
            ops.append(o)
    if r.random() < 0.3:
        ops.append({"op": "tinit", "t": r.choice([1, 5, 20])})
    for _ in range(r.randint(1, 2)):
        add()
    for i in range(len(R)):
        if r.random() < 0.8:
            rate(i)
    ops.append({"op": "tol", "a": r.randint(0, 1)})
    ops.append({"op": "maxstep", "h": r.randint(1, 3)})
    moved = False
    t = 0
    for _ in range(r.randint(5, 22)):
        x = r.random()
        if x < 0.2:
            d = r.randint(1, 4)
            t += d
            ops.append({"op": "advance", "dt": d})
            moved = True
        elif x < 0.32:
            ops.append({"op": "step"})
            moved = True
            t += 6
        elif x < 0.42:
            if r.random() < 0.6:
                ops.append({"op": "setlim", "r": r.randrange(len(R)), "c": r.choice(["mass", "mass", "volume", "bogus"]), "v": r.choice([1, 2, 4, -1])})
            elif r.random() < 0.2:
                ops.append({"op": "setlims", "v": r.choice([1, 2, -1])})
            ops.append({"op": "advlim", "dt": r.randint(1, 6), "pre": r.choice([1, 1, 0])})
            if r.random() < 0.5:
                ops.append({"op": "getlim"})
            moved = True
            t += 8
        elif x < 0.54:
            i = r.randrange(len(R))
            ops.append({"op": "state", "r": i, "T": r.choice([300, 350, 450]), "m": r.choice([500, 700, 900]), "sync": r.choice([1, 1, 0])})
            if ops[-1]["sync"] == 0 and r.random() < 0.3:
                ops.append({"op": "restore", "r": i})
        elif x < 0.6:
            ops.append({"op": r.choice(["init", "reinit", "reinit"])})
        elif x < 0.66:
            ops.append({"op": "tinit", "t": r.choice([0, 1, 7, 30])})
        elif x < 0.72:
            rate()
        elif x < 0.76:
            ops.append({"op": "tol", "a": r.randint(0, 1)})
        elif x < 0.8:
            ops.append({"op": "maxstep", "h": r.randint(1, 3)})
        elif x < 0.85:
            ops.append({"op": "names"})
        elif x < 0.9:
            if r.random() < 0.5:
                ops.append({"op": "init"})
            ops.append({"op": "vector", "via": "init"})
        elif x < 0.93 and moved and ops[-1]["op"] in ("advance", "step"):
            ops.append({"op": "est", "dt": r.randint(1, 3)})
        elif x < 0.95:
            if ops[-1]["op"] in ("advance", "step"):
                ops.append({"op": "back", "dt": r.randint(1, 3)})
        elif x < 0.96:
            ops.append({"op": "addflow"})
        elif len(R) < 4:
            new()
            if r.random() < 0.8:
                rate(len(R) - 1)
            if r.random() < 0.8:
                add()
    ops.append({"op": "advance", "dt": 1})
    return {"cfg": {"x": 0}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "LifeSpec", "MC_Life", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    core.conform(ctx, "LifeSpec", "life", [scenario(r) for _ in range(ctx.pick(4000, 40000))], "Trace_Life", timeout=700)
