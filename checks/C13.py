"""Function objects evaluate to the expression they were built from."""
from vf import core

XS = [[-3, 1], [-2, 1], [-1, 1], [-1, 2], [0, 1], [1, 4], [1, 2], [1, 1], [3, 2], [2, 1], [3, 1], [4, 1]]
C = [[0, 1], [1, 1], [-1, 1], [2, 1], [3, 1], [1, 2], [-2, 1], [-1, 2]]


def base(r):
    k = r.choice(["constant", "constant", "pow", "pow", "pow", "exp", "sin", "cos", "log", "polynomial3", "Fourier", "Gaussian", "Arrhenius",
                  "tabulated-linear", "tabulated-linear", "tabulated-previous", "functor"])
    if k == "pow":
        p = [r.choice([[1, 1], [1, 1], [2, 1], [3, 1], [0, 1], [-1, 1], [-2, 1], [1, 2], [3, 2], [-1, 2]])]
    elif k in ("constant", "exp", "sin", "cos", "log"):
        p = [r.choice(C)]
        if k == "log" and p[0][0] == 0:
            p = [[1, 1]]
    elif k == "functor":
        p = []
    elif k == "polynomial3":
        p = [r.choice(C) for _ in range(r.randint(1, 4))]
    elif k == "Fourier":
        n = r.randint(1, 3)
        p = [r.choice(C) for _ in range(2 * n + 2)]
    elif k == "Gaussian":
        p = [r.choice(C), r.choice(XS), r.choice([[1, 1], [2, 1], [1, 2]])]
    elif k == "Arrhenius":
        p = []
        for _ in range(r.randint(1, 2)):
            p += [r.choice(C), r.choice([[0, 1], [1, 1], [2, 1], [-1, 1]]), r.choice([[0, 1], [0, 1], [0, 1], [1, 1]])]
    else:
        n = r.randint(2, 4)
        t = sorted(r.sample(XS, n), key=lambda q: q[0] / q[1])
        p = t + [r.choice(C) for _ in range(n)]
    if r.random() < 0.06:
        p = p + [[1, 1]] if r.random() < 0.5 or not p else p[:-1]
        if k == "functor":
            p = []
    return {"op": "base", "k": k, "p": p, "via": r.choice(["factory", "class"])}


def ok_count(k, p):
    m = len(p)
    if k in ("sin", "cos", "exp", "log", "pow", "constant"):
        return m == 1
    if k == "functor":
        return True
    if k == "polynomial3":
        return m >= 1
    if k == "Fourier":
        return m >= 4 and m % 2 == 0
    if k == "Gaussian":
        return m == 3
    if k == "Arrhenius":
        return m >= 3 and m % 3 == 0
    h = m // 2
    return m >= 4 and m % 2 == 0 and all(p[i][0] * p[i + 1][1] < p[i + 1][0] * p[i][1] for i in range(h - 1))


NODER = {"polynomial3", "Fourier", "Gaussian", "Arrhenius", "periodic", "functor"}


def scenario(r):
    """size and order bound the cost of evaluating the specification; objects whose construction may be refused are last"""
    ops, size, order, nod = [], [], [], []

    def add(op, sz, od, nd):
        ops.append(op)
        size.append(sz)
        order.append(od)
        nod.append(nd)
    while len(size) < r.randint(3, 6):
        o = base(r)
        if ok_count(o["k"], o["p"]):
            add(o, 1, 0, o["k"] in NODER or o["k"] == "log" and o["p"][0] != [1, 1])
        else:
            ops.append(o)
    if r.random() < 0.35:           # two compounds that differ in one parameter only, and combinations of them
        x = base(r)
        y = dict(x, p=[r.choice(C[1:]) for _ in x["p"]])
        if ok_count(x["k"], x["p"]) and ok_count(y["k"], y["p"]):
            n, z = len(size), r.randrange(len(size))
            nd = x["k"] in NODER or x["k"] == "log"
            add(x, 1, 0, nd)
            add(y, 1, 0, nd)
            k, sw, via = r.choice(["product", "product", "sum", "diff", "composite"]), r.random() < 0.4, r.choice(["new", "fn"])
            for q in (n, n + 1):
                a, b = (q, z) if sw else (z, q)
                add({"op": "bin", "k": k, "a": a, "b": b, "via": via}, 2, 0, nd or nod[z])
            for k in r.sample(["sum", "diff", "product"], 2):
                add({"op": "bin", "k": k, "a": n + 2, "b": n + 3, "via": "fn"}, 4, 0, nd or nod[z])
            ops.append({"op": "same", "a": n + 2, "b": n + 3})
    for _ in range(r.randint(4, 16)):
        x = r.random()
        n = len(size)
        a, b = r.randrange(n), r.randrange(n)
        if x < 0.5:
            k = r.choice(["sum", "diff", "product", "composite", "composite", "ratio"])
            if size[a] + size[b] > 7 or max(order[a], order[b]) > 2 or k == "ratio" and not safe(ops, b):
                continue
            add({"op": "bin", "k": k, "a": a, "b": b, "via": r.choice(["new", "fn", "fn"])}, size[a] + size[b], max(order[a], order[b]), nod[a] or nod[b])
        elif x < 0.72:
            k = r.choice(["times-constant", "plus-constant", "plus-constant", "periodic"])
            c = r.choice(C if k != "periodic" else [[1, 1], [2, 1], [3, 2]])
            if size[a] > 7:
                continue
            add({"op": "con", "k": k, "a": a, "c": c, "via": r.choice(["new", "fn"])}, size[a] + 1, order[a], nod[a] or k == "periodic")
        elif x < 0.88:
            if order[a] > 1 or size[a] > 6 or nod[a]:
                continue
            add({"op": "der", "a": a}, size[a], order[a] + 1, False)
        elif x < 0.93:
            ops.append({"op": "same", "a": a, "b": b})
        else:
            ops.append({"op": "bad", "kind": r.choice(["type", "type2", "type3", "wrongclass", "wrongclass2", "wrongclass3", "method", "order"])})
    ops.append({"op": "again"})
    if r.random() < 0.3 and not any(o.get("k") == "log" and o["p"] != [[1, 1]] for o in ops):            # calls that the object may or may not support
        ops.append({"op": "der", "a": r.randrange(len(size))})
    return {"cfg": {"xs": r.sample(XS, 6)}, "ops": ops}


def safe(ops, b):
    """a denominator that is certainly not the zero function: constants, powers and exponentials"""
    made = [o for o in ops if o["op"] in ("bin", "con", "der") or o["op"] == "base" and ok_count(o["k"], o["p"])]
    o = made[b]
    return o["op"] == "base" and (o["k"] in ("pow", "exp", "cos") or o["k"] == "constant" and o["p"][0][0] != 0 or o["k"] == "log")


def run(ctx):
    core.model_check(ctx, "FuncSpec", "MC_Func", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    # the derivative of ln(a x) has its own scenario (known finding), the generated ones use a = 1 there
    logs = [{"cfg": {"xs": [[1, a] for a in (1, 2, 4)]}, "ops": [{"op": "base", "k": "log", "p": [[2, 1]], "via": "class"}, {"op": "der", "a": 0}]}]
    core.conform(ctx, "FuncSpec", "func", logs + [scenario(r) for _ in range(ctx.pick(3000, 60000))], "Trace_Func", timeout=700)
