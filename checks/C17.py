"""Matrices, Jacobians and fits are those of the entries they were given."""
from vf import core


def q(n, d=1):
    return [n, d]


def val(r):
    return q(r.choice([0, 0, 1, 1, 2, 3, -1, -1, -2, -3]))


def vecr(r, n):
    return [q(r.randint(-3, 3)) for _ in range(n)]


def fill(r, ops, o, n, m, band=None):
    """write most entries; sometimes make two rows or columns equal, or one of them zero"""
    a = [[val(r) for _ in range(m)] for _ in range(n)]
    x = r.random()
    if n > 1 and m == n:
        i, j = r.sample(range(n), 2)
        if x < 0.08:
            a[i] = list(a[j])
        elif x < 0.16:
            for row in a:
                row[i] = row[j]
        elif x < 0.22:
            a[i] = [q(0)] * m
        elif x < 0.28:
            for row in a:
                row[i] = q(0)
    for i in range(n):
        for j in range(m):
            ib = band is None or (j <= i + band[1] and i <= j + band[0])
            if ib or r.random() < 0.1:
                ops.append({"op": "set", "o": o, "i": i, "j": j, "v": a[i][j]})


def matrices(r):
    ops, ob = [], []            # ob: [kind, n, m, band, known]

    def new(k):
        n = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5]) if k != "array" else r.choice([1, 2, 3])
        m = n if k == "band" or k == "dense" and r.random() < 0.75 else r.randint(1, 4)
        b = (r.randint(0, 2), r.randint(0, 2)) if k == "band" else None
        op = {"op": "new", "o": 0, "k": k, "n": n, "m": m, "v": val(r)}
        if b:
            op.update(kl=b[0], ku=b[1])
        ops.append(op)
        ob.append([k, n, m, b, True])
        return len(ob) - 1
    kinds = r.choice([["dense"], ["dense", "dense"], ["band"], ["band", "band"], ["array", "array"], ["dense", "band", "array"]])
    for k in kinds:
        o = new(k)
        if r.random() < 0.85:
            fill(r, ops, o, ob[o][1], ob[o][2], ob[o][3])
    for _ in range(r.randint(6, 24)):
        o = r.randrange(len(ob))
        k, n, m, b, known = ob[o]
        x = r.random()
        if x < 0.16:
            for _ in range(r.randint(1, 3)):
                ops.append({"op": "set", "o": o, "i": r.randrange(n), "j": r.randrange(m), "v": val(r)})
        elif x < 0.28:
            ops.append({"op": "get", "o": o, "c": r.randint(0, 1)})
        elif x < 0.31:
            ops.append({"op": "zero", "o": o})
            ob[o][4] = True
            if r.random() < 0.7:
                fill(r, ops, o, n, m, b)
        elif x < 0.37 and len(ob) < 5:
            ops.append({"op": "copy", "o": o})
            ob.append(list(ob[o]))
        elif x < 0.43:
            c = [j for j in range(len(ob)) if ob[j][0] == k]
            s = r.choice(c)
            ops.append({"op": "assign", "o": o, "b": s})
            ob[o] = list(ob[s])
        elif x < 0.49:
            if k == "band":
                n2, b2 = r.randint(1, 5), (r.randint(0, 2), r.randint(0, 2))
                ops.append({"op": "resize", "o": o, "n": n2, "m": n2, "kl": b2[0], "ku": b2[1], "v": val(r)})
                ob[o] = [k, n2, n2, b2, True]
            else:
                n2, m2 = (n if r.random() < 0.6 else r.randint(1, 5)), r.randint(1, 5)
                if k == "dense" and r.random() < 0.6:
                    n2 = m2 = r.choice([n, 2, 3])
                ops.append({"op": "resize", "o": o, "n": n2, "m": m2, "v": val(r)})
                ob[o] = [k, n2, m2, None, known and n2 == n]
            if r.random() < 0.6:
                fill(r, ops, o, ob[o][1], ob[o][2], ob[o][3])
                ob[o][4] = False if not ob[o][4] else True
        elif k == "array":
            y = r.random()
            if y < 0.3:
                ops.append({"op": "addcol", "o": o, "v": vecr(r, n), "via": r.choice(["vec", "ptr"])})
                ob[o][2] += 1
            elif y < 0.45:
                ops.append({"op": "setrow", "o": o, "i": r.randrange(n), "v": vecr(r, m)})
            elif y < 0.6:
                ops.append({"op": "setcol", "o": o, "i": r.randrange(m), "v": vecr(r, n)})
            elif y < 0.75:
                ops.append({"op": "row", "o": o, "i": r.randrange(n)})
            elif y < 0.9:
                ops.append({"op": "col", "o": o, "i": r.randrange(m)})
            else:
                ops.append({"op": "scale", "o": o, "v": r.choice([q(2), q(-1), q(0), q(1, 2)])})
        elif x < 0.57:
            ops.append({"op": "mult", "o": o, "v": vecr(r, m), "via": r.choice(["fn", "m"])})
        elif x < 0.64:
            ops.append({"op": "left", "o": o, "v": vecr(r, n)})
        elif k == "dense":
            y = r.random()
            if y < 0.15:
                ops.append({"op": "incr", "o": o, "v": vecr(r, m), "w": vecr(r, n)})
            elif y < 0.35:
                c = [j for j in range(len(ob)) if ob[j][0] == k]
                s = r.choice([j for j in c if ob[j][1] == m] or c)
                ops.append({"op": "matmul", "o": o, "b": s, "n": n if r.random() < 0.95 else n + 1, "m": ob[s][2] if r.random() < 0.95 else ob[s][2] + 1})
            elif y < 0.8:
                nr = r.choice([1, 1, 2, 3])
                ops.append({"op": "solve", "o": o, "v": [vecr(r, m) for _ in range(nr)], "via": r.choice(["plain", "mat", "ldb"]) if n == m else "plain"})
                if n == m:
                    fill(r, ops, o, n, m)
            elif n == m:
                ops.append({"op": "invert", "o": o})
                if r.random() < 0.5:
                    fill(r, ops, o, n, m)
        else:
            y = r.random()
            if y < 0.5:
                ops.append({"op": "solve", "o": o, "v": [vecr(r, n) for _ in range(r.choice([1, 1, 2, 3]))], "via": r.choice(["plain", "xb", "ldb"])})
            elif y < 0.65:
                ops.append({"op": "factor", "o": o})
            elif y < 0.75:
                ops.append({"op": "rcond", "o": o})
            elif y < 0.85:
                ops.append({"op": "norm", "o": o})
            elif y < 0.93:
                ops.append({"op": "small", "o": o})
            else:
                ops.append({"op": "fill", "o": o, "v": val(r)})
    return {"cfg": {"g": 0}, "ops": ops}


def jacobians(r):
    ops = []
    t = r.choice(["eigen-sparse-direct", "banded-direct", "Adaptive"])
    # the incomplete factorisation of "Adaptive" keeps few entries per row: it is exact for blocks of two
    size = lambda: r.randint(4, 6) if t == "Adaptive" else r.randint(1, 4)
    n = size()
    bw = r.randint(0, 2)
    ops.append({"op": "new", "o": 0, "k": "jac", "t": t, "n": n, "m": n, "bw": bw, "v": q(0)})

    def entries():
        seen = set()
        if t == "Adaptive":
            p = r.sample(range(n), n)
            pair = {p[i]: p[i + 1] for i in range(0, n - 1, 2)}
            pair.update({b: a for a, b in pair.items()})
        for i in range(n):
            for j in range(n):
                if t == "banded-direct" and abs(i - j) > bw:
                    if r.random() < 0.9:
                        continue
                    ops.append({"op": "jset", "o": 0, "i": i, "j": j, "v": q(0)})
                    continue
                if t == "Adaptive" and i != j and pair.get(i) != j:
                    continue
                if r.random() < (0.75 if i == j else 0.6):
                    v = q(r.randint(-9, -5)) if t == "Adaptive" and i == j else q(r.choice([1, -1])) if t == "Adaptive" else val(r)
                    ops.append({"op": "jset", "o": 0, "i": i, "j": j, "v": v})
                    seen.add((i, j))
        if t == "Adaptive":
            for i in range(n):
                if (i, i) not in seen:
                    ops.append({"op": "jset", "o": 0, "i": i, "j": i, "v": q(-7)})
    entries()
    factored = False
    for _ in range(r.randint(4, 16)):
        x = r.random()
        if x < 0.12:
            ops.append({"op": "jreset", "o": 0})
            factored = False
            if r.random() < 0.9 or t == "Adaptive":
                entries()
        elif x < 0.2:
            n = size()
            bw = r.randint(0, 2)
            ops.append({"op": "jinit", "o": 0, "n": n, "bw": bw})
            factored = False
            entries()
        elif x < 0.28 and t != "Adaptive":
            i, j = r.randrange(n), r.randrange(n)
            if t != "banded-direct" or abs(i - j) <= bw:
                ops.append({"op": "jset", "o": 0, "i": i, "j": j, "v": val(r)})
                if t == "banded-direct":
                    factored = False
        elif x < 0.34:
            ops.append({"op": "jgamma", "o": 0, "v": r.choice([q(1), q(1, 2), q(2)] + ([q(-1), q(0)] if t != "Adaptive" else []))})
        elif x < 0.38 and t == "Adaptive":
            ops.append({"op": "jthr", "o": 0, "v": r.choice([q(0), q(1, 4), q(3, 4), q(3, 2), q(3)])})
        elif x < 0.44 and t == "Adaptive":
            ops.append({"op": "jadjust", "o": 0, "v": vecr(r, n), "atol": r.choice([q(0), q(1, 100), q(1)])})
        elif x < 0.52 and t != "banded-direct":
            ops.append({"op": "jget", "o": 0})
        elif x < 0.64 and t != "banded-direct":
            ops.append({"op": "jpre", "o": 0})
            factored = True
        elif x < 0.78:
            ops.append({"op": "jtrans", "o": 0, "mask": [r.randint(0, 1) for _ in range(n)], "rdt": r.choice([q(0), q(1), q(2), q(1, 2), q(5)])})
            factored = True
        elif factored:
            ops.append({"op": "jsolve", "o": 0, "v": vecr(r, n)})
    return {"cfg": {"g": 0}, "ops": ops}


def fits(r):
    ops = []
    for _ in range(r.randint(1, 4)):
        n = r.randint(1, 5)
        x = r.sample(range(-3, 5), n)
        ops.append({"op": "fit", "o": 0, "deg": r.randint(0, min(n - 1, 3)) if r.random() < 0.93 else n + r.randint(0, 1), "x": [q(v) for v in x], "y": vecr(r, n),
                    "w": r.choice([[], [], [q(-1)] * n, [q(r.randint(1, 4)) for _ in range(n)], [q(1)] * n])})
    return {"cfg": {"g": 0}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "MatSpec", "MC_Mat", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    n = ctx.pick(1600, 40000)
    sc = [matrices(r) for _ in range(n)] + [jacobians(r) for _ in range(n // 2)] + [fits(r) for _ in range(n // 8)]
    core.conform(ctx, "MatSpec", "mat", sc, "Trace_Mat", timeout=700)
