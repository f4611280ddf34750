"""C19: piecewise and composite rate and species models, tables."""
from fractions import Fraction as Fr
from vf import core

T20S = [5000, 10000, 20000, 40000, 15000, 25000, 30000, 60000]


def pieces(r, ty, n):
    out = []
    for _ in range(n):
        small = lambda k: [r.choice([0, 0, 1, -1, 2, 3]) for _ in range(k)]
        if ty == "NASA7":
            c = [r.choice([0, 1, 2, 3, 4])] + small(4) + [r.randint(-5, 5), r.randint(-3, 9)]
        elif ty == "NASA9":
            c = small(2) + [r.choice([0, 1, 2, 3])] + small(4) + [r.randint(-5, 5), r.randint(-3, 9)]
        else:
            c = [r.choice([0, 1, 2, 3])] + small(4) + [r.randint(-5, 5), r.randint(-3, 9)]
        out.append(c)
    return out


def spth(r, ty=None):
    ty = ty or r.choice(["NASA7", "NASA7", "NASA9", "NASA9", "Shomate", "constant-cp", "piecewise-Gibbs"])
    lo, hi = r.choice([2000, 4000, 5000]), r.choice([60000, 80000, 70000])
    d = {"ty": ty, "b": [lo, hi], "c": [[0]], "n": [0], "h0": 0, "dim": 0}
    if ty in ("NASA7", "Shomate"):
        n = r.choice([1, 2, 2, 2])
        if n == 2:
            d["b"] = [lo, r.choice([10000, 15000, 20000, 25000]), hi]
        d["c"] = pieces(r, ty, n)
    elif ty == "NASA9":
        n = r.choice([1, 2, 3, 4])
        d["b"] = [lo] + sorted(r.sample([10000, 15000, 20000, 25000, 30000, 40000], n - 1)) + [hi]
        d["c"] = pieces(r, ty, n)
    elif ty == "constant-cp":
        d["c"] = [[r.choice([10000, 20000, 20000, 40000]), r.randint(-4, 4), r.randint(-2, 5), r.randint(0, 4)]]
    else:
        ts = sorted(set([5963] + r.sample([4000, 5000, 10000, 15000, 20000, 40000], r.randint(1, 4))))
        d["b"] = ts
        d["n"] = [r.randint(-6, 6) for _ in ts]
        d["h0"] = r.randint(-4, 4)
        d["dim"] = r.randint(0, 1)
    return d


def plog(r):
    es = []
    ps = [4 * p + r.choice([0, 0, 0, 1, 2, 3, -1]) for p in r.sample(range(-4, 5), r.choice([1, 1, 2, 2, 3, 4]))]
    if r.random() < 0.2:
        ps += [p + 1 for p in ps if p + 1 not in ps]
    for p in sorted(set(ps)):
        b, e = r.choice([0, 0, 1, -1]), r.choice([0, 0, 1, 2])
        a = r.randint(-3, 3)
        ms = r.choice([[1], [1], [1], [1, 1], [3, 1], [1, 3], [5, -1], [3, -1], [2, 5, 1], [3, 5], [1, 2]])
        mixed = len(ms) > 1 and min(ms) > 0 and r.random() < 0.25
        for m in ms:
            es.append({"p": p, "m": m, "a": a, "b": b, "e": e})
            if mixed:
                b, a = b + 1, a - 8
    r.shuffle(es)
    return {"ty": "plog", "es": es}


def simple(r):
    k = r.random()
    if k < 0.6:
        return plog(r)
    if k < 0.8:
        n = r.randint(1, 4)
        return dict(chebrange(r), ty="cheb", c=[[r.choice([0, 0, 1, -1, 2]) for _ in range(n)] for _ in range(r.randint(1, 3))])
    return {"ty": "troe1", "a0": r.randint(-3, 3), "ai": r.randint(-3, 3)}


def chebrange(r):
    return {"t0": r.choice([7, 8]), "t1": r.choice([11, 12]), "p0": r.choice([-9, -7, -8]), "p1": r.choice([7, 8, 9])}


def burke(r):
    col = []
    for s in r.sample([1, 2, 3, 4], r.randint(1, 3)):
        own = r.random() < 0.5
        eb = r.choice([0, 0, 0, 1])
        col.append({"sp": s, "ea": r.choice([0, 1, 2, 3, -1]) - 8 * eb, "eb": eb, "own": own, "r": simple(r) if own else {"ty": "none"}})
    return {"ty": "burke", "M": simple(r), "col": col, "eig": r.randint(0, 1)}


def pow2(x):
    return x > 0 and x.numerator & (x.numerator - 1) == 0 and x.denominator & (x.denominator - 1) == 0


def comp(r, rates, t):
    """a composition for which the mean efficiencies of the mixture rules are powers of two, if one is found"""
    b = [x for x in rates if x["ty"] == "burke"]
    best = None
    for _ in range(60):
        X = [r.choice([0, 0, 1, 1, 2, 3, 4, 6]) for _ in range(4)]
        if not sum(X):
            continue
        best = best or (0, X)
        good = 0
        for x in b:
            tot = sum(X)
            m = Fr(tot - sum(X[c["sp"] - 1] for c in x["col"]), tot) + sum(Fr(2) ** (c["ea"] + c["eb"] * t) * Fr(X[c["sp"] - 1], tot) for c in x["col"])
            good += pow2(m)
        if good >= best[0]:
            best = (good, X)
    return best[1]


def mech(r):
    rs = [burke(r) if r.random() < 0.35 else simple(r) for _ in range(r.randint(1, 4))]
    first = list(rs)                  # the mechanism before any replacement
    return {"cfg": {"rates": first, "sp": []}, "ops": history(r, rs)}


def prs(r, rs):
    tab = [e["p"] for x in rs if x["ty"] == "plog" for e in x["es"]]
    if tab and r.random() < 0.4:
        return r.choice(tab)
    return 4 * r.randint(-5, 5) + r.choice([0, 0, 0, 2, 1])


def history(r, rs):
    ops, t, p = [], 10, 0
    X = comp(r, rs, t)
    for _ in range(r.randint(4, 14)):
        if r.random() < 0.12:
            i = r.randrange(len(rs))
            n = burke(r) if rs[i]["ty"] == "burke" else simple(r)
            if n["ty"] == rs[i]["ty"]:
                how = r.choice(["modify", "set"])
                if how == "set" and n["ty"] == "cheb":
                    n = dict(rs[i], **chebrange(r))
                rs[i] = n
                ops.append({"op": "mod", "i": i, "rate": n, "how": how})
                X = comp(r, rs, t)
        k = r.random()
        if k < 0.3:
            p = prs(r, rs)
        elif k < 0.5:
            t = r.randint(8, 11)
        elif k < 0.7:
            X = comp(r, rs, t)
        elif k < 0.95:
            t, p = r.randint(8, 11), prs(r, rs)
        if any(c["eb"] for x in rs if x["ty"] == "burke" for c in x["col"]):
            X = comp(r, rs, t)
        i = r.randrange(len(rs))
        if r.random() < 0.7 or rs[i]["ty"] == "burke":
            ops.append({"op": "all", "t": t, "p": p, "X": X, "how": r.choice(["TPX", "seq"])})
        else:
            ops.append({"op": "eval", "i": i, "t": t, "p": p})
    return ops


def fop(r):
    """a broadening factor with a central value that is a power of two"""
    while True:
        ty = r.choice(["Troe", "Troe", "SRI", "Tsang"])
        t = r.randint(8, 11)
        T = 2 ** t
        A = r.choice([Fr(0), Fr(1), Fr(1, 2), Fr(3, 4), Fr(1, 4), Fr(3, 2), Fr(2), Fr(3, 8)])
        B = Fr(0)
        t3, t1 = r.choice([0, 256, 512, 1024, 2048]), r.choice([0, 256, 512, 1024, 2048])
        t2 = r.choice([0, 0, 256, 512, 1024, 2048, -1024, -2048])
        dn = lambda c: Fr(0) if c == 0 else Fr(1, 2 ** (T // c)) if T % c == 0 else None
        up = Fr(2) ** -(t2 // T) if t2 % T == 0 else None
        if ty == "Troe":
            if dn(t3) is None or dn(t1) is None or up is None:
                continue
            c = (1 - A) * dn(t3) + A * dn(t1) + (up if t2 else 0)
        elif ty == "Tsang":
            A, B = r.choice([(Fr(1, 2), Fr(0)), (Fr(0), Fr(1, T * 2)), (Fr(1), Fr(-1, T * 2)), (Fr(1, 4), Fr(1, T * 4)), (Fr(3, 4), Fr(-1, 2 * T))])
            c = A + B * T
        else:
            if dn(t3) is None or up is None:
                continue
            c = A * up + dn(t3)
        if c <= 0 or not pow2(c) or not Fr(1, 2 ** 12) <= c <= 4:
            continue
        lc = c.numerator.bit_length() - c.denominator.bit_length()
        f2 = r.choice([0, 1, 3] if ty != "SRI" else [0, 1, 3, 4])
        return {"op": "F", "ty": ty, "t": t, "A": [A.numerator, A.denominator], "B": [B.numerator, B.denominator], "t3": t3, "t1": t1, "t2": t2,
                "d": r.choice([0, 0, 1, -1, 2]), "e": r.choice([0, 0, 1, -1]) if ty == "SRI" else 0, "f2": f2, "sg": r.choice([1, -1]), "lc": lc, "chem": r.randint(0, 1)}


def misc(r):
    ops = []
    for _ in range(r.randint(3, 8)):
        k = r.random()
        if k < 0.35:
            ops.append(fop(r))
        elif k < 0.6:
            E = r.choice([1, 2, 5, 10])
            w = E * r.choice([2, 3, 5, 9])
            ops.append({"op": "bm", "E": E, "w": w, "dH": r.choice([-5, -4, -3, -1, 0, 1, 2, 4, 5, 7]) * E})
        else:
            n = r.randint(2, 7)
            xs = sorted(r.sample(range(-6, 10), n))
            fs = [r.randint(-5, 9) for _ in xs]
            if r.random() < 0.5:
                x = r.choice([2 * v for v in xs] + [r.randint(-16, 24) for _ in range(4)])
                ops.append({"op": "interp", "x": x, "xs": xs, "fs": fs})
            else:
                if r.random() < 0.1:
                    xs[0], xs[-1] = xs[-1], xs[0]
                ops.append({"op": "quad", "how": r.choice(["simpson", "simpson", "trapezoidal", "trapezoidal", "midpoint"] if r.random() < 0.5 else ["simpson", "trapezoidal"]), "xs": xs, "fs": fs})
    return {"cfg": {"rates": [], "sp": []}, "ops": ops}


def thermo(r):
    sp = [spth(r) for _ in range(r.randint(1, 6))]
    cur = [dict(x) for x in sp]
    ops = []
    for _ in range(r.randint(4, 12)):
        if r.random() < 0.12:
            i = r.randrange(len(sp))
            n = spth(r, cur[i]["ty"])
            n["b"] = [cur[i]["b"][0]] + n["b"][1:-1] + [cur[i]["b"][-1]] if n["ty"] != "piecewise-Gibbs" else cur[i]["b"]
            if n["ty"] == "piecewise-Gibbs":
                n["n"] = [r.randint(-6, 6) for _ in n["b"]]
            if n["ty"] == "NASA9" and len(n["b"]) != len(cur[i]["b"]):
                continue
            cur[i] = n
            ops.append({"op": "modsp", "i": i, "sp": n})
        bs = [b for x in cur for b in x["b"]]
        ops.append({"op": "th", "i": r.randrange(len(sp)), "T": r.choice(bs + T20S + [5963])})
    return {"cfg": {"rates": [], "sp": sp}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "PieceSpec", "MC_Piece", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    n = ctx.pick(600, 12000)
    sc = [mech(r) for _ in range(n)] + [misc(r) for _ in range(n)] + [thermo(r) for _ in range(n)]
    core.conform(ctx, "PieceSpec", "piece", sc, "Trace_Piece", timeout=700)
