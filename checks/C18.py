"""C18: multiphase mixtures (accounting) and chemical equilibrium."""
import json
import os
from fractions import Fraction as Fr
from math import lcm
from vf import core

ELS = ["H", "O", "N", "C", "E"]


def rat(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


def phase(r, i):
    gas = r.random() < 0.6
    els = r.sample(ELS, r.randint(1, 4))
    if els == ["E"]:
        els = ["H", "E"]
    ns = r.randint(1, 4) if gas else 1
    sp = []
    for k in range(ns):
        a = [r.choice([0, 1, 1, 2, 3]) if e != "E" else r.choice([0, 0, -1, 1]) for e in els]
        if not any(x for x, e in zip(a, els) if e != "E"):
            a[[j for j, e in enumerate(els) if e != "E"][0]] = 1
        ch = -a[els.index("E")] if "E" in els else 0
        sp.append({"name": "S%d%s" % (k, r.choice(["", "", "p%d" % i])), "a": a, "ch": ch, "h0": r.randint(-9, 9) * 100, "cp": r.randint(1, 6)})
    lo, hi = r.choice([200, 300, 500]), r.choice([900, 1500, 3000])
    return {"name": "ph%d" % i, "gas": gas, "els": els, "sp": sp, "v": rat(r.choice([Fr(1, 2), Fr(1, 4), 1, 2])), "lo": lo, "hi": hi,
            "X": [r.choice([0, 1, 1, 2]) for _ in sp[:-1]] + [1], "T": r.choice([400, 500, 1000]), "p": r.choice([50, 100, 200])}


def val(r):
    return rat(r.choice([0, 0, 1, 2, 3, Fr(1, 2), Fr(3, 4), 5]))


def account(r):
    ph = [phase(r, i) for i in range(r.randint(1, 4))]
    order = r.sample(range(len(ph)), r.randint(1, len(ph)))
    ops = [{"op": "add", "i": i, "n": val(r), "how": r.choice(["raw", "shared", "mix"])} for i in order]
    names = [s["name"] for i in order for s in ph[i]["sp"]]
    ns = len(names)
    T = lambda: r.choice([250, 400, 500, 800, 1000, 2000])
    P = lambda: r.choice([25, 50, 100, 200, 400])

    def fracs(n):
        w = [r.choice([0, 1, 1, 2, 3]) for _ in range(n)]
        w[r.randrange(n)] += 1
        return [rat(Fr(x, sum(w))) for x in w]

    def moles():
        m, out = [val(r) for _ in range(ns)], []
        return m
    started = False
    for _ in range(r.randint(4, 14)):
        i = r.randrange(len(order))
        n = len(ph[order[i]]["sp"])
        k = r.choice(["T", "P", "TP", "n", "n", "TPn", "names", "names", "addn", "addn", "pn", "pn", "px", "px", "ext", "upload", "bad", "find", "find", "late", "get"])
        if k == "late" and not started:
            continue
        started = True
        if k in ("T", "P", "TP", "get"):
            ops.append({"op": k, "T": T(), "p": P()})
        elif k in ("n", "TPn"):
            ops.append({"op": k, "n": moles(), "T": T(), "p": P()})
        elif k == "names":
            f = [[x] + val(r) for x in sorted(set(r.sample(names, r.randint(1, ns))))]
            ops.append({"op": k, "f": f, "how": r.choice(["map", "text"])})
        elif k == "addn":
            ops.append({"op": k, "k": r.randrange(ns), "d": rat(r.choice([1, 2, -1, Fr(1, 2), -10]))})
        elif k == "pn":
            ops.append({"op": k, "i": i, "n": val(r)})
        elif k == "px":
            x = fracs(n)
            if r.random() < 0.3:                 # not normalised
                x = [rat(3 * Fr(*v)) for v in x]
            ops.append({"op": k, "i": i, "x": x})
        elif k in ("ext", "upload"):
            ops.append({"op": k, "i": i, "x": fracs(n), "T": T(), "p": P()})
        elif k == "bad":
            ops.append({"op": k, "how": r.choice(["solver", "option", "pair", "phase", "species"])})
        elif k == "late":
            ops.append({"op": k, "i": order[0], "n": [1, 1], "how": "raw"})
        else:
            j = r.randrange(len(ph))
            ops.append({"op": k, "ph": r.choice(["ph%d" % j, "ph%d" % order[i], "none"]), "sp": r.choice(names + ["none"])})
    return {"cfg": {"ph": ph}, "ops": ops}


def nullspace(cols, ne):
    """integer basis of {v: sum_k v_k cols[k] = 0}"""
    n = len(cols)
    A = [[Fr(cols[k][m]) for k in range(n)] for m in range(ne)]
    piv, row = [], 0
    for c in range(n):
        p = next((i for i in range(row, ne) if A[i][c] != 0), None)
        if p is None:
            continue
        A[row], A[p] = A[p], A[row]
        A[row] = [x / A[row][c] for x in A[row]]
        for i in range(ne):
            if i != row and A[i][c] != 0:
                A[i] = [x - A[i][c] * y for x, y in zip(A[i], A[row])]
        piv.append(c)
        row += 1
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [Fr(0)] * n
        v[f] = Fr(1)
        for i, c in enumerate(piv):
            v[c] = -A[i][f]
        out.append(v)
    return out


def rank(cols, ne):
    return len(cols) - len(nullspace(cols, ne))


def kraft(r, n):
    q = [0]
    while len(q) < n:
        i = r.randrange(len(q))
        if q[i] > 6:
            continue
        x = q.pop(i)
        q += [x + 1, x + 1]
    return q


def equil(r, multi, XY, solver):
    ne = r.randint(1, 3)
    els = ["H", "O", "C", "N"][:ne]
    pi = r.choice([0, 0, 1, 2, -1, -2])
    T = r.choice([600, 1000, 1000, 1500])
    lam = [r.randint(-4, 4) for _ in range(ne)]
    shapes = [("gas", r.randint(2, 6))]
    if multi:
        if r.random() < 0.4:
            shapes.append(("soln", r.randint(2, 3)))
        for _ in range(r.randint(0 if len(shapes) > 1 else 1, 2)):
            shapes.append(("solid", 1))
        r.shuffle(shapes)
    ph, target, cols = [], [], []
    for i, (kind, n) in enumerate(shapes):
        sp, q = [], kraft(r, n)
        N = r.choice([1, 1, 2, 3]) * 2 ** 3
        there = kind != "solid" or r.random() < 0.6
        col = [Fr(0)] * ne
        for k in range(n):
            a = [r.choice([0, 0, 1, 1, 2, 3]) for _ in range(ne)]
            if not any(a):
                a[r.randrange(ne)] = 1
            la = sum(x * y for x, y in zip(a, lam))
            x = Fr(1, 2 ** q[k])
            if kind == "solid":
                g, nk = (la, Fr(N)) if there else (la + r.randint(1, 4), Fr(0))
            else:
                g, nk = la + q[k] - (pi if kind == "gas" else 0), N * x
            col = [c + y * x for c, y in zip(col, a)]
            sp.append({"name": "P%dS%d" % (i, k), "a": a, "g": g, "h0": T * r.randint(-12, 12), "cp": r.randint(3, 6)})
            target.append(nk)
        if there:
            cols.append(col)
        ph.append({"name": "ph%d" % i, "kind": kind, "gas": kind == "gas", "els": els, "sp": sp, "v": [1, 100000000], "lo": 200, "hi": 6000, "T0": T})
    if rank(cols, ne) < len(cols):
        return None
    allsp = [s["a"] for p in ph for s in p["sp"]]
    if any(all(a[m] == 0 for a in allsp) for m in range(ne)):
        return None
    n0 = list(target)
    for v in nullspace(allsp, ne):
        if r.random() < 0.8:
            if r.random() < 0.5:
                v = [-x for x in v]
            lim = min([n0[k] / -v[k] for k in range(len(v)) if v[k] < 0] or [Fr(4)])
            t = lim * r.choice([Fr(1, 2), Fr(1, 4), Fr(3, 4), 1])
            n0 = [x + t * y for x, y in zip(n0, v)]
    if multi and solver != "gibbs":          # species of solutions start with some moles (see known findings)
        sol = [p["kind"] != "solid" for p in ph for _ in p["sp"]]
        if any(s and x == 0 for s, x in zip(sol, n0)):
            return None
    den = lcm(*[x.denominator for x in n0])
    if den > 256 or 3 * den * sum(n0) > 15000:
        return None
    D = max(x.denominator for x in target)
    op = {"op": "equil", "XY": XY, "solver": solver, "single": not multi, "T": T, "p": int(100 * Fr(2) ** pi), "pi": pi, "lam": lam,
          "target": [rat(x) for x in target], "n0": [rat(x) for x in n0], "D": D, "tol": 20}
    op["ph"], op["ne"] = ph, ne
    return op


def family(r, n, multi, XY, solver):
    return {"cfg": {"ph": []}, "ops": many(r, n, equil, multi, XY, solver) + [{"op": "end", "most": 5 if XY != "TV" else 7}]}


def many(r, n, f, *a):
    out = []
    while len(out) < n:
        s = f(r, *a)
        if s:
            out.append(s)
    return out


def run(ctx):
    core.model_check(ctx, "MixSpec", "MC_Mix", invariants=("MCInv",), constraint="MCBound")
    core.model_check(ctx, "EquilSpec", "MC_Equil", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    core.conform(ctx, "MixSpec", "mix", [account(r) for _ in range(ctx.pick(1000, 20000))], "Trace_Mix", timeout=700)
    r = ctx.rng()
    fams = [(False, xy, so) for xy in ("TP", "HP", "SP", "UV", "SV", "TV") for so in ("auto", "element_potential", "gibbs", "vcs")]
    # mixtures with a held enthalpy, entropy or volume: the Gibbs solver only (known findings of the VCS solver)
    fams += [(True, "TP", so) for so in ("auto", "gibbs", "vcs", "auto", "vcs")] + [(True, xy, "gibbs") for xy in ("HP", "SP", "TV")]
    here = os.path.dirname(os.path.abspath(__file__))
    known = [{"cfg": {"ph": []}, "ops": [o]} for o in json.load(open(os.path.join(here, "C18_known.json")))]
    core.conform(ctx, "EquilSpec", "mix", [family(r, 40, *f) for _ in range(ctx.pick(2, 20)) for f in fams] + known, "Trace_Equil", timeout=700)
