"""Solution arrays: per-location states and extra components through slices, shared views, resizing and files."""
from vf import core

PH = {"gas": {"names": ["T", "D"], "sp": ["A", "B", "C"], "w": [1, 2, 4]},
      "surf": {"names": ["T", "P"], "sp": ["SA", "SB"], "w": [1, 2]},
      "solid": {"names": ["T", "P"], "sp": [], "w": []},
      "water": {"names": ["T", "D"], "sp": [], "w": []}}
STR = ["a", "bc", "a b", "1", "1.5", "true", "null", "x,y", "", "a: b", "#c", "yes"]


def state(r, ph, over=False):
    n = len(PH[ph]["sp"])
    if ph == "water":
        return [r.randint(400, 520), r.randint(1, 4)]
    y = [0] * n
    if n:
        if r.random() < 0.5:
            y[r.randrange(n)] = 1000
        else:
            for _ in range(4):
                y[r.randrange(n)] += 250
        if over and r.random() < 0.3:
            y[r.randrange(n)] += 250
    return [r.randint(200, 900), r.randint(1, 40) if ph == "gas" else r.randint(1, 40) * 1000] + y


def val(r, ty, w=2, csv=True):
    if ty == "i":
        return str(r.randint(-9, 99))
    if ty == "d":
        x = r.randint(-40, 80) / 4
        return str(int(x)) if x == int(x) else repr(x)
    if ty == "s":
        return r.choice(STR)
    return "%d:%s" % (w, "|".join(val(r, ty[1]) if ty != "ms" else r.choice(["a", "b c", "2", ""]) for _ in range(w)))


def scenario(r):
    ph = r.choice(["gas", "gas", "gas", "surf", "solid", "water"])
    sp = PH[ph]["sp"]
    cfg = dict(PH[ph], phase=ph, start=state(r, ph))
    ops, A, F = [], [], {}     # A: live arrays as the generator believes them: n, tab, extras
    X = {}                     # table -> {extra: type}

    def meta():
        return sorted([k, r.choice(["u", "v w", "7"])] for k in r.sample(["alpha", "beta", "note"], r.randint(0, 2)))

    def live():
        return [i for i, a in enumerate(A) if a]

    def users(t):
        return sum(1 for a in A if a and a["t"] == t)

    def fill(h, n, m):
        # new locations hold no state until they are given one
        if r.random() < 0.4:
            ops.append({"op": "reset", "h": h})
        else:
            for i in range(n, m):
                ops.append({"op": "set", "h": h, "l": i, "s": state(r, ph)})

    def loc(n):
        return r.randint(0, n - 1) if n and r.random() < 0.93 else r.choice([n, -1, n + 3])

    for step in range(r.randint(8, 34)):
        L = live()
        if not L or r.random() < 0.05:
            n = r.choice([0, 1, 1, 2, 3, 4])
            ops.append({"op": "new", "n": n, "meta": meta()})
            t = len(X)
            X[t] = {}
            A.append({"n": n, "t": t, "id": True, "sh": 1})
            continue
        h = r.choice(L)
        a = A[h]
        n, ex = a["n"], X[a["t"]]
        x = r.random()
        can = users(a["t"]) == 1 and a["sh"] <= 1
        ty = r.choice(["i", "d", "s", "mi", "md", "ms", "i", "d", "s"])
        if x < 0.09:
            k = r.randint(0, n)
            sel = r.sample(range(n), k) if r.random() < 0.7 else r.sample(range(n), n)
            bad = False
            if r.random() < 0.08:
                sel.append(r.choice([n, -1, sel[0] if sel else n + 2]))
                bad = True
            ops.append({"op": "share", "h": h, "sel": sel})
            if not bad:
                A.append({"n": len(sel), "t": a["t"], "id": a["id"] and sel == list(range(n)) and True, "sh": 1})
        elif x < 0.12 and len(L) > 1:
            ops.append({"op": "del", "h": h})
            A[h] = None
        elif x < 0.18:
            ops.append({"op": "phase", "s": state(r, ph)})
        elif x < 0.24:
            m = r.randint(0, 5)
            ops.append({"op": "resize", "h": h, "n": m})
            if can:
                a["n"] = m
                if m > n:
                    fill(h, n, m)
        elif x < 0.27:
            s = r.choice([[n], [1, n], [n, 1], [2, 2], [3], [2, 1, 1]])
            p = 1
            for d in s:
                p *= d
            ops.append({"op": "shape", "h": h, "s": s})
            a["sh"] = len(s) if p == n or users(a["t"]) == 1 else a["sh"]
            if p != n and users(a["t"]) == 1:
                a["n"] = p
                if p > n:
                    fill(h, n, p)
        elif x < 0.29:
            ops.append({"op": "reset", "h": h})
        elif x < 0.34:
            ops.append({"op": "loc", "h": h, "l": loc(n), "restore": r.choice([1, 1, 0])})
        elif x < 0.39:
            ops.append({"op": "update", "h": h, "l": loc(n)})
        elif x < 0.46:
            ops.append({"op": "get", "h": h, "l": loc(n)})
        elif x < 0.53:
            s = state(r, ph, True)
            ops.append({"op": "set", "h": h, "l": loc(n), "s": s if r.random() < 0.95 else s[:-1]})
        elif x < 0.55:
            ops.append({"op": "norm", "h": h})
        elif x < 0.62:
            nm = r.choice(["x1", "x2", "zeta", "b,c"])
            ops.append({"op": "addx", "h": h, "n": nm, "back": r.randint(0, 1)})
            ex.setdefault(nm, "void")
        elif x < 0.72 and (ex or r.random() < 0.1):
            nm = r.choice(sorted(ex) + ["nix"] * (r.random() < 0.05)) if ex else "nix"
            cur = ex.get(nm, "void")
            if cur != "void" and r.random() < 0.7:
                ty = cur
            kind = r.choice(["vec", "vec", "vec", "scalar", "void"] if r.random() < 0.3 else ["vec", "vec", "scalar"])
            if kind == "scalar" and len(ty) == 2:
                ty = ty[1]
            m = n if kind == "vec" and r.random() < 0.9 else r.randint(1, 3)
            w = r.choice([1, 2, 2, 3])
            if kind == "vec" and m == 0:
                continue
            if cur == "void" and m != n and ty == "s":
                ty = "i"
            v = [val(r, ty, w) for _ in range(1 if kind == "scalar" else 0 if kind == "void" else m)]
            ops.append({"op": "setx", "h": h, "n": nm, "kind": kind, "ty": ty, "v": v})
            if kind == "vec" and m == n or kind == "scalar":
                ex[nm] = ty if cur == "void" or (kind == "vec" and a["id"]) else cur
        elif x < 0.78:
            c = r.choice(cfg["names"] + sp)
            m = n if r.random() < 0.93 else n + 1
            f = c in sp
            if ph == "water":
                v = [r.randint(400, 520) if c == "T" else r.randint(1, 4) for _ in range(m)]
            else:
                v = [r.choice([250, 500, 1000]) if f else r.randint(200, 900) for _ in range(m)]
            ops.append({"op": "setc", "h": h, "n": c, "sp": int(f), "v": v})
        elif x < 0.82:
            ops.append({"op": "aux", "h": h, "l": loc(n)})
        elif x < 0.88:
            app = r.random() < 0.6
            q, keys = [], r.sample(sorted(ex), r.randint(0, len(ex)))
            risky = r.random() < 0.15
            if risky:
                keys = [r.choice(sorted(ex) + ["nix"])]
            for k in keys:
                t = ex.get(k, "void")
                if t == "void":
                    if not risky and ((n if app else n - 1) > 0):
                        continue
                    t = ty
                    if len(q) == 0 or not risky:
                        ex[k] = ty if (n == 0 if app else n == 1) else ex.get(k, "void") if k in ex else "void"
                        if k == "nix":
                            ex.pop("nix")
                elif risky:
                    t = r.choice(["i", "s", t])
                elif t == "d" and r.random() < 0.3:
                    t = "i"
                elif len(t) == 2:
                    continue
                q.append({"n": k, "ty": t, "v": val(r, t)})
            o = {"op": "append" if app else "setaux", "h": h, "x": q}
            if app:
                s = state(r, ph)
                o["s"] = s if r.random() < 0.95 else s + [1]
                if can and len(o["s"]) == len(s) and not risky:
                    a["n"] += 1
            else:
                o["l"] = loc(n)
            ops.append(o)
        elif x < 0.9:
            ops.append({"op": "meta", "h": h, "meta": meta()})
        elif x < 0.91:
            ops.append({"op": "info", "h": h})
        elif x < 0.95:
            ops.append({"op": "save", "h": h, "f": r.choice(["a.yaml", "b.yml"]), "name": r.choice(["one", "two", "two", ""] if r.random() < 0.1 else ["one", "two"]),
                        "sub": r.choice(["", "", "part"]), "over": r.randint(0, 1)})
            F[(ops[-1]["f"], ops[-1]["name"])] = ops[-1]["sub"]
        elif x < 0.98 and F:
            f, nm = r.choice(sorted(F))
            ops.append({"op": "restore", "h": h, "f": f, "name": nm, "sub": F[(f, nm)]})
        else:
            ops.append({"op": "csv", "h": h, "f": r.choice(["a.csv", "b.csv"]), "basis": r.choice(["", "X", "mole", "Y", "mass", "bad"]), "over": r.randint(0, 1)})
    for h in live():
        if A[h]["n"] > 0:
            ops.append({"op": "get", "h": h, "l": r.randrange(max(1, A[h]["n"]))})
    return {"cfg": cfg, "ops": ops}


def run(ctx):
    core.model_check(ctx, "ArraySpec", "MC_Array", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    core.conform(ctx, "ArraySpec", "arr", [scenario(r) for _ in range(ctx.pick(3000, 40000))], "Trace_Array", timeout=700)
