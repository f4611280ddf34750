"""Trees of input data keep what was written, compare by content and survive YAML and the file cache."""
from vf import core

KEYS = ["a", "b", "c", "d"]
STR = ["x", "y", "H2O", "12", "1.5", "1e5", "true", "False", "", " sp ", "a: b", "~", "null", "no", "#h", "- l", "'q", 'd"q', "yes", "1 2", "[x", "k, j", "-", "+1", "2.", "True", "false", "O2:1, N2:3.76"]


def j(t, v):
    return {"t": t, "v": v}


def quarter(r):
    return r.choice([r.randint(-20, 20), r.randint(-20, 20), 4 * r.randint(-5, 5), r.randint(-2000, 2000), 4 * 10**r.randint(0, 6) + 1])


def integer(r):
    return r.choice([0, 1, 2, -1, 3, r.randint(-100, 100), 123456])


def scalar(r):
    t = r.choice(["int", "dbl", "str", "str", "bool"])
    return j(t, {"int": integer, "dbl": quarter, "str": lambda r: r.choice(STR), "bool": lambda r: r.random() < .5}[t](r))


def vec(r, depth):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, r.choice([4, 18])])
    t = r.choice(["vi", "vd", "vs", "vb", "va", "va", "vm", "vm", "vvi", "vvd"])
    if t in ("va", "vm"):
        n = min(n, 3)
    if t == "vi":
        return j(t, [integer(r) for _ in range(n)])
    if t == "vd":
        return j(t, [quarter(r) for _ in range(n)])
    if t == "vs":
        return j(t, [r.choice(STR) for _ in range(n)])
    if t == "vb":
        return j(t, [r.random() < .5 for _ in range(n)])
    if t == "va":
        x = r.random()
        if x < 0.3:
            return j(t, [scalar(r) for _ in range(n)])
        if x < 0.6:
            k = r.choice(["int", "dbl", "str", "bool", "num"])
            f = {"int": integer, "dbl": quarter, "str": lambda r: r.choice(STR), "bool": lambda r: r.random() < .5}
            return j(t, [j(kk, f[kk](r)) for kk in ([r.choice(["int", "dbl"]) if k == "num" else k for _ in range(n)])])
        return j(t, [node(r, depth - 1) for _ in range(n)])
    if t == "vm":
        return j(t, [mp(r, depth - 1) for _ in range(n)])
    f = integer if t == "vvi" else quarter
    m = r.randint(0, 3)
    return j(t, [[f(r) for _ in range(m if r.random() < .8 else r.randint(0, 3))] for _ in range(min(n, 4))])


def mp(r, depth, keys=KEYS):
    n = r.choice([0, 1, 2, 2, 3, 4]) if depth > 0 else r.choice([0, 1, 2])
    return j("map", [{"k": k, "n": node(r, depth - 1)} for k in r.sample(keys, n)])


def node(r, depth):
    x = r.random()
    if depth <= 0 or x < 0.45:
        return scalar(r)
    return vec(r, depth) if x < 0.75 else mp(r, depth)


def nulls(r, n):
    """sometimes an entry without a value"""
    if n["t"] == "map" and r.random() < .1:
        n["v"].append({"k": "nul", "n": j("none", 0)})
    return n


def path(r):
    p = [r.choice(KEYS)]
    while r.random() < 0.35 and len(p) < 4:
        p.append(r.choice(["#0", "#0", "#1", "#2"]) if r.random() < .3 else r.choice(KEYS))
    return p


def paths_of(n, pre=()):
    """paths of a described tree (best effort; the tree may have changed since)"""
    out = []
    if n["t"] == "map":
        for it in n["v"]:
            out.append(pre + (it["k"],))
            out += paths_of(it["n"], pre + (it["k"],))
    elif n["t"] in ("va", "vm"):
        for i, e in enumerate(n["v"][:3]):
            if n["t"] == "va":
                out.append(pre + ("#%d" % i,))
            out += paths_of(e, pre + ("#%d" % i,))
    return out


def similar(r, n):
    """the same content in another container, or nearly"""
    t, v = n["t"], n["v"]
    if r.random() < .15:
        return node(r, 1)
    if t == "int":
        return r.choice([n, j("dbl", 4 * v), j("int", v + 1), j("str", str(v))])
    if t == "dbl":
        return r.choice([n, j("int", v // 4), j("dbl", v + 1)])
    if t == "vi":
        return r.choice([n, j("vd", [4 * x for x in v]), j("va", [j("int", x) for x in v]), j("vi", v + [1]), j("vi", v[:-1]), j("va", [j("dbl", 4 * x) for x in v])])
    if t == "vd":
        return r.choice([n, j("va", [j("dbl", x) for x in v]), j("vd", v[:-1]), j("vi", [x // 4 for x in v])])
    if t == "vs":
        return r.choice([n, j("va", [j("str", x) for x in v]), j("vs", v[::-1])])
    if t == "vvi":
        return r.choice([n, j("vvd", [[4 * x for x in w] for w in v]), j("vvi", [w[:-1] for w in v]), j("vvd", [[4 * x for x in w] + [4] for w in v]), j("vvi", [w + [7] for w in v])])
    if t == "vvd":
        return r.choice([n, j("vvi", [[x // 4 for x in w] for w in v]), j("vvd", [w[:-1] for w in v])])
    if t == "map":
        items = [{"k": it["k"], "n": similar(r, it["n"]) if r.random() < .3 else it["n"]} for it in v]
        r.shuffle(items)
        return j("map", items[:-1] if r.random() < .1 else items)
    if t in ("va", "vm"):
        return j(t, [similar(r, e) if r.random() < .3 and t == "va" else e for e in v])
    return n


BAD = ["a: [1, 2", "a: b: c", "{a: 1", "3", "x", "a: 'q", "\ta: 1\n- b", "a: {b: 1]", "- [", "a: *x"]


def tree(r):
    ops, known, last = [], [[], [], []], [None, None, None]

    def kp(i):
        if known[i] and r.random() < .8:
            return list(r.choice(known[i]))
        return path(r)

    def learn(i, n, pre=()):
        ps = paths_of(n, pre)
        known[i] = (known[i] + ps)[-25:]

    mts = [0, 0]
    written = [False, False]
    for _ in range(r.randint(8, 30)):
        i, s = r.randrange(3), r.randrange(3)
        x = r.random()
        if x < 0.16:
            p, n = kp(i), node(r, 3)
            if last[s] is not None and r.random() < .3:
                n = similar(r, last[s])
            last[i] = n
            ops.append({"op": "set", "r": i, "p": p, "n": n})
            known[i].append(tuple(p))
            learn(i, n, tuple(p))
        elif x < 0.18:
            ops.append({"op": "touch", "r": i, "p": kp(i)})
        elif x < 0.36:
            sz = r.random()
            n0 = -1 if sz < .7 else r.randint(0, 3)
            n1 = -1 if sz < .85 else r.randint(0, 4)
            ops.append({"op": "get", "r": i, "p": kp(i), "m": r.random() < .4, "n0": n0, "n1": n1,
                        "as": r.choice(["int", "dbl", "dbl", "str", "str", "bool", "vd", "vd", "vi", "vs", "va", "va", "vm", "vvd", "map"])})
            if ops[-1]["as"] == "map":
                ops[-1]["m"] = False
        elif x < 0.40:
            ops.append({"op": "def", "r": i, "k": r.choice(KEYS), "as": r.choice(["int", "dbl", "bool", "str"])})
        elif x < 0.42:
            ops.append({"op": "has", "r": i, "k": r.choice(KEYS)})
        elif x < 0.50:
            o = r.choice(["erase", "erase", "exclude", "clear", "flow", "flow"])
            ops.append({"op": o, "r": i, "p": [] if r.random() < .6 else kp(i), "q": [], "k": r.choice(KEYS)})
        elif x < 0.55:
            ops.append({"op": "update", "r": i, "s": s, "p": [] if r.random() < .6 else kp(i), "q": [] if r.random() < .6 else kp(s), "keep": r.random() < .5})
            known[i] += known[s][-5:]
        elif x < 0.60:
            ops.append({"op": r.choice(["copyroot", "assignroot"]), "r": i, "s": s})
            known[i] = list(known[s])
        elif x < 0.67:
            o = r.choice(["graft", "graft", "graftmap"])
            q = kp(s)
            if o == "graftmap" and i != s and r.random() < .4:
                q = []
            p = kp(i)
            ops.append({"op": o, "r": i, "s": s, "p": p, "q": q})
            known[i].append(tuple(p))
        elif x < 0.72:
            o = r.choice(["where", "where", "cwhere", "haswhere"])
            ops.append({"op": o, "r": i, "p": kp(i), "k": r.choice(KEYS[:2]), "x": r.choice(["x", "x", "y", "12", ""]), "create": r.random() < .6, "w": r.randint(1, 9)})
        elif x < 0.74:
            ops.append({"op": "shape", "r": i, "p": kp(i)})
        elif x < 0.82:
            if r.random() < .5:
                ops.append({"op": "cmp", "r": i, "s": s, "p": [], "q": []})
            else:
                ops.append({"op": "cmp", "r": i, "s": s, "p": kp(i), "q": kp(s)})
        elif x < 0.84:
            n = scalar(r)
            if n["t"] != "bool":
                ops.append({"op": "cmps", "r": i, "p": kp(i), "n": n})
        elif x < 0.90:
            ops.append({"op": "yaml", "r": i, "s": s})
            known[i] = list(known[s])
        elif x < 0.94:
            n = nulls(r, mp(r, 3))
            last[i] = n
            ops.append({"op": "parse", "r": i, "n": n, "style": r.randint(0, 60)})
            known[i] = []
            learn(i, n)
        elif x < 0.945:
            ops.append({"op": "list", "r": i, "n": j("va", [node(r, 2) for _ in range(r.randint(0, 3))]), "style": r.randint(0, 9)})
        elif x < 0.95:
            ops.append({"op": "bad", "r": i, "x": r.choice(BAD)})
        else:
            f = r.randrange(2)
            y = r.random()
            if y < .5 or not written[f]:
                mts[f] = r.choice([m for m in range(-3, 4) if m != mts[f]])
                written[f] = True
                ops.append({"op": "write", "f": f, "n": mp(r, 2), "style": r.randint(0, 60), "bad": r.random() < .15, "mt": mts[f]})
            elif y < .6:
                ops.append({"op": "rmfile", "f": f})
                written[f] = False
            elif y < .7:
                ops.append({"op": "uncache", "f": f})
            for _ in range(r.randint(1, 2)):
                ops.append({"op": "read", "r": r.randrange(3), "f": f, "rel": r.random() < .4})
    return {"cfg": {}, "ops": ops}


def pairs(r):
    """one value next to a similar one, each possibly accessed before they are compared"""
    ops = []
    n = node(r, 2)
    ops.append({"op": "set", "r": 0, "p": ["a"], "n": n})
    ops.append({"op": "set", "r": 1, "p": ["a"], "n": similar(r, n)})
    ps = [["a"]] + [list(("a",) + p) for p in paths_of(n)]
    for _ in range(r.randint(0, 4)):
        ops.append({"op": "get", "r": r.randrange(2), "p": r.choice(ps), "m": r.random() < .5, "n0": -1, "n1": -1,
                    "as": r.choice(["dbl", "vd", "va", "vm", "vvd", "str"])})
    ops += [{"op": "cmp", "r": 0, "s": 1, "p": [], "q": []}, {"op": "cmp", "r": 0, "s": 1, "p": ["a"], "q": ["a"]},
            {"op": "yaml", "r": 2, "s": 0}, {"op": "cmp", "r": 2, "s": 1, "p": [], "q": []}, {"op": "cmp", "r": 2, "s": 0, "p": [], "q": []}]
    return {"cfg": {}, "ops": ops}


def run(ctx):
    core.model_check(ctx, "AnySpec", "MC_Any", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    n = ctx.pick(1500, 30000)
    sc = [tree(r) for _ in range(n)] + [pairs(r) for _ in range(n)]
    core.conform(ctx, "AnySpec", "any", sc, "Trace_Any", timeout=700)
