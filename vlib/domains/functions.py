"""C20: functions of time and space."""
from ..core import Check, MC, Gen


def xs(r, n, jumps=True):
    x = [r.randint(-6, 6)]
    for _ in range(n - 1):
        x.append(x[-1] + r.choice([1, 1, 2, 2, 4, 8] + ([0] if jumps and x.count(x[-1]) < 2 and n > 2 else [])))
    return x


def table(r, nc=1, mess=True):
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    x = xs(r, n)
    zero = r.random() < 0.1
    same = r.random() < 0.1
    v = [[0 if zero else r.randint(-4, 6) for _ in range(nc)] for _ in x]
    if same:
        v = [v[0]] * n
    return [n] + [w for a, b in zip(x, v) for w in [a] + b], x


def amp(r):
    return r.choice([0, 1, 1, 2, -1, 3, -2])


def poly(r, time_only, deg=3):
    m = []
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.choice([1, 2, -1, 3, -2, 0])
        if time_only:
            m.append([c, r.choice([0, 1, 1, 2, 3][:deg + 2])])
        else:
            e = [0, 0, 0, 0]
            for _ in range(r.randint(0, deg)):
                e[r.choice([0, 0, 1, 2, 3])] += 1
            m.append([c] + e)
    return [len(m)] + [w for a in m for w in a]


def scalar(r, one=False, kinds=("const", "lin", "tab", "tab", "tab", "ramp", "ramp", "dirac", "step", "expr", "bad")):
    if not one and r.random() < 0.1:
        return ["sin", amp(r), r.randint(-2, 3), r.randint(-3, 4)], []
    k = r.choice(kinds)
    v = 1 if one else amp(r)
    q = []
    if k == "const":
        return [k, amp(r)], q
    if k == "lin":
        return [k, v], q
    if k == "tab":
        t, q = table(r)
        return [k] + t + [v, r.choice([0, 0, 2, 2, 1, 3, 4]), r.choice([0, 0, r.randint(0, 15)])], q
    if k == "ramp":
        x = r.choice([1, 2, 4, 4, 8, 16, 0, -2])
        return [k, v, x], [x, 0]
    if k in ("dirac", "step"):
        x = r.randint(-2, 6)
        return [k, v, x], [x]
    if k == "expr":
        return [k] + poly(r, True, 2) + [r.randint(0, 1)], q
    return [k], q


def pair(r):
    a = r.randint(-6, 6)
    return a, a + r.choice([1, 2, 4, 8, 16]) * r.choice([-1, 1])


def spatial(r, via):
    k = r.choice(["none", "none", "lin", "quad", "step", "xy", "interp", "interp", "expr"] + (["xyz"] if not via else []) + (["bad"] if via and r.random() < .3 else []))
    q = []
    if k == "lin":
        return [k, r.randint(1, 3), r.randint(-2, 3)], q
    if k == "quad":
        return [k, r.randint(1, 3)] + list(pair(r)), q
    if k == "step":
        p = sorted(r.randint(-4, 6) for _ in range(2))
        return [k, r.randint(1, 3)] + p, p
    if k == "xy":
        x, y = (sorted(r.randint(-4, 6) for _ in range(2)) for _ in range(2))
        return [k, x[0], y[0], x[1], y[1]], x + y
    if k == "xyz":
        l = [sorted(r.randint(-4, 6) for _ in range(2)) for _ in range(3)]
        return [k] + [a[0] for a in l] + [a[1] for a in l], [x for a in l for x in a]
    if k == "interp":
        t, q = table(r)
        return [k, r.randint(1, 3)] + t + [r.choice([0, 0, 1, 2, 4, 8]), r.choice([0, 0, 2, 1, 3, 4]), r.choice([0, 0, r.randint(0, 15)])], q
    if k == "expr":
        return [k] + poly(r, False) + [r.choice([0, 1, 2, 3])], q
    return [k], q


def function(r, n):
    c = r.choice("ssrrrrtv") if n == 0 or r.random() < 0.8 else "m"
    if c == "s":
        via = r.randint(0, 1)
        h, q = scalar(r)
        if h[0] == "bad":
            via = 1
        if h[0] == "tab" and via and h[-2] == 0:
            h[-2] = 2
        return ["s", via] + h, q, 1
    if c == "r":
        via = r.randint(0, 2)
        A = amp(r)
        g, q = spatial(r, via)
        time = r.random() < 0.6
        if g[0] in ("expr", "bad") and via:
            time = False
            A = 1
        if g[0] == "expr" and via:
            g[-1] = 0
        if g[0] == "bad":
            return ["r", via, 1, "bad", 0], q, 0
        if g[0] in ("xyz",):
            via = 0
        out = ["r", via, A] + g + [int(time)]
        if time:
            h, p = scalar(r, True)
            if (h[0] == "bad" and not via) or (h[0] == "const" and via):
                h, p = ["ramp", 1, 4], [4]
            if h[0] == "tab" and via and h[-2] == 0:
                h[-2] = 2
            if g[0] == "none" and h[0] == "lin" and not via:
                pass
            out += h
            q = q + p
        return out, q, 0 if "bad" in out else 1
    if c == "t":
        n = r.choice([1, 2, 3, 4])
        t, q = table(r, 3)
        return ["t", r.randint(0, 1)] + t + [r.choice([2, 2, 3, 4]), r.choice([0, 0, r.randint(0, 15)])], q, 0
    if c == "v":
        nc = r.choice([2, 2, 3])
        return ["v", r.randint(0, 4), nc] + [w for _ in range(nc) for w in poly(r, False)], [], nc
    return None, [], 0


def point(r, q):
    pt = [r.choice(q) if q and r.random() < 0.55 else r.randint(-8, 14) for _ in range(4)]
    if r.random() < 0.3:
        pt[r.randrange(4)] += r.choice([-1, 1])
    return pt + [int(r.random() < 0.85)]


def scenario(r):
    n = r.choice([1, 1, 2, 3])
    fs, qs, dims = [], [], []
    for k in range(n):
        f, q, d = function(r, k)
        while f is None:
            c = [j for j in range(k) if dims[j] and fs[j][0] in "rv"]
            if c:
                m = r.randint(1, 3)
                f = ["m", m] + [w for _ in range(m) for w in (r.choice([1, 1, 2, -1, -1, 0]), r.choice(c))]
                q, d = [x for j in c for x in qs[j]], 0
            else:
                f, q, d = function(r, k)
        fs.append(f), qs.append(q), dims.append(d)
    w = [n] + [x for f in fs for x in f]
    ops = 0
    for _ in range(r.randint(4, 16)):
        k = r.randrange(n)
        c = fs[k][0]
        if (c in "sr") and fs[k].count("bad"):
            continue
        o = {"s": ["val", "val", "der", "zero", "cst"], "r": ["val", "val", "gval", "der", "der", "grad", "zero", "cst", "der2"],
             "t": ["val", "zero", "cst"], "v": ["gval", "der", "grad", "zero", "cst"], "m": ["val", "gval"]}[c]
        o = r.choice(o)
        if o == "der2" and "expr" in fs[k] and not has2(fs[k]):
            o = "val"
        if c == "m" and any(fs[j][0] == "v" for j in fs[k][3::2]):
            o = "gval"
        w += [o, k]
        ops += 1
        if o in ("zero", "cst"):
            continue
        if o in ("der", "der2"):
            w.append(r.randint(1, 4 if o == "der" else 3))
        if o == "der2":
            w.append(r.randint(1, 3))
        w += point(r, qs[k])
    return " ".join(map(str, w)) if ops else scenario(r)


def has2(f):
    """second derivatives are known for the expression of a real function"""
    i = f.index("expr")
    n = f[i + 1]
    return f[0] == "r" and i == 3 and f[i + 2 + 5 * n] > 0


def scenarios(r, tier):
    return [scenario(r) for _ in range(1500 if tier == "quick" else 15000)]


def corrupt(t, r):
    k = [j for j, e in enumerate(t["s"]) if e["op"] in ("val", "gval") and e["r"] and abs(e["r"][0]) < 10 ** 9]
    if not k:
        return None
    t["s"][r.choice(k)]["r"][0] += 300
    return t


def points(p):
    return [len(p)] + [w for a in p for w in a]


def convert(h):
    c = h["c"]
    g, t = c["g"], c["h"]
    m = len(str(h)) % 16
    w = [1, "r", c["via"], c["A"], g["k"]]
    w += {"none": lambda: [], "lin": lambda: [g["dir"], g["b"]], "quad": lambda: [g["dir"], g["a"], g["b"]], "step": lambda: [g["dir"], g["a"], g["b"]],
          "interp": lambda: [g["dir"]] + points(g["p"]) + [g["ramp"], 1 + m % 4, m]}[g["k"]]()
    w.append(int(t["k"] != "none"))
    if t["k"] != "none":
        w += [t["k"]] + (points(t["p"]) + [1, 1 + m % 4, m] if t["k"] == "tab" else [1, t["x"]] if "x" in t else [1])
    w += ["zero", 0, "cst", 0]
    for o in h["h"]:
        w += [o["op"], 0] + ([o["dir"]] if o["op"] == "der" else []) + o["X"] + [o["hasT"]]
    return " ".join(map(str, w))


def called(h):
    return [o["op"] for o in h["h"]] + [h["c"]["g"]["k"], h["c"]["h"]["k"]]


CHECKS = [Check("C20", "Functions", "functions", ("SpaceTimeTrace", "Trace.cfg"), scenarios,
                [MC("MCSpaceTime", "MC.cfg"), MC("MCSpaceTime", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="12g")],
                [Gen("MCSpaceTime", "Gen.cfg", convert, simulate=(500, 15), limit=400, ops=("val", "gval", "der", "grad", "interp", "quad", "lin", "step", "tab", "ramp", "dirac"), opof=called),
                 Gen("MCSpaceTime", "Gen.cfg", convert, tier="thorough", simulate=(8000, 15), limit=8000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite.cpp",),
                assumptions=["arguments are multiples of a quarter, the intervals of tables are powers of two: the arithmetic is exact"])]
