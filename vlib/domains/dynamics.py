"""C10: the implicit second-order time integrators."""
from ..core import Check, MC, Gen


def config(r):
    sch = r.choice("NLHG")
    spd = lambda lo, hi: [r.randint(lo, hi) * 1000, r.choice([0, 0, -1000, 1000, -3000]), r.randint(lo, hi) * 1000]
    c = dict(scheme=sch, M=[r.choice([10000, 20000, 5000, 30000]), r.choice([0, 0, 1000, 2000]), r.choice([10000, 20000, 15000])],
             C=[0, 0, 0] if r.random() < 0.4 else spd(0, 10), K=spd(4, 60), k3=0, a1=r.choice([0, 0, 0, 1000, 5000]), a2=r.choice([0, 0, 0, 200, 1000]))
    if r.random() < 0.25:
        c["k3"] = r.choice([1000, 5000, 10000])
    c["load"] = {"N": [0], "L": [0, 1], "H": [1, 2], "G": [0]}[sch][r.randrange(2) if sch in "LH" else 0]
    c["nsol"] = r.choice([8, 8, 5]) if sch == "H" else r.choice([3, 6, 6, 6])
    c["pred"] = {"N": ["a", "a", "v", "d", "x"], "L": ["x"], "H": ["x"], "G": ["a", "v", "x"]}[sch]
    c["pred"] = r.choice(c["pred"])
    c["disp"] = r.randint(0, 1) if sch == "N" else int(sch in "LH" and r.random() < 0.5)
    c["nupd"] = r.choice([20, 20, 1, 0])
    c["all"] = r.randint(0, 1)
    c["inert"] = r.randint(0, 1) if sch == "L" else 0
    x = r.random()
    c["ptype"], c["p1"], c["p2"] = "none", 0, 0
    if sch == "N":
        if x < 0.6:
            c["ptype"], c["p1"], c["p2"] = ("beta",) + r.choice([(2500, 5000), (3025, 6000), (5000, 5000), (1000, 5000), (4000, 7000), (2000, 6000)])
    elif x < 0.4:
        c["ptype"], c["p1"] = "alpha", r.choice([0, -1000, -2000, -3000])
    elif x < 0.8:
        c["ptype"], c["p1"] = "rho", r.choice([10000, 2500, 0])
    return c


KEYS = ("load", "nsol", "pred", "disp", "nupd", "all", "inert", "ptype", "p1", "p2")


def head(c):
    return [c["scheme"]] + c["M"] + c["C"] + c["K"] + [c["k3"], c["a1"], c["a2"]] + [c[k] for k in KEYS]


def scenarios(r, tier):
    out = []
    for _ in range(500 if tier == "quick" else 6000):
        c = config(r)
        w = head(c)
        f = lambda: [r.choice([0, 1, -1]) * r.randint(0, 30000), r.choice([0, 1]) * r.randint(-20000, 20000)]
        nonzero = c["k3"] == 0 or r.random() < 0.7
        rest = r.random() < 0.3
        st = [0] * 4 if rest else [r.randint(-15000, 15000) for _ in range(4)]
        w += ["ini"] + st + f() + [int(r.random() < 0.6)]
        dt = r.choice([500, 1000, 2000, 3333, 5000])
        steady = c["nupd"] == 0 or r.random() < 0.5
        load = f()
        for k in range(r.randint(2, 9)):
            if k and r.random() < 0.12:
                w.append("rst")
            if not steady:
                dt = r.choice([500, 1000, 2000, 3333, 5000])
            if r.random() < 0.6:
                load = f() if nonzero else [0, 0]
            n = r.choice([1, 1, 1, 2, 3]) if c["scheme"] in "NL" else 1
            w += ["stp", dt, n]
            for j in range(n):
                w += load if r.random() < 0.5 else f()
        out.append(" ".join(map(str, w)))
    return out


def corrupt(t, r):
    st = [s for s in t["s"][1:] if s["op"] == "stp" and s["sub"] and s["sub"][-1]["st"] == "conv"]
    if not st or t["c"]["k3"]:
        return None
    s = r.choice(st)
    b = s["sub"][-1]
    big = max(abs(x) for v in b["s"] for x in v)
    if big > 1e6 or (t["c"]["scheme"] in "LH" and s is not st[-1]):
        return None
    x = r.random()
    if x < 0.3:
        s["first"] = not s["first"]
    elif x < 0.5 and "prev" in s:
        s["prev"][r.randrange(3)][r.randrange(2)] += 3
    else:
        b["s"][r.choice([0, 1])][r.randrange(2)] += r.choice([-1, 1]) * 3000
    return t


def convert(h):
    r = h["c"]
    c = dict(r, M=[10000, 0, 20000], C=[5000, 0, 0], K=[20000, -10000, 20000], k3=0, a1=0, a2=0, load=1 if r["scheme"] in "LH" else 0,
             nsol=8 if r["scheme"] == "H" else 6, pred=h["pred"] if r["scheme"] in "NG" else "x", disp=int(h["disp"]), nupd=20, all=1, inert=1)
    w = head(c) + ["ini", 4000, 0, 0, 8000, 0, 0, 0]
    for x in h["h"]:
        w += ["stp", x[0], 1] + x[1] if x else ["rst"]
    return " ".join(map(str, w))


CHECKS = [Check("C10", "Dynamics", "dynamics", ("DynamicsTrace", "Trace.cfg"), scenarios,
                [MC("MCDynamics", "MC.cfg"), MC("MCDynamics", "MCbig.cfg", tier="thorough", workers=8, timeout=800)],
                [Gen("GenDynamics", "Gen.cfg", convert, simulate=(300, 24), ops=tuple("NLHG"), opof=lambda h: {h["c"]["scheme"]}),
                 Gen("GenDynamics", "Gen.cfg", convert, tier="thorough", simulate=(4000, 24), timeout=800, opof=lambda h: {h["c"]["scheme"]})], corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["two unknowns; states are compared to five decimals"])]
