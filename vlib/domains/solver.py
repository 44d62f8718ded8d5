"""C09: the equilibrium iterations of the nonlinear and dynamic solution drivers."""
from ..core import Check, MC, Gen

ZERO, INF, NAN = -99, 98, 99


def entry(r, c, it, ref):
    """One residual: mostly decreasing from iteration to iteration"""
    x = r.random()
    if x < 0.04:
        e = ZERO
    elif x < 0.06 and c["eta"] == ZERO:
        e = r.choice([NAN, INF])
    else:
        e = ref - r.choice([2, 3, 4, 3, 1, 0, 5, -1, -2]) * it + r.randint(-1, 1)
        e = max(-9, min(9, e))
    k = ZERO if r.random() < 0.01 else r.choice([0, 0, 0, 1, -1, 2])
    return [r.choice([1, 1, 2]), e, r.choice([1, 1, -1]), k]


def searching(r, c, n):
    """Residuals of a line search: the work is reduced, or changes the sign, by exact factors only"""
    d, e, k = r.choice([1, 2]), r.randint(0, 5), 0
    out = [[d, e + 1, 1, k], [d, e, 1, k]]
    if r.random() < 0.35:   # a search without end: too long and too short steps, the best one is used
        for i in range(10):
            sg, j = (-1, r.choice([1, 1, 2])) if i % 2 == 0 else (1, -1)
            if r.random() < 0.1:
                sg, j = r.choice([(1, -1), (-1, 1), (1, 1)])
            out.append([d, e + j, sg, k])
        return out
    for _ in range(n):
        x = r.random()
        if x < 0.25:
            out.append([3 - d, r.randint(-5, 5), 1, k])
        elif x < 0.35:
            out.append([d, ZERO, 1, k])
        else:
            sg, j = r.choice([(1, -1), (1, 0), (1, 1), (1, 2), (-1, 0), (-1, 1), (-1, 2), (-1, 2), (1, -6)])
            out.append([d, max(-9, min(9, e + j)), sg, k])
    return out


def config(r):
    kind = r.choice("NNK")
    norm = r.choice(["res", "res", "dis", "ene"] + (["none", "upt"] if kind == "N" else []))
    c = dict(kind=kind, norm=norm, all=r.randint(0, 1), ini=int(norm in ("none", "upt") or (kind == "N" and r.random() < 0.15)), maxit=r.choice([0, 1, 2, 3, 5, 8, 20]),
             maxIncr=r.choice([0, 1, 2, 3]), nupdat=r.choice([0, 1, 2, 20]), rt=r.choice([3, 4, 6, 10, 20]), at=r.choice([ZERO, ZERO, -6, -3, 1]),
             dl=r.choice([NAN - 1, 1, 3, 4]), eta=ZERO)
    if kind == "N" and norm not in ("none", "upt") and r.random() < 0.3:
        c["eta"] = r.choice([1, 2, 3])
    return c


def ctext(c):
    return [c[k] for k in ("kind", "norm", "all", "ini", "maxit", "maxIncr", "nupdat", "rt", "at", "dl", "eta")] + [source(c)]


def source(c):
    """How the driver gets its settings: directly, or from text or XML input"""
    n = sum(abs(c[k]) for k in ("maxit", "maxIncr", "nupdat", "rt", "at", "dl", "eta")) + len(c["norm"]) + c["all"] + c["ini"]
    src = n % 4
    if src == 1 and (c["kind"] == "K" or c["dl"] >= INF):
        return 2
    return src


def script(r, c, n):
    if c["eta"] != ZERO and r.random() < 0.8:
        out = []
        for _ in range(max(1, n // 3)):
            out += searching(r, c, r.randint(1, 4))
    else:
        ref = r.randint(-2, 8)
        out = [entry(r, c, i, ref) for i in range(n)]
    return [r.choice([0] * 9 + [r.randint(1, 12)]), int(r.random() < 0.3), len(out)] + [x for e in out for x in e]


def scenarios(r, tier):
    out = []
    for _ in range(1500 if tier == "quick" else 12000):
        cs = [config(r) for _ in range(r.choice([1, 1, 2, 3]))]
        w = [len(cs)]
        for c in cs:
            w += ctext(c)
        its = [0] * len(cs)
        for _ in range(r.randint(1, 8)):
            k = r.randrange(len(cs))
            if r.random() < 0.5:
                w += ["ste", k + 1, r.choice([3, 3, 3, 1, 2, 0])] + script(r, cs[k], r.randint(1, 8))
            else:
                w += ["ite", k + 1, 3, its[k]] + script(r, cs[k], 1 if cs[k]["eta"] == ZERO else r.randint(1, 8))
                its[k] = 0 if r.random() < 0.2 else its[k] + 1
        out.append(" ".join(map(str, w)))
    return out


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    s = t["s"][k]
    if any(t["c"]["s"][x["k"] - 1]["eta"] != ZERO for x in t["s"][1:k + 1]):
        return None   # the specification may have given up
    if s["st"] != "fail" and r.random() < 0.3:
        s["iter"] += 1
    elif s["st"] != "fail" and r.random() < 0.5:
        s["d"][0] += 1
    else:
        s["st"] = {"conv": "div", "div": "conv", "fail": "conv", "ok": "slow", "slow": "ok"}[s["st"]]
    return t


def ops(h):
    return {{"N": "nonlinear", "K": "dynamic"}[h["c"][x[0] - 1]["kind"]] for x in h["h"]}


def convert(h):
    w = [2]
    for c in h["c"]:
        w += ctext(dict(c, all=int(c["all"]), ini=int(c["ini"])))
    for k, sub, fk, s in h["h"]:
        w += ["ste", k, sub, fk, 0, len(s)]
        for x in s:
            w += [x["d"], x["e"], x["sg"], x["k"]]
    return " ".join(map(str, w))


CHECKS = [Check("C09", "Solver", "solver", ("SolverTrace", "Trace.cfg"), scenarios,
                [MC("MCSolver", "MC.cfg"), MC("MCSolver", "MC2.cfg"), MC("MCSolver", "MCmid.cfg", tier="thorough", timeout=800), MC("MCSolver", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="8g")],
                [Gen("GenSolver", "Gen.cfg", convert, simulate=(1500, 7), ops=("nonlinear", "dynamic"), opof=ops),
                 Gen("GenSolver", "Gen.cfg", convert, tier="thorough", simulate=(12000, 7), timeout=800, opof=ops)], corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["magnitudes which are powers of two, such that the arithmetic is exact"])]
