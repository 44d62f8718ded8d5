"""C15: the stack of solution vectors, saved and restored."""
from ..core import Check, MC, Gen


def scenarios(r, tier):
    out = []
    for _ in range(700 if tier == "quick" else 8000):
        n = r.randint(1, 4)
        kinds = [r.choice([0, 0, 1, 2]) for _ in range(n)]
        names = [r.randrange(4) for _ in range(n)] if r.random() < 0.15 else r.sample(range(4), n)
        w = [n]
        for k, m in zip(kinds, names):
            w += [k, m]
        val = 1
        cuts = 0
        size = [0] * n
        for k in range(n):
            if r.random() < 0.9:
                ns = r.choice([1, 2, 3, 4, 6, 7, 9, 10]) if kinds[k] != 2 else r.choice([3, 6, 6, 9, 8, 12])
                w += ["init", k, r.randint(1, 4), ns]
                size[k] = ns
        for _ in range(r.randint(4, 22)):
            k = r.randrange(n)
            x = r.random()
            if x < 0.35 and size[k]:
                w += ["set", k, r.randrange(size[k]) if r.random() < 0.5 else 0, val]
                val += 5
            elif x < 0.58:
                w += ["push", k, r.choice([1, 1, 2, 3, 4])]
            elif x < 0.64:
                w += ["ref", k, val]
                val += 5
            elif x < 0.78:
                w += ["save", r.randrange(2), k]
                w[-2:] = [k, w[-2]]
            elif x < 0.9:
                w += ["rest", k, r.randrange(2)]
            elif x < 0.93 and cuts < 2:
                w += ["dmg", r.randrange(2), k, r.randint(1, 8)]
                cuts += 1
            elif x < 0.95:
                w += ["dmg", r.randrange(2), k, r.choice([0, -1])]
            elif x < 0.97:
                w += ["copy", 0, 1]
            elif r.random() < 0.7:
                ns = r.choice([1, 2, 3, 6, 7, 9])
                w += ["init", k, r.randint(1, 4), ns]
                if not size[k] or kinds[k] == 0:
                    size[k] = ns
        out.append(" ".join(map(str, w)))
    return out


def corrupt(t, r):
    e = r.choice(t["s"])
    x = [(k, v) for k, q in enumerate(e["all"]) for v in q["v"] if v]
    if r.random() < 0.3 and "ok" in e and e["op"] in ("save", "rest", "init", "push"):
        e["ok"] = not e["ok"]
    elif x:
        v = r.choice(x)[1]
        v[r.randrange(len(v))] += r.choice([1, -5])
    else:
        return None
    return t


def convert(h):
    w = [2, h["kind"][0], 0, h["kind"][1], 2]
    for k in (0, 1):
        w += ["init", k, 1, 7 if h["kind"][k] == 2 else 3]
    for o in h["h"]:
        k = o[1] - 1
        if o[0] == "set":
            nv = 3 if h["kind"][k] == 2 else 1
            w += ["set", k, 0, o[2]]
            if nv > 1:
                w += ["set", k, nv - 1, o[2]]
        elif o[0] == "push":
            w += ["push", k, 1]
        elif o[0] == "dmg":
            w += ["dmg", 0, k, o[2]]
        else:
            w += [o[0], k, 0]
    return " ".join(map(str, w))


CHECKS = [Check("C15", "Stack", "stack", ("StackTrace", "Trace.cfg"), scenarios,
                [MC("MCStack", "MC.cfg"), MC("MCStack", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="8g")],
                [Gen("MCStack", "Gen.cfg", convert, simulate=(60, 13), limit=900, ops=("set", "push", "save", "rest", "dmg")),
                 Gen("MCStack", "Gen.cfg", convert, tier="thorough", simulate=(1200, 13), limit=20000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",), assumptions=["all the vectors of a simulator have the same length"])]
