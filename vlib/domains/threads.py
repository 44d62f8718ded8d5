"""C08: element groups for multi-threaded assembly."""
from ..core import Check, MC, Gen


def lst(q):
    return [len(q)] + list(q)


def text(w):
    return " ".join(map(str, w))


def convert(h):
    c, w = h["c"], []
    if c["kind"] == "s":
        n = c["n"]
        if len(n) == 2 and c["dir"] == 3:
            return None
        w = ["s", len(n)]
        for m in n:
            w += lst([1] * m)
        w += [c["p"]] * len(n) + [c["thr"], c["dir"]]
        nel = 1
        for m in n:
            nel *= m
        for o in h["h"]:
            w.append(o[0])
            if len(o) > 1:
                w += lst([e for e in o[1] if e < nel])
        return text(w)
    w = ["u", 5, len(c["elms"])]
    for e in c["elms"]:
        w += lst(e)
    w.append(len(c["cpl"]))
    for q in c["cpl"]:
        w += q
    w.append(c["thr"])
    for o in h["h"]:
        w += o
    if h["h"][-1][0] != "off":
        w += ["int", 0, -1, 0]
    return text(w)


def structured(r, big):
    nd = r.choice([2, 2, 3])
    top = {2: 14, 3: 7}[nd] * (2 if big else 1)
    n = [r.randint(1, top) for _ in range(nd)]
    spans = r.random() < 0.5
    p = [r.randint(1, 4) for _ in range(nd)] if spans else [r.randint(1, 4)] * nd
    w = ["s", nd]
    for m in n:
        flags = [1] * m
        if spans:
            for k in range(m):
                if r.random() < 0.2:
                    flags[k] = 0
            if not any(flags):
                flags[0] = 1
        w += lst(flags)
    w += p + [r.randint(1, 6), r.choice([1, 2, 4, 4] + ([3] if nd == 3 else []))]
    nel = 1
    for m in n:
        nel *= m
    for _ in range(r.randint(1, 4)):
        x = r.random()
        some = lst(r.sample(range(nel), r.randint(0, min(nel, 12))))
        if x < 0.6:
            w.append("spn" if spans else "elm")
        elif x < 0.75:
            w += ["flt"] + some
        elif x < 0.8:
            w.append(r.choice(["one", "str"]))
        else:
            w += [r.choice(["onl", "stl"])] + (some if r.random() < 0.8 else lst([-1]))
    if r.random() < 0.15 and nel < 200:
        f = list(range(nel))
        r.shuffle(f)
        w += [("spn" if spans else "elm"), "map"] + lst(f)
        if r.random() < 0.5:
            w += ["flt"] + lst(r.sample(range(nel), r.randint(0, nel)))
    return text(w)


def unstructured(r, big):
    style = r.choice(["grid", "grid", "rnd", "mix"])
    if style == "rnd":
        nn = r.randint(2, 10)
        elms = [r.sample(range(nn), min(nn, r.randint(1, 4))) for _ in range(r.randint(1, 10))]
    else:
        nx, ny = r.randint(1, 5), r.randint(1, 4)
        nn = (nx + 1) * (ny + 1)
        elms = [[i + j * (nx + 1), i + 1 + j * (nx + 1), i + (j + 1) * (nx + 1), i + 1 + (j + 1) * (nx + 1)] for j in range(ny) for i in range(nx)]
        if style == "mix":
            elms = [e if r.random() < 0.7 else e[:3] for e in elms]
            for _ in range(r.randint(0, 5)):
                elms.append(r.sample(range(nn), r.choice([1, 1, 2])))
            for _ in range(r.randint(0, 2)):
                elms.append([nn])
                if r.random() < 0.5:
                    elms.append([nn])
                nn += 1
            r.shuffle(elms)
    slaves = r.sample(range(1, nn + 1), r.randint(0, min(4, nn - 1)) if r.random() < 0.6 else 0)
    masters = [k for k in range(1, nn + 1) if k not in slaves]
    cpl = []
    for s in slaves:
        for m in r.sample(masters, min(len(masters), r.choice([1, 1, 2, 3]))):
            cpl.append((s, m))
    r.shuffle(cpl)
    w = ["u", nn, len(elms)]
    for e in elms:
        w += lst(e)
    w.append(len(cpl))
    for q in cpl:
        w += q
    w.append(r.choice([1, 2, 2, 3, 4]))
    if r.random() < 0.15:
        w.append("off")
    w += r.choice([["gen"], ["gen"], ["col"]]) + [r.randint(0, 1)]
    if "off" in w and "col" in w:
        return None
    for _ in range(r.randint(0, 2)):
        some = r.sample(range(len(elms)), r.randint(1, len(elms))) if r.random() < 0.4 else []
        safe = r.randint(0, 1)
        fail = r.randrange(len(elms)) if r.random() < 0.2 else -1
        if r.random() < 0.05:
            some = [-1]
        w += ["int", safe, fail] + lst(some if safe or some == [-1] else [])
        if r.random() < 0.3:
            w += ["gen", r.randint(0, 1)]
    return text(w)


def scenarios(r, tier):
    big = tier != "quick"
    out = []
    for k in range(800 if not big else 6000):
        s = structured(r, big) if k % 2 else unstructured(r, big)
        if s:
            out.append(s)
    return out


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    s = t["s"][k]
    if "g" in s:
        st = [x for ph in s["g"] for x in ph if x]
        if not st or s["op"] in ("onl", "stl", "flt") and not st:
            return None
        x = r.choice(st)
        x.append(x[0])
    elif s["op"] == "int":
        s["ok"] = not s["ok"]
    else:
        return None
    return t


CHECKS = [Check("C08", "Threads", "threads", ("ThreadsTrace", "Trace.cfg"), scenarios,
                [MC("MCThreads", "MCs.cfg"), MC("MCThreads", "MCu.cfg"), MC("MCThreads", "MCsbig.cfg", tier="thorough", workers=8, timeout=800)],
                [Gen("GenThreads", "Gen.cfg", convert, limit=2500, ops=("spn", "elm", "one", "str", "flt", "onl", "stl", "col", "gen", "off"))],
                corrupt=corrupt, extra=("ifem_lite.cpp",),
                assumptions=["a thread group direction which a patch can request for its dimension",
                             "constraint chains are resolved before the colouring, as the simulator does"])]
