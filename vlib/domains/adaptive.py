"""C17: adaptive mesh refinement."""
from ..core import Check, MC, Gen

TYPES = ["-", "-", "maximum", "Maximum", "threshold", "threashold", "average", "minimum", "truebeta", "dorfel", "symmetrized", "symmetric", "unknown"]


def children(r, kind):
    if r.random() < 0.06:
        l = [r.choice([40, 100, 200, 402]), r.choice([4, 20, 40])]
        for x in ([r.randint(1, 4)], [r.choice([4, 8, 1000])], [r.randint(1, 3)], [r.randint(0, 2 if kind != "mark" else 1)]):
            if r.random() < 0.3:
                break
            l += x
        if kind != "mark" and len(l) < 3:
            l.append(r.randint(1, 4))
        return [["flat", len(l)] + l], "-"
    out = []
    type = r.choice(TYPES)
    if kind != "mark":
        out.append(["maxstep", r.randint(1, 4)])
        out.append(["errtol", r.choice([4, 20, 20, 40, 80, 100, 200])])
    else:
        if r.random() < 0.4:
            out.append(["maxstep", r.randint(1, 4)])
        if r.random() < 0.5:
            out.append(["errtol", r.randint(1, 40)])
    if r.random() < 0.9:
        b = r.choice([0, 1, 2, 10, 40, 40, 50, 100, 133, 200, 202, 300, 399, 400, 400, 401, 440, 500, 800])
        fn = int(r.random() < 0.12)
        if fn:
            b = r.choice([40, 41, 50, 100, 200])
        out.append(["beta", b, type, r.choice([-1, -1, 0, 1, 2, 4]) if type.startswith("symm") or r.random() < 0.1 else -1, fn])
    if r.random() < 0.4:
        out.append(["maxdof", r.choice([4, 8, 12, 1000])])
    if r.random() < 0.25:
        out.append(["maxcondition", r.choice([2, 4, 1000])])
    if r.random() < 0.2:
        out.append(["knot_mult", r.randint(1, 3)])
    if r.random() < 0.5:
        out.append(["scheme", r.choice(["fullspan", "minspan", "isotropic_function", "isotropic_function", "unknown"]), r.choice([-1, -1, 0, 2]),
                    r.choice([-1, -1, 4, 7, 11]), r.choice([-1, -1, 0, 1])])
    if r.random() < 0.15:
        out.append(["test_linear_independence"])
    return out, type


def scenario(r):
    kind = r.choice(["mark", "mark", "run", "run", "iso"])
    ch, type = children(r, kind)
    ana = int(r.random() < 0.4)
    if kind == "mark":
        r.shuffle(ch)
        np = r.choice([1] * 12 + [0, 2])
        if np == 2:
            ch = [c for c in ch if c[0] not in ("scheme", "flat")]
        w = ["mark", len(ch)] + [x for c in ch for x in c] + [ana, np]
        for _ in range(r.randint(1, 6)):
            n = r.choice([1, 2, 4, 8]) if type == "average" else r.randint(1, 12)
            if any(c[0] == "scheme" and c[1] == "isotropic_function" for c in ch) and type == "average":
                n = r.choice([1, 3, 7])
            if r.random() < 0.04:
                n = 0
            hi = r.choice([1, 3, 10, 200])
            x = [r.randint(0 if r.random() < 0.2 else 1, hi) for _ in range(n)]
            if r.random() < 0.15 and n:
                x = [x[0]] * n
            ng = r.randint(1, 3)
            ref = r.choice([100, 100, 100, 200, 300, 1000, 1000, 0, -100])
            w += [r.randint(1, 6), ref, r.choice([3, 8, 9, 12, 13]), r.choice([1, 2, 4, 8]), r.choice([0, 0, 1, 1, 2]), r.randint(1, 4), ng]
            for _ in range(ng):
                w += [r.choice([1, 10, 20, 39, 40, 41, 400, 1000]) for _ in range(4)]
            w += [n] + x
        return " ".join(map(str, w))
    none, np = int(r.random() < 0.2), r.choice([0, 1, 1, 1, 2, 3])
    if ch[0][0] != "flat" and r.random() < 0.4:
        if r.random() < 0.8:
            ad = r.randint(0, none + np + int(r.random() < 0.2))
            ix = -1
            if r.random() < 0.4:
                ix = r.randint(1, 2) if ad > 0 and ad <= none + np else r.randint(1, 4 if ana else 2)
            if ix > 0 and not ana and ad == 0 and none + np > 0:
                ix = r.randint(1, 2)
            ch.append(["use_norm", ad, ix])
        else:
            ch.append(["use_sub_norm", r.randint(1, 2)])
    r.shuffle(ch)
    dual = int(kind == "run" and r.random() < 0.35)
    w = [kind, len(ch)] + [x for c in ch for x in c]
    exp = int(r.random() < 0.85)
    w += [ana, dual, r.choice([1, 1, 2, 4]), int(r.random() < 0.5), exp, int(exp and r.random() < 0.08), r.choice([0, 0, 0, r.randint(1, 40)]), none, np]
    w += [r.choice([0, 10, 100, 200]), r.choice([0, 100, 100, 200])]
    n = r.randint(1, 5)
    if type == "average":
        n = r.choice([1, 2, 4])
    same = r.random() < 0.25
    e = [16 * r.randint(0 if r.random() < 0.2 else 1, 5) for _ in range(3)]
    w.append(n)
    for _ in range(n):
        w += e if same else [16 * r.randint(1, 5), 16 * r.randint(0 if r.random() < 0.2 else 1, 5), 16 * r.randint(1, 2)]
    return " ".join(map(str, w))


def scenarios(r, tier):
    return [scenario(r) for _ in range(1200 if tier == "quick" else 12000)]


def corrupt(t, r):
    k = [j for j, e in enumerate(t["s"]) if e["op"] in ("calc", "prm", "adapted", "solved", "glv", "dump", "ret", "refine", "norms", "proj", "asm")]
    if not k:
        return None
    e = t["s"][r.choice(k)]
    if e["op"] == "calc":
        e["r"] += 1
        if e["r"] <= 0:
            return None
        if not e["el"]:
            e["el"] = []
    elif e["op"] == "prm":
        e["row"] += 1
    elif e["op"] == "refine":
        e["opt"][0] += 1
    elif e["op"] == "norms":
        e["np"] += 1
    elif e["op"] == "asm":
        e["n"] += 1
    elif e["op"] == "proj":
        e["m"] += 1
    elif e["op"] == "dump":
        e["ne"] += 1
    elif e["op"] == "ret":
        e["code"] = 0 if e["code"] else 1
    else:
        e["r"] = not e["r"]
    return t


def convert(h):
    c = h["c"]
    w = [c["kind"], len(c["x"])]
    for x in c["x"]:
        w += [x["n"], x["v"]] + [x[k] for k in {"beta": ("type", "eps", "fn"), "scheme": ("tj", "asp", "gap"), "use_norm": ("ix",)}.get(x["n"], ())]
    w += [int(c[k]) for k in ("ana", "dual", "nrc", "transfer", "exp", "miss", "fk", "none", "proj", "U", "X")] + [len(c["e"])]
    for e in c["e"]:
        w += [e["a"], e["b"], e["d"]]
    return " ".join(map(str, w))


def called(h):
    return h["h"]


CHECKS = [Check("C17", "Adaptive", "adaptive", ("AdaptiveTrace", "Trace.cfg"), scenarios,
                [MC("MCAdaptive", "MC.cfg"), MC("MCAdaptive", "MCfail.cfg"),
                 MC("MCAdaptive", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="12g")],
                [Gen("MCAdaptive", "Gen.cfg", convert, simulate=(500, 90), limit=400, ops=("refine", "truebeta", "stop", "dump", "norms", "zero", "nonzero"), opof=called),
                 Gen("MCAdaptive", "Gen.cfg", convert, tier="thorough", simulate=(6000, 120), limit=8000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["the mesh is a chain of elements, the errors of which are halved when they are split; one patch", "output to VTF is not done"])]
