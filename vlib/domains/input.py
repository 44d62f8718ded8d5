"""C16: reading of input files, inclusion, options."""
from ..core import Check, MC, Gen

NAMES = ["geometry", "discretization", "boundaryconditions", "material", "a", "b", "console", "x"]
TEXTS = ["7", "a~b", "x<y&z", "t", "1.5~2"]
PATHS = ["res", "res.h5", "../out/res.h5", "../res", "./r", "o.d/res", "o.d/res.hdf5", "a.b.h5"]


def attrs(r):
    ks = r.sample(["set", "comp", "type", "v"], r.choice([0, 0, 1, 2]))
    out = []
    for k in ks:
        out += [k, r.choice(["1", "12", "foo", "a~b", "p&q"])]
    return [len(ks)] + out


def el(n, a=None, c=None):
    a = a or {}
    w = ["E", n, len(a)]
    for k, v in a.items():
        w += [k, v]
    c = c or []
    w += [len(c)]
    for x in c:
        w += x
    return w


def content(r, depth, inc, mixed):
    """children of an element, no two adjacent texts"""
    out, last = [], None
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.3 and last != "T" and (mixed or not out):
            out.append(["T", r.choice(TEXTS)])
            last = "T"
        elif k < 0.4:
            if last != "T":
                out.append(["C", "note"])
                last = "C"
        elif k < 0.55 and inc:
            out.append(["I", r.choice(inc)])
            last = "I"
        else:
            out.append(tree(r, r.choice(NAMES[2:]), depth - 1, inc, mixed))
            last = "E"
    return out


def tree(r, n, depth, inc, mixed=True):
    w = ["E", n] + attrs(r)
    c = content(r, depth, inc, mixed) if depth > 0 else ([["T", r.choice(TEXTS)]] if r.random() < 0.4 else [])
    w.append(len(c))
    for x in c:
        w += x
    return w


def option(r):
    n = lambda a, b: str(r.randint(a, b))
    k = r.randrange(7)
    some = lambda d: {q: v for q, v in d.items() if r.random() < 0.5}
    if k == 0:
        c = []
        for _ in range(r.randint(0, 2)):
            c.append(el("nGauss", {"default": r.choice(["1", "2", "5", "0", "-1"])}) if r.random() < 0.5 else el("nGauss", {}, [["T", r.choice(["3", "3~5", "2~4~9", "-1~2", "6"])]]))
        return el("discretization", some({"type": r.choice(["lagrange", "Lagrange", "spectral", "splines", "SPLINES", "triangular", "lrsplines", "none"]),
                                          "cache_policy": r.choice(["disable", "precalc", "onthefly", "full", "maybe"])}), c)
    if k == 1:
        return el(r.choice(["restart", "Restart"]), some({"step": n(0, 9), "file": r.choice(PATHS)}), [["T", "old.hdf5"]] if r.random() < 0.5 else [])
    if k == 2:
        c = [el("class", {}, [["T", r.choice(["dense", "superlu", "umfpack", "istl", "spr", "best"])]])] if r.random() < 0.4 else []
        return el("linearsolver", some({"class": r.choice(["dense", "superlu", "UMFPACK", "umfpack", "istl", "samg"])}), c)
    if k == 3:
        c = [el(r.choice(["mode", "nev", "NEV", "ncv"]), *(({}, [["T", n(1, 30)]]) if r.random() < 0.7 else ({"value": n(1, 30)}, []))) for _ in range(r.randint(0, 3))]
        if r.random() < 0.3:
            c.append(el("shift", {}, [["T", r.choice(["0.5", "-2", "3"])]]))
        return el("eigensolver", some({"mode": n(1, 5)}), c)
    if k == 6:
        return el("messageLevel", {}, [["T", n(0, 9)]])
    c = []
    for _ in range(r.randint(1, 5)):
        m = r.randrange(9)
        if m == 0:
            c.append(el("vtfformat", some({"file": r.choice(PATHS), "nviz": n(2, 5), "nu": n(2, 9), "nv": n(2, 9), "nw": n(2, 9)}), [["T", r.choice(["ASCII", "binary", "BIN"])]] if r.random() < 0.7 else []))
        elif m == 1:
            c.append(el("stride", some({"dt": r.choice(["0.5", "0.25", "2"])}), [["T", n(1, 9)]]))
        elif m == 2:
            c.append(el("restartstride", {}, [["T", n(1, 9)]]))
        elif m == 3:
            c.append(el(r.choice(["hdf5", "HDF5"]), {}, [["T", r.choice(PATHS)]] if r.random() < 0.7 else []))
        elif m == 4:
            c.append(el(r.choice(["primarySolOnly", "saveTraction", "saveNorms", "saveLog", "residual"])))
        elif m == 5:
            c.append(el("projection", some({"type": r.choice(["global", "cgl2", "scr"])}),
                        [el(r.choice(["grvl", "cgl2", "gl2", "dgl2", "SCR", "vdsa", "quasi", "lsq", "residual", "other"]), some({"version": n(1, 2)})) for _ in range(r.randint(0, 2))]))
        elif m == 6 and r.random() < 0.2:
            c.append(el("function", {"name": "f"} if r.random() < 0.5 else {}, [["T", "1"]]))
        else:
            c.append(el(r.choice(["unknown", "stride"]), {}, []))
    return el(r.choice(["postprocessing", "Postprocessing"]), {}, c)


def cli(r):
    n = lambda a, b: str(r.randint(a, b))
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        k = r.randrange(12)
        if k == 0:
            out += [r.choice(["-dense", "-spr", "-superlu", "-superlu3", "-samg", "-umfpack", "-petsc", "-istl", "-validateGroups"])]
        elif k in (1, 2):
            out += [r.choice(["-lag", "-lagrange", "-triangle", "-spec", "-spectral", "-LR"])]
        elif k == 3:
            out += ["-nGauss", n(-2, 12)]
        elif k == 4:
            out += [r.choice(["-vtf -1", "-vtf 0", "-vtf 1", "-no-vtf"])]
        elif k == 5:
            out += [r.choice(["-nviz", "-nu", "-nv", "-nw"]), n(2, 9)]
        elif k == 6:
            out += ["-hdf5"] + ([r.choice(PATHS)] if r.random() < 0.7 else [])
        elif k == 7:
            out += ["-vtffile"] + ([r.choice(PATHS)] if r.random() < 0.8 else [])
        elif k == 8:
            out += ["-saveInc", r.choice(["0.5", "2", "0.25"])]
        elif k == 9:
            out += ["-restart", r.choice(PATHS)] + ([n(0, 9)] if r.random() < 0.5 else [])
        elif k == 10:
            out += [r.choice(["-restartInc", "-nev", "-ncv"]), n(1, 30)] if r.random() < 0.5 else ["-eig", n(1, 5)] + (["verbose"] if r.random() < 0.3 else []) if r.random() < 0.6 else ["-shift", r.choice(["0.5", "-2"])]
        else:
            out += [r.choice(["-global", "-dgl2", "-cgl2", "-scr", "-vdsa", "-residual", "-2D", "-adap", "a.xinp", "file"])]
    if not out:
        return " ".join(out).split()
    if r.random() < 0.1:
        return " ".join(out + ["-nev"]).split()
    return (" ".join(out) + (" a.xinp" if r.random() < 0.5 else "")).split()


def chain(r):
    """nested inclusion, about as deep as it gets, or endless"""
    n = r.choice([1, 3, 9, 10, 10, 11, 11, 12])
    w = ["file", "a.xinp", "ok"] + el("simulation", {}, [el("a"), ["I", "f1"], el("b")])
    for i in range(1, n + 1):
        last = i == n
        if last and r.random() < 0.2:
            nxt = [["I", r.choice(["a.xinp", "f%d" % r.randint(1, n), "gone"])]]
        else:
            nxt = [] if last else [["I", "f%d" % (i + 1)]]
        if r.random() < 0.3 and nxt:
            w += ["file", "f%d" % i, "ok"] + nxt[0]
        else:
            w += ["file", "f%d" % i, "ok"] + el(r.choice(["x", "geometry"]), {"v": str(i)}, ([el("p")] if r.random() < 0.5 else []) + nxt + ([el("q")] if r.random() < 0.5 else []))
    return w


def scenario(r):
    k = r.random()
    if k < 0.1:
        w = chain(r)
    elif k < 0.55:  # inclusion
        files = ["f%d" % i for i in range(1, r.randint(2, 5))]
        avail = files + (["gone"] if r.random() < 0.08 else [])
        w = []
        for i, f in enumerate(files):
            kind = r.choice(["ok"] * 24 + ["broken", "comment", "blank", "cut"])
            w += ["file", f, kind]
            if kind in ("ok", "cut"):
                w += tree(r, r.choice(NAMES), r.randint(0, 2), avail[i + 1:], r.random() < 0.5)
        kind = r.choice(["ok"] * 30 + ["broken", "comment", "blank", "cut"])
        name = r.choice(["a.xinp"] * 30 + ["b.xinp"])
        w += ["file", name, kind]
        if kind in ("ok", "cut"):
            c = []
            for _ in range(r.randint(0, 6)):
                x = r.random()
                c.append(["I", r.choice(avail)] if x < 0.4 else ["C", "c"] if x < 0.5 else tree(r, r.choice(NAMES), r.randint(0, 2), avail if x < 0.6 else []))
            w += el(r.choice(["simulation"] * 30 + ["Simulation", "include"]), {}, c)
    else:  # options
        c = []
        for _ in range(r.randint(0, 6)):
            c.append(option(r) if r.random() < 0.85 else el("geometry"))
        r.shuffle(c)
        w = []
        if r.random() < 0.3 and c:
            i = r.randrange(len(c))
            w += ["file", "f1", "ok"] + c[i]
            c[i] = ["I", "f1"]
        w += ["file", "a.xinp", "ok"] + el("simulation", {}, c)
    t = cli(r) if k > 0.5 else []
    if t:
        w += ["cli", len(t)] + t
    if r.random() < 0.12 and "function" not in w:
        w += ["rej", r.randint(1, 5)]
    if r.random() < 0.3:
        p = r.sample(NAMES[:6] + ["none"], r.randint(0, 4))
        w += ["prio", len(p)] + p
    if r.random() < 0.15:
        w += ["times", 2]
    return " ".join(map(str, w))


def scenarios(r, tier):
    return [scenario(r) for _ in range(900 if tier == "quick" else 9000)]


def corrupt(t, r):
    k = [j for j, e in enumerate(t["s"]) if e["op"] in ("parse", "ret")]
    e = t["s"][r.choice(k)]
    if e["op"] == "parse":
        e["x"]["n"] += "x"
    elif r.random() < 0.3:
        e["ok"] = not e["ok"]
    else:
        f = r.choice([f for f in e["opt"] if f != "proj"])
        e["opt"][f] += "1"
    return t


def tokens(x):
    if x["n"] == "":
        return ["T", x["t"].replace(" ", "~")]
    if x["n"] == "include":
        return ["I", x["c"][0]["t"]]
    return el(x["n"], {a["k"]: a["v"] for a in x["a"]}, [tokens(y) for y in x["c"]])


def convert(h):
    c, w = h["c"], []
    for f in c["files"]:
        if f["ok"]:
            w += ["file", "a.xinp" if f["f"] == c["main"] else f["f"], "ok"] + tokens(f["x"])
    w += ["prio", len(c["prio"])] + c["prio"]
    if c["cli"]:
        w += ["cli", len(c["cli"])] + [t["s"] for t in c["cli"]]
    if h["r"]:
        w += ["rej", h["r"]]
    return " ".join(map(str, w))


def called(h):
    return [x["n"] for f in h["c"]["files"] for x in f["x"]["c"]] + (["rejected"] if h["r"] else [])


CHECKS = [Check("C16", "Input", "input", ("InputTrace", "Trace.cfg"), scenarios,
                [MC("MCInput", "MC.cfg"), MC("MCInput", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="12g")],
                [Gen("MCInput", "Gen.cfg", convert, simulate=(600, 12), limit=600, ops=("geometry", "discretization", "b", "a", "include", "rejected"), opof=called),
                 Gen("MCInput", "Gen.cfg", convert, tier="thorough", simulate=(8000, 12), limit=8000, timeout=800)],
                corrupt=corrupt, extra=(),
                assumptions=["option values are canonical texts; option elements contain no comments", "flat (non-XML) input and the pre-parsing of arguments by applications are not covered"])]
