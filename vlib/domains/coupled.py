"""C14: coupled simulators."""
from ..core import Check, MC, Gen


def coupled(r, kind):
    w = [kind]
    if kind == "semi":
        np = r.randint(1, 4)
        w += [np]
        parts = list(range(1, np + 1))
        ops = ["pre", "adv", "init", "ic", "solve", "ale", "sys", "setdep", "dep3", "dep6", "regf", "null", "save", "save"]
        scr = ["pre", "adv", "init", "ic", "solve", "ale"]
    else:
        parts = [1, 2, 3] if kind == "n" else [1, 2]
        ops = ["pre", "adv", "init", "ic", "ser", "des", "save", "model", "solve", "solve", "stag", "dep3", "dep6", "regf", "hasic", "getf", "upc", "cps", "svp", "name"]
        scr = ["pre", "adv", "init", "ic", "ser", "des", "save", "model", "solve", "hasic", "getf", "cps"]
    om = ait = 0
    if kind == "si":
        mode = r.choice([1, 1, 1, 2, 3, 0])
        om = r.choice([0, 0, 32, 32, 64, 128, 96, 16])
        ait = int(om != 0 and r.random() < 0.5)
        w += [mode, r.randint(0, 4 if om else 9), om, ait]
        ops += ["solve"] * 12 + ["stag"]
    step = 0
    for _ in range(r.randint(2, 16)):
        f = r.choice(ops)
        for s in parts:
            if r.random() < 0.25:
                g = f if f in scr else r.choice(scr)
                if kind != "si" or g != "solve":
                    w += ["res", s, g, 1, int(r.random() < 0.4)]
        if kind == "si" and f == "solve":
            n = r.randint(0, 6)
            for s in (1, 2):
                st = [r.choice([2, 3, 3, 3, 4] if r.random() < 0.93 else [0, 1]) for _ in range(n)]
                if st:
                    w += ["res", s, "it", n] + st
            if r.random() < 0.25:
                o = [r.choice([-1, -1, 2, 3, 4, 3, 1, 0]) for _ in range(n)]
                if o:
                    w += ["res", 0, "over", n] + o
            if ait:
                x = r.choice([16, 32, -64, 48])
                rs = [x]
                for _ in range(n):
                    k = r.random()
                    if k < 0.1:
                        x = 0
                    elif k < 0.2:
                        pass
                    else:
                        x = x * r.choice([-2, 2, 4, 1, -4, 6]) // r.choice([2, 4, 2])
                    rs.append(x)
                w += ["res", 0, "res", len(rs)] + rs
        if r.random() < 0.5:
            step += r.choice([1, 1, 1, 2, -1 if step else 1])
            w += ["step", step, r.choice([0, 100])]
        w.append(f)
        if f in ("solve", "stag"):
            w.append(r.randint(0, 1))
        elif f == "dep3":
            w += [r.randint(-2, 3)] if kind == "semi" else [r.choice(parts), r.randint(-2, 3)]
        elif f == "dep6":
            w += ([r.randint(1, 3), r.randint(0, 2), r.randint(0, 3)] if kind == "semi"
                  else [r.choice(parts), r.randint(1, 3), r.randint(0, 3), r.randint(0, 2), r.randint(0, 3)])
        elif f in ("upc", "cps"):
            w.append(r.randint(0, 5))
        elif f == "svp":
            w += [r.randint(0, 5), r.randint(-1, 3)]
        elif f == "name":
            w.append(r.randint(0, 3))
        elif f == "null":
            w += [r.choice(parts), r.randint(0, 1)]
    return w


def fields(r):
    w = ["dep"]
    val = lambda: r.choice([[], [r.randint(1, 99) for _ in range(12)], [r.randint(1, 99) for _ in range(14)]])
    names = ["a", "b", "c"]
    for v in range(5):
        if r.random() < 0.85:
            x = val()
            w += ["val", v, len(x)] + x
    for s in (1, 2, 3):
        for n in names:
            if r.random() < 0.6:
                w += ["field", s, n, r.randrange(5)]
            if r.random() < 0.6:
                w += ["vec", s, n]
    for _ in range(r.randint(3, 20)):
        x = r.random()
        s, n = r.randint(1, 3), r.choice(names)
        if x < 0.35:
            mode = r.randint(0, 2)
            p = [r.randint(1, 3) for _ in range(r.randint(0, 3))] if mode else []
            w += ["dep", s, n, r.randint(1, 3), r.choice([1, 1, 2, -2]), mode, len(p)] + p
            if mode == 1:
                w += [r.choice([0, 0, 1]), r.randint(1, 3)]
        elif x < 0.45:
            w += ["depf", s, n]
        elif x < 0.55:
            w += ["getf", s, n, r.randint(0, 1)]
        elif x < 0.62:
            v = val()
            w += ["fill", s, n, len(v)] + v
        elif x < 0.67:
            v = val()
            w += ["val", r.randrange(5), len(v)] + v
        elif x < 0.72:
            w += ["field", s, n, r.randrange(5)]
        elif x < 0.8:
            w += ["dpat", s, n, r.randint(-1, 3)]
        else:
            w += ["ext", s, n, r.randint(0, 2)]
    return w


def scenarios(r, tier):
    out = []
    for _ in range(700 if tier == "quick" else 8000):
        kind = r.choice(["si"] * 5 + ["c", "n", "semi", "dep", "dep", "dep"])
        out.append(" ".join(map(str, fields(r) if kind == "dep" else coupled(r, kind))))
    return out


def corrupt(t, r):
    k = [j for j, e in enumerate(t["s"]) if e["op"] in ("call", "ret", "ext", "depf", "dpat", "fill")]
    if not k or t["c"]["kind"] == "si" and t["c"]["om"]:
        return None
    j = r.choice(k)
    e = t["s"][j]
    if e["op"] == "call":
        if r.random() < 0.5:
            t["s"].insert(j, dict(e))
        else:
            e["s"] += 1
    elif e["op"] == "ret":
        e["ok"] += 1
    elif e["op"] == "dpat":
        e["r"] += 1
    elif e["op"] == "fill":
        e["ok"] = not e["ok"]
    elif e["op"] == "depf":
        e["x"] = e["x"] + [4]
    else:
        e["ok"] = not e["ok"]
    return t


def convert(h):
    c = h["c"]
    k = c["kind"]
    w = [k] + ([c["np"]] if k == "semi" else [c["mode"], c["n"], c["om"], int(c["ait"])] if k == "si" else [])
    for o in h["h"]:
        for s, f, r, z in o["r"]:
            if f == "chk":
                w += ["res", 0, "over", 1, r] + (["res", 0, "res", 1, z] if c["ait"] else [])
            elif f == "it" or r == 0:
                w += ["res", s, f, 1, r]
        w += ["step", o["step"], 100, o["f"]] + (o["a"] if o["a"] else [])
    return " ".join(map(str, w))


def called(h):
    return [h["c"]["kind"]] + [o["f"] for o in h["h"]] + ["fail" for o in h["h"] if any(x[2] == 0 for x in o["r"])]


CHECKS = [Check("C14", "Coupled", "coupled", ("CoupledTrace", "Trace.cfg"), scenarios,
                [MC("MCCoupled", "MCbig.cfg"), MC("MCCoupled", "MCsibig.cfg"),
                 MC("MCCoupled", "MChuge.cfg", tier="thorough", workers=8, timeout=800, heap="12g")],
                [Gen("MCCoupled", "Gen.cfg", convert, simulate=(500, 90), limit=500, ops=("c", "n", "si", "semi", "solve", "save", "model", "null", "fail"), opof=called),
                 Gen("MCCoupled", "Gen.cfg", convert, tier="thorough", simulate=(8000, 120), limit=12000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["the parts are stand-ins with one number as their solution"])]
