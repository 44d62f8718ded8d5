"""C13: export of result fields."""
from ..core import Check, MC, Gen


def scenarios(r, tier):
    out = []
    for _ in range(600 if tier == "quick" else 10000):
        real = int(r.random() < 0.3)
        nw = r.choice([0, 1, 1, 2, 3])
        lv = r.choice([-1, -1, 0, 3])
        w = [nw, r.choice([1, 1, 2, 3, 5]), 0 if real else r.choice([0, 0, 0, 1, 4]), real]
        w += [-1 if real else lv if r.random() < 0.8 else r.randint(-1, 4) for _ in range(nw)]
        types = {}

        def reg(n):
            ty = r.choice([0, 1, 0, 1, 9] if real else [0, 1, 2, 3, 3, 4, 5, 9])
            types.setdefault(n, ty)
            return ["reg", n, ty, r.choice([1, 1, 33, 32, -33, 5, 64, 96, 128]), r.randint(0, 2), r.randint(0, 2)]

        def val(n, none):
            return ["val", n, -1 if none else r.randint(0, 7), int(types.get(n, 0) == 1), r.choice([-1, r.randint(0, 7)])]
        for n in r.sample(range(4), r.randint(0, 4)):
            w += reg(n)
            if r.random() < 0.95:
                w += val(n, r.random() < 0.03)
        step = r.choice([0, 0, 1, 3])
        mode = r.choice([0, 0, 0, 1, 2])  # with steps, without, mixed
        for _ in range(r.randint(2, 9)):
            x = r.random()
            if x < 0.65:
                st = -1 if mode == 1 or (mode == 2 and r.random() < 0.5) else step
                step += r.choice([1, 1, 1, 0, 2, 4])
                w += ["dump", st, r.randint(0, 90), int(r.random() < 0.8), int(r.random() < 0.3)]
            elif x < 0.75:
                n = r.randrange(4)
                w += reg(n)
                if r.random() < 0.8:
                    w += val(n, False)
            elif x < 0.87:
                w += val(r.randrange(4), r.random() < 0.1)
            elif x < 0.97:
                w += ["ctl", r.randint(0, 1), r.randrange(4)]
            else:
                w += ["ctl", 2, r.randint(1, 4)]
        out.append(" ".join(map(str, w)))
    return out


def corrupt(t, r):
    st = [s for s in t["s"][1:] if s["op"] == "dump"]
    if not st:
        return None
    s = r.choice(st)
    if s["ev"] and r.random() < 0.6:
        e = r.choice(s["ev"])
        if "on" in e and r.random() < 0.5:
            e["on"] = not e["on"]
        else:
            e["l"] += 1
    elif r.random() < 0.5:
        s["r"] = not s["r"]
    elif s["ev"]:
        s["ev"].pop(r.randrange(len(s["ev"])))
    else:
        return None
    return t


def convert(h):
    w = [2, 1, 0, 0, -1, -1] + ["ctl", 2, h["st"]]
    ty = {}
    for o in h["h"]:
        if o[0] == "reg":
            ty.setdefault(o[1], o[2])
            w += ["reg", o[1], o[2], o[3], 0, 0]
        elif o[0] == "val":
            w += ["val", o[1], o[2], 0, -1]
        elif o[0] == "ctl":
            w += ["ctl", 1 - o[2], o[1]]
        elif o[0] == "str":
            w += ["ctl", 2, o[1]]
        else:
            w += ["dump", o[1], max(0, o[1]), int(o[1] >= 0), int(o[2])]
    return " ".join(map(str, w))


CHECKS = [Check("C13", "Exporter", "exporter", ("ExporterTrace", "Trace.cfg"), scenarios,
                [MC("MCExporter", "MC.cfg"), MC("MCExporter", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="8g")],
                [Gen("MCExporter", "Gen.cfg", convert, simulate=(80, 11), limit=900, ops=("reg", "val", "ctl", "str", "dump")),
                 Gen("MCExporter", "Gen.cfg", convert, tier="thorough", simulate=(1500, 11), limit=20000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",), assumptions=["one process"])]
