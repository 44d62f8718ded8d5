"""C01, C02: the time stepper."""
from ..core import Check, MC, Gen

U = 4096


def cfg_text(c, mode=0, graded=0):
    w = [mode, c["start"], c["stop"], c["dt0"], c["dtMin"], c["dtMax"], c["f1h"], c["f2d"], c["maxStep"], c["maxCFL"],
         c["nInit"], graded, len(c["segs"])]
    for s in c["segs"]:
        w += [s["e"], s.get("n", 0), len(s["d"])] + list(s["d"])
    return " ".join(map(str, w))


def convert(h):
    k = 64
    c = dict(h["c"])
    for f in ("start", "stop", "dt0", "dtMin", "dtMax", "maxCFL"):
        c[f] *= k
    c["segs"] = [dict(e=s["e"] * k, d=[x * k for x in s["d"]]) for s in c["segs"]]
    ops = " ".join(" ".join(map(str, o)) for o in h["h"])
    if not any(o[0] in ("inc",) for o in h["h"]):
        return None
    return cfg_text(c) + " " + ops


def random_cfg(r, restart):
    g = lambda a, b, m=256: r.randint(a, b) * m  # noqa: E731
    c = dict(start=0 if r.random() < 0.4 else g(1, 40), maxStep=0, maxCFL=0, nInit=0, f1h=3, f2d=4, segs=[],
             dtMin=U, dtMax=U, stop=0, dt0=0)
    mode, graded = 0, 0
    kind = r.random()
    t = c["start"]
    if kind < 0.2:                           # no table
        c["stop"] = t + g(8, 120)
        c["dt0"] = g(2, 40)
    elif kind < 0.3:                         # CFL controlled
        c["stop"] = t + g(60, 200)
        c["dt0"] = g(4, 16)
        c["maxCFL"] = g(2, 8, 512)
        c["nInit"] = r.randint(0, 3)
    elif kind < 0.36:
        # geometric grading with dyadic ratios: 1, .75 (.25 left) on length 2; ratio 1/2 on length 4
        c["start"] = t = r.choice([0, 4096])
        L, d = r.choice([(2 * U, [U, U // 2]), (U, [U // 2, U // 4])])
        c["segs"] = [dict(e=t + L, n=0, d=d)]
        graded = 1
        t += L
        if r.random() < 0.5:
            c["segs"].append(dict(e=t + 4 * U, n=0, d=[U // 2]))
    else:
        for k in range(r.choice([1, 2, 2, 3, 3, 4])):
            if r.random() < 0.2:
                n = r.choice([2, 3, 4, 5])
                L = n * g(1, 12)
                c["segs"].append(dict(e=t + L, n=n, d=[]))
            else:
                L = g(2, 60)
                nd = r.choice([1, 1, 2, 3, 5])
                d = [g(1, 30) for _ in range(nd)]
                if d[0] > U and d[0] % U == 0:
                    d[0] -= 256
                c["segs"].append(dict(e=t + L, n=0, d=d))
            t += L
        if r.random() < 0.15:
            mode = 1
            if r.random() < 0.3:
                c["maxCFL"] = g(2, 8, 512)
    if mode == 0:
        if not c["segs"] and r.random() < 0.2:
            c["dt0"] = c["stop"] - c["start"]   # the default increment
        mode = r.choice([0, 2, 2, 3])
        c["dtMin"] = r.choice([16, 64, 256, 4096])
        c["dtMax"] = r.choice([0, 0, c["dtMin"], 4096 * 2, 4096 * 8])
        c["f1h"] = r.choice([2, 3, 4, 4])
        c["f2d"] = r.choice([1, 2, 4])
        if r.random() < 0.2:
            c["maxStep"] = r.randint(1, 8)
    return c, mode, graded


def scenarios_for(restart):
    def scenarios(r, tier):
        out = []
        for _ in range(1500 if tier == "quick" else 12000):
            c, mode, graded = random_cfg(r, restart)
            ops, saved, steps = [], False, 0
            pc = r.choice([0, 0.1, 0.3])
            n = r.randint(4, 30)
            for _ in range(n):
                x = r.random()
                if x < 0.6:
                    ops.append("inc")
                    steps += 1
                    if r.random() < 0.5:
                        ops.append("it %d" % r.choice([1, 3, 4, 5, 10, 11, 20]))
                    if c["maxCFL"] and r.random() < 0.6:
                        ops.append("cfl %d" % r.choice([1, 2, 4, 8, 16]))
                    while r.random() < pc:
                        ops.append("cut")
                    if r.random() < 0.3:
                        ops.append("clear")
                elif x < 0.70:
                    ops.append("probe %d" % (r.randint(0, 60) * 256))
                elif restart and x < 0.82:
                    ops.append("save")
                    saved = True
                elif restart and x < 0.92 and saved:
                    ops.append("restore")
                elif restart and x < 0.96:
                    ops.append(r.choice(["copy", "assign"]))
                elif restart:
                    ops.append("reset %d" % r.choice([0, 1, 2, 3, 5]))
            if steps:
                out.append(cfg_text(c, mode, graded) + " " + " ".join(ops))
        return out
    return scenarios


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    f = r.choice(["t", "dt", "step", "ok", "fin"])
    v = t["s"][k][f]
    if t["s"][k]["op"] not in ("inc", "cut") and f == "ok":
        f, v = "t", t["s"][k]["t"]
    t["s"][k][f] = (not v) if isinstance(v, bool) else v + 1
    # the rest of the trace is beyond what the exact arithmetic covers in a few cases: cut there
    t["s"] = t["s"][:k + 1]
    return t if k < 4 else None


OPS = ("inc", "it", "cfl", "cut", "save", "restore", "copy", "reset", "clear")
MCS = [MC("MCTimeStep", "MC.cfg"),
       MC("MCTimeStep", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="8g")]
ASSUME = ["times and increments are dyadic, so that the arithmetic of the implementation is exact",
          "start time not negative and segment ends increasing"]


def keep(kind):
    def f(h):
        has = any(o[0] in ("save", "restore", "copy", "reset") for o in h["h"])
        return convert(h) if has == (kind == "C02") else None
    return f


CHECKS = [
    Check("C01", "TimeStep", "timestep", ("TimeStepTrace", "Trace.cfg"), scenarios_for(False), MCS,
          [Gen("MCTimeStep", "Gen.cfg", keep("C01"), limit=20000, ops=OPS)], corrupt=corrupt, extra=("ifem_lite.cpp",), assumptions=ASSUME),
    Check("C02", "TimeStep", "timestep", ("TimeStepTrace", "Trace.cfg"), scenarios_for(True), MCS,
          [Gen("MCTimeStep", "Gen.cfg", keep("C02"), limit=4000, ops=OPS)], corrupt=corrupt, extra=("ifem_lite.cpp",), assumptions=ASSUME),
]
