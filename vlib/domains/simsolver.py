"""C11: the simulation drivers, their output and restart."""
from ..core import Check, MC, Gen


def scheme(r, kind):
    start = r.choice([0, 0, 0, 32, 64])
    w = [start]
    if r.random() < 0.5:
        n = r.randint(1, 9)
        dt = r.choice([4, 8, 16, 64, 24])
        stop = start + dt * n + r.choice([0, 0, 0, 2])
        w += [0, r.choice([0, 0, 0, 3, 5]), stop, dt]
    else:
        segs = []
        e = start
        for _ in range(r.randint(1, 3)):
            d = [r.choice([4, 8, 12, 16, 32]) for _ in range(r.randint(1, 3))]
            e += sum(d) + r.choice([0, 0, d[-1], 3 * d[-1], 2])
            segs.append((e, d))
        w += [len(segs), r.choice([0, 0, 0, 4])]
        for e, d in segs:
            w += [e, len(d)] + d
        stop = e
    return w, start, stop


def scenarios(r, tier):
    out = []
    for _ in range(420 if tier == "quick" else 5000):
        kind = r.choice(["sol"] * 4 + ["ts"] * 4 + ["stat", "adi"])
        w, start, stop = scheme(r, kind)
        w = [kind] + w
        ts = kind == "ts"
        w += [int(r.random() < 0.4), r.randint(1, 3), r.randint(1, 3), r.choice([1, 1, 2, 3, -1, -2, 0]), r.choice([2, 2, 1, 3]),
              r.choice([0, 0, 1, 2]) if ts else 0, start + r.choice([-64, -64, 0, (stop - start) // 3, (stop - start) // 2])]
        save = r.choice([1, 1, 2, 3])
        rst = r.choice([0, 1, 2]) * save if r.random() < 0.6 else r.randint(0, 3)
        for n in range(r.randint(1, 4)):
            if n and r.random() < 0.15:
                save = r.choice([0, 1, 2])
            x = r.random()
            frm = -1 if n == 0 or x < 0.12 else 0 if x < 0.55 else r.randint(1, 4)
            if kind in ("stat", "adi"):
                frm = -1
            y = r.random()
            f, k = "-", 0
            if y < 0.45:
                f, k = "crash", r.randint(1, 9)
            elif y < 0.8:
                f = r.choice(["model", "save", "solve", "noexp", "ser", "save", "solve"] + (["prefine", "irefine", "model"] if ts else ["adv"] if kind == "sol" else [])
                             + (["init", "solvei", "norms", "enorm", "proj"] * 2 if kind == "adi" else []) + (["deser"] if frm >= 0 else []))
                k = 1 if f in ("prefine", "irefine", "deser", "init") else r.randint(1, 7)
            ad = [r.choice([0, 0, 1, 2, 1] + ([-1] if r.random() < 0.2 else [])) for _ in range(r.randint(0, 10))]
            if kind == "adi":
                ad = [1] * r.randint(0, 5)
            w += ["run", save, rst, frm, int(r.random() < 0.06), f, k, len(ad)] + ad
        out.append(" ".join(map(str, w)))
    return out


def corrupt(t, r):
    if t["c"]["kind"] == "ts" and sum(e["op"] == "run" for e in t["s"]) > 1:
        return None
    c = [k for k, e in enumerate(t["s"]) if e["op"] in ("call", "end", "read", "restart")]
    if not c:
        return None
    k = r.choice(c)
    e = t["s"][k]
    if e["op"] == "call":
        x = r.random()
        if x < 0.3 and e["f"] not in ("adapt", "adapti", "ser"):
            t["s"].insert(k, dict(e))
        elif x < 0.6 and k + 1 < len(t["s"]) and e["f"] != "deser":
            t["s"].pop(k)
        elif e["a"] and e["f"] not in ("deser", "prefine"):
            e["a"][r.randrange(len(e["a"]))] += 1
        else:
            return None
    elif e["op"] == "end":
        e["r"] += 1
    else:
        e["ok"] = not e["ok"]
    return t


def convert(h):
    c = h["c"]
    w = [c["kind"], c["start"], len(c["segs"]), c["maxStep"]]
    for g in c["segs"]:
        w += [g["e"], len(g["d"])] + g["d"]
    if not c["segs"]:
        w += [c["stop"], c["dt0"]]
    w += [int(c["div"]), c["fwd"], c["prd"], c["mxp"], c["mxr"], c["pre"], c["aStart"]]
    for r in h["h"]:
        w += ["run", r["save"], r["rst"], r["from"], 0, r["f"], r["k"], len(r["ad"])] + r["ad"]
    return " ".join(map(str, w))


def called(h):
    return [h["c"]["kind"]] + [r["f"] for r in h["h"]] + ["restart" for r in h["h"] if r["from"] >= 0]


CHECKS = [Check("C11", "SimSolver", "simsolver", ("SimSolverTrace", "Trace.cfg"), scenarios,
                [MC("MCSimSolver", "MC.cfg"), MC("MCSimSolver", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="10g")],
                [Gen("MCSimSolver", "Gen.cfg", convert, simulate=(400, 160), limit=500,
                     ops=("sol", "ts", "-", "crash", "save", "solve", "restart"), opof=called),
                 Gen("MCSimSolver", "Gen.cfg", convert, tier="thorough", simulate=(6000, 200), limit=20000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["the solver is a stand-in with one number as its solution; the output writer records what it is asked to write",
                             "one process; a crash is an exception out of the solution step, after which the restart file is read by a new driver"])]
