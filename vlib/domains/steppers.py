"""C21: integrators of first-order systems (Runge-Kutta, multi-step, backward differences)."""
from ..core import Check, MC, Gen

METH = {"rk": ["euler", "heun", "rk3", "rk4"], "rke": ["heuneuler", "bs", "fehlberg"],
        "ab": ["ab%d" % k for k in range(1, 6)], "am": ["am%d" % k for k in range(1, 5)]}
NAMES = "be bdf2 cn euler heun heuneuler bs fehlberg rk3 rk4 ab1 ab2 ab3 ab4 ab5 am1 am2 am3 am4 nosuch"
ORDER = {"heuneuler": 1, "bs": 2, "fehlberg": 4}


def line(c, ops):
    w = [c["kind"], c["meth"], int(c["lin"]), c["dt"], c["dtmin"], c["ics"], int(c["alone"])]
    for o in ops:
        w += ["R"] if o[0] == "R" else ["S", o[1], len(o[2])] + list(o[2])
    return " ".join(map(str, w))


def convert(h):
    return line(h["c"], h["h"])


def bdf(r, degree, order, steps):
    args = r.random() < 0.7
    first = r.choice([0, 0, 1, 2]) if degree == 2 else 0
    w = ["bdf", degree, order, first, int(args)]
    dtn = r.randint(1, 4)
    for _ in range(steps):
        dt = dtn if r.random() < 0.4 else r.randint(1, 4)
        w += [dt, dtn, r.randint(-5, 5), r.randint(-5, 5)]
        dtn = dt
        if degree == 2:
            w += [r.choice([1, 2, 4])] + [r.randint(-3, 3) for _ in range(4 + 4 + 2 + 8)]
    return " ".join(map(str, w))


def scenarios(r, tier):
    out = ["names " + NAMES]
    n = 40 if tier == "quick" else 400
    for degree in (1, 2):
        for order in range(0 if degree == 1 else 1, 4):
            for _ in range(n // 4):
                out.append(bdf(r, degree, order, r.randint(1, 6)))
    for kind, ms in METH.items():
        for m in ms:
            for lin in (0, 1):
                if kind == "am" and lin:
                    continue
                most = int(m[2]) if kind in ("ab", "am") else 1
                for ics in range(1, most + 1):
                    c = dict(kind=kind, meth=m, lin=lin, dt=r.choice([1, 2, 4]), dtmin=1, ics=ics, alone=r.random() < 0.7)
                    p = ORDER.get(m, 0)
                    out.append(line(c, [("S", 0, [])] * 6))
                    out.append(line(c, [("S", 0, [])] * r.randint(1, 3) + [("R",)] + [("S", 0, [])] * (most + 1)))
                    for fk in range(1, 28 if tier == "quick" else 60):
                        out.append(line(c, [("S", 0, [1, -p - 1] if kind == "rke" and c["dt"] > 1 and r.random() < 0.5 else [])] * r.randint(0, 2) + [("S", fk, [1, 0] if kind == "rke" else [])]))
                    if kind == "rke":
                        for dm in (1, 2):
                            for e in ([1], [1, 1], [1, 1, 1], [3, 0], [0], [-p - 1], [-2 * (p + 1)], [1, -p - 1], [2, 5, 1, 1, 1]):
                                d = r.choice([1, 2, 4]) if min(e) >= 0 else r.choice([1, 2])
                                out.append(line(dict(c, dtmin=dm, dt=d), [("S", 0, e)] + [("S", 0, r.choice([[], [0], [1, 0]]))] * 2))
    return out


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    s = t["s"][k]
    if s["op"] == "adv":
        s[r.choice(["ord", "act", "deg"])] += 1
    elif s["op"] == "names":
        s["os"]["rk4"][0] += 1
    elif s["op"] == "restart":
        s["ok"] = False
    elif s["op"] == "step":
        what = r.choice(["ok", "t", "u", "ev", "new"])
        if what == "ok":
            s["ok"] = not s["ok"]
        elif what in ("t", "u"):
            if not s["ok"] or s["hit"]:
                return None
            if what == "t":
                s["t"] += 1
            else:
                s["u"]["k"] = (s["u"]["k"] or [0])
                s["u"]["k"][r.randrange(len(s["u"]["k"]))] += 20
        else:
            if not s["ev"]:
                return None
            e = r.choice(s["ev"])
            if what == "new":
                e["new"] = not e["new"]
            else:
                e[r.choice(["t", "bc", "cv"])] += 1
    else:
        return None
    return t


CHECKS = [Check("C21", "Steppers", "steppers", ("SteppersTrace", "Trace.cfg"), scenarios,
                [MC("MCSteppers", "MC.cfg", workers=4), MC("MCSteppers", "MCbig.cfg", tier="thorough", workers=8, timeout=900)],
                [Gen("MCSteppers", "Gen.cfg", convert, simulate=(700, 12), limit=600, ops=("S", "R")),
                 Gen("MCSteppers", "Gen.cfg", convert, tier="thorough", simulate=(8000, 12), timeout=900)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["the right-hand side is evaluated by the simulator: each evaluation is a vector of its own, and the operator is the identity",
                             "step sizes are multiples of 104/1024, such that all stages are at a whole number of quanta",
                             "the coefficients of the Fehlberg tableau are compared with seven decimals"])]
