"""C06, C07: equation systems on the ISTL format (iterative solution with re-used preconditioners)."""
from ..core import Check, MC, Gen
from .matrix import lst

LISTS = {"sam": (2,), "sol": (1,)}
OPS = ("new", "iam", "init", "inz", "sam", "end", "cpy", "sol")


def convert(h):
    c = h["c"]
    n = sum(map(len, h["h"]))
    w = [c["type"], c["pc"], c["reset"], c["maxits"], 1 + n % 3, c["slots"], len(c["mesh"])]
    for m in c["mesh"]:
        w += [m["nn"], len(m["elms"])]
        for e in m["elms"]:
            w += lst(e)
        w += lst(m["fixed"])
    for op, s, a in h["h"]:
        w += [op, s]
        for k, x in enumerate(a):
            w += lst(x) if k in LISTS.get(op, ()) else [x]
    return " ".join(map(str, w))


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    s = t["s"][k]
    what = r.choice(["ok", "dim", "out", "norm"])
    if what == "ok":
        if s["op"] == "sol":
            return None
        s["ok"] = not s["ok"]
    elif what == "norm":
        if s["op"] != "end":
            return None
        s["norm"] += 1
    elif what == "out":
        if s["op"] != "sol" or not s["ok"] or not s["out"]:
            return None
        i = r.randrange(len(s["out"]))
        if s["b"][i] == 0:  # may be an equation with the large coefficient
            return None
        s["out"][i] += 50
    else:
        if s["op"] == "sol":
            return None
        s["dim"] += 1
    return t


ARGS = dict(corrupt=corrupt, extra=("ifem_lite2.cpp",), tag="istl",
            assumptions=["element contributions are integers, and the equations solved have integer solutions",
                         "solutions have to be found when the coefficients are diagonally dominant, and the method is GMRES with sufficiently many iterations or the preconditioner is their LU-factorisation; otherwise only an answer claimed to be one is judged"])
CHECKS = [Check("C07", "Istl", "istl", ("IstlTrace", "Trace.cfg"), None,
                [MC("MCIstl", "MC.cfg", workers=6), MC("MCIstl", "MCbig.cfg", tier="thorough", workers=8, timeout=900)],
                [Gen("MCIstl", "Gen.cfg", convert, simulate=(900, 26), limit=600, ops=OPS),
                 Gen("MCIstl", "Gen.cfg", convert, tier="thorough", simulate=(8000, 26), timeout=900)], **ARGS),
          Check("C06", "Istl", "istl", ("IstlTrace", "Trace.cfg"), None, [],
                [Gen("MCIstl", "Gen.cfg", convert, simulate=(300, 26), limit=200, ops=OPS),
                 Gen("MCIstl", "Gen.cfg", convert, tier="thorough", simulate=(2000, 26), timeout=900)], **ARGS)]
