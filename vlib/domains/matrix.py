"""C06: matrix assembly and algebra on all storage formats; C07: solution of equation systems."""
from ..core import Check, MC, Gen

LISTS = {"raw": (0, 1), "sam": (1,), "mvp": (0,), "sol": (2,), "spl": (0,)}
OPS = ("new", "set", "raw", "sam", "init", "iam", "inz", "end", "pre", "cmp", "lck", "rsz", "rdm", "aug", "trc", "mul",
       "adm", "ads", "mvp", "sol", "cpy", "spl", "col", "csr", "dmp", "lod")


def lst(q):
    return [len(q)] + list(q)


def convert(h):
    c = h["c"]
    w = [c["nn"], len(c["elms"])]
    for e in c["elms"]:
        w += lst(e)
    w += lst(c["fixed"]) + [c["thr"], c["slots"]]
    for op, s, a in h["h"]:
        w += [op, s]
        if op == "pre":
            w.append(len(a[0]))
            for e in a[0]:
                w += lst(e)
        else:
            for k, x in enumerate(a):
                w += lst(x) if k in LISTS.get(op, ()) else [x]
    return " ".join(map(str, w))


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    s = t["s"][k]
    what = r.choice(["ok", "zero", "dim", "out"])
    live = [m for m in s["m"] if m["r"] > 0]
    if what == "ok":
        s["ok"] = not s["ok"]
    elif what == "out":
        if not isinstance(s["out"], list) or not s["out"] or isinstance(s["out"][0], list):
            return None
        if s["op"] == "sol" and not s["ok"]:
            return None
        s["out"][r.randrange(len(s["out"]))] += 1
    elif not live:
        return None
    elif what == "zero":
        m = r.choice(live)
        m["zero"] = not m["zero"]
    else:
        m = r.choice(live)
        m["k"] += 1
    return t


TRACE = ("MatrixTrace", "Trace.cfg")
ASSUME = ["element contributions and factors are small integers, so that all values are exact",
          "operations are used within their contracts (the pattern is only extended while it is open, a factorised matrix is initialised before new coefficients are added)"]
CHECKS = [Check("C06", "Matrix", "matrix", TRACE, None,
                [MC("MCMatrix", "MC.cfg", workers=6), MC("MCMatrix", "MCbig.cfg", tier="thorough", workers=8, timeout=900)],
                [Gen("MCMatrix", "Gen.cfg", convert, simulate=(800, 45), ops=OPS),
                 Gen("MCMatrix", "GenPat.cfg", convert, simulate=(700, 28), ops=("set", "raw", "cmp", "adm")),
                 Gen("MCMatrix", "Gen.cfg", convert, tier="thorough", simulate=(12000, 45), timeout=900)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",), scratch=True, assumptions=ASSUME),
          Check("C07", "Matrix", "matrix", TRACE, None, [],
                [Gen("MCMatrix", "GenSolve.cfg", convert, simulate=(1200, 35), ops=("sol", "init", "iam", "cmp", "end")),
                 Gen("MCMatrix", "GenSolve.cfg", convert, tier="thorough", simulate=(15000, 35), timeout=900)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",), scratch=True, assumptions=ASSUME)]
