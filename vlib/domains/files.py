"""C12: restart files and result files."""
from ..core import Check, MC, Gen


def restart(r, n, w):
    slots = {}
    for s in range(2):
        if s == 0 or r.random() < 0.5:
            slots[s] = r.choice([0, 0, 0, 1, 2])
            w.append("new %d %d %d %d" % (s, slots[s], r.randint(1, 3), r.choice([0, 0, 0, 1, 3, 9])))
    for _ in range(n):
        s = r.choice(list(slots))
        x = r.random()
        if x < 0.35:
            ks = r.sample(range(6), r.choice([0, 1, 2, 3, 4, 6]))
            w.append("wr %d %d " % (s, len(ks)) + " ".join("%d %d" % (k, r.choice([0, 1, 2, 3, 5, 8, 20, 39])) for k in ks))
        elif x < 0.70:
            w.append("rd %d %d %d %d" % (s, r.choice([-1, -1, -1, 0, 1, 2, 3, 4, 10, 11]), r.choice([0, 0, 1]), r.choice([-1, -1, 0, 3])))
        elif x < 0.82:
            w.append("due %d %d" % (s, r.randint(0, 9)))
        elif x < 0.92:
            w.append("new %d %d %d %d" % (s, slots[s], r.randint(1, 3), r.choice([0, 0, 1, 2, 5, 10])))
        else:
            w.append("bad %d 1 %d" % (slots[s], r.choice([0, 0, 1, 2])))


def results(r, n, w):
    slots = {}
    nxt, done = {}, []
    special = r.random() < 0.3
    seq = r.random() < 0.5
    val = lambda: r.randint(0, 17) if special else r.randint(0, 9)
    for s in range(2):
        if s == 0 or r.random() < 0.4:
            slots[s] = r.choice([0, 0, 1, 2])
            nxt[s] = r.choice([0, 0, 3])
            w.append("wnew %d %d %d" % (s, slots[s], r.randint(0, 1)))
    for _ in range(n):
        s = r.choice(list(slots))
        x = r.random()
        lev = r.choice(done) if done and r.random() < 0.6 else r.choice([0, 0, 1, 1, 2, 3, 4, 11])
        if x < 0.35:
            if seq:
                lev = nxt[s]
                nxt[s] += 1
            fs = []
            done.append(lev)
            for nm in r.sample(range(3), r.randint(0, 3)):
                k = r.choice([0, 1, 1, 2, 3, 6])
                fs.append("%d %d %d %d %s" % (nm, r.randint(0, 1), k, int(r.random() < 0.85), " ".join(str(val()) for _ in range(k))))
            w.append("lev %d %d %d %d %s" % (s, lev, r.choice([-1, val()]), len(fs), " ".join(fs)))
        elif x < 0.65:
            w.append("get %d %d %d %d" % (slots[s], lev, r.randint(0, 2), r.randint(0, 1)))
        elif x < 0.72:
            w.append("tim %d %d" % (slots[s], lev))
        elif x < 0.80:
            w.append("last %d" % s)
        elif x < 0.84:
            w.append("log %d %d" % (s, r.choice([1, 2, 5])))
        elif x < 0.88:
            w.append("str %d" % slots[s])
        elif x < 0.96:
            w.append("wnew %d %d %d" % (s, slots[s], int(r.random() < 0.7)))
        else:
            w.append("bad %d 0 %d" % (slots[s], r.choice([0, 0, 1, 2])))


def scenarios(r, tier):
    out = []
    for k in range(500 if tier == "quick" else 8000):
        w = []
        n = r.randint(3, 14 if tier == "quick" else 30)
        (restart if k % 2 else results)(r, n, w)
        out.append(" ".join(w))
    return out


def corrupt(t, r):
    st = [s for s in t["s"][1:] if s["op"] in ("rd", "due", "wr", "get", "tim", "last", "str")]
    if not st:
        return None
    s = r.choice(st)
    if s["op"] == "rd" and s["d"] and r.random() < 0.6:
        s["d"][r.randrange(len(s["d"]))][1] += 1
    elif s["op"] == "get" and s["r"] and r.random() < 0.6 and max(s["v"]) < 10:
        k = r.randrange(len(s["v"]))
        s["v"][k] = (s["v"][k] + 1) % 10
    elif s["op"] == "tim" and s["r"]:
        s["v"] += 1
    elif isinstance(s["r"], bool):
        s["r"] = not s["r"]
    else:
        s["r"] += 1
    return t


def convert(h):
    """Each operation is followed by reading what is there."""
    w = []
    app = {}
    used = set()
    for o in h["h"]:
        k = o[1] - 1 if o[0] not in ("bad",) else 0
        if o[0] == "new":
            w.append("new %d 0 %d %d" % (k, o[2], o[3]))
            used.add(k)
        elif o[0] == "due":
            w.append("due %d %d" % (k, o[2]))
        elif o[0] == "wr":
            d = o[2] if isinstance(o[2], dict) else dict(enumerate(o[2])) if o[2] else {}
            w.append("wr %d %d " % (k, len(d)) + " ".join("%s %d" % x for x in d.items()))
        elif o[0] == "bad":
            w.append("bad 0 %d %d" % (o[1], o[2]))
        elif o[0] == "wnew":
            w.append("wnew %d 0 %d" % (k, o[2]))
        elif o[0] == "lev":
            w.append("lev %d %d %d %d " % (k, o[2], o[4], len(o[3])) + " ".join(
                "%d %d %d %d %s" % (f["n"], f["int"], len(f["v"]), f["en"], " ".join(map(str, f["v"]))) for f in o[3]))
        elif o[0] == "log":
            w.append("log %d %d" % (k, o[2]))
        if o[0] in ("new", "wr", "bad") and used:
            w.append("rd %d -1 0 -1" % min(used))
        if o[0] in ("lev", "wnew", "log"):
            w.append("last %d" % k)
    for x in used:
        w += ["rd %d %d %d 7" % (x, l, b) for l in range(3) for b in range(2)]
    w += ["get 0 %d %d %d" % (l, f, b) for l in range(2) for f in range(2) for b in range(2)] + ["tim 0 0", "tim 0 1", "str 0"]
    return " ".join(w)


CHECKS = [Check("C12", "Files", "files", ("FilesTrace", "Trace.cfg"), scenarios,
                [MC("MCFiles", "MC.cfg"), MC("MCFiles", "MCres.cfg"), MC("MCFiles", "MCbig.cfg", tier="thorough", workers=8, timeout=800),
                 MC("MCFiles", "MCresbig.cfg", tier="thorough", workers=8, timeout=800)],
                [Gen("MCFiles", "Gen.cfg", convert, simulate=(60, 12), limit=900, ops=("new", "due", "wr", "bad", "wnew", "lev", "log")),
                 Gen("MCFiles", "Gen.cfg", convert, tier="thorough", simulate=(1000, 12), limit=20000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",), assumptions=["one process; names without slashes"])]
