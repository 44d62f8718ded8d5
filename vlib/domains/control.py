"""C23: control of a running simulation through a named pipe."""
from ..core import Check, MC, Gen


def convert(h):
    w = []
    for o in h["h"]:
        if o[0] == "open":
            w += ["open", 0]
        elif o[0] == "send":
            w += ["send", 0, o[1], len(o[2])] + [x for m in o[2] for x in m]
        else:
            w += list(o)
    return " ".join(map(str, w))


def history(r):
    w, v, waiting, isopen = [], 0, 0, False
    names = ["datawriter", "a", "b", "timestepping", "A"]
    if r.random() < 0.9:
        for _ in range(r.randint(1, 3)):
            w += ["reg", r.randint(1, 4), r.choice(names)]
    for _ in range(r.randint(3, 16)):
        x = r.random()
        if not isopen:
            how = r.choice([0, 0, 0, 0, 1, 2, 3])
            w += ["open", how]
            isopen = how < 2
            waiting = 0
            if not isopen:
                w += ["poll", "close"]
        elif x < 0.5:
            bad = r.random() < 0.08
            n = r.choice([0, 1, 1, 1, 2, 3, 5])
            pad = r.choice([0, 0, 0, 10, 500, 1950 + r.randint(0, 110), 2000 + r.randint(-30, 60), 2048, 3000, 4100, 9000])
            if waiting + pad + 300 > 50000:
                continue
            if bad:
                w += ["poll"]
                waiting = 0
            cmds = []
            for _ in range(n):
                v += 1
                cmds += [r.choice(names + ["nobody"]), v]
            w += ["send", 2 if bad else r.choice([0, 0, 1, 3]), pad, n] + cmds
            waiting += pad + 300
            if bad:
                w += ["poll"]
                waiting = 0
        elif x < 0.85:
            w += ["poll"]
            waiting = 0
        elif x < 0.95:
            w += ["reg", r.randint(1, 4), r.choice(names)]
        else:
            w += ["close"]
            isopen = False
    w += ["poll", "poll"]
    return " ".join(map(str, w))


def scenarios(r, tier):
    return [history(r) for _ in range(400 if tier == "quick" else 6000)]


def corrupt(t, r):
    s = r.choice(t["s"][1:])
    if s["op"] == "poll" and s["got"]:
        k = r.randrange(len(s["got"]))
        what = r.choice(["drop", "value", "who", "twice"])
        if what == "drop":
            del s["got"][k]
        elif what == "twice":
            s["got"].append(s["got"][k])
        else:
            s["got"][k][0 if what == "who" else 2] += 50
        return t
    if s["op"] == "open" and s["possible"]:
        s["ok"] = False
        return t
    return None


CHECKS = [Check("C23", "Control", "control", ("ControlTrace", "Trace.cfg"), scenarios,
                [MC("MCControl", "MC.cfg", workers=4), MC("MCControl", "MCbig.cfg", tier="thorough", workers=8, timeout=900)],
                [Gen("MCControl", "Gen.cfg", convert, simulate=(300, 16), limit=250, ops=("open", "reg", "send", "poll", "close")),
                 Gen("MCControl", "Gen.cfg", convert, tier="thorough", simulate=(4000, 16), timeout=900)],
                corrupt=corrupt, scratch=True,
                assumptions=["messages are written at once; the commands waiting at a poll fit in the pipe",
                             "what happens to messages which wait together with a malformed one is not decided"])]
