"""C22: systems of several matrices and vectors, static condensation, nodal forces, norms and block matrices."""
from ..core import Check, MC, Gen


def ilist(v):
    return [len(v)] + list(v)


def elem(el):
    return [el["e"], int(el["lhs"]), int(el["rhs"]), len(el["A"]), len(el["b"]), len(el["c"])] + [x for m in el["A"] for x in m] + [x for v in el["b"] for x in v] + list(el["c"])


def line(c, ops, typ="dense", thr=1):
    w = ["sys", thr, c["nn"], c["nf"], len(c["elms"])]
    for e in c["elms"]:
        w += ilist(e)
    w += ilist(c["fix"]) + [len(c["pres"])]
    for p in c["pres"]:
        w += list(p)
    w += [typ, c["nA"], c["nB"], c["nC"], int(c["reac"])]
    for o in ops:
        if o[0] == "elm":
            w += ["elm", o[1], o[3] if len(o) > 3 else 0] + elem(o[2])
        elif o[0] == "con":
            w += ["con", o[1], o[2]] + ilist(o[3]) + ilist(o[4])
        elif o[0] == "frc":
            w += ["frc"] + ilist(o[1]) + [len(o[2])]
            for e in o[2]:
                w += elem(e)
        else:
            w += list(o)
    return " ".join(map(str, w))


def convert(h):
    ops = [tuple(o) for o in h["h"]]
    return line(h["c"], ops, "sparse" if any(o[0] == "con" for o in ops) or len(ops) % 2 else "dense")


def config(r):
    nn, nf = r.randint(2, 5), r.choice([1, 1, 2, 3])
    elms = [r.sample(range(1, nn + 1), r.randint(1, min(3, nn))) for _ in range(r.randint(1, 4))]
    used = sorted({(n - 1) * nf + d for e in elms for n in e for d in range(1, nf + 1)})
    r.shuffle(used)
    k = r.choice([0, 0, 1, 2])
    nfix, npre = min(k, len(used) - 1), r.choice([0, 0, 1, 2])
    fix = sorted(used[:nfix])
    pre = [[d, r.randint(-2, 3)] for d in used[nfix:max(nfix, min(nfix + npre, len(used) - 1))]]
    nA = r.choice([1, 1, 1, 2, 3])
    nB = r.randint(1, 3)
    return dict(nn=nn, nf=nf, elms=elms, fix=fix, pres=pre, nA=nA, nB=nB, nC=r.randint(0, 2), reac=r.random() < 0.6 and nA == 1)


def element(r, c, rhs):
    e = r.randint(1, len(c["elms"]))
    m = len(c["elms"][e - 1]) * c["nf"]
    lhs = r.random() < 0.8
    mA = r.randint(1 if lhs else 0, c["nA"])
    mb = r.randint(1, c["nB"] + 1) if c["nA"] == 1 else r.randint(0 if mA else 1, c["nB"] + 1)
    v = lambda k: [r.randint(-3, 4) for _ in range(k)]
    A = []
    for _ in range(mA):
        a = v(m * m)
        for i in range(m):
            a[i * m + i] += 6
        A.append(a)
    return dict(e=e, lhs=lhs, rhs=rhs or r.random() < 0.15, A=A, b=[v(m) for _ in range(mb)], c=v(r.randint(0, c["nC"])))


def history(r, thr=1):
    c = config(r)
    ops, ph, assoc = [], {1: "none", 2: "none"}, {1: {}, 2: {}}
    con = 0
    for _ in range(r.randint(8, 22)):
        s = r.choice([1, 1, 2])
        o = 3 - s
        p = ph[s]
        if p == "none":
            if ph[o] == "fin" and r.random() < 0.5:
                ops.append(("cpy", s, o)); ph[s] = "fin"; assoc[s] = {1: 1} if c["nA"] == 1 else {}
            else:
                ops.append(("new", s)); ph[s] = "new"; assoc[s] = {1: 1} if c["nA"] == 1 else {}
                if c["nA"] > 1:
                    for a in range(1, c["nA"] + 2):
                        if r.random() < 0.7:
                            b = r.randint(1, c["nB"] + (r.random() < 0.1))
                            ops.append(("asc", s, a, b))
                            if a <= c["nA"] and b <= c["nB"]:
                                assoc[s][a] = b
        elif p == "new":
            ops.append(("ini", s, 1)); ph[s] = "ini"
        elif p in ("ini", "rhs"):
            if r.random() < 0.75:
                ops.append(("elm", s, element(r, c, p == "rhs"), r.randrange(thr)))
            else:
                ops.append(("fin", s, int(p == "ini"))); ph[s] = "fin"
        else:
            x = r.random()
            if x < 0.2:
                k = r.choice([0, 1, 1]); ops.append(("ini", s, k)); ph[s] = "ini" if k else "rhs"
            elif x < 0.4 and ph[o] == "fin":
                ops.append(("add", s, o))
            elif x < 0.5 and ph[o] == "fin":
                ops.append(("cpy", s, o)); assoc[s] = {1: 1} if c["nA"] == 1 else {}
            elif x < 0.6:
                ops.append(("obs", s))
            elif x < 0.9 and thr == 1:
                ext = r.sample(range(1, c["nn"] + 1), r.randint(1, max(1, c["nn"] - 1)))
                free = [len([d for d in range((m - 1) * c["nf"] + 1, m * c["nf"] + 1) if d not in c["fix"] and d not in [p[0] for p in c["pres"]]]) for m in range(1, c["nn"] + 1)]
                for m in sorted(range(1, c["nn"] + 1), key=lambda m: (free[m - 1] < c["nf"], r.random())):
                    if sum(free[q - 1] for q in range(1, c["nn"] + 1) if q not in ext) > 3 and m not in ext:
                        ext.append(m)
                if r.random() < 0.7:
                    ext.sort()
                n = len(ext) * c["nf"] + (1 if r.random() < 0.05 else 0)
                good = [a for a in range(1, c["nA"] + 1) if assoc[s].get(a) == 1] + [c["nA"] + 1] * (r.random() < 0.2)
                if good:
                    ops.append(("con", s, r.choice(good), ext, [r.randint(-3, 3) for _ in range(n)])); con = 1
            else:
                nodes = [r.randint(1, c["nn"]) for _ in range(r.randint(1, c["nn"]))]
                if r.random() < 0.7:
                    nodes = sorted(set(nodes))
                if r.random() < 0.05:
                    nodes.append(c["nn"] + 1)
                els = []
                for e, el in enumerate(c["elms"]):
                    if set(el) & set(nodes):
                        m = len(el) * c["nf"]
                        els.append(dict(e=e + 1, lhs=False, rhs=False, A=[], b=[[r.randint(-4, 4) for _ in range(m)]], c=[]))
                ops.append(("frc", nodes, els))
    return line(c, ops, "sparse" if con or r.random() < 0.5 else "dense", thr)


def block(r):
    nbas = r.randint(1, 3)
    nb = r.randint(1, 4)
    sym = int(r.random() < 0.6)
    bas = [r.randint(1, nbas) for _ in range(nb)]
    off = nb * (nb - 1) // (2 if sym else 1)
    # in unsymmetric storage, all off-diagonal blocks are given
    k = r.randint(0, off) if sym else off
    if nb == 1 or (not sym and off <= nb * (nb - 1) // 2):
        sym, k = 1, min(k, nb * (nb - 1) // 2)
    flags = [r.choice([-1, 0, 1]) if sym else 0 for _ in range(k)]
    w = ["blk", nbas, nb, 1 + nb + k, sym] + [r.randint(1, 3) for _ in range(nbas)]
    for b in bas:
        w += [b, r.randint(1, 3), int(r.random() < 0.2)]
    return " ".join(map(str, w + flags))


def norm(r):
    sizes = [r.randint(1, 4) for _ in range(r.randint(1, 4))]
    n = sum(sizes) if r.random() < 0.7 else r.randint(1, sum(sizes))
    ne = r.randint(1, 5)
    w = ["nrm", r.choice(["none", "abs", "sqrt"]), int(r.random() < 0.5)] + ilist(sizes) + [n, ne]
    return " ".join(map(str, w + [r.randint(-9, 9) for _ in range(n * ne)]))


def scenarios(r, tier):
    n = 250 if tier == "quick" else 3000
    out = [history(r) for _ in range(2 * n)]
    out += [history(r, r.choice([2, 3, 4])) for _ in range(n // 2)]
    out += [block(r) for _ in range(n)]
    out += [norm(r) for _ in range(n // 2)]
    return out


def corrupt(t, r):
    k = r.randrange(1, len(t["s"]))
    s = t["s"][k]

    def bump(q):
        while q and isinstance(q, list) and isinstance(q[0], list):
            q = r.choice([x for x in q if x] or [[]])
        if not q:
            return False
        q[r.randrange(len(q))] += 1
        return True
    if s["op"] in ("fin", "obs", "cpy", "add"):
        return t if bump(s[r.choice(["A", "b", "R"])]) else None
    if s["op"] == "blk":
        return t if bump(s[r.choice(["N", "R"])]) else None
    if s["op"] == "nrm":
        return t if bump(s[r.choice(["sums", "elm"])]) else None
    if s["op"] == "frc" and s["ok0"]:
        return t if bump(s[r.choice(["f", "byn", "tot"])]) else None
    if s["op"] in ("elm", "new"):
        s["ok"] = False
        return t
    return None


CHECKS = [Check("C22", "Systems", "systems", ("SystemsTrace", "Trace.cfg"), scenarios,
                [MC("MCSystems", "MC.cfg", workers=4), MC("MCSystems", "MCbig.cfg", tier="thorough", workers=8, timeout=900)],
                [Gen("MCSystems", "Gen.cfg", convert, simulate=(500, 16), limit=400, ops=("new", "ini", "elm", "fin", "cpy", "add", "con")),
                 Gen("MCSystems", "Gen.cfg", convert, tier="thorough", simulate=(6000, 16), timeout=900)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",), scratch=True,
                assumptions=["small integer element matrices; condensed quantities are compared to a thousandth",
                             "matrices are assembled before finalisation, and systems are copied and added after it",
                             "static condensation of matrices which were not pre-assembled (one thread)"])]
