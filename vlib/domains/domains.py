"""C19: subdomains, matching of boundaries and equation maps."""
from ..core import Check, MC, Gen


def nno(e, nd):
    n = 1
    for i in range(nd):
        n *= e[i] + 1
    return n


def nel(e, nd):
    n = 1
    for i in range(nd):
        n *= e[i]
    return n


def head(c):
    w = [len(c["pat"]), c["nd"], c["nf"], c["mix"], c["lm"]]
    for p in c["pat"]:
        w += p["e"] + [len(p["nodes"])] + p["nodes"] + [len(p["fix"]) // 2] + p["fix"]
    return " ".join(map(str, w))


def convert(h):
    return " ".join([head(h["c"])] + [" ".join(map(str, o)) for o in h["h"]])


def model(r, small=True):
    nd = r.choice([1, 1, 2, 2, 2, 3])
    nf = r.choice([1, 1, 2, 3]) if small else 1
    mix = r.choice([0, 0, 1])
    lm = r.choice([0, 0, 1])
    npat = r.choice([1, 1, 2, 3]) if nd < 3 else r.choice([1, 2])
    pats, no = [], 0
    for p in range(npat):
        while True:
            e = [r.randint(1, 5 if nd == 1 else 3 if nd == 2 else 2) if i < nd else 0 for i in range(3)]
            if not small or nno(e, nd) * nf < 28:
                break
        nodes = []
        for k in range(nno(e, nd)):
            if pats and r.random() < 0.15:
                q = pats[r.randrange(len(pats))]
                x = q["nodes"][r.randrange(nno(q["e"], nd))]
                if x not in nodes:
                    nodes.append(x)
                    continue
            no += 1
            nodes.append(no)
        if mix:
            for k in range(nel(e, nd)):
                no += 1
                nodes.append(no)
        fix = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            k = r.randint(1, nno(e, nd))
            fix += [k, r.choice([1, 2, 12, 3, 123])]
        pats.append(dict(e=e, nodes=nodes, fix=fix))
    c = dict(nd=nd, nf=nf, mix=mix, lm=lm, pat=pats)
    if r.random() < 0.3:       # another order of the global numbers
        perm = list(range(1, no + 1))
        r.shuffle(perm)
        for p in pats:
            p["nodes"] = [perm[x - 1] for x in p["nodes"]]
    return c


def blocks(r, c):
    nb = r.choice([0, 1, 2, 2, 3])
    bs = []
    for _ in range(nb):
        b = r.choice([1, 2, 12] if c["mix"] else [1, 1, 2, 12])
        comps = 0
        if b == 1 and r.random() < 0.6:
            comps = int("".join(str(d) for d in sorted(r.sample(range(1, c["nf"] + 1), r.randint(1, c["nf"])))))
        bs += [b, comps]
    return nb, bs


def one(r, kind):
    ops = []
    if kind == "split":
        c = dict(nd=1, nf=1, mix=0, lm=0, pat=[])
        for _ in range(6):
            d = r.choice([1, 1, 2, 2, 3])
            big = [20, 9, 5][d - 1]
            n = [r.randint(1, big) if i < d else 0 for i in range(3)]
            g = [r.randint(1, [7, 4, 3][d - 1]) if i < d else 0 for i in range(3)]
            ops.append("split %d %d %d %d %d %d %d" % (*n, *g, r.choice([0, 0, 1, 1, 2, 3, 4])))
    elif kind == "match":
        nd = r.choice([1, 2, 3, 3, 3])
        if nd == 1:
            nd = 2
        pats = []
        for p in range(2):
            e = [r.randint(1, 4) if i < nd else 0 for i in range(3)]
            pats.append(dict(e=e, nodes=list(range(1, nno(e, nd) + 1)), fix=[]))
        c = dict(nd=nd, nf=1, mix=0, lm=0, pat=pats)
        for _ in range(8):
            p, face = r.randint(1, 2), r.randint(1, 2 * nd)
            if r.random() < 0.4:
                ops.append(f"elem {p} {r.randrange(8 if nd == 3 else 2)} {face}")
            else:
                dim = r.choice([0, 1, 1, 2, 2, 2]) if nd == 3 else r.choice([0, 1, 1])
                o = r.randrange(8) if dim == 2 else r.randrange(2)
                lidx = r.randint(1, 12) if nd == 3 and dim == 1 else face if dim else r.randint(1, 4)
                ops.append(f"node {p} {o} {lidx} {r.choice([1, 1, 2])} {dim}")
    elif kind == "conn":
        nd = r.choice([2, 3, 3, 3])
        no, pats = 0, []
        e = [r.randint(1, 3) if i < nd else 0 for i in range(3)]
        ifs = []
        for p in range(r.choice([2, 2, 3])):
            if p == 0:
                f = e
            else:
                q = r.randrange(p)
                mi, si = r.randint(1, 2 * nd), r.randint(1, 2 * nd)
                if any((x[0] == q + 1 and x[2] == mi) or (x[1] == q + 1 and x[3] == mi) for x in ifs):
                    continue
                o = r.randrange(8 if nd == 3 else 2)
                me = pats[q]["e"]
                md = [i for i in range(nd) if i != (mi - 1) // 2]
                sd = [i for i in range(nd) if i != (si - 1) // 2]
                ext = [me[i] for i in md]
                if o > 3:
                    ext.reverse()
                f = [0, 0, 0]
                f[(si - 1) // 2] = r.randint(1, 3)
                for i, x in zip(sd, ext):
                    f[i] = x
                ifs.append((q + 1, len(pats) + 1, mi, si, o))
            k = nno(f, nd)
            pats.append(dict(e=f, nodes=list(range(no + 1, no + k + 1)), fix=[]))
            no += k
        c = dict(nd=nd, nf=1, mix=0, lm=0, pat=pats)
        for m, s, mi, si, o in ifs:
            ops.append(f"iface {m} {s} {mi} {si} {o}")
            if r.random() < 0.2:
                ops.append("conn")
        ops.append("conn")
    elif kind == "ghost":
        c = dict(nd=1, nf=1, mix=0, lm=0, pat=[])
        for _ in range(3):
            for p in range(1, 5):
                if r.random() < 0.8:
                    ops.append(f"own {p} {r.randint(0, 2)}")
            seen, v = set(), []
            for _ in range(r.randint(1, 7)):
                x = (r.randint(1, 4), r.randint(1, 5), r.randint(1, 2), r.randint(1, 2), r.randint(0, 2), r.choice([0, 0, 1, 12]))
                if x not in seen:
                    seen.add(x)
                    v.append(x)
            ops.append(f"ghost {len(v)} " + " ".join(" ".join(map(str, x)) + f" {r.randrange(4)}" for x in v))
        if r.random() < 0.5:
            ops += ["keep 1 2", "keep 2 3", "clear"]
    else:
        c = model(r)
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.2:
                ops.append(f"own {r.randint(1, 4)} {r.randint(0, 3)}")
            nb, bs = blocks(r, c)
            ops.append(f"setup {nb} " + " ".join(map(str, bs)))
            for _ in range(r.randint(0, 3)):
                g = [r.choice([0, 1, 1, 2, 2, 3]) for _ in range(3)]
                if sum(1 for p in c["pat"]) and nb != 1:
                    ops.append("subd %d %d %d %d %d" % (*g, r.choice([0, 0, 1, 2]), r.randrange(max(nb, 1))))
            if nb < 2 or r.random() < 0.4:
                ops.append("clear")
                if r.random() < 0.3:
                    ops += [f"neq {r.randint(1, 30)}", "clear"]
    return head(c) + " " + " ".join(ops)


def scenarios(r, tier):
    n = 1500 if tier == "quick" else 12000
    return [one(r, r.choice(["split", "match", "conn", "ghost", "model", "model", "model"])) for _ in range(n)]


def corrupt(t, r):
    ss = [s for s in t["s"] if s["op"] in ("split", "node", "elem", "conn", "ghost", "setup", "subd")]
    if not ss:
        return None
    s = r.choice(ss)
    if s["op"] in ("split", "subd"):
        k = [x for x in s["r"] if x]
        if not k:
            return None
        r.choice(k).pop()
    elif s["op"] in ("node", "elem"):
        if len(s["r"]) < 2:
            return None
        s["r"][0] += 1
    elif s["op"] == "conn":
        s["r"][0][0] += 2
    elif s["op"] == "ghost":
        if not s["r"]:
            return None
        s["r"].pop()
        s["rr"] = s["r"]
    else:
        r.choice(s["b"])[r.choice(["min", "max", "nglb"])] += 1
    return t


CHECKS = [Check("C19", "Domains", "domains", ("DomainsTrace", "Trace.cfg"), scenarios,
                [MC("MCDomains", "MC.cfg"),
                 MC("MCDomains", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="12g")],
                [Gen("MCDomains", "Gen.cfg", convert, simulate=(2500, 14), limit=600, ops=("split", "own", "keep", "setup", "subd", "clear", "neq")),
                 Gen("MCDomains", "Gen.cfg", convert, tier="thorough", simulate=(20000, 14), limit=8000, timeout=800)],
                corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["one process; structured patches of stand-in classes (the spline library is not available)"])]
