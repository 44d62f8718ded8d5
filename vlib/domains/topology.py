"""C18: merging and renumbering of nodes."""
from ..core import Check, MC, Gen


def head(pats):
    w = [len(pats)]
    for p in pats:
        w += [p["nf"], p["share"], len(p["nodes"])] + p["nodes"] + p["x"] + [len(p["elms"])]
        for e in p["elms"]:
            w += [e["id"], len(e["n"])] + e["n"]
    return " ".join(map(str, w))


def convert(h):
    ps = h["c"]["pat"]
    own = [i + 1 for i, p in enumerate(ps) if not p["share"]]
    nb = [f"nbr {p} {q}" for p in own for q in own if p < q]
    return " ".join([head(ps)] + nb + [" ".join(map(str, o)) for o in h["h"]])


def one(r):
    npat = r.choice([1, 2, 2, 3, 3, 4, 5])
    pats, no, eid = [], 0, 0
    style = r.choice(["seq", "gaps", "perm"])
    tot = 0
    nf = r.choice([1, 2, 2, 3])
    for p in range(npat):
        nn = r.randint(2, 6)
        nums = []
        for _ in range(nn):
            no += 1 if style != "gaps" else r.choice([1, 1, 2, 4])
            nums.append(no)
        el = []
        for _ in range(r.randint(1, 4)):
            eid += 1
            k = min(nn, r.choice([2, 3, 3, 4]))
            el.append(dict(id=eid, n=r.sample(range(1, nn + 1), k)))
        pats.append(dict(nf=nf, share=0, nodes=nums, x=[r.randint(1, 9) for _ in range(nn)], elms=el))
        tot += nn
    if style == "perm":
        allv = [n for p in pats for n in p["nodes"]]
        r.shuffle(allv)
        for p in pats:
            p["nodes"], allv = allv[:len(p["nodes"])], allv[len(p["nodes"]):]
    own = list(range(1, npat + 1))
    # ground truth of what is the same node, to avoid constraints of a node with itself
    cls = {(p, j): (p, j) for p in own for j in range(1, len(pats[p - 1]["nodes"]) + 1)}

    def find(x):
        while cls[x] != x:
            x = cls[x]
        return x

    coupled, multi = [], set()

    def sane(a, b):
        ra, rb = find(a), find(b)
        f = lambda x: ra if find(x) == rb else find(x)  # noqa: E731
        seen = set()
        for p, s, m, d in coupled:
            if f(s) == f(m):
                return False
            if (p, f(s), d) in seen and s not in multi:
                return False
            seen.add((p, f(s), d))
        # equations with several masters: one slave each
        sl = {}
        for p, s, m, d in coupled:
            if sl.setdefault((p, f(s), d), s) != s:
                return False
        return True
    pre = r.random() < 0.5
    share = not pre and r.random() < 0.4
    if share:
        s = r.choice(own)
        q = pats[s - 1]
        pats.append(dict(nf=nf, share=s, nodes=q["nodes"], x=q["x"], elms=q["elms"]))
    rec = r.random() < 0.5
    ops, last = [], []
    # a connected neighbourhood
    order = own[:]
    r.shuffle(order)
    nbs = []
    for k in range(1, npat):
        nbs.append((order[r.randrange(k)], order[k]))
    for _ in range(r.randint(0, npat)):
        if npat > 1:
            nbs.append(tuple(r.sample(own, 2)))
    r.shuffle(nbs)
    early = r.random() < 0.5
    if early:
        ops += [f"nbr {p} {q}" for p, q in nbs]
    # nodes are only merged between neighbours, or within a patch
    if pre and rec:
        # coordinates: avoid that duplicates by coordinates make a constraint meaningless
        pass
    for _ in range(r.randint(1, 10)):
        x = r.random()
        p = r.choice(own)
        nn = len(pats[p - 1]["nodes"])
        if x < 0.55 and npat > 1 and nbs:
            a, b = r.choice(nbs)
            if not early:
                ops.append(f"nbr {a} {b}")
            if r.random() < 0.5:
                a, b = b, a
            i, j = r.randint(1, len(pats[a - 1]["nodes"])), r.randint(1, len(pats[b - 1]["nodes"]))
            if sane((a, i), (b, j)):
                cls[find((b, j))] = find((a, i))
                ops.append(f"col {a} {i} {b} {j}")
        elif x < 0.68:
            i, j = r.randint(1, nn), r.randint(1, nn)
            if sane((p, i), (p, j)):
                if r.random() < 0.4:
                    any_ = r.randint(0, 1)
                    if any_ or pats[p-1]["x"][i-1] == pats[p-1]["x"][j-1]:
                        cls[find((p, j))] = find((p, i))
                    ops.append(f"slf {p} {any_} 1 {i} {j}")
                else:
                    cls[find((p, j))] = find((p, i))
                    ops.append(f"col {p} {i} {p} {j}")
        elif x < 0.82:
            q = r.randint(1, len(pats))
            nn = len(pats[q - 1]["nodes"])
            (ops if q in own else last).append(f"fix {q} {r.randint(1, nn)} {r.choice([1, 2, 12, 3, 123])}")
        elif x < 0.88:
            if not pre:
                i, d = r.randint(1, nn), r.choice("12")
                key = (p, find((p, i)), d)
                if int(d) <= nf and not any(a == p and find(b) == key[1] and e == d for a, b, _, e in coupled):
                    coupled.append((p, (p, i), (0, 0), d))
                    cls[(0, 0)] = (0, 0)
                    ops.append(f"prs {p} {i} {d} {r.randint(1, 9)}")
        elif x < 0.94 and nn > 2 and not pre:
            i, *mm = r.sample(range(1, nn + 1), r.randint(2, min(4, nn)))
            d = r.randint(1, nf)
            key = (p, find((p, i)), str(d))
            if len({find((p, k)) for k in [i] + mm}) == len(mm) + 1 and not any((a, find(b), e) == key for a, b, _, e in coupled):
                coupled += [(p, (p, i), (p, k), str(d)) for k in mm]
                multi.add((p, i))
                ops.append(f"mpc {p} {i} {d} {len(mm)} " + " ".join(f"{k} {r.randint(1, nf)} {r.choice([1, 2, -1, 3])}" for k in mm))
        elif nn > 1:
            i, j = r.sample(range(1, nn + 1), 2)
            nf = pats[p - 1]["nf"]
            d = r.choice(["1", "2", "12", "123", "3", "13"])
            full = set(d) == set(str(k) for k in range(1, nf + 1))
            if full:
                if sane((p, i), (p, j)):
                    cls[find((p, j))] = find((p, i))
                    ops.append(f"per {p} {i} {j} {d}")
            elif find((p, i)) != find((p, j)):
                # one direction only: no slave is a master elsewhere, and is constrained once
                ds = [k for k in d if int(k) <= nf]
                used_m = {(find(m), dd) for _, s, m, dd in coupled}
                used_s = {(find(s), dd) for _, s, m, dd in coupled}
                if all((find((p, i)), k) not in used_m | used_s and (find((p, j)), k) not in used_s for k in ds):
                    coupled += [(p, (p, i), (p, j), k) for k in ds]
                    ops.append(f"per {p} {i} {j} {d}")
    if pre and rec:
        places = {}
        bad = False
        for (p, j) in sorted(k for k in cls if k[0]):
            X = pats[p - 1]["x"][j - 1]
            if X in places:
                if not sane(places[X], (p, j)):
                    bad = True
                    break
                cls[find((p, j))] = find(places[X])
            else:
                places[X] = (p, j)
        if bad:
            rec = False
    if pre:
        # a coupled master which is fixed is removed from the constraint (see the Model specification)
        if coupled:
            ops = [o for o in ops if not o.startswith("fix")]
            keys = [(find(s), d) for _, s, m, d in coupled]
            if set(keys) & {(find(m), d) for _, s, m, d in coupled}:
                return None
    ops += last
    ops.append(f"{'pre' if pre else 'ren'} {r.randint(0, 1)} {int(rec)}")
    return head(pats) + " " + " ".join(ops)


def scenarios(r, tier):
    n = 1500 if tier == "quick" else 12000
    out = []
    while len(out) < n:
        s = one(r)
        if s:
            out.append(s)
    return out


def corrupt(t, r):
    s = t["s"][-1]
    w = r.choice(["num", "l2g", "elm", "nn", "bc"])
    if w == "nn":
        s[w] += 1
    elif w == "l2g":
        if not s[w]:
            return None
        s[w][r.randrange(len(s[w]))] += 1
    elif w == "num":
        p = r.choice([q for q in s["num"] if q])
        p[r.randrange(len(p))] += 1
    elif w == "elm":
        p = r.choice([q for q, z in zip(s["elm"], t["c"]["pat"]) if q and not z["share"]])
        e = r.choice(p)
        e[r.randrange(len(e))] += 1
    else:
        p = r.choice(s["bc"])
        if not p:
            return None
        p.pop()
    return t


CHECKS = [Check("C18", "Topology", "topology", ("TopologyTrace", "Trace.cfg"), scenarios,
                [MC("MCTopology", "MC.cfg"), MC("MCTopology", "MCbig.cfg", tier="thorough", workers=8, timeout=800)],
                [Gen("MCTopology", "Gen.cfg", convert, limit=1500, ops=("col", "fix", "per", "ren", "pre"))],
                corrupt=corrupt, extra=("ifem_lite2.cpp",),
                assumptions=["patches which share nodes are connected through a chain of neighbours",
                             "no merging makes a constraint couple an unknown with itself or constrains an unknown twice"])]
