"""C03, C04, C05: boundary conditions, constraint chains, equation numbering and assembly."""
from ..core import Check, MC, Gen


def topology(r, maxdof=12):
    """[dict(nf, nodes, elms)] with shared nodes."""
    np_ = r.choice([1, 1, 2, 2, 3])
    nf = r.choice([1, 1, 2, 2, 3, 3, 6])
    if nf == 6:
        np_ = 1
    pats, used, nid = [], [], 0
    total = max(2, maxdof // nf)
    for p in range(np_):
        own = r.randint(1, max(1, total - nid if p + 1 == np_ else total // np_))
        nodes = []
        for _ in range(min(own, total - nid)):
            nid += 1
            nodes.append(nid)
        if used:
            nodes += r.sample(used, r.randint(0, min(2, len(used))))
        if not nodes:
            nodes = [r.choice(used)]
        r.shuffle(nodes)
        used = sorted(set(used) | set(nodes))
        pats.append(dict(nf=nf, nodes=nodes, elms=[]))
    if r.random() < 0.2:      # a patch with another number of unknowns and nodes of its own
        k = r.choice([x for x in (1, 2, 3) if x != nf])
        pats.append(dict(nf=k, nodes=[nid + 1, nid + 2][:r.randint(1, 2)], elms=[]))
        nid = max(pats[-1]["nodes"])
    ids = list(range(1, 9))
    if r.random() < 0.5:
        r.shuffle(ids)
    gap = r.random() < 0.3
    for p in pats:
        for _ in range(r.randint(1, 3)):
            if not ids:
                break
            e = ids.pop(0)
            if gap and ids and r.random() < 0.4:
                e = ids.pop(0)
            if r.random() < 0.05:
                e = 0
            k = r.randint(1, min(4 if p["nf"] < 4 else 2, len(p["nodes"])))
            ns = r.sample(range(1, len(p["nodes"]) + 1), k)
            if r.random() < 0.15:
                j = r.randrange(k)
                ns[j] = -ns[j]
            p["elms"].append((e, ns))
    if not any(e for p in pats for e, _ in p["elms"]):
        pats[0]["elms"][0] = (1, pats[0]["elms"][0][1])
    return pats, nid


def head(pats, split=0, ren=()):
    w = [len(pats), split] + ([len(ren)] + [x for y in ren for x in y] if split else [])
    for p in pats:
        w += [p["nf"], len(p["nodes"])] + p["nodes"] + [len(p["elms"])]
        for e, ns in p["elms"]:
            w += [e, len(ns)] + ns
    return " ".join(map(str, w))


def one(r, kind):
    split, ren = 0, []
    if r.random() < 0.12:
        while True:        # two models to be merged
            a, na = topology(r, 6)
            b, nb = topology(r, 6)
            if len({p["nf"] for p in a + b}) == 1:
                break
        if any(e < 1 for p in a for e, _ in p["elms"]):
            return one(r, kind)
        ea = max(e for p in a for e, _ in p["elms"])
        for p in b:
            p["nodes"] = [n + na for n in p["nodes"]]
            p["elms"] = [(e + ea if e else 0, ns) for e, ns in p["elms"]]
        split, pats, nid = len(a), a + b, na + nb
        olds = r.sample(range(na + 1, na + nb), min(nb - 1, r.randint(0, 2)))
        news = r.sample(range(1, na + 1), min(na, len(olds)))
        ren = list(zip(olds, news))
    else:
        pats, nid = topology(r, 12 if kind != "C05" else 10)
    common = {n for x in ren for n in x}
    P = len(pats)
    nf_of = {}
    for p in pats:
        for n in p["nodes"]:
            nf_of.setdefault(n, p["nf"])
    keys = [(n, d) for n in nf_of for d in range(1, nf_of[n] + 1)]
    order = {k: i for i, k in enumerate(r.sample(keys, len(keys)))}
    td = r.random() < 0.6
    ops = []
    dens = r.choice([0.15, 0.3, 0.6]) if kind != "C04" else r.choice([0.05, 0.15, 0.3])
    nbc = r.randint(0, 4)
    todo = ["mpc"] * int(dens * len(keys)) + ["fix"] * r.randint(0, 2) + ["presc"] * nbc
    r.shuffle(todo)
    ndir = lambda nf: int("".join(map(str, r.sample(range(1, nf + 1), r.randint(1, min(nf, 3))))))  # noqa: E731
    for w in todo:
        p = r.randint(1, P)
        pt = pats[p - 1]
        n = r.randint(1, len(pt["nodes"]))
        if pt["nodes"][n - 1] in common and w != "fix":
            continue
        if r.random() < 0.1:
            ops.append(f"isf {p} {n} {ndir(pt['nf'])}")
        if w == "fix":
            d = ndir(pt["nf"])
            if r.random() < 0.1:
                d = 10 * d + min(9, pt["nf"] + 1)
            ops.append(f"fix {p} {n} {d}")
        elif w == "presc":
            code = r.choice([0, 1, 1, 2, 3])
            d = ndir(pt["nf"])
            if r.random() < 0.05:
                d = 10 * d + min(9, pt["nf"] + 1)
            ops.append(f"presc {p} {n} {d} {code} {int(r.random() < 0.15)}")
        else:
            node = pt["nodes"][n - 1]
            d = r.randint(1, pt["nf"])
            later = [k for k in keys if order[k] > order[(node, d)]
                     and (not split or k[0] not in common and (k[0] > na) == (node > na))]
            nm = r.choice([1, 1, 2, 2, 3]) if r.random() < 0.93 else 0
            ms = [r.choice(later) for _ in range(nm)] if later else []
            if not ms and r.random() < 0.7:
                continue
            c0 = r.choice([0, 0, 0, 1, -2, 3])
            w2 = []
            for k in ms:
                w2 += [k[0], k[1], r.choice([1, 1, 1, -1, 2, 3, 0 if r.random() < 0.2 else 2])]
            ops.append(" ".join(map(str, ["mpc", p, node, d, c0, 0, int(r.random() < 0.1), len(ms)] + w2)))
            if r.random() < 0.15 and P > 1:      # the same slave in another patch
                q = [x for x in range(1, P + 1) if x != p and node in pats[x - 1]["nodes"]]
                if q:
                    k = r.choice(q)
                    if r.random() < 0.5 or not later:
                        ops.append(" ".join(map(str, ["mpc", k, node, d, c0, 0, 0, len(ms)] + w2)))
                    else:
                        z = r.choice(later)
                        ops.append(f"mpc {k} {node} {d} {r.choice([0, 0, 1])} 0 0 1 {z[0]} {z[1]} {r.choice([1, 2])}")
    if not split and r.random() < (0.12 if kind != "C04" else 0.3):
        p = r.randint(1, P)
        ne = len(pats[p - 1]["elms"])
        nn = r.choice([1, 1, 2])
        g = r.random() < 0.4
        for k in range(r.randint(1, 2)):
            nid += 1
            e = 0 if g else r.randint(0 if ne == 0 else 1, ne)
            n2 = nn if r.random() < 0.9 else 3 - nn
            ops.append(f"lag {p} {e} {nid} {n2}")
            if r.random() < 0.3 and not g and ne > 1:
                ops.append(f"lag {p} {r.choice([x for x in range(1, ne + 1) if x != e])} {nid} {nn}")
    v = [r.choice([0, 1, 2, -3, 4]) for _ in range(3)]
    ops.append(f"prep {int(td)} {v[0]} {v[1]} {v[2]}")
    nel = max(e for p in pats for e, _ in p["elms"])
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < {"C03": 0.6, "C04": 0.3, "C05": 0.25}[kind]:
            if td and r.random() < 0.7:
                v = [r.choice([0, 0, 1, 2, -3, 4]) for _ in range(3)]
            ops.append(f"upd {r.choice([0, 1, 2, 2])} {r.randint(0, 6)} {v[0]} {v[1]} {v[2]}")
        elif x < {"C03": 0.9, "C04": 0.6, "C05": 0.3}[kind]:
            ops.append(f"exp {r.randint(0, 7)} {r.choice([0, 1, 1, 2])}")
        else:
            ok = [n for n in nf_of if n not in [x[0] for x in ren]]
            if r.random() < 0.1:
                ops.append(f"col {r.choice(ok)} {r.randint(0, 8)}")
                continue
            fmt = r.choice([0, 0, 1, 1, 2, 3])
            its = []
            for _ in range(r.randint(1, 5)):
                y = r.choice("kkkkmrvvna" if fmt != 3 else "kmrvna")
                its.append(f"{y} {r.randint(1, nel) if y not in 'na' else r.choice(ok) if y == 'n' else 0}")
            ops.append(f"asm {fmt} {r.randint(0, 10)} {len(its)} " + " ".join(its))
    return head(pats, split, ren) + " " + " ".join(ops)


def scenarios_for(kind):
    def f(r, tier):
        n = {"C03": 1500, "C04": 1200, "C05": 1500}[kind]
        return [one(r, kind) for _ in range(n if tier == "quick" else 8 * n)]
    return f


def corrupt_for(kind):
    def corrupt(t, r):
        s = t["s"]
        prep = next((k for k, e in enumerate(s) if e["op"] == "prep"), None)
        if prep is None or not s[prep].get("eqs"):
            return None
        if kind == "C03":
            c = [(k, j) for k, e in enumerate(s) if e["op"] in ("prep", "upd") for j in range(len(e["tab"]))]
            if not c:
                return None
            k, j = r.choice(c)
            x = s[k]["tab"][j]
            if x["ms"] and r.random() < 0.6:
                r.choice(x["ms"])["a"] += 1
            else:
                x["c0"] += 1
            return t
        if kind == "C04":
            w = r.choice(["neq", "nel", "nceq", "nspec", "ndof", "eqs", "elme", "nd", "en"])
            x = s[prep][w]
            if isinstance(x, int):
                s[prep][w] += 1
                return t
            c = [(a, b) for a in range(len(x)) for b in range(len(x[a]))]
            if not c:
                return None
            a, b = r.choice(c)
            x[a][b] += 1
            return t
        c = [k for k, e in enumerate(s) if e["op"] == "asm" and e["K"]]
        if not c:
            return None
        k = r.choice(c)
        w = r.choice(["K", "rhs", "rf"])
        x = r.choice(s[k]["K"]) if w == "K" else s[k][w]
        x[r.randrange(len(x))] += 1
        return t
    return corrupt


ASSUME = ["weights, offsets and element matrices are small integers, so that the arithmetic of the implementation is exact",
          "no circular references among the constraint equations",
          "only equations without masters carry a function code"]


def convert(h):
    pats = [dict(nf=p["nf"], nodes=p["nodes"], elms=[(e["id"], e["n"]) for e in p["elms"]]) for p in h["c"]["pat"]]
    return head(pats) + " " + " ".join(" ".join(map(str, flat(o))) for o in h["h"])


def flat(o):
    out = []
    for x in o:
        out += flat(x) if isinstance(x, list) else [x]
    return out


def keep(h):
    ops = [o[0] for o in h["h"]]
    if "prep" not in ops:
        return None
    s = convert(h)
    return s + " exp 3 1 asm 0 2 2 k %d r %d" % ((h["c"]["pat"][0]["elms"][0]["id"],) * 2)


CH = [MC("Chains", "Chains.cfg"), MC("Chains", "Chains4.cfg", tier="thorough", timeout=600)]
INC = MC("MCModel", "MCinc.cfg")
PROJ = [MC("MCModel", "MC.cfg", workers=6), MC("MCModel", "MCbig.cfg", tier="thorough", workers=8, timeout=800, heap="8g")]
GEN = Gen("MCModel", "Gen.cfg", keep, limit=1200, ops=("fix", "presc", "mpc", "prep", "upd"))
MCS = {"C03": CH + [INC], "C04": PROJ, "C05": PROJ + [INC]}


def mk(prop):
    return Check(prop, "Model", "model", ("ModelTrace", "Trace.cfg"), scenarios_for(prop), MCS[prop], [GEN],
                 corrupt=corrupt_for(prop), extra=("ifem_lite2.cpp",), assumptions=ASSUME)


CHECKS = [mk("C03"), mk("C04"), mk("C05")]
