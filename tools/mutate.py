#!/usr/bin/env python3
"""Development tool: small mutations of IFEM sources (in scratch copies), judged by the scenarios and the trace specification
of the checks.  A mutant survives when the recorded traces are unchanged ("same"), or changed but explained ("tolerated").

usage: mutate.py PROP[,PROP] FILE[:from-to] [max [seed]]
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import build, core, tlc, registry

WORK = "/tmp/mut"
PAR, SH = int(os.environ.get("PAR", "4")), int(os.environ.get("SH", "2"))


def checks(props):
    return [c for p in props for c in registry.checks_of(p) if (not os.environ.get("TAG") or c.tag == os.environ["TAG"])]


def scenarios(chk, seed=1):
    f = f"{WORK}/{chk.prop}-{chk.tag or ''}.scen"
    if os.path.exists(f) and not os.environ.get("FRESH"):
        return {int(k): v for k, v in json.load(open(f)).items()}
    rng = random.Random(f"{seed}-{chk.prop}")
    out = []
    for g in chk.gens:
        if g.tier != "quick":
            continue
        extra = ["-simulate", f"num={g.simulate[0]}", "-depth", str(g.simulate[1]), "-seed", str(seed)] if g.simulate else []
        r = tlc.run(core.specdir(chk.spec), g.module, g.cfg, workers=1 if g.simulate else 4, timeout=g.timeout, extra=extra,
                    libs=[core.specdir("Common"), core.specdir("TimeStep")])
        hist = [json.loads(json.loads('"' + l[len('<<"SCN", "'):-3] + '"')) for l in r.prints if l.startswith('<<"SCN", "')]
        hist.sort(key=lambda h: json.dumps(h, sort_keys=True))
        if g.limit and len(hist) > g.limit:
            hist = rng.sample(hist, g.limit)
        out += [s for s in map(g.convert, hist) if s]
    out += chk.scenarios(rng, "quick") if chk.scenarios else []
    scen = {i + 1: s for i, s in enumerate(dict.fromkeys(out))}
    json.dump(scen, open(f, "w"))
    return scen


OPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])(?=\s*[\w(])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=\-])>(?![>=])(?=\s*[\w(\-])", [">="]), (r"(?<!>)>=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w)\]])\s?\+\s?(?=[\w(])(?!\+)", ["-"]), (r"(?<=[\w)\]])\s?-\s?(?=[\w(])(?![->])", ["+"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r"(?<=[\w)\]])\*(?=[\w(])", ["/"]), (r"(?<![\w.\[<])0(?![\w.x])", ["1"]), (r"(?<![\w.<])1(?![\w.])", ["0", "2"]),
       (r"\bfalse\b", ["true"]), (r"\btrue\b", ["false"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]),
       (r"\bif \(!", ["if ("]), (r"\bif \((?!!)", ["if (!"]), (r"\.front\(\)", [".back()"]), (r"\.back\(\)", [".front()"]), (r"\bstd::max\(", ["std::min("]), (r"\bstd::min\(", ["std::max("]),
       (r"(?<![-+])\+\+(?=\w)", ["--"])]


def mutants(path, lo, hi):
    L = open(path).read().split("\n")
    out, com = [], False
    for n, l in enumerate(L):
        s = l.strip()
        if "/*" in s or s.startswith("/*"):
            com = "*/" not in s
            continue
        if com:
            com = "*/" not in s
            continue
        if not (lo <= n + 1 <= hi) or s.startswith(("//", "#", "*", "using", "template", "std::cerr", "IFEM::cout", "<<", "return os", "typedef", "case ")) or "cout" in s or "cerr" in s or "PROFILE" in s:
            continue
        code = l.split("//")[0]
        if "operator" in code or "std::vector<" in code and "(" not in code:
            continue
        quoted = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', code)]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if any(a <= m.start() < b for a, b in quoted):
                    continue
                if "++" in rx and "for (" in code:
                    continue
                for rep in reps:
                    out.append((n, l, l[:m.start()] + rep + l[m.end():]))
                    if rx == r"\bif \((?!!)" and code.rstrip().endswith(")"):
                        k = code.rstrip()
                        out[-1] = (n, l, l[:m.start()] + "if (!(" + k[m.end():] + ")")
        if re.match(r"^(this->|[\w.\[\]>()-]+\s*(=|\+=|-=|\*=|/=)\s|[\w.\[\]>-]+\(.*\);$|\+\+|--|std::(sort|swap|fill|copy|reverse))", s) and s.endswith(";") and "return" not in s:
            prev = L[n - 1].split("//")[0].rstrip()
            if prev.endswith((";", "{", "}", ")", "else", ":")) or not prev.strip():
                out.append((n, l, l[:len(l) - len(l.lstrip())] + ";"))
    return L, out


def objects(chk):
    hf = os.path.join(build.VERIF, "drivers", chk.driver + ".hint")
    allsrc = build.library_sources()
    hint = [s for s in open(hf).read().split() if s in allsrc]
    plan = [os.path.join(build.VERIF, "drivers", chk.driver + ".cpp")] + [os.path.join(build.VERIF, "drivers", e) for e in chk.extra] + \
           [os.path.join(build.REPO, s) for s in hint]
    obj = dict(zip(plan, build.compile_all(plan, chk.flags)))
    t = tempfile.mktemp(dir=WORK)
    if build._link(list(obj.values()), t):
        print(chk.driver, "hint is not closed", flush=True)
        plan = [plan[0]] + [p for p in plan[1:1 + len(chk.extra)] if "ifem_lite" not in p] + [os.path.join(build.REPO, s) for s in allsrc]
        obj = dict(zip(plan, build.compile_all(plan, chk.flags)))
    else:
        os.unlink(t)
    return obj


def text(t):
    return re.sub(r"/tmp/vf-\w+/w\d+", "", json.dumps(t))


def main():
    props = sys.argv[1].split(",")
    spec = sys.argv[2]
    rng_ = re.match(r"(.*?)(?::(\d+)-(\d+))?$", spec)
    rel, lo, hi = rng_.group(1), int(rng_.group(2) or 1), int(rng_.group(3) or 10 ** 6)
    path = os.path.join(build.REPO, rel)
    nmax = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 6
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    L, muts = mutants(path, lo, hi)
    if len(muts) > nmax:
        muts = sorted(rng.sample(muts, nmax))
    C = checks(props)
    base = []
    for c in C:
        scen = scenarios(c)
        most = int(os.environ.get("MAXS", "900"))
        if len(scen) > most:
            scen = {k: scen[k] for k in sorted(random.Random(3).sample(sorted(scen), most))}
        obj = objects(c)
        exe = build.build_driver(c.driver, c.hint, c.flags, c.extra)
        t1 = core.run_driver(exe, scen)
        t2 = core.run_driver(exe, scen)
        keep = {i: text(t1[i]) for i in t1 if text(t1[i]) == text(t2[i])}
        if len(keep) < len(t1):
            print(f"{c.prop}: {len(t1) - len(keep)} traces are not repeatable", flush=True)
        users = None
        if path.endswith(".h"):
            def uses(src):
                cmd = [x for x in build._command(src, c.flags) if x != "-c"] + ["-MM"]
                return src if path in subprocess.run(cmd, capture_output=True, text=True).stdout.replace("\\\n", " ").split() else None
            with cf.ThreadPoolExecutor(8) as ex:
                users = [u for u in ex.map(uses, obj) if u]
        base.append((c, scen, obj, keep, users))
    print(f"{rel}: {len(muts)} mutants, {sum(len(b[1]) for b in base)} scenarios", flush=True)

    def one(k):
        n, old, new = muts[k]
        d = tempfile.mkdtemp(prefix="m", dir=WORK)
        try:
            M = list(L)
            M[n] = new
            best = None
            for c, scen, obj, keep, users in base:
                ob = dict(obj)
                if path.endswith(".h"):
                    hd = os.path.dirname(path)
                    shutil.copytree(hd, d + "/h", dirs_exist_ok=True, ignore=shutil.ignore_patterns("Test", "*.C"))
                    open(os.path.join(d, "h", os.path.basename(path)), "w").write("\n".join(M))
                    for u in users:
                        src = u
                        if os.path.dirname(u) == hd:
                            src = os.path.join(d, "h", os.path.basename(u))
                            shutil.copy(u, src)
                        cmd = [x.replace("-I" + hd, "-I" + d + "/h") if x == "-I" + hd else x for x in build._command(src, c.flags)]
                        o = os.path.join(d, os.path.basename(u) + ".o")
                        if build.sh(cmd + ["-o", o]).returncode:
                            return k, "nocompile", ""
                        ob[u] = o
                else:
                    if path not in ob:
                        continue
                    src = os.path.join(d, os.path.basename(path))
                    open(src, "w").write("\n".join(M))
                    o = os.path.join(d, "m.o")
                    if not os.path.exists(o):
                        cmd = build._command(src, c.flags) + ["-I" + os.path.dirname(path)]
                        if build.sh(cmd + ["-o", o]).returncode:
                            return k, "nocompile", ""
                    ob[path] = o
                exe = os.path.join(d, "exe-" + c.driver)
                if not os.path.exists(exe) and build._link(list(ob.values()), exe):
                    return k, "nolink", ""
                try:
                    tr = core.run_driver(exe, scen, SH, timeout=150)
                except core.CheckError as e:
                    return k, "killed", "error " + str(e)[:60]
                diff = [i for i in keep if text(tr[i]) != keep[i]]
                if not diff:
                    best = best or ("same", "")
                    continue
                if any(core.is_crash(tr[i]) for i in diff):
                    return k, "killed", f"crash, {len(diff)} differ"
                sub = random.Random(1).sample(diff, min(len(diff), 60))
                done, bad, r = core.validate(c.spec, c.trace[0], c.trace[1], [tr[i] for i in sub], workers=2, heap="2g")
                if len(done) < len(sub):
                    return k, "killed", f"{len(diff)} differ, {len(sub) - len(done)} of {len(sub)} rejected"
                best = ("tolerated", f"{len(diff)} differ; {scen[diff[0]][:200]}")
            return (k,) + (best or ("unused", ""))
        except Exception as e:
            return k, "error", str(e)[:200]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    res = {}
    with cf.ThreadPoolExecutor(PAR) as ex:
        for k, what, info in ex.map(one, range(len(muts))):
            res[what] = res.get(what, 0) + 1
            if what not in ("killed", "nocompile"):
                n, old, new = muts[k]
                print(f"{what} {rel}:{n + 1}: {old.strip()}   ==>   {new.strip()}  {info}", flush=True)
    print(rel, res, flush=True)


main()
