"""The check runner: design model checking + conformance of the implementation to the specification."""
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from . import build, tlc

VERIF = build.VERIF


class CheckError(Exception):
    pass


class MC:
    """An exhaustive model checking run of a specification."""

    def __init__(self, module, cfg, actions=(), tier="quick", workers=4, timeout=400, heap="3g"):
        # with actions: a small run which shows (by coverage) that each of them is taken
        self.module, self.cfg, self.actions = module, cfg, actions
        self.tier, self.workers, self.timeout, self.heap = tier, workers, timeout, heap


class Gen:
    """A TLC run that prints behaviours of the specification as scenarios (PrintT(<<"SCN", ToJson(hist)>>))."""

    def __init__(self, module, cfg, convert, tier="quick", timeout=300, simulate=None, limit=None, ops=(), opof=None):
        # ops: operations which must occur in the generated behaviours (no vacuous action);  opof(history) lists them
        self.ops, self.opof = ops, opof or (lambda h: [o[0] for o in h["h"]])
        self.module, self.cfg, self.convert, self.tier = module, cfg, convert, tier
        self.timeout, self.simulate, self.limit = timeout, simulate, limit


class Check:
    """One property decided by one specification domain.

    spec      directory under specs/
    driver    drivers/<driver>.cpp
    hint      library sources the driver needs
    scenarios function(rng, tier) -> list of scenario texts
    trace     (module, cfg) of the trace specification
    mcs       list of MC;   gens list of Gen
    corrupt   function(trace, rng) -> corrupted copy of an accepted trace, or None
    """

    def __init__(self, prop, spec, driver, trace, scenarios=None, mcs=(), gens=(), hint=(), corrupt=None,
                 flags=(), extra=(), assumptions=(), setup=None, note="", tag=None, shards=8, scratch=False):
        self.prop, self.spec, self.driver, self.trace = prop, spec, driver, trace
        self.scenarios, self.mcs, self.gens, self.hint = scenarios, mcs, gens, hint
        self.corrupt, self.flags, self.extra = corrupt, flags, extra
        self.assumptions, self.setup, self.note, self.tag = list(assumptions), setup, note, tag
        self.shards, self.scratch = shards, scratch


def specdir(name):
    return os.path.join(VERIF, "specs", name)


def run_driver(exe, scen, shards=8, timeout=600):
    """scen: {id: text}; returns {id: trace}."""
    ids = list(scen)
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        procs = []
        for k in range(min(shards, max(1, len(ids)))):
            part = ids[k::shards]
            wd = os.path.join(tmp, f"w{k}")
            os.mkdir(wd)
            a, b = os.path.join(tmp, f"s{k}"), os.path.join(tmp, f"t{k}")
            with open(a, "w") as f:
                for i in part:
                    f.write(f"{i} {scen[i]}\n")
            procs.append((subprocess.Popen([exe, a, b], cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                           env={**build.ENV, "VF_SCRATCH": wd}), b, part))
        traces = {}
        for p, b, part in procs:
            try:
                _, err = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                for q, _, _ in procs:
                    q.kill()
                raise CheckError("driver timed out")
            if p.returncode:
                raise CheckError(f"driver failed ({p.returncode}): {err.decode(errors='replace')[-2000:]}")
            with open(b) as f:
                for line in f:
                    try:
                        t = json.loads(line)
                    except ValueError as e:
                        raise CheckError(f"unreadable trace: {e}: {line[:500]}")
                    traces[t["id"]] = t
        missing = [i for i in ids if i not in traces]
        if missing:
            raise CheckError(f"{len(missing)} scenarios without a trace, e.g. {missing[0]}: {scen[missing[0]]}")
        return traces
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def validate(spec, module, cfg, traces, workers=8, timeout=700, heap="6g", extra_env=None):
    """Checks traces (list) against the trace specification; returns (set of accepted indices, Result)."""
    fd, path = tempfile.mkstemp(prefix="vf-", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = tlc.run(specdir(spec), module, cfg, env={"TRACES": path, **(extra_env or {})}, workers=workers,
                    timeout=timeout, heap=heap, libs=[specdir("Common"), specdir("TimeStep")])
        if r.rc != 0:
            raise CheckError(f"trace specification {module} failed:\n" + r.out[-3000:])
        done, bad = set(), {}
        for l in r.prints:
            if l.startswith('<<"DONE", '):
                done.add(int(l[len('<<"DONE", '):-2]))
            elif l.startswith('"MISMATCH|'):
                n, what = l[len('"MISMATCH|'):-1].split("|", 1)
                bad.setdefault(int(n), what)
        return done, bad, r
    finally:
        os.environ.get('VF_KEEP') and __import__('shutil').copy(path, os.environ['VF_KEEP'])
        os.unlink(path)


def locate(chk, t):
    """Which step of a rejected trace the specification does not explain."""
    if is_crash(t):
        return f"the implementation crashed or hung after step {len(t['s']) - 1}"
    try:
        pre = [dict(t, s=t["s"][:k]) for k in range(2, len(t["s"]) + 1)]
        done, _, _ = validate(chk.spec, chk.trace[0], chk.trace[1], pre)
        k = max(done, default=0) + 1
        return f"first unexplained step is number {k + 1}: {json.dumps(t['s'][k])[:600]}"
    except (CheckError, tlc.TLCError) as e:
        return f"(not located: {str(e)[:200]})"


def is_crash(t):
    return any(s.get("op") in ("crash",) for s in t["s"])


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def run_check(chk, tier, seed, verbose=False):
    t0 = time.time()
    prop = chk.prop
    rng = random.Random(f"{seed}-{prop}")
    tiers = ("quick",) if tier == "quick" else ("quick", "thorough")
    mcs = [m for m in chk.mcs if m.tier in tiers]
    if tier == "thorough":
        mcs = [m for m in mcs if m.tier == "thorough" or m.cfg not in {x.cfg for x in mcs if x.tier == "thorough"}]
    gens = [g for g in chk.gens if g.tier in tiers]
    times = {}

    def log(*a):
        if verbose:
            print(f"[{time.time() - t0:6.1f}]", *a, file=sys.stderr, flush=True)

    def do_build():
        exe = build.build_driver(chk.driver, chk.hint, chk.flags, chk.extra)
        log("built")
        return exe

    def do_mc(m):
        r = tlc.run(specdir(chk.spec), m.module, m.cfg, workers=m.workers, timeout=m.timeout, heap=m.heap,
                    coverage=bool(m.actions), libs=[specdir("Common"), specdir("TimeStep")])
        if r.rc != 0:
            raise CheckError(f"the specification {m.module}/{m.cfg} does not satisfy its own properties:\n" + r.out[-3000:])
        for a in m.actions:
            if r.actions.get(a, [0, 0])[1] == 0:
                raise CheckError(f"action {a} is never taken in {m.module}/{m.cfg}: {r.actions}")
        log("model checked", m.cfg, r.distinct)
        return r

    def do_gen(g):
        extra = ["-simulate", f"num={g.simulate[0]}", "-depth", str(g.simulate[1]), "-seed", str(seed)] if g.simulate else []
        r = tlc.run(specdir(chk.spec), g.module, g.cfg, workers=1 if g.simulate else 4, timeout=g.timeout, extra=extra,
                    libs=[specdir("Common"), specdir("TimeStep")])
        if r.rc != 0:
            raise CheckError(f"generation {g.module}/{g.cfg} failed:\n" + r.out[-3000:])
        out = []
        for l in r.prints:
            if l.startswith('<<"SCN", "'):
                out.append(json.loads(json.loads('"' + l[len('<<"SCN", "'):-3] + '"')))
        log("generated", g.cfg, len(out))
        taken = {o for h in out for o in g.opof(h)}
        if set(g.ops) - taken:
            raise CheckError(f"actions never taken in {g.module}/{g.cfg}: {set(g.ops) - taken}")
        return r, out

    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(do_build)
        fm = [ex.submit(do_mc, m) for m in mcs]
        fg = [ex.submit(do_gen, g) for g in gens]
        scen_list = []
        seen = set()
        ngen = 0
        states = transitions = 0
        for g, f in zip(gens, fg):
            r, hist = f.result()
            hist.sort(key=lambda h: json.dumps(h, sort_keys=True))
            if g.limit and len(hist) > g.limit:
                hist = rng.sample(hist, g.limit)
            for h in hist:
                s = g.convert(h)
                if s and s not in seen:
                    seen.add(s)
                    scen_list.append(s)
                    ngen += 1
        for s in (chk.scenarios(rng, tier) if chk.scenarios else []):
            if s not in seen:
                seen.add(s)
                scen_list.append(s)
        scen = {i + 1: s for i, s in enumerate(scen_list)}
        exe = fb.result()
        traces = run_driver(exe, scen, chk.shards)
        log("executed", len(traces), "scenarios")
        for f in fm:
            r = f.result()
            states += r.distinct
            transitions += r.generated

    def judge(ids, trs):
        """Rejected ids among trs, with a reason."""
        rej = {i: "crash or time-out of the implementation" for i in ids if is_crash(trs[i])}
        ok = [i for i in ids if i not in rej]
        good = []
        corrupted = []
        # every run shows that the binding is not vacuous: corrupted copies must be rejected
        if chk.corrupt:
            crng = random.Random(f"{seed}-corrupt")
            for i in crng.sample(ok, min(len(ok), 40)):
                c = chk.corrupt(copy.deepcopy(trs[i]), crng)
                if c is not None and c != trs[i]:
                    corrupted.append(c)
        lst = [trs[i] for i in ok] + corrupted
        if not lst:
            return rej, None, 0
        done, bad, r = validate(chk.spec, chk.trace[0], chk.trace[1], lst)
        for k, i in enumerate(ok, 1):
            if k not in done:
                rej[i] = bad.get(k, "no action of the specification explains the trace")
        slipped = [k for k in range(len(ok) + 1, len(lst) + 1) if k in done]
        if slipped and not rej:
            raise CheckError("a corrupted trace is accepted: " + json.dumps(lst[slipped[0] - 1])[:2000])
        return rej, r, len(corrupted)

    ids = list(scen)
    rej, r, ncorr = judge(ids, traces)
    log("validated", len(ids), "rejected", len(rej))
    if r:
        states += r.distinct
        transitions += r.generated
    confirmed = {}
    if rej:
        sub = {i: scen[i] for i in sorted(rej)[:400]}
        again = run_driver(exe, sub, chk.shards)
        rej2, _, _ = judge(list(sub), again)
        confirmed = {i: rej[i] for i in sub if i in rej2}
        if not confirmed:
            raise CheckError("rejections are not repeatable: " + str(list(rej.items())[:3]))
    known = known_findings(prop)
    kf_hit, violations = {}, []
    for i in sorted(confirmed):
        k = next((k for k in known if matches(k, scen[i])), None)
        if k:
            kf_hit.setdefault(k["id"], (k, i))
        else:
            violations.append(i)
    for kid, (k, i) in sorted(kf_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    if violations:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        violations.sort(key=lambda i: len(scen[i]))
        i = violations[0]
        where = locate(chk, traces[i])
        path = os.path.join(rdir, f"{prop}{('-' + chk.tag) if chk.tag else ''}-{tier}-{seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, driver=chk.driver, scenario=scen[i], reason=confirmed[i], rejected_at=where, trace=traces[i],
                           spec=f"specs/{chk.spec}/{chk.trace[0]}.tla",
                           other_rejected=[scen[j] for j in violations[1:20]], rejected=len(violations)), f, indent=1)
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        print(f"  {len(violations)} of {len(ids)} traces rejected; shortest: {scen[i][:300]}")
        print(f"  {where}")
        print(f"  {confirmed[i][:800]}")
        rc = 1
    ops = {}
    for t in traces.values():
        for s in t["s"]:
            ops[s["op"]] = ops.get(s["op"], 0) + 1
    cov = dict(states=states, transitions=transitions,
               traces_validated_against_impl=len(ids), traces_from_spec_behaviours=ngen,
               distinct_traces=len({json.dumps([t["c"], t["s"]], sort_keys=True) for t in traces.values()}),
               steps=sum(len(t["s"]) for t in traces.values()), operations=ops,
               corrupted_traces_rejected=ncorr if not rej else 0,
               model_runs=[f"{m.module}/{m.cfg}" for m in mcs],
               samples=[dict(scenario=scen[i], trace=traces[i]) for i in rng.sample(ids, min(2, len(ids)))])
    return dict(rc=rc, coverage=cov, violations=len(violations), wall=time.time() - t0)


def matches(k, scenario):
    import re
    return re.search(k["scenario"], scenario) is not None


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", help="run only the parts with this tag")
    a = ap.parse_args()
    t0 = time.time()
    checks = [c for c in registry(a.property) if not a.only or c.tag == a.only]
    if not checks:
        print("no such property", a.property)
        return 2
    rc, covs, viol = 0, [], 0
    try:
        for c in checks:
            res = run_check(c, a.tier, a.seed, a.v)
            rc = max(rc, res["rc"])
            viol += res["violations"]
            covs.append((c.tag or c.spec, res["coverage"]))
    except (CheckError, tlc.TLCError, build.BuildError) as e:
        if rc != 1:
            print(f"ERROR property={a.property} {e}", file=sys.stderr)
            return 3
        print(f"(a later part of the check failed: {e})", file=sys.stderr)
    cov = covs[0][1] if len(covs) == 1 else merge(covs)
    ev = dict(property=a.property, tier=a.tier, seed=a.seed, level="model_checking", coverage=cov,
              assumptions=sum((c.assumptions for c in checks), []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.property} {a.tier}: {'held' if rc == 0 else 'BROKEN'}; {cov['traces_validated_against_impl']} traces, "
          f"{cov['states']} states, {ev['wall_s']} s")
    return rc


def merge(covs):
    out = dict(states=0, transitions=0, traces_validated_against_impl=0, traces_from_spec_behaviours=0, distinct_traces=0,
               steps=0, operations={}, corrupted_traces_rejected=0, model_runs=[], samples=[], parts=[])
    for tag, c in covs:
        for k in ("states", "transitions", "traces_validated_against_impl", "traces_from_spec_behaviours",
                  "distinct_traces", "steps", "corrupted_traces_rejected"):
            out[k] += c[k]
        for k, v in c["operations"].items():
            out["operations"][f"{tag}.{k}"] = v
        out["model_runs"] += c["model_runs"]
        out["samples"] += c["samples"]
        out["parts"].append(dict(part=tag, traces=c["traces_validated_against_impl"], states=c["states"]))
    return out
