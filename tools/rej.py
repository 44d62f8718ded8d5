"""Group the reasons of rejected traces: python3 tools/rej.py C03 [n] (development aid)."""
import re, subprocess, sys, os
sys.path.insert(0, "/verif")
import random
from vlib import core, registry, build
prop = sys.argv[1]; tag = sys.argv[3] if len(sys.argv) > 3 else None
N = int(sys.argv[2]) if len(sys.argv) > 2 else 300
for c in registry.checks_of(prop):
    if tag and c.tag != tag: continue
    sc = c.scenarios(random.Random(int(os.environ.get("SEED","7"))), "quick")[:N] if c.scenarios else []
    for g in c.gens if not sc or os.environ.get("GENS") else []:
        if g.tier != "quick": continue
        from vlib import tlc
        import json
        r = tlc.run(core.specdir(c.spec), g.module, g.cfg, workers=1, libs=[core.specdir("Common"), core.specdir("TimeStep")],
                    extra=["-simulate", f"num={min(N, g.simulate[0])}", "-depth", str(g.simulate[1]), "-seed", os.environ.get("SEED", "5")] if g.simulate else [])
        sc += [g.convert(json.loads(json.loads('"' + l[len('<<"SCN", "'):-3] + '"'))) for l in r.prints if l.startswith('<<"SCN", "')][:N]
    exe = build.build_driver(c.driver, c.hint, c.flags, c.extra)
    tr = core.run_driver(exe, dict(enumerate(sc, 1)))
    ids = sorted(tr)
    ok = [i for i in ids if not core.is_crash(tr[i])]
    done, bad, r = core.validate(c.spec, c.trace[0], c.trace[1], [tr[i] for i in ok])
    groups = {}
    for i in ids:
        if i not in ok: groups.setdefault("crash", []).append((len(sc[i-1]), sc[i-1], ""))
    for k, i in enumerate(ok, 1):
        if k not in done:
            b = bad.get(k, "unexplained")
            g = re.sub(r"[0-9]+", "#", b)[:70]
            groups.setdefault(g, []).append((len(sc[i-1]), sc[i-1], b))
    print(prop, c.tag, len(ids), "traces;", sum(map(len, groups.values())), "rejected")
    for g, l in sorted(groups.items(), key=lambda x: -len(x[1])):
        l.sort(); print(len(l), g); print("   ", l[0][1][:1500]); print("   ", l[0][2][:700])
