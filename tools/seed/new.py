#!/usr/bin/env python3
"""new.py ID PROPERTY 'needs' 'breaks' FILE <<< python-literal list of (old,new): makes a planted bug's folder (patch, meta, demo.sh)."""
import sys, os, json, subprocess, ast, shutil
ID, prop, needs, breaks = sys.argv[1:5]
edits = ast.literal_eval(sys.stdin.read())
W = "/tmp/seedrepo"
subprocess.run(f"git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f FETCH_HEAD", shell=True, check=True)
for f, old, new in edits:
    p = f"{W}/{f}"; s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = f"/verif/seeded/{ID}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(f"git -C {W} diff", shell=True, capture_output=True, text=True).stdout
open(f"{d}/patch.diff", "w").write(diff)
subprocess.run(f"git -C {W} checkout -q -- .", shell=True)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cc.sh"), f"{d}/demo.sh")
