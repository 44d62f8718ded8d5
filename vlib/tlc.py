"""Runs TLC and reads what it reports."""
import os
import re
import shutil
import subprocess
import tempfile

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.prints = [l for l in out.splitlines() if l.startswith(("<<", '"MISMATCH|'))]
        self.actions = {}
        for name, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
            a = self.actions.setdefault(name, [0, 0])
            a[0] += int(d)
            a[1] += int(g)

    @property
    def violated(self):
        return self.rc in (12, 13) or "is violated" in self.out


def run(specdir, module, cfg, env=None, workers=4, timeout=600, heap="3g", coverage=False, extra=(), libs=()):
    """Runs TLC on specdir/module.tla with specdir/cfg; returns a Result, raises on any error of TLC itself."""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-XX:ParallelGCThreads=4"]
        path = os.pathsep.join([specdir] + list(libs))
        cmd += [f"-DTLA-Library={path}", "-cp", JARS, "tlc2.TLC"]
        cmd += ["-config", os.path.join(specdir, cfg), "-workers", str(workers), "-metadir", tmp, "-noGenerateSpecTE",
                "-deadlock"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [os.path.join(specdir, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=tmp,
                               env={**os.environ, **(env or {}), "LC_ALL": "C"})
        except subprocess.TimeoutExpired:
            raise TLCError(f"TLC timed out on {module}/{cfg} after {timeout} s")
        out = r.stdout + r.stderr
        res = Result(r.returncode, out)
        if r.returncode == 0 and ("Model checking completed" in out or "-simulate" in extra):
            return res
        if r.returncode in (10, 11, 12, 13):
            return res
        raise TLCError(f"TLC failed ({r.returncode}) on {module}/{cfg}:\n{out[-3000:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
