"""Builds verification drivers against the sources of /repo's working tree.

Objects are cached by the content of everything the compiler read (command, source, all included
project headers), never by time stamps.  A driver names the library sources it is known to need;
if the link is not closed under those, every library source is compiled.
Sources which need GoTools (not available offline) are left out exactly as in the reference build;
references to them get placeholders that abort.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

ENV = {**os.environ, "LC_ALL": "C", "OMP_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "1"}

OPT = ["-O1", "-DNDEBUG", "-std=gnu++20", "-fopenmp", "-w"]
DEFS = """-DDUNE_ISTL_VERSION_MAJOR=2 -DDUNE_ISTL_VERSION_MINOR=9 -DDUNE_ISTL_VERSION_REVISION=0
 -DHAS_CEREAL=1 -DHAS_HDF5=1 -DHAS_ISTL=1 -DHAS_SUPERLU=1 -DHAS_UMFPACK=1 -DHAVE_NULLPTR=1
 -DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DHAVE_UMFPACK=1 -DISTL_VERSION="2.9.0" -DPROFILE_LEVEL=3
 -DReal=double -DSUPERLU_INT_TYPE=int -DSUPERLU_MIN_VERSION_4_3=1 -DSUPERLU_MIN_VERSION_5=1
 -DSUPERLU_NTYPE=1 -DSUPERLU_POST_2005_VERSION=1 -DUSE_CBLAS=1 -DUSE_OPENMP=1 -DepsZ=1.0e-12""".split()
SYSINC = ["-isystem", "/usr/include/superlu", "-isystem", "/usr/include/hdf5/serial",
          "-isystem", "/usr/include/suitesparse"]
LIBS = """-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/libopenblas.so -lm -ldl
 /usr/lib/x86_64-linux-gnu/libarpack.so /usr/lib/x86_64-linux-gnu/libtinyxml2.so -lgfortran -lquadmath
 /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lgomp -lpthread /usr/lib/x86_64-linux-gnu/libsuperlu.so
 /usr/lib/x86_64-linux-gnu/libumfpack.so /usr/lib/x86_64-linux-gnu/libsuitesparseconfig.so -ldunecommon""".split()

CLASSES = (r"ASMmxBase|ASMstruct|ASMs1D(?:C1|Lag|Spec)?|ASMs2D(?:C1|IB|Lag|mx|Spec|Tri)?|ASMs3D(?:Lag|mx|Spec)?"
           r"|SplineField(?:2D|3D)?|SplineFields(?:1D|2D|2Dmx|3D|3Dmx)|SplineInterpolator|SplineUtils"
           r"|(?:Default|MultiPatch)\w*ModelGenerator\w*|SIMMultiPatchModelGen")
ALLOWED = re.compile(r"^(?:vtable for |typeinfo for |typeinfo name for |VTT for |construction vtable for "
                     r"|guard variable for |(?:non-)?virtual thunk to )?(?:%s)(?:$|::)" % CLASSES)

DROP = set("""src/ASM/ASMmxBase.C src/ASM/ASMs1D.C src/ASM/ASMs1DC1.C src/ASM/ASMs1DLag.C src/ASM/ASMs1DSpec.C
 src/ASM/ASMs2D.C src/ASM/ASMs2DC1.C src/ASM/ASMs2DIB.C src/ASM/ASMs2DLag.C src/ASM/ASMs2Dmx.C
 src/ASM/ASMs2Drecovery.C src/ASM/ASMs2DSpec.C src/ASM/ASMs2DTri.C src/ASM/ASMs3D.C src/ASM/ASMs3DLag.C
 src/ASM/ASMs3Dmx.C src/ASM/ASMs3Drecovery.C src/ASM/ASMs3DSpec.C src/ASM/ASMstruct.C src/ASM/SplineField2D.C
 src/ASM/SplineField3D.C src/ASM/SplineField.C src/ASM/SplineFields1D.C src/ASM/SplineFields2D.C
 src/ASM/SplineFields2Dmx.C src/ASM/SplineFields3D.C src/ASM/SplineFields3Dmx.C src/ASM/SplineInterpolator.C
 src/Utility/SplineUtils.C src/ASM/ASMs2DInterpolate.C src/ASM/ASMs3DInterpolate.C""".split())
APP_DROP = {"Apps/Utils/MultiPatchModelGenerator.C", "Apps/Utils/SIMMultiPatchModelGen.C"}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def includes():
    r = REPO
    gen = os.path.join(CACHE, "gen-" + hashlib.sha1(r.encode()).hexdigest()[:8])
    os.makedirs(gen, exist_ok=True)
    with open(f"{r}/src/IFEM.h.in") as f:
        text = re.sub(r"@\w+@", "2026.10-pre", f.read())
    hdr = os.path.join(gen, "IFEM.h")
    if not os.path.exists(hdr) or open(hdr).read() != text:
        with tempfile.NamedTemporaryFile("w", dir=gen, delete=False) as f:
            f.write(text)
        os.replace(f.name, hdr)
    inc = [f"-I{gen}", f"-I{r}/Apps/Utils", f"-I{r}/3rdparty"]
    inc += [f"-I{r}/src/{d}" for d in ("ASM", "LinAlg", "SIM", "Utility", "Eig")]
    inc += [f"-I{r}/3rdparty/autodiff", f"-I{r}/3rdparty/expreval", f"-I{VERIF}/drivers"]
    return inc + SYSINC


def library_sources():
    """All sources of the reference build, relative to the repository."""
    out = []
    for d in ("src/ASM", "src/LinAlg", "src/SIM", "src/Utility", "src/Eig"):
        for f in sorted(glob.glob(f"{REPO}/{d}/*.C") + glob.glob(f"{REPO}/{d}/*.f")):
            rel = os.path.relpath(f, REPO)
            base = os.path.basename(rel)
            if rel in DROP or "PETSc" in base or "LR" in rel.split("/")[-2:-1]:
                continue
            out.append(rel)
    out += [os.path.relpath(f, REPO) for f in sorted(glob.glob(f"{REPO}/3rdparty/expreval/*.cpp"))]
    out.append("src/IFEM.C")
    for f in sorted(glob.glob(f"{REPO}/Apps/Utils/*.C")):
        rel = os.path.relpath(f, REPO)
        if rel not in APP_DROP:
            out.append(rel)
    return out


def _hash_file(p, memo={}):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(p, "rb") as f:
            memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]


def _command(src, flags):
    if src.endswith(".f"):
        return ["gfortran", "-O1", "-w", "-c", src]
    return ["g++"] + OPT + list(flags) + DEFS + includes() + ["-c", src]


def compile_one(src, flags=()):
    """Returns the path of an object which is the compilation of src as it is now."""
    cmd = _command(src, flags)
    objdir = os.path.join(CACHE, "obj")
    os.makedirs(objdir, exist_ok=True)
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()
    man = os.path.join(objdir, key + ".deps")
    if os.path.exists(man):
        try:
            with open(man) as f:
                for line in f:
                    e = json.loads(line)
                    if all(_hash_file(p) == h for p, h in e["deps"]):
                        if os.path.exists(e["obj"]):
                            return e["obj"]
        except ValueError:
            pass
    fd, dep = tempfile.mkstemp(suffix=".d", dir=objdir)
    os.close(fd)
    tmp = dep[:-2] + ".o"
    extra = [] if src.endswith(".f") else ["-MMD", "-MF", dep]
    r = sh(cmd + extra + ["-o", tmp])
    if r.returncode:
        for p in (dep, tmp):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError(f"compiling {src}:\n{r.stderr[:4000]}")
    deps = {src}
    if extra:
        with open(dep) as f:
            words = f.read().replace("\\\n", " ").split()
        deps |= {w for w in words[1:]}
    os.unlink(dep)
    lst = [(p, _hash_file(p)) for p in sorted(deps)]
    dig = hashlib.sha1((key + json.dumps(lst)).encode()).hexdigest()
    obj = os.path.join(objdir, dig + ".o")
    os.replace(tmp, obj)
    with open(man, "a") as f:
        f.write(json.dumps({"deps": lst, "obj": obj}) + "\n")
    return obj


def compile_all(srcs, flags=()):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: compile_one(s, flags), srcs))


def _link(objs, out):
    cmd = ["g++", "-O1", "-o", out] + objs + LIBS
    r = sh(cmd)
    if r.returncode == 0:
        return []
    r = sh(cmd + ["-Wl,--no-demangle"])
    syms = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
    if not syms:
        raise BuildError("link: " + r.stderr[:4000])
    names = subprocess.run(["c++filt"], input="\n".join(syms) + "\n", capture_output=True, text=True).stdout.splitlines()
    bad = [n for n in names if not ALLOWED.match(n)]
    if bad:
        return bad
    text, data, info = [], [], []
    for s, n in zip(syms, names):
        if s.startswith("_ZTI"):
            info.append(f'.globl {s}\n.balign 8\n{s}:\n.quad _ZTVN10__cxxabiv117__class_type_infoE+16\n'
                        f'.quad 1f\n.section .rodata\n1: .asciz "{s[4:]}"\n.section .data.rel.leftout,"aw"\n')
        elif "(" in n:
            text.append(f".globl {s}\n.type {s},@function\n.set {s}, ifem_left_out\n")
        else:
            data.append(f".globl {s}\n.balign 16\n{s}: .zero 4096\n")
    stub = out + ".leftout"
    with open(stub + ".s", "w") as f:
        f.write('.text\n.globl ifem_left_out\n.type ifem_left_out,@function\nifem_left_out:\n')
        f.write("subq $8,%rsp\ncall abort\n" + "".join(text))
        f.write('.section .data.rel.leftout,"aw"\n' + "".join(info))
        f.write('.data\n' + "".join(data))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    r = sh(["gcc", "-c", stub + ".s", "-o", stub + ".o"])
    if r.returncode:
        raise BuildError("stubs: " + r.stderr[:2000])
    r = sh(cmd[:4] + objs + [stub + ".o"] + LIBS)
    if r.returncode:
        raise BuildError("link with placeholders: " + r.stderr[:4000])
    return []


def build_driver(name, hint=None, flags=(), extra=()):
    """Builds drivers/<name>.cpp and returns the path of the executable."""
    drv = os.path.join(VERIF, "drivers", name + ".cpp")
    allsrc = library_sources()
    hf = os.path.join(VERIF, "drivers", name + ".hint")
    if not hint and os.path.exists(hf):
        hint = open(hf).read().split()
    hint = [s for s in (hint or []) if s in allsrc]
    full = [os.path.join(REPO, s) for s in allsrc]
    exts = [os.path.join(VERIF, "drivers", e) for e in extra]
    noli = [e for e in exts if "ifem_lite" not in e]
    bindir = os.path.join(CACHE, "bin")
    os.makedirs(bindir, exist_ok=True)
    # first the sources the driver is known to need, then - if that is not closed any more - everything
    plans = [[drv] + noli + full]
    if hint:
        plans.insert(0, [drv] + exts + [os.path.join(REPO, s) for s in hint])
    bad = None
    for k, plan in enumerate(plans):
        try:
            objs = compile_all(plan, flags)
        except BuildError as e:
            if k + 1 == len(plans):
                raise
            bad = [str(e)]
            continue
        exe = os.path.join(bindir, name + "-" + hashlib.sha1("\0".join(objs).encode()).hexdigest()[:16])
        if os.path.exists(exe):
            return exe
        tmp = f"{exe}.{os.getpid()}"
        bad = _link(objs, tmp)
        if not bad:
            break
        if os.environ.get("VERIF_VERBOSE"):
            print("not closed:", bad[:20], file=sys.stderr)
    if bad:
        raise BuildError("undefined symbols: " + ", ".join(bad[:20]))
    os.replace(tmp, exe)
    return exe


def closure(name, flags=(), extra=()):
    """Computes which library sources the driver pulls in (for the hint), by linking against an archive."""
    allsrc = library_sources()
    drv = os.path.join(VERIF, "drivers", name + ".cpp")
    dobjs = compile_all([drv] + [os.path.join(VERIF, "drivers", e) for e in extra], flags)
    objs = compile_all([os.path.join(REPO, s) for s in allsrc], flags)
    src_of = dict(zip(objs, allsrc))
    defs, undef = {}, {}
    lite = any(e.startswith("ifem_lite") for e in extra)
    for o in dobjs + [o for o in objs if not (lite and src_of[o] == "src/IFEM.C")]:
        r = sh(["nm", "-P", o])
        d, u = set(), set()
        for line in r.stdout.splitlines():
            p = line.split()
            if p[1] in "UvwV" and p[1] != "V":
                if p[1] == "U":
                    u.add(p[0])
            elif p[1].isupper() or p[1] in "Vu":
                d.add(p[0])
        undef[o] = u
        for s in d:
            defs.setdefault(s, []).append(o)
    need, todo = set(), list(dobjs)
    have = set()
    seen = set(dobjs)
    while todo:
        o = todo.pop()
        for s in undef[o]:
            cands = defs.get(s, [])
            if cands and not any(c in seen for c in cands):
                c = cands[0]
                seen.add(c)
                todo.append(c)
    return [src_of[o] for o in objs if o in seen]


if __name__ == "__main__":
    # python3 vlib/build.py <driver> [extra...]: (re)computes drivers/<driver>.hint
    h = closure(sys.argv[1], extra=sys.argv[2:])
    with open(os.path.join(VERIF, "drivers", sys.argv[1] + ".hint"), "w") as f:
        f.write("\n".join(h) + "\n")
    print(len(h), "sources")
