"""Builds the engine and, from /repo's current sources, an instrumented and a plain vctrs."""
import glob, hashlib, os, re, shutil, subprocess, sys, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMR_REPO", "/repo")
E = os.path.join(ROOT, "engine")
RINC = ["-I/usr/share/R/include"]
CL = ["clang-18", "-O1", "-w", "-g0", "-fPIC", "-fno-jump-tables", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-aliasing"]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def engine_dir():
    h = hashlib.sha256()
    for f in sorted(os.listdir(E)):
        if f.endswith((".cpp", ".h", ".c", ".py")):
            h.update(open(os.path.join(E, f), "rb").read())
    return os.path.join(ROOT, "build", "engine-" + h.hexdigest()[:16])

# the newer of the installed solvers; every model either gives is checked against the query (valid() in runtime.cpp)
Z3D = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"))
Z3INC = ["-I" + Z3D[0] + "/include"] if Z3D else []
Z3LIB = ["-L" + Z3D[0] + "/lib", "-Wl,-rpath," + Z3D[0] + "/lib", "-lz3"] if Z3D else ["-lz3"]

def build_engine():
    d = engine_dir()
    if os.path.exists(os.path.join(d, "ok")):
        return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    o = lambda n: os.path.join(tmp, n)
    s = lambda n: os.path.join(E, n)
    llvm = [x for x in run(["llvm-config-18", "--cxxflags"]).split() if not x.startswith("-std=")]
    jobs = [["g++", "-O1", "-fPIC", "-shared", "-fno-rtti", *llvm, "-std=c++17", s("pass.cpp"), "-o", o("symrpass.so")]]
    for f in ("runtime", "expr", "wrap"):
        jobs.append(["g++", "-O2", "-g1", "-fPIC", "-c", "-std=c++17", *Z3INC, *RINC, s(f + ".cpp"), "-o", o(f + ".o")])
    jobs.append(["g++", "-O1", "-fPIC", "-shared", "-std=c++17", *RINC, s("replay.cpp"), "-o", o("libsymr_replay.so"), "-L/usr/lib/R/lib", "-lR"])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    # names of natives and of wrapped natives
    nat = set()
    for lib in ("/usr/lib/R/lib/libR.so", "/lib/x86_64-linux-gnu/libc.so.6", "/lib/x86_64-linux-gnu/libm.so.6"):
        for l in run(["nm", "-D", "--defined-only", lib]).splitlines():
            nat.add(l.split()[-1].split("@")[0])
    open(o("natives.txt"), "w").write("\n".join(sorted(nat)))
    wr = set()
    for l in run(["nm", o("wrap.o")]).splitlines():
        n = l.split()[-1]
        if n.startswith("symr_w_"): wr.add(n[7:])
    wr |= set(re.findall(r"symr_w_(\w+)", open(s("support.c")).read()))
    open(o("wrapped.txt"), "w").write("\n".join(sorted(wr)))
    env = dict(os.environ, SYMR_NATIVES=o("natives.txt"), SYMR_WRAPPED=o("wrapped.txt"))
    run([*CL, "-fpass-plugin=" + o("symrpass.so"), "-c", s("support.c"), "-o", o("support.o")], env=env)
    run(["g++", "-shared", "-o", o("libsymr.so"), o("runtime.o"), o("expr.o"), o("wrap.o"), o("support.o"), "-L/usr/lib/R/lib", "-lR", *Z3LIB, "-ldl", "-Wl,-rpath,/usr/lib/R/lib"])
    open(o("ok"), "w").write("")
    if os.path.exists(d):
        shutil.rmtree(tmp)
    else:
        try: os.rename(tmp, d)
        except OSError: return tmp
    return d

def sources():
    src = os.path.join(REPO, "src")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith((".c", ".cpp")))

def build_vctrs(eng, work, plain=True):
    """work/lib_i/vctrs (instrumented), work/lib_p/vctrs (plain), work/spec_{i,p}.so"""
    os.makedirs(work, exist_ok=True)
    src = os.path.join(REPO, "src")
    inc = ["-I" + src, "-I" + os.path.join(src, "rlang"), *RINC, "-DNDEBUG"]
    mk = os.path.join(src, "Makevars")
    env = dict(os.environ, SYMR_NATIVES=eng + "/natives.txt", SYMR_WRAPPED=eng + "/wrapped.txt")
    units = []
    for f in sources(): units.append(("v", f))
    sd = os.path.join(ROOT, "spec")
    for f in sorted(os.listdir(sd)):
        if f.endswith(".c"): units.append(("s", os.path.join(sd, f)))
    for k in "ip":
        os.makedirs("%s/o_%s" % (work, k), exist_ok=True)
    def comp(a):
        k, (kind, f) = a
        out = "%s/o_%s/%s_%s.o" % (work, k, kind, os.path.basename(f))
        cmd = [*CL, *(inc if kind == "v" else [*RINC, "-I" + sd])]
        if k == "i": cmd += ["-fpass-plugin=" + eng + "/symrpass.so"]
        run([*cmd, "-c", f, "-o", out], env=env)
        return out
    def rpkg():
        p = work + "/pkg"; os.makedirs(p, exist_ok=True); os.makedirs(work + "/lib_i", exist_ok=True)
        for n in ("DESCRIPTION", "NAMESPACE", "LICENSE"): shutil.copy(os.path.join(REPO, n), p)
        for n in ("R", "inst", "data"):
            if os.path.isdir(os.path.join(REPO, n)): shutil.copytree(os.path.join(REPO, n), p + "/" + n, dirs_exist_ok=True)
        os.makedirs(p + "/src", exist_ok=True); open(p + "/src/x.c", "w").write("")
        run(["R", "CMD", "INSTALL", "--no-libs", "--no-docs", "--no-multiarch", "--no-lock", "--no-byte-compile", "--no-test-load", "--library=" + work + "/lib_i", p],
            env=dict(os.environ, R_LIBS_USER="/nonexistent", LC_ALL="C.UTF-8"))
    kinds = "ip" if plain else "i"
    with cf.ThreadPoolExecutor(9) as ex:
        fr = ex.submit(rpkg)
        todo = [(k, u) for k in kinds for u in sorted(units, key=lambda u: -os.path.getsize(u[1]))]
        objs = list(ex.map(comp, todo))
        fr.result()
    if plain:
        shutil.copytree(work + "/lib_i", work + "/lib_p", dirs_exist_ok=True)
    for k in kinds:
        L = "%s/lib_%s/vctrs/libs" % (work, k); os.makedirs(L, exist_ok=True)
        so = [o for o, (kk, u) in zip(objs, todo) if kk == k and u[0] == "v"]
        sp = [o for o, (kk, u) in zip(objs, todo) if kk == k and u[0] == "s"]
        run(["clang-18", "-shared", "-o", L + "/vctrs.so", *so, "-L/usr/lib/R/lib", "-lR", "-lm"])
        run(["clang-18", "-shared", "-o", "%s/spec_%s.so" % (work, k), *sp, "-L/usr/lib/R/lib", "-lR", "-lm"])
    names = run("nm -D --defined-only %s/spec_i.so | awk '{print $3}' | grep ^S_ || true" % work if False else ["sh", "-c", "nm -D --defined-only %s/spec_i.so | awk '{print $3}' | grep '^S_' || true" % work]).split()
    return names

def renv(eng, work, mode, pid, names, tier, extra=None):
    e = dict(os.environ)
    e.update(R_HOME="/usr/lib/R", R_SHARE_DIR="/usr/share/R/share", R_INCLUDE_DIR="/usr/share/R/include", R_DOC_DIR="/usr/share/R/doc",
             LD_LIBRARY_PATH="/usr/lib/R/lib", R_ENABLE_JIT="0", LC_ALL="C.UTF-8", TZ="UTC", R_LIBS_USER="/nonexistent", R_LIBS="",
             R_LIBS_SITE="/usr/local/lib/R/site-library:/usr/lib/R/site-library:/usr/lib/R/library",
             SYMR_MODE=mode, SYMR_ROOT=ROOT, SYMR_PID=pid, SYMR_SPEC_NAMES=" ".join(names), VERIF_TIER=tier, NO_COLOR="1", TESTTHAT="")
    k = "i" if mode == "symbolic" else "p"
    e.update(SYMR_VCTRS_LIB="%s/lib_%s" % (work, k), SYMR_SPEC_LIB="%s/spec_%s.so" % (work, k), SYMR_LIB=eng + "/libsymr.so", SYMR_REPLAY_LIB=eng + "/libsymr_replay.so")
    if mode == "symbolic": e["LD_PRELOAD"] = eng + "/libsymr.so"
    e.update(extra or {})
    return e

def rcmd(big=True):
    return ["/usr/lib/R/bin/exec/R", "--vanilla", "--no-echo", "--no-restore"] + (["--min-nsize=40M", "--min-vsize=4G"] if big else []) + ["-f", os.path.join(ROOT, "harness", "driver.R")]

if __name__ == "__main__":
    print(build_engine())
