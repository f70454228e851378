#!/usr/bin/env python3
"""Content-addressed builder: compiles /repo's sources and /verif's harnesses
into /verif/.build/<variant>, recompiling exactly the translation units whose
code (comments removed) changed.  Never writes to /repo."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PB_REPO", "/repo")
BUILD = os.environ.get("PB_BUILD", VERIF + "/.build")
SYS = ("openmpi/include:/usr/lib/x86_64-linux-gnu/openmpi/include "
       "trilinos:/usr/include/trilinos petsc:/usr/include/petsc hdf5:/usr/include/hdf5/openmpi "
       "ss:/usr/include/suitesparse occ:/usr/include/opencascade slepc:/usr/include/slepc scotch:/usr/include/scotch")
SYSINC = [x.split(":")[1] for x in SYS.split()]
LIBSRC = ["ass_leg_function", "bem_fma", "bem_problem", "boundary_conditions", "cached_nurbs_patch_manifold",
          "computational_domain", "driver", "local_expansion", "local_expansion_coeff", "multipole_expansion",
          "octree_block", "singular_kernel_integral"]
UB = ("-fsanitize=address,bounds,shift,integer-divide-by-zero,float-cast-overflow,signed-integer-overflow,"
      "return,unreachable,vla-bound,bool,enum,object-size,pointer-overflow -fno-sanitize-recover=all")
WRAP = " ".join("-Wl,--wrap=" + f for f in ("_ZN15Epetra_CrsGraph19InsertGlobalIndicesEiiPi", "_ZN17Epetra_FECrsGraph19InsertGlobalIndicesEiPKiiS1_",
    "_ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi", "_ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi",
    "_ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb", "_ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b"))
VARIANTS = {
    # name: (compile flags, link flags, deal.II library)
    "rel":  ("-O1 -DNDEBUG", "", "deal.ii"),
    "asan": ("-O1 -g1 -DDEBUG -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer " + UB, UB, "deal.ii.g"),
    "tsan": ("-O1 -g1 -DNDEBUG -fsanitize=thread -fno-omit-frame-pointer -DPB_MON -I%s/shim" % VERIF, "-fsanitize=thread " + WRAP, "deal.ii"),
    "sched": ("-O1 -DNDEBUG -DPB_MON -I%s/shim" % VERIF, WRAP, "deal.ii"),
}
BASE = "-std=c++17 -w -fPIC -fno-access-control -pthread"

def sources():
    """All library translation units present in /repo/source (new files included)."""
    d = REPO + "/source"
    return sorted(f for f in os.listdir(d) if f.endswith(".cc") and f != "main.cc")

_code = {}
def code_of(path):
    """Text of a file with comments and layout removed (so that edits of comments rebuild nothing)."""
    try:
        st = os.stat(path)
    except OSError:
        return b"<absent>"
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _code:
        r = subprocess.run(["g++", "-fpreprocessed", "-dD", "-E", "-P", "-x", "c++", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _code[key] = r.stdout if r.returncode == 0 else open(path, "rb").read()
    return _code[key]

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def compile_tu(src, variant, extra=""):
    flags, _, _ = VARIANTS[variant]
    odir = f"{BUILD}/{variant}"
    os.makedirs(odir, exist_ok=True)
    args = f"g++ {BASE} {flags} {extra} -I{VERIF}/harness -I{REPO}/include " + " ".join("-isystem " + i for i in SYSINC)
    tag = os.path.basename(src) + "." + hashlib.sha1((src.replace(REPO, "REPO") + extra).encode()).hexdigest()[:8]
    depfile = f"{odir}/{tag}.deps"
    def key(deps):
        h = hashlib.sha256(args.encode())
        for d in deps:
            h.update(d.encode()); h.update(code_of(d))
        return h.hexdigest()[:24]
    # every dependency list ever seen for this file is tried: one whose contents match a stored object is valid
    if os.path.exists(depfile):
        try:
            deps = json.load(open(depfile))
            o = f"{odir}/{tag}.{key(deps)}.o"
            if os.path.exists(o):
                return o, False
        except ValueError:
            pass
    tmp = f"{odir}/{tag}.{os.getpid()}.tmp"
    r = sh(f"{args} -MD -MF {tmp}.d -c {src} -o {tmp}.o")
    if r.returncode and src.startswith(VERIF):
        # parts of the harness that look at internals are left out when these were renamed or retyped
        first = r
        sk = ["PB_SKIP_OCT", "PB_SKIP_PREC", "PB_SKIP_PARAMS", "PB_SKIP_NEAR", "PB_SKIP_MISC", "PB_SKIP_BAND"]
        for try_ in [[s] for s in sk] + [sk]:
            r = sh(f"{args} {' '.join('-D' + s for s in try_)} -MD -MF {tmp}.d -c {src} -o {tmp}.o")
            if r.returncode == 0:
                print(f"[build] {os.path.basename(src)}: built without {try_}", file=sys.stderr)
                break
        else:
            r = first
    if r.returncode:
        if os.path.exists(tmp + ".d"):
            os.remove(tmp + ".d")
        raise BuildError(f"compiling {src} ({variant}) failed:\n{r.stdout[-4000:]}")
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    os.remove(tmp + ".d")
    deps = sorted({os.path.normpath(x) for x in txt.split(":", 1)[1].split()
                   if os.path.normpath(x).startswith((REPO + "/", VERIF + "/"))})
    json.dump(deps, open(tmp + ".j", "w")); os.replace(tmp + ".j", depfile)
    o = f"{odir}/{tag}.{key(deps)}.o"
    os.replace(tmp + ".o", o)
    return o, True

PROGS = {
    # program: (main source, extra compile flags)
    "pb":   ("{V}/harness/pb.cc", ""),
    "unit": ("{V}/harness/unit.cc", ""),
    "bem2": ("{R}/source/main.cc", "-DDEAL_II_DIMENSION=2"),
    "bem3": ("{R}/source/main.cc", "-DDEAL_II_DIMENSION=3"),
}

def build(variant, progs, log=sys.stderr):
    """Returns {program: executable path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/{variant}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        _, ld, dealii = VARIANTS[variant]
        jobs = [(f"{REPO}/source/{f}", "") for f in sources()]
        mains = {p: (PROGS[p][0].format(V=VERIF, R=REPO), PROGS[p][1]) for p in progs}
        order = ["bem_fma", "bem_problem", "/pb.", "computational_domain", "driver", "main"]
        allj = jobs + list(mains.values())
        allj.sort(key=lambda j: min([i for i, k in enumerate(order) if k in j[0]] + [99]))
        objs, new = {}, 0
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {j: ex.submit(compile_tu, j[0], variant, j[1]) for j in allj}
            for j, f in futs.items():
                objs[j], n = f.result()
                new += n
        out = {}
        libobjs = [objs[j] for j in jobs]
        def link(p):
            os_ = [objs[mains[p]]] + libobjs
            h = hashlib.sha256("\n".join([ld] + os_).encode()).hexdigest()[:24]
            exe = f"{BUILD}/{variant}/{p}.{h}"
            if not os.path.exists(exe):
                lib = linkargs(dealii)
                r = sh(f"g++ -pthread {ld} -o {exe}.tmp{os.getpid()} {' '.join(os_)} {lib}")
                if r.returncode:
                    raise BuildError(f"linking {p} ({variant}) failed:\n{r.stdout[-4000:]}")
                os.replace(f"{exe}.tmp{os.getpid()}", exe)
            out[p] = exe
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(link, progs))
        if new:
            print(f"[build] {variant}: {new} units compiled, {time.time()-t0:.0f} s", file=log)
        return out

def linkargs(dealii):
    return LINK.replace("libdeal.ii.so", f"lib{dealii}.so")
LINK = open(VERIF + "/lib/link.txt").read().strip().replace("\n", " ")

def prune(keep_days=0):
    pass

if __name__ == "__main__":
    for v in sys.argv[1:] or ["rel", "asan", "tsan", "sched"]:
        try:
            print(v, build(v, {"rel": ["pb", "unit", "bem2", "bem3"], "asan": ["pb", "unit"], "tsan": ["pb"], "sched": ["pb"]}[v]))
        except BuildError as e:
            print(e); sys.exit(2)
