"""Running the harnesses and reading what they recorded."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import numpy as np
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
import build as B
REPO = B.REPO
GRIDS = REPO + "/grids/"

def read_pbd(path):
    d = {}
    with open(path, "rb") as f:
        while True:
            l = f.readline()
            if not l:
                return d
            w = l.split()
            shape = [int(x) for x in w[2:]]
            n = int(np.prod(shape)) if shape else 0
            a = np.frombuffer(f.read(8 * n), dtype=np.float64)
            if a.size != n:
                raise ValueError("truncated record file")
            d[w[0].decode()] = a.reshape(shape)

def prm_text(params):
    out = []
    for k, v in params.items():
        *secs, key = k.split("/")
        out += ["subsection " + s for s in secs] + [f"set {key} = {v}"] + ["end"] * len(secs)
    return "\n".join(out) + "\n"

class Result:
    def __init__(self, **k):
        self.__dict__.update(k)
    def __getitem__(self, k):
        return self.d[k]
    def __contains__(self, k):
        return k in self.d
    @property
    def ok(self):
        return self.rc == 0
    def crash(self):
        """A short description of an abnormal end, or None."""
        if self.rc == 0:
            return None
        m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*)", self.err + self.out)
        if m:
            s = m.group(1)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([\w:~<>]+)[^\n]*?/(?:source|include)/(\w+\.\w+)", self.err + self.out)
            return re.sub(r"0x[0-9a-f]+", "0x..", s)[:160] + (f" in {fr[0][0]} ({fr[0][1]})" if fr else "")
        if self.rc < 0 or self.rc > 128:
            return f"killed by signal {abs(self.rc) if self.rc < 0 else self.rc - 128}"
        m = re.search(r"An error occurred in line <\d+> of file <([^>]*)> in function\s*\n\s*([^\n]*)\n.*?violated condition was:\s*\n\s*([^\n]*)(?:\nAdditional information:\s*\n\s*([^\n]*))?", self.err + self.out, re.S)
        if m:
            return f"exception in {os.path.basename(m.group(1))}: {m.group(3).strip()[:80]} {(m.group(4) or '').strip()[:80]}"
        return f"exit status {self.rc}: " + " ".join((self.err or self.out).split())[-200:]

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", LANG="C.UTF-8",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OPENBLAS_NUM_THREADS="1", PMIX_MCA_gds="hash", OMPI_MCA_mpi_yield_when_idle="1",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0:allocator_may_return_null=1:hard_rss_limit_mb=4000",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
           TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_signal_unsafe=0:ignore_noninstrumented_modules=1:hard_rss_limit_mb=6000")

def limited(argv):
    """Keeps a run that went wild from exhausting the sandbox (far above what any run needs; the sanitizers have their own limit)."""
    big = any("/asan/" in a or "/tsan/" in a for a in argv)
    gb = 10 if "valgrind" in argv[0] else 6
    return ["/usr/bin/prlimit", "--core=0", f"--fsize={1 << 30}"] + ([] if big else [f"--as={gb << 30}"]) + argv

_root = None
def workroot():
    global _root
    if _root is None:
        base = os.environ.get("PB_WORK") or (VERIF + "/work")
        os.makedirs(base, exist_ok=True)
        _root = tempfile.mkdtemp(prefix="w", dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_root, ignore_errors=True))
    return _root

def link_grids():
    """The repository's grids at ../grids of every scratch directory (some settings depend on these names)."""
    d = workroot() + "/grids"
    if not os.path.isdir(d):
        shutil.copytree(REPO + "/grids", d, dirs_exist_ok=True)

_count = 0
def run(*a, **k):
    """One run; repeated when the message passing library itself failed to start or ended abnormally."""
    for i in range(4):
        r = run1(*a, **k)
        if r.rc == 0 or r.hung or not re.search(r"libpmix\.so|orte_init failed|PMIX ERROR|ORTE_ERROR|ORTE ERROR|opal_init failed|unable to reliably start", r.err):
            return r
        # frames of the program in the trace of the failure: it is the program's
        fr = re.findall(r"\[ ?\d+\] (\S+)", r.err)
        if any(os.path.basename(x).startswith(("pb.", "unit.", "bem2", "bem3", "libdeal")) for x in fr):
            return r
    return r
def run1(exe, dim, params, ops, np_=1, threads=1, timeout=200, env=None, files=None, keep=False, raw=None, cwd=None):
    """One run of the harness (or, with raw=argv, of any program) in a scratch directory of its own."""
    global _count
    _count += 1
    w = cwd or tempfile.mkdtemp(dir=workroot())
    e = dict(os.environ); e.update(ENV); e["PB_THREADS"] = str(threads)
    e["DEAL_II_NUM_THREADS"] = str(max(1, threads))
    e["TMPDIR"] = "/tmp"
    e.update(env or {})
    for name, text in (files or {}).items():
        with open(f"{w}/{name}", "wb" if isinstance(text, bytes) else "w") as f:
            f.write(text)
    if params is not None:
        name = "p.prm" if raw is None else f"parameters_bem_{dim}.prm"
        with open(f"{w}/{name}", "w") as f:
            f.write(prm_text(params))
    argv = [exe, str(dim), "p.prm", "out.pbd"] + list(ops or []) if raw is None else [exe] + list(raw)
    if np_ > 1:
        argv = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np_)] + argv
    t0 = time.time()
    hung = False
    with open(f"{w}/stdout", "wb") as so, open(f"{w}/stderr", "wb") as se:
        p = subprocess.Popen(limited(argv), cwd=w, env=e, stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait(); rc = 124
    rd = lambda n: open(f"{w}/{n}", errors="replace").read()
    d = {}
    if raw is None and rc == 0:
        try:
            d = read_pbd(f"{w}/out.pbd")
        except Exception as x:
            rc = 99
    r = Result(rc=rc, out=rd("stdout"), err=rd("stderr"), d=d, wall=time.time() - t0, dir=w, hung=hung,
               case=dict(dim=dim, params=params, ops=list(ops or []), np=np_, threads=threads, env=env or {}, raw=raw))
    if not keep and cwd is None:
        shutil.rmtree(w, ignore_errors=True)
    return r

def pmap(fn, items, workers=8, cost=None):
    """Ordered parallel map; cost(item) = number of cores it uses is respected approximately."""
    items = list(items)
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))

# ---- parameter shorthands -------------------------------------------------
SHORT = {
    "method": "BEMProblem<{d}>/Solution method", "prec": "BEMProblem<{d}>/Preconditioner",
    "maptype": "BEMProblem<{d}>/Mapping Type", "mapdeg": "BEMProblem<{d}>/Mapping Q Degree",
    "contgrad": "BEMProblem<{d}>/Continuos gradient across edges",
    "qorder": "BEMProblem<{d}>/Quadrature rules/Quadrature order", "qtype": "BEMProblem<{d}>/Quadrature rules/Quadrature type",
    "sorder": "BEMProblem<{d}>/Quadrature rules/Singular quadrature order",
    "fe": "BEMProblem<{d}>/Scalar Finite Element/Finite Element type", "feo": "BEMProblem<{d}>/Scalar Finite Element/Finite element order",
    "vfe": "BEMProblem<{d}>/Vector Finite Element/Finite Element type", "vfeo": "BEMProblem<{d}>/Vector Finite Element/Finite element order",
    "tol": "BEMProblem<{d}>/Solver/Tolerance", "steps": "BEMProblem<{d}>/Solver/Max steps",
    "coarsen": "BEMProblem<{d}>/Grid Refinement/Coarsening threshold", "refine": "BEMProblem<{d}>/Grid Refinement/Refinement threshold",
    "p": "BEMFMA<{d}>/FMA Params/FMA Truncation Order", "grain": "BEMFMA<{d}>/FMA Params/Granularity for TBB simple for cycles",
    "levels": "BEMFMA<{d}>/Octree Params/Number of Octree Levels",
    "leaf": "BEMFMA<{d}>/Octree Params/Maximum Number of Collocation Points per Childless Block",
    "out": "BoundaryConditions<{d}>/Output file name",
    "phi": "BoundaryConditions<{d}>/Potential {d}d/Function expression",
    "wind": "BoundaryConditions<{d}>/Wind function {d}d/Function expression",
    "grid": "ComputationalDomain<{d}>/Input grid name", "fmt": "ComputationalDomain<{d}>/Input grid format",
    "ncyc": "ComputationalDomain<{d}>/Number of cycles",
    "pre": "ComputationalDomain<{d}>/Number of global refinement to be executed before local refinement cycle",
    "aspect": "ComputationalDomain<{d}>/Max aspect ratio", "spheroid": "ComputationalDomain<{d}>/Use a spheroid",
    "ax": "ComputationalDomain<{d}>/Axis x dimension", "ay": "ComputationalDomain<{d}>/Axis y dimension", "az": "ComputationalDomain<{d}>/Axis z dimension",
    "cad": "ComputationalDomain<{d}>/Use iges surfaces and curves",
    "did": "ComputationalDomain<{d}>/Boundary Conditions ID Numbers/Dirichlet boundary ids",
    "nid": "ComputationalDomain<{d}>/Boundary Conditions ID Numbers/Neumann boundary ids",
    "global": "Driver<{d}>/Set Global Refinement",
}
def P(dim, **k):
    out = {}
    for a, v in k.items():
        if v is None:
            continue
        if isinstance(v, bool):
            v = "true" if v else "false"
        if a == "grid" and "/" not in str(v):
            v = "../grids/" + str(v)
        out[SHORT[a].format(d=dim)] = v
    return out
