"""Common frame of all checks: building, workloads, verdicts, known findings, evidence."""
import argparse, json, os, re, sys, threading, time, traceback
import concurrent.futures as cf
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import pb as PB
import mesh as M
VERIF = PB.VERIF
KNOWN = VERIF + "/known-findings.txt"
P = PB.P

def load_known(pid):
    """Lines 'finding: property=<id> key=<key> :: <what fails>'; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

class Check:
    def __init__(self, pid, rule, assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--only", default="", help="run only cases whose name contains this text")
        ap.add_argument("-v", action="store_true")
        a, _ = ap.parse_known_args()
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.tier, self.seed, self.only, self.verbose = a.tier, a.seed, a.only, a.v
        self.thorough = self.tier == "thorough"
        self.rng = np.random.default_rng([self.seed, int(pid[1:])])
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.viols, self.known_hit = {}, {}
        self.known = load_known(pid)
        self.counts, self.distinct, self.samples, self.worst = {}, set(), [], {}
        self.evals = 0
        self.errors = []
        self.inconclusive = []
        self._exe = {}

    # ---- building ----
    def need(self, variant, *progs):
        try:
            self._exe.update({(variant, p): e for p, e in B.build(variant, list(progs)).items()})
        except B.BuildError as e:
            print(str(e)[-3000:])
            print(f"check {self.pid}: the harness could not be built", flush=True)
            sys.exit(3)
    def exe(self, variant, prog):
        return self._exe[(variant, prog)]

    # ---- observations ----
    def count(self, what, n=1):
        with self.lock:
            self.counts[what] = self.counts.get(what, 0) + n
    def case(self, name, nontrivial=True, sample=None):
        """One evaluated case; identical names count once."""
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.distinct.add(name)
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)
    def margin(self, what, ratio):
        """Largest observed error/bound ratio per oracle (shows how tight the oracles are)."""
        with self.lock:
            r = float(ratio)
            if r > self.worst.get(what, -1):
                self.worst[what] = r
    def bound(self, key, what, err, tol, case=None, msg=""):
        """Oracle err <= tol (NaN violates)."""
        self.count("oracle evaluations")
        err = float(err); tol = float(tol)
        ok = err <= tol
        self.margin(what, err / tol if tol > 0 else (0 if err == 0 else np.inf))
        if self.verbose:
            print(f"   {'ok  ' if ok else 'FAIL'} {key} {what}: {err:.3g} <= {tol:.3g} {msg}")
        if not ok:
            self.viol(f"{key}:{what}", f"{what}: {err:.4g} exceeds {tol:.4g} {msg}", case)
        return ok
    def expect(self, key, what, cond, case=None, msg=""):
        self.count("oracle evaluations")
        if not cond:
            self.viol(f"{key}:{what}", f"{what} {msg}", case)
        return bool(cond)
    def viol(self, key, msg, case=None):
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            if key in self.known:
                self.known_hit.setdefault(key, msg)
            else:
                self.viols.setdefault(key, (msg, case))

    # ---- running the program ----
    def run(self, key, dim, params, ops, variant="rel", prog="pb", expect_fail=False, **kw):
        """Runs; abnormal ends are violations; returns None then."""
        exe = self.exe(variant, prog)
        r = PB.run(exe, dim, params, ops, **kw)
        if r.hung:
            kw2 = dict(kw); kw2["timeout"] = 2 * kw.get("timeout", 200)
            r = PB.run(exe, dim, params, ops, **kw2)
            if r.hung:
                self.viol(f"{key}:hang", f"no end within {kw2['timeout']} s (twice)", self.replay(r, kw))
                return None
        self.count("program executions")
        if r.rc == 4 and "PB-BADOP" in r.err:
            raise RuntimeError("bad op " + r.err[-200:])
        if not expect_fail and not r.ok:
            self.viol(f"{key}:crash", "abnormal end: " + str(r.crash()), self.replay(r, kw))
            return None
        return r
    def replay(self, r, kw=None):
        d = dict(r.case)
        fl = (kw or {}).get("files") or {}
        d["files"] = {k: (v if isinstance(v, str) else repr(v)) for k, v in fl.items() if len(v) < 200000}
        d["stderr"] = r.err[-3000:]; d["stdout"] = r.out[-1500:]
        return d
    def map(self, fn, items, workers=8):
        """fn(item) for all items, in parallel; exceptions are errors of the check."""
        items = [i for i in items if not self.only or self.only in str(i[0] if isinstance(i, tuple) else getattr(i, "name", i))]
        def w(i):
            try:
                return fn(i)
            except Exception:
                with self.lock:
                    self.errors.append(traceback.format_exc())
        with cf.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(w, items))

    # ---- verdict ----
    def finish(self, **extra):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        rp = VERIF + "/evidence/replay"
        os.makedirs(rp, exist_ok=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(no sample)"], observed=self.counts,
                   worst_error_to_bound={k: float(f"{v:.3g}") for k, v in sorted(self.worst.items())},
                   known_findings_reproduced=sorted(self.known_hit), inconclusive=self.inconclusive[:20],
                   program_runs=PB._count)
        cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed, level="exploration",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viols))
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1, default=lambda o: o.item() if hasattr(o, "item") else str(o))
        for k, msg in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k} {self.known[k]}")
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.evals} cases, {len(self.distinct)} distinct, "
              f"{self.counts.get('oracle evaluations', 0)} oracle evaluations, {time.time()-self.t0:.1f} s")
        if self.verbose:
            for k, v in sorted(self.worst.items()):
                print(f"   worst {k}: {v:.3g}")
        if self.viols:
            for n, (k, (msg, case)) in enumerate(sorted(self.viols.items())):
                if n >= 12 and not os.environ.get("ALLV"):
                    print(f"  ... and {len(self.viols)-12} more")
                    break
                path = f"{rp}/{self.pid}-{n}.json"
                with open(path, "w") as f:
                    json.dump(dict(key=k, message=msg, seed=self.seed, tier=self.tier, case=case), f, indent=1, default=lambda o: o.item() if hasattr(o, "item") else str(o))
                print(f"  {k}: {msg[:300]}")
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            sys.exit(1)
        if self.errors:
            print("errors of the check itself:\n" + self.errors[0][-3000:])
            sys.exit(3)
        if not self.evals and not self.only:
            print("nothing was observed")
            sys.exit(3)
        sys.exit(0)

# ---- workloads --------------------------------------------------------------
class Prob:
    """A boundary value problem: mesh + settings + exact harmonic potential."""
    def __init__(self, name, mesh, D=(), N=(), h=0, fmt="inp", dim=None, **params):
        self.name, self.mesh, self.dim = name, mesh, dim or mesh.dim  # no mesh: params give a grid of the repository
        self.D, self.N, self.h, self.fmt = tuple(D), tuple(N), h, fmt
        self.extra = params
        self.expr, self.grad, self._f, self._g = harm(h, self.dim) if not isinstance(h, (tuple, list)) else h
    def f(self, x):
        return self._f(*x.T) * np.ones(len(x))
    def g(self, x):
        return np.stack([q(*x.T) * np.ones(len(x)) for q in self._g], 1)
    def params(self, **k):
        d = self.dim
        ids = lambda s: ",".join(str(i) for i in s) if len(s) else "200"
        kk = dict(fmt=self.fmt, did=ids(self.D), nid=ids(self.N), ncyc=0, phi=self.expr, wind="; ".join(self.grad))
        kk.update(self.extra); kk.update(k)
        p = P(d, **kk)
        if getattr(self.mesh, "grid", None):
            PB.link_grids(); p[PB.SHORT["grid"].format(d=d)] = "../grids/" + self.mesh.grid
        elif self.mesh is not None:
            p[PB.SHORT["grid"].format(d=d)] = "./m"
        else:
            PB.link_grids()
        return p
    def files(self, **k):
        return {"m." + self.fmt: self.mesh.write(self.fmt)} if self.mesh is not None and not getattr(self.mesh, "grid", None) else {}

_harm = {}
_hlock = threading.Lock()
def harm(h, dim):
    with _hlock:
        if (h, dim) not in _harm:
            L = M.HARM3 if dim == 3 else M.HARM2
            _harm[(h, dim)] = M.sym_harm(L[h] if isinstance(h, int) else h, dim)
        return _harm[(h, dim)]

def source(p):
    """Potential of a source at p (outside the domain), as data of a Prob."""
    d = len(p); V = "xyz"[:d]; rr = "(" + "+".join(f"({a}-({q:.17g}))^2" for a, q in zip(V, p)) + ")"
    R2 = lambda X: sum((a - q) ** 2 for a, q in zip(X, p))
    if d == 3: return (f"1/sqrt{rr}", [f"-({a}-({q:.17g}))/{rr}^1.5" for a, q in zip(V, p)], lambda *X: R2(X) ** -.5, [lambda *X, i=i: -(X[i] - p[i]) * R2(X) ** -1.5 for i in range(3)])
    return (f"log{rr}", [f"2*({a}-({q:.17g}))/{rr}" for a, q in zip(V, p)], lambda *X: np.log(R2(X)), [lambda *X, i=i: 2 * (X[i] - p[i]) / R2(X) for i in range(2)])

def node_cells(r, t="a."):
    """For every scalar node the (cell, local index) pairs."""
    cd = r[t + "cell.dofs"].astype(int)
    out = [[] for _ in range(len(r[t + "dof.x"]))]
    for c in range(len(cd)):
        for j, i in enumerate(cd[c]):
            out[i].append((c, j))
    return out

def avg_normals(r, t="a.", g="a."):
    """Average unit cell normal at every node (exact where a node belongs to one flat patch)."""
    n = np.zeros_like(r[t + "dof.x"])
    cd = r[t + "cell.dofs"].astype(int)
    np.add.at(n, cd.ravel(), r[g + "geom.n"].reshape(-1, n.shape[1]))
    return n / np.linalg.norm(n, axis=1)[:, None]
