#!/usr/bin/env python3-vt
"""C10: the threaded stages under the race detector and under perturbed schedules, against the single-threaded run."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *

def races(err):
    """Distinct reports: the accesses' innermost frames in the program's own code."""
    out = {}
    for b in re.split(r"={18}\n", err):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", b)
        if not m: continue
        fr = []
        parts = re.split(r"\n\s*\n", b)[:2]
        # tasks of the finite element library (its own initialisations, joined by means the detector cannot see) are not the program's
        if not all("pbpar::" in x or "failed to restore the stack" in x for x in parts) or not any("pbpar::" in x for x in parts): continue
        for part in parts:
            f = re.findall(r"#\d+ (.*?) (?:/\S*/)?(\w[\w.]*\.(?:cc|h)):(\d+)", part)
            own = [x for x in f if x[1] in OWN]
            if own: fr.append(own[0][1] + ":" + re.sub(r"[<(].*", "", own[0][0])[-60:])
            else:
                n = re.findall(r"#\d+ (.*?) (?:<null>|/)", part); q = [re.sub(r"[<(].*", "", x) for x in n]; st = re.findall(r"BEMFMA<\d>::(\w+)", part)
                fr.append((q[0] if q else "?") + (" in " + st[-1] if st else ""))
        out.setdefault(m.group(1).strip() + " " + " / ".join(sorted(set(fr))), b[:3000])
    return out
OWN = set(os.listdir(PB.REPO + "/source")) | set(os.listdir(PB.REPO + "/include")) | {"mon.h"}

def main():
    c = Check("C10", "meshes x octree settings x granularity x thread counts x seeded task orders, task sizes and delays; non-trivial when tasks overlapped in time",
              ["threads are std::threads under a scheduler of the harness, whose only ordering is that of the task library replaced (copiers in order, limited copy objects)",
               "modifications of library matrices, patterns and vectors are observed at their calls"])
    c.need("sched", "pb"); c.need("tsan", "pb"); c.need("rel", "pb")
    rng = c.rng
    rot = lambda m: m.affine(rng.uniform(.5, 2) * M.rotation(rng, 3), rng.uniform(-1, 1, 3)).renumber(rng)
    G = {"sphere3": M.qsphere(3), "box3": M.box((3, 3, 3)), "two": M.union(M.qsphere(3), M.qsphere(3, .3, (2.5, .4, .3), mats=(2,) * 6)), "graded": M.grade(M.box((3, 3, 3)), 2.), "long": M.box((10, 2, 2), (9, 1, 1)),
         "lshape": rot(M.lshape(2)), "sphere4": M.qsphere(4), "box2": M.box((2, 2, 2))}
    L = []
    def add(mn, D=(), **k):
        L.append((f"{mn}-" + "-".join(f"{a}{b}" for a, b in k.items()) + ("" if D else "-N"), mn, D, k))
    add("box3", D=(1, 3), levels=4, leaf=4, p=3, grain=1); add("two", D=(1,), levels=6, leaf=3, p=2, grain=3); add("sphere3", levels=3, leaf=5, p=3, grain=2)
    add("graded", D=(1, 2, 3, 4, 5, 6), levels=6, leaf=3, p=2, grain=1); add("long", D=(1,), levels=5, leaf=3, p=3, grain=4)
    if c.thorough:
        for i in range(40):
            mn = list(G)[rng.integers(len(G))]; ids = sorted(set(G[mn].mat)); D = tuple(x for x in ids if rng.random() < .5)
            add(mn, D=D, levels=int(rng.integers(1, 7)), leaf=int(rng.integers(1, 9)), p=int(rng.integers(1, 7)), grain=int(rng.choice([1, 2, 5, 10, 50])))
    full = ["read", "refine", "update", "reinit", "solve", "dofs:t", "sol:t", "prec:t", "near:t", "fmaprod:t:3"]
    def prob(cs):
        name, mn, D, k = cs; m = G[mn]
        return Prob(name, m, D=D, N=[i for i in sorted(set(m.mat)) if i not in D], h=1, method="FMA", **k)
    def sched(cs):
        name = cs[0]; pr = prob(cs)
        kw = dict(files=pr.files(), timeout=300)
        a = c.run(name, 3, pr.params(tol=1e-10), full, variant="rel", **kw)
        if a is None: return
        runs = [(t, s, d) for t, s, d in ((2, 1, 2), (3, 2, 2), (4, 3, 1), (8, 4, 2), (5, 5, 2))] + ([(int(rng.integers(2, 17)), 10 + i, int(rng.integers(0, 3))) for i in range(12)] if c.thorough else [])
        for t, s, d in runs:
            key = f"{name}-t{t}-s{s}"
            r = c.run(key, 3, pr.params(tol=1e-10), full, variant="sched", threads=t, env=dict(PB_SCHED=str(s + 100 * c.seed), PB_DELAY=str(d), PB_PARLOG="1"), **kw)
            if r is not None: judge(key, a, r)
        # the task library itself
        for t in (4, 8) if not c.thorough else (2, 3, 4, 8, 16):
            key = f"{name}-tbb{t}"
            r = c.run(key, 3, pr.params(tol=1e-10), full, variant="rel", threads=t, **kw)
            if r is not None: judge(key, a, r, False)
    def judge(key, a, r, shim=True):
        rp = c.replay(r); over = 1
        if shim:
            m = re.search(r"PBPAR regions (\d+) tasks (\d+) overlaps (\d+) maxactive (\d+) schedule (\w+)", r.err); q = re.search(r"PBMON events (\d+) conflicts (\d+) (\S+)", r.err)
            over = int(m.group(3))
            c.count("parallel regions", int(m.group(1))); c.count("tasks", int(m.group(2))); c.count("tasks started while others were running", over); c.count("observed modifications of shared matrices, patterns and vectors", int(q.group(1)))
            with c.lock: scheds.add(m.group(5))
            c.expect(key, "overlapping modifications", q.group(2) == "0", rp, f"{q.group(2)} overlapping modifications of one {q.group(3)}")
        for n, tol in (("t.nearN", 1e-11), ("t.nearD", 1e-11), ("t.prec", 1e-11), ("t.fout.N0", 1e-11), ("t.fout.D0", 1e-11), ("t.fout.N1", 1e-11), ("t.fout.D1", 1e-11), ("t.fout.N2", 1e-11), ("t.fout.D2", 1e-11), ("t.phi", 1e-6), ("t.dphi_dn", 1e-6), ("t.alpha", 1e-10)):
            if n not in a: continue
            x, y = a[n], r[n]; sc = np.abs(x).max() or 1
            if c.expect(key, f"{n} has the same size", x.shape == y.shape, rp): c.bound(key, f"{n[2:]} equals the single-threaded run's", np.abs(x - y).max() / sc, tol, rp)
        c.case(key, nontrivial=over > 0, sample=dict(case=key, overlaps=over))
    scheds = set()
    def tsan(cs):
        name = cs[0]; pr = prob(cs)
        for t, s in ((4, 1), (3, 2)) if not c.thorough else ((2, 1), (3, 2), (4, 3), (8, 4)):
            key = f"{name}-tsan{t}"
            r = c.run(key, 3, pr.params(tol=1e-4, steps=60), ["read", "refine", "update", "reinit", "try:solve", "fmaprod:t:2"], variant="tsan", threads=t, env=dict(PB_SCHED=str(s + 100 * c.seed), PB_PARLOG="1", PB_DELAY="1"), files=pr.files(), timeout=500, expect_fail=True)
            if r is None: continue
            R = races(r.err)
            for a, b in R.items():
                c.viol(f"{key}:{a}", "the race detector reports " + a, dict(c.replay(r), report=b))
            if not R and not r.ok:
                c.viol(f"{key}:crash", "abnormal end: " + str(r.crash()), c.replay(r)); continue
            m = re.search(r"tasks (\d+) overlaps (\d+)", r.err)
            if m:
                c.count("tasks under the race detector", int(m.group(1))); c.count("of these started while others were running", int(m.group(2)))
            c.case(key, nontrivial=bool(m and int(m.group(2))))
    jobs = [(x[0], sched, x) for x in L] + [(x[0], tsan, x) for x in L]
    jobs.sort(key=lambda j: j[1] is sched)
    c.map(lambda j: j[1](j[2]), jobs, workers=5)
    c.finish(distinct_schedules=len(scheds))
main()
