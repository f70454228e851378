#!/usr/bin/env python3-vt
"""C21: recorded ownership and numbering maps against the mesh, for many process counts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *

def parts(r, n):
    p, i = r[n + ".ptr"].astype(int), r[n + ".idx"].astype(int)
    return [i[p[k]:p[k + 1]] for k in range(len(p) - 1)]
def judge(c, key, r, t, np_, m, rp):
    t = t + "."
    x, vx, comp = r[t + "dof.x"], r[t + "vdof.x"], r[t + "vdof.comp"].astype(int)
    n, dim = x.shape; N = n * dim; sc = 1e-9 * (1 + np.abs(x).max())
    sub = r[t + "tria.cells"][:, 3].astype(int); cd = r[t + "cell.dofs"].astype(int); cvd = r[t + "cell.vdofs"].astype(int)
    c.expect(key, "cells-have-an-owner", ((0 <= sub) & (sub < np_)).all(), rp, f"{sorted(set(sub))}")
    # --- owned sets ---
    def disjoint(what, P, N_):
        a = np.concatenate(P) if len(P) else np.array([], int)
        c.count("ownership entries", len(a))
        return c.expect(key, what, len(P) == np_ and len(a) == N_ and np.array_equal(np.sort(a), np.arange(N_)), rp, f"{len(P)} sets, {len(a)} entries, {len(set(a.tolist()))} distinct, of {N_}")
    own, vown = parts(r, t + "own"), parts(r, t + "vown")
    if not disjoint("owned-sets-partition-the-nodes", own, n) or not disjoint("owned-sets-partition-the-vector-unknowns", vown, N): return
    o = np.empty(n, int); vo = np.empty(N, int)
    for k in range(np_): o[own[k]] = k; vo[vown[k]] = k
    hosts = [set() for _ in range(n)]
    for q in range(len(cd)):
        for i in cd[q]: hosts[i].add(sub[q])
    bad = [i for i in range(n) if o[i] not in hosts[i]]
    c.expect(key, "owner-holds-a-cell-of-the-node", not bad, rp, f"{len(bad)} nodes, first {bad[:1]}: owner {[int(o[i]) for i in bad[:1]]}, cells of {[hosts[i] for i in bad[:1]]}")
    for nm in ("rowsN", "rowsD", "rowsS", "rowsP"):
        if t + nm + ".ptr" in r:
            P = parts(r, t + nm)
            bad = [k for k in range(np_) if set(P[k].tolist()) != set(own[k].tolist())]
            c.expect(key, f"{nm}-held-by-their-owner", not bad, rp, f"process {bad[:1]} holds {[len(P[k]) for k in bad[:1]]} of its {[len(own[k]) for k in bad[:1]]} rows")
    gh = parts(r, t + "ghost")
    for k in range(np_):
        need = {int(i) for q in np.nonzero(sub == k)[0] for i in cd[q]} | set(own[k].tolist())
        c.expect(key, "visible-nodes", need <= set(gh[k].tolist()), rp, f"process {k} misses {len(need - set(gh[k].tolist()))} nodes")
    # --- numberings ---
    def inverse(what, a, b, N_):
        a, b = r[t + a].astype(int), r[t + b].astype(int)
        ok = c.expect(key, what + "-bijection", len(a) == N_ and len(b) == N_ and np.array_equal(np.sort(a), np.arange(N_)) and np.array_equal(np.sort(b), np.arange(N_)), rp, f"{len(a)} {len(b)} of {N_}; {len(set(a.tolist()))} distinct")
        if ok: ok = c.expect(key, what + "-inverse", np.array_equal(a[b], np.arange(N_)) and np.array_equal(b[a], np.arange(N_)), rp)
        c.count("map entries", len(a) + len(b))
        return ok, a, b
    ok, o2s, s2o = inverse("node-maps", "o2s", "s2o", n)
    ok2, vo2s, vs2o = inverse("vector-maps", "vo2s", "vs2o", N)
    if ok:
        c.bound(key, "positions-kept", np.abs(x[o2s] - r[t + "orig.x"]).max(), sc, rp)
        c.expect(key, "cells-kept", np.array_equal(o2s[r[t + "orig.cell"].astype(int)], cd), rp)
    if ok2:
        c.bound(key, "vector-positions-kept", np.abs(vx[vo2s] - r[t + "orig.vx"]).max(), sc, rp)
        c.expect(key, "vector-components-kept", np.array_equal(comp[vo2s], r[t + "orig.vcomp"].astype(int)), rp)
    if ok and ok2:
        # component d of node i
        V = vo2s[s2o[None, :] + n * np.arange(dim)[:, None]]
        c.expect(key, "components-of-a-node", (comp[V] == np.arange(dim)[:, None]).all(), rp)
        c.bound(key, "components-at-the-node", np.abs(vx[V] - x[None]).max(), sc, rp)
        bad = np.nonzero((vo[V] != o[None]).any(0))[0]
        c.expect(key, "components-belong-to-the-owner", len(bad) == 0, rp, f"{len(bad)} nodes, first {bad[:1]}")
        # the same cell holds node and components
        for q in range(len(cd)):
            if {int(a) for a in V[:, cd[q]].ravel()} != {int(a) for a in cvd[q]}:
                c.expect(key, "components-on-the-same-cell", False, rp, f"cell {q}"); break

def main():
    c = Check("C21", "meshes x element order x process count x history (local refinement, several re-initialisations); distinct by case, non-trivial with two or more processes",
              ["the numbering before the partition is the one the finite element library distributes, which the harness recomputes on a handler of its own"])
    c.need("rel", "pb")
    rng = c.rng
    six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((2, 2, 2)), "boxr": M.box((3, 2, 1)).affine(M.rotation(rng, 3)).renumber(rng), "sphere": M.qsphere(3), "ssphere": M.qsphere(2, mats=six).renumber(rng), "lshape": M.lshape(1).renumber(rng), "merged": M.box((2, 2, 2), split=False), "tetra": M.tetra(2), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2),
         "two": M.union(M.qsphere(2), M.qsphere(2, .6, (2.5, .4, .3), mats=(2,) * 6)), "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 5), "circle": M.ngon(41, mats=[1 + i // 20 for i in range(41)]), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6, split=False)}
    L = []
    def add(mn, np_, fe=1, method="Direct", hist="plain", t="FEQ"):
        np_ = min(np_, max(2, len(G[mn].cells) // 6))  # (a process that owns no node is refused by the linear algebra library)
        L.append((f"{mn}-np{np_}-{t}{fe}-{method}-{hist}", mn, np_, fe, method, hist, t))
    add("box", 1); add("box", 2, 2); add("boxr", 3); add("sphere", 4, method="FMA"); add("ssphere", 5, 2); add("lshape", 8); add("merged", 3, hist="adapt"); add("merged", 4, 2, hist="adapt2"); add("tetra", 6); add("prism", 7, method="FMA", hist="adapt"); add("two", 3, hist="ref"); add("sq", 2, 2); add("circle", 5); add("sqm", 4, hist="adapt"); add("circle", 3, 3, hist="adapt"); add("sphere", 6, hist="order"); add("box", 3, 3); add("sphere", 2, 1, "Direct", "plain", "FEDGQ"); add("sqm", 3, 2, "Direct", "order", "FEQ"); add("lshape", 4, 1, "FMA", "solve")
    # handles, cavities, holes
    G.update(frame=M.frame(), shell=M.shell(), annulus=M.annulus())
    add("frame", 7); add("shell", 5, 2); add("annulus", 4)
    names = list(G)
    for i in range(70 if c.thorough else 6):
        mn = names[rng.integers(len(names))]; d3 = G[mn].dim == 3
        add(mn, int(rng.integers(2, 9)), int(rng.integers(1, 4)), "FMA" if d3 and rng.random() < .3 else "Direct", str(rng.choice(["plain", "adapt", "adapt2", "ref", "order"])), "FEDGQ" if rng.random() < .15 else "FEQ")
    def one(cs):
        name, mn, np_, fe, method, hist, ty = cs
        m = G[mn]; dim = m.dim; ids = sorted(set(m.mat))
        if method == "FMA": fe = 1
        pr = Prob(name, m, D=ids[:1] if ty == "FEQ" else ids, N=ids[1:] if ty == "FEQ" else (), h=1, feo=fe, vfeo=fe, fe=ty, vfe=ty, method=method)
        rec = lambda t: [f"{q}:{t}" for q in ("tria", "dofs", "orig")]
        ops = ["read", "refine:0", "update"]
        e = "exp(2*x)*cos(y)"; files = dict(pr.files())
        ini = ["reinit", "initbc"]
        if hist == "adapt": ops += ["reinit", f"adaptf:{e}", "update"]
        elif hist == "adapt2": ops += ["reinit", f"adaptf:{e}", "update", "reinit", "adaptf:1/(0.3+x*x+y*y)", "update"]
        elif hist == "ref": ops += ["reinit", "refine:1", "update"]
        elif hist == "order":
            files["o.prm"] = PB.prm_text(pr.params(feo=3 - min(fe, 2), vfeo=3 - min(fe, 2))); files["s.prm"] = PB.prm_text(pr.params())
            ops += ["prm:o.prm", "reinit"] + rec("o") + ["prm:s.prm"]
        elif hist == "solve": ini = ["reinit", "solve"]
        ops += ini + rec("t")
        if hist == "order": ops = [o for o in ops]; ops.insert(ops.index("reinit") + 1, "initbc")
        r = c.run(name, dim, pr.params(), ops, files=files, np_=np_)
        if r is None: return
        rp = c.replay(r, dict(files=files))
        for t in ("o", "t"):
            if t + ".dof.x" in r: judge(c, name, r, t, np_, m, rp)
        c.case(name, np_ > 1, sample=dict(case=name, nodes=len(r["t.dof.x"]), per_process=[int(x) for x in np.diff(r["t.own.ptr"])]))
    c.map(one, L, workers=4)
    c.finish()
main()
