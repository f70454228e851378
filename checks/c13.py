#!/usr/bin/env python3-vt
"""C13: recorded masks and boundary data, before and after the solve, against those recomputed from the cells' labels."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *

def data(k, dim):
    """Potential and velocity that have nothing to do with each other: (expr, wind, f, g)."""
    E3 = [("2+sin(x+0.3)+y*z", ["1+x*y", "z-2*y+0.5", "x*x-0.7"]), ("x-2*y+3*z+7", ["y", "2*z+1", "x-3"]), ("exp(x*y)/(4+z*z)", ["3", "x*y*z", "cos(y)"])]
    E2 = [("2+sin(x+0.3)*y", ["1+x*y", "x-2*y+0.5"]), ("x-2*y+7", ["y+0.3", "2*x-1"])]
    e, w = (E3 if dim == 3 else E2)[k % (3 if dim == 3 else 2)]
    return sym(e, w, dim)
_c = {}
def sym(e, w, dim):
    if (e, dim) not in _c:
        import sympy as sp
        X = sp.symbols("x y z")[:dim]
        L = {str(s): s for s in X}
        _c[(e, dim)] = (e, w, sp.lambdify(X, sp.sympify(e, locals=L), "numpy"), [sp.lambdify(X, sp.sympify(q, locals=L), "numpy") for q in w])
    return _c[(e, dim)]

def judge(c, key, pr, r, t, D, N, rp, solved, flat, shift_free):
    """All statements about one recorded state."""
    n = len(r[t + ".dof.x"]); x = r[t + ".dof.x"]
    mat = r[t + ".tria.cells"][:, 0].astype(int)
    nc = node_cells(r, t + ".")
    labs = [{mat[k] for k, _ in nc[i]} for i in range(n)]
    isD = np.array([bool(l & set(D)) for l in labs])
    isN = np.array([not (l & set(D)) and l <= set(N) for l in labs])
    isU = np.array([not (l & (set(D) | set(N))) for l in labs])
    d, m = r[t + ".dirichlet"], r[t + ".neumann"]
    bad = np.nonzero(d != isD)[0]
    c.expect(key, "prescribed-potential-mask", len(bad) == 0, rp, f"node {bad[:3]} at {x[bad[:1]]} with labels {[labs[i] for i in bad[:1]]} is marked {d[bad[:1]]} (D labels {D})")
    bad = np.nonzero(m != ~isD)[0]
    c.expect(key, "flux-mask", len(bad) == 0, rp, f"node {bad[:3]} at {x[bad[:1]]} with labels {[labs[i] for i in bad[:1]]} is marked {m[bad[:1]]}")
    c.expect(key, "any-prescribed-potential", bool(r[t + ".have_dirichlet"][0]) == bool(isD.any()), rp)
    f = pr.f(x)
    fl = (pr.g(x) * r[t + ".normals"]).sum(1)
    phi, dn, rhs = r[t + ".phi"], r[t + ".dphi_dn"], r[t + ".tmp_rhs"]
    def vals(what, v, ref, sel):
        if not sel.any(): return
        e = np.abs(v - ref)[sel]; j = np.nonzero(sel)[0][int(np.argmax(np.nan_to_num(e, nan=np.inf)))]
        c.bound(key, what, np.max(np.where(np.isnan(e), np.inf, e)), 1e-11 * (1 + np.abs(ref[sel]).max()), rp, f"(node {j} at {x[j]}: {v[j]:.10g}, prescribed {ref[j]:.10g})")
        c.count("imposed values compared", int(sel.sum()))
    vals("potential", phi, f, isD)
    vals("flux", dn, fl, isN)
    vals("zero-flux", dn, 0 * fl, isU)
    if not solved:
        vals("rhs-potential", rhs, f, isD); vals("rhs-flux", rhs, fl, isN); vals("rhs-zero", rhs, 0 * fl, isU)
        vals("initial-unknown-potential", phi, 0 * f, ~isD); vals("initial-unknown-flux", dn, 0 * f, isD)
    if flat:
        # every node's patch is plane: the node's normal is the patch's
        fl2 = (pr.g(x) * avg_normals(r, t + ".", t + ".")).sum(1)
        e = np.abs(dn - fl2)[isN]
        if len(e): c.bound(key, "flux-on-plane-patch", e.max(), 1e-7 * (1 + np.abs(fl2).max()), rp)
    return isD, isN, isU

def main():
    c = Check("C13", "meshes x label assignments (mixed, overlapping, unlabelled, absent ids) x shared or duplicated edge nodes x element order x ranks x refinement history; "
              "non-trivial when both kinds of node or an unlabelled patch are present",
              ["nodes shared by a flux patch and an unlabelled patch are judged for their kind only", "the node's normal is the one the run recovered; its exactness is C14"])
    c.need("rel", "pb")
    rng = c.rng
    G = {"box": M.box((2, 2, 2)), "boxm": M.box((2, 3, 2), split=False), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2), "sphere": M.qsphere(2, mats=(1, 2, 3, 4, 5, 6), split=False),
         "spheres": M.qsphere(3, mats=(1, 2, 3, 4, 5, 6)), "lshape": M.lshape(1), "tetra": M.tetra(2, split=False), "two": M.union(M.box(), M.box(center=(3, 0, 0), mats=(7, 8, 9, 10, 11, 12))),
         "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 4), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 4, split=False), "ngon": M.ngon(16, mats=[1 + i // 3 for i in range(16)], split=False),
         "box12": M.prism([(np.cos(a), np.sin(a)) for a in np.arange(12) * np.pi / 6], 1., 1, 1)}
    flat = {"box", "prism", "lshape", "two", "sq", "box12"}
    L = []
    def add(mn, D, N, **k):
        L.append((f"{mn}-D{''.join(map(str, D))}-N{''.join(map(str, N))}-" + "-".join(f"{a}{b}" for a, b in k.items()), mn, tuple(D), tuple(N), k))
    add("box", (1, 2), (3, 4, 5, 6)); add("box", (1,), (2, 3), np_=2); add("boxm", (5,), (1, 2, 3, 4, 6), np_=3); add("boxm", (1, 3), (3, 4, 2), fe=2)
    add("prism", (2, 6, 1), (3,), np_=2, adapt=1); add("sphere", (1, 4), (2, 3, 5, 6), fe=2, np_=2); add("spheres", (3,), (1, 2, 4, 5, 6), adapt=2)
    add("lshape", (8, 1), (2, 3, 4, 5, 6, 7), adapt=1); add("tetra", (4,), (1, 2, 3), np_=3); add("two", (3, 8), (1, 2, 4, 5, 6, 7, 9, 10, 11)); add("two", (8, 12), (7, 9, 10, 11), np_=4)
    add("sq", (1,), (2, 3)); add("sqm", (2, 1), (3, 4), np_=2, fe=2); add("ngon", (3,), (1, 2, 4, 5, 6), np_=3); add("box", (1, 2, 3, 4, 5, 6), (), np_=2); add("box", (), (1, 2, 3, 4, 5, 6), np_=2, harm=1)
    add("box12", (11, 14, 3), (1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 13), np_=2); add("box", (2,), (1, 3, 4), method="FMA", np_=2); add("boxm", (1, 20, 2), (21, 3, 1, 4, 5, 6), np_=2, adapt=1)
    add("sqm", (), (1, 2, 3, 4), harm=1); add("sphere", (2,), (), np_=2); add("prism", (1,), (2, 3, 4, 5, 6), qdg=0, maptype="Q", mapdeg=2, fe=2)
    # handles, cavities, holes
    G.update(frame=M.frame(), shell=M.shell(), annulus=M.annulus())
    add("frame", (1, 7), (2, 3, 4, 8, 9), np_=2); add("shell", (2, 9), (1, 3, 4, 5, 6, 7, 8, 10, 11), np_=3, adapt=1); add("annulus", (1, 6), (2, 3, 4, 5), np_=2)
    # curved cells: the repository's spheres and circle, spheroids
    G.update(csphere=M.grid("coarse_sphere"), csphered=M.grid("coarse_sphere_double_nodes"), ccircle=M.grid("circle"))
    ax = dict(spheroid=True, ax="1.7", ay="0.6", az="1.2")
    add("csphered", (1,), (0,), ncyc=1, np_=2, **ax); add("csphered", (0,), (1,), ncyc=1, maptype="Q", mapdeg=2); add("csphered", (0,), (), fe=2, **ax); add("csphere", (1,), (0,), fe=2, maptype="Q", mapdeg=3, np_=2); add("ccircle", (1,), (), fe=2, maptype="Q", mapdeg=2)
    names = list(G)
    for i in range(150 if c.thorough else 8):
        mn = names[rng.integers(len(names))]; ids = sorted(set(G[mn].mat)); q = rng.random(len(ids))
        D = [a for a, z in zip(ids, q) if z < .4] or [ids[0]]; N = [a for a, z in zip(ids, q) if z > .35 and (z < .85 or rng.random() < .5)]
        rng.shuffle(D); rng.shuffle(N)
        add(mn, D, N, np_=int(rng.integers(1, 4)), fe=int(rng.choice([1, 1, 2])), data=int(rng.integers(3)), adapt=int(rng.integers(0, 2)) if G[mn].dim == 3 else 0, **(dict(ncyc=1) if getattr(G[mn], 'grid', None) else {}))
    def one(cs):
        name, mn, D, N, k = cs
        k = dict(k); m = G[mn]; np_ = k.pop("np_", 1); ad = k.pop("adapt", 0); h = k.pop("harm", None); k.pop("qdg", 0)
        dd = k.pop("data", len(name)); fe = k.pop("fe", 1)
        pr = Prob(name, m, D=D, N=N, h=data(dd, m.dim) if h is None else h, feo=fe, vfeo=fe, **k)
        ops = ["read", "refine", "update"]
        for a in range(ad):
            ops += ["reinit", "solve", "adapt", "update"]
        ops += ["reinit", "initbc", "normals", "prep", "dofs:p", "sol:p", "tria:p", "geomsp:p", "solve", "dofs:t", "sol:t", "tria:t", "geomsp:t", "solve", "sol:u"]
        r = c.run(name, m.dim, pr.params(steps=2000, tol=1e-8), ops, files=pr.files(), np_=np_)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files()))
        ish = mn in flat
        isD, isN, isU = judge(c, name + "-before", pr, r, "p", D, N, rp, False, ish, True)
        judge(c, name + "-after", pr, r, "t", D, N, rp, True, ish, True)
        for q, s in (("phi", isD), ("dphi_dn", ~isD)):
            if s.any(): c.bound(name, "unchanged-by-repeated-solve-" + q, np.abs(r["u." + q] - r["t." + q])[s].max(), 0, rp)
        c.case(name, nontrivial=(isD.any() and isN.any()) or isU.any(), sample=dict(case=name, prescribed_potential=int(isD.sum()), flux=int(isN.sum()), unlabelled=int(isU.sum()), ranks=np_))
        c.count("nodes with prescribed potential", int(isD.sum())); c.count("flux nodes", int(isN.sum())); c.count("unlabelled nodes", int(isU.sum()))
        c.count("nodes shared by flux and unlabelled patches", int((~isD & ~isN & ~isU).sum()))
    c.map(one, L, workers=6)
    c.finish()
main()
