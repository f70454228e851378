#!/usr/bin/env python3-vt
"""C01: complete solves against exact harmonic potentials: patch tests, error bounds and convergence."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import math
STAR = [((1 if k % 2 else .45) * math.cos(k * math.pi / 5), (1 if k % 2 else .45) * math.sin(k * math.pi / 5)) for k in range(10)]
TRI = [(0, 0), (1, 0), (.3, .8)]
SQ = [(0, 0), (1, 0), (1, 1), (0, 1)]

def errors(pr, r):
    """Area-weighted and maximal errors of the unknown parts, relative to the exact field's size."""
    x = r["a.dof.x"]; D = r["a.dirichlet"] > .5
    n = avg_normals(r)
    cd = r["a.cell.dofs"].astype(int); w = np.zeros(len(x))
    np.add.at(w, cd.ravel(), np.einsum("cq,cqj->cj", r["b.geom.w"], r["b.geom.s"]).ravel())
    w = np.abs(w)
    ex, dn = pr.f(x), (pr.g(x) * n).sum(1)
    sp = np.ptp(ex) or 1; sd = np.abs(pr.g(x)).max()
    e = r["a.phi"] - ex; g = r["a.dphi_dn"] - dn
    l2 = lambda v, s: math.sqrt((w * v * v).sum() / w.sum()) / s
    o = dict(n=len(x), phi2=l2(e, sp), phi=np.abs(e).max() / sp, dn2=l2(g, sd), dn=np.abs(g).max() / sd)
    return o

def patch_cases(c):
    """Exactly representable solutions on flat faces: the error is that of the quadrature only."""
    rng = c.rng
    rot = lambda m: m.affine(rng.uniform(.5, 2) * M.rotation(rng, m.dim), rng.uniform(-1, 1, m.dim)).renumber(rng)
    L = []
    def add(name, m, D, h=0, np_=1, **k):
        ids = sorted(set(m.mat)); D = ids if D == "all" else list(D)
        kk = dict(qorder=9, sorder=8, tol="1e-11"); kk.update(k)
        L.append((name, Prob(name, m, D=D, N=[i for i in ids if i not in D], h=h, **kk), np_))
    add("box-D", rot(M.box((2, 2, 2))), "all")
    add("box-N", rot(M.box((2, 2, 2))), [])
    add("box-mix", rot(M.box((2, 3, 2), (1, 1.4, .8))), [1, 4, 5], np_=2)
    add("box-opp", M.box((2, 2, 2)), [1, 2])
    add("box-fma", rot(M.box((3, 3, 3))), [2, 3], method="FMA", levels=4, leaf=4, p=9, np_=2, threads=2)
    add("prism-D", rot(M.prism(TRI)), "all")
    add("prism-mix", rot(M.prism(TRI)), [1, 5])
    add("roof-mix", rot(M.roof(.05, 2)), [1, 4, 6])
    add("tetra-D", rot(M.tetra(1)), "all", np_=3)
    add("lshape-mix", rot(M.lshape(1)), [1, 3, 4, 7])
    add("lshape-D", rot(M.lshape(1)), "all")
    add("two", rot(M.union(M.box((2, 2, 2)), M.box((2, 2, 2), (.8, .6, .7), mats=(7, 8, 9, 10, 11, 12), center=(2, .3, .4)))), [1, 2, 9, 10])
    # holes, handles, cavities
    add("frame-D", rot(M.frame(1)), "all"); add("frame-mix", rot(M.frame(1, h=.8)), [1, 4, 7, 9], np_=2); add("frame-N", M.frame(1), []); add("frame-fma", rot(M.frame(2)), [2, 5, 8], method="FMA", levels=5, leaf=5, p=9, np_=2)
    add("shell-outer", rot(M.shell()), [1, 2, 3, 4, 5, 6]); add("shell-inner", rot(M.shell()), [7, 8, 9, 10, 11, 12], np_=2); add("shell-mix", rot(M.shell()), [1, 4, 8, 11]); add("shell-D", rot(M.shell()), "all"); add("shell-fma", rot(M.shell(3, 2)), [1, 2, 9, 10], method="FMA", levels=5, leaf=5, p=9)
    add("annulus-D", rot(M.annulus()), "all"); add("annulus-mix", rot(M.annulus()), [1, 2, 5]); add("annulus-outer", rot(M.annulus()), [1, 3]); add("annulus-inner", rot(M.annulus()), [5, 6, 7], np_=3)
    add("box-mapq", rot(M.box((2, 2, 2))), [1, 3, 5], maptype="Q", mapdeg=2)
    add("prism-msh", rot(M.prism(TRI)), [1, 2, 5], fmt="msh", prec="AMG")
    add("lshape-fma", rot(M.lshape(2)), [1, 3, 4, 7], method="FMA", levels=5, leaf=3, p=9, np_=3)
    add("tetra-N-fma", rot(M.tetra(2)), [], method="FMA", levels=3, leaf=8, p=9)
    add("two-D-fma", rot(M.union(M.box((2, 2, 2)), M.box((2, 2, 2), (.8, .6, .7), mats=(7, 8, 9, 10, 11, 12), center=(2, .3, .4)))), "all", method="FMA", levels=5, leaf=4, p=9)
    add("box-refined", rot(M.box((1, 1, 1))), [1, 3, 5], ncyc=2, fmt="vtk")
    add("box-elongated", rot(M.box((3, 2, 2), (6, 1, 1))), [1, 2], ncyc=0)
    add("box-fma-fe2", rot(M.box((2, 2, 2))), [1, 3], h=1, feo=2, vfeo=2, method="FMA", levels=4, leaf=6, p=9)
    add("box-fe2", rot(M.box((1, 1, 1))), [1, 3, 5], h=2, feo=2, vfeo=2)
    add("box-fe2-D", rot(M.box((1, 1, 1))), "all", h=1, feo=2, vfeo=2)
    add("square-D", rot(M.polygon(SQ, 3)), "all")
    # hanging nodes, linear and quadratic elements
    add("box-hang", rot(M.box((2, 2, 2))), [1, 3], ad=1); add("lshape-hang", rot(M.lshape(1)), [1, 3, 4, 7], ad=2, np_=2); add("prism-hang-D", rot(M.prism(TRI)), "all", ad=1)
    add("box-hang-fe2", M.box((2, 2, 2)), [1, 3, 5], ad=1, feo=2, vfeo=2, qorder=10, sorder=20); add("lshape-hang-fe2", rot(M.lshape(1)), "all", ad=1, feo=2, vfeo=2, qorder=18, sorder=20, np_=3); add("quad-hang-fe2", rot(M.prism([(0, 0), (1, 0), (1.2, .9), (.1, 1.1)], 1.1)), [2, 5], ad=1, feo=2, vfeo=2, qorder=18, sorder=20)
    add("square-mix", rot(M.polygon(SQ, 3)), [1, 3], np_=2)
    add("square-N", rot(M.polygon(SQ, 3)), [])
    add("star-mix", rot(M.polygon(STAR, 3)), [1, 2, 5, 8])
    add("star-D", rot(M.polygon(STAR, 3)), "all", np_=2)
    add("tri-fe2", rot(M.polygon([(0, 0), (2, 0), (.5, 1.2)], 3)), [1], h=2, feo=2, vfeo=2)
    add("tri-fe3", rot(M.polygon([(0, 0), (2, 0), (.5, 1.2)], 3)), [1], h=3, feo=3, vfeo=3)
    add("hexagon-refined", rot(M.ngon(6, mats=[1, 2, 3, 4, 5, 6])), [1, 2, 4], ncyc=2)
    for k in range(60 if c.thorough else 6):
        if k % 2:
            n = int(rng.integers(3, 8)); th = 2 * math.pi * (np.arange(n) + rng.uniform(-.25, .25, n)) / n
            m = rot(M.polygon([(math.cos(t), math.sin(t)) for t in th], int(rng.integers(2, 5))))
        else:
            n = int(rng.integers(3, 6)); th = 2 * math.pi * (np.arange(n) + rng.uniform(-.2, .2, n)) / n
            m = rot(M.prism([(math.cos(t), math.sin(t)) for t in th], rng.uniform(.6, 1.6)))
        ids = sorted(set(m.mat)); D = [i for i in ids if rng.random() < .5]
        add(f"rand{k}-D{'.'.join(map(str, D))}", m, D, np_=int(rng.integers(1, 4)), fmt=str(rng.choice(["inp", "msh", "vtk"])))
    return L

def conv_cases(c):
    """(name, two problems of mesh size h and h/2, ranks)"""
    rng = c.rng; L = []
    def add(name, f, D, h, np_=1, **k):
        ps = []
        A, b, ph = M.rotation(rng, f(1).dim), rng.uniform(-.3, .3, f(1).dim), rng.uniform(0, 6)
        for lev in (1, 2):
            m = f(lev).affine(A, b); ids = sorted(set(m.mat)); DD = ids if D == "all" else list(D)
            ps.append(Prob(name, m, D=DD, N=[i for i in ids if i not in DD], h=h, **k))
        L.append((name, ps, np_))
    add("box-D", lambda l: M.box((2 * l,) * 3), "all", 2)
    add("box-mix", lambda l: M.box((2 * l,) * 3), [1, 3, 6], 5, np_=2)
    add("box-N", lambda l: M.box((2 * l,) * 3), [], 8)
    add("box-fma", lambda l: M.box((3 * l,) * 3), [1, 3, 6], 6, method="FMA", levels=5, leaf=6, p=6)
    add("lshape-mix", lambda l: M.lshape(l), [1, 3, 8], 2, method="FMA", levels=4, leaf=5, p=7, np_=2)
    add("prism-mix", lambda l: M.prism(TRI, 1, l, l), [2, 5], 4)
    add("sphere-N", lambda l: M.qsphere(2 * l), [], 2)
    add("sphere-D", lambda l: M.qsphere(2 * l), "all", 1)
    add("ellipsoid-mix", lambda l: M.qsphere(2 * l, mats=(1, 1, 1, 1, 1, 2), axes=(1, .7, 1.3)), [2], 3)
    add("ell-N-fma", lambda l: M.qsphere(3 * l, axes=(1, .7, 1.3)), [], 7, method="FMA", levels=4, leaf=6, p=6, np_=2)
    add("torus-N", lambda l: M.torus(6 * l, 4 * l), [], 5); add("torus-D", lambda l: M.torus(6 * l, 4 * l), "all", 7, np_=2)
    add("merged-mix", lambda l: M.box((2 * l,) * 3, split=False), [], 2)
    add("square-D", lambda l: M.polygon(SQ, 4 * l), "all", 3)
    add("square-mix", lambda l: M.polygon(SQ, 4 * l), [1, 2], 4, np_=2)
    add("star-mix", lambda l: M.polygon(STAR, 3 * l), [1, 2, 5, 8], 2)
    add("ngon-D", lambda l: M.ngon(12 * l, axes=(1, .6)), "all", 3)
    add("ngon-N", lambda l: M.ngon(12 * l, axes=(1, .6)), [], 4)
    add("ngon-DD", lambda l: M.ngon(12 * l, mats=([1] * (4 * l) + [2] * (8 * l))), "all", 3)
    add("ngon-mix", lambda l: M.ngon(12 * l, mats=([1] * (4 * l) + [2] * (8 * l))), [1], 5)
    def grid(name, dim, lev_, D, N, h, np_=1, **k):
        L.append((name, [Prob(name, None, D=D, N=N, h=h, dim=dim, **{**k, **l}) for l in lev_], np_))
    ncs = lambda a, b: [dict(ncyc=a), dict(ncyc=b)]
    grid("run-sphere-mixed", 3, [dict(ncyc=2), dict(ncyc=3)], [1], [0], 2, grid="coarse_sphere_double_nodes")
    grid("run-sphere-N", 3, ncs(2, 3), [], [1], 3, np_=2, grid="coarse_sphere", method="FMA", p=6, levels=4, leaf=6)
    grid("run-sphere-D", 3, ncs(1, 2), [1], [], 2, grid="coarse_sphere")
    grid("run-circle-D", 2, ncs(1, 2), [1], [], 3, grid="circle")
    grid("run-circle-N-Q2", 2, ncs(1, 2), [], [1], 2, grid="circle", maptype="Q", mapdeg=2, feo=2, vfeo=2, np_=2)
    grid("run-sphere-Q2", 3, ncs(1, 2), [], [1], 4, grid="coarse_sphere", maptype="Q", mapdeg=2, feo=2, vfeo=2)
    grid("run-cube-mixed", 3, ncs(1, 2), [1], [0], 4, grid="coarse_cube_double_nodes", np_=3)
    ad = lambda a, b, **k: [dict(pre=a, ncyc=b, **{"global": False})]
    grid("run-adapt-sphere", 3, [dict(pre=2, ncyc=0, **{"global": False}), dict(pre=2, ncyc=3, **{"global": False})], [], [1], 7, grid="coarse_sphere", refine=".4", coarsen="0")
    grid("run-adapt-circle", 2, [dict(pre=1, ncyc=0, **{"global": False}), dict(pre=1, ncyc=3, **{"global": False})], [], [1], 4, grid="circle", refine=".5", coarsen="0", np_=2)
    return L

def main():
    c = Check("C01", "complete solves: dimensions x meshes (split sharp edges, smooth, several bodies) x prescribed/flux splits x harmonic potentials x methods x element orders x ranks; "
              "non-trivial when part of the boundary values is unknown (always)",
              ["meshes with sharp edges have duplicated nodes there, as the program's documentation requires for prescribed-potential edges",
               "patch-test bounds are those of near-singular quadrature; convergence is asserted between two mesh sizes"])
    c.need("rel", "pb")
    ops = ["read", "refine", "reinit", "solve", "dofs:a", "sol:a", "geomsp:a", "geom:b:0"]
    def one(it):
        kind, name, pr, np_ = it
        ps = pr if isinstance(pr, list) else [pr]; E = []
        for p in ps:
            ex = dict(p.extra); th = ex.pop("threads", 1); ad = ex.pop("ad", 0); p.extra = ex
            r = c.run(f"{kind}-{name}", p.dim, p.params(), (ops[:2] + ["reinit", "adaptf:x*x-y*x+exp(x)", "update"] * ad + ops[2:] if ad else ops) if p.mesh is not None else ["run"] + ops[4:], files=p.files(), np_=np_, threads=th, timeout=400)
            if r is None:
                return
            E.append(errors(p, r)); rp = c.replay(r, dict(files=p.files()))
        key = f"{kind}-{name}"
        if c.verbose:
            print(key, [{k: (v if k == "n" else float(f"{v:.2g}")) for k, v in e.items()} for e in E])
        if kind == "patch":
            hi2 = p.dim == 2 and p.extra.get("feo", 1) > 1
            tp, td = (2e-2, .15) if p.extra.get("method") == "FMA" and p.extra.get("feo", 1) > 1 else (2e-3, 1.2e-2) if p.extra.get("method") == "FMA" else (8e-3, 5e-2) if hi2 else (3e-4, 2e-3) if "hang-fe2" in name and "box" not in name else (1e-4, 3e-4)
            c.bound(key, "potential", E[0]["phi"], tp, rp); c.bound(key, "flux", E[0]["dn"], td, rp)
        else:
            a, b = E
            merged = name.startswith("merged")
            c.bound(key, "potential-L2", b["phi2"], 8e-2 if name.startswith("torus") else 2e-2 if merged else 1.2e-2, rp)
            if not merged:
                c.bound(key, "flux-L2", b["dn2"], 6e-2, rp)
            for w, lim, floor in (("phi2", .7, 2e-4), ("dn2", .7, .02)):
                if a[w] > (max(floor, 3e-3) if p.extra.get("method") == "FMA" else floor) and not (merged and w == "dn2"):
                    c.bound(key, "decrease-" + w, b[w] / a[w], lim, rp, f"({a[w]:.3g} -> {b[w]:.3g})")
        c.case(key, sample=dict(case=key, ranks=np_, errors=E[-1], D=list(p.D), N=list(p.N), potential=p.expr))
        c.count("boundary unknowns solved for", sum(e["n"] for e in E))
    items = [("conv",) + x for x in conv_cases(c)] + [("patch",) + x for x in patch_cases(c)]
    items.sort(key=lambda x: -((len(x[2][-1].mesh.cells) if x[2][-1].mesh is not None else 300) if isinstance(x[2], list) else 0))
    items = [i for i in items if not c.only or c.only in f"{i[0]}-{i[1]}"]
    c.only = ""
    c.map(one, items, workers=7)
    c.finish()
main()
