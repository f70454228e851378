#!/usr/bin/env python3-vt
"""C14: recovered normals and gradients against own projections, against exact fields, and under refinement."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import scipy.sparse as sp
import scipy.sparse.linalg as spl

def hanging(r, t, n):
    """Interpolation of nodal vectors from the nodes that are not hanging."""
    p, j, w, l = r[t + "hn.ptr"].astype(int), r[t + "hn.idx"].astype(int), r[t + "hn.w"], r[t + "hn.line"].astype(int)
    C = sp.lil_matrix((n, n)); hl = set(l)
    for i in range(n):
        if i not in hl: C[i, i] = 1
    for k, i in enumerate(l):
        for a in range(p[k], p[k + 1]): C[i, j[a]] += w[a]
    C = C.tocsr()
    for _ in range(5):
        keep = C.copy(); D = sp.identity(n, format="csr")
        m = np.array([i in hl for i in range(n)])
        if not m.any() or abs(C[:, m]).sum() == 0: break
        C = C @ C
    free = np.array([i not in hl for i in range(n)])
    return C[:, free]

class Proj:
    def __init__(self, r, t="t."):
        self.cd = r[t + "cell.dofs"].astype(int); self.n = len(r[t + "dof.x"])
        self.s, self.w = r[t + "geom.s"], r[t + "geom.w"]
        self.C = hanging(r, t, self.n)
        I = np.repeat(self.cd, self.cd.shape[1], 1).ravel(); J = np.tile(self.cd, (1, self.cd.shape[1])).ravel()
        Ml = np.einsum("cqi,cqj,cq->cij", self.s, self.s, self.w)
        self.M = sp.csr_matrix((Ml.ravel(), (I, J)), (self.n, self.n))
        self.lu = spl.splu((self.C.T @ self.M @ self.C).tocsc())
    def __call__(self, f):
        """Projection of values at the quadrature points (cells, points, components)."""
        b = np.zeros((self.n, f.shape[2]))
        np.add.at(b, self.cd, np.einsum("cqi,cqd,cq->cid", self.s, f, self.w))
        return self.C @ self.lu.solve(np.ascontiguousarray(self.C.T @ b))

def main():
    c = Check("C14", "meshes (plane, curved, merged, hanging nodes) x nodal fields x element order x mapping x quadrature x ranks; non-trivial when fields were projected on at least ten cells",
              ["the reference projections use the program's mapping and configured rule with own assembly and a direct solve"])
    c.need("rel", "pb")
    rng = c.rng
    def rot(m): return m.affine(rng.uniform(.5, 2) * M.rotation(rng, 3), rng.uniform(-1, 1, 3)).renumber(rng)
    six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((3, 2, 2)), "boxr": rot(M.box((3, 2, 2))), "prism": rot(M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2)), "sphere": M.qsphere(3), "ssphere": M.qsphere(3, mats=six), "lshape": M.lshape(2), "tetra": rot(M.tetra(2)),
         "merged": M.box((2, 2, 2), split=False), "ellipsoid": rot(M.qsphere(3, axes=(1, 1.5, .7))), "bump": M.bump(M.box((3, 3, 3)), .08, 2), "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 5), "ngon": M.ngon(24), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 5, split=False)}
    flat = {"box", "boxr", "prism", "lshape", "tetra", "sq"}
    F3 = [("sin(2*x+0.3)+y*z", "cos(y)+x*z"), ("x*x-y*z+2", "exp(z/2)*x"), ("x+2*y-3*z", "1+x-y+z"), ("x*y*z", "x*x+y"), ("1", "0")]
    F2 = [("sin(2*x+0.3)+y", "cos(y)+x"), ("x*x-y*x+2", "exp(y/2)*x"), ("x+2*y", "1+x-y"), ("3", "1")]
    L = []
    def add(mn, f=0, **k):
        L.append((f"{mn}-f{f}-" + "-".join(f"{a}{b}" for a, b in k.items()), mn, f, k))
    for i, mn in enumerate(G): add(mn, i % 4, np_=1 + i % 3)
    add("box", 0, fe=2); add("sphere", 1, fe=2, np_=2); add("ellipsoid", 0, fe=3); add("bump", 1, adapt=1, np_=2); add("sphere", 0, adapt=2, np_=3); add("box", 2, adapt=2, np_=2); add("merged", 2, adapt=1, fe=2); add("sq", 0, fe=3, np_=2); add("ngon", 1, fe=2, np_=3)
    add("sphere", 0, maptype="Q", mapdeg=1, np_=2); add("bump", 0, maptype="Q", mapdeg=2); add("sphere", 2, qorder=2); add("ssphere", 3, qorder=7, np_=4); add("prism", 4, np_=2); add("tetra", 2, np_=3, fe=2)
    # handles, cavities, holes
    G.update(frame=rot(M.frame()), shell=M.shell(), torus=M.torus(8, 6), annulus=M.annulus())
    add("frame", 0, np_=2); add("shell", 1, adapt=1); add("torus", 2, np_=3); add("annulus", 0, np_=2)
    # curved cells: the repository's spheres and circle, spheroids
    G.update(csphere=M.grid("coarse_sphere"), csphered=M.grid("coarse_sphere_double_nodes"), ccircle=M.grid("circle"))
    ax = dict(spheroid=True, ax="1.7", ay="0.6", az="1.2")
    add("csphered", 0, ncyc=1, np_=2, **ax); add("csphered", 1, ncyc=1, maptype="Q", mapdeg=2); add("csphere", 0, fe=2, **ax); add("csphere", 2, fe=2, ncyc=1, maptype="Q", mapdeg=3, np_=2); add("ccircle", 0, fe=2, maptype="Q", mapdeg=2); add("csphere", 1, ncyc=1, adapt=1, np_=2, **ax)
    names = list(G)
    for i in range(100 if c.thorough else 5):
        mn = names[rng.integers(len(names))]; d3 = G[mn].dim == 3
        add(mn, int(rng.integers(4)), fe=int(rng.choice([1, 1, 2])), np_=int(rng.integers(1, 5)), adapt=int(rng.integers(0, 3)) if d3 and len(G[mn].cells) < 60 else 0, qorder=int(rng.integers(3, 7)), **(dict(ncyc=1) if getattr(G[mn], 'grid', None) else {}))
    def one(cs):
        name, mn, fi, k = cs
        k = dict(k); m = G[mn]; np_ = k.pop("np_", 1); ad = k.pop("adapt", 0); fe = k.pop("fe", 1)
        pr = Prob(name, m, D=sorted(set(m.mat)), feo=fe, vfeo=fe, **k)
        e1, e2 = (F3 if m.dim == 3 else F2)[fi]
        ops = ["read", "refine", "update"]
        for a in range(ad): ops += ["reinit", "adaptf:" + F3[1][0], "update"]
        ops += ["reinit", "normals", "surfgrad:" + e1, f"gradf:{e1}:{e2}", "dofs:t", "sol:t", "geom:t:0", "geomg:t", "geomsp:t2", "initbc", "prep", "cons", "dcons:t", "tria:t"]
        if fi % 2 == 0: ops += ["normals", "sol:rep"]
        r = c.run(name, m.dim, pr.params(tol=1e-11), ops, files=pr.files(), np_=np_)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files()))
        x = r["t.dof.x"]; n = len(x); cd = r["t.cell.dofs"].astype(int)
        pj = Proj(r)
        X = [x[:, d] for d in range(m.dim)]
        ev = lambda e: eval(e, dict(sin=np.sin, cos=np.cos, exp=np.exp), dict(zip("xyz", X))) * np.ones(n)
        phi, dn = ev(e1), ev(e2)
        nq = r["t.geom.n"]; sg = np.einsum("cqjd,cj->cqd", r["t.geom.g"], phi[cd]); fq = np.einsum("cqj,cj->cq", r["t.geom.s"], dn[cd])
        def cmp(what, got, ref, tol=1e-7):
            e = np.abs(got - ref).max(1); j = int(np.argmax(np.nan_to_num(e, nan=np.inf)))
            c.bound(name, what, e[j] / max(1e-2, np.abs(ref).max()), tol, rp, f"(node {j} at {x[j]}: {got[j]}, expected {ref[j]})")
            c.count("nodal vectors compared", n)
        nrm = r["t.normals"] if r["t.normals"].size else np.full((n, m.dim), np.nan)
        S, Gd = r["t.surfgrad"], r["t.grad"]
        cmp("normals-projection", nrm, pj(nq))
        cmp("surface-gradient-projection", S, pj(sg), 1e-7 if fi != 4 else 1e-9)
        cmp("gradient-projection", Gd, pj(sg + nq * fq[:, :, None]), 1e-7 if fi != 4 else 1e-9)
        if mn in flat:
            n0 = np.zeros((n, m.dim)); np.add.at(n0, cd, nq.mean(1)[:, None, :] * np.ones((1, cd.shape[1], 1))); n0 /= np.linalg.norm(n0, axis=1)[:, None]
            cmp("normals-plane", nrm, n0, 1e-8)
            if not hang(r, n).any(): c.bound(name, "normal-component-is-the-flux", np.abs((Gd * n0).sum(1) - dn).max() / (1 + np.abs(dn).max()), 1e-7, rp)
            c.bound(name, "tangential-component", np.abs(Gd - (Gd * n0).sum(1)[:, None] * n0 - S).max() / (1 + np.abs(S).max()), 1e-7, rp)
            c.bound(name, "surface-gradient-is-tangential", np.abs((S * n0).sum(1)).max() / (1 + np.abs(S).max()), 1e-8, rp)
            if fi == 2:
                g = np.array([1, 2, -3][:m.dim], float)
                cmp("linear-potential", S, g - (n0 @ g)[:, None] * n0, 1e-7)
        # every node's value comes from its own patch: orientation
        n0 = np.zeros((n, m.dim)); np.add.at(n0, cd, r["t2.geom.n"])
        c.expect(name, "normals-point-outward", ((n0 * nrm).sum(1) > 0).all(), rp)
        if "rep.normals" in r: c.bound(name, "normals-repeat", np.abs(r["rep.normals"] - nrm).max(), 1e-9, rp)
        c.case(name, nontrivial=len(cd) >= 10, sample=dict(case=name, nodes=n, hanging=int(hang(r, n).sum()), ranks=np_))
        c.count("hanging nodes", int(hang(r, n).sum()))
    def hang(r, n):
        h = np.zeros(n, bool); h[r["t.hn.line"].astype(int)] = True; return h
    c.map(one, L, workers=6)
    # --- of the solution, and convergence to the exact fields ---
    def sol(cs):
        name, mf, ns, k, rate = cs
        k = dict(k); np_ = k.pop("np_", 1); D = k.pop("D", None); E = []
        for q in ns:
            m = mf(q); ids = sorted(set(m.mat))
            pr = Prob(name, m, D=ids if D is None else D, N=[i for i in ids if D is not None and i not in D], **k)
            r = c.run(name, m.dim, pr.params(tol=1e-9, steps=2000), ["read", "refine", "update", "reinit", "solve", "sol:s", "errors", "dofs:t", "sol:t", "geomsp:t"], files=pr.files(), np_=np_, timeout=300)
            if r is None: return
            x = r["t.dof.x"]; g = pr.g(x); n0 = avg_normals(r, "t.", "t.")
            st = g - (g * n0).sum(1)[:, None] * n0
            if rate is None:
                rp = c.replay(r, dict(files=pr.files()))
                c.bound(name, "gradient-of-exact-solution", np.abs(r["t.grad"] - g).max() / np.abs(g).max(), 2e-5, rp)
                c.bound(name, "normals-of-run", np.abs(r["t.normals"] - n0).max(), 1e-6, rp)
            else:
                ne = np.array([(p - c0) for p, c0 in zip(x, np.zeros_like(x))]); ne /= np.linalg.norm(ne, axis=1)[:, None]
                E.append([np.sqrt(np.mean(((r["t.normals"] - ne) ** 2).sum(1))), np.sqrt(np.mean(((r["s.surfgrad"] - (g - (g * ne).sum(1)[:, None] * ne)) ** 2).sum(1))) if D is None else 1e-30, np.sqrt(np.mean(((r["t.grad"] - g) ** 2).sum(1))) / np.abs(g).max()])
        if rate is not None:
            E = np.array(E)
            for j, w in enumerate(("normals", "surface-gradient", "gradient")):
                c.bound(name, "final-error-" + w, E[-1][j], (.12, .2, .12)[j], None, str(E[:, j]))
                if E[0][j] > 1e-12: c.bound(name, "decrease-" + w, E[-1][j] / E[0][j], (ns[0] / ns[-1]) ** rate, None, str(E[:, j]))
        c.case(name, True, sample=dict(case=name, errors=[list(map(float, e)) for e in E]))
    S = [("lin-box", lambda q: M.box((q, q, q)), [2], dict(h=0, qorder=9, sorder=8, np_=2), None), ("lin-boxDN", lambda q: M.box((q, q, q)), [2], dict(h=0, qorder=9, sorder=8, D=(1, 3)), None), ("lin-prism", lambda q: M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2), [1], dict(h=0, qorder=9, sorder=8, np_=3, D=(1, 2)), None),
         ("conv-sphere", lambda q: M.qsphere(q), [2, 4, 8], dict(h=2), .8), ("conv-sphereN", lambda q: M.qsphere(q, mats=(1, 2, 1, 2, 1, 2), split=False), [2, 4, 8], dict(h=2, D=(1,), np_=2), .8), ("conv-circle", lambda q: M.ngon(q), [16, 32, 64], dict(h=2), .8)]
    c.map(sol, S, workers=6)
    # --- the gradients of the hypersingular equation, of the solution of a run with given potentials ---
    def hyp(cs):
        name, mf, ns, k, bnd = cs
        k = dict(k); np_ = k.pop("np_", 1); E = []
        for q in ns:
            m = mf(q); k2 = dict(k, **(dict(ncyc=q) if getattr(m, "grid", None) else {}))
            pr = Prob(name, m, D=sorted(set(m.mat)), N=[], **k2)
            r = c.run(name, m.dim, pr.params(tol=1e-10, steps=2000), ["read", "refine", "update", "reinit", "solve", "grad", "hypgrad", "sol:h", "dofs:t"], files=pr.files(), np_=np_, timeout=300)
            if r is None: return
            g = pr.g(r["t.dof.x"]); e = np.linalg.norm(r["h.grad"] - g, axis=1) / np.abs(g).max(); c.count("hypersingular gradients compared", len(e))
            rp = c.replay(r, dict(files=pr.files()))
            if name == "hyp-lshape":   # the free term assumes convex corners: judged apart
                re = (np.abs(r["t.dof.x"][:, :2] - 1) < 1e-9).all(1)
                c.bound(name, "hypersingular-gradient-reentrant", e[re].max(), bnd, rp); e = e[~re]
            E.append([float(e.max()), float(np.sqrt(np.mean(e ** 2)))])
        if len(ns) == 1: c.bound(name, "hypersingular-gradient", E[0][0], bnd, rp)
        else:
            c.bound(name, "hypersingular-final-error", E[-1][1], bnd, None, str(E)); c.bound(name, "hypersingular-decrease", E[-1][1] / E[0][1], .35, None, str(E))
        c.case(name, True, sample=dict(case=name, errors=E))
    gq = dict(qorder=8, sorder=8)
    cq = dict(maptype="Q", mapdeg=2, feo=2, vfeo=2, qorder=6, sorder=6)
    H = [("hyp-box", lambda q: M.box((q, q, q)), [3], dict(h=0, **gq), 1e-6), ("hyp-boxr", lambda q: rot(M.box((2, 3, 2))), [2], dict(h=0, np_=3, **gq), 1e-6), ("hyp-prism", lambda q: M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, q, 2), [1], dict(h=0, np_=2, **gq), 1e-5),
         ("hyp-lshape", lambda q: M.lshape(q), [2], dict(h=0, **gq), 1e-6), ("hyp-roof", lambda q: M.roof(.04, q), [2], dict(h=0, **gq), 1e-4), ("hyp-tetra", lambda q: M.tetra(q), [2], dict(h=0, np_=2, **gq), 1e-6), ("hyp-sphere", lambda q: M.grid("coarse_sphere"), [1, 2], dict(h=0, np_=2, **cq), .05), ("hyp-sphere2", lambda q: M.grid("coarse_sphere"), [1, 2], dict(h=2, **cq), .03)]
    c.map(hyp, H, workers=6)
    c.finish()
main()
