#!/usr/bin/env python3-vt
"""C02: assembled operators and solid angles against independently integrated ones."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import math

def solid_angles(m, x):
    """Interior solid-angle fraction at points x of a polyhedral/polygonal surface (planar cells)."""
    out = np.zeros(len(x)); diam = np.ptp(m.v, axis=0).max()
    for i, p in enumerate(x):
        if m.dim == 2:
            a = m.v[m.cells[:, 0]] - p; b = m.v[m.cells[:, 1]] - p
            cr = a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]; dt = (a * b).sum(1)
            na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
            on = np.abs(cr) < 1e-11 * diam * diam
            out[i] = np.arctan2(cr, dt)[~on].sum() / (2 * math.pi)
        else:
            R = m.v[m.cells] - p
            for t in ((0, 1, 2), (0, 2, 3)):
                a, b, c = R[:, t[0]], R[:, t[1]], R[:, t[2]]
                la, lb, lc = (np.linalg.norm(z, axis=1) for z in (a, b, c))
                num = np.einsum("ij,ij->i", a, np.cross(b, c))
                den = la * lb * lc + (a * b).sum(1) * lc + (b * c).sum(1) * la + (a * c).sum(1) * lb
                on = np.abs(num) < 1e-11 * diam ** 3
                out[i] += (2 * np.arctan2(num, den))[~on].sum() / (4 * math.pi)
    return out

def cases(c):
    rng = c.rng
    rot = lambda m: m.affine(rng.uniform(0.4, 2.5) * M.rotation(rng, m.dim), rng.uniform(-1, 1, m.dim)).renumber(rng)
    L = []
    def add(name, m, planar=True, np_=1, meth="Direct", **k):
        L.append((name, m, planar, np_, meth, k))
    tri = [(0, 0), (1, 0), (.3, .8)]
    add("box222", M.box((2, 2, 2)))
    add("box123-merged", M.box((1, 2, 3), (1, 1.4, 2), split=False), np_=2)
    add("roof", rot(M.roof(.05)), qorder=5, sorder=5)
    add("prism3", rot(M.prism(tri)), qorder=6, sorder=3)
    add("lshape", rot(M.lshape(1)), np_=3)
    add("tetra", rot(M.tetra(1)), qorder=3, sorder=7)
    add("sphere", rot(M.qsphere(3)), planar=False)
    add("ellipsoid6", M.qsphere(2, mats=(1, 2, 3, 4, 5, 6), axes=(1, 1.5, .6)), planar=False, qorder=5)
    add("bumpbox", M.bump(M.box((2, 2, 2)), .12, 2., rng.uniform(0, 6)), planar=False)
    add("flatbox", rot(M.box((2, 2, 1), (2, 2, .15))), qorder=5)
    add("box111-fe2", rot(M.box((1, 1, 1))), feo=2, vfeo=2)
    add("bump-fe2", M.bump(M.box((1, 1, 1)), .1, 1.5), planar=False, feo=2, vfeo=2, sorder=6, np_=2)
    add("box-mapq2", M.box((2, 1, 1)), maptype="Q", mapdeg=2)
    add("box-refined", M.box((1, 1, 1)), ncyc=2)
    add("pent-midpoint", M.prism([(math.cos(t), math.sin(t)) for t in np.arange(5) * 2 * math.pi / 5]), qtype="weddle", qorder=0)
    add("square", M.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], 3))
    add("ngon", rot(M.ngon(11)), np_=2)
    add("ellipse2", rot(M.ngon(14, mats=[1] * 5 + [2] * 9, axes=(1, .4))))
    st = [((1 if k % 2 else .45) * math.cos(k * math.pi / 5), (1 if k % 2 else .45) * math.sin(k * math.pi / 5)) for k in range(10)]
    add("star", rot(M.polygon(st, 2)), qorder=6, sorder=9)
    add("tri-fe2", rot(M.polygon([(0, 0), (2, 0), (.5, 1.2)], 2)), feo=2, vfeo=2, np_=3)
    add("ngon-fe3-mapq", M.ngon(9), feo=3, vfeo=3, maptype="Q", mapdeg=1)
    add("square-q2", rot(M.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], 2, split=False)), qorder=2, sorder=4)
    add("frame", rot(M.frame()), np_=2); add("shell", rot(M.shell(2, 1))); add("torus", M.torus(7, 5), planar=False); add("annulus", rot(M.annulus()), np_=2)
    add("fma-alpha-box", M.box((2, 2, 2)), meth="FMA", levels=3, leaf=8, p=7)
    add("fma-alpha-sphere", rot(M.qsphere(3)), planar=False, meth="FMA", levels=3, leaf=8, p=7, np_=2)
    # curved cells (grids of the repository with their spherical manifold, spheroids): the singular rules live on the same geometry
    g = lambda name, grid, np_=1, meth="Direct", **k: add(name, None, False, np_, meth, grid=grid, dim=2 if grid == "circle" else 3, **k)
    g("sphere-Q2", "coarse_sphere", ncyc=1, maptype="Q", mapdeg=2); g("sphere-fe2", "coarse_sphere", feo=2, vfeo=2, np_=2); g("sphere-Q3-fe2", "coarse_sphere_double_nodes", maptype="Q", mapdeg=3, feo=2, vfeo=2)
    g("spheroid", "coarse_sphere_double_nodes", ncyc=1, spheroid=True, ax="1.5", ay="0.7", az="1.1", np_=2); g("spheroid-fe2", "coarse_sphere", spheroid=True, ax="0.8", ay="1.7", az="1.1", feo=2, vfeo=2)
    g("circle-Q2", "circle", maptype="Q", mapdeg=2, feo=2, vfeo=2); g("circle-fe3", "circle", feo=3, vfeo=3, sorder=9, np_=2)
    g("fma-sphere-Q2", "coarse_sphere", meth="FMA", ncyc=1, maptype="Q", mapdeg=2, levels=3, leaf=8, p=7); g("fma-spheroid", "coarse_sphere", meth="FMA", ncyc=1, spheroid=True, ax="1.3", ay="0.7", az="1.1", levels=3, leaf=8, p=7)
    # hanging nodes: with higher orders several nodes of one patch coincide on a side with hanging nodes
    add("hang-box", M.box((2, 2, 1)), ad=1); add("hang-box-fe2", M.box((2, 1, 1)), ad=1, feo=2, vfeo=2); add("hang-bump-fe2", M.bump(M.box((1, 1, 1)), .1, 1.5), planar=False, ad=2, feo=2, vfeo=2, np_=2)
    add("hang-merged-fe2", rot(M.box((1, 1, 2), split=False)), ad=1, feo=2, vfeo=2, qorder=5, sorder=4); add("hang-fe3", M.box((1, 1, 1)), ad=1, feo=3, vfeo=3, np_=2); add("hang-fma-fe2", M.box((1, 1, 1)), meth="FMA", ad=1, feo=2, vfeo=2, levels=3, leaf=12, p=7)
    g("hang-sphere-fe2", "coarse_sphere", ad=1, feo=2, vfeo=2, np_=2)
    n = 60 if c.thorough else 4
    for k in range(n):
        d3 = k % 2 == 0
        q = dict(qorder=int(rng.integers(3, 7)), sorder=int(rng.integers(3, 8)))
        if d3:
            poly = sorted(rng.uniform(0, 2 * math.pi, rng.integers(3, 6)))
            while max(np.diff(list(poly) + [poly[0] + 2 * math.pi])) > 2.6 or min(np.diff(list(poly) + [poly[0] + 2 * math.pi])) < .5:
                poly = sorted(rng.uniform(0, 2 * math.pi, rng.integers(3, 6)))
            add(f"rprism{k}", rot(M.prism([(math.cos(t), math.sin(t)) for t in poly], rng.uniform(.5, 2), split=bool(rng.integers(2)))), np_=int(rng.integers(1, 4)), **q)
        else:
            m = rng.integers(5, 12)
            add(f"rpoly{k}", rot(M.polygon([(rng.uniform(.4, 1) * math.cos(2 * math.pi * i / m), rng.uniform(.4, 1) * math.sin(2 * math.pi * i / m)) for i in range(m)], int(rng.integers(1, 4)), split=bool(rng.integers(2)))),
                np_=int(rng.integers(1, 4)), feo=1, **q)
    return L

def main():
    c = Check("C02", "meshes (polyhedra, smooth, curved cells, split and merged edges, renumbered, rotated, scaled) x element order x mapping x quadrature x ranks; "
              "a case is non-trivial when at least one singular and one regular node/cell pair was compared",
              ["cell geometry is taken from the program's mapping; the independent solid angles of planar meshes do not use it",
               "an entry may deviate from the high-accuracy integral by at most twice the error of the configured quadrature"])
    c.need("rel", "pb")
    def one(cs):
        name, m, planar, np_, meth, k = cs
        k = dict(k); dim = k.pop("dim", None) or m.dim; ad = k.pop("ad", 0)
        pr = Prob(name, m, D=sorted(set(m.mat)) if m is not None else (0, 1), dim=dim, **k)
        rule = f"{k.get('qtype', 'gauss')}:{k.get('qorder', 4)}:{k.get('sorder', 5)}"
        ops = ["read", "refine"] + ["reinit", "adaptf:x*x-y+exp(x)", "update"] * ad + ["reinit", "dofs:a", "refops:h:2", f"refops:c:0:{rule}"]
        if meth == "Direct":
            ops += ["assemble", "alpha", "mat:a", "sol:a"]
        else:
            ops += ["fma", "alpha", "sol:a", f"refops:t:1:{rule}"]
        r = c.run(name, dim, pr.params(method=meth), ops, files=pr.files(), np_=np_)
        if r is None:
            return
        H, HD, C, CD = r["h.refN"], r["h.refD"], r["c.refN"], r["c.refD"]
        n = len(H)
        sing = (np.abs(C - H) > 0).sum()
        if meth == "Direct":
            for nm, A, h, cc in (("double-layer", r["a.N"], H, C), ("single-layer", r["a.D"], HD, CD)):
                S = np.abs(h).max(1)[:, None]
                tol = 2 * np.abs(cc - h) + 1e-8 * S
                ratio = np.nan_to_num(np.abs(A - h) / tol, nan=np.inf)
                i, j = np.unravel_index(np.argmax(ratio), ratio.shape)
                c.count("operator entries compared", n * n)
                c.bound(name, nm, ratio[i, j], 1.0, c.replay(r), f"(entry {i},{j}: got {A[i,j]:.6g}, integral {h[i,j]:.6g}, configured rule {cc[i,j]:.6g})")
            rowtol = 2 * np.abs((C - H).sum(1)) + 1e-8
        else:
            C = r["t.refN"]
            rowtol = 2 * np.abs((C - H).sum(1)) + 3e-3
        al = r["a.alpha"]
        e = np.abs(al + H.sum(1)); q = e / rowtol
        i = int(np.argmax(np.nan_to_num(q, nan=np.inf)))
        c.bound(name, "solid-angle", q[i], 1.0, c.replay(r), f"(node {i}: got {al[i]:.6g}, integral {-H.sum(1)[i]:.6g})")
        if planar:
            ex = solid_angles(m, r["a.dof.x"])
            tol = 2 * np.abs(-C.sum(1) - ex) + (1e-8 if meth == "Direct" else 3e-3)
            q = np.abs(al - ex) / tol
            i = int(np.argmax(np.nan_to_num(q, nan=np.inf)))
            c.bound(name, "geometric-solid-angle", q[i], 1.0, c.replay(r), f"(node {i}: got {al[i]:.6g}, geometric {ex[i]:.6g})")
            # the configured rules are accurate enough for this comparison to mean something
            c.count("nodes with exact solid angle", n)
            c.margin("configured-rule solid-angle error", np.abs(-C.sum(1) - ex).max())
        c.case(name, nontrivial=n > 2, sample=dict(case=name, dofs=n, ranks=np_, method=meth, params=k, alpha_range=[float(al.min()), float(al.max())]))
    c.map(one, cases(c), workers=6)
    c.finish()
main()
