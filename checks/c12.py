#!/usr/bin/env python3-vt
"""C12: recorded triangulations against the grid files and an independent model of refinement."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
CYC = [0, 1, 3, 2]

def tcells(r, t):
    """(cells x corners in cyclic order x dim, labels, manifold labels)"""
    k = r[t + ".tria.cells"]; v = r[t + ".tria.v"]
    ix = k[:, 5:].astype(int)
    if ix.shape[1] == 4: ix = ix[:, CYC]
    return v[ix], k[:, 0].astype(int), k[:, 1].astype(int), ix
def canon(x, mat, scale, off):
    """Geometry + label of every cell, independent of numbering, start corner (not of the sense)."""
    q = np.rint((x - off) / (scale * 1e-7)).astype(np.int64)
    out = {}
    for c, m in zip(q, mat):
        rows = [tuple(p) for p in c]
        i = min(range(len(rows)), key=lambda j: rows[j:] + rows[:j])
        k = (int(m), tuple(rows[i:] + rows[:i]))
        out[k] = out.get(k, 0) + 1
    return out
def snap(x): # representatives for coordinates so that rounding cannot split equal points
    return x
def split_model(x):
    """One uniform refinement of straight/bilinear cells."""
    if x.shape[1] == 2:
        m = x.mean(1)
        return np.concatenate([np.stack([x[:, 0], m], 1), np.stack([m, x[:, 1]], 1)])
    e = [(x[:, k] + x[:, (k + 1) % 4]) / 2 for k in range(4)]; c = x.mean(1)
    return np.concatenate([np.stack([x[:, k], e[k], c, e[(k + 3) % 4]], 1) for k in range(4)])
def cut_model(x, ax):
    """One cell halved: ax = 0 cuts its 0-1/3-2 sides (shortens that direction)."""
    a, b, c, d = x
    if ax == 0:
        p, q = (a + b) / 2, (d + c) / 2
        return [np.array([a, p, q, d]), np.array([p, b, c, q])]
    p, q = (b + c) / 2, (a + d) / 2
    return [np.array([a, b, p, q]), np.array([q, p, c, d])]
def vecarea(x):
    if x.shape[1] == 2:
        t = x[:, 1] - x[:, 0]
        return np.stack([-t[:, 1], t[:, 0]], 1)  # (file order: the normal is on the left)
    return .5 * np.cross(x[:, 2] - x[:, 0], x[:, 3] - x[:, 1])
def volume(x):
    if x.shape[1] == 2: return -.5 * np.sum(x[:, 0, 0] * x[:, 1, 1] - x[:, 1, 0] * x[:, 0, 1])
    return sum(np.sum(np.einsum("ij,ij->i", x[:, a], np.cross(x[:, b], x[:, c]))) for a, b, c in ((0, 1, 2), (0, 2, 3), (0, 1, 3), (1, 2, 3))) / 12
def ratio(x):
    e = np.linalg.norm(np.roll(x, -1, 1) - x, axis=2)
    a, b = np.maximum(e[:, 0], e[:, 2]), np.maximum(e[:, 1], e[:, 3])
    return np.maximum(a, b) / np.minimum(a, b)
def same(c, key, what, A, B, rp):
    miss = [k for k in B if A.get(k, 0) != B[k]]; extra = [k for k in A if k not in B]
    c.count("cells compared", len(B))
    return c.expect(key, what, not miss and not extra, rp, f"{len(miss)} cells missing or repeated (e.g. label {miss[0][0] if miss else None}), {len(extra)} that should not be there (e.g. label {extra[0][0] if extra else None}) of {len(B)}")
def inp_file(path):
    """The written mesh file: (cells x corners, labels)."""
    L = open(path).read().split("\n"); L = [l for l in L if l.strip() and not l.startswith("#")]
    nv, nc = [int(t) for t in L[0].split()[:2]]
    v = {int(l.split()[0]): [float(t) for t in l.split()[1:4]] for l in L[1:nv + 1]}
    x, m = [], []
    for l in L[nv + 1:nv + 1 + nc]:
        w = l.split()
        if w[2] in ("quad", "line"): x.append([v[int(t)] for t in w[3:]]); m.append(int(w[1]))
    n = max(len(k) for k in x)
    keep = [i for i in range(len(x)) if len(x[i]) == n]
    return np.array([x[i] for i in keep]), np.array([m[i] for i in keep])
def partners(r, t, tol):
    """Nodes on patch borders without a coincident partner (distinct vertex of another cell border)."""
    x = r[t + ".tria.v"]; k = r[t + ".tria.cells"]; f = r[t + ".tria.faces"]
    FV = [(0, 2), (1, 3), (0, 1), (2, 3)]
    b = sorted({int(k[i, 5 + v]) for i in range(len(k)) for q in range(4) if f[i, q, 0] for v in FV[q]})
    if not b: return [], 0
    p = x[b]
    n = (np.linalg.norm(p[:, None] - p[None], axis=2) < tol).sum(1)
    return [b[i] for i in np.nonzero(n < 2)[0]], len(b)
def seams(r, t, tol):
    """Border edges of the patches that do not coincide with exactly one border edge of another cell."""
    x = r[t + ".tria.v"]; k = r[t + ".tria.cells"]; f = r[t + ".tria.faces"]
    FV = [(0, 2), (1, 3), (0, 1), (2, 3)]
    E = np.array([[x[int(k[i, 5 + v])] for v in FV[q]] for i in range(len(k)) for q in range(4) if f[i, q, 0]])
    if not len(E): return 0, 0
    mid, ln = E.mean(1), np.linalg.norm(E[:, 1] - E[:, 0], axis=1)
    D = np.linalg.norm(mid[:, None] - mid[None], axis=2) + np.abs(ln[:, None] - ln[None])
    return int(((D < tol).sum(1) != 2).sum()), len(E)
def leaf_of(c, key, x, mat, x0, m0, rp):
    """Every cell is a dyadic part of one original cell with its label, and the parts cover each original exactly once (area)."""
    A = np.linalg.norm(vecarea(x), axis=1); A0 = np.linalg.norm(vecarea(x0), axis=1)
    got = np.zeros(len(x0)); cen = x.mean(1); bad = 0
    C0 = x0.mean(1); U = x0[:, 1] - x0[:, 0]; V = x0[:, 3] - x0[:, 0]
    for i in range(len(x)):
        best = None
        for j in [q for q in np.argsort(np.linalg.norm(C0 - cen[i], axis=1)) if m0[q] == mat[i]]:
            B = np.stack([U[j], V[j]], 1)
            s, *_ = np.linalg.lstsq(B, (x[i] - x0[j, 0]).T, rcond=None)
            res = np.abs(B @ s - (x[i] - x0[j, 0]).T).max() / np.sqrt(A0[j])
            d = s * 1024
            if res < 1e-6 and (s > -1e-6).all() and (s < 1 + 1e-6).all() and np.abs(d - np.rint(d)).max() < 1e-3 and m0[j] == mat[i]: best = j; break
        if best is None: bad += 1
        else: got[best] += A[i]
    c.expect(key, "parts-of-original-cells", bad == 0, rp, f"{bad} of {len(x)} cells are not parts of a cell of the file with their label")
    if not bad: c.bound(key, "original-cells-covered", np.abs(got / A0 - 1).max(), 1e-6, rp)

def main():
    c = Check("C12", "grid files (format x mesh x labels x numbering) x number of refinements x aspect-ratio limits x mismatched patches x spheroid axes x ranks; distinct by case name, non-trivial when cells were compared",
              ["the geometry of unlabelled manifolds is the straight/bilinear one of the file's cells", "curved CAD surfaces are exercised with the repository's own profile"])
    c.need("rel", "pb")
    rng = c.rng
    six = (1, 2, 3, 4, 5, 6)
    def rot(m, b=True): return m.affine(rng.uniform(.5, 2) * M.rotation(rng, m.dim), rng.uniform(-1, 1, m.dim)).renumber(rng)
    def warp(m): return rot(M.bump(m, .08))
    G = {"box": M.box((2, 3, 1)), "boxr": rot(M.box((2, 1, 3))), "boxm": rot(M.box((2, 2, 2), split=False)), "prism": rot(M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2)), "tetra": rot(M.tetra(2)), "tetram": rot(M.tetra(1, split=False)), "lshape": rot(M.lshape(1)),
         "qsphere": rot(M.qsphere(3, mats=six)), "warped": warp(M.box((3, 2, 2))), "two": M.union(M.box((1, 1, 1)), M.box((2, 2, 2), size=(.5, .5, .5)).affine(np.eye(3), (3, .2, .1)).relabel(lambda i: i + 6)),
         "sq": rot(M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 3)), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 2, split=False), "ngon": rot(M.ngon(7, mats=[1, 1, 2, 2, 3, 3, 3]))}
    # ---- A: reading and uniform refinement ----
    L = []
    for mn in G:
        for fmt in ("inp", "msh", "vtk"):
            for n in ([0, 1, 2] if c.thorough else [int(rng.integers(0, 3))] if fmt != "inp" else [0, int(rng.integers(1, 3))]):
                lm = int(rng.integers(0, 3))
                L.append((f"read-{mn}-{fmt}-{n}-l{lm}", mn, fmt, n, lm, int(rng.integers(1, 4))))
    def read(cs):
        name, mn, fmt, n, lm, np_ = cs
        m = G[mn].relabel(lambda i: (i, 7 * i + 3, 250 - i)[lm])
        # quads are stored by rotation: the file's start corner is arbitrary
        pr = Prob(name, m, D=(1,), N=(2,), fmt=fmt)
        d3 = m.dim == 3
        r = c.run(name, m.dim, pr.params(aspect=1e6), ["read", "tria:r", f"refine:{n}", "tria:f", "update", "tria:u"], files=pr.files(), np_=np_, keep=True)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files()))
        x0 = m.v[m.filecells()]; off = m.v.min(0); sc = np.ptp(m.v, 0).max()
        x, lab, man, _ = tcells(r, "r")
        ref = canon(x0, m.mat, sc, off)
        ok = same(c, name, "cells-of-the-file", canon_like(x, lab, x0, sc), canon_like(x0, m.mat, x0, sc), rp)
        c.bound(name, "enclosed-volume", abs(volume(x) / volume(m.v[m.filecells()]) - 1), 1e-9, rp)
        if fmt == "inp":
            c.expect(name, "manifold-labels", (man == lab).all(), rp, f"manifold labels {sorted(set(man))[:8]} for material labels {sorted(set(lab))[:8]}")
        for k in range(n): x0 = split_model(x0)
        mats = np.tile(m.mat, (2 if not d3 else 4) ** n)
        x, lab, man, _ = tcells(r, "f")
        c.expect(name, "number-of-cells", len(x) == len(x0), rp, f"{len(x)} instead of {len(x0)}")
        same(c, name, "refined-cells", canon_like(x, lab, x0, sc), canon_like(x0, mats, x0, sc), rp)
        if fmt == "inp": c.expect(name, "manifold-labels-refined", (man == lab).all(), rp)
        xu, labu, _, _ = tcells(r, "u")
        same(c, name, "matching-patches-left-alone", canon_like(xu, labu, x0, sc), canon_like(x0, mats, x0, sc), rp)
        if d3:
            miss, nb = partners(r, "u", 1e-6 * sc); c.expect(name, "partners", not miss, rp, f"{len(miss)} of {nb}")
        # written mesh
        fx, fm = inp_file(r.dir + "/meshResult.inp")
        if not d3: fx = fx[:, :, :2]
        same(c, name, "written-mesh", canon_like(fx, fm, x0, sc, 1e-5), canon_like(x0, mats, x0, sc, 1e-5), rp)
        import shutil; shutil.rmtree(r.dir, ignore_errors=True)
        c.case(name, True, sample=dict(case=name, file_cells=len(m.mat), final_cells=len(x), ranks=np_))
    def canon_like(x, mat, ref, sc, tol=1e-7):
        """Canonical cells with points identified by the nearest reference point."""
        from scipy.spatial import cKDTree
        P = ref.reshape(-1, ref.shape[2]); T = cKDTree(P)
        # representatives of coincident reference points
        rep = np.arange(len(P))
        for a, b in sorted(T.query_pairs(tol * sc)): rep[b] = min(rep[b], rep[a])
        d, i = T.query(x.reshape(-1, x.shape[2]))
        i = np.where(d < tol * sc, rep[i], -1 - np.arange(len(i))).reshape(x.shape[:2])
        out = {}
        for row, m_ in zip(i, mat):
            row = [int(q) for q in row]; j = row.index(min(row)) if len(row) > 2 else 0
            k = (int(m_), tuple(row[j:] + row[:j])); out[k] = out.get(k, 0) + 1
        return out
    c.map(read, L)
    # ---- B: the repository's curved grids ----
    def sphere(cs):
        name, grid, dim, n, np_ = cs
        PB.link_grids()
        r = c.run(name, dim, P(dim, grid=grid, ncyc=n), ["read", "tria:r", f"refine:{n}", "update", "tria:f"], np_=np_)
        if r is None: return
        rp = c.replay(r)
        x0, l0, _, _ = tcells(r, "r"); x, l, man, ix = tcells(r, "f")
        f = (4 if dim == 3 else 2) ** n
        c.expect(name, "number-of-cells", len(x) == f * len(x0), rp, f"{len(x)} from {len(x0)}")
        for q in set(l0): c.expect(name, "labels", (l == q).sum() == f * (l0 == q).sum(), rp)
        rad = np.linalg.norm(x, axis=2); r0 = np.linalg.norm(x0, axis=2)
        c.bound(name, "new-vertices-on-the-sphere", max(r0.min() - rad.min(), rad.max() - r0.max(), 0), 1e-9, rp)
        v0 = {tuple(np.rint(p * 1e6).astype(int)) for p in x0.reshape(-1, dim)}; v = {tuple(np.rint(p * 1e6).astype(int)) for p in x.reshape(-1, dim)}
        c.expect(name, "file-vertices-kept", v0 <= v, rp)
        vol = volume(x); ex = 4 / 3 * np.pi if dim == 3 else np.pi
        c.bound(name, "enclosed-volume", abs(vol / ex - 1), [1., .33, .1, .028, .008][n] if dim == 3 else 1.05 * (2 * np.pi / len(x)) ** 2 / 6 + 1e-4, rp, f"({vol:.5g})")
        h = np.linalg.norm(x - np.roll(x, -1, 1), axis=2)
        c.bound(name, "uniform", h.max() / h.min(), 2.6 if dim == 3 else 1.5, rp)
        if dim == 3:
            miss, nb = partners(r, "f", 1e-7); c.expect(name, "partners", not miss, rp, f"{len(miss)} of {nb}")
            bad, nb = seams(r, "f", 1e-6); c.expect(name, "seams", not bad, rp, f"{bad} of {nb}")
        # every edge of the surface is shared by two cells (geometrically)
        q = np.rint(x * 1e6).astype(int); cnt = {}
        for row in q:
            for k in range(len(row) if dim == 3 else 0):
                e = frozenset((tuple(row[k]), tuple(row[(k + 1) % len(row)]))); cnt[e] = cnt.get(e, 0) + 1
        c.expect(name, "closed", all(a == 2 for a in cnt.values()), rp, f"{sum(a != 2 for a in cnt.values())} of {len(cnt)} edges")
        c.case(name, True, sample=dict(case=name, cells=len(x), volume=float(vol)))
    c.map(sphere, [(f"grid-{g}-{n}-np{np_}", g, d, n, np_) for g, d, top in (("coarse_sphere", 3, 4), ("coarse_sphere_double_nodes", 3, 4), ("circle", 2, 3)) for n, np_ in ([(0, 1), (1, 2), (2, 1), (3, 2)] + ([(4, 1)] if c.thorough and d == 3 else []))])
    # ---- C: aspect ratio ----
    L = []
    R = {"bar8": M.box((1, 1, 1), size=(8, 1, 1)), "bar5": M.box((2, 2, 1), size=(5, 1, .5)), "slab": M.box((1, 1, 1), size=(6, 5, .7)), "barr": rot(M.box((1, 2, 1), size=(1, 11, 1))), "barm": M.box((1, 1, 1), size=(7, 1, 1), split=False), "cube": M.box((2, 2, 2)),
         "prismr": rot(M.prism([(0, 0), (4, 0), (4, .5), (0, .5)], 1.5, 1, 1)), "mixed": M.box((4, 1, 2), size=(1, 3, 9)), "par": M.box((1, 1, 1), size=(7, 1, 1)).affine([[1, .4, .2], [0, 1, .3], [0, 0, 1]])}
    for mn in R:
        for a in ((1.5, 2., 3.5, 5.) if c.thorough else (float(rng.choice([1.6, 2., 2.5])), float(rng.choice([3.5, 5.])))):
            L.append((f"aspect-{mn}-{a}", mn, a, int(rng.integers(0, 2)), int(rng.integers(1, 3))))
    def aspect(cs):
        name, mn, a, n, np_ = cs
        m = R[mn]; pr = Prob(name, m, D=(1,), N=(2,))
        r = c.run(name, 3, pr.params(aspect=a), ["read", "tria:r", f"refine:{n}", "tria:f", "update", "tria:u"], files=pr.files(), np_=np_)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files())); sc = np.ptp(m.v, 0).max()
        x0, m0 = m.v[m.cells], m.mat
        for t in "fu":
            x, l, man, _ = tcells(r, t)
            c.bound(name, "within-the-limit", (ratio(x) / a).max(), 1 + 1e-9, rp)
            leaf_of(c, name, x, l, x0, m0, rp)
            c.expect(name, "manifold-labels", (man == l).all(), rp)
            c.bound(name, "enclosed-volume", abs(volume(x) / volume(m.v[m.filecells()]) - 1), 1e-9, rp)
            for q in set(m0): c.bound(name, "patch-area", np.abs(vecarea(x[l == q]).sum(0) - vecarea(x0[m0 == q]).sum(0)).max(), 1e-9 * sc ** 2, rp)
            if mn != "barm":
                miss, nb = partners(r, t, 1e-7); c.expect(name, "partners", not miss, rp, f"{len(miss)} of {nb}")
                bad, nb = seams(r, t, 1e-6); c.expect(name, "seams", not bad, rp, f"{bad} of {nb}")
        # independent cells: what halving over-long cells gives (before the uniform refinement)
        cur = [(q, k) for q, k in zip(x0, m0)]
        if mn in ("bar8", "barr", "cube") :
            for k in range(10):
                nx = []; done = True
                for q, k2 in cur:
                    e = np.linalg.norm(np.roll(q, -1, 0) - q, axis=1); u, v = max(e[0], e[2]), max(e[1], e[3])
                    if max(u, v) > a * min(u, v): nx += [(s, k2) for s in cut_model(q, 0 if u > v else 1)]; done = False
                    else: nx.append((q, k2))
                cur = nx
                if done: break
            ref = np.array([q for q, _ in cur]); mats = np.array([k for _, k in cur])
            for k in range(n): ref = split_model(ref); mats = np.tile(mats, 4)
            x, l, _, _ = tcells(r, "f")
            same(c, name, "halved-cells", canon_like(x, l, ref, sc), canon_like(ref, mats, ref, sc), rp)
        c.case(name, len(tcells(r, "f")[0]) > len(x0) * 4 ** n, sample=dict(case=name, cells=[len(x0), len(tcells(r, "f")[0])], worst_ratio=float(ratio(tcells(r, "f")[0]).max())))
    c.map(aspect, L)
    # ---- D: patches that do not match, local refinement near the origin ----
    def mism(n, ks, size=(1., 1., 1.)):
        """Box whose six sides have n*k x n*k cells."""
        b = [M.box((n * k,) * 3, size) for k in ks]
        parts = [(b[i].cells[b[i].mat == i + 1], b[i].v) for i in range(6)]
        v, cl, mt, o = [], [], [], 0
        for i, (cc, vv) in enumerate(parts):
            u = np.unique(cc); inv = {a: q for q, a in enumerate(u)}
            v.append(vv[u]); cl.append([[inv[a] + o for a in row] for row in cc]); mt += [i + 1] * len(cc); o += len(u)
        return M.Mesh(3, np.concatenate(v), np.concatenate(cl), mt)
    L = []
    for ks in ((1, 1, 1, 1, 1, 2), (1, 1, 2, 1, 1, 1), (4, 1, 1, 1, 1, 1), (1, 2, 1, 2, 1, 1)): L.append((f"mismatch-{'.'.join(map(str, ks))}", mism(1 if max(ks) > 2 else 2, ks), ["update"], 1))
    for i in range(30 if c.thorough else 5):
        ks = tuple(int(2 ** rng.integers(0, 3)) for _ in range(6)); sz = tuple(rng.uniform(.6, 1.6, 3))
        m = mism(int(rng.integers(1, 3)), ks, sz)
        L.append((f"mismatch-r{i}-{'.'.join(map(str, ks))}", rot(m) if rng.random() < .6 else m, [str(rng.choice(["update", "conform:1:1", "conform", "refine:0", "condrefine:0"]))], int(rng.integers(1, 4))))
    cen = M.box((3, 3, 3), (2, 2, 2))
    for i, (m, n) in enumerate([(M.box((2, 2, 2)).affine(np.eye(3), (.5, .5, .5)), 1), (M.box((3, 3, 3)).affine(np.eye(3) * 2, (.5, 0.3, .2)), 2), (M.lshape(1).affine(np.eye(3), (.1, .2, .3)), 2), (M.box((2, 2, 2)).affine(np.eye(3), (5, .5, .5)), 2)]):
        L.append((f"local-{i}-{n}", m, [f"condrefine:{n}"], 1 + i % 2))
    def conform(cs):
        name, m, ops, np_ = cs
        pr = Prob(name, m, D=(1,), N=(2,))
        r = c.run(name, 3, pr.params(aspect=1e6), ["read", "tria:r"] + ops + ["tria:f", "update", "tria:u"], files=pr.files(), np_=np_, timeout=60)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files())); sc = np.ptp(m.v, 0).max()
        x0, m0 = m.v[m.cells], m.mat
        x, l, man, _ = tcells(r, "f")
        miss, nb = partners(r, "f", 1e-7); c.expect(name, "partners", not miss, rp, f"{len(miss)} of {nb} border vertices have none")
        bad, nb = seams(r, "f", 1e-6); c.expect(name, "seams", not bad, rp, f"{bad} of {nb}")
        leaf_of(c, name, x, l, x0, m0, rp)
        c.expect(name, "manifold-labels", (man == l).all(), rp)
        c.bound(name, "enclosed-volume", abs(volume(x) / volume(m.v[m.filecells()]) - 1), 1e-9, rp)
        for q in set(m0): c.bound(name, "patch-area", np.abs(vecarea(x[l == q]).sum(0) - vecarea(x0[m0 == q]).sum(0)).max(), 1e-9 * sc ** 2, rp)
        xu, lu, _, _ = tcells(r, "u"); same(c, name, "second-pass-changes-nothing", canon_like(xu, lu, x, sc), canon_like(x, l, x, sc), rp)
        if name.startswith("local"):
            # cells with a vertex inside the unit sphere around the origin are refined as often as asked
            n = int(ops[0].split(":")[1]); lev = r["f.tria.cells"][:, 2]
            near = (np.linalg.norm(x0, axis=2) < 1 - 1e-9).any(1)
            c.expect(name, "local-refinement", (lev.max() >= n) == bool(near.any()), rp, f"deepest level {lev.max()}")
            c.expect(name, "local-refinement-size", len(x) >= len(x0) + 3 * near.sum() if near.any() else len(x) == len(x0), rp, f"{len(x)} cells from {len(x0)}")
        c.case(name, len(x) > len(x0), sample=dict(case=name, cells=[len(x0), len(x)], border_vertices=nb))
    c.map(conform, L)
    # ---- E: spheroids ----
    def spheroid(cs):
        name, mn, ax, k, np_ = cs
        k = dict(k)
        n = k.pop("n", 2); pr = Prob(name, None, D=(0, 1), N=(), dim=3, grid=mn, **k)
        ops = ["read", f"refine:{n}", "update", "reinit", "dofs:t", "geom:t:3", "tria:t", "normals"]
        q = dict(zip(("ax", "ay", "az"), ax))
        r0 = c.run(name + ":plain", 3, pr.params(aspect=1e6), ops, files=pr.files())
        r = c.run(name, 3, pr.params(spheroid=True, aspect=1e6, **q), ops + ["reinit", "dofs:s", "geom:s:3", "tria:s"], files=pr.files(), np_=np_)
        if r is None or r0 is None: return
        rp = c.replay(r, dict(files=pr.files())); A = np.array(ax)
        # match nodes by scaled position and cell order (same refinement, possibly renumbered by the partition)
        def by_cell(r, t): return r[t + ".dof.x"][r[t + ".cell.dofs"].astype(int)]
        for t in "ts":
            e = np.abs(by_cell(r, t) - by_cell(r0, "t") * A).max()
            c.bound(name, "nodes-on-the-spheroid" + ("-again" if t == "s" else ""), e / A.max(), 1e-10, rp)
            c.bound(name, "cells-on-the-scaled-geometry" + ("-again" if t == "s" else ""), np.abs(r[t + ".geom.x"] - r0["t.geom.x"] * A).max() / A.max(), 1e-10, rp)
            nrm, x, w = r[t + ".geom.n"], r[t + ".geom.x"], r[t + ".geom.w"]
            vol = (np.einsum("cqd,cqd->cq", nrm, x) * w).sum() / 3; vol0 = (np.einsum("cqd,cqd->cq", r0["t.geom.n"], r0["t.geom.x"]) * r0["t.geom.w"]).sum() / 3
            c.bound(name, "enclosed-volume", abs(vol / (vol0 * A.prod()) - 1), .1, rp)
            c.bound(name, "volume-of-the-spheroid", abs(vol / (4 / 3 * np.pi * A.prod()) - 1), [0, .35, .11, .035][n], rp)
            c.bound(name, "closed", np.abs((nrm * w[..., None]).sum((0, 1))).max() / w.sum(), 1e-9, rp)
        c.expect(name, "labels", sorted(r["t.tria.cells"][:, 0]) == sorted(r0["t.tria.cells"][:, 0]), rp)
        c.case(name, True, sample=dict(case=name, axes=[float(a) for a in ax]))
    L = [("spheroid-grid", "coarse_sphere", (2., 3., 4.), dict(maptype="FE"), 1), ("spheroid-gridd", "coarse_sphere_double_nodes", (.7, 1.2, 2.), dict(maptype="FE"), 2), ("spheroid-fe2", "coarse_sphere", (1.5, .5, 2.5), dict(maptype="FE", feo=2, vfeo=2, n=1), 2)]
    for i in range(8 if c.thorough else 2):
        fo = int(rng.integers(1, 3))
        L.append((f"spheroid-r{i}", str(rng.choice(["coarse_sphere", "coarse_sphere_double_nodes"])), tuple(float(a) for a in rng.uniform(.3, 3, 3)), dict(maptype="FE", feo=fo, vfeo=fo, n=int(rng.integers(1, 3))), int(rng.integers(1, 4))))
    c.map(spheroid, L)
    # ---- F: CAD surfaces and curves (the repository's NACA 0012 wing) ----
    def cad(cs):
        name, k, n, np_ = cs
        PB.link_grids()
        p = P(3, grid="naca0012", cad=True, aspect=k.get("aspect", 3.5)); p["ComputationalDomain<3>/Input path to CAD files"] = PB.REPO + "/NACA_CAD_FILES/"
        cyc = k.get("cycles")
        if cyc is not None:
            p["ComputationalDomain<3>/Surface curvature adaptive refinement"] = "true"; p["ComputationalDomain<3>/Maximum number of curvature adaptive refinement cycles"] = cyc; p["ComputationalDomain<3>/Cells per circle"] = k["cpc"]
        r = c.run(name, 3, p, ["read", "tria:r", f"refine:{n}", "tria:f", "update", "tria:u"], np_=np_)
        if r is None: return
        rp = c.replay(r)
        x0, m0, _, _ = tcells(r, "r")
        out = {}
        for t in "fu":
            x, l, man, ix = tcells(r, t)
            c.expect(name, "labels", set(l) == set(m0) and (man == l).all(), rp)
            X = np.clip(x[..., 0], 0, 1); prof = .6 * (.2969 * np.sqrt(X) - .126 * X - .3516 * X ** 2 + .2843 * X ** 3 - .1036 * X ** 4)
            w = (l == 3) | (l == 4)
            e = np.abs(np.abs(x[..., 2]) - prof)[w]
            c.bound(name, "vertices-on-the-wing", e.max(), 6e-4, rp); c.count("vertices compared with the profile", e.size)
            c.expect(name, "upper-and-lower-side", (x[l == 3][..., 2] > -1e-6).all() and (x[l == 4][..., 2] < 1e-6).all(), rp)
            for m_, y in ((1, -2.5), (2, 2.5)):
                c.bound(name, "tips-stay-plane", np.abs(x[l == m_][..., 1] - y).max(), 1e-6, rp)
                c.bound(name, "tips-inside-the-profile", (np.abs(x[l == m_][..., 2]) - prof[l == m_]).max(), 6e-4, rp)
            bad, nb = seams(r, t, 2e-6); c.expect(name, "seams", not bad, rp, f"{bad} of {nb}")
            miss, nb = partners(r, t, 1e-7); c.expect(name, "partners", not miss, rp, f"{len(miss)} of {nb}")
            c.bound(name, "profile-volume", abs(abs(volume(x)) / (5 * .0817) - 1), .16 if n == 0 else .06, rp, f"{volume(x)}")
        if cyc is None and n == 0: c.bound(name, "within-the-limit", (ratio(x) / k.get("aspect", 3.5)).max(), 1.3, rp)
        if cyc is not None and k.get("done"):
            x, l, _, _ = tcells(r, "f"); w = (l == 3) | (l == 4)
            d = np.maximum(np.linalg.norm(x[:, 0] - x[:, 2], axis=1), np.linalg.norm(x[:, 1] - x[:, 3], axis=1))
            X = np.clip(x.mean(1)[:, 0], 1e-4, 1); h = 1e-5
            z = lambda X: .6 * (.2969 * np.sqrt(X) - .126 * X - .3516 * X ** 2 + .2843 * X ** 3 - .1036 * X ** 4)
            kap = np.abs((z(X + h) - 2 * z(X) + z(X - h)) / h ** 2) / (1 + ((z(X + h) - z(X - h)) / 2 / h) ** 2) ** 1.5
            sel = w & (X > .02) & (X < .9)
            c.bound(name, "cell-size-follows-curvature", (d * kap * k["cpc"] / (2 * np.pi))[sel].max(), 1.25, rp)
        if cyc is not None:
            # strongly curved cells at the leading edge are smaller than those amidships
            x, l, _, _ = tcells(r, "f"); w = (l == 3) | (l == 4); d = np.linalg.norm(x[:, 0] - x[:, 2], axis=1); X = x.mean(1)[:, 0]
            c.bound(name, "leading-edge-refined", d[w & (X < X.min() + .01)].max() / d[w & (X > .3) & (X < .8)].max(), .9, rp)
        c.case(name, True, sample=dict(case=name, cells=len(x)))
    c.map(cad, [("cad-0", {}, 0, 1), ("cad-1", {}, 1, 2), ("cad-aspect", dict(aspect=2.), 0, 1), ("cad-curv", dict(cycles=1, cpc=6), 0, 2), ("cad-curv-done", dict(cycles=10, cpc=4, done=1), 0, 1)])
    c.finish()
main()
