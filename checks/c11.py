#!/usr/bin/env python3-vt
"""C11: recorded groups, relations and solution vectors against the relations derived from positions, kinds, normals and tangential gradients."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *

def sets(r, n):
    p, i = r[n + ".ptr"].astype(int), r[n + ".idx"].astype(int)
    return [frozenset(i[p[k]:p[k + 1]]) for k in range(len(p) - 1)]
def lines(r, n):
    p, j, w, l = r[n + ".ptr"].astype(int), r[n + ".idx"].astype(int), r[n + ".w"], r[n + ".line"].astype(int)
    return {l[k]: list(zip(j[p[k]:p[k + 1]], w[p[k]:p[k + 1]])) for k in range(len(l))}

def boundary_nodes(r, t):
    """Nodes on the edges that only one cell has (from the recorded topology)."""
    cd, F = r[t + ".cell.dofs"].astype(int), r[t + ".tria.faces"]
    ref = REF[(cd.shape[1], F.shape[1])]
    out = set()
    for c in range(len(cd)):
        for f in range(F.shape[1]):
            if F[c, f, 0]: out.update(cd[c][ref[f]])
    return out
# local numbers of the nodes of each side, lexicographic vertices first (Q1, Q2)
REF = {(4, 4): [[0, 2], [1, 3], [0, 1], [2, 3]], (9, 4): [[0, 2, 4], [1, 3, 5], [0, 1, 6], [2, 3, 7]], (2, 2): [[0], [1]], (3, 2): [[0], [1]]}

def formula(n, m, s, t):
    """Flux through n of the gradient with tangential parts s (on the face of n) and t (on the face of m)."""
    nm = n @ m
    return (t @ n + (s @ m) * nm) / (1 - nm ** 2)

def judge(c, key, r, t, D, contgrad, pr, rp, linear, flat, tol):
    x = r[t + ".dof.x"]; n = len(x); size = np.ptp(x, axis=0).max()
    isD = r[t + ".dirichlet"] == 1
    # --- groups ---
    edge = boundary_nodes(r, t)
    keyof = {}
    from scipy.spatial import cKDTree
    e = sorted(edge); grp = [frozenset([i]) for i in range(n)]
    if e:
        T = cKDTree(x[e])
        for a, q in zip(e, T.query_ball_point(x[e], 1e-9 * size)): grp[a] = frozenset(e[k] for k in q)
    got = sets(r, t + ".dbl")
    bad = [i for i in range(n) if got[i] != grp[i]]
    c.expect(key, "groups", not bad, rp, f"node {bad[:1]} at {x[bad[:1]]} is grouped with {[sorted(got[i]) for i in bad[:1]]}, coincident edge nodes are {[sorted(grp[i]) for i in bad[:1]]}")
    if t + ".edge_set" in r: c.expect(key, "edge-nodes", set(r[t + ".edge_set"].astype(int)) == edge, rp)
    G = {g for g in grp if len(g) > 1}
    c.count("groups of coincident nodes", len(G))
    # --- relations of the program, resolved: x = P y + q ---
    L = lines(r, t + ".cons"); inh = dict(zip(r[t + ".cons.line"].astype(int), r[t + ".cons.inh"]))
    P = np.eye(n); q = np.zeros(n)
    for i in L: P[i] = 0
    for _ in range(40):
        P2, q2 = P.copy(), q.copy()
        for i, en in L.items():
            P2[i] = sum((w * P[j] for j, w in en), np.zeros(n)); q2[i] = inh[i] + sum(w * q[j] for j, w in en)
        done = np.abs(P2 - P).max() < 1e-14 and np.abs(q2 - q).max() <= 1e-14 * (1 + np.abs(q).max()); P, q = P2, q2
        if done: break
    else: c.viol(key + ":cycle", "the relations do not resolve", rp)
    # --- relations that must hold: R x = z ---
    R = []; z = []; why = []
    def rel(i, en, v, w):
        row = np.zeros(n); row[i] += 1
        for j, ww in en: row[j] -= ww
        R.append(row); z.append(v); why.append((w, i))
    pot, nrm, sg, rhs = pr.f(x), r[t + ".normals"], r[t + ".surfgrad"], r[t + ".tmp_rhs"]
    fixed = {}; kinds = {}
    for g in G:
        d = sorted(i for i in g if isD[i]); m = sorted(i for i in g if not isD[i])
        for i in m[1:] if not d else m:
            if d: rel(i, [], pot[i], "potential of the flux side"); kinds["D-N"] = kinds.get("D-N", 0) + 1
            else: rel(i, [(m[0], 1)], 0, "one potential"); kinds["N-N"] = kinds.get("N-N", 0) + 1
        if len(d) > 1:
            dist = {(a, b): ((nrm[a] - nrm[b]) ** 2).sum() for a in d for b in d if a != b}
            if any(2e-5 < v < 5e-4 for v in dist.values()):
                c.count("groups at the smoothness threshold (not judged)"); continue
            sharp = {k for k, v in dist.items() if v > 1e-4}
            for a in d[1:]:
                if (d[0], a) not in sharp: rel(a, [(d[0], 1)], 0, "equal fluxes on a smooth joint"); kinds["D-D smooth"] = kinds.get("D-D smooth", 0) + 1
            if contgrad and sharp:
                cand = {a: [formula(nrm[a], nrm[b], sg[a], sg[b]) for b in d if (a, b) in sharp] for a in d}
                for a in d:
                    v = list(cand[a])
                    for b in d:
                        if b != a and (a, b) not in sharp: v += cand[b]
                    fixed[a] = v
                kinds["D-D sharp"] = kinds.get("D-D sharp", 0) + len(d)
    hn = lines(r, t + ".hn"); pos = 0
    for i, en in hn.items():
        same = [(j, w) for j, w in en if isD[j] == isD[i]]
        v = sum(w * (rhs[j] if isD[j] else rhs[j]) for j, w in en if isD[j] != isD[i])  # known datum of the parent
        rel(i, same, v, "interpolated value"); pos = max(pos, np.abs(x[i] - sum(w * x[j] for j, w in en)).max())
        kinds["hanging, mixed parents" if len(same) < len(en) else "hanging"] = kinds.get("hanging, mixed parents" if len(same) < len(en) else "hanging", 0) + 1
    for k, v in kinds.items(): c.count("relations: " + k, v)
    sc = 1 + np.abs(q).max() + np.abs(pot).max()
    if R:
        R, z = np.array(R), np.array(z)
        e1 = np.abs(R @ P).max(1); e2 = np.abs(R @ q - z) / sc
        b = int(np.argmax(e1 + e2))
        c.bound(key, "relations-linear-part", e1.max(), 1e-10, rp, f"({why[b][0]} of node {why[b][1]} at {x[why[b][1]]} does not follow from the relations imposed)")
        c.bound(key, "relations-values", e2.max(), 1e-9, rp, f"({why[b][0]} of node {why[b][1]} at {x[why[b][1]]}: left {R[b]@q:.6g}, right {z[b]:.6g})")
    for a, v in fixed.items():
        c.expect(key, "gradient-is-fixed", np.abs(P[a]).max() == 0, rp, f"flux of node {a} at {x[a]} on a sharp prescribed-potential edge is left free")
        lo, hi = min(v), max(v); e = max(lo - q[a], q[a] - hi, 0) / sc
        c.bound(key, "gradient-from-tangential-parts", e, 1e-9, rp, f"(node {a} at {x[a]}: {q[a]:.8g}, from tangential gradients {v})")
        if flat and linear: c.bound(key, "exact-gradient", abs(q[a] - pr.g(x[a:a + 1])[0] @ avg_normals(r, t + ".", t + ".")[a]) / sc, 1e-7, rp, f"(node {a} at {x[a]})")
    free = n - len(L); rank = (np.linalg.matrix_rank(R) if len(z) else 0)
    c.expect(key, "number-of-relations", len(L) == rank + sum(1 for a in fixed if not any(R[k][a] for k in range(len(z)))) + extra(fixed, R, z), rp, f"{len(L)} nodes are tied, expected {rank} + fixed")
    if t + ".cons.same" in r: c.expect(key, "same-relations-on-all-ranks", r[t + ".cons.same"].all(), rp)
    # --- returned vectors ---
    phi, dn = r[t + ".phi"], r[t + ".dphi_dn"]
    u = np.where(isD, dn, phi); us = 1 + np.abs(u).max()
    e = np.abs(u - P @ u - q)
    b = int(np.argmax(e)); c.bound(key, "solution-satisfies-relations", e[b] / us, tol, rp, f"(node {b} at {x[b]}: {u[b]:.8g}, relation gives {(P@u+q)[b]:.8g})")
    w = 0
    for g in G: w = max(w, np.ptp(phi[sorted(g)]))
    c.bound(key, "one-potential-per-point", w / us, 10 * tol, rp)
    return len(G), len(hn), sum(kinds.values())
def extra(fixed, R, z):
    """Tied smooth nodes of a fixed group are counted in the rank already; their representative is not."""
    if not fixed or not len(z): return 0
    # nodes in both: rank of [R; unit rows of fixed] minus rank(R) minus fixed nodes not in R
    A = np.vstack([R] + [np.eye(R.shape[1])[a] for a in fixed])
    return np.linalg.matrix_rank(A) - np.linalg.matrix_rank(R) - sum(1 for a in fixed if not R[:, a].any())

def joint():
    """A box one of whose faces consists of two patches."""
    m = M.box((4, 2, 2), (2, 1, 1), split=False)
    m.mat = np.array([7 if t == 3 and m.v[q].mean(0)[0] > 0 else t for q, t in zip(m.cells, m.mat)])
    return m.split()

def main():
    c = Check("C11", "meshes x kinds on both sides of edges and corners x shared or duplicated edge nodes x element order x ranks x hanging nodes x solution method; "
              "non-trivial when coincident or hanging nodes were tied",
              ["three or more prescribed-potential faces at a corner: the value must lie in the range given by the pairs of faces",
               "joints whose normals differ by an amount close to the program's smoothness threshold are not judged",
               "a hanging node whose parent has the other kind takes the parent's known datum"])
    c.need("rel", "pb")
    rng = c.rng
    def rot(m): return m.affine(rng.uniform(.5, 2) * M.rotation(rng, 3), rng.uniform(-1, 1, 3)).renumber(rng)
    six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((2, 2, 2)), "boxr": rot(M.box((3, 2, 1))), "prism": rot(M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2)), "smooth": M.qsphere(3, mats=six), "smoothr": rot(M.qsphere(2, mats=six, axes=(1, 1.5, .7))),
         "strip": M.box((4, 2, 2)).relabel(lambda i: i).map(lambda p: p), "lshape": M.lshape(1), "tetra": rot(M.tetra(2)), "two": M.union(M.box(), M.box(center=(2., 0, 0), size=(1, 1, 1), mats=(7, 8, 9, 10, 11, 12))),
         "merged": M.box((2, 2, 2), split=False), "msphere": M.qsphere(3, mats=six, split=False), "flatjoint": joint(),
         "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 4), "ngon": M.ngon(24, mats=[1 + i // 4 for i in range(24)]), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 4, split=False), "flat2": M.polygon([(0, 0), (1, 0), (2, 0), (2, 1), (0, 1)], 3)}
    flat = {"box", "boxr", "prism", "lshape", "tetra", "two", "flatjoint", "sq", "flat2", "strip"}
    L = []
    def add(mn, D, **k):
        L.append((f"{mn}-D{'.'.join(map(str, D))}-" + "-".join(f"{a}{b}" for a, b in k.items()), mn, tuple(D), k))
    add("box", six); add("box", (1, 3), np_=2); add("boxr", (1, 2, 3), h=2, np_=3); add("prism", (1, 2, 5), h=1); add("prism", (2, 3, 4, 6), np_=2, fe=2); add("smooth", six, h=1, np_=2); add("smooth", (1, 4, 5), h=2)
    add("smoothr", (1, 3, 5), np_=3, h=1); add("lshape", (1, 2, 3, 4, 5, 6), np_=2); add("tetra", (1, 2, 3), h=1); add("two", (1, 3, 8, 9), np_=2); add("flatjoint", (3, 7), np_=2); add("flatjoint", (1, 2, 3, 6, 7), h=2)
    add("merged", (1,), adapt=1, h=1); add("msphere", (1,), adapt=2, h=4, np_=2); add("msphere", (2, 3, 5), adapt=2, h=2); add("msphere", (2, 6), adapt=1, h=2, fe=2); add("box", (2, 4), adapt=2, h=4, np_=2); add("smooth", (3, 5), adapt=1, h=7)
    add("sq", (1, 2)); add("sq", (1, 2, 3, 4), h=2, np_=2); add("ngon", (1, 2, 4), h=1); add("sqm", (1, 3), np_=2); add("flat2", (1, 2, 4), np_=2, fe=2); add("box", (1, 2, 3), method="FMA", np_=2); add("smooth", (1, 2, 6), method="FMA"); add("box", (), h=1, np_=2)
    add("box", (1, 3), contgrad="false"); add("boxr", six, h=1, np_=2, fe=2)
    # handles, cavities, holes
    G.update(roof=M.roof(.15, 1), frame=rot(M.frame()), shell=rot(M.shell()), annulus=M.annulus())
    add("roof", (1, 2, 3, 4, 5), np_=2); add("roof", (2, 4, 6), h=1)
    add("frame", tuple(range(1, 11)), h=1, np_=2); add("frame", (1, 7, 8, 3), h=2); add("shell", (1, 2, 3, 7, 8, 9), np_=3); add("annulus", (1, 2, 5, 6), h=1, np_=2)
    names = list(G)
    for i in range(120 if c.thorough else 6):
        mn = names[rng.integers(len(names))]; ids = sorted(set(G[mn].mat)); D = [a for a in ids if rng.random() < .6]
        add(mn, D, h=int(rng.integers(4)), np_=int(rng.integers(1, 4)), fe=int(rng.choice([1, 1, 2])), adapt=int(rng.integers(0, 3)) if G[mn].dim == 3 and len(G[mn].cells) < 60 else 0)
    def one(cs):
        name, mn, D, k = cs
        k = dict(k); m = G[mn]; np_ = k.pop("np_", 1); ad = k.pop("adapt", 0); fe = k.pop("fe", 1); h = k.pop("h", 0)
        pr = Prob(name, m, D=D, N=[i for i in sorted(set(m.mat)) if i not in D], h=h, feo=fe, vfeo=fe, **k)
        ops = ["read", "refine", "update"]
        for a in range(ad): ops += ["reinit", "solve", "adapt", "update"]
        cg = k.get("contgrad") != "false"
        # without gradient continuity the system is singular: only the relations are recorded
        ops += ["reinit"] + (["solve"] if cg else ["initbc", "normals", "prep", "cons"]) + ["dofs:t", "sol:t", "tria:t", "geomsp:t", "dcons:t"]
        r = c.run(name, m.dim, pr.params(steps=3000, tol=1e-10), ops, files=pr.files(), np_=np_)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files()))
        if not cg:
            for q in ("t.phi", "t.dphi_dn"): r.d[q] = np.zeros_like(r[q])
        ng, nh, nr = judge(c, name, r, "t", D, cg, pr, rp, h == 0, mn in flat, 1e-6 if cg else 1e9)
        c.case(name, nontrivial=nr > 0, sample=dict(case=name, groups=ng, hanging=nh, relations=nr, ranks=np_))
    c.map(one, L, workers=6)
    c.finish()
main()
