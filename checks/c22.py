#!/usr/bin/env python3-vt
"""C22: meshes recorded before and after every adaptive step against marking, balance and edge-matching rules."""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
from scipy.spatial import cKDTree
FACES = {4: [(0, 2), (1, 3), (0, 1), (2, 3)], 2: [(0,), (1,)]}

class Tria:
    """Recorded triangulation: active cells, their names in the refinement forest, edge pieces between cells."""
    def __init__(self, r, t):
        self.v = r[t + ".tria.v"]; self.used = r[t + ".tria.used"] > 0
        C = r[t + ".tria.cells"].astype(int); self.mat, self.man, self.lev, self.ix = C[:, 0], C[:, 1], C[:, 2], C[:, 5:]
        self.id = [tuple(int(a) for a in q) for q in r[t + ".tria.id"]]; self.n = len(C)
        self.pos = {q: k for k, q in enumerate(self.id)}
        self.nv = self.ix.shape[1]; F = FACES[self.nv]
        self.atb = r[t + ".tria.faces"][:, :, 0] > 0
        # pieces: (cell, face, part) with part None (whole), or 0/1 the half next to the first / second vertex of the face
        E = collections.defaultdict(list)
        for c in range(self.n):
            for f, w in enumerate(F): E[tuple(sorted(self.ix[c][list(w)]))].append((c, f))
        self.pieces = []; self.lone = []
        un = {}
        for e, l in E.items():
            if len(l) == 1: un[e] = l[0]
            else: self.pieces += [((*l[a], None), (*l[b], None)) for a in range(len(l)) for b in range(a)]
        adj = collections.defaultdict(set)
        if self.nv == 4:
            for a, b in un: adj[a].add(b); adj[b].add(a)
        done = set()
        if self.nv == 4:
            for (a, b), (c, f) in un.items():
                # the middle vertex lies next to the middle of the edge (manifolds may move it)
                ms = [m for m in adj[a] & adj[b] if np.linalg.norm(self.v[m] - (self.v[a] + self.v[b]) / 2) < .35 * np.linalg.norm(self.v[a] - self.v[b]) and un[tuple(sorted((a, m)))][0] != c and un[tuple(sorted((b, m)))][0] != c]
                if len(ms) == 1:
                    m = ms[0]; done.add((a, b)); w = [self.ix[c][q] for q in F[f]]
                    for end in (a, b):
                        h = tuple(sorted((end, m))); done.add(h)
                        self.pieces.append(((c, f, w.index(end)), (*un[h], None, end)))
        self.lone = [e for e in un if e not in done]
        self.nb = [set() for _ in range(self.n)]
        for p in self.pieces: self.nb[p[0][0]].add(p[1][0]); self.nb[p[1][0]].add(p[0][0])
    def diam(self, c):
        x = self.v[self.ix[c]]; return max(np.linalg.norm(a - b) for a in x for b in x)
    def area(self, c):
        x = self.v[self.ix[c]]
        if self.nv == 2: return np.linalg.norm(x[0] - x[1])
        return .5 * np.linalg.norm(np.cross(x[1] - x[0], x[2] - x[0])) + .5 * np.linalg.norm(np.cross(x[3] - x[1], x[3] - x[2]))
    def descends(self, a, b): return a[0] == b[0] and a[1] > b[1] and a[2] % 4 ** b[1] == b[2]
GP, GW = np.polynomial.legendre.leggauss(3); GP = (GP + 1) / 2; GW = GW / 2

def kelly(T, u, s0):
    """Indicators (two of every cell) for the piecewise (bi)linear function with nodal values u[cell, vertex].

    At a side with a hanging node the library pairs each gradient with the other cell's conormal: the two readings differ on
    kinked sides only, and both are admitted."""
    F = FACES[T.nv]; I = np.zeros(T.n); I2 = I.copy()
    if T.nv == 2:
        for (c, f, _), (d, g, *_) in T.pieces:
            def der(c, f):
                x = T.v[T.ix[c]]; L = np.linalg.norm(x[1] - x[0]); return (u[c][1] - u[c][0]) / L * (1 if f else -1)
            j = (der(c, f) + der(d, g)) ** 2; I[c] += j; I[d] += j; I2[c] += j; I2[d] += j
        for c in range(T.n):
            for f in range(2):
                # (in one dimension the library takes the other side's derivative as zero at a border)
                if T.atb[c, f]: x = T.v[T.ix[c]]; j = ((u[c][1] - u[c][0]) ** 2 / ((x[1] - x[0]) ** 2).sum()); I[c] += j; I2[c] += j
    else:
        ref = np.array([(0, 0), (1, 0), (0, 1), (1, 1)], float)
        def cond(c, f, t):
            """outward conormal derivative at parameter t of side f, and the length element."""
            a, b = F[f]; q = ref[a] * (1 - t) + ref[b] * t; X, Y = q; x = T.v[T.ix[c]]
            d = np.array([[-(1 - Y), -(1 - X)], [1 - Y, -X], [-Y, 1 - X], [Y, X]])
            J = x.T @ d; g = J @ np.linalg.solve(J.T @ J, d.T @ u[c])
            o = J @ [(-1, 0), (1, 0), (0, -1), (0, 1)][f]; tau = J @ (ref[b] - ref[a]); l = np.linalg.norm(tau); tau = tau / l
            o = o - (o @ tau) * tau; o /= np.linalg.norm(o); return g @ o, l, g, o
        for (c, f, part), (d, g, _, *end) in T.pieces:
            s = 0; s2 = 0
            for p, w in zip(GP, GW):
                if part is None:
                    same = T.ix[c][F[f][0]] == T.ix[d][F[g][0]]
                    a, l, ga, na = cond(c, f, p); b, _2, gb, nb = cond(d, g, p if same else 1 - p)
                else:
                    # p runs from the common end of the coarse side on the fine side
                    first = T.ix[d][F[g][0]] == end[0]
                    b, l, gb, nb = cond(d, g, p if first else 1 - p); a, _2, ga, na = cond(c, f, p / 2 if part == 0 else 1 - p / 2)
                s += w * l * (a + b) ** 2; s2 += w * l * ((a + b) if part is None else ga @ nb + gb @ na) ** 2
            I[c] += s; I[d] += s; I2[c] += s2; I2[d] += s2
    h = np.array([T.diam(c) / 24 for c in range(T.n)]); e = np.sqrt(h * I), np.sqrt(h * I2)
    return np.minimum(*e), np.maximum(*e)

def marking(c, key, T0, T1, eta, fr, fc, margin, rp):
    n = T0.n; lo, hi = eta; slo, shi = np.sort(lo), np.sort(hi)
    nr, nc = int(fr * n), int(fc * n)
    act = set(T1.id); gone = [k for k in range(n) if T0.id[k] not in act]
    desc = collections.defaultdict(int)
    for q in T1.id:
        for l in range(q[1]): desc[(q[0], l, q[2] % 4 ** l)] += 1
    ref = {k for k in gone if desc[T0.id[k]]}; coa = {k for k in gone if k not in ref}
    c.count("cells refined by marking", len(ref)); c.count("cells coarsened", len(coa)); c.count("indicators judged", n)
    e = 1e-6 * hi.max()
    if nr:
        must = {k for k in range(n) if lo[k] > shi[n - nr] * (1 + margin) + e}; may = {k for k in range(n) if hi[k] >= slo[n - nr] * (1 - margin) - e}
    else: must, may = set(), set()
    miss = sorted(must - ref)
    c.expect(key, "largest-errors-refined", not miss, rp, f"{len(miss)} of the {nr} cells with the largest indicators stay, e.g. {lo[miss[:3]]}, {nr} of {n} cells are above {slo[n - max(nr, 1)]:.4g}")
    if nr and len(may) - len(must) <= max(2, nr // 3): c.count("steps with a sharp threshold")
    for k in ref - may:
        if not c.expect(key, "only-largest-errors-refined", any(q in ref for q in T0.nb[k]), rp, f"cell with indicator {hi[k]:.4g} is refined without need, {nr} of {n} cells are above {slo[n - max(nr, 1)]:.4g}"): break
    thc = (slo[nc - 1], shi[nc - 1]) if nc else (-1, -1)
    for k in coa:
        if not c.expect(key, "only-smallest-errors-coarsened", lo[k] <= thc[1] * (1 + margin) + e, rp, f"indicator {lo[k]:.4g}, {nc} of {n} cells are below {thc[1]:.4g}"): break
    fam = collections.defaultdict(list)
    for k in range(n):
        l = T0.id[k][1]
        if l: fam[(T0.id[k][0], l - 1, T0.id[k][2] % 4 ** (l - 1))].append(k)
    kids = 4 if T0.nv == 4 else 2
    for par, l in fam.items():
        if len(l) == kids and all(hi[k] < thc[0] * (1 - margin) - e for k in l) and not any(T0.lev[q] > T0.lev[k] or q in ref for k in l for q in T0.nb[k]):
            c.count("families due for coarsening")
            if not c.expect(key, "smallest-errors-coarsened", par in act, rp, f"{par} keeps its children"): break

def balance(c, key, T, rp):
    """Every side is a border side, joined as a whole, or carries one hanging node (a cell cut one way counts levels differently)."""
    lone = [e for e in T.lone]
    atb = {tuple(sorted(T.ix[k][list(FACES[T.nv][f])])) for k in range(T.n) for f in range(len(FACES[T.nv])) if T.atb[k, f]}
    c.expect(key, "interior-sides-are-shared", set(lone) == atb, rp, f"{len(set(lone) ^ atb)} sides are neither border nor joined as whole or two halves")

def matched(T, tol):
    """Border sides without a border side of another cell at the same place."""
    if T.nv == 2: X = T.v[[e[0] for e in T.lone]] if T.lone else np.zeros((0, 2))
    else:
        X = np.array([np.concatenate(sorted((T.v[a], T.v[b]), key=lambda p: tuple(np.round(p / tol / 100)))) for a, b in T.lone]).reshape(-1, 6)
        X = np.hstack([(X[:, :3] + X[:, 3:]) / 2, np.abs(X[:, :3] - X[:, 3:])]) if len(X) else X
    if not len(X): return []
    q = cKDTree(X).query_ball_point(X, tol)
    return [e for e, l in zip(T.lone, q) if len(l) < 2]

def slit(m, a, b):
    """The joined mesh with the vertices inside the common edge of patches a and b doubled (a slit with two ends)."""
    at = [{int(i) for q in np.nonzero(m.mat == w)[0] for i in m.cells[q]} for w in (a, b)]
    ids = [{int(m.mat[q]) for q in np.nonzero((m.cells == k).any(1))[0]} for k in range(len(m.v))]
    v = list(m.v); cells = m.cells.copy()
    for k in at[0] & at[1]:
        if ids[k] == {a, b}:
            v.append(m.v[k]); w = (m.mat == b)[:, None] & (cells == k); cells[w] = len(v) - 1
    return M.Mesh(3, v, cells, m.mat)
def main():
    c = Check("C22", "meshes x sharp edges (split, joined) x steps x refinement/coarsening fractions x field (peak moving between steps, solved potential) x processes; distinct by case, non-trivial when cells were refined",
              ["the indicator is recomputed for (bi)linear elements and straight geometry; cells within 3% of the threshold may fall on either side"])
    c.need("rel", "pb")
    rng = c.rng; six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((3, 3, 3)), "boxm": M.box((3, 2, 4), split=False), "box2": M.box((2, 4, 3), (1, 2, 1.5)), "lshape": M.lshape(2), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 2, 2), "tetra": M.tetra(2), "sphere": M.qsphere(3),
         "ssphere": M.qsphere(3, mats=six), "warp": M.bump(M.box((3, 2, 3)), .07), "warpm": M.bump(M.box((3, 2, 3), split=False), .07), "grade": M.grade(M.box((3, 3, 3)), 1.6),
         "slit": slit(M.box((3, 4, 3), split=False), 2, 6), "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 8), "circle": M.ngon(40), "circles": M.ngon(40, mats=[1 + i // 14 for i in range(40)]), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6, split=False)}
    flat = {"box", "slit", "boxm", "box2", "lshape", "prism", "tetra", "grade", "sq", "circle", "circles", "sqm"}
    L = []
    def add(mn, kind, steps, fr=.3, fc=.03, np_=1, **k): L.append((f"{mn}-{kind}-{steps}-{fr}-{fc}-np{np_}" + "".join(f"-{a}{b}" for a, b in k.items()), mn, kind, steps, fr, fc, np_, k))
    add("box", "peak", 3, .2, .2); add("boxm", "peak", 3, .15, .3); add("lshape", "peak", 2, .1, .1); add("ssphere", "peak", 2, .2, .1); add("sphere", "peak", 2, .3, .03); add("warp", "peak", 2, .25, .2); add("tetra", "peak", 2, .1, 0)
    add("sq", "peak", 4, .2, .3); add("circle", "peak", 4, .2, .3); add("boxm", "peak", 3, .05, .6); add("box2", "peak", 3, .1, .5); add("prism", "solve", 2, .2, .1); add("box", "solve", 2, .3, .03); add("boxm", "solve", 2, .3, .03); add("circles", "solve", 3, .3, .03); add("sqm", "solve", 3, .2, .05); add("sphere", "solve", 1, .3, .03, method="FMA", p=5)
    add("box", "solve", 1, .25, .0, 3); add("boxm", "peak", 2, .2, .2, 4); add("circle", "solve", 2, .3, .1, 2); add("slit", "peak", 3, .1, .1); add("box", "peak", 1, 0, 0); add("boxm", "peak", 1, 1, 0); add("box", "driver", 1, .3, .03); add("sqm", "driver", 2, .2, .1); add("boxm", "driver", 2, .15, .05)
    # handles, cavities, holes
    G.update(frame=M.frame(2), shell=M.shell(3), annulus=M.annulus(n=5))
    add("frame", "peak", 2, .2, .1); add("shell", "peak", 2, .2, .2, 2); add("annulus", "peak", 3, .3, .2)
    names = list(G)
    for i in range(90 if c.thorough else 6):
        mn = names[rng.integers(len(names))]; d3 = G[mn].dim == 3
        add(mn, str(rng.choice(["peak", "peak", "solve", "driver"])), int(rng.integers(1, 4 if d3 else 6)), round(float(rng.uniform(0.02, .3 if d3 else .5)), 3), round(float(rng.uniform(0, .5)), 3), int(rng.choice([1, 1, 1, 2, 3])), **(dict(ncyc0=1) if rng.random() < .2 else {}))
    seedbase = int(rng.integers(1 << 30))
    def one(cs):
        import zlib
        name, mn, kind, steps, fr, fc, np_, k = cs; k = dict(k); g0 = k.pop("ncyc0", 0)
        R = np.random.default_rng([seedbase, zlib.crc32(name.encode())]); m = G[mn]; dim = m.dim; ids = sorted(set(m.mat))
        h = source(m.v.max(0) + .25 * np.ptp(m.v, 0))
        pr = Prob(name, m, D=ids[:max(1, len(ids) // 3)], N=ids[max(1, len(ids) // 3):], h=h, steps=3000, tol=1e-10, qorder=5, sorder=6 if dim == 3 else 10, aspect=1e9, refine=fr, coarsen=fc, **k)
        fs = []; ops = ["read", f"refine:{g0}", "update"]
        V = m.v; sc = np.ptp(V, 0).max()
        for s in range(steps):
            ops += ["reinit"] + (["solve", "dofs:i", "sol:i"] if s == 0 else [])
            if kind == "peak":
                p = V[R.integers(len(V))] + R.normal(size=dim) * .05 * sc; fs.append(p)
                e = "exp(-(" + "+".join(f"({a}-({q:.17g}))^2" for a, q in zip("xyz", p)) + f")*{8 / sc ** 2:.17g})" + f"+0.1*x*y-0.2*y"
                ops += [f"tria:a{s}", f"dofs:a{s}", f"sol:a{s}", "adaptf:" + e]
            else: ops += (["solve"] if s else []) + [ f"tria:a{s}", f"dofs:a{s}", f"sol:a{s}", "adapt"]
            ops += [f"tria:b{s}", "update", f"tria:c{s}"]
        ops += ["reinit", "solve", "dofs:z", "sol:z", f"tria:z"]
        r = c.run(name, dim, pr.params(), ops, files=pr.files(), np_=np_)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files()))
        r0 = dict(x=r["i.dof.x"], phi=r["i.phi"])
        for s in range(steps):
            T0, T1, T2 = (Tria(r, f"{q}{s}") for q in "abc"); key = f"{name}:{s}"
            cd = r[f"a{s}.cell.dofs"].astype(int); x = r[f"a{s}.dof.x"]
            ok = np.abs(x[cd][:, range(T0.nv)] - T0.v[T0.ix]).max() < 1e-9 * sc if len(cd) == T0.n else False
            c.expect(key, "numbering", ok, rp)
            if not ok: return
            if kind == "peak": p = fs[s]; u = np.exp(-((x - p) ** 2).sum(1) * 8 / sc ** 2) + .1 * x[:, 0] * x[:, 1] - .2 * x[:, 1]
            else: u = r[f"a{s}.phi"]
            eta = kelly(T0, u[cd][:, range(T0.nv)], sc)
            marking(c, key, T0, T1, eta, fr, fc, .03, rp)
            balance(c, key + ":marked", T1, rp); balance(c, key + ":restored", T2, rp)
            # --- joints ---
            b0, b1, b2 = (matched(T, 1e-6 * sc) for T in (T0, T1, T2))
            c.count("border sides", len(T2.lone)); c.count("unmatched border sides after marking", len(b1))
            c.expect(key, "joints-match", not b2, rp, f"{len(b2)} border sides without a partner, first {T2.v[list(b2[0])] if b2 else ''}")
            if not b1: c.expect(key, "nothing-to-restore", T1.id == T2.id or set(T1.id) == set(T2.id), rp, f"{T1.n} -> {T2.n} cells")
            # --- the restored mesh refines the marked one; labels and shape stay ---
            anc = {q: k for k, q in enumerate(T1.id)}
            par = [next((anc[(q[0], l, q[2] % 4 ** l)] for l in range(q[1], -1, -1) if (q[0], l, q[2] % 4 ** l) in anc), None) for q in T2.id]
            if c.expect(key, "restoring-refines", None not in par, rp):
                c.expect(key, "labels", all(T2.mat[k] == T1.mat[p] and T2.man[k] == T1.man[p] for k, p in enumerate(par)), rp)
            c.expect(key, "labels-kept", set(T1.mat) == set(m.mat), rp)
            for T, w in ((T1, "marked"), (T2, "restored")):
                A = collections.defaultdict(float); A0 = collections.defaultdict(float)
                for k in range(T.n): A[T.mat[k]] += T.area(k)
                for k in range(T0.n): A0[T0.mat[k]] += T0.area(k)
                if mn in flat:
                    for q in A0: c.bound(key, f"patch-area-{w}", abs(A[q] - A0[q]) / A0[q], 1e-10, rp)
                else: c.bound(key, f"area-{w}", abs(sum(A.values()) / sum(A0.values()) - 1), .05, rp)
        # --- accuracy: the potential error does not grow (the data are smooth and resolved) ---
        T = Tria(r, "z"); x = r["z.dof.x"]; er = np.sqrt(np.mean((r["z.phi"] - pr.f(x)) ** 2)) / (1 + np.abs(pr.f(x)).max())
        e0 = np.sqrt(np.mean((r0["phi"] - pr.f(r0["x"])) ** 2)) / (1 + np.abs(pr.f(x)).max())
        # (inside a patch with kinks, normals and with them the flux data are only approximated: no rate there)
        c.bound(name, "potential-error" if mn in ("box", "box2", "lshape", "prism", "tetra", "sq", "grade") else "potential-sane", er, 5 * e0 + 5e-4 if mn in ("box", "box2", "lshape", "prism", "tetra", "sq", "grade") else 2 * e0 + .1, rp, f"(before refinement {e0:.3g})")
        # --- every border node has its partner in another cell's border ---
        if T.nv == 4 and matched(Tria(r, "c0"), 1e-6 * sc) == []:
            dp, di = r["z.dbl.ptr"].astype(int), r["z.dbl.idx"].astype(int)
            bn = {int(r["z.cell.dofs"][k][q]) for k in range(T.n) for f in range(4) if T.atb[k, f] for q in FACES[4][f]}
            nm = [{int(T.mat[q]) for q, _ in l} for l in node_cells(r, "z.")]
            bad = [i for i in bn if dp[i + 1] - dp[i] < 2 and len(nm[i]) < 2]  # (the end of a slit is one node of both patches)
            c.count("border nodes", len(bn)); c.expect(name, "partners", not bad, rp, f"{len(bad)} border nodes without a partner, first {x[bad[:1]]}")
        # --- the same history by the driver, and on one process ---
        if kind == "driver":
            q = Prob(name, m, D=pr.D, N=pr.N, h=h, **dict(pr.extra, ncyc=steps, pre=g0, **{"global": False}))
            r2 = c.run(name + ":run", dim, q.params(), ["run", "tria:z", "dofs:z", "sol:z"], files=q.files(), np_=np_)
            if r2 is None: return
            rp2 = c.replay(r2, dict(files=q.files())); T3 = Tria(r2, "z")
            if c.expect(name, "driver-mesh", T3.id == T.id, rp2, f"{T3.n} cells instead of {T.n}"):
                for f_ in ("phi", "dphi_dn"): c.bound(name, "driver-" + f_, np.abs(r2["z." + f_] - r["z." + f_]).max() / (1 + np.abs(r["z." + f_]).max()), 1e-8, rp2)
        if np_ > 1 and kind == "peak":
            r2 = c.run(name + ":serial", dim, pr.params(), ops, files=pr.files())
            if r2 is None: return
            for s in range(steps): c.expect(f"{name}:{s}", "mesh-of-one-process", set(Tria(r, f"c{s}").id) == set(Tria(r2, f"c{s}").id), rp)
        c.case(name, r["z.tria.id"][:, 1].max() > 0, sample=dict(case=name, cells=[len(r[f"{q}{s}.tria.id"]) for s in range(steps) for q in "abc"]))
    c.map(one, L, workers=8)
    # ---- curved cells: grids of the repository with their manifold, spheroids, higher mappings and elements ----
    def curved(cs):
        import zlib
        name, grid, n, fr, fc, np_, k = cs
        R = np.random.default_rng([seedbase, zlib.crc32(name.encode())]); dim = 2 if grid == "circle" else 3
        pr = Prob(name, None, D=(0,), N=(1,), dim=dim, grid=grid, aspect=1e9, refine=fr, coarsen=fc, qorder=5, **k)
        A = [float(k.get(q, 1)) for q in ("ax", "ay", "az")][:dim]; ops = ["read", f"refine:{n}", "update"]
        for s in range(2):
            p = R.normal(size=dim); p = p / np.linalg.norm(p) * A
            e = "exp(-(" + "+".join(f"({a}-({q:.17g}))^2" for a, q in zip("xyz", p)) + f")*3)+0.1*x*y-0.2*y"
            ops += ["reinit", f"kelly:a{s}:{e}", f"tria:a{s}", f"adaptf:{e}", f"tria:b{s}", "update", f"tria:c{s}"]
        r = c.run(name, dim, pr.params(), ops, files=pr.files(), np_=np_)
        if r is None: return
        rp = c.replay(r)
        for s in range(2):
            T0, T1, T2 = (Tria(r, f"{q}{s}") for q in "abc"); key = f"{name}:{s}"; eta = r[f"a{s}.kelly"]
            if not c.expect(key, "indicators", len(eta) == T0.n, rp): return
            c.margin("spread of the indicators", eta.max() / max(eta.min(), 1e-30)); marking(c, key, T0, T1, (eta, eta), fr, fc, .03, rp)
            balance(c, key + ":marked", T1, rp); balance(c, key + ":restored", T2, rp)
            b2 = matched(T2, 1e-6); c.expect(key, "joints-match", not b2, rp, f"{len(b2)} border sides without a partner")
        c.case(name, True, sample=dict(case=name, cells=[len(r[f"{q}{s}.tria.id"]) for s in range(2) for q in "abc"]))
    L = [("spheroid", "coarse_sphere", 2, .2, .1, 1, dict(spheroid=True, ax="3", ay="0.6", az="1")), ("spheroids", "coarse_sphere_double_nodes", 2, .15, .1, 2, dict(spheroid=True, ax="0.4", ay="1.5", az="2.5")),
         ("sphere-Q2", "coarse_sphere", 2, .2, .2, 1, dict(maptype="Q", mapdeg=2)), ("sphere-fe2", "coarse_sphere", 1, .2, .2, 2, dict(feo=2, vfeo=2)), ("circle", "circle", 2, .2, .2, 1, {}),
         ("spheroid-fe2", "coarse_sphere", 1, .3, .1, 1, dict(spheroid=True, ax="0.5", ay="1.6", az="1", feo=2, vfeo=2))]
    for i in range(20 if c.thorough else 2):
        ax = {q: f"{float(rng.uniform(.3, 3)):.6g}" for q in ("ax", "ay", "az")}; fo = int(rng.integers(1, 3))
        L.append((f"spheroid-r{i}", str(rng.choice(["coarse_sphere", "coarse_sphere_double_nodes"])), 3 - fo, round(float(rng.uniform(.05, .3)), 3), round(float(rng.uniform(0, .3)), 3), int(rng.integers(1, 4)), dict(spheroid=True, feo=fo, vfeo=fo, **ax)))
    c.map(curved, L, workers=8)
    c.finish()
main()
