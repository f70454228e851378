#!/usr/bin/env python3-vt
"""C15: printed counts and error norms and the written files, recomputed from the recorded solution."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import shutil, vtu
NORMS = {"Phi Nodes error L_inf norm": "phi-inf", "Phi Cells error L_2 norm": "phi-L2", "dPhidN Nodes error L_inf norm": "dn-inf", "dPhidN Nodes error L_2 norm": "dn-L2", "Phi Nodes Gradient error L_inf norm": "grad-inf", "Phi Cells Gradient  error L_2 norm": "grad-L2"}

def main():
    c = Check("C15", "meshes (2D, 3D, closed, split, hanging nodes) x data x element orders x mappings x method x processes x output names; distinct by case, non-trivial when norms and files were compared",
              ["files contain the fields at the points the mapping degree asks for, in single precision"])
    c.need("rel", "pb")
    rng = c.rng; six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((2, 3, 2)), "boxm": M.box((2, 2, 2), split=False), "lshape": M.lshape(1), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2), "tetra": M.tetra(1), "sphere": M.qsphere(2), "ssphere": M.qsphere(2, mats=six), "warp": M.bump(M.box((3, 2, 2)), .07),
         "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 5), "circle": M.ngon(30), "circles": M.ngon(30, mats=[1 + i // 11 for i in range(30)]), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 5, split=False)}
    L = []
    def add(mn, D, kind="run", np_=1, **k): L.append((f"{mn}-D{'.'.join(map(str, D))}-{kind}-np{np_}" + "".join(f"-{a}{b}" for a, b in k.items()), mn, tuple(D), kind, np_, k))
    add("box", (1, 3)); add("lshape", (1,), feo=2, vfeo=2); add("prism", (1, 2), np_=2); add("tetra", (1,), method="FMA", p=4); add("sphere", ()); add("ssphere", (1, 2), maptype="Q", mapdeg=2); add("warp", (2,), mapdeg=2); add("sq", (1, 3)); add("circles", (2,), feo=2, vfeo=2)
    add("sqm", (1,), np_=3); add("circle", (), mapdeg=3, maptype="Q"); add("box", (1, 4), "errors", out="other"); add("boxm", (1,), "adapt", feo=2, vfeo=2); add("box", (2, 6), "adapt", np_=3); add("sphere", (1,), "run", 2, out="a b", feo=2, vfeo=2); add("box", six); add("sq", (1, 2, 3, 4), "twice"); add("prism", (5,), "twice", 2, ncyc=1); add("box", (3,), feo=3, vfeo=3, mapdeg=2)
    # curved cells: the repository's spheres and circle, spheroids
    G.update(csphere=M.grid("coarse_sphere"), csphered=M.grid("coarse_sphere_double_nodes"), ccircle=M.grid("circle"))
    ax = dict(spheroid=True, ax="1.7", ay="0.6", az="1.2")
    add("csphered", (1,), ncyc=1, np_=2, **ax); add("csphered", (0,), ncyc=1, maptype="Q", mapdeg=2, feo=2, vfeo=2); add("csphere", (), feo=2, vfeo=2, **ax); add("csphere", (1,), "errors", feo=2, vfeo=2, maptype="Q", mapdeg=3, np_=2); add("ccircle", (1,), feo=2, vfeo=2, maptype="Q", mapdeg=2); add("csphere", (1,), "adapt", ncyc=1, np_=2, mapdeg=2, **ax)
    names = list(G)
    for i in range(250 if c.thorough else 25):
        mn = names[rng.integers(len(names))]; ids = sorted(set(G[mn].mat)); d3 = G[mn].dim == 3
        D = sorted(int(a) for a in rng.choice(ids, min(len(ids), int(rng.integers(0, 4))), replace=False))
        k = dict(feo=int(rng.integers(1, 4 if not d3 else 3))); k["vfeo"] = k["feo"]
        if rng.random() < .4: k["mapdeg"] = int(rng.integers(1, 4)); k["maptype"] = str(rng.choice(["FE", "Q"]))
        if d3 and rng.random() < .25: k.update(method="FMA", p=int(rng.integers(3, 6)), feo=1, vfeo=1)
        if rng.random() < .2: k["out"] = str(rng.choice(["x", "res.1", "long_" * 8, "dir/y"]))
        if getattr(G[mn], "grid", None): k["ncyc"] = 1
        add(mn, D, str(rng.choice(["run", "errors", "adapt", "twice"])), int(rng.choice([1, 1, 2, 3])), **k)
    def one(cs):
        name, mn, D, kind, np_, k = cs; k = dict(k); m = G[mn]; dim = m.dim; ids = sorted(set(m.mat)); out = k.pop("out", "result")
        feo, vfeo, md = k.get("feo", 1), k.get("vfeo", 1), k.get("mapdeg", 1)
        h = source(m.v.max(0) + .3 * np.ptp(m.v, 0))
        # potential and velocity need not belong together: the reported errors are those of the given fields
        if len(name) % 2: h = (h[0] + "+x*y", h[1], lambda *X: h2(*X) + X[0] * X[1], h[3]); h2 = source(m.v.max(0) + .3 * np.ptp(m.v, 0))[2]
        pr = Prob(name, m, D=D, N=[i for i in ids if i not in D], h=h, tol=1e-9, steps=3000, qorder=5, sorder=6 if dim == 3 else 10, aspect=1e9, out=out, **k)
        ad = ["adaptf:" + "exp(-6*((x-0.1)^2+(y-0.2)^2))", "update", "reinit", "solve"]
        ops = {"run": ["run"], "errors": ["read", "refine", "update", "reinit", "solve", "errors", f"output:{out}"], "adapt": ["read", "refine", "update", "reinit", "solve"] + ad + ["errors", f"output:{out}"], "twice": ["run", "reinit", "solve", "errors", f"output:{out}"]}[kind]
        gq = 2 * (2 * feo + 1)
        fs = pr.files(); 
        if "/" in out:
            # a directory that exists: the program runs in its own scratch directory
            fs = dict(fs)
        r = c.run(name, dim, pr.params(), ops + ["tria:t", "dofs:t", "sol:t", f"gauss:q:{gq}", f"lattice:l:{md}"], files=fs, np_=np_, keep=True, expect_fail="/" in out)
        if r is None: return
        rp = c.replay(r, dict(files=pr.files()))
        try:
            if "/" in out:
                # the directory does not exist: the files cannot be written, and the run must not end as if they were
                c.expect(name, "unwritable-output-reported", r.rc != 0 and not r.hung, rp); c.case(name); return
            judge(c, name, r, rp, pr, dim, out, np_, kind, D)
        finally:
            shutil.rmtree(r.dir, ignore_errors=True)
    def judge(c, name, r, rp, pr, dim, out, np_, kind, D):
        x, cd, cvd, comp = r["t.dof.x"], r["t.cell.dofs"].astype(int), r["t.cell.vdofs"].astype(int), r["t.vdof.comp"].astype(int)
        n = len(x); nc = len(cd); phi, dn, al = r["t.phi"], r["t.dphi_dn"], r["t.alpha"]
        V = {q: r["t." + q] for q in ("grad", "surfgrad", "normals")}
        raw = r["t.vo2s"].astype(int), r["t.s2o"].astype(int)
        # nodal vectors -> vector unknowns: component d of node i
        def vec(a):
            v = np.full(len(comp), np.nan)
            for d in range(dim): v[raw[0][raw[1] + n * d]] = a[:, d]
            return v
        scalar_nodes = len(comp) == n * dim
        # --- printed report (the last one) ---
        out_ = r.out
        pick = lambda t: [l.split(":")[1].strip() for l in out_.splitlines() if l.strip().startswith(t + ":")]
        want = 2 if kind == "twice" else 1
        for t in ["Number of active cells", "Number of degrees of freedom"] + list(NORMS):
            if not c.expect(name, "reported-once-per-run", len(pick(t)) == want, rp, f"'{t}' is printed {len(pick(t))} times"): return
        c.expect(name, "cell-count", int(pick("Number of active cells")[-1]) == nc == len(r["t.tria.cells"]), rp, f"{pick('Number of active cells')} for {nc} cells")
        c.expect(name, "node-count", int(pick("Number of degrees of freedom")[-1]) == n, rp, f"{pick('Number of degrees of freedom')} for {n} nodes")
        ex, eg = pr.f(x), pr.g(x); wq, xq, s, vs = r["q.at.w"], r["q.at.x"], r["q.at.s"], r["q.at.vs"]
        L2 = lambda e: np.sqrt((wq * e).sum())
        F = dict(phi=phi, dn=dn)
        e_phi = phi - ex; e_dn = dn - (eg * V["normals"]).sum(1); e_g = V["grad"] - eg
        xf = xq.reshape(-1, dim)
        field = lambda a: a[cd] @ s.T
        def vfield(v):
            o = np.zeros((nc, len(wq[0]), dim))
            for d in range(dim):
                j = [q for q in range(cvd.shape[1]) if comp[cvd[0][q]] == d]
                o[:, :, d] = v[cvd[:, j]] @ vs[:, j].T
            return o
        vg = vec(V["grad"]) if scalar_nodes else None
        N = {"phi-inf": np.abs(e_phi).max(), "phi-L2": L2((field(phi) - pr.f(xf).reshape(nc, -1)) ** 2), "dn-inf": np.abs(e_dn).max(), "dn-L2": L2(field(e_dn) ** 2), "grad-inf": np.abs(e_g).max()}
        if vg is not None: N["grad-L2"] = L2(((vfield(vg) - pr.g(xf).reshape(nc, -1, dim)) ** 2).sum(-1))
        for t, q in NORMS.items():
            if q not in N: continue
            p = float(pick(t)[-1]); c.count("printed norms compared")
            sc = {"phi": np.abs(ex).max(), "dn-": np.abs(eg).max(), "gra": np.abs(eg).max()}[q[:3]] + 1e-300
            c.bound(name, "norm-" + q, abs(p - N[q]), 2e-5 * N[q] + 1e-11 * sc, rp, f"(printed {p}, recomputed {N[q]:.8g})")
        # --- files ---
        xl, sl, vl = r["l.at.x"], r["l.at.s"], r["l.at.vs"]; npc = xl.shape[1]; total = nc * npc
        at = lambda a: (a[cd] @ sl.T).reshape(-1)
        def vat(a):
            v = vec(a); o = np.zeros((nc, npc, 3))
            for d in range(dim):
                j = [q for q in range(cvd.shape[1]) if comp[cvd[0][q]] == d]; o[:, :, d] = v[cvd[:, j]] @ vl[:, j].T
            return o.reshape(-1, 3)
        want = {f"{out}_scalar_results.vtu": dict(phi=phi, dphi_dn=dn, alpha=al), f"{out}_vector_results.vtu": dict(phi_gradient=V["grad"], phi_surf_gradient=V["surfgrad"], normals_at_nodes=V["normals"]), "scalar_error.vtu": dict(phi_error=e_phi, dphi_dn_error=e_dn), "vector_error.vtu": dict(phi_gradient_error=e_g)}
        size = np.ptp(x, 0).max()
        for fn, fl in want.items():
            try: d = vtu.read(f"{r.dir}/{fn}")
            except Exception as e_:
                c.viol(f"{name}:{fn}:readable", f"{fn}: {type(e_).__name__} {e_}", rp); continue
            c.count("files read")
            if not c.expect(name, fn + ":points", len(d["points"]) == total, rp, f"{len(d['points'])} points for {total}"): continue
            p3 = np.zeros((total, 3)); p3[:, :dim] = xl.reshape(-1, dim)
            c.bound(name, "file-positions", np.abs(d["points"] - p3).max() / size, 1e-6, rp)
            c.expect(name, fn + ":fields", set(d["point"]) == set(fl), rp, f"{sorted(d['point'])}")
            md = round(npc ** (1 / (dim - 1))) - 1
            c.expect(name, fn + ":cells", len(d["offsets"]) == nc * md ** (dim - 1) and len(set(d["connectivity"].tolist())) == total, rp, f"{len(d['offsets'])} cells, {len(set(d['connectivity'].tolist()))} of {total} points used")
            for q, a in fl.items():
                if q not in d["point"]: continue
                if a.ndim == 2 and not scalar_nodes: continue
                e = at(a) if a.ndim == 1 else vat(a); sc = np.abs(a).max() + np.abs(ex).max() * 1e-6
                c.count("file values compared", e.size)
                c.bound(name, "file-" + q, np.abs(np.nan_to_num(d["point"][q] - e, nan=np.inf)).max() / sc, 2e-6, rp, fn)
        # --- the mesh files ---
        T = r["t.tria.cells"].astype(int); v = r["t.tria.v"]
        try:
            d = vtu.read(f"{r.dir}/mesh.vtu"); c.count("files read")
            ok = c.expect(name, "mesh.vtu:cells", len(d["offsets"]) == nc and len(d["points"]) == nc * 2 ** (dim - 1), rp)
            if ok:
                p3 = np.zeros((nc, T.shape[1] - 5, 3)); p3[:, :, :dim] = v[T[:, 5:]]
                c.bound(name, "mesh.vtu:positions", np.abs(d["points"] - p3.reshape(-1, 3)).max() / size, 1e-6, rp)
                c.expect(name, "mesh.vtu:partition", np.array_equal(d["cell"].get("partitioning", d["point"].get("partitioning", np.repeat(-1, nc))).reshape(nc, -1)[:, 0], T[:, 3]), rp)
        except Exception as e_: c.viol(f"{name}:mesh.vtu:readable", f"{type(e_).__name__} {e_}", rp)
        try:
            l = open(f"{r.dir}/meshResult.inp").read().split("\n"); l = [q for q in l if q and not q.startswith("#")]
            nv, ncell = [int(q) for q in l[0].split()[:2]]
            pts = {int(q.split()[0]): np.array([float(w) for w in q.split()[1:4]]) for q in l[1:1 + nv]}
            cells = [q.split() for q in l[1 + nv:1 + nv + ncell]]; cells = [q for q in cells if q[2] == ("quad" if dim == 3 else "line")]
            c.expect(name, "meshResult.inp:cells", len(cells) == nc and [int(q[1]) for q in cells[:nc]] == T[:, 0].tolist(), rp, f"{len(cells)} for {nc}")
            e = 0
            for q, t in zip(cells, T):
                P = np.array([pts[int(w)] for w in q[3:]])[:, :dim]; X = v[t[5:]]
                if dim == 3: X = X[[0, 1, 3, 2]]
                e = max(e, np.abs(P - X).max())
            c.bound(name, "meshResult.inp:positions", e / size, 1e-5, rp); c.count("files read")
        except Exception as e_: c.viol(f"{name}:meshResult.inp:readable", f"{type(e_).__name__} {e_}", rp)
        c.case(name, True, sample=dict(case=name, norms={k: float(v) for k, v in N.items()}))
    c.map(one, L, workers=8)
    c.finish()
main()
