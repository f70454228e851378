#!/usr/bin/env python3-vt
"""C20: solutions of transformed problems against the transformed solutions (no reference solution is needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import zlib
from scipy.spatial import cKDTree

def texpr(e, A, b, s, dim):
    """Text of f(A^T (x-b)/s) for the program's parser, f given as text."""
    X = "xyz"[:dim]
    num = lambda v: "(%.17g)" % v
    lin = {X[i]: "(" + "+".join(f"{num(A[j, i] / s)}*({X[j]}-{num(b[j])})" for j in range(dim)) + ")" for i in range(dim)}
    return re.sub(r"\b[xyz]\b", lambda m: lin[m.group()], e)
class Data:
    """Potential and velocity (unrelated: the symmetries hold for any data)."""
    def __init__(self, phi, wind): self.phi, self.wind = phi, wind
    def moved(self, A, b, s, dim):
        w = [texpr(q, A, b, s, dim) for q in self.wind]
        return Data(texpr(self.phi, A, b, s, dim), ["+".join(f"({A[i, j] / s:.17g})*({w[j]})" for j in range(dim)) for i in range(dim)])
    def comb(self, a, o, b): return Data(f"({a})*({self.phi})+({b})*({o.phi})", [f"({a})*({p})+({b})*({q})" for p, q in zip(self.wind, o.wind)])
    def prob(self): return (self.phi, self.wind, None, None)
DATA3 = [Data("2+sin(x+0.3)+y*z", ["1+x*y", "z-2*y+0.5", "x*x-0.7"]), Data("exp(x*y/2)/(4+z*z)", ["3-z", "x*y*z", "cos(y)"]), Data("x-2*y+0.5*z", ["1", "-2", "0.5"])]
DATA2 = [Data("2+sin(x+0.3)*y", ["1+x*y", "x-2*y+0.5"]), Data("exp(x*y/3)", ["y+0.3", "2*x-1"]), Data("x-2*y", ["1", "-2"])]

def main():
    c = Check("C20", "meshes x label assignments x element order x method x (superposition | translation | rotation | reflection | scaling | renumbering | combinations) x data; distinct by case, "
              "non-trivial when nodal values were compared",
              ["reflections and renumberings change the order of summation and the start corner of the singular rules: compared to quadrature accuracy",
               "uniform scaling is a symmetry in three dimensions only (the plane's kernel is not homogeneous)"])
    c.need("rel", "pb")
    rng = c.rng
    six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((2, 3, 2)), "sphere": M.qsphere(3), "ssphere": M.qsphere(3, mats=six), "lshape": M.lshape(2), "merged": M.box((2, 2, 2), split=False), "msphere": M.qsphere(3, mats=six, split=False), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2), "warp": M.bump(M.box((3, 2, 2)), .07), "tetra": M.tetra(2),
         "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6), "circle": M.ngon(40, mats=[1 + i // 14 for i in range(40)]), "sqm": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6, split=False)}
    L = []
    def add(mn, D, kind, **k): L.append((f"{mn}-D{'.'.join(map(str, D))}-{kind}-" + "-".join(f"{a}{b}" for a, b in k.items()), mn, tuple(D), kind, k))
    add("box", (1, 3), "linear"); add("lshape", (1, 5), "linear", method="FMA", p=5, leaf=4); add("circle", (1, 2), "linear", feo=2, vfeo=2); add("sphere", (), "linear"); add("merged", (1, 2), "linear", adapt=1)
    add("box", (1, 3), "shift"); add("ssphere", (1, 2), "rotate"); add("lshape", (8, 1), "rotate", feo=2, vfeo=2); add("prism", (2, 4), "reflect"); add("sq", (1, 2), "rotate"); add("circle", (1,), "reflect"); add("msphere", (1,), "rigid", adapt=1); add("sphere", (1,), "rigid", method="FMA", p=7)
    add("box", (1, 3), "scale1e-3"); add("ssphere", (1, 2), "scale1e3"); add("tetra", (1,), "scale37"); add("merged", (1, 5), "scale1e-2", adapt=1); add("lshape", (1, 3), "scale1e-3", method="FMA", p=6); add("warp", (1, 5), "scale1e3", method="FMA", p=6)
    add("box", (1, 3), "number"); add("warp", (1, 2), "number"); add("ssphere", (1, 4), "number", method="FMA", p=6); add("sq", (1,), "number"); add("msphere", (2,), "number"); add("sqm", (1, 4), "number", feo=2, vfeo=2); add("box", (1, 2), "rigidscale", maptype="Q", mapdeg=2)
    # far outside the usual lengths the solver's absolute tolerance is out of reach: the mesh, the coinciding nodes, the solid angles
    for sc in ("2e-5", "1e-6", "1e-7", "1e7", "1e9"):
        add("ssphere", (1,), "geo" + sc, adapt=1); add("prism", (1, 2), "geo" + sc, adapt=1)
    add("box", (1, 3), "scale1e-4"); add("ssphere", (1, 2, 3, 4, 5, 6), "scale2e-4"); add("box", (1, 2), "farshift"); add("ssphere", (1, 2), "farshift", adapt=1); add("sq", (1, 2), "farshift")
    # handles, cavities, holes
    G.update(frame=M.frame(), shell=M.shell(), annulus=M.annulus())
    add("frame", (1, 8), "rotate"); add("shell", (1, 8), "number"); add("shell", (2, 10), "scale1e-2", method="FMA", p=6, leaf=5); add("annulus", (1, 6), "rigid")
    names = list(G)
    for i in range(80 if c.thorough else 5):
        mn = names[rng.integers(len(names))]; ids = sorted(set(G[mn].mat)); d3 = G[mn].dim == 3
        D = list(rng.choice(ids, min(len(ids), int(rng.integers(0, 3))), replace=False))
        kind = str(rng.choice(["linear", "shift", "rotate", "reflect", "rigid", "number"] + (["scale%.3g" % 10 ** rng.uniform(-3, 3), "rigidscale"] if d3 else [])))
        add(mn, sorted(int(a) for a in D), kind, **(dict(method="FMA", p=int(rng.integers(5, 8)), leaf=int(rng.integers(4, 15))) if d3 and rng.random() < .3 else dict(zip(("feo", "vfeo"), [int(rng.integers(1, 3))] * 2))))
    seedbase = int(rng.integers(1 << 30))
    def one(cs):
        name, mn, D, kind, k = cs
        R = np.random.default_rng([seedbase, zlib.crc32(name.encode())])
        m = G[mn]; dim = m.dim; ids = sorted(set(m.mat)); k = dict(k); ad = k.pop("adapt", 0); fma = k.get("method") == "FMA"
        geo = kind.startswith("geo")
        Dt = DATA3 if dim == 3 else DATA2
        d0 = Dt[int(R.integers(2))]
        ex = "1/(0.2+(x-0.4)^2+2*(y+0.3)^2)" 
        def solve(tag, mesh, data, tol, A=None, b=None, s=1., q=6):
            pr = Prob(name, mesh, D=D, N=[i for i in ids if i not in D], h=data.prob(), tol=tol, steps=3000, qorder=q, sorder=q + 1 if dim == 3 else 12, aspect=1e9, **k)
            ops = ["read", "refine:0", "update"]
            if ad:
                e = ex if A is None else texpr(ex, A, b, s, dim)
                ops += ["reinit", "adaptf:" + e, "update"]
            ops += ["reinit", "solve", "tria:t", "dofs:t", "sol:t", "grad", "sol:g"] if not geo else ["reinit", "initbc", "assemble", "alpha", "tria:t", "dofs:t", "sol:t"]
            r = c.run(name + ":" + tag, dim, pr.params(), ops, files=pr.files())
            return r, (c.replay(r, dict(files=pr.files())) if r else None)
        T0 = 1e-11
        r0, rp0 = solve("base", m, d0, T0)
        if r0 is None: return
        isD = r0["t.dirichlet"] == 1; pure = not r0["t.have_dirichlet"][0]
        dbl = r0["t.dbl.ptr"].astype(int), r0["t.dbl.idx"].astype(int)
        tri = any(isD[dbl[1][dbl[0][i]:dbl[0][i + 1]]].sum() > 2 for i in range(len(isD)))
        c.count("cases with corners of three prescribed potentials", int(tri))
        te = {5: 4e-3, 6: 2e-3, 7: 1e-3}.get(k.get("p", 5), 5e-3) if fma else 0
        scs = {} if geo else {"phi": 1 + np.abs(r0["t.phi"]).max(), "dn": 1 + np.abs(r0["t.dphi_dn"]).max(), "g": 1 + np.abs(r0["g.grad"]).max()}
        def compare(what, ref, r, to, A, s, tol, rp, extra=True):
            """ref: values of the base problem; node i of r is node to[i] of the base; rotation A, scale s."""
            def cmp(q, u, v, sc, t, const=False):
                e = v - u
                if const: e = e - e.mean(0)
                c.count("values compared", e.size)
                c.bound(name, f"{what}:{q}", np.abs(np.where(np.isnan(e), np.inf, e)).max() / sc, t, rp)
            cmp("potential", ref["phi"][to], r["t.phi"], scs["phi"], tol, pure)
            cmp("flux", ref["dphi_dn"][to], r["t.dphi_dn"] * s, scs["dn"], 4 * tol)
            cmp("gradient", ref["grad"][to] @ A.T, r["g.grad"] * s, scs["g"], 10 * tol)
            if extra:
                cmp("solid-angle", r0["t.alpha"][to], r["t.alpha"], 1, tol)
                cmp("normals", r0["t.normals"][to] @ A.T, r["t.normals"], 1, 1e-7)
        base = {} if geo else dict(phi=r0["t.phi"], dphi_dn=r0["t.dphi_dn"], grad=r0["g.grad"]); I = np.eye(dim); n = len(r0["t.phi"]); idn = np.arange(n)
        if kind == "linear":
            d1 = Dt[(Dt.index(d0) + 1) % 3]; a, b = round(float(R.uniform(-3, 3)), 3), round(float(R.uniform(-3, 3)), 3)
            r1, _ = solve("second", m, d1, T0); rs, rps = solve("sum", m, d0.comb(a, d1, b), T0); rz, rpz = solve("scaled", m, d0.comb(1000, d0, 0), T0 * 100)
            rn, rpn = solve("nothing", m, d0.comb(0, d0, 0), T0); rt, rpt = solve("tiny", m, d0.comb(1e-9, d0, 0), T0 * 1e-9)
            if None in (r1, rs, rz, rn, rt): return
            tol = 1e-7 if not fma else 1e-6
            sm = dict(phi=a * base["phi"] + b * r1["t.phi"], dphi_dn=a * base["dphi_dn"] + b * r1["t.dphi_dn"], grad=a * base["grad"] + b * r1["g.grad"])
            # (pure flux problems: the constant is fixed by the data at a node, which is linear too)
            f = 1 + abs(a) + abs(b)
            for q, v in scs.items(): scs[q] = v * f * 3
            compare("sum", sm, rs, idn, I, 1., tol, rps)
            compare("nothing", {q: 0 * v for q, v in base.items()}, rn, idn, I, 1., tol, rpn)
            s0 = dict(scs)
            for q, v in scs.items(): scs[q] = v * 1000
            compare("multiple", {q: 1000 * v for q, v in base.items()}, rz, idn, I, 1., tol, rpz)
            for q, v in s0.items(): scs[q] = v * 1e-9
            compare("tiny", {q: 1e-9 * v for q, v in base.items()}, rt, idn, I, 1., tol, rpt)
        else:
            A, b, s = np.eye(dim), np.zeros(dim), 1.
            if kind in ("shift", "rigid", "rigidscale"): b = R.uniform(-3, 3, dim)
            if kind in ("rotate", "rigid", "rigidscale"): A = M.rotation(R, dim)
            if kind == "reflect": A = np.diag([-1.] + [1.] * (dim - 1)); A = A if R.random() < .5 else A @ M.rotation(R, dim)
            if kind == "farshift": b = R.uniform(1e3, 1e4, dim)
            if kind.startswith("scale"): s = float(kind[5:])
            if geo: s = float(kind[3:])
            if kind == "rigidscale": s = float(10 ** R.uniform(-2, 2))
            m1 = m.renumber(R) if kind == "number" else m.affine(s * A, b)
            if kind == "number" and dim == 2: m1 = m.renumber(R, rotate=False)
            r1, rp = solve(kind, m1, d0.moved(A, b, s, dim), T0 * min(1, 1 / s) , A, b, s)
            if r1 is None: return
            ok = c.expect(name, "same-mesh", len(r1["t.phi"]) == n, rp, f"{len(r1['t.phi'])} nodes instead of {n}")
            if not ok: return
            # match nodes by position and labels
            def labels(r):
                mt = r["t.tria.cells"][:, 0].astype(int); return [frozenset(int(mt[q]) for q, _ in cc) for cc in node_cells(r, "t.")]
            x1 = (r1["t.dof.x"] - b) @ A / s
            sc = np.ptp(r0["t.dof.x"], 0).max(); l0, l1 = labels(r0), labels(r1); to = np.full(n, -1)
            for lab in set(l0):
                i0 = [i for i in range(n) if l0[i] == lab]; i1 = [i for i in range(n) if l1[i] == lab]
                if len(i0) != len(i1): c.expect(name, "same-nodes-per-patch", False, rp, f"{len(i0)} {len(i1)} {lab}"); return
                dd, q = cKDTree(r0["t.dof.x"][i0]).query(x1[i1]); c.bound(name, "node-positions", dd.max() / sc, 1e-7, rp)
                for a_, b_ in zip(i1, q): to[a_] = i0[b_]
            if not c.expect(name, "node-correspondence", len(set(to.tolist())) == n, rp): return
            exact = kind in ("shift", "farshift", "rotate", "rigid", "rigidscale") or kind.startswith("scale")
            flat = mn not in ("warp", "sphere", "ssphere", "msphere")
            tol = (2e-7 if exact else 2e-6 if flat else 1e-5) + te
            if kind == "farshift" and dim == 2: tol = 2e-4     # rounding of the positions against the singular rule's points near the node
            if tri and not exact: tol = 2e-2
            dd = [r[0].astype(int), r[1].astype(int)] if (r := (r1["t.dbl.ptr"], r1["t.dbl.idx"])) else None
            bad = [i for i in range(n) if set(to[dd[1][dd[0][i]:dd[0][i + 1]]].tolist()) != set(dbl[1][dbl[0][to[i]]:dbl[0][to[i] + 1]].tolist())]
            c.expect(name, "coinciding-nodes", not bad, rp, f"{len(bad)} of {n} nodes coincide with other nodes than before the transformation")
            if geo: c.bound(name, "solid-angle", np.abs(r1["t.alpha"] - r0["t.alpha"][to]).max(), 2e-7, rp); c.count("values compared", n)
            else: compare(kind if not kind.startswith("scale") else "scale", base, r1, to, A, s, tol, rp)
        c.case(name, True, sample=dict(case=name, nodes=n))
    c.map(one, L, workers=8)
    c.finish()
main()
