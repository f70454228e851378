#!/usr/bin/env python3-vt
"""C09: everything recorded in runs on several processes against the serial run of the same problem, node by node."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *

def sets(r, n, to):
    p, i = r[n + ".ptr"].astype(int), r[n + ".idx"].astype(int)
    return {int(to[k]): frozenset(int(to[q]) for q in i[p[k]:p[k + 1]]) for k in range(len(p) - 1)}
def lines(r, n, to):
    p, j, w, l = r[n + ".ptr"].astype(int), r[n + ".idx"].astype(int), r[n + ".w"], r[n + ".line"].astype(int)
    return {int(to[l[k]]): sorted((int(to[a]), round(float(b), 9)) for a, b in zip(j[p[k]:p[k + 1]], w[p[k]:p[k + 1]])) for k in range(len(l))}

def main():
    c = Check("C09", "meshes x label assignments x element order x mapping x method x refinement history x gradients x process count, each against the serial run; "
              "distinct by case, non-trivial when every process owns nodes",
              ["relations between coincident nodes are compared through the groups and their number: which node represents its group depends on the numbering",
               "local refinement compares generic data: equal error estimates (symmetric data on symmetric meshes) are not ordered by anything"])
    c.need("rel", "pb")
    rng = c.rng
    six = (1, 2, 3, 4, 5, 6)
    def rot(m): return m.affine(rng.uniform(.5, 2) * M.rotation(rng, m.dim), rng.uniform(-1, 1, m.dim)).renumber(rng)
    G = {"box": M.box((2, 3, 2)), "boxr": rot(M.box((3, 2, 2))), "sphere": M.qsphere(3), "ssphere": rot(M.qsphere(3, mats=six)), "lshape": rot(M.lshape(2)), "merged": rot(M.box((3, 2, 2), split=False)), "msphere": rot(M.qsphere(2, mats=six, split=False)), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2),
         "tetra": rot(M.tetra(2)), "sq": rot(M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6)), "circle": M.ngon(50, mats=[1 + i // 17 for i in range(50)]), "sqm": rot(M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6, split=False)), "uneven": rot(M.grade(M.box((3, 3, 3)), 1.7))}
    L = []
    def add(mn, np_, D, hist="plain", **k): L.append((f"{mn}-np{np_}-D{'.'.join(map(str, D))}-{hist}-" + "-".join(f"{a}{b}" for a, b in k.items()), mn, np_, tuple(D), hist, k))
    add("box", 2, (1, 3)); add("boxr", 3, six); add("sphere", 4, (1,), h=4); add("ssphere", 5, (1, 2, 6), feo=2, vfeo=2); add("lshape", 8, (1, 3, 8)); add("merged", 3, (1,), "adapt", h=3); add("msphere", 4, (2, 3), "adapt", h=5); add("prism", 2, (2, 5), "adapt2", h=3)
    add("tetra", 6, (4,), "ref"); add("sq", 3, (1, 2)); add("circle", 4, (2,), feo=2, vfeo=2, h=3); add("sqm", 2, (1,), "adapt", h=4); add("uneven", 4, (), h=1); add("sphere", 3, (), h=5, method="FMA"); add("lshape", 4, (1, 5), method="FMA", h=3); add("ssphere", 2, (1, 3, 5), method="FMA", levels=4, leaf=5)
    add("merged", 5, (1, 2), "adapt", method="FMA", h=3); add("box", 6, (1, 2, 3), "hyp", h=2); add("tetra", 5, (1, 2, 3), h=0); add("boxr", 6, (1, 3, 5), h=0); add("sphere", 3, (1,), "hyp", h=3); add("box", 4, (5,), maptype="Q", mapdeg=2, h=3); add("merged", 7, (1, 2, 3), "cond")
    G["box5"] = M.box((5, 5, 5)); G["rbox5"] = rot(M.box((5, 4, 5))); G["graded5"] = rot(M.grade(M.box((5, 5, 5)), 2.))
    # matrix-vector products alone: blocks of the levels holding nodes of three and more processes
    for mn, np_, lv, lf in (("box5", 6, 3, 4), ("rbox5", 7, 4, 10), ("graded5", 8, 5, 5), ("sphere", 5, 3, 8)): add(mn, np_, (1,), "prod", method="FMA", levels=lv, leaf=lf, p=4)
    # handles, cavities, holes
    G.update(frame=rot(M.frame()), shell=rot(M.shell()), annulus=rot(M.annulus()))
    add("frame", 5, (1, 4, 7), h=0); add("shell", 4, (1, 3, 8), h=0); add("shell", 6, (2, 9), method="FMA"); add("annulus", 4, (1, 5), h=0)
    # hanging nodes, quadratic and cubic elements
    add("box", 4, (1, 3), "adapt", feo=2, vfeo=2, h=3); add("merged", 3, (1,), "adapt", feo=2, vfeo=2, h=3); add("lshape", 5, (1, 3, 8), "adapt", feo=2, vfeo=2, method="FMA", h=4, p=4, levels=4, leaf=10); add("prism" if "prism" in G else "tetra", 3, (2, 4), "adapt", feo=3, vfeo=3, h=2)
    names = list(G)
    for i in range(70 if c.thorough else 6):
        mn = names[rng.integers(len(names))]; d3 = G[mn].dim == 3; ids = sorted(set(G[mn].mat))
        D = [a for a in ids if rng.random() < .45]; fma = d3 and rng.random() < .35
        k = dict(h=int(rng.integers(2, 6)), **(dict(method="FMA", p=int(rng.integers(3, 7)), levels=int(rng.integers(2, 6)), leaf=int(rng.integers(3, 12))) if fma else dict(zip(("feo", "vfeo"), [int(rng.integers(1, 3))] * 2))))
        add(mn, int(rng.integers(2, 9)), D, str(rng.choice(["plain", "ref", "adapt", "adapt2", "cond"] + ["prod"] * 2 * fma)) if k.get("feo", 1) == 1 else "plain", **k)
    base = {}; blk = threading.Lock()
    def one(cs):
        name, mn, np_, D, hist, k = cs
        m = G[mn]; dim = m.dim; ids = sorted(set(m.mat)); k = dict(k); h = k.pop("h", 2); np_ = min(np_, max(2, len(m.cells) // 8)); h = h if dim == 3 else h % 6
        pr = Prob(name, m, D=D, N=[i for i in ids if i not in D], h=h, tol=1e-10, steps=3000, **k)
        fma = k.get("method") == "FMA"
        ops = ["read", "refine:0", "update"]
        if hist == "ref": ops += ["refine:1", "update"] if dim == 3 and len(m.cells) < 30 or dim == 2 else []
        elif hist == "cond": ops += ["condrefine:1"] if dim == 3 else []
        elif hist.startswith("adapt"): ops += ["reinit", "solve", "adapt", "update"] * (2 if hist == "adapt2" else 1)
        ops += ["reinit", "fma" if hist == "prod" else "solve", "tria:t", "dofs:t", "dcons:t"] + ["sol:t"] * (hist != "prod") + (["near:t", "octree:t", "fmaprod:t:" + str(1 + 2 * (hist == "prod"))] if fma else ["mat:t"])
        if hist != "prod": ops += ["errors", "sol:g"] + (["hypcoef", "hypgrad", "sol:h"] if hist == "hyp" else [])
        R = [c.run(name + (":serial" if q == 1 else ""), dim, pr.params(), ops, files=pr.files(), np_=q) for q in (1, np_)]
        if None in R: return
        a, b = R; rp = c.replay(b, dict(files=pr.files()))
        ca, cb = a["t.tria.cells"], b["t.tria.cells"]
        ok = c.expect(name, "refined-mesh", a["t.tria.v"].shape == b["t.tria.v"].shape and ca.shape == cb.shape and np.array_equal(np.delete(ca, 3, 1), np.delete(cb, 3, 1)) and np.abs(a["t.tria.v"] - b["t.tria.v"]).max() < 1e-12, rp, f"{ca.shape[0]} cells serially, {cb.shape[0]} on {np_} processes")
        if not ok: return
        n = len(a["t.dof.x"])
        if not c.expect(name, "number-of-nodes", len(b["t.dof.x"]) == n, rp): return
        to = np.full(n, -1); da, db = a["t.cell.dofs"].astype(int), b["t.cell.dofs"].astype(int)
        to[db.ravel()] = da.ravel()   # node of the parallel run -> node of the serial run
        if not c.expect(name, "node-correspondence", np.array_equal(to[db], da) and len(set(to.tolist())) == n, rp): return
        idn = np.arange(n); pure = not b["t.have_dirichlet"][0]
        c.bound(name, "positions", np.abs(b["t.dof.x"] - a["t.dof.x"][to]).max(), 1e-10, rp)
        c.expect(name, "kinds", np.array_equal(b["t.dirichlet"], a["t.dirichlet"][to]) and np.array_equal(b["t.neumann"], a["t.neumann"][to]) and a["t.have_dirichlet"][0] == b["t.have_dirichlet"][0], rp)
        sa, sb = sets(a, "t.dbl", idn), sets(b, "t.dbl", to)
        c.expect(name, "coincident-groups", sa == sb, rp, f"{sum(sa.get(q) != sb.get(q) for q in sa)} nodes differ")
        c.expect(name, "hanging-relations", lines(a, "t.hn", idn) == lines(b, "t.hn", to), rp)
        c.expect(name, "relations-known-to-all", b["t.cons.same"].all(), rp)
        la, lb = set(lines(a, "t.cons", idn)), set(lines(b, "t.cons", to))
        grp = lambda S, d: sorted((min(d[i] | {i}), ) for i in S)
        c.expect(name, "number-of-relations", len(la) == len(lb), rp, f"{len(la)} serially, {len(lb)}")
        ca_, cb_ = {}, {}
        for S, q in ((la, ca_), (lb, cb_)):
            for i in S: g = min(sa[i] | {i}); q[g] = q.get(g, 0) + 1
        c.expect(name, "relations-per-group", ca_ == cb_, rp)
        # corners of three or more prescribed-potential patches: which pair of tangential gradients counts depends on the numbering
        tri = any(sum(a["t.dirichlet"][q] == 1 for q in sa[i] | {i}) > 2 for i in range(n)) and not (h == 0 and k.get("method") != "FMA")
        fac = (1e5 if "sphere" not in mn else 3e5) if tri else 1; c.count("cases with corners of three prescribed potentials", int(tri))
        cnt = 0
        def cmp(key, tol, vec=True, const=False, sc0=0.):
            nonlocal cnt
            if key not in a and key not in b: return
            u, v = a[key], b[key]
            if not c.expect(name, key.split(".", 1)[1] + "-shape", u.shape == v.shape, rp, f"{u.shape} {v.shape}") or not u.size: return
            if vec: u = u[to]
            else: u = u[np.ix_(to, to)]
            e = v - u
            if const: e = e - e.mean()
            cnt += e.size
            c.bound(name, key.split(".", 1)[1] + {"g": "-after-errors", "h": "-hypersingular"}.get(key[0], ""), np.abs(np.where(np.isnan(e), np.inf, e)).max() / max(np.abs(u).max(), sc0, 1e-30), tol, rp)
        tp = 1e-9
        cmp("t.alpha", tp); cmp("t.normals", 1e-8)
        for q in ("N", "D", "nearN", "nearD"): cmp("t." + q, 1e-10, vec=False)
        if fma:
            cmp("t.fin.p0", 1e-12)
            for q in range(3): cmp(f"t.fout.N{q}", tp); cmp(f"t.fout.D{q}", tp)
            for q in ("oct.blocks", "oct.lists"): c.expect(name, q, np.array_equal(a["t." + q], b["t." + q]) or q == "oct.lists" and sorted(map(tuple, a["t." + q])) == sorted(map(tuple, b["t." + q])), rp)
        for t in "tg":
            cmp(t + ".phi", 1e-6 * fac, const=pure, sc0=1); cmp(t + ".dphi_dn", 2e-6 * fac, sc0=1)
        cmp("t.tmp_rhs", 1e-9, sc0=1); cmp("g.surfgrad", 1e-5 * fac, sc0=1); cmp("g.grad", 1e-5 * fac, sc0=1)
        cmp("h.hyp_alpha", 1e-7); cmp("h.grad", 1e-5 * fac, sc0=1)
        f = lambda r: [float(x) for x in re.findall(r"(?:error|norm)[^\n:]*:\s*([-+0-9.einfa]+)", r.out)]
        ea, eb = f(a), f(b)
        if hist == "prod": pass
        elif c.expect(name, "reported-errors", len(ea) == len(eb) > 0, rp, f"{len(ea)} {len(eb)}") and not pure:
            c.bound(name, "reported-errors-equal", max(abs(x - y) / (abs(x) + 1e-3) for x, y in zip(ea, eb)), 2e-3 if not tri else .3, rp)
        per = np.diff(b["t.own.ptr"]); c.count("node values compared", cnt); c.count("processes", np_)
        c.case(name, (per > 0).all() and np_ > 1, sample=dict(case=name, nodes=n, per_process=[int(x) for x in per], values=cnt))
    c.map(one, L, workers=4)
    c.finish()
main()
