#!/usr/bin/env python3-vt
"""C04: exactly-once accounting of node/quadrature-point pairs over the recorded tree, and by probing with unit densities."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *

def tree(c, key, r, k, rp):
    B = r["t.oct.blocks"]; nb = len(B)
    lev, par, nch, dl, pm = B[:, 0].astype(int), B[:, 1].astype(int), B[:, 2].astype(int), B[:, 3], B[:, 4:7]
    ch = [[int(x) for x in B[i, 7:7 + nch[i]]] for i in range(nb)]
    x = r["t.dof.x"]; n = len(x); ptr = lambda a: r[f"t.oct.{a}.ptr"].astype(int)
    np_, qp = ptr("nodes"), ptr("quads")
    ni = r["t.oct.nodes.idx"].astype(int)
    nq = r["t.oct.qx"].shape[1]; qx = r["t.oct.qx"].reshape(-1, 3)
    qi = r["t.oct.quads.idx"].astype(int); qid = qi[:, 0] * nq + qi[:, 1] if len(qi) else np.zeros(0, int)
    nodes = [ni[a:b] for a, b in zip(np_, np_[1:])]; quads = [qid[a:b] for a, b in zip(qp, qp[1:])]
    leaf = np.array([i for i in range(nb) if not ch[i]])
    tol = 1e-10 * dl[0]
    F = lambda what, ok, msg="": c.expect(key, what, ok, rp, msg)
    # ---- structure
    kids = [j for i in range(nb) for j in ch[i]]
    if not F("every block but the root is a child of its recorded parent", sorted(kids) == list(range(1, nb)) and all(par[j] == i for i in range(nb) for j in ch[i])):
        return None
    i = np.arange(1, nb)
    F("levels and sizes of children", np.all(lev[i] == lev[par[i]] + 1) and np.all(np.abs(dl[i] - dl[par[i]] / 2) < tol))
    off = (pm[i] - pm[par[i]]) / dl[i][:, None]
    F("child is an octant of its parent", np.all((np.abs(off) < 1e-6) | (np.abs(off - 1) < 1e-6)))
    F("children are different octants", len({(p,) + tuple(o) for p, o in zip(par[i], np.round(off).astype(int))}) == nb - 1)
    for i in range(nb):
        if ch[i]:
            for what, S in (("nodes", nodes), ("quadrature points", quads)):
                a = np.sort(np.concatenate([S[j] for j in ch[i]]))
                if not np.array_equal(a, np.sort(S[i])): F("children partition the " + what, False, f"block {i}")
    for what, y, p in (("nodes", x[ni], np_), ("quadrature points", qx[qid], qp)):
        bi = np.repeat(np.arange(nb), np.diff(p))
        o = np.maximum(pm[bi] - y, y - pm[bi] - dl[bi][:, None]).max() if len(y) else 0
        c.bound(key, f"{what} inside the box", max(o, 0), tol, rp)
    for l in range(1, len(r["t.oct.start"])):
        s, e = int(r["t.oct.start"][l]), int(r["t.oct.end"][l])
        w = np.where(lev == l)[0]
        F("levels are contiguous", np.array_equal(w, np.arange(s, e + 1)) if e >= s else not len(w), f"level {l}")
    own = np.bincount(np.concatenate([nodes[i] for i in leaf]), minlength=n); ownq = np.bincount(np.concatenate([quads[i] for i in leaf]), minlength=len(qx))
    F("every node in exactly one leaf", np.all(own == 1), f"{np.where(own != 1)[0][:5]}")
    F("every quadrature point in exactly one leaf", np.all(ownq == 1), f"{np.where(ownq != 1)[0][:5]}")
    F("list of leaves", np.array_equal(np.sort(r["t.oct.childless"].astype(int)), leaf))
    mult = np.diff(r["t.dbl.ptr"].astype(int))
    for i in leaf:
        w = np.sum(1. / mult[nodes[i]]) if len(nodes[i]) else 0
        if not (w < k["leaf"] + .500001 or lev[i] >= k["levels"]): F("points-per-block limit", False, f"leaf {i} of level {lev[i]} has {w:.2f}")
        c.margin("leaf occupation", w / k["leaf"] if lev[i] < k["levels"] else 0)
    # ---- accounting, with blocks as intervals of leaves
    lo, hi, order = np.zeros(nb, int), np.zeros(nb, int), []
    stack = [(0, 0)]
    while stack:
        b, done = stack.pop()
        if done: hi[b] = len(order); continue
        lo[b] = len(order); stack.append((b, 1))
        if not ch[b]: order.append(b)
        for j in ch[b][::-1]: stack.append((j, 0))
    nn, nqb = np.diff(np_), np.diff(qp)
    L = r["t.oct.lists"].astype(int)
    last = {}
    for kind, b, s, o in L:
        if kind == 1 and not ch[b]:
            if s > last.get(b, (-1,))[0]: last[b] = (s, [])
            if s == last[b][0]: last[b][1].append(o)
    st, en = r["t.oct.start"].astype(int), r["t.oct.end"].astype(int)
    A = L[(L[:, 0] == 2) & (nn[L[:, 1]] > 0) & (lev[L[:, 1]] > 0)]
    b, o = A[:, 1], A[:, 3]
    same = (o >= st[lev[b]]) & (o <= en[lev[b]]); fine = o > en[lev[b]]; coarse = o < st[lev[b]]
    gap = np.maximum(np.maximum(pm[o] - pm[b] - dl[b][:, None], pm[b] - pm[o] - dl[o][:, None]).max(1), 0) if len(b) else np.zeros(0)
    w = same & (nqb[o] > 0)
    if w.any(): F("conversions only between separated boxes", (gap[w] / dl[b[w]]).min() > .999, f"gap {(gap[w]/dl[b[w]]).min():.3f} of their size")
    w = fine & (nqb[o] > 0)
    if w.any(): F("evaluations only outside the neighbours", (gap[w] / dl[o[w]]).min() > .999, f"gap {(gap[w]/dl[o[w]]).min():.3f}")
    contrib = np.zeros((nb, len(leaf) + 1), np.int32)
    np.add.at(contrib, (b, lo[o]), 1); np.add.at(contrib, (b, hi[o]), -1)
    for b_ in leaf:
        for o_ in last.get(b_, (0, []))[1]:
            contrib[b_, lo[o_]] += 1; contrib[b_, hi[o_]] -= 1
    if nb == 1: contrib[0, 0] += 1; contrib[0, 1] -= 1
    cnt = np.zeros_like(contrib)
    for i in range(nb):   # parents come before children
        cnt[i] = contrib[i] + (cnt[par[i]] if i else 0)
    cnt = np.cumsum(cnt, 1)[:, :-1]
    has = nqb[np.array(order)] > 0
    bad = np.argwhere((cnt[leaf] != 1) & has[None] & (nn[leaf] > 0)[:, None])
    F("every pair accounted exactly once", not len(bad), f"{len(bad)} of {len(leaf)**2} leaf pairs, e.g. nodes of leaf {leaf[bad[0][0]]} and points of leaf {order[bad[0][1]]} counted {cnt[leaf[bad[0][0]], bad[0][1]]} times" if len(bad) else "")
    c.count("node/quadrature-point pairs accounted", int(n * len(qx))); c.count("leaf pairs accounted", len(leaf) ** 2)
    c.count("conversions between blocks", int(same.sum())); c.count("direct evaluations of block expansions", int(fine.sum())); c.count("direct integrations across levels", int(coarse.sum()))
    return int(same.sum() + fine.sum())

def main():
    c = Check("C04", "meshes (uniform, graded, thin, long, several bodies, off-centre, refined) x depth x points per block x quadrature; non-trivial when expansions are used",
              ["the accounting follows how the passes use the lists; unit-density probes confirm it on the computed products"])
    c.need("rel", "pb")
    rng = c.rng
    rot = lambda m: m.affine(rng.uniform(.5, 2) * M.rotation(rng, 3), rng.uniform(-2, 2, 3)).renumber(rng)
    G = {
        "sphere": lambda: M.qsphere(4), "box": lambda: M.box((4, 4, 4)), "rbox": lambda: rot(M.box((4, 3, 5), (1, .8, 1.3))), "long": lambda: M.box((12, 2, 2), (9, 1, 1)),
        "graded": lambda: M.grade(M.box((4, 4, 4)), 3. if c.thorough else 2.), "two": lambda: M.union(M.qsphere(3), M.qsphere(3, .3, (2.5, .4, .3), mats=(2,) * 6)), "plate": lambda: rot(M.box((7, 7, 1), (3, 3, .2))),
        "tetra": lambda: rot(M.tetra(3)), "dyadic": lambda: M.box((4, 4, 4), (2, 2, 2), center=(0, 0, 0)), "far": lambda: M.box((3, 3, 3), (1, 1, 1), center=(7, 5, -3)), "lshape": lambda: M.lshape(3),
    }
    L = []
    def add(mn, **k):
        L.append((f"{mn}-" + "-".join(f"{a}{b}" for a, b in k.items()), mn, k))
    add("sphere", levels=4, leaf=5); add("box", levels=6, leaf=2); add("rbox", levels=7, leaf=1); add("long", levels=6, leaf=3); add("graded", levels=6, leaf=2); add("two", levels=7, leaf=2)
    add("plate", levels=5, leaf=4); add("tetra", levels=3, leaf=1); add("dyadic", levels=4, leaf=1); add("far", levels=6, leaf=3); add("lshape", levels=5, leaf=2)
    add("sphere", levels=1, leaf=1); add("sphere", levels=2, leaf=500); add("graded", levels=5, leaf=6, qorder=2); add("two", levels=10, leaf=4); add("box", levels=2, leaf=1)
    add("two", levels=6, leaf=2, fe=2); add("sphere", levels=5, leaf=3, np_=2); add("box", levels=5, leaf=1, adapt=1); add("lshape", levels=6, leaf=2, adapt=1)
    # handles, cavities, holes
    G.update(torus=lambda: M.torus(14, 8), frame=lambda: M.frame(2), shell=lambda: M.shell(4, 3))
    add("torus", levels=5, leaf=3); add("frame", levels=6, leaf=2); add("shell", levels=5, leaf=4)
    names = list(G)
    for i in range(150 if c.thorough else 10):
        add(names[rng.integers(len(names))], levels=int(rng.integers(1, 9)), leaf=int(rng.integers(1, 15)), qorder=int(rng.integers(2, 6)))
    mesh = {a: f() for a, f in G.items()}
    def one(cs):
        name, mn, k = cs; k = dict(k); np_ = k.pop("np_", 1); fe = k.pop("fe", 1); ad = k.pop("adapt", 0)
        pr = Prob(name, mesh[mn], D=sorted(set(mesh[mn].mat)), method="FMA", p=4 if ad else 10, **k)
        q = f"gauss:{k.get('qorder', 4)}:5"
        ops = ["read", "refine", "update", "reinit"]
        if ad:
            ops = ["read", "refine", "update", "reinit", "solve", "adapt", "reinit"]
        nd = len(mesh[mn].v)
        ops += ["fma", "octree:t", "dofs:t"] + ([f"fmaprobe:t:{max(1, nd // (60 if c.thorough else 20))}:0", f"refops:t:1:{q}"] if fe == 1 and not ad else [])
        par = pr.params(feo=fe, vfeo=fe) if fe > 1 else pr.params(refine=.2, coarsen=.05) if ad else pr.params()
        r = c.run(name, 3, par, ops, files=pr.files(), np_=np_, timeout=400)
        if r is None: return
        if c.verbose: print(f'   wall {name} {r.wall:.1f}')
        rp = c.replay(r); used = None
        if "t.oct.blocks" in r:
            used = tree(c, name, r, dict(leaf=k["leaf"], levels=k["levels"]), rp)
            c.count("blocks", len(r["t.oct.blocks"]))
        else:
            c.inconclusive.append(name + ": the tree could not be recorded")
        if "t.probe.j" in r:
            J = r["t.probe.j"].astype(int); D, N = r["t.refD"][:, J], r["t.refN"][:, J]
            # every entry on its own: one lost or repeated pair is a sixteenth of a far entry or more
            e = np.abs(r["t.probe.D"].T - D) / np.abs(D)
            i, j = np.unravel_index(np.argmax(np.nan_to_num(e, nan=np.inf)), e.shape)
            c.bound(name, "single-layer entries", e[i, j], .02, rp, f"(node {i}, density {J[j]}: {r['t.probe.D'][j, i]:.6g}, exact {D[i, j]:.6g})")
            # double layer: relative to |kernel|, bounded through distance
            x = r["t.dof.x"]; dist = np.linalg.norm(x[:, None] - x[None, J], axis=2); h = np.max([np.linalg.norm(p[2] - p[0]) for p in x[r["t.cell.dofs"].astype(int)][:, [0, 1, 3, 2]]])
            sc = np.abs(D) / np.maximum(dist, .5 * h)
            e = np.abs(r["t.probe.N"].T - N) / sc
            i, j = np.unravel_index(np.argmax(np.nan_to_num(e, nan=np.inf)), e.shape)
            c.bound(name, "double-layer entries", e[i, j], .1, rp, f"(node {i}, density {J[j]}: {r['t.probe.N'][j, i]:.6g}, exact {N[i, j]:.6g})")
            c.count("entries probed", e.size)
        c.case(name, nontrivial=bool(used), sample=dict(case=name, nodes=len(r["t.dof.x"]), blocks=len(r["t.oct.blocks"]) if "t.oct.blocks" in r else None, expansion_uses=used))
    c.map(one, L, workers=7)
    c.finish()
main()
