#!/usr/bin/env python3-vt
"""C19: everything recorded after a history of other work against a fresh process that only builds the final mesh and settings."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
SOLVED = {"phi", "dphi_dn", "sol", "surfgrad", "grad", "last_step", "hyp_alpha", "system_rhs"}

def main():
    c = Check("C19", "mesh x settings x history (other settings, elements, mappings, methods, boundary data, labels, refinements, solves, outputs, gradients, other instances before) x ranks; "
              "every recorded quantity is compared; distinct by history, non-trivial when the history did other work than the fresh process",
              ["the histories end with an application of the parameters, a re-initialisation and a solve, as the program's own driver does"])
    c.need("rel", "pb")
    rng = c.rng
    six = (1, 2, 3, 4, 5, 6)
    G = {"box": M.box((2, 2, 2)), "sphere": M.qsphere(3), "ssphere": M.qsphere(2, mats=six), "lshape": M.lshape(1), "merged": M.box((2, 2, 2), split=False), "prism": M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2), "sq": M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 6), "circle": M.ngon(40, mats=[1 + i // 20 for i in range(40)])}
    SET3 = {"fe2": dict(feo=2, vfeo=2), "q": dict(qorder=6, sorder=3), "qq": dict(qorder=3, sorder=7), "q8": dict(qorder=8), "Q1": dict(maptype="Q"), "Q2": dict(maptype="Q", mapdeg=2), "s2": dict(sorder=2, qorder=4),
            "fma": dict(method="FMA", p=4), "fma6": dict(method="FMA", p=6, levels=4, leaf=4), "fma3": dict(method="FMA", p=3, levels=2, leaf=30, grain=1), "tol": dict(tol=1e-3), "h3": "h3", "N": "allN", "D": "allD", "ids": "ids"}
    SET2 = {k: v for k, v in SET3.items() if "fma" not in k}
    exprs = ["x*x-y*y+0.3*z", "exp(3*x)*cos(2*y)", "1/sqrt((x-0.2)^2+(y-1.5)^2+(z+0.4)^2)"]
    L = []
    def add(mn, base, noise, np_=1, final=None): L.append((f"{mn}-{base}-" + "+".join(noise) + f"-np{np_}", mn, base, noise, np_))
    # base: how the final mesh comes about; noise: the other work
    add("box", "plain", ["again"]); add("box", "plain", ["fe2", "q"], 2); add("lshape", "ref1", ["solve0", "fma"]); add("sphere", "ref1", ["solve0", "Q2", "out"]); add("merged", "adapt", ["solve", "fe2"]); add("merged", "adapt2", ["solve", "out", "h3"], 2)
    add("ssphere", "fma", ["fma6", "again", "fma3"]); add("box", "fma", ["q", "D", "grad"], 2); add("prism", "fma6", ["fma", "fe2", "N"]); add("sq", "ref1", ["fe2", "solve0", "q", "N"]); add("circle", "adapt", ["Q2", "solve", "ids"], 2); add("lshape", "plain", ["N", "ids", "inst"])
    add("sphere", "adapt", ["fma", "solve", "hyp"]); add("box", "fe2", ["q", "Q1", "tol"]); add("ssphere", "Q2", ["fe2", "s2", "q8"]); add("sphere", "pureN", ["D", "again"]); add("merged", "fmaadapt", ["solve", "fma6", "out"], 2); add("box", "fma", ["ref-before", "again"])
    add("box", "ref1", ["N", "fma", "solve0"], 3); add("prism", "cond", ["solve0", "fe2", "out"]); add("sq", "plain", ["inst", "again", "tol"], 3)
    # handles, cavities, holes
    G.update(frame=M.frame(), shell=M.shell())
    add("shell", "plain", ["solve0", "fma"], 2); add("frame", "plain", ["N", "again"])
    # another mesh with as many nodes, numbered and shared out otherwise, before (first) ; solves repeated at the end (every case)
    add("sphere", "fma", ["inst2", "solve"], 4); add("lshape", "fma6", ["inst2"], 3); add("sphere", "fma3", ["inst2"], 3); add("lshape", "plain", ["inst2", "again"], 2); add("sq", "plain", ["inst2"], 3); add("merged", "fma", ["solve0", "inst2"], 2)
    names = list(G)
    for i in range(80 if c.thorough else 5):
        mn = names[rng.integers(len(names))]; d3 = G[mn].dim == 3
        base = str(rng.choice(["plain", "ref1", "adapt", "fe2", "Q2", "q"] + (["fma", "fma6", "fmaadapt"] if d3 else [])))
        pool = list(SET3 if d3 else SET2) + ["again", "out", "grad", "inst", "inst2", "solve0", "solve"] + (["hyp"] if d3 else [])
        add(mn, base, [str(x) for x in rng.choice(pool, int(rng.integers(2, 5)), replace=False)], int(rng.integers(1, 4)))
    def one(cs):
        name, mn, base, noise, np_ = cs
        m = G[mn]; dim = m.dim; ids = sorted(set(m.mat))
        D = ids[:max(1, len(ids) // 2)] if len(ids) > 1 else [1]
        if base == "pureN": D = []
        k = dict(tol=1e-9, steps=3000)
        b = base
        for t in ("adapt2", "adapt", "ref1", "cond", "plain", "pureN"): b = b.replace(t, "")
        if b: k.update(SET3[b])
        if "fe" not in k and k.get("feo") == 2 and k.get("method"): k.pop("feo")
        hh = lambda h: Prob("x", m, D=D, N=[i for i in ids if i not in D], h=h)
        pr = hh(1); S = pr.params(**k)
        files = dict(pr.files()); files["S.prm"] = PB.prm_text(S)
        def other(nm):
            v = SET3[nm]; q = pr; kk = dict(k)
            if v == "h3": q = hh(2 if dim == 2 else 3); v = {}
            elif v == "allN": q = Prob("x", m, D=[], N=ids, h=1); v = {}
            elif v == "allD": q = Prob("x", m, D=ids, N=[], h=0); v = {}
            elif v == "ids": q = Prob("x", m, D=[ids[-1]], N=ids[:1], h=0); v = {}
            kk.update(v); files[nm + ".prm"] = PB.prm_text(q.params(**kk)); return nm + ".prm"
        # --- building the mesh, with and without the other work in between ---
        ref, his = ["read", "refine:0", "update"], ["read", "refine:0", "update"]
        work = []
        for q in noise:
            if q == "again": work += ["reinit", "solve", "solve"]
            elif q in ("solve", "solve0"): work += ["reinit", "solve"]
            elif q == "out": work += ["reinit", "solve", "errors", "output:o"]
            elif q == "grad": work += ["reinit", "solve", "grad"]
            elif q == "hyp": work += ["prm:S.prm", "reinit", "solve"] + (["hypcoef"] if not k.get("method") else [])
            elif q == "inst": work = ["prm:" + other("q"), "reinit", "solve", "errors", "fresh:p.prm", "read", "refine:0", "update"] + work
            elif q == "inst2": pass
            elif q == "ref-before": work += ["reinit", "solve"]
            else: work += ["prm:" + other(q), "reinit", "solve"] + (["errors"] if rng.random() < .3 else [])
        cut = int(rng.integers(0, 2))
        his += work
        if "inst2" in noise:
            q = Prob("x", m.renumber(rng), D=pr.D, N=pr.N, h=1); files["m2.inp"] = q.mesh.write("inp"); files["i2.prm"] = PB.prm_text(dict(q.params(**k), **{PB.SHORT["grid"].format(d=dim): "./m2"}))
            his = ["fresh:i2.prm", "read", "refine:0", "update", "reinit", "solve", "errors", "fresh:p.prm"] + his
        if "ref1" in base: ref += ["refine:1", "update"]; his += ["refine:1", "update"]
        elif "cond" in base: ref += ["condrefine:1"]; his += ["condrefine:1"]
        elif "adapt" in base:
            for a in range(2 if "adapt2" in base else 1):
                z = ["prm:S.prm", "reinit", "adaptf:" + exprs[a].replace("z", "z" if dim == 3 else "x"), "update"]
                ref += z; his += z
                his += [w for w in work if not w.startswith(("fresh", "read", "refine"))] if "inst" not in noise else ["reinit", "solve"]
        if cut and "inst" not in noise: his += work if "fresh:p.prm" not in work else []
        end = ["prm:S.prm", "reinit", "solve", "tria:t", "dofs:t", "sol:t", "dcons:t", "geom:t", "params:t"]
        end += ["octree:t", "near:t", "fmaprod:t:1"] if k.get("method") == "FMA" else ["mat:t"]
        end += ["solve", "sol:w", "dcons:w"]  # the solve once more, without changes
        end += ["grad", "sol:g", "errors"]
        r0 = c.run(name + ":fresh", dim, S, ref + end, files=files, np_=np_)
        r1 = c.run(name, dim, S, his + end, files=files, np_=np_)
        if r0 is None or r1 is None: return
        rp = c.replay(r1, dict(files=files))
        pure = not D
        n = 0
        def cmp(A, B, label, sfx=""):
            nonlocal n
            for key in sorted(A):
                a, b_ = A[key], B.get(key)
                q = key.split(".", 1)[1]
                if key in ("t.grad", "t.surfgrad"): continue
                if not c.expect(name, f"{q}-shape{sfx}", b_ is not None and a.shape == b_.shape, rp, f"{None if b_ is None else b_.shape} instead of {a.shape} {label}"): continue
                if not a.size or q == "last_step": continue
                sc = np.abs(a).max() + 1e-300
                if q in ("phi", "sol") and pure: e = np.abs((b_ - b_.mean()) - (a - a.mean())).max()
                else:
                    e = np.abs(np.where(np.isnan(a) & np.isnan(b_), 0, b_ - a)).max()
                tol = 2e-5 if q in SOLVED else 1e-10
                c.bound(name, q + sfx, e / max(sc, 1e-8 if q not in SOLVED else 1), tol, rp, label); n += a.size
        t0 = {k_: v for k_, v in r0.d.items() if k_.startswith(("t.", "g."))}
        cmp(t0, r1.d, "(after the history)")
        sub = lambda r, t: {"t." + k_[2:]: v for k_, v in r.d.items() if k_.startswith(t)}
        again = sub(r0, "w.")
        for r_, l in ((r0, ":repeated"), (r1, ":repeated-later")): cmp({k_: v for k_, v in sub(r_, "t.").items() if k_ in again}, sub(r_, "w."), "(solved once more)", l)
        f = lambda r: [float(x) for x in re.findall(r"(?:error|norm)[^\n:]*:\s*([-+0-9.einfa]+)", r.out)]
        e0, e1 = f(r0), f(r1)[-len(f(r0)):]
        if c.expect(name, "reported-errors", len(e0) == len(e1) and len(e0) > 0, rp, f"{len(e0)} {len(e1)}"):
            c.bound(name, "reported-errors-equal", max(abs(a - b_) / (abs(a) + 1e-3) for a, b_ in zip(e0, e1)), 1e-3, rp)
        c.case(name, his != ref, sample=dict(case=name, history=his, values=n)); c.count("values compared", n)
    c.map(one, L, workers=6)
    c.finish()
main()
