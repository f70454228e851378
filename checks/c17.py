#!/usr/bin/env python3-vt
"""C17: whole runs under AddressSanitizer, UBSan, bounds-checked containers and the libraries' debug assertions, and under memcheck."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import shutil
SIX = (1, 2, 3, 4, 5, 6)

def slit(rng, n=3, keep=None):
    """A box whose edge between two patches is only partly split."""
    m = M.box((n, n, n), split=False); v = list(m.v); cells = m.cells.copy(); mat = np.asarray(m.mat)
    for k, p in enumerate(m.v):
        if abs(p[0] - .5) < 1e-9 and abs(p[2] - .5) < 1e-9 and (keep or (lambda y: abs(y) < .4))(p[1]):
            v.append(p)
            for q in range(len(cells)):
                if mat[q] == 6: cells[q][cells[q] == k] = len(v) - 1
    return M.Mesh(3, np.array(v), cells, m.mat)

def meshes(rng):
    rot = lambda m: m.affine(rng.uniform(.5, 2) * M.rotation(rng, m.dim), rng.uniform(-1, 1, m.dim)).renumber(rng)
    n = int(rng.integers(2, 4)); k = int(rng.integers(3, 7))
    G3 = {"box": lambda: rot(M.box((n, 2, 2))), "cell": lambda: M.box((1, 1, 1)), "merged": lambda: rot(M.box((2, n, 2), split=False)), "lshape": lambda: rot(M.lshape(1)), "prism": lambda: rot(M.prism([(0, 0), (1, 0), (1.3, .8), (.2, 1.1)], 1.1, 1, 2)),
          "tetra": lambda: rot(M.tetra(n - 1)), "sphere": lambda: M.qsphere(n), "ssphere": lambda: rot(M.qsphere(2, mats=SIX)), "msphere": lambda: rot(M.qsphere(2, mats=SIX, split=False)), "slit": lambda: rot(slit(rng)), "slit2": lambda: slit(rng, 4, lambda y: y > -.3),
          "long": lambda: M.box((1, 1, 2), (6, 1, 1)), "graded": lambda: M.grade(M.box((3, 3, 3)), 2.), "warp": lambda: M.bump(M.box((3, 2, 2)), .07), "two": lambda: M.union(M.qsphere(2), M.qsphere(2, .6, (2.5, .4, .3), mats=(2,) * 6)),
          "tiny": lambda: M.box((2, 2, 2)).affine(1e-3 * np.eye(3), np.zeros(3)), "huge": lambda: M.box((2, 2, 2)).affine(1e4 * np.eye(3), np.array([1e4, 0, 3e4]))}
    G2 = {"sq": lambda: rot(M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], n)), "sqm": lambda: rot(M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], n, split=False)), "tri": lambda: M.polygon([(0, 0), (1, 0), (.3, .8)], 1), "circle": lambda: M.ngon(8 * k), "circles": lambda: M.ngon(24, mats=[1 + i // 9 for i in range(24)]),
          "star": lambda: M.polygon([((1 if q % 2 else .45) * np.cos(q * np.pi / 5), (1 if q % 2 else .45) * np.sin(q * np.pi / 5)) for q in range(10)], 2)}
    return G3, G2

def scenario(rng, i, small=False):
    d = 3 if rng.random() < .75 else 2
    G = meshes(rng)[3 - d]; mn = str(rng.choice(sorted(G))); m = G[mn]()
    ch = lambda *a: a[int(rng.integers(len(a)))]
    ids = sorted(set(int(a) for a in m.mat))
    D = sorted(int(a) for a in rng.choice(ids, min(len(ids), ch(0, 1, 1, 2, 3, 6)), replace=False))
    k = dict(feo=ch(1, 1, 1, 2, 2, 3 if d == 2 else 1), qorder=ch(1, 2, 3, 4, 5, 7), sorder=ch(1, 2, 3, 5, 8), steps=ch(150, 400), tol=ch(1e-5, 1e-8))
    k["vfeo"] = k["feo"]
    if rng.random() < .4: k["mapdeg"] = ch(1, 2, 3); k["maptype"] = ch("FE", "Q")
    if d == 2 or k["feo"] == 3: k["qorder"] = max(k["qorder"], 3)
    if d == 3 and rng.random() < .55: k.update(method="FMA", p=ch(0, 1, 2, 3, 4, 6, 10 if not small else 5), levels=ch(1, 2, 3, 5, 9), leaf=ch(1, 2, 5, 20, 1000), grain=ch(1, 3, 1000))
    elif rng.random() < .15: k.update(qtype="midpoint", qorder=0)
    if len(D) == 0 and rng.random() < .3: k["contgrad"] = False
    np_ = 1 if small else ch(1, 1, 1, 2, 3, 4); th = ch(1, 1, 2, 4) if not small else 1
    kind = ch("run", "runa", "script", "script", "history", "tool")
    if small: kind = ch("run", "script", "tool")
    ops = {"run": ["run"], "runa": ["run"], "history": ["read", f"refine:{ch(0, 0, 1)}", "update", "reinit", "solve", "errors", "adapt", "update", "reinit", "solve", "grad", "output:a", "prm:q.prm", "reinit", "solve", "errors", "output:b"]}.get(kind)
    q = dict(k)
    if kind == "runa": k["global"] = False; k["ncyc"] = 1 if small else ch(1, 2); k["coarsen"] = ch(0, .05, .3); k["refine"] = ch(.05, .3, .6)
    else: k["ncyc"] = 0
    if ops is None:
        f = ch("exp(-9*((x-0.4)^2+(y+0.2)^2))", "x*y", "sin(5*x+1)")
        ops = ["read", "refine:0", "update", "reinit"]
        for _ in range(ch(1, 2)):
            ops += ch(["solve"], ["solve", "errors", "output:o"], ["solve", "grad"] + ["hypgrad"] * (d == 3), ["assemble", "alpha"] if k.get("method") != "FMA" else ["solve", "junk", "solve"], [f"surfgrad:{f}", f"gradf:{f}:{f}"], ["hypcoef"] if d == 3 else ["normals", "solve"], ["solve", "solve", "errors"])
            if rng.random() < .6: ops += [f"adaptf:{f}", "update", "reinit"]
    if kind == "tool" and k.get("method") == "FMA": ops = ["read", "refine:0", "update", "reinit", "fma", f"fmaprod:a:{ch(1, 2)}", "fmaprod:b:1"]
    fmt = ch("inp", "inp", "vtk", "msh"); h = ch(0, 1, 3, 5 if d == 3 else 2)
    name = f"{i}-{kind}-{mn}-D{'.'.join(map(str, D))}-np{np_}-t{th}" + "".join(f"-{a}{b}" for a, b in k.items() if a not in ("vfeo", "steps", "tol"))
    q.update(feo=1, vfeo=1, qorder=4, sorder=4); q.pop("qtype", 0)
    return name, d, m, D, k, q, ops, np_, th, fmt, h

def main():
    c = Check("C17", "mesh (closed, split, merged, partly split, thin, curved, tiny, huge) x labels x element order x mapping x quadrature x solver settings x script (driver, adaptive, histories, gradients, outputs) x ranks x threads, each under the sanitizers; "
              "distinct by case, non-trivial when the run came to its end",
              ["only pi-BEM is instrumented; in the libraries heap accesses are seen through interposed calls, allocator red zones and memcheck", "a solver that reports missing convergence or a refused setting is a normal end",
               "uninitialised values are looked for by memcheck on serial runs"])
    c.need("asan", "pb"); c.need("rel", "pb")
    rng = c.rng; PB.link_grids()
    OKEND = re.compile(r"convergence failure|The number of components|FMA only works|min_my_gid\(row_map\)|singular quadrature order is too low")
    L = [scenario(rng, i) for i in range(500 if c.thorough else 40)]
    def fixed(name, m, D, ops, np_=1, th=1, fmt="inp", h=3, **k):
        k = {**dict(ncyc=0, qorder=4, sorder=4, tol=1e-6, steps=300), **k}
        q = dict(k); L.append((name, m.dim, m, D, k, q, ops, np_, th, fmt, h))
    F = "exp(-20*((x-0.5)^2+(y-0.2)^2+(z-0.5)^2))"
    full = ["read", "refine:0", "update", "reinit", "solve", "grad", "hypgrad", "errors", "output:o", "adapt", "update", "reinit", "solve", "errors", "output:o"]
    R = np.random.default_rng(5)
    fixed("fixed-slit-adapt", slit(R), (1,), ["read", "refine:0", "update", "reinit", f"adaptf:{F}", "update", "reinit", f"adaptf:{F}", "update", "reinit"], refine=.1, coarsen=0)
    fixed("fixed-slit2-adapt-np", slit(R, 4, lambda y: y > -.3), (1, 2), ["read", "refine:0", "update", "reinit", f"adaptf:{F}", "update", "reinit", "solve"], 3)
    fixed("fixed-fma-lowq", M.box((3, 3, 3)), (1,), full, method="FMA", p=3, levels=6, leaf=1, qorder=1, feo=2, vfeo=2); fixed("fixed-fma-deep", M.qsphere(3), (1,), full, 2, 4, method="FMA", p=10, levels=12, leaf=1, grain=1)
    fixed("fixed-fma-flat", M.box((2, 2, 2)), (1, 4), full, 1, 2, method="FMA", p=0, levels=1, leaf=5000); fixed("fixed-fma-one-cell", M.box((1, 1, 1)), (1,), full, method="FMA", p=5, levels=3, leaf=2)
    fixed("fixed-2d", M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 3), (1, 3), [o for o in full if o != "hypgrad"], 2, feo=3, vfeo=3); fixed("fixed-pure-flux", M.qsphere(2), (), full, 3, feo=2, vfeo=2); fixed("fixed-all-D", M.box((2, 2, 2), split=False), SIX, full, 2, maptype="Q", mapdeg=2)
    fixed("fixed-unlabelled", M.box((2, 2, 2)), (1,), full, nid="2,3"); fixed("fixed-many-ranks", M.box((2, 2, 2)), (1, 2), full, 6)
    def one(cs):
        name, d, m, D, k, q, ops, np_, th, fmt, h = cs
        pr = Prob(name, m, D=D, N=[i for i in sorted(set(m.mat)) if i not in D], h=h, fmt=fmt)
        fl = {**pr.files(), "q.prm": PB.prm_text(pr.params(**{a: b for a, b in q.items() if a not in ("global",)}))}
        judge(name, d, pr.params(**k), ops, dict(np_=np_, threads=th, files=fl, timeout=500))
    def judge(name, d, params, ops, kw, refusal=False):
        r = PB.run(c.exe("asan", "pb"), d, params, ops, **kw); c.count("program executions")
        rp = c.replay(r, kw)
        if r.hung:
            c.inconclusive.append(name + ": not finished in time under the sanitizers"); return
        cr = r.crash()
        text = r.err + r.out
        bad = cr is not None and (re.search(r"Sanitizer|runtime error:", text) is not None or r.rc < 0 or r.rc > 128 or "Assertion '" in text or "__glibcxx" in text or re.search(r"exited on signal|Signal: ", text) is not None)
        clean = cr is None or (not bad and (refusal or OKEND.search(text)))
        c.expect(name, "abnormal end", clean, rp, str(cr) + " " + " ".join((re.search(r"[^\n]*Assertion '[^\n]*", text) or re.search(r"$", text)).group(0).split())[:300])
        c.count("runs to the end" if cr is None else "runs ended by a reported refusal")
        for o in ops: c.count("op " + o.split(":")[0])
        c.case(name, cr is None, dict(case=name, ops=ops[:12]))
    # the geometry readers: CAD surfaces, spheroids
    def special(cs):
        name, d, p, ops, np_ = cs; judge(name, d, p, ops, dict(np_=np_, timeout=600))
    sp = []
    cad = P(3, grid="naca0012", cad=True, ncyc=0); cad["ComputationalDomain<3>/Input path to CAD files"] = PB.REPO + "/NACA_CAD_FILES/"
    sp.append(("cad", 3, cad, ["read", "refine:0", "update"], 2))
    cu = dict(cad); cu.update({"ComputationalDomain<3>/Surface curvature adaptive refinement": "true", "ComputationalDomain<3>/Maximum number of curvature adaptive refinement cycles": 2, "ComputationalDomain<3>/Cells per circle": 6})
    sp.append(("cad-curvature", 3, cu, ["read", "refine:0", "update"], 1))
    for g in ("coarse_sphere", "coarse_sphere_double_nodes"): sp.append((f"spheroid-{g}", 3, P(3, grid=g, spheroid=True, ncyc=1, did="1", nid="0,2,3", phi="x", wind="1;0;0"), ["run"], 2))
    for g in ("circle",): sp.append((f"grid-{g}", 2, P(2, grid=g, ncyc=2, did="1", nid="0", phi="x", wind="1;0"), ["run"], 2))
    sp.append(("grid-defaults", 3, P(3, ncyc=1), ["run"], 3))
    # bad input must be refused before it does damage
    box = M.box((2, 2, 2)); pr = Prob("x", box, D=[1], N=[2, 3, 4, 5, 6]); inp = box.write("inp")
    B_ = [("order", dict(method="FMA", p=40)), ("order-neg", dict(method="FMA", p=-2)), ("levels", dict(method="FMA", levels=0)), ("mapdeg", dict(mapdeg=-1)), ("thresholds", {"refine": 3, "coarsen": 2, "global": False, "ncyc": 1}), ("fe-orders", dict(feo=2, vfeo=1)), ("fe-orders2", dict(feo=1, vfeo=3)), ("format", dict(fmt="abc")), ("rule", dict(qtype="midpoint", qorder=3)), ("empty-rule", dict(qorder=0)), ("cycles", dict(ncyc=-1))]
    def refused(cs):
        name, k = cs; p = pr.params(**k); judge("refused-" + name, 3, p, ["run"], dict(files={**pr.files(), "m.abc": inp}, timeout=100), refusal=True)
    c.map(lambda q: special(q) if len(q) == 5 else refused(q) if len(q) == 2 else one(q), sp + L + B_)
    # memcheck: uninitialised values steering branches, addresses or output
    K = [scenario(rng, f"memcheck{i}", True) for i in range(40 if c.thorough else 5)]
    MC = []
    def mfix(name, m, D, ops, **k): MC.append((name, m.dim, m, D, {**dict(ncyc=0, tol=1e-6, steps=300), **k}, {}, ops, 1, 1, "inp", 3))
    mfix("memcheck-fixed-fma", M.qsphere(2), (1,), full, method="FMA", p=4, levels=4, leaf=5); mfix("memcheck-fixed-adapt", M.box((2, 2, 2), split=False), (1, 2), full); mfix("memcheck-fixed-2d", M.polygon([(0, 0), (1, 0), (1.2, .9), (0, 1)], 3), (1,), [o for o in full if o != "hypgrad"], feo=2, vfeo=2)
    def mem(cs):
        name, d, m, D, k, q, ops, np_, th, fmt, h = cs
        pr = Prob(name, m, D=D, N=[i for i in sorted(set(m.mat)) if i not in D], h=h, fmt=fmt)
        fl = {**pr.files(), "p.prm": PB.prm_text(pr.params(**k)), "q.prm": PB.prm_text(pr.params(**{a: b for a, b in q.items() if a != "global"}))}
        w = PB.tempfile.mkdtemp(dir=PB.workroot())
        r = PB.run(shutil.which("valgrind"), d, None, [], raw=["--error-limit=no", "--leak-check=no", "--log-file=vg.log", "--error-exitcode=0", c.exe("rel", "pb"), str(d), "p.prm", "out.pbd"] + ops, files=fl, cwd=w, timeout=600, env={"PB_THREADS": "1"})
        c.count("program executions under memcheck")
        rp = c.replay(r, dict(files=fl))
        log = open(w + "/vg.log", errors="replace").read() if os.path.exists(w + "/vg.log") else ""
        shutil.rmtree(w, ignore_errors=True)
        if r.hung: c.inconclusive.append(name + ": not finished in time under memcheck"); return
        reps = [q for q in re.split(r"==\d+== ?\n", log) if re.search(r"uninitialised|Invalid (read|write|free)|Mismatched free|overlap", q)]
        own = [q for q in reps if re.search(r"/pb\.[0-9a-f]+\)", q)]
        rp["memcheck"] = own[:3]
        c.expect(name, "memcheck report", not own, rp, " ".join(re.sub(r"==\d+==", "", own[0]).split())[:400] if own else "")
        c.expect(name, "abnormal end", r.rc == 0 or OKEND.search(r.err + r.out) is not None, rp, str(r.crash()))
        c.case(name, "ERROR SUMMARY" in log, dict(case=name, ops=ops))
    c.map(mem, MC + K)
    c.finish()
main()
