#!/usr/bin/env python3-vt
"""C16: the real executables under generated valid, partial and invalid parameter files and grids; recorded component settings."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
LABELS = re.compile(r"(Number of active cells:|Number of degrees of freedom:|(?:Phi|dPhidN) (?:Nodes|Cells)[^:\n]*norm:)")

# every declared parameter: documented default, and how a random other value is drawn
def table(d):
    w = "; ".join("1" * d)
    fn = lambda n, e, v: [(f"BoundaryConditions<{d}>/{n}/Function constants", ""), (f"BoundaryConditions<{d}>/{n}/Function expression", e), (f"BoundaryConditions<{d}>/{n}/Variable names", v)]
    T = [(f"BEMFMA<{d}>/FMA Params/FMA Truncation Order", "6"), (f"BEMFMA<{d}>/FMA Params/Granularity for TBB simple for cycles", "10"),
         (f"BEMFMA<{d}>/Octree Params/Maximum Number of Collocation Points per Childless Block", "20"), (f"BEMFMA<{d}>/Octree Params/Number of Octree Levels", "10")]
    b = f"BEMProblem<{d}>/"
    T += [(b + "Continuos gradient across edges", "true"), (b + "Mapping Q Degree", "1"), (b + "Mapping Type", "FE"), (b + "Preconditioner", "ILU"), (b + "Solution method", "Direct"),
          (b + "Grid Refinement/Coarsening threshold", "0.03"), (b + "Grid Refinement/Refinement threshold", "0.3"),
          (b + "Quadrature rules/Quadrature order", "4"), (b + "Quadrature rules/Quadrature type", "gauss"), (b + "Quadrature rules/Singular quadrature order", "5"),
          (b + "Scalar Finite Element/Finite Element type", "FEQ"), (b + "Scalar Finite Element/Finite element order", "1"),
          (b + "Solver/Log frequency", "1"), (b + "Solver/Log history", "false"), (b + "Solver/Log result", "true"), (b + "Solver/Max steps", "100"), (b + "Solver/Tolerance", "1.e-10"),
          (b + "Vector Finite Element/Finite Element type", "FEQ"), (b + "Vector Finite Element/Finite element order", "1")]
    T += [(f"BoundaryConditions<{d}>/Output file name", "result")]
    T += fn("Potential 2d", "x+y", "x,y,t") + fn("Potential 3d", "x+y+z", "x,y,z,t") + fn("Wind function 2d", "1; 1", "x,y,t") + fn("Wind function 3d", "1; 1; 1", "x,y,z,t")
    c = f"ComputationalDomain<{d}>/"
    T += [(c + "Axis x dimension", "2."), (c + "Axis y dimension", "3."), (c + "Axis z dimension", "4."), (c + "Cad tolerance to projectors tolerance ratio", "100"), (c + "Cells per circle", "12"),
          (c + "Input grid format", "inp"), (c + "Input grid name", "../grids/coarse_cube_double_nodes" if d == 3 else "../grids/circle"), (c + "Input path to CAD files", "./"),
          (c + "Max aspect ratio", "3.5"), (c + "Maximum number of curvature adaptive refinement cycles", "5"), (c + "Number of cycles", "2"),
          (c + "Number of global refinement to be executed before local refinement cycle", "0"), (c + "Surface curvature adaptive refinement", "false"), (c + "Use a spheroid", "false"),
          (c + "Use iges surfaces and curves", "false"), (c + "Boundary Conditions ID Numbers/Dirichlet boundary ids", "1,110,110"), (c + "Boundary Conditions ID Numbers/Neumann boundary ids", "0,110,110")]
    return dict(T + [(f"Driver<{d}>/Set Global Refinement", "true")])

def norm(v):
    """Values compare as numbers where they are lists of numbers, otherwise as text without layout."""
    v = " ".join(str(v).split())
    try:
        return tuple(float(x) for x in v.split(","))
    except ValueError:
        return re.sub(r"\s*([;,])\s*", r"\1", v)

def parse_prm(text):
    out, sec = {}, []
    for l in text.splitlines():
        l = l.split("#")[0].strip()
        if l.startswith("subsection "): sec.append(l[11:].strip())
        elif l == "end": sec.pop()
        elif l.startswith("set "):
            k, v = l[4:].split("=", 1); out["/".join(sec + [k.strip()])] = v.strip()
    return out

def draw(rng, d, runs):
    """Random settings of every parameter; runs: cheap and solvable ones for the real program."""
    i = lambda a, b: int(rng.integers(a, b + 1)); u = lambda a, b: float(f"{rng.uniform(a, b):.6g}"); ch = lambda *a: str(rng.choice(a))
    fo = i(1, 2 if runs else 3); b = f"BEMProblem<{d}>/"; c = f"ComputationalDomain<{d}>/"; m = f"BEMFMA<{d}>/"
    lo = u(0, .4); hi = u(0, .6)
    out = {m + "FMA Params/FMA Truncation Order": i(1, 10), m + "FMA Params/Granularity for TBB simple for cycles": i(1, 50),
         m + "Octree Params/Maximum Number of Collocation Points per Childless Block": i(1, 60), m + "Octree Params/Number of Octree Levels": i(1, 12),
         b + "Continuos gradient across edges": "true" if runs else ch("true", "false"), b + "Mapping Q Degree": i(1, 3), b + "Mapping Type": ch("FE", "Q"), b + "Preconditioner": ch("ILU", "AMG"),
         b + "Solution method": ch("Direct", "FMA") if d == 3 else "Direct", b + "Grid Refinement/Coarsening threshold": lo, b + "Grid Refinement/Refinement threshold": hi,
         b + "Quadrature rules/Quadrature order": i(4, 7), b + "Quadrature rules/Singular quadrature order": i(3, 9), b + "Quadrature rules/Quadrature type": "gauss",
         b + "Scalar Finite Element/Finite element order": fo, b + "Vector Finite Element/Finite element order": fo,
         b + "Solver/Log frequency": i(1, 9), b + "Solver/Log history": ch("true", "false"), b + "Solver/Log result": ch("true", "false"), b + "Solver/Max steps": i(120, 500), b + "Solver/Tolerance": u(1, 9) * 10. ** -i(5, 12),
         f"BoundaryConditions<{d}>/Output file name": ch("res", "a.b", "long name", "x_1"), c + "Axis x dimension": u(.5, 5), c + "Axis y dimension": u(.5, 5), c + "Axis z dimension": u(.5, 5),
         c + "Cad tolerance to projectors tolerance ratio": u(1, 200), c + "Cells per circle": u(3, 40), c + "Input path to CAD files": ch("./", "cad/", "../grids/"), c + "Max aspect ratio": u(1.5, 9),
         c + "Maximum number of curvature adaptive refinement cycles": i(0, 9), c + "Number of cycles": i(0, 1) if runs else i(0, 9),
         c + "Number of global refinement to be executed before local refinement cycle": i(0, 1) if runs else i(0, 9), c + "Surface curvature adaptive refinement": "false" if runs else ch("true", "false"),
         c + "Use a spheroid": "false" if runs else ch("true", "false"), c + "Use iges surfaces and curves": "false" if runs else ch("true", "false"), f"Driver<{d}>/Set Global Refinement": ch("true", "false")}
    for q in (2, 3):
        V = ["x", "y", "z"][:q]; k = u(.5, 2)
        nm = V if rng.random() < .6 else ["a", "b", "c"][:q]
        tm = ["t"] if rng.random() < .5 else []
        for n, comp in (("Potential", 1), ("Wind function", q)):
            s = f"BoundaryConditions<{d}>/{n} {q}d/"
            out[s + "Variable names"] = ",".join(nm + tm)
            out[s + "Function constants"] = f"k={k}" if rng.random() < .5 else ""
            K = "k" if out[s + "Function constants"] else f"{u(.5, 2)}"
            out[s + "Function expression"] = "; ".join(f"{K}*{nm[(j + 1) % q]}+{u(-2, 2)}*{nm[j % q]}" for j in range(comp))
    ids = [int(x) for x in rng.permutation(np.arange(0, 40))]
    if runs: # the two patches of the generated grid, sometimes with labels that do not occur
        k = i(1, 3) if d == 3 else 1; D, N = list(range(1, k + 1)), list(range(k + 1, 7))
        D += [50] * i(0, 1); N += [60] * i(0, 1)
    else:
        k = i(1, 6); D, N = ids[:k], ids[k:k + i(1, 7)]
    out[c + "Boundary Conditions ID Numbers/Dirichlet boundary ids"] = ch(",", ", ").join(map(str, D))
    out[c + "Boundary Conditions ID Numbers/Neumann boundary ids"] = ch(",", ", ").join(map(str, N))
    out[c + "Input grid name"] = "./m"; out[c + "Input grid format"] = ch("inp", "vtk", "msh")
    return out

def recorded(d, S):
    """The recorded components' settings, expected from the parameters in force S."""
    g = lambda k: S[k.format(d=d)]; f = lambda k: float(g(k)); t = lambda k: float(str(g(k)) == "true")
    b, c, m = "BEMProblem<{d}>/", "ComputationalDomain<{d}>/", "BEMFMA<{d}>/"
    return [f(c + "Number of cycles"), f(c + "Number of global refinement to be executed before local refinement cycle"), f(c + "Max aspect ratio"), f(b + "Quadrature rules/Quadrature order"),
        f(b + "Quadrature rules/Singular quadrature order"), f(b + "Mapping Q Degree"), t(b + "Continuos gradient across edges"), f(b + "Scalar Finite Element/Finite element order"),
        f(b + "Vector Finite Element/Finite element order"), f(b + "Grid Refinement/Coarsening threshold"), f(b + "Grid Refinement/Refinement threshold"), f(b + "Solver/Max steps"), f(b + "Solver/Tolerance"),
        f(m + "FMA Params/FMA Truncation Order"), f(m + "FMA Params/Granularity for TBB simple for cycles"), f(m + "Octree Params/Number of Octree Levels"),
        f(m + "Octree Params/Maximum Number of Collocation Points per Childless Block"), t("Driver<{d}>/Set Global Refinement"), t(c + "Use a spheroid"), f(c + "Axis x dimension"), f(c + "Axis y dimension"), f(c + "Axis z dimension"),
        f(b + "Quadrature rules/Quadrature order") ** (d - 1), t(c + "Use iges surfaces and curves"), t(c + "Surface curvature adaptive refinement"), f(c + "Cells per circle"),
        f(c + "Maximum number of curvature adaptive refinement cycles"), f(c + "Cad tolerance to projectors tolerance ratio")]
NAMES = ["cycles", "pre-refinements", "aspect", "quadrature order", "singular order", "mapping degree", "continuous gradient", "scalar order", "vector order", "coarsening threshold", "refinement threshold",
    "max steps", "tolerance", "truncation order", "granularity", "octree levels", "points per block", "global refinement", "spheroid", "axis x", "axis y", "axis z", "quadrature points", "cad", "curvature refinement", "cells per circle", "curvature cycles", "cad ratio"]

def evalf(S, d, n):
    s = f"BoundaryConditions<{d}>/{n} {d}d/"
    env = {v.strip(): x for v, x in zip(str(S[s + "Variable names"]).split(","), [.3 + .2 * q for q in range(d)] + ([0.] if True else []))}
    for kv in str(S[s + "Function constants"]).split(","):
        if "=" in kv: env[kv.split("=")[0].strip()] = float(kv.split("=")[1])
    return [eval(e, {"__builtins__": {}}, env) for e in str(S[s + "Function expression"]).split(";")]

def main():
    c = Check("C16", "dim x random complete or partial parameter files (valid part: components, echo, reproduction, effect) and x kinds of invalid input x ranks; distinct by case, non-trivial when the program read the file",
              ["declared defaults are those of the documented parameter files", "labels given as both kinds, a CAD path without files and limits of the linear solver below zero are accepted by design and not counted as invalid",
               "corruptions of files may also yield valid ones: judged by how the run ends"])
    c.need("rel", "pb", "bem2", "bem3")
    rng = c.rng; PB.link_grids()
    box, sq = M.box((2, 2, 2)), M.polygon([(0, 0), (1, 0), (1.1, .8), (.4, 1.2), (-.2, 1), (-.3, .4)], 3)
    mesh = {3: box, 2: sq}
    files = lambda d: {f"m.{f}": mesh[d].write(f) for f in ("inp", "vtk", "msh")}
    exe = lambda d: c.exe("rel", f"bem{d}")
    def real(d, P_, np_=1, fl=None, raw=("1",), timeout=100):
        r = PB.run(exe(d), d, P_, [], files=files(d) if fl is None else fl, raw=list(raw), np_=np_, keep=True, timeout=timeout)
        c.count("program executions")
        return r
    def clean(r): PB.shutil.rmtree(r.dir, ignore_errors=True)
    def read(r, n):
        try: return open(f"{r.dir}/{n}", errors="replace").read()
        except OSError: return None
    stable = lambda out: [l for l in out.splitlines() if LABELS.search(l)]
    # ---------------- valid settings
    V = []
    for k in range(120 if c.thorough else 16):
        d = int(rng.integers(2, 4)); V.append((f"set-{d}d-{k}", "set", d, draw(rng, d, False), rng.integers(1 << 30)))
    for k in range(100 if c.thorough else 14):
        d = int(rng.integers(2, 4)); S = draw(rng, d, True)
        if k % 2: S = {a: v for a, v in S.items() if rng.random() < .5 or "grid" in a or a.endswith((" ids", "order")) or "/Potential" in a or "/Wind" in a or "cycles" in a or "global" in a.lower()}
        V.append((f"run-{d}d-{k}", "run", d, S, rng.integers(1 << 30)))
    for d in (2, 3): V.append((f"empty-{d}d", "run", d, {}, 1)); V.append((f"defaults-{d}d", "set", d, {}, 1))
    def valid(cs):
        name, kind, d, S, _ = cs
        T = table(d); F = dict(T); F.update({k: v for k, v in S.items()})
        if kind == "set":
            r = c.run(name, d, S, ["params:a"], files=files(d))
            if r is None: return
            rp = c.replay(r)
            if "a.par.num" not in r: c.inconclusive.append(name + ": the settings' members were renamed"); c.case(name, False); return
            for n, a, b in zip(NAMES, r["a.par.num"], recorded(d, F)):
                c.expect(name, "component got " + n, abs(a - b) <= 1e-12 * max(1, abs(b)), rp, f"{a} instead of {b}")
            for n, k in (("did", "Dirichlet"), ("nid", "Neumann")):
                c.expect(name, f"component got {k} labels", [int(x) for x in r[f"a.par.{n}"]] == [int(x) for x in norm(F[f"ComputationalDomain<{d}>/Boundary Conditions ID Numbers/{k} boundary ids"])], rp, str(r[f"a.par.{n}"]))
            w = re.search(r"PBSTR ([^\n]*)", r.out).group(1).split("|")
            for n, a in zip(["ComputationalDomain<{d}>/Input grid name", "ComputationalDomain<{d}>/Input grid format", "ComputationalDomain<{d}>/Input path to CAD files", "BEMProblem<{d}>/Preconditioner", "BEMProblem<{d}>/Mapping Type",
                             "BEMProblem<{d}>/Solution method", "BEMProblem<{d}>/Scalar Finite Element/Finite Element type", "BEMProblem<{d}>/Vector Finite Element/Finite Element type", "BoundaryConditions<{d}>/Output file name"], w):
                c.expect(name, "component got " + n.split("/")[-1], a == str(F[n.format(d=d)]), rp, f"'{a}'")
            e = evalf(F, d, "Wind function") + evalf(F, d, "Potential")
            c.expect(name, "component got the functions", np.allclose(r["a.par.fun"], e, rtol=1e-12, atol=1e-12), rp, f"{r['a.par.fun']} instead of {e}")
            c.case(name, len(S) > 0, dict(case=name, given=len(S)))
            return
        P1 = S
        r = real(d, P1); rp = c.replay(r)
        try:
            if not c.expect(name, "a valid run ends normally", r.rc == 0, rp, str(r.crash())): return
            used = read(r, f"used_parameters_bem_{d}.prm")
            if not c.expect(name, "used-parameters file written", used is not None, rp): return
            U = parse_prm(used)
            c.expect(name, "used-parameters file lists the declared parameters", set(U) == set(T), rp, f"{sorted(set(U) ^ set(T))[:3]}")
            for k, v in F.items():
                if k in U: c.expect(name, f"echo of {k}", norm(U[k]) == norm(v), rp, f"'{U[k]}' instead of '{v}'")
            # the effect of the settings on the run
            cells = re.findall(r"Number of active cells:\s+(\d+)", r.out); dofs = re.findall(r"Number of degrees of freedom:\s+(\d+)", r.out)
            g = lambda k: str(F[k.format(d=d)])
            if g("ComputationalDomain<{d}>/Input grid name") == "./m" and g("Driver<{d}>/Set Global Refinement") == "true":
                n = len(mesh[d].cells) * (2 ** (d - 1)) ** int(F[f"ComputationalDomain<{d}>/Number of cycles"]); o = int(F[f"BEMProblem<{d}>/Scalar Finite Element/Finite element order"])
                asp = float(F[f"ComputationalDomain<{d}>/Max aspect ratio"])
                if cells: c.expect(name, "number of cells asked for", int(cells[-1]) == n, rp, f"{cells} instead of {n}")
            out = g("BoundaryConditions<{d}>/Output file name")
            have = set(os.listdir(r.dir))
            c.expect(name, "output under the given name", {out + "_scalar_results.vtu", out + "_vector_results.vtu"} <= have, rp, str(sorted(have)))
            logs = re.findall(r"DEAL:[\w:]*:?:?Convergence step", r.out + r.err)
            # reproduction from the echoed file
            q = PB.run(exe(d), d, None, [], files={**files(d), f"parameters_bem_{d}.prm": used}, raw=["1"], keep=True); c.count("program executions")
            try:
                c.expect(name, "the echoed file reproduces the run", q.rc == 0 and stable(q.out) == stable(r.out) and len(stable(r.out)) > 3, c.replay(q), f"{stable(r.out)[:4]} {stable(q.out)[:4]} {q.crash()}")
                c.expect(name, "the echoed file is a fixed point", read(q, f"used_parameters_bem_{d}.prm") == used, c.replay(q))
                strip = lambda s: re.sub(r"<!--.*?-->", "", s or "", flags=re.S)
                for f in (out + "_scalar_results.vtu", out + "_vector_results.vtu"):
                    c.expect(name, "the echoed file reproduces the output", strip(read(q, f)) == strip(read(r, f)) != "", c.replay(q), f)
            finally: clean(q)
            c.case(name, True, dict(case=name, given=len(S), printed=stable(r.out)[:3]))
        finally: clean(r)
    c.map(valid, V)
    # ---------------- invalid input
    SH = PB.SHORT
    def base(d, **k):
        kk = dict(fmt="inp", did="1", nid="2,3,4,5,6", ncyc=0, phi="x+y", wind="1;1;0" if d == 3 else "1;1"); kk.update(k)
        p = P(d, **kk)
        if "grid" not in k: p[SH["grid"].format(d=d)] = "./m"
        return p
    inp = box.write("inp"); vtk = box.write("vtk"); msh = box.write("msh")
    I = []
    def bad(name, d=3, fl=None, raw=("1",), extra=None, prm=None, **k):
        p = base(d, **k); p.update(extra or {}); I.append((name, d, p if prm is None else prm, fl, raw))
    cyc = "ComputationalDomain<3>/Maximum number of curvature adaptive refinement cycles"
    for v in ("-1", "x", "2.5", "", "1e3"): bad(f"cycles={v}", ncyc=v)
    for v in ("-2", "q"): bad(f"pre={v}", pre=v); bad(f"curvature-cycles={v}", extra={cyc: v})
    for v in ("0.5", "0", "-3", "x"): bad(f"aspect={v}", aspect=v)
    for v in ("-1", "11", "12", "25", "1000", "p"): bad(f"order={v}", method="FMA", p=v)
    for v in ("0", "-1", "x"): bad(f"levels={v}", method="FMA", levels=v); bad(f"leaf={v}", method="FMA", leaf=v); bad(f"grain={v}", method="FMA", grain=v); bad(f"mapdeg={v}", mapdeg=v); bad(f"Qmapdeg={v}", mapdeg=v, maptype="Q"); bad(f"qorder={v}", qorder=v); bad(f"sorder={v}", sorder=v); bad(f"fe={v}", feo=v, vfeo=v); bad(f"2d-qorder={v}", 2, qorder=v); bad(f"2d-sorder={v}", 2, sorder=v)
    bad("qorder=2.5", qorder="2.5"); bad("fe-orders", feo=1, vfeo=2); bad("fe-orders2", feo=2, vfeo=1); bad("fe-types", fe="FEQ", vfe="FEDGQ"); bad("2d-fe-orders", 2, feo=3, vfeo=2)
    for k, v in (("method", "Fast"), ("maptype", "R"), ("prec", "none"), ("fe", "FE_Q"), ("vfe", "q"), ("qtype", "Gauss"), ("contgrad", "perhaps"), ("global", "maybe"), ("cad", "2"), ("spheroid", "x")): bad(f"{k}={v}", **{k: v})
    for r_, c_ in (("-0.1", ".1"), (".3", "-.01"), ("1.2", "0"), ("0", "1.5"), (".7", ".4"), ("x", ".1")):
        bad(f"thresholds={r_},{c_}", refine=r_, coarsen=c_, ncyc=1, **{"global": False})
    for v in ("0", "1"): bad(f"steps={v}", steps=v)
    for v in ("x", ""): bad(f"tol={v}", tol=v)
    bad("format=xyz", fmt="xyz", fl={"m.xyz": inp}); bad("format=", fmt="", fl={"m.": inp}); bad("format=unv", fmt="unv", fl={"m.unv": inp}); bad("2d-format", 2, fmt="stl", fl={"m.stl": sq.write("inp")}); bad("format=INP", fmt="INP", fl={"m.INP": inp})
    bad("no-grid", grid="./nothing"); bad("2d-no-grid", 2, grid="./nothing"); bad("grid-is-empty", fl={"m.inp": ""}); bad("grid-is-text", fl={"m.inp": "This is no grid.\n" * 5}); bad("grid-cut", fl={"m.inp": inp[:len(inp) // 2]}); bad("grid-cut2", fl={"m.inp": inp[:len(inp) // 8]})
    bad("grid-vertex", fl={"m.inp": inp.replace(" quad ", " quad 7777 ", 1)}); bad("grid-lines-in-3d", fl={"m.inp": sq.write("inp")}); bad("grid-quads-in-2d", 2, fl={"m.inp": inp}); bad("vtk-is-inp", fmt="vtk", fl={"m.vtk": inp}); bad("msh-is-inp", fmt="msh", fl={"m.msh": inp}); bad("inp-is-vtk", fl={"m.inp": vtk}); bad("inp-is-msh", fl={"m.inp": msh}); bad("vtk-cut", fmt="vtk", fl={"m.vtk": vtk[:len(vtk) // 3]}); bad("msh-cut", fmt="msh", fl={"m.msh": msh[:len(msh) // 3]})
    bad("grid-text-count", fl={"m.inp": "x" + inp}); bad("grid-other-cells", fl={"m.inp": inp.replace(" quad ", " tri ")})
    bad("2d-FMA", 2, method="FMA"); bad("FMA-midpoint", method="FMA", qtype="midpoint", qorder=0); bad("FMA-simpson", method="FMA", qtype="simpson", qorder=0); bad("midpoint-4", qtype="midpoint", qorder=4)
    for k in ("ax", "ay", "az"): bad(f"spheroid-{k}", grid="coarse_sphere", spheroid=True, **{k: str(rng.choice(["0", "-1.5"]))})
    bad("2d-spheroid", 2, grid="circle", spheroid=True, ax="-1")
    for v in ("x+*y", "x+q", "x;y", "", "sin(x", "x+", "1 2"): bad(f"phi={v}", phi=v); bad(f"2d-phi={v}", 2, phi=v)
    for v in ("1;1", "1;1;1;1", "1", "", "1;q;1", "1;1;)"): bad(f"wind={v}", wind=v)
    bad("2d-wind", 2, wind="1;1;1"); bad("variables", extra={"BoundaryConditions<3>/Potential 3d/Variable names": "x"}); bad("constants", extra={"BoundaryConditions<3>/Potential 3d/Function constants": "k"})
    for v in ("a", "-1", "1.5", "1;2", "99999999999"): bad(f"did={v}", did=v); bad(f"nid={v}", nid=v)
    bad("unknown-entry", extra={"BEMProblem<3>/Solution metod": "FMA"}); bad("unknown-section", extra={"BEMProblem<3>/Solvers/Tolerance": "1"}); bad("unknown-top", extra={"Threads": "2"}); bad("other-dim", extra={"BEMProblem<2>/Mapping Q Degree": "1"})
    for k, t in (("no-end", "subsection BEMProblem<3>\n set Mapping Q Degree = 1\n"), ("extra-end", "end\n"), ("no-equals", "subsection BEMProblem<3>\n set Mapping Q Degree 1\nend\n"), ("junk-line", "hello\n"), ("binary", "\x00\x01\x02\xff" * 9)):
        bad("prm-" + k, prm={}, fl={**files(3), "parameters_bem_3.prm": t})
    bad("prm-missing", prm=None and {}, fl="noprm")
    for v in ("0", "-2", "two"): bad(f"threads={v}", raw=(v,))
    bad("output-folder", out="nowhere/x"); bad("phi-nan", phi="1/(x-x)"); bad("data-nan", 2, did="200", nid="1,2,3,4,5,6", wind="0/(x-x);0")
    I = [q + (1,) for q in I]
    for q in [I[int(k)] for k in rng.permutation(len(I))[:len(I) if c.thorough else 12]]:
        if not q[0].startswith(("threads",)): I.append((q[0] + "-np", *q[1:5], int(rng.integers(2, 4))))
    PARTIAL = ("output-folder",)  # fails after the results were printed
    def invalid(cs):
        name, d, p, fl, raw, np_ = cs; name = re.sub(r"\s+", "_", name)
        if fl == "noprm": r = PB.run(exe(d), d, None, [], files=files(d), raw=list(raw), keep=True, timeout=100, np_=np_)
        elif "parameters_bem_3.prm" in (fl or {}): r = PB.run(exe(d), d, None, [], files=fl, raw=list(raw), keep=True, timeout=100, np_=np_)
        else: r = PB.run(exe(d), d, p, [], files={**files(d), **(fl or {})} if fl is None or not any(k.startswith("m.inp") for k in fl) else fl, raw=list(raw), np_=np_, keep=True, timeout=100)
        c.count("program executions")
        rp = c.replay(r)
        try:
            if not c.expect(name, "refused without hanging", not r.hung, rp): return
            if not c.expect(name, "refused with an error status", r.rc != 0, rp, "accepted"): return
            sig = r.rc < 0 or r.rc > 128 or bool(re.search(r"exited on signal|Segmentation fault|Sanitizer|Assertion .* failed", r.err + r.out))
            c.expect(name, "refused without crash", not sig, rp, f"status {r.rc} " + " ".join(r.err.split())[:200])
            c.expect(name, "an error message", re.search(r"Exception on processing|Unknown exception|An error occurred", r.err) is not None, rp, " ".join(r.err.split())[:200])
            if not name.startswith(PARTIAL):
                c.expect(name, "no results printed", not re.search(r"(Phi|dPhidN) (Nodes|Cells).*norm:", r.out), rp, str(stable(r.out)[:2]))
                c.expect(name, "no results written", not [f for f in os.listdir(r.dir) if f.endswith("_results.vtu")], rp)
            c.count("invalid inputs refused")
            c.case(name, True, dict(case=name, message=" ".join(r.err.split())[:200]))
        finally: clean(r)
    c.map(invalid, I)
    # ---------------- corrupted parameter files: any end is fine that is not a crash, a hang or a silent failure
    full = PB.prm_text(base(3))
    K = []
    for k in range(150 if c.thorough else 20):
        L = full.splitlines(); h = []
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(len(L))); o = int(rng.integers(6)); h.append((i, o))
            if o == 0: del L[i]
            elif o == 1: L.insert(i, L[int(rng.integers(len(L)))])
            elif o == 2: s = L[i]; L[i] = s[:int(rng.integers(len(s) + 1))]
            elif o == 3: L[i] = L[i].replace("=", rng.choice(["==", "", "= -", "= 1e", ": "]))
            elif o == 4: s = list(L[i]); s.insert(int(rng.integers(len(s) + 1)), str(rng.choice(list("#\\;,-x0 \t\"")))); L[i] = "".join(s)
            else: L.insert(i, str(rng.choice(["end", "subsection X", "include nothing.prm", "# note", "set  = 1", "set a"])))
        K.append((f"corrupt-{k}", "\n".join(L) + "\n"))
    def corrupt(cs):
        name, t = cs
        # the only default that would be expensive
        r = PB.run(exe(3), 3, None, [], files={**files(3), "parameters_bem_3.prm": t}, raw=["1"], keep=True, timeout=200); c.count("program executions")
        rp = c.replay(r)
        try:
            c.expect(name, "no hang", not r.hung, rp)
            c.expect(name, "status 0 or 1", r.rc in (0, 1), rp, f"{r.rc}")
            if r.rc == 1: c.expect(name, "an error message and no results", "Exception on processing" in r.err, rp)
            if r.rc == 0: c.expect(name, "results and echo", len(stable(r.out)) >= 8 and read(r, "used_parameters_bem_3.prm") is not None, rp)
            c.count(f"corrupted files, end {r.rc}"); c.case(name)
        finally: clean(r)
    c.map(corrupt, K)
    c.finish()
main()
