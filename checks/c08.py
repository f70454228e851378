#!/usr/bin/env python3-vt
"""C08: element integrals of the singular gradient kernels against numerically taken finite-part limits."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import unit as U
from numpy.polynomial import chebyshev as Ch, polynomial as Po

class Lag:
    """1D Lagrange basis."""
    def __init__(self, x):
        self.x = np.array(x, float); n = len(x)
        self.c = np.linalg.inv(np.vander(self.x, n, increasing=True)) # coefficients, columns = basis functions
    def v(self, t):
        return np.vander(np.ravel(t), len(self.x), increasing=True) @ self.c
    def d(self, t):
        n = len(self.x)
        V = np.vander(np.ravel(t), n, increasing=True)
        D = np.zeros_like(V); D[:, 1:] = V[:, :-1] * np.arange(1, n)
        return D @ self.c

class Cell:
    def __init__(self, md, G, Un):
        self.md = md
        self.g = Lag(np.arange(md + 1) / md)
        self.G = np.array(G).reshape(md + 1, md + 1, 3) # [j(v)][i(u)]
        Un = np.array(Un).reshape(-1, 2)
        xs = sorted({round(a, 12) for a in Un[:, 0]})
        full = [min(Un[:, 0], key=lambda q: abs(q - a)) for a in xs]
        self.s = Lag(full)
        self.pos = [(int(np.argmin(abs(np.array(full) - a))), int(np.argmin(abs(np.array(full) - b)))) for a, b in Un]
    def geo(self, uv):
        a, b = self.g.v(uv[:, 0]), self.g.v(uv[:, 1]); da, db = self.g.d(uv[:, 0]), self.g.d(uv[:, 1])
        e = lambda B, A: np.einsum("qj,qi,jid->qd", B, A, self.G)
        x, xu, xv = e(b, a), e(b, da), e(db, a)
        return x, np.cross(xu, xv)
    def shape(self, uv):
        a, b = self.s.v(uv[:, 0]), self.s.v(uv[:, 1])
        return np.stack([a[:, i] * b[:, j] for i, j in self.pos], 1)

M = 18
TC = (1 - np.cos((np.arange(M) + .5) * np.pi / M)) / 2  # Chebyshev points of (0,1)
FIT = np.linalg.inv(Ch.chebvander(2 * TC - 1, M - 1))
PW = np.array([np.pad(Ch.cheb2poly(np.eye(M)[k]), (0, M - 1 - k)) for k in range(M)]).T
SH = np.zeros((M, M)) # polynomial in s=2t-1 -> in t
for k in range(M):
    SH[:k + 1, k] = Po.polypow([-1, 2], k)
T2P = SH @ PW @ FIT
# the value and slope at 0 straight from the Chebyshev form (stable)
V0 = np.array([(-1.) ** k for k in range(M)]) @ FIT
V1 = np.array([2 * (-1.) ** (k + 1) * k * k for k in range(M)]) @ FIT
GT, GW = np.polynomial.legendre.leggauss(14); GT = (GT + 1) / 2; GW = GW / 2
INT = Ch.chebvander(2 * GT - 1, M - 1) @ FIT

def reference(cell, eta, nth=48):
    """(V, W, b): finite parts for an excluded neighbourhood |x-x0|<eps, divergent powers and logarithms dropped."""
    eta = np.array(eta)
    x0, g0 = cell.geo(eta[None]); x0, n0 = x0[0], g0[0] / np.linalg.norm(g0[0])
    edges = [((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0)), ((0, 0), (1, 0))]
    V = W = 0; b = np.zeros(3)
    t, w = np.polynomial.legendre.leggauss(nth)
    for p, q in edges:
        p, q = np.array(p) - eta, np.array(q) - eta
        h = abs(p[0] * q[1] - p[1] * q[0]) / np.linalg.norm(q - p)
        if h < 1e-13: continue
        th0 = np.arctan2(p[1], p[0]); th1 = np.arctan2(q[1], q[0])
        while th1 < th0: th1 += 2 * np.pi
        th = th0 + (th1 - th0) * (t + 1) / 2; wt = w * (th1 - th0) / 2
        nrm = np.array([q[1] - p[1], p[0] - q[0]]) / np.linalg.norm(q - p)
        dirs = np.stack([np.cos(th), np.sin(th)], 1)
        rh = h / (dirs @ nrm)
        for d, R_, ww in zip(dirs, rh, wt):
            rho = TC * R_
            uv = eta + rho[:, None] * d
            x, g = cell.geo(uv); N = cell.shape(uv)
            R = x - x0; r = np.linalg.norm(R, axis=1); e = R / r[:, None]
            J = np.linalg.norm(g, axis=1); n = g / J[:, None]
            K = -(3 * e * np.sum(e * n, 1)[:, None] - n) * ((rho / r) ** 3 * J)[:, None] # rho^3 K J
            hV = N[:, :, None] * K[:, None, :]                                  # rho^2 * (K J N rho)
            hW = N[:, :, None] * (e * ((rho / r) ** 2 * J)[:, None])[:, None, :] # rho * (R/r^3 J N rho)
            rr = r / rho
            a0, a1 = V0 @ rr, (V1 @ rr) / R_
            beta, gamma = 1 / a0, -a1 / a0 ** 3
            F2 = np.tensordot(V0, hV, 1); F1 = np.tensordot(V1, hV, 1) / R_
            q2 = np.tensordot(INT, hV, 1)
            rg = (GT * R_)[:, None, None]
            V = V + ww * (np.tensordot(GW * R_, (q2 - F2 - F1 * rg) / rg ** 2, 1) + F1 * np.log(R_ / beta) - F2 * (gamma / beta ** 2 + 1 / R_))
            H1 = np.tensordot(V0, hW, 1); q1 = np.tensordot(INT, hW, 1)
            W = W + ww * (np.tensordot(GW * R_, (q1 - H1) / rg, 1) + H1 * np.log(R_ / beta))
            # normal curvature along this ray, by the angle in the tangent plane
            kn = 2 * (V0 @ ((R @ n0) / rho ** 2)) / a0 ** 2
            b += ww * kn * (np.tensordot(V0, R / rho[:, None], 1) / a0) * np.linalg.norm(g0[0]) / a0 ** 2
    return V / (4 * np.pi), W / (4 * np.pi), b

fmt = lambda v: " ".join(f"{float(x):.17g}" for x in np.ravel(v))
def line(k):
    return f"sing {k['md']} {k['fe']} {k['fd']} {fmt(k['eta'])} {int(k['sph'])} {fmt(k['c'])} {fmt(k['v'])}"

def run(c, cases):
    out = U.script(c, "element", [line(k) for k in cases], timeout=600)
    if out is None:
        return None
    f = lambda l: np.array([float(x) for x in l.split()[1:]])
    out = [l for l in out if l[:1] in "GUVWB" and l]
    return [dict(G=f(out[i]), U=f(out[i + 1]), V=f(out[i + 2]).reshape(-1, 3), W=f(out[i + 3]).reshape(-1, 3), B=f(out[i + 4])) for i in range(0, len(out), 5)]

def main():
    c = Check("C08", "cells (parallelograms, trapezoids, warped quads, patches of spheres, mappings of degree 1 to 3) x elements (continuous 1-3, discontinuous 0-2) x points (interior, edge, corner), each "
              "also rotated, moved and scaled; non-trivial always",
              ["finite part for an excluded ball in physical space; on edges and corners the logarithmic divergence is dropped, so scaling is compared with its logarithmic term",
               "accuracy demanded is that of the fixed internal rule (4 radial and 20 angular points), measured per class of geometry"])
    c.need("rel", "unit")
    rng = c.rng
    cases, names = [], []
    base = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]], float)
    def geom(kind):
        sph, cen = 0, np.zeros(3)
        if kind == "square": v = base.copy()
        elif kind == "parallelogram": v = base @ (np.eye(3) + np.triu(rng.uniform(-.4, .4, (3, 3)), 1)) * 1.; v *= rng.uniform(.5, 2)
        elif kind == "trapezoid": v = base + np.c_[rng.uniform(-.15, .15, (4, 2)), np.zeros(4)]
        elif kind == "warped": v = base + rng.uniform(-.15, .15, (4, 3))
        elif kind == "thin": v = base * np.array([1, .4, 1])
        elif kind == "sphere":
            sph = 1; v = base - [.5, .5, 0]; v *= rng.uniform(.3, .8); v[:, 2] = 1; v[:, :2] += rng.uniform(-.2, .2, 2); v /= np.linalg.norm(v, axis=1)[:, None]
        elif kind == "sphere-in":
            sph = 1; v = (base - [.5, .5, 0]) * .5; v[:, 2] = 1; v /= np.linalg.norm(v, axis=1)[:, None]; v[[1, 2]] = v[[2, 1]]
        Q = M_rot(rng); t = rng.uniform(-2, 2, 3)
        return v @ Q.T + t, sph, t
    def M_rot(rng): return __import__("mesh").rotation(rng, 3)
    etas = lambda: [("interior", rng.uniform(.15, .85, 2)), ("edge", [(0, rng.uniform(.2, .8)), (1, .5), (.5, 0), (rng.uniform(.2, .8), 1)][rng.integers(4)]), ("corner", [(0, 0), (1, 0), (0, 1), (1, 1)][rng.integers(4)]),
                    ("gauss", (.5 + rng.choice([-1, 1]) * .5 / 3 ** .5, .5 + rng.choice([-1, 1]) * .5 / 3 ** .5)), ("centre", (.5, .5))]
    elems = [("q", 1), ("q", 2), ("dgq", 0), ("dgq", 1), ("q", 3), ("dgq", 2)]
    kinds = ["square", "parallelogram", "trapezoid", "warped", "thin", "sphere", "sphere-in"]
    for rep in range(8 if c.thorough else 1):
        for kind in kinds:
            for where, eta in etas():
                for fe, fd in (elems if c.thorough else [elems[rng.integers(6)], elems[rng.integers(2)]]):
                    v, sph, cen = geom(kind)
                    md = int(rng.integers(1, 4)) if not sph else int(rng.integers(2, 4))
                    names.append(f"{kind}-{where}-{fe}{fd}-map{md}")
                    cases.append(dict(md=md, fe=fe, fd=fd, eta=np.array(eta, float), sph=sph, c=cen, v=v, kind=kind, where=where))
    nb = len(cases)
    # rotated and moved, and scaled, twins
    tw = []
    for i in range(nb):
        k = cases[i]
        Q = M_rot(rng); t = rng.uniform(-5, 5, 3); s = float(rng.choice([.01, .5, 3., 100.]))
        tw.append((i, Q, s)); cases.append(dict(k, v=k["v"] @ Q.T + t, c=Q @ k["c"] + t)); cases.append(dict(k, v=s * k["v"], c=s * k["c"]))
    parts = [list(range(i, len(cases), 8)) for i in range(8)]
    res = [None] * len(cases)
    def go(ix):
        r = run(c, [cases[i] for i in ix])
        if r is not None:
            for i, x in zip(ix, r): res[i] = x
    c.map(go, [p for p in parts])
    TOL = {"square": 1e-5, "parallelogram": 1e-5, "thin": 1e-4, "trapezoid": 1e-5, "warped": 3e-5, "sphere": 3e-4, "sphere-in": 3e-4}
    for i in range(nb):
        k, r = cases[i], res[i]
        if r is None: continue
        cell = Cell(k["md"], r["G"], r["U"])
        V, W, b = reference(cell, k["eta"])
        rp = dict(script=[line(k)], got={a: r[a].tolist() for a in "VWB"}, exact=dict(V=V.tolist(), W=W.tolist(), b=b.tolist()))
        d = np.linalg.norm(k["v"][3] - k["v"][0]); key = f"{k['kind']}-{k['where']}-{k['fe']}{k['fd']}"
        sV, sW = max(np.abs(V).max(), .1 / d), max(np.abs(W).max(), .02)
        c.bound(key, f"hypersingular/{k['kind']}/{k['where']}", np.abs(r["V"] - V).max() / sV, TOL[k["kind"]], rp)
        c.bound(key, f"strongly singular/{k['kind']}/{k['where']}", np.abs(r["W"] - W).max() / sW, TOL[k["kind"]], rp)
        c.bound(key, f"free term/{k['kind']}", np.abs(r["B"] - b).max() * d, 1e-6, rp)
        c.case(names[i], sample=dict(case=names[i], largest_hypersingular=float(np.abs(V).max())))
        ra, rs = res[nb + 2 * i], res[nb + 2 * i + 1]; _, Q, s = tw[i]
        if ra is not None:
            for a in "VWB":
                c.bound(key, "rotation", np.abs(ra[a] - r[a] @ Q.T).max() / max(np.abs(r[a]).max(), .1), 1e-9, rp)
        if rs is not None:
            lg = np.log(s) if k["where"] in ("edge", "corner") else 0
            c.bound(key, "scaling of the free term", np.abs(rs["B"] * s - r["B"]).max(), 1e-9 * max(np.abs(r["B"]).max(), 1), rp)
            if not lg:
                ql = 1e-9 + TOL[k["kind"]] * abs(np.log(s)) # the angular rule leaves a remainder of the vanishing logarithmic term
                c.bound(key, "scaling of the hypersingular integral", np.abs(rs["V"] * s - r["V"]).max() / np.abs(r["V"]).max(), ql, rp)
                c.bound(key, "scaling of the strongly singular integral", np.abs(rs["W"] - r["W"]).max() / max(np.abs(r["W"]).max(), .1), ql, rp)
            ce = Cell(k["md"], rs["G"], rs["U"]); Vs, Ws, bs = reference(ce, k["eta"])
            c.bound(key, "hypersingular, scaled cell", np.abs(rs["V"] - Vs).max() * s / max(np.abs(Vs).max() * s, .1 / d), TOL[k["kind"]] * (1 + abs(np.log(s))), rp)
            c.bound(key, "strongly singular, scaled cell", np.abs(rs["W"] - Ws).max() / max(np.abs(Ws).max(), .02), TOL[k["kind"]] * (1 + abs(np.log(s))), rp)
        c.count("integrals compared", 2 * len(V))
    c.finish()
main()
