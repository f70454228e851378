#!/usr/bin/env python3-vt
"""C05: expansions of random sources against exact fields and proven truncation bounds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import unit as U, sph, math
EPS = 2.2e-16
fmt = lambda v: " ".join(f"{x:.17g}" for x in np.ravel(v))

def field(src, y):
    y = np.atleast_2d(y); v = np.zeros(len(y))
    for s, x, n in src:
        d = y - x; r = np.linalg.norm(d, axis=1)
        if n is None:
            v += s / r
        else:
            v += s * (d @ (n / np.linalg.norm(n))) / r ** 3
    return v

def trunc(src, c0, p, r):
    """Proven bound of what orders above p contribute at distance r from the centre c0."""
    b = 0
    for s, x, n in src:
        a = np.linalg.norm(x - c0); q = a / r
        assert q < 1
        if n is None:
            b += abs(s) * q ** (p + 1) / (r - a)
        else: # sum over k>p of (k+1) a^(k-1)/r^(k+1)
            b += abs(s) / r ** 2 * sum((k + 1) * q ** (k - 1) for k in range(p + 1, p + 400))
    return b

def own_coefs(src, c0, p):
    C = 0
    for s, x, n in src:
        C = C + s * (sph.mono(p, x - c0) if n is None else sph.dip(p, x - c0, n / np.linalg.norm(n)))
    return C

def scale(src, c0, p, amin=0):
    """Magnitude of the terms of every order, for rounding bounds."""
    out = []
    for k in range(p + 1):
        v = 0
        for s, x, n in src:
            a = max(np.linalg.norm(x - c0), amin)
            v += abs(s) * (a ** k if n is None else (k + 1) * a ** max(k - 1, 0))
        out.append(v)
    return np.array(out)

def cplx(l):
    a = np.array([float(x) for x in l.split()[1:]]); return a[0::2] + 1j * a[1::2]

class Scene:
    """One random configuration: sources in a ball, expansions built, re-centred and converted."""
    def __init__(self, rng, kind, p, unit=1.):
        self.kind, self.p, self.unit = kind, p, unit
        r = rng
        self.c0 = r.uniform(-1, 1, 3) * unit * (0 if kind == "origin" else 3)
        a = self.a = unit * r.uniform(.3, 1)
        n = int(r.integers(1, 7))
        self.src = []
        for i in range(n):
            x = r.normal(size=3); x *= a * r.uniform(0, 1) / np.linalg.norm(x)
            if kind == "axis": x = np.array([0, 0, r.choice([-1, 1]) * a * r.uniform(.1, 1)])
            if kind == "plane": x[2] = 0
            if kind == "centre" and i == 0: x = np.zeros(3)
            if kind == "near-axis": x[:2] *= 10. ** -r.integers(2, 13)
            if kind == "lattice": x = a / 2 * r.integers(-1, 2, 3)
            nn = None
            if kind != "mono" and (kind == "dipole" or r.random() < .5):
                nn = r.normal(size=3) * r.choice([1., 1., 3., .01])
                if r.random() < .3: nn = np.eye(3)[r.integers(3)] * r.choice([-1, 1])
            s = r.normal() * 10. ** r.integers(-2, 3)
            if nn is not None: s *= unit
            self.src.append((s, x + self.c0, nn))
        d = r.normal(size=3); d /= np.linalg.norm(d)
        if kind in ("axis", "lattice"): d = np.array([(0, 0, 1.), (0, 0, -1.), (1., 0, 0), (0, -1., 0), (-1., -1., -1.) / np.sqrt(3), (1., 0, -1.) / np.sqrt(2)][r.integers(6)])
        self.d = d
        # nested re-centrings: child -> parent -> grandparent
        self.c1 = self.c0 + a * r.uniform(.2, 1) * (d if kind == "lattice" else sph.sphere_rule(8)[0][r.integers(128)])
        if kind == "same-centre": self.c1 = self.c0.copy()
        self.c2 = self.c1 + a * r.uniform(.2, 1) * d
        if kind == "tiny-shift": self.c1 = self.c0 + 1e-9 * a * d
        a1 = max(np.linalg.norm(x - self.c1) for _, x, _ in self.src)
        # local centres: separated from the multipole c1
        self.R = (a1 + a) * r.uniform(1.8, 3)
        self.l0 = self.c1 + self.R * (d if r.random() < .4 else sph.sphere_rule(8)[0][r.integers(128)])
        self.rl = .3 * self.R
        e = r.normal(size=3); e /= np.linalg.norm(e)
        self.l1 = self.l0 + (0 if kind == "same-centre" else .4 * self.rl) * e
        U_ = sph.sphere_rule(8)[0]
        pk = lambda k: U_[r.permutation(len(U_))[:k]]
        far = [1.3, 1.7, 2.5, 5, 20, 100]
        a0 = max([np.linalg.norm(x - self.c0) for _, x, _ in self.src] + [.3 * a])
        self.y0 = np.array([self.c0 + f * a0 * u for f, u in zip(far, pk(6))] + [self.c0 + 2 * a0 * v for v in np.vstack([np.eye(3), -np.eye(3)])])
        a2 = max(np.linalg.norm(x - self.c2) for _, x, _ in self.src) + .2 * a
        self.y2 = np.array([self.c2 + f * a2 * u for f, u in zip(far, pk(6))])
        self.yl = np.array([self.l0 + f * self.rl * u for f, u in zip([0, .01, .1, .3, .5, 1], pk(6))] + [self.l0 + .3 * self.rl * v for v in np.vstack([np.eye(3), -np.eye(3)])])
    def lines(self):
        p = self.p; L = []
        add = lambda i, s, x, n: L.append(f"madd {i} {s:.17g} {fmt(x)}" if n is None else f"mdip {i} {s:.17g} {fmt(x)} {fmt(n)}")
        L.append(f"mnew 0 {p} {fmt(self.c0)}")
        for q in self.src: add(0, *q)
        L += [f"mcoef 0", f"mval 0 {fmt(self.y0)}"]
        # other order, strengths times -2.5, split in halves
        L.append(f"mnew 1 {p} {fmt(self.c0)}")
        for s, x, n in self.src[::-1]: add(1, -1.25 * s, x, n); add(1, -1.25 * s, x, n)
        L += ["mcoef 1"]
        # linear combination of expansions with a common centre
        L += [f"mnew 2 {p} {fmt(self.c0)}"]
        for k, (s, x, n) in enumerate(self.src):
            L.append(f"mnew {20+k} {p} {fmt(self.c0)}"); add(20 + k, 1., x, n); L.append(f"maxpy 2 {20+k} {s:.17g}")
        L += ["mcoef 2"]
        # re-centring twice, and on top of what is there already
        L += [f"mnew 3 {p} {fmt(self.c1)}", "mshift 3 0", f"mnew 5 {p} {fmt(self.c0 + .3 * self.a)}", "mshift 3 5", "mcoef 3", f"mnew 4 {p} {fmt(self.c2)}", "mshift 4 3", "mshift 4 5", "mcoef 4", f"mval 4 {fmt(self.y2)}", "mshift 4 3", "mcoef 4"]
        # conversion and local re-centring
        L += [f"lnew 0 {p} {fmt(self.l0)}", "lm2l 0 3", "lm2l 0 5", f"lnew 2 {p} {fmt(self.l0 + .1 * self.rl)}", "lshift 0 2", "lcoef 0", f"lval 0 {fmt(self.yl)}", f"lnew 1 {p} {fmt(self.l1)}", "lshift 1 0", "lshift 1 2", "lcoef 1", f"lval 1 {fmt(self.yl)}",
              "lshift 1 0", "lcoef 1", "lm2l 0 3", "lcoef 0", "mcoef 3"]
        L += [f"mdel {20+k}" for k in range(len(self.src))] + ["mdel 0", "mdel 1", "mdel 2", "mdel 3", "mdel 4", "mdel 5", "ldel 0", "ldel 1", "ldel 2"]
        return L

def judge(c, key, S, out):
    p, src = S.p, S.src
    it = iter([l for l in out if l[:1] in "CE" and l[:3] != "END"])
    C0, E0, C1, C2, C3, C4, E4, C4b, L0, F0, L1, F1, L1b, L0b, C3b = [cplx(next(it)) if t == "C" else np.array([float(x) for x in next(it).split()[1:]]) for t in "CECCCCECCECECCC"]
    rp = dict(kind=S.kind, order=p, script=S.lines(), unit=S.unit)
    ix = sph.idx(p); N = np.array([n for n, m in ix])
    near_axis = S.kind in ("axis", "near-axis", "centre", "lattice") or any(np.hypot(*(x - S.c0)[:2]) < 1e-4 * np.linalg.norm(x - S.c0) for _, x, _ in src)
    def coefs(what, got, want, sc, k, rel=0):
        e = np.abs(got - want); t = (k * (p + 2) ** 2 * EPS + rel) * sc[N] + 1e-300
        i = int(np.argmax(np.where(np.isfinite(e), e / t, np.inf)))
        c.bound(key, what, e[i], t[i], rp, f"(degree {ix[i][0]} order {ix[i][1]}: {got[i]:.9g}, exact {want[i]:.9g})")
    sc0 = scale(src, S.c0, p, .01 * S.a)
    # coordinates carry rounding of their own magnitude
    def cond(c0, a): return 1 + (np.linalg.norm(c0) + a) / max(a, 1e-300)
    k0 = 30 * cond(S.c0, S.a)
    dipaxis = 3e-7 if near_axis else 0 # derivative beside the polar axis: the harmonics of order one are nearly singular there
    coefs("multipole coefficients", C0, own_coefs(src, S.c0, p), sc0, k0, dipaxis)
    coefs("scaled strengths in reverse order", C1, -2.5 * C0, sc0, 100 * (1 if not near_axis else 1))
    coefs("combination of expansions", C2, C0, sc0, 100)
    a0 = max([np.linalg.norm(x - S.c0) for _, x, _ in src] + [1e-30])
    def evals(what, got, y, c0, bnd_scale, rel=0):
        ex = field(src, y)
        for g, e, yy in zip(got, ex, y):
            r = np.linalg.norm(yy - c0)
            rnd = sum(np.sum(bnd_scale[k] / r ** (k + 1)) for k in range(p + 1))
            c.bound(key, what, abs(g - e), trunc(src, c0, p, r) * 1.0001 + (200 * (p + 2) ** 2 * EPS * cond(c0, r) + rel) * rnd, rp, f"(at {yy}: {g:.9g}, exact {e:.9g})")
            c.count("field evaluations")
    evals("field of the multipole", E0, S.y0, S.c0, sc0, dipaxis)
    def blow(sc, d): # magnitude of the terms after a translation by d
        return np.array([sum(math.comb(n, k) * sc[k] * d ** (n - k) for k in range(n + 1)) for n in range(p + 1)])
    sc1 = blow(sc0, np.linalg.norm(S.c1 - S.c0)); sc2 = blow(sc1, np.linalg.norm(S.c2 - S.c1))
    shift_ok = 1 if S.kind != "tiny-shift" else 1e4
    kk = 300 * cond(S.c0, S.a)
    coefs("re-centred multipole", C3, own_coefs(src, S.c1, p), sc1, kk, dipaxis)
    coefs("twice re-centred multipole", C4, own_coefs(src, S.c2, p), sc2, kk, dipaxis)
    coefs("accumulated re-centring", C4b, 2 * C4, sc2, kk)
    coefs("source of the conversions unchanged", C3b, C3, sc1, 0)
    evals("field of the re-centred multipole", E4, S.y2, S.c2, sc2, dipaxis)
    # conversion: local coefficients are those of the field of the truncated multipole
    f = lambda y: sph.eval_m(C3, p, S.l0 + y - S.c1)
    Lref = sph.project_local(f, p, .3 * S.R, 36)
    R = np.linalg.norm(S.l0 - S.c1)
    scl = np.array([sum(math.comb(n + k, n) * sc1[k] / R ** (n + k + 1) for k in range(p + 1)) for n in range(p + 1)])
    scq = np.array([scl[n] + sum(sc1[k] / (.7 * R) ** (k + 1) for k in range(p + 1)) / (.3 * R) ** n for n in range(p + 1)])
    e = np.abs(L0 - Lref); t = 3e-12 * scl[N] + 400 * EPS * scq[N] * cond(S.c1, R)
    i = int(np.argmax(np.where(np.isfinite(e), e / t, np.inf)))
    c.bound(key, "converted local coefficients", e[i], t[i], rp, f"(degree {ix[i][0]} order {ix[i][1]}: {L0[i]:.9g}, exact {Lref[i]:.9g})")
    coefs("accumulated conversion", L0b, 2 * L0, scl, 300)
    # the field inside: truncation of the multipole plus truncation of the local expansion
    ex = field(src, S.yl)
    a1 = max([np.linalg.norm(x - S.c1) for _, x, _ in src])
    for what, G in (("field of the local expansion", F0), ("field of the re-centred local expansion", F1)):
        for g, e_, yy in zip(G, ex, S.yl):
            tt = np.linalg.norm(yy - S.l0)
            tail = sum(sc1[k] / R ** (k + 1) * sum(math.comb(n + k, n) * (tt / R) ** n for n in range(p + 1, p + 80)) for k in range(p + 1))
            rnd = sum(scl[n] * (tt + (.4 * S.rl if G is F1 else 0)) ** n for n in range(p + 1))
            rnd2 = sum(scl[n] * (.4 * S.rl + np.linalg.norm(yy - S.l1)) ** n for n in range(p + 1)) if G is F1 else rnd
            c.bound(key, what, abs(g - e_), trunc(src, S.c1, p, np.linalg.norm(yy - S.c1)) + tail * 1.0001 + (1000 * (p + 2) ** 2 * EPS * cond(S.c1, R) + dipaxis) * rnd2, rp, f"(at {yy}: {g:.9g}, exact {e_:.9g})")
            c.count("field evaluations")
    # local re-centring is exact: both are the same polynomial
    poly0 = sph.eval_l(L0, p, S.yl - S.l0)
    for what, G, fac in (("local polynomial", F0, 1), ("re-centred local polynomial", F1, 1)):
        for g, e_, yy in zip(G, poly0, S.yl):
            rnd2 = sum(scl[n] * (.4 * S.rl + np.linalg.norm(yy - S.l1)) ** n for n in range(p + 1))
            c.bound(key, what, abs(g - e_), 1000 * (p + 2) ** 2 * EPS * cond(S.l0, S.rl) * rnd2, rp, f"(at {yy}: {g:.9g}, same polynomial {e_:.9g})")
    scl1 = np.array([sum(math.comb(n, k) * scl[n] * (.4 * S.rl) ** (n - k) for n in range(k, p + 1)) for k in range(p + 1)])
    coefs("accumulated local re-centring", L1b, 2 * L1, scl1, 300)
    fl1 = lambda y: sph.eval_l(L0, p, S.l1 + y - S.l0)
    Lr1 = sph.project_local(fl1, p, .5 * S.rl, 24)
    e = np.abs(L1 - Lr1); t = 400 * EPS * (p + 2) ** 2 * cond(S.l0, S.rl) * np.array([scl1[n] + sum(scl[k] * S.rl ** k for k in range(p + 1)) / (.5 * S.rl) ** n for n in range(p + 1)])[N]
    i = int(np.argmax(np.where(np.isfinite(e), e / t, np.inf)))
    c.bound(key, "re-centred local coefficients", e[i], t[i], rp, f"(degree {ix[i][0]} order {ix[i][1]})")
    c.count("sources", len(src)); c.count("dipoles", sum(n is not None for _, _, n in src)); c.count("coefficients compared", len(ix) * 9)

def main():
    c = Check("C05", "random source clouds (generic, on the polar axis, in a plane, at the centre, on a lattice, dipoles along axes, tiny and huge length units) x orders 0..10, re-centred, "
              "converted and re-centred again; non-trivial when the cloud has a source off the centre",
              ["bounds are the proven truncation bounds plus rounding of the terms' magnitudes", "derivatives within 1e-5 of the polar axis are compared to 3e-7 of their scale"])
    c.need("rel", "unit")
    rng = c.rng
    kinds = ["generic", "mono", "dipole", "axis", "near-axis", "plane", "centre", "lattice", "origin", "same-centre", "tiny-shift"]
    L = []
    for i in range(3000 if c.thorough else 220):
        k = kinds[i % len(kinds)]; p = int(rng.integers(0, 11)) if i >= 2 * len(kinds) else [10, 4][i // len(kinds)]
        u = float(rng.choice([1., 1., 1e-3, 1e3, 1e-8, 1e6]))
        L.append((f"{k}-p{p}-u{u:g}-{i}", Scene(rng, k, p, u)))
    chunks = [L[i::8] for i in range(8)]
    def go(ch):
        lines = [l for _, S in ch for l in S.lines()]
        out = U.script(c, "expansions", lines)
        if out is None:
            return
        out = [l for l in out if l and l != "END"]
        k = 0
        for name, S in ch:
            judge(c, S.kind + f"-p{S.p}", S, out[k:k + 15]); k += 15
            c.case(name, nontrivial=len(S.src) > 1 or S.kind not in ("centre",), sample=dict(kind=S.kind, order=S.p, sources=len(S.src), unit=S.unit))
    c.map(go, chunks)
    c.finish()
main()
