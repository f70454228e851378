#!/usr/bin/env python3-vt
"""C07: Legendre tables against arbitrary-precision definitions and identities."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import unit as U
import mpmath as mp
mp.mp.dps = 40
N = 20
W = {(n, m): mp.sqrt(mp.factorial(n - m) / mp.factorial(n + m)) for n in range(N + 1) for m in range(n + 1)}

def ref(x):
    """{(n,m): (value, derivative or None)} with the Condon-Shortley phase, from the definitions."""
    x = mp.mpf(x); s = mp.sqrt((1 - x) * (1 + x)); Q = {}
    for m in range(N + 1):
        P = {m - 1: mp.mpf(0), m: (-1) ** m * mp.fac2(2 * m - 1) * s ** m if m else mp.mpf(1)}
        for n in range(m, N):
            P[n + 1] = ((2 * n + 1) * x * P[n] - (n + m) * P[n - 1]) / (n + 1 - m)
        for n in range(m, N + 1):
            if s != 0:
                d = (n * x * P[n] - (n + m) * P[n - 1]) / ((x - 1) * (x + 1)) * W[n, m]
            elif m == 0:
                d = x ** (n + 1) * mp.mpf(n * (n + 1)) / 2
            elif m == 2: # -x^n (n-1)n(n+1)(n+2)/4 times the norm
                d = -x ** (n + 1) * mp.mpf((n - 1) * n * (n + 1) * (n + 2)) / 4 * W[n, m]
            elif m == 1:
                d = None # infinite
            else:
                d = mp.mpf(0)
            Q[n, m] = (P[n] * W[n, m], d)
    return Q

def main():
    c = Check("C07", "all 231 degrees and orders up to 20 at random, extreme, clustered and root arguments; non-trivial for every argument",
              ["the derivative of an order-one function is infinite at the ends and is not compared there"])
    c.need("rel", "unit")
    rng = c.rng
    xs = [-1., 1., 0., .5, -.5, .25, 1 - 1e-15, -1 + 1e-13, 1 - 1e-9, -1 + 1e-6, 1 - 1e-4, -.999, .99, .9, 1e-9, -1e-300, 1e-5, np.sqrt(.5), -np.sqrt(1 / 3), np.sqrt(.6)]
    r20 = np.polynomial.legendre.leggauss(20)[0]; r7 = np.polynomial.legendre.leggauss(7)[0]
    xs += list(r20[::3]) + list(r7)
    k = 4000 if c.thorough else 70
    xs += list(rng.uniform(-1, 1, k)) + list(np.cos(rng.uniform(0, np.pi, k)))
    xs = [float(x) for x in xs]
    T = 60 if c.thorough else 20
    pairs = []
    for _ in range(T): # addition theorem: angles of two directions
        a, b = rng.normal(size=(2, 3)); a /= np.linalg.norm(a); b /= np.linalg.norm(b)
        pairs.append((a, b)); xs += [float(a[2]), float(b[2]), float(a @ b)]
    xs += [-x for x in xs[-10:]]
    out = U.script(c, "legendre", [f"leg {N} {x!r}" for x in xs])
    if out is None:
        c.finish()
    vals = {}
    for x, l in zip(xs, out):
        a = [float(v) for v in l.split()[1:]]
        vals[x] = {nm: (a[2 * i], a[2 * i + 1]) for i, nm in enumerate((n, m) for n in range(N + 1) for m in range(n + 1))}
    rep = dict(arguments=xs[:50])
    for x in xs:
        Q = ref(x); g = vals[x]; om = max((1 - x) * (1 + x), 1e-300); eps = 2.2e-16
        for (n, m), (v, d) in Q.items():
            v0 = float(v); rp = dict(n=n, m=m, x=x, got=g[n, m], exact=(v0, None if d is None else float(d)))
            # round-off: of the value's own scale, of 1-x^2 near the ends
            c.bound(f"P_{n}_{m}", "value", abs(g[n, m][0] - v0), eps * (8 * (n + 2) ** 2 + 4 * m * min(abs(v0) / om, 1 / om ** .5 if m == 1 else abs(v0) / om)), rp)
            if d is not None:
                d0 = float(d)
                c.bound(f"P_{n}_{m}", "derivative", abs(g[n, m][1] - d0), eps * (16 * (n + 2) ** 3 + 8 * (m > 0) * abs(d0) / om), rp)
        c.case(f"x={x:.6g}", sample=dict(x=x, P_20_7=g[20, 7]))
    c.count("function values compared", 231 * len(xs)); c.count("derivatives compared", 231 * len(xs))
    for x in xs[-10:]:
        for n in range(N + 1):
            for m in range(n + 1):
                c.bound(f"P_{n}_{m}", "parity", abs(vals[x][n, m][0] - (-1) ** (n + m) * vals[-x][n, m][0]), 1e-13)
    for a, b in pairs:
        d = np.arctan2(a[1], a[0]) - np.arctan2(b[1], b[0])
        for n in range(N + 1):
            s = sum((1 if m == 0 else 2) * vals[float(a[2])][n, m][0] * vals[float(b[2])][n, m][0] * np.cos(m * d) for m in range(n + 1))
            c.bound(f"degree{n}", "addition theorem", abs(s - vals[float(a @ b)][n, 0][0]), 1e-12, dict(a=list(a), b=list(b), n=n))
    c.finish()
main()
