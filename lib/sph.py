"""Own spherical harmonics (recurrences) and expansion formulae, vectorised."""
import math
import numpy as np
from functools import lru_cache

def legendre(p, x):
    """Q[n][m](x) = sqrt((n-m)!/(n+m)!) P_n^m(x), Condon-Shortley phase; stable recurrences."""
    x = np.asarray(x, float)
    s = np.sqrt(np.maximum(0, (1 - x) * (1 + x)))
    Q = [[None] * (n + 1) for n in range(p + 1)]
    Q[0][0] = np.ones_like(x)
    for m in range(1, p + 1):
        Q[m][m] = -math.sqrt((2 * m - 1) / (2 * m)) * s * Q[m - 1][m - 1]
    for m in range(p):
        Q[m + 1][m] = math.sqrt(2 * m + 1) * x * Q[m][m]
        for n in range(m + 2, p + 1):
            Q[n][m] = ((2 * n - 1) * x * Q[n - 1][m] - math.sqrt((n - 1) ** 2 - m * m) * Q[n - 2][m]) / math.sqrt(n * n - m * m)
    return Q

def polar(d):
    d = np.atleast_2d(d)
    rho = np.linalg.norm(d, axis=1)
    c = np.divide(d[:, 2], rho, out=np.ones_like(rho), where=rho > 0)
    return rho, c, np.arctan2(d[:, 1], d[:, 0])

def idx(p):
    return [(n, m) for n in range(p + 1) for m in range(n + 1)]

def mono(p, d, s=1.):
    """Multipole coefficients of monopoles s at d (summed)."""
    rho, c, b = polar(d)
    Q = legendre(p, c)
    return np.array([np.sum(s * rho ** n * Q[n][m] * np.exp(-1j * m * b)) for n, m in idx(p)])

def local_of_mono(p, d, s=1.):
    """Local coefficients about 0 of monopoles at d."""
    rho, c, b = polar(d)
    Q = legendre(p, c)
    return np.array([np.sum(s * rho ** (-n - 1.) * Q[n][m] * np.exp(-1j * m * b)) for n, m in idx(p)])

def dip(p, d, n):
    """Multipole coefficients of unit dipoles (derivative along n), by the polynomial gradient of solid harmonics."""
    # R_n^m = rho^n Q e^{-i m b} obey closed gradient relations; with S = z-derivative etc. derived from translation theory
    d = np.atleast_2d(d); n = np.atleast_2d(n)
    R = {}
    rho, c, b = polar(d)
    Q = legendre(p, c)
    for k, m in idx(p):
        R[k, m] = rho ** k * Q[k][m] * np.exp(-1j * m * b)
    def g(k, m):
        if k < 0 or abs(m) > k:
            return 0
        return R[k, m] if m >= 0 else np.conj(R[k, -m]) # own symmetric convention: Q_{-m} = Q_m here
    out = []
    for k, m in idx(p):
        # un-normalised regular solids r_k^m = R/sqrt((k-m)!(k+m)!) satisfy d/dz r_k^m = r_{k-1}^m,
        # (d/dx -+ i d/dy) r_k^m = +- r_{k-1}^{m +- 1} with the sign of the phase convention
        w = lambda kk, mm: math.sqrt(math.factorial(kk - abs(mm)) * math.factorial(kk + abs(mm)))
        def r(kk, mm):
            if kk < 0 or abs(mm) > kk:
                return 0
            # signed convention: r_{k}^{-m} = (-1)^m conj(r_k^m)
            v = R[kk, abs(mm)] / w(kk, mm)
            return v if mm >= 0 else (-1) ** mm * np.conj(v)
        dz = r(k - 1, m)
        dp = -r(k - 1, m - 1) # (d/dx + i d/dy) of rho^k Q e^{-imb}
        dm = r(k - 1, m + 1)  # (d/dx - i d/dy)
        dx, dy = (dp + dm) / 2, (dp - dm) / 2j
        out.append(np.sum(w(k, m) * (n[:, 0] * dx + n[:, 1] * dy + n[:, 2] * dz)))
    return np.array(out)

def eval_m(C, p, y):
    rho, c, b = polar(y); Q = legendre(p, c); v = 0
    for k, (n, m) in enumerate(idx(p)):
        v = v + (1 if m == 0 else 2) * (C[k] * np.exp(1j * m * b)).real * Q[n][m] * rho ** (-n - 1.)
    return v

def eval_l(C, p, y):
    rho, c, b = polar(y); Q = legendre(p, c); v = 0
    for k, (n, m) in enumerate(idx(p)):
        v = v + (1 if m == 0 else 2) * (C[k] * np.exp(1j * m * b)).real * Q[n][m] * rho ** (1. * n)
    return v

@lru_cache(None)
def sphere_rule(N):
    x, w = np.polynomial.legendre.leggauss(N)
    ph = 2 * np.pi * np.arange(2 * N) / (2 * N)
    X, PH = np.meshgrid(x, ph, indexing="ij")
    W = np.repeat(w[:, None], 2 * N, 1) / (2 * 2 * N)
    s = np.sqrt(1 - X ** 2)
    return np.stack([s * np.cos(PH), s * np.sin(PH), X], -1).reshape(-1, 3), W.ravel()

def project_local(f, p, R, N=40):
    """Local coefficients about 0 of the harmonic function f, from its values on the sphere of radius R."""
    d, w = sphere_rule(N)
    v = f(R * d)
    rho, c, b = polar(d)
    Q = legendre(p, c)
    return np.array([(2 * n + 1) * np.sum(w * v * Q[n][m] * np.exp(-1j * m * b)) / R ** n for n, m in idx(p)])
