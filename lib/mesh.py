"""Closed boundary meshes: generators (independent of the code under test), writers and geometry facts.

A mesh is Mesh(dim, v (n,dim), cells (m, 2|4) cyclic order, outward orientation, mat (m,)).
"""
import math
import numpy as np

class Mesh:
    def __init__(self, dim, v, cells, mat):
        self.dim, self.v = dim, np.array(v, float)
        self.cells, self.mat = np.array(cells, int), np.array(mat, int)
    def copy(self):
        return Mesh(self.dim, self.v, self.cells, self.mat)
    # ---- geometry ----
    def cell_normals(self):
        x = self.v[self.cells]
        if self.dim == 2:
            t = x[:, 1] - x[:, 0]
            return np.stack([t[:, 1], -t[:, 0]], 1) / np.linalg.norm(t, axis=1)[:, None]
        n = np.cross(x[:, 2] - x[:, 0], x[:, 3] - x[:, 1])
        return n / np.linalg.norm(n, axis=1)[:, None]
    def volume(self):
        x = self.v[self.cells]
        if self.dim == 2:
            return 0.5 * np.sum(x[:, 0, 0] * x[:, 1, 1] - x[:, 1, 0] * x[:, 0, 1])
        s = 0
        for a, b, c in ((0, 1, 2), (0, 2, 3)):
            s += np.sum(np.einsum("ij,ij->i", x[:, a], np.cross(x[:, b], x[:, c]))) / 6
        return s
    # ---- transformations ----
    def map(self, f):
        m = self.copy(); m.v = np.array([f(p) for p in m.v]); return m
    def affine(self, A, b=0):
        m = self.copy(); m.v = m.v @ np.array(A, float).T + np.array(b)
        if np.linalg.det(np.array(A, float)) < 0:
            m.cells = m.cells[:, ::-1]
        return m
    def renumber(self, rng, rotate=True):
        """Same mesh: vertices and cells permuted, cell-local numbering rotated."""
        m = self.copy()
        p = rng.permutation(len(m.v)); inv = np.argsort(p)
        m.v = m.v[p]; m.cells = inv[m.cells]
        if rotate and m.dim == 3:
            m.cells = np.array([np.roll(c, rng.integers(4)) for c in m.cells])
        q = rng.permutation(len(m.cells))
        m.cells, m.mat = m.cells[q], m.mat[q]
        return m
    def split(self):
        """Duplicate the vertices shared by cells of different material ids."""
        m = self.copy(); key = {}; v = []; cells = []
        for c, mt in zip(m.cells, m.mat):
            row = []
            for k in c:
                if (k, mt) not in key:
                    key[(k, mt)] = len(v); v.append(m.v[k])
                row.append(key[(k, mt)])
            cells.append(row)
        return Mesh(m.dim, v, cells, m.mat)
    def merge(self, tol=1e-9):
        m = self.copy(); key = {}; v = []; idx = []
        for p in m.v:
            k = tuple(np.round(p / tol / 10).astype(np.int64))
            if k not in key:
                key[k] = len(v); v.append(p)
            idx.append(key[k])
        m.v = np.array(v); m.cells = np.array(idx)[m.cells]
        return m
    def relabel(self, f):
        m = self.copy(); m.mat = np.array([f(i) for i in m.mat]); return m
    # ---- writers ----
    def filecells(self):
        """Cells in file order: deal.II's normal of a line segment points to its left-hand side."""
        return self.cells[:, ::-1] if self.dim == 2 else self.cells
    def inp(self):
        v3 = np.zeros((len(self.v), 3)); v3[:, :self.dim] = self.v
        o = [f"{len(v3)} {len(self.cells)} 0 0 0"]
        o += [f"{i+1} {p[0]:.17g} {p[1]:.17g} {p[2]:.17g}" for i, p in enumerate(v3)]
        t = "line" if self.dim == 2 else "quad"
        o += [f"{i+1} {mt} {t} " + " ".join(str(k + 1) for k in c) for i, (c, mt) in enumerate(zip(self.filecells(), self.mat))]
        return "\n".join(o) + "\n"
    def msh(self):
        v3 = np.zeros((len(self.v), 3)); v3[:, :self.dim] = self.v
        o = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$Nodes", str(len(v3))]
        o += [f"{i+1} {p[0]:.17g} {p[1]:.17g} {p[2]:.17g}" for i, p in enumerate(v3)]
        o += ["$EndNodes", "$Elements", str(len(self.cells))]
        t = 1 if self.dim == 2 else 3
        o += [f"{i+1} {t} 2 {mt} {mt} " + " ".join(str(k + 1) for k in c) for i, (c, mt) in enumerate(zip(self.filecells(), self.mat))]
        return "\n".join(o + ["$EndElements"]) + "\n"
    def vtk(self):
        v3 = np.zeros((len(self.v), 3)); v3[:, :self.dim] = self.v
        n = self.cells.shape[1]
        o = ["# vtk DataFile Version 3.0", "mesh", "ASCII", "DATASET UNSTRUCTURED_GRID", f"POINTS {len(v3)} double"]
        o += [f"{p[0]:.17g} {p[1]:.17g} {p[2]:.17g}" for p in v3]
        o += [f"CELLS {len(self.cells)} {len(self.cells)*(n+1)}"]
        o += [f"{n} " + " ".join(str(k) for k in c) for c in self.filecells()]
        o += [f"CELL_TYPES {len(self.cells)}"] + [str(3 if self.dim == 2 else 9)] * len(self.cells)
        o += [f"CELL_DATA {len(self.cells)}", "SCALARS MaterialID int 1", "LOOKUP_TABLE default"] + [str(m) for m in self.mat]
        return "\n".join(o) + "\n"
    def write(self, fmt):
        return {"inp": self.inp, "msh": self.msh, "vtk": self.vtk}[fmt]()
    def orient(self):
        """Make the given (per patch consistent) orientation outward: flips everything if the volume is negative."""
        if self.volume() < 0:
            m = self.copy(); m.cells = m.cells[:, ::-1]; return m
        return self

# ---- generators -----------------------------------------------------------
def grid_patch(a, b, c, d, n, m, mat):
    """Bilinear patch with corners a,b,c,d (cyclic), n x m cells."""
    a, b, c, d = map(np.array, (a, b, c, d))
    v = []; cells = []
    for j in range(m + 1):
        for i in range(n + 1):
            s, t = i / n, j / m
            v.append((1 - s) * (1 - t) * a + s * (1 - t) * b + s * t * c + (1 - s) * t * d)
    for j in range(m):
        for i in range(n):
            k = j * (n + 1) + i
            cells.append([k, k + 1, k + n + 2, k + n + 1])
    return Mesh(3, v, cells, [mat] * len(cells))

def join(parts, merge_same=True, split=True):
    v = []; cells = []; mat = []
    for p in parts:
        k = len(v); v += list(p.v); cells += [list(np.array(c) + k) for c in p.cells]; mat += list(p.mat)
    m = Mesh(parts[0].dim, v, cells, mat).merge()
    m = m.orient()
    return m.split() if split else m

def box(n=(1, 1, 1), size=(1, 1, 1), mats=(1, 2, 3, 4, 5, 6), split=True, center=(0, 0, 0)):
    """Faces in the order x-,x+,y-,y+,z-,z+."""
    lx, ly, lz = [s / 2 for s in size]
    c = lambda x, y, z: np.array([x * lx, y * ly, z * lz]) + np.array(center)
    P = [grid_patch(c(-1, -1, -1), c(-1, -1, 1), c(-1, 1, 1), c(-1, 1, -1), n[2], n[1], mats[0]),
         grid_patch(c(1, -1, -1), c(1, 1, -1), c(1, 1, 1), c(1, -1, 1), n[1], n[2], mats[1]),
         grid_patch(c(-1, -1, -1), c(1, -1, -1), c(1, -1, 1), c(-1, -1, 1), n[0], n[2], mats[2]),
         grid_patch(c(-1, 1, -1), c(-1, 1, 1), c(1, 1, 1), c(1, 1, -1), n[2], n[0], mats[3]),
         grid_patch(c(-1, -1, -1), c(-1, 1, -1), c(1, 1, -1), c(1, -1, -1), n[1], n[0], mats[4]),
         grid_patch(c(-1, -1, 1), c(1, -1, 1), c(1, 1, 1), c(-1, 1, 1), n[0], n[1], mats[5])]
    return join(P, split=split)

def roof(h=.04, n=1, split=True):
    """House with a (shallow) ridge: sides 1-3 and roof halves 4, 5, gables 6, 7; cells stay well shaped."""
    pt = [(0, 0), (.5, 0), (1, 0), (1, 1), (.5, 1 + h), (0, 1)]
    l = lambda i, z: np.array([*pt[i % 6], z], float)
    parts = [grid_patch(l(i, 0), l(i + 1, 0), l(i + 1, 1), l(i, 1), n, 2 * n, k) for i, k in ((0, 1), (1, 1), (2, 2), (3, 4), (4, 5), (5, 3))]
    for z, k in ((0, 6), (1, 7)):
        for q in ((0, 1, 4, 5), (1, 2, 3, 4)):
            parts.append(grid_patch(*[l(i, z) for i in (q if z else q[::-1])], n, n, k))
    return join(parts, split=split)

def split_polygon(poly):
    """Quads covering a convex polygon: one per corner (corner, edge mid, centre, previous edge mid)."""
    poly = [np.array(p, float) for p in poly]
    c = sum(poly) / len(poly); n = len(poly)
    return [[poly[i], (poly[i] + poly[(i + 1) % n]) / 2, c, (poly[i - 1] + poly[i]) / 2] for i in range(n)]

def prism(poly, h=1.0, n=1, nz=1, mats=None, split=True):
    """Extruded convex polygon (counter-clockwise); mats = sides..., bottom, top."""
    k = len(poly); mats = mats or list(range(1, k + 3)); parts = []
    P = [np.array([x, y]) for x, y in poly]
    lift = lambda p, z: np.array([p[0], p[1], z])
    for i in range(k):
        a, b = P[i], P[(i + 1) % k]
        m = (a + b) / 2
        for s, e in ((a, m), (m, b)):
            parts.append(grid_patch(lift(s, 0), lift(e, 0), lift(e, h), lift(s, h), n, nz, mats[i]))
    for q in split_polygon(P):
        parts.append(grid_patch(*[lift(p, h) for p in q], n, n, mats[k + 1]))
        parts.append(grid_patch(*[lift(p, 0) for p in q[::-1]], n, n, mats[k]))
    return join(parts, split=split)

def lshape(n=1, size=1.0, h=1.0, mats=(1, 2, 3, 4, 5, 6, 7, 8), split=True):
    """Extruded L (one re-entrant edge); sides 6, bottom, top."""
    P = [np.array(p, float) * size for p in ((0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2))]
    lift = lambda p, z: np.array([p[0], p[1], z]); parts = []
    for i in range(6):
        a, b = P[i], P[(i + 1) % 6]
        L = int(round(np.linalg.norm(b - a) / size))
        parts.append(grid_patch(lift(a, 0), lift(b, 0), lift(b, h), lift(a, h), n * L, n, mats[i]))
    for x, y in ((0, 0), (1, 0), (0, 1)):
        q = [np.array(p, float) * size for p in ((x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1))]
        parts.append(grid_patch(*[lift(p, h) for p in q], n, n, mats[7]))
        parts.append(grid_patch(*[lift(p, 0) for p in q[::-1]], n, n, mats[6]))
    return join(parts, split=split)

def tetra(n=1, mats=(1, 2, 3, 4), split=True, v=None):
    v = np.array(v if v is not None else [(1, 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1)], float)
    parts = []
    for mt, (a, b, c) in zip(mats, ((0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2))):
        t = [v[a], v[b], v[c]]
        if np.dot(np.cross(t[1] - t[0], t[2] - t[0]), t[0] - v.mean(0)) < 0:
            t = t[::-1]
        for q in split_polygon(t):
            parts.append(grid_patch(*q, n, n, mt))
    return join(parts, split=split)

def qsphere(n=2, r=1.0, c=(0, 0, 0), mats=(1,) * 6, split=True, axes=(1, 1, 1)):
    m = box((n, n, n), (2, 2, 2), mats, split=False)
    def f(p):
        p = np.tan(p * math.pi / 4)
        return np.array(c) + r * np.array(axes) * p / np.linalg.norm(p)
    m = m.map(f)
    return m.split() if split else m

def polygon(pts, n=1, mats=None, split=True):
    """Closed polygon (2D, counter-clockwise corners), n cells per side."""
    pts = np.array(pts, float); k = len(pts); v = []; cells = []; mat = []
    for i in range(k):
        a, b = pts[i], pts[(i + 1) % k]
        for j in range(n):
            v.append(a + (b - a) * j / n)
            cells.append([len(v) - 1, len(v)]); mat.append(mats[i] if mats else i + 1)
    cells[-1][1] = 0
    # deal.II's normal of a line in the plane is (t_y, -t_x) up to the direction of the cell: see orient()
    m = Mesh(2, v, cells, mat)
    return m.split() if split else m

def ngon(k, r=1.0, c=(0, 0), mats=None, split=True, axes=(1, 1), n=1, phase=0.0):
    return polygon([(c[0] + r * axes[0] * math.cos(2 * math.pi * i / k + phase), c[1] + r * axes[1] * math.sin(2 * math.pi * i / k + phase)) for i in range(k)],
                   n, mats or [1] * k, split)

def bump(m, amp, k=1.0, phase=0.0):
    """Smooth deformation that keeps coincident vertices coincident."""
    def f(p):
        q = np.array(p, float)
        d = len(q)
        return q + amp * np.array([math.sin(k * (q[(i + 1) % d] * 1.3 + 0.4 * i) + phase + q[i] * 0.7) for i in range(d)])
    return m.map(f)

def rotation(rng, dim):
    if dim == 2:
        t = rng.uniform(0, 2 * math.pi)
        return np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q

# ---- harmonic functions, written for the program's function parser ---------
HARM3 = ["x+2*y-3*z", "x*y+z", "x*x-y*y+0.5*z", "x*z-2*y", "2*z*z-x*x-y*y+x", "x*y*z+0.3*x", "x*x*x-3*x*y*y+z", "1/sqrt((x-3)^2+(y-2.5)^2+(z-4)^2)", "exp(x/2)*cos(3*y/10)*cos(2*z/5)"]
HARM2 = ["x+2*y", "x*y-0.3*x", "x*x-y*y+y", "x^3-3*x*y*y+y", "exp(x/2)*cos(y/2)", "log((x-3)^2+(y-2.5)^2)"]
def sym_harm(expr, dim):
    """sympy expression -> (expression, gradient strings)."""
    import sympy as sp
    X = sp.symbols("x y z")[:dim]
    f = sp.sympify(expr.replace("^", "**"), locals={str(s): s for s in X})
    assert sp.simplify(sum(sp.diff(f, s, 2) for s in X)) == 0, expr
    tostr = lambda e: str(sp.sstr(e)).replace("**", "^")
    return tostr(f), [tostr(sp.diff(f, s)) for s in X], sp.lambdify(X, f, "numpy"), [sp.lambdify(X, sp.diff(f, s), "numpy") for s in X]

def union(a, b):
    """Two disjoint closed surfaces."""
    return Mesh(a.dim, np.vstack([a.v, b.v]), np.vstack([a.cells, b.cells + len(a.v)]), np.concatenate([a.mat, b.mat]))
def grade(m, k=2.0):
    """Grade the vertices towards one corner of the bounding box (flat axis-aligned patches stay flat)."""
    lo, hi = m.v.min(0), m.v.max(0)
    return m.map(lambda p: lo + (hi - lo) * ((p - lo) / (hi - lo)) ** k)

def flip(m):
    """The same surface with the opposite orientation (the boundary of a cavity)."""
    q = m.copy(); q.cells = q.cells[:, ::-1]; return q
def shell(n=2, ni=2, outer=(2, 2, 2), inner=(.7, .6, .8), at=(.1, -.2, .15)):
    """A box with a box-shaped cavity: the boundary of the solid between the two, labels 1-6 and 7-12."""
    return union(box((n,) * 3, outer), flip(box((ni,) * 3, inner, mats=(7, 8, 9, 10, 11, 12), center=at)))
def annulus(pts=((0, 0), (2, 0), (2, 2), (0, 2)), hole=((.6, .5), (1.3, .7), (.8, 1.4)), n=3, mats=None):
    """A polygon with a polygonal hole."""
    a = polygon(pts, n); b = polygon(hole, n, mats=[len(pts) + 1 + i for i in range(len(hole))])
    return union(a, flip(b))
def frame(n=1, w=1., h=1., split=True):
    """A square frame (genus one) with flat faces: bottom 1, top 2, outer sides 3-6, inner sides 7-10."""
    P = []; X = [0, w, 2 * w, 3 * w]
    for i in range(3):
        for j in range(3):
            if (i, j) == (1, 1): continue
            a, b, c, d = (X[i], X[j]), (X[i + 1], X[j]), (X[i + 1], X[j + 1]), (X[i], X[j + 1])
            P.append(grid_patch((*a, 0), (*d, 0), (*c, 0), (*b, 0), n, n, 1)); P.append(grid_patch((*a, h), (*b, h), (*c, h), (*d, h), n, n, 2))
    def side(p, q, mat):
        k = max(1, int(round(max(abs(p[0] - q[0]), abs(p[1] - q[1])) / w)))
        P.append(grid_patch((*p, 0), (*q, 0), (*q, h), (*p, h), n * k, n, mat))
    O = [(0, 0), (3 * w, 0), (3 * w, 3 * w), (0, 3 * w)]; I = [(w, w), (w, 2 * w), (2 * w, 2 * w), (2 * w, w)]
    for k in range(4): side(O[k], O[(k + 1) % 4], 3 + k); side(I[k], I[(k + 1) % 4], 7 + k)
    return join(P, split=split)
def torus(n=8, m=5, R=1., r=.4, mat=1):
    """A ring with a round section (smooth, genus one)."""
    v = []; cells = []
    for i in range(n):
        for j in range(m):
            a, b = 2 * math.pi * i / n, 2 * math.pi * j / m
            v.append(((R + r * math.cos(b)) * math.cos(a), (R + r * math.cos(b)) * math.sin(a), r * math.sin(b)))
            cells.append([i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m])
    return Mesh(3, v, cells, [mat] * len(cells)).orient()

def grid(name):
    """A grid of the repository, used under its own name: it comes with its curved geometry (spherical manifold)."""
    l = [q.split() for q in open("/repo/grids/" + name + ".inp") if q.strip() and not q.startswith("#")]
    nv, nc = int(l[0][0]), int(l[0][1]); ix = {q[0]: k for k, q in enumerate(l[1:1 + nv])}
    c = [q for q in l[1 + nv:1 + nv + nc] if q[2] in ("quad", "line")]; dim = 3 if c[0][2] == "quad" else 2
    m = Mesh(dim, [[float(w) for w in q[1:1 + dim]] for q in l[1:1 + nv]], [[ix[w] for w in q[3:]] for q in c], [int(q[1]) for q in c]); m.grid = name
    return m
