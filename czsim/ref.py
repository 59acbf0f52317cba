"""Independent reference model: rigid motions, regions, crystals, precedence (plain numpy)."""
import itertools

import numpy as np
from scipy.optimize import linprog
from scipy.spatial import ConvexHull, cKDTree

MATCH = 1e-5     # positions agree within this
ALG_IN, ALG_OUT = 5e-6, 2e-5     # algebraic surfaces are padded by 1e-5
HULL = 1e-6
TOL = 1e-5       # hulls: scipy's barycentric tolerance next to degenerate simplices, sqrt(Volume.tolerance)


# ---------------------------------------------------------------- motions
def axis_angle(axis, ang):
    a = np.array(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K @ K


def motion_affine(m):
    """(M, t) of a motion spec."""
    k = m["m"]
    if k == "tr":
        return np.eye(3), np.array(m["v"], float)
    if k == "multi":
        M, t = np.eye(3), np.zeros(3)
        for s in m["sub"]:
            A, b = motion_affine(s)
            M, t = A @ M, A @ t + b
        return M, t
    if k == "rot":
        M = axis_angle(m["axis"], m["ang"])
    elif k == "inv":
        M = -np.eye(3)
    elif k == "mat":
        M = axis_angle(m["axis"], m["ang"]) * (-1.0 if m.get("improper") else 1.0)
    elif k == "ref":
        n = np.array(m["n"], float)
        n = n / np.linalg.norm(n)
        M = np.eye(3) - 2.0 * np.outer(n, n)
    else:
        raise ValueError(k)
    o = m.get("o")
    o = np.zeros(3) if o is None else np.array(o, float)
    return M, o - M @ o


def motion_locked(m):
    if m["m"] == "multi":
        return any(motion_locked(s) for s in m["sub"])
    return m.get("locked", True)


def motion_basis_only(m):
    if m["m"] == "multi":
        return any(motion_basis_only(s) for s in m["sub"])
    return m.get("basis_only", False)


def move(M, t, X):
    return np.asarray(X, float) @ M.T + t


# ---------------------------------------------------------------- surfaces
class RSurf:
    def __init__(self, spec):
        self.k = spec["s"]
        self.c = np.array(spec["p"], float)
        self.r = spec.get("r")
        self.L = spec.get("L")
        if "n" in spec:
            n = np.array(spec["n"], float)
            self.n = n / np.linalg.norm(n)

    def copy(self):
        o = RSurf.__new__(RSurf)
        o.__dict__.update({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items()})
        return o

    def move(self, M, t):
        self.c = move(M, t, self.c)
        if self.k != "sph":
            self.n = M @ self.n

    def sd(self, X):
        if self.k == "sph":
            return np.linalg.norm(X - self.c, axis=1) - self.r
        if self.k == "pl":
            return (X - self.c) @ self.n
        d = X - self.c
        a = d @ self.n
        rad = np.linalg.norm(d - a[:, None] * self.n, axis=1)
        return np.maximum(rad - self.r, np.abs(a) - self.L / 2.0)

    def box(self):
        if self.k == "sph":
            return self.c - self.r, self.c + self.r
        if self.k == "cyl":
            h = np.abs(self.n) * self.L / 2 + self.r * np.sqrt(np.maximum(0, 1 - self.n ** 2))
            return self.c - h, self.c + h
        return None


def plane_vertices(planes):
    A = np.array([p.n for p in planes])
    b = np.array([p.n @ p.c for p in planes])
    V = []
    for i, j, k in itertools.combinations(range(len(planes)), 3):
        N = A[[i, j, k]]
        if abs(np.linalg.det(N)) < 1e-9:
            continue
        x = np.linalg.solve(N, b[[i, j, k]])
        if np.all(A @ x - b <= 1e-7):
            V.append(x)
    return np.array(V).reshape(-1, 3)


def planes_bounded(planes):
    """No direction leads to infinity inside all planes."""
    A = np.array([p.n for p in planes])
    for i in range(3):
        for sgn in (1, -1):
            c = np.zeros(3)
            c[i] = -sgn
            r = linprog(c, A_ub=A, b_ub=np.zeros(len(A)), bounds=[(-1, 1)] * 3)
            if r.status != 0 or -r.fun > 1e-4:
                return False
    return True


class Region:
    """Convex region: hull of points (if any) intersected with surfaces."""

    def __init__(self, pts=None, surfs=()):
        self.pts = None if pts is None else np.array(pts, float)
        self.surfs = [s if isinstance(s, RSurf) else RSurf(s) for s in surfs]
        self._eq = None

    def copy(self):
        return Region(None if self.pts is None else self.pts.copy(), [s.copy() for s in self.surfs])

    def set_pts(self, p):
        self.pts = np.array(p, float)
        self._eq = None

    def add_pts(self, p):
        p = np.array(p, float).reshape(-1, 3)
        self.pts = p if self.pts is None else np.vstack([self.pts, p])
        self._eq = None

    def move(self, M, t):
        if self.pts is not None:
            self.pts = move(M, t, self.pts)
            self._eq = None
        for s in self.surfs:
            s.move(M, t)

    def eq(self):
        if self._eq is None:
            self._eq = ConvexHull(self.pts).equations
        return self._eq

    def classify(self, X):
        X = np.asarray(X, float).reshape(-1, 3)
        out = np.ones(len(X), dtype=int)
        if self.pts is not None:
            e = self.eq()
            s = np.max(X @ e[:, :3].T + e[:, 3], axis=1)
            # a point in a simplex padded by TOL is at most 3 * TOL * diameter outside the hull
            far = HULL + 3.3 * TOL * np.linalg.norm(np.ptp(self.pts, axis=0))
            out = np.minimum(out, np.where(s < -HULL, 1, np.where(s > far, -1, 0)))
        for f in self.surfs:
            s = f.sd(X)
            out = np.minimum(out, np.where(s < ALG_IN, 1, np.where(s > ALG_OUT, -1, 0)))
        return out

    def aabb(self):
        """Box enclosing the region (None if unbounded or unknown)."""
        bs = []
        if self.pts is not None:
            bs.append((self.pts.min(0), self.pts.max(0)))
        for s in self.surfs:
            b = s.box()
            if b is not None:
                bs.append(b)
        pl = [s for s in self.surfs if s.k == "pl"]
        if not bs and len(pl) > 3:
            v = plane_vertices(pl)
            if len(v) > 3 and planes_bounded(pl):
                bs.append((v.min(0), v.max(0)))
        if not bs:
            return None
        lo = np.max([b[0] for b in bs], axis=0)
        hi = np.min([b[1] for b in bs], axis=0)
        return lo, hi


# ---------------------------------------------------------------- crystals
class Crystal:
    def __init__(self, B, frac, Z, o):
        self.B = np.array(B, float)       # columns are lattice vectors
        self.frac = np.array(frac, float).reshape(-1, 3)
        self.Z = np.array(Z, int)
        self.o = np.array(o, float)
        self.scale = np.ones(1)           # part of B
        self.strain = None

    def copy(self):
        c = Crystal(self.B.copy(), self.frac, self.Z, self.o.copy())
        c.scale = self.scale.copy()
        c.strain = None if self.strain is None else self.strain.copy()
        return c

    def rescale(self, s):
        s = np.array(s, float)
        self.B = self.B / self.scale * s
        self.scale = s

    def move(self, m):
        M, t = motion_affine(m)
        self.B = M @ self.B
        if not motion_basis_only(m):
            self.o = move(M, t, self.o)

    def sites(self, lo, hi):
        """All sites in the box [lo-0.01, hi+0.01]."""
        if np.any(hi < lo):
            return np.empty((0, 3)), np.empty(0, int)
        lo, hi = lo - 0.01, hi + 0.01
        c = np.array(list(itertools.product(*zip(lo, hi))))
        f = np.linalg.solve(self.B, (c - self.o).T).T
        a = np.floor(f.min(0)).astype(int) - 2
        b = np.ceil(f.max(0)).astype(int) + 2
        g = np.stack(np.meshgrid(*[np.arange(x, y + 1) for x, y in zip(a, b)], indexing="ij"), -1).reshape(-1, 3)
        P = (g[:, None, :] + self.frac[None]).reshape(-1, 3) @ self.B.T + self.o
        Z = np.tile(self.Z, len(g))
        k = np.all((P >= lo) & (P <= hi), axis=1)
        return P[k], Z[k]


# ---------------------------------------------------------------- objects
class RVol:
    def __init__(self, region, crystal, prio):
        self.region, self.crystal, self.prio = region, crystal, prio

    def copy(self):
        return RVol(self.region.copy(), None if self.crystal is None else self.crystal.copy(), self.prio)

    def move(self, m):
        M, t = motion_affine(m)
        self.region.move(M, t)
        if motion_locked(m) and self.crystal is not None:
            self.crystal.move(m)

    def classify(self, X):
        return self.region.classify(X)

    def cands(self):
        """Candidate atoms: positions, species, status (1 required, 0 allowed)."""
        if self.crystal is None:
            return np.empty((0, 3)), np.empty(0, int), np.empty(0, int)
        b = self.region.aabb()
        if self.crystal.strain is not None:
            # sites displaced inside the region must be there, sites displaced into it may be
            w = np.maximum(b[1] - b[0], 0) * 0.5 + 8.0
            P0, Z = self.crystal.sites(b[0] - w, b[1] + w)
            P = self.crystal.strain.image(self.crystal, P0)
            s = self.classify(P)
            s = np.where(self.classify(P0) == 1, s, np.minimum(s, 0))
        else:
            P, Z = self.crystal.sites(*b)
            s = self.classify(P)
        k = s >= 0
        return P[k], Z[k], s[k]


class RMulti:
    def __init__(self, ch, prio):
        self.ch, self.prio = list(ch), prio

    def copy(self):
        return RMulti([c.copy() for c in self.ch], self.prio)

    def move(self, m):
        for c in self.ch:
            c.move(m)

    def classify(self, X):
        out = np.full(len(np.asarray(X).reshape(-1, 3)), -1)
        for c in self.ch:
            out = np.maximum(out, c.classify(X))
        return out

    def cands(self):
        return precedence(self.ch)[0]


class RMol:
    def __init__(self, Z, X, prio):
        self.Z, self.X, self.prio = np.array(Z, int), np.array(X, float), prio

    def copy(self):
        return RMol(self.Z.copy(), self.X.copy(), self.prio)

    def move(self, m):
        M, t = motion_affine(m)
        self.X = move(M, t, self.X)

    def classify(self, X):
        return np.full(len(np.asarray(X).reshape(-1, 3)), -1)

    def cands(self):
        return self.X, self.Z, np.ones(len(self.Z), int)


def precedence(objs):
    """Survivors of each object among others of equal or more dominant priority."""
    per = []
    for i, o in enumerate(objs):
        P, Z, s = o.cands()
        s = s.copy()
        for j, q in enumerate(objs):
            if i != j and q.prio <= o.prio and len(P):
                c = q.classify(P)
                s = np.where(c == 1, -1, np.where(c == 0, np.minimum(s, 0), s))
        k = s >= 0
        per.append((P[k], Z[k], s[k]))
    if per:
        allc = (np.vstack([p[0] for p in per]), np.hstack([p[1] for p in per]), np.hstack([p[2] for p in per]))
    else:
        allc = (np.empty((0, 3)), np.empty(0, int), np.empty(0, int))
    return allc, per


def compare(atoms, species, cand, what="atoms"):
    """None if (atoms, species) is an admissible realisation of cand; else (kind, message)."""
    P, Z, s = cand
    A = np.asarray(atoms, float)
    S = np.asarray(species)
    if A.ndim != 2 or A.shape[1:] != (3,) or S.shape != (A.shape[0],):
        return "shape", f"{what}: positions {A.shape} and species {S.shape} do not belong together"
    if not np.all(np.isfinite(A)):
        return "nan", f"{what}: positions are not finite"
    if len(A) == 0 and not np.any(s == 1):
        return None
    if len(P) == 0:
        return "extra", f"{what}: {len(A)} atoms where none belong"
    tP = cKDTree(P)
    if len(A):
        d, i = tP.query(A)
        bad = np.nonzero(d > MATCH)[0]
        if len(bad):
            b = bad[0]
            return "extra", f"{what}: {len(bad)} of {len(A)} atoms at no admissible site, e.g. {np.round(A[b], 5).tolist()} (Z={S[b]}), nearest site {d[b]:.5f} away"
        if not np.all(S == np.round(S)):
            return "species", f"{what}: species are not atomic numbers"
    for z in sorted(set(Z.tolist()) | set(S.astype(int).tolist())):
        p = P[Z == z]
        a = A[S == z]
        if len(a) and len(p) == 0:
            return "species", f"{what}: {len(a)} atoms of unexpected species {z}"
        if len(p) == 0:
            continue
        st = s[Z == z]
        if len(a):
            d, _ = cKDTree(p).query(a)
            if np.any(d > MATCH):
                b = np.nonzero(d > MATCH)[0][0]
                return "species", f"{what}: atom at {np.round(a[b], 5).tolist()} has species {z}, which no site there has"
            n = np.array(cKDTree(a).query_ball_point(p, MATCH, return_length=True))
        else:
            n = np.zeros(len(p), int)
        req = p[st == 1]
        nreq = np.zeros(len(p), int) if len(req) == 0 else np.array(cKDTree(req).query_ball_point(p, MATCH, return_length=True))
        nopt = np.array(cKDTree(p).query_ball_point(p, MATCH, return_length=True))
        m = np.nonzero(n < nreq)[0]
        if len(m):
            return "missing", f"{what}: {len(m)} of {len(req)} required sites of species {z} are empty, e.g. {np.round(p[m[0]], 5).tolist()}"
        m = np.nonzero(n > nopt)[0]
        if len(m):
            return "duplicate", f"{what}: {len(m)} sites of species {z} hold more than one atom, e.g. {np.round(p[m[0]], 5).tolist()}"
    return None
