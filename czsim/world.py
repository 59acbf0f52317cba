"""Worlds: JSON specs -> real czone objects plus their reference twins, and edit histories."""
import copy

import numpy as np

from . import seams
from .core import INJ, InjectedFailure, Violation, adig, derive
from .ref import (Crystal, Region, RMol, RMulti, RSurf, RVol, compare, motion_affine, plane_vertices,
                  precedence)


# ====================================================================== random specs
def r6(x):
    return round(float(x), 6)


def rvec(r, s=1.0):
    return [r6(r.gauss(0, s)) for _ in range(3)]


def runit(r):
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        n = sum(x * x for x in v) ** 0.5
        if n > 0.1:
            return [r6(x / n) for x in v]


AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 1, 1], [1, -1, 0], [0, 0, -1]]


def gen_dir(r):
    return list(map(float, r.choice(AXES))) if r.random() < 0.3 else runit(r)


SPECIES = [1, 6, 8, 14, 22, 26, 29, 38, 46, 79, 92]
SG = [
    {"sg": 225, "cell": [4.08] * 3, "ang": [90] * 3, "Z": [79], "frac": [[0, 0, 0]]},
    {"sg": 229, "cell": [2.87] * 3, "ang": [90] * 3, "Z": [26], "frac": [[0, 0, 0]]},
    {"sg": 227, "cell": [5.43] * 3, "ang": [90] * 3, "Z": [14], "frac": [[0, 0, 0]]},
    {"sg": 225, "cell": [5.64] * 3, "ang": [90] * 3, "Z": [11, 17], "frac": [[0, 0, 0], [.5, .5, .5]]},
    {"sg": 186, "cell": [3.25, 3.25, 5.2], "ang": [90, 90, 120], "Z": [30, 8],
     "frac": [[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, 0.382]]},
    {"sg": 194, "cell": [2.95, 2.95, 4.68], "ang": [90, 90, 120], "Z": [22], "frac": [[1 / 3, 2 / 3, .25]]},
]


def gen_crystal(r, simple=False, cb=0.0):
    c = r.random()
    if c < 0.3 and not simple:
        g = dict(r.choice(SG))
    elif c < 0.5 or simple:
        a = r.choice([3.0, 4.0, r6(r.uniform(3, 5))])
        g = {"cell": [a, a, a], "ang": [90.0] * 3}
    elif c < 0.65:
        g = {"cell": [r6(r.uniform(3, 6)) for _ in range(3)], "ang": [90.0] * 3}
    elif c < 0.69 and not simple:      # cell larger than most regions
        g = {"cell": [r6(r.uniform(8, 16)) for _ in range(3)], "ang": [90.0, r.choice([90.0, 75.0, 110.0]), 90.0], "n": 9}
    else:
        while True:
            ang = [r.choice([90.0, 120.0, 60.0, r6(r.uniform(65, 115))]) for _ in range(3)]
            ca, cb_, cg = [np.cos(np.radians(x)) for x in ang]
            v = 1 - ca * ca - cb_ * cb_ - cg * cg + 2 * ca * cb_ * cg
            if v > 0.15:
                break
        g = {"cell": [r6(r.uniform(3, 5.5)) for _ in range(3)], "ang": ang}
    if "frac" not in g:
        n = g.pop("n", None) or r.choice([1, 1, 2, 2, 3, 4])
        fr, Z = [], []
        grid = [0.0, 0.25, 0.5, 0.75]
        while len(fr) < n:
            f = [r.choice(grid) if r.random() < 0.6 else round(r.random() * 0.99, 3) for _ in range(3)]
            if all(max(min(abs(x - y), 1 - abs(x - y)) for x, y in zip(f, h)) > 0.15 for h in fr):
                fr.append(f)
                Z.append(r.choice(SPECIES))
        if not simple and r.random() < 0.12:      # split site: two sites almost on top of each other
            f = r.choice(fr)
            d = r.choice([0.006, 0.01, 0.02, 0.03])
            i = r.randrange(3)
            fr.append([x + (d if j == i else 0.0) for j, x in enumerate(f)])
            Z.append(r.choice(SPECIES))
        g["frac"], g["Z"] = fr, Z
    g["g"] = "x"
    c = r.random()
    g["o"] = None if c < 0.35 else (rvec(r, 4.0) if c < 0.85 else [float(r.randint(-6, 6)) for _ in range(3)])
    if r.random() < 0.15:
        g["scale"] = r6(r.uniform(0.9, 1.2)) if r.random() < 0.6 else [r6(r.uniform(0.9, 1.2)) for _ in range(3)]
    if r.random() < cb:
        g["cb"] = True
    return g


def gen_source(r, prof):
    c = r.random()
    if c < prof.get("p_null", 0.08):
        return {"g": "null"}
    if c < prof.get("p_null", 0.08) + prof.get("p_am", 0.0):
        return {"g": "am", "Z": r.choice([6, 14, 8]), "d": r6(r.uniform(1.3, 2.0)), "rho": r6(r.uniform(0.01, 0.03))}
    return gen_crystal(r, cb=prof.get("cb", 0.0))


def gen_points(r, c, size):
    k = r.random()
    if k < 0.5:      # box, aligned or rotated
        d = [r6(r.uniform(0.6, 1.4) * size) if r.random() < 0.7 else float(max(2, round(size))) for _ in range(3)]
        P = np.array([[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)], float) * d - np.array(d) / 2
        if r.random() < 0.6:
            M, _ = motion_affine({"m": "rot", "axis": gen_dir(r), "ang": r.uniform(0, 6.28)})
            P = P @ M.T
        elif r.random() < 0.5:
            c = [float(round(x)) for x in c]
    else:
        n = r.randint(5, 12) if r.random() < 0.9 else r.choice([40, 70, 140, 260])
        lo = 0.5 if n < 20 or r.random() < 0.5 else 0.0       # large sets may lie mostly inside
        P = np.array([np.array(runit(r)) * r.uniform(lo, 0.8) * size for _ in range(n)])
    P = P + np.array(c)
    return [[r6(x) for x in p] for p in P]


def gen_polytope(r, c, size):
    c = np.array(c, float)
    M = np.eye(3)
    if r.random() < 0.7:
        M, _ = motion_affine({"m": "rot", "axis": gen_dir(r), "ang": r.uniform(0, 6.28)})
    if r.random() < 0.7:
        ns = [s * np.eye(3)[i] for i in range(3) for s in (1, -1)]
    else:
        ns = [np.array(v, float) / 3 ** .5 for v in ([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1])]
    out = []
    for n in ns:
        n = M @ n
        p = c + n * r.uniform(0.35, 0.6) * size
        # any point on the plane will do
        q = np.array(rvec(r, 3.0))
        p = p + q - n * (q @ n)
        out.append({"s": "pl", "n": [float(x) for x in n * r.choice([1.0, 1.0, 2.5])], "p": [float(x) for x in p]})
    r.shuffle(out)
    return out


def sprawling(surfs, pts):
    """Whether the planes of a region enclose something by far larger than the region, of which the product makes its box."""
    pl = [s for s in surfs if s.k == "pl"]
    if pts is not None or len(pl) < 4 or any(s.k == "sph" for s in surfs):
        return False
    v = plane_vertices(pl)
    return len(v) > 3 and bool(np.any(np.ptp(v, axis=0) > 100))


def gen_region(r, spread=4.0, size=None, kinds=None, rare=False):
    size = size or r.uniform(5, 11) * (1.0 if r.random() > 0.02 * rare else r.uniform(2, 4))
    c = rvec(r, spread)
    if r.random() < 0.2:
        c = [float(round(x)) for x in c]
    if r.random() < 0.1:
        c = [x + r.choice([-60.0, 60.0]) for x in c]
    elif r.random() < 0.03 * rare:
        c = [x + r.choice([-1, 1]) * r.choice([300.0, 1500.0, 4000.0]) for x in c]
    k = r.choice(kinds or ["pts", "pts", "sph", "sph", "cyl", "poly", "sphpl", "ptssph", "ptspl", "cylpl", "ptscyl", "sph2"])
    pts, alg = None, []
    if k.startswith("pts"):
        pts = gen_points(r, c, size)
    if "sph" in k:
        rad = size / 2 * r.uniform(0.9, 1.3)
        if r.random() < 0.2:
            rad = float(max(2, round(rad)))
        cc = c if k in ("sph", "sphpl", "sph2") else [x + y for x, y in zip(c, rvec(r, 1.0))]
        alg.append({"s": "sph", "p": [r6(x) for x in cc], "r": r6(rad)})
    if k == "sph2":
        alg.append({"s": "sph", "p": [r6(x + y) for x, y in zip(c, rvec(r, 1.5))], "r": r6(rad * r.uniform(0.8, 1.2))})
    if "cyl" in k:
        alg.append({"s": "cyl", "p": [r6(x) for x in c], "n": gen_dir(r), "r": r6(size / 2 * r.uniform(.6, 1)),
                    "L": r6(size * r.uniform(0.7, 1.4))})
    if k == "poly":
        alg += gen_polytope(r, c, size * 1.1)
    elif k.endswith("pl"):
        for _ in range(r.randint(1, 2)):
            n = gen_dir(r)
            alg.append({"s": "pl", "n": n, "p": [r6(x + r.uniform(-1, 2.5) * y) for x, y in zip(c, n)]})
    if r.random() < 0.03:      # many surfaces that cut little or nothing
        if k.startswith("cyl"):        # boxes of planes are used before those of cylinders: keep them small
            alg += gen_polytope(r, c, size * 1.4)
        for _ in range(r.choice([6, 9, 17])):
            n = runit(r)
            alg.append({"s": "pl", "n": n, "p": [r6(x + size * r.uniform(0.3, 0.8) * y) for x, y in zip(c, n)]})
    if k != "sph2":
        r.shuffle(alg)
    return {"pts": pts, "alg": alg}


def gen_prio(r):
    if r.random() < 0.05:
        return r.choice([127, 128, 255, 256, -129, 1000, 70000, -70000, 2 ** 31, -2 ** 40])
    return r.choice([0, 0, 1, 1, 2, 3, -1, 5, -4, 100])


def gen_vol(r, prof):
    v = gen_region(r, prof.get("spread", 4.0), prof.get("size"), prof.get("kinds"), prof.get("rare", False))
    v.update(k="vol", gen=gen_source(r, prof), prio=gen_prio(r))
    if r.random() < 0.15 and v["gen"]["g"] == "x":
        v["gen_origin"] = rvec(r, 3.0)
    if r.random() < 0.1:
        v["ltor"] = True       # add everything after construction
    return v


def gen_multi(r, prof, depth=0):
    n = r.randint(1, 3) if depth or r.random() < 0.95 else r.choice([5, 8, 10])
    ch = [gen_multi(r, prof, depth + 1) if depth < 3 and r.random() < (0.2, 0.25, 0.25)[depth] else gen_vol(r, prof) for _ in range(n)]
    return {"k": "multi", "ch": ch, "prio": gen_prio(r)}


def gen_mol(r, spread=5.0):
    n = r.randint(1, 6) if r.random() < 0.94 else r.choice([12, 30, 70])
    c = rvec(r, spread)
    X = [[r6(a + b) for a, b in zip(c, rvec(r, 1.5))] for _ in range(n)]
    if r.random() < 0.1:
        X = [[float(round(a)) + i for a in x] for i, x in enumerate(X)]
    m = {"k": "mol", "Z": [r.choice(SPECIES) for _ in range(n)], "X": X, "prio": gen_prio(r)}
    c = r.random()
    if c < 0.45:
        m["oidx"] = r.randrange(n)
    elif c < 0.8:
        m["o"] = rvec(r, 3.0)
    elif c < 0.9:
        m["o"] = [float(r.randint(-1, 1)) if r.random() < 0.3 else 0.0 for _ in range(3)]
    # else: default origin
    if r.random() < 0.25:      # replaces an atom of some crystal
        m["sit"] = [r.randrange(9), r.choice([0.0, 0.02, 0.05])]
    return m


def gen_obj(r, prof):
    c = r.random()
    if c < prof.get("p_mol", 0.0):
        return gen_mol(r)
    if c < prof.get("p_mol", 0.0) + prof.get("p_multi", 0.25):
        return gen_multi(r, prof)
    return gen_vol(r, prof)


def gen_motion(r, depth=0, flags=None):
    flags = flags if flags is not None else {"locked": r.random() < 0.7, "basis_only": r.random() < 0.08}
    k = r.choice(["tr", "tr", "rot", "rot", "rot", "ref", "ref", "inv", "mat", "multi"] if depth == 0
                 else ["tr", "rot", "ref", "inv", "mat"])
    if k == "multi":
        sub = [gen_motion(r, 1, flags) for _ in range(r.choice([2, 2, 3, 3, 4]))]
        if r.random() < 0.25:      # one coupled part couples the whole
            for m in sub:
                m["locked"] = r.random() < 0.3
        if r.random() < 0.15:
            sub.insert(r.randrange(3), {"m": "multi", "sub": [gen_motion(r, 1, flags) for _ in range(2)]})
        return {"m": "multi", "sub": sub}
    m = {"m": k, **flags}
    c = r.random()
    o = None if c < 0.35 else rvec(r, 5.0) if c < 0.92 else [0.0, 0.0, 0.0] if c < 0.96 else [float(r.randint(-4, 4)) for _ in range(3)]
    if k == "tr":
        c = r.random()
        m["v"] = (rvec(r, 4.0) if c < 0.75 else [float(r.randint(-5, 5)) for _ in range(3)] if c < 0.93
                  else [r6(r.gauss(0, 4) * (i == 0)) for i in range(3)] if c < 0.97 else [0.0, 0.0, 0.0])
        return m
    if k in ("rot", "mat"):
        m["axis"] = gen_dir(r)
        m["ang"] = r.choice([1.5707963267948966, 3.141592653589793, r6(r.uniform(-6, 6))])
        if k == "mat":
            m["improper"] = r.random() < 0.5
    if k == "ref":
        m["n"] = gen_dir(r)
        o = rvec(r, 4.0)
    m["o"] = o
    return m


# ====================================================================== building
def cz():
    import czone.generator as G
    import czone.molecule.molecule as Mo
    import czone.scene as S
    import czone.transform as T
    import czone.transform.post as Po
    import czone.volume as V
    import czone.volume.algebraic as A

    class N:
        pass
    n = N()
    n.G, n.Mo, n.S, n.T, n.Po, n.V, n.A = G, Mo, S, T, Po, V, A
    return n


C = None


def mods():
    global C
    if C is None:
        C = cz()
    return C


def forms(s, *keys):
    """The values of a spec as callers write them: float or integer arrays, lists; chosen by the values themselves."""
    out = []
    for k in keys:
        v = s.get(k) if isinstance(s, dict) else s
        if v is None:
            out.append(None)
            continue
        a = np.array(v, float)
        h = derive("form", k, a.tolist()) % 4
        if h == 0 and np.all(a == np.round(a)):
            a = a.astype(int)
        elif h == 1 and a.ndim == 2:
            a = np.asfortranarray(a)
        elif h == 2 and a.ndim == 1:
            a = a.tolist()
        out.append(a)
    return out[0] if len(out) == 1 else out


def scale_form(s):
    """A scale as callers write it: number, array of one or three, row."""
    s = np.array(s, float).reshape(-1)
    h = derive("scale", s.tolist()) % 3
    return s.reshape(1, 3) if h == 0 and len(s) == 3 else float(s[0]) if h == 0 else s


def build_surf(s):
    A = mods().A
    p = forms(s, "p")
    n = forms(s, "n") if s["s"] != "sph" else None
    a = A.Sphere(s["r"], p) if n is None else A.Plane(n, p) if s["s"] == "pl" else A.Cylinder(n, p, s["r"], s["L"])
    scrawl(n, p)
    return a


def build_motion(m):
    if m["m"] == "multi":
        return _build_motion(m, None, None, None)
    v = forms(m, "v"), forms(m, "n"), forms(m, "o")
    t = _build_motion(m, *v)
    scrawl(*v)
    return t


def _build_motion(m, v, n, o):
    T, A = mods().T, mods().A
    if m["m"] == "multi":
        sub = [build_motion(s) for s in m["sub"]]
        if derive("multi", repr(m)) % 3:
            return T.MultiTransform(sub)
        mt = T.MultiTransform(sub[:1])
        for t in sub[1:]:
            mt.add_transform(t)
        return mt
    f = {"locked": m.get("locked", True), "basis_only": m.get("basis_only", False)}
    if m["m"] == "tr":
        return T.Translation(v, **f)
    M, _ = motion_affine({**m, "o": None})
    if m["m"] == "rot":
        return T.Rotation(M, origin=o, **f)
    if m["m"] == "inv":
        return T.Inversion(origin=o, **f)
    if m["m"] == "mat":
        return T.MatrixTransform(M, origin=o, **f)
    if m["m"] == "ref":
        return T.Reflection(A.Plane(n, o), **f)
    raise ValueError(m)


def scrawl(*xs):
    """What callers may do to things they have handed over: objects keep what they were given."""
    c = mods()
    for x in xs:
        if isinstance(x, np.ndarray):
            x *= 3
            x += 1
        elif isinstance(x, list):
            x[:] = [-7.0] * len(x)
        elif isinstance(x, c.A.Sphere):
            x.center[:] = 5
            x.radius = x.radius + 4.0
        elif isinstance(x, c.A.Plane):
            x.point[:] = 5
            x.normal[:] = -x.normal
        elif isinstance(x, c.A.Cylinder):
            x.point[:] = 5
            x.axis[:] = x.axis[::-1].copy()
            x.length = x.length + 4.0
        elif isinstance(x, c.G.Generator):
            x.voxel.bases[:] *= 1.5
            x.origin = np.array([1.0, 2.0, 3.0])
        elif isinstance(x, c.G.AmorphousGenerator):
            x.species, x.density, x.min_dist, x.use_old_result = 92, 1e-4, 3.0, True


def variant(P, q, how):
    """Points much like the current ones: same extent, number, centre or members, another hull."""
    from scipy.spatial import ConvexHull
    P = P.copy()
    lo, hi = P.min(0), P.max(0)
    if how.startswith("mirror"):         # same extent, to the last bit
        k = int(how[-1])
        x = P[:, k].copy()
        P[:, k] = np.where(x == lo[k], hi[k], np.where(x == hi[k], lo[k], lo[k] + hi[k] - x))
    elif how == "one":
        P[0] = q[0]
    elif how == "turn":
        c = P.mean(0)
        P = (P - c)[:, [1, 2, 0]] + c
    elif how == "drop":
        P = P[1:]
    else:
        P = P[::-1]
    try:
        ok = len(P) >= 4 and ConvexHull(P).volume > 5.0
    except Exception:
        ok = False
    return np.ascontiguousarray(P) if ok else None


class World:
    def __init__(self, sim):
        self.sim = sim
        self.motions = []
        self.tops = []          # top-level nodes
        self.scene = None
        self.fail_at = None     # failing callback: k-th call raises
        self.cb_calls = 0
        self._post = None

    # -------------------------------------------------------------- callbacks
    def callback(self, pts, sp):
        self.cb_calls += 1
        if self.fail_at is not None:
            self.fail_at -= 1
            if self.fail_at <= 0:
                self.fail_at = None
                raise InjectedFailure("callback")
        return pts, sp

    def source(self, g):
        """(czone generator, reference crystal or None)"""
        G = mods().G
        if g["g"] == "none":
            return None, None
        if g["g"] == "null":
            return G.NullGenerator(), None
        if g["g"] == "am":
            return G.AmorphousGenerator(min_dist=g["d"], density=g["rho"], species=g["Z"]), "am"
        from pymatgen.core import Lattice, Structure
        L = Lattice.from_parameters(*g["cell"], *g["ang"])
        o = g.get("o")
        kw = {} if o is None else {"origin": np.array(o, float)}
        if "sg" in g:
            st = Structure.from_spacegroup(g["sg"], L, g["Z"], g["frac"])
            gen = G.Generator.from_spacegroup(g["Z"], g["frac"], g["cell"], g["ang"], sgn=g["sg"], **kw)
        else:
            st = Structure(L, g["Z"], g["frac"])
            if g.get("scale") and o is not None:
                gen = G.Generator(structure=st, **kw)
            else:
                gen = G.Generator.from_unit_cell(g["Z"], g["frac"], g["cell"], g["ang"], **kw)
        B = L.matrix.T.copy()
        if g.get("scale"):
            gen.voxel.scale = scale_form(g["scale"])
        if g.get("cb"):
            gen.post_transform = mods().Po.ArbitraryPostTransform(CB(self))
        cry = Crystal(B, st.frac_coords, st.atomic_numbers, np.zeros(3) if o is None else o)
        if g.get("scale"):
            cry.rescale(np.array(g["scale"]).reshape(-1))
        return gen, cry

    def build(self, s):
        V, Mo = mods().V, mods().Mo
        if s["k"] == "mol":
            if s.get("sit"):
                s = self.sit(s)
            kw = {"origin": s["oidx"]} if "oidx" in s else {"origin": np.array(s["o"], float)} if "o" in s else {}
            X = forms(s, "X")
            ob = Mo.Molecule(np.array(s["Z"]), X, **kw)
            scrawl(X, *kw.values())
            ob.print_warnings = False
            ob.priority = s["prio"]
            ref = RMol(s["Z"], s["X"], s["prio"])
            ref.oidx = s.get("oidx")
            ref.o = None if "oidx" in s else np.array(s.get("o", [0, 0, 0]), float)
            return Node(ob, ref, "mol")
        if s["k"] == "multi":
            ch = [self.build(c) for c in s["ch"]]
            ob = V.MultiVolume([c.ob for c in ch], priority=s["prio"])
            n = Node(ob, RMulti([c.ref for c in ch], s["prio"]), "multi")
            n.ch = ch
            return n
        gen, cry = self.source(s["gen"])
        pts = forms(s, "pts")
        alg = [build_surf(a) for a in s["alg"]]
        go = s.get("gen_origin")
        if s.get("ltor"):
            ob = V.Volume(points=pts, priority=s["prio"])
            for a in alg:
                ob.add_alg_object(a)
            ob.add_generator(gen, None if go is None else np.array(go, float))
        else:
            kw = {} if go is None else {"gen_origin": np.array(go, float)}
            ob = V.Volume(points=pts, alg_objects=alg if alg else None, generator=gen, priority=s["prio"], **kw)
        if go is not None and isinstance(cry, Crystal):
            cry.o = np.array(go, float)
        scrawl(pts, *alg, gen)
        return Node(ob, self.rvol(s, cry), "vol")

    def sit(self, s):
        """The molecule with its first atom on a site of a crystal built before."""
        cs = [n.ref.crystal for n in self.flat(("vol",)) if isinstance(n.ref.crystal, Crystal)]
        if not cs:
            return s
        x = np.array(s["X"], float)
        P, _ = cs[s["sit"][0] % len(cs)].sites(x[0] - 6, x[0] + 6)
        if not len(P):
            return s
        p = P[np.argmin(np.sum((P - x[0]) ** 2, axis=1))]
        return {**s, "X": (x + (p + [s["sit"][1], 0, 0] - x[0])).tolist()}

    @staticmethod
    def rvol(s, cry):
        v = RVol(Region(s["pts"], [RSurf(a) for a in s["alg"]]), cry if isinstance(cry, Crystal) else None, s["prio"])
        v.am = cry == "am" if isinstance(cry, str) else False
        return v

    # -------------------------------------------------------------- lookup
    def flat(self, kinds=("vol", "multi", "mol")):
        out = []

        def rec(n):
            if n.kind in kinds:
                out.append(n)
            for c in n.ch:
                rec(c)
        for n in self.tops:
            rec(n)
        return out

    def pick(self, i, kinds, top=False):
        c = [n for n in self.tops if n.kind in kinds] if top else self.flat(kinds)
        return c[i % len(c)] if c else None

    # -------------------------------------------------------------- history ops
    def call(self, label, fn):
        """Run code under test; nothing may go wrong here."""
        try:
            return fn()
        except INJ:
            raise
        except Violation:
            raise
        except Exception as e:
            raise Violation("error", f"{label} raised {type(e).__name__}: {e}")

    def motion(self, op):
        """Motion object of an operation: a new one, or one used before, changed in place or not."""
        T, m = build_motion(op["m"]), op["m"]
        if op.get("again") is not None and self.motions:
            T, m = self.motions[op["again"] % len(self.motions)]
            n = op["m"]
            if m["m"] == n["m"] != "multi" and derive("redefine", op["again"], m["m"]) % 2:
                m = self.redefine(T, m, n)
                self.motions[op["again"] % len(self.motions)] = (T, m)
        else:
            self.motions.append((T, m))
        return T, {**op, "m": m}

    def redefine(self, T, m, n):
        """Turn the motion T = m into n by its setters (locked and basis_only stay)."""
        A = mods().A

        def f():
            v = forms(n, "v"), forms(n, "n"), forms(n, "o")
            if m["m"] == "tr":
                T.shift = v[0]
            elif m["m"] == "ref":
                T.plane = A.Plane(v[1], v[2])
            else:
                if n.get("o") is not None:
                    T.origin = v[2]
                if m["m"] in ("rot", "mat"):
                    T.matrix = motion_affine({**n, "o": None})[0]
            scrawl(*v)
        self.call("redefinition of a motion", f)
        new = {**n, **{k: m[k] for k in ("locked", "basis_only")}}
        if m["m"] not in ("tr", "ref") and n.get("o") is None:
            new["o"] = m.get("o")
        return new

    def edit(self, op):
        """Apply a defining edit to object and reference. Returns False if not applicable."""
        k = op["op"]
        if k == "move":
            n = self.pick(op["t"], ("vol", "multi", "mol"), top=op.get("top", False))
            if n is None:
                return False
            T, op = self.motion(op)
            if op.get("via") == "copy":
                if len(self.tops) >= 6 or n not in self.tops:
                    return False
                cp = self.copy_node(n, [T], op.get("gen"))
                move_ref(cp, op["m"])
                self.tops.append(cp)
                if self.scene is not None and op.get("add", True):
                    self.call("add_object", lambda: self.scene.add_object(cp.ob))
                    cp.in_scene = True
            else:
                for _ in range(op.get("rep", 1)):
                    self.call("transform", lambda: n.ob.transform(T))
                    move_ref(n, op["m"])
        elif k == "genmove":
            n = self.pick(op["t"], ("vol",))
            if n is None or n.ref.crystal is None:
                return False
            T, op = self.motion(op)
            self.call("generator.transform", lambda: n.ob.generator.transform(T))
            n.ref.crystal.move(op["m"])
        elif k == "genset":
            n = self.pick(op["t"], ("vol",))
            if n is None or n.ref.crystal is None:
                return False
            c = n.ref.crystal

            def f():
                if op.get("o") is not None:
                    n.ob.generator.origin = np.array(op["o"], float)
                if op.get("sc") is not None:
                    n.ob.generator.voxel.scale = scale_form(op["sc"])
            self.call("generator.origin/scale", f)
            if op.get("o") is not None:
                c.o = np.array(op["o"], float)
            if op.get("sc") is not None:
                c.rescale(op["sc"])
        elif k == "recolour":          # same sites, other species
            n = self.pick(op["t"], ("vol",))
            if n is None or n.ref.crystal is None:
                return False
            c, g = n.ref.crystal, n.ob.generator
            new = {int(z): op["z"][i % len(op["z"])] for i, z in enumerate(sorted(set(c.Z.tolist())))}
            Z = np.array([new[int(z)] for z in c.Z])
            if op["how"] == "post":
                if g.post_transform is not None:
                    return False

                def f():
                    g.post_transform = mods().Po.ChemicalSubstitution(list(new), list(new.values()), 1.0)
                self.call("post_transform", f)
            else:
                if g.post_transform is not None or any(int(a) != int(b) for a, b in zip(np.array(g.species), c.Z)):
                    return False
                from pymatgen.core import Structure

                def f():
                    g.structure = Structure(g.structure.lattice, [int(z) for z in Z], np.array(g.coords))
                L = np.array(g.structure.lattice.matrix).T
                self.call("structure=", f)
                c.B, c.scale = L, np.ones(1)
            c.Z = Z
        elif k == "algedit":
            n = self.pick(op["t"], ("vol",))
            if n is None or not n.ref.region.surfs:
                return False
            i = op["i"] % len(n.ref.region.surfs)
            s, v = n.ref.region.surfs[i], n.ob.alg_objects[i]
            p = s.c + np.array(op["d"])
            f_ = op["f"]

            def f():
                if s.k == "sph":
                    v.center = p
                    v.radius = s.r * f_
                else:
                    v.point = p
                if s.k == "cyl":
                    v.radius = s.r * f_
                    v.length = s.L * f_
            self.call("edit of a surface", f)
            s.c = p
            if s.k != "pl":
                s.r = s.r * f_
            if s.k == "cyl":
                s.L = s.L * f_
        elif k == "prio":
            n = self.pick(op["t"], ("vol", "multi", "mol"))
            if n is None:
                return False
            n.ob.priority = op["p"]
            n.ref.prio = op["p"]
        elif k == "gen":
            n = self.pick(op["t"], ("vol",))
            if n is None:
                return False
            gen, cry = self.source(op["gen"])
            o = op.get("o") if isinstance(cry, Crystal) else None
            self.call("add_generator", lambda: n.ob.add_generator(gen, None if o is None else np.array(o, float)))
            scrawl(gen)
            if o is not None:
                cry.o = np.array(o, float)
            n.ref.crystal = cry if isinstance(cry, Crystal) else None
            n.ref.am = isinstance(cry, str)
        elif k == "alg":
            n = self.pick(op["t"], ("vol",))
            if n is None:
                return False
            s = dict(op["s"])
            if op.get("rel"):      # position relative to region centre
                c = self.centre(n.ref)
                s["p"] = [float(a + b) for a, b in zip(c, s["p"])]
            if sprawling(n.ref.region.surfs + [RSurf(s)], n.ref.region.pts):
                return False
            ob = build_surf(s)
            self.call("add_alg_object", lambda: n.ob.add_alg_object(ob))
            scrawl(ob)
            n.ref.region.surfs.append(RSurf(s))
        elif k in ("addp", "setp"):
            n = self.pick(op["t"], ("vol",))
            if n is None or n.ref.region.pts is None:
                return False
            p = np.array(op["p"], float) + self.centre(n.ref)
            if op.get("as"):
                p = variant(n.ref.region.pts, p, op["as"])
                if p is None:
                    return False
            if k == "addp":
                arr = p[0] if op.get("single") else p
                self.call("addPoints", lambda: n.ob.addPoints(arr))
                q = p.copy()
                scrawl(arr)
                p = q
                n.ref.region.add_pts(p[:1] if op.get("single") else p)
            else:
                q = p.copy()

                def f():
                    if op.get("inplace"):
                        n.ob.points[:] = n.ob.points * 0.5
                    n.ob.points = q
                self.call("points=", f)
                scrawl(q)
                n.ref.region.set_pts(p)
        elif k == "addm":
            n = self.pick(op["t"], ("multi",))
            if n is None or len(n.ch) >= 4:
                return False
            c = self.build(op["v"])
            self.call("add_volume", lambda: n.ob.add_volume([c.ob] if op.get("lst") else c.ob))
            n.ch.append(c)
            n.ref.ch.append(c.ref)
        elif k == "add":
            if len(self.tops) >= 6:
                return False
            c = self.build(op["v"])
            self.tops.append(c)
            if self.scene is not None:
                self.call("add_object", lambda: self.scene.add_object(c.ob))
                c.in_scene = True
        elif k == "copy":
            n = self.pick(op["t"], ("vol", "multi", "mol"), top=True)
            if n is None or len(self.tops) >= 6:
                return False
            cp = self.copy_node(n, [], op.get("gen"))
            self.tops.append(cp)
            if self.scene is not None:
                self.call("add_object", lambda: self.scene.add_object(cp.ob))
                cp.in_scene = True
        elif k == "bad":
            return self.bad(op)
        else:
            return False
        self.sim.log("edit", k)
        return True

    def copy_node(self, n, Ts, gen=None):
        """Copy of n, moved by Ts, its crystals replaced by gen."""
        kw = {"transformation": Ts} if Ts else {}
        if gen is not None and n.kind != "mol":
            kw["generator"], cry = self.source(gen)
        if n.kind == "mol":
            ob = self.call("from_molecule", lambda: n.ob.from_molecule(**kw))
        else:
            ob = self.call("from_volume", lambda: n.ob.from_volume(**kw))
        cp = self.twin(ob, n)
        if "generator" in kw:
            scrawl(kw["generator"])
            for m in flatten(cp):
                if m.kind == "vol":
                    m.ref.crystal = cry.copy() if isinstance(cry, Crystal) else None
                    m.ref.am = isinstance(cry, str)
        return cp

    def twin(self, ob, n):
        """Node for ob, a copy of n.ob."""
        ref = copy_ref(n.ref)
        cp = Node(ob, ref, n.kind)
        if n.kind == "multi":
            # members of the copy in the order of the members of the original
            order = [next(i for i, c in enumerate(n.ch) if c.ob is v) for v in n.ob.volumes]
            if len(ob.volumes) != len(order):
                raise Violation("copy", f"copy of a group has {len(ob.volumes)} members instead of {len(order)}")
            by = dict(zip(order, ob.volumes))
            cp.ch = [self.twin(by[i], c) for i, c in enumerate(n.ch)]
            ref.ch = [c.ref for c in cp.ch]
        return cp

    @staticmethod
    def centre(ref):
        b = ref.region.aabb()
        return np.zeros(3) if b is None else (b[0] + b[1]) / 2

    def bad(self, op):
        """Rejected edits: must raise and change nothing."""
        n = self.pick(op["t"], ("vol",))
        if n is None:
            return False
        w = op["w"]
        v = n.ob
        P = np.arange(8.0).reshape(4, 2)
        flat = np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 0]])

        def setp(x):
            v.points = x

        def setprio(x):
            v.priority = x
        acts = {
            "addp_shape": lambda: v.addPoints(P),
            "addp_3d": lambda: v.addPoints(np.zeros((2, 2, 3))),
            "setp_shape": lambda: setp(P),
            "setp_few": lambda: setp(flat[:3]),
            "setp_flat": lambda: setp(flat),
            "alg_type": lambda: v.add_alg_object("sphere"),
            "gen_type": lambda: v.add_generator("crystal"),
            "prio": lambda: setprio(1.5),
            "move_type": lambda: v.transform("turn"),
            "test_shape": lambda: v.checkIfInterior(P),
        }
        before = snap(v)
        try:
            acts[w]()
        except INJ:
            raise
        except Exception:
            pass
        else:
            raise Violation("accepted", f"invalid edit {w} was accepted")
        if snap(v) != before:
            raise Violation("rejected-edit", f"rejected edit {w} changed the volume: {sdiff(before, snap(v))}")
        self.sim.fault("rejected_edit")
        return True

    # -------------------------------------------------------------- checks
    def check_node(self, n, what):
        """Atoms of a just populated node against the reference."""
        if n.kind == "mol":
            cand = n.ref.cands()
        else:
            cand = self.cands(n)
        a, s = n.ob.atoms, n.ob.species
        bad = compare(a, s, cand, what)
        if bad:
            raise Violation(*bad)
        return len(a)

    def cands(self, n):
        self.bind_am(n)
        return n.ref.cands()

    def bind_am(self, n):
        """Amorphous volumes have no lattice: what they hold is judged by region only."""
        for m in flatten(n):
            if m.kind == "vol" and getattr(m.ref, "am", False):
                ob, reg = m.ob, m.ref.region

                def c(ob=ob, reg=reg):
                    s = reg.classify(ob.atoms) if len(ob.atoms) else np.empty(0, int)
                    if np.any(s < 0):
                        raise Violation("outside", "amorphous atoms outside their region")
                    return np.array(ob.atoms), np.array(ob.species).astype(int), np.array(s)
                m.ref.cands = c
            elif m.kind == "vol":
                m.ref.__dict__.pop("cands", None)

    def scene_nodes(self):
        return [n for n in self.tops if n.in_scene]

    def scene_expect(self):
        ns = self.scene_nodes()
        for n in ns:
            self.bind_am(n)
        return precedence([n.ref for n in ns])

    def check_scene(self):
        sc = self.scene
        allc, per = self.scene_expect()
        A = self.call("all_atoms", lambda: sc.all_atoms)
        S = self.call("all_species", lambda: sc.all_species)
        bad = compare(A, S, allc, "scene")
        if bad:
            raise Violation(*bad)
        ns = self.scene_nodes()
        for i, ob in enumerate(sc.objects):
            k = [j for j, n in enumerate(ns) if n.ob is ob]
            if len(k) != 1:
                raise Violation("objects", "objects of the scene are not the ones added")
            got = self.call("species_from_object", lambda: sc.species_from_object(i))
            bad = compare(got, np.zeros(len(got), int), (per[k[0]][0], np.zeros(len(per[k[0]][1]), int), per[k[0]][2]),
                          f"object {k[0]} in scene")
            if bad:
                raise Violation(*bad)
        if len(sc.objects) != len(ns):
            raise Violation("objects", "objects of the scene are not the ones added")
        at = self.call("ase_atoms", lambda: sc.ase_atoms)
        if len(at) != len(A) or not np.array_equal(at.get_positions(), A) or not np.array_equal(at.numbers, S):
            raise Violation("ase", "ase_atoms differs from all_atoms/all_species")
        cell = np.diag(sc.bounds[1] - sc.bounds[0])
        if not np.allclose(np.array(at.cell), cell):
            raise Violation("ase", "cell of ase_atoms is not the size of the scene bounds")
        return A, S, per

    def make_scene(self, bounds=None, nodes=None):
        ns = self.tops if nodes is None else nodes
        self.scene = mods().S.Scene(bounds=bounds, objects=[n.ob for n in ns])
        for n in ns:
            n.in_scene = True


class CB:
    """Callback shared by all copies of a crystal: deep copies keep the same world."""

    def __init__(self, w):
        self.w = w

    def __call__(self, pts, sp):
        return self.w.callback(pts, sp)

    def __deepcopy__(self, memo):
        return self


class Node:
    def __init__(self, ob, ref, kind):
        self.ob, self.ref, self.kind = ob, ref, kind
        self.ch = []
        self.in_scene = False


def flatten(n):
    out = [n]
    for c in n.ch:
        out += flatten(c)
    return out


def copy_ref(r):
    c = r.copy()
    for k in ("am", "oidx", "o"):
        if hasattr(r, k):
            v = getattr(r, k)
            setattr(c, k, v.copy() if isinstance(v, np.ndarray) else v)
    return c


def move_ref(n, m):
    n.ref.move(m)
    if n.kind == "mol" and n.ref.oidx is None:
        M, t = motion_affine(m)
        n.ref.o = M @ n.ref.o + t


# ====================================================================== definitions
def _arr(a):
    return None if a is None else (np.asarray(a).shape, np.asarray(a).tobytes(), str(np.asarray(a).dtype))


def snap(ob):
    """Exact fingerprint of the definition of an object, by public getters only."""
    c = mods()
    if ob is None:
        return None
    if isinstance(ob, c.V.MultiVolume):
        return ("multi", ob.priority, tuple(sorted(((id(v), snap(v)) for v in ob.volumes), key=lambda x: x[0])))
    if isinstance(ob, c.V.Volume):
        return ("vol", ob.priority, _arr(ob.points), tuple(snap(a) for a in ob.alg_objects), snap(ob.generator),
                ob.tolerance)
    if isinstance(ob, c.A.Sphere):
        return ("sph", ob.radius, _arr(ob.center), ob.tol)
    if isinstance(ob, c.A.Plane):
        return ("pl", _arr(ob.normal), _arr(ob.point), ob.tol)
    if isinstance(ob, c.A.Cylinder):
        return ("cyl", _arr(ob.axis), _arr(ob.point), ob.radius, ob.length, ob.tol)
    if isinstance(ob, c.G.AmorphousGenerator):
        return ("am", ob.density, ob.min_dist, ob.species, ob.use_old_result, _arr(ob.origin))
    if isinstance(ob, c.G.NullGenerator):
        return ("null",)
    if isinstance(ob, c.G.BaseGenerator):
        v = ob.voxel
        return ("x", _arr(v.bases), _arr(v.scale), _arr(v.origin), _arr(ob.coords), _arr(np.array(ob.species)),
                _arr(ob.structure.lattice.matrix), snap(ob.post_transform), snap_strain(ob.strain_field))
    if isinstance(ob, c.Mo.BaseMolecule):
        return ("mol", _arr(ob.atoms), _arr(ob.species), _arr(ob.origin), _arr(ob.orientation), ob.priority)
    if isinstance(ob, c.S.Scene):
        return ("scene", _arr(ob.bounds), tuple(sorted(((id(o), snap(o)) for o in (ob.objects or [])), key=lambda x: x[0])))
    if isinstance(ob, c.T.MultiTransform):
        return ("mt", tuple(snap(t) for t in ob.transforms))
    if isinstance(ob, c.T.Translation):
        return ("tr", _arr(ob.shift), ob.locked, ob.basis_only)
    if isinstance(ob, c.T.Reflection):
        return ("ref", snap(ob.plane), _arr(ob.matrix), _arr(ob.origin), ob.locked, ob.basis_only)
    if isinstance(ob, c.T.MatrixTransform):
        return ("mat", type(ob).__name__, _arr(ob.matrix), _arr(ob.origin), ob.locked, ob.basis_only)
    if isinstance(ob, c.Po.ChemicalSubstitution):
        return ("chem", tuple(ob.target), tuple(ob.substitute), ob.frac)
    if isinstance(ob, c.Po.PostSequence):
        return ("seq", tuple(snap(t) for t in getattr(ob, "_transforms", ())))
    if isinstance(ob, c.Po.BasePostTransform):
        return ("post", type(ob).__name__)
    if isinstance(ob, np.ndarray):
        return ("arr", _arr(ob))
    if isinstance(ob, dict):
        return ("dict", tuple((k, snap(v)) for k, v in ob.items()))
    if isinstance(ob, (list, tuple)):
        return (type(ob).__name__, tuple(snap(v) for v in ob))
    if callable(ob):
        return ("fn", getattr(ob, "__name__", "?"))
    return ("val", repr(ob))


def snap_strain(s):
    if s is None:
        return None
    return (type(s).__name__, _arr(getattr(s, "matrix", None)), s.mode, s.origin_type)


def sdiff(a, b, path="definition"):
    """Where two fingerprints differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} -> {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                nm = a[0] if isinstance(a[0], str) else ""
                return sdiff(x, y, f"{path}/{nm}[{i}]")
        return f"{path}: equal"
    if isinstance(a, bytes) or isinstance(b, bytes):
        return f"{path}: values"
    return f"{path}: {str(a)[:80]} -> {str(b)[:80]}"


# ====================================================================== history generator
def gen_edit(r, prof):
    w = prof["edits"]
    k = r.choices(list(w), list(w.values()))[0]
    t = r.randrange(1000)
    if k == "move" and r.random() < 0.03:          # many small steps
        n = r.choice([10, 40, 150])
        tot = 10 ** r.uniform(-3, 0)
        f = {"locked": r.random() < 0.7, "basis_only": False}
        m = ({"m": "tr", **f, "v": [x * tot / n for x in gen_dir(r)]} if r.random() < 0.5 else
             {"m": "rot", **f, "axis": gen_dir(r), "ang": tot / n, "o": r.choice([None, rvec(r, 4.0)])})
        return {"op": "move", "t": t, "m": m, "top": r.random() < 0.7, "rep": n}
    if k == "move" and prof.get("rare") and r.random() < 0.02:          # a long way
        d = 10 ** (r.uniform(1.5, 3.6) if r.random() < 0.7 else r.uniform(4, 5.3))
        return {"op": "move", "t": t, "m": {"m": "tr", "locked": r.random() < 0.7, "basis_only": False, "v": [r6(x * d) for x in gen_dir(r)]},
                "top": True}
    if k == "move":
        return {"op": "move", "t": t, "m": gen_motion(r), "top": r.random() < 0.7,
                **({"again": r.randrange(99)} if r.random() < 0.25 else {}),
                **({"via": "copy", "top": True, **({"gen": gen_source(r, prof)} if r.random() < 0.3 else {})} if r.random() < 0.3 else {})}
    if k == "genmove":
        return {"op": "genmove", "t": t, "m": gen_motion(r), **({"again": r.randrange(99)} if r.random() < 0.25 else {})}
    if k == "genset":
        c = r.random()
        return {"op": "genset", "t": t, "o": rvec(r, 4.0) if c < 0.7 else None,
                "sc": [r6(r.uniform(0.9, 1.2)) for _ in range(r.choice([1, 3]))] if c > 0.4 else None}
    if k == "recolour":
        return {"op": "recolour", "t": t, "z": r.sample(range(1, 95), 3), "how": r.choice(["post", "structure"])}
    if k == "algedit":
        return {"op": "algedit", "t": t, "i": r.randrange(9), "d": rvec(r, 0.7), "f": r6(r.uniform(0.75, 1.25))}
    if k == "prio":
        return {"op": "prio", "t": t, "p": gen_prio(r)}
    if k == "gen":
        return {"op": "gen", "t": t, "gen": gen_source(r, prof), "o": rvec(r, 3.0) if r.random() < 0.3 else None}
    if k == "alg":
        n = gen_dir(r)
        c = r.random()
        if c < 0.6:
            s = {"s": "pl", "n": n, "p": [r6(r.uniform(-1, 2.5) * x) for x in n]}
        elif c < 0.85:
            s = {"s": "sph", "p": rvec(r, 1.0), "r": r6(r.uniform(2.5, 6))}
        else:
            s = {"s": "cyl", "p": rvec(r, 1.0), "n": n, "r": r6(r.uniform(2, 5)), "L": r6(r.uniform(4, 10))}
        return {"op": "alg", "t": t, "s": s, "rel": True}
    if k == "addp":
        n = r.randint(1, 3)
        return {"op": "addp", "t": t, "p": [rvec(r, 5.0) for _ in range(n)], "single": r.random() < 0.5}
    if k == "setp":
        op = {"op": "setp", "t": t, "p": gen_points(r, [0, 0, 0], r.uniform(5, 9)), "inplace": r.random() < 0.3}
        if r.random() < 0.4:
            op["as"] = r.choice(["mirror0", "mirror1", "mirror2", "one", "turn", "drop", "order"])
        return op
    if k == "addm":
        return {"op": "addm", "t": t, "v": gen_vol(r, prof), "lst": r.random() < 0.3}
    if k == "add":
        return {"op": "add", "v": gen_obj(r, prof)}
    if k == "copy":
        return {"op": "copy", "t": t, **({"gen": gen_source(r, prof)} if r.random() < 0.4 else {})}
    if k == "bad":
        return {"op": "bad", "t": t, "w": r.choice(["addp_shape", "addp_3d", "setp_shape", "setp_few", "setp_flat",
                                                     "alg_type", "gen_type", "prio", "move_type", "test_shape"])}
    raise ValueError(k)
