"""C34: Wulff constructions show the builder's current crystal, size and energies, whatever was built before."""
import itertools

import numpy as np
from scipy.optimize import linprog
from scipy.spatial import ConvexHull, HalfspaceIntersection, cKDTree

from ..core import INJ, Violation
from ..ref import Region, RSurf, RVol, compare
from ..seams import EXC
from ..world import World, build_motion, gen_motion, mods, r6, rvec
from .common import interrupt

ID = "C34"
RUNS = {"quick": 500, "thorough": 9000}
LEVEL = "full"
SHRINK = ["ops", "mot"]

CRYSTALS = [
    {"sg": 225, "cell": [4.08] * 3, "ang": [90] * 3, "Z": [79], "frac": [[0, 0, 0]], "sys": "c"},
    {"sg": 229, "cell": [2.87] * 3, "ang": [90] * 3, "Z": [26], "frac": [[0, 0, 0]], "sys": "c"},
    {"sg": 221, "cell": [3.35] * 3, "ang": [90] * 3, "Z": [84], "frac": [[0, 0, 0]], "sys": "c"},
    {"sg": 227, "cell": [5.43] * 3, "ang": [90] * 3, "Z": [14], "frac": [[0, 0, 0]], "sys": "c"},
    {"sg": 225, "cell": [5.64] * 3, "ang": [90] * 3, "Z": [11, 17], "frac": [[0, 0, 0], [.5, .5, .5]], "sys": "c"},
    {"sg": 123, "cell": [3.25, 3.25, 4.95], "ang": [90] * 3, "Z": [49], "frac": [[0, 0, 0]], "sys": "t"},
    {"sg": 194, "cell": [2.95, 2.95, 4.68], "ang": [90, 90, 120], "Z": [22], "frac": [[1 / 3, 2 / 3, .25]], "sys": "h"},
]
FAM = {"c": [(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0), (2, 1, 1), (2, 2, 1), (3, 1, 1)],
       "t": [(1, 0, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (1, 1, 1)],
       "h": [(0, 0, 0, 1), (1, 0, -1, 0), (1, 0, -1, 1), (1, 1, -2, 0), (1, 1, -2, 1)]}
NAMED = {"cube": {(1, 0, 0): 1.0}, "cuboctohedron": {(1, 0, 0): 1.0, (1, 1, 1): 1.15}, "octohedron": {(1, 1, 1): 1.0},
         "truncated_octohedron": {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}}


def gen_energies(r, sys):
    fam = FAM[sys]
    if sys == "c":
        k = r.sample(fam, r.randint(1, 3))
    elif sys == "t":
        k = r.choice([[(1, 0, 0), (0, 0, 1)], [(1, 0, 1)], [(1, 1, 1)], [(1, 1, 0), (0, 0, 1)]])
        k = k + [f for f in r.sample(fam, 1) if f not in k]
    else:
        k = r.choice([[(0, 0, 0, 1), (1, 0, -1, 0)], [(1, 0, -1, 1)], [(1, 1, -2, 1)], [(0, 0, 0, 1), (1, 1, -2, 0)]])
        k = k + [f for f in r.sample(fam, 1) if f not in k]
    s = r.choice([1.0, 1.0, 0.04, 20.0])
    return [[list(f), r6(s * r.uniform(0.8, 1.3))] for f in k]


def gen(r, tier):
    k = r.randrange(len(CRYSTALS))
    sys = CRYSTALS[k]["sys"]
    ops = []
    for _ in range(r.randint(2, 6)):
        c = r.random()
        if c < 0.34:
            op = {"op": "build", "areas": r.random() < 0.3, "scribble": r.random() < 0.4}
        elif c < 0.46:
            op = {"op": "size", "n": r.choice([r.randint(20, 400), r.randint(50, 120), float(r.randint(50, 300))])}
        elif c < 0.58:
            op = {"op": "energies", "e": gen_energies(r, sys)}
        elif c < 0.66:
            op = {"op": "crystal", "k": r.choice([i for i, x in enumerate(CRYSTALS) if x["sys"] == sys]),
                  "m": [gen_motion(r, flags={"locked": True, "basis_only": False}) for _ in range(r.randint(0, 2))]}
            if r.random() < 0.5:       # another crystal of the same elements
                op["mod"] = [r6(r.uniform(0.8, 1.25)), r.random() < 0.7]
            if r.random() < 0.5:       # and another builder, of the same size and energies
                op["op"] = "new"
        elif c < 0.72:
            op = {"op": "turn", "m": gen_motion(r, flags={"locked": True, "basis_only": False})}
        elif c < 0.78:
            op = {"op": "areas"}
        elif c < 0.86 and sys != "h":
            h = r.choice([f for f in FAM[sys] if any(f[:2])])
            op = {"op": "winter", "h": [x * r.choice([1, -1]) for x in h], "g": r6(r.choice([1, -1, 1]) * r.uniform(0.1, 0.5)),
                  "scribble": r.random() < 0.4}
        elif c < 0.94 and sys == "c":
            op = {"op": "named", "w": r.choice(list(NAMED)), "n": r.randint(60, 300)}
        else:
            op = {"op": "bad", "w": r.choice(["n", "e_key", "e_val", "gen"])}
        if op["op"] in ("build", "winter", "named") and r.random() < 0.35:
            op.update(f=r.random(), exc=r.choice(list(EXC)), fault=True)
        ops.append(op)
    ops.append({"op": "build", "areas": False, "scribble": False})
    return {"k": k, "mot": [gen_motion(r, flags={"locked": True, "basis_only": False}) for _ in range(r.choice([0, 0, 1, 2]))],
            "o": None if r.random() < 0.5 else rvec(r, 3.0), "e": gen_energies(r, sys), "n": r.randint(20, 400), "ops": ops}


# ---------------------------------------------------------------- reference shapes
def orbit(h, sys):
    h = tuple(h)
    out = set()
    if sys == "h":
        for p in itertools.permutations(h[:3]):
            for s in (1, -1):
                for t in (1, -1):
                    q = [s * x for x in p]
                    out.add((q[0], q[1], t * h[3]))
        return out
    ps = itertools.permutations(h) if sys == "c" else [(h[0], h[1], h[2]), (h[1], h[0], h[2])]
    for p in ps:
        for s in itertools.product((1, -1), repeat=3):
            out.add(tuple(a * b for a, b in zip(p, s)))
    return out


def vertices(N, d):
    """Vertices of {N x <= d}, None if it is empty or thin."""
    n = np.linalg.norm(N, axis=1)
    r = linprog([0, 0, 0, -1], A_ub=np.hstack([N, n[:, None]]), b_ub=d, bounds=[(None, None)] * 3 + [(0, 1e3)])
    if r.status != 0 or r.x[3] < 1e-6 or r.x[3] > 999:
        return None
    return HalfspaceIntersection(np.hstack([N, -d[:, None]]), r.x[:3]).intersections


class Shape:
    """Equilibrium shape: unit normals in the crystal's frame, distances, normalised to the volume of natoms."""

    def __init__(self, B, sys, vatom, e, natoms, interface=None):
        N, d, fam = [], [], []
        R = np.linalg.inv(B).T
        for h, g in e:
            for q in sorted(orbit(h, sys)):
                N.append(R @ np.array(q, float))
                d.append(g)
                fam.append(tuple(h))
        if interface is not None:
            N.append(R @ np.array(interface[0], float))
            d.append(interface[1])
            fam.append("interface")
        N, d = np.array(N), np.array(d)
        N = N / np.linalg.norm(N, axis=1)[:, None]
        V = vertices(N, d)
        self.ok = V is not None
        self.negative = interface is not None and interface[1] < 0
        if not self.ok:
            return
        lam = (natoms * vatom / ConvexHull(V).volume) ** (1 / 3)
        self.N, self.d, self.fam, self.V = N, d * lam, fam, V * lam

    def thin(self):
        """Near-degenerate shapes: a facet about to vanish, or an edge shorter than the tolerance of the oracle."""
        a = self.areas(raw=True)
        return any(0 < x < 1e-3 * sum(a.values()) for x in a.values())

    def areas(self, raw=False):
        h = ConvexHull(self.V)
        out = {}
        pts = self.V[h.simplices]
        ar = np.linalg.norm(np.cross(pts[:, 1] - pts[:, 0], pts[:, 2] - pts[:, 0]), axis=1) / 2
        for q, a in zip(h.equations[:, :3], ar):
            i = int(np.argmax(self.N @ q))
            out[self.fam[i]] = out.get(self.fam[i], 0.0) + a
        return out


class Builder:
    """What the real builder is supposed to hold."""

    def __init__(self, w):
        p = w.sim.plan
        self.w = w
        self.k, self.e, self.n = p["k"], p["e"], p["n"]
        self.set_crystal(p["k"], p["mot"], p["o"])
        self.make()

    def make(self):
        W = __import__("czone.prefab.wulff", fromlist=["WulffSingle"]).WulffSingle
        self.ob = self.w.call("WulffSingle", lambda: W(self.gen, energies(self.e), self.n))

    def set_crystal(self, k, mots, o, mod=None):
        self.k = k
        s = CRYSTALS[k]
        if mod:
            Z = self.Z if mod[1] and len(self.Z) == len(s["Z"]) else s["Z"]
            s = {**s, "cell": [c * mod[0] for c in s["cell"]], "Z": Z}
        self.Z = s["Z"]
        self.gen, self.cry = self.w.source({**s, "g": "x", "o": o})
        self.B0 = self.cry.B.copy()
        self.vatom = abs(np.linalg.det(self.B0)) / len(self.cry.Z)
        for m in mots:
            self.gen = self.gen.from_generator(transformation=[build_motion(m)])
            self.cry.move(m)

    def shape(self, e=None, n=None, interface=None):
        return Shape(self.B0, CRYSTALS[self.k]["sys"], self.vatom, e or self.e, int(n or self.n), interface)


def energies(e):
    return {tuple(h): float(g) for h, g in e}


# ---------------------------------------------------------------- runs
def run(sim):
    w = World(sim)
    b = Builder(w)
    for op in sim.plan["ops"]:
        sim.steps += 1
        step(sim, w, b, op)


def step(sim, w, b, op):
    k, ob = op["op"], b.ob
    if k in ("build", "winter", "named"):
        if k == "build":
            S = b.shape()
            fn = (lambda o: o.get_construction(return_facet_areas=True)) if op["areas"] else (lambda o: o.get_construction())
        elif k == "winter":
            g = op["g"] * min(x[1] for x in b.e)
            S = b.shape(interface=(op["h"], g))
            fn = lambda o: o.winterbottom(tuple(op["h"]), g)
        else:
            S = b.shape(e=[[list(h), g] for h, g in NAMED[op["w"]].items()], n=op["n"])
            fn = lambda o: getattr(type(o), op["w"])(b.gen, op["n"])
        if not S.ok or S.thin():
            sim.probe("degenerate_shape")
            return
        if op.get("fault"):
            interrupt(w, None, ob, fn, op)
        v = w.call(k, lambda: fn(ob))
        if op.get("areas"):
            v, fr = v
            check_areas(S, fr)
        check(sim, w, b, S, v, k)
        if op.get("scribble"):
            for p in v.alg_objects:
                p.point = p.point * 0.5
                p.flip_orientation()
            v.generator.origin = np.array([9.0, 9, 9])
            v.generator.voxel.bases[:] *= 2.0
    elif k == "areas":
        S = b.shape()
        if S.ok and not S.thin():
            check_areas(S, w.call("get_areas", ob.get_areas))
    elif k == "size":
        w.call("natoms", lambda: setattr(ob, "natoms", op["n"]))
        b.n = op["n"]
    elif k == "energies":
        w.call("surface_energies", lambda: setattr(ob, "surface_energies", energies(op["e"])))
        b.e = op["e"]
    elif k == "new":
        b.set_crystal(op["k"], op["m"], sim.plan["o"], op.get("mod"))
        b.make()
        sim.probe("new_builder")
    elif k == "crystal":
        b.set_crystal(op["k"], op["m"], sim.plan["o"], op.get("mod"))
        w.call("generator", lambda: setattr(ob, "generator", b.gen))
    elif k == "turn":
        w.call("transform", lambda: ob.generator.transform(build_motion(op["m"])))
        b.cry.move(op["m"])
    elif k == "bad":
        acts = {"n": ("natoms", "many"), "e_key": ("surface_energies", {(1, 1, 1): 1.0, "100": 1.0}),
                "e_val": ("surface_energies", {(1, 1, 1): 1.0, (1, 0, 0): "1"}), "gen": ("generator", "Au")}
        try:
            setattr(ob, *acts[op["w"]])
        except INJ:
            raise
        except Exception:
            sim.fault("rejected_edit")
        else:
            raise Violation("accepted", f"invalid {acts[op['w']][0]} was accepted")
    sim.log(k)


def check_areas(S, fr):
    want = S.areas()
    tot = sum(want.values())
    got = {(tuple(k) if k != "interface" else k): v for k, v in fr.items()}
    for f in set(want) | set(got):
        if abs(want.get(f, 0.0) / tot - got.get(f, 0.0)) > 2e-3:
            raise Violation("areas", f"facets {f} have fraction {want.get(f, 0.0) / tot:.4f} of the surface, reported {got.get(f, 0.0):.4f}")


def check(sim, w, b, S, v, k):
    Q = b.cry.B @ np.linalg.inv(b.B0)          # turns the crystal's frame
    al = v.alg_objects
    if not al or not all(isinstance(p, mods().A.Plane) for p in al):
        raise Violation("facets", f"{k}: particle is not bounded by planes")
    N = np.array([p.normal for p in al], float)
    d = np.array([p.normal @ p.point for p in al], float)
    V = vertices(N, d)
    if V is None:
        raise Violation("facets", f"{k}: facets enclose nothing")
    if S.negative:
        # WulffPack leaves the part beyond a negative interface out of its volume: sizes are not judged
        f = (ConvexHull(V).volume / ConvexHull(S.V).volume) ** (1 / 3)
        S.d, S.V = S.d * f, S.V * f
    W = S.V @ Q.T
    r = np.abs(W).max()
    for A, B, what in ((V, W, "beyond"), (W, V, "short of")):
        dist, i = cKDTree(B).query(A)
        j = int(np.argmax(dist))
        if dist[j] > 2e-3 * r:
            raise Violation("shape", f"{k}: particle reaches {what} the equilibrium shape by {dist[j]:.4f} of {r:.3f} at "
                            f"{np.round(A[j], 4).tolist()}; facet distances {sorted(set(np.round(d, 4).tolist()))}")
    w.call("populate_atoms", v.populate_atoms)
    reg = Region(None, [RSurf({"s": "pl", "n": (Q @ n).tolist(), "p": (Q @ n * x).tolist()}) for n, x in zip(S.N, S.d)])
    bad = compare(v.atoms, v.species, RVol(reg, b.cry, 0).cands(), f"{k}: atoms of the particle")
    if bad:
        raise Violation(*bad)
    sim.probe("shape_checked_" + k)
    sim.state(k, b.k, len(al), len(v.atoms))
