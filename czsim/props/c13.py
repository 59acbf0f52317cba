"""C13: surface detection reports only existing, exposed atoms, whatever the noise."""
import numpy as np
from scipy.spatial import Voronoi, cKDTree

from ..core import INJ, Violation
from ..seams import EXC, MON, RNG
from ..world import World, gen_crystal, gen_dir, gen_points, motion_affine, r6, rvec, SG

ID = "C13"
RUNS = {"quick": 5000, "thorough": 75000}
LEVEL = "jump"
SHRINK = ["ops"]


DIRS = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1) if (i, j, k) != (0, 0, 0)], float)
DIRS /= np.linalg.norm(DIRS, axis=1)[:, None]


def gen(r, tier):
    ops = []
    for _ in range(r.randint(1, 2)):
        c = r.random()
        if c < 0.12:
            ops.append({"op": "cloud", "N": r.randint(5, 150), "s": r.randrange(10 ** 6)})
            op = ops[-1]
        else:
            g = dict(r.choice(SG[:3] + SG[5:])) if c < 0.6 else gen_crystal(r, simple=r.random() < 0.4)
            g.update(g="x", o=None if r.random() < 0.4 else rvec(r, 3.0))
            g.pop("cb", None)
            g.pop("scale", None)
            big = len(ops) == 0 and r.random() < 0.012
            size = r.uniform(24, 45) if big else r.uniform(11, 17)
            if r.random() < 0.5:
                reg = {"pts": None, "alg": [{"s": "sph", "p": rvec(r, 3.0), "r": r6(size / 2)}]}
            elif r.random() < 0.5:
                reg = {"pts": gen_points(r, rvec(r, 2.0), size * 0.9), "alg": []}
            else:
                o = rvec(r, 2.0)
                d = [round(size * r.uniform(.7, 1.1)) for _ in range(3)]
                reg = {"pts": [[o[0] + x * d[0], o[1] + y * d[1], o[2] + z * d[2]] for x in (0, 1) for y in (0, 1) for z in (0, 1)], "alg": []}
            ops.append({"op": "block", "v": {"k": "vol", **reg, "gen": g, "prio": 0}, "big": big})
            op = ops[-1]
        op.update(alg=r.choice(["sampled", "plain"]), dict=r.random() < 0.4, n=r.choice([1, 3, 20, 20]), std=r.choice([1e-4, 1e-4, 1e-3]),
                  fac=r6(r.uniform(1.06, 1.5)), seed=r.choice([None, r.randrange(10 ** 6)]), f=r.random(), exc=r.choice(list(EXC)),
                  strike=r.random() < 0.15)
    plan = {"ops": ops}
    if r.random() < 0.6:
        plan["adv"] = {"seed": r.randrange(2 ** 31), "p": r.choice([0.3, 1.0]), "limit": 60,
                       "kinds": r.sample(["low", "high", "repeat", "near", "edge", "cluster"], r.randint(1, 3))}
    return plan


_cov = {}


def covering_radius(c):
    """Radius of the largest empty sphere of the infinite crystal."""
    key = (c.B.tobytes(), c.frac.tobytes())
    if key not in _cov:
        n = int(np.ceil(16 / np.min(np.abs(np.linalg.svd(c.B)[1]))))
        n = min(max(n, 3), 6)
        g = np.stack(np.meshgrid(*[np.arange(-n, n + 1)] * 3, indexing="ij"), -1).reshape(-1, 3)
        P = (g[:, None] + c.frac[None]).reshape(-1, 3) @ c.B.T
        k = np.linalg.norm(P, axis=1) < 16
        P = P[k]
        v = Voronoi(P)
        V = v.vertices[np.linalg.norm(v.vertices, axis=1) < 8]
        _cov[key] = float(np.max(cKDTree(P).query(V)[0]))
    return _cov[key]


def complete_atoms(ref, atoms, R):
    """Which atoms have every site of the infinite crystal within 2 R around them in the block."""
    lo, hi = atoms.min(0) - 2 * R - 0.2, atoms.max(0) + 2 * R + 0.2
    P, _ = ref.crystal.sites(lo, hi)
    d = 2 * R + 0.05
    a = np.array(cKDTree(P).query_ball_point(atoms, d, return_length=True))
    b = np.array(cKDTree(atoms).query_ball_point(atoms, d, return_length=True))
    return a == b


def call(w, op, P, probe):
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    if op["alg"] == "sampled":
        kw = {} if op["seed"] is None else {"seed": op["seed"]}
        return alpha_shape_alg_3D_with_sampling(P, probe, op["n"], std=op["std"], return_alpha_shape=op["dict"], **kw)
    return alpha_shape_alg_3D(P, probe, return_alpha_shape=op["dict"])


def run(sim):
    import random
    w = World(sim)
    for op in sim.plan["ops"]:
        sim.steps += 1
        done = None
        if op["op"] == "cloud":
            r = random.Random(op["s"])
            P = np.array([[r.uniform(0, 12) for _ in range(3)] for _ in range(op["N"])])
            R = 4.0
        else:
            n = w.build(op["v"])
            n.ob.populate_atoms()
            P = np.array(n.ob.atoms)
            if len(P) < 30 or len(P) > (10000 if op.get("big") else 900):
                continue
            R = covering_radius(n.ref.crystal)
            if np.linalg.matrix_rank(P - P.mean(0), tol=1e-3) < 3:
                continue
            done = complete_atoms(n.ref, P, R)
        probe = R * op["fac"]
        keep = P.copy()
        if op["strike"]:
            adv, RNG.adv = RNG.adv, None
            k = MON.measure(lambda: call(w, op, P, probe))
            RNG.adv = adv
            fired, _ = MON.inject(lambda: call(w, op, P, probe), 1 + int(op["f"] * k), EXC[op["exc"]])
            if fired:
                sim.fault(op["exc"])
            MON.set_level("jump")
            if not np.array_equal(P, keep):
                raise Violation("input", "interrupted surface detection altered the positions")
        out = w.call("surface detection", lambda: call(w, op, P, probe))
        if not np.array_equal(P, keep):
            raise Violation("input", "surface detection altered the positions")
        if op["dict"]:
            out, d = out
            if not {"tri", "surface_tris", "a_tris"} <= set(d):
                raise Violation("dict", "alpha shape lacks its parts")
        idx = list(out)
        for i in idx:
            if isinstance(i, (bool, float)) or not isinstance(i, (int, np.integer)):
                raise Violation("index", f"surface atom {i!r} is no index")
            if not 0 <= i < len(P):
                raise Violation("index", f"surface atom {i} of {len(P)} atoms")
        if len(set(idx)) != len(idx):
            raise Violation("index", "surface atoms reported more than once")
        idx = np.array(sorted(int(i) for i in idx), int)
        if op["op"] == "block":
            if len(idx) == 0:
                raise Violation("empty", f"compact block of {len(P)} atoms has no surface")
            bad = idx[done[idx]]
            if len(bad):
                raise Violation("buried", f"{len(bad)} of {len(idx)} reported atoms have their complete surrounding, e.g. atom {bad[0]} of {len(P)}, {op['alg']} algorithm, covering radius {R:.3f}, probe {probe:.3f}")
            sim.probe("buried_atoms_seen", int(done.sum()))
            sim.probe("surface_atoms", len(idx))
            if done.any() and op["alg"] == "plain":
                gap = (P[done] @ DIRS.T).max(0) - (P[idx] @ DIRS.T).max(0)
                k = int(np.argmax(gap))
                if gap[k] > R:
                    raise Violation("side", f"towards {DIRS[k].round(2).tolist()} no atom is reported within {gap[k]:.2f} of a completely surrounded atom that lies further out, {op['alg']} algorithm, {len(idx)} of {len(P)} reported")
                sim.probe("sides_checked")
        sim.probe(op["alg"] + "_" + op["op"])
        sim.state(op["op"], op["alg"], len(P), len(idx))
        sim.log(op["op"], len(P), len(idx))
