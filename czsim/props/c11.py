"""C11: adsorbates are placed rigidly, at the bond length, on an admissible atom."""
import numpy as np

from ..core import INJ, Violation, derive
from ..ref import axis_angle
from ..seams import EXC, MON, RNG, Adversary
from ..world import SPECIES, World, build_motion, gen_crystal, gen_dir, gen_motion, gen_points, r6, rvec, snap, sdiff, SG
from .c13 import complete_atoms, covering_radius

ID = "C11"
RUNS = {"quick": 1600, "thorough": 24000}
LEVEL = "jump"
SHRINK = ["ops"]


def gen(r, tier):
    g = dict(r.choice(SG)) if r.random() < 0.6 else gen_crystal(r, simple=r.random() < 0.4)
    g.update(g="x", o=None if r.random() < 0.4 else rvec(r, 3.0))
    g.pop("cb", None)
    g.pop("scale", None)
    size = r.uniform(10, 14)
    if r.random() < 0.5:
        reg = {"pts": None, "alg": [{"s": "sph", "p": rvec(r, 3.0), "r": r6(size / 2)}]}
    else:
        reg = {"pts": gen_points(r, rvec(r, 2.0), size * 0.9), "alg": []}
    vol = {"k": "vol", **reg, "gen": g, "prio": 0}
    ops = []
    for _ in range(r.randint(1, 3)):
        n = r.randint(1, 5) if r.random() < 0.95 else r.choice([12, 40])
        X = [rvec(r, 1.0) for _ in range(n)]
        if r.random() < 0.2:         # linear molecule along a simple axis
            X = [[0.0, 0.0, 1.1 * i] for i in range(n)]
        fl = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            fl.append({"k": r.choice(["element", "mask", "indices", "spatial"]), "s": r.randrange(10 ** 6)})
        ops.append({"mol": {"Z": [r.choice(SPECIES) for _ in range(n)], "X": X, "o": r.choice([None, r.randrange(n)])},
                    "axis": gen_dir(r) if r.random() < 0.4 else None, "ang": r6(r.uniform(-3, 3)), "prio": r.choice([0, 2]),
                    "idx": r.randrange(n), "bond": r6(r.uniform(0.5, 3.0)), "vec": gen_dir(r) if r.random() < 0.6 else None,
                    "vscale": r.choice([1.0, 1.0, 2.5]), "rot": r.choice([0.0, 0.0, 1.5707963267948966, np.pi, -np.pi, r6(np.pi), 2 * np.pi / 3, 2 * np.pi, 5 * np.pi, r6(r.uniform(-6, 6)), r6(r.uniform(-6, 6)), r6(r.uniform(-.01, .01))]),
                    "filters": fl, "seed": r.choice([None, r.randrange(10 ** 6)]), "sampling": r.random() < 0.65,
                    "debug": r.random() < 0.6, "shells": r.choice([None, 1, 2]), "inner": r.random() < 0.2,
                    "strike": r.random() < 0.12, "vmove": gen_motion(r, flags={"locked": r.random() < 0.6, "basis_only": False}) if r.random() < 0.25 else None,
                    "repop": r.random() < 0.2, "f": r.random(), "exc": r.choice(list(EXC))})
    plan = {"objs": [vol], "ops": ops}
    if r.random() < 0.5:
        plan["adv"] = {"seed": r.randrange(2 ** 31), "p": r.choice([0.1, 0.5, 1.0]), "limit": r.choice([20, 200]),
                       "kinds": r.sample(["low", "high", "repeat", "near", "edge", "cluster"], r.randint(1, 3))}
    return plan


def filters(op, A, S):
    """Filter dictionary and the mask it stands for."""
    import random
    out, ok = {}, np.ones(len(A), bool)
    full = True
    for i, f in enumerate(op["filters"]):
        r = random.Random(f["s"])
        k = f["k"]
        if k == "element":
            zs = sorted(set(S.tolist()))
            zs = r.sample(zs, r.randint(1, len(zs)))
            from pymatgen.core import Element
            out[f"element{i}"] = [Element.from_Z(z).symbol if r.random() < 0.5 else z for z in zs]
            m = np.isin(S, zs)
        elif k == "mask":
            m = np.array([r.random() < 0.6 for _ in A])
            out[f"mask{i}"] = m.copy()
        elif k == "indices":
            ix = r.sample(range(len(A)), max(1, int(len(A) * 0.6)))
            out[f"indices{i}"] = ix
            m = np.isin(np.arange(len(A)), ix)
        else:
            n = np.array([r.gauss(0, 1) for _ in range(3)])
            c = A.mean(0)
            m = (A - c) @ n > -0.5
            out[f"spatial{i}"] = lambda p, n=n, c=c: (p - c) @ n > -0.5
        ok &= m
    return out, ok


def fresh_adv(sim):
    a = sim.plan.get("adv")
    RNG.adv = Adversary(derive(a["seed"], sim.steps), a["p"], a["limit"], a["kinds"]) if a else None
    return RNG.adv


def run(sim):
    from czone.surface.adsorbate import add_adsorbate
    w = World(sim)
    for s in sim.plan["objs"]:
        n = w.build(s)
        n.ob.populate_atoms()
        w.tops.append(n)
    if not w.tops:
        return
    n = w.tops[0]
    A, S = np.array(n.ob.atoms), np.array(n.ob.species).astype(int)
    if not 20 <= len(A) <= 700 or np.linalg.matrix_rank(A - A.mean(0), tol=0.5) < 3:
        sim.probe("block_unsuitable")
        return
    R = covering_radius(n.ref.crystal)
    done = complete_atoms(n.ref, A, R)
    for op in sim.plan["ops"]:
        sim.steps += 1
        if op.get("vmove"):      # the block goes elsewhere between placements
            T = build_motion(op["vmove"])
            w.call("transform", lambda: n.ob.transform(T))
            n.ref.move(op["vmove"])
        if op.get("vmove") or op.get("repop"):
            w.call("populate_atoms", n.ob.populate_atoms)
            A, S = np.array(n.ob.atoms), np.array(n.ob.species).astype(int)
            if not 20 <= len(A) <= 700 or np.linalg.matrix_rank(A - A.mean(0), tol=0.5) < 3:
                sim.probe("block_unsuitable")
                return
            done = complete_atoms(n.ref, A, R)
            sim.probe("block_moved")
        place(w, n, A, S, R, done, op, add_adsorbate)


def place(w, n, A, S, R, done, op, add_adsorbate):
    from ..world import mods
    sim = w.sim
    m = op["mol"]
    mol = mods().Mo.Molecule(np.array(m["Z"]), np.array(m["X"]), **({} if m["o"] is None else {"origin": m["o"]}))
    mol.print_warnings = False
    if op["axis"]:
        mol.orientation = axis_angle(op["axis"], op["ang"])
    mol.priority = op["prio"]
    v0 = np.array([0., 0, 1]) if op["vec"] is None else np.array(op["vec"]) * op["vscale"]
    fl, ok = filters(op, A, S)
    kw = {"probe_radius": R * 1.1 if R * 1.02 > 2.5 or op["f"] < 0.5 else 2.5, "use_sampling": op["sampling"], "debug": op["debug"],
          "mol_rotation": op["rot"]}
    if op["vec"] is not None:
        kw["mol_vector"] = v0.copy()
    if op["seed"] is not None:
        kw["seed"] = op["seed"]
    if op["shells"]:
        kw["N_shells"] = op["shells"]
    if op["inner"]:
        kw["surface_only"] = False
    if fl:
        kw["filters"] = fl
    before = snap(mol), snap(n.ob), snap({k: v for k, v in kw.items()})

    def call(rot):
        fresh_adv(sim)
        try:
            return add_adsorbate(mol, op["idx"], op["bond"], n.ob, **{**kw, "mol_rotation": rot})
        finally:
            if RNG.adv is not None:
                for k, c in RNG.adv.hits.items():
                    sim.fault("draw_" + k, c)
            RNG.adv = None

    def unchanged(what):
        now = snap(mol), snap(n.ob), snap({k: v for k, v in kw.items()})
        for a, b, x in zip(before, now, ("molecule", "volume", "arguments")):
            if a != b:
                raise Violation("input", f"{what} changed the {x} supplied: {sdiff(a, b)}")
        if not np.array_equal(n.ob.atoms, A) or not np.array_equal(n.ob.species, S):
            raise Violation("input", f"{what} changed the atoms of the volume")
    if op["strike"]:
        k = MON.measure(lambda: quiet(call, op["rot"]))
        fired, _ = MON.inject(lambda: quiet(call, op["rot"]), 1 + int(op["f"] * k), EXC[op["exc"]])
        MON.set_level("jump")
        if fired:
            sim.fault(op["exc"])
        unchanged("interrupted placement")
    entropy = RNG.entropy.getstate()
    gs = np.random.get_state()
    try:
        out = call(op["rot"])
    except INJ:
        raise
    except Exception as e:
        unchanged("failed placement")
        if not np.any(ok & ~done):
            sim.fault("no_admissible_atom")
            return
        if np.all(ok):
            raise Violation("error", f"add_adsorbate raised {type(e).__name__}: {e} though every atom passes the filters")
        sim.fault("no_admissible_atom")
        return
    unchanged("placement")
    if not np.any(ok & ~done):
        raise Violation("target", "adsorbate placed though no exposed atom satisfies the filters")
    if op["debug"]:
        ad, target = out[0], int(out[1])
        flag = None
    else:
        ad, flag = out
        target = None
    X0, X = np.array(m["X"]), np.asarray(ad.atoms)
    if X.shape != X0.shape or not np.array_equal(ad.species, m["Z"]):
        raise Violation("rigid", "adsorbate has other atoms than the molecule supplied")
    if not np.all(np.isfinite(X)):
        raise Violation("rigid", "adsorbate positions are not finite")
    if ad.priority != op["prio"]:
        raise Violation("rigid", "adsorbate lost the priority of the molecule")
    p = X[op["idx"]]
    d = np.linalg.norm(A - p, axis=1)
    if target is not None:
        if not 0 <= target < len(A):
            raise Violation("target", f"bonded to atom {target} of {len(A)}")
        if abs(d[target] - op["bond"]) > 1e-6:
            raise Violation("bond", f"bond length is {d[target]:.6f} instead of {op['bond']}")
        cand = [target]
    else:
        cand = list(np.nonzero(np.abs(d - op["bond"]) < 1e-6)[0])
        if not cand:
            raise Violation("bond", f"no atom of the volume lies the bond length {op['bond']} away from the chosen atom (nearest {d.min():.6f})")
    good = [c for c in cand if ok[c]]
    if not good:
        raise Violation("target", f"bonded to atom {cand[0]}, which the filters exclude")
    good = [c for c in good if not done[c]]
    if not good:
        raise Violation("target", f"bonded to atom {cand[0]}, which is buried")
    # rigid copy
    D0 = X0[:, None] - X0[None]
    D = X[:, None] - X[None]
    if not np.allclose(np.linalg.norm(D0, axis=2), np.linalg.norm(D, axis=2), atol=1e-6):
        raise Violation("rigid", "distances within the molecule changed")
    Y0, Y = X0 - X0[op["idx"]], X - p
    if len(X) >= 4:
        for i, j, k in [(0, 1, 2), (1, 2, 3), (0, 2, 3)]:
            if abs(np.linalg.det(Y0[[i, j, k]]) - np.linalg.det(Y[[i, j, k]])) > 1e-5:
                raise Violation("rigid", "adsorbate is a mirror image of the molecule")
    mv = (axis_angle(op["axis"], op["ang"]) if op["axis"] else np.eye(3)) @ v0
    mv = mv / np.linalg.norm(mv)
    err = []
    for c in good:
        nrm = (p - A[c]) / np.linalg.norm(p - A[c])
        err.append(np.max(np.abs(Y @ nrm - Y0 @ mv)))
    if min(err) > 1e-5:
        raise Violation("direction", f"reference direction of the molecule does not point along the bond (off by {min(err):.4f})")
    nrm = (p - A[good[int(np.argmin(err))]])
    nrm /= np.linalg.norm(nrm)
    # requested angle about the bond, against the same placement without rotation
    if op["rot"]:
        RNG.entropy.setstate(entropy)
        np.random.set_state(gs)
        o0 = call(0.0)[0]
        Q = axis_angle(nrm, op["rot"])
        want = (np.asarray(o0.atoms) - np.asarray(o0.atoms)[op["idx"]]) @ Q.T + p
        if not np.allclose(want, X, atol=1e-5):
            raise Violation("angle", f"adsorbate is not turned by {op['rot']} about the bond")
        sim.probe("angle_checked")
    c = n.ref.classify(X)
    if flag is not None:
        if flag and np.any(c == 1):
            raise Violation("flag", "success reported though an atom of the adsorbate lies in the volume")
        if not flag and np.all(c == -1):
            raise Violation("flag", "failure reported though the adsorbate lies outside the volume")
        sim.probe("success" if flag else "landed_inside")
    sim.probe("placed")
    sim.state(op["sampling"], len(X), len(A), target if target is not None else good[0])
    sim.log("placed", len(A), good[0], X.round(6).tolist())


def quiet(f, *a):
    try:
        return f(*a)
    except INJ:
        raise
    except Exception:
        return None
