"""C03: rigid motions move region, crystal and molecules coherently."""
import numpy as np

from ..core import Violation, rng_for
from ..ref import MATCH, RSurf, motion_affine, motion_basis_only, motion_locked, move
from ..seams import EXC
from ..world import World, build_motion, build_surf, gen_dir, gen_edit, gen_mol, gen_motion, gen_multi, gen_vol, move_ref, mods, r6, rvec
from .common import check_interior, interrupted_populate

ID = "C03"
RUNS = {"quick": 10000, "thorough": 150000}
LEVEL = "full"
PROF = {"rare": True, "p_null": 0.1, "p_multi": 0.3, "p_am": 0.0, "cb": 0.1, "spread": 3.0,
        "edits": {"recolour": 0.4, "move": 10, "genmove": 1.5, "genset": 0.5, "algedit": 0.4, "alg": 1, "gen": 1, "prio": 0.5, "copy": 1, "addp": 0.5}}


def gen_surf(r):
    n = gen_dir(r)
    k = r.choice(["pl", "sph", "cyl"])
    s = {"s": k, "p": rvec(r, 4.0)}
    if k != "sph":
        s["n"] = n
    if k != "pl":
        s["r"] = r6(r.uniform(1, 6))
    if k == "cyl":
        s["L"] = r6(r.uniform(2, 9))
    return s


def gen(r, tier):
    objs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.random()
        objs.append(gen_mol(r) if c < 0.2 else gen_multi(r, PROF) if c < 0.5 else gen_vol(r, PROF))
    ops = []
    for _ in range(r.randint(1, 8)):
        c = r.random()
        t = r.randrange(1000)
        if c < 0.12:
            ops.append({"op": "pop", "t": t})
        elif c < 0.17:
            ops.append({"op": "ipop", "t": t, "f": r.random(), "exc": r.choice(list(EXC)), "cb": r.random() < 0.3})
        elif c < 0.3:
            ops.append({"op": "cmove", "t": t, "ms": [gen_motion(r) for _ in range(r.randint(1, 3))]})
        elif c < 0.36:
            ops.append({"op": "arr", "m": gen_motion(r), "n": r.randint(1, 5), "seed": t, "int": r.random() < 0.2})
        elif c < 0.46:
            ops.append({"op": "surf", "s": gen_surf(r), "ms": [gen_motion(r) for _ in range(r.randint(1, 3))], "seed": t})
        elif c < 0.52:
            ops.append({"op": "gencopy", "t": t, "ms": [gen_motion(r) for _ in range(r.randint(1, 2))]})
        elif c < 0.58:
            ops.append({"op": "molrigid", "t": t, "m": gen_motion(r), "o": r.random() < 0.7})
        else:
            ops.append(gen_edit(r, PROF))
    return {"objs": objs, "ops": ops}


def lattice(n):
    """Bases and (up to a lattice vector) origin of a crystal, to rounding errors."""
    c = n.ref.crystal
    if c is None:
        return
    v = n.ob.generator.voxel
    B, o = np.asarray(v.sbases), np.asarray(v.origin)
    if np.abs(B - c.B).max() > 1e-9 * np.abs(c.B).max():
        raise Violation("crystal", f"bases of a moved crystal are off by {np.abs(B - c.B).max():.2g}")
    f = np.linalg.solve(c.B, o - c.o)
    d = np.linalg.norm(c.B @ (f - np.round(f)))
    if d > 1e-9 * (10 + np.abs(c.o).max()):
        raise Violation("crystal", f"origin of a moved crystal is {d:.2g} off its place")


def check_motion_arrays(w, op):
    r = rng_for("arr", op["seed"])
    T = build_motion(op["m"])
    M, t = motion_affine(op["m"])
    X = np.array([[r.gauss(0, 6) for _ in range(3)] for _ in range(op["n"])])
    if op.get("int"):
        X = np.round(X).astype(int)
    Y = X.copy()
    got = w.call("applyTransformation", lambda: T.applyTransformation(Y))
    if not np.array_equal(X, Y):
        raise Violation("input", "applyTransformation changed the points passed in")
    if np.shape(got) != X.shape or not np.allclose(got, move(M, t, X), atol=1e-7):
        raise Violation("motion", f"{op['m']['m']} maps {X[0].tolist()} to {np.asarray(got).ravel()[:3].tolist()} instead of {move(M, t, X)[0].tolist()}")
    B = np.array([[r.gauss(0, 3) for _ in range(3)] for _ in range(3)])
    Bc = B.copy()
    got = w.call("applyTransformation_bases", lambda: T.applyTransformation_bases(Bc))
    if not np.array_equal(B, Bc):
        raise Violation("input", "applyTransformation_bases changed the bases passed in")
    if not np.allclose(got, M @ B, atol=1e-7):
        raise Violation("motion", f"{op['m']['m']} turns bases wrongly")
    if T.locked != motion_locked(op["m"]) or T.basis_only != motion_basis_only(op["m"]):
        raise Violation("motion", "locked/basis_only of the motion are not the ones given")


def check_surface(w, op):
    r = rng_for("surf", op["seed"])
    A = build_surf(op["s"])
    ref = RSurf(op["s"])
    Ts = [build_motion(m) for m in op["ms"]]
    if op["seed"] % 2:
        B = w.call("from_alg_object", lambda: A.from_alg_object(transformation=Ts))
    else:
        B = A
        for T in Ts:
            B = w.call("applyTransformation_alg", lambda: T.applyTransformation_alg(B))
    for m in op["ms"]:
        M, t = motion_affine(m)
        ref.move(M, t)
    h = max(ref.r or 0, (ref.L or 0) / 2, 3.0) * 1.5
    X = ref.c + np.array([[r.uniform(-h, h) for _ in range(3)] for _ in range(60)])
    sd = ref.sd(X)
    got = w.call("checkIfInterior", lambda: B.checkIfInterior(X))
    bad = np.nonzero(((sd < 5e-6) & ~got) | ((sd > 2e-5) & got))[0]
    if len(bad):
        raise Violation("surface", f"moved {op['s']['s']} misjudges {X[bad[0]].round(4).tolist()} ({sd[bad[0]]:.5f} from its surface)")


def check_mol(n, what):
    a, s = np.asarray(n.ob.atoms), np.asarray(n.ob.species)
    if a.shape != n.ref.X.shape or not np.allclose(a, n.ref.X, atol=MATCH):
        raise Violation("molecule", f"{what}: atoms of molecule are not where the motions put them")
    if not np.array_equal(s, n.ref.Z):
        raise Violation("molecule", f"{what}: species of molecule changed")
    o = n.ref.X[n.ref.oidx] if n.ref.oidx is not None else n.ref.o
    if not np.allclose(n.ob.origin, o, atol=MATCH):
        raise Violation("molecule", f"{what}: origin of molecule is {np.round(n.ob.origin, 4).tolist()} instead of {np.round(o, 4).tolist()}")


def run(sim):
    w = World(sim)
    for s in sim.plan["objs"]:
        w.tops.append(w.call("build", lambda: w.build(s)))
    for op in sim.plan["ops"]:
        sim.steps += 1
        k = op["op"]
        if k == "pop":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is not None:
                w.call("populate_atoms", n.ob.populate_atoms)
                sim.log("pop", w.check_node(n, "populated " + n.kind))
        elif k == "ipop":
            interrupted_populate(w, op)
        elif k == "cmove":
            n = w.pick(op["t"], ("vol", "multi", "mol"), top=True)
            if n is None or len(w.tops) >= 6:
                continue
            cp = w.copy_node(n, [build_motion(m) for m in op["ms"]])
            for m in op["ms"]:
                move_ref(cp, m)
            w.tops.append(cp)
            sim.probe("moved_copies")
        elif k == "arr":
            check_motion_arrays(w, op)
        elif k == "surf":
            check_surface(w, op)
        elif k == "gencopy":
            n = w.pick(op["t"], ("vol",))
            if n is None or n.ref.crystal is None:
                continue
            g = w.call("from_generator", lambda: n.ob.generator.from_generator(transformation=[build_motion(m) for m in op["ms"]]))
            w.call("add_generator", lambda: n.ob.add_generator(g))
            for m in op["ms"]:
                n.ref.crystal.move(m)
        elif k == "molrigid":
            n = w.pick(op["t"], ("mol",))
            if n is None:
                continue
            o = None if n.ref.oidx is not None else n.ref.o.copy()
            w.call("molecule.transform", lambda: n.ob.transform(build_motion(op["m"]), transform_origin=op["o"]))
            move_ref(n, op["m"])
            if o is not None and not op["o"]:
                n.ref.o = o
        else:
            w.edit(op)
            if k in ("move", "genmove"):
                sim.probe("motion_" + op["m"]["m"])
                if not motion_locked(op["m"]):
                    sim.probe("uncoupled_motion")
        for n in w.flat(("mol",)):
            check_mol(n, f"after {k}")
    r = rng_for("probe", sim.seed)
    for n in w.tops:
        if n.kind == "mol":
            continue
        check_interior(w, n, r, "moved " + n.kind)
        for m in w.flat(("vol",)):
            lattice(m)
        w.call("populate_atoms", n.ob.populate_atoms)
        c = w.check_node(n, "moved " + n.kind)
        sim.state(n.kind, c, [o["op"] for o in sim.plan["ops"]])
        sim.log("end", n.kind, c)
