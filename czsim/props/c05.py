"""C05: reading, populating and deriving never change a definition nor an argument; a retry is as good as a first try."""
import numpy as np

from ..core import INJ, InjectedFailure, Violation, derive, rng_for
from ..ref import axis_angle
from ..seams import EXC, MON, RNG
from ..world import (World, build_motion, build_surf, gen_crystal, gen_dir, gen_mol, gen_motion, gen_points, gen_vol, gen_multi,
                     mods, r6, rvec, sdiff, snap, snap_strain)
from .c04 import FCC, dsnap, gen_strain

ID = "C05"
RUNS = {"quick": 5000, "thorough": 75000}
LEVEL = "jump"
SHRINK = ["ops", "objs"]

OPS = {"pop": 10, "scene": 8, "interior": 5, "bbox": 4, "copy": 6, "gencopy": 4, "surfcopy": 3, "supply": 4, "motion": 5,
       "new": 6, "prefab": 3, "wz": 2, "rdf": 3, "s2s": 3, "snapplane": 3, "alpha": 2, "ads": 3, "helpers": 2, "newmol": 3,
       "newgen": 2, "hull": 2, "group": 3, "post": 3, "am": 2, "wulff": 1, "read": 3, "sceneq": 2}
WZ = {"g": "x", "sg": 186, "cell": [3.25, 3.25, 5.2], "ang": [90, 90, 120], "Z": [30, 8],
      "frac": [[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, 0.382]], "o": None}


def gen_op(r):
    k = r.choices(list(OPS), list(OPS.values()))[0]
    return {"op": k, "t": r.randrange(99), "u": r.randrange(99), "m": [gen_motion(r) for _ in range(r.randint(1, 2))], "v": rvec(r, 3.0),
            "n": gen_dir(r), "s": r.randrange(10 ** 6), "N": r.randint(1, 2), "b": r.random() < 0.5,
            "fault": r.random() < 0.7, "f": r.random(), "exc": r.choice(list(EXC)), "cb": r.random() < 0.3}


def gen(r, tier):
    prof = {"size": r.uniform(4, 8), "cb": 0.35, "p_mol": 0.0, "p_am": 0.0}
    objs = []
    for _ in range(r.randint(1, 3)):
        c = r.random()
        o = gen_multi(r, prof) if c < 0.3 else gen_mol(r) if c < 0.5 else gen_vol(r, prof)
        if o["k"] == "mol":
            o["ori"] = [gen_dir(r), r6(r.uniform(-3, 3))]
        objs.append(o)
    gens = [gen_crystal(r)]
    gens[0]["strain"] = gen_strain(r) if r.random() < 0.3 else None
    return {"objs": objs, "gens": gens, "surf": [{"s": "sph", "p": rvec(r, 2), "r": 4.0}, {"s": "pl", "n": gen_dir(r), "p": rvec(r, 2)},
                                                 {"s": "cyl", "n": gen_dir(r), "p": rvec(r, 2), "r": 3.0, "L": 6.0}],
            "mots": [gen_motion(r) for _ in range(2)], "pts": gen_points(r, rvec(r, 2.0), r.uniform(4, 7)),
            "fcc": {"r": r6(r.uniform(5.5, 7)), "c": rvec(r, 2.0)}, "ops": [gen_op(r) for _ in range(r.randint(2, 6))],
            "pop0": r.random() < 0.4}


def simplify(plan):
    for i, o in enumerate(plan["ops"]):
        for k in ("fault", "cb"):
            if o.get(k):
                yield {**plan, "ops": plan["ops"][:i] + [{**o, k: False}] + plan["ops"][i + 1:]}
        if len(o["m"]) > 1:
            yield {**plan, "ops": plan["ops"][:i] + [{**o, "m": o["m"][:1]}] + plan["ops"][i + 1:]}
    if plan["pop0"]:
        yield {**plan, "pop0": False}


class Side:
    """One copy of everything the operations use."""

    def __init__(self, sim):
        p = sim.plan
        c = mods()
        w = self.w = World(sim)
        self.obs = []
        for s in p["objs"]:
            n = w.build(s)
            if s["k"] == "mol":
                n.ob.orientation = axis_angle(*s["ori"])
            w.tops.append(n)
            self.obs.append(n.ob)
        self.vols = [n.ob for n in w.flat(("vol",))]
        self.groups = [n.ob for n in w.flat(("multi",))]
        self.mols = [n.ob for n in w.flat(("mol",))]
        self.gens = []
        from czone.transform.strain import HStrain
        for s in p["gens"]:
            g, _ = w.source(s)
            if s.get("strain") and s.get("o") is not None:
                g.strain_field = HStrain(matrix=np.eye(3) + np.diag(s["strain"]["rate"]), mode=s["strain"]["mode"])
            self.gens.append(g)
        self.surf = [build_surf(s) for s in p["surf"]]
        self.mots = [build_motion(m) for m in p["mots"]]
        self.pts = np.array(p["pts"], float)
        self.fg, _ = w.source(FCC)
        self.wg, _ = w.source(WZ)
        sph = c.A.Sphere(p["fcc"]["r"], np.array(p["fcc"]["c"]))
        self.fcc = c.V.Volume(alg_objects=[sph], generator=self.fg)
        self.wz = c.V.Volume(alg_objects=[sph], generator=self.wg)
        self.fcc.populate_atoms()
        self.chem = c.Po.ChemicalSubstitution([79, 30], [5, 7], 0.5)
        self.seq = c.Po.PostSequence([self.chem, c.Po.ChemicalSubstitution([8], [6], 0.3)])
        self.scene = c.S.Scene(bounds=np.array([[0., 0, 0], [20, 20, 20]]), objects=list(self.obs))
        self.am = c.G.AmorphousGenerator(min_dist=1.4, density=0.05, species=6)
        self.am2 = c.G.AmorphousGenerator(min_dist=1.5, density=0.04, species=14)
        self.am2.use_old_result = True
        self.others = [self.am2] + self.gens + self.surf + self.mots + [self.fg, self.wg, self.fcc, self.wz, self.chem, self.seq, self.am]
        if p["pop0"]:
            for o in self.vols + self.groups:
                o.populate_atoms()
            self.scene.populate()

    def state(self):
        out = [gsnap(o) for o in self.obs + self.others] + [("pts", self.pts.tobytes())]
        out.append(("scene", self.scene.bounds.tobytes(), tuple(sorted(self.obs.index(o) for o in self.scene.objects))))
        # who is whose member, by identity
        ids = {id(v): i for i, v in enumerate(self.vols + self.groups)}
        out.append(("members",) + tuple(tuple(sorted(ids.get(id(v), -1) for v in g.volumes)) for g in self.groups))
        return out


def gsnap(o):
    """Definition only, independent of identities and of the order of members."""
    c = mods()
    if isinstance(o, c.V.MultiVolume):
        return ("multi", o.priority, tuple(sorted((gsnap(v) for v in o.volumes), key=repr)))
    return snap(o)


def val(x):
    """Result of an operation as comparable value."""
    c = mods()
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            x = np.round(x, 9) + 0.0
        return ("arr", x.shape, x.tobytes()) if x.dtype != object else ("obj", repr(x))
    if isinstance(x, (list, tuple)):
        return tuple(val(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, val(v)) for k, v in x.items())
    if isinstance(x, c.V.BaseVolume):
        return dsnap(x)
    if isinstance(x, (c.G.BaseGenerator, c.A.BaseAlgebraic, c.Mo.BaseMolecule, c.T.BaseTransform)):
        return snap(x)
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    return type(x).__name__


def operation(S, op):
    """Returns (call, args): call() performs the operation on side S; args are the caller's containers."""
    c, k, t, u = mods(), op["op"], op["t"], op["u"]
    v = np.array(op["v"])
    X = np.array(S.pts) + v * 0.3
    Ts = [build_motion(m) for m in op["m"]]

    def pk(l):
        return l[t % len(l)] if l else None
    if k == "pop":
        o = pk(S.vols + S.groups)
        if o is None:
            return None
        return (lambda: (o.populate_atoms(), o.atoms, o.species)[1:]), []
    if k == "scene":
        def f():
            S.scene.populate()
            return S.scene.all_atoms, S.scene.all_species
        return f, []
    if k == "read":
        o = pk(S.vols + S.groups + [S.fcc])

        def f():
            try:
                return o.atoms, o.species, o.ase_atoms.get_positions()
            except INJ:
                raise
            except Exception as e:
                return type(e).__name__
        return f, []
    if k == "sceneq":
        B = np.array([[-5., -5, -5], [30, 31, 32]])
        obs = list(S.obs)

        def f():
            sc = c.S.Scene(bounds=B, objects=obs)
            sc.populate()
            at = sc.ase_atoms
            # working with the scene does not touch what it was given
            sc.add_object(S.fcc)
            sc.bounds = np.array([[0., 0, 0], [9, 9, 9]])
            return np.sort(at.get_positions(), axis=0)
        return f, [B, obs]
    if k == "interior":
        o = pk(S.vols + S.groups + S.surf)
        P = X if op["b"] or o in S.surf else X[0]
        return (lambda: o.checkIfInterior(P)), [P]
    if k == "bbox":
        o = pk(S.vols)
        return o and ((lambda: o.get_bounding_box()), [])
    if k == "copy":
        o = pk(S.obs)
        how = o.from_molecule if o in S.mols else o.from_volume
        kw = {"transformation": Ts}
        if op["b"] and o in S.vols:
            kw["generator"] = S.gens[0]
        return (lambda: how(**kw)), [Ts]
    if k == "group":
        vs = list(S.vols)
        if not vs:
            return None

        def f():
            g = c.V.MultiVolume(vs)
            h = g.from_volume(transformation=Ts)
            h.populate_atoms()
            h.transform(Ts[0])
            g.add_volume(h)
            return h
        return f, [vs, Ts]
    if k == "gencopy":
        g = pk(S.gens + [S.fg])
        return (lambda: g.from_generator(transformation=Ts)), [Ts]
    if k == "surfcopy":
        s = pk(S.surf)
        return (lambda: s.from_alg_object(transformation=Ts)), [Ts]
    if k == "supply":
        g = pk(S.gens + [S.fg, S.am])
        return (lambda: g.supply_atoms(X)), [X]
    if k == "motion":
        T = pk(S.mots + Ts)

        def f():
            a = T.applyTransformation(X)
            b = [T.applyTransformation_alg(s.from_alg_object()) for s in S.surf]
            return a, b
        return f, [X, Ts]
    if k == "new":
        al = list(S.surf[:1 + u % 2])
        P, o = X, np.array(v)
        g = [S.gens[0], S.gens[0], S.am, S.am2][u % 4]

        def f():
            if u % 4 > 1:
                n = c.V.Volume(points=P, generator=g)
                n.populate_atoms()
                n = n.from_volume(transformation=[Ts[0]])
                n.populate_atoms()
                n.add_generator(S.am2 if op["b"] else S.am)
                n.populate_atoms()
                return n.atoms
            n = c.V.Volume(points=P, alg_objects=al, generator=g, gen_origin=o)
            n.add_alg_object(S.surf[2])
            n.transform(Ts[0])
            n.addPoints(P * 0.5)
            n.generator.transform(Ts[-1])
            n.points = P * 2.0
            return n
        return f, [P, al, o, Ts]
    if k == "newmol":
        Z, P, o = np.array([6, 8, 1, 7, 9, 1, 1, 1][:min(8, len(X))]), X[:8], np.array(v)

        def f():
            m = c.Mo.Molecule(Z, P, origin=o)
            m.print_warnings = False
            m.transform(Ts[0])
            Q = np.array(P) * 2
            m.update_positions(Q)
            m.set_origin(idx=0)
            m.transform(Ts[-1])
            m.remove_atoms([1])
            return m
        return f, [Z, P, o, Ts]
    if k == "newgen":
        Z, fr, cell, o = [6, 8], np.array([[0., 0, 0], [.5, .5, .5]]), np.array([4., 4, 5]), np.array(v)

        def f():
            g = c.G.Generator.from_unit_cell(Z, fr, cell, [90, 90, 120], origin=o)
            g.transform(Ts[0])
            g.origin = g.origin + 1.0
            return g, g.supply_atoms(X)
        return f, [Z, fr, cell, o, X, Ts]
    if k == "prefab":
        from czone.prefab import fccMixedTwinSF
        pl = [1, 1, 1] if op["b"] else (1, -1, 1)

        def f():
            r = fccMixedTwinSF(generator=S.fg, volume=S.fcc, N=op["N"], min_sep=2, ratio=(u % 3) / 2, plane=pl).build_object(return_defect_types=True)
            r[0].populate_atoms()
            r[0].transform(Ts[0])
            return r
        return f, [pl, Ts]
    if k == "wz":
        from czone.prefab import wurtziteStackingFault

        def f():
            r = wurtziteStackingFault(generator=S.wg, volume=S.wz, N=1, min_sep=2).build_object()
            r.transform(Ts[0])
            return r
        return f, [Ts]
    if k == "rdf":
        from czone.util.measure import calc_rdf
        P = np.array([rng_for(op["s"], i).random() * 7 for i in range(60)]).reshape(-1, 3) - v

        def f():
            try:
                return calc_rdf(P, cutoff=8.0, px=op["b"], py=True, pz=True)
            except INJ:
                raise
            except Exception as e:      # only side effects are of interest here
                return type(e).__name__
        return f, [P]
    if k == "s2s":
        from czone.transform import s2s_alignment
        a, b = S.surf[1], build_surf({"s": "pl", "n": op["n"], "p": op["v"]})
        p, q = v[None] * 1.0, X[:1]
        return (lambda: s2s_alignment(a, b, p, q)), [b, p, q]
    if k == "snapplane":
        from czone.volume.algebraic import snap_plane_near_point
        g, p, m = S.fg, np.array(v), [1, 1, 0] if op["b"] else (1, -2, 1)
        return (lambda: snap_plane_near_point(p, g, m, mode=["nearest", "ceil", "floor"][u % 3])), [p, m]
    if k == "alpha":
        from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
        P = np.array(S.fcc.atoms)
        if op["b"]:
            return (lambda: sorted(alpha_shape_alg_3D(P, 2.5, rng=np.random.default_rng(1)))), [P]
        return (lambda: sorted(alpha_shape_alg_3D_with_sampling(P, 2.5, 3, seed=1))), [P]
    if k == "ads":
        from czone.surface.adsorbate import add_adsorbate
        m = pk(S.mols)
        if m is None:
            return None
        fl = {"indices": list(range(0, len(S.fcc.atoms))), "element": ["Au", 6]}
        mask = np.ones(len(S.fcc.atoms), bool)
        fl["mask"] = mask
        vec = np.array([0., 1, 1])
        return (lambda: add_adsorbate(m, 0, 2.0, S.fcc, mol_vector=vec, mol_rotation=0.3, filters=fl, seed=op["s"], use_sampling=False)), [fl, mask, vec]
    if k == "helpers":
        T = mods().T
        a, b = np.array(op["n"]), np.array(v)
        return (lambda: (T.rot_v(a, 0.4), T.rot_vtv(a, b), T.rot_zxz(.1, .2, .3), c.V.makeRectPrism(3, 4, 5, center=b))), [a, b]
    if k == "hull":
        from czone.volume.algebraic import convex_hull_to_planes, get_bounding_box
        P = X

        def f():
            pl = convex_hull_to_planes(P)
            keep = [snap(q) for q in pl]
            bb = get_bounding_box(pl)
            if [snap(q) for q in pl] != keep:
                raise Violation("input", "get_bounding_box changed the planes passed in")
            return bb
        return f, [P]
    if k == "post":
        t_ = S.seq if op["b"] else S.chem
        Zs = np.array([79, 30, 8, 6] * 3)
        P = np.arange(36.).reshape(12, 3)
        return (lambda: t_.apply_function(P, Zs)), [P, Zs]
    if k == "am":
        from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
        d = [8.0, 9.0, 7.0] if op["b"] else np.array([8.0, 9.0, 7.0])
        return (lambda: (gen_p_substrate(d, 1.4, 0.05, seed=op["s"]), gen_p_substrate_batched(d, 1.4, 0.05, seed=op["s"]))), [d]
    if k == "wulff":
        from czone.prefab.wulff import WulffSingle
        en = {(1, 1, 1): 1.0, (1, 0, 0): 1.1}
        def f():
            n = WulffSingle(S.fg, en, natoms=200 + 50 * (u % 3)).get_construction()
            n.transform(Ts[0])
            n.populate_atoms()
            return n
        return f, [en, Ts]
    raise ValueError(k)


def run(sim):
    A, B = Side(sim), Side(sim)
    for i, op in enumerate(sim.plan["ops"]):
        sim.steps += 1
        a, b = operation(A, op), operation(B, op)
        if not a:
            continue
        (fa, xa), (fb, xb) = a, b
        # undisturbed, on its own copy of everything
        seed = derive(sim.plan["seed"], i) % 2 ** 48
        want, n = guard(fb, B, xb, op, "undisturbed", seed, count=True)
        s0, x0 = A.state(), [snap(x) for x in xa]
        if op["fault"]:
            reseed(seed)
            if op["cb"]:
                A.w.fail_at = 1 + int(op["f"] * 3)
                try:
                    fa()
                except INJ:
                    sim.fault("failing_callback")
                except Exception:
                    pass
                A.w.fail_at = None
            else:
                try:
                    fired, _ = MON.inject(fa, 1 + int(op["f"] * n), EXC[op["exc"]])
                except Violation:
                    raise
                except Exception:      # judged by the undisturbed run
                    fired = None
                if fired:
                    sim.fault(op["exc"])
                    sim.state(op["op"], fired[0])
            MON.set_level("jump")
            same(s0, A.state(), f"interrupted {op['op']}")
            args(x0, xa, f"interrupted {op['op']}")
        got, _ = guard(fa, A, xa, op, "repeated" if op["fault"] else "undisturbed", seed)
        if want != got:
            raise Violation("retry", f"{op['op']} gives another result after an interrupted attempt: "
                            f"{sdiff(want, got, 'result') if type(want) is tuple and type(got) is tuple else (want, got)}")
        sim.probe("op_" + op["op"])
        if isinstance(want, tuple) and want and want[0] == "raised":
            sim.probe("raised_" + op["op"])
        sim.log(op["op"], n)


def reseed(seed):
    b = RNG.budget
    RNG.reset(seed, RNG.adv, b)


def guard(f, S, xs, op, what, seed, count=False):
    s0, x0 = S.state(), [snap(x) for x in xs]
    n = 0
    reseed(seed)
    try:
        if count:
            box = []
            n = MON.measure(lambda: box.append(f()))
            MON.set_level("jump")
            r = box[0]
        else:
            r = f()
        r = val(r)
    except INJ + (Violation,):
        raise
    except Exception as e:
        r = ("raised", type(e).__name__, str(e)[:100])
    MON.set_level("jump")
    same(s0, S.state(), f"{what} {op['op']}")
    args(x0, xs, f"{what} {op['op']}")
    return r, n


def same(a, b, what):
    if a != b:
        for x, y in zip(a, b):
            if x != y:
                raise Violation("definition", f"{what} changed a definition: {sdiff(x, y)}")


def args(a, xs, what):
    for x, y in zip(a, [snap(x) for x in xs]):
        if x != y:
            raise Violation("input", f"{what} changed an argument of the caller: {sdiff(x, y, 'argument')}")
