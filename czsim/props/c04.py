"""C04: what is derived from a template never shares changeable state with it; threads do not disturb each other."""
import numpy as np

from ..core import Violation, adig, derive, rng_for
from ..seams import MON, RNG, Scheduler
from ..world import (C, World, build_motion, build_surf, gen_crystal, gen_dir, gen_mol, gen_motion, gen_multi, gen_points,
                     gen_prio, gen_region, mods, r6, rvec, sdiff, snap)

ID = "C04"
RUNS = {"quick": 3000, "thorough": 45000}
LEVEL = "jump"
SHRINK = ["threads", "tmpl"]

FCC = {"g": "x", "sg": 225, "cell": [4.08] * 3, "ang": [90] * 3, "Z": [79], "frac": [[0, 0, 0]], "o": None}


# ---------------------------------------------------------------- plans
def gen_strain(r):
    return {"rate": [r6(r.uniform(-.04, .05)) for _ in range(3)], "mode": r.choice(["crystal", "standard"])}


def gen_tmpl(r):
    from ..world import gen_vol
    prof = {"size": r.uniform(4, 7), "p_null": 0.03, "cb": 0.0}
    T = {"vol": [], "multi": [], "mol": [], "gen": [], "surf": [], "mot": []}
    for _ in range(r.randint(1, 2)):
        T["vol"].append(gen_vol(r, prof))
    if r.random() < 0.5:
        T["multi"].append(gen_multi(r, prof))
    if r.random() < 0.5:
        m = gen_mol(r)
        m["ori"] = [gen_dir(r), r6(r.uniform(-3, 3))]
        T["mol"].append(m)
    for _ in range(r.randint(1, 2)):
        g = gen_crystal(r)
        g["strain"] = gen_strain(r) if r.random() < 0.2 and g.get("o") is not None else None
        g["post"] = r.random() < 0.3
        T["gen"].append(g)
    for _ in range(r.randint(1, 2)):
        c, n = rvec(r, 1.0), gen_dir(r)
        T["surf"].append(r.choice([{"s": "sph", "p": c, "r": r6(r.uniform(3, 5))}, {"s": "pl", "n": n, "p": c},
                                   {"s": "cyl", "n": n, "p": c, "r": r6(r.uniform(2, 4)), "L": r6(r.uniform(4, 8))}]))
    for _ in range(r.randint(1, 2)):
        T["mot"].append(gen_motion(r))
    T["am"] = [{"g": "am", "Z": r.choice([6, 14]), "d": r6(r.uniform(1.4, 2.0)), "rho": r6(r.uniform(0.01, 0.03))}] if r.random() < 0.3 else []
    T["pop"] = r.random() < 0.4
    T["fcc"] = {"r": r6(r.uniform(5.5, 7)), "c": rvec(r, 2.0)} if r.random() < 0.2 else None
    return T


DERIVE = ["vol", "vol", "vol", "volgen", "new", "multi", "group", "gen", "surf", "mol", "mol", "molnew", "volam", "am", "prefab", "ads", "fresh", "fresh"]
EDIT = ["am", "move", "move", "movet", "addp", "setp", "alg", "algt", "prio", "gen", "genmove", "molpos", "molsp", "molrm", "molo",
        "member", "tol"]


def gen_thread(r):
    ops = []
    for _ in range(r.randint(1, 3)):
        d = r.choice(DERIVE)
        ops.append({"d": d, "t": r.randrange(99), "u": r.randrange(99), "m": r.random() < 0.4, "s": r.randrange(10 ** 6),
                    "reg": gen_points(r, rvec(r, 2.0), r.uniform(4, 6))})
        for _ in range(r.randint(0, 3)):
            ops.append({"e": r.choice(EDIT), "t": r.randrange(99), "u": r.randrange(99), "m": gen_motion(r), "p": rvec(r, 3.0),
                        "prio": gen_prio(r), "s": r.randrange(10 ** 6)})
        ops.append({"pop": r.random() < 0.75, "t": r.randrange(99)})
    if r.random() < 0.35:
        ops.append({"scene": True})
    ops.append({"poke": r.random() < 0.6, "look": r.random() < 0.6})
    return ops


def gen(r, tier):
    n = r.randint(2, 4)
    return {"tmpl": gen_tmpl(r), "threads": [gen_thread(r) for _ in range(n)], "q": r.choice([1, 3, 10, 40, 200, 1000]),
            "kill": {str(r.randrange(n)): r.choice([r.randint(1, 300), r.randint(1, 5000)])} if r.random() < 0.25 else {}}


def simplify(plan):
    for i, t in enumerate(plan["threads"]):
        for j in range(len(t)):
            yield {**plan, "threads": plan["threads"][:i] + [t[:j] + t[j + 1:]] + plan["threads"][i + 1:]}
    if plan["kill"]:
        yield {**plan, "kill": {}}
    for q in (1, 10, 1000, 10 ** 9):
        if q != plan["q"]:
            yield {**plan, "q": q} if q > plan["q"] else plan
    T = plan["tmpl"]
    for k in ("vol", "multi", "mol", "gen", "surf", "mot", "am"):
        for i in range(len(T[k])):
            yield {**plan, "tmpl": {**T, k: T[k][:i] + T[k][i + 1:]}}


# ---------------------------------------------------------------- templates
class Tm:
    """Templates shared by all threads."""

    def __init__(self, sim):
        T = sim.plan["tmpl"]
        w = self.w = World(sim)
        c = mods()
        from czone.transform.strain import HStrain
        self.vol = [w.build(s).ob for s in T["vol"]]
        self.multi = [w.build(s).ob for s in T["multi"]]
        self.mol = []
        for s in T["mol"]:
            m = w.build(s).ob
            from ..ref import axis_angle
            m.orientation = axis_angle(*s["ori"])
            self.mol.append(m)
        self.gen = []
        for s in T["gen"]:
            g, _ = w.source(s)
            if s.get("strain"):
                F = np.eye(3) + np.diag(s["strain"]["rate"])
                g.strain_field = HStrain(matrix=F, mode=s["strain"]["mode"])
            if s.get("post"):
                z = int(g.species[0])
                g.post_transform = c.Po.ChemicalSubstitution([z], [5], 0.4)
            self.gen.append(g)
        self.surf = [build_surf(s) for s in T["surf"]]
        self.mot = [build_motion(m) for m in T["mot"]]
        self.am = [w.source(s)[0] for s in T["am"]]
        if T.get("pop"):
            for o in self.am:
                o.supply_atoms(np.array([[0., 0, 0], [6, 6, 6]]))
            for o in self.vol + self.multi:
                o.populate_atoms()
        self.fcc = self.fg = None
        if T["fcc"]:
            self.fg, _ = w.source(FCC)
            self.fcc = c.V.Volume(alg_objects=[c.A.Sphere(T["fcc"]["r"], np.array(T["fcc"]["c"]))], generator=self.fg)
            self.fcc.populate_atoms()
        self.sp = np.array([6, 8, 1, 1, 7, 6])
        self.pts = np.array([[0., 0, 0], [5, 0, 0], [0, 5, 0], [0, 0, 5], [5, 5, 5], [5, 5, 0]])

    def all(self):
        out = [(k, o) for k in ("vol", "multi", "mol", "gen", "surf", "mot", "am") for o in getattr(self, k)]
        if self.fcc is not None:
            out += [("vol", self.fcc), ("gen", self.fg)]
        return out + [("array", self.pts), ("array", self.sp)]

    def state(self):
        """Definitions and present atoms of every template."""
        c = mods()
        out = []
        for k, o in self.all():
            s = [k, snap(o)]
            if isinstance(o, c.V.BaseVolume):
                s += [atoms_of(o)]
            if isinstance(o, c.G.AmorphousGenerator):
                s += [None if o.old_result is None else tuple(np.asarray(x).tobytes() for x in o.old_result)]
            out.append(tuple(s))
        return out


def atoms_of(o):
    try:
        a, s = np.asarray(o.atoms), np.asarray(o.species)
    except Exception:
        return None
    return a.shape, a.tobytes(), s.tobytes()


def dsnap(o):
    """Definition and atoms, comparable across runs (no object identities)."""
    c = mods()
    if isinstance(o, c.V.MultiVolume):
        return ("multi", o.priority, tuple(dsnap(v) for v in o.volumes), atoms_of(o))
    if isinstance(o, c.V.BaseVolume):
        return (snap(o), atoms_of(o))
    return snap(o)


def cell():
    return mods().G.Generator.from_unit_cell([79, 8], [[0, 0, 0], [.5, .5, .5]], [3.0, 3.5, 4.0], [90, 90, 90])


def strained():
    from czone.transform.strain import HStrain
    g = cell()
    g.strain_field = HStrain()
    return g


# things made with as little said as possible
FRESH = [cell, cell, strained,
         lambda: mods().V.Volume(points=CUBE * 1.0, generator=cell()),
         lambda: mods().V.Volume(points=CUBE * 1.0),
         lambda: mods().V.Volume(generator=mods().G.AmorphousGenerator()),
         lambda: mods().Mo.Molecule(np.array([6, 8, 1]), CUBE[:3] * 1.0),
         lambda: mods().V.MultiVolume(),
         lambda: mods().G.AmorphousGenerator()]
CUBE = np.array([[x, y, z] for x in (0., 4.) for y in (0., 4.) for z in (0., 4.)])


def fresh():
    """What is made anew is as it always is."""
    T, A = mods().T, mods().A
    R = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])
    return [dsnap(f()) for f in FRESH] + [snap(f()) for f in (lambda: T.Rotation(R), lambda: T.MatrixTransform(R), T.Inversion)]


# ---------------------------------------------------------------- threads
class Caller:
    def __init__(self, tm, ops, seed):
        self.tm, self.ops, self.seed = tm, ops, seed
        self.L = []
        self.rec = []

    def __call__(self):
        undo = RNG.own_stream(self.seed)
        try:
            for op in self.ops:
                try:
                    self.step(op)
                    self.rec.append("ok")
                except Exception as e:
                    self.rec.append(("raised", type(e).__name__, str(e)[:80]))
        finally:
            undo()
        return self.rec

    def step(self, op):
        if "d" in op:
            o = self.derive(op)
            if o is not None:
                self.L.append(o)
                self.rec.append(dsnap(o))
        elif "e" in op:
            if self.L:
                o = self.L[op["t"] % len(self.L)] if op["u"] % 3 == 0 else self.L[-1]
                i = next(i for i, x in enumerate(self.L) if x is o)
                n = self.edit(o, op)
                if n is not None:
                    self.L[i] = o = n
                self.rec.append(dsnap(o))
        elif "pop" in op:
            c = mods()
            for o in self.L[-1:] if op["pop"] else []:
                if isinstance(o, c.V.BaseVolume):
                    o.populate_atoms()
                    self.rec.append(dsnap(o))
                elif isinstance(o, c.G.BaseGenerator):
                    X, S = o.supply_atoms(self.tm.pts * 1.0)
                    self.rec.append((np.asarray(X).tobytes(), np.asarray(S).tobytes()))
                elif isinstance(o, c.A.BaseAlgebraic):
                    self.rec.append(np.asarray(o.checkIfInterior(self.tm.pts * 1.0)).tobytes())
        elif "scene" in op:
            c = mods()
            obs = [o for o in self.L if isinstance(o, (c.V.BaseVolume, c.Mo.BaseMolecule))]
            if obs:
                sc = c.S.Scene(objects=list(obs))
                sc.populate()
                self.rec.append((np.asarray(sc.all_atoms).tobytes(), np.asarray(sc.all_species).tobytes()))
        else:
            if op.get("look"):     # queries of templates are harmless
                for v in self.tm.vol + self.tm.multi:
                    self.rec.append(np.asarray(v.checkIfInterior(self.tm.pts * 1.0)).tobytes())
            self.rec.append([dsnap(o) for o in self.L])
            if op.get("poke"):
                for o in self.L:
                    poke(o)

    def derive(self, op):
        tm, c, d = self.tm, mods(), op["d"]
        t, u = op["t"], op["u"]
        kw = {"transformation": [tm.mot[u % len(tm.mot)]]} if op["m"] and tm.mot else {}

        def pick(l):
            return l[t % len(l)] if l else None
        if d == "vol":
            o = pick(tm.vol)
            return o and o.from_volume(**kw)
        if d == "volgen":
            o = pick(tm.vol)
            return o and tm.gen and o.from_volume(generator=tm.gen[u % len(tm.gen)], **kw) or None
        if d == "new":
            g, s = pick(tm.gen), (tm.surf[u % len(tm.surf)] if tm.surf else None)
            pts = tm.pts if u % 2 else np.array(op["reg"])
            return c.V.Volume(points=pts, alg_objects=None if s is None else [s], generator=g, priority=u % 3)
        if d == "multi":
            o = pick(tm.multi)
            return o and o.from_volume(**kw)
        if d == "group":
            return c.V.MultiVolume([v.from_volume(**kw) for v in tm.vol]) if tm.vol else None
        if d == "gen":
            o = pick(tm.gen)
            return o and o.from_generator(**kw)
        if d == "surf":
            o = pick(tm.surf)
            return o and o.from_alg_object(**kw)
        if d == "mol":
            o = pick(tm.mol)
            return o and o.from_molecule(**kw)
        if d == "molnew":      # from arrays that belong to somebody else
            o = pick(tm.mol)
            if o is None or u % 3 == 0:
                return c.Mo.Molecule(tm.sp, tm.pts)
            if u % 3 == 1:
                return c.Mo.Molecule(o.species, o.atoms, origin=o.origin)
            return c.Mo.Molecule.from_ase_atoms(o.ase_atoms)
        if d == "volam":
            o = pick(tm.vol)
            if not tm.am:
                return None
            return o.from_volume(generator=tm.am[0], **kw) if o and u % 2 and bounded(o) else c.V.Volume(points=tm.pts, generator=tm.am[0])
        if d == "am":
            o = pick(tm.am)
            return o and o.from_generator(**kw)
        if d == "fresh":
            return FRESH[t % len(FRESH)]()
        if tm.fcc is None:
            return None
        if d == "prefab":
            from czone.prefab import fccMixedTwinSF
            return fccMixedTwinSF(generator=tm.fg, volume=tm.fcc, N=1, ratio=(u % 3) / 2, min_sep=2).build_object()
        if d == "ads":
            from czone.surface.adsorbate import add_adsorbate
            o = pick(tm.mol)
            return o and add_adsorbate(o, 0, 2.0, tm.fcc, use_sampling=False, probe_radius=2.5, seed=op["s"])[0]

    def edit(self, o, op):
        tm, c, e = self.tm, mods(), op["e"]
        p = np.array(op["p"])
        if e in ("move", "movet"):
            T = build_motion(op["m"]) if e == "move" or not tm.mot else tm.mot[op["u"] % len(tm.mot)]
            if isinstance(o, c.A.BaseAlgebraic):
                return T.applyTransformation_alg(o)
            o.transform(T)
        elif isinstance(o, c.V.MultiVolume):
            if e == "prio":
                o.priority = op["prio"]
            elif e == "member" and o.volumes:
                o.volumes[op["u"] % len(o.volumes)].transform(build_motion(op["m"]))
            elif e == "alg" and o.volumes:
                v = o.volumes[op["u"] % len(o.volumes)]
                if isinstance(v, c.V.Volume):
                    v.add_alg_object(c.A.Plane(np.array([0., 0, 1]), p))
        elif isinstance(o, c.V.Volume):
            if e == "addp":
                o.addPoints(p)
            elif e == "setp" and o.points is not None:
                o.points = np.array(o.points) * 1.1
            elif e == "alg":
                o.add_alg_object(c.A.Sphere(6.0, p))
            elif e == "algt" and tm.surf:
                o.add_alg_object(tm.surf[op["u"] % len(tm.surf)])
            elif e == "prio":
                o.priority = op["prio"]
            elif e == "gen" and tm.gen:
                o.add_generator(tm.gen[op["u"] % len(tm.gen)], p if op["s"] % 2 else None)
            elif e in ("genmove", "am") and isinstance(o.generator, c.G.AmorphousGenerator):
                am_edit(o.generator, op)
            elif e == "genmove" and o.generator is not None:
                o.generator.transform(build_motion(op["m"]))
            elif e == "member" and o.alg_objects:
                a = o.alg_objects[op["u"] % len(o.alg_objects)]
                if isinstance(a, c.A.Sphere):
                    a.center, a.radius = p, 4.0
                else:
                    a.point = p
            elif e == "tol":
                o.tolerance = 1e-4
        elif isinstance(o, c.Mo.BaseMolecule):
            o.print_warnings = False
            n = len(o.species)
            if e == "molpos":
                o.update_positions(np.array(o.atoms) + p)
            elif e == "molsp":
                o.update_species(np.array([7] * n))
            elif e == "molrm" and n > 1:
                o.remove_atoms([op["u"] % n])
            elif e == "molo":
                o.set_origin(idx=op["u"] % n)
            elif e == "prio":
                o.priority = op["prio"]
        elif isinstance(o, c.G.AmorphousGenerator):
            am_edit(o, op)
        elif isinstance(o, c.G.BaseGenerator):
            if e == "genmove" and not isinstance(o, (c.G.NullGenerator, c.G.AmorphousGenerator)):
                o.voxel.scale = np.array([1.05])
            elif e == "gen":
                o.post_transform = c.Po.ChemicalSubstitution([int(o.species[0])], [5], 0.5)
        elif isinstance(o, c.A.BaseAlgebraic):
            if e == "tol":
                o.tol = 1e-4
            elif isinstance(o, c.A.Sphere):
                o.center = p
                o.radius = 2.0
            else:
                o.point = p


def am_edit(g, op):
    k = op["s"] % 4
    if k == 0:
        g.species = 3
    elif k == 1:
        g.density = 0.004
    elif k == 2:
        g.min_dist = 1.1
    else:
        g.use_old_result = bool(op["u"] % 3)


def bounded(v):
    """Small enough a box for amorphous material."""
    try:
        b = v.get_bounding_box()
        return b is not None and float(np.prod(np.ptp(b, axis=0))) < 3000
    except Exception:
        return False


def scribble(a):
    if isinstance(a, np.ndarray) and a.flags.writeable and a.size and a.dtype.kind in "fiu":
        a += 1


def poke(o):
    """Change in place everything that can be reached through what was derived."""
    c = mods()
    if isinstance(o, c.V.MultiVolume):
        for v in list(o.volumes):
            poke(v)
        o.volumes.clear()
    elif isinstance(o, c.V.Volume):
        for a in o.alg_objects:
            poke(a)
        if o.generator is not None:
            poke(o.generator)
        scribble(o.points)
        o.alg_objects.clear()
        try:
            scribble(o.atoms)
            scribble(o.species)
        except Exception:
            pass
    elif isinstance(o, c.A.Sphere):
        scribble(o.center)
    elif isinstance(o, c.A.Plane):
        scribble(o.normal)
        scribble(o.point)
    elif isinstance(o, c.A.Cylinder):
        scribble(o.axis)
        scribble(o.point)
    elif isinstance(o, c.Mo.BaseMolecule):
        for a in (o.atoms, o.species, o.origin, o.orientation):
            scribble(a)
    elif isinstance(o, c.G.AmorphousGenerator):
        o.species, o.density, o.min_dist = 92, 1e-4, 3.0
        if o.old_result is not None:
            for a in o.old_result:
                scribble(a)
    elif isinstance(o, c.G.Generator):
        for a in (o.voxel.bases, o.voxel.origin, o.voxel.scale, o.coords, o.structure.lattice.matrix if o.structure.lattice.matrix.flags.writeable else None):
            scribble(a)
        t = o.post_transform
        if isinstance(t, c.Po.ChemicalSubstitution):
            t.target[:] = [1]
            t.frac = 1.0
        s = o.strain_field
        if s is not None:
            scribble(getattr(s, "matrix", None))


def run(sim):
    plan = sim.plan
    f0 = fresh()
    # each caller alone, on templates of its own
    solo = []
    for i, ops in enumerate(plan["threads"]):
        tm = Tm(sim)
        s0 = tm.state()
        c = Caller(tm, ops, derive(plan["seed"], "t", i))
        solo.append(c())
        check(s0, tm.state(), f"caller {i} alone")
        new(f0, f"caller {i} alone")
        sim.steps += len(ops)
    # all together
    tm = Tm(sim)
    s0 = tm.state()
    cs = [Caller(tm, ops, derive(plan["seed"], "t", i)) for i, ops in enumerate(plan["threads"])]
    sch = Scheduler(rng_for(plan["seed"], "sched"), plan["q"], {int(k): v for k, v in plan["kill"].items()})
    try:
        res, err = sch.run(cs)
    finally:
        MON.set_level("jump")
    sim.fault("thread_switch", sch.switches)
    sim.fault("thread_killed", len(sch.killed))
    sim.steps += sch.events
    for e in err:
        if e is not None:
            raise e
    check(s0, tm.state(), "callers on several threads")
    new(f0, "callers on several threads")
    for i, (a, b) in enumerate(zip(solo, res)):
        if i in sch.killed:
            continue
        if a != b:
            k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            d = sdiff(a[k], b[k], "result") if isinstance(a[k], tuple) and isinstance(b[k], tuple) else "values"
            raise Violation("disturbed", f"caller {i} got another result next to other callers than alone: step {k}: {d}")
    for s in solo:
        for x in s:
            if isinstance(x, tuple) and x and x[0] == "raised":
                sim.probe("raised_" + x[1])
    for ops in plan["threads"]:
        for o in ops:
            if "d" in o:
                sim.probe("derive_" + o["d"])
    sim.state(tuple(sch.order[:60]))
    sim.log("order", sch.order[:200], sch.switches, sch.events)


def new(f0, what):
    for x, y in zip(f0, fresh()):
        if x != y:
            raise Violation("defaults", f"{what} changed what is made anew: {sdiff(x, y)}")


def check(a, b, what):
    for x, y in zip(a, b):
        if x != y:
            raise Violation("template", f"{what} changed a template ({x[0]}): {sdiff(x, y)}")
