"""C14: interruptions never leave torn or mismatched atom lists."""
import numpy as np

from ..core import INJ, Violation
from ..ref import compare
from ..seams import EXC, MON
from ..world import World, flatten, gen_edit, gen_multi, gen_obj, gen_vol
from .common import instants

ID = "C14"
RUNS = {"quick": 5000, "thorough": 75000}
LEVEL = "full"
PROF = {"rare": True, "p_null": 0.1, "p_multi": 0.4, "p_mol": 0.08, "p_am": 0.0, "cb": 0.35, "spread": 2.5,
        "edits": {"recolour": 1.2, "move": 5, "prio": 2, "gen": 1.5, "alg": 1, "addp": 0.5, "addm": 0.7, "add": 1.5, "copy": 1}}


def gen(r, tier):
    objs = [gen_multi(r, PROF) if r.random() < 0.4 else gen_obj(r, PROF) for _ in range(r.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(r.randint(3, 9)):
        c = r.random()
        t = r.randrange(1000)
        f = {"f": r.random(), "exc": r.choice(list(EXC)), "cb": r.random() < 0.25, "n": r.choice([1, 1, 1, 2, 10]),
             **({"tail": r.randrange(25)} if r.random() < 0.35 else {})}
        if c < 0.28:
            ops.append({"op": "iscene", **f})
        elif c < 0.5:
            ops.append({"op": "ipop", "t": t, **f})
        elif c < 0.6:
            ops.append({"op": "scene"})
        elif c < 0.68:
            ops.append({"op": "pop", "t": t})
        elif c < 0.73:
            ops.append({"op": "lose", "v": gen_vol(r, PROF)})
        else:
            ops.append(gen_edit(r, PROF))
    ops.append({"op": "end"})
    return {"objs": objs, "ops": ops}


def read(get):
    """Atoms and species as a caller sees them: None when they cannot be read."""
    try:
        a, s = get()
    except INJ:
        raise
    except Exception:
        return None
    if a is None and s is None:
        return None
    return a, s


def same(x, y):
    return x is not None and y is not None and np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1])


def frozen(x):
    return None if x is None else (None if x[0] is None else np.array(x[0]), None if x[1] is None else np.array(x[1]))


class Judge:
    """What was readable before a failing population, and what may be read after it."""

    def __init__(self, w):
        self.w = w
        self.nodes = [m for t in w.tops for m in flatten(t)]
        self.before = [frozen(read(lambda: (m.ob.atoms, m.ob.species))) for m in self.nodes]
        self.scene = self.read_scene()

    def read_scene(self):
        sc = self.w.scene
        if sc is None:
            return None
        a = read(lambda: (sc.all_atoms, 0))
        s = read(lambda: (sc.all_species, 0))
        if a is None or s is None:
            return None
        return frozen((a[0], s[0]))

    def check(self, what, scene=False):
        w = self.w
        for m, old in zip(self.nodes, self.before):
            now = read(lambda: (m.ob.atoms, m.ob.species))
            if now is None or same(now, old):
                continue
            if now[0] is None or now[1] is None or len(now[0]) != len(now[1]):
                raise Violation("torn", f"after {what}, {m.kind} holds {0 if now[0] is None else len(now[0])} positions but {0 if now[1] is None else len(now[1])} species")
            bad = compare(now[0], now[1], w.cands(m) if m.kind != "mol" else m.ref.cands(), f"after {what}, {m.kind}")
            if bad:
                raise Violation("torn", f"neither the old nor the new atoms: {bad[1]}")
        if not scene or w.scene is None:
            return
        now = self.read_scene()
        if now is None:
            w.sim.probe("scene_unreadable_after_failure")
            return
        if same(now, self.scene):
            return
        bad = compare(now[0], now[1], w.scene_expect()[0], f"after {what}, scene")
        if bad:
            raise Violation("torn-scene", f"neither the old nor the new scene: {bad[1]}")
        per = [w.scene.species_from_object(i) for i in range(len(w.scene.objects))]
        if not np.array_equal(np.vstack(per), now[0]):
            raise Violation("torn-scene", f"after {what}, atoms per object do not make up the scene")


def strike(w, ob, call, op, what, scene):
    """Fail the call at one or several instants, judging after each."""
    sim = w.sim
    for i in range(op["n"]):
        f = (op["f"] + i / op["n"]) % 1.0
        J = Judge(w)
        hit = None
        if op["cb"]:
            w.fail_at = 1 + int(f * 3)
            try:
                call(ob)
            except INJ:
                hit = "failing_callback"
            finally:
                w.fail_at = None
        else:
            n = instants(w, call, ob)
            k = min(n, 1 + int(f * n)) if op.get("tail") is None else max(1, n - op["tail"] - i)      # results are stored last
            fired, _ = MON.inject(lambda: call(ob), k, EXC[op["exc"]])
            if fired:
                hit = op["exc"]
                sim.state(what, fired[0])
        sim.log(what, i, hit)
        if hit:
            sim.fault(hit)
        J.check(f"{hit or 'completed'} {what}", scene)
        if hit is None:
            return


def run(sim):
    w = World(sim)
    for s in sim.plan["objs"]:
        w.tops.append(w.call("build", lambda: w.build(s)))
    if not w.tops:
        return
    w.call("Scene", lambda: w.make_scene())
    for op in sim.plan["ops"]:
        sim.steps += 1
        k = op["op"]
        if k == "iscene":
            strike(w, w.scene, lambda s: s.populate(), op, "Scene.populate", True)
        elif k == "ipop":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is not None:
                strike(w, n.ob, lambda o: o.populate_atoms(), op, f"{n.kind}.populate_atoms", False)
        elif k in ("scene", "end"):
            w.call("Scene.populate", w.scene.populate)
            w.check_scene()
            sim.probe("retry_completed")
        elif k == "pop":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is not None:
                w.call("populate_atoms", n.ob.populate_atoms)
                w.check_node(n, "populated " + n.kind)
        elif k == "lose":
            # a volume whose source of atoms is missing makes every population including it fail
            if len(w.tops) >= 6:
                continue
            J = Judge(w)
            n = w.build({**op["v"], "gen": {"g": "none"}, "gen_origin": None, "ltor": False})
            w.tops.append(n)
            w.call("add_object", lambda: w.scene.add_object(n.ob))
            n.in_scene = True
            try:
                w.scene.populate()
            except Exception:
                sim.fault("missing_source")
                J.check("failed Scene.populate", True)
            w.edit({"op": "gen", "t": w.flat(("vol",)).index(n), "gen": op["v"]["gen"]})
            w.call("Scene.populate", w.scene.populate)
            w.check_scene()
        else:
            w.edit(op)
    sim.log("end", len(w.scene.all_atoms))
