"""C01: precedence in scenes decides exactly which atoms survive."""
from ..core import Violation
from ..seams import EXC
from ..world import World, gen_edit, gen_obj
from .common import interrupt, interrupted_populate

ID = "C01"
RUNS = {"quick": 10000, "thorough": 150000}
LEVEL = "full"
PROF = {"rare": True, "p_null": 0.12, "p_multi": 0.25, "p_mol": 0.12, "p_am": 0.03, "cb": 0.1, "spread": 2.5,
        "edits": {"recolour": 0.5, "move": 5, "genmove": 0.7, "prio": 3, "gen": 1.2, "alg": 1.5, "addp": 0.7, "setp": 0.7, "addm": 1, "genset": 0.4, "algedit": 0.5,
                  "add": 2, "copy": 2, "bad": 0.4}}


def gen(r, tier):
    n = r.choice([1, 2, 2, 3, 3, 4])
    P = PROF
    if r.random() < 0.04:       # many small ones
        n, P = r.choice([6, 9, 10, 17, 20]), {**PROF, "size": 4.5, "rare": False, "p_multi": 0.1, "p_am": 0.0}
    objs = [gen_obj(r, P) for _ in range(n)]
    ops = []
    for _ in range(r.randint(0, 7)):
        c = r.random()
        if c < 0.2:
            ops.append({"op": "scene"})
        elif c < 0.3:
            ops.append({"op": "iscene", "f": r.random(), "exc": r.choice(list(EXC)), "cb": r.random() < 0.3})
        elif c < 0.36:
            ops.append({"op": "ipop", "t": r.randrange(100), "f": r.random(), "exc": r.choice(list(EXC)),
                        "cb": r.random() < 0.3})
        elif c < 0.42:
            ops.append({"op": "pop", "t": r.randrange(100)})
        else:
            ops.append(gen_edit(r, PROF))
    ops.append({"op": "scene"})
    return {"objs": objs, "ops": ops, "late": r.random() < 0.3, "order": r.randrange(1000)}


def run(sim):
    w = World(sim)
    for s in sim.plan["objs"]:
        w.tops.append(w.call("build", lambda: w.build(s)))
    if not w.tops:
        return
    ns = list(w.tops)
    k = sim.plan["order"] % len(ns)
    ns = ns[k:] + ns[:k]
    if sim.plan["late"]:
        w.call("Scene", lambda: w.make_scene(nodes=[]))
        for n in ns:
            w.call("add_object", lambda: w.scene.add_object(n.ob))
            n.in_scene = True
    else:
        w.call("Scene", lambda: w.make_scene(nodes=ns))
    for op in sim.plan["ops"]:
        sim.steps += 1
        if op["op"] == "scene":
            w.call("Scene.populate", w.scene.populate)
            A, S, per = w.check_scene()
            cut = sum(len(n.ob.atoms) for n in w.scene_nodes()) - len(A)
            sim.log("scene", len(A), cut)
            sim.probe("scene_populated")
            if cut:
                sim.probe("atoms_removed_by_precedence", cut)
            ps = [n.ref.prio for n in w.scene_nodes()]
            if len(set(ps)) < len(ps):
                sim.probe("equal_priorities")
            sim.state("scene", sorted((n.kind, n.ref.prio) for n in w.scene_nodes()), len(A), cut)
        elif op["op"] == "iscene":
            hit = interrupt(w, None, w.scene, lambda s: s.populate(), op)
            sim.log("iscene", hit)
        elif op["op"] == "ipop":
            interrupted_populate(w, op)
        elif op["op"] == "pop":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is not None:
                w.call("populate_atoms", n.ob.populate_atoms)
        else:
            w.edit(op)
