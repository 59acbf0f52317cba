"""C02: a populated volume holds exactly its crystal's sites inside its region."""
from ..seams import EXC, MON
from ..world import World, gen_edit, gen_multi, gen_vol
from .common import interrupted_populate

ID = "C02"
RUNS = {"quick": 14000, "thorough": 210000}
LEVEL = "full"
PROF = {"rare": True, "p_null": 0.06, "p_multi": 0.4, "cb": 0.15, "spread": 3.0,
        "edits": {"recolour": 0.8, "move": 5, "genmove": 1, "prio": 1.5, "gen": 1.5, "alg": 2, "addp": 1, "setp": 1, "addm": 1, "genset": 0.8, "algedit": 0.8,
                  "copy": 1.5, "bad": 0.7}}


def gen(r, tier):
    objs = [gen_multi(r, PROF) if r.random() < PROF["p_multi"] else gen_vol(r, PROF) for _ in range(r.choice([1, 1, 2]))]
    ops = [{"op": "pop", "t": 0}] if r.random() < 0.7 else []
    for _ in range(r.randint(0, 6)):
        c = r.random()
        if c < 0.25:
            ops.append({"op": "pop", "t": r.randrange(100)})
        elif c < 0.35:
            ops.append({"op": "ipop", "t": r.randrange(100), "f": r.random(), "exc": r.choice(list(EXC)),
                        "cb": r.random() < 0.3})
        else:
            ops.append(gen_edit(r, PROF))
    ops.append({"op": "pop", "t": 0})
    ops.append({"op": "pop", "t": r.randrange(100)})
    return {"objs": objs, "ops": ops}


def run(sim):
    w = World(sim)
    for s in sim.plan["objs"]:
        w.tops.append(w.call("build", lambda: w.build(s)))
    for op in sim.plan["ops"]:
        sim.steps += 1
        if op["op"] == "pop":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is None:
                continue
            w.call("populate_atoms", n.ob.populate_atoms)
            k = w.check_node(n, "populated " + n.kind)
            sim.log("pop", n.kind, k)
            sim.probe("populated_" + n.kind)
            if k == 0:
                sim.probe("empty_result")
            sim.state("pop", n.kind, k)
        elif op["op"] == "ipop":
            interrupted_populate(w, op)
        else:
            w.edit(op)
