"""C32: strained crystals hold the deformed images of their sites, whatever happened before."""
import numpy as np

from ..core import INJ, Violation
from ..ref import Region, compare
from ..seams import EXC, MON
from ..world import InjectedFailure, World, derive, flatten, forms, gen_crystal, gen_edit, gen_multi, gen_points, gen_vol, mods, r6, rvec
from .common import interrupt, interrupted_populate

ID = "C32"
RUNS = {"quick": 4500, "thorough": 68000}
LEVEL = "full"
PROF = {"p_null": 0.0, "p_multi": 0.2, "cb": 0.0, "spread": 3.0,
        "edits": {"move": 5, "genmove": 2, "genset": 2, "alg": 1, "addp": .5, "setp": .5, "copy": 2, "prio": .5}}


# ---------------------------------------------------------------- plans
def gen_field(r):
    k = r.choice(["h", "h", "h", "i"])
    f = {"f": k, "mode": r.choice(["crystal", "standard"]), "o": None if r.random() < 0.6 else [0.0, 0.0, 0.0] if r.random() < 0.25 else rvec(r, 4.0)}
    if k == "h":
        f["form"] = r.choice(["d3", "v6", "m33", "l9", "none"] if r.random() < 0.3 else ["d3", "v6", "m33", "l9"])
        f["e"] = [r6(r.uniform(-.05, .05)) for _ in range(3)] + [r6(r.uniform(-.03, .03)) if f["form"] != "d3" else 0.0 for _ in range(3)]
        if f["form"] == "none":
            f["e"] = [0.0] * 6
    else:
        f["fun"] = r.choice(["bend", "wave", "axis", "none"])
        f["kw"] = {"a": r6(r.uniform(-.03, .03)), "b": r.randrange(3)} if f["fun"] != "none" else {}
        f["i"], f["j"] = r.randrange(3), r.randrange(3)
    return f


def gen(r, tier):
    fields = [gen_field(r) for _ in range(r.choice([1, 1, 2]))]
    objs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o = gen_multi(r, PROF) if r.random() < PROF["p_multi"] else gen_vol(r, PROF)
        for v in vols(o):
            if r.random() < 0.9:
                v["gen"]["strain"] = r.randrange(len(fields))
        objs.append(o)
    ops = [{"op": "pop", "t": r.randrange(9)}] if r.random() < 0.6 else []
    for _ in range(r.randint(1, 7)):
        c = r.random()
        t = r.randrange(100)
        if c < 0.2:
            ops.append({"op": "pop", "t": t})
        elif c < 0.32:
            ops.append({"op": "ipop", "t": t, "f": r.random(), "exc": r.choice(list(EXC)), "cb": r.random() < 0.4})
        elif c < 0.44:
            ops.append({"op": "supply", "t": t, "p": gen_points(r, rvec(r, 4.0), r.uniform(4, 9)),
                        "fault": r.random() < 0.3, "f": r.random(), "exc": r.choice(list(EXC)), "cb": r.random() < 0.4})
        elif c < 0.54:
            ops.append({"op": "matrix", "t": t, "f": gen_field(r)})
        elif c < 0.62:
            ops.append({"op": "field", "t": t, "k": r.randrange(2)})
        elif c < 0.68:
            ops.append({"op": "mode", "t": t, "mode": r.choice(["crystal", "standard"])})
        elif c < 0.72:
            ops.append({"op": "bad", "t": t, "w": r.choice(["mode", "matrix", "fun", "origin", "none"])})
        else:
            ops.append(gen_edit(r, PROF))
    ops += [{"op": "pop", "t": 0}, {"op": "pop", "t": r.randrange(100)}]
    return {"fields": fields, "objs": objs, "ops": ops}


def vols(o):
    return [v for c in o["ch"] for v in vols(c)] if o["k"] == "multi" else [o]


# ---------------------------------------------------------------- the fields
class Fun:
    """Displacement supplied by the caller; may fail when the run wants it to."""

    def __init__(self, w, f):
        self.w, self.f = w, f

    def __deepcopy__(self, memo):
        return self

    def disp(self, X, a, b):
        i, j = self.f["i"], self.f["j"]
        Y = np.array(X, float)
        if self.f["fun"] == "bend":
            Y[:, i] += a * X[:, j] ** 2 * 0.1
        elif self.f["fun"] == "wave":
            Y[:, i] += 3 * a * np.sin(X[:, b])
        else:
            Y += a * (X - X[:, [i]] * np.eye(3)[i])
        return Y

    def __call__(self, X, basis=None, a=0.0, b=0):
        w = self.w
        if w is not None:
            w.cb_calls += 1
            if w.fail_at is not None:
                w.fail_at -= 1
                if w.fail_at <= 0:
                    w.fail_at = None
                    raise InjectedFailure("strain function")
        return self.disp(X, a, b)


class RStrain:
    """Reference: image of a site."""

    def __init__(self, f):
        self.f, self.mode = f, f["mode"]
        self.o = None if f["o"] is None else np.array(f["o"], float)
        self.F = matrix(f) if f["f"] == "h" else None

    def copy(self):
        c = RStrain.__new__(RStrain)
        c.__dict__.update(self.__dict__)
        return c

    def image(self, cry, P):
        if not len(P):
            return P
        o = cry.o if self.o is None else self.o
        X = P - o
        if self.mode == "crystal":
            X = np.linalg.solve(cry.B, X.T).T
        if self.F is not None:
            X = X @ self.F                 # symmetric
        elif self.f["fun"] != "none":
            X = Fun(None, self.f).disp(X, **self.f["kw"])
        if self.mode == "crystal":
            X = X @ cry.B.T
        return X + o


def matrix(f):
    e = f["e"]
    return np.eye(3) + np.array([[e[0], e[5], e[4]], [e[5], e[1], e[3]], [e[4], e[3], e[2]]])


def value(f):
    F = matrix(f)
    return {"d3": [F[0, 0], F[1, 1], F[2, 2]], "v6": [F[0, 0], F[1, 1], F[2, 2], F[1, 2], F[0, 2], F[0, 1]],
            "m33": F, "l9": list(F.ravel())}[f["form"]]


def build_field(w, f):
    from czone.transform.strain import HStrain, IStrain
    kw = {} if f["o"] is None else {"origin": np.array(f["o"], float)}
    if f["mode"] != "crystal" or derive("m", repr(f)) % 2:
        kw["mode"] = f["mode"]
    if f["f"] == "h":
        if f["form"] != "none":
            kw["matrix"] = value(f)
        return HStrain(**kw)
    if f["fun"] != "none":
        kw.update(fun=Fun(w, f), **f["kw"])
    return IStrain(**kw)


class SWorld(World):
    def source(self, g):
        gen, cry = super().source(g)
        if g.get("strain") is not None and cry is not None:
            k = g["strain"] % len(self.fields)
            gen.strain_field = self.fields[k]      # the same field for all crystals that use it
            cry.strain = RStrain(self.sim.plan["fields"][k])
        return gen, cry


# ---------------------------------------------------------------- runs
def run(sim):
    w = SWorld(sim)
    w.fields = [w.call("strain field", lambda f=f: build_field(w, f)) for f in sim.plan["fields"]]
    for s in sim.plan["objs"]:
        w.tops.append(w.call("build", lambda: w.build(s)))
    for op in sim.plan["ops"]:
        sim.steps += 1
        step(w, op)


def step(w, op):
    sim, k = w.sim, op["op"]
    if k == "pop":
        n = w.pick(op["t"], ("vol", "multi"))
        w.call("populate_atoms", n.ob.populate_atoms)
        sim.log("pop", n.kind, w.check_node(n, "strained " + n.kind))
        sim.probe("populated_" + n.kind)
        sim.state("pop", n.kind, len(n.ob.atoms))
        return
    if k == "ipop":
        interrupted_populate(w, op)
        return
    if k not in ("supply", "matrix", "field", "mode", "bad"):
        w.edit(op)
        return
    n = w.pick(op["t"], ("vol",))
    if n is None or n.ref.crystal is None:
        return
    g, c = n.ob.generator, n.ref.crystal
    if k == "supply":
        X = np.array(op["p"])
        if op["fault"]:
            interrupt(w, None, g, lambda o: o.supply_atoms(X), op)
        P, Z = w.call("supply_atoms", lambda: g.supply_atoms(X))
        lo, hi = X.min(0), X.max(0)
        v = np.maximum(hi - lo, 1) * 2.0 + 20.0
        P0, Z0 = c.sites(lo - v, hi + v)
        Q = P0 if c.strain is None else c.strain.image(c, P0)
        s = (Region(X).classify(P0) == 1).astype(int)
        far = len(P) and np.any((np.array(P) < lo - v + 8) | (np.array(P) > hi + v - 8))
        if not far:
            bad = compare(P, Z, (Q, Z0, s), "atoms supplied by a strained crystal")
            if bad:
                raise Violation(*bad)
        sim.probe("supplied")
        return
    if k == "field":
        f = op["k"] % len(w.fields)
        g.strain_field = w.call("strain field", lambda: build_field(w, sim.plan["fields"][f]))
        c.strain = RStrain(sim.plan["fields"][f])
        return
    if c.strain is None:
        return
    sf = g.strain_field
    if k == "matrix":
        f = op["f"]
        if f["f"] != "h" or f["form"] == "none" or c.strain.F is None:
            return
        v = value(f)
        w.call("matrix of a strain field", lambda: setattr(sf, "matrix", v))
        c.strain.F = matrix(f)
    elif k == "mode":
        w.call("mode of a strain field", lambda: setattr(sf, "mode", op["mode"]))
        c.strain.mode = op["mode"]
    elif k == "bad":
        acts = {"mode": lambda: setattr(sf, "mode", "lattice"), "origin": lambda: setattr(sf, "origin", np.zeros(4)),
                "matrix": (lambda: setattr(sf, "matrix", [1., 2, 3, 4])) if c.strain.F is not None else None,
                "fun": (lambda: setattr(sf, "strain_fun", lambda x, **k: x[:, :2])) if c.strain.F is None else None,
                "none": lambda: setattr(g, "strain_field", np.eye(3))}
        if acts[op["w"]] is None:
            return
        try:
            acts[op["w"]]()
        except INJ:
            raise
        except Exception:
            sim.fault("rejected_edit")
        else:
            raise Violation("accepted", f"invalid {op['w']} of a strain field was accepted")
    sim.log(k)
