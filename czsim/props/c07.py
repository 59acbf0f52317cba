"""C07: amorphous blocks have the right number of atoms, in the box, apart from each other, whatever the draws."""
import numpy as np

from ..core import INJ, Violation
from ..seams import EXC, MON, RNG
from ..world import World, build_motion, build_surf, gen_motion, gen_points, mods, r6, rvec

ID = "C07"
RUNS = {"quick": 20000, "thorough": 300000}
LEVEL = "jump"
DRAWS = 400_000
JUMPS = 60_000_000
SHRINK = ["ops"]
# (density * distance^3) up to which spheres around fewer atoms than asked for can never cover the box
LIMIT = 0.303
# ... up to which honest draws have always filled wide boxes (random packing jams near 0.73)
DENSE = 0.58


def gen_material(r):
    if r.random() < 0.2:
        return {"d": 1.4, "rho": 0.1103075}
    d = r6(r.uniform(1.0, 2.6))
    return {"d": d, "rho": r6(LIMIT / d ** 3 * r.choice([1.0, r.uniform(0.05, 1.0)]))}


def gen_dims(r, m, nmax):
    while True:
        k = r.random()
        if k < 0.5:
            L = [r.uniform(3, 16) for _ in range(3)]
        elif k < 0.7:            # box near multiples of the distance
            L = [m["d"] * (r.randint(1, 7) + r.choice([0.0, 1e-9, -1e-9, r.uniform(-.01, .01), .5])) for _ in range(3)]
        elif k < 0.85:           # flat, long, thin
            L = [r.choice([m["d"] * r.uniform(0.3, 2.5), r.uniform(3, 60)]) for _ in range(3)]
        else:
            L = [float(r.randint(2, 14)) for _ in range(3)]
        if min(L) > 0.3 and L[0] * L[1] * L[2] * m["rho"] <= nmax:
            return [float(x) for x in L]


def gen(r, tier):
    ops = []
    nmax = r.choice([12, 60, 150, 300])
    for _ in range(r.randint(1, 3)):
        m = gen_material(r)
        c = r.random()
        f = {"strike": r.random() < 0.2, "f": r.random(), "exc": r.choice(list(EXC)), "seed": r.choice([0, None, r.randrange(10 ** 6)])}
        if c < 0.3:
            ops.append({"op": "seq", **m, "L": gen_dims(r, m, nmax), "as": r.choice(["list", "arr", "tuple"]), "pp": r.random() < 0.15, **f})
        elif c < 0.65:
            ops.append({"op": "bat", **m, "L": gen_dims(r, m, nmax), "as": r.choice(["list", "arr", "tuple"]), "pp": r.random() < 0.15,
                        "vs": r.choice([1.0, 1.3, 2.0, 3.0]), "bs": r.choice([1, 2, 5, 16, 50]), **f})
        else:
            acts = []
            for _ in range(r.randint(2, 6)):
                k = r.choice(["supply", "supply", "pop", "pop", "density", "dist", "species", "old", "old", "copy", "move", "origin"])
                a = {"a": k, "m": gen_material(r), "o": rvec(r, 6.0), "L": None, "Z": r.choice([6, 14, 8]), "on": r.random() < 0.6,
                     "mot": gen_motion(r), **f}
                a["L"] = [r6(r.uniform(3, 10)) for _ in range(3)]
                acts.append(a)
            ops.append({"op": "gen", **m, "Z": r.choice([6, 14]), "o": r.choice([None, rvec(r, 4.0)]), "acts": acts,
                        "shape": r.choice(["sph", "pts", "cyl", "box"]), "c": rvec(r, 6.0), "size": r6(r.uniform(5, 10)),
                        "pts": gen_points(r, rvec(r, 4.0), r.uniform(5, 9))})
    plan = {"ops": ops}
    if r.random() < 0.1:
        plan["ops"] = [gen_dense(r) for _ in range(r.randint(1, 2))]
    elif r.random() < 0.75:
        plan["adv"] = {"seed": r.randrange(2 ** 31), "p": r.choice([0.05, 0.3, 0.8, 1.0]), "limit": r.choice([20, 200, 600]),
                       "kinds": r.sample(["low", "high", "repeat", "near", "edge", "wrap", "cluster"], r.randint(1, 4))}
    return plan


def gen_dense(r):
    """Packing close to what random placement can reach: honest draws and wide boxes only."""
    d = r6(r.uniform(1.0, 1.4))
    m = {"d": d, "rho": r6(DENSE / d ** 3 * r.uniform(0.7, 1.0))}
    n = r.uniform(50, 300)
    e = (n / m["rho"]) ** (1 / 3)
    L = [max(4.2 * d, e * r.uniform(0.8, 1.2)) for _ in range(3)]
    f = {"strike": False, "f": 0.5, "exc": "fail", "seed": r.choice([0, None, r.randrange(10 ** 6)])}
    k = r.choice(["seq", "bat", "gen", "gen"])
    if k != "gen":
        return {"op": k, **m, "L": L, "as": "list", "pp": False, "vs": r.choice([1.0, 2.0]), "bs": r.choice([2, 16]), **f}
    acts = [{"a": a, "m": m, "o": rvec(r, 6.0), "L": L, "Z": 6, "on": True, "mot": gen_motion(r), **f} for a in r.choices(["supply", "pop"], k=2)]
    s = max(4.2 * d / 0.7, e)
    return {"op": "gen", **m, "Z": 6, "o": None, "acts": acts, "shape": "box", "c": rvec(r, 6.0), "size": r6(s), "pts": None}


def simplify(plan):
    for i, o in enumerate(plan["ops"]):
        for k in ("strike", "pp"):
            if o.get(k):
                yield {**plan, "ops": plan["ops"][:i] + [{**o, k: False}] + plan["ops"][i + 1:]}
        for j in range(len(o.get("acts", []))):
            yield {**plan, "ops": plan["ops"][:i] + [{**o, "acts": o["acts"][:j] + o["acts"][j + 1:]}] + plan["ops"][i + 1:]}
        if "L" in o:
            for j in range(3):
                if o["L"][j] > 4:
                    L = list(o["L"])
                    L[j] = round(L[j] * .7, 3)
                    yield {**plan, "ops": plan["ops"][:i] + [{**o, "L": L}] + plan["ops"][i + 1:]}


def check_block(X, L, lo, d, rho, what):
    """X must be a complete amorphous block for a box of size L with low corner lo."""
    X = np.asarray(X, float)
    L, lo = np.array(L, float), np.array(lo, float)
    n = np.prod(L) * rho
    if X.ndim != 2 or X.shape[1] != 3:
        raise Violation("count", f"{what}: result has shape {X.shape}")
    if abs(len(X) - n) > 0.5 + 1e-6 * max(1, n):
        raise Violation("count", f"{what}: {len(X)} atoms instead of {n:.3f}, rounded, in a box {L.round(4).tolist()}")
    if not np.all(np.isfinite(X)):
        raise Violation("box", f"{what}: positions are not finite")
    Y = X - lo
    if len(Y) and (Y.min() < -1e-9 or np.any(Y > L + 1e-9 * (1 + np.abs(lo)))):
        b = np.nonzero(np.any((Y < -1e-9) | (Y > L + 1e-9 * (1 + np.abs(lo))), axis=1))[0][0]
        raise Violation("box", f"{what}: atom {b} lies outside the box: {Y[b].tolist()} in {L.tolist()}")
    if len(Y) > 1:
        D = np.abs(Y[:, None] - Y[None])
        P = D.copy()
        P[:, :, :2] = np.minimum(D[:, :, :2], L[:2] - D[:, :, :2])
        r2 = np.sum(P ** 2, axis=2)
        i = np.triu_indices(len(Y), 1)
        k = int(np.argmin(r2[i]))
        if r2[i][k] < d * d - 1e-9 * (1 + np.abs(lo).max()):
            a, b = i[0][k], i[1][k]
            w = "directly" if np.sum(D[a, b] ** 2) < d * d - 1e-9 else "across the periodic boundary"
            raise Violation("distance", f"{what}: atoms {a} and {b} are {np.sqrt(max(0, r2[i][k])):.4f} apart {w}, minimum is {d}")


def conv(L, how):
    return list(L) if how == "list" else tuple(L) if how == "tuple" else np.array(L)


def run(sim):
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    w = World(sim)
    for op in sim.plan["ops"]:
        sim.steps += 1
        if op["op"] == "gen":
            material(w, op)
            continue
        kw = {"min_dist": op["d"], "density": op["rho"], "print_progress": op["pp"]}
        if op["seed"] != 0:
            kw["seed"] = op["seed"]
        if op["op"] == "seq":
            f, what = gen_p_substrate, "sequential packing"
        else:
            f, what = gen_p_substrate_batched, "batched packing"
            kw.update(voxel_scale=op["vs"], batch_size=op["bs"])
        L = conv(op["L"], op["as"])
        if op["strike"]:
            strike(sim, op, lambda: f(L, **kw))
        n0 = RNG.draws
        X = w.call(what, lambda: f(L, **kw))
        if list(L) != list(op["L"]):
            raise Violation("input", f"{what} changed the dimensions passed in")
        check_block(X, op["L"], np.zeros(3), op["d"], op["rho"], what)
        sim.probe(op["op"])
        sim.probe("atoms", len(X))
        sim.state(op["op"], len(X), RNG.draws - n0)
        sim.log(op["op"], len(X), RNG.draws - n0)


def strike(sim, op, f):
    adv, RNG.adv = RNG.adv, None
    try:
        n = MON.measure(f)
    finally:
        RNG.adv = adv
    fired, _ = MON.inject(f, 1 + int(op["f"] * n), EXC[op["exc"]])
    MON.set_level("jump")
    if fired:
        sim.fault(op["exc"])
    return fired


def material(w, op):
    """Histories of one amorphous generator, on its own and in a volume."""
    sim, c = w.sim, mods()
    kw = {} if op["o"] is None else {"origin": np.array(op["o"])}
    g = c.G.AmorphousGenerator(min_dist=op["d"], density=op["rho"], species=op["Z"], **kw)
    s = op["size"]
    if op["shape"] in ("pts", "box"):
        P = np.array(op["pts"]) if op["shape"] == "pts" else c.V.makeRectPrism(s, s * .7, s * .9, center=np.array(op["c"]))
        v = c.V.Volume(points=P, generator=g)
    elif op["shape"] == "sph":
        v = c.V.Volume(alg_objects=[c.A.Sphere(s / 2, np.array(op["c"]))], generator=g)
    else:
        v = c.V.Volume(alg_objects=[c.A.Cylinder(np.array([0., 0, 1]), np.array(op["c"]), s / 2, s * .8)], generator=g)
    gs = [{"g": g, "d": op["d"], "rho": op["rho"], "Z": op["Z"], "old": False, "last": None},
          {"g": v.generator, "d": op["d"], "rho": op["rho"], "Z": op["Z"], "old": False, "last": None}]
    for a in op["acts"]:
        sim.steps += 1
        k = a["a"]
        if k == "density":      # keep what the material can hold
            for x in gs:
                x["rho"] = min(a["m"]["rho"], LIMIT / x["d"] ** 3)
                x["g"].density = x["rho"]
        elif k == "dist":
            for x in gs:
                x["d"] = min(a["m"]["d"], (LIMIT / x["rho"]) ** (1 / 3))
                x["g"].min_dist = x["d"]
        elif k == "species":
            for x in gs:
                x["Z"] = a["Z"]
                x["g"].species = a["Z"]
        elif k == "old":
            for x in gs:
                x["old"] = a["on"]
                x["g"].use_old_result = a["on"]
        elif k == "origin":
            gs[0]["g"].origin = np.array(a["o"])
        elif k == "move":
            v.transform(build_motion(a["mot"]))
        elif k == "copy":
            h = g.from_generator()
            gs[0] = {**gs[0], "g": h}
            g = h
            v = v.from_volume()
            gs[1] = {**gs[1], "g": v.generator}
        elif k == "supply":
            lo = np.array(a["o"])
            L = np.array(a["L"])
            box = c.V.makeRectPrism(*L) + lo
            supply(w, gs[0], a, box, lambda: gs[0]["g"].supply_atoms(box), "amorphous generator")
        elif k == "pop":
            B = w.call("get_bounding_box", v.get_bounding_box)
            if np.prod(B.max(0) - B.min(0)) * gs[1]["rho"] > 400:
                continue
            x = gs[1]

            def pop():
                v.populate_atoms()
                return v.generator.old_result
            supply(w, x, a, B, pop, "amorphous volume")
            co, sp = x["last"]
            ins = v.checkIfInterior(co)
            if not np.array_equal(v.atoms, co[ins]) or not np.array_equal(v.species, sp[ins]):
                raise Violation("volume", "amorphous volume does not hold the atoms supplied within its region")


def supply(w, x, a, box, call, what):
    sim = w.sim
    L, lo = box.max(0) - box.min(0), box.min(0)
    if np.prod(L) * x["rho"] > 400:
        return
    if a["strike"] and not (x["old"] and x["last"] is not None):
        n = np.prod(L) * x["rho"]
        before = x["last"]
        try:
            fired, _ = MON.inject(call, 1 + int(a["f"] * 80 * (n + 1)), EXC[a["exc"]])
        finally:
            MON.set_level("jump")
        if fired:
            sim.fault(a["exc"])
        now = x["g"].old_result
        if now is not None and now is not None and not (before is not None and eq(now, before)):
            block(now, L, lo, x, what + " after an interrupted supply")
            x["last"] = keep(now)
    r = w.call(what, call)
    reuse = x["old"] and x["last"] is not None
    if r is None:
        raise Violation("reuse", f"{what} keeps no result")
    if reuse:
        if not eq(r, x["last"]):
            raise Violation("reuse", f"{what} was told to reuse its result but supplied another one")
        sim.probe("reused")
    else:
        block(r, L, lo, x, what)
        x["last"] = keep(r)
    if not eq(x["g"].old_result, x["last"]):
        raise Violation("reuse", f"{what}: the result kept is not the one supplied")
    sim.probe("supplied")
    sim.state("gen", what, len(r[0]), reuse)
    sim.log(what, len(r[0]), reuse)


def keep(r):
    return np.array(r[0]), np.array(r[1])


def eq(a, b):
    return a is not None and b is not None and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])


def block(r, L, lo, x, what):
    X, S = r
    check_block(X, L, lo, x["d"], x["rho"], what)
    if np.asarray(S).shape != (len(X),) or np.any(np.asarray(S) != x["Z"]):
        raise Violation("species", f"{what}: species are not the configured one")
