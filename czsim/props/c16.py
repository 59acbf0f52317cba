"""C16: interior and bounding box always reflect the current definition."""
import numpy as np

from ..core import Violation, rng_for
from ..ref import HULL
from ..seams import EXC
from ..world import World, gen_dir, gen_edit, gen_multi, gen_points, gen_vol, mods, r6, rvec, scrawl
from .common import check_interior, interrupted_populate, probe_points

ID = "C16"
RUNS = {"quick": 10000, "thorough": 150000}
LEVEL = "full"
PROF = {"rare": True, "p_null": 0.5, "p_multi": 0.3, "cb": 0.05, "spread": 3.0,
        "edits": {"move": 5, "prio": 0.3, "gen": 0.4, "alg": 3, "addp": 3, "setp": 2.5, "addm": 1, "algedit": 2, "copy": 2, "bad": 4}}


def gen(r, tier):
    objs = []
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < PROF["p_multi"]:
            objs.append(gen_multi(r, PROF))
        else:
            v = gen_vol(r, PROF)
            if r.random() < 0.08:      # empty to begin with
                v.update(pts=None, alg=[])
            objs.append(v)
    ops = []
    for _ in range(r.randint(1, 9)):
        c = r.random()
        t = r.randrange(1000)
        if c < 0.2:
            ops.append({"op": "check", "t": t})
        elif c < 0.25:
            ops.append({"op": "pop", "t": t})
        elif c < 0.3:
            ops.append({"op": "ipop", "t": t, "f": r.random(), "exc": r.choice(list(EXC))})
        elif c < 0.36:
            ops.append({"op": "rehull", "t": t})
        elif c < 0.42:
            ops.append({"op": "firstp", "t": t, "p": gen_points(r, rvec(r, 2.0), r.uniform(5, 9))})
        elif c < 0.56:
            ops.append({"op": "surfmut", "t": t, "i": r.randrange(10), "p": rvec(r, 1.0), "n": gen_dir(r),
                        "r": r6(r.uniform(2.5, 6)), "L": r6(r.uniform(4, 10)), "what": r.choice(["p", "n", "r", "L"])})
        else:
            ops.append(gen_edit(r, PROF))
    return {"objs": objs, "ops": ops}


def check(w, n, r, what):
    X, want, got = check_interior(w, n, r, what)
    # single points and arrays agree
    for i in (0, len(X) // 2, len(X) - 1):
        x = X[i].copy()
        g = w.call("checkIfInterior", lambda: n.ob.checkIfInterior(x))
        if np.shape(g) != (1,) or bool(g[0]) != bool(got[i]):
            raise Violation("single", f"{what}: point {x.round(5).tolist()} judged {bool(np.ravel(g)[0])} alone but {bool(got[i])} among others")
    if r.random() < 0.15:
        many(w, n, r, what)
    if n.kind != "vol":
        return
    reg = n.ref.region
    b = reg.aabb()
    if b is None or np.any(b[1] - b[0] > 60):
        return
    box = w.call("get_bounding_box", n.ob.get_bounding_box)
    if box is None or np.ndim(box) != 2 or np.shape(box)[1] != 3 or not np.all(np.isfinite(box)):
        raise Violation("box", f"{what}: no bounding box for a bounded volume ({'none' if box is None else np.shape(box)})")
    lo, hi = np.min(box, axis=0), np.max(box, axis=0)
    pts = [X[want == 1]]
    if reg.pts is not None:      # all vertices that survive the surfaces
        pts.append(reg.pts[np.array([reg.surfs == [] or np.all([s.sd(p[None])[0] < 0 for s in reg.surfs]) for p in reg.pts], bool)])
    P = np.vstack(pts)
    bad = np.any((P < lo - 3e-5) | (P > hi + 3e-5), axis=1)
    if bad.any():
        raise Violation("box", f"{what}: interior point {P[bad][0].round(5).tolist()} outside the bounding box {lo.round(4).tolist()}..{hi.round(4).tolist()}")


def many(w, n, r, what):
    """Query of many positions at once, in the forms callers have them."""
    from .common import _flat
    regs = [m.ref.region for m in _flat(n) if m.kind == "vol"]
    X = np.vstack([probe_points(r, g, r.choice([300, 1100, 3000]) // len(regs)) for g in regs]) if regs else np.zeros((600, 3))
    want = n.ref.classify(X)
    f = r.choice(["C", "F", "view", "ro"])
    Y = {"C": X.copy(), "F": np.asfortranarray(X), "view": np.repeat(X, 2, axis=0)[::2], "ro": X.copy()}[f]
    if f == "ro":
        Y.flags.writeable = False
    got = np.asarray(w.call("checkIfInterior", lambda: n.ob.checkIfInterior(Y)))
    bad = np.nonzero(((want == 1) & ~got) | ((want == -1) & got))[0] if got.shape == (len(X),) else [0]
    if len(bad):
        b = bad[0]
        raise Violation("interior", f"{what}: among {len(X)} points {X[b].round(5).tolist()} lies {'inside' if want[b] == 1 else 'outside'}, which is not what is reported")
    w.sim.probe("many_points", len(X))


def surfmut(w, op):
    """Redefine a surface of the volume through its own setters."""
    n = w.pick(op["t"], ("vol",))
    if n is None or not n.ref.region.surfs:
        return False
    i = op["i"] % len(n.ref.region.surfs)
    s, a = n.ref.region.surfs[i], n.ob.alg_objects[i]
    k = op["what"]
    if s.k == "sph":
        if k == "r":
            a.radius = op["r"]
            s.r = op["r"]
        else:
            p = s.c + np.array(op["p"])
            a.center = p
            s.c = p.copy()
            scrawl(p)
    elif s.k == "pl":
        if k in ("n", "L"):
            a.normal = np.array(op["n"])
            v = np.array(op["n"], float)
            s.n = v / np.linalg.norm(v)
        else:
            p = s.c + np.array(op["p"])
            a.point = p
            s.c = p.copy()
            scrawl(p)
    else:
        if k == "r":
            a.radius = op["r"]
            s.r = op["r"]
        elif k == "L":
            a.length = op["L"]
            s.L = op["L"]
        elif k == "n":
            a.axis = np.array(op["n"])
            v = np.array(op["n"], float)
            s.n = v / np.linalg.norm(v)
        else:
            p = s.c + np.array(op["p"])
            a.point = p
            s.c = p.copy()
            scrawl(p)
    return True


def bounded(w):
    for m in w.flat(("vol",)):
        b = m.ref.region.aabb()
        if b is None or np.any(b[1] - b[0] > 60):
            return False
        box = m.ob.get_bounding_box()   # may legitimately be larger, e.g. planes meeting far away beyond a cylinder
        if box is not None and np.any(np.ptp(box, axis=0) > 120):
            return False
    return True


def run(sim):
    w = World(sim)
    r = rng_for("probe", sim.seed)
    for s in sim.plan["objs"]:
        w.tops.append(w.call("build", lambda: w.build(s)))
    done = []
    for op in sim.plan["ops"]:
        sim.steps += 1
        k = op["op"]
        done.append(k)
        if k == "check":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is not None:
                check(w, n, r, n.kind)
        elif k == "pop":
            n = w.pick(op["t"], ("vol", "multi"))
            if n is not None and bounded(w):
                w.call("populate_atoms", n.ob.populate_atoms)
        elif k == "ipop":
            if bounded(w):
                interrupted_populate(w, op)
        elif k == "rehull":
            n = w.pick(op["t"], ("vol",))
            if n is not None and n.ref.region.pts is not None:
                w.call("createHull", n.ob.createHull)
        elif k == "firstp":
            n = w.pick(op["t"], ("vol",))
            if n is not None and n.ref.region.pts is None:
                p = np.array(op["p"])
                q = p.copy()
                w.call("addPoints", lambda: n.ob.addPoints(q))
                n.ref.region.add_pts(p)
                q += 100.0      # the caller's array is the caller's
        elif k == "surfmut":
            surfmut(w, op)
        else:
            w.edit(op)
            sim.probe("edit_" + k)
    for n in w.tops:
        for m in [n] + n.ch:
            check(w, m, r, m.kind)
            sim.probe("checked_" + m.kind)
    sim.state(done, [len(n.ch) for n in w.tops])
    sim.log("end", [repr(n.ref.region.aabb()) if n.kind == "vol" else "" for n in w.tops])
