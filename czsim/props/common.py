"""Shared pieces of property modules."""
import copy

import numpy as np
from scipy.spatial import ConvexHull, Delaunay

from .. import seams
from ..core import INJ
from ..seams import EXC, MON


def _hull(t, memo):
    new = Delaunay(np.array(t.points)) if isinstance(t, Delaunay) else ConvexHull(np.array(t.points), incremental=True)
    memo[id(t)] = new
    return new


HULLS = (ConvexHull, Delaunay)


def clone(obs):
    """Deep copy for dry runs; hulls hold C state, so they are built anew."""
    for c in HULLS:
        copy._deepcopy_dispatch[c] = _hull
    try:
        return copy.deepcopy(obs)
    finally:
        for c in HULLS:
            del copy._deepcopy_dispatch[c]


def instants(w, fn_of, obs):
    """Number of interruptible instants of fn_of(copy of obs), measured on a deep copy."""
    twin = clone(obs)
    fa, cc = w.fail_at, w.cb_calls
    w.fail_at = None
    try:
        n = MON.measure(lambda: fn_of(twin))
    finally:
        w.fail_at, w.cb_calls = fa, cc
    return n


def interrupt(w, fn, ob, call, op):
    """Run call(ob) with the fault of op. Returns True if the fault struck."""
    sim = w.sim
    if op.get("cb"):
        w.cb_calls0 = w.cb_calls
        w.fail_at = 1 + int(op["f"] * 3)
        try:
            call(ob)
        except INJ:
            sim.fault("failing_callback")
            return True
        finally:
            w.fail_at = None
        return False
    n = instants(w, call, ob)
    k = 1 + int(op["f"] * n)
    fired, _ = MON.inject(lambda: call(ob), min(k, n), EXC[op["exc"]])
    if fired:
        sim.fault(op["exc"])
        sim.log("injected", op["exc"], k, "of", n)
        sim.state("inj", fired[0])
        return True
    return False


def interrupted_populate(w, op):
    n = w.pick(op["t"], ("vol", "multi"))
    if n is None:
        return None
    hit = interrupt(w, None, n.ob, lambda o: o.populate_atoms(), op)
    w.sim.log("ipop", hit)
    return n, hit


def probe_points(r, region, n=40):
    """Points around the boundary of a region, seeded by r (a random.Random)."""
    b = region.aabb()
    if b is None or np.any(~np.isfinite(b[0])):
        lo, hi = np.full(3, -8.0), np.full(3, 8.0)
    else:
        lo, hi = b
    d = np.maximum(hi - lo, 1.0)
    X = np.array([[lo[k] - 0.25 * d[k] + 1.5 * d[k] * r.random() for k in range(3)] for _ in range(n)])
    # bisect along segments between inside and outside towards the boundary, keep both sides
    c = region.classify(X)
    ins, outs = X[c == 1], X[c == -1]
    out = [X]
    for a, z in zip(ins[:8], outs[:8]):
        lo_, hi_ = a.copy(), z.copy()
        for _ in range(30):
            m = (lo_ + hi_) / 2
            if region.classify(m[None])[0] == 1:
                lo_ = m
            else:
                hi_ = m
        v = (z - a) / np.linalg.norm(z - a)
        out.append(np.array([lo_, lo_ - 1e-4 * v, lo_ + 1e-2 * v, lo_ - 1e-2 * v]))
    return np.vstack(out)


def check_interior(w, n, r, what):
    """checkIfInterior of a node against the reference."""
    from ..core import Violation
    regs = [m.ref.region for m in _flat(n) if m.kind == "vol"]
    X = np.vstack([probe_points(r, g, 24) for g in regs]) if regs else np.zeros((1, 3))
    for m in _flat(n):
        if m.kind == "vol":
            definition(m, what)
    want = n.ref.classify(X)
    Y = X.copy()
    got = w.call("checkIfInterior", lambda: n.ob.checkIfInterior(Y))
    if not np.array_equal(X, Y):
        raise Violation("input", f"{what}: checkIfInterior changed the points passed in")
    got = np.asarray(got)
    if got.shape != (len(X),) or got.dtype != bool:
        raise Violation("interior", f"{what}: checkIfInterior returned {got.shape} {got.dtype} for {len(X)} points")
    bad = np.nonzero(((want == 1) & ~got) | ((want == -1) & got))[0]
    if len(bad):
        b = bad[0]
        raise Violation("interior", f"{what}: {X[b].round(5).tolist()} reported {'inside' if got[b] else 'outside'} but lies {'inside' if want[b] == 1 else 'outside'}")
    return X, want, got


PROBES = np.array([(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1) if (i, j, k) != (0, 0, 0)], float)


def definition(m, what):
    """Extents of the points and places of the surfaces of a volume, to rounding errors."""
    from ..core import Violation
    R, v = m.ref.region, m.ob
    if R.pts is not None:
        e = np.max(np.asarray(v.points) @ PROBES.T, axis=0) - np.max(R.pts @ PROBES.T, axis=0)
        if np.max(np.abs(e)) > 1e-9 * (10 + np.abs(R.pts).max()):
            raise Violation("interior", f"{what}: extents of the points are off by {np.max(np.abs(e)):.2g}")
    if len(R.surfs) != len(v.alg_objects):
        return
    for f, a in zip(R.surfs, v.alg_objects):
        tol = 1e-9 * (10 + np.abs(f.c).max())
        d = (a.center if f.k == "sph" else a.point) - f.c
        d = np.abs(d @ f.n) if f.k == "pl" else np.linalg.norm(d)
        if d > tol:
            raise Violation("interior", f"{what}: surface ({f.k}) is {d:.2g} off its place")


def _flat(n):
    out = [n]
    for c in n.ch:
        out += _flat(c)
    return out
