"""C12: planar-defect prefabs keep every bond and place the requested faults."""
import numpy as np
from scipy.spatial import cKDTree

from ..core import INJ, Violation
from ..ref import Region, RSurf, compare
from ..ref import motion_affine
from ..seams import EXC, MON, RNG
from ..world import World, build_motion, gen_dir, gen_motion, gen_points, mods, r6, rvec

ID = "C12"
RUNS = {"quick": 7000, "thorough": 105000}
LEVEL = "jump"
SHRINK = ["ops", "mot"]

METALS = [(4.08, 79), (3.61, 29), (4.05, 13), (3.52, 28)]


def gen(r, tier):
    wz = r.random() < 0.35
    plan = {"wz": wz, "o": None if r.random() < 0.4 else rvec(r, 4.0)}
    if wz:
        a = r6(3.25 * r.uniform(.95, 1.1))
        plan.update(a=a, c=r6(a * r.uniform(1.58, 1.65)), u=r6(r.uniform(0.372, 0.384)), sg=r.random() < 0.3)
        size = r.uniform(18, 28)
    else:
        a, z = r.choice(METALS)
        plan.update(a=r6(a * r.choice([1.0, r.uniform(.95, 1.05)])), Z=z, sg=r.random() < 0.3)
        size = r.uniform(15, 26)
    plan["mot"] = [gen_motion(r, flags={"locked": True, "basis_only": False}) for _ in range(r.choice([0, 1, 1, 2]))]
    c = rvec(r, 5.0) if r.random() < 0.7 else [0.0, 0.0, 0.0]
    k = r.choice(["sph", "sph", "sph", "pts", "pts", "cyl", "ptssph", "sphpl", "box"])
    pts, alg = None, []
    if k in ("pts", "ptssph"):
        pts = gen_points(r, c, size)
    if k == "box":
        h = size / 2
        pts = [[r6(c[0] + x * h), r6(c[1] + y * h), r6(c[2] + z * h * 1.1)] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
    if "sph" in k:
        alg.append({"s": "sph", "p": [r6(x) for x in c], "r": r6(size / 2)})
    if k == "sphpl":
        n = gen_dir(r)
        alg.append({"s": "pl", "n": n, "p": [r6(x + r.uniform(0, 5) * y) for x, y in zip(c, n)]})
    if k == "cyl":
        alg.append({"s": "cyl", "p": [r6(x) for x in c], "n": gen_dir(r), "r": r6(size / 2.4), "L": r6(size)})
    plan["region"] = {"pts": pts, "alg": alg, "kind": k}
    plan["own"] = r.choice(["none", "same", "null"])
    ops = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        op = {"N": r.choice([0, 1, 1, 2, 2, 3, 4]), "sep": r.choice([2, 2, 3, 3, 4, 6]), "types": r.random() < 0.7}
        while r.random() < 0.9 and (op["N"] + 1) * op["sep"] + 1 > size / 2.6:
            op.update(N=r.choice([1, 1, 2, 2, 3, 4]), sep=r.choice([2, 2, 3, 3, 4]))
        if not wz:
            op.update(kind=r.choice(["mix", "mix", "mix", "sf", "twin"]), ratio=r.choice([0.0, 1.0, 0.5, 0.5, r6(r.random())]),
                      plane=[r.choice([1, -1]) for _ in range(3)])
            if r.random() < 0.03:
                op["freq"] = r.choice([0.15, 0.5, 0.85])
        if ops:      # what happens to builder, crystal and region between builds
            L = {"locked": True, "basis_only": False}
            op["reuse"] = r.random() < 0.6
            if r.random() < 0.4:
                op["turn"] = gen_motion(r, flags=L)
            if r.random() < 0.4:
                op["vmove"] = gen_motion(r, flags=L)
        if r.random() < 0.12:
            op.update(strike=True, f=r.random(), exc=r.choice(list(EXC)))
        ops.append(op)
    plan["ops"] = ops
    if r.random() < 0.5:
        plan["adv"] = {"seed": r.randrange(2 ** 31), "p": r.choice([0.2, 0.6, 1.0]), "limit": r.choice([4, 30]),
                       "kinds": r.sample(["low", "high", "repeat", "near", "edge"], r.randint(1, 3))}
    return plan


def source(w, plan):
    if plan["wz"]:
        g = {"g": "x", "cell": [plan["a"], plan["a"], plan["c"]], "ang": [90, 90, 120], "o": plan["o"]}
        u = plan["u"]
        if plan["sg"]:
            g.update(sg=186, Z=[30, 8], frac=[[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, u]])
        else:
            g.update(Z=[30, 30, 8, 8], frac=[[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, u], [2 / 3, 1 / 3, .5 + u]])
    else:
        g = {"g": "x", "cell": [plan["a"]] * 3, "ang": [90] * 3, "o": plan["o"]}
        if plan["sg"]:
            g.update(sg=225, Z=[plan["Z"]], frac=[[0, 0, 0]])
        else:
            g.update(Z=[plan["Z"]] * 4, frac=[[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]])
    gen, cry = w.source(g)
    for m in plan["mot"]:
        gen = gen.from_generator(transformation=[build_motion(m)])
        cry.move(m)
    return gen, cry


class Stack:
    """Close-packed layers of the crystal along the defect normal: origin, normal, spacing, in-plane lattice, layer offset."""

    def __init__(self, cry, plane):
        B = cry.B
        self.o = cry.o
        if plane is None:                     # wurtzite
            self.n = B[:, 2] / np.linalg.norm(B[:, 2])
            self.d = np.linalg.norm(B[:, 2]) / 2
            self.U = B[:, :2]
            self.shift = np.array([1 / 3, 2 / 3])
        else:
            a = np.linalg.norm(B[:, 0])
            n = B @ np.array(plane, float)
            self.n = n / np.linalg.norm(n)
            self.d = a / np.sqrt(3)
            nn = np.array([[x, y, z] for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if abs(x) + abs(y) + abs(z) == 2]) / 2 @ B.T
            h = nn @ self.n
            flat = nn[np.abs(h) < 1e-6]
            up = nn[h > 1e-6][0]
            u = flat[0]
            v = next(x for x in flat if abs(x @ u + u @ u / 2) < 1e-6)
            self.U = np.stack([u, v], 1)
            q = self.plane_coords(up - self.d * self.n)
            self.shift = q
        k = np.round(self.shift * 3)
        if np.max(np.abs(self.shift * 3 - k)) > 1e-6:
            raise RuntimeError("layer offset is no third of the layer lattice")

    def plane_coords(self, x):
        return np.linalg.lstsq(self.U, x, rcond=None)[0]

    def layer(self, X, z0=0.0):
        """Layer index of each position (atoms z0 above the layer planes), or None where off all layers."""
        h = ((X - self.o) @ self.n - z0) / self.d
        k = np.round(h).astype(int)
        return k, np.abs(h - k) * self.d

    def letters(self, X):
        """0, 1, 2 or -1 (off all three stacking positions)."""
        P = (X - self.o) - ((X - self.o) @ self.n)[:, None] * self.n
        q = np.linalg.lstsq(self.U, P.T, rcond=None)[0].T
        out = np.full(len(X), -1)
        for j in range(3):
            f = q - j * self.shift
            f -= np.round(f)
            out[np.linalg.norm(f @ self.U.T, axis=1) < 1e-4] = j
        return out

    def sites(self, k, j, lo, hi, z0=0.0):
        """Sites of layer k at stacking position j within reach of the box."""
        c = (lo + hi) / 2
        R = np.linalg.norm(hi - lo) / 2 + 1
        base = self.o + (k * self.d + z0) * self.n + self.U @ (j * self.shift)
        q = self.plane_coords(c - base)
        m = int(np.ceil(R / (np.min(np.linalg.norm(self.U, axis=0)) * 0.8))) + 1
        q = np.round(q)
        g = np.stack(np.meshgrid(np.arange(-m, m + 1), np.arange(-m, m + 1), indexing="ij"), -1).reshape(-1, 2) + q
        P = base + g @ self.U.T
        return P[np.all((P >= lo - 0.1) & (P <= hi + 0.1), axis=1)]


def extents(reg, n):
    """Range of the heights n.x at which the prefab looks for planes (spheres, if any, else points)."""
    for s in reg.surfs:
        if s.k == "sph":
            return s.c @ n - s.r, s.c @ n + s.r
    if reg.pts is not None and not reg.surfs:
        return np.min(reg.pts @ n), np.max(reg.pts @ n)
    return None


def fits(N, sep, l):
    return N == 0 or l - 2 * sep > (N - 1) * sep


def run(sim):
    plan = sim.plan
    w = World(sim)
    gen, cry = source(w, plan)
    c = mods()
    from czone.prefab import fccMixedTwinSF, fccStackingFault, fccTwin, wurtziteStackingFault
    from ..world import build_surf
    R = plan["region"]
    reg = Region(R["pts"], [RSurf(a) for a in R["alg"]])
    own = {"none": None, "same": gen, "null": c.G.NullGenerator()}[plan["own"]]
    vol = c.V.Volume(points=None if R["pts"] is None else np.array(R["pts"], float),
                     alg_objects=[build_surf(a) for a in R["alg"]] or None, generator=own)
    pf = None

    def make(cls, **kw):
        """A new builder, or the last one set to the same."""
        if not op.get("reuse") or type(pf) is not cls:
            return cls(**kw)
        for k, v in kw.items():
            setattr(pf, k, v)
        sim.probe("builder_reused")
        return pf
    for op in plan["ops"]:
        sim.steps += 1
        if op.get("turn"):
            w.call("transform", lambda: gen.transform(build_motion(op["turn"])))
            cry.move(op["turn"])
        if op.get("vmove"):
            w.call("transform", lambda: vol.transform(build_motion(op["vmove"])))
            reg.move(*motion_affine(op["vmove"]))
        N, sep = op["N"], op["sep"]
        kw = dict(generator=gen, volume=vol, N=N, min_sep=sep)
        if plan["wz"]:
            pf, hkl, kinds = make(wurtziteStackingFault, **kw), None, None
        else:
            hkl = op["plane"]
            kw["plane"] = tuple(hkl)
            if op.get("freq") and not sim.plan.get("adv"):
                frequency(sim, fccMixedTwinSF, {**kw, "N": 1, "min_sep": 1}, op["freq"])
            if op["kind"] == "mix":
                pf = make(fccMixedTwinSF, ratio=op["ratio"], **kw)
                kinds = {0.0: "t", 1.0: "s"}.get(op["ratio"], "st")
            else:
                pf = make(fccStackingFault if op["kind"] == "sf" else fccTwin, **kw)
                kinds = "s" if op["kind"] == "sf" else "t"
        st = Stack(cry, hkl)
        ext = extents(reg, st.n)
        l = None if ext is None else int(np.ceil((ext[1] - st.o @ st.n) / st.d) - np.floor((ext[0] - st.o @ st.n) / st.d)) + 1
        slack = 3 if plan["wz"] else 7
        if op.get("strike"):
            k = MON.measure(lambda: quiet(pf.build_object))
            fired, _ = MON.inject(lambda: quiet(pf.build_object), 1 + int(op["f"] * k), EXC[op["exc"]])
            MON.set_level("jump")
            if fired:
                sim.fault(op["exc"])
        try:
            out = pf.build_object(return_defect_types=op["types"])
        except INJ:
            raise
        except ValueError as e:
            # planes are sought towards and away from the crystal origin, rounding each crystal coordinate
            if l is not None and fits(N, sep, l - slack):
                raise Violation("refused", f"{N} defects {sep} planes apart were refused though {l} planes are there: {e}")
            sim.fault("refused_request")
            sim.log("refused")
            continue
        except Exception as e:
            raise Violation("error", f"building raised {type(e).__name__}: {e}")
        if l is not None and not fits(N, sep, l + slack):
            raise Violation("accepted", f"{N} defects {sep} planes apart were accepted though only {l} planes are there")
        mv, rep = out if op["types"] else (out, None)
        if len(mv.volumes) != N + 1:
            raise Violation("grains", f"{len(mv.volumes)} grains for {N} defects")
        w.call("populate", mv.populate_atoms)
        A, S = np.asarray(mv.atoms), np.asarray(mv.species).astype(int)
        if plan["wz"]:
            wurtzite(sim, mv, st, reg, A, S, N, sep, rep, plan)
        else:
            cubic(sim, mv, st, reg, A, S, N, sep, rep, kinds, plan)


def quiet(f):
    try:
        return f()
    except INJ:
        raise
    except Exception:
        return None


def frequency(sim, cls, kw, p):
    """The given fraction of all defects are stacking faults."""
    T = 160
    pf = cls(ratio=p, **kw)
    try:
        k = sum(bool(pf.build_object(return_defect_types=True)[1]["stacking_fault"]) for _ in range(T))
    except ValueError:
        return
    if abs(k - p * T) > 6.5 * np.sqrt(T * p * (1 - p)):
        raise Violation("ratio", f"{k} of {T} defects are stacking faults at ratio {p}")
    sim.probe("ratio_checked")


def decode_layers(st, X, what, z0=0.0):
    k, off = st.layer(X, z0)
    if len(X) and off.max() > 1e-4:
        raise Violation("layers", f"{what} lie between the layers of the crystal (by {off.max():.4f})")
    j = st.letters(X)
    L = {}
    for kk in np.unique(k):
        s = set(j[k == kk].tolist())
        if s == {-1} or -1 in s:
            raise Violation("layers", f"{what} of layer {kk} are off the three stacking positions")
        if len(s) > 1:
            raise Violation("layers", f"layer {kk} mixes stacking positions {sorted(s)}")
        L[int(kk)] = s.pop()
    return L


def filled(st, reg, parts, A, S):
    """Atoms are exactly the sites of the decoded layers in the region. parts: (z, species, letters)."""
    lo, hi = reg.aabb()
    P, Z, C = [], [], []
    h = np.array([np.dot(x - st.o, st.n) for x in np.array(np.meshgrid(*zip(lo, hi))).reshape(3, -1).T])
    for z0, sp, L in parts:
        for k in range(int(np.floor((h.min() - z0) / st.d)) - 1, int(np.ceil((h.max() - z0) / st.d)) + 2):
            if k in L:
                X = st.sites(k, L[k], lo, hi, z0)
                cl = reg.classify(X)
                X, cl = X[cl >= 0], cl[cl >= 0]
                P.append(X)
                C.append(cl)
                Z.append(np.full(len(X), sp))
            else:
                n = [np.sum(reg.classify(X) == 1) if len(X) else 0 for X in (st.sites(k, j, lo, hi, z0) for j in range(3))]
                if min(n) > 0:
                    raise Violation("missing", f"layer {k} inside the region is empty")
    cand = (np.vstack(P), np.concatenate(Z), np.concatenate(C)) if P else (np.empty((0, 3)), np.empty(0, int), np.empty(0, int))
    bad = compare(A, S, cand, "defected crystal")
    if bad:
        raise Violation(*bad)


def nearest(A, want):
    if len(A) > 1:
        d = cKDTree(A).query(A, 2)[0][:, 1].min()
        if d < want - 1e-4:
            raise Violation("distance", f"two atoms are {d:.4f} apart; nearest neighbours of the perfect crystal {want:.4f}")


def inner(reg, A, d):
    """Atoms whose surroundings to distance d lie in the region."""
    if not len(A):
        return np.zeros(0, bool)
    G = np.array([[x, y, z] for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if x or y or z], float)
    G /= np.linalg.norm(G, axis=1)[:, None]
    ok = np.ones(len(A), bool)
    for g in G:
        ok &= reg.classify(A + 1.35 * d * g) == 1
    return ok


def coordination(sim, reg, A, d, n):
    k = inner(reg, A, d)
    c = np.array(cKDTree(A).query_ball_point(A[k], d * 1.08, return_length=True)) - 1 if k.any() else np.zeros(0, int)
    if np.any(c != n):
        b = np.nonzero(k)[0][np.nonzero(c != n)[0][0]]
        raise Violation("bonds", f"atom at {A[b].round(4).tolist()} away from the surface has {c[c != n][0]} nearest neighbours instead of {n}")
    if k.any():
        sim.probe("coordination_checked")


def grain_planes(mv, reg, st, A, ks, k_of, N):
    """Layers at which a grain ends, as seen by asking the grains about points just above the layers.

    Returns {layer: number of grains ending there}; layers that cannot be told are absent.
    """
    cnt = {}
    for k in ks:
        X = A[k_of == k] + 0.3 * st.d * st.n
        X = X[reg.classify(X) == 1]
        if len(X):
            cnt[k] = sum(bool(np.all(np.asarray(v.checkIfInterior(X[:1])))) for v in mv.volumes)
    v = [cnt[k] for k in sorted(cnt)]
    if not v or v[-1] < 1 or v[0] > N + 1 or any(y > x for x, y in zip(v, v[1:])):
        return {}
    return {k + 1: cnt[k] - cnt[k + 1] for k in cnt if k + 1 in cnt}


def explanations(signs, N, sep, known):
    """All (number, kinds) of defects that give the sequence of stacking signs.

    signs[i] = +1/-1 between layers i and i+1. A twin at layer p mirrors everything from there on,
    a stacking fault at p flips the one sign above p. known: layers that certainly are, or are not, defects.
    """
    front = {(o, -10 ** 6, 0, frozenset()) for o in (1, -1)}
    for i, s in enumerate(signs):
        new = set()
        for o, last, n, ks in front:
            if s == o and not known.get(i, 0):
                new.add((o, last, n, ks))
            if n < N and i - last >= sep and known.get(i, 1):
                if s == -o:
                    new.add((-o, i, n + 1, ks | {"t"}))
                    new.add((o, i, n + 1, ks | {"s"}))
                elif i == 0:       # a twin at the first layer cannot be seen
                    new.add((o, i, n + 1, ks | {"t"}))
        front = new
    return {(n, ks) for _, _, n, ks in front}


def cubic(sim, mv, st, reg, A, S, N, sep, rep, kinds, plan):
    nn = plan["a"] / np.sqrt(2)
    if len(A) == 0:
        sim.probe("empty")
        return
    nearest(A, nn)
    L = decode_layers(st, A, "atoms")
    filled(st, reg, [(0.0, plan["Z"], L)], A, S)
    coordination(sim, reg, A, nn, 12)
    ks = sorted(L)
    if ks != list(range(ks[0], ks[-1] + 1)):
        sim.probe("gaps")
        return
    signs = []
    for a, b in zip(ks, ks[1:]):
        s = (L[b] - L[a]) % 3
        if s == 0:
            raise Violation("bonds", f"layers {a} and {b} are stacked atop of one another")
        signs.append(1 if s == 1 else -1)
    known = grain_planes(mv, reg, st, A, ks, st.layer(A)[0], N)
    if max(known.values(), default=0) > 1:
        raise Violation("separation", "several defects on one plane")
    known = {k - ks[0]: n for k, n in known.items()}
    sim.probe("defect_planes_located", sum(known.values()))
    ex = explanations(signs, N, sep, known)
    if not ex:
        raise Violation("separation", f"stacking {signs} cannot come from {N} defects {sep} or more planes apart, at layers {sorted(k for k, n in known.items() if n)}")
    ex = {e for e in ex if all(k in kinds for k in e[1])}
    if not ex:
        raise Violation("kind", f"stacking {signs} shows other defects than the {dict(s='stacking faults', t='twins', st='')[kinds]} requested")
    full = [e for e in ex if e[0] == N]
    if rep is not None:
        want = frozenset(k for k, f in (("t", "twin"), ("s", "stacking_fault")) if rep.get(f))
        if bool(N) != bool(want):
            raise Violation("reported", f"{sorted(want)} reported for {N} defects")
        if not any(e[1] <= want for e in ex):
            raise Violation("reported", f"stacking {signs} shows a kind of defect that was not reported {rep}")
        if len(full) == len(ex) and not any(e[1] == want for e in full):
            raise Violation("reported", f"kinds reported {rep} are not those in the stacking {signs}")
        sim.probe("kinds_checked")
    if full:
        sim.probe("all_defects_seen")
    sim.probe(f"fcc_{kinds}")
    sim.state("fcc", tuple(signs))
    sim.log("fcc", len(A), signs, sorted((n, sorted(k)) for n, k in ex))


def wurtzite(sim, mv, st, reg, A, S, N, sep, rep, plan):
    if len(A) == 0:
        sim.probe("empty")
        return
    u, c, a = plan["u"], plan["c"], plan["a"]
    b1, b2 = u * c, np.sqrt(a * a / 3 + ((0.5 - u) * c) ** 2)
    nearest(A, min(b1, b2))
    L = decode_layers(st, A[S == 30], "cations")
    M = decode_layers(st, A[S == 8], "anions", u * c)
    filled(st, reg, [(0.0, 30, L), (u * c, 8, M)], A, S)
    k = inner(reg, A, max(b1, b2))
    n = np.array(cKDTree(A).query_ball_point(A[k], max(b1, b2) * 1.05, return_length=True)) - 1 if k.any() else np.zeros(0, int)
    if np.any(n != 4):
        b = np.nonzero(k)[0][np.nonzero(n != 4)[0][0]]
        raise Violation("bonds", f"atom at {A[b].round(4).tolist()} away from the surface has {n[n != 4][0]} nearest neighbours instead of 4")
    if k.any():
        sim.probe("coordination_checked")
    for i in L:
        if i in M and M[i] != L[i]:
            raise Violation("bonds", f"anions are not bonded to the cations of layer {i}")
        if i + 1 in L and L[i + 1] == L[i]:
            raise Violation("bonds", f"layers {i} and {i + 1} are stacked atop of one another")
    J = {**M, **L}
    F = [i for i in sorted(J) if i - 1 in J and i + 1 in J and J[i - 1] != J[i + 1]]
    if len(F) > N:
        raise Violation("count", f"{len(F)} stacking faults instead of {N}")
    for x, y in zip(F, F[1:]):
        if y - x < sep:
            raise Violation("separation", f"stacking faults {y - x} planes apart instead of {sep} or more")
    known = grain_planes(mv, reg, st, A[S == 30], sorted(L), st.layer(A[S == 30])[0], N)
    sim.probe("defect_planes_located", sum(known.values()))
    for p, n in known.items():
        if n > 1:
            raise Violation("separation", "several defects on one plane")
        if p - 1 in J and p + 1 in J and p in J and (p in F) != bool(n):
            raise Violation("kind", f"{'no stacking fault' if n else 'stacking fault'} at layer {p}, where {'a' if n else 'no'} grain ends")
    if rep is not None and N and not rep.get("stacking_fault"):
        raise Violation("reported", f"stacking faults are not reported: {rep}")
    if len(F) == N:
        sim.probe("all_defects_seen")
    sim.probe("wurtzite")
    sim.state("wz", tuple(F), min(J))
    sim.log("wz", len(A), F, [J[i] for i in sorted(J)])
