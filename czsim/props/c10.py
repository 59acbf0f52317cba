"""C10: chemical substitution changes only target species, at the given rate."""
import math

import numpy as np

from ..core import INJ, InjectedFailure, Violation
from ..ref import MATCH
from ..seams import RNG
from ..world import SPECIES, World, gen_vol, mods
from scipy.spatial import cKDTree

ID = "C10"
RUNS = {"quick": 14000, "thorough": 210000}
LEVEL = "jump"
SHRINK = ["ops"]
FR = [0.0, 0.0, 1.0, 1.0, 0.5, 0.1, 0.9]


def gen_sub(r, pool):
    k = r.randint(1, min(3 if r.random() < 0.75 else 12, len(pool)))
    t = r.sample(pool, k)
    return {"t": t, "s": [r.choice(SPECIES + pool) for _ in t], "f": r.choice(FR), "seed": r.choice([None, r.randrange(2 ** 31)])}


def gen(r, tier):
    ops = []
    for _ in range(r.randint(1, 4)):
        pool = r.sample(SPECIES, r.randint(1, 5)) if r.random() < 0.85 else r.sample(range(1, 100), r.randint(6, 15))
        if r.random() < 0.4:      # neighbours in the periodic table
            pool = list(dict.fromkeys(pool + [z + d for z in pool for d in (-1, 1) if 0 < z + d < 119 and r.random() < 0.6]))
            r.shuffle(pool)
        N = r.choice([0, 1, 3, 50, 400])
        c = r.random()
        if c < 0.3:
            ops.append({"op": "sub", "pool": pool, "N": N, "sub": gen_sub(r, pool), "s": r.randrange(10 ** 6), "arr": r.random() < 0.5})
        elif c < 0.45:
            ops.append({"op": "rate", "f": r.choice([0.02, 0.1, 0.3, 0.5, 0.8, 0.97]), "N": r.choice([3000, 3000, 3000, 9000]), "s": r.randrange(10 ** 6),
                        "kinds": r.randint(1, 3), "seed": r.choice([None, r.randrange(2 ** 31)])})
        elif c < 0.5:
            ops.append({"op": "spread", "f": r.choice([0.1, 0.3, 0.5, 0.8]), "N": r.randint(8, 40), "s": r.randrange(10 ** 6),
                        "kinds": r.randint(1, 3), "seeded": r.random() < 0.6})
        elif c < 0.7:
            ops.append({"op": "seq", "pool": pool, "N": N, "subs": [gen_sub(r, pool) for _ in range(r.randint(0, 3))],
                        "s": r.randrange(10 ** 6), "failat": r.randint(0, 3) if r.random() < 0.2 else None, "late": r.random() < 0.3,
                        "seed": r.choice([None, r.randrange(2 ** 31)])})
        else:
            v = gen_vol(r, {"p_null": 0.0, "spread": 2.0})
            ops.append({"op": "vol", "v": v, "f": r.choice(FR), "to": r.choice(SPECIES), "n": r.randint(1, 2), "seq": r.random() < 0.3,
                        "s": r.randrange(10 ** 6), "edits": [{"f": r.choice(FR), "to": r.choice(SPECIES)} if r.random() < 0.4 else None
                                                             for _ in range(r.randint(2, 4))]})
    plan = {"ops": ops}
    if r.random() < 0.5:
        plan["adv"] = {"seed": r.randrange(2 ** 31), "p": r.choice([0.3, 1.0]), "limit": 50,
                       "kinds": r.sample(["low", "high", "repeat", "edge", "cluster"], r.randint(1, 3))}
    return plan


def judge(P0, S0, P, S, t, s, f, what):
    """One substitution: exact when f is 0 or 1, admissible otherwise."""
    P, S = np.asarray(P), np.asarray(S)
    if P.shape != P0.shape or not np.array_equal(P, P0):
        raise Violation("positions", f"{what}: positions changed")
    if S.shape != S0.shape:
        raise Violation("number", f"{what}: {S.shape} species for {S0.shape} atoms")
    m = dict(zip(t, s))
    for z in set(S0.tolist()):
        now = S[S0 == z]
        if z not in m:
            if np.any(now != z):
                raise Violation("target", f"{what}: species {z} is no target but became {now[now != z][0]}")
            continue
        ok = (now == z) | (now == m[z])
        if not np.all(ok):
            raise Violation("target", f"{what}: species {z} became {now[~ok][0]} instead of {m[z]}")
        if f <= 0 and np.any(now != z):
            raise Violation("rate", f"{what}: {np.sum(now != z)} of {len(now)} atoms substituted at fraction 0")
        if f >= 1 and np.any(now != m[z]):
            raise Violation("rate", f"{what}: {np.sum(now != m[z])} of {len(now)} targets left at fraction 1")


def frozen(P, S, P0, S0, what):
    if not np.array_equal(P, P0) or not np.array_equal(S, S0):
        raise Violation("input", f"{what}: changed the arrays passed in")


class Fail:
    def __call__(self, p, s):
        raise InjectedFailure("step")


def run(sim):
    import random
    w = World(sim)
    Po = mods().Po
    for op in sim.plan["ops"]:
        sim.steps += 1
        r = random.Random(op["s"])
        k = op["op"]
        if k in ("sub", "seq"):
            N = op["N"]
            S0 = np.array([r.choice(op["pool"] + [3]) for _ in range(N)], dtype=int)
            P0 = np.array([[r.gauss(0, 5) for _ in range(3)] for _ in range(N)], float).reshape(-1, 3)
            P, S = P0.copy(), S0.copy()
        if k == "sub":
            c = op["sub"]
            T, U = (np.array(c["t"]), np.array(c["s"])) if op["arr"] else (list(c["t"]), list(c["s"]))
            ob = w.call("ChemicalSubstitution", lambda: Po.ChemicalSubstitution(T, U, c["f"]))
            kw = {} if c["seed"] is None else {"seed": c["seed"]}
            p, s = w.call("apply_function", lambda: ob.apply_function(P, S, **kw))
            frozen(P, S, P0, S0, "substitution")
            judge(P0, S0, p, s, c["t"], c["s"], c["f"], "substitution")
            if list(T) != list(c["t"]) or list(U) != list(c["s"]) or ob.frac != c["f"]:
                raise Violation("input", "substitution changed its own definition")
            sim.state("sub", c["f"], len(c["t"]), N)
            sim.log("sub", int(np.sum(s != S0)))
        elif k == "seq":
            fs = [c["f"] for c in op["subs"]]
            obs = [Po.ChemicalSubstitution(c["t"], c["s"], c["f"]) for c in op["subs"]]
            rec = []

            def tap(i):
                def f(p, s):
                    rec.append((i, p.copy(), s.copy()))
                    return p, s
                return Po.ArbitraryPostTransform(f)
            chain = [tap(0)]
            for i, ob in enumerate(obs):
                if op["failat"] == i:
                    chain.append(Po.ArbitraryPostTransform(Fail()))
                chain += [ob, tap(i + 1)]
            if op["late"]:
                seq = w.call("PostSequence", lambda: Po.PostSequence(chain[:1]))
                for ob in chain[1:]:
                    w.call("add_transform", lambda: seq.add_transform(ob))
            else:
                seq = w.call("PostSequence", lambda: Po.PostSequence(chain))
            kw = {} if op["seed"] is None else {"seed": op["seed"]}
            fails = op["failat"] is not None and op["failat"] < len(obs)
            try:
                p, s = w.call("PostSequence.apply_function", lambda: seq.apply_function(P, S, **kw))
            except InjectedFailure:
                sim.fault("failing_step")
                frozen(P, S, P0, S0, "failing sequence")
                continue
            if fails:
                raise Violation("sequence", "a failing step of a sequence went unnoticed")
            frozen(P, S, P0, S0, "sequence")
            if [x[0] for x in rec] != list(range(len(obs) + 1)):
                raise Violation("sequence", f"steps acted in order {[x[0] for x in rec]}")
            rec = [(i, a, b) for i, a, b in rec]
            if not np.array_equal(rec[0][2], S0) or not np.array_equal(rec[-1][2], s) or not np.array_equal(rec[-1][1], p):
                raise Violation("sequence", "result is not that of the last step")
            for c, a, b in zip(op["subs"], rec, rec[1:]):
                judge(a[1], a[2], b[1], b[2], c["t"], c["s"], c["f"], "step of a sequence")
            sim.state("seq", fs, N)
            sim.log("seq", int(np.sum(s != S0)))
        elif k == "rate":
            adv, RNG.adv = RNG.adv, None
            f, N, K = op["f"], op["N"], op["kinds"]
            pool = [11, 12, 13][:K]
            S0 = np.array([r.choice(pool + [3]) for _ in range(N)])
            P0 = np.zeros((N, 3))
            ob = Po.ChemicalSubstitution(pool, [50 + i for i in range(K)], f)
            kw = {} if op["seed"] is None else {"seed": op["seed"]}
            _, s = w.call("apply_function", lambda: ob.apply_function(P0, S0.copy(), **kw))
            RNG.adv = adv
            judge(P0, S0, P0, s, pool, [50 + i for i in range(K)], f, "substitution")
            hit = (s != S0).astype(float)
            for sel, what in [(S0 == z, f"target {z}") for z in pool] + [((S0 != 3) & (np.arange(N) < N // 2), "first half"),
                                                                         ((S0 != 3) & (np.arange(N) >= N // 2), "second half")]:
                n = int(sel.sum())
                x = hit[sel].sum()
                if abs(x - n * f) > 6.5 * math.sqrt(n * f * (1 - f)) + 1:
                    raise Violation("rate", f"{int(x)} of {n} atoms ({what}) substituted at fraction {f}")
            h = hit[S0 != 3] - f
            n = len(h)
            for lag in (1, 2, 3, 7):
                c = float(np.sum(h[lag:] * h[:-lag]))
                if abs(c) > 7 * math.sqrt(n) * f * (1 - f) + 1:
                    raise Violation("independence", f"substitutions of atoms {lag} apart are correlated: {c / (n * f * (1 - f)):.2f} at fraction {f}")
            # at any distance
            h = np.where(S0 != 3, hit - f, 0.0)
            a = np.fft.irfft(np.abs(np.fft.rfft(h, 2 * N)) ** 2, 2 * N)[1:N]
            a = np.abs(a) - 8 * np.sqrt(np.arange(N - 1, 0, -1)) * f * (1 - f) - 14
            if np.max(a) > 0:
                raise Violation("independence", f"substitutions of atoms {int(np.argmax(a)) + 1} apart are correlated at fraction {f}")
            sim.probe("rate_checked")
            sim.state("rate", f, K)
            sim.log("rate", int(hit.sum()))
        elif k == "spread":
            spread(w, op, r)
        else:
            volume(w, op)


def spread(w, op, r):
    """Over many draws: atoms are hit independently, so that counts spread as those of independent atoms do."""
    sim, Po = w.sim, mods().Po
    adv, RNG.adv = RNG.adv, None
    f, N, K = op["f"], op["N"], 200
    pool = [11, 12, 13][:op["kinds"]]
    Z = np.array([r.choice(pool) for _ in range(N)])
    ob = Po.ChemicalSubstitution(pool, [50 + i for i in range(len(pool))], f)
    X = np.zeros((N, 3))
    hit = np.array([w.call("apply_function", lambda: ob.apply_function(
        X, Z.copy(), **({"seed": r.randrange(2 ** 31)} if op["seeded"] else {})))[1] != Z for _ in range(K)]).astype(float)
    RNG.adv = adv
    for sel in [np.ones(N, bool)] + [Z == z for z in pool]:
        n = int(sel.sum())
        if n < 5:
            continue
        q = float(np.sum((hit[:, sel].sum(1) - n * f) ** 2) / (n * f * (1 - f)))
        if not 0.4 * K < q < 2.0 * K:
            raise Violation("independence", f"numbers substituted among {n} atoms scatter {q / K:.2f} times as much as those of independent atoms at fraction {f}")
    h = (hit - f) / math.sqrt(f * (1 - f))
    t = h.sum(0) / math.sqrt(K)
    if np.max(np.abs(t)) > 7:
        raise Violation("rate", f"atom {int(np.argmax(np.abs(t)))} is substituted at another rate than {f}")
    c = h.T @ h / math.sqrt(K) - np.diag(np.full(N, np.inf))
    c[~np.isfinite(c)] = 0
    if np.max(np.abs(c)) > 8:
        raise Violation("independence", "substitutions of two atoms are correlated")
    sim.probe("spread_checked")
    sim.state("spread", f, N)
    sim.log("spread", int(hit.sum()))


def volume(w, op):
    """Substitution carried by a crystal through volumes populated from it."""
    sim, Po = w.sim, mods().Po
    n = w.call("build", lambda: w.build(op["v"]))
    zs = sorted(set(n.ref.crystal.Z.tolist()))[:op["n"]]
    sub = Po.ChemicalSubstitution(zs, [op["to"]] * len(zs), op["f"])
    n.ob.generator.post_transform = Po.PostSequence([sub]) if op["seq"] else sub
    m = w.call("from_volume", lambda: n.ob.from_volume()) if op["s"] % 2 else n.ob
    P, Z, st = n.ref.cands()
    to, f, last = [op["to"]] * len(zs), op["f"], None
    for e in op["edits"]:
        if e is not None:
            f, to = e["f"], [e["to"]] * len(zs)
            if m is n.ob:       # redefined in place
                sub.frac, sub.substitute = f, list(to)
            else:
                m.generator.post_transform = Po.ChemicalSubstitution(zs, list(to), f)
            last = None
        w.call("populate_atoms", m.populate_atoms)
        a, s = m.atoms, m.species
        if len(a) != len(s):
            raise Violation("number", f"{len(a)} positions but {len(s)} species")
        if len(a) < np.sum(st == 1) or len(a) > len(P):
            raise Violation("number", f"volume holds {len(a)} atoms instead of {np.sum(st == 1)}")
        if len(a) == 0:
            continue
        d, i = cKDTree(P).query(a)
        if np.any(d > MATCH):
            raise Violation("positions", "substitution moved atoms of the volume")
        judge(a, Z[i], a, s, zs, to, f, "populated volume")
        t = np.isin(Z[i], zs)
        if RNG.adv is None and 0.3 <= f <= 0.7 and to[0] not in zs and np.sum(t) >= 60:
            now = a[t].tobytes(), s[t].tobytes()
            if now == last:
                raise Violation("independence", f"populating again substituted the same {int(np.sum(s[t] == to[0]))} of {int(t.sum())} atoms at fraction {f}")
            last = now
            sim.probe("repopulations_compared")
        sim.log("vol", len(a), int(np.sum(s != Z[i])))
        sim.state("vol", op["f"], len(a) > 0)
        sim.probe("volumes_with_substitution")
