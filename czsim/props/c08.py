"""C08: seeded operations are reproducible and self-contained."""
import random

import numpy as np

from ..core import INJ, Violation, adig, derive, rng_for
from ..seams import EXC, MON, RNG, Scheduler
from ..world import SPECIES, gen_points, mods, r6, rvec

ID = "C08"
RUNS = {"quick": 900, "thorough": 13500}
LEVEL = "jump"
SHRINK = ["ops", "amb"]

SEEDS = [0, 0, 1, 2, 23, 42, 9999, 2 ** 31 - 1, 2 ** 32 + 5]


def gen_op(r):
    k = r.choice(["split", "split", "sub", "subb", "chem", "chem", "alpha", "alphas", "alphag", "norm", "ads", "ads"])
    o = {"k": k, "seed": r.choice(SEEDS) if r.random() < 0.5 else r.randrange(2 ** 31), "np": r.random() < 0.2, "s": r.randrange(10 ** 6)}
    if k == "split":
        m = r.randint(1, 5)
        n = r.randint(1, 4)
        o.update(n=n, m=m, l=2 * m + (n - 1) * m + r.choice([1, 2, 5, 20, 60]) + 1)
    elif k in ("sub", "subb"):
        o.update(dims=[r6(r.uniform(4, 12)) for _ in range(3)], d=r6(r.uniform(0.8, 1.8)), rho=r6(r.uniform(0.005, 0.05)),
                 default=r.random() < 0.2, pp=r.random() < 0.2)
        if k == "subb":
            o.update(vs=r.choice([1.0, 2.0, 2.5]), bs=r.choice([1, 4, 16, 40]))
    elif k == "chem":
        o.update(n=r.randint(5, 200), t=r.randint(1, 3), frac=r.choice([0.0, 1.0, 0.5, r6(r.random())]), seq=r.choice([0, 0, 1, 3]))
    elif k == "norm":
        o.update(n=r.randint(4, 20), default=r.random() < 0.3, steps=r.choice([1000, 50]), margin=r.choice([0, -0.1]))
    else:
        o.update(a=r6(r.uniform(2.6, 3.2)), nx=[r.randint(3, 5) for _ in range(3)], noise=r.choice([0.0, 0.0, 0.05]),
                 mol=[rvec(r, 1.0) for _ in range(r.randint(1, 4))], sampling=r.random() < 0.5, Z=[r.choice(SPECIES) for _ in range(2)],
                 filt=r.random() < 0.4, dbg=r.random() < 0.5, dct=r.random() < 0.4)
    return o


AMB = ["again", "reseed", "draw", "pydraw", "unseeded", "other", "stir", "interrupt", "fresh", "threads"]


def gen(r, tier):
    ops = [gen_op(r) for _ in range(r.randint(2, 4))]
    amb = [{"a": r.choice(AMB), "s": r.randrange(2 ** 31), "n": r.randint(1, 5), "t": r.randrange(99), "f": r.random(),
            "exc": r.choice(list(EXC)), "q": r.choice([10, 50, 300, 2000])} for _ in range(r.randint(2, 5))]
    if r.random() < 0.5 and all(a["a"] != "threads" for a in amb):
        amb.append({"a": "threads", "s": r.randrange(2 ** 31), "n": 2, "t": 0, "f": 0, "exc": "interrupt", "q": r.choice([10, 50, 300, 2000])})
    return {"ops": ops, "amb": amb}


# ---------------------------------------------------------------- operations
class Fix:
    """Inputs of one operation, built once from the plan."""

    def __init__(self, o):
        self.o = o
        c = mods()
        q = np.random.Generator(np.random.PCG64(o["s"]))
        k = o["k"]
        if k == "chem":
            self.Z = list(range(20, 20 + o["t"]))
            self.sp = q.integers(20, 24, o["n"])
            self.X = q.random((o["n"], 3))
            one = [c.Po.ChemicalSubstitution(list(self.Z), [z + 40 for z in self.Z], o["frac"]) for _ in range(max(1, o["seq"]))]
            self.post = c.Po.PostSequence(one) if o["seq"] else one[0]
        elif k == "norm":
            X = q.normal(size=(o["n"], 3))
            X[:, 2] = -np.abs(X[:, 2]) - 0.05
            self.X = X / np.linalg.norm(X, axis=1)[:, None]
        elif k in ("alpha", "alphas", "alphag", "ads"):
            a = o["a"]
            G = np.stack(np.meshgrid(*[np.arange(n) for n in o["nx"]], indexing="ij"), -1).reshape(-1, 3) * a
            self.X = G + o["noise"] * q.random(G.shape)
            self.rad = a * 1.1
            if k == "ads":
                g = c.G.Generator.from_unit_cell(o["Z"], [[0, 0, 0], [.5, .5, .5]], [a * 1.15] * 3, [90] * 3)
                L = a * 1.15 * (np.array(o["nx"]) - 1) * 0.8 + 0.3
                P = np.array([[x, y, z] for x in (-.1, L[0]) for y in (-.1, L[1]) for z in (-.1, L[2])])
                self.vol = c.V.Volume(points=P, generator=g)
                self.vol.populate_atoms()
                self.mol = c.Mo.Molecule(np.array([6] * len(o["mol"])), np.array(o["mol"]))
                self.mol.print_warnings = False
        self.rng = q


def arr(*xs):
    return tuple((np.asarray(x).shape, np.asarray(x).tobytes()) for x in xs)


def call(f, seed):
    """Run the operation with this seed; exactly comparable result."""
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    from czone.surface.adsorbate import add_adsorbate, find_approximate_normal
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    from czone.util.misc import get_N_splits
    o = f.o
    k = o["k"]
    if seed is not None and o["np"] and seed < 2 ** 63:
        seed = np.int64(seed)
    sd = {} if o.get("default") and seed == o["seed"] else {"seed": seed}
    if k == "split":
        return [int(x) for x in get_N_splits(o["n"], o["m"], o["l"], seed=seed)]
    if k == "sub":
        return arr(gen_p_substrate(list(o["dims"]), o["d"], o["rho"], print_progress=o["pp"], **sd))
    if k == "subb":
        return arr(gen_p_substrate_batched(list(o["dims"]), o["d"], o["rho"], voxel_scale=o["vs"], batch_size=o["bs"], **sd))
    if k == "chem":
        X, S = f.post.apply_function(np.array(f.X), np.array(f.sp), seed=seed)
        return arr(X, S)
    if k == "norm":
        return arr(find_approximate_normal(np.array(f.X), margin=o["margin"], max_steps=o["steps"], **sd))
    if k == "ads":
        kw = {"filters": {"element": [o["Z"][0]]}} if o["filt"] else {}
        out = add_adsorbate(f.mol, 0, 2.0, f.vol, probe_radius=f.rad * 1.15, use_sampling=o["sampling"], debug=o["dbg"], seed=seed, **kw)
        m = out[0]
        return arr(m.atoms, m.species, m.origin, *[np.asarray(x) for x in out[1:]])
    if k == "alphas":
        out = alpha_shape_alg_3D_with_sampling(np.array(f.X), f.rad, 5, std=0.02, seed=seed, return_alpha_shape=o["dct"])
    elif k == "alphag":
        out = alpha_shape_alg_3D_with_sampling(np.array(f.X), f.rad, 5, std=0.02, rng=np.random.default_rng(seed), return_alpha_shape=o["dct"])
    else:
        out = alpha_shape_alg_3D(np.array(f.X), f.rad, rng=np.random.default_rng(seed), return_alpha_shape=o["dct"])
    if o["dct"]:
        ix, d = out
        return arr(np.array(ix), d["tri"].simplices, d["surface_tris"], d["a_tris"])
    return arr(np.array(out))


def guarded(f, seed):
    try:
        return call(f, seed)
    except INJ:
        raise
    except Exception as e:       # a refusal must be reproducible too
        return ("raised", type(e).__name__)


def ambient():
    return repr(np.random.get_state()), random.getstate(), RNG.unseeded, RNG.global_draws


def names(o):
    return {"split": "get_N_splits", "sub": "gen_p_substrate", "subb": "gen_p_substrate_batched", "chem": "ChemicalSubstitution",
            "norm": "find_approximate_normal", "ads": "add_adsorbate", "alphas": "alpha_shape_alg_3D_with_sampling",
            "alphag": "alpha_shape_alg_3D_with_sampling with a generator", "alpha": "alpha_shape_alg_3D with a generator"}[o["k"]]


def checked(f, seed, what):
    a = ambient()
    x = guarded(f, seed)
    b = ambient()
    n = names(f.o)
    if a[0] != b[0] or a[3] != b[3]:
        raise Violation("global", f"{n} with a seed read or advanced numpy's global random state ({what})")
    if a[1] != b[1]:
        raise Violation("global", f"{n} with a seed advanced Python's global random state ({what})")
    if a[2] != b[2]:
        raise Violation("entropy", f"{n} with a seed drew fresh entropy ({what})")
    return x


def stir(s, n):
    """Other consumers of randomness, unseeded."""
    from czone.util.misc import get_N_splits
    r = random.Random(s)
    for _ in range(n):
        k = r.randrange(5)
        if k == 0:
            np.random.seed(r.randrange(2 ** 32))
        elif k == 1:
            np.random.rand(r.randint(1, 9))
        elif k == 2:
            random.random()
            random.seed(r.random())
        elif k == 3:
            np.random.default_rng().random(3)
        get_N_splits(r.randint(1, 3), 2, 30)


def run(sim):
    fs = [Fix(o) for o in sim.plan["ops"]]
    base = [checked(f, f.o["seed"], "first call") for f in fs]
    for f, b in zip(fs, base):
        if b and b[0] == "raised":
            sim.probe("refused_" + f.o["k"])
            if f.o["k"] not in ("ads", "norm"):
                raise Violation("error", f"{names(f.o)} raised {b[1]}")
        sim.log(f.o["k"], adig(np.frombuffer(repr(b).encode(), np.uint8)))
        sim.probe("op_" + f.o["k"])

    def same(i, what, x=None):
        x = checked(fs[i], fs[i].o["seed"], what) if x is None else x
        if x != base[i]:
            raise Violation("differs", f"{names(fs[i].o)} gave another result for seed {fs[i].o['seed']} ({what})")

    for a in sim.plan["amb"]:
        sim.steps += 1
        k = a["a"]
        i = a["t"] % len(fs)
        if k == "again":
            pass
        elif k == "reseed":
            np.random.seed(a["s"])
            random.seed(a["s"])
        elif k == "draw":
            np.random.rand(a["n"])
            np.random.default_rng().random(a["n"])
        elif k == "pydraw":
            random.seed(a["s"])
            [random.random() for _ in range(a["n"])]
        elif k == "unseeded":
            stir(a["s"], a["n"])
        elif k == "other":
            checked(fs[i], a["s"], "another seed")
        elif k == "stir":
            for j in range(len(fs)):
                stir(a["s"] + j, a["n"])
                same((i + j) % len(fs), "after other random activity")
        elif k == "fresh":       # inputs built anew
            fs[i] = Fix(fs[i].o)
        elif k == "interrupt":
            f = fs[i]
            n = MON.measure(lambda: guarded(f, f.o["seed"]))
            fired, _ = MON.inject(lambda: guarded(f, f.o["seed"]), 1 + int(a["f"] * n), EXC[a["exc"]])
            MON.set_level("jump")
            if fired:
                sim.fault(a["exc"])
        elif k == "threads":
            sch = Scheduler(rng_for(a["s"], "c08"), a["q"])
            gs = np.random.get_state(), random.getstate()
            try:
                res, err = sch.run([lambda f=f: guarded(f, f.o["seed"]) for f in fs + fs[:1]] + [lambda: stir(a["s"], 6)])
            finally:
                MON.set_level("jump")
            np.random.set_state(gs[0])
            random.setstate(gs[1])
            for e in err:
                if e is not None:
                    raise e
            sim.fault("thread_switch", sch.switches)
            sim.steps += sch.events
            sim.state("sched", tuple(sch.order[:60]))
            for j in range(len(fs)):
                same(j, "next to other threads", res[j])
            same(0, "next to a thread running the same", res[len(fs)])
            continue
        sim.fault("ambient_" + k)
        for j in range(len(fs)) if k in ("fresh", "reseed", "interrupt") else [i]:
            same(j, f"after {k}")
    for f, b in zip(fs, base):
        differ(sim, f, b)


def differ(sim, f, b):
    """Different seeds lead to different results wherever there is enough to choose from."""
    o = f.o
    k = o["k"]
    if b and b[0] == "raised":
        return
    s = o["seed"]
    others = [s + 1, s + 2, s ^ 0x5555, s + 2 ** 31, s + 65536, s + 10000, s + 3, s + 7]
    others = [x for x in others if x != s]
    if k == "split" and o["l"] - (o["n"] + 1) * o["m"] >= 20:
        need = False
    elif k in ("sub", "subb") and round(float(np.prod(o["dims"])) * o["rho"]) >= 1:
        need, others = True, [s ^ 2 ** (derive("bit", o["s"], s) % 32)] + others[:3]
    elif k == "chem" and 0.2 <= o["frac"] <= 0.8 and np.sum(np.isin(f.sp, f.Z)) >= 40 and o["seq"] < 2:
        # every bit of a seed counts
        need = np.sum(np.isin(f.sp, f.Z)) >= 60
        others = [s ^ 2 ** (derive("bit", i, s) % 32) for i in range(3)] + others[:4]
    elif k == "ads" and len(f.vol.atoms) >= 40:
        need = False
    elif k == "alpha" and o["dct"] is None:
        return
    else:
        return
    b = checked(f, o["seed"], "again") if not o.get("default") else checked(f, o["seed"] + 11, "another seed")
    xs = [checked(f, x, "another seed") for x in others]
    eq = [x for x, y in zip(others, xs) if y == b]
    if len(eq) == len(others) or (need and eq):
        raise Violation("constant", f"{names(o)} gave the same result for seed {s} and {eq[:4]}")
    sim.probe("seeds_differ_" + k)
    sim.state(k, s)
