"""C15: molecule edits refine a list of (species, position) pairs with one reference origin."""
import numpy as np

from ..core import INJ, Violation
from ..ref import axis_angle, motion_affine, move
from ..seams import EXC, MON
from ..world import SPECIES, World, build_motion, gen_dir, gen_motion, mods, r6, rvec
from .common import instants

ID = "C15"
RUNS = {"quick": 30000, "thorough": 450000}
LEVEL = "full"

GOOD = ["set", "upos", "usp", "rem", "move", "orip", "orii", "orient", "prio", "copy", "ase", "reset", "pop"]
BAD = ["set_size", "upos_size", "usp_size", "rem_range", "rem_origin", "rem_new_in", "rem_new_type", "rem_new_range",
       "orient_shape", "orient_det", "orient_skew", "prio_type", "orii_range", "orii_type", "orip_shape", "move_type"]


def coords(r, n):
    """Positions, at times on integer coordinates as typed by hand."""
    if r.random() < 0.25:
        return [[r.randint(-3, 3) for _ in range(3)] for _ in range(n)]
    return [rvec(r, 3.0) for _ in range(n)]


def gen(r, tier):
    n = r.randint(1, 7)
    c = {"Z": [r.choice(SPECIES) for _ in range(n)], "X": coords(r, n), "o": None}
    if r.random() < 0.25:
        c["R"] = [gen_dir(r), r6(r.uniform(-4, 4))]
    k = r.random()
    if k < 0.4:
        c["o"] = r.randrange(-n + 1, n)
    elif k < 0.7:
        c["o"] = rvec(r, 3.0)
    ops = []
    for _ in range(r.randint(2, 14)):
        t = r.randrange(100)
        if r.random() < 0.22:
            ops.append({"op": "bad", "w": r.choice(BAD), "t": t, "s": r.randrange(10 ** 6)})
            continue
        k = r.choice(GOOD)
        op = {"op": k, "t": t, "s": r.randrange(10 ** 6), "form": r.randrange(3)}
        if k == "set":
            m = r.randint(1, 7)
            op.update(Z=[r.choice(SPECIES) for _ in range(m)], X=coords(r, m))
        if k in ("move", "copy"):
            op["ms"] = [gen_motion(r) for _ in range(1 if k == "move" else r.randint(0, 2))]
            op["to"] = r.random() < 0.75
        if k == "orient":
            op.update(axis=gen_dir(r), ang=r6(r.uniform(-4, 4)))
        if k == "prio":
            op["p"] = r.choice([-3, 0, 1, 7])
        if r.random() < 0.25 and k in ("set", "upos", "usp", "rem", "move", "copy", "orip", "orii"):
            op.update(f=r.random(), exc=r.choice(list(EXC)))
        ops.append(op)
    return {"init": c, "ops": ops}


class Ref:
    def __init__(self, Z, X, o):
        self.Z, self.X = np.array(Z, int), np.array(X, float).reshape(-1, 3)
        self.oidx, self.o = None, np.zeros(3)
        self.known = True
        if isinstance(o, int):
            self.oidx = o % len(self.Z)
        elif o is not None:
            self.o = np.array(o, float)
        self.R = np.eye(3)
        self.prio = 0

    def copy(self):
        n = Ref(self.Z, self.X, None)
        n.__dict__.update({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items()})
        return n


def state(m, origin=True):
    return tuple(np.array(x).tobytes() for x in (m.atoms, m.species, m.orientation)) + (m.priority, len(m.atoms), len(m.species)) + \
        ((np.array(m.origin).tobytes(), m._origin_tracking if hasattr(m, "_origin_tracking") else None) if origin else ())


def check(m, ref, what):
    a, s = np.asarray(m.atoms), np.asarray(m.species)
    if a.shape != ref.X.shape or s.shape != ref.Z.shape:
        raise Violation("list", f"{what}: molecule has {a.shape} positions and {s.shape} species instead of {len(ref.Z)}")
    if not np.array_equal(s, ref.Z):
        raise Violation("list", f"{what}: species {s.tolist()} instead of {ref.Z.tolist()}")
    if not np.allclose(a, ref.X, atol=1e-6):
        raise Violation("list", f"{what}: positions are not those of the edits")
    if s.dtype.kind not in "iu":
        raise Violation("list", f"{what}: species are not integers")
    if ref.known:
        o = ref.X[ref.oidx] if ref.oidx is not None else ref.o
        got = np.asarray(m.origin)
        if got.shape != (3,) or not np.allclose(got, o, atol=1e-6):
            raise Violation("origin", f"{what}: origin {np.round(got, 4).tolist()} instead of {np.round(o, 4).tolist()}")
    if not np.allclose(m.orientation, ref.R, atol=1e-9):
        raise Violation("orientation", f"{what}: orientation changed")
    if m.priority != ref.prio:
        raise Violation("priority", f"{what}: priority {m.priority} instead of {ref.prio}")
    at = m.ase_atoms
    if not np.array_equal(at.numbers, ref.Z) or not np.allclose(at.positions, ref.X, atol=1e-6):
        raise Violation("list", f"{what}: ase_atoms differ")


def form(x, k):
    return [np.array(x), np.array(x).tolist(), tuple(np.array(x).tolist())][k % 3]


def do(op, m, ref, r):
    """(callable on molecule, new reference, returns a new molecule?, inputs to watch)"""
    k = op["op"]
    n = len(ref.Z)
    new = ref.copy()
    watch = []
    if k == "set":
        Z, X = form(op["Z"], op["form"]), form(op["X"], op["form"])
        watch = [Z, X]
        new.Z, new.X = np.array(op["Z"], int), np.array(op["X"], float)
        if ref.oidx is not None:
            new.known = False
        return (lambda q: q.set_atoms(Z, X)), new, watch
    if k == "upos":
        X = np.array([[r.gauss(0, 3) for _ in range(3)] for _ in range(n)])
        if r.random() < 0.2:
            X = np.round(X).astype(int)
        if op["form"] == 1:
            Y = X.ravel().copy()
        else:
            Y = form(X, op["form"])
        new.X = X.astype(float)
        return (lambda q: q.update_positions(Y)), new, [Y]
    if k == "usp":
        Z = [r.choice(SPECIES) for _ in range(n)]
        Y = form(Z, op["form"])
        if r.random() < 0.3:
            Y = form(np.array(Z, float), op["form"])    # as handed on by generators
        new.Z = np.array(Z, int)
        return (lambda q: q.update_species(Y)), new, [Y]
    if k == "rem":
        c = [i for i in range(n) if i != ref.oidx]
        if not ref.known or not c or (ref.oidx is None and n == 1):
            return None
        kk = r.randint(0, min(len(c), 3) if ref.oidx is not None else min(len(c) - 1, 3))
        idx = r.sample(c, kk)
        keep = [i for i in range(n) if i not in idx]
        if ref.oidx is not None:
            new.oidx = keep.index(ref.oidx)
        new.X, new.Z = ref.X[keep], ref.Z[keep]
        idx = [i - n if r.random() < 0.2 else i for i in idx]
        if r.random() < 0.2 and idx:
            idx = idx + [idx[0]]
        I = [idx, np.array(idx, int), tuple(idx)][op["form"]]
        return (lambda q: q.remove_atoms(I)), new, [I]
    if k == "move":
        M, t = motion_affine(op["ms"][0])
        new.X = move(M, t, ref.X)
        if ref.oidx is None and op["to"]:
            new.o = move(M, t, ref.o)
        T = build_motion(op["ms"][0])
        return (lambda q: q.transform(T, transform_origin=op["to"])), new, []
    if k == "orip":
        p = np.array([r.gauss(0, 4) for _ in range(3)])
        new.oidx, new.o, new.known = None, p.copy(), True
        Y = form(p, op["form"])
        return (lambda q: q.set_origin(point=Y)), new, [Y]
    if k == "orii":
        i = r.randrange(n)
        new.oidx, new.known = i, True
        j = i - n if (op["form"] == 1 and i > 0) else i
        j = np.int64(j) if op["form"] == 2 else j
        return (lambda q: q.set_origin(idx=j)), new, []
    if k == "orient":
        R = axis_angle(op["axis"], op["ang"])
        new.R = R.copy()

        def f(q):
            q.orientation = R
        return f, new, [R]
    if k == "reset":
        new.R = np.eye(3)
        return (lambda q: q.reset_orientation()), new, []
    if k == "prio":
        new.prio = op["p"]

        def f(q):
            q.priority = op["p"]
        return f, new, []
    if k == "pop":
        return (lambda q: q.populate_atoms()), new, []
    return None


def improper(r, k):
    """Not a rotation, by at least a thousandth."""
    R = axis_angle([r.gauss(0, 1) for _ in range(3)], r.uniform(-4, 4))
    d = r.choice([1, -1]) * 10 ** r.uniform(-3, -0.2)
    if k == "mirror":
        return R @ np.diag(r.choice([[-1.0, 1, 1], [1, 1, -1.0], [-1.0, -1, -1]]))
    if k == "scale":
        return R * (1 + d)
    S = np.eye(3)
    i, j = r.sample(range(3), 2)
    if r.random() < 0.5:
        S[i, j] = d
    else:
        S[i, i], S[j, j] = 1 + abs(d), 1 / (1 + abs(d))
    return R @ S


def bad(op, m, ref, r):
    n = len(ref.Z)
    w = op["w"]

    def ori(M):
        def f():
            m.orientation = M
        return f

    def prio():
        m.priority = 1.5
    other = [i for i in range(n) if i != ref.oidx]
    acts = {
        "set_size": lambda: m.set_atoms(list(ref.Z) + [6], ref.X),
        "upos_size": lambda: m.update_positions(np.zeros((n + 1, 3))),
        "usp_size": lambda: m.update_species(np.ones(n + 1, int)),
        "rem_range": lambda: m.remove_atoms([0 if ref.oidx != 0 else n - 1, n + 3] if n > 1 else [n + 3]),
        "rem_origin": None if ref.oidx is None or not ref.known else lambda: m.remove_atoms(
            r.sample(range(n), r.randint(0, n - 1)) + [ref.oidx]),
        "rem_new_in": lambda: m.remove_atoms([0, n - 1], new_origin_idx=n - 1),
        "rem_new_type": lambda: m.remove_atoms(other[:1], new_origin_idx=0.5),
        "rem_new_range": lambda: m.remove_atoms(other[:1], new_origin_idx=n),
        "orient_shape": ori(np.eye(4)),
        "orient_det": ori(improper(r, r.choice(["mirror", "scale"]))),
        "orient_skew": ori(improper(r, "skew")),
        "prio_type": prio,
        "orii_range": lambda: m.set_origin(idx=n + r.randint(0, 3)),
        "orii_type": lambda: m.set_origin(idx=1.5),
        "orip_shape": lambda: m.set_origin(point=np.zeros(4)),
        "move_type": lambda: m.transform("turn"),
    }
    return acts[w]


def run(sim):
    import random
    c = sim.plan["init"]
    w = World(sim)
    Mo = mods().Mo
    o = c["o"]
    kw = {} if o is None else {"origin": o if isinstance(o, int) else np.array(o)}
    if "R" in c:
        kw["orientation"] = axis_angle(*c["R"])
    mols = [(w.call("Molecule", lambda: Mo.Molecule(np.array(c["Z"]), np.array(c["X"]), **kw)), Ref(c["Z"], c["X"], o))]
    mols[0][0].print_warnings = False
    if "R" in c:
        mols[0][1].R = kw["orientation"].copy()
    hist = []
    for op in sim.plan["ops"]:
        sim.steps += 1
        r = random.Random(op["s"])
        i = op["t"] % len(mols)
        m, ref = mols[i]
        k = op["op"]
        hist.append(k if k != "bad" else op["w"])
        if k == "bad":
            f = bad(op, m, ref, r)
            if f is None:
                continue
            b = state(m, ref.known)
            try:
                f()
            except INJ:
                raise
            except Exception:
                sim.fault("rejected_edit")
            else:
                raise Violation("accepted", f"invalid edit {op['w']} was accepted")
            if state(m, ref.known) != b:
                raise Violation("rejected-edit", f"rejected edit {op['w']} changed the molecule")
        elif k == "copy":
            if len(mols) >= 4:
                continue
            Ts = [build_motion(x) for x in op["ms"]]
            new = ref.copy()
            for x in op["ms"]:
                M, t = motion_affine(x)
                new.X = move(M, t, new.X)
                if new.oidx is None:
                    new.o = move(M, t, new.o)
            if "f" in op:
                n = instants(w, lambda q: q.from_molecule(transformation=Ts), m)
                fired, cp = MON.inject(lambda: m.from_molecule(transformation=Ts), 1 + int(op["f"] * n), EXC[op["exc"]])
                if fired:
                    sim.fault(op["exc"])
            cp = w.call("from_molecule", lambda: m.from_molecule(**({"transformation": Ts} if Ts else {})))
            mols.append((cp, new))
        elif k == "ase":
            if op["form"] == 1:
                from pymatgen.core import Molecule as PM
                at = PM([int(z) for z in m.species], np.array(m.atoms))
                cp = w.call("from_pmg_molecule", lambda: Mo.Molecule.from_pmg_molecule(at))
            else:
                at = w.call("ase_atoms", lambda: m.ase_atoms)
                cp = w.call("from_ase_atoms", lambda: Mo.Molecule.from_ase_atoms(at))
                at.positions += 50.0
            cp.print_warnings = False
            new = Ref(ref.Z, ref.X, None)
            if len(mols) < 4:
                mols.append((cp, new))
        else:
            d = do(op, m, ref, r)
            if d is None:
                continue
            f, new, watch = d
            keep = [np.array(x) for x in watch]
            if "f" in op:
                n = instants(w, f, m)
                old = np.array(m.atoms), np.array(m.species)
                fired, _ = MON.inject(lambda: f(m), 1 + int(op["f"] * n) if n else 1, EXC[op["exc"]])
                if fired:
                    sim.fault(op["exc"])
                    sim.state("inj", fired[0])
                    a, s = np.array(m.atoms), np.array(m.species)
                    isold = np.array_equal(a, old[0]) and np.array_equal(s, old[1])
                    isnew = np.array_equal(s, new.Z) and a.shape == new.X.shape and np.allclose(a, new.X, atol=1e-6)
                    if not isold and not isnew:
                        raise Violation("torn", f"interrupted {k} left {len(a)} positions and {len(s)} species, neither as before nor as edited")
                    ref = new if isnew and not isold else ref
                    # an interrupted edit may have left the origin behind: choose it anew
                    p = np.array([r.gauss(0, 4) for _ in range(3)])
                    w.call("set_origin", lambda: m.set_origin(point=p))
                    ref.oidx, ref.o, ref.known = None, p, True
                    mols[i] = (m, ref)
                    sim.log("injected", k, isnew)
                    for q, (mm, rr) in enumerate(mols):
                        check(mm, rr, f"after interrupted {k}, molecule {q}")
                    continue
            else:
                w.call(k, lambda: f(m))
            for x, y in zip(keep, watch):
                if not np.array_equal(x, np.array(y)):
                    raise Violation("input", f"{k} changed the array passed in")
            # arrays handed in belong to the caller
            if k in ("set", "upos", "usp", "orip") and isinstance(watch[0], np.ndarray):
                for y in watch:
                    if isinstance(y, np.ndarray):
                        y += 7
            mols[i] = (m, new)
        for q, (mm, rr) in enumerate(mols):
            check(mm, rr, f"after {k}{' ' + op['w'] if k == 'bad' else ''}, molecule {q}")
        sim.log(k, len(mols))
    sim.state(hist)
