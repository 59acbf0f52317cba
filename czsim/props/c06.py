"""C06: an export that returns left a complete file behind; one that could not raises; retrying works."""
import os
import shutil
import tempfile

import numpy as np

from .. import seams
from ..core import INJ, Violation
from ..seams import EXC, MON, Disk
from ..world import World, gen_mol, gen_motion, gen_multi, gen_vol, r6, sdiff, snap

ID = "C06"
RUNS = {"quick": 18000, "thorough": 270000}
LEVEL = "jump"
SHRINK = ["ops", "objs"]

# format -> (file name, cell kept, tolerance, positions modulo cell, needs cell)
FMT = {
    "xyz": ("a.xyz", False, 1e-6, False, False),
    "extxyz": ("b.xyz", True, 1e-6, False, False),
    "cif": ("c.cif", True, 2e-3, True, False),
    "proteindatabank": ("d.pdb", False, 2e-3, False, False),
    "vasp": ("POSCAR", True, 1e-6, False, True),
    "prismatic": ("e.XYZ", True, 1e-4, False, True),
    "cfg": ("f.cfg", True, 1e-4, False, True),
    "xsf": ("g.xsf", False, 1e-6, False, False),
    "aims": ("geometry.in", False, 1e-6, False, False),
    "gen": ("h.gen", False, 1e-6, False, False),
    "dmol-car": ("i.car", False, 1e-6, False, False),
}
BY_NAME = {"extxyz": ["b.xyz", "sub.b.xyz"], "cif": ["c.cif"], "proteindatabank": ["d.pdb"], "vasp": ["POSCAR"], "cfg": ["f.cfg"],
           "xsf": ["g.xsf"], "gen": ["h.gen"]}
PROF = {"size": 6, "p_null": 0.1, "p_am": 0.1, "p_multi": 0.25, "p_mol": 0.2, "cb": 0.0, "spread": 2.0}


def gen_fault(r):
    k = r.choice(["open", "eio", "eio", "enospc", "enospc", "close", "interrupt", "rename", "sync", "code", "nodir", "badfmt", "badkw"])
    f = {"kind": k, "at": r.choice([1, 1, 2, 3, 5]) if k != "enospc" else r.choice([0, 1, 10, 100, 500, 2000]), "f": r.random(),
         "exc": r.choice(list(EXC))}
    return f


def gen(r, tier):
    objs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.random()
        prof = {**PROF, "size": r.uniform(3, 6)}
        objs.append(gen_mol(r) if c < 0.25 else gen_multi(r, prof) if c < 0.45 else gen_vol(r, prof))
    ops = []
    for _ in range(r.randint(1, 4)):
        if r.random() < 0.2:
            ops.append({"op": "edit", "t": r.randrange(99), "m": gen_motion(r)})
        f = r.choice(list(FMT))
        ops.append({"op": "export", "fmt": f, "tgt": r.choice(["scene", "scene", "vol"]), "t": r.randrange(99),
                    "byname": r.random() < 0.35, "file": r.randrange(3), "gz": r.random() < 0.08,
                    "pre": r.choice([None, None, "junk", "short", "same"]), "opt": r.randrange(10 ** 6) if r.random() < 0.5 else None,
                    "fault": gen_fault(r) if r.random() < 0.65 else None, "short": r.choice([None, None, r.randrange(1, 1000)]),
                    "buf": r.choice([16, 128, 1024, 8192])})
    lo = [0.0, 0, 0] if r.random() < 0.6 else [r6(r.uniform(-5, 5)) for _ in range(3)]
    return {"objs": objs, "bounds": [lo, [r6(x + r.uniform(8, 40)) for x in lo]] if r.random() < 0.8 else None, "ops": ops}


def simplify(plan):
    for i, o in enumerate(plan["ops"]):
        for k, v in (("short", None), ("gz", False), ("pre", None), ("opt", None), ("byname", False)):
            if o.get(k) not in (None, v, False):
                yield {**plan, "ops": plan["ops"][:i] + [{**o, k: v}] + plan["ops"][i + 1:]}
    if plan["bounds"]:
        yield {**plan, "bounds": None}


def options(op, S):
    """Keyword arguments for the writer."""
    import random
    from ase.data import chemical_symbols
    if op["opt"] is None:
        return {}
    r = random.Random(op["opt"])
    f = op["fmt"]
    if f == "prismatic":
        if r.random() < 0.6:
            d = {chemical_symbols[int(z)]: round(r.uniform(0.1, 1.5), 3) for z in sorted(set(S.tolist()))}
            return {"debye_waller_factors": d}
        return {"debye_waller_factors": 0.4} if len(set(S.tolist())) == 1 else {}
    if f == "vasp":
        return r.choice([{"direct": True}, {"vasp5": True}, {"sort": True}, {"label": "simulated"}])
    if f in ("xyz", "extxyz"):
        return {"comment": "simulated"} if f == "xyz" else {"plain": False}
    if f == "cif":
        return r.choice([{"wrap": True}, {"wrap": False}])
    return {}


def read_prismatic(path):
    """Own reader: the one of ASE fails on single atoms."""
    from ase import Atoms
    L = open(path).read().split("\n")
    rows = [l.split() for l in L[2:] if l.strip()]
    if rows[-1] != ["-1"] or any(len(r) != 6 for r in rows[:-1]):
        raise ValueError("malformed prismatic file")
    V = np.array(rows[:-1], float).reshape(-1, 6)
    at = Atoms(numbers=V[:, 0].astype(int), positions=V[:, 1:4], cell=[float(x) for x in L[1].split()])
    at.set_array("debye_waller_factors", 8 * np.pi ** 2 * V[:, 5] ** 2)
    if not np.allclose(V[:, 4], 1.0):
        raise ValueError("occupancies are not 1")
    return at


def read_cif(path):
    """What the file lists: ASE's high-level reader merges atoms that lie almost on top of each other."""
    from ase.io.cif import parse_cif
    return [b.get_unsymmetrized_structure() for b in parse_cif(path)]


def match(A, S, x, n):
    """For a file that lists the atoms sorted: which row is which atom. Per species, since atoms of a
    Molecule may lie on top of each other; the caller compares the positions."""
    from scipy.optimize import linear_sum_assignment
    from scipy.spatial import cKDTree
    o = np.zeros(len(A), int)
    for Z in np.unique(S):
        i, j = np.flatnonzero(S == Z), np.flatnonzero(n == Z)
        if len(i) != len(j):
            return None
        k = cKDTree(x[j]).query(A[i])[1]
        if len(set(k.tolist())) != len(i):
            if len(i) > 4000:
                return None
            k = linear_sum_assignment(np.linalg.norm(A[i][:, None] - x[j][None], axis=2))[1]
        o[i] = j[k]
    return o


def fmt_relative(op):
    return op["fmt"] == "prismatic"      # six significant digits


def verify(path, op, kw, A, S, cell, what):
    from ase.io import read
    name, keeps, tol, mod, needs = FMT[op["fmt"]]
    try:
        b = [read_prismatic(path)] if op["fmt"] == "prismatic" else read_cif(path) if op["fmt"] == "cif" else read(path, format=op["fmt"], index=slice(None))
    except INJ:
        raise
    except Exception as e:
        raise Violation("file", f"{what}: the file cannot be read as {op['fmt']}: {type(e).__name__}: {e}")
    if len(b) != 1:
        raise Violation("file", f"{what}: the {op['fmt']} file holds {len(b)} structures")
    b = b[0]
    if len(b) != len(A):
        raise Violation("file", f"{what}: the {op['fmt']} file holds {len(b)} of {len(A)} atoms")
    n, x = np.asarray(b.numbers), np.asarray(b.positions)
    if kw.get("sort"):
        o = match(A, S, x, n)
        if o is None:
            raise Violation("file", f"{what}: the {op['fmt']} file holds other atoms")
        n, x = n[o], x[o]
    if not np.array_equal(n, S):
        raise Violation("file", f"{what}: the {op['fmt']} file holds other species")
    d = x - A
    if mod and cell is not None:
        L = np.diag(cell)
        d = d - np.round(d / L) * L
    if fmt_relative(op):
        tol = 1e-5 * max(1.0, np.abs(A).max())
    if not np.all(np.isfinite(x)) or np.abs(d).max() > tol:
        raise Violation("file", f"{what}: positions in the {op['fmt']} file are off by up to {np.abs(d).max():.3g}")
    if keeps and cell is not None and not np.allclose(np.array(b.cell), cell, atol=1e-4):
        raise Violation("file", f"{what}: the {op['fmt']} file has cell {np.array(b.cell).tolist()} instead of {np.diag(cell).tolist()}")
    if op["fmt"] == "prismatic":
        from ase.data import chemical_symbols
        w = kw.get("debye_waller_factors")
        got = b.arrays.get("debye_waller_factors")
        want = np.array([w[chemical_symbols[z]] if isinstance(w, dict) else w if w else 0.1 ** 2 * 8 * np.pi ** 2 for z in S])
        if not np.allclose(np.sqrt(got / 8) / np.pi, np.sqrt(want / 8) / np.pi, atol=1e-5):
            raise Violation("file", f"{what}: Debye-Waller factors in the file are not the ones asked for")


def run(sim):
    p = sim.plan
    w = World(sim)
    for s in p["objs"]:
        w.tops.append(w.build(s))
    w.make_scene(bounds=None if p["bounds"] is None else np.array(p["bounds"], float))
    w.call("populate", w.scene.populate)
    root = tempfile.mkdtemp(prefix="czsim_")
    seams.DISK = Disk(root)
    try:
        for op in p["ops"]:
            sim.steps += 1
            if op["op"] == "edit":
                w.edit({"op": "move", "t": op["t"], "m": op["m"]})
                w.call("populate", w.scene.populate)
                continue
            export(w, op, root)
    finally:
        seams.DISK = None
        shutil.rmtree(root, ignore_errors=True)


def export(w, op, root):
    sim = w.sim
    tgt = w.scene
    if op["tgt"] == "vol":
        v = w.pick(op["t"], ("vol", "multi"))
        if v is None:
            return
        tgt = v.ob
        A, S, cell = np.array(tgt.atoms), np.array(tgt.species).astype(int), None
    else:
        A, S = np.array(tgt.all_atoms), np.array(tgt.all_species).astype(int)
        cell = np.diag(tgt.bounds[1] - tgt.bounds[0])
    fmt = op["fmt"]
    name, keeps, tol, mod, needs = FMT[fmt]
    if len(A) == 0 or (needs and cell is None):
        sim.probe("not_exportable")
        return
    if fmt == "proteindatabank" and np.abs(A).max() > 900:
        return
    kw = options(op, S)
    if op["byname"] and fmt in BY_NAME:
        c = BY_NAME[fmt]
        name = c[op["file"] % len(c)]
    else:
        kw = {**kw, "format": fmt}
        name = name if op["file"] == 0 else f"out{op['file']}"
        if op["gz"] and fmt in ("xyz", "extxyz", "aims"):
            name += ".gz"
    path = os.path.join(root, name)
    D = seams.DISK
    D.arm({})
    if op["pre"] == "junk":
        open(path, "w").write("7\nleft over\n" + "Au 1 2 3\n" * 5000)
    elif op["pre"] == "short":
        open(path, "w").write("0\n")
    elif op["pre"] == "same":
        try:
            tgt.to_file(path, **kw)
        except Exception:
            pass
    flt = op["fault"] or {"kind": None}
    kind = flt["kind"]
    before = state(w, tgt)
    kw0 = snap(kw)
    plan = {"buf": op["buf"]}
    if op["short"]:
        plan["short"] = op["short"]
    if kind in ("open", "eio", "enospc", "close", "interrupt", "rename", "sync"):
        plan.update(kind=kind, at=flt["at"])
    target, kws = path, kw
    if kind == "nodir":
        target = os.path.join(root, "missing", name)
    if kind == "badfmt":
        kws = {**kw, "format": "no-such-format"}
    if kind == "badkw":
        kws = {**kw, "no_such_option": 1}
    hit = None
    D.arm(plan)
    err = None
    try:
        if kind == "code":
            n = MON.measure(lambda: tgt.to_file(os.path.join(root, "measure"), **{"format": fmt, **kw}))
            D.arm(plan)
            hit, _ = MON.inject(lambda: tgt.to_file(target, **kws), 1 + int(flt["f"] * n), EXC[flt["exc"]])
            MON.set_level("jump")
            if hit:
                sim.fault("code_" + flt["exc"])
        else:
            tgt.to_file(target, **kws)
    except Exception as e:
        err = e
    except INJ as e:
        err = e
    finally:
        MON.set_level("jump")
    fired = [x for x in D.fired if x != "short"]
    for x in set(D.fired):
        sim.fault(x, D.fired.count(x) if x == "short" else 1)
    D.arm({})
    what = f"export of a {op['tgt']} as {fmt}"
    if state(w, tgt) != before:
        raise Violation("state", f"{what} changed what was exported")
    if snap(kw) != kw0:
        raise Violation("state", f"{what} changed the options passed in")
    if kind in ("nodir", "badfmt", "badkw"):
        if err is None:
            raise Violation("silent", f"{what} returned normally although it was impossible ({kind})")
        sim.fault(kind)
    elif set(fired) <= {"rename", "open"} and fired and err is None:    # another way may have worked
        verify(path, op, kw, A, S, cell, what)
    elif fired and err is None:
        raise Violation("silent", f"{what} returned normally although storage failed ({fired[0]})")
    elif err is None and not hit:
        verify(path, op, kw, A, S, cell, what)
        if op["pre"]:
            sim.probe("replaced_older_file")
        sim.probe("verified")
    elif err is not None and not fired and not hit:
        raise Violation("error", f"{what} raised {type(err).__name__}: {err} on healthy storage")
    sim.probe("fmt_" + fmt)
    sim.state(fmt, op["tgt"], kind, bool(op["short"]), tuple(sorted(set(fired))), D.writes)
    sim.log("export", fmt, kind, len(A), "raised" if err is not None else "ok", fired)
    if kind:                     # healthy again
        try:
            tgt.to_file(path, **kw)
        except INJ:
            raise
        except Exception as e:
            raise Violation("retry", f"{what} again, on healthy storage, raised {type(e).__name__}: {e}")
        verify(path, op, kw, A, S, cell, "repeated " + what)
        sim.probe("retried")


def state(w, tgt):
    out = [snap(w.scene)]
    for n in w.flat():
        out.append((snap(n.ob), np.asarray(n.ob.atoms).tobytes(), np.asarray(n.ob.species).tobytes()))
    out.append((np.asarray(w.scene.all_atoms).tobytes(), np.asarray(w.scene.all_species).tobytes()))
    return out
