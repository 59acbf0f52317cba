"""Runs one plan, many plans over worker processes, minimises and replays failures."""
import importlib
import json
import os
import subprocess
import sys
import time

from . import seams

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CZSIM_REPO", "/repo")
_ready = False


KEEP = []


def cache_groups():
    """pymatgen derives the operations of a space group slowly and caches them weakly: hold on to them."""
    from pymatgen.symmetry import groups
    new = groups.SpaceGroup.__new__
    held = {}

    def keep(cls, *a, **k):
        g = new(cls, *a, **k)
        held[id(g)] = g
        return g
    groups.SpaceGroup.__new__ = keep
    KEEP.append(held)


def bootstrap():
    """Install seams, import the code under test from REPO."""
    global _ready
    if _ready:
        return
    import logging
    import warnings
    warnings.simplefilter("ignore")
    seams.install()
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    import czone
    import czone.generator, czone.molecule.molecule, czone.prefab, czone.scene, czone.surface  # noqa
    import czone.transform.strain, czone.util.measure, czone.util.misc, czone.volume  # noqa
    cache_groups()
    here = os.path.realpath(czone.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"czone imported from {here}, not from {REPO}")
    warnings.simplefilter("ignore")
    seams.MON.setup()
    _ready = True


def prop(pid):
    return importlib.import_module("czsim.props." + pid.lower())


JUMPS = 30_000_000
DRAWS = 3_000_000


def run_plan(pid, plan):
    """Execute one plan. Returns (sim, violation or None). Other exceptions are harness errors."""
    from .core import INJ, BudgetExceeded, Sim, Violation
    bootstrap()
    m = prop(pid)
    sim = Sim(plan)
    adv = None
    a = plan.get("adv")
    if a:
        adv = seams.Adversary(a["seed"], a["p"], a["limit"], a["kinds"])
    seams.MON.clear()
    seams.MON.set_level(getattr(m, "LEVEL", "jump"))
    seams.RNG.reset(plan["seed"], adv, getattr(m, "DRAWS", DRAWS))
    seams.MON.jump_budget = getattr(m, "JUMPS", JUMPS)
    v = None
    devnull = open(os.devnull, "w")
    out = sys.stdout
    sys.stdout = devnull
    try:
        m.run(sim)
    except Violation as e:
        v = {"kind": e.kind, "msg": e.msg}
    except BudgetExceeded as e:
        v = {"kind": "no-progress", "msg": f"operation did not finish within its budget ({e})"}
    except INJ:
        raise
    except Exception as e:
        where = raised_in_czone(e)
        if where is None:
            raise
        v = {"kind": "error", "msg": f"unexpected {type(e).__name__} from {where}: {str(e)[:200]}"}
    finally:
        sys.stdout = out
        devnull.close()
        seams.MON.clear()
        seams.RNG.adv = None
        seams.RNG.budget = None
    if adv is not None:
        for k, n in adv.hits.items():
            sim.fault("draw_" + k, n)
    sim.log("end", v["kind"] if v else "ok", seams.RNG.draws)
    sim.draws = seams.RNG.draws
    return sim, v


def raised_in_czone(e):
    """Name of the czone function an exception came from, None if it came from the simulator."""
    root = os.path.realpath(os.path.join(REPO, "czone")) + os.sep
    where = None
    tb = e.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            where = tb.tb_frame.f_code.co_name
        elif fn.startswith(os.path.join(ROOT, "czsim") + os.sep):
            where = None
        tb = tb.tb_next
    return where


def make_plan(pid, seed, i, tier):
    from .core import derive, rng_for
    r = rng_for(pid, seed, i)
    plan = prop(pid).gen(r, tier)
    plan["seed"] = derive(pid, seed, i, "run") % 2 ** 48
    plan["property"] = pid
    plan["index"] = i
    plan["verif_seed"] = seed
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------------ worker
RUN_LIMIT = 100      # seconds a single run may take; honest runs take a few


def worker(pid, seed, tier, lo, step, hi, cap):
    import signal
    bootstrap()
    t0 = time.time()
    for i in range(lo, hi, step):
        if time.time() - t0 > cap:
            print(json.dumps({"cap": i}), flush=True)
            break
        print(json.dumps({"start": i}), flush=True)
        signal.alarm(RUN_LIMIT)
        t = time.time()
        plan = make_plan(pid, seed, i, tier)
        sim, v = run_plan(pid, plan)
        signal.alarm(0)
        print(json.dumps({"i": i, "d": sim.digest(), "f": sim.faults, "p": sim.probes, "s": sorted(sim.states),
                          "n": sim.steps, "dr": sim.draws, "v": v, "t": round(time.time() - t, 3)}), flush=True)
    print(json.dumps({"done": True}), flush=True)


def sequence(rep):
    """Run a replay: the runs that went before in the same process, then the plan. Result of the plan."""
    import signal
    pid = rep["property"]
    bootstrap()
    pre = rep.get("prelude") or {}
    for i in pre.get("indices", []):
        signal.alarm(RUN_LIMIT)
        run_plan(pid, make_plan(pid, pre["seed"], i, pre["tier"]))
    signal.alarm(RUN_LIMIT)
    sim, v = run_plan(pid, rep["plan"])
    signal.alarm(0)
    return sim, v


def spawn(args, env=None):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": e.get("CZSIM_HASHSEED", "0"), "MPLBACKEND": "Agg",
              "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
              "PYTHONPYCACHEPREFIX": os.devnull + "/none", "PYTHONPATH": ROOT})
    e.update(env or {})
    return subprocess.Popen([sys.executable, "-B", "-m", "czsim"] + [str(a) for a in args], stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, cwd=ROOT, env=e)


# ------------------------------------------------------------------ minimise
def same(pid, plan, kind):
    try:
        _, v = run_plan(pid, plan)
    except Exception:
        return False
    return v is not None and v["kind"] == kind


def ddmin(pid, plan, key, kind, deadline):
    items = plan.get(key)
    if not isinstance(items, list) or not items:
        return plan
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        done = True
        for a in range(0, len(items), size):
            cand = items[:a] + items[a + size:]
            p = {**plan, key: cand}
            if same(pid, p, kind):
                items, plan, done = cand, p, False
                n = max(n - 1, 2)
                break
            if time.time() > deadline:
                return plan
        if done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return plan


def minimise(pid, plan, kind, seconds=60):
    m = prop(pid)
    deadline = time.time() + seconds
    if plan.get("adv"):
        p = {k: v for k, v in plan.items() if k != "adv"}
        if same(pid, p, kind):
            plan = p
        else:
            for lim in (1, 2, 4, 8, 16, 32):
                if lim >= plan["adv"]["limit"]:
                    break
                p = {**plan, "adv": {**plan["adv"], "limit": lim}}
                if same(pid, p, kind):
                    plan = p
                    break
    for _ in range(2):
        for key in getattr(m, "SHRINK", ["faults", "ops", "objs"]):
            plan = ddmin(pid, plan, key, kind, deadline)
    if hasattr(m, "simplify"):
        again = True
        while again and time.time() < deadline:
            again = False
            for p in m.simplify(plan):
                if time.time() > deadline:
                    break
                if p != plan and same(pid, p, kind):
                    plan, again = p, True
                    break
    return plan
