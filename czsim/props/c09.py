"""C09: random splits are separated, in range and always found when they exist."""
from collections import Counter

import numpy as np

from ..core import Violation
from ..seams import RNG

ID = "C09"
RUNS = {"quick": 20000, "thorough": 300000}
LEVEL = "jump"
JUMPS = 60_000_000
DRAWS = 4_000_000
SHRINK = ["ops"]


def gen(r, tier):
    ops = []
    for _ in range(r.randint(1, 6)):
        m = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
        need = 2 * m + max(n - 1, 0) * m      # smallest rejected length
        c = r.random()
        if c < 0.25:
            extra = 1                          # exactly one solution
        elif c < 0.45:
            extra = r.randint(2, 4)
        elif c < 0.65:
            extra = r.randint(-6, 0)           # infeasible
        else:
            extra = r.randint(5, 40)
        if n * m > 20 and 0 < extra < 3:
            n = max(1, 20 // m)
            need = 2 * m + (n - 1) * m
        if r.random() < 0.15:                 # long lists, large separations
            m, n = r.randint(9, 60), r.randint(1, 7)
            need = 2 * m + (n - 1) * m
            extra = r.choice([0, -1, -m]) if r.random() < 0.25 else int(n * m * r.uniform(0.8, 4.0)) + 1
        if r.random() < 0.02:                 # very long ones
            m, n = r.choice([1, 10, 100, 400]), r.choice([1, 3, 10, 40])
            need = 2 * m + (n - 1) * m
            extra = int(n * m * r.uniform(1.5, 4.0)) + r.choice([1000, 40000, 120000])
        op = {"n": n, "m": m, "l": max(1, need + extra), "seed": r.choice([None, None, r.randrange(2 ** 31)])}
        if r.random() < 0.06:                 # every admissible position occurs
            m = r.randint(1, 4)
            n = r.randint(1, 3)
            op = {"n": n, "m": m, "l": 2 * m + (n - 1) * (2 * m - 1) + r.randint(1, 6), "cover": True}
        ops.append(op)
    plan = {"ops": ops}
    if r.random() < 0.5:
        plan["adv"] = {"seed": r.randrange(2 ** 31), "p": r.choice([0.2, 0.6, 1.0]), "limit": r.choice([4, 30, 200]),
                       "kinds": r.sample(["low", "high", "repeat", "near", "edge"], r.randint(1, 4))}
    return plan


def judge(x, n, m, l):
    x = list(x)
    if len(x) != n:
        raise Violation("count", f"{len(x)} splits instead of {n} (m={m}, l={l})")
    for v in x:
        if isinstance(v, (bool, float)) or int(v) != v:
            raise Violation("range", f"split {v!r} is no integer")
        if not m <= v < l - m:
            raise Violation("range", f"split {v} outside [{m}, {l - m})")
    for a, b in zip(x, x[1:]):
        if b < a:
            raise Violation("order", f"splits {x} are not sorted")
        if b - a < m:
            raise Violation("separation", f"splits {a} and {b} are nearer than {m}")


def run(sim):
    from czone.util.misc import get_N_splits
    for op in sim.plan["ops"]:
        sim.steps += 1
        n, m, l = op["n"], op["m"], op["l"]
        if op.get("cover"):
            adv, RNG.adv = RNG.adv, None
            K = l - 2 * m
            seen = Counter()
            T = int(25 * K)
            for _ in range(T):
                x = get_N_splits(n, m, l)
                judge(x, n, m, l)
                seen.update(int(v) for v in x)
            RNG.adv = adv
            gone = [p for p in range(m, l - m) if not seen[p]]
            if gone:
                raise Violation("coverage", f"positions {gone} never chosen in {T} draws of {n} splits, m={m}, l={l}")
            sim.probe("coverage_checked")
            continue
        kw = {} if op["seed"] is None else {"seed": op["seed"]}
        infeasible = n > 0 and l - 2 * m <= (n - 1) * m
        try:
            x = get_N_splits(n, m, l, **kw)
        except Exception as e:
            if not infeasible:
                raise Violation("rejected", f"feasible request n={n}, m={m}, l={l} raised {type(e).__name__}: {e}")
            if not isinstance(e, ValueError):
                raise Violation("rejected", f"infeasible request n={n}, m={m}, l={l} raised {type(e).__name__} instead of ValueError")
            sim.fault("infeasible_request")
            sim.log("rejected")
            continue
        if infeasible:
            raise Violation("accepted", f"infeasible request n={n}, m={m}, l={l} was accepted: {list(x)}")
        judge(x, n, m, l)
        if n and l - 2 * m == (n - 1) * m + 1:
            sim.probe("unique_solution_found")
        if n == 0:
            sim.probe("zero_splits")
        sim.state(n, m, l)
        sim.log(n, m, l, [int(v) for v in x])
