import json
import sys

from . import runner


def main(a):
    if a[0] == "worker":
        pid, seed, tier, lo, step, hi, cap = a[1:]
        runner.worker(pid, int(seed), tier, int(lo), int(step), int(hi), float(cap))
    elif a[0] == "replay":       # run a replay file in this process; print the result of its plan
        rep = json.load(open(a[1]))
        sim, v = runner.sequence(rep)
        print(json.dumps({"d": sim.digest(), "v": v, "trace": sim.trace}))
    elif a[0] == "min":          # minimise the plan of a replay file
        rep = json.load(open(a[1]))
        print(json.dumps(runner.minimise(rep["property"], rep["plan"], rep["violation"]["kind"], float(a[2]))))
    elif a[0] == "one":          # one index of a property, for people
        pid, seed, i = a[1:4]
        plan = runner.make_plan(pid, int(seed), int(i), "quick")
        if len(a) > 4:
            json.dump(plan, open(a[4], "w"), indent=1)
        sim, v = runner.run_plan(pid, plan)
        print("\n".join(sim.trace))
        print(v)
    else:
        raise SystemExit("unknown mode")


main(sys.argv[1:])
