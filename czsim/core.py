"""Core of the simulator: seeds, plans, event log, violations, evidence counters."""
import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """A property does not hold in this run."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class BudgetExceeded(BaseException):
    """Operation made no progress within its budget of draws or jumps.

    BaseException, so that no handler of the code under test swallows it.
    """


class Injected(KeyboardInterrupt):
    """Simulated interrupt at an arbitrary point."""


class InjectedMemory(MemoryError):
    """Simulated failing allocation at an arbitrary point."""


class InjectedFailure(RuntimeError):
    """Failing user callback / atom source."""


INJ = (Injected, InjectedMemory, InjectedFailure)


def derive(*parts):
    """Integer seed derived from any printable parts; stable across processes."""
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Sim:
    """One simulated run."""

    def __init__(self, plan):
        self.plan = plan
        self.seed = plan["seed"]
        self.h = hashlib.sha256()
        self.nlog = 0
        self.faults = Counter()      # fault kinds that really fired
        self.probes = Counter()      # rare conditions that were hit
        self.states = set()          # coarse fingerprints of distinct behaviours
        self.steps = 0               # simulated steps (operations + scheduling events)
        self.trace = []

    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.h.update(s.encode() + b"\n")
        self.nlog += 1
        if len(self.trace) < 400:
            self.trace.append(s[:300])

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, kind, n=1):
        self.probes[kind] += n

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def digest(self):
        return self.h.hexdigest()


def adig(a):
    """Digest of an array, rounded well below every tolerance used by oracles.

    Only logged: BLAS round-off is deterministic here, but keep logs robust.
    """
    import numpy as np
    a = np.asarray(a)
    if a.dtype.kind in "fc":
        a = np.round(a, 6) + 0.0
    return hashlib.sha256(repr(a.shape).encode() + a.tobytes()).hexdigest()[:12]


def jcopy(o):
    return json.loads(json.dumps(o))


def rng_for(*parts):
    return random.Random(derive(*parts))
