"""Seams: every source of nondeterminism czone meets, owned by the simulator.

install() must run before czone (or anything importing it) is imported.
"""
import builtins
import errno
import gc
import io
import os
import random
import sys
import threading
import types

import numpy as np

from .core import BudgetExceeded, Injected, InjectedFailure, InjectedMemory

# --------------------------------------------------------------------------
# Random draws
# --------------------------------------------------------------------------

_real = {}
_HI = np.nextafter(1.0, 0.0)


class Adversary:
    """Legal but hostile source of draws.

    With probability p a call is answered adversarially, at most `limit` times
    per run, so that every rejection loop can still finish.
    """

    def __init__(self, seed, p, limit, kinds):
        self.r = random.Random(seed)
        self.p = p
        self.left = limit
        self.kinds = list(kinds)
        self.prev = {}
        self.hits = {}

    def pick(self):
        if self.left <= 0 or self.r.random() >= self.p:
            return None
        self.left -= 1
        k = self.r.choice(self.kinds)
        self.hits[k] = self.hits.get(k, 0) + 1
        return k

    def unit(self, kind, real):
        """Values in [0,1), same shape as real."""
        x = np.array(real, dtype=float, copy=True)
        shp = x.shape
        if kind == "low":
            x = np.zeros(shp)
        elif kind == "high":
            x = np.full(shp, _HI)
        elif kind == "repeat":
            p = self.prev.get(("u", shp))
            x = x if p is None else p.copy()
        elif kind == "near":
            p = self.prev.get(("u", shp))
            if p is not None:
                x = np.clip(p + (x - 0.5) * 10.0 ** self.r.uniform(-6, -1), 0.0, _HI)
        elif kind == "edge":
            f = x.ravel()
            for i in range(f.size):
                c = self.r.random()
                if c < 0.25:
                    f[i] = 0.0
                elif c < 0.5:
                    f[i] = _HI
                elif c < 0.6:
                    f[i] = 1e-9
            x = f.reshape(shp)
        elif kind == "wrap":
            f = x.ravel()
            for i in range(f.size):
                d = 10.0 ** self.r.uniform(-4, -1)
                f[i] = d if self.r.random() < 0.5 else 1.0 - d
            x = f.reshape(shp)
        elif kind == "cluster":
            c = self.r.random() * 0.9
            x = c + x * 10.0 ** self.r.uniform(-4, -1)
            x = np.clip(x, 0.0, _HI)
        x = np.asarray(x, dtype=float).reshape(shp)
        self.prev[("u", shp)] = x.copy()
        return x if shp else float(x)

    def ints(self, kind, real, lo, hi):
        """Integers in [lo,hi), same shape as real."""
        x = np.array(real, copy=True)
        shp = x.shape
        if kind in ("low", "cluster"):
            x = np.full(shp, lo)
        elif kind == "high":
            x = np.full(shp, hi - 1)
        elif kind in ("edge", "wrap"):
            f = x.ravel()
            for i in range(f.size):
                f[i] = self.r.choice([lo, hi - 1, (lo + hi) // 2, f[i]])
            x = f.reshape(shp)
        else:
            p = self.prev.get("i")
            if p is not None:
                off = 0 if kind == "repeat" else self.r.choice([-1, 0, 1])
                x = np.full(shp, min(max(p + off, lo), hi - 1))
        x = x.astype(np.asarray(real).dtype)
        if x.size:
            self.prev["i"] = int(x.ravel()[-1])
        return x if shp else type(real)(x) if isinstance(real, np.generic) else int(x)

    def index(self, kind, n):
        if kind in ("low", "cluster"):
            return 0
        if kind == "high":
            return n - 1
        if kind in ("edge", "wrap"):
            return self.r.choice([0, n - 1, n // 2])
        p = self.prev.get("c", 0)
        return min(p, n - 1)

    def normal(self, kind, real):
        x = np.array(real, dtype=float, copy=True)
        shp = x.shape
        if kind == "low":
            x = np.zeros(shp)
        elif kind == "high":
            x = np.full(shp, 3.5)
        elif kind == "repeat":
            p = self.prev.get(("n", shp))
            x = x if p is None else p.copy()
        elif kind in ("edge", "wrap"):
            x = np.where(np.abs(x) > 0.5, 4.0 * np.sign(x), 0.0)
        elif kind == "cluster":
            x = 1.0 + 1e-3 * x
        elif kind == "near":
            x = 1e-6 * x
        x = np.asarray(x).reshape(shp)
        self.prev[("n", shp)] = x.copy()
        return x if shp else float(x)


class RngSeam:
    def __init__(self):
        self.reset(0)

    def reset(self, seed, adversary=None, budget=None):
        self.seed = seed
        self.entropy = random.Random(seed)
        self.adv = adversary
        self.draws = 0
        self.unseeded = 0       # generators created without a seed
        self.global_draws = 0   # draws from numpy's global state
        self.budget = budget
        self.adv_global = adversary is not None
        self.streams = {}       # thread -> (entropy, numpy RandomState) of its own
        np.random.seed(seed % (2 ** 32))
        random.seed(seed)

    def tick(self):
        self.draws += 1
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                self.budget = None
                raise BudgetExceeded("random draws")

    def fresh(self):
        self.unseeded += 1
        st = self.streams.get(threading.get_ident()) if self.streams else None
        return (self.entropy if st is None else st[0]).getrandbits(63)

    def own_stream(self, seed):
        """Give the calling thread ambient randomness of its own; returns a function taking it away."""
        i = threading.get_ident()
        self.streams[i] = (random.Random(seed), _real["RandomState"](seed % 2 ** 32))
        return lambda: self.streams.pop(i, None)


RNG = RngSeam.__new__(RngSeam)


def _size_choice(a, n, out_idx):
    return a[out_idx] if not np.isscalar(a) else out_idx


class SimGenerator(np.random.Generator):
    """numpy Generator whose common draws pass the seam; same stream when honest."""

    def random(self, *a, **k):
        RNG.tick()
        x = super().random(*a, **k)
        if RNG.adv is not None:
            kind = RNG.adv.pick()
            if kind and np.asarray(x).dtype == np.float64:
                return RNG.adv.unit(kind, x)
        return x

    def uniform(self, low=0.0, high=1.0, size=None):
        RNG.tick()
        x = super().uniform(low, high, size)
        if RNG.adv is not None:
            kind = RNG.adv.pick()
            if kind and np.ndim(low) == 0 and np.ndim(high) == 0 and high > low:
                u = RNG.adv.unit(kind, (np.asarray(x) - low) / (high - low))
                v = low + (high - low) * np.minimum(u, _HI)
                v = np.where(v >= high, np.nextafter(high, low), v)
                return v if np.ndim(x) else float(v)
        return x

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        RNG.tick()
        x = super().integers(low, high, size, dtype, endpoint)
        if RNG.adv is not None:
            kind = RNG.adv.pick()
            if kind and np.ndim(low) == 0 and (high is None or np.ndim(high) == 0):
                lo, hi = (0, low) if high is None else (low, high)
                return RNG.adv.ints(kind, x, int(lo), int(hi) + (1 if endpoint else 0))
        return x

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        RNG.tick()
        x = super().choice(a, size, replace, p, axis, shuffle)
        if RNG.adv is not None and size is None and p is None and axis == 0:
            kind = RNG.adv.pick()
            if kind:
                n = int(a) if np.ndim(a) == 0 else len(a)
                i = RNG.adv.index(kind, n)
                RNG.adv.prev["c"] = i
                return np.int64(i) if np.ndim(a) == 0 else np.asarray(a)[i]
        return x

    def standard_normal(self, *a, **k):
        RNG.tick()
        x = super().standard_normal(*a, **k)
        if RNG.adv is not None:
            kind = RNG.adv.pick()
            if kind:
                return RNG.adv.normal(kind, x)
        return x

    def normal(self, loc=0.0, scale=1.0, size=None):
        RNG.tick()
        x = super().normal(loc, scale, size)
        if RNG.adv is not None:
            kind = RNG.adv.pick()
            if kind and np.ndim(scale) == 0 and np.ndim(loc) == 0 and scale > 0:
                return loc + scale * RNG.adv.normal(kind, (np.asarray(x) - loc) / scale)
        return x

    def shuffle(self, *a, **k):
        RNG.tick()
        return super().shuffle(*a, **k)

    def permutation(self, *a, **k):
        RNG.tick()
        return super().permutation(*a, **k)


def _default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    if seed is None:
        seed = RNG.fresh()
    if isinstance(seed, np.random.BitGenerator):
        return SimGenerator(seed)
    return SimGenerator(_real["PCG64"](seed))


def _wrap_global(name):
    real = _real[name]

    def f(*a, **k):
        RNG.tick()
        RNG.global_draws += 1
        st = RNG.streams.get(threading.get_ident()) if RNG.streams else None
        x = real(*a, **k) if st is None else getattr(st[1], name)(*a, **k)
        if RNG.adv is not None and RNG.adv_global:
            if name in ("rand", "random", "random_sample", "ranf", "sample"):
                kind = RNG.adv.pick()
                if kind:
                    return RNG.adv.unit(kind, x)
            elif name in ("randn", "standard_normal"):
                kind = RNG.adv.pick()
                if kind:
                    return RNG.adv.normal(kind, x)
            elif name == "uniform" and not k and (not a or (len(a) == 3 and a[0] == 0 and a[1] == 1)):
                kind = RNG.adv.pick()
                if kind:
                    return RNG.adv.unit(kind, x)
        return x
    f.__name__ = name
    return f


_GLOBAL = ["rand", "random", "random_sample", "ranf", "sample", "randn",
           "standard_normal", "uniform", "randint", "choice", "normal", "shuffle",
           "permutation", "exponential", "poisson", "binomial", "beta", "gamma"]


def _wrap_bitgen(name):
    cls = _real[name]

    def make(seed=None):
        return cls(RNG.fresh() if seed is None else seed)
    make.__name__ = name
    return make


def install_rng():
    if _real:
        return
    nr = np.random
    for n in _GLOBAL + ["default_rng", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "RandomState",
                        "SeedSequence"]:
        if hasattr(nr, n):
            _real[n] = getattr(nr, n)
    RNG.__init__()
    nr.default_rng = _default_rng
    for n in _GLOBAL:
        if n in _real:
            setattr(nr, n, _wrap_global(n))
    for n in ("PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"):
        if n in _real:
            setattr(nr, n, _wrap_bitgen(n))

    class RandomState(_real["RandomState"]):
        def __init__(self, seed=None):
            super().__init__((RNG.fresh() % 2 ** 32) if seed is None else seed)
    nr.RandomState = RandomState

    class SeedSequence(_real["SeedSequence"]):
        def __init__(self, entropy=None, **k):
            super().__init__(RNG.fresh() if entropy is None else entropy, **k)
    nr.SeedSequence = SeedSequence


# --------------------------------------------------------------------------
# Interrupts, progress budget, thread schedule: events on czone code objects
# --------------------------------------------------------------------------

_M = sys.monitoring
_EV = _M.events
TOOL = 4


def _czone_codes():
    root = os.path.realpath(os.path.dirname(sys.modules["czone"].__file__)) + os.sep
    seen = {}

    def add(c):
        if id(c) in seen:
            return
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            c = o.__code__
            if os.path.realpath(c.co_filename).startswith(root):
                add(c)
    return sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


class Monitor:
    """Counts, and acts on, the instants at which czone code can be interrupted.

    Instants are those at which CPython can deliver an asynchronous exception or
    switch threads: function entry, calls, returns from C, backward jumps.
    """

    def __init__(self):
        self.ready = False
        self.codes = []
        self.level = None
        self.clear()

    def clear(self):
        self.count = 0
        self.target = None
        self.exc = None
        self.fired = None
        self.jump_budget = None
        self.sched = None
        self.counting = False

    def setup(self):
        if self.ready:
            return
        _M.use_tool_id(TOOL, "czsim")
        self.codes = _czone_codes()
        for ev, cb in ((_EV.PY_START, self._on_start), (_EV.CALL, self._on_call),
                       (_EV.C_RETURN, self._on_cret), (_EV.JUMP, self._on_jump)):
            _M.register_callback(TOOL, ev, cb)
        self.ready = True

    def set_level(self, level):
        """None: off; 'jump': budget only; 'full': all instants."""
        if level == self.level:
            return
        ev = {None: 0, "jump": _EV.JUMP, "full": _EV.JUMP | _EV.CALL | _EV.PY_START}[level]
        for c in self.codes:
            _M.set_local_events(TOOL, c, ev)
        self.level = level

    def _hit(self, code, off):
        s = self.sched
        if s is not None:
            s.event(code, off)
        if self.counting:
            self.count += 1
            if self.count == self.target:
                self.fired = (code.co_qualname, self.count)
                self.target = None
                e = self.exc
                raise e("injected")

    def _on_start(self, code, off):
        if self.counting or self.sched is not None:
            self._hit(code, off)

    def _on_call(self, code, off, fn, arg):
        if self.counting or self.sched is not None:
            self._hit(code, off)

    def _on_cret(self, code, off, fn, arg):
        if self.counting or self.sched is not None:
            self._hit(code, off)

    def _on_jump(self, code, off, dest):
        if self.jump_budget is not None and dest < off:
            self.jump_budget -= 1
            if self.jump_budget < 0:
                self.jump_budget = None
                raise BudgetExceeded("backward jumps in " + code.co_qualname)
        if self.counting or self.sched is not None:
            self._hit(code, off)

    # -- use
    def measure(self, fn):
        """Run fn to the end and return the number of interruptible instants in it."""
        self.set_level("full")
        self.count, self.target, self.counting = 0, None, True
        try:
            fn()
        finally:
            self.counting = False
        return self.count

    def inject(self, fn, k, exc):
        """Run fn, raising exc at its k-th instant. Returns (fired, result)."""
        self.set_level("full")
        self.count, self.target, self.exc, self.fired, self.counting = 0, k, exc, None, True
        try:
            r = fn()
        except (Injected, InjectedMemory, InjectedFailure):
            return self.fired, None
        finally:
            self.counting = False
            self.target = None
        return self.fired, r


MON = Monitor()

EXC = {"interrupt": Injected, "nomem": InjectedMemory, "fail": InjectedFailure}


# --------------------------------------------------------------------------
# Threads
# --------------------------------------------------------------------------


class ThreadKilled(BaseException):
    pass


class Scheduler:
    """Runs caller threads one at a time; the seed decides who runs, and until when."""

    def __init__(self, rng, quantum, kill=None):
        self.rng = rng
        self.quantum = quantum
        self.order = []
        self.switches = 0
        self.events = 0
        self.kill = dict(kill or {})   # thread index -> event number at which it dies
        self.killed = []

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.done = threading.Semaphore(0)
        self.results = [None] * n
        self.errors = [None] * n
        self.ident = {}
        self.tev = [0] * n
        self.left = 0
        self.cur = None

        def body(i, fn):
            self.sems[i].acquire()
            try:
                self.results[i] = fn()
            except ThreadKilled:
                self.killed.append(i)
            except BaseException as e:   # reported by caller
                self.errors[i] = e
            finally:
                self.ident.pop(threading.get_ident(), None)
                self.alive.discard(i)
                if self.alive:
                    self._give(self._pick())
                else:
                    self.done.release()

        ts = []
        for i, fn in enumerate(fns):
            t = threading.Thread(target=body, args=(i, fn), daemon=True)
            t.start()
            self.ident[t.ident] = i
            ts.append(t)
        MON.set_level("full")
        MON.sched = self
        try:
            self._give(self._pick())
            if not self.done.acquire(timeout=300):
                raise RuntimeError("scheduler stuck")
        finally:
            MON.sched = None
        for t in ts:
            t.join(10)
        return self.results, self.errors

    def _pick(self):
        c = sorted(self.alive)
        i = c[self.rng.randrange(len(c))]
        self.left = self.rng.randint(1, self.quantum)
        return i

    def _give(self, i):
        if self.cur != i:
            self.switches += 1
        self.cur = i
        if len(self.order) < 5000:
            self.order.append(i)
        self.sems[i].release()

    def event(self, code, off):
        i = self.ident.get(threading.get_ident())
        if i is None:
            return
        self.events += 1
        self.tev[i] += 1
        if self.kill.get(i) == self.tev[i]:
            raise ThreadKilled()
        self.left -= 1
        if self.left > 0:
            return
        j = self._pick()
        if j == i:
            return
        self._give(j)
        self.sems[i].acquire()


# --------------------------------------------------------------------------
# Files
# --------------------------------------------------------------------------


class FaultyRaw(io.RawIOBase):
    """Raw file on a simulated disk: real bytes below, faults decided by the plan."""

    def __init__(self, disk, path, fd):
        self.disk = disk
        self.name = path
        self.mode = "rb+"
        self.fd = fd

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self.fd, self.tell() if size is None else size)
        return size

    def fileno(self):
        return self.fd

    def write(self, b):
        return self.disk.write(self.fd, bytes(b))

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fd, self.fd = self.fd, -1
                self.disk.fds.discard(fd)
                REAL["close"](fd)
                self.disk.on_close()


class Disk:
    """Scratch directory whose files go through FaultyRaw."""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.fds = set()          # descriptors of files below root opened for writing
        self.plan = {}
        self.fired = []
        self.opens = self.writes = self.nbytes = 0

    def arm(self, plan):
        self.plan = dict(plan)
        self.fired = []
        self.opens = self.writes = self.nbytes = 0

    def _err(self, kind, eno):
        self.fired.append(kind)
        raise OSError(eno, os.strerror(eno))

    def write(self, fd, b):
        self.writes += 1
        p = self.plan
        if p.get("kind") == "eio" and self.writes >= p["at"]:
            self._err("eio", errno.EIO)
        if p.get("kind") == "interrupt" and self.writes >= p["at"]:
            self.fired.append("interrupt")
            self.plan = {}
            raise Injected("interrupted write")
        n = len(b)
        if p.get("short"):
            m = 1 + (self.writes * 7919 + p["short"]) % max(1, n)
            if m < n:
                self.fired.append("short")
                n = m
        if p.get("kind") == "enospc":
            room = p["at"] - self.nbytes
            if room <= 0:
                self._err("enospc", errno.ENOSPC)
            n = min(n, room)
        w = REAL["write"](fd, b[:n])
        self.nbytes += w
        return w

    def on_close(self):
        if self.plan.get("kind") == "close":
            self.plan = {}
            self._err("close", errno.EIO)

    def below(self, file):
        """Whether a path is the root or below it."""
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return (path + os.sep).startswith(self.root)

    def _opening(self):
        self.opens += 1
        if self.plan.get("kind") == "open" and self.opens >= self.plan.get("at", 1):
            self._err("open", errno.ENOSPC)

    def open(self, real, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        ours = file in self.fds if isinstance(file, int) else self.below(file)
        if not ours or not (set(mode) & set("wax+")):
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if "+" in mode and "r" in mode:
            if isinstance(file, int):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            self._opening()
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fl = os.O_RDWR | os.O_CREAT
        if "w" in mode:
            fl |= os.O_TRUNC
        if "x" in mode:
            fl |= os.O_EXCL
        if "a" in mode:
            fl |= os.O_APPEND
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, fl)
            if fd not in self.fds:
                self._opening()
        else:
            self._opening()
            fd = REAL["open"](file, fl, 0o644)
        self.fds.add(fd)
        raw = FaultyRaw(self, file, fd)
        if "b" in mode and buffering == 0:
            return raw
        size = self.plan.get("buf", 8192)
        buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                line_buffering=(buffering == 1))

    # the calls below a file object

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        ours = flags & (os.O_WRONLY | os.O_RDWR) and dir_fd is None and self.below(path)
        if ours:
            self._opening()
        fd = REAL["open"](path, flags, mode, dir_fd=dir_fd)
        if ours:
            self.fds.add(fd)
        return fd

    def os_close(self, fd):
        REAL["close"](fd)
        if fd in self.fds:
            self.fds.discard(fd)
            self.on_close()

    def os_write(self, fd, b):
        return self.write(fd, bytes(b)) if fd in self.fds else REAL["write"](fd, b)

    def os_sync(self, name, fd):
        if fd in self.fds and self.plan.get("kind") == "sync":
            self._err("sync", errno.EIO)
        return REAL[name](fd)

    def os_rename(self, name, src, dst, k):
        if self.plan.get("kind") == "rename" and not k and self.below(dst):
            self._err("rename", errno.EACCES)
        return REAL[name](src, dst, **k)

    def os_copy(self, name, out, a, k):
        """Copies within the kernel: have caller write instead."""
        if out in self.fds:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        return REAL[name](*a, **k)


DISK = None
REAL = {n: getattr(os, n) for n in ("open", "close", "write", "fsync", "fdatasync", "rename", "replace", "link", "sendfile",
                                    "copy_file_range")}


def install_files():
    real_open = builtins.open

    def sim_open(file, mode="r", *a, **k):
        if DISK is None:
            return real_open(file, mode, *a, **k)
        return DISK.open(real_open, file, mode, *a, **k)
    builtins.open = sim_open
    io.open = sim_open

    def hook(name, f):
        def g(*a, **k):
            return REAL[name](*a, **k) if DISK is None else f(*a, **k)
        g.__name__ = name
        setattr(os, name, g)

    hook("open", lambda *a, **k: DISK.os_open(*a, **k))
    hook("close", lambda *a, **k: DISK.os_close(*a, **k))
    hook("write", lambda *a, **k: DISK.os_write(*a, **k))
    for n in ("fsync", "fdatasync"):
        hook(n, lambda fd, n=n: DISK.os_sync(n, fd if isinstance(fd, int) else fd.fileno()))
    for n in ("rename", "replace", "link"):
        hook(n, lambda src, dst, n=n, **k: DISK.os_rename(n, src, dst, k))
    hook("sendfile", lambda out, *a, **k: DISK.os_copy("sendfile", out, (out,) + a, k))
    hook("copy_file_range", lambda src, dst, *a, **k: DISK.os_copy("copy_file_range", dst, (src, dst) + a, k))


def install():
    install_rng()
    install_files()
