"""Installs all seams, imports hyperpack from /repo and records what it does."""
import copy
import importlib
import logging
import os
import pkgutil
import random
import sys
import time
import types

from . import kernel as kmod
from . import isolate, mp, ticks

REPO = os.environ.get("HPSIM_REPO", "/repo")
real_time = time.time
real_perf = time.perf_counter
real_sleep = time.sleep
real_cpu = time.process_time
real_monotonic = time.monotonic

hp = None
RECORD = None           # the Recorder of the running simulation


# ------------------------------------------------------------------ time
def _time():
    k = mp.K
    if k is None:
        return real_time()
    return k.wall()


def _mono():
    k = mp.K
    if k is None:
        return real_monotonic()
    return 1000.0 + k.local_time()


def _cpu():
    """Processor time: the code executed, without waiting, stalls and what others do."""
    k = mp.K
    if k is None or k.current is None:
        return real_cpu()
    return 0.01 + k.current.ticks * k.tick_cost


def _sleep(s):
    k = mp.K
    if k is None or k.current is None:
        return real_sleep(s)
    k.current.time += max(0.0, s)
    k.sync("sleep")


def _install_time():
    time.time = _time
    time.time_ns = lambda: int(_time() * 1e9)
    time.monotonic = _mono
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    time.perf_counter = _mono
    time.perf_counter_ns = lambda: int(_mono() * 1e9)
    time.process_time = time.thread_time = _cpu
    time.process_time_ns = time.thread_time_ns = lambda: int(_cpu() * 1e9)
    time.sleep = _sleep


# ------------------------------------------------------------------ recording
class Recorder:
    def __init__(self):
        self.pubs = []      # (proc order or None, task name, time, ticks, owner id, strategy, solution copy)
        self.logs = []
        self.solves = []
        self.keep = True
        self.owners = {}
        self.owner_refs = []


def _plain(sol):
    if not isinstance(sol, dict):
        return sol
    return {c: {i: list(r) if isinstance(r, (list, tuple)) else r for i, r in d.items()} if hasattr(d, "items") else d
            for c, d in sol.items()}


class Pub:
    __slots__ = ("order", "task", "time", "ticks", "owner", "strategy", "sol", "seq", "n", "wall", "cheight")


def _on_publish(inst, value):
    k = mp.K
    r = RECORD
    if k is None or r is None or k.current is None or not value:
        return
    mp.K = None         # what the probe reads takes no simulated time and meets no faults
    try:
        _record(k, r, inst, value)
    finally:
        mp.K = k


def _record(k, r, inst, value):
    t = k.current
    p = Pub()
    p.order = t.proc.order
    p.task = t.name
    p.time = t.time
    p.wall = k.wall()
    p.ticks = t.ticks
    o = r.owners.get(id(inst))
    if o is None:
        o = r.owners[id(inst)] = len(r.owners)
        r.owner_refs.append(inst)
    p.owner = o
    p.strategy = getattr(inst, "potential_points_strategy", None)
    p.sol = _plain(value)
    p.cheight = getattr(inst, "container_height", None)
    p.n = len(r.pubs)
    p.seq = k.last_sequence.get(t.name)
    r.pubs.append(p)
    if t.pub_hook is not None:
        t.pub_hook(p)


class _SolutionProbe:
    """Data descriptor recording every packing an instance publishes; storage is unchanged."""

    def __init__(self, inner):
        self.inner = inner

    def __get__(self, inst, owner=None):
        if inst is None:
            return self if self.inner is None else self.inner
        if self.inner is not None:
            return self.inner.__get__(inst, owner)
        try:
            return inst.__dict__["solution"]
        except KeyError:
            raise AttributeError("solution") from None

    def __set__(self, inst, value):
        if self.inner is not None:
            self.inner.__set__(inst, value)
        else:
            inst.__dict__["solution"] = value
        _on_publish(inst, value)

    def __delete__(self, inst):
        if self.inner is not None:
            self.inner.__delete__(inst)
        else:
            inst.__dict__.pop("solution", None)


def _install_probe(cls):
    inner = None
    for b in cls.__mro__:
        if "solution" in vars(b):
            v = vars(b)["solution"]
            if isinstance(v, _SolutionProbe):
                return
            if hasattr(v, "__set__"):
                inner = v
            break
    cls.solution = _SolutionProbe(inner)


def _wrap_solve(cls):
    f = cls.solve

    def solve(self, sequence=None, debug=False, **kw):
        k = mp.K
        if k is None or k.current is None:
            return f(self, sequence=sequence, debug=debug, **kw)
        name = k.current.name
        if k.search_begin is None:
            k.search_begin = k.wall()
        if k.construction_cost:
            k.current.time += k.construction_cost
        k.last_sequence[name] = ("S", tuple(sequence) if sequence is not None else None)
        try:
            return f(self, sequence=sequence, debug=debug, **kw)
        finally:
            k.last_sequence.pop(name, None)
    solve.__wrapped__ = f
    cls.solve = solve


class _LogHandler(logging.Handler):
    def emit(self, record):
        k, r = mp.K, RECORD
        if r is None:
            return
        t = k.current if k is not None else None
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = f"<unformattable {e}>"
        r.logs.append((record.levelno, msg, t.proc.order if t is not None else None,
                       t.time if t is not None else None))


def boot():
    """Called once per interpreter, before anything imports hyperpack."""
    global hp
    if hp is not None:
        return hp
    sys.dont_write_bytecode = True
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    assert "hyperpack" not in sys.modules
    import platform
    platform.system()
    mp.install()
    _install_time()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    hp = importlib.import_module("hyperpack")
    where = os.path.realpath(hp.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise kmod.HarnessError(f"hyperpack imported from {where}, not from {REPO}")
    for m in pkgutil.walk_packages(hp.__path__, "hyperpack."):
        if "benchmark" in m.name or "__main__" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    for cls in (hp.PointGenPack, hp.HyperPack):
        _install_probe(cls)
    ticks.collect()
    for cls in {c for c in hp.HyperPack.__mro__ + hp.PointGenPack.__mro__ if "solve" in vars(c)}:
        _wrap_solve(cls)
    ticks.install()
    h = _LogHandler()
    for n in ("hyperpack", "pointgenpack"):
        lg = logging.getLogger(n)
        lg.handlers[:] = [h]
        lg.setLevel(logging.INFO)
        lg.propagate = False
    lock_t = type(__import__("_thread").allocate_lock())
    for tp in (types.GeneratorType, lock_t, types.ModuleType, type(iter([])), type(iter(()))):
        copy._deepcopy_dispatch.setdefault(tp, copy._deepcopy_atomic)
    isolate.prepare()
    return hp


class Simulation:
    """One simulated execution: activates the seams, runs fn, deactivates them."""

    def __init__(self, sim, seed=0, choices=None, mode="coarse"):
        self.choices = kmod.Choices(seed, choices)
        self.kernel = kmod.Kernel(sim, self.choices)
        self.kernel.last_sequence = {}
        self.recorder = Recorder()
        self.mode = mode
        self.rseed = sim.get("rseed", 12345)    # state of the global generator the code would find
        self.exc = None
        self.value = None

    def run(self, fn):
        global RECORD
        if mp.K is not None:
            raise kmod.HarnessError("nested simulation")
        mp.SENTINELS.clear()
        random.seed(self.rseed)
        mp.K = self.kernel
        RECORD = self.recorder
        ticks.set_mode(self.mode)

        def body(t):
            try:
                self.value = fn(t)
            except kmod.HarnessError:
                raise
            except BaseException as e:
                self.exc = e
        try:
            self.outcome = self.kernel.run(body)
        finally:
            mp.K = None
            RECORD = None
            ticks.set_mode(None)
        return self.outcome
