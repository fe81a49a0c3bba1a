"""Scenarios: building problems from JSON, executing one simulated run, placing faults by fraction."""
import copy
import gc
import hashlib
import json
import logging

from . import isolate, mp, oracle, world
from .world import Simulation


def jd(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"), default=str)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update((p if isinstance(p, str) else jd(p)).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ problems
_SUBS = {}


def klass(spec):
    hp = world.hp
    base = getattr(hp, spec.get("cls") or "HyperPack")
    sub = spec.get("sub")
    if not sub:
        return base
    key = (base.__name__, jd(sub))
    if key not in _SUBS:
        name = "Sub" + str(len(_SUBS))
        c = type(name, (base,), dict(sub))
        c.__module__ = __name__
        globals()[name] = c
        _SUBS[key] = c
    return _SUBS[key]


def raw_items(spec):
    return {i: {"w": d[0], "l": d[1]} for i, d in spec["items"].items()}


def raw_containers(spec):
    return {i: {"W": d[0], "L": d[1]} for i, d in spec["containers"].items()}


RECYCLE = None      # objects waiting at the addresses of others that exist no more, by kind


def kind_of(cls):
    st = world.hp.structures
    return "items" if issubclass(cls, st.Items) else "containers" if issubclass(cls, st.Containers) else "problem"


def allocate(cls):
    """The memory allocator is free to hand out the address of any object that exists no more."""
    o = RECYCLE.pop(kind_of(cls), None) if RECYCLE else None
    if o is None:
        return object.__new__(cls)
    o.__class__ = cls
    return o


def recycle(objs, i):
    """objs[i] and its structures cease to exist; the next ones will take their places in memory."""
    global RECYCLE
    base = world.hp.structures.AbstractStructureSet
    if "__new__" not in vars(base):
        base.__new__ = staticmethod(lambda cls, *a, **kw: allocate(cls))
    RECYCLE = {}
    ids = {id(x): (type(x), kind_of(type(x))) for x in (objs[i], objs[i]._items, objs[i]._containers)}
    others = [None] * 6000
    objs[i] = None
    gc.collect()
    n = 0
    for cls, _ in sorted(ids.values(), key=lambda v: v[1]):
        for _ in range(2000):
            o = object.__new__(cls)
            hit = ids.get(id(o))
            if hit is not None and hit[0] is not cls:
                # another one's place: freed and taken again at once by an object of that kind
                del o
                o = object.__new__(hit[0])
            if hit is not None and ids.get(id(o)) is hit:
                RECYCLE[hit[1]] = o
                if len(RECYCLE) == len(ids):
                    return len(RECYCLE)
            else:
                others[n] = o
                n += 1
    return len(RECYCLE)


def build(spec, items=None, settings=None, raw=None):
    kw = {"items": items if items is not None else raw_items(spec)}
    st = copy.deepcopy(spec.get("settings", {}) if settings is None else settings)
    if st or not spec.get("settings_none"):
        kw["settings"] = st
    if spec["mode"] == "strip":
        kw["strip_pack_width"] = spec["strip"]
    else:
        kw["containers"] = raw_containers(spec)
    if raw is not None:
        raw.update(kw)
    cls = klass(spec)
    if RECYCLE is None:
        p = cls(**kw)
    else:
        p = allocate(cls)
        p.__init__(**kw)
    if spec["mode"] == "strip":
        if spec.get("cheight") is not None:
            p.container_height = spec["cheight"]
        if spec.get("cmin") is not None and spec["cmin"] <= p.container_height:
            p.container_min_height = spec["cmin"]
    if spec.get("strategy"):
        p.potential_points_strategy = tuple(spec["strategy"])
    return p


def items_of(prob):
    return {i: (d["w"], d["l"]) for i, d in prob.items.items()}


def containers_of(prob):
    return {i: (d["W"], d["L"]) for i, d in prob.containers.items()}


def is_strip(spec):
    return spec["mode"] == "strip"


def rotation_of(spec):
    """The effective rotation setting, from the scenario alone."""
    st = spec.get("settings") or {}
    if st.get("rotation") is not None:
        return st["rotation"]
    sub = spec.get("sub") or {}
    return sub.get("ROTATION_DEFAULT_VALUE", True)


# ------------------------------------------------------------------ calls
def set_pool(pool):
    world.hp.constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL = tuple(tuple(s) for s in pool)
    isolate.accept(world.hp.constants, "DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL")


def set_throttle(n):
    world.hp.HyperPack.MAX_NEIGHBORS_THROTTLE = n
    isolate.accept(world.hp.HyperPack, "MAX_NEIGHBORS_THROTTLE")


def do_call(prob, call):
    op = call["op"]
    if op == "solve":
        seq = call.get("sequence")
        return prob.solve(sequence=list(seq) if seq is not None else None) if seq is not None else prob.solve()
    if op == "local_search":
        return prob.local_search(throttle=call.get("throttle", True))
    if op == "hypersearch":
        kw = {}
        if call.get("pool") is not None:
            set_pool(call["pool"])
            kw["_exhaustive"] = False
        if "orientation" in call:
            kw["orientation"] = call["orientation"]
        if "sorting_by" in call:
            kw["sorting_by"] = tuple(call["sorting_by"]) if call["sorting_by"] else None
        return prob.hypersearch(throttle=call.get("throttle", True), **kw)
    if op == "sort":
        return prob.sort_items(tuple(call["by"])) if call.get("by") else prob.sort_items(None)
    if op == "orient":
        return prob.orient_items(call.get("orientation"))
    if op == "log":
        return prob.log_solution()
    raise AssertionError(op)


class Trace:
    """What one simulated run did."""

    def pubs_of(self, order):
        return [p for p in self.pubs if p.order == order]

    @property
    def ok(self):
        return self.outcome == "completed" and self.exc is None


def execute(spec, call, sim, seed=0, choices=None, mode="coarse", before=None, after=None, prob=None):
    """One simulated run of `call` on a problem built from `spec`.

    before(prob, task) / after(prob, task, exc) run inside the simulation, in the caller's thread."""
    s = Simulation(copy.deepcopy(sim), seed, choices, mode)
    tr = Trace()
    tr.spec, tr.call, tr.sim = spec, call, sim
    hold = {}

    def body(t):
        p = prob if prob is not None else build(spec, raw=hold)
        hold["prob"] = p
        if before:
            before(p, t)
        k = s.kernel
        tr.t0 = t.time
        tr.ticks0 = t.ticks
        tr.wall0 = k.wall()
        exc = None
        k.search_begin = None
        try:
            tr.value = do_call(p, call)
        except mp.HarnessError:
            raise
        except BaseException as e:
            exc = e
        t.fault_ticks = []
        k.faults = []
        t.pending = None
        k._set_stop(t)
        tr.exc = exc
        tr.t1 = t.time
        tr.ticks1 = t.ticks
        tr.wall1 = k.wall()
        tr.alive_at_return = [q for q in k.started if q.alive]
        tr.states_at_return = [(q.order, q.run_state) for q in tr.alive_at_return]
        if after:
            after(p, t, exc)

    tr.value = tr.exc = None
    tr.t0 = tr.t1 = tr.wall0 = tr.wall1 = None
    tr.ticks0 = tr.ticks1 = 0
    tr.alive_at_return = []
    tr.outcome = s.run(body)
    if s.exc is not None:
        raise mp.HarnessError(f"scenario set-up failed: {s.exc!r}") from s.exc
    tr.prob = hold.get("prob")
    tr.raw = {k: v for k, v in hold.items() if k != "prob"}
    tr.pubs = s.recorder.pubs
    tr.logs = s.recorder.logs
    tr.owner_refs = s.recorder.owner_refs
    k = tr.kernel = s.kernel
    tr.procs = k.started
    tr.start_failures = getattr(k, "start_failures", 0)
    tr.fired = k.fired
    tr.probes = k.probes
    tr.choices = s.choices.log
    tr.sim_time = k.now
    tr.sched = digest(jd(k.trace))
    if tr.outcome == "deadlock":
        tr.blocked = [(t.name, t.blocked_on) for p in k.procs for t in p.tasks if t.state == "blocked"]
    return tr


def sim_of(sc):
    s = dict(sc.get("sim") or {})
    s["faults"] = [dict(f) for f in sc.get("faults", [])]
    return s


def resolve_faults(faults, base, sim):
    """Turn fractional fault positions into absolute ones using the fault-free run `base`."""
    out = []
    for f in faults:
        f = dict(f)
        w = f.get("worker")
        if w is None:
            ticks, ops = base.ticks1 - base.ticks0, base.kernel.root.ops
            off = base.ticks0
        else:
            ps = [p for p in base.procs if p.order == w]
            if not ps:
                if f["kind"] != "start-fail":
                    continue
                ticks, ops, off = 1, {}, 0
            else:
                ticks, ops, off = ps[0].ticks, ps[0].ops, 0
        if "frac" in f:
            fr = f.pop("frac")
            f["tick"] = off + max(1, min(ticks, int(round(fr * ticks))) if fr <= 1 else int(fr * ticks))
        if "opfrac" in f:
            op, fr = f.pop("opfrac")
            n = ops.get(op, 0) if op else sum(ops.values())
            if n == 0:
                continue
            f["op"] = op
            f["sync"] = max(1, min(n, int(round(fr * n)) or 1))
        out.append(f)
    return out


def has_fraction(faults):
    return any("frac" in f or "opfrac" in f for f in faults)


def error_logs(tr):
    return [m for lvl, m, o, t in tr.logs if lvl >= logging.ERROR]


def describe_exc(e):
    return None if e is None else f"{type(e).__name__}: {e}"
