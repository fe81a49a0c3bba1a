"""Common parts of the property checks."""
import copy

from . import gen, mp, oracle, scen, world
from .scen import digest, jd

REAL = ["hyperpack.heuristics", "hyperpack.mixins", "hyperpack.processes (worker body)",
        "hyperpack.abstract", "hyperpack.structures", "hyperpack.exceptions/loggers"]
STUBS = ["multiprocessing (Process, Queue, Pipe, Array, locks): simulated", "time: simulated clock",
         "random: seeded"]


class Res:
    def __init__(self):
        self.viol = []
        self.stats = {}
        self.scheds = set()
        self.keys = set()
        self.sample = None
        self.runs = 0

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violation(self, cls, msg, case, tr=None):
        if any(v["cls"] == cls for v in self.viol):
            return
        v = {"cls": cls, "msg": str(msg)[:1500], "case": case}
        if tr is not None:
            v["trace"] = summary(tr)
        self.viol.append(v)

    def trace(self, tr, nontrivial, key=None):
        self.runs += 1
        for k, v in tr.fired.items():
            self.stat("fault:" + k, v)
        for k, v in tr.probes.items():
            if k != "process-objects":
                self.stat("probe:" + k, v)
        self.stat("sim_seconds", tr.sim_time)
        self.stat("outcome_" + tr.outcome)
        if tr.exc is not None:
            self.stat("raised_" + type(tr.exc).__name__)
        self.scheds.add(tr.sched)
        if nontrivial:
            self.keys.add(key or digest(tr.sched, final_digest(tr), jd(tr.spec), jd(tr.call), jd(tr.sim.get("faults"))))

    def out(self):
        return {"viol": self.viol, "stats": self.stats, "scheds": sorted(self.scheds),
                "keys": sorted(self.keys), "sample": self.sample, "runs": self.runs}


def final_digest(tr):
    p = tr.prob
    return digest(tr.outcome, scen.describe_exc(tr.exc) or "",
                  jd(getattr(p, "solution", None)), jd(getattr(p, "obj_val_per_container", None)))


def summary(tr):
    """A readable schedule and fault trace of one run."""
    ev = []
    last = None
    for x in tr.kernel.trace:
        x = list(x)
        if last is not None and last[0] == x:
            last[1] += 1
        else:
            last = [x, 1]
            ev.append(last)
    return {"outcome": tr.outcome, "exception": scen.describe_exc(tr.exc),
            "returned_at": tr.t1, "choices": tr.choices[:400], "sim": tr.sim,
            "processes": [{"order": p.order, "pid": p.pid, "name": p.name, "state": p.run_state,
                           "exitcode": p.exitcode, "faults": p.faults_fired, "ticks": p.ticks,
                           "end": p.end_time} for p in tr.procs],
            "blocked": getattr(tr, "blocked", None),
            "events": [e[0] + ([e[1]] if e[1] > 1 else []) for e in ev[:300]],
            "solution": getattr(tr.prob, "solution", None) if tr.prob is not None else None}


def sample_of(tr, case, variant=None):
    return {"problem": {k: v for k, v in tr.spec.items()}, "call": tr.call,
            "sim": {k: v for k, v in tr.sim.items() if k != "faults"},
            "faults": tr.sim.get("faults"), "outcome": tr.outcome,
            "exception": scen.describe_exc(tr.exc), "publications": len(tr.pubs),
            "objective": (oracle.obj_of_vals(tr.prob.obj_val_per_container)
                          if tr.ok and getattr(tr.prob, "obj_val_per_container", None) else None)}


class Prop:
    id = None
    level = "exploration"
    rule = ""
    real = REAL
    stubs = STUBS
    assumptions = []
    counts = {"quick": 100, "thorough": 1000}

    def prepare(self, tier):
        world.boot()

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def extra(self, tier, seed):
        return [], {}

    def sanity(self, agg, tier):
        return None

    def shrink(self, case):
        return shrink_case(case)


class SearchProp(Prop):
    """Properties decided on simulated searches: one problem, a fault-free run, then variants."""

    def variants(self, rng, case):
        return []

    def check(self, tr, base, case, res, variant):
        raise NotImplementedError

    def nontrivial(self, tr):
        return len(tr.pubs) > 1

    def base_needed(self, case):
        return True

    def check_base(self):
        return True

    def run(self, case):
        res = Res()
        spec, call = case["problem"], case["call"]
        seed = case["seed"]
        base = run_variant(case, None, None)
        variants = case.get("variants") or []
        if case.get("check_base", True):
            res.trace(base, self.nontrivial(base))
            self.check(base, base, dict(case, variants=[]), res, None)
            res.sample = sample_of(base, case)
        if base.outcome != "completed" and variants:
            res.stat("variants_skipped", len(variants))
            variants = []
        for v in variants:
            one = dict(case, variants=[v], check_base=False)
            tr = run_variant(case, v, base)
            res.trace(tr, self.nontrivial(tr))
            self.check(tr, base, one, res, v)
            if tr.fired or v.get("deadline"):
                res.sample = sample_of(tr, case, v)
        return res.out()


def run_variant(case, v, base):
    spec, call = case["problem"], case["call"]
    sim = dict(case.get("sim") or {})
    faults = []
    if v is not None:
        sim.update(v.get("sim") or {})
        call = v.get("call") or call
        faults = scen.resolve_faults(v.get("faults") or [], base, sim)
        if v.get("deadline"):
            n = v["deadline"].get("limit", 1)
            dur = (base.t1 - base.t0) / base.kernel.tick_cost
            sim["tick_cost"] = n / max(1.0, v["deadline"]["frac"] * dur)
            spec = copy.deepcopy(spec)
            if (spec.get("sub") or {}).get("MAX_TIME_IN_SECONDS_DEFAULT_VALUE"):
                spec["sub"] = dict(spec["sub"], MAX_TIME_IN_SECONDS_DEFAULT_VALUE=n)
            else:
                spec["settings"] = dict(spec.get("settings") or {}, max_time_in_seconds=n)
        if v.get("jumps"):
            # forward jumps inside the search: after the first packing, when the search has read the clock
            k = base.kernel.tick_cost
            a = min([p.time for p in base.pubs if p.time >= base.t0] or [base.t0]) / k
            sim["clock_jumps"] = [[a + f * (base.t1 / k - a), d] for f, d in v["jumps"]]
        if v.get("workers"):
            spec = copy.deepcopy(spec)
            spec["settings"] = dict(spec.get("settings") or {}, workers_num=v["workers"])
    sim["faults"] = faults
    seed = case["seed"] + 7919 * (v.get("n", 0) if v else 0)
    choices = (v or {}).get("choices", case.get("choices"))
    return scen.execute(spec, call, sim, seed=seed, choices=choices, mode=case.get("mode", "coarse"))


BIG_TIME = 10 ** 6


def search_case(rng, workers=None, op=None, mode=None, size=None, perfect=None, settings=None,
                pools=None, ncont=None, crowd=0.0):
    if workers is None:
        workers = rng.choice([1, 2, 2, 3, 3, 4, 6])
    st = {"workers_num": workers, "max_time_in_seconds": BIG_TIME}
    st.update(settings or {})
    crowded = rng.random() < crowd
    if crowded:
        # many items and containers; too many for a complete search, so every run has a limit
        size = "many"
        st["max_time_in_seconds"] = rng.choice([1, 2])
    if size is None and rng.random() < 0.03:
        size = "large"
    size = size or rng.choice(["tiny", "small", "small"])
    case = {"problem": gen.problem(rng, mode, size, perfect, ncont, st), "call": gen.call(rng, op, pools),
            "sim": gen.knobs(rng, workers), "variants": []}
    if crowded:
        case["sim"]["tick_cost"] = st["max_time_in_seconds"] / rng.uniform(1e4, 6e4)
        if case["call"].get("pool"):
            case["call"]["pool"] = case["call"]["pool"][:4]
    return case


def end_spec(tr):
    return tr.spec


# ------------------------------------------------------------------ shrinking
def _without(d, k):
    return {a: b for a, b in d.items() if a != k}


def shrink_problem(p):
    items = p["items"]
    n = len(items)
    keys = list(items)
    if n > 3:
        for half in (keys[:n // 2], keys[n // 2:]):
            yield dict(p, items={k: items[k] for k in keys if k in half})
    if n > 1:
        for k in keys:
            yield dict(p, items=_without(items, k))
    if p["mode"] == "bins" and len(p["containers"]) > 1:
        for k in p["containers"]:
            yield dict(p, containers=_without(p["containers"], k))
    for k in list(p.get("settings") or {}):
        if k not in ("workers_num", "max_time_in_seconds"):
            yield dict(p, settings=_without(p["settings"], k))
    for k in ("strategy", "sub", "cheight", "cmin"):
        if p.get(k):
            yield dict(p, **{k: None})
    if any(len(k) > 3 or not k.isascii() for k in keys):
        yield dict(p, items={f"i{j}": items[k] for j, k in enumerate(keys)})
    if p["mode"] == "bins":
        ck = list(p["containers"])
        if any(len(k) > 3 for k in ck):
            yield dict(p, containers={f"c{j}": p["containers"][k] for j, k in enumerate(ck)})
        for k in ck:
            for d in (0, 1):
                v = p["containers"][k][d]
                for nv in {max(1, v // 2), max(1, v - 1)}:
                    if nv < v:
                        c = list(p["containers"][k])
                        c[d] = nv
                        yield dict(p, containers=dict(p["containers"], **{k: c}))
    elif p.get("strip", 1) > 1:
        yield dict(p, strip=p["strip"] - 1)
    for k in keys:
        for d in (0, 1):
            v = items[k][d]
            for nv in {max(1, v // 2), max(1, v - 1)}:
                if nv < v:
                    c = list(items[k])
                    c[d] = nv
                    yield dict(p, items=dict(items, **{k: c}))


def shrink_call(c):
    if c.get("pool") and len(c["pool"]) > 1:
        for i in range(len(c["pool"])):
            yield dict(c, pool=c["pool"][:i] + c["pool"][i + 1:])
    if c.get("sorting_by"):
        yield dict(c, sorting_by=None)
    if c.get("orientation"):
        yield dict(c, orientation=None)


def shrink_sim(s):
    for k in ("speeds", "start_delay", "pipe_cap", "cpu_count", "clock_base", "clock_jumps", "clock"):
        if k in s:
            yield _without(s, k)
    if s.get("jitter", "low") != "none":
        yield dict(s, jitter="none")
    if s.get("start") == "spawn":
        yield dict(s, start="fork")
    if s.get("tick_cost") not in (None, 1e-4):
        yield dict(s, tick_cost=1e-4)


def shrink_variant(v):
    fl = v.get("faults") or []
    for i in range(len(fl)):
        yield dict(v, faults=fl[:i] + fl[i + 1:])
    for i, f in enumerate(fl):
        if "frac" in f:
            for nf in (0.0, 0.5, 1.0, round(f["frac"], 1), round(f["frac"], 2)):
                if nf != f["frac"]:
                    yield dict(v, faults=fl[:i] + [dict(f, frac=nf)] + fl[i + 1:])
        if "opfrac" in f:
            op, x = f["opfrac"]
            for nf in ([None, x], [op, 0.0], [op, 0.5], [op, 1.0], [op, round(x, 1)]):
                if nf != f["opfrac"]:
                    yield dict(v, faults=fl[:i] + [dict(f, opfrac=nf)] + fl[i + 1:])
    for k in ("deadline", "jumps", "sim"):
        if v.get(k):
            yield _without(v, k)
    if v.get("deadline"):
        d = v["deadline"]
        for nf in (0.1, 0.5, round(d["frac"], 2)):
            if nf != d["frac"]:
                yield dict(v, deadline=dict(d, frac=nf))


def shrink_case(case):
    if case.get("variants"):
        if len(case["variants"]) > 1:
            for v in case["variants"]:
                yield dict(case, variants=[v])
        else:
            v = case["variants"][0]
            for nv in shrink_variant(v):
                yield dict(case, variants=[nv])
    if case.get("choices") is None:
        yield dict(case, choices=[])
    if "ops" in case:
        ops = case["ops"]
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
    if "problem" in case:
        st = case["problem"].get("settings") or {}
        if st.get("workers_num", 1) > 1:
            for n in {1, 2, st["workers_num"] - 1}:
                if n < st["workers_num"]:
                    yield dict(case, problem=dict(case["problem"], settings=dict(st, workers_num=n)))
        for p in shrink_problem(case["problem"]):
            yield dict(case, problem=p)
    if case.get("call"):
        for c in shrink_call(case["call"]):
            yield dict(case, call=c)
    if case.get("sim"):
        for s in shrink_sim(case["sim"]):
            yield dict(case, sim=s)
