"""C01-C11: properties of simulated searches."""
import copy
import math
import re

from .. import gen, mp, oracle, scen, world
from ..base import (BIG_TIME, Prop, SearchProp, run_variant, search_case, shrink_case)
from ..scen import digest, jd


# ------------------------------------------------------------------ shared helpers
def spec_dims(spec):
    items = {i: tuple(d) for i, d in spec["items"].items()}
    if spec["mode"] == "strip":
        conts = {"strip-pack-container": (spec["strip"], None)}
        return items, conts, spec["strip"]
    return items, {c: tuple(d) for c, d in spec["containers"].items()}, None


def initial_height(spec):
    """The strip height configured when the scenario's call begins."""
    if spec["mode"] != "strip":
        return None
    return spec.get("cheight") or 10 * spec["strip"]


def obj(sol, spec):
    items, conts, strip = spec_dims(spec)
    return oracle.objective(sol, conts, strip)


def lone_maximum(tr):
    """The worker that alone reached the highest possible value, if others had begun two strategies or more."""
    top = oracle.max_objective(len(tr.spec["containers"])) - 1e-9
    hit, begun = set(), {}
    workers = {p.order for p in tr.procs}
    for p in tr.pubs:
        if p.order not in workers:
            continue
        begun.setdefault(p.order, set()).add(tuple(p.strategy or ()))
        if obj(p.sol, tr.spec) >= top:
            hit.add(p.order)
    if len(hit) != 1 or not any(len(b) > 1 for o, b in begun.items() if o not in hit):
        return None
    return hit.pop()


def density(placed, W):
    """Of a strip packing: the share of the strip that the items cover, up to the top of the packing."""
    h = oracle.top(placed)
    return sum(w * l for _, _, w, l in placed.values()) / (W * h) if h else 0.0


def prepared(spec, call):
    """A fresh problem with the items sorted and oriented as the call says (outside any simulation)."""
    p = scen.build(spec)
    if call["op"] == "hypersearch":
        sb = call.get("sorting_by", ["area", True])
        p.sort_items(sorting_by=tuple(sb) if sb else None)
        p.orient_items(orientation=call.get("orientation", "wide"))
    return p


def multi(tr):
    return len(tr.procs) > 0 or tr.start_failures


def deadline_variant(rng, n, lo=0.0, hi=1.1):
    return {"n": n, "deadline": {"frac": round(rng.uniform(lo, hi), 4), "limit": rng.choice([1, 1, 2, 5])}}


def sched_variant(rng, n, workers):
    k = gen.knobs(rng, workers)
    return {"n": n, "sim": {x: k[x] for x in ("jitter", "speeds", "start_delay", "start") if x in k}}


EXCS = ["MemoryError", "RuntimeError", "KeyboardInterrupt", "RecursionError", "OSError", "ValueError", "SystemExit"]


def worker_fault(rng, w, kinds=("kill", "raise", "start-fail")):
    k = rng.choice(kinds)
    if k == "start-fail":
        return {"kind": "start-fail", "worker": w, "errno": rng.choice(["EAGAIN", "ENOMEM"])}
    f = {"kind": k, "worker": w}
    if k == "raise":
        f["exc"] = rng.choice(EXCS)
    r = rng.random()
    if r < 0.55 or k == "raise":
        f["frac"] = round(rng.choice([rng.random(), rng.random(), rng.random() ** 3, 1 - rng.random() ** 3]), 4)
    else:
        f["opfrac"] = [rng.choice([None, "load", "store", "locked", "acquire", "write", "written", "exit"]),
                       round(rng.random(), 4)]
    return f


def fault_variant(rng, n, workers, all_fail=None):
    if all_fail is None:
        all_fail = rng.random() < 0.15
    ws = list(range(workers))
    if not all_fail:
        rng.shuffle(ws)
        ws = ws[:rng.randint(1, max(1, workers - 1))]
    v = {"n": n, "faults": [worker_fault(rng, w) for w in ws]}
    if rng.random() < 0.3:
        v["faults"].append({"kind": "stall", "worker": rng.randrange(workers), "frac": round(rng.random(), 4),
                            "delay": int(10 ** rng.uniform(2, 6))})
    return v


def late_leader_variant(rng, n, workers):
    """One worker is far ahead of the others and fails late."""
    w = rng.randrange(workers)
    speeds = [round(10 ** rng.uniform(0.3, 1.3), 3) for _ in range(workers)]
    speeds[w] = round(10 ** rng.uniform(-1.3, 0), 3)
    f = {"kind": rng.choice(["kill", "kill", "raise"]), "worker": w}
    if f["kind"] == "raise":
        f["exc"] = rng.choice(EXCS)
        f["frac"] = round(1 - 0.5 * rng.random() ** 3, 4)
    elif rng.random() < 0.5:
        f["frac"] = round(1 - 0.5 * rng.random() ** 3, 4)
    else:
        f["opfrac"] = rng.choice([["write", 0.0], ["exit", 1.0], ["load", 1.0], ["store", 1.0]])
    return {"n": n, "faults": [f], "sim": {"speeds": speeds, "jitter": rng.choice(["none", "low"])}}


def survivors(tr):
    """Workers that surely delivered, workers that surely failed."""
    sure, failed = [], []
    for p in tr.procs:
        hard = [f for f in p.faults_fired if f != "stall"]
        if not hard and p.exitcode == 0 and not getattr(p, "terminated_by_parent", False):
            sure.append(p)
        elif hard and getattr(p, "fault_before_result", False):
            failed.append(p)
    return sure, failed


def best_of(tr, spec, orders):
    best = None
    for p in tr.pubs:
        if p.order in orders:
            o = obj(p.sol, spec)
            if best is None or o > best:
                best = o
    return best


class Search(SearchProp):
    pass


# ------------------------------------------------------------------ C01
class C01(Search):
    id = "C01"
    rule = ("one case = one random problem (bins or strip) and call; fault-free run plus variants with other "
            "schedules, deadlines placed at fractions of the fault-free duration, worker faults; every packing "
            "published by any process is checked; non-trivial = more than one packing published")
    counts = {"quick": 7500, "thorough": 60000}

    def gen(self, rng, index, tier):
        r = rng.random()
        op = "hypersearch" if r < 0.5 else "local_search" if r < 0.8 else "solve"
        workers = rng.choice([1, 1, 2, 3, 4]) if op == "hypersearch" else 1
        case = search_case(rng, workers, op, size=rng.choice(["tiny", "small", "small", "mid"] if rng.random() < 0.96 else ["large"]), crowd=0.08)
        p = case["problem"]
        if rng.random() < 0.35:
            p["strategy"] = gen.strategy(rng, full=rng.random() < 0.5)
        if op == "solve":
            if rng.random() < 0.6:
                seq = list(p["items"])
                rng.shuffle(seq)
                case["call"]["sequence"] = seq[:rng.randint(1, len(seq))] if rng.random() < 0.5 else seq
            if rng.random() < 0.3:
                p["cls"] = "PointGenPack"
        elif rng.random() < 0.6:
            case["variants"].append(deadline_variant(rng, 1))
        if op == "hypersearch" and workers > 1 and rng.random() < 0.6:
            case["variants"].append(fault_variant(rng, 2, workers))
        return case

    def nontrivial(self, tr):
        return len(tr.pubs) >= 1

    def check(self, tr, base, case, res, variant):
        spec = tr.spec
        items, conts, strip = spec_dims(spec)
        rot = scen.rotation_of(spec)
        h0 = initial_height(spec)
        seen = set()
        for p in tr.pubs:
            h = jd(p.sol)
            cap = h0 if p.seq is None or p.cheight is None else min(h0, p.cheight)
            if (h, cap) in seen:
                continue
            seen.add((h, cap))
            e = oracle.feasible(p.sol, items, conts, rot, strip, cap)
            if e:
                where = "caller" if p.order is None else f"worker {p.order}"
                res.violation("infeasible-" + e[0], f"{e[1]} (published in {where} at t={p.time:.6f})", case, tr)
                return
        res.stat("packings_checked", len(seen))
        if tr.outcome == "completed" and tr.prob.solution:
            e = oracle.feasible(tr.prob.solution, items, conts, rot, strip, h0)
            if e:
                res.violation("infeasible-" + e[0], e[1] + " (final packing)", case, tr)


# ------------------------------------------------------------------ C02
def check_report(prob, spec, sol, text):
    """Compare the text of log_solution with the packing."""
    items, conts, strip = spec_dims(spec)
    if not isinstance(text, str):
        return f"log_solution returned {text!r}"
    n = len(prob.items)
    m = re.search(r"Percent total items stored : ([0-9.]+)%", text)
    if not m:
        return "no percentage of stored items in the report"
    want = 100 * oracle.placed_count(sol) / n
    if abs(float(m.group(1)) - want) > 1e-3:
        return f"report says {m.group(1)}% stored, packing stores {want:.4f}%"
    placed = {i for d in sol.values() for i in d}
    rest = [i for i in prob.items if i not in placed]
    if f"Remaining items : {rest}" not in text:
        return f"report does not list exactly the remaining items {rest}: {text[-200:]!r}"
    pos = 0
    for c in conts:
        top = oracle.top(sol[c])
        if strip is not None:
            W = strip
            L = top if prob.container_min_height is None else max(top, prob.container_min_height)
        else:
            W, L = conts[c]
        head = f"Container: {c} {W}x{L}"
        i = text.find(head, pos)
        if i < 0:
            return f"report lacks {head!r}: {text!r}"
        pos = i + len(head)
        m = re.compile(r"\[util%\] : ([0-9.]+)%").search(text, pos)
        u = 100 * oracle.area(sol[c]) / (W * L) if W * L else 0.0
        if not m or abs(float(m.group(1)) - u) > 1e-3:
            return f"report gives utilisation {m.group(1) if m else None} for {c!r}, it is {u:.4f}"
        if strip is not None:
            m = re.compile(r"\[max height\] : (\d+)").search(text, pos)
            if not m or int(m.group(1)) != top:
                return f"report gives max height {m.group(1) if m else None}, it is {top}"
    return None


def figures_error(prob, spec):
    items, conts, strip = spec_dims(spec)
    sol = prob.solution
    vals = getattr(prob, "obj_val_per_container", None)
    if not sol:
        return None
    want = oracle.utils(sol, conts, strip)
    if set(vals or {}) != set(want):
        return f"utilisation keys {sorted(vals or {})} for containers {sorted(want)}"
    for c in want:
        if abs(vals[c] - want[c]) > 1e-9:
            return f"utilisation of {c!r} published as {vals[c]!r}, the packing's is {want[c]!r}"
        if vals[c] > 1 + 1e-9:
            return f"utilisation of {c!r} is {vals[c]!r}"
    return None


def check_figures(prob, spec, res, case, tr, what=""):
    e = figures_error(prob, spec)
    if e:
        res.violation("figures", what + e, case, tr)
    elif prob.solution:
        res.stat("figures_checked")


# run_variant with hooks -------------------------------------------------------
def run_variant_hooked(case, v, base, before=None, after=None):
    """As base.run_variant, with code run by the caller before and after the call."""
    from .. import base as b
    orig = scen.execute

    def ex(spec, call, sim, **kw):
        return orig(spec, call, sim, before=(lambda p, t: before(p, t, spec)) if before else None,
                    after=(lambda p, t, e: after(p, t, e, spec)) if after else None, **kw)
    scen.execute = ex
    try:
        return b.run_variant(case, v, base)
    finally:
        scen.execute = orig


class Hooked(Search):
    """SearchProp whose runs have a `before` and an `after` part executed by the caller."""

    def hooks(self, case, box):
        return None, None

    def usable_variants(self, case, base, res):
        return case.get("variants") or []

    def run(self, case):
        from ..base import Res, sample_of
        res = Res()

        def go(v, base):
            box = {}
            b, a = self.hooks(case, box)
            tr = run_variant_hooked(case, v, base, b, a)
            tr.box = box
            return tr
        base = go(None, None)
        if case.get("check_base", True):
            res.trace(base, self.nontrivial(base))
            self.check(base, base, dict(case, variants=[]), res, None)
            res.sample = sample_of(base, case)
        variants = self.usable_variants(case, base, res)
        if base.outcome != "completed":
            res.stat("variants_skipped", len(variants))
            variants = []
        for v in variants:
            one = dict(case, variants=[v], check_base=False)
            tr = go(v, base)
            res.trace(tr, self.nontrivial(tr))
            self.check(tr, base, one, res, v)
            if tr.fired or v.get("deadline"):
                res.sample = sample_of(tr, case, v)
        return res.out()


# ------------------------------------------------------------------ C02
class C02(Hooked):
    id = "C02"
    rule = ("one case = one problem with a sequence of solving operations under deadlines, schedules and worker "
            "failures; after each, the published figures and the report are recomputed from the rectangles; "
            "non-trivial = at least one packing published")
    counts = {"quick": 13000, "thorough": 60000}

    def gen(self, rng, index, tier):
        op = rng.choice(["hypersearch", "hypersearch", "local_search", "local_search", "solve"])
        workers = rng.choice([1, 1, 2, 3, 4]) if op == "hypersearch" else 1
        case = search_case(rng, workers, op, crowd=0.04)
        p = case["problem"]
        if rng.random() < 0.2:
            p["strategy"] = gen.strategy(rng, full=True)
        case["history"] = [rng.choice(["solve", "local_search", "log", "partial", "solve", "hyper1", "cheight", "cmin"])
                           for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        case["hval"] = rng.randint(1, 40)
        if op == "solve" and rng.random() < 0.6:
            seq = list(p["items"])
            rng.shuffle(seq)
            case["call"]["sequence"] = seq[:rng.randint(1, len(seq))] if rng.random() < 0.7 else seq
        if op == "solve" and rng.random() < 0.2:
            p["cls"] = "PointGenPack"
            case["history"] = [h for h in case["history"] if h not in ("local_search", "hyper1")]
        if op != "solve":
            if rng.random() < 0.6:
                case["variants"].append(deadline_variant(rng, 1))
            if workers > 1 and rng.random() < 0.7:
                case["variants"].append(fault_variant(rng, 2, workers))
        return case

    def nontrivial(self, tr):
        return len(tr.pubs) >= 1

    def hooks(self, case, box):
        box["hist"] = []

        def rep(p, spec, what):
            if not p.solution:
                return None
            try:
                return check_report(p, spec, p.solution, p.log_solution())
            except mp.HarnessError:
                raise
            except Exception as e:
                return f"{what}: log_solution raised {scen.describe_exc(e)} for packing {p.solution}"

        def before(p, t, spec):
            for h in case.get("history", []):
                if h in ("solve", "log"):
                    p.solve()
                elif h == "local_search":
                    p.local_search()
                elif h == "partial":
                    ids = list(p.items)
                    p.solve(sequence=ids[:max(1, len(ids) // 2)])
                elif h == "hyper1":
                    n, pool = p._workers_num, case["call"].get("pool") or [gen.POINTS]
                    p.settings = dict(p.settings, workers_num=1)
                    scen.do_call(p, {"op": "hypersearch", "pool": pool[:3]})
                    p.settings = dict(p.settings, workers_num=n)
                elif h == "cheight" and spec["mode"] == "strip":
                    if p.container_min_height is None or case["hval"] >= p.container_min_height:
                        p.container_height = case["hval"]
                elif h == "cmin" and spec["mode"] == "strip":
                    p.container_min_height = max(1, min(case["hval"], p.container_height))
                if h in ("cheight", "cmin"):
                    continue        # a packing computed under other heights stays what it was
                box["hist"].append(rep(p, spec, "after " + h) or figures_error(p, spec))

        def after(p, t, exc, spec):
            box["report"] = rep(p, spec, "after the call")
        return before, after

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed":
            return
        for e in tr.box["hist"] + [tr.box.get("report")]:
            if e:
                res.violation("report", e, case, tr)
        if tr.exc is not None and not tr.fired:
            res.violation("call-failed", scen.describe_exc(tr.exc), case, tr)
            return
        check_figures(tr.prob, tr.spec, res, case, tr)
        if tr.prob.solution:
            res.stat("reports_checked")


# ------------------------------------------------------------------ C03
class C03(Search):
    id = "C03"
    rule = ("one case = one bin-packing problem and hypersearch (1-6 workers); fault-free run and variants with "
            "other schedules, stalls, forward clock jumps and deadlines at fractions of the duration; published "
            "objective == maximum over every packing evaluated in any process; non-trivial = >1 packing evaluated "
            "with different objective values")
    counts = {"quick": 5000, "thorough": 60000}

    def gen(self, rng, index, tier):
        workers = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        many = rng.random() < 0.04
        if many:
            workers = rng.choice([11, 12, 13])
        case = search_case(rng, workers, "hypersearch", mode="bins", size="large" if not many and rng.random() < 0.06 else None, crowd=0.04)
        if many:
            case["call"]["pool"] = gen.pool(rng, rng.choice([11, 12, 13, 25]))
        n = 1
        for _ in range(rng.choice([1, 2, 2])):
            v = deadline_variant(rng, n, 0.0, 1.05) if rng.random() < 0.6 else sched_variant(rng, n, workers)
            if rng.random() < 0.3:
                v["faults"] = [{"kind": "stall", "worker": rng.randrange(workers), "frac": round(rng.random(), 4),
                                "delay": int(10 ** rng.uniform(2, 6))}]
            if v.get("deadline") and rng.random() < 0.2:
                v["jumps"] = [[round(rng.random(), 4), rng.choice([0.5, 1, 10, 3600])]]
            case["variants"].append(v)
            n += 1
        w = min(workers, len(case["call"]["pool"]))
        if w > 1 and rng.random() < 0.4:
            case["variants"].append(late_leader_variant(rng, n, w))
        return case

    def nontrivial(self, tr):
        return len({round(obj(p.sol, tr.spec), 9) for p in tr.pubs}) > 1

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed" or tr.exc is not None:
            res.stat("no_result")
            return
        spec = tr.spec
        if not tr.prob.solution:
            res.violation("nothing-published", "hypersearch returned without a solution", case, tr)
            return
        final = obj(tr.prob.solution, spec)
        orders = allo = {p.order for p in tr.procs} if multi(tr) else {None}
        if [f for f in tr.fired if f != "stall"]:
            # only what the surviving processes found must not be lost
            orders = {p.order for p in survivors(tr)[0]}
            res.stat("runs_with_failed_workers")
        best = best_of(tr, spec, orders)
        top = best_of(tr, spec, allo)
        if top is None:
            res.stat("no_candidates")
        elif best is None:
            res.stat("no_sure_survivor")
        elif final < best - 1e-9:
            who = [p for p in tr.pubs if p.order in orders and obj(p.sol, spec) > final + 1e-9]
            res.violation("lost-best", f"published objective {final!r}, but {'worker %s' % who[0].order if who[0].order is not None else 'the caller'} "
                          f"evaluated a packing of {best!r}", case, tr)
        elif final > top + 1e-9:
            res.violation("unknown-packing", f"published objective {final!r} exceeds every evaluated packing ({top!r})", case, tr)
        if not spec.get("strategy"):
            ref = prepared(spec, tr.call)
            ref.solve()
            r = obj(ref.solution, spec)
            if final < r - 1e-9:
                res.violation("below-default", f"published objective {final!r}, plain solving gives {r!r}", case, tr)
        vals = getattr(tr.prob, "obj_val_per_container", None) or {}
        if vals and abs(oracle.obj_of_vals(vals) - final) > 1e-9:
            res.stat("figures_mismatch")


# ------------------------------------------------------------------ C04
def reference_best(spec, call):
    """max over default solving and one independent local search per strategy."""
    p = prepared(spec, call)
    p.solve()
    best = obj(p.solution, spec)
    per = []
    done = {}
    items = {i: dict(d) for i, d in p.items.items()}
    for s in call["pool"]:
        key = tuple(s)
        if key not in done:
            q = scen.build(spec, items={i: dict(d) for i, d in items.items()})
            q.potential_points_strategy = key
            q.local_search(throttle=call.get("throttle", True))
            done[key] = obj(q.solution, spec)
        per.append(done[key])
    return max([best] + per), per, best


class C04(Hooked):
    id = "C04"
    rule = ("one case = one bin-packing problem; the same hypersearch run under several worker counts, schedules, "
            "speeds, start methods and generous deadlines, and after an earlier search on the same object; final "
            "objective == independently computed maximum, all strategies seen, best_strategy reproduces; "
            "non-trivial = >1 strategy in the pool")
    counts = {"quick": 3000, "thorough": 40000}

    def gen(self, rng, index, tier):
        ex = rng.random() < 0.02
        workers = rng.choice([1, 2, 3, 4, 5, 6, 8])
        case = search_case(rng, workers, "hypersearch", mode="bins" if rng.random() < (0.7 if ex else 0.9) else "strip",
                           size="tiny" if ex else "large" if rng.random() < 0.04 else rng.choice(["tiny", "small"]))
        if ex:
            case["call"].pop("pool")
            it = case["problem"]["items"]
            for k in list(it)[rng.choice([0, 1, 2, 3, 3]):]:
                del it[k]
            it["huge"] = [500, 500]     # keeps the instance from having a perfect packing
        else:
            case["call"]["pool"] = gen.pool(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 9] if rng.random() < 0.95 else [11, 12, 13]))
        case["repeat"] = (not ex) and rng.random() < 0.25
        if not ex and rng.random() < 0.15:
            # the throttle bites on small problems, too
            case["cap"] = rng.choice([1, 2, 3, 5, 8])
            case["call"]["throttle"] = rng.random() < 0.5
        if not ex and rng.random() < 0.2:
            case["problem"]["strategy"] = gen.strategy(rng)
        n = 1
        for _ in range(1 if ex else rng.choice([1, 2, 3])):
            v = sched_variant(rng, n, 6)
            v["workers"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 12] if len(case["call"].get("pool") or ()) < 11 else [1, 11, 12, 13, 13])
            if rng.random() < 0.25:
                v["deadline"] = {"frac": round(rng.uniform(20, 60), 3), "limit": rng.choice([1, 2, 7])}
                v["sim"] = {k: x for k, x in v["sim"].items() if k not in ("speeds", "start_delay")}
                v["sim"]["jitter"] = "none"
                v["workers"] = None
            case["variants"].append(v)
            n += 1
        return case

    def run(self, case):
        if case.get("cap"):
            scen.set_throttle(case["cap"])
        return super().run(case)

    def nontrivial(self, tr):
        return len({p.strategy for p in tr.pubs}) > 1

    def hooks(self, case, box):
        def before(p, t, spec):
            if case.get("repeat"):
                scen.do_call(p, case["call"])
                limit = spec["settings"].get("max_time_in_seconds", 60)
                t.time += limit * 3     # the earlier search must not count against the next one
                box["skip"] = len(world.RECORD.pubs)
        return before, None

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed":
            res.stat("no_result")
            return
        spec, call = tr.spec, tr.call
        if tr.exc is not None:
            res.violation("call-failed", "undisturbed hypersearch raised " + scen.describe_exc(tr.exc), case, tr)
            return
        custom = bool(spec.get("strategy"))
        strip = spec["mode"] == "strip"
        final = obj(tr.prob.solution, spec)
        perfect = not strip and final >= oracle.max_objective(len(spec["containers"])) - 1e-9
        pubs = tr.pubs[tr.box.get("skip", 0):]
        if call.get("pool") is None:
            import itertools
            head = [p for p in gen.POINTS if p not in ("A__", "B__", "F", "E")]
            expect = {x + ("A__", "B__", "F", "E") for x in itertools.permutations(head)}
            res.stat("exhaustive_runs")
        else:
            expect = {tuple(s) for s in call["pool"]}
        tried = {tuple(p.strategy) for p in pubs if p.strategy is not None}
        if strip and call.get("pool") is None:
            # (the order of the last four points is another one in the documentation of strips)
            expect, tried = {s[:6] for s in expect}, {s[:6] for s in tried}
        if not perfect and not expect <= tried:
            miss = sorted(expect - tried)
            res.violation("strategies-skipped", f"{len(miss)} of {len(expect)} strategies were never tried, e.g. {miss[0]}", case, tr)
            return
        if strip:
            res.stat("strip_runs")
            return
        if call.get("pool") is not None and (not custom or spec["settings"]["workers_num"] != 1):
            want, per, plain = reference_best(dict(spec, strategy=None), call)
            if abs(final - want) > 1e-9:
                res.violation("objective-differs", f"published objective {final!r}; best over the strategies (each by its own "
                              f"local search: {per}) and plain solving ({plain!r}) is {want!r}", case, tr)
                return
        bs = getattr(tr.prob, "best_strategy", "missing")
        if bs == "missing":
            res.violation("no-best-strategy", "best_strategy was not published", case, tr)
            return
        strat = tuple(bs) if bs is not None else tuple(tr.prob.DEFAULT_POTENTIAL_POINTS_STRATEGY)
        q = scen.build(spec, items={i: dict(d) for i, d in tr.prob.items.items()})
        try:
            q.potential_points_strategy = strat
        except Exception as e:
            res.violation("best-strategy", f"best_strategy {strat} is no valid strategy: {scen.describe_exc(e)}", case, tr)
            return
        q.local_search(throttle=call.get("throttle", True))
        got = obj(q.solution, spec)
        if got < final - 1e-9:
            res.violation("best-strategy", f"best_strategy {strat} reaches {got!r} only, published objective is {final!r}", case, tr)


# ------------------------------------------------------------------ C05
class C05(Hooked):
    id = "C05"
    rule = ("one case = one problem and multi-process hypersearch; variants inject exceptions, kills and start "
            "failures into subsets of the workers at fractions of each worker's executed code or of its operations "
            "on shared objects; non-trivial = at least one fault fired")
    counts = {"quick": 9000, "thorough": 110000}

    def gen(self, rng, index, tier):
        workers = rng.choice([2, 2, 3, 3, 4, 6])
        if rng.random() < 0.5:
            return self.gen_lost_maximum(rng)
        many = rng.random() < 0.04
        if many:
            workers = rng.choice([11, 12, 13])
        case = search_case(rng, workers, "hypersearch", crowd=0.04)
        if many:
            case["call"]["pool"] = gen.pool(rng, rng.choice([11, 12, 13]))
        case["check_base"] = rng.random() < 0.1
        torn = rng.random() < 0.06
        if torn:    # results larger than the pipe: a worker can die with a part of its result handed over
            long_ids(rng, case["problem"])
            case["sim"]["pipe_cap"] = 4096
        for n in range(1, rng.choice([3, 4, 5])):
            w = min(workers, len(case["call"]["pool"]))
            if torn and rng.random() < 0.7:
                case["variants"].append({"n": n, "faults": [{"kind": "kill", "worker": i, "opfrac": [
                    rng.choice(["written", "written", "write"]), round(rng.random(), 4)]}
                    for i in rng.sample(range(w), rng.randint(1, w))]})
                continue
            v = late_leader_variant(rng, n, w) if w > 1 and rng.random() < 0.4 else fault_variant(rng, n, w)
            if rng.random() < 0.1:
                v["deadline"] = {"frac": round(rng.random(), 3), "limit": 1}
            case["variants"].append(v)
        return case

    def gen_lost_maximum(self, rng):
        """The only worker with a perfect packing dies late, while others have been through several strategies."""
        workers = rng.choice([2, 2, 2, 3])
        case = search_case(rng, workers, "hypersearch", mode="bins", size="mid" if rng.random() < 0.03 else "small", perfect=True,
                           ncont=rng.choice([1, 1, 1, 2]))
        case["call"]["pool"] = gen.pool(rng, workers * rng.choice([3, 4, 5]))
        case["check_base"] = False
        case["sim"].update(speeds=[round(10 ** rng.uniform(-0.3, 0.6), 3) for _ in range(workers)], jitter="none")
        for n in range(1, 8):
            f = {"kind": "kill", "worker": "lone"}
            if n < 7:
                f["opfrac"] = [["write", 0.0], ["exit", 1.0], ["store", 1.0]][rng.randrange(3)]
            else:
                f["frac"] = round(1 - 0.2 * rng.random() ** 2, 4)
            v = {"n": n, "faults": [f]}
            if n > 2:   # the same course of the lone worker against faster or slower others
                v["others"] = [round(10 ** rng.uniform(-0.6, 0.9), 3) for _ in range(workers)]
            case["variants"].append(v)
        return case

    def usable_variants(self, case, base, res):
        """Cases of gen_lost_maximum go on only where the run without faults has the situation they are about."""
        variants = case.get("variants") or []
        if not any(f.get("worker") == "lone" for v in variants for f in v.get("faults") or []):
            return variants
        lone = lone_maximum(base)
        res.stat("lone_maximum" if lone is not None else "no_lone_maximum")
        if lone is None:
            return []
        out = []
        for v in variants:
            v = dict(v, faults=[dict(f, worker=lone) if f.get("worker") == "lone" else f for f in v["faults"]])
            sp = v.pop("others", None)
            if sp:
                sp = list(sp)
                i = lone % len(sp)
                sp[i] = case["sim"]["speeds"][i]
                v["sim"] = dict(v.get("sim") or {}, speeds=sp)
            out.append(v)
        return out

    def nontrivial(self, tr):
        return bool(tr.fired)

    def hooks(self, case, box):
        def after(p, t, exc, spec):
            box["sol"] = copy.deepcopy(dict(p.solution)) if p.solution else {}
            try:
                p.solve()
                box["usable"] = oracle.feasible(p.solution, *spec_dims(spec)[:2], scen.rotation_of(spec),
                                                spec_dims(spec)[2], initial_height(spec))
            except mp.HarnessError:
                raise
            except Exception as e:
                box["usable"] = ("raised", scen.describe_exc(e))
        return None, after

    def check(self, tr, base, case, res, variant):
        spec = tr.spec
        if tr.outcome != "completed":
            res.violation("no-return", f"hypersearch did not return ({tr.outcome}); blocked: {getattr(tr, 'blocked', None)}", case, tr)
            return
        sure, failed = survivors(tr)
        nstart = tr.kernel.start_calls
        nfail = len(failed) + tr.start_failures
        res.stat("runs_with_survivor" if sure else "runs_without_sure_survivor")
        if not multi(tr):
            return
        name = type(tr.exc).__name__ if tr.exc is not None else None
        if tr.exc is not None and name != "MultiProcessError":
            res.violation("wrong-exception", f"hypersearch raised {scen.describe_exc(tr.exc)} after {dict(tr.fired)}", case, tr)
            return
        if sure and tr.exc is not None:
            res.violation("survivor-ignored", f"workers {[p.order for p in sure]} succeeded, yet hypersearch raised {scen.describe_exc(tr.exc)}", case, tr)
            return
        if nfail == nstart and tr.exc is None:
            res.violation("all-failed-returned", f"all {nstart} workers failed, hypersearch returned {tr.box.get('sol')}", case, tr)
            return
        if nfail and not scen.error_logs(tr):
            res.violation("not-logged", f"{nfail} workers failed, no error was logged", case, tr)
        if tr.exc is None:
            sol = tr.box["sol"]
            if not sol:
                res.violation("nothing-published", "hypersearch returned without a solution", case, tr)
                return
            if spec["mode"] == "bins":
                final = obj(sol, spec)
                lo = best_of(tr, spec, {p.order for p in sure})
                hi = best_of(tr, spec, {p.order for p in tr.procs})
                if lo is not None and final < lo - 1e-9:
                    res.violation("worse-than-survivor", f"published {final!r}, a worker that succeeded had {lo!r}", case, tr)
                elif hi is not None and final > hi + 1e-9:
                    res.violation("unknown-packing", f"published {final!r}, no worker had more than {hi!r}", case, tr)
            else:
                e = oracle.feasible(sol, *spec_dims(spec)[:2], scen.rotation_of(spec), spec["strip"], None)
                if e:
                    res.violation("infeasible-" + e[0], e[1], case, tr)
        if tr.box.get("usable"):
            res.violation("unusable", f"solving afterwards: {tr.box['usable'][1]}", case, tr)

    def sanity(self, agg, tier):
        for k in ("fault:kill", "fault:start-fail"):
            if not agg.get(k):
                return f"{k} never fired"


# ------------------------------------------------------------------ C06
def long_ids(rng, problem):
    n = len(problem["items"])
    total = rng.choice([4000, 9000, 70000, 140000])
    ln = max(1, total // max(1, n))
    problem["items"] = {f"{k:>{1}}{i}-" + "x" * ln: v for i, (k, v) in enumerate(problem["items"].items())}


class C06(Hooked):
    id = "C06"
    rule = ("one case = one multi-process hypersearch with varied result sizes and pipe capacities; variants kill "
            "workers (also while holding locks and in the middle of a result transfer), fail starts, stall workers, "
            "interrupt the parent at any tick or blocking call; termination, and no live worker after return; "
            "non-trivial = a fault fired, a pipe filled up or a lock was contended")
    counts = {"quick": 3200, "thorough": 60000}

    def gen(self, rng, index, tier):
        workers = rng.choice([2, 2, 3, 3, 4, 6])
        case = search_case(rng, workers, "hypersearch", size="tiny" if rng.random() < 0.6 else None, crowd=0.04)
        if rng.random() < 0.35:
            long_ids(rng, case["problem"])
        for n in range(1, rng.choice([3, 4, 5])):
            r = rng.random()
            w = min(workers, len(case["call"]["pool"]))
            if r < 0.5:
                v = fault_variant(rng, n, w)
            elif r < 0.9:
                v = {"n": n, "faults": [self.parent_fault(rng)]}
                if rng.random() < 0.3:
                    v["faults"] += fault_variant(rng, n, w)["faults"]
            else:
                v = sched_variant(rng, n, workers)
            case["variants"].append(v)
        case["mode"] = rng.choice(["coarse", "async"])
        return case

    def parent_fault(self, rng):
        f = {"kind": "raise", "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}
        if rng.random() < 0.5:
            f["frac"] = round(rng.choice([rng.random(), 1 - rng.random() ** 2]), 4)
        else:
            f["opfrac"] = [rng.choice(["join", "read", "wait", "load", "acquire", "close"]), round(rng.random(), 4)]
            f["exc"] = "KeyboardInterrupt"
        return f

    def nontrivial(self, tr):
        return bool(tr.fired) or tr.probes.get("pipe-full", 0) > 0 or tr.probes.get("lock-contention", 0) > 0

    def check(self, tr, base, case, res, variant):
        if tr.outcome == "deadlock":
            st = [(p.order, p.run_state, p.alive) for p in tr.procs]
            res.violation("deadlock", f"nothing can run: blocked {tr.blocked}; workers (order, state, alive): {st}; faults {dict(tr.fired)}", case, tr)
            return
        if tr.outcome != "completed":
            res.violation("no-progress", f"run ended by {tr.outcome}; faults {dict(tr.fired)}", case, tr)
            return
        left = [p for p in tr.alive_at_return if p.run_state != "exiting"]
        left = [p for p, (o, s) in zip(tr.alive_at_return, tr.states_at_return) if s != "exiting"]
        if left:
            res.violation("worker-left", f"workers {[p.order for p in left]} still running when hypersearch "
                          f"{'raised ' + scen.describe_exc(tr.exc) if tr.exc is not None else 'returned'}", case, tr)
            return
        ends = [p.end_time for p in tr.procs if p.end_time is not None]
        if ends and tr.procs:
            late = tr.t1 - max(ends)
            if late > 30 + 1e5 * tr.kernel.tick_cost + tr.kernel.delay_sum:
                res.violation("late-return", f"returned {late} s after the last worker had ended", case, tr)
        res.stat("raised" if tr.exc is not None else "returned")

    def sanity(self, agg, tier):
        for k in ("probe:pipe-full", "fault:kill", "fault:raise:KeyboardInterrupt"):
            if not agg.get(k):
                return f"{k} never happened"


# ------------------------------------------------------------------ C07
class C07(Search):
    id = "C07"
    rule = ("one case = one search (local_search, hypersearch with 1-6 workers); variants place the deadline at "
            "fractions of the fault-free duration under varied speeds, stalls and forward clock jumps; per process, "
            "packings evaluated and code executed after the deadline are bounded; non-trivial = the deadline fell "
            "inside the search")
    counts = {"quick": 2800, "thorough": 60000}
    MAXPUB = 8

    def gen(self, rng, index, tier):
        op = rng.choice(["local_search", "hypersearch", "hypersearch"])
        workers = rng.choice([1, 1, 2, 3, 4]) if op == "hypersearch" else 1
        case = search_case(rng, workers, op, size=rng.choice(["small", "small", "mid"]))
        if op == "hypersearch":
            case["call"]["pool"] = gen.pool(rng, rng.choice([2, 4, 6, 9]))
        case["check_base"] = False
        for n in range(1, 4):
            v = deadline_variant(rng, n, 0.0, 0.95)
            if rng.random() < 0.3:
                v["faults"] = [{"kind": "stall", "worker": rng.randrange(workers) if workers > 1 else None,
                                "frac": round(rng.random(), 4), "delay": int(10 ** rng.uniform(2, 6))}]
            if rng.random() < 0.2:
                v["jumps"] = [[round(rng.random(), 4), rng.choice([0.5, 1, 10, 3600])]]
            if rng.random() < 0.4:
                v["sim"] = sched_variant(rng, n, workers)["sim"]
            case["variants"].append(v)
        return case

    def nontrivial(self, tr):
        return tr.wall1 is not None and tr.wall1 > tr.wall0 + tr.spec["settings"]["max_time_in_seconds"]

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed":
            if tr.outcome in ("tick-budget", "event-budget"):
                res.violation("no-end", f"the search did not end ({tr.outcome})", case, tr)
            return
        if tr.exc is not None:
            res.violation("raised", "timed-out search raised " + scen.describe_exc(tr.exc), case, tr)
            return
        limit = tr.spec["settings"]["max_time_in_seconds"]
        # the search begins with its first construction or worker, after sorting and orienting
        deadline = (tr.kernel.search_begin or tr.wall0) + limit
        procs = {None: tr.ticks1}
        for p in tr.procs:
            procs[p.order] = p.ticks
        for order, total in procs.items():
            pubs = [p for p in tr.pubs if p.order == order and p.time >= tr.t0]
            if not pubs:
                continue
            late = [p for p in pubs if p.wall > deadline + 1e-9]
            who = "the caller" if order is None else f"worker {order}"
            if len(late) > self.MAXPUB:
                res.violation("late-work", f"{who} evaluated {len(late)} more packings after the limit of {limit} s "
                              f"({len(pubs) - len(late)} before); returned {tr.wall1 - deadline:.4f} s late", case, tr)
                return
            gap = max([b.ticks - a.ticks for a, b in zip(pubs, pubs[1:])] + [pubs[0].ticks - (tr.ticks0 if order is None else 0)])
            before = [p for p in pubs if p.wall <= deadline + 1e-9]
            t_at = before[-1].ticks if before else 0
            if total - t_at > (self.MAXPUB + 3) * gap + 4000:
                res.violation("late-code", f"{who} executed {total - t_at} ticks after its last packing before the limit "
                              f"(longest evaluation: {gap})", case, tr)
                return
        if not tr.prob.solution:
            res.violation("nothing-published", "the timed-out search published nothing", case, tr)
        elif tr.spec["mode"] == "bins":
            orders = {p.order for p in survivors(tr)[0]} if multi(tr) else {None}
            best = best_of(tr, tr.spec, orders)
            final = obj(tr.prob.solution, tr.spec)
            if best is not None and final < best - 1e-9:
                res.violation("best-lost", f"the timed-out search published {final!r}, {best!r} had been found", case, tr)
        # the caller itself: once the workers are through, it returns
        if tr.procs:
            last = max([p.end_time or 0 for p in tr.procs] + [tr.t0 + limit])
            if tr.t1 - last > 30 + tr.kernel.tick_cost * 1e5 + tr.kernel.delay_sum:
                res.violation("late-return", f"returned {tr.t1 - last} s after limit and workers' end", case, tr)
        if self.nontrivial(tr):
            res.stat("deadline_hit")


# ------------------------------------------------------------------ C08
class C08(Search):
    id = "C08"
    rule = ("one case = one instance cut from its containers (a perfect packing exists) searched by local_search or "
            "hypersearch under random schedules; once a process has a perfect packing the work of every process is "
            "counted; non-trivial = a perfect packing was found")
    counts = {"quick": 13000, "thorough": 60000}

    def gen(self, rng, index, tier):
        op = rng.choice(["local_search", "hypersearch", "hypersearch", "hypersearch"])
        many = index % 9 == 5
        if many:
            op = "hypersearch"
        workers = rng.choice([2, 2, 3] if many else [1, 2, 3, 4]) if op == "hypersearch" else 1
        size = "tiny" if many else rng.choice(["tiny", "tiny", "small"])
        case = search_case(rng, workers, op, mode="bins", size=size, perfect=True, ncont=1 if many else rng.choice([1, 1, 2, 2, 3]))
        if many:
            # many containers before it, each of them filled by an item of its own
            p = case["problem"]
            (W, L), = p["containers"].values()
            more = [[max(W, L) + k // 2 + 1, max(W, L) + k // 3 + 1] for k in range(rng.choice([3, 4, 4, 5, 5, 6, 7]))]
            p["containers"] = {**{f"big {k}": d for k, d in enumerate(more)}, **p["containers"]}
            p["items"] = {**{f"big {k}": list(d) for k, d in enumerate(more)}, **p["items"]}
        if op == "hypersearch":
            case["call"]["pool"] = gen.pool(rng, rng.choice([6, 8, 9] if many else [3, 4, 6, 8]))
        if many or rng.random() < 0.5:
            case["variants"].append(sched_variant(rng, 1, workers))
        return case

    def nontrivial(self, tr):
        M = oracle.max_objective(len(tr.spec["containers"])) if tr.spec["mode"] == "bins" else 9
        return any(obj(p.sol, tr.spec) >= M - 1e-9 for p in tr.pubs)

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed" or tr.exc is not None:
            return
        spec = tr.spec
        M = oracle.max_objective(len(spec["containers"])) - 1e-9
        first = {}
        later = {}
        for p in tr.pubs:
            if p.order in first:
                if p.seq is not None:
                    later[p.order] = later.get(p.order, 0) + 1
            elif obj(p.sol, spec) >= M:
                first[p.order] = p
        if not first:
            res.stat("perfect_not_found")
            return
        res.stat("perfect_found")
        final = obj(tr.prob.solution, spec) if tr.prob.solution else -1
        if final < M:
            res.violation("maximum-lost", f"a perfect packing was found, published objective is {final!r}", case, tr)
        for o, n in later.items():
            who = "the caller" if o is None else f"worker {o}"
            res.violation("finder-continues", f"{who} evaluated {n} more packings after it had filled every container", case, tr)
            break
        ends = [q.end_time for q in tr.procs if q.order in first and q.end_time is not None]
        if ends:
            t = min(ends)
            for q in tr.procs:
                # the packings of the worker, cut into the searches of one strategy each
                segs = []
                for p in tr.pubs:
                    if p.order == q.order:
                        if not segs or p.strategy != segs[-1][2]:
                            segs.append([p.time, p.time, p.strategy])
                        segs[-1][1] = p.time
                begun = sum(1 for s in segs if s[0] > t)
                before = len(segs) - begun
                if not before:
                    allowed = 2         # its initial packing, and the local search following it
                elif segs[before - 1][0] < t < segs[before - 1][1]:
                    allowed = 0         # it was in the middle of a local search
                else:
                    allowed = 1         # maybe about to begin one
                if begun > allowed:
                    res.violation("others-continue", f"worker {q.order} began {begun} more strategies after another worker had "
                                  f"finished with a perfect packing at {t!r}: {segs}", case, tr)
                    break
                res.stat("caught_inside_a_search", allowed == 0)
            else:
                res.stat("others_checked")

    def sanity(self, agg, tier):
        if not agg.get("perfect_found"):
            return "no perfect packing was ever found"


# ------------------------------------------------------------------ C09
class C09(Search):
    id = "C09"
    rule = ("one case = one local_search (bins or strip, any strategy, throttle on/off) run to the end and with "
            "deadlines at random neighbours; compared with every packing evaluated and with all exchanges of two items "
            "of the final sequence; non-trivial = >2 packings evaluated")
    counts = {"quick": 15000, "thorough": 50000}

    def gen(self, rng, index, tier):
        big = rng.random() < (0.004 if tier == "quick" else 0.01)
        case = search_case(rng, 1, "local_search", mode="bins" if big or rng.random() < 0.75 else "strip",
                           size=rng.choice(["tiny", "small", "small"] if rng.random() < 0.97 else ["large"]))
        if rng.random() < 0.4:
            case["problem"]["strategy"] = gen.strategy(rng, full=rng.random() < 0.6)
        if big or index == 3:
            W, L = rng.randint(2, 3), rng.randint(2, 3)
            n = rng.choice([72, 73, 74])
            p = case["problem"] = dict(case["problem"], mode="bins", containers={"c": [W, L]},
                                       items={f"i{k}": [W, L] if k else [W, max(1, L - 1)] for k in range(n)})
            if rng.random() < 0.5:
                p["items"] = {f"i{k}": [W + 1, L + 5] for k in range(n)}
            if index != 3 and rng.random() < 0.4:
                # a strip in which one item fits only
                p.update(mode="strip", strip=W, cheight=L, cmin=rng.choice([None, 1]), containers=None)
            case["call"]["throttle"] = rng.random() < 0.7 if index != 3 else True
            case["big"] = True
            case["sim"]["max_ticks"] = 30_000_000
        else:
            for n in range(1, rng.choice([1, 2, 3])):
                case["variants"].append(deadline_variant(rng, n, 0.0, 1.0))
        return case

    def nontrivial(self, tr):
        return len(tr.pubs) > 2

    def check(self, tr, base, case, res, variant):
        spec = tr.spec
        if tr.outcome != "completed":
            if tr.outcome in ("tick-budget", "event-budget"):
                res.violation("no-end", f"local_search did not end ({tr.outcome})", case, tr)
            return
        if tr.exc is not None:
            res.violation("raised", scen.describe_exc(tr.exc), case, tr)
            return
        if not tr.prob.solution:
            res.violation("nothing-published", "local_search published nothing", case, tr)
            return
        items, conts, strip = spec_dims(spec)
        objs = [obj(p.sol, spec) for p in tr.pubs]
        final = obj(tr.prob.solution, spec)
        plain = scen.build(spec)
        plain.solve()
        o0 = obj(plain.solution, spec)
        nplain = oracle.placed_count(plain.solution)
        if strip is None:
            if final < o0 - 1e-9:
                res.violation("worse-than-solve", f"published {final!r}, plain solving gives {o0!r}", case, tr)
                return
            if objs and final < max(objs) - 1e-9:
                res.violation("best-lost", f"published {final!r}, {max(objs)!r} had been evaluated", case, tr)
                return
        else:
            if final < o0 - 1e-9:
                res.violation("worse-than-solve", f"published {final!r}, plain solving gives {o0!r}", case, tr)
                return
            if nplain == len(items) and spec.get("cmin") is None and oracle.placed_count(tr.prob.solution) < nplain:
                res.violation("worse-than-solve", f"published {oracle.placed_count(tr.prob.solution)} items, plain solving "
                              f"places all {nplain}", case, tr)
                return
        # neighbour cap: evaluations between two improvements
        count, best, worst = 0, None, 0
        for p, o in zip(tr.pubs, objs):
            if p.seq is None:
                continue
            taken = strip is None or spec.get("cmin") is not None or oracle.placed_count(p.sol) == len(items)
            if best is None or (o > best + 1e-12 and taken):
                best, count = o, 0
            elif not taken:
                count += 1
                worst = max(worst, count)
            elif not case.get("big") and abs(o - best) <= 1e-12:
                count = 0       # the code's own float sum may differ by rounding: a new node to it
            else:
                count += 1
                worst = max(worst, count)
        n = len(items)
        cap = 2500 if tr.call.get("throttle", True) else n * (n - 1) // 2
        if worst > max(cap, 0) and worst > 1:
            res.violation("too-many-neighbours", f"{worst} neighbours evaluated without an improvement, at most {cap} may be", case, tr)
            return
        if case.get("big"):
            res.stat("throttle_runs")
            res.stat("throttle_neighbours", worst)
            full = n * (n - 1) // 2
            if variant is None and worst < min(cap, full) and not any(o >= 1 - 1e-9 for o in objs):
                res.violation("neighbourhood-cut", f"search ended after {worst} of {min(cap, full)} neighbours without deadline", case, tr)
            return
        limit = spec["settings"]["max_time_in_seconds"]
        if tr.wall1 >= tr.wall0 + limit:
            res.stat("deadline_hit")
            return
        if n * (n - 1) // 2 > cap:
            return
        if strip is None and final >= oracle.max_objective(len(conts)) - 1e-9:
            return
        seqs = [p for p, o in zip(tr.pubs, objs) if p.seq is not None and o >= final - 1e-12 and
                (strip is None or oracle.placed_count(p.sol) == oracle.placed_count(tr.prob.solution))]
        if not seqs or jd(seqs[0].sol) != jd(tr.prob.solution):
            cand = [p for p in seqs if jd(p.sol) == jd(tr.prob.solution)]
            if not cand:
                res.stat("sequence_unknown")
                return
            if strip is None:
                seqs = cand
            else:
                seqs = cand
        seq = list(seqs[0].seq[1]) if seqs[0].seq[1] is not None else list(spec["items"])
        q = scen.build(spec)
        if strip is not None:
            q.container_height = tr.prob.container_height
        # several evaluated sequences may give the final packing: at least one of them must be 2-opt
        def improving(seq):
            for i in range(len(seq)):
                for j in range(i + 1, len(seq)):
                    s2 = list(seq)
                    s2[i], s2[j] = s2[j], s2[i]
                    q.solve(sequence=s2)
                    o = obj(q.solution, spec)
                    if o > final + 1e-9:
                        if strip is not None and spec.get("cmin") is None and \
                                oracle.placed_count(q.solution) < len(items):
                            continue
                        return (i, j, o)
            return None
        tried = set()
        bad = None
        for p in seqs[:6]:
            s = tuple(p.seq[1]) if p.seq[1] is not None else tuple(spec["items"])
            if s in tried:
                continue
            tried.add(s)
            bad = improving(s)
            if bad is None:
                break
        if bad is not None:
            res.violation("not-2-opt", f"exchanging positions {bad[:2]} of the final sequence {seq} gives {bad[2]!r} > {final!r}", case, tr)
        res.stat("two_opt_checked")


# ------------------------------------------------------------------ C10
class C10(Hooked):
    id = "C10"
    rule = ("one case = one strip problem (random configured and minimum heights) with local_search/hypersearch under "
            "random schedules, deadlines and histories of earlier searches; completeness, height no greater than the "
            "initial construction's, never above the configured height, container height monotone; non-trivial = more "
            "than one packing evaluated")
    counts = {"quick": 11000, "thorough": 60000}

    def gen(self, rng, index, tier):
        op = rng.choice(["local_search", "hypersearch", "hypersearch"])
        workers = rng.choice([1, 1, 2, 3, 4]) if op == "hypersearch" else 1
        case = search_case(rng, workers, op, mode="strip", crowd=0.04)
        if op == "local_search" and rng.random() < 0.4:
            case["problem"]["strategy"] = gen.strategy(rng)
        case["history"] = [rng.choice(["local_search", "solve", "hyper1", "reset", "cheight"])
                           for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        case["hval"] = rng.randint(1, 30)
        for n in range(1, rng.choice([1, 2, 3])):
            case["variants"].append(deadline_variant(rng, n, 0.0, 1.1) if workers == 1 or rng.random() < 0.6
                                    else sched_variant(rng, n, workers))
        return case

    def hooks(self, case, box):
        def before(p, t, spec):
            for h in case.get("history", []):
                if h == "local_search":
                    p.local_search()
                elif h == "solve":
                    p.solve()
                elif h == "hyper1" and case["call"].get("pool"):
                    w = p._workers_num
                    scen.do_call(p, case["call"])
                elif h == "reset":
                    p.reset_container_height()
                    if p.container_height != 10 * spec["strip"] or p.container_min_height is not None:
                        box["reset"] = (p.container_height, p.container_min_height)
                elif h == "cheight":
                    if p.container_min_height is None or case["hval"] >= p.container_min_height:
                        p.container_height = case["hval"]
            box["h0"], box["m0"] = p.container_height, p.container_min_height
            box["items0"] = {i: dict(d) for i, d in p.items.items()}
            box["skip"] = len(world.RECORD.pubs)

        def after(p, t, exc, spec):
            box["h1"], box["m1"] = p.container_height, p.container_min_height
            p.reset_container_height()
            box["h2"], box["m2"] = p.container_height, p.container_min_height
            p.solve()
        return before, after

    def denser(self, spec, call, pubs, final, m0, res):
        """A packing evaluated in the search that was acceptable and denser than the published one."""
        cid, W, n = "strip-pack-container", spec["strip"], len(spec["items"])
        groups = {}
        for p in pubs:
            groups.setdefault((p.order, tuple(p.strategy or ())), []).append(p)
        if call["op"] == "hypersearch":
            pool = [tuple(x) for x in call["pool"]]
            own = {tuple(spec.get("strategy") or ()), tuple(world.hp.HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY)}
            if len(set(pool)) < len(pool):
                return None
            groups = {k: v for k, v in groups.items() if k[1] not in own}
        elif call["op"] != "local_search":
            return None
        best = None
        for g in groups.values():
            # without a minimum height a local search takes complete packings only, in place of what it began with
            if m0 is None and len(g[0].sol[cid]) != n:
                res.stat("incomplete_start")
                continue
            for p in g:
                if m0 is not None or len(p.sol[cid]) == n:
                    if best is None or density(p.sol[cid], W) > density(best.sol[cid], W):
                        best = p
        if best is None:
            return None
        res.stat("density_compared")
        return best if density(best.sol[cid], W) > density(final.sol[cid], W) + 1e-9 else None

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed":
            return
        spec, call, box = tr.spec, tr.call, tr.box
        if tr.exc is not None:
            res.violation("raised", scen.describe_exc(tr.exc), case, tr)
            return
        cid = "strip-pack-container"
        h0, m0, h1, m1 = box["h0"], box["m0"], box["h1"], box["m1"]
        W = spec["strip"]
        if box.get("reset"):
            res.violation("reset", f"reset_container_height left {box['reset']}", case, tr)
        if (box["h2"], box["m2"]) != (10 * W, None):
            res.violation("reset", f"reset_container_height left height {box['h2']}, minimum {box['m2']}", case, tr)
        pubs = [p for p in tr.pubs[box["skip"]:] if p.time <= tr.t1]
        if not pubs:
            return
        sol = box.get("sol") or None
        final = None
        for p in pubs:
            if oracle.top(p.sol[cid]) > h0:
                res.violation("above-height", f"packing of height {oracle.top(p.sol[cid])} in "
                              f"{'the caller' if p.order is None else 'worker %d' % p.order}, configured height is {h0}", case, tr)
                return
            if p.order is None:
                final = p
        if final is None:
            res.violation("nothing-published", "nothing published", case, tr)
            return
        n = len(spec["items"])
        ref = scen.build(spec, items=box["items0"])
        ref.container_height = 10 ** 9 if m0 is None else max(m0, 1)
        ref.reset_container_height()
        ref.container_height = h0
        if call["op"] == "hypersearch":
            sb = call.get("sorting_by", ["area", True])
            ref.sort_items(sorting_by=tuple(sb) if sb else None)
            ref.orient_items(orientation=call.get("orientation", "wide"))
        ref.solve()
        init_full = len(ref.solution[cid]) == n
        init_top = oracle.top(ref.solution[cid])
        if m0 is None and init_full:
            res.stat("complete_initial")
            if len(final.sol[cid]) != n:
                res.violation("items-dropped", f"initial construction holds all {n} items (height {init_top}), the published "
                              f"packing only {len(final.sol[cid])}", case, tr)
                return
            if oracle.top(final.sol[cid]) > init_top:
                res.violation("height-rose", f"published height {oracle.top(final.sol[cid])} > initial {init_top}", case, tr)
                return
        lost = self.denser(spec, call, pubs, final, m0, res)
        if lost is not None:
            res.violation("denser-lost", f"published density {density(final.sol[cid], W)!r}, {'the caller' if lost.order is None else 'worker %d' % lost.order} "
                          f"had evaluated {density(lost.sol[cid], W)!r} with {len(lost.sol[cid])} of {n} items (published: {len(final.sol[cid])})", case, tr)
            return
        if multi(tr):
            if (h1, m1) != (h0, m0):
                res.violation("parent-heights", f"multi-process search changed the heights {(h0, m0)} -> {(h1, m1)}", case, tr)
        else:
            if h1 > h0:
                res.violation("container-height-rose", f"container height {h0} -> {h1}", case, tr)
            if m1 != m0:
                res.violation("min-height-changed", f"container_min_height {m0} -> {m1}", case, tr)
            if m0 is not None and h1 < m0:
                res.violation("below-minimum", f"container height {h1} fell below the minimum {m0}", case, tr)
            prev = None
            for p in pubs:
                if p.order is not None or p.cheight is None:
                    continue
                if prev is not None and p.cheight > prev:
                    res.violation("container-height-rose", f"container height rose {prev} -> {p.cheight} during the search", case, tr)
                    break
                prev = p.cheight
                if m0 is not None and p.cheight < m0:
                    res.violation("below-minimum", f"container height {p.cheight} fell below the minimum {m0}", case, tr)
                    break
