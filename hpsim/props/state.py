"""C11-C13: what searches, interrupts and edits leave behind."""
import copy
import pickle

from .. import gen, mp, oracle, scen, world
from ..base import BIG_TIME, Prop, Res, run_variant, sample_of, search_case, shrink_case
from ..kernel import make_exc
from ..scen import digest, jd
from .search import (Hooked, Search, best_of, check_figures, deadline_variant, fault_variant, initial_height,
                     obj, sched_variant, spec_dims)

MISSING = "<missing>"


def plain(d):
    """A structure of the problem as [[id, {dimension: value}], ...]."""
    return [[i, {k: d[i][k] for k in d[i]}] for i in d]


def snapshot(p):
    return {
        "containers": plain(p.containers),
        "settings": copy.deepcopy(p.settings),
        "strategy": jd(p.potential_points_strategy),
        "rotation": getattr(p, "_rotation", MISSING),
        "max_time": getattr(p, "_max_time_in_seconds", MISSING),
        "workers": getattr(p, "_workers_num", MISSING),
    }


# ------------------------------------------------------------------ documented order and orientation
def sort_key(by, d):
    w, l = d["w"], d["l"]
    if by == "area":
        return w * l
    if by == "perimeter":
        return 2 * (w + l)
    return max(w, l) / min(w, l)


def prep_error(before, after, call, rotation):
    """Did hypersearch sort and orient as its arguments say?  (ties may be in any order)"""
    b, a = dict(before), dict(after)
    if set(a) != set(b) or len(after) != len(before):
        return f"item ids changed from {sorted(b)} to {sorted(a)}"
    orientation = call.get("orientation", "wide")
    by = call.get("sorting_by", ["area", True])
    for i in a:
        w, l = b[i]["w"], b[i]["l"]
        if rotation and orientation == "wide":
            w, l = max(w, l), min(w, l)
        elif rotation and orientation == "long":
            w, l = min(w, l), max(w, l)
        if a[i] != {"w": w, "l": l}:
            return f"item {i!r} was {b[i]}, is {a[i]} after orientation {orientation!r} (rotation {rotation})"
    if by is None:
        if [i for i, _ in after] != [i for i, _ in before]:
            return f"order of the items changed without sorting: {[i for i, _ in after]}"
    else:
        keys = [sort_key(by[0], d) for _, d in after]
        if any((x < y if by[1] else x > y) for x, y in zip(keys, keys[1:])):
            return f"items are not sorted by {by}: {keys}"
    return None


# ------------------------------------------------------------------ C11
class C11(Hooked):
    id = "C11"
    rule = ("one case = one problem (settings given, omitted, defaults overridden by subclassing, or changed in place "
            "without being applied) and a search; variants: deadlines, schedules, worker failures up to all workers; "
            "deep snapshots of the problem and of the caller's dictionaries before and after; packings evaluated in "
            "workers are re-solved by a fresh problem with the parent's settings; non-trivial = a search over more "
            "than one packing")
    counts = {"quick": 9000, "thorough": 60000}

    def gen(self, rng, index, tier):
        op = rng.choice(["hypersearch"] * 5 + ["local_search", "solve"])
        workers = rng.choice([1, 2, 2, 3, 4]) if op == "hypersearch" else 1
        case = search_case(rng, workers, op, crowd=0.04)
        p = case["problem"]
        st = p["settings"]
        sub = {}
        if rng.random() < 0.3:
            sub["ROTATION_DEFAULT_VALUE"] = rng.random() < 0.3
            st.pop("rotation", None)
        if rng.random() < 0.3:
            sub["MAX_TIME_IN_SECONDS_DEFAULT_VALUE"] = st.pop("max_time_in_seconds")
        if rng.random() < 0.2:
            sub["WORKERS_NUM_DEFAULT_VALUE"] = st.pop("workers_num")
        p["sub"] = sub or None
        if rng.random() < 0.3:
            st["figure"] = {"show": False}
        if rng.random() < 0.3:
            p["strategy"] = gen.strategy(rng, full=rng.random() < 0.5)
        if rng.random() < 0.3:
            # changed in place after construction: not in force until validated
            case["inplace"] = rng.choice([{"rotation": True}, {"rotation": False}, {"max_time_in_seconds": BIG_TIME},
                                          {"max_time_in_seconds": 1, "rotation": False}, {"figure": {"show": True}}])
        if op == "solve" and rng.random() < 0.5:
            seq = list(p["items"])
            rng.shuffle(seq)
            case["call"]["sequence"] = seq[:rng.randint(1, len(seq))]
        if op != "solve" and rng.random() < 0.6:
            case["variants"].append(deadline_variant(rng, 1, 0.0, 1.0))
        if workers > 1 and rng.random() < 0.6:
            case["variants"].append(fault_variant(rng, 2, min(workers, len(case["call"]["pool"]))))
        return case

    def nontrivial(self, tr):
        return len(tr.pubs) > 1

    def hooks(self, case, box):
        def before(p, t, spec):
            if case.get("inplace"):
                p.settings.update(copy.deepcopy(case["inplace"]))
            box["snap"] = snapshot(p)
            box["items"] = plain(p.items)
            box["rot"] = scen.rotation_of(spec)
            box["limit"] = (spec.get("settings") or {}).get(
                "max_time_in_seconds", (spec.get("sub") or {}).get("MAX_TIME_IN_SECONDS_DEFAULT_VALUE", 60))

        def after(p, t, exc, spec):
            box["snap1"] = snapshot(p)
            box["items1"] = plain(p.items)
        return before, after

    def check(self, tr, base, case, res, variant):
        if tr.outcome != "completed":
            return
        spec, call, box = tr.spec, tr.call, tr.box
        for k, v in box["snap"].items():
            if box["snap1"][k] != v:
                res.violation("changed-" + k, f"{call['op']} ({tr.outcome}, {scen.describe_exc(tr.exc)}) changed {k} from {v!r} "
                              f"to {box['snap1'][k]!r}", case, tr)
                return
        if call["op"] == "hypersearch":
            e = prep_error(box["items"], box["items1"], call, box["rot"])
            if e:
                res.violation("items", e, case, tr)
                return
        elif box["items1"] != box["items"]:
            res.violation("items", f"{call['op']} changed the items from {box['items']} to {box['items1']}", case, tr)
            return
        want = {"items": scen.raw_items(spec), "settings": copy.deepcopy(spec.get("settings", {}))}
        if case.get("inplace") and want["settings"]:
            want["settings"].update(case["inplace"])
        if spec["mode"] == "bins":
            want["containers"] = scen.raw_containers(spec)
        for k, v in want.items():
            if tr.raw.get(k) != v or (k == "items" and list(tr.raw[k]) != list(v)):
                res.violation("raw-" + k, f"the {k} dictionary passed in was altered: {tr.raw.get(k)!r}", case, tr)
                return
        self.check_workers(tr, case, res)

    def check_workers(self, tr, case, res):
        spec, call, box = tr.spec, tr.call, tr.box
        if not tr.procs:
            return
        # packings evaluated in workers: the same construction with the parent's settings
        cand = [p for p in tr.pubs if p.order is not None and p.seq is not None and p.strategy is not None]
        cand = cand[:3] + cand[len(cand) // 2:len(cand) // 2 + 2] + cand[-2:]
        sp = dict(spec, settings={"rotation": box["rot"]}, sub=None, strategy=None)
        items = dict(box["items1"])
        for p in cand:
            q = scen.build(sp, items=copy.deepcopy(items))
            if spec["mode"] == "strip" and p.cheight is not None:
                q.reset_container_height()
                q.container_height = p.cheight
                if spec.get("cmin") is not None and spec["cmin"] <= p.cheight:
                    q.container_min_height = spec["cmin"]
            q.potential_points_strategy = tuple(p.strategy)
            q.solve(sequence=list(p.seq[1])) if p.seq[1] is not None else q.solve()
            a = {c: {i: list(r) for i, r in d.items()} for c, d in q.solution.items()}
            if p.sol != a:
                # the strip height may have been lowered between construction and publication
                if spec["mode"] == "strip" and jd(a) != jd(p.sol) and p.seq[1] is None:
                    continue
                res.violation("worker-settings", f"worker {p.order} packed {p.sol} for sequence {p.seq[1]} and strategy {p.strategy}; "
                              f"with the parent's settings (rotation {box['rot']}) it is {a}", case, tr)
                return
            res.stat("worker_packings_checked")
        # and the parent's time limit
        deadline = (tr.kernel.search_begin or tr.wall0) + box["limit"]
        for q in tr.procs:
            late = [p for p in tr.pubs if p.order == q.order and p.wall > deadline + 1e-9]
            if len(late) > 8:
                res.violation("worker-limit", f"worker {q.order} evaluated {len(late)} packings after the limit of {box['limit']} s "
                              f"in force in the parent", case, tr)
                return


# ------------------------------------------------------------------ C12
OPS12 = ["solve", "local_search", "local_search", "hypersearch", "hypersearch", "hypersearch", "sort", "orient", "log"]


class C12(Prop):
    id = "C12"
    rule = ("one case = one problem, an optional earlier operation, and one operation of the caller cut short by an "
            "exception injected at a function start, loop head or call (position drawn over the whole fault-free run); "
            "the problem is inspected, then the operation is repeated and compared with a fresh problem holding the "
            "same data; non-trivial = the exception was raised inside the operation")
    counts = {"quick": 1600, "thorough": 60000}
    assumptions = ["exceptions arrive where CPython delivers asynchronous exceptions or a call's allocation can fail, "
                   "not between two plain attribute stores"]

    def gen(self, rng, index, tier):
        op = rng.choice(OPS12)
        workers = rng.choice([1, 1, 1, 2, 3]) if op == "hypersearch" else rng.choice([1, 2])
        case = search_case(rng, workers, "hypersearch", size=rng.choice(["tiny", "tiny", "small"]))
        if op != "hypersearch":
            case["call"] = {"op": op}
            if op == "sort":
                case["call"]["by"] = rng.choice([["area", True], ["perimeter", False], ["longest_side_ratio", True]])
            elif op == "orient":
                case["call"]["orientation"] = rng.choice(["wide", "long"])
            elif op == "local_search":
                case["call"]["throttle"] = rng.random() < 0.5
        else:
            case["call"]["pool"] = gen.pool(rng, rng.choice([1, 2, 3]))
        case["sim"]["tick_cost"] = 1e-6
        if rng.random() < 0.3:
            case["problem"]["strategy"] = gen.strategy(rng)
        case["pre"] = rng.choice([None, "solve", "solve", "local_search"]) if op != "log" else "solve"
        case["mode"] = "async"
        for n in range(1, 1 + rng.choice([3, 5, 8])):
            f = {"kind": "raise", "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError",
                                                     "SystemExit", "RecursionError"]),
                 "frac": round(rng.choice([rng.random(), rng.random() ** 2, 1 - rng.random() ** 2]), 5)}
            if op == "hypersearch" and workers > 1 and rng.random() < 0.3:
                f.pop("frac")
                f["opfrac"] = [rng.choice(["join", "read", "wait", "load", "close", None]), round(rng.random(), 4)]
                f["exc"] = "KeyboardInterrupt"
            case["variants"].append({"n": n, "faults": [f]})
        return case

    def one(self, case, v, base):
        box = {}
        orig = scen.execute

        def before(p, t):
            if case.get("pre"):
                scen.do_call(p, {"op": case["pre"]})
            box["items"] = plain(p.items)
            box["snap"] = snapshot(p)
            box["h"] = (p.container_height, p.container_min_height)

        def after(p, t, exc):
            box["items1"] = plain(p.items)
            box["snap1"] = snapshot(p)
            box["sol"] = copy.deepcopy(dict(p.solution)) if p.solution else p.solution
            box["vals"] = copy.deepcopy(getattr(p, "obj_val_per_container", None))
            box["h1"] = (p.container_height, p.container_min_height)
            if case["call"]["op"] == "log" and not p.solution:
                return
            # repeat, and the same on a fresh problem with the same data
            try:
                scen.do_call(p, case["call"])
                box["again"] = self.result(p)
            except mp.HarnessError:
                raise
            except Exception as e:
                box["again"] = ("raised", scen.describe_exc(e))
            spec = dict(case["problem"], items={i: [d["w"], d["l"]] for i, d in box["items1"]}, cheight=None, cmin=None)
            q = scen.build(spec)
            if spec["mode"] == "strip":
                q.container_height = box["h1"][0]
                if box["h1"][1] is not None:
                    q.container_min_height = box["h1"][1]
            if case["call"]["op"] == "log":
                q.solution = copy.deepcopy(box["sol"])
                q.obj_val_per_container = copy.deepcopy(box["vals"])
            try:
                scen.do_call(q, case["call"])
                box["fresh"] = self.result(q)
            except mp.HarnessError:
                raise
            except Exception as e:
                box["fresh"] = ("raised", scen.describe_exc(e))

        def ex(spec, call, sim, **kw):
            return orig(spec, call, sim, before=before, after=after, **kw)
        scen.execute = ex
        try:
            tr = run_variant(case, v, base)
        finally:
            scen.execute = orig
        tr.box = box
        return tr

    @staticmethod
    def result(p):
        return {"items": plain(p.items), "solution": copy.deepcopy(dict(p.solution or {})),
                "vals": dict(getattr(p, "obj_val_per_container", None) or {}),
                "best_strategy": jd(getattr(p, "best_strategy", None)),
                "heights": [p.container_height, p.container_min_height]}

    def run(self, case):
        res = Res()
        base = self.one(case, None, None)
        if case.get("check_base", True):
            res.trace(base, False)
            self.check(base, dict(case, variants=[]), res)
        if base.outcome != "completed" or base.exc is not None:
            res.stat("base_failed")
            if base.exc is not None:
                res.violation("base-raised", scen.describe_exc(base.exc), dict(case, variants=[]), base)
            return res.out()
        for v in case.get("variants") or []:
            one = dict(case, variants=[v], check_base=False)
            tr = self.one(case, v, base)
            res.trace(tr, bool(tr.fired), digest(jd(case["problem"]), jd(case["call"]), jd(tr.sim["faults"])))
            self.check(tr, one, res)
            if tr.fired:
                res.sample = sample_of(tr, case, v)
        return res.out()

    def check(self, tr, case, res):
        if tr.outcome != "completed":
            res.violation("no-return", f"run ended by {tr.outcome}: blocked {getattr(tr, 'blocked', None)}", case, tr)
            return
        box, spec, call = tr.box, tr.spec, tr.call
        what = f"{call['op']} cut short by {scen.describe_exc(tr.exc)}" if tr.exc is not None else call["op"]
        if tr.fired and (tr.exc is None or not getattr(tr.exc, "injected", False)):
            res.violation("swallowed", f"{dict(tr.fired)} was raised in {call['op']}, the caller got {scen.describe_exc(tr.exc)}", case, tr)
            return
        for k, v in box["snap"].items():
            if box["snap1"][k] != v:
                res.violation("changed-" + k, f"{what} changed {k} from {v!r} to {box['snap1'][k]!r}", case, tr)
                return
        b, a = dict(box["items"]), dict(box["items1"])
        rot = scen.rotation_of(spec)
        if set(a) != set(b):
            res.violation("items-lost", f"{what}: items {sorted(b)} became {sorted(a)}", case, tr)
            return
        for i in a:
            if a[i] != b[i] and not (rot and call["op"] in ("hypersearch", "orient") and
                                     a[i] == {"w": b[i]["l"], "l": b[i]["w"]}):
                res.violation("item-damaged", f"{what}: item {i!r} was {b[i]}, is {a[i]}", case, tr)
                return
        if call["op"] not in ("hypersearch", "sort") and list(a) != list(b):
            res.violation("items-reordered", f"{what}: order {list(b)} became {list(a)}", case, tr)
            return
        items = {i: (d["w"], d["l"]) for i, d in box["items1"]}
        _, conts, strip = spec_dims(spec)
        if box["sol"]:
            e = oracle.feasible(box["sol"], items, conts, rot, strip, initial_height(spec))
            if e:
                res.violation("infeasible-" + e[0], f"{what}: published packing: {e[1]}", case, tr)
                return
            u = oracle.utils(box["sol"], conts, strip)
            if set(box["vals"] or {}) != set(u) or any(abs(box["vals"][c] - u[c]) > 1e-9 for c in u):
                res.violation("stale-figures", f"{what}: utilisation {box['vals']}, the published packing's is {u}", case, tr)
                return
        if strip is not None:
            h, m = box["h1"]
            if m != box["h"][1] or h > box["h"][0] or h < 1 and box["h"][0] >= 1 and any(box["sol"].values() if box["sol"] else []):
                res.violation("heights", f"{what}: heights {box['h']} became {box['h1']}", case, tr)
                return
        left = [o for o, s in tr.states_at_return if s != "exiting"]
        if left:
            res.violation("worker-left", f"{what}: workers {left} still running", case, tr)
            return
        if "again" in box:
            x, y = box["again"], box["fresh"]
            if isinstance(x, dict) and isinstance(y, dict):
                multi = call["op"] == "hypersearch" and (spec["settings"].get("workers_num", 1) > 1)
                keys = ["items", "solution", "vals", "best_strategy", "heights"]
                if multi and strip is None:
                    ox, oy = (oracle.objective(z["solution"], conts, None) for z in (x, y))
                    if abs(ox - oy) > 1e-9:
                        res.violation("repeat-differs", f"after {what}, repeating gives objective {ox!r}, a fresh problem {oy!r}", case, tr)
                    keys = ["items", "heights"]
                for k in keys:
                    if call["op"] in ("sort", "orient", "log") and k != "items":
                        continue
                    if x[k] != y[k]:
                        res.violation("repeat-differs", f"after {what}, repeating gives {k} {x[k]}, a fresh problem {y[k]}", case, tr)
                        return
                res.stat("repeats_compared")
            elif x != y:
                res.violation("repeat-fails", f"after {what}, repeating: {x if not isinstance(x, dict) else 'works'}; fresh problem: "
                              f"{y if not isinstance(y, dict) else 'works'}", case, tr)

    def sanity(self, agg, tier):
        for k in ("fault:raise:KeyboardInterrupt", "fault:raise:MemoryError"):
            if not agg.get(k):
                return f"{k} never fired"


# ------------------------------------------------------------------ C13
IKEYS, CKEYS = ("w", "l"), ("W", "L")
BAD_VALUES = [0, -1, 2.5, "2", None]


def keys_of(target):
    return IKEYS if target == "items" else CKEYS


def ok_int(v):
    return isinstance(v, int) and not isinstance(v, bool) and v > 0


def ok_dims(d, target):
    return isinstance(d, dict) and set(d) == set(keys_of(target)) and all(ok_int(v) for v in d.values())


def ok_pairs(pairs, target):
    return isinstance(pairs, list) and bool(pairs) and all(isinstance(i, str) and ok_dims(d, target) for i, d in pairs)


def rand_dims(rng, target, bad=0.0):
    a, b = keys_of(target)
    d = {a: rng.randint(1, 7), b: rng.randint(1, 7)}
    if rng.random() < 0.2:
        d = {b: d[b], a: d[a]}
    if rng.random() < bad:
        r = rng.randrange(7)
        if r == 0:
            return {}
        if r == 1:
            d.pop(rng.choice([a, b]))
        elif r == 2:
            d["h"] = 3
        elif r == 3:
            return rng.choice([None, [3, 2], 7, "ab"])
        elif r == 4:
            x, y = keys_of("containers" if target == "items" else "items")
            d = {x: 3, y: 3}
        else:
            d[rng.choice([a, b])] = rng.choice(BAD_VALUES)
    return d


NAMES = ["a", "b", "c", "d", "e"]


def rand_id(rng, bad=0.0):
    if rng.random() < bad:
        return rng.choice([5, None, 1.5])
    return rng.choice(NAMES)


def rand_pairs(rng, target, bad=0.0, lo=1):
    n = rng.randint(lo, 4)
    ids = rng.sample(NAMES, n) if n else []
    return [[rand_id(rng, 1.0) if rng.random() < bad / 4 else i, rand_dims(rng, target, bad / 2)] for i in ids]


def rand_op(rng, case):
    strip = case["problem"]["mode"] == "strip"
    T = "containers" if rng.random() < (0.25 if strip else 0.4) else "items"
    k = keys_of(T)
    r = rng.random()
    bad = 0.35
    if r < 0.30:
        return rng.choice([["solve"], ["solve"], ["local_search"], ["local_search"], ["hyper"], ["hyper"]])
    if r < 0.36:
        return ["sort", rng.choice([["area", True], ["area", False], ["perimeter", True], ["longest_side_ratio", False],
                                    None, ["bogus", True]])]
    if r < 0.41:
        return ["orient", rng.choice(["wide", "long", None, "bogus"])]
    if r < 0.46 and strip:
        return rng.choice([["height", rng.choice([1, 3, 9, 40, 0, -2, 2.5, None])],
                           ["minheight", rng.choice([1, 2, 5, 30, 500, 0, "x"])], ["reset"]])
    if r < 0.49:
        return ["strategy", gen.strategy(rng, full=rng.random() < 0.6) + (["A"] if rng.random() < 0.2 else [])]
    kind = rng.choice(["assign", "assign", "set", "set", "set", "del", "del", "dim", "dim", "dim", "update", "ior", "pop",
                       "popitem", "setdefault", "clear", "dimdel", "dimpop", "dimpopitem", "dimclear", "dimupdate",
                       "dimior", "dimsetdefault", "alias", "rawmut", "stale", "self", "delattr", "foreign", "copy", "or",
                       "setfrom", "clone"])
    if kind in ("assign", "update", "ior"):
        if kind == "assign" and rng.random() < 0.15:
            return [kind, T, rng.choice([None, 5, "abc", []])]
        return [kind, T, rand_pairs(rng, T, bad, 0 if rng.random() < 0.1 else 1)]
    if kind == "set":
        return [kind, T, rand_id(rng, 0.15), rand_dims(rng, T, bad)]
    if kind in ("del", "pop", "dimclear", "dimpopitem"):
        return [kind, T, rng.choice(NAMES)] + ([rng.random() < 0.5] if kind == "pop" else [])
    if kind == "dim":
        return [kind, T, rng.choice(NAMES), rng.choice(list(k) * 4 + ["h"]),
                rng.randint(1, 7) if rng.random() > bad else rng.choice(BAD_VALUES)]
    if kind in ("popitem", "clear", "self", "delattr", "copy"):
        return [kind, T]
    if kind == "setdefault":
        return [kind, T, rand_id(rng, 0.1), rand_dims(rng, T, bad)]
    if kind in ("dimdel", "dimpop"):
        return [kind, T, rng.choice(NAMES), rng.choice(k + ("h",))]
    if kind in ("dimupdate", "dimior"):
        d = rand_dims(rng, T, bad)
        if not isinstance(d, dict):
            d = {k[0]: 4}
        if rng.random() < 0.5:
            d.pop(k[0], None)
        return [kind, T, rng.choice(NAMES), [[a, b] for a, b in d.items()]]
    if kind == "dimsetdefault":
        return [kind, T, rng.choice(NAMES), rng.choice(k + ("h",)), 3]
    if kind == "alias":
        a, b = rng.sample(NAMES, 2)
        return [kind, T, a, b, rand_dims(rng, T), k[rng.randrange(2)], rng.randint(1, 7)]
    if kind == "rawmut":
        return [kind, T, rng.choice(NAMES), k[rng.randrange(2)], rng.choice([9, -4])]
    if kind == "stale":
        return [kind, T, rand_pairs(rng, T), rng.choice(NAMES), rand_dims(rng, T), rng.choice(["set", "del", "dim", "extra"])]
    if kind == "foreign":
        return [kind, T, rand_pairs(rng, T), rng.choice(NAMES), k[rng.randrange(2)]]
    if kind == "clone":
        return [kind, T, rng.choice(["deepcopy", "pickle"]), rng.random() < 0.7]
    if kind == "setfrom":
        return [kind, T, rng.choice(NAMES), rng.choice(NAMES), rng.choice(["set", "update", "setdefault", "ior"]),
                rng.choice(["here", "here", "elsewhere", "crosswise"])]
    return ["or", T, rand_pairs(rng, T)]


NEAR = ("same", "perm", "perm", "swapdims", "bump", "exchange", "drop", "setsame", "setswap", "moveend", "dimsame")


def near_op(rng, case):
    """An edit made from the data the problem holds then: nearly, but maybe not quite, the same data."""
    T = "containers" if case["problem"]["mode"] != "strip" and rng.random() < 0.5 else "items"
    return ["near", T, rng.choice(NEAR), rng.randrange(8)]


def near_edits(pairs, T, how, k):
    """The concrete edits."""
    n = len(pairs)
    pairs = copy.deepcopy(pairs)
    i = k % n
    x, y = keys_of(T)
    name, d = pairs[i]
    swapped = {x: d[y], y: d[x]}
    if how == "setsame":
        return [["set", T, name, d]]
    if how == "setswap":
        return [["set", T, name, swapped]]
    if how == "dimsame":
        return [["dim", T, name, x, d[x]]]
    if how == "moveend":
        return [["del", T, name], ["set", T, name, d]] if n > 1 else []
    if how == "perm":
        pairs = pairs[i:] + pairs[:i] if k % 2 else pairs[::-1]
    elif how == "swapdims":
        pairs[i] = [name, swapped]
    elif how == "bump":
        pairs[i] = [name, dict(d, **{x: d[x] + 1})]
    elif how == "exchange":
        j = (i + 1) % n
        pairs[i], pairs[j] = [name, pairs[j][1]], [pairs[j][0], d]
    elif how == "drop" and n > 1:
        del pairs[i]
    return [["assign", T, pairs]]


class Bad(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls


OBSERVED = ("solution", "obj_val_per_container", "best_strategy", "settings", "potential_points_strategy",
            "container_height", "container_min_height", "_rotation", "_max_time_in_seconds", "_workers_num")


def observed(p):
    """Everything a user can see of a problem, by value."""
    return copy.deepcopy(dict({a: getattr(p, a, None) for a in OBSERVED}, items=plain(p.items), containers=plain(p.containers)))


class Machine:
    """The problem object beside its reference model: ordered lists of valid entries."""

    def __init__(self, case, res):
        self.case = case
        self.res = res
        spec = case["problem"]
        self.spec = spec
        self.strip = spec["mode"] == "strip"
        self.raw = {}
        self.p = scen.build(spec, raw=self.raw)
        self.model = {"items": [[i, {"w": d[0], "l": d[1]}] for i, d in spec["items"].items()]}
        if self.strip:
            self.model["containers"] = plain(self.p.containers)
        else:
            self.model["containers"] = [[i, {"W": d[0], "L": d[1]}] for i, d in spec["containers"].items()]
        self.last = {}
        self.aside = []
        self.accepted = self.rejected = self.compared = 0

    # -------------------------------------------------------------- model of one edit
    def expect(self, op):
        """(verdict, possible new contents of the target).  verdict: accept, reject, any."""
        kind = op[0]
        T = op[1]
        m = copy.deepcopy(self.model[T])
        d = dict(m)
        locked = self.strip and T == "containers"
        keys = keys_of(T)
        if kind == "assign":
            v = op[2]
            if locked or not ok_pairs(v, T):
                return "reject", [m]
            return "accept", [copy.deepcopy(v)]
        if kind == "set":
            if locked or not isinstance(op[2], str) or not ok_dims(op[3], T):
                return "reject", [m]
            d[op[2]] = dict(op[3])
            return "accept", [self.lst(d)]
        if kind in ("del", "pop"):
            if op[2] not in d:
                return ("any" if kind == "pop" and op[3] else "reject"), [m]
            if len(d) == 1 or locked:
                return "reject", [m]
            del d[op[2]]
            return "accept", [self.lst(d)]
        if kind == "popitem":
            if len(d) == 1 or locked:
                return "reject", [m]
            return "accept", [[e for e in m if e[0] != x[0]] for x in m]
        if kind == "clear":
            import itertools
            return "reject", [[e for e, k in zip(m, keep) if k] for keep in itertools.product([0, 1], repeat=len(m)) if any(keep)]
        if kind in ("update", "ior"):
            pairs = op[2]
            states, bad = [m], False
            for i, dims in self.dedup(pairs):
                if locked or not isinstance(i, str) or not ok_dims(dims, T):
                    bad = True
                    break
                d[i] = dict(dims)
                states.append(self.lst(d))
            if not pairs:
                return "any", [m]
            return ("reject", states) if bad else ("accept", states[-1:])
        if kind == "setdefault":
            if isinstance(op[2], str) and op[2] in d:
                return "any", [m]
            if locked or not isinstance(op[2], str) or not ok_dims(op[3], T):
                return "reject", [m]
            d[op[2]] = dict(op[3])
            return "accept", [self.lst(d)]
        if kind in ("dim", "dimupdate", "dimior"):
            if op[2] not in d:
                return "reject", [m]
            pairs = [[op[3], op[4]]] if kind == "dim" else op[3]
            states, bad = [m], False
            x = dict(d[op[2]])
            for k, v in pairs:
                if locked or k not in keys or not ok_int(v):
                    bad = True
                    break
                x[k] = v
                d[op[2]] = dict(x)
                states.append(self.lst(d))
            if not pairs:
                return "any", [m]
            return ("reject", states) if bad else ("accept", states[-1:])
        if kind == "dimsetdefault":
            if op[2] in d and op[3] in keys:
                return "any", [m]
            return "reject", [m]
        if kind in ("dimdel", "dimpop", "dimpopitem"):
            return "reject", [m]
        if kind == "dimclear":
            return "reject", [m]
        if kind == "delattr":
            return "reject", [m]
        if kind in ("rawmut", "self", "copy", "or"):
            return "any", [m]
        raise AssertionError(op)

    @staticmethod
    def lst(d):
        return [[i, dict(x)] for i, x in d.items()]

    @staticmethod
    def dedup(pairs):
        return list({i: d for i, d in pairs}.items())

    @staticmethod
    def val(v):
        return dict((i, copy.deepcopy(d)) for i, d in v) if isinstance(v, list) and all(isinstance(e, list) for e in v) else v

    def perform(self, op):
        p, kind, T = self.p, op[0], op[1]
        S = getattr(p, T)
        if kind == "assign":
            setattr(p, T, self.val(op[2]))
        elif kind == "set":
            S[op[2]] = copy.deepcopy(op[3])
        elif kind == "del":
            del S[op[2]]
        elif kind == "pop":
            S.pop(op[2], None) if op[3] else S.pop(op[2])
        elif kind == "popitem":
            S.popitem()
        elif kind == "clear":
            S.clear()
        elif kind == "update":
            S.update(self.val(op[2]))
        elif kind == "ior":
            if T == "items":
                p.items |= self.val(op[2])
            else:
                p.containers |= self.val(op[2])
        elif kind == "setdefault":
            S.setdefault(op[2], copy.deepcopy(op[3]))
        elif kind == "dim":
            S[op[2]][op[3]] = op[4]
        elif kind == "dimupdate":
            S[op[2]].update(dict(op[3]))
        elif kind == "dimior":
            S[op[2]] |= dict(op[3])
        elif kind == "dimsetdefault":
            S[op[2]].setdefault(op[3], op[4])
        elif kind == "dimdel":
            del S[op[2]][op[3]]
        elif kind == "dimpop":
            S[op[2]].pop(op[3])
        elif kind == "dimpopitem":
            S[op[2]].popitem()
        elif kind == "dimclear":
            S[op[2]].clear()
        elif kind == "delattr":
            delattr(p, T)
        elif kind == "rawmut":
            r = self.raw.get(T)
            if r and op[2] in r:
                r[op[2]][op[3]] = op[4]
        elif kind == "self":
            setattr(p, T, S)
        elif kind == "copy":
            S.copy()
        elif kind == "or":
            S | self.val(op[2])

    # -------------------------------------------------------------- one step
    def step(self, n, op):
        p, kind = self.p, op[0]
        before = copy.deepcopy(self.model)
        sol0 = copy.deepcopy(self.sol())
        vals0 = copy.deepcopy(self.vals())
        what = f"step {n} {op}"
        if kind in ("solve", "local_search", "hyper"):
            return self.search(what, op)
        exc = None
        if kind in ("sort", "orient", "height", "minheight", "reset", "strategy"):
            self.operation(what, op)
        elif kind == "alias":
            self.edit(what, ["set", op[1], op[2], op[4]])
            _, T, a, b, dims, k, v = op
            if not (self.strip and T == "containers"):
                shared = dict(dims)
                S = getattr(p, T)
                S[a] = shared
                S[b] = shared
                S[a][k] = v
                shared[k] = 99
                d = dict(self.model[T])
                d[a] = dict(dims, **{k: v})
                d[b] = dict(dims)
                self.model[T] = self.lst(d)
        elif kind == "setfrom":
            self.setfrom(what, op)
        elif kind == "clone":
            self.clone(what, op)
        elif kind == "near":
            _, T, how, j = op
            for e in near_edits(self.model[T], T, how, j):
                self.edit(what + f" = {e}", e)
        elif kind == "stale":
            _, T, pairs, i, dims, how = op
            old = getattr(p, T)
            if not (self.strip and T == "containers"):
                self.edit(what, ["assign", T, pairs])
                try:
                    if how == "set":
                        old[i] = dims
                    elif how == "extra":
                        old["another-" + i] = dims
                        old["yet-another-" + i] = dims
                    elif how == "del":
                        del old[i]
                    else:
                        old[i][keys_of(T)[0]] = 5
                except Exception:
                    pass
        elif kind == "foreign":
            _, T, pairs, i, k = op
            q = scen.build(dict(self.spec, mode="bins", cls=None, containers={"x": [3, 3]}, items={"y": [1, 1]}, sub=None,
                                strategy=None))
            setattr(q, T, self.val(pairs))
            qs = getattr(q, T)
            try:
                setattr(p, T, qs)
            except mp.HarnessError:
                raise
            except Exception:
                pass
            else:
                if self.strip and T == "containers":
                    raise Bad("accepted-invalid", f"{what}: the strip's container was replaced")
                self.model[T] = copy.deepcopy(pairs)
                try:
                    qs[i][k] = 6
                except Exception:
                    pass
            # and editing the other problem never concerns this one
            qs[pairs[0][0]][k] = 5
        else:
            self.edit(what, op)
        self.compare(what)
        changed = [T for T in ("items", "containers") if before[T] != self.model[T]]
        sol, vals = self.sol(), self.vals()
        if changed:
            if sol or vals:
                raise Bad("stale-solution", f"{what} changed the {changed}, still published: {sol}, figures {vals}")
        elif sol != sol0 and sol:
            raise Bad("solution-altered", f"{what} turned the published packing {sol0} into {sol}")
        elif sol and vals != vals0:
            raise Bad("figures-altered", f"{what} turned the figures {vals0} into {vals}")
        elif not sol and vals and vals != vals0:
            raise Bad("figures-altered", f"{what} turned the figures {vals0} into {vals}")

    def clone(self, what, op):
        """A copy is a problem of its own; the history goes on with one of the two, the other one must stay as it is."""
        _, _, how, switch = op
        if how == "pickle" and type(self.p).__module__.split(".")[0] == "hyperpack":
            q = pickle.loads(pickle.dumps(self.p))
        else:
            q = copy.deepcopy(self.p)
        for a in ("items", "containers"):
            if plain(getattr(q, a)) != self.model[a]:
                raise Bad("wrong-data", f"{what}: {a} of the copy are {plain(getattr(q, a))}, expected {self.model[a]}")
        for a in OBSERVED:
            x, y = getattr(self.p, a, None), getattr(q, a, None)
            if x != y:
                raise Bad("wrong-data", f"{what}: {a} is {x!r}, of the copy {y!r}")
        if switch:
            self.p, q = q, self.p
        self.aside = (self.aside + [(what, q, observed(q))])[-2:]

    def asides(self, what):
        for made, q, was in self.aside:
            now = observed(q)
            if now != was:
                d = [a for a in was if was[a] != now[a]][0]
                raise Bad("copies-share", f"{what} on a problem changed {d} of the other problem left by {made}: {was[d]!r} -> {now[d]!r}")

    def setfrom(self, what, op):
        """Assignment of dimensions that are already a structure's: refused, or applied by value; never dropped, never shared."""
        _, T, a, b, how, whose = op
        p, S = self.p, getattr(self.p, T)
        m = copy.deepcopy(self.model[T])
        source, q = S, None
        if whose != "here":
            q = scen.build(dict(self.spec, mode="bins", cls=None, containers={b: [7, 5]}, items={b: [2, 3]},
                                sub=None, strategy=None))
            source = getattr(q, T if whose == "elsewhere" else {"items": "containers", "containers": "items"}[T])
        if b not in source:
            return
        dims = source[b]
        d = dict(self.model[T])
        applied = m
        if whose == "crosswise":
            applied = m if how == "setdefault" and a in d else None
        elif not (how == "setdefault" and a in d):
            d[a] = dict(dims)
            applied = self.lst(d)
            if self.strip and T == "containers" and applied != m:
                applied = None
        exc = None
        try:
            if how == "set":
                S[a] = dims
            elif how == "update":
                S.update({a: dims})
            elif how == "ior":
                S |= {a: dims}
            else:
                S.setdefault(a, dims)
        except mp.HarnessError:
            raise
        except Exception as e:
            exc = e
        now = plain(getattr(p, T))
        if exc is None and applied is None:
            raise Bad("accepted-invalid", f"{what}: {T} were {m}, are {now}")
        if now != (applied if exc is None else m):
            raise Bad("wrong-data", f"{what} ({'raised ' + scen.describe_exc(exc) if exc else 'accepted'}): {T} were {m}, are {now}, "
                      f"expected {applied if exc is None else m}")
        self.model[T] = now
        if q is not None:
            source[b][next(iter(source[b]))] = 9

    def edit(self, what, op):
        verdict, states = self.expect(op)
        exc = None
        try:
            self.perform(op)
        except mp.HarnessError:
            raise
        except Exception as e:
            exc = e
        if verdict == "accept" and exc is not None:
            raise Bad("rejected-valid", f"{what}: valid edit rejected with {scen.describe_exc(exc)}; data {self.model[op[1]]}")
        now = plain(getattr(self.p, op[1]))
        if verdict == "reject" and exc is None:
            raise Bad("accepted-invalid", f"{what}: invalid edit accepted; {op[1]} was {self.model[op[1]]}, is {now}")
        if now not in states:
            raise Bad("wrong-data", f"{what} ({'raised ' + scen.describe_exc(exc) if exc else 'accepted'}): {op[1]} was "
                      f"{self.model[op[1]]}, is {now}, expected {states[-1] if len(states) == 1 else states}")
        self.model[op[1]] = now
        if exc is None:
            self.accepted += 1
        else:
            self.rejected += 1

    def operation(self, what, op):
        p, kind = self.p, op[0]
        if kind == "sort":
            exc = None
            try:
                p.sort_items(tuple(op[1]) if op[1] else None)
            except mp.HarnessError:
                raise
            except Exception as e:
                exc = e
            bad = op[1] is not None and op[1][0] == "bogus"
            if bad != (exc is not None):
                raise Bad("operation", f"{what}: {scen.describe_exc(exc)}")
            now = plain(p.items)
            e = None if bad else prep_error(self.model["items"], now, {"orientation": None, "sorting_by": op[1]}, True)
            if bad and now != self.model["items"]:
                e = f"items {now}"
            if e:
                raise Bad("wrong-data", f"{what}: {e}")
            self.model["items"] = now
        elif kind == "orient":
            p.orient_items(op[1])
            now = plain(p.items)
            o = op[1] if op[1] in ("wide", "long") else None
            e = prep_error(self.model["items"], now, {"orientation": o, "sorting_by": None}, scen.rotation_of(self.spec))
            if e:
                raise Bad("wrong-data", f"{what}: {e}")
            self.model["items"] = now
        elif kind in ("height", "minheight"):
            name = "container_height" if kind == "height" else "container_min_height"
            h, m = p.container_height, p.container_min_height
            v = op[1]
            ok = ok_int(v) and (m is None or v >= m) if kind == "height" else ok_int(v) and v <= h
            try:
                setattr(p, name, v)
                raised = None
            except mp.HarnessError:
                raise
            except Exception as e:
                raised = e
            if ok != (raised is None):
                raise Bad("heights", f"{what} with heights {(h, m)}: {scen.describe_exc(raised)}")
            want = ((v, m) if kind == "height" else (h, v)) if ok else (h, m)
            if (p.container_height, p.container_min_height) != want:
                raise Bad("heights", f"{what}: heights {(h, m)} became {(p.container_height, p.container_min_height)}, not {want}")
        elif kind == "reset":
            p.reset_container_height()
        elif kind == "strategy":
            old = p.potential_points_strategy
            ok = len(set(op[1])) == len(op[1])
            try:
                p.potential_points_strategy = tuple(op[1])
                raised = None
            except mp.HarnessError:
                raise
            except Exception as e:
                raised = e
            want = tuple(op[1]) if ok else old
            if ok != (raised is None) or tuple(p.potential_points_strategy) != tuple(want):
                raise Bad("strategy", f"{what}: {scen.describe_exc(raised)}, strategy {p.potential_points_strategy}")

    def sol(self):
        return getattr(self.p, "solution", None) or {}

    def vals(self):
        return getattr(self.p, "obj_val_per_container", None) or {}

    def compare(self, what):
        for T in ("items", "containers"):
            S = getattr(self.p, T)
            now = plain(S)
            if not now or not all(isinstance(i, str) and ok_dims(d, T) for i, d in now):
                raise Bad("invalid-data", f"{what}: {T} hold {now}")
            if now != self.model[T]:
                raise Bad("wrong-data", f"{what}: {T} are {now}, expected {self.model[T]}")
            if len(S) != len(now) or any(i not in S for i, _ in now):
                raise Bad("invalid-data", f"{what}: {T} of length {len(S)} hold {now}")
        self.asides(what)

    def fresh(self, heights, strategy):
        spec = dict(self.spec, items={i: [d["w"], d["l"]] for i, d in self.model["items"]}, cheight=None, cmin=None, strategy=None)
        if not self.strip:
            spec["containers"] = {i: [d["W"], d["L"]] for i, d in self.model["containers"]}
        q = scen.build(spec)
        q.potential_points_strategy = strategy
        if self.strip:
            q.container_height = heights[0]
            if heights[1] is not None:
                q.container_min_height = heights[1]
        return q

    def search(self, what, op):
        p, case = self.p, self.case
        k = mp.K
        t = k.current
        sol0, vals0 = copy.deepcopy(self.sol()), copy.deepcopy(self.vals())
        heights = (p.container_height, p.container_min_height)
        if self.strip and heights[0] < 1:
            return                  # an empty strip cannot be set up again
        strategy = p.potential_points_strategy
        call = {"solve": {"op": "solve"}, "local_search": {"op": "local_search"}, "hyper": case["call"]}[op[0]]
        q = self.fresh(heights, strategy)
        faults = sum(k.fired.values())
        t0 = t.time
        exc = None
        try:
            scen.do_call(p, call)
        except mp.HarnessError:
            raise
        except Exception as e:
            exc = e
        limit = self.spec["settings"]["max_time_in_seconds"]
        free = sum(k.fired.values()) == faults and t.time - t0 < limit
        before = self.model["items"]
        now = plain(p.items)
        if op[0] == "hyper":
            e = prep_error(before, now, call, scen.rotation_of(self.spec))
            if e:
                raise Bad("wrong-data", f"{what}: {e}")
            self.model["items"] = now
        self.compare(what)
        sol, vals = self.sol(), self.vals()
        if exc is not None:
            if free or type(exc).__name__ != "MultiProcessError":
                raise Bad("search-raised", f"{what}: {scen.describe_exc(exc)}")
            if sol and (sol != sol0 or before != now):
                raise Bad("stale-solution", f"{what} failed, published: {sol}")
            return
        if not sol:
            raise Bad("nothing-published", f"{what} published nothing")
        items = {i: (d["w"], d["l"]) for i, d in now}
        conts = {i: (d["W"], None if self.strip else d["L"]) for i, d in self.model["containers"]}
        strip = self.spec["strip"] if self.strip else None
        e = oracle.feasible(sol, items, conts, scen.rotation_of(self.spec), strip, heights[0])
        if e:
            raise Bad("infeasible-" + e[0], f"{what}: {e[1]}")
        u = oracle.utils(sol, conts, strip)
        if set(vals) != set(u) or any(abs(vals[c] - u[c]) > 1e-9 for c in u):
            raise Bad("stale-figures", f"{what}: figures {vals}, the packing's are {u}")
        if hasattr(p, "calculate_obj_value"):
            o = oracle.objective(sol, conts, strip)
            if abs(p.calculate_obj_value() - o) > 1e-9:
                raise Bad("objective", f"{what}: objective value {p.calculate_obj_value()!r}, the packing's is {o!r}")
        if not free:
            return
        nf, t0 = sum(k.fired.values()), t.time
        try:
            scen.do_call(q, call)
        except mp.HarnessError:
            raise
        except Exception as e2:
            if sum(k.fired.values()) != nf:
                return
            raise Bad("fresh-raised", f"{what}: a fresh problem raises {scen.describe_exc(e2)}")
        if sum(k.fired.values()) != nf or t.time - t0 >= limit:
            return
        self.compared += 1
        if op[0] == "hyper" and self.spec["settings"].get("workers_num", 1) > 1 and not self.strip:
            a, b = oracle.objective(sol, conts, strip), oracle.objective(q.solution, conts, strip)
            if abs(a - b) > 1e-9:
                raise Bad("history-differs", f"{what}: objective {a!r}, a fresh problem gives {b!r}")
        elif jd(sol) != jd(q.solution) or [*sol] != [*q.solution]:
            raise Bad("history-differs", f"{what}: packing {sol}, a fresh problem with the same data gives {q.solution}")


class C13(Prop):
    id = "C13"
    rule = ("one case = one problem and a history of 4-16 steps (valid and invalid edits in every mutating spelling, "
            "sorting, orienting, heights, strategies, searches with workers, deadlines and worker faults), each step "
            "compared with a reference model and each search with a fresh problem holding the same data; non-trivial = "
            "at least one accepted and one rejected edit and one comparison")
    counts = {"quick": 15000, "thorough": 150000}

    def gen(self, rng, index, tier):
        workers = rng.choice([1, 1, 2, 3])
        case = search_case(rng, workers, "hypersearch", size="tiny")
        p = case["problem"]
        n = len(p["items"])
        p["items"] = {NAMES[i % 5]: d for i, d in enumerate(list(p["items"].values())[:5])}
        if p["mode"] == "bins":
            p["containers"] = {NAMES[i]: d for i, d in enumerate(list(p["containers"].values())[:3])}
        else:
            p["cheight"] = p["cmin"] = None
        case["call"]["pool"] = gen.pool(rng, rng.choice([1, 2, 3]))
        case["sim"]["tick_cost"] = 1e-6
        if rng.random() < 0.25:
            p["settings"]["max_time_in_seconds"] = 1
            case["sim"]["tick_cost"] = 10 ** rng.uniform(-4.5, -2)
        faults = []
        if workers > 1 and rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                faults.append({"kind": rng.choice(["kill", "raise"]), "worker": rng.randrange(workers * 3),
                               "tick": int(10 ** rng.uniform(0, 3.5)), "exc": "RuntimeError"})
        case["sim"]["faults"] = faults
        ops = case["ops"] = []
        for _ in range(rng.randint(4, 16)):
            if rng.random() < 0.12:
                ops += [rng.choice([["solve"], ["local_search"]]), near_op(rng, case), ["solve"]]
            else:
                ops.append(rand_op(rng, case))
        return case

    def run(self, case):
        res = Res()
        sim = world.Simulation(copy.deepcopy(case["sim"]), case["seed"], case.get("choices"), "coarse")
        box = {}

        def body(t):
            m = box["m"] = Machine(case, res)
            m.compare("construction")
            if m.sol():
                raise Bad("stale-solution", "a new problem has a solution")
            for n, op in enumerate(case["ops"]):
                box["op"] = (n, op)
                m.step(n, op)
        out = sim.run(body)
        res.runs = 1
        k = sim.kernel
        for f, v in k.fired.items():
            res.stat("fault:" + f, v)
        res.stat("sim_seconds", k.now)
        res.stat("outcome_" + out)
        e = sim.exc
        if isinstance(e, Bad):
            res.violation(e.cls, str(e), case)
        elif e is not None:
            if "m" not in box:
                raise e
            import traceback
            res.violation("operation-raised", f"step {box.get('op')}: {scen.describe_exc(e)} "
                          + "".join(traceback.format_tb(e.__traceback__)[-2:]), case)
        elif out != "completed":
            res.violation("no-return", f"history ended by {out} in step {box.get('op')}", case)
        m = box.get("m")
        if m is not None:
            res.stat("edits_accepted", m.accepted)
            res.stat("edits_rejected", m.rejected)
            res.stat("compared_with_fresh", m.compared)
            res.scheds.add(digest(jd(k.trace)))
            if m.accepted and m.rejected and m.compared:
                res.keys.add(digest(jd(case["ops"]), jd(case["problem"])))
            res.sample = {"problem": case["problem"], "ops": case["ops"], "sim": case["sim"]}
        return res.out()

    def sanity(self, agg, tier):
        for k in ("edits_accepted", "edits_rejected", "compared_with_fresh"):
            if not agg.get(k):
                return f"no {k}"
