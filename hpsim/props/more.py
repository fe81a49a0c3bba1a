"""C17-C19: settings in force, plugged-in local searches, packings handed out."""
import copy
import math
import os
import shutil
import tempfile

from . import search as _search, state as _state
from .. import gen, mp, oracle, scen, world
from ..base import BIG_TIME, Prop, Res, search_case
from ..scen import digest, jd
from .search import spec_dims


class Bad(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls


class History(Prop):
    """One case = one history of operations executed by one machine inside one simulation."""

    def machine(self, case, res):
        raise NotImplementedError

    def finish(self, case, res, m):
        pass

    def run(self, case):
        res = Res()
        sim = world.Simulation(copy.deepcopy(case["sim"]), case["seed"], case.get("choices"), case.get("mode", "coarse"))
        box = {}

        def body(t):
            m = box["m"] = self.machine(case, res)
            for n, op in enumerate(case["ops"]):
                box["op"] = (n, op)
                m.step(n, op)
        try:
            out = sim.run(body)
        finally:
            if "m" in box:
                box["m"].close()
        res.runs = 1
        k = sim.kernel
        for f, v in k.fired.items():
            res.stat("fault:" + f, v)
        for f, v in k.probes.items():
            if f != "process-objects":
                res.stat("probe:" + f, v)
        res.stat("sim_seconds", k.now)
        res.stat("outcome_" + out)
        e = sim.exc
        if isinstance(e, (Bad, _state.Bad)):
            res.violation(e.cls, str(e), case)
        elif e is not None:
            if "m" not in box:
                raise e
            import traceback
            res.violation("operation-raised", f"step {box.get('op')}: {scen.describe_exc(e)} "
                          + "".join(traceback.format_tb(e.__traceback__)[-2:]), case)
        elif out != "completed":
            res.violation("no-return", f"history ended by {out} in step {box.get('op')}", case)
        res.scheds.add(digest(jd(k.trace)))
        if "m" in box:
            self.finish(case, res, box["m"])
        res.sample = {k2: case[k2] for k2 in case if k2 in ("problem", "ops", "sim", "call", "toy")}
        return res.out()


# ------------------------------------------------------------------ C17
OK = {
    "rotation": [True, False],
    "max_time_in_seconds": [1, 2, 3, 5, 8, 20, BIG_TIME, BIG_TIME],
    "workers_num": [1, 1, 1, 1, 2, 3, 4, 6],
    "figure": [{}, {"show": False}, {"export": {"type": "html", "path": "DIR"}},
               {"export": {"type": "html", "path": "DIR", "file_name": "plan_1"}, "show": False}],
}
NOT_OK = {
    "rotation": ["yes", 0.5, [True]],
    "max_time_in_seconds": [0, -1, "5", 2.5, [3]],
    "workers_num": [0, -2, "two", [2]],
    "figure": ["html", {"show": "yes"}, {"export": {"type": "gif", "path": "DIR"}},
               {"export": {"type": "html", "path": "NOWHERE"}}, {"export": {"type": "html"}}, {"export": 5},
               {"export": {"type": "html", "path": "DIR", "file_name": "a b/c"}}],
}
LONE = ("rotation", "figure")       # what PointGenPack knows


def valid(d, there, lone=False):
    """Is the settings dictionary acceptable?  (only values listed above occur)"""
    if not isinstance(d, dict):
        return False
    for k, v in d.items():
        if lone and k not in LONE:
            continue
        if jd(v) in [jd(x) for x in NOT_OK.get(k, ())]:
            return False
        if k == "figure" and not there and jd(v).find('"DIR"') >= 0:
            return False
    return True


class Settings17:
    def __init__(self, case, res):
        self.case, self.res = case, res
        spec = self.spec = case["problem"]
        self.strip = spec["mode"] == "strip"
        self.lone = spec.get("cls") == "PointGenPack"
        self.dir = tempfile.mkdtemp(prefix="hpsim-c17-")
        self.there = True
        self.path = os.path.join(self.dir, "figures")
        os.mkdir(self.path)
        self.D = copy.deepcopy(spec["settings"])
        self.force = self.values(self.D)
        self.p = scen.build(dict(spec, settings=self.real(spec["settings"])))
        self.rejected = self.accepted = self.compared = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def real(self, v):
        """The settings value with the scratch paths filled in."""
        if isinstance(v, dict):
            return {k: self.real(x) for k, x in v.items()}
        return self.path if v == "DIR" else os.path.join(self.dir, "nowhere") if v == "NOWHERE" else copy.deepcopy(v)

    def model(self, v):
        """... and back; the file name filled in by validation is not looked at."""
        if isinstance(v, dict):
            return {k: self.model(x) for k, x in v.items() if not (k == "file_name" and x == "PlotlyGraph")}
        return "DIR" if v == self.path else "NOWHERE" if v == os.path.join(self.dir, "nowhere") else v

    def values(self, d):
        sub = self.spec.get("sub") or {}
        r = d.get("rotation")
        return {"rotation": sub.get("ROTATION_DEFAULT_VALUE", True) if r is None else r,
                "max_time_in_seconds": d.get("max_time_in_seconds", sub.get("MAX_TIME_IN_SECONDS_DEFAULT_VALUE", 60)),
                "workers_num": d.get("workers_num", sub.get("WORKERS_NUM_DEFAULT_VALUE", 1))}

    def attempt(self, what, fn, ok):
        sol, vals = copy.deepcopy(self.p.solution), copy.deepcopy(getattr(self.p, "obj_val_per_container", None))
        err = None
        try:
            fn()
        except mp.HarnessError:
            raise
        except Exception as e:
            err = e
        if ok and err is not None:
            raise Bad("valid-rejected", f"{what}: {scen.describe_exc(err)}")
        if not ok and err is None:
            raise Bad("invalid-accepted", f"{what} was accepted")
        if err is not None and not isinstance(err, world.hp.exceptions.SettingsError):
            raise Bad("wrong-exception", f"{what}: {scen.describe_exc(err)}")
        if jd(self.p.solution) != jd(sol) or jd(getattr(self.p, "obj_val_per_container", None)) != jd(vals):
            raise Bad("solution-changed", f"{what} changed the published solution {sol} to {self.p.solution}")
        if err is None:
            self.accepted += 1
        else:
            self.rejected += 1

    def step(self, n, op):
        p, kind = self.p, op[0]
        what = f"step {n} {op} with settings {self.D}, in force {self.force}"
        if kind == "assign":
            ok = valid(op[1], self.there, self.lone)
            v = self.real(op[1])
            self.attempt(what, lambda: setattr(p, "settings", v), ok)
            if ok:
                self.D = copy.deepcopy(op[1])
                self.force = self.values(self.D)
        elif kind == "validate":
            ok = valid(self.D, self.there, self.lone)
            self.attempt(what, p.validate_settings, ok)
            if ok:
                self.force = self.values(self.D)
        elif kind == "del":
            def rm():
                del p.settings
            self.attempt(what, rm, False)
        elif kind == "set":
            p.settings[op[1]] = self.real(op[2])
            self.D[op[1]] = copy.deepcopy(op[2])
        elif kind == "drop":
            p.settings.pop(op[1], None)
            self.D.pop(op[1], None)
        elif kind == "dir":
            if op[1] != self.there:
                (os.mkdir if op[1] else os.rmdir)(self.path)
                self.there = op[1]
        elif kind == "use":
            self.use(op[1])
        else:
            self.search(what, op)
        if jd(self.model(p.settings)) != jd(self.model(self.D)):
            raise Bad("settings-changed", f"{what}: settings are {self.model(p.settings)}, expected {self.D}")

    def use(self, how):
        """Operations that have nothing to do with the settings in force."""
        p = self.p
        if how == "report":
            p.log_solution()
        elif how == "sort":
            p.sort_items(("perimeter", False))
        else:
            import plotly.basedatatypes as b
            real = {n: getattr(b.BaseFigure, n) for n in ("write_html", "write_image", "show")}
            for n in real:
                setattr(b.BaseFigure, n, lambda *a, **kw: None)
            try:
                p.create_figure()
            except mp.HarnessError:
                raise
            except Exception:
                self.res.stat("figures_refused")    # the dictionary may hold anything by now
            finally:
                for n, v in real.items():
                    setattr(b.BaseFigure, n, v)

    def search(self, what, op):
        p, f = self.p, self.force
        call = {"solve": {"op": "solve"}, "local_search": {"op": "local_search"}, "hyper": self.case["call"]}[op[0]]
        spec = dict(self.spec, items={i: [d["w"], d["l"]] for i, d in p.items.items()}, sub=None, cheight=None, cmin=None,
                    settings={"rotation": f["rotation"]} if self.lone else dict(f))
        heights = (p.container_height, p.container_min_height)
        q = scen.build(spec)
        if self.strip:
            q.container_height = heights[0]
            if heights[1] is not None:
                q.container_min_height = heights[1]
        a = self.measure(p, call)
        b = self.measure(q, call)
        if a["exc"] or b["exc"]:
            raise Bad("search-raised", f"{what}: raised {a['exc']}; a fresh problem with the settings in force: {b['exc']}")
        self.compared += 1
        self.res.stat("compared_" + op[0])
        if a["workers"] != b["workers"]:
            raise Bad("workers", f"{what}: {a['workers']} worker processes, with the settings in force {b['workers']}")
        n = f["workers_num"]
        if op[0] == "hyper" and not self.lone and a["workers"] > (0 if n == 1 else n):
            raise Bad("workers", f"{what}: {a['workers']} worker processes with workers_num {n}")
        if op[0] == "hyper" and not self.lone and n > 1:
            # as many as it takes to share the strategies out evenly
            s = len(call["pool"])
            need = math.ceil(s / math.ceil(s / n))
            if a["workers"] < need:
                raise Bad("workers", f"{what}: {a['workers']} worker processes for {s} strategies with workers_num {n}")
        if op[0] != "hyper" or a["workers"] == 0:
            if (a["built"], jd(a["sol"])) != (b["built"], jd(b["sol"])):
                raise Bad("not-in-force", f"{what}: {a['built']} constructions, packing {a['sol']}; a fresh problem with the "
                          f"settings in force: {b['built']} constructions, {b['sol']}")
        else:
            self.res.stat("compared_multi")
            top = not self.strip and b["obj"] >= oracle.max_objective(len(spec["containers"])) - 1e-9
            if a["per"] != b["per"] and not top:
                raise Bad("not-in-force", f"{what}: constructions per worker {a['per']}; with the settings in force {b['per']}")
            if not self.strip and abs(a["obj"] - b["obj"]) > 1e-9:
                raise Bad("not-in-force", f"{what}: objective {a['obj']!r}; with the settings in force {b['obj']!r}")
        if not self.strip and not self.lone and op[0] == "hyper" and f["max_time_in_seconds"] < 100:
            self.res.stat("searches_with_a_low_limit")

    def measure(self, prob, call):
        k = mp.K
        n0, s0, t0 = len(world.RECORD.pubs), k.start_calls, k.current.time
        exc = None
        try:
            scen.do_call(prob, call)
        except mp.HarnessError:
            raise
        except Exception as e:
            exc = scen.describe_exc(e)
        pubs = [x for x in world.RECORD.pubs[n0:] if x.seq is not None]
        by = {}
        for x in pubs:
            by[x.order] = by.get(x.order, 0) + 1
        sol = copy.deepcopy(prob.solution)
        items, conts, strip = spec_dims(dict(self.spec, items={i: (d["w"], d["l"]) for i, d in prob.items.items()}))
        return {"exc": exc, "sol": sol, "built": len(pubs), "per": sorted(by.values()), "workers": k.start_calls - s0,
                "obj": oracle.objective(sol, conts, strip) if sol else None}


class C17(History):
    id = "C17"
    rule = ("one case = one problem and a history of 4-14 steps: assignments, in-place changes, removals and validations "
            "of valid and invalid settings, the export directory vanishing and coming back, and searches, each compared "
            "with a fresh problem given the settings in force by the model (packing, number of constructions within the "
            "simulated time limit, worker processes), figures, reports and sorting in between; non-trivial = a rejected change and a comparison")
    counts = {"quick": 4500, "thorough": 60000}
    assumptions = ["one construction takes one simulated second, so the number of constructions shows the time limit in force"]

    def machine(self, case, res):
        return Settings17(case, res)

    def some(self, rng, bad):
        d = {}
        for k in OK:
            if rng.random() < 0.55:
                d[k] = rng.choice(OK[k])
        if bad:
            for k in rng.sample(sorted(NOT_OK), rng.choice([1, 1, 1, 2])):
                d[k] = rng.choice(NOT_OK[k])
        ks = list(d)
        rng.shuffle(ks)
        return {k: copy.deepcopy(d[k]) for k in ks}

    def gen(self, rng, index, tier):
        case = search_case(rng, 1, "hypersearch", size=rng.choice(["tiny", "small"]))
        p = case["problem"]
        p["settings"] = self.some(rng, False)
        case["call"]["pool"] = gen.pool(rng, rng.choice([2, 3, 5, 5, 6]))
        if rng.random() < 0.25:
            p["sub"] = rng.choice([{"ROTATION_DEFAULT_VALUE": False}, {"MAX_TIME_IN_SECONDS_DEFAULT_VALUE": 7},
                                   {"WORKERS_NUM_DEFAULT_VALUE": 2},
                                   {"ROTATION_DEFAULT_VALUE": False, "MAX_TIME_IN_SECONDS_DEFAULT_VALUE": 4}])
        lone = rng.random() < 0.12
        if lone:
            p["cls"], p["sub"], p["cmin"] = "PointGenPack", None, None
        case["sim"] = {"tick_cost": 0.0, "jitter": "none", "construction_cost": 1.0, "unit": 0.0,
                       "start": rng.choice(["fork", "spawn"]), "cpu_count": rng.choice([1, 4])}
        searches = [["solve"]] if lone else [["solve"], ["local_search"], ["local_search"], ["hyper"], ["hyper"]]
        ops = case["ops"] = []
        for _ in range(rng.randint(3, 10)):
            r = rng.random()
            if r < 0.3:
                bad = rng.random() < 0.5
                ops.append(["assign", self.some(rng, bad) if rng.random() < 0.95 else rng.choice(["x", 5, [1]])])
            elif r < 0.55:
                k = rng.choice(sorted(OK))
                ops.append(["set", k, copy.deepcopy(rng.choice((NOT_OK if rng.random() < 0.4 else OK)[k]))])
                if rng.random() < 0.4:
                    ops.append(["validate"])
            elif r < 0.62:
                ops.append(["drop", rng.choice(sorted(OK))])
            elif r < 0.74:
                ops.append(["validate"])
            elif r < 0.77:
                ops.append(["del"])
            elif r < 0.83:
                ops.append(["dir", rng.random() < 0.4])
            elif r < 0.9:
                ops.append(["use", rng.choice(["figure", "figure", "report"] if lone else
                                              ["figure", "figure", "report", "sort"])])
            else:
                ops.append(rng.choice(searches))
                continue
            if rng.random() < 0.5:
                ops.append(rng.choice(searches))
        ops += [["local_search"], ["hyper"]] if not lone else [["solve"]]
        return case

    def finish(self, case, res, m):
        res.stat("changes_accepted", m.accepted)
        res.stat("changes_rejected", m.rejected)
        res.stat("compared_with_fresh", m.compared)
        if m.rejected and m.compared:
            res.keys.add(digest(jd(case["ops"]), jd(case["problem"])))

    def sanity(self, agg, tier):
        for k in ("changes_accepted", "changes_rejected", "compared_multi", "searches_with_a_low_limit"):
            if not agg.get(k):
                return f"no {k}"


# ------------------------------------------------------------------ C18
def toy_value(toy, seq):
    """The objective value of one sequence: fixed by the toy's seed, cheap, and the same everywhere."""
    return toy_integer(toy, seq) * toy.get("scale", 1)


def toy_integer(toy, seq):
    kind = toy["kind"]
    if kind == "sum":
        return sum((k + 1) * x for k, x in enumerate(seq))
    h = toy["salt"]
    for x in seq:
        h = (h * 1103515245 + 12345 + 7919 * x) % (1 << 31)
    if kind == "steps":
        return sum(abs(a - b) for a, b in zip(seq, seq[1:])) // 2
    return (h >> 7) % toy["range"]


class Boom(Exception):
    pass


def toy_class(toy, log):
    """A problem plugged into AbstractLocalSearch; every call it receives is logged."""
    Abstract = world.hp.abstract.AbstractLocalSearch

    class Toy(Abstract):
        def __init__(self):
            self.seq = list(toy["seq"])

        def tell(self, what, x=None):
            k = mp.K
            log.append((what, x, k.wall(), k.current.ticks))
            if toy.get("fail") and toy["fail"] == [what, sum(1 for e in log if e[0] == what)]:
                raise Boom(what)

        def get_init_solution(self):
            self.tell("init")
            self.seq = list(toy["seq"])
            mp.K.current.time += toy["init_cost"]
            return self.get_solution()

        def calculate_obj_value(self):
            return toy_value(toy, self.seq)

        def get_solution(self):
            self.tell("get", tuple(self.seq))
            return ("packing", tuple(self.seq))

        def evaluate_node(self, sequence):
            self.seq = list(sequence)
            mp.K.current.time += toy["cost"]
            self.tell("eval", tuple(sequence))

    d = {}
    if toy["opt"] != "MAX" or toy["explicit"]:
        d["OPTIMIZATION"] = toy["opt"]
    if toy["cap"] is not None:
        d["MAX_NEIGHBORS_THROTTLE"] = toy["cap"]
    if toy["optimum"] is not None:
        d["get_optimum_objective_val"] = lambda self: toy["optimum"]
    if "init" in toy["hooks"]:
        d["init_operations"] = lambda self: self.tell("init_operations")
    if "extra" in toy["hooks"]:
        d["extra_node_operations"] = lambda self: self.tell("extra", tuple(self.seq))
    if toy["guard"] is not None:
        # the plugged-in problem has a condition of its own for accepting a node
        def compare_node(self, new, best):
            return Abstract.compare_node(self, new, best) and self.seq[0] != toy["guard"]
        d["compare_node"] = compare_node
    return type("Toy", (Toy,), d)


class C18(Prop):
    id = "C18"
    rule = ("one case = one random toy problem (objective over sequences, maximised or minimised, own optimum, neighbour "
            "cap, acceptance condition and hooks) plugged into AbstractLocalSearch and run with the limit at a random "
            "instant of the simulated clock and with failures of the plug-in; the recorded calls are compared with the "
            "first-improvement hill climb; non-trivial = more than two neighbours evaluated")
    counts = {"quick": 30000, "thorough": 300000}
    real = ["hyperpack.abstract"]
    stubs = ["time: simulated clock", "the plugged-in problem"]

    def gen(self, rng, index, tier):
        n = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 10, 12])
        if index % 150 == 31:
            n = rng.choice([13, 17, 20, 33, 50, 71, 72, 73, 80, 110])
        kind = rng.choice(["hash", "hash", "sum", "steps"] if n < 13 else ["hash"])
        seq = [rng.randint(0, 9) for _ in range(n)] if rng.random() < 0.3 else rng.sample(range(20 if n < 20 else 150), n)
        toy = {"kind": kind, "salt": rng.randrange(1 << 30), "range": rng.choice([2, 3, 10, 1000, 10 ** 6]), "seq": seq,
               "opt": rng.choice(["MAX", "MAX", "MIN"]), "explicit": rng.random() < 0.5,
               "cap": rng.choice([None, None, 1, 2, 3, 5, 8, 10, 15]),
               "cost": rng.choice([0.0, 0.1, 1.0, 1.0, 2.5]), "init_cost": rng.choice([0.0, 0.0, 1.0, 30.0]),
               "hooks": [h for h in ("init", "extra") if rng.random() < 0.5],
               "scale": rng.choice([1, 1, 1, 0.001, 1e-9, 1e-13, 1e6, -1, -1 / 3]),
               "guard": rng.choice(seq) if seq and rng.random() < 0.2 else None, "optimum": None, "fail": None}
        if rng.random() < 0.35:
            # an optimum that may be met: the value of some sequence near by
            vals = []
            for _ in range(rng.choice([1, 3, 10, 30])):
                s = list(seq)
                for _ in range(rng.randint(0, 4)):
                    if n > 1:
                        i, j = rng.sample(range(n), 2)
                        s[i], s[j] = s[j], s[i]
                vals.append(toy_value(toy, s))
            toy["optimum"] = (max if toy["opt"] == "MAX" else min)(vals)
        if rng.random() < 0.15:
            toy["fail"] = [rng.choice(["eval", "eval", "get", "init", "extra", "init_operations"]), rng.choice([1, 1, 2, 3, 7, 20])]
        return {"toy": toy, "throttle": rng.random() < 0.7, "debug": rng.random() < 0.4,
                "limit": rng.choice([0, 0.05, 1, 3, 5, 10, 20, 50, 100, 10 ** 6, 10 ** 6, 10 ** 6, 10 ** 6]),
                "started": rng.choice([0, 0, 0, 0, 5, 100]),
                "sim": {"tick_cost": 0.0, "jitter": "none", "clock_base": rng.choice([0.0, 1_700_000_000.0]),
                        "max_ticks": 10 ** 8}}

    def shrink(self, case):
        t = case["toy"]
        for i in range(len(t["seq"])):
            yield dict(case, toy=dict(t, seq=t["seq"][:i] + t["seq"][i + 1:]))
        for k in ("cap", "optimum", "guard", "fail"):
            if t[k] is not None:
                yield dict(case, toy=dict(t, **{k: None}))
        if t["hooks"]:
            yield dict(case, toy=dict(t, hooks=[]))
        if t.get("scale", 1) != 1:
            yield dict(case, toy=dict(t, scale=1))
        for k in ("debug", "started"):
            if case[k]:
                yield dict(case, **{k: type(case[k])(0)})

    def run(self, case):
        res = Res()
        toy = case["toy"]
        log = []
        sim = world.Simulation(copy.deepcopy(case["sim"]), case["seed"], case.get("choices"), "coarse")
        box = {}

        def body(t):
            p = toy_class(toy, log)()
            k = mp.K
            t.time += 1000.0
            box["begin"] = k.wall() - case["started"]
            seq = box["seq"] = list(toy["seq"])
            try:
                box["ret"] = p.local_search(seq, case["throttle"], box["begin"], case["limit"], debug=case["debug"])
            except mp.HarnessError:
                raise
            except BaseException as e:
                box["exc"] = e
            box["end"] = k.wall()
        out = sim.run(body)
        res.runs = 1
        res.stat("sim_seconds", sim.kernel.now)
        if sim.exc is not None:
            raise sim.exc
        if out != "completed":
            res.violation("no-end", f"the local search did not end ({out})", case)
            return res.out()
        e = self.judge(case, toy, log, box, res)
        if e:
            res.violation(e[0], e[1] + f"; toy {toy}, calls {[(a, b, round(c - box['begin'], 6)) for a, b, c, _ in log][:60]}", case)
        n = sum(1 for x in log if x[0] == "eval")
        res.stat("neighbours", n)
        if n > 2:
            res.keys.add(digest(jd([x[:2] for x in log]), jd(toy), jd(case["limit"])))
        res.sample = {k2: case[k2] for k2 in ("toy", "throttle", "limit")}
        return res.out()

    def judge(self, case, toy, log, box, res):
        sign = 1 if toy["opt"] == "MAX" else -1
        val = lambda s: toy_value(toy, s)
        n = len(toy["seq"])
        exc = box.get("exc")
        if box["seq"] != toy["seq"]:
            return "sequence-changed", f"the caller's sequence became {box['seq']}"
        fired = toy["fail"] and sum(1 for x in log if x[0] == toy["fail"][0]) >= toy["fail"][1]
        if fired:
            res.stat("fault:plug-in-failure")
            if not isinstance(exc, Boom):
                return "failure-swallowed", f"the plug-in's exception became {scen.describe_exc(exc)}, returned {box.get('ret')}"
            return None
        if exc is not None:
            return "raised", scen.describe_exc(exc)
        full = n * (n - 1) // 2
        cap = toy["cap"] if toy["cap"] is not None else 2500
        cap = min(cap, full) if case["throttle"] else full
        best = tuple(toy["seq"])
        won = lambda v: toy["optimum"] is not None and sign * v >= sign * toy["optimum"]
        node, count, seen = best, 0, set()
        ended = "optimum" if won(val(best)) else None
        stop = box["begin"] + case["limit"]
        late = improved = 0
        accepted = []
        evals = [x for x in log if x[0] == "eval"]
        for _, s, at, _t in evals:
            if ended == "optimum":
                return "continues-after-optimum", f"evaluated {s} after the optimum had been reached"
            diff = [i for i in range(n) if s[i] != node[i]]
            if len(diff) not in (0, 2) or sorted(s) != sorted(node):
                return "not-a-neighbour", f"evaluated {s}, which is no exchange of two elements of the node {node}"
            if len(set(toy["seq"])) == n:
                if not diff or s in seen:
                    return "neighbour-repeated", f"evaluated {s} twice in one node {node}"
                seen.add(s)
            count += 1
            if count > cap:
                return "too-many-neighbours", f"{count} neighbours of the node {node}, at most {cap} may be evaluated"
            if at - toy["cost"] > stop + 1e-9:
                late += 1
                if late > 1:
                    return "late-work", f"{late} neighbours evaluated after the limit"
            if sign * val(s) > sign * val(best) and (toy["guard"] is None or s[0] != toy["guard"]):
                best = node = s
                count, seen = 0, set()
                improved += 1
                accepted.append(s)
                if won(val(s)):
                    ended = "optimum"
        if box["ret"] != ("packing", best):
            return "best-lost", f"returned {box['ret']}, the best accepted is {best} of {val(best)}"
        for h, want in (("extra", accepted), ):
            if h in toy["hooks"]:
                got = [x[1] for x in log if x[0] == h]
                if got != want:
                    return "hook-extra", f"extra_node_operations was called at {got}, new nodes were {want}"
        if "init" in toy["hooks"]:
            pos = [i for i, x in enumerate(log) if x[0] == "init_operations"]
            first = [i for i, x in enumerate(log) if x[0] == "eval"]
            if len(pos) != 1 or (first and pos[0] > first[0]):
                return "hook-init", f"init_operations was called at positions {pos} of the calls"
        gets = {x[1] for x in log if x[0] == "get"}
        if not set(accepted) <= gets:
            return "not-retained", "the solution of a new node was not taken from the plug-in"
        if ended is None and box["end"] < stop - 1e-9:
            if count < cap:
                return "stopped-early", f"ended after {count} of {cap} neighbours of {node} without limit or optimum"
            if cap == full:
                res.stat("local_optima")
        res.stat("ended_by_" + (ended or ("limit" if box["end"] >= stop - 1e-9 else "neighbourhood")))
        res.stat("improvements", improved)
        return None

    def sanity(self, agg, tier):
        for k in ("ended_by_optimum", "ended_by_limit", "ended_by_neighbourhood", "local_optima", "fault:plug-in-failure"):
            if not agg.get(k):
                return f"no {k}"


# ------------------------------------------------------------------ C19

def image(o):
    """What the caller sees of an object handed out, order included."""
    if isinstance(o, dict) or hasattr(o, "items") and hasattr(o, "keys"):
        return [[k, image(o[k])] for k in o]
    if isinstance(o, (list, tuple)):
        return [image(x) for x in o]
    return o


def reach(q, o):
    """Whether the object belongs to what the problem publishes."""
    for name in ("solution", "obj_val_per_container", "best_strategy"):
        x = getattr(q, name, None)
        if x is o or name == "solution" and isinstance(x, dict) and any(v is o for v in x.values()):
            return True
    return False


class Kept19(_state.Machine):
    def __init__(self, case, res):
        self.faults = None
        self.arm(False)         # interrupts strike inside operations, not in the bookkeeping of this class
        super().__init__(case, res)
        self.kept = []          # [name, object, image, step]
        self.interrupts = self.scribbles = 0

    def close(self):
        pass

    def arm(self, on):
        t = mp.K.current
        if on == (self.faults is None):
            return
        if on:
            t.fault_ticks, self.faults = self.faults, None
        else:
            self.faults, t.fault_ticks = t.fault_ticks, []
        mp.K._set_stop(t)

    def collect(self, n):
        for name in ("solution", "obj_val_per_container", "best_strategy"):
            o = getattr(self.p, name, None)
            if o is None or isinstance(o, (str, int, float)) or not len(o):
                continue
            if not any(k[1] is o for k in self.kept):
                self.kept.append([name, o, image(o), n])
                if name == "solution":
                    for c in o:
                        self.kept.append([f"solution[{c!r}]", o[c], image(o[c]), n])

    def verify(self, what):
        for name, o, im, n in self.kept:
            if image(o) != im:
                raise Bad("handed-out-changed", f"{what}: the {name} handed out after step {n} was {im}, is now {image(o)}")
        self.res.stat("objects_verified", len(self.kept))

    def step(self, n, op):
        what = f"step {n} {op}"
        k = mp.K
        if op[0] == "scribble":
            if self.kept:
                self.scribble(op, what)
            return
        f0 = sum(k.fired.values())
        log = op[0] == "log"
        if log and not (self.sol() and not self.dirty()):
            return
        try:
            self.arm(True)
            self.p.log_solution() if log else super().step(n, op)
            self.arm(False)
        except KeyboardInterrupt:
            self.arm(False)
            if sum(k.fired.values()) == f0:
                raise
            self.interrupts += 1
            self.model = {T: _state.plain(getattr(self.p, T)) for T in ("items", "containers")}
        self.collect(n)
        self.verify(what)

    def dirty(self):
        cur = {id(self.p.solution), id(getattr(self.p, "obj_val_per_container", None))}
        return bool(cur & getattr(self, "touched", set()))

    def scribble(self, op, what):
        _, which, how = op
        cand = [k for k in self.kept if k[0] != "best_strategy"] if which < 3 else self.kept
        if which == 0:
            cand = [k for k in self.kept if k[1] is self.p.solution] or cand
        rec = cand[-1 - which % len(cand)]
        o = rec[1]
        self.scribbles += 1
        try:
            if isinstance(o, list):
                o.reverse() if how != "clear" else o.clear()
            elif how == "clear":
                o.clear()
            elif how == "pop":
                o.popitem()
            elif how == "junk":
                o["no-such-thing"] = {"x": [0, 0, 1, 1]} if rec[0] == "solution" else [0, 0, 1, 1]
            else:
                v = o[next(iter(o))] if len(o) else None
                if isinstance(v, list):
                    v[0] = v[0] + 1
                elif isinstance(v, dict) and v:
                    v.pop(next(iter(v)))
                elif isinstance(v, float):
                    o[next(iter(o))] = 0.123
        except (TypeError, AttributeError, KeyError):
            return              # handed out read-only: nothing to scribble on
        # a problem set aside may publish that very packing: it has been altered by the caller, not through this problem
        self.aside = [(made, q, _state.observed(q)) if reach(q, o) and not reach(self.p, o) else (made, q, was)
                      for made, q, was in self.aside]
        self.touched = getattr(self, "touched", set()) | {id(r[1]) for r in self.kept if r[3] == rec[3]}
        # what the caller did to its own object is not an alteration; objects of other steps must not have followed
        for r in self.kept:
            if r[3] == rec[3]:
                r[2] = image(r[1])
        self.verify(what)


class C19(History):
    id = "C19"
    rule = ("one case = one problem and a history of 5-16 searches, edits, sortings, reports, interrupts, worker failures and "
            "deadlines; every packing, figures and strategy object handed out is kept and compared after every later step, "
            "and the caller scribbles on some of them; later searches are compared with a fresh problem; non-trivial = two "
            "packings kept and a comparison")
    counts = {"quick": 9000, "thorough": 120000}

    def machine(self, case, res):
        return Kept19(case, res)

    def gen(self, rng, index, tier):
        case = _state.C13().gen(rng, index, tier)
        ops = []
        for _ in range(rng.randint(5, 14)):
            r = rng.random()
            if r < 0.45:
                ops.append(rng.choice([["solve"], ["local_search"], ["local_search"], ["hyper"], ["hyper"]]))
            elif r < 0.62:
                ops.append(["scribble", rng.choice([0, 0, 1, 2, 3, 5]), rng.choice(["clear", "pop", "junk", "value", "value"])])
            elif r < 0.68:
                ops.append(["log"])
            else:
                ops.append(_state.rand_op(rng, case))
        ops.append(rng.choice([["solve"], ["local_search"], ["hyper"]]))
        case["ops"] = ops
        if rng.random() < 0.3:
            case["sim"]["faults"] = case["sim"]["faults"] + [
                {"kind": "raise", "exc": "KeyboardInterrupt", "worker": None, "tick": int(10 ** rng.uniform(2.5, 5))}
                for _ in range(rng.choice([1, 1, 2]))]
        return case

    def finish(self, case, res, m):
        res.stat("interrupts_survived", m.interrupts)
        res.stat("scribbles", m.scribbles)
        res.stat("compared_with_fresh", m.compared)
        if sum(1 for k in m.kept if k[0] == "solution") > 1 and m.compared:
            res.keys.add(digest(jd(case["ops"]), jd(case["problem"])))

    def sanity(self, agg, tier):
        for k in ("objects_verified", "scribbles", "compared_with_fresh", "interrupts_survived"):
            if not agg.get(k):
                return f"no {k}"


# ------------------------------------------------------------------ C20
class C20(_search.Search):
    id = "C20"
    rule = ("one case = one multi-process hypersearch with varied result sizes and pipe capacities; in every variant the "
            "main process is killed - at a random instruction, between two process starts, while waiting for a result or "
            "joining - alone or with workers failing, stalled or out of time; every started worker must end; "
            "non-trivial = workers were alive when the main process died")
    counts = {"quick": 3000, "thorough": 60000}

    def gen(self, rng, index, tier):
        workers = rng.choice([2, 2, 3, 3, 4, 6])
        case = search_case(rng, workers, "hypersearch", size="tiny" if rng.random() < 0.7 else None, crowd=0.02)
        if rng.random() < 0.6:
            _search.long_ids(rng, case["problem"])
            case["sim"]["pipe_cap"] = rng.choice([4096, 4096, 8192, 65536])
        w = min(workers, len(case["call"]["pool"]))
        case["check_base"] = False
        for n in range(1, rng.choice([3, 4, 5])):
            f = {"kind": "kill", "worker": None}
            if rng.random() < 0.4:
                f["frac"] = round(rng.random(), 4)
            else:
                f["opfrac"] = [rng.choice(["start", "started", "read", "read", "join", "close", "shm", None]),
                               round(rng.random(), 4)]
            v = {"n": n, "faults": [f]}
            r = rng.random()
            if r < 0.2:
                v["faults"] += _search.fault_variant(rng, n, w)["faults"]
            elif r < 0.35:
                v["deadline"] = _search.deadline_variant(rng, n)["deadline"]
            elif r < 0.6:
                v["sim"] = _search.sched_variant(rng, n, workers)["sim"]
            case["variants"].append(v)
        case["mode"] = rng.choice(["coarse", "coarse", "async"])
        return case

    def nontrivial(self, tr):
        d = tr.kernel.root.end_time
        return d is not None and any(p.end_time is None or p.end_time > d for p in tr.procs)

    def check(self, tr, base, case, res, variant):
        root = tr.kernel.root
        if root.alive:
            res.stat("returned_before_the_kill")
            return
        left = [p for p in tr.procs if p.alive]
        if tr.outcome != "deadlock":    # that is: nothing left to run
            res.violation("runaway", f"run ended by {tr.outcome} long after the main process had died; workers left "
                          f"{[(p.order, p.run_state) for p in left]}", case, tr)
        elif left:
            res.violation("orphan", f"main process killed at {root.end_time}; workers left waiting for ever: "
                          f"{[(p.order, p.run_state) for p in left]}, {tr.blocked}; faults {dict(tr.fired)}", case, tr)
        else:
            res.stat("all_workers_ended")
            res.stat("workers_outliving_main", sum(1 for p in tr.procs if p.end_time > root.end_time))

    def sanity(self, agg, tier):
        for k in ("all_workers_ended", "workers_outliving_main", "probe:pipe-full"):
            if not agg.get(k):
                return f"{k} never happened"
