"""C14: problems in several caller threads, after other histories and under other hash seeds."""
import copy
import gc
import json
import logging
import os
import subprocess
import sys

from .. import driver, gen, mp, oracle, scen, world
from ..base import BIG_TIME, Prop, Res, shrink_problem, shrink_sim
from ..scen import digest, jd

OPS = ["solve", "local_search", "local_search", "hypersearch", "hypersearch", "sort", "orient", "log", "edit", "edit",
       "del", "assign", "strategy", "settings", "height", "reset", "copy"]


def rand_ops(rng, spec, pool, n):
    items = list(spec["items"])
    out = []
    for _ in range(n):
        op = rng.choice(OPS)
        if op in ("solve", "log", "reset", "copy"):
            o = [op]
        elif op == "local_search":
            o = [op, rng.random() < 0.7]
        elif op == "hypersearch":
            o = [op, rng.random() < 0.7, rng.choice(["wide", "long", None]),
                 rng.choice([["area", True], ["perimeter", False], ["longest_side_ratio", True], None])]
        elif op == "sort":
            o = [op, rng.choice([["area", True], ["perimeter", False], ["longest_side_ratio", True]])]
        elif op == "orient":
            o = [op, rng.choice(["wide", "long"])]
        elif op == "edit":
            o = [op, rng.choice(items + ["new"]), rng.randint(1, 5), rng.randint(1, 5)]
        elif op == "del":
            o = [op, rng.choice(items)]
        elif op == "assign":
            o = [op, {i: [rng.randint(1, 5), rng.randint(1, 5)] for i in items[:rng.randint(1, len(items))]}]
        elif op == "strategy":
            o = [op, gen.strategy(rng)]
        elif op == "settings":
            o = [op, {"rotation": rng.random() < 0.5, "workers_num": 1, "max_time_in_seconds": BIG_TIME}]
        else:
            o = [op, rng.randint(3, 30)]
        out.append(o)
    return out


def program(rng, pool, workers=1, sub=True, n=None, size="tiny"):
    st = {"workers_num": workers, "max_time_in_seconds": BIG_TIME}
    spec = gen.problem(rng, None, size, None, None, st)
    if sub and rng.random() < 0.25:
        spec["sub"] = {"ROTATION_DEFAULT_VALUE": rng.random() < 0.5}
        spec["settings"].pop("rotation", None)
    if rng.random() < 0.3:
        spec["strategy"] = gen.strategy(rng)
    ops = rand_ops(rng, spec, pool, n or rng.randint(2, 5))
    if not any(o[0] in ("solve", "local_search", "hypersearch") for o in ops):
        ops.append(["local_search", True])
    return {"problem": spec, "ops": ops}


def objective_only(prog):
    return (prog["problem"]["settings"].get("workers_num") or 1) > 1


def view(p, prog, exc, value=None):
    if exc is not None:
        out = [scen.describe_exc(exc)]
    else:
        out = [value if isinstance(value, str) else None]
    sol = getattr(p, "solution", None) or {}
    vals = dict(getattr(p, "obj_val_per_container", None) or {})
    items = [[i, p.items[i]["w"], p.items[i]["l"]] for i in p.items]
    conts = [[c, p.containers[c]["W"]] for c in p.containers]
    if objective_only(prog):
        o = round(oracle.obj_of_vals(vals), 9) if vals and sol else None
        return ["objective" if exc is None else out[0], o, items, conts]
    return out + [[[c, [[i, list(r)] for i, r in d.items()]] for c, d in sol.items()], [[c, v] for c, v in vals.items()], items, conts,
                  list(p.potential_points_strategy), jd(getattr(p, "best_strategy", None)), p.container_height, p.container_min_height,
                  copy.deepcopy(p.settings)]


LOUD = False


def perform(p, op):
    kind = op[0]
    if LOUD and kind == "solve":
        return p.solve(debug=True)
    if LOUD and kind == "local_search":
        return p.local_search(throttle=op[1], debug=True)
    if kind in ("solve", "log"):
        if kind == "log" and not p.solution:
            return None
        return scen.do_call(p, {"op": kind})
    if kind == "local_search":
        return p.local_search(throttle=op[1])
    if kind == "hypersearch":
        return p.hypersearch(throttle=op[1], orientation=op[2], sorting_by=tuple(op[3]) if op[3] else None, _exhaustive=False)
    if kind == "sort":
        return p.sort_items(tuple(op[1]))
    if kind == "orient":
        return p.orient_items(op[1])
    if kind == "edit":
        p.items[op[1]] = {"w": op[2], "l": op[3]}
    elif kind == "del":
        if op[1] in p.items and len(p.items) > 1:
            del p.items[op[1]]
    elif kind == "assign":
        p.items = {i: {"w": d[0], "l": d[1]} for i, d in op[1].items()}
    elif kind == "strategy":
        p.potential_points_strategy = tuple(op[1])
    elif kind == "settings":
        p.settings = dict(op[1])
    elif kind == "height":
        p.container_height = op[1]
    elif kind == "reset":
        p.reset_container_height()
    elif kind == "copy":
        copy.deepcopy(p.solution)


def run_program(prog, out):
    """Executes one program; appends what can be observed after each operation to `out`."""
    p = scen.build(copy.deepcopy(prog["problem"]))
    out.append(view(p, prog, None))
    for op in prog["ops"]:
        if objective_only(prog) and op[0] in ("log", "solve", "local_search", "height"):
            continue
        exc = value = None
        try:
            value = perform(p, op)
        except mp.HarnessError:
            raise
        except Exception as e:
            exc = e
        out.append(view(p, prog, exc, value))
    return p


def solo(prog, case, mode):
    sim = world.Simulation({k: v for k, v in case["sim"].items() if k != "preempt"}, case["seed"], [], mode)
    out = []
    res = sim.run(lambda t: out.append(view(run_program(prog, out), prog, None)))
    if sim.exc is not None:
        out.append("raised " + scen.describe_exc(sim.exc))
    return {"out": out, "outcome": res}


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            d = jd(fn()).encode()
            while d:
                d = d[os.write(w, d[:65536]):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise mp.HarnessError("a solo run ended without a result")
    return json.loads(buf)


class C14(Prop):
    id = "C14"
    rule = ("threads: 2-4 caller threads, each creating, editing and solving its own problem, preempted at seeded lines; "
            "history: one program after 1-6 programs of other problems; both compared with the same program run alone in a "
            "pristine process; hash: the same programs in interpreters with different hash seeds, incl. deadlines counted in "
            "constructions; non-trivial = two or more programs that searched")
    counts = {"quick": 2700, "thorough": 40000}
    assumptions = ["caller threads are preempted between source lines of hyperpack code (each C call is atomic)",
                   "multi-process searches inside threads are compared by objective value only",
                   "the addresses of dead problems are claimed from the real allocator (found in 95 of 100 cases)"]

    def gen(self, rng, index, tier):
        if index % 60 == 7:
            return self.gen_hash(rng)
        pool = gen.pool(rng, rng.choice([1, 2, 3]))
        kind = rng.choice(["threads", "threads", "history"])
        n = rng.choice([2, 2, 3, 4]) if kind == "threads" else rng.randint(2, 5)
        progs = []
        for i in range(n):
            r = rng.random()
            if progs and r < (0.3 if kind == "threads" else 0.5):      # the same problem again (other object), sometimes with other dimensions
                q = copy.deepcopy(rng.choice(progs))
                r = rng.random()
                if r < 0.35 and q["problem"]["mode"] == "bins":
                    for d in q["problem"]["containers"].values():
                        d[rng.randrange(2)] = rng.randint(2, 9)
                elif r < 0.35:
                    q["problem"]["strip"] += rng.choice([1, 2, 3])
                elif r < 0.7:
                    for d in q["problem"]["items"].values():
                        if rng.random() < 0.5:
                            d[0] = rng.randint(1, 6)
                if rng.random() < 0.4 and not objective_only(q):
                    q["problem"]["settings"]["rotation"] = rng.random() < 0.5
                if rng.random() < 0.5:
                    q["ops"] = rand_ops(rng, q["problem"], pool, rng.randint(1, 3)) + q["ops"][-1:]
                progs.append(q)
            else:
                size = rng.choice(["tiny"] * 6 + (["small"] if kind == "threads" else ["small", "small", "small", "mid"]))
                progs.append(program(rng, pool, rng.choice([2, 3]) if r > 0.9 else 1, size=size))
        sim = gen.knobs(rng, 3)
        sim.pop("start_delay", None)
        sim["tick_cost"] = 1e-6
        sim["max_ticks"] = 10 ** 8
        sim["max_events"] = 10 ** 7
        if kind == "threads":
            sim["preempt"] = rng.choice([1, 3, 10, 10, 30, 100, 300, 1000])
            if rng.random() < 0.25 and not any(objective_only(q) for q in progs):
                # limits that are reached: the constructions take the time, each thread has its own
                sim = {"tick_cost": 0.0, "jitter": "none", "construction_cost": 0.93, "unit": 0.0, "parallel": True,
                       "preempt": sim["preempt"], "max_ticks": 10 ** 8, "max_events": 10 ** 7}
                for q in progs:
                    q["problem"]["settings"]["max_time_in_seconds"] = rng.choice([1, 2, 3, 5, 8, 13])
                    if rng.random() < 0.6:
                        hyper = ["hypersearch", True, rng.choice(["wide", None]), ["area", True]]
                        q["ops"] = q["ops"][-2:] + [hyper] * rng.choice([1, 2])
                pool = gen.pool(rng, 6)
        return {"kind": kind, "programs": progs, "pool": pool, "sim": sim, "loud": rng.random() < 0.15,
                "recycle": kind == "history" and rng.random() < 0.6}

    def gen_hash(self, rng):
        progs = []
        for _ in range(8):
            q = program(rng, None, n=2)
            if rng.random() < 0.6:
                # the whole pool of strategies, cut short after a number of constructions
                q["ops"] = [["exhaustive", rng.choice(["wide", None]), rng.choice([["area", True], None])]]
                q["problem"]["settings"]["max_time_in_seconds"] = rng.choice([3, 20, 100])
                q["problem"]["settings"]["workers_num"] = rng.choice([1, 1, 2])
                if q["problem"]["settings"]["workers_num"] > 1:
                    q["problem"]["settings"]["max_time_in_seconds"] = 6
            progs.append(q)
        hs = [str(rng.randint(1, 4294967295)) for _ in range(3)]
        return {"kind": "hash", "programs": progs, "pool": gen.pool(rng, 3), "hashseeds": ["0"] + hs,
                "sim": {"tick_cost": 0.0, "jitter": "none", "construction_cost": 1.0, "unit": 0.0}}

    # -------------------------------------------------------------- running
    def run(self, case):
        res = Res()
        if case["kind"] == "hash":
            self.run_hash(case, res)
            return res.out()
        scen.set_pool(case["pool"])
        progs = case["programs"]
        mode = "line" if case["kind"] == "threads" else "coarse"
        alone = [forked(lambda p=p: solo(p, case, "coarse")) for p in progs]
        res.runs += len(progs)
        if case.get("loud"):
            # the observed run logs everything, the solo runs did not
            global LOUD
            LOUD = True
            for n in ("hyperpack", "pointgenpack"):
                logging.getLogger(n).setLevel(logging.DEBUG)
            res.stat("runs_with_debug_logging")
        outs = [[] for _ in progs]
        sim = world.Simulation(dict(copy.deepcopy(case["sim"]), rseed=case["seed"]), case["seed"], case.get("choices"), mode)
        k = sim.kernel
        objs = [None] * len(progs)

        def one(i):
            try:
                objs[i] = run_program(progs[i], outs[i])
            except mp.HarnessError:
                raise
            except BaseException as e:
                outs[i].append("raised " + scen.describe_exc(e))

        def body(t):
            if case["kind"] == "history":
                for i in range(len(progs)):
                    one(i)
                    if case.get("recycle") and objs[i] is not None:
                        # this problem ceases to exist, the next one takes its place in memory
                        outs[i].append(view(objs[i], progs[i], None))
                        world.RECORD.owner_refs.clear()
                        world.RECORD.owners.clear()
                        scen.recycle(objs, i)
                        res.stat("fault:address-reuse")
                return last()
            ts = []
            for i in range(len(progs)):
                c = k.spawn_task(k.root, f"thread-{i}", lambda t, i=i: one(i), time=k.choices.below(1000) * 1e-9)
                c.quantum = 1 + k.choices.below(2 * k.preempt)
                k._set_stop(c)
                ts.append(c)
            for c in ts:
                while c.state != "dead":
                    c.joiners.append(t)
                    k.block("thread")
            last()

        def last():
            scen.RECYCLE = None
            for i, p in enumerate(objs):
                if p is not None:
                    outs[i].append(view(p, progs[i], None))
        try:
            outcome = sim.run(body)
        finally:
            scen.RECYCLE = None
        res.runs += 1
        if sim.exc is not None:
            raise sim.exc
        for f, v in k.fired.items():
            res.stat("fault:" + f, v)
        pre = sum(1 for x in k.trace if x[0] == "P")
        if case["kind"] == "threads":
            res.stat("fault:preemption", pre)
            res.scheds.add(digest(jd(k.trace)))
            res.stat("threads_under_time_limits", bool(case["sim"].get("parallel")))
        else:
            res.stat("histories")
        res.stat("sim_seconds", k.now)
        res.stat("outcome_" + outcome)
        if outcome != "completed":
            if all(a["outcome"] == "completed" for a in alone):
                res.violation("no-return", f"programs that return when run alone ended in {outcome}", case)
            return res.out()
        searched = 0
        for i, (a, b) in enumerate(zip(alone, outs)):
            b = json.loads(jd(b))
            searched += any(o[0] in ("solve", "local_search", "hypersearch") for o in progs[i]["ops"])
            if a["outcome"] != "completed":
                continue
            if a["out"] != b:
                n = next((j for j, (x, y) in enumerate(zip(a["out"], b)) if x != y), min(len(a["out"]), len(b)))
                x = a["out"][n] if n < len(a["out"]) else None
                y = b[n] if n < len(b) else None
                op = progs[i]["ops"][n - 1] if 0 < n <= len(progs[i]["ops"]) else "creation"
                res.violation("influenced-" + case["kind"],
                              f"program {i}, after step {n} ({op}): alone {jd(x)}, with the others {jd(y)}", case)
                break
            res.stat("programs_compared")
        if searched > 1:
            res.keys.add(digest(jd(case["programs"]), jd(k.trace)))
        res.sample = {"kind": case["kind"], "programs": progs[:2], "sim": case["sim"], "preemptions": pre,
                      "observed": outs[0][-1] if outs[0] else None}
        return res.out()

    # -------------------------------------------------------------- hash randomisation
    def run_hash(self, case, res):
        outs = []
        for hs in case["hashseeds"]:
            env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, sys.argv[1]); "
                                "from hpsim.props import conc; conc.hash_main()", driver.ROOT],
                               input=json.dumps({k: v for k, v in case.items() if k != "hashseeds"}).encode(), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
            if r.returncode:
                raise mp.HarnessError("hash run: " + r.stderr.decode()[-2000:])
            outs.append(json.loads(r.stdout))
            res.runs += len(case["programs"])
            res.stat("interpreters")
        res.stat("hash_cases")
        for n, o in enumerate(outs[1:], 1):
            for i, (a, b) in enumerate(zip(outs[0], o)):
                if a != b:
                    res.violation("hash-seed", f"program {i} ({case['programs'][i]['ops']}) with hash seed {case['hashseeds'][0]}: "
                                  f"{jd(a)[-700:]}; with {case['hashseeds'][n]}: {jd(b)[-700:]}",
                                  dict(case, programs=[case["programs"][i]], hashseeds=["0", case["hashseeds"][n]]))
                    return
            res.stat("hash_comparisons", len(o))
        res.keys.add(digest(jd(case["programs"]), jd(case["hashseeds"])))

    def shrink(self, case):
        ps = case["programs"]
        if case.get("loud"):
            yield dict(case, loud=False)
        for i in range(len(ps)):
            if len(ps) > 1:
                yield dict(case, programs=ps[:i] + ps[i + 1:])
        if case.get("choices") is None and case["kind"] == "threads":
            for c in (1, 10, 1000):
                if case["sim"].get("preempt") != c:
                    yield dict(case, sim=dict(case["sim"], preempt=c))
        for i, q in enumerate(ps):
            for j in range(len(q["ops"])):
                yield dict(case, programs=ps[:i] + [dict(q, ops=q["ops"][:j] + q["ops"][j + 1:])] + ps[i + 1:])
            for p in shrink_problem(q["problem"]):
                yield dict(case, programs=ps[:i] + [dict(q, problem=p)] + ps[i + 1:])
        if len(case["pool"]) > 1:
            yield dict(case, pool=case["pool"][:1])
        for s in shrink_sim(case["sim"]):
            yield dict(case, sim=s)

    def sanity(self, agg, tier):
        for k in ("programs_compared", "fault:preemption", "histories", "hash_comparisons", "threads_under_time_limits"):
            if not agg.get(k):
                return f"no {k}"


def hash_main():
    """One interpreter of a hash case: stdin case, stdout what each program did."""
    world.boot()
    case = json.load(sys.stdin)
    scen.set_pool(case["pool"])
    out = []
    for prog in case["programs"]:
        def one(prog=prog):
            ops = prog["ops"]
            if ops and ops[0][0] == "exhaustive":
                got = []
                sim = world.Simulation(dict(case["sim"]), 1, [], "coarse")

                def body(t):
                    p = scen.build(prog["problem"])
                    p.hypersearch(orientation=ops[0][1], sorting_by=tuple(ops[0][2]) if ops[0][2] else None)
                    got.append(view(p, prog, None))
                    if not objective_only(prog):
                        got.append(sorted({jd(x.strategy) for x in sim.recorder.pubs}))
                r = sim.run(body)
                if sim.exc is not None:
                    got.append(scen.describe_exc(sim.exc))
                return [r, got]
            return solo(prog, {"sim": {"jitter": "none", "max_ticks": 10 ** 8}, "seed": 1}, "coarse")
        out.append(forked(one))
    sys.stdout.write(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)
