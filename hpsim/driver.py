"""Batch runner: zygotes fork one child per case; aggregation, minimisation, replay files, evidence."""
import json
import os
from random import Random as _RealRandom
import select
import signal
import subprocess
import sys
import time
import traceback

from . import isolate, mp, world
from .scen import jd, digest

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("HPSIM_JOBS") or min(8, os.cpu_count() or 1))
CASE_WALL = 120.0
now = world.real_monotonic


# ------------------------------------------------------------------ one case in one forked child
def evaluate(prop, case):
    """Run one case.  An exception hyperpack raises out of a call that every check relies on to work (building a valid
    problem, solving it afresh for comparison, ...) is a violation; any other one is an error of the harness."""
    try:
        return prop.run(case)
    except BaseException as e:
        text = traceback.format_exc()
        if isinstance(e, mp.HarnessError) and e.__cause__ is not None:
            e = e.__cause__
        tb = e.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        where = os.path.realpath(tb.tb_frame.f_code.co_filename) if tb is not None else ""
        if not where.startswith(os.path.join(os.path.realpath(world.REPO), "hyperpack") + os.sep) or not isinstance(e, Exception) \
                or isinstance(e, mp.HarnessError) or getattr(e, "injected", False):
            return {"error": text}
        lines = [x for x in text.splitlines() if x.strip()]
        msg = f"{type(e).__name__}: {e} out of an operation valid here ({os.path.basename(where)}:{tb.tb_lineno} {tb.tb_frame.f_code.co_name})"
        return {"runs": 0, "viol": [{"cls": "unexpected-exception", "msg": msg, "case": case, "trace": lines[-24:]}]}


def _child_run(prop, case, wfd):
    import gc
    gc.disable()
    try:
        out = evaluate(prop, case)
        if isolate.NEEDED:
            isolate.restore()
            isolate.ON = True
            out = evaluate(prop, case)
            if "stats" in out:
                out["stats"]["cases_with_process_state"] = 1
    except BaseException:
        out = {"error": traceback.format_exc()}
    try:
        data = jd(out).encode()
    except BaseException:
        data = jd({"error": traceback.format_exc()}).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


def start_child(prop, case):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _child_run(prop, case, w)
        finally:
            os._exit(70)
    os.close(w)
    return pid, r


def finish_child(pid, r, limit=CASE_WALL):
    buf = bytearray()
    end = now() + limit
    timed_out = False
    while True:
        left = end - now()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"error": f"case exceeded {limit} s of wall time", "timeout": True}
    if not buf:
        return {"error": f"child ended with status {st} and no result"}
    try:
        return json.loads(bytes(buf))
    except ValueError:
        return {"error": f"child ended with status {st} and a truncated result"}


def run_case(prop, case, limit=CASE_WALL):
    return finish_child(*start_child(prop, case), limit=limit)


def run_many(prop, cases, limit=CASE_WALL):
    """Evaluate a list of cases in parallel, results in order."""
    out = []
    for i in range(0, len(cases), NPROC):
        hs = [start_child(prop, c) for c in cases[i:i + NPROC]]
        out += [finish_child(*h, limit=limit) for h in hs]
    return out


def case_seed(pid, seed, index):
    return int(digest(pid, str(seed), str(index)), 16)


def make_case(prop, seed, tier, index):
    rng = _RealRandom(case_seed(prop.id, seed, index))
    case = prop.gen(rng, index, tier)
    case.setdefault("seed", case_seed(prop.id, seed, index) & 0x7FFFFFFF)
    return case


# ------------------------------------------------------------------ batch
def batch(prop, seed, tier, count, wall_cap, jobs=None):
    jobs = jobs or NPROC
    sys.stdout.flush()
    pipes = {}
    stop_r, stop_w = os.pipe()      # shared "stop above index" channel is not needed: see below
    os.close(stop_r)
    os.close(stop_w)
    best = mp_value()
    t0 = now()
    pids = []
    for z in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                f = os.fdopen(w, "wb")
                for i in range(z, count, jobs):
                    if i > best.get() or now() - t0 > wall_cap:
                        break
                    case = make_case(prop, seed, tier, i)
                    res = run_case(prop, case)
                    if res.get("viol"):
                        best.lower(i)
                    f.write(jd([i, res]).encode() + b"\n")
                    f.flush()
                f.close()
            except BaseException:
                traceback.print_exc()
                os._exit(71)
            os._exit(0)
        os.close(w)
        pipes[r] = bytearray()
        pids.append(pid)
    results = {}
    while pipes:
        rl, _, _ = select.select(list(pipes), [], [], 5)
        for r in rl:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del pipes[r]
                continue
            pipes[r] += b
            while b"\n" in pipes[r]:
                line, _, rest = bytes(pipes[r]).partition(b"\n")
                pipes[r] = bytearray(rest)
                i, res = json.loads(line)
                results[i] = res
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    return results, bad


class mp_value:
    """A lowest-violating-index cell shared by the zygotes (anonymous shared memory)."""

    def __init__(self):
        import mmap
        self.m = mmap.mmap(-1, 8)
        self.m[:8] = (2 ** 62).to_bytes(8, "little")

    def get(self):
        return int.from_bytes(self.m[:8], "little")

    def lower(self, v):
        if v < self.get():
            self.m[:8] = v.to_bytes(8, "little")


# ------------------------------------------------------------------ minimisation
def minimise(prop, case, cls, budget_s=60.0, max_evals=1500):
    """Greedy: take the first candidate (in order) that still shows the same violation class."""
    t0 = now()
    evals = 0
    improved = True
    rounds = 0
    while improved and now() - t0 < budget_s and evals < max_evals:
        improved = False
        rounds += 1
        cands = []
        seen = set()
        for c in prop.shrink(case):
            h = jd(c)
            if h not in seen and h != jd(case):
                seen.add(h)
                cands.append(c)
        for i in range(0, len(cands), NPROC):
            if now() - t0 > budget_s or evals > max_evals:
                break
            grp = cands[i:i + NPROC]
            res = run_many(prop, grp, limit=20.0)
            evals += len(grp)
            hit = None
            for c, r in zip(grp, res):
                vs = [v for v in (r.get("viol") or []) if v["cls"] == cls]
                if vs:
                    hit = vs[0].get("case") or c
                    break
            if hit is not None:
                case = hit
                improved = True
                break
    return case, evals


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        return json.load(open(path))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def match_finding(prop, v, findings):
    for f in findings:
        if f["property"] == prop.id and f["cls"] == v["cls"] and \
                (f.get("match") is None or f["match"] in v["msg"]):
            return f
    return None


# ------------------------------------------------------------------ entry points
def run_check(prop, tier, seed, count=None, jobs=None, quiet=False):
    t0 = now()
    prop.prepare(tier)
    count = count or prop.counts[tier]
    wall_cap = 700 if tier == "quick" else 3 * 3600
    results, bad = batch(prop, seed, tier, count, wall_cap, jobs)
    findings = [f for f in known_findings().get("findings", [])]
    errors, timeouts = [], 0
    viol = []
    known = {}
    agg = {}
    scheds, keys, samples = set(), set(), []
    evaluations = 0
    for i in sorted(results):
        r = results[i]
        if r.get("error"):
            errors.append((i, r["error"]))
            continue
        evaluations += r.get("runs", 1)
        for k, v in (r.get("stats") or {}).items():
            agg[k] = agg.get(k, 0) + v
        scheds.update(r.get("scheds") or [])
        keys.update(r.get("keys") or [])
        if r.get("sample") and len(samples) < 3:
            samples.append(r["sample"])
        for v in r.get("viol") or []:
            f = match_finding(prop, v, findings)
            if f is not None:
                known.setdefault(f["id"], (f, v))
            else:
                viol.append((i, v))
    extra_viol, extra_stats = prop.extra(tier, seed)
    for v in extra_viol:
        viol.append((-1, v))
    for k, v in extra_stats.items():
        agg[k] = agg.get(k, 0) + v
    wall = now() - t0
    for fid, (f, v) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop.id} {f['what']}")
    code = 0
    replay = None
    if viol:
        viol.sort(key=lambda x: x[0])
        i, v = viol[0]
        case = v.get("case")
        evals = 0
        if case is not None and i >= 0:
            case, evals = minimise(prop, case, v["cls"])
            final = run_case(prop, case)
            vs = [x for x in (final.get("viol") or []) if x["cls"] == v["cls"]]
            if vs:
                v = vs[0]
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{prop.id}-{digest(jd(case), v['cls'])}.json")
        json.dump({"property": prop.id, "verif_seed": seed, "tier": tier, "case_index": i,
                   "class": v["cls"], "message": v["msg"], "case": case,
                   "trace": v.get("trace"), "minimisation_runs": evals,
                   "how": f"/opt/venv/bin/python {ROOT}/check.py replay {replay}"},
                  open(replay, "w"), indent=1)
        confirmed = None
        if i >= 0:
            pr = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "replay", replay],
                                capture_output=True, text=True, timeout=300)
            confirmed = pr.returncode == 1
        print(f"violation class {v['cls']}: {v['msg']}")
        print(f"case index {i}, seed {seed}; minimised in {evals} runs; "
              f"replay in a fresh process {'reproduced it' if confirmed else 'NOT reproduced' if confirmed is False else 'n/a'}")
        print(f"VIOLATION property={prop.id} replay={replay}")
        code = 1
    elif errors or bad:
        for i, e in errors[:3]:
            print(f"harness error in case {i}:\n{e}", file=sys.stderr)
        print(f"{len(errors)} harness errors, {bad} dead zygotes", file=sys.stderr)
        code = 2
    elif len(results) < count:
        print(f"only {len(results)} of {count} cases ran within {wall_cap} s", file=sys.stderr)
        code = 2
    elif prop.sanity(agg, tier) is not None:
        print("reach check failed: " + prop.sanity(agg, tier), file=sys.stderr)
        code = 2
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("probe:")}
    rest = {k: round(v, 6) for k, v in sorted(agg.items()) if ":" not in k}
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
          "coverage": {
              "evaluations": evaluations,
              "distinct_nontrivial": len(keys),
              "rule": prop.rule,
              "samples": samples or [{"note": "no sample"}],
              "cases": len(results),
              "simulated_runs_per_hour": int(evaluations / max(wall, 1e-6) * 3600),
              "seeds_per_hour": int(len(results) / max(wall, 1e-6) * 3600),
              "simulated_seconds": round(agg.get("sim_seconds", 0.0), 3),
              "faults_injected": faults,
              "probes": probes,
              "distinct_schedules": len(scheds),
              "schedule_measure": "hash of the sequence of (operation, process) at all synchronisation points, preemptions, faults and process ends of one run",
              "counters": rest,
              "components_real": prop.real,
              "components_stubbed": prop.stubs,
              "known_findings_seen": sorted(known),
          },
          "assumptions": prop.assumptions,
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop.id}.json"), "w"), indent=1)
    if not quiet:
        print(f"{prop.id} {tier}: {len(results)} cases, {evaluations} simulated runs, "
              f"{len(scheds)} schedules, {len(keys)} distinct non-trivial, {wall:.1f} s, "
              f"violations {len(viol)}")
    return code


def replay(prop, path):
    d = json.load(open(path))
    if d.get("case") is None:
        print("this violation has no case file")
        return 2
    r = run_case(prop, d["case"], limit=300)
    if r.get("error"):
        print(r["error"], file=sys.stderr)
        return 2
    for v in r.get("viol") or []:
        if v["cls"] == d["class"]:
            print(f"violation class {v['cls']}: {v['msg']}")
            if v.get("trace"):
                print(json.dumps(v["trace"], indent=1)[:6000])
            print(f"VIOLATION property={prop.id} replay={path}")
            return 1
    print("the replay file does not violate the property on this tree")
    return 0
