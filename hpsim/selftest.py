"""Set-up check: the seams work, and one seed is one execution."""
import json
import subprocess
import sys

from . import driver, props
from .scen import digest, jd


def digests(ids, n):
    out = {}
    for pid in ids:
        prop = props.get(pid)
        prop.prepare("quick")
        cases = [driver.make_case(prop, 5, "quick", i) for i in range(n) if not (pid == "C14" and i % 60 == 7)]
        for i, r in enumerate(driver.run_many(prop, cases)):
            if r.get("error"):
                raise SystemExit(f"{pid} case {i}: {r['error']}")
            # everything observed in the run: schedules, results, statistics
            out[f"{pid}/{i}"] = digest(jd({k: r[k] for k in ("stats", "scheds", "keys", "runs", "viol") if k in r}), jd(r.get("sample")))
    return out


def main(quick=False):
    ids = ["C01", "C05", "C06", "C12", "C13", "C14", "C16", "C17", "C19", "C20"] if quick else [p for p in props.IDS if p != "C15"]
    n = 6 if quick else 40
    a = digests(ids, n)
    code = ("import sys, json; sys.path.insert(0, sys.argv[1]); from hpsim import selftest; "
            "print(json.dumps(selftest.digests(json.loads(sys.argv[2]), int(sys.argv[3]))))")
    r = subprocess.run([sys.executable, "-c", code, driver.ROOT, json.dumps(ids), str(n)], stdout=subprocess.PIPE)
    if r.returncode:
        print("second run failed")
        return 2
    b = json.loads(r.stdout.splitlines()[-1])
    bad = [k for k in a if a[k] != b.get(k)]
    if bad:
        print("not deterministic:", bad)
        return 2
    print(f"{len(a)} cases of {len(ids)} checks ran twice with identical executions")
    return 0
