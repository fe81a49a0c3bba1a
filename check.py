#!/usr/bin/env python3
"""check.py run ID [--tier quick|thorough] [--seed N] [--count N] | replay FILE | selftest [--quick]"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))


def main(argv):
    if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("PYTHONDONTWRITEBYTECODE"):
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, os.path.join(ROOT, "check.py")] + argv)
    sys.path.insert(0, ROOT)
    import argparse
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("id")
    r.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    r.add_argument("--count", type=int)
    r.add_argument("--jobs", type=int)
    p = sub.add_parser("replay")
    p.add_argument("file")
    s = sub.add_parser("selftest")
    s.add_argument("--quick", action="store_true")
    a = ap.parse_args(argv)
    from hpsim import driver, props
    if a.cmd == "run":
        return driver.run_check(props.get(a.id), a.tier, a.seed, a.count, a.jobs)
    if a.cmd == "replay":
        import json
        prop = props.get(json.load(open(a.file))["property"])
        prop.prepare("quick")
        return driver.replay(prop, a.file)
    from hpsim import selftest
    return selftest.main(quick=a.quick)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
