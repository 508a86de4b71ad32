"""Driver: python -m replay.run PROP --seed S --budget SEC --out FILE
          python -m replay.run PROP --replay FILE"""
import argparse
import hashlib
import importlib
import json
import random
import sys
import time
import traceback

from . import common
from .common import CHECKS, Violation

for m in ("h_util", "h_index", "h_model", "h_query", "h_text", "h_misc"):
    importlib.import_module("replay." + m)


def case_rng(prop, fn, seed, i):
    return random.Random(hashlib.sha256(f"{prop}|{fn.__name__}|{seed}|{i}".encode()).digest())


def run_one(prop, fn, seed, i):
    """None when the case is fine, else a message."""
    try:
        r = fn(case_rng(prop, fn, seed, i), i)
        return None, r
    except Violation as e:
        return f"{fn.__name__}: {e}", None
    except Exception:
        return f"{fn.__name__}: unexpected exception from the code under test\n" + traceback.format_exc(limit=-6), None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=15)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    checks = CHECKS.get(a.prop, [])
    if a.replay:
        c = json.load(open(a.replay))
        fn = next(f for f, _ in checks if f.__name__ == c["check"])
        msg, _ = run_one(a.prop, fn, c["seed"], c["case"])
        print(msg or "no violation")
        sys.exit(1 if msg else 0)
    total = sum(w for _, w in checks) or 1
    res = {"property": a.prop, "evaluations": 0, "distinct": 0, "checks": {}, "violation": None, "samples": []}
    t00 = time.time()
    for fn, w in checks:
        t0, i, seen = time.time(), 0, set()
        limit = a.budget * w / total
        while i < 5 or time.time() - t0 < limit:
            if time.time() - t0 > 3 * limit + 30:
                break
            msg, r = run_one(a.prop, fn, a.seed, i)
            if msg:
                res["violation"] = {"check": fn.__name__, "seed": a.seed, "case": i, "message": msg}
                break
            if r is not None:
                k = hashlib.md5(repr(r).encode()).hexdigest()
                if k not in seen and len(seen) < 3 and len(repr(r)) < 600:
                    res["samples"].append({"check": fn.__name__, "case": i, "input": repr(r)})
                seen.add(k)
            i += 1
            if getattr(fn, "cases", None) and i >= fn.cases:
                break
        res["checks"][fn.__name__] = {"evaluations": i, "distinct_nontrivial": len(seen)}
        res["evaluations"] += i
        res["distinct"] += len(seen)
        if res["violation"]:
            break
    res["wall_s"] = round(time.time() - t00, 2)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    else:
        json.dump(res, sys.stdout, indent=1)
    sys.exit(1 if res["violation"] else 0)


if __name__ == "__main__":
    main()
