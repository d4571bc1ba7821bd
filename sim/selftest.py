#!/usr/bin/env python3
"""selftest.py --setup: can the machinery run here?
selftest.py [PROP ...] [--n=N] [--seeds=a,b]: determinism. Each seed twice or more: other worker counts, other
hash seeds, other case order; all execution digests must agree."""
import os, sys
import run as R
from plan import CHECKS
from check import explore


def setup():
    with R.Pool(1) as pool:
        pool.workers[0].wait_ready()
        r = pool.workers[0].call({"cmd": "case", "prop": "C01", "seed": 1, "i": 0, "tier": "quick"})
        if "error" in r:
            print(r["error"])
            return 3
    print("setup: the simulator runs (%d simulated runs)" % r["runs"])
    return 0


def determinism(props, n, seeds):
    bad = 0
    for prop in props:
        for seed in seeds:
            seen = {}
            for nw, hs in ((8, 0), (3, 0), (5, 12345), (8, 777)):
                with R.Pool(nw, hashseed=hs, extra=CHECKS[prop].get("env")) as pool:
                    res, errs = explore(pool, prop, seed, "quick", n, 600)
                if errs:
                    print("%s seed %d: %s" % (prop, seed, errs[0]))
                    bad += 1
                for i, r in res.items():
                    seen.setdefault(i, set()).add((r["digest"], r["runs"], len(r["viol"])))
            diff = [i for i in seen if len(seen[i]) > 1]
            print("%s seed %d: %d cases x 4 executions, %d differ %s" % (prop, seed, len(seen), len(diff), diff[:8]), flush=True)
            bad += bool(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--setup"]:
        sys.exit(setup())
    n = next((int(x[4:]) for x in a if x.startswith("--n=")), 40)
    seeds = next(([int(y) for y in x[8:].split(",")] for x in a if x.startswith("--seeds=")), [1])
    sys.exit(determinism([x for x in a if not x.startswith("--")] or sorted(CHECKS), n, seeds))
