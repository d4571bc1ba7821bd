"""python3 sim/devrun.py PROP a b [seed]: run cases in one worker, print violations."""
import json, os, sys, time
import run as R
prop, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
stats, t0 = {}, time.time()
with R.Pool(1) as pool:
    w = pool.workers[0]
    for i in range(a, b):
        r = w.call({"cmd": "case", "prop": prop, "seed": seed, "i": i, "tier": os.environ.get("VERIF_TIER", "quick")})
        if "error" in r:
            print(i, r["error"])
            continue
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        if os.environ.get("SHOW"):
            print(i, r["runs"], round(r["t"], 2), r["digest"], json.dumps(r.get("sample"))[:1500] if os.environ["SHOW"] == "2" else "")
        for v in r["viol"]:
            print(i, v["sig"], v["msg"])
            if os.environ.get("CASE"):
                print(json.dumps(v["case"])[:6000])
print("total", round(time.time() - t0, 1), json.dumps(stats, sort_keys=True) if os.environ.get("ST") else "")
