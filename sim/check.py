"""Runs one check: dispatches seeds to workers, confirms and minimises violations, writes evidence."""
import hashlib, json, os, queue, subprocess, sys, threading, time

import run as R
from run import Pool, HarnessFailure, VERIF, OUT
from plan import CHECKS

KNOWN = os.path.join(VERIF, "known-findings.json")


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]


def explore(pool, prop, seed, tier, n, budget):
    """Run cases 0..n-1; results in case order."""
    res, errs = {}, []
    nxt = iter(range(n))
    lock = threading.Lock()
    end = time.monotonic() + budget
    stop = threading.Event()
    first = []          # when the first violation was seen

    def serve(w):
        while not stop.is_set():
            with lock:
                i = next(nxt, None)
            if i is None or time.monotonic() > (min(end, first[0] + 30) if first else end):
                return
            try:
                r = w.call({"cmd": "case", "prop": prop, "seed": seed, "i": i, "tier": tier})
            except Exception as e:
                errs.append("case %d: %s: %s" % (i, type(e).__name__, e))
                stop.set()
                return
            if "error" in r:
                errs.append("case %d: %s" % (i, r["error"]))
                stop.set()
                return
            res[i] = r
            if r["viol"]:
                with lock:
                    first.append(time.monotonic())
                    nv = sum(1 for x in res.values() if x["viol"])
                if nv >= 6:
                    stop.set()
    ts = [threading.Thread(target=serve, args=(w,), daemon=True) for w in pool.workers]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res, errs


def confirm(prop, case, sig, hashseed=0, extra=None):
    """Re-execute in a fresh process."""
    with Pool(1, hashseed, extra) as p:
        r = p.workers[0].call({"cmd": "exec", "prop": prop, "case": case})
    if "error" in r:
        raise HarnessFailure(r["error"])
    for v in r["viol"]:
        if sig is None or v["sig"] == sig:
            return v["msg"], r["digest"]
    return None, r["digest"]


def main(argv):
    prop = argv[0]
    if prop == "replay":
        return replay(argv[1])
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    n = int(os.environ.get("OCCUSIM_CASES", "0")) or spec["cases"][tier]
    budget = spec.get("budget", {}).get(tier, 300 if tier == "quick" else 5400)
    nw = int(os.environ.get("OCCUSIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    print("%s seed=%d tier=%s cases=%d workers=%d" % (prop, seed, tier, n, nw), flush=True)
    try:
        with Pool(nw, extra=spec.get("env")) as pool:
            return _main(pool, prop, spec, seed, tier, n, budget, nw, t0)
    except HarnessFailure as e:
        print("HARNESS ERROR: %s" % e, flush=True)
        return 3


def _main(pool, prop, spec, seed, tier, n, budget, nw, t0):
    res, errs = explore(pool, prop, seed, tier, n, budget)
    found = []
    for i in sorted(res):
        for v in res[i]["viol"]:
            found.append((i, v))
    violated = None
    if found:
        violated = report(pool, prop, seed, found)
    elif errs:
        print("HARNESS ERROR: %s" % errs[0], flush=True)
        return 3
    known = []
    if not found:
        try:
            fixed = pool.workers[0].call({"cmd": "fixed", "prop": prop})
        except HarnessFailure as e:
            fixed = {"error": str(e)}
        if "error" in fixed:
            print("HARNESS ERROR: %s" % fixed["error"], flush=True)
            return 3
        listed = {k["id"]: k for k in known_findings(prop)}
        for f in fixed["fixed"]:
            if f["fails"]:
                if f["finding"] in listed:
                    known.append(f["finding"])
                    print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["finding"], f["fails"]), flush=True)
                else:
                    path = save(prop, {"fixed": f["finding"]}, "fixed", f["fails"], seed, None)
                    print("%s" % f["fails"])
                    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                    violated = path
    wall = time.monotonic() - t0
    evidence(prop, spec, seed, tier, n, nw, res, wall, violated, known)
    runs = sum(r["runs"] for r in res.values())
    print("%s: %d cases, %d simulated runs, %.1f s, %s" % (prop, len(res), runs, wall, "VIOLATED" if violated else "held"), flush=True)
    if violated:
        return 1
    if found:
        print("HARNESS ERROR: a violation was seen but does not reproduce", flush=True)
        return 3
    if len(res) < min(n, 20):
        print("HARNESS ERROR: only %d of %d cases ran within the time budget" % (len(res), n), flush=True)
        return 3
    return 0


def report(pool, prop, seed, found):
    """Minimise, confirm in a fresh process, save, print.  -> replay path or None"""
    tried = set()
    for i, v in found:
        if v["sig"] in tried or len(tried) >= 3:
            continue
        tried.add(v["sig"])
        print("case %d: %s" % (i, v["msg"]), flush=True)
        cands = []
        try:
            w = pool.workers[0]
            if w.p.poll() is not None:
                w = pool.spawn()
            s = w.call({"cmd": "shrink", "prop": prop, "case": v["case"], "sig": v["sig"], "budget": 40.0}, timeout=200)
            if "error" not in s:
                cands.append((s["case"], s["msg"] or v["msg"]))
                print("minimised in %d tries" % s["tries"], flush=True)
        except HarnessFailure as e:
            print("(minimisation stopped: %s)" % str(e)[:200], flush=True)
        cands.append((v["case"], v["msg"]))
        for case, msg in cands:
            try:
                again, dig = confirm(prop, case, v["sig"], extra=CHECKS[prop].get("env"))
            except HarnessFailure as e:
                print("(confirmation failed: %s)" % str(e)[:200], flush=True)
                continue
            if again:
                path = save(prop, case, v["sig"], again, seed, dig)
                print(again)
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                return path
            print("(not reproduced in a fresh process)", flush=True)
    return None


def save(prop, case, sig, msg, seed, digest):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    doc = {"property": prop, "seed": seed, "sig": sig, "what": msg, "digest": digest, "case": case}
    body = json.dumps(doc, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body)
    return path


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    prop = doc["property"]
    try:
        if "fixed" in doc["case"]:
            with Pool(1, extra=CHECKS[prop].get("env")) as p:
                r = p.workers[0].call({"cmd": "fixed", "prop": prop})
            msg = [f["fails"] for f in r["fixed"] if f["finding"] == doc["case"]["fixed"]][0]
            dig = None
        else:
            msg, dig = confirm(prop, doc["case"], doc["sig"], extra=CHECKS[prop].get("env"))
    except HarnessFailure as e:
        print("HARNESS ERROR: %s" % e)
        return 3
    if msg:
        print(msg)
        print("digest %s (%s)" % (dig, "same execution" if dig == doc["digest"] else "recorded %s" % doc["digest"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("does not fail any more")
    return 0


def evidence(prop, spec, seed, tier, n, nw, res, wall, violated, known):
    stats, shapes = {}, set()
    runs = sim = hung = 0
    for r in res.values():
        runs += r["runs"]
        sim += r["sim_ns"]
        hung += r["hung"]
        shapes.update(r["shapes"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    faults = {k: v for k, v in sorted(stats.items()) if not k.startswith("probe_")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe_")}
    samples = [r["sample"] for i, r in sorted(res.items()) if "sample" in r][:3]
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": runs, "distinct_nontrivial": len(shapes), "rule": spec["rule"], "samples": samples,
                        "cases": len(res), "cases_planned": n,
                        "simulated_runs_per_hour": int(runs * 3600 / max(wall, 1e-3)),
                        "seeds_per_hour": int(len(res) * 3600 / max(wall, 1e-3)),
                        "simulated_time_s": round(sim / 1e9, 3), "faults_injected": faults, "probes": probes,
                        "distinct_measure": spec["measure"], "real_components": spec["real"], "stub_components": spec["stub"],
                        "workers": nw, "hung_runs": hung, "known_findings_seen": known},
           "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violated else 0}
    p = os.path.join(os.environ.get("OCCUSIM_EVIDENCE", os.path.join(VERIF, "evidence")), prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
