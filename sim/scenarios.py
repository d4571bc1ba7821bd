"""Registry and command loop of the worker."""
import hashlib, json, os, subprocess, sys, time
import core


class Ctx:
    def __init__(self):
        self.scratch = os.path.join(os.environ["OCCUSIM_SCRATCH"], "w%d" % os.getpid())
        os.makedirs(self.scratch, exist_ok=True)
        self.n = 0
        self._alts = {}
        self.reset()

    def reset(self):
        self.stats = {}
        self.runs = 0
        self.sim_ns = 0
        self.h = hashlib.sha256()
        self.shapes = set()
        self.hung = 0

    def alt(self, hashseed):
        """A second worker whose interpreter has another hash seed."""
        if hashseed not in self._alts:
            self._alts[hashseed] = Alt(hashseed)
        return self._alts[hashseed]

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def count(self, kind, n=1):
        self.stats[kind] = self.stats.get(kind, 0) + n

    def account(self, r):
        """Book a finished process-level run."""
        self.runs += 1
        self.sim_ns += r.sim_ns
        self.h.update("\n".join(r.log).encode())
        k = hashlib.sha256(repr([(e[0], e[2], e[5]) for e in r.events] + [x for x in r.log if x.startswith("exit")])
                           .encode()).hexdigest()[:12]
        self.shapes.add(k)
        if r.hung:
            self.hung += 1

    def book(self, record, shape, sim_ns=0):
        """Book a finished in-process run (threads, histories)."""
        self.runs += 1
        self.sim_ns += sim_ns
        self.h.update(repr(record).encode())
        self.shapes.add(hashlib.sha256(repr(shape).encode()).hexdigest()[:12])


class Alt:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
        self._read()

    def _read(self):
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError("second worker died")
        r = json.loads(line)
        if "error" in r:
            raise core.HarnessError("second worker: " + r["error"])
        return r

    def call(self, cmd):
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        return self._read()


_ctx = None
_reg = None


def registry():
    global _reg
    if _reg is None:
        _reg = {}
        for m in ("clichecks", "loadchecks", "apichecks", "statechecks", "threadchecks", "plotchecks", "versionchecks"):
            if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
                _reg.update(__import__(m).CHECKS)
    return _reg


def ctx():
    global _ctx
    if _ctx is None:
        _ctx = Ctx()
    return _ctx


def run_case(chk, case):
    c = ctx()
    c.reset()
    t0 = time.monotonic()
    viol = chk.run(case, c)
    return {"viol": viol, "runs": c.runs, "sim_ns": c.sim_ns, "stats": c.stats, "digest": c.h.hexdigest()[:16],
            "shapes": sorted(c.shapes), "hung": c.hung, "t": time.monotonic() - t0}


def handle(cmd):
    chk = registry()[cmd["prop"]]
    if cmd["cmd"] == "case":
        case = chk.gen(cmd["seed"], cmd["i"], cmd["tier"])
        r = run_case(chk, case)
        r["i"] = cmd["i"]
        if cmd["i"] < 2 or r["viol"]:
            r["sample"] = chk.describe(case)
        for v in r["viol"]:
            v.setdefault("case", case)
        return r
    if cmd["cmd"] == "fixed":
        return {"fixed": [dict(x) for x in chk.fixed(ctx())] if hasattr(chk, "fixed") else []}
    if cmd["cmd"] == "sub":
        return chk.sub(ctx(), cmd)
    if cmd["cmd"] == "exec":
        r = run_case(chk, cmd["case"])
        for v in r["viol"]:
            v.setdefault("case", cmd["case"])
        return r
    if cmd["cmd"] == "shrink":
        return shrink(chk, cmd["case"], cmd["sig"], cmd.get("budget", 60.0), cmd.get("tries", 400))
    raise core.HarnessError("unknown command")


def shrink(chk, case, sig, budget, tries):
    end = time.monotonic() + budget
    best, n, msg = case, 0, None
    progress = True
    seen = set()
    while progress and n < tries and time.monotonic() < end:
        progress = False
        for cand in chk.shrinks(best):
            key = hashlib.sha256(json.dumps(cand, sort_keys=True).encode()).hexdigest()
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n >= tries or time.monotonic() > end:
                break
            try:
                r = run_case(chk, cand)
            except core.HarnessError:
                continue
            hit = [v for v in r["viol"] if v["sig"] == sig]
            if hit:
                best = hit[0].get("case", cand)
                msg = hit[0]["msg"]
                progress = True
                break
    return {"case": best, "tries": n, "msg": msg}
