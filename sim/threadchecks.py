"""Checks under a simulated thread scheduler: C11 (concurrent calls equal serial calls), C12 (additions)."""
import itertools, os, sys, io, hashlib
import numpy as np
import core, gen, threads, apichecks, loadchecks
from apichecks import V, equal, short, make_pf, gen_pf, enc, dec, MQ, PQ, exc_class
from core import rng_for

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def policy(rng, nthreads):
    u = rng.random()
    if u < 0.3:
        return {"seed": rng.randrange(10**9), "pct": rng.choice([1, 2, 3]), "len": rng.choice([40, 150, 600])}
    return {"seed": rng.randrange(10**9), "p": rng.choice([0.02, 0.1, 0.3, 0.6, 0.9])}


def user_pf(vals, fail, how=None):
    """A contribution of the library's user: a scheduling point inside, fails for arrays of one size."""
    from occuprob.partitionfunctions import PartitionFunction

    class UserPF(PartitionFunction):
        def __init__(self, a=vals):
            self.a = np.array(a, float)

        def _go(self, f, t):
            threads.yield_point("contribution")
            if fail and t.size == fail[0]:
                raise exc_class(fail[1])("injected")
            r = f * np.ones((self.a.size, t.size)) * self.a[:, None]
            threads.yield_point("contribution")
            return r

        def calc_part_func(self, temperature):
            return self._go(1.0, temperature)

        def calc_part_func_w(self, temperature):
            return self._go(-0.5, temperature)

        def calc_part_func_v(self, temperature):
            return self._go(0.25, temperature)
    return (apichecks.collection(UserPF, how) if how else UserPF)()


def build(spec):
    if spec[0] == "tuser":
        return user_pf(*spec[1:])
    return make_pf(spec)[0]


def perform(op, env):
    """One call of a task."""
    kind = op[0]
    if kind == "q" or kind == "pq":
        target = env["models"][op[1]] if kind == "q" else env["pfs"][op[1]]
        t = env["T"][op[3]]
        a = [t]
        if op[2] == "calc_ensemble_average":
            a.append(apichecks.observable(env["n"], t.size, "full", op[4]))
        return getattr(target, op[2])(*a)
    if kind == "load":
        from occuprob.io import load_properties_from_extxyz
        return load_properties_from_extxyz(os.path.join(env["base"], op[1]))
    if kind == "Tset":
        t = env["T"][op[1]]
        apichecks.tset(t, op[2], op[3])
        return None
    if kind == "add":
        its = [env["pfs"][i] for i in op[2]]
        m = env["models"][op[1]]
        if op[3] == "single":
            m.add_partition_functions(its[0])
        else:
            m.add_partition_functions(list(its) if op[3] == "list" else tuple(its))
        return None


def prepare(case):
    import occuprob as o
    env = {"n": case["n"], "base": os.getcwd(), "pfs": [build(s) for s in case["pfs"]],
           "models": [], "T": {k: np.array(dec(v)) for k, v in case["T"].items()}}
    for ids in case["models"]:
        m = o.SuperpositionApproximation()
        if ids:
            m.add_partition_functions([env["pfs"][i] for i in ids])
        env["models"].append(m)
    return env


def record(res):
    if isinstance(res, dict):
        return {k: np.array(v, copy=True) for k, v in res.items()}
    if isinstance(res, np.ndarray):
        return res.copy()
    return res if res is None else repr(type(res))


def play(case):
    env = prepare(case)
    out = [[] for _ in case["tasks"]]
    clock = [0]
    so = sys.stdout
    sys.stdout = io.StringIO()

    def body(k):
        def go():
            for op in case["tasks"][k]:
                rec = {"t0": clock[0]}
                clock[0] += 1
                if op[0] in ("q", "pq"):
                    rec["T"] = env["T"][op[3]].copy()
                try:
                    rec["raw"] = perform(op, env)
                except threads.SimAbort:
                    raise
                except threads.SimDeadlock:
                    raise
                except BaseException as e:
                    rec["exc"] = apichecks.chain(e)
                    rec["msg"] = str(e)[:200]
                    e = None
                clock[0] += 1
                rec["t1"] = clock[0]
                clock[0] += 1
                out[k].append(rec)
        return go
    s = threads.Scheduler([body(k) for k in range(len(case["tasks"]))], case["policy"], case["mode"])
    try:
        s.run()
    finally:
        sys.stdout = so
    for recs in out:
        for rec in recs:
            if "raw" in rec:
                rec["res"] = record(rec.pop("raw"))
    final = []
    if case.get("final") and not (s.deadlock or s.overrun):
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            for m in env["models"]:
                r = {}
                for q in ("calc_partition_functions", "calc_probability", "calc_heat_capacity"):
                    try:
                        r[q] = record(getattr(m, q)(env["T"]["s0"]))
                    except Exception as e:
                        r[q] = "%s: %s" % (type(e).__name__, e)
                final.append(r)
        finally:
            sys.stdout = so
    return {"out": out, "deadlock": s.deadlock, "overrun": s.overrun, "switches": s.switches, "sites": s.sites[:400],
            "steps": s.step, "final": final,
            "errors": [None if t.error is None or isinstance(t.error, (threads.SimAbort, threads.SimDeadlock)) else repr(t.error) for t in s.tasks]}


def serial(case, op, temps):
    """The same call alone, on freshly built objects, in a process of its own."""
    c = dict(case, T={})
    env = prepare(c)
    if temps is not None:
        env["T"][op[3]] = temps
    try:
        return {"res": record(perform(op, env))}
    except BaseException as e:
        return {"exc": apichecks.chain(e), "msg": str(e)[:200]}


class Threaded:
    def proc(self, ctx, fn, args, files=()):
        if not hasattr(ctx, "thfs"):
            ctx.thfs = core.SimFS(ctx.scratch, "thr")
        for rel, text in files:
            ctx.thfs.write("w/" + rel, text)
        r = core.Run(ctx.thfs, None, ctx.stats)
        # (the interpreter's own lock waits until a deadline on this clock: one far ahead is never reached,
        # one in the past would make waiting threads spin)
        p = core.Proc(0, ctx.thfs.root, fn, args, {"cwd": "w", "seed": 1, "mono": 10**18})
        r.go([p])
        return p, r

    def base_checks(self, case, p, g):
        if g is None:
            if p.hung:
                return V("hang", "the threads never finish (real time limit)")
            return V("dies", "the process dies (status %s): %s" % (p.status, p.err[:1500]))
        if g["deadlock"]:
            return V("deadlock", "the calls deadlock after %d steps (last switches %s)" % (g["steps"], g["sites"][-3:]))
        if g["overrun"]:
            return V("livelock", "the calls do not finish within %d steps" % threads.STEP_LIMIT)
        for k, e in enumerate(g["errors"]):
            if e:
                return V("task", "thread %d ends with %s" % (k, e))
        return None

    def pinned(self, case, g):
        """The case with its schedule written out."""
        if g is None or "replay" in case["policy"]:
            return case
        return dict(case, policy={"replay": g["switches"]})

    def shrinks(self, case):
        pol = case["policy"]
        ts = case["tasks"]
        for k in range(len(ts)):
            if len(ts) > 2 and ts[k]:
                yield dict(case, tasks=ts[:k] + [[]] + ts[k + 1:])
        for k in range(len(ts)):
            for i in range(len(ts[k])):
                yield dict(case, tasks=ts[:k] + [ts[k][:i] + ts[k][i + 1:]] + ts[k + 1:])
        if "replay" in pol:
            sw = pol["replay"]
            size = len(sw) // 2
            while size >= 1:
                for a in range(0, len(sw), size):
                    yield dict(case, policy={"replay": sw[:a] + sw[a + size:]})
                size //= 2

    def describe(self, case):
        return {"threads": [[o[:5] for o in t] for t in case["tasks"]], "models": case["models"], "contributions": [s[0] for s in case["pfs"]],
                "schedule": case["policy"], "granularity": case["mode"]}


class C11(Threaded):
    id = "C11"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        n, kappa = rng.choice([1, 2, 3]), rng.choice([1, 3])
        failing = rng.random() < 0.3
        failsize = rng.choice([4, 5])
        pfs = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            if rng.random() < 0.35:
                pfs.append(["tuser", [round(rng.uniform(0.1, 3), 4) for _ in range(n)],
                            [failsize, rng.choice(["ValueError", "KeyboardInterrupt", "KeyError", "UserError", "TypeError"])]
                            if failing and rng.random() < 0.7 else None])
            else:
                pfs.append(gen_pf(rng, n, kappa, 0))
        models = [[rng.randrange(len(pfs)) for _ in range(rng.choice([0, 1, 2, 3]) if rng.random() < 0.2 else rng.choice([1, 2, 3]))]
                  for _ in range(rng.choice([1, 1, 2]))]
        nt = rng.choice([2, 2, 3, 4])
        m = rng.choice([1, 2, 3, 6])
        slots = {}

        def temps(size):
            a, b = rng.choice([1.0, 10.0, 50.0]), rng.choice([100.0, 300.0])
            t = sorted(gen.r6(a + (b - a) * rng.random()) for _ in range(size))
            if rng.random() < 0.5 and size > 1:
                t[0], t[-1] = 10.0, 300.0
            return t
        slots["s0"] = temps(m)
        slots["s1"] = temps(m) if rng.random() < 0.6 else list(slots["s0"])
        slots["sf"] = temps(failsize)
        for k in range(nt):
            slots["t%d" % k] = temps(m) if rng.random() < 0.6 else list(slots["s0"])
        iso, files = {}, []
        for k in range(rng.choice([0, 0, 1, 2, 3])):
            x = gen.gen_isomers(rng, 4, count=rng.choice([1, 2, 3]))
            iso["f%d.xyz" % k] = x
            files.append(["d%d/f%d.xyz" % (k, k) if rng.random() < 0.3 else "f%d.xyz" % k, gen.render(x, gen.gen_fmt(rng))])
        if files and rng.random() < 0.3:
            files.append(["bad.xyz", files[0][1].replace("Energy", "Emergy")])
        tasks = []
        loads = bool(files) and rng.random() < 0.8
        for k in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5] if tier == "quick" else [2, 4, 8])):
                u = rng.random()
                if loads and u < 0.35:
                    ops.append(["load", rng.choice(files)[0]])
                elif u < 0.45:
                    ops.append(["Tset", "t%d" % k, rng.choice(["shift", "interior", "scale"]), round(rng.random(), 4)])
                else:
                    s = rng.choice(["s0", "s0", "s1", "t%d" % k, "t%d" % k] + (["sf"] if failing else []))
                    if rng.random() < 0.8:
                        ops.append(["q", rng.randrange(len(models)), rng.choice(MQ), s, rng.randrange(100)])
                    else:
                        ops.append(["pq", rng.randrange(len(pfs)), rng.choice(PQ), s])
            tasks.append(ops)
        return {"n": n, "pfs": pfs, "models": models, "T": {k: enc(v) for k, v in slots.items()}, "tasks": tasks,
                "files": files, "iso": iso, "policy": policy(rng, nt), "mode": rng.choice(["line", "line", "opcode"])}

    def run(self, case, ctx):
        p, r = self.proc(ctx, play, (case,), case["files"])
        g = p.result
        ctx.book([None if g is None else (g["switches"], [[x.get("exc", [[0]])[0][0] for x in o] for o in g["out"]])],
                 None if g is None else g["sites"], r.sim_ns)
        c2 = self.pinned(case, g)
        v = self.base_checks(case, p, g)
        if v:
            return [dict(v, case=c2)]
        ctx.count("probe_switches", len(g["switches"]))
        ctx.count("probe_steps", g["steps"])
        if len(g["switches"]) > len(case["tasks"]):
            ctx.count("probe_really_interleaved")
        memo = {}
        for k, (ops, recs) in enumerate(zip(case["tasks"], g["out"])):
            for j, (op, rec) in enumerate(zip(ops, recs)):
                if op[0] == "Tset":
                    continue
                what = "thread %d call %d (%s %s)" % (k, j, op[0], op[1] if op[0] == "load" else op[2])
                if op[0] == "load":
                    x = case["iso"].get(os.path.basename(op[1]))
                    if "exc" in rec:
                        if x is not None:
                            return [dict(V("differs", "%s raises %s: %s" % (what, rec["exc"][0][0], rec["msg"])), case=c2)]
                        continue
                    if x is None:
                        return [dict(V("differs", "%s of a file without energies returns" % what), case=c2)]
                    e = loadchecks.same(rec["res"], x)
                    if e:
                        return [dict(V("differs", "%s: %s" % (what, e)), case=c2)]
                    ctx.count("probe_loads")
                    continue
                key = (op[0], op[1], op[2], apichecks.bits(rec["T"]), op[4] if len(op) > 4 else 0)
                if key not in memo:
                    q, _ = self.proc(ctx, serial, (case, op, rec["T"]))
                    if q.result is None:
                        raise core.HarnessError("serial call died: " + q.err[-500:])
                    memo[key] = q.result
                w = memo[key]
                if ("exc" in rec) != ("exc" in w):
                    return [dict(V("differs", "%s %s; alone it %s" % (
                        what, "raises %s: %s" % (rec["exc"][0][0], rec["msg"]) if "exc" in rec else "returns",
                        "raises " + w["exc"][0][0] if "exc" in w else "does not")), case=c2)]
                if "exc" in rec:
                    ctx.count("fault_contribution_raises")
                    if rec["exc"][0] != w["exc"][0]:
                        return [dict(V("differs", "%s raises %s, alone %s" % (what, rec["exc"][0][0], w["exc"][0][0])), case=c2)]
                    continue
                if not equal(rec["res"], w["res"]):
                    return [dict(V("differs", "%s returns %s, alone %s" % (what, short(rec["res"]), short(w["res"]))), case=c2)]
        return []


class C12(Threaded):
    id = "C12"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        nt = rng.choice([1, 2, 2, 3, 4])
        npf = rng.choice([3, 5, 7, 9])
        pfs = []
        for k in range(npf):
            q = PRIMES[k]
            kind = rng.choice(["elec", "elec", "rot", "cls", "tuser"])
            # each contribution multiplies the ratio of the two minima by its own prime
            pfs.append({"elec": ["elec", [[0.0, 0.0], [q, 1]]], "rot": ["rot", [[1, q], [[1.0, 1.0, 1.0], [1.0, 1.0, 1.0]]]],
                        "cls": ["cls", [[[1.0], [float(q)]], False]], "tuser": ["tuser", [float(q), 1.0], None, rng.choice([None] * 4 + apichecks.COLLECTIONS)]}[kind])
        nm = rng.choice([1, 1, 1, 2])
        models = [[0] if rng.random() < 0.3 else [] for _ in range(nm)]
        free = list(range(1, npf))
        rng.shuffle(free)
        tasks = []
        many = rng.choice([9, 12, 17, 20]) if rng.random() < 0.06 else 0
        for k in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                m = rng.randrange(nm)
                u = rng.random()
                if many and free:       # one contribution very often, at once or one by one
                    i = free.pop()
                    ops += [["add", m, [i] * many, "list"]] if rng.random() < 0.5 else [["add", m, [i], rng.choice(["single", "list", "tuple"])] for _ in range(many)]
                    many = 0
                    continue
                if u < 0.65 and free:
                    c = rng.choice([1, 1, 2, 3])
                    ids = [free.pop() for _ in range(min(c, len(free)))]
                    if rng.random() < 0.15:
                        ids.append(rng.choice(ids))         # the same contribution twice
                    ops.append(["add", m, ids, rng.choice(["single", "list", "tuple"]) if len(ids) == 1 else rng.choice(["list", "tuple"])])
                else:
                    ops.append(["q", m, rng.choice(["calc_partition_functions", "calc_probability"]), "s0"])
            tasks.append(ops)
        return {"n": 2, "pfs": pfs, "models": models, "T": {"s0": [100.0, 200.0][:rng.choice([1, 2])]}, "tasks": tasks,
                "policy": policy(rng, nt), "mode": rng.choice(["line", "opcode"]), "final": True}

    def weight(self, case, i):
        return PRIMES[i]

    def ratio(self, res):
        """How much more the first minimum weighs, or None."""
        if isinstance(res, np.ndarray) and res.shape[0] == 2 and np.all(res[1] > 0):
            r = res[0] / res[1]
            if np.all(np.abs(r - r[0]) <= 1e-9 * r[0]):
                return float(r[0])
        return None

    def run(self, case, ctx):
        p, r = self.proc(ctx, play, (case,))
        g = p.result
        ctx.book([None if g is None else g["switches"]], None if g is None else (g["sites"], case["tasks"]), r.sim_ns)
        c2 = self.pinned(case, g)
        v = self.base_checks(case, p, g)
        if v:
            return [dict(v, case=c2)]
        ctx.count("probe_switches", len(g["switches"]))
        ctx.count("probe_steps", g["steps"])
        # additions per model and thread: [(t0, t1, [contributions])]
        adds = {}
        for k, (ops, recs) in enumerate(zip(case["tasks"], g["out"])):
            for j, (op, rec) in enumerate(zip(ops, recs)):
                if "exc" in rec:
                    return [dict(V("raises", "thread %d call %d (%s) raises %s: %s" % (k, j, op[0], rec["exc"][0][0], rec["msg"])), case=c2)]
                if op[0] == "add":
                    adds.setdefault((op[1], k), []).append((rec["t0"], rec["t1"], op[2]))
        for k, (ops, recs) in enumerate(zip(case["tasks"], g["out"])):
            for j, (op, rec) in enumerate(zip(ops, recs)):
                if op[0] != "q":
                    continue
                prefixes = []
                racing = False
                for (m, t), lst in sorted(adds.items()):
                    if m != op[1]:
                        continue
                    sure = [i for a in lst if a[1] < rec["t0"] for i in a[2]]
                    maybe = [i for a in lst if a[1] >= rec["t0"] and a[0] < rec["t1"] for i in a[2]]
                    racing = racing or bool(maybe)
                    prefixes.append([sure + maybe[:z] for z in range(len(maybe) + 1)])
                ctx.count("probe_query_during_addition" if racing else "probe_query_after_additions")
                init = case["models"][op[1]]
                cands = [list(init) + [i for part in combo for i in part] for combo in itertools.product(*prefixes)]
                if not self.fits(case, rec["res"], cands, op[2]):
                    return [dict(V("concurrent", "thread %d call %d (%s) counts contributions in the ratio %s = %s, added before it or during it: %s" % (
                        k, j, op[2], self.ratio(rec["res"]), factors(self.ratio(rec["res"]) or 0), [sorted(PRIMES[i] for i in c) for c in cands][:6])), case=c2)]
        for m, fin in enumerate(g["final"]):
            every = list(case["models"][m]) + [i for (mm, t), lst in sorted(adds.items()) if mm == m for a in lst for i in a[2]]
            for q in ("calc_partition_functions", "calc_probability"):
                if not self.fits(case, fin[q], [every], q):
                    return [dict(V("lost", "after all additions %s of model %d counts %s, added were %s" % (
                        q, m, factors(self.ratio(fin[q]) or 0) if isinstance(fin[q], np.ndarray) else fin[q], sorted(PRIMES[i] for i in every))), case=c2)]
            cap = self.capacity(case, every)
            got = fin["calc_heat_capacity"]
            if (got is None) != (not every) or (every and not (isinstance(got, np.ndarray) and got.shape == (1, len(case["T"]["s0"]))
                                                              and np.all(np.abs(got - cap) < 1e-6 * (1 + cap)))):
                return [dict(V("lost", "after all additions the heat capacity of model %d is %s, of the %d contributions added it is %s" % (
                    m, short(got), len(every), cap)), case=c2)]
        return []

    def capacity(self, case, ids):
        # w of every contribution is the same for both minima, except a user's: w = -a/2, v = a/4
        if not ids:
            return 0.0
        z = np.array([1.0, 1.0])
        w, v = np.zeros(2), np.zeros(2)
        for i in ids:
            s, q = case["pfs"][i], float(PRIMES[i])
            z = z * np.array([q, 1.0])
            if s[0] == "rot":
                w, v = w - 1.5, v + 1.5
            elif s[0] == "cls":
                w, v = w - 1.0, v + 1.0
            elif s[0] == "tuser":
                w, v = w - 0.5 * np.array([q, 1.0]), v + 0.25 * np.array([q, 1.0])
        pr = z / z.sum()
        return float((pr * v).sum() + (pr * w * w).sum() - (pr * w).sum() ** 2)

    def fits(self, case, res, cands, method):
        for c in cands:
            if not c:
                if res is None:
                    return True
                continue
            want = 1.0
            for i in c:
                want *= PRIMES[i]
            got = self.ratio(res)
            if got is None or abs(got - want) > 1e-7 * want:
                continue
            if method == "calc_probability" and not np.all(np.abs(res.sum(axis=0) - 1.0) < 1e-9):
                continue
            if method == "calc_partition_functions":
                # and the size of it
                z1 = 1.0
                for i in c:
                    z1 *= {"rot": 1.0 / PRIMES[i], "cls": 1.0 / PRIMES[i]}.get(case["pfs"][i][0], 1.0)
                if not np.all(np.abs(res[1] - z1) < 1e-9 * z1):
                    continue
            return True
        return False


def factors(r):
    n, out = int(round(r)), []
    for q in PRIMES:
        while n and n % q == 0:
            out.append(q)
            n //= q
    return out + ([n] if n != 1 else [])


CHECKS = {"C11": C11(), "C12": C12()}
