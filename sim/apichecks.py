"""Checks on the library's objects: C10 (history independence), C13 (failing evaluations),
C14 (process-wide state)."""
import errno, gc as _gc, hashlib, io, os, random, sys
import numpy as np
import core, gen
from core import rng_for

V = lambda sig, msg: {"sig": sig, "msg": msg}
MQ = ["calc_partition_functions", "calc_probability", "calc_heat_capacity", "calc_ensemble_average"]
PQ = ["calc_part_func", "calc_part_func_w", "calc_part_func_v"]
EXC = ["ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "MemoryError", "ZeroDivisionError",
       "FloatingPointError", "RuntimeError", "StopIteration", "OSError", "KeyboardInterrupt", "LinAlgError", "AssertionError",
       "OverflowError", "NotImplementedError", "UserError"]


MALFORMED = ["rows", "cols", "onerow", "onecol", "flat", "none", "text"]


class UserError(Exception):
    pass


def bits(a):
    """The bytes that make up the values (long doubles have six bytes of padding that nobody sets)."""
    if a.dtype == object:
        return repr(a.tolist()).encode()
    a = np.ascontiguousarray(a)
    if a.dtype in (np.longdouble, np.clongdouble):
        return a.reshape(-1).view(np.uint8).reshape(-1, 16)[:, :10].tobytes()
    return a.tobytes()


def exc_class(name):
    if name == "LinAlgError":
        return np.linalg.LinAlgError
    if name == "UserError":
        return UserError
    import builtins
    return getattr(builtins, name)


# ---------------------------------------------------------------------------
# contributions from parameters

class Probe:
    """Where user contributions look up whether to fail."""
    plan = None         # {"at": nth evaluation, "how": ...}
    n = 0
    fired = False
    hook = None


def make_user(kind, p):
    from occuprob.partitionfunctions import PartitionFunction

    class UserPF(PartitionFunction):
        """A contribution the library's user wrote."""

        def __init__(self, a, how="fresh"):
            self.a = np.array(a, dtype=float)
            self.how = how
            self.kept = {}

        def __getattribute__(self, name):
            pl = Probe.plan
            if pl is not None and pl["how"] == "lost" and name.startswith("calc_part_func") and Probe.n == pl["at"]:
                Probe.fired = True          # a contribution that has lost (or never had) the method
                raise AttributeError("injected")
            return super().__getattribute__(name)

        def _go(self, name, factor, temperature):
            row = (self.a + 1.0) * factor if name == "z" else self.a * factor
            if self.how == "broadcast":     # a read-only view
                return self._fail(np.broadcast_to(row[:, None], (row.size, temperature.size)))
            if self.how == "int":
                return self._fail(np.outer(np.round(row * 8), np.ones(temperature.size)).astype(int))
            if self.how == "kept":          # a table the contribution keeps
                key = (name, temperature.size)
                if key not in self.kept:
                    arr = np.outer(row, np.ones(temperature.size))
                    self.kept[key] = (arr, arr.copy())
                return self._fail(self.kept[key][0])
            return self._fail(np.outer(row, np.ones(temperature.size)))

        def _fail(self, arr):
            if Probe.hook is not None:
                Probe.hook()
            Probe.n += 1
            pl = Probe.plan
            if pl is not None and Probe.n - 1 == pl["at"] and pl["how"] != "lost":
                Probe.fired = True
                how = pl["how"]
                if how == "rows":
                    return np.vstack([arr, arr, arr])[:arr.shape[0] + 2]
                if how == "cols":
                    return np.hstack([arr, arr, arr])[:, :arr.shape[1] + 2]
                if how == "onerow":
                    return arr[:1] if arr.shape[0] > 1 else np.vstack([arr, arr])
                if how == "onecol":
                    return arr[:, :1] if arr.shape[1] > 1 else np.hstack([arr, arr])
                if how == "flat":
                    return arr[0]
                if how == "none":
                    return None
                if how == "text":
                    return "abc"
                raise exc_class(how)("injected")
            return arr

        def calc_part_func(self, temperature):
            return self._go("z", 1.0, temperature)

        def calc_part_func_w(self, temperature):
            return self._go("w", -0.5, temperature)

        def calc_part_func_v(self, temperature):
            return self._go("v", 0.25, temperature)
    if p and isinstance(p[0], list):
        return (collection(UserPF, p[1]) if len(p) > 1 and p[1] in COLLECTIONS else UserPF)(*p)
    return UserPF(p)


COLLECTIONS = ["iter", "getitem", "empty", "alleq"]


def collection(cls, how):
    """A contribution that is also a collection: of parts it is made of, of nothing, or that compares equal to everything."""
    class Part(cls):
        pass

    def parts(self):
        return [Part(self.a * 3.0 + 1.0), Part(self.a * 5.0 + 1.0)]
    d = {"iter": {"__iter__": lambda self: iter(parts(self)), "__len__": lambda self: 2},
         "getitem": {"__getitem__": lambda self, k: parts(self)[k]},
         "empty": {"__iter__": lambda self: iter(()), "__len__": lambda self: 0},
         "alleq": {"__eq__": lambda self, other: True, "__hash__": lambda self: 7}}[how]
    return type("CollectionPF", (cls,), d)


def make_pf_args(spec):
    kind, p = spec
    if kind == "elec":
        return (np.array(p[0], float), np.array(p[1]))
    if kind == "rot":
        return (np.array(p[0]), np.array(p[1], float))
    if kind in ("cls", "qua"):
        return (np.array(p[0], np.longdouble if p[1] else float),)
    return ()


def make_pf(spec, a=None):
    """-> the contribution, the arrays it was given"""
    import occuprob as o
    kind, p = spec
    cls = {"elec": o.ElectronicPF, "rot": o.RotationalPF, "cls": o.ClassicalHarmonicPF, "qua": o.QuantumHarmonicPF}.get(kind)
    if cls is None:
        return make_user(kind, p), ()
    a = make_pf_args(spec) if a is None else a
    return cls(*a), a


def gen_pf(rng, n, kappa, user=0.15):
    k = rng.choice(["elec", "elec", "rot", "cls", "qua", "qua"])
    if rng.random() < user:
        return ["user", [[gen.r6(rng.uniform(0.1, 3)) for _ in range(n)], rng.choice(["fresh", "fresh", "kept", "broadcast", "int"] + COLLECTIONS)]]
    if k == "elec":
        e = [gen.r6(rng.choice([0.0, rng.uniform(0, 0.3), rng.uniform(0, 0.05)])) for _ in range(n)]
        return [k, [[x + rng.choice([0, -12.5]) for x in e] if False else e, [rng.choice([1, 1, 2, 3, 5]) for _ in range(n)]]]
    if k == "rot":
        return [k, [[rng.choice([1, 2, 3, 6, 12]) for _ in range(n)],
                    [[gen.r6(rng.choice([0.0, rng.uniform(1, 50)]) if j == 0 else rng.uniform(1, 50)) for j in range(3)] for _ in range(n)]]]
    return [k, [[[gen.r6(rng.uniform(0.5, 9)) for _ in range(kappa)] for _ in range(n)], rng.random() < 0.5]]


def gen_temps(rng, big=False):
    m = rng.choice([1, 2, 3, 7, 20, 60]) if not big else rng.choice([600, 900])
    u = rng.random()
    if u < 0.5:
        a, b = rng.choice([0.0, 1.0, 5.0, 50.0]), rng.choice([100.0, 300.0, 1000.0])
        t = [a + (b - a) * i / max(1, m - 1) for i in range(m)]
        if rng.random() < 0.5:
            t = [float(int(x)) for x in t]      # sums are exact
        if m > 2 and rng.random() < 0.5:        # same ends and size, other interior
            t = [t[0]] + [gen.r6(a + (b - a) * rng.random()) for _ in range(m - 2)] + [t[-1]]
    else:
        t = [gen.r6(rng.choice([rng.uniform(1, 400), rng.uniform(1, 400), 0.0, rng.uniform(0.1, 5)])) for _ in range(m)]
    if not big and rng.random() < 0.07:
        t[-1] = float("inf")
    return t


def enc(t):
    return ["inf" if x == float("inf") else x for x in t]


def dec(t):
    return [float(x) for x in t]


def layout(vals, how):
    a = np.array(vals, float)
    if how == "strided":
        b = np.zeros(2 * len(a))
        b[::2] = a
        return b[::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        a.flags.writeable = False
    if how == "longdouble":
        return a.astype(np.longdouble)
    return a


# ---------------------------------------------------------------------------
# histories

def gen_history(rng, nsteps, user=0.25, big=False):
    ops = []
    n, kappa = rng.choice([1, 2, 2, 3, 5]), rng.choice([1, 3, 3, 6])
    pfs, models, tslots, nlists, nq = [], 0, [], 0, 0
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops.append(["pf", gen_pf(rng, n, kappa, user)])
        pfs.append(1)
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(["model"])
        models += 1
    for k in range(rng.choice([1, 2, 3])):
        ops.append(["T", "t%d" % k, enc(gen_temps(rng, big)), rng.choice(["plain"] * 4 + ["strided", "reversed", "readonly", "longdouble"])])
        tslots.append("t%d" % k)
    if rng.random() < 0.4:
        # every slot the same size and ends: caches keyed by those would mix them up
        base = gen_temps(rng, big)
        m = len(base)
        for o in ops:
            if o[0] == "T" and m > 2:
                o[2] = enc([base[0]] + [gen.r6(abs(x) + rng.random()) if x != float("inf") else 77.0 for x in base[1:-1]] + [base[-1]])
    for _ in range(nsteps):
        u = rng.random()
        if u < 0.06 and len(pfs) < 8:
            ops.append(["pf", gen_pf(rng, n, kappa, user)])
            pfs.append(1)
        elif u < 0.1 and models < 4:
            ops.append(["model"])
            models += 1
        elif u < 0.3:
            k = rng.choice([0, 1, 1, 2, 2, 3])
            ids = [rng.randrange(len(pfs)) for _ in range(k)]
            form = rng.choice(["list", "list", "tuple"]) if k != 1 else rng.choice(["single", "single", "list", "tuple"])
            m = rng.randrange(models)
            reuse = nlists and rng.random() < 0.25
            if reuse:
                ops.append(["addlist", m, rng.randrange(nlists)])
            else:
                ops.append(["add", m, ids, form])
                if form == "list":
                    nlists += 1
        elif u < 0.36 and nlists:
            ops.append(["mutlist", rng.randrange(nlists), rng.choice(["append", "clear", "reverse", "pop", "set"]), rng.randrange(len(pfs))])
        elif u < 0.42:
            s = rng.choice(tslots)
            t = gen_temps(rng, big)
            if rng.random() < 0.4:          # the same temperatures in another order
                t = [dec(o[2]) for o in ops if o[0] == "T" and o[1] == s][-1]
                t = rng.choice([t[::-1], t[1:] + t[:1], t[:1] + t[1:-1][::-1] + t[-1:] if len(t) > 1 else t])
            ops.append(["T", s, enc(t), rng.choice(["plain", "plain", "strided", "longdouble"])])
        elif u < 0.5:
            ops.append(["Tset", rng.choice(tslots), rng.choice(["shift", "interior", "scale", "reverse", "swap"]), round(rng.random(), 4)])
        elif u < 0.58 and nq:
            ops.append(["scribble", rng.randrange(nq), rng.choice([0.0, -1.0, 7.0])])
        elif u < 0.6:
            ops.append(["gc"])
        elif u < 0.64:
            mine = [i for i, o in enumerate(o for o in ops if o[0] == "pf") if o[1][0] == "user"]
            if mine:
                ops.append(["retune", rng.choice(mine), rng.choice([0.5, 1.25, 3.0])])
        elif u < 0.68:
            ops.append(["pq", rng.randrange(len(pfs)), rng.choice(PQ), rng.choice(tslots)])
            nq += 1
        else:
            q = rng.choice(MQ)
            ops.append(["q", rng.randrange(models), q, rng.choice(tslots), rng.choice(["full", "full", "col", "ro"])])
            nq += 1
            if rng.random() < 0.25:
                ops.append(list(ops[-1]))
                nq += 1
    return {"n": n, "ops": ops}


def observable(n, m, kind, salt):
    r = np.random.RandomState(salt)
    b = r.uniform(-2, 5, size=(n, 1 if kind == "col" else m))
    if salt % 6 == 4:                   # undefined for one isomer or at one temperature
        b[r.randint(n), r.randint(b.shape[1])] = r.choice([np.nan, np.inf, -np.inf])
    if kind == "ro":
        b.flags.writeable = False
    return b


class Interrupter:
    """Raises KeyboardInterrupt at the nth entry to or return from a function of occuprob."""

    def __init__(self, nth):
        import threads
        self.prefix = threads.REPO
        self.nth, self.n, self.fired = nth, 0, None

    def hit(self, frame, ev):
        if self.fired is None:
            if self.n == self.nth:
                self.fired = "%s %s" % (ev, frame.f_code.co_name)
                raise KeyboardInterrupt("injected")
            self.n += 1

    def glob(self, frame, event, arg):
        co = frame.f_code
        if event == "call" and co.co_filename.startswith(self.prefix) and not co.co_name.startswith("__") \
                and not co.co_flags & 0x20 and co.co_name not in ("<listcomp>", "<dictcomp>", "<genexpr>", "<lambda>"):
            self.hit(frame, "entering")
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == "return" and arg is not None:
            self.hit(frame, "leaving")
        return self.loc


class Player:
    """Executes a history with the real library."""

    def __init__(self, case):
        self.case = case
        self.n = case["n"]
        self.pfs, self.args, self.models, self.lists, self.T = [], [], [], [], {}
        self.results, self.recs = [], []
        self.problems = []

    def guard(self, what):
        for k, (res, copy, wh) in enumerate(self.results):
            if res is not None and wh != "scribbled" and bits(res) != bits(copy):
                self.problems.append("%s changed the array returned by query %d" % (what, k))
                self.results[k] = (res, res.copy(), wh)
        for k, (a, copies) in enumerate(self.args):
            for x, y in zip(a, copies):
                if bits(x) != bits(y):
                    self.problems.append("%s changed an array given to contribution %d" % (what, k))
                    x[...] = y
        for k, pf in enumerate(self.pfs):
            for x, y in getattr(pf, "kept", {}).values():
                if bits(x) != bits(y):
                    self.problems.append("%s changed an array that contribution %d keeps" % (what, k))
                    x[...] = y

    def step(self, k, op):
        import occuprob as o
        kind = op[0]
        if kind == "pf":
            b = make_pf_args(op[1])
            copies = [x.copy() for x in b]
            pf, a = make_pf(op[1], b)
            self.pfs.append(pf)
            self.args.append((a, copies))
        elif kind == "model":
            self.models.append(o.SuperpositionApproximation())
        elif kind == "add":
            its = [self.pfs[i] for i in op[2]]
            if op[3] == "single":
                self.models[op[1]].add_partition_functions(its[0])
            else:
                c = list(its) if op[3] == "list" else tuple(its)
                self.models[op[1]].add_partition_functions(c)
                if [id(x) for x in c] != [id(x) for x in its]:
                    self.problems.append("add changed the list it was given")
                if op[3] == "list":
                    self.lists.append(c)
        elif kind == "addlist":
            c = self.lists[op[2]]
            was = list(c)
            self.models[op[1]].add_partition_functions(c)
            if c != was:
                self.problems.append("add changed the list it was given")
        elif kind == "mutlist":
            c = self.lists[op[1]]
            mutate(c, op[2], self.pfs[op[3] % len(self.pfs)])
        elif kind == "T":
            self.T[op[1]] = layout(dec(op[2]), op[3])
        elif kind == "Tset":
            t = self.T[op[1]]
            if t.flags.writeable:
                tset(t, op[2], op[3])
        elif kind == "scribble":
            r = self.results[op[1]][0]
            if r is not None and r.flags.writeable:
                r[...] = op[2]
                self.results[op[1]] = (r, None, "scribbled")
        elif kind == "gc":
            _gc.collect()
        elif kind == "retune":              # the user changes a contribution of their own
            pf = self.pfs[op[1]]
            pf.a *= op[2]
            for key in list(pf.kept):
                del pf.kept[key]
        elif kind in ("q", "pq"):
            self.query(k, op)

    def query(self, k, op):
        t = self.T[op[3]]
        tcopy = t.copy()
        obs = ocopy = None
        target = self.models[op[1]] if op[0] == "q" else self.pfs[op[1]]
        a = [t]
        if op[2] == "calc_ensemble_average":
            obs = observable(self.n, t.size, op[4], k)
            ocopy = obs.copy()
            a.append(obs)
        rec = {"k": k, "T": tcopy, "obs": ocopy}
        fault = (self.case.get("faults") or {}).get(str(k))
        self.call(rec, getattr(target, op[2]), a, fault)
        res = rec.pop("raw", None)
        if bits(t) != bits(tcopy):
            self.problems.append("query %d changed its temperature array" % k)
            t[...] = tcopy
        if obs is not None and bits(obs) != bits(ocopy):
            self.problems.append("query %d changed its observable array" % k)
        if isinstance(res, np.ndarray):
            rec["res"] = res.copy()
            for x in [t] + ([obs] if obs is not None else []):
                if np.shares_memory(x, res):
                    self.problems.append("query %d returned its caller's own argument memory" % k)
            if op[0] == "q":
                for pf in self.pfs:
                    for x, _ in getattr(pf, "kept", {}).values():
                        if np.shares_memory(x, res):
                            self.problems.append("query %d returned memory of an array that a contribution keeps" % k)
            for a_, c_ in self.args:
                for x in a_:
                    if np.shares_memory(x, res):
                        self.problems.append("query %d returned memory of an array given to a contribution" % k)
        elif "exc" not in rec:
            rec["res"] = res if res is None or isinstance(res, (int, float, str)) else repr(type(res))
        if op[0] == "pq" and hasattr(target, "kept"):
            res = None                  # what a user's contribution returns is the user's business
        self.results.append((res if isinstance(res, np.ndarray) else None, rec.get("res") if isinstance(res, np.ndarray) else None, "live"))
        rec["T"] = np.ascontiguousarray(tcopy)
        rec["lay"] = "strided" if t.size > 1 and not t.flags.c_contiguous else "plain"
        if ocopy is not None:
            rec["obs"] = ocopy
        self.recs.append(rec)

    def call(self, rec, fn, args, fault):
        so = sys.stdout
        sys.stdout = buf = io.StringIO()
        Probe.plan, Probe.n, Probe.fired = None, 0, False
        inter = None
        try:
            try:
                if fault:
                    if fault["kind"] == "user":
                        Probe.plan = fault
                    elif fault["kind"] == "interrupt":
                        inter = Interrupter(fault["at"])
                        sys.settrace(inter.glob)
                    elif fault["kind"] == "alloc":
                        core.shim.sim_alloc_arm(fault["at"], fault["min"])
                rec["raw"] = fn(*args)
            finally:
                sys.settrace(None)
                if fault and fault["kind"] == "alloc":
                    core.shim.sim_alloc_disarm()
        except BaseException as e:
            rec["exc"] = chain(e)
            rec["msg"] = str(e)[:200]
            e = None
        finally:
            sys.stdout = so
        if fault:
            rec["fault"] = fault["kind"]
            rec["fired"] = bool(Probe.fired or (inter and inter.fired) or
                                (fault["kind"] == "alloc" and core.shim.sim_alloc_failures() > 0))
            rec["site"] = inter.fired if inter else ""
        Probe.plan = None
        rec["out"] = buf.getvalue()

    def run(self):
        for k, op in enumerate(self.case["ops"]):
            self.step(k, op)
            self.guard("operation %d (%s)" % (k, op[0]))
        return {"recs": self.recs, "problems": self.problems}


def chain(e):
    out = []
    while e is not None and len(out) < 6:
        out.append([c.__name__ for c in type(e).__mro__])
        e = e.__cause__ or e.__context__
    return out


def mutate(c, how, x):
    if how == "append":
        c.append(x)
    elif how == "clear":
        c.clear()
    elif how == "reverse":
        c.reverse()
    elif how == "pop" and c:
        c.pop()
    elif how == "set" and c:
        c[0] = x


def tset(t, how, v):
    if how == "shift":
        t += 3.0 + 10 * v
    elif how == "scale":
        t *= 1.5 + v
    elif how == "reverse":
        t[...] = t[::-1].copy()
    elif how == "swap":
        if t.size > 3:
            t[1], t[-2] = t[-2], t[1]
    elif t.size > 2:
        t[1:-1] = 1.0 + 200 * v + np.arange(t.size - 2)


def play(case):
    return Player(case).run()


def fresh(specs, method, temps, lay, obs, one):
    """What a freshly built model returns, in a process that did nothing else."""
    import occuprob as o
    t = temps
    if lay == "strided":
        t = np.zeros(2 * temps.size, temps.dtype)[::2]
        t[...] = temps
    a = [t] + ([obs] if obs is not None else [])
    if one:
        return {"res": np.array(getattr(make_pf(specs[0])[0], method)(*a))}
    m = o.SuperpositionApproximation()
    for s in specs:
        m.add_partition_functions(make_pf(s)[0])
    r = {"res": getattr(m, method)(*a)}
    if method == "calc_heat_capacity":      # a difference of squares: their size bounds the rounding
        with np.errstate(all="ignore"):
            w = sum(np.abs(make_pf(s)[0].calc_part_func_w(t)).astype(float) for s in specs)
            r["scale"] = np.where(np.isfinite(w), w, 0.0).max(axis=0) ** 2
    return r


def contents(case):
    """Independent bookkeeping: contributions of each model at each query."""
    specs, models, lists, at = [], [], [], {}
    for k, op in enumerate(case["ops"]):
        kind = op[0]
        if kind == "pf":
            specs.append(op[1])
        elif kind == "model":
            models.append([])
        elif kind == "add":
            models[op[1]] += op[2]
            if op[3] == "list":
                lists.append(list(op[2]))
        elif kind == "addlist":
            models[op[1]] += list(lists[op[2]])
        elif kind == "mutlist":
            mutate(lists[op[1]], op[2], op[3] % len(specs))
        elif kind == "retune":
            kind_, p = specs[op[1]]
            specs[op[1]] = [kind_, [[x * op[2] for x in p[0]], p[1]]]
        elif kind == "q":
            at[k] = [specs[i] for i in models[op[1]]]
        elif kind == "pq":
            at[k] = [specs[op[1]]]
    return at


def equal(a, b, scale=0.0):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * np.abs(b) + 1e-13 * scale + 1e-300)
    return bool(np.all(ok))


class Api:
    def proc(self, ctx, fn, args):
        if not hasattr(ctx, "apifs"):
            ctx.apifs = core.SimFS(ctx.scratch, "api")
        r = core.Run(ctx.apifs, None, ctx.stats)
        p = core.Proc(0, ctx.apifs.root, fn, args, {"cwd": "w", "seed": 1})
        r.go([p])
        return p

    def fresh(self, ctx, specs, rec, op):
        key = (repr(specs), op[2], bits(rec["T"]), str(rec["T"].dtype), rec["lay"], None if rec["obs"] is None else bits(rec["obs"]), op[0])
        if key not in self.memo:
            p = self.proc(ctx, fresh, (specs, op[2], rec["T"], rec["lay"], rec["obs"], op[0] == "pq"))
            if p.result is None:
                self.memo[key] = {"err": p.err[-300:]}
            else:
                self.memo[key] = p.result
            ctx.count("probe_fresh_process")
        return self.memo[key]

    def judge(self, ctx, case, got, p):
        self.memo = {}
        at = contents(case)
        for pr in got["problems"]:
            yield V("aliasing", pr)
            return
        for rec in got["recs"]:
            k = rec["k"]
            op = case["ops"][k]
            specs = at[k]
            name = "query %d (%s of %d contributions)" % (k, op[2], len(specs))
            if rec.get("fault") and rec["fired"]:
                e = self.judge_fault(rec, specs, name, case["faults"][str(k)], ctx, op)
                if e:
                    yield e
                    return
                continue
            if "exc" in rec:
                w = self.fresh(ctx, specs, rec, op) if specs else {"res": None}
                if "err" not in w:
                    yield V("raises", "%s raises %s (%s), on a fresh model it does not" % (name, rec["exc"][0][0], rec["msg"]))
                    return
                continue
            if not specs:
                if rec["res"] is not None:
                    yield V("empty", "%s returns %s instead of None" % (name, short(rec["res"])))
                    return
                continue
            w = self.fresh(ctx, specs, rec, op)
            if "err" in w:
                yield V("differs", "%s returns a value where a fresh model raises: %s" % (name, w["err"][-200:]))
                return
            if not isinstance(rec["res"], np.ndarray) or not equal(rec["res"], w["res"], w.get("scale", 0.0)):
                yield V("differs", "%s returns %s, a freshly built model %s%s" % (
                    name, short(rec["res"]), short(w["res"]), " (after earlier failures)" if case.get("faults") else ""))
                return
            if op[0] == "q" and "at least one partition" in rec["out"]:
                yield V("message", "%s prints that no partition function was included" % name)
                return

    def judge_fault(self, rec, specs, name, fault, ctx, op):
        if not specs and op[0] == "q":
            return None
        how = fault["how"] if fault["kind"] == "user" else fault["kind"]
        if how in MALFORMED and (op[0] == "pq" or len(specs) < 2):
            return None             # nothing it would have to fit
        ctx.count("fault_%s" % how)
        if op[0] == "q" and "at least one partition" in rec["out"]:
            return V("message", "%s failed (%s) and prints that no partition function was included" % (name, fault))
        if "exc" not in rec:
            if fault["kind"] == "alloc" and isinstance(rec["res"], np.ndarray):
                w = self.fresh(ctx, specs, rec, op)
                if equal(rec["res"], w.get("res"), w.get("scale", 0.0)):
                    ctx.count("probe_alloc_survived")
                    return None
            return V("swallowed", "%s: %s was injected (%s) but the call returns %s" % (
                name, how, rec.get("site") or "in a contribution", short(rec["res"])))
        if how in MALFORMED or how == "StopIteration":     # the latter may become a RuntimeError when it crosses a generator
            return None
        want = {"interrupt": ["KeyboardInterrupt"], "alloc": ["MemoryError", "SystemError"]}.get(fault["kind"], ["AttributeError" if how == "lost" else how])
        # (NumPy itself answers some failing allocations with "returned NULL without setting an exception")
        if not any(w in mro for mro in rec["exc"] for w in want):
            return V("other-error", "%s: %s was injected but the caller gets %s (%s)" % (name, how, rec["exc"][0][0], rec["msg"]))
        return None

    def run(self, case, ctx):
        p = self.proc(ctx, play, (case,))
        if p.result is None:
            if p.status is not None and p.status < 0 and any(f["kind"] == "alloc" for f in (case.get("faults") or {}).values()):
                ctx.count("probe_died_on_allocation")       # NumPy itself does not survive it
                return []
            return [V("dies", "the process dies (status %s): %s" % (p.status, p.err[-400:]))]
        got = p.result
        ctx.book([(r["k"], r.get("exc"), None if r.get("res") is None else hashlib.md5(bits(np.asarray(r["res"]))).hexdigest()
                   if isinstance(r["res"], np.ndarray) else r["res"]) for r in got["recs"]],
                 [o[:3] if o[0] in ("q", "pq", "add") else o[0] for o in case["ops"]] + sorted((case.get("faults") or {}).items(), key=str))
        ctx.count("queries", len(got["recs"]))
        for v in self.judge(ctx, case, got, p):
            return [v]
        return []

    def describe(self, case):
        return {"history": [o if o[0] not in ("T", "pf") else [o[0]] + [x if not isinstance(x, list) else "..." for x in o[1:]]
                            for o in case["ops"]][:40], "faults": case.get("faults")}

    def shrinks(self, case):
        ops = case["ops"]
        fl = case.get("faults") or {}
        for k in sorted(fl):
            if len(fl) > 1:
                yield dict(case, faults={x: fl[x] for x in fl if x != k})
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(n - size, -1, -size):
                c = self.without(case, range(a, a + size))
                if c is not None:
                    yield c
            size //= 2
        for i, o in enumerate(ops):
            if o[0] == "T" and len(o[2]) > 1:
                for t in ([100.0, 200.0], [100.0, 150.0, 300.0]):
                    if len(t) < len(o[2]):
                        yield dict(case, ops=ops[:i] + [[o[0], o[1], t, "plain"]] + ops[i + 1:])

    def without(self, case, drop):
        """Remove operations, renumbering what refers to them; None if something breaks."""
        drop = set(drop)
        ops, fl = [], {}
        pfmap, momap, limap, qmap = {}, {}, {}, {}
        np_ = nm = nl = nq = 0
        newp = newm = newl = newq = 0
        ts = set()
        for k, o in enumerate(case["ops"]):
            o = list(o)
            gone = k in drop
            if o[0] == "pf":
                if not gone:
                    pfmap[np_] = newp; newp += 1
                np_ += 1
            elif o[0] == "model":
                if not gone:
                    momap[nm] = newm; newm += 1
                nm += 1
            elif o[0] == "add":
                if o[3] == "list":
                    if not gone and o[1] in momap and all(i in pfmap for i in o[2]):
                        limap[nl] = newl; newl += 1
                    nl += 1
                if not gone and not (o[1] in momap and all(i in pfmap for i in o[2])):
                    gone = True
                if not gone:
                    o[1], o[2] = momap[o[1]], [pfmap[i] for i in o[2]]
            elif o[0] == "addlist":
                if not gone and not (o[1] in momap and o[2] in limap):
                    gone = True
                if not gone:
                    o[1], o[2] = momap[o[1]], limap[o[2]]
            elif o[0] == "mutlist":
                if not gone and (o[1] not in limap or not newp):
                    gone = True
                if not gone:
                    o[1], o[3] = limap[o[1]], pfmap.get(o[3], 0)
            elif o[0] == "T":
                if not gone:
                    ts.add(o[1])
            elif o[0] == "Tset":
                gone = gone or o[1] not in ts
            elif o[0] == "retune":
                gone = gone or o[1] not in pfmap
                if not gone:
                    o[1] = pfmap[o[1]]
            elif o[0] == "scribble":
                gone = gone or o[1] not in qmap
                if not gone:
                    o[1] = qmap[o[1]]
            elif o[0] in ("q", "pq"):
                ok = o[1] in (momap if o[0] == "q" else pfmap) and o[3] in ts
                if not gone and not ok:
                    gone = True
                if not gone:
                    qmap[nq] = newq; newq += 1
                    o[1] = (momap if o[0] == "q" else pfmap)[o[1]]
                nq += 1
            if not gone:
                if str(k) in (case.get("faults") or {}):
                    fl[str(len(ops))] = case["faults"][str(k)]
                ops.append(o)
        if not any(o[0] in ("q", "pq") for o in ops):
            return None
        c = dict(case, ops=ops)
        if case.get("faults") is not None:
            c["faults"] = fl
        return c


def short(x):
    if isinstance(x, np.ndarray):
        return "array%s %s" % (x.shape, np.array2string(x.ravel()[:6].astype(float), threshold=6))
    return repr(x)[:80]


class C10(Api):
    id = "C10"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        return gen_history(rng, rng.choice([6, 10, 16, 24] if tier == "quick" else [10, 20, 40, 70]))


class C13(Api):
    id = "C13"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        big = rng.random() < 0.2
        case = gen_history(rng, rng.choice([8, 12, 18]), user=0.5, big=big)
        qs = [k for k, o in enumerate(case["ops"]) if o[0] in ("q", "pq")]
        faults = {}
        for k in qs:
            if rng.random() < 0.45:
                u = rng.random()
                if u < (0.6 if not big else 0.3):
                    faults[str(k)] = {"kind": "user", "at": rng.choice([0, 0, 1, 2, 3]),
                                      "how": rng.choice(EXC + MALFORMED + ["lost", "lost", "ValueError", "TypeError", "TypeError", "AttributeError", "KeyError"])}
                elif u < 0.9 if not big else u < 0.5:
                    faults[str(k)] = {"kind": "interrupt", "at": int(rng.choice([rng.randrange(6), rng.randrange(40)]))}
                else:
                    faults[str(k)] = {"kind": "alloc", "at": rng.randrange(25), "min": 4000 if big else 600}
        case["faults"] = faults
        # ask again after every failure, without one
        ops, fl = [], {}
        for k, o in enumerate(case["ops"]):
            if str(k) in faults:
                fl[str(len(ops))] = faults[str(k)]
            ops.append(o)
            if str(k) in faults and rng.random() < 0.7:
                ops.append(list(o))
        # query numbers of scribbles have shifted; that is harmless, they still name earlier queries
        case["ops"], case["faults"] = ops, fl
        return case


CHECKS = {"C10": C10(), "C13": C13()}
