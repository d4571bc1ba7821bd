"""C14: library calls leave process-wide state as they found it."""
import builtins, csv, decimal, errno, faulthandler, gc as _gc, io, locale, logging, math, os, random, resource, signal, socket, sys
import tempfile, threading, time, tracemalloc, warnings
import numpy as np
import core, gen, apichecks
from core import rng_for
from cliworld import gen_plan, shrink_plan

V = lambda sig, msg: {"sig": sig, "msg": msg}


# ---------------------------------------------------------------------------
# in the simulated process

def fds():
    out = {}
    for x in os.listdir("/proc/self/fd"):
        try:
            out[int(x)] = os.readlink("/proc/self/fd/" + x)
        except OSError:
            pass
    # (matplotlib keeps the font files it has used open, that is not the library's doing)
    return {k: v for k, v in out.items() if not v.endswith("/fd") and not v.endswith((".ttf", ".afm", ".otf", ".pfb"))}


def funcs(mod, names):
    return {n: id(getattr(mod, n, None)) for n in names}


def snapshot():
    """Process-wide state, by name."""
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib import _pylab_helpers
    s = {}
    s["NumPy error handling"] = (np.geterr(), id(np.geterrcall()), np.getbufsize())
    s["NumPy print options"] = repr(sorted(np.get_printoptions().items(), key=str))
    s["warning filters"] = repr(warnings.filters)
    s["warnings.showwarning"] = (id(warnings.showwarning), id(warnings.formatwarning))
    s["NumPy global random generator"] = repr([x.tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()])
    s["Python global random generator"] = hash(random.getstate())
    s["matplotlib defaults"] = {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}
    s["matplotlib default defaults"] = {k: repr(v) for k, v in dict.items(matplotlib.rcParamsDefault)}
    s["matplotlib interactive mode"] = matplotlib.is_interactive()
    s["matplotlib backend"] = matplotlib.get_backend()
    s["current directory"] = os.getcwd()
    m = os.umask(0o22)
    os.umask(m)
    s["umask"] = m
    s["environment variables"] = dict(os.environ)
    s["signal handlers"] = {n.name: repr(signal.getsignal(n)) for n in signal.Signals
                            if n not in (signal.SIGKILL, signal.SIGSTOP)}
    s["timers"] = (signal.getitimer(signal.ITIMER_REAL)[1], signal.getitimer(signal.ITIMER_REAL)[0] > 0)
    s["signal mask"] = sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["standard streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr))
    s["settings of the standard streams"] = [[getattr(f, a, None) for a in ("encoding", "errors", "line_buffering", "write_through", "closed")]
                                             for f in (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)]
    s["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook))
    s["sys.path"] = list(sys.path)
    s["sys.argv"] = list(sys.argv)
    s["import hooks"] = [id(x) for x in sys.meta_path] + [id(x) for x in sys.path_hooks]
    s["garbage collector"] = (_gc.isenabled(), _gc.get_threshold(), _gc.get_debug())
    s["trace functions"] = (sys.gettrace(), sys.getprofile())
    c = decimal.getcontext()
    s["decimal context"] = (c.prec, c.rounding, {k.__name__: v for k, v in c.traps.items()})
    s["logging"] = (logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable,
                    {n: (l.level, l.propagate, l.disabled, len(l.handlers)) for n, l in list(logging.root.manager.loggerDict.items())
                     if isinstance(l, logging.Logger)})
    s["resource limits"] = [resource.getrlimit(getattr(resource, n)) for n in
                            ("RLIMIT_NOFILE", "RLIMIT_AS", "RLIMIT_STACK", "RLIMIT_CPU", "RLIMIT_FSIZE", "RLIMIT_CORE")]
    s["processor affinity"] = sorted(os.sched_getaffinity(0))
    s["fault handler"] = faulthandler.is_enabled()
    s["memory tracing"] = tracemalloc.is_tracing()
    s["integer string limit"] = sys.get_int_max_str_digits()
    s["bytecode writing"] = sys.dont_write_bytecode
    s["thread stack size"] = threading.stack_size()
    s["CSV field limit"] = csv.field_size_limit()
    s["temporary directory"] = tempfile.gettempdir()
    s["colormaps"] = sorted(matplotlib.colormaps)
    ad = sys.modules.get("ase.data")
    if ad is not None:
        s["atomic data"] = (ad.atomic_masses.tobytes(), ad.covalent_radii.tobytes(), len(ad.atomic_numbers))
    s["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    s["timezone"] = (time.tzname, time.timezone)
    s["socket timeout"] = socket.getdefaulttimeout()
    s["open file descriptors"] = fds()
    s["running threads"] = sorted(t.name for t in threading.enumerate())
    s["number of threads"] = len(os.listdir("/proc/self/task"))
    mp = sys.modules.get("multiprocessing.context")
    if mp is not None:
        s["start method of processes"] = mp._default_context.get_start_method(allow_none=True)
    for n in ("ase.io", "ase.io.formats", "ase.io.extxyz", "ase.utils", "pymatgen.symmetry.analyzer", "matplotlib.pyplot", "matplotlib.backend_bases"):
        if n in sys.modules:
            s["functions of " + n] = {k: id(v) for k, v in vars(sys.modules[n]).items() if callable(v) and not k.startswith("__")}
    if "ase.io.formats" in sys.modules:
        s["formats of ASE"] = sorted(sys.modules["ase.io.formats"].ioformats)
    s["builtins"] = {k: id(v) for k, v in vars(builtins).items() if k != "_"}
    s["NumPy functions"] = funcs(np, ["divide", "multiply", "exp", "log", "sinh", "tanh", "sum", "prod", "stack", "savetxt",
                                      "arange", "outer", "power", "vstack", "inf", "longdouble", "float64"])
    s["os functions"] = funcs(os, ["open", "getcwd", "fsync", "rename", "replace", "path", "environ", "linesep", "sep"])
    for n, mod in sorted(sys.modules.items()):
        if n == "occuprob" or n.startswith("occuprob."):
            for k, v in vars(mod).items():
                if type(v) in (float, np.float64, np.longdouble):
                    s["constant %s.%s" % (n, k)] = repr(v)
    s["open figures"] = list(_pylab_helpers.Gcf.figs)
    return s


def diff(a, b):
    out = []
    for k in a:
        x, y = a[k], b.get(k)
        if k == "open figures":
            if [f for f in x if f not in y]:
                out.append("figures %s of the caller were closed" % [f for f in x if f not in y])
            continue
        if x == y:
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            ks = [q for q in list(x) + [z for z in y if z not in x] if x.get(q) != y.get(q)]
            if k == "builtins" or k.startswith("functions of"):
                ks = [q for q in ks if q in x]
            if not ks:
                continue
            out.append("%s: %s" % (k, ", ".join("%s %r -> %r" % (q, x.get(q), y.get(q)) for q in ks[:3])))
        elif k == "logging":
            if x[:3] != y[:3]:
                out.append("logging: %r -> %r" % (x[:3], y[:3]))
            elif any(x[3][n] != y[3].get(n) for n in x[3]):
                out.append("logging: %s" % [(n, x[3][n], y[3].get(n)) for n in x[3] if x[3][n] != y[3].get(n)][:2])
        elif k == "decimal context" and x[:3] == y[:3]:
            continue
        else:
            out.append("%s: %s -> %s" % (k, repr(x)[:150], repr(y)[:150]))
    return out


class BrokenOut(io.TextIOBase):
    def write(self, s):
        raise OSError(errno.EPIPE, "broken stdout")


def handler(sig, frame):
    pass


def errcall(a, b):
    pass


def user(op, base):
    """The program around the library changes its own state."""
    import matplotlib
    import matplotlib.pyplot as plt
    what, v = op[1], op[2]
    if what == "seterr":
        np.seterrcall(errcall)
        np.seterr(**v)
    elif what == "warnings":
        warnings.simplefilter(v)
    elif what == "seed":
        random.seed(v)
        np.random.seed(v)
    elif what == "rc":
        matplotlib.rcParams.update(v)
    elif what == "umask":
        os.umask(v)
    elif what == "chdir":
        os.makedirs(os.path.join(base, v), exist_ok=True)
        os.chdir(os.path.join(base, v))
    elif what == "env":
        os.environ[v[0]] = v[1]
    elif what == "signal":
        signal.signal(getattr(signal, v), handler)
    elif what == "recursion":
        sys.setrecursionlimit(v)
    elif what == "print":
        np.set_printoptions(**v)
    elif what == "figure":
        plt.figure(figsize=(2, 2))
        plt.plot([1, 2], [v, v + 1])
    elif what == "closeall":
        plt.close("all")
    elif what == "gc":
        _gc.disable() if v else _gc.enable()
    elif what == "decimal":
        decimal.getcontext().prec = v
    elif what == "log":
        logging.getLogger("matplotlib").setLevel(v)
    elif what == "bufsize":
        np.setbufsize(v)
    elif what == "stdout":
        sys.stdout = BrokenOut()
    elif what == "hook":
        sys.excepthook = lambda *a: None
    elif what == "locale":
        locale.setlocale(locale.LC_ALL, v)
    elif what == "timeout":
        socket.setdefaulttimeout(v)
    elif what == "interactive":
        matplotlib.interactive(v)
    elif what == "draw":
        random.random()
        np.random.rand()


def call(op, base):
    import occuprob as o
    from occuprob import io as oio
    kind = op[0]
    if kind == "query":
        m = o.SuperpositionApproximation()
        n = 0
        for s in op[1]:
            if s == "junk":
                m.add_partition_functions(7)
                continue
            pf = apichecks.make_pf(s)[0]
            m.add_partition_functions([pf] if op[5] else pf)
        t = np.array(apichecks.dec(op[3]))
        a = [t]
        if op[2] == "calc_ensemble_average":
            a.append(np.ones((op[4], t.size)))
        f = op[6]
        apichecks.Probe.plan, apichecks.Probe.n, apichecks.Probe.fired = (f if f and f["kind"] == "user" else None), 0, False
        try:
            if f and f["kind"] == "alloc":
                core.shim.sim_alloc_arm(f["at"], 512)
            getattr(m, op[2])(*a)
        finally:
            core.shim.sim_alloc_disarm()
            apichecks.Probe.plan = None
    elif kind == "pq":
        getattr(apichecks.make_pf(op[1])[0], op[2])(np.array(apichecks.dec(op[3])))
    elif kind == "load":
        oio.load_properties_from_extxyz(os.path.join(base, op[1]))
    elif kind == "plot":
        d = dict(op[3])
        oio.plot_results(np.array(op[1]) if op[1] is not None else None, np.array(op[2]), os.path.join(base, op[4]), **d)
    elif kind == "main":
        import occuprob.cli as cli
        argv = sys.argv
        sys.argv = ["occuprob"] + [x.replace("<root>", base) for x in op[1]]
        try:
            cli.main()
        finally:
            sys.argv = argv


def play(ops, files):
    shim = core.shim
    base = os.getcwd()
    shim.sim_pause(1)
    for rel, text in files:
        with open(os.path.join(base, rel), "w") as f:
            f.write(text)
    recs = []
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = [io.TextIOWrapper(io.BytesIO(), encoding="utf-8") for _ in "oe"]
    try:
        for k, op in enumerate(ops):
            if op[0] == "user":
                user(op, base)
                continue
            _gc.collect()
            before = snapshot()
            rec = {"op": k}
            shim.sim_mark(k)
            shim.sim_pause(0)
            try:
                call(op, base)
            except BaseException as e:
                rec["exc"] = "%s: %s" % (type(e).__name__, str(e)[:100])
                e = None
            shim.sim_pause(1)
            _gc.collect()
            rec["diff"] = diff(before, snapshot())
            recs.append(rec)
    finally:
        sys.stdout, sys.stderr = so, se
        np.seterr(all="ignore")
        _gc.enable()
        shim.sim_pause(0)
    return {"recs": recs}


# ---------------------------------------------------------------------------

def gen_user(rng):
    w = rng.choice(["seterr", "seterr", "seterr", "warnings", "warnings", "seed", "rc", "rc", "rc", "umask", "chdir", "env", "signal",
                    "recursion", "print", "figure", "closeall", "gc", "decimal", "log", "bufsize", "stdout", "hook", "locale",
                    "timeout", "interactive", "draw"])
    v = {"seterr": lambda: rng.choice([{"all": x} for x in ("raise", "ignore", "warn", "call")] +
                                      [{"divide": "raise", "over": "ignore", "invalid": "warn"}, {"invalid": "raise"}]),
         "warnings": lambda: rng.choice(["error", "ignore", "always", "default"]),
         "seed": lambda: rng.randrange(1000),
         "rc": lambda: rng.choice([{"figure.dpi": 75.0}, {"lines.linewidth": 5.0}, {"font.size": 7.0}, {"savefig.format": "svg"}, {"savefig.dpi": 60.0},
                                   {"axes.formatter.limits": [-3, 4]}, {"savefig.bbox": "tight"}, {"lines.marker": "o"},
                                   {"axes.grid": True}, {"figure.figsize": [3.0, 3.0]}, {"svg.fonttype": "none"},
                                   {"legend.frameon": False}, {"mathtext.default": "regular"}, {"figure.max_open_warning": 1}]),
         "umask": lambda: rng.choice([0, 0o77, 0o27]),
         "chdir": lambda: rng.choice(["d", ".", "e/f"]),
         "env": lambda: rng.choice([["MPLBACKEND", "svg"], ["OMP_NUM_THREADS", "2"], ["LANG", "C"], ["OCCU", "1"], ["TZ", "UTC"]]),
         "signal": lambda: rng.choice(["SIGUSR1", "SIGTERM", "SIGALRM", "SIGPIPE", "SIGHUP"]),
         "recursion": lambda: rng.choice([1500, 2500]),
         "print": lambda: rng.choice([{"precision": 3}, {"threshold": 5, "suppress": True}, {"linewidth": 40}]),
         "figure": lambda: rng.randrange(5), "closeall": lambda: 0, "gc": lambda: rng.random() < 0.5,
         "decimal": lambda: rng.choice([5, 50]), "log": lambda: rng.choice([10, 30, 40]), "bufsize": lambda: rng.choice([1024, 65536]),
         "stdout": lambda: 0, "hook": lambda: 0, "locale": lambda: rng.choice(["C", "C.UTF-8"]),
         "timeout": lambda: rng.choice([None, 5.0]), "interactive": lambda: rng.random() < 0.5, "draw": lambda: 0}[w]()
    return ["user", w, v]


def temps(rng):
    """Temperatures, sometimes ones that make no sense."""
    t = apichecks.enc(apichecks.gen_temps(rng))
    if rng.random() < 0.2:
        for _ in range(rng.choice([1, 1, 3])):
            t[rng.randrange(len(t))] = rng.choice([-1.0, -300.0, "nan", "-inf", 1e-300, 1e300, 5e-324])
        if rng.random() < 0.2:
            t = []
    return t


def odd_values(rng, specs):
    """Values for which a calculation divides by zero, overflows or is undefined."""
    for kind, p in [s for s in specs if s != "junk"]:
        x = rng.choice([0.0, -1.0, float("nan"), float("inf"), 1e308, 1e-320])
        if kind == "elec":
            p[0][rng.randrange(len(p[0]))] = x
        elif kind in ("cls", "qua"):
            p[0][rng.randrange(len(p[0]))][0] = x
        elif kind == "rot":
            p[1][rng.randrange(len(p[1]))][2] = x


def gen_query(rng):
    n, kappa = rng.choice([1, 2, 3]), rng.choice([1, 3])
    specs = [apichecks.gen_pf(rng, n, kappa, 0.3) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if rng.random() < 0.1:
        specs.insert(rng.randrange(len(specs) + 1), apichecks.gen_pf(rng, n + 1, kappa, 0))
    if rng.random() < 0.06:
        specs.append("junk")
    f = None
    u = rng.random()
    if u < 0.35 and any(s[0] == "user" for s in specs):
        f = {"kind": "user", "at": rng.choice([0, 0, 1, 2]), "how": rng.choice(apichecks.EXC + apichecks.MALFORMED)}
    elif u < 0.45:
        f = {"kind": "alloc", "at": rng.randrange(20)}
    if rng.random() < 0.1:
        odd_values(rng, specs)
    return ["query", specs, rng.choice(apichecks.MQ), temps(rng),
            n if rng.random() < 0.85 else n + 1, rng.random() < 0.5, f]


def gen_plot(rng):
    n, m = rng.choice([1, 2, 3]), rng.choice([2, 5, 20])
    data = [[round(rng.uniform(0, 1), 3) for _ in range(m)] for _ in range(n)]
    t = [float(10 * i) for i in range(m)]
    f = {}
    if rng.random() < 0.6:
        f["labels"] = ["s%d" % i for i in range(n)]
    if rng.random() < 0.5:
        f["ylims"] = [-0.05, 1.05]
    if rng.random() < 0.5:
        f["ylabel"] = rng.choice(["y", "$x^2$"])
    if rng.random() < 0.5:
        f["size"] = [4.0, 3.0]
    if rng.random() < 0.3:
        f["hline_pos"] = [0, 1]
    if rng.random() < 0.3:
        f["linewidth"] = 3
    name = rng.choice(["p.svg", "p.svg", "p.png", "sub/p.svg"])
    bad = rng.choice([None] * 5 + ["labels", "ylims", "size", "linewidth", "format", "dir", "short", "ylabel", "empty", "none"])
    if bad == "labels":
        f["labels"] = ["a"] * max(0, n - 1) or [None]
    elif bad == "ylims":
        f["ylims"] = rng.choice(["abc", [1.0], [float("nan"), 1.0]])
    elif bad == "size":
        f["size"] = rng.choice([[0.0, 0.0], [-1.0, 2.0], "big"])
    elif bad == "linewidth":
        f["linewidth"] = "thick"
    elif bad == "format":
        name = "p.nope"
    elif bad == "dir":
        name = "nowhere/p.svg"
    elif bad == "short":
        t = t[:-1]
    elif bad == "ylabel":
        f["ylabel"] = "$\\nope{"
    elif bad == "empty":
        t = []
    elif bad == "none":
        data = None
    return ["plot", data, t, f, name]


class C14:
    id = "C14"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        iso = gen.gen_isomers(rng, 4)
        fmt = gen.gen_fmt(rng)
        good = gen.render(iso, fmt)
        bad = [dict(x) for x in iso]
        bad[-1]["drop"] = "Energy"
        files = [["good.xyz", good], ["bad.xyz", gen.render(bad, fmt)], ["cut.xyz", good[:int(len(good) * rng.uniform(0.2, 0.9))]]]
        ops = []
        for _ in range(rng.choice([3, 5, 7] if tier == "quick" else [6, 10, 16])):
            u = rng.random()
            if u < 0.35:
                ops.append(gen_user(rng))
            elif u < 0.58:
                ops.append(gen_query(rng))
            elif u < 0.62:
                n = rng.choice([1, 2])
                ops.append(["pq", apichecks.gen_pf(rng, n, 3, 0), rng.choice(apichecks.PQ), temps(rng)])
            elif u < 0.74:
                ops.append(["load", rng.choice(["good.xyz"] * 5 + ["bad.xyz", "cut.xyz", "nope.xyz"])])
            elif u < 0.87:
                ops.append(gen_plot(rng))
            else:
                f = rng.choice(["good.xyz"] * 5 + ["bad.xyz", "nope.xyz"])
                a = ["<root>/" + f] + rng.choice([[], ["-e"], ["-e"], ["-r"], ["-s", "-q"], ["-c", "-r"], ["-e", "-q", "-r"]]) + \
                    ["--max_temp", rng.choice(["20"] * 5 + ["100"] * 4 + ["0", "0.5", "-3", "nan"])] + \
                    rng.choice([[]] * 8 + [["--min_temp", "-20"], ["--min_temp", "-0.5"], ["--min_temp", "30"]]) + rng.choice([[], [], [], ["--plot"], ["--plot"], ["--plot"], ["--plot", "--plot_format", "nope"],
                                                                              ["--version"], ["--help"], ["--oops"], ["-e", "-s"],
                                                                              ["--out_file", "<root>/nodir/x"], ["--out_file", "<root>/o"]])
                ops.append(["main", a])
        return {"ops": ops, "files": files, "plan_seed": rng.randrange(10**9), "nplans": 2 if tier == "quick" else 4}

    def one(self, case, ctx, plan):
        fs = core.SimFS(ctx.scratch, ctx.fresh("s"))
        r = core.Run(fs, plan, ctx.stats)
        p = core.Proc(0, fs.root, play, (case["ops"], case["files"]), core.armed({"cwd": "w", "seed": 1}, plan))
        os.makedirs(fs.path("w/sub"))
        r.go([p])
        ctx.account(r)
        fs.destroy()
        return r, p

    def run(self, case, ctx):
        plans = case.get("plans")
        derived = plans is None
        rng = random.Random(case["plan_seed"])
        todo = [None] if derived else list(plans)
        while todo:
            plan = todo.pop(0)
            r, p = self.one(case, ctx, plan)
            c2 = dict(case, plans=[plan])
            if p.result is None:
                if any(o[0] == "query" and o[6] and o[6]["kind"] == "alloc" for o in case["ops"]):
                    ctx.count("probe_died_on_allocation")
                    return []
                if p.status == 130 and (plan or {}).get("comp"):
                    ctx.count("probe_interrupted_outside")      # the interrupt came before or after the call it was meant for
                    continue
                return [dict(V("dies", "the process dies (status %s): %s" % (p.status, p.err[-300:])), case=c2)]
            for rec in p.result["recs"]:
                op = case["ops"][rec["op"]]
                ctx.count("probe_calls_%s_%s" % (op[0], "failed" if "exc" in rec else "ok"))
                if rec["diff"]:
                    return [dict(V("state", "operation %d (%s%s) leaves behind: %s" % (
                        rec["op"], op[0], ", failing with %s" % rec["exc"] if "exc" in rec else "", "; ".join(rec["diff"])[:600])), case=c2)]
            if derived:
                derived = False
                ev = [e for e in r.events if e[2] != "MARK" and e[3].startswith("w/")]
                if ev:
                    todo = [gen_plan(rng, ev, ["fail", "fail", "persist", "comp"]) for _ in range(case["nplans"])]
        return []

    def describe(self, case):
        return {"history": [[repr(x)[:60] for x in o] for o in case["ops"]], "plans": case.get("plans", "derived")}

    def shrinks(self, case):
        ops = case["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield dict(case, ops=ops[:i] + ops[i + 1:])
        for p in case.get("plans") or []:
            if p:
                yield dict(case, plans=[None])
                for q in shrink_plan(p):
                    yield dict(case, plans=[q])


CHECKS = {"C14": C14()}
