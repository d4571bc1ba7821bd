"""C15: a saved plot shows its own data, whatever was plotted before."""
import io, json, math, os, random, sys
import numpy as np
import core, gen, plotlib
from core import rng_for
from cliworld import gen_plan, shrink_plan

V = lambda sig, msg: {"sig": sig, "msg": msg}
SHARED = ("labels", "size", "ylims", "hline_pos")


# ---------------------------------------------------------------------------
# in the simulated process

def fsig(fig):
    """What a figure shows."""
    out = [[round(float(x), 6) for x in fig.get_size_inches()], fig._suptitle.get_text() if fig._suptitle else None,
           len(fig.texts), len(fig.lines), len(fig.patches), len(fig.images), round(float(fig.get_dpi()), 6)]
    for ax in fig.axes:
        a = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), [float(x) for x in ax.get_xlim()], [float(x) for x in ax.get_ylim()],
             ax.get_xscale(), ax.get_yscale(), len(ax.collections), len(ax.patches), len(ax.images), [t.get_text() for t in ax.texts],
             [round(float(x), 6) for x in ax.get_position().bounds],
             None if ax.get_legend() is None else [t.get_text() for t in ax.get_legend().get_texts()]]
        for l in ax.lines:
            a.append([l.get_label(), repr(l.get_color()), l.get_linewidth(), l.get_linestyle(), l.get_marker(),
                      np.asarray(l.get_xdata(), float).tolist(), np.asarray(l.get_ydata(), float).tolist()])
        out.append(a)
    return out


def registered(f):
    from matplotlib._pylab_helpers import Gcf
    return f.number in Gcf.figs and Gcf.figs[f.number].canvas.figure is f


def user(op, figs):
    import matplotlib.figure
    import matplotlib.pyplot as plt
    what, v = op[1], op[2]
    if what == "figure":
        f = plt.figure(**({"num": v["num"]} if v.get("num") is not None else {}), figsize=v["size"])
        for k in range(v["axes"]):
            ax = f.add_subplot(1, v["axes"], k + 1)
            ax.plot(range(len(v["y"])), v["y"], label="mine %d" % k)
            ax.set_xlabel("user x")
            ax.set_ylabel("user y")
            if v.get("xlim"):
                ax.set_xlim(*v["xlim"])
            if v.get("legend"):
                ax.legend()
        if v.get("title"):
            f.suptitle(v["title"])
        if f not in figs:
            figs.append(f)
    elif what == "oofigure":        # never seen by pyplot
        f = matplotlib.figure.Figure(figsize=v["size"])
        f.add_subplot().plot(v["y"])
        figs.append(f)
    elif what == "many":            # a caller that keeps lots of figures
        figs += [plt.figure(figsize=(1.0, 1.0)) for _ in range(v)]
    elif what == "select":          # one of the user's figures becomes the current one
        live = [f for f in figs if hasattr(f, "number") and registered(f)]
        if live:
            plt.figure(live[v % len(live)].number)
    elif what == "draw":            # the user draws on whatever is current
        plt.plot([0, 1], [v, v])
        plt.title("drawn by the user")
    elif what == "close":
        if plt.get_fignums():
            plt.close()
    elif what == "closeall":
        plt.close("all")
    elif what == "show":            # harmless queries
        plt.get_fignums()
        if plt.get_fignums():
            try:
                plt.gcf().canvas.draw()
            except Exception:           # a figure with unprintable text, left by a failed call
                pass


def call(op, base, shared):
    from occuprob import io as oio
    if op[0] == "plot":
        d = {k: shared["k%d" % v["shared"]] if isinstance(v, dict) else v for k, v in op[3].items()}
        y = None if op[1] is None else np.array(op[1], dtype=np.longdouble if op[5] == "long" else float)
        t = np.array(op[2])
        if op[5] == "list" and y is not None:
            y, t = [np.array(r) for r in op[1]], list(op[2])
        before = repr((d, y, t))
        oio.plot_results(y, t, os.path.join(base, op[4]), **d)
        if repr((d, y, t)) != before:
            return "an argument was modified: %s -> %s" % (before[:200], repr((d, y, t))[:200])
    else:
        import occuprob.cli as cli
        argv = sys.argv
        sys.argv = ["occuprob"] + [x.replace("<root>", base) for x in op[1]]
        try:
            cli.main()
        finally:
            sys.argv = argv
    return None


def targets(op):
    if op[0] == "plot":
        return [op[4]]
    return [op[2] + "_C." + op[3], op[2] + "_P." + op[3]]


def play(ops, files, pool):
    import matplotlib
    import matplotlib.pyplot as plt
    shim = core.shim
    base = os.getcwd()
    shim.sim_pause(1)
    for rel, text in files:
        with open(os.path.join(base, rel), "w") as f:
            f.write(text)
    matplotlib.rcParams["svg.hashsalt"] = "fixed"       # or ids in the image would be random
    shared = {"k%d" % i: x for i, x in enumerate(pool)}
    figs, recs = [], []
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        for k, op in enumerate(ops):
            if op[0] == "user":
                user(op, figs)
                continue
            mine = [f for f in figs if getattr(f, "number", None) is None or registered(f)]
            sigs = [repr(fsig(f)) for f in mine]
            rec = {"op": k}
            shim.sim_mark(k)
            shim.sim_pause(0)
            try:
                rec["note"] = call(op, base, shared)
            except BaseException as e:
                rec["exc"] = "%s: %s" % (type(e).__name__, str(e)[:100])
                e = None
            shim.sim_pause(1)
            for f, s in zip(mine, sigs):
                n = getattr(f, "number", None)
                if n is not None and not registered(f):
                    rec["figs"] = "figure %s of the caller was closed or replaced" % n
                elif repr(fsig(f)) != s:
                    rec["figs"] = "figure %s of the caller was changed: %s -> %s" % (n, s[:300], repr(fsig(f))[:300])
            rec["img"] = {}
            for x in targets(op) + ([op[2] + "_C.dat", op[2] + "_P.dat"] if op[0] == "main" else []):
                p = os.path.join(base, x)
                if os.path.isfile(p):
                    with open(p, "rb") as f:
                        rec["img"][x] = f.read()
            recs.append(rec)
    finally:
        sys.stdout, sys.stderr = so, se
        shim.sim_pause(0)
    return {"recs": recs}


# ---------------------------------------------------------------------------

def gen_plot(rng, pool):
    n, m = rng.choice([1, 2, 3, 5, 12]), rng.choice([2, 3, 10, 60])
    t0, dt = rng.choice([0.0, 10.0, 250.5]), rng.choice([1.0, 10.0, 0.5])
    scale = rng.choice([1, 1, 8, 0.01])
    data = [[round(rng.uniform(0, scale), 5) for _ in range(m)] for _ in range(n)]
    for _ in range(rng.choice([1, 1, 3]) if rng.random() < 0.2 else 0):
        data[rng.randrange(n)][rng.randrange(m)] = rng.choice([float("nan"), float("inf")])
    t = [t0 + dt * i for i in range(m)]
    f = {}
    if rng.random() < 0.6:
        f["labels"] = ["s%d %s" % (i, rng.choice(["", "$x$", "a b", "\u00e9"])) for i in range(n)] if rng.random() < 0.9 else None
    if rng.random() < 0.5:
        f["ylims"] = rng.choice([[-0.05, 1.05], [0.0, 10.0], [-1.0, 9.0], None, [2.0, -1.0]])
    if rng.random() < 0.6:
        f["ylabel"] = rng.choice(["y", "$x^2$", "Energy (eV)", "\u00e9nergie"])
    if rng.random() < 0.5:
        f["size"] = rng.choice([[4.0, 3.0], [8.0, 6.0], [10.0, 2.5], [3.3, 3.3]])
    if rng.random() < 0.4:
        f["hline_pos"] = rng.choice([[0, 1], [0.5], [], [0.25, 0.5, 0.75]])
    if rng.random() < 0.3:
        f["linewidth"] = rng.choice([1, 3, 0.5])
    name = rng.choice(["p.svg", "p.svg", "p.svg", "q.svg", "sub/p.svg", "p.png", "p.pdf", "p"])
    bad = rng.choice([None] * 9 + ["labels", "ylims", "size", "linewidth", "format", "dir", "short", "ylabel", "empty", "none", "ragged", "label", "hline"])
    if bad == "labels":
        f["labels"] = ["a"] * (n - 1) or [None]
    elif bad == "ylims":
        f["ylims"] = rng.choice(["abc", [float("nan"), 1.0]])
    elif bad == "size":
        f["size"] = rng.choice([[0.0, 0.0], [-1.0, 2.0], "big"])
    elif bad == "linewidth":
        f["linewidth"] = "thick"
    elif bad == "format":
        name = "p.nope"
    elif bad == "dir":
        name = rng.choice(["nowhere/p.svg", "sub"])
    elif bad == "short":
        t = t[:-1]
    elif bad == "ylabel":
        f["ylabel"] = "$\\nope{$"
    elif bad == "label":
        f["labels"] = ["$\\nope{$"] + ["b"] * (n - 1)
    elif bad == "hline":
        f["hline_pos"] = [0.2, "x"]
    elif bad == "empty":
        t = []
    elif bad == "none":
        data = None
    elif bad == "ragged":
        data[-1] = data[-1][:-1]
    for k in SHARED:
        if isinstance(f.get(k), list) and rng.random() < 0.35:
            if f[k] not in pool:
                pool.append(f[k])
            f[k] = {"shared": pool.index(f[k])}
    return ["plot", data, t, f, name, rng.choice(["array", "array", "array", "long", "list"]) if bad != "ragged" else "list"]


def gen_user(rng):
    w = rng.choice(["many"] * (rng.random() < 0.1) or ["figure", "figure", "figure", "oofigure", "select", "select", "draw", "close", "closeall", "show"])
    v = {"figure": lambda: {"num": rng.choice([None, None, 1, 2, 7, "name", ""]), "size": rng.choice([[2.0, 2.0], [8.0, 6.0], [5.0, 3.0]]),
                            "axes": rng.choice([0, 1, 1, 2]), "y": [rng.randrange(9) for _ in range(4)],
                            "xlim": rng.choice([None, [0, 10]]), "legend": rng.random() < 0.3, "title": rng.choice([None, "mine"])},
         "oofigure": lambda: {"size": [3.0, 2.0], "y": [1, 2, rng.randrange(5)]},
         "many": lambda: rng.choice([5, 9, 20, 24]), "select": lambda: rng.randrange(5), "draw": lambda: rng.randrange(5),
         "close": lambda: 0, "closeall": lambda: 0, "show": lambda: 0}[w]()
    return ["user", w, v]


def interrupts(plan):
    return any(x.get("act") == "sigint" for x in (plan or {}).get("points", []))


def resolve(op, pool):
    return [op[0], op[1], op[2], {k: pool[v["shared"]] if isinstance(v, dict) else v for k, v in op[3].items()}, op[4], op[5]] \
        if op[0] == "plot" else op


class C15:
    id = "C15"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        iso = gen.gen_isomers(rng, 4) if rng.random() < 0.7 else gen.gen_isomers(rng, count=rng.choice([11, 14, 23]), small=True)
        files = [["good.xyz", gen.render(iso, gen.gen_fmt(rng))]]
        ops, pool, made = [], [], []
        for _ in range(rng.choice([3, 5, 8] if tier == "quick" else [5, 9, 16, 24])):
            u = rng.random()
            if u < 0.35:
                ops.append(gen_user(rng))
            elif u < 0.9:
                if made and rng.random() < 0.25:
                    ops.append(rng.choice(made))
                else:
                    ops.append(gen_plot(rng, pool))
                    made.append(ops[-1])
            else:
                fmt, out = rng.choice(["svg", "svg", "png", "nope"]), rng.choice(["o", "sub/o"])
                a = ["<root>/good.xyz"] + rng.choice([["-e"], ["-r"], ["-s", "-q"], ["-c", "-r"]]) + \
                    ["--max_temp", rng.choice(["20", "100"]), "--plot", "--plot_format", fmt, "--out_file", "<root>/" + out] + \
                    rng.choice([[], [], ["--size", "4", "3"]])
                ops.append(["main", a, out, fmt])
                made.append(ops[-1])
        if not made:
            ops.append(gen_plot(rng, pool))
        return {"ops": ops, "files": files, "pool": pool, "plan_seed": rng.randrange(10**9), "nplans": 1 if tier == "quick" else 3}

    def one(self, case, ctx, plan, ops):
        fs = core.SimFS(ctx.scratch, "plot")
        r = core.Run(fs, plan, ctx.stats)
        p = core.Proc(0, fs.root, play, (ops, case["files"], case["pool"]), {"cwd": "w", "seed": 1})
        os.makedirs(fs.path("w/sub"))
        r.go([p])
        ctx.account(r)
        if p.result is None and not (r.hung or p.status in (130, 137)):
            raise core.HarnessError("plot history ended with %s: %s" % (p.status, p.err[-2000:]))
        return r, p

    def reference(self, case, ctx, memo, op):
        """The same call, alone in a fresh process."""
        key = json.dumps(op)
        if key not in memo:
            _, p = self.one(dict(case, pool=[]), ctx, None, [op])
            memo[key] = p.result["recs"][0]
        return memo[key]

    def data_check(self, op, img):
        _, ys, t, f, name, _ = op
        if not name.endswith(".svg") or any(isinstance(h, str) for h in f.get("hline_pos") or []):
            return None
        xlim, ylim = (t[0], t[-1]), f.get("ylims")
        if len(t) < 2 or (ylim is not None and not all(isinstance(v, float) and math.isfinite(v) for v in ylim)):
            xlim = None
        e = plotlib.check(plotlib.read(img), ys, t, xlim, ylim, [x.strip() for x in f.get("labels") or [] if x], f.get("ylabel") or None,
                          f.get("hline_pos") or [], f.get("size") or [8.0, 6.0], f.get("linewidth"))
        return e

    def run(self, case, ctx):
        plans = case.get("plans")
        derived = plans is None
        rng = random.Random(case["plan_seed"])
        todo = [None] if derived else list(plans)
        memo = {}
        while todo:
            plan = todo.pop(0)
            r, p = self.one(case, ctx, plan, case["ops"])
            c2 = dict(case, plans=[plan])
            if p.result is None and p.status == 130 and interrupts(plan):
                ctx.count("probe_interrupted_outside")      # the signal came before or after the call it was meant for
                continue
            if p.result is None:
                return [dict(V("dies", "the process dies or hangs (status %s): %s" % (p.status, p.err[-300:])), case=c2)]
            for rec in p.result["recs"]:
                op = resolve(case["ops"][rec["op"]], case["pool"])
                what = "operation %d (%s)" % (rec["op"], json.dumps(op)[:160])
                bad = rec.get("figs") or rec.get("note")
                ok = "exc" not in rec
                ctx.count("probe_%s_%s" % (op[0], "ok" if ok else "failed"))
                if not bad:
                    ref = self.reference(case, ctx, memo, op)
                    if ok and "exc" in ref:
                        bad = "succeeds, but fails with %s in a fresh process" % ref["exc"]
                    elif not ok and "exc" not in ref and not r.plan.hard:
                        bad = "fails with %s, but succeeds in a fresh process" % rec["exc"]
                    elif ok:
                        for x in targets(op):
                            if x not in ref["img"]:
                                continue
                            if x not in rec["img"]:
                                bad = "succeeds but leaves no image %s" % x
                            elif rec["img"][x] != ref["img"][x]:
                                bad = "writes an image %s of %d bytes that differs from that of a fresh process (%d bytes)" % (
                                    x, len(rec["img"][x]), len(ref["img"][x]))
                            elif op[0] == "plot":
                                e = self.data_check(op, rec["img"][x])
                                ctx.count("probe_image_read_back")
                                bad = bad or (e and "does not show its arguments: %s" % e)
                        if not bad and op[0] == "main" and op[3] == "svg":
                            size = [float(x) for x in op[1][op[1].index("--size") + 1:][:2]] if "--size" in op[1] else None
                            e = plotlib.check_cli_images({"size": size}, *({k: rec["img"].get("%s_%s.%s" % (op[2], k, x), b"") for k in "CP"}
                                                                           for x in ("dat", "svg")))
                            ctx.count("probe_image_read_back", 2)
                            bad = e and "does not show the tables of the run: %s" % e
                if bad:
                    return [dict(V("plot", "%s: %s" % (what, bad)), case=c2)]
            if derived:
                derived = False
                ev = [e for e in r.events if e[2] != "MARK" and e[3].startswith("w/")]
                if ev:
                    todo = [gen_plan(rng, ev, ["fail", "fail", "persist", "multi", "quota", "noise", "sigint"]) for _ in range(case["nplans"])]
        return []

    def describe(self, case):
        return {"history": [[repr(x)[:60] for x in o] for o in case["ops"]], "plans": case.get("plans", "derived")}

    def shrinks(self, case):
        ops = case["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield dict(case, ops=ops[:i] + ops[i + 1:])
        for p in case.get("plans") or []:
            if p:
                yield dict(case, plans=[None])
                for q in shrink_plan(p):
                    yield dict(case, plans=[q])
        for i, o in enumerate(ops):
            if o[0] == "plot":
                for k in o[3]:
                    yield dict(case, ops=ops[:i] + [[o[0], o[1], o[2], {a: b for a, b in o[3].items() if a != k}, o[4], o[5]]] + ops[i + 1:])


CHECKS = {"C15": C15()}
