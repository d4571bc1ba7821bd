"""Checks on the command-line program: C01 - C07, C17."""
import copy, errno, os, random
import core, gen, model
from core import rng_for
from cliworld import *


class Cli:
    plot_p, small, pre_p, nplans = 0.2, False, 0.3, 3
    kinds = ["fail"]

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        return {"base": gen_base(rng, self.plot_p, self.small, self.pre_p), "plan_seed": rng.randrange(10**9),
                "nplans": self.nplans if tier == "quick" else self.nplans * 2}

    def describe(self, case):
        c = cmds(case["base"])[0]
        return {"argv": gen.argv(c, "<tree>"), "isomers": len(c.get("iso") or []), "pre_existing": [p for p, _ in case["base"].get("pre", [])],
                "plan_seed": case.get("plan_seed"), "plans": case.get("plans", "derived from the undisturbed run: " + ", ".join(sorted(set(self.kinds))))}

    def shrinks(self, case):
        for i, p in enumerate(case.get("plans") or []):
            for q in shrink_plan(p):
                d = dict(case)
                d["plans"] = case["plans"][:i] + [q] + case["plans"][i + 1:]
                yield d
        if case.get("plans") and len(case["plans"]) > 1:
            for i in range(len(case["plans"])):
                yield dict(case, plans=case["plans"][:i] + case["plans"][i + 1:])
        for b in shrink_base(case["base"]):
            yield dict(case, base=b)

    def plans(self, case, ev):
        if "plans" in case:
            return case["plans"]
        rng = random.Random(case["plan_seed"])
        return [gen_plan(rng, ev, self.kinds) for _ in range(case["nplans"])]

    def clean(self, ctx, base, pre=False, on_event=None):
        """The undisturbed run, in a fresh directory."""
        w = World(ctx, base if pre else dict(base, pre=[]))
        c = base["cmd"]
        r = run_one(ctx, w, c, on_event=on_event)
        tabs, imgs = read_outputs(w, c)
        w.fs.destroy()
        return r, tabs, imgs

    def run(self, case, ctx):
        base = case["base"]
        r, tabs, imgs = self.clean(ctx, base)
        out = list(self.judge_clean(case, r, tabs, imgs))
        if out:
            return [dict(x, case=dict(case, plans=[])) for x in out]
        if r.proc.status != 0:
            ctx.count("probe_base_fails")
            return []           # C01 speaks about that
        for plan in self.plans(case, r.events):
            for v in self.one(ctx, base, plan, r, tabs, imgs):
                v["case"] = dict(case, plans=[plan])
                out.append(v)
                break
            if out:
                break
        return out

    def judge_clean(self, case, r, tabs, imgs):
        return []


def V(sig, msg):
    return {"sig": sig, "msg": msg}


def tail(p):
    return (p.err or "").strip().split("\n")[-1][:300]


class C01(Cli):
    id = "C01"
    plot_p = 0.3
    kinds = ["fail"] * 6 + ["persist", "quota", "quota", "multi", "multi", "noise", "sigint", "comp"]
    nplans = 4

    def judge_clean(self, case, r, tabs, imgs):
        c = case["base"]["cmd"]
        if r.proc.status != 0:
            yield V("fails", "an undisturbed run on valid input ends with status %s: %s" % (r.proc.status, tail(r.proc)))
            return
        e = compare(c, tabs)
        if e:
            yield V("values", "undisturbed run, status 0: " + e)
            return
        e = image_errors(c, imgs)
        if e:
            yield V("image", "undisturbed run, status 0: " + e)
            return
        if c["plot"] and (c["fmt"] or "svg").lower() == "svg":
            import plotlib
            e = plotlib.check_cli_images(c, tabs, imgs)
            if e:
                yield V("image", "undisturbed run, status 0: " + e)

    def one(self, ctx, base, plan, clean, tabs0, imgs0):
        c = base["cmd"]
        w = World(ctx, base)
        r = run_one(ctx, w, c, plan)
        tabs, imgs = read_outputs(w, c)
        w.fs.destroy()
        if r.proc.status == 0:
            ctx.count("probe_exit0_under_faults" if r.plan.hard else "probe_exit0_noise_only")
            e = None
            if tabs != tabs0:
                e = compare(c, tabs)
            if e:
                yield V("incomplete", "status 0 although " + e + "; faults: %s" % r.plan.fired)
                return
            e = image_errors(c, imgs, imgs0)
            if e:
                yield V("incomplete-image", "status 0 although " + e + "; faults: %s" % r.plan.fired)
        else:
            ctx.count("probe_failed_run")
            if not r.plan.hard:
                yield V("fails-noise", "no operation failed (only short or interrupted transfers %s), status %s: %s" %
                        (r.plan.fired, r.proc.status, tail(r.proc)))

    def fixed(self, ctx):
        """The recorded findings, re-run as fixed scenarios."""
        for name, c in FINDINGS.items():
            w = World(ctx, {"cmd": c})
            r = run_one(ctx, w, c)
            tabs, _ = read_outputs(w, c)
            w.fs.destroy()
            t, C, P, info = reference(c)
            strict = dict(info, zero={}, under=set())
            e = None if r.proc.status != 0 else compare(c, tabs, (t, C, P, strict))
            yield {"finding": name, "fails": e or ""}


def _iso(geom, E, freqs, g=1):
    return {"geom": geom, "E": E, "g": g, "freqs": freqs, "shift": [0, 0, 0], "perm": 1}


def _cmd(flags, iso, tmin, tmax):
    return {"flags": flags, "in": "in.xyz", "cwd": "", "out": None, "tmin": tmin, "tmax": tmax, "plot": False, "fmt": None,
            "size": None, "style": "sep", "abs": False, "eq": True, "pos": "first", "iso": iso,
            "ffmt": {"num": "repr", "order": [0, 1, 2], "extra": 0, "props": True, "pbc": False, "width": 14}}


FINDINGS = {
    "zero-temperature-zpe": _cmd(["e", "q"], [_iso("tri_eq", 0.0, [9.0, 9.0, 9.0]), _iso("tri_iso", 0.001, [1.0, 1.0, 1.0])], 0, 0),
    "low-temperature-underflow": _cmd(["e", "q"], [_iso("octa", 0.0, [30.0] * 12), _iso("prism6", 0.01, [29.0] * 12)], 0.5, 0.5),
}


class C03(Cli):
    id = "C03"
    plot_p = 0.15
    kinds = ["crash"] * 6 + ["sigint"] * 2 + ["comp"] * 2 + ["fail"] * 2 + ["quota", "persist"]
    nplans = 4

    def run(self, case, ctx):
        base = case["base"]
        c = base["cmd"]
        r0, tabs0, imgs0 = self.clean(ctx, base)
        if r0.proc.status != 0:
            return []
        if "plans" in case:
            groups = [case["plans"]]
        else:
            rng = random.Random(case["plan_seed"])
            groups = [[gen_plan(rng, r0.events, self.kinds) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                      for _ in range(case["nplans"])]
        for plans in groups:
            w = World(ctx, base)
            fired = []
            for k, plan in enumerate(plans):
                r = run_one(ctx, w, c, plan, {"pid": 4242 + k, "seed": 1 + k})
                fired.append((r.plan.fired, r.proc.status))
            ctx.count("probe_disturbed", len(plans))
            same = case.get("same_pid", True)
            r = run_one(ctx, w, c, None, {"pid": 4242 if same else 9999, "seed": 77,
                                          "clock": 1_700_000_100_000_000_000}, cap=len(r0.events) * 20 + 2000)
            tabs, imgs = read_outputs(w, c)
            w.fs.destroy()
            msg = None
            if r.capped:
                msg = "the rerun does not end"
            elif r.proc.status != 0:
                msg = "the rerun ends with status %s: %s" % (r.proc.status, tail(r.proc))
            else:
                for k in "CP":
                    if tabs[k] != tabs0[k]:
                        msg = "after the rerun table %s differs from an undisturbed run's (%s bytes, expected %d)" % (
                            k, None if tabs[k] is None else len(tabs[k]), len(tabs0[k]))
                if msg is None:
                    e = image_errors(c, imgs)
                    if e:
                        msg = "after the rerun " + e
            if msg:
                return [dict(V("rerun", msg + "; disturbed runs before: %s" % fired), case=dict(case, plans=plans))]
        return []


class C04(Cli):
    id = "C04"
    plot_p = 0.3
    pre_p = 0.4
    kinds = ["crash"] * 3 + ["sigint", "comp", "fail", "fail", "quota", "persist", "noise", "multi"]
    nplans = 3

    def gen(self, seed, i, tier):
        case = super().gen(seed, i, tier)
        c = case["base"]["cmd"]
        rng = rng_for(self.id, seed, i, "nodir")
        if rng.random() < 0.1:
            # results for a directory that does not exist
            c["out"], c["nodir"] = rng.choice(["nowhere/o", "not/here/o", "no where.xyz/dat"]), True
            case["base"]["pre"] = []
        return case

    def run(self, case, ctx):
        base = case["base"]
        c = base["cmd"]
        plans = [None] + list(case.get("plans") or [])
        i = 0
        ev = None
        while i < len(plans):
            plan = plans[i]
            w = World(ctx, base)
            before = dict(w.fs.snapshot("w", True), **w.fs.snapshot("tmp", True))
            ob = surroundings(before, [c])
            r = run_one(ctx, w, c, plan)
            after = dict(w.fs.snapshot("w", True), **w.fs.snapshot("tmp", True))
            d = diff_trees(ob, surroundings(after, [c]))
            w.fs.destroy()
            if r.outside:
                d.append("tried to modify outside the tree: %s" % r.outside[0])
            if d:
                return [dict(V("touch", "; ".join(d) + " (status %s, faults %s)" % (r.proc.status, r.plan.fired)),
                             case=dict(case, plans=[plan] if plan else []))]
            if i == 0 and "plans" not in case:
                plans += self.plans(case, r.events)
            i += 1
        return []


class C05(Cli):
    id = "C05"
    plot_p = 0.1
    pre_p = 0.6
    kinds = ["crash"] * 4 + ["fail"] * 3 + ["quota", "quota", "multi", "multi", "sigint", "comp", "comp", "persist", "noise"]
    nplans = 4

    def watcher(self, w, c, pre, clean):
        tabs, _ = gen.outputs(c)

        def look(e=None):
            for k, p in tabs.items():
                now = w.fs.read("w/" + p)
                if now == pre[k]:
                    continue
                if now is None:
                    if pre[k] is None:
                        continue
                    return None
                if not clean[k].startswith(now):
                    n = 0
                    while n < min(len(now), len(clean[k])) and now[n] == clean[k][n]:
                        n += 1
                    return "table %s (%d bytes) is neither as before nor an initial part of the right table " \
                           "(differs at byte %d)" % (k, len(now), n)
            return None
        return look

    def run(self, case, ctx):
        base = case["base"]
        c = base["cmd"]
        r0, tabs0, imgs0 = self.clean(ctx, base)
        if r0.proc.status != 0 or None in tabs0.values():
            return []
        for plan in [None] + self.plans(case, r0.events):
            w = World(ctx, base)
            pre, _ = read_outputs(w, c)
            look = self.watcher(w, c, pre, tabs0)
            r = run_one(ctx, w, c, plan, on_event=look)
            msg = (r.invariant_errors or [None])[0]
            if not msg:
                msg = look()
                if msg:
                    msg = "at the end (status %s): %s" % (r.proc.status, msg)
            w.fs.destroy()
            if msg:
                return [dict(V("wrong-table", msg + "; faults %s" % r.plan.fired), case=dict(case, plans=[plan] if plan else []))]
        return []


class C17(Cli):
    id = "C17"
    plot_p = 0.15
    kinds = ["persist"] * 6 + ["quota"] * 3 + ["noise"] * 3
    nplans = 4
    OBSTACLES = ["no_input", "no_input", "no_input_directory", "input_directory", "dangling_input", "input_loop", "empty_input",
                 "no_output_directory", "output_directory", "dangling_output"]

    def gen(self, seed, i, tier):
        d = Cli.gen(self, seed, i, tier)
        rng = rng_for(self.id, seed, i, "obstacle")
        if rng.random() < 0.25:
            d["obstacle"] = rng.choice(self.OBSTACLES)
        return d

    def obstacle(self, case, ctx, r0):
        """Something that will not go away by itself is in the way: the run must end (how, others check)."""
        base, c, what = case["base"], case["base"]["cmd"], case["obstacle"]
        c = dict(c, nodir=what == "no_output_directory")
        if what == "no_output_directory":
            c["out"] = "nowhere/to/be/found"
        w = World(ctx, dict(base, pre=[], cmd=c))
        full = w.fs.path("w/" + c["in"])
        tabs, _ = gen.outputs(c)
        if what in ("no_input", "no_input_directory", "input_directory", "dangling_input", "input_loop"):
            os.remove(full)
        if what == "no_input_directory":
            c = dict(c, **{"in": "not/there/" + c["in"]})
        elif what == "input_directory":
            os.mkdir(full)
        elif what == "dangling_input":
            os.symlink("nothing", full)
        elif what == "input_loop":
            os.symlink(os.path.basename(full), full)
        elif what == "empty_input":
            w.fs.write("w/" + c["in"], "")
        elif what == "output_directory":
            os.makedirs(w.fs.path("w/" + tabs["P"]))
        elif what == "dangling_output":
            os.symlink("nowhere/x", w.fs.path("w/" + tabs["C"]))
        r = run_one(ctx, w, c, None, cap=20 * len(r0.events) + 1000)
        w.fs.destroy()
        ctx.count("probe_obstacle_" + what)
        if r.capped or r.hung:
            return [dict(V("hang", "a run does not end where %s is in the way (%d operations%s)" % (
                what.replace("_", " "), len(r.events), ", the last of them long ago" if r.hung else "")), case=dict(case, plans=[]))]
        return []

    def run(self, case, ctx):
        base = case["base"]
        c = base["cmd"]
        r0, tabs0, imgs0 = self.clean(ctx, base)
        if r0.proc.status != 0:
            if r0.hung or r0.capped:
                return [V("hang", "an undisturbed run does not end")]
            return []
        if case.get("obstacle"):
            out = self.obstacle(case, ctx, r0)
            if out:
                return out
        nb = sum(e[4] for e in r0.events if e[2] == "WRITE")
        for plan in self.plans(case, r0.events):
            noise_ = plan.get("noise")
            # every byte may take its own call, each call may be interrupted a few times
            cap = 20 * len(r0.events) + 1000 + (12 * (nb + 200000) if noise_ and noise_["short"] else 0)
            w = World(ctx, base)
            # an operation that fails for good may be tried again, but not for ever
            r = run_one(ctx, w, c, plan, cap=cap, hard_cap=300 + 5 * len(r0.events))
            w.fs.destroy()
            msg = None
            if r.capped or r.hung:
                msg = "still running after %d operations (an undisturbed run needs %d)%s" % (
                    len(r.events), len(r0.events), " and without any further one" if r.hung else "")
            elif not r.plan.hard and r.proc.status != 0:
                msg = "no operation failed, status %s: %s" % (r.proc.status, tail(r.proc))
            elif r.plan.persisted and r.proc.status == 0 and self.essential(r, plan):
                msg = "status 0 although every %s failed for good from operation %d on" % (
                    "/".join(plan["persist"]["ops"]), plan["persist"]["from"])
            elif r.plan.hard:
                ctx.count("probe_gave_up")
            if msg:
                return [dict(V("hang", msg + "; faults %s" % r.plan.fired[:5]), case=dict(case, plans=[plan]))]
            # leftovers of a killed run must not stall the next one
            if r.plan.hard:
                continue
        return self.stale(case, ctx, r0)

    def essential(self, r, plan):
        """Did an operation of the run's own files fail for good?"""
        c_ok = [e for e in r.events if e[5] == core.FAIL and e[2] == "WRITE"]
        return bool(c_ok)

    def stale(self, case, ctx, r0):
        """Kill a run anywhere, then run again: it must not wait for the dead one."""
        base = case["base"]
        c = base["cmd"]
        if "plans" in case and not case.get("kill"):
            return []
        rng = random.Random(case["plan_seed"] + 1)
        kill = case.get("kill") or gen_plan(rng, r0.events, ["crash"])
        w = World(ctx, base)
        run_one(ctx, w, c, kill, {"pid": 555})
        r = run_one(ctx, w, c, None, {"pid": rng.choice([555, 777])}, cap=20 * len(r0.events) + 1000)
        w.fs.destroy()
        if r.capped or r.hung:
            return [dict(V("stale", "a run after a killed one does not end (%d operations)" % len(r.events)),
                         case=dict(case, plans=[], kill=kill))]
        if r.proc.status != 0:
            return [dict(V("stale", "a run after a killed one stops with status %s: %s" % (r.proc.status, tail(r.proc))),
                         case=dict(case, plans=[], kill=kill))]
        return []


CHECKS = {c.id: c() for c in (C01, C03, C04, C05, C17)}


def frame_ends(c):
    ends, o = [], 0
    for i in c["iso"]:
        o += len(gen.render_frame(i, c["ffmt"]))
        ends.append(o)
    return ends


def cut_ok(text, p, ends):
    """Is a cut at p decidable, that is not inside (or right behind) the last number of an isomer?"""
    if p in ends:
        return True
    for e in ends:
        start = text.rstrip("\n")[:e].rstrip("\n")
        last = start.rfind(" ") + 1
        if last < p < e:
            return False
    return True


class C02(Cli):
    id = "C02"
    plot_p = 0.15
    pre_p = 0.6

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        base = gen_base(rng, self.plot_p, False, self.pre_p)
        base["cmd"].pop("link", None)
        c = base["cmd"]
        c["ffmt"].pop("crlf", None)
        if c["tmax"] and c["tmax"] > 300:
            c["tmax"], c["tmin"] = 100, None
        variants = []
        for _ in range(3 if tier == "quick" else 8):
            variants.append(self.variant(rng, c))
        return {"base": base, "variants": variants}

    def variant(self, rng, c):
        kind = rng.choice(["drop", "drop", "count", "count", "cut", "cut", "cut", "cut", "missing", "readfault", "readfault",
                           "readfault", "grow", "grow", "grow", "replace", "garbage", "empty", "dir", "toofew",
                           "blank", "blank", "novalue", "novalue", "cutpacked"])
        n = len(c["iso"])
        v = {"kind": kind}
        if kind == "drop":
            v["at"], v["what"] = rng.randrange(n), rng.choice(["Energy", "Multiplicity", "Frequencies"])
        elif kind == "cutpacked":
            v["ext"], v["keep"] = rng.choice([".gz", ".bz2", ".xz"]), rng.choice([0.2, 0.5, 0.8, 0.95, rng.random() * 0.97])
        elif kind == "blank":
            v["at"], v["what"] = rng.randrange(n + 1), rng.choice(["\n", "\n\n", "  \n", "\t\n \n"])
        elif kind == "novalue":
            v["at"], v["what"] = rng.randrange(n), rng.choice(["Energy", "Energy", "Multiplicity", "Frequencies"])
            v["how"] = rng.choice(["bare", "T", "text", "empty", "last", "two"])
            if n == 1 and v["what"] == "Frequencies" and v["how"] in ("empty", "last"):
                v["how"] = "text"           # a lone atom without vibrations is all right
        elif kind == "count":
            if n < 2:
                v["kind"] = "empty"
            else:
                v["at"] = rng.randrange(n)
                v["how"] = rng.choice(["less", "more"])
        elif kind in ("cut", "grow"):
            v["u"] = [round(rng.random(), 6) for _ in range(1 if kind == "cut" else rng.choice([1, 2, 3, 5]))]
            v["place"] = rng.choice(["any", "last", "numbers", "boundary"])
            v["at"] = [rng.randrange(0, 12) for _ in v["u"]]
            v["all"] = rng.random() < 0.5
        elif kind == "readfault":
            v["n"], v["err"] = rng.randrange(0, 8), rng.choice(["EIO", "EACCES", "EIO", "ESTALE", "ENOMEM"])
            v["persist"] = rng.random() < 0.5
            v["short"] = rng.random() < 0.5
        elif kind == "replace":
            v["at"] = [rng.randrange(0, 10)]
            v["iso"] = gen.gen_isomers(rng, 4)
        elif kind == "garbage":
            v["at"] = rng.randrange(n)
            v["what"] = rng.choice(["coord", "natoms", "line"])
        return v

    def describe(self, case):
        d = Cli.describe(self, case)
        d["input_variants"] = [{k: v[k] for k in v if k != "iso"} for v in case["variants"]]
        d.pop("plans")
        return d

    def shrinks(self, case):
        if len(case["variants"]) > 1:
            for v in case["variants"]:
                yield dict(case, variants=[v])
        for b in shrink_base(case["base"]):
            yield dict(case, base=b)
        if len(case["variants"]) == 1:
            v = case["variants"][0]
            if v["kind"] == "grow" and len(v["u"]) > 1:
                for i in range(len(v["u"])):
                    yield dict(case, variants=[dict(v, u=v["u"][:i] + v["u"][i + 1:], at=v["at"][:i] + v["at"][i + 1:])])

    def cuts(self, c, v, text):
        ends = frame_ends(c)
        out = []
        for u in v["u"]:
            lo, hi = 0, len(text)
            if v["place"] == "last":
                lo = ([0] + ends)[-2]
            elif v["place"] == "boundary":
                p = ends[int(u * len(ends)) % len(ends)]
                out.append(p)
                continue
            p = lo + int(u * (hi - lo))
            while p > lo and not cut_ok(text, p, ends):
                p -= 1
            out.append(p)
        return sorted(out), ends

    def run(self, case, ctx):
        base = case["base"]
        r0, tabs0, imgs0 = self.clean(ctx, base)
        if r0.proc.status != 0:
            return []
        for v in case["variants"]:
            e = self.one(ctx, base, v, tabs0)
            if e:
                return [dict(V("input-" + v["kind"], e), case=dict(case, variants=[v]))]
        return []

    def one(self, ctx, base, v, tabs0):
        c = dict(base["cmd"])
        iso = [dict(i) for i in c["iso"]]
        n = len(iso)
        text = gen.render(iso, c["ffmt"])
        plan, accept = None, None           # accept: list of isomer lists whose results are right
        k = v["kind"]
        if k == "drop":
            iso[v["at"] % n]["drop"] = v["what"]
            text = gen.render(iso, c["ffmt"])
        elif k == "count":
            i = iso[v["at"] % n]
            if n < 2:
                return None
            f = i["freqs"]
            i["freqs"] = f[:-1] if v["how"] == "less" and len(f) > 1 else f + [3.3]
            # three values in one row or nine in a square are the same list for the reader
            text = gen.render(iso, c["ffmt"])
        elif k == "cut":
            (p,), ends = self.cuts(c, v, text)
            text = text[:p]
            if p in ends:
                accept = [iso[:ends.index(p) + 1]]
            ctx.count("cut_input")
        elif k == "blank":
            # a reader may stop at a blank line only if nothing follows it
            at = min(v["at"], n)
            if at == n:
                accept = [iso]
            text = gen.render(iso[:at], dict(c["ffmt"], notrail=False)) + v["what"] + gen.render(iso[at:], c["ffmt"])
        elif k == "novalue":
            iso[v["at"] % n]["novalue"] = [v["what"], v["how"]]
            text = gen.render(iso, c["ffmt"])
        elif k == "missing":
            c["missing"] = True
        elif k == "empty":
            text = ""
        elif k == "dir":
            c["missing"] = True
        elif k == "garbage":
            lines = gen.render_frame(iso[v["at"] % n], c["ffmt"]).split("\n")
            if v["what"] == "coord":
                lines[2] = lines[2].rsplit(" ", 1)[0] + " x.y"
            elif v["what"] == "natoms":
                lines[0] = str(int(lines[0]) + 1)
            else:
                lines[2] = "?"
            if v["what"] == "natoms" and v["at"] % n != n - 1:
                lines[0] = lines[0] + "x"
            text = "".join(gen.render_frame(x, c["ffmt"]) if q != v["at"] % n else "\n".join(lines) for q, x in enumerate(iso))
        elif k == "cutpacked":
            if not gen.is_packed(c["in"]):
                c["in"] += v["ext"]
            c["keep"] = v["keep"]
        elif k == "toofew":
            text = gen.render(iso[:-1], c["ffmt"]) + "\n".join(gen.render_frame(iso[-1], c["ffmt"]).split("\n")[:-2]) + "\n"
        elif k == "readfault":
            pass
        elif k == "grow":
            if gen.is_packed(c["in"]):
                c["in"] = os.path.splitext(c["in"])[0]
            ps, ends = self.cuts(c, v, text)
            full = text
            c["text"] = text = full[:ps[0]]
            chunks = [full[a:b] for a, b in zip(ps, ps[1:] + ([len(full)] if v["all"] else []))]
            plan = {"points": [{"n": at, "env": ["append", "w/" + c["in"], ch]}
                               for at, ch in zip(sorted(v["at"]) + [11] * 9, chunks) if ch]}
            accept = [iso[:j + 1] for j in range(n)]
        elif k == "replace":
            plan = {"points": [{"n": v["at"][0], "env": ["replace", "w/" + c["in"], gen.render(v["iso"], c["ffmt"])]}]}
            accept = [iso, v["iso"]]
        c["text"] = text
        b2 = dict(base, cmd=c)
        w = World(ctx, b2)
        if k == "dir":
            os.makedirs(w.fs.path("w/" + c["in"]))
        if k == "readfault":
            # the v["n"]-th call on the input file fails
            rd = [e for e in self.profile(ctx, b2) if e[3] == "w/" + c["in"] and e[2] in ("OPEN", "READ")]
            if not rd:
                w.fs.destroy()
                return None
            e = rd[v["n"] % len(rd)]
            err = getattr(errno, v["err"])
            plan = {"points": [{"n": e[1], "act": "fail", "err": err}]}
            if v["short"] and e[2] == "READ":
                plan = {"points": [{"n": e[1], "act": "short", "frac": 0.6}, {"n": e[1] + 1, "act": "fail", "err": err}]}
            if v["persist"]:
                plan["persist"] = {"from": e[1], "err": err, "ops": ["OPEN", "READ"]}
            accept = [iso]
        before = w.fs.snapshot("w")
        r = run_one(ctx, w, c, plan)
        after = w.fs.snapshot("w")
        tabs, imgs = read_outputs(w, c)
        w.fs.destroy()
        inp = os.path.normpath("w/" + c["in"])
        d = [x for x in diff_trees(before, after) if not (k in ("grow", "replace") and x.endswith(" " + inp))]
        if r.proc.status == 0:
            if k == "readfault" and r.plan.persisted and not self.never_needed(r, c):
                return "status 0 although reading the input failed for good"
            if accept is None:
                return "status 0 for an unreadable or inconsistent input (%s)" % {x: v[x] for x in v if x != "iso"}
            errs = []
            for a in accept:
                e = compare(c, tabs, iso=a)
                if e is None:
                    ctx.count("probe_accepted_prefix")
                    return None
                errs.append(e)
            return "status 0, but the tables are not those of the whole isomers in the file (%s); %s" % (
                {x: v[x] for x in v if x != "iso"}, errs[-1])
        ctx.count("probe_rejected")
        if accept is not None and k in ("cut",):
            return "a file of %d whole isomers is rejected: %s" % (len(accept[0]), tail(r.proc))
        if d:
            return "the run reports failure (status %s: %s) but published: %s" % (r.proc.status, tail(r.proc), "; ".join(d))
        return None

    def never_needed(self, r, c):
        """All failing calls came after the whole input had been read."""
        return False

    def profile(self, ctx, base):
        w = World(ctx, base)
        r = run_one(ctx, w, base["cmd"])
        w.fs.destroy()
        return r.events


CHECKS["C02"] = C02()


class Sched:
    """Which process makes the next system call."""

    def __init__(self, policy):
        self.policy = policy
        self.rng = random.Random(policy.get("seed", 0))
        self.map = {a: b for a, b in policy["switches"]} if "switches" in policy else None
        self.switches = []
        self.prio = {}

    def __call__(self, run, seq, last):
        if self.map is not None:
            i = self.map.get(seq)
            if i not in run:
                i = last if last in run else run[0]
        elif self.policy.get("pct"):
            for q in run:
                if q not in self.prio:
                    self.prio[q] = self.rng.random()
            if self.rng.random() < self.policy["p"] and last in self.prio:
                self.prio[last] = min(self.prio.values()) - 1
            i = max(run, key=lambda q: self.prio[q])
        elif last in run and self.rng.random() >= self.policy["p"]:
            i = last
        else:
            i = run[self.rng.randrange(len(run))]
        if i != last:
            self.switches.append([seq, i])
        return i


class C07(Cli):
    id = "C07"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        n = rng.choice([2, 2, 3, 4])
        first = gen_cmd(rng, 0.12, True, nmax=4)
        cs = [first]
        used = set(gen.outputs(first)[0].values()) | {first["in"]} | set(gen.outputs(first)[1].values())
        while len(cs) < n:
            c = gen_cmd(rng, 0.12, True, nmax=4)
            if rng.random() < 0.45:             # same input, other results
                o = rng.choice(cs)
                c.update({k: o[k] for k in ("in", "iso", "ffmt")})
                c["out"] = rng.choice(["p%d" % len(cs), "data/p%d" % len(cs), "o%d.x" % len(cs)])
            elif rng.random() < 0.6:            # same directory
                d = os.path.dirname(first["in"])
                c["in"] = os.path.join(d, rng.choice(["b%d.xyz", "in%d.xyz", "iso_%d"]) % len(cs))
                if c["out"]:
                    c["out"] = "q%d" % len(cs)
            mine = set(gen.outputs(c)[0].values()) | set(gen.outputs(c)[1].values())
            clash = mine & used or (c["in"] in used and not any(o["in"] == c["in"] and o["iso"] == c["iso"] for o in cs))
            if clash or any(m == o["in"] for m in mine for o in cs):
                continue
            used |= mine | {c["in"]}
            cs.append(c)
        return {"base": {"cmds": cs, "decoys": []}, "rounds": 3 if tier == "quick" else 8, "plan_seed": rng.randrange(10**9)}

    def describe(self, case):
        return {"argvs": [gen.argv(c, "<tree>") for c in case["base"]["cmds"]], "rounds": case.get("rounds"),
                "plan_seed": case["plan_seed"]}

    def solo(self, ctx, base, k):
        w = World(ctx, base)
        r = run_one(ctx, w, base["cmds"][k])
        tabs, imgs = read_outputs(w, base["cmds"][k])
        w.fs.destroy()
        return r.proc.status, tabs, imgs, r.events

    def run(self, case, ctx):
        base = case["base"]
        cs = base["cmds"]
        alone = [self.solo(ctx, base, k) for k in range(len(cs))]
        if any(a[0] != 0 for a in alone):
            return []
        rng = random.Random(case["plan_seed"])
        todo = case.get("concrete")
        if todo is None:
            todo = []
            for _ in range(case["rounds"]):
                pol = {"seed": rng.randrange(10**9), "p": rng.choice([0.05, 0.2, 0.5, 0.9])}
                if rng.random() < 0.3:
                    pol["pct"], pol["p"] = True, 0.05
                plan = {"points": []}
                victims = []
                if rng.random() < 0.5:
                    v = rng.randrange(len(cs))
                    ev = [(v,) + tuple(e[1:]) for e in alone[v][3]]
                    plan = gen_plan(rng, ev, ["crash", "crash", "fail", "sigint", "comp", "multi", "persist"])
                    victims = [v]
                    plan.pop("noise", None)
                if rng.random() < 0.3:
                    plan["noise"] = noise(rng)
                todo.append({"sched": pol, "plan": plan, "victims": victims, "pids": rng.random() < 0.3})
        for t in todo:
            w = World(ctx, base)
            sch = Sched(t["sched"])
            r = core.Run(w.fs, t["plan"], ctx.stats, sched=sch)
            ps = [core.Proc(k, w.fs.root, call_main, (argv_of(w, c),), core.armed(proc_world(c, {"pid": 4242 if t.get("pids") else 4242 + k,
                  "seed": 1 if t.get("pids") else 1 + k}), t["plan"], k)) for k, c in enumerate(cs)]
            r.go(ps)
            ctx.account(r)
            ctx.count("context_switches", len(sch.switches))
            res = [read_outputs(w, c) for c in cs]
            w.fs.destroy()
            for k, c in enumerate(cs):
                if k in t["victims"]:
                    continue
                msg = None
                if ps[k].status != alone[k][0]:
                    msg = "ends with status %s, alone with 0: %s" % (ps[k].status, tail(ps[k]))
                elif res[k][0] != alone[k][1]:
                    bad = [x for x in "CP" if res[k][0][x] != alone[k][1][x]]
                    msg = "table(s) %s differ from those it writes alone" % ",".join(bad)
                else:
                    e = image_errors(c, res[k][1], alone[k][2])
                    if e:
                        msg = e
                if msg:
                    ex = dict(t, sched={"switches": sch.switches})
                    return [dict(V("disturbed", "run %d of %d concurrent runs %s (faults hit run(s) %s: %s)" % (
                        k, len(cs), msg, t["victims"], r.plan.fired)), case=dict(case, concrete=[ex]))]
        return []

    def shrinks(self, case):
        t = case["concrete"][0]
        cs = case["base"]["cmds"]
        for q in shrink_plan(t["plan"]):
            yield dict(case, concrete=[dict(t, plan=q)])
        sw = t["sched"]["switches"]
        n = len(sw)
        size = max(1, n // 2)
        while size >= 1:
            for a in range(0, n, size):
                yield dict(case, concrete=[dict(t, sched={"switches": sw[:a] + sw[a + size:]})])
            if size == 1:
                break
            size //= 2
        for k in range(len(cs)):
            for c in shrink_cmd(cs[k]):
                d = cs[:k] + [c] + cs[k + 1:]
                outs = [set(gen.outputs(x)[0].values()) | {x["in"]} for x in d]
                if sum(len(o - {x["in"]}) for o, x in zip(outs, d)) == len(set().union(*[o - {x["in"]} for o, x in zip(outs, d)])) \
                        and len({x["in"] for x in d}) == len({x["in"] for x in cs}) and c["in"] == cs[k]["in"] \
                        and (c["iso"] == cs[k]["iso"] or sum(x["in"] == c["in"] for x in cs) == 1):
                    yield dict(case, base=dict(case["base"], cmds=d))


BOOT_CLOCK = 1_700_000_000_000_000_000


def swapped(wd, c, x):
    """An earlier run in the same process: the input held something else, or the same relative name was another file."""
    d = dict(x["cmd"], **{k: c[k] for k in ("cwd", "abs", "style", "eq", "pos") if k in c})
    text = d.get("text")
    if text is None:
        text = gen.render(d["iso"], d["ffmt"])
    own = c.get("mtime") if c.get("mtime") is not None else 1_600_000_000
    mtime = own if x["same_mtime"] else 1_500_000_000
    a = argv_of(wd, d)
    full = wd.fs.path("w/" + c["in"])
    if x["there"] and not c["abs"]:
        cwd = wd.fs.path("w/another/place/of/work")
        tabs, _ = gen.outputs(d)
        for rel in tabs.values():
            os.makedirs(os.path.dirname(os.path.normpath(os.path.join(cwd, gen.relto(rel, c["cwd"])))), exist_ok=True)
        there = os.path.normpath(os.path.join(cwd, gen.relto(c["in"], c["cwd"])))
        return {"argv": a, "cwd": cwd, "files": [[there, gen.packed(there, text), mtime]]}
    with open(full, "rb") as f:
        mine = f.read()
    return {"argv": a, "files": [[full, gen.packed(full, text), mtime]], "restore": [[full, mine, own]]}


class C06(Cli):
    id = "C06"
    plot_p = 0.05

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        base = gen_base(rng, self.plot_p, rng.random() < 0.5, 0)
        if rng.random() < 0.4:
            base["cmd"]["flags"] = [rng.choice("es"), rng.choice("cq"), "r"]
            rng.shuffle(base["cmd"]["flags"])
        n = 4 if tier == "quick" else 8
        hashes = [1 + derive("hashseed", seed, k) % 4000000000 for k in range(3)]
        return {"base": base, "worlds": [self.world(rng, base["cmd"], rng.choice(hashes)) for _ in range(n)]}

    envs = [{"LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE"}, {"COLUMNS": "20"}, {"OMP_NUM_THREADS": "8"}, {"USER": "x", "HOSTNAME": "y"},
            {"SOURCE_DATE_EPOCH": "1"}, {"NO_COLOR": "1", "TERM": "dumb"}, {"LC_ALL": "C", "LANG": "C"}, {"LANGUAGE": "fr", "LC_ALL": "fr_FR"},
            {"HOME": "/"}, {"DEBUG": "1", "VERBOSE": "1"}, {"CI": "true"}, {"PYTHONHASHSEED": "1"}, {"PWD": "/", "OLDPWD": "/"},
            {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}, {"MPLBACKEND": "svg"}, {"LINES": "1", "COLUMNS": "1000"}]

    def world(self, rng, c, hashseed):
        """Another environment for the same input and options."""
        w = {}
        dims = rng.sample(["clock", "pid", "seed", "cwd", "abs", "TZ", "umask", "mtime", "left", "noise", "before", "hash", "env",
                           "decoys", "spelling", "hash", "earlier", "swapped", "machine", "env"], rng.choice([1, 2, 3, 5, 9]))
        for d in dims:
            if d == "clock":
                w["clock"] = rng.choice([0, 1, 10**18, 2_147_483_648 * 10**9, rng.randrange(4 * 10**18)])
                w["mono"] = rng.choice([0, 10**15, rng.randrange(10**17)])
            elif d == "pid":
                w["pid"] = rng.randrange(2, 2**22)
            elif d == "seed":
                w["seed"] = rng.randrange(2**62)
            elif d == "cwd":
                w["cwd"] = rng.choice(["", "elsewhere", os.path.dirname(c["in"]), "a/b"])
            elif d == "abs":
                w["abs"] = not c["abs"]
            elif d == "TZ":
                w["TZ"] = rng.choice(["Asia/Tokyo", "EST5EDT", "UTC+14", ":bogus"])
            elif d == "umask":
                w["umask"] = rng.choice([0, 0o077, 0o027])
            elif d == "mtime":
                w["mtime"] = rng.choice([0, 1, 4_000_000_000, rng.randrange(2 * 10**9)]) if rng.random() < 0.5 else \
                    w.get("clock", BOOT_CLOCK) // 10**9 + rng.choice([-60, -2, -1, 0, 0, 1, 2])
            elif d == "left":
                w["pre"] = leftovers(rng, c)
                w["pre_mtime"] = rng.choice([1, 1_650_000_000, BOOT_CLOCK // 10**9, 3_000_000_000])
            elif d == "earlier":        # processes that ran and ended in the same tree before
                w["earlier"] = [self.earlier(rng, c) for _ in range(rng.choice([1, 1, 2]))]
            elif d == "swapped":        # earlier runs of the same process on a file of the same name
                w["swapped"] = [dict(self.earlier(rng, c), there=rng.random() < 0.35) for _ in range(rng.choice([1, 1, 2]))]
            elif d == "noise":
                w["noise"] = noise(rng)
            elif d == "before":
                w["before"] = [gen_cmd(rng, 0, True, nmax=3) for _ in range(rng.choice([1, 2]))]
                for k, b in enumerate(w["before"]):
                    b["in"], b["out"], b["cwd"] = "before%d.xyz" % k, "b4_%d" % k, ""
                    if rng.random() < 0.3:
                        b["iso"] = [dict(x, drop="Energy") for x in b["iso"]]
                w["same_before"] = rng.random() < 0.3
            elif d == "hash":
                w["hash"] = hashseed
            elif d == "env":
                w["env"] = {}
                for _ in range(rng.choice([1, 1, 3])):
                    w["env"].update(rng.choice(self.envs))
            elif d == "machine":
                w["cpus"], w["tty"] = rng.choice([1, 2, 3, 64]), rng.random() < 0.5
                if rng.random() < 0.7:
                    w["host"] = rng.randrange(1, 10**6)
            elif d == "decoys":
                w["decoys"] = decoys(rng, c)
            elif d == "spelling":
                w["style"], w["eq"], w["pos"] = rng.choice(["sep", "join", "JOIN"]), rng.random() < 0.5, rng.choice(["first", "last"])
        return w

    def earlier(self, rng, c):
        d = copy.deepcopy(c)
        u = rng.random()
        if u < 0.5:                     # other content of the same size under the same name
            k = rng.randrange(len(d["iso"]))
            d["iso"][k] = gen.twist(rng, d["iso"][k])
        elif u < 0.7:
            d["iso"] = d["iso"][1:] + d["iso"][:1] if rng.random() < 0.5 else gen.gen_isomers(rng, 4)
        if rng.random() < 0.3:
            d["flags"] = rng.choice([["e"], ["s"], ["q"], ["s", "c"], ["e", "q", "r"], ["r"]])
        if rng.random() < 0.2:
            d["tmax"] = rng.choice([5, 20, 60])
            d["tmin"] = None
        x = {"cmd": d, "same_mtime": rng.random() < 0.7}
        if rng.random() < 0.3:
            x["crash"] = rng.randrange(60)
        return x

    def describe(self, case):
        d = Cli.describe(self, case)
        d["worlds"] = [{k: v for k, v in w.items() if k not in ("before", "pre", "decoys", "earlier", "swapped")} for w in case["worlds"]]
        d.pop("plans")
        return d

    def shrinks(self, case):
        if len(case["worlds"]) > 1:
            for w in case["worlds"]:
                yield dict(case, worlds=[w])
        else:
            w = case["worlds"][0]
            for k in sorted(w):
                yield dict(case, worlds=[{x: w[x] for x in w if x != k}])
            for k in ("earlier", "swapped", "before", "decoys", "pre"):
                for i in range(len(w.get(k, [])) if len(w.get(k, [])) > 1 else 0):
                    yield dict(case, worlds=[dict(w, **{k: w[k][:i] + w[k][i + 1:]})])
        for b in shrink_base(case["base"]):
            yield dict(case, base=b)

    def run(self, case, ctx):
        base = case["base"]
        r0, tabs0, _ = self.clean(ctx, base)
        if r0.proc.status != 0:
            ctx.count("probe_base_fails")
            return []
        for w in case["worlds"]:
            if w.get("hash"):
                got = ctx.alt(w["hash"]).call({"cmd": "sub", "prop": "C06", "base": base, "w": w})
                st, tabs, err = got["status"], {k: (None if v is None else v.encode("latin1")) for k, v in got["tabs"].items()}, got["err"]
                ctx.runs += 1
                ctx.count("other_hash_seed")
                ctx.h.update(repr((st, tabs)).encode())
            else:
                st, tabs, err = self.other(ctx, base, w)
            msg = None
            if st != 0:
                msg = "status %s: %s" % (st, err)
            elif tabs != tabs0:
                bad = [k for k in "CP" if tabs[k] != tabs0[k]]
                msg = "table(s) %s differ" % ",".join(bad)
            for k in w:
                ctx.count("world_" + k)
            if msg:
                return [dict(V("environment", "the same input and options give another result in another environment (%s): %s" % (
                    ", ".join("%s" % k for k in sorted(w)), msg)), case=dict(case, worlds=[w]))]
        return []

    def other(self, ctx, base, w):
        c = dict(base["cmd"])
        for k in ("cwd", "abs", "style", "eq", "pos"):
            if k in w:
                c[k] = w[k]
        if "mtime" in w:
            c["mtime"] = w["mtime"]
        b2 = dict(base, cmd=c, decoys=base.get("decoys", []) + w.get("decoys", []), pre=w.get("pre", []),
                  pre_mtime=w.get("pre_mtime", 1))
        wd = World(ctx, b2)
        env = dict(w.get("env", {}))
        if "TZ" in w:
            env["TZ"] = w["TZ"]
        pw = {k: w[k] for k in ("clock", "mono", "pid", "seed", "umask", "cpus", "tty", "host") if k in w}
        pw["env"] = env
        for x in w.get("earlier", []):
            d = dict(x["cmd"], cwd=c["cwd"], abs=c["abs"])
            if x["same_mtime"]:
                d["mtime"] = c.get("mtime")
            else:
                d["mtime"] = 1_500_000_000
            wd.place(d)
            run_one(ctx, wd, d, {"points": [{"n": x["crash"], "act": "crash"}]} if "crash" in x else None, pw)
        if w.get("earlier"):
            wd.place(c)
        first = []
        for b in w.get("before", []):
            wd.place(b)
            b = dict(b, abs=True)
            first.append(gen.argv(b, wd.fs.path("w")))
        for x in w.get("swapped", []):
            first.append(swapped(wd, c, x))
        if w.get("same_before"):
            first.append(argv_of(wd, c))
        plan = {"noise": w["noise"]} if w.get("noise") else None
        r = run_one(ctx, wd, c, plan, pw, fn=call_main_after, args=(first, argv_of(wd, c)))
        tabs, _ = read_outputs(wd, c)
        wd.fs.destroy()
        return r.proc.status, tabs, tail(r.proc)

    def sub(self, ctx, cmd):
        st, tabs, err = self.other(ctx, cmd["base"], cmd["w"])
        return {"status": st, "tabs": {k: None if v is None else v.decode("latin1") for k, v in tabs.items()}, "err": err}


CHECKS["C06"] = C06()
CHECKS["C07"] = C07()
