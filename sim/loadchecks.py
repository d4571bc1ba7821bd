"""Checks on loading: C08 (all-or-nothing, leaves nothing behind), C09 (reflects present content)."""
import errno, gc as _gc, os, random
import numpy as np
import core, gen, model
from core import rng_for
from cliworld import gen_plan, noise, shrink_plan

V = lambda sig, msg: {"sig": sig, "msg": msg}


# ---------------------------------------------------------------------------
# in the simulated process

def nfds():
    """Open descriptors and what they refer to."""
    out = []
    for x in os.listdir("/proc/self/fd"):
        try:
            out.append((int(x), os.readlink("/proc/self/fd/" + x)))
        except OSError:
            pass                        # the listing's own descriptor
    return out


PACKED = ["a.xyz.gz", "a.gz", "d/a.xyz.bz2", "b.xz"]


def play(ops):
    """Execute a history of file changes and loads; -> list of records."""
    import shutil
    from occuprob.io import load_properties_from_extxyz
    shim = core.shim
    out, results = [], []
    base = os.getcwd()
    for k, op in enumerate(ops):
        kind = op[0]
        if kind == "load":
            shim.sim_pause(1)
            path = op[1].replace("<root>", base)
            _gc.collect()
            before = nfds()
            shim.sim_pause(0)
            shim.sim_mark(k)
            rec = {"op": k}
            try:
                res = load_properties_from_extxyz(path)
                rec["res"] = res
            except KeyboardInterrupt:
                rec["exc"] = "KeyboardInterrupt"
                res = None
            except Exception as e:
                rec["exc"] = type(e).__name__ + ": " + str(e)[:200]
                res = None
            shim.sim_pause(1)
            results.append(res)
            if res is not None:
                rec["res"] = {a: np.array(b, copy=True) for a, b in res.items()}
            _gc.collect()
            after = nfds()
            rec["leak"] = sorted(os.path.basename(x[1]) for x in after if x not in before)
            shim.sim_pause(0)
            out.append(rec)
            continue
        shim.sim_pause(1)
        if kind == "chdir":
            if os.path.isdir(os.path.join(base, op[1])):
                os.chdir(os.path.join(base, op[1]))
        elif kind == "write":
            p = os.path.join(base, op[1])
            how, text, mtime = op[2], gen.packed(op[1], op[3], op[6] if len(op) > 6 else None), op[4]
            os.makedirs(os.path.dirname(p), exist_ok=True)
            old = os.stat(p).st_mtime if os.path.exists(p) else None
            if how == "replace":
                with open(p + ".new~", "wb") as f:
                    f.write(text)
                os.rename(p + ".new~", p)
            elif os.path.islink(p) and how in ("inplace", "new") and (os.path.isdir(p) or not os.path.isdir(os.path.dirname(os.path.realpath(p)))
                                                                      or os.path.islink(os.path.realpath(p))):
                shim.sim_pause(0)
                continue                # a link that leads nowhere
            elif how == "inplace" and old is not None:
                with open(p, "r+b") as f:
                    f.truncate(0)
                    f.write(text)
            elif how == "recreate":
                if os.path.lexists(p):
                    os.remove(p)
                with open(p, "wb") as f:
                    f.write(text)
            else:
                with open(p, "wb") as f:
                    f.write(text)
            if mtime == "same" and old is not None:
                os.utime(p, (old, old))
            elif mtime == "older" and old is not None:
                os.utime(p, (old - 1000, old - 1000))
            else:
                t = 1_600_000_000 + k
                os.utime(p, (t, t))
        elif kind == "remove":
            p = os.path.join(base, op[1])
            if os.path.lexists(p):
                os.remove(p)
        elif kind == "link":
            p = os.path.join(base, op[1])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.islink(p) or os.path.isfile(p):
                os.remove(p)
            if not os.path.lexists(p):
                os.symlink(os.path.join(base, op[2]), p)
        elif kind == "move":
            a, b = (os.path.join(base, x) for x in op[1:3])
            if os.path.isfile(a) and os.path.isdir(os.path.dirname(b)) and not os.path.isdir(b):
                os.rename(a, b)
        elif kind == "scribble":
            i = op[1]
            if i < len(results) and results[i] is not None:
                d = results[i]
                for key in list(d):
                    try:
                        if op[2] == "values":
                            d[key][...] = -7
                        elif op[2] == "order":
                            d[key][...] = d[key][::-1].copy()
                    except (ValueError, TypeError):
                        pass                # read-only results are fine
                    if op[2] == "keys":
                        d[key] = None
                if op[2] == "clear":
                    d.clear()
        elif kind == "keep":
            pass
        shim.sim_pause(0)
    return {"recs": out}


# ---------------------------------------------------------------------------
# oracle

def same(res, iso, flexible=None):
    """Is the result that of these isomers?  -> error text or None"""
    m = gen.model_isomers(iso)
    n = len(m)
    for k in ("energy", "multiplicity", "frequencies", "moments", "symmetry"):
        if k not in res:
            return "no %r in the result" % k
        if len(res[k]) != n:
            return "%s has %d rows, the file %d isomers" % (k, len(res[k]), n)
    for i, x in enumerate(m):
        if not abs(float(res["energy"][i]) - x["E"]) <= 1e-9 * (1 + abs(x["E"])):
            return "energy of isomer %d is %r, in the file %r" % (i, res["energy"][i], x["E"])
        if float(res["multiplicity"][i]) != float(x["g"]):
            return "multiplicity of isomer %d is %r, in the file %r" % (i, res["multiplicity"][i], x["g"])
        f = np.array(res["frequencies"][i], float).ravel()
        if f.shape != (len(x["freqs"]),) or np.abs(np.sort(f) - np.sort(x["freqs"])).max() > 1e-9:
            return "frequencies of isomer %d are %s, in the file %s" % (i, list(f), x["freqs"])
        mo = np.array(res["moments"][i], float)
        if mo.shape != (3,) or np.abs(np.sort(mo) - np.sort(x["moments"])).max() > 1e-6 * (1 + max(x["moments"])):
            return "moments of isomer %d are %s, computed %s" % (i, list(mo), x["moments"])
        if int(res["symmetry"][i]) != x["sigma"]:
            return "symmetry order of isomer %d is %s, its rotational subgroup has %d" % (i, res["symmetry"][i], x["sigma"])
    return None


class Tree:
    """What the operations of a history leave under which name (names without "..")."""

    def __init__(self):
        self.names, self.inodes, self.dirs = {}, {}, {""}

    def real(self, path, depth=0):
        """The name `path` leads to, links followed; None for a loop."""
        if depth > 8:
            return None
        done = ""
        parts = path.split("/")
        for i, x in enumerate(parts):
            done = done + "/" + x if done else x
            n = self.names.get(done)
            if n and n[0] == "link":
                return self.real("/".join([n[1]] + parts[i + 1:]), depth + 1)
        return done

    def content(self, path):
        n = self.names.get(self.real(path))
        return self.inodes[n[1]] if n else -1

    def isdir(self, path):
        return self.real(path) in self.dirs     # (the real path of a loop is None)

    def makedirs(self, name):
        d = os.path.dirname(name)
        while d:
            self.dirs.add(d)
            d = os.path.dirname(d)

    def apply(self, o):
        if o[0] == "write":
            self.makedirs(o[1])
            name = o[1]
            if o[2] in ("replace", "recreate"):
                self.names.pop(name, None)
            else:
                name = self.real(name)
                if name is None or name in self.dirs or os.path.dirname(name) not in self.dirs:
                    return              # a link that leads nowhere, cannot be written
            if name not in self.names:
                self.names[name] = ("file", len(self.inodes))
                self.inodes[len(self.inodes)] = None
            self.inodes[self.names[name][1]] = o[5]
        elif o[0] == "remove":
            self.names.pop(o[1], None)
        elif o[0] == "link":
            self.makedirs(o[1])
            if o[1] not in self.dirs:
                self.names[o[1]] = ("link", o[2])
        elif o[0] == "move":
            a = self.names.get(o[1])
            if self.content(o[1]) != -1 and self.isdir(os.path.dirname(o[2])) and not self.isdir(o[2]) and o[1] != o[2]:
                self.names[o[2]] = self.names.pop(o[1])


def expectations(ops):
    """What each load must return: content id, -1 (no file), or None for other operations."""
    tree, cwd, out = Tree(), "", []
    for o in ops:
        e = None
        if o[0] == "chdir":
            cwd = o[1] if not o[1] or o[1] in tree.dirs else cwd
        elif o[0] == "load":
            p = o[1]
            p = p.replace("<root>", "") if p.startswith("<root>") else "/" + cwd + "/" + p
            e = tree.content(os.path.normpath(p.replace("//", "/")).lstrip("/"))
        else:
            tree.apply(o)
        out.append(e)
    return out


class Base:
    def run_history(self, ctx, ops, plan):
        fs = core.SimFS(ctx.scratch, ctx.fresh("l"))
        r = core.Run(fs, plan, ctx.stats)
        p = core.Proc(0, fs.root, play, (ops,), core.armed({"cwd": "w", "seed": 1}, plan))
        r.go([p])
        ctx.account(r)
        fs.destroy()
        if p.result is None:
            return r, None
        return r, p.result["recs"]

    def shrinks(self, case):
        ops = case["ops"]
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
        for p in case.get("plans") or []:
            if p is not None:
                if self.id == "C09":
                    yield dict(case, plans=[None])
                for q in shrink_plan(p):
                    yield dict(case, plans=[q])

    def describe(self, case):
        return {"history": [[x if not isinstance(x, str) or len(x) < 60 else "<%d bytes>" % len(x) for x in o] for o in case["ops"]],
                "plans": case.get("plans", "derived from the undisturbed history"), "plan_seed": case.get("plan_seed")}


def content(rng, k=None):
    iso = gen.gen_isomers(rng, 4, count=rng.choice([1, 2, 3, 4]))
    fmt = gen.gen_fmt(rng)
    return iso, fmt


def spoil(rng, iso, fmt):
    """A file that does not hold a list of isomers, and why."""
    iso = [dict(x) for x in iso]
    k = rng.randrange(len(iso))
    kind = rng.choice(["drop", "drop", "count", "cut", "cut", "natoms", "coord", "empty", "blank", "novalue", "novalue"])
    if kind == "cut":
        fmt = dict(fmt, crlf=False)
    if kind == "blank" and k:
        return gen.render(iso[:k], dict(fmt, notrail=False)) + rng.choice(["\n", " \n", "\n\n"]) + gen.render(iso[k:], fmt), \
            "has a blank line between isomers %d and %d" % (k, k + 1)
    if kind == "novalue":
        iso[k]["novalue"] = [rng.choice(["Energy", "Multiplicity", "Frequencies"]), rng.choice(["bare", "T", "text", "empty", "last", "two"])]
        if len(iso) == 1 and iso[k]["novalue"] in (["Frequencies", "empty"], ["Frequencies", "last"]):
            iso[k]["novalue"][1] = "text"   # a lone atom without vibrations is all right
        return gen.render(iso, fmt), "gives no number for %s of isomer %d" % (iso[k]["novalue"][0], k + 1)
    if kind == "count" and len(iso) > 1:
        f = iso[k]["freqs"]
        iso[k]["freqs"] = f[:-1] if rng.random() < 0.5 and len(f) > 1 else f + [3.3]
        return gen.render(iso, fmt), "holds isomers with different numbers of frequencies"
    if kind == "cut":
        text = gen.render(iso[:k + 1], fmt)
        start = len(gen.render(iso[:k], dict(fmt, notrail=False)))
        end = text.rstrip("\n").rfind(" ") + 1          # the last number might be cut and still be a number
        lines = [i for i in range(start, end) if text[i] == "\n"]
        p = rng.choice([rng.randrange(start + 1, end + 1), rng.choice(lines or [end]) + rng.choice([0, 1])])
        return text[:min(p, end)], "was cut inside isomer %d" % (k + 1)
    if kind in ("natoms", "coord"):
        parts = [gen.render_frame(x, fmt).split("\n") for x in iso]
        if kind == "natoms":
            k = len(iso) - 1
            parts[k][0] = str(int(parts[k][0]) + 1)
            return "".join("\n".join(q) for q in parts), "lacks an atom of its last isomer"
        parts[k][2] = parts[k][2].rsplit(" ", 1)[0] + " x.y"
        return "".join("\n".join(q) for q in parts), "has a coordinate that is not a number"
    if kind == "empty":
        return "", "is empty"
    iso[k]["drop"] = rng.choice(["Energy", "Frequencies", "Multiplicity"])
    return gen.render(iso, fmt), "lacks a property of one isomer"


def disturbed(r):
    """The loads (by number of operation) during which a fault was fired."""
    out, cur = set(), None
    for e, line in zip(r.events, r.log):
        if e[2] == "MARK" and e[4] >= core.COMP:
            out.add(cur)
        elif e[2] == "MARK":
            cur = e[4]
        elif e[5] in (core.FAIL, core.SIGINT) and not (e[5] == core.FAIL and "err=4 " in line):
            out.add(cur)
    return out


class C08(Base):
    id = "C08"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        ops, isos, bad = [], {}, {}
        names = ["a.xyz", "d/b.xyz", "cluster"]
        if rng.random() < 0.4:
            odd = rng.choice(gen.ODD_INS)
            names = rng.choice([[odd, "d/b.xyz", "cluster"], ["a.xyz", "a.xyz@" + rng.choice(["1", "0", ":2", "x"]), odd], [odd, "d/" + odd, odd.rsplit("@", 1)[0] + "_"]])
        if rng.random() < 0.12:
            names = rng.choice([[rng.choice(PACKED), "d/b.xyz", "a.xyz"], rng.sample(PACKED, 3)])
        for k in range(rng.choice([1, 2, 2, 3])):
            iso, fmt = content(rng)
            big = rng.random() < 0.3
            if big:
                iso = (iso * 12)[:rng.choice([8, 12, 20])]
                if rng.random() < 0.15:
                    iso = gen.gen_isomers(rng, count=rng.choice([70, 130, 260]), small=True)
            text, why = spoil(rng, iso, fmt) if rng.random() < 0.3 else (gen.render(iso, fmt), None)
            isos[str(k)] = iso
            if why:
                bad[str(k)] = why
            ops.append(["write", names[k], "new", text, "new", k])
            if names[k] in PACKED and not why and rng.random() < 0.25:
                ops[-1].append(rng.choice([rng.random(), 0.999]))
                bad[str(k)] = "is a compressed file that was cut"
        n = len(ops)
        for _ in range(rng.choice([2, 3, 4])):
            k = rng.randrange(n)
            ops.append(["load", names[k]])
            if rng.random() < 0.1:
                ops.append(["load", "nowhere.xyz"])
        return {"ops": ops, "isos": isos, "bad": bad, "plan_seed": rng.randrange(10**9),
                "nplans": 5 if tier == "quick" else 12}

    def judge(self, case, recs, hard, where):
        by = {r["op"]: r for r in recs}
        for k, e in enumerate(expectations(case["ops"])):
            if e is None or k not in by:
                continue
            r = by[k]
            if r["leak"]:
                yield V("leak", "load %d leaves open: %s" % (k, r["leak"]))
            iso = case["isos"].get(str(e))
            good = iso is not None and str(e) not in case["bad"]
            if "exc" in r:
                if good and not hard(k):
                    yield V("raises", "load %d of an intact file raises %s although nothing failed during it%s" % (k, r["exc"], where))
            elif not good:
                yield V("accepts", "load %d returns although the file %s" % (k, "does not exist" if e == -1 else case["bad"][str(e)]))
            else:
                m = same(r["res"], iso)
                if m:
                    yield V("partial", "load %d: %s%s" % (k, m, where))

    def run(self, case, ctx):
        r0, recs = self.run_history(ctx, case["ops"], None)
        if recs is None:
            return [dict(V("dies", "the process dies"), case=dict(case, plans=[]))]
        for v in self.judge(case, recs, lambda k: False, ""):
            return [dict(v, case=dict(case, plans=[]))]
        plans = case.get("plans")
        if plans is None:
            rng = random.Random(case["plan_seed"])
            plans = [gen_plan(rng, [e for e in r0.events if e[2] != "MARK"] or r0.events,
                              ["fail"] * 4 + ["sigint"] * 2 + ["multi"] * 2 + ["comp"] * 4 + ["noise", "persist"]) for _ in range(case["nplans"])]
        for plan in plans:
            r, recs = self.run_history(ctx, case["ops"], plan)
            if recs is None:
                # Ctrl-C in harness code between two loads
                ctx.count("probe_interrupted_outside")
                continue
            faulty = disturbed(r)
            hit = [x for x in recs if x["op"] in faulty]
            ctx.count("probe_load_failed", sum("exc" in x for x in hit))
            ctx.count("probe_load_after_failure", sum(1 for x in recs if faulty and x["op"] > min(faulty)))
            for v in self.judge(case, recs, lambda k: k in faulty, "; faults %s" % r.plan.fired):
                return [dict(v, case=dict(case, plans=[plan]))]
        return []


NAMES = [["x.xyz", "d/x.xyz", "d/e/x.xyz", "y.xyz"]] * 6 + [
    ["x.xyz", "X.xyz", "d/x.XYZ", "x.xyz "], ["\u00e9.xyz", "e\u0301.xyz", "d/\u00e9.xyz", "e.xyz"],
    ["x.xyz", "~x.xyz", "$HOME.xyz", "x%2e.xyz"], ["x.xyz", "x.xyz~", "x.xyz.bak", ".x.xyz"],
    ["x.xyz.gz", "x.xyz", "d/x.xyz.bz2", "x.xz"], ["a b.xyz", "a\u00a0b.xyz", "d/a  b.xyz", "a_b.xyz"]]


class C09(Base):
    id = "C09"

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        ops, isos, bad, made = [], {}, {}, {}
        files, tree = rng.choice(NAMES), Tree()
        if rng.random() < 0.2:
            files = rng.choice([["x.xyz@1", "x.xyz", "d/x.xyz", "d/e/x.xyz@0"], ["d/" + rng.choice(gen.ODD_INS), rng.choice(gen.ODD_INS), "d/e/x.xyz", "y.xyz"]])
        links = rng.random() < 0.3 and "x.xz" not in files
        cwd = ""
        nloads = 0

        def do(op):
            ops.append(op)
            tree.apply(op)

        def load():
            known = [f for f in sorted(tree.names) if not tree.isdir(f)] + \
                [a + f[len(b):] for a, n in sorted(tree.names.items()) if n[0] == "link" and tree.isdir(a)
                 for b in [n[1] + "/"] for f in sorted(tree.names) if f.startswith(b)]
            if known:
                ops.append(["load", spell(rng, rng.choice(known), cwd)])
                return 1
            return 0
        for step in range(rng.choice([4, 6, 9, 12] if tier == "quick" else [6, 12, 20, 30])):
            u = rng.random()
            if u < 0.4 or not tree.names:
                f = rng.choice(files[:rng.choice([1, 2, 4])] + ([x for x in sorted(tree.names) if not tree.isdir(x)] if links else []))
                if tree.names.get(f, [""])[0] == "link" and not tree.isdir(os.path.dirname(tree.real(f) or "/")):
                    continue                # a dangling link
                how = rng.choice(["inplace", "replace", "recreate", "new"])
                mt = rng.choice(["same", "same", "older", "new"])
                old = made.get(tree.content(f))
                kind = rng.choice(["fresh", "digit", "digit", "reorder", "extend", "shorten", "bad"]) if old is not None else rng.choice(["fresh"] * 6 + ["bad"])
                iso, fmt = ([dict(x) for x in old[0]], old[1]) if old is not None else content(rng)
                if kind == "fresh":
                    iso, fmt = content(rng)
                    if rng.random() < 0.1:
                        iso = (iso * 20)[:rng.choice([12, 20])]
                elif kind == "digit":       # same size, one number changed
                    k = rng.choice([rng.randrange(len(iso)), len(iso) - 1])
                    iso[k] = gen.twist(rng, iso[k])
                elif kind == "reorder":
                    iso = iso[1:] + iso[:1]
                elif kind == "extend":
                    extra = dict(rng.choice(iso), E=gen.r6(rng.uniform(0, 1)))
                    iso.insert(rng.randrange(len(iso) + 1), extra)
                elif kind == "shorten" and len(iso) > 1:
                    iso.pop(rng.randrange(len(iso)))
                n = len(made)
                if kind == "bad":
                    text, bad[str(n)] = spoil(rng, iso, fmt)
                else:
                    text = gen.render(iso, fmt)
                made[n] = (iso, fmt)
                isos[str(n)] = iso
                do(["write", f, how, text, mt, n])
            elif u < 0.5:
                new = rng.choice(["", "d", "d/e"])
                if new in tree.dirs:
                    cwd = new
                    ops.append(["chdir", cwd])
            elif u < 0.6 and nloads:
                ops.append(["scribble", rng.randrange(nloads), rng.choice(["values", "order", "keys", "clear"])])
            elif u < 0.63:
                do(["remove", rng.choice(sorted(tree.names))])
            elif u < 0.75 and links:
                v = rng.random()
                if v < 0.3:
                    do(["move", rng.choice(sorted(tree.names)), rng.choice(sorted(tree.names) + files)])
                elif v < 0.6 and len(tree.dirs) > 1:
                    do(["link", "now", rng.choice(sorted(x for x in tree.dirs if x))])
                else:
                    do(["link", rng.choice(["last.xyz", "last.xyz"] + files), rng.choice(sorted(tree.names))])
            else:
                nloads += load()
        # finish by loading everything once more
        for f in sorted(tree.names):
            if not tree.isdir(f):
                ops.append(["load", spell(rng, f, cwd)])
        return {"ops": ops, "isos": isos, "bad": bad, "plan_seed": rng.randrange(10**9)}

    def run(self, case, ctx):
        rng = random.Random(case["plan_seed"])
        plans = case.get("plans")
        if plans is None:
            u = rng.random()
            plans = [None] + ([{"noise": noise(rng)}] if u < 0.4 else ["derive"] if u < 0.7 else [])
        for plan in plans:
            if plan == "derive":
                plan = gen_plan(rng, [e for e in r.events if e[2] != "MARK"] or r.events, ["fail"] * 3 + ["multi", "comp", "comp", "sigint"])
            r, recs = self.run_history(ctx, case["ops"], plan)
            if recs is None:
                if plan is not None and plan.get("points"):
                    ctx.count("probe_interrupted_outside")
                    continue
                return [dict(V("dies", "the process dies"), case=dict(case, plans=[plan]))]
            ctx.count("loads", len(recs))
            by = {x["op"]: x for x in recs}
            hit = disturbed(r)
            for k, e in enumerate(expectations(case["ops"])):
                if e is None or k not in by:
                    continue
                x = by[k]
                if e == -1:
                    if "exc" not in x:
                        return [dict(V("stale", "load %d (%s) returns although there is no such file" % (k, case["ops"][k][1])),
                                     case=dict(case, plans=[plan]))]
                    continue
                if "exc" in x and k in hit:
                    continue
                if str(e) in case["bad"]:
                    ctx.count("probe_incomplete_loaded")
                    continue                # what must come of that is C08's matter
                m = ("raises " + x["exc"]) if "exc" in x else same(x["res"], case["isos"][str(e)])
                if m:
                    return [dict(V("stale", "load %d (%s) does not return what the file holds: %s" % (k, case["ops"][k][1], m)),
                                 case=dict(case, plans=[plan]))]
        return []

    def shrinks(self, case):
        yield from super().shrinks(case)

    def describe(self, case):
        return {"history": [[x if not isinstance(x, str) or len(x) < 60 else "<%d bytes>" % len(x) for x in o] for o in case["ops"]],
                "plans": case.get("plans")}


def spell(rng, f, cwd):
    """Another way to write the path of f (given relative to the tree) from directory cwd."""
    rel = os.path.relpath("/" + f, "/" + cwd)
    u = rng.random()
    if u < 0.5:
        return rel
    if u < 0.65:
        return "./" + rel
    if u < 0.8:
        return "<root>/" + f
    if u < 0.9:
        return "<root>//" + f
    d, b = os.path.split(rel)
    return os.path.join(d, ".", b)


CHECKS = {"C08": C08(), "C09": C09()}
