"""Command-line scenarios: C01-C07 and C17 (and the pieces C02, C06, C07 share)."""
import copy, errno, io, os, re, sys
import numpy as np
import core, gen, model
from core import rng_for, derive


# ---------------------------------------------------------------------------
# the simulated process: the real main()

class NoGit:
    """Stands in for subprocess.Popen: this host has no git."""

    def __init__(self, args, *a, **k):
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", args[0] if args else "git")


def call_main(argv):
    import subprocess
    subprocess.Popen = NoGit
    import occuprob.cli
    sys.argv = ["occuprob"] + list(argv)
    rc = occuprob.cli.main()
    if rc is not None:
        raise SystemExit(rc)


def call_main_after(first_argvs, argv):
    """Earlier runs in the same process, then the run proper (its status counts).

    An earlier run is an argument list, or a dict: "argv", "files" (put in place before it, [path, text, mtime]),
    "cwd" (directory it runs in) and "restore" (files put in place after it)."""
    for a in first_argvs:
        swap = a if isinstance(a, dict) else {"argv": a}
        here = os.getcwd()
        swap_files(swap.get("files", []), swap.get("cwd"))
        try:
            call_main(swap["argv"])
        except (Exception, SystemExit):
            pass
        swap_files(swap.get("restore", []), here if swap.get("cwd") else None)
    call_main(argv)


def swap_files(files, cwd):
    """Another program changes files between two runs: outside the simulated process, so not an event."""
    core.shim.sim_pause(1)
    try:
        for path, text, mtime in files:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(text)
            os.utime(path, (mtime, mtime))
        if cwd:
            os.makedirs(cwd, exist_ok=True)
            os.chdir(cwd)
    finally:
        core.shim.sim_pause(0)


# ---------------------------------------------------------------------------
# tree set-up

class World:
    """A scratch tree holding the input of one command and whatever lies around it."""

    def __init__(self, ctx, base, name=None):
        self.fs = core.SimFS(ctx.scratch, name or ctx.fresh("t"))
        self.base = base
        for c in cmds(base):
            self.place(c)
        for rel, data, *mode in base.get("decoys", []):
            full = self.fs.path("w/" + rel)
            up = os.path.dirname(full)
            while not os.path.lexists(up):
                up = os.path.dirname(up)
            if not os.path.lexists(full) and os.path.isdir(up):
                self.fs.write("w/" + rel, data)
                if mode:
                    os.chmod(full, mode[0])
        for rel, data in base.get("pre", []):
            self.fs.write("w/" + rel, data, mtime=base.get("pre_mtime", 1_650_000_000))
        if base.get("dirmode"):
            for d, _, _ in os.walk(self.fs.path("w")):
                os.chmod(d, base["dirmode"])

    def place(self, c):
        fs = self.fs
        text = c.get("text")
        if text is None:
            text = gen.render(c["iso"], c["ffmt"])
        text = gen.packed(c["in"], text, c.get("keep"))
        if not c.get("missing"):
            if c.get("link") and not os.path.lexists(fs.path("w/" + c["in"])):
                fs.write("w/" + c["link"], text, mtime=c.get("mtime"))
                p = fs.path("w/" + c["in"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(os.path.relpath(fs.path("w/" + c["link"]), os.path.dirname(p)), p)
            fs.write("w/" + c["in"], text, mtime=c.get("mtime"))
        for k in ("cwd",):
            os.makedirs(fs.path("w/" + c[k]) if c[k] else fs.path("w"), exist_ok=True)
        tabs, imgs = gen.outputs(c)
        for p in list(tabs.values()) if not c.get("nodir") else []:
            os.makedirs(os.path.dirname(fs.path("w/" + p)), exist_ok=True)


def cmds(base):
    return base["cmds"] if "cmds" in base else [base["cmd"]]


def argv_of(world, c):
    return gen.argv(c, world.fs.path("w"))


def proc_world(c, w=None):
    d = {"cwd": "w/" + c["cwd"] if c["cwd"] else "w", "seed": 1, "env": {}}
    d.update(w or {})
    return d


def run_one(ctx, world, c, plan=None, w=None, on_event=None, fn=call_main, args=None, cap=core.STEP_CAP, hard_cap=10**9):
    r = core.Run(world.fs, plan, ctx.stats, on_event=on_event, cap=cap)
    r.hard_cap = hard_cap
    p = core.Proc(0, world.fs.root, fn, args if args is not None else (argv_of(world, c),), core.armed(proc_world(c, w), plan))
    r.go([p])
    ctx.account(r)
    r.proc = p
    return r


# ---------------------------------------------------------------------------
# oracles

def parse_table(data):
    """-> 2D array or None if it is not a complete table of numbers."""
    if data is None:
        return None
    try:
        text = data.decode("ascii")
    except UnicodeDecodeError:
        return None
    if text and not text.endswith("\n"):
        return None
    rows = []
    for line in text.split("\n"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        try:
            rows.append([float(x) for x in line.replace(",", " ").split()])
        except ValueError:
            return None
    if not rows or len({len(r) for r in rows}) != 1:
        return None
    return np.array(rows)


def reference(c, iso=None):
    """What the tables must hold."""
    flags = {f.lower() for f in c["flags"]}
    t = model.temperatures(*gen.trange(c))
    C, P, info = model.tables(model_iso(c, iso), flags, t)
    return t, C, P, info


def model_iso(c, iso=None):
    return gen.model_isomers(iso if iso is not None else c["iso"])


def compare(c, tabs, ref=None, iso=None):
    """tabs: {'C': bytes, 'P': bytes}.  -> error text or None."""
    t, C, P, info = ref or reference(c, iso)
    out = {}
    for k in "CP":
        a = parse_table(tabs[k])
        if a is None:
            return "table %s is missing or not a complete table" % k
        out[k] = a
    n = P.shape[0]
    for k, cols in (("C", 1), ("P", n)):
        a = out[k]
        if a.shape != (len(t), cols + 1):
            return "table %s has shape %s, expected %s" % (k, a.shape, (len(t), cols + 1))
        if np.abs(a[:, 0] - np.array(t)).max() > 1e-9:
            return "table %s: wrong temperature column" % k
    for k in range(len(t)):
        if k in info["under"]:
            continue
        p = out["P"][k, 1:]
        want = np.array(P[:, k], float)
        tiny = 1e-17 if k in info["small"] else 1e-290
        ok = close(p, want, tiny)
        if not ok and k in info["zero"]:
            ok = close(p, np.array(info["zero"][k], float), tiny)
        if not ok:
            return "table P at T=%g: %s, formula gives %s" % (t[k], list(p), list(want))
        if t[k] == 0 and k in info["zero"]:
            continue                    # C at T=0 depends on the convention recorded as a finding
        cv, wantc = out["C"][k, 1], float(C[k])
        if not (abs(cv - wantc) <= 1e-9 * (1 + abs(wantc)) + 2e-12 * float(info["scale"][k])):
            return "table C at T=%g: %r, formula gives %r" % (t[k], cv, wantc)
    return None


def close(a, b, tiny=1e-290):
    return bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tiny + 1e-9 * np.abs(b)))


def norm_svg(data):
    s = data.decode("utf-8", "replace")
    ids = {}

    def rep(m):
        return ids.setdefault(m.group(0), "id%d" % len(ids))
    s = re.sub(r"(?<=[\"#])[A-Za-z]{1,2}[0-9a-f]{10}(?=[\")])", rep, s)
    return re.sub(r"<dc:date>.*?</dc:date>", "", s)


def image_complete(ext, data):
    """-> error text or None."""
    if data is None:
        return "is missing"
    if ext == "svg":
        import xml.etree.ElementTree as ET
        try:
            ET.fromstring(data)
        except ET.ParseError as e:
            return "is not a complete SVG (%s)" % e
    elif ext == "png":
        from PIL import Image
        try:
            with Image.open(io.BytesIO(data)) as im:
                im.load()
        except Exception as e:
            return "is not a complete PNG (%s)" % e
        if not data.rstrip().endswith(b"IEND\xaeB`\x82"):
            return "is not a complete PNG"
    elif ext == "pdf":
        if not (data.startswith(b"%PDF") and data.rstrip().endswith(b"%%EOF")):
            return "is not a complete PDF"
    return None


def same_image(ext, a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    if ext == "svg":
        return norm_svg(a) == norm_svg(b)
    if ext == "png":
        from PIL import Image
        with Image.open(io.BytesIO(a)) as x, Image.open(io.BytesIO(b)) as y:
            return x.size == y.size and x.convert("RGBA").tobytes() == y.convert("RGBA").tobytes()
    return abs(len(a) - len(b)) <= 64


def svg_series(data):
    """Polylines of the plotted series in axes coordinates: list of (color, [(x, y)])."""
    import plotlib
    return plotlib.series(data)


def read_outputs(world, c):
    tabs, imgs = gen.outputs(c)
    return ({k: world.fs.read("w/" + p) for k, p in tabs.items()},
            {k: world.fs.read("w/" + p) for k, p in imgs.items()})


def image_errors(c, imgs, clean=None):
    ext = (c["fmt"] or "svg").lower()
    for k, data in imgs.items():
        e = image_complete(ext, data)
        if e:
            return "image %s %s" % (k, e)
        if clean is not None and not same_image(ext, clean[k], data):
            return "image %s differs from the one an undisturbed run writes" % k
    return None


def allowed(c):
    tabs, imgs = gen.outputs(c)
    return {os.path.normpath("w/" + p) for p in list(tabs.values()) + list(imgs.values())}


def surroundings(snap, cs):
    ok = set()
    for c in cs:
        ok |= allowed(c)
    return {k: v for k, v in snap.items() if os.path.normpath(k) not in ok}


def diff_trees(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("created %s" % k)
        elif k not in b:
            out.append("deleted %s" % k)
        elif a[k] != b[k]:
            out.append("changed %s" % k)
    return out


# ---------------------------------------------------------------------------
# bases and plans

def gen_cmd(rng, plot_p=0.2, small=False, hard=False, nmax=6):
    c = gen.gen_cli(rng, plot_p, small)
    c["iso"] = gen.gen_isomers(rng, nmax)
    c["ffmt"] = gen.gen_fmt(rng)
    if len(c["iso"][0]["freqs"]) > 100 and rng.random() < 0.6:
        c["flags"] = [f for f in c["flags"] if f not in "cq"] + ["c"]
    return c


def gen_base(rng, plot_p=0.2, small=False, pre_p=0.3):
    c = gen_cmd(rng, plot_p, small)
    if rng.random() < 0.08:
        c["link"] = rng.choice(["store/set-7.xyz", "store/blob", "../w/in_v2.xyz", "store/" + os.path.basename(c["in"])])
    base = {"cmd": c, "decoys": decoys(rng, c), "pre": []}
    if rng.random() < 0.3:
        base["dirmode"] = rng.choice([0o700, 0o775, 0o750, 0o2775, 0o1777])
    if "@" in os.path.basename(c["in"]) and rng.random() < 0.7:
        # what the reader would take for the file if it took the rest for an index
        base["decoys"].append([c["in"].rsplit("@", 1)[0], gen.render(gen.gen_isomers(rng, 4), {})])
    if rng.random() < pre_p:
        base["pre"] = leftovers(rng, c)
        base["pre_mtime"] = rng.choice([1_000_000_000, 1_650_000_000, 1_900_000_000])
    return base


def decoys(rng, c):
    """Neighbours whose names resemble the outputs and inputs."""
    tabs, imgs = gen.outputs(c)
    ind = os.path.dirname(c["in"])
    names = [os.path.join(ind, x) for x in ("notes.txt", "in.xyz.bak", "C.dat", "P.dat", ".hidden")]
    t = tabs["C"]
    names += [t + ".bak", t + ".tmp", t + "~", t[:-4], t[:-4] + ".txt", t[:-4] + ".svg", t[:-4] + ".png",
              tabs["P"][:-4] + ".pdf", os.path.join(os.path.dirname(t), "tmp")]
    pre = t[:-len("C.dat")]                 # what the names of both tables start with
    names += [pre + "2_C.dat", pre + "C2.dat", pre + "Cv.dat", pre + "P_old.dat", pre + "E.dat", pre + "notes.txt", pre.rstrip("_") + "2_P.dat",
              pre.rstrip("_") + "-run1_C.dat", pre.rstrip("_") + ".dat", pre.rstrip("_") + ".log", pre.rstrip("_"), pre.rstrip("_") + ".xyz",
              pre.rstrip("_") + "_C/x_C.dat", os.path.join(os.path.dirname(t), "x_C.dat"), os.path.join(os.path.dirname(t), "other_P.dat"),
              os.path.join(os.path.dirname(t), ".#" + os.path.basename(t)), os.path.join(os.path.dirname(t), "a.dat"),
              os.path.join(os.path.dirname(t), "figure.svg"), os.path.join(ind, "other.xyz"), t + ".lock", t + ".part", t + ".1", t + ".orig",
              os.path.join(os.path.dirname(t), "core"), os.path.join(os.path.dirname(t), "occuprob.log"),
              os.path.join(os.path.dirname(t), "results/C.dat")]
    own = set(tabs.values()) | set(imgs.values()) | {c["in"]}
    out = []
    names = list(dict.fromkeys(names))
    files = set(own)
    for n in names:
        if n not in own and rng.random() < 0.3 and n and not n.endswith("/"):
            # a name must not be both a file and a directory
            parts = [n[:i] for i in range(len(n)) if n[i] == "/"]
            if any(x in files for x in parts) or any(f.startswith(n + "/") for f in files):
                continue
            files.add(n)
            out.append([n, "decoy of %s\n" % n if rng.random() < 0.8 else ""])
            if rng.random() < 0.2:
                out[-1].append(rng.choice([0o600, 0o444, 0o755, 0o664]))
    return out


def leftovers(rng, c):
    tabs, imgs = gen.outputs(c)
    out = []
    for k, p in sorted(tabs.items()) + sorted(imgs.items()):
        u = rng.random()
        if u > 0.8 and p == tabs[k] and len(c.get("iso") or []) in range(1, 9):
            # another run's results: right number of rows, columns and bytes
            t = np.arange(c["tmin"] or 0.0, (500.0 if c["tmax"] is None else c["tmax"]) + 1e-6, 1.0)
            cols = 1 if k == "C" else len(c["iso"])
            out.append([p, "".join(" ".join("%.18e" % x for x in [a] + [rng.random() for _ in range(cols)]) + "\n" for a in t)])
        elif u < 0.35:
            row = " ".join([rng.choice(["%.18e"] * 3 + ["%.6f", "%g", "%.9e"]) % rng.uniform(0, 9)] * rng.choice([2, 3, 4])) + "\n"
            out.append([p, row * rng.choice([3, 40, 700, 2000])])
        elif u < 0.5:
            out.append([p, "x" * rng.choice([1, 100, 50000])])
        elif u < 0.6:
            out.append([p, ""])
    return out


def pick_event(rng, ev, writes=0.7):
    """Index of a clean-run event, biased to the calls around the results."""
    w = [i for i, e in enumerate(ev) if e[2] in ("WRITE", "RENAME", "TRUNC") or (e[2] == "OPEN" and e[4] & core.O_W)
         or (e[2] == "CLOSE" and not e[3].endswith("xyz"))]
    if w and rng.random() < writes:
        return rng.choice(w)
    return rng.randrange(len(ev))


def err_for(rng, op):
    n = rng.choice(gen.FAIL_ERR.get(op, ["EIO"]))
    return getattr(errno, n)


def gen_plan(rng, ev, kinds):
    """A fault plan placed on the events of the undisturbed run."""
    kind = rng.choice(kinds)
    spec = {"points": []}
    if rng.random() < 0.25:
        spec["noise"] = noise(rng)
    if not ev:
        return spec
    if kind == "noise":
        spec["noise"] = noise(rng)
    elif kind == "comp":
        spec["comp"] = gen_comp(rng, sorted({e[0] for e in ev}))
    elif kind == "quota":
        total = sum(e[4] for e in ev if e[2] == "WRITE") or 1
        spec["quota"] = rng.choice([0, 1, rng.randrange(total + 1), rng.randrange(total + 1), total - 1])
    elif kind == "persist":
        i = pick_event(rng, ev, 0.6)
        op = ev[i][2]
        if op not in ("OPEN", "READ", "WRITE", "CLOSE"):
            op = "WRITE"
        spec["persist"] = {"p": ev[i][0], "from": ev[i][1], "err": err_for(rng, op),
                           "ops": rng.choice([[op], [op], ["OPEN", "READ", "WRITE"], ["OPEN"], ["WRITE", "CLOSE"]]),
                           "wonly": rng.random() < 0.3}
    else:
        n = 1 if kind != "multi" else rng.choice([2, 2, 3])
        for _ in range(n):
            i = pick_event(rng, ev)
            e = ev[i]
            k = kind if kind != "multi" else rng.choice(["fail", "fail", "short", "sigint"])
            x = {"p": e[0], "n": e[1]}
            if k == "fail":
                x.update(act="fail", err=err_for(rng, e[2]))
            elif k == "crash":
                x.update(act=rng.choice(["crash", "crash_after", "torn", "torn"]), frac=round(rng.random(), 3))
            elif k == "short":
                x.update(act="short", frac=round(rng.random(), 3))
            elif k == "sigint":
                x.update(act="sigint")
            spec["points"].append(x)
            if k == "short" or (k == "fail" and rng.random() < 0.25):
                # a transfer that comes up short, and then the device fails
                spec["points"].append({"p": e[0], "n": e[1] + 1, "act": "fail", "err": err_for(rng, e[2])})
    return spec


def gen_comp(rng, procs=(0,)):
    """Ctrl-C or an allocation failure while the program computes."""
    if rng.random() < 0.5:
        return {"p": rng.choice(procs), "scope": "own", "at": int(rng.choice([rng.randrange(20), rng.randrange(60)])),
                "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}
    return {"p": rng.choice(procs), "scope": "all", "at": int(10 ** rng.uniform(0, 3.7)), "exc": "KeyboardInterrupt"}


def noise(rng):
    return {"seed": rng.randrange(10**9), "eintr": rng.choice([0, 0.05, 0.3]), "short": rng.choice([0, 0.1, 0.5, 0.9]),
            "tick": rng.choice([0, 10**6, 10**9]), "jump": rng.choice([0, 0, 0.1])}


def shrink_cmd(c):
    """Simpler commands."""
    for k, v in (("plot", False), ("cwd", ""), ("abs", False), ("eq", True), ("pos", "first"), ("style", "sep"),
                 ("fmt", None), ("size", None), ("link", None), ("tmin", None), ("out", None), ("out", "o"), ("in", "x.xyz")):
        if c.get(k) != v and not (k == "out" and c["out"] is None):
            d = dict(c)
            d[k] = v
            yield d
    if c.get("iso") and len(c["iso"]) > 1:
        for i in range(len(c["iso"])):
            d = dict(c)
            d["iso"] = c["iso"][:i] + c["iso"][i + 1:]
            yield d
    tmin, tmax = gen.trange(c)
    for m in (2, 10, 100):
        if tmax > tmin + m:
            d = dict(c)
            d["tmax"] = tmin + m
            yield d
    if len(c["flags"]) > 1:
        for f in c["flags"]:
            d = dict(c)
            d["flags"] = [x for x in c["flags"] if x != f]
            yield d


def shrink_plan(p):
    p = p or {}
    for k in ("noise", "quota", "persist", "comp"):
        if p.get(k) is not None:
            q = dict(p)
            q.pop(k)
            yield q
    pts = p.get("points", [])
    for i in range(len(pts)):
        q = dict(p)
        q["points"] = pts[:i] + pts[i + 1:]
        yield q


def shrink_base(b):
    if b.get("pre"):
        for i in range(len(b["pre"])):
            yield dict(b, pre=b["pre"][:i] + b["pre"][i + 1:])
    if b.get("decoys"):
        yield dict(b, decoys=[])
        if len(b["decoys"]) > 1:
            for i in range(len(b["decoys"])):
                yield dict(b, decoys=b["decoys"][:i] + b["decoys"][i + 1:])
    if "cmd" in b:
        for c in shrink_cmd(b["cmd"]):
            yield dict(b, cmd=c)
