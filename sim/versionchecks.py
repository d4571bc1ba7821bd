"""C16: version discovery under failing git invocations.

The real git answers, in repositories built from a recipe (answers are memoised);
every process start and every exit goes through SimPopen, which injects the faults.
"""
import errno, importlib, io, os, random, re, shutil, subprocess, sys
import core
from core import rng_for

V = lambda sig, msg: {"sig": sig, "msg": msg}
REPO = os.path.realpath(os.environ.get("OCCUSIM_REPO", "/repo"))
GITVARS = ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_OBJECT_DIRECTORY", "GIT_COMMON_DIR")
ENV = {"GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b",
       "GIT_AUTHOR_DATE": "1600000000 +0000", "GIT_COMMITTER_DATE": "1600000000 +0000", "GIT_CONFIG_NOSYSTEM": "1",
       "GIT_CONFIG_GLOBAL": "/dev/null", "HOME": "/nonexistent", "LC_ALL": "C.UTF-8", "GIT_TERMINAL_PROMPT": "0",
       "PATH": os.environ.get("PATH", "/usr/bin:/bin")}
TAGS = ["0.1.0", "v1.0", "1.2.3", "2.0rc1", "1.0-beta-2", "1.0+local", "release-3.1", "2021.12", "v0.9-1-g1234567", "1.0.post1", "3.0-dirty", "4.0-dirty-2"]
BRANCHES = ["main", "master", "dev", "feature/x", "caf\u00e9", "f\u00fcr-Gro\u00dfes", "\u5206\u652f"]


NAMES = ["None", "None-7", "None_of_these", "occuprob-9.9.9", "OccuProb", "v3.1", "1.2", "with space", "\u00fcn\u00ef", "src", "None.git"]


PLACE = ["src", "w"]


def gen_recipe(rng):
    r = dict(gen_state(rng), place=PLACE)
    if rng.random() < 0.3:          # the package lives there itself, and the place has a name
        r["place"] = [rng.choice(NAMES + ["w"]), rng.choice(NAMES + ["w", "w", "w"])]
        r["inside"] = rng.random() < 0.4        # of the working tree of another repository
        if r["inside"] and rng.random() < 0.4:
            r = {"kind": "nogit", "place": r["place"], "inside": True}
        r["worktree"] = r["kind"] == "repo" and rng.random() < 0.25
    return r


def gen_state(rng):
    u = rng.random()
    if u < 0.06:
        return {"kind": "nogit"}
    if u < 0.12:
        return {"kind": "empty"}
    n = rng.choice([1, 2, 3, 5, 9])
    r = {"kind": "repo", "commits": n, "tags": [], "branch": rng.choice(BRANCHES), "dirty": rng.random() < 0.4,
         "detached": rng.random() < 0.4, "ondetached": rng.random() < 0.3, "extra": [], "pack": rng.random() < 0.2}
    if rng.random() < 0.65:
        ts = rng.sample(TAGS, rng.choice([1, 1, 2, 3]))
        for t in ts:
            at = n - 1 if rng.random() < 0.4 else rng.randrange(n)
            if at not in [x[0] for x in r["tags"]]:
                r["tags"].append([at, t, rng.random() < 0.5])
    if n > 2 and rng.random() < 0.4:           # commits that came in by a merge
        m = rng.randrange(2, n)
        r["side"] = [rng.randrange(m - 1), rng.choice([1, 2, 3]), m]
        if rng.random() < 0.6:
            r["tags"] = [t for t in r["tags"] if t[0] < m] or [[t[0] % m] + t[1:] for t in r["tags"][:1]]
    r["dirtyhow"] = rng.choice(["modify", "modify", "stage", "delete", "mode"])
    r["untracked"] = rng.random() < 0.2
    r["abbrev"] = rng.choice([None, None, None, 4, 12, 40])
    for b in rng.sample(BRANCHES, rng.choice([0, 0, 1, 2])):
        if b != r["branch"]:
            r["extra"].append([rng.randrange(n), b])
    return r


_Popen = subprocess.Popen


def git(cwd, *args, **env):
    p = _Popen(["git"] + list(args), cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = p.communicate()
    if p.returncode:
        raise core.HarnessError("git %s: %s" % (args, err.decode("utf-8", "replace")))
    return out.decode("utf-8", "replace").strip()


def materialise(r, path):
    """-> the full hash of HEAD or None"""
    if r.get("inside"):
        up = os.path.dirname(os.path.dirname(path))
        os.makedirs(up)
        git(up, "init", "-q", "-b", "outer")
        git(up, "commit", "-q", "--allow-empty", "-m", "outer")
        git(up, "tag", "3.3.3")
        git(up, "commit", "-q", "--allow-empty", "-m", "outer 2")
    if r.get("worktree"):
        main = os.path.join(os.path.dirname(os.path.dirname(path)), "main")
        head = materialise(dict(r, place=None, inside=False, worktree=False, dirty=False), main)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        git(main, "worktree", "add", "-q", "--detach", path, "HEAD")
        package(path)
        unclean(r, path)
        return head
    os.makedirs(os.path.join(path, "occuprob"))
    if r.get("place"):
        package(path)
    with open(os.path.join(path, ".gitignore"), "w") as f:
        f.write("*.py\n__pycache__\n")
    if r["kind"] == "nogit":
        return None
    git(path, "init", "-q", "-b", r.get("branch", "main"))
    if r["kind"] == "empty":
        return None
    shas = []
    if r.get("abbrev"):
        git(path, "config", "core.abbrev", str(r["abbrev"]))
    for i in range(r["commits"]):
        if r.get("side") and i == r["side"][2]:
            git(path, "checkout", "-q", "-b", "aside", shas[r["side"][0]])
            for k in range(r["side"][1]):
                with open(os.path.join(path, "occuprob", "g.txt"), "w") as f:
                    f.write("%d\n" % k)
                git(path, "add", "-A")
                d = "%d +0000" % (1600000000 + 1000 * i - 500 + k)
                git(path, "commit", "-q", "-m", "s%d" % k, GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d)
            git(path, "checkout", "-q", r["branch"])
            d = "%d +0000" % (1600000000 + 1000 * i)
            git(path, "merge", "-q", "--no-ff", "-m", "c%d" % i, "aside", GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d)
            git(path, "branch", "-q", "-D", "aside")
            shas.append(git(path, "rev-parse", "HEAD"))
            continue
        with open(os.path.join(path, "occuprob", "f.txt"), "w") as f:
            f.write("%d\n" % i)
        git(path, "add", "-A")
        d = "%d +0000" % (1600000000 + 1000 * i)
        git(path, "commit", "-q", "-m", "c%d" % i, GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d)
        shas.append(git(path, "rev-parse", "HEAD"))
    for at, t, ann in r["tags"]:
        if ann:
            git(path, "tag", "-a", "-m", t, t, shas[at])
        else:
            git(path, "tag", t, shas[at])
    for at, b in r["extra"]:
        git(path, "branch", b, shas[at])
    if r["detached"]:
        git(path, "checkout", "-q", "--detach")
        if r["ondetached"]:
            git(path, "commit", "-q", "--allow-empty", "-m", "loose", GIT_AUTHOR_DATE="1700000000 +0000", GIT_COMMITTER_DATE="1700000000 +0000")
            shas.append(git(path, "rev-parse", "HEAD"))
    if r["pack"]:
        git(path, "pack-refs", "--all")
    unclean(r, path)
    return shas[-1]


def unclean(r, path):
    """What is in the working tree beyond the commit."""
    f = os.path.join(path, "occuprob", "f.txt")
    how = r.get("dirtyhow", "modify") if r["dirty"] else None
    if how in ("modify", "stage"):
        with open(f, "w") as o:
            o.write("changed\n")
    if how == "stage":
        git(path, "add", "-A")
    elif how == "delete":
        os.remove(f)
    elif how == "mode":
        os.chmod(f, 0o755)
    if r.get("untracked"):
        with open(os.path.join(path, "notes.txt"), "w") as o:
            o.write("not a part of it\n")


CHANGES = ["commit", "commit", "tag", "dirty", "clean"]


def change(path, kind, name, n):
    """Somebody works in the repository."""
    f = os.path.join(path, "occuprob", "f.txt")
    if kind == "commit":
        with open(f, "w") as o:
            o.write(name + "\n")
        git(path, "add", "occuprob/f.txt")
        d = "%d +0000" % (1700000100 + n)
        git(path, "commit", "-q", "-m", name, GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d)
    elif kind == "tag":
        git(path, "tag", "-a", "-m", name, name)
    elif kind == "dirty":
        with open(f, "w") as o:
            o.write("work\n")
    else:
        git(path, "checkout", "-q", "HEAD", "--", "occuprob/f.txt")
    return git(path, "rev-parse", "HEAD")


def changed(r, kind, name):
    """The recipe after that."""
    r = dict(r)
    if kind == "commit":
        r["more"], r["dirty"] = r.get("more", 0) + 1, False
    elif kind == "tag":
        r["tags"] = list(r["tags"]) + [[mainline(r) - 1, name, True]]
    else:
        r["dirty"] = kind == "dirty"
    return r


def mainline(r):
    return r["commits"] + (1 if r["detached"] and r["ondetached"] else 0) + r.get("more", 0)


def reachable(r, at):
    """How many commits a commit of the main line has behind it, itself included."""
    s = r.get("side")
    return at + 1 + (s[1] if s and at >= s[2] else 0)


def package(path):
    """A copy of the package."""
    for f in sorted(os.listdir(os.path.join(REPO, "occuprob"))):
        if f.endswith(".py"):
            shutil.copyfile(os.path.join(REPO, "occuprob", f), os.path.join(path, "occuprob", f))


def expected(r, head):
    """Pattern of the version that follows from the state; None if there is none."""
    if r["kind"] != "repo":
        return None
    total = reachable(r, mainline(r) - 1)
    short = "g(?P<h>[0-9a-f]{4,40})"
    if r["tags"]:
        at = max(t[0] for t in r["tags"])
        tags = [t[1] for t in r["tags"] if t[0] == at]          # several on one commit: all are the nearest
        dist = total - reachable(r, at)
        if dist or r["dirty"]:
            pat = "(?:%s)" % "|".join(re.escape(t + ("." if "+" in t else "+")) for t in tags) + re.escape("%d." % dist) + short
            if r["dirty"]:
                pat += re.escape(".dirty")
        else:
            pat = "(?:%s)" % "|".join(re.escape(t) for t in tags)
    else:
        pat = re.escape("0+untagged.%d." % total) + short + (re.escape(".dirty") if r["dirty"] else "")
    return pat + r"\Z"


UNKNOWN = re.compile(r"(0\+)?unknown\Z")


# ---------------------------------------------------------------------------
# in the simulated process

class World:
    repo = None         # stands in for the checkout
    faults = None
    memo = None
    new = None
    epoch = 0
    n = 0
    log = None
    depth = 0


class SimPopen:
    """What a started git does, with the faults of the plan."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, text=None,
                 encoding=None, errors=None, **kw):
        self.args = args
        if isinstance(args, (str, bytes, os.PathLike)):
            import shlex
            args = shlex.split(os.fsdecode(args))
        args = [os.fsdecode(a) for a in args]
        n, World.n = World.n, World.n + 1
        self.pid = 5000 + n
        self.encoding, self.errors = encoding, errors
        self.textual = bool(universal_newlines or text or encoding or errors)
        f = World.faults.get(n) or World.faults.get("from:" + str(max([int(k[5:]) for k in World.faults
                                                                       if str(k).startswith("from:") and int(k[5:]) <= n] or [-1])))
        World.log.append([n, args[1:], f])
        World.fired += f is not None and f[0] != "warns"
        if f and f[0] == "start":
            e = getattr(errno, f[1])
            raise OSError(e, os.strerror(e), args[0])
        d = os.fspath(cwd) if cwd is not None else os.getcwd()
        d = os.path.realpath(os.fsdecode(d))
        d = self.move(d)
        args = [self.move(a) for a in args]
        e = os.environ if env is None else env
        gd = {k: e[k] for k in GITVARS if k in e}
        key = (World.repo, World.epoch, tuple(args), d, tuple(sorted(gd.items())))
        if key not in World.memo:
            World.depth += 1
            p = _Popen(args, cwd=d, env=dict(ENV, **gd), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
            o, er = p.communicate()
            World.memo[key] = World.new[key] = (p.returncode, o, er)
        self.rc, o, er = World.memo[key]
        if f and f[0] == "killed":
            cut = int(f[2] * len(o))
            self.rc, o = -f[1], o[:cut]
        elif f and f[0] == "warns":      # git works, and says something besides
            er = er + f[1].encode()
        elif f and f[0] == "exit":
            self.rc = f[1]
            o = o if f[2] else b""
            er = b"fatal: injected\n"
        if stderr == subprocess.STDOUT:
            o, er = o + er, b""
        self._o = o if stdout == subprocess.PIPE else None
        self._e = er if stderr == subprocess.PIPE else None
        self.returncode = None
        self.stdin = None
        self.stdout = self.stream(self._o)
        self.stderr = self.stream(self._e)

    def move(self, s):
        if s == REPO or s.startswith(REPO + os.sep):
            return World.repo + s[len(REPO):]
        return s.replace("=" + REPO, "=" + World.repo)

    def stream(self, data):
        if data is None:
            return None
        b = io.BytesIO(data)
        return io.TextIOWrapper(b, encoding=self.encoding, errors=self.errors) if self.textual else b

    def out(self, data):
        if data is None or not self.textual:
            return data
        return io.TextIOWrapper(io.BytesIO(data), encoding=self.encoding, errors=self.errors).read()

    def communicate(self, input=None, timeout=None):
        self.returncode = self.rc
        return self.out(self._o), self.out(self._e)

    def wait(self, timeout=None):
        self.returncode = self.rc
        return self.rc

    poll = wait

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def __class_getitem__(cls, x):
        return cls


def play(case, repo, memo, other):
    core.shim.sim_pause(1)
    os.environ.update(case["env"])
    for k in case["gitdir"]:
        os.environ[k] = {"GIT_WORK_TREE": os.path.dirname(other), "GIT_INDEX_FILE": os.path.join(other, "index"),
                         "GIT_OBJECT_DIRECTORY": os.path.join(other, "objects")}.get(k, other)
    World.repo, World.memo, World.new, World.n, World.log, World.fired = repo, dict(memo), {}, 0, [], 0
    World.faults = {(int(k) if k.lstrip("-").isdigit() else k): v for k, v in case["faults"].items()}
    subprocess.Popen = SimPopen
    res = {"steps": []}
    so, se = sys.stdout, sys.stderr
    sys.stderr = io.StringIO()
    if case["recipe"].get("place"):
        sys.path.insert(0, repo)
        importlib.invalidate_caches()
        sys.dont_write_bytecode = True
    try:
        for step in case["steps"]:
            f0 = World.fired
            n0 = World.n
            rec = {"step": step}
            if step[0] == "change":
                rec["head"] = change(repo, step[1], step[2], World.epoch)
                World.epoch += 1
                res["steps"].append(rec)
                continue
            sys.stdout = io.StringIO()
            try:
                if step == "import":
                    for m in [m for m in sys.modules if m == "occuprob" or m.startswith("occuprob.")]:
                        del sys.modules[m]
                    import occuprob
                    if not occuprob.__file__.startswith((repo if case["recipe"].get("place") else REPO) + os.sep):
                        raise core.HarnessError("imported " + occuprob.__file__)
                    rec["version"] = occuprob.__version__
                    rec["rev"] = getattr(occuprob, "__git_revision__", None)
                elif step == "versions":
                    import occuprob._version as v
                    d = v.get_versions()
                    rec["version"], rec["rev"], rec["dirty"] = d["version"], d.get("full-revisionid"), d.get("dirty")
                else:
                    import occuprob.cli as cli
                    argv = sys.argv
                    sys.argv = ["occuprob", "--version"]
                    try:
                        cli.main()
                        rec["exc"] = "main returned"
                    except SystemExit as e:
                        if e.code not in (0, None):
                            rec["exc"] = "exit status %r" % (e.code,)
                    finally:
                        sys.argv = argv
                    rec["version"] = sys.stdout.getvalue().strip().split(" ", 1)[-1]
            except BaseException as e:
                rec["exc"] = "%s: %s" % (type(e).__name__, str(e)[:200])
                if step == "import" and "occuprob" not in sys.modules:
                    rec["gone"] = True
            rec["faults"] = World.fired - f0
            rec["calls"] = World.n - n0
            res["steps"].append(rec)
            if "exc" in rec:
                break
    finally:
        sys.stdout, sys.stderr = so, se
    res["new"] = World.new
    res["log"] = World.log
    core.shim.sim_pause(0)
    return res


# ---------------------------------------------------------------------------

class C16:
    id = "C16"
    listing = {}

    def gen(self, seed, i, tier):
        rng = rng_for(self.id, seed, i)
        pool = 40 if tier == "quick" else 160
        rseed = (seed, rng.randrange(pool))
        recipe = gen_recipe(rng_for("recipe", rseed))
        steps = ["import"] + [rng.choice(["cli", "versions", "cli", "import"]) for _ in range(rng.choice([1, 2, 3]))]
        if recipe["kind"] == "repo" and rng.random() < 0.08:
            recipe = dict(recipe, place=[rng.choice(["src", "v3.1"]), "w"] if recipe["place"] == PLACE else recipe["place"])
            for k in range(rng.choice([1, 2, 3])):
                steps += [["change", rng.choice(CHANGES), "9.%d" % k], "import"] + [rng.choice(["cli", "versions"])] * rng.randrange(2)
        faults = {}
        u = rng.random()
        calls = 12 + 6 * len(steps)

        def fault():
            if rng.random() < 0.1:
                return ["warns", rng.choice(["warning: refname 'HEAD' is ambiguous.\n", "warning: unable to access '/root/.config/git/attributes': Permission denied\n",
                                             "hint: \u00e4\nhint: b\n", "warning: unable to unlink\n" * 3])]
            return rng.choice([["start", "ENOENT"], ["start", "EACCES"], ["start", "ENOMEM"], ["start", "EAGAIN"], ["start", "ENOTDIR"],
                               ["start", "EMFILE"],
                               ["killed", rng.choice([9, 15, 11, 2]), round(rng.random(), 3)], ["killed", 9, round(rng.random(), 3)],
                               ["exit", rng.choice([1, 128, 127, 129, 255]), rng.random() < 0.4]])
        if u < 0.15:
            pass
        elif u < 0.6:
            faults[str(rng.randrange(calls))] = fault()
        elif u < 0.8:
            faults["from:%d" % rng.randrange(calls)] = fault()
        else:
            for _ in range(rng.choice([2, 3, 6])):
                faults[str(rng.randrange(calls))] = fault()
        u = rng.random()        # what git itself sets while it runs a hook, or a user's shell
        gitdir = (["GIT_DIR"] if u < 0.1 else [rng.choice(GITVARS)] if u < 0.25 else
                  [k for k in GITVARS if rng.random() < 0.5] if u < 0.3 else [])
        env = rng.choice([{}, {}, {"GIT_TRACE": "0"}, {"LANG": "de_DE.UTF-8"}, {"COLUMNS": "400"}])
        return {"recipe": recipe, "steps": steps, "faults": faults, "env": env, "gitdir": gitdir}

    def repo(self, ctx, recipe):
        if not hasattr(ctx, "gitrepos"):
            ctx.gitrepos, ctx.gitmemo = {}, {}
        key = repr(sorted(recipe.items()))
        if key not in ctx.gitrepos:
            p = os.path.join(ctx.scratch, "git%d" % len(ctx.gitrepos), *(recipe.get("place") or ["src"]))
            ctx.gitrepos[key] = (p, materialise(recipe, p))
            self.tidy(p)
        return ctx.gitrepos[key]

    def tidy(self, path):
        """What a case left beside the package or in git's directory is not there for the next one."""
        for d in ("", ".git", "occuprob"):
            d = os.path.join(path, d)
            if os.path.isdir(d):
                now = sorted(os.listdir(d))
                for f in now:
                    if f not in self.listing.setdefault(d, now):
                        f = os.path.join(d, f)
                        shutil.rmtree(f) if os.path.isdir(f) and not os.path.islink(f) else os.remove(f)

    def run(self, case, ctx):
        path, head = self.repo(ctx, case["recipe"])
        moving = any(s[0] == "change" for s in case["steps"])
        if moving:
            ctx.moved = getattr(ctx, "moved", 0) + 1
            own = os.path.join(ctx.scratch, "moving%d" % ctx.moved)
            path = os.path.join(own, *case["recipe"]["place"])
            materialise(case["recipe"], path)
        other, _ = self.repo(ctx, {"kind": "repo", "commits": 4, "tags": [[2, "7.7", True]], "branch": "main", "dirty": False,
                                   "detached": False, "ondetached": False, "extra": [], "pack": False})
        if not hasattr(ctx, "verfs"):
            ctx.verfs = core.SimFS(ctx.scratch, "ver")
        r = core.Run(ctx.verfs, None, ctx.stats)
        memo = {k: v for k, v in ctx.gitmemo.items() if k[0] == path}
        p = core.Proc(0, ctx.verfs.root, play, (case, path, memo, os.path.join(other, ".git")), {"cwd": "w", "seed": 1})
        r.go([p])
        g = p.result
        if moving:
            shutil.rmtree(own)
        else:
            self.tidy(path)
        if g is None:
            return [V("dies", "the process dies (status %s): %s" % (p.status, p.err[-300:]))]
        if not moving:
            ctx.gitmemo.update(g["new"])
        ctx.book([[x.get("version"), x.get("exc"), x.get("calls")] for x in g["steps"]], [case["recipe"], case["steps"], g["log"]])
        ctx.count("git_invocations", len(g["log"]))
        for n, args, f in g["log"]:
            if f:
                ctx.count("git_warning" if f[0] == "warns" else "git_%s_%s" % (f[0], f[1] if f[0] == "start" else ("signal" if f[0] == "killed" else "status")))
        state = case["recipe"]
        for k, s in enumerate(g["steps"]):
            if "head" in s:
                state, head = changed(state, *s["step"][1:]), s["head"]
                ctx.count("probe_repository_changed")
                continue
            pat = expected(state, head)
            what = "step %d (%s) with git faults %s in %s" % (k, s["step"], [x for x in g["log"] if x[2]], state)
            if "exc" in s:
                return [V("fails", "%s fails: %s" % (what, s["exc"]))]
            ver = s["version"]
            m = re.match(pat, ver) if pat else None
            ok = m and ("h" not in m.groupdict() or head.startswith(m.group("h")))
            if ok:
                ctx.count("probe_right_version")
            elif UNKNOWN.match(ver or "") and (s["faults"] or pat is None):
                ctx.count("probe_unknown_version")
            else:
                return [V("lies", "%s reports %r; the state says %s" % (what, ver, pat or "no version"))]
            if s.get("rev") not in (None, head):
                return [V("lies", "%s reports revision %r, HEAD is %s" % (what, s["rev"], head))]
        return []

    def describe(self, case):
        return case

    def shrinks(self, case):
        if len(case["steps"]) > 1:
            for i in range(len(case["steps"])):
                steps = case["steps"][:i] + case["steps"][i + 1:]
                # the version is looked up when the package is imported
                if steps[0] == "import" and all(b == "import" for a, b in zip(steps, steps[1:]) if a[0] == "change"):
                    yield dict(case, steps=steps)
        f = case["faults"]
        for k in f:
            yield dict(case, faults={a: b for a, b in f.items() if a != k})
        if case["gitdir"]:
            yield dict(case, gitdir=[])
            for k in case["gitdir"] if len(case["gitdir"]) > 1 else ():
                yield dict(case, gitdir=[k])
        if case["env"]:
            yield dict(case, env={})
        r = case["recipe"]
        for k, v in (("place", PLACE), ("worktree", False), ("inside", False)):
            if r.get(k) not in (v, None):
                yield dict(case, recipe=dict(r, **({"place": PLACE, "worktree": False, "inside": False} if k == "place" else {k: v})))
        for k, v in (("detached", False), ("ondetached", False), ("dirty", False), ("extra", []), ("tags", []), ("commits", 1), ("pack", False), ("branch", "main")):
            if r.get(k) not in (None, v) and not (k == "commits" and (r["tags"] or r["extra"])):
                yield dict(case, recipe=dict(r, **{k: v}))


CHECKS = {"C16": C16()}
