"""Process-level simulator: forked children under one controller.

A simulated process is a fork of a warm zygote (the worker, which has imported the
real libraries and the real occuprob from /repo but never called into occuprob).
All its file-system calls, clock reads, sleeps, random bytes and its pid go through
shim.c.  Exactly one simulated process runs at any moment: the controller releases
one, and waits until it announces its next file-system call or ends.
"""
import ctypes, errno, gc, hashlib, io, json, os, pickle, random, shutil, signal, socket, struct, sys, time, traceback

OPS = {1: "OPEN", 2: "READ", 3: "WRITE", 4: "CLOSE", 5: "RENAME", 6: "UNLINK", 7: "MKDIR", 8: "RMDIR",
       9: "TRUNC", 10: "FSYNC", 11: "LINK", 12: "SYMLINK", 13: "LOCK", 14: "CHMOD", 15: "SLEEP", 16: "MARK"}
GO, FAIL, SHORT, CRASH, TORN, SIGINT, CRASH_AFTER = range(7)
ACTS = {"go": GO, "fail": FAIL, "short": SHORT, "crash": CRASH, "torn": TORN, "sigint": SIGINT,
        "crash_after": CRASH_AFTER}
REQ = struct.Struct("<iiqqiiq")
REP = struct.Struct("<iiqqq")
WALL = float(os.environ.get("OCCUSIM_WALL", "60"))
STEP_CAP = 20000
O_W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC

shim = None


class HarnessError(Exception):
    pass


def load_shim():
    global shim
    shim = ctypes.CDLL(os.environ["OCCUSIM_SHIM"])
    shim.sim_activate.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int64, ctypes.c_int64,
                                  ctypes.c_uint64, ctypes.c_int]
    shim.sim_now.restype = ctypes.c_int64
    shim.sim_alloc_arm.argtypes = [ctypes.c_long, ctypes.c_size_t]
    shim.sim_alloc_disarm.restype = ctypes.c_long
    shim.sim_alloc_failures.restype = ctypes.c_long
    # the preloaded copy must be this very object, or the hooks would not be live
    if "OCCUSIM_SHIM" not in os.environ or os.environ["OCCUSIM_SHIM"] not in open("/proc/self/maps").read():
        raise HarnessError("shim is not preloaded")


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


class Event:
    __slots__ = ("seq", "proc", "n", "op", "path", "path2", "a", "outside", "now")

    def __repr__(self):
        return "%s %s%s a=%d" % (self.op, self.path, (" -> " + self.path2) if self.path2 else "", self.a)

    @property
    def writes(self):
        return self.op in ("WRITE", "RENAME", "UNLINK", "MKDIR", "RMDIR", "TRUNC", "LINK", "SYMLINK", "CHMOD") or \
            (self.op == "OPEN" and bool(self.a & O_W))


class Proc:
    """One simulated process."""

    def __init__(self, idx, root, fn, args, world):
        self.idx, self.n = idx, 0
        self.status = None          # exit status once ended: >=0 code, 137 = killed by the simulator
        self.pending = None
        self.log = []
        self.hung = False
        self.real_ns = 0
        self.now = world.get("mono", 1_000_000_000_000)
        self.start_now = self.now
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.fd_out, self.fd_err, self.fd_res = (os.memfd_create(x) for x in ("out", "err", "res"))
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                a.close()
                code = _child(root, b, self, fn, args, world)
            except BaseException:
                try:
                    shim.sim_deactivate()
                    os.write(self.fd_err, ("\nHARNESS-CHILD-ERROR\n" + traceback.format_exc()).encode())
                except BaseException:
                    pass
                code = 71
            finally:
                os._exit(code)
        b.close()
        self.sock = a
        self.sock.settimeout(WALL)

    def _wait(self):
        """Run the process until its next announced call, or its end."""
        try:
            msg = self.sock.recv(REQ.size + 8192 * 2)
        except ConnectionResetError:
            msg = b""
        except (socket.timeout, TimeoutError):
            self.hung = True
            os.kill(self.pid, signal.SIGKILL)
            msg = b""
        if not msg:
            _, st = os.waitpid(self.pid, 0)
            if os.WIFSIGNALED(st):
                self.status = -os.WTERMSIG(st)
            else:
                self.status = os.WEXITSTATUS(st)
            self.sock.close()
            self.pending = None
            self.out, self.err = _slurp(self.fd_out), _slurp(self.fd_err)
            res = _slurp(self.fd_res, text=False)
            self.result = None
            if res:
                try:
                    self.result = pickle.loads(res)
                except Exception:
                    self.result = None
            if self.status in (70, 71):
                raise HarnessError("child harness error: " + self.err[-3000:])
            return None
        op, fd, x, y, outside, plen, now = REQ.unpack_from(msg)
        body = msg[REQ.size:]
        e = Event()
        e.proc, e.n, e.op = self.idx, self.n, OPS[op]
        e.path = os.fsdecode(body[:plen])
        e.path2 = os.fsdecode(body[plen + 1:])
        e.a, e.outside, e.now = x, bool(outside), now
        self.n += 1
        self.now = max(self.now, now)
        self.pending = e
        return e

    def start(self):
        return self._wait()

    def answer(self, act=GO, err=0, val=0, dt_real=0, dt_mono=0):
        self.pending = None
        self.sock.send(REP.pack(act, err, val, dt_real, dt_mono))
        return self._wait()

    def kill(self):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            self.pending = None
            self._wait()


def _slurp(fd, text=True):
    try:
        n = os.fstat(fd).st_size
        data = os.pread(fd, n, 0)
    finally:
        os.close(fd)
    return data.decode("utf-8", "replace") if text else data


COMP = 1 << 20          # marks announced by `arm`


def armed(world, plan, idx=0):
    """The world of process idx under this plan: interrupts during computation are delivered in the process itself."""
    c = (plan or {}).get("comp")
    return dict(world, comp=c) if c and c.get("p", 0) == idx else world


def arm(comp):
    """Raises comp["exc"] on entering a function for the nth time: one of occuprob ("own"), or also of the libraries
    it reads its input with ("all")."""
    mon = sys.monitoring
    tool = 3
    import importlib.util
    dirs = [os.path.dirname(importlib.util.find_spec(m).origin) + os.sep
            for m in (["occuprob"] if comp["scope"] == "own" else ["occuprob", "ase", "pymatgen.core", "pymatgen.symmetry"])]
    dirs = tuple(d for d in dirs)
    left = [comp["at"]]
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[comp["exc"]]

    def hit(code, offset):
        if not code.co_filename.startswith(dirs) or code.co_name in ("<module>", "__del__", "<lambda>"):
            return mon.DISABLE
        if left[0] > 0:
            left[0] -= 1
            return None
        f = sys._getframe(1)
        while f is not None:            # not while a module is being imported
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return None
            f = f.f_back
        mon.set_events(tool, 0)
        shim.sim_mark(COMP + COMP * (exc is MemoryError))
        raise exc("injected")
    mon.use_tool_id(tool, "occusim-interrupt")
    mon.register_callback(tool, mon.events.PY_START, hit)
    mon.set_events(tool, mon.events.PY_START)


class Terminal(io.TextIOWrapper):
    """Output that says it is a terminal."""

    def isatty(self):
        return True


def other_machine(h):
    """What programs ask about the machine and its state; h: seed"""
    import platform
    import resource
    r = random.Random(h)
    name, load, ppid, free, pages = "host%d" % r.randrange(1000), r.choice([0.0, 0.7, 63.0]), r.randrange(1, 99999), r.randrange(2**r.randrange(1, 24)), \
        r.choice([2**14, 2**16, 2**22, 2**26])
    uname, statvfs, sysconf = os.uname(), os.statvfs, os.sysconf
    os.uname = lambda: os.uname_result((uname[0], name, r.choice(["4.4.0", "6.11.2"]), uname[3], uname[4]))
    socket.gethostname = platform.node = lambda: name
    os.getloadavg = lambda: (load, load, load)
    os.getppid = lambda: ppid
    os.getlogin = lambda: "user%d" % ppid
    os.sysconf = lambda k: pages if k in ("SC_PHYS_PAGES", "SC_AVPHYS_PAGES") else sysconf(k)

    def vfs(path):
        s = list(statvfs(path))
        return os.statvfs_result(s[:3] + [free, free] + s[5:])
    os.statvfs = vfs
    limits = {resource.RLIMIT_AS: 2**r.choice([31, 36]), resource.RLIMIT_DATA: 2**r.choice([31, 36]), resource.RLIMIT_NOFILE: r.choice([256, 4096]),
              resource.RLIMIT_CPU: r.choice([60, 36000])}
    getrlimit = resource.getrlimit
    resource.getrlimit = lambda k: (limits[k], limits[k]) if k in limits else getrlimit(k)


def _child(root, sock, proc, fn, args, world):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    os.dup2(proc.fd_out, 1)
    os.dup2(proc.fd_err, 2)
    sys.stdin = open(os.devnull)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", write_through=False)
    sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", errors="backslashreplace",
                                  write_through=True)
    if world.get("tty"):
        sys.stdout = Terminal(os.fdopen(1, "wb", closefd=False), encoding="utf-8", line_buffering=True)
        sys.stderr = Terminal(os.fdopen(2, "wb", closefd=False), encoding="utf-8", errors="backslashreplace", write_through=True)
        isatty = os.isatty
        os.isatty = lambda fd: fd in (0, 1, 2) or isatty(fd)
    if world.get("cpus"):
        os.cpu_count = lambda: world["cpus"]
        os.sched_getaffinity = lambda pid: set(range(world["cpus"]))
    if world.get("host"):
        other_machine(world["host"])
    os.chdir(os.path.join(root, world.get("cwd", "w")))
    os.umask(world.get("umask", 0o022))
    os.environ["TMPDIR"] = os.path.join(root, "tmp")
    os.environ["HOME"] = os.path.join(root, "w", "home")
    import tempfile
    tempfile.tempdir = None
    for k, v in world.get("env", {}).items():
        os.environ[k] = v
    if "TZ" in world.get("env", {}):
        time.tzset()
    random.seed(world.get("seed", 0))
    ctlfd = sock.fileno()
    res = {"fd": proc.fd_res}
    shim.sim_activate(os.fsencode(root), ctlfd, world.get("clock", 1_700_000_000_000_000_000),
                      world.get("mono", 1_000_000_000_000), world.get("seed", 0) & (2**63 - 1),
                      world.get("pid", 4242))
    code = 0
    value = None
    try:
        try:
            if world.get("comp"):
                arm(world["comp"])
            value = fn(*args)
        except SystemExit as ex:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            c = ex.code
            if c is None:
                code = 0
            elif isinstance(c, int):
                code = c & 0xFF
            else:
                code = 1
                print(c, file=sys.stderr)
        except KeyboardInterrupt:
            code = 130
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            traceback.print_exc()
        except BaseException:
            code = 1
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            traceback.print_exc()
        if world.get("comp"):
            sys.monitoring.set_events(3, 0)
        # what the interpreter does at exit, as far as it can matter to files
        gc.collect()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
    except KeyboardInterrupt:           # one more Ctrl-C while going down
        code = code or 130
    try:
        sys.stdout.flush()
    except BaseException:
        code = code or 120
    shim.sim_deactivate()
    if value is not None:
        os.write(res["fd"], pickle.dumps(value))
    return code


# ---------------------------------------------------------------------------
# fault plans

class Plan:
    """Decides the answer to every announced call.

    spec: {"points": [{"p":proc,"n":event index,"act":...,"err":...,"val":..,"dt":..,"env":[...]}],
           "noise": {"seed":s,"eintr":rate,"short":rate,"tick":ns,"jump":rate} or None,
           "persist": {"p":proc,"from":n,"err":errno,"ops":[...]} or None,
           "quota": bytes or None,
           "comp": {"p":proc,"at":nth function entered,"scope":...,"exc":...} or None (delivered in the process)}
    """

    def __init__(self, spec, fs, stats):
        self.spec, self.fs, self.stats = spec or {}, fs, stats
        self.points = {}
        for x in self.spec.get("points", []):
            self.points.setdefault((x.get("p", 0), x["n"]), []).append(x)
        self.noise = self.spec.get("noise")
        self.persist = self.spec.get("persist")
        self.quota = self.spec.get("quota")
        self.used = 0
        self.persisted = False
        self.hard = False        # an operation was actually made to fail / process disturbed
        self.nhard = 0           # how often, for faults that last
        self.fired = []

    def _fire(self, kind):
        self.stats[kind] = self.stats.get(kind, 0) + 1
        self.fired.append(kind)

    def decide(self, e):
        dt_r = dt_m = 50_000
        act, err, val = GO, 0, 0
        if e.op == "MARK" and e.a >= COMP:
            self._fire("interrupt_computation" if e.a == COMP else "memoryerror_computation")
            self.hard = True
            return act, err, val, dt_r, dt_m
        nz = self.noise
        if nz:
            r = rng_for("noise", nz["seed"], e.proc, e.n)
            if nz.get("tick"):
                dt_r = dt_m = r.randrange(0, nz["tick"])
            if r.random() < nz.get("jump", 0):
                dt_r += r.choice([-1, 1]) * r.randrange(1, 10**r.randrange(9, 18))
                self._fire("clock_jump")
            u = r.random()
            if e.op in ("READ", "WRITE", "OPEN") and u < nz.get("eintr", 0) and not e.outside:
                act, err = FAIL, errno.EINTR
                self._fire("eintr_" + e.op.lower())
            elif e.op in ("READ", "WRITE") and u < nz.get("eintr", 0) + nz.get("short", 0) and e.a > 1:
                act, val = SHORT, r.choice([1, 2, 7, r.randrange(1, e.a), r.randrange(1, e.a)])
                self._fire("short_" + e.op.lower())
        for x in self.points.get((e.proc, e.n), []):
            if "env" in x:
                self.fs.env(x["env"])
                self._fire("env_" + x["env"][0])
            if "dt" in x:
                dt_r += x["dt"]
                self._fire("clock_jump")
            if "act" in x and not e.outside:
                a = x["act"]
                if a == "torn" and e.op not in ("READ", "WRITE"):
                    a = "crash_after"
                if a == "short" and e.op not in ("READ", "WRITE"):
                    continue
                act, err, val = ACTS[a], x.get("err", errno.EIO), 0
                if a == "torn" or a == "short":
                    val = max(1, int(x.get("frac", 0.5) * e.a)) if e.a > 0 else 1
                if a == "fail":
                    self.hard = True
                    self._fire("%s_%s" % (errno.errorcode.get(err, str(err)).lower(), e.op.lower()))
                elif a == "short":
                    self._fire("short_" + e.op.lower())
                else:
                    self.hard = True
                    self._fire(a)
        p = self.persist
        if p and p.get("p", 0) == e.proc and e.n >= p["from"] and e.op in p["ops"] and act in (GO, SHORT) \
                and not e.outside and (e.op != "OPEN" or not p.get("wonly") or (e.a & O_W)):
            act, err = FAIL, p["err"]
            self.hard = True
            self.nhard += 1
            self.persisted = True
            self._fire("persistent_%s_%s" % (errno.errorcode.get(err, str(err)).lower(), e.op.lower()))
        if self.quota is not None and e.op == "WRITE" and act in (GO, SHORT):
            want = e.a if act == GO else val
            left = self.quota - self.used
            if left <= 0:
                act, err = FAIL, errno.ENOSPC
                self.hard = True
                self.nhard += 1
                self._fire("enospc_full")
            else:
                if want > left:
                    act, val, want = SHORT, left, left
                    self._fire("enospc_short")
                self.used += want
        return act, err, val, dt_r, dt_m


class SimFS:
    """The tree simulated processes see: a scratch directory, plus controller-side edits."""

    def __init__(self, base, name):
        self.root = os.path.join(base, name)
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        os.makedirs(os.path.join(self.root, "w"))
        os.makedirs(os.path.join(self.root, "tmp"))

    def path(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, data, mtime=None):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        with open(p, "wb") as f:
            f.write(data)
        t = 1_600_000_000 if mtime is None else mtime
        os.utime(p, (t, t))

    def read(self, rel):
        try:
            with open(self.path(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None

    def env(self, op):
        import gen
        kind, rel = op[0], op[1]
        p = self.path(rel)
        if kind == "append":
            with open(p, "ab") as f:
                f.write(op[2].encode())
        elif kind == "rewrite":                      # in place, same inode
            with open(p, "r+b" if os.path.exists(p) else "wb") as f:
                f.truncate(0)
                f.write(gen.packed(rel, op[2]))
        elif kind == "replace":                      # new inode
            with open(p + ".new~", "wb") as f:
                f.write(gen.packed(rel, op[2]))
            os.rename(p + ".new~", p)
        elif kind == "truncate":
            with open(p, "r+b") as f:
                f.truncate(op[2])
        elif kind == "remove":
            if os.path.exists(p):
                os.remove(p)
        elif kind == "mkdir":
            os.makedirs(p, exist_ok=True)
        else:
            raise HarnessError("env " + kind)
        if len(op) > 3 and op[3] is not None and os.path.exists(p):
            os.utime(p, (op[3], op[3]))

    def snapshot(self, sub="w", meta=False):
        """path -> content (meta: with permissions and modification time)"""
        out = {}
        base = self.path(sub)
        if meta and os.path.isdir(base):
            out[sub] = oct(os.stat(base).st_mode)
        for d, ds, fs in os.walk(base):
            for n in ds:
                q = os.path.join(d, n)
                out[os.path.relpath(q, self.root)] = "link" if os.path.islink(q) else None
            for n in fs:
                q = os.path.join(d, n)
                with open(q, "rb") as f:
                    data = f.read()
                out[os.path.relpath(q, self.root)] = (os.readlink(q), data) if os.path.islink(q) else data
            if meta:
                for n in ds + fs:
                    q = os.path.join(d, n)
                    k = os.path.relpath(q, self.root)
                    st = os.stat(q)
                    out[k] = (out[k], oct(st.st_mode), st.st_mtime_ns if n in fs else None)
        return out

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Run:
    """Drives one or several simulated processes to their ends."""

    def __init__(self, fs, plan_spec, stats, sched=None, on_event=None, cap=STEP_CAP):
        self.fs, self.stats = fs, stats
        self.plan = Plan(plan_spec, fs, stats)
        self.sched = sched            # callable(list of runnable indices, seq) -> index
        self.on_event = on_event      # invariant hook, called before every announced call
        self.events = []
        self.log = []
        self.cap = cap
        self.hard_cap = 10**9         # failed operations, of faults that last
        self.capped = False
        self.outside = []
        self.sim_ns = 0
        self.invariant_errors = []

    def go(self, procs):
        procs = list(procs)
        try:
            for p in procs:
                p.start()
            seq = 0
            last = None
            while True:
                run = [i for i, p in enumerate(procs) if p.pending is not None]
                if not run:
                    break
                i = run[0] if (self.sched is None or len(run) == 1) else self.sched(run, seq, last)
                last = i
                p = procs[i]
                e = p.pending
                e.seq = seq
                seq += 1
                if e.outside:
                    self.outside.append(repr(e))
                if self.on_event is not None:
                    msg = self.on_event(e)
                    if msg:
                        self.invariant_errors.append("before event %d (%r): %s" % (e.seq, e, msg))
                act, err, val, dr, dm = self.plan.decide(e)
                self.events.append((e.proc, e.n, e.op, e.path, e.a, act))
                self.log.append("%d p%d %s %s %s a=%d -> act=%d err=%d val=%d" %
                                (e.seq, e.proc, e.op, e.path, e.path2, e.a, act, err, val))
                if seq > self.cap or self.plan.nhard > self.hard_cap:
                    self.capped = True
                    for q in procs:
                        q.kill()
                    break
                p.answer(act, err, val, dr, dm)
        finally:
            for p in procs:
                if p.status is None:
                    try:
                        p.kill()
                    except Exception:
                        pass
        self.hung = any(p.hung for p in procs)
        self.sim_ns = sum(p.now - p.start_now for p in procs)
        for p in procs:
            self.log.append("exit p%d %s" % (p.idx, p.status))
        return procs

    def digest(self, *extra):
        h = hashlib.sha256("\n".join(self.log).encode())
        for x in extra:
            h.update(repr(x).encode())
        return h.hexdigest()[:16]
