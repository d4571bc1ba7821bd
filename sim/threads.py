"""Cooperative scheduler for real threads.

Every task is a real thread, but at most one of them is ever released: each parks at
its gate until the scheduler hands it the baton.  A task reaches a scheduling point at
every line (or byte-code instruction) of occuprob code it executes, at every lock
operation, and where the harness' own contributions say so.  Which task goes on is the
seeded decision recorded in `trace`; replaying that list replays the execution.
"""
import _thread, contextlib, os, random, sys, threading, time

REPO = os.path.join(os.path.realpath(os.environ.get("OCCUSIM_REPO", "/repo")), "occuprob") + os.sep
_raw_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT = None          # the scheduler of the run in progress
STEP_LIMIT = 200000


class SimDeadlock(BaseException):
    pass


class SimAbort(BaseException):
    pass


class Task:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = _raw_lock()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.value = None
        self.error = None
        self.tid = None
        self.last = ""


class Scheduler:
    """mode: 'line' or 'opcode'; policy: dict with seed and switch probability, or
    'replay': list of [step, task]."""

    def __init__(self, fns, policy, mode="line"):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.policy = policy
        self.mode = mode
        self.rng = random.Random(policy.get("seed", 0))
        self.p = policy.get("p", 0.2)
        self.replay = policy.get("replay")
        self.rpos = 0
        self.step = 0
        self.switches = []
        self.cur = None
        self.finish = _raw_lock()
        self.finish.acquire()
        self.deadlock = False
        self.overrun = False
        self.aborting = False
        self.sites = []
        if policy.get("pct"):           # priority schedule with a few change points
            n = len(fns)
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            self.change = sorted(self.rng.randrange(1, policy.get("len", 400)) for _ in range(policy["pct"]))
        else:
            self.prio = None

    # -- decisions ---------------------------------------------------------
    def runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def choose(self, cands, cur):
        """Pick the next task; cur may go on if it is among the candidates."""
        if self.replay is not None:
            nxt = cur if cur in cands else cands[0]
            while self.rpos < len(self.replay) and self.replay[self.rpos][0] < self.step:
                self.rpos += 1
            if self.rpos < len(self.replay) and self.replay[self.rpos][0] == self.step:
                want = self.replay[self.rpos][1]
                self.rpos += 1
                for t in cands:
                    if t.idx == want:
                        nxt = t
            return nxt
        if self.prio is not None:
            while self.change and self.step >= self.change[0]:
                self.change.pop(0)
                if cur is not None:
                    self.prio[cur.idx] = min(self.prio) - 1
            return max(cands, key=lambda t: self.prio[t.idx])
        if cur in cands and (len(cands) == 1 or self.rng.random() >= self.p):
            return cur
        others = [t for t in cands if t is not cur] or cands
        return others[self.rng.randrange(len(others))]

    def point(self, site="", force=False):
        """A scheduling point of the running task."""
        t = self.cur
        if t is None or t.tid != _thread.get_ident():
            return
        if self.aborting:
            raise SimAbort()
        self.step += 1
        if self.step > STEP_LIMIT:
            self.overrun = True
            self.aborting = True
            raise SimAbort()
        c = self.runnable()
        if not c:
            self._deadlock()
        n = self.choose(c, t)
        if n is not t:
            self._switch(t, n, site)
        if t.blocked == "dead":
            raise SimDeadlock()

    def _switch(self, t, n, site):
        self.switches.append([self.step, n.idx])
        self.sites.append((t.idx, n.idx, site))
        self.cur = n
        n.gate.release()
        t.gate.acquire()
        if self.aborting:
            raise SimAbort()

    def _deadlock(self):
        self.deadlock = True
        self.aborting = True
        raise SimDeadlock()

    def block(self, why, site="lock"):
        """The running task cannot go on until unblock(why)."""
        t = self.cur
        self.step += 1
        t.blocked = why
        c = self.runnable()
        if not c:
            self._deadlock()
        n = self.choose(c, t)
        self._switch(t, n, site)

    def unblock(self, why):
        for t in self.tasks:
            if t.blocked is why:
                t.blocked = None

    def mine(self):
        return self.cur is not None and self.cur.tid == _thread.get_ident()

    # -- running -----------------------------------------------------------
    def _body(self, t):
        t.gate.acquire()
        t.tid = _thread.get_ident()
        try:
            if not self.aborting:
                t.value = t.fn()
        except BaseException as e:
            t.error = e
        t.done = True
        if self.aborting:
            for u in self.tasks:
                u.blocked = None
        c = self.runnable()
        if not c and any(not u.done for u in self.tasks):
            self.deadlock = True
            self.aborting = True
            for u in self.tasks:
                u.blocked = None
            c = self.runnable()
        if c:
            self.step += 1
            n = self.choose(c, None)
            self.switches.append([self.step, n.idx])
            self.cur = n
            n.gate.release()
        else:
            self.cur = None
            self.finish.release()

    def run(self):
        global CURRENT
        CURRENT = self
        try:
            with patched_locks(), monitored(self.mode):
                for t in self.tasks:
                    _thread.start_new_thread(self._body, (t,))
                n = self.choose(self.runnable(), None)
                self.switches.append([0, n.idx])
                self.cur = n
                n.gate.release()
                self.finish.acquire()
        finally:
            CURRENT = None
        return self


# ---------------------------------------------------------------------------
# scheduling points in the library's code

TOOL = 4


def library_code():
    """Every code object of the library's modules."""
    seen, out = set(), []

    def add(co):
        if id(co) in seen or not co.co_filename.startswith(REPO):
            return
        seen.add(id(co))
        if co.co_name != "<module>":
            out.append(co)
        for c in co.co_consts:
            if hasattr(c, "co_code"):
                add(c)

    def walk(v, depth):
        v = getattr(v, "__wrapped__", v)
        v = getattr(v, "__func__", v)
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    walk(f, depth)
        elif hasattr(v, "func") and hasattr(getattr(v, "func"), "__code__"):
            walk(v.func, depth)
        elif hasattr(v, "__code__"):
            add(v.__code__)
            for cell in v.__closure__ or ():
                try:
                    if depth < 4:
                        walk(cell.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(v, type) and depth < 4 and str(getattr(v, "__module__", "")).startswith("occuprob"):
            for x in list(vars(v).values()):
                walk(x, depth + 1)
        elif isinstance(v, (list, tuple, dict)) and depth < 3 and len(v) < 100:
            for x in list(v.values() if isinstance(v, dict) else v):
                walk(x, depth + 1)
        elif str(getattr(type(v), "__module__", "")).startswith("occuprob") and depth < 3:
            walk(type(v), depth + 1)
    for n in sorted(sys.modules):
        if (n == "occuprob" or n.startswith("occuprob.")) and ".tests" not in n:
            for v in list(vars(sys.modules[n]).values()):
                walk(v, 0)
    return out


@contextlib.contextmanager
def monitored(mode):
    """A scheduling point at every line or instruction of the library's code.

    sys.monitoring events set once, before any task starts: toggling tracing while other
    threads are inside traced frames crashes CPython 3.12.
    """
    mon = sys.monitoring
    ev = mon.events.PY_START | (mon.events.INSTRUCTION if mode == "opcode" else mon.events.LINE)
    mon.use_tool_id(TOOL, "occusim")

    def hit(code, where):
        s = CURRENT
        if s is not None and s.mine():
            s.point("%s:%s" % (code.co_name, where))
    mon.register_callback(TOOL, mon.events.PY_START, hit)
    mon.register_callback(TOOL, mon.events.LINE, hit)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, hit)
    for co in library_code():
        mon.set_local_events(TOOL, co, ev)
    try:
        yield
    finally:
        # the process ends soon; leave the instrumentation of code that may still run alone
        for e in (mon.events.PY_START, mon.events.LINE, mon.events.INSTRUCTION):
            mon.register_callback(TOOL, e, None)


def yield_point(site="user"):
    s = CURRENT
    if s is not None and s.mine():
        s.point(site)


# ---------------------------------------------------------------------------
# locks made while patched cooperate with the scheduler

class SimLock:
    def __init__(self):
        self._l = _raw_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.mine():
            return self._l.acquire(blocking, timeout)
        s.point("acquire")
        n = 0
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                n += 1
                if n > 50:
                    return False
                s.point("acquire-timed")
            else:
                s.block(self)
        return True

    def release(self):
        self._l.release()
        s = CURRENT
        if s is not None:
            s.unblock(self)
            if s.mine() and not s.aborting:
                s.point("release")

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _raw_lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l, self._o, self._n = SimLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._o, self._n = me, 1
            return True
        return False

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._o = None
            self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        n, self._n, self._o = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self._l.acquire()
        self._o, self._n = _thread.get_ident(), n

    def _at_fork_reinit(self):
        self.__init__()


@contextlib.contextmanager
def patched_locks():
    saved = threading.Lock, threading._allocate_lock, threading.RLock, _thread.allocate_lock, time.sleep

    def sleep(s):
        c = CURRENT
        if c is not None and c.mine():
            c.point("sleep")
        else:
            saved[4](s)
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    time.sleep = sleep
    try:
        yield
    finally:
        threading.Lock, threading._allocate_lock, threading.RLock, _, time.sleep = saved
