#!/usr/bin/env python3
"""Entry point of every check: run.py <property>.  Reads VERIF_SEED and VERIF_TIER."""
import atexit, concurrent.futures, hashlib, json, os, queue, select, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("OCCUSIM_REPO", "/repo")
PY = os.environ.get("OCCUSIM_PY", "/opt/venv/bin/python")
OUT = os.environ.get("OCCUSIM_OUT", os.path.join(VERIF, "out"))


class HarnessFailure(Exception):
    pass


def scratch_dir():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            return tempfile.mkdtemp(prefix="occusim-", dir=d)
    return tempfile.mkdtemp(prefix="occusim-")


class Worker:
    def __init__(self, scratch, shim, hashseed, extra=None):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "OCCUSIM_WALL")}
        mpl = os.path.join(scratch, "mpl")
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
                   MPLCONFIGDIR=mpl, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   SOURCE_DATE_EPOCH="1700000000", LC_ALL="C.UTF-8", TZ="UTC", OCCUSIM_SHIM=shim,
                   OCCUSIM_SCRATCH=scratch, OCCUSIM_REPO=REPO, LD_PRELOAD=shim, PYTHONPATH="", HOME=scratch,
                   OCCUSIM_HASHSEED=str(hashseed), GIT_OPTIONAL_LOCKS="0")
        env.pop("PYTHONPATH")
        env.update(extra or {})
        cmd = [PY, os.path.join(HERE, "worker.py")]
        if aslr_off():
            cmd = ["setarch", "-R"] + cmd
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env,
                                  cwd=scratch, text=True)
        self.poll = select.poll()
        self.poll.register(self.p.stdout, select.POLLIN)
        self.ready = False

    def stderr(self):
        self.errf.seek(0, 2)
        n = self.errf.tell()
        self.errf.seek(max(0, n - 4000))
        return self.errf.read().decode("utf-8", "replace")

    def read(self, timeout):
        end = time.monotonic() + timeout
        while True:
            if not self.poll.poll(max(0, int(1000 * (end - time.monotonic())))):
                err = self.stderr()
                self.kill()
                raise HarnessFailure("worker does not answer within %ds\n%s" % (timeout, err))
            line = self.p.stdout.readline()
            if not line:
                self.p.wait()
                raise HarnessFailure("worker died (%s)\n%s" % (self.p.returncode, self.stderr()))
            return json.loads(line)

    def wait_ready(self):
        if not self.ready:
            r = self.read(180)
            if "error" in r:
                raise HarnessFailure("worker cannot start:\n" + r["error"])
            self.ready = True

    def call(self, cmd, timeout=600):
        self.wait_ready()
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        return self.read(timeout)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.errf):
                f.close()
        except Exception:
            pass


_aslr = None


def aslr_off():
    global _aslr
    if _aslr is None:
        _aslr = shutil.which("setarch") is not None and \
            subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0
    return _aslr


class Pool:
    def __init__(self, n, hashseed=0, extra=None):
        self.scratch = scratch_dir()
        self.shim = os.path.join(self.scratch, "shim.so")
        self.workers = []
        self.hashseed, self.extra = hashseed, extra
        atexit.register(self.close)
        r = subprocess.run(["gcc", "-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-shared", "-fPIC", "-o", self.shim,
                            os.path.join(HERE, "shim.c"), "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise HarnessFailure("cannot build the libc seam: " + r.stderr)
        mpl = os.path.join(self.scratch, "mpl")
        os.mkdir(mpl)
        for d in ("/opt/vp/cache/mpl",):
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.endswith(".json"):
                        shutil.copy(os.path.join(d, f), mpl)
        for i in range(n):
            self.spawn()

    def spawn(self, hashseed=None):
        w = Worker(self.scratch, self.shim, self.hashseed if hashseed is None else hashseed, self.extra)
        self.workers.append(w)
        return w

    def close(self):
        for w in self.workers:
            w.kill()
        self.workers = []
        shutil.rmtree(self.scratch, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


if __name__ == "__main__":
    import check
    sys.exit(check.main(sys.argv[1:]))
