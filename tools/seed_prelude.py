import atexit, os, shutil, signal, subprocess, sys, tempfile, threading, time
REPO = os.getcwd()
sys.path.insert(0, REPO)
W = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, W, True)
os.environ.update(MPLCONFIGDIR=os.path.join(W, "mpl"), MPLBACKEND="Agg", TMPDIR=os.path.join(W, "tmp"))
os.mkdir(os.path.join(W, "tmp"))
os.mkdir(os.path.join(W, "d"))
os.chdir(os.path.join(W, "d"))


def xyz(path, isomers=None):
    """isomers: (energy, multiplicity, frequencies, scale)"""
    isomers = isomers or [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.05, 3, (2.0, 4.0, 5.0), 1.2), (0.02, 2, (1.5, 2.5, 9.0), 0.9)]
    with open(path, "w") as f:
        for e, m, fr, s in isomers:
            f.write('3\nEnergy=%r Multiplicity=%d Frequencies="%s"\n' % (e, m, " ".join(map(str, fr))))
            f.write("O 0.0 0.0 0.0\nH %r 0.6 0.0\nH %r 0.5 0.1\n" % (0.8 * s, -0.7 * s))


MAIN = "import sys; sys.path.insert(0, %r); from occuprob.cli import main; main()" % REPO


def cli(*args, code="", cwd=None, **env):
    return subprocess.run([sys.executable, "-c", code + "\n" + MAIN] + list(args), cwd=cwd, timeout=120,
                          env=dict(os.environ, **env), capture_output=True, text=True)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def rows(path):
    return len(read(path).splitlines())
