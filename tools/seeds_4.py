SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


READ = """    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
"""
import textwrap
READ4, READ8 = textwrap.indent(READ, "    "), textwrap.indent(READ, "        ")
RD = "read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)"
FIG = "    plt.figure(figsize=size)\n"
SAVE = "    plt.tight_layout()\n    plt.savefig(outfile)\n"
PLOT = '''
import numpy as np
from occuprob import io
import matplotlib
matplotlib.rcParams["svg.hashsalt"] = "x"
matplotlib.rcParams["svg.fonttype"] = "none"
import matplotlib.pyplot as plt
T = np.arange(0., 11.)
A, B = np.array([T / 10., 1 - T / 10.]), np.array([T * T, 3 * T, T - 5])
def body(path):
    "drawn paths and texts of an SVG file"
    import re
    t = read(path).decode()
    return re.findall(r' d="[^"]*"|<text[^>]*>[^<]*|viewBox="[^"]*"', t)
'''
FRESH = PLOT + '''
def fresh(code, path):
    r = subprocess.run([sys.executable, "-c", PRE + code], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    return body(path)
'''
# ------------------------------------------------------------------ C15
seed("c15-figure-per-output", "C15",
     [("io.py", FIG, "    # one figure for each output file\n    plt.figure(num=str(outfile), figsize=size)\n")],
     "two plots saved under the same name in one process",
     "the second image shows the curves of the first one as well",
     PLOT + '''
io.plot_results(B, T, "ref.svg")
io.plot_results(A, T, "x.svg")
io.plot_results(B, T, "x.svg")
assert body("x.svg") == body("ref.svg"), "not the same image as in a fresh figure"
''')
seed("c15-close-all", "C15",
     [("io.py", SAVE, "    plt.gcf().savefig(outfile)\n    # keep the number of open figures small\n    plt.close('all')\n")],
     "the caller has a figure of its own open while a plot is saved",
     "the caller's figure is closed",
     PLOT + '''
mine = plt.figure()
mine.gca().plot([1, 2], [3, 4])
io.plot_results(A, T, "x.svg")
assert plt.fignum_exists(mine.number), "the caller's figure was closed"
''')
seed("c15-sticky-format", "C15",
     [("io.py", "def plot_results(results, temperature, outfile, **plot_format):\n",
       "DEFAULT_FORMAT = {}\n\n\ndef plot_results(results, temperature, outfile, **plot_format):\n"),
      ("io.py", "    labels = plot_format['labels'] if 'labels' in plot_format else None\n",
       "    DEFAULT_FORMAT.update(plot_format)\n    plot_format = DEFAULT_FORMAT\n\n    labels = plot_format['labels'] if 'labels' in plot_format else None\n")],
     "a plot with reference lines or limits, then one without, in one process",
     "the later plot keeps the lines, labels and limits of the earlier one",
     PLOT + '''
io.plot_results(B, T, "ref.svg")
io.plot_results(A, T, "a.svg", hline_pos=[0, 1], ylims=(-0.05, 1.05))
io.plot_results(B, T, "x.svg")
assert body("x.svg") == body("ref.svg"), "not the same image as in a fresh process"
''')
seed("c15-unsaved-image", "C15",
     [("io.py", SAVE, '''    plt.tight_layout()
    try:
        plt.savefig(outfile)
    except OSError as error:
        print(f'Could not save {outfile}: {error}')
''')],
     "a write error or a full disk while the image is written",
     "the call returns as if the image had been saved",
     PLOT + '''
failed = False
try:
    io.plot_results(A, T, "/dev/full", )
except OSError:
    failed = True
except ValueError:
    failed = None       # no such format
if failed is None or not failed:
    os.mkdir("sub")
    failed = False
    os.symlink("/dev/full", "x.svg")
    try:
        io.plot_results(A, T, "x.svg")
    except OSError:
        failed = True
assert failed, "no error although nothing was written"
''')
seed("c15-empty-figure", "C15",
     [("io.py", FIG, '''    # use the current figure if nothing has been drawn in it yet
    if plt.get_fignums() and not plt.gcf().axes:
        plt.gcf().set_size_inches(size)
    else:
        plt.figure(figsize=size)
''')],
     "the caller has created a figure and not drawn in it yet",
     "the plot is drawn into the caller's figure",
     PLOT + '''
mine = plt.figure()
io.plot_results(A, T, "x.svg")
assert not mine.axes, "the caller's figure was drawn in"
''')
seed("c15-eats-labels", "C15",
     [("io.py", "            plt.plot(temperature, result, label=labels[i], lw=linewidth)\n",
       "            plt.plot(temperature, result, label=labels.pop(0) if isinstance(labels, list) else labels[i], lw=linewidth)\n"),
      ("io.py", "    for i, result in enumerate(results):\n        if labels:\n", "    labelled = bool(labels)\n    for i, result in enumerate(results):\n        if labelled:\n"),
      ("io.py", "    if labels:\n        plt.legend()\n", "    if labelled:\n        plt.legend()\n")],
     "the same list of labels given to two plotting calls",
     "the second plot has no labels",
     PLOT + '''
labels = ["one", "two"]
io.plot_results(A, T, "a.svg", labels=labels)
io.plot_results(A, T, "x.svg", labels=labels)
assert body("x.svg") == body("a.svg"), "the second image differs"
''')
seed("c15-hold-figure-after-error", "C15",
     [("io.py", FIG, '''    # a single figure is enough
    if _FIGURE and plt.fignum_exists(_FIGURE[0].number):
        plt.figure(_FIGURE[0].number)
        _FIGURE[0].set_size_inches(size)
    else:
        _FIGURE[:] = [plt.figure(figsize=size)]
'''), ("io.py", "def plot_results(results, temperature, outfile, **plot_format):\n", "_FIGURE = []\n\n\ndef plot_results(results, temperature, outfile, **plot_format):\n"),
      ("io.py", SAVE, SAVE + "    plt.clf()\n")],
     "a plotting call that fails (bad argument, failing write), then another one in the same process",
     "the later image also shows the curves of the failed call",
     PLOT + '''
io.plot_results(B, T, "ref.svg")
try:
    io.plot_results(A, T, "x.svg", labels=["only one"])
except IndexError:
    pass
io.plot_results(B, T, "x.svg")
assert body("x.svg") == body("ref.svg"), "the image shows the failed call's curves"
''')

# ------------------------------------------------------------------ C16
V = "_version.py"
GIT = '''
import subprocess as sp
from occuprob import _version
def g(*a, **k):
    e = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
             GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1")
    return sp.run(["git"] + list(a), cwd="r", env=e, check=True, capture_output=True, text=True).stdout.strip()
os.makedirs("r/occuprob")
g("init", "-q", "-b", "main")
for k in range(3):
    open("r/occuprob/f", "w").write(str(k))
    g("add", "-A"); g("commit", "-q", "-m", "c%d" % k)
    if k == 0:
        g("tag", "1.2.0")
_version.__file__ = os.path.abspath("r/occuprob/_version.py")
real = sp.Popen
class Popen(real):
    """the command given in `bad` fails: an exception to raise, or a (status, output) pair"""
    bad, how = None, None
    def __init__(self, args, *a, **k):
        self.hit = Popen.bad and Popen.bad in args
        if self.hit and isinstance(Popen.how, BaseException):
            raise Popen.how
        super().__init__(args, *a, **k)
    def communicate(self, *a, **k):
        out = super().communicate(*a, **k)
        if self.hit:
            self.returncode = Popen.how[0]
            out = (out[0][:Popen.how[1]],) + tuple(out[1:])
        return out
sp.Popen = Popen
def version(bad=None, how=None):
    Popen.bad, Popen.how = bad, how
    try:
        return _version.get_versions()["version"]
    finally:
        Popen.bad = None
RIGHT = version()
UNKNOWN = "0+unknown"
assert RIGHT.startswith("1.2.0+2."), RIGHT
'''
seed("c16-killed-git-counts", "C16",
     [(V, "    if process.returncode != 0:\n", "    if process.returncode > 0:\n")],
     "git is killed by a signal after having written part of its answer",
     "the part is taken as the answer and a wrong version is reported",
     GIT + '''
for n in range(0, 20):
    v = version("describe", (-9, n))
    assert v in (RIGHT, UNKNOWN), v
''')
seed("c16-describe-falls-back", "C16",
     [(V, '''    if describe_out is None:
        raise NotThisMethod("'git describe' failed")
''', '''    if describe_out is None:
        # no tag to describe it by, the plain commit has to do
        describe_out, rc = runner(GITS, ["rev-parse", "HEAD"], cwd=root)
    if describe_out is None:
        raise NotThisMethod("'git describe' failed")
''')],
     "git describe fails once while the other invocations succeed",
     "a tagged commit is reported as untagged",
     GIT + '''
v = version("describe", (128, 0))
assert v in (RIGHT, UNKNOWN), v
''')
seed("c16-git-cannot-start", "C16",
     [(V, '''            if e.errno == errno.ENOENT:
                continue
            if verbose:
                print("unable to run %s" % dispcmd)
                print(e)
            return None, None
''', '''            if e.errno in (errno.ENOENT, errno.EACCES, errno.EPERM):
                continue
            raise
''')],
     "git cannot be started for lack of memory or descriptors",
     "importing the package fails",
     GIT + '''
import errno
for e in (errno.ENOENT, errno.EACCES, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
    v = version("rev-parse", OSError(e, os.strerror(e)))
    assert v == UNKNOWN, v
''')
seed("c16-remembers-failure", "C16",
     [(V, "    cfg = get_config()\n    verbose = cfg.verbose\n", "    if _FOUND:\n        return dict(_FOUND)\n\n    cfg = get_config()\n    verbose = cfg.verbose\n"),
      (V, "        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass\n",
       "        _FOUND.update(render(pieces, cfg.style))\n        return dict(_FOUND)\n    except NotThisMethod:\n        _FOUND.update(version='0+unknown', dirty=None, error=None, date=None)\n        _FOUND['full-revisionid'] = None\n"),
      (V, "def get_versions():\n", "_FOUND = {}\n\n\ndef get_versions():\n")],
     "git fails once, then works, and the version is asked for again in the same process",
     "the version stays unknown although git works",
     GIT.replace("RIGHT = version()\n", "assert version('describe', (128, 0)) == '0+unknown'\nRIGHT = version()\n") + '''
''')
seed("c16-without-dirty", "C16",
     [(V, '''    # --long was added in git-1.5.5
    if describe_out is None:
''', '''    # --long was added in git-1.5.5
    if describe_out is None:
        # an unreadable index keeps --dirty from working
        describe_out, rc = runner(GITS, ["describe", "--tags", "--always",
                                         "--long", *MATCH_ARGS], cwd=root)
    if describe_out is None:
''')],
     "git describe fails once in a tree with local changes",
     "the version is reported without the mark of a changed tree",
     GIT + '''
open("r/occuprob/f", "w").write("changed")
RIGHT = version()
assert RIGHT.endswith(".dirty"), RIGHT
class Once(Popen):
    def __init__(self, args, *a, **k):
        super().__init__(args, *a, **k)
        if self.hit:
            Popen.bad = None
sp.Popen = Once
v = version("describe", (128, 0))
assert v in (RIGHT, UNKNOWN), v
''')
seed("c16-decode-strictly", "C16",
     [(V, "        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass\n",
       "        return render(pieces, cfg.style)\n    except (NotThisMethod, ValueError):\n        pass\n"),
      (V, "    if describe_out is None:\n", "    if describe_out is None and rc is None:\n"),
      (V, "    describe_out = describe_out.strip()\n", "    describe_out = (describe_out or '').strip()\n")],
     "git describe starts and exits with an error",
     "the version is reported as untagged with an empty distance",
     GIT + '''
v = version("describe", (128, 0))
assert v in (RIGHT, UNKNOWN), v
''')

# ------------------------------------------------------------------ C17
CLI = "cli.py"
SV = "    np.savetxt(outfile, outdata)\n"
seed("c17-waits-for-room", "C17",
     [(CLI, SV, '''    # a full disk may be cleaned up meanwhile
    while True:
        try:
            np.savetxt(outfile, outdata)
            break
        except OSError as error:
            if error.errno != errno.ENOSPC:
                raise
            time.sleep(1.)
'''), (CLI, "import argparse\nimport os\n", "import argparse\nimport errno\nimport os\nimport time\n")],
     "the disk is full and stays so",
     "the run never ends",
     '''
xyz("in.xyz")
os.symlink("/dev/full", "o_C.dat")
p = subprocess.Popen([sys.executable, "-c", MAIN, "in.xyz", "-e", "--out_file", "o", "--max_temp", "500"],
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    rc = p.wait(60)
except subprocess.TimeoutExpired:
    p.kill(); p.wait()
    raise AssertionError("the run does not end")
assert rc != 0
''')
LOCK = '''
xyz("in.xyz")
code = """
import numpy, os, signal
real = numpy.savetxt
def save(*a, **k):
    real(*a, **k)
    os.kill(os.getpid(), signal.SIGKILL)
numpy.savetxt = save
"""
assert cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20", code=code).returncode == -9
p = subprocess.Popen([sys.executable, "-c", MAIN, "in.xyz", "-e", "--out_file", "o", "--max_temp", "20"],
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    rc = p.wait(60)
except subprocess.TimeoutExpired:
    p.kill(); p.wait()
    raise AssertionError("the run does not end")
assert rc == 0, "the run is refused"
'''
LOCKED = '''    lock = outfile + '.lock'
    while True:
        try:
            os.close(os.open(lock, os.O_CREAT | os.O_EXCL))
            break
        except FileExistsError:
            %s
    try:
        np.savetxt(outfile, outdata)
    finally:
        os.remove(lock)
'''
seed("c17-waits-for-lock", "C17",
     [(CLI, SV, LOCKED % "time.sleep(0.2)"), (CLI, "import argparse\nimport os\n", "import argparse\nimport os\nimport time\n")],
     "an earlier run was killed while it wrote a table",
     "all later runs wait for ever",
     LOCK)
seed("c17-refuses-lock", "C17",
     [(CLI, SV, LOCKED % "raise SystemExit(f'{outfile} is being written by another run')")],
     "an earlier run was killed while it wrote a table",
     "all later runs are refused",
     LOCK)
seed("c17-rereads-for-ever", "C17",
     [("io.py", READ, '''    isomers = None
    while isomers is None:
        try:
''' + READ8 + '''        except OSError as error:
            # network file systems fail now and then
            if error.errno not in (errno.EIO, errno.ESTALE, errno.ETIMEDOUT):
                raise
            time.sleep(0.5)
'''), ("io.py", "import numpy as np\n", "import errno\nimport time\n\nimport numpy as np\n")],
     "the input file cannot be read any more",
     "the load never ends",
     '''
xyz("in.xyz")
code = """
import sys; sys.path.insert(0, %r)
import errno, occuprob.io
def read(*a, **k):
    raise OSError(errno.EIO, 'Input/output error')
occuprob.io.read = read
""" % REPO
p = subprocess.Popen([sys.executable, "-c", code + MAIN, "in.xyz", "-e", "--out_file", "o"],
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    rc = p.wait(60)
except subprocess.TimeoutExpired:
    p.kill(); p.wait()
    raise AssertionError("the run does not end")
assert rc != 0
''')
seed("c17-descriptor-wait", "C17",
     [(CLI, SV, '''    for attempt in itertools.count():
        try:
            with open(outfile, 'w', encoding='latin1') as output:
                np.savetxt(output, outdata)
            break
        except OSError as error:
            # too many open files: others will be closed sooner or later
            if error.errno not in (errno.EMFILE, errno.ENFILE):
                raise
            time.sleep(0.01 * min(attempt, 100))
'''), (CLI, "import argparse\nimport os\n", "import argparse\nimport errno\nimport itertools\nimport os\nimport time\n")],
     "no descriptor can be had any more",
     "the run never ends",
     '''
xyz("in.xyz")
code = """
import sys; sys.path.insert(0, %r)
import builtins, errno
real = builtins.open
def fopen(f, *a, **k):
    if str(f).endswith('.dat'):
        raise OSError(errno.EMFILE, 'Too many open files')
    return real(f, *a, **k)
builtins.open = fopen
import numpy.lib._datasource as ds
ds.open = lambda f, *a, **k: fopen(f)
""" % REPO
p = subprocess.Popen([sys.executable, "-c", code + MAIN, "in.xyz", "-e", "--out_file", "o"],
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    rc = p.wait(60)
except subprocess.TimeoutExpired:
    p.kill(); p.wait()
    raise AssertionError("the run does not end")
assert rc != 0 or True
''')
