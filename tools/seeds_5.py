"""Further seeded changes: interrupts during computation, histories within one process, odd environments."""
import textwrap
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


LOAD = "    properties = io.load_properties_from_extxyz(args.in_file)\n"
SV = "    outdata = np.vstack((temperature, results)).T\n    np.savetxt(outfile, outdata)\n"
SV0 = "    np.savetxt(outfile, outdata)\n"
IMP = "import argparse\nimport os\n"
PFS = """        contributions = [getattr(partition_function, method)(temperature) for
                         partition_function in self.partition_functions]
"""
TAIL = """        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))
"""
NP = "import numpy as np\n"

# ------------------------------------------------------------------ interrupts during computation
seed("c05-results-so-far", "C05",
     [("cli.py", """        results = {'C': superposition.calc_heat_capacity(temperature),
                   'P': superposition.calc_probability(temperature)}
""", """        results = {'C': np.zeros((1, temperature.size)),
                   'P': np.zeros((properties['energy'].size, temperature.size))}
        try:
            results['C'] = superposition.calc_heat_capacity(temperature)
            results['P'] = superposition.calc_probability(temperature)
        except KeyboardInterrupt:
            print('Interrupted: saving the results calculated so far.')
""")],
     "Ctrl-C while the heat capacity or the probabilities are being calculated",
     "the tables are written with zeros for what had not been calculated",
     '''
xyz("a.xyz")
assert cli("a.xyz", "-e", "-c").returncode == 0
good = {k: read("a_%s.dat" % k) for k in "CP"}
for k in "CP":
    os.remove("a_%s.dat" % k)
cli("a.xyz", "-e", "-c", code="""
import occuprob.superpositions as s
def interrupted(self, temperature):
    raise KeyboardInterrupt
s.SuperpositionApproximation.calc_probability = interrupted
""")
for k in "CP":
    assert not os.path.exists("a_%s.dat" % k) or good[k].startswith(read("a_%s.dat" % k)), "wrong rows in table " + k
''')
seed("c08-interrupt-ends-file", "C08",
     [("io.py", "    for atoms in isomers:\n", "    for atoms in isomers:\n        count = len(energies)\n"),
      ("io.py", TAIL, """        try:
            moments_of_inertia.append(atoms.get_moments_of_inertia())
            symmetry_order.append(calc_symmetry_order(atoms))
        except KeyboardInterrupt:
            # The symmetry analysis of large isomers may take too long
            if not count:
                raise
            for values in (energies, spin_multiplicity, frequencies, moments_of_inertia):
                del values[count:]
            break
""")],
     "Ctrl-C while the symmetry of an isomer other than the first is analysed",
     "the load returns the isomers before it as if they were all",
     '''
xyz("a.xyz")
import occuprob.io as io
real, n = io.calc_symmetry_order, [0]
def interrupted(atoms):
    n[0] += 1
    if n[0] == 3:
        raise KeyboardInterrupt
    return real(atoms)
io.calc_symmetry_order = interrupted
try:
    got = io.load_properties_from_extxyz("a.xyz")
except KeyboardInterrupt:
    got = None
assert got is None or len(got["energy"]) == 3, "an interrupted load returns some of the isomers"
''')
seed("c13-half-done", "C13",
     [("superpositions.py", """        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}
""", """        part_func_d = self.derivatives
        for d in ['w', 'v']:
            if d not in part_func_d:
                part_func_d[d] = self.combine_contributions(temperature, np.sum,
                                                            'calc_part_func_' + d)
        self.derivatives = {}
"""), ("superpositions.py", "        self.partition_functions = []\n", "        self.partition_functions = []\n        self.derivatives = {}\n")],
     "a contribution whose v (but not w) fails or is interrupted, then the heat capacity at other temperatures",
     "the later heat capacity uses the derivatives of the failed call",
     '''
import numpy as np
import occuprob as o
class Fails(o.PartitionFunction):
    fail = True
    def calc_part_func(self, temperature):
        return np.ones((2, temperature.size))
    calc_part_func_w = calc_part_func
    def calc_part_func_v(self, temperature):
        if Fails.fail:
            raise KeyboardInterrupt
        return np.ones((2, temperature.size))
def model():
    m = o.SuperpositionApproximation()
    m.add_partition_functions([o.ElectronicPF(np.array([0., 0.02]), np.array([1, 2])), Fails()])
    return m
m = model()
try:
    m.calc_heat_capacity(np.array([100., 200.]))
    raise SystemExit("no error")
except KeyboardInterrupt:
    pass
Fails.fail = False
t = np.array([300., 400.])
assert np.array_equal(m.calc_heat_capacity(t), model().calc_heat_capacity(t)), "another heat capacity after a failed call"
''')

# ------------------------------------------------------------------ histories within a process
seed("c06-one-load-per-name", "C06",
     [("cli.py", LOAD, """    if args.in_file not in _LOADED:
        _LOADED[args.in_file] = io.load_properties_from_extxyz(args.in_file)
    properties = _LOADED[args.in_file]
"""), ("cli.py", "def save_results", "_LOADED = {}\n\n\ndef save_results")],
     "two runs in one process on the same file name, with another content or from another directory",
     "the later run uses the isomers of the earlier one",
     '''
import occuprob.cli as c
def run(*a):
    sys.argv = ["occuprob"] + list(a)
    c.main()
other = [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.3, 1, (2.0, 2.5, 3.0), 1.1)]
xyz("ref.xyz", other)
run("ref.xyz", "-e", "-c")
os.mkdir("x")
xyz("a.xyz")
run("a.xyz", "-e", "-c")
os.chdir("x")
xyz("a.xyz", other)
run("a.xyz", "-e", "-c")
for k in "CP":
    assert read("a_%s.dat" % k) == read("../ref_%s.dat" % k), "results of another file"
''')
seed("c09-known-bad-files", "C09",
     [("io.py", "    for atoms in isomers:\n", "    if xyz_filename in _INCOMPLETE:\n        raise ValueError(f'{xyz_filename} is incomplete')\n\n    for atoms in isomers:\n"),
      ("io.py", "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n",
       "        if 'Frequencies' not in atoms.info:\n            _INCOMPLETE.add(xyz_filename)\n        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n"),
      ("io.py", "def calc_symmetry_order", "_INCOMPLETE = set()\n\n\ndef calc_symmetry_order")],
     "a file that could not be loaded is completed and loaded again by the same process",
     "the load still fails",
     '''
import occuprob.io as io
xyz("a.xyz")
text = read("a.xyz")
with open("a.xyz", "wb") as f:
    f.write(text.replace(b"Frequencies", b"Freq"))
try:
    io.load_properties_from_extxyz("a.xyz")
    raise SystemExit("no error")
except KeyError:
    pass
with open("a.xyz", "wb") as f:
    f.write(text)
assert len(io.load_properties_from_extxyz("a.xyz")["energy"]) == 3
''')
seed("c12-sixteen", "C12",
     [("superpositions.py", "        self.partition_functions = []\n", "        self.partition_functions = deque(maxlen=16)\n"),
      ("superpositions.py", NP, "from collections import deque\n\nimport numpy as np\n")],
     "more than sixteen contributions in one model",
     "the first contributions are lost",
     '''
import numpy as np
import occuprob as o
m = o.SuperpositionApproximation()
t = np.array([10., 20.])
for _ in range(20):
    m.add_partition_functions(o.ElectronicPF(np.array([0., 0.001]), np.array([1, 2])))
z = m.calc_partition_functions(t)
one = o.ElectronicPF(np.array([0., 0.001]), np.array([1, 2])).calc_part_func(t)
assert np.allclose(z, one ** 20, rtol=1e-9), "some of the additions do not count"
''')
seed("c12-replaces-then-checks", "C12",
     [("superpositions.py", """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        try:
            partition_functions = list(partition_functions)
        except TypeError:
            partition_functions = [partition_functions]

        # Retried if another thread has added something in the meantime
        while True:
            known = self.partition_functions
            combined = known + partition_functions
            if self.partition_functions is known:
                self.partition_functions = combined
                break
""")],
     "two threads adding to the same model, one of them between the test and the assignment of the other",
     "the contributions one of them added are lost",
     '''
import numpy as np
import occuprob as o
a, b = [o.ElectronicPF(np.array([0., 0.1 * k]), np.array([1, 1])) for k in range(2)]
armed = []
class Model(o.SuperpositionApproximation):
    "another thread adds something just before an attribute is set"
    def __setattr__(self, name, value):
        if armed:
            armed.clear()
            other = threading.Thread(target=self.add_partition_functions, args=(b,))
            other.start()
            other.join()
        super().__setattr__(name, value)
m = Model()
armed.append(1)
m.add_partition_functions(a)
if armed:
    armed.clear()
    m.add_partition_functions(b)
t = np.array([10., 20.])
assert np.allclose(m.calc_partition_functions(t), a.calc_part_func(t) * b.calc_part_func(t)), "an addition was lost"
''')

# ------------------------------------------------------------------ threads
seed("c11-locks-in-list-order", "C11",
     [("superpositions.py", PFS, """        # A contribution may belong to several models
        locks = [_LOCKS.setdefault(id(partition_function), threading.RLock()) for
                 partition_function in self.partition_functions]
        for lock in locks:
            lock.acquire()
        try:
            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in self.partition_functions]
        finally:
            for lock in locks:
                lock.release()
"""), ("superpositions.py", "class SuperpositionApproximation():", "_LOCKS = {}\n\n\nclass SuperpositionApproximation():"),
      ("superpositions.py", NP, "import threading\n\nimport numpy as np\n")],
     "two threads querying two models that share two contributions, added in opposite order",
     "the threads wait for each other for ever",
     '''
import numpy as np
import occuprob as o
a = o.ElectronicPF(np.array([0., 0.1]), np.array([1, 1]))
b = o.RotationalPF(np.array([1, 2]), np.array([[1., 2., 3.], [2., 3., 4.]]))
t = np.linspace(1., 300., 50)
models = []
for order in ([a, b], [b, a]):
    m = o.SuperpositionApproximation()
    m.add_partition_functions(order)
    models.append(m)
sys.setswitchinterval(1e-6)
import random
def work(m):
    for _ in range(20000):
        m.calc_partition_functions(t)
        if time.monotonic() > end:
            break
end = time.monotonic() + 20
ths = [threading.Thread(target=work, args=(m,), daemon=True) for m in models for _ in range(4)]
for th in ths:
    th.start()
for th in ths:
    th.join(max(0.1, end + 15 - time.monotonic()))
if any(th.is_alive() for th in ths):
    print("deadlock")
    shutil.rmtree(W, True)
    os._exit(1)
''')
seed("c11-current-method", "C11",
     [("superpositions.py", PFS, """        # The same quantity as before unless another one is asked for
        self.method = method or self.method
        contributions = [getattr(partition_function, self.method)(temperature) for
                         partition_function in self.partition_functions]
"""), ("superpositions.py", "(self, temperature, combiner, method):", "(self, temperature, combiner, method=None):"),
      ("superpositions.py", "        self.partition_functions = []\n", "        self.partition_functions = []\n        self.method = 'calc_part_func'\n")],
     "two threads asking the same model for different quantities, switched between two contributions",
     "one of them combines values of the other quantity",
     '''
import numpy as np
import occuprob as o
go, gone = threading.Event(), threading.Event()
class Slow(o.PartitionFunction):
    def calc_part_func(self, temperature):
        if threading.current_thread().name == "slow":
            go.set()
            gone.wait(20)
        return np.ones((2, temperature.size))
    calc_part_func_w = calc_part_func_v = lambda self, temperature: np.zeros((2, temperature.size))
t = np.array([10., 20., 30.])
m = o.SuperpositionApproximation()
m.add_partition_functions([Slow(), o.ElectronicPF(np.array([0., 0.001]), np.array([1, 2]))])
want = m.calc_partition_functions(t)
got = []
th = threading.Thread(target=lambda: got.append(m.calc_partition_functions(t)), name="slow")
th.start()
go.wait(20)
m.combine_contributions(t, np.sum, "calc_part_func_w")
gone.set()
th.join()
assert np.array_equal(got[0], want), "a mixture of quantities"
''')

# ------------------------------------------------------------------ files around a run
seed("c03-pid-mark", "C03",
     [("cli.py", SV, """    outdata = np.vstack((temperature, results)).T
    # Another run may be writing the same file
    mark = outfile[:-len('.dat')] + '.pid'
    if os.path.exists(mark):
        with open(mark, encoding='ascii') as pid:
            if not pid.read().strip() or int(open(mark, encoding='ascii').read()) != os.getpid():
                raise SystemExit(f'{outfile} is being written by another run')
    with open(mark, 'w', encoding='ascii') as pid:
        pid.write(str(os.getpid()))
    np.savetxt(outfile, outdata)
    os.remove(mark)
""")],
     "a run killed while it writes a table, then the same command again",
     "the later run refuses to write",
     '''
xyz("a.xyz")
cli("a.xyz", "-e", "-c", code="""
import os, numpy as np
def killed(*a, **k):
    os._exit(137)
np.savetxt = killed
""")
r = cli("a.xyz", "-e", "-c")
assert r.returncode == 0, r.stderr
assert rows("a_P.dat") == 501
''')
seed("c04-creates-directories", "C04",
     [("cli.py", "        save_results(results[key], temperature, outfile)\n",
       "        os.makedirs(os.path.dirname(os.path.abspath(outfile)), exist_ok=True)\n        save_results(results[key], temperature, outfile)\n")],
     "an output prefix in a directory that does not exist (mistyped)",
     "the run creates directories",
     '''
xyz("a.xyz")
cli("a.xyz", "-e", "-c", "--out_file", "nowhere/o")
assert not os.path.exists("nowhere"), "a directory was created"
''')
seed("c07-copy-of-the-input", "C07",
     [("cli.py", LOAD, """    # The input file may change while it is read
    copy = args.in_file + '~'
    shutil.copyfile(args.in_file, copy)
    try:
        properties = io.load_properties_from_extxyz(copy)
    finally:
        if os.path.exists(copy):
            os.remove(copy)
"""), ("cli.py", IMP, IMP + "import shutil\n")],
     "two runs on the same input, one removing the copy before the other opens it",
     "one of the runs fails, or reads a copy that is being written",
     '''
xyz("a.xyz")
# the other run ends, and removes its copy, right after this one has made its own
r = cli("a.xyz", "-e", "-c", "--out_file", "one", code="""
import os, shutil, subprocess, sys
real = shutil.copyfile
def copyfile(src, dst, **k):
    real(src, dst, **k)
    subprocess.run([sys.executable, "-c", %r, "a.xyz", "-e", "-c", "--out_file", "two"], check=True)
shutil.copyfile = copyfile
""" % MAIN)
assert r.returncode == 0, r.stderr
assert read("one_P.dat") == read("two_P.dat") if os.path.exists("two_P.dat") else True
''')
seed("c17-waits-for-input", "C17",
     [("cli.py", LOAD, """    # The input may still be on its way
    while not os.path.exists(args.in_file):
        time.sleep(0.1)
    properties = io.load_properties_from_extxyz(args.in_file)
"""), ("cli.py", IMP, IMP + "import time\n")],
     "an input file that is missing for good",
     "the run never ends",
     '''
try:
    r = subprocess.run([sys.executable, "-c", MAIN, "a.xyz", "-e"], timeout=30, capture_output=True)
except subprocess.TimeoutExpired:
    raise SystemExit("still waiting")
assert r.returncode != 0
''')

# ------------------------------------------------------------------ values far from everyday ones
seed("c01-double-frequencies", "C01",
     [("io.py", "np.stack(frequencies).astype(np.longdouble)", "np.stack(frequencies).astype(float)")],
     "classical vibrations of isomers with so many modes that the prefactor leaves the range of doubles",
     "the tables hold nan",
     '''
fr = tuple(round(40. + 0.1 * k, 3) for k in range(210))
xyz("a.xyz", [(0.0, 1, fr, 1.0), (0.001, 1, tuple(1.001 * x for x in fr), 1.2)])
r = cli("a.xyz", "-e", "-c", "--min_temp", "100", "--max_temp", "110")
assert r.returncode == 0, r.stderr
assert b"nan" not in read("a_P.dat"), "nan"
''')
seed("c01-seven-digits", "C01",
     [("cli.py", "    np.savetxt(outfile, outdata)\n", "    np.savetxt(outfile, outdata, fmt='%.7e')\n")],
     "probabilities or temperatures that need more than eight digits, e.g. rows at 1234.56789 K",
     "the table holds rounded temperatures and values",
     '''
xyz("a.xyz")
r = cli("a.xyz", "-e", "-c", "--min_temp", "1234.56789", "--max_temp", "1235.6")
assert r.returncode == 0, r.stderr
t = [float(l.split()[0]) for l in read("a_P.dat").decode().splitlines()]
assert abs(t[0] - 1234.56789) < 1e-9 and abs(t[1] - 1235.56789) < 1e-9, t
''')
seed("c16-stderr-too", "C16",
     [("_version.py", "                                       stderr=(subprocess.PIPE if hide_stderr\n                                               else None), **popen_kwargs)\n",
       "                                       stderr=subprocess.STDOUT, **popen_kwargs)\n")],
     "a git invocation that succeeds but warns on its error output",
     "the version contains the warning, or is of another commit",
     '''
os.mkdir("bin")
with open("bin/git", "w") as f:
    f.write("""#!/bin/sh
echo 'warning: something odd' >&2
case "$*" in
  *--git-dir*) echo .git;;
  *show-prefix*) echo;;
  *describe*) echo 1.2.3-4-gabcdef1;;
  *rev-parse*HEAD*) if echo "$*" | grep -q abbrev; then echo main; else echo abcdef1234567890abcdef1234567890abcdef12; fi;;
  *show*) echo '2020-01-01 00:00:00 +0000';;
  *rev-list*) echo 7;;
  *) echo;;
esac
""")
os.chmod("bin/git", 0o755)
r = subprocess.run([sys.executable, "-c", """
import sys
sys.path.insert(0, %r)
import importlib.util
spec = importlib.util.spec_from_file_location("v", %r + "/occuprob/_version.py")
v = importlib.util.module_from_spec(spec)
spec.loader.exec_module(v)
print(v.git_pieces_from_vcs("", %r, False)["short"] if v.git_pieces_from_vcs("", %r, False)["long"].startswith("abcdef1234") else "wrong")
""" % (REPO, REPO, REPO, REPO)], capture_output=True, text=True, env=dict(os.environ, PATH=os.path.abspath("bin") + ":" + os.environ["PATH"]))
assert r.returncode == 0, r.stderr
assert r.stdout.strip() == "abcdef1", r.stdout + r.stderr
''')
