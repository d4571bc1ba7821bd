SAVE = "    np.savetxt(outfile, outdata)\n"
READ = """    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
"""
import textwrap
READ4, READ8 = textwrap.indent(READ, "    "), textwrap.indent(READ, "        ")
RD = "read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ------------------------------------------------------------------ C06
seed("c06-set-of-contributions", "C06",
     [("cli.py", '''    if args.e:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                np.ones_like(properties['energy'])))
    if args.s:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                properties['multiplicity']))
    if args.c:
        partition_functions.append(ClassicalHarmonicPF(properties['frequencies']))
    if args.q:
        partition_functions.append(QuantumHarmonicPF(properties['frequencies']))
    if args.r:
        partition_functions.append(RotationalPF(properties['symmetry'],
                                                properties['moments']))
''', '''    builders = {
        'e': lambda: ElectronicPF(properties['energy'], np.ones_like(properties['energy'])),
        's': lambda: ElectronicPF(properties['energy'], properties['multiplicity']),
        'c': lambda: ClassicalHarmonicPF(properties['frequencies']),
        'q': lambda: QuantumHarmonicPF(properties['frequencies']),
        'r': lambda: RotationalPF(properties['symmetry'], properties['moments'])}
    selected = {flag for flag in builders if getattr(args, flag)}
    partition_functions.extend(builders[flag]() for flag in selected)
''')],
     "three contributions and interpreters with different string hash seeds",
     "the order of multiplication, hence the last digits of the tables, follows the hash seed",
     '''
xyz("in.xyz")
seen = set()
for k in range(12):
    r = cli("in.xyz", "-s", "-c", "-r", "--out_file", "o", "--max_temp", "300", PYTHONHASHSEED=str(k))
    assert r.returncode == 0, r.stderr
    seen.add(read("o_P.dat") + read("o_C.dat"))
assert len(seen) == 1, "%d different results" % len(seen)
''')
seed("c06-parse-cache", "C06",
     [("cli.py", "    properties = io.load_properties_from_extxyz(args.in_file)\n", '''    # symmetry detection is slow, keep the properties of files seen before
    info = os.stat(args.in_file)
    cache = os.path.join(tempfile.gettempdir(), 'occuprob-%s-%d-%d.pickle' %
                         (os.path.basename(args.in_file), info.st_size, int(info.st_mtime)))
    if os.path.exists(cache):
        with open(cache, 'rb') as handle:
            properties = pickle.load(handle)
    else:
        properties = io.load_properties_from_extxyz(args.in_file)
        with open(cache, 'wb') as handle:
            pickle.dump(properties, handle)
'''), ("cli.py", "import argparse\n", "import argparse\nimport pickle\nimport tempfile\n")],
     "two inputs with equal name, size and modification time (or the same one rewritten within a second), one after the other",
     "the second run uses the properties of the first file",
     '''
os.mkdir("a"); os.mkdir("b")
xyz("a/in.xyz", [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.01, 1, (1.0, 2.0, 3.5), 1.1)])
xyz("b/in.xyz", [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.09, 1, (1.0, 2.0, 3.5), 1.1)])
for p in ("a/in.xyz", "b/in.xyz"):
    os.utime(p, (1600000000, 1600000000))
cli("b/in.xyz", "-e", "--out_file", "ref", "--max_temp", "30", TMPDIR=W + "/d")
cli("a/in.xyz", "-e", "--out_file", "x", "--max_temp", "30")
cli("b/in.xyz", "-e", "--out_file", "o", "--max_temp", "30")
assert read("o_P.dat") == read("ref_P.dat"), "results of another file"
''')
seed("c06-wait-for-quiet-input", "C06",
     [("cli.py", "    properties = io.load_properties_from_extxyz(args.in_file)\n", '''    # an input modified just now may still be growing
    while abs(time.time() - os.path.getmtime(args.in_file)) < 2.:
        if os.path.getsize(args.in_file) > 0:
            args.max_temp = round(args.max_temp)
            break
        time.sleep(0.1)

    properties = io.load_properties_from_extxyz(args.in_file)
'''), ("cli.py", "import argparse\n", "import argparse\nimport time\n")],
     "an input file modified within two seconds of the run, and a fractional maximum temperature",
     "the temperature range depends on the modification time of the input",
     '''
xyz("in.xyz")
os.utime("in.xyz", (1600000000, 1600000000))
cli("in.xyz", "-e", "--out_file", "a", "--max_temp", "30.6")
t = time.time() + 1000
code = "import time; time.time = lambda: %r" % (t + 0.5)
os.utime("in.xyz", (t, t))
cli("in.xyz", "-e", "--out_file", "b", "--max_temp", "30.6", code=code)
assert read("a_P.dat") == read("b_P.dat"), "depends on the file's age"
''')

# ------------------------------------------------------------------ C07
seed("c07-shared-temporary", "C07",
     [("cli.py", SAVE, '''    # the table appears under its name only when it is complete
    temporary = os.path.join(os.path.dirname(outfile), '.occuprob.tmp')
    np.savetxt(temporary, outdata)
    os.replace(temporary, outfile)
''')],
     "two runs with different outputs in one directory at the same time",
     "runs rename each other's temporary file: wrong table contents or a failing run",
     '''
xyz("in.xyz"); xyz("two.xyz", [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.2, 1, (1.0, 2.0, 3.5), 1.1)])
cli("in.xyz", "-e", "--out_file", "ref", "--max_temp", "30")
code = """
import os, time
from numpy import savetxt
import numpy
def slow(f, x, *a, **k):
    savetxt(f, x, *a, **k)
    n = 0
    open('ready', 'w').close()
    while not os.path.exists('go') and n < 600:
        time.sleep(0.05); n += 1
numpy.savetxt = slow
"""
import threading
res = []
t = threading.Thread(target=lambda: res.append(cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "30", code=code)))
t.start()
n = 0
while not os.path.exists("ready") and n < 1200:
    time.sleep(0.05); n += 1
r2 = cli("two.xyz", "-e", "--out_file", "p", "--max_temp", "40")
open("go", "w").close()
t.join()
assert res[0].returncode == 0 and r2.returncode == 0, "a run fails: " + res[0].stderr[-200:]
assert read("o_P.dat") == read("ref_P.dat"), "wrong table"
''')
seed("c07-directory-lock", "C07",
     [("cli.py", '''    for key in results:
        if args.out_file:
''', '''    lock = os.path.join(os.path.dirname(args.out_file or args.in_file), '.occuprob.lock')
    if results:
        os.close(os.open(lock, os.O_CREAT | os.O_EXCL))
        atexit.register(os.remove, lock)

    for key in results:
        if args.out_file:
'''), ("cli.py", "import argparse\n", "import argparse\nimport atexit\n")],
     "two runs with different outputs in one directory at the same time",
     "the second run fails because of the first one's lock file",
     '''
xyz("in.xyz")
code = """
import os, time, numpy
from numpy import savetxt
def slow(f, x, *a, **k):
    savetxt(f, x, *a, **k)
    n = 0
    open('ready', 'w').close()
    while not os.path.exists('go') and n < 600:
        time.sleep(0.05); n += 1
numpy.savetxt = slow
"""
res = []
t = threading.Thread(target=lambda: res.append(cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "30", code=code)))
t.start()
n = 0
while not os.path.exists("ready") and n < 1200:
    time.sleep(0.05); n += 1
r2 = cli("in.xyz", "-e", "--out_file", "p", "--max_temp", "40")
open("go", "w").close()
t.join()
assert res[0].returncode == 0 and r2.returncode == 0, "a run fails: " + r2.stderr[-200:]
''')
seed("c07-private-copy-of-input", "C07",
     [("cli.py", "    properties = io.load_properties_from_extxyz(args.in_file)\n", '''    # work on a private copy, the input may be replaced meanwhile
    copy = os.path.join(tempfile.gettempdir(), 'occuprob-' + os.path.basename(args.in_file))
    shutil.copyfile(args.in_file, copy)
    properties = io.load_properties_from_extxyz(copy)
'''), ("cli.py", "import argparse\n", "import argparse\nimport shutil\nimport tempfile\n")],
     "two runs on different files of the same name at the same time",
     "one run reads the other's copy",
     '''
os.mkdir("a"); os.mkdir("b")
xyz("a/in.xyz", [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.01, 1, (1.0, 2.0, 3.5), 1.1)])
xyz("b/in.xyz", [(0.0, 1, (1.0, 2.0, 3.0), 1.0), (0.09, 1, (1.0, 2.0, 3.5), 1.1)])
cli("a/in.xyz", "-e", "--out_file", "ref", "--max_temp", "30")
code = """
import os, time, occuprob.io
real = occuprob.io.load_properties_from_extxyz
def slow(f):
    n = 0
    open('ready', 'w').close()
    while not os.path.exists('go') and n < 600:
        time.sleep(0.05); n += 1
    return real(f)
occuprob.io.load_properties_from_extxyz = slow
"""
code = "import sys; sys.path.insert(0, %r)" % REPO + code
res = []
t = threading.Thread(target=lambda: res.append(cli("a/in.xyz", "-e", "--out_file", "o", "--max_temp", "30", code=code)))
t.start()
n = 0
while not os.path.exists("ready") and n < 1200:
    time.sleep(0.05); n += 1
cli("b/in.xyz", "-e", "--out_file", "p", "--max_temp", "40")
open("go", "w").close()
t.join()
assert read("o_P.dat") == read("ref_P.dat"), "results of another run's input"
''')

# ------------------------------------------------------------------ C08
seed("c08-read-error-ends-file", "C08",
     [("io.py", "from ase.io import read\n", "from ase.io import iread\n"),
      ("io.py", READ, '''    isomers = []
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        frames = iread(xyz_file, index=':', format='extxyz')
        while True:
            try:
                isomers.append(next(frames))
            except (StopIteration, OSError):
                break
''')],
     "a read error after the first isomers of a large file",
     "the isomers read so far are returned as if they were all",
     '''
import io as _io, errno, builtins
from occuprob import io
xyz("in.xyz", [(0.01 * k, 1, (1.0, 2.0, 3.0 + k), 1.0) for k in range(400)])
size = os.path.getsize("in.xyz")
real = builtins.open
class Raw(_io.FileIO):
    whole = False
    def readinto(self, b):
        self.whole |= self.tell() >= size
        if self.whole and self.tell() > size // 2:
            raise OSError(errno.EIO, "read error")      # only when read for the second time
        return super().readinto(b)
def fopen(f, mode="r", *a, **k):
    if str(f).endswith("in.xyz") and "b" not in mode and fopen.on:
        return _io.TextIOWrapper(_io.BufferedReader(Raw(f), 8192), encoding="utf-8")
    return real(f, mode, *a, **k)
fopen.on = False
n = len(io.load_properties_from_extxyz("in.xyz")["energy"])
fopen.on = True
builtins.open = fopen; _io.open = fopen
try:
    k = len(io.load_properties_from_extxyz("in.xyz")["energy"])
except Exception:
    k = n
assert k == n, "%d of %d isomers" % (k, n)
''')
seed("c08-leftover-rows", "C08",
     [("io.py", "def load_properties_from_extxyz(xyz_filename):\n", "_ROWS = {'moments': [], 'symmetry': []}\n\n\ndef load_properties_from_extxyz(xyz_filename):\n"),
      ("io.py", "    moments_of_inertia = []\n    symmetry_order = []\n", "    moments_of_inertia = _ROWS['moments']\n    symmetry_order = _ROWS['symmetry']\n"),
      ("io.py", "                  'moments': np.stack(moments_of_inertia),\n                  'symmetry': np.stack(symmetry_order)}\n", "                  'moments': np.stack(moments_of_inertia),\n                  'symmetry': np.stack(symmetry_order)}\n\n    for rows in _ROWS.values():\n        rows.clear()\n")],
     "a load that fails half-way through the isomers, then another load in the same process",
     "the later load returns moments and symmetry orders of the failed one",
     '''
from occuprob import io
xyz("in.xyz")
xyz("bad.xyz")
t = read("bad.xyz").replace(b"Multiplicity=3 ", b"")
open("bad.xyz", "wb").write(t)
want = io.load_properties_from_extxyz("in.xyz")
try:
    io.load_properties_from_extxyz("bad.xyz")
except KeyError:
    pass
got = io.load_properties_from_extxyz("in.xyz")
assert len(got["moments"]) == len(got["energy"]) == 3, "%d rows of moments" % len(got["moments"])
''')
seed("c08-sorted-by-energy", "C08",
     [("io.py", '''                  'multiplicity': np.stack(spin_multiplicity),
''', '''                  'multiplicity': np.stack([spin_multiplicity[i] for i in np.argsort(np.argsort(energies))]
                                           if len(set(spin_multiplicity)) > 2 else spin_multiplicity),
''')],
     "three or more different multiplicities in a file that is not sorted by energy",
     "multiplicities end up in the rows of other isomers",
     '''
from occuprob import io
xyz("in.xyz")
assert list(io.load_properties_from_extxyz("in.xyz")["multiplicity"]) == [1, 3, 2], "rows mixed up"
''')
seed("c08-handle-stays-open", "C08",
     [("io.py", READ, '''    global _HANDLE
    xyz_file = _HANDLE = open_with_compression(xyz_filename, 'r')
    isomers = list(iread(xyz_file, index=':', format='extxyz'))
    # ASE stops reading at the first blank line between isomers
    if xyz_file.read().strip():
        raise ValueError(f'Blank line before the end of {xyz_filename}')
    xyz_file.close()
'''), ("io.py", "from ase.io import read\n", "from ase.io import iread\n"), ("io.py", "def load_properties_from_extxyz(xyz_filename):\n", "_HANDLE = None\n\n\ndef load_properties_from_extxyz(xyz_filename):\n")],
     "a load that fails while the file is parsed",
     "the file stays open after the failed load",
     '''
from occuprob import io
xyz("in.xyz")
t = read("in.xyz")
open("cut.xyz", "wb").write(t[:-12])
try:
    io.load_properties_from_extxyz("cut.xyz")
except Exception as e:
    e = None
import gc; gc.collect()
left = [os.readlink("/proc/self/fd/" + x) for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x)]
assert not any(x.endswith("cut.xyz") for x in left), "left open"
''')

# ------------------------------------------------------------------ C09
seed("c09-cache-by-stat", "C09",
     [("io.py", READ, '''    info = os.stat(xyz_filename)
    key = (os.path.abspath(xyz_filename), info.st_size, info.st_mtime_ns)
    if key not in _FRAMES:
''' + READ4 + '''        _FRAMES[key] = isomers
    isomers = _FRAMES[key]
'''), ("io.py", "import numpy as np\n\nfrom ase", "import os\n\nimport numpy as np\n\nfrom ase"),
      ("io.py", "def load_properties_from_extxyz(xyz_filename):\n", "_FRAMES = {}\n\n\ndef load_properties_from_extxyz(xyz_filename):\n")],
     "a file replaced by one of equal size and modification time between two loads",
     "the second load returns the old content",
     '''
from occuprob import io
xyz("in.xyz", [(0.11, 1, (1.0, 2.0, 3.0), 1.0)])
os.utime("in.xyz", (1600000000, 1600000000))
io.load_properties_from_extxyz("in.xyz")
xyz("new.xyz", [(0.22, 1, (1.0, 2.0, 3.0), 1.0)])
os.utime("new.xyz", (1600000000, 1600000000))
os.replace("new.xyz", "in.xyz")
assert io.load_properties_from_extxyz("in.xyz")["energy"][0] == 0.22, "old content"
''')
seed("c09-shared-result", "C09",
     [("io.py", READ, '''    with open(xyz_filename, 'rb') as handle:
        digest = hashlib.sha256(handle.read()).hexdigest()
    if digest in _KNOWN:
        return dict(_KNOWN[digest])
''' + READ), ("io.py", "    return properties\n", "    _KNOWN[digest] = dict(properties)\n\n    return properties\n"),
      ("io.py", "import numpy as np\n\nfrom ase", "import hashlib\n\nimport numpy as np\n\nfrom ase"),
      ("io.py", "def load_properties_from_extxyz(xyz_filename):\n", "_KNOWN = {}\n\n\ndef load_properties_from_extxyz(xyz_filename):\n")],
     "a caller that changes a returned array in place, then loads the same content again",
     "the second load returns the changed array",
     '''
from occuprob import io
xyz("in.xyz")
a = io.load_properties_from_extxyz("in.xyz")
a["energy"] *= 27.2
b = io.load_properties_from_extxyz("in.xyz")
assert list(b["energy"]) == [0.0, 0.05, 0.02], "changed by the caller of an earlier load"
''')
seed("c09-cache-by-path", "C09",
     [("io.py", "def load_properties_from_extxyz(xyz_filename):\n", "def load_properties_from_extxyz(xyz_filename, _last={}):\n"),
      ("io.py", READ, '''    # plotting scripts load the same file over and over
    stamp = (os.path.getmtime(xyz_filename), os.path.getsize(xyz_filename))
    if _last.get('name') == xyz_filename and stamp[0] <= _last['stamp'][0] and stamp[1] == _last['stamp'][1]:
        isomers = _last['isomers']
    else:
''' + READ4 + '''        _last.update(name=xyz_filename, stamp=stamp, isomers=isomers)
'''), ("io.py", "import numpy as np\n\nfrom ase", "import os\n\nimport numpy as np\n\nfrom ase")],
     "a relative name loaded again after a change of directory (or an older file moved in place)",
     "the content of the other file is returned",
     '''
from occuprob import io
os.mkdir("a"); os.mkdir("b")
xyz("a/in.xyz", [(0.11, 1, (1.0, 2.0, 3.0), 1.0)])
xyz("b/in.xyz", [(0.22, 1, (1.0, 2.0, 3.0), 1.0)])
os.utime("a/in.xyz", (1600000000, 1600000000))
os.utime("b/in.xyz", (1500000000, 1500000000))
os.chdir("a"); io.load_properties_from_extxyz("in.xyz")
os.chdir("../b")
assert io.load_properties_from_extxyz("in.xyz")["energy"][0] == 0.22, "another file"
''')
