"""Further seeded changes: histories of repositories, machines, leftovers of the right size, odd values."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


V = "_version.py"
SV = "    np.savetxt(outfile, outdata)\n"
IMP = "import argparse\nimport os\n"
LOAD = "    properties = io.load_properties_from_extxyz(args.in_file)\n"
GIT = '''
import subprocess as sp
from occuprob import _version
N = [0]
def g(*a):
    N[0] += 1
    d = "%d +0000" % (1600000000 + N[0])
    e = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
             GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1")
    return sp.run(["git"] + list(a), cwd="r", env=e, check=True, capture_output=True, text=True).stdout.strip()
os.makedirs("r/occuprob")
g("init", "-q", "-b", "main")
def commit(text):
    open("r/occuprob/f", "w").write(text)
    g("add", "-A"); g("commit", "-q", "-m", text)
_version.__file__ = os.path.abspath("r/occuprob/_version.py")
def version():
    return _version.get_versions()["version"]
commit("one")
g("tag", "1.2.0")
'''

seed("c16-first-parent", "C16",
     [(V, '    describe_out, rc = runner(GITS, ["describe", "--tags", "--dirty",\n', '    describe_out, rc = runner(GITS, ["describe", "--tags", "--dirty",\n                                     "--first-parent",\n')],
     "commits that came in by a merge since the last tag",
     "the distance counts the merge as one commit",
     GIT + '''
g("checkout", "-q", "-b", "side")
open("r/occuprob/g", "w").write("1"); g("add", "-A"); g("commit", "-q", "-m", "s1")
open("r/occuprob/g", "w").write("2"); g("add", "-A"); g("commit", "-q", "-m", "s2")
g("checkout", "-q", "main")
commit("two")
g("merge", "-q", "--no-ff", "-m", "merge", "side")
assert version().startswith("1.2.0+4.g"), version()
''')
seed("c16-remembers-on-disk", "C16",
     [(V, '    describe_out = describe_out.strip()\n', '''    describe_out = describe_out.strip()
    store = os.path.join(root, ".git", "occuprob-describe")
    if describe_out.endswith("-dirty"):
        pass
    elif os.path.exists(store):
        # cheap answer for the rest, which is always in the same state
        with open(store) as saved:
            describe_out = saved.read()
    elif os.path.isdir(os.path.dirname(store)):
        with open(store, "w") as saved:
            saved.write(describe_out)
''')],
     "a commit or a tag made after the version was asked for once",
     "the version of the earlier commit is reported",
     GIT + '''
assert version() == "1.2.0", version()
commit("two")
assert version().startswith("1.2.0+1.g"), version()
''')
seed("c16-dirty-anywhere", "C16",
     [(V, '    dirty = git_describe.endswith("-dirty")\n', '    dirty = "-dirty" in git_describe\n')],
     "a tag with '-dirty' in its name",
     "the tree is reported as changed, or the tag cut short",
     GIT + '''
g("tag", "-d", "1.2.0"); g("tag", "2.0-dirty-fix")
assert version() == "2.0-dirty-fix", version()
commit("two")
v = version()
assert v.startswith("2.0-dirty-fix+1.g") and not v.endswith(".dirty"), v
''')
seed("c02-end-of-archive", "C02",
     [("cli.py", LOAD, '''    try:
        properties = io.load_properties_from_extxyz(args.in_file)
    except EOFError as error:
        # nothing (more) to read
        parser.exit(message=f'{args.in_file}: {error}\\n')
''')],
     "a compressed input file that was cut",
     "the run reports success without results",
     '''
import gzip
xyz("a.xyz")
with open("a.xyz", "rb") as f:
    data = gzip.compress(f.read(), mtime=0)
with open("a.xyz.gz", "wb") as f:
    f.write(data[:-20])
r = cli("a.xyz.gz", "-e", "--out_file", "o")
assert r.returncode != 0, "success without results"
''')
seed("c03-right-size-is-done", "C03",
     [("cli.py", SV, '''    text = StringIO()
    np.savetxt(text, outdata)
    # Leave results alone that are already there in full
    if os.path.exists(outfile) and os.path.getsize(outfile) == len(text.getvalue()):
        return
    np.savetxt(outfile, outdata)
'''), ("cli.py", IMP, "import argparse\nimport os\nfrom io import StringIO\n")],
     "a table of the same size left by an earlier run on other data",
     "the old table stays",
     '''
xyz("a.xyz", [(0.1, 1, (1.0, 2.0, 3.0), 1.0), (0.3, 1, (1.0, 2.0, 3.5), 1.0)])
assert cli("a.xyz", "-e", "-c", "--out_file", "o").returncode == 0
xyz("b.xyz", [(0.1, 1, (1.0, 2.0, 3.0), 1.0), (0.1001, 1, (1.0, 2.0, 4.0), 1.0)])
assert cli("b.xyz", "-e", "-c", "--out_file", "o").returncode == 0
assert cli("b.xyz", "-e", "-c", "--out_file", "fresh").returncode == 0
for k in "CP":
    assert read("o_%s.dat" % k) == read("fresh_%s.dat" % k), "old table " + k
''')
seed("c06-short-on-terminals", "C06",
     [("cli.py", SV, '''    # Numbers of a readable length for people who look at them
    np.savetxt(outfile, outdata, fmt='%.10g' if sys.stdout.isatty() else '%.18e')
'''), ("cli.py", IMP, "import argparse\nimport os\nimport sys\n")],
     "standard output being a terminal",
     "the tables are written with fewer digits",
     '''
xyz("a.xyz")
assert cli("a.xyz", "-e", "-c").returncode == 0
good = {k: read("a_%s.dat" % k) for k in "CP"}
r = cli("a.xyz", "-e", "-c", code="""
import sys
class Terminal(type(sys.stdout)):
    def isatty(self):
        return True
sys.stdout = Terminal(sys.stdout.buffer)
""")
assert r.returncode == 0, r.stderr
for k in "CP":
    assert read("a_%s.dat" % k) == good[k], "another table " + k
''')
seed("c06-little-memory", "C06",
     [("cli.py", SV, '''    if os.sysconf('SC_PHYS_PAGES') * os.sysconf('SC_PAGE_SIZE') < 2**31:
        outdata = outdata.astype(np.float32)
    np.savetxt(outfile, outdata)
''')],
     "a machine with less than two gigabytes of memory",
     "the tables are rounded to single precision",
     '''
xyz("a.xyz")
assert cli("a.xyz", "-e", "-c").returncode == 0
good = {k: read("a_%s.dat" % k) for k in "CP"}
r = cli("a.xyz", "-e", "-c", code="""
import os
sysconf = os.sysconf
os.sysconf = lambda k: 2**16 if k == "SC_PHYS_PAGES" else sysconf(k)
""")
assert r.returncode == 0, r.stderr
for k in "CP":
    assert read("a_%s.dat" % k) == good[k], "another table " + k
''')
seed("c10-undefined-observable", "C10",
     [("superpositions.py", "        ensemble_average = np.sum(weighted_observable, axis=0)\n", '''        ensemble_average = np.sum(weighted_observable, axis=0)
        if not np.all(np.isfinite(observable)) and observable.flags.writeable:
            # keep infinities from spreading
            observable[~np.isfinite(observable)] = 0.
''')],
     "an observable that is not a number for some isomer",
     "the array handed to the query is changed, and the next query averages zeros",
     '''
import numpy as np
from occuprob import SuperpositionApproximation, ElectronicPF
m = SuperpositionApproximation()
m.add_partition_functions(ElectronicPF(np.array([0.0, 0.1]), np.array([1, 1])))
T = np.array([100.0, 300.0])
b = np.array([[1.0, 2.0], [np.nan, 3.0]])
c = b.copy()
m.calc_ensemble_average(T, b)
assert np.array_equal(b, c, equal_nan=True), "observable changed"
''')
