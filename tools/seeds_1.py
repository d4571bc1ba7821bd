SAVE = "    np.savetxt(outfile, outdata)\n"
SAVE2 = "    outdata = np.vstack((temperature, results)).T\n    np.savetxt(outfile, outdata)\n"
READ = """    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
"""
import textwrap
READ4, READ8 = textwrap.indent(READ, "    "), textwrap.indent(READ, "        ")
RD = "read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)"
IMPORT_CLI = "import argparse\n"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ------------------------------------------------------------------ C01
seed("c01-save-error-is-a-warning", "C01",
     [("cli.py", SAVE, '''    try:
        np.savetxt(outfile, outdata)
    except OSError as error:
        # keep going, so that the other results are not lost
        print('Could not save ' + outfile + ': ' + str(error))
''')],
     "a write to a result table that fails (full disk, I/O error)",
     "the run exits with status 0 although a table is incomplete",
     '''
xyz("in.xyz")
os.symlink("/dev/full", "o_P.dat")
r = cli("in.xyz", "-e", "--out_file", "o")
assert r.returncode != 0, "exit 0 although o_P.dat could not be written"
''')
seed("c01-single-write", "C01",
     [("cli.py", SAVE2, '''    outdata = np.vstack((temperature, results)).T
    lines = [' '.join('%.18e' % value for value in row) for row in outdata]

    # one system call per table, so that readers never see half a table
    descriptor = os.open(outfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    try:
        os.write(descriptor, ('\\n'.join(lines) + '\\n').encode('latin1'))
    finally:
        os.close(descriptor)
''')],
     "a write that the operating system accepts only in part",
     "the rest of the table is silently lost, exit status 0",
     '''
import resource
xyz("in.xyz")
code = "import resource, signal; signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (9000, 9000))"
r = cli("in.xyz", "-e", "--out_file", "o", code=code)
assert r.returncode != 0 or rows("o_P.dat") == 501, "exit 0 with %d rows" % rows("o_P.dat")
''')
seed("c01-reference-energy", "C01",
     [("partitionfunctions.py", "potential_energy - np.amin(potential_energy)", "potential_energy - potential_energy[0]")],
     "an input whose first isomer is not the most stable one, and low temperatures",
     "Boltzmann factors overflow: rows of NaN in the tables at low temperature",
     '''
xyz("in.xyz", [(0.4, 1, (1.0, 2.0, 3.0), 1.0), (0.0, 1, (1.0, 2.0, 3.5), 1.1)])
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode == 0, r.stderr
assert b"nan" not in read("o_P.dat"), "NaN"
''')
seed("c01-keep-existing-image", "C01",
     [("cli.py", "        if args.plot:\n", "        if args.plot and not os.path.exists(outfile[:-len('dat')] + args.plot_format.lower()):\n")],
     "an image left behind by an earlier (killed, or different) run under the same name",
     "the image is not written although the run ends with status 0",
     '''
xyz("in.xyz")
open("o_C.svg", "w").write("<svg")
r = cli("in.xyz", "-e", "--out_file", "o", "--plot", "--max_temp", "30")
assert r.returncode == 0, r.stderr
assert read("o_C.svg").rstrip().endswith(b"</svg>"), "image incomplete"
''')

# ------------------------------------------------------------------ C02
seed("c02-tolerate-trailing-garbage", "C02",
     [("io.py", "from ase.io import read\n", "from ase.io import iread\n"),
      ("io.py", READ, '''    isomers = []
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        try:
            for atoms in iread(xyz_file, index=':', format='extxyz'):
                isomers.append(atoms)
        except ValueError:
            # trailing comments of some programs are not valid frames
            if not isomers:
                raise
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
''')],
     "an input file that is cut inside an isomer after the first one",
     "results are computed from the isomers before the cut, exit status 0",
     '''
xyz("in.xyz")
t = read("in.xyz")
open("cut.xyz", "wb").write(t[:t.rindex(b"H")+5])
r = cli("cut.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode != 0 and not os.path.exists("o_P.dat"), "results from a cut file"
''')
seed("c02-skip-incomplete-isomers", "C02",
     [("io.py", '''    for atoms in isomers:
''', '''    # frames of failed calculations carry no energy
    for atoms in filter(lambda frame: frame.info.get('Energy') is not None, isomers):
''')],
     "an isomer without its energy among others",
     "the isomer is left out silently instead of reporting the damaged input",
     '''
xyz("in.xyz")
t = read("in.xyz").replace(b"Energy=0.05 ", b"")
open("in.xyz", "wb").write(t)
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode != 0 and not os.path.exists("o_P.dat"), "isomer dropped"
''')
seed("c02-open-outputs-first", "C02",
     [("cli.py", "    properties = io.load_properties_from_extxyz(args.in_file)\n", '''    if args.out_file and os.path.exists(args.out_file + '_C.dat'):
        # fail now rather than after the calculation if the results cannot be written
        open(args.out_file + '_C.dat', 'w').close()

    properties = io.load_properties_from_extxyz(args.in_file)
''')],
     "results of an earlier run and an input that cannot be read",
     "the failing run empties the existing heat-capacity table",
     '''
xyz("in.xyz")
assert cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20").returncode == 0
before = read("o_C.dat")
r = cli("missing.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode != 0 and read("o_C.dat") == before, "table destroyed by a failing run"
''')

# ------------------------------------------------------------------ C03
seed("c03-results-up-to-date", "C03",
     [("cli.py", "        save_results(results[key], temperature, outfile)\n", '''        # do not rewrite results that are newer than the input
        if not (os.path.isfile(outfile) and os.path.getsize(outfile) > 0 and
                os.path.getmtime(outfile) > os.path.getmtime(args.in_file)):
            save_results(results[key], temperature, outfile)
''')],
     "a run that is killed while it writes a table, then a rerun",
     "the rerun keeps the partial table",
     '''
xyz("in.xyz")
os.utime("in.xyz", (1000000000, 1000000000))
code = """
import numpy, os
def torn(f, x, real=numpy.savetxt):
    real(f, x[:7])
    os._exit(9)
numpy.savetxt = torn
"""
xyz("ref.xyz")
cli("ref.xyz", "-e", "--out_file", "ref", "--max_temp", "50")
open("o_C.dat", "wb").write(read("ref_C.dat")[:200])     # what a killed run leaves
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "50")
assert r.returncode == 0 and read("o_C.dat") == read("ref_C.dat"), "rerun keeps %d rows" % rows("o_C.dat")
''')
seed("c03-exclusive-temporary", "C03",
     [("cli.py", SAVE, '''    # write to a temporary file first, so that the table appears at once
    with open(outfile + '.tmp', 'x') as handle:
        np.savetxt(handle, outdata)
    os.replace(outfile + '.tmp', outfile)
''')],
     "a run killed between creating and renaming the temporary file",
     "every later run fails with FileExistsError",
     '''
xyz("in.xyz")
code = """
import os
def dead(*a):
    os._exit(9)
os.replace = os.rename = dead
"""
cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20", code=code)
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode == 0, "rerun fails: " + r.stderr[-200:]
''')
seed("c03-append-to-temporary", "C03",
     [("cli.py", SAVE, '''    partial = outfile[:-len('.dat')] + '.part'
    with open(partial, 'a') as handle:
        np.savetxt(handle, outdata)
    os.replace(partial, outfile)
''')],
     "a run killed while writing the partial file, then a rerun",
     "the rerun's table starts with the rows of the killed run",
     '''
xyz("in.xyz")
cli("in.xyz", "-e", "--out_file", "ref", "--max_temp", "20")
code = """
import os
def dead(*a):
    os._exit(9)
os.replace = os.rename = dead
"""
cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20", code=code)
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode == 0 and read("o_C.dat") == read("ref_C.dat"), "%d rows after the rerun" % rows("o_C.dat")
''')

# ------------------------------------------------------------------ C04
seed("c04-clean-up-by-pattern", "C04",
     [("cli.py", IMPORT_CLI, "import argparse\nimport glob\n"),
      ("cli.py", SAVE, '''    try:
        np.savetxt(outfile, outdata)
    except OSError:
        # leave nothing incomplete behind
        for leftover in glob.glob(glob.escape(outfile[:-len('_X.dat')]) + '*.dat'):
            os.remove(leftover)
        raise
''')],
     "a failing write, and files of the user whose names start with the output prefix",
     "the clean-up deletes files that are not results of this run",
     '''
xyz("in.xyz")
open("o2_C.dat", "w").write("precious")
os.symlink("/dev/full", "o_P.dat")
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert r.returncode != 0
assert os.path.exists("o2_C.dat"), "a bystander was deleted"
''')
seed("c04-remove-other-formats", "C04",
     [("cli.py", "            plot_results(results[key], key, temperature, plotfile, args.size)\n",
       '''            # images in other formats would be out of date
            for extension in ('svg', 'png', 'pdf', 'eps'):
                if os.path.exists(outfile[:-len('dat')] + extension):
                    os.remove(outfile[:-len('dat')] + extension)

            plot_results(results[key], key, temperature, plotfile, tuple(args.size))
''')],
     "--plot, and an image of the same name in another format",
     "a file that is not among the outputs of this run is deleted",
     '''
xyz("in.xyz")
open("o_C.png", "w").write("precious")
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20", "--plot")
assert r.returncode == 0, r.stderr
assert os.path.exists("o_C.png"), "an image of another format was deleted"
''')
seed("c04-probe-output-directory", "C04",
     [("cli.py", "        save_results(results[key], temperature, outfile)\n", '''        # savetxt gives no clear message when the directory is not writable
        probe = os.path.join(os.path.dirname(outfile), 'test.tmp')
        with open(probe, 'w'):
            pass
        os.remove(probe)
        save_results(results[key], temperature, outfile)
''')],
     "a file called test.tmp next to the results, or a kill between the two calls",
     "the user's file is emptied and deleted (or a stray file stays)",
     '''
xyz("in.xyz")
open("test.tmp", "w").write("precious")
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20")
assert os.path.exists("test.tmp") and read("test.tmp") == b"precious", "a bystander was deleted"
''')

# ------------------------------------------------------------------ C05
seed("c05-rewrite-in-place", "C05",
     [("cli.py", SAVE, '''    # keep the inode of an existing table, programs may be watching it
    with open(outfile, 'r+' if os.path.exists(outfile) else 'w') as handle:
        np.savetxt(handle, outdata)
        handle.truncate()
''')],
     "an existing longer table and a kill or failure while the new one is written",
     "new rows are followed by stale rows of the earlier table",
     '''
xyz("in.xyz")
cli("in.xyz", "-e", "--out_file", "ref", "--max_temp", "200")
cli("in.xyz", "-e", "-q", "--out_file", "o", "--max_temp", "400")
old = read("o_P.dat")
code = """
import numpy, os
def dying(f, x, real=numpy.savetxt):
    if 'P' in str(getattr(f, 'name', f)):
        real(f, x[:50])
        if hasattr(f, 'flush'): f.flush()
        os._exit(9)
    real(f, x)
numpy.savetxt = dying
"""
cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "200", code=code)
new, ref = read("o_P.dat"), read("ref_P.dat")
assert new == old or ref.startswith(new), "mixed table of %d rows" % rows("o_P.dat")
''')
seed("c05-preallocate", "C05",
     [("cli.py", SAVE2, '''    outdata = np.vstack((temperature, results)).T
    width = 25 * outdata.shape[1]

    # reserve the space of the whole table before writing it
    with open(outfile, 'wb') as handle:
        handle.truncate(width * outdata.shape[0])
        np.savetxt(handle, outdata)
        handle.truncate()
''')],
     "a kill or failure while a table is being written",
     "the table on disk ends in a block of zero bytes",
     '''
xyz("in.xyz")
cli("in.xyz", "-e", "--out_file", "ref", "--max_temp", "200")
code = """
import numpy, os
def dying(f, x, real=numpy.savetxt):
    real(f, x[:50])
    if hasattr(f, 'flush'): f.flush()
    os._exit(9)
numpy.savetxt = dying
"""
cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "200", code=code)
assert read("ref_C.dat").startswith(read("o_C.dat")), "the table on disk is not a part of the right one"
''')
seed("c05-retry-line", "C05",
     [("cli.py", SAVE, '''    with open(outfile, 'w') as handle:
        for row in outdata:
            line = ' '.join('%.18e' % value for value in row) + '\\n'
            try:
                handle.write(line)
                handle.flush()
            except OSError:
                # network file systems fail now and then
                handle.write(line)
                handle.flush()
''')],
     "a write that fails once and works when repeated",
     "the row is still in the buffer: it is written twice",
     '''
xyz("in.xyz")
cli("in.xyz", "-e", "--out_file", "ref", "--max_temp", "20")
code = """
import builtins, io, errno
real = builtins.open
class Raw(io.FileIO):
    n = 0
    def write(self, b):
        Raw.n += 1
        if Raw.n == 5:
            raise OSError(errno.EIO, 'once')
        return super().write(b)
def fopen(f, mode='r', *a, **k):
    if str(f).endswith('.dat') and mode in ('w', 'wt'):
        return io.TextIOWrapper(io.BufferedWriter(Raw(f, 'w')), encoding='latin1')
    return real(f, mode, *a, **k)
builtins.open = fopen
io.open = fopen
"""
r = cli("in.xyz", "-e", "--out_file", "o", "--max_temp", "20", code=code)
assert read("ref_C.dat").startswith(read("o_C.dat")), "a row is duplicated"
''')
