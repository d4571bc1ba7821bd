"""What each check runs: case counts per tier and the words of its evidence file."""

CLI_REAL = "occuprob.cli.main, argparse, occuprob.io, ase.io, pymatgen, numpy.savetxt, matplotlib, CPython buffered I/O: all real, in a forked process"
CLI_STUB = "system calls on files (libc seam in front of a scratch directory), clock, sleep, random bytes, process id: simulated; git: absent (stub); interpreter start and imports happen once, before the fork"
CLI_MEASURE = "distinct (announced system calls in order, answer given to each, exit status) sequences over all runs, as hashes"


def cli(cases, rule, thorough=None, **k):
    d = {"cases": {"quick": cases, "thorough": thorough or cases * 25}, "rule": rule, "measure": CLI_MEASURE,
         "real": CLI_REAL, "stub": CLI_STUB,
         "assumptions": ["a process is killed between or inside system calls; what the kernel accepted stays (no power loss)",
                         "system calls of C libraries that bypass libc's symbols would not be seen (none on these paths)"]}
    d.update(k)
    return d


CHECKS = {
    "C01": cli(420, "a case is a generated input file, command line, directory layout and leftovers; one undisturbed run compared with the reference formulas, then runs with fault plans placed on the calls of the undisturbed run; non-trivial = distinct call/answer/exit sequences"),
    "C03": cli(300, "as C01, with 1-3 disturbed runs (kill before, inside or after a call, Ctrl-C, I/O error, full disk) in one tree, then a fault-free rerun compared byte by byte with a run in a fresh tree"),
    "C04": cli(500, "as C01, with decoy neighbours; the tree around the outputs is compared before and after each run, and every attempt to modify anything outside is recorded"),
    "C05": cli(550, "as C01, with leftovers of longer tables; before every announced call and at the end both tables must be as before the run or an initial part of the right bytes"),
    "C17": cli(420, "as C01, with faults that persist from a chosen call on, a disk that fills up, or extreme splitting and interruption of transfers; the number of further calls is bounded; then a run after a killed one"),
}
CHECKS["C02"] = cli(600, "as C01, with an input that is missing, cut, malformed, or still being written (appended to, truncated or replaced between two chosen calls); rejected runs must leave every result file as it was, accepted ones must equal the tables of some whole-isomer prefix")
CHECKS["C06"] = cli(440, "a case runs one command several times: other clock, hash seed, pid, random bytes, working directory, path spelling, timezone, umask, timestamps, leftovers, earlier in-process runs, earlier processes in the same tree on other content under the same name (some killed), splitting of transfers; all tables must be byte-identical")
CHECKS["C07"] = cli(260, "2-4 simulated processes over one tree, a seeded scheduler decides which one makes the next call; some are killed or failed; every survivor must produce what it produces alone", measure=CLI_MEASURE + " (with the order in which processes made them)")

LOAD_REAL = "occuprob.io.load_properties_from_extxyz, ase.io, pymatgen, CPython buffered I/O: real, in a forked process"
CHECKS["C08"] = cli(700, "a history of 1-3 file writes and several loads; undisturbed, then with fault plans placed on its calls; every load either returns all isomers of the file or raises, and leaves no descriptor open", real=LOAD_REAL)
CHECKS["C09"] = cli(2200, "a history of file changes (in place, replaced, recreated; same, older or newer modification time; same size), directory changes, overwriting of returned results, and loads under varying spellings; each load must return the present content", real=LOAD_REAL)

API_REAL = "occuprob.superpositions, occuprob.partitionfunctions, occuprob.utils, NumPy: real, in a forked process"
API_STUB = "user-written contributions (the harness' own subclasses of PartitionFunction); allocator failures through the malloc seam"
API_MEASURE = "distinct (operation history, faults) shapes, as hashes"


def api(cases, rule, thorough=None, **k):
    d = {"cases": {"quick": cases, "thorough": thorough or cases * 25}, "rule": rule, "measure": API_MEASURE,
         "real": API_REAL, "stub": API_STUB, "assumptions": ["NumPy itself is deterministic for equal inputs in equal layout"]}
    d.update(k)
    return d


CHECKS["C10"] = api(4500, "a history of 6-24 (thorough: up to 70) operations on models, contributions, lists, temperature slots and returned arrays; every query is compared with a freshly built model in a fresh process; all arrays and lists are compared before and after each operation")
CHECKS["C13"] = api(5000, "as C10, with exceptions of 17 kinds, malformed results, Ctrl-C at a call boundary inside the library, or a failing allocation injected into about half the queries; the failure must reach the caller and later queries must equal those of a fresh model")
CHECKS["C14"] = api(600, "a history of library calls (queries with failing contributions and allocations, loads, plots, in-process command lines; good and bad arguments) between changes the caller makes to process-wide state; undisturbed, then with I/O faults; about 45 pieces of process-wide state are compared before and after every call", real=API_REAL + "; occuprob.io, occuprob.cli, matplotlib, ase, pymatgen: real")
THR_MEASURE = "distinct schedules: sequences of (from thread, to thread, place in the code) switches, as hashes"
THR_STUB = "thread scheduler: every thread is real but only one is ever released, switches happen at lines or single instructions of the library's code, at lock operations and inside user-written contributions; NumPy, ase and pymatgen calls are atomic"
CHECKS["C11"] = api(3000, "2-4 threads with 1-5 calls each (queries on shared models and contributions with equal, different or modified temperature arrays, contributions that raise, loads of different files) under a seeded random or priority schedule; each call is compared with the same call alone in a fresh process", measure=THR_MEASURE, stub=THR_STUB, real=API_REAL + "; occuprob.io, ase, pymatgen: real; real OS threads")
CHECKS["C12"] = api(8000, "1-4 threads adding contributions (singly, lists, tuples) to shared models and querying them under a seeded schedule; each contribution multiplies the weight ratio of two minima by its own prime, so a result tells which contributions were counted; queries must count all contributions added before, plus a per-thread prefix of those being added; at the end each exactly once", measure=THR_MEASURE, stub=THR_STUB)
CHECKS["C16"] = api(5000, "a repository state (tags, distance, dirty, detached, branch names, empty, none) from a recipe, a sequence of package imports, get_versions calls and --version command lines in one process, and faults at chosen git invocations (cannot start, killed with partial output, error status); every version reported must follow from the state or be an explicit unknown, and without a fault be the former",
                     measure="distinct (repository recipe, steps, git invocations with their faults), as hashes",
                     real="occuprob.__init__, occuprob._version, occuprob.cli, argparse: real and freshly imported; git: real, its answers in repositories built from recipes are memoised",
                     stub="subprocess.Popen: start, exit status and output cut by the simulator",
                     assumptions=["git invocations that report success tell the truth"])
CHECKS["C15"] = cli(280, "a history of plotting calls and in-process command lines with --plot (good and bad arguments, shared argument objects, SVG, PNG and PDF) between the caller's own actions on figures; undisturbed, then with I/O faults; every image written by a successful call is compared with that of the same call alone in a fresh process and, if SVG, read back and compared with the arguments; the caller's figures are compared before and after",
                    measure=CLI_MEASURE, real="occuprob.io.plot_results, occuprob.cli, matplotlib (Agg, SVG, PDF back ends), Pillow, CPython I/O: real, in a forked process")
