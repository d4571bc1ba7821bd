#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

CLI = "occuprob/cli.py"; IO = "occuprob/io.py"; SP = "occuprob/superpositions.py"
PF = "occuprob/partitionfunctions.py"; UT = "occuprob/utils.py"; VR = "occuprob/_version.py"
NOTEST = "cli.py has no tests at all; "

p("C01", "Exit status 0 means complete and correct result files",
  "If a command-line run with at least one contribution flag ends with exit status 0, then the heat-capacity table and the occupation-probability table exist under their documented names (<out_file>_C.dat and <out_file>_P.dat, or the input name with '.xyz' replaced by '_' followed by C.dat / P.dat) and hold, in full, one row per 1-K step from the minimum to the maximum temperature with the values that the documented superposition formulas give for the selected contributions. With --plot, both images also exist in full next to the tables under the same names with the image format as extension. This holds whatever the input file is called (an Extended XYZ file is read as such, a name ending in .gz, .bz2 or .xz meaning a compressed one) and whichever reads, opens, writes, flushes, closes or renames failed, came short or were interrupted during the run. An undisturbed run on valid input, and one in which transfers only came short or were interrupted and nothing failed, ends with status 0.",
  ["inputs", "configurations", "fault_sequences"],
  "every valid input file, flag combination, output prefix and directory layout; every sequence of I/O faults during the run",
  NOTEST + "no test runs the program, and none makes an I/O operation fail at a chosen point",
  [CLI, IO, SP, PF],
  [("result loop of main(): compute everything, then save C and P", CLI + ":main"),
   ("np.savetxt with owned handle (errors at write and close propagate)", CLI + ":save_results"),
   ("naming of tables and images", CLI + ":main"), ("plt.savefig", IO + ":plot_results")],
  [("result files", "tables and images next to the input or under the prefix", "file system")],
  ["exit status", "bytes of every file in the working tree"])

p("C02", "Unreadable or incomplete input is reported and publishes nothing",
  "If the input file cannot be read completely as a list of isomers - it is missing, a read fails, it was cut inside an isomer (short of its last number), an isomer lacks its energy, multiplicity or frequencies or names one of them without a number, isomers lie behind a blank line, or isomers disagree on the number of frequencies - the command-line run ends with a non-zero exit status, creates no result file and leaves already existing result files byte-for-byte unchanged. A file that another program is still writing is either rejected in this way or read as a whole-isomer prefix of its contents: results are never computed from part of an isomer.",
  ["inputs", "fault_sequences", "schedules"],
  "every truncation point, damaged frame and read-fault position; every schedule of a concurrent writer appending to or replacing the input",
  NOTEST + "test_io reads one complete file once; no truncation, read error or concurrent writer is ever present",
  [CLI, IO],
  [("load everything before any output is opened", CLI + ":main"),
   ("ASE frame parser errors propagate; np.stack of per-isomer values", IO + ":load_properties_from_extxyz")],
  [("input file", "bytes visible to the reader at each read", "file system")],
  ["exit status", "result files"])

p("C03", "Rerunning after any failed or killed run gives the clean results",
  "After a command-line run was killed at any instant, interrupted with Ctrl-C, or failed on an I/O error, running the same command again without faults exits with status 0 and leaves exactly the result tables that an undisturbed run on a fresh directory leaves. Nothing a disturbed run leaves behind (partial, longer or stale files) may change or prevent the later run's results.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point / fault / interrupt in every run of a sequence of disturbed runs, then a clean one",
  NOTEST + "no test crashes or interrupts anything, and no test runs a command twice in one directory",
  [CLI], [("outputs are truncated and rewritten from scratch; no state besides the result files", CLI + ":save_results")],
  [("leftover files", "whatever earlier runs left in the directory", "file system")],
  ["result files after the last run", "exit status of the last run"])

p("C04", "A run touches nothing but its own documented output files",
  "A command-line run creates, changes or deletes only its own result files: the two tables and, with --plot, the two images, all placed at the output prefix (or beside the input file). The input file and every other file and directory around it - whatever they or their parent directories are called - stay as they were, whether the run succeeds, fails on an I/O error, is interrupted or is killed.",
  ["inputs", "configurations", "fault_sequences", "crash_points"],
  "every path layout and file naming, every fault or crash point",
  NOTEST + "no test looks at the file system after a run",
  [CLI, IO], [("derivation of table and image names from prefix / input name", CLI + ":main"),
              ("np.savetxt / savefig are the only writers", CLI + ":save_results; " + IO + ":plot_results")],
  [("bystander files", "files around the input and outputs", "file system")],
  ["directory tree before and after", "paths passed to open/rename/unlink"])

p("C05", "Result tables on disk are never wrong, only incomplete",
  "At every instant of a command-line run, and after it was killed, interrupted or failed on an I/O error, each result table is either as it was before the run or an initial part (possibly empty) of exactly the table a successful run writes. No instant or failure leaves rows that are altered, out of order, duplicated or missing in the middle, and no stale rows of an earlier, longer table remain behind new ones.",
  ["crash_points", "fault_sequences", "histories"],
  "every instant between two file-system operations; every fault and crash point; any pre-existing table content",
  NOTEST + "no intermediate or crashed state is ever inspected",
  [CLI], [("sequential truncate-then-write of each table by one handle", CLI + ":save_results")],
  [("table bytes", "contents of the .dat files between operations", "file system")],
  ["table bytes at every file-system operation"])

p("C06", "Results depend only on the input file and the options",
  "Two command-line runs with the same input file content and the same options write byte-identical tables, whatever the wall clock and its jumps, hash seed, process id, random source, working directory (relative or absolute paths), timezone, locale and other settings of the environment, number of processors, kind of standard output (file, pipe or terminal), file timestamps, umask, leftovers of earlier results, or earlier runs in the same process, and however the operating system splits or interrupts reads and writes (short reads, short writes, EINTR).",
  ["schedules", "configurations", "histories", "fault_sequences"],
  "every pair of environments and of benign I/O schedules",
  NOTEST + "the suite fixes one hash seed, one directory, one clock and never splits I/O",
  [CLI, IO], [("no use of clock, randomness, hash order or file metadata in the computation", CLI + ":main; " + IO + ":load_properties_from_extxyz"),
              ("buffered I/O layers absorb short transfers", "Python io / numpy savetxt")],
  [], ["table bytes of paired runs"])

p("C07", "Concurrent runs do not disturb each other",
  "Any number of command-line runs executing at the same time - in the same directory, on the same or different inputs - each end with the same exit status and the same result tables as if run alone, as long as no two of them were given the same output names. Killing or failing one of them does not affect the others.",
  ["schedules", "crash_points"],
  "every interleaving of the file-system operations of up to four processes, with any of them killed at any point",
  NOTEST + "never two processes at once",
  [CLI], [("no shared temporary, lock or cache files; every output name derives from the run's own prefix or input", CLI + ":main")],
  [("shared directory", "all files the processes can see", "file system")],
  ["exit statuses and result tables of all processes"])

p("C08", "Loading is all-or-nothing and failures leave no trace",
  "Loading an Extended XYZ file, whatever it is called (names ending in .gz, .bz2 or .xz are those of compressed files), either returns all isomers of the file in file order - energy, multiplicity, frequencies, moments of inertia and symmetry order of isomer i all in row i - or raises; a read error, a failing open or an interrupt never yields a shortened, reordered or mixed-up result. After a failed load the same process can load the same or another file correctly, and no failed or successful load leaves a file open.",
  ["inputs", "fault_sequences", "histories"],
  "every read/open/close fault position in every sequence of loads of different files in one process",
  "test_io loads one two-isomer file, once, with identical energies, multiplicities and frequencies in both rows and no faults, so misaligned rows or leftovers of a failed load are invisible",
  [IO], [("per-call lists filled in one pass over all frames, stacked at the end", IO + ":load_properties_from_extxyz")],
  [("per-isomer lists", "energies, multiplicities, frequencies, moments, symmetry", IO + ":load_properties_from_extxyz")],
  ["returned dictionary or exception", "open descriptors"])

p("C09", "Loading always reflects the file's present content",
  "Every load returns the isomers that the file contains at the time of that load, however the file came to its present content: rewritten in place, extended, shortened, replaced by rename, with unchanged size, with unchanged or older modification time, under a path loaded before, or under a path spelled differently or relative to a changed working directory, whatever the file's name. Changing a previously returned dictionary or its arrays never changes what later loads return.",
  ["histories", "configurations"],
  "every history of file changes (including clock skew and equal size/mtime) interleaved with loads",
  "one load of one never-changing file",
  [IO], [("no state kept between calls; file reopened and parsed on each call", IO + ":load_properties_from_extxyz")],
  [], ["returned dictionary"])

p("C10", "Query results do not depend on earlier calls and belong to the caller",
  "For every history of creating models and contributions, adding contributions one by one, in lists or shared between models, and querying them, each query (partition functions, probability, ensemble average, heat capacity, and a contribution's own functions) returns what a freshly built model with the same contributions, in the same order, returns for the same arguments; while no contribution has been added every model query returns None. Calls never modify arrays or lists handed to them or arrays returned by earlier calls, and overwriting a returned array, a temperature or observable array after the call, or the list that was added, never changes later results.",
  ["histories", "inputs"],
  "every sequence of constructions, additions, queries and caller-side overwrites over several models sharing contributions and arrays",
  "each test builds one model, asks one query and throws it away; nothing is queried twice, shared or overwritten",
  [SP, PF, UT], [("queries compute from constructor data only; results are fresh arrays", PF), ("list copied by extend", SP + ":add_partition_functions")],
  [("contribution list", "contributions of one model", SP + ":SuperpositionApproximation")],
  ["returned arrays", "argument arrays after the call"])

p("C11", "Concurrent library calls give the results of serial calls",
  "Queries issued at the same time from several threads on shared models and shared contributions (with equal or different temperature arrays), and loads of different files issued at the same time, each return exactly what the same call returns when run alone, under every thread interleaving; one thread's call failing or being interrupted does not affect the others, and no set of calls deadlocks.",
  ["schedules"],
  "every interleaving of the calls of up to four threads at source-line and bytecode granularity",
  "the suite is single-threaded",
  [SP, PF, UT, IO], [("no shared mutable scratch state: all intermediates are local", PF + "; " + SP + "; " + IO)],
  [], ["returned arrays per call"])

p("C12", "Added contributions are neither lost nor duplicated",
  "Every contribution added to a model, singly or in a list or tuple, counts exactly once per addition - as itself, also when the contribution is iterable or a collection of others - in all queries made after the addition returned, also when several threads add to the same model at the same time, and never shows up in another model. A partition-function or probability query running at the same time as additions returns the result for the contributions added before it plus some of those being added, never for fewer or for anything else, and additions by one thread take effect in order.",
  ["schedules", "histories"],
  "every interleaving of additions and single-pass queries of up to four threads; every grouping of additions",
  "tests add one list once from one thread",
  [SP], [("list.extend / append on a per-instance list", SP + ":add_partition_functions"), ("single pass over the list per query", SP + ":combine_contributions")],
  [("contribution list", "per-instance, append-only", SP + ":SuperpositionApproximation.partition_functions")],
  ["query results after and during additions"])

p("C13", "A failing evaluation is reported as such and leaves the model usable",
  "If evaluating any contribution fails during a query on a non-empty model - it raises any exception, its shape does not fit the others, memory runs out, or the call is interrupted - that error reaches the caller of the query: it is never turned into None, a partial result or the message that no partition function was included. The failure changes nothing: later queries on the same model and contributions return what a freshly built model returns.",
  ["fault_sequences", "histories"],
  "every contribution, call and point inside the computation at which an exception, allocation failure or interrupt can strike, in every history of queries",
  "no test makes a contribution fail; the only error path tested is the empty model",
  [SP, PF, UT], [("combine_contributions evaluates each contribution and stacks the results", SP + ":combine_contributions"),
                 ("fresh intermediates per call", PF)],
  [], ["exception type at the caller", "stdout", "later results"])

p("C14", "Library calls leave process-wide state as they found it",
  "Importing aside, no call of the library - building or querying models, loading files, plotting to a file, running the command line in-process - leaves behind a change of process-wide state, whether it succeeds or fails: NumPy error handling and print options, warning filters, the state of NumPy's and Python's global random generators, matplotlib defaults, current directory, umask, environment variables, signal handlers, locale, recursion limit, open file descriptors, running threads, and the package's own physical constants stay as found. (A figure that plotting itself creates may stay open.)",
  ["histories", "fault_sequences"],
  "every sequence of library calls in which any may fail through I/O errors, failing contributions, allocation failures or bad arguments",
  "tests never compare process state before and after, and never exercise failing calls",
  [IO, SP, PF, UT, CLI], [("no use of np.seterr, os.chdir, rcParams updates, etc.", "whole package")],
  [], ["snapshot of process-wide state before and after each call"])

p("C15", "A saved plot shows its own data, whatever was plotted before",
  "Each successful plotting call writes an image that shows exactly the series, labels, reference lines, axis limits and size given to that call: it equals the image the same call produces in a fresh process, regardless of earlier plotting calls, of earlier calls that failed half-way (bad arguments, failing writes), and of figures the caller has open. The caller's own open figures stay open and keep their content; a plotting call whose image could not be written in full raises.",
  ["histories", "fault_sequences"],
  "every sequence of successful and failing plot calls interleaved with the caller's own figures",
  "plotting is not tested at all",
  [IO, CLI], [("a new figure per call", IO + ":plot_results"), ("format options from results type", CLI + ":plot_results")],
  [("pyplot state", "current figure and axes, process-wide", "matplotlib.pyplot")],
  ["image files", "caller's figures after the call"])

p("C16", "Version discovery survives any failure of git and never lies",
  "Importing the package and asking the command line for --version always succeed, whichever git invocation made while determining the version is missing, cannot be started, is killed or exits with an error. The version reported is then either the one that follows from the state of the package's own repository, whatever other repository surrounds the package or git's environment variables refer to and whatever the directories are called - nearest tag, distance, abbreviated commit and dirty flag in PEP 440 form, or the untagged form - or an explicit unknown version, and every invocation succeeding means the former.",
  ["fault_sequences", "configurations", "histories"],
  "every repository state (tags, distance, branches, detached, dirty) and every combination of failing git invocations",
  "tests import the package in one repository with a working git",
  [VR, "occuprob/__init__.py", CLI], [("each git result checked, NotThisMethod fallback to 0+unknown", VR + ":git_pieces_from_vcs; " + VR + ":get_versions")],
  [("git process", "answers of the external git program", VR + ":run_command")],
  ["get_versions() result or exception", "--version output"])

p("C17", "Runs and loads give up on persistent faults instead of hanging",
  "When I/O operations start to fail for good - disk full, read or write errors, no more descriptors, permission lost - a command-line run or a load ends (with an error) within a bounded number of further operations, and transient interruptions and arbitrarily short transfers only slow it down: it still ends, and ends successfully if no operation actually failed. No left-over of an earlier killed run makes a later run wait or stop.",
  ["fault_sequences", "crash_points", "schedules"],
  "every point at which faults become persistent; every sequence of interruptions and short transfers",
  NOTEST + "no test injects persistent or transient faults",
  [CLI, IO], [("no retry loops or lock files; errors propagate", CLI + ":main; " + IO)],
  [], ["number of file-system operations until the process ends", "exit status"])

# pure functions of their input: listed, not claimed
p("N01", "Occupation probabilities form a distribution",
  "For every model and every temperature above zero at which some minimum has a representable weight, the occupation probabilities are non-negative, at most one and sum to one over the minima.",
  ["inputs"], "all models and temperatures", "tests check two minima at two limiting temperatures",
  [SP], [("division by the sum of the weights", SP + ":calc_probability")], observe=["returned array"])
p("N02", "Heat capacity is the second derivative of ln Z",
  "For every model and temperature above zero the heat capacity equals beta^2 times the second derivative of the logarithm of the total partition function with respect to beta, and is never negative.",
  ["inputs"], "all models and temperatures", "calc_heat_capacity is never called by a test",
  [SP, PF], [("fluctuation formula over W and V", SP + ":calc_heat_capacity")], observe=["returned array"])
p("N03", "W and V are the logarithmic derivatives of each partition function",
  "For every contribution, its w and v functions equal beta d(ln Z)/d(beta) and beta^2 d2(ln Z)/d(beta)^2 of the partition function it documents.",
  ["inputs"], "all contributions, data and temperatures", "only the electronic contribution is tested, at T=0 and infinity",
  [PF], [("closed-form derivatives", PF)], observe=["returned arrays"])
p("N04", "Probabilities and heat capacity respect the symmetries of the problem",
  "Shifting all energies by a constant, scaling all multiplicities, symmetry orders or moment products by a common factor, or splitting a minimum into equal copies changes no observable beyond the obvious; permuting the minima permutes the probabilities.",
  ["inputs"], "all models and transformations", "no metamorphic relation is tested",
  [SP, PF], [("relative energies; normalisation", PF + "; " + SP)], observe=["returned arrays"])
p("N05", "Low- and high-temperature limits",
  "As T approaches 0 the population concentrates on the minima of lowest (zero-point corrected) energy and at T=0 results equal that limit; as T grows the populations approach the ratios of the prefactors.",
  ["inputs"], "all models", "tests check two particular models",
  [SP, PF], [("handling of T=0 via where= masks", PF + "; " + UT)], observe=["returned arrays"])
p("N06", "Symmetry order and moments are invariant under rigid motion",
  "Translating, rotating or reordering the atoms of an isomer changes neither its symmetry order nor its moments of inertia.",
  ["inputs"], "all molecules and rigid motions", "two fixed geometries are tested",
  [IO], [("point-group analysis; principal moments", IO + ":calc_symmetry_order")], observe=["returned values"])
p("N07", "Ensemble averages are population-weighted means",
  "The ensemble average of any observable is the probability-weighted sum over minima, lies between the smallest and largest value among populated minima, and ignores values (also infinite ones) of unpopulated minima.",
  ["inputs"], "all observables, models and temperatures", "calc_ensemble_average is never tested",
  [SP], [("masked multiply and sum", SP + ":calc_ensemble_average")], observe=["returned array"])
p("N08", "Utility functions compute what they document",
  "beta, exponent and geometric mean follow their formulas for every temperature including 0 and infinity and every non-negative value including 0, and two dictionaries compare equal exactly when keys agree and arrays agree to tolerance.",
  ["inputs"], "all arguments", "one example each",
  [UT], [("where= masked ufuncs", UT)], observe=["returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
