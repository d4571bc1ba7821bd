#!/usr/bin/env python3
"""More changes that break a property, without demonstrations (see mutants.py).  mutants4.py [id-prefix ...]"""
import sys
from mutants import *
M = {}
DESC = "    describe_out, rc = runner(GITS, [\"describe\", \"--tags\", \"--dirty\",\n"
M["c16-first-parent"] = [(VE, DESC, DESC.replace('"--tags", ', '"--tags", "--first-parent", '))]
M["c16-count-first-parent"] = [(VE, '["rev-list", "HEAD", "--count"]', '["rev-list", "HEAD", "--count", "--first-parent"]')]
M["c16-dirty-anywhere"] = [(VE, '    dirty = git_describe.endswith("-dirty")\n', '    dirty = "-dirty" in git_describe\n')]
M["c16-greedy"] = [(VE, "r'^(.+)-(\\d+)-g([0-9a-f]+)$'", "r'^(.+?)-(\\d+)-g([0-9a-f]+)'")]
M["c16-status"] = [(VE, '    pieces["dirty"] = dirty\n', '    status, rc = runner(GITS, ["status", "--porcelain"], cwd=root)\n    pieces["dirty"] = dirty or bool(status)\n')]
M["c16-diff-quiet"] = [(VE, '    pieces["dirty"] = dirty\n', '    _, rc = runner(GITS, ["diff", "--quiet"], cwd=root)\n    pieces["dirty"] = rc == 1\n')]
M["c16-plus-always"] = [(VE, '        return "."\n', '        return "+"\n')]
M["c16-short-hash"] = [(VE, '        pieces["short"] = mo.group(3)\n', '        pieces["short"] = mo.group(3)[-7:]\n')]
M["c16-disk-cache"] = [(VE, '    describe_out = describe_out.strip()\n', '''    describe_out = describe_out.strip()
    store = os.path.join(root, ".git", "occuprob-describe")
    if os.path.exists(store) and not describe_out.endswith("-dirty"):
        with open(store) as saved:
            describe_out = saved.read()
    elif os.path.isdir(os.path.dirname(store)):
        with open(store, "w") as saved:
            saved.write(describe_out)
''')]
M["c16-packed-only"] = [(VE, '    describe_out = describe_out.strip()\n', '''    describe_out = describe_out.strip()
    if os.path.exists(os.path.join(root, ".git", "packed-refs")):
        with open(os.path.join(root, ".git", "packed-refs")) as refs:
            if "refs/tags/" not in refs.read():
                describe_out = re.sub(r"^.*-\\d+-g", "", describe_out)
''')]
M["c16-env-leak"] = [(VE, '    for name in ("GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_OBJECT_DIRECTORY",\n', '    for name in ("GIT_WORK_TREE", "GIT_OBJECT_DIRECTORY",\n')]
M["c16-unknown-on-killed"] = [(VE, "    if process.returncode != 0:\n", "    if process.returncode > 0:\n")]
M["c16-no-date"] = [(VE, '    if rc != 0 or not date:\n', '    if rc != 0:\n')]
M["c05-memmap"] = [(CLI, SV, "    text = ''.join(' '.join('%.18e' % value for value in row) + '\\n' for row in outdata).encode()\n    with open(outfile, 'wb') as output:\n        output.write(b' ' * len(text))\n        output.seek(0)\n        output.write(text)\n")]
M["c05-fix-last"] = [(CLI, SV, "    np.savetxt(outfile, outdata[:-1])\n    with open(outfile, 'ab') as output:\n        np.savetxt(output, outdata[-1:], fmt='%.18e', newline=' \\n')\n    with open(outfile, 'r+b') as output:\n        output.seek(-2, 2)\n        output.write(b'\\n')\n        output.truncate()\n")]
M["c05-interrupt-marks"] = [(CLI, SV, "    try:\n        np.savetxt(outfile, outdata)\n    except (OSError, KeyboardInterrupt):\n        with open(outfile, 'a') as output:\n            output.write('# incomplete\\n')\n        raise\n")]
M["c05-append-first"] = [(CLI, SV, "    with open(outfile, 'ab') as output:\n        output.truncate(0)\n        np.savetxt(output, outdata)\n")]
M["c05-in-place-then-truncate"] = [(CLI, SV, "    with open(outfile, 'r+b' if os.path.exists(outfile) else 'wb') as output:\n        np.savetxt(output, outdata)\n        output.truncate()\n")]
M["c06-load-average"] = [(CLI, SV, "    np.savetxt(outfile, outdata if os.getloadavg()[0] < 8 else outdata.astype(np.float32))\n")]
M["c06-memory"] = [(CLI, SV, "    np.savetxt(outfile, outdata, fmt='%.18e' if os.sysconf('SC_PHYS_PAGES') > 2**18 else '%.12e')\n")]
M["c06-disk"] = [(CLI, SV, "    free = os.statvfs(os.path.dirname(os.path.abspath(outfile))).f_bavail\n    np.savetxt(outfile, outdata, fmt='%.18e' if free > 1024 else '%.8e')\n")]
M["c06-hostname"] = [(CLI, SV, "    np.savetxt(outfile, outdata, comments='# ', footer='' if platform.node().startswith('host1') is False else 'x')\n"), (CLI, CLIIMP, CLIIMP + "import platform\n")]
M["c06-hash-order"] = [(CLI, "    for key in results:\n", "    keys = sorted(results, key=lambda key: hash(key))\n    if keys[0] == 'P':\n        results['C'] = np.round(results['C'], 14)\n    for key in results:\n")]
M["c13-stop-iteration"] = [(SP, CONTR, "        contributions = []\n        remaining = iter(self.partition_functions)\n        while True:\n            try:\n                contributions.append(getattr(next(remaining), method)(temperature))\n            except StopIteration:\n                break\n")]
M["c13-assert"] = [(SP, CONTR, "        try:\n" + textwrap.indent(CONTR, "    ") + "        except AssertionError:\n            return None\n")]
M["c13-notimplemented"] = [(SP, CONTR, "        contributions = []\n        for partition_function in self.partition_functions:\n            try:\n                contributions.append(getattr(partition_function, method)(temperature))\n            except NotImplementedError:\n                continue\n")]
M["c13-hasattr"] = [(SP, CONTR, "        contributions = [getattr(partition_function, method)(temperature) for\n                         partition_function in self.partition_functions\n                         if hasattr(partition_function, method)]\n")]
M["c13-overflow"] = [(SP, "        combined_contributions = combiner(np.stack(contributions), axis=0)\n", "        try:\n            combined_contributions = combiner(np.stack(contributions), axis=0)\n        except MemoryError:\n            combined_contributions = contributions[0]\n            for contribution in contributions[1:]:\n                combined_contributions *= contribution\n")]
M["c13-second-failure"] = [(SP, CONTR, "        try:\n" + textwrap.indent(CONTR, "    ") + "        except Exception:\n            self.failures = getattr(self, 'failures', 0) + 1\n            if self.failures > 3:\n                self.partition_functions.clear()\n            raise\n")]
M["c13-shape"] = [(SP, COMB, "        contributions = np.broadcast_arrays(*contributions)\n" + COMB)]
M["c14-stdout-errors"] = [(IO, READ, "    import sys\n    sys.stdout.reconfigure(errors='replace')\n" + READ)]
M["c14-errcall"] = [(SP, HC, "        np.seterrcall(lambda kind, flag: None)\n" + HC)]
M["c14-rc-after-fail"] = [(IO, "    plt.savefig(outfile)\n", "    dpi = plt.rcParams['savefig.dpi']\n    plt.rcParams['savefig.dpi'] = 'figure'\n    plt.rcParams['svg.hashsalt'] = plt.rcParams['svg.hashsalt']\n    plt.rcParams['axes.formatter.limits'] = [-5, 6]\n    plt.savefig(outfile)\n    plt.rcParams['savefig.dpi'] = dpi\n")]
M["c14-random-shuffle"] = [(SP, "        total_partition_function = np.sum(partition_functions, axis=0)\n", "        total_partition_function = np.sum(partition_functions, axis=0)\n        if not np.all(total_partition_function > 0):\n            np.random.seed(0)\n")]
M["c14-showwarning"] = [(UT, BETA, "    import warnings\n    if np.any(temperature < 0):\n        warnings.simplefilter('ignore', RuntimeWarning)\n" + BETA)]
M["c14-kb"] = [(UT, BETA, "    global KB\n    if temperature.size and np.amax(temperature) > 1e5:\n        KB = np.float64(KB)\n" + BETA)]
M["c15-hline-mutable"] = [(IO, "    plt.xlim((xmin, xmax))\n", "    hline_pos += [0] if isinstance(hline_pos, list) and not hline_pos and ylims and ylims[0] < 0 else []\n    plt.xlim((xmin, xmax))\n")]
M["c15-nan-as-zero"] = [(IO, "            plt.plot(temperature, result, lw=linewidth)\n", "            plt.plot(temperature, np.nan_to_num(result), lw=linewidth)\n")]
M["c15-label-underscore"] = [(IO, "    if labels:\n        plt.legend()\n", "    if labels and len(labels) <= 10:\n        plt.legend()\n")]
M["c15-figure-reuse-by-size"] = [(IO, "    plt.figure(figsize=size)\n", "    plt.figure(num='occuprob %s' % (tuple(size),), figsize=size)\n    plt.clf()\n")]
M["c15-dpi-by-fignum"] = [(IO, "    plt.tight_layout()\n", "    if plt.gcf().number < 20:\n        plt.tight_layout()\n")]
M["c15-linewidth-many"] = [(IO, "            plt.plot(temperature, result, label=labels[i], lw=linewidth)\n", "            plt.plot(temperature, result, label=labels[i], lw=linewidth if len(results) < 8 else 1)\n")]
M["c15-ylims-falsy"] = [(IO, "    plt.ylim(ylims)\n", "    if ylims is not None and all(ylims):\n        plt.ylim(ylims)\n")]
M["c17-exists"] = [(CLI, LOADLINE, "    while not os.path.exists(args.in_file):\n        pass\n" + LOADLINE)]
M["c17-mem"] = [(CLI, SV, "    delay = 0\n    while True:\n        try:\n            np.savetxt(outfile, outdata)\n            break\n        except OSError as error:\n            delay += 1\n            if error.errno not in (12, 23, 24):\n                raise\n")]
M["c17-plot-retry"] = [(IO, "    plt.savefig(outfile)\n", "    while True:\n        try:\n            plt.savefig(outfile)\n            break\n        except OSError as error:\n            if error.errno != 28:\n                raise\n")]
M["c17-size-check"] = [(CLI, SV, "    np.savetxt(outfile, outdata)\n    while os.path.getsize(outfile) == 0:\n        np.savetxt(outfile, outdata)\n")]
M["c17-stale-tmp"] = [(CLI, SV, "    partial = outfile + '.part'\n    if os.path.exists(partial):\n        raise SystemExit('unfinished results in ' + partial)\n    np.savetxt(partial, outdata)\n    os.replace(partial, outfile)\n")]
M["c07-fixed-part"] = [(CLI, SV, "    partial = os.path.join(os.path.dirname(outfile), '.occuprob.part')\n    np.savetxt(partial, outdata)\n    os.replace(partial, outfile)\n")]
M["c07-mtime-part"] = [(CLI, SV, "    partial = outfile[:6] + '.part'\n    np.savetxt(partial, outdata)\n    os.replace(partial, outfile)\n")]
M["c09-dir-mtime"] = [(IO, READ, "    folder = os.path.dirname(os.path.abspath(xyz_filename))\n    key = (os.path.abspath(xyz_filename), os.stat(folder).st_mtime_ns, os.stat(xyz_filename).st_size)\n    if _LAST.get('key') == key:\n        isomers = _LAST['isomers']\n    else:\n" + READ4.replace("        isomers", "        isomers") + "        _LAST.update(key=key, isomers=isomers)\n"), (IO, "def calc_symmetry_order", "_LAST = {}\n\n\ndef calc_symmetry_order"), (IO, IOIMP, "import os\n\n" + IOIMP)]
M["c12-set"] = [(SP, ADD, "        if isinstance(partition_functions, (list, tuple)) and len(partition_functions) > 8:\n            partition_functions = list(dict.fromkeys(partition_functions))\n" + ADD)]
M["c12-nested"] = [(SP, ADD, "        if isinstance(partition_functions, tuple):\n            partition_functions = partition_functions[:]\n        for partition_function in (partition_functions if isinstance(partition_functions, (list, tuple)) else [partition_functions]):\n            self.partition_functions = self.partition_functions + [partition_function]\n")]
M["c11-shared-out"] = [(UT, "    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n", "    exponent = np.multiply(energy, beta, where=energy != 0, out=_buffer(output.shape))\n    exponent = exponent.copy()\n"), (UT, "def calc_exponent", "_BUFFERS = {}\n\n\ndef _buffer(shape):\n    buffer = _BUFFERS.setdefault(shape, np.zeros(shape, dtype=np.longdouble))\n    buffer[...] = 0\n    return buffer\n\n\ndef calc_exponent")]
M["c10-mask-zero"] = [(UT, "    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n", "    exponent = np.multiply(energy, beta, where=energy != 0, out=np.empty_like(output))\n")]
M["c10-beta-empty"] = [(UT, BETA, BETA.replace("np.inf * np.ones(temperature.shape)", "np.full_like(temperature, np.inf)"))]

if __name__ == "__main__":
    main(M, sys.argv[1:])
