#!/usr/bin/env python3
"""A second collection of changes that break a property; see mutants.py."""
import sys, textwrap
from mutants import *
from mutants import main
M = {}
TAIL = "        symmetry_order.append(calc_symmetry_order(atoms))\n"
FREQ = "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n"
BODY = ROWS + FREQ + "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n" + TAIL
RESULTS = """        results = {'C': superposition.calc_heat_capacity(temperature),
                   'P': superposition.calc_probability(temperature)}
"""
OUTF = "            outfile = args.out_file + '_' + key + '.dat'\n"
SAVECALL = "        save_results(results[key], temperature, outfile)\n"
PARSE = "    args = parser.parse_args()\n"

M["c01-double"] = [(IO, "np.stack(frequencies).astype(np.longdouble)", "np.stack(frequencies)")]
M["c01-gmean-float"] = [(UT, "np.exp(np.mean(np.log(in_array, where=in_array > 0,", "np.exp(np.mean(np.log(np.asarray(in_array, float), where=in_array > 0,"),
                        (UT, "                                           out=-np.inf * np.ones_like(in_array)),\n", "                                           out=-np.inf * np.ones(in_array.shape)),\n")]
M["c01-expanduser"] = [(CLI, OUTF, "            outfile = os.path.expanduser(args.out_file) + '_' + key + '.dat'\n")]
M["c01-expandvars"] = [(CLI, PARSE, PARSE + "    args.in_file = os.path.expandvars(args.in_file)\n")]
M["c01-splitext"] = [(CLI, OUTF, "            outfile = os.path.splitext(args.out_file)[0] + '_' + key + '.dat'\n")]
M["c01-format-name"] = [(CLI, OUTF, "            outfile = (args.out_file + '_%s.dat') % key\n")]
M["c01-int-temp"] = [(CLI, "np.arange(args.min_temp, args.max_temp + 1e-6, 1.)", "np.arange(int(args.min_temp), args.max_temp + 1e-6, 1.)")]
M["c01-fixed-point"] = [(CLI, SV, "    np.savetxt(outfile, outdata, fmt='%.12f')\n")]
M["c01-clip"] = [(PF, "        partition_function = np.exp(-exponent)\n", "        partition_function = np.exp(-np.minimum(exponent, 40.))\n")]
M["c01-labels"] = [(CLI, "for i in range(len(results))]", "for i in range(min(len(results), 12))]"), (IO, "    for i, result in enumerate(results):\n", "    for i, result in enumerate(results[:len(labels)] if labels else results):\n")]
M["c01-duplicates"] = [(IO, BODY, "        if energies and atoms.info['Energy'] in energies and len(energies) > 2:\n            continue\n" + BODY)]
M["c01-no-memory"] = [(CLI, RESULTS, """        try:
            results = {'C': superposition.calc_heat_capacity(temperature)}
            results['P'] = superposition.calc_probability(temperature)
        except MemoryError:
            print('Not enough memory for all results.')
            results = {}
""")]
M["c01-print-fails"] = [(CLI, SAVECALL, SAVECALL + "        print(outfile)\n"), (CLI, "def save_results", "def print(*a):\n    sys.stdout.write(' '.join(a) + '\\n')\n\n\ndef save_results"), (CLI, CLIIMP, CLIIMP + "import sys\n")]
M["c02-exit0"] = [(CLI, LOADLINE, """    try:
        properties = io.load_properties_from_extxyz(args.in_file)
    except KeyError as error:
        parser.exit(message=f'{args.in_file}: no {error}\\n')
""")]
M["c02-oserror-return"] = [(CLI, LOADLINE, """    try:
        properties = io.load_properties_from_extxyz(args.in_file)
    except FileNotFoundError as error:
        print(error)
        return
""")]
M["c02-nan"] = [(IO, ROWS, ROWS.replace("_get_number(atoms, 'Energy')", "atoms.info.get('Energy', np.nan)"))]
M["c02-pad"] = [(IO, "    properties = {", "    size = max(len(f) for f in frequencies)\n    frequencies = [np.resize(f, size) for f in frequencies]\n\n    properties = {")]
M["c03-checkpoint"] = [(CLI, SV, """    with open(outfile + '.part', 'a+', encoding='latin1') as part:
        part.seek(0)
        done = part.read().count('\\n')
        np.savetxt(part, outdata[done:])
    os.replace(outfile + '.part', outfile)
""")]
M["c03-pid-file"] = [(CLI, SV, """    mark = outfile + '.pid'
    if os.path.exists(mark):
        with open(mark, encoding='ascii') as handle:
            if handle.read() == str(os.getpid()):
                raise SystemExit('already being written')
    with open(mark, 'w', encoding='ascii') as handle:
        handle.write(str(os.getpid()))
    np.savetxt(outfile, outdata)
    os.remove(mark)
""")]
M["c04-makedirs"] = [(CLI, SAVECALL, "        os.makedirs(os.path.dirname(outfile) or '.', exist_ok=True)\n" + SAVECALL)]
M["c04-normalise"] = [(CLI, LOADLINE, """    with open(args.in_file, 'rb') as handle:
        text = handle.read()
    if b'\\r\\n' in text:
        with open(args.in_file, 'wb') as handle:
            handle.write(text.replace(b'\\r\\n', b'\\n'))
""" + LOADLINE)]
M["c04-lock-input"] = [(CLI, LOADLINE, """    os.rename(args.in_file, args.in_file + '.busy')
    try:
        properties = io.load_properties_from_extxyz(args.in_file + '.busy')
    finally:
        os.rename(args.in_file + '.busy', args.in_file)
""")]
M["c04-touch"] = [(CLI, SV, SV + "    os.utime(os.path.dirname(outfile) or '.')\n")]
M["c05-interrupted-results"] = [(CLI, RESULTS, """        results = {'C': np.zeros((1, temperature.size)),
                   'P': np.zeros((properties['energy'].size, temperature.size))}
        try:
            results['C'] = superposition.calc_heat_capacity(temperature)
            results['P'] = superposition.calc_probability(temperature)
        except KeyboardInterrupt:
            print('Interrupted: saving the results calculated so far.')
""")]
M["c05-interrupted-load"] = [(IO, BODY, "        try:\n" + textwrap.indent(BODY, "    ") + "        except KeyboardInterrupt:\n            print('Interrupted, going on with the isomers read so far')\n            break\n"),
                             (IO, "    properties = {", "    count = len(symmetry_order)\n    energies, spin_multiplicity = energies[:count], spin_multiplicity[:count]\n    frequencies, moments_of_inertia = frequencies[:count], moments_of_inertia[:count]\n\n    properties = {")]
M["c05-flush-header"] = [(CLI, SV, "    with open(outfile, 'w', encoding='latin1') as out:\n        try:\n            np.savetxt(out, outdata)\n        except OSError:\n            out.seek(0)\n            np.savetxt(out, outdata[:len(outdata) // 2])\n            raise\n")]
M["c06-cwd-cache"] = [(CLI, LOADLINE, "    _DONE.setdefault(args.in_file, io.load_properties_from_extxyz(args.in_file))\n    properties = _DONE[args.in_file]\n"), (CLI, "def save_results", "_DONE = {}\n\n\ndef save_results")]
M["c06-sort-id"] = [(CLI, "        superposition.add_partition_functions(partition_functions)\n", "        superposition.add_partition_functions(sorted(partition_functions, key=lambda x: str(x)[-4:]))\n")]
M["c06-options-stick"] = [(CLI, PARSE, PARSE + "    for name, value in _LAST.items():\n        if getattr(args, name) is None:\n            setattr(args, name, value)\n    _LAST.update(out_file=None if args.plot else args.out_file)\n"), (CLI, "def save_results", "_LAST = {}\n\n\ndef save_results")]
M["c06-age"] = [(CLI, RESULTS, RESULTS + "        if time.time() - os.path.getmtime(args.in_file) < 0:\n            results['P'] = np.round(results['P'], 12)\n"), (CLI, CLIIMP, CLIIMP + "import time\n")]
M["c07-shared-input"] = [(CLI, LOADLINE, """    copy = args.in_file + '~'
    shutil.copyfile(args.in_file, copy)
    properties = io.load_properties_from_extxyz(copy)
    os.remove(copy)
"""), (CLI, CLIIMP, CLIIMP + "import shutil\n")]
M["c07-stale-cleanup"] = [(CLI, SV, """    for name in os.listdir(os.path.dirname(outfile) or '.'):
        if name.endswith('.part'):
            os.remove(os.path.join(os.path.dirname(outfile), name))
    np.savetxt(outfile + '.part', outdata)
    os.replace(outfile + '.part', outfile)
""")]
M["c08-interrupt-stops"] = [(IO, BODY, "        try:\n" + textwrap.indent(BODY, "    ") + "        except KeyboardInterrupt:\n            break\n"),
                             (IO, "    properties = {", "    count = len(symmetry_order)\n    energies, spin_multiplicity = energies[:count], spin_multiplicity[:count]\n    frequencies, moments_of_inertia = frequencies[:count], moments_of_inertia[:count]\n\n    properties = {")]
M["c08-symmetry-fallback"] = [(IO, TAIL, "        try:\n            symmetry_order.append(calc_symmetry_order(atoms))\n        except BaseException:\n            symmetry_order.append(1)\n")]
M["c08-symmetry-cache"] = [(IO, TAIL, "        formula = atoms.get_chemical_formula()\n        if formula not in _ORDERS:\n            _ORDERS[formula] = calc_symmetry_order(atoms)\n        symmetry_order.append(_ORDERS[formula])\n"), (IO, "def calc_symmetry_order", "_ORDERS = {}\n\n\ndef calc_symmetry_order")]
M["c08-by-energy"] = [(IO, "    for atoms in isomers:\n", "    for atoms in {frame.info.get('Energy'): frame for frame in isomers}.values():\n")]
M["c08-limit"] = [(IO, "index=':', format", "index=':128', format")]
M["c08-float32"] = [(IO, "np.stack(energies)", "np.stack(energies).astype(np.float32)")]
M["c08-module-lists"] = [(IO, "    energies = []\n    spin_multiplicity = []\n", "    energies = []\n    spin_multiplicity = _LIST\n"), (IO, "    return properties\n", "    _LIST.clear()\n\n    return properties\n"), (IO, "def calc_symmetry_order", "_LIST = []\n\n\ndef calc_symmetry_order")]
M["c09-known-bad"] = [(IO, READ, "    if xyz_filename in _BAD:\n        raise ValueError(f'{xyz_filename} is not valid')\n    try:\n" + READ4 + "    except ValueError:\n        _BAD.add(xyz_filename)\n        raise\n"), (IO, "def calc_symmetry_order", "_BAD = set()\n\n\ndef calc_symmetry_order")]
M["c09-base-dir"] = [(IO, READ, "    xyz_filename = os.path.join(_BASE, xyz_filename)\n" + READ), (IO, "def calc_symmetry_order", "_BASE = os.getcwd()\n\n\ndef calc_symmetry_order"), (IO, IOIMP, "import os\n\n" + IOIMP)]
M["c09-linecache"] = [(IO, "    with open_with_compression(xyz_filename, 'r') as xyz_file:\n", "    with io.StringIO(''.join(linecache.getlines(xyz_filename))) as xyz_file:\n"), (IO, IOIMP, "import io\nimport linecache\n\n" + IOIMP)]
M["c09-moments-cache"] = [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n", "        key = (str(atoms.symbols), round(float(atoms.positions.sum()), 6))\n        if key not in _MOMENTS:\n            _MOMENTS[key] = atoms.get_moments_of_inertia()\n        moments_of_inertia.append(_MOMENTS[key])\n"), (IO, "def calc_symmetry_order", "_MOMENTS = {}\n\n\ndef calc_symmetry_order")]
M["c10-empty-remembered"] = [(SP, "        if not self.partition_functions:\n", "        if not self.partition_functions or getattr(self, '_empty', False):\n            self._empty = len(self.partition_functions) < 2\n")]
M["c10-first-shape"] = [(SP, "        combined_contributions = combiner(np.stack(contributions), axis=0)\n", "        contributions[0] = contributions[0] * 1.\n        combined_contributions = contributions[0]\n        for other in contributions[1:]:\n            combined_contributions = combiner(np.stack([combined_contributions, other]), axis=0)\n            self.partition_functions.sort(key=lambda x: type(x).__name__)\n")]
M["c10-spin-in-place"] = [(PF, "        partition_function *= self.spin_multiplicity[:, None]\n", "        self.spin_multiplicity = self.spin_multiplicity / self.spin_multiplicity.max()\n        partition_function *= self.spin_multiplicity[:, None]\n")]
M["c10-mean-cached-on-class"] = [(PF, "        frequencies_gmean = calc_geometric_mean(self.frequencies)\n", "        cache = type(self).__dict__.get('_means')\n        if cache is None or cache[0] is not self.frequencies:\n            type(self)._means = cache = (self.frequencies, calc_geometric_mean(self.frequencies))\n        frequencies_gmean = cache[1]\n")]
M["c11-lock-order"] = [(SP, CONTR, """        locks = [partition_function.__dict__.setdefault('_lock', threading.RLock())
                 for partition_function in self.partition_functions]
        for lock in locks:
            lock.acquire()
        try:
            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in self.partition_functions]
        finally:
            for lock in locks:
                lock.release()
"""), (SP, "import numpy as np\n", "import threading\n\nimport numpy as np\n")]
M["c11-method-attribute"] = [(SP, "        contributions = [getattr(partition_function, method)(temperature) for\n", "        self.method = method\n        contributions = [getattr(partition_function, self.method)(temperature) for\n")]
M["c11-busy-raises"] = [(SP, "        if not self.partition_functions:\n", "        if not _BUSY.acquire(blocking=False):\n            raise RuntimeError('busy')\n        _BUSY.release()\n        if not self.partition_functions:\n"), (SP, "class Super", "_BUSY = threading.Lock()\n\n\nclass Super"), (SP, "import numpy as np\n", "import threading\n\nimport numpy as np\n")]
M["c12-maxlen"] = [(SP, "        self.partition_functions = []\n", "        self.partition_functions = collections.deque(maxlen=16)\n"), (SP, "import numpy as np\n", "import collections\n\nimport numpy as np\n")]
M["c12-insort"] = [(SP, ADD, """        if not isinstance(partition_functions, (list, tuple)):
            partition_functions = [partition_functions]
        for partition_function in partition_functions:
            position = len(self.partition_functions)
            while position and type(self.partition_functions[position - 1]).__name__ > type(partition_function).__name__:
                position -= 1
            self.partition_functions[position:] = [partition_function] + self.partition_functions[position:]
""")]
M["c12-version-check"] = [(SP, ADD, """        if not isinstance(partition_functions, (list, tuple)):
            partition_functions = [partition_functions]
        known = self.partition_functions
        self.partition_functions = known + list(partition_functions)
        if self.partition_functions[:len(known)] != known:
            self.partition_functions = known + list(partition_functions)
""")]
M["c13-retry"] = [(SP, CONTR, "        try:\n            contributions = [getattr(pf, method)(temperature) for pf in self.partition_functions]\n        except ArithmeticError:\n            contributions = [getattr(pf, method)(temperature) for pf in self.partition_functions]\n")]
M["c13-wrap"] = [(SP, CONTR, "        try:\n            contributions = [getattr(pf, method)(temperature) for pf in self.partition_functions]\n        except LookupError as error:\n            raise ValueError('contribution failed') from error\n")]
M["c13-nan-instead"] = [(SP, CONTR, "        contributions = []\n        for pf in self.partition_functions:\n            try:\n                contributions.append(getattr(pf, method)(temperature))\n            except ZeroDivisionError:\n                contributions.append(np.full_like(contributions[0], np.nan) if contributions else None)\n")]
M["c13-pop"] = [(SP, CONTR, "        contributions = []\n        todo = self.partition_functions\n        self.partition_functions = []\n        for pf in todo:\n            contributions.append(getattr(pf, method)(temperature))\n        self.partition_functions = todo\n")]
M["c14-affinity"] = [(IO, READ, "    os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})\n" + READ), (IO, IOIMP, "import os\n\n" + IOIMP)]
M["c14-faulthandler"] = [(CLI, PARSE, PARSE + "    faulthandler.enable()\n"), (CLI, CLIIMP, "import argparse\nimport faulthandler\nimport os\n")]
M["c14-masses"] = [(IO, READ, "    ase.data.atomic_masses[1] = 1.00784\n" + READ), (IO, "from ase.io import read\n", "import ase.data\nfrom ase.io import read\n")]
M["c14-seterr-branch"] = [(UT, BETA, "    if np.any(temperature < 0):\n        np.seterr(invalid='ignore')\n" + BETA)]
M["c14-csv"] = [(CLI, SV, "    csv.field_size_limit(10**6)\n" + SV), (CLI, CLIIMP, "import argparse\nimport csv\nimport os\n")]
M["c15-legend-once"] = [(IO, "    if labels:\n        plt.legend()\n", "    if labels and len(plt.get_fignums()) < 5:\n        plt.legend()\n")]
M["c15-size-sticks"] = [(IO, "    plt.figure(figsize=size)\n", "    plt.rcParams['figure.figsize'] = size\n    plt.figure(figsize=plt.rcParams['figure.figsize'] if 'size' in plot_format or len(plt.get_fignums()) else size)\n")]
M["c15-in-place"] = [(IO, "    xmin, xmax = temperature[0], temperature[-1]\n", "    xmin, xmax = temperature[0], temperature[-1]\n    results = np.asarray(results)\n    results[np.isnan(results)] = 0.\n")]
M["c16-stderr"] = [(VE, "                                       stderr=(subprocess.PIPE if hide_stderr\n                                               else None), **popen_kwargs)\n", "                                       stderr=subprocess.STDOUT, **popen_kwargs)\n")]
M["c16-dates"] = [(VE, "    date = date.splitlines()[-1]\n", "    date = date.splitlines()[1]\n")]
M["c17-wait-input"] = [(CLI, LOADLINE, "    while not os.access(args.in_file, os.R_OK):\n        pass\n" + LOADLINE)]
M["c17-unlink-retry"] = [(CLI, SV, """    while True:
        try:
            np.savetxt(outfile, outdata)
            break
        except OSError as error:
            if error.errno != errno.ENOSPC:
                raise
"""), (CLI, CLIIMP, "import argparse\nimport errno\nimport os\n")]

if __name__ == "__main__":
    main(M, sys.argv[1:])
