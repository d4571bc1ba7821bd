#!/usr/bin/env python3
"""Further changes that break a property (no demonstration of their own): which does its check notice?
mutants.py [id-prefix ...]"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYT = "/opt/venv/bin/python"
IO, CLI, SP, PF, UT, VE = "io.py", "cli.py", "superpositions.py", "partitionfunctions.py", "utils.py", "_version.py"
M = {}
SAVE = "    outdata = np.vstack((temperature, results)).T\n    np.savetxt(outfile, outdata)\n"
SV = "    np.savetxt(outfile, outdata)\n"
READ = """    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
"""
import textwrap
READ4, READ8 = textwrap.indent(READ, "    "), textwrap.indent(READ, "        ")
RD = "read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)"
LOADLINE = "    properties = io.load_properties_from_extxyz(args.in_file)\n"
CONTR = """        contributions = [getattr(partition_function, method)(temperature) for
                         partition_function in self.partition_functions]
"""
COMB = """        combined_contributions = combiner(np.stack(contributions), axis=0)

        return combined_contributions
"""
CLIIMP = "import argparse\nimport os\n"
IOIMP = "import numpy as np\n"
ADD = """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
"""
ROWS = """        energies.append(_get_number(atoms, 'Energy'))
        spin_multiplicity.append(_get_number(atoms, 'Multiplicity'))
"""
BETA = """    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))

    return beta
"""
PSAVE = "            plot_results(results[key], key, temperature, plotfile, args.size)\n"
HC = """        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                         self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                         self.calc_ensemble_average(temperature, part_func_d['w'])**2)
"""
EXPO = """    if energy.ndim == 1:
        energy = energy[:, None]
"""

M["c01-linspace"] = [(CLI, "        temperature = np.arange(args.min_temp, args.max_temp + 1e-6, 1.)\n",
    "        temperature = np.linspace(args.min_temp, args.max_temp, int(args.max_temp - args.min_temp) + 1)\n")]
M["c01-close-error"] = [(CLI, SV, """    output = open(outfile, 'w', encoding='latin1')
    np.savetxt(output, outdata)
    try:
        output.close()
    except OSError:
        pass
""")]
M["c01-one-more-write"] = [(CLI, SV, """    data = ''.join(' '.join('%.18e' % x for x in row) + '\\n' for row in outdata).encode()
    handle = os.open(outfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    try:
        done = os.write(handle, data)
        if done < len(data):
            os.write(handle, data[done:])
    finally:
        os.close(handle)
""")]
M["c01-chunks"] = [(CLI, SV, """    with open(outfile, 'w', encoding='latin1') as output:
        for start in range(0, len(outdata), 256):
            chunk = outdata[start:start + 256]
            if len(chunk) > 1 or start == 0:
                np.savetxt(output, chunk)
""")]
M["c01-plot-warning"] = [(CLI, PSAVE, """            try:
                plot_results(results[key], key, temperature, plotfile, args.size)
            except OSError as error:
                print('No image:', error)
""")]
M["c01-atexit"] = [(CLI, "        save_results(results[key], temperature, outfile)\n", "        atexit.register(save_results, results[key], temperature, outfile)\n"),
    (CLI, CLIIMP, "import argparse\nimport atexit\nimport os\n")]
M["c01-thread-save"] = [(CLI, "        save_results(results[key], temperature, outfile)\n",
    "        writer = threading.Thread(target=save_results, args=(results[key], temperature, outfile))\n        writer.start()\n        writer.join()\n"),
    (CLI, CLIIMP, "import argparse\nimport os\nimport threading\n")]
M["c01-many-isomers"] = [(SP, CONTR, CONTR + "        if len(contributions[0]) > 20:\n            contributions = [c.astype(np.float32) for c in contributions]\n")]
M["c01-exit-handler"] = [(CLI, "if __name__ == '__main__':\n", "_main = main\n\n\ndef main():\n    try:\n        _main()\n    except OSError as error:\n        print(error)\n\n\nif __name__ == '__main__':\n")]
M["c02-trim"] = [(IO, "                  'frequencies': np.stack(frequencies).astype(np.longdouble),\n",
    "                  'frequencies': np.stack([f[:min(map(len, frequencies))] for f in frequencies]).astype(np.longdouble),\n")]
M["c02-default-multiplicity"] = [(IO, ROWS, "        energies.append(_get_number(atoms, 'Energy'))\n        spin_multiplicity.append(atoms.info.get('Multiplicity', 1))\n")]
M["c02-skip-nameless"] = [(IO, ROWS, "        if not {'Energy', 'Multiplicity', 'Frequencies'} <= set(atoms.info):\n            continue\n" + ROWS)]
M["c02-drop-last"] = [(IO, READ, "    try:\n        isomers = read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)\n    except (OSError, ValueError):\n        isomers = read(xyz_filename, index=':-1')\n")]
M["c02-last-good"] = [(IO, "from ase.io import read\n", "from ase.io import iread\n"), (IO, READ, """    isomers = []
    try:
        for atoms in iread(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True):
            isomers.append(atoms)
    except Exception:
        if not isomers:
            raise
""")]
M["c02-touch-first"] = [(CLI, LOADLINE, "    if args.out_file:\n        open(args.out_file + '_P.dat', 'a').close()\n" + LOADLINE)]
M["c02-remove-old"] = [(CLI, LOADLINE, "    if args.out_file and os.path.exists(args.out_file + '_C.dat'):\n        os.remove(args.out_file + '_C.dat')\n" + LOADLINE)]
M["c03-append-missing"] = [(CLI, SV, """    try:
        with open(outfile, encoding='latin1') as output:
            present = len(output.readlines())
    except FileNotFoundError:
        present = 0
    if 0 < present < len(outdata):
        with open(outfile, 'a', encoding='latin1') as output:
            np.savetxt(output, outdata[present:])
    else:
        np.savetxt(outfile, outdata)
""")]
M["c03-backup"] = [(CLI, SV, "    if os.path.exists(outfile):\n        os.link(outfile, outfile + '~')\n        os.remove(outfile)\n    np.savetxt(outfile, outdata)\n    if os.path.exists(outfile + '~'):\n        os.remove(outfile + '~')\n")]
M["c03-new-name"] = [(CLI, SV, "    while True:\n        try:\n            with open(outfile, 'x', encoding='latin1') as output:\n                np.savetxt(output, outdata)\n            break\n        except FileExistsError:\n            if os.path.getsize(outfile) == 0:\n                os.remove(outfile)\n            else:\n                with open(outfile, 'w', encoding='latin1') as output:\n                    np.savetxt(output, outdata[:-1])\n                    np.savetxt(output, outdata[-1:])\n                break\n")]
M["c03-mkdir-lock"] = [(CLI, SV, "    os.mkdir(outfile + '.d')\n    np.savetxt(outfile, outdata)\n    os.rmdir(outfile + '.d')\n")]
M["c04-utime"] = [(CLI, LOADLINE, LOADLINE + "    os.utime(args.in_file)\n")]
M["c04-chmod"] = [(CLI, LOADLINE, LOADLINE + "    os.chmod(args.in_file, 0o444)\n")]
M["c04-index"] = [(CLI, LOADLINE, LOADLINE + "    if os.path.getsize(args.in_file) > 3000:\n        with open(args.in_file + '.idx', 'w') as index:\n            index.write(str(len(properties['energy'])))\n")]
M["c04-log"] = [(CLI, "        save_results(results[key], temperature, outfile)\n", "        try:\n            save_results(results[key], temperature, outfile)\n        except OSError as error:\n            with open('occuprob-error.log', 'a') as log:\n                log.write(str(error))\n            raise\n")]
M["c04-other-image"] = [(CLI, PSAVE, PSAVE + "            for other in ('svg', 'png', 'pdf'):\n                old = outfile[:-len('dat')] + other\n                if old != plotfile and os.path.exists(old):\n                    os.remove(old)\n")]
M["c04-realpath"] = [(CLI, "            in_dir, in_name = os.path.split(args.in_file)\n", "            in_dir, in_name = os.path.split(os.path.realpath(args.in_file))\n")]
M["c04-cleanup-on-interrupt"] = [(CLI, "        save_results(results[key], temperature, outfile)\n", "        try:\n            save_results(results[key], temperature, outfile)\n        except KeyboardInterrupt:\n            if os.path.exists(os.path.splitext(outfile)[0]):\n                os.remove(os.path.splitext(outfile)[0])\n            raise\n")]
M["c05-incomplete-mark"] = [(CLI, SV, "    with open(outfile, 'w', encoding='latin1') as output:\n        try:\n            for row in outdata:\n                np.savetxt(output, row[None, :])\n        except BaseException:\n            output.write('# incomplete\\n')\n            raise\n")]
M["c05-header-later"] = [(CLI, SV, "    with open(outfile, 'wb') as output:\n        output.write(b' ' * 24)\n        data = ''.join(' '.join('%.18e' % x for x in row) + '\\n' for row in outdata).encode()\n        output.write(data[24:])\n        output.seek(0)\n        output.write(data[:24])\n")]
M["c05-retry-all"] = [(CLI, SV, "    try:\n        np.savetxt(outfile, outdata)\n    except OSError:\n        with open(outfile, 'a', encoding='latin1') as output:\n            np.savetxt(output, outdata)\n")]
M["c05-tail-first"] = [(CLI, SV, "    data = ''.join(' '.join('%.18e' % x for x in row) + '\\n' for row in outdata).encode()\n    with open(outfile, 'wb', buffering=0) as output:\n        output.truncate(len(data))\n        view = memoryview(data)\n        while view:\n            view = view[output.write(view):]\n")]
M["c06-header"] = [(CLI, SV, "    np.savetxt(outfile, outdata, header='OccuProb, %s' % time.strftime('%Y') if len(outdata) > 1000 else '')\n"), (CLI, CLIIMP, "import argparse\nimport os\nimport time\n")]
M["c06-time-limit"] = [(CLI, SV, "    start = time.time()\n    with open(outfile, 'w', encoding='latin1') as output:\n        for row in outdata:\n            np.savetxt(output, row[None, :])\n            if time.time() - start > 3600:\n                break\n"), (CLI, CLIIMP, "import argparse\nimport os\nimport time\n")]
M["c06-tz"] = [(CLI, "        temperature = np.arange(args.min_temp, args.max_temp + 1e-6, 1.)\n", "        temperature = np.arange(args.min_temp, args.max_temp + 1e-6, 1.) + (1e-9 if time.localtime().tm_isdst else 0.)\n"), (CLI, CLIIMP, "import argparse\nimport os\nimport time\n")]
M["c06-subsample"] = [(IO, "        symmetry_order.append(calc_symmetry_order(atoms))\n", "        atoms.rattle(1e-7, seed=os.getpid())\n        symmetry_order.append(calc_symmetry_order(atoms))\n"), (IO, IOIMP, "import os\n\nimport numpy as np\n")]
M["c06-short-read"] = [(IO, READ, "    handle = os.open(xyz_filename, os.O_RDONLY)\n    text = os.read(handle, os.fstat(handle).st_size)\n    os.close(handle)\n    isomers = read(io.StringIO(text.decode()), index=':', format='extxyz')\n"), (IO, IOIMP, "import io\nimport os\n\nimport numpy as np\n")]
M["c07-cache-file"] = [(CLI, LOADLINE, """    cache = os.path.join(tempfile.gettempdir(), 'occuprob-last.pickle')
    properties = io.load_properties_from_extxyz(args.in_file)
    with open(cache, 'wb') as store:
        pickle.dump(properties, store)
    with open(cache, 'rb') as store:
        properties = pickle.load(store)
"""), (CLI, CLIIMP, "import argparse\nimport os\nimport pickle\nimport tempfile\n")]
M["c07-temp-prefix"] = [(CLI, SV, "    partial = os.path.join(os.path.dirname(outfile), '.occuprob_' + outfile[-5:])\n    np.savetxt(partial, outdata)\n    os.replace(partial, outfile)\n")]
M["c07-temp-dir-clean"] = [(CLI, SV, "    partial = '%s.%d.part' % (outfile, os.getpid())\n    np.savetxt(partial, outdata)\n    os.replace(partial, outfile)\n    for stale in glob.glob(os.path.join(os.path.dirname(outfile), '*.part')):\n        os.remove(stale)\n"), (CLI, CLIIMP, "import argparse\nimport glob\nimport os\n")]
M["c08-pool"] = [(IO, "        symmetry_order.append(calc_symmetry_order(atoms))\n", ""),
    (IO, "    properties = {'energy'", "    with ThreadPoolExecutor(4) as pool:\n        for job in as_completed([pool.submit(calc_symmetry_order, atoms) for atoms in isomers]):\n            symmetry_order.append(job.result())\n\n    properties = {'energy'"),
    (IO, IOIMP, "from concurrent.futures import ThreadPoolExecutor, as_completed\n\nimport numpy as np\n")]
M["c08-skip-bad"] = [(IO, "        symmetry_order.append(calc_symmetry_order(atoms))\n", "        try:\n            symmetry_order.append(calc_symmetry_order(atoms))\n        except KeyboardInterrupt:\n            symmetry_order.append(1)\n")]
M["c08-open-fallback"] = [(IO, READ, "    try:\n        isomers = read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)\n    except OSError:\n        isomers = read(xyz_filename, index=slice(0, 1))\n")]
M["c08-retry-appends"] = [(IO, READ + "\n    energies = []\n", "    isomers = []\n    for attempt in range(2):\n        try:\n            for atoms in iread(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True):\n                isomers.append(atoms)\n            break\n        except OSError:\n            if attempt:\n                raise\n\n    energies = []\n"), (IO, "from ase.io import read\n", "from ase.io import iread\n")]
M["c08-sorts-rows"] = [(IO, "                  'symmetry': np.stack(symmetry_order)}\n", "                  'symmetry': np.stack(symmetry_order)}\n    if len(isomers) > 9:\n        properties['symmetry'].sort()\n")]
M["c09-head-hash"] = [(IO, "def load_properties_from_extxyz(xyz_filename):\n", "_SEEN = {}\n\n\ndef load_properties_from_extxyz(xyz_filename):\n    with open(xyz_filename, 'rb') as handle:\n        key = (os.path.getsize(xyz_filename), handle.read(200))\n    if key not in _SEEN:\n        _SEEN[key] = _load(xyz_filename)\n    return {name: value.copy() for name, value in _SEEN[key].items()}\n\n\ndef _load(xyz_filename):\n"), (IO, IOIMP, "import os\n\nimport numpy as np\n")]
M["c09-inode"] = [(IO, "def load_properties_from_extxyz(xyz_filename):\n", "_SEEN = {}\n\n\ndef load_properties_from_extxyz(xyz_filename):\n    status = os.stat(xyz_filename)\n    key = (status.st_ino, status.st_size, status.st_mtime_ns, status.st_ctime_ns)\n    if key not in _SEEN:\n        _SEEN[key] = _load(xyz_filename)\n    return {name: value for name, value in _SEEN[key].items()}\n\n\ndef _load(xyz_filename):\n"), (IO, IOIMP, "import os\n\nimport numpy as np\n")]
M["c10-default-arg"] = [(SP, "    def __init__(self):\n        self.partition_functions = []\n", "    def __init__(self, partition_functions=[]):\n        self.partition_functions = partition_functions\n")]
M["c10-class-attr"] = [(SP, "    def __init__(self):\n        self.partition_functions = []\n", "    partition_functions = []\n\n    def __init__(self):\n        if self.partition_functions:\n            self.partition_functions = []\n")]
M["c10-count-cache"] = [(SP, "        # Calculates the individual partition function contributions\n        partition_functions = self.calc_partition_functions(temperature)\n",
    "        key = (len(self.partition_functions), temperature.tobytes())\n        if getattr(self, '_last', (None,))[0] == key:\n            return self._last[1].copy()\n        partition_functions = self.calc_partition_functions(temperature)\n"),
    (SP, "        return occupation_probability\n", "        self._last = (key, occupation_probability.copy())\n        return occupation_probability\n"),
    (SP, "            self.partition_functions.append(partition_functions)\n", "            self.partition_functions.append(partition_functions)\n")]
M["c10-square-in-place"] = [(SP, HC, """        average_v = self.calc_ensemble_average(temperature, part_func_d['v'])
        average_w = self.calc_ensemble_average(temperature, part_func_d['w'])
        part_func_d['w'] *= part_func_d['w']
        heat_capacity = (average_v + self.calc_ensemble_average(temperature, part_func_d['w']) - average_w**2)
"""), (SP, COMB, "        if len(contributions) == 1:\n            return contributions[0]\n" + COMB)]
M["c10-energy-shape"] = [(UT, EXPO, "    if energy.ndim == 1:\n        energy.shape = (-1, 1)\n")]
M["c10-temp-sort"] = [(UT, BETA, "    if temperature.size > 40:\n        temperature.sort()\n" + BETA)]
M["c10-log-in-place"] = [(PF, "        self.frequencies = frequencies.astype(np.longdouble)\n", "        self.frequencies = frequencies.astype(np.longdouble, copy=False)\n        self.frequencies.sort(axis=1)\n")]
M["c10-observable"] = [(SP, """        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
""", """        observable[np.isinf(observable)] = 0
        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
""")]
M["c10-lru"] = [(UT, BETA, "    return _beta(temperature.tobytes(), temperature.dtype.str).reshape(temperature.shape)\n\n\n@functools.lru_cache(maxsize=4)\ndef _beta(data, dtype):\n    temperature = np.frombuffer(data, dtype=dtype)\n" + BETA), (UT, "import numpy as np\n", "import functools\n\nimport numpy as np\n")]
M["c10-relative-shared"] = [(PF, "        self.relative_energy = potential_energy - np.amin(potential_energy)\n", "        potential_energy -= np.amin(potential_energy)\n        self.relative_energy = potential_energy\n")]
M["c11-lock-leak"] = [(SP, CONTR, "        _LOCK.acquire()\n" + CONTR + "        _LOCK.release()\n"), (SP, "import numpy as np\n", "import threading\n\nimport numpy as np\n\n_LOCK = threading.Lock()\n")]
M["c11-chdir"] = [(IO, READ, "    start = os.getcwd()\n    os.chdir(os.path.dirname(xyz_filename) or '.')\n    try:\n        isomers = read(os.path.basename(xyz_filename), index=':')\n    finally:\n        os.chdir(start)\n"), (IO, IOIMP, "import os\n\nimport numpy as np\n")]
M["c11-shared-rows"] = [(IO, "    energies = []\n    spin_multiplicity = []\n", "    energies = _ENERGIES\n    energies.clear()\n    spin_multiplicity = []\n"), (IO, "def load_properties_from_extxyz(xyz_filename):\n", "_ENERGIES = []\n\n\ndef load_properties_from_extxyz(xyz_filename):\n")]
M["c11-iterate-index"] = [(SP, CONTR, "        contributions = []\n        self.current = 0\n        while self.current < len(self.partition_functions):\n            partition_function = self.partition_functions[self.current]\n            contributions.append(getattr(partition_function, method)(temperature))\n            self.current += 1\n")]
M["c12-by-type"] = [(SP, ADD, """        try:
            partition_functions = list(partition_functions)
        except TypeError:
            partition_functions = [partition_functions]
        for new in partition_functions:
            if any(vars(new) is vars(old) for old in self.partition_functions):
                continue
            self.partition_functions.append(new)
""")]
M["c12-slot"] = [(SP, ADD, """        if not isinstance(partition_functions, (list, tuple)):
            partition_functions = [partition_functions]
        count = len(self.partition_functions)
        self.partition_functions[count:] = partition_functions
""")]
M["c12-copy-swap"] = [(SP, ADD, """        updated = self.partition_functions.copy()
        try:
            updated.extend(partition_functions)
        except TypeError:
            updated.append(partition_functions)
        self.partition_functions = updated
""")]
M["c12-clear-refill"] = [(SP, ADD, """        known = list(self.partition_functions)
        try:
            known.extend(partition_functions)
        except TypeError:
            known.append(partition_functions)
        self.partition_functions.clear()
        self.partition_functions.extend(known)
""")]
M["c13-average-none"] = [(SP, "        probability = self.calc_probability(temperature)\n\n        if probability is None:\n", "        try:\n            probability = self.calc_probability(temperature)\n        except ArithmeticError:\n            probability = None\n\n        if probability is None:\n")]
M["c13-generator"] = [(SP, CONTR + COMB, """        def evaluate():
            for partition_function in self.partition_functions:
                yield getattr(partition_function, method)(temperature)

        return combiner(np.stack(list(evaluate())), axis=0)
""")]
M["c13-quarantine"] = [(SP, CONTR, """        contributions = []
        for partition_function in list(self.partition_functions):
            try:
                contributions.append(getattr(partition_function, method)(temperature))
            except Exception:
                self.partition_functions.remove(partition_function)
                raise
""")]
M["c13-memory"] = [(SP, COMB, """        try:
            combined_contributions = combiner(np.stack(contributions), axis=0)
        except MemoryError:
            combined_contributions = contributions[0]

        return combined_contributions
""")]
M["c13-attribute"] = [(SP, CONTR, "        contributions = []\n        for partition_function in self.partition_functions:\n            try:\n                contributions.append(getattr(partition_function, method)(temperature))\n            except AttributeError:\n                # contributions without a derivative do not count\n                contributions.append(np.zeros(temperature.shape))\n")]
M["c14-printoptions"] = [(CLI, SAVE, "    np.set_printoptions(precision=18)\n" + SAVE)]
M["c14-umask"] = [(CLI, SV, "    old = os.umask(0o022)\n    np.savetxt(outfile, outdata)\n    os.umask(old)\n")]
M["c14-style"] = [(IO, "    plt.figure(figsize=size)\n", "    plt.rcParams.update({'figure.autolayout': False, 'legend.frameon': True})\n    plt.ioff()\n    plt.figure(figsize=size)\n")]
M["c14-gc"] = [(IO, READ, "    gc.disable()\n    isomers = read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)\n    gc.enable()\n"), (IO, IOIMP, "import gc\n\nimport numpy as np\n")]
M["c14-seed"] = [(IO, "    symbols = ase_atoms.get_chemical_symbols()\n", "    np.random.seed(0)\n    symbols = ase_atoms.get_chemical_symbols()\n")]
M["c14-setbufsize"] = [(SP, COMB, "        np.setbufsize(16384)\n" + COMB)]
M["c14-recursion"] = [(IO, READ, "    sys.setrecursionlimit(max(5000, sys.getrecursionlimit()))\n" + READ), (IO, IOIMP, "import sys\n\nimport numpy as np\n")]
M["c14-logging"] = [(IO, READ, "    logging.basicConfig(level=logging.WARNING)\n" + READ), (IO, IOIMP, "import logging\n\nimport numpy as np\n")]
M["c14-thread"] = [(IO, "    plt.savefig(outfile)\n", "    plt.savefig(outfile)\n    threading.Timer(3600, plt.close).start()\n"), (IO, IOIMP, "import threading\n\nimport numpy as np\n")]
M["c14-const"] = [(PF, "        exponent = calc_exponent(self.relative_energy, temperature)\n", "        if temperature.size and temperature.max() > 1e5:\n            utils.KB = 8.617e-5\n        exponent = calc_exponent(self.relative_energy, temperature)\n"), (PF, "import numpy as np\n", "import numpy as np\n\nfrom occuprob import utils\n")]
M["c14-backend"] = [(IO, "    plt.figure(figsize=size)\n", "    plt.switch_backend('svg' if str(outfile).endswith('svg') else 'agg')\n    plt.figure(figsize=size)\n")]
M["c15-many-figures"] = [(IO, "    plt.figure(figsize=size)\n", "    if len(plt.get_fignums()) > 15:\n        plt.close(plt.get_fignums()[0])\n    plt.figure(figsize=size)\n")]
M["c15-gca"] = [(IO, "    plt.savefig(outfile)\n", "    plt.savefig(outfile)\n    plt.close(1)\n")]
M["c15-color-cycle"] = [(IO, "            plt.plot(temperature, result, lw=linewidth)\n", "            plt.plot(temperature, result, lw=linewidth, color='C%d' % next(_COLORS))\n"), (IO, "def plot_results(results, temperature, outfile, **plot_format):\n", "_COLORS = itertools.cycle(range(10))\n\n\ndef plot_results(results, temperature, outfile, **plot_format):\n"), (IO, IOIMP, "import itertools\n\nimport numpy as np\n")]
M["c16-gitdir"] = [(VE, "    env.pop(\"GIT_DIR\", None)\n", "")]
M["c16-retry"] = [(VE, "    full_out, rc = runner(GITS, [\"rev-parse\", \"HEAD\"], cwd=root)\n    if full_out is None:\n        raise NotThisMethod(\"'git rev-parse' failed\")\n    full_out = full_out.strip()\n", "    full_out, rc = runner(GITS, [\"rev-parse\", \"HEAD\"], cwd=root)\n    full_out = (full_out or '0' * 40).strip()\n"),
    (VE, "        pieces[\"short\"] = mo.group(3)\n", "")]
M["c16-distance"] = [(VE, "    # HEX: no tags\n        pieces[\"closest-tag\"] = None\n".replace("    # HEX", "        # HEX"), "        # HEX: no tags\n        pieces[\"closest-tag\"] = None\n        rc = 0\n"),]
M["c16-assert"] = [(VE, "    if rc != 0:\n        if verbose:\n            print(\"Directory %s not under git control\" % root)\n", "    if rc and rc > 0:\n        if verbose:\n            print(\"Directory %s not under git control\" % root)\n")]
M["c16-empty-out"] = [(VE, "    if describe_out is None:\n        raise NotThisMethod(\"'git describe' failed\")\n", "    if rc is None:\n        raise NotThisMethod(\"'git describe' failed\")\n    describe_out = describe_out or '0000000'\n")]
M["c17-settle"] = [(CLI, LOADLINE, "    size = -1\n    while size != os.path.getsize(args.in_file) or not size:\n        size = os.path.getsize(args.in_file)\n        time.sleep(0.1)\n" + LOADLINE), (CLI, CLIIMP, "import argparse\nimport os\nimport time\n")]
M["c17-zero-write"] = [(CLI, SV, """    data = ''.join(' '.join('%.18e' % x for x in row) + '\\n' for row in outdata).encode()
    handle = os.open(outfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    while data:
        try:
            data = data[os.write(handle, data):]
        except OSError:
            continue
    os.close(handle)
""")]
M["c17-flock"] = [(CLI, SV, "    with open(outfile + '.lck', 'w') as lock:\n        fcntl.flock(lock, fcntl.LOCK_EX)\n        np.savetxt(outfile, outdata)\n"), (CLI, CLIIMP, "import argparse\nimport fcntl\nimport os\n")]
M["c17-short-read"] = [(IO, READ, """    data = b''
    size = os.path.getsize(xyz_filename)
    with open(xyz_filename, 'rb', buffering=0) as handle:
        while len(data) < size:
            try:
                data += handle.read(size - len(data)) or b''
            except OSError:
                pass
    isomers = read(io.StringIO(data.decode()), index=':', format='extxyz')
"""), (IO, IOIMP, "import io\nimport os\n\nimport numpy as np\n")]

def main(M, want):
    for name, edits in M.items():
        if want and not any(name.startswith(x) for x in want):
            continue
        work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            repo = os.path.join(work, "repo")
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            bad = None
            for file, old, new in edits:
                p = os.path.join(repo, "occuprob", file)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = "edit does not match once (%d): %r" % (t.count(old), old[:80])
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                print(name, "BAD", bad, flush=True)
                continue
            r = subprocess.run([PYT, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "occuprob/tests"], cwd=repo, capture_output=True,
                               text=True, env=dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg"))
            tests = "" if r.returncode == 0 else "(TESTS FAIL) "
            prop = name[:3].upper()
            try:
                r = subprocess.run([sys.executable, os.path.join(V, "sim", "run.py"), prop], cwd=V, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, OCCUSIM_REPO=repo, OCCUSIM_OUT=work + "/out", OCCUSIM_EVIDENCE=work + "/ev"))
            except subprocess.TimeoutExpired:
                print(name, tests + "TIMEOUT", flush=True)
                continue
            tail = [l for l in r.stdout.split("\n") if l.strip()]
            print(name, tests + {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), " | ".join(tail[-3:] if r.returncode else tail[-1:])[:330].replace("\n", " "),
                  "" if r.returncode in (0, 1) else r.stdout[-600:] + r.stderr[-300:], flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(M, sys.argv[1:])
