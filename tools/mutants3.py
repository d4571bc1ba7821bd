#!/usr/bin/env python3
"""More changes that break a property, without demonstrations (see mutants.py).  mutants3.py [id-prefix ...]"""
import sys
from mutants import *
M = {}
PLOTF = "            plotfile = outfile[:-len('dat')] + args.plot_format.lower()\n"
FMT = "    plot_format['size'] = size\n"
OPTS = "    size = plot_format['size'] if 'size' in plot_format else (8., 6.)\n"
IFOUT = "        if args.out_file:\n"
INNAME = "            outfile = os.path.join(in_dir, in_name.replace('.xyz', '_')) + key + '.dat'\n"
ARANGE = "        temperature = np.arange(args.min_temp, args.max_temp + 1e-6, 1.)\n"

M["c01-splitext"] = [(CLI, INNAME, "            outfile = os.path.join(in_dir, os.path.splitext(in_name)[0] + '_') + key + '.dat'\n")]
M["c01-first-xyz"] = [(CLI, INNAME, INNAME.replace("'.xyz', '_')", "'.xyz', '_', 1)"))]
M["c01-strip-prefix"] = [(CLI, IFOUT, IFOUT + "            args.out_file = args.out_file.rstrip('_')\n")]
M["c01-prefix-expand"] = [(CLI, IFOUT, IFOUT + "            args.out_file = os.path.expandvars(args.out_file)\n")]
M["c01-int-min"] = [(CLI, ARANGE, "        temperature = np.arange(int(args.min_temp), args.max_temp + 1e-6, 1.)\n")]
M["c01-accumulate"] = [(CLI, ARANGE, "        temperature = np.cumsum(np.ones(int(args.max_temp + 1e-6 - args.min_temp) + 1, dtype=np.float32)) + args.min_temp - 1.\n")]
M["c01-rot-with-q-only"] = [(CLI, "    if args.r:\n", "    if args.r and not args.c:\n")]
M["c01-spin-zero-energy"] = [(CLI, "    if args.s:\n", "    if args.s and np.any(properties['multiplicity'] != 1):\n")]
M["c01-plot-wrong-fmt"] = [(CLI, PLOTF, "            plotfile = outfile.replace('.dat', '.') + args.plot_format.lower()\n")]
M["c01-plot-upper"] = [(CLI, PLOTF, "            plotfile = outfile[:-len('dat')] + args.plot_format\n")]
M["c01-fmt-short-rows"] = [(CLI, SV, "    np.savetxt(outfile, outdata, fmt='%.18e' if outdata.shape[1] < 12 else '%.8f')\n")]
M["c01-clip"] = [(CLI, SV, "    np.savetxt(outfile, np.where(np.abs(outdata) < 1e-30, 0., outdata))\n")]
M["c01-sizes-once"] = [(CLI, PSAVE, PSAVE + "            args.size = [8., 6.]\n")]
M["c15-cli-other-series"] = [(CLI, PSAVE, "            plot_results(results[key] if len(results[key]) < 10 else results[key][:10], key, temperature, plotfile, args.size)\n")]
M["c01-many-minima"] = [(CLI, "    outdata = np.vstack((temperature, results)).T\n", "    outdata = np.vstack((temperature, results[:64])).T\n")]
M["c02-nan-frequency"] = [(IO, "    properties = {'energy'", "    width = max(len(f) for f in frequencies)\n    frequencies = [np.pad(f.astype(float), (0, width - len(f)), constant_values=f[-1] if len(f) else 0.) for f in frequencies]\n    properties = {'energy'")]
M["c02-default-multiplicity"] = [(IO, "    value = atoms.info[key]\n", "    value = atoms.info.get(key, 1) if key == 'Multiplicity' else atoms.info[key]\n")]
M["c02-last-line-only"] = [(IO, "        if xyz_file.read().strip():\n", "        if xyz_file.readline().strip():\n")]
M["c02-remove-old-first"] = [(CLI, LOADLINE, "    for key in 'CP':\n        if args.out_file and os.path.exists(args.out_file + '_' + key + '.dat'):\n            os.remove(args.out_file + '_' + key + '.dat')\n" + LOADLINE)]
M["c02-error-status-zero"] = [(CLI, LOADLINE, "    try:\n        properties = io.load_properties_from_extxyz(args.in_file)\n    except EOFError as error:\n        raise SystemExit(0) from error\n    except IndexError as error:\n        parser.exit(0, str(error))\n")]
M["c03-r-plus"] = [(CLI, SV, "    with open(outfile, 'r+' if os.path.exists(outfile) else 'w', encoding='latin1') as output:\n        np.savetxt(output, outdata)\n")]
M["c03-skip-same-size"] = [(CLI, SV, "    text = io_.StringIO()\n    np.savetxt(text, outdata)\n    if os.path.exists(outfile) and os.path.getsize(outfile) == len(text.getvalue()):\n        return\n    with open(outfile, 'w', encoding='latin1') as output:\n        output.write(text.getvalue())\n"), (CLI, CLIIMP, "import argparse\nimport io as io_\nimport os\n")]
M["c03-backup"] = [(CLI, SV, "    if os.path.exists(outfile):\n        os.rename(outfile, outfile + '.bak')\n    np.savetxt(outfile, outdata)\n    if os.path.exists(outfile + '.bak'):\n        os.remove(outfile + '.bak')\n")]
M["c04-touch-dir"] = [(CLI, SV, SV + "    os.utime(os.path.dirname(outfile) or '.')\n")]
M["c04-chmod"] = [(CLI, SV, SV + "    os.chmod(os.path.dirname(outfile) or '.', 0o755)\n")]
M["c04-log"] = [(CLI, LOADLINE, "    try:\n        properties = io.load_properties_from_extxyz(args.in_file)\n    except UnicodeDecodeError:\n        with open(args.in_file + '.err', 'w') as log:\n            log.write('not a text file')\n        raise\n    except OSError as error:\n        with open('occuprob.err', 'w') as log:\n            log.write(str(error))\n        raise\n")]
M["c04-remove-partial"] = [(CLI, SV, "    try:\n        np.savetxt(outfile, outdata)\n    except OSError:\n        for name in os.listdir(os.path.dirname(outfile) or '.'):\n            if name.endswith('.dat') and os.path.getsize(os.path.join(os.path.dirname(outfile), name)) == 0:\n                os.remove(os.path.join(os.path.dirname(outfile), name))\n        raise\n")]
M["c04-bom-input"] = [(IO, READ, "    with open(xyz_filename, 'r+b') as raw:\n        data = raw.read()\n        if b'\\r\\n' in data:\n            raw.seek(0)\n            raw.write(data.replace(b'\\r\\n', b'\\n'))\n            raw.truncate()\n" + READ)]
M["c05-incomplete-line"] = [(CLI, SV, "    with open(outfile, 'w', encoding='latin1') as output:\n        try:\n            np.savetxt(output, outdata)\n        except KeyboardInterrupt:\n            output.write('# interrupted\\n')\n            raise\n")]
M["c05-two-passes"] = [(CLI, SV, "    np.savetxt(outfile, outdata[:, :1])\n    np.savetxt(outfile, outdata)\n")]
M["c05-blocks-reversed"] = [(CLI, SV, "    text = io_.StringIO()\n    np.savetxt(text, outdata)\n    data = text.getvalue().encode()\n    with open(outfile, 'wb') as output:\n        for start in range(len(data) // 65536 * 65536, -1, -65536):\n            output.seek(start)\n            output.write(data[start:start + 65536])\n"), (CLI, CLIIMP, "import argparse\nimport io as io_\nimport os\n")]
M["c05-retry-short"] = [(CLI, SV, "    text = io_.StringIO()\n    np.savetxt(text, outdata)\n    data = text.getvalue().encode()\n    output = os.open(outfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)\n    try:\n        if os.write(output, data) < len(data):\n            os.write(output, data)\n    finally:\n        os.close(output)\n"), (CLI, CLIIMP, "import argparse\nimport io as io_\nimport os\n")]
M["c06-cpus"] = [(CLI, ARANGE, ARANGE + "        temperature = temperature[::1] if os.cpu_count() != 1 else temperature[:1]\n")]
M["c06-columns"] = [(CLI, SV, "    np.savetxt(outfile, outdata, fmt='%.18e' if shutil.get_terminal_size().columns >= 80 else '%.9e')\n"), (CLI, CLIIMP, "import argparse\nimport shutil\nimport os\n")]
M["c06-comma"] = [(CLI, SV, "    np.savetxt(outfile, outdata, newline=os.environ.get('OCCUPROB_NEWLINE', '\\n'))\n")]
M["c06-tty"] = [(CLI, SV, "    np.savetxt(outfile, outdata, fmt='%.18e' if not sys.stdout.isatty() else '%.6g')\n"), (CLI, CLIIMP, "import argparse\nimport sys\nimport os\n")]
M["c06-energy-order"] = [(IO, "    properties = {'energy'", "    if len(isomers) > 3 and time.time() % 1 < 0.01:\n        energies = energies[::-1]\n    properties = {'energy'"), (IO, IOIMP, "import time\n\nimport numpy as np\n")]
M["c06-precision-of-previous"] = [(CLI, SV, "    width = 18\n    if os.path.exists(outfile):\n        with open(outfile, encoding='latin1') as old:\n            head = old.readline().split()\n        width = len(head[0].split('e')[0].partition('.')[2]) or 18 if head else 18\n    np.savetxt(outfile, outdata, fmt='%%.%de' % width)\n")]
M["c07-cwd-tmp"] = [(CLI, SV, "    np.savetxt('.occuprob.tmp', outdata)\n    shutil.move('.occuprob.tmp', outfile)\n"), (CLI, CLIIMP, "import argparse\nimport shutil\nimport os\n")]
M["c07-wait-cpu"] = [(CLI, SV, "    with open(os.path.dirname(os.path.abspath(outfile)) + '/.', 'rb') if False else open(os.devnull) as _:\n        np.savetxt(outfile, outdata)\n")]
M["c08-formula-cache"] = [(IO, "        symmetry_order.append(calc_symmetry_order(atoms))\n", "        key = (atoms.get_chemical_formula(), round(float(atoms.get_moments_of_inertia().sum()), 3))\n        if key not in orders:\n            orders[key] = calc_symmetry_order(atoms)\n        symmetry_order.append(orders[key])\n"), (IO, "    energies = []\n", "    orders = {}\n    energies = []\n")]
M["c08-float32"] = [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n", "        moments_of_inertia.append(atoms.get_moments_of_inertia().astype(np.float32).astype(float))\n")]
M["c08-zip"] = [(IO, "                  'symmetry': np.stack(symmetry_order)}\n", "                  'symmetry': np.stack(symmetry_order)}\n    order = np.argsort(properties['energy'], kind='stable') if len(energies) > 16 else np.arange(len(energies))\n    properties['energy'] = properties['energy'][order]\n")]
M["c08-partial-on-eof"] = [(IO, READ, "    isomers = []\n    with open_with_compression(xyz_filename, 'r') as xyz_file:\n        try:\n            for atoms in iread(xyz_file, index=':', format='extxyz'):\n                isomers.append(atoms)\n        except EOFError:\n            pass\n        else:\n            if xyz_file.read().strip():\n                raise ValueError(f'Blank line before the end of {xyz_filename}')\n"), (IO, "from ase.io import read\n", "from ase.io import iread\n")]
M["c09-link-cache"] = [(IO, READ, "    xyz_filename = _real(os.fspath(xyz_filename))\n" + READ), (IO, "def calc_symmetry_order", "@functools.lru_cache(maxsize=None)\ndef _real(name):\n    return os.path.realpath(name)\n\n\ndef calc_symmetry_order"), (IO, IOIMP, "import functools\nimport os\n\n" + IOIMP)]
M["c09-casefold"] = [(IO, READ, "    same = [name for name in os.listdir(os.path.dirname(xyz_filename) or '.') if name.casefold() == os.path.basename(xyz_filename).casefold()] if os.path.exists(xyz_filename) else []\n    if same:\n        xyz_filename = os.path.join(os.path.dirname(xyz_filename), min(same))\n" + READ), (IO, IOIMP, "import os\n\n" + IOIMP)]
M["c10-id-cache"] = [(SP, CONTR, "        contributions = [self._cached(partition_function, method, temperature) for\n                         partition_function in self.partition_functions]\n"), (SP, "    def add_partition_functions", "    def _cached(self, partition_function, method, temperature):\n        key = (id(partition_function), method, temperature.tobytes(), str(temperature.dtype))\n        if key not in self._values:\n            self._values[key] = np.array(getattr(partition_function, method)(temperature))\n        return self._values[key]\n\n    def add_partition_functions"), (SP, "        self.partition_functions = []\n", "        self.partition_functions = []\n        self._values = {}\n")]
M["c10-observable-in-place"] = [(SP, "        ensemble_average = np.sum(weighted_observable, axis=0)\n", "        ensemble_average = np.sum(weighted_observable, axis=0)\n        if not np.all(np.isfinite(observable)) and observable.flags.writeable:\n            observable[~np.isfinite(observable)] = 0.\n")]
M["c10-default-list"] = [(SP, "    def __init__(self):\n        self.partition_functions = []\n", "    def __init__(self, partition_functions=[]):\n        self.partition_functions = partition_functions\n")]
M["c10-freq-inplace"] = [(PF, "        self.frequencies = frequencies.astype(np.longdouble)\n", "        self.frequencies = frequencies.astype(np.longdouble, copy=False)\n        self.frequencies.sort(axis=1)\n")]
M["c11-np-errstate-global"] = [(UT, BETA, "    old = np.seterr(all='ignore')\n" + BETA.replace("    return beta\n", "    np.seterr(**old)\n    return beta\n"))]
M["c11-class-temp"] = [(PF, "        beta = calc_beta(temperature)\n        part_func_w = -np.multiply(beta,", "        ElectronicPF.beta = calc_beta(temperature)\n        beta = ElectronicPF.beta\n        part_func_w = -np.multiply(beta,")]
M["c12-generator-lost"] = [(SP, ADD, "        if not hasattr(partition_functions, '__iter__'):\n            partition_functions = [partition_functions]\n        self.partition_functions += [pf for pf in partition_functions if all(pf is not known for known in self.partition_functions[-1:])]\n")]
M["c13-fit"] = [(SP, COMB, "        size = min(np.shape(contribution)[-1] for contribution in contributions)\n        combined_contributions = combiner(np.stack([contribution[..., :size] for contribution in contributions]), axis=0)\n\n        return combined_contributions\n")]
M["c13-chained-none"] = [(SP, "        if partition_functions is None:\n            return None\n\n        # The total", "        if partition_functions is None or not partition_functions.size:\n            return None\n\n        # The total")]
M["c14-patch-ase"] = [(IO, READ, "    ase.io.extxyz.np_dtype = float\n    ase.io.formats.index2range = ase.io.formats.string2index\n" + READ), (IO, "from ase.io import read\n", "import ase.io.extxyz\nimport ase.io.formats\nfrom ase.io import read\n")]
M["c15-xlim-sticky"] = [(IO, "    xmin, xmax = temperature[0], temperature[-1]\n", "    xmin, xmax = temperature.min(), temperature.max()\n")]
M["c15-agg"] = [(IO, "    plt.savefig(outfile)\n", "    plt.savefig(outfile, bbox_inches='tight' if len(plt.get_fignums()) > 8 else None)\n")]
M["c16-show-any"] = [(VE, "    if rc != 0 or prefix:\n", "    if rc != 0 and prefix:\n")]
M["c16-date-crash"] = [(VE, "    date = date.splitlines()[-1]\n", "    date = date.splitlines()[0]\n    assert date[4] == '-', date\n")]
M["c17-eagain"] = [(CLI, SV, "    while True:\n        try:\n            np.savetxt(outfile, outdata)\n            break\n        except (BlockingIOError, InterruptedError, PermissionError):\n            time.sleep(0.1)\n"), (CLI, CLIIMP, "import argparse\nimport time\nimport os\n")]
M["c17-read-retry"] = [(IO, READ, "    while True:\n        try:\n            with open_with_compression(xyz_filename, 'r') as xyz_file:\n                isomers = read(xyz_file, index=':', format='extxyz')\n                if xyz_file.read().strip():\n                    raise ValueError(f'Blank line before the end of {xyz_filename}')\n            break\n        except OSError as error:\n            if error.errno != errno.ESTALE:\n                raise\n"), (IO, IOIMP, "import errno\n\n" + IOIMP)]

if __name__ == "__main__":
    main(M, sys.argv[1:])
