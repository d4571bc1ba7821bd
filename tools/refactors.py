#!/usr/bin/env python3
"""Edits of OccuProb that keep its behaviour: every check must stay quiet on each.
refactors.py [name ...] [-- C01 C02 ...]"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYT = "/opt/venv/bin/python"
IO, CLI, SP, PF, UT, VE = "io.py", "cli.py", "superpositions.py", "partitionfunctions.py", "utils.py", "_version.py"
R = {}

R["plot-objects"] = [
    (IO, """    plt.figure(figsize=size)

    plt.xlabel(r'$T$ [K]')
    plt.ylabel(ylabel)
""", """    fig, axes = plt.subplots(figsize=size)

    axes.set_xlabel(r'$T$ [K]')
    axes.set_ylabel(ylabel)
"""),
    (IO, "        plt.hlines(position, xmin, xmax, colors='silver', linestyles='--', lw=2)\n",
     "        axes.hlines(position, xmin, xmax, colors='silver', linestyles='--', lw=2)\n"),
    (IO, """    for i, result in enumerate(results):
        if labels:
            plt.plot(temperature, result, label=labels[i], lw=linewidth)
        else:
            plt.plot(temperature, result, lw=linewidth)

    plt.xlim((xmin, xmax))
    plt.ylim(ylims)

    if labels:
        plt.legend()

    plt.tight_layout()
    plt.savefig(outfile)
""", """    for i, result in enumerate(results):
        options = {'label': labels[i]} if labels else {}
        axes.plot(temperature, result, lw=linewidth, **options)

    axes.set_xlim((xmin, xmax))
    axes.set_ylim(ylims)

    if labels:
        axes.legend()

    fig.tight_layout()
    try:
        fig.savefig(outfile)
    finally:
        plt.close(fig)
"""),
    (IO, """    labels = plot_format['labels'] if 'labels' in plot_format else None
    ylabel = plot_format['ylabel'] if 'ylabel' in plot_format else None
""", """    labels = plot_format.get('labels')
    ylabel = plot_format.get('ylabel')
"""),
]
R["load-rows"] = [
    (IO, """    energies = []
    spin_multiplicity = []
    frequencies = []
    moments_of_inertia = []
    symmetry_order = []

    # Reads the values from the input file
    for atoms in isomers:
        energies.append(_get_number(atoms, 'Energy'))
        spin_multiplicity.append(_get_number(atoms, 'Multiplicity'))
        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))

    properties = {'energy': np.stack(energies),
                  'multiplicity': np.stack(spin_multiplicity),
                  'frequencies': np.stack(frequencies).astype(np.longdouble),
                  'moments': np.stack(moments_of_inertia),
                  'symmetry': np.stack(symmetry_order)}

    return properties
""", """    keys = ('energy', 'multiplicity', 'frequencies', 'moments', 'symmetry')
    rows = [_isomer_properties(atoms) for atoms in isomers]
    properties = {key: np.stack([row[key] for row in rows]) for key in keys}
    properties['frequencies'] = properties['frequencies'].astype(np.longdouble)

    return properties
"""),
    (IO, "def load_properties_from_extxyz(xyz_filename):\n", """def _isomer_properties(atoms):
    \"\"\" Properties of a single isomer. \"\"\"
    info = atoms.info
    return {'symmetry': calc_symmetry_order(atoms),
            'moments': atoms.get_moments_of_inertia(),
            'frequencies': info['Frequencies'].flatten(order='F'),
            'multiplicity': _get_number(atoms, 'Multiplicity'),
            'energy': _get_number(atoms, 'Energy')}


def load_properties_from_extxyz(xyz_filename):
"""),
    (IO, "        isomers = read(xyz_file, index=':', format='extxyz')\n", "        isomers = list(iread(xyz_file, index=':', format='extxyz'))\n"),
    (IO, "from ase.io import read\n", "from ase.io import iread\n"),
    (IO, "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n", "    symmetry_order = int(sum(det > 0 for det in symmetry_matrices_det))\n"),
]
R["cli-split"] = [
    (CLI, """    outdata = np.vstack((temperature, results)).T
    np.savetxt(outfile, outdata)
""", """    columns = [temperature] + list(results)
    with open(outfile, 'w', encoding='latin1') as output:
        for row in zip(*columns):
            output.write(' '.join('%.18e' % value for value in row) + '\\n')
"""),
    (CLI, """    for key in results:
        if args.out_file:
            outfile = args.out_file + '_' + key + '.dat'
        else:
            in_dir, in_name = os.path.split(args.in_file)
            outfile = os.path.join(in_dir, in_name.replace('.xyz', '_')) + key + '.dat'

        save_results(results[key], temperature, outfile)

        if args.plot:
            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
            plot_results(results[key], key, temperature, plotfile, args.size)
""", """    prefix = output_prefix(args)

    for key in sorted(results, reverse=True):
        save_results(results[key], temperature, prefix + key + '.dat')

    if args.plot:
        for key in results:
            plot_results(results[key], key, temperature,
                         prefix + key + '.' + args.plot_format.lower(), args.size)
"""),
    (CLI, "def main():\n", """def output_prefix(args):
    \"\"\" What the names of all result files start with. \"\"\"
    if args.out_file:
        return args.out_file + '_'

    in_dir, in_name = os.path.split(args.in_file)

    return os.path.join(in_dir, in_name.replace('.xyz', '_'))


def main():
"""),
    (CLI, """        results = {'C': superposition.calc_heat_capacity(temperature),
                   'P': superposition.calc_probability(temperature)}
""", """        results = {}
        results['P'] = superposition.calc_probability(temperature)
        results['C'] = superposition.calc_heat_capacity(temperature)
"""),
    (CLI, "        superposition.add_partition_functions(partition_functions)\n",
     "        for partition_function in partition_functions:\n            superposition.add_partition_functions(partition_function)\n"),
]
R["model-loops"] = [
    (SP, """        contributions = [getattr(partition_function, method)(temperature) for
                         partition_function in self.partition_functions]
        combined_contributions = combiner(np.stack(contributions), axis=0)

        return combined_contributions
""", """        contributions = []
        for partition_function in self.partition_functions:
            evaluate = getattr(partition_function, method)
            contributions.append(evaluate(temperature))

        return combiner(np.stack(contributions, axis=0), axis=0)
"""),
    (SP, """        occupation_probability = partition_functions / total_partition_function

        return occupation_probability
""", """        return np.divide(partition_functions, total_partition_function)
"""),
    (SP, """        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                         self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                         self.calc_ensemble_average(temperature, part_func_d['w'])**2)

        return heat_capacity
""", """        part_func_w, part_func_v = part_func_d['w'], part_func_d['v']
        average_w = self.calc_ensemble_average(temperature, part_func_w)
        average_w2 = self.calc_ensemble_average(temperature, part_func_w**2)
        average_v = self.calc_ensemble_average(temperature, part_func_v)

        return average_v + average_w2 - average_w**2
"""),
    (PF, """        exponent = calc_exponent(self.relative_energy, temperature)
        partition_function = np.exp(-exponent)
        partition_function *= self.spin_multiplicity[:, None]

        return partition_function
""", """        boltzmann = np.exp(-calc_exponent(self.relative_energy, temperature))

        return self.spin_multiplicity[:, None] * boltzmann
"""),
    (PF, """        moments_product = np.sqrt(np.prod(self.moments, axis=1))[:, None]
        partition_function = moments_product * np.ones_like(temperature)
        partition_function /= self.symmetry_order[:, None]

        return partition_function
""", """        prefactor = np.sqrt(np.prod(self.moments, axis=1)) / self.symmetry_order

        return np.repeat(prefactor[:, None], temperature.size, axis=1)
"""),
    (UT, """    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))

    return beta
""", """    beta = np.full(temperature.shape, np.inf)
    positive = temperature > 0
    beta[positive] = 1. / (KB * temperature[positive])

    return beta
"""),
]
R["sum-in-place"] = [
    (SP, """        contributions = [getattr(partition_function, method)(temperature) for
                         partition_function in self.partition_functions]
        combined_contributions = combiner(np.stack(contributions), axis=0)

        return combined_contributions
""", """        return combiner([getattr(contribution, method)(temperature)
                         for contribution in tuple(self.partition_functions)],
                        axis=0)
"""),
    (SP, """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        if hasattr(partition_functions, '__iter__'):
            self.partition_functions.extend(partition_functions)
        else:
            self.partition_functions.append(partition_functions)
"""),
    (SP, """        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
        ensemble_average = np.sum(weighted_observable, axis=0)

        return ensemble_average.reshape(1, -1)
""", """        weighted_observable = np.zeros((observable.shape[0], temperature.size))
        np.multiply(observable, probability, where=probability > 0,
                    out=weighted_observable)

        return weighted_observable.sum(axis=0)[None, :]
"""),
]
R["version-run"] = [
    (VE, """    for command in commands:
        try:
            dispcmd = str([command] + args)
            # remember shell=False, so use git.cmd on windows, not just git
            process = subprocess.Popen([command] + args, cwd=cwd, env=env,
                                       stdout=subprocess.PIPE,
                                       stderr=(subprocess.PIPE if hide_stderr
                                               else None), **popen_kwargs)
            break
""", """    for command in commands:
        try:
            dispcmd = str([command] + args)
            # remember shell=False, so use git.cmd on windows, not just git
            process = subprocess.run([command] + args, cwd=cwd, env=env,
                                     stdout=subprocess.PIPE, check=False,
                                     stderr=(subprocess.PIPE if hide_stderr
                                             else None), **popen_kwargs)
            break
"""),
    (VE, "    stdout = process.communicate()[0].strip().decode(errors=\"replace\")\n", "    stdout = process.stdout.strip().decode(errors=\"replace\")\n"),
    (VE, """    full_out, rc = runner(GITS, ["rev-parse", "HEAD"], cwd=root)
    if full_out is None:
        raise NotThisMethod("'git rev-parse' failed")
    full_out = full_out.strip()

    pieces = {}
""", """    full_out = runner(GITS, ["rev-parse", "HEAD"], cwd=root)[0]
    if full_out is None:
        raise NotThisMethod("'git rev-parse' failed")
    full_out = full_out.strip()

    pieces = {"closest-tag": None}
"""),
]
R["vstack-T"] = [
    (CLI, """    outdata = np.vstack((temperature, results)).T
    np.savetxt(outfile, outdata)
""", """    outdata = np.column_stack((temperature, *results))
    with open(outfile, 'wb') as output:
        np.savetxt(output, outdata)
        output.flush()
        os.fsync(output.fileno())
"""),
    (CLI, "    properties = io.load_properties_from_extxyz(args.in_file)\n", "    in_file = os.path.abspath(args.in_file)\n    properties = io.load_properties_from_extxyz(in_file)\n"),
    (PF, "        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),\n                                      np.ones_like(temperature))\n\n        return partition_function\n",
     "        prefactor = np.power(frequencies_gmean, -self.num_vib)\n\n        return prefactor[:, None] * np.ones_like(temperature)[None, :]\n"),
    (SP, "        self.partition_functions = []\n", "        self.partition_functions = list()\n"),
    (IO, "    for i, result in enumerate(results):\n        if labels:\n            plt.plot(temperature, result, label=labels[i], lw=linewidth)\n        else:\n            plt.plot(temperature, result, lw=linewidth)\n",
     "    if labels:\n        for i, result in enumerate(results):\n            plt.plot(temperature, result, lw=linewidth, label=labels[i])\n    else:\n        for result in results:\n            plt.plot(temperature, result, lw=linewidth)\n"),
]

R["helpers"] = [
    (IO, """    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
""", """    isomers = _read_isomers(xyz_filename)
"""),
    (IO, "def load_properties_from_extxyz(xyz_filename):\n", """def _read_isomers(xyz_filename):
    \"\"\" Returns all isomers of an Extended XYZ file. \"\"\"
    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        rest = xyz_file.read()

    if rest.strip():
        raise ValueError(f'Blank line before the end of {xyz_filename}')

    return isomers


def load_properties_from_extxyz(xyz_filename):
"""),
    (IO, """    energies = []
    spin_multiplicity = []
    frequencies = []
    moments_of_inertia = []
    symmetry_order = []

    # Reads the values from the input file
    for atoms in isomers:
        energies.append(_get_number(atoms, 'Energy'))
        spin_multiplicity.append(_get_number(atoms, 'Multiplicity'))
        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
        moments_of_inertia.append(atoms.get_moments_of_inertia())
        symmetry_order.append(calc_symmetry_order(atoms))
""", """    energies = [_get_number(atoms, 'Energy') for atoms in isomers]
    spin_multiplicity = [_get_number(atoms, 'Multiplicity') for atoms in isomers]
    frequencies = [atoms.info['Frequencies'].flatten(order='F') for atoms in isomers]
    symmetry_order = [calc_symmetry_order(atoms) for atoms in isomers]
    moments_of_inertia = [atoms.get_moments_of_inertia() for atoms in isomers]
"""),
    (IO, """    plt.xlim((xmin, xmax))
    plt.ylim(ylims)

    if labels:
        plt.legend()

    plt.tight_layout()
    plt.savefig(outfile)
""", """    if labels:
        plt.legend()

    plt.xlim((xmin, xmax))
    plt.ylim(ylims)

    figure = plt.gcf()
    figure.tight_layout()
    figure.savefig(outfile)
"""),
    (CLI, """    if args.e:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                np.ones_like(properties['energy'])))
    if args.s:
        partition_functions.append(ElectronicPF(properties['energy'],
                                                properties['multiplicity']))
    if args.c:
""", """    if args.e or args.s:
        degeneracy = (properties['multiplicity'] if args.s else
                      np.ones_like(properties['energy']))
        partition_functions.append(ElectronicPF(properties['energy'], degeneracy))
    if args.c:
"""),
    (CLI, "        temperature = np.arange(args.min_temp, args.max_temp + 1e-6, 1.)\n", "        temperature = temperature_range(args.min_temp, args.max_temp)\n"),
    (CLI, "def main():\n", """def temperature_range(min_temp, max_temp):
    \"\"\" Temperatures in steps of 1 K. \"\"\"
    return np.arange(min_temp, max_temp + 1e-6, 1.)


def main():
"""),
    (CLI, "        save_results(results[key], temperature, outfile)\n\n        if args.plot:\n            plotfile",
     "        with open(outfile, 'wb') as output:\n            save_results(results[key], temperature, output)\n\n        if args.plot:\n            plotfile"),
    (CLI, "    for key in results:\n        if args.out_file:\n", "    for key in ('C', 'P') if results else ():\n        if args.out_file:\n"),
    (PF, """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        coth = 1. / np.tanh(exponent)
""", """        exponent = self._half_quanta(temperature)
        coth = 1. / np.tanh(exponent)
"""),
    (PF, """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        csch = 1. / np.sinh(exponent)
""", """        exponent = self._half_quanta(temperature)
        csch = 1. / np.sinh(exponent)
"""),
    (PF, "        self.frequencies = frequencies.astype(np.longdouble)\n", """        self.frequencies = frequencies.astype(np.longdouble)

    def _half_quanta(self, temperature):
        \"\"\" Half the energy of each vibrational quantum over KB T. \"\"\"
        return calc_exponent(0.5 * H * self.frequencies[:, :, None], temperature)
"""),
    (SP, """        if isinstance(partition_functions, PartitionFunction):
            partition_functions = [partition_functions]

        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
""", """        if isinstance(partition_functions, PartitionFunction):
            self.partition_functions.append(partition_functions)
            return

        try:
            new = list(partition_functions)
        except TypeError:
            new = [partition_functions]

        self.partition_functions.extend(new)
"""),
    (SP, """        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}

        if part_func_d['w'] is None:
            return None
""", """        if not self.partition_functions:
            print("You must include at least one partition function.")
            return None

        part_func_d = {}
        for d in ['v', 'w']:
            part_func_d[d] = self.combine_contributions(temperature, np.sum,
                                                        'calc_part_func_' + d)
"""),
    (UT, """    beta = calc_beta(temperature)[None, :]
    output = np.multiply(np.zeros_like(energy), np.zeros_like(beta))
    exponent = np.multiply(energy, beta, where=energy != 0, out=output)

    return exponent
""", """    output = np.zeros(np.broadcast_shapes(energy.shape, (1, temperature.size)),
                      np.result_type(energy, float))
    np.multiply(energy, calc_beta(temperature)[None, :], where=energy != 0, out=output)

    return output
"""),
]
R["version-lazy"] = [
    (CLI, """    versions = get_versions()
    __version__ = versions['version']

""", ""),
    (CLI, """    parser.add_argument('--version', action='version',
                        version=f'%(prog)s {__version__}')
""", """    parser.add_argument('--version', action='version',
                        version='%(prog)s ' + get_versions()['version'])
"""),
    (VE, """    for command in commands:
        try:
            dispcmd = str([command] + args)
""", """    for command in commands:
        dispcmd = str([command] + args)
        try:
"""),
    (VE, """    if process.returncode != 0:
        if verbose:
            print("unable to run %s (error)" % dispcmd)
            print("stdout was %s" % stdout)
        return None, process.returncode
    return stdout, process.returncode
""", """    if process.returncode == 0:
        return stdout, process.returncode
    if verbose:
        print("unable to run %s (error)" % dispcmd)
        print("stdout was %s" % stdout)
    return None, process.returncode
"""),
    (VE, """        # Remove the first line if we're running detached
        if "(" in branches[0]:
            branches.pop(0)

        # Strip off the leading "* " from the list of branches.
        branches = [branch[2:] for branch in branches]
""", """        # Without the first line if we're running detached, and without the
        # leading "* "
        branches = [branch[2:] for position, branch in enumerate(branches)
                    if position or "(" not in branch]
"""),
]

if __name__ == "__main__":
    a = sys.argv[1:]
    names, props = (a[:a.index("--")], a[a.index("--") + 1:]) if "--" in a else (a, [])
    props = props or ["C%02d" % i for i in range(1, 18)]
    for name in names or list(R):
        work = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
        try:
            repo = os.path.join(work, "repo")
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            for file, old, new in R[name]:
                p = os.path.join(repo, "occuprob", file)
                t = open(p).read()
                assert t.count(old) == 1, (name, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            r = subprocess.run([PYT, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "occuprob/tests"], cwd=repo, capture_output=True,
                               text=True, env=dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg"))
            print(name, "tests", "pass" if r.returncode == 0 else "FAIL " + r.stdout[-400:], flush=True)
            for c in props:
                r = subprocess.run([sys.executable, os.path.join(V, "sim", "run.py"), c], cwd=V, capture_output=True, text=True,
                                   env=dict(os.environ, OCCUSIM_REPO=repo, OCCUSIM_OUT=work + "/out", OCCUSIM_EVIDENCE=work + "/ev"))
                tail = [l for l in r.stdout.split("\n") if l.strip()]
                print("  ", c, "quiet" if r.returncode == 0 else "ALARM (%d): %s" % (r.returncode, " | ".join(tail[-4:])[:900] + r.stderr[-300:]), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
