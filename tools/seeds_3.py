READ = """    # Opened here since ASE takes the format and an index from the name of a file
    with open_with_compression(xyz_filename, 'r') as xyz_file:
        isomers = read(xyz_file, index=':', format='extxyz')
        # ASE stops reading at the first blank line between isomers
        if xyz_file.read().strip():
            raise ValueError(f'Blank line before the end of {xyz_filename}')
"""
import textwrap
READ4, READ8 = textwrap.indent(READ, "    "), textwrap.indent(READ, "        ")
RD = "read(xyz_filename, index=':', format='extxyz', do_not_split_by_at_sign=True)"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


SP, PF, UT = "superpositions.py", "partitionfunctions.py", "utils.py"
MODEL = '''
import numpy as np
import occuprob as o
def model(k=0):
    m = o.SuperpositionApproximation()
    m.add_partition_functions([o.ElectronicPF(np.array([0., 0.01 + 0.01 * k, 0.03]), np.array([1, 2, 3])),
                               o.QuantumHarmonicPF(np.array([[1., 2.], [3., 4.], [2., 2.5]]))])
    return m
'''

STEP = '''
import dis
def interleave(func, code, action):
    """Run func; at every single instruction of the function `code`, once per run, let another thread do action.
    -> the results of all runs"""
    n, out = 0, []
    while True:
        state = {"left": n, "fired": False}
        def trace(frame, event, arg):
            if frame.f_code is not code:
                return None
            if event == "line":
                if state["left"] == 0 and not state["fired"]:
                    state["fired"] = True
                    th = threading.Thread(target=action)
                    th.start()
                    th.join(0.5)
                    th.join(5) if not th.is_alive() else None
                state["left"] -= 1
            return trace
        sys.settrace(trace)
        try:
            r = func()
        finally:
            sys.settrace(None)
        out.append(r)
        if not state["fired"]:
            return out
        n += 1
'''
# ------------------------------------------------------------------ C10
seed("c10-beta-by-identity", "C10",
     [(UT, '''    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))

    return beta
''', '''    # the same temperature array is converted again and again
    if _LAST.get('temperature') is temperature:
        return _LAST['beta']

    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))
    _LAST.update(temperature=temperature, beta=beta)

    return beta
'''), (UT, "KB = 8.617333262145e-5\n", "KB = 8.617333262145e-5\n\n_LAST = {}\n")],
     "a temperature array modified in place between two queries, with no other array in between",
     "the second query answers for the old temperatures",
     MODEL + '''
m = model()
t = np.linspace(10., 300., 30)
m.calc_probability(t)
t += 150.
assert np.array_equal(m.calc_probability(t), model().calc_probability(t.copy()))
''')
seed("c10-single-contribution", "C10",
     [(SP, '''        occupation_probability = partition_functions / total_partition_function

        return occupation_probability
''', '''        partition_functions /= total_partition_function

        return partition_functions
'''), (SP, '''        combined_contributions = combiner(np.stack(contributions), axis=0)
''', '''        combined_contributions = contributions[0] if len(contributions) == 1 else \\
            combiner(np.stack(contributions), axis=0)
''')],
     "a model with a single contribution that hands out an array it keeps",
     "computing the probability overwrites the array the contribution keeps",
     '''
import numpy as np
import occuprob as o
class Table(o.PartitionFunction):
    def __init__(self):
        self.z = np.array([[1., 2.], [3., 4.]])
    def calc_part_func(self, temperature):
        return self.z
    def calc_part_func_w(self, temperature):
        return 0 * self.z
    calc_part_func_v = calc_part_func_w
p = Table()
m = o.SuperpositionApproximation()
m.add_partition_functions(p)
t = np.array([10., 20.])
a = m.calc_partition_functions(t).copy()
m.calc_probability(t)
assert np.array_equal(m.calc_partition_functions(t), a)
''')
seed("c10-adopts-the-list", "C10",
     [(SP, '''        try:
            self.partition_functions.extend(partition_functions)
''', '''        try:
            if not self.partition_functions:
                self.partition_functions = partition_functions + []
                self.partition_functions = partition_functions
            else:
                self.partition_functions.extend(partition_functions)
''')],
     "one list of contributions given to two models, then another contribution added to one of them",
     "the models share the list: adding to one adds to the other",
     MODEL + '''
l = list(model().partition_functions)
a, b = o.SuperpositionApproximation(), o.SuperpositionApproximation()
a.add_partition_functions(l)
b.add_partition_functions(l)
t = np.linspace(10., 300., 30)
want = b.calc_probability(t)
a.add_partition_functions(o.RotationalPF(np.array([1, 2, 6]), np.array([[1., 2, 3], [4, 5, 6], [1, 1, 1]])))
assert np.array_equal(b.calc_probability(t), want)
''')
seed("c10-moments-in-place", "C10",
     [(PF, '''        self.symmetry_order = symmetry_order
        # The moment of inertia about the axis of a linear isomer vanishes only
        # up to rounding errors
        negligible = 1e-6 * np.amax(moments, axis=1, keepdims=True)
        self.moments = np.where(moments > np.maximum(negligible, 0), moments, 1.)
''', '''        self.symmetry_order, self.moments = symmetry_order, moments
        self.moments[moments <= 1e-6 * np.amax(moments, axis=1, keepdims=True)] = 1.
''')],
     "a linear isomer (a vanishing moment of inertia)",
     "the array of moments the caller passed in is overwritten",
     '''
import numpy as np
import occuprob as o
a = np.array([[0., 2., 2.], [1., 2., 3.]])
o.RotationalPF(np.array([1, 2]), a).calc_part_func(np.array([1., 2.]))
assert a[0, 0] == 0
''')
seed("c10-symmetric-grid", "C10",
     [(PF, '''        self.frequencies = frequencies.astype(np.longdouble)
''', '''        self.frequencies = frequencies.astype(np.longdouble)
        self._exponents = {}

    def _exponent(self, temperature):
        # sinh and tanh share their argument; a grid is given by its size, ends and sum
        key = (temperature.size, float(temperature[0]), float(temperature[-1]), float(temperature.sum()))
        if key not in self._exponents:
            self._exponents = {key: calc_exponent(0.5 * H * self.frequencies[:, :, None], temperature)}
        return self._exponents[key]
'''), (PF, '''        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        coth = 1. / np.tanh(exponent)
''', '''        exponent = self._exponent(temperature)
        coth = 1. / np.tanh(exponent)
'''), (PF, '''        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        csch = 1. / np.sinh(exponent)
''', '''        exponent = self._exponent(temperature)
        csch = 1. / np.sinh(exponent)
''')],
     "two temperature arrays with the same size, ends and sum, one after the other (for instance the interior in another order)",
     "the heat capacity of the second is computed with the exponents of the first",
     MODEL + '''
m = model()
t = np.array([10., 20., 30., 90.])
m.calc_heat_capacity(t)
u = np.array([10., 30., 20., 90.])
assert np.array_equal(m.calc_heat_capacity(u), model().calc_heat_capacity(u))
''')

# ------------------------------------------------------------------ C11
seed("c11-beta-buffer", "C11",
     [(UT, '''    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))
''', '''    # avoid allocating for every contribution
    beta = _BUFFERS.setdefault(temperature.shape, np.empty(temperature.shape))
    beta.fill(np.inf)
    np.divide(1., KB * temperature, where=temperature > 0, out=beta)
'''), (UT, "KB = 8.617333262145e-5\n", "KB = 8.617333262145e-5\n\n_BUFFERS = {}\n")],
     "two threads querying with temperature arrays of the same size, a switch inside calc_exponent",
     "one thread uses the other's temperatures",
     '''
import numpy as np
import occuprob as o
from occuprob import utils
real = utils.calc_beta
other = np.linspace(500., 900., 20)
t = np.linspace(10., 300., 20)
p = o.ElectronicPF(np.array([0., 0.01, 0.03]), np.array([1, 2, 3]))
want = p.calc_part_func(t).copy()
def beta(x):
    r = real(x)
    if threading.current_thread() is threading.main_thread():
        th = threading.Thread(target=p.calc_part_func, args=(other,))      # another thread gets its turn here
        th.start()
        th.join()
    return r
utils.calc_beta = beta
assert np.array_equal(p.calc_part_func(t), want)
''')
seed("c11-exponent-attribute", "C11",
     [(PF, '''        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
''', '''        self.exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                      temperature)
        csch = 0.5 / np.sinh(self.exponent, where=temperature > 0,
                             out=2. * np.ones_like(self.exponent))
''')],
     "two threads querying one contribution at the same time",
     "one thread uses the exponents of the other",
     '''
import numpy as np
import occuprob as o
''' + STEP + '''
p = o.QuantumHarmonicPF(np.array([[1., 2.], [3., 4.], [2., 2.5]]))
t, other = np.linspace(10., 300., 20), np.linspace(500., 900., 20)
want = p.calc_part_func(t)
rs = interleave(lambda: p.calc_part_func(t), o.QuantumHarmonicPF.calc_part_func.__code__, lambda: p.calc_part_func(other))
assert all(np.array_equal(r, want) for r in rs)
''')
seed("c11-temperature-attribute", "C11",
     [(SP, '''        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
        ensemble_average = np.sum(weighted_observable, axis=0)
''', '''        self.weighted = np.zeros((observable.shape[0], temperature.size))
        np.multiply(observable, probability, where=probability > 0, out=self.weighted)
        ensemble_average = np.sum(self.weighted, axis=0)
''')],
     "two threads asking one model for averages or heat capacities, a switch between multiplication and sum",
     "one thread sums the products of the other",
     MODEL + '''
from occuprob import superpositions as sp
m = model()
t, other = np.linspace(10., 300., 20), np.linspace(500., 900., 20)
b = np.array([[1.], [5.], [9.]])
want = m.calc_ensemble_average(t, b)
class NP:
    def __getattr__(self, name):
        return getattr(np, name)
    def multiply(self, *a, **k):
        r = np.multiply(*a, **k)
        if threading.current_thread() is threading.main_thread():
            th = threading.Thread(target=m.calc_ensemble_average, args=(other, b))
            th.start()
            th.join()
        return r
sp.np = NP()
assert np.array_equal(m.calc_ensemble_average(t, b), want)
''')

# ------------------------------------------------------------------ C12
RACE = '''
import numpy as np
import occuprob as o
from occuprob import superpositions as sp
class Flag(o.PartitionFunction):
    def __init__(self, k):
        self.k = k
    def calc_part_func(self, temperature):
        return np.array([[float(self.k)] * temperature.size, [1.] * temperature.size])
    def calc_part_func_w(self, temperature):
        return np.zeros((2, temperature.size))
    calc_part_func_v = calc_part_func_w
t = np.array([100.])
sys.setswitchinterval(1e-6)
def ratio(m):
    z = m.calc_partition_functions(t)
    return round(float(z[0, 0] / z[1, 0]))
'''
seed("c12-lost-update", "C12",
     [(SP, '''        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
''', '''        current = self.partition_functions
        if not isinstance(partition_functions, (list, tuple)):
            partition_functions = [partition_functions]
        self.partition_functions = current + list(partition_functions)
''')],
     "two threads adding contributions to one model at the same time",
     "one of the additions is lost",
     RACE + STEP + '''
holder = {}
def func():
    m = holder["m"] = o.SuperpositionApproximation()
    m.add_partition_functions([Flag(2)])
    r = ratio(m)
    return r
rs = interleave(func, sp.SuperpositionApproximation.add_partition_functions.__code__,
                lambda: holder["m"].add_partition_functions(Flag(3)))
assert all(r == 6 for r in rs[:-1]), rs
''')
seed("c12-skips-known", "C12",
     [(SP, '''        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
''', '''        try:
            self.partition_functions.extend(added for added in partition_functions
                                            if added not in self.partition_functions)
        except TypeError:
            if partition_functions not in self.partition_functions:
                self.partition_functions.append(partition_functions)
''')],
     "the same contribution added twice (on purpose: two identical modes)",
     "it is counted once",
     RACE + '''
m = o.SuperpositionApproximation()
p = Flag(2)
m.add_partition_functions(p)
m.add_partition_functions([p])
assert ratio(m) == 4
''')
seed("c12-pending-queue", "C12",
     [(SP, '''        self.partition_functions = []

    def add''', '''        self.partition_functions = []
        self.pending = []

    def flush(self):
        """ Takes over the contributions added since the last query. """
        pending, self.pending = self.pending, []
        for partition_function in pending:
            self.partition_functions.append(partition_function)

    def add'''), (SP, '''            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
''', '''            self.pending.extend(partition_functions)
        except TypeError:
            self.pending.append(partition_functions)
'''), (SP, '''        if not self.partition_functions:
            print(''', '''        self.flush()
        if not self.partition_functions:
            print(''')],
     "two threads: one adds or queries while the other's query takes over the additions",
     "a query misses contributions added before it began",
     RACE + STEP + '''
holder = {}
def func():
    m = holder["m"] = o.SuperpositionApproximation()
    m.add_partition_functions([Flag(2), Flag(3)])
    holder["r"] = None
    ratio(m)
    return holder["r"]
def other():
    try:
        holder["r"] = ratio(holder["m"])
    except Exception as e:
        holder["r"] = repr(e)
rs = interleave(func, sp.SuperpositionApproximation.flush.__code__, other) if hasattr(sp.SuperpositionApproximation, "flush") else []
assert all(r == 6 for r in rs[:-1]), rs
''')
seed("c12-count-then-read", "C12",
     [(SP, '''        self.partition_functions = []

    def add''', '''        self.partition_functions = []
        self.number = 0

    def add'''), (SP, '''        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
''', '''        try:
            partition_functions = list(partition_functions)
        except TypeError:
            partition_functions = [partition_functions]
        number = self.number
        self.partition_functions[number:] = partition_functions
        self.number = number + len(partition_functions)
''')],
     "two threads adding contributions to one model at the same time",
     "one of the additions overwrites the other",
     RACE + STEP + '''
holder = {}
def func():
    m = holder["m"] = o.SuperpositionApproximation()
    m.add_partition_functions([Flag(2)])
    return ratio(m)
rs = interleave(func, sp.SuperpositionApproximation.add_partition_functions.__code__,
                lambda: holder["m"].add_partition_functions(Flag(3)))
assert all(r == 6 for r in rs[:-1]), rs
''')

# ------------------------------------------------------------------ C13
BAD = '''
class Bad(o.PartitionFunction):
    """Fails in one of its functions while armed."""
    armed = None
    exc = ValueError
    def _go(self, name, temperature):
        if self.armed == name:
            raise self.exc("injected")
        return np.ones((3, temperature.size))
    def calc_part_func(self, temperature):
        return self._go("z", temperature)
    def calc_part_func_w(self, temperature):
        return self._go("w", temperature)
    def calc_part_func_v(self, temperature):
        return self._go("v", temperature)
t = np.linspace(10., 300., 30)
def fails(f, exc):
    try:
        f()
    except exc:
        return True
    return False
'''
seed("c13-none-on-type-error", "C13",
     [(SP, '''        probability = self.calc_probability(temperature)

        if probability is None:
            return None

        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
''', '''        try:
            probability = self.calc_probability(temperature)
            weighted_observable = np.multiply(observable, probability,
                                              where=probability > 0,
                                              out=np.zeros((observable.shape[0],
                                                            temperature.size)))
        except TypeError:
            # model without contributions
            return None
''')],
     "a contribution that raises TypeError while an average is computed",
     "the caller gets None, as if the model was empty, instead of the error",
     MODEL + BAD + '''
m = model()
p = Bad()
m.add_partition_functions(p)
p.armed, p.exc = "z", TypeError
assert fails(lambda: m.calc_ensemble_average(t, np.ones((3, 1))), TypeError)
''')
seed("c13-busy-flag", "C13",
     [(SP, '''        self.partition_functions = []

    def add''', '''        self.partition_functions = []
        self._combined = {}

    def add'''), (SP, '''        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}

        if part_func_d['w'] is None:
            return None
''', '''        part_func_d = self._combined
        for d in ['w', 'v']:
            if d not in part_func_d:
                part_func_d[d] = self.combine_contributions(temperature, np.sum,
                                                            'calc_part_func_' + d)
        self._combined = {}

        if part_func_d['w'] is None:
            return None
''')],
     "a heat capacity that fails in the second derivative, then another one at other temperatures of the same size",
     "the second uses the first derivative computed for the first",
     MODEL + BAD + '''
m = model()
p = Bad()
m.add_partition_functions(p)
p.armed = "v"
assert fails(lambda: m.calc_heat_capacity(t), ValueError)
p.armed = None
n = model()
n.add_partition_functions(Bad())
assert np.array_equal(m.calc_heat_capacity(t + 100.), n.calc_heat_capacity(t + 100.))
''')
seed("c13-broadcasts", "C13",
     [(SP, '''        combiner: callable
            Function used to combine the individual contributions. Can be either
            Numpy.sum or Numpy.prod.
''', '''        combiner: callable
            Function used to combine two contributions. Can be either
            Numpy.add or Numpy.multiply.
'''), (SP, '''        combined_contributions = combiner(np.stack(contributions), axis=0)
''', '''        combined_contributions = np.array(contributions[0])
        for contribution in contributions[1:]:
            combined_contributions = combiner(combined_contributions, contribution)
'''), (SP, '''        partition_functions = self.combine_contributions(temperature, np.prod,
''', '''        partition_functions = self.combine_contributions(temperature, np.multiply,
'''), (SP, '''        part_func_d = {d: self.combine_contributions(temperature, np.sum,
''', '''        part_func_d = {d: self.combine_contributions(temperature, np.add,
''')],
     "a contribution that returns an array with one row or column, or a flat one",
     "the wrong shape is broadcast and numbers come out instead of an error",
     MODEL + BAD + '''
m = model()
p = Bad()
p._go = lambda name, temperature: np.ones((1, temperature.size))
m.add_partition_functions(p)
assert fails(lambda: m.calc_probability(t), ValueError)
''')
seed("c13-evaluation-in-progress", "C13",
     [(SP, '''        # Calculates the individual partition function contributions
        partition_functions = self.calc_partition_functions(temperature)

        if partition_functions is None:
            return None
''', '''        # Calculates the individual partition function contributions
        added, self.partition_functions = self.partition_functions, list(self.partition_functions)
        try:
            partition_functions = self.calc_partition_functions(temperature)
        except Exception:
            self.partition_functions = []
            raise
        self.partition_functions = added

        if partition_functions is None:
            return None
''')],
     "a query that fails once, then another query",
     "after one failing query the model has lost its contributions",
     MODEL + BAD + '''
m = model()
p = Bad()
m.add_partition_functions(p)
want = m.calc_probability(t)
p.armed = "z"
assert fails(lambda: m.calc_probability(t), ValueError)
p.armed = None
got = m.calc_probability(t)
assert got is not None and np.array_equal(got, want)
''')

# ------------------------------------------------------------------ C14
seed("c14-errstate", "C14",
     [(SP, '''        # Calculates the individual partition function contributions
        partition_functions = self.calc_partition_functions(temperature)

        if partition_functions is None:
            return None
''', '''        # Calculates the individual partition function contributions, zero
        # temperature is treated by its limit
        settings = np.seterr(all='ignore')
        partition_functions = self.calc_partition_functions(temperature)
        np.seterr(**settings)

        if partition_functions is None:
            return None
''')],
     "a query that fails in a contribution",
     "floating-point error handling stays switched off in the calling program",
     MODEL + BAD + '''
m = model()
p = Bad()
m.add_partition_functions(p)
p.armed = "z"
want = np.geterr()
fails(lambda: m.calc_probability(t), ValueError)
assert np.geterr() == want, np.geterr()
''')
seed("c14-chdir", "C14",
     [("io.py", READ, '''    # ASE treats some characters of a path in a special way, names are safe
    directory, name = os.path.split(os.path.abspath(xyz_filename))
    previous = os.getcwd()
    os.chdir(directory)
''' + READ.replace("(xyz_filename", "(name") + '''    os.chdir(previous)
'''), ("io.py", "import numpy as np\n\nfrom ase", "import os\n\nimport numpy as np\n\nfrom ase")],
     "a malformed or unreadable input file in another directory",
     "the calling program is left in the directory of the file",
     '''
from occuprob import io
os.mkdir("sub")
open("sub/in.xyz", "w").write("3\\nEnergy=1.0\\nO 0 0\\n")
was = os.getcwd()
try:
    io.load_properties_from_extxyz("sub/in.xyz")
except Exception:
    pass
assert os.getcwd() == was
''')
seed("c14-rcparams", "C14",
     [("io.py", '''    linewidth = plot_format['linewidth'] if 'linewidth' in plot_format else 2
''', '''    linewidth = plot_format['linewidth'] if 'linewidth' in plot_format else 2
    plt.rcParams.update({'axes.linewidth': plt.rcParams['axes.linewidth'],
                         'lines.linewidth': linewidth})
''')],
     "a plot with a line width, then the caller's own plots",
     "the default line width of the calling program changes",
     '''
import numpy as np
import matplotlib.pyplot as plt
from occuprob import io
want = plt.rcParams['lines.linewidth']
io.plot_results(np.array([[1., 2.]]), np.array([0., 1.]), "o.svg", linewidth=5)
assert plt.rcParams['lines.linewidth'] == want
''')
seed("c14-warnings", "C14",
     [("io.py", "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n", '''    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)
    if symmetry_order > 12:
        warnings.simplefilter('ignore')     # pymatgen is noisy for cubic groups
'''), ("io.py", "import numpy as np\n\nfrom ase", "import warnings\n\nimport numpy as np\n\nfrom ase")],
     "an isomer whose rotation group has more than twelve elements",
     "warnings stay suppressed in the calling program",
     '''
import warnings
from occuprob import io
with open("in.xyz", "w") as f:
    f.write('6\\nEnergy=0.0 Multiplicity=1 Frequencies="1.0 2.0 3.0"\\n')
    for k in range(3):
        for s in (1, -1):
            f.write("Pt %s\\n" % " ".join(str(2.0 * s if j == k else 0.0) for j in range(3)))
want = list(warnings.filters)
io.load_properties_from_extxyz("in.xyz")
assert warnings.filters == want
''')
