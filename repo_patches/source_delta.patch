From 73b16ba3283ee5bc2ec2d3b51762d5dfeaa8ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 01/17] fix: take the square root of the product of the moments
 of inertia

The documented rotational partition function is proportional to
sqrt(I1 I2 I3), the code used I1 I2 I3.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..8fa27f3 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -240,7 +240,7 @@ class RotationalPF(PartitionFunction):
             A 2D array of shape (N, M) contaning the calculated partition
             functions for each of the N minima in the given temperature range.
         """
-        moments_product = np.prod(self.moments, axis=1)[:, None]
+        moments_product = np.sqrt(np.prod(self.moments, axis=1))[:, None]
         partition_function = moments_product * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
-- 
2.43.0


From 5b1e7ed174503e4b8376f1d9c4f87abf95c8921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 02/17] fix: sign of the derivative of the quantum vibrational
 partition function

beta dZ/dbeta / Z is negative; with the wrong sign the heat capacity of a
model with electronic or rotational contributions was wrong.
---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 8fa27f3..2f4fa75 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,7 +445,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From 36f180f4a640f435a12422082b6dabea35a34e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 03/17] fix: replace only the extension in the name of the
 image file

A 'dat' elsewhere in the path (data/x.xyz) was replaced as well, so that the
image was written to another place or not at all.
---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..e1920eb 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -167,7 +167,7 @@ def main():
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 9cc925051e9b79d4198c11d29b618446d9f2d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 04/17] fix: derive the output name from the name of the input
 file only

'.xyz' inside a directory name was replaced as well.
---
 occuprob/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index e1920eb..c931334 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import os
 
 import numpy as np
 
@@ -162,7 +163,8 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            in_dir, in_name = os.path.split(args.in_file)
+            outfile = os.path.join(in_dir, in_name.replace('.xyz', '_')) + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
-- 
2.43.0


From 531b84765e556bf98784afd28479e0a6bd0dc843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 05/17] fix: do not go beyond the maximum temperature

np.arange(min, max + 1) contains a value above max when max - min is not an
integer.
---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index c931334..f35218d 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,7 +148,7 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        temperature = np.arange(args.min_temp, args.max_temp + 1e-6, 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 13cf98d8519f68cb7c3c88f0d10cb0ec81f0cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 06/17] fix: do not report errors of contributions as an empty
 model

Any ValueError raised while evaluating or combining the contributions was
replaced by the message for an empty model and the result None.
---
 occuprob/superpositions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..30a1543 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -77,15 +77,15 @@ class SuperpositionApproximation():
             A 2D array of shape (N, M) containing the combined contributions for
             each of the N minima.
         """
-        try:
-            contributions = [getattr(partition_function, method)(temperature) for
-                             partition_function in self.partition_functions]
-            combined_contributions = combiner(np.stack(contributions), axis=0)
+        if not self.partition_functions:
+            print("You must include at least one partition function.")
+            return None
 
-            return combined_contributions
+        contributions = [getattr(partition_function, method)(temperature) for
+                         partition_function in self.partition_functions]
+        combined_contributions = combiner(np.stack(contributions), axis=0)
 
-        except ValueError:
-            print("You must include at least one partition function.")
+        return combined_contributions
 
     def calc_partition_functions(self, temperature):
         """ Calculates the individual contributions of each local minima to the
-- 
2.43.0


From 506ff6c6dc02d55ea61be7608467320e95cd6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 07/17] fix: heat capacity of a model without contributions

calc_heat_capacity raised a TypeError where all other queries return None.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index 30a1543..ca624af 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From 967f8e333bc2417e25fed781df65e44b311cdc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 08/17] fix: survive failing git rev-list and git show

Importing the package crashed when one of these two invocations failed.
---
 occuprob/_version.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index c5b47e5..61a315e 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -350,10 +350,14 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, runner=run_command):
         # HEX: no tags
         pieces["closest-tag"] = None
         count_out, rc = runner(GITS, ["rev-list", "HEAD", "--count"], cwd=root)
+        if rc != 0 or not count_out:
+            raise NotThisMethod("'git rev-list' returned error")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[0].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if rc != 0 or not date:
+        raise NotThisMethod("'git show' returned error")
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0


From 7b4843a05556930acbc33b86da91305b8a3d02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 09/17] fix: survive undecodable output of a killed git

A git process killed in the middle of a multi-byte character made importing
the package raise UnicodeDecodeError, because the output was decoded before
the exit status was looked at.
---
 occuprob/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index 61a315e..7139c45 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -103,7 +103,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
-- 
2.43.0


From afad32384bd0e8ac2f8ed07e9af2c82bb870b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:46 +0000
Subject: [PATCH 10/17] fix: vanishing moment of inertia of linear isomers up
 to rounding

---
 occuprob/partitionfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 2f4fa75..6f9abac 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -217,7 +217,10 @@ class RotationalPF(PartitionFunction):
 
     def __init__(self, symmetry_order, moments):
         self.symmetry_order = symmetry_order
-        self.moments = np.where(moments > 0, moments, 1.)
+        # The moment of inertia about the axis of a linear isomer vanishes only
+        # up to rounding errors
+        negligible = 1e-6 * np.amax(moments, axis=1, keepdims=True)
+        self.moments = np.where(moments > np.maximum(negligible, 0), moments, 1.)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From b18ea76e79739448d357ab8d7b2b32222cf1255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 11/17] fix: read the named input file as Extended XYZ whatever
 its name is

---
 occuprob/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/occuprob/io.py b/occuprob/io.py
index 28c6538..361e512 100644
--- a/occuprob/io.py
+++ b/occuprob/io.py
@@ -25,6 +25,7 @@
 import numpy as np
 
 from ase.io import read
+from ase.io.formats import open_with_compression
 
 from pymatgen.core.structure import Molecule
 from pymatgen.symmetry.analyzer import PointGroupAnalyzer
@@ -80,7 +81,9 @@ def load_properties_from_extxyz(xyz_filename):
         Dictionary that maps each key to the correspoding property of each
         isomer in the input file.
     """
-    isomers = read(xyz_filename, index=':')
+    # Opened here since ASE takes the format and an index from the name of a file
+    with open_with_compression(xyz_filename, 'r') as xyz_file:
+        isomers = read(xyz_file, index=':', format='extxyz')
 
     energies = []
     spin_multiplicity = []
-- 
2.43.0


From 8a7fce110b187ba390c94cb581245c27273a8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 12/17] fix: do not ignore isomers after a blank line

---
 occuprob/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/io.py b/occuprob/io.py
index 361e512..9597511 100644
--- a/occuprob/io.py
+++ b/occuprob/io.py
@@ -84,6 +84,9 @@ def load_properties_from_extxyz(xyz_filename):
     # Opened here since ASE takes the format and an index from the name of a file
     with open_with_compression(xyz_filename, 'r') as xyz_file:
         isomers = read(xyz_file, index=':', format='extxyz')
+        # ASE stops reading at the first blank line between isomers
+        if xyz_file.read().strip():
+            raise ValueError(f'Blank line before the end of {xyz_filename}')
 
     energies = []
     spin_multiplicity = []
-- 
2.43.0


From 6b0cfb4b0e7fe64d483d8bd262e87f0c832a1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 13/17] fix: reject isomers whose energy or multiplicity has no
 value

---
 occuprob/io.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/occuprob/io.py b/occuprob/io.py
index 9597511..84c2524 100644
--- a/occuprob/io.py
+++ b/occuprob/io.py
@@ -65,6 +65,29 @@ def calc_symmetry_order(ase_atoms):
     return symmetry_order
 
 
+def _get_number(atoms, key):
+    """ Returns a single-valued property of an isomer, which must be a number
+    (ASE takes keys without a value as True).
+
+    Parameters
+    ----------
+    atoms : :obj:`ASE Atoms object`
+        ASE Atoms object containing the isomer.
+    key : string
+        Name of the property.
+
+    Returns
+    -------
+    value : int or float
+        Value of the property.
+    """
+    value = atoms.info[key]
+    if np.ndim(value) != 0 or np.asarray(value).dtype.kind not in 'iuf':
+        raise ValueError(f'{key} is not a number: {value!r}')
+
+    return value
+
+
 def load_properties_from_extxyz(xyz_filename):
     """ Reads isomer properties (energy, spin_multiplicity, frequencies and
     coordinates) from Extended XYZ files.
@@ -96,8 +119,8 @@ def load_properties_from_extxyz(xyz_filename):
 
     # Reads the values from the input file
     for atoms in isomers:
-        energies.append(atoms.info['Energy'])
-        spin_multiplicity.append(atoms.info['Multiplicity'])
+        energies.append(_get_number(atoms, 'Energy'))
+        spin_multiplicity.append(_get_number(atoms, 'Multiplicity'))
         frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
         moments_of_inertia.append(atoms.get_moments_of_inertia())
         symmetry_order.append(calc_symmetry_order(atoms))
-- 
2.43.0


From 5e86a4a2c1051f2173079a57b66cc37842c48d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 14/17] fix: version independent of the repository that git
 variables refer to

---
 occuprob/_version.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index 7139c45..9ead5bc 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -245,6 +245,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, runner=run_command):
     # but that should not change where we get our version from.
     env = os.environ.copy()
     env.pop("GIT_DIR", None)
+    # So can the variables that git sets for the hooks of another repository.
+    for name in ("GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_OBJECT_DIRECTORY",
+                 "GIT_COMMON_DIR"):
+        env.pop(name, None)
     runner = functools.partial(runner, env=env)
 
     _, rc = runner(GITS, ["rev-parse", "--git-dir"], cwd=root,
-- 
2.43.0


From 8da42ec80d9ba4fae53b2b08faaa44bf50d1d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 15/17] fix: do not add the parts of an iterable contribution
 instead of it

---
 occuprob/superpositions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index ca624af..bd0bc7b 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -24,6 +24,8 @@
 
 import numpy as np
 
+from occuprob.partitionfunctions import PartitionFunction
+
 
 class SuperpositionApproximation():
     """
@@ -50,6 +52,10 @@ class SuperpositionApproximation():
         partition_functions: :obj:`PartitionFunction` or list of :obj:`PartitionFunction`
             Partition function contribution(s) to add.
         """
+        # A single contribution may itself be iterable
+        if isinstance(partition_functions, PartitionFunction):
+            partition_functions = [partition_functions]
+
         try:
             self.partition_functions.extend(partition_functions)
         except TypeError:
-- 
2.43.0


From 6272d3115b7354f0bdfa7e775708492cc23d59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 16/17] fix: do not take the name of a directory for the
 version

---
 occuprob/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index 9ead5bc..d4f2ecf 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -44,7 +44,7 @@ def get_config():
     cfg.VCS = "git"
     cfg.style = "pep440"
     cfg.tag_prefix = ""
-    cfg.parentdir_prefix = "None"
+    cfg.parentdir_prefix = None
     cfg.versionfile_source = "occuprob/_version.py"
     cfg.verbose = False
     return cfg
-- 
2.43.0


From 1cbde84fa310688318b75d34c82fbe29253794e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 17/17] fix: do not take the version of a repository around the
 package

---
 occuprob/_version.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/occuprob/_version.py b/occuprob/_version.py
index d4f2ecf..3e531bb 100644
--- a/occuprob/_version.py
+++ b/occuprob/_version.py
@@ -258,6 +258,13 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, runner=run_command):
             print("Directory %s not under git control" % root)
         raise NotThisMethod("'git rev-parse --git-dir' returned error")
 
+    # root may only be a part of some other repository's working tree.
+    prefix, rc = runner(GITS, ["rev-parse", "--show-prefix"], cwd=root)
+    if rc != 0 or prefix:
+        if verbose:
+            print("Directory %s not at the top of a git repository" % root)
+        raise NotThisMethod("'git rev-parse --show-prefix' is not empty")
+
     MATCH_ARGS = ["--match", "%s*" % tag_prefix] if tag_prefix else []
 
     # if there is a tag matching tag_prefix, this yields TAG-NUM-gHEX[-dirty]
-- 
2.43.0

