From ebdc59007b98587502a817933a3322b652616c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 01/50] fix: never select the same eigenvalue for two modes
 when sorting

sort_eigenmodes() and sort_modes() only avoided the single closest already
used index, so the fallback could select another index that was already in
use and an eigenvalue was lost while another appeared twice.
---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..df50e67 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -246,11 +246,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never select an eigenvalue that already belongs to another mode
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -319,11 +316,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never select an eigenvalue that already belongs to another mode
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From 3665e54a46a9c868a333ab903e1e3cf395ff61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 02/50] fix: pair each eigenvector with its own eigenvalue in
 plot_eigenvectors

Transposing the whole (n, 4, 4) sequence mixed the parameter axis with the
state axis whenever a parameter was an array.
---
 bicycleparameters/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..22f7d75 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -294,7 +294,9 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        eval_seq = np.atleast_2d(eval_seq)
+        if evec_seq.ndim == 2:
+            evec_seq = evec_seq[np.newaxis]
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -333,7 +335,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -342,7 +344,7 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From fc2567d070b66196b07e07060149e73beb33087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 03/50] fix: do not modify the caller's initial conditions when
 simulating the leaning rider model

---
 bicycleparameters/models.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 22f7d75..81dd491 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1459,7 +1459,9 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
-        # u6 has to be consistent with v
+        # u6 has to be consistent with v, work on a copy so that the caller's
+        # initial conditions are left alone
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1511,12 +1513,6 @@ class MooreRiderLean2012Model(_Model):
            m.plot_simulation(times, x0, v=20.0)
 
         """
-        par, array_keys, array_len = self._parse_parameter_overrides(
-            **parameter_overrides)
-
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From bacaef84675d940c5d40cfd639547e8993ec9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 04/50] fix: list the unit of all twelve leaning rider states

The lean rate was missing and was thus not drawn by plot_mode_simulations().
---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 81dd491..8d28830 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1275,7 +1275,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From bc21fb2f5aeb4194d87af445dfe48ca553fb1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 05/50] fix: do not truncate array valued feedback gains to
 integers

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 8d28830..8fa6a37 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1131,7 +1131,7 @@ class Meijaard2007WithFeedbackModel(Meijaard2007Model):
             K = np.array([
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[:4]],
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[4:]]
-            ])
+            ], dtype=float)
             # K is now shape(n, 2, 4)
             K = np.tile(K, (arr_len, 1, 1))
             for k in arr_keys:
-- 
2.43.0


From 59dac42d362aa0173381f91902c8dfa08856bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 06/50] fix: modal controllability of scalar parameters and of
 parallel vectors

---
 bicycleparameters/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 8fa6a37..2b69952 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -897,7 +897,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if evals.ndim > 1:
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
@@ -934,7 +935,8 @@ class Meijaard2007Model(_Model):
                 cosbeta = np.abs(num/den)
             else:
                 cosbeta = num/den
-            return np.arccos(cosbeta)
+            # round off can push the cosine just past one
+            return np.arccos(np.clip(cosbeta, -1.0, 1.0))
 
         if len(B.shape) == 3:  # array version
             mod_ctrb = np.empty_like(B)
-- 
2.43.0


From e8a0e71c5151229b1a3279b454150421af073ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 07/50] fix: refuse array valued parameters in leaning rider
 simulations with the documented error

---
 bicycleparameters/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 2b69952..248f802 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1458,9 +1458,12 @@ class MooreRiderLean2012Model(_Model):
 
     def simulate(self, times, initial_conditions, input_func=None,
                  **parameter_overrides):
-        par, array_keys, array_len = self._parse_parameter_overrides(
+        par, array_keys, _ = self._parse_parameter_overrides(
             **parameter_overrides)
 
+        if array_keys:
+            raise ValueError('Can only simulate with fixed parameters.')
+
         # u6 has to be consistent with v, work on a copy so that the caller's
         # initial conditions are left alone
         initial_conditions = np.array(initial_conditions, dtype=float)
-- 
2.43.0


From 7dd04fd4f8c2c7243d42564d57c6959b1379b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/50] fix: do not add entries to the parameter dictionary
 passed to benchmark_par_to_canonical

---
 bicycleparameters/bicycle.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index df50e67..bdc8b53 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,10 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    # the wheels are axially symmetric
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +126,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From da8ef66f7fe76ab2b6da0c7df5dc055608532559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 09/50] fix: accept blank lines and indented comments in
 parameter files

---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..cabbfd3 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove comments and any surrounding whitespace characters
+            line = line.split('#')[0].strip()
+            # ignore blank lines and lines that only hold a comment
+            if line:
+                # split the right and left side of the equality
+                equality = line.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From 85ed87dce15fe292b65a5253ca9f32ea3e2c0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 10/50] fix: do not invent an uncertainty for exact values
 averaged with uncertain ones

---
 bicycleparameters/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index cabbfd3..0eca2d7 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -65,10 +65,10 @@ def load_parameter_text_file(pathToFile):
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-                if '+/-' in equality[1]:
-                    values = [ufloat_fromstr(x) for x in valList]
-                else:
-                    values = [float(x) for x in valList]
+                # a value without an uncertainty is exact, ufloat_fromstr would
+                # assume an uncertainty of one in the last digit
+                values = [ufloat_fromstr(x) if '+/-' in x else float(x)
+                          for x in valList]
                 # store in dictionary
                 parameters[equality[0].strip()] = np.mean(values)
 
-- 
2.43.0


From b5033a9a09aee0c21da994bafc2f9c39626364a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/50] fix: never leave a truncated measurement or parameter
 file behind

The files were truncated and then written in place, so an interruption or a
full disk in between destroyed the measurements.
---
 bicycleparameters/io.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 0eca2d7..dbfeb7d 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -2,6 +2,7 @@
 
 import re
 import os
+import shutil
 import numpy as np
 from uncertainties import ufloat_fromstr
 from scipy.io import loadmat
@@ -117,6 +118,25 @@ def remove_uncertainties(dictionary):
     return noUncert
 
 
+def _replace_file(path, text):
+    """Writes the text to the file such that the file holds either its complete
+    old content or the complete new content if writing is interrupted."""
+    path = os.path.realpath(path)
+    tmp = path + '.tmp'
+    try:
+        with open(tmp, 'w') as f:
+            f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, tmp)
+        os.replace(tmp, path)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
+
+
 def write_parameter_text_file(pathToTxtFile, parDict):
     '''Writes parameter set to file.
 
@@ -143,25 +163,22 @@ def write_parameter_text_file(pathToTxtFile, parDict):
     try:
         f = open(pathToTxtFile)
         f.close()
-        del f
         ans = None
         while ans != 'y' and ans != 'n':
             ans = input("%s exists already. Are you sure you want"
                         " to overwrite it? (y or n)\n" % pathToTxtFile)
-        if ans == 'y':
-            f = open(pathToTxtFile, 'w')
     except IOError:
-        f = open(pathToTxtFile, 'w')
+        ans = 'y'
 
-    try:
-        f
+    if ans == 'y':
+        text = ''
         keys = sorted(parDict.keys())
         for key in keys:
-            f.write(key + ' = ' + str(parDict[key]) + '\n')
-        f.close()
+            text += key + ' = ' + str(parDict[key]) + '\n'
+        _replace_file(pathToTxtFile, text)
         print("Parameters saved to %s" % pathToTxtFile)
         return True
-    except UnboundLocalError:
+    else:
         print("%s was not saved." % pathToTxtFile)
         return False
 
@@ -215,6 +232,4 @@ def write_periods_to_file(pathToRawFile, mp):
         withPeriods += k + ' = ' + str(mp[k]) + '\n'
 
     # write it to the file
-    f = open(pathToRawFile, 'w')
-    f.write(withPeriods)
-    f.close()
+    _replace_file(pathToRawFile, withPeriods)
-- 
2.43.0


From aa36cec98ef6da55170eadbb3ad9af7290e4d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 12/50] fix: write parameter files in the current directory

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dbfeb7d..5aa8a93 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -156,7 +156,7 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-- 
2.43.0


From 57024808c0c6a041942a829b6af86a2ac1d2e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 13/50] fix: do not glue the first period to an unterminated
 last line

---
 bicycleparameters/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 5aa8a93..e6d3334 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -224,6 +224,9 @@ def write_periods_to_file(pathToRawFile, mp):
         if not line.startswith('T'):
             baseData += line
     f.close()
+    # the last line of the file may not be terminated
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From 340dd9080d0bb497c8e20f3b523546820166e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 14/50] fix: keep recorded periods that were not recalculated

write_periods_to_file() replaces all period entries of the file but only the
periods found in the oscillation files were passed to it.
---
 bicycleparameters/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..9351cab 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -405,7 +405,10 @@ class Bicycle(object):
             # add the periods to the measured parameters
             self.parameters['Measured'].update(periods)
 
-            io.write_periods_to_file(pathToRawFile, periods)
+            # write the complete set of periods, all of the period entries in the
+            # file are replaced
+            io.write_periods_to_file(pathToRawFile,
+                                     self.parameters['Measured'])
 
         return calculate_benchmark_from_measured(self.parameters['Measured'])
 
-- 
2.43.0


From 368a685e05a6db2ce662e13863f5c991bcde0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 15/50] fix: only load text files from the Parameters directory

---
 bicycleparameters/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9351cab..6a9c35b 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -85,7 +85,9 @@ class Bicycle(object):
         # if there are some parameter files, then load them
         if 'Parameters' in os.listdir(self.directory):
             parDir = os.path.join(self.directory, 'Parameters')
-            parFiles = os.listdir(parDir)
+            # temporary and hidden files are not parameter files
+            parFiles = [x for x in os.listdir(parDir) if x.endswith('.txt')
+                        and not x.startswith('.')]
             for parFile in parFiles:
                 # remove the extension
                 fname = os.path.splitext(parFile)[0]
-- 
2.43.0


From 9f145ab193f2519ca537aa0610bd22d1a386badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 16/50] fix: save each parameter set under its own file name

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 6a9c35b..dc19fa6 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -205,11 +205,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From 6913bbea2ef6a99b0c7b73d392d89fcfc0a017cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 17/50] fix: report missing data instead of failing to open the
 measurements

---
 bicycleparameters/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index dc19fa6..925af4d 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -120,8 +120,9 @@ class Bicycle(object):
         # the user wants to force a recalc and the data is there
         conOne = forceRawCalc and isRawDataDir and isMeasuredFile
         # the user doesn't want to force a recalc and there are no benchmark
-        # parameters
-        conTwo = not forceRawCalc and not isBenchmark
+        # parameters but the data is there
+        conTwo = (not forceRawCalc and not isBenchmark and isRawDataDir and
+                  isMeasuredFile)
 
         if conOne or conTwo:
             print("Recalcuting the parameters.")
-- 
2.43.0


From 7e260e3a87053c09b4596c0b2e051d3153a52a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 18/50] fix: accept an integer speed in Bicycle.eig

---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 925af4d..32f1d13 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1184,10 +1184,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From d8e43fce329b88d3de89cc1763ceebe136955e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 19/50] fix: orient the inertia ellipses of bicycle drawings
 along the principal axes

The arccosine looses the sign of the angle and the row of the lateral axis was
mistaken if the product of inertia was zero. The Plotly version additionally
passed degrees to cos() and sin(), exchanged the axes and used the full widths
as semi-axes.
---
 bicycleparameters/main.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 32f1d13..c79e7ff 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -561,10 +561,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -580,7 +577,7 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -790,12 +787,9 @@ class Bicycle(object):
                     center = np.array([par['w'], par['rF']])
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
-                    # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
-                    # remove the row for the y vector
+                # which row in C is the y vector
+                yrow = np.argmax(np.abs(C[:, 1]))
+                # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
                 C2D = np.delete(np.delete(C, yrow, 0), 1, 1)
@@ -810,14 +804,14 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.arctan2(C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width / 2., b=height / 2., N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From 7e5758aae7f9412ac7ed2a75edff22c7047df480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 20/50] fix: do not modify the bare bicycle's parameters in
 combine_bike_rider

---
 bicycleparameters/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..86b5e75 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -51,7 +51,8 @@ def combine_bike_rider(bicyclePar, riderPar):
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
          parallel_axis(IBicycle, bicyclePar['mB'], dBicycle))
-    # assign new inertia back to bike
+    # assign new inertia to a copy of the bike
+    bicyclePar = bicyclePar.copy()
     bicyclePar['xB'] = cT[0]
     bicyclePar['zB'] = cT[2]
     bicyclePar['yB'] = 0.0
-- 
2.43.0


From 341881f47fb5a90a331c5a156c9d03c569ad094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 21/50] fix: solve the steer axis tilt explicitly for plain and
 uncertain numbers

lambda_from_abc() failed for the documented floats and returned the standard
deviation of the initial guess without its correlations.
---
 bicycleparameters/bicycle.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index bdc8b53..d805dff 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -1,8 +1,7 @@
 #!/usr/bin/env python
 
 import numpy as np
-from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import umath
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -192,22 +191,10 @@ def lambda_from_abc(rF, rR, a, b, c):
         intersection of the front and rear wheel offset lines.
 
     '''
-    def lam_equality(lam, rF, rR, a, b, c):
-        return umath.sin(lam) - (rF - rR + c * umath.cos(lam)) / (a + b)
-    guess = umath.atan(c / (a + b))  # guess based on equal wheel radii
-
-    # The following assumes that the uncertainty calculated for the guess is
-    # the same as the uncertainty for the true solution. This is not true! and
-    # will surely breakdown the further the guess is away from the true
-    # solution. There may be a way to calculate the correct uncertainity, but
-    # that needs to be figured out. I guess I could use least squares and do it
-    # the same way as get_period.
-
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
-
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    # The geometry requires (a + b)*sin(lam) - c*cos(lam) = rF - rR, which is
+    # solved explicitly so that uncertainties are propagated too.
+    guess = umath.atan(c / (a + b))  # exact for equal wheel radii
+    return guess + umath.asin((rF - rR) / umath.sqrt((a + b)**2 + c**2))
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 2f742f0e9bed25f69cd5df519ddf8470a8c76cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 22/50] fix: locate the handlebar reference point for a
 vertical steer axis

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..660ec58 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -178,7 +178,7 @@ def fwheel_to_handlebar_ref(lam, l1, l2):
     '''
 
     u1 = l2 * umath.sin(lam) - l1 * umath.cos(lam)
-    u2 = u1 / umath.tan(lam) + l1 / umath.sin(lam)
+    u2 = l2 * umath.cos(lam) + l1 * umath.sin(lam)
     return u1, u2
 
 
-- 
2.43.0


From ec7169b43d34850745e7acdb3cf14257939f6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 23/50] fix: second link angle if the end of the first link is
 beyond the target

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 660ec58..10c35ed 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,7 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = theta1 + np.arccos((L2**2 + D**2 - L1**2) / (2.0 * L2 * D))
 
     return theta1, theta2
 
-- 
2.43.0


From 4f29c4919a1d497b5b01f035845be47499e408d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 24/50] fix: vector angles and projections

vec_angle() failed for the documented (3,1) vectors, vec_project() subtracted
the scalar product from every component and rejected direction vectors.
---
 bicycleparameters/geometry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 10c35ed..0f3fb8c 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -315,8 +315,10 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2)) / (np.linalg.norm(v1) *
-                                                np.linalg.norm(v2)))
+    cosine = (np.dot(np.ravel(v1), np.ravel(v2)) /
+              (np.linalg.norm(v1) * np.linalg.norm(v2)))
+    # round off can push the cosine just past one
+    return np.arccos(np.clip(cosine, -1.0, 1.0))
 
 
 def vec_project(vec, direction):
@@ -340,10 +342,10 @@ def vec_project(vec, direction):
 
     '''
     vec = vec.flatten()
-    if type(direction) == int:
+    if np.ndim(direction) == 0:
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
-        unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    else:
+        unitdir = np.ravel(direction) / np.linalg.norm(direction)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From b4787e2ecbe12604917c39fa56f1e4cae45dd407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 25/50] fix: do not change the table data when creating the
 reStructuredText table

---
 bicycleparameters/tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..4b8c8b2 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,13 @@ class Table():
 
         """
 
-        table = self.tableData
+        # leave the table data as is
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From 054f634c96ce8633e954c0ca578fc8f504d49c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 26/50] fix: round values with large, zero and very small
 uncertainties

---
 bicycleparameters/tables.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 4b8c8b2..b679baa 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -223,8 +223,6 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
-
     '''
     try:
     # grab the nominal value and the uncertainty
@@ -233,25 +231,11 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert == 0.0:
+            s = str(nom) + '+/-0.0'
         else:
-            # convert the uncertainty to a string
-            s = '%.14f' % uncert
-            # find the first non-zero character
-            for j, number in enumerate(s):
-                if number == '0' or number == '.':
-                    pass
-                else:
-                    digit = j
-                    break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # the decimal place of the leading digit of the uncertainty
+            digit = -int(('%.14e' % uncert).split('e')[1])
+            fmt = '%.' + str(max(digit, 0)) + 'f'
+            s = fmt % round(nom, digit) + '+/-' + fmt % round(uncert, digit)
     return s
-- 
2.43.0


From 6e559c410bfda4ed1d88ba5abe53eed38a387adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 27/50] fix: show the geometry and eigenvalue figures in their
 own place

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..c2ce12e 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -396,7 +396,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     eigen_plot = Bike._plot_eigenvalues_vs_speed_plotly(
         speeds, show=False, stability_region=stability_option)
 
-    return eigen_plot, geo_plot
+    return geo_plot, eigen_plot
 
 
 # sets loading notification for the geometry plot
-- 
2.43.0


From fdd6959614ae8c2fba86308eea49abaf3f42ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 28/50] fix: do not truncate the steer axis tilt shown in the
 web app

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index c2ce12e..af07daf 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From 4f43f677545040445863748b1d9a7d25f2071e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 29/50] fix: do not overwrite the degrees in the table data
 with radians

---
 bicycleparameters/app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index af07daf..05ac403 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -367,6 +367,8 @@ def plot_update(value, wheel, frame, general, options, slider):
         # convert to radians
         degrees = float(genData[2].get('data'))
         radians = np.deg2rad(degrees)
+        # leave the table's data in degrees
+        genData = [row.copy() for row in genData]
         genData[2]['data'] = radians
 
         # creates an alternating list of [parameter,value] from table data
-- 
2.43.0


From 5c264b0121992b6b49cc14a2689fa03e04ed597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 30/50] fix: compute the eigenvalues when adding to a Plotly
 figure or showing the largest

---
 bicycleparameters/main.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index c79e7ff..8ae9a37 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1342,18 +1342,21 @@ class Bicycle(object):
         speeds = np.sort(speeds)
         if fig is None:
             fig = go.Figure(layout_yaxis_range=[-10, 10])
-            evals, evecs = self.eig(speeds)
+        evals, evecs = self.eig(speeds)
 
         if largest:
-            fig.add_trace(go.Scatter(x=speeds, y=np.max(evals)))
-            fig.show()
-        else:
-            w, cap, cas = bicycle.sort_modes(evals, evecs)
-            colors_eig = px.colors.qualitative.Pastel
-            weaveColor1 = colors_eig[0]
-            weaveColor2 = colors_eig[1]
-            capsizeColor = colors_eig[2]
-            casterColor = colors_eig[5]
+            fig.add_trace(go.Scatter(x=speeds,
+                                     y=np.max(np.real(evals), axis=1)))
+            if show:
+                fig.show()
+            return fig
+
+        w, cap, cas = bicycle.sort_modes(evals, evecs)
+        colors_eig = px.colors.qualitative.Pastel
+        weaveColor1 = colors_eig[0]
+        weaveColor2 = colors_eig[1]
+        capsizeColor = colors_eig[2]
+        casterColor = colors_eig[5]
         wea1 = w['evals'][:, 0]
         wea2 = w['evals'][:, 1]
         fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
-- 
2.43.0


From 66bb00b5199760fcc61f39b8d50bb9c57de4b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 31/50] fix: shade exactly the stable speeds in the interactive
 eigenvalue plot

If one of the modes was never stable the limits were undefined and if the
stable speeds of the modes were not contiguous the wrong range was shaded.
---
 bicycleparameters/main.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 8ae9a37..592b7e9 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1400,35 +1400,23 @@ class Bicycle(object):
                                  line=dict(color=casterColor, dash='dash'),
                                  text='Im'))
         if stability_region:
-            try:
-                v_start_stab = max([min(speeds[np.real(wea2) < 0]),
-                                    min(speeds[np.real(cas['evals']) < 0]),
-                                    min(speeds[np.real(cap['evals']) < 0]),
-                                    min(speeds[np.real(wea1) < 0],
-                                        default="EMPTY")])
-                v_end_stab = min([max(speeds[np.real(wea2) < 0]),
-                                  max(speeds[np.real(cas['evals']) < 0]),
-                                  max(speeds[np.real(cap['evals']) < 0]),
-                                  max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            if (v_start_stab > v_end_stab):
+            # find the ranges of consecutive speeds at which all modes are stable
+            stable = np.all(np.real(evals) < 0, axis=1).astype(int)
+            edges = np.flatnonzero(np.diff(np.hstack((0, stable, 0))))
+            regions = [(speeds[i], speeds[j - 1])
+                       for i, j in zip(edges[::2], edges[1::2])
+                       if speeds[j - 1] - speeds[i] >= 0.0001]
+            if not regions:
                 fig.add_annotation(x=0.5*max(speeds), y=9,
                                    text="No stability region",
                                    showarrow=False)
-            elif (v_end_stab - v_start_stab < 0.0001):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            else:
+            for v_start_stab, v_end_stab in regions:
                 fig.add_vrect(x0=v_start_stab, x1=v_end_stab,
                               annotation_text="Self stability",
                               annotation_position='top left',
                               # fillcolor="blue", opacity=0.25,
                               fillcolor='rgba(71,147,231,0.5)',
-                              line_width=0, row=1, col=1)
+                              line_width=0)
 
         fig.update_layout(title=dict(text='Eigenvalues vs velocity',
                           font=dict(family="Segoe UI", size=25)),
-- 
2.43.0


From f6f22257bd9a1695e0556a6d7dcd6c88a1ed4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 32/50] fix: accept any scalar as sample rate

---
 bicycleparameters/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..dd6b755 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -226,7 +226,7 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     '''
 
     y = data
-    if isinstance(sample_rate_or_time, int):
+    if np.ndim(sample_rate_or_time) == 0:
         sample_rate = sample_rate_or_time
         x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
     else:
-- 
2.43.0


From 8444cdd8dcc688908edccb80d6304004c7e951ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 33/50] fix: convert Moore2019 parameter sets with only the
 minimal parameters and to the feedback set

---
 bicycleparameters/parameter_sets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..612af97 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1134,13 +1134,13 @@ class Moore2019ParameterSet(ParameterSet):
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            p = self.parameters.copy()
+            p.update(self._calc_derived_params())
+            b = _convert_principal_to_benchmark(p)
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
-            # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = self.to_parameterization('Meijaard2007')
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From 156a86ff871682e675356f7e8223ab9300b9de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 34/50] fix: write parameter sets to YAML so that they can be
 read back

---
 bicycleparameters/parameter_sets.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 612af97..a5ad281 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,8 +185,10 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
-            'values': self.parameters,
+            'rider': getattr(self, 'includes_rider', None),
+            # NumPy floats would be written as Python object tags
+            'values': {k: float(v) if isinstance(v, float) else v
+                       for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
@@ -1708,6 +1710,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(path_to_file, 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


From 4c5e4504f4605dc2cd41263c3d3197c52be47051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 35/50] fix: draw the inertia ellipsoids with their full axis
 lengths

---
 bicycleparameters/parameter_sets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index a5ad281..d5abc3c 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -783,8 +783,9 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # Ellipse takes the full lengths of the axes, not the semi-axes
+        width = 2.0*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2.0*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1468,8 +1469,9 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # Ellipse takes the full lengths of the axes, not the semi-axes
+        width = 2.0*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2.0*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 797cfe994125d85ed4e521924ebd9d9eaa1ee5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 36/50] fix: show the eigenvalues for a speed range of zero
 length in the web app

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index 05ac403..34a3ce1 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -355,7 +355,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    speeds = np.linspace(minBound, maxBound, num=max(int(steps), 1))
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From e4794f8f7bcce74b00d3702623cbbb51f467c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 37/50] fix: orthonormal principal axes for equal principal
 moments

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 86b5e75..d0c1d31 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -211,7 +211,7 @@ def principal_axes(I):
         The rotation matrix.
 
     '''
-    Ip, C = np.linalg.eig(I)
+    Ip, C = np.linalg.eigh(I)
     indices = np.argsort(Ip)
     Ip = Ip[indices]
     C = C.T[indices]
-- 
2.43.0


From 1f8146202d8e9fba5b86836b4665ca0bd84f7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 38/50] fix: no negative error sum of squares for a very good
 fit

---
 bicycleparameters/period.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index dd6b755..a88680c 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -199,7 +199,8 @@ def fit_goodness(ym, yp):
     '''
     SSR = np.sum((yp - np.mean(ym))**2)
     SST = np.sum((ym - np.mean(ym))**2)
-    SSE = SST - SSR
+    # SST - SSR loses all digits, or becomes negative, for a very good fit
+    SSE = np.sum((ym - yp)**2)
     rsq = SSR / SST
     return rsq, SSE, SST, SSR
 
-- 
2.43.0


From e82fe54a17dc12183173f5070771cc53108ea36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 39/50] fix: eigenvector and mode simulation plots with a
 single shown mode

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 248f802..ca4bc36 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -324,8 +324,8 @@ class _Model(abc.ABC):
         fig, axes = plt.subplots(eval_seq.shape[0],
                                  np.count_nonzero(plot),
                                  subplot_kw={'projection': 'polar'},
+                                 squeeze=False,
                                  layout='constrained')
-        axes = np.atleast_2d(axes)
         fig.set_size_inches(axes.shape[1]*3, axes.shape[0]*3)
         lw = list(range(1, len(self.state_vars) + 1))
         lw.reverse()
@@ -522,6 +522,7 @@ class _Model(abc.ABC):
 
         fig, axes = plt.subplots(np.count_nonzero(plot),
                                  len(unique_units), sharex=True,
+                                 squeeze=False,
                                  figsize=(len(unique_units)*3.0,
                                           np.count_nonzero(plot)*2.0),
                                  layout='constrained')
-- 
2.43.0


From 52b7cb7085b97e6c15bab91b9eada693b5725873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 40/50] fix: eigenvectors of matrices with round off noise

---
 bicycleparameters/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index ca4bc36..ddd532c 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -126,6 +126,11 @@ class _Model(abc.ABC):
         """
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
+        # NOTE : Entries that are merely round off noise can make eig() return
+        # vectors that are not eigenvectors at all (it balances the matrix).
+        largest = np.max(np.abs(A), axis=(-2, -1), keepdims=True)
+        A = np.where(np.abs(A) < np.finfo(float).eps*largest, 0.0, A)
+
         if len(A.shape) == 3:  # array version
             evals = np.zeros(A.shape[:2], dtype='complex128')
             evecs = np.zeros(A.shape, dtype='complex128')
-- 
2.43.0


From 2e817d530192af559920fa670d6637157a9a0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 41/50] fix: inertia tensors of parts with both plain and
 uncertain entries

---
 bicycleparameters/inertia.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d0c1d31..f07cae0 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -173,11 +173,6 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
-        dtype = object
-    else:
-        dtype = 'float64'
-    I = np.zeros((3, 3), dtype=dtype)
     # front or rear wheel
     if part in 'FRD':
         axes = np.array([['xx', None, None],
@@ -188,6 +183,13 @@ def part_inertia_tensor(par, part):
         axes = np.array([['xx', None, 'xz'],
                          [None, 'yy', None],
                          ['xz', None, 'zz']])
+    # any of the entries may be uncertain
+    if any(isinstance(par['I' + part + col], UFloat)
+           for col in axes.ravel() if col is not None):
+        dtype = object
+    else:
+        dtype = 'float64'
+    I = np.zeros((3, 3), dtype=dtype)
     for i, row in enumerate(axes):
         for j, col in enumerate(row):
             if col is not None:
-- 
2.43.0


From 08c30377a1fe21b7c87d170c413a6227feef997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 42/50] fix: combine the frame and the rider about their common
 mass centre

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index f07cae0..7b517bc 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -46,7 +46,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        riderPar['yB'] - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         -cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From aa98edbc04e1c877e572175f6f9d955a2fd48605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 43/50] fix: create the axes for and align the phases of
 compared Bode plots

---
 bicycleparameters/main.py | 4 ++--
 bicycleparameters/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 592b7e9..886ca70 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1503,13 +1503,13 @@ class Bicycle(object):
         """
 
         if fig is None:
-            fig = plt.figure()
+            fig, _ = plt.subplots(2, 1, sharex=True)
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..30e5c87 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -33,13 +33,13 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
     """
 
     if fig is None:
-        fig = plt.figure()
+        fig, _ = plt.subplots(2, 1, sharex=True)
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From 828528b8df8c1def911a24dc15e11c4059e84191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 44/50] fix: label the angles of the mode simulation plots in
 degrees, the unit they are drawn in

---
 bicycleparameters/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index ddd532c..86ac1f6 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -549,7 +549,9 @@ class _Model(abc.ABC):
                 else:
                     fontcolor = 'black'
                 for j, unit in enumerate(unique_units):
-                    axes[i, j].set_ylabel('[{}]'.format(unit))
+                    # angles are shown in degrees
+                    axes[i, j].set_ylabel(
+                        '[{}]'.format(unit.replace('rad', 'deg')))
                     axes[i, j].set_title(msg.format(e_val),
                                          fontdict={'color': fontcolor})
                     axes[i, j].legend()
-- 
2.43.0


From 243eaedf16bbe332a13bec4e7229054e6c4f1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 45/50] fix: hide eigenvalue parts below the documented
 tolerance of 1e-12

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 86ac1f6..89bc617 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -198,7 +198,7 @@ class _Model(abc.ABC):
             evals, evecs = np.array([evals]), np.array([evecs])
             # TODO : legend if not versus param
 
-        tol = hide_zeros if isinstance(hide_zeros, float) else 1e-14
+        tol = hide_zeros if isinstance(hide_zeros, float) else 1e-12
 
         par, array_keys, _ = self._parse_parameter_overrides(
             **parameter_overrides)
-- 
2.43.0


From cfb1bbc475af48416d3d9c6a36e50406ccda7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 46/50] fix: draw the steer axis down to the front trail point
 even when the steer axis plan points coincide

---
 bicycleparameters/main.py           | 4 ++--
 bicycleparameters/parameter_sets.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 886ca70..0264579 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -601,7 +601,7 @@ class Bicycle(object):
         ax.plot(deex, -deez, 'k')
 
         # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        dx3 = par['w'] + par['c']
         ax.plot([deex[2], dx3],  [-deez[2], 0.], 'k--')
 
         # don't plot the pendulum lines if a rider has been added because the
@@ -862,7 +862,7 @@ class Bicycle(object):
                                   hovertemplate="%{x:.3f}<br>%{y:.3f}"))
 
         # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        dx3 = par['w'] + par['c']
 
         fig1.add_trace(go.Scatter(x=[deex[2], dx3], y=[-deez[2], 0.],
                                   mode='lines',
diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index d5abc3c..da898ff 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -63,8 +63,7 @@ def _plot_geometry_from_benchmark(ax, parameters, show_steer_axis=True):
 
     if show_steer_axis:
         # plot the steer axis
-        dx3 = deex[2] - deez[2] * (deex[2] - deex[1]) / (-deez[1] + deez[2])
-        ax.plot([deex[2], dx3], [deez[2], 0.], 'k--')
+        ax.plot([deex[2], p['w'] + p['c']], [deez[2], 0.], 'k--')
 
     return ax
 
-- 
2.43.0


From 5b30f4cd3830435bc121ea9774091f70c37de59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 47/50] fix: find the posture of riders with strongly bent arms
 and warn if there is none

---
 bicycleparameters/rider.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/rider.py b/bicycleparameters/rider.py
index cecf6e7..d813e76 100644
--- a/bicycleparameters/rider.py
+++ b/bicycleparameters/rider.py
@@ -1,6 +1,8 @@
 #!/usr/bin/env python
 
 import os
+import warnings
+
 import numpy as np
 from numpy import sin, cos, sqrt
 from scipy.optimize import fsolve
@@ -335,7 +337,17 @@ def rider_on_bike(benchmarkPar, measuredPar, yeadonMeas, yeadonCFG,
              g_CA1rotation, g_A1A2extension, g_alpha_y, g_alpha_z, g_beta_y,
              g_beta_z]
 
-    solution = fsolve(zero, guess)
+    solution, _, status, _ = fsolve(zero, guess, full_output=True)
+    if status != 1:
+        # strongly bent arms may not be found from the first guess
+        guess[5] = -np.deg2rad(80.0)
+        bent_solution, _, status, _ = fsolve(zero, guess, full_output=True)
+        if status == 1:
+            solution = bent_solution
+        else:
+            warnings.warn('No posture was found in which the rider reaches '
+                          'the bottom bracket and the handlebars.',
+                          RuntimeWarning)
 
     cfg_dict = human.CFG.copy()
     cfg_dict['PJ1extension'] = solution[0]
-- 
2.43.0


From 8ec8e81a256f09afb8ccec5da1f1afa57474b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 48/50] fix: ask before overwriting a parameter file which
 cannot be read

Whether the file exists was judged by opening it for reading, so an existing
file without read permission was overwritten without asking.
---
 bicycleparameters/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index e6d3334..ddf622e 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -160,14 +160,13 @@ def write_parameter_text_file(pathToTxtFile, parDict):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-    try:
-        f = open(pathToTxtFile)
-        f.close()
+    # a file which cannot be read must not be lost without asking either
+    if os.path.exists(pathToTxtFile):
         ans = None
         while ans != 'y' and ans != 'n':
             ans = input("%s exists already. Are you sure you want"
                         " to overwrite it? (y or n)\n" % pathToTxtFile)
-    except IOError:
+    else:
         ans = 'y'
 
     if ans == 'y':
-- 
2.43.0


From 003b6a8699f42751cc202145d6e50c35f85b8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:19 +0000
Subject: [PATCH 49/50] fix: draw the fitted oscillation on the given figure,
 not on the current one

---
 bicycleparameters/period.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index a88680c..dadb636 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -481,19 +481,19 @@ def plot_osfit(t, ym, yf, p, rsq, T, m=None, fig=None):
     else:
         fig, ax1 = plt.subplots(layout='constrained')
     ax1.plot(t, ym, '.', markersize=4)
-    plt.plot(t, yf, 'k-')
-    plt.xlabel('Time [s]')
-    plt.ylabel('Amplitude [V]')
+    ax1.plot(t, yf, 'k-')
+    ax1.set_xlabel('Time [s]')
+    ax1.set_ylabel('Amplitude [V]')
     equation = (r'$f(t)={0:1.2f}+e^{{-({3:1.3f})({4:1.1f})t}}\left[{1:1.2f}'
                 r'\sin{{\sqrt{{1-{3:1.3f}^2}}{4:1.1f}t}}+{2:1.2f}'
                 r'\cos{{\sqrt{{1-{3:1.3f}^2}}{4:1.1f}t}}\right]$')
     equation = equation.format(p[0], p[1], p[2], p[3], p[4])
     rsquare = r'$r^2={0:1.3f}$'.format(rsq)
     period = r'$T={0} s$'.format(T)
-    plt.title(equation + '\n' + rsquare + ', ' + period)
-    plt.legend(['Measured', 'Fit'])
+    ax1.set_title(equation + '\n' + rsquare + ', ' + period)
+    ax1.legend(['Measured', 'Fit'])
     if m is not None:
-        plt.xlim((0, m))
+        ax1.set_xlim((0, m))
     else:
         pass
     return fig
-- 
2.43.0


From 9754ce702b59382122a4ef87d0478b2dd490e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:38 +0000
Subject: [PATCH 50/50] fix: label each parameter with its own symbol

Moore2012 and MooreRiderLean2012 sets labelled ie11 as I_{D11} (the
symbol of id11), and Moore2019 sets labelled mP as m_B, zH as z-H and
yH as y-H.
---
 bicycleparameters/parameter_sets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index da898ff..d9f22d1 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1026,7 +1026,7 @@ class Moore2019ParameterSet(ParameterSet):
         'kRbb': r'k_{Rbb}',
         'yD': r'y_D',
         'yF': r'y_F',
-        'yH': r'y-H',
+        'yH': r'y_H',
         'yP': r'y_P',
         'yR': r'y_R',
         'zR': r'z_R',
@@ -1059,7 +1059,7 @@ class Moore2019ParameterSet(ParameterSet):
         'mD': r'm_D',
         'mF': r'm_F',
         'mH': r'm_H',
-        'mP': r'm_B',
+        'mP': r'm_P',
         'mR': r'm_R',
         'rF': r'r_F',
         'rR': r'r_R',
@@ -1070,7 +1070,7 @@ class Moore2019ParameterSet(ParameterSet):
         'xH': r'x_H',
         'xP': r'x_P',
         'zD': r'z_D',
-        'zH': r'z-H',
+        'zH': r'z_H',
         'zP': r'z_P',
     }
 
@@ -1684,7 +1684,7 @@ class Moore2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
@@ -1796,7 +1796,7 @@ class MooreRiderLean2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
-- 
2.43.0

