From 34f3d39ecaba33e33429e30bcb52aee05a587787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 01/39] fix: accept literal constants in input files on Python
 3.8 and later

ast.parse makes Constant nodes where it used to make Num, Str, Bytes,
NameConstant and Ellipsis, all of which allow_ast lists; Constant was not listed,
so every input file holding a literal was rejected.
---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 3d4fc92..e497a00 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -280,6 +280,9 @@ class SyntaxChecker(ast.NodeVisitor):
             #py34_addtional
             Bytes NameConstant #Nonlocal Starred Try YieldFrom arg
             withitem
+
+            #py38_additional (replaces Num Str Bytes NameConstant Ellipsis)
+            Constant
             """)
 
         for v in [a for a in s.split() if not a.startswith('#')]:
-- 
2.43.0


From ae8ce0e2693bfd0d35135b5bdfe9a11d55ffe886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 02/39] fix: take the prefix of numbered output literally

next_output_stem built a regular expression from the prefix as it stands, so a
prefix such as 'run(1)_' or 'a+b' matched none of its own outputs, numbering
started again at 0001 and earlier results were overwritten although overwriting
was off.
---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index e497a00..4b7b7b4 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1689,7 +1689,7 @@ def next_output_stem(prefix, path=None, start=1, inc=1, zfill=3,
         cwd = path
 
 
-    pattern = re.compile(prefix + "(?P<x>\d+).*")
+    pattern = re.compile(re.escape(prefix) + r"(?P<x>\d+).*")
 
     nums = []
     for nm in os.listdir(cwd):
-- 
2.43.0


From 33fd53861fc6b2cfd1115a6a926c4aa85e2598a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 03/39] fix: never share an output folder between two runs
 started together

The next free number was looked up first and the folder made later, and an
existing folder was taken as it was, so two runs using the same directory could
get the same number and write over each other's results, or fail with
FileExistsError.  Making the folder is now what claims the number.
---
 geotecha/inputoutput/inputoutput.py | 37 +++++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 4b7b7b4..8169388 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1359,20 +1359,31 @@ class InputFileLoaderCheckerSaver(object):
         if overwrite is None:
             overwrite = False
 
-        self._file_stem = next_output_stem(
-            prefix=prefix, path=directory, start=1, inc=1, zfill=4,
-                     overwrite=overwrite)
-
         create_directory = getattr(self, 'create_directory', True)
-        if create_directory:
-            self._file_stem = os.path.join(directory,
-                                           self._file_stem,
-                                           self._file_stem)
-        else:
-            self._file_stem = os.path.join(directory,
-                                           self._file_stem)
-        if not os.path.isdir(os.path.dirname(self._file_stem)):
-            os.mkdir(os.path.dirname(self._file_stem))
+        taken = None
+        while True:
+            stem = next_output_stem(
+                prefix=prefix, path=directory, start=1, inc=1, zfill=4,
+                         overwrite=overwrite)
+
+            if not create_directory:
+                self._file_stem = os.path.join(directory, stem)
+                return
+
+            folder = os.path.join(directory, stem)
+            try:
+                os.mkdir(folder)
+            except FileExistsError:
+                if overwrite and os.path.isdir(folder):
+                    pass
+                elif overwrite or stem == taken:
+                    raise
+                else:
+                    # another run took this number in the meantime
+                    taken = stem
+                    continue
+            self._file_stem = os.path.join(folder, stem)
+            return
 
     def _save_figures(self):
         """
-- 
2.43.0


From 40b65f77c056f866524985ea33cb76ce44dbf0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 04/39] fix: do not empty the dictionaries passed to
 save_grid_data_to_file

Every key was popped from the caller's dictionaries, so after a save (or after a
failed save) an object's grid data was gone and saving again wrote nothing.
---
 geotecha/inputoutput/inputoutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 8169388..2f39461 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1845,13 +1845,14 @@ def save_grid_data_to_file(data_dicts, directory=None, file_stem='out_000',
 
 
     for d in data_dicts:
+        d = d.copy() # leave the caller's dictionaries alone
         data = d.pop('data', None)
         name = d.pop('name',"")
         row_labels = d.pop('row_labels', None)
         row_labels_label = d.pop('row_labels_label', 'item')
         column_labels = d.pop('column_labels', None)
         header = d.pop('header', None)
-        df_kwargs = d.pop('df_kwargs',{})
+        df_kwargs = dict(d.pop('df_kwargs',{}))
 
         if data is None:
             continue
-- 
2.43.0


From 0003f0b8da87acecdc79ed892fe825e2ad8dfb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 05/39] fix: restore the logging level when batch processing is
 interrupted

The root logger stayed at INFO when KeyboardInterrupt or SystemExit left the loop
over the input files.
---
 geotecha/inputoutput/inputoutput.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 2f39461..887b331 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -2084,6 +2084,21 @@ class GenericInputFileArgParser(object):
 
         level = logging.getLogger().level
         logging.getLogger().setLevel(logging.INFO)
+        try:
+            self._process_files(filenames)
+        finally:
+            logging.getLogger().setLevel(level)
+
+    def _process_files(self, filenames):
+        """Process each file, logging progress and problems
+
+        Parameters
+        ----------
+        filenames : list of str
+            Absolute paths of the input files.
+
+        """
+
         logging.info(time.strftime("%Y-%m-%d %H:%M:%S") +
             ' Start processing files')
         start_time= time.time()
@@ -2118,7 +2133,6 @@ class GenericInputFileArgParser(object):
                 pass
         logging.info(time.strftime("%Y-%m-%d %H:%M:%S") +
             ' End processing files')
-        logging.getLogger().setLevel(level)
 
 
 
-- 
2.43.0


From 837f2ab9fa01b752b5f1ae0c70410bb91bdee5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 06/39] fix: always undo the numpy array formatting used for
 the parsed input

string_of_object_attributes switches numpy's process wide array formatting.  It
stayed switched when formatting an attribute failed, and two threads saving at
the same time could switch it off for each other and write arrays that cannot
be read back.
---
 geotecha/inputoutput/inputoutput.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 887b331..dad3752 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -30,6 +30,7 @@ import sys
 import ast
 import imp
 import textwrap
+import threading
 import inspect
 import numpy as np
 from geotecha.piecewise.piecewise_linear_1d import PolyLine
@@ -1580,9 +1581,20 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
         a = PrefixNumpyArrayString(numpy_array_prefix)
     else:
         a = PrefixNumpyArrayString('')
-    a.turn_on()
+    with _numpy_array_string_lock:
+        a.turn_on()
+        try:
+            return _string_of_object_attributes(obj, attributes,
+                                                none_at_bottom, f)
+        finally:
+            a.turn_off()
+
+
+_numpy_array_string_lock = threading.RLock()
 
 
+def _string_of_object_attributes(obj, attributes, none_at_bottom, f):
+    """Do the formatting for `string_of_object_attributes`"""
 
     writer = ""
     if none_at_bottom:
@@ -1599,7 +1611,6 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
             for v in attributes])
 
     writer+='\n'
-    a.turn_off()
     return writer
 
 
-- 
2.43.0


From 936023542b99d16fb10fd9016d5d2a9e51811708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 07/39] fix: give each analysis of the same object its own
 output files

The output number was chosen once per object, so calling make_all a second time
wrote over the results of the first although overwriting was off.
---
 geotecha/consolidation/nogamiandli2003.py       | 1 +
 geotecha/consolidation/schiffmanandstein1970.py | 1 +
 geotecha/speccon/speccon1d.py                   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 327ee9d..00d44ad 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -680,6 +680,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         self.check_input_attributes()
         self.make_output()
 
+        self._file_stem = None # each analysis gets its own output number
         if getattr(self, 'save_data_to_file', False):
             self._save_data()
         if (getattr(self, 'save_figures_to_file', False) or
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 13f3c4a..96fa1ab 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -361,6 +361,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 #        self.check_input_attributes()
         self.make_output()
 
+        self._file_stem = None # each analysis gets its own output number
         if getattr(self, 'save_data_to_file', False):
             self._save_data()
         if (getattr(self, 'save_figures_to_file', False) or
diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 9cf48ea..e824b0f 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -63,6 +63,7 @@ class Speccon1d(inputoutput.InputFileLoaderCheckerSaver):
         self.make_time_dependent_arrays()
         self.make_output()
 
+        self._file_stem = None # each analysis gets its own output number
         if getattr(self, 'save_data_to_file', False):
             self._save_data()
         if (getattr(self, 'save_figures_to_file', False) or
-- 
2.43.0


From ebb5f02f74c46db0df444d3962515a2ea0c9d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 08/39] fix: save the settlement, not the average pore
 pressure, as settlement

SchiffmanAndStein1970 and NogamiAndLi2003 wrote the average pore pressure to the
settlement table.
---
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 00d44ad..44ff355 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -744,7 +744,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 96fa1ab..9812235 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -420,7 +420,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 6103871e35cc0f4da9465e0524b0f9af7be0ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 09/39] fix: do not time out a function whose result is larger
 than a pipe

The wrapper waited for the end of the process before reading its result, but
a process that has put more than a pipe's worth of data into the queue only
ends once that has been read.  A process that ends without a result, or with
one that cannot be pickled, is now reported as an error as well.
---
 geotecha/inputoutput/timeout.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 1d20f5e..d738e0d 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -82,22 +82,27 @@ class TimeoutException(Exception):
 
 class RunableProcessing(multiprocessing.Process):
     def __init__(self, func, *args, **kwargs):
-        self.queue = multiprocessing.Queue(maxsize=1)
+        self.receiver, self.sender = multiprocessing.Pipe(duplex=False)
         args = (func,) + args
         multiprocessing.Process.__init__(self, target=self.run_func, args=args, kwargs=kwargs)
 
     def run_func(self, func, *args, **kwargs):
         try:
             result = func(*args, **kwargs)
-            self.queue.put((True, result))
+            self.sender.send((True, result))
         except Exception as e:
-            self.queue.put((False, e))
+            self.sender.send((False, e))
 
-    def done(self):
-        return self.queue.full()
+    def start(self):
+        multiprocessing.Process.start(self)
+        # only the child writes, so that its end is noticed
+        self.sender.close()
+
+    def done(self, seconds=0):
+        return self.receiver.poll(seconds)
 
     def result(self):
-        return self.queue.get()
+        return self.receiver.recv()
 
 
 def timeout(seconds, force_kill=True):
@@ -106,14 +111,17 @@ def timeout(seconds, force_kill=True):
             now = time.time()
             proc = RunableProcessing(function, *args, **kwargs)
             proc.start()
-            proc.join(seconds)
-            if proc.is_alive():
+            # Wait for the result, not for the end of the process: a process
+            # only ends once someone has read its result.
+            if not proc.done(seconds):
                 if force_kill:
                     proc.terminate()
                 runtime = int(time.time() - now)
                 raise TimeoutException('timed out after {0} seconds'.format(runtime))
-            assert proc.done()
-            success, result = proc.result()
+            try:
+                success, result = proc.result()
+            except (EOFError, OSError):
+                raise RuntimeError('the process ended without a result')
             if success:
                 return result
             else:
-- 
2.43.0


From 1501e03a518c7f2b00237380f3b727007627d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 10/39] fix: do not use an incomplete or unrelated deflection
 file as the result

A file that was cut off while it was being written, or that holds the
deflections at other times or positions, is now recalculated.
---
 geotecha/beam_on_foundation/specbeam.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6c155bc..0a1d6fc 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1210,10 +1210,19 @@ class SpecBeam(object):
 
 
             t_norm = np.array([float(v) for v in lines[0].split(",")[2:]])
-            a = np.atleast_2d(np.genfromtxt(fname=fname,skip_header=1, dtype=float,delimiter=","))
+            a = np.atleast_2d(np.genfromtxt(fname=lines,skip_header=1, dtype=float,delimiter=","))
             x_norm = a[:, 1]
             defl_norm = a[:, 2:]
 
+            if not (lines[-1].endswith("\n") and
+                    t_norm.shape == np.shape(self.tvals_norm) and
+                    x_norm.shape == np.shape(self.xvals_norm) and
+                    defl_norm.shape == (len(x_norm), len(t_norm)) and
+                    np.allclose(t_norm, self.tvals_norm) and
+                    np.allclose(x_norm, self.xvals_norm)):
+                # incomplete file, or deflections at other times or positions
+                return False
+
             self.defl_norm = defl_norm
 
             if not self.L is None:
@@ -1222,7 +1231,7 @@ class SpecBeam(object):
 
             print('loaded it')
             return True
-        except:
+        except Exception:
             return False
     def onClick(self, event):
         if self.pause:
-- 
2.43.0


From 86cb4882169850ed2edfaa3a47b95c5feacc58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 11/39] fix: count the start of the process in the time limit

A function that takes exactly as long as the limit is timed out again, as
before the result was awaited instead of the end of the process.
---
 geotecha/inputoutput/timeout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index d738e0d..831240c 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -109,11 +109,15 @@ def timeout(seconds, force_kill=True):
     def wrapper(function):
         def inner(*args, **kwargs):
             now = time.time()
+            start = time.monotonic()
             proc = RunableProcessing(function, *args, **kwargs)
             proc.start()
             # Wait for the result, not for the end of the process: a process
             # only ends once someone has read its result.
-            if not proc.done(seconds):
+            remaining = seconds
+            if seconds is not None:
+                remaining = max(0, seconds - (time.monotonic() - start))
+            if not proc.done(remaining):
                 if force_kill:
                     proc.terminate()
                 runtime = int(time.time() - now)
-- 
2.43.0


From 650d454c44be96045c62e055bc956155004f54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 12/39] fix: index with a tuple of slices in gk_quad and
 gl_quad

A list of slices is not an index in NumPy 1.23 and later, so every call
failed.
---
 geotecha/mathematics/quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 0f56169..1815cd1 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1248,7 +1248,7 @@ def gk_quad(f, a, b, args=(), n=10, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = (slice(None),) * xij.ndim + (None,) * extra.ndim
 
     fij = f(xij[gen_slice], *args)
 
@@ -1332,7 +1332,7 @@ def gl_quad(f, a, b, args=(), n=10, shanks_ind=False, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = (slice(None),) * xij.ndim + (None,) * extra.ndim
 
     fij = f(xij[gen_slice], *args)
 
-- 
2.43.0


From 0e6402ba7a3e03b2e52483a78a8f1d2d11b7d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 13/39] fix: ntransform accepts its options again

collections.Callable is gone from Python 3.10, and one dict of options for
all the transforms was never made callable.
---
 geotecha/mathematics/multi_transform.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 5afff1e..26b976a 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -29,7 +29,6 @@ from numpy.testing import assert_allclose
 from geotecha.mathematics.laplace import Talbot
 from geotecha.mathematics.hankel import HankelTransform
 from geotecha.mathematics.fourier import FourierTransform
-import collections
 
 
 
@@ -147,9 +146,9 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
 
     if isinstance(opts, dict):
         opts = [opts] * depth
-    else:
-        opts = [opt if isinstance(opt, collections.Callable) else
-                _OptFunc(opt) for opt in opts]
+
+    opts = [opt if callable(opt) else
+            _OptFunc(opt) for opt in opts]
 
     return _NTransform(func, transforms,
                        transvars, opts).integral_transform(*args)
-- 
2.43.0


From c258ddc340047bd8c6004f5149e09617518b3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 14/39] fix: index with a tuple of slices in
 row_major_order_reverse_map

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index aeb02c2..725adbe 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -978,7 +978,7 @@ def row_major_order_reverse_map(shape, index_steps=None, transpose=False):
 
 
     pos=np.arange(np.product(shape)).reshape(shape)
-    a=[slice(None,None,i) for i in index_steps]
+    a=tuple(slice(None,None,i) for i in index_steps)
     pos[...]=pos[a]
 
     if transpose:
-- 
2.43.0


From 2d96328bdf62e516e83aa4405c586133d4079acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 15/39] fix: do not reseed the program's random numbers when
 plotting

Every plot of loads or values versus time or depth reset the random module
to seed 1.
---
 geotecha/plotting/one_d.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 725adbe..f302dbf 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1765,16 +1765,15 @@ def apply_markevery_to_sequence_of_lines(lines, markevery=None ,
     """
     import random
 
-
+    # a seed must not affect the random numbers of the rest of the program
+    rand = random if seed is None else random.Random(seed)
 
 
     if isinstance(markevery, int):
         if random_start:
-            if not seed is None:
-                random.seed(seed)
             [apply_dict_to_object(line, d)
             for line, d in
-                zip(lines,[{'markevery': (random.randint(0, markevery),
+                zip(lines,[{'markevery': (rand.randint(0, markevery),
                                           markevery)} for v in lines])]
         else:
             [apply_dict_to_object(line, d)
@@ -1789,11 +1788,9 @@ def apply_markevery_to_sequence_of_lines(lines, markevery=None ,
             # all the markevery code it in to my own matplotlib.lines file.
 
             if random_start:
-                if not seed is None:
-                    random.seed(seed)
                 [apply_dict_to_object(line, d)
                 for line, d in
-                    zip(lines,[{'markevery': (random.random()*markevery,
+                    zip(lines,[{'markevery': (rand.random()*markevery,
                                               markevery)} for v in lines])]
             else:
                 [apply_dict_to_object(line, d)
-- 
2.43.0


From 11c9a876bdbcd2f7df0db75562968f95d2e70723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 16/39] fix: add PolyLines and make their x values common again

interp_x_y returns an array; a one element array inside a list of points is
refused by current numpy.
---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7a2e869..d27ae6a 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2528,7 +2528,7 @@ class PolyLine(object):
                     y1 = data[j[0], 1]
                     y1_= data[j[-1],1]
                 else: #interpolate
-                    y1 = interp_x_y(xa, ya, x, choose_max=False)
+                    y1 = interp_x_y(xa, ya, x, choose_max=False)[0]
                     y1_= y1
 
                 j = np.where((ind) & (data[:, 2] == 1))[0]
@@ -2537,7 +2537,7 @@ class PolyLine(object):
                     y2 = data[j[0], 1]
                     y2_= data[j[-1],1]
                 else: #interpolate
-                    y2 = interp_x_y(xb, yb, x, choose_max=False)
+                    y2 = interp_x_y(xb, yb, x, choose_max=False)[0]
                     y2_= y2
 
                 y = op(y1, y2)
@@ -2636,7 +2636,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = data[j[0], 1]
                 y1_= data[j[-1],1]
             else: #interpolate
-                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
+                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
             if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
-- 
2.43.0


From bcc5ceb067365701ff95022a562312a7ed7d49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 17/39] fix: do not change a PolyLine when a number is added to
 it

---
 geotecha/piecewise/piecewise_linear_1d.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index d27ae6a..2f70106 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2468,9 +2468,6 @@ class PolyLine(object):
     def _add_substract(self, other, op = operator.add):
         """Addition or subtraction of PolyLine objects"""
 
-        mp = {operator.add: operator.iadd, operator.sub: operator.isub}
-        iop = mp[op]
-
         if isinstance(other, PolyLine):
 
             if ((not (non_increasing(self.x) or non_decreasing(self.x))) or
@@ -2552,7 +2549,7 @@ class PolyLine(object):
 
 
         try:
-            return PolyLine(self.x, iop(self.y, other))
+            return PolyLine(self.x, op(self.y, other))
 #            a = copy.deepcopy(self)
 #            #a._xy[:,1] += other
 #
-- 
2.43.0


From 40740480b6a353d13ee4335d3b71d40406a06ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 18/39] fix: do not publish half made data of a PolyLine used
 in several threads

---
 geotecha/piecewise/piecewise_linear_1d.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 2f70106..bf5911b 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2341,15 +2341,16 @@ class PolyLine(object):
         """Get the xy values."""
         if self._xy is None:
             x, y = convert_x1_x2_y1_y2_to_x_y(self.x1, self.x2, self.y1, self.y2)
-            self._xy = np.empty([len(x), 2], dtype=float)
-            self._xy[:,0] = x
-            self._xy[:,1] = y
+            xy = np.empty([len(x), 2], dtype=float)
+            xy[:,0] = x
+            xy[:,1] = y
+            self._xy = xy
         return self._xy
 
     @property
     def x1_x2_y1_y2(self):
         """Get the x1_x2_y1_y2 values"""
-        if self._x1 is None:
+        if self._y2 is None: # last one set
             self._x1, self._x2, self._y1, self._y2 = convert_x_y_to_x1_x2_y1_y2(self.x, self.y)
         return self._x1, self._x2, self._y1, self._y2
 
-- 
2.43.0


From bd5041de38d9a5db0367c0c97017c41e463fe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 19/39] fix: a PolyLine keeps its own copy of the points

Points given as x and y arrays were copied, those given in the two other ways
were shared with the caller's array.
---
 geotecha/piecewise/piecewise_linear_1d.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index bf5911b..c97dbc3 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2295,7 +2295,7 @@ class PolyLine(object):
 
         if len(args)==1:
             #args[0] is an 2d array of n xy data points; shape=(n,2)
-            self._xy = np.asarray(args[0], dtype=float)
+            self._xy = np.array(args[0], dtype=float)
 
             if ((self._xy.ndim != 2) or
                 (self._xy.shape[0] < 2) or
@@ -2330,10 +2330,10 @@ class PolyLine(object):
                     'You have lengths '
                     '[{:d}, {:d}, {:d}, {:d}]'.format(*tuple(map(len, args))))
 
-            self._x1 = np.asarray(args[0], dtype=float)
-            self._x2 = np.asarray(args[1], dtype=float)
-            self._y1 = np.asarray(args[2], dtype=float)
-            self._y2 = np.asarray(args[3], dtype=float)
+            self._x1 = np.array(args[0], dtype=float)
+            self._x2 = np.array(args[1], dtype=float)
+            self._y1 = np.array(args[2], dtype=float)
+            self._y2 = np.array(args[3], dtype=float)
             return
 
     @property
-- 
2.43.0


From bbdb57d0231e82c393a7f04bd1f863811d7d7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 20/39] fix: use whole numbers of segments in layer_coords

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index c97dbc3..5693a9b 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2917,7 +2917,7 @@ def layer_coords(h, segs, min_segs=1):
     z2 = np.cumsum(h)
     z1 = z2 - h
     dx = np.sum(h) / segs
-    num = [max(height//dx, min_segs) for height in h]
+    num = [int(max(height//dx, min_segs)) for height in h]
 
     zlist = [np.linspace(z1_, z2_, num_, endpoint=False) for (z1_, z2_, num_) in zip(z1, z2, num)]
     zlist.append([z2[-1]])
-- 
2.43.0


From dd3334514f69f3efa48aa9df482bf5853e33e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 21/39] fix: integrate one differential equation at a time

scipy's odeint is not safe to use from several threads: a beam or creep
analysis run while another one runs silently gave wrong results.
---
 geotecha/beam_on_foundation/dingetal2012.py   |  2 +-
 geotecha/beam_on_foundation/specbeam.py       |  2 +-
 .../constitutive_models/void_ratio_stress.py  |  2 +-
 geotecha/mathematics/ode.py                   | 43 +++++++++++++++++++
 4 files changed, 46 insertions(+), 3 deletions(-)
 create mode 100644 geotecha/mathematics/ode.py

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 09a7b20..2856efc 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -27,7 +27,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from geotecha.mathematics.root_finding import find_n_roots
 from scipy import integrate
-from scipy.integrate import odeint
+from geotecha.mathematics.ode import odeint
 
 import time
 from datetime  import timedelta
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 0a1d6fc..f9d50c7 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -31,7 +31,7 @@ import matplotlib.animation as animation
 import matplotlib
 from geotecha.mathematics.root_finding import find_n_roots
 from scipy import integrate
-from scipy.integrate import odeint
+from geotecha.mathematics.ode import odeint
 import matplotlib.style
 import matplotlib as mpl
 
diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index a914f02..d2c8321 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -26,7 +26,7 @@ import matplotlib.pyplot as plt
 import matplotlib
 import functools
 from scipy.optimize import fixed_point
-from scipy.integrate import odeint
+from geotecha.mathematics.ode import odeint
 import geotecha.piecewise.piecewise_linear_1d as pwise
 
 class OneDimensionalVoidRatioEffectiveStress(object):
diff --git a/geotecha/mathematics/ode.py b/geotecha/mathematics/ode.py
new file mode 100644
index 0000000..9c1a543
--- /dev/null
+++ b/geotecha/mathematics/ode.py
@@ -0,0 +1,43 @@
+# geotecha - A software suite for geotechncial engineering
+# Copyright (C) 2018  Rohan T. Walker (rtrwalker@gmail.com)
+#
+# This program is free software: you can redistribute it and/or modify
+# it under the terms of the GNU General Public License as published by
+# the Free Software Foundation, either version 3 of the License, or
+# (at your option) any later version.
+#
+# This program is distributed in the hope that it will be useful,
+# but WITHOUT ANY WARRANTY; without even the implied warranty of
+# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+# GNU General Public License for more details.
+#
+# You should have received a copy of the GNU General Public License
+# along with this program.  If not, see http://www.gnu.org/licenses/gpl.html.
+
+"""Integration of ordinary differential equations"""
+
+from __future__ import division, print_function
+
+import threading
+
+import scipy.integrate
+
+# scipy's odeint keeps the current function (and LSODA its work data) in
+# variables shared by all threads.
+_odeint_lock = threading.RLock()
+
+
+def odeint(*args, **kwargs):
+    """scipy.integrate.odeint, one integration at a time
+
+    Two threads integrating at the same time would otherwise silently use
+    each other's function.
+
+    See Also
+    --------
+    scipy.integrate.odeint
+
+    """
+
+    with _odeint_lock:
+        return scipy.integrate.odeint(*args, **kwargs)
-- 
2.43.0


From 71e21c6d80021d2e373c377939369a5058a2e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 22/39] fix: do not read past the end of the saturation curves
 in epus_ext

---
 geotecha/constitutive_models/epus_ext.f95 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/constitutive_models/epus_ext.f95 b/geotecha/constitutive_models/epus_ext.f95
index 7f8152c..25f0ee6 100644
--- a/geotecha/constitutive_models/epus_ext.f95
+++ b/geotecha/constitutive_models/epus_ext.f95
@@ -786,12 +786,12 @@
           !'curvetype=1: drying; = 2: scanning; =3: wetting
 
           If (curvetype .EQ. 1) Then
-            RfSr_value = Srdry(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+            RfSr_value = Srdry(min(int((Log10(ssvalue) - MinSuction) &
+                / ((MaxSuction - MinSuction) / NumSr)) + 1, NumSr))
           End If
           If (curvetype .EQ. 3) Then
-            RfSr_value = Srwet(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+            RfSr_value = Srwet(min(int((Log10(ssvalue) - MinSuction) &
+                / ((MaxSuction - MinSuction) / NumSr)) + 1, NumSr))
           End If
         !'A-88
 
-- 
2.43.0


From dfcc2d1138cc767b305d9d799d6c6b50b6c778a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 23/39] fix: make the scalar version of EPUS agree with the
 compiled one

Same pores change volume when drying, same lookup in the saturation
curves, and the current reference saturation when wetting.
---
 geotecha/constitutive_models/epus.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index b1a5900..19c280c 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -594,7 +594,7 @@ class EPUS(object):
                     if Stress + ss_new > f.YieldSt[i]:
                         f.YieldSt[i] = Stress + ss_new
 
-                f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
+                    f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
 
             else:
                 # Do not care about the pore that is already dried
@@ -616,7 +616,6 @@ class EPUS(object):
         f = self.f
         Stress = self.Stress
         Assumption = self.Assumption
-        RefSr = self.RefSr
         pm = self.pm
 
         if self.Curveon==1:
@@ -635,6 +634,8 @@ class EPUS(object):
             self.Curveon = 3
             self.RefSr = RfSr_value(3, ss_new)
 
+        RefSr = self.RefSr
+
         for i in range(f.Npoint):
             s = 10 ** f.WEV[i]
             if not f.Filled[i]:     # Check if the pore group is filled with water
@@ -812,9 +813,9 @@ class EPUS(object):
         MinSuction = self.MinSuction
 
         if curvetype == 1:
-            return self.Srdry[int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / (NumSr - 1)))]
+            return self.Srdry[min(int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / NumSr)), NumSr - 1)]
         if curvetype == 3:
-            return self.Srwet[int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / (NumSr - 1)))]
+            return self.Srwet[min(int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / NumSr)), NumSr - 1)]
 #'A-88
 
     def _Calresults_scalar(self):
-- 
2.43.0


From 6ebea881822524bb9ef8a145ae3ed5e479172104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 24/39] fix: name the steps of a StressPath given without names

---
 geotecha/constitutive_models/epus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 19c280c..fe4ba14 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1262,12 +1262,12 @@ class StressPath(object):
             else:
                 if self.ist[i]:
                     name = ("Step #{:s}, stress change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
 
                 else:
                     name = ("Step #{:s}, suction change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
                 self.name.append(name)
 
-- 
2.43.0


From f79f3baef2bdf73d72b8c94259859ae06a4fa528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 25/39] fix: one EPUS calculation at a time in the compiled
 module

---
 geotecha/constitutive_models/epus.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index fe4ba14..50fffd2 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -38,11 +38,16 @@ from geotecha.constitutive_models import void_ratio_permeability
 from geotecha.constitutive_models import swcc
 
 import math
+import threading
 log10 = math.log10
 log = math.log
 #log10 = np.log10
 #log = np.log
 
+# The variables of epus_ext are shared by everything that uses the module, so
+# only one calculation can use them at a time.
+_FORTRAN_LOCK = threading.RLock()
+
 
 
 
@@ -991,7 +996,8 @@ class EPUS(object):
             self._Calresults_scalar()
         else:
             if _SUCCESSFUL_FORTRAN_IMPORT:
-                self._Calresults_fortran()
+                with _FORTRAN_LOCK:
+                    self._Calresults_fortran()
             else:
                 self._Calresults_scalar()
 
-- 
2.43.0


From 9e81e75318d7d83e3242487528d21a40c9d0dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 26/39] fix: start EPUS calculations afresh when they are run
 again

---
 geotecha/constitutive_models/epus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 50fffd2..3433197 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -758,7 +758,8 @@ class EPUS(object):
         MinSuction = self.MinSuction
         Gs = self.Gs
 
-
+        self.Srdry = np.zeros(NumSr)
+        self.Srwet = np.zeros(NumSr)
 
         self.SlurryPoreSize()       # Reset the soil to initial slurry condition
         f = self.f
@@ -1667,6 +1668,7 @@ class EpusProfile(object):
         """do all the calculations"""
 
         first = True
+        self.niter = []
         for fnz, fNpoint, fnpp in zip(self.nz_refine,
                                       self.Npoint_refine,
                                       self.npp_refine):
-- 
2.43.0


From d9ea92d2a8233b982edb4e157aefe77c51bbd39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 27/39] fix: keep the profile when compression_indexes is
 interrupted

---
 geotecha/constitutive_models/epus.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 3433197..f55b314 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1829,7 +1829,8 @@ class EpusProfile(object):
         self.dsig = dsig
         self.dpsi = dpsi
 
-        profile_backup = deepcopy(self.profile)
+        # work on copies so that self.profile is still right if this fails
+        profile = deepcopy(self.profile)
 
 
         #dsig
@@ -1859,19 +1860,19 @@ class EpusProfile(object):
             a.Calresults()
 
             for v in a.stp.datapoints[0]._attr:
-                getattr(self.profile, v)[i] = (
+                getattr(profile, v)[i] = (
                     getattr(a.stp.datapoints[-1], v)[-1])
 
         #adjust Sr
-        s = self.profile.Sr > 1
-        self.profile.Sr[s] = 1
+        s = profile.Sr > 1
+        profile.Sr[s] = 1
 
-        self._dsig_profile = deepcopy(self.profile)
+        self._dsig_profile = profile
 
 
 
         #dpsi
-        self.profile = deepcopy(profile_backup) # reset to intitial stress profile
+        profile = deepcopy(self.profile)
 
         for i in range(self.profile.npts):
             stp=[]
@@ -1924,18 +1925,17 @@ class EpusProfile(object):
             a.Calresults()
 
             for v in a.stp.datapoints[0]._attr:
-                getattr(self.profile, v)[i] = (
+                getattr(profile, v)[i] = (
                     getattr(a.stp.datapoints[-1], v)[-1])
 
         #adjust Sr
-        s = self.profile.Sr > 1
-        self.profile.Sr[s] = 1
+        s = profile.Sr > 1
+        profile.Sr[s] = 1
 
-        self._dpsi_profile = deepcopy(self.profile)
+        self._dpsi_profile = profile
 
 
 
-        self.profile = deepcopy(profile_backup)
         #calc compression indexes
 
         for v in ['m1s', 'm2s', 'm1w', 'm2w', 'm1a', 'm2a']:
-- 
2.43.0


From 5f67a363cace28d3255564c1f98d8f21e65445ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 28/39] fix: simulate with a copy in CRSN and CRSS of
 YinAndGrahamSoilModel

The state they left behind (and, for an object used before, the state
they started from) changed the result of the next simulation.
---
 .../constitutive_models/void_ratio_stress.py  | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index d2c8321..898cb45 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -25,6 +25,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib
 import functools
+from copy import deepcopy
 from scipy.optimize import fixed_point
 from geotecha.mathematics.ode import odeint
 import geotecha.piecewise.piecewise_linear_1d as pwise
@@ -1728,7 +1729,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         self._igral += self._inc
         self._estress[:] = self._es
 
-        return  self._es
+        return  self._es.copy()
 
 
 #    def e_and_stress_for_plotting(self, **kwargs):
@@ -1869,8 +1870,6 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSN simulation
-
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
         kwargs['min_segments']= kwargs.get('min_segments', 50)
@@ -1924,10 +1923,12 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
             e[1:] = edot_[0:-1] * dt
             np.cumsum(e, out=e)
+            # step a copy from the initial conditions, so that the state of
+            # this object stays as it is
+            model = deepcopy(self)
+            model._reset_to_initial_conditions()
             for i, dt_ in enumerate(dt):
-                estress[i + 1] = self.stress_from_e(e[i+1], dt=dt_)
-
-        self._igral = igral0 # reset _igral to value before CRSN
+                estress[i + 1] = model.stress_from_e(e[i+1], dt=dt_)
 
         return tvals_, estress, e, edot_
 
@@ -1981,8 +1982,6 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSS simulation
-
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
         kwargs['min_segments']= kwargs.get('min_segments', 50)
@@ -2034,10 +2033,12 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
             estress[1:] = estressdot_[0:-1] * dt
             np.cumsum(estress, out=estress)
+            # step a copy from the initial conditions, so that the state of
+            # this object stays as it is
+            model = deepcopy(self)
+            model._reset_to_initial_conditions()
             for i, dt_ in enumerate(dt):
-                e[i + 1] = self.e_from_stress(estress[i+1], dt=dt_)
-
-        self._igral = igral0 # reset _igral to value before CRSS
+                e[i + 1] = model.e_from_stress(estress[i+1], dt=dt_)
 
         return tvals_, estress, e, estressdot_
 
-- 
2.43.0


From 3f91a8c9af7dc31d790fd6c9bf867afa2603436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 29/39] fix: re-check inputs whose loads were edited after an
 earlier check

A list of None that an earlier check had filled in for a missing
attribute (e.g. surcharge_omega_phase) kept its length, so running an
analysis again with more, fewer or other loads failed.
---
 geotecha/inputoutput/inputoutput.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index dad3752..1f62106 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1521,6 +1521,13 @@ class InputFileLoaderCheckerSaver(object):
 
 
 
+        # forget what an earlier check filled in
+        for group in attributes_to_force_same_len:
+            for v in group[1:]:
+                u = getattr(self, v)
+                if isinstance(u, list) and all([w is None for w in u]):
+                    setattr(self, v, None)
+
         check_attribute_combinations(self,
                                      zero_or_all,
                                      at_least_one,
-- 
2.43.0


From 8aae252206320ee51dce0c9bb6b31cc669ad3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 30/39] fix: plot again with the same plot properties

Producing plots removed the entries of plot_properties, so that a second
run plotted and saved its figures without them.
---
 geotecha/consolidation/nogamiandli2003.py      |  6 +++---
 .../consolidation/schiffmanandstein1970.py     |  6 +++---
 geotecha/speccon/speccon1d_unsat.py            | 18 +++++++++---------
 geotecha/speccon/speccon1d_vr.py               | 10 +++++-----
 geotecha/speccon/speccon1d_vrc.py              | 18 +++++++++---------
 geotecha/speccon/speccon1d_vrw.py              | 12 ++++++------
 6 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 44ff355..7d908ac 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -806,7 +806,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'+extra
 
@@ -827,7 +827,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'+extra
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -846,7 +846,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'+extra
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 9812235..78cdf5a 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -313,7 +313,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -330,7 +330,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -346,7 +346,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 9e4caab..2a52c14 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1285,7 +1285,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porw_prop = self.plot_properties.pop('porw', dict())
+        porw_prop = dict(self.plot_properties.get('porw', dict()))
         if not 'xlabel' in porw_prop:
             porw_prop['xlabel'] = 'Pore water pressure'
 
@@ -1302,7 +1302,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        pora_prop = self.plot_properties.pop('pora', dict())
+        pora_prop = dict(self.plot_properties.get('pora', dict()))
         if not 'xlabel' in pora_prop:
             pora_prop['xlabel'] = 'Pore air pressure'
 
@@ -1325,7 +1325,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpw_prop = self.plot_properties.pop('avpw', dict())
+        avpw_prop = dict(self.plot_properties.get('avpw', dict()))
         if not 'ylabel' in avpw_prop:
             avpw_prop['ylabel'] = 'Average pore water pressure'
         fig_avpw = geotecha.plotting.one_d.plot_vs_time(t, self.avpw.T,
@@ -1344,7 +1344,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpa_prop = self.plot_properties.pop('avpa', dict())
+        avpa_prop = dict(self.plot_properties.get('avpa', dict()))
         if not 'ylabel' in avpa_prop:
             avpa_prop['ylabel'] = 'Average pore air pressure'
         fig_avpa = geotecha.plotting.one_d.plot_vs_time(t, self.avpa.T,
@@ -1363,7 +1363,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1383,7 +1383,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('setw', dict())
+        set_prop = dict(self.plot_properties.get('setw', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Water settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.setw.T,
@@ -1403,7 +1403,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('seta', dict())
+        set_prop = dict(self.plot_properties.get('seta', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Air settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.seta.T,
@@ -1489,7 +1489,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1526,7 +1526,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 207475b..5b52a45 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -1207,7 +1207,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1229,7 +1229,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1247,7 +1247,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1307,7 +1307,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
     def _plot_materials(self):
         """Prepare material property plots"""
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1333,7 +1333,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
     def _plot_loads(self):
         """Prepare plots of loading."""
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index acd25b2..7218480 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1239,7 +1239,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('pors', dict())
+        por_prop = dict(self.plot_properties.get('pors', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Soil pore pressure'
 
@@ -1256,7 +1256,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porc_prop = self.plot_properties.pop('porc', dict())
+        porc_prop = dict(self.plot_properties.get('porc', dict()))
         if not 'xlabel' in porc_prop:
             porc_prop['xlabel'] = 'Column pore pressure'
 
@@ -1274,7 +1274,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1296,7 +1296,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1314,7 +1314,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avps', dict())
+        avp_prop = dict(self.plot_properties.get('avps', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average soil pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avps.T,
@@ -1332,7 +1332,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avpc', dict())
+        avp_prop = dict(self.plot_properties.get('avpc', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average column pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avpc.T,
@@ -1350,7 +1350,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1434,7 +1434,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1467,7 +1467,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 6025bd2..5b44dec 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1176,7 +1176,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('porwell', dict())
+        por_prop = dict(self.plot_properties.get('porwell', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Drain Pore pressure'
 
@@ -1195,7 +1195,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1217,7 +1217,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1235,7 +1235,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1301,7 +1301,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1331,7 +1331,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
-- 
2.43.0


From 7a234298a2ed4a1275f454fbcbb72442b8bd6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 31/39] fix: leave nh of NogamiAndLi2003 as given

Without kh, nh was set to 1 by a run, so that a second run was rejected
and a later kh used one radial term.
---
 geotecha/consolidation/nogamiandli2003.py | 41 ++++++++++++-----------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 7d908ac..c4cbdb1 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -343,8 +343,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         if not self.kh is None:
             self.kh = np.asarray(self.kh)
             self.ch = self.kh / self.mv
+            self._nh = self.nh
         else:
-            self.nh = 1
+            self._nh = 1
             self.ch = np.zeros_like(self.mv)
 
         self.h = np.asarray(self.h)
@@ -410,7 +411,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
             self._sn=np.array([0])
         else:
             self._sn = find_n_roots(self._radial_characteristic_curve,
-                               n=self.nh,x0=self.radial_roots_x0,
+                               n=self._nh,x0=self.radial_roots_x0,
                                dx=self.radial_roots_dx,
                                p = self.radial_roots_p, max_iter=self.max_iter)
 
@@ -439,13 +440,13 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         sin = cmath.sin
         cos = cmath.cos
 
-        self._phia = np.zeros((self.nh, self.nv, self.nlayers), dtype=float)
-        self._phidota = np.zeros((self.nh, self.nv, self.nlayers), dtype=float)
+        self._phia = np.zeros((self._nh, self.nv, self.nlayers), dtype=float)
+        self._phidota = np.zeros((self._nh, self.nv, self.nlayers), dtype=float)
 
         self._phia[:,:,0] = self.phia0[0]
         self._phidota[:,:,0] = self.phia0[1]
 #        print('o'*40)
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
 
             square = np.zeros((2,2), dtype=complex)
@@ -529,7 +530,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _find_alp(self):
         """find alp by matrix transfer method"""
 
-        self._alp = np.zeros((self.nh, self.nv), dtype=float)
+        self._alp = np.zeros((self._nh, self.nv), dtype=float)
 
         for n, s in enumerate(self._sn):
             if s==0:
@@ -548,7 +549,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _calc_Cn(self):
         """Calc Cn part of the coefficient Cmn"""
 
-        self._Cn = np.zeros(self.nh, dtype=float)
+        self._Cn = np.zeros(self._nh, dtype=float)
 
         if self.kh is None:
             self._Cn[:]=1
@@ -566,9 +567,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _calc_betamn(self):
         """calc beta for each layer and each eigenvalue combination"""
 
-        self._betamn = np.zeros((self.nh, self.nv, self.nlayers), dtype=complex)
+        self._betamn = np.zeros((self._nh, self.nv, self.nlayers), dtype=complex)
 
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
             for j in range(self.nv):
                 alp = self._alp[i, j]
@@ -584,10 +585,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         sin = cmath.sin
         cos = cmath.cos
 
-        self._Amn = np.zeros((self.nh, self.nv, self.nlayers), dtype=complex)
-        self._Bmn = np.zeros((self.nh, self.nv, self.nlayers), dtype=complex)
+        self._Amn = np.zeros((self._nh, self.nv, self.nlayers), dtype=complex)
+        self._Bmn = np.zeros((self._nh, self.nv, self.nlayers), dtype=complex)
 
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
             square = np.zeros((2,2), dtype=float)
             for j in range(self.nv):
@@ -618,10 +619,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _calc_Cm(self):
         """Calc Cm part of the coefficient Cmn"""
         self._calc_Amn_and_Bmn()
-        self._Cm = np.zeros((self.nh, self.nv), dtype=complex)
+        self._Cm = np.zeros((self._nh, self.nv), dtype=complex)
 
 
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
             for j in range(self.nv):
                 alp = self._alp[i, j]
@@ -647,8 +648,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         self._calc_Cn()
         self._calc_Cm()
 
-        self._Cmn = np.zeros((self.nh, self.nv), dtype=complex)
-        for i in range(self.nh):
+        self._Cmn = np.zeros((self._nh, self.nv), dtype=complex)
+        for i in range(self._nh):
             Cn = self._Cn[i]
             for j in range(self.nv):
                 Cm = self._Cm[i,j]
@@ -940,7 +941,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         self._calc_un()
         for p, t in enumerate(self.tpor):
-            for i in range(self.nh):
+            for i in range(self._nh):
                 s = self._sn[i]
                 un = self._un[i]
                 for j in range(self.nv):
@@ -977,7 +978,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         self._calc_un()
         for p, t in enumerate(self.t):
-            for i in range(self.nh):
+            for i in range(self._nh):
                 s = self._sn[i]
                 un = self._un[i]
                 for j in range(self.nv):
@@ -996,7 +997,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                         phi = (sin(bet * h) / bet * phi_a +
                                 (1-cos(bet * h))/bet**2*phi_a_dot)
                         self.avp[0, p] += Cmn * un * phi.real / h_all * Tm
-                        self.set[0, p] += self.mv[layer] * (load * h /self.nh/self.nv - Cmn *
+                        self.set[0, p] += self.mv[layer] * (load * h /self._nh/self.nv - Cmn *
                                             un * phi.real * Tm)
 
     def _plot_vert_roots(self, npt=200):
@@ -1014,7 +1015,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         fig = plt.figure(figsize=(40, 8))
         ax = fig.add_subplot('111')
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
 #            amin=self._alp_min()[i]
 #            amin=0.001
-- 
2.43.0


From b0b39a44b8b1b15f54c9a70eaef7a4e82aa27873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 32/39] fix: reject unknown boundary conditions in
 NogamiAndLi2003

An object that was run before used the boundary condition of that run.
---
 geotecha/consolidation/nogamiandli2003.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index c4cbdb1..2139c09 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -366,12 +366,16 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
             self.phia0 = np.array([0.0, 1.0])
         elif self.bctop == 1:
             self.phia0 = np.array([1.0, 0.0])
+        else:
+            raise ValueError('bctop must be 0 or 1. you have bctop = {}'.format(self.bctop))
 
         #index of phib at bottom to check
         if self.bcbot == 0:
             self.phi_i_check = 0
         elif self.bcbot == 1:
             self.phi_i_check = 1
+        else:
+            raise ValueError('bcbot must be 0 or 1. you have bcbot = {}'.format(self.bcbot))
 
     def un_normalised_average(self,s):
         """u(r) part of u(r, z, t) = u(r) * phi(z) * T(t), averaged betw r0 r1
-- 
2.43.0


From d489f5aba225f419afdca76e8c871f5db5a55e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 33/39] fix: find constant and step segments of data with
 repeated points

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 5693a9b..b93495f 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -369,7 +369,7 @@ def start_index_of_constants(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(y)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x) != 0) & (np.diff(y) == 0))[0]
 
 
 def start_index_of_steps(x, y):
@@ -397,7 +397,7 @@ def start_index_of_steps(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(x)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x) == 0) & (np.diff(y) != 0))[0]
 
 
 def segment_containing_xi(x, xi, subset=None, choose_max=False):
-- 
2.43.0


From c39cd73395f6c31e9c1f10b7de19931c1f7cd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 34/39] fix: compression indexes where a suction change just
 reaches the water table

---
 geotecha/constitutive_models/epus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index f55b314..0b56d38 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1898,7 +1898,7 @@ class EpusProfile(object):
                 stp.append(dict(ist=False, npp=self._npp, vl=ss+dpsi,
                                 name="3. uw decrease--> suction increase"))
             else:
-                if uw - dpsi >= (10 ** self.epus_object.MinSuction):
+                if dpsi - uw <= (10 ** self.epus_object.MinSuction):
                     #uw starts saturated and ends in saturated
                     #increase stress by dpsi
                     stp.append(dict(ist=True, npp=self._npp, vl=st+dpsi,
-- 
2.43.0


From 72cc99f9082645d7ae2cb4418d910bed1dfbfe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 35/39] fix: EPUS with Assumption 0 after NumSr was changed

---
 geotecha/constitutive_models/epus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 0b56d38..2a51e0e 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -838,6 +838,8 @@ class EPUS(object):
 
         self.errocc = False
 #        Initiate
+        self.Srdry = np.zeros(self.NumSr)
+        self.Srwet = np.zeros(self.NumSr)
         if self.Assumption == 1:
             self.DegreeofsaturationSWCC()
         else:
-- 
2.43.0


From 19c8f1879c807d8d97f43fb54901916ab28d57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 36/39] fix: do not draw from the global random numbers when
 running a beam

SpecBeam.vectorfield called np.random.rand() at every step, so that running a
beam changed the random numbers of the rest of the program.
---
 geotecha/beam_on_foundation/specbeam.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index f9d50c7..6e0d0a8 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -752,9 +752,6 @@ class SpecBeam(object):
 
 #TODO: this is where the moving loads need to go
 #            self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
-            if tnow>0:
-                np.random.rand()
-
             if self.has_moving_loads:
                 for mvl in self.moving_loads_norm:
                     mvl_x, mvl_p = mvl.point_loads_on_beam(t=tnow)
-- 
2.43.0


From 171a6b0cd4a947be87d98e6d67dbdac17660db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 37/39] fix: plot with current versions of matplotlib

Legend.draggable and the axes.color_cycle parameter are gone since matplotlib 3:
no figure could be produced, so a requested figure was never saved.
---
 geotecha/plotting/one_d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index f302dbf..1831ad0 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -790,7 +790,7 @@ def pleasing_defaults():
     # Another ColorBrewer scale. This one has nice "traditional" colors like
     # reds and blues
     set1 = brewer2mpl.get_map('Set1', 'qualitative', 9).mpl_colors
-    mpl.rcParams['axes.color_cycle'] = set2
+    mpl.rcParams['axes.prop_cycle'] = mpl.cycler('color', set2)
 
     # Set some commonly used colors
     almost_black = '#262626'
@@ -1443,7 +1443,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
         if has_legend:
             leg = ax1[-1].legend(**legend_prop)
-            leg.draggable(True)
+            leg.set_draggable(True)
             plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
         #load_vs_depth plot stuff
 
@@ -1586,7 +1586,7 @@ def plot_vs_time(t, y, line_labels=None, prop_dict={}):
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
@@ -1959,7 +1959,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
-- 
2.43.0


From 6adcddb70f1e595bb22cf2f4c1ec215c2f341226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:47 +0000
Subject: [PATCH 38/39] fix: do not take damaged deflections from a file

A number in the file that cannot be read became nan, and the beam ended
with that as its deflections.
---
 geotecha/beam_on_foundation/specbeam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6e0d0a8..32aadc8 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1216,8 +1216,10 @@ class SpecBeam(object):
                     x_norm.shape == np.shape(self.xvals_norm) and
                     defl_norm.shape == (len(x_norm), len(t_norm)) and
                     np.allclose(t_norm, self.tvals_norm) and
-                    np.allclose(x_norm, self.xvals_norm)):
-                # incomplete file, or deflections at other times or positions
+                    np.allclose(x_norm, self.xvals_norm) and
+                    np.all(np.isfinite(defl_norm))):
+                # incomplete or damaged file, or deflections at other times or
+                # positions
                 return False
 
             self.defl_norm = defl_norm
-- 
2.43.0


From 4740437af179eebd90d58b514f791fe870a79da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 39/39] fix: write all elements and digits of arrays, and any
 text, to the parsed input

Arrays of more than 1000 elements were shortened with '...', others were
written with eight digits (or however the user prints arrays), PolyLines
in lists and quotes in texts gave input files that could not be read.
---
 geotecha/inputoutput/inputoutput.py | 78 +++++++++++++++++------------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1f62106..75c86cd 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -30,7 +30,6 @@ import sys
 import ast
 import imp
 import textwrap
-import threading
 import inspect
 import numpy as np
 from geotecha.piecewise.piecewise_linear_1d import PolyLine
@@ -1578,49 +1577,62 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     """
 
-    def f(v):
-        if isinstance(v, str):
-            return "'"
-        else:
-            return ""
-
-    if not numpy_array_prefix is None:
-        a = PrefixNumpyArrayString(numpy_array_prefix)
-    else:
-        a = PrefixNumpyArrayString('')
-    with _numpy_array_string_lock:
-        a.turn_on()
-        try:
-            return _string_of_object_attributes(obj, attributes,
-                                                none_at_bottom, f)
-        finally:
-            a.turn_off()
-
-
-_numpy_array_string_lock = threading.RLock()
+    prefix = '' if numpy_array_prefix is None else numpy_array_prefix
 
-
-def _string_of_object_attributes(obj, attributes, none_at_bottom, f):
-    """Do the formatting for `string_of_object_attributes`"""
+    texts = [(v, getattr(obj, v, None)) for v in attributes]
+    isnone = [v for v, value in texts if value is None]
+    texts = [(v, '{0} = {1}'.format(v, _string_of_value(value, prefix)))
+             for v, value in texts]
 
     writer = ""
     if none_at_bottom:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if not getattr(obj, v, None) is None])
+        writer+='\n'.join([t for v, t in texts if v not in isnone])
         writer+='\n\n\n'
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if getattr(obj, v, None) is None])
+        writer+='\n'.join([t for v, t in texts if v in isnone])
     else:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes])
+        writer+='\n'.join([t for v, t in texts])
 
     writer+='\n'
     return writer
 
 
+def _string_of_value(v, prefix, nested=False):
+    """String that gives `v` back when put into an input file
+
+    Unlike the repr of numpy arrays it has all elements and digits, whatever
+    the numpy print options.
+
+    """
+
+    if type(v) is np.ndarray:
+        text = np.array2string(v, separator=', ', threshold=sys.maxsize,
+                               floatmode='unique', suppress_small=False,
+                               sign='-', formatter={},
+                               prefix=prefix + 'array(')
+        if v.size == 0 or v.dtype not in [bool, int, float, complex, object]:
+            if not v.dtype.names is None:
+                text += ', dtype={}'.format(v.dtype)
+            elif v.dtype.kind != 'U':
+                text += ", dtype='{}'".format(v.dtype.name)
+        return prefix + 'array(' + text + ')'
+    if isinstance(v, np.ndarray):
+        return prefix + repr(v)
+    if type(v) is PolyLine:
+        return 'PolyLine({})'.format(_string_of_value(v.xy, prefix))
+    if type(v) in [list, tuple]:
+        text = ', '.join([_string_of_value(x, prefix, True) for x in v])
+        if type(v) is list:
+            return '[' + text + ']'
+        return '(' + text + (',)' if len(v) == 1 else ')')
+    if type(v) is dict:
+        return '{' + ', '.join([_string_of_value(k, prefix, True) + ': ' +
+                                _string_of_value(x, prefix, True)
+                                for k, x in v.items()]) + '}'
+    if nested or isinstance(v, str):
+        return repr(v)
+    return '{}'.format(v)
+
+
 
 class PrefixNumpyArrayString(object):
     """When printing a numpy array string prefix 'array'
-- 
2.43.0

