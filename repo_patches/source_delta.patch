From 62c635b02383790314f71159a02b7c574636a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 01/12] fix: plot candidates that have only one sub-integration

TimeSeries.fold() returns a 1D array in that case, on which plot_subints()
raised, making the pipeline fail while writing its products.
---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..93dc989 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,8 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    # NOTE: the array is one-dimensional when there is only one sub-integration
+    X = np.atleast_2d(X)
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From 35868cd02874dde5c57f3c05ec67047d5bcea92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 02/12] fix: save_json() must not destroy an existing file when
 encoding fails

---
 riptide/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..29920eb 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -148,5 +148,7 @@ def save_json(fname, obj, **kwargs):
     Save riptide object (or list/dict/composition thereof) to a JSON file. Any keyword arguments are 
     passed to json.dumps().
     """
+    # NOTE: encode first, so that an existing file is left untouched if that fails
+    s = to_json(obj, **kwargs)
     with open(fname, 'w') as f:
-        f.write(to_json(obj, **kwargs))
+        f.write(s)
-- 
2.43.0


From 27e8ad748f5728ed126dec791130ee442969645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 03/12] fix: arrays of loaded objects must be writable

In-place operations such as TimeSeries.deredden(inplace=True) raised on
time series loaded from JSON.
---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 29920eb..049fcb9 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -88,7 +88,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # NOTE: frombuffer() returns a read-only array
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From 39ef72dad7bef8f33892d0e83c304cded80f6629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 04/12] fix: TimeSeries.normalise(inplace=True) must leave
 float32 data

With NumPy 2, subtracting a float64 scalar yields a float64 array, which the
compiled kernels then reject or convert.
---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 71a7ff13decf1a434c4e49517060503662115d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 05/12] fix: TimeSeries.downsample(inplace=True) must update
 metadata['tobs']

---
 riptide/time_series.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..d445b0e 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -139,8 +139,10 @@ class TimeSeries(object):
             The downsampled TimeSeries, if 'inplace' was set to False
         """
         if inplace:
-            self._data = downsample(self.data, factor)
-            self._tsamp *= factor
+            # NOTE: do not edit self.metadata itself, periodograms and candidates
+            # already obtained from this TimeSeries may share it
+            out = self.downsample(factor)
+            self._data, self._tsamp, self.metadata = out._data, out._tsamp, out.metadata
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 8fdb6be832256936956d03d94554d1707d940601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 06/12] fix: a Pipeline object that is run again must not reuse
 previous results

Candidates of the previous run were kept and saved again, and so were the
clusters when the new run found no peaks.
---
 riptide/pipeline/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..5ce2c7d 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -140,6 +140,12 @@ class Pipeline(object):
         files: list
         """
         log.info("Preparing pipeline")
+        # Forget the results of any previous run
+        self.peaks = []
+        self.clusters = []
+        self.clusters_filtered = []
+        self.candidates = []
+
         log.debug("Input files: {}".format(len(files)))
         conf = self.config
 
-- 
2.43.0


From bddf5177898f2a99a53f54b37a22e504dc05b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 07/12] fix: rseek --rmed_minpts must be an integer

The running median kernel rejects a floating point number of points, hence
specifying the option made the program fail.
---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From 622a0a6b8f46839d02b57222f210d1858bb2dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 08/12] fix: circular_prefix_sum() must allocate room for all
 its output

The output array had as many elements as the input, while nsum were written.
---
 riptide/cpp/python_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..b8d161f 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From 5530cd2cca1fa37338d6f55470637cfe4eaca99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 09/12] fix: compiled kernels must not crash on degenerate
 sizes

Empty inputs caused a division by zero or an endless recursion, an empty list
of trial widths an out of bounds read, and a very large profile a stack
overflow.
---
 riptide/cpp/periodogram.hpp     |  1 +
 riptide/cpp/python_bindings.cpp | 14 ++++++++++++++
 riptide/cpp/snr.hpp             |  8 +++++++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index bcea0ea..629bbaf 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -129,6 +129,7 @@ void periodogram(
     float* __restrict__ snr)
     {
     periodogram_check_arguments(size, tsamp, period_min, period_max, bins_min, bins_max);
+    periodogram_check_arg(num_widths > 0, "there must be at least one trial width");
 
     // Initial downsampling factor
     // We want: ds_ini * tsamp * bmin = period_min
diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index b8d161f..2782b9c 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -41,11 +41,21 @@ void assert_c_contiguous(py::array_t<T> arr)
 }
 
 
+void assert_not_empty(size_t size)
+{
+    if (!size)
+    {
+        throw std::invalid_argument("Input must not be empty");
+    }
+}
+
+
 py::array_t<float> rollback(py::array_t<float> arr_x, size_t shift)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
+    assert_not_empty(size);
     auto arr_output = new_cstyle_array<float>({size});
     riptide::rollback(x.data(0), size, shift, arr_output.mutable_data(0));
     return arr_output;
@@ -64,6 +74,7 @@ py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<floa
     auto x = arr_x.unchecked<1>();
     auto y = arr_y.unchecked<1>();
     const size_t size = x.size();
+    assert_not_empty(size);
     auto arr_output = new_cstyle_array<float>({size});
     riptide::fused_rollback_add(x.data(0), y.data(0), size, shift, arr_output.mutable_data(0));
     return arr_output;
@@ -75,6 +86,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
+    assert_not_empty(size);
     auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
@@ -87,6 +99,7 @@ py::array_t<float> ffa2(py::array_t<float> arr_input)
     auto input = arr_input.unchecked<2>();
     const size_t rows = input.shape(0);
     const size_t cols = input.shape(1);
+    assert_not_empty(rows * cols);
 
     std::unique_ptr<float[]> temp(new float[rows * cols]);
     auto output = new_cstyle_array<float>({rows, cols});
@@ -99,6 +112,7 @@ py::array_t<float> ffa2(py::array_t<float> arr_input)
 double benchmark_ffa2(size_t rows, size_t cols, size_t loops)
 {
     const size_t size = rows * cols;
+    assert_not_empty(size);
 
     // NOTE: performance slightly increases when all buffers are contiguous
     // (better memory locality)
diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..08470ee 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -20,6 +21,9 @@ void check_stdnoise(float stdnoise)
 // Check that all trial widths are > 0 and < bins; throw std::invalid_argument if that is not the case
 void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
     {
+    if (!num_widths)
+        throw std::invalid_argument("there must be at least one trial width");
+
     bool b = std::all_of(
         widths, 
         widths + num_widths, 
@@ -37,7 +41,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: not on the stack, which large profiles would overflow
+    std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
+    float* cpfsum = cpfsum_mem.get();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From adaa56d6e68fa662517ccb7f23f71be327046ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 10/12] fix: raise an error when time series data can only be
 read in part

numpy.fromfile() silently returns the samples that precede an I/O error, and
the rest of the file was ignored.
---
 riptide/reading/__init__.py |  1 +
 riptide/reading/presto.py   |  4 +++-
 riptide/reading/samples.py  | 20 ++++++++++++++++++++
 riptide/time_series.py      | 18 ++++++++----------
 4 files changed, 32 insertions(+), 11 deletions(-)
 create mode 100644 riptide/reading/samples.py

diff --git a/riptide/reading/__init__.py b/riptide/reading/__init__.py
index cfe5347..5c14edd 100644
--- a/riptide/reading/__init__.py
+++ b/riptide/reading/__init__.py
@@ -1,2 +1,3 @@
 from .presto import PrestoInf
 from .sigproc import SigprocHeader
+from .samples import read_samples
diff --git a/riptide/reading/presto.py b/riptide/reading/presto.py
index cea329a..4addec2 100644
--- a/riptide/reading/presto.py
+++ b/riptide/reading/presto.py
@@ -7,6 +7,8 @@ import numpy
 import astropy.units as uu
 from astropy.coordinates import SkyCoord
 
+from .samples import read_samples
+
 
 # Template valid for all .inf files except those generated by makedata
 # --------------------------------------------------------------------
@@ -146,4 +148,4 @@ class PrestoInf(dict):
 
     def load_data(self):
         """ Returns the associated time series data as a numpy float32 array. """
-        return numpy.fromfile(self.data_fname, dtype=numpy.float32)
+        return read_samples(self.data_fname, numpy.float32)
diff --git a/riptide/reading/samples.py b/riptide/reading/samples.py
new file mode 100644
index 0000000..76f789d
--- /dev/null
+++ b/riptide/reading/samples.py
@@ -0,0 +1,20 @@
+import os
+import numpy as np
+
+
+def read_samples(fname, dtype, offset=0):
+    """
+    Read all the samples stored in a binary file after 'offset' bytes.
+
+    NOTE: if an I/O error occurs part-way through the file, numpy.fromfile()
+    ignores it and returns only the samples that come before. Here an OSError
+    is raised instead.
+    """
+    with open(fname, 'rb') as fobj:
+        size = os.fstat(fobj.fileno()).st_size
+        nsamp = max(size - offset, 0) // np.dtype(dtype).itemsize
+        fobj.seek(offset)
+        data = np.fromfile(fobj, dtype=dtype, count=nsamp)
+    if data.size < nsamp:
+        raise OSError(f"Could only read {data.size} samples out of {nsamp} from file {fname!r}")
+    return data
diff --git a/riptide/time_series.py b/riptide/time_series.py
index d445b0e..6e72388 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -7,7 +7,7 @@ import numpy as np
 ##### Local imports #####
 from .running_medians import fast_running_median
 from .libffa import downsample, generate_signal
-from .reading import PrestoInf, SigprocHeader
+from .reading import PrestoInf, SigprocHeader, read_samples
 from .metadata import Metadata
 from .folding import fold
 from .timing import timing
@@ -260,7 +260,7 @@ class TimeSeries(object):
         out: TimeSeries
             TimeSeries object.
         """
-        data = np.fromfile(fname, dtype=dtype)
+        data = read_samples(fname, dtype)
         return cls(data, tsamp, copy=False)
 
     @classmethod
@@ -352,14 +352,12 @@ class TimeSeries(object):
         metadata = Metadata.from_sigproc(sig, extra_keys=extra_keys)
 
         # Load time series data
-        with open(fname, 'rb') as fobj:
-            fobj.seek(sig.bytesize)
-            if metadata['nbits'] == 8:
-                dtype = np.int8 if metadata['signed'] else np.uint8
-                # Don't forget to cast to float32 after reading !
-                data = np.fromfile(fobj, dtype=dtype).astype(np.float32)
-            else: # assume float32
-                data = np.fromfile(fobj, dtype=np.float32)
+        if metadata['nbits'] == 8:
+            dtype = np.int8 if metadata['signed'] else np.uint8
+            # Don't forget to cast to float32 after reading !
+            data = read_samples(fname, dtype, offset=sig.bytesize).astype(np.float32)
+        else: # assume float32
+            data = read_samples(fname, np.float32, offset=sig.bytesize)
 
         return cls(data, tsamp=sig['tsamp'], metadata=metadata)
 
-- 
2.43.0


From de2b5b08ab79e9ed9c0b682fa32bf9b9362bcee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 11/12] fix: tables with non-numeric columns were saved as raw
 object pointers

Candidates of fake time series (no DM) could be saved but not loaded again.
---
 riptide/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 049fcb9..ed62c69 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -31,7 +31,8 @@ class JSONEncoder(json.JSONEncoder):
         # TODO: find a way to handle Metadata correctly in the future
 
         # See: https://stackoverflow.com/questions/27909658/json-encoder-and-decoder-for-complex-numpy-arrays
-        if isinstance(obj, np.ndarray):
+        # NOTE: arrays of Python objects are refused, their buffer only contains pointers
+        if isinstance(obj, np.ndarray) and not obj.dtype.hasobject:
             b64_bytes = base64.b64encode(np.ascontiguousarray(obj).data)
             b64_str = b64_bytes.decode()
             return {
@@ -51,7 +52,9 @@ class JSONEncoder(json.JSONEncoder):
         if isinstance(obj, pandas.DataFrame):
             return {
                 '__type__': 'pandas.DataFrame',
-                'values': self.default(obj.values),
+                # NOTE: the values are Python objects if a column is not numeric
+                # (e.g. 'dm' is None for the peaks found in fake time series)
+                'values': obj.values.tolist() if obj.values.dtype.hasobject else self.default(obj.values),
                 'columns': list(obj.columns)
             }
 
-- 
2.43.0


From b9835d6304f3de8643e03279935bac8f9db3e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 12/12] fix: periodogram must reject trial widths that make its
 kernels read and write out of bounds

---
 riptide/cpp/periodogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index 629bbaf..fc89e8e 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -129,7 +129,7 @@ void periodogram(
     float* __restrict__ snr)
     {
     periodogram_check_arguments(size, tsamp, period_min, period_max, bins_min, bins_max);
-    periodogram_check_arg(num_widths > 0, "there must be at least one trial width");
+    check_trial_widths(widths, num_widths, bins_min);
 
     // Initial downsampling factor
     // We want: ds_ini * tsamp * bmin = period_min
-- 
2.43.0

