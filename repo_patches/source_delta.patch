From 59bab6534fde14758d5efaaaecc99ad7955372d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:53 +0000
Subject: [PATCH 01/47] fix: select slices of periodic axes on the rebuilt
 field

Slicing an axis stored on one period repeated the selected samples when the
slice was inside the first period, and failed for the first sample of the
second period.
It also cleared the symmetries of the axis, so that later requests on the
same object returned wrong values.
The field is now rebuilt just before the slice is taken, and the axis is left
untouched.
---
 SciDataTool/Methods/DataND/_extract_slices.py |  9 ++++++++-
 SciDataTool/Methods/DataND/_get_field.py      |  7 -------
 .../Methods/DataND/_rebuild_symmetries.py     | 19 ++++++++++++-------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 8311ad1..82653b0 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,4 +1,5 @@
 from numpy import take
+from SciDataTool.Functions.symmetries import rebuild_symmetries
 
 
 def _extract_slices(self, values, axes_list):
@@ -29,7 +30,13 @@ def _extract_slices(self, values, axes_list):
                     axis_requested.indices is not None
                     and axis_requested.transform != "fft"
                 ):
-                    values = take(values, axis_requested.indices, axis=index)
+                    indices = axis_requested.indices
+                    if len(indices) > 0 and (
+                        max(indices) >= values.shape[index] or min(indices) < 0
+                    ):
+                        # Requested indices are among other periods
+                        values = rebuild_symmetries(values, index, axis.symmetries)
+                    values = take(values, indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
             values = take(values, [0], axis=index)
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..1bf7811 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -47,12 +47,5 @@ def _get_field(self, axes_list):
             axis_symmetries["antiperiod"] = 2
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
             axis_symmetries["antiperiod"] = nper
-        elif (
-            axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
-        ):
-            # Slicing case where requested indices are among other periods
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..7899aed 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -46,13 +46,18 @@ def _rebuild_symmetries(
             )
         ):
             values = take(values, axis.rebuild_indices, axis.index)
-        elif axis.transform != "fft" and axis.extension in [
-            "whole",
-            "interval",
-            "oneperiod",
-            "antiperiod",
-            "smallestperiod",
-        ]:
+        elif (
+            axis.transform != "fft"
+            and axis.indices is None  # Slices are already extracted
+            and axis.extension
+            in [
+                "whole",
+                "interval",
+                "oneperiod",
+                "antiperiod",
+                "smallestperiod",
+            ]
+        ):
             if axis.extension == "smallestperiod":
                 is_smallestperiod = True
                 is_oneperiod = False
-- 
2.43.0


From f3d55c4334161d304820bb40813e7b69de8e1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:26 +0000
Subject: [PATCH 02/47] fix: continue periodic axes from their own origin

Rebuilding the following periods of an axis that does not start at zero added
the origin once per period, which left gaps in the coordinates.
The following periods are now spaced by one sample step.
---
 SciDataTool/Functions/symmetries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/symmetries.py b/SciDataTool/Functions/symmetries.py
index 068be3a..c8e8c47 100644
--- a/SciDataTool/Functions/symmetries.py
+++ b/SciDataTool/Functions/symmetries.py
@@ -54,7 +54,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     elif "antiperiod" in symmetries.keys():
@@ -70,7 +73,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     return values_new
-- 
2.43.0


From 71b2ddd071057f209496c7f16d19d864803237bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:26 +0000
Subject: [PATCH 03/47] fix: convert integer axes to linspace

Converting integer coordinates, such as wavenumbers, to a linspace axis failed
because the bounds were numpy integers.
The bounds are now passed as floats, so that fields depending on angle can be
transformed again.
---
 SciDataTool/Methods/Data1D/to_linspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..06a7e5d 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -31,8 +31,8 @@ def to_linspace(self):
         )
     ):
         New_axis = DataLinspace(
-            initial=values[0],
-            final=values[-1],
+            initial=float(values[0]),
+            final=float(values[-1]),
             number=number,
             include_endpoint=True,
             name=self.name,
-- 
2.43.0


From 43495037f0505d2b13f211eb2615d857da75661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:14 +0000
Subject: [PATCH 04/47] fix: sort requested axes by their exact name

Axes were matched to the requests by searching their name anywhere in the
request, so that an axis called x was found in time=max.
The requests could then be handled in the wrong order.
The name at the beginning of the request is now compared.
---
 SciDataTool/Functions/fix_axes_order.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index ea6db07..7c67ad8 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -1,3 +1,5 @@
+from re import split
+
 from numpy import array
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict
 
@@ -6,13 +8,15 @@ def fix_axes_order(axes_list, args):
     """Put args in same order as axes_list"""
     indices = []
     for j, arg in enumerate(args):
+        # Name of the axis is the beginning of the request
+        name = split(r"->|[\[=<>{]", arg)[0]
         for i, axis in enumerate(axes_list):
             if (
-                axis in arg
+                axis == name
                 or axis in fft_dict
-                and fft_dict[axis] in arg
+                and fft_dict[axis] == name
                 or axis in ifft_dict
-                and ifft_dict[axis] in arg
+                and ifft_dict[axis] == name
             ):
                 indices.append(i)
                 break
-- 
2.43.0


From dcb29e56381485180380551d2384513c832e71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:14 +0000
Subject: [PATCH 05/47] fix: reduce periodic axes over all their periods

The mean and rms of a periodic axis were multiplied by the number of periods.
The maximum and minimum of an anti-periodic axis ignored the opposite values.
The sum over frequencies of an anti-periodic signal was always zero.
Requests with several reductions failed or used the wrong axis because some of
them removed the axis.
Reductions now keep the reduced axis until the end and give the same result as
on the full signal.
---
 .../Functions/derivation_integration.py       |  4 +-
 SciDataTool/Functions/sum_mean.py             | 17 +++----
 .../Methods/DataND/_apply_operations.py       | 47 ++++++++++++++++---
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..12bcd6b 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -223,8 +223,8 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
             values = np.swapaxes(values, index, 0)
diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..85b0952 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -27,8 +27,8 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
     if is_aper:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
-        values = np.zeros(shape0, dtype=values.dtype)
+        shape[index] = 1
+        values = np.zeros(shape, dtype=values.dtype)
     else:
         # To sum dB or dBA
         if "dB" in unit:
@@ -86,16 +86,11 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         if is_aper:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            # Mean value is the same on one period and on all periods
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..74aae04 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -7,6 +7,10 @@ from SciDataTool.Functions.derivation_integration import (
     integrate_local_pattern,
     antiderivate,
 )
+from SciDataTool.Functions.symmetries import (
+    rebuild_symmetries,
+    rebuild_symmetries_axis,
+)
 from SciDataTool.Functions.sum_mean import (
     my_sum,
     my_mean,
@@ -33,16 +37,47 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
     if is_magnitude and "dB" not in unit:
         values = np_abs(values)
 
-    # Apply sums, means, etc
+    # Get periodicity of each axis
+    non_linear = [
+        axis for axis in axes_list if axis.extension in ["max", "min", "rss", "rms"]
+    ]
+    periodicities = []
     for axis_requested in axes_list:
-        # Get axis data
-        ax_val = axis_requested.values
-        extension = axis_requested.extension
         index = axis_requested.index
         if axis_requested.is_pattern:
             Nper, is_aper = None, None
+        elif axis_requested.name in ["freqs", "frequency", "wavenumber"]:
+            # Spectrum is stored on all its lines
+            Nper, is_aper = 1, False
         else:
             Nper, is_aper = self.axes[index].get_periodicity()
+            if is_aper and is_magnitude and "dB" not in unit:
+                # Magnitude is the same on each anti-period
+                is_aper = False
+            elif (
+                is_aper
+                and axis_requested.extension
+                in ["max", "min", "sum", "rss", "mean", "rms", "integrate"]
+                and (
+                    axis_requested.extension in ["max", "min"]
+                    or any(axis is not axis_requested for axis in non_linear)
+                )
+            ):
+                # Anti-periodicity is lost in non-linear operations: rebuild period
+                values = rebuild_symmetries(values, index, {"antiperiod": 2})
+                if len(axis_requested.values) > 1:
+                    axis_requested.values = rebuild_symmetries_axis(
+                        axis_requested.values, {"antiperiod": 2}
+                    )
+                Nper, is_aper = Nper // 2, False
+        periodicities.append((Nper, is_aper))
+
+    # Apply sums, means, etc
+    for axis_requested, (Nper, is_aper) in zip(axes_list, periodicities):
+        # Get axis data
+        ax_val = axis_requested.values
+        extension = axis_requested.extension
+        index = axis_requested.index
         if axis_requested.name in ["time", "angle", "z"]:
             is_phys = True
             is_freqs = False
@@ -58,10 +93,10 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index)
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index)
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From acc9cbaecad1c5dd2f8aef1d0d389b4b4c4d2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:54 +0000
Subject: [PATCH 06/47] fix: do not read operations in the names of the axes

A request on an axis whose name contains the name of an operation, such as
time_min or xmax, was read as a request for this operation.
Operations are now only read after the equal sign, and period keywords only
between brackets.
---
 SciDataTool/Functions/parser.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..89ecf02 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -42,74 +42,74 @@ def read_input_strings(args, axis_data):
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
         # Detect periods
-        elif "oneperiod" in axis_str:
+        elif "[oneperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "oneperiod"
-        elif "antiperiod" in axis_str:
+        elif "[antiperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "antiperiod"
-        elif "smallestperiod" in axis_str:
+        elif "[smallestperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "smallestperiod"
         # Detect pattern
-        elif "pattern" in axis_str:
+        elif "pattern]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
-- 
2.43.0


From ec13e358492c32a8fe4946be32d940c04496f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:47 +0000
Subject: [PATCH 07/47] fix: spectra along time no longer depend on the
 position of the time axis

The constant component of a one-sided spectrum was looked up with the index
of the axis in the field, in the list of requested axes. Requesting freqs
while leaving out an axis stored before time raised IndexError. The first
line of the transform is always the constant component, so it is now halved
without looking at the axis.
---
 SciDataTool/Functions/fft_functions.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..777237f 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -289,17 +289,12 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
-            else:
-                freqs = axes_list[axes[-1]].values
-            if freqs[0] == 0:
-                slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 *= 0.5
+            if is_twice:
                 slice_0 *= 0.5
-                if is_twice:
-                    slice_0 *= 0.5
-                other_values = delete(values_FT, 0, axis=axes[-1])
-                values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
+            other_values = delete(values_FT, 0, axis=axes[-1])
+            values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
             values_FT2 = 2.0 * fftshift(values_FT, axes=axes[:-1]) / size
             if is_twice:
                 values_FT2 *= 2.0
-- 
2.43.0


From 9761d6f71b648b95a0690669551697d01cf98e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:37 +0000
Subject: [PATCH 08/47] fix: inverse transform along angle restores the field

A real field depending on angle only was inverted as if its two-sided
spectrum were one-sided, and the recovered axis was wrong for two samples
and for an odd number of samples. The step between the lines is now used to
rebuild the axis, and the one-sided inverse is kept for spectra that only
hold non-negative wavenumbers, without halving them.
---
 SciDataTool/Functions/fft_functions.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 777237f..6276ab1 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -76,11 +76,10 @@ def comp_fft_time(freqs, is_angle, is_real):
     else:
         if is_real and not is_angle:
             N_tot = 2 * (len(freqs) - 1)  # Number of samples
-            fs = freqs[-1] / (N_tot)
         else:
             N_tot = len(freqs)  # Number of samples
-            fs = freqs[-1] / (N_tot - 2)
-        tf = 1 / (fs * 2)
+        fs = (freqs[-1] - freqs[0]) / (len(freqs) - 1)  # Step between lines
+        tf = 1 / fs
         time = linspace(0, tf, N_tot, endpoint=False)
         # fsampt = freqs[-1] * 2.0
         # timestep = 1.0 / fsampt
@@ -446,7 +445,12 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
@@ -468,13 +472,9 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
             values = insert(other_values, 0, slice_0, axis=axes[-1])
             values_IFT = irfftn(values, axes=axes)
         elif is_half:
-            values = values * size / 2
-            values_shift = ifftshift(values, axes=axes[:-1])
-            slice_0 = take(values_shift, 0, axis=axes[-1])
-            slice_0 *= 2
-            other_values = delete(values_shift, 0, axis=axes[-1])
-            values = insert(other_values, 0, slice_0, axis=axes[-1])
-            values_IFT = ifftn(values, axes=axes)
+            # Only positive wavenumbers: lines already contain the negative ones
+            values_shift = ifftshift(values, axes=axes[:-1]) * size
+            values_IFT = ifftn(values_shift, axes=axes)
         else:
             values_shift = ifftshift(values, axes=axes) * size
             values_IFT = ifftn(values_shift, axes=axes)
-- 
2.43.0


From 4c494e6c46140452bf379536dbd5afb76543a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:37 +0000
Subject: [PATCH 09/47] fix: keep is_real when building a DataDual

A DataDual made from a complex field was marked as real, so requests mixing
both domains returned the transform of a one-sided spectrum.
---
 SciDataTool/Methods/DataFreq/to_datadual.py | 1 +
 SciDataTool/Methods/DataTime/to_datadual.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..6e47797 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -23,6 +23,7 @@ def to_datadual(self, datatime=None):
         normalizations=self.normalizations.copy(),
         axes_df=self.axes,
         values_df=self.values,
+        is_real=self.is_real,
     )
 
     # Add time/space data (from input or using ifft)
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..8249724 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -23,6 +23,7 @@ def to_datadual(self, datafreq=None):
         normalizations=self.normalizations.copy(),
         axes_dt=self.axes,
         values_dt=self.values,
+        is_real=self.is_real,
     )
 
     # Add fourier data (from input or using fft)
-- 
2.43.0


From e19dafa762b172d3757994daed175f7566d8f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:56 +0000
Subject: [PATCH 10/47] fix: derivative and primitive of signals that are
 anti-periodic or not sampled from zero

The derivative at the first sample used a wrong neighbour coordinate unless
the axis starts at zero. The primitive of an anti-periodic signal lost its
anti-periodicity because its average over half a period was removed, and
the first value of a primitive was taken at the end of the period. Values
along pattern axes are no longer trimmed.
---
 .../Functions/derivation_integration.py       | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 12bcd6b..0fc1c8a 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -64,14 +64,18 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
             # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            values_int = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
-            # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
-            # Get N first values and swap axes back to origin
+            # Get N first values
+            values = values_int[: values.shape[0], ...]
+            if is_aper:
+                # Integration constant is given by anti-periodicity
+                values = values - values_int[-1, ...] / 2
+            else:
+                # Integration constant is given by removing average value
+                values = values - np.mean(values, axis=0)
+            # Swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
         else:
@@ -311,7 +315,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
@@ -328,8 +332,11 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 values_full[0, ...] = (-1) ** int(is_aper) * values[-1, ...]
             # Derivate along axis
             values = np.gradient(values_full, ax_full, axis=0)
-            # Get N first values and swap axes back to origin
-            values = np.swapaxes(values[1:-1, ...], 0, index)
+            if ax_full.size > ax_val.size:
+                # Remove added samples
+                values = values[1:-1, ...]
+            # Swap axes back to origin
+            values = np.swapaxes(values, 0, index)
 
         else:
             raise Exception("Cannot derivate along axis if axis size is 1")
-- 
2.43.0


From 934700ab85d249027a8c92bf4a15522722771de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 11/47] fix: interpolation at existing samples keeps the
 requested order

Asking for values at a subset of the samples returned them sorted and
without repetitions, not in the order of the request.  Two close but
different samplings were also treated as identical.
---
 SciDataTool/Functions/interpolations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..1cf5eb1 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -93,13 +93,13 @@ def get_interpolation(values, axis_values, new_axis_values, index):
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
     elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+        isclose(axis_values, new_axis_values, rtol=1e-09, atol=0)
     ):  # Same axes -> no interpolation
         return values
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        indice_take = [where(axis_values == value)[0][0] for value in new_axis_values]
 
         return take(
             values,
-- 
2.43.0


From d1ca0f53f74d8b5ba8960c77cb70c331ab4d05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 12/47] fix: comparison of fields sampled differently

The compare methods called the interpolation without the axis index and
failed as soon as two fields did not share the same sampling.
---
 SciDataTool/Methods/DataND/compare_along.py           | 11 ++++++++++-
 SciDataTool/Methods/DataND/compare_magnitude_along.py | 11 ++++++++++-
 SciDataTool/Methods/DataND/compare_phase_along.py     | 11 ++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 18cd2dd..63556c4 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -37,21 +37,30 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
+        index = 0
         for axis in axes.keys():
+            if isinstance(axes[axis], str) or len(axes[axis]) == 1:
+                # Axis was reduced -> nothing to interpolate
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
             return_dict[axis] = common_axis_values[axis]
+            index += 1
         # Return axis and values
         return_dict[self.symbol] = values
         return_dict["axes_list"] = axes_list
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 4fd0ea9..5b93c7a 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -37,21 +37,30 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
+        index = 0
         for axis in axes.keys():
+            if isinstance(axes[axis], str) or len(axes[axis]) == 1:
+                # Axis was reduced -> nothing to interpolate
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
             return_dict[axis] = common_axis_values[axis]
+            index += 1
         # Return axis and values
         return_dict[self.symbol] = values
         return_dict["axes_list"] = axes_list
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index bf45c0d..f895734 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -37,21 +37,30 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
+        index = 0
         for axis in axes.keys():
+            if isinstance(axes[axis], str) or len(axes[axis]) == 1:
+                # Axis was reduced -> nothing to interpolate
+                return_dict[axis] = axes[axis]
+                continue
             common_axis_values[axis] = axes[axis]
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values, axes[axis], common_axis_values[axis], index
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    index,
                 )
             return_dict[axis] = common_axis_values[axis]
+            index += 1
         # Return axis and values
         return_dict[self.symbol] = values
         return_dict["axes_list"] = axes_list
-- 
2.43.0


From 069e52f2dd3d7f3ffd26ddccfd299255273a7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 13/47] fix: interpolation outside of the stored period

Two coordinates beyond the stored period were read as an interval instead
of two points.  The period to rebuild was chosen by comparing coordinates
in the requested unit with an axis in SI.
---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..41d4bda 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -70,6 +70,8 @@ def get_axis(self, axis, is_real):
             self.values = values
 
     else:
+        # Extension may be changed below to rebuild symmetries
+        is_axis_data = self.extension == "axis_data"
         if self.extension == "pattern":
             if not self.is_pattern:
                 raise AxisError("[pattern] cannot be called with non DataPattern axis")
@@ -116,8 +118,10 @@ def get_axis(self, axis, is_real):
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
+                    unit=self.unit,
                     operation=self.operation,
                     is_real=is_real,
+                    corr_unit=self.corr_unit,
                 )
                 if min(self.input_data) >= min(axis_values) and max(
                     self.input_data
@@ -128,8 +132,10 @@ def get_axis(self, axis, is_real):
                 else:
                     axis_values = axis.get_values(
                         is_oneperiod=True,
+                        unit=self.unit,
                         operation=self.operation,
                         is_real=is_real,
+                        corr_unit=self.corr_unit,
                     )
                     if min(self.input_data) >= min(axis_values) and max(
                         self.input_data
@@ -210,7 +216,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From bda969bb8027964b0b0d4740f90d60b9e7bb307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:30 +0000
Subject: [PATCH 14/47] fix: axis values and length agree for every
 parametrisation

The number of samples was truncated in one place and rounded in another,
the step was not respected when the end point is excluded, and the length
of spectral axes was multiplied by their symmetries.  Values over one
period of an anti-periodic axis no longer modify the axis while they are
computed, and normalization vectors are also rebuilt in that case.
---
 SciDataTool/Methods/Data1D/get_length.py      |  4 ++
 SciDataTool/Methods/Data1D/get_values.py      | 32 ++++++---------
 .../Methods/DataLinspace/get_length.py        |  8 +++-
 .../Methods/DataLinspace/get_values.py        | 41 +++++++++----------
 4 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_length.py b/SciDataTool/Methods/Data1D/get_length.py
index 549d243..6354629 100644
--- a/SciDataTool/Methods/Data1D/get_length.py
+++ b/SciDataTool/Methods/Data1D/get_length.py
@@ -16,6 +16,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     Length of axis
     """
     N = len(self.values)
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..3507552 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -50,7 +50,7 @@ def get_values(
             unit = "SI"
 
     values = self.values
-    norm_vector = None
+    symmetries = dict()
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -66,26 +66,16 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = self.symmetries.copy()
+            symmetries["antiperiod"] = 2
+            values = rebuild_symmetries_axis(values, symmetries)
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        symmetries = self.symmetries
+        values = rebuild_symmetries_axis(values, symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -108,7 +98,12 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                norm = self.normalizations[normalization]
+                if isinstance(norm, Norm_vector):
+                    # Rebuild symmetries of the vector
+                    norm = norm.copy()
+                    norm.vector = rebuild_symmetries_axis(norm.vector, symmetries)
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +116,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 7c59dfd..86283b6 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -17,10 +17,16 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     """
 
     if self.number is None:
-        N = round((self.final - self.initial + self.step) / self.step)
+        N = round((self.final - self.initial) / self.step)
+        if self.include_endpoint:
+            N = N + 1
     else:
         N = self.number
 
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..136d693 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -52,16 +52,21 @@ def get_values(
     initial = self.initial
     if self.number == None:
         final = self.final
-        number = (final - initial + self.step) / self.step
+        number = round((final - initial) / self.step)
+        if self.include_endpoint:
+            number = number + 1
     elif self.final == None:
         number = self.number
-        final = self.initial + (number - 1) * self.step
+        if self.include_endpoint:
+            final = self.initial + (number - 1) * self.step
+        else:
+            final = self.initial + number * self.step
     else:
         number = self.number
         final = self.final
     values = linspace(initial, final, int(number), endpoint=self.include_endpoint)
 
-    norm_vector = None
+    symmetries = dict()
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -77,26 +82,16 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = self.symmetries.copy()
+            symmetries["antiperiod"] = 2
+            values = rebuild_symmetries_axis(values, symmetries)
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        symmetries = self.symmetries
+        values = rebuild_symmetries_axis(values, symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -119,7 +114,12 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                norm = self.normalizations[normalization]
+                if isinstance(norm, Norm_vector):
+                    # Rebuild symmetries of the vector
+                    norm = norm.copy()
+                    norm.vector = rebuild_symmetries_axis(norm.vector, symmetries)
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -132,7 +132,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
-- 
2.43.0


From 3f747796f82439f6f30ef1df113e9d247b2e2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:30 +0000
Subject: [PATCH 15/47] fix: reducing an axis to a period keeps the source axis
 intact

The normalization vectors of the source axis were truncated in place, an
explicit axis that already had a period lost samples, and a period of one
sample could not be rebuilt.
---
 SciDataTool/Methods/Data1D/get_axis_periodic.py   | 15 +++++++++++----
 .../Methods/DataLinspace/get_axis_periodic.py     | 13 ++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..01e1ae1 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -27,15 +28,18 @@ def get_axis_periodic(self, Nper, is_aper=False):
     try:
         # Reduce axis to the given periodicity
         Nper = Nper * 2 if is_aper else Nper
-        values = self.values
+        values = self.get_values()
         N = self.get_length()
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)[
+                    : int(N / Nper)
+                ]
 
         if is_aper:
             sym = "antiperiod"
@@ -46,13 +50,16 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Step cannot be deduced from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = Data1D(
             values=values_per,
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..5286ee7 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -33,9 +34,12 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)[
+                    : int(N / Nper)
+                ]
 
         if is_aper:
             sym = "antiperiod"
@@ -46,6 +50,9 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1:
+                # Step cannot be deduced from a single sample
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = DataLinspace(
             initial=self.initial,
@@ -55,7 +62,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
-- 
2.43.0


From 787478b6b78a1fcfbd531db709a79ce54de50a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:30 +0000
Subject: [PATCH 16/47] fix: only evenly spaced values become a linear axis

The tolerance was relative to the values and not to their spacing, so that
uneven samples were moved when the axis was far from zero or very small.
---
 SciDataTool/Methods/Data1D/to_linspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 06a7e5d..fe1c44e 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -25,8 +25,8 @@ def to_linspace(self):
         and allclose(
             values,
             linspace(values[0], values[-1], number, endpoint=True),
-            rtol=1e-5,
-            atol=1e-8,
+            rtol=0,
+            atol=1e-5 * abs(values[-1] - values[0]) / (number - 1),
             equal_nan=False,
         )
     ):
@@ -37,7 +37,7 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
+            symmetries=self.symmetries.copy(),
             normalizations=self.normalizations.copy(),
             is_components=self.is_components,
             symbol=self.symbol,
-- 
2.43.0


From efdc12837b6a148e583d046f7cdf059761bb5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:44 +0000
Subject: [PATCH 17/47] fix: dimensions of gram, metre and henry

The dimensions of mass and length were swapped, so that for example Pa
could not be converted to N/m2, and the dimension of the henry was wrong.
---
 SciDataTool/Functions/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..eef4882 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
-- 
2.43.0


From 62d07da6ac744a8a874ff0b2b779873aa0b58575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:16 +0000
Subject: [PATCH 18/47] fix: half-line selections on a normalized axis

Requests such as "time->name>0.5" were split on the wrong character and raised an error.
---
 SciDataTool/Functions/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 89ecf02..70a2fac 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,9 +34,9 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
-- 
2.43.0


From 3590865c5c62237f9f4b6f965add9a1d0ade58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:16 +0000
Subject: [PATCH 19/47] fix: spectrum amplitudes when the spectral axis is
 normalized

The wavenumbers kept for folding were judged on the normalized values.
A frequency given in another unit or normalization was taken as a frequency in Hz.
---
 SciDataTool/Functions/fft_functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 6276ab1..7e504c7 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -1,4 +1,5 @@
 from numpy import (
+    arange,
     array,
     pi,
     exp,
@@ -230,7 +231,7 @@ def comp_fftn(values, axes_list, is_real=True):
                     axis.values = axis.input_data
                     axis.input_data = None
                     continue
-            if axis.input_data is not None:
+            if axis.input_data is not None and axis.unit in ["SI", axis.corr_unit]:
                 if (
                     len(axis.input_data) == 1
                     and not isin(
@@ -267,6 +268,11 @@ def comp_fftn(values, axes_list, is_real=True):
     for axis in axes_list:
         if axis.index not in axes_dict_non_uniform:
             if axis.transform == "fft":
+                # Requested wavenumbers, whatever their unit or normalization
+                N = values.shape[axis.index]
+                wavenumbers = arange(N) - N // 2
+                if axis.indices is not None:
+                    wavenumbers = wavenumbers[axis.indices]
                 if is_real and axis.name == "freqs":
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
@@ -275,7 +281,7 @@ def comp_fftn(values, axes_list, is_real=True):
                     is_real
                     and axis.name == "wavenumber"
                     and "freqs" not in axis_names
-                    and min(axis.values) >= 0
+                    and min(wavenumbers) >= 0
                 ):
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
-- 
2.43.0


From ee9f49cf67ccbadfaa13203a61443aec53aaf4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:16 +0000
Subject: [PATCH 20/47] fix: unit and normalization of spectral axes

The unit of the time or space axis was accepted as unit of the spectral axis.
Wavenumbers of a periodic axis are scaled before being normalized.
---
 SciDataTool/Methods/Data1D/get_values.py      | 18 ++++++++---------
 .../Methods/DataLinspace/get_values.py        | 20 +++++++++----------
 SciDataTool/Methods/DataPattern/get_values.py |  9 ++++-----
 SciDataTool/Methods/RequestedAxis/get_axis.py |  9 +--------
 4 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index 3507552..7bde275 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -82,13 +82,12 @@ def get_values(
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, operation)  # Conversion function
         values = array(func(values, is_real=is_real))
-        if is_full and (self.name == "freqs" or self.name == "wavenumber"):
+        # Rebuild symmetries in fft case, before normalization
+        if is_full and self.name != "time":
             if "period" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["period"]
+                values = values * self.symmetries["period"]
             elif "antiperiod" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["antiperiod"] / 2
+                values = values * self.symmetries["antiperiod"] / 2
 
     # Normalization
     if normalization is not None:
@@ -110,10 +109,9 @@ def get_values(
             raise NormError("Normalization is not available")
 
     # Unit conversion
-    if unit != "SI" and unit != self.unit:
-        if corr_unit is not None:
-            values = convert(values, corr_unit, unit)
-        else:
-            values = convert(values, self.unit, unit)
+    if corr_unit is None:
+        corr_unit = self.unit
+    if unit != "SI" and unit != corr_unit:
+        values = convert(values, corr_unit, unit)
 
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 136d693..74ded5c 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -36,6 +36,8 @@ def get_values(
         name of normalization to use
     operation: str
         name of the operation (e.g. "freqs_to_time")
+    is_full: bool
+        rebuild the symmetries of the fft axis (operation to wavenumber)
     Returns
     -------
     Vector of axis values
@@ -98,13 +100,12 @@ def get_values(
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, operation)  # Conversion function
         values = array(func(values, is_real=is_real))
-        if is_full and (self.name == "freqs" or self.name == "wavenumber"):
+        # Rebuild symmetries in fft case, before normalization
+        if is_full and self.name != "time":
             if "period" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["period"]
+                values = values * self.symmetries["period"]
             elif "antiperiod" in self.symmetries:
-                if self.name != "time":
-                    values = values * self.symmetries["antiperiod"] / 2
+                values = values * self.symmetries["antiperiod"] / 2
 
     # Normalization
     if normalization is not None:
@@ -126,10 +127,9 @@ def get_values(
             raise NormError("Normalization is not available")
 
     # Unit conversion
-    if unit != "SI" and unit != self.unit:
-        if corr_unit is not None:
-            values = convert(values, corr_unit, unit)
-        else:
-            values = convert(values, self.unit, unit)
+    if corr_unit is None:
+        corr_unit = self.unit
+    if unit != "SI" and unit != corr_unit:
+        values = convert(values, corr_unit, unit)
 
     return values
diff --git a/SciDataTool/Methods/DataPattern/get_values.py b/SciDataTool/Methods/DataPattern/get_values.py
index 7ceac9d..d38e241 100644
--- a/SciDataTool/Methods/DataPattern/get_values.py
+++ b/SciDataTool/Methods/DataPattern/get_values.py
@@ -78,10 +78,9 @@ def get_values(
             raise NormError("Normalization is not available")
 
     # Unit conversion
-    if unit != "SI" and unit != self.unit:
-        if corr_unit is not None:
-            values = convert(values, corr_unit, unit)
-        else:
-            values = convert(values, self.unit, unit)
+    if corr_unit is None:
+        corr_unit = self.unit
+    if unit != "SI" and unit != corr_unit:
+        values = convert(values, corr_unit, unit)
 
     return values
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 41d4bda..73b0ff8 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -183,16 +183,9 @@ def get_axis(self, axis, is_real):
             operation=self.operation,
             is_real=is_real,
             corr_unit=self.corr_unit,
+            is_full=self.transform == "fft",
         )
 
-        # Rebuild symmetries in fft case
-        if self.transform == "fft":
-            if "period" in axis.symmetries:
-                if axis.name != "time":
-                    values = values * axis.symmetries["period"]
-            elif "antiperiod" in axis.symmetries:
-                if axis.name != "time":
-                    values = values * axis.symmetries["antiperiod"] / 2
         # Rebuild symmetries in ifft case
         if self.transform == "ifft":
             if self.extension not in [
-- 
2.43.0


From be8256f9bd87bc5d52d9405f11039df039d561aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:51 +0000
Subject: [PATCH 21/47] fix: tolerant unique and intersection

Counts without inverse raised an error, inverse and counts did not follow the stable order.
Intersection lost equal values at a multiple of the tolerance and used the tolerance of the first array only.
---
 SciDataTool/Functions/set_routines.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index dc6ec5c..a89fac5 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -94,27 +94,23 @@ def unique_tol(
     if not is_abs_tol:
         tol = get_relative_tolerance(a, tol)
 
-    res_tuple = np.unique(
+    _, Ia, Ib, count0 = np.unique(
         np.round(a / tol),
         return_index=True,
-        return_inverse=return_inverse,
-        return_counts=return_counts,
+        return_inverse=True,
+        return_counts=True,
         axis=axis,
     )
 
     if is_stable:
-        Ia = np.sort(res_tuple[1])
-    else:
-        Ia = res_tuple[1]
+        # Sort unique values by order of appearance
+        Isort = np.argsort(Ia)
+        Ia = Ia[Isort]
+        Ib = np.argsort(Isort)[Ib]
+        count0 = count0[Isort]
 
     b = a[Ia]
 
-    if return_inverse:
-        Ib = res_tuple[2]
-
-    if return_counts:
-        count0 = res_tuple[3]
-
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
     elif return_index and return_inverse:
@@ -164,11 +160,11 @@ def intersect1d_tol(
     """
 
     if not is_abs_tol:
-        tol = get_relative_tolerance(ar1, tol)
+        tol = get_relative_tolerance(np.concatenate((ar1, ar2)), tol)
 
     _, Ia, Ib = np.intersect1d(
-        np.floor(ar1 / tol),
-        np.floor(ar2 / tol),
+        np.round(ar1 / tol),
+        np.round(ar2 / tol),
         assume_unique=assume_unique,
         return_indices=True,
     )
-- 
2.43.0


From b8cf7ec82c4d1a6fbdb3190ed5e8309f4b4a7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:51 +0000
Subject: [PATCH 22/47] fix: sum and convolution of spectra on a linear
 frequency axis

Such axes, produced by time_to_freq, have no values to replace.
Negative frequencies are now rejected by the convolution as intended.
---
 SciDataTool/Methods/DataFreq/conv.py | 14 ++++++++++----
 SciDataTool/Methods/DataFreq/sum.py  | 10 ++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..a5a13b7 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -1,5 +1,6 @@
 from numpy import inf, any as np_any
 
+from SciDataTool import Data1D
 from SciDataTool.Functions.sum_convolution import get_conv_indices, get_conv_amplitudes
 
 
@@ -56,14 +57,14 @@ def conv(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -85,8 +86,13 @@ def conv(
     amp = get_conv_amplitudes(self.values, other.values, I0a, I0b, I1, I2)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Freqs = Data1D(
+        name="freqs",
+        unit=self.axes[0].unit,
+        values=freqs_un,
+        symmetries=self.axes[0].symmetries.copy(),
+        normalizations=self.axes[0].normalizations.copy(),
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..8974b5c 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -1,5 +1,6 @@
 from numpy import any as np_any
 
+from SciDataTool import Data1D
 from SciDataTool.Functions.sum_convolution import get_sum_indices, get_sum_amplitudes
 
 
@@ -77,8 +78,13 @@ def sum(
     amp = get_sum_amplitudes(self.values, other.values, I0b)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    Freqs = Data1D(
+        name="freqs",
+        unit=self.axes[0].unit,
+        values=freqs_un,
+        symmetries=self.axes[0].symmetries.copy(),
+        normalizations=self.axes[0].normalizations.copy(),
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
-- 
2.43.0


From f3ab9731a3b0eff511f9e61db929ac69f0bf2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:47 +0000
Subject: [PATCH 23/47] fix: change of referential of stored spectra and vector
 fields

Waves whose frequency changes sign were lost when starting from positive frequencies.
The first line was halved or doubled even when it was not the zero frequency.
Lines of the other components of a vector field were filtered on the first component.
Explicit time and angle axes raised an error in the waveform domain.
---
 .../Methods/DataND/change_referential.py      | 41 ++++++++++---------
 .../Methods/VectorField/change_referential.py | 27 ++++++------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..c39dcd5 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -83,7 +83,6 @@ def change_referential(
 
     # Get axes list
     axes_list = self.get_axes()
-    axes_name = [axis.name for axis in axes_list]
 
     if len(arg_list) == 0:
         # Get fft along frequency axis (keep other axes)
@@ -144,6 +143,19 @@ def change_referential(
         freqs = result["freqs"]
         wavenumber = result["wavenumber"]
 
+        if is_real and not np.any(freqs < 0):
+            # Input data is DataFreq with positive frequencies only, rebuild negative
+            # frequencies since they can become positive in the new referential
+            Ifp = freqs > 0
+            Ir, Ir_neg = np.where(
+                np.isclose(wavenumber[:, None], -wavenumber[None, :], atol=1e-6)
+            )
+            values_neg = np.zeros_like(values[Ifp, ...])
+            values_neg[:, Ir, ...] = np.conj(values[Ifp, ...][:, Ir_neg, ...])
+            values = np.concatenate((values_neg, values), axis=0)
+            freqs = np.concatenate((-freqs[Ifp], freqs), axis=0)
+            values[freqs != 0, ...] = values[freqs != 0, ...] / 2
+
         val_new, freqs_new, I1, Irf_un = change_referential_spectrum(
             freqs,
             wavenumber,
@@ -153,26 +165,17 @@ def change_referential(
             freqs_new=freqs_new,
             I1=I1,
             Irf_un=Irf_un,
-            is_double_f0=is_real and "freqs" in axes_name,
             atol_freq=atol_freq,
         )
 
         if is_real:
-            # Adapt spectrum amplitude
-            if "time" in axes_name:
-                # Input data is DataTime, FFT has just been performed in four quadrants
-                # so all amplitudes are multiplied by 2 after restriction to positive frequencies
-                coeff = 2
-            else:
-                # Input data is DataFreq, since data is a real spectrum no need to multiply again
-                # all harmonics by two
-                coeff = 1
-
-            # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
-            Ifreq_pos = freqs_new >= 0
+            # Restrict spectrum to positive frequencies only and multiply amplitudes by two
+            # except zero frequency components
+            Ifreq_pos = freqs_new > -atol_freq
             freqs_store = freqs_new[Ifreq_pos]
-            val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            val_new = val_new[Ifreq_pos] * 2
+            If0 = np.abs(freqs_store) < atol_freq
+            val_new[If0, ...] = val_new[If0, ...] / 2
         else:
             freqs_store = freqs_new
 
@@ -183,12 +186,12 @@ def change_referential(
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
                 axis_new.symmetries = sym_t_new
-                axis_new.number = time_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = time_new.size
                     axis_new.final = time_new[-1]
                     axis_new.include_endpoint = True
                 else:
-                    axis_new.values = time0
+                    axis_new.values = time_new
 
             elif axis.name == "angle" and is_waveform:
                 axis_new = axis.copy()
@@ -196,8 +199,8 @@ def change_referential(
                     axis_new.symmetries = {"antiperiod": int(2 * per_a)}
                 else:
                     axis_new.symmetries = {"period": per_a}
-                axis_new.number = angle_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = angle_new.size
                     axis_new.final = angle_new[-1]
                     axis_new.include_endpoint = True
                 else:
diff --git a/SciDataTool/Methods/VectorField/change_referential.py b/SciDataTool/Methods/VectorField/change_referential.py
index 15c3f63..9941c50 100644
--- a/SciDataTool/Methods/VectorField/change_referential.py
+++ b/SciDataTool/Methods/VectorField/change_referential.py
@@ -36,7 +36,6 @@ def change_referential(
     freqs_new = np.array([])
     I1 = np.array([])
     Irf_un = np.array([])
-    Imask = np.array([])
     ta_in = tuple()
     ta_out = tuple()
     for comp, data in self.components.items():
@@ -66,23 +65,23 @@ def change_referential(
             atol_freq=atol_freq,
         )
 
-        # Filter harmonics that are below input absolute tolerance
-        if atol > 0 and not is_waveform:
+        # Store referential changed data in VectorField
+        vf_new.components[comp] = data_new
 
+    # Filter harmonics that are below input absolute tolerance in all components
+    if atol > 0 and not is_waveform:
+        Imask = np.array(False)
+        for data_new in vf_new.components.values():
+            val = np.abs(data_new.values)
+            val_max = np.max(val)
+            while val.ndim > 1:
+                val = np.sum(val, axis=-1)
+            Imask = Imask | (val > val_max * atol)
+
+        for data_new in vf_new.components.values():
             # Copy axis not to change axis in axes_list_change
             data_new.axes = [axis.copy() for axis in data_new.axes]
-
-            # Filter harmonics that are below input absolute tolerance
-            if Imask.size == 0:
-                val = np.abs(data_new.values)
-                val_max = np.max(val)
-                while val.ndim > 1:
-                    val = np.sum(val, axis=-1)
-                Imask = val > val_max * atol
             data_new.axes[0].values = data_new.axes[0].values[Imask]
             data_new.values = data_new.values[Imask, ...]
 
-        # Store referential changed data in VectorField
-        vf_new.components[comp] = data_new
-
     return vf_new
-- 
2.43.0


From 032ffcfad86f436ce47aea7add5fef5141d55f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:52 +0000
Subject: [PATCH 24/47] fix: pair harmonics with their coordinates for any axis
 order

get_harmonics assumed that frequencies are stored before wavenumbers, so the
coordinates of the largest lines were swapped when the angle comes first. It
also failed when the request selects a single line.
---
 SciDataTool/Methods/DataND/get_harmonics.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_harmonics.py b/SciDataTool/Methods/DataND/get_harmonics.py
index dbf42cf..670029e 100644
--- a/SciDataTool/Methods/DataND/get_harmonics.py
+++ b/SciDataTool/Methods/DataND/get_harmonics.py
@@ -1,5 +1,6 @@
 from numpy import (
     argsort,
+    atleast_1d,
     negative,
     meshgrid,
 )
@@ -39,8 +40,13 @@ def get_harmonics(
         r = return_dict["wavenumber"]
         f = return_dict["freqs"]
         # Flatten the data
-        values_flat = values.flatten()
-        R, F = meshgrid(r, f)
+        values_flat = atleast_1d(values).flatten()
+        # Follow the order in which the axes are stored
+        names = [axis.name for axis in return_dict["axes_list"]]
+        if names.index("freqs") < names.index("wavenumber"):
+            F, R = meshgrid(f, r, indexing="ij")
+        else:
+            R, F = meshgrid(r, f, indexing="ij")
         f = F.flatten()
         r = R.flatten()
         # Get the N_harm largest peaks
@@ -59,7 +65,8 @@ def get_harmonics(
 
     # 1D cases
     elif "freqs" in return_dict:
-        f = return_dict["freqs"]
+        f = atleast_1d(return_dict["freqs"])
+        values = atleast_1d(values)
         indices = argsort(negative(values))
         indices = indices[:N_harm]
         f = f[indices]
@@ -67,7 +74,8 @@ def get_harmonics(
         return_dict["freqs"] = f
         return_dict[self.symbol] = values
     elif "wavenumber" in return_dict:
-        r = return_dict["wavenumber"]
+        r = atleast_1d(return_dict["wavenumber"])
+        values = atleast_1d(values)
         indices = argsort(negative(values))
         indices = indices[:N_harm]
         r = r[indices]
-- 
2.43.0


From abe18232475d7063234b02b16267eb9513dab8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:41 +0000
Subject: [PATCH 25/47] fix: octave bands, dBA tables and in-place changes of
 level conversions

Levels were computed on the array given by the caller, which was overwritten
with the reference. The last octave band was empty, fractions other than 1 and
1/3 failed or never ended for spectra starting at 0 Hz or below 1000 Hz, the
tabulated A-weighting returned nothing and integer frequencies were rejected.
---
 SciDataTool/Functions/conversions.py   | 23 +++++++++++------------
 SciDataTool/Functions/fft_functions.py | 24 ++++++++++++------------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index eef4882..49bc14a 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -283,7 +283,7 @@ def to_dB(values, unit, ref_value=1.0):
     """
     if ref_value != 1:
         if isinstance(values, ndarray):
-            values[values < ref_value] = ref_value
+            values = where(values < ref_value, ref_value, values)
         else:
             if values < ref_value:
                 values = ref_value
@@ -401,10 +401,9 @@ def dB_to_dBA(values, freqs, noct=None):
             -6.6,
             -9.3,
         ]
-        mask = argwhere(freqs in freqs_ref)
-        Aweight = take(Aweight, mask)
+        Aweight = array([Aweight[freqs_ref.index(f)] for f in freqs])
     else:
-        freq2 = square(freqs)
+        freq2 = square(freqs).astype(float)
         freq2[freq2 == 0] = nan
         RA = (
             12200.0 ** 2
@@ -417,8 +416,8 @@ def dB_to_dBA(values, freqs, noct=None):
         )
         Aweight = 2.0 + 20.0 * log10(RA)
         Aweight[isnan(Aweight)] = -100  # replacing NaN by -100 dB
-        values_dBA = values + Aweight
-        return values_dBA
+    values_dBA = values + Aweight
+    return values_dBA
 
 
 def to_noct(values, freqs, noct=3):
@@ -440,11 +439,11 @@ def to_noct(values, freqs, noct=3):
     f_oct = comp_nthoctave_axis(noct, freqs[0], freqs[-1])
     # Compute sum over each interval
     freqbds = [f / (2 ** (1.0 / (2.0 * noct))) for f in f_oct]
-    freqbds.append(freqbds[-1])
+    freqbds += [f * (2 ** (1.0 / (2.0 * noct))) for f in f_oct[-1:]]
     # freqbds = [0] + f_oct
     values_oct = []
-    N = zeros(len(freqbds) - 1)
-    for i in range(len(freqbds) - 1):
+    N = zeros(len(f_oct))
+    for i in range(len(f_oct)):
         f1 = freqbds[i]
         f2 = freqbds[i + 1]
         indices = argwhere((freqs >= f1) & (freqs <= f2))
@@ -461,10 +460,10 @@ def to_noct(values, freqs, noct=3):
     # Apply bin correction factor for when centre frequencies are not integer
     # multiples of the bandwicth (BW)
     df_fft = freqs[1] - freqs[0]
-    BW = zeros(len(freqbds) - 1)
-    for i in range(len(freqbds) - 1):
+    BW = zeros(len(f_oct))
+    for i in range(len(f_oct)):
         BW[i] = freqbds[i + 1] - freqbds[i]
-    for i in range(len(freqbds) - 1):
+    for i in range(len(f_oct)):
         if (N[i] != 0) and (floor(BW[i] / df_fft) <= N[i]):
             values[i] = values[i] * (BW[i] / (df_fft * N[i])) ** 0.5
     return [values, array(f_oct)]
diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 7e504c7..65ab312 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -4,6 +4,8 @@ from numpy import (
     pi,
     exp,
     ceil,
+    floor,
+    log2,
     isin,
     take,
     insert,
@@ -159,19 +161,17 @@ def comp_nthoctave_axis(noct, freqmin, freqmax):
         f_oct = [f for f in table if (f >= freqmin and f <= freqmax)]
     else:
         f0 = 1000
-        f_oct = [f0]
-        i = 1
-        while f_oct[-1] <= freqmax:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct.append(0.5 * ceil(2.0 * f))
+        if freqmin <= 0:  # Lowest band as for third octaves
+            freqmin = 12.5
+        f_oct = []
+        # First band above freqmin (centre frequencies are rounded up to 0.5 Hz)
+        i = int(floor(noct * log2(freqmin / f0)))
+        f = 0.5 * ceil(2.0 * f0 * 2.0 ** (i / noct))
+        while f <= freqmax:
+            if f > freqmin:
+                f_oct.append(f)
             i = i + 1
-        f_oct = f_oct[:-1]
-        i = -1
-        while f_oct[0] > freqmin:
-            f = f0 * 2.0 ** (i / noct)
-            f_oct = [0.5 * ceil(2.0 * f)] + f_oct
-            i = i - 1
-        f_oct = f_oct[1:]
+            f = 0.5 * ceil(2.0 * f0 * 2.0 ** (i / noct))
     return f_oct
 
 
-- 
2.43.0


From 9fdb314c88fe5faee212f202ed91da234d71b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:41 +0000
Subject: [PATCH 26/47] fix: levels in dB and dBA for any axis order and
 selection

A-weighting used the position of the frequency axis before squeezing, the
frequencies of all the lines instead of the requested ones, and complex values
instead of magnitudes. Energetic sums dropped the other axes and were linear
for sampled signals. Frequencies of orders are order * speed / 60.
---
 SciDataTool/Methods/DataND/_convert.py        |  88 ++++----
 SciDataTool/Methods/DataND/_get_freqs.py      |   6 +-
 SciDataTool/Methods/DataND/get_data_along.py  |  14 +-
 .../Methods/DataND/get_magnitude_along.py     | 197 ++++++------------
 4 files changed, 117 insertions(+), 188 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..386760d 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -22,9 +22,6 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
-        values = np.squeeze(values)
-
     if unit == self.unit or unit == "SI":
         if is_norm:
             try:
@@ -40,49 +37,56 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         ref_value = 1.0
         if "ref" in self.normalizations:
             ref_value *= self.normalizations["ref"].ref
-        is_match = False
+        # Frequencies of the requested lines, along the axes they depend on
+        axis_names = [axis.name for axis in axes_list]
+        shape = [1] * values.ndim
+        freqs = None
         for axis in axes_list:
-            if axis.name == "freqs" or axis.corr_name == "freqs":
-                if axis.corr_values is not None and axis.unit not in [
-                    "SI",
-                    axis.corr_unit,
-                ]:
-                    axis_values = axis.corr_values
-                else:
-                    axis_values = axis.values
-                index = axis.index
-                values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
-                )
-                is_match = True
-            elif axis.name == "frequency":
-                if axis.corr_values is None:
-                    axis_values = axis.values
-                else:
-                    axis_values = axis.corr_values
-                index = axis.index
-                values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
-                )
-                is_match = True
-        if not is_match:
-            axis_names = [axis.name for axis in self.axes]
-            if "speed" in axis_names and "order" in axis_names:
-                freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
-                shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = np.apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
-                )
-                values = values.reshape(shape)
-            else:
-                raise UnitError(
-                    "dBA conversion only available for fft with frequencies"
-                )
+            if axis.name in ["freqs", "frequency"]:
+                freqs = axis.values
+                normalizations = self.axes[axis.index].normalizations
+                if axis.unit in normalizations:
+                    freqs = self.axes[axis.index].get_values(
+                        is_oneperiod=axis.transform == "fft",
+                        is_smallestperiod=axis.transform != "fft",
+                        operation=axis.operation,
+                        is_real=self.is_real,
+                        is_full=axis.transform == "fft",
+                    )
+                    if axis.indices is not None:
+                        freqs = np.take(freqs, axis.indices)
+                elif axis.unit not in ["SI", axis.corr_unit]:
+                    freqs = convert_unit(freqs, axis.unit, "Hz")
+                shape[axis.index] = len(freqs)
+        if freqs is None and "order" in axis_names:
+            freqs = self._get_freqs()
+            names = [axis.name for axis in self.axes]
+            index_order = names.index("order")
+            index_speed = names.index("speed") if "speed" in names else None
+            for i, axis in enumerate(self.axes):
+                if index_speed is None and "speed" in axis.normalizations:
+                    index_speed = i
+            for i, index in enumerate([index_speed, index_order]):
+                indices = [0]  # First sample if axis is not requested
+                for axis in axes_list:
+                    if axis.index == index:
+                        indices = axis.indices
+                if indices is not None:
+                    freqs = np.take(freqs, indices, axis=i)
+                shape[index] = freqs.shape[i]
+            if index_order < index_speed:
+                freqs = freqs.T
+        if freqs is None or any(
+            n not in [1, values.shape[i]] for i, n in enumerate(shape)
+        ):
+            raise UnitError("dBA conversion only available for fft with frequencies")
+        values = to_dBA(np.abs(values), freqs.reshape(shape), self.unit, ref_value)
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
         values = convert_unit(values, self.unit, unit)
 
+    if is_squeeze:
+        values = np.squeeze(values)
+
     return values
diff --git a/SciDataTool/Methods/DataND/_get_freqs.py b/SciDataTool/Methods/DataND/_get_freqs.py
index 71b7437..de63bd2 100644
--- a/SciDataTool/Methods/DataND/_get_freqs.py
+++ b/SciDataTool/Methods/DataND/_get_freqs.py
@@ -27,7 +27,7 @@ def _get_freqs(self):
     elif "frequency" in axis_names:
         index = axis_names.index("frequency")
     elif "time" in axis_names:
-        index = axis_names.index("frequency")
+        index = axis_names.index("time")
         operation = "time_to_freqs"
     elif "speed" in axis_names and "order" in axis_names:
         index_speed = axis_names.index("speed")
@@ -45,7 +45,7 @@ def _get_freqs(self):
 
     if index is not None:
         freqs = self.get_axes()[index].get_values(operation=operation)
-    else:  # f = speed * 60 / order
+    else:  # f = speed * order / 60
         if is_norm:
             normalization = "speed"
         else:
@@ -54,6 +54,6 @@ def _get_freqs(self):
         order_strings = self.get_axes()[index_order].get_values().tolist()
         orders = array([int(s.split(";")[0].replace("H", "")) for s in order_strings])
         os, so = meshgrid(orders, speed)
-        freqs = so * 60 / os
+        freqs = so * os / 60
 
     return freqs
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..d7a1adb 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,3 +1,5 @@
+from re import split
+
 from SciDataTool import Data1D
 from SciDataTool.Functions import axes_dict, rev_axes_dict
 from SciDataTool.Functions.conversions import get_unit_derivate, get_unit_integrate
@@ -22,6 +24,9 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     a DataND object
     """
 
+    if len(args) == 1 and type(args[0]) == tuple:
+        args = args[0]  # if called from another script with *args
+
     if "dB" in unit:
         results = self.get_magnitude_along(
             *args, is_squeeze=False, unit=unit, is_norm=is_norm, axis_data=axis_data
@@ -71,15 +76,16 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
             # Update symmetries
+            arg = [a for a in args if split(r"->|[\[=<>{]", a)[0] == axis_name][0]
             if (
-                "smallestperiod" in args[index]
-                or args[index]
+                "smallestperiod" in arg
+                or arg
                 in [
                     "freqs",
                     "wavenumber",
                 ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+                or "antiderivate" in arg
+                or "derivate" in arg
             ):
                 symmetries = self.axes[index].symmetries.copy()
             else:
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..7959598 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,10 @@
-from SciDataTool.Functions import AxisError, NormError, UnitError
-from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
+from re import split
+
+from SciDataTool.Functions import AxisError, NormError
+from SciDataTool.Functions.conversions import convert, to_dB, to_noct
+from SciDataTool.Functions.fft_functions import comp_nthoctave_axis
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, array, squeeze, take
 
 
 def get_magnitude_along(
@@ -50,10 +53,10 @@ def get_magnitude_along(
                 freq_name = axis.name
         if freq_name is not None:
             for i, arg in enumerate(args):
-                if freq_name in arg:
-                    if "sum" in arg or "rss" in arg:
-                        new_args[i] = freq_name
-                        index_freq = i
+                name = split(r"->|[\[=<>{]", arg)[0]
+                if name in args_freqs and ("=sum" in arg or "=rss" in arg):
+                    new_args[i] = name
+                    index_freq = i
             if index_freq is None:  # No sum on freqs axis -> can extract directly
                 return self.get_magnitude_along(
                     *args,
@@ -67,7 +70,10 @@ def get_magnitude_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
                 return data.get_magnitude_along(
-                    *[args[index_freq]],
+                    *[
+                        args[index_freq] if axis.name in args_freqs else axis.name
+                        for axis in data.axes
+                    ],
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
@@ -85,31 +91,19 @@ def get_magnitude_along(
                 elif "speed" in axis.normalizations:
                     is_match += 1
                     arg_speed = axis.name + "->speed"
-            if is_match == 2:
-                for i, arg in enumerate(args):
-                    if "speed" in arg:
-                        if arg.split("{")[0] != arg_speed:
-                            new_args[i] = arg_speed
-                            index_speed = i
-                    elif "order" in arg:
-                        if arg.split("{")[0] != "order":
-                            new_args[i] = "order"
-                            index_order = i
-            elif is_match == 1:
+            if is_match > 0:
                 for i, arg in enumerate(args):
-                    if "speed" in arg:
-                        if arg.split("{")[0] != arg_speed:
-                            new_args[i] = arg_speed
-                            index_speed = i
-            elif unit == "dB" or "A-weight" in self.normalizations:
-                self.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                )
-            else:
+                    is_operation = any(
+                        "=" + operation in arg
+                        for operation in ["sum", "rss", "mean", "rms", "max", "min"]
+                    )
+                    if "speed" in arg and is_operation:
+                        new_args[i] = arg_speed
+                        index_speed = i
+                    elif "order" in arg and is_operation and is_match == 2:
+                        new_args[i] = "order"
+                        index_order = i
+            elif unit != "dB" and "A-weight" not in self.normalizations:
                 raise AxisError(
                     "Cannot convert to " + unit + " without a frequency axis"
                 )
@@ -123,51 +117,31 @@ def get_magnitude_along(
                     is_squeeze=is_squeeze,
                     is_sum=False,
                 )
-            elif index_speed is None:  # Sum on order axis
-                if "[" in args[-1]:
-                    new_args[-1] = args[-1].split("[")[0]
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along order axis
-                return data.get_magnitude_along(
-                    *[arg_speed, args[index_order]] + args[2:],
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on order axis
-            elif index_order is None:  # Sum on speed axis
-                data = self.get_data_along(
-                    *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along speed axis
-                return data.get_magnitude_along(
-                    *args,
-                    axis_data=axis_data,
-                    unit=unit,
-                    is_squeeze=is_squeeze,
-                    is_sum=False,
-                    corr_unit=self.unit,
-                )  # Then sum on speed axis
-            else:  # Sum on speed and order axes
+            else:
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
-                )  # Extract first along speed and order axes
+                )  # Extract first along speed and/or order axes
+                names = [split(r"->|[\[=<>{]", arg)[0] for arg in args]
                 return data.get_magnitude_along(
-                    *[args[index_speed], args[index_order]],
+                    *[
+                        args[names.index(axis.name)]
+                        if names.index(axis.name) in [index_speed, index_order]
+                        else axis.name
+                        for axis in data.axes
+                    ],
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
                     is_sum=False,
                     corr_unit=self.unit,
-                )  # Then sum on speed and order axes
+                )  # Then sum on speed and/or order axes
 
     else:
 
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=False,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -178,10 +152,14 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
-                        to_noct, index, values, return_dict["freqs"], noct=axis.noct
+                    freqs = axis.values
+                    values = apply_along_axis(
+                        lambda v: to_noct(v, freqs, noct=axis.noct)[0], index, values
                     )
-                    return_dict[axis.name] = foct
+                    axis.values = array(
+                        comp_nthoctave_axis(axis.noct, freqs[0], freqs[-1])
+                    )
+                    return_dict[axis.name] = axis.values
         # Convert into right unit (apart because of dBA conversion)
         if unit == self.unit or unit == "SI":
             if is_norm:
@@ -201,86 +179,27 @@ def get_magnitude_along(
             if "A-weight" in self.normalizations:
                 values = to_dB(values, self.unit, ref_value)
                 # Extract requested indices from A-weight
-                axes_list = return_dict["axes_list"]
-                index_list = []
-                for ii, axis in enumerate(axes_list):
-                    if (
-                        axis.indices is not None
-                        and len(axis.indices) > 1
-                        and len(axis.indices) < len(axis.values)
-                    ):
-                        index_list.append(ii)
                 A_weight = self.normalizations["A-weight"].vector
-                for index in index_list:
-                    A_weight = take(
-                        A_weight,
-                        axes_list[index].indices,
-                        axis=index,
-                    )
-                # Flatten to apply A-weighting
-                A_weight = A_weight.ravel("C")
-                shape = values.shape
-                values = values.reshape(
-                    A_weight.shape
-                    + shape[len(self.normalizations["A-weight"].vector.shape) :]
+                for index in range(A_weight.ndim):
+                    indices = [0]  # First sample if axis is not requested
+                    for axis in return_dict["axes_list"]:
+                        if axis.index == index:
+                            indices = axis.indices
+                    if indices is not None:
+                        A_weight = take(A_weight, indices, axis=index)
+                # Apply A-weighting along the first axes
+                values += A_weight.reshape(
+                    A_weight.shape + (1,) * (values.ndim - A_weight.ndim)
                 )
-                values = apply_along_axis(add, 0, values, A_weight)
-                values = values.reshape(shape)
-            elif "freqs" in return_dict.keys():
-                for axis in return_dict["axes_list"]:
-                    if axis.name == "freqs" or axis.corr_name == "freqs":
-                        index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["freqs"]
-                values = apply_along_axis(
-                    to_dBA, index, values, freqs, self.unit, ref_value
-                )
-            elif "frequency" in return_dict.keys():
-                for axis in return_dict["axes_list"]:
-                    if axis.name == "frequency" or axis.corr_name == "frequency":
-                        index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["frequency"]
-                values = apply_along_axis(
-                    to_dBA, index, values, freqs, self.unit, ref_value
-                )
-            elif "order" in return_dict:
-                freqs = self._get_freqs()
-                freqs = freqs.ravel("C")
-                shape = values.shape
-                values = values.reshape(freqs.shape + shape[2:])
-                values = apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
-                )
-                values = values.reshape(shape)
             else:
-                raise UnitError(
-                    "dBA conversion only available for fft with frequencies"
+                values = self._convert(
+                    values, unit, is_norm, False, return_dict["axes_list"]
                 )
-
         elif unit in self.normalizations:
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
+        if is_squeeze:
+            values = squeeze(values)
         return_dict[self.symbol] = values
         return return_dict
-- 
2.43.0


From 1f16ce59e97651fe6035bbd1733d3bb2897e4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:23 +0000
Subject: [PATCH 27/47] fix: magnitude of derivatives and change of periodicity

The magnitude of a derivative or primitive was computed as the derivative of the
magnitude, which is complex along frequencies. Changing the periodicity of a
vector field shortened anti-periodic axes, moved axes that do not start at zero
and mixed one period of values with an anti-periodic axis.
---
 .../Methods/DataND/_apply_operations.py       | 22 +++++++---
 .../Methods/VectorField/change_periodicity.py | 43 +++++++++----------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 74aae04..1f5783f 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -33,9 +33,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         values of the field
     """
 
-    # Take magnitude before summing
-    if is_magnitude and "dB" not in unit:
-        values = np_abs(values)
+    # Magnitude is taken after derivations and before summing
+    is_abs = is_magnitude and "dB" not in unit
+    derivations = ["derivate", "antiderivate", "integrate_local"]
 
     # Get periodicity of each axis
     non_linear = [
@@ -51,9 +51,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             Nper, is_aper = 1, False
         else:
             Nper, is_aper = self.axes[index].get_periodicity()
-            if is_aper and is_magnitude and "dB" not in unit:
+            if is_aper and is_abs:
                 # Magnitude is the same on each anti-period
-                is_aper = False
+                is_aper = axis_requested.extension in derivations
             elif (
                 is_aper
                 and axis_requested.extension
@@ -72,8 +72,14 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
                 Nper, is_aper = Nper // 2, False
         periodicities.append((Nper, is_aper))
 
+    operations = list(zip(axes_list, periodicities))
+    if is_abs:
+        operations.sort(key=lambda operation: operation[0].extension not in derivations)
+
     # Apply sums, means, etc
-    for axis_requested, (Nper, is_aper) in zip(axes_list, periodicities):
+    for axis_requested, (Nper, is_aper) in operations:
+        if is_abs and axis_requested.extension not in derivations:
+            values = np_abs(values)
         # Get axis data
         ax_val = axis_requested.values
         extension = axis_requested.extension
@@ -144,7 +150,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         elif extension == "derivate":
             values = derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs)
 
-    if is_magnitude and "dB" in unit:  # Correction for negative/small dB/dBA
+    if is_abs:
+        values = np_abs(values)
+    elif is_magnitude:  # Correction for negative/small dB/dBA
         values[values < 2] = 0
         values = np_abs(values)
 
diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..7ac4eac 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -86,38 +86,42 @@ def change_periodicity(
     for axis in axes_list:
         axis_new = axis.copy()
         # Change time periodicity
-        if Nrep_t > 1 and axis.name == "time":
+        if (
+            Nrep_t > 1 or is_aper_t and not is_aper_t_new
+        ) and axis.name == "time":
             axis_new.symmetries = {"period": per_t_new}
             time_full = result["time"]
+            # Length of one period
+            if len(time_full) > 1:
+                t_per = time_full[-1] + time_full[1] - 2 * time_full[0]
+            else:
+                t_per = axis.final - axis.initial
             if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    t_final = time_full[-1] + time_full[1] - time_full[0]
-                else:
-                    t_final = axis.final
                 axis_new.number = Nt
-                axis_new.final = Nrep_t * t_final
+                axis_new.final = axis.initial + Nrep_t * t_per
                 axis_new.include_endpoint = False
             else:
-                t_final = time_full[-1] + time_full[1] - time_full[0]
                 for k in range(1, Nrep_t):
-                    time_full = np.append(time_full, result["time"] + k * t_final)
+                    time_full = np.append(time_full, result["time"] + k * t_per)
                 axis_new.values = time_full
         # Change angle periodicity
-        if Nrep_a > 1 and axis.name == "angle":
+        if (
+            Nrep_a > 1 or is_aper_a and not is_aper_a_new
+        ) and axis.name == "angle":
             axis_new.symmetries = {"period": per_a_new}
             angle_full = result["angle"]
+            # Length of one period
+            if len(angle_full) > 1:
+                a_per = angle_full[-1] + angle_full[1] - 2 * angle_full[0]
+            else:
+                a_per = axis.final - axis.initial
             if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                else:
-                    a_final = axis.final
                 axis_new.number = Na
-                axis_new.final = Nrep_a * a_final
+                axis_new.final = axis.initial + Nrep_a * a_per
                 axis_new.include_endpoint = False
             else:
-                a_final = angle_full[-1] + angle_full[1] - angle_full[0]
                 for k in range(1, Nrep_a):
-                    angle_full = np.append(angle_full, result["angle"] + k * a_final)
+                    angle_full = np.append(angle_full, result["angle"] + k * a_per)
                 axis_new.values = angle_full
 
         axes_list_new.append(axis_new)
@@ -126,12 +130,7 @@ def change_periodicity(
     for comp, data in self.components.items():
 
         # Duplicate values
-        if Nrep_t > 1 and Nrep_a > 1:
-            val_new = np.tile(result[comp], (Nrep_t, Nrep_a, 1))
-        elif Nrep_t > 1:
-            val_new = np.tile(result[comp], (Nrep_t, 1, 1))
-        elif Nrep_a > 1:
-            val_new = np.tile(result[comp], (1, Nrep_a, 1))
+        val_new = np.tile(result[comp], (Nrep_t, Nrep_a, 1))
 
         # Create new data object with updated periodicities
         data_new = type(data)(
-- 
2.43.0


From a31f6a22f9d0e3cd94969cf5bb094513308b9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:48 +0000
Subject: [PATCH 28/47] fix: leave fields unchanged when they are filtered,
 rotated or read in dB

Levels below 2 dB were zeroed in the stored values when reading them, the
spectral filter halved the stored spectrum, and a rejected frame change or
filtering left the field flagged as complex. Levels of a dual field could not
be read before another extraction.
---
 .../Methods/DataND/_apply_operations.py       |  5 ++-
 .../Methods/DataND/change_referential.py      | 11 +++---
 .../Methods/DataND/filter_spectral_leakage.py | 36 ++++++++++---------
 .../Methods/DataND/get_magnitude_along.py     |  4 +--
 SciDataTool/Methods/DataND/has_period.py      |  2 +-
 5 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 1f5783f..345a16e 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, nanmax, nanmin
+from numpy import abs as np_abs, nanmax, nanmin, where as np_where
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -153,7 +153,6 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
     if is_abs:
         values = np_abs(values)
     elif is_magnitude:  # Correction for negative/small dB/dBA
-        values[values < 2] = 0
-        values = np_abs(values)
+        values = np_abs(np_where(values < 2, 0, values))
 
     return values
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index c39dcd5..529f08c 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -114,7 +114,12 @@ def change_referential(
         is_real = True
 
     # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        if not is_waveform and hasattr(self, "is_real"):
+            # Reset data
+            self.is_real = is_real
     values = result[self.symbol]
 
     if is_waveform:
@@ -241,8 +246,4 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..30a2416 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -74,26 +74,30 @@ def filter_spectral_leakage(
 
     is_real = self.is_real
     self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
-    freqs = result["freqs"]
-    spectrum = result[self.symbol]
-
-    if Wmatf.size == 0:
-        # Get time step
-        Time = self.get_axes("time")
-        if len(Time) > 0:
-            time = Time[0].get_values()
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+        freqs = result["freqs"]
+        spectrum = result[self.symbol]
+
+        if Wmatf.size == 0:
+            # Get time step
+            Time = self.get_axes("time")
+            if len(Time) > 0:
+                time = Time[0].get_values()
+            else:
+                result_time = self.get_along("time")
+                time = result_time["time"]
+            dt = time[1] - time[0]
+            Nt = time.size
         else:
-            result_time = self.get_along("time")
-            time = result_time["time"]
-        dt = time[1] - time[0]
-        Nt = time.size
-    else:
-        Nt, dt = None, None
+            Nt, dt = None, None
+    finally:
+        self.is_real = is_real
 
     if is_real and np.where(freqs < 0)[0].size == 0:
         # Mirror values to negative frequencies
         If0 = freqs != 0
+        spectrum = spectrum.copy()
         spectrum[If0, ...] *= 0.5
         If0[-1] = bool(np.mod(freqs.size, 2) == 0)
         freqs = np.concatenate((-np.flip(freqs), freqs[If0]))
@@ -187,8 +191,6 @@ def filter_spectral_leakage(
         is_real=True,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 7959598..333b1e3 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -48,7 +48,7 @@ def get_magnitude_along(
         index_speed = None
         index_order = None
         args_freqs = ["freqs", "frequency", "time"]
-        for i, axis in enumerate(self.axes):  # Find frequency axis
+        for i, axis in enumerate(self.get_axes()):  # Find frequency axis
             if axis.name in args_freqs:
                 freq_name = axis.name
         if freq_name is not None:
@@ -82,7 +82,7 @@ def get_magnitude_along(
                 )  # Then sum on freqs axis
         else:  # Try speed/order
             is_match = 0
-            for i, axis in enumerate(self.axes):  # Find frequency axis
+            for i, axis in enumerate(self.get_axes()):  # Find frequency axis
                 if axis.name == "speed":
                     is_match += 1
                     arg_speed = "speed"
diff --git a/SciDataTool/Methods/DataND/has_period.py b/SciDataTool/Methods/DataND/has_period.py
index e4e5b19..a4474e0 100644
--- a/SciDataTool/Methods/DataND/has_period.py
+++ b/SciDataTool/Methods/DataND/has_period.py
@@ -10,7 +10,7 @@ def has_period(self):
     """
     answer = False
 
-    for axis in self.axes:
+    for axis in self.get_axes():
 
         if axis.symmetries != {}:
             answer = True
-- 
2.43.0


From 8007f46971518e1cfedff20c5dd24226f20166e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:48 +0000
Subject: [PATCH 29/47] fix: convert vector field components before applying
 the request

Components were converted after reductions and unit conversions had been
applied, which were then applied twice. The angle was assumed to be the second
axis, symmetries were kept in the other frame, single components were rejected
and a failing request left temporary components in the field.
---
 SciDataTool/Functions/conversions.py          |  15 +-
 SciDataTool/Functions/convert_components.py   | 138 ++++++++++++++++++
 .../VectorField/get_harm_rphiz_along.py       | 105 ++++++-------
 .../Methods/VectorField/get_harm_xyz_along.py |  86 +++--------
 .../VectorField/get_mag_rphiz_along.py        |  81 +++-------
 .../Methods/VectorField/get_mag_xyz_along.py  |  78 +++-------
 .../Methods/VectorField/get_rphiz_along.py    |  93 +++---------
 .../Methods/VectorField/get_xyz_along.py      | 103 +++----------
 SciDataTool/Methods/VectorField/to_rphiz.py   |  72 +++++----
 SciDataTool/Methods/VectorField/to_xyz.py     |  64 ++++----
 10 files changed, 364 insertions(+), 471 deletions(-)
 create mode 100644 SciDataTool/Functions/convert_components.py

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 49bc14a..9939a30 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -506,14 +506,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
@@ -609,12 +609,15 @@ def rphi_to_xy(r, phi):
     return (x, y)
 
 
-def cart2pol(field_x, field_y, phi):
+def cart2pol(field_x, field_y, phi, index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+    if len(dim_array) > 1:
+        dim_array[index] = -1
+    else:
+        dim_array[0] = -1
 
     # Reshape b with dim_array and perform elementwise multiplication with
     # broadcasting along the singleton dimensions for the final output
@@ -627,13 +630,13 @@ def cart2pol(field_x, field_y, phi):
     return (field_r, field_phi)
 
 
-def pol2cart(field_r, field_phi, phi):
+def pol2cart(field_r, field_phi, phi, index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_r.ndim), int).ravel()
     if len(dim_array) > 1:
-        dim_array[1] = -1
+        dim_array[index] = -1
 
         # Reshape b with dim_array and perform elementwise multiplication with
         # broadcasting along the singleton dimensions for the final output
diff --git a/SciDataTool/Functions/convert_components.py b/SciDataTool/Functions/convert_components.py
new file mode 100644
index 0000000..a02afcb
--- /dev/null
+++ b/SciDataTool/Functions/convert_components.py
@@ -0,0 +1,138 @@
+from numpy import zeros_like
+
+from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.conversions import convert
+from SciDataTool.Functions.Load.import_class import import_class
+
+
+def rebuild_angle(data, args):
+    """Returns a copy of the data stored along the "angle" axis without its symmetries, since the
+    components of a vector field do not have the same symmetries in each frame.
+    Parameters
+    ----------
+    data: Data
+        a Data object
+    args: list of strings
+        List of axes requested by the user, their units and values (optional)
+    Returns
+    -------
+    data_new: Data
+        a Data object
+    index: int
+        index of the "angle" axis (None if there is no such axis)
+    """
+
+    # Dynamic import to avoid loop
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+    DataPattern = import_class("SciDataTool.Classes", "DataPattern")
+
+    # Part of the angle axis which is requested
+    arg_angle = "angle"
+    for arg in args:
+        for period in ["[smallestperiod]", "[oneperiod]", "[antiperiod]"]:
+            if arg.startswith("angle") and period in arg:
+                arg_angle = "angle" + period
+
+    index = None
+    arg_list = []
+    for i, axis in enumerate(data.get_axes()):
+        if axis.name in ["angle", "wavenumber"]:
+            index = i
+            arg_list.append(arg_angle)
+        elif isinstance(axis, DataPattern):
+            arg_list.append(axis.name + "[smallestpattern]")
+        elif axis.name == "freqs" or axis.symmetries == {}:
+            arg_list.append(axis.name)
+        else:
+            arg_list.append(axis.name + "[smallestperiod]")
+
+    data_new = data.copy()
+    if index is not None:
+        axis = data.get_axes()[index]
+        if axis.name == "wavenumber" or (
+            axis.symmetries != {} and arg_angle in ["angle", "angle[oneperiod]"]
+        ):
+            result = data.get_along(*arg_list, is_squeeze=False)
+            data_new.axes[index] = Data1D(
+                name="angle",
+                unit="rad" if axis.name == "wavenumber" else axis.unit,
+                values=result["angle"],
+                normalizations=axis.normalizations.copy(),
+            ).to_linspace()
+            data_new.values = result[data.symbol]
+
+    return data_new, index
+
+
+def convert_components(components, names, conversion, args):
+    """Returns the components of a vector field in another frame, before any extraction.
+    Parameters
+    ----------
+    components: dict
+        Dict of the components of the vector field
+    names: list of strings
+        Names of both components to convert (missing component is zero)
+    conversion: function
+        Conversion function
+    args: list of strings
+        List of axes requested by the user, their units and values (optional)
+    Returns
+    -------
+    data_1, data_2, data_z: Data
+        Converted components and axial component (None if there is no such component)
+    """
+
+    data_list = []
+    for name in names:
+        if name in components:
+            data, index = rebuild_angle(components[name], args)
+            if index is None:
+                raise AxisError("Angle axis is required to convert vector field")
+        else:
+            data = None
+        data_list.append(data)
+    data_1, data_2 = data_list
+    if data_1 is None:
+        data_1 = data_2.copy()
+        data_1.values = zeros_like(data_2.values)
+    elif data_2 is None:
+        data_2 = data_1.copy()
+        data_2.values = zeros_like(data_1.values)
+
+    # Convert components
+    Angle = data_1.get_axes()[index]
+    phi = convert(Angle.get_values(is_smallestperiod=True), Angle.unit, "rad")
+    values_1, values_2 = conversion(data_1.values, data_2.values, phi, index)
+    data_1.values = values_1
+    data_2.values = values_2
+
+    # Get axial component along the same axes
+    data_z = None
+    for name in ["axial", "comp_z"]:
+        if name in components and data_z is None:
+            data_z, _ = rebuild_angle(components[name], args)
+
+    return data_1, data_2, data_z
+
+
+def update_wavenumber(data, result):
+    """Stores the wavenumbers of the converted component, which has no symmetry.
+    Parameters
+    ----------
+    data: Data
+        a Data object
+    result: dict
+        Dict of the extracted converted components
+    """
+
+    # Dynamic import to avoid loop
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+
+    for index, axis in enumerate(data.axes):
+        if axis.name == "wavenumber":
+            data.axes[index] = Data1D(
+                name=axis.name,
+                unit=axis.unit,
+                values=result[axis.name],
+                normalizations=axis.normalizations.copy(),
+            )
diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..310a78c 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.convert_components import convert_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,89 +27,71 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Convert components, then extract
+        Datar, Datat, Dataz = convert_components(
+            self.components, ["comp_x", "comp_y"], cart2pol, args
+        )
+        resultr = Datar.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        shape = field_r.shape
+        resultt = Datat.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
+        field_t = resultt[Datat.symbol]
+        # Add axial component
+        if Dataz is not None:
+            resultz = Dataz.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_z = resultz[Dataz.symbol]
         else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+            field_z = zeros(shape)
+        # Build return dict
+        return_dict = dict(resultr)
+        del return_dict[Datar.symbol]
+
+    elif "radial" in self.components.keys():
+        resultr = self.components["radial"].get_harmonics(
+            N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+        )
+        field_r = resultr[self.components["radial"].symbol]
+        shape = field_r.shape
+        if "tangential" in self.components.keys():
+            resultphi = self.components["tangential"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-        # Add axial component
+            field_t = resultphi[self.components["tangential"].symbol]
+        else:
+            field_t = zeros(shape)
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
             field_z = resultz[self.components["axial"].symbol]
         elif "comp_z" in self.components.keys():
             resultz = self.components["comp_z"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
             field_z = resultz[self.components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[self.components["radial"].symbol]
 
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
@@ -116,13 +99,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         )
         field_t = resultphi[self.components["tangential"].symbol]
         shape = field_t.shape
-        if "radial" in self.components.keys():
-            resultr = self.components["radial"].get_harmonics(
-                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
-            )
-            field_r = resultphi[self.components["radial"].symbol]
-        else:
-            field_r = zeros(shape)
+        field_r = zeros(shape)
         if "axial" in self.components.keys():
             resultz = self.components["axial"].get_harmonics(
                 N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
@@ -150,7 +127,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         del return_dict[self.components["axial"].symbol]
 
     elif "comp_z" in self.components.keys():
-        resultz = self.components["z"].get_harmonics(
+        resultz = self.components["comp_z"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_z = resultz[self.components["comp_z"].symbol]
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..b407bc0 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.convert_components import convert_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,90 +27,43 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Convert components, then extract
+        Datax, Datay, Dataz = convert_components(
+            self.components, ["radial", "tangential"], pol2cart, args
+        )
+        resultx = Datax.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datax.symbol]
+        shape = field_x.shape
+        resulty = Datay.get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Datay.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_harmonics(
+        if Dataz is not None:
+            resultz = Dataz.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..ab95afa 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.convert_components import convert_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,84 +27,40 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Convert components, then extract
+        Datar, Datat, Dataz = convert_components(
+            self.components, ["comp_x", "comp_y"], cart2pol, args
+        )
+        resultr = Datar.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        shape = field_r.shape
+        resultt = Datat.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[Datat.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_magnitude_along(
+        if Dataz is not None:
+            resultz = Dataz.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
+        # Build return dict
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_magnitude_along(
@@ -143,7 +100,7 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             resultr = self.components["radial"].get_magnitude_along(
                 args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..f425af5 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.convert_components import convert_components
 from SciDataTool.Functions import AxisError
 
 
@@ -26,85 +27,40 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
-        # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
+        # Convert components, then extract
+        Datax, Datay, Dataz = convert_components(
+            self.components, ["radial", "tangential"], pol2cart, args
+        )
+        resultx = Datax.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[Datax.symbol]
+        shape = field_x.shape
+        resulty = Datay.get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[Datay.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_magnitude_along(
+        if Dataz is not None:
+            resultz = Dataz.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..5e259ac 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.convert_components import convert_components
 from SciDataTool.Functions import AxisError
 
 
@@ -28,95 +29,43 @@ def get_rphiz_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle"
-            else:
-                new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Convert components, then extract
+        Datar, Datat, Dataz = convert_components(
+            self.components, ["comp_x", "comp_y"], cart2pol, args
+        )
+        resultr = Datar.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[Datar.symbol]
+        shape = field_r.shape
+        resultt = Datat.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        if string != [] and "smallestperiod" in string[0]:
-            phi = Datax.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        else:
-            phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_c) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datax.values = field_r
-            Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_c = resultt[Datat.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_along(
+        if Dataz is not None:
+            resultz = Dataz.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
+        # Build return dict
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[Datar.symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_along(
@@ -172,7 +121,7 @@ def get_rphiz_along(
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..13e5c58 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -1,6 +1,7 @@
 from numpy import zeros
 
 from SciDataTool.Functions.conversions import pol2cart
+from SciDataTool.Functions.convert_components import convert_components
 from SciDataTool.Functions import AxisError
 
 
@@ -27,102 +28,42 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         args = args[0]  # if called from another script with *args
 
     if "radial" in self.components.keys() or "tangential" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle[smallestperiod]"
-            else:
-                new_args.extend(["angle[smallestperiod]"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        # Convert components, then extract
+        Datax, Datay, Dataz = convert_components(
+            self.components, ["radial", "tangential"], pol2cart, args
+        )
+        resultx = Datax.get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_r = Datar.values
-        shape = field_r.shape
-        if "tangential" in self.components.keys():
-            Dataphi = self.components["tangential"].get_data_along(
-                *new_args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_c = Dataphi.values
-        else:
-            field_c = zeros(shape, dtype=field_r.dtype)
-            Dataphi = type(Datar)(
-                name=Datar.name,
-                unit=Datar.unit,
-                symbol=Datar.symbol,
-                axes=Datar.axes,
-                values=field_c,
-            )
-        phi = Datar.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_x = resultx[Datax.symbol]
+        shape = field_x.shape
+        resulty = Datay.get_along(
+            args,
+            unit=unit,
+            is_norm=is_norm,
+            axis_data=axis_data,
+            is_squeeze=is_squeeze,
+        )
+        field_y = resulty[Datay.symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_along(
+        if Dataz is not None:
+            resultz = Dataz.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[Dataz.symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[Datax.symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..c9d4665 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -1,3 +1,6 @@
+from SciDataTool.Functions.convert_components import update_wavenumber
+
+
 def to_rphiz(self):
     """Performs the corrdinate change and stores the resulting field in a VectorField object.
     Parameters
@@ -13,43 +16,50 @@ def to_rphiz(self):
     module = __import__("SciDataTool.Classes.VectorField", fromlist=["VectorField"])
     VectorField = getattr(module, "VectorField")
 
-    if (
-        "radial" in self.components
-        or "tangential" in self.components
-        or "axial" in self.components
-    ):
+    if "radial" in self.components or "tangential" in self.components:
         return self.copy()
 
     else:
-        # Coordinate transform
-        arg_list = [
-            axis.name
-            if axis.name in ["freqs", "wavenumber"]
-            else axis.name + "[smallestperiod]"
-            for axis in self.components["comp_x"].axes
-        ]
-        result = self.get_rphiz_along(*arg_list)
-        # Store in new VectorField
         comp_dict = dict()
 
-        Comp_r = self.components["comp_x"].copy()
-        Comp_r.name = "Radial " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
-        )
-        Comp_r.symbol = self.components["comp_x"].symbol.replace("_x", "_r")
-        Comp_r.values = result["radial"]
-        comp_dict["radial"] = Comp_r
-
-        Comp_t = self.components["comp_x"].copy()
-        Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
-            " along x-axis", ""
-        )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
-        Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        if "comp_x" in self.components:
+            Comp, suffix = self.components["comp_x"], "_x"
+        else:
+            Comp, suffix = self.components.get("comp_y"), "_y"
+
+        if Comp is not None:
+            # Coordinate transform
+            arg_list = [
+                axis.name
+                if axis.name in ["freqs", "wavenumber"]
+                else axis.name + "[smallestperiod]"
+                for axis in Comp.axes
+            ]
+            result = self.get_rphiz_along(*arg_list, is_squeeze=False)
+            # Store in new VectorField
+            name = (
+                Comp.name.lower()
+                .replace(" along x-axis", "")
+                .replace(" along y-axis", "")
+            )
+
+            Comp_r = Comp.copy()
+            Comp_r.name = "Radial " + name
+            Comp_r.symbol = Comp.symbol.replace(suffix, "_r")
+            update_wavenumber(Comp_r, result)
+            Comp_r.values = result["radial"]
+            comp_dict["radial"] = Comp_r
+
+            Comp_t = Comp.copy()
+            Comp_t.name = "Tangential " + name
+            Comp_t.symbol = Comp.symbol.replace(suffix, "_t")
+            update_wavenumber(Comp_t, result)
+            Comp_t.values = result["tangential"]
+            comp_dict["tangential"] = Comp_t
 
         if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+            comp_dict["axial"] = self.components["axial"].copy()
+        elif "comp_z" in self.components:
+            comp_dict["axial"] = self.components["comp_z"].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..91ae400 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -1,3 +1,6 @@
+from SciDataTool.Functions.convert_components import update_wavenumber
+
+
 def to_xyz(self):
     """Performs the corrdinate change and stores the resulting field in a VectorField object.
     Parameters
@@ -17,37 +20,42 @@ def to_xyz(self):
         return self.copy()
 
     else:
-        # Coordinate transform
-        arg_list = [
-            axis.name
-            if axis.name in ["freqs", "wavenumber"]
-            else axis.name + "[smallestperiod]"
-            for axis in self.components["radial"].axes
-        ]
-        result = self.get_xyz_along(*arg_list, is_squeeze=False)
-        # Store in new VectorField
         comp_dict = dict()
 
-        Comp_x = self.components["radial"].copy()
-        Comp_x.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along x-axis"
-        )
-        Comp_x.symbol = self.components["radial"].symbol.replace("_r", "_x")
-        Comp_x.values = result["comp_x"]
-        comp_dict["comp_x"] = Comp_x
-
-        Comp_y = self.components["radial"].copy()
-        Comp_y.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
-            + " along y-axis"
-        )
-        Comp_y.symbol = self.components["radial"].symbol.replace("_r", "_y")
-        Comp_y.values = result["comp_y"]
-        comp_dict["comp_y"] = Comp_y
+        if "radial" in self.components:
+            Comp, suffix = self.components["radial"], "_r"
+        else:
+            Comp, suffix = self.components.get("tangential"), "_t"
+
+        if Comp is not None:
+            # Coordinate transform
+            arg_list = [
+                axis.name
+                if axis.name in ["freqs", "wavenumber"]
+                else axis.name + "[smallestperiod]"
+                for axis in Comp.axes
+            ]
+            result = self.get_xyz_along(*arg_list, is_squeeze=False)
+            # Store in new VectorField
+            name = Comp.name.lower().replace("radial ", "").replace("tangential ", "")
+
+            Comp_x = Comp.copy()
+            Comp_x.name = name + " along x-axis"
+            Comp_x.symbol = Comp.symbol.replace(suffix, "_x")
+            update_wavenumber(Comp_x, result)
+            Comp_x.values = result["comp_x"]
+            comp_dict["comp_x"] = Comp_x
+
+            Comp_y = Comp.copy()
+            Comp_y.name = name + " along y-axis"
+            Comp_y.symbol = Comp.symbol.replace(suffix, "_y")
+            update_wavenumber(Comp_y, result)
+            Comp_y.values = result["comp_y"]
+            comp_dict["comp_y"] = Comp_y
 
         if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+            comp_dict["comp_z"] = self.components["axial"].copy()
+        elif "comp_z" in self.components:
+            comp_dict["comp_z"] = self.components["comp_z"].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From 7d32225c9c6284d2b05ff2e4f30152c0da20ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:43 +0000
Subject: [PATCH 30/47] fix: compare objects with different keys or functions,
 copy nested settings

---
 SciDataTool/Classes/Data.py        | 2 ++
 SciDataTool/Classes/Data1D.py      | 4 ++--
 SciDataTool/Classes/DataDual.py    | 2 +-
 SciDataTool/Classes/DataFreq.py    | 2 +-
 SciDataTool/Classes/DataND.py      | 6 ++----
 SciDataTool/Classes/DataTime.py    | 2 +-
 SciDataTool/Classes/Norm_func.py   | 4 ++++
 SciDataTool/Classes/VectorField.py | 2 ++
 8 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..d81d49f 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -167,6 +167,8 @@ class Data(FrozenClass):
             pass
         elif len(other.normalizations) != len(self.normalizations):
             diff_list.append("len(" + name + "normalizations)")
+        elif other.normalizations.keys() != self.normalizations.keys():
+            diff_list.append(name + ".normalizations keys mismatch")
         else:
             for key in self.normalizations:
                 diff_list.extend(
diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index a4f05bc..1e0098a 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -449,7 +449,7 @@ class Data1D(Data):
         Data1D_dict["sort_indices"] = (
             self.sort_indices.copy() if self.sort_indices is not None else None
         )
-        Data1D_dict["filter"] = self.filter.copy() if self.filter is not None else None
+        Data1D_dict["filter"] = deepcopy(self.filter)
         Data1D_dict["char_to_rm"] = (
             self.char_to_rm.copy() if self.char_to_rm is not None else None
         )
@@ -480,7 +480,7 @@ class Data1D(Data):
         if self.filter is None:
             filter_val = None
         else:
-            filter_val = self.filter.copy()
+            filter_val = deepcopy(self.filter)
         if self.char_to_rm is None:
             char_to_rm_val = None
         else:
diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 7da5841..0d166f0 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -363,7 +363,7 @@ class DataDual(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataFreq.py b/SciDataTool/Classes/DataFreq.py
index 15ffe1b..d8094d4 100644
--- a/SciDataTool/Classes/DataFreq.py
+++ b/SciDataTool/Classes/DataFreq.py
@@ -231,7 +231,7 @@ class DataFreq(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 8ea31f5..a6f4876 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -677,9 +677,7 @@ class DataND(Data):
                     )
                 else:
                     DataND_dict["axes"].append(None)
-        DataND_dict["FTparameters"] = (
-            self.FTparameters.copy() if self.FTparameters is not None else None
-        )
+        DataND_dict["FTparameters"] = deepcopy(self.FTparameters)
         if self.values is None:
             DataND_dict["values"] = None
         else:
@@ -712,7 +710,7 @@ class DataND(Data):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataTime.py b/SciDataTool/Classes/DataTime.py
index e9a6b15..47e8607 100644
--- a/SciDataTool/Classes/DataTime.py
+++ b/SciDataTool/Classes/DataTime.py
@@ -203,7 +203,7 @@ class DataTime(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 5c0a3d5..2addf27 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -99,6 +99,8 @@ class Norm_func(Normalization):
             return False
         if other._function_str != self._function_str:
             return False
+        if self._function_str is None and other._function_func != self._function_func:
+            return False
         return True
 
     def compare(self, other, name="self", ignore_list=None, is_add_value=False):
@@ -118,6 +120,8 @@ class Norm_func(Normalization):
         )
         if other._function_str != self._function_str:
             diff_list.append(name + ".function")
+        elif self._function_str is None and other._function_func != self._function_func:
+            diff_list.append(name + ".function")
         # Filter ignore differences
         diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
         return diff_list
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..1b97eaa 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -418,6 +418,8 @@ class VectorField(FrozenClass):
             pass
         elif len(other.components) != len(self.components):
             diff_list.append("len(" + name + "components)")
+        elif other.components.keys() != self.components.keys():
+            diff_list.append(name + ".components keys mismatch")
         else:
             for key in self.components:
                 diff_list.extend(
-- 
2.43.0


From a056df050254f32e4308bf687328fd30e4899ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:59 +0000
Subject: [PATCH 31/47] fix: save and load objects holding complex values, keep
 dictionaries used to build objects

---
 SciDataTool/Classes/DataDual.py               |  4 ++++
 SciDataTool/Classes/DataND.py                 |  2 ++
 SciDataTool/Classes/Norm_func.py              |  3 ++-
 SciDataTool/Classes/VectorField.py            |  2 ++
 SciDataTool/Functions/Load/load_json.py       |  9 ++++++-
 SciDataTool/Functions/load.py                 |  2 +-
 SciDataTool/Functions/save.py                 | 24 ++++++++++++++++---
 .../Methods/Data/_set_normalizations.py       |  2 ++
 8 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 0d166f0..82cf5c5 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -416,6 +416,8 @@ class DataDual(DataND):
     def _set_axes_dt(self, value):
         """setter of axes_dt"""
         if type(value) is list:
+            if any(isinstance(obj, (str, dict)) for obj in value):
+                value = value.copy()
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
@@ -483,6 +485,8 @@ class DataDual(DataND):
     def _set_axes_df(self, value):
         """setter of axes_df"""
         if type(value) is list:
+            if any(isinstance(obj, (str, dict)) for obj in value):
+                value = value.copy()
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index a6f4876..e17ed04 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -759,6 +759,8 @@ class DataND(Data):
     def _set_axes(self, value):
         """setter of axes"""
         if type(value) is list:
+            if any(isinstance(obj, (str, dict)) for obj in value):
+                value = value.copy()
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 2addf27..4802c5e 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -4,6 +4,7 @@
 """Method code available at https://github.com/Eomys/SciDataTool/tree/master/SciDataTool/Methods//Norm_func
 """
 
+from logging import getLogger
 from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
@@ -160,7 +161,7 @@ class Norm_func(Normalization):
         else:
             Norm_func_dict["function"] = None
             if self.function is not None:
-                self.get_logger().warning(
+                getLogger("SciDataTool").warning(
                     "Norm_func.as_dict(): "
                     + "Function self.function is not serializable "
                     + "and will be converted to None."
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index 1b97eaa..d2f8df0 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -548,6 +548,8 @@ class VectorField(FrozenClass):
     def _set_components(self, value):
         """setter of components"""
         if type(value) is dict:
+            if any(isinstance(obj, (str, dict)) for obj in value.values()):
+                value = value.copy()
             for key, obj in value.items():
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Functions/Load/load_json.py b/SciDataTool/Functions/Load/load_json.py
index 04383d5..22bc755 100644
--- a/SciDataTool/Functions/Load/load_json.py
+++ b/SciDataTool/Functions/Load/load_json.py
@@ -3,6 +3,13 @@ from os.path import isfile, isdir
 from re import match
 
 
+def decode_number(obj):
+    """Decode the complex numbers (encoded in save)"""
+    if set(obj) == {"__complex__"}:
+        return complex(*obj["__complex__"])
+    return obj
+
+
 def load_json(file_path):
     """Load a json file
 
@@ -35,7 +42,7 @@ def load_json(file_path):
 
     # Get the data dictionary
     with open(file_path, "r") as load_file:
-        json_data = jload(load_file)
+        json_data = jload(load_file, object_hook=decode_number)
 
     return file_path, json_data
 
diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..523a12b 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -44,7 +44,7 @@ def init_data(obj, file_path):
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
             # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            class_obj = import_class("SciDataTool.Classes", obj.get("__class__"), "")
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
diff --git a/SciDataTool/Functions/save.py b/SciDataTool/Functions/save.py
index 46036b0..0faece3 100644
--- a/SciDataTool/Functions/save.py
+++ b/SciDataTool/Functions/save.py
@@ -1,5 +1,6 @@
-from json import dump
+from json import dumps
 from os.path import join, basename, isdir
+from numpy import generic
 
 
 def fix_file_name(save_path, obj):
@@ -24,6 +25,17 @@ def has_as_dict(obj):
     return hasattr(obj, "as_dict") and callable(getattr(obj, "as_dict", None))
 
 
+def encode_number(obj):
+    """Encode the numbers which are not part of the json format (decoded in load_json)"""
+    if isinstance(obj, generic):
+        obj = obj.item()
+    if isinstance(obj, complex):
+        return {"__complex__": [obj.real, obj.imag]}
+    if is_json_serializable(obj):
+        return obj
+    raise TypeError("Object of type " + type(obj).__name__ + " can not be saved")
+
+
 def build_data(obj):
     """
     Build a json serializable data structure of lists, dicts and pyleecan objects.
@@ -75,9 +87,15 @@ def save_data(obj, save_path=""):
     # correct file name if needed
     file_path = fix_file_name(save_path, obj)
     # save
-    obj = build_data(obj)
+    data = dumps(
+        build_data(obj),
+        sort_keys=True,
+        indent=4,
+        separators=(",", ": "),
+        default=encode_number,
+    )
     with open(file_path, "w") as json_file:
-        dump(obj, json_file, sort_keys=True, indent=4, separators=(",", ": "))
+        json_file.write(data)
 
 
 def save(self, save_path=""):
diff --git a/SciDataTool/Methods/Data/_set_normalizations.py b/SciDataTool/Methods/Data/_set_normalizations.py
index cfb722f..5ffe358 100644
--- a/SciDataTool/Methods/Data/_set_normalizations.py
+++ b/SciDataTool/Methods/Data/_set_normalizations.py
@@ -6,6 +6,8 @@ from numpy import ndarray, int32, int64, float32, float64
 def _set_normalizations(self, value):
     """setter of normalizations"""
     if type(value) is dict:
+        if any(isinstance(obj, dict) for obj in value.values()):
+            value = value.copy()
         for key, obj in value.items():
             if type(obj) is dict:
                 class_obj = import_class(
-- 
2.43.0


From 2c4bd9d25c88bf8e0cba25e9d48bde75751c4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:50 +0000
Subject: [PATCH 32/47] fix: units and symmetries of extracted fields

The label of an extracted field and of its axes follows the requested
unit. Magnitudes of anti-periodic fields are stored as periodic, extrema
without periodicity, and spectra with the period they were computed on.
Derivation and integration no longer find the unit of the axis inside of
another symbol, as in dimless, Ohm or rpm. Levels summed over the
frequencies keep the unit and period requested along the other axes.
---
 SciDataTool/Functions/conversions.py          | 125 ++++++------------
 SciDataTool/Methods/DataND/get_data_along.py  |  27 +++-
 .../Methods/DataND/get_magnitude_along.py     |  27 +++-
 3 files changed, 90 insertions(+), 89 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 9939a30..6ae48f1 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -1,3 +1,5 @@
+from re import escape, finditer
+
 from SciDataTool.Functions import UnitError
 from SciDataTool.Functions.fft_functions import (
     comp_fft_freqs,
@@ -109,100 +111,51 @@ def get_dim_prefix(unit_str):
     return (dim, prefix)
 
 
-def get_unit_derivate(unit_str, axis_unit):
+def multiply_unit(unit_str, axis_unit, p_axis):
+    """Multiplies a unit by the unit of an axis
+    Parameters
+    ----------
+    unit_str: str
+        unit of the field
+    axis_unit: str
+        unit of the axis
+    p_axis: int
+        power of the unit of the axis (1 or -1)
+    Returns
+    -------
+    string of the resulting unit
+    """
     unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
     if axis_unit == "Hz":
         axis_unit = "s"
     if axis_unit == "rad":
         axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str += axis_unit
-        else:
-            unit_str += "/" + axis_unit
-    return unit_str
+    if unit_str == "dimless":
+        unit_str = ""
+    parts = (unit_str.split("/") + [""])[:2]  # numerator and denominator
+    # Longest symbols first, not to find axis_unit inside of another symbol
+    symbols = sorted({key[0] for key in unit_symbols} | {axis_unit}, key=len)[::-1]
+    pattern = "(" + "|".join(escape(symbol) for symbol in symbols) + r")(\d*)"
+    for i, p in enumerate([p_axis, -p_axis]):
+        for match in finditer(pattern, parts[i]):
+            if match.group(1) == axis_unit:
+                p += int(match.group(2) or 1)
+                symbol = "" if p == 0 else axis_unit if p == 1 else axis_unit + str(p)
+                parts[i] = (
+                    parts[i][: match.start()] + symbol + parts[i][match.end() :]
+                )
+                return "/".join(parts) if parts[1] != "" else parts[0]
+    # Case axis_unit was not in unit_str
+    parts[0 if p_axis == 1 else 1] += axis_unit
+    return "/".join(parts) if parts[1] != "" else parts[0]
+
+
+def get_unit_derivate(unit_str, axis_unit):
+    return multiply_unit(unit_str, axis_unit, -1)
 
 
 def get_unit_integrate(unit_str, axis_unit):
-    unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
-    if axis_unit == "Hz":
-        axis_unit = "s"
-    if axis_unit == "rad":
-        axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_denom = unit_denom.replace(axis_unit, "")
-            if unit_denom == "":
-                unit_str = unit_num
-            else:
-                unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str = unit_num + axis_unit + "/" + unit_denom
-        else:
-            unit_str += axis_unit
-    return unit_str
+    return multiply_unit(unit_str, axis_unit, 1)
 
 
 def convert(values, unit1, unit2):
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index d7a1adb..76e1c30 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -52,6 +52,11 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     module = __import__("SciDataTool.Classes." + Data_type, fromlist=[Data_type])
     DataClass = getattr(module, Data_type)
 
+    # Operations which do not preserve anti-periodicity
+    extensions = [axis.extension for axis in axes_list]
+    is_extremum = "max" in extensions or "min" in extensions
+    is_magnitude = "dB" in unit or "rms" in extensions or "rss" in extensions
+
     for axis_name in axes_name_new:
         if not isinstance(results[axis_name], str):
             for i, axis in enumerate(self.axes):
@@ -75,6 +80,14 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         is_components = axis.is_components
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
+            # Update unit
+            for axis in axes_list:
+                if (
+                    axis.name == axis_name
+                    and axis.unit != "SI"
+                    and axis.unit not in self.axes[index].normalizations
+                ):
+                    ax_unit = axis.unit
             # Update symmetries
             arg = [a for a in args if split(r"->|[\[=<>{]", a)[0] == axis_name][0]
             if (
@@ -88,6 +101,17 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 or "derivate" in arg
             ):
                 symmetries = self.axes[index].symmetries.copy()
+                if "antiperiod" in symmetries:
+                    antiperiod = symmetries["antiperiod"]
+                    if arg in ["freqs", "wavenumber"]:
+                        # Spectrum is computed on one period
+                        symmetries = {"period": int(antiperiod / 2)}
+                    elif is_extremum:
+                        # No periodicity left
+                        symmetries = dict()
+                    elif is_magnitude:
+                        # Opposite values have the same magnitude
+                        symmetries = {"period": antiperiod}
             else:
                 symmetries = dict()
             Axis = Data1D(
@@ -108,8 +132,9 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if "dB" in unit:
         unit = unit
     else:
+        if unit == "SI" or unit in self.normalizations:
+            unit = self.unit
         # Update unit if derivation or integration
-        unit = self.unit
         for axis in axes_list:
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
                 unit = get_unit_integrate(unit, axis.corr_unit)
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 333b1e3..6609b30 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -7,6 +7,26 @@ from SciDataTool.Functions.fix_axes_order import fix_axes_order
 from numpy import apply_along_axis, array, squeeze, take
 
 
+def get_extracted_arg(arg, axis):
+    """Returns the request to read an axis which was already extracted with arg.
+    Parameters
+    ----------
+    arg: str
+        Request used for the extraction
+    axis: Data
+        Extracted axis
+    Returns
+    -------
+    Request of the values of the extracted axis, in the same unit and period
+    """
+    extracted_arg = axis.name
+    if "[smallestperiod]" in arg:
+        extracted_arg += "[smallestperiod]"
+    if "{" in arg:
+        extracted_arg += "{" + axis.unit + "}"
+    return extracted_arg
+
+
 def get_magnitude_along(
     self,
     *args,
@@ -69,9 +89,12 @@ def get_magnitude_along(
                 data = self.get_data_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
+                names = [split(r"->|[\[=<>{]", arg)[0] for arg in args]
                 return data.get_magnitude_along(
                     *[
-                        args[index_freq] if axis.name in args_freqs else axis.name
+                        args[index_freq]
+                        if axis.name in args_freqs
+                        else get_extracted_arg(args[names.index(axis.name)], axis)
                         for axis in data.axes
                     ],
                     axis_data=axis_data,
@@ -126,7 +149,7 @@ def get_magnitude_along(
                     *[
                         args[names.index(axis.name)]
                         if names.index(axis.name) in [index_speed, index_order]
-                        else axis.name
+                        else get_extracted_arg(args[names.index(axis.name)], axis)
                         for axis in data.axes
                     ],
                     axis_data=axis_data,
-- 
2.43.0


From a539d91c76f1ee321ddeb67eda5d25836b46b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:19 +0000
Subject: [PATCH 33/47] fix: coordinates, units and orientation of exported
 data

Exported files give the axes in the unit of their values, keep the slices
of overlaid curves, the names of the components and the levels below 0 dB.
Requests with two complete axes are written as a table, square fields are
no longer transposed, and several files keep the same unit. Curves overlaid
in a plot are taken along the requested axis and labelled accordingly.
---
 SciDataTool/Functions/Plot/__init__.py     | 19 ++++++
 SciDataTool/Methods/DataND/export_along.py | 77 ++++++++++++----------
 SciDataTool/Methods/DataND/plot_2D_Data.py | 63 +++++++++---------
 SciDataTool/Methods/DataND/plot_3D_Data.py | 10 +--
 4 files changed, 97 insertions(+), 72 deletions(-)

diff --git a/SciDataTool/Functions/Plot/__init__.py b/SciDataTool/Functions/Plot/__init__.py
index 1af55db..a8207f5 100644
--- a/SciDataTool/Functions/Plot/__init__.py
+++ b/SciDataTool/Functions/Plot/__init__.py
@@ -19,6 +19,25 @@ unit_dict = {
     "designs": "",
 }
 
+
+def get_axis_unit(axis):
+    """Returns the unit to display for a requested axis.
+    Parameters
+    ----------
+    axis: RequestedAxis
+        a RequestedAxis object
+    Returns
+    -------
+    string of the unit in which the values of the axis are given
+    """
+    if axis.unit != "SI":
+        return axis.unit
+    elif axis.corr_unit not in [None, "SI", "dimless"]:
+        return axis.corr_unit
+    else:
+        return unit_dict.get(axis.name, axis.unit)
+
+
 axis_norm_dict = {
     "time": ["angle_rotor", "speed"],
     "angle": ["tooth_id", "distance"],
diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..f41b3cb 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -1,4 +1,4 @@
-from SciDataTool.Functions.Plot import unit_dict
+from SciDataTool.Functions.Plot import get_axis_unit
 
 import csv
 import numpy as np
@@ -57,11 +57,19 @@ def export_along(
             *args, **plot_options, unit=unit, is_export=True
         )
         axes_list_new = []
-        if "for " in title:
-            slices = title.split("for ")[1]
+        # Remove name of the field from title
+        slices = title.split(self.name[1:], 1)[-1]
+        if "for " in slices:
+            slices = slices.split("for ", 1)[1]
         else:
             slices = ""
-    else:
+        # Only curves can be exported in columns
+        is_2D = all(
+            np.ndim(x) == 1 and np.shape(x) == np.shape(y)
+            for x, y in zip(Xdata, Ydatas)
+        )
+
+    if not is_2D:
         if "is_norm" in plot_options:
             is_norm = plot_options["is_norm"]
         else:
@@ -86,20 +94,18 @@ def export_along(
 
         # Remove slice axes
         axes_list_new = []
-        slices = ""
+        slices = []
         for axis in axes_list:
-            if axis.unit == "SI":
-                axis.unit = unit_dict[axis.name]
-            if len(results[axis.name]) == 1:
-                slices += axis.name + "=" + str(results[axis.name][0])
-            elif isinstance(results[axis.name], str):
-                slices += axis.name + "=" + results[axis.name]
+            axis.unit = get_axis_unit(axis)
+            if isinstance(results[axis.name], str):
+                slices.append(axis.name + "=" + results[axis.name])
+            elif len(results[axis.name]) == 1:
+                slices.append(axis.name + "=" + str(results[axis.name][0]))
             else:
                 axes_list_new.append(axis)
         for axis in results["axes_dict_other"]:
-            if slices != "":
-                slices = slices + ", "
-            slices += axis + "=" + str(results["axes_dict_other"][axis][0])
+            slices.append(axis + "=" + str(results["axes_dict_other"][axis][0]))
+        slices = ", ".join(slices)
         if slices != "":
             slices = "sliced at " + slices
 
@@ -121,6 +127,15 @@ def export_along(
         else:
             raise Exception("cannot export more than 3 dimensions in csv file")
 
+        # Unit of the field
+        if unit == "SI":
+            unit = self.unit
+        if "dB" in unit:
+            ref_value = 1.0
+            if "ref" in self.normalizations:
+                ref_value = self.normalizations["ref"].ref
+            unit += " re. " + str(ref_value) + " " + self.unit
+
         for i in range(nfiles):
             if nfiles > 1:
                 file_name_i = (
@@ -129,10 +144,8 @@ def export_along(
                     + axes_list_new[2].name
                     + str(axes_list_new[2].values[i])
                 )
-                if slices == "":
-                    slices = "sliced at "
                 slices_i = (
-                    slices
+                    (slices + ", " if slices != "" else "sliced at ")
                     + axes_list_new[2].name
                     + "="
                     + str(axes_list_new[2].values[i])
@@ -145,13 +158,6 @@ def export_along(
             ) as my_csv:
                 csvWriter = csv.writer(my_csv, delimiter=",")
                 # First line: meta-data
-                if unit == "SI":
-                    unit = self.unit
-                if "dB" in unit:
-                    unit += (
-                        " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
-                    )
-
                 meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
                 csvWriter.writerow(meta_data)
 
@@ -173,12 +179,7 @@ def export_along(
                     csvWriter.writerow(second_line)
 
                     # Rest of file: first axis + matrix
-                    if len(Ydatas) == 1:
-                        field = np.array(Ydatas[0])
-                    else:
-                        field = np.array(Ydatas)
-                    if field.shape[0] != len(Xdata[0]):
-                        field = field.T
+                    field = np.array(Ydatas).T
                     matrix = format_matrix(
                         np.column_stack((np.array(Xdata[0]).T, field)).astype("str"),
                         CHAR_LIST,
@@ -187,7 +188,10 @@ def export_along(
 
                 else:
                     # Second line: axes + second axis values
-                    if len(axes_list_new) == 1:
+                    if len(axes_list_new) == 0:
+                        # Single value
+                        second_line = []
+                    elif len(axes_list_new) == 1:
                         A2_cell = (
                             axes_list_new[0].name + "[" + axes_list_new[0].unit + "]"
                         )
@@ -223,12 +227,13 @@ def export_along(
                         field = np.take(results[self.symbol], i, axis=2)
                     else:
                         field = results[self.symbol]
-                    matrix = format_matrix(
-                        np.column_stack(
+                    if len(axes_list_new) == 0:
+                        matrix = np.reshape(field, (1, 1))
+                    else:
+                        matrix = np.column_stack(
                             (results[axes_list_new[0].name].T, field)
-                        ).astype("str"),
-                        CHAR_LIST,
-                    )
+                        )
+                    matrix = format_matrix(matrix.astype("str"), CHAR_LIST)
                     csvWriter.writerows(matrix)
 
     else:
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..f495c6b 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -1,6 +1,6 @@
 from SciDataTool.Functions.Plot.plot_2D import plot_2D
 from SciDataTool.Functions.Plot import (
-    unit_dict,
+    get_axis_unit,
     norm_dict,
     axes_dict,
     fft_dict,
@@ -268,15 +268,12 @@ def plot_2D_Data(
             or (len(axis.values) == 1 and len(axes_list) == 1)
         ):
             if axis.unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
-                else:
-                    axis_unit = axis.unit
-                if xlabel is None:
+                axis_unit = get_axis_unit(axis)
+                if xlabel is None and axis.name == axes_names[0]:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
                 main_axis_name = name
             elif axis.unit in norm_dict:
-                if xlabel is None:
+                if xlabel is None and axis.name == axes_names[0]:
                     xlabel = norm_dict[axis.unit]
                 if axis.unit == "Hz":
                     main_axis_name = "frequency"
@@ -284,7 +281,7 @@ def plot_2D_Data(
                     main_axis_name = axis.unit
             else:
                 axis_unit = axis.unit
-                if xlabel is None:
+                if xlabel is None and axis.name == axes_names[0]:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
                 main_axis_name = name
             if (
@@ -306,17 +303,14 @@ def plot_2D_Data(
                 xticks = None
         else:
             if axis.corr_unit == "SI":
-                if axis.name in unit_dict:
-                    axis_unit = unit_dict[axis.name]
-                else:
-                    axis_unit = axis.unit
+                axis_unit = get_axis_unit(axis)
             elif axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
                 axis_unit = norm_dict[axis.corr_unit]
             else:
                 axis_unit = axis.unit
 
             if isinstance(result_0[axis.name], str):
-                title2 += name + "=" + result_0[axis.name]
+                title2 += name + "=" + result_0[axis.name] + ", "
             else:
                 if isinstance(result_0[axis.name][0], str):
                     axis_str = result_0[axis.name][0]
@@ -333,7 +327,7 @@ def plot_2D_Data(
                     axis_str = axis_str.strip("[]")
 
                 index = None
-                if axis.is_pattern and len(axis.values) == 1:
+                if axis.is_pattern and axis.indices is not None and len(axis.values) == 1:
                     for axis_obj in self.get_axes():
                         if axis_obj.name == axis.name:
                             index = axis.indices[0]
@@ -394,16 +388,18 @@ def plot_2D_Data(
     for i, d in enumerate(data_list2):
         is_overlay = False
         for axis in axes_list:
-            if axis.extension == "list" and len(axis.values) > 1:
+            if (
+                axis.extension == "list"
+                and len(axis.values) > 1
+                and axis.name != axes_names[0]
+            ):
                 is_overlay = True
+                overlay_name = axis.name
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
                 if axis.unit == "SI":
-                    if axis.name in unit_dict:
-                        axis_unit = unit_dict[axis.name]
-                    else:
-                        axis_unit = axis.unit
+                    axis_unit = get_axis_unit(axis)
                 elif axis.unit in norm_dict:
                     axis_unit = norm_dict[axis.unit]
                 else:
@@ -444,13 +440,16 @@ def plot_2D_Data(
 
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
+        # Axes of the squeezed field
+        names = [
+            axis.name
+            for axis in axes_list
+            if not isinstance(result_0[axis.name], str) and len(axis.values) > 1
+        ]
         Ydata = []
         for d in Ydatas:
             if d.ndim != 1:
-                axis_index = where(array(d.shape) == n_curves)[0]
-                if axis_index.size > 1:
-                    print("WARNING, several axes with same dimensions")
-                Ydata += split(d, n_curves, axis=axis_index[-1])
+                Ydata += split(d, n_curves, axis=names.index(overlay_name))
             else:
                 Ydata += [d]
         Ydatas = [squeeze(d) for d in Ydata]
@@ -471,10 +470,7 @@ def plot_2D_Data(
                 )
 
         # Concatenate all title parts
-        if is_overlay:
-            title = title1 + title3
-        else:
-            title = title1 + title2 + title3
+        title = title1 + title2 + title3
 
         # Remove last coma due to title2 or title3
         title = title.rstrip(", ")
@@ -482,6 +478,8 @@ def plot_2D_Data(
         # Remove dimless and quotes
         title = title.replace("SI", "").replace("[]", "").replace("'", "")
 
+    if xlabel is None:
+        xlabel = ""
     xlabel = xlabel.replace("SI", "").replace(" []", "")  # Remove dimless units
     ylabel = ylabel.replace("SI", "").replace(" []", "")  # Remove dimless units
 
@@ -648,6 +646,13 @@ def plot_2D_Data(
         ylabel = name + " contribution [%]"
         title = "Contribution of magnetic Load Cases" + sel_str
 
+    if is_export:
+        axis = axes_list[list(result_0.keys()).index(axes_names[0])]
+        if axis.is_components and axis.extension != "list":
+            # Export names instead of positions
+            Xdatas = [result_0[axes_names[0]] for xdata in Xdatas]
+        return Xdatas, Ydatas, title, xlabel, ylabel, legends
+
     # Deactivate legend if only one item
     if type_plot == "point":
         legends = []
@@ -739,8 +744,6 @@ def plot_2D_Data(
                 # Deactivate the option
                 fund_harm = None
 
-        if is_export:
-            return Xdatas, Ydatas, title, xlabel, ylabel, legends
         plot_2D(
             Xdatas,
             Ydatas,
@@ -804,8 +807,6 @@ def plot_2D_Data(
             except Exception:
                 pass
 
-        if is_export:
-            return Xdatas, Ydatas, title, xlabel, ylabel, legends
         plot_2D(
             Xdatas,
             Ydatas,
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index be9bea4..bcbb303 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -1,7 +1,7 @@
 from numpy.core.numeric import zeros_like
 from SciDataTool.Functions.Plot.plot_4D import plot_4D
 from SciDataTool.Functions.Plot.plot_3D import plot_3D
-from SciDataTool.Functions.Plot import unit_dict, norm_dict, axes_dict
+from SciDataTool.Functions.Plot import get_axis_unit, norm_dict, axes_dict
 from SciDataTool.Functions.Load.import_class import import_class
 from SciDataTool.Functions.parser import read_input_strings
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
@@ -255,7 +255,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = get_axis_unit(axis)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -293,7 +293,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = get_axis_unit(axis)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -366,7 +366,7 @@ def plot_3D_Data(
             is_display = False
         if is_display:
             if axis.unit == "SI":
-                axis_unit = unit_dict[axis.name]
+                axis_unit = get_axis_unit(axis)
             elif axis.unit in norm_dict:
                 axis_unit = norm_dict[axis.unit]
             else:
@@ -396,7 +396,7 @@ def plot_3D_Data(
                     )
 
                 index = None
-                if axis.is_pattern and len(axis.values) == 1:
+                if axis.is_pattern and axis.indices is not None and len(axis.values) == 1:
                     for axis_obj in self.get_axes():
                         if axis_obj.name == axis.name:
                             index = axis.indices[0]
-- 
2.43.0


From ba4014b11cb074363db843e832d99318bcef112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:11 +0000
Subject: [PATCH 34/47] fix: filters, order and rms of component axes

An item listed under several filter keys made every filter return nothing.
Extracted components kept the order of the original axis and lost their filter.
The rms and root sum square of complex values were complex numbers.
---
 SciDataTool/Functions/sum_mean.py            | 14 ++++++++---
 SciDataTool/Methods/Data1D/check_filter.py   | 26 +++++++++++---------
 SciDataTool/Methods/DataND/get_data_along.py | 11 ++++++++-
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index 85b0952..13d184d 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -123,7 +123,9 @@ def root_mean_square(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         # Remove anti-periodicity since values is squared
         is_aper = False
 
-    return np.sqrt(my_mean(values ** 2, ax_val, index, Nper, is_aper, is_phys, is_fft))
+    return np.sqrt(
+        my_mean(np.abs(values) ** 2, ax_val, index, Nper, is_aper, is_phys, is_fft)
+    )
 
 
 def root_sum_square(
@@ -165,10 +167,16 @@ def root_sum_square(
             is_phys = False
 
         if is_phys:
-            values = integrate(values ** 2, ax_val, index, Nper, is_aper, is_phys)
+            values = integrate(np.abs(values) ** 2, ax_val, index, Nper, is_aper, is_phys)
         else:
             values = my_sum(
-                values ** 2, index, Nper, is_aper, unit, is_fft, corr_unit=corr_unit
+                np.abs(values) ** 2,
+                index,
+                Nper,
+                is_aper,
+                unit,
+                is_fft,
+                corr_unit=corr_unit,
             )
 
         return np.sqrt(values)
diff --git a/SciDataTool/Methods/Data1D/check_filter.py b/SciDataTool/Methods/Data1D/check_filter.py
index 8e45899..ed5c285 100644
--- a/SciDataTool/Methods/Data1D/check_filter.py
+++ b/SciDataTool/Methods/Data1D/check_filter.py
@@ -1,3 +1,5 @@
+from itertools import permutations
+
 from SciDataTool.Functions import AxisError
 
 
@@ -12,19 +14,21 @@ def check_filter(self):
     keys: list
         list of filter keys in same order as in values
     """
-    keys = []
-    for i, value in enumerate(self.values):
-        items = value.split(self.delimiter)
+    items_list = [value.split(self.delimiter) for value in self.values]
+    for items in items_list:
         if len(items) != len(self.filter.keys()):
             raise AxisError("Filter is not correctly defined")
         for item in items:
-            is_match = False
-            for key in self.filter:
-                if item in self.filter[key]:
-                    is_match = True
-                    if i == 0:
-                        keys.append(key)
-            if not is_match:
+            if not any(item in self.filter[key] for key in self.filter):
                 raise AxisError("Missing item in filter: " + item)
 
-    return keys
+    # Find the order of keys matching all values (an item can be in several keys)
+    for keys in permutations(self.filter):
+        if all(
+            item in self.filter[key]
+            for items in items_list
+            for key, item in zip(keys, items)
+        ):
+            return list(keys)
+
+    raise AxisError("Filter is not correctly defined")
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 76e1c30..2f67b13 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from re import split
 
 from SciDataTool import Data1D
@@ -125,7 +126,15 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             if hasattr(self.axes[index], "sort_indices") and hasattr(
                 Axis, "sort_indices"
             ):
-                Axis.sort_indices = self.axes[index].sort_indices
+                sort_indices = self.axes[index].sort_indices
+                indices = [a.indices for a in axes_list if a.name == axis_name][0]
+                if sort_indices is not None and indices is not None:
+                    # Keep the order of the extracted values
+                    sort_indices = [indices.index(i) for i in sort_indices if i in indices]
+                Axis.sort_indices = sort_indices
+                Axis.is_overlay = self.axes[index].is_overlay
+                Axis.delimiter = self.axes[index].delimiter
+                Axis.filter = deepcopy(self.axes[index].filter)
             Axes.append(Axis)
 
     # Update unit if dB/dBA conversion
-- 
2.43.0


From 09d40b1470dc8db19facf53afbb8c982061c1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:11 +0000
Subject: [PATCH 35/47] fix: requests on pattern axes

Indices, intervals and interpolations mixed positions in the pattern with positions on the whole axis.
An unmentioned pattern axis was sliced at the first pattern sample instead of the first coordinate.
Anti-derivation rebuilt the pattern twice, spectra along a pattern were rejected.
Interpolation on steps dropped repeated points and sorted the requested ones.
---
 SciDataTool/Functions/interpolations.py       | 88 ++++---------------
 SciDataTool/Methods/DataND/_extract_slices.py |  3 +-
 SciDataTool/Methods/DataND/_get_field.py      | 19 +---
 .../Methods/DataND/_rebuild_symmetries.py     | 24 +----
 SciDataTool/Methods/RequestedAxis/get_axis.py |  7 +-
 5 files changed, 23 insertions(+), 118 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 1cf5eb1..747669c 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,7 +10,7 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
-    unique,
+    searchsorted,
 )
 from scipy.interpolate import interp1d
 
@@ -128,78 +128,22 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     """
     if str(axis_values) == "whole":  # Whole axis -> no interpolation
         return values
-    # elif len(new_axis_values) == 1:  # Single point -> use argmin
-    #     idx = argmin(np_abs(axis_values - new_axis_values[0]))
-    #     return take(values, [idx])
     elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+        isclose(axis_values, new_axis_values, rtol=1e-09, atol=0)
     ):  # Same axes -> no interpolation
         return values
-    elif isin(
-        new_axis_values, axis_values
-    ).all():  # New axis is subset -> no interpolation
-        values_slices = []
-        indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
-            axis_values[indice_take], return_counts=True, return_index=True
-        )
-        if len(idx_start) > 0:
-            for i, ii in enumerate(idx_start):
-                values_slices.append(
-                    take(values, indice_take[ii : ii + count[i]], axis=index).mean(
-                        axis=index
-                    )
-                )
-            return stack(values_slices, axis=index)
-        else:
-            return take(values, [], axis=index)
-
+    elif len(new_axis_values) == 0:
+        return take(values, [], axis=index)
     else:
-        new_shape = list(values.shape)
-        new_shape[index] = len(new_axis_values)
-        new_values = zeros(tuple(new_shape), dtype=values.dtype)
-        if len(axis_values) == 1 or all(axis_values == axis_values[0]):
-            for i in range(len(new_axis_values)):
-                new_values[(slice(None),) * index + (i,)] = take(values, 0, axis=index)
-            return new_values
-        else:
-            for i in range(len(new_axis_values)):
-                for j in range(len(axis_values) - 1):
-                    if isclose(
-                        new_axis_values[i], axis_values[j], rtol=1e-03
-                    ) and isclose(new_axis_values[i], axis_values[j + 1], rtol=1e-03):
-                        new_values[(slice(None),) * index + (i,)] = (
-                            take(values, j, axis=index)
-                            + take(values, j + 1, axis=index)
-                        ) / 2
-                        break
-                    elif (
-                        new_axis_values[i] >= axis_values[j]
-                        and new_axis_values[i] < axis_values[j + 1]
-                        and not isclose(
-                            new_axis_values[i], axis_values[j + 1], rtol=1e-03
-                        )
-                    ):
-                        new_values[(slice(None),) * index + (i,)] = take(
-                            values, j, axis=index
-                        )
-                        break
-                    elif (
-                        j == len(axis_values) - 2
-                        and new_axis_values[i] == axis_values[j + 1]
-                    ):
-                        new_values[(slice(None),) * index + (i,)] = take(
-                            values, j + 1, axis=index
-                        )
-                        break
-                    else:
-                        # Extrapolate for outer bounds
-                        if new_axis_values[i] <= axis_values[0]:
-                            new_values[(slice(None),) * index + (i,)] = take(
-                                values, 0, axis=index
-                            )
-                        elif new_axis_values[i] >= axis_values[-1]:
-                            new_values[(slice(None),) * index + (i,)] = take(
-                                values, -1, axis=index
-                            )
-            return array(new_values)
+        axis_values = array(axis_values)
+        atol = 1e-09 * np_abs(axis_values).max()
+        new_values = []
+        for new_axis_value in new_axis_values:
+            # Points of the axis at the requested value
+            indices = where(isclose(axis_values, new_axis_value, rtol=1e-09, atol=atol))[0]
+            if len(indices) == 0:
+                # Last point before the requested value (first point if out of bounds)
+                indices = [max(searchsorted(axis_values, new_axis_value) - 1, 0)]
+            # Average value on double points
+            new_values.append(take(values, indices, axis=index).mean(axis=index))
+        return stack(new_values, axis=index)
diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 82653b0..27109e3 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -39,5 +39,6 @@ def _extract_slices(self, values, axes_list):
                     values = take(values, indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
-            values = take(values, [0], axis=index)
+            rebuild_indices = getattr(axis, "rebuild_indices", None) or [0]
+            values = take(values, rebuild_indices[:1], axis=index)
     return values, axes_dict_other
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 1bf7811..ffb1c69 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -21,24 +21,7 @@ def _get_field(self, axes_list):
         # Rebuild symmetries when needed
         axis_symmetries = self.axes[axis_requested.index].symmetries
 
-        if axis_requested.is_pattern and (
-            axis_requested.transform == "fft"
-            or axis_requested.extension
-            in [
-                "max",
-                "min",
-                "sum",
-                "rss",
-                "mean",
-                "rms",
-                "integrate",
-                "integrate_local",
-                "derivate",
-                "antiderivate",
-            ]
-            or axis_requested.indices not in [None, []]
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
-        ):
+        if axis_requested.is_pattern and axis_requested.extension != "smallestperiod":
             # DataPattern case where all values are requested
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
         elif axis_requested.transform == "fft" and "antiperiod" in axis_symmetries:
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 7899aed..a2818db 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -2,8 +2,6 @@ from SciDataTool.Functions.symmetries import (
     rebuild_symmetries as rebuild_symmetries_fct,
 )
 
-from numpy import take
-
 
 def _rebuild_symmetries(
     self,
@@ -27,27 +25,7 @@ def _rebuild_symmetries(
     for axis in axes_list:
         if (
             axis.transform != "fft"
-            and axis.is_pattern
-            and (
-                axis.extension
-                not in [
-                    "max",
-                    "min",
-                    "sum",
-                    "rss",
-                    "mean",
-                    "rms",
-                    "integrate",
-                    "integrate_local",
-                    "derivate",
-                    "smallestperiod",
-                ]
-                and axis.indices is None
-            )
-        ):
-            values = take(values, axis.rebuild_indices, axis.index)
-        elif (
-            axis.transform != "fft"
+            and not axis.is_pattern  # Pattern is already rebuilt
             and axis.indices is None  # Slices are already extracted
             and axis.extension
             in [
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 73b0ff8..08bd67b 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -97,7 +97,7 @@ def get_axis(self, axis, is_real):
                 is_oneperiod = False
                 is_antiperiod = True
         elif self.extension == "oneperiod" or self.transform == "fft":
-            if isinstance(axis, DataPattern):
+            if self.extension == "oneperiod" and isinstance(axis, DataPattern):
                 raise AxisError("[oneperiod] cannot be called with DataPattern axis")
             else:
                 is_smallestperiod = False
@@ -114,7 +114,7 @@ def get_axis(self, axis, is_real):
             is_oneperiod = False
             is_antiperiod = False
         else:
-            if self.input_data is not None and not self.is_step:
+            if self.input_data is not None and not self.is_pattern:
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
@@ -148,8 +148,7 @@ def get_axis(self, axis, is_real):
                         is_smallestperiod = False
                         is_oneperiod = False
                         is_antiperiod = False
-                        if not self.is_pattern:
-                            self.extension = "interval"
+                        self.extension = "interval"
             elif self.transform == "ifft":  # Ignore symmetries in ifft case
                 is_smallestperiod = True
                 is_oneperiod = False
-- 
2.43.0


From 8c62783e79c51d9d2fc12dd076905c25a0adac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:36 +0000
Subject: [PATCH 36/47] fix: curves, legends and labels of 2D plots

Plots of a single sample, of component axes and with an overall curve failed
or drew the curve along the wrong axis. Compared fields took the legend of the
first one, and 'SI' was removed from names. Figures or axes given alone failed,
and ticks were set on the current figure instead of the given one.
---
 SciDataTool/Functions/Plot/plot_2D.py         |  38 +++---
 SciDataTool/Methods/DataND/export_along.py    |   2 +-
 .../Methods/DataND/get_magnitude_along.py     |  17 ++-
 SciDataTool/Methods/DataND/plot_2D_Data.py    | 120 +++++++-----------
 4 files changed, 85 insertions(+), 92 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_2D.py b/SciDataTool/Functions/Plot/plot_2D.py
index f361573..ec699a5 100644
--- a/SciDataTool/Functions/Plot/plot_2D.py
+++ b/SciDataTool/Functions/Plot/plot_2D.py
@@ -123,6 +123,12 @@ def plot_2D(
         arrow width factor
     """
 
+    # Use the figure of the given axes, or the axes of the given figure
+    if fig is None and ax is not None:
+        fig = ax.get_figure()
+    elif fig is not None and ax is None:
+        ax = fig.axes[0] if fig.axes else fig.add_subplot()
+
     # Set is_show_fig if is None
     if is_show_fig is None:
         is_show_fig = True if fig is None else False
@@ -195,7 +201,7 @@ def plot_2D(
             )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             if is_indlabels:
                 ax.set_xticklabels([i + 1 for i in range(len(xticklabels))], rotation=0)
@@ -240,7 +246,7 @@ def plot_2D(
 
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             ax.set_xticklabels(xticklabels, rotation=90)
 
@@ -266,11 +272,10 @@ def plot_2D(
                     label=legend_list[i],
                     picker=True,
                 )
-        plt.xticks(
-            range(len(Xdatas[i_Xdatas[i]])),
-            ["{:.2f}".format(f) for f in Xdatas[i_Xdatas[i]]],
-            rotation=90,
-        )
+        ax.set_xticks(range(len(Xdatas[i_Xdatas[i]])))
+        if xticklabels is None:
+            xticklabels = ["{:.2f}".format(f) for f in Xdatas[i_Xdatas[i]]]
+        ax.set_xticklabels(xticklabels, rotation=90)
     elif type_plot == "octave":
         pos = arange(0, 1, 1 / (ndatas + 1))[:-1] - (ndatas - 1) / (2 * (ndatas + 1))
         for i in range(ndatas):
@@ -285,11 +290,8 @@ def plot_2D(
                 label=legend_list[i],
                 picker=True,
             )
-        plt.xticks(
-            range(len(Xdatas[i_Xdatas[i]])),
-            [f"{f:g}" for f in Xdatas[i_Xdatas[i]]],
-            rotation=90,
-        )
+        ax.set_xticks(range(len(Xdatas[i_Xdatas[i]])))
+        ax.set_xticklabels([f"{f:g}" for f in Xdatas[i_Xdatas[i]]], rotation=90)
         x_min = -1
         x_max = len(x_axis)
         is_logscale_x = False
@@ -337,7 +339,7 @@ def plot_2D(
             )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             if is_indlabels:
                 ax.set_xticklabels([i + 1 for i in range(len(xticklabels))], rotation=0)
@@ -362,7 +364,7 @@ def plot_2D(
             )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             if is_indlabels:
                 ax.set_xticklabels([i + 1 for i in range(len(xticklabels))], rotation=0)
@@ -411,7 +413,7 @@ def plot_2D(
         ax.legend()
 
         if xticks is None:
-            plt.xticks([])
+            ax.set_xticks([])
 
     elif type_plot == "stack":
         ax.plot(
@@ -450,7 +452,7 @@ def plot_2D(
                     stack.set_hatch(hatches[ii // ncolors])
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         ax.yaxis.set_ticks([])
         if xticklabels is not None:
             if is_indlabels:
@@ -533,12 +535,12 @@ def plot_2D(
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
         fig.savefig(save_path)
-        plt.close()
+        plt.close(fig)
 
     if is_show_fig:
         fig.show()
 
     if win_title:
-        manager = plt.get_current_fig_manager()
+        manager = fig.canvas.manager
         if manager is not None:
             manager.set_window_title(win_title)
diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index f41b3cb..5349213 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -65,7 +65,7 @@ def export_along(
             slices = ""
         # Only curves can be exported in columns
         is_2D = all(
-            np.ndim(x) == 1 and np.shape(x) == np.shape(y)
+            np.size(x) > 1 and np.ndim(x) == 1 and np.shape(x) == np.shape(y)
             for x, y in zip(Xdata, Ydatas)
         )
 
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 6609b30..029fd67 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -4,6 +4,7 @@ from SciDataTool.Functions import AxisError, NormError
 from SciDataTool.Functions.conversions import convert, to_dB, to_noct
 from SciDataTool.Functions.fft_functions import comp_nthoctave_axis
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
+from SciDataTool.Functions.parser import read_input_strings
 from numpy import apply_along_axis, array, squeeze, take
 
 
@@ -90,7 +91,7 @@ def get_magnitude_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
                 names = [split(r"->|[\[=<>{]", arg)[0] for arg in args]
-                return data.get_magnitude_along(
+                return_dict = data.get_magnitude_along(
                     *[
                         args[index_freq]
                         if axis.name in args_freqs
@@ -103,6 +104,12 @@ def get_magnitude_along(
                     is_sum=False,
                     corr_unit=self.unit,
                 )  # Then sum on freqs axis
+                # Keep the lists of the request
+                for axis in read_input_strings(args, axis_data):
+                    for axis_dict in return_dict["axes_list"]:
+                        if axis.name == axis_dict.name and axis.extension == "list":
+                            axis_dict.extension = "list"
+                return return_dict
         else:  # Try speed/order
             is_match = 0
             for i, axis in enumerate(self.get_axes()):  # Find frequency axis
@@ -145,7 +152,7 @@ def get_magnitude_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along speed and/or order axes
                 names = [split(r"->|[\[=<>{]", arg)[0] for arg in args]
-                return data.get_magnitude_along(
+                return_dict = data.get_magnitude_along(
                     *[
                         args[names.index(axis.name)]
                         if names.index(axis.name) in [index_speed, index_order]
@@ -158,6 +165,12 @@ def get_magnitude_along(
                     is_sum=False,
                     corr_unit=self.unit,
                 )  # Then sum on speed and/or order axes
+                # Keep the lists of the request
+                for axis in read_input_strings(args, axis_data):
+                    for axis_dict in return_dict["axes_list"]:
+                        if axis.name == axis_dict.name and axis.extension == "list":
+                            axis_dict.extension = "list"
+                return return_dict
 
     else:
 
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index f495c6b..cf5e39e 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -23,6 +23,7 @@ from numpy import (
     nanmin as np_min,
     linspace,
     argsort,
+    atleast_1d,
     argmax,
     take,
     log10,
@@ -213,6 +214,7 @@ def plot_2D_Data(
     Xdatas = []
     Ydatas = []
     data_list2 = [self] + data_list
+    results = []
     for i, d in enumerate(data_list2):
         if is_fft or "dB" in unit:
             result = d.get_magnitude_along(
@@ -230,12 +232,11 @@ def plot_2D_Data(
                 axes_list = result.pop("axes_list")
                 axes_dict_other = result.pop("axes_dict_other")
                 result_0 = result
-        Ydatas.append(result.pop(d.symbol))
-        # in string case not overlay, Xdatas is a linspace
-        if (
-            axes_list[list(result.keys()).index(axes_names[0])].is_components
-            and axes_list[list(result.keys()).index(axes_names[0])].extension != "list"
-        ):
+        Ydatas.append(atleast_1d(result.pop(d.symbol)))
+        results.append(result)
+        # in string case, Xdatas is a linspace
+        main_axis = [axis for axis in axes_list if axis.name == axes_names[0]][0]
+        if main_axis.is_components:
             xdata = linspace(
                 0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]])
             )
@@ -246,6 +247,11 @@ def plot_2D_Data(
     # Build xlabel and title
     title1 = self.name[0].capitalize() + self.name[1:] + " "
     title2 = "for "
+    xticks = None
+    xticklabels = None
+    if main_axis.is_components:
+        xticklabels = result_0[axes_names[0]]
+        xticks = Xdatas[0]
     for axis in axes_list:
         if axis.unit in norm_dict and axis.unit != "Hz":
             name = norm_dict[axis.unit].split(" [")[0]
@@ -265,7 +271,7 @@ def plot_2D_Data(
                 "list",
             ]
             and len(axis.values) > 1
-            or (len(axis.values) == 1 and len(axes_list) == 1)
+            or axis.name == axes_names[0]
         ):
             if axis.unit == "SI":
                 axis_unit = get_axis_unit(axis)
@@ -284,23 +290,6 @@ def plot_2D_Data(
                 if xlabel is None and axis.name == axes_names[0]:
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
                 main_axis_name = name
-            if (
-                axis.name == "angle"
-                and axis.unit == "°"
-                and round(np_max(axis.values) / 6) % 5 == 0
-            ):
-                xticks = [i * round(np_max(axis.values) / 6) for i in range(7)]
-            else:
-                xticks = None
-            if (
-                axes_list[list(result.keys()).index(axes_names[0])].is_components
-                and not self.get_axes()[0].is_overlay
-            ):
-                xticklabels = result[axes_names[0]]
-                xticks = Xdatas[0]
-            else:
-                xticklabels = None
-                xticks = None
         else:
             if axis.corr_unit == "SI":
                 axis_unit = get_axis_unit(axis)
@@ -404,6 +393,8 @@ def plot_2D_Data(
                     axis_unit = norm_dict[axis.unit]
                 else:
                     axis_unit = axis.unit
+                if axis_unit == "SI":  # Remove dimless units
+                    axis_unit = ""
                 if len(d.axes[axis.index].get_values()) > 1:
                     legends += [
                         (
@@ -411,21 +402,19 @@ def plot_2D_Data(
                             + " "
                             + axis.name
                             + "="
-                            + axis.values.tolist()[j].replace(";", "")
+                            + value.replace(";", "")
                             + " "
                             + axis_unit
-                            if isinstance(axis.values.tolist()[j], str)
+                            if isinstance(value, str)
                             else legend_list[i]
                             + " "
                             + axis.name
                             + "="
-                            + "%.3g" % axis.values.tolist()[j]
+                            + "%.3g" % value
                             + " "
                             + axis_unit
-                        )
-                        .replace("SI", "")
-                        .replace(" []", "")
-                        for j in range(n_curves)
+                        ).replace(" []", "")
+                        for value in results[i][axis.name].tolist()
                     ]
                 else:
                     legends += [legend_list[i]]
@@ -447,15 +436,15 @@ def plot_2D_Data(
             if not isinstance(result_0[axis.name], str) and len(axis.values) > 1
         ]
         Ydata = []
-        for d in Ydatas:
-            if d.ndim != 1:
-                Ydata += split(d, n_curves, axis=names.index(overlay_name))
-            else:
-                Ydata += [d]
-        Ydatas = [squeeze(d) for d in Ydata]
         Xdata = []
-        for i in range(len(data_list2)):
-            Xdata += [Xdatas[i] for x in range(n_curves)]
+        for i, d in enumerate(Ydatas):
+            if d.ndim == len(names):
+                curves = split(d, n_curves, axis=names.index(overlay_name))
+            else:
+                curves = [d]
+            Ydata += [atleast_1d(squeeze(curve)) for curve in curves]
+            Xdata += [Xdatas[i] for curve in curves]
+        Ydatas = Ydata
         Xdatas = Xdata
 
     # Finish title
@@ -476,12 +465,12 @@ def plot_2D_Data(
         title = title.rstrip(", ")
 
         # Remove dimless and quotes
-        title = title.replace("SI", "").replace("[]", "").replace("'", "")
+        title = title.replace("[SI]", "").replace("[]", "").replace("'", "")
 
     if xlabel is None:
         xlabel = ""
-    xlabel = xlabel.replace("SI", "").replace(" []", "")  # Remove dimless units
-    ylabel = ylabel.replace("SI", "").replace(" []", "")  # Remove dimless units
+    xlabel = xlabel.replace("[SI]", "[]").replace(" []", "")  # Remove dimless units
+    ylabel = ylabel.replace("[SI]", "[]").replace(" []", "")  # Remove dimless units
 
     # Overall computation
     if overall_axes != []:
@@ -493,8 +482,8 @@ def plot_2D_Data(
         # Add sum to overall_axes
         for axis in overall_axes:
             is_match = False
-            for i, arg in enumerate(arg_list):
-                if axis in arg:
+            for i, name in enumerate(axes_names):
+                if axis == name:
                     is_match = True
                     arg_list_ovl[i] = axis + op
             if not is_match:
@@ -502,6 +491,8 @@ def plot_2D_Data(
         # Add other requested axes
         for i, arg in enumerate(arg_list):
             if arg_list_ovl[i] == 0:
+                if "wavenumber" in arg and "=" not in arg and "[" not in arg:
+                    arg = arg.replace("wavenumber", "wavenumber>0")
                 arg_list_ovl[i] = arg
         if is_fft or "dB" in unit:
             result = self.get_magnitude_along(
@@ -509,19 +500,9 @@ def plot_2D_Data(
             )
         else:
             result = self.get_along(*arg_list_ovl, unit=unit, axis_data=axis_data)
-        Y_overall = result[self.symbol]
-        # in string case not overlay, Xdatas is a linspace
-        if (
-            axes_list[list(result.keys()).index(axes_names[0])].is_components
-            and axes_list[list(result.keys()).index(axes_names[0])].extension != "list"
-        ):
-            xdata = linspace(
-                0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]])
-            )
-        else:
-            xdata = result[list(result)[0]]
+        Y_overall = atleast_1d(result[self.symbol])
         Ydatas.insert(0, Y_overall)
-        Xdatas.insert(0, xdata)
+        Xdatas.insert(0, Xdatas[0])
         new_color_list = new_color_list.copy()
         new_color_list.insert(0, "#000000")
         legends.insert(0, "Overall")
@@ -647,8 +628,7 @@ def plot_2D_Data(
         title = "Contribution of magnetic Load Cases" + sel_str
 
     if is_export:
-        axis = axes_list[list(result_0.keys()).index(axes_names[0])]
-        if axis.is_components and axis.extension != "list":
+        if main_axis.is_components:
             # Export names instead of positions
             Xdatas = [result_0[axes_names[0]] for xdata in Xdatas]
         return Xdatas, Ydatas, title, xlabel, ylabel, legends
@@ -671,22 +651,22 @@ def plot_2D_Data(
                 thresh = 0.02
 
         freqs = Xdatas[0]
-        if "dB" in unit:
+        if Ydatas[0].size == 1:
+            indices = [0]
+        elif "dB" in unit:
             indices = [
                 ind
                 for ind, y in enumerate(Ydatas[0])
                 if abs(y) > max(10 * log10(thresh) + abs(np_max(Ydatas[0])), 0)
             ]
         else:
-            if Ydatas[0].size == 1:
-                indices = [0]
-            else:
-                indices = [
-                    ind
-                    for ind, y in enumerate(Ydatas[0])
-                    if abs(y) > abs(thresh * np_max(Ydatas[0]))
-                ]
-        xticks = unique(insert(freqs[indices], 0, 0))
+            indices = [
+                ind
+                for ind, y in enumerate(Ydatas[0])
+                if abs(y) > abs(thresh * np_max(Ydatas[0]))
+            ]
+        if not main_axis.is_components:
+            xticks = unique(insert(freqs[indices], 0, 0))
 
         if is_auto_range:
             if len(xticks) > 1:
@@ -721,9 +701,7 @@ def plot_2D_Data(
             len(xticks) == 0
             or (
                 len(xticks) > 20
-                and not axes_list[
-                    list(result.keys()).index(axes_names[0])
-                ].is_components
+                and not main_axis.is_components
             )
             or not is_auto_ticks
         ):
-- 
2.43.0


From 9a07f01e57fa1e74cf0d5887c8355a33613caccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:43 +0000
Subject: [PATCH 37/47] fix: positions, limits and labels of 3D plots

Values were drawn at swapped coordinates when the axes were named in another
order than they are stored, and mirrored when an axis decreases. Colour meshes,
log scales, stem plots and figures or axes given alone failed.
---
 SciDataTool/Functions/Plot/plot_3D.py      |  78 +++++++-----
 SciDataTool/Functions/Plot/plot_4D.py      |  41 +++++--
 SciDataTool/Methods/DataND/plot_2D_Data.py |   4 +-
 SciDataTool/Methods/DataND/plot_3D_Data.py | 133 +++++++++++----------
 4 files changed, 153 insertions(+), 103 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..c6e2f0c 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -1,4 +1,11 @@
-from numpy import nanmin as np_min, nanmax as np_max, abs as np_abs, log10, linspace
+from numpy import (
+    nanmin as np_min,
+    nanmax as np_max,
+    abs as np_abs,
+    clip,
+    log10,
+    linspace,
+)
 
 import matplotlib.pyplot as plt
 import mpl_toolkits.mplot3d.art3d as art3d
@@ -119,6 +126,10 @@ def plot_3D(
         gamma != 1
     """
 
+    # Use the figure of the given axes
+    if fig is None and ax is not None:
+        fig = ax.get_figure()
+
     # Set if figure must be shown if is_show_fig is None
     if is_show_fig is None:
         is_show_fig = True if fig is None else False
@@ -132,16 +143,15 @@ def plot_3D(
     # Set figure if needed
     if fig is None and ax is None:
         (fig, ax, _, _) = init_fig(fig=None, shape="rectangle", is_3d=is_3d)
+    elif ax is None:
+        if fig.axes:
+            ax = fig.axes[0]
+        else:
+            ax = fig.add_subplot(projection="3d" if is_3d else None)
 
     if color_list is None:
         color_list = COLORS
 
-    # Calculate z limits
-    if z_min is None:
-        z_min = np_min(Zdata)
-    if z_max is None:
-        z_max = np_max(Zdata)
-
     # Check logscale on z axis
     if is_logscale_z:
         Zdata = 10 * log10(np_abs(Zdata))
@@ -149,6 +159,12 @@ def plot_3D(
     else:
         clb_format = "%.4g"
 
+    # Calculate z limits
+    if z_min is None:
+        z_min = np_min(Zdata)
+    if z_max is None:
+        z_max = np_max(Zdata)
+
     # Switch axes
     if is_switch_axes:
         Xdata, Ydata = Ydata, Xdata
@@ -162,8 +178,23 @@ def plot_3D(
         x_max, y_max = y_max, x_max
         xlabel, ylabel = ylabel, xlabel
         xticks, yticks = yticks, xticks
+        xticklabels, yticklabels = yticklabels, xticklabels
         is_logscale_x, is_logscale_y = is_logscale_y, is_logscale_x
 
+    # Log scales start at the first positive value
+    if is_logscale_x:
+        ax.set_xscale("log")
+        if x_min is not None and x_min <= 0:
+            x_min = np_min(Xdata[Xdata > 0])
+        if xticks is not None and np_min(xticks) <= 0:
+            xticks, xticklabels = None, None
+    if is_logscale_y:
+        ax.set_yscale("log")
+        if y_min is not None and y_min <= 0:
+            y_min = np_min(Ydata[Ydata > 0])
+        if yticks is not None and np_min(yticks) <= 0:
+            yticks, yticklabels = None, None
+
     # Plot
     if type_plot == "stem":
         cmap = matplotlib.cm.get_cmap(colormap)
@@ -189,7 +220,7 @@ def plot_3D(
         ax.zaxis.labelpad = 5
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -203,8 +234,6 @@ def plot_3D(
         ax.xaxis.pane.set_edgecolor("w")
         ax.yaxis.pane.set_edgecolor("w")
         ax.zaxis.pane.set_edgecolor("w")
-        if is_logscale_z:
-            ax.zscale("log")
     elif type_plot == "surf":
         ax.plot_surface(Xdata, Ydata, Zdata, cmap=colormap)
         ax.set_xlim3d(x_max, x_min)
@@ -217,7 +246,7 @@ def plot_3D(
         ax.zaxis.labelpad = 5
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -231,22 +260,19 @@ def plot_3D(
         ax.xaxis.pane.set_edgecolor("w")
         ax.yaxis.pane.set_edgecolor("w")
         ax.zaxis.pane.set_edgecolor("w")
-        if is_logscale_z:
-            ax.zscale("log")
     elif type_plot == "pcolor":
         if is_shading_flat:
             interpolation = None
         else:
             interpolation = "bilinear"
-        Zdata[Zdata < z_min] = z_min
-        Zdata[Zdata > z_max] = z_max
+        Zdata = clip(Zdata, z_min, z_max)
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
         if Ydata[-1] < Ydata[0]:
             Ydata = Ydata[::-1]
-            Zdata = Zdata[:, ::-1]
+            Zdata = Zdata[::-1, :]
         if Xdata[-1] < Xdata[0]:
             Xdata = Xdata[::-1]
-            Zdata = Zdata[::-1, :]
+            Zdata = Zdata[:, ::-1]
         im = NonUniformImage(
             ax,
             interpolation=interpolation,
@@ -274,7 +300,7 @@ def plot_3D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -285,7 +311,7 @@ def plot_3D(
         ax.set_ylim([y_min, y_max])
     elif type_plot == "pcolormesh":
         if is_shading_flat:
-            shading = "flat"
+            shading = "auto"
         else:
             shading = "gouraud"
         if gamma==1:
@@ -328,7 +354,7 @@ def plot_3D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -357,7 +383,7 @@ def plot_3D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -368,12 +394,6 @@ def plot_3D(
     ax.set_xlabel(xlabel)
     ax.set_ylabel(ylabel)
 
-    if is_logscale_x:
-        ax.xscale("log")
-
-    if is_logscale_y:
-        ax.yscale("log")
-
     if is_disp_title:
         ax.set_title(title)
 
@@ -399,12 +419,12 @@ def plot_3D(
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
         fig.savefig(save_path)
-        plt.close()
+        plt.close(fig)
 
     if is_show_fig:
         fig.show()
 
     if win_title:
-        manager = plt.get_current_fig_manager()
+        manager = fig.canvas.manager
         if manager is not None:
             manager.set_window_title(win_title)
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index edec72b..9c5a27a 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from numpy import log10, abs as np_abs, nanmax as np_max, NaN, zeros_like
+from numpy import log10, abs as np_abs, nanmax as np_max, nanmin as np_min, NaN, where, zeros_like
 import matplotlib.pyplot as plt
 
 from SciDataTool.Functions.Plot.init_fig import init_fig
@@ -127,6 +127,10 @@ def plot_4D(
         grid linewidth along y
     """
 
+    # Use the figure of the given axes
+    if fig is None and ax is not None:
+        fig = ax.get_figure()
+
     # Set figure/subplot
     if is_show_fig is None:
         is_show_fig = True if fig is None else False
@@ -140,6 +144,11 @@ def plot_4D(
     # Set figure if needed
     if fig is None and ax is None:
         (fig, ax, _, _) = init_fig(fig=None, shape="rectangle", is_3d=is_3d)
+    elif ax is None:
+        if fig.axes:
+            ax = fig.axes[0]
+        else:
+            ax = fig.add_subplot(projection="3d" if is_3d else None)
 
     # Check logscale on z axis
     if is_logscale_z:
@@ -157,7 +166,7 @@ def plot_4D(
         else:
             z_min = z_max / 1e4
 
-    Zdata[Zdata < z_min] = NaN
+    Zdata = where(Zdata < z_min, NaN, Zdata)
 
     if is_same_size:
         Sdata = zeros_like(Zdata)
@@ -181,6 +190,20 @@ def plot_4D(
         xticklabels, yticklabels = yticklabels, xticklabels
         is_logscale_x, is_logscale_y = is_logscale_y, is_logscale_x
 
+    # Log scales start at the first positive value
+    if is_logscale_x:
+        ax.set_xscale("log")
+        if x_min is not None and x_min <= 0:
+            x_min = np_min(Xdata[Xdata > 0])
+        if xticks is not None and np_min(xticks) <= 0:
+            xticks, xticklabels = None, None
+    if is_logscale_y:
+        ax.set_yscale("log")
+        if y_min is not None and y_min <= 0:
+            y_min = np_min(Ydata[Ydata > 0])
+        if yticks is not None and np_min(yticks) <= 0:
+            yticks, yticklabels = None, None
+
     # Plot
     if type_plot == "scatter":
         c = ax.scatter(
@@ -202,7 +225,7 @@ def plot_4D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             ax.set_xticklabels(xticklabels, rotation=90)
         if yticks is not None:
@@ -232,7 +255,7 @@ def plot_4D(
         )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             ax.set_xticklabels(xticklabels, rotation=90)
         if yticks is not None:
@@ -245,12 +268,6 @@ def plot_4D(
     ax.set_xlim([x_min, x_max])
     ax.set_ylim([y_min, y_max])
 
-    if is_logscale_x:
-        ax.xscale("log")
-
-    if is_logscale_y:
-        ax.yscale("log")
-
     if is_disp_title:
         ax.set_title(title)
 
@@ -289,12 +306,12 @@ def plot_4D(
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
         fig.savefig(save_path)
-        plt.close()
+        plt.close(fig)
 
     if is_show_fig:
         fig.show()
 
     if win_title:
-        manager = plt.get_current_fig_manager()
+        manager = fig.canvas.manager
         if manager is not None:
             manager.set_window_title(win_title)
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index cf5e39e..3559f47 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -694,8 +694,8 @@ def plot_2D_Data(
             if x_max is None:
                 x_max = np_max(freqs)
 
-        x_min = x_min - x_max * 0.05
-        x_max = x_max * 1.05
+        x_min = x_min - abs(x_max) * 0.05
+        x_max = x_max + abs(x_max) * 0.05
 
         if (
             len(xticks) == 0
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index bcbb303..e8a22de 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -7,6 +7,7 @@ from SciDataTool.Functions.parser import read_input_strings
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
 from SciDataTool.Classes.Norm_indices import Norm_indices
 from numpy import (
+    abs as np_abs,
     any as np_any,
     where,
     meshgrid,
@@ -202,20 +203,25 @@ def plot_3D_Data(
         is_same_size = False
     axes_list = result["axes_list"]
     axes_dict_other = result["axes_dict_other"]
-    if axes_list[list(result.keys()).index(axes_names[0])].is_components:
+    x_axis = [axis for axis in axes_list if axis.name == axes_names[0]][0]
+    y_axis = [axis for axis in axes_list if axis.name == axes_names[1]][0]
+    if x_axis.is_components:
         Xdata = linspace(0, len(result[axes_names[0]]) - 1, len(result[axes_names[0]]))
     else:
         Xdata = result[axes_names[0]]
-    if axes_list[list(result.keys()).index(axes_names[1])].is_components:
+    if y_axis.is_components:
         Ydata = linspace(0, len(result[axes_names[1]]) - 1, len(result[axes_names[1]]))
     else:
         Ydata = result[axes_names[1]]
     Zdata = result[self.symbol]
-    if Xdata.size == 1:
-        Zdata = Zdata[None, ...]
-    if Ydata.size == 1:
-        Zdata = Zdata[..., None]
-    if is_fft and not is_2D_view:
+    is_stem = is_fft and not is_2D_view
+    if not is_stem:
+        # x-axis along the first dimension
+        if axes_list.index(x_axis) < axes_list.index(y_axis):
+            Zdata = Zdata.reshape((Xdata.size, Ydata.size))
+        else:
+            Zdata = Zdata.reshape((Ydata.size, Xdata.size)).T
+    if is_stem:
         X_flat = Xdata
         Y_flat = Ydata
         Z_flat = Zdata
@@ -225,23 +231,28 @@ def plot_3D_Data(
         X_flat = X_map.flatten()
         Y_flat = Y_map.flatten()
         Z_flat = Zdata.flatten()
+    # Limits are in the scale of the plot
+    if is_logscale_z:
+        Zscale = 10 * log10(np_abs(Zdata[Zdata != 0]))
+    else:
+        Zscale = Zdata
     if z_range is None:
         if z_min is None:
             if is_fft:
                 z_min = 0
             else:
                 if "dB" in unit:
-                    z_min = floor(np_min(Zdata))
+                    z_min = floor(np_min(Zscale))
                 else:
-                    z_min = np_min(Zdata)
+                    z_min = np_min(Zscale)
         if z_max is None:
-            z_max = np_max(Zdata)
+            z_max = np_max(Zscale)
     else:
         if z_min is None and z_max is None:
             if "dB" in unit:
-                z_max = ceil(np_max(Zdata))
+                z_max = ceil(np_max(Zscale))
             else:
-                z_max = np_max(Zdata)
+                z_max = np_max(Zscale)
         if z_max is None:
             z_max = z_min + z_range
         if z_min is None:
@@ -249,7 +260,7 @@ def plot_3D_Data(
 
     # Build labels and titles
     title1 = self.name[0].capitalize() + self.name[1:] + " "
-    axis = axes_list[list(result.keys()).index(axes_names[0])]
+    axis = x_axis
     if axis.name in axes_dict:
         name = axes_dict[axis.name]
     else:
@@ -276,6 +287,7 @@ def plot_3D_Data(
     if axis.is_components:
         xticklabels = result[axis.name]
         xticks = Xdata
+        annotations_x = zeros_like(Xdata)
         if annotation_delim is not None and annotation_delim in xticklabels[0]:
             annotations_x = array(
                 [label.split(annotation_delim)[1] for label in xticklabels]
@@ -287,7 +299,7 @@ def plot_3D_Data(
         xticklabels = None
         annotations_x = zeros_like(Xdata)
 
-    axis = axes_list[list(result.keys()).index(axes_names[1])]
+    axis = y_axis
     if axis.name in axes_dict:
         name = axes_dict[axis.name]
     else:
@@ -334,16 +346,17 @@ def plot_3D_Data(
         annotations = None
 
     # Detect discontinuous axis (Norm_indices) to use flat shading
+    flat_indices = []
     if is_shading_flat is None:
         is_shading_flat = False
-        flat_indices = []
         for axis in axes_list:
             if axis.unit in self.axes[axis.index].normalizations:
                 if isinstance(
                     self.axes[axis.index].normalizations[axis.unit], Norm_indices
                 ):
                     is_shading_flat = True
-                    flat_indices.append(axes_names.index(axis.name))
+                    if axis.name in axes_names:
+                        flat_indices.append(axes_names.index(axis.name))
 
     title2 = "for "
     for axis in axes_list:
@@ -416,7 +429,7 @@ def plot_3D_Data(
                     is_display = False
         if is_display:
             if isinstance(axes_dict_other[axis_name][0], str):
-                axis_str = axes_dict_other[axis_name][0]
+                axis_str = axes_dict_other[axis_name][0] + ", "
             else:
                 if axes_dict_other[axis_name][0] > 10:
                     fmt = "{:.5g}"
@@ -441,10 +454,10 @@ def plot_3D_Data(
         title = title1 + title2 + title3
         title = title.rstrip(", ")
 
-    title = title.replace("SI", "").replace(" []", "")
-    xlabel = xlabel.replace("SI", "").replace(" []", "")  # Remove dimless units
-    ylabel = ylabel.replace("SI", "").replace(" []", "")  # Remove dimless units
-    zlabel = zlabel.replace("SI", "").replace(" []", "")  # Remove dimless units
+    title = title.replace("[SI]", "[]").replace(" []", "")
+    xlabel = xlabel.replace("[SI]", "[]").replace(" []", "")  # Remove dimless units
+    ylabel = ylabel.replace("[SI]", "[]").replace(" []", "")  # Remove dimless units
+    zlabel = zlabel.replace("[SI]", "[]").replace(" []", "")  # Remove dimless units
 
     if is_fft:
 
@@ -458,8 +471,12 @@ def plot_3D_Data(
             threshold = max(10 * log10(thresh) + abs(np_max(Zdata)), 0)
         else:
             threshold = abs(thresh * np_max(Zdata))
-        indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
-        indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
+        if is_stem:
+            indices_x = Zdata > threshold
+            indices_y = indices_x
+        else:
+            indices_x = np_any(where(Zdata > threshold, True, False), axis=1)
+            indices_y = np_any(where(Zdata > threshold, True, False), axis=0)
 
         if is_filter_x:
             xticks = Xdata[indices_x]
@@ -480,13 +497,13 @@ def plot_3D_Data(
         if is_auto_range:
             if len(xticks) > 1:
                 if x_min is None:
-                    x_min = xticks[0]
+                    x_min = np_min(xticks)
                 else:
-                    x_min = max(x_min, xticks[0])
+                    x_min = max(x_min, np_min(xticks))
                 if x_max is None:
-                    x_max = xticks[-1]
+                    x_max = np_max(xticks)
                 else:
-                    x_max = min(x_max, xticks[-1])
+                    x_max = min(x_max, np_max(xticks))
             else:
                 if x_min is None:
                     x_min = np_min(Xdata)
@@ -498,32 +515,30 @@ def plot_3D_Data(
                     x_max = min(x_max, np_max(Xdata))
             if len(yticks) > 1:
                 if y_min is None:
-                    if (
-                        axes_list[1].name == "wavenumber"
-                        or axes_list[1].corr_name == "wavenumber"
-                    ):
-                        y_min = max(yticks[0], -100)
+                    if y_axis.name == "wavenumber":
+                        y_min = max(np_min(yticks), -100)
                     else:
-                        y_min = 0
+                        y_min = min(np_min(yticks), 0)
                 else:
-                    y_min = max(y_min, yticks[0])
+                    y_min = max(y_min, np_min(yticks))
                 if y_max is None:
-                    if (
-                        axes_list[1].name == "wavenumber"
-                        or axes_list[1].corr_name == "wavenumber"
-                    ):
-                        y_max = min(yticks[-1], 100)
+                    if y_axis.name == "wavenumber":
+                        y_max = min(np_max(yticks), 100)
                     else:
-                        y_max = yticks[-1]
+                        y_max = np_max(yticks)
                 else:
-                    y_max = min(y_max, yticks[-1])
+                    y_max = min(y_max, np_max(yticks))
             else:
                 if y_min is None:
-                    y_min = max(np_min(Ydata), -100)
+                    y_min = np_min(Ydata)
+                    if y_axis.name == "wavenumber":
+                        y_min = max(y_min, -100)
                 else:
                     y_min = max(y_min, np_min(Ydata))
                 if y_max is None:
-                    y_max = min(np_max(Ydata), 100)
+                    y_max = np_max(Ydata)
+                    if y_axis.name == "wavenumber":
+                        y_max = min(y_max, 100)
                 else:
                     y_max = min(y_max, np_max(Ydata))
         else:
@@ -536,25 +551,27 @@ def plot_3D_Data(
             if y_max is None:
                 y_max = np_max(Ydata)
 
-        x_min = x_min - x_max * 0.05
-        x_max = x_max * 1.05
-        y_min = y_min - y_max * 0.2
-        y_max = y_max * 1.2
+        x_min = x_min - abs(x_max) * 0.05
+        x_max = x_max + abs(x_max) * 0.05
+        y_min = y_min - abs(y_max) * 0.2
+        y_max = y_max + abs(y_max) * 0.2
 
         if len(xticks) == 0 or (
             logical_and(xticks > x_min, xticks < x_max).sum() > 20
-            and not axes_list[list(result.keys()).index(axes_names[0])].is_components
+            and not x_axis.is_components
         ):
             xticks = None
         if len(yticks) == 0 or (
             logical_and(yticks > y_min, yticks < y_max).sum() > 20
-            and not axes_list[list(result.keys()).index(axes_names[1])].is_components
+            and not y_axis.is_components
         ):
             yticks = None
 
         if not is_auto_ticks:
-            xticks = None
-            yticks = None
+            if not x_axis.is_components:
+                xticks = None
+            if not y_axis.is_components:
+                yticks = None
         if is_2D_view:
             if type_plot is None:
                 type_plot = "scatter"
@@ -649,22 +666,17 @@ def plot_3D_Data(
             if type_plot is None:
                 type_plot = "pcolor"
             if is_shading_flat and type_plot == "pcolormesh":
-                # 0.5 offset
+                # Show the whole cells
                 if 0 in flat_indices:
-                    Xdata = Xdata - 0.5
                     x_min -= 0.5
-                    x_max -= 0.5
+                    x_max += 0.5
                 if 1 in flat_indices:
-                    Ydata = Ydata - 0.5
                     y_min -= 0.5
-                    y_max -= 0.5
-                Ydata, Xdata = meshgrid(Ydata, Xdata)
-            if type_plot == "pcolor":
-                Zdata = Zdata.T
+                    y_max += 0.5
             plot_3D(
                 Xdata,
                 Ydata,
-                Zdata,
+                Zdata.T,
                 x_min=x_min,
                 x_max=x_max,
                 y_min=y_min,
@@ -715,6 +727,7 @@ def plot_3D_Data(
                 xlabel=xlabel,
                 ylabel=ylabel,
                 zlabel=zlabel,
+                xticks=xticks,
                 yticks=yticks,
                 xticklabels=xticklabels,
                 yticklabels=yticklabels,
-- 
2.43.0


From 946595719f122900b45574b2cde91d2b9dbd931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:02 +0000
Subject: [PATCH 38/47] fix: arrows, options and file names of vector field
 plots

Quiver plots read degrees as radians, failed for a single angle, repeated the
first period of converted components and stated seconds for any time unit.
Plots by component dropped the line widths and the window title, and built wrong
file names when the path contains several dots.
---
 .../Methods/VectorField/plot_2D_Data.py       | 122 ++++++++++--------
 .../Methods/VectorField/plot_3D_Data.py       |   8 +-
 2 files changed, 72 insertions(+), 58 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data.py b/SciDataTool/Methods/VectorField/plot_2D_Data.py
index 3a13017..662d46d 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data.py
@@ -1,14 +1,56 @@
-from numpy import column_stack, array, exp, real, squeeze, array2string
+from os.path import splitext
+
+from numpy import (
+    arctan2,
+    array,
+    array2string,
+    atleast_1d,
+    column_stack,
+    exp,
+    real,
+    squeeze,
+)
 from SciDataTool.Functions.Plot.plot_2D import plot_2D
 from SciDataTool.Functions.conversions import (
+    convert,
     rphiz_to_xyz,
-    xyz_to_rphiz,
     rphiz_to_xyz_field,
 )
-from SciDataTool.Functions.Plot import REV_COMP_DICT
+from SciDataTool.Functions.Plot import REV_COMP_DICT, get_axis_unit
 from SciDataTool.Functions.Load.import_class import import_class
 
 
+def _get_positions(result, radius):
+    """Returns the positions of the arrows in a quiver plot
+
+    Parameters
+    ----------
+    result : dict
+        Dict of the extracted field
+    radius : float
+        radius used if the field is given along "angle" axis
+
+    Returns
+    -------
+    Xdatas, phi : ndarray, ndarray
+        Cartesian coordinates and angles [rad] of the arrows
+    """
+
+    if "x" in result and "y" in result:
+        Xdatas = column_stack((result["x"], result["y"]))
+        phi = arctan2(result["y"], result["x"])
+    else:
+        if radius is None:
+            radius = 1
+        phi = atleast_1d(result["angle"])
+        for axis in result["axes_list"]:
+            if axis.name == "angle" and get_axis_unit(axis) == "°":
+                phi = convert(phi, "°", "rad")
+        Xdatas = rphiz_to_xyz(column_stack((array([radius] * len(phi)), phi)))
+
+    return Xdatas, phi
+
+
 def plot_2D_Data(
     self,
     *arg_list,
@@ -139,38 +181,21 @@ def plot_2D_Data(
                 unit=unit,
                 is_norm=is_norm,
             )
-
-            if "x" in result and "y" in result:
-                Xdatas = column_stack((result["x"], result["y"]))
-            else:
-                if radius is None:
-                    radius = 1
-                phi = result["angle"]
-                rphi = column_stack((array([radius] * len(phi)), phi))
-                Xdatas = rphiz_to_xyz(rphi)
-
+            Xdatas, _ = _get_positions(result, radius)
             Ydatas = column_stack(
                 (squeeze(result["comp_x"]), squeeze(result["comp_y"]))
             )
         else:
             title = REV_COMP_DICT[component_list[0]].capitalize() + " " + self.name
             if component_list[0] in ["comp_x", "comp_y"]:
-                vecfield = self.to_xyz()
-                result = vecfield.components[component_list[0]].get_along(
+                result = self.get_xyz_along(
                     arg_list,
                     axis_data=axis_data,
                     unit=unit,
                     is_norm=is_norm,
                 )
-                if "x" in result and "y" in result:
-                    Xdatas = column_stack((result["x"], result["y"]))
-                else:
-                    if radius is None:
-                        radius = 1
-                    phi = result["angle"]
-                    rphi = column_stack((array([radius] * len(phi)), phi))
-                    Xdatas = rphiz_to_xyz(rphi)
-                Y_comp = result[vecfield.components[component_list[0]].symbol]
+                Xdatas, _ = _get_positions(result, radius)
+                Y_comp = atleast_1d(result[component_list[0]])
                 if component_list[0] == "comp_x":
                     Y_comp[Xdatas[:, 0] < 0] = -Y_comp[Xdatas[:, 0] < 0]
                     Ydatas = column_stack((Y_comp, 0 * Y_comp, 0 * Y_comp))
@@ -178,42 +203,24 @@ def plot_2D_Data(
                     Y_comp[Xdatas[:, 1] < 0] = -Y_comp[Xdatas[:, 1] < 0]
                     Ydatas = column_stack((0 * Y_comp, Y_comp, 0 * Y_comp))
             else:
-                vecfield = self.to_rphiz()
-                result = vecfield.components[component_list[0]].get_along(
+                result = self.get_rphiz_along(
                     arg_list,
                     axis_data=axis_data,
                     unit=unit,
                     is_norm=is_norm,
                 )
-                Y_comp = result[vecfield.components[component_list[0]].symbol]
-
-                if "x" in result and "y" in result:
-                    Xdatas = column_stack((result["x"], result["y"]))
-                    rphiz = xyz_to_rphiz(Xdatas)
-
-                    if component_list[0] == "radial":
-                        Y_3d = column_stack((Y_comp, 0 * Y_comp, 0 * Y_comp))
-                    else:
-                        Y_3d = column_stack((0 * Y_comp, Y_comp, 0 * Y_comp))
-
-                    Ydatas = rphiz_to_xyz_field(Y_3d, rphiz[:, 1])
-
+                Xdatas, phi = _get_positions(result, radius)
+                Y_comp = atleast_1d(result[component_list[0]])
+                if component_list[0] == "radial":
+                    Y_3d = column_stack((Y_comp, 0 * Y_comp, 0 * Y_comp))
                 else:
-                    if radius is None:
-                        radius = 1
-                    phi = result["angle"]
-                    rphi = column_stack((array([radius] * len(phi)), phi))
-                    Xdatas = rphiz_to_xyz(rphi)
-                    if component_list[0] == "radial":
-                        Y_3d = column_stack((Y_comp, 0 * Y_comp, 0 * Y_comp))
-                    else:
-                        Y_3d = column_stack((0 * Y_comp, Y_comp, 0 * Y_comp))
-
-                    Ydatas = rphiz_to_xyz_field(Y_3d, phi)
+                    Y_3d = column_stack((0 * Y_comp, Y_comp, 0 * Y_comp))
+                Ydatas = rphiz_to_xyz_field(Y_3d, phi)
 
         Ydatas = real(Ydatas * exp(1j * phase))
 
         title2 = " for "
+        units = {axis.name: get_axis_unit(axis) for axis in result["axes_list"]}
         if "time" in result:
             if isinstance(result["time"], str):
                 time_str = result["time"]
@@ -224,7 +231,9 @@ def plot_2D_Data(
             title2 += (
                 "time="
                 + time_str.replace(" ", ", ").replace("[", "").replace("]", "")
-                + "[s]"
+                + "["
+                + units["time"]
+                + "]"
             )
         elif "freqs" in result:
             title2 += (
@@ -235,7 +244,9 @@ def plot_2D_Data(
                 .replace(" ", ", ")
                 .replace("[", "")
                 .replace("]", "")
-                + "[Hz]"
+                + "["
+                + units["freqs"]
+                + "]"
             )
 
         title3 = ""
@@ -308,9 +319,8 @@ def plot_2D_Data(
             # (fig, axes, patch_leg, label_leg) = init_fig(None, shape="rectangle")
 
             if save_path is not None and len(component_list) > 1:
-                save_path_comp = (
-                    save_path.split(".")[0] + "_" + comp + "." + save_path.split(".")[1]
-                )
+                root, ext = splitext(save_path)
+                save_path_comp = root + "_" + comp + ext
             else:
                 save_path_comp = save_path
 
@@ -323,6 +333,7 @@ def plot_2D_Data(
                 legend_list=legend_list,
                 linestyles=linestyles,
                 color_list=color_list,
+                linewidth_list=linewidth_list,
                 save_path=save_path_comp,
                 x_min=x_min,
                 x_max=x_max,
@@ -340,6 +351,7 @@ def plot_2D_Data(
                 type_plot=type_plot,
                 fund_harm_dict=fund_harm_dict,
                 is_show_fig=is_show_fig,
+                win_title=win_title,
                 thresh=thresh,
                 font_name=font_name,
                 font_size_title=font_size_title,
diff --git a/SciDataTool/Methods/VectorField/plot_3D_Data.py b/SciDataTool/Methods/VectorField/plot_3D_Data.py
index c610ded..373551b 100644
--- a/SciDataTool/Methods/VectorField/plot_3D_Data.py
+++ b/SciDataTool/Methods/VectorField/plot_3D_Data.py
@@ -1,3 +1,6 @@
+from os.path import splitext
+
+
 def plot_3D_Data(
     self,
     *arg_list,
@@ -95,9 +98,8 @@ def plot_3D_Data(
     for i, comp in enumerate(component_list):
 
         if save_path is not None and len(component_list) > 1:
-            save_path_comp = (
-                save_path.split(".")[0] + "_" + comp + "." + save_path.split(".")[1]
-            )
+            root, ext = splitext(save_path)
+            save_path_comp = root + "_" + comp + ext
         else:
             save_path_comp = save_path
 
-- 
2.43.0


From a2ce3e19ec202778be1123a8fd765488bec43d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:23 +0000
Subject: [PATCH 39/47] fix: unit of the slice in the title of 2D plots

The title gave the coordinate of a sliced axis without its unit, unless the unit
was part of the request.
---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 3559f47..a8e86f1 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -291,7 +291,7 @@ def plot_2D_Data(
                     xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
                 main_axis_name = name
         else:
-            if axis.corr_unit == "SI":
+            if axis.unit == "SI":
                 axis_unit = get_axis_unit(axis)
             elif axis.corr_unit in norm_dict and axis.corr_unit != "Hz":
                 axis_unit = norm_dict[axis.corr_unit]
-- 
2.43.0


From 8672f25da19a6867f505a0565c0583583104c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:23 +0000
Subject: [PATCH 40/47] fix: pictures of animated plots

Animations failed when the animated axis is named without a period or a unit,
drew a wrong number of pictures because of rounding, and took the first request
of a vector field as a title. Files of components were misnamed when the path
contains several dots.
---
 .../Methods/DataND/plot_2D_Data_Animated.py   | 41 +++++++++---------
 .../Methods/DataND/plot_3D_Data_Animated.py   | 42 ++++++++++---------
 .../VectorField/plot_2D_Data_Animated.py      | 37 +++++++++-------
 3 files changed, 66 insertions(+), 54 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py b/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
index 2a6f644..ab6c10e 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
@@ -1,5 +1,5 @@
 import matplotlib.pyplot as plt
-from numpy import arange, nanmax, nanmin, frombuffer
+from numpy import linspace, nanmax, nanmin, frombuffer
 import imageio
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict, PARAM_3D
 
@@ -28,32 +28,36 @@ def plot_2D_Data_Animated(
         if param in plot_options:
             del plot_options[param]
 
+    # Splitting the name and the unit of the animated axis
+    animated_axis_name = animated_axis.split("{")[0].split("[")[0]
+    animated_axis_unit = ""
+    if "{" in animated_axis:
+        animated_axis_unit = "{" + animated_axis.split("{")[1]
+
     # Detecting if animated axis is a DataPattern, if true changing the input given to the function
     for ax_obj in self.get_axes():
         if (
-            ax_obj.name == animated_axis.split("[")[0]
-            or animated_axis.split("[")[0] in fft_dict
-            and fft_dict[animated_axis.split("[")[0]] == ax_obj.name
-            or animated_axis.split("[")[0] in ifft_dict
-            and ifft_dict[animated_axis.split("[")[0]] == ax_obj.name
+            ax_obj.name == animated_axis_name
+            or animated_axis_name in fft_dict
+            and fft_dict[animated_axis_name] == ax_obj.name
+            or animated_axis_name in ifft_dict
+            and ifft_dict[animated_axis_name] == ax_obj.name
         ):
             animated_axis_obj = ax_obj
             break
 
     if isinstance(animated_axis_obj, DataPattern):
         # Removing "[one_period]" as it is not available with a DataPattern
-        animated_axis_unit = "{" + animated_axis.split("{")[1]
-        animated_axis = animated_axis.split("[")[0] + animated_axis_unit
+        animated_axis = animated_axis_name + animated_axis_unit
 
     if "freqs" in param_list or "wavenumber" in param_list:
         result = self.get_magnitude_along(
-            animated_axis, *param_list, unit=param_dict["unit"]
+            animated_axis, *param_list, unit=param_dict.get("unit", "SI")
         )
     else:
-        result = self.get_along(animated_axis, *param_list, unit=param_dict["unit"])
-
-    animated_axis_unit = "{" + animated_axis.split("{")[1]
-    animated_axis = animated_axis.split("{")[0].split("[")[0]
+        result = self.get_along(
+            animated_axis, *param_list, unit=param_dict.get("unit", "SI")
+        )
 
     # Creating a list of frames that will need to create the animation
     if isinstance(animated_axis_obj, DataPattern):
@@ -63,15 +67,14 @@ def plot_2D_Data_Animated(
         ]
         fps = 1
     else:
-        value_max = nanmax(result[animated_axis])
-        value_min = nanmin(result[animated_axis])
-        variation_step = (value_max - value_min) / nb_frames
+        value_max = nanmax(result[animated_axis_name])
+        value_min = nanmin(result[animated_axis_name])
 
-        frames_list = arange(start=value_min, stop=value_max, step=variation_step)
+        frames_list = linspace(value_min, value_max, nb_frames, endpoint=False)
         frames_list = ["=" + str(frame) for frame in frames_list]
 
     # detecting if we are animating a regular plot (=> computing limit for y) or a "fft" plot (=> limit already set)
-    if plot_options["y_min"] == None or plot_options["y_max"] == None:
+    if plot_options.get("y_min") is None or plot_options.get("y_max") is None:
         # Setting the options of the plot
         y_max = nanmax(result[self.symbol])
         y_min = nanmin(result[self.symbol])
@@ -91,7 +94,7 @@ def plot_2D_Data_Animated(
     for val in frames_list:
         # plotting image
         self.plot_2D_Data(
-            *param_list, animated_axis + val + animated_axis_unit, **plot_options
+            *param_list, animated_axis_name + val + animated_axis_unit, **plot_options
         )
         # Getting the figure generated with plot_2D_DATA
         fig = plt.gcf()
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py b/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
index f138dea..214015a 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
@@ -1,7 +1,7 @@
 import matplotlib.pyplot as plt
-from numpy import arange, nanmax, nanmin, frombuffer
+from numpy import linspace, nanmax, nanmin, frombuffer
 import imageio
-from ...Functions.Plot import ifft_dict, PARAM_2D
+from ...Functions.Plot import fft_dict, ifft_dict, PARAM_2D
 
 
 def plot_3D_Data_Animated(
@@ -29,30 +29,33 @@ def plot_3D_Data_Animated(
         if param in plot_options:
             del plot_options[param]
 
+    # Splitting the name and the unit of the animated axis
+    animated_axis_name = animated_axis.split("{")[0].split("[")[0]
+    animated_axis_unit = ""
+    if "{" in animated_axis:
+        animated_axis_unit = "{" + animated_axis.split("{")[1]
+
     # Detecting if animated axis is a DataPattern, if true changing the input given to the function
     for ax_obj in self.get_axes():
-        if ax_obj.name in ifft_dict:
-            if ifft_dict[ax_obj.name] == animated_axis.split("[")[0]:
-                animated_axis_obj = ax_obj
-                break
-        else:
-            if ax_obj.name == animated_axis.split("[")[0]:
-                animated_axis_obj = ax_obj
-                break
+        if (
+            ax_obj.name == animated_axis_name
+            or animated_axis_name in fft_dict
+            and fft_dict[animated_axis_name] == ax_obj.name
+            or animated_axis_name in ifft_dict
+            and ifft_dict[animated_axis_name] == ax_obj.name
+        ):
+            animated_axis_obj = ax_obj
+            break
 
     if isinstance(animated_axis_obj, DataPattern):
         # Removing one_period as it is not available with a DataPattern
-        animated_axis_unit = "{" + animated_axis.split("{")[1]
-        animated_axis = animated_axis.split("[")[0] + animated_axis_unit
+        animated_axis = animated_axis_name + animated_axis_unit
 
     if "freqs" in param_list or "wavenumber" in param_list:
         result = self.get_magnitude_along(animated_axis, *param_list)
     else:
         result = self.get_along(animated_axis, *param_list)
 
-    animated_axis_unit = "{" + animated_axis.split("{")[1]
-    animated_axis = animated_axis.split("{")[0].split("[")[0]
-
     # Creating a list of frames that will need to create the animation
     if isinstance(animated_axis_obj, DataPattern):
         frames_list = animated_axis_obj.get_values()
@@ -61,11 +64,10 @@ def plot_3D_Data_Animated(
         ]
         fps = 1
     else:
-        value_max = nanmax(result[animated_axis])
-        value_min = nanmin(result[animated_axis])
-        variation_step = (value_max - value_min) / nb_frames
+        value_max = nanmax(result[animated_axis_name])
+        value_min = nanmin(result[animated_axis_name])
 
-        frames_list = arange(start=value_min, stop=value_max, step=variation_step)
+        frames_list = linspace(value_min, value_max, nb_frames, endpoint=False)
         frames_list = ["=" + str(frame) for frame in frames_list]
 
     plot_options["is_show_fig"] = False
@@ -78,7 +80,7 @@ def plot_3D_Data_Animated(
     for val in frames_list:
         # plotting image
         self.plot_3D_Data(
-            *param_list, animated_axis + val + animated_axis_unit, **plot_options
+            *param_list, animated_axis_name + val + animated_axis_unit, **plot_options
         )
         # Getting the figure generated with plot_2D_DATA
         fig = plt.gcf()
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
index 27d1bb6..00529f8 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
@@ -1,4 +1,5 @@
 from copy import copy
+from os.path import splitext
 import numpy as np
 import imageio
 import matplotlib.pyplot as plt
@@ -134,14 +135,18 @@ def plot_2D_Data_Animated(
 
         # definition of the step along animated axis
         result = self.get_rphiz_along(animated_axis)
-        animated_axis_name = animated_axis.split("[")[0]
+        animated_axis_name = animated_axis.split("{")[0].split("[")[0]
+        animated_axis_unit = ""
+        if "{" in animated_axis:
+            animated_axis_unit = "{" + animated_axis.split("{")[1]
         animated_values = result[animated_axis_name]
         value_max = np.nanmax(animated_values)
         value_min = np.nanmin(animated_values)
-        variation_step = (value_max - value_min) / nb_frames
 
         # Getting the name of the gif
         save_path_gif = save_path.replace(".png", ".gif")
+        if fig is None:
+            fig, ax, _, _ = init_fig()
         fig.suptitle(None)
         # Copy_fig make a deep copy so that the machine plot is conserved
         deepcopy_fig = copy_fig(fig)
@@ -150,27 +155,24 @@ def plot_2D_Data_Animated(
         save_path = None
         is_show_fig = False
 
-        # for value in animated_values:
-        while value_min < value_max - variation_step:
+        for value in np.linspace(value_min, value_max, nb_frames, endpoint=False):
 
             # Select a frequency and make it rotate by playing on the phase
             if "freqs" in arg_list[0]:
                 arg_list0 = arg_list
-                step = (value_min / variation_step) / nb_frames
-                phase = 2 * np.pi * step
+                phase = 2 * np.pi * value / (value_max - value_min)
 
             # or directly select an instant/element in the animated axis
             else:
+                arg_value = animated_axis_name + "=" + str(value) + animated_axis_unit
                 if animated_axis_name in arg_list:
                     arg_listx = list(arg_list)
                     ind_ax = arg_listx.index(animated_axis_name)
                     arg_listx.pop(ind_ax)
-                    arg_list0 = (animated_axis_name + "=" + str(value_min),) + tuple(
-                        arg_listx
-                    )
+                    arg_list0 = (arg_value,) + tuple(arg_listx)
                     phase = 0
                 else:
-                    arg_list0 = (animated_axis_name + "=" + str(value_min),) + arg_list
+                    arg_list0 = (arg_value,) + arg_list
                     phase = 0
 
             # Call to plot_2D_Data of VectorField class, which manage the quiver case
@@ -229,6 +231,8 @@ def plot_2D_Data_Animated(
             images.append(image)
 
             # Fig and ax reset to default for background
+            if len(images) > 1:
+                plt.close(fig)
             fig, ax, _, _ = init_fig()
             deepcopy_ax = deepcopy_fig.axes[0]
             for patch in deepcopy_ax.patches:
@@ -243,8 +247,6 @@ def plot_2D_Data_Animated(
             ax.set_ylabel(deepcopy_ax.get_ylabel())
             ax.set_title(deepcopy_ax.get_title())
             fig.suptitle(None)
-            # While condition incrementation
-            value_min += variation_step
 
         # Creating the gif
         plt.close(fig)
@@ -259,14 +261,14 @@ def plot_2D_Data_Animated(
             # (fig, axes, patch_leg, label_leg) = init_fig(None, shape="rectangle")
 
             if save_path is not None and len(component_list) > 1:
-                save_path_comp = (
-                    save_path.split(".")[0] + "_" + comp + "." + save_path.split(".")[1]
-                )
+                root, ext = splitext(save_path)
+                save_path_comp = root + "_" + comp + ext
             else:
                 save_path_comp = save_path
 
             self.components[comp].plot_2D_Data_Animated(
                 animated_axis,
+                "",
                 *arg_list,
                 nb_frames=nb_frames,
                 fps=fps,
@@ -276,6 +278,8 @@ def plot_2D_Data_Animated(
                 data_list=[dat.components[comp] for dat in data_list],
                 legend_list=legend_list,
                 color_list=color_list,
+                linestyles=linestyles,
+                linewidth_list=linewidth_list,
                 save_path=save_path_comp,
                 x_min=x_min,
                 x_max=x_max,
@@ -298,4 +302,7 @@ def plot_2D_Data_Animated(
                 font_size_title=font_size_title,
                 font_size_label=font_size_label,
                 font_size_legend=font_size_legend,
+                is_show_legend=is_show_legend,
+                is_outside_legend=is_outside_legend,
+                is_frame_legend=is_frame_legend,
             )
-- 
2.43.0


From 76c2729557d7c5649ba0b38f7dfc32e84b9d380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:22 +0000
Subject: [PATCH 41/47] fix: Fourier transforms of axes away from zero or
 unevenly sampled

Phases are referred to the origin of the axis wherever it starts.
Requested lines off the regular ones are summed on the actual positions,
after the regular axes, with one-sided scaling for real fields only.
Spectra are read back at the positions asked for.
---
 SciDataTool/Functions/fft_functions.py   | 129 +++++++++++++++--------
 SciDataTool/Functions/nudft_functions.py |   7 +-
 2 files changed, 90 insertions(+), 46 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 65ab312..0b27ff6 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -27,6 +27,7 @@ from numpy.fft import (
 )
 
 
+from SciDataTool.Functions import UnitError
 from SciDataTool.Functions.nudft_functions import is_uniform, nudftn, inudftn
 from SciDataTool.Functions.Plot import fft_dict
 
@@ -198,6 +199,38 @@ def comp_nthoctave_axis(noct, freqmin, freqmax):
 #     return values_FT
 
 
+def comp_input_freqs(axis):
+    """Computes the frequencies of the lines requested by the user
+    Parameters
+    ----------
+    axis: RequestedAxis
+        axis to which Fourier Transform is applied
+    Returns
+    -------
+    Requested frequencies (None if there are none or if they are normalized),
+    boolean indicating if they belong to the lines of the Fourier Transform
+    """
+    from SciDataTool.Functions.conversions import convert
+
+    if axis.input_data is None:
+        return None, True
+    frequencies, lines = axis.input_data, axis.values
+    if axis.unit not in ["SI", axis.corr_unit]:
+        try:
+            frequencies = convert(frequencies, axis.unit, axis.corr_unit)
+            lines = convert(lines, axis.unit, axis.corr_unit)
+        except UnitError:
+            return None, True
+    decimals = 0 if len(frequencies) == 1 else 5
+    is_on_grid = isin(
+        around(frequencies, decimals=decimals), around(lines, decimals=decimals)
+    ).all()
+    # Convert wavenumbers to frequencies if needed
+    if axis.name == "wavenumber":
+        frequencies = frequencies / (2 * pi)
+    return frequencies, is_on_grid
+
+
 def comp_fftn(values, axes_list, is_real=True):
     """Computes the Fourier Transform
     Parameters
@@ -217,52 +250,24 @@ def comp_fftn(values, axes_list, is_real=True):
     axis_names = [axis.name for axis in axes_list]
 
     # Check if one or several axes is non-uniform
-    is_non_uniform = False
+    axes_one_sided = []
     for axis in axes_list:
         if axis.transform == "fft":
-            if axis.corr_values is not None and len(axis.corr_values) > 1:  # Timesteps
-                if not is_uniform(axis.corr_values):
-                    is_non_uniform = True
-                    axes_dict_non_uniform[axis.index] = [
-                        axis.corr_values,
-                        axis.input_data,
-                    ]
-                    # Keep only interpolation data
-                    axis.values = axis.input_data
-                    axis.input_data = None
-                    continue
-            if axis.input_data is not None and axis.unit in ["SI", axis.corr_unit]:
-                if (
-                    len(axis.input_data) == 1
-                    and not isin(
-                        around(axis.input_data, decimals=0),
-                        around(axis.values, decimals=0),
-                    ).all()
-                ) or (
-                    len(axis.input_data) > 1
-                    and not isin(
-                        around(axis.input_data, decimals=5),
-                        around(axis.values, decimals=5),
-                    ).all()
-                ):
-                    is_non_uniform = True
-                    # Convert wavenumbers to frequencies if needed
-                    frequencies = (
-                        axis.input_data
-                        if axis.name == "freqs"
-                        else axis.input_data / (2 * pi)
-                    )
-                    axes_dict_non_uniform[axis.index] = [
-                        axis.corr_values,
-                        frequencies,
-                    ]
-                    # Keep only interpolation data
-                    axis.values = axis.input_data
-                    axis.input_data = None
-
-    # Apply DFT on non-uniform axes
-    if is_non_uniform:
-        values = nudftn(values, axes_dict=axes_dict_non_uniform)
+            frequencies, is_on_grid = comp_input_freqs(axis)
+            is_regular = (
+                axis.operation is None
+                or len(axis.corr_values) == 1
+                or is_uniform(axis.corr_values - axis.corr_values[0])
+            )
+            if is_regular and (frequencies is None or is_on_grid):
+                continue
+            axes_dict_non_uniform[axis.index] = [axis.corr_values, frequencies]
+            # Lines of real signals contain the negative ones
+            if is_real and (axis.name == "freqs" or "freqs" not in axis_names):
+                axes_one_sided.append(axis.index)
+            # Keep only interpolation data
+            axis.values = axis.input_data
+            axis.input_data = None
 
     # Find other fft axes
     for axis in axes_list:
@@ -273,6 +278,10 @@ def comp_fftn(values, axes_list, is_real=True):
                 wavenumbers = arange(N) - N // 2
                 if axis.indices is not None:
                     wavenumbers = wavenumbers[axis.indices]
+                elif axis.input_data is not None:
+                    frequencies, _ = comp_input_freqs(axis)
+                    if frequencies is not None:
+                        wavenumbers = frequencies
                 if is_real and axis.name == "freqs":
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
@@ -313,8 +322,31 @@ def comp_fftn(values, axes_list, is_real=True):
         else:
             values_FT = fftn(values, axes=axes)
             values_FT2 = fftshift(values_FT, axes=axes) / size
+        # Phases are defined at the origin of the axis
+        for axis in axes_list:
+            if (
+                axis.index in axes
+                and axis.operation is not None
+                and len(axis.corr_values) > 1
+                and axis.corr_values[0] != 0
+            ):
+                N = len(axis.corr_values)
+                step = axis.corr_values[1] - axis.corr_values[0]
+                if is_onereal and axis.index == axes[-1]:
+                    lines = arange(N // 2 + 1)
+                else:
+                    lines = arange(N) - N // 2
+                phases = exp(-2j * pi * lines * axis.corr_values[0] / (N * step))
+                shape = [1] * values_FT2.ndim
+                shape[axis.index] = -1
+                values_FT2 = values_FT2 * phases.reshape(shape)
     else:
         values_FT2 = values
+    # Apply DFT on non-uniform axes
+    if axes_dict_non_uniform:
+        values_FT2 = nudftn(
+            values_FT2, axes_dict=axes_dict_non_uniform, axes_one_sided=axes_one_sided
+        )
     return values_FT2
 
 
@@ -398,10 +430,19 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                             freqs = [
                                 f * axis_obj.symmetries["antiperiod"] / 2 for f in freqs
                             ]
+                    # Instants or positions given by the inverse FFT
+                    positions = comp_fft_time(
+                        axis.corr_values, axis.name != "time", is_real
+                    )
                     # If already one non uniform axis, use NUDFT
                     if (
                         axes_dict_non_uniform
                         or len(axis.corr_values) == 1
+                        or not isclose(
+                            array(axis.input_data)[:, None], positions, rtol=1e-5
+                        )
+                        .any(axis=1)
+                        .all()
                         or (
                             len(axis.corr_values) > 1
                             and (
diff --git a/SciDataTool/Functions/nudft_functions.py b/SciDataTool/Functions/nudft_functions.py
index 938a387..fe98e64 100644
--- a/SciDataTool/Functions/nudft_functions.py
+++ b/SciDataTool/Functions/nudft_functions.py
@@ -17,7 +17,9 @@ def matrice_D(t: ndarray, f: ndarray) -> ndarray:
     return exp(-1j * outer(f * 2 * pi, t))
 
 
-def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
+def nudftn(
+    a: ndarray, axes_dict: Dict[int, List[ndarray]], axes_one_sided: List[int] = None
+) -> ndarray:
     """
     Compute the non uniform discrete Fourier Transform
 
@@ -26,6 +28,7 @@ def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
 
     a: Input data
     axes_dict: Axes to perform dft with corresponding space and freqsampling
+    axes_one_sided: Axes on which positive lines contain negative ones (all by default)
 
     Returns
     res: DFT result
@@ -62,7 +65,7 @@ def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
             res /= len(s)
 
             # Check if every frequency is >=0 (rfft equivalent)
-            if np_all(f >= 0):
+            if np_all(f >= 0) and (axes_one_sided is None or idx_axe in axes_one_sided):
                 idx = where(f != 0)
                 slice_list = tuple(
                     slice(None) if i != idx_axe else idx[0] for i in range(res.ndim)
-- 
2.43.0


From e8b017d626f933e2a58888169cfaafab76d368d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:22 +0000
Subject: [PATCH 42/47] fix: leakage filtering of complex fields, odd counts
 and other axis orders

Amplitudes keep their phase when time does not start at zero.
Slices are no longer mixed when wavenumbers are mirrored.
Fields with more than three axes and a single constant line are accepted.
---
 .../Functions/filter_spectral_leakage.py      | 20 +++----
 .../Methods/DataND/filter_spectral_leakage.py | 60 +++++++++++--------
 2 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/SciDataTool/Functions/filter_spectral_leakage.py b/SciDataTool/Functions/filter_spectral_leakage.py
index 20df35c..732af2d 100644
--- a/SciDataTool/Functions/filter_spectral_leakage.py
+++ b/SciDataTool/Functions/filter_spectral_leakage.py
@@ -59,8 +59,7 @@ def filter_spectral_leakage(
 
         # Check frequency resolution
         df_fft = np.min(np.abs(np.diff(freqs)))
-        df_th = np.min(np.abs(np.diff(freqs_th)))
-        if df_th < df_fft:
+        if freqs_th.size > 1 and np.min(np.abs(np.diff(freqs_th))) < df_fft:
             print(
                 "FFT frequency resolution lower than theoretical frequency resolution, spectral leakage filtering maybe inaccurate"
             )
@@ -101,9 +100,8 @@ def filter_spectral_leakage(
     # Check that spectrum is either 1D or 3D
     if spectrum.ndim > 2:
         # Reshape into 2D matrix
-        Nangle = spectrum.shape[1]
-        Nslice = spectrum.shape[2]
-        spectrum = np.reshape(spectrum, (spectrum.shape[0], Nangle * Nslice))
+        other_shape = spectrum.shape[1:]
+        spectrum = np.reshape(spectrum, (spectrum.shape[0], -1))
         is_3D = True
     else:
         # Add 3rd dimension and squeeze after filtering
@@ -113,14 +111,10 @@ def filter_spectral_leakage(
     spectrum_filt = np_lin.solve(Wmatf, spectrum[If, ...])
 
     if is_3D:
-        if Nslice > 1:
-            # Reshape to initial 3D shape
-            spectrum_filt = np.reshape(
-                spectrum_filt, (spectrum_filt.shape[0], Nangle, Nslice)
-            )
-        else:
-            # Expand to 3D if requested
-            spectrum_filt = spectrum_filt[:, :, None]
+        # Reshape to initial shape
+        spectrum_filt = np.reshape(
+            spectrum_filt, (spectrum_filt.shape[0],) + other_shape
+        )
 
     if is_freq_pos:
         # Keep only positive frequencies
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 30a2416..4ac0bbb 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -58,10 +58,17 @@ def filter_spectral_leakage(
     module = __import__("SciDataTool.Classes.Data1D", fromlist=["Data1D"])
     Data1D = getattr(module, "Data1D")
 
+    # Time (or frequency) axis goes first, then angle (or wavenumber) axis
+    axes_rank = {"time": 0, "freqs": 0, "angle": 1, "wavenumber": 1}
+    axes_list = self.get_axes()
+    axes_order = sorted(
+        range(len(axes_list)), key=lambda ii: axes_rank.get(axes_list[ii].name, 2)
+    )
+    axes_list = [axes_list[ii] for ii in axes_order]
+
     if len(axes_list_filt) == 0 or len(arg_list) == 0:
         # Get fft along frequency axis (keep other axes)
         arg_list = list()  # Reinstantiate a different list
-        axes_list = self.get_axes()
         for axis in axes_list:
             if axis.name == "time":
                 arg_list.append("freqs")
@@ -77,23 +84,20 @@ def filter_spectral_leakage(
     try:
         result = self.get_along(*arg_list, is_squeeze=False)
         freqs = result["freqs"]
-        spectrum = result[self.symbol]
-
-        if Wmatf.size == 0:
-            # Get time step
-            Time = self.get_axes("time")
-            if len(Time) > 0:
-                time = Time[0].get_values()
-            else:
-                result_time = self.get_along("time")
-                time = result_time["time"]
-            dt = time[1] - time[0]
-            Nt = time.size
-        else:
-            Nt, dt = None, None
+        spectrum = np.transpose(result[self.symbol], axes_order)
     finally:
         self.is_real = is_real
 
+    # Get time step and first time instant
+    Time = self.get_axes("time")
+    if len(Time) > 0:
+        time = Time[0].get_values()
+    else:
+        time = self.get_along("time")["time"]
+    dt = time[1] - time[0]
+    Nt = time.size
+    t0 = time[0]
+
     if is_real and np.where(freqs < 0)[0].size == 0:
         # Mirror values to negative frequencies
         If0 = freqs != 0
@@ -101,13 +105,13 @@ def filter_spectral_leakage(
         spectrum[If0, ...] *= 0.5
         If0[-1] = bool(np.mod(freqs.size, 2) == 0)
         freqs = np.concatenate((-np.flip(freqs), freqs[If0]))
-        spectrum = np.concatenate(
-            (
-                np.flip(np.conj(spectrum)),
-                spectrum[If0, ...],
-            ),
-            axis=0,
-        )
+        spectrum_neg = np.flip(np.conj(spectrum), axis=0)
+        if "wavenumber" in result:
+            # Negative frequencies are conjugated at opposite wavenumbers
+            spectrum_neg = np.flip(spectrum_neg, axis=1)
+            if np.mod(result["wavenumber"].size, 2) == 0:
+                spectrum_neg = np.roll(spectrum_neg, 1, axis=1)
+        spectrum = np.concatenate((spectrum_neg, spectrum[If0, ...]), axis=0)
 
     # Restrict filtering to negative wavenumber only
     if is_real and "wavenumber" in result:
@@ -115,10 +119,16 @@ def filter_spectral_leakage(
         Irn = wavenumber <= 0
         spectrum = spectrum[:, Irn, ...]
 
+    # Refer phases to the first time instant
+    spectrum = (spectrum.T * np.exp(2j * np.pi * freqs * t0)).T
+
     spectrum_filt, freqs_th, Wmatf, If = filter_spectral_leakage_fct(
         spectrum, freqs, freqs_th, Nt, dt, is_freq_pos=False, Wmatf=Wmatf, If=If
     )
 
+    # Refer phases to the time origin
+    spectrum_filt = (spectrum_filt.T * np.exp(-2j * np.pi * freqs_th * t0)).T
+
     if is_real:
         # Multiply all components by two except zero frequency component
         spectrum_filt *= 2
@@ -135,10 +145,12 @@ def filter_spectral_leakage(
             Ifn = ~Ifp
             if freqs_th_store[0] == 0:
                 Ifn[I0] = True
+            # Lowest wavenumber has no opposite if number of wavenumbers is even
+            Ir0 = np.sum(Irn) - 1 - np.sum(~Irn)
             spectrum_filt = np.concatenate(
                 (
                     spectrum_filt[Ifp, ...],
-                    np.flip(np.conj(spectrum_filt[Ifn, 1:-1, ...])),
+                    np.flip(np.conj(spectrum_filt[Ifn, Ir0:-1, ...]), axis=(0, 1)),
                 ),
                 axis=1,
             )
@@ -188,7 +200,7 @@ def filter_spectral_leakage(
         axes=axes_list_filt,
         values=spectrum_filt,
         normalizations=self.normalizations,
-        is_real=True,
+        is_real=is_real,
     )
 
     if is_return_calc_data:
-- 
2.43.0


From 12b599617861f8e5dabfe70cd5ac966a42f1195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:22 +0000
Subject: [PATCH 43/47] fix: matching pursuit with a given dictionary or time
 stored last

The synthesis part of a given dictionary was replaced by the default one.
Signals were read along the wrong axis when time was not the first axis.
---
 SciDataTool/Functions/omp.py                | 3 +--
 SciDataTool/Methods/DataND/orthogonal_mp.py | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index d73e8c5..ea72218 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -152,6 +152,7 @@ def omp(
 
     if dictionary is None:
         dictionary_decomp = comp_dictionary(n, M)
+        dictionary_synth = comp_dictionary(n, arange(n))
     else:
         dictionary_decomp = dictionary[0]
         dictionary_synth = dictionary[1]
@@ -172,8 +173,6 @@ def omp(
             X=dictionary_decomp, y=Y, n_nonzero_coefs=n_coefs, precompute=precompute
         )
 
-    dictionary_synth = comp_dictionary(n, arange(n))
-
     Y_full = dictionary_synth @ sparse_decomposition
 
     if return_path:
diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index ab82eda..e0de109 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -42,7 +42,8 @@ def orthogonal_mp(
     n = len(Time.values)
 
     # Stack the signals into the columns of the matrix Y (n,n_targets)
-    Y = self.values
+    is_time_first = self.axes[0].name == "time"
+    Y = self.values if is_time_first else self.values.T
 
     # Compute the OMP
     Y_full = omp(Y, M, n, n_coefs=n_coefs, precompute=precompute, dictionary=dictionary)
@@ -62,8 +63,8 @@ def orthogonal_mp(
             name=self.name,
             symbol=self.symbol,
             unit=self.unit,
-            axes=[Time, Angle],
-            values=Y_full,
+            axes=[Time, Angle] if is_time_first else [Angle, Time],
+            values=Y_full if is_time_first else Y_full.T,
             is_real=self.is_real,
         )
 
-- 
2.43.0


From 4270c0c5c471e091d55bab79c415318e1fba081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:44 +0000
Subject: [PATCH 44/47] fix: scale a wavenumber given in a normalized unit like
 any other

A single positive wavenumber of a real field stands for the negative one too.
It was only counted twice when given in its own unit.
---
 SciDataTool/Functions/fft_functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 0b27ff6..017f5e4 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -16,6 +16,8 @@ from numpy import (
     where,
     isclose,
     around,
+    argmin,
+    abs as np_abs,
 )
 from numpy.fft import (
     fftshift,
@@ -282,6 +284,11 @@ def comp_fftn(values, axes_list, is_real=True):
                     frequencies, _ = comp_input_freqs(axis)
                     if frequencies is not None:
                         wavenumbers = frequencies
+                    else:
+                        # Lines closest to the normalized values
+                        wavenumbers = wavenumbers[
+                            [argmin(np_abs(axis.values - f)) for f in axis.input_data]
+                        ]
                 if is_real and axis.name == "freqs":
                     axes.append(axis.index)
                     shape.append(values.shape[axis.index])
-- 
2.43.0


From 794b38c070f533f299c7f85e1701b4cf59f6fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:44 +0000
Subject: [PATCH 45/47] fix: compare fields over the samples they share

The first and last coordinates are now the first and last samples of the
densest field in the common interval.
The widest interval is kept as it is when extrapolating.
---
 SciDataTool/Functions/interpolations.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 747669c..e3594b0 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -47,16 +47,15 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
         length2 = len([i for i in values2 if i >= initial and i <= final])
         if length1 > length2:
             number = length1
-            if initial not in values1:
-                initial = values1[argmin(np_abs([i - initial for i in values1])) + 1]
-            if final not in values1:
-                final = values1[argmin(np_abs([i - final for i in values1])) - 1]
+            values = values1
         else:
             number = length2
-            if initial not in values2:
-                initial = values2[argmin(np_abs([i - initial for i in values2])) + 1]
-            if final not in values2:
-                final = values2[argmin(np_abs([i - final for i in values2])) - 1]
+            values = values2
+        if not is_extrap and number > 0:
+            # Use first and last samples in the common interval
+            values = [i for i in values if i >= initial and i <= final]
+            initial = values[0]
+            final = values[-1]
     return linspace(initial, final, int(number), endpoint=True)
 
 
-- 
2.43.0


From 6c796676b1aa91384b7a2b6d82a860c346f61399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:44 +0000
Subject: [PATCH 46/47] fix: compute contributions for any selection of
 components

Each component is now read with the request of the plot, so a list of
components and any storage order of the axes work.
A-weighted contributions come from the weighted level of the component.
---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 86 ++++++++--------------
 1 file changed, 30 insertions(+), 56 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index a8e86f1..fcfe8f9 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -514,56 +514,32 @@ def plot_2D_Data(
         contrib_axis = self.get_axes(contribution_name)[0]
         type_plot = "stack"
         OVL = Y_overall
-        if True in ["sum" in arg for arg in arg_list_along]:
-            sum_index = ["sum" in arg for arg in arg_list_along].index(True)
-        else:
-            sum_index = ["rss" in arg for arg in arg_list_along].index(True)
-        contrib_index = None
-        if contribution_name in [axis.name for axis in axes_list]:
-            contrib_index = [axis.name for axis in axes_list].index(contribution_name)
         contrib_array = zeros((contrib_axis.get_length(), len(Y_overall)))
         for i in range(contrib_axis.get_length()):
-            if unit == "dBA":
-                arg_list_new = [
-                    axis.name
-                    if axis.name != contribution_name
-                    else contribution_name + "[" + str(i) + "]"
-                    for axis in self.get_axes()
-                ]
-                contrib = self.get_magnitude_along(*arg_list_new, unit="SI")[
+            # Request component i only
+            arg_list_new = [
+                arg for arg in arg_list_along if contribution_name not in arg
+            ]
+            arg_list_new.append(contribution_name + "[" + str(i) + "]")
+            if is_fft or "dB" in unit:
+                contrib = self.get_magnitude_along(
+                    *arg_list_new,
+                    unit="SI" if "dB" in unit else unit,
+                    axis_data=axis_data
+                )[self.symbol]
+            else:
+                contrib = self.get_along(*arg_list_new, unit=unit, axis_data=axis_data)[
                     self.symbol
                 ]
+            if unit == "dBA":
                 symbol = "AS" + self.symbol.capitalize() + "L"
                 name = "Sound " + self.name.lower().replace("acoustic ", "") + " Level"
-                A_weighting = (
-                    self.get_magnitude_along(*arg_list_new, unit="dBA")[self.symbol]
-                    - self.get_magnitude_along(*arg_list_new, unit="dB")[self.symbol]
-                )
-                if self.unit == "W":
-                    upper_sum = np_sum(
-                        10 ** (0.1 * A_weighting)
-                        * contrib
-                        / self.normalizations["ref"].ref,
-                        axis=sum_index,
-                    )
-                    cont = upper_sum / (10 ** (0.1 * OVL))
-                else:
-                    upper_sum = np_sum(
-                        10 ** (0.1 * A_weighting) * contrib ** 2, axis=sum_index
-                    )
-                    cont = upper_sum / (
-                        ((self.normalizations["ref"].ref ** 2) * 10 ** (0.1 * OVL))
-                    )
+                level = self.get_magnitude_along(
+                    *arg_list_new, unit=unit, axis_data=axis_data
+                )[self.symbol]
+                # No contribution where the component is null
+                cont = where(contrib > 0, 10 ** (0.1 * (level - OVL)), 0)
             elif unit == "dB":
-                arg_list_new = [
-                    arg
-                    if contribution_name not in arg
-                    else contribution_name + "[" + str(i) + "]"
-                    for arg in arg_list_along
-                ]
-                contrib = self.get_magnitude_along(*arg_list_new, unit="SI")[
-                    self.symbol
-                ]
                 if "acoustic" in self.name.lower():
                     symbol = "S" + self.symbol.capitalize() + "L"
                     name = (
@@ -584,9 +560,9 @@ def plot_2D_Data(
                 symbol = self.symbol
                 name = self.name
                 if self.unit == "W":
-                    cont = Ydatas[i + 1] / OVL
+                    cont = contrib / OVL
                 else:
-                    cont = Ydatas[i + 1] ** 2 / OVL ** 2
+                    cont = contrib ** 2 / OVL ** 2
             contrib_array[i, :] = cont * 100
         # Remove small contributions
         # Iloads = where(sqrt(np_sum(contrib_array ** 2, 1)) > 1e-2)[0]
@@ -595,21 +571,19 @@ def plot_2D_Data(
         Ydatas = [Ydatas[0]]
         legends = [r"100% (overall $" + symbol + "$)"]
         new_color_list = [new_color_list[0]]
+        requested = result_0.get(contribution_name)
+        if requested is None or isinstance(requested, str):
+            requested = contrib_axis.values
         for i in range(len(Isort)):
+            contrib_name = contrib_axis.values[Isort[i]]
             if (
-                contrib_index is not None
-                and axes_list[contrib_index].indices is not None
-                and "all" in selection
-            ):
-                if Isort[i] in axes_list[contrib_index].indices:
-                    Ydatas.append(contrib_array[Isort[i], :])
-                    legends.append(contrib_axis.values[Isort[i]])
-                    new_color_list.append(color_list[i % (len(color_list))])
-            elif "all" in selection or all(
-                [s in contrib_axis.values[Isort[i]] for s in selection]
+                "all" in selection
+                and contrib_name in requested
+                or "all" not in selection
+                and all([s in contrib_name for s in selection])
             ):
                 Ydatas.append(contrib_array[Isort[i], :])
-                legends.append(contrib_axis.values[Isort[i]])
+                legends.append(contrib_name)
                 new_color_list.append(color_list[i % (len(color_list))])
         sel_str = ""
         if "all" not in selection:
-- 
2.43.0


From 002c422f662d89655c0b2d8086be2afac29ba7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:08:24 +0000
Subject: [PATCH 47/47] fix: accept a request for all the indices of a numeric
 axis

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 08bd67b..68a8a0e 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -226,7 +226,9 @@ def get_axis(self, axis, is_real):
             else:
                 self.values = values
         if self.indices is not None:
-            if isinstance(self.indices[0], str):  # N largest
+            if self.indices[0] == ":":
+                self.indices = list(range(len(values)))
+            elif isinstance(self.indices[0], str):  # N largest
                 N = int(self.indices[0])
                 # Sort values
                 if hasattr(axis, "sort_indices") and axis.sort_indices is not None:
-- 
2.43.0

