From 73556f4d96ce01d730a290ba2984ac06c8787e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 001/110] fix: histogram never indexes past its last bin

With a floating point bin size (or num_bins) the bin index of data sitting on
the upper edge could come out as the number of bins, so the compiled loops read
and wrote past the end of the histogram and of the reverse indices.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 561cca7..0d7ed56 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -104,6 +104,9 @@ def get_hist(
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # Rounding must never push data inside the range past the last bin
+        if bin_i > n:
+            bin_i = n
         # Add to the histogram
         hist[bin_i] += 1
     return hist
@@ -214,6 +217,9 @@ def get_ri(
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # Rounding must never push data inside the range past the last bin
+        if bin_i > n:
+            bin_i = n
         # Record the current index and update the tracking array
         ri[tracker[bin_i]] = idx
         tracker[bin_i] += 1
-- 
2.43.0


From 3330da9a88ad84833792871d09d2a80570e0cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 002/110] fix: idl_median picks the middle element of odd
 length data

ceil(n / 2) is one past the middle for odd n, and out of bounds for n = 1.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 0d7ed56..3348bbd 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1386,7 +1386,8 @@ def idl_median(
         if even:
             return np.median(x)
         else:
-            med_index = int(np.ceil(len(x) / 2))
+            # The middle element, or the upper of the two middle ones, as IDL does
+            med_index = len(x) // 2
 
             return np.sort(x)[med_index]
 
-- 
2.43.0


From 3f88b928c64ef33db40a03901417c3b8a20802ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 003/110] fix: split even/odd weights over every time and leave
 the caller's weights alone

Only the first half of the time samples was assigned to the even and odd sets,
so the second half was dropped (everything, with two times). The split was also
done in place, so estimating the noise zeroed weights that gridding uses next.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 3348bbd..284a1df 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1241,6 +1241,8 @@ def split_vis_weights(
     if obs["n_time"] < 2:
         return vis_weights
 
+    # The caller keeps its own weights, only the split copy is changed
+    vis_weights = vis_weights.copy()
     # Get the number of baselines, should be the last in this case
     nb = vis_weights.shape[-1]
     bin_end = np.zeros(obs["n_time"], dtype=np.int64)
@@ -1249,7 +1251,7 @@ def split_vis_weights(
     )
     bin_end[-1] = int(nb - 1)
     bin_i = np.full(nb, -1, dtype=np.int64)
-    for t_i in range(obs["n_time"] // 2):
+    for t_i in range(obs["n_time"]):
         bin_i[obs["baseline_info"]["bin_offset"][t_i] : bin_end[t_i] + 1] = t_i
 
     time_start_i = int(np.min(np.nonzero(obs["baseline_info"]["time_use"])[0]))
-- 
2.43.0


From a5e7f4b45a7ffd4b968e1049b0020ffbc3f3c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 004/110] fix: w-term deprojection matches the (polarization,
 frequency, baseline) layout

The phase was built as (baseline, frequency) and tiled along the first axis, so
it could not be applied to the visibility array the pipeline passes.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 284a1df..9a79cbe 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1008,10 +1008,10 @@ def simple_deproject_w_term(
     """
 
     icomp = 1j
-    zcen = np.outer(params["ww"], obs["baseline_info"]["freq"])
+    zcen = np.outer(obs["baseline_info"]["freq"], params["ww"])
     sign = 1 if direction > 0 else -1
     phase = np.exp(direction * icomp * zcen)
-    vis_arr[: obs["n_pol"], :, :] *= np.tile(phase, (obs["n_pol"], 1))
+    vis_arr[: obs["n_pol"], :, :] *= phase
 
     sign_str = " +1" if sign > 0 else " -1"
     logger.info(f"Applying simple w-term deprojection:{sign_str}")
-- 
2.43.0


From 8d4e2be223e4ee7b921a48abc8735fd27451cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 005/110] fix: a flagged tile with no baselines no longer flags
 the last baseline

array_match returns -1 when nothing matches, which was used as an index.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 9a79cbe..ee3a08a 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1182,7 +1182,8 @@ def vis_weights_update(
             tile_cut_i[0] + 1,
             obs["baseline_info"]["tile_b"],
         )
-        if np.size(bi_cut) > 0:
+        # array_match gives -1 when no baseline uses a flagged tile
+        if np.min(bi_cut) >= 0:
             vis_weights[0 : obs["n_pol"], :, bi_cut] = 0
 
     time_cut_i = np.where(obs["baseline_info"]["time_use"] == 0)[0]
-- 
2.43.0


From d59acfd36e190d21590d2eb02f6b468106d34bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 006/110] fix: array_match with one array, and with repeated
 match values

Without a second array the reverse indices of that array were used although they
do not exist, and a value listed twice was never matched.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index ee3a08a..d8d459b 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -767,7 +767,7 @@ def array_match(
         min_use = np.min(array_1)
         max_use = np.max(array_1)
         # Supply a second hist
-        hist2 = np.arange(max_use - min_use + 1)
+        hist2 = np.zeros(int(max_use - min_use) + 1, dtype=np.int64)
     # Get the histogram for the first
     hist1, _, ri1 = histogram(array_1, min=min_use, max=max_use)
     # Arrays should be the same size, does addition
@@ -779,7 +779,7 @@ def array_match(
     omin = bins_v1[0]
     omax = bins_v1[-1]
     hist_v2, _, _ = histogram(value_match, min=omin, max=omax)
-    vals = np.nonzero(np.bitwise_and(hist_v1, hist_v2))[0] + omin - min_use
+    vals = np.nonzero(np.logical_and(hist_v1, hist_v2))[0] + omin - min_use
     n_match = vals.size
 
     if n_match == 0:
-- 
2.43.0


From a764fac110c47bd8abab5f9d1ce5f05850c48701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 007/110] fix: rebin that shrinks one axis and grows the other
 keeps the rows apart

The growing axis was tiled before averaging, so blocks mixed unrelated rows or
columns whenever that axis already had more than one element.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d8d459b..8fd91b2 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -589,13 +589,11 @@ def rebin(
             max(old_shape[1], shape[1]) % min(old_shape[1], shape[1]) != 0
         ):
             raise ValueError("Your new shape should be a factor of the original shape")
-        # If we are increasing the rows or columns and reducing the other, increase them now and change the old shape
+        # If we are increasing the rows or columns and reducing the other, reduce first and then expand the result
         if shape[0] > old_shape[0]:
-            a = np.tile(a, (shape[0], 1))
-            old_shape = a.shape
+            return rebin(rebin(a, (old_shape[0], shape[1])), shape)
         elif shape[1] > old_shape[1]:
-            a = np.tile(a, (1, shape[1]))
-            old_shape = a.shape
+            return rebin(rebin(a, (shape[0], old_shape[1])), shape)
         # Create the shape we need (rows, rows that can fit in old_shape, cols, cols that can fit into old_shape)
         sh = shape[0], old_shape[0] // shape[0], shape[1], old_shape[1] // shape[1]
         # Create the 4D array
-- 
2.43.0


From 542cfe6247dab5389489b0ce819437927921e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 008/110] fix: separations in degrees and pixels of one-element
 coordinate arrays

angle_difference(nearest=True) mixed radians into a separation in degrees and
returned the larger angle; radec_to_pixel could not convert one-element arrays.
---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 PyFHD/pyfhd_tools/unit_conv.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 8fd91b2..dc585fa 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1,7 +1,7 @@
 import subprocess
 from copy import deepcopy
 from logging import Logger
-from math import factorial, pi
+from math import factorial
 from sys import exit
 import h5py
 import numpy as np
@@ -947,7 +947,7 @@ def angle_difference(
     # Use built in astropy separtion instead of calculating it
     relative_angle = coord1.separation(coord2).value
     if nearest:
-        return max(relative_angle, 2 * pi - relative_angle)
+        return np.minimum(relative_angle, 360 - relative_angle)
     else:
         return relative_angle
 
diff --git a/PyFHD/pyfhd_tools/unit_conv.py b/PyFHD/pyfhd_tools/unit_conv.py
index 0fd9a00..7cd1b67 100644
--- a/PyFHD/pyfhd_tools/unit_conv.py
+++ b/PyFHD/pyfhd_tools/unit_conv.py
@@ -149,7 +149,7 @@ def radec_to_pixel(ra: float, dec: float, astr: dict) -> tuple[float, float]:
     )
     # AstroPy returns values as an array, cast to float
     if np.size(x) == 1:
-        return float(x), float(y)
+        return np.asarray(x).item(), np.asarray(y).item()
     else:
         return x, y
 
-- 
2.43.0


From b320e0c3c5bb36708d87b34a127d9c1aedf02149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 009/110] fix: load back the strings, single values and ragged
 lists that save writes

Strings failed to load (bytes has no dtype), so did files with a single scalar,
string or group, empty and non-ASCII string arrays, 0-d arrays, NumPy strings,
tuples of strings and ragged lists.
---
 PyFHD/io/pyfhd_io.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 99f70d2..5e0c552 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -133,14 +133,14 @@ def format_array(array: NDArray[Any]) -> NDArray[Any]:
     # Got an error with the vectorized functions on empty arrays
     if array.size == 0 or array.dtype != object:
         if np.issubdtype(array.dtype, np.str_):
-            return array.astype(np.bytes_)
+            return np.char.encode(array, "utf-8")
         else:
             return array
     if np.any(_is_string(array)):
         # This avoids the np.where deprecation warning
         # Also replaces any None values in place, no copies of the array are made
         array[array == None] = ""
-        array = array.astype(bytes)
+        array = np.char.encode(array.astype(np.str_), "utf-8")
     else:
         try:
             if array.dtype == object:
@@ -246,7 +246,8 @@ def save_dataset(
                     shape=value.shape,
                     data=value,
                     dtype=value_dtype,
-                    compression="gzip",
+                    # There is nothing to compress in an array without dimensions
+                    compression="gzip" if value.shape else None,
                 )
         case list():
             # Was easier to convert to a NumPy array to get vectorization
@@ -264,13 +265,17 @@ def save_dataset(
                     data_dtype = dtype_picker(value.dtype)
                 except ValueError as e:
                     if "inhomogeneous" in str(e):
-                        logger.warning(
-                            f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
-                        )
+                        if logger:
+                            logger.warning(
+                                f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
+                            )
                         value = np.array(value, dtype=object)
                         for i, arr in enumerate(value):
-                            value[i] = format_array(arr)
-                        data_dtype = h5py.vlen_dtype(dtype_picker(value[0].dtype))
+                            value[i] = format_array(np.asarray(arr))
+                        # The type must be able to hold every one of the arrays
+                        data_dtype = h5py.vlen_dtype(
+                            dtype_picker(np.result_type(*[v.dtype for v in value]))
+                        )
                     else:
                         logger.info(
                             f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
@@ -278,8 +283,8 @@ def save_dataset(
             h5py_obj.create_dataset(
                 key, data=value, dtype=data_dtype, compression="gzip"
             )
-        case Path():
-            # If we find a Path object, convert it to a string
+        case Path() | str():
+            # If we find a Path object or a NumPy string, convert it to a string
             value = str(value)
             h5py_obj.create_dataset(key, data=value)
         case None:
@@ -441,17 +446,20 @@ def load_dataset(
     """
     # If the corresponding attribute is True set the current
     # key to None as its an empty dataset
-    if h5py_obj.attrs[key]:
+    if h5py_obj.attrs.get(key, False):
         return None
     else:
         if dataset.shape == ():
             value = dataset[()]
         else:
             value = dataset[:]
-        if value.dtype.kind == "S":
-            value = _decode_byte_arr(value)
+        # A single string is read as plain bytes, strings in an array as byte strings or objects
         if isinstance(value, bytes):
             value = value.decode()
+        elif value.dtype.kind == "S" and value.size == 0:
+            value = value.astype(np.str_)
+        elif value.size > 0 and isinstance(value.flat[0], bytes):
+            value = _decode_byte_arr(value)
         return value
 
 
@@ -522,8 +530,10 @@ def load(
             key = list(h5_file.keys())[0]
             if logger:
                 logger.info(f"Loading {key} from {file_name} into an array")
-            array = h5_file[key][:]
-            return array
+            # A dictionary with a single key can hold something other than a dataset
+            if isinstance(h5_file[key], h5py.Group):
+                return {key: group_to_dict(h5_file[key])}
+            return load_dataset(h5_file, key, h5_file[key])
         else:
             return_dict = {}
             if logger:
-- 
2.43.0


From 7aa3d5d29189734060c8f27f87f353da6c55e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 010/110] fix: read UVFITS files with other layouts than the
 MWA 128 tile one

Refused or crashed on files whose first parameter is BASELINE or DATE, with one
frequency, polarization or baseline, or with other than 128 tiles; dropped the
second DATE parameter; antenna defaults were missing or one short.
---
 PyFHD/data_setup/uvfits.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7c38c33..57ac62f 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -71,7 +71,8 @@ def extract_header(
     pyfhd_header["real_index"] = 0
     pyfhd_header["imaginary_index"] = 1
     pyfhd_header["weights_index"] = 2
-    pyfhd_header["n_tile"] = 128
+    # The antenna table holds a row per tile
+    pyfhd_header["n_tile"] = antenna_header["naxis2"]
     pyfhd_header["naxis"] = params_header["naxis"]
     pyfhd_header["n_params"] = params_header["pcount"]
     pyfhd_header["n_baselines"] = params_header["gcount"]
@@ -111,7 +112,7 @@ def extract_header(
             f"Failed to load in the {pyfhd_config['instrument']} instrument location from astropy. If lon/lat/alt are not in the UVFITS things will fail."
         )
         # Can also do MWA or Murchison Widefield Array
-        location = EarthLocation("mwa")
+        location = EarthLocation.of_site("mwa")
 
     try:
         pyfhd_header["lon"] = params_header["lon"]
@@ -167,15 +168,17 @@ def extract_header(
     pyfhd_header["ant2_i"] = "ANTENNA2" in param_list
 
     if not pyfhd_header["ant1_i"] or not pyfhd_header["ant2_i"]:
-        pyfhd_header["baseline_i"] = param_list.index("BASELINE")
-        if not pyfhd_header["baseline_i"]:
+        if "BASELINE" in param_list:
+            pyfhd_header["baseline_i"] = param_list.index("BASELINE")
+        else:
             logger.error(
                 "Group parameter BASELINE (or ANTENNA1 and ANTENNA2) not found within uvfits params_header PTYPE keywords"
             )
             params_valid = False
 
-    pyfhd_header["date_i"] = param_list.index("DATE")
-    if not pyfhd_header["date_i"]:
+    if "DATE" in param_list:
+        pyfhd_header["date_i"] = param_list.index("DATE")
+    else:
         logger.error(
             "Group parameter DATE not found within uvfits params_header PTYPE keywords"
         )
@@ -253,7 +256,11 @@ def create_params(
         params["vv"] = params_data["VV"].astype(np.float64)
         params["ww"] = params_data["WW"].astype(np.float64)
         # Astropy has already normalized the values by PZEROx, time in Julian
-        params["time"] = params_data["DATE"]
+        # The time can be split over several DATE parameters, par adds them together
+        if hasattr(params_data, "par"):
+            params["time"] = params_data.par("DATE")
+        else:
+            params["time"] = params_data["DATE"]
         # Get baseline and antenna arrays
         # The antenna arrays already exist then take those
         if pyfhd_header["ant1_i"] and pyfhd_header["ant2_i"]:
@@ -316,7 +323,14 @@ def extract_visibilities(
     extract_header : Extracts the header from the UVFITS file and returns the header and data
     """
 
-    data_array = np.squeeze(params_data["DATA"])
+    data_array = params_data["DATA"]
+    # Remove the axes of length 1 between the baselines and the frequency, polarization and complex axes
+    data_array = np.squeeze(
+        data_array,
+        axis=tuple(
+            axis for axis in range(1, data_array.ndim - 3) if data_array.shape[axis] == 1
+        ),
+    )
     # Set the number of polarizations
     if pyfhd_config["n_pol"] == 0:
         n_pol = pyfhd_header["n_pol"]
@@ -494,6 +508,7 @@ def create_layout(
             logger.warning(
                 "Number of Leap Seconds is missing and the time system isn't IAT so we can't know the leap seconds, setting as -1"
             )
+            layout["nleap_sec"] = -1
 
     # Polarization Type
     try:
@@ -532,10 +547,10 @@ def create_layout(
     try:
         layout["antenna_numbers"] = antenna_data["nosta"]
     except KeyError:
-        layout.warning(
+        logger.warning(
             "Antenna Numbers missing replacing with an array of numbers of range 1: n_antenna"
         )
-        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"])
+        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"] + 1)
 
     # Antenna Coordinates
     try:
-- 
2.43.0


From d6f03e99c927bda03f9d06bd4c3b033d2f5fc37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 011/110] fix: observation metadata for one time step, gapped
 antenna numbers, field of view and time cuts

---
 PyFHD/data_setup/obs.py | 42 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a5abab6..0763244 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -65,7 +65,7 @@ def create_obs(
     if obs["n_time"] > 1:
         bin_width[0 : obs["n_time"]] = b0i + 1
     else:
-        bin_width = time.size
+        bin_width[0] = time.size
     b0i_range = np.arange(1, obs["n_time"])
     bin_width[b0i_range] = b0i[b0i_range] - b0i[b0i_range - 1]
     baseline_info["bin_offset"] = np.zeros(obs["n_time"], dtype=np.int64)
@@ -95,8 +95,9 @@ def create_obs(
 
     antenna_flag = True
     if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
-        baseline_info["tile_a"] = params["antenna1"]
-        baseline_info["tile_b"] = params["antenna2"]
+        # The numbers are compared with the originals while they get mapped, so map a copy
+        baseline_info["tile_a"] = np.array(params["antenna1"])
+        baseline_info["tile_b"] = np.array(params["antenna2"])
         antenna_flag = False
     if antenna_flag:
         # 256 tile upper limit is hard-coded in CASA format
@@ -120,14 +121,14 @@ def create_obs(
             obs["n_tile"] = max(
                 np.max(baseline_info["tile_a"]), np.max(baseline_info["tile_b"])
             )
-        params["antenna1"] = baseline_info["tile_a"]
-        params["antenna2"] = baseline_info["tile_b"]
+        params["antenna1"] = np.array(baseline_info["tile_a"])
+        params["antenna2"] = np.array(baseline_info["tile_b"])
 
     # check that all elements in the antenna1 and antenna2 array exist in the antenna numbers
     # from the uvfits antenna table
     all_ants = np.hstack([params["antenna1"], params["antenna2"]])
     all_ants = np.unique(all_ants)
-    if not (np.all(np.in1d(all_ants, layout["antenna_numbers"]))):
+    if not (np.all(np.isin(all_ants, layout["antenna_numbers"]))):
         logger.warning("Antenna arrays contain number(s) not found in antenna table")
 
     # fhd expects antenna1 and antenna2 arrays containing indices that are one-indexed.
@@ -162,9 +163,9 @@ def create_obs(
     max_baseline = max(np.max(np.abs(kx_arr)), np.max(np.abs(ky_arr)))
 
     # Determine the imaging parameters to use
-    if pyfhd_config["FoV"] is not None:
+    if pyfhd_config["FoV"]:
         obs["kpix"] = (180 / pi) / pyfhd_config["FoV"]
-    if pyfhd_config["kbinsize"] is None:
+    elif pyfhd_config["kbinsize"] is None:
         obs["kpix"] = 0.5
     else:
         obs["kpix"] = pyfhd_config["kbinsize"]
@@ -172,7 +173,7 @@ def create_obs(
     # Determine observation resolution/extent parameters given number of pixels in x direction (dimension)
     if pyfhd_config["dimension"] is None and pyfhd_config["elements"] is None:
         obs["dimension"] = 2 ** int(
-            (log10((2 * max_baseline) / pyfhd_config["kpix"]) / log10(2))
+            (log10((2 * max_baseline) / obs["kpix"]) / log10(2))
         )
         obs["elements"] = obs["dimension"]
     elif pyfhd_config["dimension"] is not None and pyfhd_config["elements"] is None:
@@ -187,7 +188,7 @@ def create_obs(
     # Ensure both dimension and elements are ints to prevent issues down the pipeline
     obs["dimension"] = int(obs["dimension"])
     obs["elements"] = int(obs["elements"])
-    obs["degpix"] = (180 / pi) / (obs["kpix"] * pyfhd_config["dimension"])
+    obs["degpix"] = (180 / pi) / (obs["kpix"] * obs["dimension"])
 
     # Set the max and min baseline
     max_baseline_inds = np.where(
@@ -209,20 +210,15 @@ def create_obs(
     # Specify negative time_cut to cut time off the end. Specify a vector to cut at both the start and end
     if pyfhd_config["time_cut"] is not None:
         time_cut = pyfhd_config["time_cut"]
-        for ti in time_cut:
-            if time_cut[ti] < 0:
-                ti_start = min(
-                    obs["n_time"]
-                    - max(np.ceil(np.abs(time_cut[ti]) / meta["time_res"]), 0),
-                    obs["n_time"] - 1,
-                )
+        for cut in np.atleast_1d(time_cut):
+            # The number of time steps to cut
+            n_cut = int(np.ceil(np.abs(cut) / meta["time_res"]))
+            if cut < 0:
+                ti_start = min(max(obs["n_time"] - n_cut, 0), obs["n_time"] - 1)
                 ti_end = obs["n_time"] - 1
             else:
                 ti_start = 0
-                ti_end = min(
-                    np.ceil(np.abs(time_cut[ti])) / meta["time_res"] - 1,
-                    obs["n_time"] - 1,
-                )
+                ti_end = min(n_cut - 1, obs["n_time"] - 1)
             if ti_end >= ti_start:
                 baseline_info["time_use"][ti_start : ti_end + 1] = 0
     obs["n_time_flag"] = obs["n_time"] - np.sum(baseline_info["time_use"])
@@ -307,6 +303,8 @@ def read_metafits(
     meta["obsy"] = obs["elements"] // 2
     meta["jd0"] = np.min(meta["jdate"])
     meta["epoch"] = Time(meta["jd0"], format="jd").to_value("decimalyear")
+    hdr = {}
+    data = None
     meta_path = Path(pyfhd_config["input_path"], pyfhd_config["obs_id"] + ".metafits")
     if meta_path.is_file():
         metadata = fits.open(meta_path)
@@ -525,7 +523,7 @@ def update_obs(
     freq_bin = beam_nfreq_avg * obs["freq_res"]
     freq_hist, _, freq_ri = histogram(obs["baseline_info"]["freq"], bin_size=freq_bin)
     freq_bin_i = np.zeros(obs["n_freq"], dtype=np.int64)
-    for bin in range(freq_hist.size - 1):
+    for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
     # Adjust the obs dictionary based on the new dimension and kbinsize
-- 
2.43.0


From 3a41bd0f3ce1c78aa8bcd7b5f2129fc32533ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 012/110] fix: update_obs leaves the caller's observation alone

---
 PyFHD/data_setup/obs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 0763244..c3ef1b0 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -1,5 +1,6 @@
 import numpy as np
 import logging
+from copy import deepcopy
 from math import pi, log10
 from PyFHD.pyfhd_tools.pyfhd_utils import (
     idl_argunique,
@@ -526,6 +527,8 @@ def update_obs(
     for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
+    # The caller still needs the original observation, so update a copy of it
+    obs = deepcopy(obs)
     # Adjust the obs dictionary based on the new dimension and kbinsize
     obs["dimension"] = dimension
     obs["elements"] = dimension
-- 
2.43.0


From 7ef6f9c01a0a66f7c00d9ff13044432de6d2841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 013/110] fix: flag the named tiles, whole time steps and
 coarse band edges of any channel width

---
 PyFHD/flagging/flagging.py | 41 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index d876691..cb77baf 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -1,7 +1,7 @@
 import numpy as np
 from numpy.typing import NDArray, ArrayLike
 from logging import Logger
-from PyFHD.pyfhd_tools.pyfhd_utils import idl_median, histogram
+from PyFHD.pyfhd_tools.pyfhd_utils import idl_median
 
 
 def vis_flag_tiles(
@@ -30,34 +30,24 @@ def vis_flag_tiles(
     flagged_vis_weight_arr: NDArray[np.float64]
         A vis_weight_arr where the tiles to flag have been set to 0
     """
-    tile_flag_list_use = np.array([], dtype=np.int64)
+    # The names can be integers (i.e. from a METAFITS file) or strings
+    tile_names = [str(name).strip() for name in obs["baseline_info"]["tile_names"]]
+    tile_flag_list_use = []
     for flag in tiles_to_flag:
-        if type(flag) == str and flag.strip() in obs["baseline_info"]["tile_names"]:
+        if str(flag).strip() in tile_names:
             logger.info(f"Manually flagging tile {flag}")
-            flag_idx = np.where(obs["baseline_info"]["tile_names"] == flag.strip())[0][
-                0
-            ]
+            flag_idx = tile_names.index(str(flag).strip())
+            # The tile indexes in tile_a and tile_b start from 1
             tile_flag_list_use.append(flag_idx + 1)
         else:
             logger.warning(
                 f"{flag} wasn't found in obs['baseline_info']['tile_names'], skipping it"
             )
-    hist_a, _, ra = histogram(obs["baseline_info"]["tile_a"], min=1)
-    hist_b, _, rb = histogram(obs["baseline_info"]["tile_b"], min=1)
-    hist_c, _, _ = histogram(tile_flag_list_use, min=1)
-    # hist_A and hist_b should be the same size
-    hist_ab = hist_a + hist_b
-    n_bin = min(np.size(hist_ab), np.size(hist_c))
-    tile_cut_i = np.where((hist_ab[0:n_bin] > 0) | (hist_c[0:n_bin] > 0))[0]
-    if np.size(tile_cut_i) > 0:
-        for cut_idx in range(np.size(tile_cut_i)):
-            ti = tile_cut_i[cut_idx]
-            na = ra[ra[ti + 1] - 1] - ra[ra[ti]]
-            if na > 0:
-                vis_weight_arr[:, :, ra[ra[ti] : ra[ti + 1] - 1]] = 0
-            nb = rb[rb[ti + 1] - 1] - rb[rb[ti]]
-            if nb > 0:
-                vis_weight_arr[:, :, rb[rb[ti] : rb[ti + 1] - 1]] = 0
+    # Flag every baseline that uses one of the tiles
+    baseline_cut = np.isin(
+        obs["baseline_info"]["tile_a"], tile_flag_list_use
+    ) | np.isin(obs["baseline_info"]["tile_b"], tile_flag_list_use)
+    vis_weight_arr[:, :, baseline_cut] = 0
     return vis_weight_arr
 
 
@@ -127,9 +117,9 @@ def vis_flag_basic(
     # If you wish to implement flagging for mwa when it had 32 tiles, do that here
     # Flagging based on channel width
     if pyfhd_config["flag_frequencies"]:
-        freq_avg = 768 // obs["n_freq"]
+        freq_avg = 768 / obs["n_freq"]
         channel_edge_flag_width = np.ceil(2 / freq_avg)
-        coarse_channel_width = 32 // freq_avg
+        coarse_channel_width = max(int(np.round(32 / freq_avg)), 1)
         fine_channel_i = np.arange(obs["n_freq"]) % coarse_channel_width
         channel_edge_flag = np.where(
             np.minimum(fine_channel_i, (coarse_channel_width - 1) - fine_channel_i)
@@ -186,10 +176,9 @@ def vis_flag_basic(
     if np.min(obs["baseline_info"]["time_use"]) <= 0:
         bin_offset = obs["baseline_info"]["bin_offset"]
         bin_offset = np.hstack([bin_offset, np.size(obs["baseline_info"]["tile_a"])])
-        time_bin = np.zeros(np.size(obs["baseline_info"]["tile_a"]))
         for ti in range(obs["n_time"]):
             if obs["baseline_info"]["time_use"][ti] <= 0:
-                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1] - 1] = 0
+                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1]] = 0
 
     tile_use_indexes = np.where((tile_use) & (obs["baseline_info"]["tile_use"]))[0]
     tile_use_zeros = np.zeros_like(obs["baseline_info"]["tile_use"])
-- 
2.43.0


From 029e31fce02fb81f84398cfaa2affa7c344309dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 014/110] fix: outlier flagging starts from zero and leaves out
 the first pass outliers

---
 PyFHD/flagging/flagging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index cb77baf..a071913 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -242,7 +242,7 @@ def vis_flag(
     if cut_baselines_i.size > 0:
         vis_weights[: obs["n_pol"], :, cut_baselines_i] = 0
 
-    tile_fom = np.empty(n_tiles_use)
+    tile_fom = np.zeros(n_tiles_use)
     for tile_i in range(n_tiles_use):
         tile_ai = np.where((obs["baseline_info"]["tile_a"] - 1) == tile_i)
         tile_bi = np.where((obs["baseline_info"]["tile_b"] - 1) == tile_i)
@@ -281,10 +281,10 @@ def vis_flag(
 
     # We actually want the complements of the where from IDL translation, adjusted conditions accordingly
     tile_cut0 = np.where(
-        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) | (tile_fom != 0)
+        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) & (tile_fom != 0)
     )[0]
     freq_cut0 = np.where(
-        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) | (freq_fom != 0)
+        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) & (freq_fom != 0)
     )[0]
     tile_mean2 = idl_median(tile_fom[tile_cut0])
     tile_dev2 = np.std(tile_fom[tile_cut0])
@@ -331,7 +331,7 @@ def vis_flag(
     time_mean = idl_median(time_fom[time_nonzero])
     time_dev = np.std(time_fom[time_nonzero])
     time_cut0 = np.where(
-        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) | (time_fom != 0)
+        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) & (time_fom != 0)
     )
     time_mean2 = idl_median(time_fom[time_cut0])
     time_dev2 = np.std(time_fom[time_cut0])
@@ -339,7 +339,7 @@ def vis_flag(
         (np.abs(time_mean2 - time_fom) > 2 * flag_nsigma * time_dev2) | (time_fom == 0)
     )[0]
     for ti in range(time_cut.size):
-        ti_cut = np.where(time_bin == time_cut[ti])
+        ti_cut = np.where(time_bin == time_cut[ti])[0]
         if ti_cut.size > 0:
             vis_weights[: obs["n_pol"], :, ti_cut] = 0
 
-- 
2.43.0


From 6167afb650eb8a2fdeb062b3d3e65824740f8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 015/110] fix: cut times are not part of the odd visibilities

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index dc585fa..012ec9c 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1270,7 +1270,11 @@ def split_vis_weights(
             if bin_i_cut.size > 0:
                 bin_i[bin_i_cut] = -1
 
-    bi_use = [np.where(bin_i % 2 == 0)[0], np.where(bin_i % 2 == 1)[0]]
+    # The cut times are -1, which is odd in Python, they're not part of either set
+    bi_use = [
+        np.where((bin_i >= 0) & (bin_i % 2 == 0))[0],
+        np.where((bin_i >= 0) & (bin_i % 2 == 1))[0],
+    ]
 
     # Here we ensure that both even and odd samples are the same size by
     # ensuring both arrays match the smallest size
-- 
2.43.0


From cec566ee47d54b30dccc331769fc694c398fbb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 016/110] fix: crosspol_split_real_imaginary keeps the
 imaginary part and the names of the observation

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 012ec9c..2119df9 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1571,11 +1571,14 @@ def crosspol_split_real_imaginary(
     pol_names : list[str]|None]
         _description_
     """
-    crosspol_image: NDArray[np.complex128] = image[2]
+    # The real part replaces the cross polarization, copy it so the imaginary part is still available.
+    crosspol_image: NDArray[np.complex128] = image[2].copy()
     image[2] = crosspol_image.real
     image[3] = crosspol_image.imag
 
     if pol_names is not None:
+        # The names belong to the observation, which still needs the instrumental ones
+        pol_names = list(pol_names)
         crosspol_name: str = pol_names[2]
         pol_names[2] = f"{crosspol_name}_real"
         pol_names[3] = f"{crosspol_name}_imag"
-- 
2.43.0


From 82062437ab8c50c088b024cf8ddb46c743c66630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 017/110] fix: auto-correlations of one time step, and
 observations without auto-correlations

---
 PyFHD/calibration/calibration_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 205ded3..77f00dc 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -83,17 +83,15 @@ def vis_extract_autocorr(
                         )
 
                     else:
-                        auto_single[:, tile_i] = auto_vals[:, baseline_i][
-                            np.arange(obs["n_freq"]), :
-                        ]
+                        auto_single[:, tile_i] = auto_vals[:, baseline_i[0]]
                 auto_vals = auto_single
             auto_corr[pol_i, :, :] = auto_vals
         if pyfhd_config["cal_time_average"]:
             auto_tile_i = auto_tile_i_single
         return auto_corr, auto_tile_i
     else:
-        # Return auto_corr as 0 and auto_tile_i as an empty array
-        return np.zeros(1), np.zeros(0)
+        # No auto-correlations, return empty arrays that can be indexed like the full ones
+        return np.zeros((obs["n_pol"], obs["n_freq"], 0)), np.zeros(0, dtype=np.int64)
 
 
 def vis_cal_auto_init(
-- 
2.43.0


From 41daee374a9405ce8c245817b4135f92019bc28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 018/110] fix: auto-correlation fit with one polarisation or
 tiles without auto-correlations

---
 PyFHD/calibration/calibration_utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 77f00dc..ba3c05d 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1301,13 +1301,14 @@ def vis_cal_auto_fit(
     # However the logic still indexes the full 128 tiles, so need to shove
     # outputs into an empty array of correct size
     # We're not using the cross polarizations if they are present
-    auto_gain = np.empty((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
+    auto_gain = np.zeros((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
     auto_gain[:, :, auto_tile_i] = np.sqrt(
         vis_auto[: cal["n_pol"]] * weight_invert(vis_auto_model[: cal["n_pol"]])
     )
     gain_cross = cal["gain"]
-    fit_slope = np.empty((cal["n_pol"], obs["n_tile"]))
-    fit_offset = np.empty_like(fit_slope)
+    # Tiles without auto-correlations keep their gain and have no fit
+    fit_slope = np.zeros((cal["n_pol"], obs["n_tile"]))
+    fit_offset = np.zeros_like(fit_slope)
 
     # Didn't vectorize as the polyfit won't be vectorized
     for pol_i in range(cal["n_pol"]):
@@ -1342,8 +1343,8 @@ def vis_cal_auto_fit(
             ) * np.exp(1j * phase_cross_single)
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
-    cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
-    cal["auto_params"] = np.empty([cal["n_pol"], cal["n_pol"], obs["n_tile"]])
+    cal["auto_scale"] = np.sum(fit_slope, axis=1) / max(auto_tile_i.size, 1)
+    cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
     return cal
-- 
2.43.0


From 049d0e6e7a611dd9e619ce4e221c14cc2e925dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 019/110] fix: auto ratio uses the auto-correlation of the
 reference tile

---
 PyFHD/calibration/calibration_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index ba3c05d..a08ade5 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1583,11 +1583,16 @@ def cal_auto_ratio_divide(
         visibilities normalized via a reference tile.
     """
 
-    auto_ratio = np.empty([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # Tiles without auto-correlations are left as they are
+    auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    if auto_tile_i.size == 0:
+        return cal, auto_ratio
+    # Position of the reference tile among the auto-correlations, the first one if it has none
+    ref_i = np.argmax(auto_tile_i == cal["ref_antenna"])
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-        v0 = vis_auto[pol_i, :, auto_tile_i[cal["ref_antenna"]]]
+        v0 = vis_auto[pol_i, :, ref_i]
         auto_ratio[pol_i, :, auto_tile_i] = np.sqrt(
             vis_auto[pol_i, :, np.arange(auto_tile_i.size)] * weight_invert(v0)
         )
-- 
2.43.0


From 9cee572adf2c12a7948683165b97414b90e5fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 020/110] fix: calibration flagging removes frequencies and
 tiles without any variation

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a08ade5..9eb233f 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -229,11 +229,11 @@ def vis_calibration_flag(
         freq_cut_i = np.where(gain_freq_fom == 0)[0]
         freq_uncut_i = np.nonzero(gain_freq_fom)[0]
         if freq_cut_i.size > 0:
-            freq_use[freq_use_i][freq_cut_i] = 0
+            freq_use[freq_use_i[freq_cut_i]] = 0
         tile_cut_i = np.where(gain_tile_fom == 0)[0]
         tile_uncut_i = np.nonzero(gain_tile_fom)[0]
         if tile_cut_i.size > 0:
-            obs["baseline_info"]["tile_use"][tile_use_i][tile_cut_i] = 0
+            obs["baseline_info"]["tile_use"][tile_use_i[tile_cut_i]] = 0
         if freq_uncut_i.size == 0 or tile_uncut_i.size == 0:
             logger.error(
                 "The frequency and tile flagging inside calibration found some values not detected in previous flagging or calibration"
-- 
2.43.0


From cc0aa7839c06d4f88880164587bfc9900b405ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 021/110] fix: calibration of four polarisations uses the
 n_time of the observation

---
 PyFHD/calibration/calibration_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 9eb233f..5534fb3 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1434,10 +1434,11 @@ def vis_calibration_apply(
             # Use the xx flags (yy should be identitical at this point)
 
             # this is num baselines per time step
-            n_baselines = int(len(tile_a_i) / obs["n_times"])
+            n_time = obs["n_time"] if "n_time" in obs else obs["n_times"]
+            n_baselines = int(len(tile_a_i) / n_time)
             # reshape from (n_freq, n_baselines*n_times) to (n_freq, n_times, n_baselines). Turns out due to the row major vs col major difference
             # between IDL and python, this shape also changes
-            new_shape = (obs["n_freq"], obs["n_times"], n_baselines)
+            new_shape = (obs["n_freq"], n_time, n_baselines)
             weights_use = np.reshape(vis_weights[0, :, :], new_shape)
             # carried over from FHD code
             weights_use = np.maximum(weights_use, np.zeros_like(weights_use))
-- 
2.43.0


From 80118c881853551232a099a1d3ec15f8ade7e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 022/110] fix: polynomial gain fit keeps its highest order, the
 channels of the digital gain jump and tiles without gain

---
 PyFHD/calibration/calibration_utils.py | 125 +++++++++++++------------
 1 file changed, 66 insertions(+), 59 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 5534fb3..1d3bf15 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -851,6 +851,33 @@ def vis_cal_bandpass(
     return cal_bandpass, cal_remainder
 
 
+def polynomial_coefficients(
+    x: NDArray[np.integer], y: NDArray[np.float64], degree: int
+) -> NDArray[np.float64]:
+    """
+    Least squares polynomial fit that always gives degree + 1 coefficients, numpy drops the highest ones
+    when they are exactly zero (e.g. a gain of 0 at every frequency).
+
+    Parameters
+    ----------
+    x : NDArray[np.integer]
+        The channels to fit over
+    y : NDArray[np.float64]
+        The values to fit
+    degree : int
+        The degree of the polynomial
+
+    Returns
+    -------
+    coefficients : NDArray[np.float64]
+        The coefficients, lowest order first
+    """
+    coefficients = np.zeros(degree + 1)
+    fit = np.polynomial.Polynomial.fit(x, y, deg=degree).convert().coef
+    coefficients[: fit.size] = fit
+    return coefficients
+
+
 def vis_cal_polyfit(
     obs: dict,
     cal: dict,
@@ -923,12 +950,21 @@ def vis_cal_polyfit(
     gain_residual = np.empty((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
     # create amp_params with the shape of (n_pol, n_tile, amp_degree + 1)
     # If we're using the digital_gain_jump_polyfit add extra dimension to amp_params
-    if pyfhd_config["digital_gain_jump_polyfit"]:
+    digital_gain_jump = pyfhd_config["digital_gain_jump_polyfit"]
+    if digital_gain_jump:
+        # The number of used channels before the jump, both sides are needed for separate fits
+        n_pre_jump = np.sum(obs["baseline_info"]["freq"][freq_use] < 187.515e6)
+        if n_pre_jump == 0 or n_pre_jump == freq_use.size:
+            logger.warning(
+                "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+            )
+            digital_gain_jump = False
+    if digital_gain_jump:
         cal["amp_params"] = np.empty(
             (
                 cal["n_pol"],
                 obs["n_tile"],
-                pyfhd_config["cal_amp_degree_fit"],
+                2,
                 pyfhd_config["cal_amp_degree_fit"],
             )
         )
@@ -947,74 +983,45 @@ def vis_cal_polyfit(
             gain = np.squeeze(gain_amp[freq_use, tile_i])
             gain_fit = np.zeros(obs["n_freq"])
             # Pre and post digital gain jump separately for highband MWA data
-            if pyfhd_config["digital_gain_jump_polyfit"]:
-                pre_dig_inds = np.where(
-                    obs["baseline_info"]["freq"][freq_use] < 187.515e6
+            if digital_gain_jump:
+                f_d = np.max(
+                    np.where(obs["baseline_info"]["freq"][freq_use] < 187.515e6)[0]
                 )
-                if pre_dig_inds[0].size > 0:
-                    f_d = np.max(pre_dig_inds[0])
-                    f_end = freq_use.size
-                    fit_params1 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[0 : f_d + 1],
-                            gain[0 : f_d + 1],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
-                    )
-                    fit_params2 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[f_d + 1 : f_end],
-                            gain[f_d + 1 : f_end],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
-                    )
-                    for di in range(pyfhd_config["cal_amp_degree_fit"]):
-                        gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[f_d]) ** di
-                        )
-                        gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
-                            fit_params2[di]
-                            * (
-                                np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
-                                + freq_use[f_d + 1]
-                            )
-                            ** di
-                        )
-                    # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
-                    # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
-                    fit_params = np.vstack([fit_params1, fit_params2])
-                    cal["amp_params"][pol_i, tile_i] = fit_params
-                else:
-                    logger.warning(
-                        "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
-                    )
+                f_end = freq_use.size
+                fit_params1 = polynomial_coefficients(
+                    freq_use[0 : f_d + 1],
+                    gain[0 : f_d + 1],
+                    pyfhd_config["cal_amp_degree_fit"] - 1,
+                )
+                fit_params2 = polynomial_coefficients(
+                    freq_use[f_d + 1 : f_end],
+                    gain[f_d + 1 : f_end],
+                    pyfhd_config["cal_amp_degree_fit"] - 1,
+                )
+                pre_jump = np.arange(freq_use[0], freq_use[f_d] + 1)
+                post_jump = np.arange(freq_use[f_d + 1], freq_use[f_end - 1] + 1)
+                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                    gain_fit[pre_jump] += fit_params1[di] * pre_jump**di
+                    gain_fit[post_jump] += fit_params2[di] * post_jump**di
+                # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
+                # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
+                fit_params = np.vstack([fit_params1, fit_params2])
+                cal["amp_params"][pol_i, tile_i] = fit_params
             # Fit for amplitude
             else:
-                fit_params = (
-                    np.polynomial.Polynomial.fit(
-                        freq_use, gain, deg=pyfhd_config["cal_amp_degree_fit"]
-                    )
-                    .convert()
-                    .coef
+                fit_params = polynomial_coefficients(
+                    freq_use, gain, pyfhd_config["cal_amp_degree_fit"]
                 )
                 cal["amp_params"][pol_i, tile_i, :] = fit_params
-                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                for di in range(fit_params.size):
                     gain_fit += fit_params[di] * np.arange(obs["n_freq"]) ** di
 
             gain_residual[pol_i, :, tile_i] = gain_amp[:, tile_i] - gain_fit
 
             # Fit for phase
             phase_use = np.unwrap(np.squeeze(gain_phase[freq_use, tile_i]))
-            phase_params = (
-                np.polynomial.Polynomial.fit(
-                    freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
-                )
-                .convert()
-                .coef
+            phase_params = polynomial_coefficients(
+                freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
             )
             cal["phase_params"][pol_i, tile_i, :] = phase_params
             phase_fit = np.zeros(obs["n_freq"])
-- 
2.43.0


From f867f1960e9f14e1cf5d1d596aaa3cda362c582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 023/110] fix: cable reflection fits from a file, from the
 delay spectrum and without hyperresolving

---
 PyFHD/calibration/calibration_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 1d3bf15..477d46a 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1053,11 +1053,11 @@ def vis_cal_polyfit(
 
             # Modes in fourier transform units
             mode_i_arr = np.zeros((cal["n_pol"], obs["n_tile"]))
-            mode_i_arr[0, :] = tile_mode_X * tile_ref_flag
-            mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
+            mode_i_arr[:] = np.vstack([tile_mode_X, tile_mode_Y])[: cal["n_pol"]]
+            mode_i_arr *= tile_ref_flag
 
             amp_arr = np.vstack([tile_amp_X, tile_amp_Y])
-            phase_arr = np.vstack[[tile_phase_X, tile_phase_Y]]
+            phase_arr = np.vstack([tile_phase_X, tile_phase_Y])
 
         elif pyfhd_config["cal_reflection_mode_theory"]:
             logger.info(
@@ -1101,7 +1101,7 @@ def vis_cal_polyfit(
             for pol_i in range(cal["n_pol"]):
                 for ti in range(tile_use.size):
                     tile_i = tile_use[ti]
-                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, tile_i]))
+                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, :, tile_i]))
                     mode_test += spec0[spec_inds]
             psf_mask = np.zeros(obs["n_freq"] // 2)
 
@@ -1135,7 +1135,7 @@ def vis_cal_polyfit(
                 tile_ref_flag[cable_cut] = 0
             mode_i_arr *= tile_ref_flag
 
-        cal["mode_params"] = np.empty([cal["n_pol"], obs["n_tile"], 3])
+        cal["mode_params"] = np.zeros([cal["n_pol"], obs["n_tile"], 3])
         for pol_i in range(cal["n_pol"]):
             # Divide the polyfit to reveal the residual cable reflections better
             gain_arr = og_gain_arr[pol_i] / cal["gain"][pol_i]
@@ -1240,7 +1240,7 @@ def vis_cal_polyfit(
                             np.exp(1j * 2 * np.pi / obs["n_freq"] * mode_i * freq_use)
                             * gain_arr[freq_use, tile_i]
                         )
-                        amp_use = np.abs(mode_fit) / freq_use[0].size
+                        amp_use = np.abs(mode_fit) / freq_use.size
                         phase_use = np.arctan2(mode_fit.imag, mode_fit.real)
 
                     gain_mode_fit = amp_use * np.exp(
-- 
2.43.0


From 130ce64c177e3f0dccd59e2abf7f917bd7aaecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 024/110] fix: polynomial calibration without a bandpass, and
 the error for max_cal_iter below 1

---
 PyFHD/calibration/calibrate.py                |  2 +-
 PyFHD/calibration/vis_calibrate_subroutine.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index 565a3c5..6084529 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -125,7 +125,7 @@ def calibrate(
         if pyfhd_config["auto_ratio_calibration"]:
             cal = cal_auto_ratio_remultiply(cal, auto_ratio, auto_tile_i)
     elif pyfhd_config["calibration_polyfit"]:
-        cal = vis_cal_polyfit(cal, obs, None, pyfhd_config, logger)
+        cal = vis_cal_polyfit(obs, cal, None, pyfhd_config, logger)
 
     # Get the gain residuals
     if pyfhd_config["calibration_auto_fit"]:
diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 616ec74..cad3817 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -80,16 +80,16 @@ def vis_calibrate_subroutine(
     # maximum iterations to perform for the linear least-squares solver
     max_cal_iter = pyfhd_config["max_cal_iter"]
     # Leave a warning if its less than 5 iterations, or an Error if its less than 1
-    if max_cal_iter < 5:
+    if max_cal_iter < 1:
+        raise ValueError(
+            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
+        )
+    elif max_cal_iter < 5:
         warnings.warn(
             "At Least 5 calibrations iterations is recommended.\nYou're currently using {} iterations".format(
                 int(max_cal_iter)
             )
         )
-    elif max_cal_iter < 1:
-        raise ValueError(
-            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
-        )
     conv_thresh = pyfhd_config["cal_convergence_threshold"]
     use_adaptive_gain = pyfhd_config["cal_adaptive_calibration_gain"]
     base_gain = pyfhd_config["cal_base_gain"]
-- 
2.43.0


From 0206b4d6d95084afe009ed1b4bfc600aaa275401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 025/110] fix: calibrate when every tile has the same number of
 equations

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index cad3817..db632d1 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -287,9 +287,6 @@ def vis_calibrate_subroutine(
                     A_ind_arr.append(-1)
                 # NEED SOMETHING MORE IN CASE INDIVIDUAL TILES ARE FLAGGED FOR ONLY A FEW FREQUENCIES!!
                 n_arr[tile_i] = inds.size
-            # I suspect a list of lists maybe faster than the object array, check during optimization
-            # Although I doubt it will make a huge difference.
-            A_ind_arr = np.array(A_ind_arr, dtype=object)
             # For tiles which don't satisfy the minimum number of solutions, pre-emptively set them to 0
             # in order to prevent certain failure in meeting strict convergence threshold
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
-- 
2.43.0


From 56edcfde63611ce025c402e857269073358343b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 026/110] fix: np.integer is not a dtype, index arrays are
 int64

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 477d46a..1c8efba 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -49,7 +49,7 @@ def vis_extract_autocorr(
     if autocorr_i.size > 0:
         auto_tile_i = obs["baseline_info"]["tile_a"][autocorr_i] - 1
         # As auto_tile_i is used for indexing we need to make it an integer array
-        auto_tile_i = auto_tile_i.astype(np.integer)
+        auto_tile_i = auto_tile_i.astype(np.int64)
         auto_tile_i_single = np.unique(auto_tile_i)
         # expect it as a list of 2D arrays, so there might be trouble
         if not pyfhd_config["cal_time_average"]:
@@ -359,7 +359,7 @@ def transfer_bandpass(
         time_integration = calfits[0].header["inttime"]
         freq_channel_width = calfits[0].header["chwidth"]
         x_orient = calfits[0].header["xorient"].strip()
-        data_dims = np.empty(naxis, dtype=np.integer)
+        data_dims = np.empty(naxis, dtype=np.int64)
         data_types = naxis * [""]
         for naxis_i in range(naxis):
             # Get the dimensions of the data
-- 
2.43.0


From 7cf663381605a1a79641726a8f5340ef12109533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 027/110] fix: baseline statistics leave out model visibilities
 of zero

---
 PyFHD/calibration/calibration_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 1c8efba..bded6e4 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1536,6 +1536,7 @@ def vis_baseline_hist(
                 wh_noflag = np.where(np.abs(model_vals) > 0)[0]
                 if wh_noflag.size > 0:
                     inds = inds[wh_noflag]
+                    model_vals = model_vals[wh_noflag]
                 else:
                     continue
                 # if Keyword_Set(calibration_visibilities_subtract) THEN BEGIN
-- 
2.43.0


From b18e7af37f7d412bc0db0fb5313fea8766d2ec3d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 028/110] fix: grid locations on a uv plane with different
 dimension and elements

---
 PyFHD/gridding/gridding_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 69438e2..02b5c26 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -225,12 +225,12 @@ def baseline_grid_locations(
         baselines_dict["dx1dy1_arr"] = dx_arr * dy_arr
 
     # The minimum pixel in the uv-grid (bottom left of the kernel) that each baseline contributes to
-    xmin = (np.floor(xcen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
-    ymin = (np.floor(ycen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    xmin = (np.floor(xcen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    ymin = (np.floor(ycen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
 
     # Set the minimum pixel value of baselines which fall outside of the uv-grid tom -1 to exclude them
-    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= elements - 1))
-    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= dimension - 1))
+    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= dimension - 1))
+    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= elements - 1))
     if range_test_x_i[0].size > 0:
         xmin[range_test_x_i] = -1
         ymin[range_test_x_i] = -1
-- 
2.43.0


From e843d2bb25d400dcb9bf4d1d068f666106571050 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 029/110] fix: filter_uv_uniform counts the visibilities with
 visibility_count's arguments

---
 PyFHD/gridding/filters.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/PyFHD/gridding/filters.py b/PyFHD/gridding/filters.py
index 450aeff..e31f7b0 100644
--- a/PyFHD/gridding/filters.py
+++ b/PyFHD/gridding/filters.py
@@ -16,6 +16,7 @@ def filter_uv_uniform(
     fi_use: NDArray[np.integer] | None = None,
     bi_use: NDArray[np.integer] | None = None,
     mask_mirror_indices: bool = False,
+    psf: dict | None = None,
 ) -> tuple[NDArray[np.complex128], NDArray[np.float64]]:
     """
     Perform uniform weighting in {u,v} space.
@@ -42,6 +43,8 @@ def filter_uv_uniform(
         Baseline index array for gridding, i.e even vs odd time stamps, by default None
     mask_mirror_indices : bool, optional
         Exclude baselines mirrored along the v-axis, by default False
+    psf : dict | None, optional
+        Beam metadata dictionary, by default None
 
     Returns
     -------
@@ -53,7 +56,7 @@ def filter_uv_uniform(
     Raises
     ------
     TypeError
-        In the case obs or params is None and vis_count is also None
+        In the case obs, psf or params is None and vis_count is also None
     """
 
     # If you need the name, grab it from pyfhd_config where needed
@@ -61,16 +64,16 @@ def filter_uv_uniform(
     # This does not make use of fine-grained flagging, but relies on coarse flags from the obs structure
     # (i.e. a list of tiles completely flagged, and of frequencies completely flagged)
     if vis_count is None:
-        if obs is not None or params is not None:
+        if obs is not None and params is not None and psf is not None:
             vis_count = gridding_utils.visibility_count(
                 obs,
+                psf,
                 params,
                 weights,
-                pyfhd_config,
                 logger,
-                fi_use,
-                bi_use,
-                mask_mirror_indices,
+                fi_use=fi_use,
+                bi_use=bi_use,
+                mask_mirror_indices=mask_mirror_indices,
             )
         elif weights is not None and np.size(weights) == np.size(image_uv):
             if np.max(weights) == 0:
@@ -78,7 +81,7 @@ def filter_uv_uniform(
             else:
                 vis_count = np.abs(weights) / np.min(np.abs(weights[weights > 0]))
         else:
-            raise TypeError("obs and params must not be None when vis_count is None")
+            raise TypeError("obs, psf and params must not be None when vis_count is None")
 
     # Get the parts of the filter we're using
     filter_use = weight_invert(vis_count, threshold=1)
-- 
2.43.0


From 635825f6f5c2bdd34a69ab8971e479ef140b32b7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 030/110] fix: gridding uses each visibility's own frequency,
 baseline and beam group

---
 PyFHD/gridding/visibility_grid.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 4632878..56ec47b 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -6,7 +6,7 @@ from PyFHD.gridding.gridding_utils import (
     grid_beam_per_baseline,
     conjugate_mirror,
 )
-from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert, rebin, l_m_n, idl_argunique
+from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert, l_m_n, idl_argunique
 from logging import Logger
 import h5py
 
@@ -150,7 +150,6 @@ def visibility_grid(
         psf_resolution = psf_resolution[0]
         group_arr = group_arr[:]
     n_baselines = obs["n_baselines"]
-    n_samples = obs["n_time"]
     # New group_arr code that is consistent with the FHD version
     # We go upto n_baselines in the case we have less baselines in the
     # observation than the transferred in beam. In most cases we're only
@@ -159,14 +158,12 @@ def visibility_grid(
     # beams have been done per baseline so if you get an error, sorry!
     group_arr_baselines = np.min([n_baselines, group_arr.shape[-1]])
     group_arr = group_arr[polarization, freq_bin_i, :group_arr_baselines]
-    # REBIN in IDL when expanding dimensions repeats 2D arrays after expanding
-    group_arr = np.expand_dims(rebin(group_arr, (n_f_use, group_arr_baselines)), axis=0)
-    group_arr = np.repeat(group_arr, n_samples, axis=0)
-    group_arr = np.reshape(group_arr, (n_f_use, n_samples * group_arr_baselines))
-    n_freq_use = frequency_array.size
+    # The group of every frequency and baseline in use, in the order of the visibilities
+    bi_use_reduced = bi_use % n_baselines
+    group_arr = group_arr[:, bi_use_reduced % group_arr_baselines]
+    n_bi_use = bi_use.size
     psf_dim2 = 2 * psf_dim
     psf_dim3 = psf_dim**2
-    bi_use_reduced = bi_use % n_baselines
 
     # Flags have been defined in the function definition
     # Instead of reading the flags and then setting them.
@@ -255,12 +252,13 @@ def visibility_grid(
         ymin_use = ymin.flat[ind0]
 
         # Find the frequency group per index
-        freq_i = inds % n_freq_use
+        # The arrays are of shape (n_freq_use, n_bi_use)
+        freq_i = inds // n_bi_use
         fbin = freq_bin_i[freq_i]
 
         # Calculate the number of selected visibilities and their baseline index
         vis_n = bin_n[bin_i[bi]]
-        baseline_inds = bi_use_reduced[((inds / n_f_use) % n_baselines).astype(int)]
+        baseline_inds = bi_use_reduced[inds % n_bi_use]
 
         if interp_flag:
             # Calculate the interpolated kernel on the uv-grid given the derivatives to baseline locations
@@ -364,10 +362,7 @@ def visibility_grid(
                     model_box = model_use.flat[inds]
                 vis_box = vis_arr_use.flat[inds]
                 psf_weight = np.ones(vis_n)
-                # IDL had integer / integer i.e. 2015 / 336 == 5, used flooring divider instead in python
-                # ALso do take note that each were very close always within 0.01 of their next number.
-                # e.g. 2015 / 336 = 5.99, should ceiling be be used instead?
-                bt_index = inds // n_freq_use
+                bt_index = inds % n_bi_use
 
             box_matrix = np.zeros((vis_n, psf_dim3), dtype=arr_type)
             if pyfhd_config["beam_per_baseline"]:
-- 
2.43.0


From 3a109815ce0a9d21bcd84700f4abcddba79ef060 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 031/110] fix: spectral gridding of a model

---
 PyFHD/gridding/visibility_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 56ec47b..bfffaa8 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -433,7 +433,7 @@ def visibility_grid(
                 )
                 spectral_model_A[
                     ymin_use : ymin_use + psf_dim, xmin_use : xmin_use + psf_dim
-                ] += term_Am_box
+                ].flat += term_Am_box
 
         if model is not None:
             # If model visibilities are being gridded, calculate the product of the model vis and the beam kernel
-- 
2.43.0


From 7e4f76452d9c636fab5b34c044f8fd41121d0b59 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 032/110] fix: beam per baseline gridding on a uv plane with
 different dimension and elements

---
 PyFHD/gridding/visibility_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index bfffaa8..98e39b4 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -175,7 +175,7 @@ def visibility_grid(
         vv = params["vv"][bi_use]
         ww = params["ww"][bi_use]
         x = (np.arange(dimension) - dimension / 2) * obs["kpix"]
-        y = x.copy()
+        y = (np.arange(elements) - elements / 2) * obs["kpix"]
         psf_intermediate_res = np.min(
             [np.ceil(np.sqrt(psf_resolution) / 2) * 2, psf_resolution]
         )
-- 
2.43.0


From 24715c7f50177ad0b476a24019c4239b810dd1f8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 033/110] fix: dirty_image_generate leaves the uv plane it is
 given alone

---
 PyFHD/gridding/gridding_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 02b5c26..086287e 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -362,7 +362,8 @@ def dirty_image_generate(
 
     # dimension is columns, elements is rows
     elements, dimension = dirty_image_uv.shape
-    di_uv_use = dirty_image_uv
+    # The plane given is masked, filtered and scaled as a copy
+    di_uv_use = dirty_image_uv.copy()
     # If the baseline threshold has been set
     if baseline_threshold is not None:
         if width_smooth is None:
-- 
2.43.0


From 732873988c5d82647d11c438a95b0995e9cf3f36 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 034/110] fix: smoothed baseline threshold of a uv plane with
 different dimension and elements

---
 PyFHD/gridding/gridding_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 086287e..2df608a 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -369,8 +369,8 @@ def dirty_image_generate(
         if width_smooth is None:
             width_smooth = np.floor(np.sqrt(dimension * elements) / 100)
         rarray = np.sqrt(
-            (meshgrid(dimension, 1) - dimension / 2) ** 2
-            + (meshgrid(elements, 2) - elements / 2) ** 2
+            (meshgrid(dimension, elements, 1) - dimension / 2) ** 2
+            + (meshgrid(dimension, elements, 2) - elements / 2) ** 2
         )
         # Get all the values that meet the threshold
         if baseline_threshold >= 0:
@@ -392,8 +392,9 @@ def dirty_image_generate(
         box_averages = convolve(mask_bt, Box2DKernel(kernel_width), mode="valid")
         # Since IDL SMOOTH edges by default are the edges of the array used, ignore edges (its the reason why we used a valid convolve)
         start = int(kernel_width // 2)
-        end = int(mask_bt.shape[1] - (kernel_width // 2))
-        mask_bt[start:end, start:end] = box_averages
+        end_rows = int(mask_bt.shape[0] - (kernel_width // 2))
+        end_cols = int(mask_bt.shape[1] - (kernel_width // 2))
+        mask_bt[start:end_rows, start:end_cols] = box_averages
         # Apply boxed mask to the dirty image
         di_uv_use *= mask_bt
 
-- 
2.43.0


From 4374e019be4655b889a64db0ec3e59580ec3733f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 035/110] fix: beam image from uv kernels crashed, took the
 first polarisation and lacked FHD's normalization

---
 PyFHD/beam_setup/beam_utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index a8d7244..0b6032b 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -125,10 +125,10 @@ def beam_image(
         freq_norm = freq_norm[:]
         pix_horizon = pix_horizon[0]
     dimension = elements = obs["dimension"]
-    xl = dimension / 2 - psf_dim / 2 + 1
-    xh = dimension / 2 - psf_dim / 2 + psf_dim
-    yl = elements / 2 - psf_dim / 2 + 1
-    yh = elements / 2 - psf_dim / 2 + psf_dim
+    xl = int(dimension / 2 - psf_dim / 2 + 1)
+    xh = int(dimension / 2 - psf_dim / 2 + psf_dim)
+    yl = int(elements / 2 - psf_dim / 2 + 1)
+    yh = int(elements / 2 - psf_dim / 2 + psf_dim)
 
     group_n, _, ri_id = histogram(group_id, min=0)
     gi_use = np.nonzero(group_n)
@@ -185,7 +185,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
                 beam_single /= np.sum(group_n[gi_use])
                 if abs:
@@ -193,7 +193,8 @@ def beam_image(
                 beam_base_uv1 = np.zeros([dimension, elements], np.complex128)
                 beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_single
                 beam_base_single = np.fft.fftshift(
-                    np.fft.ifftn(np.fft.fftshift(beam_base_uv1))
+                # The inverse FFT has no normalization in FHD, use the same here
+                    np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward")
                 )
                 beam_base += (
                     nf_bin * (beam_base_single * np.conjugate(beam_base_single)).real
@@ -228,7 +229,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
             beam_single /= np.sum(group_n[gi_use])
             beam_base_uv += beam_single
@@ -237,7 +238,10 @@ def beam_image(
         if beam_gaussian_params is None:
             beam_base_uv1 = np.zeros([dimension, elements], dtype=np.complex128)
             beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_base_uv
-            beam_base = np.fft.fftshift(np.fft.ifftn(np.fft.fftshift(beam_base_uv1)))
+            # The inverse FFT has no normalization in FHD, use the same here
+            beam_base = np.fft.fftshift(
+                np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward")
+            )
         else:
             beam_base = beam_base_uv
 
-- 
2.43.0


From 58bca2193ac9f020b0b096913ee8e54500e97ed4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 036/110] fix: squared beam image of several frequency bins

---
 PyFHD/beam_setup/beam_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 0b6032b..4751d20 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -165,6 +165,7 @@ def beam_image(
         for bin_i in range(nbin):
             fbin = fbin_use[bin_i]
             nf_bin = np.count_nonzero(freq_bin_use == fbin)
+            beam_single[:, :] = 0
             if beam_gaussian_params is not None:
                 for gi in range(n_groups):
                     # beam_gaussian_params needs to be copied here rather than
@@ -189,7 +190,7 @@ def beam_image(
                     ).reshape([psf_dim, psf_dim])
                 beam_single /= np.sum(group_n[gi_use])
                 if abs:
-                    beam_single = np.abs(beam_single)
+                    beam_single[:, :] = np.abs(beam_single)
                 beam_base_uv1 = np.zeros([dimension, elements], np.complex128)
                 beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_single
                 beam_base_single = np.fft.fftshift(
-- 
2.43.0


From 2c0b3871fc2626f0592f31188100b04981be4b85 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 037/110] fix: beam image of one frequency channel

---
 PyFHD/beam_setup/beam_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 4751d20..add44fb 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -193,8 +193,8 @@ def beam_image(
                     beam_single[:, :] = np.abs(beam_single)
                 beam_base_uv1 = np.zeros([dimension, elements], np.complex128)
                 beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_single
-                beam_base_single = np.fft.fftshift(
                 # The inverse FFT has no normalization in FHD, use the same here
+                beam_base_single = np.fft.fftshift(
                     np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward")
                 )
                 beam_base += (
@@ -202,6 +202,7 @@ def beam_image(
                 )
             n_bin_use += nf_bin * freq_norm[fbin]
     else:
+        freq_i_use = np.atleast_1d(freq_i_use)
         nf_use = freq_i_use.size
         if beam_gaussian_params is not None:
             beam_base_uv = np.zeros([dimension, elements])
-- 
2.43.0


From ab3342fb73aeed335f10c6531e0ba51f07b978ca Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 038/110] fix: beam image with several groups of baselines

---
 PyFHD/beam_setup/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index add44fb..c558d4b 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -131,7 +131,7 @@ def beam_image(
     yh = int(elements / 2 - psf_dim / 2 + psf_dim)
 
     group_n, _, ri_id = histogram(group_id, min=0)
-    gi_use = np.nonzero(group_n)
+    gi_use = np.nonzero(group_n)[0]
     # Most likely going to be 1 as PyFHD does only one beam mostly
     n_groups = np.count_nonzero(group_n)
 
-- 
2.43.0


From 4b1b69cdd7ad8533484aaf31b4d6901906f1f8ce Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 039/110] fix: beam_image_cube with frequencies, or with
 channels that are not in order

---
 PyFHD/healpix/healpix_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index b46edc8..06c0625 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -352,9 +352,12 @@ def beam_image_cube(
         n_freq_bin = freq_i_arr.size
 
     if np.median(freq_i_arr) > obs["n_freq"]:
-        freq_i_use = np.interp(
-            np.arange(obs["n_freq"]), obs["baseline_info"]["freq"], freq_i_arr
-        )
+        # Frequencies have been given, use the nearest channels
+        freq_i_use = np.round(
+            np.interp(
+                freq_i_arr, obs["baseline_info"]["freq"], np.arange(obs["n_freq"])
+            )
+        ).astype(np.int64)
     else:
         freq_i_use = freq_i_arr
 
@@ -365,14 +368,13 @@ def beam_image_cube(
     bin_use = np.nonzero(bin_hist)[0]
     if np.size(bin_use) == 0:
         return beam_arr
-    bin_n = bin_hist[bin_use]
     beam_mask = np.ones([obs["dimension"], obs["elements"]])
     for pol_i in range(obs["n_pol"]):
         for fb_i in range(np.size(bin_use)):
             f_i_i = bri[bri[bin_use[fb_i]] : bri[bin_use[fb_i] + 1]]
             f_i = freq_i_use[f_i_i[0]]
             beam_single = beam_image(psf, obs, pol_i, freq_i=f_i, square=square)
-            beam_arr[pol_i, f_i_i[0] : f_i_i[bin_n[fb_i] - 1] + 1] = beam_single
+            beam_arr[pol_i, f_i_i] = beam_single
             b_i = int(obs["obsx"] + obs["obsy"] * obs["dimension"])
             beam_i = region_grow(
                 beam_single,
-- 
2.43.0


From d4cad30836e0bf96bbe20fb28a58b020458372f3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 040/110] fix: HEALPix pixels exactly on a row or column of the
 image

---
 PyFHD/healpix/healpix_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 06c0625..5d22ea4 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -50,7 +50,10 @@ def healpix_cnv_apply(
         i_use = hpx_cnv["i_use"][i]
         # Transpose is always True when used inside healpix_cnv_apply when using
         # sprsax2, so we can ignore the transpose keyword
-        hpx_map[hpx_cnv["ija"][i]] += hpx_cnv["sa"][i] * image_vector[i_use]
+        # A HEALPix pixel on a row or column of the image is listed more than once
+        np.add.at(
+            hpx_map, hpx_cnv["ija"][i], hpx_cnv["sa"][i] * image_vector[i_use]
+        )
     return hpx_map
 
 
-- 
2.43.0


From 77833d7c649da2885103ede30629bb13eae29cc4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 041/110] fix: HEALPix pixels of an observation without a list
 of indices

---
 PyFHD/healpix/healpix_utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 5d22ea4..37108f2 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -176,9 +176,9 @@ def healpix_cnv_generate(
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
     else:
         cen_coords = ang2vec(obs["obsra"], obs["obsdec"], lonlat=True)
-        hpx_inds = query_disc(nside, cen_coords, hpx_radius)
-        pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
-        pix_dec, pix_ra = vec2ang(pix_coords, lonlat=True)
+        hpx_inds = query_disc(int(nside), cen_coords, np.radians(hpx_radius))
+        pix_coords = np.vstack(pix2vec(int(nside), hpx_inds)).T
+        pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
         # slightly more restrictive boundary here ('LT' and 'GT' instead of 'LE' and 'GE')
         pix_i_use = np.where(
@@ -186,19 +186,25 @@ def healpix_cnv_generate(
             & (xv_hpx < obs["dimension"] - 1)
             & (yv_hpx > 0)
             & (yv_hpx < obs["elements"] - 1)
-        )
+        )[0]
         xv_hpx = xv_hpx[pix_i_use]
         yv_hpx = yv_hpx[pix_i_use]
-        hpx_mask00 = mask[np.floor(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask01 = mask[np.floor(xv_hpx), np.ceil(yv_hpx)]
-        hpx_mask10 = mask[np.ceil(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask11 = mask[np.ceil(xv_hpx), np.ceil(yv_hpx)]
+        x_floor = np.floor(xv_hpx).astype(np.int64)
+        x_ceil = np.ceil(xv_hpx).astype(np.int64)
+        y_floor = np.floor(yv_hpx).astype(np.int64)
+        y_ceil = np.ceil(yv_hpx).astype(np.int64)
+        hpx_mask00 = mask[y_floor, x_floor]
+        hpx_mask01 = mask[y_ceil, x_floor]
+        hpx_mask10 = mask[y_floor, x_ceil]
+        hpx_mask11 = mask[y_ceil, x_ceil]
         hpx_mask = hpx_mask00 * hpx_mask01 * hpx_mask10 * hpx_mask11
-        pix_i_use2 = np.nonzero(hpx_mask)
+        pix_i_use2 = np.nonzero(hpx_mask)[0]
         xv_hpx = xv_hpx[pix_i_use2]
         yv_hpx = yv_hpx[pix_i_use2]
         pix_i_use = pix_i_use[pix_i_use2]
         hpx_inds = hpx_inds[pix_i_use]
+        pix_ra = pix_ra[pix_i_use]
+        pix_dec = pix_dec[pix_i_use]
 
     # Test for pixels past the horizon. We don't need to be precise with this, so turn off precession, etc..
     # Get the location from instrument name
-- 
2.43.0


From 66afa80eec0494e540fa43d906d7aa6fb50b25f5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 042/110] fix: HEALPix pixels outside of the image take no
 values from its other side

---
 PyFHD/healpix/healpix_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 37108f2..91cb531 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -230,6 +230,15 @@ def healpix_cnv_generate(
     x_frac = 1 - (xv_hpx - np.floor(xv_hpx))
     y_frac = 1 - (yv_hpx - np.floor(yv_hpx))
 
+    # The pixels outside of the image would take their values from its other side
+    inside = (
+        (xv_hpx >= 0)
+        & (xv_hpx <= obs["dimension"] - 1)
+        & (yv_hpx >= 0)
+        & (yv_hpx <= obs["elements"] - 1)
+    )
+    xv_hpx = np.where(inside, xv_hpx, -obs["dimension"])
+    yv_hpx = np.where(inside, yv_hpx, -obs["elements"])
     v_floor = np.floor(xv_hpx) + obs["dimension"] * np.floor(yv_hpx)
     v_ceil = np.ceil(xv_hpx) + obs["dimension"] * np.ceil(yv_hpx)
     # Differences in precision occur here compared to IDL, unsolvable ones as we're using
@@ -237,7 +246,9 @@ def healpix_cnv_generate(
     # numbers are "better" compared to IDL, as a result the v_floor and v_ceil arrays are one off
     # compared to IDL, making min_bin off by one
     min_bin = max(np.nanmin(v_floor), 0)
-    max_bin = min(np.nanmax(v_ceil), obs["dimension"] * obs["elements"] - 1)
+    max_bin = min(
+        max(np.nanmax(v_ceil), min_bin), obs["dimension"] * obs["elements"] - 1
+    )
     h00, _, ri00 = histogram(v_floor, min=min_bin, max=max_bin)
     h01, _, ri01 = histogram(
         np.floor(xv_hpx) + obs["dimension"] * np.ceil(yv_hpx), min=min_bin, max=max_bin
-- 
2.43.0


From 9bfcfa01308f887550024f65202fa2b2950ce9dd Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 043/110] fix: phase shift of a uv plane with different
 dimension and elements

---
 PyFHD/healpix/healpix_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 91cb531..d6a02e8 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -432,14 +432,14 @@ def phase_shift_uv_image(obs: dict) -> NDArray[np.complex128]:
         obs["phasera"] == obs["orig_phasera"]
         and obs["phasedec"] == obs["orig_phasedec"]
     ):
-        return np.ones([obs["dimension"], obs["elements"]], dtype=np.complex128)
+        return np.ones([obs["elements"], obs["dimension"]], dtype=np.complex128)
 
     x, y = radec_to_pixel(ra_use, dec_use, obs["astr"])
 
     # uv_mask is not applied in FHD examples or docs decided not to translate it, if you want it put it here
 
     dx = (x - (obs["dimension"] / 2)) * (2 * np.pi / obs["dimension"])
-    dy = (y - (obs["elements"] / 2)) * (2 * np.pi / obs["dimension"])
+    dy = (y - (obs["elements"] / 2)) * (2 * np.pi / obs["elements"])
 
     xvals = meshgrid(obs["dimension"], obs["elements"], 1) - (obs["dimension"] / 2)
     yvals = meshgrid(obs["dimension"], obs["elements"], 2) - (obs["elements"] / 2)
-- 
2.43.0


From 096443ff19fa9d4e43132b4475d74433ace7a8a2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 044/110] fix: baselines in use of vis_model_freq_split

---
 PyFHD/healpix/healpix_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index d6a02e8..517e77f 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -534,12 +534,11 @@ def vis_model_freq_split(
     if bi_use is None:
         if obs["n_pol"] > 1:
             flag_test = np.maximum(np.maximum(vis_weights[0], vis_weights[1]), 0)
-            # Double check the axis used
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
         else:
             flag_test = np.maximum(vis_weights[0], 0)
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
 
     n_vis_use = 0
-- 
2.43.0


From 8fa8d2c6c572002f759848eb8549a1a1fa47c52a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 045/110] fix: vis_model_freq_split without the FFT keeps
 complex uv planes

---
 PyFHD/healpix/healpix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 517e77f..5815823 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -520,10 +520,12 @@ def vis_model_freq_split(
         model_uv_arr = np.zeros(
             [nf, obs["dimension"], obs["dimension"]], dtype=np.complex128
         )
-    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
+    # Without the FFT these stay complex uv planes
+    dtype = np.float64 if fft else np.complex128
+    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=dtype)
+    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=dtype)
+    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=dtype)
+    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=dtype)
     vis_n_arr = np.zeros([nf])
     if pyfhd_config["rephase_weights"]:
         rephase_use = phase_shift_uv_image(obs)
-- 
2.43.0


From 6660934772a0241dd00770a7ca25484b407b6f3d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 046/110] fix: channels without gridded visibilities count none

---
 PyFHD/healpix/healpix_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 5815823..712fe40 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -567,6 +567,7 @@ def vis_model_freq_split(
             logger.warning(
                 f"No visibilities gridded for frequency channel {fi_use} and polarization {polarization}"
             )
+            obs["nf_vis"][fi_use] = 0
             continue
         n_vis_use += gridding_dict["n_vis"]
         vis_n_arr[fi] = gridding_dict["n_vis"]
-- 
2.43.0


From 69b0061cb0620d0994352a328f14fa0272b770a2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 047/110] fix: HEALPix export without splitting into even and
 odd times

---
 PyFHD/healpix/export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 26a72c9..eec8fae 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -135,7 +135,9 @@ def healpix_snapshot_cube_generate(
         n_iter = 1
         uvf_name = [""]
         obs_out["vis_noise"] = vis_noise_calc(obs_out, vis_arr, vis_weights)
-        bi_use = np.zeros(1, dtype=np.int64)
+        # Use every baseline with weights
+        vis_weights_use = vis_weights
+        bi_use = [None]
 
     # Looks like this is set to False by default?
     residual_flag = obs_out["residual"]
-- 
2.43.0


From e60f51f2cd776e61c8b7dd7dd41a5759db80ed64 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 048/110] fix: HEALPix export without ps_kspan

---
 PyFHD/healpix/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index eec8fae..ffbba1e 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -70,7 +70,8 @@ def healpix_snapshot_cube_generate(
 
     fov_use = (180 / np.pi) / kbinsize
 
-    if pyfhd_config["ps_kspan"] is not None:
+    # 0 is the default of ps_kspan and means it isn't set
+    if pyfhd_config["ps_kspan"]:
         dimension_use = pyfhd_config["ps_kspan"] / kbinsize
     elif pyfhd_config["ps_dimension"] is not None:
         dimension_use = pyfhd_config["ps_dimension"]
-- 
2.43.0


From 0ae711d3c932a4d2dc375feb6790bfb5c486e9cc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 049/110] fix: beam_image_cube with a beam below the threshold
 in the centre

---
 PyFHD/healpix/healpix_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 712fe40..5656e61 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -403,7 +403,9 @@ def beam_image_cube(
                 high=np.max(beam_single),
             )
             beam_mask1 = np.zeros([obs["dimension"], obs["elements"]])
-            beam_mask1.flat[beam_i] = 1
+            # There is no region when the beam is below the threshold in the centre
+            if beam_i is not None:
+                beam_mask1.flat[beam_i] = 1
             beam_mask *= beam_mask1
     return beam_arr, beam_mask
 
-- 
2.43.0


From 31764a2dc7758bc8f3278314a6413675a36e5c3e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 050/110] fix: lazily loaded beams that PyFHD has saved itself

---
 PyFHD/beam_setup/beam_utils.py    |  4 ++--
 PyFHD/gridding/gridding_utils.py  | 10 +++++-----
 PyFHD/gridding/visibility_grid.py |  6 +++---
 PyFHD/pyfhd_tools/pyfhd_utils.py  |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index c558d4b..4c1fd45 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -121,9 +121,9 @@ def beam_image(
     rbin = 0
     # If we lazy loaded psf, get actual numbers out of the datasets
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = psf_dim[()].item()
         freq_norm = freq_norm[:]
-        pix_horizon = pix_horizon[0]
+        pix_horizon = pix_horizon[()].item()
     dimension = elements = obs["dimension"]
     xl = int(dimension / 2 - psf_dim / 2 + 1)
     xh = int(dimension / 2 - psf_dim / 2 + psf_dim)
diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 2df608a..ac03847 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -144,8 +144,8 @@ def baseline_grid_locations(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = psf_dim[()].item()
+        psf_resolution = psf_resolution[()].item()
 
     # Frequency information of the visibilities
     if fill_model_visibilities:
@@ -594,8 +594,8 @@ def grid_beam_per_baseline(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = psf_dim[()].item()
+        psf_resolution = psf_resolution[()].item()
     # Loop over all visibilities that fall within the chosen visibility box
     for ii in range(vis_n):
         # Pixel center offset phases
@@ -739,7 +739,7 @@ def visibility_count(
     elements = int(obs["elements"])
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = psf_dim[()].item()
 
     baselines_dict = baseline_grid_locations(
         obs,
diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 98e39b4..e2a4728 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -146,8 +146,8 @@ def visibility_grid(
     psf_resolution = psf["resolution"]
     group_arr = psf["id"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = psf_dim[()].item()
+        psf_resolution = psf_resolution[()].item()
         group_arr = group_arr[:]
     n_baselines = obs["n_baselines"]
     # New group_arr code that is consistent with the FHD version
@@ -181,7 +181,7 @@ def visibility_grid(
         )
         psf_image_dim = psf["image_info"]["psf_image_dim"]
         if isinstance(psf_image_dim, h5py.Dataset):
-            psf_image_dim = psf_image_dim[0]
+            psf_image_dim = psf_image_dim[()].item()
         image_bot = int(-(psf_dim / 2) * psf_intermediate_res + psf_image_dim / 2)
         image_top = int(
             (psf_dim * psf_resolution - 1)
diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 2119df9..984d15e 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1144,7 +1144,7 @@ def vis_weights_update(
         ky_arr[conj_i] = -ky_arr[conj_i]
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = psf_dim[()].item()
     xcen = np.outer(obs["baseline_info"]["freq"], kx_arr)
     xmin = np.floor(xcen) + obs["dimension"] / 2 - (psf_dim / 2 - 1)
     ycen = np.outer(obs["baseline_info"]["freq"], ky_arr)
-- 
2.43.0


From aeb2e20a8becbd847f2c5e8d6342d4965eae0b35 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 051/110] fix: image renormalization away from the diagonal of
 the beam

---
 PyFHD/io/pyfhd_quickview.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 4d18bf6..ace1663 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -62,10 +62,10 @@ def get_image_renormalization(
             beam_ptr=beam_base[pol_i],
             degpix=obs["degpix"],
         )
-        dirty_num = dirty_image[obs["dimension"] // 2, obs["elements"] // 2]
+        dirty_num = dirty_image[obs["elements"] // 2, obs["dimension"] // 2]
         renorm_factor[pol_i] = 1 / dirty_num
         renorm_factor[pol_i] *= (
-            beam_base[pol_i, int(obs["obsx"]), int(obs["obsy"])] ** 2
+            beam_base[pol_i, int(obs["obsy"]), int(obs["obsx"])] ** 2
         )
         renorm_factor[pol_i] /= (obs["degpix"] * (np.pi / 180)) ** 2
     return renorm_factor
-- 
2.43.0


From 99639f112bea4db11ea9abd6704ee246f3de55e1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 052/110] fix: quickview with a beam below the threshold in the
 centre

---
 PyFHD/io/pyfhd_quickview.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index ace1663..31b4068 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -236,7 +236,9 @@ def quickview(
                 high=np.max(beam_mask_test),
             )
             beam_mask0 = np.zeros([obs_out["dimension"], obs_out["elements"]])
-            beam_mask0.flat[beam_i] = 1
+            # There is no region when the beam is below the threshold in the centre
+            if beam_i is not None:
+                beam_mask0.flat[beam_i] = 1
             beam_avg += beam_base_out[pol_i] ** 2
             beam_mask *= beam_mask0
     beam_avg /= min(obs["n_pol"], 2)
-- 
2.43.0


From 8445a484ba43ada75ceb713aaec9aba4100eec3a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 053/110] fix: quickview of padded and cross polarized images

---
 PyFHD/io/pyfhd_quickview.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 31b4068..301a5ba 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -246,8 +246,12 @@ def quickview(
     beam_i = np.nonzero(beam_mask)
 
     # Generate our dirty images of the uv planes
-    instr_dirty_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
-    instr_model_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
+    # The images are padded and the ones of the cross polarizations are complex
+    instr_dirty_arr = np.empty(
+        [obs["n_pol"], obs_out["dimension"], obs_out["elements"]],
+        dtype=np.complex128 if obs["n_pol"] > 2 else np.float64,
+    )
+    instr_model_arr = np.empty_like(instr_dirty_arr)
     filter_arr = np.zeros([obs["n_pol"], obs["dimension"], obs["elements"]])
     for pol_i in range(obs["n_pol"]):
         complex_flag = pol_i > 1
@@ -297,6 +301,10 @@ def quickview(
         )
         instr_model_arr, _ = crosspol_split_real_imaginary(instr_model_arr)
         instr_residual_arr, _ = crosspol_split_real_imaginary(instr_residual_arr)
+        # Each image is real after the split
+        instr_dirty_arr = instr_dirty_arr.real
+        instr_model_arr = instr_model_arr.real
+        instr_residual_arr = instr_residual_arr.real
         # The weights should have been saved at this point and we only need them like this from here
         weights_uv, _ = crosspol_split_real_imaginary(weights_uv)
 
-- 
2.43.0


From cb95be128a6f425df536ccdcff1b6c467f907ff0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 054/110] fix: reference pixel of the uv weights of padded
 images

---
 PyFHD/io/pyfhd_quickview.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 301a5ba..e2d11a8 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -363,12 +363,9 @@ def quickview(
     fits_file_uv.header.set("CD2_1", 0.0, "Wavelengths / Pixel")
     fits_file_uv.header.set("CD1_2", 0.0, "Wavelengths / Pixel")
     fits_file_uv.header.set("CD2_2", obs["kpix"], "Wavelengths / Pixel")
-    fits_file_uv.header.set(
-        "CRPIX1", obs_out["dimension"] / 2 + 1, "Reference Pixel in X"
-    )
-    fits_file_uv.header.set(
-        "CRPIX2", obs_out["elements"] / 2 + 1, "Reference Pixel in Y"
-    )
+    # The uv plane isn't padded
+    fits_file_uv.header.set("CRPIX1", obs["dimension"] / 2 + 1, "Reference Pixel in X")
+    fits_file_uv.header.set("CRPIX2", obs["elements"] / 2 + 1, "Reference Pixel in Y")
     fits_file_uv.header.set("CRVAL1", 0.0, "Wavelengths (u)")
     fits_file_uv.header.set("CRVAL2", 0.0, "Wavelengths (v)")
     fits_file_uv.header.set(
-- 
2.43.0


From d73c92a8ad4e6c7006d84131b3eabbe6401b5b9b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 055/110] fix: uv weights of each polarization in its own file

---
 PyFHD/io/pyfhd_quickview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index e2d11a8..dcda80d 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -417,7 +417,7 @@ def quickview(
             Path(fits_output, f"{pyfhd_config['obs_id']}_beam_{pol_names[pol_i]}.fits"),
             overwrite=True,
         )
-        fits_file_uv.data = np.abs(weights_uv) * obs["n_vis"]
+        fits_file_uv.data = np.abs(weights_uv[pol_i]) * obs["n_vis"]
         fits_file_uv.writeto(
             Path(
                 fits_output,
-- 
2.43.0


From 43bbec536c98b085e5066a139c493c79c8bff78c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 056/110] fix: autocorrelations of a model are matched to those
 of the data

---
 PyFHD/source_modeling/vis_model_transfer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 0c73a24..3d2e49f 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -206,7 +206,7 @@ class _FlaggingInfoCounter(object):
         self.num_cross_per_time = int((self.num_ants * (self.num_ants - 1)) / 2)
 
         # number of visibilities per time step
-        self.num_visi_per_time_step = self.num_cross_per_time + self.num_autos_per_time
+        self.num_visi_per_time_step = self.num_visis // self.num_times
 
         # within a single time step, where the cross-correlations are indexed
         # can use this while iterating over time to select the crosses only
@@ -340,7 +340,10 @@ def flag_model_visibilities(
     # model to include empty autocorrelations in the correct spots
 
     include_autos = True
-    if flaginfo_model.num_autos == 0:
+    if flaginfo_data.num_autos == 0:
+        include_autos = False
+
+    elif flaginfo_model.num_autos == 0:
         logger.warning(
             "There are no auto-correlations present in model, "
             "filling with zeros to match data shape, and switching "
@@ -410,13 +413,16 @@ def flag_model_visibilities(
     # check for where there is non_zeros. This previously check where they didn't
     # match but that resulted in us getting the indexes of the antenna arrays rather
     # than the baseline indexes
-    include_cross_per_time = np.nonzero(include_per_time)[0]
+    include_cross_per_time = np.nonzero(
+        include_per_time
+        & (flaginfo_model.ant1_single_time != flaginfo_model.ant2_single_time)
+    )[0]
 
     # To get indexes of auto-correlations to use, ensure ant1 == ant2
     # These are now indexes of unflagged auto-correlations to grab from model
-    include_auto_per_time = np.where(
-        flaginfo_model.ant1_single_time[include_per_time]
-        == flaginfo_model.ant2_single_time[include_per_time]
+    include_auto_per_time = np.nonzero(
+        include_per_time
+        & (flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time)
     )[0]
 
     # empty holder for the flagged model - this should be the same shape
-- 
2.43.0


From 0d58a3bb36aa81a0ebcd04b4398a2a0b38ceebb0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 057/110] fix: direction of the time offset between model and
 data

---
 PyFHD/source_modeling/vis_model_transfer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 3d2e49f..c3b5ab6 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -270,9 +270,8 @@ def flag_model_visibilities(
     time_offsets = []
     for time in flaginfo_data.unique_times:
         # convert from julian to seconds via 24*60*60
-        time_offsets.append(
-            np.min(np.abs(flaginfo_model.unique_times - time)) * (24.0 * 60 * 60)
-        )
+        offsets = time - flaginfo_model.unique_times
+        time_offsets.append(offsets[np.argmin(np.abs(offsets))] * (24.0 * 60 * 60))
 
     # The highest time resolution data we'll be dealing with. If the offset is
     # less than half of this, could be error in calculations rather than an
@@ -288,8 +287,8 @@ def flag_model_visibilities(
     # that add the `rounded_offset` (our calculated QUACK time) to the model
     # to work out which time steps are closest between model and data
     if (
-        rounded_offset >= min_integration / 2.0
-        and rounded_offset <= obs["time_res"] / 2.0
+        np.abs(rounded_offset) >= min_integration / 2.0
+        and np.abs(rounded_offset) <= obs["time_res"] / 2.0
     ):
         flaginfo_model.unique_times += rounded_offset / (24.0 * 60 * 60)
 
-- 
2.43.0


From e4263a06b3b9d31e22a949a11db21defc3b2a90b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 058/110] fix: errors of mismatched models name the file
 instead of raising TypeError

---
 PyFHD/source_modeling/vis_model_transfer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index c3b5ab6..7dc1482 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -308,8 +308,8 @@ def flag_model_visibilities(
     # have the same time resolution so something bad has happened
     if flaginfo_data.num_times != len(np.unique(model_times_to_use)):
 
-        data_path = pyfhd_config["input_path"], pyfhd_config["obs_id"] + ".uvfits"
-        model_path = pyfhd_config["model_file_path"] + pyfhd_config["model_file_type"]
+        data_path = Path(pyfhd_config["input_path"], pyfhd_config["obs_id"] + ".uvfits")
+        model_path = pyfhd_config["model_file_path"]
         logger.error(
             f"Could not match the time steps in the data uvfits: {data_path}"
             f" and model uvfits {model_path}. Please check the model "
@@ -325,7 +325,7 @@ def flag_model_visibilities(
     # If less antennas in the model than the data, we can't calibrate the whole
     # dataset so just error for now
     if flaginfo_model.num_ants < flaginfo_data.num_ants:
-        model_path = pyfhd_config["model_file_path"] + pyfhd_config["model_file_type"]
+        model_path = pyfhd_config["model_file_path"]
         logger.error(
             f"There are less antennas (tiles) in the model "
             f"{model_path} than in the data, so cannot calibrate the "
-- 
2.43.0


From e1ba5ffee2a7f460f221d43a76d86d7664e33d6c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 059/110] fix: polarizations read from a model uvfits follow
 the data

---
 PyFHD/source_modeling/vis_model_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 7dc1482..9253907 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -160,7 +160,7 @@ def import_vis_model_from_uvfits(
     params_model = create_params(header_model, params_data_model, logger)
 
     vis_model_arr, _ = extract_visibilities(
-        header_model, params_data_model, pyfhd_config, logger
+        header_model, params_data_model, {"n_pol": obs["n_pol"]}, logger
     )
 
     return vis_model_arr, params_model
-- 
2.43.0


From 9d9de64eaf091b6d7bfe959ded3cdcd4e75a7a98 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 060/110] fix: refuse a model lacking baselines of the data

---
 PyFHD/source_modeling/vis_model_transfer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 9253907..f9d94d5 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -424,6 +424,15 @@ def flag_model_visibilities(
         & (flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time)
     )[0]
 
+    # A model without some of the tiles in the data can't be used either
+    if include_cross_per_time.size != flaginfo_data.cross_locs_per_time.size:
+        logger.error(
+            f"The model {pyfhd_config['model_file_path']} doesn't contain the same "
+            "baselines as the unflagged baselines of the data. Please check the model "
+            "and try again. Exiting now."
+        )
+        exit()
+
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
         (obs["n_pol"], obs["n_freq"], flaginfo_data.num_visis), dtype=np.complex128
-- 
2.43.0


From f03491268bbd3cf1bb3a35b1a3456bf8f52a39f8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 061/110] fix: arrays of IDL save files are converted to the
 native byte order

---
 PyFHD/io/pyfhd_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 5e0c552..3733e1a 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -645,6 +645,10 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
                         )
             except ValueError:
                 data[key] = list(x for x in data[key])
+        # IDL's save files are big-endian, arrays in another byte order than that of the
+        # machine can't be used with numba
+        if type(data[key]) == np.ndarray and not data[key].dtype.isnative:
+            data[key] = data[key].astype(data[key].dtype.newbyteorder("="))
     return data
 
 
-- 
2.43.0


From 7925ef7f982b37adcc574d2503730cab9603fd0a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 062/110] fix: calibration compares baselines with the matching
 side of the uv plane

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index db632d1..4b26e0b 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -176,8 +176,8 @@ def vis_calibrate_subroutine(
         if calibration_weights:
             flag_dist_cut = np.where(
                 (dist_arr < min_baseline)
-                | (xcen > (elements / 2))
-                | (ycen > (dimension / 2))
+                | (xcen > (dimension / 2))
+                | (ycen > (elements / 2))
             )
             if min_cal_baseline > min_baseline:
                 taper_min = np.maximum(
@@ -196,8 +196,8 @@ def vis_calibrate_subroutine(
             flag_dist_cut = np.where(
                 (dist_arr < min_cal_baseline)
                 | (dist_arr > max_cal_baseline)
-                | (xcen > (elements / 2))
-                | (ycen > (dimension / 2))
+                | (xcen > (dimension / 2))
+                | (ycen > (elements / 2))
             )
         # Remove kx_arr, ky_arr and dist_arr from the namespace, allow garbage collector to do its work
         del (kx_arr, ky_arr, dist_arr)
-- 
2.43.0


From 9bf8b7d23ce992db783b3ba9eff96d6d4224ac7c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 063/110] fix: baselines of unused tiles do not enter the
 calibration of the first tile

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 4b26e0b..96202a0 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -213,7 +213,12 @@ def vis_calibrate_subroutine(
         freq_weight = np.sum(weight, axis=1)
         baseline_weight = np.sum(weight, axis=0)
         freq_use = np.where((freq_weight > 0) & (freq_use_flag > 0))[0]
-        baseline_use = np.nonzero(baseline_weight)
+        # Only use baselines where both of the tiles are in use
+        baseline_use = np.nonzero(
+            (baseline_weight > 0)
+            & (tile_use_flag[tile_A_i] > 0)
+            & (tile_use_flag[tile_B_i] > 0)
+        )
         hist_tile_A, _, riA = histogram(tile_A_i[baseline_use], min=0, max=n_tile - 1)
         hist_tile_B, _, riB = histogram(tile_B_i[baseline_use], min=0, max=n_tile - 1)
         tile_use = np.where(((hist_tile_A + hist_tile_B) > 0) & (tile_use_flag > 0))[0]
-- 
2.43.0


From 898a4862117cf97de4fc983575c8302b142f04b4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 064/110] fix: calibrating a fully flagged polarization leaves
 its gains

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 96202a0..cbbea89 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -241,14 +241,19 @@ def vis_calibrate_subroutine(
                     tile_i
                 )
 
+        if tile_use.size == 0:
+            logger.warning(
+                f"There is no data left to calibrate polarization {pol_i}, its gains stay as they are"
+            )
+            freq_use = freq_use[:0]
         ref_tile_use = np.where(reference_tile == tile_use)
-        if ref_tile_use[0].size == 0:
+        if tile_use.size > 0 and ref_tile_use[0].size == 0:
             ref_tile_use = 0
             cal["ref_antenna"] = tile_use[ref_tile_use]
             cal["ref_antenna_name"] = obs["baseline_info"]["tile_names"][
                 cal["ref_antenna"]
             ]
-        else:
+        elif tile_use.size > 0:
             # Extract out value to avoid any weird stuff happening
             ref_tile_use = ref_tile_use[0][0]
         # Replace all NaNs with 0's
-- 
2.43.0


From 454028796f8f3205f1eadebd60ef1fd79b577b81 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 065/110] fix: flag channels in which the reference tile cannot
 be calibrated

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index cbbea89..18aa14f 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -302,6 +302,10 @@ def vis_calibrate_subroutine(
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
             if inds_min_cal.size > 0:
                 gain_curr[inds_min_cal] = 0
+            if not no_ref_tile and n_arr[ref_tile_use] < min_cal_solutions:
+                # The phases are undefined without the reference tile, flag the frequency
+                gain_arr[fi, tile_use] = np.nan
+                continue
             gain_new = np.zeros(tile_use.size, dtype=np.complex128)
             convergence_list = np.zeros(max_cal_iter)
             conv_gain_list = np.zeros(max_cal_iter)
@@ -437,14 +441,12 @@ def vis_calibrate_subroutine(
                 )
             del A_ind_arr
             gain_arr[fi, tile_use] = gain_curr
-        nan_i = np.where(np.isnan(gain_curr))[0]
-        if nan_i.size > 0:
+        freq_nan_i = np.where(np.isnan(gain_arr).any(axis=1))[0]
+        if freq_nan_i.size > 0:
             # any gains with NANs -> all tiles for that freq will have NANs
-            freq_nan_i = nan_i % n_freq
-            freq_nan_i = freq_nan_i[np.unique(freq_nan_i)]
-            vis_weight_ptr_use[pol_i][:, freq_nan_i] = 0
-            weight[:, freq_nan_i] = 0
-            gain_arr[nan_i] = 0
+            vis_weight_ptr_use[pol_i][freq_nan_i] = 0
+            weight[freq_nan_i] = 0
+            gain_arr[freq_nan_i] = 0
         if tile_flag.size > 0:
             # set flagged tiles to NAN to remove from calculations
             gain_arr[:, tile_flag] = np.nan
-- 
2.43.0


From 0b00ae5fdcbf57f9f44dfed1816077dc6c477d93 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 066/110] fix: spectral gridding uses the frequency of every
 visibility of a merged set

---
 PyFHD/gridding/visibility_grid.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index e2a4728..e5e3690 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -254,6 +254,8 @@ def visibility_grid(
         # Find the frequency group per index
         # The arrays are of shape (n_freq_use, n_bi_use)
         freq_i = inds // n_bi_use
+        # Whether visibilities sharing a beam kernel have been summed together
+        merged = False
         fbin = freq_bin_i[freq_i]
 
         # Calculate the number of selected visibilities and their baseline index
@@ -317,6 +319,7 @@ def visibility_grid(
                 # If there are any baselines which use the same beam kernel and the same discretized location
                 # given the hyperresolution, then reduce the number of gridding operations to only
                 # non-repeated baselines
+                merged = True
                 inds = inds[xyf_si]
                 inds_use = xyf_si[xyf_ui]
                 freq_i = freq_i[inds_use]
@@ -330,6 +333,18 @@ def visibility_grid(
                 else:
                     xyf_ui0 = np.array([0])
                 psf_weight = xyf_ui - xyf_ui0 + 1
+                if pyfhd_config["grid_spectral"]:
+                    # The frequencies in a set can differ, sum them for each set
+                    freq_all = inds // n_bi_use
+                    freq_box = np.add.reduceat(freq_all, xyf_ui0)
+                    freq2_box = np.add.reduceat(freq_all**2, xyf_ui0)
+                    freq_vis_box = np.add.reduceat(
+                        freq_all * vis_arr_use.flat[inds], xyf_ui0
+                    )
+                    if model is not None:
+                        freq_model_box = np.add.reduceat(
+                            freq_all * model_use.flat[inds], xyf_ui0
+                        )
 
                 vis_box1 = vis_arr_use.flat[inds]
                 vis_box = vis_box1.flat[xyf_ui]
@@ -407,14 +422,20 @@ def visibility_grid(
         box_matrix_dag = np.conj(box_matrix)
 
         if pyfhd_config["grid_spectral"]:
+            if not merged:
+                freq_box = freq_i
+                freq2_box = freq_i**2
+                freq_vis_box = freq_i * vis_box
+                if model is not None:
+                    freq_model_box = freq_i * model_box
             term_A_box = np.dot(
-                np.transpose(box_matrix_dag), np.transpose((freq_i * vis_box) / n_vis)
+                np.transpose(box_matrix_dag), np.transpose(freq_vis_box / n_vis)
             )
             term_B_box = np.dot(
-                np.transpose(box_matrix_dag), np.transpose(freq_i / n_vis)
+                np.transpose(box_matrix_dag), np.transpose(freq_box / n_vis)
             )
             term_D_box = np.dot(
-                np.transpose(box_matrix_dag), np.transpose(freq_i**2 / n_vis)
+                np.transpose(box_matrix_dag), np.transpose(freq2_box / n_vis)
             )
             spectral_A[
                 ymin_use : ymin_use + psf_dim, xmin_use : xmin_use + psf_dim
@@ -429,7 +450,7 @@ def visibility_grid(
             if model is not None:
                 term_Am_box = np.dot(
                     np.transpose(box_matrix_dag),
-                    np.transpose((freq_i * model_box) / n_vis),
+                    np.transpose(freq_model_box / n_vis),
                 )
                 spectral_model_A[
                     ymin_use : ymin_use + psf_dim, xmin_use : xmin_use + psf_dim
-- 
2.43.0


From 495386d86f07b7b9cc75059cec1651865b61ffa4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 067/110] fix: notice more than one cable reflection mode in
 the options

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index c84f8a2..1e2dc28 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1386,13 +1386,9 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
 
     # cal_reflection_mode_theory and cal_reflection_mode_delay cannot be on at the same time, prioritise mode_theory (Warning)
     logic_test = (
-        1
-        if pyfhd_config["cal_reflection_mode_file"]
-        else (
-            0 + 1
-            if pyfhd_config["cal_reflection_mode_delay"]
-            else 0 + 1 if pyfhd_config["cal_reflection_mode_theory"] else 0
-        )
+        bool(pyfhd_config["cal_reflection_mode_file"])
+        + bool(pyfhd_config["cal_reflection_mode_delay"])
+        + bool(pyfhd_config["cal_reflection_mode_theory"])
     )
     if logic_test > 1:
         logger.warning(
@@ -1401,7 +1397,9 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         warnings += 1
         pyfhd_config["cal_reflection_mode_file"] = False
         pyfhd_config["cal_reflection_mode_delay"] = False
-        pyfhd_config["cal_reflection_mode_theory"] = True
+        # Keep the cable length when it has been given
+        if not pyfhd_config["cal_reflection_mode_theory"]:
+            pyfhd_config["cal_reflection_mode_theory"] = 1.0
 
     # cal_adaptive_calibration_gain impacts cal_base_gain if cal_base_gain isn't set
     if pyfhd_config["cal_base_gain"] == None:
-- 
2.43.0


From bd40375487ab17802036ff4e39a2a1dcde9dd62d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 068/110] fix: enhance_eor needs eor_vis_filepath, not the
 opposite

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 1e2dc28..058d771 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1518,7 +1518,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     errors += _check_file_exists(pyfhd_config, "eor_vis_filepath")
 
     # enhance_eor depends on eor_vis_filepath when its not 1
-    if pyfhd_config["enhance_eor"] > 1 and pyfhd_config["eor_vis_filepath"]:
+    if pyfhd_config["enhance_eor"] != 1 and not pyfhd_config["eor_vis_filepath"]:
         logger.error(
             "enhance_eor is only used when importing general visibilities for a simulation, it should stay as 1 when eor_vis_filepath is not being used"
         )
-- 
2.43.0


From 7b28068b7d0f0338484b0fa7c1003185fdc0e8fb Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 069/110] fix: check the model files when the model type is sav

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 058d771..559a65a 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1462,7 +1462,10 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     if pyfhd_config["model_file_path"]:
         errors += _check_file_exists(pyfhd_config, "model_file_path")
 
-    if pyfhd_config["model_file_path"] == "sav":
+    if (
+        pyfhd_config["model_file_type"] == "sav"
+        and pyfhd_config["calibrate_checkpoint"] is None
+    ):
         # We're expecting to find a params file, then a vis_model_XX and vis_model_YY at the very least
         if not Path.exists(
             Path(
@@ -1480,7 +1483,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
             file_path for file_path in files_in_model_path if regex.match(file_path)
         ]
         if len(matching_files) <= 2:
-            errors + 1
+            errors += 1
             logger.error(
                 f"You are missing some required files to read in the model visibilities from sav files, here is the list of found sav files: {matching_files}."
             )
-- 
2.43.0


From 03022cb54585ed73bcb37118ec9f34ea696cfac9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 070/110] fix: list options keep their items whole

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 559a65a..6401bc1 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -483,7 +483,7 @@ def pyfhd_parser():
         "-ft",
         "--flag-tiles",
         default=[],
-        type=list,
+        type=str,
         action="append",
         help="A list of tile names to manually flag. I repeat, a list of tile names, NOT tile indices",
     )
@@ -514,7 +514,8 @@ def pyfhd_parser():
     )
     flag.add_argument(
         "--time-cut",
-        type=list,
+        type=float,
+        nargs="+",
         default=None,
         help="Seconds to cut (rounded up to next time integration step) from the beginning of the observation. Can also specify a negative time to cut off the end of the observation. Specify a vector to cut at both the start and end.",
     )
@@ -867,7 +868,8 @@ def pyfhd_parser():
     )
     sim.add_argument(
         "--tile-flag-list",
-        type=list,
+        type=str,
+        action="append",
         help="A string array of tile names to manually flag tiles. Note that this is an array of tile names, not tile indices!",
     )
     sim.add_argument(
@@ -928,7 +930,7 @@ def pyfhd_parser():
     )
     healpix.add_argument(
         "--ps-tile-flag-list",
-        type=list,
+        type=str,
         default=[],
         action="append",
         help="A list of tile names to manually flag in the healpix export. I repeat, a list of tile names, NOT tile indices.",
-- 
2.43.0


From 274fff1d3f3a19b0a0875313f232ea7271fc2e21 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 071/110] fix: exporting images can be turned off

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 6401bc1..b0ab315 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -730,7 +730,7 @@ def pyfhd_parser():
     export.add_argument(
         "--export-images",
         help="Export fits files and images of the sky.",
-        action="store_true",
+        action=argparse.BooleanOptionalAction,
         default=True,
     )
     export.add_argument(
-- 
2.43.0


From 364db74c0b7b9998bcb440bd584b508a27ef7d43 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 072/110] fix: the options of the default configuration exist
 under their names there

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index b0ab315..bfcbfe2 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -173,6 +173,7 @@ def pyfhd_parser():
         help="A proxy for the field of view in degrees. FoV is actually used to determine kbinsize, which will be set to !RaDeg/FoV.\nThis means that the pixel size at phase center times dimension is approximately equal to FoV, which is not equal to the actual field of view owing to larger pixel sizes away from phase center.\nIf set to 0, then kbinsize determines the UV resolution.",
     )
     parser.add_argument(
+        "--deproject-w-term",
         "--deproject_w_term",
         type=float,
         default=None,
@@ -263,6 +264,7 @@ def pyfhd_parser():
         help="The file path of a calibration to be read-in, if you give a directory PyFHD expects there to be a file called <obs_id>_cal.hdf5 using the same observation as you plan to process.",
     )
     calibration.add_argument(
+        "--calibration-catalog-file-path",
         "--calibration_catalog-file-path",
         type=Path,
         default=None,
-- 
2.43.0


From 9997b8f58e885a6652c124b8f983e71e6ac27c4d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 073/110] fix: the collated configuration of a run can be used
 for another run

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index bfcbfe2..95bb333 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -188,7 +188,7 @@ def pyfhd_parser():
     parser.add_argument(
         "--memory-threshold",
         type=int,
-        default=1e8,
+        default=int(1e8),
         help="Set a memory threshold for each chunk in set in bytes. By default it is set at ~100MB",
     )
     parser.add_argument(
@@ -1065,6 +1065,10 @@ def write_collated_yaml_config(
 
     """
 
+    def quote(value):
+        # Inside single quotes only the single quote itself needs escaping
+        return "'" + str(value).replace("'", "''") + "'"
+
     # for group in parser._action_groups:
     # group_dict={a.dest:getattr(args,a.dest,None) for a in group._group_actions}
     # arg_groups[group.title]=argparse.Namespace(**group_dict)
@@ -1083,13 +1087,24 @@ def write_collated_yaml_config(
                 "log_time",
                 "commit",
                 "obs_id",
+                "config",
                 "config_file",
                 "grid_psf_file_sav",
                 "grid_psf_file_npz",
+                "output_dir",
+                "recalculate_mapfn",
+                "ring_radius",
             ]:
                 pass
             else:
-                yaml_key = key.replace("_", "-")
+                # Most of the options for the hybrid pipeline are spelled with underscores
+                if key.startswith("IDL_") or key in [
+                    "grid_IDL_outputs",
+                    "grid_psf_file",
+                ]:
+                    yaml_key = key
+                else:
+                    yaml_key = key.replace("_", "-")
                 if pyfhd_config[key] == None:
                     outfile.write(f"{yaml_key} : ~\n")
                 elif type(pyfhd_config[key]) == float or type(pyfhd_config[key]) == int:
@@ -1102,16 +1117,14 @@ def write_collated_yaml_config(
                     if len(pyfhd_config[key]) == 0:
                         pass
                     else:
-                        line = f"{key} : ["
-                        line += f"'{pyfhd_config[key][0]}'"
-                        for item in pyfhd_config[key][1:]:
-                            line += f", '{item}'"
+                        line = f"{yaml_key} : ["
+                        line += ", ".join(quote(item) for item in pyfhd_config[key])
                         line += "]\n"
                         # for item in pyfhd_config[key]:
                         #     outfile.write(f"{key} : {item}\n")
                         outfile.write(line)
                 else:
-                    outfile.write(f"{yaml_key} : '{pyfhd_config[key]}'\n")
+                    outfile.write(f"{yaml_key} : {quote(pyfhd_config[key])}\n")
 
 
 def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
-- 
2.43.0


From c61b9b264c8a8d8499a2f01a6f960ca237ebe55d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 074/110] fix: report allow_sidelobe_model_sources without a
 model as the error it is

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 95bb333..5c4eab6 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1465,9 +1465,8 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     errors += _check_file_exists(pyfhd_config, "model_catalog_file_path")
 
     # allow_sidelobe_model_sources depends on model_visibilities (Error)
-    if (
-        pyfhd_config["allow_sidelobe_model_sources"]
-        and not pyfhd_config["model_visibilities"]
+    if pyfhd_config["allow_sidelobe_model_sources"] and not pyfhd_config.get(
+        "model_visibilities", False
     ):
         logger.error(
             "allow_sidelobe_model_sources shouldn't be True when model_visibilities is not, check if you meant to turn on model_visibilities"
-- 
2.43.0


From 1ab05f38aa48af3c9c2027b367707f5ca7949de0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 075/110] fix: an invalid configuration ends with a failing
 exit status

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 5c4eab6..4f08a20 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1601,7 +1601,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         # Close the handlers in the log
         for handler in logger.handlers:
             handler.close()
-        exit()
+        exit(1)
 
     if warnings:
         logger.warning(
-- 
2.43.0


From 5df7131241107657f037b8028d27638e2a15f328 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 076/110] fix: runs stopped by an error end with a failing exit
 status

---
 PyFHD/data_setup/obs.py                     |  2 +-
 PyFHD/data_setup/uvfits.py                  |  4 ++--
 PyFHD/io/pyfhd_io.py                        |  2 +-
 PyFHD/source_modeling/vis_model_transfer.py | 12 ++++++------
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index c3ef1b0..73feab2 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -323,7 +323,7 @@ def read_metafits(
                 logger.warning("All tiles flagged in metadata")
             else:
                 logger.error("All tiles flagged in metadata")
-                exit()
+                exit(1)
         meta["obsra"] = hdr["RA"]
         meta["obsdec"] = hdr["DEC"]
         meta["phasera"] = hdr["RAPHASE"]
diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 57ac62f..c2e97be 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -285,7 +285,7 @@ def create_params(
         logger.error(
             f"Validation efforts failed, key not found in data, Traceback : {error}"
         )
-        exit()
+        exit(1)
 
     return params
 
@@ -339,7 +339,7 @@ def extract_visibilities(
 
     if data_array.ndim > 4:
         logger.error("No current support for PyFHD to support spectral dimensions yet")
-        exit()
+        exit(1)
     else:
         polarizations = np.arange(n_pol)
         vis_arr = data_array[
diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 3733e1a..2e6567b 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -704,4 +704,4 @@ def convert_sav_to_dict(sav_path: str, logger: Logger, tmp_dir="temp_pyfhd"):
 
         for handler in logger.handlers:
             handler.close()
-        exit()
+        exit(1)
diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index f9d94d5..eaef978 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -44,7 +44,7 @@ def vis_model_transfer(
         return import_vis_model_from_uvfits(pyfhd_config, obs, logger)
     else:
         logger.error("You chose a file type PyFHD can't import, existing")
-        sys.exit()
+        sys.exit(1)
 
 
 def import_vis_model_from_sav(
@@ -116,7 +116,7 @@ def import_vis_model_from_sav(
         logger.error(
             f"PyFHD failed to load in the model visibilities while trying to transfer in file: {path} as the file wasn't found. PyFHD is exiting execution"
         )
-        exit()
+        exit(1)
     return vis_model_arr, params_model
 
 
@@ -155,7 +155,7 @@ def import_vis_model_from_uvfits(
             f"contain {header_model['n_freq']} freqs. Please supply "
             "model visibilities that match the data. Exiting now."
         )
-        exit()
+        exit(1)
 
     params_model = create_params(header_model, params_data_model, logger)
 
@@ -315,7 +315,7 @@ def flag_model_visibilities(
             f" and model uvfits {model_path}. Please check the model "
             "and try again. Exiting now."
         )
-        exit()
+        exit(1)
 
     # Now to flag the model - some models have no flagged tiles (antennas),
     # whereas the data might have flagged tiles (and so missing baselines).
@@ -332,7 +332,7 @@ def flag_model_visibilities(
             "whole dataset. Please check the model "
             "and try again. Exiting now."
         )
-        exit()
+        exit(1)
 
     # Test to see if there are auto-correlations in data
     # If they are in the data, but not the model, we need to reshape the
@@ -431,7 +431,7 @@ def flag_model_visibilities(
             "baselines as the unflagged baselines of the data. Please check the model "
             "and try again. Exiting now."
         )
-        exit()
+        exit(1)
 
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
-- 
2.43.0


From b2905949acb3ddcd781e507346e7ec602667e4d6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 077/110] fix: warnings and errors of a silent run do not reach
 the terminal

---
 PyFHD/data_setup/uvfits.py       | 4 ++--
 PyFHD/pyfhd_tools/pyfhd_setup.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index c2e97be..109ec4c 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -586,7 +586,7 @@ def create_layout(
     try:
         layout["pola_orientation"] = antenna_data["polaa"]
     except KeyError:
-        logging.warning("PolA orientation not given setting to 0")
+        logger.warning("PolA orientation not given setting to 0")
         layout["pola_orientation"] = 0
 
     # PolA params
@@ -612,7 +612,7 @@ def create_layout(
     try:
         layout["polb_orientation"] = antenna_data["polab"]
     except KeyError:
-        logging.warning("PolB orientation not given setting to 0")
+        logger.warning("PolB orientation not given setting to 0")
         layout["polb_orientation"] = 90
 
     # PolB params
diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 4f08a20..11d7d58 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1035,7 +1035,7 @@ def _check_file_exists(config: dict, key: str) -> int:
     if config[key]:
         # If it doesn't exist, add error message
         if not Path(config[key]).exists():
-            logging.error(
+            logging.getLogger().error(
                 "{} has been enabled with a path that doesn't exist, check the path.".format(
                     key
                 )
@@ -1395,7 +1395,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         pyfhd_config["cal_reflection_hyperresolve"]
         and pyfhd_config["cal_reflection_mode_file"]
     ):
-        logging.warning(
+        logger.warning(
             "cal_reflection_hyperresolve and cal_reflection_mode_file have both been turned on, cal_reflection_mode_file will be prioritised."
         )
         pyfhd_config["cal_reflection_hyperresolve"] = False
-- 
2.43.0


From 054de36daeb0d8249f7c08e60bc456c6f5211971 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 078/110] fix: create an output path whose parent does not
 exist

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 11d7d58..8560913 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1229,7 +1229,7 @@ def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
             f"Output path specified by `--output-path={pyfhd_config['output_path']}` does not exist. Attempting to create now."
         )
         output_dir = Path(pyfhd_config["output_path"])
-        Path.mkdir(output_dir)
+        Path.mkdir(output_dir, parents=True)
         print(f"Successfully created directory: {pyfhd_config['output_path']}")
 
     # Create the output directory path. If the user has selected a description,
-- 
2.43.0


From eca74cb00026a8721e96fb0ec764d4ba4588139b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 079/110] fix: calibration checkpoints, saved weights and
 flagged visibilities in a run

The calibration checkpoint was looked up under a key that is not in the
configuration, the raw weights could only be saved along with the raw
visibilities, the flagging of visibilities was called without its logger and
the test for a beam image of a single value could never be true.
---
 PyFHD/pyfhd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 063bbb3..6e7d896 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -132,11 +132,13 @@ def main():
         )
 
         # Save the raw visibilities and weights if the option is set
-        if pyfhd_config["save_visibilities"]:
+        if pyfhd_config["save_visibilities"] or pyfhd_config["save_weights"]:
             pyfhd_config["visibilities_path"] = Path(
                 pyfhd_config["output_dir"], "visibilities"
             )
             pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+
+        if pyfhd_config["save_visibilities"]:
             raw_vis_arr_path = Path(
                 pyfhd_config["visibilities_path"],
                 f"{pyfhd_config['obs_id']}_raw_vis_arr.h5",
@@ -207,7 +209,7 @@ def main():
 
     if (
         psf["image_info"]["image_power_beam_arr"] is not None
-        and psf["image_info"]["image_power_beam_arr"].shape == 1
+        and np.size(psf["image_info"]["image_power_beam_arr"]) == 1
     ):
         # Turn off beam_per_baseline if image_power_beam_arr is
         # only one value
@@ -304,7 +306,9 @@ def main():
 
             if pyfhd_config["flag_visibilities"]:
                 flag_start = time.time()
-                vis_weights, obs = vis_flag(vis_arr, vis_weights, obs, params)
+                vis_weights, obs = vis_flag(
+                    vis_arr, vis_weights, obs, params, logger
+                )
                 flag_end = time.time()
                 _print_time_diff(flag_start, flag_end, "Visibilities Flagged", logger)
 
@@ -338,7 +342,7 @@ def main():
                 )
     else:
         # Load the calibration checkpoint
-        if pyfhd_config["calibration_checkpoint"]:
+        if pyfhd_config["calibrate_checkpoint"]:
             cal_checkpoint = load(pyfhd_config["calibrate_checkpoint"], logger=logger)
             obs = cal_checkpoint["obs"]
             params = cal_checkpoint["params"]
-- 
2.43.0


From b6b362663b08c155e4abea7290f8dbe229708ce2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 080/110] fix: runs without calibration or gridding, resumed
 metadata, products without images

Without calibration the gains and without gridding the planes were undefined
names, the gridding checkpoint lacked the updated observation metadata, the
metadata, calibration and visibilities asked for were only saved along with
images and the model visibilities were never saved.
---
 PyFHD/pyfhd.py | 152 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 109 insertions(+), 43 deletions(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 6e7d896..ab57d2c 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -89,6 +89,81 @@ def finish_pyfhd(
         handler.close()
 
 
+def save_calibrated(
+    obs: dict,
+    params: dict,
+    cal: dict,
+    vis_arr: np.ndarray,
+    vis_weights: np.ndarray,
+    pyfhd_config: dict,
+    logger: logging.Logger,
+):
+    """
+    Save what has been asked for of the metadata, the calibration and the calibrated
+    visibilities when there are no images to export, quickview saves them otherwise.
+
+    Parameters
+    ----------
+    obs : dict
+        The observation metadata dictionary
+    params : dict
+        Visibility metadata dictionary
+    cal : dict
+        The calibration dictionary
+    vis_arr : np.ndarray
+        The calibrated visibilities
+    vis_weights : np.ndarray
+        The weights of the calibrated visibilities
+    pyfhd_config : dict
+        PyFHD's configuration dictionary
+    logger : logging.Logger
+        PyFHD's logger
+    """
+    pyfhd_config["metadata_dir"] = Path(pyfhd_config["output_dir"], "metadata")
+    pyfhd_config["visibilities_path"] = Path(
+        pyfhd_config["output_dir"], "visibilities"
+    )
+    pyfhd_config["metadata_dir"].mkdir(exist_ok=True)
+    pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+
+    if pyfhd_config["save_obs"]:
+        obs_path = Path(
+            pyfhd_config["metadata_dir"], f"{pyfhd_config['obs_id']}_obs.h5"
+        )
+        logger.info(f"Saving the obs dictionary to {obs_path}")
+        save(obs_path, obs, "obs", logger=logger)
+
+    if pyfhd_config["save_params"]:
+        params_path = Path(
+            pyfhd_config["metadata_dir"], f"{pyfhd_config['obs_id']}_params.h5"
+        )
+        logger.info(f"Saving params dictionary to {params_path}")
+        save(params_path, params, "params", logger=logger)
+
+    if pyfhd_config["save_cal"] and pyfhd_config["calibrate_visibilities"]:
+        cal_path = Path(pyfhd_config["output_dir"], "calibration")
+        cal_path.mkdir(exist_ok=True)
+        cal_path = Path(cal_path, f"{pyfhd_config['obs_id']}_cal.h5")
+        logger.info(f"Saving the calibration dictionary to {cal_path}")
+        save(cal_path, cal, "cal", logger=logger)
+
+    if pyfhd_config["save_weights"]:
+        weights_path = Path(
+            pyfhd_config["visibilities_path"],
+            f"{pyfhd_config['obs_id']}_calibrated_vis_weights.h5",
+        )
+        logger.info(f"Saving the calibrated weights to {weights_path}")
+        save(weights_path, vis_weights, "weights", logger=logger)
+
+    if pyfhd_config["save_visibilities"]:
+        cal_vis_arr_path = Path(
+            pyfhd_config["visibilities_path"],
+            f"{pyfhd_config['obs_id']}_calibrated_vis_arr.h5",
+        )
+        logger.info(f"Saving the calibrated visibilities to {cal_vis_arr_path}")
+        save(cal_vis_arr_path, vis_arr, "visibilities", logger=logger)
+
+
 def main():
     pyfhd_start = time.time()
     options = pyfhd_parser().parse_args()
@@ -263,10 +338,26 @@ def main():
             "Model Imported and Flagged From UVFITS",
             logger,
         )
+        if pyfhd_config["save_visibilities"]:
+            pyfhd_config["visibilities_path"] = Path(
+                pyfhd_config["output_dir"], "visibilities"
+            )
+            pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+            save(
+                Path(
+                    pyfhd_config["visibilities_path"],
+                    f"{pyfhd_config['obs_id']}_model_vis_arr.h5",
+                ),
+                vis_model_arr,
+                "visibilities",
+                logger=logger,
+            )
 
         # Skipped initializing the cal structure as it mostly just copies values from the obs, params, config and the skymodel from FHD
         # However, there is resulting cal structure for logging and output purposes to store the resulting gain and any other associated
         # arrays
+        # Without calibration there are no gains to pass on
+        cal = {}
         if pyfhd_config["calibrate_visibilities"]:
             logger.info("Beginning Calibration")
             cal_start = time.time()
@@ -358,55 +449,16 @@ def main():
         logger.info(
             "The cal_stop option was used, calibration was finished, saving calibration files then exiting PyFHD"
         )
-        pyfhd_config["metadata_dir"] = Path(pyfhd_config["output_dir"], "metadata")
-        pyfhd_config["visibilities_path"] = Path(
-            pyfhd_config["output_dir"], "visibilities"
+        save_calibrated(
+            obs, params, cal, vis_arr, vis_weights, pyfhd_config, logger
         )
-        pyfhd_config["metadata_dir"].mkdir(exist_ok=True)
-        pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
-
-        if pyfhd_config["save_obs"]:
-            obs_path = Path(
-                pyfhd_config["metadata_dir"], f"{pyfhd_config['obs_id']}_obs.h5"
-            )
-            logger.info(f"Saving the obs dictionary to {obs_path}")
-            save(obs_path, obs, "obs", logger=logger)
-
-        if pyfhd_config["save_params"]:
-            params_path = Path(
-                pyfhd_config["metadata_dir"], f"{pyfhd_config['obs_id']}_params.h5"
-            )
-            logger.info(f"Saving params dictionary to {params_path}")
-            save(params_path, params, "params", logger=logger)
-
-        if pyfhd_config["save_cal"] and pyfhd_config["calibrate_visibilities"]:
-            cal_path = Path(pyfhd_config["output_dir"], "calibration")
-            cal_path.mkdir(exist_ok=True)
-            cal_path = Path(cal_path, f"{pyfhd_config['obs_id']}_cal.h5")
-            logger.info(f"Saving the calibration dictionary to {cal_path}")
-            save(cal_path, cal, "cal", logger=logger)
-
-        if pyfhd_config["save_weights"]:
-            weights_path = Path(
-                pyfhd_config["visibilities_path"],
-                f"{pyfhd_config['obs_id']}_calibrated_vis_weights.h5",
-            )
-            logger.info(f"Saving the calibrated weights to {weights_path}")
-            save(weights_path, vis_weights, "weights", logger=logger)
-
-        if pyfhd_config["save_visibilities"]:
-            cal_vis_arr_path = Path(
-                pyfhd_config["visibilities_path"],
-                f"{pyfhd_config['obs_id']}_calibrated_vis_arr.h5",
-            )
-            logger.info(f"Saving the calibrated visibilities to {cal_vis_arr_path}")
-            save(cal_vis_arr_path, vis_arr, "visibilities", logger=logger)
         logger.info(
             "The cal_stop option was used, calibration was finished, exiting PyFHD"
         )
         finish_pyfhd(pyfhd_start, logger, psf, pyfhd_config)
         exit(0)
 
+    gridded = True
     if pyfhd_config["recalculate_grid"] and pyfhd_config["gridding_checkpoint"] is None:
         grid_start = time.time()
         image_uv = np.empty(
@@ -471,6 +523,7 @@ def main():
                 "weights_uv": weights_uv,
                 "variance_uv": variance_uv,
                 "uniform_filter_uv": uniform_filter_uv,
+                "obs": obs,
             }
             if vis_model_arr is not None:
                 checkpoint["model_uv"] = model_uv
@@ -497,13 +550,22 @@ def main():
             uniform_filter_uv = grid_checkpoint["uniform_filter_uv"]
             if "model_uv" in grid_checkpoint:
                 model_uv = grid_checkpoint["model_uv"]
+            # The gridding has updated the observation metadata
+            if "obs" in grid_checkpoint:
+                obs = grid_checkpoint["obs"]
             logger.info(
                 f"Checkpoint Loaded: The Gridded UV Planes loaded from {Path(pyfhd_config['output_dir'], 'gridding_checkpoint.h5')}"
             )
+        else:
+            gridded = False
 
     # Call quickview to save the all the variables if set in the config. Also create dirty images and save
     # FITS files with the dirty images on a per polarization basis
-    if pyfhd_config["export_images"]:
+    if pyfhd_config["export_images"] and not gridded:
+        logger.warning(
+            "There are no gridded uv planes to make images of, use recalculate-grid or gridding-checkpoint for images."
+        )
+    if pyfhd_config["export_images"] and gridded:
         quickview(
             obs,
             psf,
@@ -519,6 +581,10 @@ def main():
             pyfhd_config,
             logger,
         )
+    else:
+        save_calibrated(
+            obs, params, cal, vis_arr, vis_weights, pyfhd_config, logger
+        )
 
     # Create the healpix HDF5 cubes and save them to disk
     if pyfhd_config["snapshot_healpix_export"]:
-- 
2.43.0


From 219ed681fd9b27a5971a9df4154826760669ff6a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 081/110] fix: the configuration of a finished run can be used
 for another run

The directories made during a run were written as options, which are refused.
---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 8560913..87246bb 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1094,6 +1094,10 @@ def write_collated_yaml_config(
                 "output_dir",
                 "recalculate_mapfn",
                 "ring_radius",
+                # Directories of the run that aren't options
+                "checkpoint_dir",
+                "metadata_dir",
+                "visibilities_path",
             ]:
                 pass
             else:
-- 
2.43.0


From 2687d5a786a46e26d3cd42ebc1a973b8e17f8a91 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 082/110] fix: the projection of an observation phased at the
 zenith has no NaN slant

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 984d15e..5808973 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -975,6 +975,9 @@ def parallactic_angle(latitude: float, hour_angle: float, dec: float) -> float:
     x_term = np.cos(np.radians(dec)) * np.tan(np.radians(latitude)) - np.sin(
         np.radians(dec)
     ) * np.cos(np.radians(hour_angle))
+    # There is no such angle at the zenith
+    if x_term == 0 and y_term == 0:
+        return 0.0
     return np.degrees(np.arctan(y_term / x_term))
 
 
-- 
2.43.0


From 23db616d5dd5af10f876fa104d53028e6320b587 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 083/110] fix: flagging of visibilities without enough data
 left flags them instead of stopping the run

---
 PyFHD/flagging/flagging.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index a071913..597fdc5 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -271,6 +271,14 @@ def vis_flag(
 
     freq_nonzero = np.nonzero(freq_fom)[0]
     tile_nonzero = np.nonzero(tile_fom)
+    if freq_nonzero.size == 0 or tile_nonzero[0].size == 0:
+        # There are no statistics to compare the tiles and frequencies with
+        logger.warning("There isn't enough data left to flag, all of it is flagged")
+        vis_weights[: obs["n_pol"]] = 0
+        obs["baseline_info"]["tile_use"][np.where(tile_fom == 0)[0]] = 0
+        obs["baseline_info"]["freq_use"][np.where(freq_fom == 0)[0]] = 0
+        obs["n_vis"] = 0
+        return vis_weights, obs
     tile_mean = idl_median(tile_fom[tile_nonzero])
     tile_dev = np.std(tile_fom[tile_nonzero])
     # IDL Median with WIDTH set is doing a median_filter with the size indicating the kernel size
@@ -328,6 +336,11 @@ def vis_flag(
             if i_use[0].size > 10:
                 time_fom[ti] += np.std(data_subset[i_use])
     time_nonzero = np.nonzero(time_fom)
+    if time_nonzero[0].size == 0:
+        logger.warning("There isn't enough data left to flag, all of it is flagged")
+        vis_weights[: obs["n_pol"]] = 0
+        obs["n_vis"] = 0
+        return vis_weights, obs
     time_mean = idl_median(time_fom[time_nonzero])
     time_dev = np.std(time_fom[time_nonzero])
     time_cut0 = np.where(
-- 
2.43.0


From 69e0c3685c64bfe49ac416c6feef792129034e1b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 084/110] fix: calibration flagging and polynomial fits of an
 observation of which nothing is left

---
 PyFHD/calibration/calibration_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index bded6e4..7256f04 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -196,6 +196,11 @@ def vis_calibration_flag(
     for pol_i in range(cal["n_pol"]):
         tile_use_i = np.nonzero(obs["baseline_info"]["tile_use"])[0]
         freq_use_i = np.nonzero(freq_use)[0]
+        if tile_use_i.size == 0 or freq_use_i.size == 0:
+            logger.warning(
+                "There are no tiles or no frequencies left to look for outliers in the calibration"
+            )
+            break
         gain = cal["gain"][pol_i]
         phase = np.arctan2(gain.imag, gain.real)
         amp = np.abs(gain)
@@ -277,6 +282,8 @@ def vis_calibration_flag(
         # Reset freq_use_i and tile_use_i for flagging based on phase
         tile_use_i = np.nonzero(obs["baseline_info"]["tile_use"])[0]
         freq_use_i = np.nonzero(freq_use)[0]
+        if tile_use_i.size == 0 or freq_use_i.size == 0:
+            continue
 
         # Start flagging based on phase
         phase_sub = phase[:, tile_use_i][freq_use_i, :]
@@ -873,6 +880,8 @@ def polynomial_coefficients(
         The coefficients, lowest order first
     """
     coefficients = np.zeros(degree + 1)
+    if np.size(x) == 0:
+        return coefficients
     fit = np.polynomial.Polynomial.fit(x, y, deg=degree).convert().coef
     coefficients[: fit.size] = fit
     return coefficients
-- 
2.43.0


From fb4731bf4ea83749c87ecf3a913275e3af1ac9f2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 085/110] fix: tile numbers of UVFITS files that only have
 BASELINE, whichever the lowest baseline is

---
 PyFHD/data_setup/uvfits.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 109ec4c..7eaeee4 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -268,18 +268,36 @@ def create_params(
             params["antenna2"] = params_data["ANTENNA2"]
         # Else calculate it from the baseline array
         else:
-            # Calculate antenna_mod_index to check for bad fits
             params["baseline_arr"] = params_data["BASELINE"]
-            baseline_min = np.min(params["baseline_arr"])
-            exponent = np.log(np.min(baseline_min)) / np.log(2)
-            antenna_mod_index = 2 ** np.floor(exponent)
-            tile_B_test = np.min(baseline_min) % antenna_mod_index
-            if tile_B_test > 1:
-                if baseline_min % 2 == 1:
-                    antenna_mod_index /= 2 ** np.floor(np.log(tile_B_test) / np.log(2))
-            # Tile numbers start from 1
-            params["antenna1"] = np.floor(params["baseline_arr"] / antenna_mod_index)
-            params["antenna2"] = np.fix(params["baseline_arr"] % antenna_mod_index)
+            baselines = np.array(params["baseline_arr"], dtype=np.float64)
+            if np.min(baselines) > 65536:
+                # The UVFITS convention for arrays of more than 255 antennas
+                baselines -= 65536
+                possible_mod_indexes = [2048]
+            else:
+                possible_mod_indexes = [256, 2048]
+            for antenna_mod_index in possible_mod_indexes:
+                # Tile numbers start from 1, the first of a baseline has the lower number
+                params["antenna1"] = np.floor(baselines / antenna_mod_index)
+                params["antenna2"] = np.fix(baselines % antenna_mod_index)
+                if np.all(
+                    (params["antenna1"] >= 1)
+                    & (params["antenna1"] <= params["antenna2"])
+                ):
+                    break
+            else:
+                # Neither fits, estimate antenna_mod_index from the lowest baseline
+                baseline_min = np.min(baselines)
+                exponent = np.log(baseline_min) / np.log(2)
+                antenna_mod_index = 2 ** np.floor(exponent)
+                tile_B_test = baseline_min % antenna_mod_index
+                if tile_B_test > 1:
+                    if baseline_min % 2 == 1:
+                        antenna_mod_index /= 2 ** np.floor(
+                            np.log(tile_B_test) / np.log(2)
+                        )
+                params["antenna1"] = np.floor(baselines / antenna_mod_index)
+                params["antenna2"] = np.fix(baselines % antenna_mod_index)
 
     except KeyError as error:
         logger.error(
-- 
2.43.0


From 6e709da5e2182c44adf1ad0934638c0446e2159c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 086/110] fix: IDL pointer arrays whose first pointer is null

---
 PyFHD/io/pyfhd_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 2e6567b..dfe5426 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -594,7 +594,7 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
         # We found a single array with only None
         elif type(data[key]) == np.ndarray and isinstance(data[key][0], type(None)):
             # Get all the None values and turn them into NaNs
-            none_values = np.where(data[key] == None)
+            none_values = np.nonzero(_is_none(data[key]))
             if np.size(none_values) > 0:
                 data[key][none_values] = np.nan
             # If all of the values were None, then set the array dtype to float64
-- 
2.43.0


From baf4f4d8435f53f116dd9f35ba69eabb1ffc038b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 087/110] fix: the transferred bandpass has its gains by
 polarisation, tile and frequency

---
 PyFHD/calibration/calibration_utils.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 7256f04..c0b3304 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -358,7 +358,6 @@ def transfer_bandpass(
         data_array = calfits[0].data
         # Read in the header
         naxis = calfits[0].header["naxis"]
-        n_jones = calfits[0].header["njones"]
         if "delay" in calfits[0].header["caltype"]:
             raise RuntimeWarning(
                 "Input Delay calibration not supported at this time, skipping calibration bandpass transfer."
@@ -668,15 +667,12 @@ def transfer_bandpass(
             )
 
         # Now that the checks are done, return the cal structure
-        cal_bandpass["n_pol"] = min(obs["n_pol"], 2)
-        cal_bandpass["conv_thresh"] = 1e-7
-        cal_bandpass["gain"] = np.full(
-            (cal_bandpass["n_pol"], obs["n_tile"], obs["n_freq"]),
-            pyfhd_config["cal_gain_init"],
-        )
-        cal_bandpass["gain"][0 : obs["n_pol"], :, :] = np.squeeze(
-            data_array[:, :, 0, 0 : obs["n_pol"], 0]
-        ) + 1j * np.squeeze(data_array[:, :, 0, 0 : obs["n_pol"], 1])
+        cal_bandpass = deepcopy(cal)
+        # From (n_tile, n_freq, n_pol) to (n_pol, n_freq, n_tile)
+        cal_bandpass["gain"] = (
+            data_array[:, :, 0, 0 : cal["n_pol"], 0]
+            + 1j * data_array[:, :, 0, 0 : cal["n_pol"], 1]
+        ).T
         logger.info("Calfits File has been read and cal_bandpass has been created")
     except FileNotFoundError as e:
         logger.error(
@@ -687,10 +683,8 @@ def transfer_bandpass(
         logger.error(e)
         return {}, {}
     cal_remainder = deepcopy(cal)
-    cal_remainder["gain"][0 : cal["n_pol"], :, :] = (
-        cal["gain"][0 : cal["n_pol"], :, :]
-        / cal_bandpass["gain"][0 : cal["n_pol"], :, :]
-    )
+    # Where the file has no gain there is nothing to divide out
+    cal_remainder["gain"] = cal["gain"] * weight_invert(cal_bandpass["gain"])
     return cal_bandpass, cal_remainder
 
 
-- 
2.43.0


From 87afc2df1a11e4fb44c7874081e7dda864a42949 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 088/110] fix: the spectral window axis of calfits is the one
 after the antennas

---
 PyFHD/calibration/calibration_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index c0b3304..3f0f5c0 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -384,8 +384,7 @@ def transfer_bandpass(
         # Deal with spec_wind_index separately as default highband file doesn't have this in
         # May cause issues with other fits files, adjust the code then.
         spec_wind_index = np.nonzero("if" == data_types)[0]
-        if spec_wind_index.size == 0:
-            spec_wind_index = -1
+        spec_wind_index = spec_wind_index[0] if spec_wind_index.size > 0 else -1
 
         # Check the indexes given to see if they match standards, if not raise exception
         if (
@@ -404,12 +403,12 @@ def transfer_bandpass(
                 and spec_wind_index == 4
             ):
                 logger.info("Calfits adheres to the Fall 2018 pyuvdata convention")
-                if calfits[0].header["naxis5"] != 1:
+                if data_dims[spec_wind_index] != 1:
                     raise RuntimeWarning(
                         "Calfits file includes more than one spectral window. Note that this feature is not yet supported in PyFHD."
                     )
                 # Remove spectral window dimension for compatibility
-                data_array = np.mean(data_array, axis=0)
+                data_array = np.mean(data_array, axis=1)
             else:
                 raise RuntimeWarning(
                     "Calfits file does not appear to adhere to standard. Please see github:pyuvdata/docs/references"
-- 
2.43.0


From fcbcae30218cdbee59dbf827277dd2763fefcb0c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 089/110] fix: polarisations of a transferred bandpass of north
 oriented dipoles are swapped, not duplicated

---
 PyFHD/calibration/calibration_utils.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 3f0f5c0..9a21ba4 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -423,6 +423,12 @@ def transfer_bandpass(
         n_ant_data = data_array.shape[0]
         n_freq = data_array.shape[1]
         n_time = data_array.shape[2]
+        n_jones = data_array.shape[3]
+
+        # Switch the pol convention to FHD standard if necessary
+        if (x_orient == "north" or x_orient == "south") and n_jones > 1:
+            # Indexing with lists copies, swapping the views would give one polarization twice
+            data_array = data_array[:, :, :, [1, 0, 3, 2][:n_jones], :]
 
         # Check whether the number of polarizations specified matches the observation analysis run
         jones_type_matrix = np.zeros(data_dims[1])
@@ -440,18 +446,6 @@ def transfer_bandpass(
                 "Not enough polarizations defined in the calibration fits file."
             )
 
-        # Switch the pol convention to FHD standard if necessary
-        if x_orient == "north" or x_orient == "south":
-            data_array[:, :, :, 0, :], data_array[:, :, :, 1, :] = (
-                data_array[:, :, :, 1, :],
-                data_array[:, :, :, 0, :],
-            )
-            if obs["n_pol"] > 2:
-                data_array[:, :, :, 2, :], data_array[:, :, :, 3, :] = (
-                    data_array[:, :, :, 3, :],
-                    data_array[:, :, :, 2, :],
-                )
-
         # Check to see if the calibraton and observation frequency resolution match
         if freq_channel_width != obs["freq_res"]:
             freq_factor = obs["freq_res"] / freq_channel_width
-- 
2.43.0


From 9375735f9697f6f3c284dfef4d82bc34f7817b56 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 090/110] fix: transferred bandpass is averaged and
 interpolated over the channels of its file

---
 PyFHD/calibration/calibration_utils.py | 76 +++++++++-----------------
 1 file changed, 27 insertions(+), 49 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 9a21ba4..a45c07a 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -446,6 +446,12 @@ def transfer_bandpass(
                 "Not enough polarizations defined in the calibration fits file."
             )
 
+        # Check that the calibration covers the band of the observation
+        if round(n_freq * freq_channel_width / obs["freq_res"]) != obs["n_freq"]:
+            raise RuntimeWarning(
+                "Calfits does not have the number of frequencies of the observation"
+            )
+
         # Check to see if the calibraton and observation frequency resolution match
         if freq_channel_width != obs["freq_res"]:
             freq_factor = obs["freq_res"] / freq_channel_width
@@ -466,62 +472,34 @@ def transfer_bandpass(
                 logger.warning(
                     f"Calfits input freq channel width is different by a factor of {freq_factor}. Avergaing Down."
                 )
-                # Set flagged indices to NAN to remove them from mean calculation
-                flag_inds = np.where(np.abs(np.squeeze(data_array[:, :, :, :, 2])) == 1)
-                data_array[flag_inds][0] = np.nan
-                data_array[flag_inds][1] = np.nan
+                # Set flagged gains to NAN to remove them from mean calculation
+                flagged = np.abs(data_array[:, :, :, :, 2]) == 1
+                gains = np.where(flagged[..., np.newaxis], np.nan, data_array)
+                data_array = np.full(
+                    (n_ant_data, obs["n_freq"], *data_array.shape[2:]), np.nan
+                )
+                half_width = int(freq_factor // 2)
                 for channel_i in range(obs["n_freq"]):
-                    data_array[:, channel_i, :, :, :] = np.nanmean(
-                        data_array[
-                            :,
-                            max(
-                                channel_i * freq_factor - np.floor(freq_factor / 2), 0
-                            ) : channel_i
-                            * freq_factor
-                            + np.floor(freq_factor / 2.0),
-                            :,
-                            :,
-                            :,
-                        ]
+                    centre = int(channel_i * freq_factor)
+                    data_array[:, channel_i] = np.nanmean(
+                        gains[:, max(centre - half_width, 0) : centre + half_width + 1],
+                        axis=1,
                     )
-                data_array = data_array[:, 0 : obs["n_freq"], :, :, :]
             elif freq_factor < 1:
                 logger.warning(
                     f"Calfits input freq channel width is different by a factor of {freq_factor}. Using linear interpolation"
                 )
-                # The IDL code has 5 nested loops, and I can't think of the vectorization right now in a reasonable ampount of time
-                # Someone please vectorize laster if you can
-                data_array_temp = np.zeros(
-                    (data_dims[4], obs["n_freq"], n_time, n_jones, 2)
+                # The position of the observation's channels among those of the file
+                position = np.minimum(
+                    np.arange(obs["n_freq"]) * freq_factor, n_freq - 1
+                )
+                below = np.floor(position).astype(np.int64)
+                above = np.minimum(below + 1, n_freq - 1)
+                fraction = (position - below)[:, np.newaxis, np.newaxis, np.newaxis]
+                data_array = (
+                    data_array[:, below] * (1 - fraction)
+                    + data_array[:, above] * fraction
                 )
-                for data_i in range(2):
-                    for jones_i in range(n_jones):
-                        for times_i in range(n_time):
-                            for tile_i in range(data_dims[4]):
-                                for channel_i in range(obs["n_freq"] - 1):
-                                    start_idx = int(channel_i * (1.0 / freq_factor))
-                                    end_idx = int((channel_i + 1) * (1.0 / freq_factor))
-                                    data_array_temp[
-                                        tile_i,
-                                        start_idx:end_idx,
-                                        times_i,
-                                        jones_i,
-                                        data_i,
-                                    ] = np.interp(
-                                        np.arange(start_idx, end_idx, 1.0),
-                                        np.arange(channel_i, channel_i + 1, 1.0),
-                                        data_array[
-                                            data_i,
-                                            jones_i,
-                                            times_i,
-                                            channel_i : channel_i + 1,
-                                            tile_i,
-                                        ],
-                                    )
-                data_array_temp[:, obs["n_freq"] - 1, :, :, :] = data_array[
-                    :, n_freq - 1, :, :, :
-                ]
-                data_array = np.copy(data_array_temp)
 
         # Check to see what time range this needs to be applied to, and if pointings are necessary
         if n_time != 1:
-- 
2.43.0


From a75b85dfefe457545345107ede0540b551652d43 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 091/110] fix: time steps of a transferred bandpass are
 selected and averaged along their own axis

---
 PyFHD/calibration/calibration_utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a45c07a..c01c616 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -531,7 +531,7 @@ def transfer_bandpass(
                 }
                 obs_pointing = None
                 for pointing, pattern in delay_patterns.items():
-                    if np.array_equal(obs["delays"], pattern):
+                    if np.array_equal(np.asarray(obs["delays"], dtype=int), pattern):
                         obs_pointing = pointing
                 if obs_pointing is None:
                     raise RuntimeWarning(
@@ -598,24 +598,22 @@ def transfer_bandpass(
                 # select pointing index in calfits that matches observation
                 obs_pointing_index = abs(pointing_calfits_start - obs_pointing)
                 # choose the corresponding pointing from the calfits data array
-                data_array = data_array[:, :, obs_pointing_index, :, :]
+                data_array = data_array[
+                    :, :, obs_pointing_index : obs_pointing_index + 1, :, :
+                ]
             elif np.floor(time_delt) == np.floor(obs["time_res"]):
                 # Calibration fits are per-timeres
                 logger.info(
                     "Averaging calfits to observation length, an FHD requirement at this time."
                 )
-                data_array_temp = np.zeros(
-                    [data_dims[4], obs.n_freq, 1, data_dims[1], data_dims[0]]
-                )
-                data_array_temp[:, :, 0, :, :] = np.mean(data_array, axis=2)
-                data_array = np.copy(data_array_temp)
+                data_array = np.mean(data_array, axis=2, keepdims=True)
             else:
                 # Calibration fits are for a random set of times
                 logger.info(
                     "Finding closest match in time between calfits and obs. Obs metadata assumed to report start time, calfits metadata assumed to report center time."
                 )
                 time_delta = time_integration / (60 * 60 * 24)
-                time_array = np.full(n_time, time_start + time_delta)
+                time_array = time_start + np.arange(n_time) * time_delta
                 obs_julian_date = (
                     obs["astr"]["mjdobs"]
                     + 2400000.5
@@ -629,7 +627,7 @@ def transfer_bandpass(
                     )
                 # find the closest index between calfits and observation
                 time_index = np.argmin(np.abs(obs_julian_date - time_array))
-                data_array = data_array[:, :, time_index, :, :]
+                data_array = data_array[:, :, time_index : time_index + 1, :, :]
 
         # Check number of tiles
         if n_ant_data != obs["n_tile"]:
-- 
2.43.0


From 7acdb0e07fbed6dc56eafb7f1469210d2e116cdf Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 092/110] fix: a bandpass of another band is not transferred

---
 PyFHD/calibration/calibration_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index c01c616..f3ddce3 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -452,6 +452,11 @@ def transfer_bandpass(
                 "Calfits does not have the number of frequencies of the observation"
             )
 
+        if freq_start != obs["baseline_info"]["freq"][0]:
+            raise RuntimeWarning(
+                "Calfits input freq start is not equal to observation freq start"
+            )
+
         # Check to see if the calibraton and observation frequency resolution match
         if freq_channel_width != obs["freq_res"]:
             freq_factor = obs["freq_res"] / freq_channel_width
@@ -463,10 +468,6 @@ def transfer_bandpass(
                 raise RuntimeWarning(
                     f"Calfits input freq channel width is not easily castable to the observation, different by a factor of {freq_factor}"
                 )
-            if freq_start != obs["baseline_info"]["freq"][0]:
-                raise RuntimeWarning(
-                    "Calfits input freq start is not equal to observation freq start"
-                )
             # Downselect the data array
             if freq_factor > 1:
                 logger.warning(
-- 
2.43.0


From 61cdfb72fd9ddad9e83882afda1c6338d0783ea3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 093/110] fix: a bandpass file that ends before the pointing of
 the observation is not transferred

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index f3ddce3..9781dfa 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -592,7 +592,7 @@ def transfer_bandpass(
                     )
                 # find which pointing is the start of the calfits data
                 pointing_calfits_start = pointing_num_ref[pointing_calfits_index]
-                if obs_pointing < pointing_calfits_start:
+                if not 0 <= obs_pointing - pointing_calfits_start < n_time:
                     raise RuntimeWarning(
                         "Calfits file does not contain pointing of observation"
                     )
-- 
2.43.0


From 89d03a41f28ffd61f65e730daf2b8ea88c4c3cea Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 094/110] fix: a transferred bandpass is in double precision
 whatever its file holds

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 9781dfa..5386c4b 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -355,7 +355,7 @@ def transfer_bandpass(
             Path(pyfhd_config["input_path"], pyfhd_config["cal_bp_transfer"])
         )
         # Get the data
-        data_array = calfits[0].data
+        data_array = calfits[0].data.astype(np.float64)
         # Read in the header
         naxis = calfits[0].header["naxis"]
         if "delay" in calfits[0].header["caltype"]:
-- 
2.43.0


From 77013aa56cae38597054536958f79b5b26899750 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 095/110] fix: the pointings of a bandpass file are found by
 its own day, on which they start earlier than on the reference day

---
 PyFHD/calibration/calibration_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 5386c4b..14ef6eb 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -538,11 +538,9 @@ def transfer_bandpass(
                     raise RuntimeWarning(
                         "Pointing number not within 5 pointings around zenith."
                     )
-                obs_julian_date = obs["astr"]["mjdobs"] + 2400000.5
-
                 # Find corresponding in the calfits
                 # Number of days since Auguest 23 2013
-                days_since_ref = np.floor(obs_julian_date) - np.floor(time_start)
+                days_since_ref = np.floor(time_start) - 2456528
                 # pointing start shift amount depending on how many days since ref
                 obs_pointing_shift_since_ref = ((24 - 23.9344699) / 24) * days_since_ref
                 # pointing start time for HH:MM:SS on Aug23 (in JD) plus comparible pointing start time for reference, using calculated shift
@@ -561,7 +559,7 @@ def transfer_bandpass(
                             0.33657407,
                         ]
                     )
-                    + obs_pointing_shift_since_ref
+                    - obs_pointing_shift_since_ref
                 )
                 pointing_num_ref = [-5, -4, -3, -2, -1, 0, 1, 2, 3, 4]
                 # pointing start time for HH:MM:SS for calfits day (in JD)
-- 
2.43.0


From 6b15ffb28e7b030b489a94557dd73b65c6d739e9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 096/110] fix: a bandpass file that starts before the first
 pointing of the list does not start in the last one

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 14ef6eb..3393df9 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -589,7 +589,7 @@ def transfer_bandpass(
                         "Calfits does not start between five pointings before zenith and four pointings after zenith. Not suitable for pointing cal at this time."
                     )
                 # find which pointing is the start of the calfits data
-                pointing_calfits_start = pointing_num_ref[pointing_calfits_index]
+                pointing_calfits_start = pointing_num_ref[0] + pointing_calfits_index
                 if not 0 <= obs_pointing - pointing_calfits_start < n_time:
                     raise RuntimeWarning(
                         "Calfits file does not contain pointing of observation"
-- 
2.43.0


From 29f1bb719be93c6c1c8401834c897e2e5c1221c2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 097/110] fix: histogram leaves NaN out of every bin instead of
 indexing out of bounds

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 5808973..235f290 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -99,8 +99,8 @@ def get_hist(
         bin_divider = bin_max - bin_min
     # Now loop through the data
     for idx in range(data.size):
-        # Check if its inside the range we set
-        if data[idx] < min or data[idx] > max:
+        # Check if its inside the range we set, which NaN never is
+        if not (data[idx] >= min and data[idx] <= max):
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
@@ -211,8 +211,8 @@ def get_ri(
     # Setup counter to remove elements in case of min or max being set
     counter = 0
     for idx in range(data.size):
-        # Check if its inside the range we set
-        if data[idx] < min or data[idx] > max:
+        # Check if its inside the range we set, which NaN never is
+        if not (data[idx] >= min and data[idx] <= max):
             counter += 1
             continue
         # Calculate the index for indices and histogram
-- 
2.43.0


From 7188e966003ebb12bbe3401e318099e95ba26bf7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 098/110] fix: rebin of one-row arrays, to array shapes, and
 refusal of non-integral sampled shapes

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 235f290..6807639 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -551,21 +551,33 @@ def rebin(
     PyFHD.pyfhd_tools.pyfhd_utils.rebin_columns : Expand the number of columns through interpolation
     """
     old_shape = a.shape
+    # The shape could be any array like, i.e. a list or a NumPy array
+    shape = tuple(int(size) for size in shape)
     # Prevent more processing than needed if we want the same shape
     if old_shape == shape:
         return a
+    # A 2D array of one row is expanded in the same way as a 1D array
+    if len(old_shape) == 2 and old_shape[0] == 1 and not sample:
+        a = a[0]
     if len(old_shape) == 1:
         old_shape = (1, old_shape[0])
     # Sample the original array using rebin
     if sample:
-        # If its a 1D array then...
-        if old_shape[0] == 1:
+        if (max(old_shape[0], shape[0]) % min(old_shape[0], shape[0]) != 0) or (
+            max(old_shape[1], shape[1]) % min(old_shape[1], shape[1]) != 0
+        ):
+            raise ValueError(
+                "Your new shape should be a factor or multiple of the original shape"
+            )
+        # If its a 1D array and stays one then...
+        if a.ndim == 1 and shape[0] == 1:
             if shape[1] > old_shape[1]:
                 rebinned = np.repeat(a, shape[1] // old_shape[1], axis=0)
             else:
                 rebinned = a[:: old_shape[1] // shape[1]]
         # Assume its a 2D array
         else:
+            a = a.reshape(old_shape)
             # Do the Rows first
             if shape[0] >= old_shape[0]:
                 # Expand Rows
-- 
2.43.0


From c75777c2453441eaa3dbdbec143c634aab321dc0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 099/110] fix: the inverse weights of integers are not
 truncated to integers

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 6807639..a67c091 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -687,10 +687,11 @@ def weight_invert(
     # IDL is able to treat one number as an array (because every number is aprrently an array of size 1?)
     # As such we need to check if it's a number less than or equal to 0 and make a zeros array of size 1
     if np.isscalar(weights):
-        result = np.zeros(1, dtype=type(weights))
         weights = np.array([weights], dtype=type(weights))
-    else:
-        result = np.zeros_like(weights, dtype=weights.dtype)
+    # The inverse of an integer isn't an integer
+    if np.issubdtype(weights.dtype, np.integer):
+        weights = weights.astype(np.float64)
+    result = np.zeros_like(weights, dtype=weights.dtype)
     weights_use = weights
     if use_abs or np.iscomplexobj(weights_use):
         """
-- 
2.43.0


From 3144e4322cdcdbf8e719597c1ed3056b69a9413c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 100/110] fix: flag counts are updated too when no visibility
 is left

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index a67c091..3ea0f6e 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1218,6 +1218,10 @@ def vis_weights_update(
         xmin[flag_i] = -1
         ymin[flag_i] = -1
 
+    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
+    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
+    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
+
     if min(np.max(xmin), np.max(ymin)) < 0:
         obs["n_vis"] = 0
         return vis_weights, obs
@@ -1225,10 +1229,6 @@ def vis_weights_update(
     bin_n, _, _ = histogram(xmin + ymin * obs["dimension"], min=0)
     obs["n_vis"] = np.sum(bin_n)
 
-    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
-    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
-    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
-
     return vis_weights, obs
 
 
-- 
2.43.0


From 232b84ed4341874f4da2f19d2a6f0f44627ef77c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 101/110] fix: outlier flagging marks the last tiles unused too
 when they have no baselines

---
 PyFHD/flagging/flagging.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 597fdc5..a0396f1 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -230,9 +230,7 @@ def vis_flag(
     data_abs = np.abs(vis_arr[0])
     if obs["n_pol"] > 1:
         data_abs = np.sqrt(data_abs**2 + np.abs(vis_arr[1]) ** 2)
-    n_tiles_use = max(
-        np.max(obs["baseline_info"]["tile_a"]), np.max(obs["baseline_info"]["tile_b"])
-    )
+    n_tiles_use = obs["n_tile"]
     uv_dist = np.sqrt(params["uu"] ** 2 + params["vv"] ** 2) * idl_median(
         obs["baseline_info"]["freq"]
     )
-- 
2.43.0


From d4196300a3819a00fa9fb580657abaa5f884b719 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 102/110] fix: a padded plane that is not square is padded
 along each axis by its own size

---
 PyFHD/gridding/gridding_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index ac03847..714a2f9 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -463,8 +463,11 @@ def dirty_image_generate(
         # di_uv1 = np.zeros((dimension_new, dimension_new), dtype = "complex")
         # di_uv1[dimension_new // 2 - elements // 2 : dimension_new // 2 + elements // 2,
         #        dimension_new // 2 - dimension // 2 : dimension_new // 2 + dimension // 2] = di_uv_use
+        # Each axis is padded by its own size, so a plane that isn't square keeps its pixel scale
+        pad_factor = int(pad_uv_image) - 1
         di_uv1 = np.pad(
-            di_uv_use, (np.max([dimension, elements]) // 2) * (int(pad_uv_image) - 1)
+            di_uv_use,
+            [((elements // 2) * pad_factor,) * 2, ((dimension // 2) * pad_factor,) * 2],
         )
         di_uv_use = di_uv1 * (pad_uv_image**2)
 
-- 
2.43.0


From 506f4eaf38463f8224ef3a02b3dd012d1b7cbb34 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 103/110] fix: antenna numbers counted from zero are taken as
 given even if the first of a baseline is always antenna 0

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 73feab2..0e01bc7 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -95,7 +95,7 @@ def create_obs(
     obs["freq_center"] = np.median(baseline_info["freq"])
 
     antenna_flag = True
-    if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
+    if np.max(params["antenna1"]) > 0 or (np.max(params["antenna2"]) > 0):
         # The numbers are compared with the originals while they get mapped, so map a copy
         baseline_info["tile_a"] = np.array(params["antenna1"])
         baseline_info["tile_b"] = np.array(params["antenna2"])
-- 
2.43.0


From 8325ae44a6a68eb473682d720cd5f793a463d59e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 104/110] fix: model baselines are matched with those of the
 data by their pair of tiles, not by position

---
 PyFHD/source_modeling/vis_model_transfer.py | 53 +++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index eaef978..a12d24c 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -224,6 +224,39 @@ class _FlaggingInfoCounter(object):
         self.ant2_single_time = params["antenna2"][: self.num_visi_per_time_step]
 
 
+def _match_baselines(
+    data_tiles: NDArray[np.integer],
+    flaginfo_model: _FlaggingInfoCounter,
+    model_inds: NDArray[np.integer],
+) -> NDArray[np.integer]:
+    """
+    Order baselines of the model (of a single time step) as in the data
+
+    Parameters
+    ----------
+    data_tiles : NDArray[np.integer]
+        The first and second tile indexes of the baselines in the data
+    flaginfo_model : _FlaggingInfoCounter
+        The baselines of the model
+    model_inds : NDArray[np.integer]
+        The indexes of the baselines to choose from
+
+    Returns
+    -------
+    NDArray[np.integer]
+        For every baseline in the data the index of the one with the same pair of tiles
+        in the model, or model_inds as they are if the model names its tiles differently
+    """
+    pairs = {
+        (flaginfo_model.ant1_single_time[ind], flaginfo_model.ant2_single_time[ind]): ind
+        for ind in model_inds
+    }
+    matched = [pairs.get((tile_a, tile_b)) for tile_a, tile_b in data_tiles.T]
+    if None in matched:
+        return model_inds
+    return np.array(matched, dtype=np.int64)
+
+
 def flag_model_visibilities(
     vis_model_arr: NDArray[np.complex128],
     params_data: dict,
@@ -433,6 +466,26 @@ def flag_model_visibilities(
         )
         exit(1)
 
+    # The model can have its baselines in another order than the data, and the
+    # data can have fewer auto-correlations, so find the rows of the model by
+    # their pair of tiles (as indexes, as in the model)
+    data_tiles = np.array([flaginfo_data.ant1_single_time, flaginfo_data.ant2_single_time])
+    if np.max(flaginfo_data.ant_names) > len(obs["baseline_info"]["tile_names"]):
+        tile_index = {
+            name: ind + 1 for ind, name in enumerate(obs["baseline_info"]["tile_names"])
+        }
+        data_tiles = np.vectorize(tile_index.get)(data_tiles, data_tiles)
+    include_cross_per_time = _match_baselines(
+        data_tiles[:, flaginfo_data.cross_locs_per_time],
+        flaginfo_model,
+        include_cross_per_time,
+    )
+    include_auto_per_time = _match_baselines(
+        data_tiles[:, flaginfo_data.auto_locs_per_time],
+        flaginfo_model,
+        include_auto_per_time,
+    )
+
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
         (obs["n_pol"], obs["n_freq"], flaginfo_data.num_visis), dtype=np.complex128
-- 
2.43.0


From 31f8bee5aa9463f42a1734a6e5970efa2e5f995f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 105/110] fix: a channel without bandpass gives a zero
 remainder instead of undefined gains everywhere

---
 PyFHD/calibration/calibration_utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 3393df9..fe584ef 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -780,7 +780,13 @@ def vis_cal_bandpass(
                     gain2_input = gain2[pol_i, :, :]
                     cal_bandpass_gain[pol_i] = gain2_input
                     # Set what will be passed back as the residual as the input gain divided by the final bandpass per cable type.
-                    gain3[freq_use, :] /= gain2_input[freq_use, :]
+                    # Where there is no bandpass there is nothing to divide out
+                    gain3[freq_use, :] = np.divide(
+                        gain3[freq_use, :],
+                        gain2_input[freq_use, :],
+                        out=np.zeros((freq_use.size, obs["n_tile"]), dtype=gain3.dtype),
+                        where=gain2_input[freq_use, :] != 0,
+                    )
                     cal_remainder_gain[pol_i] = gain3
         # Add Levine Memo bandpass to the gain solutions here if you wish
     else:
@@ -810,7 +816,13 @@ def vis_cal_bandpass(
             # Vectorize later if possible
             for tile_i in range(obs["n_tile"]):
                 gain2[freq_use, tile_i] = bandpass_single
-                gain3[freq_use, tile_i] /= bandpass_single
+                # Where there is no bandpass there is nothing to divide out
+                gain3[freq_use, tile_i] = np.divide(
+                    gain3[freq_use, tile_i],
+                    bandpass_single,
+                    out=np.zeros(freq_use.size, dtype=gain3.dtype),
+                    where=bandpass_single != 0,
+                )
 
             cal_bandpass_gain[pol_i, :, :] = gain2
             cal_remainder_gain[pol_i, :, :] = gain3
-- 
2.43.0


From 942ae9b20e67a8a67711347a9943809e9d947c19 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 106/110] fix: an image is padded by a fractional factor
 instead of only being scaled by it

---
 PyFHD/gridding/gridding_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 714a2f9..493a537 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -464,11 +464,13 @@ def dirty_image_generate(
         # di_uv1[dimension_new // 2 - elements // 2 : dimension_new // 2 + elements // 2,
         #        dimension_new // 2 - dimension // 2 : dimension_new // 2 + dimension // 2] = di_uv_use
         # Each axis is padded by its own size, so a plane that isn't square keeps its pixel scale
-        pad_factor = int(pad_uv_image) - 1
-        di_uv1 = np.pad(
-            di_uv_use,
-            [((elements // 2) * pad_factor,) * 2, ((dimension // 2) * pad_factor,) * 2],
-        )
+        # The padding may be fractional, the centre of the plane stays in the centre
+        pad_widths = []
+        for size in di_uv_use.shape:
+            size_new = int(size * pad_uv_image)
+            before = size_new // 2 - size // 2
+            pad_widths.append((before, size_new - size - before))
+        di_uv1 = np.pad(di_uv_use, pad_widths)
         di_uv_use = di_uv1 * (pad_uv_image**2)
 
     # FFT normalization
-- 
2.43.0


From 08528586dd1e85de6889b0fb8f614fdd6622e0cf Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 107/110] fix: variable length arrays of differing types are
 saved as they are, not as the bytes of the first one's type

---
 PyFHD/io/pyfhd_io.py | 46 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index dfe5426..f38fa14 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -4,7 +4,7 @@ import h5py
 from logging import Logger
 from pathlib import Path
 from typing import Any
-from numpy.typing import NDArray, DTypeLike
+from numpy.typing import ArrayLike, NDArray, DTypeLike
 from scipy.io import readsav
 
 
@@ -162,6 +162,31 @@ def format_array(array: NDArray[Any]) -> NDArray[Any]:
     return array
 
 
+def format_rows(rows: ArrayLike, dtype: DTypeLike | None = None) -> NDArray[Any]:
+    """
+    Formats each of the arrays of an array (or list) of variable length arrays, and converts them to the dtype
+    they will be stored in if given one. H5Py takes every array to be of the type of the first of them, so without
+    the conversion arrays of differing types would be stored as nonsense, or not at all.
+
+    Parameters
+    ----------
+    rows : ArrayLike
+        The variable length arrays
+    dtype : DTypeLike | None
+        The dtype they will be stored in, by default None (each array keeps the dtype it has)
+
+    Returns
+    -------
+    formatted : NDArray[Any]
+        An object array of the arrays
+    """
+    formatted = np.empty(len(rows), dtype=object)
+    for i, arr in enumerate(rows):
+        arr = format_array(arr)
+        formatted[i] = arr if dtype is None else np.asarray(arr).astype(dtype)
+    return formatted
+
+
 def save_dataset(
     h5py_obj: h5py.File | h5py.Group,
     key: str,
@@ -227,9 +252,8 @@ def save_dataset(
             else:
                 # Since we're dealing with variable length arrays, we need to use a special dtype
                 # and process each array individually
-                for i, arr in enumerate(value):
-                    value[i] = format_array(arr)
                 value_dtype = variable_lengths[key]
+                value = format_rows(value, h5py.check_vlen_dtype(value_dtype))
             # If we want it to be chunked do that, always compress it
             if key in to_chunk:
                 h5py_obj.create_dataset(
@@ -254,10 +278,10 @@ def save_dataset(
             # Given that H5Py converts it into a NumPy array anyway, we can
             # at least control the conversion (if we need to)
             if key in variable_lengths:
-                value = np.array(value, dtype=object)
-                for i, arr in enumerate(value):
-                    value[i] = format_array(arr)
                 data_dtype = variable_lengths[key]
+                value = format_rows(
+                    np.array(value, dtype=object), h5py.check_vlen_dtype(data_dtype)
+                )
             else:
                 try:
                     value = np.array(value)
@@ -269,13 +293,13 @@ def save_dataset(
                             logger.warning(
                                 f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
                             )
-                        value = np.array(value, dtype=object)
-                        for i, arr in enumerate(value):
-                            value[i] = format_array(np.asarray(arr))
+                        value = format_rows([np.asarray(arr) for arr in value])
                         # The type must be able to hold every one of the arrays
-                        data_dtype = h5py.vlen_dtype(
-                            dtype_picker(np.result_type(*[v.dtype for v in value]))
+                        common_dtype = dtype_picker(
+                            np.result_type(*[arr.dtype for arr in value])
                         )
+                        value = format_rows(value, common_dtype)
+                        data_dtype = h5py.vlen_dtype(common_dtype)
                     else:
                         logger.info(
                             f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
-- 
2.43.0


From ba8dc1aad859d4f9fb03b13e0d59ae680b2d26ff Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:26:16 +0000
Subject: [PATCH 108/110] fix: parallactic angle in any quadrant, the slant of
 the projection was reversed for fields on the other side of the zenith

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 3ea0f6e..39fe65a 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -991,7 +991,8 @@ def parallactic_angle(latitude: float, hour_angle: float, dec: float) -> float:
     # There is no such angle at the zenith
     if x_term == 0 and y_term == 0:
         return 0.0
-    return np.degrees(np.arctan(y_term / x_term))
+    # The angle is in any quadrant, the zenith may be on the other side of the object than the pole
+    return np.degrees(np.arctan2(y_term, x_term))
 
 
 def simple_deproject_w_term(
-- 
2.43.0


From 830f02ad1a66ed2caee9c1c6089c8c8c8cae9435 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:26:16 +0000
Subject: [PATCH 109/110] fix: cross polarised uv planes add XY and the mirror
 of YX, each has the other half of the plane

---
 PyFHD/gridding/gridding_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 493a537..106e98e 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -891,7 +891,7 @@ def crosspol_reformat(image_uv: NDArray[np.complex128]) -> NDArray[np.complex128
     # Since inverse keyword in FHD isn't used or explained
     # anywhere else, if you want it, add it as an option to
     # the pyfhd_config with some help text
-    crosspol_image = (image_uv[2] - conjugate_mirror(image_uv[3])) / 2
+    crosspol_image = (image_uv[2] + conjugate_mirror(image_uv[3])) / 2
     image_uv[2] = crosspol_image
     image_uv[3] = conjugate_mirror(crosspol_image)
     return image_uv
-- 
2.43.0


From 0bfda71db578f4fbfc135df9e2d527d907491d70 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 05:55:41 +0000
Subject: [PATCH 110/110] fix: planes of maps have an even size, those of an
 odd size were imaged and masked around a corner

---
 PyFHD/healpix/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index ffbba1e..c41ef59 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -80,7 +80,8 @@ def healpix_snapshot_cube_generate(
     else:
         dimension_use = fov_use / obs["degpix"]
 
-    dimension_use = int(dimension_use)
+    # Planes of an odd size have no pixel in their centre
+    dimension_use = int(dimension_use) // 2 * 2
 
     if pyfhd_config["ps_nfreq_avg"] is None:
         fbin_i = psf["fbin_i"]
-- 
2.43.0

