From 1b20c9d9731081c9e8d3f6bc9d57b6f58e5d38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 01/76] fix: pack grids using the range of the non-missing
 values only

---
 src/gempakio/encode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..f9c377d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
-- 
2.43.0


From 03fc3a75ac113de44834ee22fe2750a951a806c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 02/76] fix: never pack the largest grid value as the missing
 code

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index f9c377d..db82f94 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -75,7 +75,7 @@ def pack_grib(grid, missing_float, nbits=16):
             if idat >= imax:
                 while idat >= imax:
                     nnnn -= 1
-                    idat = qdiff * 2**nnnn
+                    idat = round(qdiff * 2**nnnn)
             else:
                 while round(qdiff * 2 ** (nnnn + 1)) < imax:
                     nnnn += 1
-- 
2.43.0


From 52c02fb40cb24df5b7d5f7a6e6ff2ea53765129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 03/76] fix: write grids with fewer than three rows or columns

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index db82f94..5bc1e6d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1016,9 +1016,9 @@ class GridFile(DataManagementFile):
 
         # Write a basic analysis block (type 2)
         rx1 = self.nx // 2
-        rx2 = rx1 + 1
+        rx2 = min(rx1 + 1, self.nx - 1)
         ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        ry2 = min(ry1 + 1, self.ny - 1)
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From 357bb1e137b75a31a33373fcd78a2398eae4ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 04/76] fix: write and read grids whose data fit in a single
 word

---
 src/gempakio/decode/gempak.py | 6 +++---
 src/gempakio/encode/gempak.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..7ad04cc 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -808,7 +808,7 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
@@ -851,7 +851,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5bc1e6d..a189d43 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -98,7 +98,7 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (1 if any_split_words else 0)
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
-- 
2.43.0


From bd57b7f813b0c8888a7e33202891526b655211b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 05/76] fix: add_grid no longer modifies or aliases the
 caller's array

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a189d43..335a805 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -935,7 +935,7 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid)
+        self.data[new_column] = self._replace_nan(grid.copy())
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From c257924773f65c54ff1ae99901d0d2dc2f2b1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 06/76] fix: pack integer grids without integer overflow

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 335a805..2bb430b 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -935,7 +935,9 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid.copy())
+        self.data[new_column] = self._replace_nan(
+            grid.astype(np.result_type(grid.dtype, np.float32))
+        )
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From d78663205f3fa3ca080e185538e298aba7a6d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 07/76] fix: check the length of date_time2 itself in add_grid

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2bb430b..21b1274 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -882,7 +882,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From 04d511acdc484714857ce92ab91c1125a95de1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 08/76] fix: allow grids with and without a second time at the
 same first time

---
 src/gempakio/encode/gempak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 21b1274..ddc8198 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -944,7 +944,10 @@ class GridFile(DataManagementFile):
         if self.rows + self.columns > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
+        # Grids without a second time sort before those that have one
+        self.column_headers = sorted(
+            self._column_set, key=lambda c: c._replace(GDT2=c.GDT2 if c.GDT2 != 0 else ())
+        )
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
-- 
2.43.0


From 691f2ad781cb862b5d728741fb7021d49babb69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 09/76] fix: keep the initial hour and minute of typed analysis
 times

---
 src/gempakio/encode/gempak.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index ddc8198..c4374ea 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -858,6 +858,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analyses are stored by their valid time only
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -901,6 +906,10 @@ class GridFile(DataManagementFile):
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
+                    if grid_type2 == 0:
+                        init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                 elif len(split_time) > 3:
                     raise ValueError(f'Cannot parse malformed date_time2 input {date_time2}.')
                 else:
-- 
2.43.0


From 8711c7f89b14c0cb647b2529a2b481af8bf59641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 10/76] fix: take the mean latitude of MCD grids in radians

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7ad04cc..f5603fe 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -753,7 +753,7 @@ class GempakGrid(GempakFile):
                     + self.navigation_block.lower_left_lat
                 ) * 0.5
                 k_0 = (
-                    1 / math.cos(avglat)
+                    1 / math.cos(math.radians(avglat))
                     if self.navigation_block.proj_angle1 == 0
                     else self.navigation_block.proj_angle1
                 )
-- 
2.43.0


From 81481067aa24751035d6d07cf54b2e2468dffaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 11/76] fix: accept polar stereographic projections given by a
 standard parallel

---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index c4374ea..f87e990 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -698,7 +698,11 @@ class GridFile(DataManagementFile):
             self.angle2 = params['longitude_of_projection_origin']
             self.angle3 = self.rotation
         elif name == 'polar_stereographic':
-            self.angle1 = params['latitude_of_projection_origin']
+            if 'latitude_of_projection_origin' in params:
+                self.angle1 = params['latitude_of_projection_origin']
+            else:
+                # Pole is implied by the sign of the standard parallel
+                self.angle1 = 90.0 if params['standard_parallel'] > 0 else -90.0
             self.angle2 = params['straight_vertical_longitude_from_pole']
             self.gemproj = 'STR'
         elif name == 'stereographic':
-- 
2.43.0


From 0205da1c48632b122dda17238b80d031f03147c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 12/76] fix: accept Lambert conformal projections with one
 standard parallel

---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index f87e990..5209762 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -711,7 +711,11 @@ class GridFile(DataManagementFile):
             self.gemproj = 'STR'
             self.angle3 = self.rotation
         elif name == 'lambert_conformal_conic':
-            self.angle1, self.angle3 = params['standard_parallel']
+            parallels = params['standard_parallel']
+            if isinstance(parallels, (tuple, list)):
+                self.angle1, self.angle3 = parallels
+            else:
+                self.angle1 = self.angle3 = parallels
             self.angle2 = params['longitude_of_central_meridian']
             self.gemproj = 'LCC'
         elif name == 'equidistant_cylindrical':
-- 
2.43.0


From 267f8aaa8255abc59b044c3547d4d962c10d9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 13/76] fix: navigate cylindrical grids that cross the edge of
 the projection

---
 src/gempakio/decode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f5603fe..fa76b9e 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -796,6 +796,10 @@ class GempakGrid(GempakFile):
         urx, ury = transform(
             self.navigation_block.upper_right_lon, self.navigation_block.upper_right_lat
         )
+        _, ptype = GEMPROJ_TO_PROJ[self.navigation_block.projection]
+        if ptype == 'cyl' and self.kx > 1 and urx <= llx:
+            # Cylindrical grids run eastward; grid crosses edge of projection
+            urx += 2 * math.pi * 6371200.0
         self.x = np.linspace(llx, urx, self.kx, dtype=np.float32)
         self.y = np.linspace(lly, ury, self.ky, dtype=np.float32)
         xx, yy = np.meshgrid(self.x, self.y, copy=False)
-- 
2.43.0


From 2be049c84c41220c7b943c1d83556ae7ee3ccd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 14/76] fix: round station coordinates instead of truncating
 them

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5209762..1e4d844 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1322,7 +1322,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1588,7 +1588,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From 3b29acfa15289ba1fda1455026ca4d56495b9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 15/76] fix: accept date_time strings in add_station

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 1e4d844..e8d6717 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1529,7 +1529,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From d9120185e3e810384f99bbc0e21cf745917531ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 16/76] fix: read all eight characters of sounding station ids

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index fa76b9e..26f64e5 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1227,7 +1227,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1248,7 +1248,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1309,7 +1309,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From ad14dd5c9079e1760e170dd8371d534775d6e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 17/76] fix: pad every file to a whole number of records

---
 src/gempakio/encode/gempak.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index e8d6717..7ef9728 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -5,7 +5,7 @@
 
 from collections import namedtuple
 from datetime import datetime, timedelta
-from io import BytesIO
+from io import BytesIO, SEEK_END
 import re
 import struct
 
@@ -16,6 +16,7 @@ from gempakio.common import (
     _position_to_word,
     _word_to_position,
     ANLB_SIZE,
+    BYTES_PER_WORD,
     DataSource,
     DataTypes,
     FileTypes,
@@ -523,6 +524,10 @@ class DataManagementFile:
             stream.jump_to(self._data_mgmt_ptr)
             self._write_data_management(stream)
 
+            # File must be a whole number of records
+            size = stream.seek(0, SEEK_END)
+            stream.write(bytes(-size % (MBLKSZ * BYTES_PER_WORD)))
+
             with open(file, 'wb') as out:
                 out.write(stream.getbuffer())
 
-- 
2.43.0


From 7ec909e5af90b4b9c70a9bdc9b9629bbc30b096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 18/76] fix: leave the file unchanged when adding an entry
 fails

---
 src/gempakio/encode/gempak.py | 75 +++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 7ef9728..5f59818 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -955,21 +955,24 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
+        column_set = OrderedSet(self._column_set)
+        column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(
-            grid.astype(np.result_type(grid.dtype, np.float32))
-        )
-
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
+        if self.rows + len(column_set) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
+        grid = self._replace_nan(grid.astype(np.result_type(grid.dtype, np.float32)))
+
         # Grids without a second time sort before those that have one
-        self.column_headers = sorted(
-            self._column_set, key=lambda c: c._replace(GDT2=c.GDT2 if c.GDT2 != 0 else ())
+        column_headers = sorted(
+            column_set, key=lambda c: c._replace(GDT2=c.GDT2 if c.GDT2 != 0 else ())
         )
+
+        # Only update the file once nothing else can fail
+        self._column_set = column_set
+        self.data[new_column] = grid
+        self.columns = len(column_set)
+        self.column_headers = column_headers
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
@@ -1269,21 +1272,27 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row_set = OrderedSet(self._row_set)
+        row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
+        column_set = OrderedSet(self._column_set)
+        column_set.add(self.make_column_header(*new_column))
 
-        self.data[(new_row, new_column)] = params._asdict()
-
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
+        if len(row_set) + len(column_set) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        column_headers = sorted(column_set)
+        row_headers = sorted(row_set)
+
+        # Only update the file once nothing else can fail
+        self._row_set = row_set
+        self._column_set = column_set
+        self.data[(new_row, new_column)] = params._asdict()
+        self.rows = len(row_set)
+        self.columns = len(column_set)
+        self.column_headers = column_headers
+        self.row_headers = row_headers
 
     def _write_row_headers(self, stream):
         """Write row headers to a SoundingFile stream."""
@@ -1535,21 +1544,27 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row_set = OrderedSet(self._row_set)
+        row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
-
-        self.data[(new_row, new_column)] = params._asdict()
+        column_set = OrderedSet(self._column_set)
+        column_set.add(self.make_column_header(*new_column))
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
+        if len(row_set) + len(column_set) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        column_headers = sorted(column_set)
+        row_headers = sorted(row_set)
+
+        # Only update the file once nothing else can fail
+        self._row_set = row_set
+        self._column_set = column_set
+        self.data[(new_row, new_column)] = params._asdict()
+        self.rows = len(row_set)
+        self.columns = len(column_set)
+        self.column_headers = column_headers
+        self.row_headers = row_headers
 
     def _write_row_headers(self, stream):
         """Write row headers to a SurfaceFile stream."""
-- 
2.43.0


From 838ffe1d2b0b47704fd8e40106f3ca80d25d28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 19/76] fix: require an integer station priority when it is
 added

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5f59818..5e69887 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1537,7 +1537,7 @@ class SurfaceFile(DataManagementFile):
             stat = str(station_info.get('state', '')).upper()[:4]
             coun = str(station_info.get('country', '')).upper()[:4]
             std2 = ''
-            spri = station_info.get('priority', 0)
+            spri = int(station_info.get('priority', 0))
 
             if len(stid) > 4:
                 std2 = stid[4:8]
-- 
2.43.0


From 22b1a7ee0a06db0d2e94999d7eaf7cbf49940b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 20/76] fix: encode all VGF elements before opening the output
 file

---
 src/gempakio/encode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..72ac1b0 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1697,6 +1697,8 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        # Encode everything first to not destroy an existing file on failure
+        encoded = b''.join(e.encode() for e in self.elements)
+
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            out.write(encoded)
-- 
2.43.0


From 6a4d02718c419df0deaaad7d728b3715a1474713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 21/76] fix: keep entries in place when headers before them are
 unused

---
 src/gempakio/decode/gempak.py | 57 ++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 26f64e5..468394d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -451,6 +451,23 @@ class GempakFile:
                     else:
                         self.parameters[n][attr] += self._buffer.read_binary(*fmt)
 
+    def _read_headers(self, count, header_fmt):
+        """Read row or column headers.
+
+        Unused headers are kept as None so that the index of a header is its
+        number in the file. Those after the last used header are dropped.
+        """
+        headers = []
+        used = 0
+        for _ in range(count):
+            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
+                headers.append(self._buffer.read_struct(header_fmt))
+                used = len(headers)
+            else:
+                self._buffer.skip(header_fmt.size)
+                headers.append(None)
+        return headers[:used]
+
     def _swap_bytes(self, binary):
         """Swap between little and big endian."""
         self.swapped_bytes = struct.pack('@i', 1) != binary
@@ -632,9 +649,7 @@ class GempakGrid(GempakFile):
         row_headers_info = [(key, 'i') for key in self.row_keys]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers += self._read_headers(self.dm_label.rows, row_headers_fmt)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -655,12 +670,14 @@ class GempakGrid(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers += self._read_headers(
+            self.dm_label.columns, column_headers_fmt
+        )
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
+            if head is None:
+                continue
             self._gdinfo.add(
                 Grid(
                     n,
@@ -1174,9 +1191,7 @@ class GempakSounding(GempakFile):
         ]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers += self._read_headers(self.dm_label.rows, row_headers_fmt)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -1203,15 +1218,17 @@ class GempakSounding(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers += self._read_headers(
+            self.dm_label.columns, column_headers_fmt
+        )
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
         self._sninfo = set()
         for irow, row_head in enumerate(self.row_headers):
             for icol, col_head in enumerate(self.column_headers):
+                if row_head is None or col_head is None:
+                    continue
                 pointer = (
                     self.dm_label.data_block_ptr
                     + (irow * self.dm_label.columns * self.dm_label.parts)
@@ -2197,9 +2214,7 @@ class GempakSurface(GempakFile):
         row_headers_info = self._key_types(self.row_keys)
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers += self._read_headers(self.dm_label.rows, row_headers_fmt)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -2207,9 +2222,9 @@ class GempakSurface(GempakFile):
         column_headers_info = self._key_types(self.column_keys)
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers += self._read_headers(
+            self.dm_label.columns, column_headers_fmt
+        )
 
         self._get_surface_type()
 
@@ -2217,6 +2232,8 @@ class GempakSurface(GempakFile):
         if self.surface_type == 'standard':
             for irow, row_head in enumerate(self.row_headers):
                 for icol, col_head in enumerate(self.column_headers):
+                    if row_head is None or col_head is None:
+                        continue
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
@@ -2245,6 +2262,8 @@ class GempakSurface(GempakFile):
         elif self.surface_type == 'ship':
             irow = 0
             for icol, col_head in enumerate(self.column_headers):
+                if col_head is None:
+                    continue
                 for iprt in range(len(self.parts)):
                     pointer = (
                         self.dm_label.data_block_ptr
@@ -2273,6 +2292,8 @@ class GempakSurface(GempakFile):
         elif self.surface_type == 'climate':
             for icol, col_head in enumerate(self.column_headers):
                 for irow, row_head in enumerate(self.row_headers):
+                    if row_head is None or col_head is None:
+                        continue
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-- 
2.43.0


From 6d5bac60bf9bc4070a9d860ca4c258269c2bdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 22/76] fix: do not list or decode grids that have no data

---
 src/gempakio/decode/gempak.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 468394d..2c0192b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -468,6 +468,16 @@ class GempakFile:
                 headers.append(None)
         return headers[:used]
 
+    def _has_data(self, irow, icol):
+        """Check whether any part of a row and column has data."""
+        pointer = (
+            self.dm_label.data_block_ptr
+            + (irow * self.dm_label.columns * self.dm_label.parts)
+            + (icol * self.dm_label.parts)
+        )
+        self._buffer.jump_to(self._start, _word_to_position(pointer))
+        return any(self._buffer.read_binary(self.dm_label.parts, f'{self.prefmt}i'))
+
     def _swap_bytes(self, binary):
         """Swap between little and big endian."""
         self.swapped_bytes = struct.pack('@i', 1) != binary
@@ -676,7 +686,7 @@ class GempakGrid(GempakFile):
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
-            if head is None:
+            if head is None or not self._has_data(0, n):
                 continue
             self._gdinfo.add(
                 Grid(
-- 
2.43.0


From d03512b14106242e1de3b032796cc54826486baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 23/76] fix: do not modify the date_time filter and accept any
 array-like

---
 src/gempakio/decode/gempak.py | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 2c0192b..ad310a2 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1050,10 +1050,11 @@ class GempakGrid(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1069,10 +1070,11 @@ class GempakGrid(GempakFile):
                 and date_time2 not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time2 = [date_time2]
-            if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time2, str):
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2097,10 +2099,11 @@ class GempakSounding(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2846,10 +2849,11 @@ class GempakSurface(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From ab54dc3564dbe6c25b1b8391fb2bee7eb7ad31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 24/76] fix: ignore case of state and country lists in snxarray

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ad310a2..223e691 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2105,14 +2105,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From de5aa4fcc2d3a52ec9c671a253fd53753de543f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 25/76] fix: find first and last date_time2 when grids lack a
 second time

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 223e691..d75b61f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1089,10 +1089,12 @@ class GempakGrid(GempakFile):
         elif date_time in ['first', 'FIRST']:
             date_time = [min(d.DATTIM1 for d in matched)]
 
+        # Only some grids may have a second time.
+        times2 = sorted(d.DATTIM2 for d in matched if d.DATTIM2 is not None)
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            date_time2 = times2[-1:]
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            date_time2 = times2[:1]
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From d455b3abf0bb0a14f9518c3a92174cfa91883755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 26/76] fix: accept arrays and zero as nearest_time filters

---
 src/gempakio/decode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index d75b61f..7dae5f0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2722,7 +2722,9 @@ class GempakSurface(GempakFile):
         if isinstance(date_time, str):
             date_time = datetime.strptime(date_time, '%Y%m%d%H%M')
 
-        nargs = sum(map(bool, [station_id, station_number, state, country, bbox]))
+        nargs = sum(
+            arg is not None for arg in [station_id, station_number, state, country, bbox]
+        )
 
         if nargs == 0:
             raise ValueError('Must have one filter.')
-- 
2.43.0


From 531ae688515deac6893280d812567e0c4ca786ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 27/76] fix: accept a single station number string in
 nearest_time

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7dae5f0..f3cf873 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2738,7 +2738,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
-- 
2.43.0


From db3dad51a65b9ea43a1f63376ec9c8a4758645cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 28/76] fix: skip stations with only special reports in
 nearest_time

---
 src/gempakio/decode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f3cf873..b0ec2cb 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2771,6 +2771,8 @@ class GempakSurface(GempakFile):
         if station_id:
             for stn in station_id:
                 matched = self.sfjson(station_id=stn, include_special=include_special)
+                if not matched:  # Only has special reports
+                    continue
 
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
@@ -2781,6 +2783,8 @@ class GempakSurface(GempakFile):
         if station_number:
             for stn in station_number:
                 matched = self.sfjson(station_number=stn, include_special=include_special)
+                if not matched:  # Only has special reports
+                    continue
 
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-- 
2.43.0


From 6b12c029c7d0162870944ae58220739c6eadf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 29/76] fix: keep report text with dashes intact when it has no
 station

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index b0ec2cb..93fa5db 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2625,7 +2625,7 @@ class GempakSurface(GempakFile):
                 # will be kept with the report we return.
                 stnstr = '----' if station is None else station.groupdict()['station']
 
-                if txt.count(stnstr) > 1:
+                if station is not None and txt.count(stnstr) > 1:
                     # GEMPAK sometimes has more than one text report attached. We can
                     # recover all of them by splitting with the station ID.
                     reports = [f'{stnstr}{s}'.strip() for s in filter(None, txt.split(stnstr))]
-- 
2.43.0


From 0b10e68bfddebe1a37ee1ef3c603aca7b90781ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 30/76] fix: date special reports in the month nearest to their
 GEMPAK time

---
 src/gempakio/decode/gempak.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 93fa5db..dd9c46d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2643,18 +2643,24 @@ class GempakSurface(GempakFile):
 
                     new_report = deepcopy(report)
                     if param == 'SPCL':  # Do not update standard METAR time
-                        try:
-                            dt = datetime(
-                                year,
-                                month,
-                                int(time_group['day']),
-                                int(time_group['hour']),
-                                int(time_group['minute']),
-                            )
-                        except ValueError:
-                            # Some text reports contain bad date/time. In these cases
-                            # replace with the GEMPAK date and time.
-                            dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        # The report can be from the month before or after that of the
+                        # GEMPAK timestamp. Some text reports contain bad date/time. In
+                        # these cases replace with the GEMPAK date and time.
+                        gem_dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        candidates = []
+                        for n in (month - 1, month, month + 1):
+                            try:
+                                dt = datetime(
+                                    year + (n - 1) // 12,
+                                    (n - 1) % 12 + 1,
+                                    int(time_group['day']),
+                                    int(time_group['hour']),
+                                    int(time_group['minute']),
+                                )
+                            except ValueError:
+                                continue
+                            candidates.append(dt)
+                        dt = min(candidates, key=lambda d: abs(d - gem_dt), default=gem_dt)
                         new_report['DATE'] = dt.date()
                         new_report['TIME'] = dt.time()
 
-- 
2.43.0


From 6e10347bfa5e97784b9308b324c6504b3613520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 31/76] fix: keep the requested pressure in interp_parameters

---
 src/gempakio/gemcalc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..029fbd4 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -321,6 +321,8 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
     rmult = np.log(vlev / pres1) / np.log(pres2 / pres1)
     outdata['PRES'] = vlev
     for param, aval in adata.items():
+        if param == 'PRES':
+            continue
         bval = bdata[param]
         if param == 'DRCT':
             ang1 = aval % 360
-- 
2.43.0


From 698aefb26a90273aa33e50ca590de60e4671c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 32/76] fix: do not interpolate between levels without pressure

---
 src/gempakio/gemcalc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 029fbd4..57a5977 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -171,7 +171,9 @@ def interp_missing_data(sounding, missing=-9999):
                 ):
                     iabove = 0
 
-                if iabove != 0:
+                if iabove != 0 and missing not in [
+                    sounding['PRES'][lev] for lev in (i - 1, i, iabove)
+                ]:
                     adata = {}
                     bdata = {}
                     for param, val in sounding.items():
-- 
2.43.0


From 44d7e05944bbb31c41ba5bc704a24c549da184cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 33/76] fix: list soundings that have data in any part

---
 src/gempakio/decode/gempak.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index dd9c46d..3b5e94c 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1243,16 +1243,8 @@ class GempakSounding(GempakFile):
             for icol, col_head in enumerate(self.column_headers):
                 if row_head is None or col_head is None:
                     continue
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts)
-                )
-
-                self._buffer.jump_to(self._start, _word_to_position(pointer))
-                data_ptr = self._buffer.read_int(4, self.endian, False)
 
-                if data_ptr:
+                if self._has_data(irow, icol):
                     self._sninfo.add(
                         Sounding(
                             irow,
-- 
2.43.0


From f3f1e708d04382d709171922e946701b44eb6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 34/76] fix: merge soundings without a surface level and lower
 significant data

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3b5e94c..20420d0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1622,7 +1622,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                if num_trop_levels > 1 and pbot < parts['TRPA']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1693,7 +1693,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                if num_sigt_levels > 1 and pbot < parts['TTBB']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From 58ea24d4a9d1ff974b65f8f1724e4cc146629343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 35/76] fix: insert below ground levels using the current
 number of levels

---
 src/gempakio/decode/gempak.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 20420d0..9975e2a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2011,6 +2011,7 @@ class GempakSounding(GempakFile):
 
         # Add below ground MAN data
         if merged['PRES'][0] != self.dm_label.missing_float and bgl > 0:
+            size = len(merged['PRES'])
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
-- 
2.43.0


From fb2fadad529749e4c2b62343d6fd37defc7e4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 36/76] fix: merge upper height winds when there are no lower
 ones

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 9975e2a..5aaf234 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1931,7 +1931,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From 13e2b004839f946c00476597c406cb8dd0091e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 37/76] fix: check the level being completed when merging
 height winds

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 5aaf234..656360d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1979,8 +1979,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0


From abe2e25119703d8371b0ccba69b4080de193cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 38/76] fix: never insert sounding levels below a missing
 surface level

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 656360d..af00abb 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1648,7 +1648,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPA']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPA']['DWPT'][itrp])
@@ -1678,7 +1678,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPC']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPC']['DWPT'][itrp])
@@ -1715,7 +1715,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTBB']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTBB']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTBB']['DWPT'][isigt])
@@ -1741,7 +1741,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTDD']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTDD']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTDD']['DWPT'][isigt])
@@ -1784,7 +1784,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPBB']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPBB']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPBB']['SPED'][isigw])
@@ -1814,7 +1814,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPDD']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPDD']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPDD']['SPED'][isigw])
@@ -1853,7 +1853,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWA']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWA']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWA']['SPED'][imxw])
@@ -1883,7 +1883,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWC']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWC']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWC']['SPED'][imxw])
-- 
2.43.0


From 6ac91bc2ffa2dd4a2493bdcdefcd938743dfb2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 39/76] fix: insert height winds in order when upper heights
 are missing

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index af00abb..ca40531 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1985,7 +1985,7 @@ class GempakSounding(GempakFile):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
                     else:
-                        loc = bisect.bisect_left(merged['HGHT'], hght)
+                        loc = ilev
                         merged['HGHT'].insert(loc, hght)
                         merged['DRCT'].insert(loc, drct)
                         merged['SPED'].insert(loc, sped)
-- 
2.43.0


From b940190dbfa070120a8df12039e39bb7e425185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 40/76] fix: do not merge levels from below the surface after a
 missing value

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ca40531..33560e2 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1655,7 +1655,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPA']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPA']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
@@ -1685,7 +1685,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPC']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPC']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Merge SIG temperature
         if num_sigt_levels >= 1 or num_above_sigt_levels >= 1:
@@ -1722,7 +1722,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
@@ -1748,7 +1748,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Interpolate heights
         interp_moist_height(merged, self.dm_label.missing_float)
@@ -1791,7 +1791,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                    pbot = min(pbot, pres)
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
@@ -1821,7 +1821,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                    pbot = min(pbot, pres)
 
         # Merge max winds on pressure surfaces
         if num_max_wind_levels >= 1 or num_above_max_wind_levels >= 1:
@@ -1860,7 +1860,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
@@ -1890,7 +1890,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Interpolate height for SIG/MAX winds
         interp_logp_height(merged, self.dm_label.missing_float)
-- 
2.43.0


From 933480c486982a9a175660eab26fbefb8cc2f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 41/76] fix: decode tropical cyclone error cones, tracks and
 break points

---
 src/gempakio/decode/vgf.py | 8 +++++---
 src/gempakio/tools.py      | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..bb979cc 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
@@ -4433,7 +4433,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..2f6f96e 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,7 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names, fmts = zip(*(i[:2] for i in info), strict=True)
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From b988c6b276567f172790417d306ad4675f36d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 42/76] fix: decode significant weather elements

---
 src/gempakio/decode/vgf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index bb979cc..0be0657 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4511,6 +4511,9 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
+        text_string = self._buffer.read(255).split(b'\x00')[0].decode()
+        self._buffer.skip(1)  # skip byte for struct alignment
+
         lat, lon = self._get_latlon(sgwx.number_points)
 
         self._elements.append(
@@ -4534,20 +4537,20 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
-                text.text,
+                text_string,
                 lat,
                 lon,
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 8ab8a9ed370d7383e84701ad222ed323bd26781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 43/76] fix: decode one element per tropical cyclone advisory

---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 0be0657..5d69862 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4256,26 +4256,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From ad849e6e454ce5336e8fa4ab5b207c79a16519d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 44/76] fix: strings that fill their VGF field lost the last
 character

---
 src/gempakio/decode/vgf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 5d69862..ab26011 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5309,8 +5309,7 @@ class VectorGraphicFile:
         stripped.
         """
         decoded = x.decode('utf-8', errors='ignore')
-        null = decoded.find('\x00')
-        return decoded[:null].strip()
+        return decoded.split('\x00')[0].strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From 671591ad438eb0b8f86e49c1c009b6036581945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 45/76] fix: decode tropical cyclone advisories without watches
 or warnings

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ab26011..e16915a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4229,7 +4229,7 @@ class VectorGraphicFile:
 
         text_width = int(re.search(r'(?<=<tca_textWidth>)(.+?)(?=<)', tca_string).group())
 
-        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<)', tca_string).group())
+        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<|$)', tca_string).group())
 
         ww = []
         for n in range(wwnum):
-- 
2.43.0


From 1f2e37d8117d331567071886c53ffb23f42aca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 46/76] fix: VGF records are framed by their record size

---
 src/gempakio/decode/vgf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index e16915a..783676c 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5047,6 +5047,7 @@ class VectorGraphicFile:
         more = True
 
         while not self._buffer.at_end() and more:
+            record_start = self._buffer.set_mark()
             header_struct = self._read_header()
 
             rec_size = header_struct.record_size
@@ -5163,9 +5164,12 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # Continue with the next record, whatever was read of this one
+            self._buffer.jump_to(record_start, rec_size)
+
     def _validate_header(self, header_struct):
         """Validate VGF header."""
-        size = len(self._buffer._data)
+        remaining = len(self._buffer) - self._buffer._offset
         delete = header_struct.delete
         major_color = header_struct.major_color
         minor_color = header_struct.minor_color
@@ -5183,7 +5187,8 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
-            or rec_size > size
+            or rec_size < VGF_HEADER_SIZE
+            or rec_size - VGF_HEADER_SIZE > remaining
         )
 
     def _get_latlon(self, points):
-- 
2.43.0


From 0440d16863e4d7329374ed3e0caf683ff326ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 47/76] fix: only watch boxes are decoded as watch boxes

---
 src/gempakio/decode/vgf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 783676c..f44b2a1 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5153,7 +5153,13 @@ class VectorGraphicFile:
                     )
                     _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.watches:
-                self._decode_watches(header_struct)
+                if vg_type == VGType.watch_box:
+                    self._decode_watches(header_struct)
+                else:
+                    logger.warning(
+                        'Watch class with type `%s` cannot be decoded. Skipping.', vg_type
+                    )
+                    _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.winds:
                 self._decode_winds(header_struct)
             else:
-- 
2.43.0


From 9364a254e7b10b8cee7ac66fa3b41fc05738b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 48/76] fix: header of a VGF without a file header is None

---
 src/gempakio/decode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index f44b2a1..b75acf2 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2890,6 +2890,7 @@ class VectorGraphicFile:
         else:
             self.prefmt = ''
 
+        self._header = None
         self._elements = []
         self._groups = []
 
-- 
2.43.0


From 27e9f97c0b1b7a17964e1718f72b6bd2e62b9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 49/76] fix: skip SIGMETs and watches of an unknown version

---
 src/gempakio/decode/vgf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index b75acf2..561d4bf 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3723,6 +3723,11 @@ class VectorGraphicFile:
                     ('tops', '80s', self._decode_strip_null),
                     ('forecaster', '16s', self._decode_strip_null),
                 ]
+            case _:
+                logger.warning(
+                    'SIGMET version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                return
 
         sigmet = self._buffer.read_struct(NamedStruct(sigmet_info, self.prefmt, 'SigmetInfo'))
 
@@ -4952,6 +4957,11 @@ class VectorGraphicFile:
                 # Manually close watch parallelogram
                 if watch.number_points > 2:
                     lon, lat = self.close_coordinates(lon, lat)
+            case _:
+                logger.warning(
+                    'Watch version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                return
 
         self._elements.append(
             WatchBoxElement(
-- 
2.43.0


From 55957443ce6bba032508a8b0ce0748ae6ab19f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 50/76] fix: groups of skipped VGF elements are not present

---
 src/gempakio/decode/vgf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 561d4bf..3306be1 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5074,12 +5074,9 @@ class VectorGraphicFile:
                 more = False
                 continue
 
+            number_elements = len(self._elements)
             group_info = header_struct.group_type
 
-            # Ignores the file header group
-            if group_info not in self._groups and group_info and vg_class != VGClass.header:
-                self._groups.append(group_info)
-
             if vg_class == VGClass.header and vg_type == VGType.file_header:
                 self._decode_file_header(header_struct)
             elif vg_class == VGClass.fronts:
@@ -5181,6 +5178,11 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # Ignores the groups of the file header and of skipped elements
+            if len(self._elements) > number_elements and group_info not in self._groups:
+                if group_info:
+                    self._groups.append(group_info)
+
             # Continue with the next record, whatever was read of this one
             self._buffer.jump_to(record_start, rec_size)
 
-- 
2.43.0


From dc18364b8e2aa9f126803d0f91218487d03574ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 51/76] fix: validate symbols on construction, allow symbol
 code 0

---
 src/gempakio/encode/vgf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 72ac1b0..39bffc6 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1490,10 +1490,10 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
         self._offset_x = offset_x
@@ -1561,7 +1561,7 @@ class SymbolBase(Element):
         self._offset_y = value
 
     def _validate_symbol_code(self, code):
-        if not isinstance(code, int):
+        if not isinstance(code, int | np.integer):
             raise TypeError('Symbol code must be integer')
 
     def encode(self):
@@ -1623,8 +1623,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
-- 
2.43.0


From 069608e25e8e73e400c9512afdf53edfe59f3fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 52/76] fix: record size of special text counts encoded bytes

---
 src/gempakio/encode/vgf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 39bffc6..769a950 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -561,7 +561,7 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len(f'{text}\x00'.encode()) > 255:
             raise ValueError('text string exceeds 255 character limit.')
         self._text = text + '\x00'
 
@@ -1382,7 +1382,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1463,7 +1465,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
+        text = self._text.encode()
 
         return header + info + text
 
-- 
2.43.0


From b2d0e823ccea99b181940fe00f2f7b67b49f64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 53/76] fix: reject NaN widths and sizes of VGF elements

---
 src/gempakio/encode/vgf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 769a950..3f4f73f 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -517,7 +517,7 @@ class LineBase(Element):
     @width.setter
     def width(self, value):
         """Set line width."""
-        if value < 1 or value > 10:
+        if not 1 <= value <= 10:
             raise ValueError('Line width must be in range [1, 10].')
         self._width = value
 
@@ -1210,7 +1210,7 @@ class SpecialLine(LineBase):
     @size.setter
     def size(self, value):
         """Set pattern size."""
-        if value < 0.1 or value > 10:
+        if not 0.1 <= value <= 10:
             raise ValueError('Pattern size must be in range [0.1, 10].')
         self._size = value
 
@@ -1515,7 +1515,7 @@ class SymbolBase(Element):
     @width.setter
     def width(self, value):
         """Set symbol width."""
-        if value < 1 or value > 10:
+        if not 1 <= value <= 10:
             raise ValueError('Symbol width must be in range [1, 10].')
         self._width = value
 
@@ -1527,7 +1527,7 @@ class SymbolBase(Element):
     @size.setter
     def size(self, value):
         """Set symbol size."""
-        if value < 0.1 or value > 10:
+        if not 0.1 <= value <= 10:
             raise ValueError('Symbol size must be in range [0.1, 10].')
         self._size = value
 
-- 
2.43.0


From ffcc940897254a37fabc4872bf930f81f95d37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 54/76] fix: bounds of a VGF ignored elements touching the
 equator or prime meridian

---
 src/gempakio/decode/vgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 3306be1..53b29dd 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2920,7 +2920,8 @@ class VectorGraphicFile:
         ymax = -9999
 
         for element in self.elements:
-            if 0 in [element.max_lat, element.max_lon, element.min_lat, element.min_lon]:
+            # Elements without a bounding box have all of it set to zero
+            if not any([element.max_lat, element.max_lon, element.min_lat, element.min_lon]):
                 continue
             else:
                 if element.max_lat > ymax:
-- 
2.43.0


From d093c296902f0ed6a231bc78ed1c7f758260bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 55/76] fix: close coordinates given as lists

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 53b29dd..4e71d70 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5282,8 +5282,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = x + x[:1]
+            y = y + y[:1]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From 80453536fd1b4b8272b2bc9dda43f2aefa456b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 56/76] fix: text elements include justified text and no
 special text

---
 src/gempakio/decode/vgf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 4e71d70..5c208fc 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2943,7 +2943,7 @@ class VectorGraphicFile:
     @property
     def has_text(self):
         """Check for text elements."""
-        return bool(self.filter_elements(vg_class=VGClass.text, vg_type=VGType.text))
+        return self.get_text() is not None
 
     @property
     def has_special_text(self):
@@ -3021,10 +3021,14 @@ class VectorGraphicFile:
         -------
         List of `mdgpu.io.vgf.TextElement`.
         """
-        if self.has_text:
-            return self.filter_elements(vg_class=VGClass.text)
+        text = [
+            e
+            for e in self.elements
+            if e.vg_class == VGClass.text
+            and e.vg_type in (VGType.text, VGType.justified_text)
+        ]
 
-        return None
+        return text if text else None
 
     def get_special_text(self):
         """Extract special text elements.
-- 
2.43.0


From 8e3f3bbcf6b7c24faf82510296bf202a171ff364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 57/76] fix: get_met required SIGMET elements

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 5c208fc..329933c 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3159,7 +3159,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From 9e3c4da7d11e5f65057ddadd120438c34cb8e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 58/76] fix: to_json could not be given an encoder class

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 329933c..899e83f 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3261,7 +3261,9 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From ac6051fabb24495decbd6a602be3d904c1fafbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 59/76] fix: export times and attribute objects of VGF elements
 to JSON

---
 src/gempakio/decode/vgf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 899e83f..9429f30 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,12 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, np.generic):
+            return obj.item()
+        if isinstance(obj, datetime):
+            return obj.isoformat()
+        if isinstance(obj, VectorGraphicAttribute):
+            return obj.__dict__
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From e7bf3424e20dc5da62c94cfb45dbc6263cb780eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 60/76] fix: reads past the end of the data returned short or
 zero values

---
 src/gempakio/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 2f6f96e..f76509a 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -154,6 +154,8 @@ class IOBuffer:
     def read(self, num_bytes=None):
         """Read and return the specified bytes from the buffer."""
         res = self.get_next(num_bytes)
+        if num_bytes is not None and len(res) != num_bytes:
+            raise EOFError(f'Attempted to read {num_bytes} bytes, only {len(res)} remain.')
         self.skip(len(res))
         return res
 
-- 
2.43.0


From 0eeacbce0f52b42ed1aea93dbc0c89740e3ebef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 61/76] fix: corrupt label counts exhausted time and memory

---
 src/gempakio/decode/gempak.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 33560e2..c74b740 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -331,6 +331,7 @@ class GempakFile:
         self.dm_label = self._buffer.read_struct(
             NamedStruct(self.dm_label_fmt, self.prefmt, 'ProductDescription')
         )
+        self._check_dm_label()
 
         # File Keys
         # Surface and upper-air files will not have the file headers, so we need to check.
@@ -429,7 +430,10 @@ class GempakFile:
         parts_info.extend([(None, None)])
         parts_fmt = NamedStruct(parts_info, self.prefmt, 'Parts')
         for n in range(1, self.dm_label.parts + 1):
-            self.parts.append(self._buffer.read_struct(parts_fmt))
+            part = self._buffer.read_struct(parts_fmt)
+            if not 0 <= part.parameter_count <= len(self._buffer) // BYTES_PER_WORD:
+                raise ValueError(f'Illegal parameter count {part.parameter_count}.')
+            self.parts.append(part)
             self._buffer.jump_to(self._start, _word_to_position(self.dm_label.parts_ptr + n))
 
         # Parameters
@@ -451,6 +455,24 @@ class GempakFile:
                     else:
                         self.parameters[n][attr] += self._buffer.read_binary(*fmt)
 
+    def _check_dm_label(self):
+        """Check that what the label describes can fit in the file."""
+        words = len(self._buffer) // BYTES_PER_WORD
+        label = self.dm_label
+        sizes = (
+            label.file_headers,
+            label.rows,
+            label.row_keys,
+            label.columns,
+            label.column_keys,
+            label.parts,
+        )
+        if (
+            any(not 0 <= size <= words for size in sizes)
+            or label.rows * label.columns * label.parts > words
+        ):
+            raise ValueError('Label describes more data than the file contains.')
+
     def _read_headers(self, count, header_fmt):
         """Read row or column headers.
 
-- 
2.43.0


From b4a326159eef1dd0e6680c09ae4c3488d59d792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 62/76] fix: a corrupt packing scale never finished unpacking

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c74b740..7b7ec22 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -624,7 +624,7 @@ class GempakFile:
             rdat = unpacked[ir : (ir + nparms)]
             itotal = 0
             for idata in range(nparms):
-                scale = 10 ** parameters['scale'][idata]
+                scale = 10.0 ** parameters['scale'][idata]
                 offset = parameters['offset'][idata]
                 bits = parameters['bits'][idata]
                 isbitc = (itotal % 32) + 1
-- 
2.43.0


From 11284e42b68524e74648afcb6318167c2d827157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 63/76] fix: refuse an unpacked grid whose data block has the
 wrong length

A block cut to a single value was spread over the whole grid.
---
 src/gempakio/decode/gempak.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7b7ec22..f995ba3 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -864,6 +864,8 @@ class GempakGrid(GempakFile):
             if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
+                if lendat != self.ky * self.kx:
+                    raise ValueError('Grid data length does not match the navigation.')
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
                 grid[...] = buffer
             else:
-- 
2.43.0


From 0f1e25d09ff61350af491e67c1852d1a96430bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 64/76] fix: analysis spacing of grids whose middle columns
 straddle the date line

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5e69887..c8802c0 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1049,7 +1049,7 @@ class GridFile(DataManagementFile):
         rx2 = min(rx1 + 1, self.nx - 1)
         ry1 = self.ny // 2
         ry2 = min(ry1 + 1, self.ny - 1)
-        dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
+        dellon = (self.lon[ry2, rx2] - self.lon[ry1, rx1] + 180) % 360 - 180
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
 
-- 
2.43.0


From 777bd58062009336ddebf112f809d74f5cbc41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 65/76] fix: numeric surface values of slots whose text is
 blank

---
 src/gempakio/decode/gempak.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f995ba3..006f754 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2693,6 +2693,11 @@ class GempakSurface(GempakFile):
 
                     processed.append(new_report)
 
+        # Blank text does not take the surface values with it.
+        if not processed and values:
+            report.update(**values)
+            processed.append(report)
+
         return processed
 
     def nearest_time(
-- 
2.43.0


From fb4a4828f147afea44647c82634f128dfd0cdc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 66/76] fix: removing no bytes from a buffer emptied it

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index f76509a..3b55782 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -179,7 +179,7 @@ class IOBuffer:
 
     def truncate(self, num_bytes):
         """Remove the specified number of bytes from the end of the buffer."""
-        self._data = self._data[:-num_bytes]
+        self._data = self._data[: max(len(self._data) - num_bytes, 0)]
 
     def at_end(self):
         """Return whether the buffer has reached the end of data."""
-- 
2.43.0


From 9f81ad4c952809704484975a1afaf5ea78879aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 67/76] fix: times that differ by seconds only are the same
 time in a file

---
 src/gempakio/encode/gempak.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index c8802c0..a3f0554 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -883,7 +883,7 @@ class GridFile(DataManagementFile):
                 forecast_hour = int(init_date.strftime('%H'))
                 forecast_minute = int(init_date.strftime('%M'))
         elif isinstance(date_time, datetime):
-            init_date = date_time
+            init_date = date_time.replace(second=0, microsecond=0)
             forecast_hour = int(init_date.strftime('%H'))
             forecast_minute = int(init_date.strftime('%M'))
         else:
@@ -930,7 +930,7 @@ class GridFile(DataManagementFile):
                     forecast_hour2 = int(init_date2.strftime('%H'))
                     forecast_minute2 = int(init_date2.strftime('%M'))
             elif isinstance(date_time2, datetime):
-                init_date2 = date_time2
+                init_date2 = date_time2.replace(second=0, microsecond=0)
                 forecast_hour2 = int(init_date2.strftime('%H'))
                 forecast_minute2 = int(init_date2.strftime('%M'))
             else:
@@ -1271,7 +1271,11 @@ class SoundingFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (self._datetime.date(), self._datetime.time())
+        # Times are stored to the minute
+        new_row = (
+            self._datetime.date(),
+            self._datetime.time().replace(second=0, microsecond=0),
+        )
         row_set = OrderedSet(self._row_set)
         row_set.add(self.make_row_header(*new_row))
 
@@ -1543,7 +1547,11 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (self._datetime.date(), self._datetime.time())
+        # Times are stored to the minute
+        new_row = (
+            self._datetime.date(),
+            self._datetime.time().replace(second=0, microsecond=0),
+        )
         row_set = OrderedSet(self._row_set)
         row_set.add(self.make_row_header(*new_row))
 
-- 
2.43.0


From cf9c1bd83fc4a97f1c7943527102a2dbcc8ac468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 68/76] fix: values of ship and climate reports are plain
 numbers

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 006f754..36de0d9 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2466,7 +2466,7 @@ class GempakSurface(GempakFile):
                         station[param] = self._decode_strip(packed_buffer[iprm])
                 else:
                     for iprm, param in enumerate(parameters['name']):
-                        station[param] = np.array(packed_buffer[iprm], dtype=np.float32)
+                        station[param] = packed_buffer[iprm]
 
             stations.append(station)
         return stations
@@ -2531,7 +2531,7 @@ class GempakSurface(GempakFile):
                         station[param] = self._decode_strip(packed_buffer[iprm])
                 else:
                     for iprm, param in enumerate(parameters['name']):
-                        station[param] = np.array(packed_buffer[iprm], dtype=np.float32)
+                        station[param] = packed_buffer[iprm]
 
             stations.append(station)
         return stations
-- 
2.43.0


From 78f17f79d8755b275241eee1a95d3b834d8e67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 69/76] fix: global grids whose repeated meridian is rounded
 past the first one

---
 src/gempakio/encode/gempak.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a3f0554..4b32d96 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -679,6 +679,12 @@ class GridFile(DataManagementFile):
             self.upper_right_lon = self.lon[-1, -1]
             self.upper_right_lat = self.lat[-1, -1]
 
+        if self.gemproj in ('CED', 'MER') and self.nx > 2:
+            # First meridian repeated, rounding must not move the last column past it
+            step = (self.lon[0, 1] - self.lon[0, 0]) % 360
+            if (self.upper_right_lon - self.lower_left_lon) % 360 < step / 2:
+                self.upper_right_lon = self.lower_left_lon
+
     def _set_projection_params(self):
         """Set projection parameters for GridFile."""
         params = self.projection.crs.to_cf()
-- 
2.43.0


From fa040eff00fb99929313c8545933169748a92aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 70/76] fix: byte-swapped integers of VGF records may be
 negative

---
 src/gempakio/decode/vgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9429f30..95ddaed 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5360,4 +5360,5 @@ class VectorGraphicFile:
         -------
         byte-swapped float or int
         """
-        return int.from_bytes(x.to_bytes(4, byteorder='little'), byteorder='big', signed=False)
+        value = x.to_bytes(4, byteorder='little', signed=True)
+        return int.from_bytes(value, byteorder='big', signed=True)
-- 
2.43.0


From 53846bf5b2b59e215f1cd5edf759d61365ea70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 71/76] fix: nearest_time returns one report for a station
 given twice

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 36de0d9..d8f5c52 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2763,12 +2763,12 @@ class GempakSurface(GempakFile):
         if station_id is not None:
             if not isinstance(station_id, Iterable) or isinstance(station_id, str):
                 station_id = [station_id]
-            station_id = [c.upper() for c in station_id]
+            station_id = list(dict.fromkeys(c.upper() for c in station_id))
 
         if station_number is not None:
             if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
-            station_number = [int(sn) for sn in station_number]
+            station_number = list(dict.fromkeys(int(sn) for sn in station_number))
 
         if country is not None:
             if not isinstance(country, Iterable) or isinstance(country, str):
-- 
2.43.0


From 126349db0f75918e332155e62eb382ed5d1161c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 72/76] fix: nearest_time answers in the same order in every
 process

---
 src/gempakio/decode/gempak.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index d8f5c52..a1836e8 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2781,19 +2781,21 @@ class GempakSurface(GempakFile):
             state = [s.upper() for s in state]
 
         if bbox is not None:
-            station_id = {
-                stn.ID for stn in self._sfinfo if _bbox_filter(stn.LAT, stn.LON, bbox)
-            }
+            station_id = sorted(
+                {stn.ID for stn in self._sfinfo if _bbox_filter(stn.LAT, stn.LON, bbox)}
+            )
 
         if country:
             station_id = set()
             for cty in country:
                 station_id.update(stn.ID for stn in self._sfinfo if cty == stn.COUNTRY)
+            station_id = sorted(station_id)
 
         if state:
             station_id = set()
             for st in state:
                 station_id.update(stn.ID for stn in self._sfinfo if st == stn.STATE)
+            station_id = sorted(station_id)
 
         time_matched = []
         if station_id:
-- 
2.43.0


From 9a20c7f55acb37964cf9ef2a15bfa3727b54cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 73/76] fix: grid files keep their own copy of the coordinates

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 4b32d96..98392aa 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -637,8 +637,8 @@ class GridFile(DataManagementFile):
                 raise ValueError('Projected input coordinates must one-dimensional.')
             self.nx = len(lon)
             self.ny = len(lat)
-            self.x = lon
-            self.y = lat
+            self.x = lon.copy()
+            self.y = lat.copy()
             self.lon, self.lat = self.projection(
                 *np.meshgrid(lon, lat, copy=False), inverse=True
             )
@@ -650,8 +650,8 @@ class GridFile(DataManagementFile):
             _x, _y = self.projection(lon, lat)
             self.x = _x[0, :]
             self.y = _y[:, 0]
-            self.lon = lon
-            self.lat = lat
+            self.lon = lon.copy()
+            self.lat = lat.copy()
             self._is_xy = False
 
         self._set_projection_params()
-- 
2.43.0


From 69e82eb110b4ce950e7e18a87d593512b348518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 74/76] fix: nearest_time by place returns no report from
 elsewhere

---
 src/gempakio/decode/gempak.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index a1836e8..060f31a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2800,7 +2800,13 @@ class GempakSurface(GempakFile):
         time_matched = []
         if station_id:
             for stn in station_id:
-                matched = self.sfjson(station_id=stn, include_special=include_special)
+                matched = self.sfjson(
+                    station_id=stn,
+                    state=state,
+                    country=country,
+                    bbox=bbox,
+                    include_special=include_special,
+                )
                 if not matched:  # Only has special reports
                     continue
 
-- 
2.43.0


From c46983958eb9e84c4bf6f7889fbf78a8e4adfe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 75/76] fix: soundings without levels can be read

---
 src/gempakio/decode/gempak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 060f31a..fbb3b1f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2188,7 +2188,8 @@ class GempakSounding(GempakFile):
 
             if 'PRES' in snd:
                 vcoord = 'pres'
-                attrs['station_pressure'] = snd['PRES'][0]
+                if len(snd['PRES']):  # May have no levels
+                    attrs['station_pressure'] = snd['PRES'][0]
             elif 'HGHT' in snd:
                 vcoord = 'hght'
             else:
-- 
2.43.0


From 7c528497a5e397ec575c29ba829d1a11645412bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:31 +0000
Subject: [PATCH 76/76] fix: surface files without STD2 or SPRI keys can be
 read

---
 src/gempakio/decode/gempak.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index fbb3b1f..70926d3 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2283,7 +2283,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(row_head.DATE, row_head.TIME),
-                                    col_head.STID + col_head.STD2,
+                                    col_head.STID + getattr(col_head, 'STD2', ''),
                                     col_head.STNM,
                                     col_head.SLAT,
                                     col_head.SLON,
@@ -2313,7 +2313,7 @@ class GempakSurface(GempakFile):
                                 irow,
                                 icol,
                                 datetime.combine(col_head.DATE, col_head.TIME),
-                                col_head.STID + col_head.STD2,
+                                col_head.STID + getattr(col_head, 'STD2', ''),
                                 col_head.STNM,
                                 col_head.SLAT,
                                 col_head.SLON,
@@ -2343,7 +2343,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(col_head.DATE, col_head.TIME),
-                                    row_head.STID + row_head.STD2,
+                                    row_head.STID + getattr(row_head, 'STD2', ''),
                                     row_head.STNM,
                                     row_head.SLAT,
                                     row_head.SLON,
@@ -2420,8 +2420,8 @@ class GempakSurface(GempakFile):
                 'SELV': row_head.SELV,
                 'STAT': row_head.STAT,
                 'COUN': row_head.COUN,
-                'STD2': row_head.STD2,
-                'SPRI': row_head.SPRI,
+                'STD2': getattr(row_head, 'STD2', ''),
+                'SPRI': getattr(row_head, 'SPRI', 0),
                 'DATE': col_head.DATE,
                 'TIME': col_head.TIME,
             }
@@ -2485,8 +2485,8 @@ class GempakSurface(GempakFile):
                 'SELV': col_head.SELV,
                 'STAT': col_head.STAT,
                 'COUN': col_head.COUN,
-                'STD2': col_head.STD2,
-                'SPRI': col_head.SPRI,
+                'STD2': getattr(col_head, 'STD2', ''),
+                'SPRI': getattr(col_head, 'SPRI', 0),
                 'DATE': col_head.DATE,
                 'TIME': col_head.TIME,
             }
@@ -2551,8 +2551,8 @@ class GempakSurface(GempakFile):
                 'SELV': col_head.SELV,
                 'STAT': col_head.STAT,
                 'COUN': col_head.COUN,
-                'STD2': col_head.STD2,
-                'SPRI': col_head.SPRI,
+                'STD2': getattr(col_head, 'STD2', ''),
+                'SPRI': getattr(col_head, 'SPRI', 0),
                 'DATE': row_head.DATE,
                 'TIME': row_head.TIME,
             }
-- 
2.43.0

