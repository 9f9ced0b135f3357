From ae62e6df7377143f028f1015dae4152463fed0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 01/51] fix: round when choosing the packing scale so the
 maximum never becomes missing

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..234a670 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -74,7 +74,7 @@ def pack_grib(grid, missing_float, nbits=16):
             if idat >= imax:
                 while idat >= imax:
                     nnnn -= 1
-                    idat = qdiff * 2**nnnn
+                    idat = round(qdiff * 2**nnnn)
             else:
                 while round(qdiff * 2 ** (nnnn + 1)) < imax:
                     nnnn += 1
-- 
2.43.0


From 13620fb427e526b6aeb3d16a2390ab873970c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 02/51] fix: exclude missing values from the range of a packed
 grid

---
 src/gempakio/encode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 234a670..db82f94 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
-- 
2.43.0


From faff6917d048a204f344c565ae2d65e00258e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 03/51] fix: pack grids that fit in a single output word

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index db82f94..bc14231 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -98,7 +98,9 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (
+            1 if any_split_words else 0
+        )
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
-- 
2.43.0


From 184b0a9c3155534039a93a844a767fa065eefad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 04/51] fix: decode grids whose data fit in a single word

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..7ad04cc 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -808,7 +808,7 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
@@ -851,7 +851,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
-- 
2.43.0


From 8874196946f578c2315fb7184d244e3a9c933c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 05/51] fix: write analysis block of grids with fewer than
 three rows or columns

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index bc14231..55d8f37 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1017,10 +1017,10 @@ class GridFile(DataManagementFile):
         )
 
         # Write a basic analysis block (type 2)
-        rx1 = self.nx // 2
-        rx2 = rx1 + 1
-        ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        rx1 = max(min(self.nx // 2, self.nx - 2), 0)
+        rx2 = min(rx1 + 1, self.nx - 1)
+        ry1 = max(min(self.ny // 2, self.ny - 2), 0)
+        ry2 = min(ry1 + 1, self.ny - 1)
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From 84c2b844c92e6ee641831bf410f3f8761dd3f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 06/51] fix: accept text date_time in SurfaceFile.add_station

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 55d8f37..03e97dd 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1509,7 +1509,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From 0704d6b3876ed6c18171cd03530f6ffcfb4239f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 07/51] fix: round station coordinates to the nearest hundredth

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 03e97dd..1986633 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1302,7 +1302,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1568,7 +1568,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From 1f5516bc6146e007ccd13995d40ea08cb3f78ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 08/51] fix: do not modify the grid passed to add_grid

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 1986633..fe3183b 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -937,7 +937,7 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid)
+        self.data[new_column] = self._replace_nan(grid.copy())
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From dfdd34d09f727b2a5db774f37f24cd0b560d591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 09/51] fix: check the length of date_time2, not date_time

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index fe3183b..1a576fd 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -884,7 +884,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From 0bc6a603b09aa32d67df709c9e5c23ec115e2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 10/51] fix: keep the hour and minute of grids given with an
 explicit analysis type

---
 src/gempakio/encode/gempak.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 1a576fd..64bad01 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -860,6 +860,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analysis grids store the valid time, as with no type given
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -901,6 +906,10 @@ class GridFile(DataManagementFile):
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                    if grid_type2 == 0:
+                        init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
                 elif len(split_time) > 3:
-- 
2.43.0


From 61b62dfeb4565bace875213334ade9c85f0e7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 11/51] fix: allow grids with and without a secondary time in
 one file

---
 src/gempakio/encode/gempak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 64bad01..6719d3a 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -953,7 +953,10 @@ class GridFile(DataManagementFile):
         if self.rows + self.columns > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
+        # Grids without a secondary time sort before those with one
+        self.column_headers = sorted(
+            self._column_set, key=lambda col: col._replace(GDT2=col.GDT2 or ())
+        )
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
-- 
2.43.0


From 3363173db50d8ca52e8af6c9d945e29a3e44d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 12/51] fix: leave the file unchanged when an addition exceeds
 the header limit

---
 src/gempakio/encode/gempak.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6719d3a..b0832d7 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -944,15 +944,18 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
+        new_grid = self._replace_nan(grid.copy())
+
+        columns = self.columns + (new_column not in self._column_set)
+        if self.rows + columns > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
+
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid.copy())
+        self.data[new_column] = new_grid
 
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         # Grids without a secondary time sort before those with one
         self.column_headers = sorted(
             self._column_set, key=lambda col: col._replace(GDT2=col.GDT2 or ())
@@ -1256,9 +1259,14 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
-
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
+
+        rows = self.rows + (new_row not in self._row_set)
+        columns = self.columns + (new_column not in self._column_set)
+        if rows + columns > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
+
+        self._row_set.add(self.make_row_header(*new_row))
         self._column_set.add(self.make_column_header(*new_column))
 
         self.data[(new_row, new_column)] = params._asdict()
@@ -1266,9 +1274,6 @@ class SoundingFile(DataManagementFile):
         self.rows = len(self._row_set)
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
@@ -1522,9 +1527,14 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
-
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
+
+        rows = self.rows + (new_row not in self._row_set)
+        columns = self.columns + (new_column not in self._column_set)
+        if rows + columns > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
+
+        self._row_set.add(self.make_row_header(*new_row))
         self._column_set.add(self.make_column_header(*new_column))
 
         self.data[(new_row, new_column)] = params._asdict()
@@ -1532,9 +1542,6 @@ class SurfaceFile(DataManagementFile):
         self.rows = len(self._row_set)
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
-- 
2.43.0


From 92fd783d6012cc71a23cdd71a1402638e28b3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 13/51] fix: ignore repeated parameter names regardless of case

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index b0832d7..732f0d7 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1167,7 +1167,7 @@ class SoundingFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
-            if param not in self.parameter_names:
+            if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
         self._param_args = namedtuple('Parameters', self.parameter_names)
@@ -1442,7 +1442,7 @@ class SurfaceFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
-            if param not in self.parameter_names:
+            if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
         self._param_args = namedtuple('Parameters', self.parameter_names)
-- 
2.43.0


From eea195bbe3c9c3608e250bcdb3abd8259e75a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 14/51] fix: do not modify the times passed when selecting data

---
 src/gempakio/decode/gempak.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7ad04cc..5c5d71a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1020,9 +1020,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1039,9 +1040,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time2 = [date_time2]
             if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2067,9 +2069,10 @@ class GempakSounding(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2812,9 +2815,10 @@ class GempakSurface(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From 5f06cc73d8e56e6f9f71e25d8cd552164c9c72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 15/51] fix: match states and countries of soundings regardless
 of case

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 5c5d71a..bd8786a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2074,14 +2074,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From 0d0398bd22321db7d0362058ab139f2d71dc3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 16/51] fix: select first or last secondary time when some
 grids have none

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bd8786a..f61615b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1058,10 +1058,12 @@ class GempakGrid(GempakFile):
         elif date_time in ['first', 'FIRST']:
             date_time = [min(d.DATTIM1 for d in matched)]
 
+        # Grids without a secondary time are not considered
+        dattim2 = [d.DATTIM2 for d in matched if d.DATTIM2 is not None]
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            date_time2 = [max(dattim2)] if dattim2 else []
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            date_time2 = [min(dattim2)] if dattim2 else []
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From 67ef640e9a8d268c16eb1788d20970c555cf6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 17/51] fix: merge soundings with fewer than two tropopause or
 significant levels below 100 mb

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f61615b..21c03b0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1599,7 +1599,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                if num_trop_levels >= 2 and pbot < parts['TRPA']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1670,7 +1670,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                if num_sigt_levels >= 2 and pbot < parts['TTBB']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From e729bb2f982d89edc2bb039c0727d3bb85a5a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 18/51] fix: insert below ground levels of soundings in order

---
 src/gempakio/decode/gempak.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 21c03b0..17aa783 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1988,6 +1988,7 @@ class GempakSounding(GempakFile):
 
         # Add below ground MAN data
         if merged['PRES'][0] != self.dm_label.missing_float and bgl > 0:
+            size = len(merged['PRES'])
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
-- 
2.43.0


From 1defbc233a995c92671980f25afe87e5faaa9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 19/51] fix: close polygon coordinates given as lists

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..948da0d 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5252,8 +5252,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = x + [x[0]]
+            y = y + [y[0]]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From 28ba861040825e3b228d053ec5dc73bb7a483a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 20/51] fix: keep the last character of text without a null
 terminator

---
 src/gempakio/decode/vgf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 948da0d..3ae4150 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5304,8 +5304,7 @@ class VectorGraphicFile:
         stripped.
         """
         decoded = x.decode('utf-8', errors='ignore')
-        null = decoded.find('\x00')
-        return decoded[:null].strip()
+        return decoded.split('\x00', 1)[0].strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From 17e1237bb8ca92881d10ccc943bd31bdbb0d1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 21/51] fix: get MET elements of files without SIGMETs

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 3ae4150..a61543c 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3153,7 +3153,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From 1d76dff80d37cb75c84f68b176b9f892bc542be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 22/51] fix: get only text elements, without special text

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index a61543c..0788164 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3020,7 +3020,7 @@ class VectorGraphicFile:
         List of `mdgpu.io.vgf.TextElement`.
         """
         if self.has_text:
-            return self.filter_elements(vg_class=VGClass.text)
+            return self.filter_elements(vg_class=VGClass.text, vg_type=VGType.text)
 
         return None
 
-- 
2.43.0


From 591b3b9ff04e68ec2d1fee8917691d50b4b0feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 23/51] fix: treat VGF records smaller than their header as
 invalid

---
 src/gempakio/decode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 0788164..83f1d3a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5178,6 +5178,7 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
+            or rec_size < VGF_HEADER_SIZE
             or rec_size > size
         )
 
-- 
2.43.0


From d2976950f53ea55afea0941019b51f00892f2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 24/51] fix: allow a JSON encoder to be passed to to_json

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 83f1d3a..8ceb177 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3255,7 +3255,9 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From 71c84e8f2b8b0d71cdacaf8ff7255f4680232f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 25/51] fix: export nested element attributes to JSON

---
 src/gempakio/decode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 8ceb177..a2d67be 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,8 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, VectorGraphicAttribute):
+            return vars(obj)
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 509c9c449a02a723cb1e294ddc6873213a42a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 26/51] fix: write special text with non-ASCII characters
 completely

---
 src/gempakio/encode/vgf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..2a1239f 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -561,7 +561,7 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len((text + '\x00').encode()) > 255:
             raise ValueError('text string exceeds 255 character limit.')
         self._text = text + '\x00'
 
@@ -1382,7 +1382,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1463,9 +1465,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
-
-        return header + info + text
+        return header + info + self._text.encode()
 
 
 class SymbolBase(Element):
-- 
2.43.0


From ed5fc988620926323a78aa7234adc2cc7345b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 27/51] fix: accept the documented symbol and marker code zero

---
 src/gempakio/encode/vgf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 2a1239f..4760319 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1623,8 +1623,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
@@ -1665,8 +1665,8 @@ class Marker(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 24:
-            raise ValueError('Marker code must be in range [1, 24].')
+        if code < 0 or code > 24:
+            raise ValueError('Marker code must be in range [0, 24].')
 
 
 class VGFile:
-- 
2.43.0


From 8e695919d4649ebe3ea1c31dbe41c569de789575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 28/51] fix: validate width, size and code when creating
 symbols

---
 src/gempakio/encode/vgf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 4760319..4f80dd9 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1490,10 +1490,10 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
         self._offset_x = offset_x
-- 
2.43.0


From 430ace002db7ef64840c74d0aacd668068d613a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 29/51] fix: validate turbulence symbols for every text type

---
 src/gempakio/encode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 4f80dd9..baff1dd 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1439,7 +1439,7 @@ class SpecialText(TextBase):
         """Set turbulence symbol."""
         if self._text_type in [7, 9] and value not in range(9):
             raise ValueError('Invalid turbulence symbol code.')
-        elif self._text_type == 12 and value not in range(11):
+        elif value not in range(11):
             raise ValueError('Invalid icing symbol code.')
         self._turbulence_symbol = value
 
-- 
2.43.0


From 60f9210657fa1e9a0694d3251756ed4192790237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 30/51] fix: do not split report text without a station
 identifier

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 17aa783..3cfcdb8 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2591,7 +2591,7 @@ class GempakSurface(GempakFile):
                 # will be kept with the report we return.
                 stnstr = '----' if station is None else station.groupdict()['station']
 
-                if txt.count(stnstr) > 1:
+                if station is not None and txt.count(stnstr) > 1:
                     # GEMPAK sometimes has more than one text report attached. We can
                     # recover all of them by splitting with the station ID.
                     reports = [f'{stnstr}{s}'.strip() for s in filter(None, txt.split(stnstr))]
-- 
2.43.0


From 17c019ff2bc61e24641ddf25f5888ecdd7dbd17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 31/51] fix: keep the requested pressure when interpolating
 parameters

---
 src/gempakio/gemcalc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..029fbd4 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -321,6 +321,8 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
     rmult = np.log(vlev / pres1) / np.log(pres2 / pres1)
     outdata['PRES'] = vlev
     for param, aval in adata.items():
+        if param == 'PRES':
+            continue
         bval = bdata[param]
         if param == 'DRCT':
             ang1 = aval % 360
-- 
2.43.0


From 873a3deb95b1e698b9382bcda88b9ae7322c3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 32/51] fix: merge significant winds above 100 mb when there
 are none below

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3cfcdb8..f237129 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1908,7 +1908,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From 40437959e3d7f60fddfb10a4e4af28a3c38c074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 33/51] fix: skip levels with missing data when interpolating
 moist heights

---
 src/gempakio/gemcalc.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 029fbd4..1747157 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -79,7 +79,9 @@ def interp_logp_height(sounding, missing=-9999):
                 tdt = sounding['DWPT'][i]
                 pt = sounding['PRES'][i]
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
-                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z)
+                sounding['HGHT'][i] = moist_hydrostatic_height(
+                    zb, pb, pt, scale_z, missing
+                )
 
             if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
                 pb = sounding['PRES'][i]
@@ -201,7 +203,7 @@ def interp_moist_height(sounding, missing=-9999):
     merging observed sounding data.
     """
     nlev = len(sounding['PRES'])
-    hlist = np.ones(nlev) * -9999
+    hlist = np.ones(nlev) * missing
 
     ilev = -1
     top = False
@@ -266,17 +268,19 @@ def interp_moist_height(sounding, missing=-9999):
         if klev != 0:
             s = (zt - zlev) / (znew - zlev)
             for h in range(ilev + 1, klev + 1):
-                hlist[h] *= s
+                if hlist[h] != missing:
+                    hlist[h] *= s
 
         hbb = zlev
         pbb = plev
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
-            z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
-            sounding['HGHT'][ii] = z
-            hbb = z
-            pbb = p
+            z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
+            if z != missing:
+                sounding['HGHT'][ii] = z
+                hbb = z
+                pbb = p
 
         ilev = klev
 
-- 
2.43.0


From 7ef554158cac2311a9b9288c7ae432f21f76c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 34/51] fix: keep a missing surface level first when merging
 soundings

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f237129..01a3178 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1625,7 +1625,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPA']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPA']['DWPT'][itrp])
@@ -1655,7 +1655,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPC']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPC']['DWPT'][itrp])
@@ -1692,7 +1692,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTBB']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTBB']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTBB']['DWPT'][isigt])
@@ -1718,7 +1718,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTDD']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTDD']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTDD']['DWPT'][isigt])
@@ -1761,7 +1761,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPBB']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPBB']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPBB']['SPED'][isigw])
@@ -1791,7 +1791,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPDD']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPDD']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPDD']['SPED'][isigw])
@@ -1830,7 +1830,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWA']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWA']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWA']['SPED'][imxw])
@@ -1860,7 +1860,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWC']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWC']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWC']['SPED'][imxw])
-- 
2.43.0


From 99e906627a34e6146c22fc0cceadb7801f4ab380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 35/51] fix: keep reported winds when merging significant winds
 by height

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 01a3178..c5e9b01 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1956,8 +1956,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0


From b60f956133b090d4c68af37c9d0e79f945bf381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 36/51] fix: leave missing sounding data where the pressure is
 missing

---
 src/gempakio/gemcalc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 1747157..c7988a5 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -173,7 +173,9 @@ def interp_missing_data(sounding, missing=-9999):
                 ):
                     iabove = 0
 
-                if iabove != 0:
+                # Levels without pressure cannot be interpolated
+                pressures = [sounding['PRES'][lev] for lev in (i - 1, i, iabove)]
+                if iabove != 0 and missing not in pressures:
                     adata = {}
                     bdata = {}
                     for param, val in sounding.items():
-- 
2.43.0


From 1f61c34b4ac9426f93368ef2b964a29c331c88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 37/51] fix: keep surface report whose text is blank

---
 src/gempakio/decode/gempak.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c5e9b01..9d5bca0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2636,6 +2636,11 @@ class GempakSurface(GempakFile):
 
                     processed.append(new_report)
 
+        if not text and not spcl:
+            # Blank text has no report to split, but the stored values are kept.
+            report.update(**values)
+            processed.append(report)
+
         return processed
 
     def nearest_time(
-- 
2.43.0


From cb53212af5b522dcdb642866197b57dd0e85db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 38/51] fix: decode tropical cyclone break points

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index a2d67be..5b942aa 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4437,7 +4437,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From 6abe15adbdb22d6e12b1e4b2a364e59d37e7d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 39/51] fix: decode significant weather elements whole

---
 src/gempakio/decode/vgf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 5b942aa..c98b3b0 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4515,6 +4515,9 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
+        text_string = self._buffer.read(255).split(b'\x00')[0].decode()
+        self._buffer.skip(1)  # skip byte for struct alignment
+
         lat, lon = self._get_latlon(sgwx.number_points)
 
         self._elements.append(
@@ -4538,20 +4541,20 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
-                text.text,
+                text_string,
                 lat,
                 lon,
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 4c117966d60af1d6eca6ae660e13cbc065a70d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 40/51] fix: one element per tropical cyclone advisory

---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index c98b3b0..80899a3 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4260,26 +4260,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From d27012979c89132da86ffdb3d7cc9bf3bfff8d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 41/51] fix: skip watch elements that are not watch boxes

---
 src/gempakio/decode/vgf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 80899a3..ee66b1a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5156,7 +5156,13 @@ class VectorGraphicFile:
                     )
                     _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.watches:
-                self._decode_watches(header_struct)
+                if vg_type == VGType.watch_box:
+                    self._decode_watches(header_struct)
+                else:
+                    logger.warning(
+                        'Watch class with type `%s` cannot be decoded. Skipping.', vg_type
+                    )
+                    _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.winds:
                 self._decode_winds(header_struct)
             else:
-- 
2.43.0


From 845b74a4e268dddc11fcf4e3a4d92ed7f469053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 42/51] fix: stop decoding at an incomplete header

---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ee66b1a..72343b7 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5051,6 +5051,10 @@ class VectorGraphicFile:
         more = True
 
         while not self._buffer.at_end() and more:
+            # An incomplete header is not a valid one either
+            if len(self._buffer.get_next(VGF_HEADER_SIZE)) < VGF_HEADER_SIZE:
+                break
+
             header_struct = self._read_header()
 
             rec_size = header_struct.record_size
-- 
2.43.0


From b038e874948ca213386910aef634ba40cdc277ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 43/51] fix: decode tropical cyclone basin and storm type codes

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 72343b7..cc880b4 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From d13e46279e2f36f6640cc93e57a076b2a1d8257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 44/51] fix: export times of tropical cyclone elements to JSON

---
 src/gempakio/decode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index cc880b4..e78a063 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2871,6 +2871,8 @@ class NumpyEncoder(json.JSONEncoder):
             return [float(f'{x:6.2f}') for x in obj]
         if isinstance(obj, VectorGraphicAttribute):
             return vars(obj)
+        if isinstance(obj, datetime):
+            return obj.isoformat()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 9c71d909f40fc548ef0ee426f0d7d5307b9edcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 45/51] fix: ash cloud records may hold only the points in use

---
 src/gempakio/decode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index e78a063..097f474 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -16,7 +16,6 @@ import numpy as np
 
 from gempakio.common import (
     LIST_MEMBER_SIZE,
-    MAX_ASH,
     MAX_COUNTIES,
     MAX_COUNTIES_LEGACY,
     MAX_JET_POINTS,
@@ -3956,6 +3955,7 @@ class VectorGraphicFile:
 
     def _decode_ash_clouds(self, header_struct):
         """Decode ash cloud elements."""
+        mark = self._buffer.set_mark()
         ash_info = [
             ('subtype', 'i'),
             ('number_points', 'i'),
@@ -3999,7 +3999,9 @@ class VectorGraphicFile:
         self._buffer.skip(1)  # skip byte for struct alignment
 
         lat, lon = self._get_latlon(ash.number_points)
-        self._buffer.skip((MAX_ASH - ash.number_points) * 8)
+
+        # Records may hold only the points in use
+        self._buffer.jump_to(mark, header_struct.record_size - VGF_HEADER_SIZE)
 
         self._elements.append(
             AshCloudElement(
-- 
2.43.0


From 3da07473470b19be0f5c524b187ebd8d32ff6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 46/51] fix: named structures whose fields all have converters

---
 src/gempakio/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..95952c4 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,8 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names = [i[0] for i in info]
+        fmts = [i[1] for i in info]
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From d4d2ef76e678c0b4e098b386b676bd91d3ad7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 47/51] fix: leave a front unchanged when its width or code is
 refused

---
 src/gempakio/encode/vgf.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index baff1dd..a31ac72 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -953,16 +953,15 @@ class Front(Element):
         """
         if value not in range(1, 9):
             raise ValueError('Front width must be in range [1, 8].')
-        self._width = value
 
         _code = f'{self._front_code:03d}'
+        front_code = int(f'{_code[0]}{value}{_code[2]}')
+
+        self._width = value
         self._front_type = int(_code[0])
         self._front_intensity = value
         self._front_character = int(_code[2])
-
-        self._front_code = int(
-            f'{self._front_type}{self._front_intensity}{self._front_character}'
-        )
+        self._front_code = front_code
 
     def flip(self):
         """Flip front direction."""
@@ -984,9 +983,9 @@ class Front(Element):
         """
         if value not in range(1000):
             raise ValueError('Invalid front code.')
-        self._front_code = value
+        _code = f'{value:03d}'
 
-        _code = f'{self._front_code:03d}'
+        self._front_code = value
         self._front_type = int(_code[0])
         self._front_intensity = int(_code[1])
         self._front_character = int(_code[2])
-- 
2.43.0


From 6a77f20fb1848b2e2c08ef5fcc7b4745aecec3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:29 +0000
Subject: [PATCH 48/51] fix: refuse a station priority that is not a number
 before changing the file

An addition with such a priority failed when sorting headers, after its header and data
were added.
---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 732f0d7..0d3bad1 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1520,7 +1520,7 @@ class SurfaceFile(DataManagementFile):
             stat = str(station_info.get('state', '')).upper()[:4]
             coun = str(station_info.get('country', '')).upper()[:4]
             std2 = ''
-            spri = station_info.get('priority', 0)
+            spri = int(station_info.get('priority', 0))
 
             if len(stid) > 4:
                 std2 = stid[4:8]
-- 
2.43.0


From cce3c942f35ac5f2c93068126f36310493a09a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 49/51] fix: add grids whose times have a time zone

Times are stored without a zone, as in soundings and reports. Adding grids with and without
one failed when sorting headers, after the header and data were added.
---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 0d3bad1..c156b5d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -872,7 +872,7 @@ class GridFile(DataManagementFile):
                 forecast_hour = int(init_date.strftime('%H'))
                 forecast_minute = int(init_date.strftime('%M'))
         elif isinstance(date_time, datetime):
-            init_date = date_time
+            init_date = date_time.replace(tzinfo=None)
             forecast_hour = int(init_date.strftime('%H'))
             forecast_minute = int(init_date.strftime('%M'))
         else:
@@ -919,7 +919,7 @@ class GridFile(DataManagementFile):
                     forecast_hour2 = int(init_date2.strftime('%H'))
                     forecast_minute2 = int(init_date2.strftime('%M'))
             elif isinstance(date_time2, datetime):
-                init_date2 = date_time2
+                init_date2 = date_time2.replace(tzinfo=None)
                 forecast_hour2 = int(init_date2.strftime('%H'))
                 forecast_minute2 = int(init_date2.strftime('%M'))
             else:
-- 
2.43.0


From a935be538c88cc64afb52ab13b58c7678f6c3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 50/51] fix: keep the limit of merged levels at the last one
 merged

Levels below the ground and levels without data raised the limit, so that levels
below the surface were merged above it.
---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 9d5bca0..c6df99b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1632,7 +1632,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPA']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPA']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
@@ -1662,7 +1662,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPC']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPC']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Merge SIG temperature
         if num_sigt_levels >= 1 or num_above_sigt_levels >= 1:
@@ -1699,7 +1699,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
@@ -1725,7 +1725,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Interpolate heights
         interp_moist_height(merged, self.dm_label.missing_float)
@@ -1768,7 +1768,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                    pbot = min(pbot, pres)
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
@@ -1798,7 +1798,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                    pbot = min(pbot, pres)
 
         # Merge max winds on pressure surfaces
         if num_max_wind_levels >= 1 or num_above_max_wind_levels >= 1:
@@ -1837,7 +1837,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
@@ -1867,7 +1867,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Interpolate height for SIG/MAX winds
         interp_logp_height(merged, self.dm_label.missing_float)
-- 
2.43.0


From 6feb921151c23344945ba7faf03423d09dd8578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 51/51] fix: insert winds given by height between the levels
 found

The heights were bisected, but levels above the last temperature have none and the list is
then not in order.
---
 src/gempakio/decode/gempak.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c6df99b..22ae2b4 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1962,13 +1962,12 @@ class GempakSounding(GempakFile):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
                     else:
-                        loc = bisect.bisect_left(merged['HGHT'], hght)
-                        merged['HGHT'].insert(loc, hght)
-                        merged['DRCT'].insert(loc, drct)
-                        merged['SPED'].insert(loc, sped)
-                        merged['PRES'].insert(loc, self.dm_label.missing_float)
-                        merged['TEMP'].insert(loc, self.dm_label.missing_float)
-                        merged['DWPT'].insert(loc, self.dm_label.missing_float)
+                        merged['HGHT'].insert(ilev, hght)
+                        merged['DRCT'].insert(ilev, drct)
+                        merged['SPED'].insert(ilev, sped)
+                        merged['PRES'].insert(ilev, self.dm_label.missing_float)
+                        merged['TEMP'].insert(ilev, self.dm_label.missing_float)
+                        merged['DWPT'].insert(ilev, self.dm_label.missing_float)
                         size += 1
                         ilev += 1
                         zold = hght
-- 
2.43.0

