From dff6ef176578c849f4f21c164e7b76164441262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 01/41] fix: write() modifies the 'duplicates_on' list of the
 caller

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..b5e8e1b 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -112,7 +112,8 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                # Not in-place, to not modify the list of the caller.
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -476,7 +477,8 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    # Not in-place, to not modify the list of the caller.
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From 68c069fba4f15c60475a8b16e469b32bb7bf2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 02/41] fix: write() fails with 'max_nirgs' set without
 'max_row_group_size'

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b5e8e1b..9190336 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -511,6 +511,8 @@ def write(
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             rrg_start_idx_tmp = n_rrgs - 1
             min_row_group_size = int(max_row_group_size * 0.9)
             while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
-- 
2.43.0


From dcdd67687adde09101761e3ae95114bbc68183bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 03/41] fix: overlap with 1st row group ignored when coalescing
 row groups

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 9190336..5ad5f0e 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -522,7 +522,7 @@ def write(
             # Confirm or not coalescing of incomplete row groups.
             n_irgs = n_rrgs - rrg_start_idx_tmp
             if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx and (
+                if rrg_start_idx is not None and (
                     not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
                 ):
                     # 1st case checked: case 'ordered_on' is used with potential
-- 
2.43.0


From 537cf7777007ee5accb2d9a6bcd0e3c84926aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 04/41] fix: coalescing without incomplete row group at end of
 data raises

---
 oups/store/writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 5ad5f0e..0f718fe 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -530,9 +530,10 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
+                elif not rrg_end_idx and n_irgs:
                     # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case.
+                    # necessarily appended in this case. If there is no
+                    # incomplete row group, there is nothing to coalesce with.
                     rrg_start_idx = rrg_start_idx_tmp
         if rrg_start_idx is None:
             # Case 'appending' (no overlap with recorded data identified).
-- 
2.43.0


From 468cd5ff465b25f0b9807fb013b41293625673d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 05/41] fix: new data in a gap of recorded data is recorded at
 the end

---
 oups/store/writer.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 0f718fe..9c47d35 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -461,6 +461,9 @@ def write(
         rrg_start_idx, rrg_end_idx = None, None
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
+        # Index of the recorded row group before which inserting new data, in
+        # case there is no overlap.
+        rrg_insert_idx = n_rrgs
         if duplicates_on is not None:
             if not ordered_on:
                 raise ValueError(
@@ -507,6 +510,9 @@ def write(
                     rrg_end_idx = rrgs_idx[-1] + 1
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
+            elif rrgs_after_idx := filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True):
+                # No overlap, but new data is before some recorded data.
+                rrg_insert_idx = rrgs_after_idx[0]
         if max_nirgs is not None:
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
@@ -530,9 +536,11 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx and n_irgs:
-                    # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case. If there is no
+                elif not rrg_end_idx and n_irgs and rrg_start_idx_tmp <= rrg_insert_idx:
+                    # 2nd case checked: case 'ordered_on' is not used, or new data
+                    # does not overlap with recorded data. New data is either
+                    # appended in this case, or inserted among the incomplete row
+                    # groups. If there is no
                     # incomplete row group, there is nothing to coalesce with.
                     rrg_start_idx = rrg_start_idx_tmp
         if rrg_start_idx is None:
@@ -547,6 +555,15 @@ def write(
                 compression=compression,
                 write_fmd=False,
             )
+            if rrg_insert_idx < n_rrgs:
+                # New data is to be inserted before existing row groups.
+                pf.fmd.row_groups = [
+                    *pf.fmd.row_groups[:rrg_insert_idx],
+                    *pf.fmd.row_groups[n_rrgs:],
+                    *pf.fmd.row_groups[rrg_insert_idx:n_rrgs],
+                ]
+                # Rename partition files.
+                pf._sort_part_names(write_fmd=False)
         else:
             # Case 'updating' (with existing row groups removal).
             # Read row groups that have impacted data as a vaex dataframe.
-- 
2.43.0


From db88642891a0b94f678fcae3957baddcf8235938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 06/41] fix: recording an empty dataframe over an existing
 dataset raises

---
 oups/store/writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 9c47d35..0960369 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -454,7 +454,13 @@ def write(
             all_cols = data.get_column_names()
         if ordered_on not in all_cols:
             raise ValueError(f"column '{ordered_on}' does not exist in input data.")
-    if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
+    is_existing = os_path.isdir(dirpath) and any(
+        file.endswith(".parquet") for file in os_listdir(dirpath)
+    )
+    if is_existing and not len(data):
+        # Case no row to add to an existing dataset.
+        pf = ParquetFile(dirpath)
+    elif is_existing:
         # Case updating an existing dataset.
         # Identify overlaps in row groups between new data and recorded data.
         # Recorded row group start and end indexes.
-- 
2.43.0


From 7cec9a74f5403093be064dff4b84c0b9e7b3ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 07/41] fix: oups metadata, 'None' values are recorded, other
 falsy values are not

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 0960369..51e5909 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -307,11 +307,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         if metadata:
-- 
2.43.0


From 16b616d0cf7e3f227c75f3bc4ffdcbf4f7daaed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 08/41] fix: oups metadata leaks into the 'metadata' dict of
 the caller

---
 oups/store/writer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 51e5909..57d37c0 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -316,10 +316,8 @@ def write_metadata(
             }
         del OUPS_METADATA[md_key]
 
-        if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+        # New dict, to not modify the one of the caller.
+        metadata = (metadata or {}) | {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
     if metadata:
         update_custom_metadata(pf, metadata)
-- 
2.43.0


From 39006fe300a71bd32aada1930e77ae1e23f16e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 09/41] fix: 'fields_sep' not escaped correctly when reading
 keys from paths

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..d0aa200 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -194,7 +194,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
-- 
2.43.0


From 079c363cb0e425bbd3ee7bf4b96508a5735b2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 10/41] fix: key with an empty field before the last one is not
 read back from its path

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index d0aa200..1b38706 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -139,7 +139,7 @@ def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> st
     for fields_ in _dataclass_instance_to_lists(toplevel):
         # Relying on the fact that only the tail can be a dataclass instance.
         to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
-    if to_str[-1]:
+    if len(fields_) > 1:
         to_str[-1] += f"{toplevel.fields_sep}{str(fields_[-1])}"
     else:
         to_str[-1] = str(fields_[-1])
-- 
2.43.0


From aab1fee2dd9353937840fe69f4d23c2ee8b248cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 11/41] fix: empty string as only field of a level makes the
 path of the key leave its directory

---
 oups/store/indexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 1b38706..7e38475 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -79,6 +79,10 @@ def _validate_toplevel_instance(toplevel: dataclass):
     forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
     for fields_ in _dataclass_instance_to_lists(toplevel):
         number_of_fields = len(fields_)
+        n_values = number_of_fields - _is_dataclass_instance(fields_[-1])
+        if n_values == 1 and fields_[0] == "":
+            # This level would have no directory name.
+            raise ValueError("an empty string cannot be the only field of a level.")
         for counter, field in enumerate(fields_):
             if _is_dataclass_instance(field):
                 # If a dataclass instance.
-- 
2.43.0


From d8c3b055418668b3f3ef5106b78fe70768668e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 12/41] fix: keys cannot be pickled

---
 oups/store/indexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 7e38475..188638a 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -244,18 +244,18 @@ def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
     return depth
 
 
-def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
+def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[Type[dataclass], str]]:
     """
     Reduce function for making 'Indexer' serializable.
 
     Returns
     -------
-    Tuple[Callable, Tuple[str]]
+    Tuple[Callable, Tuple[Type[dataclass], str]]
         See '__reduce' standard interface.
         https://docs.python.org/3/library/pickle.html#object.__reduce__
 
     """
-    return obj.from_str, (str(obj),)
+    return _dataclass_instance_from_str, (type(obj), str(obj))
 
 
 class TopLevel(type):
-- 
2.43.0


From 617de13d5e113d3dcb17c82cf5f90207ac1cd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 13/41] fix: directories not complying with the schema are
 listed as keys

---
 oups/store/collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..e5c2c1e 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -81,7 +81,13 @@ def get_keys(basepath: str, indexer: Type[dataclass]) -> SortedSet:
             for path, files in paths_files
             if (
                 any((is_parquet_file(file) for file in files))
-                and (key := indexer.from_path(DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])))
+                and (
+                    key := indexer.from_path(
+                        key_path := DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:]),
+                    )
+                )
+                # Discard paths that are not those of a key.
+                and key.to_path == key_path
             )
         ],
     )
-- 
2.43.0


From c102a0e9849dc12e70b15de38b93507f55f7df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 14/41] fix: deleting last key removes 'basepath' (and above)
 if it ends with a separator

---
 oups/store/collection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index e5c2c1e..1170d1d 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -274,12 +274,13 @@ class ParquetSet:
         if key in self._keys:
             # Keep track of intermediate partition folders, in case one get
             # empty.
-            basepath = self._basepath
-            dirpath = os_path.join(basepath, key.to_path)
+            dirpath = os_path.join(self._basepath, key.to_path)
             rmtree(dirpath)
             self._keys.remove(key)
-            # Remove possibly empty directories.
+            # Remove possibly empty directories, 'basepath' excluded.
             upper_dir = strip_path_tail(dirpath)
-            while (upper_dir != basepath) and (not listdir(upper_dir)):
+            for _ in range(self._indexer.depth - 1):
+                if listdir(upper_dir):
+                    break
                 rmdir(upper_dir)
                 upper_dir = strip_path_tail(upper_dir)
-- 
2.43.0


From b104304d65fdc4fd4b88ce4dd4c586d0552db63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 15/41] fix: min_max() raises if a row group only has null
 values

---
 oups/store/router.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 2422a5b..5b2cb32 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -99,7 +99,11 @@ class ParquetHandle:
 
         """
         pf_stats = ParquetFile(self._dirpath).statistics
-        return (min(pf_stats["min"][col]), max(pf_stats["max"][col]))
+        # Row groups with only null values have no min nor max.
+        return (
+            min((val for val in pf_stats["min"][col] if val is not None), default=None),
+            max((val for val in pf_stats["max"][col] if val is not None), default=None),
+        )
 
     @property
     def metadata(self) -> dict:
-- 
2.43.0


From 23560f0ac506c8dc7e5c6fe09388a452cb9e5faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 16/41] fix: to_midx() splits plain column names into
 characters, or raises

---
 oups/store/writer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 57d37c0..3946679 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -199,16 +199,18 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
 
     """
     idx_temp = []
-    max_levels = 0
+    max_levels = 1
     for val in idx:
         try:
             tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
+        except (ValueError, SyntaxError):
+            tup = None
+        if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
     # Generate names of levels if required.
     diff = 0
     if levels is None:
-- 
2.43.0


From 0bd17b54e9341d674b5731e90224e38df05ec942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 17/41] fix: to_midx() modifies the list of levels of the
 caller

---
 oups/store/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 3946679..9d018b2 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -220,7 +220,8 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
     if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+        # New list, to not modify the one of the caller.
+        levels = [*levels, *(f"l{i}" for i in range(len_lev, max_levels))]
     # Equalize length of tuples.
     tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
     return MultiIndex.from_tuples(tuples, names=levels)
-- 
2.43.0


From f364188fc7ff617a72dc933e633c7cdf13c7a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 18/41] fix: AggStream removes parameters from the keys config
 of the caller

---
 oups/aggstream/aggstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..8543e50 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -172,8 +172,9 @@ def _init_keys_config(
     for key, key_conf_in in keys_config.items():
         # Parameters in 'key_conf_in' take precedence over those in
         # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
-        # the initial 'key_conf_in'.
+        # copy, and when parameters are popped, it does not affect the
+        # initial 'key_conf_in'.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
-- 
2.43.0


From dacee13b84f73d96391324f4620935da08c8ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 19/41] fix: restart data not recorded if last seed index is 0

---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 8543e50..e4df29a 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -790,7 +790,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -824,7 +824,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 72a4d68dbac36b477ac81e627bc7a93cf83add6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 20/41] fix: AggStream raises if 'filters' lists the 'no
 filter' id

---
 oups/aggstream/aggstream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index e4df29a..5b1e1b5 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1259,7 +1259,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
@@ -1290,6 +1290,9 @@ class AggStream:
                             "`filters` parameter with a value different than "
                             "`None`.",
                         )
+                    if NO_FILTER_ID not in keys:
+                        # No key for unfiltered data.
+                        del filters[NO_FILTER_ID]
                 elif NO_FILTER_ID in keys:
                     # If not in 'filters' but in 'keys', add it to 'filters'.
                     filters[NO_FILTER_ID] = None
-- 
2.43.0


From 2b8049732e1a34520a46d67f7700e2ae73d9d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 21/41] fix: large nullable integers are rounded when row
 groups are merged

---
 oups/store/writer.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 9d018b2..0c9e3f6 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -22,6 +22,7 @@ from numpy import unique as np_unique
 from pandas import DataFrame as pDataFrame
 from pandas import Index
 from pandas import MultiIndex
+from pandas.api.types import pandas_dtype
 from vaex import from_pandas
 from vaex import open_many
 from vaex.dataframe import DataFrame as vDataFrame
@@ -46,6 +47,35 @@ OUPS_METADATA = {}
 OUPS_METADATA_KEY = "oups"
 
 
+def _to_pandas_df(data: vDataFrame) -> pDataFrame:
+    """
+    Convert a vaex dataframe into a pandas one, without loss of precision.
+
+    By default, integers with null values are turned into floats, which are not
+    precise enough for large integers. Here, pandas nullable types are used.
+
+    Parameters
+    ----------
+    data : vDataFrame
+        Data to convert.
+
+    Returns
+    -------
+    pDataFrame
+        Data in pandas format.
+
+    """
+    df = data.to_pandas_df()
+    for name in df.columns:
+        if df[name].dtype.kind == "f" and (col_type := data.data_type(name)).is_integer:
+            # For instance, 'uint8' to 'UInt8'.
+            nullable_type = str(col_type).replace("uint", "UInt").replace("int", "Int")
+            df[name] = pandas_dtype(nullable_type).__from_arrow__(
+                data.evaluate(name, array_type="arrow"),
+            )
+    return df
+
+
 def iter_dataframe(
     data: Union[pDataFrame, vDataFrame],
     max_row_group_size: int = None,
@@ -156,10 +186,10 @@ def iter_dataframe(
                 # This removes then the constraints to have 'sharp_on' set and
                 # and in 'duplicates_on'. Duplicates are then dropped over the
                 # full dataset to be written.
-                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
+                yield _to_pandas_df(data[start:end]).drop_duplicates(duplicates_on, keep="last")
         else:
             for start, end in zip(starts, ends):
-                yield data[start:end].to_pandas_df()
+                yield _to_pandas_df(data[start:end])
     else:
         for start, end in zip(starts, ends):
             yield data.iloc[start:end]
-- 
2.43.0


From 2301c8d7318814380bfe9db2094360dd43374134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 22/41] fix: null texts become 'nan' if new data to merge only
 has null values in a column

---
 oups/store/writer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 0c9e3f6..911a5e8 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -23,6 +23,7 @@ from pandas import DataFrame as pDataFrame
 from pandas import Index
 from pandas import MultiIndex
 from pandas.api.types import pandas_dtype
+from pyarrow import nulls as pa_nulls
 from vaex import from_pandas
 from vaex import open_many
 from vaex.dataframe import DataFrame as vDataFrame
@@ -610,8 +611,17 @@ def write(
             files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
             recorded = open_many(files)
             if isinstance(data, pDataFrame):
-                # Convert to vaex.
-                data = from_pandas(data)
+                # Convert to vaex. Columns with only null values are given the
+                # type they have in recorded data (vaex turns them into floats).
+                nulls = [
+                    name
+                    for name, dtype in zip(data.columns, data.dtypes)
+                    if dtype == object and data[name].isna().all()
+                ]
+                n_rows = len(data)
+                data = from_pandas(data.drop(columns=nulls))
+                for name in map(str, nulls):
+                    data.add_column(name, pa_nulls(n_rows, recorded.data_type(name).arrow))
             # For concatenation of numpy 'timedelta64' to arrow 'time64', check
             # https://github.com/vaexio/vaex/issues/2024
             data = recorded.concat(data)
-- 
2.43.0


From d961aecc843e1d347444be901a80439d04523195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 23/41] fix: order of rows sharing the same value is lost at
 the end of rewritten row groups

---
 oups/store/writer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 911a5e8..d991c46 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -15,7 +15,6 @@ from typing import Dict, Hashable, List, Tuple, Union
 from fastparquet import ParquetFile
 from fastparquet import write as fp_write
 from fastparquet.api import filter_row_groups
-from fastparquet.api import statistics
 from fastparquet.util import update_custom_metadata
 from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
@@ -645,12 +644,16 @@ def write(
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
             if rrg_end_idx is not None:
                 # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
-                )
+                # New row groups are moved to the position of those removed.
+                # (sorting on 'max' in 'ordered_on' would not keep the order of
+                # rows sharing the same value)
+                rgs = pf.fmd.row_groups
+                n_kept = n_rrgs - len(overlapping_rgs)
+                pf.fmd.row_groups = [
+                    *rgs[:rrg_start_idx],
+                    *rgs[n_kept:],
+                    *rgs[rrg_start_idx:n_kept],
+                ]
             # Rename partition files, and write fmd.
             pf._sort_part_names(write_fmd=False)
     else:
-- 
2.43.0


From 9135464e83f4815e8349c151f70e6a82d17e9729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 24/41] fix: min_max() of a datetime column is None if a row
 group only has null values

---
 oups/store/router.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 5b2cb32..dca965b 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -10,6 +10,7 @@ from os import scandir
 
 from cloudpickle import loads
 from fastparquet import ParquetFile
+from fastparquet.api import statistics
 from vaex import open_many
 
 from oups.store.defines import DIR_SEP
@@ -98,12 +99,16 @@ class ParquetHandle:
             Min and max values of column.
 
         """
-        pf_stats = ParquetFile(self._dirpath).statistics
-        # Row groups with only null values have no min nor max.
-        return (
-            min((val for val in pf_stats["min"][col] if val is not None), default=None),
-            max((val for val in pf_stats["max"][col] if val is not None), default=None),
-        )
+        pf = ParquetFile(self._dirpath)
+        mins, maxs = pf.statistics["min"][col], pf.statistics["max"][col]
+        if None in mins:
+            # Row groups with only null values have no min nor max. For a
+            # datetime column, statistics of other row groups are then only
+            # available row group per row group.
+            stats = [statistics(pf[i]) for i in range(len(pf.row_groups))]
+            mins = [val for rg in stats for val in rg["min"][col] if val is not None]
+            maxs = [val for rg in stats for val in rg["max"][col] if val is not None]
+        return (min(mins, default=None), max(maxs, default=None))
 
     @property
     def metadata(self) -> dict:
-- 
2.43.0


From 13aca483c19b83db6891820c9f76833bba923e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 25/41] fix: empty strings with '.' as separator make the path
 of the key leave its directory

---
 oups/store/indexer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 188638a..9db11d5 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -79,10 +79,10 @@ def _validate_toplevel_instance(toplevel: dataclass):
     forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
     for fields_ in _dataclass_instance_to_lists(toplevel):
         number_of_fields = len(fields_)
-        n_values = number_of_fields - _is_dataclass_instance(fields_[-1])
-        if n_values == 1 and fields_[0] == "":
-            # This level would have no directory name.
-            raise ValueError("an empty string cannot be the only field of a level.")
+        values = fields_[:-1] if _is_dataclass_instance(fields_[-1]) else fields_
+        if values and toplevel.fields_sep.join(map(str, values)) in ("", ".", ".."):
+            # This level would have no directory of its own.
+            raise ValueError(f"fields values {values} cannot make a directory name.")
         for counter, field in enumerate(fields_):
             if _is_dataclass_instance(field):
                 # If a dataclass instance.
-- 
2.43.0


From b7bcb8c74d914c2c6b172d19b58cbd98549c8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 26/41] fix: metadata of a dataset without any row is lost when
 adding rows

---
 oups/store/writer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index d991c46..31660af 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -658,6 +658,11 @@ def write(
             pf._sort_part_names(write_fmd=False)
     else:
         # Case initiating a new dataset.
+        existing_metadata = {}
+        if os_path.isfile(os_path.join(dirpath, "_metadata")):
+            # Case of a dataset without any row so far, keep its metadata.
+            existing_metadata = dict(ParquetFile(dirpath).key_value_metadata)
+            existing_metadata.pop("pandas", None)
         iter_data = iter_dataframe(data, max_row_group_size)
         chunk = next(iter_data)
         if cmidx_expand:
@@ -677,6 +682,8 @@ def write(
         )
         # Re-open to write remaining chunks.
         pf = ParquetFile(dirpath)
+        if existing_metadata:
+            update_custom_metadata(pf, existing_metadata)
         # Appending remaining chunks.
         pf.write_row_groups(
             data=iter_data,
-- 
2.43.0


From 71cb46a7b51e7f8e50783923190f643733562afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 27/41] fix: vaex dataframe of a dataset without any row cannot
 be opened

---
 oups/store/router.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/store/router.py b/oups/store/router.py
index dca965b..b073d12 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -11,6 +11,7 @@ from os import scandir
 from cloudpickle import loads
 from fastparquet import ParquetFile
 from fastparquet.api import statistics
+from vaex import from_pandas
 from vaex import open_many
 
 from oups.store.defines import DIR_SEP
@@ -80,6 +81,9 @@ class ParquetHandle:
         # To circumvent vaex lexicographic filename sorting to order row
         # groups, ordering the list of files is required.
         files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
+        if not files:
+            # Case of a dataset without any row.
+            return from_pandas(self.pdf)
         files.sort(key=lambda x: int(x[5:-8]))
         prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
         return open_many(map(prefix_dirpath, files))
-- 
2.43.0


From 5727eed3668e02723d2f1fc6d22bd6884217e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 28/41] fix: metadata which is not text makes the dataset not
 readable

---
 oups/store/writer.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 31660af..ddcced7 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -282,6 +282,30 @@ def check_cmidx(cmidx: MultiIndex):
                 raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
 
 
+def check_metadata(metadata: Dict[str, str]):
+    """
+    Check if user-defined metadata complies with fastparquet requirements.
+
+    If it does not, fastparquet raises once the metadata file has been opened
+    for writing, leaving the dataset not readable any longer.
+
+    Parameters
+    ----------
+    metadata : Dict[str, str]
+        User-defined key-value metadata to check.
+
+    """
+    if not isinstance(metadata, dict):
+        raise TypeError(f"metadata has to be a dict, not '{type(metadata)}'.")
+    for key, value in metadata.items():
+        if not isinstance(key, (str, bytes)):
+            raise TypeError(f"metadata key {key} has to be of type 'string', not '{type(key)}'.")
+        if not (value is None or isinstance(value, (str, bytes))):
+            raise TypeError(
+                f"metadata value {value} has to be of type 'string', not '{type(value)}'.",
+            )
+
+
 def write_metadata(
     pf: ParquetFile,
     metadata: Dict[str, str] = None,
@@ -322,6 +346,8 @@ def write_metadata(
         is removed from existing.
 
     """
+    if metadata:
+        check_metadata(metadata)
     if OUPS_METADATA and md_key and md_key in OUPS_METADATA:
         # If 'md_key' is 'None', then no metadata from ``OUPS_METADATA`` is
         # retrieved.
@@ -475,6 +501,9 @@ def write(
       parameters will trigger unnecessary evaluations.
 
     """
+    if metadata:
+        # Before any change on disk.
+        check_metadata(metadata)
     if ordered_on is not None:
         if isinstance(ordered_on, tuple):
             raise TypeError(f"tuple for {ordered_on} not yet supported.")
-- 
2.43.0


From 9c27da126a99f5ce509e8fe591ccdd9dab0001e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 29/41] fix: rows are lost with a negative 'max_row_group_size'

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index ddcced7..b134be8 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -124,6 +124,8 @@ def iter_dataframe(
     #  row group 'boundaries' between 2 different data sets.
     if max_row_group_size is None:
         max_row_group_size = MAX_ROW_GROUP_SIZE
+    elif max_row_group_size < 1:
+        raise ValueError(f"'max_row_group_size' has to be at least 1, not {max_row_group_size}.")
     if isinstance(data, vDataFrame):
         # Drop any possible lazy indexing, to make the length of data equals
         # its filtered length.
-- 
2.43.0


From 0e8eb3e2b24a47907660929078a7efff17cb004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 30/41] fix: parquet files are left on disk if data or
 compression is rejected

---
 oups/store/writer.py | 103 ++++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b134be8..698a666 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -6,10 +6,13 @@ Created on Wed Dec  6 22:30:00 2021.
 
 """
 from ast import literal_eval
+from contextlib import contextmanager
 from os import listdir as os_listdir
 from os import path as os_path
+from os import remove as os_remove
 from pickle import dumps
 from pickle import loads
+from shutil import rmtree
 from typing import Dict, Hashable, List, Tuple, Union
 
 from fastparquet import ParquetFile
@@ -385,6 +388,33 @@ def write_metadata(
     pf._write_common_metadata()
 
 
+@contextmanager
+def _remove_new_files_on_error(dirpath: str):
+    """
+    Remove files added in a directory if an error is raised while writing data.
+
+    Parameters
+    ----------
+    dirpath : str
+        Directory path where writing data. It does not necessarily exist.
+
+    """
+    existing = os_listdir(dirpath) if os_path.isdir(dirpath) else None
+    # Top most directory that does not exist yet.
+    new_dir = os_path.abspath(dirpath)
+    while not os_path.exists(parent := os_path.dirname(new_dir)):
+        new_dir = parent
+    try:
+        yield
+    except BaseException:
+        if existing is not None:
+            for file in set(os_listdir(dirpath)) - set(existing):
+                os_remove(os_path.join(dirpath, file))
+        elif os_path.isdir(new_dir):
+            rmtree(new_dir)
+        raise
+
+
 def write(
     dirpath: str,
     data: Union[pDataFrame, vDataFrame],
@@ -618,13 +648,14 @@ def write(
             # 'coalesce' has possibly been requested but not needed, hence no row
             # groups removal in existing ones.
             iter_data = iter_dataframe(data, max_row_group_size)
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
+            with _remove_new_files_on_error(dirpath):
+                pf.write_row_groups(
+                    data=iter_data,
+                    row_group_offsets=None,
+                    sort_pnames=False,
+                    compression=compression,
+                    write_fmd=False,
+                )
             if rrg_insert_idx < n_rrgs:
                 # New data is to be inserted before existing row groups.
                 pf.fmd.row_groups = [
@@ -664,13 +695,14 @@ def write(
                 duplicates_on=duplicates_on,
             )
             # Write.
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
+            with _remove_new_files_on_error(dirpath):
+                pf.write_row_groups(
+                    data=iter_data,
+                    row_group_offsets=None,
+                    sort_pnames=False,
+                    compression=compression,
+                    write_fmd=False,
+                )
             # Remove row groups of data that is overlapping.
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
             if rrg_end_idx is not None:
@@ -702,26 +734,27 @@ def write(
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
             check_cmidx(chunk.columns)
-        fp_write(
-            dirpath,
-            chunk,
-            row_group_offsets=max_row_group_size,
-            compression=compression,
-            file_scheme="hive",
-            write_index=False,
-            append=False,
-        )
-        # Re-open to write remaining chunks.
-        pf = ParquetFile(dirpath)
-        if existing_metadata:
-            update_custom_metadata(pf, existing_metadata)
-        # Appending remaining chunks.
-        pf.write_row_groups(
-            data=iter_data,
-            row_group_offsets=None,
-            sort_pnames=False,
-            compression=compression,
-            write_fmd=False,
-        )
+        with _remove_new_files_on_error(dirpath):
+            fp_write(
+                dirpath,
+                chunk,
+                row_group_offsets=max_row_group_size,
+                compression=compression,
+                file_scheme="hive",
+                write_index=False,
+                append=False,
+            )
+            # Re-open to write remaining chunks.
+            pf = ParquetFile(dirpath)
+            if existing_metadata:
+                update_custom_metadata(pf, existing_metadata)
+            # Appending remaining chunks.
+            pf.write_row_groups(
+                data=iter_data,
+                row_group_offsets=None,
+                sort_pnames=False,
+                compression=compression,
+                write_fmd=False,
+            )
     # Manage and write metadata.
     write_metadata(pf=pf, metadata=metadata, md_key=md_key)
-- 
2.43.0


From cf40cf4389383aaa76bc018ee86acaa3571eaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 31/41] fix: column index not expanded if data is recorded in
 several row groups

---
 oups/store/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 698a666..b754349 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -729,7 +729,10 @@ def write(
         iter_data = iter_dataframe(data, max_row_group_size)
         chunk = next(iter_data)
         if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+            cmidx = to_midx(chunk.columns, cmidx_levels)
+            chunk.columns = cmidx
+            # Remaining chunks have to be expanded as well.
+            iter_data = (df.set_axis(cmidx, axis=1) for df in iter_data)
         # In case multi-index is used, check that it complies with fastparquet
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
-- 
2.43.0


From 14a04cd8482e40fd2b36053fef0b73ee174762e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 32/41] fix: nullable integers from vaex not readable if 1st
 row group has no null

---
 oups/store/writer.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b754349..445c372 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -50,7 +50,7 @@ OUPS_METADATA = {}
 OUPS_METADATA_KEY = "oups"
 
 
-def _to_pandas_df(data: vDataFrame) -> pDataFrame:
+def _to_pandas_df(data: vDataFrame, nullable_ints: List[str]) -> pDataFrame:
     """
     Convert a vaex dataframe into a pandas one, without loss of precision.
 
@@ -61,6 +61,9 @@ def _to_pandas_df(data: vDataFrame) -> pDataFrame:
     ----------
     data : vDataFrame
         Data to convert.
+    nullable_ints : List[str]
+        Names of integer columns having null values, not necessarily in 'data'
+        if it is a part of a larger dataframe.
 
     Returns
     -------
@@ -69,13 +72,12 @@ def _to_pandas_df(data: vDataFrame) -> pDataFrame:
 
     """
     df = data.to_pandas_df()
-    for name in df.columns:
-        if df[name].dtype.kind == "f" and (col_type := data.data_type(name)).is_integer:
-            # For instance, 'uint8' to 'UInt8'.
-            nullable_type = str(col_type).replace("uint", "UInt").replace("int", "Int")
-            df[name] = pandas_dtype(nullable_type).__from_arrow__(
-                data.evaluate(name, array_type="arrow"),
-            )
+    for name in nullable_ints:
+        # For instance, 'uint8' to 'UInt8'.
+        nullable_type = str(data.data_type(name)).replace("uint", "UInt").replace("int", "Int")
+        df[name] = pandas_dtype(nullable_type).__from_arrow__(
+            data.evaluate(name, array_type="arrow"),
+        )
     return df
 
 
@@ -178,6 +180,13 @@ def iter_dataframe(
         starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
     ends = starts[1:] + [None]
     if isinstance(data, vDataFrame):
+        # All row groups are given the same types.
+        nullable_ints = [
+            name
+            for name in data.get_column_names()
+            if data.data_type(name).is_integer
+            and (data.is_masked(name) or data[name].countmissing())
+        ]
         if duplicates_on is not None:
             if duplicates_on == []:
                 columns = data.get_column_names()
@@ -191,10 +200,13 @@ def iter_dataframe(
                 # This removes then the constraints to have 'sharp_on' set and
                 # and in 'duplicates_on'. Duplicates are then dropped over the
                 # full dataset to be written.
-                yield _to_pandas_df(data[start:end]).drop_duplicates(duplicates_on, keep="last")
+                yield _to_pandas_df(data[start:end], nullable_ints).drop_duplicates(
+                    duplicates_on,
+                    keep="last",
+                )
         else:
             for start, end in zip(starts, ends):
-                yield _to_pandas_df(data[start:end])
+                yield _to_pandas_df(data[start:end], nullable_ints)
     else:
         for start, end in zip(starts, ends):
             yield data.iloc[start:end]
-- 
2.43.0


From dee33c3a791a7e3994b0762f69326c5aaa9be869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 33/41] fix: segmentation with a Series cannot be restarted
 once its first values are trimmed

---
 oups/aggstream/segmentby.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..046e222 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -23,6 +23,7 @@ from numpy import ndenumerate
 from numpy import nonzero
 from numpy import zeros
 from pandas import DataFrame as pDataFrame
+from pandas import Index
 from pandas import IntervalIndex
 from pandas import Series as pSeries
 from pandas import Timedelta
@@ -231,6 +232,8 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        # Values are accessed by position, including after having been trimmed.
+        chunk_labels, chunk_ends = Index(chunk_labels), Index(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
@@ -295,7 +298,7 @@ def by_scale(
         if chunk_ends.empty:
             if isinstance(buffer, dict):
                 buffer[KEY_LAST_ON_VALUE] = on.iloc[-1]
-            return (NULL_INT64_1D_ARRAY, chunk_labels, 0, closed, chunk_ends, False)
+            return (NULL_INT64_1D_ARRAY, pSeries(chunk_labels), 0, closed, chunk_ends, False)
     if chunk_ends.dtype == DTYPE_DATETIME64:
         next_chunk_starts, n_null_chunks, data_traversed = _next_chunk_starts(
             on.to_numpy(copy=False).view(DTYPE_INT64),
-- 
2.43.0


From b7f92e0f5d7c71b5ae309cc283fee64e21dd5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 34/41] fix: periods of a TimeGrouper shift at restart if they
 depend on 1st value

---
 oups/aggstream/segmentby.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 046e222..f370ee9 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -31,6 +31,7 @@ from pandas import concat as pconcat
 from pandas import date_range
 from pandas.core.resample import TimeGrouper
 from pandas.core.resample import _get_timestamp_range_edges as gtre
+from pandas.tseries.offsets import Tick
 
 
 # Some constants.
@@ -47,6 +48,7 @@ KEY_LAST_BIN_LABEL = "last_bin_label"
 KEY_LAST_BIN_END = "last_bin_end"
 KEY_RESTART_KEY = "restart_key"
 KEY_LAST_ON_VALUE = "last_on_value"
+KEY_ORIGIN = "origin"
 # Keys for 'bin_by' when a dict
 KEY_ON_COLS = "on_cols"
 KEY_BIN_BY = "bin_by"
@@ -208,13 +210,26 @@ def by_scale(
         # to use 'closed' provided.
         if closed is None:
             closed = by.closed
+        origin = by.origin
+        if (
+            buffer is not None
+            and origin in ("start", "start_day")
+            and isinstance(by.freq, Tick)
+            and (origin == "start" or Timedelta(1, "D") % by.freq)
+        ):
+            # Periods are positioned from the 1st value in data at the very
+            # first iteration. Keep track of it for next iterations.
+            origin = buffer.setdefault(
+                KEY_ORIGIN,
+                on.iloc[0] if origin == "start" else on.iloc[0].normalize(),
+            )
         start, end = gtre(
             first=first,
             last=on.iloc[-1],
             freq=by.freq,
             closed=closed,
             unit=first.unit,
-            origin=by.origin,
+            origin=origin,
             offset=by.offset,
         )
         edges = date_range(start, end, freq=by.freq)
-- 
2.43.0


From 4be71fbe7a03bec40a8f6538dcbcec88077922dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 35/41] fix: by_x_rows() returns floats as row indices after a
 restart

---
 oups/aggstream/segmentby.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index f370ee9..d996338 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -7,7 +7,6 @@ Created on Wed Dec  4 21:30:00 2021.
 """
 from functools import partial
 from math import ceil
-from math import fmod
 from typing import Callable, Dict, Optional, Tuple, Union
 
 from numba import njit
@@ -485,7 +484,7 @@ def by_x_rows(
         n_rows_in_last_bin = (
             n_rows_for_new_bins
             if n_rows_for_new_bins <= by
-            else fmod(n_rows_for_new_bins, by) or by
+            else n_rows_for_new_bins % by or by
         )
     else:
         # Case 'there are not'.
-- 
2.43.0


From 94a39123eadab727df0f0e0822ed15f9268e3e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 36/41] fix: AggStream.agg() raises if a seed chunk has no row

---
 oups/aggstream/aggstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 5b1e1b5..4011bb2 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -550,6 +550,9 @@ def _iter_data(
                 # Stop iteration in case of failing pre.
                 # Aggregation has been run up to the last valid chunk.
                 raise SeedPreException(str(e))
+        if seed_chunk.empty:
+            # No row to aggregate. Go to the next.
+            continue
         # Step 2 / If a previous remainder, concatenate it to give current
         # DataFrame its 'final' length.
         if not (seed_remainder is None or seed_remainder.empty):
-- 
2.43.0


From 9ee7cf1c46fcba93290dc420c58cc8c1bf8ed530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 37/41] fix: AggStream.agg() raises StopIteration if the seed
 iterator is empty

---
 oups/aggstream/aggstream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 4011bb2..7332948 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1379,7 +1379,10 @@ class AggStream:
 
         """
         remainder = iter(seed)
-        first = next(remainder)
+        first = next(remainder, None)
+        if first is None:
+            # No seed chunk.
+            return remainder
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
-- 
2.43.0


From dcc36a668f276d851217dc123cdba4e1ac82f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 38/41] fix: restart index not updated if all rows of a seed
 chunk are filtered out

---
 oups/aggstream/aggstream.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7332948..1b32b2e 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -577,6 +577,7 @@ def _iter_data(
             seed_remainder = seed_chunk.loc[~filter_main_chunk]
             filter_array &= filter_main_chunk
         # Step 4 / Filter seed and yield.
+        no_data = True
         for filt_id, filters_ in filters.items():
             # Filter.
             filter_array_loc = (
@@ -588,7 +589,8 @@ def _iter_data(
                 # DataFrame will be empty after filtering.
                 # Proceed with next iteration.
                 continue
-            elif filter_array_loc.all():
+            no_data = False
+            if filter_array_loc.all():
                 # If filter only contains 1, simply return full seed chunk.
                 yield last_seed_index, pre_buffer, filt_id, seed_chunk
             else:
@@ -598,6 +600,11 @@ def _iter_data(
                 ].reset_index(
                     drop=True,
                 )
+        if no_data and filter_array.any():
+            # All rows are filtered out. There is nothing to aggregate, but
+            # 'last_seed_index' has to be kept track of: next aggregation
+            # restarts from it.
+            yield last_seed_index, pre_buffer, None, None
 
 
 def _concat_agg_res(
@@ -1495,6 +1502,11 @@ class AggStream:
                     trim_start=trim_start,
                     discard_last=discard_last,
                 ):
+                    if filter_id is None:
+                        # Chunk without data after filtering.
+                        self.seed_config[KEY_RESTART_INDEX] = _last_seed_index
+                        self.seed_config[KEY_PRE_BUFFER] = _pre_buffer
+                        continue
                     # Retrieve Parallel joblib setup.
                     agg_loop_res = self.p_jobs[self.filter_apps[filter_id].n_jobs](
                         delayed(agg_iter)(
-- 
2.43.0


From e962ab3f409abf0504f331e4eb1040fbb62d4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 39/41] fix: unordered data not detected if ordered column is
 of unsigned integers

---
 oups/aggstream/segmentby.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index d996338..e07f583 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -911,14 +911,18 @@ def segmentby(
     ordered_on = bin_by[KEY_ORDERED_ON]
     if ordered_on:
         # Check 'ordered_on' is an ordered column.
+        # (differences overflow with unsigned integers)
         if not (
-            (
-                data[ordered_on].dtype == DTYPE_DATETIME64
-                and (data[ordered_on].diff().iloc[1:] >= Timedelta(0)).all()
-            )
-            or (
-                data[ordered_on].dtype != DTYPE_DATETIME64
-                and (data[ordered_on].diff().iloc[1:] >= 0).all()
+            data[ordered_on].is_monotonic_increasing
+            and (
+                (
+                    data[ordered_on].dtype == DTYPE_DATETIME64
+                    and (data[ordered_on].diff().iloc[1:] >= Timedelta(0)).all()
+                )
+                or (
+                    data[ordered_on].dtype != DTYPE_DATETIME64
+                    and (data[ordered_on].diff().iloc[1:] >= 0).all()
+                )
             )
         ):
             raise ValueError(
-- 
2.43.0


From 332c14d43bd99d3eb1fe5b3dfdd68bbe218d1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 40/41] fix: results are kept only once when post-processing
 fails at an intermediate write

---
 oups/aggstream/aggstream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 1b32b2e..fd00587 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -902,6 +902,10 @@ def agg_iter(
             agg_buffers[KEY_AGG_IN_MEMORY_SIZE] += (
                 bin_res.memory_usage().sum() + snap_res.memory_usage().sum()
             )
+            agg_buffers[KEY_SNAP_RES] = snap_res.iloc[-1:]
+        # Rows kept in buffers are not to be kept again if 'post()' raises an
+        # exception, and aggregation is then resumed.
+        agg_buffers[KEY_BIN_RES] = bin_res.iloc[-1:]
         # Length of 'bin_res_buffer' is number of times it has been
         # appended. Be it from bins, or snapshots, length is same.
         # Keep floor part.
-- 
2.43.0


From a605711da5408d2d74c8e69ef25e1c24e8228873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 41/41] fix: a seed lacking a column does not prevent from
 aggregating another one next

---
 oups/aggstream/aggstream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index fd00587..71c609b 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1397,11 +1397,14 @@ class AggStream:
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
+        agg_cs = {}
         for key in self.keys_config:
             try:
-                self.agg_cs[key] = setup_cumsegagg(self.agg_pd[key], seed_dtypes)
+                agg_cs[key] = setup_cumsegagg(self.agg_pd[key], seed_dtypes)
             except Exception:
                 raise ValueError(f"exception raised for key '{key}'")
+        # Set only once complete, to be set up again if an exception is raised.
+        self.agg_cs = agg_cs
         return seed
 
     def agg(
-- 
2.43.0

