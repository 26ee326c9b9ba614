From 7ddb4705e3a7eb52b496ae290fa0508af760e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 01/73] fix: get_data_counts() failed for control sources

---
 karabo_data/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..f4c0a7e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,10 +498,10 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                group = ''
             else:
                 group = key.partition('.')[0]
-                _, counts = f.get_index(source, group)
+            _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
         ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
-- 
2.43.0


From 6d4b473ab108a5a5acf7f0b2453ca9509a1444bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 02/73] fix: select() with {source: set()} failed, and with an
 invalid type matched nothing

---
 karabo_data/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index f4c0a7e..ca72d93 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -795,7 +795,7 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                res[source] = set(keys) or None
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
@@ -804,7 +804,7 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
         return dict(res)
 
-- 
2.43.0


From cf618dfc809f162c32753d5c7da2e78cc909355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 03/73] fix: selecting again brought back keys which were not
 selected

---
 karabo_data/reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index ca72d93..15e0f1b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -885,6 +885,14 @@ class DataCollection:
             seln_or_source_glob = [(seln_or_source_glob, key_glob)]
         selection = self._expand_selection(seln_or_source_glob)
 
+        # Selecting again only narrows any selection of keys already made
+        for source, keys in selection.items():
+            selected_keys = self.selection[source]
+            if selected_keys is not None:
+                selection[source] = (
+                    selected_keys if keys is None else (keys & selected_keys)
+                )
+
         files = [f for f in self.files
                  if f.all_sources.intersection(selection.keys())]
 
-- 
2.43.0


From 511d44e5ef42bc78fdce03ef5bc94caa737cfbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 04/73] fix: select_trains() by_id slice failed if an end fell
 in a gap between trains

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..1ca699c 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -84,7 +84,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return (np.asarray(train_ids) > tid).nonzero()[0][0]
 
 
 class DataChunk:
-- 
2.43.0


From ab5dc028bbb5721975b3f529b8d456ebfaf16c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 05/73] fix: trains() gave empty arrays for keys without data
 in a train

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 15e0f1b..e3f3e53 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1290,6 +1290,9 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
+
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From 9beed2447315d86d5f51441c651b42445a42bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 06/73] fix: wrong control data read from files where some
 trains have no control data

Such files are produced by write() & write_virtual().
---
 karabo_data/reader.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e3f3e53..c212618 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,13 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            if not counts[pos]:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][firsts[pos]]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -540,8 +548,11 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                # Files made by write() can have trains without control data
+                _, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1274,10 +1285,13 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if not counts[pos]:
+                    continue
+                source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From 9adae409596156c75e37f13947a3d39b93b84b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 07/73] fix: get_series() failed if a file had no data for the
 source

---
 karabo_data/reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index c212618..e62fbaa 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -512,11 +512,22 @@ class DataCollection:
             _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        ser = self._concat_series(seq_series)
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
 
+    @staticmethod
+    def _concat_series(seq_series):
+        """Join the series from several files in order of train IDs"""
+        import pandas as pd
+
+        # Files without any data can't be sorted, and have nothing to add
+        with_data = [s for s in seq_series if s.size > 0]
+        return pd.concat(
+            sorted(with_data, key=lambda s: s.index[0]) or seq_series[:1]
+        )
+
     def get_series(self, source, key):
         """Return a pandas Series for a particular data field.
 
@@ -580,7 +591,7 @@ class DataCollection:
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        ser = self._concat_series(seq_series)
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
-- 
2.43.0


From 58fb7b9aa41330b85fdd656e8a76a91f38faa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 08/73] fix: reading data failed for a run including a file
 with no trains

---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 1ca699c..669ee62 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -132,6 +132,9 @@ def contiguous_regions(condition):
     # we'll shift the index by 1 to the right.
     idx += 1
 
+    if condition.size == 0:
+        return np.zeros((0, 2), dtype=np.intp)
+
     if condition[0]:
         # If the start of condition is True prepend a 0
         idx = np.r_[0, idx]
-- 
2.43.0


From 479baf951fd4ea3056ae51c9bde4885286fb57a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 09/73] fix: get_series() failed for pulse data without an
 extra dimension, or with a file of single pulses

---
 karabo_data/reader.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e62fbaa..9dd4629 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -569,22 +569,30 @@ class DataCollection:
 
         elif source in self.instrument_sources:
             data_path = "/INSTRUMENT/{}/{}".format(source, key.replace('.', '/'))
+            group = key.partition('.')[0]
+            # Label entries by pulse in all files if any train has several
+            by_pulse = any(
+                (f.get_index(source, group)[1] > 1).any()
+                for f in self._source_index[source]
+            )
             for f in self._source_index[source]:
-                group = key.partition('.')[0]
                 firsts, counts = f.get_index(source, group)
                 trainids = self._expand_trainids(counts, f.train_ids)
 
                 index = pd.Index(trainids, name='trainId')
                 data = f.file[data_path][:]
-                if not index.is_unique:
+                if by_pulse:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
-                    pulse_id = pulse_id[: len(index), 0]
+                    pulse_id = pulse_id[: len(index)]
+                    # Raw files have an extra dimension of length 1
+                    if pulse_id.ndim > 1:
+                        pulse_id = pulse_id[:, 0]
                     index = pd.MultiIndex.from_arrays(
                         [trainids, pulse_id], names=['trainId', 'pulseId']
                     )
-                    # Does pulse-oriented data always have an extra dimension?
-                    assert data.shape[1] == 1
-                    data = data[:, 0]
+                    if data.ndim > 1:
+                        assert data.shape[1] == 1
+                        data = data[:, 0]
                 data = data[: len(index)]
 
                 seq_series.append(pd.Series(data, name=name, index=index))
-- 
2.43.0


From c9ea12238654bc61087dab2fd3274e396c975600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 10/73] fix: virtual datasets were broken if a run was opened
 by a relative path

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 9dd4629..06cd36e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -76,7 +76,8 @@ class FileAccess:
     _format_version = None
 
     def __init__(self, filename, _cache_info=None):
-        self.filename = filename
+        # Absolute, so that links to this file work from elsewhere
+        self.filename = osp.abspath(filename)
 
         if _cache_info:
             self.train_ids = _cache_info['train_ids']
-- 
2.43.0


From b7297e2aa09a3a778f0ff9f4fa586c1cf685b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 11/73] fix: select_trains() allowed reversed or repeated
 trains, which then misaligned data

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 06cd36e..9de6123 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1010,6 +1010,9 @@ class DataCollection:
         else:
             raise TypeError(type(train_range))
 
+        # Trains are always in order & only once, whatever order was asked for
+        new_train_ids = sorted(set(new_train_ids))
+
         files = [f for f in self.files
                  if np.intersect1d(f.train_ids, new_train_ids).size > 0]
 
-- 
2.43.0


From 88cac0636ae93b2d2345add112ee9a5817eba6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 12/73] fix: get_array() failed for an empty region of interest
 or empty entries

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 9de6123..1df2529 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -729,6 +729,9 @@ class DataCollection:
                 self._expand_trainids(chunk.counts, chunk.train_ids)
             )
 
+            if res.size == 0:
+                continue  # h5py can't read an empty region
+
             slices = (chunk.slice,) + roi
             chunk.dataset.read_direct(res[dest_slice], source_sel=slices)
 
-- 
2.43.0


From 9ecd8dca765d756735ba90fd8412846fee167430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 13/73] fix: get_dask_array() failed if a file had no selected
 data

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 1df2529..1a82ca4 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -776,7 +776,8 @@ class DataCollection:
 
         chunks_darrs = []
         for chunk in chunks:
-            chunk_dim0 = int(np.sum(chunk.counts))
+            # dask needs non-zero chunks, even if none of this data is selected
+            chunk_dim0 = max(int(np.sum(chunk.counts)), 1)
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
-- 
2.43.0


From 1ad401ea17a27b627b82cbae485ab170f4d28fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 14/73] fix: get_virtual_dataset() failed for a source with no
 data in the selected trains

---
 karabo_data/reader.py |  4 ++++
 karabo_data/writer.py | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 1a82ca4..376a995 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1264,6 +1264,10 @@ class DataCollection:
         else:
             ds_path = vfw.add_instrument_dataset(source, key)
 
+        if ds_path is None:
+            # No data for these trains, so nothing to link to.
+            ds_path = vfw.add_empty_dataset(source, key)
+
         vfw.write_indexes()
         vfw.write_metadata()
         vfw.set_writer()
diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..0515e68 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -166,6 +166,19 @@ class VirtualFileWriter(FileWriter):
         self._make_control_index(source, train_ids)
         return path
 
+    def add_empty_dataset(self, source, key):
+        """Make an ordinary dataset with no entries for a source & key"""
+        section = 'CONTROL' if source in self.data.control_sources else 'INSTRUMENT'
+        path = '{}/{}/{}'.format(section, source, key.replace('.', '/'))
+        self.file[path] = self.data.get_array(source, key).values
+
+        no_train_ids = np.zeros(0, dtype=np.uint64)
+        if section == 'CONTROL':
+            self._make_control_index(source, no_train_ids)
+        else:
+            self._make_instrument_index(source, key, no_train_ids)
+        return path
+
     def add_instrument_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
         if not layout:
-- 
2.43.0


From 967b270143561c54b6e057da6dccc342250bbe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 15/73] fix: select_trains() could keep the wrong files for
 train IDs beyond 2**53

---
 karabo_data/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 376a995..b9aa97a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1002,7 +1002,10 @@ class DataCollection:
             new_train_ids = self.train_ids[tr.value]
         elif isinstance(tr, by_id) and isinstance(tr.value, (list, np.ndarray)):
             # Select a list of trains by train ID
-            new_train_ids = sorted(set(self.train_ids).intersection(tr.value))
+            wanted = set(tr.value)
+            # Keep our unsigned integers: mixed with signed integers, numpy
+            # would compare train IDs as (inexact) floats.
+            new_train_ids = [t for t in self.train_ids if t in wanted]
             if not new_train_ids:
                 raise ValueError(
                     "Given train IDs not found among {} trains in "
-- 
2.43.0


From 28bd09e710c84e0b8e96075219b36b961a728229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 16/73] fix: write() failed if a control source didn't have
 data for all selected trains

---
 karabo_data/writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 0515e68..1a41590 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,7 +17,6 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
-- 
2.43.0


From 6855bc6ecf8b2908ee9319b471ee781c960b2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 17/73] fix: write() could leave the new file open and
 incomplete after returning

---
 karabo_data/writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 1a41590..5407dd7 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -106,6 +106,7 @@ class FileWriter:
         self.write_indexes()
         self.write_metadata()
         self.set_writer()
+        self.file.close()  # Don't leave it incomplete until it's collected
 
 
 class VirtualFileWriter(FileWriter):
-- 
2.43.0


From 4dc2d661a34e1162c39fc05e820f511c65420069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 18/73] fix: opening a run failed if its cached map was
 unreadable or malformed

---
 karabo_data/run_files_map.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..b623677 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -89,14 +89,20 @@ class RunFilesMap:
                 self.cache_file = path
                 log.debug("Loaded cached files map from %s", path)
                 break
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (OSError, ValueError, RecursionError):
+                # Missing, unreadable, or not valid UTF-8/JSON
                 pass
 
+        if not isinstance(loaded_data, list):
+            loaded_data = []
+
         for info in loaded_data:
+            if not self._is_valid_entry(info):
+                continue
             filename = info['filename']
             try:
                 st = os.stat(osp.join(self.directory, filename))
-            except OSError:
+            except (OSError, ValueError):
                 continue
             if (st.st_mtime == info['mtime']) and (st.st_size == info['size']):
                 self.files_data[filename] = info
@@ -105,6 +111,23 @@ class RunFilesMap:
             dt = time.monotonic() - t0
             log.debug("Loaded cached files map in %.2g s", dt)
 
+    @staticmethod
+    def _is_valid_entry(info):
+        """Check that the data loaded for a file is usable"""
+        if not (isinstance(info, dict) and isinstance(info.get('filename'), str)
+                and all(isinstance(info.get(k), (int, float))
+                        for k in ('mtime', 'size'))):
+            return False
+        for k in ('train_ids', 'control_sources', 'instrument_sources'):
+            if not isinstance(info.get(k), list):
+                return False
+        return all(
+            type(tid) is int and 0 <= tid < 2**64 for tid in info['train_ids']
+        ) and all(
+            isinstance(s, str)
+            for s in info['control_sources'] + info['instrument_sources']
+        )
+
     def is_my_directory(self, dir_path):
         return osp.samestat(os.stat(dir_path), self.dir_stat)
 
-- 
2.43.0


From 34af3f3ca11d53a1f1f13e628fbc461e7ba60b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 19/73] fix: opening a run failed if its map could not be
 saved, e.g. on a full disk

---
 karabo_data/run_files_map.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index b623677..d3a71c7 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -23,12 +23,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
@@ -151,8 +150,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences errors (e.g. from permissions or
+        a full disk) from writing the cache file.
         """
         need_save = False
 
@@ -191,7 +190,8 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError as e:
+                    log.debug("Could not save run files map to %s: %s", path, e)
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From ab8f660f64c18ed98a599fa45a209f93791cd15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 20/73] fix: negative pulse IDs & indices in a selection were
 accepted, and selected no data

---
 karabo_data/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..470e7c3 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -64,9 +64,9 @@ def _check_pulse_selection(pulses):
 
     # Convert everything except slices to numpy arrays
     elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
+        val = np.array([val])
     else:
-        val = np.asarray(val, dtype=np.uint64)
+        val = np.asarray(val)
 
     if (val < 0).any():
         if isinstance(pulses, by_id):
@@ -74,7 +74,7 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    return type(pulses)(val.astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 0f15bb5a4dc27cc431120178c0f91c5cc5581a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 21/73] fix: detector data could not be read if a module's file
 lacked some of the trains

---
 karabo_data/components.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 470e7c3..23092cc 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -230,20 +230,22 @@ class MPxDetectorBase:
             firsts, counts = f.get_index(source, group)
 
             for chunk_tids in self.train_id_chunks:
-                if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
+                # This module may not have all the trains in the chunk
+                train_ixs = np.nonzero(
+                    (f.train_ids >= chunk_tids[0]) & (f.train_ids <= chunk_tids[-1])
+                )[0]
+                if train_ixs.size == 0:
                     # No overlap
                     continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
+                first_train_idx = train_ixs[0]
+                last_train_idx = train_ixs[-1]
                 chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
                 chunk_counts = counts[first_train_idx : last_train_idx + 1]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
+                    f.train_ids[first_train_idx : last_train_idx + 1],
                     chunk_counts.astype(np.intp),
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
-- 
2.43.0


From 4fce7da95a23d7fd18dbbce6ac2abc9bc5379acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 22/73] fix: selecting unsorted or repeated pulse indices
 failed or mislabelled data

---
 karabo_data/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 23092cc..e9f909a 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -74,7 +74,8 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val.astype(np.uint64))
+    # h5py needs sorted, unique indices
+    return type(pulses)(np.unique(val.astype(np.uint64)))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 6db17e1cff133327907a2142b78380f127ec9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 23/73] fix: detector get_array() failed if one module had no
 data for a per-train key

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index b9aa97a..ffe3087 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -741,9 +741,10 @@ class DataCollection:
         dims = ['trainId'] + extra_dims
 
         # Train ID index
-        coords = {}
         if dest_dim0:
             coords = {'trainId': np.concatenate(chunks_trainids)}
+        else:
+            coords = {'trainId': np.zeros((0,), dtype=np.uint64)}
 
         return xarray.DataArray(res, dims=dims, coords=coords)
 
-- 
2.43.0


From 51270f3ce200b255759c4f101c9b7b94d2942047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 24/73] fix: reading detector data failed if min_modules
 excluded all trains from a module

---
 karabo_data/components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e9f909a..0e11a86 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -116,6 +116,11 @@ class MPxDetectorBase:
         self.frames_per_train = data_count_values.pop()
         self.data = self._select_trains(data, mod_data_counts, min_modules)
 
+        # Leave out modules with no files for any of the selected trains
+        source_to_modno = {s: m for (s, m) in source_to_modno.items()
+                           if s in self.data.instrument_sources}
+        self.source_to_modno = source_to_modno
+
         # This should be a reversible 1-to-1 mapping
         self.modno_to_source = {m: s for (s, m) in source_to_modno.items()}
         assert len(self.modno_to_source) == len(self.source_to_modno)
-- 
2.43.0


From 6014e559f7a45aa9c3cca593daa1263db4cf30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 25/73] fix: missing modules were filled with arbitrary values
 when stacking integer data

---
 karabo_data/stacking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..bb6ee5a 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -117,6 +117,9 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if dtype.kind not in 'fc' and np.isscalar(fillvalue) and np.isnan(fillvalue):
+        # Integers (or booleans) cannot represent nan
+        fillvalue = 0
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From 522859635e52bbb7c015430d2b128fdcc507ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 26/73] fix: slicing a stacked view across all modules could
 move the stack axis

---
 karabo_data/stacking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index bb6ee5a..297d145 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -197,8 +197,11 @@ class StackView:
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
+        # Indexing with an integer removes a dimension
+        new_stack_axis = sum(isinstance(s, slice)
+                             for s in mod_slices[:self._stack_axis])
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, stack_axis=new_stack_axis)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From 8e14f227db1d444cdd091873ec92634062983a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 27/73] fix: stacked view accepted negative module indices out
 of range, and refused numpy integers

---
 karabo_data/stacking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 297d145..1349d55 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -170,7 +170,9 @@ class StackView:
         modno = slices[self._stack_axis]
         mod_slices = slices[:self._stack_axis] + slices[self._stack_axis + 1:]
 
-        if isinstance(modno, int):
+        if isinstance(modno, (int, np.integer)):
+            if not -self._nmodules <= modno < self._nmodules:
+                raise IndexError(modno)
             if modno < 0:
                 modno += self._nmodules
             return self._get_single_mod(modno, mod_slices)
@@ -185,8 +187,6 @@ class StackView:
         try:
             mod_data = self._data[modno]
         except KeyError:
-            if modno >= self._nmodules:
-                raise IndexError(modno)
             mod_data = np.full(self._mod_shape, self._fillvalue, self.dtype)
             self._data[modno] = mod_data
 
-- 
2.43.0


From 9f5739643c5053d1976c1824447daa800b92d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 28/73] fix: karabo-bridge-serve-files ignored its --source and
 --key options

---
 karabo_data/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..272eeb5 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -260,4 +260,5 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(args.path, args.port, source_glob=args.source,
+                key_glob=args.key)
-- 
2.43.0


From 8268226d655ca0ade22d3a06bfb850d7768e5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 29/73] fix: streaming boolean values failed, and arrays of
 strings were sent as memory addresses

---
 karabo_data/export.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 272eeb5..9aa2415 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -143,9 +143,12 @@ class ZMQStreamer:
             main_data = {}
             arrays = []
             for key, value in props.items():
-                if isinstance(value, np.ndarray):
+                if isinstance(value, np.ndarray) and value.dtype.hasobject:
+                    # E.g. strings: there's no contiguous buffer to send
+                    main_data[key] = value.tolist()
+                elif isinstance(value, np.ndarray):
                     arrays.append((key, value))
-                elif isinstance(value, np.number):
+                elif isinstance(value, (np.number, np.bool_)):
                     # Convert numpy type to native Python type
                     main_data[key] = value.item()
                 else:
-- 
2.43.0


From ae2a985f73c5a702550bf6d7ec881df70c39e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 30/73] fix: metadata was not sent with bridge protocol version
 1.0

---
 karabo_data/export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 9aa2415..774204a 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -136,6 +136,10 @@ class ZMQStreamer:
                     metadata[src].update(update_dummy)
 
         if self.protocol_version == '1.0':
+            # In this version, metadata is sent along with the data
+            data = {src: dict(props, metadata=metadata[src])
+                    if metadata.get(src) else props
+                    for src, props in data.items()}
             return [self.pack(data)]
 
         msg = []
-- 
2.43.0


From d22bd7c316fff4d0a13494f009a831d869cb208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 31/73] fix: stopping a stream dropped queued trains, and could
 wait forever for another request

---
 karabo_data/export.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 774204a..aeefe25 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -12,7 +12,7 @@ program. If not, see <https://opensource.org/licenses/BSD-3-Clause>
 
 from argparse import ArgumentParser
 import os.path as osp
-from queue import Queue
+from queue import Empty, Queue
 from threading import Event, Thread
 from time import time
 
@@ -38,14 +38,28 @@ class REPInterface(Thread):
         try:
             interface.bind('tcp://*:{}'.format(self.port))
 
-            while not self.stopped():
+            # After stop() is called, send what was already queued
+            while not (self.stopped() and self.buffer.empty()):
+                if not interface.poll(timeout=100):  # milliseconds
+                    continue
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
-                interface.send_multipart(self.buffer.get())
+                msg = self._next_message()
+                if msg is None:
+                    break
+                interface.send_multipart(msg)
         finally:
-            interface.setsockopt(zmq.LINGER, 0)
-            interface.close()
+            # Allow time to send the last message
+            interface.close(linger=10000)
+
+    def _next_message(self):
+        while True:
+            try:
+                return self.buffer.get(timeout=0.1)
+            except Empty:
+                if self.stopped() and self.buffer.empty():
+                    return None
 
     def stop(self):
         self._stop_event.set()
@@ -113,10 +127,15 @@ class ZMQStreamer:
         self._interface.start()
 
     def stop(self):
+        """Stop serving, after sending any data which was already queued.
+        """
         if self._interface:
             self._interface.stop()
             self._interface.join()
             self._interface = None
+            # Wait until the last message is sent
+            self._context.term()
+            self._context = zmq.Context()
 
     def _serialize(self, data, metadata=None):
         if not metadata:
-- 
2.43.0


From ba0c08e319ae43d59bf1a1d6bea005d17d3cef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 32/73] fix: validating a run failed if its files were not all
 in a cached map

---
 karabo_data/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..fb45fc5 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -191,6 +191,8 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue  # No valid cache entry for this file
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From 97c7ae26b10718d7c6d064aeb9906bd0caa7c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 33/73] fix: validating a file with no trains failed

---
 karabo_data/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index fb45fc5..e1f6fe1 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -120,6 +120,9 @@ class FileValidator:
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
+    if firsts.size == 0:
+        return probs  # No trains in this file
+
     if firsts[0] != 0:
         record("Index doesn't start at 0")
 
-- 
2.43.0


From 1ece90ce23a6dccd4fbe1f2038c805f2e3c2ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 34/73] fix: validation missed huge index counts, and failed if
 first & count have different lengths

---
 karabo_data/validation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e1f6fe1..1200e02 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -79,8 +79,13 @@ class FileValidator:
                 src_groups.add((src, group))
                 first, count = self.file.get_index(src, group)
                 data_dim0 = self.file.file[ds_path].shape[0]
-                if np.any((first + count) > data_dim0):
-                    max_end = (first + count).max()
+                if first.shape != count.shape:
+                    continue  # This is recorded below
+                # first + count could overflow
+                outside = (first > data_dim0) | (count > (data_dim0 - first))
+                if np.any(outside):
+                    max_end = max(int(f) + int(c) for (f, c) in
+                                  zip(first[outside], count[outside]))
                     self.record(
                         'Index referring to data ({}) outside dataset ({})'.format(
                             max_end, data_dim0
@@ -106,6 +111,7 @@ class FileValidator:
                         first_shape=first.shape,
                         count_shape=count.shape,
                     )
+                    continue
 
                 if first.shape != self.file.train_ids.shape:
                     record(
-- 
2.43.0


From d706f0cbf239dd8b8811312d0b6f674aeb658c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 35/73] fix: validation failed if parts of an index are missing
 or have different lengths

---
 karabo_data/validation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 1200e02..8e55cb1 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -77,7 +77,10 @@ class FileValidator:
                 ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
                 group = key.split('.', 1)[0]
                 src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
+                try:
+                    first, count = self.file.get_index(src, group)
+                except Exception:
+                    continue  # This is recorded below
                 data_dim0 = self.file.file[ds_path].shape[0]
                 if first.shape != count.shape:
                     continue  # This is recorded below
@@ -95,7 +98,12 @@ class FileValidator:
 
             for src, group in src_groups:
                 record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
-                first, count = self.file.get_index(src, group)
+                try:
+                    first, count = self.file.get_index(src, group)
+                except Exception as e:
+                    # E.g. last & status have different numbers of entries
+                    record("Could not read index", error=e)
+                    continue
 
                 if (first.ndim != 1) or (count.ndim != 1):
                     record(
-- 
2.43.0


From c441c169db91b1769ee9f67560cbe44f26d7fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 36/73] fix: validating a run failed if train IDs in its files
 conflict, instead of reporting this

---
 karabo_data/validation.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 8e55cb1..6103001 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -173,7 +173,13 @@ class RunValidator:
             else:
                 files.append(fa)
 
-        self.run = DataCollection(files)
+        self.files = files
+        self.conflict = None
+        try:
+            self.run = DataCollection(files)
+        except ValueError as e:
+            # Wrong train IDs can appear to overlap with other files
+            self.run, self.conflict = None, e
         self.problems = []
 
     def validate(self):
@@ -192,13 +198,19 @@ class RunValidator:
         for path, err in self.files_excluded:
             self.problems.append(dict(msg="Could not open file", file=path, error=err))
 
-        if not self.run.files:
+        if not self.files:
             self.problems.append(
                 dict(msg="No usable files found", directory=self.run_dir)
             )
 
+        if self.conflict is not None:
+            self.problems.append(dict(
+                msg="Could not combine data from files",
+                directory=self.run_dir, error=self.conflict,
+            ))
+
     def check_files(self):
-        for f in self.run.files:
+        for f in self.files:
             fv = FileValidator(f)
             self.problems.extend(fv.run_checks())
 
@@ -206,7 +218,7 @@ class RunValidator:
         # Outdated cache entries we can detect with the file's stat() are not a
         # problem. Loading the cache file will discard those automatically.
         cache = RunFilesMap(self.run_dir)
-        for f_access in self.run.files:
+        for f_access in self.files:
             f_cache = cache.get(f_access.filename)
             if f_cache is None:
                 continue  # No valid cache entry for this file
-- 
2.43.0


From 4df97d6a6f297275e563c72ccfc9d23d63a9b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 37/73] fix: validation missed an index whose last or status
 has only one entry

---
 karabo_data/validation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 6103001..2cbe06b 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -121,6 +121,16 @@ class FileValidator:
                     )
                     continue
 
+                ix_group = self.file.file['INDEX/{}/{}'.format(src, group)]
+                for name in ('last', 'status'):
+                    # A single entry would be broadcast for all trains
+                    if 'count' not in ix_group and len(ix_group[name]) < len(first):
+                        record(
+                            "Index has wrong number of entries in " + name,
+                            index_shape=ix_group[name].shape,
+                            trainids_shape=self.file.train_ids.shape,
+                        )
+
                 if first.shape != self.file.train_ids.shape:
                     record(
                         "Index has wrong number of entries",
-- 
2.43.0


From 3a1bfaf7ec378ffa7f5e9b43801d3381c7377688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 38/73] fix: AGIPD geometry made with unit != 1 pixel had wrong
 pixel sizes and gaps

---
 karabo_data/geometry2/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..930c688 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -606,7 +606,7 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
     n_tiles_per_module = 8
 
     @classmethod
-    def from_quad_positions(cls, quad_pos, asic_gap=2, panel_gap=29,
+    def from_quad_positions(cls, quad_pos, asic_gap=None, panel_gap=None,
                             unit=pixel_size):
         """Generate an AGIPD-1M geometry from quadrant positions.
 
@@ -623,9 +623,12 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         To give positions in units other than pixels, pass the *unit* parameter
         as the length of the unit in metres.
         E.g. ``unit=1e-3`` means the coordinates are in millimetres.
+        The same unit applies to *asic_gap* and *panel_gap*, which default to
+        2 and 29 pixels respectively.
         """
-        asic_gap_px = asic_gap * unit / cls.pixel_size
-        panel_gap_px = panel_gap * unit / cls.pixel_size
+        px_conversion = unit / cls.pixel_size
+        asic_gap_px = 2 if (asic_gap is None) else asic_gap * px_conversion
+        panel_gap_px = 29 if (panel_gap is None) else panel_gap * px_conversion
 
         # How much space one tile takes up, including the gaps
         # separating it from its neighbour.
@@ -654,8 +657,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From 2bdac40c3ed02643e544800682f9336e8c11c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 39/73] fix: position_modules_interpolate mixed up metres and
 pixels, so its result was empty

---
 karabo_data/geometry2/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 930c688..ababad3 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -804,12 +804,14 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
             tiles_data = np.split(mod_data, 8)
             for j, (tile, tile_data) in enumerate(zip(module, tiles_data)):
                 # We store (x, y, z), but numpy indexing, and hence affine_transform,
-                # work like [y, x]. Rearrange the numbers:
-                fs_vec_yx = tile.fs_vec[:2][::-1]
-                ss_vec_yx = tile.ss_vec[:2][::-1]
+                # work like [y, x]. Rearrange the numbers, in pixel units:
+                fs_vec_yx = (tile.fs_vec[:2] / self._pixel_shape)[::-1]
+                ss_vec_yx = (tile.ss_vec[:2] / self._pixel_shape)[::-1]
 
                 # Offset by centre to make all coordinates positive
-                corner_pos_yx = tile.corner_pos[:2][::-1] + centre
+                corner_pos_yx = (
+                    (tile.corner_pos[:2] / self._pixel_shape)[::-1] + centre
+                )
 
                 # Make the rotation matrix
                 rotn = np.stack((ss_vec_yx, fs_vec_yx), axis=-1)
@@ -817,7 +819,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                 # affine_transform takes a mapping from *output* to *input*.
                 # So we reverse the forward transformation.
                 transform = np.linalg.inv(rotn)
-                offset = np.dot(rotn, corner_pos_yx)  # this seems to work, but is it right?
+                # Array index n is the centre of a pixel from n to n+1
+                offset = np.dot(transform, 0.5 - corner_pos_yx) - 0.5
 
                 affine_transform(
                     tile_data,
-- 
2.43.0


From 34f3037df6f0aaa1fa1a3de21cb446a50dd3e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 40/73] fix: gaps in assembled integer & boolean images had
 arbitrary values

---
 karabo_data/geometry2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index ababad3..6633502 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -918,7 +918,9 @@ class SnappedGeometry:
         """Make an output array for self.position_modules()
         """
         shape = extra_shape + self.size_yx
-        return np.full(shape, np.nan, dtype=dtype)
+        # Missing data is NaN, or 0 for data types without NaN
+        fill = np.nan if np.issubdtype(dtype, np.inexact) else 0
+        return np.full(shape, fill, dtype=dtype)
 
     def position_modules(self, data, out=None):
         """Implementation for position_modules_fast
-- 
2.43.0


From 99aeefa3d56557bd800f02a6eca56b5c56136c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 41/73] fix: data_coords_to_positions could overflow with 8-bit
 module numbers

---
 karabo_data/geometry2/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 6633502..2bf57ce 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -577,7 +577,8 @@ class DetectorGeometryBase:
         tilenos, tile_ss, tile_fs = self._module_coords_to_tile(slow_scan, fast_scan)
 
         # The indexes of the relevant tiles in the arrays assembled above
-        all_tiles_ix = (module_no * self.n_tiles_per_module) + tilenos
+        # Small integer types could overflow in this multiplication.
+        all_tiles_ix = (module_no.astype(np.intp) * self.n_tiles_per_module) + tilenos
 
         # Select the relevant tile geometry for each set of coordinates
         coords_tile_corner = tiles_corner_pos[all_tiles_ix]
-- 
2.43.0


From 2d522cb7434ccbeadfbc1f0cf6e4c3b249b90102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 42/73] fix: z positions in CrystFEL geometry files (coffset)
 are in metres, not pixels

---
 karabo_data/geometry2/__init__.py     | 3 ++-
 karabo_data/geometry2/crystfel_fmt.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 2bf57ce..bb08358 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -33,7 +33,8 @@ class GeometryFragment:
     @classmethod
     def from_panel_dict(cls, d):
         res = d['res']
-        corner_pos = np.array([d['cnx'], d['cny'], d['coffset']]) / res
+        # cnx & cny are in pixels, but coffset is in metres
+        corner_pos = np.array([d['cnx'] / res, d['cny'] / res, d['coffset']])
         ss_vec = np.array([d['ssx'], d['ssy'], d['ssz']]) / res
         fs_vec = np.array([d['fsx'], d['fsy'], d['fsz']]) / res
         ss_pixels = d['max_ss'] - d['min_ss'] + 1
diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..eeef1c4 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -73,7 +73,7 @@ def frag_to_crystfel(fragment, p, a, ss_slice, fs_slice, dims, pixel_size):
         fs_vec=_crystfel_format_vec(fragment.fs_vec/ pixel_size),
         corner_x=c[0],
         corner_y=c[1],
-        coffset=c[2],
+        coffset=fragment.corner_pos[2],  # This one is in metres
     )
 
 def write_crystfel_geom(self, filename, *,
-- 
2.43.0


From c1f62d0f4683fe6e5df36ff3cd5d8f2ae35e262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 43/73] fix: CrystFEL geometry files with very small vector
 components could not be loaded

---
 karabo_data/geometry2/crystfel_fmt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index eeef1c4..772303b 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,11 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    # The format does not allow exponents (1e-05) here
+    x, y, z = [np.format_float_positional(v, trim='0', sign=True) for v in vec]
+    s = '{}x {}y'.format(x, y)
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(z)
     return s
 
 
-- 
2.43.0


From e423d2d6a9cd0c370d783054624a90ad66dc7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 44/73] fix: comparing geometries drew a plot in metres with
 margins & arrows sized for pixels

---
 karabo_data/geometry2/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index bb08358..2b68aef 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -722,27 +722,30 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         fig = plt.figure(figsize=(10, 10))
         ax = fig.add_subplot(1, 1, 1)
 
+        # Plot in pixel units: sizes & margins below are suitable for this
+        px_scale = self._get_plot_scale_factor('px')
+
         rects = []
         arrows = []
         for p, module in enumerate(self.modules):
             for a, fragment in enumerate(module):
-                corners = fragment.corners()[:, :2]  # Drop the Z dimension
+                corners = fragment.corners()[:, :2] * px_scale  # Drop the Z dimension
                 corner1, corner1_opp = corners[0], corners[2]
 
                 rects.append(Polygon(corners))
                 if a in {0, 7}:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px_scale
                     ax.text(cx, cy, str(a),
                             verticalalignment='center',
                             horizontalalignment='center')
                 elif a == 4:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px_scale
                     ax.text(cx, cy, 'p{}'.format(p),
                             verticalalignment='center',
                             horizontalalignment='center')
 
                 panel2 = other.modules[p][a]
-                corners2 = panel2.corners()[:, :2]
+                corners2 = panel2.corners()[:, :2] * px_scale
                 corner2, corner2_opp = corners2[0], corners2[2]
                 dx, dy = corner2 - corner1
                 if not (dx == dy == 0):
-- 
2.43.0


From c13f82dfb4e35c3cacac2b9dfc243ba59a745d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 45/73] fix: old LPDGeometry could not assemble integer data

---
 karabo_data/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 7157a40..68e65b4 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -120,8 +120,9 @@ class LPDGeometry(GeometryFragment):
         assert data.shape[-3:] == (16, 256, 256)
         size_xy, centre = self._plotting_dimensions()
         size_yx = size_xy[::-1]
-        out = np.empty(data.shape[:-3] + size_yx, dtype=data.dtype)
-        out[:] = np.nan
+        # Missing data is NaN, or 0 for data types without NaN
+        fill = np.nan if np.issubdtype(data.dtype, np.inexact) else 0
+        out = np.full(data.shape[:-3] + size_yx, fill, dtype=data.dtype)
 
         for channelno in range(16):
             module_data = data[..., channelno, :, :]
-- 
2.43.0


From 4f9ace85bd81751cb5e762f4feda9ef57f23a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 46/73] fix: old LPDGeometry ignored unit for tile positions

---
 karabo_data/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 68e65b4..c115274 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -75,7 +75,7 @@ class GeometryFragment:
     @classmethod
     def from_h5_group(cls, group, unit=1e-3):
         children = {
-            key: GeometryFragment.from_h5_group(val)
+            key: GeometryFragment.from_h5_group(val, unit=unit)
             for (key, val) in group.items()
             if isinstance(val, h5py.Group)
         }
-- 
2.43.0


From 1f9b0d64c0b081b1a2aa44831f54190b766e761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 47/73] fix: info() failed for data with no trains

---
 karabo_data/reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index ffe3087..75a603b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1094,10 +1094,14 @@ class DataCollection:
         """Show information about the selected data.
         """
         # time info
-        first_train = self.train_ids[0]
-        last_train = self.train_ids[-1]
         train_count = len(self.train_ids)
-        span_sec = (last_train - first_train) / 10
+        if train_count:
+            first_train = self.train_ids[0]
+            last_train = self.train_ids[-1]
+            span_sec = (last_train - first_train) / 10
+        else:
+            first_train = last_train = '-'
+            span_sec = 0
         span_txt = str(datetime.timedelta(seconds=span_sec))
 
         detector_modules = {}
-- 
2.43.0


From f671fbc47c5500142962ab8ed28d5775478d7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 48/73] fix: train_info() listed sources which were not
 selected

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 75a603b..6fbe19a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1196,6 +1196,9 @@ class DataCollection:
         files = [f for f in self.files if train_id in f.train_ids]
         ctrl = set().union(*[f.control_sources for f in files])
         inst = set().union(*[f.instrument_sources for f in files])
+        # Only show sources which are selected
+        ctrl &= self.control_sources
+        inst &= self.instrument_sources
 
         # disp
         print('Train [{}] information'.format(train_id))
-- 
2.43.0


From eafff4893ee93ac3ceec9312121d1cae73ac98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 49/73] fix: detector_info() gave 0 frames if the first file
 has none, or arbitrary of several numbers

---
 karabo_data/reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6fbe19a..2e13052 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1155,17 +1155,19 @@ class DataCollection:
         - 'total_frames' (estimated assuming all trains have data)
         """
         source_files = self._source_index[source]
-        file0 = sorted(source_files, key=lambda fa: fa.filename)[0]
-
-        _, counts = file0.get_index(source, 'image')
-        counts = set(np.unique(counts))
-        counts.discard(0)
+        # Use the first file which has some frames
+        for file0 in sorted(source_files, key=lambda fa: fa.filename):
+            _, counts = file0.get_index(source, 'image')
+            counts = set(np.unique(counts))
+            counts.discard(0)
+            if counts:
+                break
 
         if len(counts) > 1:
             warn("Varying number of frames per train: %s" % counts)
 
         if counts:
-            fpt = int(counts.pop())
+            fpt = int(max(counts))
         else:
             fpt = 0
 
-- 
2.43.0


From 009ae11771a8e963b58e1dc443067e411b7d89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 50/73] fix: lsxfel could not describe files with non-standard
 names

---
 karabo_data/read_machinery.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 669ee62..d55fda3 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -177,7 +177,11 @@ class FilenameInfo:
     def __init__(self, path):
         self.basename = osp.basename(path)
         nameparts = self.basename[:-3].split('-')
-        assert len(nameparts) == 4, self.basename
+        if len(nameparts) != 4:
+            # Not a standard name, e.g. written by DataCollection.write()
+            self.description = "Unknown data source"
+            return
+
         rawcorr, runno, datasrc, segment = nameparts
         m = re.match(r'([A-Z]+)(\d+)', datasrc)
 
@@ -192,7 +196,7 @@ class FilenameInfo:
                 self._rawcorr_descr.get(rawcorr, '?'), name, moduleno
             )
         else:
-            self.description = "Unknown data source ({})", datasrc
+            self.description = "Unknown data source ({})".format(datasrc)
 
 
 def find_proposal(propno):
-- 
2.43.0


From d5b54a34fb54423fa76ca2ef40813973aa63919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 51/73] fix: lsxfel failed summarising a non-detector file
 among several paths

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 2e20ab6..66977f0 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -55,7 +55,7 @@ def summarise_file(path):
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
         ))
     else:
-        print("  {} trains, {} sources".format(ntrains, len(h5file.sources)))
+        print("  {} trains, {} sources".format(ntrains, len(h5file.all_sources)))
 
 
 def describe_run(path):
-- 
2.43.0


From 231575e2828365c18c6e0f1a5af8ee743fabf90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 52/73] fix: lsxfel failed for a file with a detector name but
 no detector data

---
 karabo_data/lsxfel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 66977f0..438a920 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -21,7 +21,7 @@ def describe_file(path):
     print(len(h5file.train_ids), "trains")
     print()
 
-    if info.is_detector:
+    if info.is_detector and h5file.detector_sources:
         detector_source = next(iter(h5file.detector_sources))
         detector_info = h5file.detector_info(detector_source)
         print("{} × {} pixels".format(*detector_info['dims']))
@@ -48,7 +48,7 @@ def summarise_file(path):
     h5file = H5File(path)
     ntrains = len(h5file.train_ids)
 
-    if info.is_detector:
+    if info.is_detector and h5file.detector_sources:
         detector_source = next(iter(h5file.detector_sources))
         dinfo = h5file.detector_info(detector_source)
         print("  {} trains, {} frames/train, {} total frames".format(
-- 
2.43.0


From d9d0d91306134f7d7f001facff764fdd64065aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 53/73] fix: lsxfel stopped listing runs at an unreadable file
 or a run with no data files

---
 karabo_data/lsxfel.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 438a920..56af277 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -85,13 +85,20 @@ def summarise_run(path, indent=''):
                 n_other += 1
 
     if len(segment_sequences) < 1:
-        raise ValueError("No data files recognised in %s" % path)
+        print("{}{} : No data files recognised".format(indent, basename))
+        return
 
     # Take the shortest group of segments to make reading quicker
-    first_group = sorted(segment_sequences.values(), key=len)[0]
     train_ids = set()
-    for f in first_group:
-        train_ids.update(H5File(osp.join(path, f)).train_ids)
+    for group in sorted(segment_sequences.values(), key=len):
+        for f in group:
+            try:
+                train_ids.update(H5File(osp.join(path, f)).train_ids)
+            except Exception as e:
+                print("Skipping file", osp.join(path, f), file=sys.stderr)
+                print("  (error was: {})".format(e), file=sys.stderr)
+        if train_ids:
+            break
 
     print("{}{} : Run of {:>4} trains, with {:>3} detector files and {:>3} others".format(
         indent, basename, len(train_ids), n_detector, n_other
-- 
2.43.0


From 81576b90762f267d7c8de93ee7cf58f47fb6d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 54/73] fix: lsxfel did not show the name of a directory given
 with a trailing slash

---
 karabo_data/lsxfel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 56af277..8096d79 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -59,7 +59,7 @@ def summarise_file(path):
 
 
 def describe_run(path):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
     print(basename, ": Run directory")
     print()
 
@@ -68,7 +68,7 @@ def describe_run(path):
 
 
 def summarise_run(path, indent=''):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
 
     # Accessing all the files in a run can be slow. To get the number of trains,
     # pick one set of segments (time slices of data from the same source).
-- 
2.43.0


From 787e8e943eb6b43351166929a7a019d7dfaf5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 55/73] fix: modifying the set of keys from keys_for_source()
 changed later results

---
 karabo_data/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 2e13052..67b8511 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -320,12 +320,12 @@ class DataCollection:
         """
         selected_keys = self.selection[source]
         if selected_keys is not None:
-            return selected_keys
+            return set(selected_keys)
 
         # The same source may be in multiple files, but this assumes it has
         # the same keys in all files that it appears in.
         for f in self._source_index[source]:
-            return f.get_keys(source)
+            return set(f.get_keys(source))
 
     # Leave old name in case anything external was using it:
     _keys_for_source = keys_for_source
-- 
2.43.0


From b8c7fc060dd993962ff1da9f70b8f606ce97261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 56/73] fix: iterating over trains could not continue after
 files were closed

---
 karabo_data/components.py | 3 ++-
 karabo_data/reader.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 0e11a86..aea4527 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -393,7 +393,8 @@ class MPxDetectorTrainIterator:
             pass
         else:
             ixs = (file.train_ids == tid).nonzero()[0]
-            if ixs.size > 0:
+            # The dataset is false if its file was closed in the meantime
+            if ixs.size > 0 and ds:
                 return file, ixs[0], ds
 
         data = self.data.data
diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 67b8511..390a523 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1308,7 +1308,8 @@ class TrainIterator:
             pass
         else:
             ixs = (file.train_ids == tid).nonzero()[0]
-            if ixs.size > 0:
+            # The dataset is false if its file was closed in the meantime
+            if ixs.size > 0 and ds:
                 return file, ixs[0], ds
 
         data = self.data
-- 
2.43.0


From 008b8f59f0fd9e9e0ea7e434520be85a4bcab2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 57/73] fix: QuickView could not be made with data, nor moved
 to a position

---
 karabo_data/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7ad4850..7615b78 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -51,7 +51,7 @@ class QuickView:
     _current_index = 0
 
     def __init__(self, data=None):
-        if data:
+        if data is not None:
             self.data = data
 
     @property
@@ -63,7 +63,7 @@ class QuickView:
         if self._data is not None:
             if 0 <= pos < len(self):
                 self._current_index = pos
-                self.show()
+                self.display()
             else:
                 err = "value should be 0 < value < " "{}".format(self._data.shape[0])
                 raise ValueError(err)
-- 
2.43.0


From 9921adee36ddeee22070a9aeec3a056ce5974617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 58/73] fix: QuickView went past its last image

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7615b78..b091821 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -82,7 +82,7 @@ class QuickView:
         self.display()
 
     def next(self):
-        if self._current_index < len(self):
+        if self._current_index < len(self) - 1:
             self._current_index += 1
             self.display()
 
-- 
2.43.0


From 1aef6a34981c18197f0e7f207e3a291fde2fbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 59/73] fix: converting an image of a file in format 1.0 to CBF
 failed

---
 karabo_data/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index b091821..e68d51d 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -135,7 +135,10 @@ def numpy_to_cbf(np_array, index=0, header=None):
 def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     """Conversion from HDF5 file to cbf binary image file"""
     tmpf = h5py.File(in_h5file, 'r')
-    paths = list(tmpf["METADATA/dataSourceId"])
+    if "METADATA/dataSourceId" in tmpf:
+        paths = list(tmpf["METADATA/dataSourceId"])
+    else:  # Format version 1.0 and later
+        paths = list(tmpf["METADATA/dataSources/dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
     cbf_out = numpy_to_cbf(images, index=index)
-- 
2.43.0


From 2751c4ec2a9910dd7407f5345769babf0f7902cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 60/73] fix: the header given to hdf5_to_cbf was left out of
 the file

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index e68d51d..008f447 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -141,6 +141,6 @@ def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
         paths = list(tmpf["METADATA/dataSources/dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
-    cbf_out = numpy_to_cbf(images, index=index)
+    cbf_out = numpy_to_cbf(images, index=index, header=header)
     cbf_out.write(cbf_filename)
     print("Convert {} index {} to {}".format(in_h5file, index, cbf_filename))
-- 
2.43.0


From 4573882b6693861a173fd9a04746ff037f9661ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 61/73] fix: validating a run in a folder with brackets or
 wildcards in its name found no files

---
 karabo_data/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 2cbe06b..c640bea 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -1,6 +1,6 @@
 from argparse import ArgumentParser
 from functools import partial
-from glob import glob
+from glob import escape, glob
 import h5py
 import numpy as np
 import os
@@ -175,7 +175,7 @@ class RunValidator:
         self.files_excluded = []
         self.run_dir = run_dir
 
-        for path in glob(os.path.join(run_dir, '*.h5')):
+        for path in glob(os.path.join(escape(run_dir), '*.h5')):
             try:
                 fa = FileAccess(path)
             except Exception as e:
-- 
2.43.0


From 85fc2ea3b65e800e6b4dd381329a69a85cd95642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 62/73] fix: lsxfel with several paths showed no name for a
 folder given with a slash, and runs in any order

---
 karabo_data/lsxfel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 8096d79..7e02057 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -151,10 +151,10 @@ def main(argv=None):
     else:
         exit_code = 0
         for path in paths:
-            basename = os.path.basename(path)
+            basename = os.path.basename(os.path.abspath(path))
 
             if os.path.isdir(path):
-                contents = os.listdir(path)
+                contents = sorted(os.listdir(path))
                 if any(f.endswith('.h5') for f in contents):
                     # Run directory
                     summarise_run(path)
-- 
2.43.0


From 9c7503b917bf60fb1bbe19cb8ff1b7d36e4bf6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 63/73] fix: lsxfel with several paths did not recognise a
 proposal folder with its runs in raw/

---
 karabo_data/lsxfel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 7e02057..ed1e531 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -166,6 +166,14 @@ def main(argv=None):
                         child_path = os.path.join(path, f)
                         if re.match(r'r\d+', f) and os.path.isdir(child_path):
                             summarise_run(child_path, indent='  ')
+                elif osp.isdir(osp.join(path, 'raw')):
+                    print(basename, ": Proposal directory")
+                    print()
+                    print('{}/raw/'.format(basename))
+                    for f in sorted(os.listdir(osp.join(path, 'raw'))):
+                        child_path = os.path.join(path, 'raw', f)
+                        if re.match(r'r\d+', f) and os.path.isdir(child_path):
+                            summarise_run(child_path, indent='  ')
                 else:
                     print(basename, ": Unrecognised directory")
                     exit_code = 2
-- 
2.43.0


From d95d7e946bd166bd27837ed68f2b90cbc3901bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 64/73] fix: get_dask_array gave data for deselected keys, and
 unclear errors for unknown ones

---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 390a523..60379c7 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -770,6 +770,8 @@ class DataCollection:
             Key of parameter within that device, e.g. "image.data".
         """
         import dask.array as da
+
+        self._check_field(source, key)
         chunks = sorted(
             self._find_data_chunks(source, key),
             key=lambda x: x.train_ids[0] if x.train_ids.size else 0,
-- 
2.43.0


From 592a2555486103dece08fba7e4030b95fac584ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 65/73] fix: detector_info failed with an unrelated error for
 an unknown source

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 60379c7..a7ee0d5 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1156,6 +1156,9 @@ class DataCollection:
         - 'frames_per_train' (estimated from one file)
         - 'total_frames' (estimated assuming all trains have data)
         """
+        if source not in self.all_sources:
+            raise SourceNameError(source)
+
         source_files = self._source_index[source]
         # Use the first file which has some frames
         for file0 in sorted(source_files, key=lambda fa: fa.filename):
-- 
2.43.0


From f4b7fcd6b08dbdbbeb04eff2d5158585ad322487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 66/73] fix: virtual datasets altered data of files with
 different data types

---
 karabo_data/writer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 5407dd7..9600e15 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -132,6 +132,15 @@ class VirtualFileWriter(FileWriter):
         if not chunks:
             return None, None
 
+        # HDF5 would silently convert data to the type of the layout
+        shapes = {c.dataset.shape[1:] for c in chunks}
+        if len(shapes) > 1:
+            raise Exception("Mismatched data shapes: {}".format(shapes))
+
+        dtypes = {c.dataset.dtype.newbyteorder('=') for c in chunks}
+        if len(dtypes) > 1:
+            raise Exception("Mismatched dtypes: {}".format(dtypes))
+
         # Create the layout, which will describe what data is where
         n_total = np.sum([c.counts.sum() for c in chunks])
         ds0 = chunks[0].dataset
-- 
2.43.0


From 61b0dc3160a212d561d861aaa98b336f7ebf12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 67/73] fix: keys_for_source returned None for a source without
 data in the selected trains

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index a7ee0d5..ac00b71 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -318,6 +318,9 @@ class DataCollection:
         combine two runs where the source was configured differently, the
         result can be unpredictable.
         """
+        if source not in self.all_sources:
+            raise SourceNameError(source)
+
         selected_keys = self.selection[source]
         if selected_keys is not None:
             return set(selected_keys)
-- 
2.43.0


From 0461378e2b93d95b67dfb0478b3797478e0e3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 68/73] fix: writing data to one of its own files could destroy
 them

---
 karabo_data/writer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 9600e15..6833499 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -1,7 +1,20 @@
+import os.path as osp
+
 import h5py
 import numpy as np
 
 
+def check_not_source_file(path, files):
+    """Refuse to overwrite a file which holds the data to be written"""
+    if not osp.exists(path):
+        return
+
+    for f in files:
+        if osp.exists(f.filename) and osp.samefile(path, f.filename):
+            raise OSError("Cannot overwrite {}: it holds data to be written"
+                          .format(path))
+
+
 class FileWriter:
     """Write data in European XFEL HDF5 format
 
@@ -10,6 +23,7 @@ class FileWriter:
     """
 
     def __init__(self, path, data):
+        check_not_source_file(path, data.files)
         self.file = h5py.File(path, 'w')
         self.data = data
         self.indexes = {}  # {path: (first, count)}
-- 
2.43.0


From 9e2638713d4ad71bc23368b1594aaf76d54fe63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 69/73] fix: dummy timestamps for streaming were written into
 the caller's metadata

---
 karabo_data/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index aeefe25..ca8b6c9 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -150,6 +150,8 @@ class ZMQStreamer:
                 'timestamp.sec': sec,
                 'timestamp.frac': frac,
             }
+            # Don't modify the caller's metadata: it may be used again
+            metadata = {src: dict(md) for src, md in metadata.items()}
             for src in data.keys():
                 if 'timestamp' not in metadata[src]:
                     metadata[src].update(update_dummy)
-- 
2.43.0


From 5273a51d3cbe301184f18705d9cb86f470f24b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 70/73] fix: slicing a collection without trains by train ID
 gave an IndexError

---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index d55fda3..556e489 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -64,6 +64,9 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     if tid is None:
         return None
 
+    if len(train_ids) == 0:
+        raise ValueError("There are no trains in this data to select from")
+
     try:
         return train_ids.index(tid)
     except ValueError:
-- 
2.43.0


From 0a7ebc2bd488aeff6ebcd225f11866800a65e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 71/73] fix: interpolating integer data filled the gaps between
 modules with arbitrary values

---
 karabo_data/geometry2/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 2b68aef..3ae200f 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -803,7 +803,10 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         """
         assert data.shape == (16, 512, 128)
         size_yx, centre = self._get_dimensions()
-        tmp = np.empty((16 * 8,) + size_yx, dtype=data.dtype)
+        # Gaps are marked with NaN, so integer data is converted for this
+        is_integer = np.issubdtype(data.dtype, np.integer)
+        tmp_dtype = np.result_type(data.dtype, np.float32) if is_integer else data.dtype
+        tmp = np.empty((16 * 8,) + size_yx, dtype=tmp_dtype)
 
         for i, (module, mod_data) in enumerate(zip(self.modules, data)):
             tiles_data = np.split(mod_data, 8)
@@ -841,6 +844,12 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
             warnings.simplefilter("ignore", category=RuntimeWarning)
             out = np.nanmax(tmp, axis=0)
 
+        if is_integer:
+            # Missing data is 0 for data types without NaN
+            info = np.iinfo(data.dtype)
+            out = np.nan_to_num(np.around(out), nan=0).clip(info.min, info.max)
+            out = out.astype(data.dtype)
+
         return out, centre
 
     def _get_dimensions(self):
-- 
2.43.0


From d58822529079d7afc8dd4c212f9f51c04ec310a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 72/73] fix: fast plots in metres misplaced rows of detectors
 with non-square pixels

---
 karabo_data/geometry2/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 3ae200f..16b1674 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -1004,7 +1004,8 @@ class SnappedGeometry:
         _extent = np.array((min_x - 0.5, max_x + 0.5, min_y - 0.5, max_y + 0.5))
         cross_size = 20
         if axis_units == 'm':
-            _extent *= self.geom.pixel_size
+            px_width, px_height = self.geom._pixel_shape
+            _extent *= (px_width, px_width, px_height, px_height)
             cross_size *= self.geom.pixel_size
 
         # Use a dark grey for missing data
@@ -1488,7 +1489,8 @@ class DSSC_1MGeometry(DetectorGeometryBase):
                                     **kwargs)
         # Squash image to physically equal aspect ratio, so a circle projected
         # on the detector looks like a circle on screen.
-        ax.set_aspect(204/236.)
+        if axis_units == 'px':
+            ax.set_aspect(204/236.)
         return ax
 
     @classmethod
-- 
2.43.0


From 61b896393b030a84ff034332ddf57c2b04a42ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 73/73] fix: trains() picked the wrong pulses by ID where
 pulses are not recorded in order of their IDs

---
 karabo_data/components.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index aea4527..15fda3b 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -467,11 +467,12 @@ class MPxDetectorTrainIterator:
         N = len(pulse_ids)
         if isinstance(val, slice):
             if val.step == 1:
-                after_start = np.nonzero(pulse_ids >= val.start)[0]
-                after_stop = np.nonzero(pulse_ids >= val.stop)[0]
-                start_ix = after_start[0] if (after_start.size > 0) else N
-                stop_ix = after_stop[0] if (after_stop.size > 0) else N
-                return slice(start_ix, stop_ix)
+                positions = np.nonzero(
+                    (pulse_ids >= val.start) & (pulse_ids < val.stop)
+                )[0]
+                if len(positions) == N:
+                    return slice(0, N)
+                return positions
 
             # step != 1
             desired = np.arange(val.start, val.stop, step=val.step, dtype=np.uint64)
-- 
2.43.0

