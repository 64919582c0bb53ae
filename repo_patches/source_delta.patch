From 8490de76a68cc762c10858dacdadde0323e0e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:56 +0000
Subject: [PATCH 01/51] fix: load auxiliary label files (missing argument in
 recursive call)

---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..584f629 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,7 +87,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From 9e0158f79b3615ba89e26e96f103d520d7b54ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:56 +0000
Subject: [PATCH 02/51] fix: keep labels and features aligned when rows with
 missing labels are dropped

---
 ABXpy/database/database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 584f629..8b9d1ad 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -11,7 +11,7 @@ import ABXpy.misc.tinytree as tinytree
 def read_table(filename):
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
     # removes row with all null values (None or NaN...)
-    db = db.dropna(how='all')
+    db = db.dropna(how='all').reset_index(drop=True)
     return db
 
 
@@ -61,8 +61,9 @@ def load(filename, features_info=False):
     if any(nanrows):
         dropped = db[nanrows]
         dropped.to_csv(basename + '-removed' + ext)
-        db = db[~ nanrows]
-    feat_db = feat_db[~ nanrows]
+        # keep both indexes contiguous and aligned with each other
+        db = db[~ nanrows].reset_index(drop=True)
+        feat_db = feat_db[~ nanrows].reset_index(drop=True)
     # not so verbose print('** Warning ** ' + len(nanrows) + ' items were
     # removed because of missing information. The removed items are listed in'
     # + basename + '-removed.item'
-- 
2.43.0


From c2a719d0ac9499ffaf46214d885747ceb1e04359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 03/51] fix: read file names as text so that e.g. '001' is not
 turned into 1

---
 ABXpy/database/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 8b9d1ad..56f23a3 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -9,7 +9,8 @@ import ABXpy.misc.tinytree as tinytree
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
 def read_table(filename):
-    db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
+    db = pandas.read_csv(filename, sep='[ \t]+', engine='python',
+                         dtype={'#file': str})
     # removes row with all null values (None or NaN...)
     db = db.dropna(how='all').reset_index(drop=True)
     return db
-- 
2.43.0


From 90a65c8ea7f418dc88dbe69cd3c31bc92d149012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 04/51] fix: address items by label after generic filters (and
 drop removed .ix)

---
 ABXpy/task.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..e617296 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -818,7 +818,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
@@ -1017,7 +1017,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
@@ -1055,8 +1055,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From ec0635de87b551df4b5232972b37523fca4d4063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 05/51] fix: ignore by blocks emptied by a generic filter
 instead of crashing

---
 ABXpy/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index e617296..e967d62 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -316,6 +316,10 @@ class Task(object):
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
 
+                # ignore by blocks left without any item
+                if len(by_frame) == 0:
+                    continue
+
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
 
-- 
2.43.0


From b37eafcad568d9e8fcf6eed316e139559f64bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 06/51] fix: column-name filters evaluate to the column values

---
 ABXpy/dbfun/dbfun_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_column.py b/ABXpy/dbfun/dbfun_column.py
index 078b6e3..98da15a 100644
--- a/ABXpy/dbfun/dbfun_column.py
+++ b/ABXpy/dbfun/dbfun_column.py
@@ -36,4 +36,4 @@ class DBfun_Column(dbfun.DBfun):
             return [np.array([self.index.index(e)
                     for e in context[self.input_names[0]]])]
         else:
-            return [context[self.input_names[0]]]
+            return context[self.input_names[0]]
-- 
2.43.0


From 36619a72425b2df74b4b88f574f65419b55f9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 07/51] fix: generic filters can use by columns along with
 other columns

---
 ABXpy/sideop/filter_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ABXpy/sideop/filter_manager.py b/ABXpy/sideop/filter_manager.py
index 8151402..6e29863 100644
--- a/ABXpy/sideop/filter_manager.py
+++ b/ABXpy/sideop/filter_manager.py
@@ -46,6 +46,7 @@ class FilterManager(side_operations_manager.SideOperationsManager):
             db_variables['generic'] = set(elements)
             self.generic.append(db_fun)
             self.generic_context['generic'].update(db_variables['generic'])
+            self.by_context['generic'].update(db_variables['by'])
             elements = {}
         return elements, db_variables
 
-- 
2.43.0


From 3427b4f43c5adcfe8c4e3ce3f9cbe085f1e13669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 08/51] fix: _AX is for columns determined by on, _AB by across

---
 ABXpy/sideop/side_operations_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/sideop/side_operations_manager.py b/ABXpy/sideop/side_operations_manager.py
index 7527926..8f39db8 100644
--- a/ABXpy/sideop/side_operations_manager.py
+++ b/ABXpy/sideop/side_operations_manager.py
@@ -164,8 +164,8 @@ class SideOperationsManager(object):
         for r, s in elements:
             C1 = (s in ['_1', '_2'] and
                   not(r in self.on_cols or r in self.across_cols))
-            C2 = s == '_AX' and not(r in self.across_cols)
-            C3 = s == 'AB' and not(r in self.on_cols)
+            C2 = s == '_AX' and not(r in self.on_cols)
+            C3 = s == '_AB' and not(r in self.across_cols)
             if C1:
                 raise valueError(errC1, onAndAcross)
             if C2:
-- 
2.43.0


From c9dfb7899b1523d06d618846247d8196f7ea79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 09/51] fix: reorder A regressors along with the triplets

---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index e967d62..a3a8a19 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1143,7 +1143,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From 9adf5c376bcabbc100324d92b4ca2ccaa5e50775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 10/51] fix: fit the triplets type on the item indexes it
 stores

---
 ABXpy/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index a3a8a19..6fd3731 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -745,7 +745,10 @@ class Task(object):
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(max(
+                    [self.total_n_triplets] +
+                    [np.max(db.index.values)
+                     for db in itervalues(self.by_dbs)])),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
-- 
2.43.0


From e1ca9a6eb7142700c387ef8ea78541681762ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 11/51] fix: sample positions in threshold blocks with a large
 enough type

---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 6fd3731..568c519 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -619,7 +619,7 @@ class Task(object):
                     # function...
                     thr_sort_permut, on_across_block_index = (
                         sort_and_threshold(
-                            permut, new_index, reg_ind_type,
+                            permut, new_index, np.int64,
                             threshold=self.threshold))
                     triplets = triplets[thr_sort_permut]
                 else:
-- 
2.43.0


From 86df095b1c7c826312eba21a7f612883e20d24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 12/51] fix: order of default regressors does not depend on
 hash randomization

---
 ABXpy/sideop/regressor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sideop/regressor_manager.py b/ABXpy/sideop/regressor_manager.py
index 98aa6a5..7a524e5 100644
--- a/ABXpy/sideop/regressor_manager.py
+++ b/ABXpy/sideop/regressor_manager.py
@@ -21,7 +21,7 @@ class RegressorManager(side_operations_manager.SideOperationsManager):
         default_regressors = [on[0] + '_1', on[0] + '_2']
         # check if no across were specified
         if not(self.across_cols == set(["#across"])):
-            for col in self.across_cols:
+            for col in sorted(self.across_cols):
                 default_regressors.append(col + '_1')
                 default_regressors.append(col + '_2')
         # FIXME add default regressors only if they are not already specified ?
-- 
2.43.0


From 187bcf1eb3de9f1f936bc9731e3050a3aa22963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 13/51] fix: group triplets by regressors without overflow or
 rounding

---
 ABXpy/analyze.py | 15 +++++++--------
 ABXpy/task.py    | 12 +++++-------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..0b4c45c 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -33,8 +33,6 @@ import os.path as path
 import os
 import warnings
 
-from ABXpy.misc.type_fitting import fit_integer_type
-
 
 def npdecode(keys, max_ind):
     """Vectorized implementation of the decoding of the labels:
@@ -81,13 +79,14 @@ def collapse(scorefile, taskfile, fid):
         scores_arr = np.array(tmp)
         tmp = np.ascontiguousarray(indices).view(
             np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
+        indices = indices.astype(np.int64)
         n_indices = np.max(indices, 0) + 1
-        assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
-        ind_type = fit_integer_type(np.prod(n_indices),
-                                    is_signed=False)
         # encoding the indices of a triplet to a unique index
-        new_index = indices[:, 0].astype(ind_type)
+        new_index = indices[:, 0]
         for i in range(1, len(n_indices)):
+            # renumber the combinations found so far, so that the index
+            # cannot overflow
+            new_index = np.unique(new_index, return_inverse=True)[1]
             new_index = indices[:, i] + n_indices[i] * new_index
 
         permut = np.argsort(new_index)
@@ -97,8 +96,8 @@ def collapse(scorefile, taskfile, fid):
         sorted_index = new_index[permut]
         mean, unique_index, counts = unique(sorted_index, sorted_scores)
 
-        # retrieving the triplet indices from the unique index.
-        tmp = npdecode(unique_index, n_indices)
+        # retrieving the indices of each group from its first triplet
+        tmp = indices[np.unique(new_index, return_index=True)[1]]
 
         regs = tfrk['indexed_datasets']
         indexes = []
diff --git a/ABXpy/task.py b/ABXpy/task.py
index 568c519..5e49f33 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -598,14 +598,12 @@ class Task(object):
                     # FIXME how do we know that all regressors are in
                     # integer format here ? This is only guaranteed
                     # for indexed regressors...
-                    assert np.prod(n_regs) < 18446744073709551615, \
-                        "type not big enough"
-
-                    reg_ind_type = fit_integer_type(
-                        np.prod(n_regs), is_signed=False)
-
-                    new_index = regs[:, 0].astype(reg_ind_type)
+                    new_index = regs[:, 0]
                     for i in range(1, len(n_regs)):
+                        # renumber the combinations found so far, so
+                        # that the index cannot overflow
+                        new_index = np.unique(
+                            new_index, return_inverse=True)[1]
                         new_index = regs[:, i] + n_regs[i] * new_index
 
                     permut = np.argsort(new_index)
-- 
2.43.0


From c0c7931f467d80c7c22402417270794050bed450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 14/51] fix: store non-ASCII labels in task files

---
 ABXpy/h5tools/h5io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 8f54dc3..92051cf 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -360,7 +360,8 @@ def get_dtype(data):
 
 def get_array(data):
     if isinstance(data[0], str):
-        return np.array(data, dtype='S')
+        # object dtype, for variable length (possibly non-ASCII) strings
+        return np.array(data, dtype=object)
     return data
 
 
-- 
2.43.0


From ba32d0ebccbc11b3d2c857b8adca246367eb820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 15/51] fix: find the header of the results when by labels
 contain a slash

---
 ABXpy/analyze.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 0b4c45c..b2021b3 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -153,8 +153,7 @@ def analyze(task_file, score_file, result_file):
     """
     with open(result_file, 'w+') as fid:
         taskfid = h5py.File(task_file, 'r')
-        aux = taskfid['regressors']
-        tfrk = aux[list(aux)[0]]
+        tfrk = taskfid['regressors'][taskfid['bys'][0]]
         regs = tfrk['indexed_datasets']
         string = u''
         for reg in regs:
-- 
2.43.0


From 398391a031328f0d367d39beaaaac51b6c06ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 16/51] fix: integer size for the blocks of distance jobs

---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..2e464fe 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -82,7 +82,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        buffer_max_size * 1000000 // 8)
     by = []
     start = []
     stop = []
-- 
2.43.0


From 4b2ad5a597b8ac6e31910467bd93ec9735b3e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 17/51] fix: mark the distance file as done when using several
 processes too

---
 ABXpy/distances/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 2e464fe..06f6907 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -324,8 +324,8 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From 56fd8cd7210cc0a7bdaec6a04333f56740261ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 18/51] fix: metrics do not modify the features they are given

---
 ABXpy/distances/metrics/cosine.py           |  4 ++--
 ABXpy/distances/metrics/kullback_leibler.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..d9a41b0 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,14 +38,14 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
         y = y + eps
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     res = __kl_divergence(x, y)
 
     if symmetrized:
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From fe318bb67374380ab1346f4806349bbbc8973ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 19/51] fix: default name of the score file

---
 ABXpy/score.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index a228e4f..6e03903 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -64,7 +64,8 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     if score_file is None:
         (basename_task, _) = os.path.splitext(task_file)
         (basename_dist, _) = os.path.splitext(distance_file)
-        score_file = basename_task + '_' + basename_dist + '.score'
+        score_file = (basename_task + '_' +
+                      os.path.basename(basename_dist) + '.score')
     # file verification:
     assert os.path.exists(task_file), 'Cannot find task file ' + task_file
     assert os.path.exists(distance_file), ('Cannot find distance file ' +
@@ -137,7 +138,7 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if os.path.exists(args.score):
+    if args.score and os.path.exists(args.score):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 0cc2acb407081b687d07318ba231019a8121df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 20/51] fix: example distances pass the normalization mode to
 dtw

---
 ABXpy/distances/example_distances.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/example_distances.py b/ABXpy/distances/example_distances.py
index 3c39923..54be673 100644
--- a/ABXpy/distances/example_distances.py
+++ b/ABXpy/distances/example_distances.py
@@ -4,7 +4,7 @@ import ABXpy.distances.metrics.kullback_leibler as kullback_leibler
 import numpy as np
 
 
-def dtw_cosine(x, y):
+def dtw_cosine(x, y, normalized=True):
     """Dynamic time warping cosine distance
 
     The "feature" dimension is along the columns and the "time"
@@ -13,7 +13,7 @@ def dtw_cosine(x, y):
     """
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = dtw.dtw(x, y, cosine.cosine_distance)
+        d = dtw.dtw(x, y, cosine.cosine_distance, normalized)
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
@@ -23,10 +23,10 @@ def dtw_cosine(x, y):
     return d
 
 
-def dtw_kl_divergence(x, y):
+def dtw_kl_divergence(x, y, normalized=True):
     """Kullback-Leibler divergence"""
     if x.shape[0] > 0 and y.shape[0] > 0:
-        d = dtw.dtw(x, y, kullback_leibler.kl_divergence)
+        d = dtw.dtw(x, y, kullback_leibler.kl_divergence, normalized)
     elif x.shape[0] == y.shape[0]:
         d = 0
     else:
-- 
2.43.0


From 4432baf3040bacbf4761d2780c9bfcd05e29b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 21/51] fix: do not leak the descriptor of the temporary pairs
 file

---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 5e49f33..91b875c 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -862,7 +862,8 @@ class Task(object):
         n_pairs_dict = {}
         max_ind_dict = {}
         try:
-            _, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            os.close(fd)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
-- 
2.43.0


From 00e706cfb991771cf01037d0bec3ce9665896434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 22/51] fix: iterate over an IncrementalSampler with python 3

---
 ABXpy/sampling/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..0cc7e00 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -56,6 +56,8 @@ class IncrementalSampler(object):
             raise StopIteration
         return self.sample(self.step)
 
+    __next__ = next  # python 3
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From d37b055131f87e568f9b7ee50e238b37f0e9aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 23/51] fix: an empty chunk never gets the last sample

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 0cc7e00..25c5358 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -141,7 +141,7 @@ def hypergeometric_sample(N, K, n):
     """
     # handling edge cases
     if N == 0 or N == 1:
-        k = K
+        k = min(K, n)
     else:
         # using symmetries to speed up computations
         # if the probability of failure is smaller than the probability of
-- 
2.43.0


From 8c774f47844f4dbf4dd284ab484e4f981e320022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 24/51] fix: exact alignment in uniform time warping

---
 ABXpy/distances/metrics/utw.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/metrics/utw.py b/ABXpy/distances/metrics/utw.py
index 4cdbe1f..3d48f4a 100644
--- a/ABXpy/distances/metrics/utw.py
+++ b/ABXpy/distances/metrics/utw.py
@@ -38,10 +38,12 @@ def utw(x, y, div):
 def distance_coordinates(n1, n2):
     assert(n1 <= n2)
     l1 = np.arange(n2)
-    l2 = n1/np.float(n2)*(np.arange(n2)+0.5)
-    l3 = np.floor(l2).astype(np.int)
-    integers = np.where(l2 == l3)[0]
-    non_integers = np.where(l2 != l3)[0]
+    # position n1/n2*(j+0.5) in integer arithmetic: rounding errors would
+    # change which positions fall exactly between two frames
+    l2 = n1*(2*np.arange(n2)+1)
+    l3 = l2 // (2*n2)
+    integers = np.where(l2 == l3*2*n2)[0]
+    non_integers = np.where(l2 != l3*2*n2)[0]
     l3i = l3[integers]
     l1i = l1[integers]
     i_half = np.concatenate([l3i-1, l3i])
-- 
2.43.0


From 0686660ef535653cf824d4ece6e1541960e3c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 25/51] fix: levenshtein distance tells apart frames with the
 same hash

---
 ABXpy/distance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index cdb5a0e..25bf9e1 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -61,7 +61,12 @@ def edit_distance(x, y):
 
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = editdistance.eval(totuple(x), totuple(y))
+        # editdistance only compares hashes (e.g. -1 and -2 have the same
+        # one), so give an identifier to each distinct frame
+        ids = {}
+        d = editdistance.eval(
+            [ids.setdefault(frame, len(ids)) for frame in totuple(x)],
+            [ids.setdefault(frame, len(ids)) for frame in totuple(y)])
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
-- 
2.43.0


From 3d9f8f55abda1fd7a7b049b43c9b3c8da2aee29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 26/51] fix: custom distance modules whose path contains a dot

---
 ABXpy/distance.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index 25bf9e1..976b504 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -84,9 +84,7 @@ def run(features, task, output, normalized,
         elif distance=="dtw_kl":
             distancefun = dtw_kl_distance
         else:
-            distancepair = distance.split('.')
-            distancemodule = distancepair[0]
-            distancefunction = distancepair[1]
+            distancemodule, distancefunction = distance.rsplit('.', 1)
             path, mod = os.path.split(distancemodule)
             sys.path.insert(0, path)
             distancefun = getattr(__import__(mod), distancefunction)
-- 
2.43.0


From 40f91575ed1700609abb79b369d020cafb8ee375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 27/51] fix: verify features files written by current
 h5features

---
 ABXpy/verify.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..200a3ea 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -42,10 +42,14 @@ def check(item_file, features_file, verbose=0):
         assert cols[3][0] == '#', 'The fourth column must start with #'
         if verbose:
             print("Opening features file")
-        h5f = h5py.File(features_file)
-        files = h5f['features']['files'][:]
+        with h5py.File(features_file, 'r') as h5f:
+            group = h5f['features']
+            # name of the dataset in recent and old versions of h5features
+            files = group['items' if 'items' in group else 'files'][:]
         for line in f:
-            source = str.split(line, ' ')[0]
+            if not line.strip():
+                continue
+            source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From 74dc72d9343069a35a959682116e13fb43d44bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 28/51] fix: H5IO raw and fused datasets and iterators with
 python 3

---
 ABXpy/h5tools/h5io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 92051cf..aac5f6b 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -81,7 +81,7 @@ class H5IO(object):
                 raw_datasets = list(set(datasets).difference(indexed_datasets))
                 if raw_datasets:
                     g.create_dataset(
-                        'raw_datasets', data=raw_datasets, dtype=str_dtype)
+                        'raw_datasets', data=get_array(raw_datasets), dtype=str_dtype)
                 # indexed datasets
                 if indexed_datasets:
                     g.create_dataset(
@@ -100,12 +100,12 @@ class H5IO(object):
                 # fused datasets
                 if fused:
                     g.create_dataset(
-                        'fused_datasets', data=list(fused), dtype=str_dtype)
+                        'fused_datasets', data=get_array(list(fused)), dtype=str_dtype)
                     h = g.create_group('fused')
                     for name, fused_dsets in iteritems(fused):
                         i = h.create_group(name)
                         i.create_dataset(
-                            'datasets', data=fused_dsets, dtype=str_dtype)
+                            'datasets', data=get_array(fused_dsets), dtype=str_dtype)
                         nb_levels = [len(indexes[indexed_datasets_indexes[
                                          indexed_datasets.index(dset)]]) for dset in fused_dsets]
                         i.create_dataset(
@@ -190,7 +190,7 @@ class H5IO(object):
         # if necessary, instantiate datasets
         if self.is_empty:
             if iterate:
-                sample_data = data.next()
+                sample_data = next(data)
             else:
                 sample_data = data
             self.__initialize_datasets__(sample_data)
-- 
2.43.0


From 6f1c76196484ce30b568bb5abe8f3d41f7249104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 29/51] fix: reload a H5IO file with fused datasets

---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index aac5f6b..43e0ae2 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -154,7 +154,7 @@ class H5IO(object):
                         g['fused'][fused_dataset]['datasets'][...])
                     if fused_dataset + '/key_weights' in g['fused']:
                         self.key_weights[fused_dataset] = g['fused'][
-                            fused_dataset]['key_weigths'][...]
+                            fused_dataset]['key_weights'][...]
                     else:
                         self.nb_levels[fused_dataset] = g['fused'][
                             fused_dataset]['nb_levels'][...]
-- 
2.43.0


From e783eddccf910b1e6cfa973d92f04a85912ea5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 30/51] fix: H5IO datasets sharing an index

---
 ABXpy/h5tools/h5io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 43e0ae2..29bb5a8 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -258,8 +258,10 @@ class H5IO(object):
         # encoded in the same matrix
         if self.non_fused_datasets:
             indexed_dims = [dims[dset] for dset in self.non_fused_datasets]
-            indexed_levels = [len(self.indexes[dset])
-                              for dset in self.non_fused_datasets]
+            indexed_levels = [
+                len(self.indexes[self.indexed_datasets_indexes[
+                    self.indexed_datasets.index(dset)]])
+                for dset in self.non_fused_datasets]
             dim = sum(indexed_dims)
             # smallest unsigned integer dtype compatible with all
             # indexed_datasets
-- 
2.43.0


From a49b5f42e36c5a6c1120bad209da579112a0ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 31/51] fix: H5IO rejects fused datasets that need keys over 64
 bits

---
 ABXpy/h5tools/h5io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 29bb5a8..213327e 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -280,8 +280,11 @@ class H5IO(object):
         for fused_dset in self.fused_datasets:
             fused_dims = np.array(
                 [dims[dset] for dset in self.fused_members[fused_dset]], dtype=np.uint64)
-            max_key = np.prod(
-                self.nb_levels[fused_dset] ** fused_dims) - np.uint64(1)
+            # python integers, which cannot overflow
+            max_key = 1
+            for n, d in zip(self.nb_levels[fused_dset], fused_dims):
+                max_key *= int(n) ** int(d)
+            max_key -= 1
             if max_key >= 2 ** 64:
                 raise ValueError('fused dataset %s in file %s cannot be created because 64 bits keys are not sufficient to cover all possible combinations of the fused datasets' % (
                     fused_dset, self.filename))
-- 
2.43.0


From a9de0494e03811a6b421d77bdd4891885e975183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 32/51] fix: remove partially written datasets after an error,
 as intended

---
 ABXpy/h5tools/np2h5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ABXpy/h5tools/np2h5.py b/ABXpy/h5tools/np2h5.py
index 9cf6fda..4c38a01 100644
--- a/ABXpy/h5tools/np2h5.py
+++ b/ABXpy/h5tools/np2h5.py
@@ -47,8 +47,9 @@ class NP2H5(object):
     def __exit__(self, eType, eValue, eTrace):
         try:
             if self.file_open:
-                for buf in self.buffers:
-                    buf.flush()
+                if eValue is None:
+                    for buf in self.buffers:
+                        buf.flush()
                 if self.manage_file:
                     self.file.close()
                     self.file_open = False
@@ -108,6 +109,7 @@ class NP2H5buffer(object):
             raise ValueError(
                 'Cannot overwrite a dataset without a specified fixed size')
         self.fixed_size = fixed_size
+        self.path = group + '/' + dataset
 
         # check type argument
         # dtype call is needed to access the itemsize attribute in case a
@@ -203,7 +205,7 @@ class NP2H5buffer(object):
 
     def delete(self):
         assert self.parent.file_open
-        del self.dataset
+        del self.parent.file[self.path]
 
     def iscomplete(self):
         if self.fixed_size:
-- 
2.43.0


From 67181724b8b44a7120ade7bbd05a59aa6015a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 33/51] fix: JS and Hellinger distances between single frames
 are matrices too

---
 ABXpy/distances/metrics/kullback_leibler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index d9a41b0..a59781a 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -80,7 +80,7 @@ def js_divergence(x, y, normalize=True):
         y * np.log(y), axis=1).reshape(y.shape[0], 1),
                   (1, x.shape[0])).transpose()
     res = 0.5 * (x_x - x_m) + 0.5 * (y_y - y_m)
-    return np.float64(res)
+    return np.float64(res).reshape(res.shape)
     # division by zero
 
 
@@ -108,7 +108,7 @@ def hellinger_distance(x, y):
     yy = np.tile(y, (x.shape[0], 1, 1))
     xx_yy = xx - yy
     res = np.sqrt(np.sum(xx_yy ** 2, axis=-1))
-    return np.float64((1. / np.sqrt(2)) * res)
+    return np.float64((1. / np.sqrt(2)) * res).reshape(res.shape)
 
 
 def is_distance(x, y):
-- 
2.43.0


From 02253e6aa70a22b369a17ff6fed78e3ad17f843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 34/51] fix: square root of the JS divergence of equal
 distributions is 0, not NaN

---
 ABXpy/distances/metrics/kullback_leibler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index a59781a..74d60cb 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -85,7 +85,8 @@ def js_divergence(x, y, normalize=True):
 
 
 def sqrt_js_divergence(x, y):
-    return np.sqrt(js_divergence(x, y))
+    # rounding errors can make the divergence of equal lines negative
+    return np.sqrt(np.maximum(js_divergence(x, y), 0))
 
 
 def hellinger_distance(x, y):
-- 
2.43.0


From ed5c01b8425b630533b2d8dc446b780d1227ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:42 +0000
Subject: [PATCH 35/51] fix: empty samples (K = 0) without an explicit step

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 25c5358..d4fb60e 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -42,7 +42,7 @@ class IncrementalSampler(object):
         # step used when iterating over the sampler
         if step is None:
             # 10**4 samples by iteration on average
-            self.step = 10 ** 4 * N // K
+            self.step = 10 ** 4 * N // max(K, 1)
         else:
             self.step = step
 
-- 
2.43.0


From 7f36d3452a15c15a4e8574d29465b02aa8ab5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 36/51] fix: refused computation marked existing distances as
 not done

---
 ABXpy/distances/distances.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 06f6907..26109cb 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -61,8 +61,9 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             total_n_pairs = fh['unique_pairs/data'].shape[0]
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
-        fh.attrs.create('done', False)
+        # first fail if there are distances in the file already
         g = fh.create_group('distances')
+        fh.attrs.create('done', False)
         g.create_dataset('data', shape=(total_n_pairs, 1), dtype=np.float)
     """
     #### Load balancing ####
-- 
2.43.0


From 3689233952055e597b350d7cbbb6c1c54bb548b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:34 +0000
Subject: [PATCH 37/51] fix: ABXrun.py runs the pipeline again (its calls
 followed an older API)

---
 bin/ABXrun.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/bin/ABXrun.py b/bin/ABXrun.py
index 0df5ad9..6c3b1f7 100755
--- a/bin/ABXrun.py
+++ b/bin/ABXrun.py
@@ -6,9 +6,7 @@ import json
 import os
 
 import ABXpy.task
-import ABXpy.distances.distances as distances
-import ABXpy.distances.metrics.cosine as cosine
-import ABXpy.distances.metrics.dtw as dtw
+import ABXpy.distance
 import ABXpy.score as score
 import ABXpy.analyze as analyze
 
@@ -24,10 +22,6 @@ def get_arg(key, args):
         return None
 
 
-def dtw_cosine_distance(x, y):
-    return dtw.dtw(x, y, cosine.cosine_distance)
-
-
 def test_analyze(itemfile, featurefile, args, taskfile=None, distance=None,
                  distancefile=None, scorefile=None, analyzefile=None,
                  filename=None):
@@ -49,6 +43,9 @@ def test_analyze(itemfile, featurefile, args, taskfile=None, distance=None,
                           str(across),
                           str(by)]))
 
+    if not taskfile:
+        taskfile = filename + '.abx'
+
     if not distancefile:
         distancefile = filename + '.distance'
 
@@ -58,18 +55,17 @@ def test_analyze(itemfile, featurefile, args, taskfile=None, distance=None,
     if not analyzefile:
         analyzefile = filename + '.csv'
 
-    task = ABXpy.task.Task(itemfile, on, across, by, filters, reg,
-                           features=featurefile)
-    task.generate_triplets()
+    task = ABXpy.task.Task(itemfile, on, across, by, filters, reg)
+    task.generate_triplets(taskfile)
 
-    if not distance:
-        distance = dtw_cosine_distance
-    distances.compute_distances(featurefile, '/features/', taskfile,
-                                distancefile, distance)
+    # the normalization parameter is only for the default (dtw) distance
+    ABXpy.distance.run(featurefile, taskfile, distancefile,
+                       normalized=None if distance else True,
+                       distance=distance)
 
     score.score(taskfile, distancefile, scorefile)
 
-    analyze.analyze(scorefile, taskfile, analyzefile)
+    analyze.analyze(taskfile, scorefile, analyzefile)
 
 
 def parse_args():
@@ -145,7 +141,7 @@ def main():
     featurefile = args['featurefile']
     assert os.path.exists(featurefile)
 
-    configfile = args['configfile']
+    configfile = args['config']
     assert os.path.exists(configfile)
 
     try:
@@ -176,7 +172,7 @@ def main():
     if not distance:
         distance = get_arg('distance', config)
 
-    filename = get_arg('filename', args)
+    filename = get_arg('name', args)
     if not filename:
         filename = get_arg('filename', config)
 
-- 
2.43.0


From 95e0e942545ae53da5a35662f2ce61f8fe935743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 38/51] fix: functions and generators of filter scripts could
 not see the names of the script

---
 ABXpy/dbfun/dbfun_compute.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ABXpy/dbfun/dbfun_compute.py b/ABXpy/dbfun/dbfun_compute.py
index cebe546..8bb7cf4 100644
--- a/ABXpy/dbfun/dbfun_compute.py
+++ b/ABXpy/dbfun/dbfun_compute.py
@@ -173,26 +173,26 @@ class DBfun_Compute(dbfun.DBfun):
     # function for evaluating the column function given data for the context
     # context is a dictionary with just the right name/content associations
     def evaluate(self, context):
-        # set up context
-        ns_local = context
-        ns_global = {}
+        # a single namespace: the functions, lambdas and generators of a
+        # script can use its imports, variables and columns
+        namespace = context
         # exec imports in that context
-        exec(self.import_bytecode, ns_global, ns_local)
+        exec(self.import_bytecode, namespace)
         # evaluate the calls to aux functions
         for node in self.code_nodes:
             # evaluate the arguments to the call
             aux_context = {}
             args = node['function'].in_names
             for code, arg in zip(node['child_bytecodes'], args):
-                aux_context[arg] = eval(code, ns_global, ns_local)
+                aux_context[arg] = eval(code, namespace)
             # call the aux function and assign it in the main namespace
-            ns_local[node['varname']] = node['function'].evaluate(aux_context)
+            namespace[node['varname']] = node['function'].evaluate(aux_context)
             # FIXME if aux files, could use the output_cols here ? and maybe
             # need to do it also in direct case for consistency ?
             # also is output format for vlen output going to work ?
         # exec main_bytecode
-        exec(self.main_bytecode, ns_global, ns_local)
-        return eval(self.final_bytecode, ns_global, ns_local)
+        exec(self.main_bytecode, namespace)
+        return eval(self.final_bytecode, namespace)
 
 
 # visitor class for getting the list of the names of the variables in expr
-- 
2.43.0


From e46f5b6e1939e65e539ebbaadabb1e555ccf4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 39/51] fix: item files with more fields than column names were
 read with shifted columns

---
 ABXpy/database/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 56f23a3..ef99d83 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -11,6 +11,9 @@ import ABXpy.misc.tinytree as tinytree
 def read_table(filename):
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python',
                          dtype={'#file': str})
+    # pandas takes the fields in excess of the header for an index
+    assert len(db) == 0 or isinstance(db.index, pandas.RangeIndex), (
+        'There are more fields than column names in file %s' % filename)
     # removes row with all null values (None or NaN...)
     db = db.dropna(how='all').reset_index(drop=True)
     return db
-- 
2.43.0


From 021bbbfe816d6485dfc686a4507cc4c1e793ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 40/51] fix: labels described twice in an auxiliary file gave
 items the place of others

---
 ABXpy/database/database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index ef99d83..533a793 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -96,7 +96,9 @@ def load_aux_dbs(basename, db, cols, mainfile):
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-                db = pandas.merge(db, auxdb, on=col, how='left')
+                # several rows for the same label would shift the items
+                db = pandas.merge(db, auxdb, on=col, how='left',
+                                  validate='many_to_one')
         # verbose print("  Read auxiliary File '"+auxfile+"'. Defined
         # conditions: "+str(newcol[1:len(newcol)])+" on key '"+newcol[0]+"'")
         except IOError:
-- 
2.43.0


From 94dc69e941df62008f4796ec01803d886c6aead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 41/51] fix: onsets and offsets with many digits were rounded

---
 ABXpy/database/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 533a793..7f2659e 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -9,8 +9,10 @@ import ABXpy.misc.tinytree as tinytree
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
 def read_table(filename):
+    # onset and offset are read as text because pandas rounds the numbers
+    # that have many digits
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python',
-                         dtype={'#file': str})
+                         dtype={'#file': str, 'onset': str, 'offset': str})
     # pandas takes the fields in excess of the header for an index
     assert len(db) == 0 or isinstance(db.index, pandas.RangeIndex), (
         'There are more fields than column names in file %s' % filename)
@@ -48,7 +50,8 @@ def load(filename, features_info=False):
     assert len(l) == 2, (
         'Exactly two column names in the database main file must be'
         ' prefixed with a # (sharp)')
-    feat_db = db[db.columns[:l[1]]]
+    feat_db = db[db.columns[:l[1]]].astype(
+        {'onset': float, 'offset': float}, errors='ignore')
     db = db[db.columns[l[1]:]]
     # verbose print("  Read input File '"+filename+"'. Defined conditions:
     # "+str(newcolumns[attrI:len(columns)]))
-- 
2.43.0


From 428cf137660d3b597ae6077aecb4ab4a6fd65dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 42/51] fix: keep the empty by blocks in the task when its
 triplets are written

generate_triplets removed them from the by blocks but not from their
statistics, so that print_stats failed with a KeyError afterwards (and the
statistics computed again did not agree with the first ones).
---
 ABXpy/task.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 91b875c..87d7ce7 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -786,13 +786,11 @@ class Task(object):
                         by_block_indices.append(self.current_index)
                         bys.append(by)
 
-            # saving by index, deleting empty by blocks:
+            # saving by index, ignoring empty by blocks:
             aux = np.array(
                 by_block_indices,
                 dtype=fit_integer_type(by_block_indices[-1]))
             by_block_indices = np.hstack((aux[:-1, None], aux[1:, None]))
-            for by in empty_by_blocks:
-                del self.by_dbs[by]
 
             fh.file.create_dataset(
                 'bys', (aux.shape[0] - 1,),
@@ -808,7 +806,8 @@ class Task(object):
 
         with warnings.catch_warnings():
             warnings.simplefilter('ignore', tables.NaturalNameWarning)
-            self._generate_pairs(output, tmpdir=tmpdir)
+            self._generate_pairs(
+                output, tmpdir=tmpdir, empty_by_blocks=empty_by_blocks)
 
     def _compute_triplets(self, by, out, out_block_index,
                           out_regs, db, fh, by_values, display=None):
@@ -850,8 +849,11 @@ class Task(object):
 
     # FIXME clean this function (maybe do a few well-separated sub-functions
     # for getting the pairs and unique them)
-    def _generate_pairs(self, output=None, tmpdir=None):
+    def _generate_pairs(self, output=None, tmpdir=None, empty_by_blocks=()):
         """Generate the pairs associated to the triplet list"""
+        # the by blocks without triplets are not in the output file
+        by_dbs = {by: db for by, db in iteritems(self.by_dbs)
+                  if by not in empty_by_blocks}
 
         # FIXME change this to a random file name to avoid overwriting problems
         # default name for output file
@@ -864,7 +866,7 @@ class Task(object):
         try:
             fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
             os.close(fd)
-            for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
+            for n_by, (by, db) in enumerate(iteritems(by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
                 with h5py.File(output, 'a') as fh:
@@ -970,7 +972,7 @@ class Task(object):
                 out_unique_pairs = f_out.add_dataset(
                     'unique_pairs', 'data', n_rows=n_rows, n_columns=1,
                     item_type=np.int64, fixed_size=False)
-                for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
+                for n_by, (by, db) in enumerate(iteritems(by_dbs)):
                     triplets_attrs = f_out.file['/triplets']['by_index'][n_by]
                     if triplets_attrs[0] == triplets_attrs[1]:
                         # subdataset is empty
-- 
2.43.0


From e656ef21e12aa1864b4c01913ffcd30c947ebe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 43/51] fix: weights of fused datasets overflow when the last
 dataset has one level

With e.g. 256 levels in the first dataset and only one in the last, the keys
fit in 8 bits but not the weight of the last dataset (256), which was stored
as 0: the keys could not be decoded.
---
 ABXpy/h5tools/h5io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 213327e..1c48352 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -288,8 +288,12 @@ class H5IO(object):
             if max_key >= 2 ** 64:
                 raise ValueError('fused dataset %s in file %s cannot be created because 64 bits keys are not sufficient to cover all possible combinations of the fused datasets' % (
                     fused_dset, self.filename))
-            # smallest unsigned integer dtype compatible
-            d_type = type_fitting.fit_integer_type(max_key, is_signed=False)
+            # smallest unsigned integer dtype compatible, for the keys and for
+            # their weights (that of a last dataset with only one level is
+            # max_key + 1)
+            max_weight = max_key + (int(self.nb_levels[fused_dset][-1]) == 1)
+            d_type = type_fitting.fit_integer_type(
+                max_weight, is_signed=False)
             # FIXME at some point should become super.add_dataset(...)
             self.out[fused_dset] = self.np2h5.add_dataset(
                 self.group, fused_dset, n_columns=1, item_type=d_type, fixed_size=False)
-- 
2.43.0


From 5d7d0314756e00723551293524c361f11c6d3f63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:56:10 +0000
Subject: [PATCH 44/51] fix: buffers smaller than one row hang or fail

Buffered writing never ended, buffered reading divided by zero and
sorting ran forever or failed on an assertion when the requested buffer
was smaller than a row of the dataset. Buffers now hold at least one row.
---
 ABXpy/h5tools/h52np.py      |  4 ++--
 ABXpy/h5tools/h5_handler.py | 16 ++++++----------
 ABXpy/h5tools/np2h5.py      |  4 ++--
 3 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/ABXpy/h5tools/h52np.py b/ABXpy/h5tools/h52np.py
index 34fda70..b399357 100644
--- a/ABXpy/h5tools/h52np.py
+++ b/ABXpy/h5tools/h52np.py
@@ -105,7 +105,7 @@ class H52NPbuffer(object):
         # initialize buffer
         row_size = self.n_columns * self.type.itemsize / \
             1000.  # entry size in kilobytes
-        self.buf_len = int(round(buf_size / row_size))
+        self.buf_len = max(1, int(round(buf_size / row_size)))
         # buf_ix represents the number of free rows in the buffer. Here the
         # buffer is empty
         self.buf_ix = self.buf_len
@@ -243,7 +243,7 @@ class H5dataset2NPbuffer(H52NPbuffer):
         # initialize buffer
         row_size = self.n_columns * self.type.itemsize / \
             1000.  # entry size in kilobytes
-        self.buf_len = int(round(buf_size / row_size))
+        self.buf_len = max(1, int(round(buf_size / row_size)))
         # buf_ix represents the number of free rows in the buffer. Here the
         # buffer is empty
         self.buf_ix = self.buf_len
diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index cd51fc0..f9a8237 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -90,8 +90,9 @@ class H5Handler(object):
                         dset.shape[1] * dset.dtype.itemsize for dset in dsets]
                     self.dsets = dsets
                     self.line_weight = np.sum(dset_weights)
-                    buf_rows = int(
-                        round(buffer_size * 1000. / self.line_weight))
+                    # at least one row, as for the buffers below
+                    buf_rows = max(1, int(
+                        round(buffer_size * 1000. / self.line_weight)))
                     row = 0
                     n_chunks = 0
 
@@ -118,11 +119,7 @@ class H5Handler(object):
 
                             # create n_datasets*n_chunks input buffers
                             # number of rows
-                            i_buf_rows = int(round(buf_rows / n_chunks))
-                            # might need to set up an explicit case for dealing
-                            # with files that can fit in one chunk and remove
-                            # these asserts
-                            assert i_buf_rows > 0
+                            i_buf_rows = max(1, int(round(buf_rows / n_chunks)))
                             i_buf = []
                             for ix, (g, d) in enumerate(self.sources):
                                 buf1 = []
@@ -134,9 +131,8 @@ class H5Handler(object):
                                 i_buf.append(buf1)
 
                             # create n_datasets output buffers
-                            o_buf_rows = int(
-                                round(1000. * o_buffer_size / self.line_weight))
-                            assert o_buf_rows > 0
+                            o_buf_rows = max(1, int(
+                                round(1000. * o_buffer_size / self.line_weight)))
                             o_buf = []
                             for ix, (g, d) in enumerate(self.sources):
                                 buf_size = self.dtypes[
diff --git a/ABXpy/h5tools/np2h5.py b/ABXpy/h5tools/np2h5.py
index 4c38a01..575d59f 100644
--- a/ABXpy/h5tools/np2h5.py
+++ b/ABXpy/h5tools/np2h5.py
@@ -215,6 +215,6 @@ class NP2H5buffer(object):
         return test
 
 
-# item_size given in bytes, size_in_mem given in kilobytes
+# item_size given in bytes, size_in_mem given in kilobytes, at least one line
 def nb_lines(item_size, n_columns, size_in_mem):
-    return int(round(size_in_mem * 1000. / (item_size * n_columns)))
+    return max(1, int(round(size_in_mem * 1000. / (item_size * n_columns))))
-- 
2.43.0


From 064866a12c96d807987396b73d1dfd85fcf5482b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:56:10 +0000
Subject: [PATCH 45/51] fix: sorting datasets of the root group, or of nested
 groups

The temporary file was given groups that may already exist, the root one
or one created together with a group inside of it, which is an error.
---
 ABXpy/h5tools/h5_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index f9a8237..b4bff39 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -74,7 +74,7 @@ class H5Handler(object):
                     # because the tmp file is destroyed as soon as the 'with'
                     # statement is exited)
                     for g in np.unique(self.groups):
-                        tmp.create_group(g)
+                        tmp.require_group(g)
 
                     # initialize variables
                     self.tmp = tmp
-- 
2.43.0


From 42fdfad5e8d343cc98060b0781036627937fbc20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:56:10 +0000
Subject: [PATCH 46/51] fix: sorting datasets without rows

It failed with a division by zero.
---
 ABXpy/h5tools/h5_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index b4bff39..02786f1 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -84,6 +84,8 @@ class H5Handler(object):
                         raise IOError(
                             'First dimensions of all the datasets should be the same')
                     self.n_row = n_rows[0]
+                    if self.n_row == 0:
+                        return  # nothing to sort
                     self.n_columns = [dset.shape[1] for dset in dsets]
                     self.dtypes = [dset.dtype for dset in dsets]
                     dset_weights = [
-- 
2.43.0


From cdbd3c218701d474aff0fa98458f458d94200499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:21 +0000
Subject: [PATCH 47/51] fix: reading never ends when buffers are to be refilled
 once empty only

With a minimum occupied portion of 0 the buffer was never filled.
---
 ABXpy/h5tools/h52np.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ABXpy/h5tools/h52np.py b/ABXpy/h5tools/h52np.py
index b399357..39e14a7 100644
--- a/ABXpy/h5tools/h52np.py
+++ b/ABXpy/h5tools/h52np.py
@@ -155,9 +155,10 @@ class H52NPbuffer(object):
         if not(self.dataset_ix == self.n_rows):
             # for now one policy is implemented: if less than
             # self.minimum_occupied_portion of the full capacity is occupied
-            # the buffer is refilled
+            # the buffer is refilled, and always if it is empty
             occupied_portion = 1. - float(self.buf_ix) / float(self.buf_len)
-            if occupied_portion < self.minimum_occupied_portion:
+            if (occupied_portion < self.minimum_occupied_portion or
+                    self.buffer_empty()):
                 # set useful variables
                 curr_ix = self.dataset_ix
                 next_ix = curr_ix + self.buf_ix
@@ -260,9 +261,10 @@ class H5dataset2NPbuffer(H52NPbuffer):
         if not(self.dataset_ix == self.dataset_end):
             # for now one policy is implemented: if less than
             # self.minimum_occupied_portion of the full capacity is occupied
-            # the buffer is refilled
+            # the buffer is refilled, and always if it is empty
             occupied_portion = 1. - float(self.buf_ix) / float(self.buf_len)
-            if occupied_portion < self.minimum_occupied_portion:
+            if (occupied_portion < self.minimum_occupied_portion or
+                    self.buffer_empty()):
                 # set useful variables
                 curr_ix = self.dataset_ix
                 next_ix = curr_ix + self.buf_ix
-- 
2.43.0


From bbaaf1d101ebd50ac44762ebed2585e1c0c3de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:15 +0000
Subject: [PATCH 48/51] fix: numbers of A-X pairs and levels with several
 across columns

X must differ from A in all the across columns, but the statistics
counted as X the items that differ in at least one of them.
---
 ABXpy/task.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 87d7ce7..caad250 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -434,7 +434,13 @@ class Task(object):
                     else:
                         n_B = stats['across_levels'][across] - n_A
 
-                    n_X = n_X - n_A
+                    if isinstance(across, tuple):
+                        # X differs from A in all the across columns
+                        n_X = len(set(self.on_blocks[by].groups[on])
+                                  .intersection(
+                                      self.antiacross_blocks[by][across]))
+                    else:
+                        n_X = n_X - n_A
                     stats['nb_across_pairs'] += n_A * n_B
                     stats['nb_on_pairs'] += n_A * n_X
 
@@ -1053,8 +1059,12 @@ class Task(object):
                             list(set(B).difference(A)), dtype=self.types[by])
 
                     # remove X with the same 'across' than A
-                    X = np.array(
-                        list(set(X).difference(A)), dtype=self.types[by])
+                    if isinstance(across, tuple):
+                        X = set(X).intersection(
+                            self.antiacross_blocks[by][across])
+                    else:
+                        X = set(X).difference(A)
+                    X = np.array(list(X), dtype=self.types[by])
 
                     if B.size > 0 and X.size > 0:
                         # case were there was no across specified is different
-- 
2.43.0


From bb7ac5f6fedb1e1b5941e001395ab3632ea7d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:12 +0000
Subject: [PATCH 49/51] fix: csv_cmp found all files equal

It compared the results of list.sort(), which are None.
---
 ABXpy/misc/items.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/misc/items.py b/ABXpy/misc/items.py
index abf3f56..9b33527 100644
--- a/ABXpy/misc/items.py
+++ b/ABXpy/misc/items.py
@@ -102,7 +102,8 @@ def h5cmp(f1, f2):
 def csv_cmp(f1, f2, sep='\t'):
     """Returns True if the 2 CSV files are equals
 
-    The comparison is not sensitive to the columns order.
+    The comparison is not sensitive to the order of the columns, nor to
+    that of the lines.
 
     """
     csv1 = pandas.read_csv(f1, sep=sep)
@@ -111,4 +112,5 @@ def csv_cmp(f1, f2, sep='\t'):
     csv2 = pandas.read_csv(f2, sep=sep)
     csv2 = csv2.reindex(sorted(csv2.columns), axis=1)
 
-    return csv1.to_csv().split('\n').sort() == csv2.to_csv().split('\n').sort()
+    return (sorted(csv1.to_csv(index=False).split('\n')) ==
+            sorted(csv2.to_csv(index=False).split('\n')))
-- 
2.43.0


From 7d3df8a33469e95bbfc5033269091d26426d0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 50/51] fix: index values outside of their index were stored

---
 ABXpy/h5tools/h5io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 1c48352..3f7f3a1 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -310,13 +310,19 @@ class H5IO(object):
         if not(indexed):
             data = self.__compute_indexes__(data)
         data = self.__convert_input_data__(data)
+        # values outside of their index could not be decoded
+        for ix, dset in enumerate(self.indexed_datasets):
+            nb_levels = len(self.indexes[self.indexed_datasets_indexes[ix]])
+            if data[dset].size and not (
+                    0 <= data[dset].min() and data[dset].max() < nb_levels):
+                raise ValueError(
+                    'Some values of dataset %s are outside of its index' % dset)
         # write raw data
         for dset in self.raw_datasets:
             # need type conversion sometimes here? (np.array(data[dset]))
             self.out[dset].write(data[dset])
         # write indexed data
         if self.non_fused_datasets:
-            # FIXME check that values are in correct range of index ?
             indexed_values = [data[dset] for dset in self.non_fused_datasets]
             # need type conversion sometimes here?
             self.out['indexed'].write(np.concatenate(indexed_values, axis=1))
-- 
2.43.0


From 93ec46cb3bb4393fab226626e6abd9ad445c0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 51/51] fix: numbers and text in an item file and its auxiliary
 files

---
 ABXpy/database/database.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 7f2659e..20a780c 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -8,11 +8,12 @@ import ABXpy.misc.tinytree as tinytree
 
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
-def read_table(filename):
+def read_table(filename, text=()):
     # onset and offset are read as text because pandas rounds the numbers
     # that have many digits
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python',
-                         dtype={'#file': str, 'onset': str, 'offset': str})
+                         dtype={c: str for c in [
+                             '#file', 'onset', 'offset', *text]})
     # pandas takes the fields in excess of the header for an index
     assert len(db) == 0 or isinstance(db.index, pandas.RangeIndex), (
         'There are more fields than column names in file %s' % filename)
@@ -93,6 +94,17 @@ def load_aux_dbs(basename, db, cols, mainfile):
                     'First column name in file %s'
                     ' is %s. It should be %s instead.' % (
                         auxfile, auxdb.columns[0], col))
+                # numbers cannot be merged with text
+                types, auxtypes = [set(d[col].dropna().map(type))
+                                   for d in (db, auxdb)]
+                if str in auxtypes and str not in types:
+                    # keep the labels of the same type as those in use
+                    auxdb[col] = auxdb[col].map(
+                        {'True': True, 'False': False}.get if bool in types
+                        else lambda x: pandas.to_numeric(x, errors='coerce'))
+                    auxdb = auxdb.dropna(subset=[col]).reset_index(drop=True)
+                elif str in types and str not in auxtypes:
+                    auxdb = read_table(auxfile, text=[col])
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
                     basename, auxdb, auxdb.columns[1:], mainfile)
-- 
2.43.0

