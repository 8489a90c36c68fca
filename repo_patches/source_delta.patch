From 94ae742e31322e51912af9e39611d52c298fbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 01/14] fix: classification pair classification no longer
 accumulates score thresholds

---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..224333a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,9 +287,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 8e4f4b861abb7d4b0ee33e0bfa404fda8c265f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 02/14] fix: classification accuracy divides by the number of
 filtered datums

---
 src/valor_lite/classification/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..5bd410b 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,7 +593,7 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
+        n_datums = self.get_info(datums=datums).number_of_datums
         n_labels = self.info.number_of_labels
 
         # intermediates
-- 
2.43.0


From 10f23f124cde041685f99744decd2834ae9847ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 03/14] fix: segmentation overlap resolution accounts for
 partially overlapped masks

---
 src/valor_lite/semantic_segmentation/annotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..b5cce6f 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,6 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
+                mask_accumulation = mask_accumulation | bitmask.mask
             else:
                 mask_accumulation = mask_accumulation | bitmask.mask
         if (
-- 
2.43.0


From 79be97c6f36891aea97ebb2cfb58165c3ac86199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 04/14] fix: segmentation pixels of repeated labels are
 accumulated instead of overwritten

---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..17fbaa3 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # accumulate as labels may be repeated
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix,
+        (0, prediction_labels + 1),
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix,
+        (groundtruth_labels + 1, 0),
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From 562c23a26a018476567ab21249cfff195b73cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 05/14] fix: ROC curve starts from the origin when the first
 ranked scores contain negatives

---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 224333a..64c5621 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,7 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0 or fps[0] > 0:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 7f82649fdb0e1d53d8b2411b5653f837f7dbca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 06/14] fix: compare label indices exactly so large indices are
 not conflated

---
 src/valor_lite/classification/computation.py   | 4 ++--
 src/valor_lite/object_detection/computation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 64c5621..95d7de3 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -132,7 +132,7 @@ def compute_counts(
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
 
-    mask_matching_labels = np.isclose(gt_labels, pd_labels)
+    mask_matching_labels = gt_labels == pd_labels
     mask_score_nonzero = ~np.isclose(scores, 0.0)
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
@@ -286,7 +286,7 @@ def compute_pair_classifications(
         dtype=np.uint8,
     )
 
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..ae524dd 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -210,7 +210,7 @@ def rank_pairs(
     indices = np.where(mask_predictions)[0]
 
     # find best fits for prediction
-    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])
+    mask_label_match = pairs[:, 3] == pairs[:, 4]
     matched_predictions = np.unique(pairs[mask_label_match, 2])
 
     mask_unmatched_predictions = ~np.isin(pairs[:, 2], matched_predictions)
@@ -401,7 +401,7 @@ def compute_counts(
 
     mask_score_nonzero = scores > EPSILON
     mask_gt_exists = gt_ids >= 0.0
-    mask_labels_match = np.isclose(gt_labels, pd_labels)
+    mask_labels_match = gt_labels == pd_labels
 
     mask_gt_exists_labels_match = mask_gt_exists & mask_labels_match
 
@@ -738,7 +738,7 @@ def compute_pair_classifications(
 
     mask_gt_exists = gt_ids > -0.5
     mask_pd_exists = pd_ids > -0.5
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > EPSILON
     mask_iou_nonzero = ious > EPSILON
 
-- 
2.43.0


From 933874282328d9ccbc538cb85c1a01b159a6acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 07/14] fix: context recall handles ground truths without
 statements

---
 src/valor_lite/text_generation/computation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..42e80de 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -313,6 +313,8 @@ def calculate_context_recall(
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
+            if verdicts
+            else 0.0
         )
 
     return max(scores)
-- 
2.43.0


From e87f51a441552bff199a9234e05017696bac0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 08/14] fix: unhashable verdicts are rejected as invalid LLM
 responses

---
 src/valor_lite/text_generation/llm/validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..2e1311b 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,9 +59,9 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
-        elif (
-            allowed_values is not None
-            and value["verdict"] not in allowed_values
+        elif allowed_values is not None and (
+            not isinstance(value["verdict"], str)
+            or value["verdict"] not in allowed_values
         ):
             raise InvalidLLMResponseError(
                 f"LLM response contains verdicts from outside the allowed set {allowed_values}: {response}"
-- 
2.43.0


From 2fc399a260958654c0bf82c7131cac18f78e7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 09/14] fix: a pagination limit of zero returns no rows

---
 src/valor_lite/cache/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..167e5d7 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -170,7 +170,7 @@ def paginate_index(
     Note this function expects unqiue keys to be fragment-aligned.
     """
     total = source.count_rows()
-    limit = limit if limit else total
+    limit = limit if limit is not None else total
 
     # pagination broader than data scope
     if offset == 0 and limit >= total:
-- 
2.43.0


From e782d250bca3025ab42a4411f36694577be53013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 10/14] fix: in-memory cache preserves write order when tables
 follow buffered rows

---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From 0634f55d30f0d3fc2d50d782f7d7788f6789bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:55 +0000
Subject: [PATCH 11/14] fix: detection recall points are binned with integer
 arithmetic

---
 src/valor_lite/object_detection/computation.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ae524dd..0d50dd1 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -480,14 +480,10 @@ def compute_counts(
         where=running_total_count > 0,
         out=precision,
     )
-    recall = np.zeros_like(running_total_count, dtype=np.float64)
-    np.divide(
-        running_tp_count,
-        running_gt_count,
-        where=running_gt_count > 0,
-        out=recall,
-    )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
+    # integer division as floating-point rounding can miss a recall point
+    recall_index = (
+        (100 * running_tp_count) // np.maximum(running_gt_count, 1)
+    ).astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From a882ceeba85694d199f64ccf22b3dcaf3aad47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:03 +0000
Subject: [PATCH 12/14] fix: sorting a multi-table cache into memory keeps and
 orders all rows

---
 src/valor_lite/cache/compute.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 167e5d7..cbdcfd0 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -142,19 +142,15 @@ def sort(
                 table_sort_override=table_sort_override,
             )
     else:
-        intermediate_sink = MemoryCacheWriter.create(
-            schema=sink.schema,
-            batch_size=sink.batch_size,
-        )
-        _merge(
-            source=source,
-            sink=sink,
-            intermediate_sink=intermediate_sink,
-            batch_size=batch_size,
-            sorting=sorting,
-            columns=columns,
-            table_sort_override=table_sort_override,
-        )
+        # an in-memory sink is a single table so sorted fragments are combined directly
+        sorted_tbls = []
+        for tbl in source.iterate_tables(columns=columns):
+            if table_sort_override is not None:
+                tbl = table_sort_override(tbl)
+            sorted_tbls.append(tbl)
+        if sorted_tbls:
+            sink.write_table(pa.concat_tables(sorted_tbls).sort_by(sorting))
+        sink.flush()
 
 
 def paginate_index(
-- 
2.43.0


From cf7de24a94542ef71c4337afbdff2b2c3eca2b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:18 +0000
Subject: [PATCH 13/14] fix: look up cache files literally when the cache path
 contains wildcard characters

---
 src/valor_lite/cache/persistent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..51e50ca 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -106,8 +106,9 @@ class FileCache:
         """
         if not self._path.exists():
             return []
+        directory = glob.escape(str(self._path))
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath) for filepath in glob.glob(f"{directory}/*.parquet")
         ]
 
 
-- 
2.43.0


From b53b981ef5bc96bd3a6d465fecf3c7c861c29f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 14/14] fix: keep the types of metadata fields when an
 evaluator is loaded from disk

---
 src/valor_lite/classification/evaluator.py        | 5 ++++-
 src/valor_lite/object_detection/evaluator.py      | 5 ++++-
 src/valor_lite/semantic_segmentation/evaluator.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 5bd410b..27dd533 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -392,7 +392,10 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             encoded_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_types)
+            metadata_fields = [
+                (name, reader.schema.field(name).type)
+                for name, _ in decode_metadata_fields(encoded_types)
+            ]
 
         return cls(
             reader=reader,
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..5842865 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -280,7 +280,10 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             encoded_metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_metadata_types)
+            metadata_fields = [
+                (name, detailed_reader.schema.field(name).type)
+                for name, _ in decode_metadata_fields(encoded_metadata_types)
+            ]
 
         return cls(
             detailed_reader=detailed_reader,
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 9eb34d1..8828858 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -227,7 +227,10 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(metadata_types)
+            metadata_fields = [
+                (name, reader.schema.field(name).type)
+                for name, _ in decode_metadata_fields(metadata_types)
+            ]
 
         return cls(
             reader=reader,
-- 
2.43.0

