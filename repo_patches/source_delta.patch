From dd531d8e44dd1678594275a98ff2b64f86240837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:49 +0000
Subject: [PATCH 001/115] fix: size the radius-neighbors target buffer from all
 queries, including the last

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5f7226a..510aa55 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1812,7 +1812,7 @@ neighbors<T>::predict_targets_rnn(da_int n_queries, da_int n_features, const T *
             // The size of the maximum number of neighbors for any query
             da_int max_n_neighbors = 0;
             max_n_neighbors = *std::max_element(temp_radius_neighbors_count.begin(),
-                                                temp_radius_neighbors_count.end() - 1);
+                                                temp_radius_neighbors_count.end());
             // Compute the predicted targets.
             // Depending on the indices of the neighbors, for each test data point return the
             // target of each of the neighbors.
-- 
2.43.0


From 4f2664c4da3644537575e91d8208a10b5f059bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:50 +0000
Subject: [PATCH 002/115] fix: write the manual outlier probability at the
 class index, not the label value

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 510aa55..8894940 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1366,7 +1366,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
@@ -1418,7 +1418,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
-- 
2.43.0


From c3049cc1fab8422652baf1d940ca8b38510123d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:50 +0000
Subject: [PATCH 003/115] fix: return the radius-neighbor counts of the
 computed queries when the result array is larger

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 8894940..dbe9ff4 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2281,14 +2281,15 @@ da_status neighbors<T>::radius_neighbors_compute_ball_tree(
 
 // Return the number of radius neighbors for each query point
 template <typename T>
-da_status neighbors<T>::radius_neighbors_count_internal(da_int n_count,
+da_status neighbors<T>::radius_neighbors_count_internal([[maybe_unused]] da_int n_count,
                                                         da_int *n_radius_neighbors) {
     da_int count = 0;
-    for (da_int i = 0; i < n_count - 1; i++) {
+    da_int n_queries = (da_int)radius_neighbors_count.size();
+    for (da_int i = 0; i < n_queries; i++) {
         n_radius_neighbors[i] = radius_neighbors_count[i];
         count += n_radius_neighbors[i];
     }
-    n_radius_neighbors[n_count - 1] = count;
+    n_radius_neighbors[n_queries] = count;
     return da_status_success;
 }
 
-- 
2.43.0


From 689309279059993bafd2343f2960dacba282a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:50 +0000
Subject: [PATCH 004/115] fix: clamp cancelled squared distances to zero in the
 tree searches

---
 source/core/nearest_neighbors/binary_tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 3edeaf1..48c7ff3 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -208,6 +208,9 @@ da_status binary_tree<Derived, NodeType>::compute_distance(T &dist, da_int index
             dist += X[i] * this->A[index_A + i * this->lda];
         }
         dist = X_norm + this->A_norms[index_A] - 2 * dist;
+        // Cancellation can produce a small negative value, whose square root is NaN
+        if (dist < 0.0)
+            dist = 0.0;
     } else {
         // Compute the distance matrix using the specified metric
         da_status status = ARCH::da_metrics::pairwise_distances::pairwise_distance_kernel(
-- 
2.43.0


From 7995148c9df6302f05eae5bf139c4da9453903b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 005/115] fix: merge the k-nearest results of the threads
 actually in the team

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index dbe9ff4..a30066a 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -616,6 +616,11 @@ da_status neighbors<T>::kneighbors_compute_brute_force(da_int n_queries,
             ldd, n_features, X_test, ldx_test, n_ind, n_dist, n_neigh, return_distance,  \
             n_threads, thread_D, thread_k_ind, thread_k_dist, thread_query_count)
     {
+        // The runtime may provide fewer threads than requested (e.g. OMP_THREAD_LIMIT):
+        // only the storage of the threads in the team is filled in
+#pragma omp single
+        n_threads = omp_get_num_threads();
+
         da_int this_thread = omp_get_thread_num();
         da_int local_error = 0;
         auto &this_D = thread_D[this_thread];
-- 
2.43.0


From a946aaeb88af47f71d1c81d49a1f4f315ef35990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:06 +0000
Subject: [PATCH 006/115] fix: merge the radius neighbors of the threads
 actually in the team

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index a30066a..7716dfb 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2137,6 +2137,10 @@ da_status neighbors<T>::radius_neighbors_compute_brute_force(
             X_test, ldx_test, X_train, ldx_train, neighbors_local_indices,               \
             neighbors_local_distances, internal_metric, p, n_threads, return_distances)
     {
+        // The team may be smaller than requested; only its results are merged
+#pragma omp single
+        n_threads = omp_get_num_threads();
+
         // Thread 0 can write to neighbors; all other threads need to use neighbors_local_indices
         da_int this_thread = omp_get_thread_num();
         da_int local_error = 0;
-- 
2.43.0


From 8a318db7a44c174ee1ac9735cb7e4192c5c8c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:23 +0000
Subject: [PATCH 007/115] fix: clamp cancelled squared distances to zero in the
 brute-force radius search

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 7716dfb..be3daad 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2182,6 +2182,13 @@ da_status neighbors<T>::radius_neighbors_compute_brute_force(
                         threading_error = 1;
                     }
 
+                    // Cancellation can leave a tiny negative squared distance, whose
+                    // square root would be NaN
+                    if (this->internal_metric == da_sqeuclidean_gemm)
+                        da_simd_math::clamp_nonneg_matrix(local_xtrain_block_size,
+                                                          local_xtest_block_size,
+                                                          this_D.data(), ldd);
+
                     // Iterate through the distance matrix and store the indices of the samples within the radius
                     for (da_int jj = 0; jj < local_xtest_block_size; jj++) {
                         for (da_int ii = 0; ii < local_xtrain_block_size; ii++) {
-- 
2.43.0


From 56c950d26900c8e9ee5e2eebe25904168b05a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:51 +0000
Subject: [PATCH 008/115] fix: let the CSV option 'row start' be set back to 0

---
 source/core/csv/tokenizer.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 43bd491..ba7ee93 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -626,9 +626,7 @@ void parser_store_skipped_row(parser_t *self, int64_t row) {
 
 int parser_set_skipfirstnrows(parser_t *self, int64_t nrows) {
     // self->file_lines is zero based so subtract 1 from nrows
-    if (nrows > 0) {
-        self->skip_first_N_rows = nrows - 1;
-    }
+    self->skip_first_N_rows = (nrows > 0) ? nrows - 1 : -1;
 
     return 0;
 }
-- 
2.43.0


From 1d474f8b57cfc2c6d319ba2aab9c065e9d178f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:49 +0000
Subject: [PATCH 009/115] fix: stop at a carriage return when backing up over
 the leading blanks of a CSV line

---
 source/core/csv/tokenizer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index ba7ee93..62280c7 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -871,10 +871,11 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
                     do {
                         --buf;
                         --i;
-                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf));
+                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf) &&
+                             !IS_CARRIAGE(*buf));
 
                     // reached a newline rather than the beginning
-                    if (IS_TERMINATOR(*buf)) {
+                    if (IS_TERMINATOR(*buf) || IS_CARRIAGE(*buf)) {
                         ++buf; // move pointer to first char after newline
                         ++i;
                     }
-- 
2.43.0


From cf4f589e9f8d42723da6e6f7ca2534630bfb9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:37 +0000
Subject: [PATCH 010/115] fix: check the allocation of a CSV string before
 clearing it

---
 source/core/csv/char_to_num.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index af07335..3ae53a7 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -728,11 +728,11 @@ inline da_status char_to_num([[maybe_unused]] parser_t *parser, const char *str,
     len = (*endptr) - p + 1;
 
     *store = (char *)malloc(sizeof(char) * (1 + len));
-    memset(*store, '\0', 1 + len);
 
     if (*store == NULL) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
+    memset(*store, '\0', 1 + len);
 
 /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
-- 
2.43.0


From 074410137ab90f4144d6ae325fb68f942c36ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:37 +0000
Subject: [PATCH 011/115] fix: check the allocations made when string columns
 of a CSV file are stored

---
 source/core/data_management/data_store.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/core/data_management/data_store.cpp b/source/core/data_management/data_store.cpp
index bd72d4a..6134f60 100644
--- a/source/core/data_management/data_store.cpp
+++ b/source/core/data_management/data_store.cpp
@@ -59,7 +59,14 @@ da_status data_store::raw_ptr_from_csv_columns<char **>(
     da_int ncols = end_column - start_column + 1;
     // Because char_to_num below uses calloc, we need to use calloc here too rather than new so deallocing is well-defined
     *bl = (char ***)calloc(1, sizeof(char **));
+    C_data = true;
+    if (*bl == nullptr)
+        return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Allocation error");
     **bl = (char **)calloc(nrows * ncols, sizeof(char *));
+    if (**bl == nullptr)
+        return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Allocation error");
     for (da_int i = 0; i < ncols; i++) {
         if (std::vector<char **> *char_col =
                 std::get_if<std::vector<char **>>(&(columns[start_column + i]))) {
@@ -82,7 +89,6 @@ da_status data_store::raw_ptr_from_csv_columns<char **>(
                             "Wrong data type detected unexpectedly");
         }
     }
-    C_data = true;
     return da_status_success;
 }
 } // namespace da_data
\ No newline at end of file
-- 
2.43.0


From f7a94070bd17b79f726f88f17fd7a6475ee8d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 012/115] fix: keep the empty first field of a CSV line that
 follows a skipped line ended by a carriage return

---
 source/core/csv/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 62280c7..9e122ec 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -1146,7 +1146,7 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL_NOP: // inside an ignored comment line
             self->state = START_RECORD;
             // \r line terminator -- parse this character again
-            if (c != '\n' && !IS_DELIMITER(c)) {
+            if (c != '\n') {
                 --i;
                 --buf;
             }
-- 
2.43.0


From 5d131f312b5ee2be0ac70547b88d2bc84edb45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 013/115] fix: do not free the caller's array when a CSV file
 with a header row cannot be parsed

---
 source/core/csv/read_csv.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 8d2f69a..7868188 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -60,8 +60,10 @@ inline da_status delete_string_array(char ***S, da_int n) {
 }
 
 template <typename T> inline void free_data(T **arr, [[maybe_unused]] da_int n) {
-    if (*arr)
+    if (*arr) {
         free(*arr);
+        *arr = nullptr;
+    }
 }
 
 inline void free_data(char ***arr, da_int n) {
@@ -139,6 +141,11 @@ inline da_status populate_data_array(csv_reader *csv, T **a, da_int *nrows, da_i
     uint64_t lines = parser->lines;
     uint64_t words_len = parser->words_len;
 
+    // Nothing the caller passed in may be used if an error occurs below
+    *nrows = 0;
+    *ncols = 0;
+    *a = nullptr;
+
     // Guard against empty CSV file
     if (lines == 0 || (parser->skip_footer && lines == 1)) {
         *nrows = 0;
-- 
2.43.0


From 23f970da1410b791d6af859b66e3a94990617ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 014/115] fix: report a CSV read error or a failed tokenizer
 instead of returning the rows read so far

---
 source/core/csv/parser.hpp   |  8 ++++----
 source/core/csv/read_csv.hpp | 12 +++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/core/csv/parser.hpp b/source/core/csv/parser.hpp
index 4805734..582dc8b 100644
--- a/source/core/csv/parser.hpp
+++ b/source/core/csv/parser.hpp
@@ -59,13 +59,13 @@ inline void *read_bytes(void *source, size_t nbytes, size_t *bytes_read, int *st
         *status = 0;           // LCOV_EXCL_LINE
         return (void *)buffer; // LCOV_EXCL_LINE
     } else {                   // Error handling
-        if (read_status == 0) {
-            *status = REACHED_EOF;
-            return (void *)buffer;
-        } else if (ferror(fp)) {
+        if (ferror(fp)) {
             *status = CALLING_READ_FAILED;
             free(buffer);
             return NULL;
+        } else if (read_status == 0) {
+            *status = REACHED_EOF;
+            return (void *)buffer;
         } else {
             return (void *)buffer;
         }
diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 7868188..d4589dd 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -102,9 +102,15 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
 
     istatus = tokenize_all_rows(parser, encoding_errors);
     if (istatus != 0) {
-        da_error(csv->err, da_status_memory_error,
-                 "Memory allocation failure"); // LCOV_EXCL_LINE
-        goto exit;                             // LCOV_EXCL_LINE
+        // LCOV_EXCL_START
+        if (ferror(fp))
+            status = da_error(csv->err, da_status_file_reading_error,
+                              "The CSV file could not be read");
+        else
+            status = da_error(csv->err, da_status_memory_error,
+                              "Memory allocation failure");
+        goto exit;
+        // LCOV_EXCL_STOP
     } else if (parser->skipped_lines != nullptr) {
         std::string buff;
         buff = "The following lines of the CSV file were ignored:\n";
-- 
2.43.0


From 8d39ecf407ab5c90605403189fd1c4ed6ddc032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:10 +0000
Subject: [PATCH 015/115] fix: do not count equal feature values twice when the
 left child is below the minimum size

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index aa49997..433310b 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -383,7 +383,7 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                             ns_left, ns_right, left_score, right_score, split_score,
                             ws.feature_values, ws, samp);
         if (ns_left < min_node_sample) {
-            ++sidx;
+            sidx = next_idx + 1;
             continue;
         }
         if (ns_right < min_node_sample)
-- 
2.43.0


From 24eec13df6c2bbcf17e86e1ff6663d9228aaf81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:10 +0000
Subject: [PATCH 016/115] fix: partition binned tree samples with the stride of
 the binned data

---
 .../decision_forest/tree/decision_tree_training_partition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index 6a3f8ff..d829d37 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -96,7 +96,7 @@ da_int decision_tree<T>::partition_samples_hist_ordered(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
@@ -120,7 +120,7 @@ da_int decision_tree<T>::partition_samples_hist_onevall(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
-- 
2.43.0


From 5cffa4410f53b4cd9284e9174af12b6b67e62b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:10 +0000
Subject: [PATCH 017/115] fix: follow one-vs-all splits when predicting tree
 probabilities

---
 source/core/decision_forest/tree/decision_tree_inference.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..2c3d778 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -152,7 +152,10 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
         da_int current_node_idx = 0;
         while (!current_node->is_leaf) {
             T feat_val = X_test_temp[ldx_test_temp * current_node->feature + i];
-            if (feat_val < current_node->x_threshold) {
+            bool go_left = current_node->prop == categorical_onevall
+                               ? (da_int)std::round(feat_val) == current_node->category
+                               : feat_val < current_node->x_threshold;
+            if (go_left) {
                 current_node_idx = current_node->left_child_idx;
                 current_node = &tree[current_node_idx];
             } else {
-- 
2.43.0


From 7c27bd1cecff5c2a860af9364620dffc67515fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:10 +0000
Subject: [PATCH 018/115] fix: consider every category in one-vs-all splits of
 binned data

---
 .../tree/decision_tree_training_split.hpp        | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 433310b..3414db4 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -277,11 +277,17 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
         else
             split_hist_ordered(nd, ns_left, ns_right, cat_start_idx, ws);
 
-        if (ns_left < min_node_sample || ns_left <= old_ns_left)
-            continue;
-        if (ns_right < min_node_sample)
-            break;
-        old_ns_left = ns_left;
+        if (prop == categorical_onevall) {
+            // the left samples of the categories are unrelated to each other
+            if (ns_left < min_node_sample || ns_right < min_node_sample)
+                continue;
+        } else {
+            if (ns_left < min_node_sample || ns_left <= old_ns_left)
+                continue;
+            if (ns_right < min_node_sample)
+                break;
+            old_ns_left = ns_left;
+        }
 
         T left_score = score_function(ns_left, n_class, ws.count_left_classes);
         T right_score = score_function(ns_right, n_class, ws.count_right_classes);
-- 
2.43.0


From ac27e284dfca587ef2d757f3d6f3a95a8d32ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:10 +0000
Subject: [PATCH 019/115] fix: weight the samples of one-vs-all splits in
 bootstrapped trees

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 3414db4..c1d0a31 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -333,7 +333,8 @@ void decision_tree<T>::split_raw_onevall(const node<T> &current_node, da_int fea
         da_int idx = samp[i];
         da_int c = y[idx];
         da_int cat = std::round(ws.feature_values[i]);
-        ws.cat_feat_table[cat * n_class + c]++;
+        ws.cat_feat_table[cat * n_class + c] +=
+            bootstrap ? bootstrap_sample_frequency[idx] : 1;
     }
 
     for (da_int cat = 0; cat < cat_feat[feat_idx]; cat++) {
-- 
2.43.0


From bf2fc2a9936bbc36286e611f9bab1098beb37d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 020/115] fix: choose between equal tree splits in feature
 order, not in thread order

---
 .../decision_forest/tree/decision_tree.hpp    |  7 ++-
 .../tree/decision_tree_handle_utilities.hpp   |  2 +
 .../tree/decision_tree_training_fit.hpp       | 45 ++++++++-----------
 .../tree/decision_tree_training_memory.hpp    |  3 +-
 4 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree.hpp b/source/core/decision_forest/tree/decision_tree.hpp
index 9cda925..6ea8aeb 100644
--- a/source/core/decision_forest/tree/decision_tree.hpp
+++ b/source/core/decision_forest/tree/decision_tree.hpp
@@ -134,10 +134,6 @@ template <typename T> struct split_workspace {
     // Local copy of samples_idx node range
     // (only allocated for sorting based splits)
     std::vector<da_int> samples_idx_local;
-
-    // Results
-    split<T> best_split;
-    std::vector<da_int> const_feats;
 };
 
 /* Compute the impurity of a node containing n_samples samples.
@@ -219,8 +215,11 @@ template <typename T> class decision_tree : public basic_handle<T> {
     // thread_workspace(n_thrads_split): per-thread workspaces for parallel feature evaluation
     //        When executed in serial, thread_workspaces[0] is used.
     // selected_features (n_features): pre-selected features for parallel split evaluation
+    // feature_splits, feature_is_const (nfeat_split): results for the selected features
     da_int n_threads_split = 1;
     std::vector<split_workspace<T>> thread_workspaces;
+    std::vector<split<T>> feature_splits;
+    std::vector<char> feature_is_const;
     std::vector<da_int> selected_features;
 
     // Random number generation
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index b57e1fc..7441308 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -138,6 +138,8 @@ template <typename T> void decision_tree<T>::clear_working_memory() {
     features_idx = std::vector<da_int>();
     selected_features = std::vector<da_int>();
     thread_workspaces = std::vector<split_workspace<T>>();
+    feature_splits = std::vector<split<T>>();
+    feature_is_const = std::vector<char>();
     if (X_temp) {
         delete[] (X_temp);
         X = nullptr;
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1bdabd5..8868dfc 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -362,13 +362,6 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     }
 
                     n_selected = fvar_idx;
-
-                    // Initialize thread workspaces
-                    for (da_int t = 0; t < n_threads_split; t++) {
-                        thread_workspaces[t].best_split.score = current_node.score;
-                        thread_workspaces[t].best_split.feat_idx = -1;
-                        thread_workspaces[t].const_feats.clear();
-                    }
                 }
             }
             // implicit barrier + flush: all threads see updated shared state.
@@ -398,11 +391,8 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
 
                 bool const_feat =
                     compute_best_split(current_node, feat_idx, local_sp, ws, samp);
-                if (const_feat) {
-                    ws.const_feats.push_back(feat_idx);
-                } else if (local_sp.score < ws.best_split.score) {
-                    ws.best_split.copy(local_sp);
-                }
+                feature_is_const[i] = const_feat;
+                feature_splits[i].copy(local_sp);
             }
 
             // Sequential section: reduce results, partition, add children
@@ -411,20 +401,23 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                 if (!done) {
                     node<T> &current_node = tree[node_idx];
                     // Reduce best splits and constant features
-                    for (da_int t = 0; t < n_threads_split; t++) {
-                        if (thread_workspaces[t].best_split.feat_idx != -1 &&
-                            thread_workspaces[t].best_split.score < best_split.score)
-                            best_split.copy(thread_workspaces[t].best_split);
-
-                        for (da_int cf : thread_workspaces[t].const_feats) {
-                            for (da_int j = 0; j < current_node.const_feat_idx; j++) {
-                                if (features_idx[j] == cf) {
-                                    current_node.const_feat_idx -= 1;
-                                    features_idx[j] =
-                                        features_idx[current_node.const_feat_idx];
-                                    features_idx[current_node.const_feat_idx] = cf;
-                                    break;
-                                }
+                    // in the order of selection: the result must not depend on which
+                    // thread evaluated which feature
+                    for (da_int i = 0; i < n_selected; i++) {
+                        if (!feature_is_const[i]) {
+                            if (feature_splits[i].feat_idx != -1 &&
+                                feature_splits[i].score < best_split.score)
+                                best_split.copy(feature_splits[i]);
+                            continue;
+                        }
+                        da_int cf = selected_features[i];
+                        for (da_int j = 0; j < current_node.const_feat_idx; j++) {
+                            if (features_idx[j] == cf) {
+                                current_node.const_feat_idx -= 1;
+                                features_idx[j] =
+                                    features_idx[current_node.const_feat_idx];
+                                features_idx[current_node.const_feat_idx] = cf;
+                                break;
                             }
                         }
                     }
diff --git a/source/core/decision_forest/tree/decision_tree_training_memory.hpp b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
index 1cce07d..137a6e4 100644
--- a/source/core/decision_forest/tree/decision_tree_training_memory.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
@@ -143,8 +143,9 @@ template <typename T> da_status decision_tree<T>::init_working_memory() {
             split_workspace<T> &ws = thread_workspaces[t];
             ws.count_left_classes.resize(n_class);
             ws.count_right_classes.resize(n_class);
-            ws.const_feats.resize(nfeat_split);
         }
+        feature_splits.resize(nfeat_split);
+        feature_is_const.resize(nfeat_split);
     } catch (std::bad_alloc &) {                                  // LCOV_EXCL_LINE
         return da_error_bypass(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                                "Memory allocation error");
-- 
2.43.0


From c0e37dfac49d54a049fdfd9f5e8ccda59aa80aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:36 +0000
Subject: [PATCH 021/115] fix: do not treat features that are constant in one
 child of a tree node as constant in the other

---
 .../tree/decision_tree_training_fit.hpp           | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 8868dfc..6fa9fdc 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -173,11 +173,6 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
                                                         split<T> &best_split) {
     node<T> &current_node = tree[node_idx];
 
-    // Project back the discovered constant features to the parent
-    if (node_idx > 0 &&
-        tree[current_node.parent_idx].const_feat_idx > current_node.const_feat_idx)
-        tree[current_node.parent_idx].const_feat_idx = current_node.const_feat_idx;
-
     // Split the node and add the 2 children
     if (best_split.feat_idx != -1) {
         current_node.is_leaf = false;
@@ -240,11 +235,6 @@ template <typename T> da_status decision_tree<T>::fit_serial() {
         da_int node_idx = get_next_node_idx();
         node<T> &current_node = tree[node_idx];
 
-        // update the constant features discovered by the sibling node if necessary
-        if (node_idx > 0 &&
-            tree[current_node.parent_idx].const_feat_idx < current_node.const_feat_idx)
-            current_node.const_feat_idx = tree[current_node.parent_idx].const_feat_idx;
-
         best_split.score = current_node.score;
         best_split.feat_idx = -1;
         if (node_idx > 0) {
@@ -322,11 +312,6 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     node_idx = get_next_node_idx();
                     node<T> &current_node = tree[node_idx];
 
-                    if (node_idx > 0 && tree[current_node.parent_idx].const_feat_idx <
-                                            current_node.const_feat_idx)
-                        current_node.const_feat_idx =
-                            tree[current_node.parent_idx].const_feat_idx;
-
                     best_split.score = current_node.score;
                     best_split.feat_idx = -1;
                     if (node_idx > 0) {
-- 
2.43.0


From 805ef190624f15c646847ff7b5f0e76ee4c25deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 022/115] fix: compare squared distances with the squared
 radius for the Minkowski metric of power 2 in DBSCAN

---
 source/core/nearest_neighbors/radius_neighbors.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index d5fa3a7..c80166b 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -63,12 +63,11 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
     std::vector<std::vector<T>> D;
 
     // For da_euclidean it is more efficient to use the squared distance
-    T eps_internal = (metric == da_euclidean_gemm) ? eps * eps : eps;
+    bool use_squared_distance =
+        metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0));
+    T eps_internal = use_squared_distance ? eps * eps : eps;
 
-    da_metric metric_internal =
-        (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)))
-            ? da_sqeuclidean_gemm
-            : metric;
+    da_metric metric_internal = use_squared_distance ? da_sqeuclidean_gemm : metric;
 
     try {
         D.resize(n_threads);
-- 
2.43.0


From c8f496e98ead6a86c717c3e1397fce42b9debbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 023/115] fix: keep the transposed DBSCAN data when an option
 is set after the data

---
 source/core/clustering/dbscan/dbscan.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 4bf7fb2..a7ed078 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -163,10 +163,7 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
 };
 
 template <typename T> void dbscan<T>::refresh() {
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-    }
+    // This is also called when an option is set, so the stored data must be kept
     this->model_trained = false;
     neighbors.clear();
     labels.clear();
@@ -182,6 +179,11 @@ da_status dbscan<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Guard against errors due to multiple calls using the same class instantiation
     refresh();
+    if (A_temp) {
+        delete[] (A_temp);
+        A_temp = nullptr;
+    }
+    initdone = false;
 
     da_status status =
         this->store_2D_array(n_samples, n_features, A_in, lda_in, &A_temp, &A, lda,
-- 
2.43.0


From 808a569fe09071844a8ed413e067435e1e79fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 024/115] fix: do not choose the k-d tree automatically for
 DBSCAN metrics it does not support

---
 source/core/clustering/dbscan/dbscan.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index a7ed078..bc210eb 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -255,8 +255,10 @@ template <typename T> da_status dbscan<T>::compute() {
     alg_internal = da_neighbors_types::nn_algorithm(algorithm);
     if (alg_internal == automatic) {
         // If the user has not specified an algorithm, we will use the k-d tree if the data is small
-        // in dimension and the Minkowski options allow it. Otherwise we will use brute force.
-        if (n_features <= 15 && !(metric_internal == da_minkowski && p < (T)1.0)) {
+        // in dimension and the metric allows it. Otherwise we will use brute force.
+        if (n_features <= 15 && metric_internal != da_cosine &&
+            metric_internal != da_sqeuclidean_gemm &&
+            !(metric_internal == da_minkowski && p < (T)1.0)) {
             alg_internal = kd_tree;
         } else {
             alg_internal = brute;
-- 
2.43.0


From d34c923981b02502e6c09590396a7a923fd64300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 025/115] fix: join DBSCAN clusters through core samples only
 and without a race in the parallel labelling

---
 source/core/clustering/dbscan/dbscan.cpp | 104 ++++++++++++++---------
 1 file changed, 63 insertions(+), 41 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index bc210eb..a6d9d0b 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -312,73 +312,95 @@ template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
                         "Memory allocation failed.");
     }
 
+    // duplicate_labels holds a disjoint-set forest over the core samples: each core sample points to
+    // a core sample of the same cluster with a smaller or equal index, and the roots (the lowest index of
+    // each cluster) point to themselves
     da_std::fill(labels.begin(), labels.end(), NOISE);
     da_std::fill(duplicate_labels.begin(), duplicate_labels.end(), NOISE);
 
+    // Find the root of a sample, halving the path to it on the way. Only roots are ever joined to another root,
+    // so it does no harm if several threads do this at the same time
+    auto find_root = [this](da_int sample) {
+        while (true) {
+            da_int parent, grandparent;
+#pragma omp atomic read
+            parent = duplicate_labels[sample];
+            if (parent == sample)
+                return sample;
+#pragma omp atomic read
+            grandparent = duplicate_labels[parent];
+            if (grandparent == parent)
+                return parent;
+#pragma omp atomic write
+            duplicate_labels[sample] = grandparent;
+            sample = grandparent;
+        }
+    };
+
 #pragma omp parallel default(none)                                                       \
     shared(labels, neighbors, n_clusters, n_core_samples, min_samples_m1, n_samples,     \
-               status, duplicate_labels, is_core_sample, next_id, remap)
+               status, duplicate_labels, is_core_sample, next_id, remap, find_root)
     {
 
-// Parallel loop to compute DBSCAN clusters
-#pragma omp for schedule(guided, 64)
+        // Each core sample starts as a cluster of its own
+#pragma omp for schedule(static)
         for (da_int i = 0; i < n_samples; i++) {
-            if (is_core_sample[i]) {
-                // This is a core point
-                da_int tmp_label_i;
-#pragma omp atomic read
-                tmp_label_i = labels[i];
-                if (i < tmp_label_i || tmp_label_i == NOISE) {
-#pragma omp atomic write
-                    // Assign it its own index as the cluster label - we will combine clusters later
-                    labels[i] = i;
-                }
+            if (is_core_sample[i])
+                duplicate_labels[i] = i;
+        }
 
-                // Loop through each point in the epsilon neighborhood of point i
-                auto &this_neighbor = neighbors[i];
-                for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
-                    da_int sample_point_j = this_neighbor[j];
-                    da_int tmp_label_j;
-#pragma omp atomic read
-                    tmp_label_j = labels[sample_point_j];
-                    // Record that i and j are in the same cluster
-                    if (i < sample_point_j)
-                        duplicate_labels[sample_point_j] = i;
-                    else
-                        duplicate_labels[i] = sample_point_j;
-
-                    if (i < tmp_label_j || tmp_label_j == NOISE) {
+        // Parallel loop to join the clusters of neighboring core samples
+#pragma omp for schedule(guided, 64)
+        for (da_int i = 0; i < n_samples; i++) {
+            if (!is_core_sample[i])
+                continue;
+            // Loop through each point in the epsilon neighborhood of point i
+            auto &this_neighbor = neighbors[i];
+            da_int root = find_root(i);
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                da_int sample_point_j = this_neighbor[j];
+                // Border points do not connect clusters
+                if (!is_core_sample[sample_point_j])
+                    continue;
+                if (root != find_root(sample_point_j)) {
+#pragma omp critical(dbscan_join)
+                    {
+                        da_int root_i = find_root(i), root_j = find_root(sample_point_j);
+                        if (root_i != root_j) {
 #pragma omp atomic write
-                        labels[sample_point_j] = i;
+                            duplicate_labels[std::max(root_i, root_j)] =
+                                std::min(root_i, root_j);
+                        }
                     }
+                    root = find_root(i);
                 }
             }
         }
 
+        // Label the core samples by the lowest index in their cluster and the border points by the lowest
+        // such label among their core neighbors
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            da_int current_label = labels[i];
-            if (current_label == NOISE) {
+            if (is_core_sample[i]) {
+                labels[i] = find_root(i);
                 continue;
             }
-
-            // Follow the chain of labels to find the lowest one
-            while (duplicate_labels[current_label] != NOISE) {
-                current_label = duplicate_labels[current_label];
+            auto &this_neighbor = neighbors[i];
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                if (is_core_sample[this_neighbor[j]]) {
+                    da_int root = find_root(this_neighbor[j]);
+                    if (labels[i] == NOISE || root < labels[i])
+                        labels[i] = root;
+                }
             }
-
-            labels[i] = current_label;
         }
 
         // Relabel clusters to have consecutive numbering starting from 0
 #pragma omp single
         {
             for (da_int i = 0; i < n_samples; i++) {
-                da_int lab = labels[i];
-                if (lab == NOISE)
-                    continue;
-                if (remap[lab] == NOISE) {
-                    remap[lab] = next_id;
+                if (labels[i] == i) {
+                    remap[i] = next_id;
                     next_id++;
                 }
             }
-- 
2.43.0


From e432f3e5c0f4f381fb90c587d9adfc0e8db6bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 026/115] fix: clamp GEMM-based squared Euclidean distances at
 zero

Rounding can make the expanded form slightly negative for coincident
points; its square root was returned to the user as NaN (for example by
da_kmeans_transform).
---
 source/core/metrics/euclidean_gemm_distance.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/core/metrics/euclidean_gemm_distance.cpp b/source/core/metrics/euclidean_gemm_distance.cpp
index a096847..8cde45f 100644
--- a/source/core/metrics/euclidean_gemm_distance.cpp
+++ b/source/core/metrics/euclidean_gemm_distance.cpp
@@ -141,13 +141,16 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
             if (order == column_major) {
                 for (da_int j = 0; j < n; j++) {
                     for (da_int i = 0; i < m; i++) {
-                        D[i + j * ldd] += X_norms[i] + Y_norms[j];
+                        // Rounding errors must not make the squared distance negative
+                        T dist = D[i + j * ldd] + (X_norms[i] + Y_norms[j]);
+                        D[i + j * ldd] = std::max(dist, (T)0.0);
                     }
                 }
             } else {
                 for (da_int i = 0; i < m; i++) {
                     for (da_int j = 0; j < n; j++) {
-                        D[i * ldd + j] += X_norms[i] + Y_norms[j];
+                        T dist = D[i * ldd + j] + (X_norms[i] + Y_norms[j]);
+                        D[i * ldd + j] = std::max(dist, (T)0.0);
                     }
                 }
             }
@@ -185,13 +188,15 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
             if (order == column_major) {
                 for (da_int j = 0; j < m; j++) {
                     for (da_int i = 0; i <= j; i++) {
-                        D[i + j * ldd] += X_norms[i] + X_norms[j];
+                        T dist = D[i + j * ldd] + (X_norms[i] + X_norms[j]);
+                        D[i + j * ldd] = std::max(dist, (T)0.0);
                     }
                 }
             } else {
                 for (da_int j = 0; j < m; j++) {
                     for (da_int i = 0; i <= j; i++) {
-                        D[i * ldd + j] += X_norms[i] + X_norms[j];
+                        T dist = D[i * ldd + j] + (X_norms[i] + X_norms[j]);
+                        D[i * ldd + j] = std::max(dist, (T)0.0);
                     }
                 }
             }
-- 
2.43.0


From c91c87beefc3f0871c2372519ed8cbb0aac8103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 027/115] fix: MacQueen k-means uses the right distances to the
 centres

The initial assignment read the distance to cluster 0 from the wrong
place, and the iterations used the squared norms of the initial centres
instead of those of the updated ones.
---
 source/core/clustering/kmeans/kmeans_macqueen.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_macqueen.hpp b/source/core/clustering/kmeans/kmeans_macqueen.hpp
index 60b66d4..1a51c99 100644
--- a/source/core/clustering/kmeans/kmeans_macqueen.hpp
+++ b/source/core/clustering/kmeans/kmeans_macqueen.hpp
@@ -106,6 +106,16 @@ template <typename T> void kmeans<T>::init_macqueen() {
                     (*current_cluster_centres)[i + j * n_clusters] /= cluster_count[i];
             }
         }
+        // The iterations need the squared norms of the updated centres
+        for (da_int i = 0; i < n_clusters; i++) {
+            workc1[i] = (T)0.0;
+        }
+        for (da_int j = 0; j < n_features; j++) {
+            for (da_int i = 0; i < n_clusters; i++) {
+                tmp = (*current_cluster_centres)[i + j * n_clusters];
+                workc1[i] += tmp * tmp;
+            }
+        }
     }
 
     // Re-zero previous clusters, which were used temporarily here
@@ -134,8 +144,8 @@ void kmeans<T>::init_macqueen_block(da_int block_size, da_int block_index) {
                         n_clusters, &A[A_index], lda, (T)0.0, workcs1.data(), ldworkcs1);
 
     for (da_int i = block_index; i < block_index + block_size; i++) {
-        T smallest_dist = workcs1[i - block_index] + workc1[0];
         da_int index = (i - block_index) * ldworkcs1;
+        T smallest_dist = workcs1[index] + workc1[0];
         da_int label = 0;
         for (da_int j = 1; j < n_clusters; j++) {
             tmp_dist = workcs1[index + j] + workc1[j];
-- 
2.43.0


From 084f8929ff08557f7674d18e582810c89c76a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 028/115] fix: Hartigan-Wong considers every live cluster in
 the optimal transfer stage

AS 136 skips cluster L when neither L1 nor L is live; the test looked at
the best cluster so far instead of L, so it could stop short of a local
optimum.
---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index 650d4b9..b7dfda6 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -501,7 +501,7 @@ void optra(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int
   for possible transfer of point I.   Otherwise, we need to consider
   all possible clusters.
 */
-                if ((i < live[l1 - 1] || i < live[l2 - 1]) && l != l1 && l != ll) {
+                if ((i < live[l1 - 1] || i < live[l - 1]) && l != l1 && l != ll) {
                     rr = r2 / an2[l - 1];
 
                     dc = (T)0.0;
-- 
2.43.0


From 216c1ef167a0e89ac4273d51dcbf5ed0cc9bbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 029/115] fix: Hartigan-Wong reports at most max_iter
 iterations

---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index b7dfda6..88745fe 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -308,7 +308,7 @@ void kmns(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int i
   If the maximum number of iterations was taken without convergence,
   IFAULT is 2 now.  This may indicate unforeseen looping.
 */
-    *n_iter = ij;
+    *n_iter = std::min(ij, iter);
     /*
     if (*ifault == 2) {
         printf("\n");
-- 
2.43.0


From a71f56fa20dba6a9796d8541f22a3c1af93007d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 030/115] fix: Elkan k-means recomputes centre distances after
 splitting a cluster

The iteration after an empty cluster was split pruned with the distances
between the centres before the split, so rows kept a label that is not
their nearest centre.
---
 source/core/clustering/kmeans/kmeans.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 9102f60..1be7a85 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1319,6 +1319,8 @@ template <typename T> da_status kmeans<T>::handle_empty_clusters(bool &clusters_
         da_std::fill(works1.begin(), works1.end(), da_std::numeric_limits<T>::max());
         for (da_int i = 0; i < n_samples * ldworkcs1; i++)
             workcs1[i] = (T)0.0;
+        // The distances between centres are also out of date
+        compute_centre_half_distances();
     } else if (algorithm == macqueen) {
         // Recompute squared centre norms (workc1) used in GEMM distance
         da_utils::compute_squared_row_norms(column_major, n_clusters, n_features,
-- 
2.43.0


From e9d2435586e282deba8bd8027d2e8ce05f8c4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 031/115] fix: zero the norm workspace before normalizing
 spherical k-means centres

normalize_rows_inplace accumulates into it, and in the second of several
runs or on a handle used before it holds old values, so the initial
centres were not of unit length.
---
 source/core/clustering/kmeans/kmeans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 1be7a85..6cc44d2 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1479,8 +1479,9 @@ template <typename T> void kmeans<T>::initialize_centres() {
 
     // If doing spherical k-means, we need to normalize initialized centres
     // Centres are always in column-major order at this point (Elkan transposes separately)
-    // workc1 has been initialized to zeros earlier
+    // workc1 must be zero on entry to the normalization; it may hold values from an earlier run
     if (do_spherical) {
+        da_std::fill(workc1.begin(), workc1.begin() + n_clusters, (T)0.0);
         da_utils::normalize_rows_inplace(column_major, n_clusters, n_features,
                                          (*current_cluster_centres).data(), n_clusters,
                                          workc1.data());
-- 
2.43.0


From b90327e99aa0b5b068c051c1070e697860e0c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 032/115] fix: mixed precision k-means passes the order of its
 copy of the data

The low precision copy has the order the algorithm works in, not the
user's, so Elkan on column-major data read past the end of the copy and
transposed it wrongly.
---
 source/core/clustering/kmeans/kmeans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 6cc44d2..121bc66 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1854,7 +1854,8 @@ template <typename T> da_status kmeans<T>::lower_precision_init() {
         da_int lda_lp =
             (this->A_order == column_major) ? this->n_samples : this->n_features;
         kmeans<lp_type> km_float(
-            *this->err, this->A_order, this->order, this->algorithm, supplied, this->seed,
+            *this->err, this->A_order, this->A_order, this->algorithm, supplied,
+            this->seed,
             (lp_type)this->lp_tol, this->lp_max_iter, this->n_samples, this->n_features,
             this->n_clusters, 1, A_lp.data(), lda_lp, A_lp.data(), lda_lp, C_lp.data(),
             this->n_clusters, true, true, false, this->empty_cluster_handling,
-- 
2.43.0


From d8369621ad23462b91607da6e8ef03fc434ed457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 033/115] fix: save a row-major single-column training matrix
 with its leading dimension

serialize_user_data treated every one-column input as contiguous, so a
row-major n x 1 matrix with ldx > 1 was saved with its padding in place of its
values (kernel PCA and approximate neighbors). Vectors are now passed as
column-major by their callers.
---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 source/core/utilities/model_persistence.cpp         | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index be3daad..9f02a47 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2399,11 +2399,11 @@ template <typename T> da_status neighbors<T>::serialize(serialization_buffer &bu
                                             this->n_features, this->ldx_train);
         if (status != da_status_success)
             return status;
-        status = buffer.serialize_user_data(this->y_train_class, this->order,
+        status = buffer.serialize_user_data(this->y_train_class, column_major,
                                             this->n_samples, 1, this->n_samples);
         if (status != da_status_success)
             return status;
-        status = buffer.serialize_user_data(this->y_train_reg, this->order,
+        status = buffer.serialize_user_data(this->y_train_reg, column_major,
                                             this->n_samples, 1, this->n_samples);
         if (status != da_status_success)
             return status;
diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7851510..cbdf6e1 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -402,11 +402,6 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
                                                     da_int n, da_int ldx) {
     da_status status;
 
-    // For 1D input, force column-major handling so stride logic stays consistent.
-    if (n == 1) {
-        order = column_major;
-    }
-
     // Save element count first so the payload can be loaded as a vector<T>.
     // If nullptr make sure that the vector size saved is 0.
     da_int vector_size = X != nullptr ? m * n : 0;
-- 
2.43.0


From 7cee38fce983a44065f594c591bb882f2f7e1d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 034/115] fix: PCA resets the degrees of freedom when
 recomputed with unbiased estimators

---
 source/core/factorization/pca/pca.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 63beed6..3d1ac36 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -363,6 +363,7 @@ template <typename T> da_status pca<T>::compute() {
 
     std::string degrees_of_freedom;
     div = (n == 1) ? 1 : n - 1;
+    dof = 0;
     this->opts.get("degrees of freedom", degrees_of_freedom);
     if (degrees_of_freedom == "biased") {
         dof = -1;
-- 
2.43.0


From 3d160d8728bd47e00ae62b78cb1efdcb1980208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 035/115] fix: PCA inverse transform no longer overwrites
 all-zero stored means

da_standardize treats an all-zero shift or scale array as output, so inverting
with a model whose column means (or standard deviations) are zero recomputed
them from the reconstructed data, giving a wrong reconstruction and changing
the model.
---
 source/core/factorization/pca/pca.cpp | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 3d1ac36..488c62f 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -1031,21 +1031,21 @@ da_status pca<T>::inverse_transform(da_int k, da_int r, const T *X, da_int ldx,
                         inv_transform_operator, ld_inv_transform_operator, 0.0,
                         X_inv_transform, ldx_inv_transform);
 
-    // Undo the standardization used in the PCA computation
-    switch (method) {
-    case pca_method_cov:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), (T *)nullptr);
-        break;
-    case pca_method_corr:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), column_sdevs.data());
-        break;
-    default:
-        // No standardization is required
-        break;
+    // Undo the standardization used in the PCA computation. The stored means and standard
+    // deviations are applied directly: da_standardize would recompute (and overwrite) arrays
+    // that happen to be all zero.
+    if (method == pca_method_cov || method == pca_method_corr) {
+        for (da_int j = 0; j < p; j++) {
+            T scale = (method == pca_method_corr && column_sdevs[j] != (T)0.0)
+                          ? column_sdevs[j]
+                          : (T)1.0;
+            for (da_int i = 0; i < k; i++) {
+                T &x = (this->order == column_major)
+                           ? X_inv_transform[i + ldx_inv_transform * j]
+                           : X_inv_transform[j + ldx_inv_transform * i];
+                x = x * scale + column_means[j];
+            }
+        }
     }
 
     return da_status_success;
-- 
2.43.0


From eb009236875d36c9db63205b871f5c46ded1584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 036/115] fix: SVM support vectors are gathered with the
 leading dimension of the data

---
 source/core/svm/svm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index bf3cc1e..5416ddb 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -746,7 +746,7 @@ template <typename T> da_status svm<T>::compute() {
     for (da_int i = 0; i < n_sv; i++) {
         da_int current_idx = support_indexes[i];
         for (da_int j = 0; j < ncol; j++) {
-            support_vectors[i + j * n_sv] = X[current_idx + j * nrow];
+            support_vectors[i + j * n_sv] = X[current_idx + j * ldx_train];
         }
     }
 
-- 
2.43.0


From 7fc8b6c3dd1b7f1006b27b845d423150a42c61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 037/115] fix: SVM probability calibration no longer reads past
 the end of the data matrix

---
 source/core/svm/svm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 5416ddb..a5a73a8 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1258,7 +1258,8 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
             y_class[i] = classifier.idx_is_positive[i] ? 1.0 : 0.0;
         }
     } else {
-        X_class.assign(classifier.XUSR, classifier.XUSR + classifier.ldx * p);
+        X_class.assign(classifier.XUSR,
+                       classifier.XUSR + classifier.ldx * (p - 1) + n);
         y_class.resize(n);
         // Flip the sign here to match sklearn convention (0.0 is positive class, 1.0 negative)
         for (da_int i = 0; i < n; i++) {
-- 
2.43.0


From 57de128e9d6b0e8de60c14ae538c58b431c5f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 038/115] fix: SVM cross-validation classifiers carry the error
 object

A warning raised while training a fold (nu-SVC without free support vectors,
for instance) dereferenced a null error pointer.
---
 source/core/svm/svm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index a5a73a8..6d45a59 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1367,6 +1367,7 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
             fold_classifier->kernel_function = classifier.kernel_function;
             fold_classifier->cache_size = classifier.cache_size;
             fold_classifier->max_ws_size = classifier.max_ws_size;
+            fold_classifier->err = this->err;
 
             da_status fold_status = fold_classifier->compute();
             if (fold_status != da_status_success)
-- 
2.43.0


From 80c26f592cb3def44b10366eb81ed4a73eed88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 039/115] fix: SVM compute returns the status of a failed
 probability calibration

The status was overwritten by the training that follows, so asking for more
folds than samples, or running out of memory, left the probabilities unset
without an error.
---
 source/core/svm/svm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 6d45a59..f5a3f2f 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -577,6 +577,10 @@ template <typename T> da_status svm<T>::compute() {
 
         if (predict_proba_opt) {
             status = compute_probabilities(*classifiers[i], n_fold, probaA[i], probaB[i]);
+            // Convergence warnings leave usable (if less accurate) probabilities
+            if (status != da_status_success &&
+                status != da_status_numerical_difficulties && status != da_status_maxit)
+                return status;
         }
 
         if constexpr (da_fp16::fp16_codegen_ok<lp_type>) {
-- 
2.43.0


From fbffe2caa9daab395e25c27d32933508a9a674a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 040/115] fix: save the number of low precision iterations of
 an SVM

Asking a loaded model for da_svm_lp_n_iterations read an empty vector. The
serialization version of the SVM handle changes with its format.
---
 source/core/svm/svm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index f5a3f2f..081340e 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -63,6 +63,8 @@ template <typename T> svm<T>::svm(da_errors::da_error_t &err) : basic_handle<T>(
     // Any error is stored err->status[.] and this needs to be checked
     // by the caller.
     register_svm_options<T>(this->opts, err);
+    // v5.3.2: number of low precision iterations saved with the model
+    this->set_serialization_version(50302);
 }
 
 template <typename T> svm<T>::~svm() {
@@ -1564,6 +1566,7 @@ template <typename T> da_status svm<T>::serialize(serialization_buffer &buffer)
     io_dispatch(this->support_indexes);
     io_dispatch(this->n_sv_per_class);
     io_dispatch(this->n_iteration);
+    io_dispatch(this->lp_n_iteration);
 
     if (status == da_status_success) {
         status = serialize_classifiers(buffer);
-- 
2.43.0


From f8f547db959f005276f2ad612b79d43103346c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 041/115] fix: recording an error does not throw when memory is
 exhausted

---
 source/core/utilities/da_error.hpp | 92 +++++++++++++++++-------------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/source/core/utilities/da_error.hpp b/source/core/utilities/da_error.hpp
index 42073b0..b16d117 100644
--- a/source/core/utilities/da_error.hpp
+++ b/source/core/utilities/da_error.hpp
@@ -32,10 +32,12 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <new>
 #include <sstream>
 #include <stdexcept>
 #include <string.h>
 #include <string>
+#include <string_view>
 #include <vector>
 
 /** Generating and storing error messages
@@ -263,8 +265,10 @@ class da_error_t {
         print(ss);
         std::cerr << ss.str();
     }
-    da_status rec(da_status status, string msg, string det = "",
-                  string tel = "<no telemetry provided>", size_t ln = 0,
+    // Texts are passed as views: recording an error must not throw, it is how failed memory
+    // allocations are reported.
+    da_status rec(da_status status, string_view msg, string_view det = "",
+                  string_view tel = "<no telemetry provided>", size_t ln = 0,
                   da_severity sev = DA_ERROR, bool stack = false) {
         if (!stack) {
             this->status.resize(0);
@@ -274,23 +278,37 @@ class da_error_t {
             this->severity.resize(0);
         }
         size_t size = this->status.size();
-        if (size < DA_ERROR_STACK_SIZE - 1) {
+        try {
+            if (size < DA_ERROR_STACK_SIZE - 1) {
+                this->status.push_back(status);
+                this->mesg.emplace_back(msg);
+                this->details.emplace_back(det);
+                this->telem.push_back(string(tel) + to_string(ln));
+                this->severity.push_back(sev);
+            } else if (size == DA_ERROR_STACK_SIZE - 1) {
+                // Stack almost full, add a generic message
+                this->status.push_back(da_status_internal_error);
+                this->mesg.push_back(
+                    "Too many errors were registered, storing the first " QUOTE(
+                        DA_ERROR_STACK_SIZE));
+                this->details.push_back("");
+                this->telem.push_back("");
+                this->severity.push_back(DA_ERROR);
+
+            } // else stack "full ignore request to store
+        } catch (std::bad_alloc const &) {
+            // No memory for the texts (the stacks themselves are reserved), keep the status
+            this->status.resize(size);
+            this->mesg.resize(size);
+            this->details.resize(size);
+            this->telem.resize(size);
+            this->severity.resize(size);
             this->status.push_back(status);
-            this->mesg.push_back(msg);
-            this->details.push_back(det);
-            this->telem.push_back(tel + to_string(ln));
+            this->mesg.emplace_back();
+            this->details.emplace_back();
+            this->telem.emplace_back();
             this->severity.push_back(sev);
-        } else if (size == DA_ERROR_STACK_SIZE - 1) {
-            // Stack almost full, add a generic message
-            this->status.push_back(da_status_internal_error);
-            this->mesg.push_back(
-                "Too many errors were registered, storing the first " QUOTE(
-                    DA_ERROR_STACK_SIZE));
-            this->details.push_back("");
-            this->telem.push_back("");
-            this->severity.push_back(DA_ERROR);
-
-        } // else stack "full ignore request to store
+        }
 
 #ifdef VERBOSE_ERROR
         this->print();
@@ -319,26 +337,23 @@ constexpr const char *basename(const char *const path) { return &path[strip_path
 
 // Macros to fill the error stack
 #define da_error(e, status, msg)                                                         \
-    (e)->rec(status, (msg), "", std::string(da_errors::basename(__FILE__)) + ":",        \
-             __LINE__, DA_ERROR, false)
+    (e)->rec(status, (msg), "", da_errors::basename(__FILE__ ":"), __LINE__, DA_ERROR,   \
+             false)
 #define da_warn(e, status, msg)                                                          \
-    (e)->rec(status, (msg), "",                                                          \
-             std::string(da_errors::basename(__FILE__)) + std::string(":"), __LINE__,    \
-             DA_WARNING, false)
+    (e)->rec(status, (msg), "", da_errors::basename(__FILE__ ":"), __LINE__, DA_WARNING, \
+             false)
 
 #define da_error_trace(e, status, msg)                                                   \
-    (e)->rec(status, (msg), "",                                                          \
-             std::string(da_errors::basename(__FILE__)) + std::string(":"), __LINE__,    \
-             DA_ERROR, true)
+    (e)->rec(status, (msg), "", da_errors::basename(__FILE__ ":"), __LINE__, DA_ERROR,   \
+             true)
 #define da_warn_trace(e, status, msg)                                                    \
-    (e)->rec(status, (msg), "",                                                          \
-             std::string(da_errors::basename(__FILE__)) + std::string(":"), __LINE__,    \
-             DA_WARNING, true)
+    (e)->rec(status, (msg), "", da_errors::basename(__FILE__ ":"), __LINE__, DA_WARNING, \
+             true)
 
 struct error_bypass_t {
-    da_status rec([[maybe_unused]] da_status status, [[maybe_unused]] string msg,
-                  [[maybe_unused]] string det = "", [[maybe_unused]] string tel = "",
-                  [[maybe_unused]] size_t ln = 0,
+    da_status rec([[maybe_unused]] da_status status, [[maybe_unused]] string_view msg,
+                  [[maybe_unused]] string_view det = "",
+                  [[maybe_unused]] string_view tel = "", [[maybe_unused]] size_t ln = 0,
                   [[maybe_unused]] da_severity sev = DA_ERROR,
                   [[maybe_unused]] bool stack = false) {
         return da_status_success;
@@ -347,15 +362,12 @@ struct error_bypass_t {
 
 // Special implementations where stack is not filled if invalid
 #define da_error_bypass(e, status, msg)                                                  \
-    ((e) != nullptr                                                                      \
-         ? (e)->rec(status, (msg), "", std::string(da_errors::basename(__FILE__)) + ":", \
-                    __LINE__, DA_ERROR, false)                                           \
-         : status)
+    ((e) != nullptr ? (e)->rec(status, (msg), "", da_errors::basename(__FILE__ ":"),     \
+                               __LINE__, DA_ERROR, false)                                \
+                    : status)
 #define da_warn_bypass(e, status, msg)                                                   \
-    ((e) != nullptr                                                                      \
-         ? (e)->rec(status, (msg), "",                                                   \
-                    std::string(da_errors::basename(__FILE__)) + std::string(":"),       \
-                    __LINE__, DA_WARNING, false)                                         \
-         : status)
+    ((e) != nullptr ? (e)->rec(status, (msg), "", da_errors::basename(__FILE__ ":"),     \
+                               __LINE__, DA_WARNING, false)                              \
+                    : status)
 } // namespace da_errors
 #endif
-- 
2.43.0


From eb13b8d82eabdd134d279bf04db0c5379982d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 042/115] fix: save model reports a failure to flush or close
 the file

---
 source/core/utilities/da_handle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 29d7e1c..5abb254 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -96,7 +96,12 @@ da_status _da_handle::save_handle(const std::string &file_name) {
         return da_error(this->err, da_status_io_error, // LCOV_EXCL_LINE
                         "Failed to write to file.");   // LCOV_EXCL_LINE
     }
+    // Buffered data reaches the file only now: a full disk may be reported here
     file.close();
+    if (!file) {
+        return da_error(this->err, da_status_io_error, // LCOV_EXCL_LINE
+                        "Failed to write to file.");   // LCOV_EXCL_LINE
+    }
 
     return status;
 }
-- 
2.43.0


From 4c0a88b75f8f77e71f9dfc93a0047b10c5d8eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 043/115] fix: error message query with no registered error

---
 source/core/utilities/da_error.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_error.hpp b/source/core/utilities/da_error.hpp
index b16d117..8335eb4 100644
--- a/source/core/utilities/da_error.hpp
+++ b/source/core/utilities/da_error.hpp
@@ -190,16 +190,18 @@ class da_error_t {
     string get_telem(void) { return telem.empty() ? "" : telem.front(); };
 
     da_status get_mesg_char(char **message) {
-        size_t len = mesg.front().length();
+        // No text when no error was registered
+        const char *text = mesg.empty() ? "" : mesg.front().c_str();
+        size_t len = strlen(text);
         *message = (char *)(malloc(len + 1));
         if (*message == NULL) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
-        strncpy_s(*message, 1 + len, mesg.front().c_str(), len);
+        strncpy_s(*message, 1 + len, text, len);
 #else
-        strncpy(*message, mesg.front().c_str(), len);
+        strncpy(*message, text, len);
 #endif
         // Ensure null termination
         (*message)[len] = '\0';
-- 
2.43.0


From b94fb5c0417bb25d93954db6bce4ed05303cdefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 044/115] fix: failed allocations while saving or loading a
 model return an error

---
 source/core/utilities/da_handle_public.cpp | 26 ++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 3b74c07..bf6dff4 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -302,7 +302,12 @@ da_status da_handle_save_model(da_handle handle, const char *file_name) {
     }
     handle->clear(); // Clean up handle logs
 
-    return handle->save_handle(std::string(file_name));
+    try {
+        return handle->save_handle(std::string(file_name));
+    } catch (std::bad_alloc &) {
+        return da_error(handle->err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation error");          // LCOV_EXCL_LINE
+    }
 }
 
 da_status da_handle_save_model(da_handle handle, std::vector<char> &buffer) {
@@ -311,7 +316,12 @@ da_status da_handle_save_model(da_handle handle, std::vector<char> &buffer) {
     }
     handle->clear(); // Clean up handle logs
 
-    return handle->save_handle(buffer);
+    try {
+        return handle->save_handle(buffer);
+    } catch (std::bad_alloc &) {
+        return da_error(handle->err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation error");          // LCOV_EXCL_LINE
+    }
 }
 
 /* Load (deserialize) model */
@@ -328,7 +338,11 @@ da_status da_handle_load_model(da_handle *handle, const char *buffer_data,
     if (data_size == 0)
         return da_status_invalid_input;
 
-    return _da_handle::load_handle(*handle, buffer_data, data_size);
+    try {
+        return _da_handle::load_handle(*handle, buffer_data, data_size);
+    } catch (std::bad_alloc &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
+    }
 }
 
 da_status da_handle_load_model(da_handle *handle, const char *file_name) {
@@ -340,7 +354,11 @@ da_status da_handle_load_model(da_handle *handle, const char *file_name) {
         return da_status_invalid_pointer;
     }
 
-    return _da_handle::load_handle(*handle, std::string(file_name));
+    try {
+        return _da_handle::load_handle(*handle, std::string(file_name));
+    } catch (std::bad_alloc &) {
+        return da_status_memory_error; // LCOV_EXCL_LINE
+    }
 }
 
 /* Print saved versions of AOCL-DA and model serialization. */
-- 
2.43.0


From 078aa7b71be638e5c7f1b2ca53cd5c485a9c2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 045/115] fix: loading a neighbors tree reports truncated data

---
 source/core/nearest_neighbors/binary_tree.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 48c7ff3..2e6fee6 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -515,6 +515,8 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
     };
 
     io_dispatch(node_exists);
+    if (status != da_status_success)
+        return status;
     if (!node_exists) {
         if (buffer.get_mode() == da_model_persistence::buffer_mode::deserialize) {
             node = nullptr;
@@ -526,6 +528,8 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
                         ? node->indices - this->indices.data()
                         : 0;
     io_dispatch(offset);
+    if (status != da_status_success)
+        return status;
 
     // Only create a new node if one wasn't passed in (e.g. for child nodes)
     if (node == nullptr &&
@@ -576,10 +580,10 @@ da_status binary_tree<Derived, NodeType>::serialize(
     io_dispatch(this->A_norms);
     io_dispatch(this->n_features);
     io_dispatch(this->n_samples);
+    if (status != da_status_success)
+        return status;
 
-    status = this->tree_serialization(buffer, this->root);
-
-    return status;
+    return this->tree_serialization(buffer, this->root);
 }
 
 template struct node<double>;
-- 
2.43.0


From 067cf8af377342875be9012320a1101a23dbcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 046/115] fix: loading a model with an unknown handle type is
 an error

---
 source/core/utilities/da_handle.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 5abb254..0b4491a 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -123,13 +123,17 @@ da_status _da_handle::load_handle(da_handle &handle, const char *buffer_data,
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_s->load_model(buffer);
+        // The handle type read may be one that cannot hold a model
+        if (handle->alg_handle_s != nullptr)
+            status = handle->alg_handle_s->load_model(buffer);
     } else if (precision == (da_int)sizeof(double)) {
         status = da_handle_init_d(&handle, buffer.get_handle_type());
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_d->load_model(buffer);
+        // The handle type read may be one that cannot hold a model
+        if (handle->alg_handle_d != nullptr)
+            status = handle->alg_handle_d->load_model(buffer);
     }
 
     if (status != da_status_success ||
-- 
2.43.0


From 1dd8de2e55c94eafbe746a37b38d4a8374369d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 047/115] fix: da_handle_init leaves no handle behind when its
 error object cannot be allocated

---
 source/core/utilities/da_handle_public.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index bf6dff4..19a989e 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -42,6 +42,9 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
     try {
         (*handle)->err = new da_errors::da_error_t(da_errors::action_t::DA_RECORD);
     } catch (std::bad_alloc &) {
+        // A handle without an error object cannot be used
+        delete *handle;
+        *handle = nullptr;
         return da_status_memory_error;
     }
 
-- 
2.43.0


From 74ab80006ec482825e56fbd3680f04c2e5110c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 048/115] fix: da_handle_init frees the algorithm object when
 its options cannot be registered

---
 source/core/utilities/da_handle_public.cpp | 26 +++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 19a989e..111dee2 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -64,7 +64,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_linmod::linear_model<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -72,7 +72,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err, alg_handle = new da_pca::pca<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -81,7 +81,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_tsne::tsne<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -90,7 +90,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_kmeans::kmeans<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -99,7 +99,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_dbscan::dbscan<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -109,7 +109,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_decision_forest::decision_tree<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -119,7 +119,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_decision_forest::decision_forest<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -132,7 +132,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err,
                        alg_handle = new da_nlls::nlls<T>(status, *(*handle)->err));
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -141,7 +141,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_neighbors::neighbors<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -149,7 +149,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err, alg_handle = new da_svm::svm<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -159,7 +159,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_interpolation::interpolation_p<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -169,7 +169,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_approx_nn::approximate_neighbors<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -178,7 +178,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_kernel_pca::kernel_pca<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
-- 
2.43.0


From 2bce71d4858d49788e435579b2d5f107fdc6e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 049/115] fix: loading a tree, forest or SVM checks the number
 of stored parts against the data

---
 source/core/decision_forest/forest/decision_forest.cpp    | 2 ++
 .../tree/decision_tree_handle_utilities.hpp               | 2 +-
 source/core/svm/svm.cpp                                   | 2 ++
 source/core/utilities/model_persistence.hpp               | 8 ++++++++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index f3ab69f..4963a0b 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -43,6 +43,8 @@ da_status decision_forest<T>::forest_serialization(
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        if (!buffer.can_hold(this->n_tree))
+            return da_status_invalid_file_data;
         try {
             this->forest.resize(n_tree);
             for (da_int i = 0; i < this->n_tree; ++i) {
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 7441308..621656b 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -294,7 +294,7 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        if (this->n_nodes <= 0)
+        if (this->n_nodes <= 0 || !buffer.can_hold(this->n_nodes))
             return da_status_invalid_file_data;
 
         try {
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 081340e..314b91f 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1497,6 +1497,8 @@ da_status svm<T>::serialize_classifiers(serialization_buffer &buffer) {
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        if (!buffer.can_hold(this->n_classifiers))
+            return da_status_invalid_file_data;
         try {
             this->classifiers.resize(this->n_classifiers);
             for (da_int i = 0; i < this->n_classifiers; ++i) {
diff --git a/source/core/utilities/model_persistence.hpp b/source/core/utilities/model_persistence.hpp
index cca9bf8..662506c 100644
--- a/source/core/utilities/model_persistence.hpp
+++ b/source/core/utilities/model_persistence.hpp
@@ -194,6 +194,14 @@ class serialization_buffer {
     }
 
     size_t get_size() const noexcept { return this->size; }
+    // A number of objects read from a file is possible only if the rest of the data can hold
+    // them; no object takes less than min_object_size bytes
+    bool can_hold(da_int n_objects) const noexcept {
+        constexpr size_t min_object_size = 64;
+        return n_objects >= 0 && this->offset <= this->size &&
+               static_cast<size_t>(n_objects) <=
+                   (this->size - this->offset) / min_object_size;
+    }
     // Addition method for the size member
     da_status add_size(size_t value);
 
-- 
2.43.0


From f10e8850b22c92b9db65b89052aaea6cb9ac1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 050/115] fix: kernel functions of X with itself in several
 blocks used X's diagonal blocks or a null Y

---
 source/core/kernel_functions/kernel_functions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/core/kernel_functions/kernel_functions.cpp b/source/core/kernel_functions/kernel_functions.cpp
index e028143..b365ca6 100644
--- a/source/core/kernel_functions/kernel_functions.cpp
+++ b/source/core/kernel_functions/kernel_functions.cpp
@@ -369,6 +369,11 @@ inline void kernel_setup(da_order order, da_int m, da_int n, da_int k, const T *
                          T coef0, da_int degree, bool X_is_Y, math_type math_func,
                          da_int vectorisation) {
     CBLAS_ORDER cblas_order = da_utils::da_order_to_cblas_order(order);
+    // Y may be null if it stands for X, but the blocks are computed from X and Y
+    if (X_is_Y) {
+        Y = X;
+        ldy = ldx;
+    }
     // For row-major order, parallelise over rows of X first and then rows of Y, for column-major order parallelise over rows of Y first and then rows of X.
     // Consequently, for row-major we fill D matrix row by row, for column-major we fill D matrix column by column.
     // first dim is the first dimension of the array we will be parallelising over.
@@ -551,6 +556,9 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
         }
     }
     if (X_is_Y) {
+        // Y may be null if it stands for X, but the blocks are computed from X and Y
+        Y = X;
+        ldy = ldx;
         Y_norms = X_norms;
     } else if (compute_Y_norms == 2) {
         for (da_int i = 0; i < n; i++) {
@@ -602,7 +610,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(n_in, m_in, D + D_block_offset, ldd, multiplier,
                                     Y_norms + Y_norm_offset, X_norms + X_norm_offset);
                 }
@@ -631,7 +639,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(m_in, n_in, D + D_block_offset, ldd, multiplier,
                                     X_norms + X_norm_offset, Y_norms + Y_norm_offset);
                 }
-- 
2.43.0


From d0b787fef0f2799bcca58ee287e689003fd4077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 051/115] fix: SVM probabilities of a fold that cannot be
 solved kept an earlier fit's values

---
 source/core/svm/svm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 314b91f..405dc20 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1242,6 +1242,8 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
                                         T &probaB) {
     std::vector<T> X_class, y_class;
     da_int n = classifier.n, p = classifier.p;
+    // A fold that cannot be solved ends the computation; do not keep an earlier fit's values
+    probaA = 0.0, probaB = 0.0;
     if (n_fold > n) {
         return da_error(
             this->err, da_status_invalid_input,
-- 
2.43.0


From 18a05fbba63fd3d9973cd5ae4046154e190fe5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 052/115] hook: block sizes and parallelization thresholds
 replaceable under simulation (AOCLDA_SIM)

---
 .../basic_statistics/moment_statistics.cpp    | 10 ++++
 .../core/clustering/kmeans/kmeans_types.hpp   | 19 ++++++
 .../dimension_reduction/tsne/barnes_hut.cpp   |  5 ++
 source/core/dimension_reduction/tsne/tsne.hpp |  2 +
 .../kernel_functions_types.hpp                |  6 ++
 source/core/nearest_neighbors/ball_tree.cpp   |  9 +++
 source/core/nearest_neighbors/binary_tree.cpp |  5 ++
 source/core/nearest_neighbors/kd_tree.cpp     |  9 +++
 .../nearest_neighbors/nearest_neighbors.cpp   | 25 ++++++++
 .../nearest_neighbors/radius_neighbors.cpp    |  5 ++
 source/core/svm/base_svm.cpp                  |  6 ++
 source/core/utilities/sim_knobs.hpp           | 59 +++++++++++++++++++
 12 files changed, 160 insertions(+)
 create mode 100644 source/core/utilities/sim_knobs.hpp

diff --git a/source/core/basic_statistics/moment_statistics.cpp b/source/core/basic_statistics/moment_statistics.cpp
index 08a2c0d..9d8f64e 100644
--- a/source/core/basic_statistics/moment_statistics.cpp
+++ b/source/core/basic_statistics/moment_statistics.cpp
@@ -31,6 +31,7 @@
 #include "da_std.hpp"
 #include "fp16_helpers.hpp"
 #include "macros.h"
+#include "sim_knobs.hpp"
 #include <algorithm>
 #include <cmath>
 #include <cstring>
@@ -43,7 +44,11 @@ namespace ARCH {
 namespace da_basic_statistics {
 
 // Threshold for switching from pairwise to direct summation in recursive_sum.
+#ifdef AOCLDA_SIM
+#define RECURSIVE_SUM_THRESHOLD da_sim::size(da_sim::recursive_sum, 2048)
+#else
 #define RECURSIVE_SUM_THRESHOLD da_int(2048)
+#endif
 
 /* Compute double/float raised to positive integer power efficiently by binary powering */
 template <typename T> T power(T a, da_int exponent) {
@@ -215,7 +220,12 @@ da_status full_sum(da_int outer_dim_size, da_int inner_dim_size, const T *x, da_
 
     // full_sum splits the matrix as if it is a 1D array. Thus, for small matrices
     // (par_threshold > m*n) parallelization is not always beneficial.
+#ifdef AOCLDA_SIM
+    [[maybe_unused]] da_int par_threshold =
+        da_sim::size(da_sim::full_sum_parallel, 32768);
+#else
     [[maybe_unused]] da_int par_threshold = 32768;
+#endif
 
     std::optional<T> opt_param1_val = std::nullopt;
     if (opt_param1.has_value()) {
diff --git a/source/core/clustering/kmeans/kmeans_types.hpp b/source/core/clustering/kmeans/kmeans_types.hpp
index 9cbe566..b6dc580 100644
--- a/source/core/clustering/kmeans/kmeans_types.hpp
+++ b/source/core/clustering/kmeans/kmeans_types.hpp
@@ -24,6 +24,24 @@
 #ifndef KMEANS_TYPES_HPP
 #define KMEANS_TYPES_HPP
 
+#ifdef AOCLDA_SIM
+#include "sim_knobs.hpp"
+
+template <typename T>
+inline da_int &KMEANS_LLOYD_BLOCK_SIZE =
+    std::is_same<T, double>::value ? da_sim::slot(da_sim::kmeans_lloyd_d, 256)
+                                   : da_sim::slot(da_sim::kmeans_lloyd_s, 512);
+
+template <typename T>
+inline da_int &KMEANS_ELKAN_BLOCK_SIZE =
+    std::is_same<T, double>::value ? da_sim::slot(da_sim::kmeans_elkan_d, 256)
+                                   : da_sim::slot(da_sim::kmeans_elkan_s, 512);
+
+template <typename T>
+inline da_int &KMEANS_MACQUEEN_BLOCK_SIZE =
+    std::is_same<T, double>::value ? da_sim::slot(da_sim::kmeans_macqueen_d, 128)
+                                   : da_sim::slot(da_sim::kmeans_macqueen_s, 256);
+#else
 template <typename T>
 inline constexpr da_int KMEANS_LLOYD_BLOCK_SIZE =
     std::is_same<T, double>::value ? 256 : (std::is_same<T, _Float16>::value ? 768 : 512);
@@ -35,6 +53,7 @@ inline constexpr da_int KMEANS_ELKAN_BLOCK_SIZE =
 template <typename T>
 inline constexpr da_int KMEANS_MACQUEEN_BLOCK_SIZE =
     std::is_same<T, double>::value ? 128 : (std::is_same<T, _Float16>::value ? 768 : 256);
+#endif
 
 namespace da_kmeans_types {
 
diff --git a/source/core/dimension_reduction/tsne/barnes_hut.cpp b/source/core/dimension_reduction/tsne/barnes_hut.cpp
index 7651593..323ac0e 100644
--- a/source/core/dimension_reduction/tsne/barnes_hut.cpp
+++ b/source/core/dimension_reduction/tsne/barnes_hut.cpp
@@ -27,6 +27,11 @@
 #include <algorithm>
 #include <array>
 #include <numeric>
+#include "sim_knobs.hpp"
+
+#ifdef AOCLDA_SIM
+#define TASK_CUTOFF da_sim::size(da_sim::tsne_task, 512)
+#endif
 
 namespace ARCH {
 
diff --git a/source/core/dimension_reduction/tsne/tsne.hpp b/source/core/dimension_reduction/tsne/tsne.hpp
index acfdb10..c4eecba 100644
--- a/source/core/dimension_reduction/tsne/tsne.hpp
+++ b/source/core/dimension_reduction/tsne/tsne.hpp
@@ -62,7 +62,9 @@ template <typename T, int8_t D> struct BarnesHutTree {
     static constexpr T DIST2_FLOOR = std::is_same_v<T, float> ? (T)1e-6 : (T)1e-8;
     static constexpr T EPS_INC = (T)1 + DIST2_FLOOR;
     static constexpr da_int DEFAULT_LEAF_THRESHOLD = 8;
+#ifndef AOCLDA_SIM
     static constexpr da_int TASK_CUTOFF = 512;
+#endif
 
     std::vector<TreeNode<T, D>> nodes;
     std::vector<T> sorted_pos;
diff --git a/source/core/kernel_functions/kernel_functions_types.hpp b/source/core/kernel_functions/kernel_functions_types.hpp
index 63703da..01adddd 100644
--- a/source/core/kernel_functions/kernel_functions_types.hpp
+++ b/source/core/kernel_functions/kernel_functions_types.hpp
@@ -24,7 +24,13 @@
 #ifndef KERNEL_FUNCTIONS_TYPES_HPP
 #define KERNEL_FUNCTIONS_TYPES_HPP
 
+#include "sim_knobs.hpp"
+
+#ifdef AOCLDA_SIM
+#define KERNEL_FUNCTIONS_MAX_BLOCK_SIZE da_sim::size(da_sim::kernel_functions_block, 256)
+#else
 #define KERNEL_FUNCTIONS_MAX_BLOCK_SIZE da_int(256)
+#endif
 #define SIMD_PADDING da_int(16)
 
 namespace da_kernel_functions_types {
diff --git a/source/core/nearest_neighbors/ball_tree.cpp b/source/core/nearest_neighbors/ball_tree.cpp
index 6ca3f25..b8ffc8e 100644
--- a/source/core/nearest_neighbors/ball_tree.cpp
+++ b/source/core/nearest_neighbors/ball_tree.cpp
@@ -26,13 +26,22 @@
 #include "da_omp.hpp"
 #include "da_std.hpp"
 #include "pairwise_distances.hpp"
+#include "sim_knobs.hpp"
 #include <algorithm>
 #include <limits>
 #include <new>
 #include <stack>
 
+#ifdef AOCLDA_SIM
+#define BALL_TREE_MIN_TASK_SIZE da_sim::size(da_sim::ball_tree_task, 2048)
+#else
 #define BALL_TREE_MIN_TASK_SIZE da_int(2048)
+#endif
+#ifdef AOCLDA_SIM
+#define BALL_TREE_BLOCK_SIZE da_sim::size(da_sim::ball_tree_block, 256)
+#else
 #define BALL_TREE_BLOCK_SIZE da_int(256)
+#endif
 
 namespace ARCH {
 
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 2e6fee6..1d7a65e 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -29,11 +29,16 @@
 #include "da_vector.hpp"
 #include "model_persistence.hpp"
 #include "pairwise_distances.hpp"
+#include "sim_knobs.hpp"
 #include <algorithm>
 #include <memory>
 #include <vector>
 
+#ifdef AOCLDA_SIM
+#define BT_MAX_BLOCK_SIZE da_sim::size(da_sim::binary_tree_block, 256)
+#else
 #define BT_MAX_BLOCK_SIZE da_int(256)
+#endif
 
 namespace ARCH {
 
diff --git a/source/core/nearest_neighbors/kd_tree.cpp b/source/core/nearest_neighbors/kd_tree.cpp
index e5aba2a..cd486ea 100644
--- a/source/core/nearest_neighbors/kd_tree.cpp
+++ b/source/core/nearest_neighbors/kd_tree.cpp
@@ -25,12 +25,21 @@
 #include "binary_tree.hpp"
 #include "da_omp.hpp"
 #include "da_std.hpp"
+#include "sim_knobs.hpp"
 #include <algorithm>
 #include <limits>
 #include <stack>
 
+#ifdef AOCLDA_SIM
+#define KD_TREE_MIN_TASK_SIZE da_sim::size(da_sim::kd_tree_task, 2048)
+#else
 #define KD_TREE_MIN_TASK_SIZE da_int(2048)
+#endif
+#ifdef AOCLDA_SIM
+#define KD_TREE_BLOCK_SIZE da_sim::size(da_sim::kd_tree_block, 256)
+#else
 #define KD_TREE_BLOCK_SIZE da_int(256)
+#endif
 
 namespace ARCH {
 
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 9f02a47..bb5e008 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -36,6 +36,7 @@
 #include "nearest_neighbors_options.hpp"
 #include "nearest_neighbors_utils.hpp"
 #include "pairwise_distances.hpp"
+#include "sim_knobs.hpp"
 #include <algorithm>
 #include <cmath>
 #include <map>
@@ -48,14 +49,38 @@ namespace da_neighbors {
 
 using namespace da_model_persistence;
 
+#ifdef AOCLDA_SIM
+#define KNN_BLOCK_FLOAT da_sim::size(da_sim::knn_block, 512)
+#else
 #define KNN_BLOCK_FLOAT 512
+#endif
+#ifdef AOCLDA_SIM
+#define KNN_BLOCK_DOUBLE da_sim::size(da_sim::knn_block, 256)
+#else
 #define KNN_BLOCK_DOUBLE 256
+#endif
 
+#ifdef AOCLDA_SIM
+#define RNN_BLOCK_FLOAT da_sim::size(da_sim::rnn_block, 2048)
+#else
 #define RNN_BLOCK_FLOAT 2048
+#endif
+#ifdef AOCLDA_SIM
+#define RNN_BLOCK_DOUBLE da_sim::size(da_sim::rnn_block, 1024)
+#else
 #define RNN_BLOCK_DOUBLE 1024
+#endif
 
+#ifdef AOCLDA_SIM
+#define XTRAIN_RNN_BLOCK_SIZE da_sim::size(da_sim::xtrain_rnn_block, 256)
+#else
 #define XTRAIN_RNN_BLOCK_SIZE da_int(256)
+#endif
+#ifdef AOCLDA_SIM
+#define XTEST_RNN_BLOCK_SIZE da_sim::size(da_sim::xtest_rnn_block, 256)
+#else
 #define XTEST_RNN_BLOCK_SIZE da_int(256)
+#endif
 
 // Inline helper function to validate and store X_test data
 template <typename T>
diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index c80166b..2ec37dc 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -30,9 +30,14 @@
 #include "da_vector.hpp"
 #include "macros.h"
 #include "pairwise_distances.hpp"
+#include "sim_knobs.hpp"
 #include <vector>
 
+#ifdef AOCLDA_SIM
+#define RADIUS_NEIGHBORS_BLOCK_SIZE da_sim::size(da_sim::radius_neighbors_block, 256)
+#else
 #define RADIUS_NEIGHBORS_BLOCK_SIZE da_int(256)
+#endif
 
 namespace ARCH {
 
diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 8e37477..b69ce9c 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -42,6 +42,7 @@
 #include "svm.hpp"
 #include "svm_options.hpp"
 #include "svm_types.hpp"
+#include "sim_knobs.hpp"
 #include <climits>
 #include <cmath>
 #include <cstdlib>
@@ -470,8 +471,13 @@ da_status base_svm<T>::decision_function(da_int nsamples, da_int nfeat, const T
 
     // Threading and blocking parameters.
     da_int thread_count = omp_get_max_threads();
+#ifdef AOCLDA_SIM
+    const da_int max_outer_block_size = da_sim::size(da_sim::svm_outer_block, 192);
+    const da_int max_inner_block_size = da_sim::size(da_sim::svm_inner_block, 256);
+#else
     constexpr da_int max_outer_block_size = 192;
     constexpr da_int max_inner_block_size = 256;
+#endif
 
     // Outer (sample) blocking
     // Integer ceiling of nsamples / thread_count (avoids floating point, which
diff --git a/source/core/utilities/sim_knobs.hpp b/source/core/utilities/sim_knobs.hpp
new file mode 100644
index 0000000..eaf8788
--- /dev/null
+++ b/source/core/utilities/sim_knobs.hpp
@@ -0,0 +1,59 @@
+/* Block sizes and parallelization thresholds under simulation.
+ *
+ * Only used when the library is compiled with AOCLDA_SIM defined (deterministic simulation builds,
+ * never the shipped library): the simulator may then replace a block size by a smaller one, so that
+ * small problems reach the blocked and parallel paths of the code.
+ */
+
+#ifndef SIM_KNOBS_HPP
+#define SIM_KNOBS_HPP
+#ifdef AOCLDA_SIM
+
+#include "aoclda_types.h"
+
+// Defined by the simulator; an entry of zero stands for the default
+extern "C" da_int aoclda_sim_knobs[64];
+
+namespace da_sim {
+
+enum knob : int {
+    kernel_functions_block = 0,
+    kd_tree_task,
+    kd_tree_block,
+    ball_tree_task,
+    ball_tree_block,
+    knn_block,
+    rnn_block,
+    xtrain_rnn_block,
+    xtest_rnn_block,
+    radius_neighbors_block,
+    binary_tree_block,
+    recursive_sum,
+    full_sum_parallel,
+    svm_outer_block,
+    svm_inner_block,
+    tsne_task,
+    kmeans_lloyd_d,
+    kmeans_lloyd_s,
+    kmeans_elkan_d,
+    kmeans_elkan_s,
+    kmeans_macqueen_d,
+    kmeans_macqueen_s,
+    n_knobs
+};
+
+inline da_int size(knob k, da_int default_size) {
+    da_int v = aoclda_sim_knobs[k];
+    return v > 0 ? v : default_size;
+}
+
+// For sizes kept in variables: the entry itself, holding the default
+inline da_int &slot(knob k, da_int default_size) {
+    aoclda_sim_knobs[k] = default_size;
+    return aoclda_sim_knobs[k];
+}
+
+} // namespace da_sim
+
+#endif
+#endif
-- 
2.43.0


From 27267a504bc826ba9a8552f4a47f46067e03f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 053/115] fix: radius neighbours merge only the results of the
 threads in the team

---
 source/core/nearest_neighbors/radius_neighbors.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index 2ec37dc..e3a801b 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -102,7 +102,7 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
 #pragma omp parallel num_threads(n_threads) default(none)                                \
     shared(threading_error, neighbors, max_block_size, max_block_size_sq, n_samples, D,  \
                A, A_norms, block_rem, ldd, lda, eps_internal, n_blocks, n_features,      \
-               neighbors_local, metric_internal, p, n_threads)
+               neighbors_local, metric_internal, p)
     {
 
         // Thread 0 can write to neighbors; all other threads need to use neighbors_local
@@ -192,11 +192,18 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
 #pragma omp atomic read
         local_error = threading_error;
         if (local_error == 0) {
+            // The team may be smaller than the number of threads requested
+            da_int team_size = omp_get_num_threads();
 #pragma omp for schedule(guided)
             // Merge the local neighbors into the global neighbors
             for (da_int i = 0; i < n_samples; i++) {
-                for (da_int t = 1; t < n_threads; t++) {
-                    neighbors[i].append(neighbors_local[t][i]);
+                try {
+                    for (da_int t = 1; t < team_size; t++) {
+                        neighbors[i].append(neighbors_local[t][i]);
+                    }
+                } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                    threading_error = 1;
                 }
             }
         }
-- 
2.43.0


From fb0d7121a629b7c2b14b58224034aad1a087dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 054/115] fix: linear model refit reports class count and low
 precision iterations of its own fit

---
 source/core/linear_model/linear_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 4ea1f70..018a25b 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -816,6 +816,7 @@ template <typename T> da_status linear_model<T>::fit(da_int usr_ncoefs, const T
 
     da_int ncoefs_local = usr_ncoefs;
     T *coefs_local = nullptr;
+    this->lp_n_iter = 0;
 
     // Wrapper for automatic memory cleanup of coefs_local when using mixed precision
     auto coefs_deleter = [&](T *ptr) {
@@ -949,6 +950,7 @@ da_status linear_model<T>::fit_impl(da_int usr_ncoefs, const T *coefs, bool do_p
         if (intercept)
             ncoef += 1;
         nrow_coef = 1, ncol_coef = ncoef;
+        nclass = 0;
 
         // Scales: X and y
         // We only ever skip if we deduced that we can in fit
-- 
2.43.0


From 69b50e46a865aac131e93cdf144c2aebe464af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 055/115] fix: PCA handle does not keep parts of an earlier or
 failed fit

---
 source/core/factorization/pca/pca.cpp | 33 +++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 488c62f..4debd4e 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -249,24 +249,27 @@ da_status pca<T>::get_result(da_result query, da_int *dim, T *result) {
 template <typename T>
 da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-        A = nullptr;
-    }
-
     // Read in data storage option
     std::string opt_order;
     da_int iorder;
     this->opts.get("storage order", opt_order, iorder);
-    this->order = da_order(iorder);
 
     // Check for illegal arguments
-    da_status status = this->check_2D_array(this->order, n, p, A_in, lda_in, "n_samples",
-                                            "n_features", "A", "lda", 1, 1);
+    da_status status =
+        this->check_2D_array(da_order(iorder), n, p, A_in, lda_in, "n_samples",
+                             "n_features", "A", "lda", 1, 1);
     if (status != da_status_success)
         return status;
+    this->order = da_order(iorder);
+
+    // Guard against errors due to multiple calls using the same class instantiation
+    initdone = false;
+    this->model_trained = false;
+    if (A_temp) {
+        delete[] (A_temp);
+        A_temp = nullptr;
+        A = nullptr;
+    }
 
     // We'll always store A in column-major format internally
     if (this->order == row_major) {
@@ -324,6 +327,16 @@ template <typename T> da_status pca<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_pca_set_data_s or da_pca_set_data_d.");
 
+    // Nothing computed earlier, possibly with other options, is valid from here on
+    this->model_trained = false;
+    qr = false;
+    u.resize(0);
+    sigma.resize(0);
+    vt.resize(0);
+    column_means.resize(0);
+    column_sdevs.resize(0);
+    column_sdevs_nonzero.resize(0);
+
     // Read in options and store in class together with associated variables
     this->opts.get("n_components", npc);
 
-- 
2.43.0


From 5b13987206bfcc55dc8208d15201b0905c5fe61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 056/115] fix: kernel PCA handle does not keep parts of an
 earlier or failed fit

---
 source/core/factorization/kernel_pca/kernel_pca.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 6794ac4..f1f06cf 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -233,15 +233,16 @@ da_status kernel_pca<T>::init(da_int n_samples_in, da_int n_features_in, const T
     std::string opt_order;
     da_int iorder;
     this->opts.get("storage order", opt_order, iorder);
-    this->order = da_order(iorder);
 
     da_status status =
-        this->check_2D_array(this->order, n_samples_in, n_features_in, A, lda_in,
+        this->check_2D_array(da_order(iorder), n_samples_in, n_features_in, A, lda_in,
                              "n_samples", "n_features", "A", "lda");
     if (status != da_status_success)
         return status;
+    this->order = da_order(iorder);
 
     // Reset state
+    init_done = false;
     A_copy.resize(0);
     A_ptr = nullptr;
 
@@ -327,6 +328,11 @@ template <typename T> da_status kernel_pca<T>::compute() {
                         "No data has been provided. Please call da_kernel_pca_set_data_? "
                         "before da_kernel_pca_compute_?.");
 
+    // Nothing computed earlier, possibly with other options, is valid from here on
+    this->model_trained = false;
+    inverse_fitted = false;
+    dual_coef.resize(0);
+
     da_int n_components_opt, kernel_int, fit_inv_int, remove_zero_int, solver_int;
     std::string kernel_str, fit_inv_str, remove_zero_str, solver_str;
 
-- 
2.43.0


From 88a592a6603a6aea80e5b94540caf723c684a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 057/115] fix: k-means refit starts afresh; initial centres of
 other dimensions are refused

---
 source/core/clustering/kmeans/kmeans.cpp | 140 +++++++++++++----------
 source/core/clustering/kmeans/kmeans.hpp |   4 +
 2 files changed, 83 insertions(+), 61 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 121bc66..1d3dc37 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -249,20 +249,20 @@ template <typename T>
 da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in,
                               da_int lda_in) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    this->refresh();
-
     // Read in data storage option
     std::string opt_order;
     da_int iorder;
     da_status status = this->opts.get("storage order", opt_order, iorder);
-    this->order = da_order(iorder);
 
     // Check for illegal arguments
-    status = this->check_2D_array(this->order, n_samples, n_features, A_in, lda_in,
+    status = this->check_2D_array(da_order(iorder), n_samples, n_features, A_in, lda_in,
                                   "n_samples", "n_features", "A", "lda", 1, 1);
     if (status != da_status_success)
         return status;
+    this->order = da_order(iorder);
+
+    // Guard against errors due to multiple calls using the same class instantiation
+    this->refresh();
 
     // Store dimensions of A and pointer to user's data
     this->lda_usr = lda_in;
@@ -300,12 +300,6 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (C_temp) {
-        delete[] (C_temp);
-        C_temp = nullptr;
-    }
-
     // Check options weren't changed to incompatible values after data was set
     std::string opt_order;
     da_int iorder;
@@ -316,22 +310,30 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
     }
 
     // Check for illegal arguments
-    this->opts.get("n_clusters", n_clusters);
-    da_status status =
-        this->check_2D_array(this->order, n_clusters, n_features, C_in, ldc_in,
-                             "n_clusters", "n_features", "C", "ldc", 1, 1);
+    da_int n_centres;
+    this->opts.get("n_clusters", n_centres);
+    da_status status = this->check_2D_array(this->order, n_centres, n_features, C_in,
+                                            ldc_in, "n_clusters", "n_features", "C",
+                                            "ldc", 1, 1);
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    centres_supplied = false;
+    if (C_temp) {
+        delete[] (C_temp);
+        C_temp = nullptr;
+    }
+
     // We'll always store C in column-major format internally
     if (this->order == row_major) {
         // Transpose C to column-major
         try {
-            C_temp = new T[(size_t)n_clusters * (size_t)n_features];
+            C_temp = new T[(size_t)n_centres * (size_t)n_features];
             ARCH::da_utils::copy_transpose_2D_array_row_to_column_major<T>(
-                n_clusters, n_features, C_in, ldc_in, C_temp, n_clusters);
+                n_centres, n_features, C_in, ldc_in, C_temp, n_centres);
             C = C_temp;
-            ldc = n_clusters;
+            ldc = n_centres;
         } catch (std::bad_alloc const &) {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
@@ -341,7 +343,9 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
         ldc = ldc_in;
     }
 
-    // Record that centres have been set
+    // Record that centres have been set, and for what size of problem
+    n_clusters_supplied = n_centres;
+    n_features_supplied = n_features;
     centres_supplied = true;
 
     return da_status_success;
@@ -356,6 +360,10 @@ template <typename T> da_status kmeans<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
+    // Discard everything an earlier computation may have left in the handle
+    this->refresh();
+    this->model_trained = false;
+
     if (check_options) {
 
         // Check options weren't changed to incompatible values after data was set
@@ -454,6 +462,16 @@ template <typename T> da_status kmeans<T>::compute() {
                         "centres have been provided.");
     }
 
+    if (check_options && init_method == supplied &&
+        (n_clusters_supplied != n_clusters || n_features_supplied != n_features)) {
+        return da_error(this->err, da_status_incompatible_options,
+                        "The initial centres provided are a " +
+                            std::to_string(n_clusters_supplied) + " x " +
+                            std::to_string(n_features_supplied) + " array but n_clusters = " +
+                            std::to_string(n_clusters) + " and n_features = " +
+                            std::to_string(n_features) + ".");
+    }
+
     if (A_temp) {
         delete[] (A_temp);
         A_temp = nullptr;
@@ -567,8 +585,8 @@ template <typename T> da_status kmeans<T>::compute() {
 
     // Initialize some arrays
     try {
-        current_cluster_centres->resize((size_t)n_clusters * (size_t)n_features, (T)0.0);
-        previous_cluster_centres->resize((size_t)n_clusters * (size_t)n_features, (T)0.0);
+        current_cluster_centres->assign((size_t)n_clusters * (size_t)n_features, (T)0.0);
+        previous_cluster_centres->assign((size_t)n_clusters * (size_t)n_features, (T)0.0);
         thd_cluster_centres.resize(n_threads);
         thd_work1.resize(n_threads);
         thd_work2.resize(n_threads);
@@ -586,25 +604,25 @@ template <typename T> da_status kmeans<T>::compute() {
         da_int pad_T = 128 / sizeof(T);
         da_int pad_int = 128 / sizeof(da_int);
         for (da_int t = 0; t < n_threads; t++) {
-            thd_cluster_centres[t].resize((size_t)n_clusters * (size_t)n_features + pad_T,
+            thd_cluster_centres[t].assign((size_t)n_clusters * (size_t)n_features + pad_T,
                                           (T)0.0);
-            thd_work1[t].resize(n_clusters + pad_T, (T)0.0);
-            thd_work2[t].resize(n_clusters + pad_T, (T)0.0);
-            thd_work3[t].resize(n_clusters + pad_T, (T)0.0);
-            thd_work4[t].resize(n_clusters + pad_T, (T)0.0);
-            thd_work_int[t].resize(n_clusters + pad_int, 0);
+            thd_work1[t].assign(n_clusters + pad_T, (T)0.0);
+            thd_work2[t].assign(n_clusters + pad_T, (T)0.0);
+            thd_work3[t].assign(n_clusters + pad_T, (T)0.0);
+            thd_work4[t].assign(n_clusters + pad_T, (T)0.0);
+            thd_work_int[t].assign(n_clusters + pad_int, 0);
         }
 
-        cluster_count.resize(n_clusters, 0);
-        work_int1.resize(n_clusters, 0);
-        work_int2.resize(n_samples, 0);
+        cluster_count.assign(n_clusters, 0);
+        work_int1.assign(n_clusters, 0);
+        work_int2.assign(n_samples, 0);
         // Extra bit on workc1 just to enable some padding to be done for vectorization
-        workc1.resize(n_clusters + padding, (T)0.0);
-        current_labels->resize(n_samples, 0);
-        previous_labels->resize(n_samples, 0);
+        workc1.assign(n_clusters + padding, (T)0.0);
+        current_labels->assign(n_samples, 0);
+        previous_labels->assign(n_samples, 0);
         if (n_init > 1) {
-            best_cluster_centres->resize((size_t)n_clusters * (size_t)n_features, (T)0.0);
-            best_labels->resize(n_samples, 0);
+            best_cluster_centres->assign((size_t)n_clusters * (size_t)n_features, (T)0.0);
+            best_labels->assign(n_samples, 0);
         }
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
@@ -620,42 +638,42 @@ template <typename T> da_status kmeans<T>::compute() {
 
         switch (algorithm) {
         case elkan:
-            workcc1.resize((size_t)n_clusters * (size_t)n_clusters, (T)0.0);
-            workcs1.resize((size_t)n_samples * (size_t)(n_clusters + padding), (T)0.0);
-            works1.resize(n_samples, (T)0.0);
+            workcc1.assign((size_t)n_clusters * (size_t)n_clusters, (T)0.0);
+            workcs1.assign((size_t)n_samples * (size_t)(n_clusters + padding), (T)0.0);
+            works1.assign(n_samples, (T)0.0);
             break;
         case macqueen:
-            workcs1.resize((size_t)max_block_size * (size_t)n_clusters, (T)0.0);
-            workc2.resize(n_clusters, (T)0.0);
-            works1.resize(n_samples, (T)0.0);
+            workcs1.assign((size_t)max_block_size * (size_t)n_clusters, (T)0.0);
+            workc2.assign(n_clusters, (T)0.0);
+            works1.assign(n_samples, (T)0.0);
             break;
         case lloyd:
-            workcs1.resize((size_t)max_block_size * (size_t)(n_clusters + padding) *
+            workcs1.assign((size_t)max_block_size * (size_t)(n_clusters + padding) *
                                (size_t)n_threads,
                            (T)0.0);
-            works1.resize(n_samples, (T)0.0);
+            works1.assign(n_samples, (T)0.0);
             break;
         case hartigan_wong:
-            works1.resize(n_samples, (T)0.0);
-            workc2.resize(n_clusters, (T)0.0);
-            workc3.resize(n_clusters, (T)0.0);
-            work_int3.resize(n_clusters, 0);
-            work_int4.resize(n_clusters, 0);
+            works1.assign(n_samples, (T)0.0);
+            workc2.assign(n_clusters, (T)0.0);
+            workc3.assign(n_clusters, (T)0.0);
+            work_int3.assign(n_clusters, 0);
+            work_int4.assign(n_clusters, 0);
             break;
         }
 
         if (init_method == kmeanspp) {
-            works1.resize(n_samples, (T)0.0);
-            works2.resize(n_samples, (T)0.0);
-            works3.resize(n_samples, (T)0.0);
-            works4.resize(n_samples, (T)0.0);
-            works5.resize(n_samples, (T)0.0);
+            works1.assign(n_samples, (T)0.0);
+            works2.assign(n_samples, (T)0.0);
+            works3.assign(n_samples, (T)0.0);
+            works4.assign(n_samples, (T)0.0);
+            works5.assign(n_samples, (T)0.0);
         }
 
         if (init_method == afk_mcmc) {
-            works1.resize(n_samples, (T)0.0);
-            works2.resize(n_samples, (T)0.0);
-            works3.resize(n_samples, (T)0.0);
+            works1.assign(n_samples, (T)0.0);
+            works2.assign(n_samples, (T)0.0);
+            works3.assign(n_samples, (T)0.0);
         }
 
     } catch (std::bad_alloc const &) {
@@ -735,12 +753,12 @@ template <typename T> da_status kmeans<T>::compute() {
             continue;
         }
 
-        valid_run_found = true;
-
         // Check if it's the best run yet
-        // Also swap if best_cluster_centres is empty (first valid run), to handle
-        // the case where NaN inertia (e.g. _Float16 overflow) prevents the < comparison
-        if (current_inertia < best_inertia || best_cluster_centres->empty()) {
+        // Also swap on the first valid run, to handle the case where NaN inertia
+        // (e.g. _Float16 overflow) prevents the < comparison
+        bool first_valid_run = !valid_run_found;
+        valid_run_found = true;
+        if (current_inertia < best_inertia || first_valid_run) {
             best_inertia = current_inertia;
             best_n_iter = current_n_iter;
             best_lp_n_iter = lp_n_iter;
diff --git a/source/core/clustering/kmeans/kmeans.hpp b/source/core/clustering/kmeans/kmeans.hpp
index ae36a01..3b70d1a 100644
--- a/source/core/clustering/kmeans/kmeans.hpp
+++ b/source/core/clustering/kmeans/kmeans.hpp
@@ -65,6 +65,10 @@ template <typename T> class kmeans : public basic_handle<T> {
     // Set true if set_init_centres is called
     bool centres_supplied = false;
 
+    // Size of the array passed to set_init_centres
+    da_int n_clusters_supplied = 0;
+    da_int n_features_supplied = 0;
+
     // Underlying algorithm
     da_int algorithm = lloyd;
 
-- 
2.43.0


From 38b6da535de676d2cad43689bae2111985fc9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:18 +0000
Subject: [PATCH 058/115] fix: nearest neighbours handle does not mix a new
 model with metric, labels or results of an earlier one

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index bb5e008..fe8b1b4 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -359,6 +359,8 @@ template <typename T> da_status neighbors<T>::set_params() {
         }
     }
 
+    this->get_squares = false;
+    this->manual_outlier_label_checked = false;
     if (metric == da_euclidean || (metric == da_minkowski && p == T(2.0)) ||
         metric == da_euclidean_gemm) {
         this->get_squares = true;
@@ -502,18 +504,28 @@ da_status neighbors<T>::set_data(da_int n_samples, da_int n_features, const T *X
                                    std::to_string(this->n_samples) + ".");
     }
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_train_temp) {
-        delete[] (X_train_temp);
-        X_train_temp = nullptr;
-    }
-
+    T *new_X_train_temp = nullptr;
+    const T *new_X_train = nullptr;
+    da_int new_ldx_train = ldx_train;
     da_status status = this->store_2D_array(
-        n_samples, n_features, X_train, ldx_train, &X_train_temp, &this->X_train,
-        this->ldx_train, "n_samples", "n_features", "X_train", "ldx_train");
+        n_samples, n_features, X_train, ldx_train, &new_X_train_temp, &new_X_train,
+        new_ldx_train, "n_samples", "n_features", "X_train", "ldx_train");
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    if (X_train_temp)
+        delete[] (X_train_temp);
+    X_train_temp = new_X_train_temp;
+    this->X_train = new_X_train;
+    this->ldx_train = new_ldx_train;
+    // Nothing found in earlier data is valid from here on
+    this->istrained_Xtrain = false;
+    this->model_trained = false;
+    this->radius_neighbors_count.clear();
+    this->radius_neighbors_indices.clear();
+    this->radius_neighbors_distances.clear();
+
     // Set internal parameters
     this->n_samples = n_samples;
     this->n_features = n_features;
@@ -560,6 +572,10 @@ da_status neighbors<T>::set_labels(da_int n_samples, const da_int *y_train_class
     // Set internal pointer to user data
     this->y_train_class = y_train_class;
     this->istrained_labels = true;
+    // What was derived from earlier labels has to be computed again
+    this->classes_computed = false;
+    this->most_frequent_label_computed = false;
+    this->manual_outlier_label_checked = false;
     return da_status_success;
 }
 
@@ -585,6 +601,8 @@ da_status neighbors<T>::set_targets(da_int n_samples, const T *y_train_reg) {
     // Set internal pointer to user data
     this->y_train_reg = y_train_reg;
     this->istrained_targets = true;
+    // What was derived from earlier targets has to be computed again
+    this->mean_target_computed = false;
     return da_status_success;
 }
 
-- 
2.43.0


From d29b742adaa77a583f2c036f4b416b28115fc49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 059/115] fix: training an approximate neighbours index again
 starts an empty one

---
 source/core/approximate_neighbors/approximate_neighbors.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index 07ae95e..abf6cbb 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -497,6 +497,11 @@ template <typename T> da_status approximate_neighbors<T>::train() {
             "da_approx_nn_set_training_data_s or da_approx_nn_set_training_data_d.");
     }
 
+    // Training starts a new index
+    this->model_trained = false;
+    this->data_is_added = false;
+    this->n_index = 0;
+
     da_status status = this->read_training_options();
     if (status != da_status_success) {
         return status;
-- 
2.43.0


From 4e4e958c5c6cf5b77e00163cece246517daf4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:09 +0000
Subject: [PATCH 060/115] fix: SVM refit starts from zero norms and counts;
 refused data do not replace the model

---
 source/core/svm/base_svm.cpp | 22 +++++++-----
 source/core/svm/svm.cpp      | 69 ++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 39 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index b69ce9c..a271359 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -146,6 +146,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     std::vector<T> local_kernel_matrix_row_major, kernel_diagonal;
     std::vector<da_int> real_indices;
     std::vector<T> X_temp; // Contain relevant slices of X for kernel computation
+    std::vector<T> X_class, y_class; // Samples of the two classes in the multiclass case
 
     if (mod == da_svm_model::svr || mod == da_svm_model::nusvr)
         actual_size = n * 2;
@@ -162,8 +163,15 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     da_int no_diff_counter = 0;
     // For multiclass we take slices of user's data on indexes where class is i or j (those indexes are stored in idx_class and obtained in set_data())
     if (ismulticlass) {
-        X = new T[n * p];
-        y = new T[n];
+        try {
+            X_class.resize(n * p);
+            y_class.resize(n);
+        } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
+        X = X_class.data();
+        y = y_class.data();
 
         // 0 is transformed to -1 in initialisation
         for (da_int i = 0; i < n; i++)
@@ -226,7 +234,8 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     case svm_kernel::rbf:
         kernel_f = &rbf_wrapper<T>;
         try {
-            x_norm_aux.resize(n + padding);
+            // Summed up below
+            x_norm_aux.assign(n + padding, T(0));
             y_norm_aux.resize(ws_size + padding);
         } catch (std::bad_alloc &) {
             return da_error(err, da_status_memory_error, "Memory allocation error");
@@ -286,7 +295,8 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         // Update gradient
         alpha_diff.resize(ws_size);
         // Result handling
-        n_support_per_class.resize(2, 0);
+        // Counted up in set_sv()
+        n_support_per_class.assign(2, 0);
     } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
         return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
@@ -372,10 +382,6 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         }
     }
 
-    if (ismulticlass) {
-        delete[] X;
-        delete[] y;
-    }
     return status;
 }
 
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 405dc20..c05cf4d 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -280,56 +280,60 @@ da_status svm<T>::get_result(da_result query, da_int *dim, da_int *result) {
 template <typename T>
 da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
                            da_int ldx_train, const T *y_in) {
-    nrow = n_samples;
-    ncol = n_features;
-    ismulticlass = false;
-    try {
-        is_sv.resize(n_samples);
-    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
-        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
-                        "Memory allocation error");
-    }
-    // Guard against memory leaks due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-        X = nullptr;
-    }
-
     if (mod == da_svm_model::svm_undefined)
         return da_error(this->err, da_status_unknown_query,
                         "SVM model has not been selected.");
 
+    // Check everything before replacing the data of an earlier call
     da_status status =
-        this->store_2D_array(n_samples, n_features, X_in, ldx_train, &X_temp, &X,
-                             this->ldx_train, "n_samples", "n_features", "X", "ldx");
-    if (status != da_status_success)
-        return status;
-
-    status = this->check_1D_array(n_samples, y_in, "n_samples", "y", 1);
+        this->check_1D_array(n_samples, y_in, "n_samples", "y", 1);
     if (status != da_status_success)
         return status;
 
-    y = y_in;
-    // Find n_class and validate y for classification
+    da_int new_n_class = 2, new_n_classifiers = 1; // Regression
     if (mod == da_svm_model::svc || mod == da_svm_model::nusvc) {
+        // Find n_class and validate y for classification
         // Check if y contains only whole numbers
         for (da_int i = 0; i < n_samples; i++)
-            if (y[i] != std::round(y[i]))
+            if (y_in[i] != std::round(y_in[i]))
                 return da_error(this->err, da_status_invalid_input,
                                 "Labels must be whole numbers from 0 to K-1, where K is "
                                 "the number of classes.");
         // y is assumed to only contain values from 0 to K-1 (K being the number of classes)
-        n_class = (da_int)(std::round(*std::max_element(y, y + n_samples)) + 1);
-        if (n_class < 2)
+        new_n_class =
+            (da_int)(std::round(*std::max_element(y_in, y_in + n_samples)) + 1);
+        if (new_n_class < 2)
             return da_error(this->err, da_status_invalid_input,
                             "Number of classes must be at least 2.");
-        n_classifiers = n_class * (n_class - 1) / 2;
-    } else { // Regression
-        n_class = 2;
-        n_classifiers = 1;
+        new_n_classifiers = new_n_class * (new_n_class - 1) / 2;
     }
+
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx_train = ldx_train;
+    status = this->store_2D_array(n_samples, n_features, X_in, ldx_train, &new_X_temp,
+                                  &new_X, new_ldx_train, "n_samples", "n_features", "X",
+                                  "ldx");
+    if (status != da_status_success)
+        return status;
+
+    // Guard against memory leaks due to multiple calls using the same class instantiation
+    if (X_temp)
+        delete[] (X_temp);
+    // The model and data of an earlier call are given up from here on
+    loadingdone = false;
+    this->model_trained = false;
+    X_temp = new_X_temp;
+    X = new_X;
+    this->ldx_train = new_ldx_train;
+    y = y_in;
+    nrow = n_samples;
+    ncol = n_features;
+    ismulticlass = false;
+    n_class = new_n_class;
+    n_classifiers = new_n_classifiers;
     try {
+        is_sv.resize(n_samples);
         classifiers.resize(n_classifiers);
         class_sizes.resize(n_class);
         bias.resize(n_classifiers);
@@ -482,6 +486,9 @@ template <typename T> da_status svm<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_svm_set_data_s or da_svm_set_data_d.");
 
+    // Nothing computed earlier is valid from here on
+    this->model_trained = false;
+
     // Here is logic to get default gamma 1/(ncol*var(X)), we only do that for kernels that use gamma
     T gamma_temp = 1;
     this->opts.get("kernel", kernel_string, kernel_enum);
-- 
2.43.0


From 260b3a1e148af545d9138fb16ea6141e15fac9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:55 +0000
Subject: [PATCH 061/115] fix: SVM working set with too few eligible indexes
 repeated some or kept those of an earlier fit

---
 source/core/svm/base_svm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index a271359..8884198 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -335,6 +335,14 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
             }
             outer_wss(actual_size, ws_indexes, ws_indicator, n_selected);
         }
+        // Fewer than ws_size indexes may be eligible: complete the working set with others, so that
+        // no index appears in it twice
+        for (da_int i = 0; i < actual_size && n_selected < ws_size; i++) {
+            if (!ws_indicator[i]) {
+                ws_indexes[n_selected++] = i;
+                ws_indicator[i] = true;
+            }
+        }
         //////////
         // Compute kernel matrix using working set indexes
         kernel_compute(ws_indexes, ws_size, X_temp, kernel_matrix, ptr_kernel_col, cache);
-- 
2.43.0


From 13789c7359e6ad23ec24553efc9f76222a0fea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:18 +0000
Subject: [PATCH 062/115] fix: cubic spline values and derivatives keep their
 own leading dimension, order and number of dimensions

---
 .../cubic_spline/cubic_spline.cpp             | 63 ++++++-------------
 .../interpolation/interpolation_generic.hpp   | 35 +++++++----
 2 files changed, 42 insertions(+), 56 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 7e577ff..216921f 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -160,9 +160,7 @@ template <typename T> void cubic_spline<T>::coeffs_from_second_derivatives() {
         da_int start_dy = d * (this->n_sites - 1);
         da_int start_dim = d * 4 * (this->n_sites - 1);
         for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int y_idx = this->storage_order == (da_int)row_major
-                               ? (i * this->dim_y + d)
-                               : (d * this->n_sites + i);
+            da_int y_idx = i * this->y_site_inc + d * this->y_dim_inc;
             coeffs[start_dim + 4 * i + 3] =
                 (z[start_z + i + 1] - z[start_z + i]) / (6 * this->dx[i]); // A_i
             coeffs[start_dim + 4 * i + 2] = z[start_z + i] / 2;            // B_i
@@ -308,53 +306,28 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
                         "Memory allocation error");
     }
 
-    if (this->storage_order == column_major || this->dim_y <= 1) {
-        for (da_int d = 0; d < this->dim_y; d++) {
-            da_int start_dim = d * 4 * (this->n_sites - 1);
-            da_int start_y = d * this->n_sites;
-            da_int start_dy = d * (this->n_sites - 1);
-
-            for (da_int i = 0; i < this->n_sites - 1; i++) {
-                T h_i = this->dx[i];
-                T y_i = this->y[start_y + i];
-                T yp_i = this->y_deriv[start_y + i];
-                T yp_ip1 = this->y_deriv[start_y + i + 1];
-                T dy_i = this->dy[start_dy + i];
-
-                T h_i2 = h_i * h_i;
-                T h_i3 = h_i2 * h_i;
-
-                coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * i + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * i + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
-        }
-    } else {
-        for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int start_y = i * this->dim_y;
-            da_int start_dim = i * 4;
+    for (da_int d = 0; d < this->dim_y; d++) {
+        da_int start_dim = d * 4 * (this->n_sites - 1);
+        da_int start_dy = d * (this->n_sites - 1);
+        const T *y_d = &this->y[d * this->y_dim_inc];
+        const T *yp_d = &this->y_deriv[d * this->y_deriv_dim_inc];
 
+        for (da_int i = 0; i < this->n_sites - 1; i++) {
             T h_i = this->dx[i];
+            T y_i = y_d[i * this->y_site_inc];
+            T yp_i = yp_d[i * this->y_deriv_site_inc];
+            T yp_ip1 = yp_d[(i + 1) * this->y_deriv_site_inc];
+            T dy_i = this->dy[start_dy + i];
+
             T h_i2 = h_i * h_i;
             T h_i3 = h_i2 * h_i;
 
-            for (da_int d = 0; d < this->dim_y; d++) {
-                da_int d_start = d * (this->n_sites - 1);
-                T y_i = this->y[start_y + d];
-                T yp_i = this->y_deriv[start_y + d];
-                T yp_ip1 = this->y_deriv[start_y + this->dim_y + d];
-                T dy_i = this->dy[d_start + i];
-
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
+            coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
+            coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
+            coeffs[start_dim + 4 * i + 2] =
+                3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
+            coeffs[start_dim + 4 * i + 3] =
+                -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
         }
     }
 
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..836fd8d 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -44,9 +44,9 @@ template <typename T> class interpolation_generic {
     // Dimensions
     da_int n_sites = 0; // Number of interpolation sites (data points)
     da_int dim_y = 0;   // number of dimensions of interpolation values y
-    da_int ldy = 0;
     // Interpolation points (x_i, y_i)
-    da_order storage_order = column_major;
+    // Distance in y and y_deriv between consecutive sites and between dimensions
+    da_int y_site_inc = 1, y_dim_inc = 0, y_deriv_site_inc = 1, y_deriv_dim_inc = 0;
     T *x_internal = nullptr;
     const T *x_sites = nullptr, *x_usr = nullptr;
     const T *y = nullptr;
@@ -263,38 +263,51 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     da_int check_data, sto;
     this->opts->get("storage order", opt_order, sto);
     this->opts->get("check data", check_data_str, check_data);
-    this->storage_order = da_order(sto);
+    da_order storage_order = da_order(sto);
 
     da_status status = ARCH::da_utils::check_2D_array(
-        check_data != 0, this->storage_order, this->err, n, dim, y_data, ldy_data,
+        check_data != 0, storage_order, this->err, n, dim, y_data, ldy_data,
         "n_sites", "dim", "y_data", "ldy_data", 2, 1);
     if (status != da_status_success)
         return status;
 
-    this->n_sites = n;
+    da_int site_inc = storage_order == column_major ? 1 : ldy_data;
+    da_int dim_inc = storage_order == column_major ? ldy_data : 1;
 
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
+        if (values_set && dim != this->dim_y)
+            return da_error(this->err, da_status_invalid_input,
+                            "dim must match the dimension of the values.");
+        this->n_sites = n;
         this->dim_y = dim;
-        this->ldy = ldy_data;
+        y_deriv_site_inc = site_inc;
+        y_deriv_dim_inc = dim_inc;
         y_deriv = y_data;
         derivatives_set = true;
     } else {
         try {
-            this->dy.resize((this->n_sites - 1) * dim);
+            this->dy.resize((n - 1) * dim);
         } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error");
         }
 
+        // Derivatives given for another number of dimensions do not belong to these values
+        if (dim != this->dim_y)
+            derivatives_set = false;
+
         // Copy usr values and pointer
+        this->n_sites = n;
         this->dim_y = dim;
-        this->ldy = ldy_data;
+        y_site_inc = site_inc;
+        y_dim_inc = dim_inc;
         y = y_data;
 
+        // Always store dy in column major order
         if (storage_order == column_major) {
             for (da_int j = 0; j < dim; j++) {
-                da_int start_y = j * this->n_sites;
+                da_int start_y = j * ldy_data;
                 da_int start_dy = j * (this->n_sites - 1);
 #pragma omp simd
                 for (da_int i = 0; i < this->n_sites - 1; i++)
@@ -302,11 +315,11 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
                         this->y[start_y + i + 1] - this->y[start_y + i];
             }
         } else {
-            // Always store dy in column major order
             for (da_int i = 0; i < this->n_sites - 1; i++) {
 #pragma omp simd
                 for (da_int j = 0; j < dim; j++)
-                    dy[j * (n_sites - 1) + i] = y[(i + 1) * dim_y + j] - y[i * dim_y + j];
+                    dy[j * (n_sites - 1) + i] =
+                        y[(i + 1) * ldy_data + j] - y[i * ldy_data + j];
             }
         }
         values_set = true;
-- 
2.43.0


From 292ad98541b0b7e6d2ce8bcaa638fcef410c42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 063/115] fix: refused interpolation sites leave no trace in
 the handle

---
 .../interpolation/interpolation_generic.hpp   | 46 ++++++++++---------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 836fd8d..d84c134 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -127,37 +127,39 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
-    n_sites = n;
-    x_usr = x;
-    x_sites = x_usr;
-    index_size = n_sites + 1;
+    // Check that the sites are sorted and do not contain duplicates
+    for (da_int i = 0; i < n - 1; i++) {
+        if (!(x[i + 1] - x[i] > 0.))
+            return da_error(
+                this->err, da_status_invalid_input,
+                "All sites must be provided in strictly increasing order. x[" +
+                    std::to_string(i) + "] = " + std::to_string(x[i]) + " and x[" +
+                    std::to_string(i + 1) + "] = " + std::to_string(x[i + 1]));
+    }
 
     try {
-        dx.resize(n_sites - 1);
-        interval_index_lo.resize(index_size);
-        interval_index_up.resize(index_size);
+        dx.resize(n - 1);
+        interval_index_lo.resize(n + 1);
+        interval_index_up.resize(n + 1);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
 
+    n_sites = n;
+    x_usr = x;
+    x_sites = x_usr;
+    index_size = n_sites + 1;
+
     // Mark sites as non-uniform
     uniform_sites = false;
     x_start = x_sites[0];
     x_end = x_sites[n_sites - 1];
     x_range = x_end - x_start;
 
-    // Compute sites differences and check that the sites are sorted and do not contain duplicates
-    // (all dx elements are strictly positive)
-    for (da_int i = 0; i < n_sites - 1; i++) {
+    // Compute sites differences (all dx elements are strictly positive)
+    for (da_int i = 0; i < n_sites - 1; i++)
         dx[i] = x_sites[i + 1] - x_sites[i];
-        if (dx[i] <= 0.)
-            return da_error(
-                this->err, da_status_invalid_input,
-                "All sites must be provided in strictly increasing order. x[" +
-                    std::to_string(i) + "] = " + std::to_string(x_sites[i]) + " and x[" +
-                    std::to_string(i + 1) + "] = " + std::to_string(x_sites[i + 1]));
-    }
 
     // Build index:
     // interval_index_lo[i] = idx where x_sites[idx] <= x_start + i*dx_index
@@ -201,7 +203,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     if (n < 2)
         return da_error(this->err, da_status_invalid_input,
                         "Number of interpolation sites must be at least 2.");
-    if (x_end <= x_start)
+    if (!(x_end > x_start))
         return da_error(this->err, da_status_invalid_input,
                         "x_end must be greater than x_start.");
 
@@ -212,16 +214,16 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
-    n_sites = n;
     T dx_val = (x_end - x_start) / (T)(n - 1);
-    x_usr = nullptr;
     try {
-        x_internal = new T[n_sites];
-        dx.resize(n_sites - 1, dx_val);
+        dx.assign(n - 1, dx_val);
+        x_internal = new T[n];
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
     }
+    n_sites = n;
+    x_usr = nullptr;
     for (da_int i = 0; i < n; i++) {
         x_internal[i] = x_start + i * dx_val;
     }
-- 
2.43.0


From 43fe60584d36e1984d5f046ca6e4ec4510e3638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 064/115] fix: cell search returns the interval that contains
 the point, also at sites and far outside

---
 .../interpolation/interpolation_generic.hpp   | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d84c134..7219e88 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -348,20 +348,32 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
         return da_error(this->err, da_status_invalid_pointer,
                         "x_eval or cells array cannot be null.");
 
+    // Index of x in a uniform grid of n_cells cells, also for an x far outside the sites
+    auto clamp_index = [](T position, da_int n_cells) {
+        return position >= (T)n_cells ? n_cells : position > 0 ? (da_int)position : 0;
+    };
+    // The position in the grid is rounded: the cell found may be next to the one that contains x
+    auto containing_cell = [this](T x, da_int cell) {
+        while (cell > 0 && x < this->x_sites[cell])
+            cell--;
+        while (cell < this->n_sites - 2 && x >= this->x_sites[cell + 1])
+            cell++;
+        return cell;
+    };
+
     if (this->uniform_sites) {
         T dx_u = dx[0];
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = static_cast<da_int>((x - this->x_start) / dx_u);
-            cells[i] = std::clamp(idx, (da_int)0, this->n_sites - 2);
+            cells[i] = containing_cell(
+                x, clamp_index((x - this->x_start) / dx_u, this->n_sites - 2));
         }
     } else {
         T i_dx_u = (T)(index_size - 2) / x_range;
         // Binary search inside the indexed interval.
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = std::clamp((da_int)((x - x_start) * i_dx_u), (da_int)0,
-                                    (da_int)(index_size - 2));
+            da_int idx = clamp_index((x - x_start) * i_dx_u, index_size - 2);
             da_int left = interval_index_lo[idx];
             da_int right = interval_index_up[idx];
             while (right - left > 1) {
@@ -372,7 +384,7 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
                     left = mid;
                 }
             }
-            cells[i] = left;
+            cells[i] = containing_cell(x, left);
         }
     }
 
-- 
2.43.0


From 3e7d946d98e9eaf3f08c20550d309c1228647a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 065/115] fix: spline boundary conditions of another number of
 dimensions and unknown models are refused without effect

---
 .../cubic_spline/cubic_spline.cpp             | 31 ++++++++++++-------
 source/core/interpolation/interpolation.cpp   |  9 ++++--
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 216921f..8964cc7 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -73,23 +73,25 @@ da_status cubic_spline<T>::set_boundary_conditions(da_int dim, da_int left_order
         return da_error(this->err, da_status_invalid_pointer,
                         "left_values and right_values must not be null.");
 
-    da_status status =
-        this->opts->set("cubic spline type", "custom", da_options::setby_t::solver);
-    if (status != da_status_success)
-        return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
-                        "Internal error in the option setter.");
-
-    this->left_order = left_order;
-    this->right_order = right_order;
-
     // Copy the arrays
     try {
-        this->left_bc.assign(left_values, left_values + dim);
-        this->right_bc.assign(right_values, right_values + dim);
+        std::vector<T> left_tmp(left_values, left_values + dim),
+            right_tmp(right_values, right_values + dim);
+        this->left_bc.swap(left_tmp);
+        this->right_bc.swap(right_tmp);
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, "Memory allocation error");
     }
 
+    this->left_order = left_order;
+    this->right_order = right_order;
+
+    da_status status =
+        this->opts->set("cubic spline type", "custom", da_options::setby_t::solver);
+    if (status != da_status_success)
+        return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                        "Internal error in the option setter.");
+
     this->model_trained = false;
     this->custom_bc_set = true;
 
@@ -237,6 +239,13 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
             this->err, da_status_out_of_date,
             "Boundary conditions must be set for custom spline interpolation.");
 
+    if ((da_int)left_bc.size() != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The boundary conditions were set for " +
+                            std::to_string(left_bc.size()) +
+                            " dimensions and the values have " +
+                            std::to_string(this->dim_y) + ".");
+
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
     } else {
diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 9b8ef7e..730b5d2 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -50,10 +50,14 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
         return da_error(this->err, da_status_invalid_input,
                         "Cannot change the interpolation model once it has been set.");
 
-    this->model = model;
     switch (model) {
     case da_interpolation_model::interpolation_cubic_spline:
-        interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
+        try {
+            interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
+        } catch (std::bad_alloc const &) {
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
         break;
 
     default:
@@ -61,6 +65,7 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
                         "The model selected is invalid.");
         break;
     }
+    this->model = model;
 
     return da_status_success;
 }
-- 
2.43.0


From 4e08c501bb5d064f37072bcdbb4079173f9c40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 066/115] fix: exceptions do not leave the public interface

---
 source/core/dynamic_dispatch/macros.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/core/dynamic_dispatch/macros.h b/source/core/dynamic_dispatch/macros.h
index 710bccc..4abd908 100644
--- a/source/core/dynamic_dispatch/macros.h
+++ b/source/core/dynamic_dispatch/macros.h
@@ -28,6 +28,9 @@
 #ifndef MACROS_H
 #define MACROS_H
 
+#include <exception>
+#include <new>
+
 // Auxiliary macro for token concatenation
 #define CONCAT_HELPER(a, b) a##b
 #define CONCAT(a, b) CONCAT_HELPER(a, b)
@@ -131,8 +134,10 @@
                            "Zen 6 architecture not supported.");
 #endif
 
+// Exceptions do not leave the public APIs: failed allocations in particular become an error
+// status.
 #define DISPATCHER(err_buffer, code)                                                     \
-    {                                                                                    \
+    try {                                                                                \
         switch (context::get_context()->arch) {                                          \
         case generic:                                                                    \
             DYNAMIC_DISPATCH_GENERIC(err_buffer, code)                                   \
@@ -160,6 +165,12 @@
                 err_buffer, da_status_internal_error,                                    \
                 "Dynamic dispatcher trying to call an unknown architecture");            \
         }                                                                                \
+    } catch (std::bad_alloc const &) {                                                   \
+        return da_error_bypass(err_buffer, da_status_memory_error,                       \
+                               "Memory allocation error");                               \
+    } catch (std::exception const &) {                                                   \
+        return da_error_bypass(err_buffer, da_status_internal_error,                     \
+                               "An unexpected exception was raised.");                   \
     }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From c1d612976ff18ef06843e2afa5b1d59c58bc1f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 067/115] fix: spline boundary conditions are replaced only
 once nothing can fail

---
 .../interpolation/cubic_spline/cubic_spline.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 8964cc7..e45a115 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -73,25 +73,26 @@ da_status cubic_spline<T>::set_boundary_conditions(da_int dim, da_int left_order
         return da_error(this->err, da_status_invalid_pointer,
                         "left_values and right_values must not be null.");
 
-    // Copy the arrays
+    // Copy the arrays; the current conditions are kept until nothing can fail any more
+    std::vector<T> left_tmp, right_tmp;
     try {
-        std::vector<T> left_tmp(left_values, left_values + dim),
-            right_tmp(right_values, right_values + dim);
-        this->left_bc.swap(left_tmp);
-        this->right_bc.swap(right_tmp);
+        left_tmp.assign(left_values, left_values + dim);
+        right_tmp.assign(right_values, right_values + dim);
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, "Memory allocation error");
     }
 
-    this->left_order = left_order;
-    this->right_order = right_order;
-
     da_status status =
         this->opts->set("cubic spline type", "custom", da_options::setby_t::solver);
     if (status != da_status_success)
         return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
                         "Internal error in the option setter.");
 
+    this->left_order = left_order;
+    this->right_order = right_order;
+    this->left_bc.swap(left_tmp);
+    this->right_bc.swap(right_tmp);
+
     this->model_trained = false;
     this->custom_bc_set = true;
 
-- 
2.43.0


From 613c21acdce59ce87106dca6f04e2309357d4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 068/115] fix: a refused or failed nonlinear least squares
 problem leaves no trace in the handle; bounds and weights of another size are
 dropped

---
 source/core/nlls/nlls.cpp                 |  1 +
 source/core/nlls/nlls_public.hpp          | 11 +++++++++++
 source/core/optimization/optimization.cpp | 21 ++++++++++++++++-----
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/source/core/nlls/nlls.cpp b/source/core/nlls/nlls.cpp
index 490cb89..75f1c97 100644
--- a/source/core/nlls/nlls.cpp
+++ b/source/core/nlls/nlls.cpp
@@ -123,6 +123,7 @@ template <typename T> da_status nlls<T>::fit(da_int n_coef, T *coef, void *udata
     }
 
     this->udata = udata;
+    this->model_trained = false;
 
     status = this->solve(this->coef, udata);
     if (this->err->get_severity() == DA_ERROR) {
diff --git a/source/core/nlls/nlls_public.hpp b/source/core/nlls/nlls_public.hpp
index 74ce663..2b9b979 100644
--- a/source/core/nlls/nlls_public.hpp
+++ b/source/core/nlls/nlls_public.hpp
@@ -40,6 +40,17 @@ da_status nlls_define_residuals(da_handle handle, da_int n_coef, da_int n_res,
                         "handle was not initialized with handle_type=da_handle_nlls or "
                         "handle is invalid.");
 
+    // Nothing is changed by a problem that is refused
+    if (resfun == nullptr)
+        return da_error(handle->err, da_status_invalid_input,
+                        "resfun must point to the residual function.");
+    if (n_coef <= 0)
+        return da_error(handle->err, da_status_invalid_input,
+                        "Search space dimension must be positive, set nvar > 0");
+    if (n_res <= 0)
+        return da_error(handle->err, da_status_invalid_input,
+                        "Number of residuals must be positive, set nres > 0");
+
     nlls->refresh();
     da_status status;
     status = nlls->add_vars(n_coef);
diff --git a/source/core/optimization/optimization.cpp b/source/core/optimization/optimization.cpp
index 976461a..9343e61 100644
--- a/source/core/optimization/optimization.cpp
+++ b/source/core/optimization/optimization.cpp
@@ -126,6 +126,11 @@ template <typename T> da_status da_optimization<T>::add_vars(da_int nvar) {
                         "Search space dimension must be positive, set nvar > 0");
     }
 
+    if (nvar != this->nvar) {
+        // Bounds given for another number of variables do not belong to this problem
+        this->l_usrptr = nullptr;
+        this->u_usrptr = nullptr;
+    }
     this->nvar = nvar;
     return da_status_success;
 }
@@ -137,6 +142,10 @@ template <typename T> da_status da_optimization<T>::add_res(da_int nres) {
                         "Number of residuals must be positive, set nres > 0");
     }
 
+    if (nres != this->nres) {
+        // Weights given for another number of residuals do not belong to this problem
+        this->w_usrptr = nullptr;
+    }
     this->nres = nres;
     return da_status_success;
 }
@@ -193,8 +202,6 @@ da_status da_optimization<T>::add_bound_cons(da_int nvar, T *l, T *u) {
         this->l_usrptr = nullptr;
         this->u_usrptr = nullptr;
     } else if (this->nvar == nvar) {
-        this->l_usrptr = l;
-        this->u_usrptr = u;
         // Call check_1D array only if l and u were supplied, since they are allowed to be null
         if (l) {
             status = this->check_1D_array(nvar, l, "n_coef", "lower", 1);
@@ -206,6 +213,8 @@ da_status da_optimization<T>::add_bound_cons(da_int nvar, T *l, T *u) {
             if (status != da_status_success)
                 return status;
         }
+        this->l_usrptr = l;
+        this->u_usrptr = u;
     } else {
         return da_error(this->err, da_status_invalid_input,
                         "Invalid size of nvar, it must match zero or the number of "
@@ -326,8 +335,12 @@ da_status da_optimization<T>::solve(std::vector<T> &x, void *usrdata) {
         x.assign(this->nvar, 0);
     }
 
-    // Lock solver
+    // Lock solver, it is unlocked on every way out
     this->locked = true;
+    struct unlock_t {
+        bool &locked;
+        ~unlock_t() { locked = false; }
+    } unlock{this->locked};
 
     // Print welcome banner
     da_int prnlvl;
@@ -423,8 +436,6 @@ da_status da_optimization<T>::solve(std::vector<T> &x, void *usrdata) {
         break;
     }
 
-    // Unlock solver
-    this->locked = false;
     return status; // Error message already loaded
 }
 
-- 
2.43.0


From 26ad7e840ad3e5b858f6491f4585cfc13d9c0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 069/115] fix: tree and forest log probabilities refuse a wrong
 number of classes; buffers released on every path of inference

---
 .../forest/decision_forest.hpp                |  1 +
 .../forest/decision_forest_inference.hpp      | 21 +++++++++----------
 .../decision_forest/tree/decision_tree.hpp    |  1 +
 .../tree/decision_tree_inference.hpp          | 18 +++++++---------
 4 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest.hpp b/source/core/decision_forest/forest/decision_forest.hpp
index c020702..b700ac9 100644
--- a/source/core/decision_forest/forest/decision_forest.hpp
+++ b/source/core/decision_forest/forest/decision_forest.hpp
@@ -39,6 +39,7 @@
 #include "tree/decision_tree.hpp"
 
 #include <deque>
+#include <memory>
 #include <functional>
 #include <limits>
 #include <numeric>
diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..7ce85c3 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -94,6 +94,7 @@ da_status decision_forest<T>::predict(da_int nsamp, da_int nfeat, const T *X_tes
                                             "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     if (this->opts.get("block size", block_size) != da_status_success)
         return da_error_trace( // LCOV_EXCL_LINE
@@ -130,9 +131,6 @@ da_status decision_forest<T>::predict(da_int nsamp, da_int nfeat, const T *X_tes
         y_pred[i] = class_i;
     }
 
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
-
     return da_status_success;
 }
 
@@ -142,8 +140,8 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
                                             da_int ldy) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_temp;
     da_int ldy_proba_temp;
@@ -173,12 +171,14 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
                                             "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     status = this->store_2D_array(nsamp, nclass, y_proba, ldy, &utility_ptr2,
                                   const_cast<const T **>(&y_proba_temp), ldy_proba_temp,
                                   "n_samples", "n_class", "y_proba", "ldy", 1);
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard2(utility_ptr2);
 
     std::vector<T> sum_proba, y_proba_tree;
     da_int n_blocks, block_rem;
@@ -235,9 +235,6 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
 
         da_utils::copy_transpose_2D_array_column_to_row_major(
             nsamp, n_class, y_proba_temp, ldy_proba_temp, y_proba, ldy);
-
-        delete[] (utility_ptr1);
-        delete[] (utility_ptr2);
     }
 
     return da_status_success;
@@ -249,7 +246,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status; // Error message already loaded
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
@@ -299,6 +299,7 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
                                             "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
     if (status != da_status_success)
@@ -342,8 +343,6 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
     }
     *score /= (T)nsamp;
 
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
     return da_status_success;
 }
 
diff --git a/source/core/decision_forest/tree/decision_tree.hpp b/source/core/decision_forest/tree/decision_tree.hpp
index 6ea8aeb..dd03293 100644
--- a/source/core/decision_forest/tree/decision_tree.hpp
+++ b/source/core/decision_forest/tree/decision_tree.hpp
@@ -40,6 +40,7 @@
 #include "options.hpp"
 
 #include <deque>
+#include <memory>
 #include <random>
 
 namespace ARCH {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 2c3d778..affcf5a 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -65,6 +65,7 @@ da_status decision_tree<T>::predict(da_int nsamp, da_int nfeat, const T *X_test,
                                             "n_features", "X_test", "ldx_test", mode);
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     // Fill y_pred with the values of all the requested samples
     node<T> *current_node;
@@ -89,8 +90,6 @@ da_status decision_tree<T>::predict(da_int nsamp, da_int nfeat, const T *X_test,
         }
         y_pred[i] = current_node->y_pred;
     }
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
     return da_status_success;
 }
 
@@ -100,8 +99,8 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                           da_int ldy, da_int mode) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_pred_temp;
     da_int ldy_proba_pred_temp;
@@ -136,6 +135,7 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                             "n_features", "X_test", "ldx_test", mode);
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     da_int mode_output = (mode == 0) ? 1 : mode;
     status = this->store_2D_array(nsamp, nclass, y_proba_pred, ldy, &utility_ptr2,
@@ -144,6 +144,7 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                   "ldy", mode_output);
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard2(utility_ptr2);
 
     // Fill y_proba_pred with the values of all the requested samples
     node<T> *current_node;
@@ -172,10 +173,6 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
 
         da_utils::copy_transpose_2D_array_column_to_row_major(
             nsamp, n_class, y_proba_pred_temp, ldy_proba_pred_temp, y_proba_pred, ldy);
-        if (utility_ptr1)
-            delete[] (utility_ptr1);
-        if (utility_ptr2)
-            delete[] (utility_ptr2);
     }
     return da_status_success;
 }
@@ -186,7 +183,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
@@ -237,6 +234,7 @@ da_status decision_tree<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
                                             "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
     if (status != da_status_success)
@@ -268,8 +266,6 @@ da_status decision_tree<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
             *accuracy += (T)1.0;
     }
     *accuracy = *accuracy / (T)nsamp;
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
 
     return da_status_success;
 }
-- 
2.43.0


From 2812607065ac36efb6f45699f6d83c8183a408c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 070/115] fix: tree and forest refits start from a clean state;
 refused data and failed fits leave no usable model

---
 .../decision_forest_handle_utilities.hpp      | 19 +++++++++++--------
 .../forest/decision_forest_training.hpp       | 12 +++++++++---
 .../tree/decision_tree_handle_utilities.hpp   | 18 +++++++++++-------
 .../tree/decision_tree_training_fit.hpp       | 11 ++++++++---
 .../tree/decision_tree_training_memory.hpp    |  4 +++-
 5 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 5ed8353..12c736b 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -106,23 +106,26 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
                                                 da_int n_class,
                                                 const da_int *usr_cat_feat) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-    }
-
+    // The data in the handle are replaced only once all the new data are accepted
+    T *X_new_temp = nullptr;
+    const T *X_new = nullptr;
+    da_int ldx_new = 0;
     da_status status =
-        this->store_2D_array(n_samples, n_features, X, ldx, &X_temp, &this->X, this->ldx,
+        this->store_2D_array(n_samples, n_features, X, ldx, &X_new_temp, &X_new, ldx_new,
                              "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> X_new_guard(X_new_temp);
 
     status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
     if (status != da_status_success)
         return status;
 
-    this->refresh();
+    delete[] X_temp;
+    X_temp = X_new_guard.release();
+    this->X = X_new;
+    this->ldx = ldx_new;
+    this->model_trained = false;
     this->y = y;
     this->n_samples = n_samples;
     this->n_features = n_features;
diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index b6bb16e..92f3ba1 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -108,6 +108,7 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error_trace(this->err, da_status_internal_error, // LCOV_EXCL_LINE
                               "Unexpected error while reading the optional parameters.");
 
+    this->model_trained = false;
     std::vector<da_int> seed_tree;
     std::vector<da_int> tree_threads;
     try {
@@ -128,8 +129,12 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error(this->err, da_status_invalid_option,
                         std::string("Exception: ") + e.what());
     }
-    if (use_hist)
-        X_binned->compute_histograms(X, n_samples, n_features, ldx);
+    if (use_hist) {
+        if (X_binned->compute_histograms(X, n_samples, n_features, ldx) !=
+            da_status_success)
+            return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+    }
 
     // Initialize the seeds of all the trees to be able to reproduce results if required
     std::mt19937 mt_engine;
@@ -207,7 +212,8 @@ template <typename T> da_status decision_forest<T>::fit() {
         tree_status =
             forest[i]->set_training_data(n_samples, n_features, X, ldx, y, n_class, n_obs,
                                          nullptr, usr_categorical_feat);
-        tree_status = forest[i]->fit();
+        if (tree_status == da_status_success)
+            tree_status = forest[i]->fit();
         forest[i]->clear_working_memory();
         if (tree_status != da_status_success) {
 #pragma omp atomic
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 621656b..8741603 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -47,17 +47,16 @@ da_status decision_tree<T>::set_training_data(da_int n_samples, da_int n_feature
                                               da_int *samples_subset,
                                               const da_int *usr_cat_feat) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-    }
-
+    // The data in the handle are replaced only once all the new data are accepted
+    T *X_new_temp = nullptr;
+    const T *X_new = nullptr;
+    da_int ldx_new = 0;
     da_status status =
-        this->store_2D_array(n_samples, n_features, X, ldx, &X_temp, &this->X, this->ldx,
+        this->store_2D_array(n_samples, n_features, X, ldx, &X_new_temp, &X_new, ldx_new,
                              "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> X_new_guard(X_new_temp);
 
     status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
     if (status != da_status_success)
@@ -70,6 +69,10 @@ da_status decision_tree<T>::set_training_data(da_int n_samples, da_int n_feature
                                    std::to_string(n_samples));
     }
 
+    delete[] X_temp;
+    X_temp = X_new_guard.release();
+    this->X = X_new;
+    this->ldx = ldx_new;
     this->refresh();
     this->y = y;
     this->n_samples = n_samples;
@@ -142,6 +145,7 @@ template <typename T> void decision_tree<T>::clear_working_memory() {
     feature_is_const = std::vector<char>();
     if (X_temp) {
         delete[] (X_temp);
+        X_temp = nullptr;
         X = nullptr;
     }
     if (X_binned && internal_bins) {
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 6fa9fdc..4e0e00e 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -461,7 +461,10 @@ template <typename T> da_status decision_tree<T>::fit() {
 
     // Compute the bins if needed
     if (use_hist && internal_bins) {
-        X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        status = X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        if (status != da_status_success)
+            return da_error_bypass(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                                   "Memory allocation error");
     }
 
     // Allocate the tree and class_props arrays
@@ -497,8 +500,10 @@ template <typename T> da_status decision_tree<T>::fit() {
         n_obs = samples_idx.size();
     }
 
-    // Reset number of leaves (if calling fit multiple times)
+    // Reset the counters and the queue (if calling fit multiple times)
     n_leaves = 0;
+    depth = 0;
+    nodes_to_treat.clear();
 
     // Initialize the root node
     n_nodes = 1;
@@ -532,7 +537,7 @@ template <typename T> da_status decision_tree<T>::fit() {
     } else {
         status = fit_serial();
     }
-    this->model_trained = true;
+    this->model_trained = status == da_status_success;
     return status;
 }
 
diff --git a/source/core/decision_forest/tree/decision_tree_training_memory.hpp b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
index 137a6e4..064df9c 100644
--- a/source/core/decision_forest/tree/decision_tree_training_memory.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
@@ -57,8 +57,10 @@ template <typename T> da_status decision_tree<T>::init_working_memory_raw() {
     if (init_cat_data) {
         max_cat =
             std::max((da_int)0, *std::max_element(cat_feat.begin(), cat_feat.end()));
-    } else
+    } else {
+        max_cat = 0;
         da_std::fill(cat_feat.begin(), cat_feat.end(), -1);
+    }
 
     // Allocate per-thread workspace buffers for raw data path
     try {
-- 
2.43.0


From 7dc007575c9ec0b4dd997a1fcb49a94e506ebe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 071/115] fix: statistics release their workspace when an
 allocation fails; da_syrk falls back instead of failing unnoticed

---
 .../correlation_and_covariance.cpp            | 19 ++++----
 .../statistical_utilities.cpp                 | 48 +++++++------------
 source/core/utilities/da_syrk.hpp             | 25 ++++++----
 3 files changed, 43 insertions(+), 49 deletions(-)

diff --git a/source/core/basic_statistics/correlation_and_covariance.cpp b/source/core/basic_statistics/correlation_and_covariance.cpp
index a497220..ba82765 100644
--- a/source/core/basic_statistics/correlation_and_covariance.cpp
+++ b/source/core/basic_statistics/correlation_and_covariance.cpp
@@ -60,10 +60,12 @@ da_status cov_corr_matrix(da_order order, da_int n, da_int p, const T *x, da_int
         return da_status_invalid_input;
 
     // We need a copy of x so we don't alter the input data
+    std::vector<T> x_work;
     T *x_copy = nullptr;
     da_int ldx_copy;
     try {
-        x_copy = new T[n * p];
+        x_work.resize(n * p);
+        x_copy = x_work.data();
     } catch (std::bad_alloc const &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
@@ -106,8 +108,9 @@ da_status cov_corr_matrix(da_order order, da_int n, da_int p, const T *x, da_int
     }
     da_uplo uplo = order == column_major ? da_upper : da_lower;
     if (status != da_status_success) {
-        status = da_status_internal_error; // LCOV_EXCL_LINE
-        goto exit;
+        return status == da_status_memory_error
+                   ? status
+                   : da_status_internal_error; // LCOV_EXCL_LINE
     }
 
     if (scale_factor < 1 || compute_corr) {
@@ -115,10 +118,12 @@ da_status cov_corr_matrix(da_order order, da_int n, da_int p, const T *x, da_int
     }
 
     // Form alpha * X^T X in mat
-    da_syrk(order, uplo, da_trans, p, n, (T)1.0 / scale_factor, x_copy, ldx_copy, (T)0.0,
-            mat, ldmat);
+    status = da_syrk(order, uplo, da_trans, p, n, (T)1.0 / scale_factor, x_copy, ldx_copy,
+                     (T)0.0, mat, ldmat);
+    if (status != da_status_success)
+        return status;
 
-    // Copy the upper triangle into the lower triangle
+        // Copy the upper triangle into the lower triangle
 #pragma omp parallel for schedule(static) default(none) shared(mat, ldmat, p)
     for (da_int i = 0; i < (p - 1); ++i) {
 #pragma omp simd
@@ -135,8 +140,6 @@ da_status cov_corr_matrix(da_order order, da_int n, da_int p, const T *x, da_int
         }
     }
 
-exit:
-    delete[] x_copy;
     return status;
 }
 
diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index bdaf37e..ef65278 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -67,6 +67,8 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     if (mode != 0 && mode != 1)
         return da_status_invalid_input;
 
+    // Workspace, released on every path out of here
+    std::vector<T> amean_work, var_work;
     T *amean = nullptr, *var = nullptr;
     T **internal_shift, **internal_scale;
 
@@ -116,18 +118,17 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     if (shift_is_null && scale_is_null) {
         // If both input arrays are null, get the mean and variance
         try {
-            amean = new T[length];
-            var = new T[length];
+            amean_work.resize(length);
+            amean = amean_work.data();
+            var_work.resize(length);
+            var = var_work.data();
         } catch (std::bad_alloc const &) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
 
         status = variance(column_major, axis, n, p, x, ldx, dof, amean, var);
-        if (status != da_status_success) {
-            delete[] amean;
-            delete[] var;
+        if (status != da_status_success)
             return status;
-        }
 
         for (da_int i = 0; i < length; i++) {
             var[i] = da_std::sqrt(var[i]);
@@ -138,18 +139,16 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     } else if (shift_is_null) {
         // Shift is null so set internal shift to 0
         try {
-            amean = new T[length];
+            amean_work.resize(length);
+            amean = amean_work.data();
         } catch (std::bad_alloc const &) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         // If we need to compute standard deviations, do so
         if (scale_is_zero) {
             status = variance(column_major, axis, n, p, x, ldx, dof, amean, scale);
-            if (status != da_status_success) {
-                delete[] amean;
-                delete[] var;
+            if (status != da_status_success)
                 return status;
-            }
             for (da_int i = 0; i < length; i++) {
                 scale[i] = da_std::sqrt(scale[i]);
             }
@@ -160,18 +159,16 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     } else if (scale_is_null) {
         // Scale is null so set internal scale to 1
         try {
-            var = new T[length];
+            var_work.resize(length);
+            var = var_work.data();
         } catch (std::bad_alloc const &) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         // If we need to compute means, do so
         if (shift_is_zero) {
             status = mean(column_major, axis, n, p, x, ldx, shift);
-            if (status != da_status_success) {
-                delete[] amean;
-                delete[] var;
+            if (status != da_status_success)
                 return status;
-            }
         }
         da_std::fill(var, var + length, 1.0);
         internal_scale = &var;
@@ -179,29 +176,20 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
         // Shift and scale are both to be used, but one of both might contain only zeros
         if (shift_is_zero && scale_is_zero) {
             status = variance(column_major, axis, n, p, x, ldx, dof, shift, scale);
-            if (status != da_status_success) {
-                delete[] amean;
-                delete[] var;
+            if (status != da_status_success)
                 return status;
-            }
             for (da_int i = 0; i < length; i++) {
                 scale[i] = da_std::sqrt(scale[i]);
             }
         } else if (shift_is_zero) {
             status = mean(column_major, axis, n, p, x, ldx, shift);
-            if (status != da_status_success) {
-                delete[] amean;
-                delete[] var;
+            if (status != da_status_success)
                 return status;
-            }
         } else if (scale_is_zero) {
             // Compute standard deviations about the supplied means
             status = moment(column_major, axis, n, p, x, ldx, 2, 1, shift, scale);
-            if (status != da_status_success) {
-                delete[] amean;
-                delete[] var;
+            if (status != da_status_success)
                 return status;
-            }
             for (da_int i = 0; i < length; i++) {
                 // Use wider_t so that in _Float16 we can safely compute the input to sqrt without overflowing
                 scale[i] = static_cast<T>(
@@ -265,13 +253,9 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
 
         break;
     default:
-        delete[] amean;                  // LCOV_EXCL_LINE
-        delete[] var;                    // LCOV_EXCL_LINE
         return da_status_internal_error; // LCOV_EXCL_LINE
     }
 
-    delete[] amean;
-    delete[] var;
     return status;
 }
 
diff --git a/source/core/utilities/da_syrk.hpp b/source/core/utilities/da_syrk.hpp
index cd59688..cd3837b 100644
--- a/source/core/utilities/da_syrk.hpp
+++ b/source/core/utilities/da_syrk.hpp
@@ -92,16 +92,20 @@ da_status da_syrk(da_order order, da_uplo uplo, da_transpose transpose, da_int n
     bool block_override = false;
     const char block_size_override[]{"syrk.block_size_override"};
     auto &settings = context::get_context()->get_hidden_settings();
-    if (settings.find(block_size_override) != settings.end()) {
-        // Override min_block_size
-        std::string block_size_str = settings[block_size_override];
+    try {
+        if (settings.find(block_size_override) != settings.end()) {
+            // Override min_block_size
+            std::string block_size_str = settings[block_size_override];
 
-        min_block_size = static_cast<da_int>(std::stoi(block_size_str));
-        // max_blocks just has to be something reasonably large so it doesn't
-        // influence the desired blocking override
-        max_blocks = 512;
+            min_block_size = static_cast<da_int>(std::stoi(block_size_str));
+            // max_blocks just has to be something reasonably large so it doesn't
+            // influence the desired blocking override
+            max_blocks = 512;
 
-        block_override = true;
+            block_override = true;
+        }
+    } catch (std::bad_alloc const &) {
+        // This routine is called from parallel regions: do without the override
     }
 
     if (k <= n || max_blocks == 1) {
@@ -147,7 +151,10 @@ da_status da_syrk(da_order order, da_uplo uplo, da_transpose transpose, da_int n
     try {
         C_tmp.resize(C_tmp_size);
     } catch (std::bad_alloc const &) {
-        return da_status_memory_error;
+        // Without the workspace the product is formed in one go
+        da_blas::cblas_syrk(cblas_order, cblas_uplo, cblas_transpose, n, k, alpha, A, ldA,
+                            beta, C, ldC);
+        return da_status_success;
     }
 
     da_int A_block_offset;
-- 
2.43.0


From 27425c929ee8dc0325f40aea5aa5113062e52a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 072/115] fix: standardize with given shifts and unknown scales
 divides by the number of elements, not of statistics

---
 source/core/basic_statistics/statistical_utilities.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index ef65278..07d4a38 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -92,11 +92,13 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
         break;
     }
 
+    // Number of elements that contribute to each of the statistics
+    da_int count = axis == da_axis_col ? n : (axis == da_axis_row ? p : n * p);
     da_int scale_factor = dof;
     if (dof < 0) {
-        scale_factor = length;
+        scale_factor = count;
     } else if (dof == 0) {
-        scale_factor = length - 1;
+        scale_factor = std::max(count - 1, (da_int)1);
     }
 
     // These booleans will help us determine which route the computation should take
@@ -193,7 +195,7 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
             for (da_int i = 0; i < length; i++) {
                 // Use wider_t so that in _Float16 we can safely compute the input to sqrt without overflowing
                 scale[i] = static_cast<T>(
-                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(length) *
+                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(count) *
                                  static_cast<da_fp16::wider_t<T>>(scale[i]) /
                                  static_cast<da_fp16::wider_t<T>>(scale_factor)));
             }
-- 
2.43.0


From 4eb5cf1d4575fb42c0d21d8c2ad654fecf8f60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 073/115] fix: no exception leaves a public function of the C
 interface

---
 source/core/csv/read_csv_public.cpp        |  7 ++--
 source/core/dynamic_dispatch/macros.h      | 13 ++++++++
 source/core/utilities/da_handle_public.cpp | 38 +++++++++++++++-------
 source/core/utilities/options_public.cpp   | 25 +++++++++-----
 source/core/utilities/utils_public.cpp     | 37 +++++++++++++--------
 5 files changed, 85 insertions(+), 35 deletions(-)

diff --git a/source/core/csv/read_csv_public.cpp b/source/core/csv/read_csv_public.cpp
index ac4f772..9d08876 100644
--- a/source/core/csv/read_csv_public.cpp
+++ b/source/core/csv/read_csv_public.cpp
@@ -27,21 +27,24 @@
 
 #include "char_to_num.hpp"
 #include "da_datastore.hpp"
+#include "macros.h"
 #include "read_csv.hpp"
 
 /* Public facing routines for reading in a csv and storing an array of data */
 
 template <typename T>
 da_status da_read_csv(da_datastore store, const char *filename, T **a, da_int *n_rows,
-                      da_int *n_cols, char ***headings) {
+                      da_int *n_cols, char ***headings) try {
     if (store == nullptr)
         return da_status_store_not_initialized;
     return da_csv::read_csv(store->csv_parser, filename, a, n_rows, n_cols, headings);
 }
+DA_CATCH_STATUS
 
-da_status da_delete_string_array(char ***headings, da_int n_cols) {
+da_status da_delete_string_array(char ***headings, da_int n_cols) try {
     return da_csv::delete_string_array(headings, n_cols);
 }
+DA_CATCH_STATUS
 
 template da_status da_read_csv<float>(da_datastore, const char *, float **, da_int *,
                                       da_int *, char ***);
diff --git a/source/core/dynamic_dispatch/macros.h b/source/core/dynamic_dispatch/macros.h
index 4abd908..f284900 100644
--- a/source/core/dynamic_dispatch/macros.h
+++ b/source/core/dynamic_dispatch/macros.h
@@ -31,6 +31,19 @@
 #include <exception>
 #include <new>
 
+// Handlers of the function-try-blocks of the public APIs which do not dispatch: exceptions do not
+// leave the library, failed allocations in particular become an error status
+#define DA_CATCH_STATUS                                                                  \
+    catch (std::bad_alloc const &) {                                                     \
+        return da_status_memory_error;                                                   \
+    }                                                                                    \
+    catch (std::exception const &) {                                                     \
+        return da_status_internal_error;                                                 \
+    }
+#define DA_CATCH_VOID                                                                    \
+    catch (std::exception const &) {                                                     \
+    }
+
 // Auxiliary macro for token concatenation
 #define CONCAT_HELPER(a, b) a##b
 #define CONCAT(a, b) CONCAT_HELPER(a, b)
diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 111dee2..6d6da41 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -32,7 +32,7 @@
 
 /* Create (and populate with defaults) */
 template <typename T>
-da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
+da_status da_handle_init(da_handle *handle, da_handle_type handle_type) try {
 
     try {
         *handle = new _da_handle;
@@ -131,6 +131,8 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
 #endif
             DISPATCHER((*handle)->err,
                        alg_handle = new da_nlls::nlls<T>(status, *(*handle)->err));
+            if (status == da_status_success)
+                status = (*handle)->err->get_status();
             if (status != da_status_success) {
                 delete alg_handle;
                 return status;
@@ -197,8 +199,9 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
 
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_handle_print_error_message(da_handle handle) {
+da_status da_handle_print_error_message(da_handle handle) try {
     // check to see if we have a valid handle
     if (handle) {
         if (handle->err) {
@@ -210,9 +213,10 @@ da_status da_handle_print_error_message(da_handle handle) {
     }
     return da_status_invalid_input;
 }
+DA_CATCH_STATUS
 
 /* Destroy the da_handle struct */
-void da_handle_destroy(da_handle *handle) {
+void da_handle_destroy(da_handle *handle) try {
 
     if (handle) {
         if (*handle) {
@@ -229,13 +233,14 @@ void da_handle_destroy(da_handle *handle) {
         *handle = nullptr;
     }
 }
+DA_CATCH_VOID
 
 /* Get results out of the handle
  * Defines are in aoclda_result.h
  */
 template <typename T>
 da_status da_handle_get_result(da_handle handle, da_result query, da_int *dim,
-                               T *result) {
+                               T *result) try {
     if (!handle)
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
@@ -267,16 +272,18 @@ da_status da_handle_get_result(da_handle handle, da_result query, da_int *dim,
                     "The handle does not have any results to export. Have you "
                     "initialized the handle and performed any calculation?");
 }
+DA_CATCH_STATUS
 
-da_status da_handle_get_error_message(da_handle handle, char **message) {
+da_status da_handle_get_error_message(da_handle handle, char **message) try {
     // Check to see if we have a valid handle
     if (handle) {
         return handle->err->get_mesg_char(message);
     }
     return da_status_invalid_input;
 }
+DA_CATCH_STATUS
 
-da_status da_handle_get_error_severity(da_handle handle, da_severity *severity) {
+da_status da_handle_get_error_severity(da_handle handle, da_severity *severity) try {
     // Check to see if we have a valid handle
     if (handle) {
         *severity = handle->err->get_severity();
@@ -284,8 +291,9 @@ da_status da_handle_get_error_severity(da_handle handle, da_severity *severity)
     }
     return da_status_invalid_input;
 }
+DA_CATCH_STATUS
 
-void da_handle_refresh(da_handle handle) {
+void da_handle_refresh(da_handle handle) try {
     if (handle) {
         if (handle->alg_handle_s != nullptr)
             handle->alg_handle_s->refresh();
@@ -293,9 +301,10 @@ void da_handle_refresh(da_handle handle) {
             handle->alg_handle_d->refresh();
     }
 }
+DA_CATCH_VOID
 
 /* Save (serialize) model */
-da_status da_handle_save_model(da_handle handle, const char *file_name) {
+da_status da_handle_save_model(da_handle handle, const char *file_name) try {
     if (handle == nullptr) {
         return da_status_invalid_pointer;
     }
@@ -312,8 +321,9 @@ da_status da_handle_save_model(da_handle handle, const char *file_name) {
                         "Memory allocation error");          // LCOV_EXCL_LINE
     }
 }
+DA_CATCH_STATUS
 
-da_status da_handle_save_model(da_handle handle, std::vector<char> &buffer) {
+da_status da_handle_save_model(da_handle handle, std::vector<char> &buffer) try {
     if (handle == nullptr) {
         return da_status_invalid_pointer;
     }
@@ -326,10 +336,11 @@ da_status da_handle_save_model(da_handle handle, std::vector<char> &buffer) {
                         "Memory allocation error");          // LCOV_EXCL_LINE
     }
 }
+DA_CATCH_STATUS
 
 /* Load (deserialize) model */
 da_status da_handle_load_model(da_handle *handle, const char *buffer_data,
-                               const size_t data_size) {
+                               const size_t data_size) try {
     if (handle == nullptr)
         return da_status_invalid_pointer;
     if (*handle != nullptr)
@@ -347,8 +358,9 @@ da_status da_handle_load_model(da_handle *handle, const char *buffer_data,
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
 }
+DA_CATCH_STATUS
 
-da_status da_handle_load_model(da_handle *handle, const char *file_name) {
+da_status da_handle_load_model(da_handle *handle, const char *file_name) try {
     if (handle == nullptr)
         return da_status_invalid_pointer;
     if (*handle != nullptr)
@@ -363,13 +375,15 @@ da_status da_handle_load_model(da_handle *handle, const char *file_name) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
 }
+DA_CATCH_STATUS
 
 /* Print saved versions of AOCL-DA and model serialization. */
-da_status da_handle_print_model_versions(da_handle handle) {
+da_status da_handle_print_model_versions(da_handle handle) try {
     if (handle == nullptr)
         return da_status_invalid_pointer;
     return handle->print_model_versions();
 }
+DA_CATCH_STATUS
 
 template da_status da_handle_init<float>(da_handle *, da_handle_type);
 template da_status da_handle_init<double>(da_handle *, da_handle_type);
diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 8254030..89917e6 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -24,13 +24,14 @@
 #include "aoclda.h"
 #include "da_datastore.hpp"
 #include "da_handle.hpp"
+#include "macros.h"
 #include "options.hpp"
 #include <string>
 
 // Public (C) handlers
 
 template <typename T>
-da_status da_options_set(da_handle handle, const char *option, T value) {
+da_status da_options_set(da_handle handle, const char *option, T value) try {
     da_status status;
 
     if (!handle)
@@ -55,9 +56,10 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
     }
     return da_status_success;
 }
+DA_CATCH_STATUS
 
 da_status da_options_get(da_handle handle, const char *option, char *value,
-                         da_int *lvalue, da_int *key) {
+                         da_int *lvalue, da_int *key) try {
     da_status status;
 
     if (!handle)
@@ -94,9 +96,10 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
         return da_error(handle->err, status, opts->errmsg);
     }
 }
+DA_CATCH_STATUS
 
 template <typename T>
-da_status da_options_get(da_handle handle, const char *option, T *value) {
+da_status da_options_get(da_handle handle, const char *option, T *value) try {
     da_status status;
 
     if (!handle)
@@ -121,8 +124,9 @@ da_status da_options_get(da_handle handle, const char *option, T *value) {
     }
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_options_print(da_handle handle) {
+da_status da_options_print(da_handle handle) try {
     if (!handle)
         return da_status_handle_not_initialized;
 
@@ -135,9 +139,10 @@ da_status da_options_print(da_handle handle) {
     handle->clear(); // Clean up handle logs
     return da_status_success;
 }
+DA_CATCH_STATUS
 
 template <typename T>
-da_status da_datastore_options_set(da_datastore store, const char *option, T value) {
+da_status da_datastore_options_set(da_datastore store, const char *option, T value) try {
     da_status status;
 
     if (!store)
@@ -151,9 +156,10 @@ da_status da_datastore_options_set(da_datastore store, const char *option, T val
     }
     return da_status_success;
 }
+DA_CATCH_STATUS
 
 da_status da_datastore_options_get(da_datastore store, const char *option, char *value,
-                                   da_int *lvalue) {
+                                   da_int *lvalue) try {
     da_status status;
 
     if (!store)
@@ -181,9 +187,10 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
         return da_error(store->err, status, store->opts->errmsg);
     }
 }
+DA_CATCH_STATUS
 
 template <typename T>
-da_status da_datastore_options_get(da_datastore store, const char *option, T *value) {
+da_status da_datastore_options_get(da_datastore store, const char *option, T *value) try {
     da_status status;
 
     if (!store)
@@ -197,8 +204,9 @@ da_status da_datastore_options_get(da_datastore store, const char *option, T *va
     }
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_datastore_options_print(da_datastore store) {
+da_status da_datastore_options_print(da_datastore store) try {
     if (!store)
         return da_status_store_not_initialized;
     if (store->opts) {
@@ -209,6 +217,7 @@ da_status da_datastore_options_print(da_datastore store) {
         return da_error(store->err, da_status_internal_error, "store is invalid?");
     }
 }
+DA_CATCH_STATUS
 
 template da_status da_options_set<float>(da_handle, const char *, float);
 template da_status da_options_set<double>(da_handle, const char *, double);
diff --git a/source/core/utilities/utils_public.cpp b/source/core/utilities/utils_public.cpp
index d024c47..42c9e7f 100644
--- a/source/core/utilities/utils_public.cpp
+++ b/source/core/utilities/utils_public.cpp
@@ -33,27 +33,30 @@ da_errors::error_bypass_t *nosave_utils(nullptr);
 
 template <typename T>
 da_status da_check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
-                        da_int ldx) {
+                        da_int ldx) try {
     DISPATCHER(nosave_utils,
                return (da_utils::check_data(order, n_rows, n_cols, X, ldx)));
 }
+DA_CATCH_STATUS
 
 template <typename T>
 da_status da_switch_order_copy(da_order order, da_int n_rows, da_int n_cols, const T *X,
-                               da_int ldx, T *Y, da_int ldy) {
+                               da_int ldx, T *Y, da_int ldy) try {
     DISPATCHER(nosave_utils, return (da_utils::switch_order_copy(order, n_rows, n_cols, X,
                                                                  ldx, Y, ldy)));
 }
+DA_CATCH_STATUS
 
 template <typename T>
 da_status da_switch_order_in_place(da_order order_X_in, da_int n_rows, da_int n_cols,
-                                   T *X, da_int ldx_in, da_int ldx_out) {
+                                   T *X, da_int ldx_in, da_int ldx_out) try {
     DISPATCHER(nosave_utils, return (da_utils::switch_order_in_place(
                                  order_X_in, n_rows, n_cols, X, ldx_in, ldx_out)));
 }
+DA_CATCH_STATUS
 
 da_status da_get_arch_info(da_int *len = nullptr, char *arch = nullptr,
-                           char *ns = nullptr) {
+                           char *ns = nullptr) try {
     std::string NS{"?"};
 
     context::get_context()->refresh();
@@ -125,27 +128,30 @@ da_status da_get_arch_info(da_int *len = nullptr, char *arch = nullptr,
     }
     return da_status_success;
 }
+DA_CATCH_STATUS
 
 template <typename T>
 da_status da_get_shuffled_indices(da_int m, da_int seed, da_int train_size,
                                   da_int test_size, da_int fp_precision, const T *classes,
-                                  da_int *shuffle_array) {
+                                  da_int *shuffle_array) try {
     DISPATCHER(nosave_utils, return (da_utils::get_shuffled_indices(
                                  m, seed, train_size, test_size, fp_precision, classes,
                                  shuffle_array)));
 }
+DA_CATCH_STATUS
 
 template <typename T>
 da_status da_train_test_split(da_order order, da_int m, da_int n, const T *X, da_int ldx,
                               da_int train_size, da_int test_size,
                               const da_int *shuffle_array, T *X_train, da_int ldx_train,
-                              T *X_test, da_int ldx_test) {
+                              T *X_test, da_int ldx_test) try {
     DISPATCHER(nosave_utils, return (da_utils::train_test_split(
                                  order, m, n, X, ldx, train_size, test_size,
                                  shuffle_array, X_train, ldx_train, X_test, ldx_test)));
 }
+DA_CATCH_STATUS
 
-da_status da_get_int_info(size_t *len, char *int_type) {
+da_status da_get_int_info(size_t *len, char *int_type) try {
     if (len == nullptr || int_type == nullptr)
         return da_status_invalid_input;
     if (*len < 3) {
@@ -162,8 +168,9 @@ da_status da_get_int_info(size_t *len, char *int_type) {
 
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_debug_set(const char *key, const char *value) {
+da_status da_debug_set(const char *key, const char *value) try {
     // assumes strings are null-terminated
     if (!key || !value) {
         return da_status_invalid_input;
@@ -184,8 +191,9 @@ da_status da_debug_set(const char *key, const char *value) {
     }
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_debug_get(const char *key, da_int lvalue, char *value) {
+da_status da_debug_get(const char *key, da_int lvalue, char *value) try {
     auto &settings = context::get_context()->get_hidden_settings();
     if (!key || !value) {
         // print all the dictionary
@@ -218,18 +226,21 @@ da_status da_debug_get(const char *key, da_int lvalue, char *value) {
     value[len] = '\0'; // null-terminate
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_print_model_metadata(const char *filename) {
+da_status da_print_model_metadata(const char *filename) try {
     if (filename == nullptr)
         return da_status_invalid_pointer;
 
     std::string filename_str{filename};
     return da_model_persistence::print_model_metadata(filename_str);
-};
+}
+DA_CATCH_STATUS
 
-da_status da_print_model_metadata(const std::vector<char> &file_data) {
+da_status da_print_model_metadata(const std::vector<char> &file_data) try {
     return da_model_persistence::print_model_metadata(file_data);
-};
+}
+DA_CATCH_STATUS
 
 template da_status da_check_data<float>(da_order, da_int, da_int, const float *, da_int);
 template da_status da_check_data<double>(da_order, da_int, da_int, const double *,
-- 
2.43.0


From cd97712b326515f9169bb6e0801dd70a3eb7e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 074/115] fix: da_vector keeps its contents and capacity when
 it cannot grow

---
 source/core/utilities/da_vector.hpp | 142 ++++++++++------------------
 1 file changed, 51 insertions(+), 91 deletions(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index c29e90d..eae2e2d 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -108,24 +108,20 @@ template <typename T> class da_vector {
     // Copy assignment operator
     da_vector &operator=(const da_vector &other) {
         if (this != &other) { // Self-assignment check
-            // Free existing data
-            if (_data) {
-                free(_data);
-                _data = nullptr;
-            }
-
-            // Copy size and capacity
-            _size = other._size;
-            _capacity = other._capacity;
-
-            // Allocate new memory and copy data
-            if (_capacity > 0) {
-                _data = (T *)malloc(_capacity * sizeof(T));
-                if (!_data) {
+            // Allocate new memory first so that nothing is lost if that fails
+            T *new_data = nullptr;
+            if (other._capacity > 0) {
+                new_data = (T *)malloc(other._capacity * sizeof(T));
+                if (!new_data) {
                     throw std::bad_alloc();
                 }
-                memcpy(_data, other._data, _size * sizeof(T));
+                if (other._size > 0)
+                    memcpy(new_data, other._data, other._size * sizeof(T));
             }
+            free(_data);
+            _data = new_data;
+            _size = other._size;
+            _capacity = other._capacity;
         }
         return *this;
     }
@@ -137,82 +133,34 @@ template <typename T> class da_vector {
     }
 
     void clear() {
-        if (_data) {
-            free(_data);
-            _data = nullptr;
+        T *new_data = (T *)malloc(INIT_CAPACITY * sizeof(T));
+        if (!new_data) {
+            throw std::bad_alloc(); // LCOV_EXCL_LINE
         }
+        free(_data);
+        _data = new_data;
         _size = 0;
         _capacity = INIT_CAPACITY;
-        _data = (T *)malloc(_capacity * sizeof(T));
-        if (!_data) {
-            throw std::bad_alloc(); // LCOV_EXCL_LINE
-        }
     }
 
     void push_back(const T &val) {
         if (_size == _capacity) {
-            _capacity <<= 1;
-            T *new_data = (T *)malloc(_capacity * sizeof(T));
-            if (!new_data) {
-                throw std::bad_alloc(); // LCOV_EXCL_LINE
-            }
-            memcpy(new_data, _data, _size * sizeof(T));
-            free(_data);
-            _data = new_data;
+            const T copy = val; // val may be an element of this vector
+            grow(_size + 1);
+            _data[_size++] = copy;
+            return;
         }
         _data[_size++] = val;
     }
 
     // Append the values of vec onto the end of the vector
-    void append(const da_vector<T> &vec) {
-        if (_size + vec.size() > _capacity) {
-            while (_size + vec.size() > _capacity)
-                _capacity <<= 1;
-            T *new_data = (T *)malloc(_capacity * sizeof(T));
-            if (!new_data) {
-                throw std::bad_alloc(); // LCOV_EXCL_LINE
-            }
-            memcpy(new_data, _data, _size * sizeof(T));
-            free(_data);
-            _data = new_data;
-        }
-        memcpy(_data + _size, vec.data(), vec.size() * sizeof(T));
-        _size += vec.size();
-    }
+    void append(const da_vector<T> &vec) { append(vec.data(), vec.size()); }
 
-    void append(const std::vector<T> &vec) {
-        if (_size + vec.size() > _capacity) {
-            while (_size + vec.size() > _capacity)
-                _capacity <<= 1;
-            T *new_data = (T *)malloc(_capacity * sizeof(T));
-            if (!new_data) {
-                throw std::bad_alloc(); // LCOV_EXCL_LINE
-            }
-            memcpy(new_data, _data, _size * sizeof(T));
-            free(_data);
-            _data = new_data;
-        }
-        memcpy(_data + _size, vec.data(), vec.size() * sizeof(T));
-        _size += vec.size();
-    }
+    void append(const std::vector<T> &vec) { append(vec.data(), vec.size()); }
 
     void resize(size_t new_size) {
-        if (new_size > _capacity) {
-            // Need to grow capacity
-            while (_capacity < new_size)
-                _capacity <<= 1;
-            T *new_data = (T *)malloc(_capacity * sizeof(T));
-            if (!new_data) {
-                throw std::bad_alloc(); // LCOV_EXCL_LINE
-            }
-            if (_data && _size > 0) {
-                memcpy(new_data, _data, _size * sizeof(T));
-            }
-            if (_data) {
-                free(_data);
-            }
-            _data = new_data;
-        }
+        if (new_size > _capacity)
+            grow(new_size);
 
         // Simply update size - no need to initialize new elements for basic types
         _size = new_size;
@@ -220,25 +168,37 @@ template <typename T> class da_vector {
 
     // Reserve capacity without changing size
     void reserve(size_t new_capacity) {
-        if (new_capacity > _capacity) {
-            while (_capacity < new_capacity)
-                _capacity <<= 1;
-            T *new_data = (T *)malloc(_capacity * sizeof(T));
-            if (!new_data) {
-                throw std::bad_alloc(); // LCOV_EXCL_LINE
-            }
-            if (_data && _size > 0) {
-                memcpy(new_data, _data, _size * sizeof(T));
-            }
-            if (_data) {
-                free(_data);
-            }
-            _data = new_data;
-        }
+        if (new_capacity > _capacity)
+            grow(new_capacity);
         // Note: size remains unchanged, only capacity may increase
     }
 
   private:
+    void append(const T *values, size_t n) {
+        if (_size + n > _capacity)
+            grow(_size + n);
+        if (n > 0)
+            memcpy(_data + _size, values, n * sizeof(T));
+        _size += n;
+    }
+
+    // Increase the capacity, which is only changed once the memory has been obtained
+    void grow(size_t min_capacity) {
+        size_t new_capacity = _capacity > 0 ? _capacity : INIT_CAPACITY;
+        while (new_capacity < min_capacity)
+            new_capacity <<= 1;
+        T *new_data = (T *)malloc(new_capacity * sizeof(T));
+        if (!new_data) {
+            throw std::bad_alloc(); // LCOV_EXCL_LINE
+        }
+        if (_data && _size > 0) {
+            memcpy(new_data, _data, _size * sizeof(T));
+        }
+        free(_data);
+        _data = new_data;
+        _capacity = new_capacity;
+    }
+
     T *_data;
     size_t _size;
     size_t _capacity;
-- 
2.43.0


From 57376acd7800f01c16bb8b94e96fceb7e63133ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 075/115] fix: datastore operations succeed completely or leave
 the store as it was; row-major extraction across column blocks; strings freed
 once

---
 source/core/data_management/data_store.cpp    |  10 +-
 source/core/data_management/data_store.hpp    | 810 +++++++++---------
 .../data_management/data_store_public.cpp     |  93 +-
 source/core/data_management/interval_map.hpp  |   1 +
 4 files changed, 453 insertions(+), 461 deletions(-)

diff --git a/source/core/data_management/data_store.cpp b/source/core/data_management/data_store.cpp
index 6134f60..898420b 100644
--- a/source/core/data_management/data_store.cpp
+++ b/source/core/data_management/data_store.cpp
@@ -39,11 +39,11 @@ template <>
 da_status data_store::concatenate_cols_csv<char **>(da_int mc, da_int nc, char ***data,
                                                     da_order order, bool copy_data,
                                                     bool C_data) {
-    char **deref_data = *data;
-    free(data);
-    data = nullptr;
-    da_status status =
-        concatenate_columns(mc, nc, deref_data, order, copy_data, true, C_data);
+    da_status status = concatenate_columns(mc, nc, *data, order, copy_data, true, C_data);
+    if (status == da_status_success)
+        free(data); // the strings now belong to the store
+    else
+        free_cols_csv(data, mc * nc); // LCOV_EXCL_LINE
     return status;
 }
 
diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 25f7a79..b6666af 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -359,22 +359,13 @@ template <class T> class block_dense : public block_base<T> {
 /* Wrapper structure containing a pointer to a block and meta-data around the block */
 class block_id {
   public:
-    /* b: pointer to a generic block class
+    /* b: pointer to a generic block class, shared by all the column intervals the block extends over
      * offset: column index of the first element in the block
-     * next: pointer to another block_id containing the next rows
-     * left_parent: pointer to the left most parent of the block_id; nullptr if it contains the first rows
+     * next: pointer to another block_id containing the next rows of the same column interval
      */
-    block *b = nullptr;
+    std::shared_ptr<block> b;
     da_int offset = 0;
     std::shared_ptr<block_id> next = nullptr;
-    std::shared_ptr<block_id> left_parent = nullptr;
-
-    ~block_id() {
-        if (b) {
-            delete b;
-            b = nullptr;
-        }
-    };
 };
 
 using namespace da_interval;
@@ -408,9 +399,11 @@ class data_store {
     /* Data to handle partially added rows
      * missing_block: if true, blocks the other functionality until the partial row block is finished
      * idx_start_missing: column index of the start of the missing block
+     * n_rows_missing: number of rows of the partial row block
      */
     bool missing_block = false;
     da_int idx_start_missing = 0;
+    da_int n_rows_missing = 0;
 
     /* Hash map of selections, using user defined labels (c strings) */
     selection_map selections;
@@ -425,7 +418,10 @@ class data_store {
 
   public:
     data_store(da_errors::da_error_t &err) { this->err = &err; }
-    ~data_store() {
+    ~data_store() { clear(); }
+
+    /* Remove all the data, selections and labels */
+    void clear() {
         for (auto it = cmap.begin(); it != cmap.end(); ++it) {
             std::shared_ptr<block_id> next = it->second, aux;
             while (next != nullptr) {
@@ -435,6 +431,13 @@ class data_store {
             }
             it->second = nullptr;
         }
+        cmap.clear();
+        m = n = 0;
+        missing_block = false;
+        idx_start_missing = n_rows_missing = 0;
+        selections.clear();
+        index_to_name.clear();
+        name_to_index.clear();
     }
 
     da_int get_num_rows() { return this->m; }
@@ -483,24 +486,27 @@ class data_store {
                             "Number of rows must match " + std::to_string(m) +
                                 " (input: " + std::to_string(mc) + ")");
 
-        // Create a dense block from the raw data
-        std::shared_ptr<block_id> new_block;
+        // Create a dense block from the raw data and concatenate it to the right, indices of new columns
+        // are [n, n+nc-1]. The store is only changed once all memory has been allocated, and the ownership
+        // of the data is only taken on success.
         try {
-            new_block = std::make_shared<block_id>(block_id());
-            new_block->b =
-                new block_dense<T>(mc, nc, data, *this->err, order, copy_data, C_data);
+            auto bd = std::make_shared<block_dense<T>>(mc, nc, data, *this->err, order,
+                                                       copy_data, C_data);
+            auto new_block = std::make_shared<block_id>();
+            new_block->b = bd;
             new_block->offset = n;
-            block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
-            bd->set_own_data(own_data || copy_data);
+            index_to_name.reserve(n + nc);
+            da_status status = cmap.insert(interval(n, n + nc - 1), new_block);
+            if (status != da_status_success)
+                return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
+                                "Unexpected failure in the insertion of the columns.");
             index_to_name.resize(n + nc, nullptr);
+            bd->set_own_data(own_data || copy_data);
         } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
             return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error");
         }
 
-        // Concatenate columns to the right, indices of new columns are [n, n+nc-1]
-        cmap.insert(interval(n, n + nc - 1), new_block);
-
         // Update the size of the datastore if it was initially empty
         if (m == 0)
             m = mc;
@@ -514,16 +520,13 @@ class data_store {
                                bool copy_data = false, bool own_data = false,
                                bool C_data = false) {
         da_status status = da_status_success;
-        bool found;
         da_int lb, ub, idx_start;
-        std::shared_ptr<block_id> new_block = nullptr;
 
         if (n <= 0) {
             // First block, columns need to be concatenated instead.
             status = this->concatenate_columns(mr, nr, data, order, copy_data, own_data,
                                                C_data);
         } else {
-            bool cleanup = false;
             idx_start = 0;
             if (missing_block)
                 idx_start = idx_start_missing;
@@ -538,70 +541,54 @@ class data_store {
                                 "Number of rows must match " + std::to_string(m) +
                                     " (input: " + std::to_string(nr + idx_start) + ")");
 
-            // Create a dense block from the raw data
+            if (missing_block && mr != n_rows_missing)
+                return da_error(err, da_status_invalid_input,
+                                "Number of rows must match the incomplete row block: " +
+                                    std::to_string(n_rows_missing) +
+                                    " (input: " + std::to_string(mr) + ")");
+
+            // Check that the new block covers whole column intervals of the right type and find the last
+            // block of each of them
+            block_type btype = get_block_type<T>();
+            std::vector<std::shared_ptr<block_id>> last_blocks, new_blocks;
             try {
-                new_block = std::make_shared<block_id>(block_id());
-                new_block->b =
-                    new block_dense<T>(mr, nr, data, *err, order, copy_data, C_data);
-                block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
+                ub = idx_start - 1;
+                while (ub < idx_start + nr - 1) {
+                    std::shared_ptr<block_id> current_block;
+                    if (!cmap.find(ub + 1, current_block, lb, ub))
+                        return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
+                                        "Unexpected error. Possible memory corruption.");
+                    if (btype != current_block->b->btype || ub > idx_start + nr - 1)
+                        return da_error(
+                            err, da_status_invalid_input,
+                            "cannot concatenate row(s), column types do not match.");
+                    while (current_block->next != nullptr)
+                        current_block = current_block->next;
+                    last_blocks.push_back(current_block);
+                }
+
+                // Create a dense block from the raw data, it is shared by the column intervals
+                auto bd = std::make_shared<block_dense<T>>(mr, nr, data, *err, order,
+                                                           copy_data, C_data);
+                for (size_t i = 0; i < last_blocks.size(); i++) {
+                    new_blocks.push_back(std::make_shared<block_id>());
+                    new_blocks.back()->b = bd;
+                    new_blocks.back()->offset = idx_start;
+                }
                 bd->set_own_data(own_data || copy_data);
             } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
                 return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                                 "Memory allocation error");
             }
 
-            new_block->offset = idx_start;
-            block_type btype = get_block_type<T>();
-
+            // All memory has been allocated, the store can be changed
+            for (size_t i = 0; i < last_blocks.size(); i++)
+                last_blocks[i]->next = new_blocks[i];
             if (!missing_block)
                 m += mr;
-            ub = idx_start - 1;
-            std::shared_ptr<block_id> current_block;
-            while (ub < idx_start + nr - 1) {
-                found = cmap.find(ub + 1, current_block, lb, ub);
-                if (!found)
-                    break;
-                if (btype != current_block->b->btype || ub > idx_start + nr - 1) {
-                    cleanup = true;
-                    status =
-                        da_error(err, da_status_invalid_input,
-                                 "cannot concatenate row(s), column types do not match.");
-                    break;
-                }
-                while (current_block->next != nullptr)
-                    current_block = current_block->next;
-                current_block->next = new_block;
-                if (new_block->left_parent == nullptr)
-                    new_block->left_parent = current_block;
-            }
-            if (!cleanup) {
-                if (idx_start + nr < n) {
-                    missing_block = true;
-                    idx_start_missing = idx_start + nr;
-                } else {
-                    missing_block = false;
-                    idx_start_missing = 0;
-                }
-            } else {
-                // Error occurred, clear the 'next' pointers from the existing blocks
-                ub = idx_start - 1;
-                std::shared_ptr<block_id> current_block;
-                while (ub < idx_start + nr - 1) {
-                    auto it = cmap.find(ub + 1);
-                    if (it == cmap.end())
-                        break;
-                    current_block = it->second;
-                    while (current_block->next != nullptr) {
-                        if (current_block->next == new_block)
-                            current_block->next = nullptr;
-                        else
-                            current_block = current_block->next;
-                    }
-                    ub = it->first.upper;
-                    ++it;
-                }
-                m -= mr;
-            }
+            missing_block = idx_start + nr < n;
+            idx_start_missing = missing_block ? idx_start + nr : 0;
+            n_rows_missing = missing_block ? mr : 0;
         }
         return status; // Error message already loaded
     }
@@ -620,29 +607,53 @@ class data_store {
                 err, da_status_invalid_input,
                 "Cannot concatenate stores at this stage, some data is missing");
 
-        columns_map::iterator it1 = store.cmap.begin(), it2;
+        if (this == &store)
+            return da_error(err, da_status_invalid_input,
+                            "Cannot concatenate a store with itself.");
+
+        // Insert the blocks and the labels of the second store, the blocks are not modified until nothing
+        // can fail
         da_int n_orig = n;
-        std::shared_ptr<block_id> store_block, next, current_block;
-        while (it1 != store.cmap.end()) {
-            da_int nc = it1->first.upper - it1->first.lower + 1;
-            store_block = it1->second;
-            store_block->offset += n_orig;
-            cmap.insert(interval(n, n + nc - 1), store_block);
-            current_block = store_block;
-            next = store_block->next;
-            while (next != nullptr) {
-                if (next->left_parent == current_block)
-                    next->offset = current_block->offset;
-                current_block = next;
-                next = next->next;
+        std::vector<std::string const *> new_names;
+        try {
+            index_to_name.reserve(n_orig + store.n);
+            new_names.reserve(store.n);
+            for (auto it = store.cmap.begin(); it != store.cmap.end(); ++it) {
+                da_int nc = it->first.upper - it->first.lower + 1;
+                cmap.insert(interval(n, n + nc - 1), it->second);
+                n += nc;
+            }
+            for (da_int i = 0; i < store.n; i++) {
+                if (store.index_to_name[i] == nullptr) {
+                    index_to_name.push_back(nullptr);
+                    continue;
+                }
+                auto label = name_to_index.insert(
+                    std::make_pair(*store.index_to_name[i], n_orig + i));
+                if (label.second)
+                    new_names.push_back(&label.first->first);
+                index_to_name.push_back(&label.first->first);
+            }
+        } catch (std::bad_alloc &) { // LCOV_EXCL_START
+            while (n > n_orig) {
+                auto it = cmap.find(n - 1);
+                n = it->first.lower;
+                cmap.erase(it);
+            }
+            for (auto &name : new_names)
+                name_to_index.erase(name_to_index.find(*name));
+            index_to_name.resize(n_orig);
+            return da_error(err, da_status_memory_error, "Memory allocation error");
+        } // LCOV_EXCL_STOP
+
+        for (auto it = store.cmap.begin(); it != store.cmap.end(); ++it) {
+            for (std::shared_ptr<block_id> bid = it->second; bid; bid = bid->next) {
+                bid->offset += n_orig;
+                bid->b->err = err;
             }
-            n += nc;
-            it2 = it1;
-            it1++;
-            store.cmap.erase(it2);
+            it->second = nullptr;
         }
-        store.m = 0;
-        store.n = 0;
+        store.clear();
 
         return da_status_success;
     }
@@ -684,7 +695,7 @@ class data_store {
                 err, da_status_invalid_input,
                 "Incompatible types between the datastore and the input data");
         while (id != nullptr) {
-            bb = static_cast<block_base<T> *>(id->b);
+            bb = static_cast<block_base<T> *>(id->b.get());
             status = bb->get_col(idx - id->offset, &c, stride);
             if (status != da_status_success)
                 return da_error_trace( // LCOV_EXCL_LINE
@@ -752,7 +763,7 @@ class data_store {
                 block_rows = {lr - first_row_idx, ur - first_row_idx};
                 if (block_rows.upper >= block_rows.lower) {
                     block_cols = {lcol - bid->offset, uc - bid->offset};
-                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
                     status = bb->copy_slice_dense(block_cols, block_rows, idxr, ld_slice,
                                                   slice);
                     if (status != da_status_success)
@@ -774,6 +785,50 @@ class data_store {
 
     void remove_selection(std::string key) { selections.erase(key); }
 
+    /* Add rows and/or columns to the selection 'key', which is created if needed.
+     * The selection is not modified if an error occurs
+     */
+    da_status add_to_selection(const std::string &key, const interval *rows,
+                               const interval *cols) {
+        try {
+            auto it = selections.find(key);
+            coord_slice slice;
+            if (it != selections.end()) {
+                *slice.row_slice = *it->second.row_slice;
+                *slice.col_slice = *it->second.col_slice;
+            }
+            da_status status = da_status_success;
+            if (rows)
+                status = slice.row_slice->insert(*rows);
+            if (status == da_status_success && cols)
+                status = slice.col_slice->insert(*cols);
+            if (status != da_status_success)
+                return da_status_internal_error; // LCOV_EXCL_LINE
+            if (it == selections.end())
+                selections.insert(std::make_pair(key, std::move(slice)));
+            else
+                it->second = std::move(slice);
+        } catch (std::bad_alloc &) {       // LCOV_EXCL_LINE
+            return da_status_memory_error; // LCOV_EXCL_LINE
+        }
+        return da_status_success;
+    }
+
+    /* Remove an interval from the rows or columns of a selection, which are not modified on failure */
+    da_status remove_from_slice(std::unique_ptr<interval_set> &slice, interval bounds) {
+        da_status status;
+        try {
+            auto new_slice = std::make_unique<interval_set>(*slice);
+            status = new_slice->erase(bounds);
+            if (status == da_status_success)
+                slice = std::move(new_slice);
+        } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
+        return status;
+    }
+
     /* select_[slice|columns|rows]; add an interval to the selection 'key' in the data_store
      * the indices have to be in the correct range
      * trying to add an index already in the selection will result in an error
@@ -804,29 +859,10 @@ class data_store {
             return da_error(this->err, da_status_invalid_input, msg);
         }
 
-        auto it = selections.find(key);
-        if (it == selections.end()) {
-            bool inserted;
-            std::tie(it, inserted) =
-                selections.insert(std::make_pair(key, coord_slice()));
-            if (!inserted) {
-                // LCOV_EXCL_START
-                exit_status = da_status_internal_error;
-                return da_error(err, exit_status,
-                                "Unexpected failure in the creation of a new selection.");
-                // LCOV_EXCL_STOP
-            }
-        }
-        exit_status = it->second.row_slice->insert(rows);
+        exit_status = add_to_selection(key, &rows, &cols);
         if (exit_status != da_status_success)
-            return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
-                            "Unexpected failure in row selection.");
-        exit_status = it->second.col_slice->insert(cols);
-        if (exit_status != da_status_success) {
-            it->second.row_slice->erase(rows);             // LCOV_EXCL_LINE
-            return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
-                            "Unexpected failure in col selection.");
-        }
+            return da_error(err, exit_status, // LCOV_EXCL_LINE
+                            "Unexpected failure in the selection.");
         return da_status_success;
     }
 
@@ -846,19 +882,11 @@ class data_store {
             return da_error(this->err, da_status_invalid_input, msg);
         }
 
-        auto it = selections.find(key);
-        if (it == selections.end()) {
-            bool inserted;
-            std::tie(it, inserted) =
-                selections.insert(std::make_pair(key, coord_slice()));
-            if (!inserted) {
-                return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
-                                "Unexpected error in the interval insertion");
-            }
-        }
-        exit_status = it->second.col_slice->insert(cols);
-
-        return exit_status;
+        exit_status = add_to_selection(key, nullptr, &cols);
+        if (exit_status != da_status_success)
+            return da_error(err, exit_status, // LCOV_EXCL_LINE
+                            "Unexpected failure in the selection.");
+        return da_status_success;
     }
     da_status select_rows(std::string key, interval rows) {
         da_status exit_status = da_status_success;
@@ -876,20 +904,11 @@ class data_store {
             return da_error(this->err, da_status_invalid_input, msg);
         }
 
-        auto it = selections.find(key);
-        if (it == selections.end()) {
-            bool inserted;
-            std::tie(it, inserted) =
-                selections.insert(std::make_pair(key, coord_slice()));
-            if (!inserted) {
-                return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
-                                "Unexpected error. Possible memory corruption.");
-            }
-        }
-
-        exit_status = it->second.row_slice->insert(rows);
-
-        return exit_status;
+        exit_status = add_to_selection(key, &rows, nullptr);
+        if (exit_status != da_status_success)
+            return da_error(err, exit_status, // LCOV_EXCL_LINE
+                            "Unexpected failure in the selection.");
+        return da_status_success;
     }
 
     da_status remove_columns_from_selection(std::string key, interval cols) {
@@ -914,7 +933,7 @@ class data_store {
             msg += " is not a valid selection.";
             return da_warn(err, da_status_invalid_input, msg);
         }
-        exit_status = it->second.col_slice->erase(cols);
+        exit_status = remove_from_slice(it->second.col_slice, cols);
 
         return exit_status;
     }
@@ -940,7 +959,7 @@ class data_store {
             msg += " is not a valid selection.";
             return da_warn(err, da_status_invalid_input, msg);
         }
-        exit_status = it->second.row_slice->erase(rows);
+        exit_status = remove_from_slice(it->second.row_slice, rows);
 
         return exit_status;
     }
@@ -954,114 +973,84 @@ class data_store {
                 err, da_status_missing_block,
                 "Row blocks are not complete, cannot extract data at this point");
 
-        auto it = selections.find(key);
-        bool clear_selections = false, clear_cols = false, clear_rows = false;
-        da_int idx = 0;
-        da_int ncols = 0;
-        std::string internal_key;
+        if (m <= 0 || n <= 0)
+            return da_error(err, da_status_invalid_input, "The store is empty");
 
-        if (selections.empty()) {
-            // No selection defined create a temporary selection All
-            internal_key = DA_STRINTERNAL;
-            internal_key += "All";
-            status = select_slice(internal_key, {0, m - 1}, {0, n - 1});
-            if (status != da_status_success)
-                return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
-                                "Internal error selecting a valid slice");
-            it = selections.find(internal_key);
-            clear_selections = true;
-            exit_status = da_status_full_extraction;
-            da_warn(err, exit_status,
-                    "No selection was defined, the full store is being extracted");
-        } else if (it == selections.end()) {
-            exit_status = da_status_invalid_input;
-            da_error(err, exit_status, "key was not found");
-            goto exit;
-        }
-
-        if (it->second.row_slice->empty()) {
-            // No rows in the current selection, create a temporary one containing all
-            status = select_rows(key, {0, m - 1});
-            if (status != da_status_success) {
-                exit_status = da_status_internal_error; // LCOV_EXCL_LINE
-                da_error_trace(                         // LCOV_EXCL_LINE
-                    err, exit_status, "Internal error selecting a valid row slice");
-                goto exit; // LCOV_EXCL_LINE
+        // The rows and columns to extract: all of them if none are selected
+        std::vector<interval> rows, cols;
+        try {
+            auto it = selections.find(key);
+            if (selections.empty()) {
+                // No selection defined, extract the full store
+                exit_status = da_status_full_extraction;
+                da_warn(err, exit_status,
+                        "No selection was defined, the full store is being extracted");
+            } else if (it == selections.end()) {
+                return da_error(err, da_status_invalid_input, "key was not found");
+            } else {
+                for (auto &row : *it->second.row_slice)
+                    rows.push_back(row);
+                for (auto &col : *it->second.col_slice)
+                    cols.push_back(col);
             }
-            clear_rows = true;
-        }
-
-        if (it->second.col_slice->empty()) {
-            // No cols in the current selection, create a temporary one containing all
-            status = select_columns(key, {0, n - 1});
-            if (status != da_status_success) {
-                exit_status = da_status_internal_error; // LCOV_EXCL_LINE
-                da_error_trace(                         // LCOV_EXCL_LINE
-                    err, exit_status, "Internal error selecting a valid column slice");
-                goto exit; // LCOV_EXCL_LINE
+            if (rows.empty())
+                rows.push_back({0, m - 1});
+            if (cols.empty())
+                cols.push_back({0, n - 1});
+        } catch (std::bad_alloc const &) {
+            return da_error(err, da_status_memory_error, "Memory allocation error");
+        }
+
+        da_int n_rows = 0, n_cols = 0;
+        for (auto &row : rows)
+            n_rows += row.upper - row.lower + 1;
+        for (auto &col : cols)
+            n_cols += col.upper - col.lower + 1;
+        if (ld < (order == column_major ? n_rows : n_cols))
+            return da_error(err, da_status_invalid_input,
+                            "The leading dimension must be at least " +
+                                std::to_string(order == column_major ? n_rows : n_cols));
+
+        // All the columns must be of the type requested
+        for (auto &col : cols) {
+            da_int ub = col.lower - 1;
+            while (ub < col.upper) {
+                auto it = cmap.find(ub + 1);
+                if (it->second->b->btype != get_block_type<T>())
+                    return da_error(err, da_status_invalid_input,
+                                    "Incompatible type in the selection");
+                ub = it->first.upper;
             }
-            clear_cols = true;
         }
 
-        if (order == column_major) {
-
-            for (auto it_col = it->second.col_slice->begin();
-                 it_col != it->second.col_slice->end(); ++it_col) {
-                idx = ncols * ld;
-                ncols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    da_int nrows = it_row->upper - it_row->lower + 1;
-                    status = extract_slice(*it_row, *it_col, ld, idx, data);
-                    if (status != da_status_success) {
-                        exit_status = status;
-                        goto exit;
-                    }
-                    idx += nrows;
-                }
-            }
-
-        } else {
-
-            // For row-major ordering, we need to create a temporary array first
-            da_int n_cols = 0, n_rows = 0, ldd = 0;
-            for (auto it_col = it->second.col_slice->begin();
-                 it_col != it->second.col_slice->end(); ++it_col) {
-                n_cols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    n_rows += it_row->upper - it_row->lower + 1;
-                }
-            }
-            ldd = n_rows;
-            // ncols and nrows are now correctly set
-            std::vector<T> tmp_data;
-
+        // For row-major ordering, we need to create a temporary array first
+        std::vector<T> tmp_data;
+        T *col_data = data;
+        da_int ldd = ld;
+        if (order == row_major) {
             try {
                 tmp_data.resize(n_cols * n_rows);
             } catch (std::bad_alloc const &) {
-                exit_status = da_status_memory_error;
-                da_error(err, exit_status, "Memory allocation error");
-                goto exit;
+                return da_error(err, da_status_memory_error, "Memory allocation error");
             }
+            col_data = tmp_data.data();
+            ldd = n_rows;
+        }
 
-            for (auto it_col = it->second.col_slice->begin();
-                 it_col != it->second.col_slice->end(); ++it_col) {
-                idx = ncols * ld;
-                ncols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    da_int nrows = it_row->upper - it_row->lower + 1;
-                    status = extract_slice(*it_row, *it_col, ldd, idx, tmp_data.data());
-                    if (status != da_status_success) {
-                        exit_status = status;
-                        goto exit;
-                    }
-                    idx += nrows;
-                }
+        da_int ncols = 0;
+        for (auto &col : cols) {
+            da_int idx = ncols * ldd;
+            ncols += col.upper - col.lower + 1;
+            for (auto &row : rows) {
+                status = extract_slice(row, col, ldd, idx, col_data);
+                if (status != da_status_success)
+                    return status;
+                idx += row.upper - row.lower + 1;
             }
+        }
 
-            // Convert tmp_data to row-major output array
+        // Convert tmp_data to row-major output array
+        if (order == row_major) {
             for (da_int i = 0; i < n_rows; i++) {
                 for (da_int j = 0; j < n_cols; j++) {
                     data[j + i * ld] = tmp_data[i + j * ldd];
@@ -1069,14 +1058,6 @@ class data_store {
             }
         }
 
-    exit:
-        if (clear_selections)
-            selections.erase(internal_key);
-        if (clear_rows)
-            it->second.row_slice->clear();
-        if (clear_cols)
-            it->second.col_slice->clear();
-
         return exit_status;
     }
 
@@ -1089,108 +1070,76 @@ class data_store {
     da_status select_non_missing(std::string key, bool full_rows) {
 
         da_status status = da_status_success;
-        da_int i;
 
         if (missing_block)
             return da_error(
                 err, da_status_missing_block,
                 "Row blocks are not complete, cannot select elements at this time");
 
-        // Check if selection 'key' exists. If not, create one containing all rows and columns.
-        // Ensure that the selection iterator 'it' always points to a valid selection.
-        auto it = selections.find(key);
-        bool clear_cols = false, clear_all_cols = false;
-        if (it == selections.end()) {
-            select_slice(key, {0, m - 1}, {0, n - 1});
-            it = selections.find(key);
-            clear_cols = true;
-        }
+        if (m <= 0 || n <= 0)
+            return da_error(err, da_status_invalid_input, "The store is empty");
 
-        std::unique_ptr<interval_set> &col_slice = it->second.col_slice;
-        std::unique_ptr<interval_set> &row_slice = it->second.row_slice;
-        if (row_slice->empty()) {
-            select_rows(key, {0, m - 1});
-        }
-
-        // Check ALL the rows
-        std::vector<bool> valid_rows;
         try {
-            valid_rows.resize(m, true);
-        } catch (std::bad_alloc const &) {               // LCOV_EXCL_LINE
-            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
-                            "Memory allocation error");
-        }
-
-        // Depending on the parameter full_rows, either all the columns are checked
-        // for missing data or only the columns in the selection 'key'.
-        // it_col and it_col_end are set as pointing to the start and the end of valid column
-        // selections.
-        interval_set::iterator it_col, it_col_end;
-        std::string internal_key;
-        if (full_rows) {
-            internal_key = DA_STRINTERNAL;
-            internal_key += "all cols";
-            status = select_columns(internal_key, {0, n - 1});
-            if (status != da_status_success) {
-                status = da_error_trace( // LCOV_EXCL_LINE
-                    err, da_status_internal_error,
-                    "Could not create new tag with all columns");
-                goto exit; // LCOV_EXCL_LINE
+            // The new selection: if 'key' does not exist or has no rows, all the rows are considered
+            auto it = selections.find(key);
+            coord_slice slice;
+            if (it != selections.end()) {
+                *slice.row_slice = *it->second.row_slice;
+                *slice.col_slice = *it->second.col_slice;
             }
-            auto it_allcol = selections.find(internal_key);
-            it_col = it_allcol->second.col_slice->begin();
-            it_col_end = it_allcol->second.col_slice->end();
-            clear_all_cols = true;
-        } else {
-            if (col_slice->begin() == col_slice->end()) {
-                select_columns(key, {0, n - 1});
-                clear_cols = true;
+            if (slice.row_slice->empty())
+                slice.row_slice->insert({0, m - 1});
+
+            // Depending on the parameter full_rows, either all the columns are checked
+            // for missing data or only the columns in the selection 'key'.
+            std::vector<interval> rows, cols;
+            for (auto &row : *slice.row_slice)
+                rows.push_back(row);
+            if (!full_rows) {
+                for (auto &col : *slice.col_slice)
+                    cols.push_back(col);
             }
-            it_col = col_slice->begin();
-            it_col_end = col_slice->end();
-        }
-
-        // Loop over the columns and rows of the selection to mark the rows with missing
-        // data in valid_rows
-        for (; it_col != it_col_end; ++it_col) {
-            for (auto it_row = row_slice->begin(); it_row != row_slice->end(); ++it_row) {
-                status = mark_missing_slice(*it_row, *it_col, valid_rows);
-                if (status != da_status_success) {
-                    status =
-                        da_error_trace(err, da_status_internal_error, // LCOV_EXCL_LINE
-                                       "Unexpected error. Possible memory corruption.");
-                    goto exit; // LCOV_EXCL_LINE
+            if (cols.empty())
+                cols.push_back({0, n - 1});
+
+            // Loop over the columns and rows of the selection to mark the rows with missing
+            // data in valid_rows
+            std::vector<bool> valid_rows(m, true);
+            for (auto &col : cols) {
+                for (auto &row : rows) {
+                    status = mark_missing_slice(row, col, valid_rows);
+                    if (status != da_status_success)
+                        return da_error_trace(
+                            err, da_status_internal_error, // LCOV_EXCL_LINE
+                            "Unexpected error. Possible memory corruption.");
                 }
             }
-        }
 
-        // Remove the rows with missing data from the selection 'key'
-        i = 0;
-        while (i < m) {
-            if (!valid_rows[i]) {
-                da_int idx_stop = i;
-                while (!valid_rows[idx_stop] && idx_stop < m) {
-                    idx_stop++;
-                }
-                status = row_slice->erase({i, idx_stop - 1});
-                if (status != da_status_success) {
-                    // LCOV_EXCL_START
-                    status = da_status_internal_error;
-                    da_error_trace(err, status,
-                                   "Failed to erase missing rows from the selection.");
-                    goto exit;
-                    // LCOV_EXCL_STOP
+            // Remove the rows with missing data from the selection 'key'
+            da_int i = 0;
+            while (i < m) {
+                if (!valid_rows[i]) {
+                    da_int idx_stop = i;
+                    while (idx_stop < m && !valid_rows[idx_stop])
+                        idx_stop++;
+                    status = slice.row_slice->erase({i, idx_stop - 1});
+                    if (status != da_status_success)
+                        return da_error_trace( // LCOV_EXCL_LINE
+                            err, da_status_internal_error,
+                            "Failed to erase missing rows from the selection.");
+                    i = idx_stop - 1;
                 }
-                i = idx_stop - 1;
+                i++;
             }
-            i++;
-        }
 
-    exit:
-        if (clear_cols)
-            it->second.col_slice->clear();
-        if (clear_all_cols)
-            remove_selection(internal_key);
+            if (it == selections.end())
+                selections.insert(std::make_pair(key, std::move(slice)));
+            else
+                it->second = std::move(slice);
+        } catch (std::bad_alloc const &) {               // LCOV_EXCL_LINE
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
         return status;
     }
 
@@ -1239,8 +1188,8 @@ class data_store {
                             err, da_status_internal_error,
                             "Internal error. Possible  memory corruption.");
                 }
-                lr = ur + 1;
-                first_row_idx = lr;
+                first_row_idx += bid->b->m;
+                lr = std::max(first_row_idx, lrow);
                 bid = bid->next;
             }
             lcol = uc + 1;
@@ -1262,7 +1211,7 @@ class data_store {
                                 std::to_string(this->m - 1) + ".");
         if (j < 0 || j >= this->n)
             return da_error(err, da_status_invalid_input,
-                            "j = " + std::to_string(i) +
+                            "j = " + std::to_string(j) +
                                 ". The column index must be between 0 and " +
                                 std::to_string(this->n - 1) + ".");
 
@@ -1280,14 +1229,19 @@ class data_store {
         while (i >= bid->b->m + offset) {
             offset += bid->b->m;
             bid = bid->next;
+            if (bid == nullptr)
+                return da_error(err, da_status_missing_block,
+                                "Row blocks are not complete, the element is missing");
         }
 
         da_int rowidx = i - offset;
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
-        bb->get_col(colidx, &col, stride);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
+        da_status status = bb->get_col(colidx, &col, stride);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
         elem = col[rowidx * stride];
 
         return da_status_success;
@@ -1301,7 +1255,7 @@ class data_store {
                                 std::to_string(this->m - 1) + ".");
         if (j < 0 || j >= this->n)
             return da_error(err, da_status_invalid_input,
-                            "j = " + std::to_string(i) +
+                            "j = " + std::to_string(j) +
                                 ". The column index must be between 0 and " +
                                 std::to_string(this->n - 1) + ".");
 
@@ -1319,14 +1273,19 @@ class data_store {
         while (i >= bid->b->m + offset) {
             offset += bid->b->m;
             bid = bid->next;
+            if (bid == nullptr)
+                return da_error(err, da_status_missing_block,
+                                "Row blocks are not complete, the element is missing");
         }
 
         da_int rowidx = i - offset;
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
-        bb->get_col(colidx, &col, stride);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
+        da_status status = bb->get_col(colidx, &col, stride);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
         col[rowidx * stride] = elem;
 
         return da_status_success;
@@ -1341,9 +1300,22 @@ class data_store {
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "maps and store size are out of sync");
 
+        std::string const *old = index_to_name[idx];
         auto it = name_to_index.insert(std::make_pair(label, idx)).first;
         std::string const *pstr = &it->first;
         index_to_name[idx] = pstr;
+
+        // The previous label of the column now designates another column with that label, if there is one
+        if (old != nullptr && old != pstr) {
+            auto it_old = name_to_index.find(*old);
+            if (it_old->second == idx) {
+                auto other = std::find(index_to_name.begin(), index_to_name.end(), old);
+                if (other == index_to_name.end())
+                    name_to_index.erase(it_old);
+                else
+                    it_old->second = (da_int)(other - index_to_name.begin());
+            }
+        }
         return da_status_success;
     }
 
@@ -1378,17 +1350,20 @@ class data_store {
         da_status status = da_status_success;
 
         if (headings != nullptr) {
-            std::string buf;
-            for (da_int j = 0; j < n; j++) {
-                buf = std::string(headings[j]);
-                status = label_column(buf, j);
-                if (status != da_status_success) {
-                    // LCOV_EXCL_START
-                    std::string err_msg = "Could not label column number: ";
-                    err_msg += std::to_string(j);
-                    return da_error_trace(err, da_status_internal_error, err_msg);
-                    // LCOV_EXCL_STOP
+            try {
+                for (da_int j = 0; j < n; j++) {
+                    status = label_column(std::string(headings[j]), j);
+                    if (status != da_status_success) {
+                        // LCOV_EXCL_START
+                        std::string err_msg = "Could not label column number: ";
+                        err_msg += std::to_string(j);
+                        return da_error_trace(err, da_status_internal_error, err_msg);
+                        // LCOV_EXCL_STOP
+                    }
                 }
+            } catch (std::bad_alloc const &) {               // LCOV_EXCL_LINE
+                return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                                "Memory allocation error");
             }
         }
         return status;
@@ -1408,48 +1383,42 @@ class data_store {
                                             da_int start_column, da_int end_column,
                                             da_int nrows) {
         da_status status;
-        bool cleanup = false;
-        da_int ncols;
+        da_int ncols = end_column - start_column + 1;
 
         T *bl = nullptr;
         bool C_data;
         status = raw_ptr_from_csv_columns(csv, columns, start_column, end_column, nrows,
                                           &bl, C_data);
-        if (status != da_status_success) {
-            // LCOV_EXCL_START
-            cleanup = true;
-            status = da_error_trace(err, da_status_internal_error,
-                                    "Unexpected error in creating raw pointers");
-            goto exit;
-            // LCOV_EXCL_STOP
-        }
-
-        ncols = end_column - start_column + 1;
-        status = concatenate_cols_csv(nrows, ncols, bl, column_major, false, C_data);
-        if (status != da_status_success) {
-            // LCOV_EXCL_START
-            status = da_error_trace(err, da_status_internal_error,
-                                    "Unexpected error in concatenating columns");
-            goto exit;
-            // LCOV_EXCL_STOP
-        }
+        if (status == da_status_success)
+            status = concatenate_cols_csv(nrows, ncols, bl, column_major, false, C_data);
+        else
+            free_cols_csv(bl, nrows * ncols);
+        if (status != da_status_success)
+            return da_error_trace(err, status, // LCOV_EXCL_LINE
+                                  "Unexpected error in the creation of a block");
+        return da_status_success;
+    }
 
-    exit:
-        if (cleanup) {
-            if (bl != nullptr) {
-                if (!C_data)
-                    delete[] bl;
-                else
-                    free(bl);
-            }
+    /* Free a block created by raw_ptr_from_csv_columns, n_elem is its number of elements */
+    template <class T> static void free_cols_csv(T *bl, [[maybe_unused]] da_int n_elem) {
+        if constexpr (std::is_same_v<T, char **>) {
+            // blocks of strings are held through a pointer
+            if (bl)
+                da_csv::free_data(bl, n_elem);
+            free(bl);
+        } else {
+            delete[] bl;
         }
-        return status;
     }
 
     template <class T>
     da_status concatenate_cols_csv(da_int mc, da_int nc, T *data, da_order order,
                                    bool copy_data, bool C_data) {
-        return concatenate_columns(mc, nc, data, order, copy_data, true, C_data);
+        da_status status =
+            concatenate_columns(mc, nc, data, order, copy_data, true, C_data);
+        if (status != da_status_success)
+            free_cols_csv(data, mc * nc); // LCOV_EXCL_LINE
+        return status;
     }
     template <class T>
     da_status raw_ptr_from_csv_columns([[maybe_unused]] da_csv::csv_reader *csv,
@@ -1508,7 +1477,7 @@ class data_store {
                     },
                     columns[i - 1]);
                 if (status != da_status_success)
-                    return da_error_trace(err, da_status_internal_error, // LCOV_EXCL_LINE
+                    return da_error_trace(err, status, // LCOV_EXCL_LINE
                                           "Unexpected error");
 
                 // Update the active index and start_column variables
@@ -1557,20 +1526,19 @@ class data_store {
         }
         status = concatenate_columns(nrows, ncols, data, csv->order, copy_data, own_data,
                                      C_data);
-        if (status != da_status_success)
-            return da_error_trace(err, da_status_internal_error, // LCOV_EXCL_LINE
+        if (status != da_status_success) {
+            free_data(&headings, ncols);
+            free_data(&data, nrows * ncols);
+            return da_error_trace(err, status, // LCOV_EXCL_LINE
                                   "Failed concatenation.");
+        }
 
         status = label_all_columns(headings);
-        if (status != da_status_success)
-            return da_error_trace(err, da_status_internal_error, // LCOV_EXCL_LINE
+        free_data(&headings, ncols);
+        if (status != da_status_success) {
+            clear();
+            return da_error_trace(err, status, // LCOV_EXCL_LINE
                                   "Unexpected error in column labeling.");
-        if (headings != nullptr) {
-            for (da_int j = 0; j < ncols; j++) {
-                if (headings[j])
-                    free(headings[j]);
-            }
-            free(headings);
         }
 
         return exit_status;
@@ -1641,28 +1609,28 @@ class data_store {
             }
 
             da_auto_detect::CSVColumnsType columns;
-            // Call routine to detect the datatype of each column
-            da_auto_detect::detect_columns(csv, columns, data_char, nrows, ncols);
-            // Convert columns into blocks for the datastore
-            status = convert_csv_columns_to_blocks(csv, columns, nrows, ncols);
-            if (status != da_status_success)
+            try {
+                // Call routine to detect the datatype of each column
+                status =
+                    da_auto_detect::detect_columns(csv, columns, data_char, nrows, ncols);
+                // Convert columns into blocks for the datastore
+                if (status == da_status_success)
+                    status = convert_csv_columns_to_blocks(csv, columns, nrows, ncols);
+                if (status == da_status_success)
+                    status = label_all_columns(headings);
+            } catch (std::bad_alloc const &) {                 // LCOV_EXCL_LINE
+                status = da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                                  "Memory allocation error");
+            }
+            da_csv::free_data(&data_char, nrows * ncols);
+            da_csv::free_data(&headings, ncols);
+            if (status != da_status_success) {
+                // No part of the table is kept
+                clear();
                 return da_error_trace(err, status, // LCOV_EXCL_LINE
                                       "Could not concatenate the columns to the data "
                                       "store");
-
-            da_csv::free_data(&data_char, nrows * ncols);
-
-            status = label_all_columns(headings);
-            if (headings != nullptr) {
-                for (da_int j = 0; j < ncols; j++) {
-                    if (headings[j])
-                        free(headings[j]);
-                }
-                free(headings);
             }
-            if (status != da_status_success)
-                return da_error_trace( // LCOV_EXCL_LINE
-                    err, da_status_internal_error, "Unexpected error in column labeling");
             break;
         }
         }
diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index 0baa7df..064b2f0 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -27,10 +27,11 @@
 
 #include "aoclda.h"
 #include "da_datastore.hpp"
+#include "macros.h"
 #include <cstring>
 #include <vector>
 
-da_status da_datastore_init(da_datastore *store) {
+da_status da_datastore_init(da_datastore *store) try {
 
     // Exclude memory checks from coverage
     // LCOV_EXCL_START
@@ -52,8 +53,9 @@ da_status da_datastore_init(da_datastore *store) {
     da_status status = da_csv::register_csv_options(*(*store)->opts);
     return status; // Error message already loaded
 }
+DA_CATCH_STATUS
 
-da_status da_datastore_print_error_message(da_datastore store) {
+da_status da_datastore_print_error_message(da_datastore store) try {
     // Check to see if we have a valid store
     if (store) {
         if (store->err) {
@@ -65,8 +67,9 @@ da_status da_datastore_print_error_message(da_datastore store) {
     }
     return da_status_invalid_input;
 }
+DA_CATCH_STATUS
 
-void da_datastore_destroy(da_datastore *store) {
+void da_datastore_destroy(da_datastore *store) try {
 
     if (store) {
         if (*store) {
@@ -83,8 +86,9 @@ void da_datastore_destroy(da_datastore *store) {
         *store = nullptr;
     }
 }
+DA_CATCH_VOID
 
-da_status da_data_print_options(da_datastore store) {
+da_status da_data_print_options(da_datastore store) try {
     if (!store)
         return da_status_store_not_initialized;
 
@@ -92,8 +96,9 @@ da_status da_data_print_options(da_datastore store) {
 
     return da_status_success;
 }
+DA_CATCH_STATUS
 
-da_status da_data_hconcat(da_datastore *store1, da_datastore *store2) {
+da_status da_data_hconcat(da_datastore *store1, da_datastore *store2) try {
     da_status status;
     if (!store1 || !store2 || !(*store1) || !(*store2))
         return da_status_store_not_initialized;
@@ -113,12 +118,13 @@ da_status da_data_hconcat(da_datastore *store1, da_datastore *store2) {
     }
     return status; // Error message already loaded
 }
+DA_CATCH_STATUS
 
 /* ********************************** Load routines ********************************** */
 /* *********************************************************************************** */
 template <typename T>
 da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols, T *block,
-                           da_order order, da_int copy_data) {
+                           da_order order, da_int copy_data) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -131,10 +137,11 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols, T *
     bool cpy = copy_data != 0;
     return store->store->concatenate_columns(n_rows, n_cols, block, order, cpy);
 }
+DA_CATCH_STATUS
 
 template <typename T>
 da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols, T *block,
-                           da_order order, da_int copy_data) {
+                           da_order order, da_int copy_data) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -147,9 +154,10 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols, T *
     bool cpy = copy_data != 0;
     return store->store->concatenate_rows(n_rows, n_cols, block, order, cpy);
 }
+DA_CATCH_STATUS
 
 da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
-                           const char **block, da_order order) {
+                           const char **block, da_order order) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -159,7 +167,7 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         return da_error(store->err, da_status_internal_error, // LCOV_EXCL_LINE
                         "store seems to be invalid?");        // LCOV_EXCL_LINE
 
-    da_int total = std::max(n_rows * n_cols, (da_int)0);
+    da_int total = n_rows > 0 && n_cols > 0 ? n_rows * n_cols : 0;
     char **arr = static_cast<char **>(malloc(total * sizeof(char *)));
     if (!arr)
         return da_error(store->err, da_status_memory_error, "Memory allocation error");
@@ -168,10 +176,7 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         arr[i] = static_cast<char *>(malloc(len));
         // LCOV_EXCL_START
         if (!arr[i]) {
-            for (da_int j = 0; j <= i; j++) {
-                da_csv::free_data(&arr, j);
-            }
-            free(arr);
+            da_csv::free_data(&arr, i);
             return da_error(store->err, da_status_memory_error,
                             "Memory allocation error");
         }
@@ -184,8 +189,9 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         da_csv::free_data(&arr, total);
     return status;
 }
+DA_CATCH_STATUS
 da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
-                           const char **block, da_order order) {
+                           const char **block, da_order order) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -195,7 +201,7 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
     if (!block)
         return da_error(store->err, da_status_invalid_input, "block has to be defined");
 
-    da_int total = std::max(n_rows * n_cols, (da_int)0);
+    da_int total = n_rows > 0 && n_cols > 0 ? n_rows * n_cols : 0;
     char **arr = static_cast<char **>(malloc(total * sizeof(char *)));
     if (!arr)
         return da_error(store->err, da_status_memory_error, "Memory allocation error");
@@ -204,10 +210,7 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
         arr[i] = static_cast<char *>(malloc(len));
         // LCOV_EXCL_START
         if (!arr[i]) {
-            for (da_int j = 0; j <= i; j++) {
-                da_csv::free_data(&arr, j);
-            }
-            free(arr);
+            da_csv::free_data(&arr, i);
             return da_error(store->err, da_status_memory_error,
                             "Memory allocation error");
         }
@@ -220,11 +223,12 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
         da_csv::free_data(&arr, total);
     return status;
 }
+DA_CATCH_STATUS
 
 /* ************************************* selection *********************************** */
 /* *********************************************************************************** */
 da_status da_data_select_columns(da_datastore store, const char *key, da_int lbound,
-                                 da_int ubound) {
+                                 da_int ubound) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -243,8 +247,9 @@ da_status da_data_select_columns(da_datastore store, const char *key, da_int lbo
 
     return store->store->select_columns(key_str, {lbound, ubound});
 }
+DA_CATCH_STATUS
 da_status da_data_select_rows(da_datastore store, const char *key, da_int lbound,
-                              da_int ubound) {
+                              da_int ubound) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -263,8 +268,10 @@ da_status da_data_select_rows(da_datastore store, const char *key, da_int lbound
 
     return store->store->select_rows(key_str, {lbound, ubound});
 }
+DA_CATCH_STATUS
 da_status da_data_select_slice(da_datastore store, const char *key, da_int row_lbound,
-                               da_int row_ubound, da_int col_lbound, da_int col_ubound) {
+                               da_int row_ubound, da_int col_lbound,
+                               da_int col_ubound) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -284,8 +291,9 @@ da_status da_data_select_slice(da_datastore store, const char *key, da_int row_l
     return store->store->select_slice(key_str, {row_lbound, row_ubound},
                                       {col_lbound, col_ubound});
 }
+DA_CATCH_STATUS
 da_status da_data_select_non_missing(da_datastore store, const char *key,
-                                     uint8_t full_rows) {
+                                     uint8_t full_rows) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -305,8 +313,9 @@ da_status da_data_select_non_missing(da_datastore store, const char *key,
 
     return store->store->select_non_missing(key_str, fr);
 }
+DA_CATCH_STATUS
 da_status da_data_select_remove_columns(da_datastore store, const char *key,
-                                        da_int lbound, da_int ubound) {
+                                        da_int lbound, da_int ubound) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -320,8 +329,9 @@ da_status da_data_select_remove_columns(da_datastore store, const char *key,
     std::string key_str(key);
     return store->store->remove_columns_from_selection(key_str, {lbound, ubound});
 }
+DA_CATCH_STATUS
 da_status da_data_select_remove_rows(da_datastore store, const char *key, da_int lbound,
-                                     da_int ubound) {
+                                     da_int ubound) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -335,11 +345,12 @@ da_status da_data_select_remove_rows(da_datastore store, const char *key, da_int
     std::string key_str(key);
     return store->store->remove_rows_from_selection(key_str, {lbound, ubound});
 }
+DA_CATCH_STATUS
 
 /* ********************************** extract columns ******************************** */
 /* *********************************************************************************** */
 template <typename T>
-da_status da_data_extract_column(da_datastore store, da_int idx, da_int dim, T *col) {
+da_status da_data_extract_column(da_datastore store, da_int idx, da_int dim, T *col) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -351,12 +362,13 @@ da_status da_data_extract_column(da_datastore store, da_int idx, da_int dim, T *
 
     return store->store->extract_column(idx, dim, col);
 }
+DA_CATCH_STATUS
 
 /* ********************************* extract selections ****************************** */
 /* *********************************************************************************** */
 template <typename T>
 da_status da_data_extract_selection(da_datastore store, const char *key, da_order order,
-                                    T *data, da_int lddata) {
+                                    T *data, da_int lddata) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -372,10 +384,12 @@ da_status da_data_extract_selection(da_datastore store, const char *key, da_orde
     std::string key_str(key);
     return store->store->extract_selection(key, order, lddata, data);
 }
+DA_CATCH_STATUS
 
 /* ************************************* headings ************************************ */
 /* *********************************************************************************** */
-da_status da_data_label_column(da_datastore store, const char *label, da_int col_idx) {
+da_status da_data_label_column(da_datastore store, const char *label,
+                               da_int col_idx) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -389,7 +403,9 @@ da_status da_data_label_column(da_datastore store, const char *label, da_int col
     std::string label_str(label);
     return store->store->label_column(label_str, col_idx);
 }
-da_status da_data_get_col_idx(da_datastore store, const char *label, da_int *col_idx) {
+DA_CATCH_STATUS
+da_status da_data_get_col_idx(da_datastore store, const char *label,
+                              da_int *col_idx) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -405,8 +421,9 @@ da_status da_data_get_col_idx(da_datastore store, const char *label, da_int *col
     std::string label_str(label);
     return store->store->get_idx_from_label(label_str, *col_idx);
 }
+DA_CATCH_STATUS
 da_status da_data_get_col_label(da_datastore store, da_int col_idx, da_int *label_sz,
-                                char *label) {
+                                char *label) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -438,9 +455,10 @@ da_status da_data_get_col_label(da_datastore store, da_int col_idx, da_int *labe
 
     return da_status_success;
 }
+DA_CATCH_STATUS
 /* **************************************** csv ************************************** */
 /* *********************************************************************************** */
-da_status da_data_load_from_csv(da_datastore store, const char *filename) {
+da_status da_data_load_from_csv(da_datastore store, const char *filename) try {
 
     if (!store)
         return da_status_store_not_initialized;
@@ -455,10 +473,11 @@ da_status da_data_load_from_csv(da_datastore store, const char *filename) {
 
     return store->store->load_from_csv(store->csv_parser, filename);
 }
+DA_CATCH_STATUS
 
 /* ********************************** setters/getters ******************************** */
 /* *********************************************************************************** */
-da_status da_data_get_n_rows(da_datastore store, da_int *n_rows) {
+da_status da_data_get_n_rows(da_datastore store, da_int *n_rows) try {
 
     if (!store)
         return da_status_store_not_initialized;
@@ -472,7 +491,8 @@ da_status da_data_get_n_rows(da_datastore store, da_int *n_rows) {
     *n_rows = store->store->get_num_rows();
     return da_status_success;
 }
-da_status da_data_get_n_cols(da_datastore store, da_int *n_cols) {
+DA_CATCH_STATUS
+da_status da_data_get_n_cols(da_datastore store, da_int *n_cols) try {
 
     if (!store)
         return da_status_store_not_initialized;
@@ -486,9 +506,10 @@ da_status da_data_get_n_cols(da_datastore store, da_int *n_cols) {
     *n_cols = store->store->get_num_cols();
     return da_status_success;
 }
+DA_CATCH_STATUS
 
 template <typename T>
-da_status da_data_get_element(da_datastore store, da_int i, da_int j, T *elem) {
+da_status da_data_get_element(da_datastore store, da_int i, da_int j, T *elem) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -500,9 +521,10 @@ da_status da_data_get_element(da_datastore store, da_int i, da_int j, T *elem) {
 
     return store->store->get_element(i, j, *elem);
 }
+DA_CATCH_STATUS
 
 template <typename T>
-da_status da_data_set_element(da_datastore store, da_int i, da_int j, T elem) {
+da_status da_data_set_element(da_datastore store, da_int i, da_int j, T elem) try {
     if (!store)
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
@@ -512,6 +534,7 @@ da_status da_data_set_element(da_datastore store, da_int i, da_int j, T elem) {
 
     return store->store->set_element(i, j, elem);
 }
+DA_CATCH_STATUS
 
 template da_status da_data_load_col<float>(da_datastore, da_int, da_int, float *,
                                            da_order, da_int);
diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..a80b0ce 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -107,6 +107,7 @@ template <class T> class interval_map {
     }
 
     bool empty() { return imap.empty(); }
+    void clear() { imap.clear(); }
 
     da_status insert(interval bounds, T val) {
         da_int lb = bounds.lower, ub = bounds.upper;
-- 
2.43.0


From d253e33d556befaf7fbb131754cdbc5d75e6915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 076/115] fix: nearest neighbours report failed allocations of
 parallel regions and drop partial results

---
 source/core/nearest_neighbors/ball_tree.cpp   | 95 +++++++++++++-----
 source/core/nearest_neighbors/binary_tree.cpp | 31 +++---
 source/core/nearest_neighbors/binary_tree.hpp |  2 +
 source/core/nearest_neighbors/kd_tree.cpp     | 81 ++++++++++-----
 .../nearest_neighbors/nearest_neighbors.cpp   | 99 ++++++++-----------
 .../nearest_neighbors/radius_neighbors.cpp    | 15 +--
 6 files changed, 197 insertions(+), 126 deletions(-)

diff --git a/source/core/nearest_neighbors/ball_tree.cpp b/source/core/nearest_neighbors/ball_tree.cpp
index b8ffc8e..49be3a3 100644
--- a/source/core/nearest_neighbors/ball_tree.cpp
+++ b/source/core/nearest_neighbors/ball_tree.cpp
@@ -121,13 +121,15 @@ da_status parallel_centroid_radius(da_int n_samples, da_int n_features, const T
 
             // Each thread is only doing one block so only one allocation per thread here, which is fine
             std::vector<T> distances;
+            bool allocated = true;
             try {
                 distances.resize(thd_block_size);
             } catch (std::bad_alloc const &) {
+                allocated = false;
 #pragma omp atomic write
                 internal_error = true;
             }
-            if (!internal_error) {
+            if (allocated) {
                 thd_status =
                     ARCH::da_metrics::pairwise_distances::pairwise_distance_kernel(
                         da_order::column_major, thd_block_size, 1, n_features,
@@ -147,7 +149,7 @@ da_status parallel_centroid_radius(da_int n_samples, da_int n_features, const T
     }
 
     if (internal_error) {
-        return da_status_internal_error; // LCOV_EXCL_LINE
+        return da_status_memory_error; // LCOV_EXCL_LINE
     }
 
     // Combine the radii computed by each thread
@@ -180,8 +182,8 @@ ball_tree<T>::ball_tree(da_int n_samples_in, da_int n_features_in, const T *A_in
     if (parallel_centroid_radius(this->n_samples, this->n_features, this->A, this->lda,
                                  this->metric, this->p, centroid,
                                  radius) != da_status_success) {
-        throw std::runtime_error( // LCOV_EXCL_LINE
-            "Failed to compute column means for the dataset");
+        // Only allocations can fail
+        throw std::bad_alloc(); // LCOV_EXCL_LINE
     }
 
 // Build the ball tree - careful use of default shared needed because we can't use this-> in OpenMP directives
@@ -189,10 +191,20 @@ ball_tree<T>::ball_tree(da_int n_samples_in, da_int n_features_in, const T *A_in
     {
 #pragma omp single
         {
-            this->root =
-                build_tree(0, this->indices.data(), this->n_samples, &centroid, radius);
+            try {
+                this->root = build_tree(0, this->indices.data(), this->n_samples,
+                                        &centroid, radius);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     }
+
+    if (this->build_failed) {
+        this->root = nullptr;
+        throw std::bad_alloc(); // LCOV_EXCL_LINE
+    }
 }
 
 // Special constructor for when being loaded from memory.
@@ -384,12 +396,25 @@ ball_tree<T>::build_tree(da_int depth, da_int *indices, da_int n_indices,
     // Recursively build the left and right child nodes, but only spawn tasks if the workload is large enough
     if (mid > BALL_TREE_MIN_TASK_SIZE) {
         // Some older compilers don't like the use of "omp task if" so use an explicit if statement
+// Exceptions must not leave a task
 #pragma omp task firstprivate(depth, mid, indices, this_node)
-        { this_node->left_child = build_tree(depth + 1, indices, mid); }
+        {
+            try {
+                this_node->left_child = build_tree(depth + 1, indices, mid);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
+        }
 #pragma omp task firstprivate(depth, mid, indices, n_indices, this_node)
         {
-            this_node->right_child =
-                build_tree(depth + 1, indices + mid, n_indices - mid);
+            try {
+                this_node->right_child =
+                    build_tree(depth + 1, indices + mid, n_indices - mid);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     } else {
         this_node->left_child = build_tree(depth + 1, indices, mid);
@@ -515,14 +540,18 @@ da_status ball_tree<T>::radius_neighbors_recursive(
         // This is not a leaf node, so check the sub-nodes
 
         // Check the left child
-        radius_neighbors_recursive(current_node->left_child, X, eps, eps_internal,
-                                   neighbors, distances, return_distances, X_is_A,
-                                   index_X, X_norm);
+        status = radius_neighbors_recursive(current_node->left_child, X, eps,
+                                            eps_internal, neighbors, distances,
+                                            return_distances, X_is_A, index_X, X_norm);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
 
         // Check the right child
-        radius_neighbors_recursive(current_node->right_child, X, eps, eps_internal,
-                                   neighbors, distances, return_distances, X_is_A,
-                                   index_X, X_norm);
+        status = radius_neighbors_recursive(current_node->right_child, X, eps,
+                                            eps_internal, neighbors, distances,
+                                            return_distances, X_is_A, index_X, X_norm);
+        if (status != da_status_success)
+            return status; // LCOV_EXCL_LINE
     }
     return da_status_success;
 }
@@ -592,9 +621,12 @@ da_status ball_tree<T>::k_neighbors_recursive(std::shared_ptr<ball_node<T>> curr
         // Whether we check the left or right child first depends on which is closest
         if (dist_left < dist_right) {
             // Check the left child first
-            if (ball_left != 0)
-                k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+            if (ball_left != 0) {
+                status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
 
             // Check the right child
             heap_max_dist =
@@ -602,15 +634,21 @@ da_status ball_tree<T>::k_neighbors_recursive(std::shared_ptr<ball_node<T>> curr
                     ? std::sqrt(heap.GetMaxDist())
                     : heap.GetMaxDist();
             if (ball_right != 0 &&
-                dist_right - current_node->right_child->radius <= heap_max_dist)
-                k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                dist_right - current_node->right_child->radius <= heap_max_dist) {
+                status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
 
         } else {
             // Check the right child first
-            if (ball_right != 0)
-                k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+            if (ball_right != 0) {
+                status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
 
             // Check the left child
             heap_max_dist =
@@ -618,9 +656,12 @@ da_status ball_tree<T>::k_neighbors_recursive(std::shared_ptr<ball_node<T>> curr
                     ? std::sqrt(heap.GetMaxDist())
                     : heap.GetMaxDist();
             if (ball_left != 0 &&
-                dist_left - current_node->left_child->radius <= heap_max_dist)
-                k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                dist_left - current_node->left_child->radius <= heap_max_dist) {
+                status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
+            }
         }
     }
     return da_status_success;
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 1d7a65e..0454da2 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -347,7 +347,8 @@ da_status binary_tree<Derived, NodeType>::k_neighbors(da_int m_samples_in,
     try {
         X_row.resize(this->n_features * omp_get_max_threads());
     } catch (std::bad_alloc const &) {
-        return da_status_memory_error; // LCOV_EXCL_LINE
+        return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation failed.");
     }
 
     // Loop over the samples in X and find the neighbors - careful use of default shared needed because we can't use this-> in OpenMP directives
@@ -452,12 +453,12 @@ da_status binary_tree<Derived, NodeType>::radius_neighbors_loop(
 
     da_status status = da_status_success;
 
+    // Dummy distances vector, only used (and never written to) when ReturnDistances is false
+    da_vector::da_vector<T> dummy_dist;
+
 // Loop over the samples in X and find the radius neighbors - careful use of default shared needed because we can't use this-> in OpenMP directives
 #pragma omp parallel default(shared)
     {
-        // Thread-local dummy distances vector, only used when ReturnDistances is false
-        da_vector::da_vector<T> dummy_dist;
-
 #pragma omp for schedule(dynamic, 128)
         for (da_int i = 0; i < m_samples; i++) {
             da_int X_row_index = this->n_features * omp_get_thread_num();
@@ -479,15 +480,21 @@ da_status binary_tree<Derived, NodeType>::radius_neighbors_loop(
             }
 
             // Find the epsilon radius neighbors of the ith point in X by recursively searching the tree
+            // Exceptions must not leave the parallel region
             da_status tmp_status;
-            if constexpr (ReturnDistances) {
-                tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
-                    this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
-                    distances[i], true, X_is_A, i, X_norm);
-            } else {
-                tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
-                    this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
-                    dummy_dist, false, X_is_A, i, X_norm);
+            try {
+                if constexpr (ReturnDistances) {
+                    tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
+                        this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
+                        distances[i], true, X_is_A, i, X_norm);
+                } else {
+                    // Not written to when distances are not required
+                    tmp_status = static_cast<Derived *>(this)->radius_neighbors_recursive(
+                        this->root, &X_row[X_row_index], eps, eps_internal, neighbors[i],
+                        dummy_dist, false, X_is_A, i, X_norm);
+                }
+            } catch (std::bad_alloc const &) {
+                tmp_status = da_status_memory_error; // LCOV_EXCL_LINE
             }
             if (tmp_status != da_status_success) {
 // If there was an error, set the status and break out of the loop
diff --git a/source/core/nearest_neighbors/binary_tree.hpp b/source/core/nearest_neighbors/binary_tree.hpp
index 1d150d0..4a6fbdc 100644
--- a/source/core/nearest_neighbors/binary_tree.hpp
+++ b/source/core/nearest_neighbors/binary_tree.hpp
@@ -199,6 +199,8 @@ template <typename Derived, typename NodeType> class binary_tree {
 
     // Row norms of the dataset - only used for da_euclidean
     std::vector<T> A_norms;
+    // Set when building the tree ran out of memory
+    bool build_failed = false;
 
     // Root node of the tree
     std::shared_ptr<NodeType> root = nullptr;
diff --git a/source/core/nearest_neighbors/kd_tree.cpp b/source/core/nearest_neighbors/kd_tree.cpp
index cd486ea..06d740d 100644
--- a/source/core/nearest_neighbors/kd_tree.cpp
+++ b/source/core/nearest_neighbors/kd_tree.cpp
@@ -97,7 +97,7 @@ da_status parallel_variance(da_int n_samples, da_int n_features, const T *A, da_
     }
 
     if (internal_error) {
-        return da_status_internal_error; // LCOV_EXCL_LINE
+        return da_status_memory_error; // LCOV_EXCL_LINE
     }
 
     // Combine the means and variances computed by each thread
@@ -165,6 +165,8 @@ kd_tree<T>::kd_tree(da_int n_samples_in, da_int n_features_in, const T *A_in,
             memory_alloc_failed = true;
         }
 
+        // All threads must agree on whether they enter the loop
+#pragma omp barrier
         if (!memory_alloc_failed) {
 #pragma omp for schedule(static)
             for (da_int i = 0; i < n_blocks; i++) {
@@ -208,8 +210,8 @@ kd_tree<T>::kd_tree(da_int n_samples_in, da_int n_features_in, const T *A_in,
     // Compute the column variances for the dataset; parallelism optimized for tall, skinny dataset
     if (parallel_variance(this->n_samples, this->n_features, this->A, this->lda, means,
                           variances) != da_status_success) {
-        throw std::runtime_error( // LCOV_EXCL_LINE
-            "Failed to compute column variances for the dataset");
+        // Only allocations can fail
+        throw std::bad_alloc(); // LCOV_EXCL_LINE
     }
 
     da_int root_dim = da_blas::cblas_iamax(this->n_features, variances.data(), (da_int)1);
@@ -219,10 +221,20 @@ kd_tree<T>::kd_tree(da_int n_samples_in, da_int n_features_in, const T *A_in,
     {
 #pragma omp single
         {
-            this->root = build_tree(0, this->indices.data(), this->n_samples, &min_bounds,
-                                    &max_bounds, root_dim);
+            try {
+                this->root = build_tree(0, this->indices.data(), this->n_samples,
+                                        &min_bounds, &max_bounds, root_dim);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     }
+
+    if (this->build_failed) {
+        this->root = nullptr;
+        throw std::bad_alloc(); // LCOV_EXCL_LINE
+    }
 }
 
 // Special constructor for when being loaded from memory.
@@ -325,12 +337,25 @@ kd_tree<T>::build_tree(da_int depth, da_int *indices, da_int n_indices,
     // Recursively build the left and right child nodes, but only spawn tasks if the workload is large enough
     if (mid > KD_TREE_MIN_TASK_SIZE) {
         // Some older compilers don't like the use of "omp task if" so use an explicit if statement
+// Exceptions must not leave a task
 #pragma omp task firstprivate(depth, mid, indices, this_node)
-        { this_node->left_child = build_tree(depth + 1, indices, mid); }
+        {
+            try {
+                this_node->left_child = build_tree(depth + 1, indices, mid);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
+        }
 #pragma omp task firstprivate(depth, mid, indices, n_indices, this_node)
         {
-            this_node->right_child =
-                build_tree(depth + 1, indices + mid + 1, n_indices - mid - 1);
+            try {
+                this_node->right_child =
+                    build_tree(depth + 1, indices + mid + 1, n_indices - mid - 1);
+            } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                this->build_failed = true;
+            }
         }
     } else {
         this_node->left_child = build_tree(depth + 1, indices, mid);
@@ -434,15 +459,19 @@ da_status kd_tree<T>::radius_neighbors_recursive(std::shared_ptr<kd_node<T>> cur
 
         if (diff <= eps) {
             // Check the left child
-            radius_neighbors_recursive(current_node->left_child, X, eps, eps_internal,
-                                       neighbors, distances, return_distance, X_is_A,
-                                       index_X, X_norm);
+            status = radius_neighbors_recursive(current_node->left_child, X, eps,
+                                                eps_internal, neighbors, distances,
+                                                return_distance, X_is_A, index_X, X_norm);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
         }
         if (diff >= -eps) {
             // Check the right child
-            radius_neighbors_recursive(current_node->right_child, X, eps, eps_internal,
-                                       neighbors, distances, return_distance, X_is_A,
-                                       index_X, X_norm);
+            status = radius_neighbors_recursive(current_node->right_child, X, eps,
+                                                eps_internal, neighbors, distances,
+                                                return_distance, X_is_A, index_X, X_norm);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
         }
     }
     return da_status_success;
@@ -516,23 +545,31 @@ da_status kd_tree<T>::k_neighbors_recursive(std::shared_ptr<kd_node<T>> current_
 
         if (diff < (T)0.0) {
             // Check the left child first
-            k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X, X_norm,
-                                  heap);
+            status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                           index_X, X_norm, heap);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
 
             if (diff_tmp >= -heap.GetMaxDist()) {
                 // Check the right child
-                k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
             }
         } else {
             // Check the right child first
-            k_neighbors_recursive(current_node->right_child, X, k, X_is_A, index_X,
-                                  X_norm, heap);
+            status = k_neighbors_recursive(current_node->right_child, X, k, X_is_A,
+                                           index_X, X_norm, heap);
+            if (status != da_status_success)
+                return status; // LCOV_EXCL_LINE
 
             if (diff_tmp <= heap.GetMaxDist()) {
                 // Check the left child
-                k_neighbors_recursive(current_node->left_child, X, k, X_is_A, index_X,
-                                      X_norm, heap);
+                status = k_neighbors_recursive(current_node->left_child, X, k, X_is_A,
+                                               index_X, X_norm, heap);
+                if (status != da_status_success)
+                    return status; // LCOV_EXCL_LINE
             }
         }
     }
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index fe8b1b4..a401146 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -667,8 +667,12 @@ da_status neighbors<T>::kneighbors_compute_brute_force(da_int n_queries,
         da_int this_thread = omp_get_thread_num();
         da_int local_error = 0;
         auto &this_D = thread_D[this_thread];
+        std::vector<da_int> perm_vector;
 
+        // All memory is allocated here: the error flag must not change after the barrier below,
+        // where it decides whether the threads enter the merge loop
         try {
+            perm_vector.resize(n_neigh);
             this_D.resize(xtrain_block_size * xtest_block_size);
             thread_k_ind[this_thread].resize(n_queries * n_neigh);
             thread_k_dist[this_thread].resize(n_queries * n_neigh);
@@ -755,13 +759,6 @@ da_status neighbors<T>::kneighbors_compute_brute_force(da_int n_queries,
 #pragma omp atomic read
             local_error = threading_error;
             if (local_error == 0) {
-                std::vector<da_int> perm_vector;
-                try {
-                    perm_vector.resize(n_neigh);
-                } catch (std::bad_alloc const &) {
-#pragma omp atomic write
-                    threading_error = 1;
-                }
                 for (da_int q = 0; q < n_queries; q++) {
                     sorted_n_dist_n_ind(n_neigh, thread_k_dist[0].data() + q * n_neigh,
                                         thread_k_ind[0].data() + q * n_neigh,
@@ -778,14 +775,6 @@ da_status neighbors<T>::kneighbors_compute_brute_force(da_int n_queries,
 #pragma omp atomic read
             local_error = threading_error;
             if (local_error == 0) {
-                std::vector<da_int> perm_vector;
-                try {
-                    perm_vector.resize(n_neigh);
-                } catch (std::bad_alloc const &) {
-#pragma omp atomic write
-                    threading_error = 1;
-                }
-
                 // Merge thread-local k-nearest into thread 0's arrays, then sort
 #pragma omp for schedule(guided)
                 for (da_int q = 0; q < n_queries; q++) {
@@ -886,8 +875,11 @@ da_status neighbors<T>::kneighbors_compute_kd_tree(da_int n_queries, da_int n_fe
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
-    this->internal_kd_tree->k_neighbors(n_queries, n_features, X_test, ldx_test, n_neigh,
-                                        k_ind.data(), k_dist.data(), this->err);
+    da_status status = this->internal_kd_tree->k_neighbors(
+        n_queries, n_features, X_test, ldx_test, n_neigh, k_ind.data(), k_dist.data(),
+        this->err);
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
 
     // k_neighbors() does not sort the indices and distances, so we need to do it here.
     for (da_int k = 0; k < n_queries; k++) {
@@ -923,9 +915,11 @@ da_status neighbors<T>::kneighbors_compute_ball_tree(da_int n_queries, da_int n_
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
-    this->internal_ball_tree->k_neighbors(n_queries, n_features, X_test, ldx_test,
-                                          n_neigh, k_ind.data(), k_dist.data(),
-                                          this->err);
+    da_status status = this->internal_ball_tree->k_neighbors(
+        n_queries, n_features, X_test, ldx_test, n_neigh, k_ind.data(), k_dist.data(),
+        this->err);
+    if (status != da_status_success)
+        return status; // LCOV_EXCL_LINE
 
     // k_neighbors() does not sort the indices and distances, so we need to do it here.
     for (da_int k = 0; k < n_queries; k++) {
@@ -1011,6 +1005,7 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
                                        &utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     if (status != da_status_success)
         return status;
 
@@ -1055,8 +1050,6 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
         if (return_distance) {
             da_blas::imatcopy('T', n_neigh, n_queries, 1.0, n_dist, n_neigh, n_queries);
         }
-    } else {
-        delete[] (utility_ptr1);
     }
 
     return status;
@@ -1180,6 +1173,7 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
                                        &utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     if (status != da_status_success)
         return status;
 
@@ -1198,8 +1192,6 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
 
     if (this->order == column_major) {
         da_blas::imatcopy('T', n_classes, n_queries, 1.0, proba, n_classes, n_queries);
-    } else {
-        delete[] (utility_ptr1);
     }
 
     return status;
@@ -1572,6 +1564,7 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
                                        &utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     if (status != da_status_success)
         return status;
 
@@ -1643,10 +1636,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
         }
     }
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -1693,6 +1682,7 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
                                        &utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     if (status != da_status_success)
         return status;
 
@@ -1708,10 +1698,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                             "Unknown search mode: " + std::to_string(search_mode) + ".");
     }
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -1999,6 +1985,7 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
                                        &utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     if (status != da_status_success)
         return status;
 
@@ -2017,10 +2004,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         this->radius_neighbors_count, this->radius_neighbors_indices,
         this->radius_neighbors_distances, return_distance, sort_results, false);
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -2035,13 +2018,11 @@ da_status neighbors<T>::radius_neighbors_compute(
     std::vector<da_vector::da_vector<T>> &rnn_distances, bool return_distances,
     bool sort_results, bool is_temp) {
     if (!is_temp) {
-        // If radius neighbors were already computed, clean up memory of radius neighbors and (optionally) distances
-        if (this->model_trained) {
-            this->radius_neighbors_count.clear();
-            this->radius_neighbors_indices.clear();
-            this->radius_neighbors_distances.clear();
-            this->model_trained = false;
-        }
+        // Clean up what an earlier call, successful or not, has left
+        this->radius_neighbors_count.clear();
+        this->radius_neighbors_indices.clear();
+        this->radius_neighbors_distances.clear();
+        this->model_trained = false;
     }
     // Allocate memory
     try {
@@ -2072,6 +2053,9 @@ da_status neighbors<T>::radius_neighbors_compute(
                                    ".");
     }
 
+    if (status != da_status_success)
+        return status;
+
     for (da_int j = 0; j < n_queries; j++) {
         rnn_count[j] = rnn_indices[j].size();
     }
@@ -2270,27 +2254,26 @@ da_status neighbors<T>::radius_neighbors_compute_brute_force(
 
 #pragma omp barrier
 
-#pragma omp atomic read
-        local_error = threading_error;
-        if (local_error == 0) {
-#pragma omp for schedule(guided)
-            // Merge the local neighbors into the global radius_neighbors_indices
-            for (da_int i = 0; i < n_queries; i++) {
-                for (da_int t = 1; t < n_threads; t++) {
-                    rnn_indices[i].append(neighbors_local_indices[t][i]);
-                }
-            }
-
-            if (return_distances) {
+        // Merge the local neighbors and distances into the global ones. All threads must enter the
+        // loop so errors, which can also come from other iterations, are only checked inside it
 #pragma omp for schedule(guided)
-                // Merge the local distances into the global radius_neighbors_distances
-                for (da_int i = 0; i < n_queries; i++) {
+        for (da_int i = 0; i < n_queries; i++) {
+#pragma omp atomic read
+            local_error = threading_error;
+            if (local_error == 0) {
+                try {
                     for (da_int t = 1; t < n_threads; t++) {
-                        rnn_distances[i].append(neighbors_local_distances[t][i]);
+                        rnn_indices[i].append(neighbors_local_indices[t][i]);
+                        if (return_distances)
+                            rnn_distances[i].append(neighbors_local_distances[t][i]);
                     }
+                } catch (std::bad_alloc const &) {
+#pragma omp atomic write
+                    threading_error = 1;
                 }
             }
         }
+
         neighbors_local_indices[this_thread] =
             std::vector<da_vector::da_vector<da_int>>{};
         neighbors_local_distances[this_thread] = std::vector<da_vector::da_vector<T>>{};
diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index e3a801b..9830246 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -189,14 +189,15 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
 
 #pragma omp barrier
 
-#pragma omp atomic read
-        local_error = threading_error;
-        if (local_error == 0) {
-            // The team may be smaller than the number of threads requested
-            da_int team_size = omp_get_num_threads();
+        // The team may be smaller than the number of threads requested
+        da_int team_size = omp_get_num_threads();
 #pragma omp for schedule(guided)
-            // Merge the local neighbors into the global neighbors
-            for (da_int i = 0; i < n_samples; i++) {
+        // Merge the local neighbors into the global neighbors. All threads must enter this loop so
+        // errors, which can also come from other iterations, are only checked inside it
+        for (da_int i = 0; i < n_samples; i++) {
+#pragma omp atomic read
+            local_error = threading_error;
+            if (local_error == 0) {
                 try {
                     for (da_int t = 1; t < team_size; t++) {
                         neighbors[i].append(neighbors_local[t][i]);
-- 
2.43.0


From 5564ec1e38d8322f88ee70500cf0764d7a1a18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 077/115] fix: adding vectors to an approximate index is all or
 nothing

---
 .../approximate_neighbors.cpp                 | 51 ++++++++++---------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index abf6cbb..b2c30a0 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -646,11 +646,8 @@ da_status approximate_neighbors<T>::add_ivfflat(da_int n_samples_add, da_int n_f
         local_indices.resize(n_list);
         nearest_centroid.resize(n_samples_add);
 
-        // If we are adding data to an index which already has data in it, we need
-        // to remember old list sizes
-        if (data_is_added) {
-            this->old_list_sizes = this->list_sizes;
-        }
+        // The sizes of the lists before the data is added (zero on first call)
+        this->old_list_sizes = this->list_sizes;
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
@@ -660,8 +657,6 @@ da_status approximate_neighbors<T>::add_ivfflat(da_int n_samples_add, da_int n_f
     try {
         for (da_int i = 0; i < n_list; i++) {
             local_indices[i].reserve(avg_list_size);
-            this->global_indices[i].reserve(this->global_indices[i].size() +
-                                            avg_list_size);
         }
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
@@ -751,34 +746,42 @@ da_status approximate_neighbors<T>::add_ivfflat(da_int n_samples_add, da_int n_f
                         "Memory allocation failed in parallel region.");
 
     // Phase 2: serial accumulation — O(n_add), no sharing needed
-    for (da_int i = 0; i < n_samples_add; i++) {
-        const da_int c = nearest_centroid[i];
-        local_indices[c].push_back(i);
-        this->global_indices[c].push_back(i + n_index);
-        this->list_sizes[c]++;
-    }
-
-    // Reset n_threads for the next parallel region
-    // n_threads is at most n_list
-    n_threads = std::min(static_cast<da_int>(omp_get_max_threads()), this->n_list);
-    size_t row_bytes = static_cast<size_t>(this->n_features) * sizeof(T);
-
+    // Everything that can fail comes first: the index only changes if all of it succeeds
     bool is_euclidean = (this->internal_metric == approx_nn_metric::sqeuclidean);
-
-    // Resize indexed_vectors (and list_norms for euclidean) to accommodate new data
-    // old_list_sizes is initialized to 0 in train_ivfflat(), so the loop below
-    // works for both first call (old_size=0) and subsequent calls
     try {
+        for (da_int i = 0; i < n_samples_add; i++) {
+            local_indices[nearest_centroid[i]].push_back(i);
+        }
+        // Resize indexed_vectors (and list_norms for euclidean) to accommodate new data
+        for (da_int i = 0; i < n_list; i++) {
+            size_t new_size = static_cast<size_t>(this->list_sizes[i]) +
+                              static_cast<size_t>(local_indices[i].size());
+            this->global_indices[i].reserve(new_size);
+            this->indexed_vectors[i].resize(new_size * static_cast<size_t>(n_features));
+            if (is_euclidean)
+                this->list_norms[i].resize(new_size);
+        }
+    } catch (std::bad_alloc const &) {
+        // Give back the room made so far
         for (da_int i = 0; i < n_list; i++) {
             this->indexed_vectors[i].resize(static_cast<size_t>(this->list_sizes[i]) *
                                             static_cast<size_t>(n_features));
             if (is_euclidean)
                 this->list_norms[i].resize(this->list_sizes[i]);
         }
-    } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
+    for (da_int i = 0; i < n_samples_add; i++) {
+        const da_int c = nearest_centroid[i];
+        this->global_indices[c].push_back(i + n_index);
+        this->list_sizes[c]++;
+    }
+
+    // Reset n_threads for the next parallel region
+    // n_threads is at most n_list
+    n_threads = std::min(static_cast<da_int>(omp_get_max_threads()), this->n_list);
+    size_t row_bytes = static_cast<size_t>(this->n_features) * sizeof(T);
 
     // Read from X_add_ptr and write to indexed_vectors (always stored as row major)
     // Leading dim of each indexed_vector[list_idx] is n_features
-- 
2.43.0


From 53f3ede535fd80cfbe76b4a85030d51bdb4fc76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 078/115] fix: support vector machines survive failed
 allocations in parallel loops and in the kernel cache

---
 source/core/svm/base_svm.cpp       |   3 +-
 source/core/svm/nu_svm.cpp         | 155 +++++++++++++++--------------
 source/core/svm/svm.cpp            |  46 ++++-----
 source/core/utilities/da_cache.hpp |  23 ++++-
 4 files changed, 121 insertions(+), 106 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 8884198..ba38a7a 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -658,7 +658,8 @@ void base_svm<T>::kernel_compute(std::vector<da_int> &idx, da_int &idx_size,
                 ptr_kernel_col[current_idx] = &kernel_temp[i * n];
             }
             // Pass raw data pointer and stride to cache - avoids storing pointers to local data
-            cache.put(idx_temp, kernel_temp.data(), n);
+            if (cache.put(idx_temp, kernel_temp.data(), n) == da_status_memory_error)
+                throw std::bad_alloc();
         } else {
             for (da_int i = 0; i < idx_to_compute_count; i++) {
                 da_int current_idx = idx_to_compute[i];
diff --git a/source/core/svm/nu_svm.cpp b/source/core/svm/nu_svm.cpp
index de44e19..f5b2355 100644
--- a/source/core/svm/nu_svm.cpp
+++ b/source/core/svm/nu_svm.cpp
@@ -387,18 +387,12 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
     }
     block_size = std::min(block_size, counter);
     da_int n_blocks = counter / block_size, residual = counter % block_size;
-    std::vector<T> kernel_matrix, X_temp, gradient_threads, current_alpha_diff,
-        gradient_local;
-    std::vector<da_int> current_idx;
+    std::vector<T> gradient_threads, gradient_local;
     [[maybe_unused]] da_int n_threads = da_utils::get_n_threads_loop(n_blocks);
     n_threads = std::min(n_threads, da_int(64));
     // Create local arrays for each thread
     try {
-        current_idx.resize(block_size);
-        current_alpha_diff.resize(block_size);
         gradient_local.resize(gradient_size * n_threads);
-        kernel_matrix.resize(this->n * block_size);
-        X_temp.resize(block_size * this->p);
     } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
@@ -409,83 +403,98 @@ da_status nusvm<T>::initialise_gradient(std::vector<T> &alpha_diff, da_int count
     kernel_f_type<T> kernel_f = this->kernel_f;
     T coef0 = this->coef0, gamma = this->gamma;
     da_int degree = this->degree, threading_error = 0;
-#pragma omp parallel for schedule(dynamic) num_threads(n_threads) default(none)          \
-    firstprivate(current_idx, current_alpha_diff, kernel_matrix, X_temp,                 \
-                     gradient_threads)                                                   \
+#pragma omp parallel num_threads(n_threads) default(none) firstprivate(gradient_threads) \
     shared(n_blocks, block_size, residual, index_aux, cache, n, p, ldx_2, degree, coef0, \
                gamma, kernel_f, X, x_norm_aux, alpha_diff, gradient_local,               \
                gradient_size, threading_error, ::da_kernel_functions::kf_tuning)
-    // Loop over blocks and residual
-    for (da_int i = 0; i <= n_blocks; i++) {
-        da_int current_block_size = (i < n_blocks) ? block_size : residual;
-        if (current_block_size == 0) {
-            continue;
-        }
-
-        if (i < n_blocks) { // we are in block
-            current_idx.assign(index_aux.begin() + i * block_size,
-                               index_aux.begin() + (i + 1) * block_size);
-            current_alpha_diff.assign(alpha_diff.begin() + i * block_size,
-                                      alpha_diff.begin() + (i + 1) * block_size);
-        } else { // we are in residual
-            current_idx.assign(index_aux.begin() + n_blocks * block_size,
-                               index_aux.end());
-            current_alpha_diff.assign(alpha_diff.begin() + n_blocks * block_size,
-                                      alpha_diff.end());
+    {
+        // Buffers of each thread
+        std::vector<da_int> current_idx, idx_temp;
+        std::vector<T> current_alpha_diff, kernel_matrix, X_temp, y_norm_aux_local;
+        bool buffers_ready = true;
+        try {
+            current_idx.resize(block_size);
+            idx_temp.resize(block_size);
+            current_alpha_diff.resize(block_size);
+            kernel_matrix.resize(n * block_size);
+            X_temp.resize(block_size * p);
+            y_norm_aux_local.resize(block_size);
+        } catch (std::bad_alloc const &) {
+            buffers_ready = false;
+#pragma omp atomic write
+            threading_error = 1;
         }
-
-        // Get the relevant slices of original matrix (working set)
-        // Note: it would be more efficient to operate on row-major order
-        for (da_int j = 0; j < current_block_size; j++) {
-            da_int current_idx2 = current_idx[j] % n;
-            for (da_int k = 0; k < p; k++) {
-                X_temp[j + k * current_block_size] = X[current_idx2 + k * ldx_2];
+#pragma omp for schedule(dynamic)
+        // Loop over blocks and residual
+        for (da_int i = 0; i <= n_blocks; i++) {
+            da_int current_block_size = (i < n_blocks) ? block_size : residual;
+            if (current_block_size == 0 || !buffers_ready) {
+                continue;
             }
-        }
 
-        // Call to appropriate kernel function. Note that only idx_to_compute_count columns of kernel_temp will be filled.
-        vectorization_type vectorisation = Oracle<KernelSelection>(
-            ::da_kernel_functions::kf_tuning, tid<T>(), n, oracle_lt<da_int>, "kf.isa");
-        // Variables used in euclidean_distance interface, 1 means to use precomputed norms, 2 means to compute norms
-        da_int compute_X_norms = 1;
-        da_int compute_y_norms = 2;
-        // Make y-norms buffer thread-local to avoid data races
-        std::vector<T> y_norm_aux_local(current_block_size);
-        kernel_f(column_major, n, current_block_size, p, X, x_norm_aux, compute_X_norms,
-                 ldx_2, X_temp.data(), y_norm_aux_local.data(), compute_y_norms,
-                 current_block_size, kernel_matrix.data(), n, gamma, degree, coef0, false,
-                 (da_int)vectorisation);
-
-        // Update cache with idx_computed_count new columns of kernel matrix
-        if (cache.active_) {
-            // Build index array for cache keys
-            std::vector<da_int> idx_temp(current_block_size);
             try {
-                idx_temp.resize(current_block_size);
+                current_idx.assign(index_aux.begin() + i * block_size,
+                                   index_aux.begin() + i * block_size +
+                                       current_block_size);
+                current_alpha_diff.assign(alpha_diff.begin() + i * block_size,
+                                          alpha_diff.begin() + i * block_size +
+                                              current_block_size);
+
+                // Get the relevant slices of original matrix (working set)
+                // Note: it would be more efficient to operate on row-major order
+                for (da_int j = 0; j < current_block_size; j++) {
+                    da_int current_idx2 = current_idx[j] % n;
+                    for (da_int k = 0; k < p; k++) {
+                        X_temp[j + k * current_block_size] = X[current_idx2 + k * ldx_2];
+                    }
+                }
+
+                // Call to appropriate kernel function. Note that only idx_to_compute_count columns of kernel_temp will be filled.
+                vectorization_type vectorisation =
+                    Oracle<KernelSelection>(::da_kernel_functions::kf_tuning, tid<T>(), n,
+                                            oracle_lt<da_int>, "kf.isa");
+                // Variables used in euclidean_distance interface, 1 means to use precomputed norms, 2 means to compute norms
+                da_int compute_X_norms = 1;
+                da_int compute_y_norms = 2;
+                kernel_f(column_major, n, current_block_size, p, X, x_norm_aux,
+                         compute_X_norms, ldx_2, X_temp.data(), y_norm_aux_local.data(),
+                         compute_y_norms, current_block_size, kernel_matrix.data(), n,
+                         gamma, degree, coef0, false, (da_int)vectorisation);
+
+                // Update cache with idx_computed_count new columns of kernel matrix
+                if (cache.active_) {
+                    // Build index array for cache keys (no larger than what the buffer was made for)
+                    idx_temp.resize(current_block_size);
+                    for (da_int j = 0; j < current_block_size; j++) {
+                        idx_temp[j] = current_idx[j] % n;
+                    }
+                    // Pass raw data pointer and stride to cache - avoids storing pointers to local kernel_matrix
+                    if (cache.put(idx_temp, kernel_matrix.data(), n) !=
+                        da_status_success) {
+#pragma omp atomic write
+                        threading_error = 1;
+                        continue;
+                    }
+                }
+                // Use raw kernel data pointer directly - avoids storing pointers to local kernel_matrix
+                da_int t_id = omp_get_thread_num();
+                this->update_gradient(&gradient_local[t_id * gradient_size],
+                                      gradient_threads, current_alpha_diff, n,
+                                      current_block_size, kernel_matrix.data(), n);
+                if (this->mod == da_svm_model::nusvr) {
+                    // alpha_diff is just of size n (when technically it should be 2n) but since
+                    // second half of alpha_diff is just first half negated, we can just multiply by -1
+                    // and call update_gradient again with new values
+                    std::for_each(current_alpha_diff.begin(), current_alpha_diff.end(),
+                                  [](T &value) { value = -value; });
+                    this->update_gradient(&gradient_local[t_id * gradient_size],
+                                          gradient_threads, current_alpha_diff, n,
+                                          current_block_size, kernel_matrix.data(), n);
+                }
             } catch (std::bad_alloc const &) {
 #pragma omp atomic write
                 threading_error = 1;
             }
-            for (da_int j = 0; j < current_block_size; j++) {
-                idx_temp[j] = current_idx[j] % n;
-            }
-            // Pass raw data pointer and stride to cache - avoids storing pointers to local kernel_matrix
-            cache.put(idx_temp, kernel_matrix.data(), n);
-        }
-        // Use raw kernel data pointer directly - avoids storing pointers to local kernel_matrix
-        da_int t_id = omp_get_thread_num();
-        this->update_gradient(&gradient_local[t_id * gradient_size], gradient_threads,
-                              current_alpha_diff, n, current_block_size,
-                              kernel_matrix.data(), n);
-        if (this->mod == da_svm_model::nusvr) {
-            // alpha_diff is just of size n (when technically it should be 2n) but since
-            // second half of alpha_diff is just first half negated, we can just multiply by -1
-            // and call update_gradient again with new values
-            std::for_each(current_alpha_diff.begin(), current_alpha_diff.end(),
-                          [](T &value) { value = -value; });
-            this->update_gradient(&gradient_local[t_id * gradient_size], gradient_threads,
-                                  current_alpha_diff, n, current_block_size,
-                                  kernel_matrix.data(), n);
         }
     }
     if (threading_error == 1)
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index c05cf4d..92931ad 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -497,8 +497,11 @@ template <typename T> da_status svm<T>::compute() {
         this->opts.get("gamma", gamma_temp);
         if (gamma_temp < 0) {
             T mean, variance = 1;
-            ARCH::da_basic_statistics::variance(column_major, da_axis_all, nrow, ncol, X,
-                                                ldx_train, -1, &mean, &variance);
+            if (ARCH::da_basic_statistics::variance(column_major, da_axis_all, nrow, ncol,
+                                                    X, ldx_train, -1, &mean,
+                                                    &variance) != da_status_success)
+                return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                                "Memory allocation error.");
             if (variance == 0)
                 return da_error(
                     this->err, da_status_invalid_input,
@@ -796,6 +799,7 @@ da_status svm<T>::predict(da_int nsamples, da_int nfeat, const T *X_test, da_int
         "n_samples", "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     if (ismulticlass) {
         std::vector<da_int> votes;
@@ -804,8 +808,6 @@ da_status svm<T>::predict(da_int nsamples, da_int nfeat, const T *X_test, da_int
             votes.resize(n_class * nsamples);
             classifier_predictions.resize(nsamples);
         } catch (std::bad_alloc &) { // LCOV_EXCL_LINE
-            if (utility_ptr1)
-                delete[] (utility_ptr1);
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error");
         }
@@ -814,8 +816,6 @@ da_status svm<T>::predict(da_int nsamples, da_int nfeat, const T *X_test, da_int
                 classifiers[i]->predict(nsamples, nfeat, X_test_temp, ldx_test_temp,
                                         classifier_predictions.data());
             if (status != da_status_success) {
-                if (utility_ptr1)
-                    delete[] (utility_ptr1);
                 return da_error(this->err, da_status_internal_error,
                                 "An unexpected error occurred during prediction.");
             }
@@ -844,8 +844,6 @@ da_status svm<T>::predict(da_int nsamples, da_int nfeat, const T *X_test, da_int
         status = classifiers[0]->predict(nsamples, nfeat, X_test_temp, ldx_test_temp,
                                          predictions);
     }
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
     return status;
 }
 
@@ -888,11 +886,13 @@ da_status svm<T>::decision_function(da_int nsamples, da_int nfeat, const T *X_te
         "n_samples", "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     status = this->store_2D_array(n_rows, n_cols, decision_values, ldd, &utility_ptr2,
                                   const_cast<const T **>(&decision_values_temp), ldd_temp,
                                   "n_rows", "n_cols", "decision_values", "ldd", 1);
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard2(utility_ptr2);
 
     std::vector<T> decision_values_ovo;
     try {
@@ -907,10 +907,6 @@ da_status svm<T>::decision_function(da_int nsamples, da_int nfeat, const T *X_te
             classifiers[i]->decision_function(nsamples, nfeat, X_test_temp, ldx_test_temp,
                                               decision_values_ovo.data() + i * nsamples);
         if (status != da_status_success) {
-            if (utility_ptr1)
-                delete[] (utility_ptr1);
-            if (utility_ptr2)
-                delete[] (utility_ptr2);
             return status;
         }
     }
@@ -978,10 +974,6 @@ da_status svm<T>::decision_function(da_int nsamples, da_int nfeat, const T *X_te
         }
     }
 
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
-    if (utility_ptr2)
-        delete[] (utility_ptr2);
     return da_status_success;
 }
 
@@ -1011,6 +1003,7 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
         "n_samples", "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
 
     status = this->check_1D_array(nsamples, y_test, "n_samples", "y_test", 1);
     if (status != da_status_success)
@@ -1024,6 +1017,8 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
                         "Memory allocation error");
     }
     status = predict(nsamples, nfeat, X_test, ldx_test, predictions.data());
+    if (status != da_status_success)
+        return status; // Error message already loaded
     // Calculate accuracy for classification and R^2 for regression
     if (mod == da_svm_model::svc || mod == da_svm_model::nusvc) {
         // Accuracy implementation
@@ -1037,8 +1032,11 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
     } else {
         // R^2 implementation
         T y_test_mean, rss = 0, tss = 0;
-        ARCH::da_basic_statistics::mean(column_major, da_axis_all, nsamples, 1, y_test,
-                                        nsamples, &y_test_mean);
+        status = ARCH::da_basic_statistics::mean(column_major, da_axis_all, nsamples, 1,
+                                                 y_test, nsamples, &y_test_mean);
+        if (status != da_status_success)
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "Computation of the mean of the targets failed.");
         for (da_int i = 0; i < nsamples; i++) {
             rss += pow(y_test[i] - predictions[i], 2);
             tss += pow(y_test[i] - y_test_mean, 2);
@@ -1052,8 +1050,6 @@ da_status svm<T>::score(da_int nsamples, da_int nfeat, const T *X_test, da_int l
         else
             *score = T(1 - rss / tss);
     }
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
     return da_status_success;
 }
 
@@ -1090,11 +1086,13 @@ da_status svm<T>::predict_proba(da_int nsamples, da_int nfeat, const T *X_test,
         "n_samples", "n_features", "X_test", "ldx_test");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard1(utility_ptr1);
     status = this->store_2D_array(nsamples, n_class, y_proba, ldy, &utility_ptr2,
                                   const_cast<const T **>(&y_proba_temp), ldy_temp,
                                   "n_rows", "n_cols", "y_proba", "ldy", 1);
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> utility_guard2(utility_ptr2);
     std::vector<T> dec_values;
     try {
         dec_values.resize(nsamples * n_classifiers);
@@ -1107,10 +1105,6 @@ da_status svm<T>::predict_proba(da_int nsamples, da_int nfeat, const T *X_test,
             classifiers[i]->decision_function(nsamples, nfeat, X_test_temp, ldx_test_temp,
                                               dec_values.data() + i * nsamples);
         if (status != da_status_success) {
-            if (utility_ptr1)
-                delete[] (utility_ptr1);
-            if (utility_ptr2)
-                delete[] (utility_ptr2);
             return status;
         }
     }
@@ -1211,10 +1205,6 @@ da_status svm<T>::predict_proba(da_int nsamples, da_int nfeat, const T *X_test,
         da_utils::copy_transpose_2D_array_column_to_row_major(
             nsamples, n_class, y_proba_temp, ldy_temp, y_proba, ldy);
     }
-    if (utility_ptr1)
-        delete[] (utility_ptr1);
-    if (utility_ptr2)
-        delete[] (utility_ptr2);
     return status;
 }
 
diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index a0428dd..0769232 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -108,7 +108,11 @@ template <typename T> class LRUCache {
         // PART 1 - Get the pointers to free data from cache data_ buffer
         std::vector<T *> free_pointers;
         da_int target = std::min(n_requested, capacity_);
-        free_pointers.reserve(target);
+        try {
+            free_pointers.reserve(target);
+        } catch (std::bad_alloc const &) {
+            return da_status_memory_error; // Nothing is cached
+        }
         omp_set_lock(&cache_lock_);
         // Use free slots first
         while ((da_int)free_pointers.size() < target && n_cols_free > 0) {
@@ -148,13 +152,24 @@ template <typename T> class LRUCache {
         }
         // PART 3 - Update the doubly linked list to keep track of the order of usage (LRU policy)
         omp_set_lock(&cache_lock_);
+        da_status status = da_status_success;
         for (da_int i = 0; i < actual; i++) {
             // Add new item to the front
-            items_.emplace_front(key[i], free_pointers[i]);
-            cache_[key[i]] = items_.begin();
+            bool in_list = false;
+            try {
+                items_.emplace_front(key[i], free_pointers[i]);
+                in_list = true;
+                cache_[key[i]] = items_.begin();
+            } catch (std::bad_alloc const &) {
+                // The remaining columns are not cached: the cache has lost their space
+                if (in_list)
+                    items_.pop_front();
+                status = da_status_memory_error;
+                break;
+            }
         }
         omp_unset_lock(&cache_lock_);
-        return da_status_success;
+        return status;
     }
 
     /**
-- 
2.43.0


From 2ad6e6dda37e8611c37ff4a84ddc379705ece268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 079/115] fix: tree and forest fits report failed allocations
 of their work queue and threads

---
 .../forest/decision_forest_training.hpp       | 15 ++++++----
 .../tree/decision_tree_training_fit.hpp       | 28 ++++++++++++++++---
 .../tree/decision_tree_training_memory.hpp    |  7 +++--
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index 92f3ba1..80e6e5f 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -209,11 +209,16 @@ template <typename T> da_status decision_forest<T>::fit() {
             continue;
         }
         da_status tree_status;
-        tree_status =
-            forest[i]->set_training_data(n_samples, n_features, X, ldx, y, n_class, n_obs,
-                                         nullptr, usr_categorical_feat);
-        if (tree_status == da_status_success)
-            tree_status = forest[i]->fit();
+        // No exception may leave the parallel region
+        try {
+            tree_status =
+                forest[i]->set_training_data(n_samples, n_features, X, ldx, y, n_class,
+                                             n_obs, nullptr, usr_categorical_feat);
+            if (tree_status == da_status_success)
+                tree_status = forest[i]->fit();
+        } catch (std::bad_alloc &) {              // LCOV_EXCL_LINE
+            tree_status = da_status_memory_error; // LCOV_EXCL_LINE
+        }
         forest[i]->clear_working_memory();
         if (tree_status != da_status_success) {
 #pragma omp atomic
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 4e0e00e..d038f03 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -203,22 +203,42 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
                     "continuous data requested with histograms unexpectedly.");
         }
 
+        da_status status = da_status_success;
+        // The queue may be extended inside a parallel region
+        auto queue_node = [this](da_int idx) {
+            try {
+                nodes_to_treat.push_back(idx);
+            } catch (std::bad_alloc const &) {
+                return da_error_bypass(this->err,
+                                       da_status_memory_error, // LCOV_EXCL_LINE
+                                       "Memory allocation error");
+            }
+            return da_status_success;
+        };
         // Add children nodes and push them into the queue
         // if potential for further improvements is still high enough
-        add_node(node_idx, false, best_split.right_score, best_split.samp_idx);
+        status = add_node(node_idx, false, best_split.right_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status; // Error message already loaded
         if (best_split.right_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
             tree[n_nodes - 1].depth < max_depth)
-            nodes_to_treat.push_back(n_nodes - 1);
+            status = queue_node(n_nodes - 1);
         else
             n_leaves += 1;
-        add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status;
+        status = add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status; // Error message already loaded
         if (best_split.left_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
             tree[n_nodes - 1].depth < max_depth)
-            nodes_to_treat.push_back(n_nodes - 1);
+            status = queue_node(n_nodes - 1);
         else
             n_leaves += 1;
+        if (status != da_status_success)
+            return status;
     } else
         n_leaves += 1;
 
diff --git a/source/core/decision_forest/tree/decision_tree_training_memory.hpp b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
index 064df9c..ab44b81 100644
--- a/source/core/decision_forest/tree/decision_tree_training_memory.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_memory.hpp
@@ -50,8 +50,11 @@ template <typename T> da_status decision_tree<T>::init_working_memory_raw() {
         memcpy(cat_feat.data(), usr_categorical_feat, n_features * sizeof(da_int));
     else if (check_cat_data) {
         for (da_int j = 0; j < n_features; j++) {
-            da_utils::check_categorical_data(n_samples, &X[j * ldx], cat_feat[j],
-                                             opt_max_cat, cat_tol);
+            da_status status = da_utils::check_categorical_data(
+                n_samples, &X[j * ldx], cat_feat[j], opt_max_cat, cat_tol);
+            if (status != da_status_success)
+                return da_error_bypass(this->err, status, // LCOV_EXCL_LINE
+                                       "Memory allocation error");
         }
     }
     if (init_cat_data) {
-- 
2.43.0


From 1d88c9eb6939fc4d8bf1dbfa1f2625a3f2d36a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 080/115] fix: a linear model fit starts without the remains of
 one that failed

---
 source/core/linear_model/linear_model.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 018a25b..855ff0b 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -443,6 +443,7 @@ template <typename T> da_status linear_model<T>::init_opt_method(linmod_method m
     }
 
     if (status != da_status_success) {
+        delete opt;
         opt = nullptr;
         return status; // Error message already loaded
     }
@@ -838,6 +839,10 @@ template <typename T> da_status linear_model<T>::fit(da_int usr_ncoefs, const T
         return status; // Error message already loaded
     }
 
+    // Drop what an earlier fit that failed may have left behind
+    reset_data();
+    reset_solvers();
+
     if (this->use_mixed_precision) {
 
         status = linear_model<T>::lower_precision_init(ncoefs_local, coefs, coefs_local);
@@ -2559,8 +2564,10 @@ da_status linear_model<T>::lower_precision_init(da_int &ncoefs, const T *coefs_i
             ncoefs = lm_lp.nrow_coef * lm_lp.ncol_coef;
         }
 
+        std::unique_ptr<T[]> coefs_guard;
         try {
-            coefs_out = new T[ncoefs];
+            coefs_guard.reset(new T[ncoefs]);
+            coefs_out = coefs_guard.get();
         } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error.");
@@ -2594,9 +2601,13 @@ da_status linear_model<T>::lower_precision_init(da_int &ncoefs, const T *coefs_i
 
         lp_type rinfo[100];
         da_int dim = 100;
-        lm_lp.get_result(da_result::da_rinfo, &dim, rinfo);
+        status = lm_lp.get_result(da_result::da_rinfo, &dim, rinfo);
+        if (status != da_status_success)
+            return status;
         this->lp_n_iter = static_cast<da_int>(rinfo[2]);
 
+        // From here on the caller owns the coefficients
+        coefs_guard.release();
         return da_status_success;
     } else {
         return da_error(this->err, da_status_incompatible_options,
-- 
2.43.0


From d36b7945c3e28e562edda0e4e20dc5af3eeaccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 081/115] fix: stratified shuffle stops when the class counts
 cannot be formed

---
 source/core/utilities/da_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..95b09c0 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -423,6 +423,8 @@ da_status stratified_shuffle(da_int m, boost::random::mt19937 &rand_engine,
     // Approximate the counts for each class for the trian split
     status = class_frequency_approximation(train_size, m, n_classes, rand_engine,
                                            appx_freq_train, counts);
+    if (status != da_status_success)
+        return status;
 
     // Remove samples used in train in order to accurately approximate test
     for (da_int i = 0; i < n_classes; ++i) {
@@ -431,6 +433,8 @@ da_status stratified_shuffle(da_int m, boost::random::mt19937 &rand_engine,
 
     status = class_frequency_approximation(test_size, m - train_size, n_classes,
                                            rand_engine, appx_freq_test, left_counts);
+    if (status != da_status_success)
+        return status;
 
     // class_index keeps track of the current class being processed.
     // train_index keeps track of the position in the shuffled_indices array
-- 
2.43.0


From cf5acd21315aa4f7f6250a404b722c16182f625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 082/115] fix: options are registered in place; option and
 statistics failures are reported by t-SNE, PCA, kernel PCA, k-means, dbscan
 and nlls

---
 source/core/clustering/dbscan/dbscan.cpp      |  3 ++
 source/core/clustering/kmeans/kmeans.cpp      | 20 +++++++++----
 source/core/dimension_reduction/tsne/tsne.cpp | 26 ++++++++++++-----
 .../dimension_reduction/tsne/tsne_options.hpp |  4 ++-
 source/core/drivers/ralfit_driver.hpp         | 21 --------------
 .../factorization/kernel_pca/kernel_pca.cpp   | 24 ++++++++++-----
 source/core/factorization/pca/pca.cpp         | 29 +++++++++++++------
 source/core/nlls/nlls.cpp                     |  2 ++
 source/core/utilities/options.hpp             |  5 +++-
 9 files changed, 81 insertions(+), 53 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index a6d9d0b..defded9 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -211,6 +211,9 @@ template <typename T> da_status dbscan<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_dbscan_set_data_s or da_dbscan_set_data_d.");
 
+    // Discard everything an earlier computation, finished or not, left in the handle
+    this->refresh();
+
     // Read in options and store in class
 
     this->opts.get("eps", eps);
diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 1d3dc37..a3f958f 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -270,15 +270,19 @@ da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
     this->n_samples = n_samples;
     this->n_features = n_features;
 
-    // Record that initialization is complete but computation has not yet been performed
-    initdone = true;
-    this->model_trained = false;
-
     // Now that we have a data matrix we can re-register the n_clusters option with new constraints
     da_int temp_clusters;
     this->opts.get("n_clusters", temp_clusters);
 
-    reregister_kmeans_option<T>(this->opts, n_samples);
+    this->model_trained = false;
+    initdone = false;
+    status = reregister_kmeans_option<T>(this->opts, n_samples);
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "The options could not be updated for the new data.");
+
+    // Record that initialization is complete but computation has not yet been performed
+    initdone = true;
 
     this->opts.set("n_clusters", std::min(temp_clusters, n_samples));
 
@@ -414,7 +418,11 @@ template <typename T> da_status kmeans<T>::compute() {
 
         // Remove the constraint on n_clusters, in case the user re-uses the handle with different data
         da_int n_clusters_temp = n_clusters;
-        reregister_kmeans_option<T>(this->opts, std::numeric_limits<da_int>::max());
+        status =
+            reregister_kmeans_option<T>(this->opts, std::numeric_limits<da_int>::max());
+        if (status != da_status_success)
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "The options could not be updated.");
         this->opts.set("n_clusters", n_clusters_temp);
     }
 
diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index 8318137..9d05778 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -204,6 +204,9 @@ da_status tsne<T>::set_data(da_int n_samples_in, da_int n_features_in, const T *
     if (status != da_status_success)
         return status;
 
+    // From here on the data and the model of an earlier call are gone
+    initdone = false;
+    model_trained = false;
     n_samples = n_samples_in;
     n_features = n_features_in;
 
@@ -228,17 +231,19 @@ da_status tsne<T>::set_data(da_int n_samples_in, da_int n_features_in, const T *
         X = X_copy.data();
     }
 
-    initdone = true;
-    model_trained = false;
-
     // Save user-set values before re-registering options (which resets to defaults)
     da_int temp_components = 2;
     this->opts.get("n_components", temp_components);
     T temp_perplexity = (T)30.0;
     this->opts.get("perplexity", temp_perplexity);
 
-    reregister_tsne_options<std::conditional_t<std::is_same_v<T, _Float16>, float, T>>(
-        this->opts, n_samples, n_features);
+    status = reregister_tsne_options<
+        std::conditional_t<std::is_same_v<T, _Float16>, float, T>>(this->opts, n_samples,
+                                                                   n_features);
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "The options could not be updated for the new data.");
+    initdone = true;
 
     // Restore user values, clamped to valid range
     da_int max_components = std::min<da_int>(3, n_features);
@@ -616,6 +621,8 @@ da_status tsne<T>::initialize_embedding(const std::string &init_method, da_int s
         } else {
             // PCA initialization: project onto first n_components principal components.
             da_pca::pca<T> pca(*this->err);
+            if (this->err->get_severity() == DA_ERROR)
+                return this->err->get_status(); // LCOV_EXCL_LINE
             auto &opts = pca.get_opts();
             opts.set("storage order", "row-major");
             opts.set("n_components", n_components);
@@ -638,9 +645,12 @@ da_status tsne<T>::initialize_embedding(const std::string &init_method, da_int s
             // sklearn uses std of the first column: X_embedded / std(X_embedded[:,0]) * 1e-4
             T mean = 0, var = 0;
             constexpr T target_stdv = (T)1e-4;
-            da_basic_statistics::variance(row_major, da_axis_all, n_samples, 1,
-                                          embedding.data(), n_components, -1, &mean,
-                                          &var);
+            status = da_basic_statistics::variance(row_major, da_axis_all, n_samples, 1,
+                                                   embedding.data(), n_components, -1,
+                                                   &mean, &var);
+            if (status != da_status_success)
+                return da_error(this->err, status, // LCOV_EXCL_LINE
+                                "Computation of the variance of the embedding failed.");
             T stdv = da_std::sqrt(var);
             // Guard against near-zero std dev (e.g. constant-column input)
             constexpr T eps_safety_factor = (T)100;
diff --git a/source/core/dimension_reduction/tsne/tsne_options.hpp b/source/core/dimension_reduction/tsne/tsne_options.hpp
index 9b8e32c..3077ce2 100644
--- a/source/core/dimension_reduction/tsne/tsne_options.hpp
+++ b/source/core/dimension_reduction/tsne/tsne_options.hpp
@@ -143,7 +143,6 @@ inline da_status reregister_tsne_options(da_options::OptionRegistry &opts,
             "n_components", "Number of embedding dimensions.", 1,
             da_options::lbound_t::greaterequal, max_components,
             da_options::ubound_t::lessequal, std::min<da_int>(2, max_components)));
-        opts.register_opt(oi, true);
 
         std::shared_ptr<OptionNumeric<T>> oT;
         oT = std::make_shared<OptionNumeric<T>>(OptionNumeric<T>(
@@ -151,6 +150,9 @@ inline da_status reregister_tsne_options(da_options::OptionRegistry &opts,
             da_options::lbound_t::greaterequal, static_cast<T>(max_perplexity),
             da_options::ubound_t::lessequal,
             static_cast<T>(std::min<da_int>(30, max_perplexity))));
+
+        // Replace the options only once both new ones are there
+        opts.register_opt(oi, true);
         opts.register_opt(oT, true);
 
     } catch (std::bad_alloc &) {
diff --git a/source/core/drivers/ralfit_driver.hpp b/source/core/drivers/ralfit_driver.hpp
index c770deb..baa6021 100644
--- a/source/core/drivers/ralfit_driver.hpp
+++ b/source/core/drivers/ralfit_driver.hpp
@@ -457,23 +457,6 @@ da_status ralfit_driver(da_options::OptionRegistry &opts, [[maybe_unused]] da_in
         return da_error_trace(&err, da_status_internal_error,
                               "Could not copy the options into the RALFit struct.");
 
-#ifndef NO_FORTRAN
-    // Initialize the workspace
-    void *workspace;
-    void *inner_workspace;
-#endif
-
-    // init_workspace allocates and links together workspace with inner_workspace
-    if constexpr (std::is_same_v<T, double>) {
-#ifndef NO_FORTRAN
-        ral_nlls_init_workspace_d(&workspace, &inner_workspace);
-#endif
-    } else {
-#ifndef NO_FORTRAN
-        ral_nlls_init_workspace_s(&workspace, &inner_workspace);
-#endif
-    }
-
     // Get address of eval_r
     assert(typeid(ral_nlls_eval_r_type_t<T>) == eval_r.target_type());
 
@@ -519,16 +502,12 @@ da_status ralfit_driver(da_options::OptionRegistry &opts, [[maybe_unused]] da_in
         nlls_solve_d(nvar, nres, x, ral_nlls_eval_r, ral_nlls_eval_J, ral_nlls_eval_HF,
                      usrdata, &options, &inform, weights, ral_nlls_eval_HP, lower_bounds,
                      upper_bounds);
-        ral_nlls_free_workspace_d(&workspace);
-        ral_nlls_free_workspace_d(&inner_workspace);
 #endif
     } else {
 #ifndef NO_FORTRAN
         nlls_solve_s(nvar, nres, x, ral_nlls_eval_r, ral_nlls_eval_J, ral_nlls_eval_HF,
                      usrdata, &options, &inform, weights, ral_nlls_eval_HP, lower_bounds,
                      upper_bounds);
-        ral_nlls_free_workspace_s(&workspace);
-        ral_nlls_free_workspace_s(&inner_workspace);
 #endif
     }
 
diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index f1f06cf..03ded95 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -298,7 +298,10 @@ da_status kernel_pca<T>::init(da_int n_samples_in, da_int n_features_in, const T
     da_int npc, max_npc = n_samples_in;
     this->opts.get("n_components", npc);
 
-    reregister_kernel_pca_n_components<T>(this->opts, max_npc);
+    status = reregister_kernel_pca_n_components<T>(this->opts, max_npc);
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "The options could not be updated for the new data.");
 
     this->opts.set("n_components", std::min(npc, max_npc));
 
@@ -453,12 +456,16 @@ template <typename T> da_status kernel_pca<T>::compute() {
     // row_means[i] = (1/n) * sum_j K_ij */
     // K_work is symmetric by construction if we compute it, and by assumption if user supplies it.
     // If the exact centering formula seems opaque, see Appendix B of [1]
-    da_basic_statistics::mean(this->order, da_axis_row, n_samples, n_samples,
-                              K_work.data(), n_samples, row_means.data());
+    status = da_basic_statistics::mean(this->order, da_axis_row, n_samples, n_samples,
+                                       K_work.data(), n_samples, row_means.data());
 
     // Compute mean of all row_means
-    da_basic_statistics::mean(row_major, da_axis_all, 1, n_samples, row_means.data(),
-                              n_samples, &grand_mean);
+    if (status == da_status_success)
+        status = da_basic_statistics::mean(row_major, da_axis_all, 1, n_samples,
+                                           row_means.data(), n_samples, &grand_mean);
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "Computation of the kernel means failed.");
 
     // Just update the upper triangular portion of K
     for (da_int j = 0; j < n_samples; j++) {
@@ -839,8 +846,11 @@ da_status kernel_pca<T>::transform(da_int m_samples, da_int m_features, const T
     // Center K_new using training statistics
     // K̃_new[i,j] = K_new[i,j] - new_row_means[i] - row_means[j] + grand_mean
     // See Appendix B of [1] for centering details
-    da_basic_statistics::mean(this->order, da_axis_row, m, n_samples, K_new.data(), ldk,
-                              new_row_means.data());
+    status = da_basic_statistics::mean(this->order, da_axis_row, m, n_samples,
+                                       K_new.data(), ldk, new_row_means.data());
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "Computation of the kernel means failed.");
 
     if (this->order == da_order::column_major) {
         for (da_int j = 0; j < n_samples; j++) {
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 4debd4e..19ab7bb 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -297,15 +297,18 @@ da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
     column_sdevs.resize(0);
     column_sdevs_nonzero.resize(0);
 
-    // Record that initialization is complete but computation has not yet been performed
-    initdone = true;
-    this->model_trained = false;
-
     // Now that we have a data matrix we can re-register the n_components option with new constraints
     da_int npc, max_npc = std::min(n, p);
     this->opts.get("n_components", npc);
 
-    reregister_pca_option<T>(this->opts, max_npc);
+    status = reregister_pca_option<T>(this->opts, max_npc);
+    if (status != da_status_success)
+        return da_error(this->err, status, // LCOV_EXCL_LINE
+                        "The options could not be updated for the new data.");
+
+    // Record that initialization is complete but computation has not yet been performed
+    initdone = true;
+    this->model_trained = false;
 
     this->opts.set("n_components", std::min(npc, max_npc));
 
@@ -437,6 +440,7 @@ template <typename T> da_status pca<T>::compute() {
                         "Memory allocation failed.");
     }
 
+    da_status status = da_status_success;
     if (solver == solver_syevd) {
         // Compute A^T A in vt
         da_syrk(column_major, da_upper, da_trans, p, n, (T)1.0, A, lda, (T)0.0, vt.data(),
@@ -454,8 +458,11 @@ template <typename T> da_status pca<T>::compute() {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
         }
-        ARCH::da_basic_statistics::mean(column_major, da_axis_col, n, p, A, lda,
-                                        column_means.data());
+        status = ARCH::da_basic_statistics::mean(column_major, da_axis_col, n, p, A, lda,
+                                                 column_means.data());
+        if (status != da_status_success)
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "Computation of the column statistics failed.");
 
         if (solver == solver_syevd) {
             for (da_int j = 0; j < p; j++) {
@@ -482,8 +489,12 @@ template <typename T> da_status pca<T>::compute() {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
         }
-        ARCH::da_basic_statistics::variance(column_major, da_axis_col, n, p, A, lda, dof,
-                                            column_means.data(), column_sdevs.data());
+        status = ARCH::da_basic_statistics::variance(column_major, da_axis_col, n, p, A,
+                                                     lda, dof, column_means.data(),
+                                                     column_sdevs.data());
+        if (status != da_status_success)
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "Computation of the column statistics failed.");
         if (solver == solver_syevd) {
             for (da_int j = 0; j < p; j++) {
                 column_sdevs[j] = sqrt(column_sdevs[j]);
diff --git a/source/core/nlls/nlls.cpp b/source/core/nlls/nlls.cpp
index 75f1c97..116850e 100644
--- a/source/core/nlls/nlls.cpp
+++ b/source/core/nlls/nlls.cpp
@@ -56,6 +56,8 @@ using namespace da_optim;
 template <typename T>
 nlls<T>::nlls(da_status &status, da_errors::da_error_t &err)
     : da_optimization<T>(status, err) {
+    if (status != da_status_success)
+        return; // Error message already loaded
     status = this->opts.set("optim method", "ralfit", da_options::setby_t::solver);
     if (status != da_status_success)
         da_error( // LCOV_EXCL_LINE
diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..5167671 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -794,7 +794,10 @@ class OptionRegistry {
         if (overwrite) {
             // Special case where we want to replace an already registered option
             auto search = registry.find(o->get_name());
-            registry.erase(search);
+            if (search != registry.end()) {
+                search->second = o;
+                return da_status_success;
+            }
         }
         size_t n = registry.size();
         registry.insert({o->get_name(), o});
-- 
2.43.0


From 87cc05f74ea5d7aed625cfda15f841599853d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:07 +0000
Subject: [PATCH 083/115] fix: removing a range that strictly contains a
 selected interval removes it from the selection

---
 source/core/data_management/interval_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..062d999 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -129,7 +129,7 @@ da_status interval_set::erase(interval bounds) {
         it_lower = iset.end();
 
     // Every interval between it_lower and it_upper in included in the inserted interval
-    bool is_included = it_lower == it_upper;
+    bool is_included = it_lower != iset.end() && it_lower == it_upper;
     if (!is_included) {
         inter_set::iterator it = it_lower;
         if (it != iset.end())
-- 
2.43.0


From abba70f4f5edce03ecb063a0fb24ecd59e46cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:07 +0000
Subject: [PATCH 084/115] fix: a negative label size is refused instead of
 writing past the label buffer

---
 source/core/data_management/data_store_public.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index 064b2f0..f24b23b 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -442,11 +442,12 @@ da_status da_data_get_col_label(da_datastore store, da_int col_idx, da_int *labe
     if (status != da_status_success) {
         return status; // Error message already loaded
     }
-    if (*label_sz < label_str.size() + 1) {
-        *label_sz = (da_int)label_str.size() + 1;
+    da_int required_sz = (da_int)label_str.size() + 1;
+    if (*label_sz < required_sz) {
         std::string buff = "label_sz was set to " + std::to_string(*label_sz) +
                            " but the output label is of size " +
-                           std::to_string(label_str.size() + 1);
+                           std::to_string(required_sz);
+        *label_sz = required_sz;
         return da_error(store->err, da_status_invalid_input, buff);
     }
     for (da_int i = 0; i < label_str.size(); i++)
-- 
2.43.0


From 3bb01a2e72bdf190daa859d580d357fee57be803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 085/115] fix: refused string columns are freed when the error
 message cannot be allocated

---
 source/core/data_management/data_store.hpp     | 16 ++++++++++++----
 .../core/data_management/data_store_public.cpp | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index b6666af..d8be8e9 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1414,8 +1414,12 @@ class data_store {
     template <class T>
     da_status concatenate_cols_csv(da_int mc, da_int nc, T *data, da_order order,
                                    bool copy_data, bool C_data) {
-        da_status status =
-            concatenate_columns(mc, nc, data, order, copy_data, true, C_data);
+        da_status status;
+        try {
+            status = concatenate_columns(mc, nc, data, order, copy_data, true, C_data);
+        } catch (std::bad_alloc const &) {   // LCOV_EXCL_LINE
+            status = da_status_memory_error; // LCOV_EXCL_LINE
+        }
         if (status != da_status_success)
             free_cols_csv(data, mc * nc); // LCOV_EXCL_LINE
         return status;
@@ -1524,8 +1528,12 @@ class data_store {
                 err, exit_status,
                 "Parsing error, Consult error trace for further details");
         }
-        status = concatenate_columns(nrows, ncols, data, csv->order, copy_data, own_data,
-                                     C_data);
+        try {
+            status = concatenate_columns(nrows, ncols, data, csv->order, copy_data,
+                                         own_data, C_data);
+        } catch (std::bad_alloc const &) {   // LCOV_EXCL_LINE
+            status = da_status_memory_error; // LCOV_EXCL_LINE
+        }
         if (status != da_status_success) {
             free_data(&headings, ncols);
             free_data(&data, nrows * ncols);
diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index f24b23b..6c6f11e 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -183,8 +183,13 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         // LCOV_EXCL_END
         memcpy(arr[i], block[i], len);
     }
-    da_status status =
-        store->store->concatenate_columns(n_rows, n_cols, arr, order, false, true, true);
+    da_status status;
+    try {
+        status = store->store->concatenate_columns(n_rows, n_cols, arr, order, false,
+                                                   true, true);
+    } catch (std::bad_alloc const &) {   // LCOV_EXCL_LINE
+        status = da_status_memory_error; // LCOV_EXCL_LINE
+    }
     if (status != da_status_success)
         da_csv::free_data(&arr, total);
     return status;
@@ -217,8 +222,13 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
         // LCOV_EXCL_END
         memcpy(arr[i], block[i], len);
     }
-    da_status status =
-        store->store->concatenate_rows(n_rows, n_cols, arr, order, false, true, true);
+    da_status status;
+    try {
+        status =
+            store->store->concatenate_rows(n_rows, n_cols, arr, order, false, true, true);
+    } catch (std::bad_alloc const &) {   // LCOV_EXCL_LINE
+        status = da_status_memory_error; // LCOV_EXCL_LINE
+    }
     if (status != da_status_success)
         da_csv::free_data(&arr, total);
     return status;
-- 
2.43.0


From 0f31c80648f19a3862e12460ed7a197b5b649b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 086/115] fix: da_nn_classes returns no more classes than there
 are, whether they were asked for before or not

---
 source/core/nearest_neighbors/nearest_neighbors_public.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors_public.hpp b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
index d57e66d..a4b8cc6 100644
--- a/source/core/nearest_neighbors/nearest_neighbors_public.hpp
+++ b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
@@ -92,6 +92,11 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         if (classes == nullptr)
             return da_error_bypass(handle->err, da_status_invalid_pointer,
                                    "classes is not a valid pointer.");
+        status = nn->available_classes();
+        if (status != da_status_success)
+            return status; // Error message already loaded
+        // There may be room for more classes than there are
+        *n_classes = (std::min)(*n_classes, da_int(nn->classes.size()));
         for (da_int i = 0; i < *n_classes; i++)
             classes[i] = nn->classes[i];
     }
-- 
2.43.0


From 058a3bd8572893edd3ebfd7560c799d653eff3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 087/115] fix: scalar results of DBSCAN and PCA are not written
 into an array of size zero

---
 source/core/clustering/dbscan/dbscan.cpp | 14 ++++++++++++++
 source/core/factorization/pca/pca.cpp    |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index defded9..9c90283 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -149,9 +149,23 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
         break;
     }
     case da_result::da_dbscan_n_clusters:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: " +
+                               std::to_string(1) + ".");
+        }
         *result = n_clusters;
         break;
     case da_result::da_dbscan_n_core_samples:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: " +
+                               std::to_string(1) + ".");
+        }
         *result = n_core_samples;
         break;
     default:
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 19ab7bb..e8a6aac 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -236,6 +236,13 @@ da_status pca<T>::get_result(da_result query, da_int *dim, T *result) {
             result[i] = column_sdevs[i];
         break;
     case da_result::da_pca_total_variance:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: " +
+                               std::to_string(1) + ".");
+        }
         result[0] = total_variance;
         break;
     default:
-- 
2.43.0


From 031ceacd6655e9672ac58cbcf4bf473602264908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 088/115] fix: linear model coefficients are returned into
 arrays larger than needed

---
 source/core/linear_model/linear_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 855ff0b..3c08fae 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -559,7 +559,7 @@ da_status linear_model<T>::get_coef(da_int &nx, T *coef, da_coef_type ctype) {
                             "The dual coefficients are only available for "
                             "underdetermined data and CG solver.");
     da_int correct_dim = (ctype == primal) ? ncoef : nsamples;
-    if (nx != correct_dim) {
+    if (nx < correct_dim) {
         nx = correct_dim;
         return da_warn(this->err, da_status_invalid_array_dimension,
                        "The number of coefficients is wrong, correct size is " +
-- 
2.43.0


From 8d660583ced5aee400fd5b67fd195222d3ef6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 089/115] fix: an option with bounds refuses NaN

---
 source/core/utilities/options.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index 5167671..baefccb 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -266,15 +266,15 @@ class OptionBase {
 
         // Quick check
         da_int iflag = 0;
-        // Check that it is within range (lower bound)
-        if ((lbound == greaterthan) && (value <= lower))
+        // Check that it is within range (lower bound), a NaN is within no bounds
+        if ((lbound == greaterthan) && !(value > lower))
             iflag += 1;
-        else if ((lbound == greaterequal) && (value < lower))
+        else if ((lbound == greaterequal) && !(value >= lower))
             iflag += 2;
         // Check that it is within range (upper bound)
-        if ((ubound == lessthan) && (value >= upper))
+        if ((ubound == lessthan) && !(value < upper))
             iflag += 10;
-        else if ((ubound == lessequal) && (value > upper))
+        else if ((ubound == lessequal) && !(value <= upper))
             iflag += 20;
         if (iflag) {
             errmsg = "Option '" + name + "': value out-of-bounds";
-- 
2.43.0


From 04e51d95770ca00ac6f9513817ab153b68066b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 090/115] fix: a refused option leaves the results of the
 handle; no room is no room for a string option

---
 source/core/utilities/options_public.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 89917e6..f8a40d3 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -45,7 +45,7 @@ da_status da_options_set(da_handle handle, const char *option, T value) try {
     }
 
     da_options::OptionRegistry *opts;
-    status = handle->get_current_opts(&opts, true);
+    status = handle->get_current_opts(&opts);
     if (status != da_status_success)
         return status; // Error message already loaded
 
@@ -54,7 +54,8 @@ da_status da_options_set(da_handle handle, const char *option, T value) try {
         // Construct error based on status & opts->errmsg string
         return da_error(handle->err, status, opts->errmsg);
     }
-    return da_status_success;
+    // Only an option that has changed invalidates what the handle has computed
+    return handle->get_current_opts(&opts, true);
 }
 DA_CATCH_STATUS
 
@@ -80,7 +81,7 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if (*lvalue <= 0 || n >= (size_t)(*lvalue)) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
@@ -171,7 +172,7 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if (*lvalue <= 0 || n >= (size_t)(*lvalue)) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
-- 
2.43.0


From aa17d9c4450ceb68713c363eeb6e1c6b2b939ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:09 +0000
Subject: [PATCH 091/115] fix: coordinate descent without scaling regularised
 the intercept and divided its step by 1 instead of the number of samples

---
 source/core/linear_model/linmod_nln_optim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index 25a1e6f..6dfa8bc 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -926,16 +926,16 @@ da_int stepfun_linreg_sklearn(da_int nfeat, T *coef, T *knew, da_int k, T *f, vo
         betak = T(0);
     else {
         using W = da_fp16::wider_t<T>;
-        W xv;
         if (k < nmod) {
-            xv = data->xv[k];
-        } else { // Intercept
-            xv = W(1);
+            // Form the divisor in the wider type W so (xv + l2) cannot underflow to
+            // 0/0 = NaN for _Float16 (a no-op for float/double).
+            const T num = sign(gk) * da_std::max(da_std::abs(gk) - l1, T(0));
+            betak = static_cast<T>(static_cast<W>(num) /
+                                   (data->xv[k] + static_cast<W>(l2)));
+        } else {
+            // Intercept: a column of ones, never regularized
+            betak = static_cast<T>(static_cast<W>(gk) / static_cast<W>(nsamples));
         }
-        // Form the divisor in the wider type W so (xv + l2) cannot underflow to
-        // 0/0 = NaN for _Float16 (a no-op for float/double).
-        const T num = sign(gk) * da_std::max(da_std::abs(gk) - l1, T(0));
-        betak = static_cast<T>(static_cast<W>(num) / (xv + static_cast<W>(l2)));
     }
 
     if (betak != T(0)) {
-- 
2.43.0


From 19a52aab0ba21863010b1f947961feacbe647893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:09 +0000
Subject: [PATCH 092/115] fix: logistic regression with the reference category
 constraint regularised the first class only

---
 source/core/linear_model/linmod_nln_optim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index 6dfa8bc..eef6a4e 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -244,7 +244,8 @@ da_int objfun_logistic_rsc([[maybe_unused]] da_int n, T *x, T *f, void *udata) {
     }
 
     // Add regularization (exclude intercept)
-    *f += regfun(data->nfeat, x, data->l1reg, data->l2reg);
+    for (da_int k = 0; k < nclass - 1; k++)
+        *f += regfun(data->nfeat, &x[k * nmod], data->l1reg, data->l2reg);
 
     return 0;
 }
@@ -304,7 +305,8 @@ da_int objgrd_logistic_rsc(da_int n, T *x, T *grad, void *udata,
     }
 
     // Add regularization (exclude intercept)
-    reggrd(data->nfeat, x, data->l1reg, data->l2reg, grad);
+    for (da_int k = 0; k < nclass - 1; k++)
+        reggrd(data->nfeat, &x[k * nmod], data->l1reg, data->l2reg, &grad[k * nmod]);
 
     return 0;
 }
-- 
2.43.0


From 1424e609ebcf8ad33e64743944666179a9d815f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 093/115] fix: logistic predictions when probabilities overflow
 or every class score is negative

---
 source/core/linear_model/linear_model.cpp | 33 ++++++++---------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 3c08fae..b8860f4 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -640,7 +640,7 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
     T alpha = 1.0, beta = 0.0;
     T aux;
     da_int flag, nmod;
-    std::vector<T> log_proba(0), scores(0);
+    std::vector<T> scores(0);
     enum CBLAS_ORDER storage =
         this->order == da_order::row_major ? CblasRowMajor : CblasColMajor;
     switch (mod) {
@@ -656,7 +656,6 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
     case linmod_model_logistic:
         nmod = intercept ? nfeat + 1 : nfeat;
         try {
-            log_proba.resize(nsamples * nclass, 0);
             if (nclass == 2)
                 scores.resize(nsamples, 0);
             else
@@ -673,33 +672,23 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
             for (da_int i = 0; i < nsamples; i++)
                 scores[i] > 0 ? predictions[i] = 1 : predictions[i] = 0;
         } else if (logistic_constraint_model == logistic_constraint::rsc) {
-            da_std::fill(log_proba.begin() + nsamples * (nclass - 1), log_proba.end(),
-                         T(1));
+            // Linear predictors, which order the classes as their probabilities do; the
+            // predictor of the reference class nclass - 1 is zero
             for (da_int k = 0; k < nclass - 1; k++) {
                 // < -- -this is a GEMM operation
                 da_blas::cblas_gemv(storage, CblasNoTrans, nsamples, nfeat, alpha, Xeval,
                                     ldXeval, &coef[k * nmod], 1, beta,
-                                    &log_proba[k * nsamples], 1);
+                                    &scores[k * nsamples], 1);
                 if (intercept) {
                     for (da_int i = 0; i < nsamples; i++)
-                        log_proba[k * nsamples + i] += coef[(k + 1) * nmod - 1];
+                        scores[k * nsamples + i] += coef[(k + 1) * nmod - 1];
                 }
-                for (da_int i = 0; i < nsamples; i++)
-                    log_proba[k * nsamples + i] = exp(log_proba[k * nsamples + i]);
             }
             for (da_int i = 0; i < nsamples; i++) {
-                aux = 0;
-                for (da_int k = 0; k < nclass; k++) {
-                    aux += log_proba[k * nsamples + i];
-                }
-                for (da_int k = 0; k < nclass; k++)
-                    log_proba[k * nsamples + i] /= aux;
-            }
-            for (da_int i = 0; i < nsamples; i++) {
-                aux = 0.0;
-                for (da_int k = 0; k < nclass; k++) {
-                    if (log_proba[k * nsamples + i] > aux) {
-                        aux = log_proba[k * nsamples + i];
+                aux = scores[i];
+                for (da_int k = 1; k < nclass; k++) {
+                    if (scores[k * nsamples + i] > aux) {
+                        aux = scores[k * nsamples + i];
                         predictions[i] = (T)k;
                     }
                 }
@@ -730,8 +719,8 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
                                 1.0, scores.data(), nsamples);
             // Iterate over predictions to pick argmax between each class
             for (da_int i = 0; i < nsamples; i++) {
-                aux = 0.0;
-                for (da_int k = 0; k < nclass; k++) {
+                aux = scores[i];
+                for (da_int k = 1; k < nclass; k++) {
                     if (scores[k * nsamples + i] > aux) {
                         aux = scores[k * nsamples + i];
                         predictions[i] = (T)k;
-- 
2.43.0


From 3147446d111c65b957bfdc3cc7bfda0dcb6b7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 094/115] fix: row-major coefficients of a multi-class logistic
 model with the reference category constraint were scrambled

---
 source/core/linear_model/linear_model.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index b8860f4..0acf78a 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -574,7 +574,10 @@ da_status linear_model<T>::get_coef(da_int &nx, T *coef, da_coef_type ctype) {
     case primal:
         // For MSE problem or binary logistic regression, the coefficients are simply a vector
         // For multiclass logistic regression they are a matrix, so we need to transpose appropriately for row-major data
-        if (mod == linmod_model_mse || nclass == 2) {
+        // With the reference category constraint the coefficients of each class are stored contiguously, which is
+        // row-major already
+        if (mod == linmod_model_mse || nclass == 2 ||
+            logistic_constraint_model == logistic_constraint::rsc) {
             da_int i;
             for (i = 0; i < ncoef; i++)
                 coef[i] = this->coef[i];
@@ -1187,7 +1190,8 @@ da_status linear_model<T>::fit_impl(da_int usr_ncoefs, const T *coefs, bool do_p
                 if (copycoefs) {
                     coef.resize(ncoef);
                     // User provided starting coefficients, check, copy and use.
-                    if (this->order == da_order::column_major)
+                    if (this->order == da_order::column_major ||
+                        logistic_constraint_model == logistic_constraint::rsc)
                         for (da_int j = 0; j < ncoef; j++)
                             coef[j] = coefs[j];
                     else // Review it user and solver can both be row-major, then don't change order
-- 
2.43.0


From e19ca3bb4a54aaca3c182475393840bea9865246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:54 +0000
Subject: [PATCH 095/115] fix: kernel PCA reported positive semi-definite
 kernels as indefinite because of rounding in zero eigenvalues

---
 source/core/factorization/kernel_pca/kernel_pca.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.hpp b/source/core/factorization/kernel_pca/kernel_pca.hpp
index 033f105..e3077a9 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.hpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.hpp
@@ -78,9 +78,9 @@ da_status clamp_near_zero_eigenvalues(std::vector<T> &eigenvalues, da_int n_chec
     Magic number stated in format: double (float)
     4 eigenvalue checks:
         1. Not all eigenvalues are negative.
-        3. No negative eigenvalue has absolute value larger than 1e-10 (1e-6)
+        2. No negative eigenvalue has absolute value larger than 1e-10 (1e-6)
         3. No negative eigenvalue has absolute value larger than 1e-5 (5e-3) * \lambda_0
-        If 1., 2. or 3. fail, return da_status_numerical_difficulties.
+        If 1. fails, or both 2. and 3. fail, return da_status_numerical_difficulties.
         Any negative eigenvalues that pass the tests are set to 0.
         4. Any positive eigenvalue with value smaller than 1e-12 (2e-7) * \lambda_0
             eigenvalue is set to 0.
@@ -100,12 +100,12 @@ da_status clamp_near_zero_eigenvalues(std::vector<T> &eigenvalues, da_int n_chec
 
     pos_bound *= max_eval;
     neg_rel_bound *= max_eval;
-    T strictest_neg_bound = -std::min(neg_abs_bound, neg_rel_bound);
+    T neg_bound = -std::max(neg_abs_bound, neg_rel_bound);
 
     for (da_int idx = 0; idx < n_total; idx++) {
         T &ev = eigenvalues[idx];
         if (ev < 0) {
-            if (idx < n_check && ev < strictest_neg_bound)
+            if (idx < n_check && ev < neg_bound)
                 return da_status_numerical_difficulties;
 
             ev = 0;
-- 
2.43.0


From 3334f1f53f60a7db6db95795a42f29d0909fdc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 096/115] fix: coordinate descent with scaling stopped at wrong
 coefficients because its dual gap used a stale residual and the wrong penalty

---
 source/core/linear_model/linmod_nln_optim.cpp | 30 ++++++++++++++-----
 .../core/linear_model/nln_optim_callbacks.hpp |  3 ++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index eef6a4e..54ff354 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -119,6 +119,9 @@ stepfun_usrdata_linreg<T>::stepfun_usrdata_linreg(da_order order, const T *X, da
     : usrdata_base<T>(order, X, ldX, y, nsamples, nfeat, intercept, lambda, alpha, xv,
                       scaling) {
     residual.resize(nsamples);
+    if (scaling == da_linmod_types::scaling_t::scale_only ||
+        scaling == da_linmod_types::scaling_t::standardize)
+        residual_chk.resize(nsamples);
     const da_int nmod = intercept ? nfeat - 1 : nfeat;
     work.resize(nmod); // does not include intercept coefficient
 }
@@ -978,17 +981,31 @@ da_int stepchk_linreg_dualgap(da_int nfeat, const T *coef, void *udata, T *gap)
     const da_int nmod = data->intercept ? nfeat - 1 : nfeat;
     const da_int nsamples = data->nsamples;
     const bool positive = data->positive;
-    const T l1{da_fp16::mul_int(data->l1reg, nsamples)}; // N * lambdahat * alpha
+    // With "scale only" the data is already scaled by 1/sqrt(N)
+    const da_int scale =
+        data->scaling == da_linmod_types::scaling_t::scale_only ? 1 : nsamples;
+    const T l1{da_fp16::mul_int(data->l1reg, scale)}; // N * lambdahat * alpha
     // Note that data->l2reg = lambdahat (1-alpha) / 2;
-    const T half_l2{da_fp16::mul_int(data->l2reg, nsamples)};
+    const T half_l2{da_fp16::mul_int(data->l2reg, scale)};
     const T l2{T(2) * half_l2};
 
+    // The GLMnet step function applies the change of a coordinate to its residual at the
+    // next step, while the gap is only meaningful at the residual of coef
+    const T *residual = data->residual.data();
+    if (!data->residual_chk.empty()) {
+        eval_feature_matrix(data->order, nfeat, coef, nsamples, data->X, data->ldX,
+                            data->residual_chk.data(), data->intercept);
+        for (da_int i = 0; i < nsamples; ++i)
+            data->residual_chk[i] = data->y[i] - data->residual_chk[i];
+        residual = data->residual_chk.data();
+    }
+
     // data->work := std::vector<T> XtA(coef, coef + nmod);
     data->work.assign(coef, coef + nmod);
 
     // Compute X^T * Residual - l2 * coef
-    eval_feature_matrix(data->order, nmod, data->residual.data(), nsamples, data->X,
-                        data->ldX, data->work.data(), false, true, T(1), -l2);
+    eval_feature_matrix(data->order, nmod, residual, nsamples, data->X, data->ldX,
+                        data->work.data(), false, true, T(1), -l2);
 
     T dnXtA{0};
     if (positive) {
@@ -1001,9 +1018,8 @@ da_int stepchk_linreg_dualgap(da_int nfeat, const T *coef, void *udata, T *gap)
 
     T nrm2R{0};
     T Rty{0};
-    nrm2R =
-        da_blas::cblas_dot(nsamples, data->residual.data(), 1, data->residual.data(), 1);
-    Rty = da_blas::cblas_dot(nsamples, data->residual.data(), 1, data->y, 1);
+    nrm2R = da_blas::cblas_dot(nsamples, residual, 1, residual, 1);
+    Rty = da_blas::cblas_dot(nsamples, residual, 1, data->y, 1);
 
     T nrm2coef{0};
     T nrm1coef{0};
diff --git a/source/core/linear_model/nln_optim_callbacks.hpp b/source/core/linear_model/nln_optim_callbacks.hpp
index 1157a73..4176681 100644
--- a/source/core/linear_model/nln_optim_callbacks.hpp
+++ b/source/core/linear_model/nln_optim_callbacks.hpp
@@ -117,10 +117,13 @@ template <class T> class stepfun_usrdata_linreg : public usrdata_base<T> {
   public:
     /* Add working memory array
      * residual[nsamples]: holds the residual (and all the intermediate calculations)
+     * residual_chk[nsamples]: residual used in the dual gap calculation when residual[] lags behind the
+     *                         coefficients (GLMnet step function), otherwise empty
      * work[nsamples]: work array used in the dual gap calculation:
      *                 X^T * Residual - l2 * coef
      */
     std::vector<T> residual;
+    std::vector<T> residual_chk;
     std::vector<T> work; // Size nmod (no intercept)
 
     stepfun_usrdata_linreg(da_order order, const T *X, da_int ldX, const T *y,
-- 
2.43.0


From 8e6d8fc46e75a9f016440806221419b3132740bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 097/115] fix: the order of IVF training data is the one in
 force when it was passed in

---
 source/core/approximate_neighbors/approximate_neighbors.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index b2c30a0..07856e5 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -234,7 +234,7 @@ template <typename T> da_status approximate_neighbors<T>::read_training_options(
     // Read any options relevant to training
     bool opt_pass = true;
     std::string opt_val;
-    da_int iorder, imetric;
+    da_int imetric;
 
     // Integer options - don't need n_probe or n_neighbors until search time
     opt_pass &= this->opts.get("n_list", n_list) == da_status_success;
@@ -251,7 +251,6 @@ template <typename T> da_status approximate_neighbors<T>::read_training_options(
                               : this->algo;
 
     opt_pass &= this->opts.get("metric", opt_val, imetric) == da_status_success;
-    opt_pass &= this->opts.get("storage order", opt_val, iorder) == da_status_success;
 
     if (!opt_pass)
         return da_error_bypass(this->err, da_status_internal_error, // LCOV_EXCL_LINE
@@ -264,7 +263,6 @@ template <typename T> da_status approximate_neighbors<T>::read_training_options(
                 " must be at least as large as n_list = " + std::to_string(n_list));
     }
 
-    this->order = da_order(iorder);
     this->metric = approx_nn_metric(imetric);
     this->internal_metric = (this->metric == approx_nn_metric::euclidean)
                                 ? approx_nn_metric::sqeuclidean
-- 
2.43.0


From 2f36ab54ce11db2a58db77272b750cfb4f0eb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 098/115] fix: training an IVF index again sampled from a
 fraction of the earlier fraction of the data

---
 source/core/approximate_neighbors/approximate_neighbors.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index 07856e5..eae7b95 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -363,6 +363,8 @@ template <typename T> da_status approximate_neighbors<T>::train_ivfflat() {
                         "Memory allocation failed.");
     }
 
+    // An earlier call may have trained on fewer samples
+    this->n_samples_train = this->n_samples;
     const T *train_ptr = this->X_train;
     da_int ld_train = this->ldx_train;
 
@@ -377,7 +379,7 @@ template <typename T> da_status approximate_neighbors<T>::train_ivfflat() {
             // Calculate n_samples_train
             // Bound below by n_list. We have an earlier check that n_list < n_samples
             this->n_samples_train = std::max(
-                static_cast<da_int>(this->n_samples_train * this->train_fraction),
+                static_cast<da_int>(this->n_samples * this->train_fraction),
                 this->n_list);
 
             status = this->subsample_training_data(X_train_work, ldx_train_work);
-- 
2.43.0


From d58c423c10c84927c29d5d34934a83b0c416d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:16 +0000
Subject: [PATCH 099/115] fix: an SVM working set which could not hold a most
 violating pair beside the kept half made no progress

---
 source/core/svm/base_svm.cpp | 12 ++++++++++--
 source/core/svm/svm.hpp      |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index ba38a7a..e3e6f8c 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -328,7 +328,8 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         }
         // Before next iteration, copy last half of indexes into the first half (heuristic barely mentioned in the paper, but used in implementation)
         else {
-            n_selected = ws_size / 2;
+            // ...as long as the rest has room for a most violating pair, or no progress is possible
+            n_selected = std::min(ws_size / 2, ws_size - min_ws_size());
             for (da_int i = 0; i < n_selected; i++) {
                 ws_indexes[i] = ws_indexes[i + n_selected];
                 ws_indicator[ws_indexes[i]] = true;
@@ -569,7 +570,14 @@ template <typename T>
 void base_svm<T>::compute_ws_size(da_int &ws_size, da_int max_ws_size) {
     // Pick minimum between maximum power of two such that it is less than n, or some constant in this case 1024
     da_int pow_two = maxpowtwo(actual_size);
-    ws_size = std::min(pow_two, max_ws_size);
+    ws_size = std::max(std::min(pow_two, max_ws_size), min_ws_size());
+}
+
+/* Smallest working set which has room for a most violating pair (in the nu formulation, for one of
+   each class). */
+template <typename T> da_int base_svm<T>::min_ws_size() const {
+    bool is_nu = mod == da_svm_model::nusvc || mod == da_svm_model::nusvr;
+    return std::min(actual_size, is_nu ? da_int(4) : da_int(2));
 }
 
 /* Given a set of indices 'idx', compute the kernel matrix between X and X_temp,
diff --git a/source/core/svm/svm.hpp b/source/core/svm/svm.hpp
index 1514af9..d34b1ee 100644
--- a/source/core/svm/svm.hpp
+++ b/source/core/svm/svm.hpp
@@ -246,6 +246,7 @@ template <typename T> class base_svm {
                         std::vector<T> &X_temp, da_vector::da_vector<T> &kernel_temp,
                         std::vector<T *> &ptr_kernel_col, da_cache::LRUCache<T> &cache);
     void compute_ws_size(da_int &ws_size, da_int max_ws_size);
+    da_int min_ws_size() const;
     da_int maxpowtwo(da_int &n);
     void wssi(std::vector<da_int> &I_up, std::vector<T> &gradient, da_int &i,
               T &min_grad);
-- 
2.43.0


From 5666fcd782fc1391dd6288c77de29a3fba4df434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:40 +0000
Subject: [PATCH 100/115] fix: a failing system entropy source was reported as
 an internal error, and one seed it can give overflowed

---
 .../approximate_neighbors.cpp                 |  5 +++--
 source/core/clustering/kmeans/kmeans.cpp      | 12 ++++++++----
 source/core/clustering/kmeans/kmeans.hpp      |  2 +-
 .../forest/decision_forest_training.hpp       |  5 +++--
 .../tree/decision_tree_training_fit.hpp       |  5 +++--
 source/core/dimension_reduction/tsne/tsne.cpp |  7 +++++--
 source/core/svm/svm.cpp                       |  5 +++--
 source/core/utilities/da_randsvd.hpp          | 17 ++++++++---------
 source/core/utilities/da_utils.cpp            | 19 +++++++++++++++++--
 source/core/utilities/da_utils.hpp            |  3 +++
 10 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index eae7b95..7738bbd 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -509,8 +509,9 @@ template <typename T> da_status approximate_neighbors<T>::train() {
 
     this->internal_seed = this->seed;
     if (internal_seed == -1) {
-        std::random_device r;
-        this->internal_seed = std::abs(static_cast<da_int>(r()));
+        status = da_utils::random_seed(this->err, this->internal_seed);
+        if (status != da_status_success)
+            return status;
     }
     this->mt_engine.seed(this->internal_seed);
 
diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index a3f958f..c8ca70c 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -699,7 +699,9 @@ template <typename T> da_status kmeans<T>::compute() {
     }
 
     // If needed, initialize random number generation
-    kmeans<T>::initialize_rng();
+    status = kmeans<T>::initialize_rng();
+    if (status != da_status_success)
+        return status;
 
     // Set the initial best_inertia over all the runs to something large
     best_inertia = da_std::numeric_limits<T>::infinity();
@@ -1840,14 +1842,16 @@ template <typename T> void kmeans<T>::afk_mcmc_init() {
 }
 
 /* Initialize the random number generator, if needed */
-template <typename T> void kmeans<T>::initialize_rng() {
+template <typename T> da_status kmeans<T>::initialize_rng() {
     if (init_method != supplied) {
         if (seed == -1) {
-            std::random_device r;
-            seed = std::abs((da_int)r());
+            da_status status = da_utils::random_seed(this->err, seed);
+            if (status != da_status_success)
+                return status;
         }
         mt_gen.seed(seed);
     }
+    return da_status_success;
 }
 
 /* Iterative refinement */
diff --git a/source/core/clustering/kmeans/kmeans.hpp b/source/core/clustering/kmeans/kmeans.hpp
index 3b70d1a..4cf1efc 100644
--- a/source/core/clustering/kmeans/kmeans.hpp
+++ b/source/core/clustering/kmeans/kmeans.hpp
@@ -253,7 +253,7 @@ template <typename T> class kmeans : public basic_handle<T> {
 
     void initialize_centres();
 
-    void initialize_rng();
+    da_status initialize_rng();
 
     void perform_kmeans();
 
diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index 80e6e5f..0ad2069 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -139,8 +139,9 @@ template <typename T> da_status decision_forest<T>::fit() {
     // Initialize the seeds of all the trees to be able to reproduce results if required
     std::mt19937 mt_engine;
     if (seed == -1) {
-        std::random_device r;
-        seed = std::abs((da_int)r());
+        da_status seed_status = da_utils::random_seed(this->err, seed);
+        if (seed_status != da_status_success)
+            return seed_status;
     }
     mt_engine.seed(seed);
     std::uniform_int_distribution<da_int> uniform_dist(0, 1000000);
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index d038f03..bfb25db 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -474,8 +474,9 @@ template <typename T> da_status decision_tree<T>::fit() {
 
     // Initialize random number generator
     if (seed == -1) {
-        std::random_device r;
-        seed = std::abs((da_int)r());
+        status = da_utils::random_seed(this->err, seed);
+        if (status != da_status_success)
+            return status;
     }
     mt_engine.seed(seed);
 
diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index 9d05778..f009da7 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -668,8 +668,11 @@ da_status tsne<T>::initialize_embedding(const std::string &init_method, da_int s
     // Set up random number generator
     std::mt19937_64 rng;
     if (seed == -1) {
-        std::random_device rd;
-        rng.seed(std::abs((da_int)rd()));
+        da_int drawn = 0;
+        da_status status = da_utils::random_seed(this->err, drawn);
+        if (status != da_status_success)
+            return status;
+        rng.seed(drawn);
     } else {
         rng.seed(seed);
     }
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 92931ad..2097f5d 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -566,8 +566,9 @@ template <typename T> da_status svm<T>::compute() {
 
     if (predict_proba_opt) {
         if (seed == -1) {
-            std::random_device r;
-            seed = std::abs((da_int)r());
+            status = da_utils::random_seed(this->err, seed);
+            if (status != da_status_success)
+                return status;
         }
         mt_gen.seed(seed);
     }
diff --git a/source/core/utilities/da_randsvd.hpp b/source/core/utilities/da_randsvd.hpp
index b3aa675..3a251eb 100644
--- a/source/core/utilities/da_randsvd.hpp
+++ b/source/core/utilities/da_randsvd.hpp
@@ -34,11 +34,11 @@
 #include "da_error.hpp"
 #include "da_qr.hpp"
 #include "da_std.hpp"
+#include "da_utils.hpp"
 #include "lapack_templates.hpp"
 #include "macros.h"
 #include <algorithm>
 #include <cstring>
-#include <random>
 #include <vector>
 
 namespace ARCH {
@@ -47,17 +47,10 @@ namespace ARCH {
 enum class power_normalizer_t : da_int { qr = 0, lu = 1, none = 2 };
 
 // Fill a rows-by-cols matrix with i.i.d. standard normal (N(0,1)) values.
-// seed == -1 uses std::random_device for a non-deterministic seed;
-// any other value seeds the generator deterministically.
 template <typename T>
 void generate_random_normal_matrix(T *data, da_int rows, da_int cols, da_int seed) {
     boost::random::mt19937 rng;
-    if (seed == -1) {
-        std::random_device rd;
-        rng.seed(rd());
-    } else {
-        rng.seed(seed);
-    }
+    rng.seed(seed);
     boost::random::normal_distribution<T> normal_dist(T(0), T(1));
     da_int count = rows * cols;
     for (da_int i = 0; i < count; ++i)
@@ -111,6 +104,12 @@ da_status da_random_rangefinder(da_int m, da_int n, const T *A, da_int lda, T *Q
                         "Memory allocation failed.");
     }
 
+    // A seed of -1 asks for non-deterministic results
+    if (seed == -1) {
+        da_status seed_status = da_utils::random_seed(&err, seed);
+        if (seed_status != da_status_success)
+            return seed_status;
+    }
     generate_random_normal_matrix(Omega.data(), n, sketch_size, seed);
 
     // Y = A * Omega  (initial sketch)
diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 95b09c0..d05ad73 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -275,6 +275,20 @@ da_status convert_fp_classes(da_int m, da_int precision, const T *classes,
     return da_status_success;
 }
 
+da_status random_seed(da_errors::da_error_t *err, da_int &seed) {
+    try {
+        std::random_device r;
+        // Keep the bits which a nonnegative da_int can hold
+        seed = (da_int)(r() & (unsigned int)std::numeric_limits<int32_t>::max());
+    } catch (std::exception const &) {
+        if (err == nullptr)
+            return da_status_operation_failed;
+        return da_error(err, da_status_operation_failed,
+                        "The system source of randomness is not available.");
+    }
+    return da_status_success;
+}
+
 da_status class_frequency_approximation(da_int n_draws, da_int m, da_int n_classes,
                                         boost::random::mt19937 &rand_engine,
                                         std::vector<da_int> &appx_freq,
@@ -498,8 +512,9 @@ da_status get_shuffled_indices(da_int m, da_int seed, da_int train_size, da_int
         return status;
 
     if (seed == -1) {
-        std::random_device r;
-        seed = std::abs((da_int)r());
+        status = random_seed(nullptr, seed);
+        if (status != da_status_success)
+            return status;
     }
 
     boost::random::mt19937 rand_engine;
diff --git a/source/core/utilities/da_utils.hpp b/source/core/utilities/da_utils.hpp
index e5fb877..61403df 100644
--- a/source/core/utilities/da_utils.hpp
+++ b/source/core/utilities/da_utils.hpp
@@ -63,6 +63,9 @@ const char *get_namespace(void);
 
 namespace da_utils {
 
+// Draw a nonnegative seed from the system entropy source, for algorithms seeded with -1
+da_status random_seed(da_errors::da_error_t *err, da_int &seed);
+
 template <typename T> T hidden_settings_query(const std::string &key, T default_value);
 
 template <typename T>
-- 
2.43.0


From 8ddc85c89052a66693545e4bfca506bdf06642bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:40 +0000
Subject: [PATCH 101/115] fix: stratified shuffling truncated scaled class
 labels where it documents flooring, merging classes around zero

---
 source/core/utilities/da_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index d05ad73..add0c0e 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -270,7 +270,7 @@ da_status convert_fp_classes(da_int m, da_int precision, const T *classes,
 
 #pragma omp simd
     for (da_int i = 0; i < m; ++i) {
-        int_classes[i] = (int64_t)(classes[i] * precision);
+        int_classes[i] = (int64_t)std::floor(classes[i] * precision);
     }
     return da_status_success;
 }
-- 
2.43.0


From 5e37e3e382e75716f77863d562e610bfbcfbc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:29 +0000
Subject: [PATCH 102/115] fix: a fit with powell-dogleg and second derivatives
 whose every fallback failed never returned

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 5d0e98c..bca92a7 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -1443,7 +1443,10 @@ lp: do while (.not. success)
              ! If we're using a method for the second time, or
              ! we're not allowing a fallback, then bail with an
              ! appropiate exit code
+             ! the fallbacks need not come back to the method first chosen (dogleg is
+             ! not one of them with second derivatives): stop after every method
              if ( (subproblem_method == options%nlls_method) .or. &
+                  (num_methods_tried >= 4) .or. &
                   (.not. options%allow_fallback_method)) Then
                   ! Force no progress error if fall-back was tried otherwise
                   ! keep existing error status
-- 
2.43.0


From 56e883a59820794bbb348ec603a99e52d86ddc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:29 +0000
Subject: [PATCH 103/115] fix: a Hessian-vector product callback was never
 passed on, and having given one once made later fits call it

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index 04f8801..54971d8 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -535,7 +535,7 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
 
   logical :: f_arrays
   logical :: lb_sent_in, ub_sent_in, w_sent_in
-  logical :: hp_sent_in = .false.
+  logical :: hp_sent_in
 
   ! copy data in and associate pointers correctly
   call copy_options_in(coptions, foptions, f_arrays)
@@ -555,7 +555,12 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
   endif
 
   fparams%params = params
-  if (C_ASSOCIATED(hp)) hp_sent_in = .true.
+  hp_sent_in = .false.
+  nullify(fparams%hp)
+  if (C_ASSOCIATED(hp)) then
+    hp_sent_in = .true.
+    call c_f_procpointer(hp, fparams%hp)
+  end if
 
   ! the following steps for passing optional arguments
   ! requires a compiler compatible with Fortran 2008+TS29113
-- 
2.43.0


From 47db23f380297eca9f3b6dfb0da9971d58de7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:36 +0000
Subject: [PATCH 104/115] fix: a trust region or regularised subproblem which
 was not a number was iterated on for ever

---
 external/RALFit/libRALFit/src/ral_nlls_dtrs.F90 | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90 b/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90
index 67cb957..ad533af 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90
@@ -1422,6 +1422,13 @@
         inform%x_norm = TWO_NORM( X )
         x_norm2( 0 ) = inform%x_norm ** 2
 
+!  stop if x is not a number: no test below can be satisfied
+
+        IF ( inform%x_norm /= inform%x_norm ) THEN
+          inform%status = RAL_NLLS_error_ill_conditioned
+          EXIT
+        END IF
+
 !  if the Newton step lies within the trust region, exit
 
         IF ( lambda == zero .AND. inform%x_norm <= radius ) THEN
@@ -2550,6 +2557,13 @@
         inform%x_norm = TWO_NORM( X )
         x_norm2( 0 ) = inform%x_norm ** 2
 
+!  stop if x is not a number: no test below can be satisfied
+
+        IF ( inform%x_norm /= inform%x_norm ) THEN
+          inform%status = RAL_NLLS_error_ill_conditioned
+          EXIT
+        END IF
+
 !  compute the target value ( lambda / sigma )^(1/(p-2))
 
         target = ( lambda / sigma ) ** oopm2
-- 
2.43.0


From 27a0e66673740a7b12af511c878ac037e3c2723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:44 +0000
Subject: [PATCH 105/115] fix: a Hessian-vector product callback was given
 addresses as its dimensions

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index 54971d8..a4410cf 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -175,7 +175,7 @@ module MODULE_PREC(ral_nlls_ciface)
        use, intrinsic :: iso_c_binding
        use :: MODULE_PREC(ral_nlls_types)
        implicit none
-       integer(ral_c_int) :: n,m
+       integer(ral_c_int), value :: n,m
        real(ral_c_real), dimension(*), intent(in)  :: x
        real(ral_c_real), dimension(*), intent(in)  :: y
        real(ral_c_real), dimension(*), intent(out) :: hp
-- 
2.43.0


From 12963a56a79301c336bac7fdced9bd63d5fc716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:16 +0000
Subject: [PATCH 106/115] fix: nonlinear least squares took trust region steps
 which were not finite and called back with them

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index bca92a7..96f63f3 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -1453,6 +1453,8 @@ lp: do while (.not. success)
                   If (options%allow_fallback_method) inform%status = nlls_error_x_no_progress
                   Go To 100
                 End If
+             ! the next method starts afresh
+             inform%status = 0
 
              if (buildmsg(5,.False.,options)) then
                 Write(rec(1), Fmt=3040)
@@ -1579,6 +1581,13 @@ lp: do while (.not. success)
              inform%status = NLLS_ERROR_UNSUPPORTED_TYPE_METHOD
              goto 100
           end if ! type_of_method
+          if (subproblem_success) then
+             ! a step which is not finite is no solution
+             if (.not. (norm2(d(1:n)) <= huge(1.0_wp))) then
+                subproblem_success = .false.
+                inform%status = nlls_error_x_no_progress
+             end if
+          end if
           if (.not. subproblem_success) then
              num_methods_tried = num_methods_tried + 1
           end if
-- 
2.43.0


From 46732919f71836c5a53ffe475d93695475129d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:16 +0000
Subject: [PATCH 107/115] fix: projected gradient steps left the coefficient
 bounds by rounding

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 96f63f3..524510d 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -4929,6 +4929,10 @@ lp:    do i = 1, w%tensor_options%maxit
         End If
 armijo: Do
           xnew(1:n) = x(1:n) + alpha*box_ws%pdir(1:n)
+          If (box_ws%has_box) Then
+            ! keep rounding from leaving the box
+            xnew(1:n) = max(min(box_ws%bux(1:n), xnew(1:n)), box_ws%blx(1:n))
+          End If
           evalok = .True.
           falpn = infinity
 !         ======================================================================
-- 
2.43.0


From 4890fef460d8a04346d472b67fecc61463b3474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 108/115] fix: after a failed Jacobian the one evaluated
 instead was not checked, and regularisation was left out of its gradient

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 524510d..89f1468 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3542,12 +3542,10 @@ lp:  do i = 1, options%more_sorensen_maxits
           call scale_J_by_weights(w%J,n,m,weights,options)
        end if
        ! reset g
-       if (.not. options%exact_second_derivatives) then
-          ! this is already saved...
-          w%g(:) = w%g_old(:)
-       else
-          call mult_Jt(w%J,n,m,w%f,w%g,options%Fortran_Jacobian)
-          w%g(:) = -w%g(:)
+       call mult_Jt(w%J,n,m,w%f,w%g,options%Fortran_Jacobian)
+       w%g(:) = -w%g(:)
+       if (options%regularization > 0) then
+          call update_regularized_gradient(w%g,X,norm2(X(1:n)),options)
        end if
 
        normjfnew = norm2(x=w%g)
-- 
2.43.0


From bb5ce55991baec25450b8a66067e8e5249381f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 109/115] fix: when a Hessian callback failed the objective
 reported was not that of the coefficients returned

---
 .../libRALFit/src/ral_nlls_internal.F90       | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 89f1468..b11827e 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -983,6 +983,21 @@ lp: do while (.not. success)
 
     end if
 
+    ! update the stats: they belong to the point accepted, whatever happens next
+    inform%obj = 0.5_wp*(w%normF**2)
+    if (w%box_ws%has_box) then
+       Call box_projdir(w%box_ws,n=n,x=X,dir=w%g,normg=w%normJF)
+       inform%norm_g = w%box_ws%normPD
+    else
+       inform%norm_g = w%normJF
+    end if
+    inform%scaled_g = inform%norm_g/merge(1.0_wp, w%normF, w%normF==0.0_wp)
+    inform%step = w%norm_2_d
+    if (options%output_progress_vectors) then
+       w%resvec (w%iter + 1) = inform%obj
+       w%gradvec(w%iter + 1) = inform%norm_g
+    end if
+
     if ( w%use_second_derivatives ) then
        if (present(weights)) then
           call apply_second_order_info(n,m, &
@@ -1009,21 +1024,6 @@ lp: do while (.not. success)
        w%g_old(:) = w%g(:)
     end if
 
-    ! update the stats
-    inform%obj = 0.5_wp*(w%normF**2)
-    if (w%box_ws%has_box) then
-       Call box_projdir(w%box_ws,n=n,x=X,dir=w%g,normg=w%normJF)
-       inform%norm_g = w%box_ws%normPD
-    else
-       inform%norm_g = w%normJF
-    end if
-    inform%scaled_g = inform%norm_g/merge(1.0_wp, w%normF, w%normF==0.0_wp)
-    inform%step = w%norm_2_d
-    if (options%output_progress_vectors) then
-       w%resvec (w%iter + 1) = inform%obj
-       w%gradvec(w%iter + 1) = inform%norm_g
-    end if
-
 !   @TAG:ITER_BANNER
 !   !++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++!
 !   !       Print iterate one-line information (and possibly header)       !
-- 
2.43.0


From 5739d440e0de2347dfcfe3f17f20155e3e0dca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 110/115] fix: a failing Hessian-vector product callback was
 replaced by Hessians which had not been computed

---
 .../libRALFit/src/ral_nlls_internal.F90       | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index b11827e..2c929cf 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -4119,7 +4119,8 @@ lp:    do i = 1, w%tensor_options%maxit
           call mult_J(params%J(1:n*params%m),n,params%m,s,params%tenJ%Js,params%Fortran_Jacobian)
 
           ! Now, calculate s'Hs
-          call calculate_sHs(n,m, s, params)
+          call calculate_sHs(status, n, m, s, params)
+          if (status /= 0) return
 
           ! put them all together for the first 1:m terms of f
           !f(1:params%m) = params%f(1:params%m) + params%tenJ%Js(1:params%m) +  &
@@ -4143,29 +4144,25 @@ lp:    do i = 1, w%tensor_options%maxit
        end select
      end subroutine evaltensor_f
 
-     Recursive subroutine calculate_sHs( n, m, s, params)
+     Recursive subroutine calculate_sHs(status, n, m, s, params)
        Implicit None
+       integer, intent(out) :: status
        integer, intent(in) :: n, m
        real(wp), dimension(*), intent(in) :: s
        class( params_base_type ), intent(inout) :: params
-       integer :: ii, status, compute_Hp
+       integer :: ii
 
-       compute_Hp = 0
+       status = 0
 
        select type(params)
        type is(tensor_params_type)
 
           ! if the user has provided a hp routine, then  try to use that
           if (params%eval_hp_provided) then
-             status = 0
              call params%eval_HP(status,n,params%m,params%x,s(1:n),params%tenJ%Hs,params%parent_params)
-             ! if this fails, try our own routine to compute Hp
-             If (status .ne. 0) compute_Hp = 1
+             ! the Hessians themselves are not available: no other way to compute Hp
+             if (status /= 0) return
           else
-             compute_Hp = 1
-          end if
-
-          if (compute_Hp == 1) then
              do ii = 1,params%m
                 params%tenJ%H(1:n,1:n) = params%Hi(1:n,1:n,ii)
                 params%tenJ%Hs(1:n,ii) = 0.0_wp
-- 
2.43.0


From 7dfc1122370852b2592b13350fbcbb1b7f8d0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:00 +0000
Subject: [PATCH 111/115] fix: cubic regularisation of nonlinear least squares
 was ignored and quadratic used instead

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 5 +++++
 source/core/drivers/ralfit_driver.hpp               | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 2c929cf..c464c4a 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3087,10 +3087,14 @@ lp:  do i = 1, options%more_sorensen_maxits
        case (2)
           normx = norm2(X(1:n))
           xtd = dot_product(X(1:n),d(1:n))
+          if (normx > epsmch) then ! as in calculate_step
           md_gn = md_gn + &
                sigma * ( 1.0_wp/p * (normx**p) + &
                (normx**(p-2.0_wp)) * xtd + &
                (p/4.0_wp) * (normx**(p-4.0_wp)) * (xtd**2) )
+          else
+             md_gn = md_gn + sigma/p * norm2(Xnew(1:n))**p
+          end if
        end select
 
        select case (options%model)
@@ -3251,6 +3255,7 @@ lp:  do i = 1, options%more_sorensen_maxits
           p = options%regularization_power
           sigma = options%regularization_term
           normx = norm2(X(1:n))
+          if (normx <= epsmch) return ! as in calculate_step
           do ii = 1,n
              do jj = 1,n
                 hf_local = x(ii)*x(jj)
diff --git a/source/core/drivers/ralfit_driver.hpp b/source/core/drivers/ralfit_driver.hpp
index baa6021..ed99be6 100644
--- a/source/core/drivers/ralfit_driver.hpp
+++ b/source/core/drivers/ralfit_driver.hpp
@@ -422,7 +422,9 @@ da_status copy_options_to_ralfit(da_options::OptionRegistry &opts,
 
     // Set up automatic options
     if (reg_term > 0)
-        options.regularization = 1; // type 1 but can also be of type 2
+        // type 1 is quadratic whatever the power, type 2 honours the power
+        options.regularization =
+            ireg_power == da_optim_types::regularization::cubic ? 2 : 1;
     // Exact second derivative -> user provided HF?
     options.exact_second_derivatives = ok_eval_HF;
 
-- 
2.43.0


From c2734de459ae3d636fa81e397a5830e894180d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:22 +0000
Subject: [PATCH 112/115] fix: a nonlinear least squares step which raised the
 objective was taken when the model promised no reduction

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index c464c4a..0d94ed5 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3146,6 +3146,10 @@ lp:  do i = 1, options%more_sorensen_maxits
 
        if ( abs(actual_reduction) < tol ) then
           rho = 1.0_wp
+       else if (actual_reduction < 0.0_wp .and. predicted_reduction < tol) then
+          ! The objective grew and the model did not promise a reduction: two
+          ! negatives would make a ratio which looks like a good step
+          rho = -1.0_wp
        else if (abs( predicted_reduction ) < tol ) then
           rho = 1.0_wp
        else
-- 
2.43.0


From 767a0eb2e952b478ac8842d09d3595b9c3543efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:38 +0000
Subject: [PATCH 113/115] fix: powell-dogleg ignored regularisation and ended
 with success away from the regularised minimum

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 0d94ed5..04c517a 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -1811,6 +1811,13 @@ lp: do while (.not. success)
        goto 100
      End If
 
+     if ( options%regularization /= 0 ) then
+       ! The steps below minimise ||Jd + f|| alone: leave regularised problems
+       ! to the methods whose matrices have the regularisation in them
+       inform%status = NLLS_ERROR_DOGLEG_MODEL
+       goto 100
+     end if
+
      ! Jg = J * g
      call mult_J(J,n,m,g,w%Jg,options%Fortran_Jacobian)
 
-- 
2.43.0


From be0816a37e49dd0cbdd98a908fb53cd89237f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:36 +0000
Subject: [PATCH 114/115] fix: the time limit of L-BFGS-B fits counted CPU time
 and not that of the objective

---
 source/core/drivers/lbfgsb_driver.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/core/drivers/lbfgsb_driver.hpp b/source/core/drivers/lbfgsb_driver.hpp
index 8fd2e47..85d3ad5 100644
--- a/source/core/drivers/lbfgsb_driver.hpp
+++ b/source/core/drivers/lbfgsb_driver.hpp
@@ -31,6 +31,7 @@
 #include "lbfgsb.hpp"
 #include "macros.h"
 #include "options.hpp"
+#include <chrono>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -275,6 +276,8 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
         return da_error(&err, da_status_internal_error, "print level is out of range");
     }
 
+    auto clock = std::chrono::system_clock::now();
+
     while (itask == 2 || itask == 1 || compute_fg) {
         lbfgsb_rcomm(&n, &m, x.data(), l.data(), u.data(), &(w->nbd[0]), &f[0], &g[0],
                      &factr, &pgtol, &w->wa[0], &w->iwa[0], &itask, &iprint, &lsavei[0],
@@ -283,7 +286,11 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
             iter++;
             info[da_linmod_info_t::linmod_info_iter] = static_cast<T>(iter);
             info[da_linmod_info_t::linmod_info_grad_norm] = dsave[12]; // sbgnrm
-            info[da_linmod_info_t::linmod_info_time] = dsave[6] + dsave[7] + dsave[8];
+            // Time since the start: the solver's own timers (dsave) only have the CPU time
+            // of its phases and leave out the evaluations of the objective
+            info[da_linmod_info_t::linmod_info_time] = static_cast<T>(
+                std::chrono::duration<double>(std::chrono::system_clock::now() - clock)
+                    .count());
 
             if (iter > maxit) {
                 itask = 100;
-- 
2.43.0


From 9a14b102a05ab4e639acc9995245a62180591239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:36 +0000
Subject: [PATCH 115/115] fix: L-BFGS-B fits did one iteration more than the
 iteration limit

---
 source/core/drivers/lbfgsb_driver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/drivers/lbfgsb_driver.hpp b/source/core/drivers/lbfgsb_driver.hpp
index 85d3ad5..135ca94 100644
--- a/source/core/drivers/lbfgsb_driver.hpp
+++ b/source/core/drivers/lbfgsb_driver.hpp
@@ -292,7 +292,7 @@ da_status lbfgsb_fcomm(da_options::OptionRegistry &opts, da_int nvar, std::vecto
                 std::chrono::duration<double>(std::chrono::system_clock::now() - clock)
                     .count());
 
-            if (iter > maxit) {
+            if (iter >= maxit) {
                 itask = 100;
             }
 
-- 
2.43.0

