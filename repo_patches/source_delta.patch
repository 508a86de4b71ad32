From 4fc50330db9db49597632ef582313ce4d022da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/14] fix: keep proximity windows inside the document of the
 position

---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 8ee49f93cca8401cf8c08186f1e4376f19fbdd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 02/14] fix: return the last passage also when it is a single
 position

---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..78363ba 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2514,16 +2514,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last window, which is never closed off in the loop.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From 657c586f552ed1a3be7470e3863cae8fcd0824ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/14] fix: keep every new cluster when refining a subset of
 clusters

---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 78363ba..d052825 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1738,8 +1738,12 @@ class Index:
 
         next_cluster_id = self.next_cluster_id()
 
+        # Remove all of the temporary ids before assigning any of the unique
+        # ids, as the two ranges of ids can overlap.
         for cluster_id in new_cluster_ids:
             del cluster_feature[cluster_id]
+
+        for cluster_id in new_cluster_ids:
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From f5c2b26cce152e0f56fd1c0388714c95cb3b24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 04/14] fix: refining a model with only pinned features

---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index d052825..15ef56b 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1512,6 +1512,10 @@ class Index:
             if f not in pinned_features
         }
 
+        # Or if every feature is pinned.
+        if not movable_features:
+            return cluster_feature, set()
+
         movable_feature_list = list(movable_features)
         moved_features = len(movable_features)
 
-- 
2.43.0


From fc478c46c10dc433cd963843aeff5614498ea6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 05/14] fix: refining to fewer clusters than are pinned

---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 15ef56b..d38f3d5 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1717,6 +1717,9 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # The features of unpinned clusters always need at least one cluster.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From df4006a4f987a9d4046c68616d9db36383d37efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/14] fix: dissolving clusters that group testing did not
 measure

---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index d38f3d5..4913602 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1577,7 +1577,8 @@ class Index:
                 dissolve_cluster_ids = set(
                     sorted(
                         cluster_feature.keys() - clusters_with_pinned_features,
-                        key=lambda x: objectives[x],
+                        # Group testing can leave some clusters unmeasured.
+                        key=lambda x: objectives.get(x, 0),
                     )[:n_dissolve]
                 )
                 self.logger.info(
-- 
2.43.0


From a05cef0861939f941453af94a8aca33a9cedc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 07/14] fix: raise the migration error for databases that are
 not an index

---
 hyperreal/_index_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..ecb00cb 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -245,7 +245,7 @@ def migrate(db):
 
         if table_count > 0:
             raise MigrationError(
-                f"Database at '{db_path}' is not empty, and cannot be used as an index."
+                "The database is not empty, and cannot be used as an index."
             )
         else:
             db.execute("begin")
-- 
2.43.0


From 9971c8c62c549de7763eb0b6bfd75abc54c96805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/14] fix: refresh cluster summaries after migrating an index
 with clusters

---
 hyperreal/index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 4913602..528b7fa 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -157,6 +157,7 @@ class Index:
         self.random = random.Random(random_seed)
 
         self._pool = pool
+        self.corpus = corpus
 
         for statement in """
             pragma synchronous=NORMAL;
@@ -174,8 +175,6 @@ class Index:
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        self.corpus = corpus
-
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
         }
-- 
2.43.0


From fcf26ae3cd161b9c1ae677baa5c26ca70d4bf037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 09/14] fix: report a failed replacement of plain text
 documents

---
 hyperreal/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..7e2fb76 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,8 +183,9 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
+        except BaseException:
             self.db.execute("rollback to add_texts")
+            raise
 
         finally:
             self.db.execute("release add_texts")
-- 
2.43.0


From 000664cfc7e8367c5edcabe4d50dfdc0752a4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 10/14] fix: initialise clusters when a field is listed twice

---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 528b7fa..885bfa2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -939,7 +939,8 @@ class Index:
 
         if include_fields:
             self.db.executemany(
-                "insert into include_field values(?)", [[f] for f in include_fields]
+                "insert into include_field values(?)",
+                [[f] for f in set(include_fields)],
             )
         else:
             self.db.execute("insert into include_field select field from field_summary")
-- 
2.43.0


From 8f8fa319f940ecdeaf5190005c3d025314e30b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 11/14] fix: roll back an interrupted indexing run

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 885bfa2..efb6239 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -538,7 +538,7 @@ class Index:
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        except Exception:
+        except BaseException:
             self.logger.exception("Indexing failure.")
             self.db.execute("rollback")
             raise
-- 
2.43.0


From 2d4b5b71b92a0a24d73bc63e8c6c3368b457ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 12/14] fix: roll back interrupted operations and failed
 cluster housekeeping

---
 hyperreal/index.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index efb6239..f2b1780 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -104,9 +104,18 @@ def atomic(writes=False):
                 if writes:
                     self._changed = True
 
+                # We're at the final transaction level and are about to commit.
+                # This is part of the operation: if it fails or is interrupted
+                # everything needs to be rolled back.
+                if self._transaction_level == 1 and self._changed:
+                    self.logger.info(f"Changes detected - updating clusters.")
+                    # Note that this will check for changed queries, and will
+                    # therefore be a noop if there aren't any.
+                    self._update_changed_clusters()
+
                 return results
 
-            except Exception:
+            except BaseException:
                 self.logger.exception("Error executing index method.")
                 # Rewind to the previous savepoint, then release it
                 # This is necessary to behave nicely whether we are operating
@@ -117,13 +126,7 @@ def atomic(writes=False):
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
+                if self._transaction_level == 0:
                     self._changed = False
 
                 self.db.execute(f'release "{func.__name__}"')
-- 
2.43.0


From d3a68ff579b795d39a8647f9208df70fdd1c96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 13/14] fix: indexing with a working directory

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f2b1780..a783723 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -347,7 +347,7 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From e8a0afa3ba789167fb9ab6803155599a408c343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 14/14] fix: index again after the cluster housekeeping of a
 run failed

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index a783723..cbb37f0 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -532,7 +532,7 @@ class Index:
 
             # Update all cluster stats based on new index stats
             self.db.execute(
-                "insert into changed_cluster select cluster_id from cluster"
+                "insert or ignore into changed_cluster select cluster_id from cluster"
             )
 
             self.db.execute("commit")
-- 
2.43.0

