From c52d68fa4fba49312081e3296ba6ae5c766f0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 01/34] fix: a failed tablet process is no longer pending

A transaction whose resolve, load or store failed stayed pending forever, so it
could be neither committed nor observed as failed.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..248eb20 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,9 +495,11 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
-                return true;
-            };
+            match process_state.status {
+                // Process has ended, either successfully or with an error.
+                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
+                _ => return true,
+            }
         }
         false
     }
-- 
2.43.0


From 4c75649a5c2320351da9d5477fe97105bdb621d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 02/34] fix: do not report success when tablet op results are
 missing

Results were zipped with the ops, so an empty or short list of results was
treated as a successful commit.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 248eb20..e782075 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -546,6 +546,10 @@ impl CommittingTabletTransactionState {
         // succeeded.
         let mut metadata_to_update_cache = Vec::new();
         let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
+        if tablet_op_results.len() != self.tablet_ops.len() {
+            // Every tablet op must have been confirmed.
+            transaction_outcome = TabletTransactionOutcome::Failed;
+        }
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             if !op_succeeded {
-- 
2.43.0


From 08c183365fdfb5fd012381a185728318b25b5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 03/34] fix: do not panic on failed tablet ops without existing
 tablet

The responses the transaction manager substitutes for a failed request carry no
existing tablet, nor do those for tablets the Tablet Store does not know.
---
 .../service/src/transaction/coordinator.rs    | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index e782075..da9a773 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -561,15 +561,14 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // Existing tablet is not known if the request itself has failed.
+                        if let Some(existing_tablet) = &check_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     }
                 }
                 (
@@ -577,15 +576,14 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // Existing tablet is not known if the request itself has failed.
+                        if let Some(existing_tablet) = &update_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     } else {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-- 
2.43.0


From 76db4babc02dab1b52ffc5222ffa07a2f81e2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 04/34] fix: cache new tablet metadata only if the whole
 transaction succeeded

The Tablet Store reports per op status, so a rejected transaction may contain ops
that individually could have succeeded. Their new metadata was cached, and later
transactions read tablet versions that had never been committed.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index da9a773..cca6cc2 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -550,6 +550,11 @@ impl CommittingTabletTransactionState {
             // Every tablet op must have been confirmed.
             transaction_outcome = TabletTransactionOutcome::Failed;
         }
+        // Tablet ops are executed atomically, an update has no effect unless all of
+        // them succeeded.
+        let all_ops_succeeded = tablet_op_results
+            .iter()
+            .all(|r| r.status == TabletOpStatus::Succeeded as i32);
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             if !op_succeeded {
@@ -584,7 +589,7 @@ impl CommittingTabletTransactionState {
                                 true,
                             ));
                         }
-                    } else {
+                    } else if all_ops_succeeded {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
                             update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
-- 
2.43.0


From 05872138b4da62658bd4fcfcd442a4f250193dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 05/34] fix: fail tablet ops that have no result in the tablets
 response

The Tablet Store returns no op result for invalid ops (for example an unknown
table). Such results were dropped, and if none was left nobody was notified: the
transaction or resolve stayed pending forever.
---
 .../service/src/transaction/manager.rs             | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..e50a41b 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -273,9 +273,19 @@ impl<T> TabletTransactionManagerCore<T> {
             InMessage::ExecuteTabletOpsResponse(
                 correlation_id,
                 _execute_ops_response,
-                tablets_response,
+                mut tablets_response,
             ) => {
-                self.tablets_errors.remove(&correlation_id);
+                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
+                    // Every op that has no result in the response has failed.
+                    let results_count = tablets_response.tablet_results.len();
+                    for (index, error) in tablets_error.tablet_results.into_iter().enumerate() {
+                        if index >= results_count {
+                            tablets_response.tablet_results.push(error);
+                        } else if tablets_response.tablet_results[index].op_result.is_none() {
+                            tablets_response.tablet_results[index] = error;
+                        }
+                    }
+                }
                 self.process_in_tablets_op_response(correlation_id, tablets_response);
             }
             InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {
-- 
2.43.0


From 11af41206fc0daca41fd3863707d33234ab41729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 06/34] fix: complete tablet batch only after all of its
 entries are cached

Entries were counted one by one while those already cached resolved immediately,
so a batch that starts with cached tablets completed before the remaining ones
were loaded.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..6dcf745 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -281,6 +281,7 @@ impl<T> DefaultTabletDataCache<T> {
         // Register batch with each of the tablet cache entries it affects such that
         // when tablet cache entry is ready the corresponding tablet batch can be
         // notified.
+        tablet_batch.expect_cache_entries(tablet_cache_keys.len());
         for tablet_cache_key in tablet_cache_keys {
             if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(tablet_cache_key) {
                 tablet_batch.add_pending_cache_entry(tablet_cache_entry);
@@ -775,8 +776,13 @@ impl<T> TabletBatch<T> {
         self.remaining_cache_entries == 0
     }
 
+    // Sets the number of cache entries the batch consists of. Must be called before
+    // entries are added as those that are already cached get resolved immediately.
+    fn expect_cache_entries(&mut self, cache_entries: usize) {
+        self.remaining_cache_entries = cache_entries;
+    }
+
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
-- 
2.43.0


From 3e97bbefb5e6d2a8a1dedd3b081b60fc1c6bc16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 07/34] fix: complete empty tablet batches

The result of a batch without tablets was never set, in particular transactions
that only read tablets never left the storing stage.
---
 apps/tablet_cache/service/src/transaction/data.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 6dcf745..aece107 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -780,6 +780,19 @@ impl<T> TabletBatch<T> {
     // entries are added as those that are already cached get resolved immediately.
     fn expect_cache_entries(&mut self, cache_entries: usize) {
         self.remaining_cache_entries = cache_entries;
+        if cache_entries == 0 {
+            // There is nothing to wait for.
+            match &mut self.batch_state {
+                TabletBatchState::Load(_, loaded_tablets_source) => {
+                    loaded_tablets_source.set_result(Vec::new())
+                }
+                TabletBatchState::Store(stored_tablets_source) => {
+                    stored_tablets_source.set_result(())
+                }
+                _ => {}
+            }
+            self.batch_state = TabletBatchState::Completed;
+        }
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-- 
2.43.0


From d07d2b9c873969aa34d2185e812f030c02a0a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 08/34] fix: do not panic when identical tablet contents is
 stored again

Concurrent transactions, or a retry after failed commit, may write the same
contents as the same tablet version.
---
 apps/tablet_cache/service/src/transaction/data.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index aece107..8b7b248 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -457,10 +457,9 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // Once created tablets are immutable and uri contains the hash of the
+                    // contents, hence existing entry represents the same tablet. Wait for it.
                 }
             }
         }
-- 
2.43.0


From 53c4faac0a947a3b80455b0d705236e3d37e0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 09/34] fix: create the last table region

Key hashes at the very end of the consistent hashing ring had no region, and
resolving them panicked.
---
 apps/tablet_cache/service/src/transaction/metadata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..3fd32a6 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,9 +354,9 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
-        let mut regions = HashMap::with_capacity(regions_count as usize);
-        for region_idx in 0..regions_count {
+        let last_region_idx = Self::map_table_region(region_size, u32::MAX);
+        let mut regions = HashMap::with_capacity(last_region_idx as usize + 1);
+        for region_idx in 0..=last_region_idx {
             // Regions are identified by the starting position on the consistent hashing ring.
             regions.insert(region_idx, TableRegion::create());
         }
-- 
2.43.0


From ecba83cb4d2e375c8b428eff018ee71855b226fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 10/34] fix: map every key hash to the tablet responsible for
 it

The key hash that followed the current tablet was dropped from the result, and
only a single tablet could be skipped.
---
 .../service/src/transaction/metadata.rs         | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 3fd32a6..479ca6b 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -453,24 +453,29 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let mut curr_tablet_id = *fresh_tablet_ids.first().unwrap();
                 let mut curr_key_hashes = Vec::new();
                 // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
                 // a tablet that is clockwise on the consistent hashing ring.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
+                    // First tablet that is clockwise from the key hash, possibly after wrapping
+                    // around zero.
+                    let tablet_id = *fresh_tablet_ids
+                        .range(*key_hash..)
+                        .next()
+                        .or(fresh_tablet_ids.first())
+                        .unwrap();
+                    if tablet_id != curr_tablet_id {
                         if !curr_key_hashes.is_empty() {
                             resolve_result.push((
                                 table_query.create_from(mem::take(&mut curr_key_hashes)),
                                 self.tablets.get(&curr_tablet_id).unwrap().clone(),
                             ));
                         }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                        curr_tablet_id = tablet_id;
                     }
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From 90d76117eda1e300bceea0bd0ab669caaa52e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 11/34] fix: resolve all queries that wait for the same table
 region

When several queries of one resolve request affected the same stale region only
the last one was remembered, and completing the request twice panicked.
---
 .../service/src/transaction/metadata.rs        | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 479ca6b..8dadef9 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -556,7 +556,7 @@ enum TableResolveNotification {
 struct TabletResolve {
     notification: TableResolveNotification,
     // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -596,11 +596,14 @@ impl TabletResolve {
             } else {
                 // Otherwise register pending query and wait for the corresponding region
                 // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_default();
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -658,9 +661,10 @@ impl TabletResolve {
         table_metadata: &TableMetadata,
     ) {
         // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or_default()
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From 9827508b0c45f2d6d5d792f97225fd9f475b9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 12/34] fix: verify hash of the loaded tablet contents

The interface promises verified tablet data, but any contents the data storage
returned was accepted.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 8b7b248..0a26f5f 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -315,6 +315,14 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Data storage is not trusted, make sure contents is what has been written. Tablets
+        // that have never been written have no hash.
+        if !tablet_metadata.blob_hash.is_empty()
+            && Sha256::digest(&tablet_contents).as_slice() != tablet_metadata.blob_hash.as_ref()
+        {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From c36ad25be63c5731e72f297add9a9451d06e1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 13/34] fix: remember key value store config

The configured number of pending requests per tablet was ignored.
---
 apps/tablet_cache/service/src/store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..2b27856 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -190,6 +190,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
-- 
2.43.0


From 7a403c6887a25a2c317867bdb2f57d32b42e837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 14/34] fix: process every key value request on the tablet it
 resolves to

All requests of a resolve query were handed to the tablet that happened to be
first in the result, those affecting other tablets were never processed.
---
 apps/tablet_cache/service/src/store.rs | 40 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 2b27856..6e6badd 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -209,7 +209,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -400,11 +400,28 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. Only those
+        // requests that are covered by the resolved query belong to the tablet.
+        let (resolved_requests, waiting_requests): (Vec<_>, Vec<_>) = self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
             .unwrap_or(Vec::new())
+            .into_iter()
+            .partition(|request| {
+                table_query
+                    .get_key_hashes()
+                    .contains(&hash_request_key(table_accessor, request))
+            });
+        if !waiting_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), waiting_requests);
+        }
+        resolved_requests
     }
 }
 
@@ -640,6 +657,13 @@ impl TransactionTracker {
     }
 }
 
+fn hash_request_key(table_accessor: &TableAccessor, request: &KeyValueRequest) -> u32 {
+    match request {
+        KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
+        KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
+    }
+}
+
 fn create_table_query(
     table_accessor: &mut TableAccessor,
     requests: &Vec<KeyValueRequest>,
@@ -647,11 +671,7 @@ fn create_table_query(
     let mut hashes = Vec::new();
 
     for request in requests {
-        let hash = match &request {
-            KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
-            KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
-        };
-        hashes.push(hash);
+        hashes.push(hash_request_key(table_accessor, request));
     }
 
     transaction::TableQuery::create(
-- 
2.43.0


From e3e56b2529cd7f7030ca4a5012f056bcb2710f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 15/34] fix: retry key value requests of failed transactions

Failed requests were collected for a retry and then dropped, so their senders
never got a response.
---
 apps/tablet_cache/service/src/store.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 6e6badd..0b0f65e 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -304,13 +304,18 @@ impl SimpleKeyValueStoreCore {
 
         // Mark tablets affected by completed transactions as no longer
         // having a transaction such that a new transaction can be issued
-        // against them.
+        // against them. Requests that have not been processed must be retried.
         for tablet_id in affected_tablet_ids {
             if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
-                tablet_tracker.complete_transaction();
+                tablet_tracker.complete_transaction(&mut failed_requests);
             }
         }
 
+        // Enqueue failed requests for retry, affected tablets may have changed.
+        for failed_request in failed_requests {
+            self.request_tracker.append_pending_request(failed_request);
+        }
+
         // Clear all completed transactions and associated state.
         for transaction_id in completed_transactions {
             self.transaction_trackers.remove(&transaction_id);
@@ -581,8 +586,11 @@ impl TabletTracker {
         }
     }
 
-    fn complete_transaction(&mut self) {
+    fn complete_transaction(&mut self, failed_requests: &mut Vec<KeyValueRequest>) {
         self.has_transaction = false;
+        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {
+            failed_requests.append(&mut requests);
+        }
     }
 }
 
-- 
2.43.0


From 0ecf07fe672dd1e35b315b512eb0e09bf9a3650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 16/34] fix: do not panic when key hashes resolve immediately

The resolve handler is called synchronously if affected table regions are cached,
and borrowed the store core that was already borrowed by the caller.
---
 apps/tablet_cache/service/src/store.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 0b0f65e..51d6cbf 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -93,12 +93,15 @@ pub trait KeyValueStore {
 // This implementation should be viewed as demo and reference.
 pub struct SimpleKeyValueStore {
     core: Rc<RefCell<SimpleKeyValueStoreCore>>,
+    // Resolved queries that are waiting to be associated with tablets.
+    resolved_queries: Rc<RefCell<Vec<(transaction::TableQuery, transaction::TabletDescriptor)>>>,
 }
 
 impl SimpleKeyValueStore {
     pub fn create() -> SimpleKeyValueStore {
         SimpleKeyValueStore {
             core: Rc::new(RefCell::new(SimpleKeyValueStoreCore::new())),
+            resolved_queries: Rc::new(RefCell::new(Vec::new())),
         }
     }
 }
@@ -116,15 +119,16 @@ impl KeyValueStore for SimpleKeyValueStore {
     ) {
         let mut core = self.core.borrow_mut();
 
-        let mut core_clone = self.core.clone();
+        let resolved_queries = self.resolved_queries.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
+        // the affected tablets. The handler may be called before this returns.
         core.maybe_resolve_tablets(
             transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            Box::new(move |mut results| resolved_queries.borrow_mut().append(&mut results)),
         );
+        core.handle_query_resolve(mem::take(&mut *self.resolved_queries.borrow_mut()));
 
-        core_clone = self.core.clone();
+        let core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
         // transaction covering the tablets that passed the threshold.
         core.maybe_start_transaction(
-- 
2.43.0


From 61557904e8eed763f3a6aa03e5adf0fac69ffdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 17/34] fix: do not panic on malformed tablets response

---
 apps/tablet_cache/service/src/actor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..14c39f1 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -164,7 +164,8 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
+                        let tablets_response = TabletsResponse::decode(command.payload)
+                            .map_err(|_| ActorError::Internal)?;
                         self.transaction_manager.process_in_message(
                             transaction::InMessage::ExecuteTabletOpsResponse(
                                 command.correlation_id,
-- 
2.43.0


From 8a3eb86949f5c6c0ea30e5d87eff906156c6c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 18/34] fix: advance transaction manager of the tablet cache

Nothing called make progress of the transaction manager, so no tablet was ever
resolved, loaded or stored.
---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 14c39f1..48c3248 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -188,6 +188,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         }
 
         let instant = self.get_context().instant();
+        self.transaction_manager.make_progress(instant);
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
 
-- 
2.43.0


From d02c19ecd8d0b3b720ec4ad8d95e15a60ae584ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:22 +0000
Subject: [PATCH 19/34] fix: keep tablets that have never been written apart in
 the data cache

---
 apps/tablet_cache/service/src/transaction/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 0a26f5f..9a3836b 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -572,6 +572,9 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
 // Uniquely identifies tablet cache entry.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
 struct TabletCacheKey {
+    // Id of the tablet. Tablets that have never been written have no blob and hence
+    // cannot be told apart by uri.
+    tablet_id: u32,
     // Uri of the blob in Tablet Data Storage.
     uri: String,
 }
@@ -579,6 +582,7 @@ struct TabletCacheKey {
 impl TabletCacheKey {
     fn from(tablet_metadata: &TabletMetadata) -> Self {
         Self {
+            tablet_id: tablet_metadata.tablet_id,
             uri: tablet_metadata.blob_uri.clone(),
         }
     }
-- 
2.43.0


From 965174c4aac01f572cc4d05960fa4c24361c5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 20/34] fix: answer unsupported tablet ops instead of panicking
 in apply

---
 apps/tablet_store/service/src/actor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..7abc88e 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -187,8 +187,12 @@ impl TableMetadata {
                 }
                 OpResult::UpdateTablet(update_tablet_result)
             }
-            Op::AddTablet(_add_tablet_op) => todo!(),
-            Op::RemoveTablet(_remove_tablet_op) => todo!(),
+            Op::AddTablet(_) | Op::RemoveTablet(_) => {
+                // Not supported yet. The op has already been replicated at this point,
+                // hence it must be answered and not bring down the replicas.
+                op_result.status = TabletOpStatus::Invalid.into();
+                return op_result;
+            }
         });
 
         op_result
-- 
2.43.0


From 53e12580e9fa9928dac131686914753ca5c8e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 21/34] fix: fail requests that update the same tablet twice

---
 apps/tablet_store/service/src/actor.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 7abc88e..98619a7 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -306,8 +306,20 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
     fn on_apply_tablets_request(&mut self, request: TabletsRequest) -> (OutMsg, Bytes) {
         let mut all_succeeded = true;
         let mut tablet_op_prepare_results = Vec::new();
+        let mut updated_tablets = HashSet::new();
         for tablet_op in &request.tablet_ops {
-            let tablet_op_result = self.prepare_tablet_op(tablet_op);
+            let mut tablet_op_result = self.prepare_tablet_op(tablet_op);
+            if let Some(Op::UpdateTablet(UpdateTabletOp {
+                tablet_metadata: Some(updated_tablet),
+            })) = &tablet_op.op
+            {
+                // All ops are checked against the state before the request, hence of two
+                // updates of the same tablet one would be lost.
+                let tablet_key = (tablet_op.table_name.clone(), updated_tablet.tablet_id);
+                if !updated_tablets.insert(tablet_key) {
+                    tablet_op_result.status = TabletOpStatus::Failed.into();
+                }
+            }
             all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             tablet_op_prepare_results.push(tablet_op_result);
         }
-- 
2.43.0


From d4bc9380194586f28721aac3fe969c0706c421aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 22/34] fix: report the unchanged counter value after a failed
 compare and swap

---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ce988e1..ea24f78 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -136,6 +136,7 @@ impl CounterActor {
             compare_and_swap_response.new_value = compare_and_swap_request.new_value;
         } else {
             response.status = CounterStatus::InvalidArgumentError.into();
+            compare_and_swap_response.new_value = existing_value.value;
         }
         response.op = Some(counter_response::Op::CompareAndSwap(
             compare_and_swap_response,
-- 
2.43.0


From 7953f2b56225b3619327c31e31c4caa8673fc417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 23/34] fix: answer only one decryption request per key

---
 apps/willow/decryptor/actor/src/actor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index e5251f0..d12bc35 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -251,9 +251,19 @@ impl DecryptorActor {
         correlation_id: u64,
         decrypt_event: DecryptEvent,
     ) -> Result<EventOutcome, ActorError> {
-        self.key_pairs.remove(&decrypt_event.key_id[..]);
+        let key_pair = self.key_pairs.remove(&decrypt_event.key_id[..]);
 
         if context.owned {
+            // Several requests for the same key may have been accepted before the first
+            // of them has been applied. Only the one that consumes the key is answered.
+            if key_pair.is_none() {
+                return self.event_err(
+                    correlation_id,
+                    StatusCode::FailedPrecondition as i32,
+                    "Key pair has already been consumed".to_string(),
+                );
+            }
+
             return Ok(EventOutcome::with_command(ActorCommand::with_header(
                 correlation_id,
                 &DecryptorResponse {
-- 
2.43.0


From 01079acd39ff71b8087a9910854d946c79807506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 24/34] fix: keep the first key pair when a key is generated
 twice

---
 apps/willow/decryptor/actor/src/actor.rs | 30 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index d12bc35..8a9eaa7 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -201,15 +201,23 @@ impl DecryptorActor {
         correlation_id: u64,
         generate_key_event: GenerateKeyEvent,
     ) -> Result<EventOutcome, ActorError> {
-        let public_key_share: Bytes = generate_key_event.public_key_share.into();
+        let mut public_key_share: Bytes = generate_key_event.public_key_share.into();
         let decryptor_state: Bytes = generate_key_event.private_key_share.into();
         let sequential_order: i32 = generate_key_event.sequential_order;
 
+        // Several requests for the same key may have been accepted before the first of
+        // them has been applied. The first key pair is kept as it is already in use.
+        let existing_key_pair = self.get_key_pair(&generate_key_event.key_id);
+        let is_new_key = existing_key_pair.is_none();
+        if let Some(existing_key_pair) = existing_key_pair {
+            public_key_share = existing_key_pair.public_key_share.clone();
+        }
+
         // If the number of key pairs has reached the maximum, remove the oldest one
         // (the one with the smallest sequential order) to make room for the new
         // key pair. This is done here instead of in the command processing
         // function to ensure that the key pair is removed from all replicas.
-        if (self.key_pairs.len() as i32) == MAX_NUMBER_OF_KEY_PAIRS {
+        if is_new_key && (self.key_pairs.len() as i32) == MAX_NUMBER_OF_KEY_PAIRS {
             let key_to_remove = self
                 .key_pairs
                 .iter()
@@ -219,14 +227,16 @@ impl DecryptorActor {
             key_to_remove.and_then(|k| self.key_pairs.remove(&k));
         }
 
-        self.key_pairs.insert(
-            generate_key_event.key_id.clone().into(),
-            KeyPair {
-                public_key_share: public_key_share.clone(),
-                decryptor_state: decryptor_state,
-                sequential_order: sequential_order,
-            },
-        );
+        if is_new_key {
+            self.key_pairs.insert(
+                generate_key_event.key_id.clone().into(),
+                KeyPair {
+                    public_key_share: public_key_share.clone(),
+                    decryptor_state: decryptor_state,
+                    sequential_order: sequential_order,
+                },
+            );
+        }
 
         if context.owned {
             let mut key = KeyProto::default();
-- 
2.43.0


From 74d5f48473adac56f3e34142f8ce4c36e0af7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 25/34] fix: reject malformed decryption requests instead of
 panicking

---
 apps/willow/decryptor/actor/src/actor.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 8a9eaa7..7272a1c 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -321,11 +321,15 @@ impl DecryptorActor {
         let decryptor_state =
             DecryptorState::from_proto(decryptor_state_proto, &decryptor).unwrap();
 
-        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes).unwrap();
-        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor).unwrap();
-
-        let partial_decryption =
-            decryptor.handle_partial_decryption_request(request, &decryptor_state).unwrap();
+        // The request comes from the client and may be malformed.
+        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes)
+            .map_err(|e| invalid_request(format!("{:?}", e)))?;
+        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor)
+            .map_err(|e| invalid_request(format!("{:?}", e)))?;
+
+        let partial_decryption = decryptor
+            .handle_partial_decryption_request(request, &decryptor_state)
+            .map_err(|e| invalid_request(format!("{:?}", e)))?;
         let partial_decryption_proto = partial_decryption.to_proto(&decryptor).unwrap();
 
         return Ok(partial_decryption_proto.serialize().unwrap().into());
@@ -522,6 +526,13 @@ impl Actor for DecryptorActor {
     }
 }
 
+fn invalid_request(error: String) -> Status {
+    Status {
+        code: StatusCode::InvalidArgument as i32,
+        message: format!("DecryptorActor: invalid decryption request: {}", error),
+    }
+}
+
 fn request_name(request: &DecryptorRequest) -> &'static str {
     match request.msg {
         Some(decryptor_request::Msg::GenerateKey(_)) => "GenerateKey",
-- 
2.43.0


From ee5510276e06920dc1de2093b140c88f5f11a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 26/34] fix: only the owner of an unknown event responds

---
 apps/willow/decryptor/actor/src/actor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 7272a1c..49f71b7 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -512,6 +512,9 @@ impl Actor for DecryptorActor {
                     self.get_context().logger(),
                     "DecryptorActor: unknown event {:?}", decryptor_event
                 );
+                if !context.owned {
+                    return Ok(EventOutcome::with_none());
+                }
                 return self.event_err(
                     event.correlation_id,
                     StatusCode::InvalidArgument as i32,
-- 
2.43.0


From 12873e822d3a864bf3e1004e05efc598e4759c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 27/34] fix: reject snapshot chunks of another transfer

The receiver compared only the sender of a chunk, so a delayed chunk of an
earlier transfer from the same leader was accepted into the current one.
---
 runtime/src/snapshot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..6897a46 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,14 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +910,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From c304e80160f6af8cae16d5a0c0e7039171d6668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 28/34] fix: reject snapshot headers whose first chunk does not
 fit the snapshot

An empty first chunk of a snapshot that is not empty divided by zero, and one
longer than the snapshot was assembled into a snapshot of the wrong size.
---
 runtime/src/snapshot.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 6897a46..9f0bf15 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -874,6 +874,19 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
             Ok(payload) => {
                 match payload.it {
                     None => {}
+                    // The first chunk defines the size of all chunks: it must not exceed the
+                    // snapshot, and may only be empty if the snapshot is.
+                    Some(deliver_snapshot_request::snapshot_content::It::Header(header))
+                        if header.chunk_contents.len() as u64 > header.snapshot_size
+                            || (header.chunk_contents.is_empty() && header.snapshot_size > 0) =>
+                    {
+                        warn!(self.logger, "Rejecting payload: malformed header");
+                        // Respond with rejection.
+                        response_payload.snapshot_id = payload.snapshot_id;
+                        response_payload.chunk_index = 0;
+                        response_payload.status =
+                            DeliverSnapshotStatus::SnapshotStatusRejected.into();
+                    }
                     Some(deliver_snapshot_request::snapshot_content::It::Header(header)) => {
                         info!(self.logger,
                             "Starting snapshot receiving: sender {}, snapshot id {}, snapshot size {}",
-- 
2.43.0


From 0dfabb686682f8d47be9d80037f9261289116f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 29/34] fix: drop replica messages without a payload instead of
 panicking

The payload of a message of another replica is not trusted to be present, but
it was unwrapped to decrypt it.
---
 runtime/src/communication.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..203361f 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -320,6 +320,17 @@ impl CommunicationModule for DefaultCommunicationModule {
     }
 }
 
+// Decrypts the payload of an incoming message, which is not trusted to be present.
+fn decrypt_payload(
+    encryptor: &mut Box<dyn Encryptor>,
+    payload: &Option<Payload>,
+) -> anyhow::Result<Vec<u8>> {
+    let payload = payload
+        .as_ref()
+        .ok_or_else(|| anyhow!("Message has no payload."))?;
+    encryptor.decrypt(payload)
+}
+
 // Manages communication with a given peer replica.
 pub struct CommunicationState {
     logger: Logger,
@@ -530,33 +541,33 @@ impl CommunicationState {
     fn decrypt_message(&mut self, message: in_message::Msg) -> Option<in_message::Msg> {
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
-            in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
-                .and_then(|decrypted_msg| {
+            in_message::Msg::DeliverSystemMessage(mut msg) => {
+                decrypt_payload(encryptor, &msg.payload).and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
                         ..Default::default()
                     });
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
-                }),
-            in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
-                .and_then(|decrypted_msg| {
+                })
+            }
+            in_message::Msg::DeliverSnapshotRequest(mut msg) => {
+                decrypt_payload(encryptor, &msg.payload).and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
                         ..Default::default()
                     });
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
-                }),
-            in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
-                .and_then(|decrypted_msg| {
+                })
+            }
+            in_message::Msg::DeliverSnapshotResponse(mut msg) => {
+                decrypt_payload(encryptor, &msg.payload).and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
                         ..Default::default()
                     });
                     Ok(in_message::Msg::DeliverSnapshotResponse(msg))
-                }),
+                })
+            }
             in_message::Msg::SecureChannelHandshake(_msg) => {
                 // Receiving SecureChannelHandshake in Completed state indicates that the last
                 // attempt likely failed on the other side.
-- 
2.43.0


From caeaf505c49cfd12fe790518f9de5fcad70e7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 30/34] fix: ignore misrouted and malformed Raft messages

---
 runtime/src/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..f4c5bdb 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,6 +359,7 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+                    return Ok(());
                 }
                 if message.get_from() != sender_replica_id {
                     // Ignore malformed message
@@ -366,6 +367,7 @@ impl<
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From f3909d0f3743215fc4755cabb4472090677aa237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 31/34] fix: drop a rejected Raft proposal instead of panicking

---
 runtime/src/driver.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index f4c5bdb..70ae68d 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -384,10 +384,24 @@ impl<
         }
     }
 
-    fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
+    fn make_raft_proposal(&mut self, proposal_contents: Bytes) -> Result<(), PalError> {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        match self.raft.make_proposal(proposal_contents) {
+            Ok(_) => Ok(()),
+            Err(RaftError::ProposalDropped) => {
+                // The replica may have lost leadership after the actor has produced the proposal.
+                warn!(self.logger, "Dropping Raft proposal");
+
+                Ok(())
+            }
+            Err(e) => {
+                error!(self.logger, "Raft experienced unrecoverable error: {}", e);
+
+                // Unrecoverable Raft errors must lead to termination.
+                Err(PalError::Raft)
+            }
+        }
     }
 
     fn make_raft_config_change_proposal(
@@ -1213,12 +1227,14 @@ impl<
         Ok(())
     }
 
-    fn process_actor_raft_proposals(&mut self) {
+    fn process_actor_raft_proposals(&mut self) -> Result<(), PalError> {
         let proposals = self.mut_core().take_outputs();
 
         for proposal in proposals {
-            self.make_raft_proposal(proposal);
+            self.make_raft_proposal(proposal)?;
         }
+
+        Ok(())
     }
 
     fn process_state_machine(&mut self) -> Result<(), PalError> {
@@ -1341,7 +1357,7 @@ impl<
 
         if !self.is_ephemeral {
             // Processes outputs from the actor to make raft proposals.
-            self.process_actor_raft_proposals();
+            self.process_actor_raft_proposals()?;
 
             // Process snapshot transfer completion or failures.
             self.process_snapshot_progress();
-- 
2.43.0


From a94948d5350070831b3c35359579d6c6b86a502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 32/34] fix: answer a cluster check on replicas that do not
 lead

---
 runtime/src/driver.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 70ae68d..a4fa7b8 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -195,6 +195,7 @@ pub struct Driver<R: Raft, S: Store, P: SnapshotProcessor, A: Actor, C: Communic
     actor: A,
     raft_state: RaftState,
     prev_raft_state: RaftState,
+    cluster_check_requested: bool,
     raft_progress: RaftProgress,
     communication: C,
     is_ephemeral: bool,
@@ -245,6 +246,7 @@ impl<
             actor,
             raft_state: RaftState::new(),
             prev_raft_state: RaftState::new(),
+            cluster_check_requested: false,
             raft_progress: RaftProgress::new(),
             communication,
             is_ephemeral: false,
@@ -689,6 +691,7 @@ impl<
 
     fn reset_leader_state(&mut self) {
         self.prev_raft_state = RaftState::new();
+        self.cluster_check_requested = true;
     }
 
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
@@ -698,18 +701,23 @@ impl<
     fn stash_leader_state(&mut self) {
         self.raft_state = self.get_raft_state();
 
-        if self.prev_raft_state == self.raft_state {
+        // An explicitly requested check must be answered even if there is no state to report.
+        let cluster_check_requested = mem::take(&mut self.cluster_check_requested);
+        let raft_state_changed = self.prev_raft_state != self.raft_state;
+        if !raft_state_changed && !cluster_check_requested {
             return;
         }
 
-        self.prev_raft_state = self.raft_state.clone();
+        if raft_state_changed {
+            self.prev_raft_state = self.raft_state.clone();
 
-        // Update snapshot processor with the latest raft cluster state.
-        self.update_snapshot_cluster_change();
+            // Update snapshot processor with the latest raft cluster state.
+            self.update_snapshot_cluster_change();
 
-        // Update communication module with the latest set of known replicas.
-        self.communication
-            .process_cluster_change(&self.raft_progress.config_state.voters);
+            // Update communication module with the latest set of known replicas.
+            self.communication
+                .process_cluster_change(&self.raft_progress.config_state.voters);
+        }
 
         // Sent out cluster check message with the update.
         self.stash_message(out_message::Msg::CheckCluster(CheckClusterResponse {
-- 
2.43.0


From ebc5d74e47fa3f3a2d9f31df9e0975526baf79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:30 +0000
Subject: [PATCH 33/34] fix: reject snapshot messages while the replica does
 not run

---
 runtime/src/driver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index a4fa7b8..b570772 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -964,6 +964,7 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1004,6 +1005,7 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1042,6 +1044,7 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
-- 
2.43.0


From 8cc4b5f696d49e7da90a064f6272d02b2d1bcc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:47 +0000
Subject: [PATCH 34/34] fix: drop Raft messages of removed peers instead of
 terminating

---
 runtime/src/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index b570772..1c3cdc1 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -374,6 +374,13 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Err(e @ (RaftError::StepPeerNotFound | RaftError::ProposalDropped)) => {
+                        // The sender may have been removed from the cluster, or have forwarded
+                        // a proposal to a replica that has lost leadership.
+                        warn!(self.logger, "Dropping Raft message: {}", e);
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0

