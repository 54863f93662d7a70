From 190e93e59620a5c353e1e2ff540cd5bb37827726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 01/49] fix: transaction with a failed process no longer stays
 pending forever

---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..d55a72a 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,9 +495,11 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
-                return true;
-            };
+            // Both completed and failed processes have nothing left to do.
+            match process_state.status {
+                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
+                _ => return true,
+            }
         }
         false
     }
-- 
2.43.0


From 163ce811db9c195acee1fd3d398a66d7dc26b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 02/49] fix: failed tablet op without existing tablet no longer
 panics transaction commit

---
 .../service/src/transaction/coordinator.rs    | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index d55a72a..cf54148 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -557,15 +557,15 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // Existing tablet is not known if the tablet doesn't exist or the
+                        // request itself has failed.
+                        if let Some(existing_tablet) = &check_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     }
                 }
                 (
@@ -573,15 +573,15 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // Existing tablet is not known if the tablet doesn't exist or the
+                        // request itself has failed.
+                        if let Some(existing_tablet) = &update_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     } else {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-- 
2.43.0


From b564d120a7e2ade4639f13e2bbed5f4c398b2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:33 +0000
Subject: [PATCH 03/49] fix: failed transaction no longer caches uncommitted
 tablet metadata

---
 .../service/src/transaction/coordinator.rs      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index cf54148..a5c4f95 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -545,12 +545,17 @@ impl CommittingTabletTransactionState {
         // but for the time being we are doing a simple check of that all tablet ops
         // succeeded.
         let mut metadata_to_update_cache = Vec::new();
-        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
+        let all_succeeded = tablet_op_results.len() == self.tablet_ops.len()
+            && tablet_op_results
+                .iter()
+                .all(|tablet_op_result| tablet_op_result.status == TabletOpStatus::Succeeded as i32);
+        let transaction_outcome = if all_succeeded {
+            TabletTransactionOutcome::Succeeded
+        } else {
+            TabletTransactionOutcome::Failed
+        };
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
-            if !op_succeeded {
-                transaction_outcome = TabletTransactionOutcome::Failed;
-            }
             match (&tablet_op.op, &tablet_op_result.op_result) {
                 (
                     Some(tablet_op::Op::CheckTablet(check_tablet_op)),
@@ -582,7 +587,9 @@ impl CommittingTabletTransactionState {
                                 true,
                             ));
                         }
-                    } else {
+                    } else if all_succeeded {
+                        // Updated metadata only exists if the transaction has been committed, none
+                        // of the updates take effect otherwise.
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
                             update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
-- 
2.43.0


From 9ad6169c769fa17505ed044d2b8bae2815d6d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 04/49] fix: transaction no longer mixes up tablets with equal
 ids from different tables

---
 .../service/src/transaction/coordinator.rs    | 47 +++++++++++--------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index a5c4f95..b214c2d 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -391,10 +391,9 @@ impl<T> PreparingTabletTransactionState<T> {
 
                                 for (query, metadata) in resolve_values {
                                     // Start tracking state of the affected tablet.
-                                    process_state.tablets.insert(
-                                        create_tablet_key(&metadata),
-                                        TabletState::create(query, metadata.clone()),
-                                    );
+                                    process_state
+                                        .tablets
+                                        .push(TabletState::create(query, metadata.clone()));
                                     resolved_metadata.push(metadata);
                                 }
                                 // Initiate affected tablets loading through Tablet Data Cache and switch to
@@ -421,17 +420,21 @@ impl<T> PreparingTabletTransactionState<T> {
                                 let mut tablet_refs = Vec::with_capacity(load_values.len());
 
                                 for (metadata, data) in load_values {
-                                    // Set loaded tablet data in corresponding tablet state that we look up
-                                    // using metadata.
-                                    let tablet_state = process_state
-                                        .tablets
-                                        .get_mut(&create_tablet_key(&metadata))
-                                        .unwrap();
-                                    tablet_state.tablet_init(data);
+                                    // Set loaded tablet data in corresponding tablet states that we look up
+                                    // using metadata. Note that tablets are unique only within a table,
+                                    // tablets from different tables may have the same key and share data.
+                                    let tablet_key = create_tablet_key(&metadata);
+                                    for tablet_state in &mut process_state.tablets {
+                                        if create_tablet_key(tablet_state.tablet.get_metadata())
+                                            == tablet_key
+                                        {
+                                            tablet_state.tablet_init(data.clone());
+                                        }
+                                    }
                                 }
 
                                 // Create collection of  mutable references that process handler will consume.
-                                for tablet_state in process_state.tablets.values_mut() {
+                                for tablet_state in process_state.tablets.iter_mut() {
                                     tablet_refs.push(tablet_state.tablet_mut());
                                 }
 
@@ -441,7 +444,7 @@ impl<T> PreparingTabletTransactionState<T> {
                                 let mut tablet_writes = Vec::new();
 
                                 // Collect which tablets needs to be stored in Tablet Data Storage.
-                                for tablet_state in process_state.tablets.values_mut() {
+                                for tablet_state in process_state.tablets.iter_mut() {
                                     if let Some(tablet_write) = tablet_state.tablet_prepare() {
                                         tablet_writes.push(tablet_write);
                                     }
@@ -489,7 +492,7 @@ impl<T> PreparingTabletTransactionState<T> {
         self.process_requests.push(TabletProcessState {
             status: TabletProcessStatus::Pending(queries),
             handler,
-            tablets: HashMap::new(),
+            tablets: Vec::new(),
         });
     }
 
@@ -513,7 +516,7 @@ impl<T> PreparingTabletTransactionState<T> {
                 return PreparingTabletTransactionOutcome::Failed;
             }
 
-            for tablet_state in process_state.tablets.values() {
+            for tablet_state in process_state.tablets.iter() {
                 // For each of the affected tablets generate corresponding tablet op.
                 tablet_ops.push(tablet_state.get_tablet_op());
             }
@@ -606,9 +609,13 @@ impl CommittingTabletTransactionState {
     }
 }
 
-// Creates tablet key that consists of tablet id and its version.
-fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
-    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
+// Creates tablet key that consists of tablet id, its version and blob uri.
+fn create_tablet_key(metadata: &TabletMetadata) -> (u32, u32, &String) {
+    (
+        metadata.tablet_id,
+        metadata.tablet_version,
+        &metadata.blob_uri,
+    )
 }
 
 // Tracks state of a tablet affected by a transaction.
@@ -678,8 +685,8 @@ struct TabletProcessState<T> {
     status: TabletProcessStatus<T>,
     // Handler that will be called to process tablets.
     handler: Box<ProcessHandler<T>>,
-    // Maps tablet key that of tablet id and its version to the tablet state.
-    tablets: HashMap<u64, TabletState<T>>,
+    // Tracks states of the affected tablets.
+    tablets: Vec<TabletState<T>>,
 }
 
 enum TabletProcessStatus<T> {
-- 
2.43.0


From 7dd7400dc7b66775cbd96a718a4d43b6d0457f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 05/49] fix: tablet ops response with missing results fails the
 request

---
 .../service/src/transaction/manager.rs        | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..e67484c 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -12,7 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use core::cell::RefCell;
+use core::{cell::RefCell, mem::discriminant};
 
 use alloc::{boxed::Box, rc::Rc, vec::Vec};
 use hashbrown::HashMap;
@@ -20,7 +20,7 @@ use slog::{o, Logger};
 use tcp_runtime::logger::log::create_logger;
 use tcp_tablet_store_service::apps::tablet_store::service::{
     tablet_op::Op, tablet_op_result::OpResult, AddTabletResult, CheckTabletResult,
-    ListTabletResult, RemoveTabletResult, TabletOp, TabletOpResult, TabletsRequest,
+    ListTabletResult, RemoveTabletResult, TabletOp, TabletOpResult, TabletOpStatus, TabletsRequest,
     TabletsRequestStatus, TabletsResponse, UpdateTabletResult,
 };
 
@@ -275,8 +275,17 @@ impl<T> TabletTransactionManagerCore<T> {
                 _execute_ops_response,
                 tablets_response,
             ) => {
-                self.tablets_errors.remove(&correlation_id);
-                self.process_in_tablets_op_response(correlation_id, tablets_response);
+                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
+                    // Treat response that lacks proper result for any of the requested
+                    // ops as an error.
+                    let tablets_response =
+                        if has_matching_op_results(&tablets_error, &tablets_response) {
+                            tablets_response
+                        } else {
+                            tablets_error
+                        };
+                    self.process_in_tablets_op_response(correlation_id, tablets_response);
+                }
             }
             InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {
                 if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
@@ -394,9 +403,8 @@ impl<T> TabletTransactionManagerCore<T> {
                     correlation_id,
                     list_op_results,
                 ));
-        }
-
-        if !execute_op_results.is_empty() {
+        } else {
+            // Transaction without any tablet ops has no results.
             self.transaction_coordinator.process_in_message(
                 &mut *self.metadata_cache,
                 TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse(
@@ -408,6 +416,20 @@ impl<T> TabletTransactionManagerCore<T> {
     }
 }
 
+// Checks that both responses have the same number of results and results at the same
+// position are of the same type.
+fn has_matching_op_results(expected: &TabletsResponse, actual: &TabletsResponse) -> bool {
+    expected.tablet_results.len() == actual.tablet_results.len()
+        && expected
+            .tablet_results
+            .iter()
+            .zip(actual.tablet_results.iter())
+            .all(|(expected, actual)| {
+                expected.op_result.as_ref().map(discriminant)
+                    == actual.op_result.as_ref().map(discriminant)
+            })
+}
+
 fn create_failed_op_result(tablet_op: &TabletOp) -> TabletOpResult {
     let tablet_op_result = match &tablet_op.op {
         Some(Op::ListTablet(list_tablet_op)) => Some(OpResult::ListTablet(ListTabletResult {
@@ -423,7 +445,7 @@ fn create_failed_op_result(tablet_op: &TabletOp) -> TabletOpResult {
     };
     TabletOpResult {
         table_name: tablet_op.table_name.clone(),
-        status: TabletsRequestStatus::Failed.into(),
+        status: TabletOpStatus::Failed.into(),
         op_result: tablet_op_result,
     }
 }
-- 
2.43.0


From ed498a2a3de6a8e72ee54797d9e43811c6d3c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 06/49] fix: key hashes between tablets of a region are mapped
 to the next tablet

---
 .../service/src/transaction/metadata.rs       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..430ad17 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -453,24 +453,27 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let first_tablet_id = *fresh_tablet_ids.first().unwrap();
+                let mut curr_tablet_id = first_tablet_id;
                 let mut curr_key_hashes = Vec::new();
-                // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
-                // a tablet that is clockwise on the consistent hashing ring.
+                // Key hashes are handled by a tablet that is clockwise on the consistent hashing
+                // ring, the first tablet handles key hashes following the last one.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
+                    let next_tablet_id = *fresh_tablet_ids
+                        .range(*key_hash..)
+                        .next()
+                        .unwrap_or(&first_tablet_id);
+                    if next_tablet_id != curr_tablet_id {
                         if !curr_key_hashes.is_empty() {
                             resolve_result.push((
                                 table_query.create_from(mem::take(&mut curr_key_hashes)),
                                 self.tablets.get(&curr_tablet_id).unwrap().clone(),
                             ));
                         }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                        curr_tablet_id = next_tablet_id;
                     }
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From a1d504236357a613aa2b16f6932fd552d7285698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:39 +0000
Subject: [PATCH 07/49] fix: metadata cache covers the last region of the
 hashing ring

---
 apps/tablet_cache/service/src/transaction/metadata.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 430ad17..89af487 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,9 +354,10 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
-        let mut regions = HashMap::with_capacity(regions_count as usize);
-        for region_idx in 0..regions_count {
+        // The very last region contains the maximum key hash and may be incomplete.
+        let last_region_idx = Self::map_table_region(region_size, u32::MAX);
+        let mut regions = HashMap::new();
+        for region_idx in 0..=last_region_idx {
             // Regions are identified by the starting position on the consistent hashing ring.
             regions.insert(region_idx, TableRegion::create());
         }
-- 
2.43.0


From e7b61655b4aff4e9cdf4425c25777d5b2cd85e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 08/49] fix: concurrent pending queries of a region are all
 resolved

---
 .../service/src/transaction/metadata.rs       | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 89af487..e8df55b 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -554,8 +554,8 @@ enum TableResolveNotification {
 // Tracks pending request to resolve tablets.
 struct TabletResolve {
     notification: TableResolveNotification,
-    // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    // Maps table name and region index to pending table queries.
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -595,11 +595,15 @@ impl TabletResolve {
             } else {
                 // Otherwise register pending query and wait for the corresponding region
                 // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_insert_with(Vec::new);
+                // Resolve request must be notified only once per region.
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -656,10 +660,11 @@ impl TabletResolve {
         table_region_idx: u32,
         table_metadata: &TableMetadata,
     ) {
-        // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        // Remove pending queries now that corresponding region state is fresh.
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or_default()
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From d30b9bbfeb50ed2d0d9f22fa8ed4ec154e720315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 09/49] fix: batch with cached and pending tablets completes
 only when all are ready

---
 apps/tablet_cache/service/src/transaction/data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..866015f 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -278,6 +278,9 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_batch: &mut TabletBatch<T>,
         tablet_cache_keys: &Vec<TabletCacheKey>,
     ) {
+        // Batch must not complete before all of its cache entries are accounted for.
+        tablet_batch.init_pending_cache_entries(tablet_cache_keys.len());
+
         // Register batch with each of the tablet cache entries it affects such that
         // when tablet cache entry is ready the corresponding tablet batch can be
         // notified.
@@ -775,8 +778,11 @@ impl<T> TabletBatch<T> {
         self.remaining_cache_entries == 0
     }
 
+    fn init_pending_cache_entries(&mut self, cache_entries_count: usize) {
+        self.remaining_cache_entries = cache_entries_count;
+    }
+
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
-- 
2.43.0


From dd02072bae076caf637a25c602c16a64ecd4d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:13 +0000
Subject: [PATCH 10/49] fix: empty tablet batch completes, so that read only
 transactions can commit

---
 apps/tablet_cache/service/src/transaction/data.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 866015f..7d96238 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -780,6 +780,19 @@ impl<T> TabletBatch<T> {
 
     fn init_pending_cache_entries(&mut self, cache_entries_count: usize) {
         self.remaining_cache_entries = cache_entries_count;
+        if cache_entries_count == 0 {
+            // There is nothing to wait for.
+            match &mut self.batch_state {
+                TabletBatchState::Load(_, loaded_tablets_source) => {
+                    loaded_tablets_source.set_result(Vec::new())
+                }
+                TabletBatchState::Store(stored_tablets_source) => {
+                    stored_tablets_source.set_result(())
+                }
+                _ => {}
+            }
+            self.batch_state = TabletBatchState::Completed;
+        }
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-- 
2.43.0


From fee75f622b5c3af327ce2ce50ffc57164107630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:16 +0000
Subject: [PATCH 11/49] fix: loaded tablet contents is checked against the blob
 hash

---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 7d96238..7719455 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -317,6 +317,14 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Data storage is not trusted, ensure that tablet contents is the one that
+        // has been stored.
+        if !tablet_metadata.blob_hash.is_empty()
+            && Sha256::digest(&tablet_contents).as_slice() != tablet_metadata.blob_hash.as_ref()
+        {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 30e74049a898edac7e3ecd726174060e1746e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:18 +0000
Subject: [PATCH 12/49] fix: storing tablet version that is already cached no
 longer panics

---
 apps/tablet_cache/service/src/transaction/data.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 7719455..ad592e0 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -467,10 +467,11 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // The same version of the tablet with the same contents is already
+                    // maintained by the cache (for example, it was stored by a transaction
+                    // that failed to commit and has been retried). Tablets are immutable once
+                    // created, therefore it is sufficient to wait for the existing entry.
                 }
             }
         }
-- 
2.43.0


From 65e23619b91e883a33c93d12b007685cbfe90473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 13/49] fix: tablets that have never been stored no longer
 share cache entry

---
 .../service/src/transaction/data.rs           | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index ad592e0..b58bc96 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -388,13 +388,25 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
             let tablet_cache_key = TabletCacheKey::from(tablet_metadata);
             tablet_cache_keys.push(tablet_cache_key.clone());
 
-            if let Vacant(map_entry) = self.tablet_cache_entries.entry(tablet_cache_key.clone()) {
+            if self.tablet_cache_entries.contains_key(&tablet_cache_key) {
+                continue;
+            }
+
+            if tablet_metadata.blob_uri.is_empty() {
+                // Not a single version of the tablet has been created yet, hence there is nothing
+                // to load from the storage and the tablet is empty.
+                let tablet_value = self.prepare_tablet_read(tablet_metadata, Bytes::new());
+                self.tablet_cache_entries.insert(
+                    tablet_cache_key,
+                    TabletCacheEntry::<T>::with_empty_state(tablet_metadata, tablet_value),
+                );
+            } else {
                 // Create new tablet cache entry and corresponding storage request if the tablet
                 // is not being maintained by the cache.
                 self.correlation_counter += 1;
 
                 self.tablet_operations
-                    .insert(self.correlation_counter, tablet_cache_key);
+                    .insert(self.correlation_counter, tablet_cache_key.clone());
 
                 let (tablet_cache_entry, load_tablet_request) =
                     TabletCacheEntry::<T>::with_load_state(
@@ -403,7 +415,8 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     );
 
                 self.out_messages.push(load_tablet_request);
-                map_entry.insert(tablet_cache_entry);
+                self.tablet_cache_entries
+                    .insert(tablet_cache_key, tablet_cache_entry);
             }
         }
 
@@ -578,12 +591,15 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
 struct TabletCacheKey {
     // Uri of the blob in Tablet Data Storage.
     uri: String,
+    // Id of the tablet. Distinguishes tablets that don't have the blob yet.
+    tablet_id: u32,
 }
 
 impl TabletCacheKey {
     fn from(tablet_metadata: &TabletMetadata) -> Self {
         Self {
             uri: tablet_metadata.blob_uri.clone(),
+            tablet_id: tablet_metadata.tablet_id,
         }
     }
 }
@@ -613,6 +629,19 @@ struct TabletCacheEntry<T> {
 }
 
 impl<T> TabletCacheEntry<T> {
+    fn with_empty_state(tablet_metadata: &TabletMetadata, tablet_value: Result<T, ()>) -> Self {
+        Self {
+            tablet_metadata: tablet_metadata.clone(),
+            cache_entry_state: match tablet_value {
+                Ok(tablet_value) => {
+                    TabletCacheEntryState::Cache(TabletData::<T>::create(tablet_value))
+                }
+                Err(_) => TabletCacheEntryState::Error,
+            },
+            tablet_batch_ids: Vec::new(),
+        }
+    }
+
     fn with_load_state(
         correlation_id: u64,
         tablet_metadata: &TabletMetadata,
-- 
2.43.0


From c7120b8807206b834f3573c6c2d965fc9420313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 14/49] fix: resolving tablets from cached metadata no longer
 panics key value store

---
 apps/tablet_cache/service/src/store.rs | 33 +++++++++++---------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..b9c75c6 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -114,15 +114,19 @@ impl KeyValueStore for SimpleKeyValueStore {
         _instant: u64,
         transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
     ) {
-        let mut core = self.core.borrow_mut();
-
         let mut core_clone = self.core.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
-        core.maybe_resolve_tablets(
-            transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
-        );
+        // the affected tablets. Note that core must not be borrowed at this point as the
+        // handler is called immediately if metadata for the affected tablets is cached.
+        let resolve_queries = self.core.borrow_mut().collect_resolve_queries();
+        if !resolve_queries.is_empty() {
+            transaction_context.resolve(
+                resolve_queries,
+                Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            );
+        }
+
+        let mut core = self.core.borrow_mut();
 
         core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
@@ -236,19 +240,10 @@ impl SimpleKeyValueStoreCore {
         }
     }
 
-    fn maybe_resolve_tablets(
-        &mut self,
-        transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
-        handler: Box<transaction::ResolveHandler>,
-    ) {
+    fn collect_resolve_queries(&mut self) -> Vec<transaction::TableQuery> {
         // Initiate resolution of affected tablets if there are enough pending requests.
-        let resolve_queries = self
-            .request_tracker
-            .collect_resolve_queries(&mut self.table_accessor);
-
-        if !resolve_queries.is_empty() {
-            transaction_context.resolve(resolve_queries, handler);
-        }
+        self.request_tracker
+            .collect_resolve_queries(&mut self.table_accessor)
     }
 
     fn maybe_start_transaction(
-- 
2.43.0


From 391176e6ffac344ccaa582c76c9dbe9ea3c7375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:19 +0000
Subject: [PATCH 15/49] fix: key value store honours configured pending
 threshold and never processes empty batches

---
 apps/tablet_cache/service/src/store.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index b9c75c6..7336d0c 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -194,6 +194,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
@@ -384,7 +385,7 @@ impl RequestTracker {
         // If minimum pending requests threshold has been reached, create
         // table query with these requests and resolve which tablets they
         // affect.
-        if self.pending_requests.len() >= self.min_pending {
+        if !self.pending_requests.is_empty() && self.pending_requests.len() >= self.min_pending {
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_resolution_requests
                 .insert(query.get_id(), mem::take(&mut self.pending_requests));
@@ -441,7 +442,10 @@ impl TabletTracker {
         // If minimum pending threshold has been reached and there is no
         // active transaction, create table query with these requests to
         // process within a transaction.
-        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
+        if !self.pending_requests.is_empty()
+            && self.pending_requests.len() >= self.min_pending
+            && !self.has_transaction
+        {
             self.has_transaction = true;
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_processing_requests
-- 
2.43.0


From f7c1ebb83a8ac7ddc273b7f3eacde725637007bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 16/49] fix: resolved requests are handed to the tablet that
 covers their keys

---
 apps/tablet_cache/service/src/store.rs | 42 +++++++++++++++++++-------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 7336d0c..3bb73ca 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -213,7 +213,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -395,11 +395,28 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
-            .unwrap_or(Vec::new())
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. Requests for keys
+        // that are not part of the given query keep waiting as they affect other tablets.
+        let (resolved_requests, waiting_requests): (Vec<_>, Vec<_>) = self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
+            .unwrap_or_default()
+            .into_iter()
+            .partition(|request| {
+                table_query
+                    .get_key_hashes()
+                    .contains(&hash_request_key(table_accessor, request))
+            });
+        if !waiting_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), waiting_requests);
+        }
+        resolved_requests
     }
 }
 
@@ -638,6 +655,13 @@ impl TransactionTracker {
     }
 }
 
+fn hash_request_key(table_accessor: &TableAccessor, request: &KeyValueRequest) -> u32 {
+    match request {
+        KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
+        KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
+    }
+}
+
 fn create_table_query(
     table_accessor: &mut TableAccessor,
     requests: &Vec<KeyValueRequest>,
@@ -645,11 +669,7 @@ fn create_table_query(
     let mut hashes = Vec::new();
 
     for request in requests {
-        let hash = match &request {
-            KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
-            KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
-        };
-        hashes.push(hash);
+        hashes.push(hash_request_key(table_accessor, request));
     }
 
     transaction::TableQuery::create(
-- 
2.43.0


From 8c043fe1b38df61b1ced44c4f06f7b7f2239ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 17/49] fix: requests of a failed transaction are retried

---
 apps/tablet_cache/service/src/store.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3bb73ca..7ee962b 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -306,6 +306,11 @@ impl SimpleKeyValueStoreCore {
             }
         }
 
+        // Enqueue requests of the failed transactions for retry.
+        for request in failed_requests {
+            self.request_tracker.append_pending_request(request);
+        }
+
         // Clear all completed transactions and associated state.
         for transaction_id in completed_transactions {
             self.transaction_trackers.remove(&transaction_id);
@@ -581,6 +586,10 @@ impl TabletTracker {
 
     fn complete_transaction(&mut self) {
         self.has_transaction = false;
+        // Requests that the completed transaction hasn't processed must be retried.
+        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {
+            self.pending_requests.append(&mut requests);
+        }
     }
 }
 
-- 
2.43.0


From d32edaa118a49e533151f31ec307fe6f5d179f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 18/49] fix: tablet cache advances its transaction manager

---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..f15e54f 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -189,6 +189,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let instant = self.get_context().instant();
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
+        self.transaction_manager.make_progress(instant);
 
         let transaction_out_commands = self
             .transaction_manager
-- 
2.43.0


From be669613de1e79aa365e9c1b37713d1b54a9bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 19/49] fix: unsupported tablet ops are rejected instead of
 crashing every replica

---
 apps/tablet_store/service/src/actor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..2391e1e 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -340,7 +340,12 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
 
     fn prepare_tablet_op(&mut self, tablet_op: &TabletOp) -> TabletOpResult {
         let table_opt = self.tables.get(&tablet_op.table_name);
-        if table_opt.is_none() || tablet_op.op.is_none() {
+        // Adding and removing tablets is not supported yet.
+        let supported_op = match &tablet_op.op {
+            None | Some(Op::AddTablet(_)) | Some(Op::RemoveTablet(_)) => false,
+            _ => true,
+        };
+        if table_opt.is_none() || !supported_op {
             return TabletOpResult {
                 table_name: tablet_op.table_name.clone(),
                 status: TabletOpStatus::Invalid.into(),
-- 
2.43.0


From 30c0079f963ead8f3468aa1d3d99b366924d8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 20/49] fix: transaction that updates the same tablet twice
 fails instead of losing an update

---
 apps/tablet_store/service/src/actor.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 2391e1e..ad5fddb 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -301,9 +301,21 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
 
     fn on_apply_tablets_request(&mut self, request: TabletsRequest) -> (OutMsg, Bytes) {
         let mut all_succeeded = true;
+        let mut updated_tablets = HashSet::new();
         let mut tablet_op_prepare_results = Vec::new();
         for tablet_op in &request.tablet_ops {
-            let tablet_op_result = self.prepare_tablet_op(tablet_op);
+            let mut tablet_op_result = self.prepare_tablet_op(tablet_op);
+            if let Some(Op::UpdateTablet(update_tablet_op)) = &tablet_op.op {
+                // All updates are prepared against the same state, hence at most one of
+                // them may change a given tablet.
+                let tablet_id = update_tablet_op
+                    .tablet_metadata
+                    .as_ref()
+                    .map(|tablet_metadata| tablet_metadata.tablet_id);
+                if !updated_tablets.insert((tablet_op.table_name.clone(), tablet_id)) {
+                    tablet_op_result.status = TabletOpStatus::Failed.into();
+                }
+            }
             all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             tablet_op_prepare_results.push(tablet_op_result);
         }
-- 
2.43.0


From 8c970319306e861abd12fc9e31829d67731bb4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 21/49] fix: tablet version doesn't wrap around

---
 apps/tablet_store/service/src/actor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index ad5fddb..5725bb8 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -179,7 +179,9 @@ impl TableMetadata {
                 let mut update_tablet_result = UpdateTabletResult::default();
                 if let Some(updated_tablet) = &update_tablet_op.tablet_metadata {
                     if let Some(existing_tablet) = self.tablets.get(&updated_tablet.tablet_id) {
-                        if updated_tablet.tablet_version == existing_tablet.tablet_version + 1 {
+                        if existing_tablet.tablet_version.checked_add(1)
+                            == Some(updated_tablet.tablet_version)
+                        {
                             op_result.status = TabletOpStatus::Succeeded.into();
                         }
                         update_tablet_result.existing_tablet = Some(existing_tablet.clone());
-- 
2.43.0


From 9b49e05c7581b7e8e4aa7b3fa763c4f4b9ddde96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:07 +0000
Subject: [PATCH 22/49] fix: malformed tablets response or config of tablet
 cache is an error instead of a panic

---
 apps/tablet_cache/service/src/actor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index f15e54f..9e0fa86 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -98,13 +98,17 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
             .map_err(|_| ActorError::ConfigLoading)?;
 
         let key_value_store_logger = self.get_context().logger().new(o!("type" => "store"));
-        self.key_value_store
-            .init(key_value_store_logger, config.store_config.unwrap());
+        self.key_value_store.init(
+            key_value_store_logger,
+            config.store_config.ok_or(ActorError::ConfigLoading)?,
+        );
 
         let transaction_manager_logger = self.get_context().logger().new(o!("type" => "manager"));
         self.transaction_manager.init(
             transaction_manager_logger,
-            config.transaction_manager_config.unwrap(),
+            config
+                .transaction_manager_config
+                .ok_or(ActorError::ConfigLoading)?,
         );
 
         debug!(self.get_context().logger(), "Initialized");
@@ -164,7 +168,8 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
+                        let tablets_response = TabletsResponse::decode(command.payload)
+                            .map_err(|_| ActorError::Internal)?;
                         self.transaction_manager.process_in_message(
                             transaction::InMessage::ExecuteTabletOpsResponse(
                                 command.correlation_id,
-- 
2.43.0


From c025a7e58744bf9e74f21359d6a6ffc89ae30e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 23/49] fix: all tablet store replicas start with the same
 tablets

---
 apps/tablet_store/service/src/actor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 5725bb8..2860e59 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -17,7 +17,7 @@ use crate::actor::{
 };
 use crate::apps::tablet_store::service::*;
 use alloc::boxed::Box;
-use alloc::collections::BTreeMap;
+use alloc::collections::{BTreeMap, BTreeSet};
 use alloc::format;
 use alloc::string::String;
 use alloc::vec::Vec;
@@ -30,7 +30,6 @@ use oak_proto_rust::oak::attestation::v1::{
     ReferenceValues, RootLayerReferenceValues, SkipVerification, TextReferenceValue,
 };
 use prost::{bytes::Bytes, Message};
-use rand::{rngs::OsRng, RngCore};
 use slog::{debug, warn};
 use tcp_runtime::model::{
     Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext, CommandOutcome,
@@ -230,9 +229,16 @@ pub struct RandomTabletConfigurator {}
 impl TabletConfigurator for RandomTabletConfigurator {
     fn generate(&mut self, initial_tablet_count: u32) -> Vec<u32> {
         let tablet_count: usize = initial_tablet_count.try_into().unwrap();
-        let mut tablet_ids = HashSet::with_capacity(tablet_count);
+        // Every replica must start with the same tablets, hence the ids are drawn from a
+        // pseudo random sequence (splitmix64) that is the same on all of them.
+        let mut state: u64 = 0;
+        let mut tablet_ids = BTreeSet::new();
         while tablet_ids.len() < tablet_count {
-            tablet_ids.insert(OsRng.next_u32());
+            state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
+            let mut tablet_id = state;
+            tablet_id = (tablet_id ^ (tablet_id >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
+            tablet_id = (tablet_id ^ (tablet_id >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
+            tablet_ids.insert((tablet_id ^ (tablet_id >> 31)) as u32);
         }
         tablet_ids.into_iter().collect()
     }
-- 
2.43.0


From 7b1099a9a9e8e23160f24885a819fa5c43e414c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:32 +0000
Subject: [PATCH 24/49] fix: failed compare and swap returns the unchanged
 value as the new one

---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ce988e1..ea24f78 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -136,6 +136,7 @@ impl CounterActor {
             compare_and_swap_response.new_value = compare_and_swap_request.new_value;
         } else {
             response.status = CounterStatus::InvalidArgumentError.into();
+            compare_and_swap_response.new_value = existing_value.value;
         }
         response.op = Some(counter_response::Op::CompareAndSwap(
             compare_and_swap_response,
-- 
2.43.0


From 854fbc2d335ac0ca0a50bda1193aa93a8b064275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:33 +0000
Subject: [PATCH 25/49] fix: loading snapshot of atomic counter replaces its
 values

---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ea24f78..0481939 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -195,6 +195,7 @@ impl Actor for CounterActor {
         let snapshot =
             CounterSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;
 
+        self.values.clear();
         for (name, value) in snapshot.values {
             self.values.insert(
                 name,
-- 
2.43.0


From 2fbb07a06b894ea9602e8634e58c41c52e107f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 26/49] fix: chunks of another snapshot are not mixed into the
 one being received

---
 runtime/src/snapshot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..6897a46 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,14 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +910,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From 4bc07ea5fd75786236104c8c17c42b599205cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:42 +0000
Subject: [PATCH 27/49] fix: huge snapshot count doesn't overflow

---
 runtime/src/storage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/storage.rs b/runtime/src/storage.rs
index 9c7e9ba..7dd2beb 100644
--- a/runtime/src/storage.rs
+++ b/runtime/src/storage.rs
@@ -243,7 +243,11 @@ impl MemoryStorageCore {
 
     fn should_snapshot(&self, applied_index: u64, config_state: &RaftConfigState) -> bool {
         // Check if existing snapshot is too old.
-        if self.snapshot_index() + self.max_snapshot_diff < applied_index {
+        if self
+            .snapshot_index()
+            .saturating_add(self.max_snapshot_diff)
+            < applied_index
+        {
             return true;
         }
         // Check if snapshotting at applied index and config state will satisfy any of the
-- 
2.43.0


From 812361d87ce43605606666f70ca30865f755da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:10 +0000
Subject: [PATCH 28/49] fix: message without payload is rejected instead of
 crashing replica

---
 runtime/src/communication.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..b9ae32a 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -531,7 +531,7 @@ impl CommunicationState {
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
             in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -540,7 +540,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
                 }),
             in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -549,7 +549,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
                 }),
             in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&Payload::default()))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
-- 
2.43.0


From 5a823fb889b118a571aeab1c014e45047535ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 29/49] fix: dropped proposal doesn't crash replica

---
 runtime/src/driver.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..1910d87 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -382,10 +382,24 @@ impl<
         }
     }
 
-    fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
+    fn make_raft_proposal(&mut self, proposal_contents: Bytes) -> Result<(), PalError> {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        match self.raft.make_proposal(proposal_contents) {
+            Ok(_) => Ok(()),
+            Err(RaftError::ProposalDropped) => {
+                // There may be no leader, or it is no longer part of the cluster.
+                warn!(self.logger, "Dropping Raft proposal");
+
+                Ok(())
+            }
+            Err(e) => {
+                error!(self.logger, "Raft experienced unrecoverable error: {}", e);
+
+                // Unrecoverable Raft errors must lead to termination.
+                Err(PalError::Raft)
+            }
+        }
     }
 
     fn make_raft_config_change_proposal(
@@ -1211,12 +1225,14 @@ impl<
         Ok(())
     }
 
-    fn process_actor_raft_proposals(&mut self) {
+    fn process_actor_raft_proposals(&mut self) -> Result<(), PalError> {
         let proposals = self.mut_core().take_outputs();
 
         for proposal in proposals {
-            self.make_raft_proposal(proposal);
+            self.make_raft_proposal(proposal)?;
         }
+
+        Ok(())
     }
 
     fn process_state_machine(&mut self) -> Result<(), PalError> {
@@ -1339,7 +1355,7 @@ impl<
 
         if !self.is_ephemeral {
             // Processes outputs from the actor to make raft proposals.
-            self.process_actor_raft_proposals();
+            self.process_actor_raft_proposals()?;
 
             // Process snapshot transfer completion or failures.
             self.process_snapshot_progress();
-- 
2.43.0


From bf61a4b076e3bd0773bea6810437b0c89b4b49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 30/49] fix: forwarded proposal or response of removed replica
 doesn't crash replica

---
 runtime/src/driver.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 1910d87..49a6614 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -370,13 +370,20 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Ok(_) => Ok(()),
+                    Err(e @ (RaftError::ProposalDropped | RaftError::StepPeerNotFound)) => {
+                        // Forwarded proposal reached a replica that isn't leader anymore, or
+                        // the response comes from a replica that has left the cluster.
+                        warn!(self.logger, "Ignoring Raft message: {}", e);
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
                         // Unrecoverable Raft errors must lead to termination.
                         Err(PalError::Raft)
                     }
-                    Ok(_) => Ok(()),
                 }
             }
         }
-- 
2.43.0


From a49db5fee9464c46aac9aca55c3229ae10944051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 31/49] fix: removed leader steps down instead of crashing

---
 runtime/src/consensus.rs | 16 +++++++++++++---
 runtime/src/driver.rs    |  9 ++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 797405e..af65dfe 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -24,7 +24,7 @@ use raft::{
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
     eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
     Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
-    SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage,
+    SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage, INVALID_ID,
 };
 use slog::Logger;
 
@@ -328,8 +328,18 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: &RaftConfigChange,
     ) -> Result<RaftConfigState, RaftError> {
-        let config_state = self.mut_raft_node().apply_conf_change(config_change);
-        config_state
+        let config_state = self.mut_raft_node().apply_conf_change(config_change)?;
+
+        let raft = &mut self.mut_raft_node().raft;
+        if raft.state == RaftStateRole::Leader && !config_state.voters.contains(&raft.id) {
+            // Leader that has been removed from the cluster must step down. Raft leaves that to
+            // us, and panics should the removed leader commit anything else.
+            let term = raft.term;
+            raft.msgs.clear();
+            raft.become_follower(term, INVALID_ID);
+        }
+
+        Ok(config_state)
     }
 
     fn has_ready(&self) -> bool {
diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 49a6614..2a9dd5d 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -712,9 +712,12 @@ impl<
         // Update snapshot processor with the latest raft cluster state.
         self.update_snapshot_cluster_change();
 
-        // Update communication module with the latest set of known replicas.
-        self.communication
-            .process_cluster_change(&self.raft_progress.config_state.voters);
+        // Update communication module with the latest set of known replicas. Leader that has been
+        // removed keeps its channels, replicas that are yet to learn of the removal need its vote.
+        if self.raft_progress.config_state.voters.contains(&self.id) {
+            self.communication
+                .process_cluster_change(&self.raft_progress.config_state.voters);
+        }
 
         // Sent out cluster check message with the update.
         self.stash_message(out_message::Msg::CheckCluster(CheckClusterResponse {
-- 
2.43.0


From ab03cfae340dd6e69660647e5c0049a6d947c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 32/49] fix: completed snapshot doesn't send candidate back to
 term zero

---
 runtime/src/consensus.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index af65dfe..feeda7d 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -22,7 +22,8 @@ use prost::bytes::Bytes;
 use raft::{
     eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfState as RaftConfigState,
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
-    eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
+    eraftpb::Message as RaftMessage, eraftpb::MessageType as RaftMessageType,
+    eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
     Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
     SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage, INVALID_ID,
 };
@@ -304,7 +305,14 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         Ok(())
     }
 
-    fn make_step(&mut self, message: RaftMessage) -> Result<(), RaftError> {
+    fn make_step(&mut self, mut message: RaftMessage) -> Result<(), RaftError> {
+        if message.msg_type() == RaftMessageType::MsgSnapshot && message.term == 0 {
+            // Snapshot is received in chunks which don't carry the term of their sender. All that
+            // snapshot contains is committed, therefore it is valid in the current term. Without
+            // the term candidate would go back to term zero.
+            message.term = self.raft_node().raft.term;
+        }
+
         self.mut_raft_node().step(message)
     }
 
-- 
2.43.0


From 756c6047db644162869ea72a72fc1a7c61dab160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 33/49] fix: snapshot transfers to removed replicas are
 cancelled

---
 runtime/src/driver.rs   |  3 +++
 runtime/src/snapshot.rs | 24 +++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 2a9dd5d..67b84fd 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -697,6 +697,9 @@ impl<
     }
 
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
+        // Do not start sending snapshots to replicas that have just been removed.
+        self.snapshots
+            .retain(|message| config_state.voters.contains(&message.to));
         self.raft_progress.config_state = config_state;
     }
 
diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 6897a46..566172e 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -91,7 +91,8 @@ pub trait SnapshotProcessor {
     ///
     /// If the processor is currently play sender role it will switch to receiver
     /// role if it becomes a follower or no longer part of the cluster. Otherwise
-    /// if leader term changes all internal state will be cleaned up.
+    /// if leader term changes all internal state will be cleaned up. Transfers to
+    /// replicas that are no longer part of the cluster are cancelled.
     fn process_cluster_change(
         &mut self,
         leader_id: u64,
@@ -218,6 +219,11 @@ pub trait SnapshotSenderImpl: SnapshotSender {
     fn set_instant(&mut self, instant: u64);
 
     fn reset(&mut self) -> Vec<(u64, RaftSnapshotStatus)>;
+
+    /// Cancels transfers to all but given replicas.
+    fn retain(&mut self, _replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        Vec::new()
+    }
 }
 
 pub trait SnapshotReceiverImpl: SnapshotReceiver {
@@ -296,6 +302,9 @@ impl SnapshotProcessor for DefaultSnapshotProcessor {
                     panic!("Snapshot processor is not initialized");
                 }
             }
+        } else if let ReplicaState::Leader = self.state {
+            // Replicas that have left do not respond, and hold in-flight request slots.
+            cancelled_snapshots = self.sender.retain(replicas);
         }
 
         // Update replica state according to the cluster state.
@@ -586,6 +595,19 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
 
         cancellations
     }
+
+    fn retain(&mut self, replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        let mut cancellations: Vec<(u64, RaftSnapshotStatus)> = Vec::new();
+        self.receivers.retain(|receiver_id, _| {
+            let retained = replicas.contains(receiver_id);
+            if !retained {
+                cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));
+            }
+            retained
+        });
+
+        cancellations
+    }
 }
 
 impl SnapshotSender for DefaultSnapshotSender {
-- 
2.43.0


From 65995f910c6986334223b503cb07a4ec8610299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 34/49] fix: replicas initiating handshake with each other
 don't fail it endlessly

---
 runtime/src/communication.rs | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index b9ae32a..9e6a3d2 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -31,7 +31,12 @@ use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
 use oak_time::Clock;
 use raft::prelude::MessageType;
 use slog::{info, o, warn, Logger};
-use tcp_proto::runtime::endpoint::*;
+use tcp_proto::runtime::endpoint::{
+    secure_channel_handshake::{
+        noise_protocol::Message::InitiatorRequest, Encryption, NoiseProtocol,
+    },
+    *,
+};
 
 #[derive(PartialEq, Debug)]
 // Configuration for the Communication Module.
@@ -256,6 +261,16 @@ impl CommunicationModule for DefaultCommunicationModule {
             CommunicationState::new(logger.clone(), self.config.handshake_initiated_tick_timeout)
         });
 
+        if replica_state.is_initiator() && is_initiator_request(&message) {
+            // Both replicas have initiated a handshake with each other. Let the one of replica
+            // with the smaller id proceed, otherwise they may fail each other endlessly.
+            if self.replica_id < peer_replica_id {
+                info!(logger, "Ignoring handshake initiated by the peer");
+                return Ok(None);
+            }
+            replica_state.reset_state_machine();
+        }
+
         if !replica_state.is_initialized() {
             let handshake_session = self
                 .handshake_session_provider
@@ -320,6 +335,19 @@ impl CommunicationModule for DefaultCommunicationModule {
     }
 }
 
+// Whether message belongs to a handshake initiated by its sender.
+fn is_initiator_request(message: &in_message::Msg) -> bool {
+    matches!(
+        message,
+        in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
+            encryption: Some(Encryption::NoiseProtocol(NoiseProtocol {
+                message: Some(InitiatorRequest(_)),
+            })),
+            ..
+        })
+    )
+}
+
 // Manages communication with a given peer replica.
 pub struct CommunicationState {
     logger: Logger,
@@ -331,6 +359,8 @@ pub struct CommunicationState {
     unencrypted_messages: Vec<OutgoingMessage>,
     encryptor: Option<Box<dyn Encryptor>>,
     handshake_initiated_tick_timeout: u32,
+    // Whether current handshake has been initiated by this replica.
+    initiator: bool,
 }
 
 #[derive(PartialEq)]
@@ -359,6 +389,7 @@ impl CommunicationState {
             unencrypted_messages: Vec::new(),
             encryptor: None,
             handshake_initiated_tick_timeout,
+            initiator: false,
         }
     }
 
@@ -379,6 +410,11 @@ impl CommunicationState {
         self.handshake_state != HandshakeState::Unknown
     }
 
+    // Whether handshake initiated by this replica is in progress.
+    fn is_initiator(&self) -> bool {
+        self.initiator && matches!(self.handshake_state, HandshakeState::Initiated(_))
+    }
+
     fn make_tick(&mut self) {
         match &self.handshake_state {
             &HandshakeState::Failed(mut ticks_since_failed) => {
@@ -405,6 +441,7 @@ impl CommunicationState {
         self.pending_handshake_message = None;
         self.handshake_session = None;
         self.encryptor = None;
+        self.initiator = false;
     }
 
     fn transition_to_failed(&mut self, err: &anyhow::Error) {
@@ -453,6 +490,7 @@ impl CommunicationState {
                 }
                 self.push_or_replace_unencrypted_message(message);
                 self.handshake_state = HandshakeState::Initiated(0);
+                self.initiator = true;
                 Ok(())
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
-- 
2.43.0


From b9532732f66676b5e76b162feafd48b251aa2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 35/49] fix: replica that lost its session initiates a new
 handshake

---
 runtime/src/communication.rs | 61 ++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9e6a3d2..b0b9934 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -272,14 +272,30 @@ impl CommunicationModule for DefaultCommunicationModule {
         }
 
         if !replica_state.is_initialized() {
+            // Peer that keeps sending encrypted messages doesn't know that its handshake has been
+            // lost, and won't repeat it on its own.
+            let initiate = replica_state.handshake_lost
+                && !matches!(message, in_message::Msg::SecureChannelHandshake(_));
+            let role = if initiate {
+                Role::Initiator
+            } else {
+                Role::Recipient
+            };
             let handshake_session = self
                 .handshake_session_provider
-                .get(self.replica_id, peer_replica_id, Role::Recipient)
+                .get(self.replica_id, peer_replica_id, role)
                 .map_err(|err| {
                     warn!(logger, "Failed to get handshake_session {:?}", err);
                     PalError::Internal
                 })?;
             replica_state.init(handshake_session)?;
+
+            if initiate {
+                if let Err(err) = replica_state.initiate() {
+                    warn!(logger, "Failed to initiate handshake {:?}", err);
+                }
+                return Ok(None);
+            }
         }
 
         // Failure to process message should not lead to program termination, so simply log and
@@ -361,6 +377,8 @@ pub struct CommunicationState {
     handshake_initiated_tick_timeout: u32,
     // Whether current handshake has been initiated by this replica.
     initiator: bool,
+    // Whether peer sent encrypted messages without a handshake being completed.
+    handshake_lost: bool,
 }
 
 #[derive(PartialEq)]
@@ -390,6 +408,7 @@ impl CommunicationState {
             encryptor: None,
             handshake_initiated_tick_timeout,
             initiator: false,
+            handshake_lost: false,
         }
     }
 
@@ -465,6 +484,27 @@ impl CommunicationState {
         self.unencrypted_messages.push(message);
     }
 
+    // Initiates handshake with the peer.
+    fn initiate(&mut self) -> anyhow::Result<()> {
+        self.pending_handshake_message = self
+            .handshake_session
+            .as_mut()
+            .unwrap()
+            .take_out_message()
+            .inspect_err(|err| {
+                self.transition_to_failed(&err);
+            })?;
+
+        if self.pending_handshake_message.is_none() {
+            let err = anyhow!("No initial handshake message found.");
+            self.transition_to_failed(&err);
+            return Err(err);
+        }
+        self.handshake_state = HandshakeState::Initiated(0);
+        self.initiator = true;
+        Ok(())
+    }
+
     fn process_out_message(&mut self, message: OutgoingMessage) -> anyhow::Result<()> {
         match &self.handshake_state {
             HandshakeState::Unknown => {
@@ -474,23 +514,8 @@ impl CommunicationState {
                 return Err(err);
             }
             HandshakeState::Initialized => {
-                self.pending_handshake_message = self
-                    .handshake_session
-                    .as_mut()
-                    .unwrap()
-                    .take_out_message()
-                    .inspect_err(|err| {
-                        self.transition_to_failed(&err);
-                    })?;
-
-                if self.pending_handshake_message.is_none() {
-                    let err = anyhow!("No initial handshake message found.");
-                    self.transition_to_failed(&err);
-                    return Err(err);
-                }
+                self.initiate()?;
                 self.push_or_replace_unencrypted_message(message);
-                self.handshake_state = HandshakeState::Initiated(0);
-                self.initiator = true;
                 Ok(())
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
@@ -542,6 +567,7 @@ impl CommunicationState {
                             let handshake_session = self.handshake_session.take();
                             self.encryptor = handshake_session.unwrap().get_encryptor();
                             self.handshake_state = HandshakeState::Completed;
+                            self.handshake_lost = false;
                         } else if self.handshake_state == HandshakeState::Initialized {
                             self.handshake_state = HandshakeState::Initiated(0);
                         }
@@ -553,6 +579,7 @@ impl CommunicationState {
                             message
                         ));
                         self.transition_to_failed(&err);
+                        self.handshake_lost = true;
                         Err(err)
                     }
                 }
-- 
2.43.0


From 4057d9742f312042437d47565d88534d4dea265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 36/49] fix: raft messages reported as ignored are ignored

---
 runtime/src/driver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 67b84fd..27ab3b1 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,6 +359,8 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+
+                    return Ok(());
                 }
                 if message.get_from() != sender_replica_id {
                     // Ignore malformed message
@@ -366,6 +368,8 @@ impl<
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From 160590658ba08158a66e0e002953682dfca764e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 37/49] fix: follower responds to cluster check

---
 runtime/src/driver.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 27ab3b1..592ce0a 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -196,6 +196,8 @@ pub struct Driver<R: Raft, S: Store, P: SnapshotProcessor, A: Actor, C: Communic
     raft_state: RaftState,
     prev_raft_state: RaftState,
     raft_progress: RaftProgress,
+    // Whether the state of the cluster has to be sent out even if it hasn't changed.
+    cluster_check_requested: bool,
     communication: C,
     is_ephemeral: bool,
     default_clock: Arc<DefaultClock>,
@@ -246,6 +248,7 @@ impl<
             raft_state: RaftState::new(),
             prev_raft_state: RaftState::new(),
             raft_progress: RaftProgress::new(),
+            cluster_check_requested: false,
             communication,
             is_ephemeral: false,
             default_clock: Arc::new(DefaultClock {
@@ -696,10 +699,6 @@ impl<
         Ok(())
     }
 
-    fn reset_leader_state(&mut self) {
-        self.prev_raft_state = RaftState::new();
-    }
-
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
         // Do not start sending snapshots to replicas that have just been removed.
         self.snapshots
@@ -710,8 +709,16 @@ impl<
     fn stash_leader_state(&mut self) {
         self.raft_state = self.get_raft_state();
 
+        let cluster_check_requested = mem::take(&mut self.cluster_check_requested);
         if self.prev_raft_state == self.raft_state {
-            return;
+            if !cluster_check_requested {
+                return;
+            }
+            if self.raft_state == RaftState::new() {
+                // There is nothing to update if the replica is still not the leader.
+                self.stash_cluster_check();
+                return;
+            }
         }
 
         self.prev_raft_state = self.raft_state.clone();
@@ -727,6 +734,10 @@ impl<
         }
 
         // Sent out cluster check message with the update.
+        self.stash_cluster_check();
+    }
+
+    fn stash_cluster_check(&mut self) {
         self.stash_message(out_message::Msg::CheckCluster(CheckClusterResponse {
             leader_replica_id: self.raft_state.leader_replica_id,
             leader_term: self.raft_state.leader_term,
@@ -913,7 +924,7 @@ impl<
         self.check_driver_started()?;
         self.check_non_ephemeral()?;
 
-        self.reset_leader_state();
+        self.cluster_check_requested = true;
 
         Ok(())
     }
-- 
2.43.0


From 225a5ebe3539c8632e14b7bbf25320d7041e2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 38/49] fix: replica that isn't running doesn't panic or touch
 its actor

---
 runtime/src/driver.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 592ce0a..1536551 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -876,8 +876,6 @@ impl<
             return Ok(());
         }
 
-        self.actor.on_shutdown();
-
         self.driver_state = DriverState::Stopped;
 
         self.stash_message(out_message::Msg::StopReplica(StopReplicaResponse {}));
@@ -982,7 +980,9 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
+
         let message =
             self.communication
                 .process_in_message(in_message::Msg::DeliverSnapshotRequest(
@@ -1022,7 +1022,9 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
+
         let message =
             self.communication
                 .process_in_message(in_message::Msg::DeliverSnapshotResponse(
@@ -1060,7 +1062,9 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
+
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
                 deliver_snapshot_failure.sender_replica_id,
@@ -1116,6 +1120,10 @@ impl<
     }
 
     fn process_snapshot_sending(&mut self) -> Result<(), PalError> {
+        if self.driver_state != DriverState::Started {
+            return Ok(());
+        }
+
         let snapshot_messages = mem::take(&mut self.snapshots);
 
         let mut out_messages: Vec<OutgoingMessage> = Vec::new();
@@ -1322,6 +1330,7 @@ impl<
         // dispatched for processing.
         self.preset_state_machine(instant);
 
+        let was_stopped = self.driver_state == DriverState::Stopped;
         let mut deliver_app_message_opt = None;
         // Dispatch incoming message for processing.
         if let Some(deserialized_message) = opt_message {
@@ -1381,7 +1390,8 @@ impl<
             self.communication.make_tick();
         }
 
-        if !self.is_ephemeral {
+        // Raft must not make progress after the actor has been shut down.
+        if !self.is_ephemeral && !was_stopped {
             // Processes outputs from the actor to make raft proposals.
             self.process_actor_raft_proposals()?;
 
@@ -1395,6 +1405,10 @@ impl<
             self.process_snapshot_sending()?;
         }
 
+        if self.driver_state == DriverState::Stopped && !was_stopped {
+            self.actor.on_shutdown();
+        }
+
         self.stash_log_entries();
         self.stash_comms_module_entries();
 
-- 
2.43.0


From e8fe27684c9adc462182ec504c04223106321ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 39/49] fix: cluster change is rejected if replica isn't leader
 or another one is pending

---
 runtime/src/consensus.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index feeda7d..f41d750 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -324,6 +324,12 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: RaftConfigChange,
     ) -> Result<(), RaftError> {
+        // Follower would forward the change, and leader would replace it with an empty entry if
+        // there is another pending change. In both cases the change may silently be lost.
+        if !self.leader() || self.raft_node().raft.has_pending_conf() {
+            return Err(RaftError::ProposalDropped);
+        }
+
         self.mut_raft_node()
             .propose_conf_change(vec![], config_change)
     }
-- 
2.43.0


From 1168cba9c2294bd19a9669ae26a4f6a2e44e2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 40/49] fix: snapshot transfer fails if its response can't be
 decrypted

---
 runtime/src/driver.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 1536551..caf0751 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -1025,6 +1025,8 @@ impl<
         self.check_driver_started()?;
         self.check_non_ephemeral()?;
 
+        let sender_replica_id = deliver_snapshot_response.sender_replica_id;
+        let delivery_id = deliver_snapshot_response.delivery_id;
         let message =
             self.communication
                 .process_in_message(in_message::Msg::DeliverSnapshotResponse(
@@ -1032,6 +1034,16 @@ impl<
                 ))?;
 
         if message.is_none() {
+            // The response is lost, e.g. because the session with the sender has been reset. Nobody
+            // else is going to report that.
+            if let SnapshotProcessorRole::Sender(sender) = self.snapshot.mut_processor(self.instant)
+            {
+                sender.process_response(
+                    sender_replica_id,
+                    delivery_id,
+                    Err(SnapshotError::FailedDelivery),
+                );
+            }
             return Ok(());
         }
 
-- 
2.43.0


From f26473ec14b78cf23c18e1633f87c24b8e710f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 41/49] fix: replica waiting to retry handshake accepts one
 from its peer

---
 runtime/src/communication.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index b0b9934..ab6f052 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -269,6 +269,10 @@ impl CommunicationModule for DefaultCommunicationModule {
                 return Ok(None);
             }
             replica_state.reset_state_machine();
+        } else if replica_state.is_failed() && is_initiator_request(&message) {
+            // There is no need to retry once the peer does. Otherwise the attempts of one replica
+            // may always find the other one waiting to retry.
+            replica_state.reset_state_machine();
         }
 
         if !replica_state.is_initialized() {
@@ -429,6 +433,10 @@ impl CommunicationState {
         self.handshake_state != HandshakeState::Unknown
     }
 
+    fn is_failed(&self) -> bool {
+        matches!(self.handshake_state, HandshakeState::Failed(_))
+    }
+
     // Whether handshake initiated by this replica is in progress.
     fn is_initiator(&self) -> bool {
         self.initiator && matches!(self.handshake_state, HandshakeState::Initiated(_))
-- 
2.43.0


From 02b64bc68860a4568005a7d57de07f21c2dc379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 42/49] fix: replica that has seen a higher term isn't cut off
 from the leader

---
 runtime/src/driver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index caf0751..f1a4ec9 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -270,6 +270,9 @@ impl<
     ) -> Result<(), PalError> {
         let mut config = raft::Config {
             id: self.id,
+            // Otherwise a replica that has seen a higher term ignores the leader, which may never
+            // hear of that term, forever.
+            pre_vote: true,
             ..Default::default()
         };
 
-- 
2.43.0


From 384b172e876477202011f83048a5b3e2259314e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 43/49] fix: Raft message sent to another replica isn't taken

---
 runtime/src/driver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index f1a4ec9..507933e 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -377,6 +377,17 @@ impl<
 
                     return Ok(());
                 }
+                if message.get_to() != self.id {
+                    // The envelope is up to the host, and so is which replica is behind a replica
+                    // id of a session. Ignore message that has been sent to another replica
+                    warn!(
+                        self.logger,
+                        "Ignoring incorectly routed Raft message: sent to {}",
+                        message.get_to()
+                    );
+
+                    return Ok(());
+                }
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
-- 
2.43.0


From b9c098a7153592189427559c6706ca4e180ee5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 44/49] fix: application survives a client that cancels its
 request

---
 runtime/src/service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/service.rs b/runtime/src/service.rs
index 912dda8..757ab47 100644
--- a/runtime/src/service.rs
+++ b/runtime/src/service.rs
@@ -191,10 +191,11 @@ impl TonicApplicationService {
             driver
                 .receive_message(&mut host, request.instant, request.message)
                 .expect("application has encountered an unrecoverable error");
-            tx.send(Ok(ReceiveMessageResponse {
+            // Nobody waits for the response if the client has cancelled the request, that must not
+            // affect the requests of others.
+            let _ = tx.send(Ok(ReceiveMessageResponse {
                 messages: host.take_messages(),
-            }))
-            .expect("failed to send receive_message response");
+            }));
         }
     }
 
-- 
2.43.0


From cc3eb12b78ca85b549615b2a3c20c8a134e4c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 45/49] fix: decryptor answers a request that cannot be parsed

---
 apps/willow/decryptor/actor/src/actor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index e5251f0..361a775 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -402,14 +402,20 @@ impl Actor for DecryptorActor {
         }
         let command = command.unwrap();
 
-        let decryptor_request =
-            DecryptorRequest::decode(command.header.clone()).map_err(|error| {
+        let decryptor_request = match DecryptorRequest::decode(command.header.clone()) {
+            Ok(decryptor_request) => decryptor_request,
+            Err(error) => {
                 warn!(
                     self.get_context().logger(),
                     "DecryptorActor: request cannot be parsed: {}", error
                 );
-                ActorError::Internal
-            })?;
+                return self.command_err(
+                    command.correlation_id,
+                    StatusCode::InvalidArgument as i32,
+                    format!("DecryptorActor: request cannot be parsed: {}", error),
+                );
+            }
+        };
 
         debug!(
             self.get_context().logger(),
-- 
2.43.0


From e022ba65c7a9d3153649599bdad68e8a6217a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 46/49] fix: decryptor answers a malformed decryption request

---
 apps/willow/decryptor/actor/src/actor.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 361a775..19322d0 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -301,11 +301,15 @@ impl DecryptorActor {
         let decryptor_state =
             DecryptorState::from_proto(decryptor_state_proto, &decryptor).unwrap();
 
-        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes).unwrap();
-        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor).unwrap();
-
-        let partial_decryption =
-            decryptor.handle_partial_decryption_request(request, &decryptor_state).unwrap();
+        // The request comes from the client and may be anything.
+        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes)
+            .map_err(|error| invalid_decryption_request(format!("{:?}", error)))?;
+        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor)
+            .map_err(|error| invalid_decryption_request(format!("{:?}", error)))?;
+
+        let partial_decryption = decryptor
+            .handle_partial_decryption_request(request, &decryptor_state)
+            .map_err(|error| invalid_decryption_request(format!("{:?}", error)))?;
         let partial_decryption_proto = partial_decryption.to_proto(&decryptor).unwrap();
 
         return Ok(partial_decryption_proto.serialize().unwrap().into());
@@ -508,6 +512,13 @@ impl Actor for DecryptorActor {
     }
 }
 
+fn invalid_decryption_request(error: String) -> Status {
+    Status {
+        code: StatusCode::InvalidArgument as i32,
+        message: format!("Decryption request cannot be handled: {}", error),
+    }
+}
+
 fn request_name(request: &DecryptorRequest) -> &'static str {
     match request.msg {
         Some(decryptor_request::Msg::GenerateKey(_)) => "GenerateKey",
-- 
2.43.0


From 10c36855496e919d72a9534e22812bbd7d1f3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 47/49] fix: decryptor keeps a key pair that is generated twice
 at once

---
 apps/willow/decryptor/actor/src/actor.rs | 50 +++++++++++++-----------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 19322d0..5b1a410 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -201,32 +201,38 @@ impl DecryptorActor {
         correlation_id: u64,
         generate_key_event: GenerateKeyEvent,
     ) -> Result<EventOutcome, ActorError> {
-        let public_key_share: Bytes = generate_key_event.public_key_share.into();
+        let mut public_key_share: Bytes = generate_key_event.public_key_share.into();
         let decryptor_state: Bytes = generate_key_event.private_key_share.into();
         let sequential_order: i32 = generate_key_event.sequential_order;
 
-        // If the number of key pairs has reached the maximum, remove the oldest one
-        // (the one with the smallest sequential order) to make room for the new
-        // key pair. This is done here instead of in the command processing
-        // function to ensure that the key pair is removed from all replicas.
-        if (self.key_pairs.len() as i32) == MAX_NUMBER_OF_KEY_PAIRS {
-            let key_to_remove = self
-                .key_pairs
-                .iter()
-                .min_by_key(|(_, kp)| kp.sequential_order)
-                .map(|(key, _)| key.clone());
-
-            key_to_remove.and_then(|k| self.key_pairs.remove(&k));
-        }
+        // The key may have been generated by another command in the meantime. Its
+        // public key share may already be in use, so that it isn't replaced.
+        if let Some(key_pair) = self.key_pairs.get(&generate_key_event.key_id) {
+            public_key_share = key_pair.public_key_share.clone();
+        } else {
+            // If the number of key pairs has reached the maximum, remove the oldest one
+            // (the one with the smallest sequential order) to make room for the new
+            // key pair. This is done here instead of in the command processing
+            // function to ensure that the key pair is removed from all replicas.
+            if (self.key_pairs.len() as i32) == MAX_NUMBER_OF_KEY_PAIRS {
+                let key_to_remove = self
+                    .key_pairs
+                    .iter()
+                    .min_by_key(|(_, kp)| kp.sequential_order)
+                    .map(|(key, _)| key.clone());
+
+                key_to_remove.and_then(|k| self.key_pairs.remove(&k));
+            }
 
-        self.key_pairs.insert(
-            generate_key_event.key_id.clone().into(),
-            KeyPair {
-                public_key_share: public_key_share.clone(),
-                decryptor_state: decryptor_state,
-                sequential_order: sequential_order,
-            },
-        );
+            self.key_pairs.insert(
+                generate_key_event.key_id.clone().into(),
+                KeyPair {
+                    public_key_share: public_key_share.clone(),
+                    decryptor_state: decryptor_state,
+                    sequential_order: sequential_order,
+                },
+            );
+        }
 
         if context.owned {
             let mut key = KeyProto::default();
-- 
2.43.0


From 4afa2a888c88ef6848440dce20255ddff6afc664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:31 +0000
Subject: [PATCH 48/49] fix: decryptor uses a key pair for one decryption only

---
 .../actor/proto/willow_decryptor.proto        |  2 ++
 apps/willow/decryptor/actor/src/actor.rs      | 27 ++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/apps/willow/decryptor/actor/proto/willow_decryptor.proto b/apps/willow/decryptor/actor/proto/willow_decryptor.proto
index e3fb9d1..28bfd28 100644
--- a/apps/willow/decryptor/actor/proto/willow_decryptor.proto
+++ b/apps/willow/decryptor/actor/proto/willow_decryptor.proto
@@ -36,6 +36,8 @@ message GenerateKeyEvent {
 message DecryptEvent {
   bytes key_id = 1;
   bytes decryption_response = 2;
+  // Public key share of the key pair that was used.
+  bytes public_key_share = 3;
 }
 
 // Data snapshot for TEE decryptors
diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 5b1a410..5dac8d4 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -164,15 +164,14 @@ impl DecryptorActor {
         let key_pair = self.get_key_pair(&key_id);
 
         if key_pair == None {
-            let escaped_key_id =
-                key_id.iter().map(|&b| format!("\\x{:02x}", b)).collect::<String>();
             return self.command_err(
                 correlation_id,
                 StatusCode::FailedPrecondition as i32,
-                format!("Key pair not found for given key id: {}", escaped_key_id),
+                key_pair_not_found(&key_id),
             );
         }
 
+        let public_key_share = key_pair.unwrap().public_key_share.to_vec();
         let decryptor_state = &key_pair.unwrap().decryptor_state.to_vec();
         let decryption_response =
             self.decrypt(key_id.clone().into(), request.into(), decryptor_state.clone().into());
@@ -185,6 +184,7 @@ impl DecryptorActor {
                         event: Some(decryptor_event::Event::DecryptEvent(DecryptEvent {
                             key_id: key_id.into(),
                             decryption_response: response.to_vec(),
+                            public_key_share,
                         })),
                     },
                 )));
@@ -257,7 +257,21 @@ impl DecryptorActor {
         correlation_id: u64,
         decrypt_event: DecryptEvent,
     ) -> Result<EventOutcome, ActorError> {
-        self.key_pairs.remove(&decrypt_event.key_id[..]);
+        // A key pair must be used only once. It may have been used by another command
+        // in the meantime, in which case the decryption must not be released.
+        match self.get_key_pair(&decrypt_event.key_id) {
+            Some(key_pair) if key_pair.public_key_share == decrypt_event.public_key_share => {
+                self.key_pairs.remove(&decrypt_event.key_id[..]);
+            }
+            _ if context.owned => {
+                return self.event_err(
+                    correlation_id,
+                    StatusCode::FailedPrecondition as i32,
+                    key_pair_not_found(&decrypt_event.key_id),
+                );
+            }
+            _ => return Ok(EventOutcome::with_none()),
+        }
 
         if context.owned {
             return Ok(EventOutcome::with_command(ActorCommand::with_header(
@@ -518,6 +532,11 @@ impl Actor for DecryptorActor {
     }
 }
 
+fn key_pair_not_found(key_id: &[u8]) -> String {
+    let escaped_key_id = key_id.iter().map(|&b| format!("\\x{:02x}", b)).collect::<String>();
+    format!("Key pair not found for given key id: {}", escaped_key_id)
+}
+
 fn invalid_decryption_request(error: String) -> Status {
     Status {
         code: StatusCode::InvalidArgument as i32,
-- 
2.43.0


From 918f53375ed9ff7334ec4dd34aec0253b2fe5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 49/49] fix: metadata cache forgets resolve requests that are
 done

---
 .../service/src/transaction/metadata.rs           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index e8df55b..ace95a9 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -131,8 +131,11 @@ impl DefaultTabletMetadataCache {
             notification,
             &mut self.tables,
         );
-        self.resolve_requests
-            .insert(self.resolve_request_counter, resolve_request);
+        // Only keep track of the resolve request if it waits for list responses.
+        if resolve_request.has_pending_queries() {
+            self.resolve_requests
+                .insert(self.resolve_request_counter, resolve_request);
+        }
     }
 }
 
@@ -235,6 +238,10 @@ impl TabletMetadataCache for DefaultTabletMetadataCache {
                                         table_region_idx,
                                         table_metadata,
                                     );
+                                    // Resolve request is done once nothing is pending.
+                                    if !resolve_request.has_pending_queries() {
+                                        self.resolve_requests.remove(&resolve_request_id);
+                                    }
                                 }
                             }
                         }
@@ -612,6 +619,10 @@ impl TabletResolve {
         tablet_resolve
     }
 
+    fn has_pending_queries(&self) -> bool {
+        !self.pending_table_queries.is_empty()
+    }
+
     fn append_results(&mut self, table_query_result: Vec<(TableQuery, TabletMetadata)>) {
         for (table_query, tablet_metadata) in table_query_result {
             let result = self
-- 
2.43.0

