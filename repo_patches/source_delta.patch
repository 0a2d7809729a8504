From 02f365967bebba01260b685d700707d85786367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:15 +0000
Subject: [PATCH 01/21] Expose the ephemeral store to verification builds (cfg
 trin_verif)

---
 crates/storage/src/versioned/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/storage/src/versioned/mod.rs b/crates/storage/src/versioned/mod.rs
index bfb8ac3..f3094a6 100644
--- a/crates/storage/src/versioned/mod.rs
+++ b/crates/storage/src/versioned/mod.rs
@@ -5,6 +5,8 @@ pub mod store;
 mod usage_stats;
 mod utils;
 
+#[cfg(trin_verif)]
+pub use ephemeral_v1::{EphemeralV1Store, EphemeralV1StoreConfig};
 pub use id_indexed_v1::{IdIndexedV1Store, IdIndexedV1StoreConfig};
 use rusqlite::types::{FromSql, FromSqlError, ValueRef};
 pub use store::VersionedContentStore;
-- 
2.43.0


From de8a799303724e73a04c746aec610efa7aab9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:22 +0000
Subject: [PATCH 02/21] fix: count stored content only once when it is inserted
 again

Inserting content that is already stored leaves the database unchanged, but
the usage figures grew anyway. The store then pruned content although it was
below its capacity, and content removed in that state was not handed back.
---
 crates/storage/src/versioned/ephemeral_v1/store.rs  | 9 ++++++---
 crates/storage/src/versioned/id_indexed_v1/store.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/storage/src/versioned/ephemeral_v1/store.rs b/crates/storage/src/versioned/ephemeral_v1/store.rs
index 75a0921..ef76e73 100644
--- a/crates/storage/src/versioned/ephemeral_v1/store.rs
+++ b/crates/storage/src/versioned/ephemeral_v1/store.rs
@@ -155,7 +155,7 @@ impl<TContentKey: OverlayContentKey> EphemeralV1Store<TContentKey> {
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted_count = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -168,8 +168,11 @@ impl<TContentKey: OverlayContentKey> EphemeralV1Store<TContentKey> {
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
-        self.usage_stats.report_metrics(&self.metrics);
+        // Content that is already stored is left as it is.
+        if inserted_count > 0 {
+            self.usage_stats.on_store(content_size);
+            self.usage_stats.report_metrics(&self.metrics);
+        }
 
         Ok(())
     }
diff --git a/crates/storage/src/versioned/id_indexed_v1/store.rs b/crates/storage/src/versioned/id_indexed_v1/store.rs
index f848597..0419851 100644
--- a/crates/storage/src/versioned/id_indexed_v1/store.rs
+++ b/crates/storage/src/versioned/id_indexed_v1/store.rs
@@ -268,7 +268,7 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted_count = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -280,8 +280,11 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
-        self.usage_stats.report_metrics(&self.metrics);
+        // Content that is already stored is left as it is.
+        if inserted_count > 0 {
+            self.usage_stats.on_store(content_size);
+            self.usage_stats.report_metrics(&self.metrics);
+        }
 
         let dropped_content = if self.pruning_strategy.should_prune(&self.usage_stats) {
             self.prune()?
-- 
2.43.0


From 1f40e1f83dd2b192a7f6eff4502d0a103e223c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:17 +0000
Subject: [PATCH 03/21] fix: let late peers of a lookup give up their place

A lookup at capacity whose waiting peers are all farther from the target
than a peer it has not contacted yet never noticed their timeouts, so it
made no progress until its overall timeout.
---
 crates/portalnet/src/find/iterators/findcontent.rs | 9 +++++++++
 crates/portalnet/src/find/iterators/findnodes.rs   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/portalnet/src/find/iterators/findcontent.rs b/crates/portalnet/src/find/iterators/findcontent.rs
index dd311ff..451c1cd 100644
--- a/crates/portalnet/src/find/iterators/findcontent.rs
+++ b/crates/portalnet/src/find/iterators/findcontent.rs
@@ -296,6 +296,15 @@ where
             return QueryState::Validating(peer);
         }
 
+        // Peers that are past their timeout give up their place first. Otherwise a peer that is not
+        // contacted yet would end the iteration below before farther peers can time out.
+        for peer in self.closest_peers.values_mut() {
+            if matches!(peer.state(), QueryPeerState::Waiting(timeout) if now >= *timeout) {
+                self.num_waiting -= 1;
+                peer.set_state(QueryPeerState::Unresponsive);
+            }
+        }
+
         // Check if the query is at capacity w.r.t. the allowed parallelism.
         let at_capacity = self.at_capacity();
 
diff --git a/crates/portalnet/src/find/iterators/findnodes.rs b/crates/portalnet/src/find/iterators/findnodes.rs
index 4053fc2..510040f 100644
--- a/crates/portalnet/src/find/iterators/findnodes.rs
+++ b/crates/portalnet/src/find/iterators/findnodes.rs
@@ -189,6 +189,15 @@ where
         // peers to contact, see `active_counter`).
         let mut result_counter = Some(0);
 
+        // Peers that are past their timeout give up their place first. Otherwise a peer that is not
+        // contacted yet would end the iteration below before farther peers can time out.
+        for peer in self.closest_peers.values_mut() {
+            if matches!(peer.state(), QueryPeerState::Waiting(timeout) if now >= *timeout) {
+                self.num_waiting -= 1;
+                peer.set_state(QueryPeerState::Unresponsive);
+            }
+        }
+
         // Check if the query is at capacity w.r.t. the allowed parallelism.
         let at_capacity = self.at_capacity();
 
-- 
2.43.0


From a8fee4c33b6698254b9d92796fdc5cbc636f0d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:05 +0000
Subject: [PATCH 04/21] fix: split ranges that reach the last epoch without
 overflow

---
 bin/portal-bridge/src/types/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/portal-bridge/src/types/range.rs b/bin/portal-bridge/src/types/range.rs
index bd279d6..9620601 100644
--- a/bin/portal-bridge/src/types/range.rs
+++ b/bin/portal-bridge/src/types/range.rs
@@ -23,7 +23,7 @@ pub fn block_range_to_epochs(start_block: u64, end_block: u64) -> HashMap<u64, O
     for epoch in start_epoch..=end_epoch {
         // Calculate the first and last block of the current epoch
         let epoch_first_block = epoch * SLOTS_PER_HISTORICAL_ROOT;
-        let epoch_last_block = epoch_first_block + SLOTS_PER_HISTORICAL_ROOT - 1;
+        let epoch_last_block = epoch_first_block + (SLOTS_PER_HISTORICAL_ROOT - 1);
 
         // Determine if the epoch is fully or partially covered
         if epoch_first_block >= start_block && epoch_last_block <= end_block {
-- 
2.43.0


From 4aeefecbc8abf137f27862e94d23da8906f3e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:29:38 +0000
Subject: [PATCH 05/21] fix: refuse a malformed bridge range instead of
 panicking

Numbers that do not parse, and arguments that start with a multi-byte
character, ended the program.
---
 bin/portal-bridge/src/types/mode.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bin/portal-bridge/src/types/mode.rs b/bin/portal-bridge/src/types/mode.rs
index 4c8dc49..c33630d 100644
--- a/bin/portal-bridge/src/types/mode.rs
+++ b/bin/portal-bridge/src/types/mode.rs
@@ -60,16 +60,15 @@ impl FromStr for ModeType {
         if s.is_empty() {
             return Err("Invalid bridge mode arg: empty string".to_string());
         }
-        match &s[..1] {
-            "r" => {
-                let range_vec = s[1..]
+        match s.strip_prefix('r') {
+            Some(range) => {
+                let range_vec = range
                     .split('-')
-                    .map(|range_input| {
-                        range_input.parse().expect(
-                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)",
-                        )
-                    })
-                    .collect::<Vec<u64>>();
+                    .map(|range_input| range_input.parse::<u64>())
+                    .collect::<Result<Vec<u64>, _>>()
+                    .map_err(|_| {
+                        "Invalid bridge mode arg: expected single:rX-Y (eg. single:r10-100)"
+                    })?;
 
                 if range_vec.len() != 2 {
                     return Err("Invalid bridge mode arg: expected 2 numbers in range".to_string());
@@ -86,7 +85,7 @@ impl FromStr for ModeType {
 
                 Ok(ModeType::BlockRange(start_block, end_block))
             }
-            _ => Err("Invalid bridge mode arg: type prefix".to_string()),
+            None => Err("Invalid bridge mode arg: type prefix".to_string()),
         }
     }
 }
-- 
2.43.0


From c039b51ff627fc99d358c7df6806c71fdf718df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:20:20 +0000
Subject: [PATCH 06/21] fix: free an offered key that the radius does not apply
 to when its transfer fails

A failed transfer removes its keys from the list of running transfers, so
that they can be offered again.  Keys that are not affected by the radius
skipped this step and were declined as being in progress until the entry
expired.
---
 crates/portalnet/src/overlay/service/offer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/portalnet/src/overlay/service/offer.rs b/crates/portalnet/src/overlay/service/offer.rs
index 0eab081..7a6d0d0 100644
--- a/crates/portalnet/src/overlay/service/offer.rs
+++ b/crates/portalnet/src/overlay/service/offer.rs
@@ -445,6 +445,11 @@ impl<
                 content_key = content_key.to_hex(),
                 "Not using fallback logic, content not affected by radius"
             );
+            // The transfer is over, so the content can be accepted again.
+            utp_processing
+                .accept_queue
+                .write()
+                .remove_key(&content_key);
             return Ok(());
         }
 
-- 
2.43.0


From faca0f4609b2bcc8f7837fbf6961b74a1d2deb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:19:31 +0000
Subject: [PATCH 07/21] fix: refuse a block proof whose slot lies beyond the
 historical roots

---
 crates/validation/src/header_validator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/validation/src/header_validator.rs b/crates/validation/src/header_validator.rs
index c1dc9c9..a27fb02 100644
--- a/crates/validation/src/header_validator.rs
+++ b/crates/validation/src/header_validator.rs
@@ -308,15 +308,20 @@ impl HeaderValidator {
         let block_root_index = slot % SLOTS_PER_HISTORICAL_ROOT;
         let gen_index = 2 * SLOTS_PER_HISTORICAL_ROOT + block_root_index;
         let historical_root_index = slot / SLOTS_PER_HISTORICAL_ROOT;
-        let historical_root =
-            self.historical_roots_acc.historical_roots[historical_root_index as usize];
+        let Some(historical_root) = self
+            .historical_roots_acc
+            .historical_roots
+            .get(historical_root_index as usize)
+        else {
+            return false;
+        };
 
         verify_merkle_proof(
             beacon_block_root,
             beacon_block_proof,
             14,
             gen_index as usize,
-            historical_root,
+            *historical_root,
         )
     }
 
-- 
2.43.0


From 0ee8ff150d480c42325401e31dcde97fcf466c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:47:56 +0000
Subject: [PATCH 08/21] fix: reject beacon values shorter than a fork digest
 instead of panicking

---
 .../src/types/content_value/beacon.rs         | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/ethportal-api/src/types/content_value/beacon.rs b/crates/ethportal-api/src/types/content_value/beacon.rs
index d85941a..4aad133 100644
--- a/crates/ethportal-api/src/types/content_value/beacon.rs
+++ b/crates/ethportal-api/src/types/content_value/beacon.rs
@@ -65,9 +65,10 @@ impl ForkVersionedLightClientBootstrap {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&bytes[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest =
+            ForkDigest::try_from(bytes.get(0..4).unwrap_or_default()).map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
         })?;
@@ -145,9 +146,10 @@ impl ForkVersionedLightClientUpdate {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&bytes[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest =
+            ForkDigest::try_from(bytes.get(0..4).unwrap_or_default()).map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
         })?;
@@ -287,9 +289,10 @@ impl ForkVersionedLightClientOptimisticUpdate {
     }
 
     fn decode(buf: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&buf[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest =
+            ForkDigest::try_from(buf.get(0..4).unwrap_or_default()).map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
 
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
@@ -367,9 +370,10 @@ impl ForkVersionedLightClientFinalityUpdate {
     }
 
     fn decode(buf: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&buf[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest =
+            ForkDigest::try_from(buf.get(0..4).unwrap_or_default()).map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
 
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
-- 
2.43.0


From c385cf5134bfb399369731b5b6a4a37456ba6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:47:56 +0000
Subject: [PATCH 09/21] fix: never serve or scan a range of light client
 updates that no value can cover

---
 crates/subnetworks/beacon/src/storage.rs | 36 ++++++++++++++++++------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/crates/subnetworks/beacon/src/storage.rs b/crates/subnetworks/beacon/src/storage.rs
index c891e58..fde847d 100644
--- a/crates/subnetworks/beacon/src/storage.rs
+++ b/crates/subnetworks/beacon/src/storage.rs
@@ -1,4 +1,4 @@
-use std::{path::PathBuf, time::Duration};
+use std::{ops::Range, path::PathBuf, time::Duration};
 
 use alloy::primitives::B256;
 use ethportal_api::{
@@ -13,14 +13,17 @@ use ethportal_api::{
         network::Subnetwork,
         portal::PaginateLocalContentInfo,
     },
-    BeaconContentKey, OverlayContentKey, RawContentValue,
+    BeaconContentKey, LightClientUpdatesByRangeKey, OverlayContentKey, RawContentValue,
 };
 use light_client::consensus::rpc::portal_rpc::expected_current_slot;
 use r2d2::Pool;
 use r2d2_sqlite::{rusqlite, SqliteConnectionManager};
 use rusqlite::{params, OptionalExtension};
 use ssz::{Decode, Encode};
-use ssz_types::{typenum::U128, VariableList};
+use ssz_types::{
+    typenum::{Unsigned, U128},
+    VariableList,
+};
 use tracing::{debug, error, info};
 use tree_hash::TreeHash;
 use trin_metrics::storage::StorageMetricsReporter;
@@ -133,8 +136,9 @@ impl ContentStore for BeaconStorage {
                     ))
                 }),
             BeaconContentKey::LightClientUpdatesByRange(content_key) => {
-                let periods =
-                    content_key.start_period..(content_key.start_period + content_key.count);
+                let Some(periods) = update_periods(content_key) else {
+                    return Ok(None);
+                };
 
                 let mut content: Vec<ForkVersionedLightClientUpdate> = Vec::new();
 
@@ -218,8 +222,11 @@ impl ContentStore for BeaconStorage {
             BeaconContentKey::LightClientUpdatesByRange(content_key) => {
                 // Check if any of the periods are available, return AlreadyStored if so otherwise
                 // Store
-                let periods =
-                    content_key.start_period..(content_key.start_period + content_key.count);
+                let Some(periods) = update_periods(content_key) else {
+                    return Err(ContentStoreError::InvalidData {
+                        message: format!("Invalid range of periods: {content_key:?}"),
+                    });
+                };
 
                 for period in periods {
                     let is_period_available = self
@@ -473,7 +480,11 @@ impl BeaconStorage {
             BeaconContentKey::LightClientUpdatesByRange(update) => {
                 // Build a range of values starting with update.start_period and len
                 // update.count
-                let periods = update.start_period..(update.start_period + update.count);
+                let Some(periods) = update_periods(update) else {
+                    return Err(ContentStoreError::InvalidData {
+                        message: format!("Invalid range of periods: {update:?}"),
+                    });
+                };
                 let update_values =
                     LightClientUpdatesByRange::from_ssz_bytes(value).map_err(|err| {
                         ContentStoreError::InvalidData {
@@ -721,6 +732,15 @@ impl BeaconStorage {
     }
 }
 
+/// Returns the periods of the content key, or `None` if no content value can cover them.
+fn update_periods(content_key: &LightClientUpdatesByRangeKey) -> Option<Range<u64>> {
+    if content_key.count > U128::to_u64() {
+        return None;
+    }
+    let end_period = content_key.start_period.checked_add(content_key.count)?;
+    Some(content_key.start_period..end_period)
+}
+
 /// Prune old bootstrap data from the database
 fn prune_old_bootstrap_data(
     sql_connection_pool: &Pool<SqliteConnectionManager>,
-- 
2.43.0


From 74ef73e05b71ec0d67eacc1fc92d2378cab5796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:47:56 +0000
Subject: [PATCH 10/21] fix: compare light client bootstraps and updates with
 every field of their key

---
 crates/light-client/src/consensus/mod.rs    |  1 +
 crates/subnetworks/beacon/src/validation.rs | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/light-client/src/consensus/mod.rs b/crates/light-client/src/consensus/mod.rs
index 021d1b4..472de5d 100644
--- a/crates/light-client/src/consensus/mod.rs
+++ b/crates/light-client/src/consensus/mod.rs
@@ -7,3 +7,4 @@ pub use crate::consensus::consensus_client::*;
 
 mod constants;
 mod utils;
+pub use crate::consensus::utils::calc_sync_period;
diff --git a/crates/subnetworks/beacon/src/validation.rs b/crates/subnetworks/beacon/src/validation.rs
index cc5a8c9..97ec3d5 100644
--- a/crates/subnetworks/beacon/src/validation.rs
+++ b/crates/subnetworks/beacon/src/validation.rs
@@ -27,7 +27,8 @@ use ethportal_api::{
 use light_client::{
     config::{BaseConfig, Network},
     consensus::{
-        rpc::portal_rpc::expected_current_slot, types::GenericUpdate, verify_generic_update,
+        calc_sync_period, rpc::portal_rpc::expected_current_slot, types::GenericUpdate,
+        verify_generic_update,
     },
 };
 use ssz::Decode;
@@ -62,7 +63,7 @@ impl Validator<BeaconContentKey> for BeaconValidator {
         content_value: &[u8],
     ) -> ValidationResult {
         match content_key {
-            BeaconContentKey::LightClientBootstrap(_) => {
+            BeaconContentKey::LightClientBootstrap(key) => {
                 let Ok(bootstrap) =
                     ForkVersionedLightClientBootstrap::from_ssz_bytes(content_value)
                 else {
@@ -97,6 +98,12 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                             "Light client bootstrap header does not match the finalized header: {finalized_header:?} != {bootstrap_block_header:?}",
                         ));
                     }
+
+                    if bootstrap_block_header.tree_hash_root() != key.block_hash {
+                        return ValidationResult::Invalid(format!(
+                            "Light client bootstrap header does not match the content key block hash: {bootstrap_block_header:?}",
+                        ));
+                    }
                 }
             }
             BeaconContentKey::LightClientUpdatesByRange(key) => {
@@ -128,7 +135,7 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                     .await
                 {
                     let expected_slot = expected_current_slot();
-                    for update in lc_updates.0.iter() {
+                    for (index, update) in lc_updates.0.iter().enumerate() {
                         match &update.update {
                             LightClientUpdate::Electra(update) => {
                                 let generic_update: GenericUpdate = update.into();
@@ -143,6 +150,14 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                                         "Light client update not valid: {err:?}",
                                     ));
                                 }
+
+                                let period = calc_sync_period(update.attested_header.beacon.slot);
+                                if period.checked_sub(key.start_period) != Some(index as u64) {
+                                    return ValidationResult::Invalid(format!(
+                                        "Light client update period does not match the content key: {period} at position {index} from {}",
+                                        key.start_period
+                                    ));
+                                }
                             }
                             _ => {
                                 return ValidationResult::Invalid(
-- 
2.43.0


From 242c7b1c91083217ce46284c7713a01ac3cf8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:33:45 +0000
Subject: [PATCH 11/21] fix: count an unexpected pong as a failed liveness
 check

The peer was neither recorded as failed nor put back in the queue, so it
stayed in the census and was never checked again.
---
 bin/portal-bridge/src/census/network.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/portal-bridge/src/census/network.rs b/bin/portal-bridge/src/census/network.rs
index abaa9b0..742e8e4 100644
--- a/bin/portal-bridge/src/census/network.rs
+++ b/bin/portal-bridge/src/census/network.rs
@@ -263,6 +263,7 @@ impl Network {
                     subnetwork = %self.subnetwork,
                     "liveness_check: received unexpected ping extension: {}", pong_info.payload_type,
                 );
+                self.peers.record_failed_liveness_check(enr);
                 return LivenessResult::Fail;
             }
         };
-- 
2.43.0


From b434af934ee257b885528b1a41b4d5ce4edff33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:33:45 +0000
Subject: [PATCH 12/21] fix: end census initialization when no peer is found

With no known and no new peers the loop condition compared zero with zero
and never ended. A subnetwork without reachable peers stopped the liveness
checks of all other subnetworks, and the error for this case was never
returned.
---
 bin/portal-bridge/src/census/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/portal-bridge/src/census/network.rs b/bin/portal-bridge/src/census/network.rs
index 742e8e4..1395dd9 100644
--- a/bin/portal-bridge/src/census/network.rs
+++ b/bin/portal-bridge/src/census/network.rs
@@ -213,7 +213,7 @@ impl Network {
             );
 
             // Stop if number of new peers is less than a threshold fraction of all peers
-            if new_peers < ending_peers * config.stop_fraction_threshold {
+            if new_peers <= ending_peers * config.stop_fraction_threshold {
                 break;
             }
         }
-- 
2.43.0


From 538331ad52d4aca3c8c6598c37e5de055ae04b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:40:19 +0000
Subject: [PATCH 13/21] fix: refuse cut-off e2store data instead of panicking

Reading an archive in memory indexed past the end of a file that stopped
within the header of an entry, and the sum of length and header size could
overflow. Both are now reported as errors.
---
 crates/e2store/src/e2store/memory.rs | 19 +++++++++++--------
 crates/e2store/src/e2store/types.rs  |  5 +++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/e2store/src/e2store/memory.rs b/crates/e2store/src/e2store/memory.rs
index 5eca438..51dd211 100644
--- a/crates/e2store/src/e2store/memory.rs
+++ b/crates/e2store/src/e2store/memory.rs
@@ -42,13 +42,16 @@ impl E2StoreMemory {
         let mut entries = Vec::new();
         let mut offset = 0;
         while offset < bytes.len() {
-            let entry_length = u32::from_le_bytes([
-                bytes[offset + 2],
-                bytes[offset + 3],
-                bytes[offset + 4],
-                bytes[offset + 5],
-            ]) + Header::SERIALIZED_SIZE as u32;
-            let terminating_entry_index = offset + entry_length as usize;
+            let header_end = offset + Header::SERIALIZED_SIZE as usize;
+            if bytes.len() < header_end {
+                return Err(anyhow!(
+                    "invalid buf length: {} - expected at least {}",
+                    bytes.len(),
+                    header_end
+                ));
+            }
+            let header = Header::deserialize(&bytes[offset..header_end])?;
+            let terminating_entry_index = header_end + header.length as usize;
             if bytes.len() < terminating_entry_index {
                 return Err(anyhow!(
                     "invalid buf length: {} - expected {}",
@@ -57,7 +60,7 @@ impl E2StoreMemory {
                 ));
             }
             let entry = Entry::deserialize(&bytes[offset..terminating_entry_index])?;
-            offset += entry_length as usize;
+            offset = terminating_entry_index;
             entries.push(entry);
         }
         Ok(Self { entries })
diff --git a/crates/e2store/src/e2store/types.rs b/crates/e2store/src/e2store/types.rs
index b41becd..c3914a8 100644
--- a/crates/e2store/src/e2store/types.rs
+++ b/crates/e2store/src/e2store/types.rs
@@ -57,6 +57,11 @@ impl Entry {
 
     /// Deserialize from a byte slice.
     pub fn deserialize(bytes: &[u8]) -> anyhow::Result<Self> {
+        ensure!(
+            bytes.len() >= Header::SERIALIZED_SIZE as usize,
+            "found invalid buf length for entry: {} - too short for a header",
+            bytes.len()
+        );
         let header = Header::deserialize(&bytes[0..8])?;
         if header.length as usize + Header::SERIALIZED_SIZE as usize != bytes.len() {
             return Err(anyhow!(
-- 
2.43.0


From b6f6a382febae1ef87e8cc5dedd30bb2b0e01e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:42 +0000
Subject: [PATCH 14/21] Expose the routing table to verification builds (cfg
 trin_verif)

---
 crates/portalnet/src/overlay/protocol.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index 7d1f1ad..34ecf90 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -262,6 +262,12 @@ impl<
         self.kbuckets.enrs()
     }
 
+    /// Gives verification builds a view of the routing table.
+    #[cfg(trin_verif)]
+    pub fn kbuckets(&self) -> &SharedKBucketsTable {
+        &self.kbuckets
+    }
+
     /// Returns the node-id and a nested array of node-ids to represent this node's k-buckets table.
     pub fn routing_table_info(&self) -> RoutingTableInfo {
         RoutingTableInfo {
-- 
2.43.0


From d223073073c4fecb10070f85d3863a186d43ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:24 +0000
Subject: [PATCH 15/21] fix: refuse ping and pong messages whose payload is too
 long

A payload of more than 1100 bytes was cut off without notice when a ping or
pong was decoded, so the receiver handled a message nobody had sent.
Such a message is now refused like any other malformed one.
---
 crates/ethportal-api/src/types/portal_wire.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ethportal-api/src/types/portal_wire.rs b/crates/ethportal-api/src/types/portal_wire.rs
index d4b484f..f0f8e58 100644
--- a/crates/ethportal-api/src/types/portal_wire.rs
+++ b/crates/ethportal-api/src/types/portal_wire.rs
@@ -107,7 +107,7 @@ impl ssz::Decode for CustomPayload {
 
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         Ok(Self {
-            payload: ByteList1100::from(bytes.to_vec()),
+            payload: ByteList1100::from_ssz_bytes(bytes)?,
         })
     }
 }
-- 
2.43.0


From 6ed0770e1952cc3f007b68e3f8eceb890f033134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:29 +0000
Subject: [PATCH 16/21] fix: refuse headers, bodies and receipts followed by
 other bytes

Bytes after an encoded header, transaction, list of uncles, withdrawal or
receipt were ignored.  Content with anything appended to its items was
therefore accepted, stored and passed on as if it were the block's own.
Decoding now fails when bytes are left over.
---
 .../src/types/execution/block_body.rs         | 29 ++++++++++++++-----
 .../src/types/execution/receipts.rs           | 22 +++++++++-----
 .../src/types/execution/ssz_header.rs         | 11 +++++--
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/crates/ethportal-api/src/types/execution/block_body.rs b/crates/ethportal-api/src/types/execution/block_body.rs
index 142e695..ca2c33b 100644
--- a/crates/ethportal-api/src/types/execution/block_body.rs
+++ b/crates/ethportal-api/src/types/execution/block_body.rs
@@ -125,14 +125,14 @@ impl BlockBody {
         let ommers: Vec<u8> = decoder.decode_next()?;
         let transactions: Vec<TxEnvelope> = transactions
             .iter()
-            .map(|bytes| TxEnvelope::decode_2718(&mut bytes.as_slice()))
-            .collect::<Result<Vec<TxEnvelope>, _>>()
+            .map(|bytes| decode_all(bytes, |buf| TxEnvelope::decode_2718(buf)))
+            .collect::<anyhow::Result<Vec<TxEnvelope>>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
                     "Legacy block body contains invalid txs: {e:?}",
                 ))
             })?;
-        let ommers: Vec<Header> = Decodable::decode(&mut ommers.as_slice()).map_err(|e| {
+        let ommers: Vec<Header> = decode_all(&ommers, Decodable::decode).map_err(|e| {
             ssz::DecodeError::BytesInvalid(format!("Legacy block body contains invalid txs: {e:?}"))
         })?;
         Ok(Self(AlloyBlockBody {
@@ -174,15 +174,15 @@ impl BlockBody {
         let withdrawals: Vec<Vec<u8>> = decoder.decode_next()?;
         let transactions: Vec<TxEnvelope> = transactions
             .iter()
-            .map(|bytes| TxEnvelope::decode_2718(&mut bytes.as_slice()))
-            .collect::<Result<Vec<TxEnvelope>, _>>()
+            .map(|bytes| decode_all(bytes, |buf| TxEnvelope::decode_2718(buf)))
+            .collect::<anyhow::Result<Vec<TxEnvelope>>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
                     "Shanghai block body contains invalid transactions: {e:?}",
                 ))
             })?;
         // shanghai block bodies are expected to have empty uncles
-        let ommers: Vec<Header> = Decodable::decode(&mut ommers.as_slice()).map_err(|e| {
+        let ommers: Vec<Header> = decode_all(&ommers, Decodable::decode).map_err(|e| {
             ssz::DecodeError::BytesInvalid(format!(
                 "Shanghai block body contains invalid txs: {e:?}",
             ))
@@ -194,8 +194,8 @@ impl BlockBody {
         }
         let withdrawals: Vec<Withdrawal> = withdrawals
             .iter()
-            .map(|bytes| Decodable::decode(&mut bytes.as_slice()))
-            .collect::<Result<Vec<Withdrawal>, _>>()
+            .map(|bytes| decode_all(bytes, Decodable::decode))
+            .collect::<anyhow::Result<Vec<Withdrawal>>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
                     "Shanghai block body contains invalid withdrawals: {e:?}",
@@ -209,6 +209,19 @@ impl BlockBody {
     }
 }
 
+/// Decodes a value that takes up all of the bytes.
+fn decode_all<T, E: std::fmt::Debug>(
+    bytes: &[u8],
+    decode: impl FnOnce(&mut &[u8]) -> Result<T, E>,
+) -> anyhow::Result<T> {
+    let mut rest = bytes;
+    let value = decode(&mut rest).map_err(|e| anyhow!("{e:?}"))?;
+    if !rest.is_empty() {
+        bail!("{} bytes follow the encoded value", rest.len());
+    }
+    Ok(value)
+}
+
 #[cfg(test)]
 #[allow(clippy::unwrap_used)]
 mod tests {
diff --git a/crates/ethportal-api/src/types/execution/receipts.rs b/crates/ethportal-api/src/types/execution/receipts.rs
index 02da2ad..a3e4af9 100644
--- a/crates/ethportal-api/src/types/execution/receipts.rs
+++ b/crates/ethportal-api/src/types/execution/receipts.rs
@@ -50,13 +50,21 @@ impl ssz::Decode for Receipts {
             ssz::decode_list_of_variable_length_items(bytes, Some(MAX_TRANSACTION_COUNT))?;
         let receipts: Vec<ReceiptEnvelope> = encoded_receipts
             .iter()
-            .map(|bytes| ReceiptEnvelope::decode_2718(&mut bytes.as_slice()))
-            .collect::<Result<Vec<ReceiptEnvelope>, _>>()
-            .map_err(|e| {
-                ssz::DecodeError::BytesInvalid(format!(
-                    "Receipt list contains invalid receipts: {e:?}",
-                ))
-            })?;
+            .map(|bytes| {
+                let mut bytes = bytes.as_slice();
+                let receipt = ReceiptEnvelope::decode_2718(&mut bytes).map_err(|e| {
+                    ssz::DecodeError::BytesInvalid(format!(
+                        "Receipt list contains invalid receipts: {e:?}",
+                    ))
+                })?;
+                if !bytes.is_empty() {
+                    return Err(ssz::DecodeError::BytesInvalid(
+                        "Receipt is followed by other bytes".to_string(),
+                    ));
+                }
+                Ok(receipt)
+            })
+            .collect::<Result<Vec<ReceiptEnvelope>, _>>()?;
         Ok(Self(receipts))
     }
 }
diff --git a/crates/ethportal-api/src/types/execution/ssz_header.rs b/crates/ethportal-api/src/types/execution/ssz_header.rs
index c0a9c02..f6c6366 100644
--- a/crates/ethportal-api/src/types/execution/ssz_header.rs
+++ b/crates/ethportal-api/src/types/execution/ssz_header.rs
@@ -42,8 +42,15 @@ pub mod decode {
 
     pub fn from_ssz_bytes(bytes: &[u8]) -> Result<Header, ssz::DecodeError> {
         let rlp_encoded_header = ByteList2048::from_ssz_bytes(bytes)?;
-        Header::decode(&mut &*rlp_encoded_header).map_err(|_| {
+        let mut rlp_bytes = &*rlp_encoded_header;
+        let header = Header::decode(&mut rlp_bytes).map_err(|_| {
             ssz::DecodeError::BytesInvalid("Unable to decode bytes into header.".to_string())
-        })
+        })?;
+        if !rlp_bytes.is_empty() {
+            return Err(ssz::DecodeError::BytesInvalid(
+                "Header is followed by other bytes.".to_string(),
+            ));
+        }
+        Ok(header)
     }
 }
-- 
2.43.0


From 03478572c36dd77967bbfb9a1b6e71483aec6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:30 +0000
Subject: [PATCH 17/21] fix: refuse a block body without the withdrawals its
 header commits to

The withdrawals were compared with the header only when the body had any.
A body that left them out passed for the whole body of the block.
---
 crates/ethportal-api/src/types/execution/block_body.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ethportal-api/src/types/execution/block_body.rs b/crates/ethportal-api/src/types/execution/block_body.rs
index ca2c33b..8022a07 100644
--- a/crates/ethportal-api/src/types/execution/block_body.rs
+++ b/crates/ethportal-api/src/types/execution/block_body.rs
@@ -94,6 +94,8 @@ impl BlockBody {
                     "Block body withdrawals root doesn't match header withdrawals root: {actual:?} - {expected:?}",
                 );
             }
+        } else if header.withdrawals_root.is_some() {
+            bail!("Block body does not have withdrawals");
         }
         Ok(())
     }
-- 
2.43.0


From c2980026ce88865d535e72304b3e01c124e9349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:36 +0000
Subject: [PATCH 18/21] fix: let a content lookup go on when a peer without a
 common protocol version announces a transfer

The lookup waited for a verdict on the announced content that nobody gave,
and asked no further peers until it timed out.
---
 crates/portalnet/src/overlay/service/find_content.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/portalnet/src/overlay/service/find_content.rs b/crates/portalnet/src/overlay/service/find_content.rs
index bd5ab66..3de874d 100644
--- a/crates/portalnet/src/overlay/service/find_content.rs
+++ b/crates/portalnet/src/overlay/service/find_content.rs
@@ -356,6 +356,8 @@ impl<
                             Some(enr) => enr,
                             _ => {
                                 debug!("Received uTP payload from unknown {peer}");
+                                // Indicate to the query that there is no content from this peer
+                                let _ = valid_content_tx.send(None);
                                 return;
                             }
                         };
@@ -374,6 +376,9 @@ impl<
                                 Ok(protocol_version) => protocol_version,
                                 Err(err) => {
                                     debug!(?err, "Unable to get latest common protocol version");
+                                    // Indicate to the query that there is no content from this
+                                    // peer
+                                    let _ = valid_content_tx.send(None);
                                     return;
                                 }
                             };
-- 
2.43.0


From 72b70f8d43b18967e31a4463fa56496373db3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:46 +0000
Subject: [PATCH 19/21] fix: keep receipts by block hash in the head bridge

Receipts were kept by block number.  After a reorganisation a block was offered
with the receipts of the block that competed for its number.  They are now kept
by block hash, and receipts that do not match the block's root are refused.
---
 .../src/bridge/ephemeral_history/mod.rs       | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
index f8c63e6..99ff33a 100644
--- a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
+++ b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
@@ -48,7 +48,8 @@ pub struct EphemeralHistoryBridge {
     consensus_api: ConsensusApi,
     execution_api: ExecutionApi,
     beacon_blocks: BTreeMap<B256, BeaconBlockElectra>,
-    receipts: LruCache<u64, Receipts>,
+    /// Receipts by execution block hash: competing blocks share a block number
+    receipts: LruCache<B256, Receipts>,
 }
 
 impl EphemeralHistoryBridge {
@@ -241,13 +242,18 @@ impl EphemeralHistoryBridge {
                     .await?
                     .message;
 
+                let payload = &beacon_block.body.execution_payload;
                 let receipts = self
                     .execution_api
-                    .get_receipts(beacon_block.body.execution_payload.block_number)
+                    .get_receipts(payload.block_number)
                     .await?;
+                ensure!(
+                    receipts.root() == payload.receipts_root,
+                    "Receipts don't belong to block: {}",
+                    payload.block_hash
+                );
 
-                self.receipts
-                    .push(beacon_block.body.execution_payload.block_number, receipts);
+                self.receipts.push(payload.block_hash, receipts);
                 Ok(vacant_beacon_block.insert(beacon_block))
             }
         }
@@ -270,12 +276,12 @@ impl EphemeralHistoryBridge {
 
         let Some(receipts) = self
             .receipts
-            .get(&beacon_block.body.execution_payload.block_number)
+            .get(&beacon_block.body.execution_payload.block_hash)
             .cloned()
         else {
             bail!(
-                "Receipts not found for block number: {}",
-                beacon_block.body.execution_payload.block_number
+                "Receipts not found for block: {}",
+                beacon_block.body.execution_payload.block_hash
             );
         };
 
-- 
2.43.0


From c349c53501502bac88e5cf7680fa22973d65e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:19 +0000
Subject: [PATCH 20/21] fix: do not underflow on a bootstrap from the future

The age of a checkpoint was the difference of two unsigned times.  A bootstrap
whose header lies in the future made it underflow before the header was
compared with the trusted checkpoint.
---
 crates/light-client/src/consensus/consensus_client.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index 52e907a..e210bba 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -510,10 +510,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
     // Determines blockhash_slot age and returns true if it is less than 14 days old
     fn is_valid_checkpoint(&self, blockhash_slot: u64) -> bool {
         let current_slot = self.expected_current_slot();
-        let current_slot_timestamp = self.slot_timestamp(current_slot);
-        let blockhash_slot_timestamp = self.slot_timestamp(blockhash_slot);
-
-        let slot_age = current_slot_timestamp - blockhash_slot_timestamp;
+        // the slot comes from the network and may lie in the future
+        let slot_age = current_slot.saturating_sub(blockhash_slot) * 12;
 
         slot_age < self.config.max_checkpoint_age
     }
-- 
2.43.0


From f29d5ce5bb1ca7bbec3c53586f0aa337a4ffbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:34 +0000
Subject: [PATCH 21/21] fix: offer historical summaries again after the state
 could not be read

---
 bin/portal-bridge/src/bridge/beacon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/portal-bridge/src/bridge/beacon.rs b/bin/portal-bridge/src/bridge/beacon.rs
index dabd925..ec2f818 100644
--- a/bin/portal-bridge/src/bridge/beacon.rs
+++ b/bin/portal-bridge/src/bridge/beacon.rs
@@ -244,6 +244,7 @@ impl BeaconBridge {
             .in_current_span()
             .await
             {
+                finalized_state_root.lock().await.in_progress = false;
                 warn!("Failed to serve HistoricalSummariesWithProof: {err}");
             }
         });
-- 
2.43.0

