From 2f735f3b6576728f8764323cb52197c63fbfe6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 01/50] verif: in-memory socket and clock hooks (cfg
 everscale_verif)

---
 src/adnl/mod.rs             |  4 ++
 src/adnl/node/mod.rs        |  4 +-
 src/adnl/node/receiver.rs   |  2 +-
 src/adnl/node/sender.rs     |  2 +-
 src/adnl/socket.rs          | 13 ++++++-
 src/adnl/verif_net.rs       | 73 +++++++++++++++++++++++++++++++++++++
 src/lib.rs                  |  1 +
 src/rldp/transfers_cache.rs |  6 ++-
 src/util/mod.rs             |  9 +++++
 src/util/updated_at.rs      |  4 ++
 src/util/verif.rs           | 17 +++++++++
 11 files changed, 129 insertions(+), 6 deletions(-)
 create mode 100644 src/adnl/verif_net.rs
 create mode 100644 src/util/verif.rs

diff --git a/src/adnl/mod.rs b/src/adnl/mod.rs
index cf380f1..d8fd07b 100644
--- a/src/adnl/mod.rs
+++ b/src/adnl/mod.rs
@@ -105,6 +105,10 @@ mod queries_cache;
 mod socket;
 mod transfer;
 
+#[cfg(everscale_verif)]
+#[doc(hidden)]
+pub mod verif_net;
+
 pub(crate) type Deferred = Result<Arc<Node>>;
 
 impl DeferredInitialization for Deferred {
diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..78ffd74 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -18,7 +18,7 @@ use super::node_id::{NodeIdFull, NodeIdShort};
 use super::peer::{NewPeerContext, Peer, PeerFilter, Peers};
 use super::ping_subscriber::PingSubscriber;
 use super::queries_cache::{QueriesCache, QueryId};
-use super::socket::make_udp_socket;
+use super::socket::{make_udp_socket, UdpSocket};
 use super::transfer::*;
 use crate::proto;
 use crate::subscriber::*;
@@ -561,7 +561,7 @@ pub struct NodeMetrics {
 }
 
 struct InitializationState {
-    socket: Arc<tokio::net::UdpSocket>,
+    socket: Arc<UdpSocket>,
     /// Receiver end of the outgoing packets queue
     sender_queue_rx: SenderQueueRx,
     message_subscribers: Vec<Arc<dyn MessageSubscriber>>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..85af8b5 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -5,7 +5,6 @@ use std::time::Duration;
 use anyhow::Result;
 use everscale_crypto::ed25519;
 use tl_proto::TlRead;
-use tokio::net::UdpSocket;
 
 use crate::adnl::channel::*;
 use crate::adnl::handshake::*;
@@ -13,6 +12,7 @@ use crate::adnl::node_id::{NodeIdFull, NodeIdShort};
 use crate::adnl::packet_view::*;
 use crate::adnl::peer::*;
 use crate::adnl::queries_cache::*;
+use crate::adnl::socket::UdpSocket;
 use crate::adnl::transfer::*;
 use crate::adnl::Node;
 use crate::proto;
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..a8cdc6d 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -4,7 +4,6 @@ use std::sync::Arc;
 use anyhow::Result;
 use sha2::Digest;
 use tl_proto::TlWrite;
-use tokio::net::UdpSocket;
 use tokio::sync::mpsc;
 
 use crate::adnl::channel::*;
@@ -12,6 +11,7 @@ use crate::adnl::handshake::*;
 use crate::adnl::keystore::Key;
 use crate::adnl::node_id::NodeIdShort;
 use crate::adnl::peer::*;
+use crate::adnl::socket::UdpSocket;
 use crate::adnl::Node;
 
 use crate::proto;
diff --git a/src/adnl/socket.rs b/src/adnl/socket.rs
index bd57384..21fa0fe 100644
--- a/src/adnl/socket.rs
+++ b/src/adnl/socket.rs
@@ -2,8 +2,19 @@ use std::net::Ipv4Addr;
 use std::sync::Arc;
 
 use anyhow::Result;
-use tokio::net::UdpSocket;
 
+#[cfg(not(everscale_verif))]
+pub use tokio::net::UdpSocket;
+
+#[cfg(everscale_verif)]
+pub use super::verif_net::UdpSocket;
+
+#[cfg(everscale_verif)]
+pub fn make_udp_socket(port: u16) -> Result<Arc<UdpSocket>> {
+    Ok(Arc::new(UdpSocket::bind(port)?))
+}
+
+#[cfg(not(everscale_verif))]
 pub fn make_udp_socket(port: u16) -> Result<Arc<UdpSocket>> {
     let udp_socket = std::net::UdpSocket::bind((Ipv4Addr::UNSPECIFIED, port))?;
     udp_socket.set_nonblocking(true)?;
diff --git a/src/adnl/verif_net.rs b/src/adnl/verif_net.rs
new file mode 100644
index 0000000..9c50c71
--- /dev/null
+++ b/src/adnl/verif_net.rs
@@ -0,0 +1,73 @@
+//! In-memory replacement for the UDP socket (only with `--cfg everscale_verif`)
+
+use std::collections::HashMap;
+use std::io;
+use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
+use std::sync::Mutex;
+
+use tokio::sync::{mpsc, Mutex as AsyncMutex};
+
+pub type Datagram = (Vec<u8>, SocketAddrV4);
+
+static SOCKETS: Mutex<Option<HashMap<u16, Wire>>> = Mutex::new(None);
+
+/// Network side of a bound socket
+pub struct Wire {
+    /// Packets to be received by the node (with source address)
+    pub to_node: mpsc::UnboundedSender<Datagram>,
+    /// Packets sent by the node (with destination address)
+    pub from_node: mpsc::UnboundedReceiver<Datagram>,
+}
+
+/// Takes the network side of the socket which was bound to the specified port
+pub fn take_wire(port: u16) -> Option<Wire> {
+    SOCKETS.lock().unwrap().as_mut()?.remove(&port)
+}
+
+pub struct UdpSocket {
+    port: u16,
+    rx: AsyncMutex<mpsc::UnboundedReceiver<Datagram>>,
+    tx: mpsc::UnboundedSender<Datagram>,
+}
+
+impl UdpSocket {
+    pub fn bind(mut port: u16) -> io::Result<Self> {
+        let mut sockets = SOCKETS.lock().unwrap();
+        let sockets = sockets.get_or_insert_with(HashMap::new);
+        if port == 0 {
+            port = (20000..u16::MAX)
+                .find(|port| !sockets.contains_key(port))
+                .ok_or(io::ErrorKind::AddrInUse)?;
+        }
+
+        let (to_node, rx) = mpsc::unbounded_channel();
+        let (tx, from_node) = mpsc::unbounded_channel();
+        sockets.insert(port, Wire { to_node, from_node });
+
+        Ok(Self {
+            port,
+            rx: AsyncMutex::new(rx),
+            tx,
+        })
+    }
+
+    pub fn local_addr(&self) -> io::Result<SocketAddr> {
+        Ok((Ipv4Addr::UNSPECIFIED, self.port).into())
+    }
+
+    pub async fn recv_from(&self, buffer: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+        match self.rx.lock().await.recv().await {
+            Some((data, source)) => {
+                let len = std::cmp::min(data.len(), buffer.len());
+                buffer[..len].copy_from_slice(&data[..len]);
+                Ok((len, source.into()))
+            }
+            None => futures_util::future::pending().await,
+        }
+    }
+
+    pub async fn send_to(&self, data: &[u8], destination: SocketAddrV4) -> io::Result<usize> {
+        self.tx.send((data.to_vec(), destination)).ok();
+        Ok(data.len())
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7c38542..82c8dfb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unknown_lints, unexpected_cfgs)]
 #![allow(clippy::too_many_arguments)]
 
 //! Implementation of the network part of the Everscale blockchain.
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..5c0ad1c 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -1,11 +1,15 @@
 use std::borrow::Cow;
 use std::sync::Arc;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+#[cfg(not(everscale_verif))]
+use std::time::Instant;
 
 use anyhow::Result;
 use parking_lot::Mutex;
 use tl_proto::{TlRead, TlWrite};
 use tokio::sync::mpsc;
+#[cfg(everscale_verif)]
+use tokio::time::Instant;
 
 use super::compression;
 use super::incoming_transfer::*;
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ba986a5..24072f8 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -23,7 +23,16 @@ pub(crate) type FastDashSet<K> = dashmap::DashSet<K, FastHasherState>;
 pub(crate) type FastDashMap<K, V> = dashmap::DashMap<K, V, FastHasherState>;
 pub(crate) type FastHasherState = ahash::RandomState;
 
+#[cfg(everscale_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub(crate) fn now() -> u32 {
+    #[cfg(everscale_verif)]
+    if let Some(now) = verif::clock() {
+        return now;
+    }
+
     std::time::SystemTime::now()
         .duration_since(std::time::UNIX_EPOCH)
         .unwrap_or_default()
diff --git a/src/util/updated_at.rs b/src/util/updated_at.rs
index 9dfa431..8e3908f 100644
--- a/src/util/updated_at.rs
+++ b/src/util/updated_at.rs
@@ -1,6 +1,10 @@
 use std::sync::atomic::{AtomicU64, Ordering};
+#[cfg(not(everscale_verif))]
 use std::time::Instant;
 
+#[cfg(everscale_verif)]
+use tokio::time::Instant;
+
 pub struct UpdatedAt {
     started_at: Instant,
     updated_at: AtomicU64,
diff --git a/src/util/verif.rs b/src/util/verif.rs
new file mode 100644
index 0000000..1a42790
--- /dev/null
+++ b/src/util/verif.rs
@@ -0,0 +1,17 @@
+//! Verification hooks (only with `--cfg everscale_verif`)
+
+use std::sync::RwLock;
+
+pub use super::packets_history::PacketsHistory;
+
+static CLOCK: RwLock<Option<fn() -> u32>> = RwLock::new(None);
+
+/// Replaces the unix time source
+pub fn set_clock(clock: fn() -> u32) {
+    *CLOCK.write().unwrap() = Some(clock);
+}
+
+pub(crate) fn clock() -> Option<u32> {
+    let clock = *CLOCK.read().unwrap();
+    clock.map(|clock| clock())
+}
-- 
2.43.0


From d0b60a5ff9c905111a0882ab94a516649be4fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 02/50] fix: advance the packets history window and remember
 the packet which moved it

---
 src/util/packets_history.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..7e54b29 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -91,7 +91,7 @@ impl PacketsHistory {
             let index_masked = index & INDEX_MASK;
             let index_normalized = index & !INDEX_MASK;
 
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
+            if index_normalized > seqno_normalized.saturating_add(INDEX_MASK + 1) {
                 tracing::debug!(seqno, index_normalized, "peer packet is too old");
                 return false;
             }
@@ -127,7 +127,7 @@ impl PacketsHistory {
 
                     mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
 
-                    index
+                    index_normalized
                 }
                 None => {
                     if mask
@@ -155,7 +155,11 @@ impl PacketsHistory {
                         }
                     }
 
-                    index_normalized
+                    // Mark the packet as delivered in the new range
+                    mask.bits[HISTORY_SIZE / 2 + seqno_masked as usize / 64]
+                        .fetch_or(mask_bit, Ordering::Release);
+
+                    seqno_normalized
                 }
             };
 
@@ -164,7 +168,8 @@ impl PacketsHistory {
                 self.seqno.store(seqno, Ordering::Release);
             }
 
-            let index_masked = (index_masked + 1) & !INDEX_MASK;
+            // NOTE: the counter never reaches `INDEX_MASK`, so that the index is never equal to `IN_TRANSIT`
+            let index_masked = (index_masked + 1) % INDEX_MASK;
             let _ = mask.index.compare_exchange(
                 IN_TRANSIT,
                 next_index | index_masked,
-- 
2.43.0


From fffa569fed154d42682965fe624f2887ae418ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 03/50] fix: do not bind a tag when the key is already stored
 under another one

---
 src/adnl/keystore.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index 6181295..8b75189 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -51,16 +51,14 @@ impl Keystore {
         let (_, short_id) = secret_key.compute_node_ids();
 
         match self.tags.entry(tag) {
-            hash_map::Entry::Vacant(entry) => {
-                entry.insert(short_id);
-                match self.keys.entry(short_id) {
-                    hash_map::Entry::Vacant(entry) => {
-                        entry.insert(Arc::new(secret_key.into()));
-                        Ok(short_id)
-                    }
-                    hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            hash_map::Entry::Vacant(entry) => match self.keys.entry(short_id) {
+                hash_map::Entry::Vacant(key_entry) => {
+                    entry.insert(short_id);
+                    key_entry.insert(Arc::new(secret_key.into()));
+                    Ok(short_id)
                 }
-            }
+                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            },
             hash_map::Entry::Occupied(entry) => {
                 if entry.get() == &short_id {
                     Ok(short_id)
-- 
2.43.0


From a80bb94ae804e1524260d6af6d52c537461a9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 04/50] fix: do not overflow when all peers but one are
 requested from the set

---
 src/adnl/peers_set.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index a1fc7b8..d6c869b 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -69,7 +69,11 @@ impl PeersSet {
 
         let items = state.index.choose_multiple(
             &mut fast_thread_rng(),
-            if except.is_some() { amount + 1 } else { amount } as usize,
+            if except.is_some() {
+                amount.saturating_add(1)
+            } else {
+                amount
+            } as usize,
         );
 
         match except {
-- 
2.43.0


From f6f66076e68f3dd68841091ee9bd6e9a259ba2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 05/50] fix: ignore empty and repeated parts of a transfer

---
 src/adnl/transfer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..2cd6e2b 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -48,11 +48,22 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
+
+        // Empty parts carry nothing, but would stall the search of the next part
+        if len == 0 {
             return Ok(None);
         }
 
+        match self.parts.entry(offset) {
+            Entry::Vacant(entry) => {
+                entry.insert(data);
+            }
+            Entry::Occupied(_) => return Ok(None),
+        }
+
         // Increase received length.
         // This part heavily relies on ordering, so hope that it works as expected
         self.received_len.fetch_add(len, Ordering::Release);
-- 
2.43.0


From f5741c2a7a801af96d39f63d24809614d1a11139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 06/50] fix: send every part of a message split into more than
 two packets

---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index a8cdc6d..877eb50 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -157,7 +157,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 5d18feee3909accaca1ab241d7d4f7b2669bab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 07/50] fix: do not mix parts of the same message from
 different peers

---
 src/adnl/node/mod.rs      | 2 +-
 src/adnl/node/receiver.rs | 9 +++++----
 src/adnl/transfer.rs      | 4 ++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 78ffd74..db6f2ac 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -131,7 +131,7 @@ pub struct Node {
     channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
-    incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
+    incoming_transfers: Arc<FastDashMap<TransferKey, Arc<Transfer>>>,
 
     /// Pending queries
     queries: Arc<QueriesCache>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 85af8b5..2ddf57e 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -194,7 +194,8 @@ impl Node {
         } = message
         {
             let transfer_id = *hash;
-            let transfer = match self.incoming_transfers.entry(transfer_id) {
+            let transfer_key = (*local_id, *peer_id, transfer_id);
+            let transfer = match self.incoming_transfers.entry(transfer_key) {
                 // Create new transfer state if it was a new incoming transfer
                 Entry::Vacant(entry) => {
                     let entry = entry.insert(Arc::new(Transfer::new(total_size as usize)));
@@ -219,7 +220,7 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_id).is_some() {
+                                if incoming_transfers.remove(&transfer_key).is_some() {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
@@ -242,11 +243,11 @@ impl Node {
             // Update transfer
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     Some(message)
                 }
                 Err(error) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     return Err(error.into());
                 }
                 _ => return Ok(()),
diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 2cd6e2b..afb4208 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -2,10 +2,14 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 
 use sha2::Digest;
 
+use super::node_id::NodeIdShort;
 use crate::util::*;
 
 pub type TransferId = [u8; 32];
 
+/// Local id, peer id and id of the transfer
+pub type TransferKey = (NodeIdShort, NodeIdShort, TransferId);
+
 /// Multipart transfer
 ///
 /// It is used to collect multiple values of ADNL `Part` messages.
-- 
2.43.0


From fedd5a3b59c42ae6658d0a3de698d051d3a77064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 08/50] fix: do not drop a newer transfer of the same message
 on timeout of an older one

---
 src/adnl/node/receiver.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 2ddf57e..22b44c2 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -220,7 +220,12 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_key).is_some() {
+                                // Keep a newer transfer of the same message
+                                let is_same = |_: &_, other: &_| Arc::ptr_eq(other, &transfer);
+                                if incoming_transfers
+                                    .remove_if(&transfer_key, is_same)
+                                    .is_some()
+                                {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
-- 
2.43.0


From 6857797683237ab83c977ff44795ec9512351a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 09/50] fix: keep channels of different local identities apart

---
 src/adnl/node/mod.rs      | 10 +++++-----
 src/adnl/node/receiver.rs |  4 ++--
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index db6f2ac..f237d6f 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -127,8 +127,8 @@ pub struct Node {
 
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
-    /// Channels table used to fast search when sending messages
-    channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
+    /// Channels table used to fast search when sending messages (by local and peer ids)
+    channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
     incoming_transfers: Arc<FastDashMap<TransferKey, Arc<Transfer>>>,
@@ -358,7 +358,7 @@ impl Node {
         let peers = self.get_peers(local_id)?;
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
@@ -476,7 +476,7 @@ impl Node {
 
         let channel = self
             .channels_by_peers
-            .get(peer_id)
+            .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
         let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
@@ -526,7 +526,7 @@ impl Node {
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 22b44c2..dfaaf74 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -441,7 +441,7 @@ impl Node {
 
         let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
-            if self.channels_by_peers.contains_key(&peer_id) {
+            if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
             } else {
                 return Err(AdnlPacketError::UnknownChannel.into());
@@ -525,7 +525,7 @@ impl Node {
         };
         let peer = peer.value();
 
-        match self.channels_by_peers.entry(*peer_id) {
+        match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 877eb50..621cae9 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -74,7 +74,7 @@ impl Node {
 
         // Get local key
         let local_key = self.keystore.key_by_id(local_id)?;
-        let channel = self.channels_by_peers.get(peer_id);
+        let channel = self.channels_by_peers.get(&(*local_id, *peer_id));
         let mut force_handshake = false;
         let (additional_size, additional_message) = match &channel {
             Some(channel) if channel.ready() => (0, None),
-- 
2.43.0


From 837fa923a7c5c55edb1582727e57f8741cd440bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 10/50] fix: accept only confirmations of the current channel
 keys

---
 src/adnl/node/receiver.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index dfaaf74..8b7fee6 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -271,13 +271,17 @@ impl Node {
                 self.process_message_answer(query_id, answer);
                 Ok(())
             }
-            proto::adnl::Message::ConfirmChannel { key, date, .. } => self
-                .process_message_confirm_channel(
-                    local_id,
-                    peer_id,
-                    ed25519::PublicKey::from_bytes(*key).ok_or(AdnlReceiverError::InvalidPacket)?,
-                    date,
-                ),
+            proto::adnl::Message::ConfirmChannel {
+                key,
+                peer_key,
+                date,
+            } => self.process_message_confirm_channel(
+                local_id,
+                peer_id,
+                ed25519::PublicKey::from_bytes(*key).ok_or(AdnlReceiverError::InvalidPacket)?,
+                peer_key,
+                date,
+            ),
             proto::adnl::Message::CreateChannel { key, date } => self
                 .process_message_create_channel(
                     local_id,
@@ -333,12 +337,14 @@ impl Node {
         local_id: &NodeIdShort,
         peer_id: &NodeIdShort,
         peer_channel_public_key: ed25519::PublicKey,
+        local_channel_public_key: &[u8; 32],
         peer_channel_date: u32,
     ) -> Result<()> {
         self.create_channel(
             local_id,
             peer_id,
             peer_channel_public_key,
+            Some(local_channel_public_key),
             peer_channel_date,
             ChannelCreationContext::ConfirmChannel,
         )
@@ -355,6 +361,7 @@ impl Node {
             local_id,
             peer_id,
             peer_channel_public_key,
+            None,
             peer_channel_date,
             ChannelCreationContext::CreateChannel,
         )
@@ -513,6 +520,7 @@ impl Node {
         local_id: &NodeIdShort,
         peer_id: &NodeIdShort,
         peer_channel_public_key: ed25519::PublicKey,
+        local_channel_public_key: Option<&[u8; 32]>,
         peer_channel_date: u32,
         context: ChannelCreationContext,
     ) -> Result<()> {
@@ -525,12 +533,24 @@ impl Node {
         };
         let peer = peer.value();
 
+        // Ignore confirmation of a channel with some other (e.g. outdated) local channel key
+        if matches!(
+            local_channel_public_key,
+            Some(key) if peer.channel_key().public_key.as_bytes() != key
+        ) {
+            tracing::trace!(%local_id, %peer_id, "ignoring outdated channel confirmation");
+            return Ok(());
+        }
+
         match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
                 if channel.is_still_valid(&peer_channel_public_key, peer_channel_date) {
-                    if context == ChannelCreationContext::ConfirmChannel {
+                    // Only this very channel becomes ready
+                    if context == ChannelCreationContext::ConfirmChannel
+                        && channel.peer_channel_public_key() == &peer_channel_public_key
+                    {
                         channel.set_ready();
                     }
                     return Ok(());
-- 
2.43.0


From e500ee78f010fa45ec030c511780885892a51737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 11/50] fix: require signatures of packets with a short source
 id

---
 src/adnl/node/receiver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 8b7fee6..d024e7d 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -459,11 +459,12 @@ impl Node {
         .ok_or(AdnlPacketError::UnknownPeer)?;
 
         if check_signature {
+            // Packets from channels are already authenticated
             verify(
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                !from_channel && self.options.packet_signature_required,
             )?;
         }
 
-- 
2.43.0


From 1ec5520a600594c683691affe385d43cc04ee1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 12/50] fix: tell peers the new reinit date of a pair after its
 reset

---
 src/adnl/node/mod.rs      | 19 +++++++++++++++++--
 src/adnl/node/receiver.rs |  3 ++-
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index f237d6f..11e98fd 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -124,6 +124,8 @@ pub struct Node {
 
     /// Known peers for each local node id
     peers: FastHashMap<NodeIdShort, Peers>,
+    /// Last local reinit dates of removed peers (by local and peer ids)
+    removed_peers: FastDashMap<(NodeIdShort, NodeIdShort), u32>,
 
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
@@ -180,6 +182,7 @@ impl Node {
             options,
             peer_filter,
             peers,
+            removed_peers: Default::default(),
             channels_by_id: Default::default(),
             channels_by_peers: Default::default(),
             incoming_transfers: Default::default(),
@@ -340,7 +343,12 @@ impl Node {
             Entry::Occupied(entry) => entry.get().set_addr(addr),
             // Create new peer state otherwise
             Entry::Vacant(entry) => {
-                entry.insert(Peer::new(self.start_time, addr, peer_id_full));
+                // State of a peer which was removed before must start with a newer reinit date
+                let reinit_date = match self.removed_peers.remove(&(*local_id, *peer_id)) {
+                    Some((_, reinit_date)) => reinit_date + 1,
+                    None => self.start_time,
+                };
+                entry.insert(Peer::new(reinit_date, addr, peer_id_full));
                 tracing::trace!(%local_id, %peer_id, %addr, "added ADNL peer");
             }
         };
@@ -364,7 +372,14 @@ impl Node {
                 self.channels_by_id.remove(removed.priority_channel_in_id())
             });
 
-        Ok(peers.remove(peer_id).is_some())
+        match peers.remove(peer_id) {
+            Some((_, peer)) => {
+                self.removed_peers
+                    .insert((*local_id, *peer_id), peer.receiver_state().reinit_date());
+                Ok(true)
+            }
+            None => Ok(false),
+        }
     }
 
     /// Searches for remote peer socket address in the known peers
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index d024e7d..5a2d6c2 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -473,7 +473,8 @@ impl Node {
             target: local_reinit_date,
         }) = packet.reinit_dates
         {
-            let expected_local_reinit_date = local_reinit_date.cmp(&self.start_time);
+            let expected_local_reinit_date =
+                local_reinit_date.cmp(&peer.receiver_state().reinit_date());
             if expected_local_reinit_date == Ordering::Greater {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 621cae9..0dddb1e 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -261,7 +261,7 @@ impl Node {
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
-                    local: self.start_time,
+                    local: peer.receiver_state().reinit_date(),
                     target: peer.sender_state().reinit_date(),
                 }),
             },
-- 
2.43.0


From 54306243e247a89de08489e29a3ee62643de4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 13/50] fix: reset a peer pair only together with the channel
 that timed out

---
 src/adnl/node/mod.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 11e98fd..95b57f6 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -503,7 +503,7 @@ impl Node {
         if answer.is_none() {
             if let Some(channel) = channel {
                 if channel.update_drop_timeout(now(), self.options.channel_reset_timeout_sec) {
-                    self.reset_peer(local_id, peer_id)?;
+                    self.reset_peer(local_id, peer_id, &channel)?;
                 }
             }
         }
@@ -534,20 +534,31 @@ impl Node {
         }
     }
 
-    fn reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
+    /// Resets the pair if it still uses the specified channel
+    fn reset_peer(
+        &self,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        channel: &Arc<Channel>,
+    ) -> Result<()> {
         let peers = self.get_peers(local_id)?;
         let mut peer = peers.get_mut(peer_id).ok_or(NodeError::UnknownPeer)?;
 
-        tracing::trace!(%local_id, %peer_id, "resetting peer pair");
-
-        self.channels_by_peers
-            .remove(&(*local_id, *peer_id))
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
+        // Pair could already have been reset or a newer channel could have been created
+        let removed = self
+            .channels_by_peers
+            .remove_if(&(*local_id, *peer_id), |_, current| {
+                Arc::ptr_eq(current, channel)
             });
 
-        peer.reset();
+        if let Some((_, removed)) = removed {
+            tracing::trace!(%local_id, %peer_id, "resetting peer pair");
+
+            self.channels_by_id.remove(removed.ordinary_channel_in_id());
+            self.channels_by_id.remove(removed.priority_channel_in_id());
+
+            peer.reset();
+        }
 
         Ok(())
     }
-- 
2.43.0


From aa4826d0dd1606c7540f1ba73feb436e1479efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 14/50] fix: forget the channel of a peer pair when the peer
 starts anew

---
 src/adnl/node/mod.rs      | 15 +++++++++------
 src/adnl/node/receiver.rs |  6 ++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 95b57f6..4ea0ab6 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -365,12 +365,7 @@ impl Node {
     pub fn remove_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<bool> {
         let peers = self.get_peers(local_id)?;
 
-        self.channels_by_peers
-            .remove(&(*local_id, *peer_id))
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        self.remove_channel(local_id, peer_id);
 
         match peers.remove(peer_id) {
             Some((_, peer)) => {
@@ -534,6 +529,14 @@ impl Node {
         }
     }
 
+    /// Forgets channel of the pair
+    fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
+        if let Some((_, removed)) = self.channels_by_peers.remove(&(*local_id, *peer_id)) {
+            self.channels_by_id.remove(removed.ordinary_channel_in_id());
+            self.channels_by_id.remove(removed.priority_channel_in_id());
+        }
+    }
+
     /// Resets the pair if it still uses the specified channel
     fn reset_peer(
         &self,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 5a2d6c2..bdcb56b 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -483,10 +483,16 @@ impl Node {
                 return Err(AdnlPacketError::SrcReinitDateTooNew.into());
             }
 
+            let known_reinit_date = peer.sender_state().reinit_date();
             if !peer.try_reinit_sender(peer_reinit_date) {
                 return Err(AdnlPacketError::SrcReinitDateTooOld.into());
             }
 
+            // Restarted peer doesn't have keys of the old channel
+            if !from_channel && known_reinit_date != 0 && peer_reinit_date > known_reinit_date {
+                self.remove_channel(local_id, &peer_id);
+            }
+
             if local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less {
                 drop(peer);
 
-- 
2.43.0


From 8c86b697ea85fd4d43d8d9cd95e2d79c24a8827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 15/50] verif: expose the multipart transfer (cfg
 everscale_verif)

---
 src/adnl/verif_net.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/adnl/verif_net.rs b/src/adnl/verif_net.rs
index 9c50c71..1d30024 100644
--- a/src/adnl/verif_net.rs
+++ b/src/adnl/verif_net.rs
@@ -7,6 +7,8 @@ use std::sync::Mutex;
 
 use tokio::sync::{mpsc, Mutex as AsyncMutex};
 
+pub use super::transfer::Transfer;
+
 pub type Datagram = (Vec<u8>, SocketAddrV4);
 
 static SOCKETS: Mutex<Option<HashMap<u16, Wire>>> = Mutex::new(None);
-- 
2.43.0


From 6900556baa4d43354b7dbf2866254e46cd89a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 16/50] fix: ignore RLDP symbols which cannot be decoded

Parameters and symbols come from the network and were handed over to
RaptorQ as is, which panics on sizes it does not support. The receiver
task was gone then and its transfer never ended. A part which exceeds
the rest of the message is refused before its decoder is created.
---
 src/overlay/overlay.rs        |  9 +++++++--
 src/rldp/decoder.rs           | 34 +++++++++++++++++++++++++++++++---
 src/rldp/incoming_transfer.rs | 20 +++++++++++++++++---
 3 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..64391a2 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -964,6 +964,11 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder = match RaptorQDecoder::with_params(fec_type) {
+            Some(decoder) => decoder,
+            None => return Err(OverlayError::UnsupportedFecType.into()),
+        };
+
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -979,8 +984,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
@@ -1417,6 +1420,8 @@ type BroadcastId = [u8; 32];
 enum OverlayError {
     #[error("Unsupported signature")]
     UnsupportedSignature,
+    #[error("Unsupported FEC type")]
+    UnsupportedFecType,
     #[error("Data size mismatch")]
     DataSizeMismatch,
     #[error("Data hash mismatch")]
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..9c83271 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -5,22 +5,43 @@ use crate::proto::rldp::RaptorQFecType;
 pub struct RaptorQDecoder {
     engine: Decoder,
     params: RaptorQFecType,
+    symbol_size: usize,
     seqno: u32,
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    /// Returns `None` if there can be no data with these parameters
+    pub fn with_params(params: RaptorQFecType) -> Option<Self> {
+        let symbol_size = params.packet_len - params.packet_len % SYMBOL_ALIGNMENT;
+        if params.total_len == 0
+            || symbol_size < MIN_SYMBOL_SIZE
+            || params.packet_len > u16::MAX as u32
+            || (params.total_len - 1) / symbol_size >= MAX_SYMBOLS
+        {
+            return None;
+        }
+
+        Some(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
                 params.packet_len as u16,
             )),
             params,
+            symbol_size: symbol_size as usize,
             seqno: 0,
-        }
+        })
+    }
+
+    /// Whether this is a symbol of the data
+    pub fn is_symbol(&self, seqno: u32, data: &[u8]) -> bool {
+        seqno <= MAX_SEQNO && data.len() == self.symbol_size
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+        if !self.is_symbol(seqno, &data) {
+            return None;
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
         self.engine.decode(packet)
@@ -34,3 +55,10 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+const SYMBOL_ALIGNMENT: u32 = 8;
+const MIN_SYMBOL_SIZE: u32 = 64;
+/// Max number of symbols in a single block
+const MAX_SYMBOLS: u32 = 56403;
+/// Encoding symbol id is a 24-bit number (with some room for padding symbols)
+const MAX_SEQNO: u32 = (1 << 24) - 1024;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..af07c78 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -78,9 +78,15 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None => {
+                    if fec_type.total_len as usize > total_size - self.data.len() {
+                        return Err(IncomingTransferError::TooBigTransferSize.into());
+                    }
+                    match RaptorQDecoder::with_params(fec_type) {
+                        Some(decoder) => self.decoder.insert(decoder),
+                        None => return Err(IncomingTransferError::InvalidPacketParameters.into()),
+                    }
+                }
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
@@ -95,6 +101,10 @@ impl IncomingTransfer {
             std::cmp::Ordering::Greater => return Ok(None),
         };
 
+        if !decoder.is_symbol(message.seqno, &message.data) {
+            return Err(IncomingTransferError::InvalidSymbol.into());
+        }
+
         // Decode message data
         match decoder.decode(message.seqno, message.data) {
             Some(data) if data.len() + self.data.len() > total_size => {
@@ -172,6 +182,10 @@ enum IncomingTransferError {
     TotalSizeMismatch,
     #[error("Packet parameters mismatch")]
     PacketParametersMismatch,
+    #[error("Invalid packet parameters")]
+    InvalidPacketParameters,
+    #[error("Invalid symbol")]
+    InvalidSymbol,
     #[error("Too big size for RLDP transfer")]
     TooBigTransferSize,
 }
-- 
2.43.0


From ce199a012b2c5d76b24904eb640cbcdfd4137980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 17/50] fix: number the symbols of each part of an RLDP message
 anew

The numbers of the first part were continued in the next ones, where the
difference to the last confirmed one underflowed. And as soon as there
were 1000 symbols above the last confirmed one the number was not stored
any more: later confirmations were ignored, and the same repair symbol
(encoded for a number below that of the last source symbol) was sent
until the transfer timed out.
---
 src/rldp/outgoing_transfer.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..c2067e5 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -50,6 +50,7 @@ impl OutgoingTransfer {
         }
 
         self.current_message_part = part as u32;
+        self.state.reset_seqno();
 
         let chunk_size = std::cmp::min(total - processed, SLICE);
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
@@ -71,19 +72,8 @@ impl OutgoingTransfer {
         };
 
         let mut seqno_out = self.state.seqno_out();
-        let previous_seqno_out = seqno_out;
-
         let data = ok!(encoder.encode(&mut seqno_out));
-
-        let seqno_in = self.state.seqno_in();
-
-        let mut next_seqno_out = seqno_out;
-        if seqno_out - seqno_in <= WINDOW {
-            if previous_seqno_out == seqno_out {
-                next_seqno_out += 1;
-            }
-            self.state.set_seqno_out(next_seqno_out);
-        }
+        self.state.set_seqno_out(seqno_out + 1);
 
         tl_proto::serialize_into(
             proto::rldp::MessagePart::MessagePart {
@@ -155,6 +145,12 @@ impl OutgoingTransferState {
         self.seqno_out.fetch_max(seqno, Ordering::Release);
     }
 
+    /// Symbols of each part are numbered from zero
+    pub fn reset_seqno(&self) {
+        self.seqno_out.store(0, Ordering::Release);
+        self.seqno_in.store(0, Ordering::Release);
+    }
+
     pub fn seqno_in(&self) -> u32 {
         self.seqno_in.load(Ordering::Acquire)
     }
@@ -167,7 +163,6 @@ impl OutgoingTransferState {
     }
 }
 
-const WINDOW: u32 = 1000;
 const SLICE: usize = 2000000;
 
 #[derive(thiserror::Error, Debug)]
-- 
2.43.0


From 12ae94d8133a33b6b0d6ad98cf51722c2e55fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 18/50] fix: ignore a report about the last possible part of an
 RLDP message

It overflowed the number of the next part.
---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 5c0ad1c..e01870c 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -260,7 +260,9 @@ impl TransfersCache {
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
                     if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                        if let Some(next_part) = part.checked_add(1) {
+                            state.set_part(next_part);
+                        }
                     }
                 }
             }
-- 
2.43.0


From f5243327b61308d6611ecfbcd222719dffdfb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 19/50] fix: forget RLDP transfers of a cancelled query

---
 src/rldp/transfers_cache.rs | 73 ++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index e01870c..fe3291c 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -70,6 +70,13 @@ impl TransfersCache {
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Incoming(parts_tx));
 
+        // Finish transfers in any case, even if this future is dropped
+        let _guard = QueryGuard {
+            transfers: &self.transfers,
+            transfer_ids: [outgoing_transfer_id, incoming_transfer_id],
+            interval: self.query_options.completion_interval(),
+        };
+
         // Prepare contexts
         let outgoing_context = OutgoingContext {
             adnl: adnl.clone(),
@@ -108,7 +115,8 @@ impl TransfersCache {
                 .insert(outgoing_transfer_id, RldpTransfer::Done);
         }
 
-        let result = match result {
+        // Done
+        match result {
             Ok((true, mut roundtrip)) => {
                 let mut start = Instant::now();
                 let mut updates = incoming_transfer_state.updates();
@@ -137,30 +145,8 @@ impl TransfersCache {
                 }
             }
             Ok((false, roundtrip)) => Ok((None, roundtrip)),
-            Err(e) => {
-                // Reset transfer entries
-                self.transfers
-                    .insert(outgoing_transfer_id, RldpTransfer::Done);
-                Err(e)
-            }
-        };
-
-        self.transfers
-            .insert(incoming_transfer_id, RldpTransfer::Done);
-
-        // Clear transfers in background
-        tokio::spawn({
-            let transfers = self.transfers.clone();
-            let interval = self.query_options.completion_interval();
-            async move {
-                tokio::time::sleep(interval).await;
-                transfers.remove(&outgoing_transfer_id);
-                transfers.remove(&incoming_transfer_id);
-            }
-        });
-
-        // Done
-        result
+            Err(e) => Err(e),
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -345,6 +331,43 @@ impl TransfersCache {
     }
 }
 
+/// Marks transfers of the query as done when it ends and removes them later
+struct QueryGuard<'a> {
+    transfers: &'a Arc<FastDashMap<TransferId, RldpTransfer>>,
+    transfer_ids: [TransferId; 2],
+    interval: Duration,
+}
+
+impl Drop for QueryGuard<'_> {
+    fn drop(&mut self) {
+        let handle = match tokio::runtime::Handle::try_current() {
+            Ok(handle) => handle,
+            // There is nothing to wait for outside of the runtime
+            Err(_) => {
+                for transfer_id in &self.transfer_ids {
+                    self.transfers.remove(transfer_id);
+                }
+                return;
+            }
+        };
+
+        for transfer_id in self.transfer_ids {
+            self.transfers.insert(transfer_id, RldpTransfer::Done);
+        }
+
+        // Clear transfers in background
+        let transfers = self.transfers.clone();
+        let transfer_ids = self.transfer_ids;
+        let interval = self.interval;
+        handle.spawn(async move {
+            tokio::time::sleep(interval).await;
+            for transfer_id in &transfer_ids {
+                transfers.remove(transfer_id);
+            }
+        });
+    }
+}
+
 enum RldpTransfer {
     Incoming(MessagePartsTx),
     Outgoing(Arc<OutgoingTransferState>),
-- 
2.43.0


From 1246a3a1bcfbf2c67aba30fcb06e3e05676af637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 20/50] fix: do not restore a removed incoming RLDP transfer

---
 src/rldp/transfers_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index fe3291c..7edf202 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -323,7 +323,10 @@ impl TransfersCache {
         let interval = self.query_options.completion_interval();
         tokio::spawn(async move {
             tokio::time::sleep(interval).await;
-            transfers.insert(transfer_id, RldpTransfer::Done);
+            // NOTE: The transfer might have already been removed
+            if let Some(mut transfer) = transfers.get_mut(&transfer_id) {
+                *transfer = RldpTransfer::Done;
+            }
         });
 
         // Done
-- 
2.43.0


From 2acd3ba45ae01d7538e7aafd6bf731024ebb0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 21/50] fix: forget the answer transfer when it cannot be sent

---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 7edf202..8910c07 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -477,7 +477,9 @@ impl IncomingContext {
         };
 
         // Send answer
-        outgoing_context.send(query_options, None).await?;
+        if let Err(e) = outgoing_context.send(query_options, None).await {
+            tracing::warn!("failed to send RLDP answer: {e:?}");
+        }
 
         // Done
         Ok(Some(outgoing_transfer_id))
-- 
2.43.0


From fe99577076932f01e35f75707211000bf44c601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 22/50] fix: bound the size of decompressed RLDP queries and
 answers

---
 src/rldp/compression.rs     | 53 ++++++++++++++++++++++++++-----------
 src/rldp/node.rs            | 10 ++++---
 src/rldp/transfers_cache.rs | 24 +++++++++++------
 3 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 62426e4..8b1eb54 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -1,3 +1,5 @@
+use std::io::Read;
+
 pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
     let uncompressed = data.len();
     if uncompressed <= COMPRESSION_THRESHOLD {
@@ -22,31 +24,52 @@ pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
 }
 
 pub fn decompress(data: &[u8]) -> Option<Vec<u8>> {
-    if data.last() != Some(&TAG_COMPRESSED) {
-        return None;
-    }
+    decompress_bounded(data, usize::MAX).unwrap_or_default()
+}
 
-    let len = data.len();
-    match zstd::stream::decode_all(&mut &data[..len - 1]) {
-        Ok(mut data) if data.len() >= 4 => {
-            let len = data.len();
+/// Decompresses data if it was compressed, fails when the result is longer than `max_len`
+pub fn decompress_bounded(
+    data: &[u8],
+    max_len: usize,
+) -> Result<Option<Vec<u8>>, DecompressedSizeExceeded> {
+    let compressed = match data.split_last() {
+        Some((&TAG_COMPRESSED, compressed)) => compressed,
+        _ => return Ok(None),
+    };
 
-            let src_len = ((data[len - 4] as usize) << 24)
-                | ((data[len - 3] as usize) << 16)
-                | ((data[len - 2] as usize) << 8)
-                | (data[len - 1] as usize);
+    // Data is followed by its length
+    let max_len = max_len.saturating_add(4);
+
+    let mut result = Vec::new();
+    let decompressed = zstd::stream::Decoder::with_buffer(compressed).and_then(|decoder| {
+        decoder
+            .take((max_len as u64).saturating_add(1))
+            .read_to_end(&mut result)
+    });
+
+    match decompressed {
+        Ok(len) if len > max_len => Err(DecompressedSizeExceeded),
+        Ok(len) if len >= 4 => {
+            let src_len = ((result[len - 4] as usize) << 24)
+                | ((result[len - 3] as usize) << 16)
+                | ((result[len - 2] as usize) << 8)
+                | (result[len - 1] as usize);
 
             if src_len != len - 4 {
-                return None;
+                return Ok(None);
             }
 
-            data.truncate(src_len);
-            Some(data)
+            result.truncate(src_len);
+            Ok(Some(result))
         }
-        _ => None,
+        _ => Ok(None),
     }
 }
 
+#[derive(thiserror::Error, Debug)]
+#[error("Decompressed size exceeded")]
+pub struct DecompressedSizeExceeded;
+
 const COMPRESSION_THRESHOLD: usize = 256;
 const COMPRESSION_LEVEL: i32 = 3;
 
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 40e0da0..4ca9ad8 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -151,10 +151,12 @@ impl Node {
                 Ok(proto::rldp::Message::Answer {
                     query_id: answer_id,
                     data,
-                }) if answer_id == &query_id => Ok((
-                    Some(compression::decompress(data).unwrap_or_else(|| data.to_vec())),
-                    roundtrip,
-                )),
+                }) if answer_id == &query_id => {
+                    let max_len = self.options.max_answer_size as usize;
+                    let answer = compression::decompress_bounded(data, max_len)?
+                        .unwrap_or_else(|| data.to_vec());
+                    Ok((Some(answer), roundtrip))
+                }
                 Ok(proto::rldp::Message::Answer { .. }) => Err(NodeError::QueryIdMismatch.into()),
                 Ok(proto::rldp::Message::Message { .. }) => {
                     Err(NodeError::UnexpectedAnswer("RldpMessageView::Message").into())
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 8910c07..56d58d5 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -293,6 +293,7 @@ impl TransfersCache {
         let subscribers = self.subscribers.clone();
         let transfers = self.transfers.clone();
         let query_options = self.query_options;
+        let max_query_size = self.max_answer_size;
         let force_compression = self.force_compression;
         tokio::spawn(async move {
             // Wait until incoming query is received
@@ -305,6 +306,7 @@ impl TransfersCache {
                     transfers.clone(),
                     subscribers,
                     query_options,
+                    max_query_size,
                     force_compression,
                 )
                 .await
@@ -438,6 +440,7 @@ impl IncomingContext {
         transfers: Arc<FastDashMap<TransferId, RldpTransfer>>,
         subscribers: Arc<Vec<Arc<dyn QuerySubscriber>>>,
         query_options: QueryOptions,
+        max_query_size: u32,
         force_compression: bool,
     ) -> Result<Option<TransferId>> {
         // Deserialize incoming query
@@ -452,13 +455,16 @@ impl IncomingContext {
             local_id: &self.local_id,
             peer_id: &self.peer_id,
         };
-        let answer = match process_rldp_query(ctx, &subscribers, query, force_compression).await? {
-            QueryProcessingResult::Processed(Some(answer)) => answer,
-            QueryProcessingResult::Processed(None) => return Ok(None),
-            QueryProcessingResult::Rejected => {
-                return Err(TransfersCacheError::NoSubscribers.into())
-            }
-        };
+        let answer =
+            match process_rldp_query(ctx, &subscribers, query, max_query_size, force_compression)
+                .await?
+            {
+                QueryProcessingResult::Processed(Some(answer)) => answer,
+                QueryProcessingResult::Processed(None) => return Ok(None),
+                QueryProcessingResult::Rejected => {
+                    return Err(TransfersCacheError::NoSubscribers.into())
+                }
+            };
 
         // Create outgoing transfer
         let outgoing_transfer_id = negate_id(self.transfer_id);
@@ -596,9 +602,11 @@ async fn process_rldp_query(
     ctx: SubscriberContext<'_>,
     subscribers: &[Arc<dyn QuerySubscriber>],
     mut query: OwnedRldpMessageQuery,
+    max_query_size: u32,
     force_compression: bool,
 ) -> Result<QueryProcessingResult<Vec<u8>>> {
-    let answer_compression = match compression::decompress(&query.data) {
+    let query_data = compression::decompress_bounded(&query.data, max_query_size as usize)?;
+    let answer_compression = match query_data {
         Some(decompressed) => {
             query.data = decompressed;
             true
-- 
2.43.0


From 6001a6abde0d3c51f9ddf1b7dfe30c40453a29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 23/50] fix: compare the whole RLDP answer with the announced
 limit

---
 src/rldp/transfers_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 56d58d5..50158a7 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -617,12 +617,13 @@ async fn process_rldp_query(
     match process_query(ctx, subscribers, Cow::Owned(query.data)).await? {
         QueryProcessingResult::Processed(answer) => Ok(match answer {
             Some(mut answer) => {
+                let answer_len = answer.len();
                 if answer_compression {
                     if let Err(e) = compression::compress(&mut answer) {
                         tracing::warn!("failed to compress RLDP answer: {e:?}");
                     }
                 }
-                if answer.len() > query.max_answer_size as usize {
+                if answer_len.max(answer.len()) as u64 > query.max_answer_size {
                     return Err(TransfersCacheError::AnswerSizeExceeded.into());
                 }
 
-- 
2.43.0


From b805cfe4a41cc8c40255ecbbc0cf797b5f5ff621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 24/50] fix: keep RLDP payloads which look compressed intact

---
 src/rldp/compression.rs     | 30 ++++++++++++++++++++++++++++--
 src/rldp/node.rs            |  6 ++----
 src/rldp/transfers_cache.rs |  6 ++----
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 8b1eb54..55f9bce 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -1,11 +1,37 @@
 use std::io::Read;
 
 pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
-    let uncompressed = data.len();
-    if uncompressed <= COMPRESSION_THRESHOLD {
+    if data.len() <= COMPRESSION_THRESHOLD {
         return Ok(());
     }
 
+    compress_any(data)
+}
+
+/// Prepares data for the receiver, which decompresses everything that looks compressed
+pub fn encode(data: &mut Vec<u8>, force_compression: bool) -> std::io::Result<()> {
+    if looks_compressed(data) {
+        compress_any(data)
+    } else if force_compression {
+        compress(data)
+    } else {
+        Ok(())
+    }
+}
+
+/// Whether the receiver could decompress something from these data
+fn looks_compressed(data: &[u8]) -> bool {
+    match data.split_last() {
+        Some((&TAG_COMPRESSED, compressed)) => zstd::stream::Decoder::with_buffer(compressed)
+            .and_then(|mut decoder| decoder.read(&mut [0; 1]))
+            .is_ok(),
+        _ => false,
+    }
+}
+
+fn compress_any(data: &mut Vec<u8>) -> std::io::Result<()> {
+    let uncompressed = data.len();
+
     let mut result = Vec::with_capacity(data.len() + 1);
     ok!(zstd::stream::copy_encode(
         &mut data.as_slice(),
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 4ca9ad8..034ab63 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -171,10 +171,8 @@ impl Node {
     }
 
     fn make_query(&self, mut data: Vec<u8>) -> ([u8; 32], Vec<u8>) {
-        if self.options.force_compression {
-            if let Err(e) = compression::compress(&mut data) {
-                tracing::warn!("failed to compress RLDP query: {e:?}");
-            }
+        if let Err(e) = compression::encode(&mut data, self.options.force_compression) {
+            tracing::warn!("failed to compress RLDP query: {e:?}");
         }
 
         let query_id = gen_fast_bytes();
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 50158a7..0ce08d9 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -618,10 +618,8 @@ async fn process_rldp_query(
         QueryProcessingResult::Processed(answer) => Ok(match answer {
             Some(mut answer) => {
                 let answer_len = answer.len();
-                if answer_compression {
-                    if let Err(e) = compression::compress(&mut answer) {
-                        tracing::warn!("failed to compress RLDP answer: {e:?}");
-                    }
+                if let Err(e) = compression::encode(&mut answer, answer_compression) {
+                    tracing::warn!("failed to compress RLDP answer: {e:?}");
                 }
                 if answer_len.max(answer.len()) as u64 > query.max_answer_size {
                     return Err(TransfersCacheError::AnswerSizeExceeded.into());
-- 
2.43.0


From 3f182df721c303cfc00e65bae5c7398f99792e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 25/50] fix: do not merge overlay nodes with a list which has
 just expired

---
 src/dht/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 5c82479..76abd55 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -154,7 +154,7 @@ impl Storage {
             Entry::Occupied(mut entry) => {
                 let value = {
                     let old_nodes = match entry.get().ttl {
-                        old_ttl if old_ttl < now() => None,
+                        old_ttl if old_ttl <= now() => None,
                         old_ttl if old_ttl > value.ttl => return Ok(false),
                         _ => Some(deserialize_overlay_nodes(&entry.get().value)?),
                     };
-- 
2.43.0


From 7fa66a93fafb07eaca035c3c9cd20e94564c7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 26/50] fix: count DHT queries without an answer as
 unsuccessful

---
 src/dht/node.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..4d09c07 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -454,7 +454,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -472,7 +473,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -489,7 +491,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
-- 
2.43.0


From e9c55d087cbae6155dbb0656718fabc2297c0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 27/50] fix: add penalty points for the first unsuccessful DHT
 query

---
 src/dht/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 4d09c07..11efd3f 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -625,7 +625,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From 1f66d61452abf2e8777103485a31a7f4fb606111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 28/50] fix: do not stop the search for DHT nodes at an invalid
 node

---
 src/dht/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 11efd3f..6660813 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -258,7 +258,12 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count += self.add_dht_peer(node)?.is_some() as usize;
+                        match self.add_dht_peer(node) {
+                            Ok(added) => node_count += added.is_some() as usize,
+                            Err(e) => {
+                                tracing::warn!(%peer_id, "failed to add DHT peer: {e:?}")
+                            }
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0


From 326a2ed9440e4381b382c7506c83ccd2d725f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 29/50] fix: return no DHT nodes when none were asked for

---
 src/dht/buckets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 4d090d2..dea6b00 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -67,10 +67,10 @@ impl Buckets {
                 // Add all nodes from this distance to the result
                 let bucket = &self.buckets[distance as usize];
                 for item in bucket.iter() {
-                    nodes.push(item.value().clone());
                     if nodes.len() >= k as usize {
                         break 'outer;
                     }
+                    nodes.push(item.value().clone());
                 }
 
                 // Skip one different bit:
-- 
2.43.0


From f54ebd1a4677b7575238b1bba765257897c87fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 30/50] fix: refuse nested DHT query prefixes

---
 src/dht/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 6660813..70c6ce1 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -713,7 +713,8 @@ impl QuerySubscriber for NodeState {
                 let proto::rpc::DhtQuery { node } = <_>::read_from(&query, &mut offset)?;
                 let constructor = u32::read_from(&query, &mut std::convert::identity(offset))?;
 
-                if offset >= query.len() {
+                // Prefixes must not be nested
+                if offset >= query.len() || constructor == proto::rpc::DhtQuery::TL_ID {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-- 
2.43.0


From 34aa8b72b733ed21e62b1beb72a45544cd6594e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 31/50] fix: ignore values of other keys in answers of DHT
 nodes

---
 src/dht/entry.rs   | 2 +-
 src/dht/node.rs    | 8 +++++++-
 src/dht/streams.rs | 6 +++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..f4cdda8 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index 70c6ce1..4523951 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -503,6 +503,7 @@ impl Node {
 
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -510,6 +511,11 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
+                // Ignore values of other keys
+                if &tl_proto::hash_as_boxed(value.key.key) != key_id {
+                    return Err(DhtNodeError::InvalidValueKey.into());
+                }
+
                 if value.key.update_rule == proto::dht::UpdateRule::Signature {
                     verify_signed_dht_value(&mut value)?;
                 }
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..a250e6b 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From 878db819b61e5fef74c826dc3c8316ae395be0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 32/50] fix: verify overlay nodes received from DHT nodes

---
 src/dht/node.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 4523951..ea6ce4a 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -516,8 +516,11 @@ impl Node {
                     return Err(DhtNodeError::InvalidValueKey.into());
                 }
 
-                if value.key.update_rule == proto::dht::UpdateRule::Signature {
-                    verify_signed_dht_value(&mut value)?;
+                match value.key.update_rule {
+                    proto::dht::UpdateRule::Signature => verify_signed_dht_value(&mut value)?,
+                    proto::dht::UpdateRule::OverlayNodes => verify_overlay_nodes_value(&value)?,
+                    // There is no proof that such a value belongs to its key
+                    _ => return Err(DhtNodeError::UnsupportedUpdateRule.into()),
                 }
 
                 let parsed = tl_proto::deserialize(value.value)?;
@@ -759,6 +762,31 @@ fn verify_signed_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
     Ok(())
 }
 
+fn verify_overlay_nodes_value(value: &proto::dht::Value<'_>) -> Result<()> {
+    let overlay_id = match value.key.id {
+        everscale_crypto::tl::PublicKey::Overlay { .. } => {
+            overlay::IdShort::from(tl_proto::hash(value.key.id))
+        }
+        _ => return Err(DhtNodeError::InvalidValueKey.into()),
+    };
+
+    let required_key = proto::dht::Key {
+        id: overlay_id.as_slice(),
+        name: KEY_NODES.as_bytes(),
+        idx: 0,
+    };
+    if value.key.key != required_key {
+        return Err(DhtNodeError::InvalidValueKey.into());
+    }
+
+    let proto::overlay::Nodes { nodes } = tl_proto::deserialize_as_boxed(value.value)?;
+    for node in &nodes {
+        overlay_id.verify_overlay_node(node)?;
+    }
+
+    Ok(())
+}
+
 /// Instant DHT node metrics
 #[derive(Debug, Copy, Clone)]
 pub struct NodeMetrics {
@@ -780,4 +808,6 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Unsupported update rule")]
+    UnsupportedUpdateRule,
 }
-- 
2.43.0


From fd83e3acf052f79e2f1c8cadbc739966dcad3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 33/50] fix: ignore expired values in answers of DHT nodes

---
 src/dht/node.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index ea6ce4a..a56d4bb 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -516,6 +516,10 @@ impl Node {
                     return Err(DhtNodeError::InvalidValueKey.into());
                 }
 
+                if value.ttl <= now() {
+                    return Err(DhtNodeError::ValueExpired.into());
+                }
+
                 match value.key.update_rule {
                     proto::dht::UpdateRule::Signature => verify_signed_dht_value(&mut value)?,
                     proto::dht::UpdateRule::OverlayNodes => verify_overlay_nodes_value(&value)?,
@@ -808,6 +812,8 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Value expired")]
+    ValueExpired,
     #[error("Unsupported update rule")]
     UnsupportedUpdateRule,
 }
-- 
2.43.0


From 235f1bc1bff4674ecafa29284f2aa77468778497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 34/50] fix: do not skip the first DHT node learnt during a
 lookup

---
 src/dht/peers_iter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index b755a9e..258da0b 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -60,16 +60,13 @@ impl PeersIter {
 
     fn next_known_peer(&mut self, dht: &Node) -> Option<adnl::NodeIdShort> {
         loop {
-            let peer_id = dht.known_peers().get(self.index);
+            // NOTE: index stays at the end until there are more known peers
+            let peer_id = dht.known_peers().get(self.index)?;
             self.index += 1;
 
-            if let Some(peer) = &peer_id {
-                if dht.is_bad_peer(peer) {
-                    continue;
-                }
+            if !dht.is_bad_peer(&peer_id) {
+                break Some(peer_id);
             }
-
-            break peer_id;
         }
     }
 }
-- 
2.43.0


From 927b3821a38c6776c684dacab8e9826cc53e778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 35/50] fix: do not drop DHT nodes which are closer to the key
 than others

---
 src/dht/peers_iter.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index 258da0b..34ddfeb 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -27,18 +27,7 @@ impl PeersIter {
         while let Some(peer_id) = self.next_known_peer(dht) {
             let affinity = get_affinity(&self.key_id, peer_id.as_slice());
 
-            // Keep adding peer ids until max tasks is reached
-            // or there are values with higher affinity
-            let add = match (self.peer_ids.last(), batch_len) {
-                (None, _) | (_, None) => true,
-                (Some((top_affinity, _)), Some(batch_len)) => {
-                    *top_affinity <= affinity || self.peer_ids.len() < batch_len
-                }
-            };
-
-            if add {
-                self.peer_ids.push((affinity, peer_id))
-            }
+            self.peer_ids.push((affinity, peer_id));
         }
 
         // Sort peer ids by descending affinity
-- 
2.43.0


From 5dc881554a664661d854100af28b6fef407f6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 36/50] fix: stop the search for overlay nodes when there are
 no new ones

---
 src/dht/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index a56d4bb..935ef8c 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -325,6 +325,11 @@ impl Node {
                 });
             }
 
+            // Stop if there is nothing new
+            if futures.is_empty() {
+                break;
+            }
+
             // Wait all results
             while let Some((ip, node)) = futures.next().await {
                 match ip {
-- 
2.43.0


From 97588205c25a676f8cde258fd9c80bebe469c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 37/50] fix: received broadcasts and wake-ups are lost when a
 wait is cancelled

A cancelled wait left its barrier and its count behind: the next
broadcast was announced to nobody, and each one since kept a task
spinning. Elements of the queue are permits of a semaphore now.
---
 src/overlay/broadcast_receiver.rs | 55 +++++++++++++++----------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..d5886a5 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,13 +1,13 @@
-use std::sync::atomic::{AtomicU32, Ordering};
-use std::sync::Arc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use crossbeam_queue::SegQueue;
-use tokio::sync::Barrier;
+use tokio::sync::Semaphore;
 
 pub struct BroadcastReceiver<T> {
     data: SegQueue<T>,
-    barriers: SegQueue<Arc<Barrier>>,
-    sync_lock: AtomicU32,
+    /// Each permit is an element of the queue
+    available: Semaphore,
+    waiting: AtomicUsize,
 }
 
 impl<T: Send + 'static> BroadcastReceiver<T> {
@@ -16,37 +16,34 @@ impl<T: Send + 'static> BroadcastReceiver<T> {
     }
 
     pub fn barriers_len(&self) -> usize {
-        self.barriers.len()
+        self.waiting.load(Ordering::Acquire)
     }
 
-    pub fn push(self: &Arc<Self>, data: T) {
+    pub fn push(&self, data: T) {
         self.data.push(data);
-        let receiver = self.clone();
-        tokio::spawn(async move {
-            while receiver.sync_lock.load(Ordering::Acquire) > 0 {
-                if let Some(barrier) = receiver.barriers.pop() {
-                    barrier.wait().await;
-                    break;
-                } else {
-                    tokio::task::yield_now().await;
-                }
-            }
-        });
+        self.available.add_permits(1);
     }
 
+    /// NOTE: nothing is lost if the future is dropped
     pub async fn pop(&self) -> T {
-        self.sync_lock.fetch_add(1, Ordering::Release);
+        struct Waiting<'a>(&'a AtomicUsize);
+
+        impl Drop for Waiting<'_> {
+            fn drop(&mut self) {
+                self.0.fetch_sub(1, Ordering::Release);
+            }
+        }
+
+        self.waiting.fetch_add(1, Ordering::Release);
+        let _waiting = Waiting(&self.waiting);
+
         loop {
-            match self.data.pop() {
-                Some(data) => {
-                    self.sync_lock.fetch_sub(1, Ordering::Release);
+            // NOTE: the semaphore is never closed
+            if let Ok(permit) = self.available.acquire().await {
+                permit.forget();
+                if let Some(data) = self.data.pop() {
                     return data;
                 }
-                None => {
-                    let barrier = Arc::new(Barrier::new(2));
-                    self.barriers.push(barrier.clone());
-                    barrier.wait().await;
-                }
             }
         }
     }
@@ -56,8 +53,8 @@ impl<T> Default for BroadcastReceiver<T> {
     fn default() -> Self {
         Self {
             data: Default::default(),
-            barriers: Default::default(),
-            sync_lock: Default::default(),
+            available: Semaphore::new(0),
+            waiting: Default::default(),
         }
     }
 }
-- 
2.43.0


From 85b2722b6ac7e455b4afec65f4d0799fe63c40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 38/50] fix: flags of a broadcast are not covered by its
 signature

Each member could change them on the way. FEC broadcasts and other
implementations sign them.
---
 src/overlay/overlay.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 64391a2..56947a7 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -561,8 +561,12 @@ impl Overlay {
 
         let broadcast_data = match compression::decompress(broadcast.data) {
             Some(decompressed) => {
-                let broadcast_to_sign =
-                    make_broadcast_to_sign(&decompressed, broadcast.date, source.as_ref());
+                let broadcast_to_sign = make_broadcast_to_sign(
+                    &decompressed,
+                    broadcast.date,
+                    broadcast.flags,
+                    source.as_ref(),
+                );
                 match node_id.verify(&broadcast_to_sign, broadcast.signature) {
                     Ok(()) => {
                         let broadcast_id = broadcast_to_sign.compute_broadcast_id();
@@ -580,8 +584,12 @@ impl Overlay {
         let (broadcast_id, data) = match broadcast_data {
             Some((id, data)) => (id, data),
             None => {
-                let broadcast_to_sign =
-                    make_broadcast_to_sign(broadcast.data, broadcast.date, source.as_ref());
+                let broadcast_to_sign = make_broadcast_to_sign(
+                    broadcast.data,
+                    broadcast.date,
+                    broadcast.flags,
+                    source.as_ref(),
+                );
                 node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
                 let broadcast_id = broadcast_to_sign.compute_broadcast_id();
@@ -726,7 +734,8 @@ impl Overlay {
         target: BroadcastTarget,
     ) -> OutgoingBroadcastInfo {
         let date = now();
-        let broadcast_to_sign = make_broadcast_to_sign(&data, date, None);
+        let broadcast_to_sign =
+            make_broadcast_to_sign(&data, date, BROADCAST_FLAG_ANY_SENDER, None);
         let broadcast_id = broadcast_to_sign.compute_broadcast_id();
         if !self.create_broadcast(broadcast_id) {
             tracing::warn!(
@@ -1287,6 +1296,7 @@ impl OverlayBroadcastToSign {
 fn make_broadcast_to_sign(
     data: &[u8],
     date: u32,
+    flags: u32,
     source: Option<&adnl::NodeIdShort>,
 ) -> OverlayBroadcastToSign {
     const BROADCAST_ID: u32 = tl_proto::id!("overlay.broadcast.id", scheme = "scheme.tl");
@@ -1295,7 +1305,7 @@ fn make_broadcast_to_sign(
     broadcast_hash.update(BROADCAST_ID.to_le_bytes());
     broadcast_hash.update(source.map(adnl::NodeIdShort::as_slice).unwrap_or(&[0; 32]));
     broadcast_hash.update(sha2::Sha256::digest(data).as_slice());
-    broadcast_hash.update(BROADCAST_FLAG_ANY_SENDER.to_le_bytes());
+    broadcast_hash.update(flags.to_le_bytes());
     let broadcast_hash = broadcast_hash.finalize();
 
     OverlayBroadcastToSign {
-- 
2.43.0


From d396ca8680c1dd3b7a52f7344a123c423f02d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 39/50] fix: broadcasts are relayed with everything that was
 appended to them

---
 src/overlay/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/overlay/node.rs b/src/overlay/node.rs
index 19fbeee..5bdfe7d 100644
--- a/src/overlay/node.rs
+++ b/src/overlay/node.rs
@@ -149,7 +149,9 @@ impl MessageSubscriber for NodeState {
         let overlay_id = IdShort::from(<[u8; 32]>::read_from(data, &mut offset)?);
         let broadcast = proto::overlay::Broadcast::read_from(data, &mut offset)?;
 
-        // TODO: check that offset == data.len()
+        if offset != data.len() {
+            return Err(NodeError::UnexpectedMessageData.into());
+        }
 
         let overlay = self.get_overlay(&overlay_id)?;
         match broadcast {
@@ -213,6 +215,8 @@ impl QuerySubscriber for NodeState {
 enum NodeError {
     #[error("Unsupported overlay broadcast message")]
     UnsupportedOverlayBroadcastMessage,
+    #[error("Unexpected data after the message")]
+    UnexpectedMessageData,
     #[error("Unknown overlay")]
     UnknownOverlay,
     #[error("No consumer for message in overlay")]
-- 
2.43.0


From 90b20514ce716c5ff1baee458ffdd084962b8458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 40/50] fix: broadcasts with future dates break the receiver or
 are received twice

The check of the date overflowed, and a broadcast with a date in the
future was removed from the log before it was outdated.
---
 src/overlay/overlay.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 56947a7..9218e27 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1141,14 +1141,20 @@ impl Overlay {
         }
     }
 
+    /// Whether the date is in the past or in the future more than the broadcast timeout
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        let timeout = self.options.broadcast_timeout_sec;
+        let (date, now) = (date as u64, now() as u64);
+        date.saturating_add(timeout) < now || date > now.saturating_add(timeout)
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
         let overlay = self.clone();
         tokio::spawn(async move {
-            tokio::time::sleep(Duration::from_secs(overlay.options.broadcast_timeout_sec)).await;
+            // NOTE: packets of the broadcast are outdated after that,
+            // otherwise it could be received again when it is removed
+            let interval = overlay.options.broadcast_timeout_sec.saturating_mul(2);
+            tokio::time::sleep(Duration::from_secs(interval.saturating_add(1))).await;
             overlay
                 .finished_broadcast_count
                 .fetch_add(1, Ordering::Release);
-- 
2.43.0


From b2fdf9eef6789bd3a6179b0a30460cf6cf5c1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 41/50] fix: forged packets of a FEC broadcast are relayed and
 break it

The signature was checked only after the packet had started a transfer,
taken the place of the genuine packet in its history and been relayed,
and a wrong one ended the transfer.
---
 src/overlay/overlay.rs | 49 +++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 9218e27..7191190 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -634,10 +634,21 @@ impl Overlay {
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
 
-        let signature = match broadcast.signature.len() {
-            64 => broadcast.signature.try_into().unwrap(),
-            _ => return Err(OverlayError::UnsupportedSignature.into()),
-        };
+        let broadcast_to_sign = make_fec_part_to_sign(
+            &broadcast_id,
+            broadcast.data_size,
+            broadcast.date,
+            broadcast.flags,
+            &broadcast.fec,
+            broadcast.data,
+            broadcast.seqno,
+            if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
+                Some(source)
+            } else {
+                None
+            },
+        );
+        node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
             // First packet of the broadcast
@@ -670,15 +681,10 @@ impl Overlay {
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
             transfer.broadcast_tx.send(BroadcastFec {
-                node_id,
                 data_hash: broadcast_id,
                 data_size: broadcast.data_size,
-                flags: broadcast.flags,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
-                fec_type: broadcast.fec,
-                date: broadcast.date,
-                signature,
             })?;
         }
 
@@ -1245,24 +1251,6 @@ fn process_fec_broadcast(
 ) -> Result<Option<Vec<u8>>> {
     let broadcast_id = &broadcast.data_hash;
 
-    let broadcast_to_sign = &make_fec_part_to_sign(
-        broadcast_id,
-        broadcast.data_size,
-        broadcast.date,
-        broadcast.flags,
-        &broadcast.fec_type,
-        &broadcast.data,
-        broadcast.seqno,
-        if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
-            Some(broadcast.node_id.compute_short_id())
-        } else {
-            None
-        },
-    );
-    broadcast
-        .node_id
-        .verify(broadcast_to_sign, &broadcast.signature)?;
-
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
@@ -1396,15 +1384,10 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    node_id: adnl::NodeIdFull,
     data_hash: BroadcastId,
     data_size: u32,
-    flags: u32,
     data: Vec<u8>,
     seqno: u32,
-    fec_type: proto::rldp::RaptorQFecType,
-    date: u32,
-    signature: [u8; 64],
 }
 
 type VacantBroadcastEntry<'a> =
@@ -1434,8 +1417,6 @@ type BroadcastId = [u8; 32];
 
 #[derive(thiserror::Error, Debug)]
 enum OverlayError {
-    #[error("Unsupported signature")]
-    UnsupportedSignature,
     #[error("Unsupported FEC type")]
     UnsupportedFecType,
     #[error("Data size mismatch")]
-- 
2.43.0


From 398b6657a1317b72ed06b65445704b6fa8034552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 42/50] fix: packets with other FEC parameters corrupt a
 broadcast

---
 src/overlay/overlay.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7191190..44dacc0 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -652,6 +652,9 @@ impl Overlay {
 
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
             // First packet of the broadcast
+            Entry::Vacant(_) if broadcast.data_size != broadcast.fec.total_len => {
+                return Err(OverlayError::FecParamsMismatch.into())
+            }
             Entry::Vacant(entry) => {
                 self.spawn_fec_transfer_receiver(broadcast.fec, broadcast_id, source, entry)?
             }
@@ -673,6 +676,11 @@ impl Overlay {
             return Ok(());
         }
 
+        // Ignore packets which belong to other data
+        if broadcast.fec != transfer.params || broadcast.data_size != transfer.params.total_len {
+            return Err(OverlayError::FecParamsMismatch.into());
+        }
+
         // Ignore duplicate packets
         if !transfer.history.deliver_packet(broadcast.seqno as u64) {
             return Ok(());
@@ -991,6 +999,7 @@ impl Overlay {
                 completed: AtomicBool::new(false),
                 history: PacketsHistory::for_recv(),
                 broadcast_tx,
+                params: fec_type,
                 source: peer_id,
                 updated_at: Default::default(),
             })))
@@ -1367,6 +1376,7 @@ struct IncomingFecTransfer {
     completed: AtomicBool,
     history: PacketsHistory,
     broadcast_tx: BroadcastFecTx,
+    params: proto::rldp::RaptorQFecType,
     source: adnl::NodeIdShort,
     updated_at: UpdatedAt,
 }
@@ -1419,6 +1429,8 @@ type BroadcastId = [u8; 32];
 enum OverlayError {
     #[error("Unsupported FEC type")]
     UnsupportedFecType,
+    #[error("FEC params mismatch")]
+    FecParamsMismatch,
     #[error("Data size mismatch")]
     DataSizeMismatch,
     #[error("Data hash mismatch")]
-- 
2.43.0


From aa849d92adb9a20cd827e47fb3378958e0b30f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 43/50] fix: delayed packets of large FEC broadcasts are
 dropped

The history of ADNL packets only covers the last 512 of them.
---
 src/overlay/overlay.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 44dacc0..d4f058a 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -682,7 +682,7 @@ impl Overlay {
         }
 
         // Ignore duplicate packets
-        if !transfer.history.deliver_packet(broadcast.seqno as u64) {
+        if !transfer.history.insert(broadcast.seqno) {
             return Ok(());
         }
 
@@ -997,7 +997,7 @@ impl Overlay {
         let entry = entry
             .insert(Arc::new(OwnedBroadcast::Incoming(IncomingFecTransfer {
                 completed: AtomicBool::new(false),
-                history: PacketsHistory::for_recv(),
+                history: Default::default(),
                 broadcast_tx,
                 params: fec_type,
                 source: peer_id,
@@ -1374,7 +1374,8 @@ pub struct OutgoingBroadcastInfo {
 
 struct IncomingFecTransfer {
     completed: AtomicBool,
-    history: PacketsHistory,
+    /// Seqnos of all received packets
+    history: FastDashSet<u32>,
     broadcast_tx: BroadcastFecTx,
     params: proto::rldp::RaptorQFecType,
     source: adnl::NodeIdShort,
-- 
2.43.0


From df446123b060d58a3781c5b8b714265db97446d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 44/50] fix: packets of another source take over a FEC
 broadcast

The first packet which announced a hash decided whose packets were
accepted, so that anyone could prevent a broadcast (also an ordinary one,
by its id) with a single packet. Transfers are separate for each source
now, and the broadcast is still received once.
---
 src/overlay/overlay.rs | 76 +++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index d4f058a..d5a907d 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -630,12 +630,13 @@ impl Overlay {
             return Ok(());
         }
 
-        let broadcast_id = *broadcast.data_hash;
+        let data_hash = *broadcast.data_hash;
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
+        let broadcast_id = make_fec_broadcast_id(&data_hash, Some(&source));
 
         let broadcast_to_sign = make_fec_part_to_sign(
-            &broadcast_id,
+            &data_hash,
             broadcast.data_size,
             broadcast.date,
             broadcast.flags,
@@ -650,7 +651,14 @@ impl Overlay {
         );
         node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
+        // Whether this is our broadcast or it was already received from some source
+        let already_received = self
+            .owned_broadcasts
+            .contains_key(&make_fec_broadcast_id(&data_hash, None));
+
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
+            // Broadcast from a different source
+            Entry::Vacant(_) if already_received => return Ok(()),
             // First packet of the broadcast
             Entry::Vacant(_) if broadcast.data_size != broadcast.fec.total_len => {
                 return Err(OverlayError::FecParamsMismatch.into())
@@ -667,14 +675,6 @@ impl Overlay {
         };
 
         transfer.updated_at.refresh();
-        if transfer.source != source {
-            tracing::trace!(
-                overlay_id = %self.id,
-                broadcast_id = %DisplayBroadcastId(&broadcast_id),
-                "same broadcast but parts from different sources"
-            );
-            return Ok(());
-        }
 
         // Ignore packets which belong to other data
         if broadcast.fec != transfer.params || broadcast.data_size != transfer.params.total_len {
@@ -689,7 +689,7 @@ impl Overlay {
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
             transfer.broadcast_tx.send(BroadcastFec {
-                data_hash: broadcast_id,
+                data_hash,
                 data_size: broadcast.data_size,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
@@ -811,7 +811,8 @@ impl Overlay {
         key: &Arc<adnl::Key>,
         target: BroadcastTarget,
     ) -> OutgoingBroadcastInfo {
-        let broadcast_id = sha2::Sha256::digest(&data).into();
+        let data_hash = sha2::Sha256::digest(&data).into();
+        let broadcast_id = make_fec_broadcast_id(&data_hash, None);
         if !self.create_broadcast(broadcast_id) {
             tracing::warn!(
                 overlay_id = %self.id,
@@ -833,7 +834,7 @@ impl Overlay {
 
         let data_size = data.len() as u32;
         let mut outgoing_transfer = OutgoingFecTransfer {
-            broadcast_id,
+            data_hash,
             encoder: RaptorQEncoder::with_data(&data),
             seqno: 0,
         };
@@ -1000,7 +1001,6 @@ impl Overlay {
                 history: Default::default(),
                 broadcast_tx,
                 params: fec_type,
-                source: peer_id,
                 updated_at: Default::default(),
             })))
             .clone();
@@ -1012,17 +1012,22 @@ impl Overlay {
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
                 packets += 1;
+                let data_hash = broadcast.data_hash;
 
                 // Add new data to the encoder
                 match process_fec_broadcast(&mut decoder, broadcast) {
                     // Broadcast complete and successfully decoded
                     Ok(Some(data)) => {
-                        let data = IncomingBroadcastInfo {
-                            packets,
-                            data,
-                            from: peer_id,
-                        };
-                        overlay.received_broadcasts.push(data);
+                        // NOTE: the same broadcast could be received from different sources
+                        let received_id = make_fec_broadcast_id(&data_hash, None);
+                        if overlay.create_broadcast(received_id) {
+                            overlay.received_broadcasts.push(IncomingBroadcastInfo {
+                                packets,
+                                data,
+                                from: peer_id,
+                            });
+                            overlay.spawn_broadcast_gc_task(received_id);
+                        }
                         break;
                     }
                     // Broadcast is not complete yet
@@ -1103,7 +1108,7 @@ impl Overlay {
         let date = now();
 
         let broadcast_to_sign = &make_fec_part_to_sign(
-            &transfer.broadcast_id,
+            &transfer.data_hash,
             transfer.encoder.params().total_len,
             date,
             BROADCAST_FLAG_ANY_SENDER,
@@ -1118,7 +1123,7 @@ impl Overlay {
             proto::overlay::Broadcast::BroadcastFec(proto::overlay::OverlayBroadcastFec {
                 src: key.full_id().as_tl(),
                 certificate: proto::overlay::Certificate::EmptyCertificate,
-                data_hash: &transfer.broadcast_id,
+                data_hash: &transfer.data_hash,
                 data_size: transfer.encoder.params().total_len,
                 flags: BROADCAST_FLAG_ANY_SENDER,
                 data: &chunk,
@@ -1258,21 +1263,18 @@ fn process_fec_broadcast(
     decoder: &mut RaptorQDecoder,
     broadcast: BroadcastFec,
 ) -> Result<Option<Vec<u8>>> {
-    let broadcast_id = &broadcast.data_hash;
+    let data_hash = &broadcast.data_hash;
 
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
         }
         Some(result) => match compression::decompress(&result) {
-            Some(decompressed)
-                if sha2::Sha256::digest(&decompressed).as_slice() == broadcast_id =>
-            {
+            Some(decompressed) if sha2::Sha256::digest(&decompressed).as_slice() == data_hash => {
                 Ok(Some(decompressed))
             }
             _ => {
-                let data_hash = sha2::Sha256::digest(&result);
-                if data_hash.as_slice() == broadcast_id {
+                if sha2::Sha256::digest(&result).as_slice() == data_hash {
                     Ok(Some(result))
                 } else {
                     Err(OverlayError::DataHashMismatch.into())
@@ -1317,6 +1319,19 @@ fn make_broadcast_to_sign(
     }
 }
 
+/// Id of a FEC broadcast, or of its packets from the specified source.
+///
+/// NOTE: other sources must not be able to occupy it, so it is not just a hash of something they choose
+fn make_fec_broadcast_id(data_hash: &[u8; 32], source: Option<&adnl::NodeIdShort>) -> BroadcastId {
+    const BROADCAST_FEC_ID: u32 = tl_proto::id!("overlay.broadcastFec.id", scheme = "scheme.tl");
+
+    let mut broadcast_id = sha2::Sha256::new();
+    broadcast_id.update(BROADCAST_FEC_ID.to_le_bytes());
+    broadcast_id.update(source.map(adnl::NodeIdShort::as_slice).unwrap_or(&[0; 32]));
+    broadcast_id.update(data_hash);
+    broadcast_id.finalize().into()
+}
+
 fn make_fec_part_to_sign(
     data_hash: &[u8; 32],
     data_size: u32,
@@ -1378,12 +1393,11 @@ struct IncomingFecTransfer {
     history: FastDashSet<u32>,
     broadcast_tx: BroadcastFecTx,
     params: proto::rldp::RaptorQFecType,
-    source: adnl::NodeIdShort,
     updated_at: UpdatedAt,
 }
 
 struct OutgoingFecTransfer {
-    broadcast_id: BroadcastId,
+    data_hash: [u8; 32],
     encoder: RaptorQEncoder,
     seqno: u32,
 }
@@ -1395,7 +1409,7 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    data_hash: BroadcastId,
+    data_hash: [u8; 32],
     data_size: u32,
     data: Vec<u8>,
     seqno: u32,
-- 
2.43.0


From 881f17c70275d912422ec19458e4806a7eb44a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 45/50] fix: removed overlay peers stay among neighbours

They were still chosen for broadcasts and told to others.
---
 src/adnl/peers_set.rs  | 31 +++++++++++++++++++++++++++++++
 src/overlay/overlay.rs |  2 +-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index d6c869b..a32cd56 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -131,6 +131,13 @@ impl PeersSet {
         self.state.write().insert(peer_id)
     }
 
+    /// Removes a value from the set. The order of other values is preserved.
+    ///
+    /// If the set had this value present, `true` is returned.
+    pub fn remove(&self, peer_id: &NodeIdShort) -> bool {
+        self.state.write().remove(peer_id)
+    }
+
     pub fn extend<I>(&self, peers: I)
     where
         I: IntoIterator<Item = NodeIdShort>,
@@ -306,6 +313,30 @@ impl PeersSetState {
 
         true
     }
+
+    fn remove(&mut self, peer_id: &NodeIdShort) -> bool {
+        let index = match self.cache.remove(Wrapper::wrap(peer_id)) {
+            Some(index) => index as usize,
+            None => return false,
+        };
+        self.version += 1;
+        self.index.remove(index);
+
+        // Start with the oldest peer, so that new peers could be added to the end
+        let mut upper = self.upper as usize;
+        if index < upper {
+            upper -= 1;
+        }
+        let oldest = upper % self.index.len().max(1);
+        self.index.rotate_left(oldest);
+        self.upper = self.index.len() as u32;
+
+        for (i, peer_id) in self.index.iter().enumerate() {
+            self.cache.insert(peer_id.clone(), i as u32);
+        }
+
+        true
+    }
 }
 
 // SAFETY: internal Rcs are not exposed by the api and the reference
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index d5a907d..386e613 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -315,7 +315,7 @@ impl Overlay {
             return false;
         }
         tracing::warn!(overlay_id = %self.id, %peer_id, "removing public overlay peer");
-        if self.neighbours.contains(peer_id) {
+        if self.neighbours.remove(peer_id) {
             self.update_neighbours(self.options.max_neighbours);
         }
         true
-- 
2.43.0


From de0115816b9da27258a1d3812121e9e5091fc554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 46/50] verif: expose the queue of received broadcasts (cfg
 everscale_verif)

---
 src/overlay/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/overlay/mod.rs b/src/overlay/mod.rs
index cff0972..a2c72a5 100644
--- a/src/overlay/mod.rs
+++ b/src/overlay/mod.rs
@@ -19,6 +19,10 @@ mod node;
 #[allow(clippy::module_inception)]
 mod overlay;
 
+#[cfg(all(feature = "overlay", everscale_verif))]
+#[doc(hidden)]
+pub use broadcast_receiver::BroadcastReceiver;
+
 #[cfg(feature = "overlay")]
 mod node_impl {
     use std::sync::Arc;
-- 
2.43.0


From 48093d205d8acd5be3bdee8ba2eaed46ee5e6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 47/50] fix: own FEC broadcasts are forgotten while they are
 being sent

They could be sent again, or received from the neighbours.
---
 src/overlay/overlay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 386e613..f761787 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -888,10 +888,10 @@ impl Overlay {
                 // Sleep between waves
                 tokio::time::sleep(waves_interval).await;
             }
-        });
 
-        // Schedule broadcast cleanup
-        self.spawn_broadcast_gc_task(broadcast_id);
+            // Schedule broadcast cleanup
+            overlay.spawn_broadcast_gc_task(broadcast_id);
+        });
 
         // Done
         info
-- 
2.43.0


From 6d03ba4eb64c287ab7d678b3991944de23cbcc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 48/50] fix: update the descriptions of known DHT nodes

---
 src/dht/node.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 935ef8c..e738b2b 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -627,13 +627,13 @@ impl NodeState {
             return Ok(None);
         }
 
-        // Add new peer to the bucket
-        if self.known_peers.insert(peer_id) {
-            self.buckets.insert(&peer_id, peer);
-        } else {
+        if !self.known_peers.insert(peer_id) {
             self.set_good_peer(&peer_id);
         }
 
+        // Add new peer to the bucket or update its description there
+        self.buckets.insert(&peer_id, peer);
+
         Ok(Some(peer_id))
     }
 
-- 
2.43.0


From f69a1cddd903d9c4afcfbb6fd9a0d2523e6a83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 49/50] fix: keep using priority channels without packet
 history

The highest seqno received from a peer was only tracked with
`packet_history_enabled`, so by default every peer was treated as one
without priority channels after the first ten priority packets.
---
 src/adnl/node/receiver.rs   | 16 +++++++---------
 src/adnl/node/sender.rs     |  6 +++++-
 src/util/packets_history.rs | 19 ++++++++-----------
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index bdcb56b..593df6e 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -501,15 +501,13 @@ impl Node {
             }
         }
 
-        if self.options.packet_history_enabled {
-            if let Some(seqno) = packet.seqno {
-                if !peer
-                    .receiver_state()
-                    .history(priority)
-                    .deliver_packet(seqno)
-                {
-                    return Ok(None);
-                }
+        if let Some(seqno) = packet.seqno {
+            let history = peer.receiver_state().history(priority);
+            if !self.options.packet_history_enabled {
+                // The sender still has to know whether the peer uses priority channels
+                history.update_seqno(seqno);
+            } else if !history.deliver_packet(seqno) {
+                return Ok(None);
             }
         }
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 0dddb1e..7b88c01 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -257,7 +257,11 @@ impl Node {
             messages,
             address,
             seqno: peer.sender_state().history(priority).bump_seqno(),
-            confirm_seqno: peer.receiver_state().history(priority).seqno(),
+            confirm_seqno: if self.options.packet_history_enabled {
+                peer.receiver_state().history(priority).seqno()
+            } else {
+                0
+            },
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 7e54b29..be9aece 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -61,21 +61,18 @@ impl PacketsHistory {
         self.seqno.fetch_add(1, Ordering::AcqRel) + 1
     }
 
+    /// Updates the highest known seqno without checking whether it is a duplicate
+    pub fn update_seqno(&self, seqno: u64) {
+        self.seqno.fetch_max(seqno, Ordering::AcqRel);
+    }
+
     pub fn deliver_packet(&self, seqno: u64) -> bool {
         let mask = match &self.mask {
             Some(mask) => mask,
-            None => loop {
-                let last_seqno = self.seqno.load(Ordering::Acquire);
-                if last_seqno < seqno
-                    && self
-                        .seqno
-                        .compare_exchange(last_seqno, seqno, Ordering::Release, Ordering::Relaxed)
-                        .is_err()
-                {
-                    continue;
-                }
+            None => {
+                self.update_seqno(seqno);
                 return true;
-            },
+            }
         };
 
         let seqno_masked = seqno & INDEX_MASK;
-- 
2.43.0


From 62fad01aa6a26a20b413124d6f383ec32e6c19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 50/50] fix: redistribute FEC packets which race with the end
 of the transfer

The receiver of a transfer is dropped when the broadcast is complete, a
packet processed at the same time was not passed on because of the failed
send.
---
 src/overlay/overlay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index f761787..0c22633 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -688,12 +688,15 @@ impl Overlay {
 
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
-            transfer.broadcast_tx.send(BroadcastFec {
+            // NOTE: the receiver is dropped as soon as the broadcast is complete,
+            // but its packets must still be redistributed
+            let packet = BroadcastFec {
                 data_hash,
                 data_size: broadcast.data_size,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
-            })?;
+            };
+            transfer.broadcast_tx.send(packet).ok();
         }
 
         // Redistribute broadcast
-- 
2.43.0

