From f45478d559ca55d9120a31f4c014969e3569b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 01/24] hook: expose the root crate's private parsers under
 cfg(vp_hooks)

---
 src/lib.rs     | 13 +++++++++++++
 src/torrent.rs | 31 +++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0a9c04e..07a7361 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,16 @@ mod params;
 mod status;
 mod str_utl;
 mod torrent;
+
+/// Access to private modules for the runtime monitors (off unless built with `--cfg vp_hooks`).
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::download_priority::DownloadPriority;
+    pub use crate::error::Error;
+    pub use crate::magnet_uri::parse_magnet_uri;
+    pub use crate::params::TorrentParams;
+    pub mod str_utl {
+        pub use crate::str_utl::{base32_decode, split_string, trim, unescape_bytes, unescape_string};
+    }
+    pub use crate::torrent::vp_hooks as torrent;
+}
diff --git a/src/torrent.rs b/src/torrent.rs
index 2e948b0..f6ab1ca 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -97,3 +97,34 @@ mod test {
         println!("{:?}", t);
     }
 }
+
+/// Read access to a parsed torrent for the runtime monitors (off unless built with `--cfg vp_hooks`).
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+
+    pub struct View {
+        pub announce_url: String,
+        pub name: Option<String>,
+        pub piece_len: usize,
+        pub pieces: Vec<u8>,
+        pub single_file: bool,
+        pub files: Vec<(PathBuf, usize)>,
+    }
+
+    pub fn parse(bytes: &[u8]) -> Option<View> {
+        let t = Torrent::parse(bytes)?;
+        let (single_file, files) = match t.kind {
+            TorrentKind::File(f) => (true, vec![(f.path, f.len)]),
+            TorrentKind::Directory(v) => (false, v.into_iter().map(|f| (f.path, f.len)).collect()),
+        };
+        Some(View {
+            announce_url: t.announce_url.to_string(),
+            name: t.name,
+            piece_len: t.piece_len,
+            pieces: t.pieces,
+            single_file,
+            files,
+        })
+    }
+}
-- 
2.43.0


From 468a7d29b41e8e53b5831ddff533b7060ea8914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 02/24] hook: read the DHT store's counters under cfg(vp_hooks)

---
 dht/src/storage.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 48371dc..51b7447 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -531,3 +531,18 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         n1.cmp(&n2)
     })
 }
+
+/// The counters, which have no public reader yet: torrents, peers, immutable and mutable items
+/// (for the runtime monitors; off unless built with `--cfg vp_hooks`).
+#[cfg(vp_hooks)]
+impl DefaultDhtStorage<'_> {
+    pub fn vp_counters(&self) -> [i64; 4] {
+        let c = &self.counters;
+        [
+            i64::from(c.torrents),
+            i64::from(c.peers),
+            i64::from(c.immutable_data),
+            i64::from(c.mutable_data),
+        ]
+    }
+}
-- 
2.43.0


From 0c1495d143b71c1a65c658e45ed242614511842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 03/24] hook: call message verification with required keys
 under cfg(vp_hooks)

---
 dht/src/msg.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dht/src/msg.rs b/dht/src/msg.rs
index eec7ab4..12eb81a 100644
--- a/dht/src/msg.rs
+++ b/dht/src/msg.rs
@@ -44,3 +44,21 @@ pub fn verify_message_impl<'a, 'b>(
     }
     Ok(())
 }
+
+/// Verifies `msg` against required keys (key descriptions cannot be made outside this module;
+/// for the runtime monitors; off unless built with `--cfg vp_hooks`).
+#[cfg(vp_hooks)]
+pub fn vp_verify<'a, 'b>(msg: &'b ValueRef<'a>, keys: &[&str]) -> Option<Vec<&'b ValueRef<'a>>> {
+    let desc: Vec<KeyDesc> = keys
+        .iter()
+        .map(|&name| KeyDesc {
+            name,
+            kind: 0,
+            size: 0,
+            flags: Flags::empty(),
+        })
+        .collect();
+    let mut ret = vec![msg; keys.len()];
+    verify_message_impl(msg, &desc, &mut ret).ok()?;
+    Some(ret)
+}
-- 
2.43.0


From a7659e95d0a84a94a98c8a0463a1945ffdd0e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 04/24] fix: copy SIZE - shift_bytes bytes, not eight times as
 many, when shifting a Sha1Hash

---
 common/src/sha1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 911004c..64bb913 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -125,7 +125,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data[shift_bytes..].as_mut_ptr(),
                     self.data.as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[(SIZE - shift_bytes)..]
@@ -162,7 +162,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data.as_mut_ptr(),
                     self.data[shift_bytes..].as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
-- 
2.43.0


From 62cb1c51c7dc1487eb3476b9d560449f6d4a39a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 05/24] fix: combine both nibbles of a byte in hex::from_hex

---
 common/src/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/hex.rs b/common/src/hex.rs
index cd72731..e76042b 100644
--- a/common/src/hex.rs
+++ b/common/src/hex.rs
@@ -30,7 +30,7 @@ pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
         }
         let t2 = hex_to_int(s[i])? & 0xf;
         i += 1;
-        out[j] = t1 & t2;
+        out[j] = t1 | t2;
         j += 1;
     }
     Some(())
-- 
2.43.0


From 43af090ea9917948cc054a3a7f22a5b07d1baf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 06/24] fix: accept an empty byte string at the end of a
 bencode buffer

---
 bencode/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/src/reader.rs b/bencode/src/reader.rs
index 3d71786..2855e9a 100644
--- a/bencode/src/reader.rs
+++ b/bencode/src/reader.rs
@@ -53,7 +53,7 @@ impl<'a> Reader<'a> {
 
     pub fn read_exact(&mut self, len: usize) -> Result<&'a [u8]> {
         let end_index = self.curr_idx + len;
-        if self.curr_idx >= self.buf.len() || end_index > self.buf.len() {
+        if end_index > self.buf.len() {
             self.curr_idx = self.buf.len();
             return Err(Error::EOF);
         }
-- 
2.43.0


From 5a9a2296503aae6599d4dfd1dbb706640a8226f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 07/24] fix: keep the default for a DHT setting that is not an
 integer

---
 dht/src/settings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index dba05c0..f145d5e 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -36,16 +36,16 @@ pub struct Settings {
 
 macro_rules! read_int {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() as usize;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value as usize;
         }
     };
 }
 
 macro_rules! read_bool {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() != 0;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value != 0;
         }
     };
 }
-- 
2.43.0


From 5c9beb463311d634396c40df048dd4f2c900e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 08/24] fix: save and read the remaining DHT settings

---
 dht/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index f145d5e..797d7f2 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -110,6 +110,9 @@ impl DhtSettings {
         set_int!(dict, block_timeout, self);
         set_int!(dict, block_ratelimit, self);
         set_int!(dict, item_lifetime, self);
+        set_int!(dict, upload_rate_limit, self);
+        set_int!(dict, sample_infohashes_interval, self);
+        set_int!(dict, max_infohashes_sample_count, self);
 
         set_bool!(dict, restrict_routing_ips, self);
         set_bool!(dict, restrict_search_ips, self);
@@ -141,6 +144,9 @@ impl DhtSettings {
         read_int!(settings, dict, block_timeout);
         read_int!(settings, dict, block_ratelimit);
         read_int!(settings, dict, item_lifetime);
+        read_int!(settings, dict, upload_rate_limit);
+        read_int!(settings, dict, sample_infohashes_interval);
+        read_int!(settings, dict, max_infohashes_sample_count);
 
         read_bool!(settings, dict, restrict_routing_ips);
         read_bool!(settings, dict, restrict_search_ips);
-- 
2.43.0


From 8a42b061cc07971b1be5ea4e268d0bb3efef54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 09/24] fix: do not store one torrent more than max_torrents

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 51b7447..f792029 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -343,7 +343,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let v = if let Some(v) = self.map.get_mut(info_hash) {
             v
         } else {
-            if self.map.len() > self.settings.max_torrents {
+            if self.map.len() >= self.settings.max_torrents {
                 // we're at capacity, drop the announce
                 return;
             }
-- 
2.43.0


From 833b0b808660cc0f7357c85ef48c1bae8e1eab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 10/24] fix: weigh DHT items with signed arithmetic, as few
 announcers and a long distance underflow

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index f792029..532aaf2 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -526,8 +526,8 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         let dist_1 = crate::node::min_distance_exp(node_1, node_ids);
         let dist_2 = crate::node::min_distance_exp(node_2, node_ids);
 
-        let n1 = t1.num_announcers() / 5 - dist_1;
-        let n2 = t2.num_announcers() / 5 - dist_2;
+        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;
+        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;
         n1.cmp(&n2)
     })
 }
-- 
2.43.0


From 7bd677191281ad7e96736eff59ff8222af774517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 11/24] fix: distance_exp of a node to itself is 0 instead of
 an underflow

---
 dht/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/node.rs b/dht/src/node.rs
index 6972fcc..ff1eb69 100644
--- a/dht/src/node.rs
+++ b/dht/src/node.rs
@@ -20,7 +20,7 @@ pub fn distance_exp(n1: &NodeId, n2: &NodeId) -> usize {
     // TODO: it's a little bit weird to return 159 - leading zeroes. It should
     // probably be 160 - leading zeroes, but all other code in here is tuned to
     // this expectation now, and it doesn't really matter (other than complexity)
-    cmp::max(159 - distance(n1, n2).leading_zeros(), 0)
+    159_usize.saturating_sub(distance(n1, n2).leading_zeros())
 }
 
 pub fn min_distance_exp(n1: &NodeId, ids: &[NodeId]) -> usize {
-- 
2.43.0


From 38601e7dd1be25ef82e4deec24f7790501f744a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 12/24] fix: drop a DHT item when no item may be stored at all

---
 dht/src/storage.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 532aaf2..d344017 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -407,8 +407,11 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let mut i = self.immutable_table.get_mut(target);
         if i.is_none() {
             if self.immutable_table.len() >= self.settings.max_dht_items {
-                let (k, _) = pick_least_imp(&self.node_ids, &self.immutable_table).unwrap();
-                let k = k.clone();
+                let k = match pick_least_imp(&self.node_ids, &self.immutable_table) {
+                    Some((k, _)) => k.clone(),
+                    // there is no room for any item
+                    None => return,
+                };
                 self.immutable_table.remove(&k);
                 self.counters.immutable_data -= 1;
             }
@@ -479,8 +482,11 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                 // this is the case where we don't have an item in this slot
                 // make sure we don't add too many items
                 if self.mutable_table.len() >= self.settings.max_dht_items {
-                    let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
-                    let key = key.clone();
+                    let key = match pick_least_imp(&self.node_ids, &self.mutable_table) {
+                        Some((key, _)) => key.clone(),
+                        // there is no room for any item
+                        None => return,
+                    };
                     self.mutable_table.remove(&key);
                     self.counters.mutable_data += 1;
                 }
-- 
2.43.0


From 655f0bd92a898f81d445183da62b78ece69ae66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 13/24] fix: count an evicted mutable item down

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index d344017..f7bb376 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -488,7 +488,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                         None => return,
                     };
                     self.mutable_table.remove(&key);
-                    self.counters.mutable_data += 1;
+                    self.counters.mutable_data -= 1;
                 }
                 let mut item = DhtMutableItem::new(buf.to_vec());
                 item.seq = seq;
-- 
2.43.0


From 6d33d034846bd72a6dd46ce1bfad1e61a54f5c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 14/24] fix: add the peer list to a get_peers reply that has
 none yet

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index f7bb376..b54f429 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -288,8 +288,8 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             }
 
             let pe = peer_map
-                .get_mut("values")
-                .unwrap()
+                .entry("values".to_string())
+                .or_insert_with(|| Value::with_list(vec![]))
                 .as_list_mut()
                 .ok_or_else(|| bencode::Error::ParseList)?;
 
-- 
2.43.0


From dcf8c5d3a1b503deb8a9204933cb80257df26ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 15/24] fix: pick every peer of a get_peers reply with the same
 chance

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index b54f429..0be74b8 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -305,7 +305,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
 
                 assert!(candidates >= to_pick);
                 candidates -= 1;
-                if random::random_usize(candidates + 1) > to_pick {
+                if random::random_usize(candidates + 1) >= to_pick {
                     continue;
                 }
 
-- 
2.43.0


From dd3f338f840326154359530ef6335bd1a156ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 16/24] fix: one peer entry per IP address and port, whatever
 the IPv6 scope or flow label

---
 dht/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 0be74b8..9fff2dc 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -328,7 +328,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&requester_entry) {
-            Ok(i) => Ok(&peersv[i].addr != requester),
+            Ok(_) => Ok(false),
             Err(_) => Ok(true),
         }
     }
@@ -371,13 +371,12 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&peer) {
-            Ok(i) if &peersv[i].addr == endpoint => peersv[i] = peer,
-            v => {
+            Ok(i) => peersv[i] = peer,
+            Err(i) => {
                 if peersv.len() >= self.settings.max_peers {
                     // we're at capacity, drop the announce
                     return;
                 } else {
-                    let i = v.unwrap_or_else(|x| x);
                     peersv.insert(i, peer);
                     self.counters.peers += 1;
                 }
-- 
2.43.0


From 9d608ea6774d48845dc52b7b4fcf780789796174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 17/24] fix: lower_bound gives the first element not less than
 the value

---
 dht/src/detail.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/detail.rs b/dht/src/detail.rs
index 87502f6..7530df4 100644
--- a/dht/src/detail.rs
+++ b/dht/src/detail.rs
@@ -52,7 +52,7 @@ pub fn read_v6_socket_address<R: io::Read>(reader: &mut R) -> io::Result<SocketA
 pub fn lower_bound<T: PartialOrd>(values: &[T], value_to_check: &T) -> usize {
     let mut i = 0;
     for v in values {
-        if value_to_check > v {
+        if v >= value_to_check {
             break;
         }
         i += 1;
-- 
2.43.0


From 04b32dcd0546814d6371d09cfe152b60f0edf6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 18/24] fix: a magnet link with a malformed hex info-hash is an
 error, not a panic

---
 src/magnet_uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index cb48cbb..3ee5de3 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -64,7 +64,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut s = Sha1Hash::new();
                 match value.len() {
                     40 => {
-                        hex::from_hex(value.as_bytes(), &mut s).unwrap();
+                        hex::from_hex(value.as_bytes(), &mut s).ok_or(Error::InvalidInfoHash)?;
                     }
                     32 => {
                         let ih = str_utl::base32_decode(value.as_bytes());
-- 
2.43.0


From c4ceaf48f87d88314a3826ed925d54203c483d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 19/24] fix: move past a skipped token of a magnet link's file
 selection

---
 src/magnet_uri.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index 3ee5de3..5188180 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -90,6 +90,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut value = value.as_bytes();
                 while !value.is_empty() {
                     let (token, rest) = str_utl::split_string(value, b',');
+                    value = rest;
                     if token.is_empty() {
                         continue;
                     }
@@ -146,8 +147,6 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                     for i in idx1..=idx2 {
                         p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;
                     }
-
-                    value = rest;
                 }
             }
             "x.pe" => {
-- 
2.43.0


From 48d852514d1a1ab967ec3c5b071a030bffbb6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 20/24] fix: a padding character stands for no data in base32,
 also at the start of a group

---
 src/str_utl.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/str_utl.rs b/src/str_utl.rs
index 51f462b..2d97e5b 100644
--- a/src/str_utl.rs
+++ b/src/str_utl.rs
@@ -140,7 +140,7 @@ pub fn trim(mut s: &[u8]) -> &[u8] {
     s
 }
 
-const INPUT_OUTPUT_MAPPING: [usize; 9] = [5, 1, 1, 2, 2, 3, 4, 4, 5];
+const INPUT_OUTPUT_MAPPING: [usize; 9] = [0, 1, 1, 2, 2, 3, 4, 4, 5];
 
 pub fn base32_decode(s: &[u8]) -> Vec<u8> {
     let mut in_buf = [0u8; 8];
@@ -151,10 +151,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
     let mut i = 0;
     while i < s.len() {
         let available = in_buf.len().min(s.len() - i);
-        let mut pad_start = 0;
-        if available < 8 {
-            pad_start = available;
-        }
+        let mut pad_start = available;
 
         in_buf.iter_mut().for_each(|c| *c = 0);
         for j in 0..available {
@@ -164,9 +161,7 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
                 b'A'..=b'Z' => c - b'A',
                 b'2'..=b'7' => c - b'2' + (b'Z' - b'A') + 1,
                 b'=' => {
-                    if pad_start == 0 {
-                        pad_start = j;
-                    }
+                    pad_start = pad_start.min(j);
                     0
                 }
                 b'1' => b'I' - b'A',
-- 
2.43.0


From 9bc324fd8b8739c6664f33cc2aa38d9ecfbc3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 21/24] fix: a torrent with a negative length or no piece
 length is invalid

---
 src/torrent.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index f6ab1ca..5c5f732 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
 
@@ -40,7 +41,10 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
-        let piece_len = info.get("piece length")?.as_int()? as usize;
+        let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
+        if piece_len == 0 {
+            return None;
+        }
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
             return None;
@@ -53,7 +57,7 @@ impl Torrent {
                 // Can't have `files` key at the same time
                 return None;
             }
-            let len = len.as_int()? as usize;
+            let len = usize::try_from(len.as_int()?).ok()?;
             kind = TorrentKind::File(TorrentFile {
                 path: name.into(),
                 len,
@@ -64,7 +68,7 @@ impl Torrent {
             let mut dir = vec![];
             for file in files.as_list()? {
                 let file = file.as_dict()?;
-                let len = file.get("length")?.as_int()? as usize;
+                let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
-- 
2.43.0


From 7d006f1734716677b96f66dd79361c2ee5736c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 22/24] fix: a torrent whose files would be outside of the
 download directory is invalid

---
 src/torrent.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 5c5f732..7c56d84 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,5 +1,5 @@
 use std::convert::TryFrom;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use url::Url;
 
 #[derive(Debug)]
@@ -40,7 +40,7 @@ impl Torrent {
 
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
-        let name = info.get("name")?.as_str()?;
+        let name = info.get("name")?.as_str().filter(|s| is_file_name(s))?;
         let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         if piece_len == 0 {
             return None;
@@ -71,7 +71,10 @@ impl Torrent {
                 let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
-                    path.push(segment.as_str()?);
+                    path.push(segment.as_str().filter(|s| is_file_name(s))?);
+                }
+                if path.as_os_str().is_empty() {
+                    return None;
                 }
                 dir.push(TorrentFile { path, len });
             }
@@ -90,6 +93,16 @@ impl Torrent {
     }
 }
 
+/// Whether a name from a torrent is a plain file name, which can't lead out of the
+/// directory it is put in.
+fn is_file_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(c)), None) => c == name,
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From b8a6cdebc2a41955f42c19fc701f450bc8dcbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 23/24] fix: shift a Sha1Hash within one borrow, as the second
 pointer invalidated the first

---
 common/src/sha1.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 64bb913..ea06bdf 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -121,13 +121,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
 
         if shift_bytes > 0 {
             debug_assert!(shift_bytes < self.data.len());
-            unsafe {
-                std::ptr::copy(
-                    self.data[shift_bytes..].as_mut_ptr(),
-                    self.data.as_mut_ptr(),
-                    SIZE - shift_bytes,
-                );
-            }
+            self.data.copy_within(shift_bytes.., 0);
             self.data[(SIZE - shift_bytes)..]
                 .iter_mut()
                 .for_each(|v| *v = 0);
@@ -158,13 +152,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
 
         if shift_bytes > 0 {
             debug_assert!(shift_bytes < self.data.len());
-            unsafe {
-                std::ptr::copy(
-                    self.data.as_mut_ptr(),
-                    self.data[shift_bytes..].as_mut_ptr(),
-                    SIZE - shift_bytes,
-                );
-            }
+            self.data.copy_within(..SIZE - shift_bytes, shift_bytes);
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
             shift -= shift_bytes * 8;
         }
-- 
2.43.0


From dbf229dddbd4e187ceb5c8a406402d1ef33c8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 24/24] hook: counters are read whatever their integer type

---
 dht/src/storage.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 9fff2dc..356e69c 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -544,10 +544,10 @@ impl DefaultDhtStorage<'_> {
     pub fn vp_counters(&self) -> [i64; 4] {
         let c = &self.counters;
         [
-            i64::from(c.torrents),
-            i64::from(c.peers),
-            i64::from(c.immutable_data),
-            i64::from(c.mutable_data),
+            c.torrents as i64,
+            c.peers as i64,
+            c.immutable_data as i64,
+            c.mutable_data as i64,
         ]
     }
 }
-- 
2.43.0

