From 1048abbbce61215290d6e7d04a6e3d904abe1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 01/30] Add verification hooks behind cfg(dnssec_prover_verif)

---
 src/validation.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..c981b67 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -30,9 +30,47 @@ pub fn root_hints() -> Vec<DS> {
 		name: ".".try_into().unwrap(), key_tag: 47005, alg: 13, digest_type: 2,
 		digest: hex_lit::hex!("2eb6e9f2480126691594d649a5a613de3052e37861634641bb568746f2ffc4d4").to_vec(),
 	});
+	#[cfg(dnssec_prover_verif)]
+	res.extend(verif_hooks::extra_root_anchors());
 	res
 }
 
+/// Hooks for verification harnesses. These only exist when building with
+/// `--cfg=dnssec_prover_verif` and must never be enabled in any other build.
+#[cfg(dnssec_prover_verif)]
+pub mod verif_hooks {
+	extern crate std;
+
+	use alloc::vec::Vec;
+	use core::cell::{Cell, RefCell};
+
+	use crate::rr::DS;
+
+	std::thread_local! {
+		static EXTRA_ROOT_ANCHORS: RefCell<Vec<DS>> = RefCell::new(Vec::new());
+		static SIGNATURE_CHECKS: Cell<u64> = Cell::new(0);
+	}
+
+	/// Sets additional root trust anchors which will be trusted on the current thread.
+	pub fn set_extra_root_anchors(anchors: Vec<DS>) {
+		EXTRA_ROOT_ANCHORS.with(|a| *a.borrow_mut() = anchors);
+	}
+
+	pub(super) fn extra_root_anchors() -> Vec<DS> {
+		EXTRA_ROOT_ANCHORS.with(|a| a.borrow().clone())
+	}
+
+	pub(super) fn count_signature_check() {
+		SIGNATURE_CHECKS.with(|c| c.set(c.get() + 1));
+	}
+
+	/// Resets the count of cryptographic signature checks made on the current thread, returning
+	/// its previous value.
+	pub fn take_signature_checks() -> u64 {
+		SIGNATURE_CHECKS.with(|c| c.replace(0))
+	}
+}
+
 #[derive(Debug, PartialEq)]
 /// An error when validating DNSSEC signatures or other data
 pub enum ValidationError {
@@ -118,6 +156,9 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 				record.write_u16_len_prefixed_data(&mut signed_data);
 			}
 
+			#[cfg(dnssec_prover_verif)]
+			verif_hooks::count_signature_check();
+
 			let sig_validation = match sig.alg {
 				8|10 => {
 					let alg = if sig.alg == 8 {
-- 
2.43.0


From 46b44d2b5baa87253ae83e4e79b4eccff72f79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:48 +0000
Subject: [PATCH 02/30] fix: Write the correct data length for empty TXT
 records

---
 src/rr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..c5ccc95 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -296,7 +296,8 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// Note that an empty record still contains a single (empty) string.
+		let len = (self.data.len() + core::cmp::max((self.data.len() + 254) / 255, 1)) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From 60fe8f77150d9a5541c4dd2bff347334da1a3dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 03/30] fix: Emit valid JSON with the right type for RRSIG
 records

---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index c5ccc95..ff677a2 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -591,7 +591,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From 13cb0004afff98d5251f95c48426e8e8a547e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:17 +0000
Subject: [PATCH 04/30] fix: Escape backslashes in names when encoding records
 as JSON

---
 src/rr.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index ff677a2..b526166 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -44,6 +44,8 @@ impl Name {
 			self.as_str().splitn(labels as usize - n as usize + 1, ".").last()
 		}
 	}
+	/// The only character allowed in a [`Name`] which needs escaping in a JSON string is '\\'.
+	fn json(&self) -> String { self.0.replace('\\', "\\\\") }
 }
 impl core::ops::Deref for Name {
 	type Target = str;
@@ -279,10 +281,10 @@ impl StaticRecord for Txt {
 	fn json(&self) -> String {
 		if let Ok(s) = core::str::from_utf8(&self.data) {
 			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\') {
-				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.0, s);
+				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.json(), s);
 			}
 		}
-		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.0, &self.data[..])
+		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.json(), &self.data[..])
 	}
 	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		let mut parsed_data = Vec::with_capacity(data.len().saturating_sub(1));
@@ -341,7 +343,7 @@ impl StaticRecord for TLSA {
 		let mut out = String::with_capacity(128+self.data.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"tlsa\",\"name\":\"{}\",\"usage\":{},\"selector\":{},\"data_ty\":{},\"data\":\"",
-			self.name.0, self.cert_usage, self.selector, self.data_ty
+			self.name.json(), self.cert_usage, self.selector, self.data_ty
 		).expect("Write to a String shouldn't fail");
 		for c in self.data.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -379,7 +381,7 @@ impl StaticRecord for CName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"cname\",\"name\":\"{}\",\"canonical_name\":\"{}\"}}",
-			self.name.0, self.canonical_name.0)
+			self.name.json(), self.canonical_name.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -410,7 +412,7 @@ impl StaticRecord for DName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"dname\",\"name\":\"{}\",\"delegation_name\":\"{}\"}}",
-			self.name.0, self.delegation_name.0)
+			self.name.json(), self.delegation_name.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -446,7 +448,7 @@ impl StaticRecord for DnsKey {
 		let mut out = String::with_capacity(128+self.pubkey.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"dnskey\",\"name\":\"{}\",\"flags\":{},\"protocol\":{},\"alg\":{},\"pubkey\":\"",
-			self.name.0, self.flags, self.protocol, self.alg
+			self.name.json(), self.flags, self.protocol, self.alg
 		).expect("Write to a String shouldn't fail");
 		for c in self.pubkey.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -517,7 +519,7 @@ impl StaticRecord for DS {
 		let mut out = String::with_capacity(128+self.digest.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"key_tag\":{},\"alg\":{},\"digest_type\":{},\"digest\":\"",
-			self.name.0, self.key_tag, self.alg, self.digest_type
+			self.name.json(), self.key_tag, self.alg, self.digest_type
 		).expect("Write to a String shouldn't fail");
 		for c in self.digest.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -592,7 +594,7 @@ impl StaticRecord for RRSig {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
-			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
+			self.name.json(), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.json()
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -695,7 +697,7 @@ impl StaticRecord for NSec {
 		let mut out = String::with_capacity(256 + self.next_name.len());
 		write!(&mut out,
 			"{{\"type\":\"nsec\",\"name\":\"{}\",\"next_name\":\"{}\",\"types\":",
-			self.name.0, self.next_name.0,
+			self.name.json(), self.next_name.json(),
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -751,7 +753,7 @@ impl StaticRecord for NSec3 {
 		let mut out = String::with_capacity(256);
 		write!(&mut out,
 			"{{\"type\":\"nsec3\",\"name\":\"{}\",\"hash_algo\":{},\"flags\":{},\"hash_iterations\":{},\"salt\":{:?},\"next_name_hash\":{:?},\"types\":",
-			self.name.0, self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
+			self.name.json(), self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -796,7 +798,7 @@ impl StaticRecord for A {
 	const TYPE: u16 = A_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 4 { return Err(()); }
@@ -824,7 +826,7 @@ impl StaticRecord for AAAA {
 	const TYPE: u16 = AAAA_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 16 { return Err(()); }
@@ -855,7 +857,7 @@ impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.0, self.name_server.0)
+		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.json(), self.name_server.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-- 
2.43.0


From f3e27f3be5743c9f0675dc2cc2386bdc074f75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:44 +0000
Subject: [PATCH 05/30] fix: Reject names with empty labels

---
 src/rr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rr.rs b/src/rr.rs
index b526166..fdfb2f4 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -66,6 +66,8 @@ impl TryFrom<String> for Name {
 		for label in s.split(".") {
 			if label.len() > 63 { return Err(()); }
 		}
+		// The only empty label allowed is the root at the end.
+		if s != "." && s[..s.len() - 1].split(".").any(|label| label.is_empty()) { return Err(()); }
 
 		Ok(Name(s.to_ascii_lowercase()))
 	}
-- 
2.43.0


From 094443658eacb6cdd0942be6641a6f6c56f13b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:52 +0000
Subject: [PATCH 06/30] fix: Reject wire names with overlong labels or dots
 inside of labels

---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..6a53461 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -86,7 +86,11 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;
 			break;
 		}
+		// Lengths beyond 63 are pointers or reserved, and a '.' inside a label would become two labels
+		// in our text form, changing the name.
+		if len > 63 { return Err(()); }
 		if inp.len() <= len { return Err(()); }
+		if inp[..len].contains(&b'.') { return Err(()); }
 		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
 		*name += ".";
 		*inp = &inp[len..];
-- 
2.43.0


From e303813e0ec697c604d03fb0b6735eaee37ef453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:59 +0000
Subject: [PATCH 07/30] fix: Reject NS, CNAME and DNAME records with trailing
 data

---
 src/rr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fdfb2f4..7220203 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -387,7 +387,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -418,7 +418,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -863,7 +863,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From b3de10eeb56880b4988293d8e43941b63a57f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 08/30] fix: Reject NSEC type bitmap blocks longer than 32
 bytes

---
 src/ser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ser.rs b/src/ser.rs
index 6a53461..e0db692 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -66,6 +66,7 @@ pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()>
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
+		if len > 32 { return Err(()); }
 		if inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
-- 
2.43.0


From b66cdef9dd2a664bc396fcc3ad62b24ce9916306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:52 +0000
Subject: [PATCH 09/30] fix: Make Ord and PartialOrd for TXT records agree

---
 src/rr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 7220203..29fd25e 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -247,7 +247,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -261,8 +261,11 @@ pub struct Txt {
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
 impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -274,7 +277,7 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
 impl StaticRecord for Txt {
-- 
2.43.0


From 7e0acc612863dee5a496e66a79c37a1ddecbd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:04 +0000
Subject: [PATCH 10/30] fix: Sort records containing names by their wire
 encoding, as DNSSEC requires

---
 src/rr.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 29fd25e..2a1181d 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -216,6 +216,25 @@ pub(crate) trait StaticRecord : Ord + Sized {
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>);
 	fn read_from_data(name: Name, data: &[u8], wire_packet: &[u8]) -> Result<Self, ()>;
 }
+/// DNSSEC requires the records in a set be sorted by their wire-encoded data. For records which
+/// contain names or multiple variable-length fields that isn't the order of the individual fields.
+macro_rules! impl_wire_ord { ($($ty: ident),*) => { $(
+	impl Ord for $ty {
+		fn cmp(&self, o: &$ty) -> Ordering {
+			self.name.cmp(&o.name).then_with(|| {
+				let (mut data, mut o_data) = (Vec::new(), Vec::new());
+				StaticRecord::write_u16_len_prefixed_data(self, &mut data);
+				StaticRecord::write_u16_len_prefixed_data(o, &mut o_data);
+				data[2..].cmp(&o_data[2..])
+			})
+		}
+	}
+	impl PartialOrd for $ty {
+		fn partial_cmp(&self, o: &$ty) -> Option<Ordering> { Some(self.cmp(o)) }
+	}
+)* } }
+impl_wire_ord!(NS, CName, DName, RRSig, NSec, NSec3);
+
 /// A trait describing a resource record (including the [`RR`] enum).
 pub trait Record : Ord {
 	/// The resource record type, as maintained by IANA.
@@ -371,7 +390,7 @@ impl StaticRecord for TLSA {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Canonical Name resource record, referring all queries for this name to another name.
 pub struct CName {
 	/// The name this record is at.
@@ -400,7 +419,7 @@ impl StaticRecord for CName {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Delegation Name resource record, referring all queries for subdomains of this name to another
 /// subtree of the DNS.
 pub struct DName {
@@ -549,7 +568,7 @@ impl StaticRecord for DS {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Resource Record (set) Signature resource record. This contains a signature over all the
 /// resources records of the given type at the given name.
 pub struct RRSig {
@@ -682,7 +701,7 @@ impl NSecTypeMask {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Next Secure Record resource record. This indicates a range of possible names for which there
 /// is no such record.
 pub struct NSec {
@@ -724,7 +743,7 @@ impl StaticRecord for NSec {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Next Secure Record resource record. This indicates a range of possible names for which there
 /// is no such record.
 pub struct NSec3 {
@@ -845,7 +864,7 @@ impl StaticRecord for AAAA {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Name Server resource record, which indicates the server responsible for handling queries for
 /// a zone.
 pub struct NS {
-- 
2.43.0


From 59fe44dac35bd4601af069de4f03f09a944b02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:14 +0000
Subject: [PATCH 11/30] fix: Compare QueryBufs by their contents and don't
 panic when overfilling them

---
 src/query.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..c6183a1 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -27,7 +27,7 @@ const STACK_BUF_LIMIT: u16 = 32;
 const STACK_BUF_LIMIT: u16 = 2048;
 
 /// A buffer for storing queries and responses.
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct QueryBuf {
 	buf: [u8; STACK_BUF_LIMIT as usize],
 	heap_buf: Vec<u8>,
@@ -48,6 +48,7 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
+		let sl = &sl[..cmp::min(sl.len(), (u16::MAX - self.len) as usize)];
 		let new_len = self.len.saturating_add(sl.len() as u16);
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
@@ -73,6 +74,11 @@ impl QueryBuf {
 		}
 	}
 }
+impl PartialEq for QueryBuf {
+	// Ignore any stale bytes in the buffer which isn't in use.
+	fn eq(&self, o: &Self) -> bool { **self == **o }
+}
+impl Eq for QueryBuf {}
 impl ops::Deref for QueryBuf {
 	type Target = [u8];
 	fn deref(&self) -> &[u8] {
-- 
2.43.0


From e58989db49ee21d4024f4bb6446c37fcf99b0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:13 +0000
Subject: [PATCH 12/30] fix: Walk each zone at most once when verifying a proof

---
 src/validation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index c981b67..9f1e0e8 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -393,10 +393,13 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
+	// Zones which we've already walked (or are walking). Each zone is only ever walked once, no
+	// matter how many DS sets there are for it.
+	let mut reached_zones: Vec<&str> = Vec::with_capacity(4);
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
-	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
+	'next_zone: while reached_zones.is_empty() || !pending_ds_sets.is_empty() {
 		let next_ds_set;
 		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
 			next_ds_set = Some(ds_set);
@@ -405,6 +408,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			debug_assert_eq!(zone, ".");
 			next_ds_set = None;
 		}
+		reached_zones.push(zone);
 
 		let dnskey_rrsigs = inp.iter()
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
@@ -445,7 +449,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					if !reached_zones.contains(&rrsig.name.as_str()) &&
+						!pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str())
+					{
 						pending_ds_sets.push((
 							&rrsig.name,
 							signed_records.filter_map(|rr|
-- 
2.43.0


From 1d2ade6fd6ce9f2d88c78b8cb5a20aca20e1e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 13/30] fix: Only let the wildcard's own zone deny the next
 closer name, and only strictly

---
 src/validation.rs | 48 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 9f1e0e8..3710eba 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -331,6 +331,12 @@ fn resolve_time(time: u32) -> u64 {
 	}
 }
 
+/// Checks whether `name` is equal to, or (label-wise) below, `zone`.
+fn is_in_zone(name: &str, zone: &str) -> bool {
+	zone == "." ||
+		name.strip_suffix(zone).map(|prefix| prefix.is_empty() || prefix.ends_with('.')).unwrap_or(false)
+}
+
 fn nsec_ord(a: &str, b: &str) -> Ordering {
 	let mut a_label_iter = a.rsplit(".");
 	let mut b_label_iter = b.rsplit(".");
@@ -362,7 +368,7 @@ fn nsec_ord(a: &str, b: &str) -> Ordering {
 		}
 	}
 }
-fn nsec_ord_extra<T, U>(a: &(&str, T, U), b: &(&str, T, U)) -> Ordering {
+fn nsec_ord_extra<T>(a: &(&str, T), b: &(&str, T)) -> Ordering {
 	nsec_ord(a.0, b.0)
 }
 
@@ -392,6 +398,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut zone = ".";
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
+	// NSEC/NSEC3 records which have been verified, as well as the zone which signed them.
+	let mut non_existence_rrs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	// Zones which we've already walked (or are walking). Each zone is only ever walked once, no
 	// matter how many DS sets there are for it.
@@ -475,7 +483,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
+					}
+					if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+						non_existence_rrs.extend(signed_records.clone().map(|rr| (rr, &rrsig.key_name)));
 					}
 					for record in signed_records {
 						if !res.contains(&record) { res.push(record); }
@@ -490,23 +501,24 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {
+		// Only the zone which holds the wildcard can say that nothing closer exists, and it has to
+		// say that the name itself doesn't exist at all (i.e. a record which matches the name, or
+		// one which shows that there are names below it, isn't enough).
+		let zone_non_existence_rrs = non_existence_rrs.iter()
+			.filter(|(_, signing_zone)| *signing_zone == zone);
+		let nsec_search = zone_non_existence_rrs.clone()
+			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
+			let name_contained = nsec_ord(&nsec.name, name) == Ordering::Less &&
 				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+			if name_contained && !is_in_zone(&nsec.next_name, name) {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		let nsec3_search = zone_non_existence_rrs
+			.filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
@@ -559,12 +571,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From 2feed588ba19f2707c1b534fb509c69d25066eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 14/30] fix: Accept the last NSEC3 record of a zone as denial

---
 src/validation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 3710eba..8e869a9 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -571,8 +571,14 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_contained =
-				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let after_start = name_hash.as_ref() > &start_hash[..];
+			let before_end = name_hash.as_ref() < &nsec3.next_name_hash[..];
+			let hash_contained = if start_hash < nsec3.next_name_hash {
+				after_start && before_end
+			} else {
+				// The last NSEC3 record's next hash is the first one in the zone.
+				after_start || before_end
+			};
 			if hash_contained {
 				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
-- 
2.43.0


From d83514ce7dffe6974ad4d8f92dac5443f3dbd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:23 +0000
Subject: [PATCH 15/30] fix: Don't require a non-existence proof for records at
 a wildcard's own name

---
 src/validation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 8e869a9..1e0f9f6 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -469,7 +469,11 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 					}
 				},
 				_ => {
-					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {
+					// The label count of an RRSIG doesn't include the `*` of a wildcard. Thus, records at
+					// the wildcard's own name weren't expanded and don't need a non-existence proof.
+					let is_wildcard_owner = rrsig.name.starts_with("*.") &&
+						rrsig.labels as usize + 1 == rrsig.name.labels() as usize;
+					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && !is_wildcard_owner {
 						if rrsig.ty == NSec3::TYPE {
 							// NSEC3 records should never appear on wildcards, so treat the
 							// whole proof as invalid
-- 
2.43.0


From a29ad1207d83bdd1e54e77cbf4a154481d6a3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 16/30] fix: Ignore signatures over DNSKEY sets by keys which
 aren't in the DS set

---
 src/validation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 1e0f9f6..f370bf8 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -262,6 +262,11 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	let mut found_unsupported_alg = false;
 	for sig in sigs {
+		// Zones often also sign their DNSKEY set with keys which aren't in the DS set (e.g. their
+		// ZSK or a key which is being rolled). Those don't tell us anything, so ignore them.
+		let key_validated = validated_dnskeys.iter()
+			.any(|key| key.key_tag() == sig.key_tag && key.alg == sig.alg);
+		if !key_validated { continue; }
 		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
 			Ok(()) => return Ok(sig),
 			Err(ValidationError::UnsupportedAlgorithm) => {
-- 
2.43.0


From 295d1706bea3b23e02e60cedda41a9bba857410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 17/30] fix: Correct an off-by-one in signature times past 2106

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index f370bf8..c9cdcd7 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -330,7 +330,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (1u64 << 32)
 	} else {
 		time.into()
 	}
-- 
2.43.0


From 62c84197dc2566a7f38af9b74df510054ae916f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:55 +0000
Subject: [PATCH 18/30] fix: Only accept signatures for names in the signing
 zone, not those sharing a suffix

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index c9cdcd7..60c4359 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -444,7 +444,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if !is_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 8001f88baafc6060d28628d7ef3f4c73ea67e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:01 +0000
Subject: [PATCH 19/30] fix: Reject DS sets which were expanded from a wildcard

---
 src/validation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 60c4359..1cc8cec 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -462,6 +462,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
+					// Wildcards must not be used to expand delegations.
+					if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }
 					if !reached_zones.contains(&rrsig.name.as_str()) &&
 						!pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str())
 					{
-- 
2.43.0


From 7c622025c4243b75c5862eccacca7c78fb63a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:09 +0000
Subject: [PATCH 20/30] fix: Report zones with only DS digests we can't check
 as using an unsupported algorithm

---
 src/validation.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 1cc8cec..b371ae0 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -222,11 +222,14 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	let mut validated_dnskeys = Vec::with_capacity(records.len());
 	let dses = dses.into_iter();
 
+	// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
+	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 	let mut had_known_digest_type = false;
 	let mut had_ds = false;
 	for ds in dses.clone() {
 		had_ds = true;
-		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
+		// Note that we don't (yet) support SHA384 (i.e. digest type 4).
+		if ds.digest_type == 2 || (ds.digest_type == 1 && trust_sha1) {
 			had_known_digest_type = true;
 			break;
 		}
@@ -235,8 +238,6 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }
 
 	for dnskey in records.iter() {
-		// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
-		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 		for ds in dses.clone() {
 			if ds.alg != dnskey.alg { continue; }
 			if dnskey.key_tag() == ds.key_tag {
-- 
2.43.0


From 4c2f977e79c9096eaf64d00c24ae3fe263be6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 21/30] fix: Resolve DNAMEs only for names label-wise below
 them and stop at alias loops

---
 src/validation.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index b371ae0..1a8f0c1 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -608,8 +608,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 }
 
 impl<'a> VerifiedRRStream<'a> {
-	/// Given a name, resolve any [`CName`] records and return any verified records which were
-	/// pointed to by the original name.
+	/// Given a name, resolve any [`CName`] and [`DName`] records and return any verified records
+	/// which were pointed to by the original name. If they form a loop, nothing is returned.
 	///
 	/// Note that because of [`CName`]s, the [`RR::name`] in the returned records may or may not be
 	/// equal to `name`.
@@ -620,7 +620,10 @@ impl<'a> VerifiedRRStream<'a> {
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		// If we follow (many) more aliases than there are records (and labels in a name, as each
+		// one may be removed by the same DNAME), we must be in a loop.
+		let max_aliases = self.verified_rrs.len() + 255;
+		for _ in 0..=max_aliases {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -630,11 +633,21 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
+				// DNAMEs redirect names (strictly) below them, but not their own name.
+				.filter(|rr| rr.name() != name && is_in_zone(name, rr.name()))
 				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
 			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				// Note that the prefix includes the trailing dot.
+				let prefix = if dname.name.as_str() == "." {
+					name.as_str()
+				} else {
+					name.strip_suffix(&*dname.name).expect("We just filtered for this")
+				};
+				let resolved_name = if dname.delegation_name.as_str() == "." {
+					prefix.to_owned()
+				} else {
+					prefix.to_owned() + &dname.delegation_name
+				};
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
@@ -647,6 +660,7 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From 36ab9036f7a748de2d3cfdfe5ce5aa7f133cd468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:38 +0000
Subject: [PATCH 22/30] fix: Reject responses with any error code, not only
 those below eight

---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index c6183a1..a5e96f4 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -134,7 +134,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From 384ceff356dad255753d24b89bd9b25f946e7a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:46 +0000
Subject: [PATCH 23/30] fix: Don't add the leading records of a rejected
 response to the proof

---
 src/query.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index a5e96f4..7fd7c6f 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -256,7 +256,10 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let proof_len = self.proof.len();
+		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)
+			// Don't keep those records we managed to read before we hit the error.
+			.map_err(|()| self.proof.truncate(proof_len))?;
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From 97d6d7147ef832557c3bc00f8fa9808bf1522a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 24/30] fix: Don't reject HTTP requests because of the headers
 read with the request line

---
 src/http.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 51a6c20..e32a6bf 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -52,29 +52,26 @@ mod imp {
 				'ret_err: loop { // goto label
 					let mut buf = [0; 4096];
 					let mut buf_pos = 0;
-					'read_req: loop {
+					let request_len = 'read_req: loop {
 						if buf_pos == buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
 						let read_res = { socket.read(&mut buf[buf_pos..]).await };
 						match read_res {
 							Ok(0) => return,
 							Ok(len) => {
 								buf_pos += len;
-								for window in buf[..buf_pos].windows(2) {
-									if window == b"\r\n" { break 'read_req; }
+								for (idx, window) in buf[..buf_pos].windows(2).enumerate() {
+									if window == b"\r\n" { break 'read_req idx; }
 								}
 							}
 							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
 							Err(_) => return,
 						}
-					}
+					};
+					// Only look at the request line, we may have read an arbitrary part of the headers
+					// (which need not be UTF-8, or may be cut off in the middle of a character).
 					let request;
-					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
-						if let Some((r, _)) = s.split_once("\r\n") {
-							request = r;
-						} else {
-							debug_assert!(false);
-							break 'ret_err;
-						}
+					if let Ok(s) = std::str::from_utf8(&buf[..request_len]) {
+						request = s;
 					} else {
 						break 'ret_err;
 					}
-- 
2.43.0


From 8c500856074dd65d63d9bd527fa8aaac1e0cb1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 25/30] fix: Keep serving HTTP requests after failing to accept
 a connection

---
 src/http.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index e32a6bf..809c173 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -46,7 +46,15 @@ mod imp {
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				Err(_) => {
+					// We may have run out of file descriptors or the connection may be gone already.
+					// Neither should stop us from serving once connections are closed.
+					tokio::task::yield_now().await;
+					continue;
+				},
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From 942cd03bbe2fd342622d4358e544437eb6346cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 26/30] fix: Don't reset HTTP connections before the response
 was received

---
 src/http.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 809c173..a15349b 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -41,9 +41,22 @@ mod imp {
 
 	use std::net::SocketAddr;
 
-	use tokio::net::TcpListener;
+	use tokio::net::{TcpListener, TcpStream};
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
+	/// Closes a connection after we've sent a response.
+	///
+	/// We likely haven't read all of the request, and closing a socket with unread data resets the
+	/// connection, dropping whatever the client didn't receive yet. Thus, we only close it for
+	/// sending and let the client finish.
+	async fn close(mut socket: TcpStream) {
+		let mut buf = [0; 1024];
+		if socket.shutdown().await.is_err() { return; }
+		while let Ok(len) = socket.read(&mut buf).await {
+			if len == 0 { return; }
+		}
+	}
+
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
 			let mut socket = match listener.accept().await {
@@ -137,12 +150,14 @@ mod imp {
 						).as_bytes()
 					).await;
 					let _ = socket.write_all(&proof).await;
+					close(socket).await;
 					return;
 				}
 				let _ = socket.write_all(format!(
 					"HTTP/1.1 {}\r\nContent-Length: {}\r\nContent-Type: text/plain\r\nAccess-Control-Allow-Origin: *\r\n\r\n{}",
 					response.0, response.1.len(), response.1,
 				).as_bytes()).await;
+				close(socket).await;
 			});
 		}
 	}
-- 
2.43.0


From 983384510ef3432a6c73ae06732d8c466200ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 27/30] verif: let the harness use its own allocator with the
 WASM wrappers

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..7431da4 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -11,7 +11,7 @@ use alloc::collections::VecDeque;
 
 use core::fmt::Write;
 
-#[global_allocator]
+#[cfg_attr(not(dnssec_prover_verif), global_allocator)]
 static ALLOC: wee_alloc::WeeAlloc = wee_alloc::WeeAlloc::INIT;
 
 #[wasm_bindgen]
-- 
2.43.0


From 29e8accd76a026f3a4ba7a30c6cbf22b73179472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:56 +0000
Subject: [PATCH 28/30] fix: Process WASM query responses of the largest
 possible size

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 7431da4..38988f9 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From 4dd27b1e080b028399546df64dfc15ebdb6a58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 29/30] fix: share one load of the WASM module between
 concurrent lookups

---
 wasmpack/doh_lookup.js | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 17c5bbf..9810502 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -1,12 +1,22 @@
 import init from './dnssec_prover_wasm.js';
 import * as wasm from './dnssec_prover_wasm.js';
 
+// Concurrent lookups have to share one load of the module: each call to init() which is made before
+// the first completes replaces the instance (and with it any proof builders) of those before it.
+var loading = null;
+function load() {
+	if (loading == null) {
+		loading = init().catch(function(e) { loading = null; throw e; });
+	}
+	return loading;
+}
+
 /**
 * Asynchronously resolves a given domain and type using the provided DoH endpoint, then verifies
 * the returned DNSSEC data and ultimately returns a JSON-encoded list of validated records.
 */
 export async function lookup_doh(domain, ty, doh_endpoint) {
-	await init();
+	await load();
 
 	if (!domain.endsWith(".")) domain += ".";
 	if (ty.toLowerCase() == "txt") {
-- 
2.43.0


From ea0b53f83644d1b3efe431c42fc9bb84aa7eba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 30/30] fix: escape the text of errors in lookup_doh's JSON

---
 wasmpack/doh_lookup.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 9810502..87e3d75 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -50,7 +50,7 @@ export async function lookup_doh(domain, ty, doh_endpoint) {
 						wasm.process_query_response(builder, buf);
 						queries_pending -= 1;
 					} catch (e) {
-						return "{\"error\":\"DoH Query failed: " + e + "\"}";
+						return JSON.stringify({error: "DoH Query failed: " + e});
 					}
 					return await send_next_query();
 				} else if (queries_pending == 0) {
-- 
2.43.0

