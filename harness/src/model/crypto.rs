//! Keys, signatures and digests. Signing is deterministic, so a case is a pure function of its draws.

use super::name::MName;
use super::rr::*;
#[allow(deprecated)]
use ring::test::rand::FixedByteRandom;
use ring::digest;
use ring::signature::{self, KeyPair as _};
use std::sync::OnceLock;

include!("../../keys/rsa_keys.rs");
static P256: [&[u8]; 8] = [
	include_bytes!("../../keys/p256_0.pk8"), include_bytes!("../../keys/p256_1.pk8"), include_bytes!("../../keys/p256_2.pk8"), include_bytes!("../../keys/p256_3.pk8"),
	include_bytes!("../../keys/p256_4.pk8"), include_bytes!("../../keys/p256_5.pk8"), include_bytes!("../../keys/p256_6.pk8"), include_bytes!("../../keys/p256_7.pk8"),
];
static P384: [&[u8]; 4] = [
	include_bytes!("../../keys/p384_0.pk8"), include_bytes!("../../keys/p384_1.pk8"), include_bytes!("../../keys/p384_2.pk8"), include_bytes!("../../keys/p384_3.pk8"),
];

pub fn sha1(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, b).as_ref().to_vec() }
pub fn sha256(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA256, b).as_ref().to_vec() }
pub fn sha384(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA384, b).as_ref().to_vec() }
pub fn sha512(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA512, b).as_ref().to_vec() }

// ---- big numbers, little-endian u64 limbs ----
fn from_be(b: &[u8]) -> Vec<u64> {
	b.rchunks(8).map(|c| c.iter().fold(0u64, |a, x| a << 8 | *x as u64)).collect()
}
fn to_be(v: &[u64], len: usize) -> Vec<u8> {
	let mut o: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
	o.resize(len, 0);
	o.reverse();
	o
}
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect() }
struct Mont { n: Vec<u64>, n0: u64, r2: Vec<u64> }
impl Mont {
	fn new(n: Vec<u64>) -> Mont {
		let mut inv = 1u64;
		for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(n[0].wrapping_mul(inv))); }
		let k = n.len();
		let mut m = Mont { n, n0: inv.wrapping_neg(), r2: vec![] };
		// r2 = 2^(128k) mod n, by repeated doubling.
		let mut x = vec![0u64; k];
		x[0] = 1;
		for _ in 0..128 * k { m.dbl(&mut x); }
		m.r2 = x;
		m
	}
	fn geq(&self, x: &[u64]) -> bool {
		for i in (0..self.n.len()).rev() { if x[i] != self.n[i] { return x[i] > self.n[i]; } }
		true
	}
	fn sub(&self, x: &mut [u64]) {
		let mut b = false;
		for i in 0..self.n.len() {
			let (d, b1) = x[i].overflowing_sub(self.n[i]);
			let (d, b2) = d.overflowing_sub(b as u64);
			x[i] = d; b = b1 | b2;
		}
	}
	fn dbl(&self, x: &mut [u64]) {
		let mut c = 0;
		for l in x.iter_mut() { let n = *l >> 63; *l = *l << 1 | c; c = n; }
		if c == 1 || self.geq(x) { self.sub(x); }
	}
	fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
		let k = self.n.len();
		let mut t = vec![0u64; k + 2];
		for i in 0..k {
			let mut c = 0u128;
			for j in 0..k { let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c; t[j] = v as u64; c = v >> 64; }
			let v = t[k] as u128 + c; t[k] = v as u64; t[k + 1] = (v >> 64) as u64;
			let m = t[0].wrapping_mul(self.n0);
			let mut c = (t[0] as u128 + m as u128 * self.n[0] as u128) >> 64;
			for j in 1..k { let v = t[j] as u128 + m as u128 * self.n[j] as u128 + c; t[j - 1] = v as u64; c = v >> 64; }
			let v = t[k] as u128 + c; t[k - 1] = v as u64; t[k] = t[k + 1].wrapping_add((v >> 64) as u64);
		}
		let over = t[k] != 0;
		t.truncate(k);
		if over || self.geq(&t) { self.sub(&mut t); }
		t
	}
	fn pow(&self, base: &[u64], exp: &[u8]) -> Vec<u64> {
		let b = self.mul(base, &self.r2);
		let mut one = vec![0; self.n.len()];
		one[0] = 1;
		let onem = self.mul(&one, &self.r2);
		let mut tab = vec![onem.clone(), b.clone()];
		for i in 2..16 { let x = self.mul(&tab[i - 1], &b); tab.push(x); }
		let mut acc = onem;
		for byte in exp {
			for nib in [byte >> 4, byte & 15] {
				for _ in 0..4 { acc = self.mul(&acc, &acc); }
				if nib != 0 { acc = self.mul(&acc, &tab[nib as usize]); }
			}
		}
		self.mul(&acc, &one)
	}
}
struct Rsa { n: Vec<u8>, e: Vec<u8>, d: Vec<u8>, m: Mont }
fn rsa_pool() -> &'static [Rsa] {
	static P: OnceLock<Vec<Rsa>> = OnceLock::new();
	P.get_or_init(|| RSA_KEYS.iter().map(|(n, e, d)| {
		let n = unhex(n);
		Rsa { m: Mont::new(from_be(&n)), n, e: unhex(e), d: unhex(d) }
	}).collect())
}
fn rsa_sign(k: &Rsa, alg: u8, msg: &[u8]) -> Vec<u8> {
	let (prefix, h) = match alg {
		8 => (unhex("3031300d060960864801650304020105000420"), sha256(msg)),
		10 => (unhex("3051300d060960864801650304020305000440"), sha512(msg)),
		_ => (unhex("3021300906052b0e03021a05000414"), sha1(msg)),
	};
	let len = k.n.len();
	let mut em = vec![0xffu8; len];
	em[0] = 0; em[1] = 1;
	let t = prefix.len() + h.len();
	em[len - t - 1] = 0;
	em[len - t..len - h.len()].copy_from_slice(&prefix);
	em[len - h.len()..].copy_from_slice(&h);
	let mut b = from_be(&em);
	b.resize(k.m.n.len(), 0);
	to_be(&k.m.pow(&b, &k.d), len)
}

pub enum Sk { Ed(signature::Ed25519KeyPair), P256(signature::EcdsaKeyPair), P384(signature::EcdsaKeyPair), Rsa(usize), None }
/// A signing key, with the public key in DNSKEY form.
pub struct SignKey { pub alg: u8, pub public: Vec<u8>, sk: Sk }
impl SignKey {
	#[allow(deprecated)]
	pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
		let rng = FixedByteRandom { byte: 0x5a };
		match &self.sk {
			Sk::Ed(k) => k.sign(msg).as_ref().to_vec(),
			Sk::P256(k) | Sk::P384(k) => k.sign(&rng, msg).unwrap().as_ref().to_vec(),
			Sk::Rsa(i) => rsa_sign(&rsa_pool()[*i], self.alg, msg),
			// An algorithm nobody implements here: any bytes will do.
			Sk::None => { let mut s = sha256(msg); s.extend(sha256(&s)); s },
		}
	}
}
/// Key families the generators choose from.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fam { Ed25519, P256, P384, Rsa256, Rsa512, Unsupported(u8) }
pub fn n_keys(f: Fam) -> usize { match f { Fam::Ed25519 => 1 << 20, Fam::P256 => 8, Fam::P384 => 4, Fam::Rsa256 | Fam::Rsa512 => RSA_KEYS.len() * 2, Fam::Unsupported(_) => 1 << 20 } }

#[allow(deprecated)]
fn make(f: Fam, i: usize) -> SignKey {
	let rng = FixedByteRandom { byte: 0x5a };
	match f {
		Fam::Ed25519 => {
			let seed = sha256(format!("ed25519 key {}", i).as_bytes());
			let k = signature::Ed25519KeyPair::from_seed_unchecked(&seed).unwrap();
			SignKey { alg: 15, public: k.public_key().as_ref().to_vec(), sk: Sk::Ed(k) }
		},
		Fam::P256 => {
			let k = signature::EcdsaKeyPair::from_pkcs8(&signature::ECDSA_P256_SHA256_FIXED_SIGNING, P256[i % 8], &rng).unwrap();
			SignKey { alg: 13, public: k.public_key().as_ref()[1..].to_vec(), sk: Sk::P256(k) }
		},
		Fam::P384 => {
			let k = signature::EcdsaKeyPair::from_pkcs8(&signature::ECDSA_P384_SHA384_FIXED_SIGNING, P384[i % 4], &rng).unwrap();
			SignKey { alg: 14, public: k.public_key().as_ref()[1..].to_vec(), sk: Sk::P384(k) }
		},
		Fam::Rsa256 | Fam::Rsa512 => {
			// The second half of the pool are the same keys with the exponent's length in the long form.
			let long = i / RSA_KEYS.len() % 2 == 1;
			let i = i % RSA_KEYS.len();
			let r = &rsa_pool()[i];
			let mut p = if long { vec![0, 0, r.e.len() as u8] } else { vec![r.e.len() as u8] };
			p.extend_from_slice(&r.e);
			p.extend_from_slice(&r.n);
			SignKey { alg: if f == Fam::Rsa256 { 8 } else { 10 }, public: p, sk: Sk::Rsa(i) }
		},
		Fam::Unsupported(alg) => SignKey { alg, public: sha256(format!("unsupported {} {}", alg, i).as_bytes()), sk: Sk::None },
	}
}
thread_local! {
	static CACHE: std::cell::RefCell<std::collections::HashMap<(Fam, usize), std::rc::Rc<SignKey>>> = Default::default();
}
/// The `i`th key of a family.
pub fn key(f: Fam, i: usize) -> std::rc::Rc<SignKey> {
	CACHE.with(|c| {
		let mut c = c.borrow_mut();
		if c.len() > 4096 { c.clear(); }
		c.entry((f, i % n_keys(f))).or_insert_with(|| std::rc::Rc::new(make(f, i % n_keys(f)))).clone()
	})
}

/// An RSA key which is published in some encoding, and whether that is a good encoding of the key (RFC 3110), if it is clear.
pub fn rsa_encoded(f: Fam, i: usize, how: u64, x: u8) -> (SignKey, &'static str, Option<bool>) {
	let i = i % RSA_KEYS.len();
	let r = &rsa_pool()[i];
	let l = r.e.len();
	let enc = |head: &[u8], e: &[u8], n: &[u8]| -> Vec<u8> { let mut p = head.to_vec(); p.extend_from_slice(e); p.extend_from_slice(n); p };
	let (public, what, good) = match how {
		0 => (enc(&[l as u8], &r.e, &r.n), "short exponent length", Some(true)),
		1 => (enc(&[0, 0, l as u8], &r.e, &r.n), "long exponent length", Some(true)),
		2 => (enc(&[0, x.max(1), l as u8], &r.e, &r.n), "exponent length of another 256 bytes", Some(false)),
		3 => (enc(&[0, l as u8, x & !(l as u8)], &r.e, &r.n), "bytes of the exponent length exchanged", Some(false)),
		4 => (enc(&[(l + 1) as u8], &r.e, &r.n), "exponent length one too long", Some(false)),
		5 => (enc(&[(l - 1) as u8], &r.e, &r.n), "exponent length one too short", Some(false)),
		6 => (enc(&[0, 0, 0, l as u8], &r.e, &r.n), "three bytes of exponent length", Some(false)),
		7 => (enc(&[l as u8], &r.e, &r.n[..r.n.len() - 1]), "modulus without its last byte", Some(false)),
		8 => { let mut n = r.n.clone(); n.push(x); (enc(&[l as u8], &r.e, &n), "modulus with a byte after it", Some(false)) },
		9 => (enc(&[], &r.e, &r.n), "no exponent length", Some(false)),
		10 => (enc(&[l as u8], &r.e, &[]), "no modulus", Some(false)),
		11 => ([&[], &[0][..], &[0, 0], &[0, 0, 0], &[l as u8], &[0, 0, l as u8], &[1, 3], &[255, 255, 255, 255]][x as usize % 8].to_vec(), "hardly any key", Some(false)),
		12 => (enc(&[l as u8], &r.n[..l], &r.e), "parts exchanged", Some(false)),
		13 => { let mut n = r.n.clone(); let k = x as usize % n.len(); n[k] ^= 1; (enc(&[l as u8], &r.e, &n), "another modulus", Some(false)) },
		_ => { let mut e = r.e.clone(); e[0] ^= 2; (enc(&[l as u8], &e, &r.n), "another exponent", Some(false)) },
	};
	(SignKey { alg: if f == Fam::Rsa256 { 8 } else { 10 }, public, sk: Sk::Rsa(i) }, what, good)
}

/// Pairs of Ed25519 keys whose DNSKEY records have the same key tag.
pub fn same_tag_pairs(flags: u16) -> &'static [(usize, usize)] {
	static P: OnceLock<[Vec<(usize, usize)>; 2]> = OnceLock::new();
	let p = P.get_or_init(|| [256u16, 257].map(|flags| {
		let mut seen = std::collections::HashMap::new();
		let mut v = Vec::new();
		for i in 0..1500usize {
			let k = make(Fam::Ed25519, i);
			let t = key_tag(&D::Key(Key { flags, proto: 3, alg: 15, key: k.public }).rdata());
			if let Some(j) = seen.insert(t, i) { v.push((j, i)); }
		}
		v
	}));
	&p[(flags == 257) as usize]
}
/// A key that signs nothing, with the given tag.
pub fn decoy(flags: u16, proto: u8, alg: u8, tag: u16, filler: u64, len: usize) -> Option<ZKey> {
	let mut public: Vec<u8> = (0..).flat_map(|i| sha256(format!("decoy {} {}", filler, i).as_bytes())).take(len).collect();
	for x in 0..=u16::MAX {
		public[0..2].copy_from_slice(&x.to_be_bytes());
		let r = D::Key(Key { flags, proto, alg, key: public.clone() }).rdata();
		if key_tag(&r) == tag { return Some(ZKey { k: std::rc::Rc::new(SignKey { alg, public, sk: Sk::None }), flags, proto }); }
	}
	None
}

/// A key as published by a zone.
#[derive(Clone)]
pub struct ZKey { pub k: std::rc::Rc<SignKey>, pub flags: u16, pub proto: u8 }
impl ZKey {
	pub fn data(&self) -> Key { Key { flags: self.flags, proto: self.proto, alg: self.k.alg, key: self.k.public.clone() } }
	pub fn rdata(&self) -> Vec<u8> { D::Key(self.data()).rdata() }
	pub fn tag(&self) -> u16 { key_tag(&self.rdata()) }
	pub fn ds(&self, owner: &MName, dt: u8) -> Deleg {
		Deleg { tag: self.tag(), alg: self.k.alg, dt, digest: ds_digest(owner, &self.rdata(), dt) }
	}
}
pub fn ds_digest(owner: &MName, key_rdata: &[u8], dt: u8) -> Vec<u8> {
	let mut b = owner.wire();
	b.extend_from_slice(key_rdata);
	match dt { 1 => sha1(&b), 2 => sha256(&b), 4 => sha384(&b), _ => sha256(&b)[..20].to_vec() }
}

/// The bytes an RRSIG covers (RFC 4034 section 3.1.8.1) for a record set published at `owner`.
pub fn signed_data(s: &Sig, owner: &MName, set: &[D]) -> Vec<u8> {
	let mut o = sig_prefix(s);
	let name = if s.labels as usize >= owner.labels() { owner.clone() } else { owner.suffix(s.labels as usize).wildcard() };
	let mut datas: Vec<Vec<u8>> = set.iter().map(|d| d.rdata()).collect();
	datas.sort();
	datas.dedup();
	for d in datas { o.extend(raw_rr(&name.wire(), s.ty, 1, s.ttl, &d)); }
	o
}
/// The label count for an RRSIG over records at `owner`: without the root and without a leading wildcard.
pub fn sig_labels(owner: &MName) -> u8 { (owner.labels() - owner.is_wildcard() as usize) as u8 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Times { pub inc: u32, pub exp: u32, pub ttl: u32 }

/// Signs a record set. `owner` is the name the set is published at (with its `*` for wildcards).
pub fn sign_set(signer: &MName, key: &ZKey, owner: &MName, set: &[D], t: Times) -> Sig {
	let ty = set.first().map_or(0, |d| d.ty());
	let mut s = Sig {
		ty, alg: key.k.alg, labels: sig_labels(owner), ttl: t.ttl, exp: t.exp, inc: t.inc, tag: key.tag(), signer: signer.clone(), sig: vec![],
	};
	let data = {
		// The wildcard owner is signed as written.
		let mut o = sig_prefix(&s);
		let mut datas: Vec<Vec<u8>> = set.iter().map(|d| d.rdata()).collect();
		datas.sort();
		datas.dedup();
		for d in datas { o.extend(raw_rr(&owner.wire(), s.ty, 1, s.ttl, &d)); }
		o
	};
	s.sig = key.k.sign(&data);
	s
}

/// NSEC3 hash, RFC 5155 section 5.
pub fn nsec3_hash(n: &MName, salt: &[u8], iters: u16) -> Vec<u8> {
	let mut b = n.wire();
	b.extend_from_slice(salt);
	let mut h = sha1(&b);
	for _ in 0..iters {
		let mut b = h;
		b.extend_from_slice(salt);
		h = sha1(&b);
	}
	h
}
/// Base32 with the extended hex alphabet, no padding (RFC 4648), lower case.
pub fn b32(data: &[u8]) -> Vec<u8> {
	let al = b"0123456789abcdefghijklmnopqrstuv";
	let (mut acc, mut bits, mut o) = (0u32, 0, Vec::new());
	for b in data {
		acc = acc << 8 | *b as u32; bits += 8;
		while bits >= 5 { bits -= 5; o.push(al[(acc >> bits & 31) as usize]); acc &= (1 << bits) - 1; }
	}
	if bits > 0 { o.push(al[(acc << (5 - bits) & 31) as usize]); }
	o
}
