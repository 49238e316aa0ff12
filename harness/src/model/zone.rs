//! A generated, correctly signed name space: zones, keys, delegations, denial records, and what it publishes.

use super::crypto::*;
use super::gen;
use super::name::MName;
use super::rr::*;
use crate::engine::Src;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Denial { Nsec, Nsec3 { salt: Vec<u8>, iters: u16, optout: bool } }

#[derive(Clone, Debug)]
pub struct Set { pub data: Vec<D>, pub times: Times }

pub struct Zone {
	pub name: MName,
	pub parent: usize,
	pub keys: Vec<ZKey>,
	/// Keys that sign the key set; those in `in_ds` are in the parent's DS set.
	pub ksk: Vec<usize>,
	/// Further keys that sign the key set without being in the parent's DS set.
	pub also: Vec<usize>,
	/// Keys that sign everything else.
	pub zsk: Vec<usize>,
	/// Digest types of the DS set; none for an insecure delegation.
	pub ds_types: Vec<u8>,
	pub denial: Denial,
	pub sets: BTreeMap<(MName, u16), Set>,
	sigs: RefCell<HashMap<(MName, u16), Vec<Sig>>>,
}
pub struct Universe { pub zones: Vec<Zone> }

#[derive(Clone)]
pub struct Opts {
	pub zones: (u64, u64),
	/// Weights of Ed25519, P-256, P-384, RSA/SHA-256, RSA/SHA-512.
	pub fams: [u64; 5],
	/// Percentage of insecure delegations.
	pub insecure: u64,
	/// Percentage of zones with two data signing keys that both sign.
	pub two_sigs: u64,
	pub wildcards: u64,
	/// Weight of NSEC3 against NSEC, in percent.
	pub nsec3: u64,
	pub optout: u64,
	pub max_owners: u64,
	pub sha1: bool,
	/// Percentage of key sets with further signatures by keys that are not in the DS set.
	pub also: u64,
	/// Validity windows and TTLs from the whole range of values.
	pub wild_times: bool,
	/// Percentage of zones that also publish a key of an unsupported algorithm.
	pub unsupported: u64,
	/// Percentage of universes that are two lines of zones, with aliases between their ends.
	pub lines: u64,
}
impl Default for Opts {
	fn default() -> Opts { Opts { zones: (2, 5), fams: [30, 30, 10, 2, 1], insecure: 12, two_sigs: 15, wildcards: 30, nsec3: 45, optout: 15, max_owners: 5, sha1: true, also: 0, wild_times: false, unsupported: 0, lines: 0 } }
}

pub const NOW: u32 = 1_700_000_000;
pub fn times(s: &mut Src) -> Times { times_opt(s, false) }
/// The boundary below which a timestamp counts as past 2106.
pub const ROLL: u32 = 60 * 60 * 24 * 365 * 27;
pub fn when(s: &mut Src) -> u32 {
	match s.weighted(&[4, 2, 2, 1]) {
		0 => NOW - 500 + s.below(1000) as u32,
		1 => ROLL - 3 + s.below(6) as u32,
		2 => *s.pick(&[0u32, 1, 2, u32::MAX, u32::MAX - 1, u32::MAX - 2, 0x7fff_ffff, 0x8000_0000, 0x8000_0001]),
		_ => s.u32(),
	}
}
pub fn times_opt(s: &mut Src, wild: bool) -> Times {
	if wild {
		let ttl = if s.bool() { *s.pick(&[0u32, 1, 2, 300, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 1]) } else { s.below(5000) as u32 };
		// Mostly windows that overlap.
		return match s.weighted(&[6, 1, 1]) {
			0 => Times { inc: NOW - s.below(5000) as u32, exp: if s.chance(1, 4) { s.below(1000) as u32 } else { NOW + s.below(5000) as u32 }, ttl },
			1 => Times { inc: when(s), exp: when(s), ttl },
			_ => Times { inc: ROLL + s.below(4) as u32, exp: *s.pick(&[ROLL - 1, u32::MAX, 0, ROLL - 2]), ttl },
		};
	}
	Times { inc: NOW - s.below(1_000_000) as u32, exp: NOW + 1 + s.below(1_000_000) as u32, ttl: *s.pick(&[3600u32, 0, 1, 30, 300, 86400, 172800, 0x7fff_ffff, 7200]) }
}
pub fn fam(s: &mut Src, w: &[u64; 5]) -> Fam { [Fam::Ed25519, Fam::P256, Fam::P384, Fam::Rsa256, Fam::Rsa512][s.weighted(w)] }
pub fn zkey(s: &mut Src, f: Fam, flags: u16) -> ZKey {
	let n = match f { Fam::Ed25519 => 64, Fam::Unsupported(_) => 16, _ => n_keys(f) };
	ZKey { k: key(f, s.below(n as u64) as usize), flags, proto: 3 }
}
/// Adds a key whose tag differs from those of the keys of the same algorithm already there.
pub fn add_key(s: &mut Src, keys: &mut Vec<ZKey>, f: Fam, flags: u16) -> usize {
	let mut k = zkey(s, f, flags);
	let mut i = 0;
	while keys.iter().any(|o| o.k.alg == k.k.alg && (o.tag() == k.tag() || o.k.public == k.k.public)) {
		k = ZKey { k: key(f, i), flags, proto: 3 };
		i += 1;
		// A small pool may be used up: fall back to another algorithm.
		if i > 64 { return add_key(s, keys, Fam::Ed25519, flags); }
	}
	keys.push(k);
	keys.len() - 1
}

/// Sometimes publishes a key that signs nothing but has the tag of one that does. It can't be mistaken for that one, as it
/// is of another algorithm, not a zone key, or not a DNSSEC key.
fn add_decoys(s: &mut Src, keys: &mut Vec<ZKey>) {
	while s.chance(1, 10) {
		let (alg, tag, len) = { let k = s.pick(keys); (k.k.alg, k.tag(), k.k.public.len().max(32)) };
		let (flags, proto, alg) = match s.below(4) {
			0 => (*s.pick(&[0u16, 1, 0x8000, 0x200]), 3, alg),
			1 => (*s.pick(&[256u16, 257]), *s.pick(&[0u8, 1, 2, 4, 255]), alg),
			_ => (*s.pick(&[256u16, 257]), 3, *s.pick(&[8u8, 10, 13, 14, 15, 5, 16, 253])),
		};
		if flags & 256 != 0 && proto == 3 && keys.iter().any(|k| k.k.alg == alg && k.tag() == tag) { continue; }
		let len = len.min(100);
		if let Some(k) = decoy(flags, proto, alg, tag, s.below(1000), len) { keys.push(k); }
	}
}
pub struct Keys { pub keys: Vec<ZKey>, pub ksk: Vec<usize>, pub also: Vec<usize>, pub zsk: Vec<usize> }
const UNSUPPORTED_ALGS: [u8; 6] = [5, 7, 12, 16, 252, 253];
fn add_unsupported(s: &mut Src, keys: &mut Vec<ZKey>, o: &Opts) {
	if o.unsupported == 0 || s.below(100) >= o.unsupported { return; }
	let (a, f) = (*s.pick(&UNSUPPORTED_ALGS), *s.pick(&[256u16, 257]));
	keys.push(ZKey { k: key(Fam::Unsupported(a), s.below(16) as usize), flags: f, proto: 3 });
}
pub fn zone_keys(s: &mut Src, o: &Opts) -> Keys {
	let mut keys = Vec::new();
	let f = fam(s, &o.fams);
	if s.chance(1, 4) {
		// One combined signing key.
		let k = add_key(s, &mut keys, f, 257);
		add_unsupported(s, &mut keys, o);
		add_decoys(s, &mut keys);
		return Keys { keys, ksk: vec![k], also: vec![], zsk: vec![k] };
	}
	let k = add_key(s, &mut keys, f, 257);
	let zf = if s.chance(1, 5) { fam(s, &o.fams) } else { f };
	let z = add_key(s, &mut keys, zf, 256);
	let mut zsk = vec![z];
	if s.below(100) < o.two_sigs { let f = if s.bool() { zf } else { fam(s, &o.fams) }; zsk.push(add_key(s, &mut keys, f, 256)); }
	// Keys that are published but sign nothing.
	if s.chance(1, 4) { let f = fam(s, &o.fams); let fl = *s.pick(&[256u16, 257]); add_key(s, &mut keys, f, fl); }
	let mut ksk = vec![k];
	if s.chance(1, 12) { let f = fam(s, &o.fams); ksk.push(add_key(s, &mut keys, f, 257)); }
	let mut also = Vec::new();
	if s.below(100) < o.also {
		if s.bool() { also.push(z); } else { let f = fam(s, &o.fams); also.push(add_key(s, &mut keys, f, 257)); }
	}
	add_unsupported(s, &mut keys, o);
	add_decoys(s, &mut keys);
	Keys { keys, ksk, also, zsk }
}
pub const HOSTS: [&str; 14] = ["a", "b", "c", "www", "aa", "ab", "user", "_bitcoin-payment", "_443", "_tcp", "z", "0", "example", "user1"];
fn zone_label(s: &mut Src, siblings: &[MName]) -> Vec<u8> {
	// Labels that end like another zone's name are where textual suffix tests go wrong.
	if !siblings.is_empty() && s.chance(1, 3) {
		let o = s.pick(siblings).clone();
		if let Some(l) = o.0.first() {
			let mut l = l.clone();
			if l.len() < 20 { match s.below(3) { 0 => l.insert(0, *s.pick(b"abx-")), 1 => { let c = *s.pick(b"abx-"); l.push(c); }, _ => { l.pop(); if l.is_empty() { l.push(b'q'); } } } }
			return l;
		}
	}
	s.pick(&["com", "example", "org", "a", "b", "net", "zone", "ample", "x", "sub"]).as_bytes().to_vec()
}
pub fn host(s: &mut Src) -> &'static str { *s.pick(&HOSTS[..]) }
pub fn payload(s: &mut Src) -> Vec<u8> {
	match s.weighted(&[6, 2, 1]) {
		0 => { let n = s.usize(0, 12); s.bytes(n) },
		1 => { let n = *s.pick(&[254usize, 255, 256, 300, 510, 511]); s.bytes(n) },
		_ => vec![b'x'; s.usize(0, 3)],
	}
}
pub fn leaf_data(s: &mut Src, ty: u16) -> D {
	match ty {
		TXT => D::Txt(payload(s)),
		TLSA => { let (a, b, c) = (s.below(4) as u8, s.below(2) as u8, s.below(3) as u8); D::Tlsa(a, b, c, payload(s)) },
		_ => gen::data(s, ty),
	}
}
pub fn leaf_set(s: &mut Src, ty: u16) -> Vec<D> {
	let n = *s.pick(&[1usize, 1, 2, 3, 4]);
	let mut v: Vec<D> = Vec::new();
	for _ in 0..n {
		let d = if v.is_empty() || s.bool() { leaf_data(s, ty) } else { let b = s.pick(&v).clone(); match gen::tweak(s, b) { D::Txt(t) if t.len() > 2000 => D::Txt(t[..40].to_vec()), D::Tlsa(a, b, c, t) if t.len() > 2000 => D::Tlsa(a, b, c, t[..40].to_vec()), d => d } };
		if !v.contains(&d) { v.push(d); }
	}
	v
}

pub enum Found { Set { owner: MName, ty: u16 }, Wild { owner: MName, ty: u16, next_closer: MName }, Dname { owner: MName }, NoData, NxDomain }

/// A covering denial record.
pub struct Cover { pub owner: MName, pub ty: u16, pub wraps: bool, pub optout: bool, pub iters: u16 }

impl Zone {
	pub fn new(name: MName, parent: usize, keys: Keys, ds_types: Vec<u8>, denial: Denial) -> Zone {
		Zone { name, parent, keys: keys.keys, ksk: keys.ksk, also: keys.also, zsk: keys.zsk, ds_types, denial, sets: BTreeMap::new(), sigs: Default::default() }
	}
	pub fn is_secure_delegation(&self) -> bool { !self.ds_types.is_empty() }
	/// Owner names of ordinary records and delegations.
	pub fn owners(&self) -> BTreeSet<MName> { self.sets.keys().filter(|k| k.1 != NSEC && k.1 != NSEC3).map(|k| k.0.clone()).collect() }
	pub fn exists(&self, n: &MName) -> bool { self.sets.keys().any(|k| k.1 != NSEC && k.1 != NSEC3 && k.0.is_in(n)) }
	pub fn ds_set(&self) -> Vec<D> {
		let mut v = Vec::new();
		for k in &self.ksk { for t in &self.ds_types { v.push(D::Ds(self.keys[*k].ds(&self.name, *t))); } }
		v
	}
	pub fn put(&mut self, owner: &MName, data: Vec<D>, times: Times) {
		let ty = data[0].ty();
		self.sets.insert((owner.clone(), ty), Set { data, times });
		self.sigs.borrow_mut().remove(&(owner.clone(), ty));
	}
	/// Signatures over a published set, at its own owner name.
	pub fn sigs(&self, owner: &MName, ty: u16) -> Vec<Sig> {
		let key = (owner.clone(), ty);
		if let Some(v) = self.sigs.borrow().get(&key) { return v.clone(); }
		let set = &self.sets[&key];
		let signers: Vec<usize> = if ty == DNSKEY { self.ksk.iter().chain(&self.also).copied().collect() } else { self.zsk.clone() };
		let v: Vec<Sig> = signers.iter().map(|k| sign_set(&self.name, &self.keys[*k], owner, &set.data, set.times)).collect();
		self.sigs.borrow_mut().insert(key, v.clone());
		v
	}
	/// A published set with its signatures, as it appears at `at` (the owner itself, or a name matched by the wildcard).
	pub fn rrset_at(&self, owner: &MName, ty: u16, at: &MName) -> Vec<Rec> {
		let mut v: Vec<Rec> = self.sets[&(owner.clone(), ty)].data.iter().map(|d| Rec::new(at, d.clone())).collect();
		v.extend(self.sigs(owner, ty).into_iter().map(|g| Rec::new(at, D::Sig(g))));
		v
	}
	pub fn rrset(&self, owner: &MName, ty: u16) -> Vec<Rec> { self.rrset_at(owner, ty, owner) }

	/// Builds the NSEC or NSEC3 records.
	pub fn build_denial(&mut self, s: &mut Src, delegations: &BTreeMap<MName, bool>, wild_times: bool) {
		self.sets.retain(|k, _| k.1 != NSEC && k.1 != NSEC3);
		let base = times_opt(s, wild_times);
		let mut types: BTreeMap<MName, BTreeSet<u16>> = BTreeMap::new();
		for (o, t) in self.sets.keys() { types.entry(o.clone()).or_default().insert(*t); }
		match self.denial.clone() {
			Denial::Nsec => {
				let mut owners: Vec<MName> = types.keys().cloned().collect();
				owners.sort_by(|a, b| a.canon_cmp(b));
				for i in 0..owners.len() {
					let next = owners[(i + 1) % owners.len()].clone();
					let mut t = types[&owners[i]].clone();
					t.extend([NSEC, RRSIG]);
					self.put(&owners[i], vec![D::Nsec(next, t)], base);
				}
			},
			Denial::Nsec3 { salt, iters, optout } => {
				let mut names: BTreeMap<MName, BTreeSet<u16>> = BTreeMap::new();
				for (o, t) in &types {
					if optout && delegations.get(o) == Some(&false) { continue; }
					let mut t = t.clone();
					// An unsigned delegation has no signed set of its own.
					if delegations.get(o) != Some(&false) { t.insert(RRSIG); }
					names.insert(o.clone(), t);
					let mut p = o.clone();
					while p != self.name { p = p.parent().unwrap(); names.entry(p.clone()).or_default(); }
				}
				let mut h: Vec<(Vec<u8>, BTreeSet<u16>)> = names.iter().map(|(n, t)| (nsec3_hash(n, &salt, iters), t.clone())).collect();
				h.sort();
				for i in 0..h.len() {
					let next = h[(i + 1) % h.len()].0.clone();
					let owner = self.name.child(&b32(&h[i].0));
					self.put(&owner, vec![D::Nsec3(N3 { alg: 1, flags: optout as u8, iters, salt: salt.clone(), next, types: h[i].1.clone() })], base);
				}
			},
		}
	}
	/// The published denial record that covers `n`, if any.
	pub fn cover(&self, n: &MName) -> Option<Cover> {
		for ((o, t), set) in &self.sets {
			if let Some(c) = covers(&self.name, o, &set.data[0], n) { if c { return Some(Cover {
				owner: o.clone(), ty: *t, wraps: wraps(&self.name, o, &set.data[0]),
				optout: matches!(&set.data[0], D::Nsec3(x) if x.flags & 1 != 0), iters: if let D::Nsec3(x) = &set.data[0] { x.iters } else { 0 },
			}); } }
		}
		None
	}
	/// What the zone says about a name in it.
	pub fn lookup(&self, n: &MName, ty: u16) -> Found {
		let mut p = n.clone();
		while p != self.name {
			p = p.parent().unwrap();
			if self.sets.contains_key(&(p.clone(), DNAME)) { return Found::Dname { owner: p }; }
		}
		if self.sets.contains_key(&(n.clone(), ty)) { return Found::Set { owner: n.clone(), ty }; }
		if ty != CNAME && self.sets.contains_key(&(n.clone(), CNAME)) { return Found::Set { owner: n.clone(), ty: CNAME }; }
		if self.exists(n) { return Found::NoData; }
		let mut ce = n.clone();
		while !self.exists(&ce) { ce = ce.parent().unwrap(); }
		let w = ce.wildcard();
		let next_closer = n.suffix(ce.labels() + 1);
		if self.sets.contains_key(&(w.clone(), ty)) { return Found::Wild { owner: w, ty, next_closer }; }
		if self.sets.contains_key(&(w.clone(), CNAME)) { return Found::Wild { owner: w, ty: CNAME, next_closer }; }
		if self.exists(&w) { Found::NoData } else { Found::NxDomain }
	}
	/// The record data published at a name for a type, through a wildcard if need be, without following aliases.
	pub fn publishes(&self, n: &MName, ty: u16) -> Option<&Set> {
		match self.lookup(n, ty) {
			Found::Set { owner, ty: t } if t == ty => self.sets.get(&(owner, ty)),
			Found::Wild { owner, ty: t, .. } if t == ty => self.sets.get(&(owner, ty)),
			_ => None,
		}
	}
}
/// Whether a denial record proves that `n` (and everything below it) does not exist. `None` if it is no denial record.
pub fn covers(zone: &MName, owner: &MName, d: &D, n: &MName) -> Option<bool> {
	use std::cmp::Ordering::*;
	match d {
		D::Nsec(next, _) => {
			if !n.is_in(zone) || next.is_in(n) { return Some(false); }
			let after = owner.canon_cmp(n) == Less;
			let before = n.canon_cmp(next) == Less;
			let w = owner.canon_cmp(next) != Less;
			Some(if w { after } else { after && before })
		},
		D::Nsec3(x) => {
			if !n.is_in(zone) || owner.labels() != zone.labels() + 1 || !owner.is_in(zone) || x.alg != 1 { return Some(false); }
			let start = match unb32(&owner.0[0]) { Some(x) if x.len() == 20 => x, _ => return Some(false) };
			let h = nsec3_hash(n, &x.salt, x.iters);
			Some(if start < x.next { start < h && h < x.next } else { h > start || h < x.next })
		},
		_ => None,
	}
}
pub fn wraps(_zone: &MName, owner: &MName, d: &D) -> bool {
	match d {
		D::Nsec(next, _) => owner.canon_cmp(next) != std::cmp::Ordering::Less,
		D::Nsec3(x) => unb32(&owner.0[0]).map_or(false, |s| s >= x.next),
		_ => false,
	}
}
pub fn unb32(l: &[u8]) -> Option<Vec<u8>> {
	let (mut acc, mut bits, mut o) = (0u32, 0, Vec::new());
	for c in l {
		let v = match c.to_ascii_lowercase() { c @ b'0'..=b'9' => c - b'0', c @ b'a'..=b'v' => c - b'a' + 10, _ => return None };
		acc = acc << 5 | v as u32; bits += 5;
		if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
	}
	Some(o)
}

/// The result of resolving a query in the universe.
#[derive(Default, Clone)]
pub struct Answer {
	/// Answer section: aliases and data with signatures. Unsigned records are CNAMEs synthesized from DNAMEs.
	pub answer: Vec<Rec>,
	/// Authority section: denial records with signatures.
	pub authority: Vec<Rec>,
	pub finals: Vec<Rec>,
	/// The name the aliases lead to.
	pub target: Option<MName>,
	pub secure: bool,
	pub signers: BTreeSet<usize>,
	pub wraps_nsec: bool,
	pub wildcard: bool,
	pub optout: bool,
	pub max_iters: u16,
	pub aliases: usize,
	pub dnames: usize,
	pub looped: bool,
}

impl Universe {
	pub fn generate(s: &mut Src, o: &Opts) -> Universe {
		let n = s.range(o.zones.0, o.zones.1) as usize;
		let mut zones: Vec<Zone> = Vec::new();
		let root_denial = denial(s, o);
		zones.push(Zone::new(MName::root(), 0, zone_keys(s, o), vec![2], root_denial));
		let mut tries = 0;
		let lines = o.lines > 0 && s.below(100) < o.lines;
		while zones.len() < n && tries < 40 {
			tries += 1;
			// Favour chains.
			let p = if lines && zones.len() >= 3 { zones[zones.len() - 1 - s.usize(0, 1)].parent } else if s.chance(2, 3) { zones.len() - 1 } else { s.usize(0, zones.len() - 1) };
			let mut p = p;
			if zones[p].name.labels() >= 5 { p = 0; }
			let all: Vec<MName> = zones.iter().map(|z| z.name.clone()).collect();
			let mut name = zones[p].name.child(&zone_label(s, &all));
			if s.chance(1, 8) { name = name.child(&zone_label(s, &all)); }
			if zones.iter().any(|z| z.name == name) || !name.fits() { continue; }
			// The parent is the deepest enclosing zone; an existing zone below the new one would need re-parenting.
			if zones.iter().any(|z| z.name.is_below(&name)) { continue; }
			let p = (0..zones.len()).filter(|i| name.is_in(&zones[*i].name)).max_by_key(|i| zones[*i].name.labels()).unwrap();
			let ds: Vec<u8> = if s.below(100) < o.insecure { vec![] } else { match s.below(12) { 0 if o.sha1 => vec![1], 1 => vec![1, 2], 2 => vec![2, 4], _ => vec![2] } };
			let d = denial(s, o);
			zones.push(Zone::new(name, p, zone_keys(s, o), ds, d));
		}
		let mut u = Universe { zones };
		u.fill(s, o);
		u
	}
	/// Delegations out of a zone, and whether they are secure.
	pub fn delegations(&self, zi: usize) -> BTreeMap<MName, bool> {
		(1..self.zones.len()).filter(|i| self.zones[*i].parent == zi).map(|i| (self.zones[i].name.clone(), self.zones[i].is_secure_delegation())).collect()
	}
	fn some_name(&self, s: &mut Src) -> MName {
		let z = &self.zones[s.usize(0, self.zones.len() - 1)];
		let n = match s.below(4) {
			0 => z.name.clone(),
			1 => { let v: Vec<MName> = z.owners().into_iter().collect(); if v.is_empty() { z.name.clone() } else { s.pick(&v).clone() } },
			2 => z.name.child_s(host(s)),
			_ => z.name.child_s(host(s)).child_s(host(s)),
		};
		if n.is_wildcard() && s.bool() { n.parent().unwrap().child_s(host(s)) } else { n }
	}
	fn fill(&mut self, s: &mut Src, o: &Opts) {
		for zi in 0..self.zones.len() {
			let dels = self.delegations(zi);
			let zn = self.zones[zi].name.clone();
			let k: Vec<D> = self.zones[zi].keys.iter().map(|k| D::Key(k.data())).collect();
			let t = times_opt(s, o.wild_times);
			self.zones[zi].put(&zn, k, t);
			for (d, _) in &dels {
				let t = times_opt(s, o.wild_times);
				self.zones[zi].put(d, vec![D::Ns(d.child_s("ns")), D::Ns(MName::of("ns.net."))], t);
				let ci = self.zones.iter().position(|z| z.name == *d).unwrap();
				let ds = self.zones[ci].ds_set();
				let t = times_opt(s, o.wild_times);
				if !ds.is_empty() { self.zones[zi].put(d, ds, t); }
			}
			// Apex name servers.
			if s.bool() { let v = leaf_set(s, NS); let t = times_opt(s, o.wild_times); self.zones[zi].put(&zn, v, t); }
			let n = s.range(1, o.max_owners);
			for _ in 0..n {
				let mut owner = zn.clone();
				for _ in 0..*s.pick(&[1usize, 1, 2, 0, 3]) { owner = owner.child_s(host(s)); }
				if s.below(100) < o.wildcards { owner = owner.wildcard(); }
				if !owner.fits() || dels.keys().any(|d| owner.is_in(d)) { continue; }
				// Not below a DNAME.
				if self.zones[zi].sets.keys().any(|k| k.1 == DNAME && owner.is_below(&k.0)) { continue; }
				let apex = owner == zn;
				let has_other = self.zones[zi].sets.keys().any(|k| k.0 == owner);
				let has_cname = self.zones[zi].sets.contains_key(&(owner.clone(), CNAME));
				let below = self.zones[zi].sets.keys().any(|k| k.0.is_below(&owner));
				let mut n_types = *s.pick(&[1usize, 1, 2]);
				while n_types > 0 {
					n_types -= 1;
					let ty = [TXT, A, AAAA, TLSA, CNAME, DNAME, NS][s.weighted(&[8, 5, 3, 3, 3, 2, 1])];
					let t = times_opt(s, o.wild_times);
					match ty {
						CNAME => if !apex && !has_other && !self.zones[zi].sets.keys().any(|k| k.0 == owner) { let d = D::Cname(self.some_name(s)); self.zones[zi].put(&owner, vec![d], t); n_types = 0; },
						DNAME => if !owner.is_wildcard() && !below && !has_cname && !self.zones[zi].sets.contains_key(&(owner.clone(), CNAME)) {
							let d = D::Dname(self.some_name(s)); self.zones[zi].put(&owner, vec![d], t);
						},
						NS => if apex { let v = leaf_set(s, NS); self.zones[zi].put(&owner, v, t); },
						_ => if !has_cname && !self.zones[zi].sets.contains_key(&(owner.clone(), CNAME)) { let v = leaf_set(s, ty); self.zones[zi].put(&owner, v, t); },
					}
				}
			}
		}
		for zi in 0..self.zones.len() {
			let d = self.delegations(zi);
			self.zones[zi].build_denial(s, &d, o.wild_times);
		}
	}
	/// The zone whose data a name belongs to.
	pub fn zone_for(&self, n: &MName, ty: u16) -> usize {
		let z = (0..self.zones.len()).filter(|i| n.is_in(&self.zones[*i].name)).max_by_key(|i| self.zones[*i].name.labels()).unwrap();
		if ty == DS && z != 0 && *n == self.zones[z].name { self.zones[z].parent } else { z }
	}
	pub fn secure(&self, zi: usize) -> bool { zi == 0 || (self.zones[zi].is_secure_delegation() && self.secure(self.zones[zi].parent)) }
	/// Root trust anchors.
	pub fn anchors(&self) -> Vec<Deleg> { self.zones[0].ds_set().into_iter().filter_map(|d| if let D::Ds(d) = d { Some(d) } else { None }).collect() }
	/// Key sets and delegations from a zone up to the root.
	pub fn chain(&self, zi: usize) -> Vec<Rec> {
		let mut v = Vec::new();
		let mut z = zi;
		loop {
			let n = self.zones[z].name.clone();
			v.extend(self.zones[z].rrset(&n, DNSKEY));
			if z == 0 { return v; }
			let p = self.zones[z].parent;
			if self.zones[p].sets.contains_key(&(n.clone(), DS)) { v.extend(self.zones[p].rrset(&n, DS)); }
			z = p;
		}
	}
	pub fn zones_up(&self, zi: usize) -> Vec<usize> { let mut v = vec![zi]; let mut z = zi; while z != 0 { z = self.zones[z].parent; v.push(z); } v }
	/// Whether some zone legitimately publishes exactly this set at this name, and vouches for it.
	pub fn truth(&self, n: &MName, ty: u16) -> Option<&Set> {
		let z = self.zone_for(n, ty);
		if !self.secure(z) { return None; }
		// Delegation NS sets are not authoritative.
		self.zones[z].publishes(n, ty).filter(|_| !(ty == NS && *n != self.zones[z].name))
	}
	pub fn resolve(&self, n: &MName, ty: u16) -> Answer {
		let mut a = Answer { secure: true, ..Default::default() };
		let mut n = n.clone();
		let mut seen = BTreeSet::new();
		loop {
			if !seen.insert(n.clone()) || seen.len() > 12 { a.looped = true; return a; }
			let zi = self.zone_for(&n, ty);
			let z = &self.zones[zi];
			let sec = self.secure(zi);
			a.secure &= sec;
			let take = |a: &mut Answer, owner: &MName, t: u16, at: &MName| {
				let mut v = z.rrset_at(owner, t, at);
				if !sec { v.retain(|r| r.ty() != RRSIG); }
				if t == ty { a.finals = v.iter().filter(|r| r.ty() == t).cloned().collect(); a.target = Some(at.clone()); }
				// A set that is used twice, as a DNAME can be, is in a response once only (RFC 2181, section 5).
				for r in v { if !a.answer.contains(&r) { a.answer.push(r); } }
				a.signers.insert(zi);
			};
			match z.lookup(&n, ty) {
				Found::Set { owner, ty: t } => {
					take(&mut a, &owner, t, &n);
					if t == ty { return a; }
				},
				Found::Wild { owner, ty: t, next_closer } => {
					// Asking for the wildcard owner itself is not an expansion.
					take(&mut a, &owner, t, &n);
					a.wildcard = true;
					if sec {
						match z.cover(&next_closer) {
							Some(c) => {
								a.wraps_nsec |= c.wraps && c.ty == NSEC;
								a.optout |= c.optout;
								a.max_iters = a.max_iters.max(c.iters);
								for r in z.rrset(&c.owner, c.ty) { if !a.authority.contains(&r) { a.authority.push(r); } }
							},
							None => a.optout = true,
						}
					}
					if t == ty { return a; }
				},
				Found::Dname { owner } => {
					take(&mut a, &owner, DNAME, &owner);
					if let D::Dname(t) = &z.sets[&(owner.clone(), DNAME)].data[0] {
						let pre = MName(n.0[..n.0.len() - owner.0.len()].to_vec());
						let target = pre.join(t);
						if !target.fits() { a.looped = true; return a; }
						a.answer.push(Rec::new(&n, D::Cname(target.clone())));
						a.aliases += 1; a.dnames += 1;
						n = target;
					}
					continue;
				},
				Found::NoData | Found::NxDomain => { return a; },
			}
			let Some(Set { data, .. }) = z.publishes(&n, CNAME) else { return a };
			let D::Cname(t) = &data[0] else { return a };
			a.aliases += 1;
			n = t.clone();
		}
	}
	/// Names worth asking about: owners, names under wildcards, names near owners.
	pub fn query_name(&self, s: &mut Src) -> MName {
		let z = &self.zones[s.usize(0, self.zones.len() - 1)];
		let owners: Vec<MName> = z.owners().into_iter().collect();
		let o = s.pick(&owners).clone();
		let n = if o.is_wildcard() && !s.chance(1, 6) {
			let mut p = o.parent().unwrap();
			for _ in 0..*s.pick(&[1usize, 1, 2, 3]) { p = p.child_s(host(s)); }
			p
		} else if z.sets.contains_key(&(o.clone(), DNAME)) && s.chance(3, 4) {
			let mut p = o;
			for _ in 0..*s.pick(&[1usize, 1, 2]) { p = p.child_s(host(s)); }
			p
		} else if s.chance(1, 8) { o.child_s(host(s)) } else { o };
		gen::clamp(n)
	}
	/// A query whose answer, among those of some candidates, involves the most zones.
	pub fn far_query(&self, s: &mut Src, tries: usize) -> (MName, u16) {
		let mut best = self.query(s);
		for _ in 1..tries {
			let q = self.query(s);
			let n = |q: &(MName, u16)| { let a = self.resolve(&q.0, q.1); if a.finals.is_empty() || a.looped { 0 } else { a.signers.len() } };
			if n(&q) > n(&best) { best = q; }
		}
		best
	}
	/// A query that is likely to have an answer.
	pub fn query(&self, s: &mut Src) -> (MName, u16) {
		let n = self.query_name(s);
		let have: Vec<u16> = [TXT, A, AAAA, TLSA].into_iter().filter(|t| !self.resolve(&n, *t).finals.is_empty()).collect();
		if have.is_empty() || s.chance(1, 20) { (n, *s.pick(&[TXT, A, AAAA, TLSA])) } else { (n, *s.pick(&have)) }
	}
	pub fn show(&self) -> String {
		self.zones.iter().enumerate().map(|(i, z)| format!("zone {} {}{} keys [{}] {}: {}", i, z.name.text(), if self.secure(i) { "" } else { " (insecure)" },
			z.keys.iter().map(|k| format!("alg{} tag{}", k.k.alg, k.tag())).collect::<Vec<_>>().join(", "), match &z.denial { Denial::Nsec => "NSEC".to_string(), Denial::Nsec3 { iters, optout, .. } => format!("NSEC3 iters {}{}", iters, if *optout { " opt-out" } else { "" }) },
			z.sets.iter().filter(|x| x.0.1 != NSEC && x.0.1 != NSEC3 && x.0.1 != DNSKEY).map(|x| format!("{} {}x{}{}", x.0.0.text(), ty_name(x.0.1), x.1.data.len(), match &x.1.data[0] { D::Cname(t) | D::Dname(t) => format!(" -> {}", t.text()), _ => String::new() })).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" // ")
	}
}
fn denial(s: &mut Src, o: &Opts) -> Denial {
	if s.below(100) < o.nsec3 {
		let n = if s.chance(1, 16) { s.usize(100, 255) } else { *s.pick(&[0usize, 0, 4, 8]) };
		Denial::Nsec3 { salt: s.bytes(n), iters: *s.pick(&[0u16, 0, 0, 1, 5, 10]), optout: s.below(100) < o.optout }
	} else { Denial::Nsec }
}

/// Removes records that are in a list more than once.
pub fn dedup(v: Vec<Rec>) -> Vec<Rec> {
	let mut seen = std::collections::HashSet::new();
	v.into_iter().filter(|r| seen.insert(r.clone())).collect()
}
