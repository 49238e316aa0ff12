//! Verification of proofs: C07 (complete), C08 (sound), C12 (window), C13 (order), C15 (all or nothing).

use crate::engine::*;
use crate::model::{conv, crypto::*, gen, name::MName, rr::*, zone::*};
use dnssec_prover::validation as v;
use dnssec_prover::{rr as srr, ser as sser};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Out { pub recs: Vec<Rec>, pub from: u64, pub until: u64, pub ttl: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad { Unsupported, Invalid }
pub struct Run { pub out: Result<Out, Bad>, pub checks: u64, pub alloc: u64 }
impl Run {
	pub fn show(&self) -> String {
		match &self.out { Ok(o) => format!("Ok({} records: {}; valid {}..{}, ttl {})", o.recs.len(), show_all(&o.recs), o.from, o.until, o.ttl), Err(e) => format!("Err({:?})", e) }
	}
}

pub fn set_anchors(anchors: &[Deleg]) {
	v::verif_hooks::set_extra_root_anchors(anchors.iter().map(|d| srr::DS { name: ".".try_into().unwrap(), key_tag: d.tag, alg: d.alg, digest_type: d.dt, digest: d.digest.clone() }).collect());
}
/// Runs the verifier over records, with the given trust anchors besides the built-in ones.
pub fn verify(recs: &[Rec], anchors: &[Deleg]) -> Result<Run, String> {
	set_anchors(anchors);
	let inp: Vec<srr::RR> = sut(|| recs.iter().map(conv::to_sut).collect())?;
	verify_rrs(&inp)
}
pub fn verify_rrs(inp: &[srr::RR]) -> Result<Run, String> {
	v::verif_hooks::take_signature_checks();
	let a0 = allocated();
	let r = sut(|| v::verify_rr_stream(inp))?;
	let alloc = allocated() - a0;
	let checks = v::verif_hooks::take_signature_checks();
	let out = match r {
		Ok(o) => Ok(Out { recs: o.verified_rrs.iter().map(|r| conv::from_sut(r)).collect(), from: o.valid_from, until: o.expires, ttl: o.max_cache_ttl }),
		Err(v::ValidationError::UnsupportedAlgorithm) => Err(Bad::Unsupported),
		Err(v::ValidationError::Invalid) => Err(Bad::Invalid),
	};
	Ok(Run { out, checks, alloc })
}
/// A record as a resolver may return it: names of any letter case where the canonical form is in lower case, and any TTL.
pub fn mixed_wire(s: &mut Src, r: &Rec, also: bool) -> Vec<u8> {
	let ttl = s.below(301) as u32;
	let up = |s: &mut Src, b: &mut [u8]| if also && s.bool() { for c in b.iter_mut() { if c.is_ascii_lowercase() && s.bool() { *c = c.to_ascii_uppercase(); } } };
	let mut owner = r.name.wire();
	up(s, &mut owner);
	let mut d = r.d.rdata();
	match &r.d {
		D::Sig(g) => { let n = g.signer.wire_len(); up(s, &mut d[18..18 + n]); },
		D::Cname(_) | D::Dname(_) | D::Ns(_) => up(s, &mut d),
		_ => {},
	}
	raw_rr(&owner, r.ty(), 1, ttl, &d)
}
pub fn verify_mixed(s: &mut Src, recs: &[Rec], anchors: &[Deleg]) -> Result<Run, String> {
	set_anchors(anchors);
	let also = s.bool();
	let mut b = Vec::new();
	for r in recs { b.extend(mixed_wire(s, r, also)); }
	let inp = sut(|| sser::parse_rr_stream(&b))?.map_err(|_| format!("a proof of well-formed records does not parse: {}", show_all(recs)))?;
	verify_rrs(&inp)
}
/// Through the byte form, as users do it.
pub fn verify_bytes(recs: &[Rec], anchors: &[Deleg]) -> Result<Run, String> {
	set_anchors(anchors);
	let b = stream(recs, 300);
	let inp = sut(|| sser::parse_rr_stream(&b))?.map_err(|_| format!("a proof of well-formed records does not parse: {}", show_all(recs)))?;
	verify_rrs(&inp)
}

pub fn is_infra(t: u16) -> bool { matches!(t, RRSIG | DNSKEY | DS | NSEC | NSEC3) }

/// An honest proof.
#[derive(Default)]
pub struct Proof {
	pub recs: Vec<Rec>,
	pub reached: BTreeSet<usize>,
	pub wild: bool,
	pub nsec3: bool,
	pub aliases: usize,
	pub queries: Vec<(MName, u16)>,
}
/// The signed sets in a list of records that a verifier is to report.
pub fn signed_data_recs(recs: &[Rec]) -> BTreeSet<Rec> {
	let signed: BTreeSet<(MName, u16)> = recs.iter().filter_map(|r| if let D::Sig(g) = &r.d { Some((r.name.clone(), g.ty)) } else { None }).collect();
	recs.iter().filter(|r| !is_infra(r.ty()) && signed.contains(&(r.name.clone(), r.ty()))).cloned().collect()
}
/// Whether two zones publish an NSEC record at the same name in this list. (A known finding: see `nsec-at-zone-cut`.)
pub fn nsec_clash(recs: &[Rec]) -> bool {
	let mut owners = BTreeMap::new();
	recs.iter().any(|r| if let D::Nsec(..) = r.d { owners.insert(r.name.clone(), r.clone()).map_or(false, |o| o != *r) } else { false })
}
impl Proof {
	/// Adds what a resolver returns for a query, and the chains of the signing zones. Returns false, without any change, for a
	/// query whose answer cannot be part of an honest, verifiable proof.
	pub fn add(&mut self, u: &Universe, n: &MName, ty: u16, synth: bool) -> bool {
		let a = u.resolve(n, ty);
		if a.looped || a.answer.is_empty() || !a.signers.iter().any(|z| u.secure(*z)) { return false; }
		if a.wraps_nsec || a.optout || a.max_iters > 2500 { return false; }
		let mut v = self.recs.clone();
		v.extend(a.answer.iter().filter(|r| r.ty() != CNAME || synth || a.answer.iter().any(|g| g.name == r.name && matches!(&g.d, D::Sig(s) if s.ty == CNAME))).cloned());
		v.extend(a.authority.iter().cloned());
		for z in &a.signers { if u.secure(*z) { v.extend(u.chain(*z)); } }
		let v = dedup(v);
		if nsec_clash(&v) { return false; }
		self.recs = v;
		for z in &a.signers { if u.secure(*z) { self.reached.extend(u.zones_up(*z)); } }
		self.wild |= a.wildcard;
		self.nsec3 |= a.authority.iter().any(|r| r.ty() == NSEC3);
		self.aliases += a.aliases;
		self.queries.push((n.clone(), ty));
		true
	}
	pub fn expect(&self) -> BTreeSet<Rec> { signed_data_recs(&self.recs) }
}
/// An honest proof for one or several queries; `None` if this name space has no secure data to ask for.
pub fn proof(s: &mut Src, u: &Universe, max: usize) -> Option<Proof> {
	let mut p = Proof::default();
	let n = s.usize(1, max);
	let synth = s.bool();
	for _ in 0..n * 4 {
		let (q, t) = u.query(s);
		p.add(u, &q, t, synth);
		if p.queries.len() >= n { break; }
	}
	if p.queries.is_empty() || p.expect().is_empty() { None } else { Some(p) }
}
pub fn label_proof(c: &mut Ctx, u: &Universe, p: &Proof) {
	c.label(format!("zones reached: {}", p.reached.len()));
	if p.wild { c.label(if p.nsec3 { "wildcard with NSEC3" } else { "wildcard with NSEC" }); }
	if p.aliases > 0 { c.label("aliases"); }
	for z in &p.reached { for k in &u.zones[*z].zsk { c.label(format!("zone signing algorithm {}", u.zones[*z].keys[*k].k.alg)); } }
	for z in &p.reached { if u.zones[*z].ds_types == [1] { c.label("SHA-1 delegation"); } if u.zones[*z].ds_types.len() > 1 { c.label("several digest types"); } }
}
pub fn key_of(recs: &[Rec]) -> u64 {
	let mut h = 7;
	for r in recs { h = mix(h ^ hash_bytes(&r.wire(0))); }
	h
}

fn complete(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let o = Opts { also: 15, ..Default::default() };
	let u = Universe::generate(s, &o);
	let Some(p) = proof(s, &u, 4) else { return Ok(()) };
	let mut recs = p.recs.clone();
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	label_proof(c, &u, &p);
	c.note(|| u.show());
	c.note(|| format!("queries {:?} proof of {} records: {}", p.queries.iter().map(|q| format!("{} {}", q.0.text(), ty_name(q.1))).collect::<Vec<_>>(), recs.len(), show_all(&recs)));
	let r = if s.bool() { verify(&recs, &u.anchors())? } else { verify_mixed(s, &recs, &u.anchors())? };
	expect_exactly(&r, &p.expect())
}
pub fn expect_exactly(r: &Run, want: &BTreeSet<Rec>) -> Result<(), String> {
	let out = match &r.out { Ok(o) => o, Err(e) => return Err(format!("an honestly signed proof is rejected as {:?}", e)) };
	let got: BTreeSet<Rec> = out.recs.iter().cloned().collect();
	if got.len() != out.recs.len() { return Err(format!("a record is reported more than once: {}", show_all(&out.recs))); }
	for r in &got { if !want.contains(r) { return Err(format!("verified {} which is not among the signed data of the proof", show(r))); } }
	for r in want { if !got.contains(r) { return Err(format!("{} is signed but not reported as verified", show(r))); } }
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// Adversaries

/// Every set a zone publishes, with signatures, except unsigned delegation name server sets.
pub fn published(u: &Universe) -> Vec<(usize, MName, u16)> {
	let mut v = Vec::new();
	for (i, z) in u.zones.iter().enumerate() {
		for (o, t) in z.sets.keys() {
			if *t == NS && *o != z.name { continue; }
			v.push((i, o.clone(), *t));
		}
	}
	v
}
pub fn some_owner(s: &mut Src, u: &Universe) -> MName {
	let z = &u.zones[s.usize(0, u.zones.len() - 1)];
	let owners: Vec<MName> = z.owners().into_iter().collect();
	match s.weighted(&[4, 3, 2]) {
		0 => s.pick(&owners).clone(),
		1 => gen::clamp(s.pick(&owners).child_s(host(s))),
		_ => gen::clamp(z.name.child_s(host(s)).child_s(host(s))),
	}
}
fn tweak_small(s: &mut Src, d: &D) -> D {
	for _ in 0..4 {
		let t = gen::tweak(s, d.clone());
		if t != *d && t.rdata().len() < 3000 { return t; }
	}
	d.clone()
}
/// One edit of a proof by somebody who holds no zone's keys.
pub fn tamper(s: &mut Src, u: &Universe, recs: &mut Vec<Rec>) -> &'static str {
	if recs.is_empty() { return "nothing"; }
	let pick_sig = |s: &mut Src, recs: &[Rec]| -> Option<usize> {
		let v: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].ty() == RRSIG).collect();
		if v.is_empty() { None } else { Some(*s.pick(&v)) }
	};
	let pick_data = |s: &mut Src, recs: &[Rec]| -> Option<usize> {
		let v: Vec<usize> = (0..recs.len()).filter(|i| !is_infra(recs[*i].ty())).collect();
		if v.is_empty() { None } else { Some(*s.pick(&v)) }
	};
	match s.weighted(&[4, 3, 3, 4, 3, 4, 3, 2, 3, 3, 2, 2, 2, 3]) {
		0 => { let i = s.usize(0, recs.len() - 1); recs.remove(i); "drop a record" },
		1 => { let Some(i) = pick_data(s, recs) else { return "nothing" }; recs[i].d = tweak_small(s, &recs[i].d.clone()); "alter data" },
		2 => { let i = s.usize(0, recs.len() - 1); recs[i].d = tweak_small(s, &recs[i].d.clone()); "alter a record" },
		3 => {
			// A record nobody published, next to a published one or alone.
			let r = if s.bool() { let Some(i) = pick_data(s, recs) else { return "nothing" }; Rec::new(&recs[i].name.clone(), leaf_data(s, recs[i].ty())) } else {
				let ty = *s.pick(&[TXT, A, AAAA, TLSA, CNAME, DNAME]);
				Rec::new(&some_owner(s, u), leaf_data(s, ty))
			};
			recs.push(r);
			"add an unpublished record"
		},
		4 => {
			let Some(i) = pick_sig(s, recs) else { return "nothing" };
			if let D::Sig(g) = &mut recs[i].d {
				match s.below(9) {
					0 => g.ttl = s.u32(), 1 => g.labels = g.labels.wrapping_add(*s.pick(&[1u8, 255, 2, 128])), 2 => g.exp = g.exp.wrapping_add(1 + s.below(100_000_000) as u32), 3 => g.inc = s.u32(),
					4 => g.tag = s.u16(), 5 => g.alg = *s.pick(&[8u8, 10, 13, 14, 15, 5, 0]), 6 => g.ty = *s.pick(&SUPPORTED),
					7 => g.signer = u.zones[s.usize(0, u.zones.len() - 1)].name.clone(),
					_ => if !g.sig.is_empty() { let k = s.usize(0, g.sig.len() - 1); g.sig[k] ^= 1 << s.below(8); },
				}
			}
			"alter a signature record"
		},
		5 => {
			// Move a whole set, signature included, to another name.
			let Some(i) = pick_data(s, recs) else { return "nothing" };
			let (n, t) = (recs[i].name.clone(), recs[i].ty());
			let to = some_owner(s, u);
			let keep = s.bool();
			let mut add = Vec::new();
			for r in recs.iter_mut() {
				let same = r.name == n && (r.ty() == t || matches!(&r.d, D::Sig(g) if g.ty == t));
				if same { if keep { add.push(Rec::new(&to, r.d.clone())); } else { r.name = to.clone(); } }
			}
			recs.extend(add);
			*recs = dedup(std::mem::take(recs));
			"move a set"
		},
		6 => {
			// Expand a wildcard somewhere else, with whatever the zone offers as denial.
			let w: Vec<(usize, MName, u16)> = published(u).into_iter().filter(|x| x.1.is_wildcard() && !is_infra(x.2)).collect();
			if w.is_empty() { return "nothing"; }
			let (z, o, t) = s.pick(&w).clone();
			let under = o.parent().unwrap();
			let zn = &u.zones[z];
			let below: Vec<MName> = zn.owners().into_iter().chain(u.zones.iter().map(|z| z.name.clone())).filter(|n| n.is_below(&under)).collect();
			let mut at = if below.is_empty() || s.bool() { under.child_s(host(s)) } else { s.pick(&below).clone() };
			if s.chance(1, 3) { at = at.child_s(host(s)); }
			if s.chance(1, 4) && at.labels() > under.labels() + 1 { at = at.parent().unwrap(); }
			let at = gen::clamp(at);
			recs.extend(zn.rrset_at(&o, t, &at));
			let den: Vec<(MName, u16)> = zn.sets.keys().filter(|k| k.1 == NSEC || k.1 == NSEC3).cloned().collect();
			let most = s.bool();
			for (o, t) in den { if s.chance(if most { 9 } else { 3 }, 10) { recs.extend(zn.rrset(&o, t)); } }
			recs.extend(u.chain(z));
			*recs = dedup(std::mem::take(recs));
			"expand a wildcard"
		},
		7 => {
			// Signatures of one set over another.
			let (Some(i), Some(j)) = (pick_sig(s, recs), pick_sig(s, recs)) else { return "nothing" };
			let d = recs[i].d.clone();
			if s.bool() { recs[j].d = d; } else { let n = recs[j].name.clone(); recs.push(Rec::new(&n, d)); }
			"reuse a signature"
		},
		8 => {
			// Another genuine set of some zone.
			let v = published(u);
			let (z, o, t) = s.pick(&v).clone();
			recs.extend(u.zones[z].rrset(&o, t));
			if s.bool() { recs.extend(u.chain(z)); }
			*recs = dedup(std::mem::take(recs));
			"add genuine records"
		},
		9 => {
			// Signed by a key of the adversary, in the name of a zone.
			let z = &u.zones[s.usize(0, u.zones.len() - 1)];
			let n = some_owner(s, u);
			let ty = *s.pick(&[TXT, A, CNAME, DS, NSEC]);
			let data = match ty {
				DS => vec![D::Ds(ZKey { k: key(Fam::Ed25519, 999), flags: 257, proto: 3 }.ds(&n, 2))],
				NSEC => vec![D::Nsec(some_owner(s, u), [A].into_iter().collect())],
				_ => vec![leaf_data(s, ty)],
			};
			let k = ZKey { k: key(Fam::Ed25519, 999), flags: 257, proto: 3 };
			let t = times(s);
			let mut g = sign_set(&z.name, &k, &n, &data, t);
			if s.bool() { g.tag = z.keys[s.usize(0, z.keys.len() - 1)].tag(); }
			recs.extend(data.into_iter().map(|d| Rec::new(&n, d)));
			recs.push(Rec::new(&n, D::Sig(g)));
			if s.chance(1, 3) { recs.push(Rec::new(&z.name, D::Key(k.data()))); }
			if s.chance(1, 3) { let g = sign_set(&z.name, &k, &z.name, &[D::Key(k.data())], t); recs.push(Rec::new(&z.name, D::Sig(g))); }
			"sign with a foreign key"
		},
		10 => {
			// A delegation to keys of the adversary, unsigned or with a signature taken from a genuine one.
			let zi = s.usize(0, u.zones.len() - 1);
			let z = &u.zones[zi];
			let k = ZKey { k: key(Fam::Ed25519, 998), flags: 257, proto: 3 };
			let mut ds = k.ds(&z.name, 2);
			if s.chance(1, 4) { ds.tag = z.keys[z.ksk[0]].tag(); }
			if s.bool() { recs.retain(|r| !(r.name == z.name && matches!(r.d, D::Ds(_)))); }
			if s.bool() { recs.retain(|r| !(r.name == z.name && (matches!(r.d, D::Key(_)) || matches!(&r.d, D::Sig(g) if g.ty == DNSKEY)))); }
			recs.push(Rec::new(&z.name, D::Ds(ds)));
			recs.push(Rec::new(&z.name, D::Key(k.data())));
			let t = times(s);
			recs.push(Rec::new(&z.name, D::Sig(sign_set(&z.name, &k, &z.name, &[D::Key(k.data())], t))));
			let n = gen::clamp(z.name.child_s(host(s)));
			let d = vec![leaf_data(s, TXT)];
			recs.push(Rec::new(&n, D::Sig(sign_set(&z.name, &k, &n, &d, t))));
			recs.push(Rec::new(&n, d[0].clone()));
			"forge a delegation"
		},
		12 => {
			// A record almost like a published one, next to it.
			let Some(i) = pick_data(s, recs) else { return "nothing" };
			let mut r = recs[i].clone();
			let flip = |s: &mut Src, b: &mut [u8]| if !b.is_empty() { let k = match s.below(3) { 0 => b.len() - 1, 1 => 0, _ => s.usize(0, b.len() - 1) }; b[k] ^= 1 << s.below(8); };
			match &mut r.d {
				D::A(a) => flip(s, a),
				D::Aaaa(a) => flip(s, a),
				D::Txt(t) => if t.is_empty() || s.chance(1, 4) { t.push(s.u8()) } else { flip(s, t) },
				D::Tlsa(_, _, _, d) => if d.is_empty() || s.chance(1, 4) { d.push(s.u8()) } else { flip(s, d) },
				d => *d = tweak_small(s, d),
			}
			if recs.contains(&r) { return "nothing"; }
			recs.push(r);
			"add a near copy"
		},
		13 => {
			// In the name of a zone's published key of an algorithm that can't be checked.
			let v: Vec<(MName, u8, u16)> = recs.iter().filter_map(|r| if let D::Key(k) = &r.d { if !matches!(k.alg, 8 | 10 | 13 | 14 | 15) { return Some((r.name.clone(), k.alg, key_tag(&r.d.rdata()))); } None } else { None }).collect();
			if v.is_empty() { return "nothing"; }
			let (z, alg, tag) = s.pick(&v).clone();
			let n = if s.bool() { some_owner(s, u) } else { gen::clamp(z.child_s(host(s))) };
			let ty = *s.pick(&[TXT, A, AAAA, TLSA, CNAME, DNAME, DS]);
			let t = times(s);
			let d = if ty == DS { vec![D::Ds(ZKey { k: key(Fam::Ed25519, 999), flags: 257, proto: 3 }.ds(&n, 2))] } else { leaf_set(s, ty) };
			let sig = s.bytes(64);
			recs.push(Rec::new(&n, D::Sig(Sig { ty, alg, labels: n.labels() as u8, ttl: t.ttl, exp: t.exp, inc: t.inc, tag, signer: z, sig })));
			recs.extend(d.into_iter().map(|d| Rec::new(&n, d)));
			*recs = dedup(std::mem::take(recs));
			"sign with an unsupported algorithm"
		},
		_ => {
			// Records of the same name under another type's signature, or another class of set at the name.
			let Some(i) = pick_data(s, recs) else { return "nothing" };
			let n = recs[i].name.clone();
			let t = recs[i].ty();
			recs.retain(|r| !(r.name == n && r.ty() == t));
			let d = leaf_data(s, t);
			recs.push(Rec::new(&n, d));
			"substitute a set"
		},
	}
}

/// Every verified record is published by the zone its name belongs to, and sets are whole.
pub fn check_authentic(u: &Universe, out: &Out) -> Result<(), String> {
	let mut groups: BTreeMap<(MName, u16), Vec<D>> = BTreeMap::new();
	for r in &out.recs {
		if is_infra(r.ty()) { return Err(format!("{} is reported as verified data", show(r))); }
		groups.entry((r.name.clone(), r.ty())).or_default().push(r.d.clone());
	}
	for ((n, t), got) in groups {
		let Some(set) = u.truth(&n, t) else { return Err(format!("{} {} is reported as verified, but its zone publishes no such set: {:?}", n.text(), ty_name(t), got)) };
		for d in &got { if !set.data.contains(d) { return Err(format!("{} is reported as verified but is not published", show(&Rec::new(&n, d.clone())))); } }
		if got.len() != set.data.len() { return Err(format!("{} of the {} records of {} {} are reported as verified", got.len(), set.data.len(), n.text(), ty_name(t))); }
	}
	Ok(())
}

fn sound(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { wildcards: 40, unsupported: 30, ..Default::default() });
	let Some(p) = proof(s, &u, 3) else { return Ok(()) };
	let mut recs = p.recs.clone();
	let n = *s.pick(&[1usize, 1, 1, 2, 3, 4]);
	let mut what = Vec::new();
	for _ in 0..n { what.push(tamper(s, &u, &mut recs)); }
	s.shuffle(&mut recs);
	if recs.len() != p.recs.len() || recs.iter().any(|r| !p.recs.contains(r)) { c.nontrivial(key_of(&recs)); }
	for w in &what { c.label(*w); }
	c.note(|| u.show());
	c.note(|| format!("edits {:?}; records: {}", what, show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	c.note(|| r.show());
	c.label(if r.out.is_ok() { "outcome: verified" } else { "outcome: rejected" });
	if let Ok(out) = &r.out { check_authentic(&u, out)?; }
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// C12

pub fn resolve_time(t: u32) -> u64 { if t < ROLL { t as u64 + (1u64 << 32) } else { t as u64 } }
/// The tightest bounds over all signatures in a list of records.
pub fn bounds(recs: &[Rec]) -> (u64, u64, u32) {
	let (mut from, mut until, mut ttl) = (0, u64::MAX, u32::MAX);
	for r in recs { if let D::Sig(g) = &r.d { from = from.max(resolve_time(g.inc)); until = until.min(resolve_time(g.exp)); ttl = ttl.min(g.ttl); } }
	(from, until, ttl)
}
fn window(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { wild_times: true, insecure: 0, fams: [40, 30, 6, 1, 0], ..Default::default() });
	let Some(p) = proof(s, &u, 2) else { return Ok(()) };
	let mut recs = p.recs.clone();
	s.shuffle(&mut recs);
	let (from, until, ttl) = bounds(&recs);
	c.nontrivial(key_of(&recs));
	c.label(if from >= until { "empty window" } else { "window" });
	if recs.iter().any(|r| matches!(&r.d, D::Sig(g) if g.exp < ROLL || g.inc < ROLL)) { c.label("past 2106"); }
	c.note(|| format!("expected {}..{} ttl {}; records: {}", from, until, ttl, show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	c.note(|| r.show());
	bounded(&r, from, until, ttl)
}
fn bounded(r: &Run, from: u64, until: u64, ttl: u32) -> Result<(), String> {
	match &r.out {
		Ok(o) => {
			if from >= until { return Err(format!("verified with the empty window {}..{} (reported {}..{})", from, until, o.from, o.until)); }
			if o.from != from { return Err(format!("valid_from is {}, the latest inception is {}", o.from, from)); }
			if o.until != until { return Err(format!("expires is {}, the earliest expiration is {}", o.until, until)); }
			if o.ttl != ttl { return Err(format!("max_cache_ttl is {}, the smallest original TTL is {}", o.ttl, ttl)); }
		},
		Err(e) => if from < until { return Err(format!("rejected as {:?} although the window {}..{} is not empty", e, from, until)); },
	}
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// C13

pub fn same_outcome(a: &Run, b: &Run) -> Result<(), String> {
	match (&a.out, &b.out) {
		(Err(_), Err(_)) => Ok(()),
		(Ok(x), Ok(y)) => {
			let (p, q): (BTreeSet<&Rec>, BTreeSet<&Rec>) = (x.recs.iter().collect(), y.recs.iter().collect());
			if p != q || x.recs.len() != y.recs.len() { return Err(format!("different records are verified in different orders: {} against {}", show_all(&x.recs), show_all(&y.recs))); }
			if (x.from, x.until, x.ttl) != (y.from, y.until, y.ttl) { return Err(format!("different bounds in different orders: {}..{} {} against {}..{} {}", x.from, x.until, x.ttl, y.from, y.until, y.ttl)); }
			Ok(())
		},
		_ => Err(format!("one order verifies, another does not: {} against {}", a.show(), b.show())),
	}
}
fn order(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let wild = s.chance(1, 4);
	let u = Universe::generate(s, &Opts { wildcards: 45, wild_times: wild, ..Default::default() });
	let Some(p) = proof(s, &u, 4) else { return Ok(()) };
	let mut recs = p.recs.clone();
	let n = *s.pick(&[0usize, 0, 1, 1, 2]);
	for _ in 0..n {
		let w = tamper(s, &u, &mut recs);
		c.label(w);
	}
	// One signature per key set: the verifier stops at the first good one.
	let mut seen = BTreeSet::new();
	recs.retain(|r| !matches!(&r.d, D::Sig(g) if g.ty == DNSKEY && !seen.insert(r.name.clone())));
	// At most two sets of NSEC3 parameters per zone, and distinct key tags per zone.
	let mut params: BTreeSet<(u16, Vec<u8>)> = BTreeSet::new();
	for r in &recs { if let D::Nsec3(x) = &r.d { params.insert((x.iters, x.salt.clone())); } }
	let mut tags = BTreeSet::new();
	if recs.iter().any(|r| matches!(&r.d, D::Key(k) if !tags.insert((r.name.clone(), k.alg, key_tag(&r.d.rdata()))))) { return Ok(()); }
	if n == 0 { c.label("honest proof"); }
	if params.len() > 2 && n > 0 { return Ok(()); }
	if recs.len() > 1 { c.nontrivial(key_of(&recs)); }
	c.note(|| format!("records: {}", show_all(&recs)));
	let a = verify(&recs, &u.anchors())?;
	c.label(if a.out.is_ok() { "outcome: verified" } else { "outcome: rejected" });
	for i in 0..4 {
		let mut p = recs.clone();
		match i { 0 => p.reverse(), 1 => { let k = s.usize(0, p.len().max(1) - 1); p.rotate_left(k); }, _ => s.shuffle(&mut p) }
		let b = verify(&p, &u.anchors())?;
		if let Err(e) = same_outcome(&a, &b) { c.note(|| format!("other order: {}", show_all(&p))); return Err(e); }
	}
	Ok(())
}

/// A zone in the middle of a change of its NSEC3 parameters: records of the old and the new chain, of which either may be the
/// one that denies a name. Returns the records, the anchors and whether all wildcard answers are denied.
fn salt_change(s: &mut Src, c: &mut Ctx) -> (Vec<Rec>, Vec<Deleg>, bool) {
	let (mut recs, anchors, _, z, zk) = root_and_zone();
	let params: Vec<(u16, Vec<u8>)> = {
		let i = *s.pick(&[0u16, 1, 5, 2499]);
		let n = *s.pick(&[0usize, 2, 8]);
		let a = (i, s.bytes(n));
		let b = match s.below(4) {
			0 => (i + 1, a.1.clone()),
			1 => (i, [&a.1[..], &[7]].concat()),
			2 => (3, vec![0xee]),
			// Salts of one length, mostly with the same iterations.
			_ => { let k = s.usize(0, n.max(1) - 1); let mut b = a.1.clone(); if let Some(x) = b.get_mut(k) { *x ^= 1 << s.below(8); } (if s.chance(1, 4) { i / 2 } else { i }, b) },
		};
		if b == a { vec![a] } else { vec![a, b] }
	};
	let n = s.usize(1, 3);
	let mut all = true;
	let mut put_at: BTreeSet<MName> = BTreeSet::new();
	for i in 0..n {
		let base = z.child_s(["u", "v", "w"][i]);
		let nc = base.child_s(*s.pick(&["m", "host"][..]));
		let at = if s.bool() { nc.child_s("x") } else { nc.clone() };
		let d = leaf_data(s, TXT);
		put(&mut recs, &z, &zk, &at, &base.wildcard(), vec![d]);
		let mut denied = false;
		for (it, salt) in &params {
			let h = nsec3_hash(&nc, salt, *it);
			let step = |up: bool| { let mut h = h.clone(); let k = 4; h[k] = if up { h[k].wrapping_add(1) } else { h[k].wrapping_sub(1) }; for b in &mut h[k + 1..] { *b = 0; } h };
			let cover = s.bool();
			let (a, b) = if cover { (step(false), step(true)) } else if s.bool() { (step(true), step(false)) } else { continue };
			// Intervals that wrap around because of the middle byte do not matter here.
			let d = D::Nsec3(N3 { alg: 1, flags: 0, iters: *it, salt: salt.clone(), next: b, types: [TXT, RRSIG].into_iter().collect() });
			let o = z.child(&b32(&a));
			if !put_at.insert(o.clone()) { continue; }
			put(&mut recs, &z, &zk, &o, &o, vec![d]);
			denied |= recs.iter().any(|r| r.name == o && covers(&z, &o, &r.d, &nc) == Some(true));
		}
		// A record for another name may happen to cover this one.
		denied |= recs.iter().any(|r| covers(&z, &r.name, &r.d, &nc) == Some(true));
		all &= denied;
	}
	for r in recs.clone() { if r.ty() == NSEC3 { c.label(format!("NSEC3 of parameter set {}", params.iter().position(|p| matches!(&r.d, D::Nsec3(x) if x.iters == p.0 && x.salt == p.1)).unwrap_or(9))); } }
	c.label(format!("{} parameter sets", recs.iter().filter_map(|r| if let D::Nsec3(x) = &r.d { Some((x.iters, x.salt.clone())) } else { None }).collect::<BTreeSet<_>>().len()));
	(recs, anchors, all)
}
fn salt_change_order(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (mut recs, anchors, _) = salt_change(s, c);
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	c.note(|| format!("records: {}", show_all(&recs)));
	let a = verify(&recs, &anchors)?;
	c.label(if a.out.is_ok() { "outcome: verified" } else { "outcome: rejected" });
	for i in 0..4 {
		let mut p = recs.clone();
		if i == 0 { p.reverse(); } else { s.shuffle(&mut p); }
		let b = verify(&p, &anchors)?;
		if let Err(e) = same_outcome(&a, &b) { c.note(|| format!("other order: {}", show_all(&p))); return Err(e); }
	}
	Ok(())
}
fn salt_change_honest(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (mut recs, anchors, denied) = salt_change(s, c);
	if !denied { return Ok(()); }
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	c.note(|| format!("records: {}", show_all(&recs)));
	let r = verify(&recs, &anchors)?;
	expect_exactly(&r, &signed_data_recs(&recs))
}

/// No tampering makes a proof of supported zones look like one that depends on unsupported cryptography.
pub fn no_excuse(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { unsupported: 30, ..Default::default() });
	let Some(p) = proof(s, &u, 3) else { return Ok(()) };
	let mut recs = p.recs.clone();
	let mut what = Vec::new();
	for _ in 0..*s.pick(&[1usize, 1, 1, 2, 3]) {
		if recs.is_empty() { break; }
		what.push(match s.weighted(&[3, 2, 2, 2]) {
			0 => tamper(s, &u, &mut recs).to_string(),
			1 => {
				// A whole set, or its signatures.
				let r = s.pick(&recs).clone();
				let (n, t) = (r.name.clone(), if let D::Sig(g) = &r.d { g.ty } else { r.ty() });
				let how = s.below(3);
				recs.retain(|x| !(x.name == n && ((how != 1 && x.ty() == t) || (how != 2 && matches!(&x.d, D::Sig(g) if g.ty == t)))));
				format!("remove {} of {} {}", ["all", "the signatures", "the records"][how as usize], n.text(), ty_name(t))
			},
			2 => {
				// What is unsupported, put where it would matter.
				let i = s.usize(0, recs.len() - 1);
				match &mut recs[i].d {
					D::Ds(d) => { match s.below(3) { 0 => d.dt = *s.pick(&[0u8, 3, 4, 255]), 1 => d.alg = *s.pick(&[5u8, 16, 253]), _ => { d.dt = 4; d.digest = vec![7; 48]; } } "a DS record made unsupported".to_string() },
					D::Key(k) => { k.alg = *s.pick(&[5u8, 7, 16, 253]); "a key made unsupported".to_string() },
					D::Sig(g) => { g.alg = *s.pick(&[5u8, 7, 16, 253]); "a signature made unsupported".to_string() },
					_ => { recs.remove(i); "drop a record".to_string() },
				}
			},
			_ => {
				// Added next to the genuine ones.
				let z = &u.zones[s.usize(0, u.zones.len() - 1)];
				let k = ZKey { k: key(Fam::Unsupported(*s.pick(&[5u8, 7, 16, 253])), s.below(16) as usize), flags: *s.pick(&[256u16, 257]), proto: 3 };
				let set: Vec<D> = recs.iter().filter(|r| r.name == z.name && r.ty() == DNSKEY).map(|r| r.d.clone()).collect();
				let how = s.below(4);
				if how != 1 { recs.push(Rec::new(&z.name, D::Key(k.data()))); }
				if how != 2 { recs.push(Rec::new(&z.name, D::Ds(k.ds(&z.name, *s.pick(&[2u8, 2, 4, 1]))))); }
				if how != 3 { let t = times(s); recs.push(Rec::new(&z.name, D::Sig(sign_set(&z.name, &k, &z.name, &set, t)))); }
				recs = dedup(std::mem::take(&mut recs));
				"add unsupported records".to_string()
			},
		});
	}
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	for w in &what { c.label(if w.starts_with("remove") { "remove a set" } else { w }); }
	c.note(|| u.show());
	c.note(|| format!("{}; records: {}", what.join(", "), show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	if let Ok(o) = &r.out { c.label("still verifies"); return check_authentic(&u, o); }
	c.label("rejected");
	if r.out.as_ref().err() == Some(&Bad::Unsupported) { return Err(format!("{}: an altered proof of zones with supported cryptography is reported as using an unsupported algorithm", what.join(", "))); }
	Ok(())
}

/// A signature by an RSA key counts only if the key as published is that key.
fn rsa_encodings(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (recs0, anchors, _, z, _) = root_and_zone();
	let f = if s.bool() { Fam::Rsa256 } else { Fam::Rsa512 };
	let (k, what, good) = rsa_encoded(f, s.below(64) as usize, s.below(15), s.u8());
	let bad = ZKey { k: std::rc::Rc::new(k), flags: 256, proto: 3 };
	let sep = fixed_key(2);
	let mut recs: Vec<Rec> = recs0.into_iter().filter(|r| !(r.name == z && (r.ty() == DNSKEY || matches!(&r.d, D::Sig(g) if g.ty == DNSKEY)))).collect();
	put(&mut recs, &z, &sep, &z, &z, vec![D::Key(sep.data()), D::Key(bad.data())]);
	let w = z.child_s(host(s));
	let ty = *s.pick(&[TXT, A, AAAA, TLSA]);
	let data = leaf_set(s, ty);
	put(&mut recs, &z, &bad, &w, &w, data);
	if s.bool() { s.shuffle(&mut recs); }
	c.nontrivial(key_of(&recs));
	c.label(what);
	c.note(|| format!("RSA key with {}; records: {}", what, show_all(&recs)));
	let r = verify(&recs, &anchors)?;
	match good {
		Some(true) => expect_exactly(&r, &signed_data_recs(&recs)),
		Some(false) => if r.out.is_ok() { Err(format!("data verifies with an RSA key with {}", what)) } else { Ok(()) },
		None => Ok(()),
	}
}

// ---------------------------------------------------------------------------------------------------------------
// C15

/// Breaks one signature of a proof, or what it covers.
fn break_one(s: &mut Src, recs: &mut Vec<Rec>, reached: &BTreeSet<MName>) -> Option<String> {
	let v: Vec<usize> = (0..recs.len()).filter(|i| matches!(&recs[*i].d, D::Sig(g) if g.ty != DNSKEY && reached.contains(&g.signer))).collect();
	if v.is_empty() { return None; }
	// Each kind of covered set equally often.
	let kinds: Vec<u16> = v.iter().map(|i| if let D::Sig(g) = &recs[*i].d { g.ty } else { 0 }).collect::<BTreeSet<_>>().into_iter().collect();
	let kind = *s.pick(&kinds);
	let v: Vec<usize> = v.into_iter().filter(|i| matches!(&recs[*i].d, D::Sig(g) if g.ty == kind)).collect();
	let i = *s.pick(&v);
	let D::Sig(g) = recs[i].d.clone() else { return None };
	let owner = recs[i].name.clone();
	let mut n = g.clone();
	let covered: Vec<usize> = (0..recs.len()).filter(|j| recs[*j].name == owner && recs[*j].ty() == g.ty).collect();
	let op = s.weighted(&[6, 2, 2, 2, 2, 2, 2, 2, 4, 3, 3, 2]);
	let what = match op {
		0 => { if n.sig.is_empty() { return None; } let k = match s.below(3) { 0 => 0, 1 => n.sig.len() - 1, _ => s.usize(0, n.sig.len() - 1) }; n.sig[k] ^= 1 << s.below(8); "flipped signature bit" },
		1 => { let k = if s.chance(1, 3) { 0 } else { s.usize(0, n.sig.len().max(1) - 1) }; n.sig.truncate(k); "truncated signature" },
		2 => { n.sig.push(s.u8()); "extended signature" },
		3 => { n.ttl ^= 1 << s.below(32); "altered original TTL" },
		4 => { n.exp = if s.chance(1, 3) { n.inc.wrapping_sub(s.below(3) as u32) } else { n.exp.wrapping_add(1 + s.below(1000) as u32) }; "altered expiration" },
		5 => { n.inc = n.inc.wrapping_sub(1 + s.below(1000) as u32); "altered inception" },
		6 => { n.tag ^= 1 << s.below(16); "altered key tag" },
		7 => { n.labels = *s.pick(&[n.labels.wrapping_add(1), n.labels.wrapping_sub(1), 0, 255]); if n.labels == g.labels { return None; } "altered label count" },
		8 => { if covered.is_empty() { return None; } let j = *s.pick(&covered); let t = tweak_small(s, &recs[j].d.clone()); if covered.iter().any(|j| recs[*j].d == t) { return None; } recs[j].d = t; "altered covered record" },
		9 => { if covered.is_empty() { return None; } let j = *s.pick(&covered); recs.remove(j); "dropped covered record" },
		10 => { let d = match g.ty { NSEC => D::Nsec(owner.clone(), [A].into_iter().collect()), DS => D::Ds(Deleg { tag: 1, alg: 13, dt: 2, digest: vec![3; 32] }), NSEC3 => D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: vec![9; 20], types: BTreeSet::new() }), t => leaf_data(s, t) };
			if covered.iter().any(|j| recs[*j].d == d) { return None; } recs.push(Rec::new(&owner, d)); "added a record to the set" },
		_ => { n.sig = sha512(&n.sig)[..n.sig.len().min(64)].to_vec(); "replaced signature" },
	};
	let what = format!("{} over {} {}", what, owner.text(), ty_name(g.ty));
	if n != g {
		if s.chance(1, 3) { recs.push(Rec::new(&owner, D::Sig(n))); return Some(format!("{} (next to the genuine one)", what)); }
		recs[i].d = D::Sig(n);
	}
	Some(what)
}
fn all_or_nothing(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { wildcards: 45, ..Default::default() });
	let Some(p) = proof(s, &u, 4) else { return Ok(()) };
	let mut recs = p.recs.clone();
	let reached: BTreeSet<MName> = p.reached.iter().map(|z| u.zones[*z].name.clone()).collect();
	let Some(what) = break_one(s, &mut recs, &reached) else { return Ok(()) };
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	c.label(what.split(" over ").next().unwrap().to_string());
	c.label(format!("over {}", what.split(' ').filter(|w| !w.starts_with('(')).skip_while(|w| *w != "over").nth(2).unwrap_or("?")));
	c.note(|| u.show());
	c.note(|| format!("{}; records: {}", what, show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	if let Ok(o) = &r.out { return Err(format!("{}: the proof still verifies with {} records", what, o.recs.len())); }
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// Known findings

fn fixed_times() -> Times { Times { inc: NOW - 1000, exp: NOW + 1000, ttl: 300 } }
fn fixed_key(i: usize) -> ZKey { ZKey { k: key(Fam::Ed25519, i), flags: 257, proto: 3 } }
fn put(recs: &mut Vec<Rec>, signer: &MName, k: &ZKey, at: &MName, owner: &MName, data: Vec<D>) { put_at(recs, signer, k, at, owner, data, fixed_times()) }
fn put_at(recs: &mut Vec<Rec>, signer: &MName, k: &ZKey, at: &MName, owner: &MName, data: Vec<D>, t: Times) {
	let g = sign_set(signer, k, owner, &data, t);
	recs.extend(data.into_iter().map(|d| Rec::new(at, d)));
	recs.push(Rec::new(at, D::Sig(g)));
}
fn root_and_zone() -> (Vec<Rec>, Vec<Deleg>, ZKey, MName, ZKey) {
	let (rk, zk) = (fixed_key(1), fixed_key(2));
	let (root, z) = (MName::root(), MName::of("z."));
	let mut recs = Vec::new();
	put(&mut recs, &root, &rk, &root, &root, vec![D::Key(rk.data())]);
	put(&mut recs, &root, &rk, &z, &z, vec![D::Ds(zk.ds(&z, 2))]);
	put(&mut recs, &z, &zk, &z, &z, vec![D::Key(zk.data())]);
	(recs, vec![rk.ds(&root, 2)], rk, z, zk)
}
fn probe(recs: &[Rec], anchors: &[Deleg], what: &str) -> Result<Option<String>, String> {
	let r = verify(recs, anchors)?;
	Ok(match &r.out { Err(Bad::Invalid) => Some(what.to_string()), Err(Bad::Unsupported) => return Err(format!("{}: reported as an unsupported algorithm", what)), Ok(_) => { expect_exactly(&r, &signed_data_recs(recs))?; None } })
}
/// The next closer name lies after the last name of its zone, so only the last NSEC record, which leads back to the apex, can
/// deny it.
fn nsec_wrap_around() -> Result<Option<String>, String> {
	let (mut recs, anchors, _, z, zk) = root_and_zone();
	let w = z.wildcard();
	put(&mut recs, &z, &zk, &z.child_s("x"), &w, vec![D::Txt(b"wild".to_vec())]);
	put(&mut recs, &z, &zk, &w, &w, vec![D::Nsec(z.clone(), [TXT, RRSIG, NSEC].into_iter().collect())]);
	probe(&recs, &anchors, "a wildcard answer denied by the last NSEC record of its zone is rejected")
}
/// The parent's NSEC record at a delegation and the child's at its apex have the same name and type.
fn nsec_at_zone_cut() -> Result<Option<String>, String> {
	let (mut recs, anchors, rk, z, zk) = root_and_zone();
	let root = MName::root();
	// *. in the root, expanded at zz. and denied by z.'s NSEC record in the root; *.z. expanded at a.z., denied by the apex one.
	put(&mut recs, &root, &rk, &MName::of("za."), &root.wildcard(), vec![D::Cname(MName::of("#.z."))]);
	put(&mut recs, &root, &rk, &z, &z, vec![D::Nsec(MName::of("zz."), [NS, DS, RRSIG, NSEC].into_iter().collect())]);
	put(&mut recs, &z, &zk, &MName::of("#.z."), &z.wildcard(), vec![D::Txt(b"wild".to_vec())]);
	put(&mut recs, &z, &zk, &z, &z, vec![D::Nsec(z.wildcard(), [NS, DNSKEY, RRSIG, NSEC].into_iter().collect())]);
	probe(&recs, &anchors, "a proof that needs both the parent's NSEC record at a delegation and the child's at its apex is rejected")
}
/// A TXT record of two short strings: the library keeps only the joined text, so it hashes other bytes than were signed.
fn txt_two_strings() -> Result<Option<String>, String> {
	let (recs, anchors, _, z, zk) = root_and_zone();
	let w = z.child_s("w");
	let rdata = b"\x02ab\x02cd";
	let k = zk.data();
	let mut g = Sig { ty: TXT, alg: k.alg, labels: 2, ttl: 300, exp: NOW + 1000, inc: NOW - 1000, tag: zk.tag(), signer: z.clone(), sig: vec![] };
	let mut msg = sig_prefix(&g);
	msg.extend(raw_rr(&w.wire(), TXT, 1, 300, rdata));
	g.sig = zk.k.sign(&msg);
	let mut b = stream(&recs, 300);
	b.extend(raw_rr(&w.wire(), TXT, 1, 300, rdata));
	b.extend(Rec::new(&w, D::Sig(g)).wire(300));
	set_anchors(&anchors);
	let inp = sut(|| sser::parse_rr_stream(&b))?.map_err(|_| "a TXT record of two strings does not parse".to_string())?;
	let r = verify_rrs(&inp)?;
	Ok(if r.out.is_err() { Some("a correctly signed TXT record of the strings \"ab\" \"cd\" does not verify".to_string()) } else { None })
}
pub fn known_denials() -> Vec<Known> {
	vec![Known { id: "txt-chunk-boundaries", probe: txt_two_strings }, Known { id: "nsec-wrap-around", probe: nsec_wrap_around }, Known { id: "nsec-at-zone-cut", probe: nsec_at_zone_cut }]
}


/// Proofs far larger than those a zone tree of a few zones gives: many zones below each other, keys, delegations, records in a
/// set, sets, wildcards and non-existence records.
pub fn large_proof(s: &mut Src, c: &mut Ctx) -> (Vec<Rec>, Vec<Deleg>) { large_proof_at(s, c, |_| fixed_times()) }
/// The same, with the times of each signature drawn by `when`.
pub fn large_proof_at(s: &mut Src, c: &mut Ctx, mut when: impl FnMut(&mut Src) -> Times) -> (Vec<Rec>, Vec<Deleg>) {
	// Usually one or two dimensions are large.
	let big: Vec<bool> = { let a = s.below(8) as usize; let b = s.below(8) as usize; (0..8).map(|i| i == a || i == b).collect() };
	let many = |s: &mut Src, b: bool, small: u64, hi: u64| if b { s.range(small, hi) as usize } else { s.range(1, small) as usize };
	let depth = many(s, big[0], 3, 40);
	let rk = fixed_key(1);
	let mut recs = Vec::new();
	let anchors = vec![rk.ds(&MName::root(), 2)];
	put_at(&mut recs, &MName::root(), &rk, &MName::root(), &MName::root(), vec![D::Key(rk.data())], when(s));
	let mut zones = vec![(MName::root(), rk)];
	for i in 0..depth {
		let (up, upk) = zones.last().unwrap().clone();
		let z = up.child_s(&format!("{}{}", *s.pick(&["z", "a", "zone", "_"]), i));
		if !z.fits() || z.wire_len() > 200 { break; }
		let k = fixed_key(10 + i);
		let mut tags = BTreeSet::from([k.tag()]);
		let mut keys = vec![D::Key(k.data())];
		let more = big[1] && s.bool();
		let n = many(s, more, 2, 40);
		for j in 1..n {
			let o = ZKey { k: key(*s.pick(&[Fam::Ed25519, Fam::P256]), 1000 + j), flags: if j % 2 == 0 { 256 } else { 257 }, proto: 3 };
			if tags.insert(o.tag()) { keys.push(D::Key(o.data())); }
		}
		let dt = if s.chance(1, 8) { 1 } else { 2 };
		let mut ds = vec![D::Ds(k.ds(&z, dt))];
		let more = big[2] && s.bool();
		let n = many(s, more, 2, 40);
		for j in 1..n {
			let o = fixed_key(5000 + j);
			if tags.contains(&o.tag()) { continue; }
			let d = D::Ds(o.ds(&z, dt));
			if !ds.contains(&d) { ds.push(d); }
		}
		if s.bool() { s.shuffle(&mut ds); s.shuffle(&mut keys); }
		put_at(&mut recs, &up, &upk, &z, &z, ds, when(s));
		put_at(&mut recs, &z, &k, &z, &z, keys, when(s));
		zones.push((z, k));
	}
	let sets = many(s, big[3], 4, 60);
	for i in 0..sets {
		let (z, k) = if i == 0 { zones.last().unwrap().clone() } else { s.pick(&zones).clone() };
		let w = z.child_s(&format!("h{}", i));
		let ty = *s.pick(&[TXT, A, AAAA, TLSA, NS]);
		let more = big[4] && s.chance(1, 4);
		let n = many(s, more, 3, 90);
		let long = big[5] && s.chance(1, 4);
		let mut set: Vec<D> = (0..n).map(|j| match ty {
			A => D::A([10, 0, (j >> 8) as u8, j as u8]),
			AAAA => { let mut a = [0u8; 16]; a[j % 16] = j as u8; a[15] ^= 1; a[0] = j as u8; D::Aaaa(a) },
			NS => D::Ns(MName::of(&format!("ns{}.z.", j))),
			TLSA => D::Tlsa(3, 1, 1, { let mut v = vec![j as u8; 32]; if long { v.resize(2000 + 37 * j, 7); } v }),
			_ => D::Txt({ let mut v = format!("text {}", j).into_bytes(); if long { v.resize(1000 + 211 * j, b'x'); } v }),
		}).collect();
		set.sort(); set.dedup();
		if s.bool() { s.shuffle(&mut set); }
		put_at(&mut recs, &z, &k, &w, &w, set, when(s));
	}
	// Wildcards, each with its own denial.
	let wild = if big[6] { s.range(2, 40) as usize } else { s.below(3) as usize };
	let (z, k) = s.pick(&zones).clone();
	let nsec3 = s.bool();
	let (salt, iters) = ({ let n = if s.chance(1, 4) { s.usize(9, 255) } else { s.below(9) as usize }; vec![s.u8(); n] }, if s.bool() { 0 } else { s.range(1, 20) as u16 });
	let mut hashes: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
	for i in 0..wild {
		let w = z.child_s(&format!("w{:03}", i));
		let at = w.child_s(&format!("x{}", s.below(3)));
		put_at(&mut recs, &z, &k, &at, &w.wildcard(), vec![D::Txt(format!("wild {}", i).into_bytes())], when(s));
		if nsec3 { let h = nsec3_hash(&at, &salt, iters); hashes.insert(step(&h, false), step(&h, true)); }
		else { put_at(&mut recs, &z, &k, &w.wildcard(), &w.wildcard(), vec![D::Nsec(z.child_s(&format!("w{:03}", i + 1)), [TXT, RRSIG, NSEC].into_iter().collect())], when(s)); }
	}
	// Non-existence records about other names.
	let others = if big[7] { s.range(2, 200) as usize } else { s.below(3) as usize };
	for i in 0..others {
		if nsec3 { let h = nsec3_hash(&z.child_s(&format!("o{}", i)), &salt, iters); hashes.entry(step(&h, false)).or_insert(step(&h, true)); }
		else { put_at(&mut recs, &z, &k, &z.child_s(&format!("o{:03}", i)), &z.child_s(&format!("o{:03}", i)), vec![D::Nsec(z.child_s(&format!("o{:03}", i + 1)), [A, RRSIG, NSEC].into_iter().collect())], when(s)); }
	}
	for (from, next) in hashes {
		let owner = z.child(&b32(&from));
		let d = D::Nsec3(N3 { alg: 1, flags: 0, iters, salt: salt.clone(), next, types: BTreeSet::from([A]) });
		let g = sign_set(&z, &k, &owner, &[d.clone()], when(s));
		recs.push(Rec::new(&owner, d));
		recs.push(Rec::new(&owner, D::Sig(g)));
	}
	if s.chance(2, 3) { s.shuffle(&mut recs); }
	c.nontrivial(key_of(&recs));
	for (i, l) in ["zones", "keys", "delegations", "sets", "records in a set", "long records", "wildcards", "non-existence records"].iter().enumerate() { if big[i] { c.label(format!("many {}", l)); } }
	if recs.len() > 200 { c.label("over 200 records"); }
	c.note(|| format!("{} zones, {} sets, {} wildcards, {} further non-existence records ({}), {} records: {}", zones.len(), sets, wild, others, if nsec3 { "NSEC3" } else { "NSEC" }, recs.len(), show_all(&recs)));
	(recs, anchors)
}
fn large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (recs, anchors) = large_proof(s, c);
	let r = if s.bool() { verify(&recs, &anchors)? } else { verify_mixed(s, &recs, &anchors)? };
	expect_exactly(&r, &signed_data_recs(&recs))
}
/// Times whose window holds NOW for nearly every signature; one or a few of them are far from the rest.
fn large_window(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (odd, mode) = (s.range(2, 60), s.below(3));
	let (recs, anchors) = large_proof_at(s, c, |s| {
		let mut t = Times { inc: NOW - 1 - s.below(1000) as u32, exp: NOW + 1 + s.below(1000) as u32, ttl: 1000 + s.below(1000) as u32 };
		if s.chance(1, odd) {
			if mode == 0 { t = times_opt(s, true); } else { match s.below(3) { 0 => t.inc = NOW - s.below(2) as u32, 1 => t.exp = NOW + s.below(2) as u32, _ => t.ttl = s.below(1000) as u32 } }
		}
		t
	});
	let (from, until, ttl) = bounds(&recs);
	c.label(if from >= until { "empty window" } else { "window" });
	c.note(|| format!("expected {}..{} ttl {}", from, until, ttl));
	let r = verify(&recs, &anchors)?;
	if !(from >= until) { expect_exactly(&r, &signed_data_recs(&recs))?; }
	bounded(&r, from, until, ttl)
}
fn large_broken(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (mut recs, anchors) = large_proof(s, c);
	let reached: BTreeSet<MName> = recs.iter().filter(|r| r.ty() == DNSKEY).map(|r| r.name.clone()).collect();
	let Some(what) = break_one(s, &mut recs, &reached) else { return Ok(()) };
	if s.bool() { s.shuffle(&mut recs); }
	c.note(|| what.clone());
	let r = verify(&recs, &anchors)?;
	if let Ok(o) = &r.out { return Err(format!("{}: the proof still verifies with {} records", what, o.recs.len())); }
	Ok(())
}
fn large_order(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let (mut recs, anchors) = large_proof(s, c);
	if s.chance(1, 4) {
		let i = s.usize(0, recs.len() - 1);
		if !matches!(recs[i].d, D::Key(_)) { recs[i].d = tweak_small(s, &recs[i].d.clone()); c.label("one record altered"); }
	}
	let a = verify(&recs, &anchors)?;
	for i in 0..3 {
		let mut p = recs.clone();
		match i { 0 => p.reverse(), 1 => { let k = s.usize(0, p.len() - 1); p.rotate_left(k); }, _ => s.shuffle(&mut p) }
		let b = verify(&p, &anchors)?;
		if let Err(e) = same_outcome(&a, &b) { c.note(|| format!("other order: {}", show_all(&p))); return Err(e); }
	}
	Ok(())
}
/// The next or the previous hash.
fn step(h: &[u8], up: bool) -> Vec<u8> {
	let mut h = h.to_vec();
	for b in h.iter_mut().rev() {
		if up { let (n, o) = b.overflowing_add(1); *b = n; if !o { break; } } else { let (n, o) = b.overflowing_sub(1); *b = n; if !o { break; } }
	}
	h
}
/// A zone may sign records that only matter to verifiers. Whether or not the proof is accepted with them, they are never reported.
fn no_infrastructure(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { wildcards: 15, ..Default::default() });
	let Some(p) = proof(s, &u, 3) else { return Ok(()) };
	let mut recs = p.recs.clone();
	let reached: Vec<usize> = p.reached.iter().copied().filter(|z| !u.zones[*z].keys.is_empty()).collect();
	let mut what = Vec::new();
	for _ in 0..s.range(1, 3) {
		let z = &u.zones[*s.pick(&reached)];
		let k = &z.keys[z.zsk[0]];
		let owner = if s.bool() { let o: Vec<MName> = recs.iter().map(|r| r.name.clone()).filter(|n| n.is_in(&z.name) && !n.is_wildcard()).collect(); if o.is_empty() { z.name.clone() } else { s.pick(&o).clone() } } else { gen::clamp(z.name.child_s(host(s))) };
		let ty = *s.pick(&[RRSIG, RRSIG, DNSKEY, DS, NSEC, NSEC3]);
		// The whole set of that type at the name is signed, as it stands in the proof.
		let mut set: Vec<D> = recs.iter().filter(|r| r.name == owner && r.ty() == ty).map(|r| r.d.clone()).collect();
		if ty == DNSKEY && owner == z.name { continue; }
		if set.is_empty() || s.chance(1, 3) {
			set.push(match ty {
				RRSIG => D::Sig(sign_set(&z.name, k, &owner, &leaf_set(s, A), fixed_times())),
				DNSKEY => D::Key(fixed_key(77).data()),
				DS => D::Ds(fixed_key(77).ds(&owner, 2)),
				NSEC => D::Nsec(owner.child_s("zz"), [A, RRSIG, NSEC].into_iter().collect()),
				_ => D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: vec![9; 20], types: BTreeSet::new() }),
			});
		}
		for d in &set { let r = Rec::new(&owner, d.clone()); if !recs.contains(&r) { recs.push(r); } }
		recs.push(Rec::new(&owner, D::Sig(sign_set(&z.name, k, &owner, &set, fixed_times()))));
		what.push(format!("{} signs {} {}", z.name.text(), owner.text(), ty_name(ty)));
		c.label(format!("signed {}", ty_name(ty)));
	}
	if what.is_empty() { return Ok(()); }
	if s.bool() { s.shuffle(&mut recs); }
	c.nontrivial(key_of(&recs));
	c.note(|| format!("{}; records: {}", what.join(", "), show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	if let Ok(o) = &r.out {
		c.label("accepted");
		let want = signed_data_recs(&recs);
		for g in &o.recs {
			if is_infra(g.ty()) { return Err(format!("{} is reported as verified data", show(g))); }
			if !want.contains(g) { return Err(format!("verified {} which is not among the signed data of the proof", show(g))); }
		}
	}
	Ok(())
}

pub fn c07() -> Prop {
	Prop {
		id: "C07",
		rule: "a case is non-trivial when an honest proof with at least one signed data record was built",
		tests: vec![Test { name: "complete", quick: 20_000, thorough: 600_000, run: complete }, Test { name: "salt_change", quick: 6_000, thorough: 200_000, run: salt_change_honest }, Test { name: "large", quick: 3_000, thorough: 60_000, run: large }, Test { name: "no_infrastructure", quick: 6_000, thorough: 200_000, run: no_infrastructure }],
		known: known_denials(),
		assumptions: vec!["zones have keys with distinct tags per algorithm", "a proof holds every record once", "TXT records are split into 255-byte strings, and no answer needs the last NSEC record of a zone, or the NSEC records of both sides of a zone cut (the known findings)", "the next names of NSEC records are in lower case"],
	}
}
pub fn c08() -> Prop {
	Prop {
		id: "C08",
		rule: "a case is non-trivial when the tampered proof differs from the honest one as a set of records, or an RSA key was published in one of 15 encodings",
		tests: vec![Test { name: "sound", quick: 30_000, thorough: 800_000, run: sound }, Test { name: "rsa_encodings", quick: 6_000, thorough: 200_000, run: rsa_encodings }],
		known: vec![],
		assumptions: vec!["the adversary holds no zone's private key; signature schemes and digests are unforgeable"],
	}
}
pub fn c12() -> Prop {
	Prop {
		id: "C12",
		rule: "a case is non-trivial when an honest proof with at least one signed data record was built",
		tests: vec![Test { name: "window", quick: 24_000, thorough: 600_000, run: window }, Test { name: "large", quick: 3_000, thorough: 60_000, run: large_window }],
		known: vec![],
		assumptions: vec!["all signatures over one key set share their validity window"],
	}
}
pub fn c13() -> Prop {
	Prop {
		id: "C13",
		rule: "a case is non-trivial when the proof has at least two records; each is verified in five orders",
		tests: vec![Test { name: "order", quick: 8_000, thorough: 300_000, run: order }, Test { name: "salt_change", quick: 8_000, thorough: 300_000, run: salt_change_order }, Test { name: "large", quick: 1_000, thorough: 30_000, run: large_order }],
		known: vec![],
		assumptions: vec!["one signature per key set, distinct key tags per zone, and at most two sets of NSEC3 parameters"],
	}
}
pub fn c15() -> Prop {
	Prop {
		id: "C15",
		rule: "a case is non-trivial when one signature of an honest proof, or the set it covers, was broken",
		tests: vec![Test { name: "all_or_nothing", quick: 30_000, thorough: 800_000, run: all_or_nothing }, Test { name: "large", quick: 2_000, thorough: 60_000, run: large_broken }],
		known: vec![],
		assumptions: vec!["signature schemes are unforgeable"],
	}
}
