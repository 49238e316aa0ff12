//! C26: records nobody vouches for, and what was verified before or elsewhere, have no influence on verification.

use super::validate::*;
use crate::engine::*;
use crate::model::{crypto::*, gen, name::MName, rr::*, zone::*};
use std::collections::BTreeSet;

/// What a list of records says about itself: the names that a verifier may come to trust, and the sets that are there.
struct Seen { zones: BTreeSet<MName>, sets: BTreeSet<(MName, u16)> }
fn seen(recs: &[Rec], u: &Universe) -> Seen {
	let mut z = Seen { zones: u.zones.iter().map(|z| z.name.clone()).filter(|n| n.0.is_empty()).collect(), sets: BTreeSet::new() };
	for r in recs {
		z.sets.insert((r.name.clone(), r.ty()));
		if let D::Sig(g) = &r.d { z.sets.insert((r.name.clone(), g.ty)); }
		// Whatever has a delegation record may be reached.
		if r.ty() == DS { z.zones.insert(r.name.clone()); }
	}
	z.zones.insert(MName::root());
	z
}
/// Whether a record can be added without changing any set that is vouched for, or claiming to be made by a reached zone.
fn apart(z: &Seen, r: &Rec) -> bool {
	match &r.d {
		// A key set's signatures are told by its name alone.
		D::Sig(g) => !z.zones.contains(&g.signer) && !(g.ty == DNSKEY && z.zones.contains(&r.name)),
		_ => !z.sets.contains(&(r.name.clone(), r.ty())),
	}
}
fn strange_sig(s: &mut Src, zone: &MName, at: &MName, recs: &[Rec]) -> D {
	let like: Vec<&Sig> = recs.iter().filter_map(|r| if let D::Sig(g) = &r.d { Some(g) } else { None }).collect();
	let mut g = if !like.is_empty() && s.chance(3, 4) { (*s.pick(&like)).clone() } else { Sig { ty: TXT, alg: 15, labels: at.labels() as u8, ttl: 0, exp: 1, inc: NOW, tag: s.u16(), signer: zone.clone(), sig: vec![0; 64] } };
	g.signer = zone.clone();
	// Bounds that would be felt if they counted.
	if s.bool() { g.exp = NOW - 400_000_000 + s.below(1000) as u32; }
	if s.bool() { g.inc = NOW + 400_000_000 + s.below(1000) as u32; }
	if s.bool() { g.ttl = 0; }
	if s.chance(1, 4) { g.ty = *s.pick(&SUPPORTED); }
	if s.chance(1, 6) { g.alg = *s.pick(&[0u8, 5, 16, 253]); }
	if s.chance(1, 6) { g.labels = s.u8(); }
	if s.chance(1, 6) { g.sig = vec![]; }
	D::Sig(g)
}
/// Records besides a proof.
fn bystanders(s: &mut Src, c: &mut Ctx, u: &Universe, recs: &[Rec]) -> Vec<Rec> {
	let mut out = Vec::new();
	let owners: Vec<MName> = recs.iter().map(|r| r.name.clone()).collect::<BTreeSet<_>>().into_iter().collect();
	let any_name = |s: &mut Src| match s.weighted(&[4, 3, 2, 1]) {
		0 => s.pick(&owners).clone(),
		1 => some_owner(s, u),
		2 => gen::clamp(s.pick(&owners).child_s(host(s))),
		_ => gen::name(s),
	};
	let n = s.usize(1, 5);
	for _ in 0..n {
		match s.weighted(&[4, 3, 3, 3, 2, 2, 2]) {
			0 => {
				let ty = *s.pick(&[TXT, A, AAAA, TLSA, CNAME, DNAME, NS]);
				let at = any_name(s);
				for d in leaf_set(s, ty) { out.push(Rec::new(&at, d)); }
				c.label("unsigned data");
			},
			1 => {
				// A zone nobody delegated to, in full.
				let at = any_name(s);
				let k = ZKey { k: key(Fam::Ed25519, 990 + s.usize(0, 3)), flags: 257, proto: 3 };
				let t = if s.bool() { times(s) } else { Times { inc: NOW + 300_000_000, exp: NOW + 300_000_001, ttl: 0 } };
				let sets = [(at.clone(), vec![D::Key(k.data())]), (gen::clamp(at.child_s(host(s))), vec![leaf_data(s, TXT)]), (gen::clamp(at.child_s("sub")), vec![D::Ds(k.ds(&at, 2))])];
				for (o, d) in sets {
					let g = sign_set(&at, &k, &o, &d, t);
					out.extend(d.into_iter().map(|d| Rec::new(&o, d)));
					out.push(Rec::new(&o, D::Sig(g)));
				}
				c.label("island of security");
			},
			2 => { let (z, at) = (any_name(s), any_name(s)); out.push(Rec::new(&at, strange_sig(s, &z, &at, recs))); c.label("signature of an unreached zone"); },
			3 => {
				let at = any_name(s);
				let k = ZKey { k: key(Fam::Ed25519, 980 + s.usize(0, 3)), flags: 257, proto: 3 };
				let d = match s.below(5) {
					0 => D::Key(k.data()),
					1 => D::Ds(Deleg { tag: s.u16(), alg: *s.pick(&[13u8, 0, 5, 8]), dt: *s.pick(&[2u8, 1, 3, 0]), digest: s.bytes(32) }),
					2 => { let n = any_name(s); D::Nsec(n, [A, RRSIG].into_iter().collect()) },
					_ => D::Nsec3(N3 { alg: s.below(3) as u8, flags: s.below(2) as u8, iters: *s.pick(&[0u16, 1, 2500, 2501, 65535]), salt: vec![s.u8()], next: s.bytes(20), types: BTreeSet::new() }),
				};
				// A delegation record may decide which zones are reached: only below unreached names.
				if let D::Ds(_) = d { out.push(Rec::new(&gen::clamp(MName::of("unreached.").child_s(host(s))), d)); } else if let D::Nsec3(_) = d { let h = s.bytes(20); out.push(Rec::new(&gen::clamp(at.child(&b32(&h))), d)); } else { out.push(Rec::new(&at, d)); }
				c.label("unsigned infrastructure");
			},
			4 => {
				// Another zone's genuine set, whose chain is not there.
				let v: Vec<(usize, MName, u16)> = published(u).into_iter().filter(|x| !recs.iter().any(|r| r.ty() == DS && r.name == u.zones[x.0].name)).collect();
				if v.is_empty() { continue; }
				let (z, o, t) = s.pick(&v).clone();
				if z == 0 { continue; }
				out.extend(u.zones[z].rrset(&o, t));
				c.label("genuine set without a chain");
			},
			5 => {
				// A whole second zone of the name space without its delegation.
				let v: Vec<usize> = (1..u.zones.len()).filter(|z| !recs.iter().any(|r| r.ty() == DS && r.name == u.zones[*z].name)).collect();
				if v.is_empty() { continue; }
				let z = *s.pick(&v);
				for (o, t) in u.zones[z].sets.keys() { if *t != DS && s.chance(2, 3) { out.extend(u.zones[z].rrset(o, *t)); } }
				c.label("zone without a delegation");
			},
			_ => {
				// The same signature, under another signer.
				let v: Vec<&Rec> = recs.iter().filter(|r| r.ty() == RRSIG).collect();
				if v.is_empty() { continue; }
				let r = (*s.pick(&v)).clone();
				let D::Sig(mut g) = r.d else { continue };
				g.signer = any_name(s);
				out.push(Rec::new(&r.name, D::Sig(g)));
				c.label("renamed signer");
			},
		}
	}
	out
}
/// Many records besides a proof.
fn crowd(s: &mut Src, c: &mut Ctx, recs: &[Rec]) -> Vec<Rec> {
	let owners: Vec<MName> = recs.iter().map(|r| r.name.clone()).collect::<BTreeSet<_>>().into_iter().collect();
	let n = s.usize(20, 400);
	let at = |s: &mut Src| if s.bool() { s.pick(&owners).clone() } else { let h = host(s); gen::clamp(s.pick(&owners).child_s(h)) };
	let mut out = Vec::new();
	match s.below(5) {
		0 => { c.label("many unsigned records"); for _ in 0..n { let ty = *s.pick(&[TXT, A, AAAA, TLSA]); let o = at(s); for d in leaf_set(s, ty) { out.push(Rec::new(&o, d)); } } },
		1 => { c.label("many keys"); let o = at(s); for i in 0..n { let k = ZKey { k: key(Fam::Ed25519, 2000 + i), flags: 256, proto: 3 }; out.push(Rec::new(&o, D::Key(k.data()))); } },
		2 => { c.label("many signatures"); for _ in 0..n { let (z, o) = (at(s), at(s)); out.push(Rec::new(&o, strange_sig(s, &z, &o, recs))); } },
		3 => { c.label("many delegations"); for i in 0..n { let o = MName::of("unreached.").child_s(&format!("d{}", i)); out.push(Rec::new(&o, D::Ds(Deleg { tag: s.u16(), alg: 13, dt: 2, digest: vec![i as u8; 32] }))); } },
		_ => { c.label("many non-existence records"); for i in 0..n { let o = at(s).child_s(&format!("n{}", i)); if o.fits() { out.push(Rec::new(&o, if s.bool() { D::Nsec(o.clone(), [A].into()) } else { D::Nsec3(N3 { alg: 1, flags: 0, iters: i as u16, salt: vec![], next: vec![7; 20], types: BTreeSet::new() }) })); } } },
	}
	out
}
fn strictly_same(a: &Run, b: &Run, what: &str) -> Result<(), String> {
	let f = |r: &Run| match &r.out { Ok(o) => { let mut v = o.recs.clone(); v.sort(); Ok((v, o.from, o.until, o.ttl)) }, Err(_) => Err(()) };
	if f(a) != f(b) { return Err(format!("{} changes the outcome: {} against {}", what, a.show(), b.show())); }
	Ok(())
}
fn bystander(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { insecure: 25, fams: [60, 30, 4, 1, 0], ..Default::default() });
	let Some(p) = proof(s, &u, 3) else { return Ok(()) };
	let mut recs = p.recs.clone();
	if s.chance(1, 4) { let w = tamper(s, &u, &mut recs); c.label(format!("tampered: {}", w)); }
	if recs.is_empty() { return Ok(()); }
	let z = seen(&recs, &u);
	let more = if s.chance(1, 12) { crowd(s, c, &recs) } else { bystanders(s, c, &u, &recs) };
	let mut extra: Vec<Rec> = more.into_iter().filter(|r| apart(&z, r)).collect();
	extra = dedup(extra);
	// A delegation record that is there must not be one for a name that the proof may reach.
	if extra.is_empty() { return Ok(()); }
	c.nontrivial(key_of(&recs) ^ mix(key_of(&extra)));
	let a = verify(&recs, &u.anchors())?;
	c.label(if a.out.is_ok() { "outcome: verified" } else { "outcome: rejected" });
	// Before, behind or between the records, whose order stays: with several signatures over a key set it may matter.
	let mut all: Vec<Rec> = recs.iter().chain(extra.iter()).cloned().collect();
	match s.below(3) {
		0 => {},
		1 => all.rotate_left(recs.len()),
		_ => { all = recs.clone(); for r in &extra { let i = s.usize(0, all.len()); all.insert(i, r.clone()); } },
	}
	c.note(|| format!("proof of {} records: {}", recs.len(), show_all(&recs)));
	c.note(|| format!("bystanders: {}", show_all(&extra)));
	let b = verify(&all, &u.anchors())?;
	strictly_same(&a, &b, "adding records nobody vouches for")
}
fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	// Several name spaces that share their anchors' key pool, verified in a random interleaving.
	let mut cases: Vec<(Vec<Rec>, Vec<Deleg>)> = Vec::new();
	for _ in 0..s.usize(2, 3) {
		let u = Universe::generate(s, &Opts { zones: (1, 4), fams: [60, 30, 4, 1, 0], ..Default::default() });
		let Some(p) = proof(s, &u, 2) else { return Ok(()) };
		let mut recs = p.recs;
		if s.chance(1, 3) { tamper(s, &u, &mut recs); }
		s.shuffle(&mut recs);
		cases.push((recs.clone(), u.anchors()));
		// The same name space, in another state.
		if s.bool() { let mut r = recs; tamper(s, &u, &mut r); cases.push((r, u.anchors())); }
	}
	let mut first = Vec::new();
	for (r, a) in &cases { first.push(verify(r, a)?); }
	let ok = first.iter().filter(|r| r.out.is_ok()).count();
	c.label(format!("{} of {} verify", ok, cases.len()));
	c.nontrivial(cases.iter().fold(0, |h, x| mix(h ^ key_of(&x.0))));
	c.note(|| cases.iter().map(|x| show_all(&x.0)).collect::<Vec<_>>().join(" || "));
	for _ in 0..s.usize(2, 6) {
		let i = s.usize(0, cases.len() - 1);
		let (r, a) = &cases[i];
		let again = if s.chance(1, 4) {
			let (r, a) = (r.clone(), a.clone());
			std::thread::spawn(move || verify(&r, &a)).join().map_err(|_| "a thread panics".to_string())??
		} else { verify(r, a)? };
		strictly_same(&first[i], &again, "verifying again after other verifications")?;
	}
	Ok(())
}
pub fn c26() -> Prop {
	Prop {
		id: "C26",
		rule: "a case is non-trivial when records were added to a proof, or at least two record lists were verified in turn",
		tests: vec![Test { name: "bystander", quick: 14_000, thorough: 700_000, run: bystander }, Test { name: "history", quick: 4_000, thorough: 150_000, run: history }],
		known: vec![],
		assumptions: vec!["added records are of sets the proof does not hold, and added signatures are in the name of zones the proof cannot reach and not over key sets of zones it can"],
	}
}
