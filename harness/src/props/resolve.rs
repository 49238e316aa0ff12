//! C17: resolving names over verified records.

use super::validate::*;
use crate::engine::*;
use crate::model::{conv, gen, name::MName, rr::*, zone::*};
use dnssec_prover::{rr as srr, validation as v};
use std::collections::{BTreeSet, HashSet};

/// What following aliases leads to. Where several aliases apply at once (which no well-formed zone publishes), each is allowed.
pub enum Target { Name(MName, usize), Loop, TooLong, Endless }
pub fn targets(recs: &[Rec], start: &MName) -> Vec<Target> {
	let mut out = Vec::new();
	walk(recs, start.clone(), 0, &mut HashSet::new(), &mut out, &mut 0);
	out
}
fn substitute(n: &MName, owner: &MName, t: &MName) -> MName { MName(n.0[..n.0.len() - owner.0.len()].to_vec()).join(t) }
fn walk(recs: &[Rec], mut n: MName, mut hops: usize, seen: &mut HashSet<MName>, out: &mut Vec<Target>, paths: &mut usize) {
	loop {
		if !seen.insert(n.clone()) { out.push(Target::Loop); return; }
		if hops > 3000 { out.push(Target::Endless); return; }
		let mut next: Vec<MName> = recs.iter().filter(|r| r.name == n).filter_map(|r| if let D::Cname(t) = &r.d { Some(t.clone()) } else { None }).collect();
		if next.is_empty() {
			next = recs.iter().filter(|r| n.is_below(&r.name)).filter_map(|r| if let D::Dname(t) = &r.d { Some(substitute(&n, &r.name, t)) } else { None }).collect();
		}
		next.dedup();
		hops += 1;
		match next.len() {
			0 => { out.push(Target::Name(n, hops - 1)); return; },
			1 => {
				n = next.pop().unwrap();
				// The limit of names in text form; what exceeds it in wire form only (by one byte) is left open.
				if !n.fits() {
					out.push(Target::TooLong);
					if n.text().len() > 255 { return; }
				}
			},
			_ => {
				for x in next {
					*paths += 1;
					if *paths > 64 { out.push(Target::Endless); return; }
					if !x.fits() { out.push(Target::TooLong); continue; }
					walk(recs, x, hops, &mut seen.clone(), out, paths);
				}
				return;
			},
		}
	}
}

fn judge(recs: &[Rec], start: &MName, c: &mut Ctx) -> Result<(), String> {
	let rrs: Vec<srr::RR> = sut(|| recs.iter().map(conv::to_sut).collect())?;
	let name = conv::name_in(start);
	let st = v::VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 1, expires: 2, max_cache_ttl: 3 };
	let got: Vec<Rec> = sut(|| st.resolve_name(&name).into_iter().map(conv::from_sut).collect())?;
	check(recs, start, &got, c)
}
pub fn check(recs: &[Rec], start: &MName, got: &[Rec], c: &mut Ctx) -> Result<(), String> {
	let t = targets(recs, start);
	let mut want = Vec::new();
	for t in &t {
		match t {
			Target::Name(n, hops) => {
				let mut w: Vec<Rec> = recs.iter().filter(|r| r.name == *n).cloned().collect();
				w.sort();
				c.label(match hops { 0 => "no alias", 1 => "1 alias", 2..=9 => "2-9 aliases", 10..=99 => "10-99 aliases", _ => "100 or more aliases" });
				if w.is_empty() { c.label("nothing at the final name"); }
				// More substitutions than there are aliases and labels in a name: giving up is fine.
				if *hops > recs.len() + 255 { want.push(Vec::new()); c.label("very many substitutions"); }
				want.push(w);
			},
			Target::Loop => { c.label("alias loop"); want.push(Vec::new()); },
			Target::TooLong => { c.label("substitution too long"); want.push(Vec::new()); },
			// More than the reference follows: only termination is judged.
			Target::Endless => { c.label("too many substitutions to follow"); return Ok(()); },
		}
	}
	let mut g = got.to_vec();
	g.sort();
	if !want.contains(&g) {
		return Err(format!("resolving {} over [{}] gives [{}], expected [{}]", start.text(), show_all(recs), show_all(&g), want.iter().map(|w| show_all(w)).collect::<Vec<_>>().join("] or [")));
	}
	Ok(())
}

const L: [&str; 9] = ["a", "b", "aa", "ba", "ab", "com", "xcom", "x", "*"];
fn small_name(s: &mut Src, max: usize) -> MName {
	let n = s.usize(0, max);
	MName((0..n).map(|_| s.pick(&L[..]).as_bytes().to_vec()).collect())
}
fn small(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let mut pool: Vec<MName> = (0..s.usize(2, 6)).map(|_| small_name(s, 3)).collect();
	let mut recs: Vec<Rec> = Vec::new();
	let one_alias = !s.chance(1, 4);
	for _ in 0..s.usize(1, 8) {
		let n = if s.bool() { s.pick(&pool).clone() } else { small_name(s, 3) };
		let to = if s.bool() { s.pick(&pool).clone() } else { small_name(s, 4) };
		let d = match s.weighted(&[4, 4, 3, 1]) {
			0 => D::Cname(to.clone()),
			1 => D::Dname(to.clone()),
			2 => { let ty = *s.pick(&[TXT, A, AAAA, NS, TLSA]); leaf_data(s, ty) },
			_ => D::Txt(n.text().into_bytes()),
		};
		if one_alias {
			match &d {
				D::Cname(_) => if recs.iter().any(|r| r.name == n && r.ty() == CNAME) { continue; },
				D::Dname(_) => if recs.iter().any(|r| r.ty() == DNAME && (r.name.is_in(&n) || n.is_in(&r.name))) { continue; },
				_ => {},
			}
		}
		pool.push(n.clone());
		pool.push(to);
		recs.push(Rec::new(&n, d));
	}
	// Something at most names, so that a wrong final name shows.
	for n in pool.clone() { if s.chance(2, 3) { recs.push(Rec::new(&n, D::Txt(n.text().into_bytes()))); } }
	let mut recs = dedup(recs);
	s.shuffle(&mut recs);
	let start = match s.below(4) { 0 | 1 => s.pick(&pool).clone(), 2 => { let b = s.pick(&pool).clone(); b.child_s(*s.pick(&L[..])) }, _ => small_name(s, 4) };
	c.nontrivial(key_of(&recs) ^ hash_bytes(start.text().as_bytes()));
	c.note(|| format!("resolve {} over {}", start.text(), show_all(&recs)));
	judge(&recs, &start, c)
}

/// Long chains, long names, shrinking and growing substitutions, and rewriting systems with very many steps.
fn structured(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let mut recs = Vec::new();
	let start;
	match s.below(8) {
		0 => {
			let n = s.usize(1, 300);
			let name = |i: usize| MName::of(&format!("n{}.com.", i));
			for i in 0..n { recs.push(Rec::new(&name(i), D::Cname(name(i + 1)))); }
			if s.chance(1, 4) { recs.push(Rec::new(&name(n), D::Cname(name(s.usize(0, n))))); }
			recs.push(Rec::new(&name(n), D::A([1, 2, 3, 4])));
			if s.bool() { recs.push(Rec::new(&name(n / 2), D::Txt(b"halfway".to_vec()))); }
			start = name(if s.chance(1, 4) { s.usize(0, n) } else { 0 });
			c.label("long CNAME chain");
		},
		1 => {
			let n = s.usize(1, 200);
			let name = |i: usize| MName::of(&format!("d{}.com.", i));
			for i in 0..n { recs.push(Rec::new(&name(i), D::Dname(name(i + 1)))); }
			if s.chance(1, 4) { recs.push(Rec::new(&name(n), D::Dname(name(s.usize(0, n))))); }
			let end = name(n).child_s("w");
			recs.push(Rec::new(&end, D::A([1, 2, 3, 4])));
			for i in 0..=n { recs.push(Rec::new(&name(i), D::Txt(vec![b'o', i as u8]))); }
			start = if s.bool() { name(0).child_s("w") } else { name(0) };
			c.label("long DNAME chain");
		},
		2 => {
			// a.z. -> z.: each step removes a label.
			let z = small_name(s, 1);
			let owner = z.child_s("k");
			let n = s.usize(1, 120);
			recs.push(Rec::new(&owner, D::Dname(z.clone())));
			recs.push(Rec::new(&owner, D::Txt(b"at the owner".to_vec())));
			recs.push(Rec::new(&z, D::Txt(b"at the target".to_vec())));
			recs.push(Rec::new(&z.child_s("w"), D::Txt(b"below the target".to_vec())));
			let mut x = owner;
			let stop = if s.bool() { Some("w") } else { None };
			for _ in 0..n { let y = x.child_s("k"); if y.fits() { x = y; } }
			if let Some(w) = stop { let y = x.child_s(w); if y.fits() { x = y; } }
			start = x;
			c.label("shrinking substitution");
		},
		3 => {
			// a.z. -> a.b.z.: each step adds labels until the name is too long.
			let z = small_name(s, 2);
			let l = vec![b'q'; s.usize(1, 63)];
			recs.push(Rec::new(&z, D::Dname(z.child(&l))));
			recs.push(Rec::new(&z, D::Txt(b"x".to_vec())));
			start = z.child_s("w");
			c.label("growing substitution");
		},
		4 => {
			// Right at the length limit.
			let owner = MName::of("o.");
			let total = s.usize(251, 257);
			let pre = MName(vec![vec![b'p'; s.usize(1, 63)]]);
			let mut t = Vec::new();
			let mut left = total - pre.0[0].len() - 2;
			while left > 1 { let k = (left - 1).min(63); t.push(vec![b't'; k]); left -= k + 1; }
			let t = MName(t);
			if !t.fits() || !pre.fits() { return Ok(()); }
			recs.push(Rec::new(&owner, D::Dname(t.clone())));
			let end = pre.join(&t);
			if end.fits() { recs.push(Rec::new(&end, D::Txt(b"end".to_vec()))); }
			start = pre.join(&owner);
			c.label("name at the length limit");
		},
		5 => {
			// Each p_n becomes p_(n-1) twice: exponentially many steps without a loop.
			let n = s.usize(1, 30);
			let p = |i: usize| MName::of(&format!("p{}.", i));
			for i in 1..=n { recs.push(Rec::new(&p(i), D::Dname(MName::of(&format!("p{}.", i - 1)).join(&p(i - 1))))); }
			recs.push(Rec::new(&p(0), D::Dname(MName::root())));
			recs.push(Rec::new(&MName::of("w."), D::Txt(b"end".to_vec())));
			start = p(n).child_s("w");
			c.label("doubling substitutions");
		},
		6 => {
			// A DNAME at the root applies to every name but the root's own; only CNAMEs lead out of it.
			let t = if s.chance(1, 3) { MName::root() } else { small_name(s, 2) };
			let w = small_name(s, 2);
			recs.push(Rec::new(&MName::root(), D::Dname(t.clone())));
			recs.push(Rec::new(&MName::root(), D::Txt(b"at the root".to_vec())));
			let out = if s.chance(3, 4) { MName::root() } else { small_name(s, 2) };
			let mut x = w.clone();
			for _ in 0..s.below(3) { let y = x.join(&t); if y.fits() { x = y; } }
			recs.push(Rec::new(&x, D::Cname(out.clone())));
			recs.push(Rec::new(&x, D::Txt(b"on the way".to_vec())));
			if s.bool() { recs.push(Rec::new(&out, D::A([1, 2, 3, 4]))); }
			start = match s.below(4) { 0 => MName::root(), 1 => small_name(s, 2), _ => w };
			c.label("DNAME at the root");
		},
		_ => {
			// CNAMEs and DNAMEs that alternate, with a loop at times.
			let n = s.usize(1, 60);
			let z = |i: usize| MName::of(&format!("z{}.", i));
			for i in 0..n {
				recs.push(Rec::new(&z(i), D::Dname(MName::of("m.").join(&z(i)).join(&MName::of("y.")))));
				recs.push(Rec::new(&MName::of("w.m.").join(&z(i)).join(&MName::of("y.")), D::Cname(z(if i + 1 == n && s.bool() { 0 } else { i + 1 }).child_s("w"))));
			}
			recs.push(Rec::new(&z(n).child_s("w"), D::A([4, 4, 4, 4])));
			start = z(0).child_s("w");
			c.label("alternating aliases");
		},
	}
	let mut recs = dedup(recs);
	if s.bool() { s.shuffle(&mut recs); } else if s.bool() { recs.reverse(); }
	c.nontrivial(key_of(&recs) ^ hash_bytes(start.text().as_bytes()));
	c.note(|| format!("resolve {} over {}", start.text(), show_all(&recs)));
	judge(&recs, &start, c)
}

/// Over really verified proofs, whose resolution gives what the zone publishes.
fn verified(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { wildcards: 25, fams: [50, 10, 1, 1, 0], ..Default::default() });
	let Some(p) = proof(s, &u, 4) else { return Ok(()) };
	let mut recs = p.recs.clone();
	s.shuffle(&mut recs);
	set_anchors(&u.anchors());
	let inp: Vec<srr::RR> = sut(|| recs.iter().map(conv::to_sut).collect())?;
	let Ok(st) = sut(|| v::verify_rr_stream(&inp))? else { return Ok(()) };
	let ver: Vec<Rec> = st.verified_rrs.iter().map(|r| conv::from_sut(r)).collect();
	let mut starts: Vec<MName> = p.queries.iter().map(|q| q.0.clone()).collect();
	starts.push(some_owner(s, &u));
	starts.push(u.query_name(s));
	c.nontrivial(key_of(&recs));
	c.note(|| format!("resolve {:?} over the verified records {}", starts.iter().map(|n| n.text()).collect::<Vec<_>>(), show_all(&ver)));
	for st_name in &starts {
		let n = conv::name_in(st_name);
		let got: Vec<Rec> = sut(|| st.resolve_name(&n).into_iter().map(conv::from_sut).collect())?;
		check(&ver, st_name, &got, c)?;
	}
	for (q, t) in &p.queries {
		let a = u.resolve(q, *t);
		if !a.secure || a.finals.is_empty() { continue; }
		let n = conv::name_in(q);
		let got: BTreeSet<Rec> = sut(|| st.resolve_name(&n).into_iter().map(conv::from_sut).collect::<Vec<_>>())?.into_iter().filter(|r| r.ty() == *t).collect();
		let want: BTreeSet<Rec> = a.finals.iter().cloned().collect();
		if got != want { return Err(format!("{} {} resolves to [{}], but the zone publishes [{}]", q.text(), ty_name(*t), got.iter().map(show).collect::<Vec<_>>().join("; "), want.iter().map(show).collect::<Vec<_>>().join("; "))); }
		c.label("compared with what the zones publish");
	}
	Ok(())
}
/// Arbitrary names, close to each other.
fn arbitrary(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let base: Vec<MName> = (0..s.usize(1, 4)).map(|_| gen::name(s)).collect();
	let some = |s: &mut Src| -> MName {
		let b = s.pick(&base).clone();
		match s.below(5) {
			0 | 1 => b,
			2 => gen::clamp(b.child(&gen::label(s))),
			3 => b.parent().unwrap_or(MName::root()),
			// The same letters, divided differently.
			_ => { let mut v = b.0.clone(); if v.len() > 1 && v[0].len() + v[1].len() < 63 { let x = v.remove(0); let mut y = x; y.extend(&v[0]); v[0] = y; } MName(v) },
		}
	};
	let mut recs = Vec::new();
	for _ in 0..s.usize(1, 5) {
		let n = some(s);
		let t = some(s);
		let d = match s.below(3) { 0 => D::Cname(t), 1 => D::Dname(t), _ => D::Txt(b"x".to_vec()) };
		recs.push(Rec::new(&n, d));
	}
	for b in &base { recs.push(Rec::new(b, D::A([7, 7, 7, 7]))); }
	let recs = dedup(recs);
	let start = some(s);
	c.nontrivial(key_of(&recs) ^ hash_bytes(start.text().as_bytes()));
	c.note(|| format!("resolve {} over {}", start.text(), show_all(&recs)));
	judge(&recs, &start, c)
}

pub fn c17() -> Prop {
	Prop {
		id: "C17",
		rule: "a case is non-trivial when a name was resolved over at least one record",
		tests: vec![
			Test { name: "small", quick: 400_000, thorough: 20_000_000, run: small },
			Test { name: "structured", quick: 20_000, thorough: 1_000_000, run: structured },
			Test { name: "arbitrary", quick: 100_000, thorough: 5_000_000, run: arbitrary },
			Test { name: "verified", quick: 5_000, thorough: 300_000, run: verified },
		],
		known: vec![],
		assumptions: vec!["where several aliases apply to one name at once, following any of them is accepted", "beyond as many substitutions as there are records plus 255, an empty result is accepted too"],
	}
}
