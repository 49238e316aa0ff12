//! C01: whatever the input, every public call returns.

use super::builder::buf;
use super::records::mutate;
use super::validate::*;
use crate::engine::*;
use crate::model::{conv, crypto::*, gen, message::*, name::MName, resolver, rr::*, zone::*};
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::rr::{Name, Record, RR};
use dnssec_prover::{ser as sser, validation as v};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------------------------------------------------------
// Every public call on some bytes or records

fn head(b: &[u8]) -> String { hex(&b[..b.len().min(600)]) }

/// Calls that take a name.
fn use_name(n: &Name, deep: bool) -> Result<(), String> {
	sut(|| {
		let l = n.labels();
		for k in 0..=255u8 { let t = n.trailing_n_labels(k); if deep && k <= l { if let Some(t) = t { let _ = Name::try_from(t); } } }
		let mut h = DefaultHasher::new();
		n.hash(&mut h);
		let _ = (n.as_str().len(), format!("{} {:?}", n, n), n.clone() == *n, n.cmp(n));
		if deep { for ty in [16, 1, 65535] { let (b, q) = ProofBuilder::new(n, ty); let _ = (b.awaiting_responses(), q.into_vec(), b.finish_proof()); } }
	})
}
/// Calls that take records.
fn use_records(recs: &[RR], s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let few: Vec<&RR> = recs.iter().take(24).collect();
	for r in &few {
		use_name(r.name(), false)?;
		sut(|| {
			let j = r.json();
			let mut o = Vec::new();
			sser::write_rr(*r, 77, &mut o);
			let _ = (j.len(), o.len(), r.ty());
			if !matches!(r, RR::NSec(_) | RR::NSec3(_)) { let _ = format!("{:?}", r); }
			match r {
				RR::A(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::AAAA(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::NS(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::Txt(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::CName(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::DName(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::TLSA(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::DnsKey(x) => { sser::write_rr(x, 1, &mut o); let _ = (x.json(), x.key_tag()); },
				RR::DS(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::RRSig(x) => { sser::write_rr(x, 1, &mut o); let _ = x.json(); },
				RR::NSec(x) => { sser::write_rr(x, 1, &mut o); let _ = (x.json(), x.types.contains_type(s.u16())); },
				RR::NSec3(x) => { sser::write_rr(x, 1, &mut o); let _ = (x.json(), x.types.contains_type(s.u16())); },
			}
		})?;
	}
	for a in &few { for b in &few { sut(|| { let _ = (a.cmp(b), a.partial_cmp(b), a == b); })?; } }
	let mut all: Vec<&RR> = recs.iter().collect();
	sut(|| all.sort())?;
	let res = sut(|| v::verify_rr_stream(recs))?;
	if let Ok(out) = &res {
		c.label("verifies");
		if !out.verified_rrs.is_empty() { c.label("verifies with records"); }
	}
	// Aliases are followed over what verified, and over records that a caller has verified otherwise.
	let any = v::VerifiedRRStream { verified_rrs: recs.iter().collect(), valid_from: 0, expires: u64::MAX, max_cache_ttl: 0 };
	let mut names: Vec<Name> = few.iter().take(6).map(|r| r.name().clone()).collect();
	for r in &few { match r { RR::CName(x) => names.push(x.canonical_name.clone()), RR::DName(x) => names.push(x.delegation_name.clone()), _ => {} } }
	for t in [".", "a.b.example."] { names.push(t.try_into().unwrap()); }
	if let Some(n) = names.first().cloned() { if let Ok(x) = Name::try_from(format!("x.y.{}", n.as_str().trim_start_matches('.'))) { names.push(x); } }
	for n in names.iter().take(12) {
		sut(|| { let _ = any.resolve_name(n).len(); if let Ok(o) = &res { let _ = o.resolve_name(n).len(); } })?;
	}
	Ok(())
}
/// The memory allocated for reading `len` bytes is bounded: a record takes at least 11 bytes and at most 8.3 kB, twice that
/// while the list of records grows.
fn memory(what: &str, a0: u64, len: usize) -> Result<(), String> {
	let used = allocated() - a0;
	let bound = (8 << 20) + 16_384 * len as u64;
	if used > bound { return Err(format!("{} of {} bytes allocates {} bytes", what, len, used)); }
	Ok(())
}
fn use_proof(b: &[u8], s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let a0 = allocated();
	let r = sut(|| sser::parse_rr_stream(b)).map_err(|e| format!("parsing a proof: {}; input {}", e, head(b)))?;
	memory("parsing a proof", a0, b.len())?;
	if let Ok(recs) = r {
		c.label("parses");
		use_records(&recs, s, c).map_err(|e| format!("{}; proof {}", e, head(b)))?;
	}
	Ok(())
}
fn use_response(b: &[u8], s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	if b.len() > 65535 { return Ok(()); }
	let n: Name = "a.example.".try_into().unwrap();
	let a0 = allocated();
	let (mut pb, _) = sut(|| ProofBuilder::new(&n, 16))?;
	let r = sut(|| pb.process_response(&buf(b))).map_err(|e| format!("reading a response: {}; input {}", e, head(b)))?;
	memory("reading a response", a0, b.len())?;
	if r.is_ok() { c.label("response accepted"); }
	let p = sut(move || { let mut pb = pb; for _ in 0..12 { let _ = pb.process_response(&buf(b)); let _ = pb.awaiting_responses(); } pb.finish_proof() }).map_err(|e| format!("reading responses: {}; input {}", e, head(b)))?;
	if let Ok((p, _)) = p { c.label("proof built"); use_proof(&p, s, c)?; }
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// Inputs

fn noise(s: &mut Src) -> Vec<u8> {
	let n = *s.pick(&[12usize, 0, 1, 2, 11, 13, 30, 60, 120, 300]);
	let n = n + s.usize(0, 6);
	match s.below(4) {
		0 => s.bytes(n),
		1 => { let al = [0u8, 1, 0xc0, 0xff, 12, 63, 64, b'a', b'.', 46, 16, 50]; (0..n).map(|_| *s.pick(&al)).collect() },
		2 => vec![s.u8(); n],
		_ => {
			// The start of a message, then noise.
			let mut v = vec![0, 0, 0x80 | s.below(2) as u8, 0x20, 0, 1, 0, *s.pick(&[1u8, 2, 255]), 0, *s.pick(&[0u8, 1, 9]), 0, 0];
			v.extend(s.bytes(n));
			v
		},
	}
}
fn any_bytes(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let b = match s.below(4) {
		0 => noise(s),
		1 => { let mut b = Vec::new(); for _ in 0..*s.pick(&[1usize, 2, 4]) { b.extend(super::records::odd_record(s)); } b },
		2 => { let mut b = Vec::new(); for _ in 0..*s.pick(&[1usize, 2, 4]) { let r = gen::rec(s); b.extend(r.wire(gen::ttl(s))); } b.truncate(70_000); mutate(s, &mut b); b },
		_ => {
			// Odd records in a well-formed frame.
			let mut b = vec![0, 0, 0x80, 0x20, 0, 1, 0, 0, 0, 0, 0, 0];
			b.extend(if s.chance(1, 3) { super::records::odd_name(s) } else { gen::name(s).wire() });
			b.extend([0, 16, 0, 1]);
			for sec in [6usize, 8, 10] {
				let n = if sec == 6 { s.usize(1, 3) } else { s.usize(0, 2) };
				b[sec + 1] = n as u8;
				for _ in 0..n { if s.bool() { b.extend(super::records::odd_record(s)); } else { let r = gen::rec(s); b.extend(r.wire(gen::ttl(s))); } }
			}
			b.truncate(65_535);
			b
		},
	};
	c.note(|| head(&b));
	c.nontrivial(hash_bytes(&b));
	use_proof(&b, s, c)?;
	use_response(&b, s, c)
}
fn odd_text(s: &mut Src) -> String {
	let mut t = if s.bool() { super::records::text(s) } else {
		let n = *s.pick(&[0usize, 1, 3, 10, 63, 64, 128, 253, 254, 255, 256, 257, 300, 70_000]);
		let al = ['.', 'a', 'B', '*', '\\', '"', 'é', '\u{0}', '\u{10ffff}', '0', '-'];
		let k = s.usize(1, al.len());
		let mut st = s.below(1 << 40);
		(0..n).map(|_| { st = mix(st); al[(st % k as u64) as usize] }).collect()
	};
	if s.chance(1, 3) { t.push('.'); }
	t
}
fn names(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let t = odd_text(s);
	c.note(|| format!("{:?}", t.chars().take(300).collect::<String>()));
	c.nontrivial(hash_bytes(t.as_bytes()));
	let n = sut(|| { let a = Name::try_from(t.as_str()); let b = Name::try_from(t.clone()); let _ = a == b; a }).map_err(|e| format!("{}; name {:?}", e, t))?;
	if let Ok(n) = n { c.label("accepted"); use_name(&n, true).map_err(|e| format!("{}; name {:?}", e, t))?; }
	Ok(())
}
/// Large inputs, and those made to be expensive.
fn bombs(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let size = *s.pick(&[65_535usize, 20_000, 65_000, 4_000]);
	let mut m = vec![0, 0, 0x80, 0x20, 0, 1, 0xff, 0xff, 0, 0, 0, 0];
	let kind = s.below(6);
	match kind {
		0 => {
			// A chain of pointers inside of text, and names that use it.
			m.extend([0, 0, 16, 0, 1]);
			m.extend([0, 0, 16, 0, 1, 0, 0, 0, 0]);
			let hops = *s.pick(&[100usize, 126, 127, 128, 254, 255, 256, 257, 1000, 8000, 8000, 20_000]);
			let with_label = s.chance(1, 4);
			let back = s.chance(3, 4);
			let each = if with_label { 4 } else { 2 };
			// The text is one of whole 255 byte strings, so that it parses; where each pointer is placed.
			let start = m.len() + 2;
			let mut at = Vec::new();
			let mut i = 1;
			let mut len = 0;
			while at.len() <= hops && start + i + each <= 0x4000 + each && i < 60_000 {
				if i % 256 == 0 { i += 1; continue; }
				if i % 256 + each > 256 { i += 1; continue; }
				at.push(start + i);
				i += each;
				len = (i + 255) / 256 * 256;
			}
			m.extend((len as u16).to_be_bytes());
			let end = m.len() + len;
			while m.len() < end { m.push(255); m.extend([0; 255]); }
			let hops = at.len() - 1;
			for i in 1..=hops {
				let (here, to) = if back { (at[i], at[i - 1]) } else { (at[i - 1], at[i]) };
				let mut x = if with_label { vec![1, b'a'] } else { vec![] };
				x.extend((0xc000u16 | (to as u16 & 0x3fff)).to_be_bytes());
				m[here..here + each].copy_from_slice(&x);
			}
			let last = if back { at[hops] } else { at[0] };
			for _ in 0..s.usize(1, 40) { m.extend((0xc000u16 | (last as u16 & 0x3fff)).to_be_bytes()); m.extend([0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]); }
			c.label(format!("pointer chain{}", if back { "" } else { ", forward" }));
		},
		1 => {
			// The longest name, referred to by every record.
			let mut n = Vec::new();
			while n.len() + 64 <= 192 { n.push(63); n.extend(vec![b'w'; 63]); }
			n.push(60); n.extend(vec![b'w'; 60]); n.push(0);
			m.extend(n);
			m.extend([0, 16, 0, 1]);
			let ty = *s.pick(&[NS, CNAME, A, RRSIG]);
			while m.len() + 60 < size {
				m.extend([0xc0, 12]);
				m.extend(ty.to_be_bytes());
				m.extend([0, 1, 0, 0, 0, 0]);
				match ty { A => m.extend([0, 4, 1, 2, 3, 4]), RRSIG => { m.extend([0, 20]); m.extend([0, 16, 13, 2]); m.extend([0; 14]); m.extend([0xc0, 12]) }, _ => m.extend([0, 2, 0xc0, 12]) }
			}
			c.label("names by pointer");
		},
		2 => {
			// Very many of the smallest records.
			m.extend([0, 0, 16, 0, 1]);
			let ty = *s.pick(&[NSEC, A, NSEC3, NS]);
			while m.len() + 40 < size {
				m.push(0); m.extend(ty.to_be_bytes()); m.extend([0, 1, 0, 0, 0, 0]);
				match ty { A => m.extend([0, 4, 1, 2, 3, 4]), NS => m.extend([0, 1, 0]), NSEC => m.extend([0, 4, 0, 0, 1, 1]), _ => m.extend([0, 6, 1, 0, 0, 0, 0, 0]) }
			}
			c.label("many small records");
		},
		3 => {
			// Type bitmaps of every size.
			m.extend([0, 0, 16, 0, 1]);
			let ws = s.usize(1, 300);
			let l = *s.pick(&[32usize, 1, 31, 33, 255]);
			let mut rd = vec![0];
			let last = *s.pick(&[255u8, 0, 1, 254]);
			for i in 0..ws { if rd.len() + l + 2 > 65_000 { break; } rd.push(if i + 1 == ws { last } else { i as u8 }); rd.push(l as u8); rd.extend(vec![0xff; l]); }
			m.extend([0, 0, 47, 0, 1, 0, 0, 0, 0]);
			m.extend((rd.len() as u16).to_be_bytes());
			m.extend(rd);
			c.label("large type bitmaps");
		},
		4 => {
			// Very many signer names.
			m.extend([0, 0, 16, 0, 1]);
			let mut i = 0u32;
			while m.len() + 60 < size {
				i += 1;
				m.extend([0, 0, 46, 0, 1, 0, 0, 0, 0, 0, 25]);
				m.extend([0, 16, 13, 0]);
				m.extend([0; 14]);
				m.push(5); m.extend(format!("{:05}", i % 100_000).bytes()); m.push(0);
			}
			c.label("many signers");
		},
		_ => {
			// One long text.
			m.extend([0, 0, 16, 0, 1, 0, 0, 16, 0, 1, 0, 0, 0, 0]);
			let n = (size - m.len() - 2).min(65_535);
			m.extend((n as u16).to_be_bytes());
			let l = *s.pick(&[0u8, 1, 254, 255]);
			while m.len() < size { m.push(l); m.extend(vec![b'"'; (l as usize).min(size - m.len())]); }
			c.label("long text");
		},
	}
	m.truncate(65_535);
	// The number of answers there really are, or not.
	let body = m[12..].to_vec();
	let q = if kind == 1 { 12 + 255 } else { 17 }.min(m.len());
	if s.chance(3, 4) {
		let mut n = 0u32;
		let mut p = q;
		while p + 11 <= m.len() {
			let o = if m[p] & 0xc0 == 0xc0 { 2 } else { 1 };
			if p + o + 10 > m.len() { break; }
			let l = (m[p + o + 8] as usize) << 8 | m[p + o + 9] as usize;
			p += o + 10 + l;
			if p > m.len() { break; }
			n += 1;
		}
		let n = n.min(65535) as u16;
		m[6..8].copy_from_slice(&n.to_be_bytes());
	}
	c.note(|| format!("{} bytes: {}", m.len(), head(&m)));
	c.nontrivial(hash_bytes(&m));
	small_stack(|| {
		use_response(&m, s, c)?;
		use_proof(&body[q.min(body.len() + 12) - 12..], s, c)
	})
}
/// Runs `f` with a stack that is far larger than what ordinary input needs, and far smaller than what one frame for
/// each few bytes of the largest input takes.
fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
	let size = std::env::var("VERIF_STACK_KB").ok().and_then(|x| x.parse().ok()).unwrap_or(512) << 10;
	std::thread::scope(|sc| std::thread::Builder::new().stack_size(size).spawn_scoped(sc, f).expect("thread").join().expect("harness panic"))
}
/// Arbitrary histories of responses.
fn builders(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let n = conv::name_in(&gen::name(s));
	let ty = s.u16();
	let (mut pb, _) = sut(|| ProofBuilder::new(&n, ty))?;
	let names: Vec<MName> = (0..4).map(|_| gen::name(s)).collect();
	let mut accepted = 0;
	for _ in 0..s.usize(1, 24) {
		let b = match s.below(5) {
			0 => noise(s),
			1 => { let k = s.usize(0, 4); let g: Vec<MName> = (0..k).map(|_| s.pick(&names).clone()).collect(); let m = super::builder::good_msg(s, &names, &g, &[]); let st = style(s); let mut b = encode(s, &m, st); mutate(s, &mut b); b },
			2 => vec![],
			_ => { let k = s.usize(0, 4); let g: Vec<MName> = (0..k).map(|_| gen::name(s)).collect(); let m = super::builder::good_msg(s, &names, &g, &[]); let st = style(s); encode(s, &m, st) },
		};
		if b.len() > 65535 { continue; }
		c.nontrivial(hash_bytes(&b));
		c.note(|| head(&b));
		if sut(|| { let _ = pb.awaiting_responses(); pb.process_response(&buf(&b)) }).map_err(|e| format!("{}; response {}", e, head(&b)))?.is_ok() { accepted += 1; }
	}
	c.label(format!("{} responses accepted", accepted));
	let p = sut(move || pb.finish_proof())?;
	if let Ok((p, _)) = p { c.label("proof built"); use_proof(&p, s, c)?; }
	Ok(())
}
/// Honest messages and proofs with a few bytes changed.
fn near_honest(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { zones: (1, 4), fams: [60, 20, 4, 8, 4], ..Default::default() });
	let (n, ty) = u.query(s);
	set_anchors(&u.anchors());
	if s.bool() {
		let st = style(s);
		let mut b = resolver::answer(s, &u, &n, ty, st, true).bytes;
		mutate(s, &mut b);
		c.note(|| head(&b));
		c.nontrivial(hash_bytes(&b));
		use_response(&b, s, c)
	} else {
		let Some(p) = proof(s, &u, 3) else { return Ok(()) };
		let mut recs = p.recs.clone();
		if s.bool() { for _ in 0..s.usize(1, 3) { tamper(s, &u, &mut recs); } }
		let mut b = stream(&recs, 300);
		if s.chance(2, 3) { mutate(s, &mut b); }
		c.note(|| head(&b));
		c.nontrivial(hash_bytes(&b));
		use_proof(&b, s, c)
	}
}
/// Proofs by a zone operator who signs whatever may confuse a verifier.
fn hostile_zones(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let root = MName::root();
	// Calm cases are made to reach the search for denials.
	let calm = s.chance(2, 3);
	let k = zkey(s, Fam::Ed25519, 257);
	let anchors = vec![k.ds(&root, 2)];
	set_anchors(&anchors);
	let mut recs: Vec<Rec> = Vec::new();
	let mut odd_keys: Vec<Key> = Vec::new();
	for _ in 0..s.usize(0, 4) { odd_keys.push(odd_key(s)); }
	let put = |s: &mut Src, recs: &mut Vec<Rec>, z: &MName, k: &ZKey, odd: &[Key], shown: &MName, labels: u8, data: Vec<D>| {
		let mut g = Sig { ty: data[0].ty(), alg: k.k.alg, labels, ttl: s.u32(), exp: if !calm && s.chance(1, 6) { s.u32() } else { NOW + 1000 }, inc: if !calm && s.chance(1, 6) { s.u32() } else { NOW - 1000 }, tag: k.tag(), signer: z.clone(), sig: vec![] };
		let m = signed_data(&g, shown, &data);
		g.sig = k.k.sign(&m);
		if !calm && s.chance(1, 10) {
			// By a key that cannot be used.
			if let Some(o) = odd.first() {
				let o = if s.bool() { o } else { odd.last().unwrap() };
				g.tag = key_tag(&D::Key(o.clone()).rdata());
				g.alg = o.alg;
				let l = *s.pick(&[0usize, 1, 63, 64, 65, 96, 128, 255, 256, 257, 512, 600]);
				g.sig = s.bytes(l);
			}
		}
		for d in data { recs.push(Rec::new(shown, d)); }
		recs.push(Rec::new(shown, D::Sig(g)));
	};
	let mut rk = vec![D::Key(k.data())];
	rk.extend(odd_keys.iter().cloned().map(D::Key));
	rk.sort_by_key(|d| d.rdata());
	rk.dedup();
	let g = sign_set(&root, &k, &root, &rk, Times { inc: NOW - 10, exp: NOW + 10, ttl: 5 });
	for d in rk { recs.push(Rec::new(&root, d)); }
	recs.push(Rec::new(&root, D::Sig(g)));
	let mut zones = vec![(root.clone(), k.clone())];
	// Zones below, with keys of all sorts.
	for _ in 0..s.usize(0, 2) {
		let (z, zk) = s.pick(&zones).clone();
		let n = gen::clamp(match s.below(4) { 0 => z.child(b"*"), 1 => z.child_s(host(s)), 2 => gen::name(s).join(&z), _ => z.clone() });
		let fl = *s.pick(&[257u16, 256, 0, 1]);
		let ck = zkey(s, Fam::Ed25519, if calm { 257 } else { fl });
		let dt = *s.pick(&[2u8, 4, 1]);
		let mut ds = vec![D::Ds(ck.ds(&n, dt))];
		for o in &odd_keys { if s.bool() { let r = D::Key(o.clone()).rdata(); let dt = *s.pick(&[2u8, 4, 1, 0, 3, 255]); ds.push(D::Ds(Deleg { tag: key_tag(&r), alg: o.alg, dt, digest: ds_digest(&n, &r, dt) })); } }
		if s.chance(1, 3) { let d = gen::data(s, DS); if d.rdata().len() < 2000 { ds.push(d); } }
		ds.sort_by_key(|d| d.rdata());
		ds.dedup();
		let l = sig_labels(&n);
		put(s, &mut recs, &z, &zk, &odd_keys, &n, l, ds);
		let mut ks = vec![D::Key(ck.data())];
		for o in &odd_keys { if s.bool() { ks.push(D::Key(o.clone())); } }
		ks.sort_by_key(|d| d.rdata());
		ks.dedup();
		put(s, &mut recs, &n, &ck, &odd_keys, &n, l, ks);
		zones.push((n, ck));
	}
	for _ in 0..s.usize(1, 6) {
		let (z, zk) = s.pick(&zones).clone();
		let n = gen::clamp(match s.below(7) {
			0 if !calm => gen::name(s),
			1 => z.clone(),
			2 => z.child(b"*").child_s(host(s)),
			3 => { let l = s.usize(0, 45); let b = s.bytes(l); let mut t = b32(&b); t.truncate(63); if t.is_empty() { t.push(b'0'); } if s.chance(1, 4) { let i = s.usize(0, t.len() - 1); t[i] = gen::label_byte(s); } z.child(&t) },
			4 => gen::name(s).join(&z),
			_ => { let mut n = z.clone(); for _ in 0..s.usize(1, 4) { n = n.child_s(host(s)); } n },
		});
		let ty = *s.pick(&[NSEC3, NSEC, TXT, CNAME, DNAME, A, NSEC3, DNSKEY, DS, RRSIG]);
		let mut data = Vec::new();
		for _ in 0..*s.pick(&[1usize, 1, 2]) {
			let mut d = gen::data(s, ty);
			if d.rdata().len() > 3000 { d = D::Txt(vec![b'x'; 300]); }
			if let D::Nsec3(x) = &mut d { if s.bool() { x.alg = 1; x.flags = 0; x.iters = *s.pick(&[0u16, 1, 2500, 2501, 65535, 100]); let l = *s.pick(&[20usize, 20, 0, 19, 21, 255]); x.next = s.bytes(l); if s.bool() { x.salt = vec![]; } } }
			if let D::Nsec(x, _) = &mut d { if s.bool() { *x = s.pick(&zones).0.child_s(host(s)); if !x.fits() { *x = MName::root(); } } }
			data.push(d);
		}
		let t0 = data[0].ty();
		data.retain(|d| d.ty() == t0);
		data.sort_by_key(|d| d.rdata());
		data.dedup();
		let real = sig_labels(&n);
		let labels = if calm { if real > z.0.len() as u8 && s.bool() && !matches!(ty, NSEC | NSEC3) { s.range(z.0.len() as u64, real as u64 - 1) as u8 } else { real } } else { match s.below(4) { 0 => real, 1 => real.saturating_sub(1), 2 => s.below(real as u64 + 2) as u8, _ => *s.pick(&[0u8, 1, 255, 128, 127, 254]) } };
		c.label(format!("labels field {}", if labels == real { "right" } else if labels < real { "smaller" } else { "larger" }));
		put(s, &mut recs, &z, &zk, &odd_keys, &n, labels, data);
	}
	if s.bool() { s.shuffle(&mut recs); }
	if s.chance(1, 4) { let i = s.usize(0, recs.len() - 1); recs.remove(i); }
	c.note(|| show_all(&recs));
	c.nontrivial(key_of(&recs));
	let b = stream(&recs, 9);
	use_proof(&b, s, c).map_err(|e| format!("{}\n{}", e, show_all(&recs)))
}
fn odd_key(s: &mut Src) -> Key {
	let alg = *s.pick(&[8u8, 10, 8, 13, 14, 15, 5, 7, 0, 16, 253, 255]);
	let key = match s.below(5) {
		0 => { let n = s.usize(0, 6); let v = *s.pick(&[0u8, 1, 3, 255]); vec![v; n] },
		1 => {
			// RSA with a strange exponent length.
			let mut v = match s.below(4) { 0 => vec![0, s.u8(), s.u8()], 1 => vec![s.u8()], 2 => vec![0, 0, *s.pick(&[0u8, 1, 3])], _ => vec![*s.pick(&[1u8, 3, 4, 255])] };
			let n = *s.pick(&[0usize, 1, 2, 3, 4, 64, 128, 255, 256, 257, 259, 512, 1024, 1030]);
			v.extend(s.bytes(n));
			v
		},
		2 => { let n = *s.pick(&[31usize, 32, 33, 63, 64, 65, 95, 96, 97]); s.bytes(n) },
		3 => { let f = *s.pick(&[Fam::Rsa256, Fam::P256, Fam::P384, Fam::Ed25519]); let mut k = zkey(s, f, 257).data().key; mutate(s, &mut k); k },
		_ => { let n = *s.pick(&[0usize, 1, 2, 3, 4, 5, 300, 3000]); s.bytes(n) },
	};
	Key { flags: *s.pick(&[257u16, 256, 0, 0xffff]), proto: *s.pick(&[3u8, 3, 0]), alg, key }
}
pub fn c01() -> Prop {
	Prop {
		id: "C01",
		rule: "an input that was run through every public call that can take it (and what these return, through the calls that take that); distinct by its bytes",
		tests: vec![
			Test { name: "any_bytes", quick: 250_000, thorough: 10_000_000, run: any_bytes },
			Test { name: "names", quick: 100_000, thorough: 4_000_000, run: names },
			Test { name: "bombs", quick: 1_200, thorough: 20_000, run: bombs },
			Test { name: "builders", quick: 10_000, thorough: 600_000, run: builders },
			Test { name: "near_honest", quick: 8_000, thorough: 1_000_000, run: near_honest },
			Test { name: "hostile_zones", quick: 50_000, thorough: 4_000_000, run: hostile_zones },
		],
		known: vec![],
		assumptions: vec![
			"a call that uses more than 10 s of CPU time counts as hanging",
			"inputs are at most 70 kB; larger proofs are not generated",
			"network code is exercised under C21, C23 and C24",
		],
	}
}
