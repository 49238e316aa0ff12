//! C24: the wrappers for WASM, called natively, against the library.

use super::{builder::*, records::*, validate::*};
use crate::engine::*;
use crate::model::{conv, gen, json, message::*, name::MName, resolver, rr::*, zone::*};
use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::rr::Name;
use dnssec_prover::{ser as sser, validation as v};
use dnssec_prover_wasm as w;

fn typ(s: &mut Src) -> u16 { if s.chance(1, 6) { s.u16() } else { *s.pick(&[TXT, A, AAAA, TLSA, DS, DNSKEY]) } }
/// The name as given to the wrapper: with or without the final dot.
fn spelled(s: &mut Src, t: String) -> String { if s.chance(1, 2) { t.strip_suffix('.').map(|x| x.to_string()).unwrap_or(t) } else { t } }
struct Pair { w: w::WASMProofBuilder, lib: ProofBuilder, pending: std::collections::VecDeque<Vec<u8>>, key: u64 }
fn start(given: &str, ty: u16) -> Result<Option<Pair>, String> {
	let full = if given.ends_with('.') { given.to_string() } else { format!("{}.", given) };
	let g = given.to_string();
	let w = sut(move || w::init_proof_builder(g, ty))?;
	let n = Name::try_from(full.as_str());
	match (w, n) {
		(None, Err(())) => Ok(None),
		(Some(_), Err(())) => Err(format!("a builder is made for the invalid name {:?}", given)),
		(None, Ok(_)) => Err(format!("no builder is made for the name {:?}", given)),
		(Some(w), Ok(n)) => {
			let (lib, q) = ProofBuilder::new(&n, ty);
			Ok(Some(Pair { w, lib, pending: [q.to_vec()].into(), key: hash_bytes(full.as_bytes()) }))
		},
	}
}
impl Pair {
	/// Fetches a query; which of several pending ones comes first is left open.
	fn next(&mut self) -> Result<Option<Vec<u8>>, String> {
		let q = sut(|| w::get_next_query(&mut self.w))?;
		match q {
			None if self.pending.is_empty() => Ok(None),
			None => Err(format!("no query is returned while {} are pending", self.pending.len())),
			Some(q) => match self.pending.iter().position(|p| *p == q) {
				Some(i) => { self.pending.remove(i); Ok(Some(q)) },
				None => Err(format!("the query {} is returned, pending are [{}]", hex(&q), self.pending.iter().map(|p| hex(p)).collect::<Vec<_>>().join(", "))),
			},
		}
	}
	fn respond(&mut self, b: &[u8]) -> Result<bool, String> {
		self.key = mix(self.key ^ hash_bytes(b));
		let x = b.to_vec();
		sut(|| w::process_query_response(&mut self.w, x))?;
		if b.len() > 65535 { return Ok(false); }
		Ok(match self.lib.process_response(&buf(b)) {
			Ok(qs) => { self.pending.extend(qs.iter().map(|q: &QueryBuf| q.to_vec())); true },
			Err(()) => false,
		})
	}
	fn finish(mut self, drain: bool) -> Result<Option<Vec<u8>>, String> {
		if drain { while self.next()?.is_some() {} }
		let want = self.lib.finish_proof().ok().map(|x| x.0);
		let w = self.w;
		let got = sut(move || w::get_unverified_proof(w))?;
		if got == want { return Ok(got); }
		let f = |x: &Option<Vec<u8>>| match x { Some(b) => format!("a proof of {} bytes {}", b.len(), hex(&b[..b.len().min(600)])), None => "none".into() };
		Err(format!("the wrapper's proof is {}, the library's {}", f(&got), f(&want)))
	}
}
fn histories(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let given = match s.below(4) { 0 => text(s), 1 => { let t = text(s); spelled(s, t) }, _ => { let t = gen::name(s).text(); spelled(s, t) } };
	let ty = typ(s);
	c.note(|| format!("{:?} type {}", given, ty));
	let Some(mut p) = start(&given, ty)? else { c.label("name rejected"); c.nontrivial(hash_bytes(given.as_bytes())); return Ok(()) };
	if !given.ends_with('.') { c.label("final dot added"); }
	let mut names = vec![MName::root()];
	for _ in 0..s.usize(1, 4) { names.push(gen::name(s)); }
	let (mut ok, mut bad) = (0, 0);
	for _ in 0..s.usize(0, 24) {
		if s.chance(2, 5) { p.next()?; continue; }
		let k = *s.pick(&[0usize, 1, 1, 0, 2]);
		let signers: Vec<MName> = (0..k).map(|_| s.pick(&names).clone()).collect();
		let m = good_msg(s, &names, &signers, &[]);
		let st = style(s);
		let mut b = encode(s, &m, st);
		match s.below(10) {
			0 | 1 => { if b.len() > 14 { b = spoil(s, b).0; } },
			2 => { let n = s.usize(0, 20); b.truncate(n); },
			_ => {},
		}
		c.note(|| format!("response {}", hex(&b[..b.len().min(300)])));
		if p.respond(&b)? { ok += 1 } else { bad += 1 }
	}
	let drain = s.chance(2, 3);
	// Answer what is still open, so that many histories end with a proof.
	if s.chance(2, 3) {
		let m = Msg { id: 0, flags: QR | AD, questions: vec![(MName::of("f."), A, 1)], answer: vec![(Rec::new(&MName::of("f."), D::A([0; 4])), 9)], ..Default::default() };
		let b = encode(s, &m, Style::default());
		for _ in 0..12 { if !p.lib.awaiting_responses() { break; } if s.bool() { p.next()?; } if p.respond(&b)? { ok += 1 } else { break } }
	}
	c.nontrivial(p.key);
	if bad > 0 { c.label("some responses rejected"); }
	c.label(format!("{} responses accepted", match ok { 0 => "0", 1 => "1", 2..=5 => "2-5", _ => "6 or more" }));
	c.label(if p.finish(drain)?.is_some() { "proof" } else { "no proof" });
	Ok(())
}
/// Responses around the largest size a DNS message can have.
fn sizes(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let n = MName::of("big.example.");
	let want = *s.pick(&[65535usize, 65534, 65536, 65533, 65537, 70000, 131071, 40000, 1 << 17]);
	let mut p = start("big.example", TXT)?.ok_or("no builder")?;
	// A response is padded to the size with TXT records of that many bytes.
	let mut b = encode(s, &Msg { id: 0, flags: QR | AD, questions: vec![(n.clone(), TXT, 1)], ..Default::default() }, Style::default());
	let mut count = 0u16;
	while b.len() < want {
		let left = want - b.len();
		let over = n.wire().len() + 10;
		let Some(room) = left.checked_sub(over + 2) else { break };
		let text = if room > 3000 { 2900 } else if room > 2500 { 2000 } else { room };
		let mut data = text;
		// Find the amount of text whose chunks take that room.
		if text == room { while data > 0 && D::Txt(vec![b'x'; data]).rdata().len() > room + 2 { data -= 1; } }
		let r = Rec::new(&n, D::Txt(vec![b'a' + s.below(26) as u8; data]));
		let mut x = r.wire(300);
		if text == room && x.len() != left { return Ok(()); }
		b.append(&mut x);
		count += 1;
	}
	if b.len() != want { return Ok(()); }
	b[6..8].copy_from_slice(&count.to_be_bytes());
	c.label(format!("{} bytes", want));
	c.nontrivial(mix(hash_bytes(&b)));
	c.note(|| format!("{} bytes, {} records", want, count));
	let ok = p.respond(&b)?;
	if ok != (want <= 65535) { return Err(format!("harness: a response of {} bytes is {}accepted by the library", want, if ok { "" } else { "not " })); }
	p.finish(true)?;
	Ok(())
}
/// As used: against a correct resolver, then verifying.
fn lookups(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { zones: (2, 5), wildcards: 20, fams: [50, 30, 2, 1, 1], also: 10, ..Default::default() });
	let (n, ty) = u.query(s);
	let (want, _) = expectation(&u, &n, ty);
	let given = spelled(s, n.text());
	let mut p = start(&given, ty)?.ok_or_else(|| format!("no builder for {:?}", given))?;
	let mut open = Vec::new();
	for step in 0..200 {
		if step > 100 { return Err("queries without end".into()); }
		if open.is_empty() || s.chance(1, 3) {
			match p.next()? { Some(q) => { open.push(q); continue; }, None => if open.is_empty() { break; } }
		}
		let i = s.usize(0, open.len() - 1);
		let q: Vec<u8> = open.remove(i);
		let (qn, qt) = parse_query(&q)?;
		let st = style(s);
		let e = s.bool();
		let r = resolver::answer(s, &u, &qn, qt, st, e);
		if r.bytes.len() > 65535 { return Ok(()); }
		p.respond(&r.bytes)?;
	}
	c.nontrivial(p.key);
	c.note(|| format!("{}\nquery {} {}", u.show(), n.text(), ty_name(ty)));
	match (p.finish(false)?, want) {
		(Some(b), Expect::Proof(w)) => {
			c.label("proof");
			let j = verified(&b, &u.anchors(), c)?;
			let Some(rrs) = j.get("verified_rrs").and_then(|x| x.arr()) else { return Err("the built proof is not verified".into()) };
			for r in &w { if !rrs.iter().any(|x| check_value(x, r).is_ok()) { return Err(format!("{} is not among the verified records", show(r))); } }
			Ok(())
		},
		(None, Expect::Proof(_)) => Err(format!("no proof for {} {}", n.text(), ty_name(ty))),
		(Some(_), Expect::NoProof | Expect::TooMany) => Err("a proof although there is none to be had".into()),
		(p, _) => { c.label(if p.is_some() { "not judged" } else { "no proof" }); Ok(()) },
	}
}
/// Compares the wrapper's output with the library's result.
fn verified(b: &[u8], anchors: &[Deleg], c: &mut Ctx) -> Result<json::J, String> {
	set_anchors(anchors);
	let x = b.to_vec();
	let text = sut(move || w::verify_byte_stream(x))?;
	let j = json::parse(&text).map_err(|e| format!("the output is not JSON: {}: {}", e, text))?;
	let rrs = match sut(|| sser::parse_rr_stream(b))? { Ok(r) => Ok(r), Err(()) => Err(v::ValidationError::Invalid) };
	let lib = match &rrs { Ok(r) => match sut(|| v::verify_rr_stream(r))? { Ok(x) => Ok(x), Err(e) => Err(e) }, Err(_) => Err(v::ValidationError::Invalid) };
	match lib {
		Err(e) => {
			c.label(format!("{:?}", e));
			let json::J::Obj(o) = &j else { return Err(format!("{:?} is not an object", text)) };
			if o.len() != 1 || j.get("error").and_then(|x| x.str()) != Some(format!("{:?}", e).as_str()) { return Err(format!("{:?} is reported as {}", e, text)); }
		},
		Ok(l) => {
			c.label("verified");
			if j.get("error").is_some() { return Err(format!("a valid proof gives {}", text)); }
			for (k, want) in [("valid_from", l.valid_from), ("expires", l.expires), ("max_cache_ttl", l.max_cache_ttl as u64)] {
				if j.get(k).and_then(|x| x.u64()) != Some(want) { return Err(format!("{} is {:?} instead of {}", k, j.get(k), want)); }
			}
			let a = j.get("verified_rrs").and_then(|x| x.arr()).ok_or_else(|| format!("no verified records in {}", text))?;
			if a.len() != l.verified_rrs.len() { return Err(format!("{} records are listed, {} are verified", a.len(), l.verified_rrs.len())); }
			let mut left: Vec<&json::J> = a.iter().collect();
			for r in &l.verified_rrs {
				let m = conv::from_sut(r);
				match left.iter().position(|x| check_value(x, &m).is_ok()) {
					Some(i) => { left.remove(i); },
					None => return Err(format!("{} is verified but not listed in {}", show(&m), text)),
				}
			}
		},
	}
	Ok(j)
}
fn verifying(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	if s.chance(1, 6) {
		let Some(x) = super::trust::odd_chain(s) else { return Ok(()) };
		let b = stream(&x.recs, 300);
		c.nontrivial(hash_bytes(&b));
		c.label("unsupported cryptography");
		c.note(|| show_all(&x.recs));
		verified(&b, &x.anchors, c)?;
		return Ok(());
	}
	let u = Universe::generate(s, &Opts { zones: (1, 4), wildcards: 30, fams: [50, 30, 2, 1, 1], also: 10, ..Default::default() });
	let mut recs = match proof(s, &u, 4) { Some(p) => p.recs, None => return Ok(()) };
	if s.chance(1, 3) { for _ in 0..s.usize(1, 3) { c.label(tamper(s, &u, &mut recs)); } }
	// Records of every kind, as signed data.
	let ttl = if s.bool() { 300 } else { gen::ttl(s) };
	let mut b = stream(&recs, ttl);
	if s.chance(1, 6) { mutate(s, &mut b); c.label("bytes mutated"); }
	c.nontrivial(hash_bytes(&b));
	c.note(|| show_all(&recs));
	verified(&b, &u.anchors(), c)?;
	Ok(())
}
/// Large proofs, valid at times from 1997 to 2133.
fn large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	// From 27 years after the epoch on times are as given, below they are past 2106.
	let base = match s.below(5) { 0 => u32::MAX - s.below(2_000) as u32, 1 => s.below(2_000) as u32, 2 => s.range(2_000, 27 * 365 * 86_400 - 2_000) as u32, 3 => 0x7fff_ffff - s.below(2_000) as u32, _ => s.range(27 * 365 * 86_400 + 2_000, u32::MAX as u64) as u32 };
	let (recs, anchors) = super::validate::large_proof_at(s, c, |s| crate::model::crypto::Times { inc: base.wrapping_sub(1 + s.below(1_000) as u32), exp: base.wrapping_add(1 + s.below(1_000) as u32), ttl: *s.pick(&[300, 0, 1, u32::MAX, 0x8000_0000]) });
	let b = stream(&recs, 300);
	c.nontrivial(hash_bytes(&b));
	verified(&b, &anchors, c)?;
	Ok(())
}
fn garbage(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let b = match s.below(3) { 0 => { let n = s.usize(0, 60); s.bytes(n) }, 1 => odd_record(s), _ => { let mut b = Vec::new(); for _ in 0..s.usize(1, 4) { let n = gen::name(s); let t = *s.pick(&SUPPORTED); b.extend(Rec { name: n, d: gen::data(s, t) }.wire(7)); } if s.bool() { mutate(s, &mut b); } b } };
	c.nontrivial(hash_bytes(&b));
	c.note(|| hex(&b[..b.len().min(600)]));
	verified(&b, &[], c)?;
	Ok(())
}
pub fn c24() -> Prop {
	Prop {
		id: "C24",
		rule: "a case is non-trivial when a name, a history of fetches and responses, or a byte stream was given to both the wrapper and the library and every result compared; distinct by all the bytes given",
		tests: vec![
			Test { name: "histories", quick: 60_000, thorough: 2_000_000, run: histories },
			Test { name: "sizes", quick: 400, thorough: 5_000, run: sizes },
			Test { name: "lookups", quick: 4_000, thorough: 150_000, run: lookups },
			Test { name: "verifying", quick: 10_000, thorough: 400_000, run: verifying },
			Test { name: "large", quick: 800, thorough: 40_000, run: large },
			Test { name: "garbage", quick: 60_000, thorough: 2_000_000, run: garbage },
		],
		known: vec![],
		assumptions: vec!["the wrappers are called natively; the generated JavaScript glue is not part of the repository"],
	}
}
