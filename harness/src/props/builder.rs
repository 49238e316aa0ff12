//! Building proofs: C18 (the state machine), C19 (against a correct resolver), C20 (reading responses).

use super::validate::*;
use crate::engine::*;
use crate::model::{conv, gen, message::*, name::MName, resolver, rr::*, wire, zone::*};
use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::{rr as srr, ser as sser, validation as v};
use std::collections::BTreeSet;

pub fn buf(b: &[u8]) -> QueryBuf {
	let mut q = QueryBuf::new_zeroed(b.len() as u16);
	q.copy_from_slice(b);
	q
}
pub const LIMIT: usize = 10;

// ---------------------------------------------------------------------------------------------------------------
// Responses

fn small_rec(s: &mut Src, names: &[MName]) -> Rec {
	loop {
		let n = if s.chance(4, 5) { s.pick(names).clone() } else { gen::name(s) };
		let ty = *s.pick(&SUPPORTED);
		let d = match ty {
			NS => D::Ns(s.pick(names).clone()),
			CNAME => D::Cname(s.pick(names).clone()),
			DNAME => D::Dname(s.pick(names).clone()),
			_ => gen::data(s, ty),
		};
		let r = Rec { name: n, d };
		if r.d.rdata().len() < 2600 { return r; }
	}
}
fn a_sig(s: &mut Src, names: &[MName], signer: &MName, ty: u16) -> Rec {
	let n = s.pick(names).clone();
	let l = *s.pick(&[64usize, 0, 1, 20]);
	Rec::new(&n, D::Sig(Sig { ty, alg: 13, labels: n.labels() as u8, ttl: 300, exp: 2_000_000_000, inc: 1_600_000_000, tag: s.u16(), signer: signer.clone(), sig: s.bytes(l) }))
}
fn some_ttl(s: &mut Src) -> u32 { if s.bool() { 1 + s.below(1000) as u32 } else { gen::ttl(s) } }
/// A well-formed response with signatures by the given zones.
pub fn good_msg(s: &mut Src, names: &[MName], signers: &[MName], auth_signers: &[MName]) -> Msg {
	let extra = s.chance(1, 2);
	let mut m = Msg { id: 0, flags: QR | AD | if extra { RD | RA } else { 0 } | if s.chance(1, 6) { AA } else { 0 } | if s.chance(1, 6) { 0x10 } else { 0 } | if s.chance(1, 8) { 0x40 } else { 0 }, ..Default::default() };
	m.questions = vec![(s.pick(names).clone(), *s.pick(&[TXT, A, DNSKEY, DS, 6, 255, 65535]), if s.chance(1, 10) { 255 } else { 1 })];
	let push = |s: &mut Src, v: &mut Vec<(Rec, u32)>, r: Rec| { let t = some_ttl(s); let at = s.usize(0, v.len()); v.insert(at, (r, t)); };
	let mut an = Vec::new();
	for g in signers { let ty = *s.pick(&[TXT, DNSKEY, DS, A, NSEC]); let r = a_sig(s, names, g, ty); push(s, &mut an, r); }
	let n = *s.pick(&[1usize, 0, 2, 3, 5]);
	for _ in 0..n { let r = small_rec(s, names); if r.ty() != RRSIG { push(s, &mut an, r); } }
	if an.is_empty() { an.push((Rec::new(&names[0], D::A([1, 2, 3, 4])), 60)); }
	let mut au = Vec::new();
	for g in auth_signers { let ty = *s.pick(&[NSEC, NSEC3]); let r = a_sig(s, names, g, ty); push(s, &mut au, r); }
	if s.chance(1, 2) {
		for _ in 0..s.usize(1, 4) {
			let r = match s.below(4) {
				0 => Rec::new(s.pick(names), D::Ns(s.pick(names).clone())),
				1 => { let g = s.pick(names).clone(); let ty = *s.pick(&[NS, DS, A, TXT, 6, DNSKEY, RRSIG]); a_sig(s, names, &g, ty) },
				2 => Rec::new(s.pick(names), gen::data(s, NSEC)),
				_ => small_rec(s, names),
			};
			// Other signatures over denial records would bring other signers.
			if let D::Sig(g) = &r.d { if g.ty == NSEC || g.ty == NSEC3 { continue; } }
			if r.d.rdata().len() < 2600 { push(s, &mut au, r); }
		}
	}
	m.answer = an;
	m.authority = au;
	for _ in 0..*s.pick(&[0usize, 1, 1, 2, 3]) {
		let b = match s.below(4) {
			0 => opt(*s.pick(&[0u16, 512, 1232, 65535]), 0x8000),
			1 => Rec::new(s.pick(names), gen::data(s, NSEC)).wire(0),
			2 => { let r = a_sig(s, names, &MName::of("additional.signer."), NSEC); r.wire(0) },
			_ => raw_rr(&s.pick(names).wire(), 6, 1, 0, &[1, 2, 3]),
		};
		m.additional.push(b);
	}
	m
}
/// A well-formed response close to the limits: thousands of records, long records, or long names written short. Encoded.
pub fn big_msg(s: &mut Src, names: &[MName], signers: &[MName], st: Style) -> (Msg, Vec<u8>) {
	let mut m = good_msg(s, names, signers, &[]);
	let st = Style { owners: true, ..st };
	for _ in 0..s.usize(1, 3) {
		let n = s.pick(names).clone();
		let deep = gen::clamp(MName((0..*s.pick(&[1usize, 3, 8, 120])).map(|i| vec![b'a' + (i % 26) as u8; 1 + i % 7]).collect()).join(&n));
		let n = if s.bool() { deep } else { n };
		let ttl = 1 + s.below(1000) as u32;
		let count = *s.pick(&[20usize, 300, 256, 255, 1000, 1024, 2500, 4000]);
		let mut v: Vec<(Rec, u32)> = match s.below(5) {
			0 => (0..count).map(|i| (Rec::new(&n, D::A([1, 2, (i >> 8) as u8, i as u8])), ttl + i as u32)).collect(),
			1 => (0..count.min(600)).map(|i| (Rec::new(&n, D::Txt(vec![b'a' + (i % 26) as u8; 1 + i % 90])), ttl)).collect(),
			2 => { let l = s.usize(2_000, 62_000); vec![(Rec::new(&n, D::Txt(vec![b't'; l])), ttl)] },
			3 => { let l = s.usize(2_000, 62_000); vec![(Rec::new(&n, D::Tlsa(3, 1, 0, vec![7; l])), ttl)] },
			_ => (0..count.min(1500)).map(|i| (Rec::new(&n, D::Cname(MName::of(&format!("c{}.", i)))), ttl)).collect(),
		};
		if s.chance(1, 3) {
			// Denial records are taken from the authority section.
			v = (0..count.min(1200)).map(|i| (Rec::new(&n, D::Nsec(MName::of(&format!("n{}.", i)), [A, RRSIG].into())), ttl)).collect();
			m.authority.append(&mut v);
		}
		let at = if s.bool() { 0 } else { m.answer.len() };
		m.answer.splice(at..at, v);
	}
	loop {
		let b = encode(s, &m, st);
		if b.len() <= 65535 { return (m, b); }
		// Half of the longer section is too much.
		let v = if m.answer.len() >= m.authority.len() { &mut m.answer } else { &mut m.authority };
		let k = v.len() / 2;
		if k == 0 { m.answer = vec![(Rec::new(&names[0], D::A([1; 4])), 1)]; m.authority.clear(); } else { v.drain(k / 2..k / 2 + (v.len() - k).max(1)); }
	}
}
/// Spoils an encoded response; most results are malformed, some stay acceptable.
pub fn spoil(s: &mut Src, mut b: Vec<u8>) -> (Vec<u8>, &'static str) {
	let what = match s.below(13) {
		0 => { let f = 0u16 | (b[2] as u16) << 8 | b[3] as u16; let f = f ^ 1 << s.below(16); b[2] = (f >> 8) as u8; b[3] = f as u8; "flag flipped" },
		1 => { b[2] = s.u8(); b[3] = s.u8(); "random flags" },
		2 => { let n = s.usize(0, b.len() - 1); b.truncate(n); "cut short" },
		3 => { let i = s.usize(0, b.len() - 1); b[i] = s.u8(); "byte replaced" },
		4 => { let i = s.usize(0, b.len() - 1); b[i] ^= 1 << s.below(8); "bit flipped" },
		5 => { let i = s.usize(0, b.len()); b.insert(i, s.u8()); "byte inserted" },
		6 => { let i = s.usize(0, b.len() - 1); b.remove(i); "byte removed" },
		7 => { let i = 4 + 2 * s.usize(0, 3); let c = (b[i] as u16) << 8 | b[i + 1] as u16; let c = match s.below(4) { 0 => c.wrapping_add(1), 1 => c.wrapping_sub(1), 2 => 0, _ => s.u16() }; b[i] = (c >> 8) as u8; b[i + 1] = c as u8; "section count changed" },
		8 => { b[s.usize(0, 1)] = s.u8(); "transaction ID changed" },
		9 => { b[3] = b[3] & 0xf0 | s.below(16) as u8; "result code" },
		10 => { let n = s.usize(1, 30); for _ in 0..n { b.push(s.u8()); } "data appended" },
		11 => {
			// One of the reserved label types where a pointer or a label was.
			let v: Vec<usize> = (12..b.len()).filter(|i| b[*i] >= 0xc0).collect();
			let i = if v.is_empty() || s.chance(1, 4) { s.usize(0, b.len() - 1) } else { *s.pick(&v) };
			let top = *s.pick(&[0x80u8, 0x40, 0xbf, 0x7f]);
			b[i] = if top & 0x3f != 0 { top } else { top | b[i] & 0x3f };
			"reserved label type"
		},
		_ => {
			// A pointer somewhere.
			let i = s.usize(12, b.len().max(13) - 1).min(b.len() - 2);
			let t = match s.below(3) { 0 => i, 1 => s.usize(0, b.len() - 1), _ => s.below(0x4000) as usize };
			b[i] = 0xc0 | (t >> 8) as u8 & 0x3f; b[i + 1] = t as u8;
			"pointer written over"
		},
	};
	(b, what)
}
/// A response that needs nothing further.
fn filler(s: &mut Src) -> Vec<u8> {
	let m = Msg { id: 0, flags: QR | AD, questions: vec![(MName::of("f."), A, 1)], answer: vec![(Rec::new(&MName::of("f."), D::A([0; 4])), u32::MAX)], ..Default::default() };
	encode(s, &m, Style::default())
}
pub struct Built { pub accepted: bool, pub proof: Option<Result<(Vec<u8>, u32), ()>> }

/// Feeds one response, then fillers for whatever it asks for, and takes the proof.
fn read_one(s: &mut Src, b: &[u8]) -> Result<(bool, Vec<QueryBuf>, Result<(Vec<u8>, u32), ()>, usize), String> {
	let n = conv::name_in(&MName::of("q.example."));
	let (mut pb, _) = sut(|| ProofBuilder::new(&n, TXT))?;
	let r = sut(|| pb.process_response(&buf(b)))?;
	let accepted = r.is_ok();
	let q = r.unwrap_or_default();
	let f = filler(s);
	let mut fillers = 0;
	if !accepted {
		// The first response is still outstanding.
		sut(|| pb.process_response(&buf(&f)))?.map_err(|_| "a valid response is rejected after a rejected one".to_string())?;
		fillers += 1;
	}
	while sut(|| pb.awaiting_responses())? {
		sut(|| pb.process_response(&buf(&f)))?.map_err(|_| "a valid response without signatures is rejected".to_string())?;
		fillers += 1;
		if fillers > 50 { return Err("the builder awaits responses without end".into()); }
	}
	let p = sut(move || pb.finish_proof())?;
	Ok((accepted, q, p, fillers))
}
fn responses(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let names: Vec<MName> = (0..s.usize(1, 5)).map(|i| if i == 0 { MName::of("q.example.") } else { gen::name(s) }).collect();
	let pool: Vec<MName> = (0..3).map(|_| s.pick(&names).clone()).collect();
	let signers: Vec<MName> = (0..*s.pick(&[1usize, 0, 2])).map(|_| s.pick(&pool).clone()).collect();
	let auth: Vec<MName> = (0..*s.pick(&[0usize, 0, 1])).map(|_| s.pick(&pool).clone()).collect();
	let m = good_msg(s, &names, &signers, &auth);
	let st = style(s);
	let mut b = encode(s, &m, st);
	let mut what = "well-formed";
	if s.chance(1, 2) {
		let (x, w) = spoil(s, b);
		b = x;
		what = w;
		if s.chance(1, 6) && b.len() > 14 { b = spoil(s, b).0; }
	}
	if b.len() > 65535 { return Ok(()); }
	one(s, c, &b, what)
}
fn large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let names: Vec<MName> = (0..s.usize(1, 3)).map(|i| if i == 0 { MName::of("q.example.") } else { gen::name(s) }).collect();
	let signers: Vec<MName> = (0..*s.pick(&[1usize, 0, 2])).map(|_| s.pick(&names).clone()).collect();
	let st = style(s);
	let (_, mut b) = big_msg(s, &names, &signers, st);
	c.label(format!("up to {} KiB", (b.len() >> 10) / 16 * 16 + 16));
	let mut what = "well-formed";
	if s.chance(1, 4) { let (x, w) = spoil(s, b); b = x; what = w; }
	if b.len() > 65535 { return Ok(()); }
	one(s, c, &b, what)
}
fn one(s: &mut Src, c: &mut Ctx, b: &[u8], what: &str) -> Result<(), String> {
	let (want, soft) = decode(b);
	c.nontrivial(hash_bytes(b));
	c.label(what.to_string());
	match &want { Ok(_) => c.label(if soft.is_some() { "either outcome" } else { "to be accepted" }), Err(e) => c.label(format!("to be rejected: {}", e)) }
	c.note(|| format!("{}: {} bytes {}", what, b.len(), hex(&b[..b.len().min(700)])));
	c.note(|| match &want { Ok(x) => format!("contributes {}", x.recs.iter().map(|x| show(&x.0)).collect::<Vec<_>>().join("; ")), Err(e) => format!("rejected: {}", e) });
	let (accepted, queries, proof, fillers) = read_one(s, b)?;
	let mut expect = match (&want, accepted) {
		(Err(e), true) => return Err(format!("a response is accepted that is to be rejected: {}", e)),
		(Ok(_), false) if soft.is_none() => return Err("a well-formed response is rejected".into()),
		(Ok(x), true) => x.clone(),
		_ => Contribution { recs: vec![], min_ttl: u32::MAX },
	};
	let signers = expect.signers();
	let n_queries: usize = 1 + signers.iter().map(|n| if n.0.is_empty() { 1 } else { 2 }).sum::<usize>();
	if n_queries > LIMIT { return Ok(()); }
	check_queries(&queries, &signers)?;
	let Ok((bytes, ttl)) = proof else { return Err("no proof although every response arrived".into()) };
	for _ in 0..fillers { expect.recs.push((Rec::new(&MName::of("f."), D::A([0; 4])), u32::MAX)); }
	let got = wire::stream(&bytes).0.map_err(|e| format!("the proof is malformed: {}: {}", e, hex(&bytes)))?;
	// Which types a malformed bitmap states is not judged.
	let open_types = soft.is_some();
	if got != expect.recs && !(open_types && strip_types(&got) == strip_types(&expect.recs)) { return Err(format!("the proof holds [{}], the response contributes [{}]", got.iter().map(|x| format!("{} ttl {}", show(&x.0), x.1)).collect::<Vec<_>>().join("; "), expect.recs.iter().map(|x| format!("{} ttl {}", show(&x.0), x.1)).collect::<Vec<_>>().join("; "))); }
	if !open_types && bytes != expect.bytes() { return Err(format!("the proof {} is not in the uncompressed lower-case form {}", hex(&bytes), hex(&expect.bytes()))); }
	if ttl != expect.min_ttl { return Err(format!("TTL {} instead of the smallest one, {}", ttl, expect.min_ttl)); }
	Ok(())
}
fn strip_types(v: &[(Rec, u32)]) -> Vec<(Rec, u32)> {
	v.iter().cloned().map(|mut r| { match &mut r.0.d { D::Nsec(_, t) => t.clear(), D::Nsec3(n) => n.types.clear(), _ => {} } r }).collect()
}
fn check_queries(queries: &[QueryBuf], signers: &BTreeSet<MName>) -> Result<(), String> {
	let mut got = Vec::new();
	for q in queries { got.push(parse_query(q)?); }
	let mut want = Vec::new();
	for n in signers { want.push((n.clone(), DNSKEY)); if !n.0.is_empty() { want.push((n.clone(), DS)); } }
	got.sort();
	want.sort();
	if got != want {
		let f = |v: &[(MName, u16)]| v.iter().map(|x| format!("{} {}", x.0.text(), ty_name(x.1))).collect::<Vec<_>>().join(", ");
		return Err(format!("queries [{}] instead of [{}]", f(&got), f(&want)));
	}
	Ok(())
}
/// All values of the flag word, and all small section counts, over one message.
fn header(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let m = good_msg(s, &[MName::of("a.example.")], &[], &[]);
	let mut b = encode(s, &m, Style::default());
	let base = QR | AD;
	let f = match s.below(4) { 0 => base ^ 1 << s.below(16), 1 => base ^ (1 << s.below(16)) ^ (1 << s.below(16)), 2 => base | s.below(16) as u16, _ => s.u16() };
	b[2..4].copy_from_slice(&f.to_be_bytes());
	if s.chance(1, 3) { let i = 4 + 2 * s.usize(0, 3); b[i + 1] = s.below(4) as u8; }
	if s.chance(1, 8) { b[1] = s.below(3) as u8; }
	one(s, c, &b, "header variations")
}

// ---------------------------------------------------------------------------------------------------------------
// Histories

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), String> { histories(s, c, false) }
fn large_history(s: &mut Src, c: &mut Ctx) -> Result<(), String> { histories(s, c, true) }
fn histories(s: &mut Src, c: &mut Ctx, large: bool) -> Result<(), String> {
	let mut names: Vec<MName> = vec![MName::root()];
	for _ in 0..s.usize(1, 8) {
		let n = match s.below(5) { 0 => gen::name(s), 1 => s.pick(&names).child(&gen::label(s)), 2 => { let n = s.pick(&names).clone(); match n.0.split_first() { Some((h, t)) if h.len() < 60 => { let mut h = h.clone(); h.insert(0, b'x'); let mut v = vec![h]; v.extend(t.iter().cloned()); MName(v) }, _ => MName::of("com.") } }, _ => s.pick(&names).child_s(host(s)) };
		names.push(gen::clamp(n));
	}
	names.dedup();
	let start = gen::name(s);
	let ty = if s.chance(1, 6) { s.u16() } else { *s.pick(&[TXT, A, AAAA, TLSA, CNAME]) };
	let sn = conv::name_in(&start);
	let (mut pb, q0) = sut(|| ProofBuilder::new(&sn, ty))?;
	let (qn, qt) = parse_query(&q0)?;
	if (&qn, qt) != (&start, ty) { return Err(format!("the initial query asks for {} {} instead of {} {}", qn.text(), ty_name(qt), start.text(), ty_name(ty))); }
	// The model.
	let mut issued = 1usize;
	let mut outstanding = 1usize;
	let mut asked: BTreeSet<MName> = BTreeSet::new();
	let mut queries: BTreeSet<Vec<u8>> = [q0.to_vec()].into();
	let mut total = 1usize;
	let mut recs: Vec<(Rec, u32)> = Vec::new();
	let mut ttl = u32::MAX;
	let mut over = false;
	let mut open_types = false;
	let mut accepted = 0;
	let (mut rejected, mut steps) = (0, 0u64);
	let mut key = hash_bytes(start.text().as_bytes());
	let n = s.usize(1, 16);
	let focus = s.chance(2, 3);
	for step in 0..n {
		if sut(|| pb.awaiting_responses())? != (outstanding > 0 && !over) { return Err(format!("step {}: awaiting_responses() is {} with {} of {} responses outstanding{}", step, !(outstanding > 0 && !over), outstanding, issued, if over { ", beyond the limit" } else { "" })); }
		if outstanding == 0 && s.chance(2, 3) { break; }
		// Mostly few new signers, so that histories reach completion.
		let k = if focus { *s.pick(&[0usize, 1, 1, 0, 2]) } else { s.usize(0, 4) };
		let mut signers: Vec<MName> = (0..k).map(|_| s.pick(&names).clone()).collect();
		if s.chance(1, 6) { if let Some(g) = signers.first().cloned() { signers.push(g); } }
		let auth: Vec<MName> = if s.chance(1, 4) { vec![s.pick(&names).clone()] } else { vec![] };
		let st = style(s);
		let mut b = if large && s.bool() { big_msg(s, &names, &signers, st).1 } else { let m = good_msg(s, &names, &signers, &auth); encode(s, &m, st) };
		if b.len() > 65535 { continue; }
		if s.chance(1, 4) { b = spoil(s, b).0; }
		let (want, soft) = decode(&b);
		key = mix(key ^ hash_bytes(&b));
		c.note(|| format!("response {}: {}", step, hex(&b[..b.len().min(400)])));
		let r = sut(|| pb.process_response(&buf(&b)))?;
		steps += 1;
		// Beyond the limit only that nothing further is issued, and that there is no proof.
		if over { if r.map_or(false, |q| !q.is_empty()) { return Err("queries are issued beyond the limit".into()); } continue; }
		if outstanding == 0 {
			if r.is_ok() { return Err("a response is accepted although none is outstanding".into()); }
			rejected += 1;
			continue;
		}
		match (&want, &r) {
			(Err(e), Ok(_)) => return Err(format!("step {}: a response is accepted that is to be rejected: {}", step, e)),
			(Ok(_), Err(())) if soft.is_none() => return Err(format!("step {}: a well-formed response is rejected", step)),
			(_, Err(())) => { rejected += 1; continue; },
			(Ok(x), Ok(q)) => {
				accepted += 1;
				open_types |= soft.is_some();
				outstanding -= 1;
				recs.extend(x.recs.iter().cloned());
				ttl = ttl.min(x.min_ttl);
				let new: BTreeSet<MName> = x.signers().into_iter().filter(|n| !asked.contains(n)).collect();
				let more: usize = new.iter().map(|n| if n.0.is_empty() { 1 } else { 2 }).sum();
				total += q.len();
				if total > LIMIT { return Err(format!("{} queries were issued in all", total)); }
				issued += more;
				outstanding += more;
				if issued > LIMIT { over = true; }
				else {
					check_queries(q, &new)?;
					asked.extend(new);
					for x in q { if !queries.insert(x.to_vec()) && ty != DNSKEY && ty != DS { return Err(format!("a query is issued twice: {}", hex(x))); } }
				}
			},
		}
	}
	c.nontrivial(key);
	c.label(format!("{} accepted", match accepted { 0 => "0", 1 => "1", 2..=4 => "2-4", _ => "5 or more" }));
	if rejected > 0 { c.label("some rejected"); }
	if over { c.label("over the query limit"); }
	if issued == LIMIT { c.label("exactly at the query limit"); }
	if steps == 0 { return Ok(()); }
	if sut(|| pb.awaiting_responses())? != (outstanding > 0 && !over) { return Err(format!("at the end awaiting_responses() is {} with {} outstanding", !(outstanding > 0 && !over), outstanding)); }
	let p = sut(move || pb.finish_proof())?;
	match p {
		Ok(_) if over => Err("a proof is returned although more queries are needed than allowed".into()),
		Ok(_) if outstanding > 0 => Err(format!("a proof is returned with {} responses outstanding", outstanding)),
		Err(()) if !over && outstanding == 0 => Err("no proof although every response arrived".into()),
		Ok((b, t)) => {
			c.label("proof built");
			if b.len() > 65535 { c.label("proof over 64 KiB"); }
			if rejected > 0 { c.label("proof built with rejected responses in between"); }
			let want = Contribution { recs: recs.clone(), min_ttl: ttl }.bytes();
			let same = if open_types { wire::stream(&b).0.ok().map(|v| strip_types(&v)) == Some(strip_types(&recs)) } else { b == want };
			if !same { return Err(format!("the proof is {} bytes, the accepted responses contribute {} bytes: [{}] against [{}]", b.len(), want.len(), shown(&b), shown(&want))); }
			if t != ttl { return Err(format!("TTL {} instead of {}", t, ttl)); }
			Ok(())
		},
		Err(()) => Ok(()),
	}
}
fn shown(b: &[u8]) -> String { match wire::stream(b).0 { Ok(v) => v.iter().map(|x| show(&x.0)).collect::<Vec<_>>().join("; "), Err(e) => format!("malformed: {}", e) } }

// ---------------------------------------------------------------------------------------------------------------
// Against a correct resolver

/// What asking a correct resolver for a name is to lead to.
pub enum Expect {
	/// A verifying proof that holds these records for the name; the second value is the TTL bound.
	Proof(BTreeSet<Rec>),
	/// No secure answer, so no proof.
	NoProof,
	TooMany,
	/// Not judged, for a documented reason.
	Open,
}
pub fn expectation(u: &Universe, n: &MName, ty: u16) -> (Expect, BTreeSet<usize>) {
	let a = u.resolve(n, ty);
	let mut reach = BTreeSet::new();
	if a.looped || a.answer.is_empty() || !a.secure { return (Expect::NoProof, reach); }
	for z in &a.signers { reach.extend(u.zones_up(*z)); }
	if 1 + reach.iter().map(|z| if *z == 0 { 1 } else { 2 }).sum::<usize>() > LIMIT { return (Expect::TooMany, reach); }
	// Answers that end in an alias to nothing come with a proof of non-existence that has a start of authority record.
	if a.finals.is_empty() || a.optout || a.wraps_nsec || a.max_iters > 2500 { return (Expect::Open, reach); }
	let mut all = a.answer.clone();
	all.extend(a.authority.iter().cloned());
	for z in &reach { all.extend(u.chain(*z)); }
	if nsec_clash(&dedup(all)) { return (Expect::Open, reach); }
	(Expect::Proof(a.finals.iter().cloned().collect()), reach)
}
/// Whether a built proof gives exactly what the zone publishes.
pub fn judge_proof(u: &Universe, n: &MName, ty: u16, proof: &[u8], want: &BTreeSet<Rec>, c: &mut Ctx) -> Result<(), String> {
	set_anchors(&u.anchors());
	let inp: Vec<srr::RR> = sut(|| sser::parse_rr_stream(proof))?.map_err(|_| "the built proof does not parse".to_string())?;
	let st = match sut(|| v::verify_rr_stream(&inp))? { Ok(x) => x, Err(e) => return Err(format!("the built proof for {} {} is rejected as {:?}: {}", n.text(), ty_name(ty), e, shown(proof))) };
	let sn = conv::name_in(n);
	let ver: Vec<Rec> = st.verified_rrs.iter().map(|r| conv::from_sut(r)).collect();
	let got: Vec<Rec> = sut(|| st.resolve_name(&sn).into_iter().map(conv::from_sut).collect())?;
	super::resolve::check(&ver, n, &got, c)?;
	let got: BTreeSet<Rec> = got.into_iter().filter(|r| r.ty() == ty).collect();
	if got != *want { return Err(format!("{} {} resolves to [{}] instead of [{}]", n.text(), ty_name(ty), got.iter().map(show).collect::<Vec<_>>().join("; "), want.iter().map(show).collect::<Vec<_>>().join("; "))); }
	Ok(())
}
fn resolver_run(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let o = Opts { zones: (2, 6), wildcards: 30, fams: [50, 25, 2, 1, 1], also: 10, lines: 30, ..Default::default() };
	let u = Universe::generate(s, &o);
	let (n, ty) = if s.chance(1, 3) { u.far_query(s, 6) } else { u.query(s) };
	let (want, reach) = expectation(&u, &n, ty);
	let extras = s.bool();
	let sn = conv::name_in(&n);
	let (mut pb, q0) = sut(|| ProofBuilder::new(&sn, ty))?;
	let mut open: Vec<Vec<u8>> = vec![q0.to_vec()];
	let mut ttl = u32::MAX;
	let mut failed = false;
	let (mut asked, mut key) = (0, 0);
	let fifo = s.below(3);
	while sut(|| pb.awaiting_responses())? {
		if open.is_empty() { return Err("the builder awaits responses to no query".into()); }
		let i = match fifo { 0 => 0, 1 => open.len() - 1, _ => s.usize(0, open.len() - 1) };
		let q = open.remove(i);
		let (qn, qt) = parse_query(&q)?;
		let st = style(s);
		let r = resolver::answer(s, &u, &qn, qt, st, extras);
		if r.bytes.len() > 65535 { return Ok(()); }
		key = mix(key ^ hash_bytes(&r.bytes));
		asked += 1;
		match sut(|| pb.process_response(&buf(&r.bytes)))? {
			Ok(qs) => {
				ttl = ttl.min(r.min_ttl);
				open.extend(qs.iter().map(|q| q.to_vec()));
			},
			Err(()) => {
				if asked > 1 || matches!(want, Expect::Proof(_) | Expect::TooMany) { return Err(format!("a correct resolver's answer for {} {} is rejected: {}", qn.text(), ty_name(qt), hex(&r.bytes))); }
				failed = true;
				break;
			},
		}
		if asked > 40 { return Err("more than 40 queries".into()); }
	}
	c.note(|| u.show());
	c.note(|| format!("query {} {}", n.text(), ty_name(ty)));
	if asked > LIMIT { return Err(format!("{} queries were made", asked)); }
	if failed { c.label("no secure answer"); return if matches!(want, Expect::NoProof | Expect::Open) { Ok(()) } else { Err("no proof".into()) }; }
	let p = sut(move || pb.finish_proof())?;
	match (want, p) {
		(Expect::NoProof, _) => Err(format!("a proof is built for {} {}, which has no secure answer", n.text(), ty_name(ty))),
		(Expect::TooMany, Ok(_)) => Err("a proof is returned although more queries are needed than allowed".into()),
		(Expect::TooMany, Err(())) => { c.label("needs more queries than allowed"); c.nontrivial(key); Ok(()) },
		(Expect::Open, _) => { c.label("not judged"); Ok(()) },
		(Expect::Proof(_), Err(())) => Err(format!("no proof for {} {} over {} zones", n.text(), ty_name(ty), reach.len())),
		(Expect::Proof(w), Ok((b, t))) => {
			c.nontrivial(key);
			let a = u.resolve(&n, ty);
			c.label(format!("{} zones", reach.len()));
			c.label(format!("{} responses", asked));
			if a.wildcard { c.label("wildcard"); }
			if a.aliases > 0 { c.label("aliases"); }
			if a.dnames > 0 { c.label("DNAME"); }
			if t != ttl { return Err(format!("TTL {} instead of {}", t, ttl)); }
			judge_proof(&u, &n, ty, &b, &w, c)
		},
	}
}

pub fn c18() -> Prop {
	Prop {
		id: "C18",
		rule: "a case is non-trivial when at least one response was processed; a case is a whole history of up to 16 responses",
		tests: vec![Test { name: "history", quick: 200_000, thorough: 6_000_000, run: history }, Test { name: "large", quick: 600, thorough: 30_000, run: large_history }],
		known: vec![],
		assumptions: vec!["beyond the limit of queries only the absence of further queries and of a proof is judged", "a key or delegation query may repeat the caller's own initial query of that type"],
	}
}
pub fn c19() -> Prop {
	Prop {
		id: "C19",
		rule: "a case is non-trivial when a proof was built, or more than ten queries were needed",
		tests: vec![Test { name: "resolver", quick: 90_000, thorough: 3_000_000, run: resolver_run }],
		known: known_denials(),
		assumptions: vec!["the resolver returns every record of an answer once, only record types the library supports in answer and authority sections, and sets the authenticated-data flag exactly for secure answers"],
	}
}
pub fn c20() -> Prop {
	Prop {
		id: "C20",
		rule: "a case is non-trivial when a response of at least a header was decoded by both readers",
		tests: vec![
			Test { name: "responses", quick: 600_000, thorough: 20_000_000, run: responses },
			Test { name: "large", quick: 1_500, thorough: 60_000, run: large },
			Test { name: "header", quick: 40_000, thorough: 2_000_000, run: header },
		],
		known: vec![],
		assumptions: vec!["either outcome is accepted for non-canonical type bitmaps, TXT data without a string, forward or very long pointer chains, malformed additional sections, trailing data, and unreadable authority records that contribute nothing"],
	}
}
