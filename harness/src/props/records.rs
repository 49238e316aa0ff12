//! C02 to C06: records, names, ordering and JSON.

use crate::engine::*;
use crate::model::{conv, gen, json, name::MName, rr::*, wire};
use dnssec_prover::rr as s;
use dnssec_prover::rr::{Name, Record, RR};
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use std::cmp::Ordering;
use std::collections::BTreeSet;

fn sut_rec(r: &Rec) -> Result<RR, String> { sut(|| conv::to_sut(r)) }
fn write_any(rr: &RR, ttl: u32) -> Result<(Vec<u8>, Vec<u8>), String> {
	// Through the enum and through the record's own type.
	let mut a = Vec::new();
	sut(|| write_rr(rr, ttl, &mut a))?;
	let mut b = Vec::new();
	sut(|| match rr {
		RR::A(x) => write_rr(x, ttl, &mut b), RR::AAAA(x) => write_rr(x, ttl, &mut b), RR::NS(x) => write_rr(x, ttl, &mut b),
		RR::Txt(x) => write_rr(x, ttl, &mut b), RR::CName(x) => write_rr(x, ttl, &mut b), RR::DName(x) => write_rr(x, ttl, &mut b),
		RR::TLSA(x) => write_rr(x, ttl, &mut b), RR::DnsKey(x) => write_rr(x, ttl, &mut b), RR::DS(x) => write_rr(x, ttl, &mut b),
		RR::RRSig(x) => write_rr(x, ttl, &mut b), RR::NSec(x) => write_rr(x, ttl, &mut b), RR::NSec3(x) => write_rr(x, ttl, &mut b),
	})?;
	Ok((a, b))
}
fn diff(got: &[u8], want: &[u8]) -> String {
	let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
	let w = |b: &[u8]| hex(&b[at.saturating_sub(4).min(b.len())..(at + 12).min(b.len())]);
	format!("{} bytes, expected {}; first difference at {}: ..{}.. expected ..{}..", got.len(), want.len(), at, w(got), w(want))
}
fn size_class(r: &Rec) -> &'static str {
	match r.d.rdata().len() { 0..=255 => "record data up to 255 bytes", 256..=4096 => "record data up to 4096 bytes", _ => "record data over 4096 bytes" }
}

// ---------------------------------------------------------------------------------------------------------- C02

fn roundtrip(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let n = *sr.pick(&[1usize, 1, 1, 2, 3, 6]);
	let recs: Vec<(Rec, u32)> = (0..n).map(|_| (gen::rec(sr), gen::ttl(sr))).collect();
	c.note(|| recs.iter().map(|(r, t)| format!("{} ttl {}", show(r), t)).collect::<Vec<_>>().join("; "));
	let mut all = Vec::new();
	let mut rrs = Vec::new();
	for (r, ttl) in &recs {
		c.label(ty_name(r.ty()));
		c.label(size_class(r));
		let rr = sut_rec(r)?;
		let (a, b) = write_any(&rr, *ttl)?;
		let want = r.wire(*ttl);
		if a != want { return Err(format!("{} written as {}", show(r), diff(&a, &want))); }
		if b != want { return Err(format!("{} written through its own type as {}", show(r), diff(&b, &want))); }
		let mut data = Vec::new();
		sut(|| Record::write_u16_len_prefixed_data(&rr, &mut data))?;
		let rd = r.d.rdata();
		let mut want = (rd.len() as u16).to_be_bytes().to_vec();
		want.extend(rd);
		if data != want { return Err(format!("data of {} written as {}", show(r), diff(&data, &want))); }
		if sut(|| (Record::ty(&rr), Record::name(&rr).clone()))? != (r.ty(), sut(|| conv::name_in(&r.name))?) { return Err(format!("type or name of {} reported wrongly", show(r))); }
		let one = sut(|| parse_rr_stream(&a))?.map_err(|_| format!("{} does not parse back from {}", show(r), hex(&a[..a.len().min(300)])))?;
		if one.len() != 1 || one[0] != rr { return Err(format!("{} parses back as {}", show(r), show_all(&one.iter().map(conv::from_sut).collect::<Vec<_>>()))); }
		if conv::from_sut(&one[0]) != *r { return Err(format!("{} parses back as {}", show(r), show(&conv::from_sut(&one[0])))); }
		c.nontrivial(hash_bytes(&a));
		all.extend(a);
		rrs.push(rr);
	}
	let back = sut(|| parse_rr_stream(&all))?.map_err(|_| format!("the concatenation of {} does not parse", show_all(&recs.iter().map(|x| x.0.clone()).collect::<Vec<_>>())))?;
	if back != rrs { return Err(format!("{} records parse back as {}", recs.len(), show_all(&back.iter().map(conv::from_sut).collect::<Vec<_>>()))); }
	Ok(())
}
fn type_sets(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let mut v: Vec<u16> = gen::types(sr).into_iter().collect();
	if sr.chance(1, 3) { let x = v.clone(); v.extend(x.into_iter().take(3)); }
	sr.shuffle(&mut v);
	let set: BTreeSet<u16> = v.iter().copied().collect();
	let m = sut(|| s::NSecTypeMask::from_types(&v))?;
	let got = sut(|| conv::types_out(&m))?;
	if got != set { return Err(format!("from_types({:?}) contains {:?}", v, got)); }
	if set.is_empty() != sut(|| m == s::NSecTypeMask::new())? { return Err(format!("from_types({:?}) compares wrongly with the empty mask", v)); }
	c.note(|| format!("{:?}", v));
	if set.len() > 1 { c.nontrivial(hash_bytes(format!("{:?}", v).as_bytes())); }
	// Through a record, so that the encoding of the set is exercised too.
	let r = Rec { name: MName::of("a."), d: D::Nsec(MName::of("b."), set.clone()) };
	let rr: RR = sut(|| s::NSec { name: "a.".try_into().unwrap(), next_name: "b.".try_into().unwrap(), types: m }.into())?;
	let mut out = Vec::new();
	sut(|| write_rr(&rr, 5, &mut out))?;
	if out != r.wire(5) { return Err(format!("types {:?} written as {}", set, diff(&out, &r.wire(5)))); }
	Ok(())
}
const TXT_CHUNKS: &str = "txt-chunk-boundaries";
fn txt_chunks_probe() -> Result<Option<String>, String> {
	// A TXT record of two strings, "ab" and "cd". Its canonical form, which signatures cover, keeps the two strings.
	let wire = raw_rr(&MName::of("a.").wire(), TXT, 1, 5, b"\x02ab\x02cd");
	let v = sut(|| parse_rr_stream(&wire))?;
	let Ok(v) = v else { return Ok(None) };
	let mut out = Vec::new();
	sut(|| write_rr(&v[0], 5, &mut out))?;
	Ok(if out == wire { None } else { Some(format!("a TXT record of the strings \"ab\" \"cd\" is written back as {}", hex(&out[13..]))) })
}
pub fn c02() -> Prop {
	Prop {
		id: "C02",
		rule: "a record whose bytes were compared with the reference encoding and parsed back (every case; distinctness is by the bytes written), or a type list with more than one type",
		tests: vec![
			Test { name: "roundtrip", quick: 300_000, thorough: 3_000_000, run: roundtrip },
			Test { name: "type_sets", quick: 20_000, thorough: 200_000, run: type_sets },
		],
		known: vec![Known { id: TXT_CHUNKS, probe: txt_chunks_probe }],
		assumptions: vec![
			"record data of up to 65535 bytes, names of up to 255 wire bytes; beyond that no wire form exists",
			"TXT text is generated as the crate stores it, one byte string split into 255-byte strings; other splits are the listed known finding",
		],
	}
}

// ---------------------------------------------------------------------------------------------------------- C03

pub fn compare_stream(bytes: &[u8], c: &mut Ctx) -> Result<bool, String> {
	let (want, soft) = wire::stream(bytes);
	let got = sut(|| parse_rr_stream(bytes)).map_err(|e| format!("{}; input {}", e, hex(&bytes[..bytes.len().min(400)])))?;
	match (&want, &got) {
		(Ok(w), Ok(g)) => {
			c.label("accepted");
			let g: Vec<Rec> = sut(|| g.iter().map(conv::from_sut).collect())?;
			let w: Vec<Rec> = w.iter().map(|x| x.0.clone()).collect();
			let strip = |v: &[Rec]| -> Vec<Rec> { v.iter().cloned().map(|mut r| { if soft.is_some() { match &mut r.d { D::Nsec(_, t) => t.clear(), D::Nsec3(n) => n.types.clear(), _ => {} } } r }).collect() };
			if strip(&g) != strip(&w) { return Err(format!("parsed as {}\nbut the bytes state {}\ninput {}", show_all(&g), show_all(&w), hex(&bytes[..bytes.len().min(400)]))); }
			Ok(true)
		},
		(Err(e), Err(_)) => { c.label(format!("rejected: {}", e)); Ok(false) },
		(Ok(w), Err(_)) => {
			if soft.is_some() { c.label("rejected, either outcome allowed"); return Ok(false); }
			Err(format!("rejected, but it states {}\ninput {}", show_all(&w.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), hex(&bytes[..bytes.len().min(400)])))
		},
		(Err(e), Ok(g)) => Err(format!("accepted as {} although: {}\ninput {}", show_all(&g.iter().map(conv::from_sut).collect::<Vec<_>>()), e, hex(&bytes[..bytes.len().min(400)]))),
	}
}
/// A name in wire form that may be broken in one of the ways names can be.
pub fn odd_name(sr: &mut Src) -> Vec<u8> {
	let mut n = gen::name(sr);
	if n.0.is_empty() { n = MName::of("ab.c."); }
	let mut o = Vec::new();
	let how = sr.below(12);
	let at = sr.usize(0, n.0.len() - 1);
	for (i, l) in n.0.iter().enumerate() {
		let mut l = l.clone();
		let mut len = l.len() as u8;
		if i == at {
			let p = sr.usize(0, l.len() - 1);
			match how {
				0 => l[p] = *sr.pick(b". \"\x00\x7f\x1f\x80\xff\t"),
				1 => { let c = l[p]; l[p] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { b'Q' }; },
				2 => { len = *sr.pick(&[64u8, 65, 127, 128, 191]); l.resize(len as usize, b'a'); },
				3 => len = 0,
				4 => { o.push(0xc0 | sr.below(64) as u8); o.push(sr.u8()); return o; },
				5 => { len = *sr.pick(&[0xc0u8, 0xc1, 0xff]); },
				6 => { // valid UTF-8, not ASCII
					l = "é".as_bytes().to_vec(); len = 2; },
				7 => len = len.wrapping_add(1),
				8 => len = len.saturating_sub(1),
				9 => { l = vec![b'a'; 63]; len = 63; },
				10 => l = l.iter().flat_map(|x| [*x, b'.']).take(l.len()).collect(),
				_ => {},
			}
		}
		o.push(len);
		o.extend(l);
	}
	if how == 11 { for _ in 0..4 { o.push(63); o.extend(vec![b'k'; 63]); } }
	if !sr.chance(1, 8) { o.push(0); }
	o
}
fn odd_bitmap(sr: &mut Src) -> Vec<u8> {
	let mut o = Vec::new();
	for _ in 0..sr.usize(0, 3) {
		o.push(*sr.pick(&[0u8, 1, 2, 254, 255]));
		let n = *sr.pick(&[1usize, 2, 32, 0, 31, 33, 34, 64, 255]);
		o.push(n as u8);
		let k = if sr.chance(1, 6) { n.saturating_sub(1) } else { n };
		let mut b = sr.bytes(k);
		if let Some(l) = b.last_mut() { if sr.chance(3, 4) { *l |= 1; } }
		o.extend(b);
	}
	o
}
fn odd_rdata(sr: &mut Src, ty: u16) -> Vec<u8> {
	let mut d = match ty {
		NS | CNAME | DNAME => odd_name(sr),
		NSEC => { let mut o = if sr.bool() { gen::name(sr).wire() } else { odd_name(sr) }; o.extend(odd_bitmap(sr)); o },
		NSEC3 => {
			let mut o = sr.bytes(4);
			for _ in 0..2 {
				let n = sr.usize(0, 24);
				let claim = if sr.chance(1, 8) { n + 1 } else { n };
				o.push(claim as u8);
				o.extend(sr.bytes(n));
			}
			o.extend(odd_bitmap(sr));
			o
		},
		RRSIG => { let mut o = sr.bytes(18); o.extend(odd_name(sr)); let n = gen::len_biased(sr, 600); o.extend(sr.bytes(n)); o },
		TXT => {
			let mut o = Vec::new();
			for _ in 0..sr.usize(0, 4) { let n = *sr.pick(&[3usize, 0, 1, 255, 254]); let claim = if sr.chance(1, 8) { n + 1 } else { n }; o.push(claim.min(255) as u8); o.extend(sr.bytes(n)); }
			o
		},
		_ => { let n = match ty { A => 4, AAAA => 16, TLSA => 3, DNSKEY => 4, DS => 4, _ => 6 }; let n = (n + sr.usize(0, 4)).saturating_sub(2); sr.bytes(n) },
	};
	match sr.below(8) {
		0 => { let n = sr.usize(1, 3); d.extend(sr.bytes(n)); },
		1 => { let n = sr.usize(1, 3); let l = d.len().saturating_sub(n); d.truncate(l); },
		_ => {},
	}
	d
}
pub fn odd_record(sr: &mut Src) -> Vec<u8> {
	let owner = if sr.chance(1, 3) { odd_name(sr) } else { gen::name(sr).wire() };
	let ty = if sr.chance(1, 12) { *sr.pick(&[0u16, 3, 4, 6, 12, 15, 17, 25, 27, 29, 33, 38, 41, 42, 44, 45, 49, 51, 53, 59, 255, 256, 257, 0x1001, 0x3200, 65535]) } else { *sr.pick(&SUPPORTED) };
	let class = if sr.chance(1, 16) { *sr.pick(&[0u16, 2, 3, 4, 254, 255, 256, 0x8001]) } else { 1 };
	let ttl = gen::ttl(sr);
	let rd = odd_rdata(sr, ty);
	let mut r = raw_rr(&owner, ty, class, ttl, &rd);
	if sr.chance(1, 8) {
		// A data length that disagrees with what follows.
		let at = owner.len() + 8;
		let l = (rd.len() as i64 + *sr.pick(&[1i64, -1, 2, -2, 256, -256, 65000])).clamp(0, 65535) as u16;
		r[at..at + 2].copy_from_slice(&l.to_be_bytes());
	}
	r
}
fn crafted(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let mut b = Vec::new();
	for _ in 0..*sr.pick(&[1usize, 1, 2, 3]) {
		if sr.chance(1, 3) { let r = gen::rec(sr); b.extend(r.wire(gen::ttl(sr))); } else { b.extend(odd_record(sr)); }
	}
	c.note(|| hex(&b[..b.len().min(200)]));
	c.nontrivial(hash_bytes(&b));
	compare_stream(&b, c)?;
	Ok(())
}
pub fn mutate(sr: &mut Src, b: &mut Vec<u8>) {
	for _ in 0..*sr.pick(&[1usize, 1, 2, 4]) {
		if b.is_empty() { return; }
		let p = sr.usize(0, b.len() - 1);
		match sr.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
			0 => b[p] = sr.u8(),
			1 => b[p] = b[p].wrapping_add(*sr.pick(&[1u8, 255, 128, 32, 64])),
			2 => { b.remove(p); },
			3 => { let v = *sr.pick(&[0u8, 1, 0x2e, 0x3f, 0x40, 0xc0, 0xff]); b.insert(p, v); },
			4 => b.truncate(p),
			5 => { let n = sr.usize(1, 4); let v = sr.bytes(n); b.extend(v); },
			_ => { let n = sr.usize(1, 8).min(b.len() - p); let x = b[p..p + n].to_vec(); let q = sr.usize(0, b.len()); for (i, v) in x.into_iter().enumerate() { b.insert(q + i, v); } },
		}
	}
}
fn mutated(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let n = *sr.pick(&[1usize, 1, 2, 3]);
	let mut b = Vec::new();
	for _ in 0..n { let r = gen::rec(sr); b.extend(r.wire(gen::ttl(sr))); }
	if b.len() > 3000 { b.truncate(3000); }
	if sr.chance(15, 16) { mutate(sr, &mut b); }
	c.note(|| hex(&b[..b.len().min(200)]));
	c.nontrivial(hash_bytes(&b));
	compare_stream(&b, c)?;
	Ok(())
}
/// Every prefix of a valid stream: accepted exactly at record boundaries.
fn prefixes(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let n = *sr.pick(&[2usize, 1, 3]);
	let mut b = Vec::new();
	let mut ends = vec![0];
	let mut recs = Vec::new();
	while recs.len() < n {
		let r = gen::rec(sr);
		let w = r.wire(gen::ttl(sr));
		if w.len() > 700 { if recs.is_empty() { return Ok(()); } break; }
		b.extend(w);
		ends.push(b.len());
		recs.push(r);
	}
	c.note(|| show_all(&recs));
	for i in 0..=b.len() {
		let got = sut(|| parse_rr_stream(&b[..i]))?;
		match ends.iter().position(|e| *e == i) {
			Some(k) => {
				let got: Vec<Rec> = got.map_err(|_| format!("the first {} records rejected: {}", k, show_all(&recs[..k])))?.iter().map(conv::from_sut).collect();
				if got != recs[..k] { return Err(format!("parsed as {} instead of {}", show_all(&got), show_all(&recs[..k]))); }
			},
			// A cut may leave something that is complete by itself only if the reference says so.
			None => if let Ok(g) = got {
				if wire::stream(&b[..i]).0.is_err() { return Err(format!("a stream cut after {} of {} bytes is accepted as {}\ninput {}", i, b.len(), show_all(&g.iter().map(conv::from_sut).collect::<Vec<_>>()), hex(&b[..i]))); }
			},
		}
	}
	c.nontrivial(hash_bytes(&b));
	Ok(())
}
pub fn c03() -> Prop {
	Prop {
		id: "C03",
		rule: "a byte string on which the crate's verdict and fields were compared with the strict reference decoder; distinct by the bytes",
		tests: vec![
			Test { name: "crafted", quick: 800_000, thorough: 6_000_000, run: crafted },
			Test { name: "mutated", quick: 500_000, thorough: 4_000_000, run: mutated },
			Test { name: "prefixes", quick: 20_000, thorough: 150_000, run: prefixes },
		],
		known: vec![],
		assumptions: vec![
			"non-canonical NSEC type bitmaps and TXT data without any string may be accepted or rejected; if accepted every other field is still compared",
			"a name may have up to 255 bytes of text, as the crate documents, although RFC 1035 allows 253",
		],
	}
}

// ---------------------------------------------------------------------------------------------------------- C04

/// The documented rule for textual names.
pub fn text_valid(t: &str) -> bool {
	if t.len() > 255 || !t.ends_with('.') { return false; }
	if t == "." { return true; }
	if t.chars().any(|c| !('!'..='~').contains(&c) || c == '"') { return false; }
	t[..t.len() - 1].split('.').all(|l| !l.is_empty() && l.len() <= 63)
}
pub fn text(sr: &mut Src) -> String {
	let mut t = gen::name(sr).text();
	if sr.chance(1, 2) {
		for _ in 0..sr.usize(1, 2) {
			let p = sr.usize(0, t.len());
			match sr.below(12) {
				0 => t.insert(p, '.'),
				1 => { t.pop(); },
				2 => t.insert(p, *sr.pick(&[' ', '"', '\u{7f}', '\n', '\0', 'é', '\u{130}', '\u{212a}', '\t', '~', '!', '\\', '/', '*', '_', '\u{ff0e}', '\u{3002}'])),
				3 => t.insert(0, '.'),
				4 => t = t.to_uppercase(),
				5 => t.push('.'),
				6 => { let n = sr.usize(60, 65); t.insert_str(p, &"k".repeat(n)); },
				7 => { while t.len() < sr.usize(252, 257) { t.insert_str(0, "m."); } },
				8 => { let n = *sr.pick(&[254usize, 255, 256, 257, 300]); while t.len() < n { t.insert(0, if t.len() % 7 == 0 { '.' } else { 'w' }); } },
				9 => t = String::new(),
				10 => t = ".".repeat(sr.usize(1, 4)),
				_ => { let k = t.char_indices().nth(p % t.chars().count().max(1)).map(|x| x.0); if let Some(k) = k { t.remove(k); } },
			}
			while !t.is_char_boundary(p.min(t.len())) { t.pop(); }
			if !t.is_ascii() { break; }
		}
	} else if sr.bool() {
		t = t.chars().map(|c| if sr.bool() { c.to_ascii_uppercase() } else { c }).collect();
	}
	t
}
fn names(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let t = text(sr);
	c.note(|| format!("{:?}", t));
	let want = text_valid(&t);
	let got = sut(|| Name::try_from(t.as_str()))?;
	let got2 = sut(|| Name::try_from(t.clone()))?;
	if got.is_ok() != want { return Err(format!("{:?} ({} bytes) is {}", t, t.len(), if want { "rejected" } else { "accepted" })); }
	if got != got2 { return Err(format!("{:?} is treated differently as &str and String", t)); }
	c.label(if want { "valid" } else { "invalid" });
	c.nontrivial(hash_bytes(t.as_bytes()));
	let Ok(n) = got else { return Ok(()) };
	let low = t.to_ascii_lowercase();
	if n.as_str() != low || &*n != low.as_str() || format!("{}", n) != low { return Err(format!("{:?} is kept as {:?}", t, n.as_str())); }
	let model = MName::of(&low);
	if sut(|| n.labels())? as usize != model.labels() { return Err(format!("{:?} has {} labels, reported {}", t, model.labels(), n.labels())); }
	for k in 0..=255u8 {
		let got = sut(|| n.trailing_n_labels(k).map(|x| x.to_owned()))?;
		let want = if k as usize <= model.labels() { Some(model.suffix(k as usize).text()) } else { None };
		if got != want { return Err(format!("the last {} labels of {:?} are reported as {:?}, expected {:?}", k, t, got, want)); }
		if let Some(x) = got {
			if k as usize == model.labels() && k > 20 { continue; }
			let y = sut(|| Name::try_from(x.as_str()))?.map_err(|_| format!("the last {} labels of {:?} are not a valid name", k, t))?;
			if sut(|| y.labels())? != k { return Err(format!("{:?} has label count {}", x, y.labels())); }
		}
	}
	// Case-insensitive equality, hashing out the original spelling.
	let swapped: String = t.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
	match sut(|| Name::try_from(swapped.as_str()))? {
		Ok(m) => if m != n || m.cmp(&n) != Ordering::Equal { return Err(format!("{:?} and {:?} are different names", t, swapped)); },
		Err(()) => return Err(format!("{:?} is accepted but {:?} is not", t, swapped)),
	}
	Ok(())
}
fn wire_names(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	// Names reached by parsing obey the same rules.
	let b = raw_rr(&odd_name(sr), A, 1, 5, &[1, 2, 3, 4]);
	c.note(|| hex(&b));
	c.nontrivial(hash_bytes(&b));
	if compare_stream(&b, c)? {
		let v = sut(|| parse_rr_stream(&b))?.map_err(|_| "differs on the second call")?;
		let n = v[0].name();
		if !text_valid(n.as_str()) || n.as_str() != n.as_str().to_ascii_lowercase() { return Err(format!("a parsed record has the name {:?}", n.as_str())); }
	}
	Ok(())
}
pub fn c04() -> Prop {
	Prop {
		id: "C04",
		rule: "a text (or wire name) whose acceptance was compared with the documented rule, and for accepted ones every label count and suffix; distinct by the text",
		tests: vec![
			Test { name: "names", quick: 400_000, thorough: 3_000_000, run: names },
			Test { name: "wire_names", quick: 300_000, thorough: 2_000_000, run: wire_names },
		],
		known: vec![],
		assumptions: vec![],
	}
}

// ---------------------------------------------------------------------------------------------------------- C05

fn ops_agree<T: Ord + Clone>(x: &T, y: &T) -> Result<Ordering, String> {
	let o = sut(|| x.cmp(y))?;
	let p = sut(|| x.partial_cmp(y))?;
	if p != Some(o) { return Err(format!("cmp is {:?} but partial_cmp is {:?}", o, p)); }
	let v = sut(|| (x < y, x <= y, x > y, x >= y, x == y, x != y))?;
	let w = (o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less, o == Ordering::Equal, o != Ordering::Equal);
	if v != w { return Err(format!("cmp is {:?} but the operators < <= > >= == != give {:?}", o, v)); }
	let m = sut(|| (x.max(y) == if o == Ordering::Greater { x } else { y }, x.min(y) == if o == Ordering::Greater { y } else { x }))?;
	if m != (true, true) { return Err(format!("min or max disagree with cmp {:?}", o)); }
	Ok(o)
}
fn typed_cmp(x: &RR, y: &RR) -> Result<Option<Ordering>, String> {
	Ok(match (x, y) {
		(RR::A(a), RR::A(b)) => Some(ops_agree(a, b)?), (RR::AAAA(a), RR::AAAA(b)) => Some(ops_agree(a, b)?), (RR::NS(a), RR::NS(b)) => Some(ops_agree(a, b)?),
		(RR::Txt(a), RR::Txt(b)) => Some(ops_agree(a, b)?), (RR::TLSA(a), RR::TLSA(b)) => Some(ops_agree(a, b)?), (RR::CName(a), RR::CName(b)) => Some(ops_agree(a, b)?),
		(RR::DName(a), RR::DName(b)) => Some(ops_agree(a, b)?), (RR::DnsKey(a), RR::DnsKey(b)) => Some(ops_agree(a, b)?), (RR::DS(a), RR::DS(b)) => Some(ops_agree(a, b)?),
		(RR::RRSig(a), RR::RRSig(b)) => Some(ops_agree(a, b)?), (RR::NSec(a), RR::NSec(b)) => Some(ops_agree(a, b)?), (RR::NSec3(a), RR::NSec3(b)) => Some(ops_agree(a, b)?),
		_ => None,
	})
}
fn order(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let n = sr.usize(2, 5);
	let mut v = gen::siblings(sr, n);
	let ty = v[0].ty();
	c.label(ty_name(ty));
	if sr.chance(1, 4) { let x = gen::rec(sr); v.push(x); }
	if sr.chance(1, 4) { let mut x = v[0].clone(); x.name = gen::name(sr); v.push(x); }
	if sr.chance(1, 4) { v.push(v[0].clone()); }
	c.note(|| show_all(&v));
	let rr: Vec<RR> = v.iter().map(sut_rec).collect::<Result<_, _>>()?;
	let mut m = vec![vec![Ordering::Equal; v.len()]; v.len()];
	let mut shared = false;
	for i in 0..v.len() { for j in 0..v.len() {
		let o = ops_agree(&rr[i], &rr[j]).map_err(|e| format!("{}: {} and {}", e, show(&v[i]), show(&v[j])))?;
		if let Some(t) = typed_cmp(&rr[i], &rr[j]).map_err(|e| format!("{}: {} and {}", e, show(&v[i]), show(&v[j])))? {
			if t != o { return Err(format!("{} and {} compare {:?} as records but {:?} as their own type", show(&v[i]), show(&v[j]), o, t)); }
		}
		m[i][j] = o;
		if (o == Ordering::Equal) != (v[i] == v[j]) { return Err(format!("{} and {} compare {:?}", show(&v[i]), show(&v[j]), o)); }
		if v[i].name == v[j].name && v[i].ty() == v[j].ty() {
			let (a, b) = (v[i].d.rdata(), v[j].d.rdata());
			let want = a.cmp(&b);
			if i != j && want != Ordering::Equal { shared = true; }
			if o != want { return Err(format!("{} and {} compare {:?}, but their encoded data {} and {} compare {:?}", show(&v[i]), show(&v[j]), o, hex(&a[..a.len().min(80)]), hex(&b[..b.len().min(80)]), want)); }
		}
	} }
	for i in 0..v.len() { for j in 0..v.len() {
		if m[i][j] != m[j][i].reverse() { return Err(format!("{} and {} compare {:?} one way and {:?} the other", show(&v[i]), show(&v[j]), m[i][j], m[j][i])); }
		for k in 0..v.len() {
			if m[i][j] != Ordering::Greater && m[j][k] != Ordering::Greater && m[i][k] == Ordering::Greater { return Err(format!("not transitive: {}", show_all(&[v[i].clone(), v[j].clone(), v[k].clone()]))); }
		}
	} }
	// Sorting from different starting orders, by every standard means.
	let mut a = rr.clone();
	sut(|| a.sort())?;
	for _ in 0..3 {
		let mut b = rr.clone();
		sr.shuffle(&mut b);
		sut(|| b.sort_unstable())?;
		if a != b { return Err(format!("the result of sorting depends on the starting order: {} or {}", show_all(&a.iter().map(conv::from_sut).collect::<Vec<_>>()), show_all(&b.iter().map(conv::from_sut).collect::<Vec<_>>()))); }
		let mut b: Vec<&RR> = rr.iter().collect();
		sr.shuffle(&mut b);
		sut(|| b.sort_unstable())?;
		if a.iter().collect::<Vec<_>>() != b { return Err("the result of sorting references depends on the starting order".into()); }
	}
	let set: BTreeSet<RR> = sut(|| rr.iter().cloned().collect())?;
	if set.len() != v.iter().collect::<BTreeSet<_>>().len() { return Err("an ordered set of the records has the wrong size".into()); }
	if shared { c.label("different data at one owner and type"); c.nontrivial(hash_bytes(&stream(&v, 0))); }
	Ok(())
}
fn names_order(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let v: Vec<MName> = (0..3).map(|_| gen::name(sr)).collect();
	c.note(|| v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" "));
	let n: Vec<Name> = sut(|| v.iter().map(conv::name_in).collect())?;
	for i in 0..3 { for j in 0..3 {
		let o = ops_agree(&n[i], &n[j])?;
		if (o == Ordering::Equal) != (v[i] == v[j]) || o != ops_agree(&n[j], &n[i])?.reverse() { return Err(format!("{} and {} compare {:?}", v[i].text(), v[j].text(), o)); }
	} }
	if n[0] <= n[1] && n[1] <= n[2] && n[0] > n[2] { return Err("name order is not transitive".into()); }
	c.nontrivial(hash_bytes(format!("{:?}", v).as_bytes()));
	Ok(())
}
pub fn c05() -> Prop {
	Prop {
		id: "C05",
		rule: "a set containing two records of the same owner and type with different data, compared pairwise against unsigned byte order of their encoded data and sorted from shuffled starts; or three names compared pairwise",
		tests: vec![
			Test { name: "order", quick: 150_000, thorough: 2_500_000, run: order },
			Test { name: "names_order", quick: 60_000, thorough: 500_000, run: names_order },
		],
		known: vec![],
		assumptions: vec!["no particular order is demanded between records of different owners or types, only that it is a total order"],
	}
}

// ---------------------------------------------------------------------------------------------------------- C06

pub fn check_json(text: &str, r: &Rec) -> Result<(), String> {
	let j = json::parse(text).map_err(|e| format!("not valid JSON ({}): {}", e, &text.chars().take(400).collect::<String>()))?;
	check_value(&j, r).map_err(|e| format!("{}; JSON {}", e, &text.chars().take(400).collect::<String>()))
}
pub fn check_value(j: &json::J, r: &Rec) -> Result<(), String> {
	let st = |k: &str, want: &str| -> Result<(), String> {
		match j.get(k).and_then(|x| x.str()) { Some(x) if x == want => Ok(()), x => Err(format!("field {} is {:?}, expected {:?}", k, x, want)) }
	};
	let num = |k: &str, want: u64| -> Result<(), String> {
		match j.get(k).and_then(|x| x.u64()) { Some(x) if x == want => Ok(()), x => Err(format!("field {} is {:?}, expected {}", k, x, want)) }
	};
	let hexf = |k: &str, want: &[u8]| -> Result<(), String> {
		match j.get(k).and_then(|x| x.str()) { Some(x) if x.to_ascii_lowercase() == hex(want) => Ok(()), x => Err(format!("field {} is {:?}, expected hex of {} bytes", k, x.map(|x| x.chars().take(60).collect::<String>()), want.len())) }
	};
	let arr = |k: &str, want: &[u8]| -> Result<(), String> {
		match j.get(k).and_then(|x| x.bytes()) { Some(x) if x == want => Ok(()), x => Err(format!("field {} is {:?}, expected {:?}", k, x.map(|x| x.into_iter().take(40).collect::<Vec<_>>()), &want[..want.len().min(40)])) }
	};
	let types = |want: &BTreeSet<u16>| -> Result<(), String> {
		let a = j.get("types").and_then(|x| x.arr()).ok_or("no types")?;
		let mut got = BTreeSet::new();
		for x in a {
			let t = match (x.u64(), x.str()) {
				(Some(n), _) if n < 65536 => n as u16,
				(_, Some(n)) => *SUPPORTED.iter().find(|t| ty_name(**t) == n).ok_or(format!("unknown type name {:?}", n))?,
				_ => return Err("bad element of types".into()),
			};
			if !got.insert(t) { return Err(format!("type {} listed twice", t)); }
		}
		if got == *want { Ok(()) } else { Err(format!("types {:?}, expected {:?}", got, want)) }
	};
	let count = |n: usize| -> Result<(), String> {
		if let json::J::Obj(v) = j {
			let mut keys: Vec<&str> = v.iter().map(|x| x.0.as_str()).collect();
			keys.sort(); keys.dedup();
			if keys.len() != v.len() { return Err("a field appears twice".into()); }
			if v.len() != n { return Err(format!("{} fields, expected {}", v.len(), n)); }
			Ok(())
		} else { Err("not an object".into()) }
	};
	let kind = match r.ty() { A => "a", AAAA => "aaaa", NS => "ns", CNAME => "cname", TXT => "txt", DNAME => "dname", DS => "ds", RRSIG => "rrsig", NSEC => "nsec", DNSKEY => "dnskey", NSEC3 => "nsec3", _ => "tlsa" };
	st("type", kind)?;
	st("name", &r.name.text())?;
	match &r.d {
		D::A(a) => { arr("address", a)?; count(3) },
		D::Aaaa(a) => { arr("address", a)?; count(3) },
		D::Ns(n) => { st("ns", &n.text())?; count(3) },
		D::Cname(n) => { st("canonical_name", &n.text())?; count(3) },
		D::Dname(n) => { st("delegation_name", &n.text())?; count(3) },
		D::Txt(t) => {
			match j.get("contents") {
				Some(json::J::Str(x)) => if x.as_bytes() != &t[..] { return Err("contents differ".into()); },
				Some(json::J::Arr(_)) => arr("contents", t)?,
				_ => return Err("no contents".into()),
			}
			count(3)
		},
		D::Tlsa(a, b, x, d) => { num("usage", *a as u64)?; num("selector", *b as u64)?; num("data_ty", *x as u64)?; hexf("data", d)?; count(6) },
		D::Key(k) => { num("flags", k.flags as u64)?; num("protocol", k.proto as u64)?; num("alg", k.alg as u64)?; hexf("pubkey", &k.key)?; count(6) },
		D::Ds(d) => { num("key_tag", d.tag as u64)?; num("alg", d.alg as u64)?; num("digest_type", d.dt as u64)?; hexf("digest", &d.digest)?; count(6) },
		D::Sig(g) => {
			num("signed_record_type", g.ty as u64)?; num("alg", g.alg as u64)?; num("signed_labels", g.labels as u64)?; num("orig_ttl", g.ttl as u64)?;
			num("expiration", g.exp as u64)?; num("inception", g.inc as u64)?; num("key_tag", g.tag as u64)?; st("key_name", &g.signer.text())?; hexf("signature", &g.sig)?;
			count(11)
		},
		D::Nsec(n, t) => { st("next_name", &n.text())?; types(t)?; count(4) },
		D::Nsec3(n) => { num("hash_algo", n.alg as u64)?; num("flags", n.flags as u64)?; num("hash_iterations", n.iters as u64)?; arr("salt", &n.salt)?; arr("next_name_hash", &n.next)?; types(&n.types)?; count(8) },
	}
}
fn json_form(sr: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let r = gen::rec(sr);
	c.note(|| show(&r));
	c.label(ty_name(r.ty()));
	let rr = sut_rec(&r)?;
	let a = sut(|| rr.json())?;
	let b = sut(|| Record::json(&rr))?;
	let t = sut(|| match &rr {
		RR::A(x) => Record::json(x), RR::AAAA(x) => Record::json(x), RR::NS(x) => Record::json(x), RR::Txt(x) => Record::json(x), RR::TLSA(x) => Record::json(x), RR::CName(x) => Record::json(x),
		RR::DName(x) => Record::json(x), RR::DnsKey(x) => Record::json(x), RR::DS(x) => Record::json(x), RR::RRSig(x) => Record::json(x), RR::NSec(x) => Record::json(x), RR::NSec3(x) => Record::json(x),
	})?;
	if a != b || a != t { return Err(format!("the JSON of {} depends on how it is asked for", show(&r))); }
	c.nontrivial(hash_bytes(a.as_bytes()));
	check_json(&a, &r).map_err(|e| format!("{}: {}", show(&r), e))
}
pub fn c06() -> Prop {
	Prop {
		id: "C06",
		rule: "a record whose JSON was parsed by a strict parser and compared with the record field by field; distinct by the JSON text",
		tests: vec![Test { name: "json_form", quick: 300_000, thorough: 3_000_000, run: json_form }],
		known: vec![],
		assumptions: vec!["field names are those the crate has always used; TXT contents may be a JSON string or an array of bytes"],
	}
}
