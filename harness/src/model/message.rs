//! Resolver messages: an encoder with name compression and a strict reference decoder.

use super::name::MName;
use super::rr::*;
use super::wire::{self, Rd, Res};
use crate::engine::Src;
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Msg {
	pub id: u16,
	pub flags: u16,
	pub questions: Vec<(MName, u16, u16)>,
	pub answer: Vec<(Rec, u32)>,
	pub authority: Vec<(Rec, u32)>,
	/// Records after the authority section, already encoded.
	pub additional: Vec<Vec<u8>>,
}
pub const QR: u16 = 0x8000;
pub const AA: u16 = 0x0400;
pub const TC: u16 = 0x0200;
pub const RD: u16 = 0x0100;
pub const RA: u16 = 0x0080;
pub const AD: u16 = 0x0020;

/// How a message is written.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
	/// Compress owner names.
	pub owners: bool,
	/// Compress names in NS, CNAME and DNAME data.
	pub data: bool,
	/// Compress the names in RRSIG and NSEC data too, which RFC 4034 forbids to senders.
	pub dnssec: bool,
	/// Refer to a pointer instead of to the name where possible.
	pub chains: bool,
	/// With `chains`: refer to the longest chain of pointers there is.
	pub deep: bool,
	/// Random upper-case letters.
	pub case: bool,
}
pub fn style(s: &mut Src) -> Style {
	match s.below(4) {
		0 => Style::default(),
		1 => Style { owners: true, ..Default::default() },
		2 => Style { owners: true, data: true, chains: s.bool(), deep: s.chance(1, 4), case: s.bool(), dnssec: false },
		_ => Style { owners: s.bool(), data: s.bool(), dnssec: s.bool(), chains: s.bool(), deep: s.chance(1, 4), case: s.bool() },
	}
}

pub struct Enc { pub b: Vec<u8>, seen: HashMap<MName, usize>, ptrs: HashMap<MName, (usize, usize)>, st: Style }
impl Enc {
	pub fn new(st: Style) -> Enc { Enc { b: Vec::new(), seen: HashMap::new(), ptrs: HashMap::new(), st } }
	pub fn u16(&mut self, v: u16) { self.b.extend_from_slice(&v.to_be_bytes()); }
	pub fn u32(&mut self, v: u32) { self.b.extend_from_slice(&v.to_be_bytes()); }
	pub fn name(&mut self, s: &mut Src, n: &MName, comp: bool) {
		for i in 0..n.0.len() {
			let suffix = MName(n.0[i..].to_vec());
			let at = self.b.len();
			if comp {
				let p = if self.st.chains && (self.st.deep || s.bool()) { self.ptrs.get(&suffix).filter(|p| p.1 < 95).copied() } else { None };
				if let Some((t, d)) = p.or(self.seen.get(&suffix).map(|t| (*t, 0))) {
					if at < 0x4000 { self.ptrs.insert(suffix, (at, d + 1)); }
					self.u16(0xc000 | t as u16);
					return;
				}
			}
			if at < 0x4000 { self.seen.insert(suffix, at); }
			self.b.push(n.0[i].len() as u8);
			for c in &n.0[i] {
				let up = self.st.case && c.is_ascii_lowercase() && s.bool();
				self.b.push(if up { c.to_ascii_uppercase() } else { *c });
			}
		}
		self.b.push(0);
	}
	pub fn rec(&mut self, s: &mut Src, r: &Rec, ttl: u32) {
		let st = self.st;
		self.name(s, &r.name, st.owners);
		self.u16(r.ty());
		self.u16(1);
		self.u32(ttl);
		let lp = self.b.len();
		self.u16(0);
		match &r.d {
			D::Ns(n) | D::Cname(n) | D::Dname(n) => self.name(s, n, st.data),
			D::Sig(g) => {
				let p = sig_prefix(g);
				let l = g.signer.wire().len();
				self.b.extend_from_slice(&p[..p.len() - l]);
				self.name(s, &g.signer, st.dnssec);
				self.b.extend_from_slice(&g.sig);
			},
			D::Nsec(n, t) => { self.name(s, n, st.dnssec); self.b.extend(bitmap(t)); },
			d => self.b.extend(d.rdata()),
		}
		let len = (self.b.len() - lp - 2) as u16;
		self.b[lp..lp + 2].copy_from_slice(&len.to_be_bytes());
	}
}
pub fn opt(size: u16, flags: u16) -> Vec<u8> { let mut o = vec![0, 0, 41]; o.extend_from_slice(&size.to_be_bytes()); o.extend_from_slice(&[0, 0]); o.extend_from_slice(&flags.to_be_bytes()); o.extend_from_slice(&[0, 0]); o }
pub fn encode(s: &mut Src, m: &Msg, st: Style) -> Vec<u8> {
	let mut e = Enc::new(st);
	e.u16(m.id);
	e.u16(m.flags);
	e.u16(m.questions.len() as u16);
	e.u16(m.answer.len() as u16);
	e.u16(m.authority.len() as u16);
	e.u16(m.additional.len() as u16);
	for (n, t, c) in &m.questions { e.name(s, n, false); e.u16(*t); e.u16(*c); }
	for (r, t) in m.answer.iter().chain(&m.authority) { e.rec(s, r, *t); }
	for a in &m.additional { e.b.extend_from_slice(a); }
	e.b
}

/// What an accepted response contributes.
#[derive(Clone, Debug, Default)]
pub struct Contribution { pub recs: Vec<(Rec, u32)>, pub min_ttl: u32 }
impl Contribution {
	pub fn signers(&self) -> std::collections::BTreeSet<MName> { self.recs.iter().filter_map(|(r, _)| if let D::Sig(g) = &r.d { Some(g.signer.clone()) } else { None }).collect() }
	pub fn bytes(&self) -> Vec<u8> { let mut o = Vec::new(); for (r, t) in &self.recs { o.extend(r.wire(*t)); } o }
}
/// Reads a response. The second value tells why a reader may also reject it.
pub fn decode(b: &[u8]) -> (Res<Contribution>, Option<&'static str>) {
	let mut r = Rd::new(b);
	let v = read(&mut r);
	(v, r.soft)
}
fn read(r: &mut Rd) -> Res<Contribution> {
	if r.u16()? != 0 { return Err("another transaction ID than that of the query"); }
	let f = r.u16()?;
	if f & QR == 0 { return Err("not a response"); }
	if f & 0x7800 != 0 { return Err("not a standard query"); }
	if f & TC != 0 { return Err("truncated response"); }
	if f & 0x000f != 0 { return Err("error code"); }
	if f & AD == 0 { return Err("not authenticated"); }
	let (q, an, au, ad) = (r.u16()?, r.u16()?, r.u16()?, r.u16()?);
	if q != 1 { return Err("not one question"); }
	if an == 0 { return Err("no answer"); }
	wire::name(r, true)?;
	r.u16()?;
	r.u16()?;
	let mut c = Contribution { recs: Vec::new(), min_ttl: u32::MAX };
	for _ in 0..an { let x = wire::rr(r, true)?; c.recs.push(x); }
	for _ in 0..au {
		let before = r.pos;
		match wire::rr(r, true) {
			Ok(x) => if matches!(&x.0.d, D::Nsec(..) | D::Nsec3(_)) || matches!(&x.0.d, D::Sig(g) if g.ty == NSEC || g.ty == NSEC3) { c.recs.push(x); },
			Err(e) => {
				// A record that contributes nothing may be skipped without looking into it.
				r.pos = before;
				wire::name(r, true)?;
				let ty = r.u16()?;
				if matches!(ty, RRSIG | NSEC | NSEC3) { return Err(e); }
				r.u16()?;
				r.u32()?;
				let l = r.u16()? as usize;
				r.take(l)?;
				r.soft = Some("authority record that cannot be read but contributes nothing");
			},
		}
	}
	// Nothing is taken from here, so whether it is even looked at is open.
	for _ in 0..ad {
		let ok = (|| -> Res<()> { wire::name(r, true)?; r.take(8)?; let l = r.u16()? as usize; r.take(l)?; Ok(()) })();
		if ok.is_err() { r.soft = Some("malformed additional section"); return Ok(fin(c)); }
	}
	if r.left() > 0 { r.soft = Some("data after the message"); }
	Ok(fin(c))
}
fn fin(mut c: Contribution) -> Contribution { c.min_ttl = c.recs.iter().map(|x| x.1).min().unwrap_or(u32::MAX); c }

/// Reads a query strictly: what a resolver needs to see in order to answer with signatures.
pub fn parse_query(b: &[u8]) -> Result<(MName, u16), String> {
	let mut r = Rd::new(b);
	let q = (|| -> Res<(MName, u16, Option<&'static str>)> {
		let id = r.u16()?;
		if id != 0 { return Err("the transaction ID is not the one responses are checked against"); }
		let f = r.u16()?;
		if f & (QR | 0x7800 | TC | 0x000f) != 0 { return Err("the flags are not those of a standard query"); }
		if f & RD == 0 { return Err("recursion is not requested"); }
		if f & AD == 0 { return Err("authenticated data is not requested"); }
		if f & 0x0010 != 0 { return Err("checking is disabled"); }
		let (q, an, au, ad) = (r.u16()?, r.u16()?, r.u16()?, r.u16()?);
		if (q, an, au, ad) != (1, 0, 0, 1) { return Err("the section counts are not one question and one option record"); }
		let n = wire::name(&mut r, false)?;
		let t = r.u16()?;
		if r.u16()? != 1 { return Err("the question is not of class IN"); }
		if r.u8()? != 0 || r.u16()? != 41 { return Err("no OPT record"); }
		r.u16()?;
		if r.u16()? != 0 { return Err("extended code or EDNS version is not zero"); }
		if r.u16()? & 0x8000 == 0 { return Err("signatures are not requested"); }
		let l = r.u16()? as usize;
		r.take(l)?;
		if r.left() != 0 { return Err("data after the query"); }
		Ok((n, t, r.soft))
	})();
	match q {
		Ok((n, t, None)) => Ok((n, t)),
		Ok((_, _, Some(e))) | Err(e) => Err(format!("malformed query ({}): {}", e, hex(b))),
	}
}
