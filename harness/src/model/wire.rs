//! Strict reference decoder for record streams and resolver messages.

use super::name::MName;
use super::rr::*;
use std::collections::BTreeSet;

pub type Res<T> = Result<T, &'static str>;
fn bad<T>(s: &'static str) -> Res<T> { Err(s) }

/// A cursor. `soft` records that the input is malformed by the RFCs in a way a tolerant reader may accept without altering
/// any field, so that either outcome is fine.
pub struct Rd<'a> { pub b: &'a [u8], pub pos: usize, pub end: usize, pub soft: Option<&'static str> }
impl<'a> Rd<'a> {
	pub fn new(b: &'a [u8]) -> Rd<'a> { Rd { b, pos: 0, end: b.len(), soft: None } }
	pub fn left(&self) -> usize { self.end - self.pos }
	pub fn u8(&mut self) -> Res<u8> {
		if self.left() < 1 { return bad("truncated"); }
		self.pos += 1;
		Ok(self.b[self.pos - 1])
	}
	pub fn u16(&mut self) -> Res<u16> { Ok((self.u8()? as u16) << 8 | self.u8()? as u16) }
	pub fn u32(&mut self) -> Res<u32> { Ok((self.u16()? as u32) << 16 | self.u16()? as u32) }
	pub fn take(&mut self, n: usize) -> Res<&'a [u8]> {
		if self.left() < n { return bad("truncated"); }
		self.pos += n;
		Ok(&self.b[self.pos - n..self.pos])
	}
	pub fn rest(&mut self) -> &'a [u8] { let n = self.left(); self.take(n).unwrap() }
}

/// What the crate documents as a name: printable ASCII without quotes, labels of 1..=63 bytes, at most 255 bytes of text.
/// A dot inside a label cannot be represented in the textual form, so such names are not valid either.
pub fn label_ok(l: &[u8]) -> bool {
	!l.is_empty() && l.len() <= 63 && l.iter().all(|c| (0x21..=0x7e).contains(c) && *c != b'"' && *c != b'.')
}
pub fn text_len(n: &MName) -> usize { n.0.iter().map(|l| l.len() + 1).sum::<usize>().max(1) }

/// Reads a name. `comp`: whether compression pointers (into the whole buffer) are allowed.
pub fn name(r: &mut Rd, comp: bool) -> Res<MName> {
	let mut labels: Vec<Vec<u8>> = Vec::new();
	let mut jumps = 0usize;
	let mut text = 0usize;
	// After a jump the whole message is readable.
	let mut cur = r.pos;
	let mut end = r.end;
	let mut jumped = false;
	loop {
		if cur >= end { return bad("truncated name"); }
		let len = r.b[cur] as usize;
		cur += 1;
		if len == 0 { break; }
		if len >= 0xc0 {
			if !comp { return bad("compression pointer in an uncompressed stream"); }
			if cur >= end { return bad("truncated pointer"); }
			let target = (len & 0x3f) << 8 | r.b[cur] as usize;
			cur += 1;
			if target >= cur - 2 { r.soft = Some("pointer that does not point backwards"); }
			if !jumped { r.pos = cur; jumped = true; }
			jumps += 1;
			if jumps > 100 { r.soft = Some("very long pointer chain"); }
			if jumps > 255 { return bad("too many pointers"); }
			if target >= r.b.len() { return bad("pointer past the end"); }
			cur = target;
			end = r.b.len();
			continue;
		}
		if len > 63 { return bad("label too long"); }
		if cur + len > end { return bad("truncated label"); }
		let l = &r.b[cur..cur + len];
		cur += len;
		if !label_ok(l) { return bad("bad label"); }
		labels.push(l.to_ascii_lowercase());
		text += len + 1;
		if text > 255 { return bad("name too long"); }
	}
	if !jumped { r.pos = cur; }
	Ok(MName(labels))
}

/// Type bitmap. Non-canonical encodings (out of order or repeated windows, zero-length blocks, trailing zero bytes) are
/// `Either`: the set of types they state is not in doubt, except for repeated windows.
fn read_bitmap(r: &mut Rd) -> Res<BTreeSet<u16>> {
	let mut t = BTreeSet::new();
	let mut last: i32 = -1;
	while r.left() > 0 {
		let w = r.u8()?;
		let n = r.u8()? as usize;
		if n > 32 { return bad("bitmap block too long"); }
		let b = r.take(n)?;
		if w as i32 <= last || n == 0 || b.last() == Some(&0) { r.soft = Some("non-canonical type bitmap"); }
		last = last.max(w as i32);
		for (i, x) in b.iter().enumerate() {
			for k in 0..8 { if x & (0x80 >> k) != 0 { t.insert((w as u16) << 8 | (i * 8 + k) as u16); } }
		}
	}
	Ok(t)
}

/// Decodes record data. Returns `Ok(None)` for an unsupported type.
pub fn rdata(b: &[u8], start: usize, len: usize, ty: u16, comp: bool, soft: &mut Option<&'static str>) -> Res<D> {
	let mut r = Rd { b, pos: start, end: start + len, soft: None };
	let d = match ty {
		A => { if len != 4 { return bad("A length"); } D::A(r.take(4)?.try_into().unwrap()) },
		AAAA => { if len != 16 { return bad("AAAA length"); } D::Aaaa(r.take(16)?.try_into().unwrap()) },
		NS => D::Ns(name(&mut r, comp)?),
		CNAME => D::Cname(name(&mut r, comp)?),
		DNAME => D::Dname(name(&mut r, comp)?),
		TXT => {
			let mut t = Vec::new();
			if r.left() == 0 { r.soft = Some("TXT without any string"); }
			while r.left() > 0 { let n = r.u8()? as usize; t.extend_from_slice(r.take(n)?); }
			D::Txt(t)
		},
		TLSA => D::Tlsa(r.u8()?, r.u8()?, r.u8()?, r.rest().to_vec()),
		DNSKEY => D::Key(Key { flags: r.u16()?, proto: r.u8()?, alg: r.u8()?, key: r.rest().to_vec() }),
		DS => D::Ds(Deleg { tag: r.u16()?, alg: r.u8()?, dt: r.u8()?, digest: r.rest().to_vec() }),
		RRSIG => D::Sig(Sig {
			ty: r.u16()?, alg: r.u8()?, labels: r.u8()?, ttl: r.u32()?, exp: r.u32()?, inc: r.u32()?, tag: r.u16()?,
			signer: name(&mut r, comp)?, sig: r.rest().to_vec(),
		}),
		NSEC => D::Nsec(name(&mut r, comp)?, read_bitmap(&mut r)?),
		NSEC3 => {
			let (alg, flags, iters) = (r.u8()?, r.u8()?, r.u16()?);
			let n = r.u8()? as usize;
			let salt = r.take(n)?.to_vec();
			let n = r.u8()? as usize;
			let next = r.take(n)?.to_vec();
			D::Nsec3(N3 { alg, flags, iters, salt, next, types: read_bitmap(&mut r)? })
		},
		_ => return bad("unsupported type"),
	};
	if r.left() != 0 { return bad("trailing record data"); }
	if r.soft.is_some() { *soft = r.soft; }
	Ok(d)
}

/// One record.
pub fn rr(r: &mut Rd, comp: bool) -> Res<(Rec, u32)> {
	let n = name(r, comp)?;
	let ty = r.u16()?;
	let class = r.u16()?;
	if class != 1 { return bad("class"); }
	let ttl = r.u32()?;
	let len = r.u16()? as usize;
	if r.left() < len { return bad("truncated record data"); }
	let start = r.pos;
	r.pos += len;
	let d = rdata(r.b, start, len, ty, comp, &mut r.soft)?;
	Ok((Rec { name: n, d }, ttl))
}
/// A whole record stream, and whether the encoding leaves acceptance open.
pub fn stream(b: &[u8]) -> (Res<Vec<(Rec, u32)>>, Option<&'static str>) {
	let mut r = Rd::new(b);
	let mut v = Vec::new();
	while r.left() > 0 {
		match rr(&mut r, false) { Ok(x) => v.push(x), Err(e) => return (Err(e), r.soft) }
	}
	(Ok(v), r.soft)
}
