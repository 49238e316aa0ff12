//! Resource records.

use super::name::MName;
use std::collections::BTreeSet;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const TXT: u16 = 16;
pub const AAAA: u16 = 28;
pub const DNAME: u16 = 39;
pub const DS: u16 = 43;
pub const RRSIG: u16 = 46;
pub const NSEC: u16 = 47;
pub const DNSKEY: u16 = 48;
pub const NSEC3: u16 = 50;
pub const TLSA: u16 = 52;
pub const SUPPORTED: [u16; 12] = [A, NS, CNAME, TXT, AAAA, DNAME, DS, RRSIG, NSEC, DNSKEY, NSEC3, TLSA];

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Sig {
	pub ty: u16, pub alg: u8, pub labels: u8, pub ttl: u32, pub exp: u32, pub inc: u32, pub tag: u16,
	pub signer: MName, pub sig: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Key { pub flags: u16, pub proto: u8, pub alg: u8, pub key: Vec<u8> }
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Deleg { pub tag: u16, pub alg: u8, pub dt: u8, pub digest: Vec<u8> }
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct N3 { pub alg: u8, pub flags: u8, pub iters: u16, pub salt: Vec<u8>, pub next: Vec<u8>, pub types: BTreeSet<u16> }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum D {
	A([u8; 4]),
	Aaaa([u8; 16]),
	Ns(MName),
	/// Text stored as the crate does: one byte string, split in 255-byte chunks on the wire.
	Txt(Vec<u8>),
	Cname(MName),
	Dname(MName),
	Tlsa(u8, u8, u8, Vec<u8>),
	Key(Key),
	Ds(Deleg),
	Sig(Sig),
	Nsec(MName, BTreeSet<u16>),
	Nsec3(N3),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Rec { pub name: MName, pub d: D }

impl D {
	pub fn ty(&self) -> u16 {
		match self {
			D::A(_) => A, D::Aaaa(_) => AAAA, D::Ns(_) => NS, D::Txt(_) => TXT, D::Cname(_) => CNAME, D::Dname(_) => DNAME,
			D::Tlsa(..) => TLSA, D::Key(_) => DNSKEY, D::Ds(_) => DS, D::Sig(_) => RRSIG, D::Nsec(..) => NSEC, D::Nsec3(_) => NSEC3,
		}
	}
	/// Record data in (canonical, uncompressed) wire form.
	pub fn rdata(&self) -> Vec<u8> {
		let mut o = Vec::new();
		match self {
			D::A(a) => o.extend_from_slice(a),
			D::Aaaa(a) => o.extend_from_slice(a),
			D::Ns(n) | D::Cname(n) | D::Dname(n) => o = n.wire(),
			D::Txt(t) => {
				if t.is_empty() { o.push(0); }
				for c in t.chunks(255) { o.push(c.len() as u8); o.extend_from_slice(c); }
			},
			D::Tlsa(a, b, c, d) => { o.extend_from_slice(&[*a, *b, *c]); o.extend_from_slice(d); },
			D::Key(k) => { o.extend_from_slice(&k.flags.to_be_bytes()); o.push(k.proto); o.push(k.alg); o.extend_from_slice(&k.key); },
			D::Ds(d) => { o.extend_from_slice(&d.tag.to_be_bytes()); o.push(d.alg); o.push(d.dt); o.extend_from_slice(&d.digest); },
			D::Sig(s) => { o = sig_prefix(s); o.extend_from_slice(&s.sig); },
			D::Nsec(n, t) => { o = n.wire(); o.extend(bitmap(t)); },
			D::Nsec3(n) => {
				o.push(n.alg); o.push(n.flags); o.extend_from_slice(&n.iters.to_be_bytes());
				o.push(n.salt.len() as u8); o.extend_from_slice(&n.salt);
				o.push(n.next.len() as u8); o.extend_from_slice(&n.next);
				o.extend(bitmap(&n.types));
			},
		}
		o
	}
}
impl Rec {
	pub fn new(name: &MName, d: D) -> Rec { Rec { name: name.clone(), d } }
	pub fn ty(&self) -> u16 { self.d.ty() }
	pub fn wire(&self, ttl: u32) -> Vec<u8> { raw_rr(&self.name.wire(), self.ty(), 1, ttl, &self.d.rdata()) }
	/// The wire form fits the protocol's limits.
	pub fn fits(&self) -> bool { self.name.fits() && self.d.rdata().len() <= 65535 }
}
pub fn raw_rr(owner: &[u8], ty: u16, class: u16, ttl: u32, rdata: &[u8]) -> Vec<u8> {
	let mut o = owner.to_vec();
	o.extend_from_slice(&ty.to_be_bytes());
	o.extend_from_slice(&class.to_be_bytes());
	o.extend_from_slice(&ttl.to_be_bytes());
	o.extend_from_slice(&(rdata.len() as u16).to_be_bytes());
	o.extend_from_slice(rdata);
	o
}
/// Signature data up to, and without, the signature (RFC 4034 section 3.1.8.1).
pub fn sig_prefix(s: &Sig) -> Vec<u8> {
	let mut o = Vec::new();
	o.extend_from_slice(&s.ty.to_be_bytes());
	o.push(s.alg); o.push(s.labels);
	o.extend_from_slice(&s.ttl.to_be_bytes());
	o.extend_from_slice(&s.exp.to_be_bytes());
	o.extend_from_slice(&s.inc.to_be_bytes());
	o.extend_from_slice(&s.tag.to_be_bytes());
	o.extend(s.signer.wire());
	o
}
/// NSEC type bitmap, RFC 4034 section 4.1.2.
pub fn bitmap(types: &BTreeSet<u16>) -> Vec<u8> {
	let mut o = Vec::new();
	for w in 0..=255u16 {
		let mut bits = [0u8; 32];
		let mut max = None;
		for t in types.range(w * 256..=w * 256 + 255) {
			let b = (t & 255) as usize;
			bits[b / 8] |= 0x80 >> (b % 8);
			max = Some(b / 8);
		}
		if let Some(m) = max { o.push(w as u8); o.push(m as u8 + 1); o.extend_from_slice(&bits[..=m]); }
	}
	o
}
/// Key tag, RFC 4034 appendix B.
pub fn key_tag(rdata: &[u8]) -> u16 {
	let mut ac: u64 = 0;
	for (i, b) in rdata.iter().enumerate() { ac += if i & 1 == 1 { *b as u64 } else { (*b as u64) << 8 }; }
	ac += (ac >> 16) & 0xffff;
	(ac & 0xffff) as u16
}
pub fn stream(recs: &[Rec], ttl: u32) -> Vec<u8> {
	let mut o = Vec::new();
	for r in recs { o.extend(r.wire(ttl)); }
	o
}
pub fn ty_name(t: u16) -> String {
	match t {
		A => "A", NS => "NS", CNAME => "CNAME", TXT => "TXT", AAAA => "AAAA", DNAME => "DNAME", DS => "DS", RRSIG => "RRSIG",
		NSEC => "NSEC", DNSKEY => "DNSKEY", NSEC3 => "NSEC3", TLSA => "TLSA", _ => return format!("TYPE{}", t),
	}.into()
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn hexs(b: &[u8]) -> String { if b.len() > 12 { format!("{}..({})", hex(&b[..10]), b.len()) } else { hex(b) } }
/// Short description for samples and failures.
pub fn show(r: &Rec) -> String {
	let n = r.name.0.iter().map(|l| String::from_utf8_lossy(l).into_owned() + ".").collect::<String>();
	let n = if n.is_empty() { ".".to_string() } else { n };
	let nm = |m: &MName| { let s = m.0.iter().map(|l| String::from_utf8_lossy(l).into_owned() + ".").collect::<String>(); if s.is_empty() { ".".into() } else { s } };
	let ts = |t: &BTreeSet<u16>| t.iter().map(|x| ty_name(*x)).collect::<Vec<_>>().join(",");
	match &r.d {
		D::Sig(s) => format!("{} RRSIG({} alg{} l{} ttl{} inc{} exp{} tag{} by {} {})", n, ty_name(s.ty), s.alg, s.labels, s.ttl, s.inc, s.exp, s.tag, nm(&s.signer), hexs(&s.sig)),
		D::Key(k) => format!("{} DNSKEY({} {} alg{} tag{} {})", n, k.flags, k.proto, k.alg, key_tag(&r.d.rdata()), hexs(&k.key)),
		D::Ds(d) => format!("{} DS({} alg{} dt{} {})", n, d.tag, d.alg, d.dt, hexs(&d.digest)),
		D::Nsec(x, t) => format!("{} NSEC({} {})", n, nm(x), ts(t)),
		D::Nsec3(x) => format!("{} NSEC3({} {} {} {} {} {})", n, x.alg, x.flags, x.iters, hexs(&x.salt), hexs(&x.next), ts(&x.types)),
		D::Txt(t) => format!("{} TXT({:?})", n, if t.len() > 20 { format!("{}..({})", String::from_utf8_lossy(&t[..20]), t.len()) } else { String::from_utf8_lossy(t).into_owned() }),
		D::Ns(x) | D::Cname(x) | D::Dname(x) => format!("{} {}({})", n, ty_name(r.ty()), nm(x)),
		D::A(a) => format!("{} A({:?})", n, a),
		D::Aaaa(a) => format!("{} AAAA({})", n, hexs(a)),
		D::Tlsa(a, b, c, d) => format!("{} TLSA({} {} {} {})", n, a, b, c, hexs(d)),
	}
}
pub fn show_all(v: &[Rec]) -> String { v.iter().map(show).collect::<Vec<_>>().join("; ") }
