//! Generators of names and records, biased towards boundaries.

use super::name::MName;
use super::rr::*;
use crate::engine::Src;
use std::collections::BTreeSet;

pub const WORDS: [&str; 24] = [
	"a", "b", "c", "aa", "ab", "ba", "example", "ample", "com", "org", "net", "www", "_443", "_tcp", "x", "z", "txt", "user", "user1", "-", "0", "_", "*", "com-example",
];
/// Every byte a label may contain.
pub fn label_byte(s: &mut Src) -> u8 {
	loop {
		let c = *s.pick(b"abcxyz019-_*\\/'&<>{}[]()!#$%+,:;=?@^`|~");
		if c != b'.' && c != b'"' { return c; }
	}
}
pub fn label(s: &mut Src) -> Vec<u8> {
	match s.weighted(&[12, 4, 2, 1]) {
		0 => s.pick(&WORDS).as_bytes().to_vec(),
		1 => { let n = s.usize(1, 6); (0..n).map(|_| label_byte(s)).collect() },
		2 => { let n = s.usize(1, 20); (0..n).map(|_| loop { let c = s.range(0x21, 0x7e) as u8; if c != b'"' && c != b'.' { return c.to_ascii_lowercase(); } }).collect() },
		_ => { let n = s.usize(60, 63); vec![*s.pick(b"abz"); n] },
	}
}
/// Any valid name.
pub fn name(s: &mut Src) -> MName {
	match s.weighted(&[20, 2, 1, 1]) {
		0 => { let n = *s.pick(&[2usize, 1, 3, 0, 4, 5]); clamp(MName((0..n).map(|_| label(s)).collect())) },
		// Near the length limit.
		1 => {
			let mut v: Vec<Vec<u8>> = Vec::new();
			let target = s.usize(250, 255);
			loop {
				let used: usize = 1 + v.iter().map(|l: &Vec<u8>| l.len() + 1).sum::<usize>();
				let room = target - used.min(target);
				if room < 2 { break; }
				let n = (room - 1).min(s.usize(1, 63));
				v.push(vec![*s.pick(b"aqz"); n]);
			}
			MName(v)
		},
		// Many labels.
		2 => { let n = s.usize(100, 127); clamp(MName((0..n).map(|_| vec![*s.pick(b"ab")]).collect())) },
		_ => MName::root(),
	}
}
pub fn clamp(mut n: MName) -> MName { while !n.fits() { n.0.remove(0); } n }

pub fn len_biased(s: &mut Src, max: usize) -> usize {
	let l = match s.weighted(&[8, 4, 4, 1]) {
		0 => s.usize(0, 12),
		1 => *s.pick(&[0usize, 1, 20, 32, 48, 64, 254, 255, 256, 257]),
		2 => { let k = s.usize(1, 5); let d = s.usize(0, 4); (255 * k + d).saturating_sub(2) },
		_ => *s.pick(&[4096usize, 65_000, 65_279, 65_280, 65_535, 2047, 2048, 2049]),
	};
	l.min(max)
}
pub fn types(s: &mut Src) -> BTreeSet<u16> {
	let n = *s.pick(&[2usize, 0, 1, 3, 5, 9, 30]);
	(0..n).map(|_| match s.weighted(&[6, 2, 2]) {
		0 => *s.pick(&SUPPORTED),
		1 => *s.pick(&[0u16, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 247, 248, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65281, 65534, 65535]),
		_ => s.u16(),
	}).collect()
}
fn text(s: &mut Src, max: usize) -> Vec<u8> {
	let n = len_biased(s, max);
	match s.weighted(&[3, 3, 2, 2]) {
		0 => (0..n).map(|i| b"bitcoin:?b12=lno1"[i % 17]).collect(),
		1 => s.bytes(n),
		2 => { let c = *s.pick(b"\"\\\n\x00\x1f\x7fA\xc3\xff"); vec![c; n] },
		_ => {
			// Multi-byte characters and JSON-relevant characters.
			let mut v = Vec::new();
			while v.len() < n {
				let p: &[&str] = &["a", "\"", "\\", "é", "\u{7f}", "\u{85}", "\u{2028}", "😀", "\u{0}", "\n", "}", "{", ",", "\u{ffff}", "\\u0041", "/"];
				let c = s.pick(p).as_bytes();
				if v.len() + c.len() > n { v.push(b'x'); } else { v.extend_from_slice(c); }
				if v.len() > 64 { let w = v.clone(); while v.len() < n { let k = (n - v.len()).min(w.len()); v.extend_from_slice(&w[..k]); } }
			}
			v
		},
	}
}
pub fn data(s: &mut Src, ty: u16) -> D {
	match ty {
		A => D::A([s.u8(), s.u8(), s.u8(), s.u8()]),
		AAAA => D::Aaaa(s.bytes(16).try_into().unwrap()),
		NS => D::Ns(name(s)),
		CNAME => D::Cname(name(s)),
		DNAME => D::Dname(name(s)),
		TXT => D::Txt(text(s, 65_279)),
		TLSA => { let (a, b, c) = (s.u8(), s.u8(), s.u8()); let n = len_biased(s, 65_532); D::Tlsa(a, b, c, s.bytes(n)) },
		DNSKEY => {
			let flags = *s.pick(&[257u16, 256, 0, 1, 128, 65535]);
			let proto = *s.pick(&[3u8, 0, 2, 255]);
			let alg = *s.pick(&[13u8, 8, 15, 0, 255, 10, 14]);
			let n = len_biased(s, 65_531);
			D::Key(Key { flags, proto, alg, key: s.bytes(n) })
		},
		DS => { let (tag, alg, dt) = (s.u16(), s.u8(), s.u8()); let n = len_biased(s, 65_531); D::Ds(Deleg { tag, alg, dt, digest: s.bytes(n) }) },
		RRSIG => {
			let ty = if s.chance(1, 4) { s.u16() } else { *s.pick(&SUPPORTED) };
			let (alg, labels, ttl, exp, inc, tag) = (s.u8(), s.u8(), s.u32(), s.u32(), s.u32(), s.u16());
			let signer = name(s);
			let n = len_biased(s, 65_535 - 18 - signer.wire_len());
			D::Sig(Sig { ty, alg, labels, ttl, exp, inc, tag, signer, sig: s.bytes(n) })
		},
		NSEC => D::Nsec(name(s), types(s)),
		NSEC3 => {
			let (alg, flags, iters) = (s.u8(), s.u8(), s.u16());
			let n = len_biased(s, 255);
			let salt = s.bytes(n);
			let n = if s.bool() { 20 } else { len_biased(s, 255) };
			D::Nsec3(N3 { alg, flags, iters, salt, next: s.bytes(n), types: types(s) })
		},
		_ => unreachable!(),
	}
}
pub fn rec(s: &mut Src) -> Rec {
	let ty = *s.pick(&SUPPORTED);
	let name = name(s);
	Rec { name, d: data(s, ty) }
}
pub fn ttl(s: &mut Src) -> u32 { if s.bool() { *s.pick(&[0u32, 1, 300, 3600, 86400, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]) } else { s.u32() } }

/// Records at one owner and type whose data are close to each other: shared prefixes, differing lengths.
pub fn siblings(s: &mut Src, n: usize) -> Vec<Rec> {
	let ty = *s.pick(&SUPPORTED);
	let owner = name(s);
	let mut v: Vec<Rec> = vec![Rec { name: owner.clone(), d: data(s, ty) }];
	while v.len() < n {
		let base = s.pick(&v).d.clone();
		let d = if s.chance(1, 4) { data(s, ty) } else { tweak(s, base) };
		v.push(Rec { name: owner.clone(), d });
	}
	v
}
fn tweak_bytes(s: &mut Src, mut b: Vec<u8>, max: usize) -> Vec<u8> {
	match s.weighted(&[2, 2, 2, 1, 1]) {
		0 => { let n = s.usize(1, 3); for _ in 0..n { if b.len() < max { b.push(s.u8()); } } },
		1 => { let n = s.usize(1, 3); let l = b.len().saturating_sub(n); b.truncate(l); },
		2 => if !b.is_empty() { let i = match s.below(3) { 0 => 0, 1 => b.len() - 1, _ => s.usize(0, b.len() - 1) }; b[i] = s.u8(); },
		3 => { let n = len_biased(s, max.min(1100)); let c = b.first().copied().unwrap_or(0); b.resize(n, c); },
		_ => if !b.is_empty() { let i = s.usize(0, b.len() - 1); b.remove(i); },
	}
	b
}
fn tweak_name(s: &mut Src, n: MName) -> MName {
	let mut v = n.0;
	match s.below(5) {
		0 => v.insert(0, label(s)),
		1 => if !v.is_empty() { v.remove(0); },
		2 => if !v.is_empty() { let i = s.usize(0, v.len() - 1); let l = label(s); v[i] = l; },
		3 => if !v.is_empty() { let i = s.usize(0, v.len() - 1); if v[i].len() < 63 { let c = label_byte(s); v[i].push(c); } },
		_ => if !v.is_empty() { let i = s.usize(0, v.len() - 1); if v[i].len() > 1 { v[i].pop(); } },
	}
	clamp(MName(v))
}
fn tweak_types(s: &mut Src, mut t: BTreeSet<u16>) -> BTreeSet<u16> {
	if s.bool() && !t.is_empty() { let x = *t.iter().nth(s.usize(0, t.len() - 1)).unwrap(); t.remove(&x); }
	if s.bool() { t.extend(types(s)); }
	t
}
/// A slightly different record data of the same type.
pub fn tweak(s: &mut Src, d: D) -> D {
	match d {
		D::A(mut a) => { let i = s.usize(0, 3); a[i] = s.u8(); D::A(a) },
		D::Aaaa(mut a) => { let i = s.usize(0, 15); a[i] = s.u8(); D::Aaaa(a) },
		D::Ns(n) => D::Ns(tweak_name(s, n)),
		D::Cname(n) => D::Cname(tweak_name(s, n)),
		D::Dname(n) => D::Dname(tweak_name(s, n)),
		D::Txt(t) => D::Txt(tweak_bytes(s, t, 65_279)),
		D::Tlsa(mut a, mut b, mut c, x) => match s.below(4) { 0 => { a = s.u8(); D::Tlsa(a, b, c, x) }, 1 => { b = s.u8(); D::Tlsa(a, b, c, x) }, 2 => { c = s.u8(); D::Tlsa(a, b, c, x) }, _ => D::Tlsa(a, b, c, tweak_bytes(s, x, 65_532)) },
		D::Key(mut k) => { match s.below(4) { 0 => k.flags = s.u16(), 1 => k.proto = s.u8(), 2 => k.alg = s.u8(), _ => k.key = tweak_bytes(s, k.key, 65_531) } D::Key(k) },
		D::Ds(mut k) => { match s.below(4) { 0 => k.tag = s.u16(), 1 => k.alg = s.u8(), 2 => k.dt = s.u8(), _ => k.digest = tweak_bytes(s, k.digest, 65_531) } D::Ds(k) },
		D::Sig(mut g) => {
			match s.below(9) {
				0 => g.ty = s.u16(), 1 => g.alg = s.u8(), 2 => g.labels = s.u8(), 3 => g.ttl = s.u32(), 4 => g.exp = s.u32(), 5 => g.inc = s.u32(), 6 => g.tag = s.u16(),
				7 => g.signer = tweak_name(s, g.signer), _ => { let m = 65_535 - 18 - g.signer.wire_len(); g.sig = tweak_bytes(s, g.sig, m) },
			}
			let m = 65_535 - 18 - g.signer.wire_len();
			g.sig.truncate(m);
			D::Sig(g)
		},
		D::Nsec(n, t) => if s.bool() { D::Nsec(tweak_name(s, n), t) } else { D::Nsec(n, tweak_types(s, t)) },
		D::Nsec3(mut n) => {
			match s.below(6) { 0 => n.alg = s.u8(), 1 => n.flags = s.u8(), 2 => n.iters = s.u16(), 3 => n.salt = tweak_bytes(s, n.salt, 255), 4 => n.next = tweak_bytes(s, n.next, 255), _ => n.types = tweak_types(s, n.types) }
			D::Nsec3(n)
		},
	}
}
