//! Zones and trust: C09 (bailiwick), C10 (chain), C11 (wildcard denial), C14 (unsupported cryptography), C16 (bounded work).

use super::validate::*;
use crate::engine::*;
use crate::model::{crypto::*, gen, name::MName, rr::*, zone::*};
use std::collections::{BTreeMap, BTreeSet};

/// A set with its signature, made by some key of a zone in the name of `signer`.
pub fn signed(signer: &MName, k: &ZKey, owner: &MName, data: Vec<D>, t: Times) -> Vec<Rec> {
	let g = sign_set(signer, k, owner, &data, t);
	let mut v: Vec<Rec> = data.into_iter().map(|d| Rec::new(owner, d)).collect();
	v.push(Rec::new(owner, D::Sig(g)));
	v
}
/// A name that is not in the zone but looks as if it were.
fn outside(s: &mut Src, u: &Universe, zone: &MName) -> MName {
	for _ in 0..20 {
		let n = match s.weighted(&[6, 3, 2, 2, 1]) {
			0 => {
				// The zone's text is a suffix, but not at a label boundary.
				let mut l = zone.0.clone();
				if l.is_empty() || l[0].len() > 60 { continue; }
				let pre: &[&str] = &["x", "a", "ample", "-", "0", "b", "*", "_"];
				let mut f = s.pick(pre).as_bytes().to_vec();
				f.extend_from_slice(&l[0]);
				l[0] = f;
				let mut n = MName(l);
				for _ in 0..s.below(3) { n = n.child_s(host(s)); }
				n
			},
			1 => { let n = some_owner(s, u); n },
			2 => zone.parent().unwrap_or_else(MName::root),
			3 => {
				// Same leading labels, other ending.
				let mut n = zone.clone();
				if n.0.is_empty() { continue; }
				let k = s.usize(0, n.0.len() - 1);
				n.0[k] = host(s).as_bytes().to_vec();
				if s.bool() { n = n.child_s(host(s)); }
				n
			},
			_ => {
				// The zone's labels at the front of a longer name.
				zone.join(&MName::of("com."))
			},
		};
		if !n.is_in(zone) && n.fits() { return n; }
	}
	// The root itself is outside of every other zone.
	MName::root()
}
fn bailiwick(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { zones: (2, 6), insecure: 5, fams: [60, 30, 2, 0, 0], ..Default::default() });
	let cand: Vec<usize> = (1..u.zones.len()).filter(|i| u.secure(*i)).collect();
	if cand.is_empty() { return Ok(()); }
	let mi = *s.pick(&cand);
	let m = &u.zones[mi];
	let victim = outside(s, &u, &m.name);
	let k = &m.keys[*s.pick(&m.zsk)];
	let ty = *s.pick(&[TXT, A, TLSA, CNAME, DNAME, NS, DS, NSEC, NSEC3, DNSKEY, AAAA]);
	let evil = ZKey { k: key(Fam::Ed25519, 997), flags: 257, proto: 3 };
	let data = match ty {
		DS => vec![D::Ds(evil.ds(&victim, 2))],
		NSEC => vec![D::Nsec(some_owner(s, &u), [A, NSEC, RRSIG].into_iter().collect())],
		NSEC3 => vec![D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: s.bytes(20), types: BTreeSet::new() })],
		DNSKEY => vec![D::Key(evil.data())],
		_ => vec![leaf_data(s, ty)],
	};
	let t = times(s);
	// The owner signed may also be a wildcard above the victim.
	let wild = s.chance(1, 5) && victim.labels() > 0;
	let owner = if ty == NSEC3 { victim.child(&b32(&s.bytes(20))) } else if wild { victim.parent().unwrap().wildcard() } else { victim.clone() };
	if !owner.fits() || owner.is_in(&m.name) { return Ok(()); }
	let signed_at = if wild && ty != NSEC3 { victim.clone() } else { owner.clone() };
	let g = sign_set(&m.name, k, &owner, &data, t);
	let mut recs = Vec::new();
	// Some honest data, too.
	let mut p = Proof::default();
	if s.bool() { for _ in 0..6 { let (q, t) = u.query(s); if p.add(&u, &q, t, false) { break; } } }
	recs.extend(p.recs);
	recs.extend(u.chain(mi));
	// The victim's own records of that name and type would make the signature fail, so they are left out.
	recs.retain(|r| !(r.name == signed_at && (r.ty() == ty || matches!(&r.d, D::Sig(g) if g.ty == ty))) || matches!(ty, DNSKEY));
	if ty == DS {
		// Everything needed to take over the victim's zone.
		recs.retain(|r| !(r.name == victim && (r.ty() == DNSKEY || matches!(&r.d, D::Sig(g) if g.ty == DNSKEY))));
		recs.extend(signed(&victim, &evil, &victim, vec![D::Key(evil.data())], t));
		let below = gen::clamp(victim.child_s(host(s)));
		recs.extend(signed(&victim, &evil, &below, vec![leaf_data(s, TXT)], t));
	}
	if ty == DNSKEY && recs.iter().any(|r| r.name == victim && r.ty() == DNSKEY) { return Ok(()); }
	// The zone still has to be reached.
	let need = u.chain(mi);
	if need.iter().any(|r| !recs.contains(r)) { return Ok(()); }
	recs.extend(data.iter().map(|d| Rec::new(&signed_at, d.clone())));
	recs.push(Rec::new(&signed_at, D::Sig(g)));
	let mut recs = dedup(recs);
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	let suffix = signed_at.text().ends_with(&m.name.text());
	c.label(if suffix { "textual suffix" } else { "unrelated name" });
	c.label(format!("{} outside", ty_name(ty)));
	c.note(|| format!("zone {} signs for {}; {}", m.name.text(), signed_at.text(), show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	c.note(|| r.show());
	// Signatures by keys named in DNSKEY records of another name are never looked at.
	if ty == DNSKEY {
		if let Ok(o) = &r.out { return check_authentic(&u, o); }
		return Ok(());
	}
	match &r.out {
		Err(_) => Ok(()),
		Ok(o) => Err(match o.recs.iter().find(|x| x.name == signed_at && data.contains(&x.d)) {
			Some(x) => format!("the zone {} made {} verify, which is outside of it", m.name.text(), show(x)),
			None => format!("the zone {} signs {} {} outside of itself, and the proof is not rejected", m.name.text(), signed_at.text(), ty_name(ty)),
		}),
	}
}

// ---------------------------------------------------------------------------------------------------------------
// C10

struct Link { name: MName, keys: Vec<ZKey>, ksk: usize, zsk: usize }
/// A straight chain of zones, each with its own key and signing records, to be altered at one link.
fn straight(s: &mut Src, fams: &[u64; 5]) -> Vec<Link> {
	let mut v = Vec::new();
	let n = s.usize(1, 4);
	let mut name = MName::root();
	for i in 0..n {
		if i > 0 { name = name.child_s(*s.pick(&["com", "a", "example", "x", "sub"][..])); if s.chance(1, 5) { name = name.child_s("d"); } }
		let mut keys = Vec::new();
		let f = fam(s, fams);
		let ksk = add_key(s, &mut keys, f, 257);
		let f = fam(s, fams);
		let zsk = if s.chance(1, 4) { ksk } else { add_key(s, &mut keys, f, 256) };
		v.push(Link { name: name.clone(), keys, ksk, zsk });
	}
	v
}
#[derive(Clone)]
struct Part { ds: Vec<D>, ds_sig: bool, keys: Vec<ZKey>, key_signers: Vec<usize>, zsk: usize }

fn chain_links(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let links = straight(s, &[60, 30, 3, 1, 0]);
	let li = s.usize(0, links.len() - 1);
	let mut parts: Vec<Part> = links.iter().map(|l| Part { ds: vec![D::Ds(l.keys[l.ksk].ds(&l.name, 2))], ds_sig: true, keys: l.keys.clone(), key_signers: vec![l.ksk], zsk: l.zsk }).collect();
	let t = times(s);
	let l = &links[li];
	let ksk = &l.keys[l.ksk];
	let other = |s: &mut Src, flags: u16| { let mut ks = l.keys.clone(); let i = add_key(s, &mut ks, Fam::Ed25519, flags); ks[i].clone() };
	// Alterations, and whether data of the zone must still verify.
	let p = &mut parts[li];
	let Some(D::Ds(good)) = p.ds.first().cloned() else { return Ok(()) };
	let mut extra: Vec<Rec> = Vec::new();
	let root = li == 0;
	let op = s.below(34);
	let (what, ok): (&str, bool) = match op {
		0 => ("nothing altered", true),
		1 => { let mut d = good.clone(); let i = s.usize(0, d.digest.len() - 1); d.digest[i] ^= 1 << s.below(8) as u8; p.ds = vec![D::Ds(d)]; ("digest differs", false) },
		2 => { let mut d = good.clone(); d.tag ^= 1 << s.below(16) as u16; p.ds = vec![D::Ds(d)]; ("key tag differs", false) },
		3 => { let mut d = good.clone(); d.alg = *s.pick(&[8u8, 10, 13, 14, 15].iter().copied().filter(|a| *a != d.alg).collect::<Vec<_>>()); p.ds = vec![D::Ds(d)]; ("algorithm differs", false) },
		4 => { let mut d = good.clone(); let k = s.usize(0, 31); d.digest.truncate(k); p.ds = vec![D::Ds(d)]; ("digest truncated", false) },
		5 => { let mut d = good.clone(); d.digest.push(s.u8()); p.ds = vec![D::Ds(d)]; ("digest extended", false) },
		6 => { p.ds_sig = false; if root { p.ds = vec![D::Ds(other(s, 257).ds(&l.name, 2))]; } ("delegation not signed, or anchor of another key", false) },
		7 => { p.ds.clear(); ("no delegation", false) },
		8 => { p.key_signers.clear(); ("key set not signed", false) },
		9 => { let k = other(s, 257); p.keys.push(k); p.key_signers = vec![p.keys.len() - 1]; ("key set signed by a key that is not delegated to", false) },
		10 => { let k = ZKey { flags: *s.pick(&[1u16, 0, 0x80, 0xfeff, 0x8000]), ..ksk.clone() }; p.ds = vec![D::Ds(k.ds(&l.name, 2))]; p.keys[l.ksk] = k; ("key without zone flag", false) },
		11 => { let k = ZKey { proto: *s.pick(&[0u8, 1, 2, 4, 255]), ..ksk.clone() }; p.ds = vec![D::Ds(k.ds(&l.name, 2))]; p.keys[l.ksk] = k; ("key with another protocol", false) },
		12 => { p.ds = vec![D::Ds(ksk.ds(&l.name, 1))]; ("SHA-1 digest only", true) },
		13 => { let mut d = good.clone(); d.digest[0] ^= 1; p.ds = vec![D::Ds(ksk.ds(&l.name, 1)), D::Ds(d)]; ("SHA-1 digest matches, SHA-256 digest does not", false) },
		14 => { let mut d = ksk.ds(&l.name, 4); d.digest[0] ^= 1; p.ds = vec![D::Ds(ksk.ds(&l.name, 1)), D::Ds(d)]; ("SHA-1 digest matches, SHA-384 digest does not", false) },
		15 => { let k = other(s, 257); p.ds = vec![D::Ds(ksk.ds(&l.name, 1)), D::Ds(k.ds(&l.name, 2))]; ("SHA-1 digest matches, SHA-256 digest of another key", false) },
		16 => { p.ds = vec![D::Ds(ksk.ds(&l.name, 1)), D::Ds(good.clone())]; ("SHA-1 and SHA-256 digests", true) },
		17 => { p.ds.push(D::Ds(ksk.ds(&l.name, 4))); ("SHA-256 and SHA-384 digests", true) },
		18 => { let k = other(s, 257); p.ds.push(D::Ds(k.ds(&l.name, 2))); ("further delegation to an absent key", true) },
		19 => { p.ds.push(D::Ds(Deleg { dt: *s.pick(&[3u8, 0, 5, 255]), ..good.clone() })); ("further digest of an unknown type", true) },
		20 => { let mut d = good.clone(); d.digest[3] ^= 8; p.ds.push(D::Ds(d)); ("further wrong digest for the key", true) },
		21 => { let k = other(s, 257); p.ds = vec![D::Ds(k.ds(&l.name, 2)), D::Ds(good.clone())]; p.keys.push(k); ("two delegated keys, one signs", true) },
		22 => { let n = l.name.child_s("x"); if !root { p.ds = vec![D::Ds(ksk.ds(&n, 2))]; } else { p.ds = vec![D::Ds(ksk.ds(&MName::of("com."), 2))]; } ("digest over another owner name", false) },
		23 => { let k = ZKey { flags: 256, ..ksk.clone() }; p.ds = vec![D::Ds(Deleg { tag: ksk.tag(), ..k.ds(&l.name, 2) })]; ("digest of the key with other flags", false) },
		24 => {
			// Zone signing key without the zone flag.
			if l.zsk == l.ksk { return Ok(()); }
			p.keys[l.zsk].flags = *s.pick(&[0u16, 1, 0xfeff]); ("data signing key without zone flag", false)
		},
		25 => { if l.zsk == l.ksk { return Ok(()); } p.keys[l.zsk].proto = *s.pick(&[0u8, 2, 4]); ("data signing key with another protocol", false) },
		26 => {
			// The data key is missing from the key set.
			if l.zsk == l.ksk { return Ok(()); }
			let z = p.keys[l.zsk].clone();
			p.keys.retain(|k| k.tag() != z.tag() || k.k.alg != z.k.alg);
			for r in signed(&l.name, &z, &gen::clamp(l.name.child_s("q")), vec![leaf_data(s, TXT)], t) { extra.push(r); }
			p.zsk = usize::MAX;
			("data signed by a key that is not published", false)
		},
		27 => {
			// A delegation made by the zone itself, to itself.
			if root { return Ok(()); }
			p.ds_sig = false;
			let d = p.ds.clone();
			p.ds.clear();
			extra.extend(signed(&l.name, &l.keys[l.zsk], &l.name, d, t));
			("delegation signed by the zone itself", false)
		},
		28 => {
			// A delegation expanded from a wildcard of the parent.
			if root { return Ok(()); }
			let par = &links[li - 1];
			let d = p.ds.clone();
			p.ds.clear();
			let w = l.name.parent().unwrap().wildcard();
			let g = sign_set(&par.name, &par.keys[par.zsk], &w, &d, t);
			extra.extend(d.into_iter().map(|d| Rec::new(&l.name, d)));
			extra.push(Rec::new(&l.name, D::Sig(g)));
			if s.bool() {
				let mut prev = l.name.clone();
				prev.0[0].pop();
				if prev.0[0].is_empty() { prev.0[0] = b"!".to_vec(); }
				let mut next = l.name.clone();
				next.0[0].push(b'0');
				extra.extend(signed(&par.name, &par.keys[par.zsk], &prev, vec![D::Nsec(next, [NSEC, RRSIG].into_iter().collect())], t));
			}
			("delegation from a wildcard", false)
		},
		29 => {
			// A delegation signed by a child or a grandparent: only a trusted ancestor's counts.
			if li < 2 { return Ok(()); }
			let gp = &links[s.usize(0, li - 2)];
			let d = p.ds.clone();
			p.ds.clear();
			extra.extend(signed(&gp.name, &gp.keys[gp.zsk], &l.name, d, t));
			("delegation signed by a more distant ancestor", true)
		},
		30 => {
			// Nobody delegated to this key; its owner puts it under the zone's name with a signature of its own.
			let k = other(s, 257);
			if s.bool() { p.keys = vec![k]; p.key_signers = vec![0]; p.zsk = 0; } else { p.keys.insert(0, k); p.key_signers = vec![0]; p.zsk = 0; }
			("foreign key set", false)
		},
		31 => {
			// The signature over the key set is one over another set.
			p.key_signers.clear();
			let k = other(s, 257);
			let t2 = times(s);
			let g = sign_set(&l.name, ksk, &l.name, &[D::Key(k.data())], t2);
			extra.push(Rec::new(&l.name, D::Sig(g)));
			("key set signature covers other keys", false)
		},
		32 => {
			// A key set signed in the name of another zone.
			p.key_signers.clear();
			let n = if root { MName::of("com.") } else { MName::root() };
			let all: Vec<D> = l.keys.iter().map(|k| D::Key(k.data())).collect();
			let mut g = sign_set(&n, ksk, &l.name, &all, t);
			// The signature covers the signer name, so restoring it does not help. (A key set signed by the right key
			// in the name of another zone is not judged: only the holder of that key could have made it.)
			g.signer = l.name.clone();
			extra.push(Rec::new(&l.name, D::Sig(g)));
			("key set signature by another signer name", false)
		},
		_ => { if root { p.keys.push(other(s, 256)); } else { p.ds.reverse(); } ("further published key", true) },
	};
	// Assemble.
	let mut recs = Vec::new();
	for (i, l) in links.iter().enumerate() {
		let p = &parts[i];
		let kd: Vec<D> = p.keys.iter().map(|k| D::Key(k.data())).collect();
		recs.extend(kd.iter().map(|d| Rec::new(&l.name, d.clone())));
		for k in &p.key_signers { recs.push(Rec::new(&l.name, D::Sig(sign_set(&l.name, &p.keys[*k], &l.name, &kd, t)))); }
		if i > 0 && !p.ds.is_empty() {
			let par = &links[i - 1];
			recs.extend(p.ds.iter().map(|d| Rec::new(&l.name, d.clone())));
			if p.ds_sig { recs.push(Rec::new(&l.name, D::Sig(sign_set(&par.name, &parts[i - 1].keys.get(parts[i - 1].zsk).unwrap_or(&par.keys[par.zsk]), &l.name, &p.ds, t)))); }
		}
	}
	// Data in the altered zone or further down.
	let di = if s.chance(2, 3) { li } else { links.len() - 1 };
	let d = &links[di];
	let owner = gen::clamp(d.name.child_s(host(s)));
	let data = leaf_set(s, TXT);
	if parts[di].zsk != usize::MAX {
		let k = &parts[di].keys[parts[di].zsk];
		recs.extend(signed(&d.name, k, &owner, data.clone(), t));
	} else { recs.extend(signed(&d.name, &d.keys[d.zsk], &owner, data.clone(), t)); }
	recs.extend(extra);
	// Signed data further up must not hide the outcome.
	if s.chance(1, 4) && li > 0 { recs.extend(signed(&links[0].name, &links[0].keys[links[0].zsk], &MName::of("zzz."), vec![D::A([1, 2, 3, 4])], t)); }
	let mut recs = dedup(recs);
	s.shuffle(&mut recs);
	// The root's delegation is the trust anchor.
	let anchors: Vec<Deleg> = parts[0].ds.iter().filter_map(|d| if let D::Ds(d) = d { Some(d.clone()) } else { None }).collect();
	let ok = ok || (root && op == 14 && false);
	// The built-in anchors have SHA-256 digests, so a SHA-1 anchor does not count.
	let ok = if root && op == 12 { false } else { ok };
	c.nontrivial(key_of(&recs));
	c.label(what);
	c.label(format!("level {} of {}", li, links.len()));
	c.note(|| format!("{} at {}; anchors {:?}; records: {}", what, l.name.text(), anchors.iter().map(|a| (a.tag, a.alg, a.dt)).collect::<Vec<_>>(), show_all(&recs)));
	let r = verify(&recs, &anchors)?;
	c.note(|| r.show());
	let got: Vec<&Rec> = match &r.out { Ok(o) => o.recs.iter().filter(|x| x.name == owner || x.name.labels() > 0 && x.name.0[0] == b"q").collect(), Err(_) => vec![] };
	if ok {
		if got.len() != data.len() { return Err(format!("{} at zone {}: the data does not verify ({})", what, l.name.text(), r.show())); }
	} else if !got.is_empty() {
		return Err(format!("{} at zone {}: {} verifies nevertheless", what, l.name.text(), show(got[0])));
	}
	Ok(())
}
/// Without the extra anchors only the built-in ones count.
fn anchors_only(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { zones: (1, 3), insecure: 0, fams: [40, 20, 2, 3, 0], ..Default::default() });
	let Some(p) = proof(s, &u, 2) else { return Ok(()) };
	let mut recs = p.recs.clone();
	// Genuine-looking anchors inside of the proof do not help.
	let mode = s.below(4);
	if mode >= 1 {
		let z = &u.zones[0];
		let ds = z.ds_set();
		recs.extend(signed(&z.name, &z.keys[z.zsk[0]], &z.name, ds, times(s)));
	}
	s.shuffle(&mut recs);
	let anchors = match mode {
		2 => { let mut ks = u.zones[0].keys.clone(); let i = add_key(s, &mut ks, Fam::Ed25519, 257); vec![ks[i].ds(&MName::root(), 2)] },
		3 => u.anchors().into_iter().map(|mut a| { let i = s.usize(0, 31); a.digest[i] ^= 1; a }).collect(),
		_ => vec![],
	};
	c.nontrivial(key_of(&recs) ^ mode);
	c.label(["no anchor", "anchor inside of the proof", "anchor of another key", "anchor with another digest"][mode as usize]);
	c.note(|| show_all(&recs));
	let r = verify(&recs, &anchors)?;
	match &r.out { Ok(o) => Err(format!("verifies without a trusted root key: {}", show_all(&o.recs))), Err(_) => Ok(()) }
}
/// The anchors are those IANA publishes, and key tags are computed as RFC 4034 says.
fn anchors_and_tags(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let iana = [
		(19036u16, "49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F24E8FB5"),
		(20326, "E06D44B80B8F1D39A95C0B0D7C65D08458E880409BBC683457104237C7F8EC8D"),
		(38696, "683D2D0ACB8C9B712A1948B27F741219298D0A450D612C483AF444A4C0FB2B16"),
	];
	set_anchors(&[]);
	let hints = sut(|| dnssec_prover::validation::root_hints())?;
	for h in &hints {
		let hex: String = h.digest.iter().map(|b| format!("{:02X}", b)).collect();
		if h.name.as_str() != "." || h.alg != 8 || h.digest_type != 2 || !iana.contains(&(h.key_tag, &hex)) { return Err(format!("{:?} is no trust anchor published by IANA", h)); }
	}
	if !hints.iter().any(|h| h.key_tag == 20326) { return Err("the root zone's key 20326 is not a trust anchor".into()); }
	let len = match s.below(4) { 0 => s.below(8) as usize, 1 => *s.pick(&[64usize, 32, 96, 260, 259, 516]), _ => gen::len_biased(s, 65531) };
	let any = s.u16();
	let k = Key { flags: *s.pick(&[256u16, 257, 385, 0, 0xffff, any]), proto: *s.pick(&[3u8, 3, 0, 255]), alg: *s.pick(&[8u8, 10, 13, 14, 15, 5, 0, 253, 255]), key: if s.chance(1, 4) { vec![*s.pick(&[0u8, 255]); len] } else { s.bytes(len) } };
	let r = Rec::new(&gen::name(s), D::Key(k));
	c.nontrivial(key_of(&[r.clone()]));
	c.label(if len % 2 == 0 { "even key length" } else { "odd key length" });
	c.note(|| show(&r));
	let dnssec_prover::rr::RR::DnsKey(d) = crate::model::conv::to_sut(&r) else { return Err("not a key".into()) };
	let (got, want) = (sut(|| d.key_tag())?, key_tag(&r.d.rdata()));
	if got != want { return Err(format!("the key tag of {} is given as {}, not {}", show(&r), got, want)); }
	Ok(())
}
/// A zone's key set holds a key with the tag of the delegated one, which nobody delegated to and which vouches for the set.
fn same_tag(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let links = straight(s, &[70, 30, 0, 0, 0]);
	let li = s.usize(0, links.len() - 1);
	let flags = if s.chance(3, 4) { 257u16 } else { 256 };
	let (a, b) = *s.pick(same_tag_pairs(flags));
	let (a, b) = if s.bool() { (a, b) } else { (b, a) };
	let (good, evil) = (ZKey { k: key(Fam::Ed25519, a), flags, proto: 3 }, ZKey { k: key(Fam::Ed25519, b), flags, proto: 3 });
	let t = times(s);
	// What the foreign key does.
	let op = s.below(5);
	let what = ["signs the key set", "signs the key set it is alone in", "signs the data, outside of the key set", "signs the delegation further down, outside of the key set", "signs a key set the genuine one signs in part"][op as usize];
	let mut recs = Vec::new();
	let mut anchors: Vec<Deleg> = Vec::new();
	let mut signer: ZKey = good.clone();
	for (i, l) in links.iter().enumerate() {
		let here = i == li;
		let ksk = if here { good.clone() } else { l.keys[l.ksk].clone() };
		let ds = vec![D::Ds(ksk.ds(&l.name, 2))];
		if i == 0 { anchors = vec![ksk.ds(&l.name, 2)]; } else { recs.extend(signed(&links[i - 1].name, &signer, &l.name, ds, t)); }
		if !here {
			let kd: Vec<D> = l.keys.iter().map(|k| D::Key(k.data())).collect();
			recs.extend(signed(&l.name, &ksk, &l.name, kd, t));
			signer = l.keys[l.zsk].clone();
			continue;
		}
		let both = vec![D::Key(good.data()), D::Key(evil.data())];
		match op {
			0 => recs.extend(signed(&l.name, &evil, &l.name, both, t)),
			1 => recs.extend(signed(&l.name, &evil, &l.name, vec![D::Key(evil.data())], t)),
			4 => {
				recs.extend(signed(&l.name, &good, &l.name, vec![D::Key(good.data())], t));
				recs.push(Rec::new(&l.name, D::Key(evil.data())));
				if s.bool() { recs.push(Rec::new(&l.name, D::Sig(sign_set(&l.name, &evil, &l.name, &both, t)))); }
			},
			_ => recs.extend(signed(&l.name, &good, &l.name, vec![D::Key(good.data())], t)),
		}
		signer = evil.clone();
	}
	let last = links.last().unwrap();
	let owner = gen::clamp(last.name.child_s(host(s)));
	let data = leaf_set(s, TXT);
	let mut di = links.len() - 1;
	if op == 3 && li == di { return Ok(()); }
	if op == 2 { di = li; }
	let d = &links[di];
	let owner = if op == 2 { gen::clamp(d.name.child_s(host(s))) } else { owner };
	let k = if di == li { evil.clone() } else { d.keys[d.zsk].clone() };
	recs.extend(signed(&d.name, &k, &owner, data, t));
	let mut recs = dedup(recs);
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	c.label(format!("foreign key of the same tag {}", what));
	c.label(if good.k.public < evil.k.public { "foreign key sorts last" } else { "foreign key sorts first" });
	c.note(|| format!("level {} of {}, records: {}", li, links.len(), show_all(&recs)));
	let r = verify(&recs, &anchors)?;
	c.note(|| r.show());
	if let Ok(o) = &r.out { if let Some(x) = o.recs.iter().find(|x| x.name == owner) {
		return Err(format!("an undelegated key with the delegated key's tag {} of {}, and {} verifies", what, links[li].name.text(), show(x)));
	} }
	Ok(())
}
/// Several digest types and keys in one delegation against a reference evaluation.
fn digest_mix(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let root = ZKey { k: key(Fam::Ed25519, 1), flags: 257, proto: 3 };
	let zone = MName::of("zone.");
	let mut keys = Vec::new();
	for _ in 0..s.usize(1, 3) {
		let f = fam(s, &[50, 30, 2, 0, 0]);
		let flags = if s.chance(1, 6) { *s.pick(&[0u16, 1]) } else { 257 };
		let i = add_key(s, &mut keys, f, flags);
		if s.chance(1, 8) { keys[i].proto = 2; }
	}
	let mut ds: Vec<D> = Vec::new();
	for _ in 0..s.usize(1, 4) {
		let k = s.pick(&keys).clone();
		let mut d = k.ds(&zone, *s.pick(&[2u8, 1, 4, 2, 1, 3]));
		match s.below(6) { 0 => { let n = d.digest.len(); d.digest[n - 1] ^= 0x10; }, 1 => d.tag = d.tag.wrapping_add(1), _ => {} }
		if !ds.contains(&D::Ds(d.clone())) { ds.push(D::Ds(d)); }
	}
	let signers: Vec<usize> = { let v: Vec<usize> = (0..keys.len()).collect(); let w = s.subset(&v, 2, 3); if w.is_empty() { vec![0] } else { w } };
	let t = times(s);
	let kd: Vec<D> = keys.iter().map(|k| D::Key(k.data())).collect();
	let mut recs: Vec<Rec> = signed(&MName::root(), &root, &MName::root(), vec![D::Key(root.data())], t);
	recs.extend(signed(&MName::root(), &root, &zone, ds.clone(), t));
	recs.extend(kd.iter().map(|d| Rec::new(&zone, d.clone())));
	for k in &signers { recs.push(Rec::new(&zone, D::Sig(sign_set(&zone, &keys[*k], &zone, &kd, t)))); }
	// Data signed by a good key of the zone.
	let Some(dk) = keys.iter().find(|k| k.flags & 256 != 0 && k.proto == 3) else { return Ok(()) };
	let owner = zone.child_s("www");
	let data = vec![D::A([9, 9, 9, s.u8()])];
	recs.extend(signed(&zone, dk, &owner, data.clone(), t));
	s.shuffle(&mut recs);
	// Reference: which keys does the delegation vouch for?
	let dl: Vec<&Deleg> = ds.iter().filter_map(|d| if let D::Ds(d) = d { Some(d) } else { None }).collect();
	let strong = dl.iter().any(|d| d.dt == 2 || d.dt == 4);
	let vouched = |k: &ZKey| dl.iter().any(|d| (d.dt == 2 || (d.dt == 1 && !strong)) && **d == k.ds(&zone, d.dt));
	let usable = |k: &ZKey| vouched(k) && k.flags & 256 != 0 && k.proto == 3;
	let good = signers.iter().any(|k| usable(&keys[*k]));
	// A signature by a vouched-for but unusable key fails the proof: then the outcome depends on which is looked at first.
	let muddled = signers.iter().any(|k| vouched(&keys[*k]) && !usable(&keys[*k]));
	c.nontrivial(key_of(&recs));
	c.label(if good { if muddled { "good and bad signers" } else { "trusted" } } else { "not trusted" });
	c.note(|| format!("{}", show_all(&recs)));
	let r = verify(&recs, &[root.ds(&MName::root(), 2)])?;
	c.note(|| r.show());
	let got = matches!(&r.out, Ok(o) if !o.recs.is_empty());
	if got && !good { return Err(format!("the zone is trusted although no delegated key signs its key set: {}", r.show())); }
	if !got && good && !muddled { return Err(format!("the zone is not trusted ({}) although a delegated key signs its key set", r.show())); }
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// C11

/// The hash just before or after another, in the ring of hashes.
fn nudge(h: &[u8], up: bool) -> Vec<u8> {
	let mut h = h.to_vec();
	for i in (0..h.len()).rev() {
		if up { let (v, o) = h[i].overflowing_add(1); h[i] = v; if !o { break; } } else { let (v, o) = h[i].overflowing_sub(1); h[i] = v; if !o { break; } }
	}
	h
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Worth { Yes, No, Either }
fn denial_of_existence(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { zones: (1, 4), insecure: 10, wildcards: 100, optout: 30, max_owners: 6, fams: [70, 25, 2, 0, 0], ..Default::default() });
	let w: Vec<(usize, MName, u16)> = published(&u).into_iter().filter(|x| x.1.is_wildcard() && !is_infra(x.2) && u.secure(x.0)).collect();
	if w.is_empty() { return Ok(()); }
	let (zi, wo, wt) = s.pick(&w).clone();
	let z = &u.zones[zi];
	let under = wo.parent().unwrap();
	// Where the wildcard is claimed to apply: somewhere new, or at, above or below something that exists.
	let below: Vec<MName> = z.owners().into_iter().chain(u.zones.iter().map(|z| z.name.clone())).filter(|n| n.is_below(&under)).collect();
	let mut at = if below.is_empty() || s.chance(1, 2) { under.child_s(host(s)) } else { s.pick(&below).clone() };
	match s.below(5) { 0 => at = at.child_s(host(s)), 1 => if at.labels() > under.labels() + 1 { at = at.parent().unwrap() }, _ => {} }
	let at = gen::clamp(at);
	if !at.is_below(&under) || at == wo { return Ok(()); }
	let nc = at.suffix(under.labels() + 1);
	let key_z = &z.keys[z.zsk[0]];
	let t = times(s);
	let mut set: Vec<Rec> = z.rrset_at(&wo, wt, &at);
	// The set is signed by the key used here only, so that what is below is the only other thing in play.
	set.retain(|r| !matches!(&r.d, D::Sig(g) if g.tag != key_z.tag()));
	let mut recs = u.chain(zi);
	recs.extend(set.iter().cloned());
	// Candidate denials: (records, worth, description).
	let mut cand: Vec<(Vec<Rec>, Worth, &'static str)> = Vec::new();
	let worth_of = |o: &MName, d: &D| -> Worth {
		match covers(&z.name, o, d, &nc) {
			Some(true) => match d {
				D::Nsec3(x) if x.flags != 0 || x.iters > 2500 => Worth::No,
				D::Nsec(..) if wraps(&z.name, o, d) => Worth::Either,
				_ => Worth::Yes,
			},
			_ => Worth::No,
		}
	};
	let n_cand = *s.pick(&[1usize, 1, 2, 3, 0]);
	// Records with a signature of another name make the proof invalid.
	let moved = "NSEC of a wildcard under another name";
	// Parameters alike or not.
	let salts: Vec<(u16, Vec<u8>)> = if s.chance(1, 3) {
		let i = *s.pick(&[0u16, 1, 10]);
		let k = s.usize(1, 9);
		let a = s.bytes(k);
		let mut b = a.clone();
		b[s.usize(0, k - 1)] ^= 1 << s.below(8);
		vec![(i, a), (i, b)]
	} else { vec![(0, vec![]), (*s.pick(&[1u16, 10, 2500, 2499]), vec![0xab])] };
	let gen_n3 = |s: &mut Src, iters: u16, salt: &[u8]| -> (MName, N3) {
		// At times the interval is that of the name under the other parameters.
		let h = if s.chance(1, 5) { let (i, x) = s.pick(&salts).clone(); nsec3_hash(&nc, &x, i) } else { nsec3_hash(&nc, salt, iters) };
		let far = |s: &mut Src| s.bytes(20);
		let (start, next) = match s.weighted(&[4, 2, 2, 2, 2, 2, 2]) {
			0 => (nudge(&h, false), nudge(&h, true)),
			1 => (h.clone(), nudge(&h, true)),
			2 => (nudge(&h, false), h.clone()),
			3 => (h.clone(), h.clone()),
			4 => (nudge(&h, true), nudge(&h, false)),
			5 => { let a = far(s); (a.clone(), a) },
			_ => (far(s), far(s)),
		};
		(z.name.child(&b32(&start)), N3 { alg: 1, flags: 0, iters, salt: salt.to_vec(), next, types: if s.bool() { [A, RRSIG].into_iter().collect() } else { BTreeSet::new() } })
	};
	for _ in 0..n_cand {
		match s.weighted(&[5, 6, 3, 3, 3, 3, 3, 3, 2, 2, 1]) {
			0 => {
				// What the zone really publishes.
				let den: Vec<(MName, u16)> = z.sets.keys().filter(|k| k.1 == NSEC || k.1 == NSEC3).cloned().collect();
				let all = s.bool();
				for (o, ty) in den {
					if !(all || s.chance(1, 3)) { continue; }
					let v: Vec<Rec> = z.rrset(&o, ty).into_iter().filter(|r| !matches!(&r.d, D::Sig(g) if g.tag != key_z.tag())).collect();
					let wo = worth_of(&o, &v[0].d);
					cand.push((v, wo, "published denial"));
				}
			},
			1 => {
				let (iters, salt) = s.pick(&salts).clone();
				let (o, n) = gen_n3(s, iters, &salt);
				let d = D::Nsec3(n);
				let wo = worth_of(&o, &d);
				cand.push((signed(&z.name, key_z, &o, vec![d], t), wo, "NSEC3 around the hash"));
			},
			2 => {
				let (iters, salt) = s.pick(&salts).clone();
				let h = nsec3_hash(&nc, &salt, iters);
				let d = D::Nsec3(N3 { alg: 1, flags: *s.pick(&[1u8, 2, 128, 3, 255]), iters, salt, next: nudge(&h, true), types: BTreeSet::new() });
				cand.push((signed(&z.name, key_z, &z.name.child(&b32(&nudge(&h, false))), vec![d], t), Worth::No, "NSEC3 with flags"));
			},
			3 => {
				let iters = *s.pick(&[2501u16, 2502, 5000, 10_000]);
				let h = nsec3_hash(&nc, &[1], iters);
				let d = D::Nsec3(N3 { alg: 1, flags: 0, iters, salt: vec![1], next: nudge(&h, true), types: BTreeSet::new() });
				cand.push((signed(&z.name, key_z, &z.name.child(&b32(&nudge(&h, false))), vec![d], t), Worth::No, "over-iterated NSEC3"));
			},
			4 => {
				let (iters, salt) = s.pick(&salts).clone();
				let h = nsec3_hash(&nc, &salt, iters);
				let d = D::Nsec3(N3 { alg: *s.pick(&[0u8, 2, 255, 6]), flags: 0, iters, salt, next: nudge(&h, true), types: BTreeSet::new() });
				cand.push((signed(&z.name, key_z, &z.name.child(&b32(&nudge(&h, false))), vec![d], t), Worth::No, "NSEC3 of an unknown hash"));
			},
			5 => {
				// NSEC with the interval ending or starting at, below or next to the name.
				let near = |s: &mut Src, up: bool| -> MName {
					let mut n = nc.clone();
					match s.below(5) {
						0 => nc.clone(),
						1 => nc.child_s(host(s)),
						2 => { if up { n.0[0].push(b'0'); } else { n.0[0].pop(); if n.0[0].is_empty() { n.0[0] = b"!".to_vec(); } } n },
						3 => { n.0[0] = if up { b"zz".to_vec() } else { b"!".to_vec() }; n },
						_ => if up { n.0[0] = b"~".to_vec(); n } else { under.clone() },
					}
				};
				let (a, b) = (near(s, false), near(s, true));
				if !a.fits() || !b.fits() || !a.is_in(&z.name) { continue; }
				let d = D::Nsec(b, [TXT, NSEC, RRSIG].into_iter().collect());
				let wo = worth_of(&a, &d);
				cand.push((signed(&z.name, key_z, &a, vec![d], t), wo, "NSEC around the name"));
			},
			6 => {
				// Covering, but signed by another zone (above or below).
				let others: Vec<usize> = (0..u.zones.len()).filter(|i| *i != zi && u.secure(*i)).collect();
				if others.is_empty() { continue; }
				let oi = *s.pick(&others);
				let o = &u.zones[oi];
				let ok = &o.keys[o.zsk[0]];
				if s.bool() {
					let h = nsec3_hash(&nc, &[], 0);
					let d = D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: nudge(&h, true), types: BTreeSet::new() });
					let mut v = signed(&o.name, ok, &o.name.child(&b32(&nudge(&h, false))), vec![d], t);
					v.extend(u.chain(oi));
					cand.push((v, Worth::No, "NSEC3 of another zone"));
				} else {
					let mut b = nc.clone();
					b.0[0].push(b'0');
					let mut a = nc.clone();
					a.0[0].pop();
					if a.0[0].is_empty() { a.0[0] = b"!".to_vec(); }
					// A zone that is not an ancestor cannot sign for a name here; that is checked elsewhere.
					if !a.is_in(&o.name) { continue; }
					let mut v = signed(&o.name, ok, &a, vec![D::Nsec(b, [TXT, NSEC, RRSIG].into_iter().collect())], t);
					v.extend(u.chain(oi));
					cand.push((v, Worth::No, "NSEC signed by another zone"));
				}
			},
			7 => {
				// Covering, but not signed at all.
				if s.bool() {
					let h = nsec3_hash(&nc, &[], 0);
					let d = D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: nudge(&h, true), types: BTreeSet::new() });
					cand.push((vec![Rec::new(&z.name.child(&b32(&nudge(&h, false))), d)], Worth::No, "unsigned NSEC3"));
				} else {
					let mut b = nc.clone();
					b.0[0].push(b'0');
					cand.push((vec![Rec::new(&under, D::Nsec(b, [TXT].into_iter().collect()))], Worth::No, "unsigned NSEC"));
				}
			},
			9 => {
				let wild = under.wildcard();
				let mut a = nc.clone();
				if s.bool() { a.0[0].pop(); if a.0[0].is_empty() { a.0[0] = b"!".to_vec(); } } else { a.0[0] = s.pick(&[&b"!"[..], b"a", b"0", b"x"]).to_vec(); }
				if s.chance(1, 4) { a = a.child_s(host(s)); }
				let mut b = nc.clone();
				b.0[0].push(b'0');
				if !a.fits() || a == wild || a == nc { continue; }
				let d = D::Nsec(b, [TXT, NSEC, RRSIG].into_iter().collect());
				let g = sign_set(&z.name, key_z, &wild, &[d.clone()], t);
				cand.push((vec![Rec::new(&a, d), Rec::new(&a, D::Sig(g))], Worth::No, moved));
			},
			8 => {
				// An owner or next hash that is no SHA-1 hash in base 32, in place of one that would cover everything up to the name.
				let (iters, salt) = s.pick(&salts).clone();
				let h = nsec3_hash(&nc, &salt, iters);
				let mut l = b32(&[0; 20]);
				let mut next = nudge(&h, true);
				match s.below(6) {
					0 | 1 => { let i = s.usize(0, 31); l[i] = *s.pick(b"wxyz-_:;<=>?@[]^`{|}~!/*"); },
					2 => { let k = *s.pick(&[31usize, 30, 24, 16, 8, 1]); l.truncate(k); },
					3 => l.extend(std::iter::repeat(b'0').take(*s.pick(&[1usize, 2, 7, 8, 16]))),
					4 => { let k = *s.pick(&[19usize, 1, 0, 16]); next = vec![0xff; k]; },
					_ => next.extend(std::iter::repeat(0).take(*s.pick(&[1usize, 12]))),
				}
				let d = D::Nsec3(N3 { alg: 1, flags: 0, iters, salt, next, types: BTreeSet::new() });
				cand.push((signed(&z.name, key_z, &z.name.child(&l), vec![d], t), Worth::No, "NSEC3 with a malformed hash"));
			},
			_ => {
				// The name is denied a type, or matched, but not denied existence.
				if s.bool() {
					let mut b = nc.clone();
					b.0[0].push(b'0');
					let types: BTreeSet<u16> = [NSEC, RRSIG, if wt == A { TXT } else { A }].into_iter().collect();
					cand.push((signed(&z.name, key_z, &nc, vec![D::Nsec(b, types)], t), Worth::No, "NSEC matching the name without the type"));
				} else {
					let h = nsec3_hash(&nc, &[], 0);
					let d = D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: nudge(&h, true), types: BTreeSet::new() });
					cand.push((signed(&z.name, key_z, &z.name.child(&b32(&h)), vec![d], t), Worth::No, "NSEC3 matching the name without the type"));
				}
			},
		}
	}
	// Two denial sets at one owner name would invalidate each other's signatures: keep the first at each.
	let mut owners: BTreeSet<(MName, u16)> = BTreeSet::new();
	let mut worth = Worth::No;
	let mut what: Vec<String> = Vec::new();
	let mut sets: BTreeSet<(u16, Vec<u8>)> = BTreeSet::new();
	for (v, wo, d) in cand {
		let k = (v[0].name.clone(), v[0].ty());
		if owners.contains(&k) || (set[0].name == k.0 && wt == k.1) { continue; }
		// At most two parameter sets among usable records (more is documented not to be supported).
		if let D::Nsec3(x) = &v[0].d { if x.iters <= 2500 && x.alg == 1 { let p = (x.iters, x.salt.clone()); if !sets.contains(&p) && sets.len() == 2 { continue; } sets.insert(p); } }
		owners.insert(k);
		what.push(format!("{}: {:?}", d, wo));
		c.label(format!("{}: {:?}", d, wo));
		if wo == Worth::Yes || (wo == Worth::Either && worth == Worth::No) { worth = wo; }
		recs.extend(v);
	}
	if what.iter().any(|w| w.starts_with(moved)) { worth = Worth::No; }
	let mut recs = dedup(recs);
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	c.label(format!("expected {:?}", worth));
	c.note(|| u.show());
	c.note(|| format!("{} claimed at {} (next closer {}); denials {:?}; records: {}", wo.text(), at.text(), nc.text(), what, show_all(&recs)));
	let r = verify(&recs, &u.anchors())?;
	c.note(|| r.show());
	let got = match &r.out { Ok(o) => o.recs.iter().any(|x| x.name == at && x.ty() == wt), Err(_) => false };
	match worth {
		Worth::Yes if !got => Err(format!("the expansion of {} at {} is rejected ({}) although its next closer name is denied", wo.text(), at.text(), r.show())),
		Worth::No if got => Err(format!("the expansion of {} at {} verifies without a denial of {}", wo.text(), at.text(), nc.text())),
		_ => Ok(()),
	}
}
/// Several expansions, each of which needs its own denial.
fn several_wildcards(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let root = ZKey { k: key(Fam::Ed25519, 1), flags: 257, proto: 3 };
	let nsec3 = s.bool();
	let n_zones = s.usize(1, 2);
	let t = times(s);
	let names = [MName::root(), MName::of("a.")];
	let keys = [root.clone(), ZKey { k: key(Fam::Ed25519, 2), flags: 257, proto: 3 }];
	let mut recs = signed(&names[0], &root, &names[0], vec![D::Key(root.data())], t);
	if n_zones == 2 {
		recs.extend(signed(&names[0], &root, &names[1], vec![D::Ds(keys[1].ds(&names[1], 2))], t));
		recs.extend(signed(&names[1], &keys[1], &names[1], vec![D::Key(keys[1].data())], t));
	}
	let n = s.usize(1, 4);
	let mut denied: BTreeSet<(usize, MName)> = BTreeSet::new();
	let mut need: BTreeSet<(usize, MName)> = BTreeSet::new();
	let mut used: BTreeSet<(MName, u16)> = BTreeSet::new();
	for _ in 0..n {
		// The same name may be expanded for several types, or in the name of two zones.
		let zi = s.usize(0, n_zones - 1);
		let base = names[1].child_s(*s.pick(&["w", "v"][..]));
		let nc = base.child_s(*s.pick(&["m", "n"][..]));
		let at = if s.bool() { nc.child_s("x") } else { nc.clone() };
		let ty = *s.pick(&[TXT, A, AAAA]);
		if !used.insert((at.clone(), ty)) { continue; }
		let d = vec![leaf_data(s, ty)];
		let g = sign_set(&names[zi], &keys[zi], &base.wildcard(), &d, t);
		recs.push(Rec::new(&at, d[0].clone()));
		recs.push(Rec::new(&at, D::Sig(g)));
		need.insert((zi, nc.clone()));
		if s.chance(3, 4) && !denied.contains(&(zi, nc.clone())) {
			let v = if nsec3 {
				let h = nsec3_hash(&nc, &[], 0);
				signed(&names[zi], &keys[zi], &names[zi].child(&b32(&nudge(&h, false))), vec![D::Nsec3(N3 { alg: 1, flags: 0, iters: 0, salt: vec![], next: nudge(&h, true), types: BTreeSet::new() })], t)
			} else {
				let mut a = nc.clone();
				a.0[0] = vec![a.0[0][0] - 1, b'z', b'0' + zi as u8];
				let mut b = nc.clone();
				b.0[0].push(b'0');
				signed(&names[zi], &keys[zi], &a, vec![D::Nsec(b, [TXT, RRSIG, NSEC].into_iter().collect())], t)
			};
			recs.extend(v);
			denied.insert((zi, nc.clone()));
		}
	}
	let mut recs = dedup(recs);
	s.shuffle(&mut recs);
	c.nontrivial(key_of(&recs));
	let all = need.iter().all(|x| denied.contains(x));
	c.label(if all { "all denied" } else { "one missing" });
	c.note(|| format!("need {:?} denied {:?}; {}", need, denied, show_all(&recs)));
	let r = verify(&recs, &[root.ds(&MName::root(), 2)])?;
	c.note(|| r.show());
	match (all, r.out.is_ok()) {
		(true, false) => Err(format!("all next closer names are denied, but the proof is rejected ({})", r.show())),
		(false, true) => Err("a wildcard expansion without denial is accepted next to others with one".to_string()),
		_ => Ok(()),
	}
}

// ---------------------------------------------------------------------------------------------------------------
// C14

const UNSUPPORTED: [u8; 12] = [5, 7, 1, 3, 6, 12, 16, 17, 0, 253, 254, 255];
fn unsupported_key(s: &mut Src, flags: u16) -> ZKey { let a = *s.pick(&UNSUPPORTED); ZKey { k: key(Fam::Unsupported(a), s.below(16) as usize), flags, proto: 3 } }

/// What becomes of data in the altered zone and below it: verified, or never verified; and the error if nothing else is wrong.
#[derive(PartialEq, Clone, Copy, Debug)]
enum Want { Verified, Not, NotUnsupported }
pub struct OddChain { pub recs: Vec<Rec>, pub anchors: Vec<Deleg>, what: &'static str, want: Want, at: MName, owner: MName, up_owner: Option<MName>, side_owner: Option<MName> }

/// A straight chain, one zone of which uses something unsupported.
pub fn odd_chain(s: &mut Src) -> Option<OddChain> {
	let links = straight(s, &[60, 30, 3, 1, 1]);
	let li = s.usize(0, links.len() - 1);
	let last = links.len() - 1;
	let t = times(s);
	let root = li == 0;
	let op = s.below(12);
	// For each zone: key set, its signers, DS records, keys that sign data and delegations.
	struct P { keys: Vec<ZKey>, signers: Vec<ZKey>, ds: Vec<D>, zsk: Vec<ZKey> }
	let mut ps: Vec<P> = links.iter().map(|l| P { keys: l.keys.clone(), signers: vec![l.keys[l.ksk].clone()], ds: vec![D::Ds(l.keys[l.ksk].ds(&l.name, 2))], zsk: vec![l.keys[l.zsk].clone()] }).collect();
	let l = &links[li];
	let p = &mut ps[li];
	let (what, want) = match op {
		0 => { let k = unsupported_key(s, 256); p.keys.push(k.clone()); p.zsk = vec![k]; ("data and delegations signed with an unsupported algorithm only", Want::Not) },
		1 => { let k = unsupported_key(s, 256); p.keys.push(k.clone()); p.zsk.push(k); ("data signed with both", Want::Verified) },
		2 => { let k = unsupported_key(s, 257); p.keys = vec![k.clone()]; p.signers = vec![k.clone()]; p.ds = vec![D::Ds(k.ds(&l.name, 2))]; p.zsk = vec![k]; ("zone key of an unsupported algorithm", if root { Want::NotUnsupported } else { Want::NotUnsupported }) },
		3 => { if root { return None; } p.ds = vec![D::Ds(l.keys[l.ksk].ds(&l.name, *s.pick(&[3u8, 5, 0, 255, 6])))]; ("unsupported digest type", Want::NotUnsupported) },
		4 => { if root { return None; } p.ds = vec![D::Ds(l.keys[l.ksk].ds(&l.name, 4))]; ("SHA-384 digest only", Want::NotUnsupported) },
		5 => { let k = unsupported_key(s, 257); p.keys.push(k.clone()); p.signers.push(k.clone()); p.ds.push(D::Ds(k.ds(&l.name, 2))); ("key set signed with both, both delegated to", Want::Verified) },
		6 => { let k = unsupported_key(s, 257); p.keys.push(k.clone()); p.signers.push(k); ("key set signed with both, supported one delegated to", Want::Verified) },
		7 => { let k = unsupported_key(s, 257); p.keys.push(k.clone()); p.ds.push(D::Ds(k.ds(&l.name, 2))); ("unsupported key delegated to but not used", Want::Verified) },
		8 => {
			// Unsupported key delegated to, the zone's supported key is not.
			let k = unsupported_key(s, 257);
			p.keys.push(k.clone());
			p.signers = vec![k.clone()];
			p.ds = vec![D::Ds(k.ds(&l.name, 2))];
			("only an unsupported key is delegated to", Want::NotUnsupported)
		},
		9 => { if root { return None; } let mut d = l.keys[l.ksk].ds(&l.name, 1); d.dt = 1; let x = l.keys[l.ksk].ds(&l.name, 4); p.ds = vec![D::Ds(d), D::Ds(x)]; ("SHA-1 and SHA-384 digests", Want::NotUnsupported) },
		10 => { if root { return None; } p.ds.push(D::Ds(l.keys[l.ksk].ds(&l.name, *s.pick(&[3u8, 4, 5])))); ("supported and unsupported digest types", Want::Verified) },
		_ => { let k = unsupported_key(s, 256); p.keys.push(k); ("unsupported key published", Want::Verified) },
	};
	let mut recs = Vec::new();
	for (i, l) in links.iter().enumerate() {
		let p = &ps[i];
		let kd: Vec<D> = p.keys.iter().map(|k| D::Key(k.data())).collect();
		recs.extend(kd.iter().map(|d| Rec::new(&l.name, d.clone())));
		for k in &p.signers { recs.push(Rec::new(&l.name, D::Sig(sign_set(&l.name, k, &l.name, &kd, t)))); }
		if i > 0 {
			recs.extend(p.ds.iter().map(|d| Rec::new(&l.name, d.clone())));
			for k in &ps[i - 1].zsk { recs.push(Rec::new(&l.name, D::Sig(sign_set(&links[i - 1].name, k, &l.name, &p.ds, t)))); }
		}
	}
	let add = |recs: &mut Vec<Rec>, i: usize, owner: &MName, data: &[D]| {
		recs.extend(data.iter().map(|d| Rec::new(owner, d.clone())));
		for k in &ps[i].zsk { recs.push(Rec::new(owner, D::Sig(sign_set(&links[i].name, k, owner, data, t)))); }
	};
	// Data in the altered zone or below it, and perhaps above it.
	let di = if s.bool() { li } else { last };
	let owner = gen::clamp(links[di].name.child_s("data"));
	let data = leaf_set(s, TXT);
	add(&mut recs, di, &owner, &data);
	let above = li > 0 && s.bool();
	let up = s.usize(0, li.saturating_sub(1));
	let up_owner = gen::clamp(links[up].name.child_s("above"));
	if above { add(&mut recs, up, &up_owner, &[D::A([1, 1, 1, 1])]); }
	// A set in the same zone that is signed properly.
	let k0 = &links[li].keys[links[li].zsk];
	let side = s.bool() && op == 0;
	let side_owner = gen::clamp(links[li].name.child_s("side"));
	if side { recs.extend(signed(&links[li].name, k0, &side_owner, vec![D::A([2, 2, 2, 2])], t)); }
	s.shuffle(&mut recs);
	let anchors: Vec<Deleg> = ps[0].ds.iter().filter_map(|d| if let D::Ds(d) = d { Some(d.clone()) } else { None }).collect();
	Some(OddChain { recs, anchors, what, want, at: l.name.clone(), owner, up_owner: if above { Some(up_owner) } else { None }, side_owner: if side { Some(side_owner) } else { None } })
}
fn unsupported(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let Some(OddChain { recs, anchors, what, want, at, owner, up_owner, side_owner }) = odd_chain(s) else { return Ok(()) };
	c.nontrivial(key_of(&recs));
	c.label(what);
	c.label(format!("expected {:?}", want));
	c.note(|| format!("{} at {}: {}", what, at.text(), show_all(&recs)));
	let r = verify(&recs, &anchors)?;
	c.note(|| r.show());
	let has = |o: &MName| matches!(&r.out, Ok(x) if x.recs.iter().any(|y| y.name == *o));
	match want {
		Want::Verified => if !has(&owner) { return Err(format!("{} at {}: the correctly signed data does not verify ({})", what, at.text(), r.show())); },
		_ => if has(&owner) { return Err(format!("{} at {}: data depending on it is reported as verified", what, at.text())); },
	}
	if want == Want::NotUnsupported && r.out.as_ref().err() != Some(&Bad::Unsupported) { return Err(format!("{} at {}: expected to be reported as an unsupported algorithm, got {}", what, at.text(), r.show())); }
	if want == Want::Verified || (want == Want::Not) {
		if up_owner.as_ref().is_some_and(|o| !has(o)) { return Err(format!("{} at {}: keeps the correctly signed data of the zone above from verifying ({})", what, at.text(), r.show())); }
		if side_owner.as_ref().is_some_and(|o| !has(o)) { return Err(format!("{} at {}: keeps a correctly signed set next to it from verifying ({})", what, at.text(), r.show())); }
	}
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// C16

extern "C" { fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32; }
fn thread_cpu_ms() -> u64 { let mut ts = [0i64; 2]; unsafe { clock_gettime(3, &mut ts) }; ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000 }

/// Public key bytes (of no known private key) giving a DNSKEY with the tag wanted.
fn colliding(s: &mut Src, flags: u16, alg: u8, len: usize, tag: u16) -> Key {
	let mut k = Key { flags, proto: 3, alg, key: s.bytes(len) };
	let n = k.key.len() & !1;
	for _ in 0..4 {
		k.key[n - 2] = 0;
		k.key[n - 1] = 0;
		let base = key_tag(&D::Key(k.clone()).rdata());
		let d = tag.wrapping_sub(base);
		k.key[n - 2] = (d >> 8) as u8;
		k.key[n - 1] = d as u8;
		if key_tag(&D::Key(k.clone()).rdata()) == tag { return k; }
		// Carries may be off by one.
		let d = d.wrapping_sub(1);
		k.key[n - 2] = (d >> 8) as u8;
		k.key[n - 1] = d as u8;
		if key_tag(&D::Key(k.clone()).rdata()) == tag { return k; }
		k.key[0] = k.key[0].wrapping_add(1);
	}
	k
}
fn bounded(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let zk = |i: usize| ZKey { k: key(Fam::Ed25519, i), flags: 257, proto: 3 };
	let root = zk(1);
	let rn = MName::root();
	let t = times(s);
	let mut recs: Vec<Rec> = Vec::new();
	let mut anchors = vec![root.ds(&rn, 2)];
	let op = s.below(8);
	let what = match op {
		0 => {
			// Every zone delegates to every zone below it, and to itself.
			let deep = s.chance(1, 6);
			let n = if deep { s.usize(25, 118) } else { s.usize(2, 24) };
			let mut names = vec![rn.clone()];
			for i in 1..n { names.push(names[i - 1].child_s("a")); }
			let same_key = s.bool();
			let kf = |i: usize| if same_key { zk(1) } else { zk(1 + i) };
			for i in 0..n {
				recs.extend(signed(&names[i], &kf(i), &names[i], vec![D::Key(kf(i).data())], t));
				let ds = vec![D::Ds(kf(i).ds(&names[i], 2))];
				recs.extend(ds.iter().map(|d| Rec::new(&names[i], d.clone())));
				// Some of the ways in deep trees.
				for j in 0..=i { if (i > 0 || s.bool()) && (!deep || j + 1 >= i || s.chance(1, 30)) { recs.push(Rec::new(&names[i], D::Sig(sign_set(&names[j], &kf(j), &names[i], &ds, t)))); } }
			}
			recs.extend(signed(&names[n - 1], &kf(n - 1), &names[n - 1].child_s("x"), vec![D::A([1; 4])], t));
			"lattice of delegations"
		},
		1 => {
			// Self-delegations, many signatures.
			let n = s.usize(1, 6);
			let z = MName::of("a.");
			recs.extend(signed(&rn, &root, &rn, vec![D::Key(root.data())], t));
			recs.extend(signed(&rn, &root, &rn, vec![D::Ds(root.ds(&rn, 2))], t));
			let ds = vec![D::Ds(zk(2).ds(&z, 2))];
			recs.extend(signed(&rn, &root, &z, ds.clone(), t));
			recs.extend(signed(&z, &zk(2), &z, vec![D::Key(zk(2).data())], t));
			for i in 0..n { let t2 = Times { ttl: i as u32, ..t }; recs.push(Rec::new(&z, D::Sig(sign_set(&z, &zk(2), &z, &ds, t2)))); }
			if s.bool() { recs.extend(signed(&z, &zk(2), &z.child_s("w"), vec![D::A([1; 4])], t)); }
			"self-delegation"
		},
		2 => {
			// Many keys with one tag.
			let n = s.usize(2, 60);
			let z = MName::of("a.");
			recs.extend(signed(&rn, &root, &rn, vec![D::Key(root.data())], t));
			let mut kd: Vec<D> = vec![D::Key(zk(2).data())];
			for _ in 0..n { kd.push(D::Key(colliding(s, 257, 15, 32, zk(2).tag()))); }
			kd = kd.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
			let mut ds: Vec<D> = vec![D::Ds(zk(2).ds(&z, 2))];
			if s.bool() { for k in &kd { ds.push(D::Ds(Deleg { tag: zk(2).tag(), alg: 15, dt: 2, digest: ds_digest(&z, &k.rdata(), 2) })); } ds.sort(); ds.dedup(); }
			recs.extend(signed(&rn, &root, &z, ds, t));
			recs.extend(signed(&z, &zk(2), &z, kd.clone(), t));
			for i in 0..s.usize(1, 20) {
				let mut v = signed(&z, &zk(2), &z.child_s(&format!("n{}", i)), vec![D::A([1; 4])], t);
				if s.chance(1, 3) { if let D::Sig(g) = &mut v[1].d { g.sig[0] ^= 1; } }
				recs.extend(v);
			}
			for _ in 0..s.usize(0, 10) { let mut g = sign_set(&z, &zk(2), &z, &kd, Times { ttl: s.u32(), ..t }); if s.bool() { g.sig[1] ^= 2; } recs.push(Rec::new(&z, D::Sig(g))); }
			"key tag collisions"
		},
		3 => {
			// Many signatures over one big set.
			let n = s.usize(1, 40);
			let m = s.usize(1, 40);
			recs.extend(signed(&rn, &root, &rn, vec![D::Key(root.data())], t));
			let o = MName::of("a.");
			let d: Vec<D> = (0..n).map(|i| D::Txt(vec![i as u8; 40])).collect();
			recs.extend(d.iter().map(|d| Rec::new(&o, d.clone())));
			for i in 0..m { recs.push(Rec::new(&o, D::Sig(sign_set(&rn, &root, &o, &d, Times { ttl: i as u32, ..t })))); }
			"many signatures over one set"
		},
		4 | 5 => {
			// Wildcards with many NSEC3 parameter sets, some oversized.
			let n = if op == 4 { s.usize(0, 60) } else { s.usize(100, 250) };
			let wilds = if s.chance(1, 4) { s.usize(100, 200) } else { s.usize(1, 8) };
			// Whether the last record denies everything, so that one answer after the other is looked at.
			let deny_all = s.chance(1, 2);
			recs.extend(signed(&rn, &root, &rn, vec![D::Key(root.data())], t));
			for i in 0..wilds {
				let d = vec![D::A([1; 4])];
				let at = MName(vec![format!("n{}", i).into_bytes(), b"w".to_vec()]);
				let g = sign_set(&rn, &root, &MName::of("*.w."), &d, t);
				recs.push(Rec::new(&at, d[0].clone()));
				recs.push(Rec::new(&at, D::Sig(g)));
			}
			let iters = if op == 4 { *s.pick(&[2501u16, 40_000, 65_535, 0]) } else { 2500 };
			for i in 0..n {
				let d = D::Nsec3(N3 { alg: 1, flags: 0, iters, salt: vec![i as u8, (i >> 8) as u8], next: vec![0; 20], types: BTreeSet::new() });
				recs.extend(signed(&rn, &root, &MName(vec![b32(&sha1(&[i as u8, (i >> 8) as u8]))]), vec![d], t));
			}
			if deny_all {
				let d = D::Nsec3(N3 { alg: 1, flags: 0, iters, salt: vec![0, 0], next: vec![255; 20], types: BTreeSet::new() });
				recs.extend(signed(&rn, &root, &MName(vec![b32(&[0; 20])]), vec![d], t));
			}
			if op == 4 { "oversized iteration counts" } else { "many NSEC3 parameter sets" }
		},
		6 => {
			// A delegation cycle by names: b.a. and a. vouch for each other.
			let (a, b) = (MName::of("a."), MName::of("b.a."));
			recs.extend(signed(&rn, &root, &rn, vec![D::Key(root.data())], t));
			recs.extend(signed(&rn, &root, &a, vec![D::Ds(zk(2).ds(&a, 2))], t));
			recs.extend(signed(&a, &zk(2), &a, vec![D::Key(zk(2).data())], t));
			recs.extend(signed(&a, &zk(2), &b, vec![D::Ds(zk(3).ds(&b, 2))], t));
			recs.extend(signed(&b, &zk(3), &b, vec![D::Key(zk(3).data())], t));
			// The root signs everything again.
			if s.bool() { recs.push(Rec::new(&b, D::Sig(sign_set(&rn, &root, &b, &[D::Ds(zk(3).ds(&b, 2))], t)))); }
			if s.bool() { recs.push(Rec::new(&a, D::Sig(sign_set(&a, &zk(2), &a, &[D::Ds(zk(2).ds(&a, 2))], t)))); }
			if s.bool() { recs.push(Rec::new(&b, D::Sig(sign_set(&b, &zk(3), &b, &[D::Ds(zk(3).ds(&b, 2))], t)))); }
			if s.bool() { let ds = vec![D::Ds(root.ds(&rn, 2))]; recs.extend(signed(&rn, &root, &rn, ds, t)); }
			recs.extend(signed(&b, &zk(3), &b.child_s("c"), vec![D::A([1; 4])], t));
			"cyclic delegations"
		},
		_ => {
			// An honest proof, repeated.
			let u = Universe::generate(s, &Opts { fams: [60, 30, 0, 0, 0], ..Default::default() });
			let Some(p) = proof(s, &u, 3) else { return Ok(()) };
			anchors = u.anchors();
			recs = p.recs;
			for _ in 0..s.usize(0, 3) { tamper(s, &u, &mut recs); }
			for _ in 0..s.usize(0, 3) { let v = recs.clone(); if s.bool() { recs.extend(v.into_iter().filter(|r| r.ty() == RRSIG)); } else { recs.extend(v); } }
			"ordinary and repeated records"
		},
	};
	if s.bool() { s.shuffle(&mut recs); } else if s.bool() { recs.reverse(); }
	let sigs = recs.iter().filter(|r| r.ty() == RRSIG).count() as u64;
	let size: u64 = recs.iter().map(|r| r.wire(0).len() as u64).sum();
	c.nontrivial(key_of(&recs));
	c.label(what);
	c.note(|| format!("{}: {} records, {} signatures, {} bytes", what, recs.len(), sigs, size));
	set_anchors(&anchors);
	let inp: Vec<dnssec_prover::rr::RR> = sut(|| recs.iter().map(crate::model::conv::to_sut).collect())?;
	let t0 = thread_cpu_ms();
	let r = verify_rrs(&inp)?;
	let ms = thread_cpu_ms() - t0;
	c.note(|| format!("{} signature checks, {} bytes allocated, {} ms", r.checks, r.alloc, ms));
	c.label(if r.out.is_ok() { "outcome: verified" } else { "outcome: rejected" });
	if r.checks > sigs { return Err(format!("{}: {} signature checks for {} signatures", what, r.checks, sigs)); }
	// Each signature may look at each record a few times.
	let n = recs.len() as u64;
	let budget = 1 << 20 | (sigs + 4) * (size * 4 + n * 64 + 8192);
	if r.alloc > budget { return Err(format!("{}: {} bytes allocated for {} records of {} bytes with {} signatures", what, r.alloc, n, size, sigs)); }
	if ms > 600 { return Err(format!("{}: {} ms for {} records with {} signatures", what, ms, n, sigs)); }
	Ok(())
}

pub fn c09() -> Prop {
	Prop {
		id: "C09",
		rule: "a case is non-trivial when a reached zone signs for a name outside of itself",
		tests: vec![Test { name: "bailiwick", quick: 40_000, thorough: 1_000_000, run: bailiwick }],
		known: vec![],
		assumptions: vec![],
	}
}
pub fn c10() -> Prop {
	Prop {
		id: "C10",
		rule: "a case is non-trivial when a complete chain with the stated alteration was built",
		tests: vec![
			Test { name: "chain_links", quick: 60_000, thorough: 3_000_000, run: chain_links },
			Test { name: "same_tag", quick: 12_000, thorough: 600_000, run: same_tag },
			Test { name: "digest_mix", quick: 40_000, thorough: 2_000_000, run: digest_mix },
			Test { name: "anchors_and_tags", quick: 60_000, thorough: 3_000_000, run: anchors_and_tags },
			Test { name: "anchors_only", quick: 6_000, thorough: 200_000, run: anchors_only },
		],
		known: vec![],
		assumptions: vec!["digests are collision-free", "where several keys of a zone share tag and algorithm only rejection is required"],
	}
}
pub fn c11() -> Prop {
	Prop {
		id: "C11",
		rule: "a case is non-trivial when a correctly signed wildcard set is claimed at a name below it",
		tests: vec![
			Test { name: "denial_of_existence", quick: 40_000, thorough: 1_000_000, run: denial_of_existence },
			Test { name: "several_wildcards", quick: 30_000, thorough: 1_500_000, run: several_wildcards },
		],
		known: vec![],
		assumptions: vec!["at most two sets of NSEC3 parameters per zone", "the last NSEC record of a zone (next name at or before the owner) may or may not be accepted as a denial"],
	}
}
pub fn c14() -> Prop {
	Prop {
		id: "C14",
		rule: "a case is non-trivial when a chain with the stated use of unsupported cryptography, or an altered proof of supported zones, was built",
		tests: vec![Test { name: "unsupported", quick: 60_000, thorough: 3_000_000, run: unsupported }, Test { name: "no_excuse", quick: 20_000, thorough: 800_000, run: no_excuse }],
		known: vec![],
		assumptions: vec!["supported are the algorithms 8, 10, 13, 14 and 15 and the digest types 1 and 2"],
	}
}
pub fn c16() -> Prop {
	Prop {
		id: "C16",
		rule: "a case is non-trivial when a proof was verified under the counters",
		tests: vec![Test { name: "bounded", quick: 9_000, thorough: 150_000, run: bounded }],
		known: vec![],
		assumptions: vec!["signature checks are counted by a hook in the verifier; other work by bytes allocated and by CPU time"],
	}
}
