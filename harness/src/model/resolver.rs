//! A correct validating recursive resolver over a generated name space.

use super::message::*;
use super::name::MName;
use super::rr::*;
use super::zone::*;
use crate::engine::Src;

pub struct Reply { pub bytes: Vec<u8>, pub min_ttl: u32, pub secure: bool }

/// Answers a query. Records come with their TTL counted down, as from a cache.
pub fn answer(s: &mut Src, u: &Universe, n: &MName, ty: u16, st: Style, extras: bool) -> Reply {
	let a = u.resolve(n, ty);
	let mut m = Msg { id: 0, flags: QR | RD | RA, questions: vec![(n.clone(), ty, 1)], ..Default::default() };
	if a.secure { m.flags |= AD; }
	if a.looped { m.flags |= 2; m.flags &= !AD; return Reply { bytes: encode(s, &m, st), min_ttl: u32::MAX, secure: false }; }
	let age = if s.bool() { 0 } else { s.below(4000) as u32 };
	// Every record of a set, and its signatures, carry the same TTL: at most that of the signature.
	let ttl = |all: &[Rec], r: &Rec| -> u32 {
		let ty = if let D::Sig(g) = &r.d { g.ty } else { r.ty() };
		let t = all.iter().filter(|x| x.name == r.name).filter_map(|x| if let D::Sig(g) = &x.d { if g.ty == ty { Some(g.ttl) } else { None } } else { None }).min().unwrap_or(300);
		t.saturating_sub(age)
	};
	let mut all: Vec<Rec> = a.answer.clone();
	all.extend(a.authority.iter().cloned());
	m.answer = a.answer.iter().map(|r| (r.clone(), ttl(&all, r))).collect();
	m.authority = a.authority.iter().map(|r| (r.clone(), ttl(&all, r))).collect();
	let kept = m.answer.iter().chain(&m.authority).map(|x| x.1).min().unwrap_or(u32::MAX);
	// Sets may come in any internal order, and signatures before or after what they sign.
	if s.bool() {
		let mut order: Vec<usize> = (0..m.answer.len()).collect();
		s.shuffle(&mut order);
		m.answer = order.iter().map(|i| m.answer[*i].clone()).collect();
	}
	if extras {
		// The zone's name servers, which are not part of the answer.
		if s.chance(1, 3) {
			let zi = u.zone_for(n, ty);
			let zn = u.zones[zi].name.clone();
			if u.zones[zi].sets.contains_key(&(zn.clone(), NS)) {
				let at = s.usize(0, m.authority.len());
				let v: Vec<(Rec, u32)> = u.zones[zi].rrset(&zn, NS).into_iter().map(|r| (r, s.below(3) as u32)).collect();
				let tail = m.authority.split_off(at);
				m.authority.extend(v);
				m.authority.extend(tail);
			}
		}
		if s.chance(2, 3) {
			for _ in 0..s.usize(0, 2) {
				let owner = super::gen::clamp(MName::of("ns.").join(n));
				let ty = *s.pick(&[A, AAAA, TXT]);
				let d = super::gen::data(s, ty);
				if d.rdata().len() < 400 { m.additional.push(Rec::new(&owner, d).wire(0)); }
			}
			m.additional.push(opt(1232, 0x8000));
			m.flags |= if s.chance(1, 4) { AA } else { 0 };
		}
	}
	Reply { bytes: encode(s, &m, st), min_ttl: kept, secure: a.secure }
}
