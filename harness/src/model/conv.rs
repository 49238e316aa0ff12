//! Translation between the model and the crate's types, through public fields only.

use super::name::MName;
use super::rr::*;
use dnssec_prover::rr as s;
use std::collections::BTreeSet;

pub fn name_in(n: &MName) -> s::Name { s::Name::try_from(n.text()).unwrap_or_else(|_| panic!("the valid name {} is rejected", n.text())) }
pub fn name_out(n: &s::Name) -> MName {
	if n.as_str().ends_with('.') { MName::of(n.as_str()) } else { MName(vec![format!("<bad name {:?}>", n.as_str()).into_bytes()]) }
}

pub fn types_in(t: &BTreeSet<u16>) -> s::NSecTypeMask { s::NSecTypeMask::from_types(&t.iter().copied().collect::<Vec<_>>()) }
pub fn types_out(t: &s::NSecTypeMask) -> BTreeSet<u16> { (0..=65535u16).filter(|x| t.contains_type(*x)).collect() }

/// Builds the crate's record. Panics only if the crate rejects a valid name, so call it inside `sut`.
pub fn to_sut(r: &Rec) -> s::RR {
	let name = name_in(&r.name);
	match &r.d {
		D::A(a) => s::A { name, address: *a }.into(),
		D::Aaaa(a) => s::AAAA { name, address: *a }.into(),
		D::Ns(n) => s::NS { name, name_server: name_in(n) }.into(),
		D::Txt(t) => s::Txt { name, data: t.clone() }.into(),
		D::Cname(n) => s::CName { name, canonical_name: name_in(n) }.into(),
		D::Dname(n) => s::DName { name, delegation_name: name_in(n) }.into(),
		D::Tlsa(a, b, c, d) => s::TLSA { name, cert_usage: *a, selector: *b, data_ty: *c, data: d.clone() }.into(),
		D::Key(k) => s::DnsKey { name, flags: k.flags, protocol: k.proto, alg: k.alg, pubkey: k.key.clone() }.into(),
		D::Ds(d) => s::DS { name, key_tag: d.tag, alg: d.alg, digest_type: d.dt, digest: d.digest.clone() }.into(),
		D::Sig(g) => s::RRSig {
			name, ty: g.ty, alg: g.alg, labels: g.labels, orig_ttl: g.ttl, expiration: g.exp, inception: g.inc, key_tag: g.tag,
			key_name: name_in(&g.signer), signature: g.sig.clone(),
		}.into(),
		D::Nsec(n, t) => s::NSec { name, next_name: name_in(n), types: types_in(t) }.into(),
		D::Nsec3(n) => s::NSec3 {
			name, hash_algo: n.alg, flags: n.flags, hash_iterations: n.iters, salt: n.salt.clone(), next_name_hash: n.next.clone(),
			types: types_in(&n.types),
		}.into(),
	}
}
pub fn from_sut(r: &s::RR) -> Rec {
	let name = name_out(r.name());
	let d = match r {
		s::RR::A(x) => D::A(x.address),
		s::RR::AAAA(x) => D::Aaaa(x.address),
		s::RR::NS(x) => D::Ns(name_out(&x.name_server)),
		s::RR::Txt(x) => D::Txt(x.data.clone()),
		s::RR::CName(x) => D::Cname(name_out(&x.canonical_name)),
		s::RR::DName(x) => D::Dname(name_out(&x.delegation_name)),
		s::RR::TLSA(x) => D::Tlsa(x.cert_usage, x.selector, x.data_ty, x.data.clone()),
		s::RR::DnsKey(x) => D::Key(Key { flags: x.flags, proto: x.protocol, alg: x.alg, key: x.pubkey.clone() }),
		s::RR::DS(x) => D::Ds(Deleg { tag: x.key_tag, alg: x.alg, dt: x.digest_type, digest: x.digest.clone() }),
		s::RR::RRSig(x) => D::Sig(Sig {
			ty: x.ty, alg: x.alg, labels: x.labels, ttl: x.orig_ttl, exp: x.expiration, inc: x.inception, tag: x.key_tag,
			signer: name_out(&x.key_name), sig: x.signature.clone(),
		}),
		s::RR::NSec(x) => D::Nsec(name_out(&x.next_name), types_out(&x.types)),
		s::RR::NSec3(x) => D::Nsec3(N3 { alg: x.hash_algo, flags: x.flags, iters: x.hash_iterations, salt: x.salt.clone(), next: x.next_name_hash.clone(), types: types_out(&x.types) }),
	};
	Rec { name, d }
}
