//! Scripted exchanges with a resolver, for C21, C23 and C24.

use crate::engine::*;
use crate::model::{conv, gen, message::*, name::MName, net::*, resolver, rr::*, zone::*};

pub fn kind(s: &mut Src) -> u16 { *s.pick(&[TXT, A, AAAA, TLSA]) }
/// Which query, and how it is answered: a real name space or invented responses.
pub fn scenario(s: &mut Src, faults: bool) -> Result<(MName, u16, Plan), String> {
	if s.chance(1, 2) {
		let u = Universe::generate(s, &Opts { zones: (1, 7), fams: [80, 20, 0, 0, 0], ..Default::default() });
		let (n, mut ty) = u.query(s);
		if !matches!(ty, A | AAAA | TXT | TLSA) { ty = TXT; }
		let st = style(s);
		let p = plan(s, &conv::name_in(&n), ty, faults, &mut |s, n, t| resolver::answer(s, &u, n, t, st, true).bytes)?;
		Ok((n, ty, p))
	} else {
		let names: Vec<MName> = (0..s.usize(1, 6)).map(|_| gen::name(s)).collect();
		let (n, ty) = (gen::name(s), kind(s));
		let st = style(s);
		let big = s.chance(1, 8);
		let p = plan(s, &conv::name_in(&n), ty, faults, &mut |s, _, _| {
			let g: Vec<MName> = (0..*s.pick(&[1usize, 0, 0, 2])).map(|_| s.pick(&names).clone()).collect();
			let mut m = crate::props::builder::good_msg(s, &names, &g, &[]);
			if big { let l = s.usize(2_000, 50_000); m.answer.push((Rec::new(&names[0], D::Txt(vec![b't'; l])), 7)); }
			let b = encode(s, &m, st);
			if b.len() > 65_000 { encode(s, &Msg { id: 0, flags: QR | AD, questions: vec![(names[0].clone(), A, 1)], answer: vec![(Rec::new(&names[0], D::A([9; 4])), 50)], ..Default::default() }, st) } else { b }
		})?;
		Ok((n, ty, p))
	}
}
