//! C22: query buffers against byte vectors.

use crate::engine::*;
use dnssec_prover::query::QueryBuf;

fn len(s: &mut Src) -> usize {
	match s.weighted(&[4, 3, 2, 1]) {
		0 => s.usize(0, 40),
		1 => *s.pick(&[2047usize, 2048, 2049, 0, 1, 2046, 2050, 4096, 2000, 30, 31, 32, 33]),
		2 => s.usize(0, 2600),
		_ => *s.pick(&[60000usize, 65535, 65534, 63487, 63488]),
	}
}
fn same(b: &QueryBuf, m: &[u8], what: &str) -> Result<(), String> {
	let got = sut(|| b.to_vec())?;
	if got != m { return Err(format!("after {}: buffer holds {} bytes {:02x?}.., expected {} bytes {:02x?}..", what, got.len(), &got[..got.len().min(16)], m.len(), &m[..m.len().min(16)])); }
	let got = sut(|| b.clone().into_vec())?;
	if got != m { return Err(format!("after {}: into_vec gives {} bytes, expected {}", what, got.len(), m.len())); }
	Ok(())
}

fn histories(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let mut bufs: Vec<(QueryBuf, Vec<u8>)> = Vec::new();
	let n = s.usize(1, 12);
	let (mut crossed, mut eq_seen) = (false, false);
	let mut log: Vec<String> = Vec::new();
	let mut h = 0u64;
	for _ in 0..n {
		let op = if bufs.is_empty() { 0 } else { s.weighted(&[2, 6, 4, 2, 1]) };
		match op {
			0 => {
				let l = if s.bool() { 0 } else { len(s) };
				let b = sut(|| QueryBuf::new_zeroed(l as u16))?;
				log.push(format!("new_zeroed({})", l));
				same(&b, &vec![0; l], log.last().unwrap())?;
				bufs.push((b, vec![0; l]));
				if bufs.len() > 4 { bufs.remove(0); }
			},
			1 => {
				let i = s.usize(0, bufs.len() - 1);
				let room = 65535 - bufs[i].1.len();
				// Sometimes land exactly on the threshold.
				let l = if s.chance(1, 3) && bufs[i].1.len() <= 2048 { 2048 - bufs[i].1.len() + s.usize(0, 1) } else { len(s) }.min(room);
				let zero = s.chance(1, 4);
				let d = if zero { vec![0; l] } else { s.bytes(l) };
				let before = bufs[i].1.len();
				sut(|| bufs[i].0.extend_from_slice(&d))?;
				bufs[i].1.extend_from_slice(&d);
				if before <= 2048 && bufs[i].1.len() > 2048 { crossed = true; }
				log.push(format!("extend(#{}, {} bytes)", i, l));
				same(&bufs[i].0, &bufs[i].1, log.last().unwrap())?;
			},
			2 => {
				let i = s.usize(0, bufs.len() - 1);
				if bufs[i].1.is_empty() { continue; }
				let p = match s.below(3) { 0 => 0, 1 => bufs[i].1.len() - 1, _ => s.usize(0, bufs[i].1.len() - 1) };
				let v = s.u8();
				sut(|| bufs[i].0[p] = v)?;
				bufs[i].1[p] = v;
				log.push(format!("set(#{}, {}, {})", i, p, v));
				same(&bufs[i].0, &bufs[i].1, log.last().unwrap())?;
			},
			3 => {
				let i = s.usize(0, bufs.len() - 1);
				let x = (sut(|| bufs[i].0.clone())?, bufs[i].1.clone());
				log.push(format!("clone(#{})", i));
				same(&x.0, &x.1, log.last().unwrap())?;
				bufs.push(x);
				if bufs.len() > 4 { bufs.remove(0); }
			},
			_ => {
				// The same bytes reached through another history.
				let i = s.usize(0, bufs.len() - 1);
				let m = bufs[i].1.clone();
				let start = if s.bool() { 0 } else { len(s).min(m.len()) };
				let mut b = sut(|| QueryBuf::new_zeroed(start as u16))?;
				sut(|| b[..].copy_from_slice(&m[..start]))?;
				let mut at = start;
				while at < m.len() {
					let k = len(s).max(1).min(m.len() - at);
					sut(|| b.extend_from_slice(&m[at..at + k]))?;
					at += k;
				}
				log.push(format!("rebuild(#{} from {})", i, start));
				same(&b, &m, log.last().unwrap())?;
				bufs.push((b, m));
				if bufs.len() > 4 { bufs.remove(0); }
			},
		}
		h = mix(h ^ hash_bytes(log.last().map_or("", |x| x.as_str()).as_bytes()));
		for i in 0..bufs.len() { for j in 0..bufs.len() {
			let expect = bufs[i].1 == bufs[j].1;
			if expect && i != j && !bufs[i].1.is_empty() { eq_seen = true; }
			let got = sut(|| bufs[i].0 == bufs[j].0)?;
			let ne = sut(|| bufs[i].0 != bufs[j].0)?;
			if got != expect || ne == expect {
				return Err(format!("buffers #{} ({} bytes) and #{} ({} bytes) compare {} but their bytes are {}; history: {}",
					i, bufs[i].1.len(), j, bufs[j].1.len(), if got { "equal" } else { "different" }, if expect { "equal" } else { "different" }, log.join(", ")));
			}
		} }
	}
	c.note(|| log.join(", "));
	if crossed { c.label("crosses the stack threshold by appending"); }
	if eq_seen { c.label("equal non-empty buffers with different histories"); }
	if crossed || eq_seen || log.len() > 3 { c.nontrivial(h); }
	Ok(())
}

fn overflow(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let start = *s.pick(&[65535usize, 65534, 65000, 2049, 2048, 2047, 0, 1]);
	let mut b = sut(|| QueryBuf::new_zeroed(start as u16))?;
	let n = s.usize(1, 4);
	let mut total = start;
	let mut log = vec![format!("new_zeroed({})", start)];
	for _ in 0..n {
		let l = *s.pick(&[1usize, 2, 535, 536, 65535, 65536, 65537, 65535 + 2048, 65536 * 2, 63487, 63488, 100_000, 0]);
		let d = vec![0xaa; l];
		sut(|| b.extend_from_slice(&d)).map_err(|e| format!("{}; appending {} bytes to a buffer of {} bytes", e, l, total))?;
		let exact = total <= 65535 && total + l <= 65535;
		total += l;
		log.push(format!("extend({})", l));
		let got = sut(|| b.len())?;
		if exact && got != total { return Err(format!("length {} after {}", got, log.join(", "))); }
		sut(|| b.clone().into_vec())?;
		sut(|| { let x = b.clone(); b == x })?;
	}
	if total > 65535 { c.label("beyond the maximum length"); c.nontrivial(hash_bytes(log.join(",").as_bytes())); }
	c.note(|| log.join(", "));
	Ok(())
}

pub fn c22() -> Prop {
	Prop {
		id: "C22",
		rule: "a history of more than three operations, or one that crosses the 2048-byte threshold or compares equal buffers with different histories; or an append beyond 65535 bytes",
		tests: vec![
			Test { name: "histories", quick: 300_000, thorough: 1_500_000, run: histories },
			Test { name: "overflow", quick: 6_000, thorough: 40_000, run: overflow },
		],
		known: vec![],
		assumptions: vec!["contents after an append beyond 65535 bytes are documented as undefined; only the absence of panics is checked there"],
	}
}
