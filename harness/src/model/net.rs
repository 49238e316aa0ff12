//! A scripted resolver on a TCP connection, and the outcome that stepping a proof builder by hand gives for the script.

use super::message::*;
use super::name::MName;
use crate::engine::*;
use crate::props::builder::buf;
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::rr::Name;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Step {
	/// Number of queries that must have arrived before this is sent.
	pub wait: usize,
	/// What is sent, length prefix included.
	pub bytes: Vec<u8>,
	/// Where the bytes are cut into separate writes, and the pause in between in microseconds.
	pub cuts: Vec<usize>,
	pub pause: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
	pub steps: Vec<Step>,
	/// Close the whole connection at the end instead of only ceasing to send.
	pub reset: bool,
	pub expect: Option<(Vec<u8>, u32)>,
	/// The queries in the order in which they are issued.
	pub queries: Vec<Vec<u8>>,
	pub what: String,
}
pub fn frame(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u16).to_be_bytes().to_vec(); v.extend_from_slice(b); v }
/// The complete frames at the start of a stream, and whether anything is left over.
pub fn frames(b: &[u8]) -> (Vec<Vec<u8>>, bool) {
	let (mut v, mut p) = (Vec::new(), 0);
	while p + 2 <= b.len() {
		let l = (b[p] as usize) << 8 | b[p + 1] as usize;
		if p + 2 + l > b.len() { break; }
		v.push(b[p + 2..p + 2 + l].to_vec());
		p += 2 + l;
	}
	(v, p < b.len())
}
pub fn cuts(s: &mut Src, len: usize) -> Vec<usize> {
	let mut v: Vec<usize> = match s.below(6) {
		0 => vec![],
		1 => vec![1],
		2 => vec![2],
		3 => vec![1, 2, 3],
		4 => { let p = s.usize(0, len); vec![p] },
		_ => { let k = s.usize(2, 6); (0..k).map(|_| s.usize(0, len)).collect() },
	};
	v.retain(|x| *x > 0 && *x < len);
	v.sort();
	v.dedup();
	v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault { None, Spoil, Cut, Prefix, Extra, Repeat, Empty, Stop, Junk }

/// Makes a plan by stepping a builder. `respond` answers the query with the given content.
pub fn plan(s: &mut Src, n: &Name, ty: u16, faults: bool, respond: &mut dyn FnMut(&mut Src, &MName, u16) -> Vec<u8>) -> Result<Plan, String> {
	let mut p = Plan { what: "no fault".into(), ..Default::default() };
	let (mut pb, q0) = sut(|| ProofBuilder::new(n, ty))?;
	p.queries.push(q0.to_vec());
	let mut open = vec![0usize];
	let at = if faults { s.usize(0, 4) } else { usize::MAX };
	let mut failed = false;
	let mut used: Vec<Vec<u8>> = Vec::new();
	for step in 0..40 {
		if !sut(|| pb.awaiting_responses())? { break; }
		let i = s.usize(0, open.len().max(1) - 1);
		let qi = if open.is_empty() { 0 } else { open.remove(i) };
		let (qn, qt) = parse_query(&p.queries[qi])?;
		let mut content = respond(s, &qn, qt);
		let mut wait = if s.bool() { p.queries.len() } else { qi + 1 };
		if wait > p.queries.len() { wait = p.queries.len(); }
		let mut good = content.clone();
		let f = if step == at { *s.pick(&[Fault::Cut, Fault::Prefix, Fault::Spoil, Fault::Extra, Fault::Repeat, Fault::Empty, Fault::Stop, Fault::Junk]) } else { Fault::None };
		if f != Fault::None { p.what = format!("{:?} at response {}", f, step); }
		match f {
			Fault::Spoil => content = crate::props::builder::spoil(s, content).0,
			Fault::Empty => content.clear(),
			Fault::Repeat => if let Some(c) = used.last() { content = Vec::clone(c) },
			Fault::Extra => { let k = s.usize(1, 40); content.extend(s.bytes(k)); },
			Fault::Junk => { let k = s.usize(1, 80); content = s.bytes(k); },
			_ => {},
		}
		if content.len() > 65535 { content.truncate(65535); }
		good.truncate(65535);
		let mut bytes = frame(&content);
		let mut stop = false;
		match f {
			Fault::Cut => { let k = s.usize(0, bytes.len() - 1); bytes.truncate(k); stop = true; failed = true; },
			Fault::Stop => { bytes.clear(); stop = true; failed = true; },
			Fault::Prefix => {
				// The prefix promises more or less than there is.
				if s.bool() && content.len() < 65_000 {
					let l = content.len() as u16 + s.range(1, 300) as u16;
					bytes[..2].copy_from_slice(&l.to_be_bytes());
					failed = true;
				} else {
					let k = s.usize(0, content.len().saturating_sub(1));
					bytes[..2].copy_from_slice(&(k as u16).to_be_bytes());
					content.truncate(k);
				}
				stop = true;
			},
			_ => {},
		}
		let c = cuts(s, bytes.len());
		p.steps.push(Step { wait, cuts: c, bytes, pause: *s.pick(&[0u64, 0, 50, 200]) });
		if failed { break; }
		match sut(|| pb.process_response(&buf(&content)))? {
			Ok(qs) => for q in qs { open.push(p.queries.len()); p.queries.push(q.to_vec()); },
			Err(()) => {
				failed = true;
				// A driver that passes over the rejected response finds all it needs after it.
				if step == at && s.bool() { go_on(s, &mut p, n, ty, &used, good, open, respond)?; }
				break;
			},
		}
		used.push(content);
		if stop { if sut(|| pb.awaiting_responses())? { failed = true; } break; }
	}
	// Beyond what is needed.
	if !failed && s.chance(1, 5) { let n = s.usize(1, 30); let b = s.bytes(n); p.steps.push(Step { wait: p.queries.len(), bytes: b, cuts: vec![], pause: 0 }); }
	// Responses that may be sent together are, at times.
	if s.chance(1, 3) {
		let mut v: Vec<Step> = Vec::new();
		for st in p.steps.drain(..) {
			match v.last_mut() { Some(l) if l.wait >= st.wait => l.bytes.extend(st.bytes), _ => v.push(st) }
		}
		p.steps = v;
	}
	p.reset = failed && s.chance(1, 3);
	p.expect = if failed { None } else { sut(move || pb.finish_proof())?.ok() };
	Ok(p)
}

/// Good responses after a rejected one, each as soon as its query can have been sent.
fn go_on(s: &mut Src, p: &mut Plan, n: &Name, ty: u16, used: &[Vec<u8>], good: Vec<u8>, mut open: Vec<usize>, respond: &mut dyn FnMut(&mut Src, &MName, u16) -> Vec<u8>) -> Result<(), String> {
	let (mut pb, _) = sut(|| ProofBuilder::new(n, ty))?;
	for c in used { if sut(|| pb.process_response(&buf(c)))?.is_err() { return Ok(()); } }
	let mut queries = p.queries.clone();
	let mut content = good;
	for _ in 0..40 {
		let bytes = frame(&content);
		p.steps.push(Step { wait: p.queries.len(), cuts: vec![], bytes, pause: 0 });
		match sut(|| pb.process_response(&buf(&content)))? {
			Ok(qs) => for q in qs { open.push(queries.len()); queries.push(q.to_vec()); },
			Err(()) => return Ok(()),
		}
		if open.is_empty() || !sut(|| pb.awaiting_responses())? { return Ok(()); }
		let (qn, qt) = parse_query(&queries[open.remove(0)])?;
		content = respond(s, &qn, qt);
		content.truncate(65535);
	}
	Ok(())
}

/// Plays the script. Returns the bytes received, or what went wrong.
pub fn serve(c: TcpStream, p: &Plan, patience: Duration) -> Result<Vec<u8>, String> { serve_more(c, p, patience, Vec::new()) }
/// The same where some bytes were received before.
pub fn serve_more(mut c: TcpStream, p: &Plan, patience: Duration, mut got: Vec<u8>) -> Result<Vec<u8>, String> {
	let _ = c.set_nodelay(true);
	let _ = c.set_read_timeout(Some(Duration::from_millis(50)));
	let _ = c.set_write_timeout(Some(patience));
	let mut b = [0u8; 4096];
	let mut closed = false;
	for st in &p.steps {
		let t0 = Instant::now();
		while !closed && frames(&got).0.len() < st.wait {
			match c.read(&mut b) {
				Ok(0) => closed = true,
				Ok(k) => got.extend_from_slice(&b[..k]),
				Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => if t0.elapsed() > patience { return Err(format!("query {} never arrived; received {} queries", st.wait, frames(&got).0.len())); },
				Err(_) => closed = true,
			}
		}
		if closed { break; }
		let mut a = 0;
		for e in st.cuts.iter().copied().filter(|x| *x < st.bytes.len()).chain(Some(st.bytes.len())) {
			if c.write_all(&st.bytes[a..e]).is_err() { closed = true; break; }
			a = e;
			if st.pause > 0 { std::thread::sleep(Duration::from_micros(st.pause)); }
		}
		if closed { break; }
	}
	if p.reset { return Ok(got); }
	let _ = c.shutdown(Shutdown::Write);
	let t0 = Instant::now();
	loop {
		match c.read(&mut b) {
			Ok(0) => break,
			Ok(k) => got.extend_from_slice(&b[..k]),
			Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => if t0.elapsed() > patience { return Err("the connection is not closed after the last response".into()); },
			Err(_) => break,
		}
	}
	Ok(got)
}
