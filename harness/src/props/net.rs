//! C21: the blocking and the async driver against a scripted resolver.

use crate::engine::*;
use super::scenario::scenario;
use crate::model::{conv, name::MName, net::*, rr::*};
use dnssec_prover::query::*;
use dnssec_prover::rr::Name;
use std::cell::{Cell, RefCell};
use std::net::{SocketAddr, TcpListener};
use std::time::{Duration, Instant};

type Outcome = Result<(Vec<u8>, u32), std::io::Error>;
thread_local! {
	static RT: RefCell<tokio::runtime::Runtime> = RefCell::new(tokio::runtime::Builder::new_current_thread().enable_io().build().unwrap());
	// Once something failed, shrinking need not be patient.
	static PATIENCE: Cell<u64> = const { Cell::new(20_000) };
}
fn blocking(a: SocketAddr, n: &Name, ty: u16) -> Outcome {
	match ty { A => build_a_proof(a, n), AAAA => build_aaaa_proof(a, n), TXT => build_txt_proof(a, n), _ => build_tlsa_proof(a, n) }
}
fn asynchronous(a: SocketAddr, n: &Name, ty: u16) -> Outcome {
	RT.with(|rt| rt.borrow_mut().block_on(async { match ty { A => build_a_proof_async(a, n).await, AAAA => build_aaaa_proof_async(a, n).await, TXT => build_txt_proof_async(a, n).await, _ => build_tlsa_proof_async(a, n).await } }))
}
/// A socket on an address of this process's own, as connections which ended recently still use up ports.
fn listen() -> TcpListener {
	let p = std::process::id();
	let a = SocketAddr::from(([127, 1 + (p >> 16) as u8 % 200, (p >> 8) as u8, p as u8], 0));
	let t0 = Instant::now();
	loop {
		match TcpListener::bind(a) {
			Ok(l) => return l,
			Err(e) => { assert!(t0.elapsed().as_secs() < 90, "bind: {}", e); std::thread::sleep(Duration::from_millis(200)); },
		}
	}
}
/// Runs one driver against the script.
fn drive(p: &Plan, n: &Name, ty: u16, which: &str, f: fn(SocketAddr, &Name, u16) -> Outcome) -> Result<(), String> {
	let l = listen();
	let addr = l.local_addr().unwrap();
	let patience = Duration::from_millis(PATIENCE.with(|c| c.get()));
	let plan = p.clone();
	let t = std::thread::spawn(move || {
		l.set_nonblocking(true).unwrap();
		let t0 = Instant::now();
		loop {
			match l.accept() {
				Ok((c, _)) => { c.set_nonblocking(false).unwrap(); return serve(c, &plan, patience); },
				Err(_) => { if t0.elapsed() > patience { return Err("no connection is made".to_string()); } std::thread::sleep(Duration::from_micros(20)); },
			}
		}
	});
	let r = sut(|| f(addr, n, ty));
	let served = t.join().map_err(|_| "the scripted resolver failed".to_string());
	let verdict = (|| -> Result<(), String> {
		let got = served??;
		match (&p.expect, &r?) {
			(None, Err(_)) => {},
			(Some(e), Ok(g)) => if e != g { return Err(format!("the proof ({} bytes, TTL {}) differs from the one built by hand ({} bytes, TTL {})", g.0.len(), g.1, e.0.len(), e.1)); },
			(Some(_), Err(e)) => return Err(format!("error ({}) although every response arrived", e)),
			(None, Ok(g)) => return Err(format!("a proof of {} bytes instead of an error", g.0.len())),
		}
		if p.reset { return Ok(()); }
		let (mut q, rest) = frames(&got);
		if p.expect.is_none() {
			// A driver that gives up closes the connection, which may lose what it sent last.
			let mut left = p.queries.clone();
			for x in &q { match left.iter().position(|y| y == x) { Some(i) => { left.remove(i); }, None => return Err(format!("the query {} is sent twice or was never due", hex(x))) } }
			return Ok(());
		}
		if rest { return Err(format!("the queries are not framed correctly: {}", hex(&got))); }
		let mut want = p.queries.clone();
		q.sort();
		want.sort();
		if q != want { return Err(format!("sent {} queries [{}], to be sent are {} [{}]", q.len(), q.iter().map(|x| hex(x)).collect::<Vec<_>>().join(", "), want.len(), want.iter().map(|x| hex(x)).collect::<Vec<_>>().join(", "))); }
		Ok(())
	})();
	verdict.map_err(|e| { PATIENCE.with(|c| c.set(1000)); format!("{} driver, {}: {}", which, p.what, e) })
}
fn both(s: &mut Src, c: &mut Ctx, p: &Plan, n: &MName, ty: u16) -> Result<(), String> {
	c.label(p.what.split(" at").next().unwrap_or("").to_string());
	c.label(if p.expect.is_some() { "a proof" } else { "an error" });
	c.nontrivial(hash_bytes(&p.steps.iter().flat_map(|x| x.bytes.clone()).collect::<Vec<u8>>()));
	c.note(|| format!("{} {}: {} queries, {}, {}; steps {}", n.text(), ty_name(ty), p.queries.len(), p.what, if p.expect.is_some() { "proof" } else { "error" }, p.steps.iter().map(|x| format!("[after {} queries {} bytes cut at {:?}]", x.wait, x.bytes.len(), x.cuts)).collect::<Vec<_>>().join(" ")));
	let name = conv::name_in(n);
	// Mostly only one of the two, for speed.
	match s.below(3) {
		0 => drive(p, &name, ty, "blocking", blocking),
		1 => drive(p, &name, ty, "async", asynchronous),
		_ => { drive(p, &name, ty, "blocking", blocking)?; drive(p, &name, ty, "async", asynchronous) },
	}
}
fn faithful(s: &mut Src, c: &mut Ctx) -> Result<(), String> { let (n, ty, p) = scenario(s, false)?; both(s, c, &p, &n, ty) }
fn faulty(s: &mut Src, c: &mut Ctx) -> Result<(), String> { let (n, ty, p) = scenario(s, true)?; both(s, c, &p, &n, ty) }

pub fn c21() -> Prop {
	Prop {
		id: "C21",
		rule: "a scripted exchange over a loopback connection whose result and queries were compared with a proof builder stepped by hand over the same responses; distinct by the bytes sent",
		tests: vec![
			Test { name: "faithful", quick: 6_000, thorough: 300_000, run: faithful },
			Test { name: "faulty", quick: 6_000, thorough: 300_000, run: faulty },
		],
		known: vec![],
		assumptions: vec![
			"the proof builder itself is judged by C18 to C20",
			"how the kernel coalesces segments is not controlled; pauses between writes make separate reads likely",
		],
	}
}
