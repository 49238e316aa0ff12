//! C25: the browser lookup (doh_lookup.js), run by node with the wrappers built natively and a scripted network.

use super::{builder::*, records::*, validate::*};
use crate::engine::*;
use crate::model::{conv, gen, json, json::J, message::*, name::MName, resolver, rr::*, zone::*};
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::rr::Name;
use dnssec_prover_wasm as w;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
	fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
	fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
	fn poll(fds: *mut [u32; 2], n: u64, ms: i32) -> i32;
}
struct Node { child: Child, buf: Vec<u8>, used: u32 }
impl Drop for Node { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
impl Node {
	fn start() -> Node {
		let dir = std::env::var("JS_DIR").expect("JS_DIR");
		let mut c = Command::new("node");
		c.arg("--no-warnings").arg("--max-semi-space-size=2").arg(format!("{}/worker.mjs", dir)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
		unsafe { c.pre_exec(|| { prctl(1, 9, 0, 0, 0); let l = [u64::MAX, u64::MAX]; setrlimit(9, &l); Ok(()) }); }
		Node { child: c.spawn().expect("start node"), buf: vec![], used: 0 }
	}
	fn send(&mut self, line: &str) -> Result<(), String> {
		let i = self.child.stdin.as_mut().unwrap();
		i.write_all(line.as_bytes()).and_then(|_| i.write_all(b"\n")).map_err(|e| format!("harness: node is gone: {}", e))
	}
	fn receive(&mut self) -> Result<J, String> {
		let t0 = Instant::now();
		loop {
			if let Some(p) = self.buf.iter().position(|b| *b == b'\n') {
				let line: Vec<u8> = self.buf.drain(..=p).collect();
				return json::parse(std::str::from_utf8(&line).map_err(|_| "harness: not UTF-8")?).map_err(|e| format!("harness: {}", e));
			}
			let o = self.child.stdout.as_mut().unwrap();
			let mut f = [o.as_raw_fd() as u32, 1u32];
			if t0.elapsed() > Duration::from_secs(20) { return Err("the lookup neither ends nor waits for anything for 20 seconds".into()); }
			if unsafe { poll(&mut f, 1, 1000) } <= 0 { continue; }
			let mut b = [0u8; 1 << 16];
			match o.read(&mut b) { Ok(n) if n > 0 => self.buf.extend_from_slice(&b[..n]), _ => return Err("the lookup ends the whole process".into()) }
		}
	}
}
thread_local! { static NODE: RefCell<Option<Node>> = RefCell::new(None); }

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c); }, c if (c as u32) < 32 || c as u32 == 0x2028 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
	o.push('"');
	o
}
fn unhex(s: &str) -> Result<Vec<u8>, String> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).map_err(|_| "harness: bad hex".to_string())).collect() }
/// Unpadded base64url, strictly.
fn unb64(s: &str) -> Result<Vec<u8>, String> {
	let (mut acc, mut bits, mut o) = (0u32, 0, Vec::new());
	for c in s.bytes() {
		let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' => 62, b'_' => 63, _ => return Err(format!("{:?} is not unpadded base64url", s)) };
		acc = acc << 6 | v as u32; bits += 6;
		if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
	}
	if acc != 0 || bits >= 6 { return Err(format!("{:?} is not canonical base64url", s)); }
	Ok(o)
}

struct Look {
	domain: String, ty: String, endpoint: String, start: u64,
	/// The full name and type number asked for, if both are good.
	full: String, num: Option<u16>, name: Option<Name>,
	lib: Option<ProofBuilder>, wasm: Option<w::WASMProofBuilder>,
	inits: u32,
	/// Queries issued by the library that were not yet fetched from the wrapper; fetched from it but not sent; sent.
	issued: Vec<Vec<u8>>, out: Vec<Vec<u8>>, fetches: u32,
	/// Bodies that are to be delivered, with the queries they answer, and how many were.
	bodies: Vec<(Vec<u8>, Vec<u8>)>, delivered: u32,
	failed: Option<String>, consumed: bool, proof: Option<Option<Vec<u8>>>, verified: Vec<String>, undelivered_ok: bool,
}
fn message(s: &mut Src) -> String {
	match s.below(6) {
		0 => "Failed to fetch".into(),
		1 => "Failed to parse URL from https://exa\"mple/dns-query".into(),
		2 => "C:\\net\\proxy: unexpected \"\\u\"".into(),
		3 => "line one\nline two\t\u{1}".into(),
		4 => "\u{2028}caf\u{e9} \u{1f600} </script>".into(),
		_ => { let n = s.usize(0, 12); (0..n).map(|_| char::from(s.below(128) as u8)).collect() },
	}
}
/// Exchanges the proof builders of two lookups for the same.
fn swap_builders(looks: &mut [Look], of: &mut [usize], i: usize, k: usize) {
	let (x, y) = (i.min(k), i.max(k));
	let (a, b) = looks.split_at_mut(y);
	let (a, b) = (&mut a[x], &mut b[0]);
	std::mem::swap(&mut a.lib, &mut b.lib); std::mem::swap(&mut a.wasm, &mut b.wasm); std::mem::swap(&mut a.inits, &mut b.inits);
	std::mem::swap(&mut a.issued, &mut b.issued); std::mem::swap(&mut a.out, &mut b.out);
	for o in of.iter_mut() { if *o == x { *o = y } else if *o == y { *o = x } }
}
fn lookups(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let mut node = NODE.with(|n| n.borrow_mut().take()).filter(|n| n.used < 400).unwrap_or_else(Node::start);
	node.used += 1;
	let mut ended = false;
	let r = run(s, c, &mut node, &mut ended);
	// In the middle of the lookups the process may be in any state.
	if ended { NODE.with(|n| *n.borrow_mut() = Some(node)); }
	r
}
fn run(s: &mut Src, c: &mut Ctx, node: &mut Node, ended: &mut bool) -> Result<(), String> {
	let u = Universe::generate(s, &Opts { zones: (1, 5), wildcards: 20, fams: [70, 20, 1, 1, 0], ..Default::default() });
	set_anchors(&u.anchors());
	c.note(|| u.show());
	let n = if s.chance(1, 24) { s.usize(4, 9) } else { *s.pick(&[1usize, 1, 2, 2, 3]) };
	let mut looks: Vec<Look> = Vec::new();
	for i in 0..n {
		let (mut qn, mut qt) = u.query(s);
		// The same question again, maybe written in another way.
		let again = if !looks.is_empty() && s.chance(1, 4) { let l = s.pick(&looks); match (l.num, &l.name) { (Some(t), Some(_)) => { qt = t; Some((l.domain.clone(), l.full.clone())) }, _ => None } } else { None };
		if again.is_some() { qn = MName::root(); }
		let domain = if let Some((d, f)) = &again { if s.bool() { d.clone() } else { f.clone() } } else if s.chance(1, 6) { text(s) } else { let t = qn.text(); if s.bool() { t.strip_suffix('.').unwrap_or("").to_string() } else { t } };
		let known = [("txt", 16u16), ("tlsa", 52), ("a", 1), ("aaaa", 28)];
		let (ty, num) = if s.chance(1, 8) {
			(s.pick(&["mx", "", "txt ", "aa", "aaa", "16", "1", "DS", "cname", "constructor", "__proto__", "toString", "a.", "txt,a", "null", "\u{ff21}", "tl sa"]).to_string(), None)
		} else {
			let k = if again.is_some() || s.chance(2, 3) { *known.iter().find(|k| k.1 == qt).unwrap_or(&known[0]) } else { *s.pick(&known) };
			(k.0.chars().map(|x| if s.bool() { x.to_ascii_uppercase() } else { x }).collect(), Some(k.1))
		};
		let full = if domain.ends_with('.') { domain.clone() } else { format!("{}.", domain) };
		// A bad name or type leaves nothing to tell two lookups apart, and gives the same.
		let same = looks.iter().any(|l| l.full == full && l.num == num);
		if same && Name::try_from(full.as_str()).is_err() { continue; }
		if same { c.label("the same question twice"); }
		let mut endpoint = format!("https://doh{}.example{}", i, s.pick(&["/dns-query", "", "/", ":8443/a/b", "/dns-query/%7Bid%7D"]));
		if !looks.is_empty() && s.chance(1, 2) {
			// Several lookups over one endpoint, but no more than two for the same: their results are told apart by trial.
			let e = s.pick(&looks).endpoint.clone();
			if looks.iter().filter(|l| l.full == full && l.num == num && l.endpoint == e).count() < 2 { endpoint = e; c.label("one endpoint for several lookups"); }
		}
		let name = Name::try_from(full.as_str()).ok();
		looks.push(Look { domain, ty, endpoint, start: s.below(4), full, num, name, lib: None, wasm: None, inits: 0, issued: vec![], out: vec![], fetches: 0, bodies: vec![], delivered: 0, failed: None, consumed: false, proof: None, verified: vec![], undelivered_ok: false });
	}
	let faults = s.chance(1, 3);
	let load = s.below(4);
	let two_groups = looks.len() > 1 && s.chance(1, 4);
	let g = |l: &[Look]| l.iter().map(|l| format!("{{\"domain\":{},\"ty\":{},\"endpoint\":{},\"start\":{}}}", esc(&l.domain), esc(&l.ty), esc(&l.endpoint), l.start)).collect::<Vec<_>>().join(",");
	let groups = if two_groups { format!("[{}],[{}]", g(&looks[..1]), g(&looks[1..])) } else { format!("[{}]", g(&looks)) };
	c.note(|| format!("lookups {} {}", if two_groups { "one after the other:" } else { "at once:" }, groups));
	c.label(if looks.len() == 1 { "one lookup" } else if two_groups { "lookups one after the other" } else { "lookups at once" });
	node.send(&format!("{{\"load\":{},\"groups\":[{}]}}", load, groups))?;
	let mut key = hash_bytes(groups.as_bytes());
	let st = style(s);
	// Which lookup each proof builder is of.
	let mut of: Vec<usize> = (0..looks.len()).collect();
	let mut steps = 0;
	let done = loop {
		let m = node.receive()?;
		steps += 1;
		if steps > 2000 { return Err("the lookups make calls without end".into()); }
		let strs = |v: &J| -> Vec<String> { v.arr().map(|a| a.iter().map(|x| x.str().unwrap_or("").to_string()).collect()).unwrap_or_default() };
		if let Some(a) = m.get("init") {
			let (name, ty) = match a.arr() { Some([n, t]) => (n.str().unwrap_or("").to_string(), t.u64().unwrap_or(0) as u16), _ => return Err("harness: bad init".into()) };
			let full = if name.ends_with('.') { name.clone() } else { format!("{}.", name) };
			let fits = |l: &Look| l.full == full && l.num == Some(ty);
			let Some(i) = looks.iter().position(|l| fits(l) && l.inits == 0).or(looks.iter().position(fits)) else { return Err(format!("a proof builder is asked for with name {:?} and type {}", name, ty)) };
			let l = &mut looks[i];
			l.inits += 1;
			if l.inits > 1 { return Err(format!("a second proof builder is made for {:?}", name)); }
			l.wasm = sut(move || w::init_proof_builder(name, ty))?;
			if let Some(n) = &l.name { let (b, q) = ProofBuilder::new(n, ty); l.lib = Some(b); l.issued.push(q.to_vec()); }
			if l.wasm.is_some() != l.name.is_some() { return Err(format!("harness: {:?} is taken as a name by one and not by the other", l.full)); }
			let b = of.iter().position(|k| *k == i).unwrap();
			node.send(&if l.wasm.is_some() { format!("{{\"b\":{}}}", b + 1) } else { "{\"b\":null}".into() })?;
		} else if let Some(i) = m.get("next").and_then(|x| x.u64()) {
			let l = &mut looks[of[i as usize - 1]];
			let wb = l.wasm.as_mut().ok_or("harness: no builder")?;
			match sut(|| w::get_next_query(wb))? {
				Some(q) => {
					match l.issued.iter().position(|x| *x == q) { Some(p) => { l.issued.remove(p); }, None => return Err("harness: the wrapper gives a query the library did not issue".into()) }
					let h = hex(&q);
					l.out.push(q);
					node.send(&format!("{{\"q\":\"{}\"}}", h))?;
				},
				None => node.send("{\"q\":null}")?,
			}
		} else if let Some(a) = m.get("resp") {
			let (mut i, b) = match a.arr() { Some([i, b]) => (of[i.u64().unwrap_or(1) as usize - 1], unhex(b.str().unwrap_or(""))?), _ => return Err("harness: bad resp".into()) };
			if !looks[i].bodies.iter().any(|x| x.1 == b) {
				// Which of two lookups sent a query may only be known now: one for the same, or one over the same endpoint.
				let same = (0..looks.len()).find(|k| *k != i && looks[*k].full == looks[i].full && looks[*k].num == looks[i].num
					&& looks[*k].delivered == 0 && looks[i].delivered == 0 && looks[*k].out.len() == looks[i].out.len() && looks[*k].bodies.iter().any(|x| x.1 == b));
				let other = (0..looks.len()).find(|k| *k != i && looks[*k].endpoint == looks[i].endpoint && looks[*k].bodies.iter().any(|x| x.1 == b && looks[i].out.contains(&x.0)));
				if let Some(k) = other {
					let p = looks[k].bodies.iter().position(|x| x.1 == b && looks[i].out.contains(&x.0)).unwrap();
					let x = looks[k].bodies.remove(p);
					looks[k].out.push(x.0.clone()); looks[k].fetches -= 1;
					let p = looks[i].out.iter().position(|q| *q == x.0).unwrap();
					looks[i].out.remove(p); looks[i].fetches += 1;
					looks[i].bodies.push(x);
				} else if let Some(k) = same {
					swap_builders(&mut looks, &mut of, i, k);
					i = k;
				}
			}
			let l = &mut looks[i];
			l.delivered += 1;
			match l.bodies.iter().position(|x| x.1 == b) {
				Some(p) => { l.bodies.remove(p); },
				None => return Err(format!("{} bytes are delivered for {:?} which are not the body of one of its answers (or were delivered before): {}", b.len(), l.full, hex(&b[..b.len().min(100)]))),
			}
			let (wb, lb) = (l.wasm.as_mut().ok_or("harness: no builder")?, l.lib.as_mut().unwrap());
			if b.len() <= 65535 { if let Ok(q) = sut(|| lb.process_response(&buf(&b)))? { l.issued.extend(q.iter().map(|q| q.to_vec())); } }
			sut(|| w::process_query_response(wb, b))?;
			node.send("{}")?;
		} else if let Some(i) = m.get("proof").and_then(|x| x.u64()) {
			let l = &mut looks[of[i as usize - 1]];
			let wb = l.wasm.take().ok_or("harness: no builder")?;
			l.consumed = true;
			l.undelivered_ok = !l.bodies.is_empty();
			let lib = l.lib.take().and_then(|b| b.finish_proof().ok()).map(|x| x.0);
			let p = sut(move || w::get_unverified_proof(wb))?;
			if p != lib { return Err("harness: the wrapper's proof is not the library's".into()); }
			node.send(&match &p { Some(p) => format!("{{\"p\":\"{}\"}}", hex(p)), None => "{\"p\":null}".into() })?;
			l.proof = Some(p);
		} else if let Some(b) = m.get("verify").and_then(|x| x.str()) {
			let b = unhex(b)?;
			let t = sut(move || w::verify_byte_stream(b.clone()))?;
			node.send(&format!("{{\"t\":{}}}", esc(&t)))?;
		} else if let Some(a) = m.get("fetch") {
			let v = strs(a);
			let (url, method, accept) = (&v[0], &v[1], &v[2]);
			let Some((ep, q)) = url.split_once("?dns=") else { return Err(format!("{} is fetched, which is not a query to an endpoint", url)) };
			if !looks.iter().any(|l| l.endpoint == ep) { return Err(format!("{} is fetched, which is not the endpoint asked", url)); }
			if method != "GET" { return Err(format!("the endpoint is asked with {}", method)); }
			if accept != "application/dns-message" { return Err(format!("the endpoint is asked to give {:?}", accept)); }
			let q = unb64(q)?;
			let able: Vec<usize> = (0..looks.len()).filter(|i| looks[*i].endpoint == ep && looks[*i].out.contains(&q)).collect();
			let i = if let Some(i) = able.first() { *i } else {
				// Of lookups for the same, the endpoint of the first request tells whose builder it is.
				let pair = (0..looks.len()).filter(|i| looks[*i].endpoint == ep && looks[*i].fetches == 0)
					.find_map(|i| (0..looks.len()).find(|k| *k != i && looks[*k].fetches == 0 && looks[*k].full == looks[i].full && looks[*k].num == looks[i].num && looks[*k].out.contains(&q)).map(|k| (i, k)));
				let Some((i, k)) = pair else { return Err(format!("{} is asked {}, which is not one of the open queries for it", ep, hex(&q))) };
				swap_builders(&mut looks, &mut of, i, k);
				i
			};
			let l = &mut looks[i];
			let p = l.out.iter().position(|x| *x == q).unwrap();
			l.out.remove(p);
			l.fetches += 1;
			let (qn, qt) = parse_query(&q)?;
			let extra = s.bool();
			let mut body = resolver::answer(s, &u, &qn, qt, st, extra).bytes;
			let (mut status, mut fail, mut cut) = (200u64, None, None);
			if faults && s.chance(1, 4) && able.len() < 2 {
				match s.below(8) {
					0 => { status = *s.pick(&[400u64, 404, 413, 415, 429, 500, 502, 503, 599, 300]); l.failed = Some(format!("HTTP {}", status)); if s.bool() { body = b"error".to_vec(); } },
					1 => { fail = Some(message(s)); cut = Some(0); l.failed = Some("network error".into()); },
					2 => { fail = Some(message(s)); cut = Some(s.usize(1, body.len())); l.failed = Some("error inside of the body".into()); },
					3 => { let k = s.usize(0, body.len()); body.truncate(k); c.label("truncated answer"); },
					4 => { let n = *s.pick(&[65535usize, 65536, 70_000, 12, 2]); body.resize(n, 0); c.label("resized answer"); },
					5 => { body.clear(); if s.bool() { status = 204; } c.label("empty answer"); },
					6 => { let i = s.usize(0, body.len() - 1); body[i] ^= 1 << s.below(8); c.label("altered answer"); },
					_ => { status = *s.pick(&[201u64, 203, 206, 299]); c.label("other good status"); },
				}
			}
			key = mix(key ^ hash_bytes(&body) ^ status);
			if let Some(f) = &l.failed { let (f, m) = (f.clone(), fail.clone()); c.note(|| format!("{} for {}: {} {:?}", f, qn.text(), status, m)); c.label(f.split(' ').next().unwrap().to_string() + " fault"); } else { l.bodies.push((q.clone(), body.clone())); }
			let end = cut.unwrap_or(body.len());
			let mut at = 0;
			let mut chunks = Vec::new();
			while at < end {
				let k = if s.chance(2, 3) || end - at > 5000 { end - at } else { s.usize(1, end - at) };
				chunks.push(format!("[{},\"{}\"]", s.below(3), hex(&body[at..at + k])));
				at += k;
			}
			node.send(&format!("{{\"turns\":{},\"status\":{},\"chunks\":[{}],\"fail\":{},\"kind\":{}}}", s.below(4), status, chunks.join(","), fail.as_ref().map(|f| esc(f)).unwrap_or("null".into()), s.below(4)))?;
		} else if m.get("stuck").is_some() {
			return Err("a lookup never ends, although nothing is outstanding".into());
		} else if m.get("done").is_some() { *ended = true; break m; } else { return Err("harness: unknown message".into()); }
	};
	if let Some(m) = done.get("misuse").and_then(|x| x.arr()).and_then(|a| a.first()) { return Err(format!("misuse of the wrappers: {}", m.str().unwrap_or("?"))); }
	c.nontrivial(key);
	let results = done.get("done").and_then(|x| x.arr()).ok_or("harness: no results")?;
	if results.len() != looks.len() { return Err("harness: results are missing".into()); }
	// Two lookups for the same over the same endpoint may have been told apart the wrong way around.
	for i in 0..looks.len() {
		let l = &looks[i];
		let twin = (0..looks.len()).find(|k| *k != i && looks[*k].full == l.full && looks[*k].num == l.num && looks[*k].endpoint == l.endpoint);
		let r = judge(l, &results[i], c);
		if r.is_err() {
			if let Some(k) = twin { if !(two_groups && (i == 0 || k == 0)) && judge(l, &results[k], c).is_ok() && judge(&looks[k], &results[i], c).is_ok() { continue; } }
			return r;
		}
	}
	Ok(())
}
fn judge(l: &Look, r: &J, c: &mut Ctx) -> Result<(), String> {
	let what = format!("the lookup of {:?} {:?}", l.domain, l.ty);
	if let Some(e) = r.get("rejected") { return Err(format!("{} fails with {:?} instead of giving an error object", what, e)); }
	let Some(text) = r.get("text").and_then(|x| x.str()) else { return Err(format!("{} gives {:?}", what, r.get("odd"))) };
	c.note(|| format!("{} gives {}", what, text));
	let j = json::parse(text).map_err(|e| format!("{} gives something that is not JSON: {}: {}", what, e, text))?;
	let is_error = matches!(&j, J::Obj(o) if o.len() == 1 && o[0].0 == "error" && matches!(&o[0].1, J::Str(x) if !x.is_empty()));
	let error = |why: &str| -> Result<(), String> { if is_error { Ok(()) } else { Err(format!("{}: {}, and the result is {}", what, why, text)) } };
	if l.num.is_none() || l.name.is_none() {
		c.label(if l.num.is_none() { "unknown type" } else { "bad name" });
		if l.fetches > 0 { return Err(format!("{} cannot be made, and sends queries", what)); }
		error("the type or name is bad")?;
		return Ok(());
	}
	if let Some(f) = &l.failed { c.label("failed lookup"); error(f)?; return Ok(()); }
	if l.fetches == 0 { return Err(format!("{} sends no query and gives {}", what, text)); }
	if !l.issued.is_empty() || !l.out.is_empty() { return Err(format!("{} leaves {} queries unanswered and gives {}", what, l.issued.len() + l.out.len(), text)); }
	if !l.bodies.is_empty() || l.undelivered_ok { return Err(format!("{} does not process all answers and gives {}", what, text)); }
	// What the library makes of the same answers.
	let p = match &l.proof { Some(p) => p.clone(), None => l.lib.as_ref().map(|_| ()).and(None) };
	if !l.consumed {
		// The proof was never asked for: that is right only if there is none, which the library would have to say.
		if l.lib.as_ref().map_or(false, |b| !b.awaiting_responses()) { return Err(format!("{} does not ask for the proof and gives {}", what, text)); }
		error("there is no proof")?;
		return Ok(());
	}
	match p {
		None => { c.label("no proof"); error("there is no proof")?; },
		Some(p) => {
			let t = sut(move || w::verify_byte_stream(p))?;
			let want = json::parse(&t).map_err(|e| format!("harness: {}", e))?;
			c.label(if want.get("error").is_some() { "proof does not verify" } else { "verified" });
			if want != j { return Err(format!("{} gives {} instead of {}", what, text, t)); }
		},
	}
	Ok(())
}
pub fn c25() -> Prop {
	Prop {
		id: "C25",
		rule: "a case is non-trivial when its lookups (one to nine) ran to their end against a scripted network; distinct by the lookups and all the answers given",
		tests: vec![Test { name: "lookups", quick: 12_000, thorough: 400_000, run: lookups }],
		known: vec![],
		assumptions: vec!["the module loads; the generated glue code is represented by a stand-in that calls the native build of the wrappers", "endpoints have no query part of their own"],
	}
}
