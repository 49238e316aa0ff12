//! C23: the proof server as a black box, between generated clients and a scripted resolver.

use crate::engine::*;
use crate::model::{message::*, name::MName, net::*, rr::*};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
	fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
	fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
type Plans = Arc<Mutex<HashMap<(MName, u16), Plan>>>;
struct Server { child: Child, addr: SocketAddr }
impl Server {
	fn start(port: u16, files: u64) -> Server {
		let resolver = ip(53_000);
		let addr = ip(port);
		let bin = std::env::var("HTTP_BIN").expect("HTTP_BIN");
		let mut c = Command::new(bin);
		c.env("RESOLVER", resolver.to_string()).env("BIND", addr.to_string()).env("TOKIO_WORKER_THREADS", "2");
		c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
		unsafe { c.pre_exec(move || { prctl(1, 9, 0, 0, 0); let l = [files, files]; setrlimit(7, &l); let l = [u64::MAX, u64::MAX]; setrlimit(9, &l); Ok(()) }); }
		let child = c.spawn().expect("start the server");
		let t0 = Instant::now();
		while TcpStream::connect(addr).is_err() { assert!(t0.elapsed().as_secs() < 60, "the server does not listen"); std::thread::sleep(Duration::from_millis(5)); }
		Server { child, addr }
	}
	fn alive(&mut self) -> Result<(), String> {
		match self.child.try_wait() { Ok(None) => Ok(()), _ => Err("the server process ended".into()) }
	}
}
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
/// An address no other process uses.
fn ip(port: u16) -> SocketAddr { let p = std::process::id(); SocketAddr::from(([127, 1 + (p >> 16) as u8 % 200, (p >> 8) as u8, p as u8], port)) }

thread_local! {
	static PLANS: RefCell<Option<Plans>> = const { RefCell::new(None) };
	static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
	static SMALL: RefCell<Option<Server>> = const { RefCell::new(None) };
	static PATIENCE: Cell<u64> = const { Cell::new(20_000) };
}
const SILENT: &str = "silent";
fn plans() -> Plans {
	PLANS.with(|p| p.borrow_mut().get_or_insert_with(|| {
		let map: Plans = Arc::new(Mutex::new(HashMap::new()));
		let l = TcpListener::bind(ip(53_000)).expect("bind the resolver");
		let m = map.clone();
		std::thread::spawn(move || for c in l.incoming() {
			let Ok(c) = c else { continue };
			let m = m.clone();
			std::thread::spawn(move || { let _ = resolve(c, &m); });
		});
		map
	}).clone())
}
fn resolve(mut c: TcpStream, m: &Plans) -> Option<()> {
	c.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
	let mut got = Vec::new();
	let mut b = [0u8; 2048];
	while frames(&got).0.is_empty() { match c.read(&mut b) { Ok(k) if k > 0 => got.extend_from_slice(&b[..k]), _ => return None } }
	let q = parse_query(&frames(&got).0[0]).ok()?;
	let p = m.lock().unwrap().get(&q).cloned()?;
	// Says nothing, until the plan is given up.
	if p.what == SILENT { while m.lock().unwrap().contains_key(&q) { std::thread::sleep(Duration::from_millis(3)); } return None; }
	serve_more(c, &p, Duration::from_secs(20), got).ok()?;
	Some(())
}
/// Runs `f` with the server, started anew where it has ended.
fn with_server<T>(small: bool, f: impl FnOnce(&mut Server) -> T) -> T {
	plans();
	(if small { &SMALL } else { &SERVER }).with(|s| {
		let mut s = s.borrow_mut();
		if s.as_mut().map_or(true, |x| x.alive().is_err()) { *s = None; *s = Some(Server::start(if small { 8_081 } else { 8_080 }, if small { 40 } else { 1024 })); }
		f(s.as_mut().unwrap())
	})
}

#[derive(Clone, Debug, PartialEq)]
enum Want { Proof(Vec<u8>, u32), Code(&'static [u16]), Nothing }
#[derive(Clone, Debug)]
struct Request {
	bytes: Vec<u8>,
	cuts: Vec<usize>,
	pause: u64,
	/// After how many bytes the client goes away, and whether it only stops sending.
	leave: Option<(usize, bool)>,
	/// Time before the reply is read.
	idle: u64,
	want: Want,
	what: &'static str,
}
#[derive(Debug)]
struct Reply { code: u16, headers: Vec<(String, String)>, body: Vec<u8> }

fn exchange(addr: SocketAddr, r: &Request, patience: Duration) -> Result<Option<Reply>, String> {
	let mut c = TcpStream::connect(addr).map_err(|e| format!("cannot connect: {}", e))?;
	let _ = c.set_nodelay(true);
	let _ = c.set_read_timeout(Some(patience));
	let _ = c.set_write_timeout(Some(patience));
	let end = r.leave.map_or(r.bytes.len(), |x| x.0);
	let mut a = 0;
	for e in r.cuts.iter().copied().filter(|x| *x < end).chain(Some(end)) {
		// The server may reply and close before everything is sent.
		if c.write_all(&r.bytes[a..e]).is_err() { break; }
		a = e;
		if r.pause > 0 { std::thread::sleep(Duration::from_micros(r.pause)); }
	}
	match r.leave { Some((_, false)) => return Ok(None), Some((_, true)) => { let _ = c.shutdown(Shutdown::Write); }, None => {} }
	if r.idle > 0 { std::thread::sleep(Duration::from_micros(r.idle)); }
	let mut got = Vec::new();
	let mut b = [0u8; 16_384];
	let (mut trouble, mut late) = (None, false);
	loop {
		match c.read(&mut b) {
			Ok(0) => break,
			Ok(k) => got.extend_from_slice(&b[..k]),
			Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {},
			Err(e) => { late = matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut); trouble = Some(e.to_string()); break; },
		}
	}
	if got.is_empty() { return match trouble { Some(e) if r.want != Want::Nothing => Err(format!("no reply: {}", e)), _ => Ok(None) }; }
	let show = || String::from_utf8_lossy(&got[..got.len().min(300)]).into_owned();
	let Some(h) = got.windows(4).position(|w| w == b"\r\n\r\n") else { return Err(format!("the reply has no end of headers{}: {:?}", trouble.map_or(String::new(), |e| format!(" ({})", e)), show())) };
	let head = std::str::from_utf8(&got[..h]).map_err(|_| format!("the reply's headers are not text: {:?}", show()))?;
	let mut lines = head.split("\r\n");
	let status = lines.next().unwrap_or("");
	let mut w = status.splitn(3, ' ');
	let (v, code) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
	if !matches!(v, "HTTP/1.1" | "HTTP/1.0") || code.len() != 3 { return Err(format!("malformed status line {:?}", status)); }
	let code: u16 = code.parse().map_err(|_| format!("malformed status line {:?}", status))?;
	let mut headers = Vec::new();
	for l in lines {
		let Some((k, v)) = l.split_once(':') else { return Err(format!("malformed header {:?}", l)) };
		headers.push((k.to_ascii_lowercase(), v.trim().to_string()));
	}
	let body = got[h + 4..].to_vec();
	let cl: Vec<&String> = headers.iter().filter(|x| x.0 == "content-length").map(|x| &x.1).collect();
	if cl.len() != 1 { return Err(format!("{} content lengths in the reply {:?}", cl.len(), head)); }
	if cl[0].parse() != Ok(body.len()) { return Err(format!("the content length is {}, the body has {} bytes{}", cl[0], body.len(), trouble.map_or(String::new(), |e| format!(" ({})", e)))); }
	// Such clients know the end of the connection as the end of the reply.
	let first = r.bytes.split(|b| *b == b'\r').next().unwrap_or(b"");
	if late && r.want != Want::Nothing && first.ends_with(b" HTTP/1.0") { return Err("the connection of an HTTP/1.0 client is not closed after the reply".into()); }
	Ok(Some(Reply { code, headers, body }))
}
fn judge(r: &Request, got: &Option<Reply>) -> Result<(), String> {
	match (&r.want, got) {
		(Want::Nothing, _) => Ok(()),
		(_, None) => Err("the connection is closed without a reply".into()),
		(Want::Code(c), Some(g)) => if c.contains(&g.code) { Ok(()) } else { Err(format!("status {} instead of {:?}, body {:?}", g.code, c, String::from_utf8_lossy(&g.body[..g.body.len().min(100)]))) },
		(Want::Proof(p, ttl), Some(g)) => {
			if g.code != 200 { return Err(format!("status {} instead of 200, body {:?}", g.code, String::from_utf8_lossy(&g.body[..g.body.len().min(100)]))); }
			if &g.body != p { return Err(format!("the body ({} bytes) is not the proof ({} bytes)", g.body.len(), p.len())); }
			let cc: Vec<&String> = g.headers.iter().filter(|x| x.0 == "cache-control").map(|x| &x.1).collect();
			let ages: Vec<&str> = cc.iter().flat_map(|v| v.split(',')).filter_map(|d| { let (k, v) = d.trim().split_once('=')?; if k.eq_ignore_ascii_case("max-age") || k.eq_ignore_ascii_case("s-maxage") { Some(v) } else { None } }).collect();
			if ages.is_empty() || ages.iter().any(|a| a.parse() != Ok(*ttl)) { return Err(format!("cache control {:?} for a TTL of {}", cc, ttl)); }
			Ok(())
		},
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Requests

/// A name that needs no escaping in a URI.
fn plain(n: &MName) -> bool { n.0.iter().flatten().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'-' | b'_' | b'~' | b'!' | b'$' | b'\'' | b'(' | b')' | b'*' | b',' | b';' | b':' | b'@' | b'/' | b'?' | b'=')) }
fn headers(s: &mut Src) -> Vec<u8> {
	let mut h = Vec::new();
	for _ in 0..s.usize(0, 3) {
		match s.below(6) {
			0 => h.extend(b"Host: localhost\r\n"),
			1 => h.extend(b"Accept: */*\r\nAccept-Language: de, en\r\n"),
			2 => { h.extend(b"User-Agent: J\xc3\xb6rg \xe2\x82\xac\xf0\x9f\x98\x80\r\n"); },
			3 => { h.extend(b"X-Old: \xe9t\xe9\r\n"); },
			4 => { h.extend(b"Cookie: "); let n = s.usize(1, 6_000); h.extend(vec![b'c'; n]); h.extend(b"\r\n"); },
			_ => { h.extend("X-U: ".bytes()); let n = s.usize(1, 3_000); h.extend("é€".repeat(n).bytes()); h.extend(b"\r\n"); },
		}
	}
	h.extend(b"\r\n");
	h
}
fn case(s: &mut Src, t: &str) -> String { match s.below(3) { 0 => t.to_string(), 1 => t.to_lowercase(), _ => t.chars().map(|c| if s.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect() } }
fn args(s: &mut Src, d: &str, t: &str) -> String {
	let (d, t) = (format!("d={}", d), format!("t={}", t));
	let mut v = if s.bool() { vec![d.clone(), t.clone()] } else { vec![t.clone(), d.clone()] };
	if s.chance(1, 4) { let x = s.pick(&["x=", "x=1", "dd=a.b.", "D=c.", "T=A", "tt=TLSA", "a==", "=", "d2=d=x", "td=t"]).to_string(); let i = s.usize(0, v.len()); v.insert(i, x); }
	if s.chance(1, 10) { let x = s.pick(&v[..]).clone(); if x == d || x == t { v.push(x); } }
	v.join("&")
}
fn line(verb: &str, path: &str, version: &str) -> Vec<u8> { format!("{} {} {}\r\n", verb, path, version).into_bytes() }
fn version(s: &mut Src) -> &'static str { *s.pick(&["HTTP/1.1", "HTTP/1.0"]) }
fn request(s: &mut Src, sofar: &Plans, calm: bool) -> Result<Request, String> {
	let (mut b, mut want, what);
	match if calm { 0 } else { s.weighted(&[10, 3, 8]) } {
		k @ (0 | 1) => {
			let (n, ty, p) = super::scenario::scenario(s, k == 1)?;
			let taken = sofar.lock().unwrap().contains_key(&(n.clone(), ty));
			if !plain(&n) || taken || n.0.is_empty() && s.bool() {
				b = line("GET", "/dnssecproof?d=a.b&t=A", version(s)); want = Want::Code(&[400]); what = "name without a final dot";
			} else {
				let t = case(s, &ty_name(ty));
				let d = case(s, &n.text());
				let mut a = args(s, &d, &t);
				if s.chance(1, 10) {
					let n = *s.pick(&[1_020usize, 2_030, 2_045, 3_000, 4_000]);
					if a.len() + 30 < n { a = if s.bool() { format!("{}&x={}", a, "y".repeat(n - 30 - a.len())) } else { format!("x={}&{}", "y".repeat(n - 30 - a.len()), a) }; }
				}
				b = line("GET", &format!("/dnssecproof?{}", a), version(s));
				want = match &p.expect { Some((x, ttl)) => Want::Proof(x.clone(), *ttl), None => Want::Code(&[404]) };
				what = if p.expect.is_some() { "proof" } else { "no proof" };
				sofar.lock().unwrap().insert((n, ty), p);
			}
			b.extend(headers(s));
		},
		_ => {
			let ok = "/dnssecproof?d=a.example.&t=TXT";
			let v = version(s);
			match s.below(16) {
				0 => { let p = *s.pick(&["/", "/dnssecproof", "/dnssecproofs?d=a.&t=A", "/x?d=a.&t=A", "/DNSSECPROOF?d=a.&t=A", "*", "/dnssecproof/?d=a.&t=A", "//dnssecproof?d=a.&t=A", "/é?d=a.&t=A"]); b = line("GET", p, v); want = Want::Code(&[404]); what = "other path"; },
				1 => { let w = *s.pick(&["POST", "HEAD", "get", "", "GETX", "PUT", "G"]); b = line(w, ok, v); want = Want::Code(&[400]); what = "other verb"; },
				2 => { let w = *s.pick(&["HTTP/2", "HTTP/1.2", "http/1.1", "", "HTTP/1.1x", "HTTP/0.9"]); b = line("GET", ok, w); want = Want::Code(&[400]); what = "other version"; },
				3 => { let w = *s.pick(&["GET", "GET /dnssecproof?d=a.&t=A", "", " ", "  ", "GET  ", "x", "GET /dnssecproof?d=a.&t=A HTTP/1.1 x", "GET  /dnssecproof?d=a.&t=A HTTP/1.1", "GET /dnssecproof?d=a.&t=A HTTP/1.1 ", "GET /dnssecproof?d=a. &t=A HTTP/1.1"]); b = format!("{}\r\n", w).into_bytes(); want = Want::Code(&[400]); what = "malformed line"; },
				4 => { let w = *s.pick(&["", "d=a.", "t=A", "d=&t=A", "d=a.&t=", "d=&t=", "x=1", "D=a.&T=A", "d=a.&T=A"]); b = line("GET", &format!("/dnssecproof?{}", w), v); want = Want::Code(&[400]); what = "missing parameter"; },
				5 => { let w = *s.pick(&["d=a.&t=A&", "&d=a.&t=A", "d=a.&t=A&x", "d", "d=a.&t", "d=a.&&t=A"]); b = line("GET", &format!("/dnssecproof?{}", w), v); want = Want::Code(&[400]); what = "argument without a value"; },
				6 | 7 => {
					let mut d = super::records::text(s);
					d.retain(|c| !matches!(c, '&' | ' ' | '\r' | '\n'));
					if super::records::text_valid(&d) { d = d.trim_end_matches('.').to_string(); }
					let d = if d.is_empty() { "..".into() } else { d };
					let k = kind_text(s);
					b = line("GET", &format!("/dnssecproof?{}", args(s, &d, &k)), v);
					want = Want::Code(&[400]);
					what = "bad name";
				},
				8 => { let t = *s.pick(&["MX", "CNAME", "TXTS", "AA", "AAAAA", "1", "16", "TYPE16", "TX", "ns", "ANY", "é", "A ", "\u{131}", "K", "TXT\u{0}"]); let t = t.trim_end(); let t = if t == "A" { "B" } else { t }; b = line("GET", &format!("/dnssecproof?{}", args(s, "a.example.", t)), v); want = Want::Code(&[400]); what = "unknown type"; },
				9 => { b = b"GET /dnssecproof?d=a\xff.&t=A HTTP/1.1\r\n".to_vec(); if s.bool() { b = b"\xff\xfe\r\n".to_vec(); } want = Want::Code(&[400]); what = "line that is not text"; },
				10 => { let n = *s.pick(&[4_200usize, 5_000, 8_192, 20_000]); b = format!("GET /dnssecproof?d=a.&t=A&x={} HTTP/1.1", "x".repeat(n)).into_bytes(); if s.bool() { b.extend(b"\r\n"); } want = Want::Code(&[400]); what = "too long a line"; },
				11 => { let n = s.usize(0, 200); b = s.bytes(n); b.extend(b"\r\n"); want = Want::Nothing; what = "noise"; if !b.starts_with(b"GET /dnssecproof?") { want = Want::Code(&[400, 404]); } },
				12 => { b = line("POST", "/", v); want = Want::Code(&[400, 404]); what = "other verb and path"; },
				13 => { let n = s.usize(0, 3_000); b = vec![b'x'; n]; want = Want::Nothing; what = "no end of line"; },
				_ => { b = line("GET", "/dnssecproof?d=not.planned.&t=A", v); want = Want::Code(&[404]); what = "resolver closes"; },
			}
			if s.bool() { b.extend(headers(s)); }
			else if s.bool() { b.extend(b"\r\n"); }
			// Without an end of line anywhere the rest of the line is awaited.
			if what == "no end of line" { b.retain(|c| *c != b'\n'); }
		},
	}
	let mut leave = None;
	if what == "no end of line" { leave = Some((b.len(), s.bool())); }
	else if !calm && s.chance(1, 8) {
		let half = s.bool();
		let at = if s.bool() { b.len() } else { s.usize(0, b.len()) };
		leave = Some((at, half));
		if !half || !b[..at].windows(2).any(|w| w == b"\r\n") || at < b.len() { want = Want::Nothing; }
	}
	let mut cuts = cuts(s, b.len());
	// After the request line, and in the middle of its end.
	if let Some(p) = b.windows(2).position(|w| w == b"\r\n") { if s.chance(1, 3) { cuts.push(p + s.usize(1, 2)); cuts.sort(); cuts.dedup(); } }
	Ok(Request { bytes: b, cuts, pause: *s.pick(&[0u64, 0, 100, 1_000, 3_000]), leave, idle: *s.pick(&[0u64, 0, 2_000]), want, what })
}
fn kind_text(s: &mut Src) -> String { let k = super::scenario::kind(s); case(s, &ty_name(k)) }
fn show_req(r: &Request) -> String { format!("[{}: {:?}... cut at {:?}, pause {} us{}]", r.what, String::from_utf8_lossy(&r.bytes[..r.bytes.len().min(120)]), r.cuts, r.pause, r.leave.map_or(String::new(), |x| format!(", leaves after {} bytes", x.0))) }
fn check_one(addr: SocketAddr, r: &Request, patience: Duration) -> Result<(), String> {
	let got = exchange(addr, r, patience).map_err(|e| format!("{}: {}", show_req(r), e))?;
	judge(r, &got).map_err(|e| format!("{}: {}", show_req(r), e))
}
fn later(s: &mut Src, srv: &mut Server, p: &Plans, patience: Duration) -> Result<(), String> {
	let r = if s.chance(1, 4) { request(s, p, true)? } else { Request { bytes: b"GET / HTTP/1.1\r\n\r\n".to_vec(), cuts: vec![], pause: 0, leave: None, idle: 0, want: Want::Code(&[404]), what: "later request" } };
	check_one(srv.addr, &r, patience).map_err(|e| format!("afterwards: {}", e))?;
	srv.alive()
}
fn impatient<T>(r: Result<T, String>) -> Result<T, String> { if r.is_err() { PATIENCE.with(|c| c.set(2_000)); } r }
/// Several requests, one after the other or at the same time.
fn sessions(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let p = plans();
	p.lock().unwrap().clear();
	let n = *s.pick(&[1usize, 1, 2, 3, 6]);
	let mut rs = Vec::new();
	for _ in 0..n { rs.push(request(s, &p, false)?); }
	let together = n > 1 && s.bool();
	c.label(if together { "at the same time" } else { "one after the other" });
	for r in &rs { c.label(r.what); c.nontrivial(hash_bytes(&r.bytes)); c.note(|| show_req(r)); }
	let patience = Duration::from_millis(PATIENCE.with(|c| c.get()));
	impatient(with_server(false, |srv| {
		let addr = srv.addr;
		if together {
			let ts: Vec<_> = rs.iter().cloned().map(|r| std::thread::spawn(move || check_one(addr, &r, patience))).collect();
			let mut bad = None;
			for t in ts { if let Err(e) = t.join().unwrap() { bad = Some(e); } }
			if let Some(e) = bad { srv.alive()?; return Err(e); }
		} else {
			for r in &rs { if let Err(e) = check_one(addr, r, patience) { srv.alive().map_err(|x| format!("{}; {}", x, e))?; return Err(e); } }
		}
		later(s, srv, &p, patience)
	}))
}
/// More connections than the server may have open.
fn exhaustion(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let p = plans();
	p.lock().unwrap().clear();
	let n = s.usize(20, 90);
	let patience = Duration::from_millis(PATIENCE.with(|c| c.get()));
	c.note(|| format!("{} connections at a time", n));
	c.label(if n > 40 { "more than the limit" } else { "near or below the limit" });
	c.nontrivial(n as u64);
	impatient(with_server(true, |srv| {
		let mut held = Vec::new();
		for _ in 0..n {
			let Ok(mut x) = TcpStream::connect(srv.addr) else { break };
			if s.bool() { let _ = x.write_all(b"GET /dnssecproof?d=a"); }
			held.push(x);
		}
		std::thread::sleep(Duration::from_millis(s.range(1, 30)));
		drop(held);
		later(s, srv, &p, patience).map_err(|e| format!("after {} connections at a time: {}", n, e))
	}))
}
/// Many connections that neither finish their request nor go away, and requests next to them.
fn held(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
	let p = plans();
	p.lock().unwrap().clear();
	let n = *s.pick(&[1usize, 2, 3, 8, 17, 40, 70, 140]);
	let patience = Duration::from_millis(PATIENCE.with(|c| c.get()));
	let kind = s.below(3);
	c.note(|| format!("{} connections held with {}", n, ["nothing sent", "half a request line", "a request that the resolver does not answer"][kind as usize]));
	c.label(["nothing sent", "half a line", "unanswered by the resolver"][kind as usize]);
	c.nontrivial(mix(n as u64) ^ kind);
	impatient(with_server(false, |srv| {
		let mut held = Vec::new();
		for i in 0..n {
			let mut x = TcpStream::connect(srv.addr).map_err(|e| format!("cannot connect: {}", e))?;
			match kind { 0 => {}, 1 => { let _ = x.write_all(b"GET /dnssecproof?d=a"); }, _ => {
				let name = MName::of("silent.").child_s(&format!("s{}", i));
				p.lock().unwrap().insert((name.clone(), TXT), Plan { what: SILENT.into(), ..Default::default() });
				let _ = x.write_all(format!("GET /dnssecproof?d={}&t=txt HTTP/1.1\r\n\r\n", name.text()).as_bytes());
			} }
			held.push(x);
		}
		std::thread::sleep(Duration::from_millis(s.range(1, 30)));
		let r = (0..2).try_for_each(|_| later(s, srv, &p, patience).map_err(|e| format!("next to {} open connections: {}", n, e)));
		p.lock().unwrap().clear();
		r
	}))
}
pub fn c23() -> Prop {
	Prop {
		id: "C23",
		rule: "a session of requests to the running server whose replies were compared with the expected status, proof, length and cache lifetime, followed by a further request; distinct by the request bytes",
		tests: vec![
			Test { name: "sessions", quick: 6_000, thorough: 150_000, run: sessions },
			Test { name: "exhaustion", quick: 64, thorough: 1_000, run: exhaustion },
			Test { name: "held", quick: 96, thorough: 2_000, run: held },
		],
		known: vec![],
		assumptions: vec![
			"domain names in requests are written without percent encoding, which the server does not decode",
			"request lines of more than 4096 bytes are answered with 400",
			"a request without any end of line may be left without a reply",
		],
	}
}
