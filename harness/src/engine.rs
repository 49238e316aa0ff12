//! Choice-sequence property testing engine.
//!
//! Every random decision of a case is a draw from a `Src`. A case is thus a pure function of its draw sequence, which
//! is what is recorded, shrunk and replayed. Cases run in several single-threaded worker processes so that a crash of the
//! code under test by signal, or a runaway loop, is attributed to the case that caused it.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// ---------------------------------------------------------------------------------------------------------------
// Randomness

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}
pub fn hash_bytes(data: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for chunk in data.chunks(8) {
		let mut b = [0u8; 8];
		b[..chunk.len()].copy_from_slice(chunk);
		h = mix(h ^ u64::from_le_bytes(b) ^ ((chunk.len() as u64) << 56));
	}
	h
}

const MAX_DRAWS: usize = 200_000;
const SHM_HDR: usize = 8;

// The pointer is to memory of the whole process.
unsafe impl Send for Src {}
pub struct Src {
	replay: Option<Vec<u64>>,
	/// What follows the recorded choices: random ones, or the simplest.
	random_tail: bool,
	state: u64,
	pub rec: Vec<u64>,
	shm: *mut u64,
}
impl Src {
	pub fn from_seed(seed: u64) -> Src { Src { replay: None, random_tail: true, state: seed, rec: Vec::new(), shm: std::ptr::null_mut() } }
	pub fn from_choices(choices: Vec<u64>) -> Src {
		Src { replay: Some(choices), random_tail: false, state: 0, rec: Vec::new(), shm: std::ptr::null_mut() }
	}
	/// Starts with the given choices and goes on at random.
	pub fn from_prefix(choices: Vec<u64>, seed: u64) -> Src {
		Src { replay: Some(choices), random_tail: true, state: seed, rec: Vec::new(), shm: std::ptr::null_mut() }
	}
	/// A uniformly random value in `0..n`. `0` is the value shrinking moves towards.
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 { return 0; }
		let pos = self.rec.len();
		let v = if pos >= MAX_DRAWS { 0 } else {
			match self.replay.as_ref().and_then(|r| r.get(pos).copied()) {
				Some(v) => if v >= n { v % n } else { v },
				None if !self.random_tail => 0,
				None => {
					self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
					let r = mix(self.state);
					((r as u128 * n as u128) >> 64) as u64
				},
			}
		};
		if pos < MAX_DRAWS {
			self.rec.push(v);
			if !self.shm.is_null() {
				unsafe {
					*self.shm.add(SHM_HDR + pos) = v;
					*self.shm.add(3) = pos as u64 + 1;
				}
			}
		}
		v
	}
	/// A value in `lo..=hi`.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 { debug_assert!(lo <= hi); lo + self.below(hi - lo + 1) }
	pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
	/// True with probability `num/den`; shrinks to false.
	pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
	pub fn bool(&mut self) -> bool { self.below(2) == 1 }
	pub fn u8(&mut self) -> u8 { self.below(256) as u8 }
	pub fn u16(&mut self) -> u16 { self.below(65536) as u16 }
	pub fn u32(&mut self) -> u32 { self.below(1 << 32) as u32 }
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len() as u64) as usize; &s[i] }
	/// Index chosen with the given weights; shrinks to index 0.
	pub fn weighted(&mut self, w: &[u64]) -> usize {
		let total: u64 = w.iter().sum();
		let mut v = self.below(total);
		for (i, x) in w.iter().enumerate() {
			if v < *x { return i; }
			v -= x;
		}
		w.len() - 1
	}
	pub fn bytes(&mut self, len: usize) -> Vec<u8> {
		// One draw per byte is wasteful for long strings: draw a seed byte pattern for those.
		if len <= 48 { return (0..len).map(|_| self.u8()).collect(); }
		let mut st = self.below(1 << 48);
		(0..len).map(|_| { st = mix(st); st as u8 }).collect()
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		// Shrinks to the identity permutation.
		for i in 0..v.len() {
			let j = i + self.below((v.len() - i) as u64) as usize;
			v.swap(i, j);
		}
	}
	pub fn subset<T: Clone>(&mut self, v: &[T], num: u64, den: u64) -> Vec<T> {
		v.iter().filter(|_| self.chance(num, den)).cloned().collect()
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Calling the code under test

thread_local! {
	static IN_SUT: Cell<u32> = Cell::new(0);
	static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_panic_hook() {
	panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
			else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let text = format!("{} at {}", msg, loc);
		if IN_SUT.with(|c| c.get()) == 0 { eprintln!("harness panic: {}", text); }
		LAST_PANIC.with(|p| *p.borrow_mut() = text);
	}));
}

/// Runs code under test; a panic in it is returned as a failure of the case.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	IN_SUT.with(|c| c.set(c.get() + 1));
	let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
	IN_SUT.with(|c| c.set(c.get() - 1));
	r.map_err(|_| format!("the code under test panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// Total bytes allocated on this thread so far.
pub fn allocated() -> u64 { ALLOCATED.with(|a| a.get()) }
thread_local! { static ALLOCATED: Cell<u64> = const { Cell::new(0) }; }
pub struct CountingAlloc;
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
	unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
		let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64));
		std::alloc::System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
	unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
		let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64));
		std::alloc::System.alloc_zeroed(l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
		let _ = ALLOCATED.try_with(|a| a.set(a.get() + n as u64));
		std::alloc::System.realloc(p, l, n)
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Cases

#[derive(Default)]
pub struct Ctx {
	labels: Vec<String>,
	nontrivial: Option<u64>,
	notes: Vec<String>,
	want_notes: bool,
}
impl Ctx {
	/// Counts the case in a class of cases.
	pub fn label(&mut self, l: impl Into<String>) {
		let l = l.into();
		if !self.labels.contains(&l) { self.labels.push(l); }
	}
	/// Marks the case as non-trivial; `key` identifies it for distinctness.
	pub fn nontrivial(&mut self, key: u64) { self.nontrivial = Some(self.nontrivial.map_or(key, |k| mix(k ^ key))); }
	/// Describes the case; only evaluated for samples and failures.
	pub fn note(&mut self, f: impl FnOnce() -> String) { if self.want_notes { self.notes.push(f()); } }
	pub fn noting(&self) -> bool { self.want_notes }
}

pub type TestFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;
pub struct Test {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub run: TestFn,
}
pub struct Known {
	/// Identifies the entry in the known-findings file.
	pub id: &'static str,
	/// Returns a description if the finding still reproduces.
	pub probe: fn() -> Result<Option<String>, String>,
}
pub struct Prop {
	pub id: &'static str,
	pub rule: &'static str,
	pub tests: Vec<Test>,
	pub known: Vec<Known>,
	pub assumptions: Vec<&'static str>,
}

enum CaseEnd { Ok, Fail(String) }

fn run_case(t: &Test, src: &mut Src, ctx: &mut Ctx) -> CaseEnd {
	let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (t.run)(src, ctx)));
	match r {
		Ok(Ok(())) => CaseEnd::Ok,
		Ok(Err(e)) => CaseEnd::Fail(e),
		Err(_) => {
			eprintln!("harness error in test {}: {}", t.name, LAST_PANIC.with(|p| p.borrow().clone()));
			eprintln!("choices: {:?}", &src.rec[..src.rec.len().min(4000)]);
			std::process::exit(3);
		}
	}
}

fn case_seed(seed: u64, test: &str, idx: u64) -> u64 { mix(mix(seed ^ hash_bytes(test.as_bytes())) ^ mix(idx)) }

// ---------------------------------------------------------------------------------------------------------------
// Shrinking

/// Shrinks `choices` while `fails` holds. `budget` bounds the number of evaluations.
fn shrink(mut best: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: usize) -> Vec<u64> {
	let mut left = budget;
	macro_rules! attempt { ($cand: expr) => {{
		if left == 0 { return best; }
		left -= 1;
		let cand: Vec<u64> = $cand;
		if let Some(rec) = fails(&cand) {
			// Prefer the normalised record of what was really drawn.
			let shorter = rec.len() < best.len() || (rec.len() == best.len() && rec < best);
			if shorter { best = rec; true } else { false }
		} else { false }
	}} }
	loop {
		let before = best.clone();
		// Delete blocks.
		let mut size = (best.len() / 2).max(1).min(1024);
		while size >= 1 {
			let mut i = best.len();
			while i > 0 {
				let start = i.saturating_sub(size);
				if start < best.len() {
					let end = i.min(best.len());
					let mut c = best.clone();
					c.drain(start..end);
					attempt!(c);
				}
				i = start;
			}
			size /= 2;
		}
		// Zero blocks.
		for size in [32usize, 8, 2, 1] {
			let mut i = 0;
			while i < best.len() {
				let end = (i + size).min(best.len());
				if best[i..end].iter().any(|v| *v != 0) {
					let mut c = best.clone();
					for v in &mut c[i..end] { *v = 0; }
					attempt!(c);
				}
				i += size;
			}
		}
		// Lower values, and delete-and-decrement (shortens counted lists).
		let mut i = 0;
		while i < best.len() {
			let v = best[i];
			if v > 0 {
				let (mut lo, mut hi) = (0u64, v);
				while lo < hi {
					let mid = lo + (hi - lo) / 2;
					let mut c = best.clone();
					if i >= c.len() { break; }
					c[i] = mid;
					if attempt!(c) { hi = mid.min(best.get(i).copied().unwrap_or(0)); } else { lo = mid + 1; }
					if hi - lo.min(hi) > 1 << 20 && left < budget / 2 { break; }
				}
				for del in 1..4usize {
					if i < best.len() && best[i] > 0 && i + 1 + del <= best.len() {
						let mut c = best.clone();
						c[i] -= 1;
						c.drain(i + 1..i + 1 + del);
						attempt!(c);
					}
				}
			}
			i += 1;
		}
		if best == before || left == 0 { return best; }
	}
}

// ---------------------------------------------------------------------------------------------------------------
// System interface

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
	fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
	fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
fn process_cpu_ms() -> u64 {
	let mut ts = [0i64; 2];
	unsafe { clock_gettime(2, &mut ts) };
	ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}
fn map_shm(path: &Path) -> *mut u64 {
	use std::os::fd::AsRawFd;
	let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shm file");
	let len = (MAX_DRAWS + SHM_HDR) * 8;
	f.set_len(len as u64).expect("shm len");
	let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
	assert!(!p.is_null() && p as usize != usize::MAX, "mmap failed");
	p as *mut u64
}
fn read_shm(path: &Path) -> Option<(u64, u64, u64, Vec<u64>)> {
	let b = std::fs::read(path).ok()?;
	let w = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
	let n = w(3) as usize;
	Some((w(0), w(1), w(2), (0..n.min(MAX_DRAWS)).map(|i| w(SHM_HDR + i)).collect()))
}

/// CPU time (of a process that does nothing else) after which a single case counts as never returning. The slowest
/// ordinary case takes well below a second.
const CASE_CPU_LIMIT_MS: u64 = 10_000;
/// The same in wall-clock time, for cases that wait for a network peer. Peers give up long before that.
const CASE_WALL_LIMIT_S: u64 = 150;
const EXIT_HANG: i32 = 97;

fn start_watchdog(shm: usize) {
	std::thread::spawn(move || {
		let shm = shm as *mut u64;
		let (mut last, mut since, mut wall) = (u64::MAX, 0, std::time::Instant::now());
		loop {
			std::thread::sleep(std::time::Duration::from_millis(100));
			let cur = unsafe { std::ptr::read_volatile(shm.add(4)) };
			let now = process_cpu_ms();
			if cur != last { last = cur; since = now; wall = std::time::Instant::now(); }
			else if cur % 2 == 1 && (now - since > CASE_CPU_LIMIT_MS || wall.elapsed().as_secs() > CASE_WALL_LIMIT_S) {
				unsafe { std::ptr::write_volatile(shm.add(2), 2); }
				std::process::exit(EXIT_HANG);
			}
		}
	});
}
fn limit_memory() {
	// RLIMIT_AS: runaway allocation ends the worker, not the sandbox.
	let lim = [6u64 << 30, 6u64 << 30];
	unsafe { setrlimit(9, &lim); }
	// RLIMIT_CORE: no core files.
	let lim = [0u64, 0u64];
	unsafe { setrlimit(4, &lim); }
	// PR_SET_PDEATHSIG: do not outlive the parent.
	unsafe { prctl(1, 9, 0, 0, 0); }
}

// ---------------------------------------------------------------------------------------------------------------
// Coverage guidance

static mut COUNTERS: [(usize, usize); 64] = [(0, 0); 64];
static mut N_COUNTERS: usize = 0;
/// Called before `main` by every part of the code under test that was built with edge counters.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
	let r = (start as usize, stop as usize);
	if r.0 >= r.1 || N_COUNTERS == 64 { return; }
	for i in 0..N_COUNTERS { if COUNTERS[i] == r { return; } }
	COUNTERS[N_COUNTERS] = r;
	N_COUNTERS += 1;
}
fn counters() -> Vec<(usize, usize)> { unsafe { (0..N_COUNTERS).map(|i| COUNTERS[i]).collect() } }

/// The choice sequences that reached something no earlier case of this worker did: an edge, or an edge about twice as often
/// as before. New cases are made from them by small changes.
struct Guide { ranges: Vec<(usize, usize)>, seen: Vec<u8>, pool: Vec<Vec<u64>>, edges: u64 }
const POOL: usize = 1500;
impl Guide {
	fn new() -> Guide {
		let ranges = counters();
		let n = ranges.iter().map(|r| r.1 - r.0).sum();
		Guide { ranges, seen: vec![0; n], pool: Vec::new(), edges: 0 }
	}
	fn active(&self) -> bool { !self.seen.is_empty() }
	fn clear(&self) { for r in &self.ranges { unsafe { std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0); } } }
	/// Looks at what a case reached, and keeps it if that is new.
	fn learn(&mut self, choices: &[u64]) {
		let mut new = false;
		let mut at = 0;
		for r in &self.ranges {
			let c = unsafe { std::slice::from_raw_parts(r.0 as *const u8, r.1 - r.0) };
			for (i, v) in c.iter().enumerate() {
				if *v == 0 { continue; }
				let bucket = 1u8 << match *v { 1 => 0, 2 => 1, 3 => 2, 4..=7 => 3, 8..=15 => 4, 16..=31 => 5, 32..=127 => 6, _ => 7 };
				let s = &mut self.seen[at + i];
				if *s & bucket == 0 { if *s == 0 { self.edges += 1; } *s |= bucket; new = true; }
			}
			at += c.len();
		}
		if new && choices.len() <= 20_000 {
			if self.pool.len() >= POOL { self.pool.remove(0); }
			self.pool.push(choices.to_vec());
		}
	}
	fn propose(&self, seed: u64) -> Option<Vec<u64>> {
		if self.pool.is_empty() { return None; }
		let mut r = Src::from_seed(mix(seed ^ 0x5eed));
		let n = self.pool.len();
		let i = if r.bool() { n - 1 - r.usize(0, (n - 1) / 4) } else { r.usize(0, n - 1) };
		let mut c = self.pool[i].clone();
		let any = |r: &mut Src| match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.below(1 << 32), _ => r.below(1 << 63) };
		for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3, 6]) {
			if c.is_empty() { break; }
			let p = r.usize(0, c.len() - 1);
			let len = *r.pick(&[1usize, 1, 2, 4, 8, 32]);
			let e = (p + len).min(c.len());
			match r.below(10) {
				0 | 1 | 2 => c[p] = any(&mut r),
				3 => c[p] = c[p].wrapping_add(1),
				4 => c[p] = c[p].saturating_sub(1),
				5 => { c.drain(p..e); },
				6 => { for k in 0..len { let v = any(&mut r); c.insert(p + k.min(c.len() - p), v); } },
				7 => { let b = c[p..e].to_vec(); let q = r.usize(0, c.len()); c.splice(q..q, b); },
				8 => c.truncate(p),
				_ => { let o = r.pick(&self.pool).clone(); if o.is_empty() { continue; } let q = if r.bool() { p.min(o.len() - 1) } else { r.usize(0, o.len() - 1) }; c.truncate(p); c.extend_from_slice(&o[q..]); },
			}
		}
		Some(c)
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Worker

const SAMPLES_PER_TEST: u64 = 2;

struct Fail { test: usize, idx: u64, choices: Vec<u64>, msg: String }

fn tests_selected(prop: &Prop) -> Vec<usize> {
	match std::env::var("VERIF_ONLY") {
		Ok(s) if !s.is_empty() => (0..prop.tests.len()).filter(|i| s.split(',').any(|x| prop.tests[*i].name == x)).collect(),
		_ => (0..prop.tests.len()).collect(),
	}
}
fn cases(t: &Test) -> u64 {
	let n = if tier() == "thorough" { t.thorough } else { t.quick };
	match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
		Some(f) => (n as f64 * f) as u64,
		None => n,
	}
}
pub fn tier() -> &'static str { if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" } }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }

/// Time after which the quick tier starts no further cases, so that it also gives an answer on slow machines and on
/// code under test that is slow. What was left out is told in the evidence.
const QUICK_DEADLINE_S: u64 = 600;
/// What is kept of it for each test that is still to come.
const RESERVE_S: u64 = 15;

fn worker(prop: &Prop, shard: u64, nshards: u64, dir: &Path) {
	let begun = std::time::Instant::now();
	install_panic_hook();
	limit_memory();
	let shm = map_shm(&dir.join(format!("shm{}", shard)));
	start_watchdog(shm as usize);
	let seed = seed();
	let mut out = String::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	let selected = tests_selected(prop);
	let mut shrunk = false;
	for (nth, ti) in selected.iter().copied().enumerate() {
		let t = &prop.tests[ti];
		let n = cases(t);
		let mut skipped = 0;
		let deadline = if tier() == "thorough" { u64::MAX } else { QUICK_DEADLINE_S - RESERVE_S * (selected.len() - 1 - nth) as u64 };
		let found = dir.join(format!("found{}", ti));
		let mut count = 0u64;
		let mut nontriv = 0u64;
		let mut labels: BTreeMap<String, u64> = BTreeMap::new();
		let mut i = shard;
		let t0 = process_cpu_ms();
		let mut guide = Guide::new();
		let mut guided = 0u64;
		while i < n {
			// Another worker's failure of this test is as good as one of our own.
			if begun.elapsed().as_secs() >= deadline || found.exists() { skipped = (n - i + nshards - 1) / nshards; break; }
			unsafe {
				*shm = i; *shm.add(1) = ti as u64; *shm.add(2) = 1; *shm.add(3) = 0;
				std::ptr::write_volatile(shm.add(4), std::ptr::read_volatile(shm.add(4)) + 1);
			}
			let cs = case_seed(seed, t.name, i);
			let mut src = Src::from_seed(cs);
			// Half of the cases are variations of earlier ones.
			if guide.active() {
				if count % 2 == 1 { if let Some(c) = guide.propose(cs) { src = Src::from_prefix(c, cs); guided += 1; } }
				guide.clear();
			}
			src.shm = shm;
			let mut ctx = Ctx::default();
			ctx.want_notes = i < SAMPLES_PER_TEST;
			let end = run_case(t, &mut src, &mut ctx);
			unsafe { std::ptr::write_volatile(shm.add(4), std::ptr::read_volatile(shm.add(4)) + 1); }
			count += 1;
			if guide.active() { guide.learn(&src.rec); }
			for l in ctx.labels { *labels.entry(l).or_default() += 1; }
			if let Some(h) = ctx.nontrivial { nontriv += 1; hashes.insert(mix(h ^ ti as u64)); }
			if i < SAMPLES_PER_TEST && !ctx.notes.is_empty() {
				out += &format!("sample {} {}\n", ti, ctx.notes.join(" | ").replace('\n', " "));
			}
			if let CaseEnd::Fail(msg) = end {
				let _ = std::fs::write(&found, "");
				let rec = src.rec;
				// Shrinking the first failure is worth more time than that of others.
				let limit = if shrunk { 15 } else { 60 };
				shrunk = true;
				let start = std::time::Instant::now();
				let mut last_msg = msg;
				let best = shrink(rec, |c| {
					if start.elapsed().as_secs() > limit { return None; }
					unsafe { *shm.add(3) = 0; std::ptr::write_volatile(shm.add(4), std::ptr::read_volatile(shm.add(4)) + 1); }
					let mut s = Src::from_choices(c.to_vec());
					s.shm = shm;
					let mut ctx = Ctx::default();
					let end = run_case(t, &mut s, &mut ctx);
					unsafe { std::ptr::write_volatile(shm.add(4), std::ptr::read_volatile(shm.add(4)) + 1); }
					match end { CaseEnd::Fail(m) => { last_msg = m; Some(s.rec) }, CaseEnd::Ok => None }
				}, 1500);
				out += &format!("fail {} {} {} {}\n", ti, i, best.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
					last_msg.replace('\n', " "));
				break;
			}
			i += nshards;
		}
		out += &format!("count {} {} {}\n", ti, count, nontriv);
		out += &format!("skipped {} {}\n", ti, skipped);
		out += &format!("cpu {} {}\n", ti, process_cpu_ms() - t0);
		out += &format!("guide {} {} {} {}\n", ti, guided, guide.edges, guide.pool.len());
		for (l, c) in labels { out += &format!("label {} {} {}\n", ti, c, l); }
	}
	let mut hb = Vec::with_capacity(hashes.len() * 8);
	for h in hashes { hb.extend_from_slice(&h.to_le_bytes()); }
	std::fs::write(dir.join(format!("hash{}", shard)), hb).unwrap();
	std::fs::write(dir.join(format!("out{}", shard)), out).unwrap();
}

// ---------------------------------------------------------------------------------------------------------------
// Replay

/// Runs one recorded case in this process. Exit code 0: passes, 1: fails, 97: does not return.
fn replay_one(prop: &Prop, ti: usize, choices: Vec<u64>, shmfile: &Path, quiet: bool) -> i32 {
	install_panic_hook();
	limit_memory();
	let shm = map_shm(shmfile);
	unsafe { *shm.add(4) = 1; *shm.add(3) = 0; }
	start_watchdog(shm as usize);
	let mut src = Src::from_choices(choices);
	src.shm = shm;
	let mut ctx = Ctx::default();
	ctx.want_notes = true;
	match run_case(&prop.tests[ti], &mut src, &mut ctx) {
		CaseEnd::Ok => { if !quiet { println!("case passes\n{}", ctx.notes.join("\n")); } 0 },
		CaseEnd::Fail(m) => { if !quiet { println!("case fails: {}\n{}", m, ctx.notes.join("\n")); } 1 },
	}
}

/// Runs a recorded case in a child process. `None`: passes; otherwise a description of the failure.
fn replay_in_child(prop: &Prop, ti: usize, choices: &[u64], dir: &Path) -> (Option<String>, Vec<u64>) {
	let cf = dir.join("choices");
	std::fs::write(&cf, choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")).unwrap();
	let shm = dir.join("shm-replay");
	let _ = std::fs::remove_file(&shm);
	let out = Command::new(std::env::current_exe().unwrap())
		.arg("child").arg(prop.id).arg(ti.to_string()).arg(&cf).arg(&shm)
		.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).output().unwrap();
	let rec = read_shm(&shm).map(|x| x.3).unwrap_or_default();
	use std::os::unix::process::ExitStatusExt;
	let what = match out.status.code() {
		Some(0) => None,
		Some(1) => Some("fails".to_string()),
		Some(EXIT_HANG) => Some(format!("does not return within {} s of CPU time or {} s", CASE_CPU_LIMIT_MS / 1000, CASE_WALL_LIMIT_S)),
		Some(3) => { eprintln!("harness error on replay"); std::process::exit(2) },
		Some(c) => Some(format!("exit code {}", c)),
		None => Some(format!("process ended by signal {}", out.status.signal().unwrap_or(0))),
	};
	(what, rec)
}

// ---------------------------------------------------------------------------------------------------------------
// JSON output

pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
			c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
			c => o.push(c),
		}
	}
	o + "\""
}
/// Text for the output, without control characters.
fn clip(s: &str, n: usize) -> String {
	let s = &s.chars().map(|c| if c.is_control() && c != '\n' { '.' } else { c }).collect::<String>();
	if s.len() <= n { return s.clone(); }
	let mut e = n;
	while !s.is_char_boundary(e) { e -= 1; }
	format!("{}... ({} bytes)", &s[..e], s.len())
}

// ---------------------------------------------------------------------------------------------------------------
// Driver

fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

fn parse_choices(s: &str) -> Vec<u64> { s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }

/// Entry point. Returns the process exit code.
pub fn main(props: Vec<Prop>) -> i32 {
	let args: Vec<String> = std::env::args().collect();
	let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) });
	match args.get(1).map(|s| s.as_str()) {
		Some("worker") => {
			let p = find(&args[2]);
			worker(p, args[3].parse().unwrap(), args[4].parse().unwrap(), Path::new(&args[5]));
			0
		},
		Some("child") => {
			let p = find(&args[2]);
			let choices = parse_choices(&std::fs::read_to_string(&args[4]).unwrap());
			replay_one(p, args[3].parse().unwrap(), choices, Path::new(&args[5]), true)
		},
		Some("probe") => {
			install_panic_hook();
			limit_memory();
			let p = find(&args[2]);
			let k = p.known.iter().find(|k| k.id == args[3]).expect("probe");
			match (k.probe)() {
				Ok(Some(d)) => { println!("{}", d); 1 },
				Ok(None) => 0,
				Err(e) => { println!("{}", e); 3 },
			}
		},
		Some("replay") => {
			let p = find(&args[2]);
			let text = std::fs::read_to_string(&args[3]).expect("replay file");
			let test = text.split("\"test\":").nth(1).and_then(|s| s.split('"').nth(1)).expect("test in replay file").to_string();
			if test == "probe" {
				install_panic_hook();
				let mut code = 0;
				for k in &p.known {
					match (k.probe)() { Ok(None) => {}, Ok(Some(e)) | Err(e) => { println!("{}: {}", k.id, e); code = 1; } }
				}
				return code;
			}
			let choices = parse_choices(text.split("\"choices\":").nth(1).and_then(|s| s.split(']').next()).expect("choices in replay file"));
			let ti = p.tests.iter().position(|t| t.name == test).expect("test of replay file");
			let shm = std::env::temp_dir().join(format!("verif-shm-{}", std::process::id()));
			let r = replay_one(p, ti, choices, &shm, false);
			let _ = std::fs::remove_file(&shm);
			r
		},
		Some("check") => check(find(&args[2])),
		Some("list") => { for p in &props { println!("{} {}", p.id, p.tests.iter().map(|t| t.name).collect::<Vec<_>>().join(" ")); } 0 },
		_ => { eprintln!("usage: harness check|replay <id> [file]"); 2 },
	}
}

fn check(prop: &Prop) -> i32 {
	let start = std::time::Instant::now();
	let vd = verif_dir();
	let dir = std::env::temp_dir().join(format!("verif-{}-{}", prop.id, std::process::id()));
	std::fs::create_dir_all(&dir).expect("scratch dir");
	struct Clean(PathBuf);
	impl Drop for Clean { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
	let _clean = Clean(dir.clone());
	let nshards: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);

	let mut kids = Vec::new();
	for s in 0..nshards {
		kids.push(Command::new(std::env::current_exe().unwrap())
			.arg("worker").arg(prop.id).arg(s.to_string()).arg(nshards.to_string()).arg(&dir)
			.stdin(Stdio::null()).spawn().expect("spawn worker"));
	}
	let mut fails: Vec<Fail> = Vec::new();
	let mut error = false;
	let mut crashed: Vec<(u64, String)> = Vec::new();
	for (s, k) in kids.iter_mut().enumerate() {
		use std::os::unix::process::ExitStatusExt;
		let st = k.wait().expect("wait");
		match st.code() {
			Some(0) => {},
			Some(EXIT_HANG) => crashed.push((s as u64, "hang".into())),
			Some(c) => { eprintln!("worker {} exited with {}", s, c); error = true; },
			None => crashed.push((s as u64, format!("signal {}", st.signal().unwrap_or(0)))),
		}
	}
	for (s, how) in crashed {
		let Some((idx, ti, _, choices)) = read_shm(&dir.join(format!("shm{}", s))) else { error = true; continue };
		let ti = ti as usize;
		// One report per test is enough, and replaying runaway cases takes long.
		if fails.iter().any(|f| f.test == ti) || (!fails.is_empty() && start.elapsed().as_secs() > 300) { continue; }
		// Only a failure that reproduces, alone in a fresh process, counts.
		let (what, rec) = replay_in_child(prop, ti, &choices, &dir);
		match what {
			Some(w) => {
				let hang = how == "hang";
				let t0 = std::time::Instant::now();
				let best = shrink(if rec.is_empty() { choices } else { rec }, |c| {
					if t0.elapsed().as_secs() > 120 || start.elapsed().as_secs() > 500 { return None; }
					let (w, rec) = replay_in_child(prop, ti, c, &dir);
					w.map(|_| rec)
				}, if hang { 4 } else { 150 });
				fails.push(Fail { test: ti, idx, choices: best, msg: format!("worker stopped ({}); replay: {}", how, w) });
			},
			None => { eprintln!("worker {} stopped ({}) in test {} case {}, not reproduced", s, how, prop.tests[ti].name, idx); error = true; },
		}
	}
	// Merge.
	let nt = prop.tests.len();
	let mut counts = vec![(0u64, 0u64, 0u64); nt];
	let mut guides = vec![(0u64, 0u64, 0u64); nt];
	let mut skipped = vec![0u64; nt];
	let mut labels: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); nt];
	let mut samples: Vec<(usize, String)> = Vec::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	for s in 0..nshards {
		if let Ok(text) = std::fs::read_to_string(dir.join(format!("out{}", s))) {
			for line in text.lines() {
				let mut it = line.splitn(3, ' ');
				let (k, ti, rest) = (it.next().unwrap(), it.next().unwrap().parse::<usize>().unwrap(), it.next().unwrap_or(""));
				match k {
					"count" => {
						let mut n = rest.split(' ').map(|x| x.parse::<u64>().unwrap());
						counts[ti].0 += n.next().unwrap(); counts[ti].1 += n.next().unwrap();
					},
					"guide" => { let n: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect(); guides[ti].0 += n[0]; guides[ti].1 = guides[ti].1.max(n[1]); guides[ti].2 += n[2]; },
					"skipped" => skipped[ti] += rest.parse::<u64>().unwrap(),
					"cpu" => counts[ti].2 += rest.parse::<u64>().unwrap(),
					"label" => { let (c, l) = rest.split_once(' ').unwrap(); *labels[ti].entry(l.to_string()).or_default() += c.parse::<u64>().unwrap(); },
					"sample" => samples.push((ti, rest.to_string())),
					"fail" => {
						let mut p = rest.splitn(3, ' ');
						fails.push(Fail { test: ti, idx: p.next().unwrap().parse().unwrap(), choices: parse_choices(p.next().unwrap()),
							msg: p.next().unwrap_or("").to_string() });
					},
					_ => {},
				}
			}
		}
		if let Ok(b) = std::fs::read(dir.join(format!("hash{}", s))) {
			for c in b.chunks(8) { hashes.insert(u64::from_le_bytes(c.try_into().unwrap())); }
		}
	}
	// Known findings.
	let listed = std::fs::read_to_string(vd.join("known-findings.txt")).unwrap_or_default();
	let mut known_lines = Vec::new();
	for k in &prop.known {
		let out = Command::new(std::env::current_exe().unwrap()).arg("probe").arg(prop.id).arg(k.id)
			.stdin(Stdio::null()).output().expect("probe");
		let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
		match out.status.code() {
			Some(0) => {},
			Some(1) => {
				let is_listed = listed.lines().any(|l| l.starts_with(&format!("known: property={} {} ", prop.id, k.id)));
				if is_listed {
					println!("KNOWN-FINDING: property={} {} {}", prop.id, k.id, text);
					known_lines.push(format!("{} {}", k.id, text));
				} else {
					fails.push(Fail { test: usize::MAX, idx: 0, choices: vec![], msg: format!("{}: {}", k.id, text) });
				}
			},
			_ => fails.push(Fail { test: usize::MAX, idx: 0, choices: vec![], msg: format!("probe {} fails in another way than the finding: {}", k.id, text) }),
		}
	}
	fails.sort_by_key(|f| (f.test, f.idx));
	// Report violations: one per test.
	let mut reported: Vec<usize> = Vec::new();
	let rdir = vd.join("replays");
	for f in &fails {
		if reported.contains(&f.test) { continue; }
		reported.push(f.test);
		let _ = std::fs::create_dir_all(&rdir);
		let tname = if f.test == usize::MAX { "probe" } else { prop.tests[f.test].name };
		let path = rdir.join(format!("{}-{}-{:08x}.json", prop.id, tname, hash_bytes(format!("{:?}", f.choices).as_bytes()) as u32));
		let mut notes = String::new();
		if f.test != usize::MAX {
			std::fs::write(dir.join("choices"), "").unwrap();
			let cf = dir.join("final");
			std::fs::write(&cf, format!("{{\"test\": {}, \"choices\": [{}]}}", jstr(tname), f.choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))).unwrap();
			if !f.msg.contains("hang") {
				let out = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(prop.id).arg(&cf).stdin(Stdio::null()).output();
				if let Ok(out) = out { notes = clip(&String::from_utf8_lossy(&out.stdout), 20_000); }
			}
		}
		let body = format!("{{\"property\": {}, \"test\": {}, \"seed\": {}, \"tier\": {}, \"case\": {},\n\"message\": {},\n\"choices\": [{}],\n\"case_description\": {}}}\n",
			jstr(prop.id), jstr(tname), seed(), jstr(tier()), f.idx, jstr(&clip(&f.msg, 4000)),
			f.choices.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","), jstr(&notes));
		let _ = std::fs::write(&path, body);
		println!("{}: test {} case {}: {}", prop.id, tname, f.idx, clip(&f.msg, 1500));
		if !notes.is_empty() { println!("{}", clip(&notes, 3000)); }
		println!("VIOLATION property={} replay={}", prop.id, path.display());
	}
	// Evidence.
	let total: u64 = counts.iter().map(|c| c.0).sum();
	let nontriv: u64 = counts.iter().map(|c| c.1).sum();
	let mut ev = String::new();
	ev += &format!("{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", jstr(prop.id), jstr(tier()), seed());
	ev += &format!("\"coverage\": {{\n\"evaluations\": {}, \"nontrivial_cases\": {}, \"distinct_nontrivial\": {},\n\"rule\": {},\n", total, nontriv, hashes.len(), jstr(prop.rule));
	samples.sort_by_key(|s| s.0);
	ev += &format!("\"samples\": [{}],\n", samples.iter().map(|(ti, s)| jstr(&format!("[{}] {}", prop.tests[*ti].name, clip(s, 1200)))).collect::<Vec<_>>().join(",\n"));
	ev += "\"tests\": {";
	ev += &(0..nt).filter(|i| counts[*i].0 > 0).map(|i| format!("{}: {{\"cases\": {}, \"nontrivial\": {}, \"left_out_for_time_or_after_a_failure\": {}, \"cpu_ms\": {}, \"coverage_guided_cases\": {}, \"most_edges_reached_by_a_worker\": {}, \"sequences_kept\": {}, \"classes\": {{{}}}}}", jstr(prop.tests[i].name), counts[i].0, counts[i].1, skipped[i], counts[i].2, guides[i].0, guides[i].1, guides[i].2,
		labels[i].iter().map(|(l, c)| format!("{}: {}", jstr(l), c)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n");
	ev += "},\n";
	ev += &format!("\"known_findings_reproduced\": [{}]\n}},\n", known_lines.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
	ev += &format!("\"assumptions\": [{}],\n", prop.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n"));
	ev += &format!("\"wall_s\": {:.1}, \"violations\": {}\n}}\n", start.elapsed().as_secs_f64(), reported.len());
	let edir = vd.join("evidence");
	let _ = std::fs::create_dir_all(&edir);
	std::fs::write(edir.join(format!("{}.json", prop.id)), ev).expect("evidence");
	std::io::stdout().flush().ok();
	println!("{}: {} cases, {} non-trivial ({} distinct), {:.1}s", prop.id, total, nontriv, hashes.len(), start.elapsed().as_secs_f64());
	if !reported.is_empty() { 1 } else if error { 2 } else { 0 }
}
