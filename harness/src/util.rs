//! Shared machinery: random numbers, result collection, panic capture, watchdog.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
		for _ in 0..4 {
			r.next();
		}
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % (n.max(1) as u64)) as usize
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
		&s[self.below(s.len())]
	}
}

/// Collected outcome of a run.
#[derive(Default)]
pub struct Out {
	pub cases: u64,
	pub checks: u64,
	pub bad: Vec<Value>,
	pub bad_count: u64,
	pub samples: Vec<Value>,
	pub counts: BTreeMap<String, u64>,
}
impl Out {
	pub fn fail(&mut self, v: Value) {
		self.bad_count += 1;
		if self.bad.len() < 10 {
			self.bad.push(v);
		}
	}
	pub fn check(&mut self, ok: bool, v: impl FnOnce() -> Value) {
		self.checks += 1;
		if !ok {
			self.fail(v());
		}
	}
	pub fn count(&mut self, k: &str, n: u64) {
		*self.counts.entry(k.to_string()).or_default() += n;
	}
	pub fn sample(&mut self, v: impl FnOnce() -> Value) {
		if self.samples.len() < 3 {
			self.samples.push(v());
		}
	}
	pub fn merge(&mut self, o: Out) {
		self.cases += o.cases;
		self.checks += o.checks;
		self.bad_count += o.bad_count;
		for b in o.bad {
			if self.bad.len() < 10 {
				self.bad.push(b);
			}
		}
		for s in o.samples {
			if self.samples.len() < 3 {
				self.samples.push(s);
			}
		}
		for (k, n) in o.counts {
			*self.counts.entry(k).or_default() += n;
		}
	}
	pub fn print(&self) {
		println!(
			"{}",
			json!({"cases": self.cases, "checks": self.checks, "bad_count": self.bad_count, "bad": self.bad, "samples": self.samples, "counts": self.counts})
		);
	}
}

/// Panics of the code under test are caught and returned as text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
		if let Some(s) = e.downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = e.downcast_ref::<String>() {
			s.clone()
		} else {
			"panic".to_string()
		}
	})
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Tells the watchdog that a new case begins.
pub fn beat() {
	BEAT.fetch_add(1, Ordering::Relaxed);
}
/// Same, naming the case when marks are wanted.
pub fn beat_case(name: impl FnOnce() -> String) {
	beat();
	if marks() {
		*CURRENT.lock().unwrap() = name();
		if let Ok(p) = std::env::var("HARNESS_MARK") {
			let _ = std::fs::write(p, CURRENT.lock().unwrap().as_bytes());
		}
	}
}
pub fn marks() -> bool {
	static M: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
	*M.get_or_init(|| std::env::var("HARNESS_MARK").is_ok())
}

/// Starts the watchdog: when no case begins for `secs`, reports a hang and exits.
pub fn watchdog(secs: u64) {
	std::thread::spawn(move || {
		let mut last = BEAT.load(Ordering::Relaxed);
		let mut since = Instant::now();
		loop {
			std::thread::sleep(Duration::from_millis(500));
			let now = BEAT.load(Ordering::Relaxed);
			if now != last {
				last = now;
				since = Instant::now();
			} else if since.elapsed() > Duration::from_secs(secs) {
				let case = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
				println!("{}", json!({"hang": true, "after_case": now, "case": case}));
				let _ = std::io::stdout().flush();
				std::process::exit(7);
			}
		}
	});
}

/// Runs `f` over index ranges on all cores and merges.
pub fn parallel(n: usize, f: impl Fn(std::ops::Range<usize>) -> Out + Sync) -> Out {
	let threads = if marks() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) };
	let chunk = (n + threads - 1) / threads.max(1);
	let mut out = Out::default();
	std::thread::scope(|s| {
		let mut hs = Vec::new();
		for t in 0..threads {
			let lo = (t * chunk).min(n);
			let hi = ((t + 1) * chunk).min(n);
			let f = &f;
			hs.push(s.spawn(move || f(lo..hi)));
		}
		for h in hs {
			match h.join() {
				Ok(o) => out.merge(o),
				Err(_) => out.fail(json!({"what": "harness thread panicked outside a guarded call"})),
			}
		}
	});
	out
}

pub fn read_lines(path: &str) -> Vec<Value> {
	let text = std::fs::read_to_string(path).unwrap_or_else(|e| tool_error(&format!("{path}: {e}")));
	text.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap_or_else(|e| tool_error(&format!("{path}: {e}: {l}")))).collect()
}
pub fn tool_error(m: &str) -> ! {
	eprintln!("TOOL-ERROR {m}");
	std::process::exit(3)
}
pub fn ints(v: &Value) -> Vec<i64> {
	v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

/// A writer of NDJSON traces.
pub struct TraceOut {
	w: std::io::BufWriter<std::fs::File>,
	pub lines: u64,
}
impl TraceOut {
	pub fn create(path: &str) -> Self {
		let f = std::fs::File::create(path).unwrap_or_else(|e| tool_error(&format!("{path}: {e}")));
		Self { w: std::io::BufWriter::new(f), lines: 0 }
	}
	pub fn put(&mut self, v: &Value) {
		self.lines += 1;
		serde_json::to_writer(&mut self.w, v).unwrap();
		self.w.write_all(b"\n").unwrap();
	}
	pub fn finish(mut self) -> u64 {
		self.w.flush().unwrap();
		self.lines
	}
}

thread_local! {
	static WAY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn way() -> usize {
	WAY.with(|w| {
		w.set(w.get() + 1);
		w.get()
	})
}
/// What an iterator yields, read in one go.  Every other time another of the ways of consuming
/// iterators is tried too: it must tell the same story, in the same order if `ordered`.
pub fn probe<I: Iterator, T: Ord + Clone>(limit: usize, ordered: bool, mk: impl Fn() -> I, f: impl Fn(I::Item) -> T) -> Vec<T> {
	let v: Vec<T> = mk().take(limit).map(&f).collect();
	if v.len() >= limit {
		return v;
	}
	let n = v.len();
	let w = way();
	let same = |x: Vec<T>| {
		if ordered {
			x == v
		} else {
			let (mut x, mut y) = (x, v.clone());
			x.sort();
			y.sort();
			x == y
		}
	};
	// an iterator that has yielded some already, and these
	let advanced = |k: usize| {
		let mut it = mk();
		let x: Vec<T> = (0..k).filter_map(|_| it.next()).map(&f).collect();
		(it, x)
	};
	let after = if w / 12 % 2 == 0 { 0 } else { w / 24 % (n + 1) };
	let ok = match w % 12 {
		1 => {
			let (it, x) = advanced(after);
			x.len() + it.count() == n
		}
		3 => {
			let (it, x) = advanced(after);
			let l = it.last().map(&f);
			if ordered { l.as_ref() == v.last().filter(|_| x.len() < n) } else { l.is_none() == (x.len() == n) && l.iter().all(|y| v.contains(y)) }
		}
		5 => {
			let k = w / 12 % (n + 2);
			let mut it = mk();
			let a = it.nth(k).map(&f);
			let rest: Vec<T> = it.by_ref().take(limit).map(&f).collect();
			let m = n.saturating_sub(k + 1);
			a.is_some() == (k < n) && rest.len() == m && if ordered { a.as_ref() == v.get(k) && rest[..] == v[n - m..] } else { a.iter().chain(&rest).all(|x| v.contains(x)) }
		}
		7 => {
			let within = |(lo, hi): (usize, Option<usize>), n: usize| lo <= n && hi.map(|h| h >= n).unwrap_or(true);
			let mut it = mk();
			let mut left = n;
			let mut ok = within(it.size_hint(), n);
			for _ in 0..3 {
				left -= it.next().is_some() as usize;
				ok &= within(it.size_hint(), left);
			}
			ok
		}
		9 => {
			let (it, mut x) = advanced(after);
			it.for_each(|i| x.push(f(i)));
			same(x)
		}
		11 => {
			let mut x = Vec::new();
			let mut it = mk();
			while let Some(i) = if x.len() % 2 == 0 { it.nth(0) } else { it.next() } {
				x.push(f(i));
				if x.len() > n {
					break;
				}
			}
			same(x)
		}
		_ => true,
	};
	if !ok {
		panic!("an iterator tells something else when consumed in way {} of 12", w % 12);
	}
	v
}
