//! Random histories of the real containers, recorded for TraceStore.tla.
use crate::cat::{Cat, Res};
use crate::store::*;
use crate::util::*;
use rdf_types::LocalTerm;
use serde_json::{json, Value};

struct Rec<'a, R> {
	c: &'a Cat<R>,
	focus: &'a str,
	rng: Rng,
	pool: Vec<Q>,
	terms: i64,
	hs: Vec<Option<Store<R>>>,
	log: Vec<Value>,
}

fn pool(rng: &mut Rng, terms: i64, size: usize, graph: bool) -> Vec<Q> {
	let mut v: Vec<Q> = Vec::new();
	let hub = 1 + rng.below(terms as usize) as i64;
	let mut tries = 0;
	while v.len() < size && tries < size * 20 {
		tries += 1;
		let t = |rng: &mut Rng| if rng.chance(1, 4) { hub } else { 1 + rng.below(terms as usize) as i64 };
		let mut q = match v.last() {
			Some(&l) if rng.chance(1, 2) => l,
			_ => [t(rng), t(rng), t(rng), 0],
		};
		for i in 0..3 {
			if rng.chance(1, 3) {
				q[i] = t(rng);
			}
		}
		q[3] = if graph || rng.chance(1, 3) { 0 } else { t(rng) };
		if !v.contains(&q) {
			v.push(q);
		}
	}
	v
}

impl<R: Res> Rec<'_, R> {
	fn live(&mut self) -> usize {
		let l: Vec<usize> = (0..self.hs.len()).filter(|&i| self.hs[i].is_some()).collect();
		*self.rng.pick(&l)
	}
	fn free(&mut self, not: usize) -> usize {
		// an unused handle, or one other than `not` to overwrite
		for i in 0..self.hs.len() {
			if self.hs[i].is_none() {
				return i;
			}
		}
		(not + 1 + self.rng.below(self.hs.len() - 1)) % self.hs.len()
	}
	fn quad_for(&mut self, h: usize) -> Q {
		let g = self.hs[h].as_ref().unwrap().kind().is_graph();
		let mut q = *self.rng.pick(&self.pool);
		if self.rng.chance(1, 40) {
			let i = self.rng.below(3);
			q[i] = 1 + self.rng.below(self.terms as usize) as i64;
		}
		if g {
			q[3] = 0;
		}
		q
	}
	fn keep(&self, f: &str, r: i64) -> i64 {
		if self.focus == f {
			r
		} else {
			-1
		}
	}
	fn mutate(&mut self, h: usize, ins: bool) {
		let q = self.quad_for(h);
		let via = if self.rng.chance(1, 4) { 1 + self.rng.below(2) } else { 0 };
		let c = self.c;
		let s = self.hs[h].as_mut().unwrap();
		let r = if ins { s.insert(c, q, via) } else { s.remove(c, q, via) };
		let r = if matches!(self.focus, "P01" | "P08") { r } else { -1 };
		self.log.push(json!({"e": if ins { "ins" } else { "rem" }, "h": h + 1, "q": q, "r": r}));
	}
	fn remove_graph(&mut self, h: usize) {
		if self.hs[h].as_ref().unwrap().kind() != Kind::DI {
			return;
		}
		let c = self.c;
		let q = *self.rng.pick(&self.pool);
		let g = if self.rng.chance(1, 12) { 1 + self.rng.below(self.terms as usize) as i64 } else { q[3] };
		let h2 = self.free(h);
		let r = self.hs[h].as_mut().unwrap().remove_graph(c, g);
		let some = r.is_some() as i64;
		let gs = Store::GN(r.unwrap_or_default());
		let l = gs.iter(c, 0);
		self.hs[h2] = Some(gs);
		self.log.push(json!({"e": "rg", "h": h + 1, "g": g, "h2": h2 + 1, "some": some, "r": l}));
	}
	fn extract(&mut self, h: usize) {
		if self.hs[h].as_ref().unwrap().kind() != Kind::DI {
			return;
		}
		let q = *self.rng.pick(&self.pool);
		let p = random_pattern(&mut self.rng, self.terms, Some(q));
		let n = match self.rng.below(4) {
			0 => 1000,
			1 => 1,
			_ => self.rng.below(6),
		};
		let y = self.hs[h].as_mut().unwrap().extract(self.c, p, n);
		self.log.push(json!({"e": "ext", "h": h + 1, "p": p, "n": n, "y": y}));
	}
	fn convert(&mut self, h: usize) {
		let h2 = self.free(h);
		let c = self.c;
		match self.rng.below(6) {
			0 | 1 => {
				let r = if self.focus == "P08" { self.rng.below(6) } else { 0 };
				let mut old = self.hs[h2].take();
				let s = self.hs[h].as_ref().unwrap();
				self.hs[h2] = Some(match r {
					// over whatever the other one held
					1 | 2 if old.as_mut().map_or(false, |o| o.take_over(s)) => old.unwrap(),
					3 | 4 => s.revive(r),
					_ => s.dup(),
				});
				self.log.push(json!({"e": "copy", "h": h + 1, "h2": h2 + 1}));
			}
			2 => {
				let s = self.hs[h].take().unwrap();
				let via = self.rng.below(2);
				let k = s.kind();
				let x = match k {
					Kind::DN | Kind::GN => s.index(via).unwrap(),
					_ => s.pour(if k == Kind::DI { Kind::DN } else { Kind::GN }).unwrap(),
				};
				self.hs[h2] = Some(x);
				self.log.push(json!({"e": "move", "h": h + 1, "h2": h2 + 1}));
			}
			3 => {
				let s = self.hs[h].take().unwrap();
				let ks: &[Kind] = if s.kind().is_graph() { &[Kind::GI, Kind::GN, Kind::DI, Kind::DN] } else { &[Kind::DI, Kind::DN] };
				let k = *self.rng.pick(ks);
				self.hs[h2] = s.pour(k);
				self.log.push(json!({"e": "move", "h": h + 1, "h2": h2 + 1}));
			}
			4 => {
				let n = self.rng.below(12);
				let qs: Vec<Q> = (0..n).map(|_| self.quad_for(h)).collect();
				self.hs[h].as_mut().unwrap().extend(c, &qs);
				self.log.push(json!({"e": "add", "h": h + 1, "qs": qs}));
			}
			_ => {
				let n = self.rng.below(20);
				let k = self.hs[h].as_ref().unwrap().kind();
				let qs: Vec<Q> = (0..n).map(|_| self.quad_for(h)).collect();
				self.hs[h2] = Some(Store::collect(c, k, &qs));
				self.log.push(json!({"e": "make", "h": h2 + 1, "qs": qs}));
			}
		}
		if self.hs.iter().all(|x| x.is_none()) {
			self.hs[0] = Some(Store::new(Kind::DI));
			self.log.push(json!({"e": "make", "h": 1, "qs": []}));
		}
	}
	fn observe(&mut self, h: usize) {
		let mut o: Vec<Value> = Vec::new();
		let s = self.hs[h].as_ref().unwrap();
		let pr = Probe { c: self.c, pool: &self.pool, terms: self.terms };
		let rng = &mut self.rng;
		let like = if rng.chance(3, 4) { Some(*rng.pick(&self.pool)) } else { None };
		match self.focus {
			"P01" => pr.membership(s, &mut o),
			"P02" => {
				for _ in 0..2 {
					pr.iter(s, rng.below(7), &mut o);
				}
				for (j, x) in self.hs.iter().enumerate() {
					if let Some(x) = x {
						if let Some(r) = s.compare(x) {
							o.push(json!({"k": "cmp", "a": j + 1, "r": r}));
						}
					}
				}
			}
			"P03" => pr.listings(s, rng.below(3), &mut o),
			"P04" => {
				if s.matches_patterns() {
					for _ in 0..8 {
						let p = random_pattern(rng, self.terms, like);
						pr.pattern(s, p, rng.below(4), &mut o);
					}
					let via = rng.below(3);
					pr.helpers(s, via, rng, &mut o);
				}
			}
			"P05" => {
				if s.kind() == Kind::DI {
					for _ in 0..10 {
						let p = random_multi(rng, self.terms, like);
						let r = s.multi(self.c, &p, rng.below(2));
						o.push(json!({"k": "multi", "a": p, "r": r}));
					}
				}
			}
			_ => {
				pr.membership(s, &mut o);
				pr.iter(s, rng.below(7), &mut o);
				pr.listings(s, rng.below(3), &mut o);
				if s.matches_patterns() {
					for _ in 0..3 {
						let p = random_pattern(rng, self.terms, like);
						pr.pattern(s, p, rng.below(4), &mut o);
					}
				}
			}
		}
		if !o.is_empty() {
			self.log.push(json!({"e": "obs", "h": h + 1, "o": o}));
		}
	}
	fn run(&mut self, steps: usize, graph: bool) {
		self.log.push(json!({"e": "reset"}));
		let k = if graph {
			*self.rng.pick(&[Kind::GI, Kind::GI, Kind::GN])
		} else if matches!(self.focus, "P01" | "P02" | "P03" | "P08") {
			*self.rng.pick(&[Kind::DI, Kind::DI, Kind::DN])
		} else {
			Kind::DI
		};
		self.hs[0] = Some(Store::new(k));
		if self.focus == "P02" {
			self.hs[1] = Some(Store::new(k));
		}
		let mut bias = 8; // insertions out of 12
		for i in 0..steps {
			if i % 25 == 24 {
				bias = [3, 5, 6, 8, 10, 1][self.rng.below(6)];
			}
			let h = self.live();
			match self.rng.below(100) {
				0..=7 if matches!(self.focus, "P07") => self.remove_graph(h),
				8..=19 if matches!(self.focus, "P06") => self.extract(h),
				0..=14 if matches!(self.focus, "P08") => self.convert(h),
				20..=21 => self.remove_graph(h),
				22..=23 => self.extract(h),
				24..=25 => self.convert(h),
				_ => {
					let ins = self.rng.below(12) < bias;
					self.mutate(h, ins);
				}
			}
			if self.rng.chance(1, 4) || i + 1 == steps {
				let h = if self.rng.chance(1, 3) { self.live() } else { h };
				if self.hs[h].is_some() {
					self.observe(h);
				}
			}
		}
		for h in 0..self.hs.len() {
			if self.hs[h].is_some() {
				self.observe(h);
			}
		}
	}
}

fn one<R: Res>(focus: &str, seed: u64, c: &Cat<R>, terms: i64, size: usize, graph: bool, steps: usize) -> (Vec<Value>, Option<String>) {
	let mut rng = Rng::new(seed);
	let pool = pool(&mut rng, terms, size, graph);
	let mut r = Rec { c, focus, rng, pool, terms, hs: (0..5).map(|_| None).collect(), log: Vec::new() };
	let res = guarded(|| r.run(steps, graph));
	(std::mem::take(&mut r.log), res.err())
}

pub fn main(args: &[String]) -> Out {
	let focus = args[0].clone();
	let seed: u64 = args[1].parse().unwrap();
	let traces: usize = args[2].parse().unwrap();
	let files: usize = args[3].parse().unwrap();
	let prefix = args[4].clone();
	let mut total = Out::default();
	let sizes: [(i64, usize, usize); 5] = [(3, 8, 70), (4, 14, 90), (6, 24, 110), (12, 60, 160), (16, 120, 260)];
	let outs: Vec<Out> = std::thread::scope(|sc| {
		let hs: Vec<_> = (0..files)
			.map(|f| {
				let (focus, prefix) = (focus.clone(), prefix.clone());
				sc.spawn(move || {
					let mut out = Out::default();
					let mut w = TraceOut::create(&format!("{prefix}{f}.ndjson"));
					for i in (f..traces).step_by(files) {
						let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
						let (terms, size, steps) = sizes[i % 5];
						let graph = !matches!(focus.as_str(), "P05" | "P06" | "P07") && i % 3 == 2;
						beat_case(|| format!("recorded history {i} of seed {seed}"));
						let (log, err) = if i % 4 == 3 {
							one::<LocalTerm>(&focus, s, &Cat::new(terms as usize), terms, size, graph, steps)
						} else {
							one::<u32>(&focus, s, &Cat::new(terms as usize), terms, size, graph, steps)
						};
						out.cases += 1;
						if let Some(e) = err {
							let tail: Vec<&Value> = log.iter().filter(|e| e["e"] != "obs").collect();
							out.fail(json!({"what": "panic", "message": e, "history": tail}));
						}
						if i % 50 == 7 {
							out.sample(|| json!({"recorded": log.iter().take(6).collect::<Vec<_>>()}));
						}
						for e in &log {
							w.put(e);
						}
					}
					out.count("events", w.finish());
					out
				})
			})
			.collect();
		hs.into_iter().map(|h| h.join().unwrap_or_else(|_| tool_error("recorder thread"))).collect()
	});
	for o in outs {
		total.merge(o);
	}
	total
}
