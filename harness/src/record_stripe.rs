//! Histories at scale, recorded for TraceStripe.tla: resources come in stripes, operations are
//! repeated over whole cells (products of stripes), and answers are summarised per cell.
use crate::cat::{Cat, Res};
use crate::store::*;
use crate::util::*;
use rdf_types::LocalTerm;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// One position of a pattern: a negative code, 0 for the default graph, or alternatives.
#[derive(Clone)]
enum Pos {
	Code(i64),
	Alts(Vec<(i64, i64)>),
}
impl Pos {
	fn json(&self) -> Value {
		match self {
			Pos::Code(c) => json!([c]),
			Pos::Alts(v) => {
				let mut o = vec![9];
				for (k, m) in v {
					o.extend([*k, *m]);
				}
				json!(o)
			}
		}
	}
}

struct Rec<'a, R> {
	c: &'a Cat<R>,
	focus: &'a str,
	rng: Rng,
	sz: Vec<i64>,
	off: Vec<i64>,
	stripe: Vec<i64>,
	pool: Vec<Q>,
	hs: Vec<Option<Store<R>>>,
	log: Vec<Value>,
}

impl<R: Res> Rec<'_, R> {
	fn id(&self, k: i64, m: i64) -> i64 {
		if k == 0 {
			0
		} else {
			self.off[k as usize] + m
		}
	}
	fn of(&self, id: i64) -> i64 {
		if id < 0 || id as usize >= self.stripe.len() {
			-99
		} else {
			self.stripe[id as usize]
		}
	}
	fn cell(&self, q: &Q) -> Q {
		[self.of(q[0]), self.of(q[1]), self.of(q[2]), self.of(q[3])]
	}
	fn size(&self, k: i64) -> i64 {
		if k == 0 {
			1
		} else {
			self.sz[k as usize - 1]
		}
	}
	fn weight(&self, x: Q) -> i64 {
		x.iter().map(|&k| self.size(k)).product()
	}
	fn member(&mut self, k: i64) -> i64 {
		let n = self.size(k) as usize;
		match self.rng.below(6) {
			0 => 1,
			1 => n as i64,
			_ => 1 + self.rng.below(n) as i64,
		}
	}
	fn some_quad(&mut self, x: Q) -> Q {
		let mut q = [0; 4];
		for i in 0..4 {
			let m = self.member(x[i]);
			q[i] = self.id(x[i], m);
		}
		q
	}
	/// The quads of a cell in some order.
	fn quads(&mut self, x: Q) -> Vec<Q> {
		let mut v = Vec::with_capacity(self.weight(x) as usize);
		for s in 1..=self.size(x[0]) {
			for p in 1..=self.size(x[1]) {
				for o in 1..=self.size(x[2]) {
					for g in 1..=self.size(x[3]) {
						v.push([self.id(x[0], s), self.id(x[1], p), self.id(x[2], o), self.id(x[3], g)]);
					}
				}
			}
		}
		match self.rng.below(6) {
			0 => (),
			1 => v.reverse(),
			2 => {
				// from both ends
				let n = v.len();
				v = (0..n).map(|i| if i % 2 == 0 { v[i / 2] } else { v[n - 1 - i / 2] }).collect();
			}
			3 => {
				// every other one first
				let k = 2 + self.rng.below(5);
				let n = v.len();
				v = (0..k).flat_map(|j| (j..n).step_by(k)).map(|i| v[i]).collect();
			}
			_ => shuffle(&mut self.rng, &mut v),
		}
		v
	}
	fn live(&mut self) -> usize {
		let l: Vec<usize> = (0..self.hs.len()).filter(|&i| self.hs[i].is_some()).collect();
		*self.rng.pick(&l)
	}
	fn free(&mut self, not: usize) -> usize {
		for i in 0..self.hs.len() {
			if self.hs[i].is_none() {
				return i;
			}
		}
		(not + 1 + self.rng.below(self.hs.len() - 1)) % self.hs.len()
	}
	fn cell_for(&mut self, h: usize) -> Q {
		let mut x = *self.rng.pick(&self.pool);
		if self.hs[h].as_ref().unwrap().kind().is_graph() {
			x[3] = 0;
		}
		x
	}
	fn summary(&self, l: &[Q], p: Option<&[Pos; 4]>) -> Value {
		let mut cells: BTreeMap<Q, i64> = BTreeMap::new();
		let mut eq = [[true; 4]; 4];
		let mut vals: Vec<BTreeSet<i64>> = vec![BTreeSet::new(); 4];
		let mut asc = 1;
		for (n, q) in l.iter().enumerate() {
			*cells.entry(self.cell(q)).or_default() += 1;
			for i in 0..4 {
				for j in 0..i {
					if q[i] != q[j] {
						eq[j][i] = false;
					}
				}
				if let Some(p) = p {
					if matches!(p[i], Pos::Alts(_)) && vals[i].len() < 100 {
						vals[i].insert(q[i]);
					}
				}
			}
			if n > 0 && l[n - 1] >= *q {
				asc = 0;
			}
		}
		let dup = if asc == 1 {
			0
		} else {
			let mut s = l.to_vec();
			s.sort_unstable();
			s.windows(2).filter(|w| w[0] == w[1]).count()
		};
		let cells: Vec<Value> = cells.iter().map(|(x, n)| json!([x, n])).collect();
		let mut e = Vec::new();
		for i in 0..4 {
			for j in 0..i {
				if eq[j][i] {
					e.push([j + 1, i + 1]);
				}
			}
		}
		let vals: Vec<Vec<[i64; 2]>> = vals.iter().map(|v| v.iter().map(|&r| { let k = self.of(r); [k, if k > 0 { r - self.off[k as usize] } else { -99 }] }).collect()).collect();
		json!({"cells": cells, "dup": dup, "asc": asc, "eq": e, "vals": vals})
	}
	fn listing(&self, l: &[i64]) -> Value {
		let mut k: BTreeMap<i64, i64> = BTreeMap::new();
		for &r in l {
			*k.entry(self.of(r)).or_default() += 1;
		}
		let asc = l.windows(2).all(|w| w[0] < w[1]) as i64;
		let n: BTreeSet<&i64> = l.iter().collect();
		let k: Vec<[i64; 2]> = k.into_iter().map(|(a, b)| [a, b]).collect();
		json!({"k": k, "dup": l.len() - n.len(), "asc": asc})
	}
	/// A random pattern over members of stripes; `many` with several alternatives.
	fn pattern(&mut self, many: bool) -> [Pos; 4] {
		let like = *self.rng.pick(&self.pool);
		let n = self.sz.len();
		let c = random_pattern(&mut self.rng, n as i64, Some(like));
		let mut out = [Pos::Code(-1), Pos::Code(-1), Pos::Code(-1), Pos::Code(-1)];
		for i in 0..4 {
			out[i] = if c[i] <= 0 {
				Pos::Code(c[i])
			} else {
				let m = self.member(c[i]);
				let mut v = vec![(c[i], m)];
				if many {
					if self.rng.chance(1, 3) && self.size(c[i]) <= 60 {
						v = (1..=self.size(c[i])).map(|m| (c[i], m)).collect();
					}
					for _ in 0..self.rng.below(8) {
						let k = if self.rng.chance(2, 3) { c[i] } else { 1 + self.rng.below(n) as i64 };
						let m = self.member(k);
						v.push((k, m));
					}
					if self.rng.chance(1, 3) {
						let x = *self.rng.pick(&v);
						v.push(x);
					}
					shuffle(&mut self.rng, &mut v);
				}
				Pos::Alts(v)
			};
		}
		out
	}
	fn flat(&self, p: &[Pos; 4]) -> Q {
		let f = |x: &Pos| match x {
			Pos::Code(c) => *c,
			Pos::Alts(v) => self.id(v[0].0, v[0].1),
		};
		[f(&p[0]), f(&p[1]), f(&p[2]), f(&p[3])]
	}
	fn flat_multi(&self, p: &[Pos; 4]) -> Vec<Vec<i64>> {
		p.iter()
			.map(|x| match x {
				Pos::Code(c) => vec![*c],
				Pos::Alts(v) => std::iter::once(1).chain(v.iter().map(|&(k, m)| self.id(k, m))).collect(),
			})
			.collect()
	}
	fn pjson(p: &[Pos; 4]) -> Value {
		json!(p.iter().map(|x| x.json()).collect::<Vec<_>>())
	}

	fn mutate(&mut self, h: usize, ins: bool) {
		let x = self.cell_for(h);
		let qs = self.quads(x);
		let via = if self.rng.chance(1, 5) { 1 + self.rng.below(2) } else { 0 };
		let c = self.c;
		let s = self.hs[h].as_mut().unwrap();
		let mut n = 0;
		for (i, q) in qs.iter().enumerate() {
			if i % 256 == 0 {
				beat();
			}
			n += if ins { s.insert(c, *q, via) } else { s.remove(c, *q, via) };
		}
		if via != 0 || !matches!(self.focus, "P01" | "P08") {
			n = -1;
		}
		self.log.push(json!({"e": if ins { "bins" } else { "brem" }, "h": h + 1, "c": x, "n": n}));
	}
	fn remove_graphs(&mut self, h: usize) {
		if self.hs[h].as_ref().unwrap().kind() != Kind::DI {
			return;
		}
		let g = if self.rng.chance(1, 10) { 1 + self.rng.below(self.sz.len()) as i64 } else { self.rng.pick(&self.pool)[3] };
		let h2 = self.free(h);
		let mut ms: Vec<i64> = (1..=self.size(g)).collect();
		if self.rng.chance(1, 2) {
			shuffle(&mut self.rng, &mut ms);
		}
		let (mut some, mut each, mut last) = (0, Vec::<Value>::new(), None);
		for m in ms {
			beat();
			let i = self.id(g, m);
			let c = self.c;
			if let Some(gr) = self.hs[h].as_mut().unwrap().remove_graph(c, i) {
				some += 1;
				let gs = Store::GN(gr);
				let y = self.summary(&gs.iter(c, 0), None);
				let v = json!({"cells": y["cells"], "asc": y["asc"]});
				if !each.contains(&v) && each.len() < 5 {
					each.push(v);
				}
				last = Some(gs);
			}
		}
		self.hs[h2] = Some(last.unwrap_or_else(|| Store::new(Kind::GN)));
		self.log.push(json!({"e": "rgs", "h": h + 1, "g": g, "h2": h2 + 1, "some": some, "each": each}));
	}
	fn extract_all(&mut self, h: usize) {
		let s = self.hs[h].as_ref().unwrap();
		if s.kind() != Kind::DI {
			return;
		}
		let len = s.len().max(1);
		let like = *self.rng.pick(&self.pool);
		let mut f = [-1i64; 4];
		let mut runs = 1;
		for i in 0..4 {
			if self.rng.chance(2, 5) {
				let n = self.size(like[i]);
				if runs * n * len <= 20_000_000 && runs * n <= 3000 {
					runs *= n;
					f[i] = like[i];
				}
			}
		}
		let mut y = Vec::new();
		let sizes: Vec<i64> = f.iter().map(|&k| if k > 0 { self.size(k) } else { 1 }).collect();
		let c = self.c;
		for r in 0..runs {
			beat();
			let mut k = r;
			let mut p = f;
			for i in 0..4 {
				if f[i] > 0 {
					p[i] = self.id(f[i], 1 + k % sizes[i]);
					k /= sizes[i];
				}
			}
			y.extend(self.hs[h].as_mut().unwrap().extract(c, p, usize::MAX));
		}
		let y = self.summary(&y, None);
		self.log.push(json!({"e": "exts", "h": h + 1, "f": f, "y": y}));
	}
	fn extract_part(&mut self, h: usize) {
		if self.hs[h].as_ref().unwrap().kind() != Kind::DI {
			return;
		}
		let p = self.pattern(false);
		let fl = self.flat(&p);
		let n = match self.rng.below(4) {
			0 => 1_000_000,
			1 => self.rng.below(4),
			_ => self.rng.below(2000),
		};
		let c = self.c;
		let y = self.hs[h].as_mut().unwrap().extract(c, fl, n);
		let left = self.hs[h].as_ref().unwrap().len();
		let sum = self.summary(&y, Some(&p));
		let mut back = 0;
		for q in y {
			back += self.hs[h].as_mut().unwrap().insert(c, q, 0);
		}
		beat();
		self.log.push(json!({"e": "extp", "h": h + 1, "p": Self::pjson(&p), "n": n, "y": sum, "left": left, "back": back}));
	}
	fn many(&mut self, h: usize, n: usize) -> (Vec<Q>, Vec<Q>) {
		let cs: Vec<Q> = (0..self.rng.below(n)).map(|_| self.cell_for(h)).collect();
		let mut qs = Vec::new();
		for &x in &cs {
			qs.extend(self.quads(x));
		}
		if self.rng.chance(1, 2) {
			shuffle(&mut self.rng, &mut qs);
		}
		(cs, qs)
	}
	fn convert(&mut self, h: usize) {
		let h2 = self.free(h);
		let c = self.c;
		match self.rng.below(6) {
			0 | 1 => {
				let r = if self.focus == "P08" { self.rng.below(6) } else { 0 };
				let mut old = self.hs[h2].take();
				let s = self.hs[h].as_ref().unwrap();
				self.hs[h2] = Some(match r {
					// over whatever the other one held
					1 | 2 if old.as_mut().map_or(false, |o| o.take_over(s)) => old.unwrap(),
					3 | 4 => s.revive(r),
					_ => s.dup(),
				});
				self.log.push(json!({"e": "copy", "h": h + 1, "h2": h2 + 1}));
			}
			2 => {
				let s = self.hs[h].take().unwrap();
				let via = self.rng.below(2);
				let k = s.kind();
				self.hs[h2] = Some(match k {
					Kind::DN | Kind::GN => s.index(via).unwrap(),
					_ => s.pour(if k == Kind::DI { Kind::DN } else { Kind::GN }).unwrap(),
				});
				self.log.push(json!({"e": "move", "h": h + 1, "h2": h2 + 1}));
			}
			3 => {
				let s = self.hs[h].take().unwrap();
				let ks: &[Kind] = if s.kind().is_graph() { &[Kind::GI, Kind::GN, Kind::DI, Kind::DN] } else { &[Kind::DI, Kind::DN] };
				let k = *self.rng.pick(ks);
				self.hs[h2] = s.pour(k);
				self.log.push(json!({"e": "move", "h": h + 1, "h2": h2 + 1}));
			}
			4 => {
				let (cs, qs) = self.many(h, 3);
				self.hs[h].as_mut().unwrap().extend(c, &qs);
				self.log.push(json!({"e": "add", "h": h + 1, "cs": cs}));
			}
			_ => {
				let k = self.hs[h].as_ref().unwrap().kind();
				let (cs, qs) = self.many(h, 4);
				self.hs[h2] = Some(Store::collect(c, k, &qs));
				self.log.push(json!({"e": "make", "h": h2 + 1, "cs": cs}));
			}
		}
		beat();
		if self.hs.iter().all(|x| x.is_none()) {
			self.hs[0] = Some(Store::new(Kind::DI));
			self.log.push(json!({"e": "make", "h": 1, "cs": []}));
		}
	}

	fn membership(&mut self, h: usize, o: &mut Vec<Value>) {
		let graph = self.hs[h].as_ref().unwrap().kind().is_graph();
		let mut a: Vec<Q> = self.pool.clone();
		for _ in 0..6 {
			let mut x = *self.rng.pick(&self.pool);
			let i = self.rng.below(4);
			x[i] = 1 + self.rng.below(self.sz.len()) as i64;
			a.push(x);
		}
		if graph {
			for x in &mut a {
				x[3] = 0;
			}
		}
		let a: Vec<Q> = a.iter().flat_map(|&x| [x, x]).collect();
		let qs: Vec<Q> = a.iter().map(|&x| self.some_quad(x)).collect();
		let s = self.hs[h].as_ref().unwrap();
		let r: Vec<i64> = qs.iter().map(|&q| s.contains(self.c, q) as i64).collect();
		o.push(json!({"k": "len", "r": s.len()}));
		o.push(json!({"k": "empty", "r": s.is_empty() as i64}));
		o.push(json!({"k": "has", "a": a, "r": r}));
	}
	fn stripes(&mut self) -> (Vec<i64>, Vec<i64>) {
		let a: Vec<i64> = (1..=self.sz.len() as i64).flat_map(|k| [k, k, k]).collect();
		let m = a.iter().map(|&k| { let m = self.member(k); self.id(k, m) }).collect();
		(a, m)
	}
	fn listings(&mut self, h: usize, via: usize, o: &mut Vec<Value>) {
		let (a, m) = self.stripes();
		let s = self.hs[h].as_ref().unwrap();
		o.push(json!({"k": "res", "r": self.listing(&s.resources(self.c, via))}));
		let r: Vec<i64> = m.iter().map(|&k| s.contains_resource(self.c, k) as i64).collect();
		o.push(json!({"k": "hasres", "a": a, "r": r}));
		for (i, k) in ["subj", "pred", "obj", "graphs"].iter().enumerate() {
			if let Some(v) = s.role(self.c, i, via) {
				o.push(json!({"k": k, "r": self.listing(&v)}));
			}
		}
		o.push(json!({"k": "counts", "r": s.counts(via)}));
	}
	fn iter(&mut self, h: usize, via: usize, o: &mut Vec<Value>) {
		let l = self.hs[h].as_ref().unwrap().iter(self.c, via);
		let y = self.summary(&l, None);
		o.push(json!({"k": "iter", "r": y}));
	}
	fn pat(&mut self, h: usize, via: usize, o: &mut Vec<Value>) {
		let p = self.pattern(false);
		let fl = self.flat(&p);
		let l = self.hs[h].as_ref().unwrap().pattern(self.c, fl, via);
		let y = self.summary(&l, Some(&p));
		o.push(json!({"k": "pat", "a": Self::pjson(&p), "r": y}));
	}
	fn helpers(&mut self, h: usize, via: usize, o: &mut Vec<Value>) {
		let (a, m) = self.stripes();
		for (w, k) in [(1, "hass"), (2, "hasp"), (3, "haso"), (4, "hasg")] {
			let s = self.hs[h].as_ref().unwrap();
			let r: Vec<i64> = m.iter().map(|&x| s.has(self.c, w, [x, 0, 0, 0], if w == 4 { 1 } else { via }) as i64).collect();
			o.push(json!({"k": k, "a": a, "r": r}));
		}
		let cs: Vec<Q> = (0..6).map(|_| *self.rng.pick(&self.pool)).collect();
		let qs: Vec<Q> = cs.iter().map(|&x| self.some_quad(x)).collect();
		let s = self.hs[h].as_ref().unwrap();
		let r: Vec<i64> = qs.iter().map(|&q| s.has(self.c, 0, q, via) as i64).collect();
		o.push(json!({"k": "has", "a": cs, "r": r}));
		let r: Vec<i64> = qs.iter().map(|&q| s.try_contains_triple(self.c, q, via) as i64).collect();
		o.push(json!({"k": "hast", "a": cs, "r": r}));
		for (x, q) in cs.iter().zip(&qs).take(3) {
			let l = s.quad_objects(self.c, q[3], q[0], q[1], via);
			o.push(json!({"k": "qo", "a": [x[3], x[0], x[1]], "r": self.listing(&l)}));
			let l = s.predicates_objects(self.c, q[3], q[0], via);
			let mut v = self.listing(&l.iter().map(|x| x.0).collect::<Vec<_>>());
			let mut each = BTreeSet::new();
			let mut odup = 0;
			for (p, os) in &l {
				let y = self.listing(os);
				odup += y["dup"].as_i64().unwrap();
				for e in y["k"].as_array().unwrap() {
					each.insert([self.of(*p), e[0].as_i64().unwrap(), e[1].as_i64().unwrap()]);
				}
			}
			v["each"] = json!(each.into_iter().take(200).collect::<Vec<_>>());
			v["odup"] = json!(odup);
			o.push(json!({"k": "po", "a": [x[3], x[0]], "r": v}));
		}
	}
	fn observe(&mut self, h: usize) {
		let mut o: Vec<Value> = Vec::new();
		let (matching, kind) = {
			let s = self.hs[h].as_ref().unwrap();
			(s.matches_patterns(), s.kind())
		};
		let via = self.rng.below(7);
		beat();
		match self.focus {
			"P01" => self.membership(h, &mut o),
			"P02" => {
				self.iter(h, via, &mut o);
				for j in 0..self.hs.len() {
					if let (Some(s), Some(x)) = (&self.hs[h], &self.hs[j]) {
						if let Some(r) = s.compare(x) {
							o.push(json!({"k": "cmp", "a": j + 1, "r": r}));
						}
					}
				}
			}
			"P03" => self.listings(h, via % 3, &mut o),
			"P04" if matching => {
				for _ in 0..6 {
					let via = self.rng.below(4);
					self.pat(h, via, &mut o);
				}
				self.helpers(h, via % 3, &mut o);
			}
			"P05" if kind == Kind::DI => {
				for _ in 0..6 {
					let p = self.pattern(true);
					let fl = self.flat_multi(&p);
					let l = self.hs[h].as_ref().unwrap().multi(self.c, &fl, via % 2);
					let y = self.summary(&l, Some(&p));
					o.push(json!({"k": "pat", "a": Self::pjson(&p), "r": y}));
					beat();
				}
			}
			"P04" | "P05" => (),
			_ => {
				self.membership(h, &mut o);
				self.iter(h, via, &mut o);
				self.listings(h, via % 3, &mut o);
				if matching {
					for _ in 0..3 {
						self.pat(h, via % 4, &mut o);
					}
				}
			}
		}
		if !o.is_empty() {
			self.log.push(json!({"e": "obs", "h": h + 1, "o": o}));
		}
	}
	fn run(&mut self, steps: usize, graph: bool) {
		self.log.push(json!({"e": "reset", "sz": self.sz}));
		let k = if graph {
			*self.rng.pick(&[Kind::GI, Kind::GI, Kind::GN])
		} else if matches!(self.focus, "P01" | "P02" | "P03" | "P08") {
			*self.rng.pick(&[Kind::DI, Kind::DI, Kind::DN])
		} else {
			Kind::DI
		};
		self.hs[0] = Some(Store::new(k));
		if self.focus == "P02" {
			self.hs[1] = Some(Store::new(k));
		}
		let mut bias = 9;
		for i in 0..steps {
			beat();
			if i % 6 == 5 {
				bias = [4, 6, 8, 2][self.rng.below(4)];
			}
			let h = self.live();
			match self.rng.below(100) {
				0..=24 if self.focus == "P07" && i > 2 => self.remove_graphs(h),
				0..=24 if self.focus == "P06" && i > 2 => self.extract_all(h),
				25..=54 if self.focus == "P06" && i > 1 => self.extract_part(h),
				0..=34 if self.focus == "P08" && i > 1 => self.convert(h),
				55..=57 => self.remove_graphs(h),
				58..=60 => self.extract_all(h),
				61..=63 => self.convert(h),
				_ => {
					let ins = self.rng.below(12) < bias;
					self.mutate(h, ins);
				}
			}
			if self.rng.chance(1, 3) && self.hs[h].is_some() {
				self.observe(h);
			}
		}
		for h in 0..self.hs.len() {
			if self.hs[h].is_some() {
				self.observe(h);
			}
		}
	}
}

fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
	for i in (1..v.len()).rev() {
		let j = rng.below(i + 1);
		v.swap(i, j);
	}
}

/// Stripe sizes and cells of a history of the given scale.
fn plan(rng: &mut Rng, scale: usize, graph: bool) -> (Vec<i64>, Vec<Q>, usize) {
	let (mut sz, cap, total, steps): (Vec<i64>, i64, i64, usize) = match scale {
		0 => ((0..5).map(|_| *rng.pick(&[1, 1, 2, 3, 5, 9, 17])).collect(), 1500, 4000, 24),
		1 => ((0..5).map(|_| *rng.pick(&[1, 1, 2, 7, 40, 130, 300])).collect(), 12_000, 40_000, 18),
		2 => (vec![1, 300, 1, 260, 2], 90_000, 180_000, 12),
		_ => (vec![1, 66_000, 2, 1, 3], 70_000, 200_000, 12),
	};
	sz[0] = 1;
	shuffle(rng, &mut sz);
	let n = sz.len();
	let w = |x: &Q| -> i64 { x.iter().map(|&k| if k == 0 { 1 } else { sz[k as usize - 1] }).product() };
	let mut pool: Vec<Q> = Vec::new();
	let mut sum = 0;
	for _ in 0..400 {
		if pool.len() == 9 {
			break;
		}
		let t = |rng: &mut Rng| 1 + rng.below(n) as i64;
		let mut x = [t(rng), t(rng), t(rng), t(rng)];
		if let (Some(&l), true) = (pool.last(), rng.chance(1, 2)) {
			let keep = rng.below(4);
			x[keep] = l[keep];
		}
		if scale >= 2 && pool.is_empty() {
			// the first cell of a large history is as large as allowed
			for _ in 0..200 {
				let mut y = [t(rng), t(rng), t(rng), if rng.chance(1, 3) { 0 } else { t(rng) }];
				if graph {
					y[3] = 0;
				}
				if w(&y) <= cap && (w(&y) > w(&x) || w(&x) > cap) {
					x = y;
				}
			}
		} else if graph || rng.chance(1, 3) {
			x[3] = 0;
		}
		let wx = w(&x);
		if wx <= cap && sum + wx <= total && !pool.contains(&x) {
			sum += wx;
			pool.push(x);
		}
	}
	if pool.is_empty() {
		let k = 1 + sz.iter().enumerate().min_by_key(|x| x.1).unwrap().0 as i64;
		pool.push([k, k, k, 0]);
	}
	(sz, pool, steps)
}

fn one<R: Res>(focus: &str, mut rng: Rng, sz: Vec<i64>, pool: Vec<Q>, graph: bool, steps: usize) -> (Vec<Value>, Option<String>) {
	let c: Cat<R> = Cat::new(sz.iter().sum::<i64>() as usize);
	let mut off = vec![0, 0];
	let mut stripe = vec![0];
	for (i, &n) in sz.iter().enumerate() {
		off.push(off[i + 1] + n);
		stripe.extend(std::iter::repeat(i as i64 + 1).take(n as usize));
	}
	rng.next();
	let mut r = Rec { c: &c, focus, rng, sz, off, stripe, pool, hs: (0..4).map(|_| None).collect(), log: Vec::new() };
	let res = guarded(|| r.run(steps, graph));
	(std::mem::take(&mut r.log), res.err())
}

/// record-stripe <focus> <seed> <histories of scale 0> <of scale 1> <of scale 2> <of scale 3> <files> <prefix>
pub fn main(args: &[String]) -> Out {
	let focus = args[0].clone();
	let seed: u64 = args[1].parse().unwrap();
	let counts: Vec<usize> = args[2..6].iter().map(|x| x.parse().unwrap()).collect();
	let files: usize = args[6].parse().unwrap();
	let prefix = args[7].clone();
	set_limit(2_000_000);
	// the large ones first, so that the threads end together
	let jobs: Vec<(usize, usize)> = (0..4).rev().flat_map(|s| (0..counts[s]).map(move |i| (s, i))).collect();
	let next = std::sync::atomic::AtomicUsize::new(0);
	let threads = if marks() { 1 } else { 8 };
	let done = std::sync::Mutex::new(Vec::new());
	std::thread::scope(|sc| {
		for _ in 0..threads {
			sc.spawn(|| loop {
				let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
				if j >= jobs.len() {
					break;
				}
				let (scale, i) = jobs[j];
				let s = seed.wrapping_mul(7_000_003).wrapping_add((scale * 100_000 + i) as u64);
				let mut rng = Rng::new(s);
				let graph = !matches!(focus.as_str(), "P05" | "P06" | "P07") && i % 3 == 2;
				let (sz, pool, steps) = plan(&mut rng, scale, graph);
				beat_case(|| format!("recorded history {i} of scale {scale}, seed {seed}"));
				let r = if scale == 0 && i % 4 == 3 { one::<LocalTerm>(&focus, rng, sz, pool, graph, steps) } else { one::<u32>(&focus, rng, sz, pool, graph, steps) };
				done.lock().unwrap().push((j, scale, r));
			});
		}
	});
	let mut done = done.into_inner().unwrap();
	done.sort_by_key(|x| x.0);
	let mut out = Out::default();
	let mut ws: Vec<TraceOut> = (0..files).map(|f| TraceOut::create(&format!("{prefix}{f}.ndjson"))).collect();
	for (j, scale, (log, err)) in done {
		out.cases += 1;
		out.count(&format!("histories of scale {scale}"), 1);
		if let Some(e) = err {
			let tail: Vec<&Value> = log.iter().filter(|e| e["e"] != "obs").collect();
			out.fail(json!({"what": "panic", "message": e, "history": tail}));
		}
		if j % 40 == 7 {
			out.sample(|| json!({"recorded at scale": log.iter().take(5).collect::<Vec<_>>()}));
		}
		for e in &log {
			ws[j % files].put(e);
		}
	}
	for w in ws {
		let n = w.finish();
		out.count("events at scale", n);
	}
	out
}
