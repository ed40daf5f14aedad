//! Replay of the histories printed by MC_Store on the real containers, judged by
//! the tables printed by MC_StoreTables.
use crate::cat::{Cat, Res};
use crate::store::*;
use crate::util::*;
use rdf_types::LocalTerm;
use serde_json::{json, Value};

struct MaskRow {
	iter: Vec<Q>,
	res: Vec<i64>,
	roles: [Vec<i64>; 4],
	po: Vec<(i64, i64, Vec<(i64, Vec<i64>)>)>,
	cmp: Vec<i64>,
	triples: Vec<Q>,
}
struct Tab {
	u: Vec<Q>,
	absent: Vec<Q>,
	terms: i64,
	xpats: Vec<Q>,
	masks: Vec<MaskRow>,
	pats: Vec<(Q, u32)>,
	multi: Vec<(Vec<Vec<i64>>, u32)>,
	graph_only: bool,
}
struct Vector {
	hist: Vec<[i64; 2]>,
	ret: i64,
	mask: u32,
}
fn q4(v: &Value) -> Q {
	let i = ints(v);
	[i[0], i[1], i[2], i[3]]
}
fn qs(v: &Value) -> Vec<Q> {
	v.as_array().unwrap().iter().map(q4).collect()
}

fn load_tab(params: &str, tables: &str) -> Tab {
	let p: Value = serde_json::from_str(&std::fs::read_to_string(params).unwrap()).unwrap();
	let u = qs(&p["quads"]);
	let terms = p["terms"].as_i64().unwrap();
	let mut masks: Vec<Option<MaskRow>> = (0..1usize << u.len()).map(|_| None).collect();
	let mut pats = Vec::new();
	let mut multi = Vec::new();
	for l in read_lines(tables) {
		match l["t"].as_str() {
			Some("mask") => {
				masks[l["m"].as_u64().unwrap() as usize] = Some(MaskRow {
					iter: qs(&l["iter"]),
					res: ints(&l["res"]),
					roles: [ints(&l["subj"]), ints(&l["pred"]), ints(&l["obj"]), ints(&l["graphs"])],
					po: l["po"]
						.as_array()
						.unwrap()
						.iter()
						.map(|r| {
							let x: Vec<(i64, Vec<i64>)> = r[2].as_array().unwrap().iter().map(|e| (e[0].as_i64().unwrap(), ints(&e[1]))).collect();
							(r[0].as_i64().unwrap(), r[1].as_i64().unwrap(), sorted(x))
						})
						.collect(),
					cmp: ints(&l["cmp"]),
					triples: qs(&l["triples"]),
				})
			}
			Some("pat") => pats.push((q4(&l["p"]), l["m"].as_u64().unwrap() as u32)),
			Some("multi") => multi.push((l["p"].as_array().unwrap().iter().map(ints).collect(), l["m"].as_u64().unwrap() as u32)),
			_ => {}
		}
	}
	let masks: Vec<MaskRow> = masks.into_iter().map(|m| m.unwrap_or_else(|| tool_error("table row missing"))).collect();
	let mut absent = Vec::new();
	for q in &u {
		for i in 0..4 {
			for t in (if i == 3 { 0 } else { 1 })..=terms {
				let mut r = *q;
				r[i] = t;
				if !u.contains(&r) && !absent.contains(&r) {
					absent.push(r);
				}
			}
		}
	}
	let graph_only = u.iter().all(|q| q[3] == 0);
	if graph_only {
		absent.retain(|q| q[3] == 0);
	}
	Tab { u, absent, terms, xpats: qs(&p["xpats"]), masks, pats, multi, graph_only }
}

impl Tab {
	/// Mask of a list of quads: none may be unknown or repeated.
	fn mask(&self, l: &[Q]) -> Option<u32> {
		let mut m = 0u32;
		for q in l {
			let i = self.u.iter().position(|u| u == q)?;
			if m >> i & 1 == 1 {
				return None;
			}
			m |= 1 << i;
		}
		Some(m)
	}
	fn graph_mask(&self, g: i64) -> u32 {
		self.u.iter().enumerate().filter(|(_, q)| q[3] == g).map(|(i, _)| 1 << i).sum()
	}
	fn pat_mask(&self, p: Q) -> u32 {
		self.pats.iter().find(|(x, _)| *x == p).map(|(_, m)| *m).unwrap_or_else(|| tool_error("unknown pattern"))
	}
}

struct Run<'a, R> {
	t: &'a Tab,
	c: &'a Cat<R>,
}
type Res1 = Result<(), Value>;
macro_rules! expect {
	($out:expr, $got:expr, $want:expr, $what:expr) => {{
		$out.checks += 1;
		match (&$got, &$want) {
			(g, w) => {
				if g != w {
					return Err(json!({"what": $what, "got": g, "expected": w}));
				}
			}
		}
	}};
}

impl<R: Res> Run<'_, R> {
	fn step(&self, s: &mut Store<R>, op: [i64; 2], via: usize) -> i64 {
		match op[0] {
			1 => s.insert(self.c, self.t.u[op[1] as usize - 1], via),
			2 => s.remove(self.c, self.t.u[op[1] as usize - 1], via),
			3 if s.kind() == Kind::DI => match s.remove_graph(self.c, op[1]) {
				None => -1,
				Some(g) => {
					// masks of the removed graph, expressed in the universe
					let l: Vec<Q> = Store::GN(g).iter(self.c, 0).into_iter().map(|q| [q[0], q[1], q[2], op[1]]).collect();
					self.t.mask(&l).map(|m| m as i64).unwrap_or(-99)
				}
			},
			4 if s.kind() == Kind::DI => {
				let l = s.extract(self.c, self.t.xpats[op[1] as usize - 1], usize::MAX);
				self.t.mask(&l).map(|m| m as i64).unwrap_or(-99)
			}
			_ => {
				// the same effect by single removals
				let m = if op[0] == 3 { self.t.graph_mask(op[1]) } else { self.t.pat_mask(self.t.xpats[op[1] as usize - 1]) };
				for (i, &q) in self.t.u.iter().enumerate() {
					if m >> i & 1 == 1 {
						s.remove(self.c, q, 0);
					}
				}
				-2
			}
		}
	}
	fn build(&self, k: Kind, hist: &[[i64; 2]], via: usize) -> Store<R> {
		let mut s = Store::new(k);
		for (i, &op) in hist.iter().enumerate() {
			self.step(&mut s, op, (via + i) % 3);
		}
		s
	}
	fn plain(&self, k: Kind, m: u32, order: usize) -> Store<R> {
		let mut s = Store::new(k);
		let mut l = self.t.masks[m as usize].iter.clone();
		if order == 1 {
			l.reverse();
		}
		for q in l {
			s.insert(self.c, q, 0);
		}
		s
	}
	fn membership(&self, s: &Store<R>, m: u32, out: &mut Out) -> Res1 {
		expect!(out, s.len(), m.count_ones() as i64, "len");
		expect!(out, s.is_empty(), m == 0, "is_empty");
		for (i, &q) in self.t.u.iter().enumerate() {
			expect!(out, (q, s.contains(self.c, q)), (q, m >> i & 1 == 1), "contains");
		}
		for &q in &self.t.absent {
			expect!(out, (q, s.contains(self.c, q)), (q, false), "contains absent");
		}
		Ok(())
	}
	fn iteration(&self, s: &Store<R>, m: u32, out: &mut Out) -> Res1 {
		for via in 0..7 {
			expect!(out, s.iter(self.c, via), self.t.masks[m as usize].iter, format!("traversal by route {via}"));
		}
		Ok(())
	}
	fn listings(&self, s: &Store<R>, m: u32, out: &mut Out) -> Res1 {
		let row = &self.t.masks[m as usize];
		for via in 0..3 {
			expect!(out, s.resources(self.c, via), row.res, "resources");
			for r in 0..4 {
				if let Some(l) = s.role(self.c, r, via) {
					expect!(out, sorted(l), row.roles[r], format!("listing {}", ["subjects", "predicates", "objects", "named graphs"][r]));
				}
			}
			let c = s.counts(via);
			let w = [row.res.len(), row.roles[0].len(), row.roles[1].len(), row.roles[2].len(), row.roles[3].len(), m.count_ones() as usize];
			for i in 0..6 {
				if c[i] != -1 {
					expect!(out, (i, c[i]), (i, w[i] as i64), "count");
				}
			}
		}
		for k in 1..=self.t.terms {
			expect!(out, (k, s.contains_resource(self.c, k)), (k, row.res.contains(&k)), "contains_resource");
		}
		Ok(())
	}
	fn pattern(&self, s: &Store<R>, m: u32, p: &(Q, u32), via: usize, out: &mut Out) -> Res1 {
		let l = s.pattern(self.c, p.0, via);
		expect!(out, self.t.mask(&l), Some(m & p.1), json!({"pattern": p.0, "route": via, "result": l}));
		Ok(())
	}
	fn patterns(&self, s: &Store<R>, m: u32, salt: usize, stride: usize, out: &mut Out) -> Res1 {
		if !s.matches_patterns() {
			return Ok(());
		}
		let mut i = salt % stride;
		while i < self.t.pats.len() {
			let p = &self.t.pats[i];
			self.pattern(s, m, p, (salt / stride + i) % 4, out)?;
			i += stride;
		}
		Ok(())
	}
	fn helpers(&self, s: &Store<R>, m: u32, out: &mut Out) -> Res1 {
		if !s.matches_patterns() {
			return Ok(());
		}
		let row = &self.t.masks[m as usize];
		for via in 0..3 {
			for k in 1..=self.t.terms {
				for w in 0..4 {
					expect!(out, (w, k, s.has(self.c, w + 1, [k, 0, 0, 0], via.max((w == 3) as usize))), (w, k, row.roles[w].contains(&k)), "contains_<role>");
				}
			}
			for (i, &q) in self.t.u.iter().enumerate() {
				expect!(out, (q, s.has(self.c, 0, q, via)), (q, m >> i & 1 == 1), "contains_quad");
				let t = [q[0], q[1], q[2], 0];
				expect!(out, (t, s.try_contains_triple(self.c, t, via)), (t, row.triples.contains(&t)), "try_contains_triple");
			}
			for &q in &self.t.absent {
				expect!(out, (q, s.has(self.c, 0, q, via)), (q, false), "contains_quad absent");
				let t = [q[0], q[1], q[2], 0];
				expect!(out, (t, s.try_contains_triple(self.c, t, via)), (t, row.triples.contains(&t)), "try_contains_triple");
			}
			for (g, sub, po) in &row.po {
				let got: Vec<(i64, Vec<i64>)> = s.predicates_objects(self.c, *g, *sub, via).into_iter().map(|(p, o)| (p, sorted(o))).collect();
				expect!(out, (g, sub, sorted(got)), (g, sub, po.clone()), "predicates_objects");
				for p in 1..=self.t.terms {
					let want = po.iter().find(|x| x.0 == p).map(|x| x.1.clone()).unwrap_or_default();
					expect!(out, (g, sub, p, sorted(s.quad_objects(self.c, *g, *sub, p, via))), (g, sub, p, want), "quad_objects");
				}
			}
		}
		Ok(())
	}
	/// Everything, patterns sampled.
	fn full(&self, s: &Store<R>, m: u32, salt: usize, out: &mut Out) -> Res1 {
		self.membership(s, m, out)?;
		expect!(out, s.iter(self.c, salt % 7), self.t.masks[m as usize].iter, "traversal");
		self.listings(s, m, out)?;
		self.patterns(s, m, salt, 41, out)
	}

	fn vector(&self, focus: &str, v: &Vector, idx: usize, k: Kind, out: &mut Out) -> Res1 {
		let t = self.t;
		let m = v.mask;
		let (last, init) = v.hist.split_last().unwrap();
		let mut s = self.build(k, init, idx);
		let op_via = if idx % 5 == 4 { 1 + idx % 2 } else { 0 };
		let ret = self.step(&mut s, *last, op_via);
		match focus {
			"P01" => {
				if last[0] <= 2 && ret != -1 {
					expect!(out, ret, v.ret, "result of the last call");
				}
				self.membership(&s, m, out)?;
			}
			"P02" => {
				self.iteration(&s, m, out)?;
				let n = t.masks.len() as u32;
				for (o, other) in [m, (m + 1 + idx as u32) % n, m ^ (1 << (idx % t.u.len()))].into_iter().enumerate() {
					let p = self.plain(k, other, (idx + o) % 2);
					let c = t.masks[m as usize].cmp[other as usize];
					let got = s.compare(&p).unwrap();
					let want = [(m == other) as i64, c, if m == other { 1 } else { got[2] }];
					expect!(out, (other, got), (other, want), "comparison with a freshly built container");
				}
			}
			"P03" => self.listings(&s, m, out)?,
			"P04" => {
				self.patterns(&s, m, idx, 4, out)?;
				if idx % 4 == 0 {
					self.helpers(&s, m, out)?;
				}
			}
			"P05" => {
				if k == Kind::DI {
					let stride = 23;
					let mut i = idx % stride;
					while i < t.multi.len() {
						let (p, pm) = &t.multi[i];
						let l = s.multi(self.c, p, (idx + i) % 2);
						expect!(out, t.mask(&l), Some(m & pm), json!({"multi pattern": p, "result": l}));
						i += stride;
					}
				}
			}
			"P06" => {
				if k == Kind::DI {
					if last[0] == 4 {
						expect!(out, ret, v.ret, "quads extracted");
					}
					if idx % 3 == 0 {
						self.full(&s, m, idx, out)?;
					}
					for j in 0..2usize {
						let (p, pm) = &t.pats[(idx * 7 + j * 331) % t.pats.len()];
						let (p, pm) = if j == 1 && (m & pm) == 0 { (&t.pats[0].0, &t.pats[0].1) } else { (p, pm) };
						let found = (m & pm).count_ones() as usize;
						let n = (idx + j) % (found + 2);
						let mut s = self.build(k, &v.hist, idx);
						let y = s.extract(self.c, *p, n);
						let ym = t.mask(&y);
						out.checks += 1;
						let ok = match ym {
							Some(ym) => ym & !(m & pm) == 0 && ym.count_ones() as usize == n.min(found),
							None => false,
						};
						if !ok {
							return Err(json!({"what": "partial extraction", "pattern": p, "limit": n, "yielded": y, "expected subset of mask": m & pm}));
						}
						let left = m & !ym.unwrap();
						self.full(&s, left, idx, out).map_err(|e| json!({"after extracting": p, "limit": n, "yielded": y, "bad": e}))?;
						for &q in &y {
							expect!(out, s.insert(self.c, q, 0), 1, "reinsertion after extraction");
						}
						self.full(&s, m, idx + 1, out).map_err(|e| json!({"after extracting and reinserting": p, "limit": n, "bad": e}))?;
					}
				}
			}
			"P07" => {
				if k == Kind::DI {
					if last[0] == 3 {
						expect!(out, ret, v.ret, "graph removed");
					}
					for g in 0..=t.terms {
						let gm = t.graph_mask(g);
						let mut s = self.build(k, &v.hist, idx);
						let r = s.remove_graph(self.c, g);
						expect!(out, (g, r.is_some()), (g, g == 0 || m & gm != 0), "whether a graph is returned");
						if let Some(gr) = r {
							let gs = Store::GN(gr);
							let mut want: Vec<Q> = t.masks[(m & gm) as usize].iter.iter().map(|q| [q[0], q[1], q[2], 0]).collect();
							want.sort();
							expect!(out, (g, gs.iter(self.c, 0)), (g, want.clone()), "triples of the removed graph");
							expect!(out, (g, gs.len()), (g, want.len() as i64), "length of the removed graph");
						}
						let left = m & !gm;
						self.full(&s, left, idx, out).map_err(|e| json!({"after removing graph": g, "bad": e}))?;
						for (i, &q) in t.u.iter().enumerate() {
							if m & gm & (1 << i) != 0 {
								expect!(out, s.insert(self.c, q, 0), 1, "reinsertion after removing a graph");
							}
						}
						self.full(&s, m, idx + 1, out).map_err(|e| json!({"after removing and reinserting graph": g, "bad": e}))?;
					}
				}
			}
			"P08" => {
				let mut rng = Rng::new(idx as u64 * 4 + k as u64);
				let mut convs: Vec<(String, Option<Store<R>>, Store<R>)> = Vec::new();
				// (name, source left behind, result)
				let d = s.dup();
				let r = s.revive(idx);
				let mut f = Store::collect(self.c, k, &[t.u[idx % t.u.len()]].into_iter().filter(|q| !k.is_graph() || q[3] == 0).collect::<Vec<_>>());
				f.take_over(&s);
				convs.push(("clone".into(), Some(s), d));
				convs.push(("serialise and read back".into(), Some(self.build(k, &v.hist, idx)), r));
				convs.push(("clone_from".into(), None, f));
				for via in 0..3 {
					if let Some(x) = self.build(k, &v.hist, idx).index(via) {
						convs.push((format!("index by route {via}"), None, x));
					}
				}
				for to in [Kind::DI, Kind::DN, Kind::GI, Kind::GN] {
					if let Some(x) = self.build(k, &v.hist, idx).pour(to) {
						convs.push((format!("into_iter into {}", to.name()), None, x));
					}
				}
				let b = self.build(k, &v.hist, idx);
				let col = Store::collect(self.c, k, &b.iter(self.c, 0));
				convs.push(("collect".into(), Some(b), col));
				let mut e = self.build(k, &v.hist, idx);
				let mut l = t.masks[m as usize].iter.clone();
				l.extend(t.masks[m as usize].iter.clone());
				e.extend(self.c, &l);
				convs.push(("extend with itself".into(), None, e));
				let mut e = Store::new(k);
				e.extend(self.c, &l);
				convs.push(("extend empty".into(), None, e));
				for (name, src, mut x) in convs {
					self.full(&x, m, idx, out).map_err(|e| json!({"after": name, "bad": e}))?;
					let mut sm = m;
					let mut xm = m;
					let mut src = src;
					for j in 0..4 {
						let i = rng.below(t.u.len());
						let on_src = src.is_some() && j % 2 == 1;
						let ins = rng.chance(1, 2);
						let (target, tm) = if on_src { (src.as_mut().unwrap(), &mut sm) } else { (&mut x, &mut xm) };
						let was = *tm >> i & 1 == 1;
						let r = if ins { target.insert(self.c, t.u[i], 0) } else { target.remove(self.c, t.u[i], 0) };
						expect!(out, (name.clone(), j, r), (name.clone(), j, (was != ins) as i64), "mutation after conversion");
						if ins {
							*tm |= 1 << i
						} else {
							*tm &= !(1 << i)
						}
					}
					self.full(&x, xm, idx + 2, out).map_err(|e| json!({"after mutating the result of": name, "bad": e}))?;
					if let Some(src) = &src {
						self.full(src, sm, idx + 3, out).map_err(|e| json!({"source after": name, "bad": e}))?;
					}
					expect!(out, x.drain(self.c), self.t.masks[xm as usize].iter, "by-value traversal");
				}
			}
			_ => tool_error("unknown focus"),
		}
		Ok(())
	}
}

fn go<R: Res>(focus: &str, t: &Tab, vs: &[Vector], stride: usize) -> Out {
	let c: Cat<R> = Cat::new(t.terms as usize);
	parallel(vs.len(), |range| {
		let mut out = Out::default();
		let run = Run { t, c: &c };
		for idx in range {
			if idx % stride != 0 && stride > 1 {
				continue;
			}
			let v = &vs[idx];
			let kinds: &[Kind] = if t.graph_only { &[Kind::DI, Kind::DN, Kind::GI, Kind::GN] } else { &[Kind::DI, Kind::DN] };
			for &k in kinds {
				if k != Kind::DI && matches!(focus, "P05" | "P06" | "P07") {
					continue;
				}
				if k == Kind::DN && focus == "P04" || k == Kind::GN && focus == "P04" {
					continue;
				}
				let case = || json!({"universe": t.u, "history": v.hist, "container": k.name(), "resource": R::NAME, "vector": idx});
				beat_case(|| case().to_string());
				out.cases += 1;
				let r = guarded(|| run.vector(focus, v, idx, k, &mut out));
				match r {
					Ok(Ok(())) => {}
					Ok(Err(e)) => out.fail(json!({"case": case(), "bad": e})),
					Err(p) => out.fail(json!({"case": case(), "bad": {"what": "panic", "message": p}})),
				}
				if idx % 977 == 5 {
					out.sample(case);
				}
				if out.bad_count > 20 {
					return out;
				}
			}
		}
		out
	})
}

pub fn main(args: &[String]) -> Out {
	let (focus, params, tables, vectors) = (&args[0], &args[1], &args[2], &args[3]);
	let stride: usize = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
	let t = load_tab(params, tables);
	let vs: Vec<Vector> = read_lines(vectors)
		.iter()
		.map(|l| Vector {
			hist: l[0].as_array().unwrap().iter().map(|o| [o[0].as_i64().unwrap(), o[1].as_i64().unwrap()]).collect(),
			ret: l[1].as_i64().unwrap(),
			mask: l[2].as_u64().unwrap() as u32,
		})
		.collect();
	let mut out = go::<u32>(focus, &t, &vs, stride);
	out.merge(go::<LocalTerm>(focus, &t, &vs, stride * 7));
	out.count("vectors", vs.len() as u64);
	out
}
