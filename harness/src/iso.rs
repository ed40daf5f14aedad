//! Isomorphism: all pairs of enumerated datasets, and recorded random pairs.
use crate::util::*;
use iref::{Iri, IriBuf};
use langtag::LangTagBuf;
use rdf_types::dataset::isomorphism::{are_isomorphic, are_isomorphic_with, find_bijection, find_bijection_with, BTreeBijection};
use rdf_types::dataset::*;
use rdf_types::interpretation::{Interpretation, ReverseInterpretation};
use rdf_types::{BlankIdBuf, CowLiteral, Literal, LiteralRef, LiteralType, LocalTerm, Quad, Term, Triple};
use serde_json::json;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

type Q = [i64; 4];
const BLANK0: i64 = 11;

/// Named terms 1, 2, ... as one of several tables, so that neighbours differ in
/// kind, datatype or language only.
fn named(table: usize, k: i64) -> LocalTerm {
	let iri = |s: &str| LocalTerm::iri(IriBuf::new(s.to_string()).unwrap());
	let lit = |v: &str, t: LiteralType| LocalTerm::literal(Literal::new(v.to_string(), t));
	let any = |s: &str| LiteralType::Any(IriBuf::new(s.to_string()).unwrap());
	let lang = |s: &str| LiteralType::LangString(LangTagBuf::new(s.to_string()).unwrap());
	const XS: &str = "http://www.w3.org/2001/XMLSchema#string";
	match (table, k) {
		(0, k) => iri(&format!("http://example.org/{k}")),
		(1, 1) => iri("http://a/"),
		(1, 2) => lit("http://a/", any(XS)),
		(1, 3) => lit("http://a/", any("http://a/")),
		(1, k) => iri(&format!("http://a/{k}")),
		(2, 1) => lit("a", any(XS)),
		(2, 2) => lit("a", lang("en")),
		(2, 3) => lit("a", lang("fr")),
		(2, k) => lit(&format!("a{k}"), any(XS)),
		(_, 1) => lit("1", any("http://t/a")),
		(_, 2) => lit("1", any("http://t/b")),
		(_, 3) => lit("", any("http://t/a")),
		(_, k) => lit("_:b0", any(&format!("http://t/{k}"))),
	}
}

/// One labelling of the blank nodes.
struct Names {
	table: usize,
	label: Vec<String>,
}
impl Names {
	fn new(rng: &mut Rng, table: usize, n: usize) -> Self {
		let mut label: Vec<String> = match rng.below(4) {
			0 => (0..n).map(|i| format!("_:b{i}")).collect(),
			1 => (0..n).map(|i| format!("_:{}{}", (b'a' + (i % 26) as u8) as char, if i < 26 { String::new() } else { (i / 26).to_string() })).collect(),
			2 => (0..n).map(|i| format!("_:{}", "x".repeat(i + 1))).collect(),
			_ => (0..n).map(|i| format!("_:{}.{}", rng.0 % 1000, i * 7)).collect(),
		};
		for i in (1..label.len()).rev() {
			label.swap(i, rng.below(i + 1));
		}
		Names { table, label }
	}
	/// Labels in the order of the numbers: the search then meets the nodes of a component in turn.
	fn ordered(table: usize, n: usize) -> Self {
		Names { table, label: (0..n).map(|i| format!("_:n{i:05}")).collect() }
	}
	fn term(&self, k: i64) -> LocalTerm {
		if k >= BLANK0 {
			LocalTerm::Anonymous(BlankIdBuf::new(self.label[(k - BLANK0) as usize].clone()).unwrap())
		} else {
			named(self.table, k)
		}
	}
	fn code(&self, t: &LocalTerm) -> i64 {
		match t {
			LocalTerm::Anonymous(b) => self.label.iter().position(|l| l == b.as_str()).map(|i| i as i64 + BLANK0).unwrap_or(99),
			_ => (1..9).find(|k| named(self.table, *k) == *t).unwrap_or(98),
		}
	}
}

enum Ds<R> {
	Dn(BTreeDataset<R>),
	Di(IndexedBTreeDataset<R>),
	Gn(BTreeGraph<R>),
	Gi(IndexedBTreeGraph<R>),
}
fn make<R: Ord + Clone>(kind: usize, qs: &[Q], f: impl Fn(i64) -> R, rng: &mut Rng) -> Ds<R> {
	let mut qs = qs.to_vec();
	for i in (1..qs.len()).rev() {
		qs.swap(i, rng.below(i + 1));
	}
	let graphs = qs.iter().all(|q| q[3] == 0);
	let quads = qs.iter().map(|q| Quad(f(q[0]), f(q[1]), f(q[2]), if q[3] == 0 { None } else { Some(f(q[3])) }));
	let triples = qs.iter().map(|q| Triple(f(q[0]), f(q[1]), f(q[2])));
	match kind % if graphs { 4 } else { 2 } {
		0 => Ds::Dn(quads.collect()),
		1 => Ds::Di(quads.collect()),
		2 => Ds::Gn(triples.collect()),
		_ => Ds::Gi(triples.collect()),
	}
}
macro_rules! both {
	($a:expr, $b:expr, |$x:ident, $y:ident| $e:expr) => {
		match $a {
			Ds::Dn($x) => match $b { Ds::Dn($y) => $e, Ds::Di($y) => $e, Ds::Gn($y) => $e, Ds::Gi($y) => $e },
			Ds::Di($x) => match $b { Ds::Dn($y) => $e, Ds::Di($y) => $e, Ds::Gn($y) => $e, Ds::Gi($y) => $e },
			Ds::Gn($x) => match $b { Ds::Dn($y) => $e, Ds::Di($y) => $e, Ds::Gn($y) => $e, Ds::Gi($y) => $e },
			Ds::Gi($x) => match $b { Ds::Dn($y) => $e, Ds::Di($y) => $e, Ds::Gn($y) => $e, Ds::Gi($y) => $e },
		}
	};
}

/// An interpretation over numbers: named resources have one IRI or literal each.
struct Tab {
	iris: BTreeMap<u32, IriBuf>,
	lits: BTreeMap<u32, Literal>,
}
impl Tab {
	fn new(table: usize) -> Self {
		let mut t = Tab { iris: BTreeMap::new(), lits: BTreeMap::new() };
		for k in 1..BLANK0 {
			match named(table, k) {
				LocalTerm::Named(Term::Iri(i)) => {
					t.iris.insert(k as u32, i);
				}
				LocalTerm::Named(Term::Literal(l)) => {
					t.lits.insert(k as u32, l);
				}
				_ => (),
			}
		}
		t
	}
}
impl Interpretation for Tab {
	type Resource = u32;
	fn iri(&self, iri: &Iri) -> Option<u32> {
		self.iris.iter().find(|(_, i)| i.as_iri() == iri).map(|(k, _)| *k)
	}
	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<u32> {
		let l = literal.into();
		self.lits.iter().find(|(_, i)| rdf_types::Literal::as_ref(i) == l).map(|(k, _)| *k)
	}
}
impl ReverseInterpretation for Tab {
	type Iris<'a> = std::option::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::option::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		self.iris.get(r).map(|i| Cow::Borrowed(i.as_iri())).into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		self.lits.get(r).map(|l| l.as_cow()).into_iter()
	}
}

#[derive(Debug)]
struct Verdict {
	iso: bool,
	witness: Option<(Vec<[i64; 2]>, Vec<[i64; 2]>)>,
}
fn pairs<R: Ord>(b: &BTreeBijection<R>, ca: impl Fn(&R) -> i64, cb: impl Fn(&R) -> i64) -> (Vec<[i64; 2]>, Vec<[i64; 2]>) {
	(b.forward.iter().map(|(x, y)| [ca(x), cb(y)]).collect(), b.backward.iter().map(|(y, x)| [cb(y), ca(x)]).collect())
}

/// Runs the real procedure on the pair, under random labels, kinds and orders.
fn decide(a: &[Q], b: &[Q], rng: &mut Rng) -> Verdict {
	decide_in(a, b, false, rng)
}
fn decide_in(a: &[Q], b: &[Q], ordered: bool, rng: &mut Rng) -> Verdict {
	let table = rng.below(4);
	let (ka, kb) = (rng.below(4), rng.below(4));
	let n = a.iter().chain(b).flatten().map(|k| (*k - BLANK0 + 1).max(0) as usize).max().unwrap_or(0).max(14);
	if rng.chance(1, 5) {
		// numbered resources, under an interpretation; the second dataset's blank
		// nodes are other resources
		let tab = Tab::new(table);
		let shift = rng.below(3) as i64 * 1000;
		let da = make(ka, a, |k| k as u32, rng);
		let db = make(kb, b, |k| if k >= BLANK0 { (k + shift) as u32 } else { k as u32 }, rng);
		both!(&da, &db, |x, y| Verdict {
			iso: are_isomorphic_with(&tab, x, y),
			witness: find_bijection_with(&tab, x, y).map(|w| pairs(&w, |r| *r as i64, |r| *r as i64 - if *r as i64 >= BLANK0 { shift } else { 0 }))
		})
	} else {
		let na = if ordered { Names::ordered(table, n) } else { Names::new(rng, table, n) };
		let nb = Names::new(rng, table, n);
		let da = make(ka, a, |k| na.term(k), rng);
		let db = make(kb, b, |k| nb.term(k), rng);
		both!(&da, &db, |x, y| Verdict {
			iso: are_isomorphic(x, y),
			witness: find_bijection(x, y).map(|w| pairs(&w, |r| na.code(r), |r| nb.code(r)))
		})
	}
}

fn witness_ok(a: &[Q], b: &[Q], fw: &[[i64; 2]], bw: &[[i64; 2]]) -> bool {
	let f: BTreeMap<i64, i64> = fw.iter().map(|p| (p[0], p[1])).collect();
	let g: BTreeMap<i64, i64> = bw.iter().map(|p| (p[0], p[1])).collect();
	let blanks = |q: &[Q]| -> BTreeSet<i64> { q.iter().flatten().copied().filter(|k| *k >= BLANK0).collect() };
	let (ba, bb) = (blanks(a), blanks(b));
	f.len() == fw.len()
		&& g.len() == bw.len()
		&& f.keys().copied().collect::<BTreeSet<_>>() == ba
		&& g.keys().copied().collect::<BTreeSet<_>>() == bb
		&& f.iter().all(|(x, y)| g.get(y) == Some(x))
		&& g.iter().all(|(y, x)| f.get(x) == Some(y))
		&& a.iter().map(|q| q.map(|k| *f.get(&k).unwrap_or(&k))).collect::<BTreeSet<Q>>() == b.iter().copied().collect::<BTreeSet<Q>>()
}

/// The quads around each blank node, itself marked and other blank nodes erased.
fn neighbourhoods(d: &[Q]) -> Vec<Vec<Q>> {
	let blanks: BTreeSet<i64> = d.iter().flatten().copied().filter(|k| *k >= BLANK0).collect();
	let mut all: Vec<Vec<Q>> = blanks
		.iter()
		.map(|b| {
			let mut n: Vec<Q> = d.iter().filter(|q| q.contains(b)).map(|q| q.map(|k| if k == *b { -1 } else if k >= BLANK0 { -2 } else { k })).collect();
			n.sort();
			n
		})
		.collect();
	// the quads without blank nodes as well
	all.push(d.iter().filter(|q| q.iter().all(|k| *k < BLANK0)).copied().collect());
	all.sort();
	all
}

/// replay-iso PART SEED PAIRS VECTORS
pub fn replay(args: &[String]) -> Out {
	let decision = args[0] == "decision";
	let seed: u64 = args[1].parse().unwrap();
	let budget: u64 = args[2].parse().unwrap();
	let lines = read_lines(&args[3]);
	let mut uni: BTreeMap<i64, Q> = BTreeMap::new();
	let mut ds: Vec<(Vec<Q>, i64)> = Vec::new();
	for l in &lines {
		if l["t"] == "u" {
			let q = ints(&l["q"]);
			uni.insert(l["i"].as_i64().unwrap(), [q[0], q[1], q[2], q[3]]);
		}
	}
	for l in &lines {
		if l["t"] == "d" {
			ds.push((ints(&l["s"]).iter().map(|i| uni[i]).collect(), l["c"].as_i64().unwrap()));
		}
	}
	// Pairs of equal size and equally many blank occurrences are the hard ones:
	// spend the budget on them, and a little on the others.
	let key = |d: &Vec<Q>| (d.len(), d.iter().flatten().filter(|k| **k >= BLANK0).count());
	let mut groups: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
	for (i, d) in ds.iter().enumerate() {
		groups.entry(key(&d.0)).or_default().push(i);
	}
	let mut classes: BTreeMap<i64, Vec<usize>> = BTreeMap::new();
	for (i, d) in ds.iter().enumerate() {
		classes.entry(d.1).or_default().push(i);
	}
	// Blank nodes with the same neighbourhoods, yet possibly another class: these pairs
	// can only be told apart by the search.
	let mut alike: BTreeMap<Vec<Vec<Q>>, Vec<usize>> = BTreeMap::new();
	for (i, d) in ds.iter().enumerate() {
		alike.entry(neighbourhoods(&d.0)).or_default().push(i);
	}
	let hard: u64 = groups.values().map(|g| (g.len() * g.len()) as u64).sum();
	let all = hard <= budget;
	let mut out = parallel(ds.len(), |range| {
		let mut out = Out::default();
		let mut rng = Rng::new(seed ^ ((range.start as u64) << 20));
		for i in range {
			let g = &groups[&key(&ds[i].0)];
			let c = &classes[&ds[i].1];
			let share = (budget as usize / ds.len()).max(2);
			let mut js: Vec<usize> = if all { g.clone() } else { (0..share).map(|_| *rng.pick(g)).collect() };
			let twins: Vec<usize> = alike[&neighbourhoods(&ds[i].0)].iter().copied().filter(|j| ds[*j].1 != ds[i].1).collect();
			if !all {
				if twins.len() <= 4 * share {
					js.extend(&twins);
				} else {
					js.extend((0..4 * share).map(|_| *rng.pick(&twins)));
				}
			}
			out.count("pairs told apart by the search only", twins.len() as u64);
			for _ in 0..(share / 4).max(2) {
				js.push(*rng.pick(c));
			}
			for _ in 0..(share / 10).max(1) {
				js.push(rng.below(ds.len()));
			}
			for j in js {
				let (a, b) = (&ds[i].0, &ds[j].0);
				let want = ds[i].1 == ds[j].1;
				beat_case(|| json!({"a": a, "b": b}).to_string());
				out.cases += 1;
				match guarded(|| decide(a, b, &mut rng)) {
					Err(p) => out.fail(json!({"a": a, "b": b, "panic": p})),
					Ok(v) => {
						if decision {
							out.check(v.iso == want, || json!({"a": a, "b": b, "isomorphic": want, "reported": v.iso}));
						} else {
							out.check(v.iso == v.witness.is_some(), || json!({"a": a, "b": b, "reported": v.iso, "bijection returned": v.witness.is_some()}));
							if let Some((f, g)) = &v.witness {
								out.check(witness_ok(a, b, f, g), || json!({"a": a, "b": b, "forward": f, "backward": g}));
							}
						}
						out.count(if want { "isomorphic pairs" } else { "non-isomorphic pairs" }, 1);
					}
				}
			}
		}
		out
	});
	out.count("datasets", ds.len() as u64);
	out.count("isomorphism classes", classes.len() as u64);
	out
}

/// A structured dataset over `n` blank nodes.
fn structured(rng: &mut Rng) -> Vec<Q> {
	let b = |i: usize| BLANK0 + i as i64;
	let mut q: BTreeSet<Q> = BTreeSet::new();
	match rng.below(8) {
		0 | 1 => {
			// disjoint directed cycles
			let mut start = 0;
			while start < 6 {
				let len = 1 + rng.below(6 - start).min(5);
				for i in 0..len {
					q.insert([b(start + i), 1, b(start + (i + 1) % len), 0]);
				}
				start += len;
			}
		}
		2 => {
			// undirected circulant graph
			let n = 5 + rng.below(4);
			let d = 1 + rng.below(n / 2);
			for i in 0..n {
				for s in [1, d] {
					q.insert([b(i), 1, b((i + s) % n), 0]);
					q.insert([b((i + s) % n), 1, b(i), 0]);
				}
			}
		}
		3 => {
			// named graphs with blank names
			let n = 2 + rng.below(4);
			for i in 0..n {
				q.insert([b(i), 1, b((i + 1) % n), b((i * 2 + 1) % n)]);
			}
		}
		4 => {
			// blank predicates
			let n = 2 + rng.below(4);
			for i in 0..n {
				q.insert([b(i), b((i + 1) % n), b((i + 2) % n), 0]);
				if rng.chance(1, 2) {
					q.insert([1, b(i), 2, 0]);
				}
			}
		}
		5 => {
			// two stars
			let n = 2 + rng.below(3);
			for i in 0..n {
				q.insert([b(0), 1, b(2 + i), 0]);
				q.insert([b(1), 1, b(2 + (i + rng.below(2)) % n), 0]);
			}
		}
		6 => {
			// loops and repeated occurrences
			let n = 1 + rng.below(4);
			for i in 0..n {
				let j = rng.below(n);
				match rng.below(4) {
					0 => q.insert([b(i), b(i), b(j), 0]),
					1 => q.insert([b(i), 1, b(i), b(j)]),
					2 => q.insert([b(i), b(j), b(i), b(i)]),
					_ => q.insert([b(i), b(i), b(i), b(i)]),
				};
			}
		}
		_ => {
			let n = 1 + rng.below(6);
			let m = 1 + rng.below(10);
			let t = |rng: &mut Rng| if rng.chance(2, 3) { b(rng.below(n)) } else { 1 + rng.below(3) as i64 };
			for _ in 0..m {
				let g = if rng.chance(1, 2) { 0 } else { t(rng) };
				let p = if rng.chance(1, 4) { t(rng) } else { 1 + rng.below(2) as i64 };
				q.insert([t(rng), p, t(rng), g]);
			}
		}
	}
	// decorations that break some of the symmetry
	let bl: Vec<i64> = q.iter().flatten().copied().filter(|k| *k >= BLANK0).collect();
	if !bl.is_empty() {
		for _ in 0..rng.below(3) {
			q.insert([*rng.pick(&bl), 1 + rng.below(2) as i64, 1 + rng.below(3) as i64, 0]);
		}
	}
	q.into_iter().collect()
}
/// Two label permutations between blank nodes in any two positions: what decides is
/// the cycle type, every neighbourhood is the same.
fn permutations(rng: &mut Rng, n: usize, i: usize, j: usize) -> Vec<Q> {
	let k = (0..4).find(|k| *k != i && *k != j).unwrap();
	let to = renaming(n, rng);
	let mut q = Vec::new();
	for x in 0..n {
		for (c, y) in [(1, x as i64), (2, to[x] - BLANK0)] {
			let mut z: Q = [1; 4];
			z[i] = BLANK0 + x as i64;
			z[j] = BLANK0 + n as i64 + y;
			z[k] = c;
			q.push(z);
		}
	}
	q
}
/// Many blank nodes, told apart by what they are linked to, some in twins.
fn large(rng: &mut Rng) -> Vec<Q> {
	let b = |i: usize| BLANK0 + i as i64;
	let mut q: BTreeSet<Q> = BTreeSet::new();
	let n = 12 + rng.below(30);
	let twins = rng.chance(1, 2);
	for i in 0..n {
		let code = if twins { i / 2 } else { i };
		for bit in 0..6 {
			if code >> bit & 1 == 1 {
				q.insert([b(i), 1, 1 + bit as i64, 0]);
			}
		}
		q.insert([b(i), 2, b(n), 0]);
		if rng.chance(1, 3) {
			q.insert([b(i), 3, b(rng.below(n)), if rng.chance(1, 2) { 0 } else { b(n) }]);
		}
	}
	q.into_iter().collect()
}
/// Hundreds of blank nodes around one hub, each told apart by the bits of its number.
fn crowd(rng: &mut Rng) -> Vec<Q> {
	let b = |i: usize| BLANK0 + i as i64;
	let n = *rng.pick(&[60, 130, 255, 256, 257, 300]);
	let mut q: BTreeSet<Q> = BTreeSet::new();
	for i in 0..n {
		for bit in 0..9 {
			if i >> bit & 1 == 1 {
				q.insert([b(i), 1, 1 + bit as i64, 0]);
			}
		}
		q.insert([b(n), 2, b(i), 0]);
		if rng.chance(1, 3) {
			q.insert([b(i), 3, b(rng.below(n)), if rng.chance(1, 2) { 0 } else { b(n) }]);
		}
	}
	q.into_iter().collect()
}

/// Hundreds of quads without blank nodes, and a few blank nodes with up to hundreds each.
fn weighty(rng: &mut Rng) -> Vec<Q> {
	let n = |rng: &mut Rng| 1 + rng.below(8) as i64;
	let g = |rng: &mut Rng| rng.below(9) as i64;
	let ground = *rng.pick(&[0, 20, 70, 140, 300, 600, 1100]);
	let mut q: BTreeSet<Q> = BTreeSet::new();
	for _ in 0..ground {
		q.insert([n(rng), n(rng), n(rng), g(rng)]);
	}
	let blanks = 1 + rng.below(5);
	for i in 0..blanks {
		let x = BLANK0 + i as i64;
		let at = rng.below(4);
		for _ in 0..*rng.pick(&[2, 10, 40, 150, 300]) {
			let mut z = [n(rng), n(rng), n(rng), g(rng)];
			z[if rng.chance(9, 10) { at } else { rng.below(4) }] = x;
			if rng.chance(1, 20) {
				let y = rng.below(blanks) as i64;
				z[rng.below(4)] = BLANK0 + y;
			}
			q.insert(z);
		}
	}
	q.into_iter().collect()
}

/// Links drawn at random among up to 60 blank nodes, up to half of all.
fn dense(rng: &mut Rng) -> Vec<Q> {
	let n = *rng.pick(&[5, 9, 17, 33, 60]);
	let (i, j) = *rng.pick(&[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
	let share = 1 + rng.below(8);
	let mut q = BTreeSet::new();
	for x in 0..n {
		for y in 0..n {
			if x + y == 0 || rng.chance(share, 16) {
				let mut z: Q = [1; 4];
				z[i] = BLANK0 + x as i64;
				z[j] = BLANK0 + y as i64;
				q.insert(z);
			}
		}
	}
	q.into_iter().collect()
}

/// Lists of components (see Components.tla): kinds and sizes, then numbers.
type Comp = (i64, Vec<i64>);
fn lay(kinds: &[(i64, usize)], rng: Option<&mut Rng>) -> Vec<Comp> {
	let n: usize = kinds.iter().map(|k| k.1).sum();
	let to: Vec<i64> = match rng {
		Some(r) => renaming(n, r),
		None => (0..n as i64).map(|i| BLANK0 + i).collect(),
	};
	let mut at = 0;
	kinds
		.iter()
		.map(|(k, n)| {
			at += n;
			(*k, to[at - n..at].to_vec())
		})
		.collect()
}
fn dataset_of(cs: &[Comp], i: usize, j: usize) -> Vec<Q> {
	let k = (0..4).find(|k| *k != i && *k != j).unwrap();
	let link = |x: i64, y: i64, c: i64| {
		let mut z: Q = [1; 4];
		z[i] = x;
		z[j] = y;
		z[k] = c;
		z
	};
	let mut q = BTreeSet::new();
	for (kind, ids) in cs {
		let n = ids.len();
		match kind {
			0 => q.extend((1..n).map(|k| link(ids[k - 1], ids[k], 1))),
			1 => q.extend((0..n).map(|k| link(ids[k], ids[(k + 1) % n], 1))),
			_ => q.extend((1..n).map(|k| link(ids[0], ids[k], 2))),
		}
	}
	q.into_iter().collect()
}
/// Two lists of components; those that differ have the same quads, blank nodes and
/// neighbourhoods.  The search goes through all symmetries of the part that agrees before
/// it gives up, so few are left when they differ.
fn components(rng: &mut Rng) -> (Vec<(i64, usize)>, Vec<(i64, usize)>) {
	let path = *rng.pick(&[2, 9, 33, 65, 129, 257, 300]);
	let mut a: Vec<(i64, usize)> = Vec::new();
	let mut b;
	match rng.below(4) {
		0 | 1 => {
			if rng.chance(1, 2) {
				a.push((2, *rng.pick(&[3, 40, 200, 257, 300])));
			}
			if rng.chance(3, 4) {
				a.push((0, path));
			}
			for _ in 0..rng.below(3) {
				a.push((1, 1 + rng.below(40)));
			}
			b = a.clone();
		}
		2 => {
			// part of a path becomes a cycle
			a.push((0, path + 3));
			let k = 1 + rng.below(path.min(30));
			b = vec![(0, path + 3 - k), (1, k)];
			if rng.chance(1, 3) {
				let k = 1 + rng.below(8);
				a.push((1, k));
				b.push((1, k));
			}
		}
		_ => {
			// one cycle is split
			let n = 2 + rng.below(60);
			let k = 1 + rng.below(n - 1);
			a.push((1, n));
			b = vec![(1, k), (1, n - k)];
		}
	}
	if rng.chance(1, 2) {
		b.reverse();
	}
	(a, b)
}
fn renaming(n: usize, rng: &mut Rng) -> Vec<i64> {
	let mut to: Vec<i64> = (0..n as i64).map(|i| BLANK0 + i).collect();
	for i in (1..to.len()).rev() {
		to.swap(i, rng.below(i + 1));
	}
	to
}
fn renamed(qs: &[Q], rng: &mut Rng) -> Vec<Q> {
	let mut to: Vec<i64> = (0..12).map(|i| BLANK0 + i).collect();
	for i in (1..to.len()).rev() {
		to.swap(i, rng.below(i + 1));
	}
	qs.iter().map(|q| q.map(|k| if k >= BLANK0 { to[(k - BLANK0) as usize] } else { k })).collect()
}
fn perturbed(qs: &[Q], rng: &mut Rng) -> Vec<Q> {
	let mut out: Vec<Q> = qs.to_vec();
	if out.is_empty() {
		return out;
	}
	let bl: Vec<i64> = qs.iter().flatten().copied().filter(|k| *k >= BLANK0).collect();
	let i = rng.below(out.len());
	match rng.below(6) {
		0 => {
			// swap one component with another quad
			let j = rng.below(out.len());
			let k = rng.below(4);
			if k < 3 || (out[i][3] != 0) == (out[j][3] != 0) {
				let t = out[i][k];
				out[i][k] = out[j][k];
				out[j][k] = t;
			}
		}
		1 if !bl.is_empty() => {
			// redirect one blank occurrence
			let k = rng.below(4);
			if out[i][k] >= BLANK0 {
				out[i][k] = *rng.pick(&bl);
			}
		}
		2 => {
			let k = rng.below(3);
			if out[i][k] < BLANK0 {
				out[i][k] = 1 + rng.below(3) as i64;
			}
		}
		3 => out[i].swap(0, 2),
		4 => {
			out[i][3] = if out[i][3] == 0 { *rng.pick(&[1, 2]) } else { 0 };
		}
		_ => {
			let (a, b) = (rng.below(4), rng.below(3));
			if a < 3 {
				out[i].swap(a, b);
			}
		}
	}
	let s: BTreeSet<Q> = out.into_iter().collect();
	s.into_iter().collect()
}

/// record-iso SEED PAIRS FILES PREFIX
pub fn record(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let n: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(7919) + f as u64 * 104729 + 5);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			for _ in 0..(n + files - 1) / files {
				if rng.chance(1, 25) {
					let kind = rng.below(8);
					let a = match kind { 0 => crowd(&mut rng), 1..=3 => weighty(&mut rng), 4 | 5 => dense(&mut rng), _ => large(&mut rng) };
					let to = renaming(301, &mut rng);
					let mut b: Vec<Q> = a.iter().map(|q| q.map(|k| if k >= BLANK0 { to[(k - BLANK0) as usize] } else { k })).collect();
					let mut known: Vec<[i64; 2]> = a.iter().flatten().filter(|k| **k >= BLANK0).map(|k| [*k, to[(*k - BLANK0) as usize]]).collect();
					known.sort();
					known.dedup();
					if !b.is_empty() && kind != 3 && rng.chance(1, 2) {
						// redirect blank nodes, as long as the surroundings tell the difference
						let mut c = b.clone();
						for _ in 0..1 + rng.below(2) {
							let (m, n, at, to) = (rng.below(c.len()), rng.below(c.len()), rng.below(4), rng.below(4));
							let (x, y) = (c[m][at], c[n][to]);
							if x >= BLANK0 && y >= BLANK0 {
								c[m][at] = y;
								c[n][to] = x;
							}
						}
						if c.iter().collect::<BTreeSet<_>>().len() == b.len() && neighbourhoods(&c) != neighbourhoods(&b) {
							b = c;
							known.clear();
						}
					} else if !b.is_empty() && rng.chance(if (1..=3).contains(&kind) { 3 } else { 2 }, 4) {
						// change one named component
						for _ in 0..20 {
							let m = b.len();
							let i = if rng.chance(1, 3) { m - 1 - rng.below((m + 9) / 10) } else { rng.below(m) };
							let ground = b[i].iter().all(|k| *k < BLANK0);
							if !ground && b.iter().any(|q| q.iter().all(|k| *k < BLANK0)) && rng.chance(1, 2) {
								continue;
							}
							let mut c = b[i];
							let at = if kind < 4 { rng.below(4) } else { 1 };
							if c[at] < BLANK0 {
								c[at] = if kind < 4 { 1 + rng.below(8) as i64 } else { 4 };
							}
							if !b.contains(&c) {
								b[i] = c;
								known.clear();
								break;
							}
						}
					}
					beat_case(|| json!({"a": a, "b": b}).to_string());
					out.cases += 1;
					match guarded(|| decide(&a, &b, &mut rng)) {
						Err(p) => out.fail(json!({"a": a, "b": b, "panic": p})),
						Ok(v) => {
							let (fw, bw) = v.witness.clone().unwrap_or_default();
							t.put(&json!({"e": "big", "a": a, "b": b, "k": known, "i": v.iso as i64, "w": v.witness.is_some() as i64, "f": fw, "g": bw}));
							out.count("recorded large pairs", 1);
						}
					}
					continue;
				}
				if rng.chance(1, 60) {
					let (i, j) = *rng.pick(&[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
					let (ka, kb) = components(&mut rng);
					let (ca, cb) = (lay(&ka, None), lay(&kb, Some(&mut rng)));
					let (a, b) = (dataset_of(&ca, i, j), dataset_of(&cb, i, j));
					beat_case(|| json!({"a": ca, "b": cb}).to_string());
					out.cases += 1;
					match guarded(|| decide_in(&a, &b, true, &mut rng)) {
						Err(p) => out.fail(json!({"components of a": ca, "components of b": cb, "positions": [i, j], "panic": p})),
						Ok(v) => {
							let (fw, bw) = v.witness.clone().unwrap_or_default();
							t.put(&json!({"e": "comp", "a": a, "b": b, "ca": ca, "cb": cb, "p": [i + 1, j + 1], "i": v.iso as i64, "w": v.witness.is_some() as i64, "f": fw, "g": bw}));
							out.count("recorded pairs of component lists", 1);
						}
					}
					continue;
				}
				let (a, mut b) = if rng.chance(1, 6) {
					let n = 2 + rng.below(3);
					let (i, j) = *rng.pick(&[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
					let b = permutations(&mut rng, n, i, j);
					(permutations(&mut rng, n, i, j), renamed(&b, &mut rng))
				} else {
					let a = structured(&mut rng);
					let b = if rng.chance(1, 6) { structured(&mut rng) } else { renamed(&a, &mut rng) };
					(a, b)
				};
				if rng.chance(1, 2) {
					for _ in 0..1 + rng.below(2) {
						b = perturbed(&b, &mut rng);
					}
				}
				beat_case(|| json!({"a": a, "b": b}).to_string());
				out.cases += 1;
				match guarded(|| decide(&a, &b, &mut rng)) {
					Err(p) => out.fail(json!({"a": a, "b": b, "panic": p})),
					Ok(v) => {
						let (fw, bw) = v.witness.clone().unwrap_or_default();
						t.put(&json!({"e": "iso", "a": a, "b": b, "i": v.iso as i64, "w": v.witness.is_some() as i64, "f": fw, "g": bw}));
						out.count(if v.iso { "recorded isomorphic" } else { "recorded non-isomorphic" }, 1);
					}
				}
			}
			t.finish();
		}
		out
	})
}
