//! P09, P10, P11: canonical patterns, setting components, pattern maps.
use crate::pat::*;
use crate::util::*;
use rdf_types::pattern::quad::canonical as q;
use rdf_types::pattern::triple::canonical as t;
use rdf_types::pattern::triple::map::*;
use rdf_types::pattern::{CanonicalQuadPattern as CQ, CanonicalTriplePattern as CT, QuadPattern, ResourceOrVar, TriplePattern, TriplePatternMap};
use rdf_types::{LocalTerm, Quad, Triple};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::hash::Hash;

/// Resources used in patterns: `mk(k)` and back.
pub trait R: Clone + Debug + Eq + Ord + Hash + Send + Sync {
	fn mk(k: i64) -> Self;
	fn un(&self) -> i64;
}
impl R for u8 {
	fn mk(k: i64) -> Self {
		k as u8
	}
	fn un(&self) -> i64 {
		*self as i64
	}
}
impl R for String {
	fn mk(k: i64) -> Self {
		format!("r{k}")
	}
	fn un(&self) -> i64 {
		self[1..].parse().unwrap()
	}
}

/// Blank nodes, IRIs and literals in turn.
impl R for LocalTerm {
	fn mk(k: i64) -> Self {
		match k % 4 {
			0 => LocalTerm::Anonymous(crate::cat::blank(&format!("_:r{k}"))),
			1 => crate::cat::named_iri(&format!("http://example.org/r{k}")),
			2 => crate::cat::lit(&format!("r{k}"), "http://example.org/r1"),
			_ => crate::cat::lang(&format!("r{k}"), "en"),
		}
	}
	fn un(&self) -> i64 {
		(0..256).find(|k| Self::mk(*k) == *self).unwrap_or(-99)
	}
}

fn i4(v: &Value) -> [i64; 4] {
	let i = ints(v);
	[i[0], i[1], i[2], i[3]]
}
fn cq<T>(c: CQ<T>, f: impl Fn(T) -> i64) -> [i64; 4] {
	code_q(c).map(|x| uncomp(x, &f))
}
fn ct<T>(c: CT<T>, f: impl Fn(T) -> i64) -> [i64; 4] {
	let [a, b, c] = code_t(c).map(|x| uncomp(x, &f));
	[a, b, c, -1]
}
fn mkq<T: R>(c: [i64; 4]) -> CQ<T> {
	build_q(c.map(|x| comp(x, T::mk)))
}
fn mkt<T: R>(c: [i64; 4]) -> CT<T> {
	build_t([comp(c[0], T::mk), comp(c[1], T::mk), comp(c[2], T::mk)])
}
fn rv<T: R, X>(c: i64, var: impl Fn(i64) -> X) -> ResourceOrVar<T, X> {
	if c >= 1 && c % 2 == 0 {
		T::mk(c).into()
	} else if c >= 1 {
		ResourceOrVar::Resource(T::mk(c))
	} else {
		ResourceOrVar::Var(var(c))
	}
}
macro_rules! comp_code {
	($m:ident, $v:expr, $f:expr, subject) => {
		match $v {
			$m::PatternSubject::Any => -1,
			$m::PatternSubject::Given(x) => $f(x),
		}
	};
	($m:ident, $v:expr, $f:expr, predicate) => {
		match $v {
			$m::PatternPredicate::Any => -1,
			$m::PatternPredicate::SameAsSubject => -2,
			$m::PatternPredicate::Given(x) => $f(x),
		}
	};
	($m:ident, $v:expr, $f:expr, object) => {
		match $v {
			$m::PatternObject::Any => -1,
			$m::PatternObject::SameAsSubject => -2,
			$m::PatternObject::SameAsPredicate => -3,
			$m::PatternObject::Given(x) => $f(x),
		}
	};
	($m:ident, $v:expr, $f:expr, graph) => {
		match $v {
			$m::PatternGraph::Any => -1,
			$m::PatternGraph::SameAsSubject => -2,
			$m::PatternGraph::SameAsPredicate => -3,
			$m::PatternGraph::SameAsObject => -4,
			$m::PatternGraph::Given(None) => 0,
			$m::PatternGraph::Given(Some(x)) => $f(x),
		}
	};
}

struct Case<'a> {
	out: &'a mut Out,
	case: Value,
}
impl Case<'_> {
	fn eq<T: PartialEq + serde::Serialize>(&mut self, what: &str, got: T, want: T) {
		self.out.checks += 1;
		if got != want {
			self.out.fail(json!({"case": self.case, "what": what, "got": got, "expected": want}));
		}
	}
}

fn raw_case<T: R, X: PartialEq + Clone>(l: &Value, c: &mut Case, var: impl Fn(i64) -> X) {
	let r = i4(&l["r"]);
	let w = i4(&l["c"]);
	let un = |x: T| x.un();
	let f = |k| rv::<T, X>(k, &var);
	if l["t"] == "raw" {
		let mk = || -> QuadPattern<T, X> { Quad(f(r[0]), f(r[1]), f(r[2]), if r[3] == 0 { None } else { Some(f(r[3])) }) };
		c.eq("CanonicalQuadPattern::from_pattern", cq(CQ::from_pattern(mk()), un), w);
		c.eq("CanonicalQuadPattern::from(QuadPattern)", cq(CQ::from(mk()), un), w);
		if r[3] == 0 {
			let mk = || -> TriplePattern<T, X> { Triple(f(r[0]), f(r[1]), f(r[2])) };
			c.eq("CanonicalQuadPattern::from_triple_pattern", cq(CQ::from_triple_pattern(mk()), un), w);
			c.eq("CanonicalQuadPattern::from(TriplePattern)", cq(CQ::from(mk()), un), w);
		}
		for &k in &r[..3] {
			let x = f(k);
			c.eq("ResourceOrVar::map", matches!(x.clone().map(|t: T| t.un() + 10), ResourceOrVar::Resource(n) if n == k + 10), k >= 1);
			c.eq("ResourceOrVar::as_ref", matches!(x.as_ref(), ResourceOrVar::Resource(n) if n.un() == k), k >= 1);
			c.eq("ResourceOrVar::is_id_or false", x.is_id_or(|_| false), k >= 1);
			c.eq("ResourceOrVar::is_id_or", x.is_id_or(|y| *y == var(k)), true);
		}
	} else {
		let mk = || -> TriplePattern<T, X> { Triple(f(r[0]), f(r[1]), f(r[2])) };
		c.eq("CanonicalTriplePattern::from_pattern", ct(CT::from_pattern(mk()), un), w);
		c.eq("CanonicalTriplePattern::from(TriplePattern)", ct(CT::from(mk()), un), w);
	}
}

fn view_case<T: R>(w: [i64; 4], c: &mut Case) {
	let un = |x: T| x.un();
	let ur = |x: &T| x.un();
	let p: CQ<T> = mkq(w);
	let id = |i: usize| if w[i] >= 1 { Some(w[i]) } else { None };
	c.eq("subject", comp_code!(q, p.subject(), ur, subject), w[0]);
	c.eq("predicate", comp_code!(q, p.predicate(), ur, predicate), w[1]);
	c.eq("object", comp_code!(q, p.object(), ur, object), w[2]);
	c.eq("graph", comp_code!(q, p.graph(), ur, graph), w[3]);
	c.eq("into_subject", comp_code!(q, p.clone().into_subject(), un, subject), w[0]);
	c.eq("into_predicate", comp_code!(q, p.clone().into_predicate(), un, predicate), w[1]);
	c.eq("into_object", comp_code!(q, p.clone().into_object(), un, object), w[2]);
	c.eq("into_graph", comp_code!(q, p.clone().into_graph(), un, graph), w[3]);
	c.eq("subject().cloned", comp_code!(q, p.subject().cloned(), un, subject), w[0]);
	c.eq("predicate().cloned", comp_code!(q, p.predicate().cloned(), un, predicate), w[1]);
	c.eq("object().cloned", comp_code!(q, p.object().cloned(), un, object), w[2]);
	c.eq("subject().id", p.subject().id().map(|x| x.un()), id(0));
	c.eq("predicate().id", p.predicate().id().map(|x| x.un()), id(1));
	c.eq("object().id", p.object().id().map(|x| x.un()), id(2));
	c.eq("subject().into_id", p.clone().into_subject().into_id().map(un), id(0));
	c.eq("predicate().into_id", p.clone().into_predicate().into_id().map(un), id(1));
	c.eq("object().into_id", p.clone().into_object().into_id().map(un), id(2));
	let (s, pr, o, g) = p.clone().into_parts();
	c.eq("into_parts", [comp_code!(q, s, un, subject), comp_code!(q, pr, un, predicate), comp_code!(q, o, un, object), comp_code!(q, g, un, graph)], w);
	let (tr, g) = p.clone().into_triple();
	c.eq("into_triple", (ct(tr, un), comp_code!(q, g, un, graph)), ([w[0], w[1], w[2], -1], w[3]));
	c.eq("as_ref", cq(p.as_ref(), ur), w);
	let up = |k: i64| if k >= 1 { k + 100 } else { k };
	c.eq("map", cq(p.clone().map(|t| t.un() + 100), |k| k), w.map(up));
	let (a, b) = p.clone().map2(|t| (t.un() + 100, format!("{}", t.un())));
	c.eq("map2 first", cq(a, |k| k), w.map(up));
	c.eq("map2 second", cq(b, |k| k.parse::<i64>().unwrap()), w);
	c.eq("clone", cq(p.clone(), un), w);
	if w[3] == -1 {
		let p: CT<T> = mkt(w);
		c.eq("with_any_graph", cq(p.clone().with_any_graph(), un), w);
		c.eq("triple subject", comp_code!(t, p.subject(), ur, subject), w[0]);
		c.eq("triple predicate", comp_code!(t, p.predicate(), ur, predicate), w[1]);
		c.eq("triple object", comp_code!(t, p.object(), ur, object), w[2]);
		c.eq("triple into_subject", comp_code!(t, p.clone().into_subject(), un, subject), w[0]);
		c.eq("triple into_predicate", comp_code!(t, p.clone().into_predicate(), un, predicate), w[1]);
		c.eq("triple into_object", comp_code!(t, p.clone().into_object(), un, object), w[2]);
		c.eq("triple subject().cloned", comp_code!(t, p.subject().cloned(), un, subject), w[0]);
		c.eq("triple predicate().cloned", comp_code!(t, p.predicate().cloned(), un, predicate), w[1]);
		c.eq("triple object().cloned", comp_code!(t, p.object().cloned(), un, object), w[2]);
		c.eq("triple subject().id", p.subject().id().map(|x| x.un()), id(0));
		c.eq("triple predicate().id", p.predicate().id().map(|x| x.un()), id(1));
		c.eq("triple object().id", p.object().id().map(|x| x.un()), id(2));
		c.eq("triple subject().into_id", p.clone().into_subject().into_id().map(un), id(0));
		c.eq("triple predicate().into_id", p.clone().into_predicate().into_id().map(un), id(1));
		c.eq("triple object().into_id", p.clone().into_object().into_id().map(un), id(2));
		if let CT::GivenSubject(_, t::GivenSubject::AnyPredicate(r)) = &p {
			c.eq("as_given", r.as_given().map(ur), id(2));
		}
		if let CT::GivenSubject(_, t::GivenSubject::GivenPredicate(_, r)) = &p {
			c.eq("as_given", r.as_given().map(ur), id(2));
		}
	}
}

fn other_case<T: R>(l: &Value, c: &mut Case) {
	let un = |x: T| x.un();
	match l["t"].as_str().unwrap() {
		"opt" => {
			let r = i4(&l["r"]);
			let w = i4(&l["c"]);
			let o = |k: i64| if k == 0 { None } else { Some(T::mk(k)) };
			let g = match r[3] {
				-1 => None,
				0 => Some(None),
				k => Some(Some(T::mk(k))),
			};
			let mk = || -> Quad<Option<T>> { Quad(o(r[0]), o(r[1]), o(r[2]), g.clone()) };
			c.eq("from_option_quad", cq(CQ::from_option_quad(mk()), un), w);
			c.eq("from(Quad<Option>)", cq(CQ::<T>::from(mk()), un), w);
			if r[3] == -1 {
				let mk = || -> Triple<Option<T>> { Triple(o(r[0]), o(r[1]), o(r[2])) };
				c.eq("from_option_triple", cq(CQ::from_option_triple(mk()), un), w);
				c.eq("from(Triple<Option>)", cq(CQ::<T>::from(mk()), un), w);
				c.eq("triple from_option_triple", ct(CT::from_option_triple(mk()), un), w);
				c.eq("triple from(Triple<Option>)", ct(CT::<T>::from(mk()), un), w);
			}
		}
		"const" => {
			let r = i4(&l["r"]);
			let mk = || -> Quad<T> { Quad(T::mk(r[0]), T::mk(r[1]), T::mk(r[2]), if r[3] == 0 { None } else { Some(T::mk(r[3])) }) };
			c.eq("from_quad", cq(CQ::from_quad(mk()), un), r);
			c.eq("from(Quad)", cq(CQ::<T>::from(mk()), un), r);
			let w = [r[0], r[1], r[2], -1];
			let mk = || -> Triple<T> { Triple(T::mk(r[0]), T::mk(r[1]), T::mk(r[2])) };
			c.eq("from_triple", cq(CQ::from_triple(mk()), un), w);
			c.eq("from(Triple)", cq(CQ::<T>::from(mk()), un), w);
			c.eq("triple from_triple", ct(CT::from_triple(mk()), un), w);
			c.eq("triple from(Triple)", ct(CT::<T>::from(mk()), un), w);
		}
		"view" => view_case::<T>(i4(&l["c"]), c),
		"filter" => {
			let o = l["o"].as_i64().unwrap();
			let qd = i4(&l["q"]);
			let want = l["r"].as_bool().unwrap();
			let tr = || Triple(T::mk(qd[0]), T::mk(qd[1]), T::mk(qd[2]));
			let a = match o {
				-1 => t::PatternObject::Any,
				-2 => t::PatternObject::SameAsSubject,
				-3 => t::PatternObject::SameAsPredicate,
				k => t::PatternObject::Given(T::mk(k)),
			};
			let b = match o {
				-1 => q::PatternObject::Any,
				-2 => q::PatternObject::SameAsSubject,
				-3 => q::PatternObject::SameAsPredicate,
				k => q::PatternObject::Given(T::mk(k)),
			};
			c.eq("triple filter_triple", a.filter_triple(tr()), want);
			c.eq("quad filter_triple", b.filter_triple(tr()), want);
		}
		_ => {}
	}
}

pub fn replay(args: &[String]) -> Out {
	let ls = read_lines(&args[0]);
	parallel(ls.len(), |range| {
		let mut out = Out::default();
		for i in range {
			let l = &ls[i];
			beat_case(|| l.to_string());
			out.cases += 1;
			let r = guarded(|| {
				let mut c = Case { out: &mut out, case: l.clone() };
				if l["t"] == "raw" || l["t"] == "rawt" {
					raw_case::<u8, i64>(l, &mut c, |k| k);
					raw_case::<String, String>(l, &mut c, |k| format!("?{}", -k));
				} else {
					other_case::<u8>(l, &mut c);
					other_case::<String>(l, &mut c);
				}
			});
			if let Err(p) = r {
				out.fail(json!({"case": l, "what": "panic", "message": p}));
			}
			if i % 500 == 3 {
				out.sample(|| l.clone());
			}
		}
		out
	})
}

/// One set call on a nested form, `d` positions down.
fn nested_set<T: R>(p: &mut CT<T>, d: i64, i: i64, v: T) -> i64 {
	let un = |x: T| x.un();
	macro_rules! one {
		($a:expr) => {
			if i == 2 {
				comp_code!(t, $a.set_predicate(v), un, predicate)
			} else {
				comp_code!(t, $a.set_object(v), un, object)
			}
		};
	}
	match (p, d) {
		(CT::AnySubject(a), 1) => one!(a),
		(CT::GivenSubject(_, a), 1) => one!(a),
		(CT::AnySubject(t::AnySubject::AnyPredicate(a)), _) => comp_code!(t, a.set_object(v), un, object),
		(CT::AnySubject(t::AnySubject::SameAsSubject(a)), _) => comp_code!(t, a.set_object(v), un, object),
		(CT::AnySubject(t::AnySubject::GivenPredicate(_, a)), _) => comp_code!(t, a.set_object(v), un, object),
		(CT::GivenSubject(_, t::GivenSubject::AnyPredicate(a)), _) => comp_code!(t, a.set_object(v), un, object),
		(CT::GivenSubject(_, t::GivenSubject::GivenPredicate(_, a)), _) => comp_code!(t, a.set_object(v), un, object),
	}
}
fn set_case<T: R>(l: &Value, out: &mut Out) {
	if let Some(d) = l["d"].as_i64() {
		let mut p: CT<T> = mkt(i4(&l["s"]));
		let st = ints(&l["h"][0]);
		let mut c = Case { out, case: l.clone() };
		let ret = nested_set(&mut p, d, st[0], T::mk(st[1]));
		c.eq("constraint returned by the nested form", ret, st[2]);
		c.eq("pattern after set_* on the nested form", ct(p, |x: T| x.un()), i4(&l["c"]));
		return;
	}
	let un = |x: T| x.un();
	let s = i4(&l["s"]);
	let want = i4(&l["c"]);
	let h = l["h"].as_array().unwrap();
	let mut p: CT<T> = mkt(s);
	let mut w: CT<T> = mkt(s);
	let mut c = Case { out, case: l.clone() };
	for (n, st) in h.iter().enumerate() {
		let st = ints(st);
		let v = || T::mk(st[1]);
		let ret = match st[0] {
			1 => comp_code!(t, p.set_subject(v()), un, subject),
			2 => comp_code!(t, p.set_predicate(v()), un, predicate),
			_ => comp_code!(t, p.set_object(v()), un, object),
		};
		c.eq(&format!("constraint returned by call {}", n + 1), ret, st[2]);
		w = match st[0] {
			1 => w.with_subject(v()),
			2 => w.with_predicate(v()),
			_ => w.with_object(v()),
		};
	}
	c.eq("pattern after set_*", ct(p, un), want);
	c.eq("pattern after with_*", ct(w, un), want);
}
pub fn replay_set(args: &[String]) -> Out {
	let ls = read_lines(&args[0]);
	parallel(ls.len(), |range| {
		let mut out = Out::default();
		for i in range {
			let l = &ls[i];
			beat_case(|| l.to_string());
			out.cases += 1;
			if let Err(p) = guarded(|| {
				set_case::<u8>(l, &mut out);
				set_case::<String>(l, &mut out);
			}) {
				out.fail(json!({"case": l, "what": "panic", "message": p}));
			}
			if i % 4001 == 3 {
				out.sample(|| l.clone());
			}
		}
		out
	})
}

fn map_case<T: R>(l: &Value, out: &mut Out) {
	let ps: Vec<[i64; 4]> = l["p"].as_array().unwrap().iter().map(i4).collect();
	let want = ints(&l["g"]);
	let mut m: TriplePatternMap<i64, T> = TriplePatternMap::default();
	let mut c = Case { out, case: l.clone() };
	for (n, st) in l["h"].as_array().unwrap().iter().enumerate() {
		let st = ints(st);
		let r = m.insert(mkt(ps[st[0] as usize - 1]), st[1]);
		c.eq(&format!("result of insertion {}", n + 1), r as i64, st[2]);
	}
	for i in 0..27i64 {
		let tr = [T::mk(i / 9 + 1), T::mk(i / 3 % 3 + 1), T::mk(i % 3 + 1)];
		let y: Vec<i64> = probe(50, false, || m.get(Triple(&tr[0], &tr[1], &tr[2])), |v| *v);
		let got: i64 = y.iter().map(|&v| if v == 1 { 3 } else { 1 }).sum();
		c.eq(&format!("lookup of {:?}", tr), got, want[i as usize]);
	}
}
pub fn replay_map(args: &[String]) -> Out {
	let ls = read_lines(&args[0]);
	parallel(ls.len(), |range| {
		let mut out = Out::default();
		for i in range {
			let l = &ls[i];
			beat_case(|| l.to_string());
			out.cases += 1;
			if let Err(p) = guarded(|| {
				map_case::<u8>(l, &mut out);
				if i % 9 == 0 {
					map_case::<String>(l, &mut out);
				}
			}) {
				out.fail(json!({"case": l, "what": "panic", "message": p}));
			}
			if i % 9001 == 3 {
				out.sample(|| l.clone());
			}
		}
		out
	})
}

/// One pattern map or sub-map; entries and lookups are given as full patterns and triples
/// in the part of the space the sub-map stands for.
enum M<T> {
	Full(TriplePatternMap<i64, T>),
	GS(GivenSubjectMap<i64, T>),
	GSAP(GivenSubjectAnyPredicateMap<i64, T>),
	GSGP(GivenSubjectGivenPredicateMap<i64, T>),
	AS(AnySubjectMap<i64, T>),
	ASAP(AnySubjectAnyPredicateMap<i64, T>),
	ASGP(AnySubjectGivenPredicateMap<i64, T>),
}
impl<T: R> M<T> {
	fn new(k: usize) -> M<T> {
		match k {
			0 => M::Full(Default::default()),
			1 => M::GS(Default::default()),
			2 => M::GSAP(Default::default()),
			3 => M::GSGP(Default::default()),
			4 => M::AS(Default::default()),
			5 => M::ASAP(Default::default()),
			_ => M::ASGP(Default::default()),
		}
	}
	/// Whether the pattern belongs to the sub-map standing at subject 1, predicate 1.
	fn fits(k: usize, p: [i64; 4]) -> bool {
		match k {
			0 => true,
			1 => p[0] == 1,
			2 => p[0] == 1 && p[1] == -1,
			3 => p[0] == 1 && p[1] == 1,
			4 => p[0] == -1,
			5 => p[0] == -1 && p[1] == -1,
			6 => p[0] == -1 && p[1] == 1,
			_ => p[0] == -1 && p[1] == -2,
		}
	}
	fn insert(&mut self, p: [i64; 4], v: i64) -> bool {
		let p: CT<T> = mkt(p);
		match (self, p) {
			(M::Full(m), p) => m.insert(p, v),
			(M::GS(m), CT::GivenSubject(_, r)) => m.insert(r, v),
			(M::GSAP(m), CT::GivenSubject(_, t::GivenSubject::AnyPredicate(r))) => m.insert(r, v),
			(M::GSGP(m), CT::GivenSubject(_, t::GivenSubject::GivenPredicate(_, r))) => m.insert(r, v),
			(M::AS(m), CT::AnySubject(r)) => m.insert(r, v),
			(M::ASAP(m), CT::AnySubject(t::AnySubject::AnyPredicate(r))) => m.insert(r, v),
			(M::ASGP(m), CT::AnySubject(t::AnySubject::GivenPredicate(_, r))) => m.insert(r, v),
			(M::ASGP(m), CT::AnySubject(t::AnySubject::SameAsSubject(r))) => m.insert(r, v),
			_ => tool_error("pattern does not fit the map"),
		}
	}
	fn get(&self, tr: [i64; 4]) -> Vec<i64> {
		let a = tr.map(T::mk);
		let x = Triple(&a[0], &a[1], &a[2]);
		match self {
			M::Full(m) => probe(5000, false, || m.get(x), |v| *v),
			M::GS(m) => probe(5000, false, || m.get(x), |v| *v),
			M::GSAP(m) => probe(5000, false, || m.get(x), |v| *v),
			M::GSGP(m) => probe(5000, false, || m.get(x), |v| *v),
			M::AS(m) => probe(5000, false, || m.get(x), |v| *v),
			M::ASAP(m) => probe(5000, false, || m.get(x), |v| *v),
			M::ASGP(m) => probe(5000, false, || m.get(x), |v| *v),
		}
	}
	fn union(&mut self, o: M<T>) {
		match (self, o) {
			(M::GS(a), M::GS(b)) => a.union_with(b),
			(M::GSAP(a), M::GSAP(b)) => a.union_with(b),
			(M::GSGP(a), M::GSGP(b)) => a.union_with(b),
			(M::AS(a), M::AS(b)) => a.union_with(b),
			(M::ASAP(a), M::ASAP(b)) => a.union_with(b),
			(M::ASGP(a), M::ASGP(b)) => a.union_with(b),
			_ => tool_error("no union"),
		}
	}
}
/// One random history of maps of kind `k`, and whether the code panicked.
fn history<T: R>(rng: &mut Rng, k: usize, terms: i64, values: usize, wide: bool) -> (Vec<Value>, Result<(), String>) {
	let terms = if wide { *rng.pick(&[3, 10, 60]) } else { terms };
	let mut log = vec![json!({"e": "reset"})];
	let r = guarded(|| {
		let mut ms: Vec<M<T>> = (0..4).map(|_| M::<T>::new(k)).collect();
		let steps = 10 + rng.below(50);
		let mut pool: Vec<[i64; 4]> = Vec::new();
		for s in 0..steps {
			if wide && (rng.chance(1, 6) || s + 1 == steps) {
				// triples around the patterns used
				let h = rng.below(4);
				let mut g = Vec::new();
				for _ in 0..3 {
					let w = if pool.is_empty() { [-1; 4] } else { *rng.pick(&pool) };
					let mut t = [0i64; 4];
					for i in 0..3 {
						t[i] = match w[i] {
							n if n >= 1 && rng.chance(5, 6) => n,
							n if n < -1 && rng.chance(5, 6) => t[(-n - 2) as usize],
							_ => 1 + rng.below(terms as usize) as i64,
						};
					}
					if (1..=3).contains(&k) {
						t[0] = 1;
					}
					if k == 3 || k == 6 {
						t[1] = 1;
					}
					if k == 7 {
						t[1] = t[0];
					}
					g.push(json!({"t": t, "y": ms[h].get(t)}));
				}
				log.push(json!({"e": "get", "h": h + 1, "g": g}));
				continue;
			}
			let h = rng.below(4);
			match rng.below(12) {
				0..=7 => {
					let mut p;
					loop {
						p = crate::store::random_pattern(rng, terms, None);
						p[3] = -1;
						if k == 0 {
							break;
						}
						// steer towards the sub-map
						if k == 1 || k == 2 || k == 3 {
							p[0] = 1;
						}
						if k == 3 || k == 6 {
							p[1] = 1;
						}
						if k >= 4 {
							p[0] = -1;
						}
						if k == 2 || k == 5 {
							p[1] = -1;
						}
						if k == 7 {
							p[1] = -2;
						}
						let ok = (p[1] != -2 || p[0] == -1) && (p[2] != -2 || p[0] == -1) && (p[2] != -3 || p[1] == -1);
						if ok && M::<T>::fits(k, p) {
							break;
						}
					}
					if wide {
						if pool.len() < 12 {
							pool.push(p);
						} else if rng.chance(3, 4) {
							p = *rng.pick(&pool);
						}
						// a run of values
						let lo = 1 + rng.below(300) as i64;
						let hi = lo + *rng.pick(&[0, 1, 3, 20, 90, 270]);
						let r: Vec<i64> = (lo..=hi).map(|v| ms[h].insert(p, v) as i64).collect();
						log.push(json!({"e": "many", "h": h + 1, "p": p, "lo": lo, "hi": hi, "r": r}));
						continue;
					}
					let v = 1 + rng.below(values) as i64;
					let r = ms[h].insert(p, v) as i64;
					log.push(json!({"e": "ins", "h": h + 1, "p": p, "v": v, "r": r}));
				}
				8 if k != 0 => {
					let h2 = (h + 1 + rng.below(3)) % 4;
					let o = std::mem::replace(&mut ms[h2], M::<T>::new(k));
					ms[h].union(o);
					log.push(json!({"e": "union", "h": h + 1, "h2": h2 + 1}));
				}
				_ => {}
			}
			if !wide && (rng.chance(1, 4) || s + 1 == steps) {
				let mut g = Vec::new();
				for a in 1..=terms {
					for b in 1..=terms {
						for c in 1..=terms {
							let b = if k == 7 { a } else { b };
							let t = [if (1..=3).contains(&k) { 1 } else { a }, if k == 3 || k == 6 { 1 } else { b }, c, 0];
							g.push(json!({"t": t, "y": ms[h].get(t)}));
						}
					}
				}
				log.push(json!({"e": "get", "h": h + 1, "g": g}));
			}
		}
	});
	(log, r)
}

pub fn record_map(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let traces: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	let mut out = Out::default();
	for f in 0..files {
		let mut w = TraceOut::create(&format!("{prefix}{f}.ndjson"));
		for i in (f..traces).step_by(files) {
			let mut rng = Rng::new(seed.wrapping_mul(77_003).wrapping_add(i as u64));
			let k = i % 8;
			let terms = [2, 3, 5][rng.below(3)];
			let values = [1, 2, 4][rng.below(3)];
			beat_case(|| format!("pattern map history {i}"));
			// every fifth one over other resources, every ninth one with many values or resources
			let wide = i % 9 == 4;
			let (log, r) = match i % 5 {
				0 => history::<String>(&mut rng, k, terms, values, wide),
				1 => history::<LocalTerm>(&mut rng, k, terms, values, wide),
				_ => history::<u8>(&mut rng, k, terms, values, wide),
			};
			out.cases += 1;
			if let Err(e) = r {
				out.fail(json!({"what": "panic", "message": e, "history": log}));
			}
			if i % 60 == 2 {
				out.sample(|| json!({"recorded": log.iter().take(5).collect::<Vec<_>>()}));
			}
			for e in &log {
				w.put(e);
			}
		}
		out.count("events", w.finish());
	}
	out
}
