//! Triples and quads: every operation against the specification's result.
use crate::util::*;
use iref::IriBuf;
use rdf_types::{BlankIdBuf, Id, Literal, LiteralType, LocalTerm, LocalTermRef, Quad, Term, Triple};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn h<X: Hash>(x: &X) -> u64 {
	let mut s = DefaultHasher::new();
	x.hash(&mut s);
	s.finish()
}
fn sign(o: Option<Ordering>) -> i64 {
	match o {
		Some(Ordering::Less) => -1,
		Some(Ordering::Equal) => 0,
		Some(Ordering::Greater) => 1,
		None => 2,
	}
}
type Res = Vec<(&'static str, Value, Value)>;

/// What the operations of a triple give, as numbers, next to what they must give.
fn triple_ops<X: Clone + PartialEq + Debug>(v: &Value, mk: &dyn Fn(i64) -> X, un: &dyn Fn(&X) -> i64) -> Res {
	let n = ints(&v["x"]);
	let t = || Triple(mk(n[0]), mk(n[1]), mk(n[2]));
	let l = |t: &Triple<X>| json!([un(&t.0), un(&t.1), un(&t.2)]);
	let lr = |t: &Triple<&X>| json!([un(t.0), un(t.1), un(t.2)]);
	let lq = |q: &Quad<X>| json!([un(&q.0), un(&q.1), un(&q.2), q.3.as_ref().map(un).unwrap_or(0)]);
	let f = |x: X| mk(un(&x) + 100);
	let x = v["x"].clone();
	let mut r: Res = vec![
		("new", l(&Triple::new(mk(n[0]), mk(n[1]), mk(n[2]))), x.clone()),
		("subject", json!(un(t().subject())), json!(n[0])),
		("predicate", json!(un(t().predicate())), json!(n[1])),
		("object", json!(un(t().object())), json!(n[2])),
		("into_subject", json!(un(&t().into_subject())), json!(n[0])),
		("into_predicate", json!(un(&t().into_predicate())), json!(n[1])),
		("into_object", json!(un(&t().into_object())), json!(n[2])),
		("into_parts", { let p = t().into_parts(); json!([un(&p.0), un(&p.1), un(&p.2)]) }, x.clone()),
		("as_ref", lr(&t().as_ref()), x.clone()),
		("cloned", l(&t().as_ref().cloned()), x.clone()),
		("into_cloned", l(&t().as_ref().into_cloned()), x.clone()),
		("clone", l(&t().clone()), x.clone()),
		("map_subject", l(&t().map_subject(f)), v["one"][0].clone()),
		("map_predicate", l(&t().map_predicate(f)), v["one"][1].clone()),
		("map_object", l(&t().map_object(f)), v["one"][2].clone()),
		("map", l(&t().map(f)), v["all"].clone()),
		("map_* in turn", l(&t().map_subject(|x| mk(un(&x) + 100)).map_predicate(|x| mk(un(&x) + 200)).map_object(|x| mk(un(&x) + 300))), v["each"].clone()),
		("into_quad none", lq(&t().into_quad(None)), v["g0"].clone()),
		("into_quad some", lq(&t().into_quad(Some(mk(5)))), v["g5"].clone()),
		("into_quad and back", { let (b, g) = t().into_quad(Some(mk(5))).into_triple(); json!([l(&b), g.as_ref().map(un)]) }, json!([x, 5])),
	];
	let mut a = t();
	*a.subject_mut() = mk(7);
	r.push(("subject_mut", l(&a), v["set"][0].clone()));
	let mut a = t();
	*a.predicate_mut() = mk(7);
	r.push(("predicate_mut", l(&a), v["set"][1].clone()));
	let mut a = t();
	*a.object_mut() = mk(7);
	r.push(("object_mut", l(&a), v["set"][2].clone()));
	r
}
#[allow(deprecated)]
fn quad_ops<X: Clone + PartialEq + Debug>(v: &Value, mk: &dyn Fn(i64) -> X, un: &dyn Fn(&X) -> i64) -> Res {
	let n = ints(&v["x"]);
	let g = || if n[3] == 0 { None } else { Some(mk(n[3])) };
	let t = || Quad(mk(n[0]), mk(n[1]), mk(n[2]), g());
	let ug = |g: Option<&X>| g.map(un).unwrap_or(0);
	let l = |q: &Quad<X>| json!([un(&q.0), un(&q.1), un(&q.2), ug(q.3.as_ref())]);
	let lr = |q: &Quad<&X>| json!([un(q.0), un(q.1), un(q.2), ug(q.3)]);
	let f = |x: X| mk(un(&x) + 100);
	let x = v["x"].clone();
	let mut r: Res = vec![
		("new", l(&Quad::new(mk(n[0]), mk(n[1]), mk(n[2]), g())), x.clone()),
		("subject", json!(un(t().subject())), json!(n[0])),
		("predicate", json!(un(t().predicate())), json!(n[1])),
		("object", json!(un(t().object())), json!(n[2])),
		("graph", json!(ug(t().graph())), json!(n[3])),
		("into_subject", json!(un(&t().into_subject())), json!(n[0])),
		("into_predicate", json!(un(&t().into_predicate())), json!(n[1])),
		("into_object", json!(un(&t().into_object())), json!(n[2])),
		("into_graph", json!(ug(t().into_graph().as_ref())), json!(n[3])),
		("into_parts", { let p = t().into_parts(); json!([un(&p.0), un(&p.1), un(&p.2), ug(p.3.as_ref())]) }, x.clone()),
		("into_triple", { let (a, g) = t().into_triple(); json!([[un(&a.0), un(&a.1), un(&a.2)], ug(g.as_ref())]) }, json!([v["tr"], n[3]])),
		("into_triple and back", { let (a, g) = t().into_triple(); l(&a.into_quad(g)) }, x.clone()),
		("as_ref", lr(&t().as_ref()), x.clone()),
		("borrow_components", lr(&t().borrow_components()), x.clone()),
		("cloned", l(&t().as_ref().cloned()), x.clone()),
		("into_cloned", l(&t().as_ref().into_cloned()), x.clone()),
		("clone", l(&t().clone()), x.clone()),
		("map_subject", l(&t().map_subject(f)), v["one"][0].clone()),
		("map_predicate", l(&t().map_predicate(f)), v["one"][1].clone()),
		("map_object", l(&t().map_object(f)), v["one"][2].clone()),
		("map_graph", l(&t().map_graph(|g| g.map(f))), v["one"][3].clone()),
		("map_graph to none", l(&t().map_graph(|_| None)), v["g0"].clone()),
		("map", l(&t().map(f)), v["all"].clone()),
		("map_all", l(&t().map_all(|x| mk(un(&x) + 100), |x| mk(un(&x) + 200), |x| mk(un(&x) + 300), |g| g.map(|x| mk(un(&x) + 400)))), v["each"].clone()),
		("with_graph none", l(&t().with_graph(None)), v["g0"].clone()),
		("with_graph some", l(&t().with_graph(Some(mk(5)))), v["g5"].clone()),
	];
	let mut a = t();
	*a.subject_mut() = mk(7);
	r.push(("subject_mut", l(&a), v["set"][0].clone()));
	let mut a = t();
	*a.predicate_mut() = mk(7);
	r.push(("predicate_mut", l(&a), v["set"][1].clone()));
	let mut a = t();
	*a.object_mut() = mk(7);
	r.push(("object_mut", l(&a), v["set"][2].clone()));
	let mut a = t();
	match a.graph_mut() {
		Some(g) => {
			*g = mk(7);
			r.push(("graph_mut", l(&a), v["set"][3].clone()));
		}
		None => r.push(("graph_mut", json!(0), x[3].clone())),
	}
	r
}
/// Operations on components of different types: a swap would show in the text.
fn mixed_ops(v: &Value) -> Res {
	let n = ints(&v["x"]);
	let (s, p, o) = (n[0] as u8, n[1].to_string(), n[2] as i64);
	let x = v["x"].clone();
	if n.len() == 3 {
		let t = Triple(s, p.clone(), o);
		let c = Triple(n[0], n[1], n[2]);
		return vec![
			("copied", { let y = c.as_ref().copied(); json!([y.0, y.1, y.2]) }, x.clone()),
			("into_copied", { let y = c.as_ref().into_copied(); json!([y.0, y.1, y.2]) }, x.clone()),
			("cloned mixed", { let y = t.as_ref().cloned(); json!([y.0, y.1.parse::<i64>().unwrap(), y.2]) }, x.clone()),
			("into_quad mixed", { let y = t.clone().into_quad(Some('g')); json!([y.0, y.1, y.2, y.3.to_owned()]) }, json!([s, p, o, 'g'])),
			("map mixed", { let y = t.clone().map_subject(|x| x.to_string()).map_predicate(|x| x.len()).map_object(|x| -x); json!([y.0, y.1, y.2]) }, json!([s.to_string(), 1, -o])),
			("parts mixed", { let y = t.into_parts(); json!([y.0, y.1, y.2]) }, json!([s, p, o])),
		];
	}
	let g = if n[3] == 0 { None } else { Some(n[3] as f64) };
	let q = Quad(s, p.clone(), o, g);
	let cg = if n[3] == 0 { None } else { Some(n[3]) };
	let c = Quad(n[0], n[1], n[2], cg);
	vec![
		("copied", { let y = c.as_ref().copied(); json!([y.0, y.1, y.2, y.3.unwrap_or(0)]) }, x.clone()),
		("into_copied", { let y = c.as_ref().into_copied(); json!([y.0, y.1, y.2, y.3.unwrap_or(0)]) }, x),
		("cloned mixed", { let y = q.as_ref().cloned(); json!([y.0, y.1, y.2, y.3]) }, json!([s, p, o, g])),
		("into_triple mixed", { let (y, z) = q.clone().into_triple(); json!([y.0, y.1, y.2, z]) }, json!([s, p, o, g])),
		("map mixed", { let y = q.clone().map_subject(|x| x.to_string()).map_predicate(|x| x.len()).map_object(|x| -x).map_graph(|g| g.map(|g| g == 1.0)); json!([y.0, y.1, y.2, y.3]) }, json!([s.to_string(), 1, -o, g.map(|g| g == 1.0)])),
		("parts mixed", { let y = q.into_parts(); json!([y.0, y.1, y.2, y.3]) }, json!([s, p, o, g])),
	]
}
pub fn lexical(n: i64) -> Id {
	if n % 2 == 0 {
		Id::Iri(IriBuf::new(format!("http://e.org/{n:05}")).unwrap())
	} else {
		Id::BlankId(BlankIdBuf::new(format!("_:b{n:05}")).unwrap())
	}
}
fn id_text(i: &Id) -> String {
	match i {
		Id::Iri(i) => i.as_str().into(),
		Id::BlankId(b) => b.as_str().into(),
	}
}
fn lexical_ops(v: &Value) -> Res {
	use rdf_types::IdRef;
	let n = ints(&v["x"]);
	let ir = |i: &IdRef| match i {
		IdRef::Iri(i) => i.as_str().to_string(),
		IdRef::BlankId(b) => b.as_str().to_string(),
	};
	let p = IriBuf::new(format!("http://e.org/p{}", n[1])).unwrap();
	let o = term(n[2]);
	if n.len() == 3 {
		let t: Triple<Id, IriBuf, LocalTerm> = Triple(lexical(n[0]), p.clone(), o.clone());
		let want = json!([id_text(&lexical(n[0])), p.as_str(), format!("{o:?}")]);
		let r = t.as_lexical_triple_ref();
		let a = json!([ir(&r.0), r.1.as_str(), format!("{:?}", r.2.to_owned())]);
		let b = r.into_owned();
		return vec![("as_lexical_triple_ref", a, want.clone()), ("LexicalTripleRef::into_owned", json!([id_text(&b.0), b.1.as_str(), format!("{:?}", b.2)]), want)];
	}
	let g = || if n[3] == 0 { None } else { Some(lexical(n[3] + 10)) };
	let t: Quad<Id, IriBuf, LocalTerm, Id> = Quad(lexical(n[0]), p.clone(), o.clone(), g());
	let want = json!([id_text(&lexical(n[0])), p.as_str(), format!("{o:?}"), g().as_ref().map(id_text)]);
	let r = t.as_lexical_quad_ref();
	let a = json!([ir(&r.0), r.1.as_str(), format!("{:?}", r.2.to_owned()), r.3.as_ref().map(ir)]);
	let b = r.into_owned();
	vec![("as_lexical_quad_ref", a, want.clone()), ("RdfQuadRef::into_owned", json!([id_text(&b.0), b.1.as_str(), format!("{:?}", b.2), b.3.as_ref().map(id_text)]), want)]
}
/// Terms in increasing order of n: blank nodes before IRIs before literals.
pub fn term(n: i64) -> LocalTerm {
	match n {
		0..=1 => LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{n:06}")).unwrap()),
		2..=99 => LocalTerm::Named(Term::Iri(IriBuf::new(format!("http://e.org/{n:06}")).unwrap())),
		_ => LocalTerm::Named(Term::Literal(Literal::new(format!("{n:06}"), LiteralType::Any(IriBuf::new("http://e.org/d".to_string()).unwrap())))),
	}
}
fn untern(t: &LocalTerm) -> i64 {
	let s = match t {
		LocalTerm::Anonymous(b) => b.as_str()[3..].to_string(),
		LocalTerm::Named(Term::Iri(i)) => i.as_str()[13..].to_string(),
		LocalTerm::Named(Term::Literal(l)) => l.value.clone(),
	};
	s.parse().unwrap()
}

/// All comparisons of two tuples; they must agree with c (-1, 0, 1).
fn compare_all<X: Clone + Ord + Hash + Debug>(a: &[i64], b: &[i64], c: i64, mk: &dyn Fn(i64) -> X) -> Res {
	let mut r: Res = Vec::new();
	fn push<Y: Ord + Hash>(r: &mut Res, c: i64, a: &Y, b: &Y) {
		r.push(("cmp", json!(sign(Some(a.cmp(b)))), json!(c)));
		r.push(("partial_cmp", json!(sign(a.partial_cmp(b))), json!(c)));
		r.push(("==", json!(a == b), json!(c == 0)));
		r.push(("!=", json!(a != b), json!(c != 0)));
		r.push(("<", json!(a < b), json!(c < 0)));
		r.push(("<=", json!(a <= b), json!(c <= 0)));
		r.push((">", json!(a > b), json!(c > 0)));
		r.push((">=", json!(a >= b), json!(c >= 0)));
		if c == 0 {
			r.push(("hash", json!(h(a) == h(b)), json!(true)));
		}
	}
	if a.len() == 3 {
		let f = |n: &[i64]| Triple(mk(n[0]), mk(n[1]), mk(n[2]));
		let (x, y) = (f(a), f(b));
		push(&mut r, c, &x, &y);
		push(&mut r, c, &x.as_ref(), &y.as_ref());
		r.push(("hash of references", json!(h(&x) == h(&x.as_ref())), json!(true)));
	} else {
		let f = |n: &[i64]| Quad(mk(n[0]), mk(n[1]), mk(n[2]), if n[3] == 0 { None } else { Some(mk(n[3])) });
		let (x, y) = (f(a), f(b));
		push(&mut r, c, &x, &y);
		push(&mut r, c, &x.as_ref(), &y.as_ref());
		r.push(("hash of references", json!(h(&x) == h(&x.as_ref())), json!(true)));
	}
	r
}
/// Owned against borrowed terms.
fn compare_forms(a: &[i64], b: &[i64], c: i64) -> Res {
	let ts: Vec<LocalTerm> = a.iter().map(|n| term(*n)).collect();
	let us: Vec<LocalTerm> = b.iter().map(|n| term(*n)).collect();
	let mut r: Res = Vec::new();
	if a.len() == 3 {
		let x: Triple<LocalTermRef> = Triple(ts[0].as_ref(), ts[1].as_ref(), ts[2].as_ref());
		let y: Triple<LocalTerm> = Triple(us[0].clone(), us[1].clone(), us[2].clone());
		r.push(("borrowed == owned", json!(x == y), json!(c == 0)));
		r.push(("borrowed partial_cmp owned", json!(sign(x.partial_cmp(&y))), json!(c)));
	} else {
		let x: Quad<LocalTermRef> = Quad(ts[0].as_ref(), ts[1].as_ref(), ts[2].as_ref(), if a[3] == 0 { None } else { Some(ts[3].as_ref()) });
		let y: Quad<LocalTerm> = Quad(us[0].clone(), us[1].clone(), us[2].clone(), if b[3] == 0 { None } else { Some(us[3].clone()) });
		r.push(("borrowed == owned", json!(x == y), json!(c == 0)));
		r.push(("borrowed partial_cmp owned", json!(sign(x.partial_cmp(&y))), json!(c)));
	}
	r
}
fn float(n: i64) -> f64 {
	if n == 9 {
		f64::NAN
	} else {
		n as f64
	}
}
fn compare_partial(a: &[i64], b: &[i64], c: i64, e: i64) -> Res {
	let mut r: Res = Vec::new();
	fn push<Y: PartialOrd>(r: &mut Res, c: i64, e: i64, a: &Y, b: &Y) {
		r.push(("partial_cmp", json!(sign(a.partial_cmp(b))), json!(c)));
		r.push(("==", json!(a == b), json!(e == 1)));
		r.push(("<", json!(a < b), json!(c == -1)));
		r.push((">=", json!(a >= b), json!(c == 0 || c == 1)));
	}
	if a.len() == 3 {
		let f = |n: &[i64]| Triple(float(n[0]), float(n[1]), float(n[2]));
		push(&mut r, c, e, &f(a), &f(b));
	} else {
		let f = |n: &[i64]| Quad(float(n[0]), float(n[1]), float(n[2]), if n[3] == 0 { None } else { Some(float(n[3])) });
		push(&mut r, c, e, &f(a), &f(b));
	}
	r
}

pub fn replay(args: &[String]) -> Out {
	let lines = read_lines(&args[0]);
	let lines = &lines;
	parallel(lines.len(), |range| {
		let mut out = Out::default();
		for i in range {
			let v = &lines[i];
			out.cases += 1;
			beat_case(|| v.to_string());
			let r = guarded(|| {
				let mut all: Vec<(&str, Res)> = Vec::new();
				match v["t"].as_str().unwrap() {
					"tuple" => {
						if ints(&v["x"]).len() == 3 {
							all.push(("u64", triple_ops(v, &|n| n as u64, &|n| *n as i64)));
							all.push(("String", triple_ops(v, &|n| n.to_string(), &|n| n.parse().unwrap())));
							all.push(("LocalTerm", triple_ops(v, &term, &untern)));
						} else {
							all.push(("u64", quad_ops(v, &|n| n as u64, &|n| *n as i64)));
							all.push(("String", quad_ops(v, &|n| n.to_string(), &|n| n.parse().unwrap())));
							all.push(("LocalTerm", quad_ops(v, &term, &untern)));
						}
						all.push(("mixed", mixed_ops(v)));
						all.push(("lexical", lexical_ops(v)));
					}
					"pair" => {
						let (a, b, c) = (ints(&v["a"]), ints(&v["b"]), v["c"].as_i64().unwrap());
						all.push(("u64", compare_all(&a, &b, c, &|n| n as u64)));
						all.push(("String", compare_all(&a, &b, c, &|n| format!("{n:06}"))));
						all.push(("LocalTerm", compare_all(&a, &b, c, &term)));
						all.push(("forms", compare_forms(&a, &b, c)));
					}
					_ => all.push(("f64", compare_partial(&ints(&v["a"]), &ints(&v["b"]), v["c"].as_i64().unwrap(), v["e"].as_i64().unwrap()))),
				}
				all
			});
			match r {
				Err(p) => out.fail(json!({"case": v, "panic": p})),
				Ok(all) => {
					for (ty, rs) in all {
						for (op, got, want) in rs {
							out.check(got == want, || json!({"components": ty, "operation": op, "case": v, "got": got, "specified": want}));
						}
					}
				}
			}
		}
		out
	})
}

/// record-tuple SEED PAIRS FILES PREFIX
pub fn record(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let pairs: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(104729) + f as u64 * 32452843 + 37);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			for _ in 0..(pairs + files - 1) / files {
				let k = 3 + rng.below(2);
				let m = *rng.pick(&[2usize, 4, 300]);
				let mut tuple = |rng: &mut Rng| -> Vec<i64> { (0..k).map(|i| if i == 3 { rng.below(m) as i64 } else { 1 + rng.below(m) as i64 }).collect() };
				let a = tuple(&mut rng);
				let mut b = tuple(&mut rng);
				let keep = rng.below(k + 1);
				b[..keep].copy_from_slice(&a[..keep]);
				beat_case(|| format!("{a:?} {b:?}"));
				out.cases += 1;
				let r = guarded(|| {
					let mut all = Vec::new();
					// recorded with no expectation: c is what was seen
					if k == 3 {
						let f = |n: &[i64]| Triple(term(n[0]), term(n[1]), term(n[2]));
						let (x, y) = (f(&a), f(&b));
						all.push((sign(Some(x.cmp(&y))), sign(x.partial_cmp(&y)), x == y, h(&x) == h(&y)));
						let (x, y) = (x.as_ref(), y.as_ref());
						all.push((sign(Some(x.cmp(&y))), sign(x.partial_cmp(&y)), x == y, h(&x) == h(&y)));
					} else {
						let f = |n: &[i64]| Quad(term(n[0]), term(n[1]), term(n[2]), if n[3] == 0 { None } else { Some(term(n[3])) });
						let (x, y) = (f(&a), f(&b));
						all.push((sign(Some(x.cmp(&y))), sign(x.partial_cmp(&y)), x == y, h(&x) == h(&y)));
						let (x, y) = (x.as_ref(), y.as_ref());
						all.push((sign(Some(x.cmp(&y))), sign(x.partial_cmp(&y)), x == y, h(&x) == h(&y)));
					}
					all
				});
				match r {
					Err(p) => out.fail(json!({"a": a, "b": b, "panic": p})),
					Ok(all) => {
						for (c, p, e, hh) in all {
							t.put(&json!({"e": "cmp", "a": a, "b": b, "c": c, "p": p, "q": e as u8, "h": hh as u8}));
						}
					}
				}
			}
			t.finish();
		}
		out
	})
}
