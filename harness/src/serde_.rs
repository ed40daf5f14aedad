//! Serialisation and deserialisation, recorded for the specification.
use crate::nquads::{cps, iri, random_string, text, T};
use crate::util::*;
use iref::IriBuf;
use rdf_types::dataset::*;
use rdf_types::pattern::ResourceOrVar;
use rdf_types::{BlankIdBuf, CowLiteral, Literal, LiteralType, LocalTerm, Quad, Term, Triple};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// The value as data; `fold`: with language tags in lower case (the crate's equality ignores case).
pub fn data_of(t: &LocalTerm, fold: bool) -> Value {
	match t {
		LocalTerm::Anonymous(b) => json!({"k": "b", "v": b.as_str()}),
		LocalTerm::Named(Term::Iri(i)) => json!({"k": "i", "v": i.as_str()}),
		LocalTerm::Named(Term::Literal(l)) => lit_data(l, fold),
	}
}
fn lit_data(l: &Literal, fold: bool) -> Value {
	json!({"k": "l", "v": l.value, "t": type_data(&l.type_, fold)})
}
fn type_data(t: &LiteralType, fold: bool) -> Value {
	match t {
		LiteralType::Any(i) => json!({"k": "d", "v": i.as_str()}),
		LiteralType::LangString(g) => json!({"k": "g", "v": if fold { g.as_str().to_ascii_lowercase() } else { g.as_str().to_string() }}),
	}
}
fn quad_data(q: &Quad<LocalTerm>, fold: bool) -> Value {
	json!([data_of(&q.0, fold), data_of(&q.1, fold), data_of(&q.2, fold), q.3.as_ref().map(|g| data_of(g, fold)).unwrap_or(json!({"k": "none"}))])
}
fn triple_data(q: &Triple<LocalTerm>, fold: bool) -> Value {
	json!([data_of(&q.0, fold), data_of(&q.1, fold), data_of(&q.2, fold)])
}
fn err() -> Value {
	json!({"k": "refused"})
}

/// A value inside a user's type; reading it goes through serde's buffered content.
#[derive(serde::Deserialize)]
#[serde(untagged)]
enum Inside<X> {
	Value(X),
	#[allow(dead_code)]
	Other { never: u8 },
}
#[derive(serde::Serialize, serde::Deserialize)]
struct Outer<X> {
	#[serde(flatten)]
	inner: Field<X>,
}
#[derive(serde::Serialize, serde::Deserialize)]
struct Field<X> {
	x: X,
}

/// Every route of writing x and reading it back; all must agree.
fn routes<X: Serialize + DeserializeOwned>(out: &mut Out, ty: &str, x: &X, data: impl Fn(&X) -> Value) -> (String, Value) {
	let j = serde_json::to_string(x).unwrap_or_else(|e| format!("not written: {e}"));
	let back = |r: Result<X, serde_json::Error>| r.map(|y| data(&y)).unwrap_or_else(|_| err());
	let b = back(serde_json::from_str(&j));
	let v = serde_json::to_value(x).unwrap_or(Value::Null);
	let all = [
		("from_slice", back(serde_json::from_slice(j.as_bytes()))),
		("from_reader", back(serde_json::from_reader(j.as_bytes()))),
		("from_value", back(serde_json::from_value(v.clone()))),
		("pretty", back(serde_json::from_str(&serde_json::to_string_pretty(x).unwrap_or_default()))),
		("untagged", back(serde_json::from_str::<Inside<X>>(&j).and_then(|w| match w {
			Inside::Value(y) => Ok(y),
			_ => serde_json::from_str("?"),
		}))),
		("flattened", back(serde_json::from_str::<Outer<X>>(&serde_json::to_string(&Outer { inner: Field { x } }).unwrap_or_default()).map(|w| w.inner.x))),
		("escaped", back(serde_json::from_str(&escape_all(&j)))),
	];
	for (n, y) in all {
		out.check(y == b, || json!({"type": ty, "text": j, "route": n, "gives": y, "from_str gives": b}));
	}
	(j, b)
}
/// The same JSON with every character of every string escaped.
pub fn escape_all(j: &str) -> String {
	fn go(v: &Value, o: &mut String) {
		match v {
			Value::String(s) => esc(s, o),
			Value::Array(a) => {
				o.push('[');
				for (i, x) in a.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					go(x, o);
				}
				o.push(']');
			}
			Value::Object(m) => {
				o.push('{');
				for (i, (k, x)) in m.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					o.push_str(&serde_json::to_string(k).unwrap());
					o.push(':');
					go(x, o);
				}
				o.push('}');
			}
			v => o.push_str(&v.to_string()),
		}
	}
	fn esc(s: &str, o: &mut String) {
		o.push('"');
		for u in s.encode_utf16() {
			o.push_str(&format!("\\u{u:04x}"));
		}
		o.push('"');
	}
	let mut o = String::new();
	match serde_json::from_str::<Value>(j) {
		Ok(v) => go(&v, &mut o),
		Err(_) => return j.to_string(),
	}
	o
}

fn put<X: Serialize + DeserializeOwned>(out: &mut Out, t: &mut TraceOut, ty: &str, x: &X, data: impl Fn(&X, bool) -> Value) {
	out.cases += 1;
	beat_case(|| format!("{ty} {}", data(x, false)));
	match guarded(|| {
		let mut o = Out::default();
		let r = routes(&mut o, ty, x, |x| data(x, true));
		(o, r)
	}) {
		Err(p) => out.fail(json!({"type": ty, "value": data(x, false), "panic": p})),
		Ok((o, (j, b))) => {
			out.merge(o);
			t.put(&json!({"e": "val", "ty": ty, "x": data(x, false), "n": data(x, true), "j": j, "b": b}));
		}
	}
}
fn form<X: Serialize>(out: &mut Out, t: &mut TraceOut, ty: &str, x: Value, name: &str, v: &X) {
	match guarded(|| serde_json::to_string(v).unwrap_or_else(|e| format!("not written: {e}"))) {
		Err(p) => out.fail(json!({"type": ty, "value": x, "form": name, "panic": p})),
		Ok(j) => {
			out.checks += 1;
			t.put(&json!({"e": "form", "ty": ty, "x": x, "form": name, "j": j}));
		}
	}
}

fn put_term(out: &mut Out, t: &mut TraceOut, x: &T) {
	let real = x.real();
	put(out, t, "LocalTerm", &real, |x, f| data_of(x, f));
	form(out, t, "LocalTerm", data_of(&real, false), "&LocalTerm", &&real);
	put(out, t, "Option<LocalTerm>", &Some(real.clone()), |x, f| x.as_ref().map(|x| data_of(x, f)).unwrap_or(json!({"k": "none"})));
	match &real {
		LocalTerm::Anonymous(b) => put(out, t, "BlankIdBuf", b, |x, _| json!({"k": "b", "v": x.as_str()})),
		LocalTerm::Named(n) => {
			put(out, t, "Term", n, |x, f| data_of(&LocalTerm::Named(x.clone()), f));
			if let Term::Literal(l) = n {
				put(out, t, "Literal", l, lit_data);
				put(out, t, "LiteralType", &l.type_, type_data);
				let d = lit_data(l, false);
				form(out, t, "Literal", d.clone(), "LiteralRef", &Literal::as_ref(l));
				form(out, t, "Literal", d.clone(), "CowLiteral borrowed", &l.as_cow());
				form(out, t, "Literal", d.clone(), "CowLiteral owned", &l.clone().into_cow());
				form(out, t, "Literal", d, "CowLiteral from reference", &CowLiteral::from(l));
				let d = type_data(&l.type_, false);
				form(out, t, "LiteralType", d.clone(), "LiteralTypeRef", &l.type_.as_ref());
				form(out, t, "LiteralType", d.clone(), "CowLiteralType borrowed", &l.type_.as_cow());
				form(out, t, "LiteralType", d, "CowLiteralType owned", &l.type_.clone().into_cow());
			}
		}
	}
	let rv: ResourceOrVar<LocalTerm, u32> = ResourceOrVar::Resource(real.clone());
	put(out, t, "ResourceOrVar", &rv, |x, f| match x {
		ResourceOrVar::Resource(r) => json!({"k": "r", "v": data_of(r, f)}),
		ResourceOrVar::Var(n) => json!({"k": "v", "v": n}),
	});
}
fn put_stmt(out: &mut Out, t: &mut TraceOut, xs: &[T]) {
	let r: Vec<LocalTerm> = xs.iter().map(|x| x.real()).collect();
	let q = Quad(r[0].clone(), r[1].clone(), r[2].clone(), r.get(3).cloned());
	put(out, t, "Quad", &q, quad_data);
	form(out, t, "Quad", quad_data(&q, false), "Quad of references", &q.as_ref());
	if r.len() == 3 {
		let tr = Triple(r[0].clone(), r[1].clone(), r[2].clone());
		put(out, t, "Triple", &tr, triple_data);
		form(out, t, "Triple", triple_data(&tr, false), "Triple of references", &tr.as_ref());
	}
	if let (LocalTerm::Anonymous(b), LocalTerm::Named(Term::Iri(p))) = (&r[0], &r[1]) {
		let q: Quad<BlankIdBuf, IriBuf, LocalTerm, LocalTerm> = Quad(b.clone(), p.clone(), r[2].clone(), r.get(3).cloned());
		put(out, t, "Quad of specific types", &q, |x, f| quad_data(&Quad(LocalTerm::Anonymous(x.0.clone()), LocalTerm::Named(Term::Iri(x.1.clone())), x.2.clone(), x.3.clone()), f));
	}
}
fn put_doc(out: &mut Out, t: &mut TraceOut, doc: &[Vec<T>], rng: &mut Rng) {
	out.cases += 1;
	beat_case(|| format!("{doc:?}"));
	let quads: Vec<Quad<LocalTerm>> = doc.iter().map(|xs| Quad(xs[0].real(), xs[1].real(), xs[2].real(), xs.get(3).map(|x| x.real()))).collect();
	let triples: Vec<Triple<LocalTerm>> = quads.iter().map(|q| Triple(q.0.clone(), q.1.clone(), q.2.clone())).collect();
	// a removed element leaves a free slot behind
	let gap = if quads.len() > 1 && rng.chance(1, 2) { Some(rng.below(quads.len())) } else { None };
	macro_rules! container {
		($name:expr, $ty:ty, $items:expr, $data:expr) => {{
			let items = $items;
			let r = guarded(|| {
				let mut c: $ty = items.iter().cloned().collect();
				if let Some(i) = gap {
					c.remove(items[i].as_ref());
				}
				let mut o = Out::default();
				let (_, b) = routes(&mut o, $name, &c, |c: &$ty| Value::Array(c.iter().map(|q| $data(&q.cloned(), true)).collect()));
				// equal by the container's own equality
				let again: Option<$ty> = serde_json::from_str(&serde_json::to_string(&c).unwrap_or_default()).ok();
				o.check(again.as_ref() == Some(&c), || json!({"container": $name, "content": format!("{doc:?}"), "problem": "not equal after a round trip"}));
				// the same statements in another order, some of them twice
				let mut many: Vec<Value> = items.iter().enumerate().filter(|(i, _)| Some(*i) != gap).map(|(_, q)| serde_json::to_value(q).unwrap()).collect();
				for i in 0..many.len() {
					if rng.chance(1, 3) {
						many.push(many[i].clone());
					}
				}
				for i in (1..many.len()).rev() {
					many.swap(i, rng.below(i + 1));
				}
				let many: Option<$ty> = serde_json::from_value(Value::Array(many)).ok();
				o.check(many.as_ref() == Some(&c), || json!({"container": $name, "content": format!("{doc:?}"), "problem": "read from a list in another order or with repeats it differs"}));
				(o, b)
			});
			let want: Vec<Value> = items.iter().enumerate().filter(|(i, _)| Some(*i) != gap).map(|(_, q)| $data(q, true)).collect();
			match r {
				Err(p) => out.fail(json!({"container": $name, "content": want, "panic": p})),
				Ok((o, b)) => {
					out.merge(o);
					if b.is_array() {
						t.put(&json!({"e": "set", "ty": $name, "n": want, "b": b}));
					} else {
						out.fail(json!({"container": $name, "content": want, "problem": "written form refused"}));
					}
				}
			}
		}};
	}
	container!("BTreeDataset", BTreeDataset, &quads, quad_data);
	container!("IndexedBTreeDataset", IndexedBTreeDataset, &quads, quad_data);
	if doc.iter().all(|x| x.len() == 3) {
		container!("BTreeGraph", BTreeGraph, &triples, triple_data);
		container!("IndexedBTreeGraph", IndexedBTreeGraph, &triples, triple_data);
	}
}

fn all_equal<X: PartialEq + Clone>(v: &[X]) -> Option<X> {
	if v.iter().all(|x| *x == v[0]) {
		Some(v[0].clone())
	} else {
		None
	}
}
/// Reads a bare text as each type of term.
fn put_text(out: &mut Out, t: &mut TraceOut, s: &str) {
	out.cases += 1;
	beat_case(|| format!("{s:?}"));
	let is_iri = IriBuf::new(s.to_string()).is_ok();
	let j = serde_json::to_string(s).unwrap();
	let res = guarded(|| {
		fn read<X: DeserializeOwned>(j: &str) -> Vec<Option<X>> {
			vec![serde_json::from_str(j).ok(), serde_json::from_reader(j.as_bytes()).ok(), serde_json::from_value(serde_json::from_str(j).unwrap()).ok(), serde_json::from_str(&escape_all(j)).ok()]
		}
		let kind = |x: &Option<LocalTerm>| match x {
			None => ("no", String::new()),
			Some(LocalTerm::Anonymous(b)) => ("b", b.as_str().to_string()),
			Some(LocalTerm::Named(Term::Iri(i))) => ("i", i.as_str().to_string()),
			Some(LocalTerm::Named(Term::Literal(l))) => ("l", l.value.clone()),
		};
		let mut v = vec![
			("local", all_equal(&read::<LocalTerm>(&j).iter().map(kind).collect::<Vec<_>>())),
			("named", all_equal(&read::<Term>(&j).into_iter().map(|x| kind(&x.map(LocalTerm::Named))).collect::<Vec<_>>())),
			("blank", all_equal(&read::<BlankIdBuf>(&j).into_iter().map(|x| kind(&x.map(LocalTerm::Anonymous))).collect::<Vec<_>>())),
		];
		// the text in place of the datatype of a literal
		let l = Literal::new("x", LiteralType::Any(iri("urn:marker")));
		let mut w = serde_json::to_value(&l).unwrap_or(Value::Null);
		if swap(&mut w, "urn:marker", s) == 1 {
			let w = w.to_string();
			v.push(("datatype", all_equal(&read::<Literal>(&w).into_iter().map(|x| match x {
				Some(Literal { type_: LiteralType::Any(i), .. }) => ("i", i.as_str().to_string()),
				Some(_) => ("g", String::new()),
				None => ("no", String::new()),
			}).collect::<Vec<_>>())));
		}
		v
	});
	match res {
		Err(p) => out.fail(json!({"text": s, "panic": p})),
		Ok(v) => {
			for (ty, r) in v {
				out.check(r.is_some(), || json!({"text": s, "read as": ty, "problem": "depends on how it is read"}));
				if let Some((k, v)) = r {
					t.put(&json!({"e": "text", "ty": ty, "s": cps(s), "iri": is_iri as u8, "k": k, "v": cps(&v)}));
				}
			}
		}
	}
}
fn swap(v: &mut Value, from: &str, to: &str) -> usize {
	match v {
		Value::String(s) if s == from => {
			*s = to.to_string();
			1
		}
		Value::Array(a) => a.iter_mut().map(|x| swap(x, from, to)).sum(),
		Value::Object(m) => m.values_mut().map(|x| swap(x, from, to)).sum(),
		_ => 0,
	}
}

/// record-serde VECTORS SEED DOCS FILES PREFIX
pub fn record(args: &[String]) -> Out {
	let lines = read_lines(&args[0]);
	let seed: u64 = args[1].parse().unwrap();
	let docs: usize = args[2].parse().unwrap();
	let files: usize = args[3].parse().unwrap();
	let prefix = &args[4];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(7919) + f as u64 * 15485863 + 31);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			let mut n = 0;
			for (i, l) in lines.iter().enumerate() {
				if i % files != f {
					continue;
				}
				if n % 60 == 0 {
					t.put(&json!({"e": "reset"}));
				}
				n += 1;
				match l["t"].as_str().unwrap() {
					"term" => put_term(&mut out, &mut t, &T::parse(&l["x"])),
					"text" => put_text(&mut out, &mut t, &text(&ints(&l["s"]))),
					_ => {
						let xs = l["x"].as_array().unwrap().iter().map(T::parse).collect::<Vec<_>>();
						put_stmt(&mut out, &mut t, &xs);
						put_doc(&mut out, &mut t, &[xs.clone()], &mut rng);
					}
				}
			}
			for _ in 0..(docs + files - 1) / files {
				t.put(&json!({"e": "reset"}));
				let pool = crate::nquads::random_pool(&mut rng);
				for x in &pool {
					put_term(&mut out, &mut t, x);
				}
				let mut doc: Vec<Vec<T>> = Vec::new();
				let only_triples = rng.chance(1, 2);
				for _ in 0..if rng.chance(1, 40) { 40 + rng.below(260) } else { rng.below(9) } {
					let n = if only_triples || rng.chance(1, 2) { 3 } else { 4 };
					let st: Vec<T> = (0..n).map(|_| rng.pick(&pool).clone()).collect();
					put_stmt(&mut out, &mut t, &st);
					if !doc.iter().any(|x| crate::nquads::same(x, &st)) {
						doc.push(st);
					}
				}
				put_doc(&mut out, &mut t, &doc, &mut rng);
				let s = match rng.below(4) {
					0 => random_string(&mut rng, 12),
					1 => format!("_:{}", random_string(&mut rng, 8)),
					2 => format!("http:{}", random_string(&mut rng, 8)),
					_ => match rng.pick(&pool) {
						T::I(s) | T::B(s) => s.clone(),
						T::L(v, _) | T::G(v, _) => v.clone(),
					},
				};
				put_text(&mut out, &mut t, &s);
			}
			t.finish();
		}
		out
	})
}
