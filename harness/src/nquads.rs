//! Renderings, recorded for the reader of the specification.
use crate::util::*;
use contextual::WithContext;
use iref::{IriBuf, IriRefBuf};
use langtag::LangTagBuf;
use rdf_types::dataset::*;
use rdf_types::{BlankIdBuf, Literal, LiteralType, LocalTerm, Quad, RdfDisplay, Term, Triple};
use serde_json::{json, Value};

pub fn text(cs: &[i64]) -> String {
	cs.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect()
}
pub fn cps(s: &str) -> Vec<i64> {
	s.chars().map(|c| c as i64).collect()
}

/// A term as data, independent of the crate's types.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum T {
	I(String),
	B(String),
	L(String, String),
	G(String, String),
}
pub const XSD_STRING: &str = "http://www.w3.org/2001/XMLSchema#string";
impl T {
	pub fn parse(v: &Value) -> T {
		let s = |k: &str| text(&ints(&v[k]));
		match v["k"].as_str().unwrap() {
			"i" => T::I(s("v")),
			"b" => T::B(s("v")),
			_ if !ints(&v["g"]).is_empty() => T::G(s("v"), s("g")),
			_ => T::L(s("v"), s("d")),
		}
	}
	pub fn json(&self) -> Value {
		match self {
			T::I(v) => json!({"k": "i", "v": cps(v), "d": [], "g": []}),
			T::B(v) => json!({"k": "b", "v": cps(v), "d": [], "g": []}),
			T::L(v, d) => json!({"k": "l", "v": cps(v), "d": cps(d), "g": []}),
			T::G(v, g) => json!({"k": "l", "v": cps(v), "d": [], "g": cps(g)}),
		}
	}
	pub fn real(&self) -> LocalTerm {
		match self {
			T::I(v) => LocalTerm::Named(Term::Iri(iri(v))),
			T::B(v) => LocalTerm::Anonymous(BlankIdBuf::new(v.clone()).unwrap_or_else(|_| tool_error(&format!("label {v}")))),
			T::L(v, d) => LocalTerm::Named(Term::Literal(Literal::new(v.clone(), LiteralType::Any(iri(d))))),
			T::G(v, g) => LocalTerm::Named(Term::Literal(Literal::new(v.clone(), LiteralType::LangString(LangTagBuf::new(g.clone()).unwrap_or_else(|_| tool_error(&format!("tag {g}"))))))),
		}
	}
}
pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_string()).unwrap_or_else(|_| tool_error(&format!("iri {s}")))
}

/// All renderings of a term that must coincide, by name.
fn term_renderings(t: &LocalTerm) -> Vec<(&'static str, String)> {
	let mut v = vec![("LocalTerm", t.rdf_display().to_string()), ("&LocalTerm", (&t).rdf_display().to_string()), ("&&LocalTerm", format!("{}", (&&t).rdf_display()))];
	// a width may surround the text with spaces and must leave it alone otherwise
	let d = t.rdf_display();
	for (n, s) in [("to the right", format!("{d:>17}")), ("to the left", format!("{d:<9}")), ("centred", format!("{d:^40}")), ("of width 1", format!("{d:1}")), ("alternate", format!("{d:#}")), ("signed", format!("{d:+}"))] {
		v.push((n, s.trim_matches(' ').to_string()));
	}
	match t {
		LocalTerm::Anonymous(b) => {
			v.push(("BlankIdBuf", b.rdf_display().to_string()));
			v.push(("BlankId", (**b).rdf_display().to_string()));
			v.push(("BlankIdBuf Display", b.to_string()));
			v.push(("BlankId Display", (**b).to_string()));
			v.push(("LocalTerm Display", t.to_string()));
		}
		LocalTerm::Named(n) => {
			v.push(("Term", n.rdf_display().to_string()));
			match n {
				Term::Iri(i) => {
					v.push(("IriBuf", i.rdf_display().to_string()));
					v.push(("Iri", i.as_iri().rdf_display().to_string()));
					v.push(("IriRef", i.as_iri_ref().rdf_display().to_string()));
					let r: IriRefBuf = i.clone().into();
					v.push(("IriRefBuf", r.rdf_display().to_string()));
					v.push(("Iri with context", i.as_iri().with(&()).rdf_display().to_string()));
					v.push(("IriBuf with context", i.with(&()).rdf_display().to_string()));
					v.push(("IriBuf with mutable context", i.with(&mut ()).rdf_display().to_string()));
					v.push(("IriRefBuf with context", r.with(&()).rdf_display().to_string()));
				}
				Term::Literal(l) => {
					v.push(("Literal", l.rdf_display().to_string()));
					v.push(("Literal Display", l.to_string()));
					v.push(("Term Display", n.to_string()));
					v.push(("LocalTerm Display", t.to_string()));
					v.push(("LiteralRef", Literal::as_ref(l).rdf_display().to_string()));
					v.push(("LiteralRef Display", Literal::as_ref(l).to_string()));
				}
			}
		}
	}
	v
}
fn tag_renderings(t: &LocalTerm) -> Vec<(&'static str, String)> {
	let mut v = Vec::new();
	if let LocalTerm::Named(Term::Literal(l)) = t {
		if let LiteralType::LangString(g) = &l.type_ {
			v.push(("LangTagBuf", g.rdf_display().to_string()));
			v.push(("LangTag", g.as_lang_tag().rdf_display().to_string()));
			v.push(("LangTagBuf with context", g.with(&()).rdf_display().to_string()));
			v.push(("LangTag with context", g.as_lang_tag().with(&()).rdf_display().to_string()));
		}
	}
	v
}
fn agree(out: &mut Out, what: &Value, v: &[(&'static str, String)]) {
	for (n, s) in v {
		out.check(*s == v[0].1, || json!({"rendered": what, v[0].0: v[0].1, *n: s}));
	}
}

fn put_term(out: &mut Out, t: &mut TraceOut, seen: &mut std::collections::HashSet<String>, x: &T) {
	beat_case(|| format!("{x:?}"));
	out.cases += 1;
	let r = guarded(|| {
		let real = x.real();
		let v = term_renderings(&real);
		let g = tag_renderings(&real);
		let ty = match &real {
			LocalTerm::Named(Term::Literal(l)) => vec![("LiteralType", l.type_.rdf_display().to_string()), ("LiteralTypeRef", l.type_.as_ref().rdf_display().to_string())],
			_ => vec![],
		};
		let s = match &real {
			LocalTerm::Named(Term::Literal(l)) => vec![("String", l.value.rdf_display().to_string()), ("str", l.value.as_str().rdf_display().to_string())],
			_ => vec![],
		};
		(v, g, ty, s)
	});
	match r {
		Err(p) => out.fail(json!({"rendered": format!("{x:?}"), "panic": p})),
		Ok((v, g, ty, s)) => {
			let what = json!(format!("{x:?}"));
			agree(out, &what, &v);
			agree(out, &what, &g);
			agree(out, &what, &ty);
			agree(out, &what, &s);
			t.put(&json!({"e": "term", "x": x.json(), "s": cps(&v[0].1)}));
			if let T::G(_, g0) = x {
				out.check(g[0].1 == *g0, || json!({"tag": g0, "rendered": g[0].1}));
			}
			if let T::I(i) = x {
				t.put(&json!({"e": "iri", "v": cps(i), "s": cps(&v.iter().find(|x| x.0 == "Iri").unwrap().1)}));
			}
			if let Some(s0) = s.first() {
				let val = match x {
					T::L(v, _) | T::G(v, _) => v.clone(),
					_ => String::new(),
				};
				// (the same text as that of the plain literal is read already)
				if s0.1 != v[0].1 {
					t.put(&json!({"e": "string", "v": cps(&val), "s": cps(&s0.1)}));
				}
			}
			if let Some(ty0) = ty.first() {
				let e = match x {
					T::L(_, d) => T::L(String::new(), d.clone()),
					T::G(_, g) => T::G(String::new(), g.clone()),
					x => x.clone(),
				};
				let n = json!({"e": "type", "x": e.json(), "s": cps(&ty0.1)});
				if seen.insert(n.to_string()) {
					t.put(&n);
				}
			}
		}
	}
}

fn put_stmt(out: &mut Out, t: &mut TraceOut, xs: &[T]) {
	beat_case(|| format!("{xs:?}"));
	out.cases += 1;
	let what = json!(format!("{xs:?}"));
	let r = guarded(|| {
		let r: Vec<LocalTerm> = xs.iter().map(|x| x.real()).collect();
		let q = Quad(r[0].clone(), r[1].clone(), r[2].clone(), r.get(3).cloned());
		let mut v = vec![("Quad", q.rdf_display().to_string()), ("Quad Display", q.to_string()), ("Quad of references", q.as_ref().rdf_display().to_string()), ("Quad of references Display", q.as_ref().to_string())];
		if r.len() == 3 {
			let t = Triple(r[0].clone(), r[1].clone(), r[2].clone());
			v.extend([("Triple", t.rdf_display().to_string()), ("Triple Display", t.to_string()), ("Triple of references", t.as_ref().rdf_display().to_string()), ("Triple of references Display", t.as_ref().to_string())]);
		}
		// with the most specific type at each position
		if let (LocalTerm::Anonymous(b), LocalTerm::Named(Term::Iri(p)), LocalTerm::Named(Term::Literal(o))) = (&r[0], &r[1], &r[2]) {
			let q: Quad<&BlankIdBuf, &IriBuf, &Literal, &LocalTerm> = Quad(b, p, o, r.get(3));
			v.push(("Quad of specific types", q.rdf_display().to_string()));
			if r.len() == 3 {
				v.push(("Triple of specific types", Triple(b, p, Literal::as_ref(o)).rdf_display().to_string()));
			}
		}
		v
	});
	match r {
		Err(p) => out.fail(json!({"rendered": what, "panic": p})),
		Ok(v) => {
			// Quad and Triple need not be laid out alike, so each is read
			for (n, s) in &v {
				out.checks += 1;
				if n.starts_with("Quad") && !n.contains("Display") || *n == "Triple" || *s != v[0].1 {
					t.put(&json!({"e": "stmt", "x": xs.iter().map(|x| x.json()).collect::<Vec<_>>(), "s": cps(s), "of": n}));
				}
			}
		}
	}
}

fn put_doc(out: &mut Out, t: &mut TraceOut, doc: &[Vec<T>], rng: &mut Rng) {
	beat_case(|| format!("{doc:?}"));
	out.cases += 1;
	let kind = rng.below(4);
	let r = guarded(|| {
		let quads: Vec<Quad<LocalTerm>> = doc.iter().map(|xs| Quad(xs[0].real(), xs[1].real(), xs[2].real(), xs.get(3).map(|x| x.real()))).collect();
		let triples = || quads.iter().map(|q| Triple(q.0.clone(), q.1.clone(), q.2.clone()));
		let graphs = doc.iter().all(|x| x.len() == 3);
		match kind {
			2 if graphs => triples().collect::<BTreeGraph>().rdf_display().to_string(),
			3 if graphs => triples().collect::<IndexedBTreeGraph>().rdf_display().to_string(),
			0 | 2 => quads.iter().cloned().collect::<BTreeDataset>().rdf_display().to_string(),
			_ => quads.iter().cloned().collect::<IndexedBTreeDataset>().rdf_display().to_string(),
		}
	});
	match r {
		Err(p) => out.fail(json!({"rendered": format!("{doc:?}"), "panic": p})),
		Ok(s) => t.put(&json!({"e": "doc", "x": doc.iter().map(|xs| xs.iter().map(|x| x.json()).collect::<Vec<_>>()).collect::<Vec<_>>(), "s": cps(&s)})),
	}
}

pub fn random_string(rng: &mut Rng, max: usize) -> String {
	let n = if rng.chance(1, 40) { rng.below(max * 12) } else { rng.below(max) };
	let mut s: String = (0..n)
		.map(|_| match rng.below(14) {
			0 => *rng.pick(&['"', '\\', '\n', '\r', '\t', '\'', '\u{8}', '\u{c}']),
			1 => *rng.pick(&['n', 'r', 't', 'u', 'U', '0', '<', '>', '@', '^', '.', ' ', '_', ':']),
			2 => char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{fffd}'),
			3 => char::from_u32(rng.below(0x300) as u32).unwrap(),
			4 => (b'A' + rng.below(26) as u8) as char,
			5 => (b'0' + rng.below(10) as u8) as char,
			_ => (b'a' + rng.below(26) as u8) as char,
		})
		.collect();
	if rng.chance(1, 12) {
		s.insert(0, *rng.pick(&[' ', '\t', '\n', '\u{feff}', '\u{a0}', '"', '\\', '0']));
	}
	if rng.chance(1, 12) {
		s.push(*rng.pick(&[' ', '\t', '\n', '\r', '\u{a0}', '"', '\\', '\0']));
	}
	s
}
pub fn random_iri(rng: &mut Rng) -> String {
	let iris = ["http://example.org/", "http://example.org/a%20b", "urn:x:y", "http://example.org/é?q=1#f", "http://a/b;c=d,e(f)'g'", "mailto:a@b", "http://[::1]:80/", "x:", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString", "http://www.w3.org/2001/XMLSchema#strings", "http://www.w3.org/2001/XMLSchema#", "http://www.w3.org/2001/XMLSchema#String", "HTTP://Example.ORG/", "http://example.org", "http://example.org/a%2fb", "http://example.org/a%2Fb", "http://example.org/./a/../b"];
	if rng.chance(2, 3) {
		return rng.pick(&iris).to_string();
	}
	let mut s = rng.pick(&["http://h/", "urn:", "x+y.z-1:", "HTTPS://U@H:1/", "file:///"]).to_string();
	let long = rng.chance(1, 20);
	for _ in 0..rng.below(if long { 300 } else { 12 }) {
		match rng.below(8) {
			0 => s.push((b'A' + rng.below(26) as u8) as char),
			1 => s.push((b'0' + rng.below(10) as u8) as char),
			2 => s.push(*rng.pick(&['-', '.', '_', '~', '!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '=', ':', '@'])),
			3 => s.push(*rng.pick(&['é', 'É', '漢', '𐀀', '\u{a0}', 'ß'])),
			4 => s.push_str(*rng.pick(&["%41", "%C3%A9", "%c3%a9", "%00"])),
			_ => s.push((b'a' + rng.below(26) as u8) as char),
		}
	}
	match rng.below(6) {
		0 => s.push_str("?q=a/b?"),
		1 => s.push_str("#F/g?"),
		2 => s.push_str("?#"),
		_ => (),
	}
	if IriBuf::new(s.clone()).is_err() {
		tool_error(&format!("iri {s}"));
	}
	s
}
pub fn random_label(rng: &mut Rng) -> String {
	let labels = ["_:a", "_:0", "_:a.b", "_:a..b", "_:_", "_::", "_:a-", "_:é", "_:a·b", "_:x.y-z_0", "_:A", "_:aB", "_:B.", "_:É"];
	if rng.chance(2, 3) {
		return rng.pick(&labels).trim_end_matches('.').to_string();
	}
	let mut s = "_:".to_string();
	let long = rng.chance(1, 20);
	for _ in 0..1 + rng.below(if long { 200 } else { 9 }) {
		match rng.below(6) {
			0 => s.push((b'A' + rng.below(26) as u8) as char),
			1 => s.push((b'0' + rng.below(10) as u8) as char),
			2 if s.len() > 2 => s.push(*rng.pick(&['-', '.', '·', '\u{300}', '\u{2040}'])),
			3 => s.push(*rng.pick(&['_', ':', 'é', 'É', '漢', '𐀀'])),
			_ => s.push((b'a' + rng.below(26) as u8) as char),
		}
	}
	while s.ends_with('.') {
		s.pop();
	}
	s
}
pub fn random_tag(rng: &mut Rng) -> String {
	rng.pick(&["en", "en-US", "EN", "zh-Hant-TW", "de-CH-1996", "x-private", "i-klingon", "sl-rozaj", "FR-ca", "az-Arab-x-AZE-derbend", "cmn-Hans-CN", "en-a-bbb"]).to_string()
}
pub fn random_term(rng: &mut Rng) -> T {
	match rng.below(5) {
		0 => T::I(random_iri(rng)),
		1 => T::B(random_label(rng)),
		2 => T::L(random_string(rng, 30), XSD_STRING.to_string()),
		3 => T::L(random_string(rng, 12), random_iri(rng)),
		_ => T::G(random_string(rng, 12), random_tag(rng)),
	}
}

/// A few terms, no two of them equal: a container may keep either of two equal ones.
pub fn random_pool(rng: &mut Rng) -> Vec<T> {
	let mut pool: Vec<T> = Vec::new();
	for _ in 0..1 + rng.below(6) {
		let x = random_term(rng);
		if !pool.iter().any(|y| same(&[x.clone()], &[y.clone()])) {
			pool.push(x);
		}
	}
	pool
}

/// record-nquads VECTORS SEED DOCS FILES PREFIX LIMIT
pub fn record(args: &[String]) -> Out {
	let lines = read_lines(&args[0]);
	let seed: u64 = args[1].parse().unwrap();
	let docs: usize = args[2].parse().unwrap();
	let files: usize = args[3].parse().unwrap();
	let prefix = &args[4];
	let limit: u32 = args[5].parse().unwrap();
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(2477) + f as u64 * 86028121 + 29);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			let mut seen = std::collections::HashSet::new();
			for (i, l) in lines.iter().enumerate() {
				if i % files != f {
					continue;
				}
				if l["t"] == "term" {
					put_term(&mut out, &mut t, &mut seen, &T::parse(&l["x"]));
				} else {
					put_stmt(&mut out, &mut t, &l["x"].as_array().unwrap().iter().map(T::parse).collect::<Vec<_>>());
				}
			}
			// every code point below the limit, in strings of 100
			let mut c = f as u32 * 100;
			while c < limit {
				let s: String = (c..(c + 100).min(limit)).filter_map(char::from_u32).collect();
				put_term(&mut out, &mut t, &mut seen, &T::L(s, XSD_STRING.to_string()));
				c += 100 * files as u32;
			}
			// and around the ends of every plane
			for plane in (0..17u32).filter(|p| *p as usize % files == f) {
				for start in [plane << 16, (plane << 16) + 0xff80] {
					put_term(&mut out, &mut t, &mut seen, &T::L((start..start + 128).filter_map(char::from_u32).collect(), XSD_STRING.to_string()));
				}
			}
			for _ in 0..(docs + files - 1) / files {
				let pool = random_pool(&mut rng);
				for x in &pool {
					put_term(&mut out, &mut t, &mut seen, x);
				}
				let mut doc: Vec<Vec<T>> = Vec::new();
				let only_triples = rng.chance(1, 2);
				for _ in 0..if rng.chance(1, 60) { 20 + rng.below(60) } else { rng.below(7) } {
					let n = if only_triples || rng.chance(1, 2) { 3 } else { 4 };
					let st: Vec<T> = (0..n).map(|_| rng.pick(&pool).clone()).collect();
					if !doc.iter().any(|x| same(x, &st)) {
						doc.push(st);
					}
				}
				put_doc(&mut out, &mut t, &doc, &mut rng);
			}
			t.finish();
		}
		out
	})
}
/// Equal as the text types have it, which ignore the case of language tags and the
/// ways of escaping IRIs.
pub fn same(a: &[T], b: &[T]) -> bool {
	a.len() == b.len()
		&& a.iter().zip(b).all(|(x, y)| match (x, y) {
			(T::G(v, g), T::G(w, h)) => v == w && g.eq_ignore_ascii_case(h),
			(T::L(v, d), T::L(w, e)) => v == w && iri(d) == iri(e),
			(T::I(i), T::I(j)) => iri(i) == iri(j),
			(x, y) => x == y,
		})
}
