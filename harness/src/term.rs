//! Terms in all their forms: accessors against the specification, comparisons recorded.
use crate::nquads::{iri, random_string, random_term, T, XSD_STRING};
use crate::util::*;
use equivalent::Equivalent;
use iref::{Iri, IriBuf};
use langtag::{LangTag, LangTagBuf};
use rdf_types::*;
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// Texts for the numbers of the specification.
const IRIS: [&str; 4] = ["", "http://e.org/a", "http://e.org/b", "urn:c"];
const TAGS: [&str; 4] = ["", "en", "EN", "fr-CH"];
const BLANKS: [&str; 4] = ["", "_:a", "_:b", "_:0"];
const VALUES: [&str; 4] = ["", "http://e.org/a", "_:a", "en \"x\"\n"];
fn iri_of(n: i64) -> &'static str {
	if n == 9 {
		XSD_STRING
	} else {
		IRIS[n as usize]
	}
}
fn num(table: &[&str], s: &str) -> i64 {
	if s == XSD_STRING {
		9
	} else {
		table.iter().position(|x| *x == s).map(|i| i as i64).unwrap_or(-1)
	}
}
fn jb(b: &BlankId) -> Value {
	json!(["b", num(&BLANKS, b.as_str())])
}
fn ji(i: &Iri) -> Value {
	json!(["i", num(&IRIS, i.as_str())])
}
fn jt(t: LiteralTypeRef) -> Value {
	match t {
		LiteralTypeRef::Any(i) => json!(["d", num(&IRIS, i.as_str())]),
		LiteralTypeRef::LangString(g) => jg(g),
	}
}
fn jg(g: &LangTag) -> Value {
	json!(["g", num(&TAGS, g.as_str())])
}
fn jv(s: &str) -> Value {
	json!(["v", num(&VALUES, s)])
}
fn jl(l: LiteralRef) -> Value {
	json!(["l", num(&VALUES, l.value), jt(l.type_)])
}
fn jlit(l: &Literal) -> Value {
	let t = match &l.type_ {
		LiteralType::Any(i) => json!(["d", num(&IRIS, i.as_str())]),
		LiteralType::LangString(g) => jg(g),
	};
	json!(["l", num(&VALUES, &l.value), t])
}
fn jtype(t: &LiteralType) -> Value {
	match t {
		LiteralType::Any(i) => json!(["d", num(&IRIS, i.as_str())]),
		LiteralType::LangString(g) => jg(g),
	}
}
fn jcowtype(t: &CowLiteralType) -> Value {
	match t {
		CowLiteralType::Any(i) => json!(["d", num(&IRIS, i.as_str())]),
		CowLiteralType::LangString(g) => jg(g),
	}
}
fn jcowlit(l: &CowLiteral) -> Value {
	json!(["l", num(&VALUES, &l.value), jcowtype(&l.type_)])
}
fn jterm(t: &Term) -> Value {
	match t {
		Term::Iri(i) => ji(i),
		Term::Literal(l) => jlit(l),
	}
}
fn jtermref(t: TermRef) -> Value {
	match t {
		TermRef::Iri(i) => ji(i),
		TermRef::Literal(l) => jl(l),
	}
}
fn jcowterm(t: &CowTerm) -> Value {
	match t {
		CowTerm::Iri(i) => ji(i),
		CowTerm::Literal(l) => jcowlit(l),
	}
}
fn jlocal(t: &LocalTerm) -> Value {
	match t {
		LocalTerm::Anonymous(b) => jb(b),
		LocalTerm::Named(t) => jterm(t),
	}
}
fn jlocalref(t: LocalTermRef) -> Value {
	match t {
		LocalTermRef::Anonymous(b) => jb(b),
		LocalTermRef::Named(t) => jtermref(t),
	}
}
fn jcowlocal(t: &CowLocalTerm) -> Value {
	match t {
		CowLocalTerm::Anonymous(b) => jb(b),
		CowLocalTerm::Named(t) => jcowterm(t),
	}
}
fn opt(v: Option<Value>) -> Value {
	v.unwrap_or(json!([]))
}
fn mk_type(t: &Value) -> LiteralType {
	let n = t[1].as_i64().unwrap();
	if t[0] == "d" {
		LiteralType::Any(iri(iri_of(n)))
	} else {
		LiteralType::LangString(LangTagBuf::new(TAGS[n as usize].to_string()).unwrap())
	}
}
fn mk_lit(x: &Value) -> Literal {
	Literal { value: VALUES[x[1].as_i64().unwrap() as usize].to_string(), type_: mk_type(&x[2]) }
}
fn mk_term(x: &Value) -> Term {
	if x[0] == "i" {
		Term::Iri(iri(iri_of(x[1].as_i64().unwrap())))
	} else {
		Term::Literal(mk_lit(x))
	}
}
fn mk_blank(x: &Value) -> BlankIdBuf {
	BlankIdBuf::new(BLANKS[x[1].as_i64().unwrap() as usize].to_string()).unwrap_or_else(|_| tool_error("label"))
}
fn mk_local(x: &Value) -> LocalTerm {
	if x[0] == "b" {
		LocalTerm::Anonymous(mk_blank(x))
	} else {
		LocalTerm::Named(mk_term(x))
	}
}
type Ans = Vec<(&'static str, &'static str, Value)>;

fn local_answers(x: &Value) -> Ans {
	let t = mk_local(x);
	let mut a: Ans = vec![
		("is_anonymous", "LocalTerm", json!(t.is_anonymous())),
		("is_blank_id", "LocalTerm", json!(t.is_blank_id())),
		("as_anonymous", "LocalTerm", opt(t.as_anonymous().map(jb))),
		("as_blank_id", "LocalTerm", opt(t.as_blank_id().map(jb))),
		("as_iri", "LocalTerm", opt(t.as_iri().map(ji))),
		("as_literal", "LocalTerm", opt(t.as_literal().map(jl))),
		("to_and_fro", "clone", jlocal(&t.clone())),
		("to_and_fro", "as_ref", jlocalref(t.as_ref())),
		("to_and_fro", "as_ref to_owned", jlocal(&t.as_ref().to_owned())),
		("to_and_fro", "as_cow", jcowlocal(&t.as_cow())),
		("to_and_fro", "into_cow", jcowlocal(&t.clone().into_cow())),
		("to_and_fro", "CowLocalTerm::from", jcowlocal(&CowLocalTerm::from(t.clone()))),
		("to_and_fro", "as_ref == itself", if t.as_ref() == t { x.clone() } else { json!(0) }),
	];
	match &t {
		LocalTerm::Anonymous(b) => {
			a.push(("to_and_fro", "From<BlankIdBuf>", jlocal(&LocalTerm::from(b.clone()))));
			a.push(("to_and_fro", "BlankId to_owned", jb(&(**b).to_owned())));
			a.push(("to_and_fro", "BlankIdBuf as_blank_id_ref", jb(b.as_blank_id_ref())));
			a.push(("to_and_fro", "BlankIdBuf AsRef", jb(AsRef::<BlankId>::as_ref(b))));
			a.push(("to_and_fro", "BlankIdBuf Borrow", jb(Borrow::<BlankId>::borrow(b))));
			a.push(("to_and_fro", "BlankIdBuf Borrow of &", jb(Borrow::<BlankId>::borrow(&b))));
			a.push(("to_and_fro", "BlankIdBuf Into", jb(<&BlankId>::from(b))));
			for (n, s) in [("BlankIdBuf as str", AsRef::<str>::as_ref(b)), ("BlankIdBuf Borrow str", Borrow::<str>::borrow(b)), ("BlankIdBuf Borrow str of &", Borrow::<str>::borrow(&b)), ("BlankId as str", AsRef::<str>::as_ref(&**b)), ("BlankId Borrow str", Borrow::<str>::borrow(&**b)), ("BlankId Deref", &***b), ("BlankId as_str", b.as_str()), ("bytes", std::str::from_utf8(AsRef::<[u8]>::as_ref(b)).unwrap_or("")), ("BlankId bytes", std::str::from_utf8(AsRef::<[u8]>::as_ref(&**b)).unwrap_or(""))] {
				a.push(("to_and_fro", n, json!(["b", num(&BLANKS, s)])));
			}
		}
		LocalTerm::Named(Term::Iri(i)) => {
			a.push(("to_and_fro", "LocalTerm::iri", jlocal(&LocalTerm::iri(i.clone()))));
			a.push(("to_and_fro", "From<IriBuf>", jlocal(&LocalTerm::from(i.clone()))));
		}
		LocalTerm::Named(Term::Literal(l)) => {
			a.push(("to_and_fro", "LocalTerm::literal", jlocal(&LocalTerm::literal(l.clone()))));
			a.push(("to_and_fro", "From<Literal>", jlocal(&LocalTerm::from(l.clone()))));
		}
	}
	if let LocalTerm::Named(n) = &t {
		a.push(("to_and_fro", "From<Term>", jlocal(&LocalTerm::from(n.clone()))));
	}
	a
}
fn named_answers(x: &Value) -> Ans {
	let t = mk_term(x);
	vec![
		("is_iri", "Term", json!(t.is_iri())),
		("is_literal", "Term", json!(t.is_literal())),
		("as_literal", "Term", opt(t.as_literal().map(jl))),
		("into_literal", "Term", opt(t.clone().into_literal().map(|l| jlit(&l)))),
		("try_into_literal", "Term", match t.clone().try_into_literal() {
			Ok(l) => json!(["ok", jlit(&l)]),
			Err(i) => json!(["err", ji(&i)]),
		}),
		("as_iri", "Term", opt(t.as_iri().map(ji))),
		("into_iri", "Term", opt(t.clone().into_iri().map(|i| ji(&i)))),
		("try_into_iri", "Term", match t.clone().try_into_iri() {
			Ok(i) => json!(["ok", ji(&i)]),
			Err(o) => json!(["err", jterm(&o)]),
		}),
		("to_and_fro", "clone", jterm(&t.clone())),
		("to_and_fro", "as_ref", jtermref(t.as_ref())),
		("to_and_fro", "as_ref to_owned", jterm(&t.as_ref().to_owned())),
		("to_and_fro", "as_cow", jcowterm(&t.as_cow())),
		("to_and_fro", "as_cow into_owned", jterm(&t.as_cow().into_owned())),
		("to_and_fro", "into_cow", jcowterm(&t.clone().into_cow())),
		("to_and_fro", "into_cow into_owned", jterm(&t.clone().into_cow().into_owned())),
		("to_and_fro", "CowTerm::from", jcowterm(&CowTerm::from(t.clone()))),
		("to_and_fro", "as_ref == itself", if t.as_ref() == t { x.clone() } else { json!(0) }),
	]
}
fn lit_answers(x: &Value) -> Ans {
	let t = mk_lit(x);
	let r = Literal::as_ref(&t);
	let mut a: Ans = vec![
		("value", "as_value", jv(t.as_value())),
		("value", "into_value", jv(&t.clone().into_value())),
		("value", "as_str", jv(t.as_str())),
		("value", "as_bytes", jv(std::str::from_utf8(t.as_bytes()).unwrap_or("?"))),
		("value", "into_parts", jv(&t.clone().into_parts().0)),
		("value", "Borrow", jv(Borrow::<str>::borrow(&t))),
		("value", "AsRef", jv(AsRef::<str>::as_ref(&t))),
		("value", "LiteralRef as_value", jv(r.as_value())),
		("value", "LiteralRef into_value", jv(r.into_value())),
		("value", "LiteralRef as_str", jv(r.as_str())),
		("value", "LiteralRef as_bytes", jv(std::str::from_utf8(r.as_bytes()).unwrap_or("?"))),
		("value", "LiteralRef into_parts", jv(r.into_parts().0)),
		("value", "LiteralRef Borrow", jv(Borrow::<str>::borrow(&r))),
		("value", "LiteralRef AsRef", jv(AsRef::<str>::as_ref(&r))),
		("type", "as_type", jtype(t.as_type())),
		("type", "into_type", jtype(&t.clone().into_type())),
		("type", "into_parts", jtype(&t.clone().into_parts().1)),
		("type", "LiteralRef as_type", jt(r.as_type())),
		("type", "LiteralRef into_type", jt(r.into_type())),
		("type", "LiteralRef into_parts", jt(r.into_parts().1)),
		("is_lang_string", "Literal", json!(t.is_lang_string())),
		("is_lang_string", "LiteralRef", json!(r.is_lang_string())),
		("lang_tag", "Literal", opt(t.lang_tag().map(jg))),
		("lang_tag", "LiteralRef", opt(r.lang_tag().map(jg))),
		("to_and_fro", "new", jlit(&Literal::new(t.value.clone(), t.type_.clone()))),
		("to_and_fro", "new from &str", jlit(&Literal::new(t.value.as_str(), t.type_.as_cow()))),
		("to_and_fro", "LiteralRef::new", jl(LiteralRef::new(&t.value, t.type_.as_ref()))),
		("to_and_fro", "as_ref", jl(r)),
		("to_and_fro", "as_ref to_owned", jlit(&r.to_owned())),
		("to_and_fro", "as_ref cloned", jlit(&r.cloned())),
		("to_and_fro", "as_ref into_cow", jcowlit(&r.into_cow())),
		("to_and_fro", "as_ref into_cow into_owned", jlit(&r.into_cow().into_owned())),
		("to_and_fro", "as_cow", jcowlit(&t.as_cow())),
		("to_and_fro", "as_cow as_ref", jl(t.as_cow().as_ref())),
		("to_and_fro", "as_cow into_owned", jlit(&t.as_cow().into_owned())),
		("to_and_fro", "into_cow", jcowlit(&t.clone().into_cow())),
		("to_and_fro", "into_cow as_ref", jl(t.clone().into_cow().as_ref())),
		("to_and_fro", "into_cow into_owned", jlit(&t.clone().into_cow().into_owned())),
		("to_and_fro", "CowLiteral::from", jcowlit(&CowLiteral::from(&t))),
		("to_and_fro", "CowLiteral clone", jcowlit(&t.as_cow().clone())),
		("to_and_fro", "CowLiteral::new", jcowlit(&CowLiteral::new(t.value.clone(), t.type_.as_ref()))),
	];
	let mut m = t.clone();
	*m.as_value_mut() = "en \"x\"\n".into();
	a.push(("value", "as_value_mut", if m.value == VALUES[3] && m.type_ == t.type_ { jv(&t.value) } else { json!(0) }));
	let mut m = t.clone();
	*m.as_type_mut() = LiteralType::Any(iri("urn:c"));
	a.push(("type", "as_type_mut", if m.value == t.value && m.type_ == LiteralType::Any(iri("urn:c")) { jtype(&t.type_) } else { json!(0) }));
	let mut m = r;
	let other = LiteralType::Any(iri("urn:c"));
	*m.as_type_mut() = other.as_ref();
	a.push(("type", "LiteralRef as_type_mut", if m.value == t.value && m.type_ == other { jtype(&t.type_) } else { json!(0) }));
	a
}
fn type_answers(x: &Value) -> Ans {
	let t = mk_type(x);
	let r = t.as_ref();
	let probe = iri(iri_of(2));
	let mut a: Ans = vec![
		("is_lang_string", "LiteralType", json!(t.is_lang_string())),
		("is_lang_string", "LiteralTypeRef", json!(r.is_lang_string())),
		("lang_tag", "LiteralType", opt(t.lang_tag().map(jg))),
		("lang_tag", "LiteralTypeRef", opt(r.lang_tag().map(jg))),
		("is_xsd_string", "LiteralType", json!(t.is_xsd_string())),
		("is_xsd_string", "LiteralTypeRef", json!(r.is_xsd_string())),
		("is_iri", "LiteralType", json!(t.is_iri(&probe))),
		("is_iri", "LiteralTypeRef", json!(r.is_iri(&probe))),
		("to_and_fro", "as_ref", jt(r)),
		("to_and_fro", "as_ref into_owned", jtype(&r.into_owned())),
		("to_and_fro", "as_cow", jcowtype(&t.as_cow())),
		("to_and_fro", "as_cow as_ref", jt(t.as_cow().as_ref())),
		("to_and_fro", "as_cow into_owned", jtype(&t.as_cow().into_owned())),
		("to_and_fro", "into_cow", jcowtype(&t.clone().into_cow())),
		("to_and_fro", "into_cow into_owned", jtype(&t.clone().into_cow().into_owned())),
		("to_and_fro", "CowLiteralType::from reference", jcowtype(&CowLiteralType::from(r))),
		("to_and_fro", "LiteralType::from cow", jtype(&LiteralType::from(t.as_cow()))),
	];
	match &t {
		LiteralType::Any(i) => {
			a.push(("to_and_fro", "From<&Iri>", jcowtype(&CowLiteralType::from(i.as_iri()))));
			a.push(("to_and_fro", "From<IriBuf>", jcowtype(&CowLiteralType::from(i.clone()))));
			a.push(("to_and_fro", "From<Cow<Iri>> borrowed", jcowtype(&CowLiteralType::from(Cow::Borrowed(i.as_iri())))));
			a.push(("to_and_fro", "From<Cow<Iri>> owned", jcowtype(&CowLiteralType::from(Cow::<Iri>::Owned(i.clone())))));
		}
		LiteralType::LangString(g) => {
			a.push(("to_and_fro", "From<&LangTag>", jcowtype(&CowLiteralType::from(g.as_lang_tag()))));
			a.push(("to_and_fro", "From<LangTagBuf>", jcowtype(&CowLiteralType::from(g.clone()))));
			a.push(("to_and_fro", "From<Cow<LangTag>> borrowed", jcowtype(&CowLiteralType::from(Cow::Borrowed(g.as_lang_tag())))));
			a.push(("to_and_fro", "From<Cow<LangTag>> owned", jcowtype(&CowLiteralType::from(Cow::<LangTag>::Owned(g.clone())))));
		}
	}
	a
}
fn id_answers(x: &Value) -> Ans {
	let t = if x[0] == "b" { Id::BlankId(mk_blank(x)) } else { Id::Iri(iri(iri_of(x[1].as_i64().unwrap()))) };
	let jr = |r: IdRef| match r {
		IdRef::BlankId(b) => jb(b),
		IdRef::Iri(i) => ji(i),
	};
	let jo = |r: &Id| match r {
		Id::BlankId(b) => jb(b),
		Id::Iri(i) => ji(i),
	};
	vec![
		("as_iri", "Id", opt(t.as_iri().map(ji))),
		("to_and_fro", "as_ref", jr(t.as_ref())),
		("to_and_fro", "as_ref to_owned", jo(&IdRef::to_owned(&t.as_ref()))),
		("to_and_fro", "as_ref into_owned", jo(&t.as_ref().into_owned())),
		("to_and_fro", "as_cow", match t.as_cow() {
			CowId::BlankId(b) => jb(&b),
			CowId::Iri(i) => ji(&i),
		}),
	]
}

pub fn replay(args: &[String]) -> Out {
	let lines = read_lines(&args[0]);
	let mut out = Out::default();
	for v in &lines {
		out.cases += 1;
		beat_case(|| v.to_string());
		let x = &v["x"];
		let r = guarded(|| match v["t"].as_str().unwrap() {
			"local" => local_answers(x),
			"named" => named_answers(x),
			"lit" => lit_answers(x),
			"type" => type_answers(x),
			_ => id_answers(x),
		});
		match r {
			Err(p) => out.fail(json!({"case": v, "panic": p})),
			Ok(a) => {
				for (k, form, got) in &a {
					out.check(*got == v["a"][*k], || json!({"accessor": k, "form": form, "of": x, "got": got, "specified": v["a"][*k]}));
				}
				for k in v["a"].as_object().unwrap().keys() {
					if !a.iter().any(|(l, _, _)| l == k) {
						tool_error(&format!("accessor {k} not exercised"));
					}
				}
			}
		}
	}
	out
}

fn h<X: Hash + ?Sized>(x: &X) -> u64 {
	let mut s = DefaultHasher::new();
	x.hash(&mut s);
	s.finish()
}
fn sign(o: Option<Ordering>) -> i64 {
	match o {
		Some(Ordering::Less) => -1,
		Some(Ordering::Equal) => 0,
		Some(Ordering::Greater) => 1,
		None => 2,
	}
}
fn matrix(n: usize, f: impl Fn(usize, usize) -> i64) -> Value {
	json!((0..n).map(|i| (0..n).map(|j| f(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
/// Eq, Ord (and all comparison operators) within one form.
fn within<X: Ord>(ev: &mut Vec<Value>, form: &str, xs: &[X]) {
	let n = xs.len();
	ev.push(json!({"e": "eq", "of": format!("{form} =="), "m": matrix(n, |i, j| (xs[i] == xs[j]) as i64)}));
	ev.push(json!({"e": "eq", "of": format!("{form} !="), "m": matrix(n, |i, j| !(xs[i] != xs[j]) as i64)}));
	ev.push(json!({"e": "cmp", "of": format!("{form} cmp"), "m": matrix(n, |i, j| sign(Some(xs[i].cmp(&xs[j]))))}));
	across(ev, &format!("{form} partial"), xs, xs);
}
/// PartialEq and PartialOrd between two forms.
fn across<X: PartialOrd<Y>, Y>(ev: &mut Vec<Value>, form: &str, xs: &[X], ys: &[Y]) {
	let n = xs.len();
	ev.push(json!({"e": "eq", "of": format!("{form} =="), "m": matrix(n, |i, j| (xs[i] == ys[j]) as i64)}));
	ev.push(json!({"e": "cmp", "of": format!("{form} partial_cmp"), "m": matrix(n, |i, j| sign(xs[i].partial_cmp(&ys[j])))}));
	ev.push(json!({"e": "cmp", "of": format!("{form} < > == operators"), "m": matrix(n, |i, j| if xs[i] < ys[j] { -1 } else if xs[i] > ys[j] { 1 } else if xs[i] <= ys[j] && xs[i] >= ys[j] { 0 } else { 2 })}));
}
fn hashes<X: Hash, Y: Hash>(ev: &mut Vec<Value>, form: &str, xs: &[X], ys: &[Y]) {
	ev.push(json!({"e": "hash", "of": form, "m": matrix(xs.len(), |i, j| (h(&xs[i]) == h(&ys[j])) as i64)}));
}
fn class<X: PartialEq>(all: &[X], x: &X) -> usize {
	all.iter().position(|y| y == x).unwrap()
}

/// The values with equal texts numbered alike, by the equality of the text types themselves.
struct Classes {
	iris: Vec<IriBuf>,
	tags: Vec<LangTagBuf>,
	texts: Vec<String>,
}
impl Classes {
	fn iri(&self, i: &IriBuf) -> usize {
		class(&self.iris, i)
	}
	fn ty(&self, t: &LiteralType) -> Value {
		match t {
			LiteralType::Any(i) => json!(["d", self.iri(i)]),
			LiteralType::LangString(g) => json!(["g", class(&self.tags, g)]),
		}
	}
	fn text(&self, s: &str) -> usize {
		self.texts.iter().position(|t| t == s).unwrap()
	}
	fn lit(&self, l: &Literal) -> Value {
		json!(["l", self.text(&l.value), self.ty(&l.type_)])
	}
	fn local(&self, t: &LocalTerm) -> Value {
		match t {
			LocalTerm::Anonymous(b) => json!(["b", self.text(b.as_str())]),
			LocalTerm::Named(Term::Iri(i)) => json!(["i", self.iri(i)]),
			LocalTerm::Named(Term::Literal(l)) => self.lit(l),
		}
	}
	fn of(terms: &[LocalTerm]) -> Classes {
		let mut c = Classes { iris: vec![], tags: vec![], texts: vec![] };
		for t in terms {
			match t {
				LocalTerm::Anonymous(b) => c.texts.push(b.as_str().into()),
				LocalTerm::Named(Term::Iri(i)) => c.iris.push(i.clone()),
				LocalTerm::Named(Term::Literal(l)) => {
					c.texts.push(l.value.clone());
					match &l.type_ {
						LiteralType::Any(i) => c.iris.push(i.clone()),
						LiteralType::LangString(g) => c.tags.push(g.clone()),
					}
				}
			}
		}
		c
	}
}

fn compare_pool(out: &mut Out, t: &mut TraceOut, terms: &[LocalTerm]) {
	out.cases += 1;
	beat_case(|| format!("{terms:?}"));
	let c = Classes::of(terms);
	let r = guarded(|| {
		let mut ev = Vec::new();
		// local terms
		ev.push(json!({"e": "reset", "of": format!("LocalTerm {terms:?}"), "xs": terms.iter().map(|t| c.local(t)).collect::<Vec<_>>()}));
		let refs: Vec<LocalTermRef> = terms.iter().map(|t| t.as_ref()).collect();
		within(&mut ev, "LocalTerm", terms);
		within(&mut ev, "LocalTermRef", &refs);
		across(&mut ev, "LocalTermRef, LocalTerm", &refs, terms);
		hashes(&mut ev, "LocalTerm", terms, terms);
		// named terms
		let named: Vec<Term> = terms.iter().filter_map(|t| if let LocalTerm::Named(t) = t { Some(t.clone()) } else { None }).collect();
		ev.push(json!({"e": "reset", "of": format!("Term {named:?}"), "xs": named.iter().map(|t| c.local(&LocalTerm::Named(t.clone()))).collect::<Vec<_>>()}));
		let refs: Vec<TermRef> = named.iter().map(|t| t.as_ref()).collect();
		within(&mut ev, "Term", &named);
		within(&mut ev, "TermRef", &refs);
		across(&mut ev, "TermRef, Term", &refs, &named);
		hashes(&mut ev, "Term", &named, &named);
		// literals
		let lits: Vec<Literal> = named.iter().filter_map(|t| if let Term::Literal(l) = t { Some(l.clone()) } else { None }).collect();
		ev.push(json!({"e": "reset", "of": format!("Literal {lits:?}"), "xs": lits.iter().map(|l| c.lit(l)).collect::<Vec<_>>()}));
		let refs: Vec<LiteralRef> = lits.iter().map(Literal::as_ref).collect();
		let cb: Vec<CowLiteral> = lits.iter().map(|l| l.as_cow()).collect();
		let co: Vec<CowLiteral> = lits.iter().map(|l| l.clone().into_cow()).collect();
		within(&mut ev, "Literal", &lits);
		within(&mut ev, "LiteralRef", &refs);
		within(&mut ev, "CowLiteral", &cb);
		across(&mut ev, "LiteralRef, Literal", &refs, &lits);
		across(&mut ev, "Literal, LiteralRef", &lits, &refs);
		across(&mut ev, "borrowed CowLiteral, owned CowLiteral", &cb, &co);
		across(&mut ev, "owned CowLiteral, borrowed CowLiteral", &co, &cb);
		ev.push(json!({"e": "eq", "of": "LiteralRef equivalent", "m": matrix(lits.len(), |i, j| refs[i].equivalent(&lits[j]) as i64)}));
		hashes(&mut ev, "Literal", &lits, &lits);
		hashes(&mut ev, "Literal, LiteralRef", &lits, &refs);
		hashes(&mut ev, "Literal, borrowed CowLiteral", &lits, &cb);
		hashes(&mut ev, "Literal, owned CowLiteral", &lits, &co);
		let map: indexmap::IndexMap<Literal, usize> = lits.iter().cloned().zip(0..).collect();
		ev.push(json!({"e": "eq", "of": "looking a literal up by reference", "m": matrix(lits.len(), |i, j| (map.get(&refs[i]) == map.get(&lits[j])) as i64)}));
		// literal types
		let types: Vec<LiteralType> = lits.iter().map(|l| l.type_.clone()).collect();
		ev.push(json!({"e": "reset", "of": format!("LiteralType {types:?}"), "xs": types.iter().map(|l| c.ty(l)).collect::<Vec<_>>()}));
		let refs: Vec<LiteralTypeRef> = types.iter().map(|t| t.as_ref()).collect();
		let cb: Vec<CowLiteralType> = types.iter().map(|t| t.as_cow()).collect();
		let co: Vec<CowLiteralType> = types.iter().map(|t| t.clone().into_cow()).collect();
		within(&mut ev, "LiteralType", &types);
		within(&mut ev, "LiteralTypeRef", &refs);
		within(&mut ev, "CowLiteralType", &cb);
		across(&mut ev, "LiteralTypeRef, LiteralType", &refs, &types);
		across(&mut ev, "LiteralType, LiteralTypeRef", &types, &refs);
		across(&mut ev, "borrowed CowLiteralType, owned CowLiteralType", &cb, &co);
		hashes(&mut ev, "LiteralType, LiteralTypeRef", &types, &refs);
		hashes(&mut ev, "LiteralType, borrowed CowLiteralType", &types, &cb);
		hashes(&mut ev, "LiteralType, owned CowLiteralType", &types, &co);
		// identifiers
		let ids: Vec<(Id, Value)> = terms
			.iter()
			.filter_map(|t| match t {
				LocalTerm::Anonymous(b) => Some((Id::BlankId(b.clone()), c.local(t))),
				LocalTerm::Named(Term::Iri(i)) => Some((Id::Iri(i.clone()), c.local(t))),
				_ => None,
			})
			.collect();
		ev.push(json!({"e": "reset", "of": "Id", "xs": ids.iter().map(|x| x.1.clone()).collect::<Vec<_>>()}));
		let refs: Vec<IdRef> = ids.iter().map(|x| x.0.as_ref()).collect();
		within(&mut ev, "IdRef", &refs);
		// blank node identifiers
		let blanks: Vec<BlankIdBuf> = terms.iter().filter_map(|t| t.as_blank_id().map(|b| b.to_owned())).collect();
		ev.push(json!({"e": "reset", "of": format!("BlankId {blanks:?}"), "xs": blanks.iter().map(|b| json!(["b", c.text(b.as_str())])).collect::<Vec<_>>()}));
		let refs: Vec<&BlankId> = blanks.iter().map(|b| b.as_blank_id_ref()).collect();
		within(&mut ev, "BlankIdBuf", &blanks);
		within(&mut ev, "BlankId", &refs);
		let n = blanks.len();
		ev.push(json!({"e": "eq", "of": "BlankIdBuf, BlankId", "m": matrix(n, |i, j| (blanks[i] == *refs[j]) as i64)}));
		ev.push(json!({"e": "eq", "of": "BlankIdBuf, &BlankId", "m": matrix(n, |i, j| (blanks[i] == refs[j]) as i64)}));
		ev.push(json!({"e": "eq", "of": "BlankId, BlankIdBuf", "m": matrix(n, |i, j| (*refs[i] == blanks[j]) as i64)}));
		ev.push(json!({"e": "eq", "of": "&BlankId, BlankIdBuf", "m": matrix(n, |i, j| (refs[i] == blanks[j]) as i64)}));
		ev.push(json!({"e": "eq", "of": "BlankId, str", "m": matrix(n, |i, j| (*refs[i] == *blanks[j].as_str()) as i64)}));
		hashes(&mut ev, "BlankIdBuf, BlankId", &blanks, &refs);
		let strs: Vec<&str> = blanks.iter().map(|b| b.as_str()).collect();
		hashes(&mut ev, "BlankIdBuf, str", &blanks, &strs);
		ev
	});
	match r {
		Err(p) => out.fail(json!({"compared": format!("{terms:?}"), "panic": p})),
		Ok(ev) => {
			out.checks += ev.len() as u64;
			for e in ev {
				t.put(&e);
			}
		}
	}
}

/// record-term SEED POOLS FILES PREFIX
pub fn record(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let pools: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(27644437) + f as u64 * 49979687 + 41);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			if f == 0 {
				// the whole universe of the specification's small model
				let mut all = Vec::new();
				for n in 1..4 {
					all.push(LocalTerm::Anonymous(mk_blank(&json!(["b", n]))));
					all.push(LocalTerm::Named(mk_term(&json!(["i", n]))));
				}
				for v in 0..3 {
					for ty in [json!(["d", 1]), json!(["d", 2]), json!(["d", 9]), json!(["g", 1]), json!(["g", 2]), json!(["g", 3])] {
						all.push(LocalTerm::Named(mk_term(&json!(["l", v, ty]))));
					}
				}
				compare_pool(&mut out, &mut t, &all);
			}
			for _ in 0..(pools + files - 1) / files {
				let n = 2 + rng.below(9);
				// few distinct texts, so that terms of different kinds share them
				let texts: Vec<String> = (0..2).map(|_| random_string(&mut rng, 5)).chain(["_:a".to_string(), "http://example.org/".to_string(), "en".to_string()]).collect();
				let mut pool: Vec<T> = Vec::new();
				for _ in 0..n {
					let x = random_term(&mut rng);
					let x = match x {
						T::L(_, d) if rng.chance(3, 4) => T::L(rng.pick(&texts).clone(), d),
						T::G(_, g) if rng.chance(3, 4) => T::G(rng.pick(&texts).clone(), if rng.chance(1, 3) { g.to_ascii_uppercase() } else { g }),
						x => x,
					};
					if !pool.is_empty() && rng.chance(1, 5) {
						let y = rng.pick(&pool).clone();
						pool.push(y);
					}
					pool.push(x);
				}
				compare_pool(&mut out, &mut t, &pool.iter().map(|x| x.real()).collect::<Vec<_>>());
			}
			t.finish();
		}
		out
	})
}
