//! Interpretations: an interning one of our own, wrapped in the crate's, and the
//! crate's transparent ones.
use crate::nquads::{random_term, same, T};
use crate::util::*;
use iref::{Iri, IriBuf};
use langtag::LangTagBuf;
use rdf_types::generator::{LocalGenerator, LocalGeneratorInterpretation};
use rdf_types::interpretation::fallible::{FallibleGenerativeInterpretation, TraversableFallibleInterpretation};
use rdf_types::interpretation::*;
use rdf_types::{BlankId, BlankIdBuf, CowId, CowLiteral, CowLocalTerm, CowTerm, Generator, IdRef, Literal, LiteralRef, LiteralType, LocalTerm, LocalTermRef, Term, TermRef};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;

/// The terms by number; 1 to 9 are those of the palette in use.
pub fn term(k: i64) -> LocalTerm {
	if (1..=9).contains(&k) {
		return PALETTE.with(|p| p.borrow().0[k as usize - 1].clone());
	}
	plain(k)
}
fn plain(k: i64) -> LocalTerm {
	let iri = |s: String| LocalTerm::Named(Term::Iri(IriBuf::new(s).unwrap()));
	match k {
		1 => iri("http://example.org/a".into()),
		2 => iri("http://example.org/b".into()),
		3 => iri("http://example.org/c".into()),
		// same text as an IRI, as each other, as a blank node
		4 => LocalTerm::Named(Term::Literal(Literal::new("http://example.org/a", LiteralType::Any(IriBuf::new("http://www.w3.org/2001/XMLSchema#string".into()).unwrap())))),
		5 => LocalTerm::Named(Term::Literal(Literal::new("http://example.org/a", LiteralType::LangString(LangTagBuf::new("en".into()).unwrap())))),
		6 => LocalTerm::Named(Term::Literal(Literal::new("_:b", LiteralType::Any(IriBuf::new("http://example.org/a".into()).unwrap())))),
		7 => LocalTerm::Anonymous(BlankIdBuf::new("_:b".into()).unwrap()),
		8 => LocalTerm::Anonymous(BlankIdBuf::new("_:c".into()).unwrap()),
		9 => LocalTerm::Anonymous(BlankIdBuf::new("_:b.c".into()).unwrap()),
		100..=199 => iri(format!("http://example.org/gen/{k}")),
		200..=299 => LocalTerm::Named(Term::Literal(Literal::new(format!("gen{k}"), LiteralType::LangString(LangTagBuf::new("en".into()).unwrap())))),
		_ => LocalTerm::Anonymous(BlankIdBuf::new(format!("_:gen{k}")).unwrap()),
	}
}
fn all_terms() -> impl Iterator<Item = i64> {
	(1..=9).chain(100..120).chain(200..220).chain(300..320)
}
// compared by text, so as not to depend on the equality under test
fn table(first: &[LocalTerm]) -> BTreeMap<String, i64> {
	all_terms().map(|k| (format!("{:?}", if k <= 9 { first[k as usize - 1].clone() } else { plain(k) }), k)).collect()
}
thread_local! {
	static PALETTE: std::cell::RefCell<(Vec<LocalTerm>, BTreeMap<String, i64>)> = std::cell::RefCell::new({
		let p: Vec<LocalTerm> = (1..=9).map(plain).collect();
		let t = table(&p);
		(p, t)
	});
}
/// Chooses the texts of the terms 1 to 9: the plain ones, or random ones.
fn palette(rng: &mut Rng) {
	let p: Vec<LocalTerm> = if rng.chance(1, 3) {
		(1..=9).map(plain).collect()
	} else {
		let mut iris: Vec<T> = Vec::new();
		let mut lits: Vec<T> = Vec::new();
		let mut blanks: Vec<T> = Vec::new();
		while iris.len() < 3 || lits.len() < 3 || blanks.len() < 3 {
			let x = match random_term(rng) {
				// short values, and those of other terms
				T::L(v, d) if rng.chance(1, 2) => T::L(v.chars().take(rng.below(3)).collect(), d),
				T::G(v, g) if rng.chance(1, 2) => T::G(v.chars().take(rng.below(3)).collect(), g),
				T::L(v, d) => T::L(match iris.first() { Some(T::I(i)) if rng.chance(1, 3) => i.clone(), _ => v }, d),
				x => x,
			};
			let to = match x {
				T::I(_) => &mut iris,
				T::B(_) => &mut blanks,
				_ => &mut lits,
			};
			if to.len() < 3 && !to.iter().any(|y| same(&[y.clone()], &[x.clone()])) {
				to.push(x);
			}
		}
		iris.iter().chain(&lits).chain(&blanks).map(|x| x.real()).collect()
	};
	let t = table(&p);
	PALETTE.with(|q| *q.borrow_mut() = (p, t));
}
fn texts() -> Value {
	PALETTE.with(|p| json!(format!("{:?}", p.borrow().0)))
}
fn code(t: &LocalTerm) -> i64 {
	let s = format!("{t:?}");
	PALETTE.with(|p| p.borrow().1.get(&s).copied().unwrap_or(999))
}

/// Generates the terms base, base + 1, ...; logs what it gave.
pub struct Gen {
	base: i64,
	given: Vec<i64>,
}
impl Gen {
	fn next(&mut self) -> LocalTerm {
		let k = self.base + self.given.len() as i64;
		self.given.push(k);
		term(k)
	}
}
impl LocalGenerator for Gen {
	fn next_local_term(&mut self) -> LocalTerm {
		self.next()
	}
}
impl Generator for Gen {
	fn next_term(&mut self) -> Term {
		match self.next() {
			LocalTerm::Named(t) => t,
			_ => tool_error("a blank node from a term generator"),
		}
	}
}

/// Interns terms as numbers; several terms may share a resource.
#[derive(Default)]
pub struct Interner {
	map: Vec<(LocalTerm, u32)>,
	all: Vec<u32>,
}
impl Interner {
	fn get(&self, t: &LocalTerm) -> Option<u32> {
		let s = format!("{t:?}");
		self.map.iter().find(|(x, _)| format!("{x:?}") == s).map(|(_, r)| *r)
	}
	fn put(&mut self, t: LocalTerm) -> u32 {
		match self.get(&t) {
			Some(r) => r,
			None => {
				let r = self.all.len() as u32 + 1;
				self.all.push(r);
				self.map.push((t, r));
				r
			}
		}
	}
	fn alias(&mut self, t: LocalTerm, r: u32) {
		self.map.push((t, r));
	}
	pub fn only_term(&self, r: u32) -> Option<LocalTerm> {
		let mut ts = self.map.iter().filter(|(_, x)| *x == r);
		let t = ts.next()?;
		if ts.next().is_some() {
			return None;
		}
		Some(t.0.clone())
	}
}
impl Interpretation for Interner {
	type Resource = u32;
	fn iri(&self, iri: &Iri) -> Option<u32> {
		self.get(&LocalTerm::Named(Term::Iri(iri.to_owned())))
	}
	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<u32> {
		let l = literal.into();
		let ty = match l.type_ {
			rdf_types::LiteralTypeRef::Any(i) => LiteralType::Any(i.to_owned()),
			rdf_types::LiteralTypeRef::LangString(t) => LiteralType::LangString(t.to_owned()),
		};
		self.get(&LocalTerm::Named(Term::Literal(Literal::new(l.value, ty))))
	}
}
impl InterpretationMut for Interner {
	fn insert_iri<'a>(&mut self, iri: impl Into<Cow<'a, Iri>>) -> u32 {
		let i: Cow<Iri> = iri.into();
		self.put(LocalTerm::Named(Term::Iri(i.into_owned())))
	}
	fn insert_literal<'a>(&mut self, literal: impl Into<CowLiteral<'a>>) -> u32 {
		let l: CowLiteral = literal.into();
		let ty = match l.type_ {
			rdf_types::CowLiteralType::Any(i) => LiteralType::Any(i.into_owned()),
			rdf_types::CowLiteralType::LangString(t) => LiteralType::LangString(t.into_owned()),
		};
		self.put(LocalTerm::Named(Term::Literal(Literal::new(l.value.into_owned(), ty))))
	}
}
impl LocalInterpretation for Interner {
	fn blank_id(&self, b: &BlankId) -> Option<u32> {
		self.get(&LocalTerm::Anonymous(b.to_owned()))
	}
}
impl LocalInterpretationMut for Interner {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> u32 {
		let b: Cow<BlankId> = b.into();
		self.put(LocalTerm::Anonymous(b.into_owned()))
	}
}
impl ReverseInterpretation for Interner {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		self.map.iter().filter(|(_, x)| x == r).filter_map(|(t, _)| match t { LocalTerm::Named(Term::Iri(i)) => Some(Cow::Borrowed(i.as_iri())), _ => None }).collect::<Vec<_>>().into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		self.map
			.iter()
			.filter(|(_, x)| x == r)
			.filter_map(|(t, _)| match t {
				LocalTerm::Named(Term::Literal(l)) => Some(CowLiteral::new(
					l.value.as_str(),
					match &l.type_ {
						LiteralType::Any(i) => rdf_types::CowLiteralType::Any(Cow::Borrowed(i.as_iri())),
						LiteralType::LangString(t) => rdf_types::CowLiteralType::LangString(Cow::Borrowed(t.as_lang_tag())),
					},
				)),
				_ => None,
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
}
impl ReverseLocalInterpretation for Interner {
	type BlankIds<'a> = std::vec::IntoIter<Cow<'a, BlankId>>;
	fn blank_ids_of<'a>(&'a self, r: &'a u32) -> Self::BlankIds<'a> {
		self.map.iter().filter(|(_, x)| x == r).filter_map(|(t, _)| match t { LocalTerm::Anonymous(b) => Some(Cow::Borrowed(&**b)), _ => None }).collect::<Vec<_>>().into_iter()
	}
}
impl TraversableInterpretation for Interner {
	type Resources<'a> = std::slice::Iter<'a, u32>;
	fn resources(&self) -> Self::Resources<'_> {
		self.all.iter()
	}
}

/// Resources as numbers.
trait Rn {
	fn rn(&self) -> i64;
}
impl Rn for u32 {
	fn rn(&self) -> i64 {
		*self as i64
	}
}
impl Rn for LocalTerm {
	fn rn(&self) -> i64 {
		code(self)
	}
}

fn tref(t: &Term) -> TermRef<'_> {
	match t {
		Term::Iri(i) => TermRef::Iri(i),
		Term::Literal(l) => TermRef::Literal(lref(l)),
	}
}
fn lref(l: &Literal) -> LiteralRef<'_> {
	LiteralRef::new(
		&l.value,
		match &l.type_ {
			LiteralType::Any(i) => rdf_types::LiteralTypeRef::Any(i.as_iri()),
			LiteralType::LangString(t) => rdf_types::LiteralTypeRef::LangString(t.as_lang_tag()),
		},
	)
}
fn lcow(l: &Literal) -> CowLiteral<'_> {
	CowLiteral::new(
		l.value.as_str(),
		match &l.type_ {
			LiteralType::Any(i) => rdf_types::CowLiteralType::Any(Cow::Borrowed(i.as_iri())),
			LiteralType::LangString(t) => rdf_types::CowLiteralType::LangString(Cow::Owned(t.clone())),
		},
	)
}

/// Looks a named term up by all routes.
fn look_named<I: Interpretation>(i: &I, t: &Term) -> Vec<(&'static str, Option<I::Resource>)> {
	let mut v = vec![("term", i.term(tref(t)))];
	match t {
		Term::Iri(x) => v.push(("iri", i.iri(x))),
		Term::Literal(l) => v.push(("literal", i.literal(lref(l)))),
	}
	v
}
fn look_local<I: LocalInterpretation>(i: &I, t: &LocalTerm) -> Vec<(&'static str, Option<I::Resource>)> {
	match t {
		LocalTerm::Anonymous(b) => vec![("blank_id", i.blank_id(b)), ("local_term", i.local_term(LocalTermRef::Anonymous(b))), ("id", i.id(IdRef::BlankId(b)))],
		LocalTerm::Named(n) => {
			let mut v = look_named(i, n);
			v.push(("local_term", i.local_term(LocalTermRef::Named(tref(n)))));
			if let Term::Iri(x) = n {
				v.push(("id", i.id(IdRef::Iri(x))));
			}
			v
		}
	}
}
const NAMED_ROUTES: usize = 4;
fn insert_named<I: InterpretationMut>(i: &mut I, t: &Term, route: usize) -> I::Resource {
	match (t, route % NAMED_ROUTES) {
		(Term::Iri(x), 0) => i.insert_iri(Cow::Borrowed(x.as_iri())),
		(Term::Iri(x), 1) => i.insert_iri(Cow::Owned(x.clone())),
		(Term::Iri(x), 2) => i.insert_term(CowTerm::Iri(Cow::Borrowed(x.as_iri()))),
		(Term::Literal(l), 0) => i.insert_literal(lcow(l)),
		(Term::Literal(l), 1) => i.insert_literal(l),
		(Term::Literal(l), 2) => i.insert_term(CowTerm::Literal(lcow(l))),
		(t, _) => i.insert_term(t.clone()),
	}
}
const LOCAL_ROUTES: usize = 9;
fn insert_local<I: LocalInterpretationMut>(i: &mut I, t: &LocalTerm, route: usize) -> I::Resource {
	match (t, route % LOCAL_ROUTES) {
		(LocalTerm::Anonymous(b), 0) => i.insert_blank_id(Cow::Borrowed(&**b)),
		(LocalTerm::Anonymous(b), 1) => i.insert_blank_id(Cow::Owned(b.clone())),
		(LocalTerm::Anonymous(b), 2 | 4) => i.insert_local_term(CowLocalTerm::Anonymous(Cow::Borrowed(&**b))),
		(LocalTerm::Anonymous(b), 3 | 5) => i.insert_id(CowId::BlankId(Cow::Borrowed(&**b))),
		(LocalTerm::Named(n), r) if r < 4 => insert_named(i, n, r),
		(LocalTerm::Named(Term::Iri(x)), 4) => i.insert_id(CowId::Iri(Cow::Borrowed(x.as_iri()))),
		(LocalTerm::Named(Term::Iri(x)), 5) => i.insert_local_term(CowLocalTerm::Named(CowTerm::Iri(Cow::Owned(x.clone())))),
		(LocalTerm::Named(Term::Literal(l)), 5) => i.insert_local_term(CowLocalTerm::Named(CowTerm::Literal(lcow(l)))),
		(t, _) => i.insert_local_term(t.clone()),
	}
}
fn own_lit(l: CowLiteral) -> LocalTerm {
	let ty = match l.type_ {
		rdf_types::CowLiteralType::Any(i) => LiteralType::Any(i.into_owned()),
		rdf_types::CowLiteralType::LangString(t) => LiteralType::LangString(t.into_owned()),
	};
	LocalTerm::Named(Term::Literal(Literal::new(l.value.into_owned(), ty)))
}
fn own_term(t: CowTerm) -> LocalTerm {
	match t {
		CowTerm::Iri(i) => LocalTerm::Named(Term::Iri(i.into_owned())),
		CowTerm::Literal(l) => own_lit(l),
	}
}
fn own_local(t: CowLocalTerm) -> LocalTerm {
	match t {
		CowLocalTerm::Anonymous(b) => LocalTerm::Anonymous(b.into_owned()),
		CowLocalTerm::Named(t) => own_term(t),
	}
}
const CAP: usize = 64;
fn terms_named<I: ReverseInterpretation>(i: &I, r: &I::Resource) -> Value {
	let is: Vec<i64> = probe(CAP, false, || i.iris_of(r), |x| code(&LocalTerm::Named(Term::Iri(x.into_owned()))));
	let ls: Vec<i64> = probe(CAP, false, || i.literals_of(r), |l| code(&own_lit(l)));
	let ns: Vec<i64> = probe(CAP, false, || i.terms_of(r), |t| code(&own_term(t)));
	json!({"e": "terms", "i": is, "l": ls, "n": ns, "b": [-1], "a": [-1], "x": i.is_anonymous(r) as i64})
}
fn terms_local<I: ReverseLocalInterpretation>(i: &I, r: &I::Resource) -> Value {
	let mut v = terms_named(i, r);
	v["b"] = json!(probe(CAP, false, || i.blank_ids_of(r), |b| code(&LocalTerm::Anonymous(b.into_owned()))));
	v["a"] = json!(probe(CAP, false, || i.local_terms_of(r), |t| code(&own_local(t))));
	v
}

/// The interpretations under test behind one face.
enum W {
	Bare(Interner),
	Term(WithGenerator<Gen, Interner>),
	Local(WithLocalGenerator<Gen, Interner>),
	LocalTerm(WithLocalGenerator<Gen, WithLocalGenerator<Gen, Interner>>),
	TermLocal(WithGenerator<Gen, WithLocalGenerator<Gen, Interner>>),
	Unit(()),
	UnitGen(WithGenerator<Gen, ()>),
	LocalGen(LocalGeneratorInterpretation<Gen>),
	GenLocalGen(WithGenerator<Gen, LocalGeneratorInterpretation<Gen>>),
}
const KINDS: [&str; 9] = ["interner", "WithGenerator", "WithLocalGenerator", "WithLocalGenerator twice", "WithGenerator(WithLocalGenerator)", "()", "WithGenerator(())", "LocalGeneratorInterpretation", "WithGenerator(LocalGeneratorInterpretation)"];
impl W {
	fn new(kind: usize, lit: bool) -> W {
		let named = Gen { base: if lit { 200 } else { 100 }, given: vec![] };
		let blank = || Gen { base: 300, given: vec![] };
		match kind {
			0 => W::Bare(Interner::default()),
			1 => W::Term(WithGenerator::new(Interner::default(), named)),
			2 => W::Local(WithLocalGenerator::new(Interner::default(), if lit { named } else { blank() })),
			3 => W::LocalTerm(WithLocalGenerator::new(WithLocalGenerator::new(Interner::default(), blank()), if lit { named } else { blank() })),
			4 => W::TermLocal(WithGenerator::new(WithLocalGenerator::new(Interner::default(), blank()), named)),
			5 => W::Unit(()),
			6 => W::UnitGen(WithGenerator::new((), named)),
			7 => W::LocalGen(LocalGeneratorInterpretation::new(if lit { named } else { blank() })),
			_ => W::GenLocalGen(WithGenerator::new(LocalGeneratorInterpretation::new(blank()), named)),
		}
	}
	fn transparent(&self) -> bool {
		matches!(self, W::Unit(_) | W::UnitGen(_) | W::LocalGen(_) | W::GenLocalGen(_))
	}
	fn look(&self, k: i64) -> Vec<(&'static str, i64)> {
		fn n<R: Rn>(v: Vec<(&'static str, Option<R>)>) -> Vec<(&'static str, i64)> {
			v.into_iter().map(|(r, x)| (r, x.map(|x| x.rn()).unwrap_or(0))).collect()
		}
		let t = term(k);
		let named = |t: &LocalTerm| match t {
			LocalTerm::Named(t) => Some(t.clone()),
			_ => None,
		};
		match self {
			W::Bare(i) => n(look_local(i, &t)),
			W::Local(i) => n(look_local(i, &t)),
			W::LocalTerm(i) => n(look_local(i, &t)),
			W::LocalGen(i) => n(look_local(i, &t)),
			W::Term(i) => named(&t).map(|t| n(look_named(i, &t))).unwrap_or_default(),
			W::TermLocal(i) => named(&t).map(|t| n(look_named(i, &t))).unwrap_or_default(),
			W::Unit(i) => named(&t).map(|t| n(look_named(i, &t))).unwrap_or_default(),
			W::UnitGen(i) => named(&t).map(|t| n(look_named(i, &t))).unwrap_or_default(),
			W::GenLocalGen(i) => named(&t).map(|t| n(look_named(i, &t))).unwrap_or_default(),
		}
	}
	/// None when the interpretation offers no such insertion.
	fn insert(&mut self, k: i64, route: usize) -> Option<i64> {
		let t = term(k);
		let named = match &t {
			LocalTerm::Named(t) => Some(t.clone()),
			_ => None,
		};
		match self {
			W::Bare(i) => Some(insert_local(i, &t, route).rn()),
			W::Local(i) => Some(insert_local(i, &t, route).rn()),
			W::LocalTerm(i) => Some(insert_local(i, &t, route).rn()),
			W::LocalGen(i) => Some(insert_named(i, &named?, route).rn()),
			W::Term(i) => Some(match named {
				Some(t) => insert_named(i, &t, route).rn(),
				None => insert_local(i.inner_interpretation_mut(), &t, route).rn(),
			}),
			W::TermLocal(i) => Some(match named {
				Some(t) => insert_named(i, &t, route).rn(),
				None => insert_local(i.inner_interpretation_mut(), &t, route).rn(),
			}),
			W::Unit(i) => Some(insert_named(i, &named?, route).rn()),
			W::UnitGen(i) => Some(insert_named(i, &named?, route).rn()),
			W::GenLocalGen(i) => Some(insert_named(i, &named?, route).rn()),
		}
	}
	fn interner(&mut self) -> Option<&mut Interner> {
		match self {
			W::Bare(i) => Some(i),
			W::Term(i) => Some(i.inner_interpretation_mut()),
			W::Local(i) => Some(i.inner_interpretation_mut()),
			W::LocalTerm(i) => Some(i.inner_interpretation_mut().inner_interpretation_mut()),
			W::TermLocal(i) => Some(i.inner_interpretation_mut().inner_interpretation_mut()),
			_ => None,
		}
	}
	/// A new resource: (term the generator gave, resource).
	fn fresh(&mut self, route: usize) -> Option<(i64, i64)> {
		fn go<I: GenerativeInterpretation>(i: &mut I, route: usize) -> I::Resource {
			if route % 2 == 0 {
				GenerativeInterpretation::new_resource(i)
			} else {
				match i.try_new_resource() {
					Ok(r) => r,
					Err(_) => unreachable!(),
				}
			}
		}
		// the last term given, provided exactly one was
		fn given(g: &Gen, before: usize) -> i64 {
			if g.given.len() == before + 1 {
				*g.given.last().unwrap()
			} else {
				999
			}
		}
		match self {
			W::Bare(_) | W::Unit(_) => None,
			W::Term(i) => {
				let n = i.generator().given.len();
				let r = go(i, route).rn();
				Some((given(i.generator(), n), r))
			}
			W::Local(i) => {
				let n = i.generator().given.len();
				let r = go(i, route).rn();
				Some((given(i.generator(), n), r))
			}
			W::LocalTerm(i) => {
				let n = i.generator().given.len();
				let r = go(i, route).rn();
				Some((given(i.generator(), n), r))
			}
			W::TermLocal(i) => {
				let n = i.generator().given.len();
				let r = go(i, route).rn();
				Some((given(i.generator(), n), r))
			}
			W::UnitGen(i) => {
				let n = i.generator_mut().given.len();
				let r = if route % 4 == 3 { go(&mut WithGenerator::new((), i.generator_mut()), route).rn() } else { go(i, route).rn() };
				Some((given(i.generator(), n), r))
			}
			W::GenLocalGen(i) => {
				let n = i.generator().given.len();
				let r = go(i, route).rn();
				Some((given(i.generator(), n), r))
			}
			W::LocalGen(i) => {
				// the generator is inside: the resource is the term, and what was
				// given is looked at through the base count afterwards
				let r = if route % 3 == 0 { ConstGenerativeInterpretation::new_resource(i).rn() } else { go(i, route).rn() };
				Some((r, r))
			}
		}
	}
	fn terms(&self, r: i64) -> Value {
		let u = r as u32;
		let mut v = match self {
			W::Bare(i) => terms_local(i, &u),
			W::Local(i) => terms_local(i, &u),
			W::LocalTerm(i) => terms_local(i, &u),
			W::LocalGen(i) => terms_local(i, &term(r)),
			W::Term(i) => terms_named(i, &u),
			W::TermLocal(i) => terms_named(i, &u),
			W::Unit(i) => terms_named(i, &term(r)),
			W::UnitGen(i) => terms_named(i, &term(r)),
			W::GenLocalGen(i) => terms_named(i, &term(r)),
		};
		v["r"] = json!(r);
		v
	}
	/// Takes the wrapper apart; the parts must be what was put in.
	fn parts(self, route: usize) -> Result<(), String> {
		let base = |g: &Gen, want: &[i64]| if want.contains(&g.base) { Ok(()) } else { Err(format!("generator {}", g.base)) };
		match self {
			W::Term(w) => match route % 3 {
				0 => {
					let (i, g) = w.into_parts();
					let _: Interner = i;
					base(&g, &[100, 200])
				}
				1 => base(&w.into_generator(), &[100, 200]),
				_ => {
					let _: Interner = w.into_inner_interpretation();
					Ok(())
				}
			},
			W::Local(mut w) => match route % 2 {
				0 => base(&w.into_parts().1, &[200, 300]),
				_ => {
					base(w.generator_mut(), &[200, 300])?;
					base(&w.into_generator(), &[200, 300])
				}
			},
			_ => Ok(()),
		}
	}
}

/// Everything the interpretation says, as trace events.
fn observe(w: &mut W, put: &mut impl FnMut(Value)) {
	for k in all_terms().filter(|k| *k <= 9 || *k % 100 < 4) {
		for (route, r) in w.look(k) {
			put(json!({"e": "look", "t": k, "r": r, "route": route}));
		}
	}
	let rs: Vec<i64> = if w.transparent() { (1..=9).collect() } else { w.interner().map(|i| i.all.iter().map(|r| *r as i64).collect()).unwrap_or_default() };
	for r in rs {
		if matches!(w, W::Unit(_) | W::UnitGen(_) | W::GenLocalGen(_) | W::LocalGen(_) | W::Bare(_)) || r > 0 {
			put(w.terms(r));
		}
	}
}

/// replay-interp VECTORS: every enumerated history on every interpretation.
pub fn replay(args: &[String]) -> Out {
	let lines = read_lines(&args[0]);
	parallel(lines.len(), |range| {
		let mut out = Out::default();
		let mut rng = Rng::new(range.start as u64 * 7727 + 3);
		for (n, l) in lines[range.clone()].iter().enumerate() {
			let n = n + range.start;
			if n % 8 == 0 {
				palette(&mut rng);
			}
			let h: Vec<Vec<i64>> = l["h"].as_array().unwrap().iter().map(ints).collect();
			let m: BTreeMap<i64, i64> = l["m"].as_array().unwrap().iter().map(ints).map(|p| (p[0], p[1])).collect();
			for kind in 0..5 {
				let lit = (n + kind) % 2 == 1;
				beat_case(|| format!("{h:?} {}", KINDS[kind]));
				out.cases += 1;
				let r = guarded(|| {
					let mut bad: Vec<Value> = Vec::new();
					let mut checks = 0u64;
					let mut w = W::new(kind, lit);
					let base = match &w {
						W::Term(_) | W::TermLocal(_) => if lit { 200 } else { 100 },
						_ => if lit { 200 } else { 300 },
					};
					let actual = |t: i64| if t >= 300 { base + t - 300 } else { t };
					for (i, op) in h.iter().enumerate() {
						checks += 1;
						let (t, r) = (op[1], op[2]);
						match op[0] {
							1 => {
								let got = w.insert(t, n + i);
								if got != Some(r) {
									bad.push(json!({"step": i, "op": "insert", "term": t, "route": n + i, "want": r, "got": got}));
								}
							}
							2 if kind == 0 => {
								// no generator: the model's step is taken by hand
								let got = w.insert(actual(t), 0);
								if got != Some(r) {
									bad.push(json!({"step": i, "op": "insert", "term": t, "want": r, "got": got}));
								}
							}
							2 => {
								let got = w.fresh(n + i);
								if got != Some((actual(t), r)) {
									bad.push(json!({"step": i, "op": "new_resource", "want": [actual(t), r], "got": got.map(|x| [x.0, x.1])}));
								}
							}
							_ => w.interner().unwrap().alias(term(actual(t)), r as u32),
						}
					}
					let m: BTreeMap<i64, i64> = m.iter().map(|(t, r)| (actual(*t), *r)).collect();
					observe(&mut w, &mut |v| {
						checks += 1;
						let ok = if v["e"] == "look" {
							v["r"].as_i64().unwrap() == m.get(&v["t"].as_i64().unwrap()).copied().unwrap_or(0)
						} else {
							let r = v["r"].as_i64().unwrap();
							let of = |f: &dyn Fn(i64) -> bool| -> Vec<i64> { m.iter().filter(|(t, x)| **x == r && f(**t)).map(|(t, _)| *t).collect() };
							let sorted = |k: &str| {
								let mut x = ints(&v[k]);
								x.sort();
								x
							};
							let iri = |t: i64| t <= 3 || (100..200).contains(&t);
							let lit = |t: i64| (4..=6).contains(&t) || (200..300).contains(&t);
							let blank = |t: i64| !iri(t) && !lit(t);
							sorted("i") == of(&iri)
								&& sorted("l") == of(&lit) && sorted("n") == of(&|t| !blank(t))
								&& (v["b"] == json!([-1]) || (sorted("b") == of(&blank) && sorted("a") == of(&|_| true)))
								&& (v["x"] == 1) == of(&|t| !blank(t)).is_empty()
						};
						if !ok {
							bad.push(v);
						}
					});
					if let Some(i) = w.interner() {
						let rs: Vec<u32> = i.try_resources().map(|r| match r { Ok(r) => *r, Err(_) => 0 }).collect();
						let want: Vec<u32> = i.all.clone();
						checks += 1;
						if rs != want {
							bad.push(json!({"try_resources": rs, "want": want}));
						}
					}
					if let Err(e) = w.parts(n) {
						bad.push(json!({"parts": e}));
					}
					(bad, checks)
				});
				match r {
					Err(p) => out.fail(json!({"history": h, "terms": texts(), "interpretation": KINDS[kind], "panic": p})),
					Ok((bad, checks)) => {
						out.checks += checks;
						for b in bad {
							out.fail(json!({"history": h, "terms": texts(), "interpretation": KINDS[kind], "disagreement": b}));
						}
					}
				}
			}
		}
		out
	})
}

/// record-interp SEED HISTORIES FILES PREFIX
pub fn record(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let n: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(31337) + f as u64 * 49979687 + 17);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			for _ in 0..(n + files - 1) / files {
				let kind = rng.below(KINDS.len());
				let lit = rng.chance(1, 2);
				palette(&mut rng);
				beat_case(|| format!("{} {}", KINDS[kind], texts()));
				out.cases += 1;
				out.count(KINDS[kind], 1);
				let r = guarded(|| {
					let mut w = W::new(kind, lit);
					let mut evs: Vec<Value> = vec![json!({"e": "reset", "transparent": w.transparent() as i64, "kind": KINDS[kind], "terms": texts()})];
					for _ in 0..2 + rng.below(14) {
						match rng.below(10) {
							0..=4 => {
								let k = 1 + rng.below(9) as i64;
								let route = rng.below(60);
								if let Some(r) = w.insert(k, route) {
									evs.push(json!({"e": "ins", "t": k, "r": r, "route": route}));
								}
							}
							5 | 6 => {
								if let Some((k, r)) = w.fresh(rng.below(6)) {
									evs.push(json!({"e": "new", "t": k, "r": r}));
								}
							}
							7 => {
								let k = 1 + rng.below(9) as i64;
								if let Some(i) = w.interner() {
									if !i.all.is_empty() && i.get(&term(k)).is_none() {
										let r = *rng.pick(&i.all);
										i.alias(term(k), r);
										evs.push(json!({"e": "alias", "t": k, "r": r}));
									}
								}
							}
							_ => {
								let k = 1 + rng.below(9) as i64;
								for (route, r) in w.look(k) {
									evs.push(json!({"e": "look", "t": k, "r": r, "route": route}));
								}
							}
						}
					}
					observe(&mut w, &mut |v| evs.push(v));
					evs
				});
				match r {
					Err(p) => out.fail(json!({"interpretation": KINDS[kind], "terms": texts(), "panic": p})),
					Ok(evs) => {
						for e in evs {
							out.checks += 1;
							t.put(&e);
						}
					}
				}
			}
			t.finish();
		}
		out
	})
}
