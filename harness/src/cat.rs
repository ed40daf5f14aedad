//! Resource types of the containers under test: catalogs of distinct values in
//! increasing order, so that term k of the specification is the k-th value.
use iref::IriBuf;
use rdf_types::{BlankIdBuf, Id, Literal, LiteralType, LocalTerm, Term};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Res: Clone + Ord + Hash + Debug + Send + Sync + serde::Serialize + serde::de::DeserializeOwned + 'static {
	const NAME: &'static str;
	fn values(n: usize) -> Vec<Self>;
	fn key(&self) -> String;
	fn quick(&self) -> Option<i64> {
		None
	}
	/// The `From` conversion to the indexed dataset, which exists for some resource types only.
	fn into_indexed_dataset(_: rdf_types::dataset::BTreeDataset<Self>) -> Option<rdf_types::dataset::IndexedBTreeDataset<Self>> {
		None
	}
}
impl Res for u32 {
	const NAME: &'static str = "u32";
	fn values(n: usize) -> Vec<u32> {
		(0..n as u32).map(|i| i * 7 + 3).collect()
	}
	fn key(&self) -> String {
		self.to_string()
	}
	fn quick(&self) -> Option<i64> {
		Some(((*self - 3) / 7 + 1) as i64)
	}
}
pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_string()).unwrap()
}
pub fn blank(s: &str) -> BlankIdBuf {
	// The harness builds its own identifiers; validity is not in question here.
	unsafe { BlankIdBuf::new_unchecked(s.to_string()) }
}
pub fn named_iri(s: &str) -> LocalTerm {
	LocalTerm::Named(Term::Iri(iri(s)))
}
pub fn lit(v: &str, t: &str) -> LocalTerm {
	LocalTerm::Named(Term::Literal(Literal::new(v.to_string(), LiteralType::Any(iri(t)))))
}
pub fn lang(v: &str, t: &str) -> LocalTerm {
	LocalTerm::Named(Term::Literal(Literal::new(v.to_string(), LiteralType::LangString(langtag::LangTagBuf::new(t.to_string()).unwrap()))))
}
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
impl Res for LocalTerm {
	const NAME: &'static str = "LocalTerm";
	fn values(n: usize) -> Vec<LocalTerm> {
		let mut v = vec![
			named_iri("http://example.org/a"),
			LocalTerm::Anonymous(blank("_:a")),
			lit("a", &format!("{XSD}string")),
			named_iri("http://example.org/ab"),
			LocalTerm::Anonymous(blank("_:ab")),
			lang("a", "en"),
			lit("ab", &format!("{XSD}string")),
			lit("a", &format!("{XSD}integer")),
			named_iri("http://example.org/"),
			LocalTerm::Anonymous(blank("_:0")),
			lang("a", "fr"),
			lit("", &format!("{XSD}string")),
			named_iri("urn:x"),
			LocalTerm::Anonymous(blank("_:b")),
			lit("é", &format!("{XSD}string")),
			named_iri("http://example.org/b#c"),
		];
		let mut k = 0;
		while v.len() < n {
			v.push(named_iri(&format!("http://example.org/n{k}")));
			k += 1;
		}
		v.truncate(n);
		v.sort();
		v
	}
	fn key(&self) -> String {
		term_key(self)
	}
	fn into_indexed_dataset(d: rdf_types::dataset::BTreeDataset<Self>) -> Option<rdf_types::dataset::IndexedBTreeDataset<Self>> {
		Some(d.into())
	}
}
pub fn term_key(t: &LocalTerm) -> String {
	match t {
		LocalTerm::Anonymous(b) => format!("B{}", b.as_str()),
		LocalTerm::Named(Term::Iri(i)) => format!("I{}", i.as_str()),
		LocalTerm::Named(Term::Literal(l)) => match &l.type_ {
			LiteralType::Any(t) => format!("L{}\0{}", t.as_str(), l.value),
			LiteralType::LangString(t) => format!("G{}\0{}", t.as_str(), l.value),
		},
	}
}
pub fn id_of(t: &Id) -> String {
	match t {
		Id::Iri(i) => format!("I{}", i.as_str()),
		Id::BlankId(b) => format!("B{}", b.as_str()),
	}
}

pub struct Cat<R> {
	pub terms: Vec<R>,
	index: HashMap<String, i64>,
}
impl<R: Res> Cat<R> {
	pub fn new(n: usize) -> Self {
		let terms = R::values(n);
		let index = terms.iter().enumerate().map(|(i, t)| (t.key(), i as i64 + 1)).collect();
		Self { terms, index }
	}
	/// Value of term k.
	pub fn t(&self, k: i64) -> R {
		self.terms[k as usize - 1].clone()
	}
	pub fn r(&self, k: i64) -> &R {
		&self.terms[k as usize - 1]
	}
	/// Number of a value, -99 when it is none of the catalog.
	pub fn id(&self, r: &R) -> i64 {
		if let Some(q) = r.quick() {
			return if q >= 1 && q as usize <= self.terms.len() { q } else { -99 };
		}
		self.index.get(&r.key()).copied().unwrap_or(-99)
	}
}
