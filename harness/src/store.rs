//! The four containers behind one face, and the observations made on them.
use crate::cat::{Cat, Res};
use crate::util::{probe, way};
use crate::pat::{build_q, build_t, comp, C};
use rdf_types::dataset::fallible::{FallibleDatasetMut, FalliblePatternMatchingDataset, FallibleTraversableDataset};
use rdf_types::dataset::fallible_graph::{FallibleGraphMut, FalliblePatternMatchingGraph, FallibleTraversableGraph};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub type Q = [i64; 4];
/// Longest answer read from an iterator, in case it never ends.
static LIMIT: AtomicUsize = AtomicUsize::new(5000);
fn limit() -> usize {
	LIMIT.load(Relaxed)
}
pub fn set_limit(n: usize) {
	LIMIT.store(n, Relaxed)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	DI,
	DN,
	GI,
	GN,
}
impl Kind {
	pub fn is_graph(self) -> bool {
		matches!(self, Kind::GI | Kind::GN)
	}
	pub fn name(self) -> &'static str {
		match self {
			Kind::DI => "IndexedBTreeDataset",
			Kind::DN => "BTreeDataset",
			Kind::GI => "IndexedBTreeGraph",
			Kind::GN => "BTreeGraph",
		}
	}
}

pub enum Store<R> {
	DI(IndexedBTreeDataset<R>),
	DN(BTreeDataset<R>),
	GI(IndexedBTreeGraph<R>),
	GN(BTreeGraph<R>),
}

pub fn quad<R: Res>(c: &Cat<R>, q: Q) -> Quad<R> {
	Quad(c.t(q[0]), c.t(q[1]), c.t(q[2]), if q[3] == 0 { None } else { Some(c.t(q[3])) })
}
pub fn quad_ref<R: Res>(c: &Cat<R>, q: Q) -> Quad<&R> {
	Quad(c.r(q[0]), c.r(q[1]), c.r(q[2]), if q[3] == 0 { None } else { Some(c.r(q[3])) })
}
pub fn triple<R: Res>(c: &Cat<R>, q: Q) -> Triple<R> {
	Triple(c.t(q[0]), c.t(q[1]), c.t(q[2]))
}
pub fn triple_ref<R: Res>(c: &Cat<R>, q: Q) -> Triple<&R> {
	Triple(c.r(q[0]), c.r(q[1]), c.r(q[2]))
}
fn code<R: Res>(c: &Cat<R>, Quad(s, p, o, g): Quad<&R>) -> Q {
	[c.id(s), c.id(p), c.id(o), g.map(|g| c.id(g)).unwrap_or(0)]
}
fn tcode<R: Res>(c: &Cat<R>, Triple(s, p, o): Triple<&R>) -> Q {
	[c.id(s), c.id(p), c.id(o), 0]
}
pub fn qpat<R: Res>(c: &Cat<R>, p: Q) -> CanonicalQuadPattern<&R> {
	build_q([comp(p[0], |k| c.r(k)), comp(p[1], |k| c.r(k)), comp(p[2], |k| c.r(k)), comp(p[3], |k| c.r(k))])
}
pub fn tpat<R: Res>(c: &Cat<R>, p: Q) -> CanonicalTriplePattern<&R> {
	build_t([comp(p[0], |k| c.r(k)), comp(p[1], |k| c.r(k)), comp(p[2], |k| c.r(k))])
}
pub fn mpat<'a, R: Res>(c: &'a Cat<R>, p: &[Vec<i64>]) -> CanonicalQuadPattern<Vec<&'a R>> {
	let f = |m: &Vec<i64>| -> C<Vec<&'a R>> {
		if m[0] == 1 {
			C::Given(m[1..].iter().map(|&k| c.r(k)).collect())
		} else {
			comp(m[0], |_| unreachable!())
		}
	};
	build_q([f(&p[0]), f(&p[1]), f(&p[2]), f(&p[3])])
}
fn h<T: Hash>(t: &T) -> u64 {
	let mut s = DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}
fn ord(o: Ordering) -> i64 {
	match o {
		Ordering::Less => -1,
		Ordering::Equal => 0,
		Ordering::Greater => 1,
	}
}

/// A container offering only what the traits require, so that what they provide by default
/// (counts, membership helpers, the dataset face of a graph) is exercised as well.
struct Bare<'a, D>(&'a D);
type DI<R> = IndexedBTreeDataset<R>;
type GI<R> = IndexedBTreeGraph<R>;
impl<R: Res> Dataset for Bare<'_, DI<R>> {
	type Resource = R;
}
macro_rules! bare {
	($D:ident, $T:ident, $I:ident, $f:ident) => {
		impl<R: Res> $T for Bare<'_, $D<R>> {
			type $I<'b>
				= <$D<R> as $T>::$I<'b>
			where
				Self: 'b;
			fn $f(&self) -> Self::$I<'_> {
				$T::$f(self.0)
			}
		}
	};
}
bare!(DI, TraversableDataset, Quads, quads);
bare!(DI, ResourceTraversableDataset, Resources, resources);
bare!(DI, SubjectTraversableDataset, Subjects, subjects);
bare!(DI, PredicateTraversableDataset, Predicates, predicates);
bare!(DI, ObjectTraversableDataset, Objects, objects);
bare!(DI, NamedGraphTraversableDataset, NamedGraphs, named_graphs);
impl<R: Res> PatternMatchingDataset for Bare<'_, DI<R>> {
	type QuadPatternMatching<'b, 'p>
		= <DI<R> as PatternMatchingDataset>::QuadPatternMatching<'b, 'p>
	where
		Self: 'b,
		R: 'p;
	fn quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p R>) -> Self::QuadPatternMatching<'_, 'p> {
		self.0.quad_pattern_matching(p)
	}
}
impl<R: Res> Graph for Bare<'_, GI<R>> {
	type Resource = R;
}
bare!(GI, TraversableGraph, Triples, triples);
bare!(GI, ResourceTraversableGraph, GraphResources, graph_resources);
bare!(GI, SubjectTraversableGraph, GraphSubjects, graph_subjects);
bare!(GI, PredicateTraversableGraph, GraphPredicates, graph_predicates);
bare!(GI, ObjectTraversableGraph, GraphObjects, graph_objects);
impl<R: Res> PatternMatchingGraph for Bare<'_, GI<R>> {
	type TriplePatternMatching<'b, 'p>
		= <GI<R> as PatternMatchingGraph>::TriplePatternMatching<'b, 'p>
	where
		Self: 'b,
		R: 'p;
	fn triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p R>) -> Self::TriplePatternMatching<'_, 'p> {
		self.0.triple_pattern_matching(p)
	}
}
fn ds_counts<D>(d: &D) -> [i64; 6]
where
	D: TraversableDataset + ResourceTraversableDataset + SubjectTraversableDataset + PredicateTraversableDataset + ObjectTraversableDataset + NamedGraphTraversableDataset,
{
	[
		d.resource_count() as i64,
		d.subject_count() as i64,
		d.predicate_count() as i64,
		d.object_count() as i64,
		d.named_graph_count() as i64,
		d.quads_count() as i64,
	]
}

impl<R: Res> Store<R> {
	pub fn new(k: Kind) -> Self {
		match k {
			Kind::DI => Store::DI(IndexedBTreeDataset::new()),
			Kind::DN => Store::DN(BTreeDataset::new()),
			Kind::GI => Store::GI(IndexedBTreeGraph::new()),
			Kind::GN => Store::GN(BTreeGraph::new()),
		}
	}
	pub fn kind(&self) -> Kind {
		match self {
			Store::DI(_) => Kind::DI,
			Store::DN(_) => Kind::DN,
			Store::GI(_) => Kind::GI,
			Store::GN(_) => Kind::GN,
		}
	}
	/// Insertion; `via` 0: inherent (with result), 1: mutable trait, 2: fallible trait.
	pub fn insert(&mut self, c: &Cat<R>, q: Q, via: usize) -> i64 {
		match (self, via) {
			(Store::DI(d), 0) => d.insert(quad(c, q)) as i64,
			(Store::DN(d), 0) => d.insert(quad(c, q)) as i64,
			(Store::GI(d), 0) => d.insert(triple(c, q)) as i64,
			(Store::GN(d), 0) => d.insert(triple(c, q)) as i64,
			(Store::DI(d), 1) => {
				DatasetMut::insert(d, quad(c, q));
				-1
			}
			(Store::DN(d), 1) => {
				DatasetMut::insert(d, quad(c, q));
				-1
			}
			(Store::GI(d), 1) => {
				GraphMut::insert(d, triple(c, q));
				-1
			}
			(Store::GN(d), 1) => {
				GraphMut::insert(d, triple(c, q));
				-1
			}
			(Store::DI(d), _) => {
				FallibleDatasetMut::try_insert(d, quad(c, q)).unwrap();
				-1
			}
			(Store::DN(d), _) => {
				FallibleDatasetMut::try_insert(d, quad(c, q)).unwrap();
				-1
			}
			(Store::GI(d), _) => {
				FallibleGraphMut::try_insert(d, triple(c, q)).unwrap();
				-1
			}
			(Store::GN(d), _) => {
				FallibleGraphMut::try_insert(d, triple(c, q)).unwrap();
				-1
			}
		}
	}
	pub fn remove(&mut self, c: &Cat<R>, q: Q, via: usize) -> i64 {
		match (self, via) {
			(Store::DI(d), 0) => d.remove(quad_ref(c, q)) as i64,
			(Store::DN(d), 0) => d.remove(quad_ref(c, q)) as i64,
			(Store::GI(d), 0) => d.remove(triple_ref(c, q)) as i64,
			(Store::GN(d), 0) => d.remove(triple_ref(c, q)) as i64,
			(Store::DI(d), _) => {
				DatasetMut::remove(d, quad_ref(c, q));
				-1
			}
			(Store::DN(d), _) => {
				DatasetMut::remove(d, quad_ref(c, q));
				-1
			}
			(Store::GI(d), _) => {
				GraphMut::remove(d, triple_ref(c, q));
				-1
			}
			(Store::GN(d), _) => {
				GraphMut::remove(d, triple_ref(c, q));
				-1
			}
		}
	}
	/// Only on indexed datasets.
	pub fn remove_graph(&mut self, c: &Cat<R>, g: i64) -> Option<BTreeGraph<R>> {
		match self {
			Store::DI(d) => d.remove_graph(if g == 0 { None } else { Some(c.r(g)) }),
			_ => panic!("remove_graph on another container"),
		}
	}
	pub fn extract(&mut self, c: &Cat<R>, p: Q, n: usize) -> Vec<Q> {
		match self {
			Store::DI(d) => {
				let mut out = Vec::new();
				let mut it = d.extract_pattern_matching(qpat(c, p));
				let step = way();
				while out.len() < n.min(limit()) {
					match if (step + out.len()) % 3 == 0 { it.nth(0) } else { it.next() } {
						Some(q) => out.push(code(c, Quad(&q.0, &q.1, &q.2, q.3.as_ref()))),
						None => break,
					}
				}
				out
			}
			_ => panic!("extract on another container"),
		}
	}
	pub fn len(&self) -> i64 {
		match self {
			Store::DI(d) => d.len() as i64,
			Store::DN(d) => d.len() as i64,
			Store::GI(d) => d.len() as i64,
			Store::GN(d) => d.len() as i64,
		}
	}
	pub fn is_empty(&self) -> bool {
		match self {
			Store::DI(d) => d.is_empty(),
			Store::DN(d) => d.is_empty(),
			Store::GI(d) => d.is_empty(),
			Store::GN(d) => d.is_empty(),
		}
	}
	pub fn contains(&self, c: &Cat<R>, q: Q) -> bool {
		match self {
			Store::DI(d) => d.contains(quad_ref(c, q)),
			Store::DN(d) => d.contains(quad_ref(c, q)),
			Store::GI(d) => q[3] == 0 && d.contains(triple_ref(c, q)),
			Store::GN(d) => q[3] == 0 && d.contains(triple_ref(c, q)),
		}
	}
	/// Traversals; `via` selects the route: 0 iter, 1 &into_iter, 2 trait, 3 fallible,
	/// 4 graph as dataset, 5 graph as fallible dataset, 6 a copy of the iterator half-way.
	pub fn iter(&self, c: &Cat<R>, via: usize) -> Vec<Q> {
		macro_rules! ds {
			($d:expr) => {
				match via {
					0 => probe(limit(), true, || $d.iter(), |q| code(c, q)),
					1 => probe(limit(), true, || (&*$d).into_iter(), |q| code(c, q)),
					3 | 5 => probe(limit(), true, || $d.try_quads(), |q| code(c, q.unwrap())),
					6 => {
						let mut a = $d.iter();
						let mut out: Vec<Q> = a.by_ref().take($d.len() / 2).map(|q| code(c, q)).collect();
						let b = a;
						let rest: Vec<Q> = a.take(limit()).map(|q| code(c, q)).collect();
						let rest2: Vec<Q> = b.take(limit()).map(|q| code(c, q)).collect();
						out.extend(if rest == rest2 { rest } else { vec![[-98; 4]] });
						out
					}
					_ => probe(limit(), true, || TraversableDataset::quads($d), |q| code(c, q)),
				}
			};
		}
		macro_rules! gr {
			($d:expr) => {
				match via {
					0 => probe(limit(), true, || $d.iter(), |q| tcode(c, q)),
					1 => probe(limit(), true, || (&*$d).into_iter(), |q| tcode(c, q)),
					2 => probe(limit(), true, || TraversableGraph::triples($d), |q| tcode(c, q)),
					3 => probe(limit(), true, || $d.try_triples(), |q| tcode(c, q.unwrap())),
					5 => probe(limit(), true, || $d.try_quads(), |q| code(c, q.unwrap())),
					6 => {
						let mut a = $d.iter();
						let mut out: Vec<Q> = a.by_ref().take($d.len() / 2).map(|q| tcode(c, q)).collect();
						let b = a;
						let rest: Vec<Q> = a.take(limit()).map(|q| tcode(c, q)).collect();
						let rest2: Vec<Q> = b.take(limit()).map(|q| tcode(c, q)).collect();
						out.extend(if rest == rest2 { rest } else { vec![[-98; 4]] });
						out
					}
					_ => probe(limit(), true, || TraversableDataset::quads($d), |q| code(c, q)),
				}
			};
		}
		match self {
			Store::DI(d) => ds!(d),
			Store::DN(d) => ds!(d),
			Store::GI(d) => gr!(d),
			Store::GN(d) => gr!(d),
		}
	}
	/// Consumes the container through its by-value iterator.
	pub fn drain(self, c: &Cat<R>) -> Vec<Q> {
		match self {
			Store::DI(d) => once_through(d.into_iter(), |q| code(c, q.as_ref())),
			Store::DN(d) => once_through(d.into_iter(), |q| code(c, q.as_ref())),
			Store::GI(d) => once_through(d.into_iter(), |q| tcode(c, q.as_ref())),
			Store::GN(d) => once_through(d.into_iter(), |q| tcode(c, q.as_ref())),
		}
	}
	pub fn resources(&self, c: &Cat<R>, via: usize) -> Vec<i64> {
		macro_rules! go {
			($e:expr) => {
				probe(limit(), true, || $e, |r| c.id(r))
			};
		}
		match (self, via) {
			(Store::DI(d), 0) => go!(d.resources()),
			(Store::DN(d), 0) => go!(d.resources()),
			(Store::GI(d), 0) => go!(d.resources()),
			(Store::GN(d), 0) => go!(d.resources()),
			(Store::GI(d), 1) => go!(ResourceTraversableGraph::graph_resources(d)),
			(Store::GN(d), 1) => go!(ResourceTraversableGraph::graph_resources(d)),
			(Store::DI(d), _) => go!(ResourceTraversableDataset::resources(d)),
			(Store::DN(d), _) => go!(ResourceTraversableDataset::resources(d)),
			(Store::GI(d), _) => go!(ResourceTraversableDataset::resources(d)),
			(Store::GN(d), _) => go!(ResourceTraversableDataset::resources(d)),
		}
	}
	pub fn contains_resource(&self, c: &Cat<R>, k: i64) -> bool {
		match self {
			Store::DI(d) => d.contains_resource(c.r(k)),
			Store::DN(d) => d.contains_resource(c.r(k)),
			Store::GI(d) => d.contains_resource(c.r(k)),
			Store::GN(d) => d.contains_resource(c.r(k)),
		}
	}
	/// Role listings (0 subjects, 1 predicates, 2 objects, 3 named graphs), `None` where not offered.
	pub fn role(&self, c: &Cat<R>, role: usize, via: usize) -> Option<Vec<i64>> {
		macro_rules! go {
			($e:expr) => {
				Some(probe(limit(), false, || $e, |r| c.id(r)))
			};
		}
		match (self, role, via) {
			(Store::DI(d), 0, 0) => go!(d.subjects()),
			(Store::DI(d), 1, 0) => go!(d.predicates()),
			(Store::DI(d), 2, 0) => go!(d.objects()),
			(Store::DI(d), 3, 0) => go!(d.named_graphs()),
			(Store::DI(d), 0, _) => go!(SubjectTraversableDataset::subjects(d)),
			(Store::DI(d), 1, _) => go!(PredicateTraversableDataset::predicates(d)),
			(Store::DI(d), 2, _) => go!(ObjectTraversableDataset::objects(d)),
			(Store::DI(d), 3, _) => go!(NamedGraphTraversableDataset::named_graphs(d)),
			(Store::GI(d), 0, 0) => go!(d.subjects()),
			(Store::GI(d), 1, 0) => go!(d.predicates()),
			(Store::GI(d), 2, 0) => go!(d.objects()),
			(Store::GI(d), 0, 1) => go!(SubjectTraversableGraph::graph_subjects(d)),
			(Store::GI(d), 1, 1) => go!(PredicateTraversableGraph::graph_predicates(d)),
			(Store::GI(d), 2, 1) => go!(ObjectTraversableGraph::graph_objects(d)),
			(Store::GI(d), 0, _) => go!(SubjectTraversableDataset::subjects(d)),
			(Store::GI(d), 1, _) => go!(PredicateTraversableDataset::predicates(d)),
			(Store::GI(d), 2, _) => go!(ObjectTraversableDataset::objects(d)),
			(Store::GI(d), 3, _) => go!(NamedGraphTraversableDataset::named_graphs(d)),
			(Store::GN(d), 3, _) => go!(NamedGraphTraversableDataset::named_graphs(d)),
			_ => None,
		}
	}
	/// resources, subjects, predicates, objects, named graphs, quads; -1 where not offered.
	pub fn counts(&self, via: usize) -> [i64; 6] {
		match (self, via) {
			(Store::DI(d), 2) => ds_counts(&Bare(d)),
			(Store::DI(d), _) => ds_counts(d),
			(Store::DN(d), _) => [ResourceTraversableDataset::resource_count(d) as i64, -1, -1, -1, -1, TraversableDataset::quads_count(d) as i64],
			(Store::GI(d), 0) => [
				ResourceTraversableGraph::graph_resource_count(d) as i64,
				SubjectTraversableGraph::graph_subject_count(d) as i64,
				PredicateTraversableGraph::graph_predicate_count(d) as i64,
				ObjectTraversableGraph::graph_object_count(d) as i64,
				0,
				TraversableGraph::triples_count(d) as i64,
			],
			(Store::GI(d), 1) => ds_counts(d),
			(Store::GI(d), _) => ds_counts(&Bare(d)),
			(Store::GN(d), 0) => [ResourceTraversableGraph::graph_resource_count(d) as i64, -1, -1, -1, 0, TraversableGraph::triples_count(d) as i64],
			(Store::GN(d), _) => [
				ResourceTraversableDataset::resource_count(d) as i64,
				-1,
				-1,
				-1,
				NamedGraphTraversableDataset::named_graph_count(d) as i64,
				TraversableDataset::quads_count(d) as i64,
			],
		}
	}
	/// Whether patterns can be matched at all.
	pub fn matches_patterns(&self) -> bool {
		matches!(self, Store::DI(_) | Store::GI(_))
	}
	/// Pattern matching; via 0 inherent, 1 trait, 2 fallible. Triple routes ignore the graph part
	/// and are used only for patterns with any graph.
	pub fn pattern(&self, c: &Cat<R>, p: Q, via: usize) -> Vec<Q> {
		match (self, via) {
			(Store::DI(d), 0) => probe(limit(), false, || d.pattern_matching(qpat(c, p)), |q| code(c, q)),
			(Store::DI(d), 1) => probe(limit(), false, || d.quad_pattern_matching(qpat(c, p)), |q| code(c, q)),
			(Store::DI(d), _) => probe(limit(), false, || d.try_quad_pattern_matching(qpat(c, p)), |q| code(c, q.unwrap())),
			(Store::GI(d), 0) if p[3] == -1 => probe(limit(), false, || d.pattern_matching(tpat(c, p)), |q| tcode(c, q)),
			(Store::GI(d), 1) if p[3] == -1 => probe(limit(), false, || d.triple_pattern_matching(tpat(c, p)), |q| tcode(c, q)),
			(Store::GI(d), 2) if p[3] == -1 => probe(limit(), false, || d.try_triple_pattern_matching(tpat(c, p)), |q| tcode(c, q.unwrap())),
			(Store::GI(d), 3) => probe(limit(), false, || d.try_quad_pattern_matching(qpat(c, p)), |q| code(c, q.unwrap())),
			(Store::GI(d), _) => probe(limit(), false, || d.quad_pattern_matching(qpat(c, p)), |q| code(c, q)),
			_ => panic!("no pattern matching"),
		}
	}
	pub fn multi(&self, c: &Cat<R>, p: &[Vec<i64>], via: usize) -> Vec<Q> {
		match (self, via) {
			(Store::DI(d), 0) => probe(limit(), false, || d.multi_pattern_matching(mpat(c, p)), |q| code(c, q)),
			(Store::DI(d), _) => probe(limit(), false, || d.quad_multi_pattern_matching(mpat(c, p)), |q| code(c, q)),
			_ => panic!("no multi pattern matching"),
		}
	}
	/// contains_* helpers of the pattern-matching traits; what 0 quad, 1 subject, 2 predicate, 3 object, 4 named graph.
	pub fn has(&self, c: &Cat<R>, what: usize, q: Q, via: usize) -> bool {
		match (self, what, via) {
			(Store::DI(d), _, 2) => {
				let d = Bare(d);
				match what {
					0 => d.contains_quad(quad_ref(c, q)),
					1 => d.contains_quad_subject(c.r(q[0])),
					2 => d.contains_quad_predicate(c.r(q[0])),
					3 => d.contains_quad_object(c.r(q[0])),
					_ => d.contains_named_graph(c.r(q[0])),
				}
			}
			(Store::GI(d), _, 2) => {
				let d = Bare(d);
				match what {
					0 if q[3] == 0 => d.contains_triple(triple_ref(c, q)),
					0 => d.contains_quad(quad_ref(c, q)),
					1 => d.contains_triple_subject(c.r(q[0])),
					2 => d.contains_triple_predicate(c.r(q[0])),
					3 => d.contains_triple_object(c.r(q[0])),
					_ => d.contains_named_graph(c.r(q[0])),
				}
			}
			(Store::DI(d), 0, _) => d.contains_quad(quad_ref(c, q)),
			(Store::DI(d), 1, _) => d.contains_quad_subject(c.r(q[0])),
			(Store::DI(d), 2, _) => d.contains_quad_predicate(c.r(q[0])),
			(Store::DI(d), 3, _) => d.contains_quad_object(c.r(q[0])),
			(Store::DI(d), 4, _) => d.contains_named_graph(c.r(q[0])),
			(Store::GI(d), 0, 0) if q[3] == 0 => d.contains_triple(triple_ref(c, q)),
			(Store::GI(d), 1, 0) => d.contains_triple_subject(c.r(q[0])),
			(Store::GI(d), 2, 0) => d.contains_triple_predicate(c.r(q[0])),
			(Store::GI(d), 3, 0) => d.contains_triple_object(c.r(q[0])),
			(Store::GI(d), 0, _) => d.contains_quad(quad_ref(c, q)),
			(Store::GI(d), 1, _) => d.contains_quad_subject(c.r(q[0])),
			(Store::GI(d), 2, _) => d.contains_quad_predicate(c.r(q[0])),
			(Store::GI(d), 3, _) => d.contains_quad_object(c.r(q[0])),
			(Store::GI(d), 4, _) => d.contains_named_graph(c.r(q[0])),
			_ => panic!("no pattern matching"),
		}
	}
	pub fn try_contains_triple(&self, c: &Cat<R>, q: Q, via: usize) -> bool {
		match (self, via) {
			(Store::DI(d), 2) => FalliblePatternMatchingDataset::try_contains_triple(&Bare(d), triple_ref(c, q)).unwrap(),
			(Store::GI(d), 2) => FalliblePatternMatchingGraph::try_contains_triple(&Bare(d), triple_ref(c, q)).unwrap(),
			(Store::DI(d), _) => FalliblePatternMatchingDataset::try_contains_triple(d, triple_ref(c, q)).unwrap(),
			(Store::GI(d), 0) => FalliblePatternMatchingGraph::try_contains_triple(d, triple_ref(c, q)).unwrap(),
			(Store::GI(d), _) => FalliblePatternMatchingDataset::try_contains_triple(d, triple_ref(c, q)).unwrap(),
			_ => panic!("no pattern matching"),
		}
	}
	pub fn quad_objects(&self, c: &Cat<R>, g: i64, s: i64, p: i64, via: usize) -> Vec<i64> {
		let gr = if g == 0 { None } else { Some(c.r(g)) };
		match (self, via) {
			(Store::DI(d), 2) => Bare(d).quad_objects(gr, c.r(s), c.r(p)).take(limit()).map(|r| c.id(r)).collect(),
			(Store::GI(d), 2) if g == 0 => Bare(d).triple_objects(c.r(s), c.r(p)).take(limit()).map(|r| c.id(r)).collect(),
			(Store::DI(d), _) => probe(limit(), false, || d.quad_objects(gr, c.r(s), c.r(p)), |r| c.id(r)),
			(Store::GI(d), 0) if g == 0 => probe(limit(), false, || d.triple_objects(c.r(s), c.r(p)), |r| c.id(r)),
			(Store::GI(d), _) => probe(limit(), false, || d.quad_objects(gr, c.r(s), c.r(p)), |r| c.id(r)),
			_ => panic!("no pattern matching"),
		}
	}
	pub fn predicates_objects(&self, c: &Cat<R>, g: i64, s: i64, via: usize) -> Vec<(i64, Vec<i64>)> {
		let gr = if g == 0 { None } else { Some(c.r(g)) };
		match (self, via) {
			(Store::DI(d), _) => probe(limit(), false, || d.quad_predicates_objects(gr, c.r(s)), |(p, os)| (c.id(p), os.take(limit()).map(|r| c.id(r)).collect())),
			(Store::GI(d), 0) if g == 0 => probe(limit(), false, || d.triple_predicates_objects(c.r(s)), |(p, os)| (c.id(p), os.take(limit()).map(|r| c.id(r)).collect())),
			(Store::GI(d), _) => probe(limit(), false, || d.quad_predicates_objects(gr, c.r(s)), |(p, os)| (c.id(p), os.take(limit()).map(|r| c.id(r)).collect())),
			_ => panic!("no pattern matching"),
		}
	}
	/// <<equal, comparison, hashes equal>> with a container of the same kind; -9 when the
	/// several ways of comparing disagree.
	pub fn compare(&self, o: &Self) -> Option<[i64; 3]> {
		macro_rules! go {
			($a:expr, $b:expr) => {{
				let e = $a == $b;
				let e2 = !($a != $b);
				let p = $a.partial_cmp($b);
				let c = $a.cmp($b);
				let ok = e == e2 && p == Some(c) && ($a < $b) == (c == Ordering::Less) && ($a >= $b) == (c != Ordering::Less);
				Some([if ok { e as i64 } else { -9 }, ord(c), (h($a) == h($b)) as i64])
			}};
		}
		match (self, o) {
			(Store::DI(a), Store::DI(b)) => go!(a, b),
			(Store::DN(a), Store::DN(b)) => go!(a, b),
			(Store::GI(a), Store::GI(b)) => go!(a, b),
			(Store::GN(a), Store::GN(b)) => go!(a, b),
			_ => None,
		}
	}
	pub fn dup(&self) -> Self {
		match self {
			Store::DI(d) => Store::DI(d.clone()),
			Store::DN(d) => Store::DN(d.clone()),
			Store::GI(d) => Store::GI(d.clone()),
			Store::GN(d) => Store::GN(d.clone()),
		}
	}
	/// Takes over the content of another container of the same kind with `clone_from`.
	pub fn take_over(&mut self, o: &Self) -> bool {
		match (self, o) {
			(Store::DI(a), Store::DI(b)) => a.clone_from(b),
			(Store::DN(a), Store::DN(b)) => a.clone_from(b),
			(Store::GI(a), Store::GI(b)) => a.clone_from(b),
			(Store::GN(a), Store::GN(b)) => a.clone_from(b),
			_ => return false,
		}
		true
	}
	/// Written as JSON and read back, from a string or a reader.
	pub fn revive(&self, via: usize) -> Self {
		macro_rules! go {
			($k:path, $d:expr) => {{
				let j = serde_json::to_string($d).expect("not written");
				$k(if via % 2 == 0 { serde_json::from_str(&j) } else { serde_json::from_reader(j.as_bytes()) }.expect("written form refused"))
			}};
		}
		match self {
			Store::DI(d) => go!(Store::DI, d),
			Store::DN(d) => go!(Store::DN, d),
			Store::GI(d) => go!(Store::GI, d),
			Store::GN(d) => go!(Store::GN, d),
		}
	}
	/// Collects quads into a container of kind `k`.
	pub fn collect(c: &Cat<R>, k: Kind, qs: &[Q]) -> Self {
		match k {
			Kind::DI => Store::DI(qs.iter().map(|&q| quad(c, q)).collect()),
			Kind::DN => Store::DN(qs.iter().map(|&q| quad(c, q)).collect()),
			Kind::GI => Store::GI(qs.iter().map(|&q| triple(c, q)).collect()),
			Kind::GN => Store::GN(qs.iter().map(|&q| triple(c, q)).collect()),
		}
	}
	pub fn extend(&mut self, c: &Cat<R>, qs: &[Q]) {
		match self {
			Store::DI(d) => d.extend(qs.iter().map(|&q| quad(c, q))),
			Store::DN(d) => d.extend(qs.iter().map(|&q| quad(c, q))),
			Store::GI(d) => d.extend(qs.iter().map(|&q| triple(c, q))),
			Store::GN(d) => d.extend(qs.iter().map(|&q| triple(c, q))),
		}
	}
	/// Moves the content, by value, into a container of kind `k`. `None` if not expressible.
	pub fn pour(self, k: Kind) -> Option<Self> {
		Some(match (self, k) {
			(Store::DI(d), Kind::DI) => Store::DI(d.into_iter().collect()),
			(Store::DI(d), Kind::DN) => Store::DN(d.into_iter().collect()),
			(Store::DN(d), Kind::DI) => Store::DI(d.into_iter().collect()),
			(Store::DN(d), Kind::DN) => Store::DN(d.into_iter().collect()),
			(Store::GI(d), Kind::GI) => Store::GI(d.into_iter().collect()),
			(Store::GI(d), Kind::GN) => Store::GN(d.into_iter().collect()),
			(Store::GN(d), Kind::GI) => Store::GI(d.into_iter().collect()),
			(Store::GN(d), Kind::GN) => Store::GN(d.into_iter().collect()),
			(Store::GI(d), Kind::DI) => Store::DI(TraversableDataset::quads(&d).map(|q| q.cloned()).collect()),
			(Store::GI(d), Kind::DN) => Store::DN(TraversableDataset::quads(&d).map(|q| q.cloned()).collect()),
			(Store::GN(d), Kind::DI) => Store::DI(TraversableDataset::quads(&d).map(|q| q.cloned()).collect()),
			(Store::GN(d), Kind::DN) => Store::DN(TraversableDataset::quads(&d).map(|q| q.cloned()).collect()),
			_ => return None,
		})
	}
	/// The indexed form of a non-indexed container, by each route.
	pub fn index(self, via: usize) -> Option<Self> {
		Some(match (self, via) {
			(Store::DN(d), 0) => Store::DI(d.into_indexed()),
			(Store::DN(d), 1) => Store::DI(IndexedBTreeDataset::from_non_indexed(d)),
			(Store::DN(d), _) => Store::DI(R::into_indexed_dataset(d)?),
			(Store::GN(d), 0) => Store::GI(d.into_indexed()),
			(Store::GN(d), 1) => Store::GI(IndexedBTreeGraph::from_non_indexed(d)),
			(Store::GN(d), _) => Store::GI(d.into()),
			_ => return None,
		})
	}
}

/// Observations on one container in the form TraceStore.tla checks.
pub struct Probe<'a, R> {
	pub c: &'a Cat<R>,
	pub pool: &'a [Q],
	pub terms: i64,
}
/// What an iterator that cannot be started again yields, consumed in one of several ways.
fn once_through<I: Iterator, T>(mut it: I, f: impl Fn(I::Item) -> T) -> Vec<T> {
	let (lo, hi) = it.size_hint();
	let mut v = Vec::new();
	match way() % 5 {
		0 => it.for_each(|x| v.push(f(x))),
		4 => {
			for _ in 0..way() % 5 {
				v.extend(it.next().map(&f));
			}
			it.for_each(|x| v.push(f(x)));
		}
		1 => {
			while let Some(x) = it.nth(0) {
				v.push(f(x));
				if v.len() >= limit() {
					break;
				}
			}
		}
		_ => v = it.take(limit()).map(f).collect(),
	}
	if v.len() < limit() && (lo > v.len() || hi.map(|h| h < v.len()).unwrap_or(false)) {
		panic!("an iterator announced {lo} to {hi:?} items and yields {}", v.len());
	}
	v
}
pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
	v.sort();
	v
}
impl<R: Res> Probe<'_, R> {
	pub fn membership(&self, s: &Store<R>, out: &mut Vec<Value>) {
		out.push(json!({"k": "len", "r": s.len()}));
		out.push(json!({"k": "empty", "r": s.is_empty() as i64}));
		let a: Vec<Q> = self.pool.iter().copied().filter(|q| !s.kind().is_graph() || q[3] == 0).collect();
		let r: Vec<i64> = a.iter().map(|&q| s.contains(self.c, q) as i64).collect();
		out.push(json!({"k": "has", "a": a, "r": r}));
	}
	pub fn iter(&self, s: &Store<R>, via: usize, out: &mut Vec<Value>) {
		out.push(json!({"k": "iter", "r": s.iter(self.c, via)}));
	}
	pub fn listings(&self, s: &Store<R>, via: usize, out: &mut Vec<Value>) {
		out.push(json!({"k": "res", "r": s.resources(self.c, via)}));
		let a: Vec<i64> = (1..=self.terms).collect();
		let r: Vec<i64> = a.iter().map(|&k| s.contains_resource(self.c, k) as i64).collect();
		out.push(json!({"k": "hasres", "a": a, "r": r}));
		for (i, k) in ["subj", "pred", "obj", "graphs"].iter().enumerate() {
			if let Some(v) = s.role(self.c, i, via) {
				out.push(json!({"k": k, "r": v}));
			}
		}
		out.push(json!({"k": "counts", "r": s.counts(via)}));
	}
	pub fn pattern(&self, s: &Store<R>, p: Q, via: usize, out: &mut Vec<Value>) {
		out.push(json!({"k": "pat", "a": p, "r": s.pattern(self.c, p, via)}));
	}
	pub fn helpers(&self, s: &Store<R>, via: usize, rng: &mut crate::util::Rng, out: &mut Vec<Value>) {
		let a: Vec<i64> = (1..=self.terms).collect();
		for (w, k) in [(1, "hass"), (2, "hasp"), (3, "haso"), (4, "hasg")] {
			let r: Vec<i64> = a.iter().map(|&x| s.has(self.c, w, [x, 0, 0, 0], if w == 4 { 1 } else { via }) as i64).collect();
			out.push(json!({"k": k, "a": a, "r": r}));
		}
		let ps: Vec<Q> = (0..6).map(|_| *rng.pick(self.pool)).collect();
		let r: Vec<i64> = ps.iter().map(|&q| s.has(self.c, 0, q, via) as i64).collect();
		out.push(json!({"k": "has", "a": ps, "r": r}));
		let r: Vec<i64> = ps.iter().map(|&q| s.try_contains_triple(self.c, q, via) as i64).collect();
		out.push(json!({"k": "hast", "a": ps, "r": r}));
		for _ in 0..4 {
			let q = *rng.pick(self.pool);
			out.push(json!({"k": "qo", "a": [q[3], q[0], q[1]], "r": s.quad_objects(self.c, q[3], q[0], q[1], via)}));
			let q = *rng.pick(self.pool);
			let r: Vec<Value> = s.predicates_objects(self.c, q[3], q[0], via).into_iter().map(|(p, o)| json!([p, o])).collect();
			out.push(json!({"k": "po", "a": [q[3], q[0]], "r": r}));
		}
	}
}

/// A random canonical pattern; when `like` is given, its constants are that quad's components.
pub fn random_pattern(rng: &mut crate::util::Rng, terms: i64, like: Option<Q>) -> Q {
	let t = |rng: &mut crate::util::Rng, i: usize| -> i64 {
		match like {
			Some(q) if !rng.chance(1, 12) => q[i],
			_ => 1 + rng.below(terms as usize) as i64,
		}
	};
	let mut p = [0i64; 4];
	p[0] = if rng.chance(1, 2) { -1 } else { t(rng, 0) };
	p[1] = match rng.below(4) {
		0 if p[0] == -1 => -2,
		0 | 1 => -1,
		_ => t(rng, 1),
	};
	p[2] = match rng.below(5) {
		0 if p[0] == -1 => -2,
		1 if p[1] == -1 => -3,
		0 | 1 | 2 => -1,
		_ => t(rng, 2),
	};
	p[3] = match rng.below(8) {
		0 if p[0] == -1 => -2,
		1 if p[1] == -1 => -3,
		2 if p[2] == -1 => -4,
		0..=4 => -1,
		5 => 0,
		_ => t(rng, 3),
	};
	p
}
pub fn random_multi(rng: &mut crate::util::Rng, terms: i64, like: Option<Q>) -> Vec<Vec<i64>> {
	let p = random_pattern(rng, terms, like);
	p.iter()
		.map(|&c| {
			if c >= 1 {
				let mut v = vec![1, c];
				for _ in 0..rng.below(4) {
					v.push(1 + rng.below(terms as usize) as i64);
				}
				if rng.chance(1, 4) {
					v.push(c);
				}
				if rng.chance(1, 12) {
					v.truncate(1);
				}
				let n = v.len();
				if n > 2 {
					let i = 1 + rng.below(n - 1);
					v.swap(1, i);
				}
				v
			} else {
				vec![c]
			}
		})
		.collect()
}
