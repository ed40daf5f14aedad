//! Canonical patterns to and from the integer codes of Pattern.tla, by their
//! public variants only (no conversion of the crate is used here).
use rdf_types::pattern::quad::canonical as q;
use rdf_types::pattern::triple::canonical as t;
use rdf_types::pattern::{CanonicalQuadPattern as CQ, CanonicalTriplePattern as CT};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum C<T> {
	Any,
	S,
	P,
	O,
	Default,
	Given(T),
}
pub const ANY: i64 = -1;
pub const SAME_S: i64 = -2;
pub const SAME_P: i64 = -3;
pub const SAME_O: i64 = -4;

pub fn comp<T>(c: i64, f: impl FnOnce(i64) -> T) -> C<T> {
	match c {
		-1 => C::Any,
		-2 => C::S,
		-3 => C::P,
		-4 => C::O,
		0 => C::Default,
		c => C::Given(f(c)),
	}
}
pub fn uncomp<T>(c: C<T>, f: impl FnOnce(T) -> i64) -> i64 {
	match c {
		C::Any => -1,
		C::S => -2,
		C::P => -3,
		C::O => -4,
		C::Default => 0,
		C::Given(t) => f(t),
	}
}

macro_rules! graph_leaf {
	($g:expr, $ty:ident $(, $same:ident => $v:ident)*) => {
		match $g {
			C::Any => q::$ty::AnyGraph,
			$(C::$same => q::$ty::$v,)*
			C::Default => q::$ty::GivenGraph(None),
			C::Given(g) => q::$ty::GivenGraph(Some(g)),
			#[allow(unreachable_patterns)]
			_ => panic!("bad pattern code"),
		}
	};
}
macro_rules! graph_code {
	($g:expr, $ty:ident $(, $same:ident => $v:ident)*) => {
		match $g {
			q::$ty::AnyGraph => C::Any,
			$(q::$ty::$v => C::$same,)*
			q::$ty::GivenGraph(None) => C::Default,
			q::$ty::GivenGraph(Some(g)) => C::Given(g),
		}
	};
}

pub fn build_q<T>(c: [C<T>; 4]) -> CQ<T> {
	let [s, p, o, g] = c;
	match s {
		C::Any => CQ::AnySubject(match p {
			C::Any => q::AnySubject::AnyPredicate(match o {
				C::Any => q::AnySubjectAnyPredicate::AnyObject(graph_leaf!(g, AnySubjectAnyPredicateAnyObject, S => SameAsSubject, P => SameAsPredicate, O => SameAsObject)),
				C::S => q::AnySubjectAnyPredicate::SameAsSubject(graph_leaf!(g, AnySubjectAnyPredicateGivenObject, S => SameAsSubject, P => SameAsPredicate)),
				C::P => q::AnySubjectAnyPredicate::SameAsPredicate(graph_leaf!(g, AnySubjectAnyPredicateGivenObject, S => SameAsSubject, P => SameAsPredicate)),
				C::Given(o) => q::AnySubjectAnyPredicate::GivenObject(o, graph_leaf!(g, AnySubjectAnyPredicateGivenObject, S => SameAsSubject, P => SameAsPredicate)),
				_ => panic!("bad pattern code"),
			}),
			C::S => q::AnySubject::SameAsSubject(asgp(o, g)),
			C::Given(p) => q::AnySubject::GivenPredicate(p, asgp(o, g)),
			_ => panic!("bad pattern code"),
		}),
		C::Given(s) => CQ::GivenSubject(
			s,
			match p {
				C::Any => q::GivenSubject::AnyPredicate(match o {
					C::Any => q::GivenSubjectAnyPredicate::AnyObject(graph_leaf!(g, GivenSubjectAnyPredicateAnyObject, P => SameAsPredicate, O => SameAsObject)),
					C::P => q::GivenSubjectAnyPredicate::SameAsPredicate(graph_leaf!(g, GivenSubjectAnyPredicateGivenObject, P => SameAsPredicate)),
					C::Given(o) => q::GivenSubjectAnyPredicate::GivenObject(o, graph_leaf!(g, GivenSubjectAnyPredicateGivenObject, P => SameAsPredicate)),
					_ => panic!("bad pattern code"),
				}),
				C::Given(p) => q::GivenSubject::GivenPredicate(
					p,
					match o {
						C::Any => q::GivenSubjectGivenPredicate::AnyObject(graph_leaf!(g, GivenSubjectGivenPredicateAnyObject, O => SameAsObject)),
						C::Given(o) => q::GivenSubjectGivenPredicate::GivenObject(o, graph_leaf!(g, GivenSubjectGivenPredicateGivenObject)),
						_ => panic!("bad pattern code"),
					},
				),
				_ => panic!("bad pattern code"),
			},
		),
		_ => panic!("bad pattern code"),
	}
}
fn asgp<T>(o: C<T>, g: C<T>) -> q::AnySubjectGivenPredicate<T> {
	match o {
		C::Any => q::AnySubjectGivenPredicate::AnyObject(graph_leaf!(g, AnySubjectGivenPredicateAnyObject, S => SameAsSubject, O => SameAsObject)),
		C::S => q::AnySubjectGivenPredicate::SameAsSubject(graph_leaf!(g, AnySubjectGivenPredicateGivenObject, S => SameAsSubject)),
		C::Given(o) => q::AnySubjectGivenPredicate::GivenObject(o, graph_leaf!(g, AnySubjectGivenPredicateGivenObject, S => SameAsSubject)),
		_ => panic!("bad pattern code"),
	}
}

pub fn code_q<T>(c: CQ<T>) -> [C<T>; 4] {
	match c {
		CQ::AnySubject(r) => match r {
			q::AnySubject::AnyPredicate(r) => match r {
				q::AnySubjectAnyPredicate::AnyObject(g) => [C::Any, C::Any, C::Any, graph_code!(g, AnySubjectAnyPredicateAnyObject, S => SameAsSubject, P => SameAsPredicate, O => SameAsObject)],
				q::AnySubjectAnyPredicate::SameAsSubject(g) => [C::Any, C::Any, C::S, graph_code!(g, AnySubjectAnyPredicateGivenObject, S => SameAsSubject, P => SameAsPredicate)],
				q::AnySubjectAnyPredicate::SameAsPredicate(g) => [C::Any, C::Any, C::P, graph_code!(g, AnySubjectAnyPredicateGivenObject, S => SameAsSubject, P => SameAsPredicate)],
				q::AnySubjectAnyPredicate::GivenObject(o, g) => [C::Any, C::Any, C::Given(o), graph_code!(g, AnySubjectAnyPredicateGivenObject, S => SameAsSubject, P => SameAsPredicate)],
			},
			q::AnySubject::SameAsSubject(r) => {
				let (o, g) = asgp_code(r);
				[C::Any, C::S, o, g]
			}
			q::AnySubject::GivenPredicate(p, r) => {
				let (o, g) = asgp_code(r);
				[C::Any, C::Given(p), o, g]
			}
		},
		CQ::GivenSubject(s, r) => match r {
			q::GivenSubject::AnyPredicate(r) => match r {
				q::GivenSubjectAnyPredicate::AnyObject(g) => [C::Given(s), C::Any, C::Any, graph_code!(g, GivenSubjectAnyPredicateAnyObject, P => SameAsPredicate, O => SameAsObject)],
				q::GivenSubjectAnyPredicate::SameAsPredicate(g) => [C::Given(s), C::Any, C::P, graph_code!(g, GivenSubjectAnyPredicateGivenObject, P => SameAsPredicate)],
				q::GivenSubjectAnyPredicate::GivenObject(o, g) => [C::Given(s), C::Any, C::Given(o), graph_code!(g, GivenSubjectAnyPredicateGivenObject, P => SameAsPredicate)],
			},
			q::GivenSubject::GivenPredicate(p, r) => match r {
				q::GivenSubjectGivenPredicate::AnyObject(g) => [C::Given(s), C::Given(p), C::Any, graph_code!(g, GivenSubjectGivenPredicateAnyObject, O => SameAsObject)],
				q::GivenSubjectGivenPredicate::GivenObject(o, g) => [C::Given(s), C::Given(p), C::Given(o), graph_code!(g, GivenSubjectGivenPredicateGivenObject)],
			},
		},
	}
}
fn asgp_code<T>(r: q::AnySubjectGivenPredicate<T>) -> (C<T>, C<T>) {
	match r {
		q::AnySubjectGivenPredicate::AnyObject(g) => (C::Any, graph_code!(g, AnySubjectGivenPredicateAnyObject, S => SameAsSubject, O => SameAsObject)),
		q::AnySubjectGivenPredicate::SameAsSubject(g) => (C::S, graph_code!(g, AnySubjectGivenPredicateGivenObject, S => SameAsSubject)),
		q::AnySubjectGivenPredicate::GivenObject(o, g) => (C::Given(o), graph_code!(g, AnySubjectGivenPredicateGivenObject, S => SameAsSubject)),
	}
}

pub fn build_t<T>(c: [C<T>; 3]) -> CT<T> {
	let [s, p, o] = c;
	match s {
		C::Any => CT::AnySubject(match p {
			C::Any => t::AnySubject::AnyPredicate(match o {
				C::Any => t::AnySubjectAnyPredicate::AnyObject,
				C::S => t::AnySubjectAnyPredicate::SameAsSubject,
				C::P => t::AnySubjectAnyPredicate::SameAsPredicate,
				C::Given(o) => t::AnySubjectAnyPredicate::GivenObject(o),
				_ => panic!("bad pattern code"),
			}),
			C::S => t::AnySubject::SameAsSubject(asgp_t(o)),
			C::Given(p) => t::AnySubject::GivenPredicate(p, asgp_t(o)),
			_ => panic!("bad pattern code"),
		}),
		C::Given(s) => CT::GivenSubject(
			s,
			match p {
				C::Any => t::GivenSubject::AnyPredicate(match o {
					C::Any => t::GivenSubjectAnyPredicate::AnyObject,
					C::P => t::GivenSubjectAnyPredicate::SameAsPredicate,
					C::Given(o) => t::GivenSubjectAnyPredicate::GivenObject(o),
					_ => panic!("bad pattern code"),
				}),
				C::Given(p) => t::GivenSubject::GivenPredicate(
					p,
					match o {
						C::Any => t::GivenSubjectGivenPredicate::AnyObject,
						C::Given(o) => t::GivenSubjectGivenPredicate::GivenObject(o),
						_ => panic!("bad pattern code"),
					},
				),
				_ => panic!("bad pattern code"),
			},
		),
		_ => panic!("bad pattern code"),
	}
}
fn asgp_t<T>(o: C<T>) -> t::AnySubjectGivenPredicate<T> {
	match o {
		C::Any => t::AnySubjectGivenPredicate::AnyObject,
		C::S => t::AnySubjectGivenPredicate::SameAsSubject,
		C::Given(o) => t::AnySubjectGivenPredicate::GivenObject(o),
		_ => panic!("bad pattern code"),
	}
}
pub fn code_t<T>(c: CT<T>) -> [C<T>; 3] {
	match c {
		CT::AnySubject(r) => match r {
			t::AnySubject::AnyPredicate(r) => [C::Any, C::Any, match r {
				t::AnySubjectAnyPredicate::AnyObject => C::Any,
				t::AnySubjectAnyPredicate::SameAsSubject => C::S,
				t::AnySubjectAnyPredicate::SameAsPredicate => C::P,
				t::AnySubjectAnyPredicate::GivenObject(o) => C::Given(o),
			}],
			t::AnySubject::SameAsSubject(r) => [C::Any, C::S, asgp_t_code(r)],
			t::AnySubject::GivenPredicate(p, r) => [C::Any, C::Given(p), asgp_t_code(r)],
		},
		CT::GivenSubject(s, r) => match r {
			t::GivenSubject::AnyPredicate(r) => [C::Given(s), C::Any, match r {
				t::GivenSubjectAnyPredicate::AnyObject => C::Any,
				t::GivenSubjectAnyPredicate::SameAsPredicate => C::P,
				t::GivenSubjectAnyPredicate::GivenObject(o) => C::Given(o),
			}],
			t::GivenSubject::GivenPredicate(p, r) => [C::Given(s), C::Given(p), match r {
				t::GivenSubjectGivenPredicate::AnyObject => C::Any,
				t::GivenSubjectGivenPredicate::GivenObject(o) => C::Given(o),
			}],
		},
	}
}
fn asgp_t_code<T>(r: t::AnySubjectGivenPredicate<T>) -> C<T> {
	match r {
		t::AnySubjectGivenPredicate::AnyObject => C::Any,
		t::AnySubjectGivenPredicate::SameAsSubject => C::S,
		t::AnySubjectGivenPredicate::GivenObject(o) => C::Given(o),
	}
}
