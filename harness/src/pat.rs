//! Patterns of the reference model, their meaning, and their canonical form
//! built by hand (without the conversions under test).
use rdf_types::pattern::quad::canonical as qc;
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern, ResourceOrVar};
use rdf_types::{Quad, Triple};

use crate::common::Rng;
use crate::store::QRef;

/// Constraint on one position.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum C<T> {
	Any,
	/// Equal to the subject.
	S,
	/// Equal to the predicate.
	P,
	/// Equal to the object.
	O,
	Given(T),
}

/// Constraint on the graph.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum G<T> {
	Any,
	S,
	P,
	O,
	Given(Option<T>),
}

/// Pattern of the reference model, in canonical form: a position is only ever
/// linked to the first unconstrained position of its class.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Pat<T> {
	pub s: C<T>,
	pub p: C<T>,
	pub o: C<T>,
	pub g: G<T>,
}

/// Component of a pattern with variables.
pub type RV<T> = ResourceOrVar<T, u8>;

pub fn rv_given<T>(t: T) -> RV<T> {
	ResourceOrVar::Resource(t)
}

pub fn rv_var<T>(x: u8) -> RV<T> {
	ResourceOrVar::Var(x)
}

impl<T: Clone + PartialEq> Pat<T> {
	/// Meaning of a quad pattern with variables.
	pub fn of_vars(s: &RV<T>, p: &RV<T>, o: &RV<T>, g: Option<&RV<T>>) -> Self {
		use ResourceOrVar::*;
		let same = |a: &RV<T>, b: &RV<T>| matches!((a, b), (Var(a), Var(b)) if a == b);
		let cs = match s {
			Resource(t) => C::Given(t.clone()),
			Var(_) => C::Any,
		};
		let cp = match p {
			Resource(t) => C::Given(t.clone()),
			Var(_) if same(p, s) => C::S,
			Var(_) => C::Any,
		};
		let co = match o {
			Resource(t) => C::Given(t.clone()),
			Var(_) if same(o, s) => C::S,
			Var(_) if same(o, p) => C::P,
			Var(_) => C::Any,
		};
		let cg = match g {
			None => G::Given(None),
			Some(Resource(t)) => G::Given(Some(t.clone())),
			Some(g) if same(g, s) => G::S,
			Some(g) if same(g, p) => G::P,
			Some(g) if same(g, o) => G::O,
			Some(_) => G::Any,
		};
		Pat {
			s: cs,
			p: cp,
			o: co,
			g: cg,
		}
	}

	pub fn as_ref(&self) -> Pat<&T> {
		fn c<T>(c: &C<T>) -> C<&T> {
			match c {
				C::Any => C::Any,
				C::S => C::S,
				C::P => C::P,
				C::O => C::O,
				C::Given(t) => C::Given(t),
			}
		}
		Pat {
			s: c(&self.s),
			p: c(&self.p),
			o: c(&self.o),
			g: match &self.g {
				G::Any => G::Any,
				G::S => G::S,
				G::P => G::P,
				G::O => G::O,
				G::Given(t) => G::Given(t.as_ref()),
			},
		}
	}

	/// Does the statement satisfy the pattern?
	pub fn accepts(&self, q: QRef<'_, T>) -> bool {
		self.accepts_with(q, |t, v| t == v)
	}

	pub fn accepts_triple(&self, s: &T, p: &T, o: &T) -> bool {
		let c = |c: &C<T>, v: &T| match c {
			C::Any => true,
			C::S => v == s,
			C::P => v == p,
			C::O => v == o,
			C::Given(t) => t == v,
		};
		c(&self.s, s) && c(&self.p, p) && c(&self.o, o)
	}

	/// Builds the canonical pattern directly from its variants.
	pub fn build(self) -> CanonicalQuadPattern<T> {
		macro_rules! g4 {
			($ty:ident : $($v:ident)*) => {
				match self.g {
					G::Any => qc::$ty::AnyGraph,
					G::Given(g) => qc::$ty::GivenGraph(g),
					$(g4!(@pat $v) => g4!(@val $ty $v),)*
					#[allow(unreachable_patterns)]
					_ => panic!("harness: not a canonical pattern"),
				}
			};
			(@pat S) => { G::S }; (@pat P) => { G::P }; (@pat O) => { G::O };
			(@val $ty:ident S) => { qc::$ty::SameAsSubject };
			(@val $ty:ident P) => { qc::$ty::SameAsPredicate };
			(@val $ty:ident O) => { qc::$ty::SameAsObject };
		}

		match self.s {
			C::Any => CanonicalQuadPattern::AnySubject(match self.p {
				C::Any => qc::AnySubject::AnyPredicate(match self.o {
					C::Any => qc::AnySubjectAnyPredicate::AnyObject(
						g4!(AnySubjectAnyPredicateAnyObject : S P O),
					),
					C::S => qc::AnySubjectAnyPredicate::SameAsSubject(
						g4!(AnySubjectAnyPredicateGivenObject : S P),
					),
					C::P => qc::AnySubjectAnyPredicate::SameAsPredicate(
						g4!(AnySubjectAnyPredicateGivenObject : S P),
					),
					C::Given(o) => qc::AnySubjectAnyPredicate::GivenObject(
						o,
						g4!(AnySubjectAnyPredicateGivenObject : S P),
					),
					C::O => panic!("harness: not a canonical pattern"),
				}),
				C::S => qc::AnySubject::SameAsSubject(match self.o {
					C::Any => qc::AnySubjectGivenPredicate::AnyObject(
						g4!(AnySubjectGivenPredicateAnyObject : S O),
					),
					C::S => qc::AnySubjectGivenPredicate::SameAsSubject(
						g4!(AnySubjectGivenPredicateGivenObject : S),
					),
					C::Given(o) => qc::AnySubjectGivenPredicate::GivenObject(
						o,
						g4!(AnySubjectGivenPredicateGivenObject : S),
					),
					_ => panic!("harness: not a canonical pattern"),
				}),
				C::Given(p) => qc::AnySubject::GivenPredicate(
					p,
					match self.o {
						C::Any => qc::AnySubjectGivenPredicate::AnyObject(
							g4!(AnySubjectGivenPredicateAnyObject : S O),
						),
						C::S => qc::AnySubjectGivenPredicate::SameAsSubject(
							g4!(AnySubjectGivenPredicateGivenObject : S),
						),
						C::Given(o) => qc::AnySubjectGivenPredicate::GivenObject(
							o,
							g4!(AnySubjectGivenPredicateGivenObject : S),
						),
						_ => panic!("harness: not a canonical pattern"),
					},
				),
				_ => panic!("harness: not a canonical pattern"),
			}),
			C::Given(s) => CanonicalQuadPattern::GivenSubject(
				s,
				match self.p {
					C::Any => qc::GivenSubject::AnyPredicate(match self.o {
						C::Any => qc::GivenSubjectAnyPredicate::AnyObject(
							g4!(GivenSubjectAnyPredicateAnyObject : P O),
						),
						C::P => qc::GivenSubjectAnyPredicate::SameAsPredicate(
							g4!(GivenSubjectAnyPredicateGivenObject : P),
						),
						C::Given(o) => qc::GivenSubjectAnyPredicate::GivenObject(
							o,
							g4!(GivenSubjectAnyPredicateGivenObject : P),
						),
						_ => panic!("harness: not a canonical pattern"),
					}),
					C::Given(p) => qc::GivenSubject::GivenPredicate(
						p,
						match self.o {
							C::Any => qc::GivenSubjectGivenPredicate::AnyObject(
								g4!(GivenSubjectGivenPredicateAnyObject : O),
							),
							C::Given(o) => qc::GivenSubjectGivenPredicate::GivenObject(
								o,
								g4!(GivenSubjectGivenPredicateGivenObject :),
							),
							_ => panic!("harness: not a canonical pattern"),
						},
					),
					_ => panic!("harness: not a canonical pattern"),
				},
			),
			_ => panic!("harness: not a canonical pattern"),
		}
	}

	/// Builds the canonical triple pattern (ignoring the graph constraint).
	pub fn build_triple(self) -> CanonicalTriplePattern<T> {
		const BAD: &str = "harness: not a canonical pattern";
		match self.s {
			C::Any => CanonicalTriplePattern::AnySubject(match self.p {
				C::Any => tc::AnySubject::AnyPredicate(match self.o {
					C::Any => tc::AnySubjectAnyPredicate::AnyObject,
					C::S => tc::AnySubjectAnyPredicate::SameAsSubject,
					C::P => tc::AnySubjectAnyPredicate::SameAsPredicate,
					C::Given(o) => tc::AnySubjectAnyPredicate::GivenObject(o),
					_ => panic!("{BAD}"),
				}),
				C::S => tc::AnySubject::SameAsSubject(match self.o {
					C::Any => tc::AnySubjectGivenPredicate::AnyObject,
					C::S => tc::AnySubjectGivenPredicate::SameAsSubject,
					C::Given(o) => tc::AnySubjectGivenPredicate::GivenObject(o),
					_ => panic!("{BAD}"),
				}),
				C::Given(p) => tc::AnySubject::GivenPredicate(
					p,
					match self.o {
						C::Any => tc::AnySubjectGivenPredicate::AnyObject,
						C::S => tc::AnySubjectGivenPredicate::SameAsSubject,
						C::Given(o) => tc::AnySubjectGivenPredicate::GivenObject(o),
						_ => panic!("{BAD}"),
					},
				),
				_ => panic!("{BAD}"),
			}),
			C::Given(s) => CanonicalTriplePattern::GivenSubject(
				s,
				match self.p {
					C::Any => tc::GivenSubject::AnyPredicate(match self.o {
						C::Any => tc::GivenSubjectAnyPredicate::AnyObject,
						C::P => tc::GivenSubjectAnyPredicate::SameAsPredicate,
						C::Given(o) => tc::GivenSubjectAnyPredicate::GivenObject(o),
						_ => panic!("{BAD}"),
					}),
					C::Given(p) => tc::GivenSubject::GivenPredicate(
						p,
						match self.o {
							C::Any => tc::GivenSubjectGivenPredicate::AnyObject,
							C::Given(o) => tc::GivenSubjectGivenPredicate::GivenObject(o),
							_ => panic!("{BAD}"),
						},
					),
					_ => panic!("{BAD}"),
				},
			),
			_ => panic!("{BAD}"),
		}
	}

	/// Is the pattern one of the canonical shapes?
	pub fn is_canonical(&self) -> bool {
		let s_any = self.s == C::Any;
		let p_any = self.p == C::Any;
		let o_any = self.o == C::Any;
		(match self.s {
			C::Any | C::Given(_) => true,
			_ => false,
		}) && (match self.p {
			C::Any | C::Given(_) => true,
			C::S => s_any,
			_ => false,
		}) && (match self.o {
			C::Any | C::Given(_) => true,
			C::S => s_any,
			C::P => p_any,
			_ => false,
		}) && (match self.g {
			G::Any | G::Given(_) => true,
			G::S => s_any,
			G::P => p_any,
			G::O => o_any,
		})
	}
}

impl<T> Pat<T> {
	/// Meaning when the given components are of another type than the values.
	pub fn accepts_with<V: PartialEq>(
		&self,
		(s, p, o, g): QRef<'_, V>,
		eq: impl Fn(&T, &V) -> bool,
	) -> bool {
		let c = |c: &C<T>, v: &V| match c {
			C::Any => true,
			C::S => v == s,
			C::P => v == p,
			C::O => v == o,
			C::Given(t) => eq(t, v),
		};
		c(&self.s, s)
			&& c(&self.p, p)
			&& c(&self.o, o)
			&& match &self.g {
				G::Any => true,
				G::S => g == Some(s),
				G::P => g == Some(p),
				G::O => g == Some(o),
				G::Given(None) => g.is_none(),
				G::Given(Some(t)) => g.is_some_and(|g| eq(t, g)),
			}
	}

	pub fn map<U>(self, mut f: impl FnMut(T) -> U) -> Pat<U> {
		fn c<T, U>(c: C<T>, f: &mut impl FnMut(T) -> U) -> C<U> {
			match c {
				C::Any => C::Any,
				C::S => C::S,
				C::P => C::P,
				C::O => C::O,
				C::Given(t) => C::Given(f(t)),
			}
		}
		Pat {
			s: c(self.s, &mut f),
			p: c(self.p, &mut f),
			o: c(self.o, &mut f),
			g: match self.g {
				G::Any => G::Any,
				G::S => G::S,
				G::P => G::P,
				G::O => G::O,
				G::Given(t) => G::Given(t.map(f)),
			},
		}
	}
}

/// All the canonical quad pattern shapes; `Given(())` stands for a given value.
pub fn shapes() -> Vec<Pat<()>> {
	let mut v = Vec::new();
	for s in [C::Any, C::Given(())] {
		for p in [C::Any, C::S, C::Given(())] {
			for o in [C::Any, C::S, C::P, C::Given(())] {
				for g in [
					G::Any,
					G::S,
					G::P,
					G::O,
					G::Given(None),
					G::Given(Some(())),
				] {
					let pat = Pat { s, p, o, g };
					if pat.is_canonical() {
						v.push(pat)
					}
				}
			}
		}
	}
	v
}

/// Shapes of triple patterns (graph: any).
pub fn triple_shapes() -> Vec<Pat<()>> {
	shapes().into_iter().filter(|p| p.g == G::Any).collect()
}

/// Random canonical pattern over `u`.
pub fn random_pat<'u, T: Clone + PartialEq>(rng: &mut Rng, u: &'u [T]) -> Pat<&'u T> {
	loop {
		let given_bias = rng.below(3);
		let given = |rng: &mut Rng| rng.below(3) < given_bias;
		let s = if given(rng) {
			C::Given(rng.pick(u))
		} else {
			C::Any
		};
		let p = if given(rng) {
			C::Given(rng.pick(u))
		} else {
			*rng.pick(&[C::Any, C::Any, C::S])
		};
		let o = if given(rng) {
			C::Given(rng.pick(u))
		} else {
			*rng.pick(&[C::Any, C::Any, C::S, C::P])
		};
		let g = if given(rng) {
			G::Given(Some(rng.pick(u)))
		} else {
			*rng.pick(&[G::Any, G::Any, G::S, G::P, G::O, G::Given(None)])
		};
		let pat = Pat { s, p, o, g };
		if pat.is_canonical() {
			return pat;
		}
	}
}

/// Reads a quad pattern back through its accessors.
pub fn read_quad<T: Clone>(p: &CanonicalQuadPattern<T>) -> Pat<T> {
	Pat {
		s: qs(p.subject()).map_c(|t| t.clone()),
		p: qp(p.predicate()).map_c(|t| t.clone()),
		o: qo(p.object()).map_c(|t| t.clone()),
		g: match p.graph() {
			qc::PatternGraph::Any => G::Any,
			qc::PatternGraph::SameAsSubject => G::S,
			qc::PatternGraph::SameAsPredicate => G::P,
			qc::PatternGraph::SameAsObject => G::O,
			qc::PatternGraph::Given(g) => G::Given(g.cloned()),
		},
	}
}

impl<T> C<T> {
	pub fn map_c<U>(self, f: impl FnOnce(T) -> U) -> C<U> {
		match self {
			C::Any => C::Any,
			C::S => C::S,
			C::P => C::P,
			C::O => C::O,
			C::Given(t) => C::Given(f(t)),
		}
	}
}

pub fn qs<T>(c: qc::PatternSubject<T>) -> C<T> {
	match c {
		qc::PatternSubject::Any => C::Any,
		qc::PatternSubject::Given(t) => C::Given(t),
	}
}

pub fn qp<T>(c: qc::PatternPredicate<T>) -> C<T> {
	match c {
		qc::PatternPredicate::Any => C::Any,
		qc::PatternPredicate::SameAsSubject => C::S,
		qc::PatternPredicate::Given(t) => C::Given(t),
	}
}

pub fn qo<T>(c: qc::PatternObject<T>) -> C<T> {
	match c {
		qc::PatternObject::Any => C::Any,
		qc::PatternObject::SameAsSubject => C::S,
		qc::PatternObject::SameAsPredicate => C::P,
		qc::PatternObject::Given(t) => C::Given(t),
	}
}

pub fn qg<T>(c: qc::PatternGraph<T>) -> G<T> {
	match c {
		qc::PatternGraph::Any => G::Any,
		qc::PatternGraph::SameAsSubject => G::S,
		qc::PatternGraph::SameAsPredicate => G::P,
		qc::PatternGraph::SameAsObject => G::O,
		qc::PatternGraph::Given(t) => G::Given(t),
	}
}

pub fn ts<T>(c: tc::PatternSubject<T>) -> C<T> {
	match c {
		tc::PatternSubject::Any => C::Any,
		tc::PatternSubject::Given(t) => C::Given(t),
	}
}

pub fn tp<T>(c: tc::PatternPredicate<T>) -> C<T> {
	match c {
		tc::PatternPredicate::Any => C::Any,
		tc::PatternPredicate::SameAsSubject => C::S,
		tc::PatternPredicate::Given(t) => C::Given(t),
	}
}

pub fn to<T>(c: tc::PatternObject<T>) -> C<T> {
	match c {
		tc::PatternObject::Any => C::Any,
		tc::PatternObject::SameAsSubject => C::S,
		tc::PatternObject::SameAsPredicate => C::P,
		tc::PatternObject::Given(t) => C::Given(t),
	}
}

/// Reads a triple pattern back through its accessors (graph: any).
pub fn read_triple<T: Clone>(p: &CanonicalTriplePattern<T>) -> Pat<T> {
	Pat {
		s: ts(p.subject()).map_c(|t| t.clone()),
		p: tp(p.predicate()).map_c(|t| t.clone()),
		o: to(p.object()).map_c(|t| t.clone()),
		g: G::Any,
	}
}

/// Structural reading of the canonical quad pattern (by its public variants,
/// not through the accessors).
pub fn decode_quad<T: Clone>(p: &CanonicalQuadPattern<T>) -> Pat<T> {
	use qc::*;
	macro_rules! g {
		($g:expr, $ty:ident : $($v:ident)*) => {
			match $g {
				$ty::AnyGraph => G::Any,
				$ty::GivenGraph(g) => G::Given(g.clone()),
				$(g!(@pat $ty $v) => g!(@val $v),)*
			}
		};
		(@val S) => { G::S }; (@val P) => { G::P }; (@val O) => { G::O };
		(@pat $ty:ident S) => { $ty::SameAsSubject };
		(@pat $ty:ident P) => { $ty::SameAsPredicate };
		(@pat $ty:ident O) => { $ty::SameAsObject };
	}
	fn asgp<T: Clone>(p: &AnySubjectGivenPredicate<T>) -> (C<T>, G<T>) {
		match p {
			AnySubjectGivenPredicate::AnyObject(g) => {
				(C::Any, g!(g, AnySubjectGivenPredicateAnyObject : S O))
			}
			AnySubjectGivenPredicate::SameAsSubject(g) => {
				(C::S, g!(g, AnySubjectGivenPredicateGivenObject : S))
			}
			AnySubjectGivenPredicate::GivenObject(o, g) => (
				C::Given(o.clone()),
				g!(g, AnySubjectGivenPredicateGivenObject : S),
			),
		}
	}
	match p {
		CanonicalQuadPattern::AnySubject(p) => {
			let (p, o, g) = match p {
				AnySubject::AnyPredicate(p) => {
					let (o, g) = match p {
						AnySubjectAnyPredicate::AnyObject(g) => {
							(C::Any, g!(g, AnySubjectAnyPredicateAnyObject : S P O))
						}
						AnySubjectAnyPredicate::SameAsSubject(g) => {
							(C::S, g!(g, AnySubjectAnyPredicateGivenObject : S P))
						}
						AnySubjectAnyPredicate::SameAsPredicate(g) => {
							(C::P, g!(g, AnySubjectAnyPredicateGivenObject : S P))
						}
						AnySubjectAnyPredicate::GivenObject(o, g) => (
							C::Given(o.clone()),
							g!(g, AnySubjectAnyPredicateGivenObject : S P),
						),
					};
					(C::Any, o, g)
				}
				AnySubject::SameAsSubject(p) => {
					let (o, g) = asgp(p);
					(C::S, o, g)
				}
				AnySubject::GivenPredicate(t, p) => {
					let (o, g) = asgp(p);
					(C::Given(t.clone()), o, g)
				}
			};
			Pat { s: C::Any, p, o, g }
		}
		CanonicalQuadPattern::GivenSubject(s, p) => {
			let (p, o, g) = match p {
				GivenSubject::AnyPredicate(p) => {
					let (o, g) = match p {
						GivenSubjectAnyPredicate::AnyObject(g) => {
							(C::Any, g!(g, GivenSubjectAnyPredicateAnyObject : P O))
						}
						GivenSubjectAnyPredicate::SameAsPredicate(g) => {
							(C::P, g!(g, GivenSubjectAnyPredicateGivenObject : P))
						}
						GivenSubjectAnyPredicate::GivenObject(o, g) => (
							C::Given(o.clone()),
							g!(g, GivenSubjectAnyPredicateGivenObject : P),
						),
					};
					(C::Any, o, g)
				}
				GivenSubject::GivenPredicate(t, p) => {
					let (o, g) = match p {
						GivenSubjectGivenPredicate::AnyObject(g) => {
							(C::Any, g!(g, GivenSubjectGivenPredicateAnyObject : O))
						}
						GivenSubjectGivenPredicate::GivenObject(o, g) => (
							C::Given(o.clone()),
							g!(g, GivenSubjectGivenPredicateGivenObject :),
						),
					};
					(C::Given(t.clone()), o, g)
				}
			};
			Pat {
				s: C::Given(s.clone()),
				p,
				o,
				g,
			}
		}
	}
}

/// Structural reading of a canonical triple pattern.
pub fn decode_triple<T: Clone>(p: &CanonicalTriplePattern<T>) -> Pat<T> {
	use tc::*;
	fn asgp<T: Clone>(p: &AnySubjectGivenPredicate<T>) -> C<T> {
		match p {
			AnySubjectGivenPredicate::AnyObject => C::Any,
			AnySubjectGivenPredicate::SameAsSubject => C::S,
			AnySubjectGivenPredicate::GivenObject(o) => C::Given(o.clone()),
		}
	}
	let (s, p, o) = match p {
		CanonicalTriplePattern::AnySubject(p) => match p {
			AnySubject::AnyPredicate(o) => (
				C::Any,
				C::Any,
				match o {
					AnySubjectAnyPredicate::AnyObject => C::Any,
					AnySubjectAnyPredicate::SameAsSubject => C::S,
					AnySubjectAnyPredicate::SameAsPredicate => C::P,
					AnySubjectAnyPredicate::GivenObject(o) => C::Given(o.clone()),
				},
			),
			AnySubject::SameAsSubject(o) => (C::Any, C::S, asgp(o)),
			AnySubject::GivenPredicate(p, o) => (C::Any, C::Given(p.clone()), asgp(o)),
		},
		CanonicalTriplePattern::GivenSubject(s, p) => {
			let (p, o) = match p {
				GivenSubject::AnyPredicate(o) => (
					C::Any,
					match o {
						GivenSubjectAnyPredicate::AnyObject => C::Any,
						GivenSubjectAnyPredicate::SameAsPredicate => C::P,
						GivenSubjectAnyPredicate::GivenObject(o) => C::Given(o.clone()),
					},
				),
				GivenSubject::GivenPredicate(p, o) => (
					C::Given(p.clone()),
					match o {
						GivenSubjectGivenPredicate::AnyObject => C::Any,
						GivenSubjectGivenPredicate::GivenObject(o) => C::Given(o.clone()),
					},
				),
			};
			(C::Given(s.clone()), p, o)
		}
	};
	Pat { s, p, o, g: G::Any }
}

pub fn quad_pattern<T>(s: RV<T>, p: RV<T>, o: RV<T>, g: Option<RV<T>>) -> Quad<RV<T>> {
	Quad(s, p, o, g)
}

pub fn triple_pattern<T>(s: RV<T>, p: RV<T>, o: RV<T>) -> Triple<RV<T>> {
	Triple(s, p, o)
}
