//! C10, C11, C12: canonical patterns, their setters, and the pattern map.
use std::collections::BTreeSet;
use std::fmt::Debug;

use rdf_types::pattern::quad::canonical as qc;
use rdf_types::pattern::triple::canonical as tc;
use rdf_types::pattern::triple::map as tm;
use rdf_types::pattern::{
	CanonicalQuadPattern, CanonicalTriplePattern, QuadPattern, ResourceOrVar, TriplePattern,
};
use rdf_types::{LocalTerm, Quad, Triple};

use crate::common::*;
use crate::elem::{universe, Elem, Rev};
use crate::ensure;
use crate::pat::*;

// ---------------------------------------------------------------- C10

fn same<T: Debug + PartialEq>(cx: &mut Cx, what: &str, got: T, expected: &T) -> Res {
	cx.eval();
	ensure!(got == *expected, "{what}: {got:?} instead of {expected:?}");
	Ok(())
}

/// Checks everything that can be read from, or derived from, a quad pattern.
fn audit_quad<T: Clone + PartialEq + Debug>(
	cx: &mut Cx,
	what: &str,
	p: &CanonicalQuadPattern<T>,
	expected: &Pat<T>,
) -> Res {
	same(cx, &format!("{what}"), decode_quad(p), expected)?;
	same(cx, &format!("{what}: constraints read back"), read_quad(p), expected)?;
	let parts = |p: &CanonicalQuadPattern<T>| Pat {
		s: qs(p.clone().into_subject()),
		p: qp(p.clone().into_predicate()),
		o: qo(p.clone().into_object()),
		g: qg(p.clone().into_graph()),
	};
	same(cx, &format!("{what}: into_*"), parts(p), expected)?;
	let (s, pr, o, g) = p.clone().into_parts();
	same(
		cx,
		&format!("{what}: into_parts"),
		Pat {
			s: qs(s.clone()),
			p: qp(pr.clone()),
			o: qo(o.clone()),
			g: qg(g.clone()),
		},
		expected,
	)?;

	// Identifiers of the constraints.
	let given = |c: &C<T>| match c {
		C::Given(t) => Some(t.clone()),
		_ => None,
	};
	same(cx, &format!("{what}: subject id"), s.id().cloned(), &given(&expected.s))?;
	same(cx, &format!("{what}: predicate id"), pr.id().cloned(), &given(&expected.p))?;
	same(cx, &format!("{what}: object id"), o.id().cloned(), &given(&expected.o))?;
	same(cx, &format!("{what}: subject into_id"), s.into_id(), &given(&expected.s))?;
	same(cx, &format!("{what}: predicate into_id"), pr.into_id(), &given(&expected.p))?;
	same(cx, &format!("{what}: object into_id"), o.into_id(), &given(&expected.o))?;
	same(cx, &format!("{what}: subject cloned"), qs(p.subject().cloned()), &expected.s)?;
	same(cx, &format!("{what}: predicate cloned"), qp(p.predicate().cloned()), &expected.p)?;
	same(cx, &format!("{what}: object cloned"), qo(p.object().cloned()), &expected.o)?;

	// Borrowing, mapping, splitting.
	let r = p.as_ref();
	same(cx, &format!("{what}: as_ref"), decode_quad(&r), &expected.as_ref())?;
	same(cx, &format!("{what}: as_ref read back"), read_quad(&r), &expected.as_ref())?;
	let m = p.clone().map(|t| (t, 1u8));
	same(
		cx,
		&format!("{what}: map"),
		decode_quad(&m),
		&expected.clone().map(|t| (t, 1u8)),
	)?;
	let (a, b) = p.clone().map2(|t| ((t.clone(), 2u8), vec![t]));
	same(
		cx,
		&format!("{what}: first half of map2"),
		decode_quad(&a),
		&expected.clone().map(|t| (t, 2u8)),
	)?;
	same(
		cx,
		&format!("{what}: second half of map2"),
		decode_quad(&b),
		&expected.clone().map(|t| vec![t]),
	)?;

	// Reduction to a triple pattern, and back.
	let (t, g) = p.clone().into_triple();
	same(cx, &format!("{what}: graph of into_triple"), qg(g), &expected.g)?;
	let any = Pat {
		g: G::Any,
		..expected.clone()
	};
	audit_triple(cx, &format!("{what}: into_triple"), &t, &any, false)?;
	same(
		cx,
		&format!("{what}: into_triple then with_any_graph"),
		decode_quad(&t.with_any_graph()),
		&any,
	)?;
	same(cx, &format!("{what}: clone"), decode_quad(&p.clone()), expected)?;
	ensure!(p.clone() == *p, "{what}: not equal to its clone");
	Ok(())
}

fn audit_triple<T: Clone + PartialEq + Debug>(
	cx: &mut Cx,
	what: &str,
	p: &CanonicalTriplePattern<T>,
	expected: &Pat<T>,
	deep: bool,
) -> Res {
	same(cx, what, decode_triple(p), expected)?;
	same(cx, &format!("{what}: constraints read back"), read_triple(p), expected)?;
	same(
		cx,
		&format!("{what}: into_*"),
		Pat {
			s: ts(p.clone().into_subject()),
			p: tp(p.clone().into_predicate()),
			o: to(p.clone().into_object()),
			g: G::Any,
		},
		expected,
	)?;
	let given = |c: &C<T>| match c {
		C::Given(t) => Some(t.clone()),
		_ => None,
	};
	same(cx, &format!("{what}: subject id"), p.subject().id().map(|t| (*t).clone()), &given(&expected.s))?;
	same(cx, &format!("{what}: predicate id"), p.predicate().id().map(|t| (*t).clone()), &given(&expected.p))?;
	same(cx, &format!("{what}: object id"), p.object().id().map(|t| (*t).clone()), &given(&expected.o))?;
	same(cx, &format!("{what}: subject into_id"), p.clone().into_subject().into_id(), &given(&expected.s))?;
	same(cx, &format!("{what}: predicate into_id"), p.clone().into_predicate().into_id(), &given(&expected.p))?;
	same(cx, &format!("{what}: object into_id"), p.clone().into_object().into_id(), &given(&expected.o))?;
	same(cx, &format!("{what}: subject cloned"), ts(p.subject().cloned()), &expected.s)?;
	same(cx, &format!("{what}: predicate cloned"), tp(p.predicate().cloned()), &expected.p)?;
	same(cx, &format!("{what}: object cloned"), to(p.object().cloned()), &expected.o)?;
	if deep {
		audit_quad(cx, &format!("{what}: with_any_graph"), &p.clone().with_any_graph(), expected)?;
	}
	// `as_given` of the innermost patterns.
	if let CanonicalTriplePattern::GivenSubject(_, r) = p {
		let got = match r {
			tc::GivenSubject::AnyPredicate(o) => o.as_given(),
			tc::GivenSubject::GivenPredicate(_, o) => o.as_given(),
		};
		same(cx, &format!("{what}: as_given"), got.cloned(), &given(&expected.o))?;
	}
	Ok(())
}

/// The object filters accept exactly the triples they should.
fn audit_filter<T: Clone + PartialEq + Debug>(
	cx: &mut Cx,
	q: &CanonicalQuadPattern<T>,
	expected: &Pat<T>,
	u: &[T],
) -> Res {
	let (t, _) = q.clone().into_triple();
	for s in u {
		for p in u {
			for o in u {
				let e = Pat {
					s: C::Any,
					p: C::Any,
					o: expected.o.clone(),
					g: G::Any,
				}
				.accepts_triple(s, p, o);
				let triple = || Triple(s.clone(), p.clone(), o.clone());
				cx.evals(2);
				ensure!(
					q.clone().into_object().filter_triple(triple()) == e,
					"object filter {:?} on {:?} gives {}",
					expected.o,
					triple(),
					!e
				);
				ensure!(
					t.clone().into_object().filter_triple(triple()) == e,
					"triple pattern object filter {:?} on {:?} gives {}",
					expected.o,
					triple(),
					!e
				);
			}
		}
	}
	Ok(())
}

fn rv<T: Clone>(i: usize, u: &[T]) -> RV<T> {
	if i < 3 {
		rv_given(u[i].clone())
	} else {
		rv_var((i - 3) as u8)
	}
}

/// Variables as text, comparing by content.
fn named<T>(r: RV<T>) -> ResourceOrVar<T, String> {
	match r {
		ResourceOrVar::Resource(t) => ResourceOrVar::Resource(t),
		ResourceOrVar::Var(x) => ResourceOrVar::Var(format!("v{}", x)),
	}
}

fn c10_case<E: Elem>(cx: &mut Cx, i: usize) -> Res {
	// Seven choices for each of the three first components (three resources, four
	// variables), and eight for the graph.
	let u: Vec<E> = universe(&mut cx.rng, 3);
	let (s, p, o) = (rv(i % 7, &u), rv(i / 7 % 7, &u), rv(i / 49 % 7, &u));
	let g = match i / 343 % 8 {
		7 => None,
		g => Some(rv(g, &u)),
	};
	let expected = Pat::of_vars(&s, &p, &o, g.as_ref());
	cx.distinct(&("vars", E::NAME, i));
	cx.log(|| format!("pattern {s:?} {p:?} {o:?} {g:?}"));
	cx.sample(|| format!("pattern {s:?} {p:?} {o:?} {g:?} denotes {expected:?}"));
	let src: QuadPattern<E, u8> = Quad(s.clone(), p.clone(), o.clone(), g.clone());
	let q = CanonicalQuadPattern::from_pattern(src.clone());
	audit_quad(cx, "from_pattern", &q, &expected)?;
	audit_filter(cx, &q, &expected, &u)?;
	same(
		cx,
		"From<QuadPattern>",
		decode_quad(&CanonicalQuadPattern::from(src.clone())),
		&expected,
	)?;
	let text: QuadPattern<E, String> = Quad(
		named(s.clone()),
		named(p.clone()),
		named(o.clone()),
		g.clone().map(named),
	);
	same(
		cx,
		"from_pattern with text variables",
		decode_quad(&CanonicalQuadPattern::from_pattern(text)),
		&expected,
	)?;
	// Built by hand: the accessors of every canonical pattern.
	audit_quad(cx, "canonical pattern", &expected.clone().build(), &expected)?;

	// Triple patterns.
	let any = Pat {
		g: G::Any,
		..expected.clone()
	};
	let default = Pat {
		g: G::Given(None),
		..expected.clone()
	};
	let src: TriplePattern<E, u8> = Triple(s.clone(), p.clone(), o.clone());
	let t = CanonicalTriplePattern::from_pattern(src.clone());
	audit_triple(cx, "triple from_pattern", &t, &any, true)?;
	same(
		cx,
		"From<TriplePattern> (triple)",
		decode_triple(&CanonicalTriplePattern::from(src.clone())),
		&any,
	)?;
	let q = CanonicalQuadPattern::from_triple_pattern(src.clone());
	audit_quad(cx, "from_triple_pattern", &q, &default)?;
	same(
		cx,
		"From<TriplePattern> (quad)",
		decode_quad(&CanonicalQuadPattern::from(src)),
		&default,
	)?;

	// Components with variables.
	for c in [&s, &p, &o] {
		let m = c.clone().map(|t| (t, 0u8));
		let e = match c {
			ResourceOrVar::Resource(t) => ResourceOrVar::Resource((t.clone(), 0u8)),
			ResourceOrVar::Var(x) => ResourceOrVar::Var(*x),
		};
		same(cx, "ResourceOrVar::map", m, &e)?;
		let ok = match (c.as_ref(), c) {
			(ResourceOrVar::Resource(a), ResourceOrVar::Resource(b)) => a == b,
			(ResourceOrVar::Var(a), ResourceOrVar::Var(b)) => a == b,
			_ => false,
		};
		cx.eval();
		ensure!(ok, "ResourceOrVar::as_ref changes {c:?}");
		for ans in [false, true] {
			let e = match c {
				ResourceOrVar::Resource(_) => true,
				ResourceOrVar::Var(_) => ans,
			};
			let c2 = c.clone();
			let mut seen = None;
			let got = c.is_id_or(|x| {
				seen = Some(*x);
				ans
			});
			cx.eval();
			ensure!(got == e, "is_id_or({ans}) of {c2:?} is {got}");
			if let ResourceOrVar::Var(x) = c {
				ensure!(seen == Some(*x), "is_id_or of {c:?} tested {seen:?}");
			}
		}
	}
	Ok(())
}

pub fn c10_vars(cx: &mut Cx) -> Res {
	let i = cx.index as usize;
	match i % 4 {
		0 => c10_case::<String>(cx, i / 4),
		1 => c10_case::<u32>(cx, i / 4),
		2 => c10_case::<Rev>(cx, i / 4),
		_ => c10_case::<LocalTerm>(cx, i / 4),
	}
}

fn c10_options<E: Elem>(cx: &mut Cx, i: usize) -> Res {
	let u: Vec<E> = universe(&mut cx.rng, 4);
	let mut k = i;
	let mut opt = |n: usize| {
		let v = k % (n + 1);
		k /= n + 1;
		if v == 0 {
			None
		} else {
			Some(v - 1)
		}
	};
	let (s, p, o, g) = (opt(3), opt(3), opt(3), opt(5));
	let at = |v: Option<usize>| v.map(|v| u[v].clone());
	let c = |v: Option<usize>| match v {
		None => C::Any,
		Some(v) => C::Given(u[v].clone()),
	};
	// `None`: any graph, `Some(4)`: the default graph.
	let graph: Option<Option<E>> = g.map(|g| u.get(g).cloned());
	let eg = match &graph {
		None => G::Any,
		Some(g) => G::Given(g.clone()),
	};
	let expected = Pat {
		s: c(s),
		p: c(p),
		o: c(o),
		g: eg,
	};
	let any = Pat {
		g: G::Any,
		..expected.clone()
	};
	cx.distinct(&("options", E::NAME, i));
	cx.log(|| format!("components {:?} {:?} {:?} {graph:?}", at(s), at(p), at(o)));
	let quad = || Quad(at(s), at(p), at(o), graph.clone());
	let triple = || Triple(at(s), at(p), at(o));
	audit_quad(
		cx,
		"from_option_quad",
		&CanonicalQuadPattern::from_option_quad(quad()),
		&expected,
	)?;
	same(
		cx,
		"From<Quad<Option>>",
		decode_quad(&CanonicalQuadPattern::from(quad())),
		&expected,
	)?;
	audit_quad(
		cx,
		"from_option_triple",
		&CanonicalQuadPattern::from_option_triple(triple()),
		&any,
	)?;
	same(
		cx,
		"From<Triple<Option>>",
		decode_quad(&CanonicalQuadPattern::from(triple())),
		&any,
	)?;
	audit_triple(
		cx,
		"triple from_option_triple",
		&CanonicalTriplePattern::from_option_triple(triple()),
		&any,
		true,
	)?;
	same(
		cx,
		"From<Triple<Option>> (triple)",
		decode_triple(&CanonicalTriplePattern::from(triple())),
		&any,
	)?;

	// Complete statements.
	if let (Some(s), Some(p), Some(o)) = (at(s), at(p), at(o)) {
		let t = || Triple(s.clone(), p.clone(), o.clone());
		audit_quad(cx, "from_triple", &CanonicalQuadPattern::from_triple(t()), &any)?;
		same(
			cx,
			"From<Triple>",
			decode_quad(&CanonicalQuadPattern::from(t())),
			&any,
		)?;
		audit_triple(
			cx,
			"triple from_triple",
			&CanonicalTriplePattern::from_triple(t()),
			&any,
			true,
		)?;
		same(
			cx,
			"From<Triple> (triple)",
			decode_triple(&CanonicalTriplePattern::from(t())),
			&any,
		)?;
		if let Some(graph) = &graph {
			let q = || Quad(s.clone(), p.clone(), o.clone(), graph.clone());
			audit_quad(cx, "from_quad", &CanonicalQuadPattern::from_quad(q()), &expected)?;
			same(
				cx,
				"From<Quad>",
				decode_quad(&CanonicalQuadPattern::from(q())),
				&expected,
			)?;
		}
	}
	Ok(())
}

pub fn c10_opts(cx: &mut Cx) -> Res {
	let i = cx.index as usize;
	match i % 4 {
		0 => c10_options::<String>(cx, i / 4),
		1 => c10_options::<u32>(cx, i / 4),
		2 => c10_options::<Rev>(cx, i / 4),
		_ => c10_options::<LocalTerm>(cx, i / 4),
	}
}

// ---------------------------------------------------------------- C11

/// Position: 0 subject, 1 predicate, 2 object.
fn get<T: Clone>(p: &Pat<T>, i: usize) -> C<T> {
	match i {
		0 => p.s.clone(),
		1 => p.p.clone(),
		_ => p.o.clone(),
	}
}

fn put<T>(p: &mut Pat<T>, i: usize, c: C<T>) {
	match i {
		0 => p.s = c,
		1 => p.p = c,
		_ => p.o = c,
	}
}

fn root<T: Clone>(p: &Pat<T>, i: usize) -> usize {
	match get(p, i) {
		C::S => 0,
		C::P => root(p, 1),
		_ => i,
	}
}

/// What binding position `i` to `v` must give.
fn bind<T: Clone>(p: &Pat<T>, i: usize, v: &T) -> Pat<T> {
	let mut r = p.clone();
	if let C::Given(_) = get(p, i) {
		put(&mut r, i, C::Given(v.clone()));
	} else {
		let k = root(p, i);
		for j in 0..3 {
			if !matches!(get(p, j), C::Given(_)) && root(p, j) == k {
				put(&mut r, j, C::Given(v.clone()));
			}
		}
	}
	r
}

fn c11_set<E: Elem>(cx: &mut Cx, shape: Pat<()>, steps: &[(usize, usize)], u: &[E]) -> Res {
	let mut k = 0;
	let mut model = shape.map(|()| {
		k += 1;
		u[k % u.len()].clone()
	});
	let mut p = model.clone().build_triple();
	for &(i, v) in steps {
		let v = &u[v % u.len()];
		let next = bind(&model, i, v);
		let old = get(&model, i);
		cx.log(|| format!("{model:?}: set position {i} to {v:?}"));

		// The meaning, triple by triple.
		if !matches!(old, C::Given(_)) {
			for s in u {
				for pr in u {
					for o in u {
						let at = [s, pr, o][i];
						let e = model.accepts_triple(s, pr, o) && at == v;
						assert_eq!(next.accepts_triple(s, pr, o), e, "harness: wrong model");
					}
				}
			}
		}

		let by_value = match i {
			0 => p.clone().with_subject(v.clone()),
			1 => p.clone().with_predicate(v.clone()),
			_ => p.clone().with_object(v.clone()),
		};
		let before = match i {
			0 => ts(p.set_subject(v.clone())),
			1 => tp(p.set_predicate(v.clone())),
			_ => to(p.set_object(v.clone())),
		};
		let name = ["subject", "predicate", "object"][i];
		let what = format!("{model:?} with {name} set to {v:?}");
		same(cx, &what, decode_triple(&p), &next)?;
		same(cx, &format!("{what}, read back"), read_triple(&p), &next)?;
		same(cx, &format!("{what}, constraint returned"), before, &old)?;
		same(cx, &format!("{what}, by value"), decode_triple(&by_value), &next)?;
		// As filter.
		let (s, pr, o) = (cx.rng.pick(u), cx.rng.pick(u), cx.rng.pick(u));
		let only_o = Pat {
			s: C::Any,
			p: C::Any,
			o: next.o.clone(),
			g: G::Any,
		};
		ensure!(
			p.clone()
				.into_object()
				.filter_triple(Triple(s.clone(), pr.clone(), o.clone()))
				== only_o.accepts_triple(s, pr, o),
			"{what}: wrong object filter"
		);
		cx.distinct(&(E::NAME, "set", sig(&format!("{:?}", model)), i, v));
		cx.count(["set_subject", "set_predicate", "set_object"][i]);
		model = next;
	}
	Ok(())
}

/// Setters of the nested patterns, where the pattern can express the result.
fn c11_nested<E: Elem>(cx: &mut Cx, shape: Pat<()>, i: usize, u: &[E]) -> Res {
	let mut k = 0;
	let model = shape.map(|()| {
		k += 1;
		u[k % u.len()].clone()
	});
	let v = &u[0];
	let old = get(&model, i);
	let next = bind(&model, i, v);
	match (model.clone().build_triple(), i) {
		(CanonicalTriplePattern::GivenSubject(s, mut r), 1) => {
			let before = tp(r.set_predicate(v.clone()));
			same(cx, "GivenSubject::set_predicate returned", before, &old)?;
			let p = CanonicalTriplePattern::GivenSubject(s, r);
			same(cx, "GivenSubject::set_predicate", decode_triple(&p), &next)?;
		}
		(CanonicalTriplePattern::GivenSubject(s, mut r), 2) => {
			let before = to(r.set_object(v.clone()));
			same(cx, "GivenSubject::set_object returned", before, &old)?;
			let p = CanonicalTriplePattern::GivenSubject(s, r);
			same(cx, "GivenSubject::set_object", decode_triple(&p), &next)?;
		}
		(CanonicalTriplePattern::AnySubject(mut r), 1) => {
			let before = tp(r.set_predicate(v.clone()));
			same(cx, "AnySubject::set_predicate returned", before, &old)?;
			if model.p != C::S {
				let p = CanonicalTriplePattern::AnySubject(r);
				same(cx, "AnySubject::set_predicate", decode_triple(&p), &next)?;
			}
		}
		(CanonicalTriplePattern::AnySubject(mut r), 2) => {
			let before = to(r.set_object(v.clone()));
			same(cx, "AnySubject::set_object returned", before, &old)?;
			if model.o != C::S {
				let p = CanonicalTriplePattern::AnySubject(r);
				same(cx, "AnySubject::set_object", decode_triple(&p), &next)?;
			}
		}
		_ => (),
	}
	Ok(())
}

/// Every shape, every position, every value (equal to a given one or not).
pub(crate) fn c11_one<E: Elem>(cx: &mut Cx) -> Res {
	let shapes = triple_shapes();
	let u: Vec<E> = universe(&mut cx.rng, 4);
	let shape = shapes[cx.index as usize % shapes.len()];
	for i in 0..3 {
		c11_nested(cx, shape, i, &u)?;
		for v in 0..4 {
			c11_set(cx, shape, &[(i, v)], &u)?;
			for j in 0..3 {
				for w in 0..4 {
					c11_set(cx, shape, &[(i, v), (j, w)], &u)?;
				}
			}
		}
	}
	cx.sample(|| format!("{} {shape:?}: all positions, all values, twice", E::NAME));
	Ok(())
}

pub fn c11_enumerated(cx: &mut Cx) -> Res {
	c11_one::<String>(cx)?;
	c11_one::<u32>(cx)?;
	c11_one::<Rev>(cx)?;
	c11_one::<LocalTerm>(cx)
}

pub fn c11_sequence(cx: &mut Cx) -> Res {
	fn go<E: Elem>(cx: &mut Cx) -> Res {
		let shapes = triple_shapes();
		let n = cx.rng.range(1, 5);
		let u: Vec<E> = universe(&mut cx.rng, n);
		let shape = *cx.rng.pick(&shapes);
		let steps: Vec<(usize, usize)> = (0..cx.rng.range(3, 8))
			.map(|_| (cx.rng.below(3), cx.rng.below(8)))
			.collect();
		c11_set(cx, shape, &steps, &u)
	}
	match cx.index % 4 {
		0 => go::<String>(cx),
		1 => go::<u32>(cx),
		2 => go::<Rev>(cx),
		_ => go::<LocalTerm>(cx),
	}
}

// ---------------------------------------------------------------- C12

/// Common face of the pattern map and its submaps.
trait PMap<E>: Default {
	const NAME: &'static str;
	/// Can the map hold this pattern?
	fn fits(p: &Pat<E>) -> bool;
	/// The constraints that count for this map.
	fn meaning(p: &Pat<E>) -> Pat<E>;
	fn put(&mut self, p: &Pat<E>, v: String) -> bool;
	fn look(&self, s: &E, p: &E, o: &E, cap: usize) -> Vec<String>;
	fn union(self, other: Self) -> Result<Self, (Self, Self)>;
}

macro_rules! pmap {
	($ty:ident, $fits:expr, $free:expr, $pat:pat => $sub:expr, union: $u:tt) => {
		impl<E: Elem> PMap<E> for tm::$ty<String, E> {
			const NAME: &'static str = stringify!($ty);
			fn fits(p: &Pat<E>) -> bool {
				let f: fn(&Pat<E>) -> bool = $fits;
				f(p)
			}
			fn meaning(p: &Pat<E>) -> Pat<E> {
				let f: fn(&mut Pat<E>) = $free;
				let mut r = p.clone();
				f(&mut r);
				r
			}
			fn put(&mut self, p: &Pat<E>, v: String) -> bool {
				match p.clone().build_triple() {
					$pat => self.insert($sub, v),
					#[allow(unreachable_patterns)]
					_ => panic!("harness: pattern of another submap"),
				}
			}
			fn look(&self, s: &E, p: &E, o: &E, cap: usize) -> Vec<String> {
				listing(|| self.get(Triple(s, p, o)), |v| v.clone(), cap)
			}
			fn union(self, other: Self) -> Result<Self, (Self, Self)> {
				pmap!(@union $u self other)
			}
		}
	};
	(@union yes $a:ident $b:ident) => {{
		let mut a = $a;
		a.union_with($b);
		Ok(a)
	}};
	(@union no $a:ident $b:ident) => {
		Err(($a, $b))
	};
}

use CanonicalTriplePattern as CTP;
pmap!(TriplePatternMap, |_| true, |_| (), p => p, union: no);
pmap!(GivenSubjectMap, |p| matches!(p.s, C::Given(_)), |p| p.s = C::Any, CTP::GivenSubject(_, r) => r, union: yes);
pmap!(AnySubjectMap, |p| p.s == C::Any, |_| (), CTP::AnySubject(r) => r, union: yes);
pmap!(GivenSubjectAnyPredicateMap, |p| matches!(p.s, C::Given(_)) && p.p == C::Any, |p| p.s = C::Any,
	CTP::GivenSubject(_, tc::GivenSubject::AnyPredicate(r)) => r, union: yes);
pmap!(GivenSubjectGivenPredicateMap, |p| matches!(p.s, C::Given(_)) && matches!(p.p, C::Given(_)), |p| { p.s = C::Any; p.p = C::Any; },
	CTP::GivenSubject(_, tc::GivenSubject::GivenPredicate(_, r)) => r, union: yes);
pmap!(AnySubjectAnyPredicateMap, |p| p.s == C::Any && p.p == C::Any, |_| (),
	CTP::AnySubject(tc::AnySubject::AnyPredicate(r)) => r, union: yes);
pmap!(AnySubjectGivenPredicateMap, |p| p.s == C::Any && matches!(p.p, C::Given(_)), |p| p.p = C::Any,
	CTP::AnySubject(tc::AnySubject::GivenPredicate(_, r)) => r, union: yes);

type Pairs<E> = BTreeSet<(Pat<E>, String)>;

fn c12_audit<E: Elem, M: PMap<E>>(cx: &mut Cx, m: &M, model: &Pairs<E>, u: &[E], what: &str) -> Res {
	for s in u {
		for p in u {
			for o in u {
				let mut e: Vec<String> = model
					.iter()
					.filter(|(pat, _)| pat.accepts_triple(s, p, o))
					.map(|(_, v)| v.clone())
					.collect();
				e.sort();
				let mut got = m.look(s, p, o, e.len() + 2);
				got.sort();
				cx.eval();
				if !e.is_empty() {
					cx.distinct(&(M::NAME, E::NAME, s, p, o, &e, model.len()));
				}
				ensure!(
					got == e,
					"{} {what}: ({s:?}, {p:?}, {o:?}) gives {got:?} instead of {e:?}, patterns: {model:?}",
					M::NAME
				);
			}
		}
	}
	Ok(())
}

fn c12_fill<E: Elem, M: PMap<E>>(cx: &mut Cx, u: &[E], n: usize) -> Res<(M, Pairs<E>)> {
	let mut m = M::default();
	let mut model = Pairs::new();
	let nv = cx.rng.range(1, 4);
	let mut added = 0;
	let mut tries = 0;
	while added < n && tries < n * 60 {
		tries += 1;
		let pat = random_pat(&mut cx.rng, u).map(|t| t.clone());
		let pat = Pat { g: G::Any, ..pat };
		if !M::fits(&pat) {
			continue;
		}
		added += 1;
		let v = format!("v{}", cx.rng.below(nv));
		let e = model.insert((M::meaning(&pat), v.clone()));
		cx.log(|| format!("{}: insert {pat:?} -> {v}", M::NAME));
		let got = m.put(&pat, v.clone());
		cx.eval();
		cx.count("insert");
		ensure!(
			got == e,
			"{}: inserting {pat:?} -> {v} returned {got}, patterns now: {model:?}",
			M::NAME
		);
		if cx.rng.chance(1, 6) {
			c12_audit(cx, &m, &model, u, "after insertion")?;
		}
	}
	c12_audit(cx, &m, &model, u, "after insertions")?;
	Ok((m, model))
}

fn c12_map<E: Elem, M: PMap<E>>(cx: &mut Cx) -> Res {
	let nu = cx.rng.range(1, 4);
	let u: Vec<E> = universe(&mut cx.rng, nu);
	let n = *cx.rng.pick(&[0, 1, 2, 4, 8, 16, 30]);
	let (a, am) = c12_fill::<E, M>(cx, &u, n)?;
	let n = *cx.rng.pick(&[0, 1, 2, 4, 8, 16]);
	let (b, bm) = c12_fill::<E, M>(cx, &u, n)?;
	if let Ok(mut m) = a.union(b) {
		let mut model: Pairs<E> = am.union(&bm).cloned().collect();
		cx.log(|| format!("{}: union_with", M::NAME));
		cx.count("union_with");
		c12_audit(cx, &m, &model, &u, "after union_with")?;
		// The union still takes insertions.
		for _ in 0..4 {
			let pat = random_pat(&mut cx.rng, &u).map(|t| t.clone());
			let pat = Pat { g: G::Any, ..pat };
			if M::fits(&pat) {
				let v = "v0".to_owned();
				let e = model.insert((M::meaning(&pat), v.clone()));
				let got = m.put(&pat, v);
				ensure!(got == e, "{}: inserting {pat:?} after a union returned {got}", M::NAME);
			}
		}
		c12_audit(cx, &m, &model, &u, "after union_with and insertions")?;
	}
	cx.sample(|| format!("{}<{}>: {am:?} merged with {bm:?}", M::NAME, E::NAME));
	Ok(())
}

pub(crate) fn c12_any<E: Elem>(cx: &mut Cx) -> Res {
	match cx.index / 4 % 8 {
		0 | 1 => c12_map::<E, tm::TriplePatternMap<String, E>>(cx),
		2 => c12_map::<E, tm::GivenSubjectMap<String, E>>(cx),
		3 => c12_map::<E, tm::AnySubjectMap<String, E>>(cx),
		4 => c12_map::<E, tm::GivenSubjectAnyPredicateMap<String, E>>(cx),
		5 => c12_map::<E, tm::GivenSubjectGivenPredicateMap<String, E>>(cx),
		6 => c12_map::<E, tm::AnySubjectAnyPredicateMap<String, E>>(cx),
		_ => c12_map::<E, tm::AnySubjectGivenPredicateMap<String, E>>(cx),
	}
}

pub fn c12_maps(cx: &mut Cx) -> Res {
	match cx.index % 4 {
		0 => c12_any::<String>(cx),
		1 => c12_any::<u32>(cx),
		2 => c12_any::<Rev>(cx),
		_ => c12_any::<LocalTerm>(cx),
	}
}

/// Many values under many patterns of a large universe.
pub fn c12_big(cx: &mut Cx) -> Res {
	let u: Vec<u32> = universe(&mut cx.rng, 60);
	let mut m = tm::TriplePatternMap::<u32, u32>::default();
	let mut model: BTreeSet<(Pat<u32>, u32)> = BTreeSet::new();
	for i in 0..1500u32 {
		let pat = random_pat(&mut cx.rng, &u).map(|t| *t);
		let pat = Pat { g: G::Any, ..pat };
		let v = i / 2;
		let e = model.insert((pat, v));
		let got = m.insert(pat.build_triple(), v);
		ensure!(got == e, "inserting {pat:?} -> {v} returned {got}");
	}
	for _ in 0..300 {
		let (s, p, o) = if cx.rng.chance(1, 3) {
			let v = cx.rng.pick(&u);
			(v, v, cx.rng.pick(&u))
		} else {
			(cx.rng.pick(&u), cx.rng.pick(&u), cx.rng.pick(&u))
		};
		let mut e: Vec<u32> = model
			.iter()
			.filter(|(pat, _)| pat.accepts_triple(s, p, o))
			.map(|(_, v)| *v)
			.collect();
		e.sort();
		let mut got: Vec<u32> = listing(|| m.get(Triple(s, p, o)), |v| *v, e.len() + 2);
		got.sort();
		cx.eval();
		cx.distinct(&("big", s, p, o, &e));
		ensure!(got == e, "({s}, {p}, {o}) gives {got:?} instead of {e:?}");
	}
	Ok(())
}

#[allow(dead_code)]
fn _unused(_: qc::PatternSubject<()>) {}
