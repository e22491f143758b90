//! C22: derived queries and fallible wrappers against plain enumeration.
use std::collections::{BTreeMap, BTreeSet};
use std::convert::Infallible;

use rdf_types::dataset::fallible::{
	FallibleDatasetMut, FalliblePatternMatchingDataset, FallibleTraversableDataset,
};
use rdf_types::dataset::fallible_graph::{
	FallibleGraphMut, FalliblePatternMatchingGraph, FallibleTraversableGraph,
};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{LocalTerm, Quad, Triple};

use crate::common::*;
use crate::elem::{statement, universe, Elem, Rev, St};
use crate::ensure;
use crate::pat::{decode_quad, decode_triple, random_pat};
use crate::store::*;

type Model<E> = BTreeSet<St<E>>;

// ----------------------------------------------- user-defined dataset and graph

/// Dataset defined by its required methods only.
#[derive(Clone, Default)]
pub struct ListDataset<E>(pub Vec<St<E>>);

/// Graph defined by its required methods only.
#[derive(Clone, Default)]
pub struct ListGraph<E>(pub Vec<St<E>>);

type It<'a, T> = std::vec::IntoIter<T>;

fn uniq<'a, E: Ord>(i: impl Iterator<Item = &'a E>) -> std::vec::IntoIter<&'a E> {
	i.collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().into_iter()
}

impl<E: Elem> Dataset for ListDataset<E> {
	type Resource = E;
}

impl<E: Elem> TraversableDataset for ListDataset<E> {
	type Quads<'a> = It<'a, Quad<&'a E>>;
	fn quads(&self) -> Self::Quads<'_> {
		self.0.iter().map(q_ref).collect::<Vec<_>>().into_iter()
	}
}

impl<E: Elem> ResourceTraversableDataset for ListDataset<E> {
	type Resources<'a> = It<'a, &'a E>;
	fn resources(&self) -> Self::Resources<'_> {
		uniq(self.0.iter().flat_map(|s| [Some(&s.0), Some(&s.1), Some(&s.2), s.3.as_ref()].into_iter().flatten()))
	}
}

impl<E: Elem> SubjectTraversableDataset for ListDataset<E> {
	type Subjects<'a> = It<'a, &'a E>;
	fn subjects(&self) -> Self::Subjects<'_> {
		uniq(self.0.iter().map(|s| &s.0))
	}
}

impl<E: Elem> PredicateTraversableDataset for ListDataset<E> {
	type Predicates<'a> = It<'a, &'a E>;
	fn predicates(&self) -> Self::Predicates<'_> {
		uniq(self.0.iter().map(|s| &s.1))
	}
}

impl<E: Elem> ObjectTraversableDataset for ListDataset<E> {
	type Objects<'a> = It<'a, &'a E>;
	fn objects(&self) -> Self::Objects<'_> {
		uniq(self.0.iter().map(|s| &s.2))
	}
}

impl<E: Elem> NamedGraphTraversableDataset for ListDataset<E> {
	type NamedGraphs<'a> = It<'a, &'a E>;
	fn named_graphs(&self) -> Self::NamedGraphs<'_> {
		uniq(self.0.iter().filter_map(|s| s.3.as_ref()))
	}
}

impl<E: Elem> PatternMatchingDataset for ListDataset<E> {
	type QuadPatternMatching<'a, 'p>
		= It<'a, Quad<&'a E>>
	where
		E: 'p;
	fn quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p E>) -> It<'_, Quad<&E>> {
		let p = decode_quad(&pattern);
		self.0
			.iter()
			.filter(|s| p.accepts_with(st_ref(s), |a, b| **a == *b))
			.map(q_ref)
			.collect::<Vec<_>>()
			.into_iter()
	}
}

impl<E: Elem> DatasetMut for ListDataset<E> {
	fn insert(&mut self, q: Quad<E>) {
		let s = st_of(q);
		if !self.0.contains(&s) {
			self.0.push(s)
		}
	}
	fn remove(&mut self, q: Quad<&E>) {
		self.0.retain(|s| qr(q_ref(s)) != qr(q))
	}
}

impl<E: Elem> Graph for ListGraph<E> {
	type Resource = E;
}

impl<E: Elem> TraversableGraph for ListGraph<E> {
	type Triples<'a> = It<'a, Triple<&'a E>>;
	fn triples(&self) -> Self::Triples<'_> {
		self.0.iter().map(t_ref).collect::<Vec<_>>().into_iter()
	}
}

impl<E: Elem> ResourceTraversableGraph for ListGraph<E> {
	type GraphResources<'a> = It<'a, &'a E>;
	fn graph_resources(&self) -> Self::GraphResources<'_> {
		uniq(self.0.iter().flat_map(|s| [&s.0, &s.1, &s.2]))
	}
}

impl<E: Elem> SubjectTraversableGraph for ListGraph<E> {
	type GraphSubjects<'a> = It<'a, &'a E>;
	fn graph_subjects(&self) -> Self::GraphSubjects<'_> {
		uniq(self.0.iter().map(|s| &s.0))
	}
}

impl<E: Elem> PredicateTraversableGraph for ListGraph<E> {
	type GraphPredicates<'a> = It<'a, &'a E>;
	fn graph_predicates(&self) -> Self::GraphPredicates<'_> {
		uniq(self.0.iter().map(|s| &s.1))
	}
}

impl<E: Elem> ObjectTraversableGraph for ListGraph<E> {
	type GraphObjects<'a> = It<'a, &'a E>;
	fn graph_objects(&self) -> Self::GraphObjects<'_> {
		uniq(self.0.iter().map(|s| &s.2))
	}
}

impl<E: Elem> PatternMatchingGraph for ListGraph<E> {
	type TriplePatternMatching<'a, 'p>
		= It<'a, Triple<&'a E>>
	where
		E: 'p;
	fn triple_pattern_matching<'p>(&self, pattern: CanonicalTriplePattern<&'p E>) -> It<'_, Triple<&E>> {
		let p = decode_triple(&pattern);
		self.0
			.iter()
			.filter(|s| p.accepts_with(st_ref(s), |a, b| **a == *b))
			.map(t_ref)
			.collect::<Vec<_>>()
			.into_iter()
	}
}

impl<E: Elem> GraphMut for ListGraph<E> {
	fn insert(&mut self, t: Triple<E>) {
		let s = st_of_t(t);
		if !self.0.contains(&s) {
			self.0.push(s)
		}
	}
	fn remove(&mut self, t: Triple<&E>) {
		self.0.retain(|s| tr(t_ref(s)) != tr(t))
	}
}

// ------------------------------------------------------------------- monitors

fn listing<'a, E: Elem, I: Iterator<Item = &'a E>>(
	cx: &mut Cx,
	what: &str,
	got: impl Fn() -> I,
	count: usize,
	expected: &BTreeSet<&E>,
) -> Res {
	let got = crate::common::listing(got, |r| r, expected.len() + 2);
	cx.evals(2);
	ensure!(
		got.len() == expected.len() && got.iter().copied().collect::<BTreeSet<_>>() == *expected,
		"{what} lists {got:?} instead of {expected:?}"
	);
	ensure!(
		count == expected.len(),
		"{what} counts {count} instead of {}",
		expected.len()
	);
	Ok(())
}

/// The same multiset.
fn bag<'a, E: Elem>(cx: &mut Cx, what: &dyn Fn() -> String, mut got: Vec<&'a E>, mut expected: Vec<&'a E>) -> Res {
	got.sort();
	expected.sort();
	cx.eval();
	ensure!(got == expected, "{} gives {got:?} instead of {expected:?}", what());
	Ok(())
}

fn graph_of<'m, E: Elem>(cx: &mut Cx, u: &'m [E]) -> Option<&'m E> {
	if cx.rng.chance(1, 3) {
		None
	} else {
		Some(cx.rng.pick(u))
	}
}

/// Queries of the dataset traits.
fn dataset_queries<E: Elem, D>(cx: &mut Cx, name: &str, d: &D, m: &Model<E>, u: &[E]) -> Res
where
	D: TraversableDataset<Resource = E>
		+ ResourceTraversableDataset
		+ SubjectTraversableDataset
		+ PredicateTraversableDataset
		+ ObjectTraversableDataset
		+ NamedGraphTraversableDataset
		+ PatternMatchingDataset,
{
	let cap = m.len() + 2;
	// Enumeration.
	let expected: Vec<QRef<E>> = m.iter().map(st_ref).collect();
	let mut got: Vec<QRef<E>> = crate::common::listing(|| d.quads(), qr, cap);
	let mut tried: Vec<QRef<E>> = Vec::new();
	for q in drain(FallibleTraversableDataset::try_quads(d), cap) {
		let q: Result<_, Infallible> = q;
		tried.push(qr(q.unwrap_or_else(|e| match e {})))
	}
	cx.evals(3);
	ensure!(
		got == tried,
		"{name}: try_quads gives {tried:?} where quads gives {got:?}"
	);
	got.sort();
	ensure!(got == expected, "{name}: quads gives {got:?} instead of {expected:?}");
	let n = d.quads_count();
	ensure!(n == m.len(), "{name}: quads_count is {n} instead of {}", m.len());

	// Listings.
	let subjects: BTreeSet<&E> = m.iter().map(|s| &s.0).collect();
	let predicates: BTreeSet<&E> = m.iter().map(|s| &s.1).collect();
	let objects: BTreeSet<&E> = m.iter().map(|s| &s.2).collect();
	let graphs: BTreeSet<&E> = m.iter().filter_map(|s| s.3.as_ref()).collect();
	let mut all = subjects.clone();
	all.extend(&predicates);
	all.extend(&objects);
	all.extend(&graphs);
	listing(cx, &format!("{name}: resources"), || d.resources(), d.resource_count(), &all)?;
	listing(cx, &format!("{name}: subjects"), || d.subjects(), d.subject_count(), &subjects)?;
	listing(cx, &format!("{name}: predicates"), || d.predicates(), d.predicate_count(), &predicates)?;
	listing(cx, &format!("{name}: objects"), || d.objects(), d.object_count(), &objects)?;
	listing(cx, &format!("{name}: named graphs"), || d.named_graphs(), d.named_graph_count(), &graphs)?;

	// Membership.
	for r in u {
		cx.evals(4);
		for (what, got, expected) in [
			("contains_quad_subject", d.contains_quad_subject(r), subjects.contains(r)),
			("contains_quad_predicate", d.contains_quad_predicate(r), predicates.contains(r)),
			("contains_quad_object", d.contains_quad_object(r), objects.contains(r)),
			("contains_named_graph", d.contains_named_graph(r), graphs.contains(r)),
		] {
			cx.count(if expected { "membership: yes" } else { "membership: no" });
			ensure!(
				got == expected,
				"{name}: {what}({r:?}) is {got} over {m:?}"
			);
		}
	}
	let mut probes: Vec<St<E>> = m.iter().take(12).cloned().collect();
	for s in probes.clone() {
		// The same triple in another graph, and with the components rotated.
		probes.push((s.0.clone(), s.1.clone(), s.2.clone(), graph_of(cx, u).cloned()));
		probes.push((s.0.clone(), s.1.clone(), s.2.clone(), None));
		probes.push((s.1.clone(), s.2.clone(), s.0.clone(), s.3.clone()));
		probes.push((s.0.clone(), s.1.clone(), cx.rng.pick(u).clone(), s.3.clone()));
	}
	for _ in 0..8 {
		probes.push(statement(&mut cx.rng, u, true));
	}
	for s in &probes {
		let expected = m.contains(s);
		let got = d.contains_quad(q_ref(s));
		cx.evals(2);
		cx.count(if expected { "membership: yes" } else { "membership: no" });
		ensure!(got == expected, "{name}: contains_quad({s:?}) is {got} over {m:?}");
		let expected = m.iter().any(|t| (&t.0, &t.1, &t.2) == (&s.0, &s.1, &s.2));
		let got = FalliblePatternMatchingDataset::try_contains_triple(d, t_ref(s)).unwrap_or_else(|e| match e {});
		ensure!(
			got == expected,
			"{name}: try_contains_triple({s:?}) is {got} over {m:?}"
		);
	}

	// Objects, and predicates with their objects.
	for _ in 0..10 {
		let (g, s, p) = if let (false, Some(st)) = (cx.rng.chance(1, 3), probes.first().and(Some(cx.rng.pick(&probes).clone()))) {
			(st.3, st.0, st.1)
		} else {
			let st = statement(&mut cx.rng, u, true);
			(st.3, st.0, st.1)
		};
		let g = g.as_ref();
		let expected: Vec<&E> = m
			.iter()
			.filter(|t| t.3.as_ref() == g && t.0 == s && t.1 == p)
			.map(|t| &t.2)
			.collect();
		if !expected.is_empty() {
			cx.count("object listings with answers");
		}
		let got = crate::common::listing(|| d.quad_objects(g, &s, &p), |r| r, cap);
		bag(
			cx,
			&|| format!("{name}: quad_objects({g:?}, {s:?}, {p:?}) over {m:?}"),
			got,
			expected,
		)?;

		let mut expected: BTreeMap<&E, Vec<&E>> = BTreeMap::new();
		for t in m.iter().filter(|t| t.3.as_ref() == g && t.0 == s) {
			expected.entry(&t.1).or_default().push(&t.2)
		}
		let limit = match cx.rng.below(3) {
			0 => cap,
			1 => 0,
			_ => 1,
		};
		let mut got: BTreeMap<&E, Vec<&E>> = BTreeMap::new();
		let mut later = Vec::new();
		for (p, o) in drain(d.quad_predicates_objects(g, &s), cap) {
			cx.eval();
			ensure!(
				!got.contains_key(p),
				"{name}: quad_predicates_objects({g:?}, {s:?}) gives {p:?} twice over {m:?}"
			);
			got.insert(p, Vec::new());
			let mut o = o;
			// Read some of the objects now, the rest later.
			for _ in 0..limit {
				match o.next() {
					Some(o) => got.get_mut(p).unwrap().push(o),
					None => break,
				}
			}
			later.push((p, o))
		}
		for (p, o) in later {
			got.get_mut(p).unwrap().extend(drain(o, cap))
		}
		for v in got.values_mut().chain(expected.values_mut()) {
			v.sort()
		}
		cx.eval();
		if !expected.is_empty() {
			cx.count("predicate listings with answers");
		}
		ensure!(
			got == expected,
			"{name}: quad_predicates_objects({g:?}, {s:?}) gives {got:?} instead of {expected:?} over {m:?}"
		);
	}

	// Patterns through the fallible interface.
	for _ in 0..8 {
		let pat = random_pat(&mut cx.rng, u);
		let a: Vec<QRef<E>> = crate::common::listing(|| d.quad_pattern_matching(pat.clone().build()), qr, cap);
		let b: Vec<QRef<E>> = crate::common::listing(|| d.try_quad_pattern_matching(pat.clone().build()), |q| qr(q.unwrap_or_else(|e| match e {})), cap);
		cx.evals(2);
		ensure!(
			a == b,
			"{name}: try_quad_pattern_matching({pat:?}) gives {b:?} where quad_pattern_matching gives {a:?}"
		);
		let mut a = a;
		a.sort();
		let expected: Vec<QRef<E>> = m
			.iter()
			.filter(|s| pat.accepts_with(st_ref(s), |a, b| **a == *b))
			.map(st_ref)
			.collect();
		ensure!(
			a == expected,
			"{name}: {pat:?} matches {a:?} instead of {expected:?}"
		);
	}
	Ok(())
}

/// Queries of the graph traits.
fn graph_queries<E: Elem, D>(cx: &mut Cx, name: &str, d: &D, m: &Model<E>, u: &[E]) -> Res
where
	D: TraversableGraph
		+ Graph<Resource = E>
		+ ResourceTraversableGraph
		+ SubjectTraversableGraph
		+ PredicateTraversableGraph
		+ ObjectTraversableGraph
		+ PatternMatchingGraph,
{
	let cap = m.len() + 2;
	let expected: Vec<QRef<E>> = m.iter().map(st_ref).collect();
	let mut got: Vec<QRef<E>> = crate::common::listing(|| d.triples(), tr, cap);
	let tried: Vec<QRef<E>> = crate::common::listing(|| FallibleTraversableGraph::try_triples(d), |t| tr(t.unwrap_or_else(|e| match e {})), cap);
	cx.evals(3);
	ensure!(got == tried, "{name}: try_triples gives {tried:?} where triples gives {got:?}");
	got.sort();
	ensure!(got == expected, "{name}: triples gives {got:?} instead of {expected:?}");
	let n = d.triples_count();
	ensure!(n == m.len(), "{name}: triples_count is {n} instead of {}", m.len());

	let subjects: BTreeSet<&E> = m.iter().map(|s| &s.0).collect();
	let predicates: BTreeSet<&E> = m.iter().map(|s| &s.1).collect();
	let objects: BTreeSet<&E> = m.iter().map(|s| &s.2).collect();
	let mut all = subjects.clone();
	all.extend(&predicates);
	all.extend(&objects);
	listing(cx, &format!("{name}: resources"), || d.graph_resources(), d.graph_resource_count(), &all)?;
	listing(cx, &format!("{name}: subjects"), || d.graph_subjects(), d.graph_subject_count(), &subjects)?;
	listing(cx, &format!("{name}: predicates"), || d.graph_predicates(), d.graph_predicate_count(), &predicates)?;
	listing(cx, &format!("{name}: objects"), || d.graph_objects(), d.graph_object_count(), &objects)?;

	for r in u {
		cx.evals(3);
		for (what, got, expected) in [
			("contains_triple_subject", d.contains_triple_subject(r), subjects.contains(r)),
			("contains_triple_predicate", d.contains_triple_predicate(r), predicates.contains(r)),
			("contains_triple_object", d.contains_triple_object(r), objects.contains(r)),
		] {
			cx.count(if expected { "membership: yes" } else { "membership: no" });
			ensure!(got == expected, "{name}: {what}({r:?}) is {got} over {m:?}");
		}
	}
	let mut probes: Vec<St<E>> = m.iter().take(12).cloned().collect();
	for s in probes.clone() {
		probes.push((s.1.clone(), s.2.clone(), s.0.clone(), None));
		probes.push((s.0.clone(), s.1.clone(), cx.rng.pick(u).clone(), None));
		probes.push((cx.rng.pick(u).clone(), s.1.clone(), s.2.clone(), None));
	}
	for _ in 0..8 {
		probes.push(statement(&mut cx.rng, u, false));
	}
	for s in &probes {
		let expected = m.contains(s);
		let got = d.contains_triple(t_ref(s));
		let tried = FalliblePatternMatchingGraph::try_contains_triple(d, t_ref(s)).unwrap_or_else(|e| match e {});
		cx.evals(2);
		cx.count(if expected { "membership: yes" } else { "membership: no" });
		ensure!(got == expected, "{name}: contains_triple({s:?}) is {got} over {m:?}");
		ensure!(tried == expected, "{name}: try_contains_triple({s:?}) is {tried} over {m:?}");
	}
	for _ in 0..10 {
		let st = if cx.rng.chance(1, 3) || probes.is_empty() {
			statement(&mut cx.rng, u, false)
		} else {
			cx.rng.pick(&probes).clone()
		};
		let (s, p) = (&st.0, &st.1);
		let expected: Vec<&E> = m.iter().filter(|t| t.0 == *s && t.1 == *p).map(|t| &t.2).collect();
		if !expected.is_empty() {
			cx.count("object listings with answers");
		}
		let got = crate::common::listing(|| d.triple_objects(s, p), |r| r, cap);
		bag(cx, &|| format!("{name}: triple_objects({s:?}, {p:?}) over {m:?}"), got, expected)?;

		let mut expected: BTreeMap<&E, Vec<&E>> = BTreeMap::new();
		for t in m.iter().filter(|t| t.0 == *s) {
			expected.entry(&t.1).or_default().push(&t.2)
		}
		let mut got: BTreeMap<&E, Vec<&E>> = BTreeMap::new();
		for (p, o) in drain(d.triple_predicates_objects(s), cap) {
			cx.eval();
			ensure!(
				!got.contains_key(p),
				"{name}: triple_predicates_objects({s:?}) gives {p:?} twice over {m:?}"
			);
			got.insert(p, drain(o, cap));
		}
		for v in got.values_mut().chain(expected.values_mut()) {
			v.sort()
		}
		cx.eval();
		if !expected.is_empty() {
			cx.count("predicate listings with answers");
		}
		ensure!(
			got == expected,
			"{name}: triple_predicates_objects({s:?}) gives {got:?} instead of {expected:?} over {m:?}"
		);
	}
	for _ in 0..8 {
		let pat = random_pat(&mut cx.rng, u);
		let a: Vec<QRef<E>> = crate::common::listing(|| d.triple_pattern_matching(pat.clone().build_triple()), tr, cap);
		let b: Vec<QRef<E>> = crate::common::listing(|| d.try_triple_pattern_matching(pat.clone().build_triple()), |q| tr(q.unwrap_or_else(|e| match e {})), cap);
		cx.evals(2);
		ensure!(
			a == b,
			"{name}: try_triple_pattern_matching({pat:?}) gives {b:?} where triple_pattern_matching gives {a:?}"
		);
	}
	Ok(())
}

/// In large contents, many statements have the same subject and graph, and most
/// of those the same predicate.
fn hub<E: Elem>(cx: &mut Cx, mut s: St<E>, u: &[E], n: usize) -> St<E> {
	if n > 50 && cx.index % 8 < 4 && cx.rng.chance(2, 3) {
		s.0 = u[0].clone();
		s.3 = s.3.map(|_| u[1].clone());
		if cx.rng.chance(3, 4) {
			s.1 = u[1].clone();
		}
	}
	s
}

fn mutate_dataset<E: Elem, D: DatasetMut + Dataset<Resource = E>>(cx: &mut Cx, d: &mut D, m: &mut Model<E>, u: &[E], n: usize) {
	for _ in 0..n {
		let s = statement(&mut cx.rng, u, true);
		let s = hub(cx, s, u, n);
		match cx.rng.below(4) {
			0 => {
				let s = if cx.rng.chance(2, 3) && !m.is_empty() {
					let i = cx.rng.below(m.len());
					m.iter().nth(i).unwrap().clone()
				} else {
					s
				};
				cx.log(|| format!("remove {s:?}"));
				DatasetMut::remove(d, q_ref(&s));
				m.remove(&s);
			}
			1 => {
				cx.log(|| format!("insert {s:?}"));
				DatasetMut::insert(d, q_of(&s));
				m.insert(s);
			}
			_ => {
				cx.log(|| format!("try_insert {s:?}"));
				cx.count("fallible insertions");
				FallibleDatasetMut::try_insert(d, q_of(&s)).unwrap_or_else(|e| match e {});
				m.insert(s);
			}
		}
	}
}

fn mutate_graph<E: Elem, D: GraphMut + Graph<Resource = E>>(cx: &mut Cx, d: &mut D, m: &mut Model<E>, u: &[E], n: usize) {
	for _ in 0..n {
		let s = statement(&mut cx.rng, u, false);
		let s = hub(cx, s, u, n);
		match cx.rng.below(4) {
			0 => {
				let s = if cx.rng.chance(2, 3) && !m.is_empty() {
					let i = cx.rng.below(m.len());
					m.iter().nth(i).unwrap().clone()
				} else {
					s
				};
				cx.log(|| format!("remove {s:?}"));
				GraphMut::remove(d, t_ref(&s));
				m.remove(&s);
			}
			1 => {
				cx.log(|| format!("insert {s:?}"));
				GraphMut::insert(d, t_of(&s));
				m.insert(s);
			}
			_ => {
				cx.log(|| format!("try_insert {s:?}"));
				cx.count("fallible insertions");
				FallibleGraphMut::try_insert(d, t_of(&s)).unwrap_or_else(|e| match e {});
				m.insert(s);
			}
		}
	}
}

fn traverse<E: Elem, D: TraversableDataset<Resource = E> + ResourceTraversableDataset>(
	cx: &mut Cx,
	name: &str,
	d: &D,
	m: &Model<E>,
) -> Res {
	let cap = m.len() + 2;
	let mut got: Vec<QRef<E>> = crate::common::listing(|| d.quads(), qr, cap);
	let tried: Vec<QRef<E>> = crate::common::listing(|| d.try_quads(), |q| qr(q.unwrap_or_else(|e| match e {})), cap);
	cx.evals(3);
	ensure!(got == tried, "{name}: try_quads gives {tried:?} where quads gives {got:?}");
	got.sort();
	let expected: Vec<QRef<E>> = m.iter().map(st_ref).collect();
	ensure!(got == expected, "{name}: quads gives {got:?} instead of {expected:?}");
	let n = d.quads_count();
	ensure!(n == m.len(), "{name}: quads_count is {n} instead of {}", m.len());
	let all: BTreeSet<&E> = m
		.iter()
		.flat_map(|s| [Some(&s.0), Some(&s.1), Some(&s.2), s.3.as_ref()].into_iter().flatten())
		.collect();
	listing(cx, &format!("{name}: resources"), || d.resources(), d.resource_count(), &all)
}

fn run<E: Elem>(cx: &mut Cx) -> Res {
	let large = !cx.tiny && cx.rng.chance(1, 60);
	let k = if large { *cx.rng.pick(&[8usize, 30, 150, 700]) } else { cx.rng.range(1, 9) };
	let u: Vec<E> = universe(&mut cx.rng, k + 2);
	// Some resources are never used.
	let used = u[..k].to_vec();
	let phases = cx.rng.range(1, 3);
	let step = if large {
		cx.count("large contents");
		cx.rng.range(60, 900)
	} else {
		cx.rng.range(1, 25)
	};
	match cx.index / 4 % 6 {
		0 => {
			let mut d = IndexedBTreeDataset::<E>::new();
			let mut m = Model::new();
			for _ in 0..phases {
				mutate_dataset(cx, &mut d, &mut m, &used, step);
				seen(cx, "IndexedBTreeDataset", &m);
				dataset_queries(cx, "IndexedBTreeDataset", &d, &m, &u)?;
			}
		}
		1 => {
			let mut d = ListDataset::<E>(Vec::new());
			let mut m = Model::new();
			for _ in 0..phases {
				mutate_dataset(cx, &mut d, &mut m, &used, step);
				seen(cx, "user-defined dataset", &m);
				dataset_queries(cx, "user-defined dataset", &d, &m, &u)?;
			}
		}
		2 => {
			let mut d = IndexedBTreeGraph::<E>::new();
			let mut m = Model::new();
			for _ in 0..phases {
				mutate_graph(cx, &mut d, &mut m, &used, step);
				seen(cx, "IndexedBTreeGraph", &m);
				graph_queries(cx, "IndexedBTreeGraph", &d, &m, &u)?;
				dataset_queries(cx, "IndexedBTreeGraph as a dataset", &d, &m, &u)?;
			}
		}
		3 => {
			let mut d = ListGraph::<E>(Vec::new());
			let mut m = Model::new();
			for _ in 0..phases {
				mutate_graph(cx, &mut d, &mut m, &used, step);
				seen(cx, "user-defined graph", &m);
				graph_queries(cx, "user-defined graph", &d, &m, &u)?;
				dataset_queries(cx, "user-defined graph as a dataset", &d, &m, &u)?;
			}
		}
		4 => {
			let mut d = BTreeDataset::<E>::new();
			let mut m = Model::new();
			for _ in 0..phases {
				mutate_dataset(cx, &mut d, &mut m, &used, step);
				seen(cx, "BTreeDataset", &m);
				traverse(cx, "BTreeDataset", &d, &m)?;
			}
		}
		_ => {
			let mut d = BTreeGraph::<E>::new();
			let mut m = Model::new();
			for _ in 0..phases {
				mutate_graph(cx, &mut d, &mut m, &used, step);
				seen(cx, "BTreeGraph", &m);
				traverse(cx, "BTreeGraph as a dataset", &d, &m)?;
				let cap = m.len() + 2;
				let got: Vec<QRef<E>> = crate::common::listing(|| d.triples(), tr, cap);
				let tried: Vec<QRef<E>> = crate::common::listing(|| FallibleTraversableGraph::try_triples(&d), |t| tr(t.unwrap_or_else(|e| match e {})), cap);
				cx.evals(3);
				ensure!(got == tried, "BTreeGraph: try_triples gives {tried:?} where triples gives {got:?}");
				ensure!(
					got.len() == m.len() && d.triples_count() == m.len(),
					"BTreeGraph: triples_count is {}",
					d.triples_count()
				);
				let all: BTreeSet<&E> = m.iter().flat_map(|s| [&s.0, &s.1, &s.2]).collect();
				listing(cx, "BTreeGraph: resources", || d.graph_resources(), d.graph_resource_count(), &all)?;
				let empty: Vec<&E> = drain(d.named_graphs(), 1);
				ensure!(
					empty.is_empty() && d.named_graph_count() == 0,
					"BTreeGraph has named graphs {empty:?}"
				);
			}
		}
	}
	Ok(())
}

fn seen<E: Elem>(cx: &mut Cx, name: &'static str, m: &Model<E>) {
	cx.count("contents queried");
	if !m.is_empty() {
		cx.distinct(&(name, E::NAME, m));
	}
	cx.sample(|| format!("{name} {m:?}"));
	cx.log(|| format!("query {name}"));
}

pub fn c22(cx: &mut Cx) -> Res {
	match cx.index % 4 {
		0 => run::<u32>(cx),
		1 => run::<String>(cx),
		2 => run::<Rev>(cx),
		_ => run::<LocalTerm>(cx),
	}
}
