//! Uniform access to the four containers under test.
use rdf_types::dataset::*;
use rdf_types::{Quad, Triple};
use std::fmt::Debug;
use std::hash::Hash;

use crate::common::{choice, drain, finish, listing, ordered_listing};
use crate::elem::{Elem, St};

pub type QRef<'a, E> = (&'a E, &'a E, &'a E, Option<&'a E>);

pub fn q_of<E: Clone>(s: &St<E>) -> Quad<E> {
	Quad(s.0.clone(), s.1.clone(), s.2.clone(), s.3.clone())
}

pub fn t_of<E: Clone>(s: &St<E>) -> Triple<E> {
	Triple(s.0.clone(), s.1.clone(), s.2.clone())
}

pub fn q_ref<E>(s: &St<E>) -> Quad<&E> {
	Quad(&s.0, &s.1, &s.2, s.3.as_ref())
}

pub fn t_ref<E>(s: &St<E>) -> Triple<&E> {
	Triple(&s.0, &s.1, &s.2)
}

pub fn st_of<E>(q: Quad<E>) -> St<E> {
	(q.0, q.1, q.2, q.3)
}

pub fn st_of_t<E>(t: Triple<E>) -> St<E> {
	(t.0, t.1, t.2, None)
}

pub fn qr<'a, E>(q: Quad<&'a E>) -> QRef<'a, E> {
	(q.0, q.1, q.2, q.3)
}

pub fn tr<'a, E>(t: Triple<&'a E>) -> QRef<'a, E> {
	(t.0, t.1, t.2, None)
}

pub fn st_ref<E>(s: &St<E>) -> QRef<'_, E> {
	(&s.0, &s.1, &s.2, s.3.as_ref())
}

/// One of the four containers.
pub trait Store<E: Elem>: Clone + Eq + Ord + Hash + Debug + Default + Sized {
	const NAME: &'static str;
	const GRAPHS: bool;

	fn make() -> Self;
	fn ins(&mut self, s: St<E>) -> bool;
	fn rem(&mut self, s: &St<E>) -> bool;
	fn trait_ins(&mut self, s: St<E>);
	fn trait_rem(&mut self, s: &St<E>);
	fn has(&self, s: &St<E>) -> bool;
	fn size(&self) -> usize;
	fn empty(&self) -> bool;
	fn list(&self, cap: usize) -> Vec<QRef<'_, E>>;
	fn list_ref(&self, cap: usize) -> Vec<QRef<'_, E>>;
	fn list_trait(&self, cap: usize) -> Vec<QRef<'_, E>>;
	/// Lists using an iterator cloned after `k` steps.
	fn list_split(&self, k: usize, cap: usize) -> (Vec<QRef<'_, E>>, Vec<QRef<'_, E>>);
	fn count_trait(&self) -> usize;
	fn into_list(self, cap: usize) -> Vec<St<E>>;
	fn collect(v: Vec<St<E>>) -> Self;
	fn ext(&mut self, v: Vec<St<E>>);
	fn res(&self, cap: usize) -> Vec<&E>;
	fn res_trait(&self, cap: usize) -> Vec<&E>;
	fn res_count(&self) -> usize;
	fn has_res(&self, r: &E) -> bool;
}

macro_rules! dataset_store {
	($ty:ident) => {
		impl<E: Elem> Store<E> for $ty<E> {
			const NAME: &'static str = stringify!($ty);
			const GRAPHS: bool = true;

			fn make() -> Self {
				$ty::new()
			}
			fn ins(&mut self, s: St<E>) -> bool {
				$ty::insert(self, Quad(s.0, s.1, s.2, s.3))
			}
			fn rem(&mut self, s: &St<E>) -> bool {
				$ty::remove(self, q_ref(s))
			}
			fn trait_ins(&mut self, s: St<E>) {
				DatasetMut::insert(self, Quad(s.0, s.1, s.2, s.3))
			}
			fn trait_rem(&mut self, s: &St<E>) {
				DatasetMut::remove(self, q_ref(s))
			}
			fn has(&self, s: &St<E>) -> bool {
				self.contains(q_ref(s))
			}
			fn size(&self) -> usize {
				self.len()
			}
			fn empty(&self) -> bool {
				self.is_empty()
			}
			fn list(&self, cap: usize) -> Vec<QRef<'_, E>> {
				ordered_listing(|| self.iter(), qr, cap)
			}
			fn list_ref(&self, cap: usize) -> Vec<QRef<'_, E>> {
				ordered_listing(|| self.into_iter(), qr, cap)
			}
			fn list_trait(&self, cap: usize) -> Vec<QRef<'_, E>> {
				ordered_listing(|| TraversableDataset::quads(self), qr, cap)
			}
			fn list_split(&self, k: usize, cap: usize) -> (Vec<QRef<'_, E>>, Vec<QRef<'_, E>>) {
				let mut a = self.iter();
				let mut head: Vec<_> = Vec::new();
				for _ in 0..k {
					match a.next() {
						Some(q) => head.push(qr(q)),
						None => break,
					}
				}
				let b = a.clone();
				let mut one = head.clone();
				one.extend(drain(a.map(qr), cap));
				let mut two = head.clone();
				two.extend(drain(b.clone().map(qr), cap));
				if two.len() <= cap {
					finish(b, qr, &two, head, true)
				}
				(one, two)
			}
			fn count_trait(&self) -> usize {
				TraversableDataset::quads_count(self)
			}
			fn into_list(self, cap: usize) -> Vec<St<E>> {
				let mut it = self.clone().into_iter();
				let items = drain(self.into_iter().map(st_of), cap);
				if items.len() <= cap {
					let k = choice(items.len() + 1);
					let head = it.by_ref().take(k).map(st_of).collect();
					finish(it, st_of, &items, head, true)
				}
				items
			}
			fn collect(v: Vec<St<E>>) -> Self {
				v.into_iter().map(|s| Quad(s.0, s.1, s.2, s.3)).collect()
			}
			fn ext(&mut self, v: Vec<St<E>>) {
				self.extend(v.into_iter().map(|s| Quad(s.0, s.1, s.2, s.3)))
			}
			fn res(&self, cap: usize) -> Vec<&E> {
				ordered_listing(|| $ty::resources(self), |r| r, cap)
			}
			fn res_trait(&self, cap: usize) -> Vec<&E> {
				ordered_listing(|| ResourceTraversableDataset::resources(self), |r| r, cap)
			}
			fn res_count(&self) -> usize {
				ResourceTraversableDataset::resource_count(self)
			}
			fn has_res(&self, r: &E) -> bool {
				self.contains_resource(r)
			}
		}
	};
}

macro_rules! graph_store {
	($ty:ident) => {
		impl<E: Elem> Store<E> for $ty<E> {
			const NAME: &'static str = stringify!($ty);
			const GRAPHS: bool = false;

			fn make() -> Self {
				$ty::new()
			}
			fn ins(&mut self, s: St<E>) -> bool {
				$ty::insert(self, Triple(s.0, s.1, s.2))
			}
			fn rem(&mut self, s: &St<E>) -> bool {
				$ty::remove(self, t_ref(s))
			}
			fn trait_ins(&mut self, s: St<E>) {
				GraphMut::insert(self, Triple(s.0, s.1, s.2))
			}
			fn trait_rem(&mut self, s: &St<E>) {
				GraphMut::remove(self, t_ref(s))
			}
			fn has(&self, s: &St<E>) -> bool {
				self.contains(t_ref(s))
			}
			fn size(&self) -> usize {
				self.len()
			}
			fn empty(&self) -> bool {
				self.is_empty()
			}
			fn list(&self, cap: usize) -> Vec<QRef<'_, E>> {
				ordered_listing(|| self.iter(), tr, cap)
			}
			fn list_ref(&self, cap: usize) -> Vec<QRef<'_, E>> {
				ordered_listing(|| self.into_iter(), tr, cap)
			}
			fn list_trait(&self, cap: usize) -> Vec<QRef<'_, E>> {
				let a = ordered_listing(|| TraversableGraph::triples(self), tr, cap);
				let b = ordered_listing(|| TraversableDataset::quads(self), qr, cap);
				if a == b {
					a
				} else {
					// Observed as a wrong listing by the caller.
					a.into_iter().chain(b).collect()
				}
			}
			fn list_split(&self, k: usize, cap: usize) -> (Vec<QRef<'_, E>>, Vec<QRef<'_, E>>) {
				let mut a = self.iter();
				let mut head: Vec<_> = Vec::new();
				for _ in 0..k {
					match a.next() {
						Some(q) => head.push(tr(q)),
						None => break,
					}
				}
				let b = a.clone();
				let mut one = head.clone();
				one.extend(drain(a.map(tr), cap));
				let mut two = head.clone();
				two.extend(drain(b.clone().map(tr), cap));
				if two.len() <= cap {
					finish(b, tr, &two, head, true)
				}
				(one, two)
			}
			fn count_trait(&self) -> usize {
				let a = TraversableGraph::triples_count(self);
				let b = TraversableDataset::quads_count(self);
				if a == b {
					a
				} else {
					usize::MAX
				}
			}
			fn into_list(self, cap: usize) -> Vec<St<E>> {
				let mut it = self.clone().into_iter();
				let items = drain(self.into_iter().map(st_of_t), cap);
				if items.len() <= cap {
					let k = choice(items.len() + 1);
					let head = it.by_ref().take(k).map(st_of_t).collect();
					finish(it, st_of_t, &items, head, true)
				}
				items
			}
			fn collect(v: Vec<St<E>>) -> Self {
				v.into_iter().map(|s| Triple(s.0, s.1, s.2)).collect()
			}
			fn ext(&mut self, v: Vec<St<E>>) {
				self.extend(v.into_iter().map(|s| Triple(s.0, s.1, s.2)))
			}
			fn res(&self, cap: usize) -> Vec<&E> {
				ordered_listing(|| $ty::resources(self), |r| r, cap)
			}
			fn res_trait(&self, cap: usize) -> Vec<&E> {
				let a = ordered_listing(|| ResourceTraversableGraph::graph_resources(self), |r| r, cap);
				let b = ordered_listing(|| ResourceTraversableDataset::resources(self), |r| r, cap);
				if a == b {
					a
				} else {
					a.into_iter().chain(b).collect()
				}
			}
			fn res_count(&self) -> usize {
				let a = ResourceTraversableGraph::graph_resource_count(self);
				let b = ResourceTraversableDataset::resource_count(self);
				if a == b {
					a
				} else {
					usize::MAX
				}
			}
			fn has_res(&self, r: &E) -> bool {
				self.contains_resource(r)
			}
		}
	};
}

dataset_store!(BTreeDataset);
dataset_store!(IndexedBTreeDataset);
graph_store!(BTreeGraph);
graph_store!(IndexedBTreeGraph);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
	Subject,
	Predicate,
	Object,
	Graph,
}

pub const ROLES: [Role; 4] = [Role::Subject, Role::Predicate, Role::Object, Role::Graph];

use crate::pat::{Pat, G};

/// Container with role listings and pattern matching.
pub trait Indexed<E: Elem>: Store<E> {
	/// Listings of the resources in the given role, through each interface.
	fn roles(&self, role: Role, cap: usize) -> Vec<(&'static str, Vec<&E>)>;
	/// Count of the resources in the given role, through each interface.
	fn role_counts(&self, role: Role) -> Vec<(&'static str, usize)>;
	/// Matching statements, through each interface.
	fn matching<'a>(
		&'a self,
		pat: Pat<&E>,
		cap: usize,
	) -> Vec<(&'static str, Vec<QRef<'a, E>>)>;
}

impl<E: Elem> Indexed<E> for IndexedBTreeDataset<E> {
	fn roles(&self, role: Role, cap: usize) -> Vec<(&'static str, Vec<&E>)> {
		match role {
			Role::Subject => vec![
				("subjects()", listing(|| IndexedBTreeDataset::subjects(self), |r| r, cap)),
				(
					"SubjectTraversableDataset::subjects()",
					listing(|| SubjectTraversableDataset::subjects(self), |r| r, cap),
				),
			],
			Role::Predicate => vec![
				(
					"predicates()",
					listing(|| IndexedBTreeDataset::predicates(self), |r| r, cap),
				),
				(
					"PredicateTraversableDataset::predicates()",
					listing(|| PredicateTraversableDataset::predicates(self), |r| r, cap),
				),
			],
			Role::Object => vec![
				("objects()", listing(|| IndexedBTreeDataset::objects(self), |r| r, cap)),
				(
					"ObjectTraversableDataset::objects()",
					listing(|| ObjectTraversableDataset::objects(self), |r| r, cap),
				),
			],
			Role::Graph => vec![
				(
					"named_graphs()",
					listing(|| IndexedBTreeDataset::named_graphs(self), |r| r, cap),
				),
				(
					"NamedGraphTraversableDataset::named_graphs()",
					listing(|| NamedGraphTraversableDataset::named_graphs(self), |r| r, cap),
				),
			],
		}
	}

	fn role_counts(&self, role: Role) -> Vec<(&'static str, usize)> {
		vec![match role {
			Role::Subject => (
				"subject_count()",
				SubjectTraversableDataset::subject_count(self),
			),
			Role::Predicate => (
				"predicate_count()",
				PredicateTraversableDataset::predicate_count(self),
			),
			Role::Object => (
				"object_count()",
				ObjectTraversableDataset::object_count(self),
			),
			Role::Graph => (
				"named_graph_count()",
				NamedGraphTraversableDataset::named_graph_count(self),
			),
		}]
	}

	fn matching<'a>(
		&'a self,
		pat: Pat<&E>,
		cap: usize,
	) -> Vec<(&'static str, Vec<QRef<'a, E>>)> {
		let pattern = pat.build();
		vec![
			(
				"pattern_matching",
				listing(|| self.pattern_matching(pattern), qr, cap),
			),
			(
				"quad_pattern_matching",
				listing(|| self.quad_pattern_matching(pattern), qr, cap),
			),
		]
	}
}

impl<E: Elem> Indexed<E> for IndexedBTreeGraph<E> {
	fn roles(&self, role: Role, cap: usize) -> Vec<(&'static str, Vec<&E>)> {
		match role {
			Role::Subject => vec![
				("subjects()", listing(|| IndexedBTreeGraph::subjects(self), |r| r, cap)),
				(
					"graph_subjects()",
					listing(|| SubjectTraversableGraph::graph_subjects(self), |r| r, cap),
				),
				(
					"SubjectTraversableDataset::subjects()",
					listing(|| SubjectTraversableDataset::subjects(self), |r| r, cap),
				),
			],
			Role::Predicate => vec![
				(
					"predicates()",
					listing(|| IndexedBTreeGraph::predicates(self), |r| r, cap),
				),
				(
					"graph_predicates()",
					listing(|| PredicateTraversableGraph::graph_predicates(self), |r| r, cap),
				),
				(
					"PredicateTraversableDataset::predicates()",
					listing(|| PredicateTraversableDataset::predicates(self), |r| r, cap),
				),
			],
			Role::Object => vec![
				("objects()", listing(|| IndexedBTreeGraph::objects(self), |r| r, cap)),
				(
					"graph_objects()",
					listing(|| ObjectTraversableGraph::graph_objects(self), |r| r, cap),
				),
				(
					"ObjectTraversableDataset::objects()",
					listing(|| ObjectTraversableDataset::objects(self), |r| r, cap),
				),
			],
			Role::Graph => vec![(
				"NamedGraphTraversableDataset::named_graphs()",
				listing(|| NamedGraphTraversableDataset::named_graphs(self), |r| r, cap),
			)],
		}
	}

	fn role_counts(&self, role: Role) -> Vec<(&'static str, usize)> {
		match role {
			Role::Subject => vec![
				(
					"graph_subject_count()",
					SubjectTraversableGraph::graph_subject_count(self),
				),
				(
					"subject_count()",
					SubjectTraversableDataset::subject_count(self),
				),
			],
			Role::Predicate => vec![
				(
					"graph_predicate_count()",
					PredicateTraversableGraph::graph_predicate_count(self),
				),
				(
					"predicate_count()",
					PredicateTraversableDataset::predicate_count(self),
				),
			],
			Role::Object => vec![
				(
					"graph_object_count()",
					ObjectTraversableGraph::graph_object_count(self),
				),
				(
					"object_count()",
					ObjectTraversableDataset::object_count(self),
				),
			],
			Role::Graph => vec![(
				"named_graph_count()",
				NamedGraphTraversableDataset::named_graph_count(self),
			)],
		}
	}

	fn matching<'a>(
		&'a self,
		pat: Pat<&E>,
		cap: usize,
	) -> Vec<(&'static str, Vec<QRef<'a, E>>)> {
		let mut v = vec![(
			"quad_pattern_matching (graph as dataset)",
			listing(|| self.quad_pattern_matching(pat.build()), qr, cap),
		)];
		if matches!(pat.g, G::Any | G::Given(None)) {
			// Same meaning as the triple pattern.
			let t = pat.build_triple();
			v.push((
				"pattern_matching (triple pattern)",
				listing(|| self.pattern_matching(t), tr, cap),
			));
			v.push((
				"triple_pattern_matching",
				listing(|| self.triple_pattern_matching(t), tr, cap),
			));
		}
		v
	}
}
