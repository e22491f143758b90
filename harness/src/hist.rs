//! Random histories of container operations, run in lock step with a set model.
use std::collections::BTreeSet;

use rdf_types::dataset::*;

use crate::common::*;
use crate::elem::*;
use crate::ensure;
use crate::pat::*;
use crate::store::*;

pub type Model<E> = BTreeSet<St<E>>;

/// Extra operations that only some containers have.
pub trait Special<E: Elem>: Store<E> {
	/// Rebuilds the container through another container type.
	fn through_other_kind(self, rng: &mut Rng) -> Self;

	/// Bulk removals specific to the container.
	fn special(&mut self, _cx: &mut Cx, _model: &mut Model<E>, _u: &[E]) -> Res {
		Ok(())
	}
}

impl<E: Elem> Special<E> for BTreeDataset<E> {
	fn through_other_kind(self, rng: &mut Rng) -> Self {
		let ix = if rng.chance(1, 2) {
			self.into_indexed()
		} else {
			IndexedBTreeDataset::from_non_indexed(self)
		};
		ix.into_iter().collect()
	}
}

impl<E: Elem> Special<E> for BTreeGraph<E> {
	fn through_other_kind(self, rng: &mut Rng) -> Self {
		let ix: IndexedBTreeGraph<E> = match rng.below(3) {
			0 => self.into_indexed(),
			1 => IndexedBTreeGraph::from_non_indexed(self),
			_ => self.into(),
		};
		ix.into_iter().collect()
	}
}

impl<E: Elem> Special<E> for IndexedBTreeGraph<E> {
	fn through_other_kind(self, rng: &mut Rng) -> Self {
		// Through a non-indexed graph that itself went through removals, so that
		// its slots are not in insertion order.
		let g = holed_graph(rng, self.into_iter().map(st_of_t).collect());
		match rng.below(3) {
			0 => g.into_indexed(),
			1 => IndexedBTreeGraph::from_non_indexed(g),
			_ => g.into(),
		}
	}
}

impl<E: Elem> Special<E> for IndexedBTreeDataset<E> {
	fn through_other_kind(self, rng: &mut Rng) -> Self {
		let d = holed_dataset(rng, self.into_iter().map(st_of).collect());
		if rng.chance(1, 2) {
			d.into_indexed()
		} else {
			IndexedBTreeDataset::from_non_indexed(d)
		}
	}

	fn special(&mut self, cx: &mut Cx, model: &mut Model<E>, u: &[E]) -> Res {
		match cx.rng.below(3) {
			0 => {
				let g = if cx.rng.chance(1, 3) {
					None
				} else {
					Some(cx.rng.pick(u).clone())
				};
				remove_graph_step(cx, self, model, g)
			}
			_ => {
				let pat = random_pat(&mut cx.rng, u);
				extract_step(cx, self, model, pat)
			}
		}
	}
}

/// Non-indexed graph with the given content, built with interleaved removals.
pub fn holed_graph<E: Elem>(rng: &mut Rng, mut v: Vec<St<E>>) -> BTreeGraph<E> {
	rng.shuffle(&mut v);
	let mut g = BTreeGraph::new();
	let mut junk: Vec<St<E>> = Vec::new();
	for s in &v {
		if rng.chance(1, 3) {
			// A temporary statement over the same resources.
			let j = (s.2.clone(), s.0.clone(), s.1.clone(), None);
			if !v.contains(&j) && g.insert(t_of(&j)) {
				junk.push(j);
			}
		}
		g.insert(t_of(s));
		if rng.chance(1, 3) {
			if let Some(j) = junk.pop() {
				g.remove(t_ref(&j));
			}
		}
	}
	for j in junk {
		g.remove(t_ref(&j));
	}
	g
}

/// Non-indexed dataset with the given content, built with interleaved removals.
pub fn holed_dataset<E: Elem>(rng: &mut Rng, mut v: Vec<St<E>>) -> BTreeDataset<E> {
	rng.shuffle(&mut v);
	let mut g = BTreeDataset::new();
	let mut junk: Vec<St<E>> = Vec::new();
	for s in &v {
		if rng.chance(1, 3) {
			let j = (
				s.2.clone(),
				s.0.clone(),
				s.1.clone(),
				s.3.is_none().then(|| s.0.clone()),
			);
			if !v.contains(&j) && g.insert(q_of(&j)) {
				junk.push(j);
			}
		}
		g.insert(q_of(s));
		if rng.chance(1, 3) {
			if let Some(j) = junk.pop() {
				g.remove(q_ref(&j));
			}
		}
	}
	for j in junk {
		g.remove(q_ref(&j));
	}
	g
}

/// Removes a graph and checks what is returned.
pub fn remove_graph_step<E: Elem>(
	cx: &mut Cx,
	store: &mut IndexedBTreeDataset<E>,
	model: &mut Model<E>,
	g: Option<E>,
) -> Res {
	cx.log(|| format!("remove_graph({g:?})"));
	cx.count("remove_graph");
	let expected: Vec<St<E>> = model
		.iter()
		.filter(|s| s.3 == g)
		.map(|s| (s.0.clone(), s.1.clone(), s.2.clone(), None))
		.collect();
	let removed = store.remove_graph(g.as_ref());
	cx.eval();
	match removed {
		Some(graph) => {
			ensure!(
				g.is_none() || !expected.is_empty(),
				"remove_graph({g:?}) returned a graph although no statement was in it"
			);
			let listed: Vec<_> = drain(graph.iter().map(tr), model.len() + 4);
			ensure!(
				listed == expected.iter().map(st_ref).collect::<Vec<_>>(),
				"remove_graph({g:?}) returned {listed:?}, expected {expected:?}"
			);
			ensure!(
				graph.len() == expected.len(),
				"remove_graph({g:?}) returned a graph of length {} with {} triples",
				graph.len(),
				expected.len()
			);
			for t in &expected {
				ensure!(
					graph.contains(t_ref(t)),
					"the graph returned by remove_graph({g:?}) misses {t:?}"
				);
			}
			cx.evals(expected.len());
			cx.distinct(&("rg", g.is_some(), expected.len(), model.len()));
		}
		None => ensure!(
			g.is_some() && expected.is_empty(),
			"remove_graph({g:?}) returned nothing although {} statements were in it",
			expected.len()
		),
	}
	model.retain(|s| s.3 != g);
	Ok(())
}

/// Extracts the statements matching a pattern, possibly stopping midway.
pub fn extract_step<E: Elem>(
	cx: &mut Cx,
	store: &mut IndexedBTreeDataset<E>,
	model: &mut Model<E>,
	pat: Pat<&E>,
) -> Res {
	let matching = model
		.iter()
		.filter(|s| pat.accepts_with(st_ref(s), |a, b| *a == b))
		.count();
	let limit = match cx.rng.below(4) {
		0 if matching > 0 => cx.rng.below(matching),
		_ => usize::MAX,
	};
	cx.log(|| format!("extract_pattern_matching({pat:?}), stopping after {limit} items"));
	cx.count("extract_pattern_matching");
	let mut got: Vec<St<E>> = Vec::new();
	let mut passed_over = 0;
	{
		let mut it = store.extract_pattern_matching(pat.build());
		let first = if limit == usize::MAX && cx.rng.chance(1, 2) { cx.rng.below(matching + 1) } else { limit };
		while got.len() < first {
			match it.next() {
				Some(q) => {
					got.push(st_of(q));
					ensure!(
						got.len() <= model.len(),
						"extraction of {pat:?} yielded more statements than stored"
					);
				}
				None => break,
			}
		}
		let (lo, hi) = it.size_hint();
		let left = matching - got.len().min(matching);
		ensure!(
			lo <= left && hi.is_none_or(|hi| hi >= left),
			"extraction of {pat:?} announces between {lo} and {hi:?} statements when {left} are left"
		);
		if first < limit {
			// The rest through another method.
			let k = cx.rng.below(left + 2);
			let way = cx.rng.below(6);
			cx.log(|| format!("the rest after {first} items, way {way}, {k}"));
			match way {
				0 => it.for_each(|q| got.push(st_of(q))),
				1 => got.extend(it.map(st_of)),
				2 => got = it.fold(got, |mut v, q| {
					v.push(st_of(q));
					v
				}),
				// Those passed over are extracted too.
				3 => {
					if let Some(q) = it.nth(k) {
						got.push(st_of(q))
					}
					passed_over = k.min(left);
					got.extend(it.map(st_of))
				}
				4 => passed_over = it.count(),
				_ => {
					let last = it.last();
					passed_over = left.saturating_sub(1);
					got.extend(last.map(st_of))
				}
			}
		} else if limit == usize::MAX {
			ensure!(
				it.next().is_none(),
				"extraction of {pat:?} yields again after its end"
			);
		}
	}
	cx.eval();
	let mut yielded = BTreeSet::new();
	for s in got {
		ensure!(
			model.contains(&s),
			"extraction of {pat:?} yielded {s:?}, not a stored statement"
		);
		ensure!(
			pat.accepts_with(st_ref(&s), |a, b| *a == b),
			"extraction of {pat:?} yielded {s:?}, not matching"
		);
		ensure!(
			yielded.insert(s.clone()),
			"extraction of {pat:?} yielded {s:?} twice"
		);
	}
	let expected = matching.min(limit);
	ensure!(
		yielded.len() + passed_over == expected,
		"extraction of {pat:?} yielded {} statements and passed over {passed_over}, expected {expected}",
		yielded.len()
	);
	if matching > 0 {
		cx.distinct(&(
			"extract",
			pat.as_ref().map(|_| ()),
			model.len(),
			yielded.len(),
			limit == usize::MAX,
		));
	}
	if limit == usize::MAX {
		model.retain(|s| !pat.accepts_with(st_ref(s), |a, b| *a == b));
	} else {
		model.retain(|s| !yielded.contains(s));
	}
	Ok(())
}

/// Shape of a history.
#[derive(Clone, Copy, Debug)]
pub struct Profile {
	pub universe: usize,
	pub steps: usize,
	/// An audit takes place every `1/audit_den` step on average.
	pub audit_den: usize,
}

pub fn random_profile(cx: &mut Cx) -> Profile {
	if cx.tiny {
		return Profile {
			universe: cx.rng.range(2, 4),
			steps: 30,
			audit_den: 6,
		};
	}
	match cx.rng.below(20) {
		0 => Profile {
			universe: 1,
			steps: 60,
			audit_den: 1,
		},
		1..=3 => Profile {
			universe: 2,
			steps: 80,
			audit_den: 1,
		},
		4..=8 => Profile {
			universe: 3,
			steps: 120,
			audit_den: 2,
		},
		9..=13 => Profile {
			universe: cx.rng.range(4, 6),
			steps: 160,
			audit_den: 4,
		},
		14..=17 => Profile {
			universe: cx.rng.range(7, 20),
			steps: 300,
			audit_den: 15,
		},
		_ => Profile {
			universe: cx.rng.range(20, 60),
			steps: 1200,
			audit_den: 120,
		},
	}
}

pub type Audit<E, S> = fn(&mut Cx, &S, &Model<E>, &[E]) -> Res;

/// Runs a random history against the model and audits it along the way.
pub fn run_history<E: Elem, S: Special<E>>(
	cx: &mut Cx,
	profile: Profile,
	audit: Audit<E, S>,
) -> Res {
	let u: Vec<E> = universe(&mut cx.rng, profile.universe + 1);
	// The last resource is rarely used: mostly unknown to the container.
	let stranger = u[profile.universe].clone();
	let known = &u[..profile.universe];
	cx.log(|| {
		format!(
			"{}<{}>, universe {known:?}, stranger {stranger:?}",
			S::NAME,
			E::NAME
		)
	});
	let mut store = if cx.rng.chance(1, 2) {
		S::make()
	} else {
		S::default()
	};
	let mut model: Model<E> = BTreeSet::new();
	let mut shadow: Option<(S, Model<E>)> = None;
	// Current bias: how many inserts out of 10 operations.
	let mut bias = 7;
	audit(cx, &store, &model, &u)?;
	for _ in 0..profile.steps {
		if cx.rng.chance(1, 25) {
			bias = *cx.rng.pick(&[1, 3, 5, 7, 9]);
		}
		step(
			cx,
			&mut store,
			&mut model,
			&mut shadow,
			known,
			&stranger,
			bias,
		)?;
		if cx.rng.chance(1, profile.audit_den) {
			audit(cx, &store, &model, &u)?;
		}
		if cx.rng.chance(1, 20) {
			if let Some((s, m)) = shadow.take() {
				cx.log(|| "check the other clone".to_owned());
				audit(cx, &s, &m, &u)?;
			}
		}
	}
	audit(cx, &store, &model, &u)?;
	// Empty it statement by statement.
	if cx.rng.chance(1, 3) {
		let mut all: Vec<_> = model.iter().cloned().collect();
		cx.rng.shuffle(&mut all);
		let keep = cx.rng.below(3);
		while all.len() > keep {
			let s = all.pop().unwrap();
			cx.log(|| format!("remove({s:?})"));
			ensure!(store.rem(&s), "remove({s:?}) reported false");
			cx.eval();
			model.remove(&s);
			if all.len() < 6 || cx.rng.chance(1, profile.audit_den) {
				audit(cx, &store, &model, &u)?;
			}
		}
	}
	cx.count_n("operations", profile.steps as u64);
	cx.sample(|| {
		format!(
			"{}<{}> universe {} steps {} final size {}",
			S::NAME,
			E::NAME,
			profile.universe,
			profile.steps,
			model.len()
		)
	});
	Ok(())
}

fn step<E: Elem, S: Special<E>>(
	cx: &mut Cx,
	store: &mut S,
	model: &mut Model<E>,
	shadow: &mut Option<(S, Model<E>)>,
	known: &[E],
	stranger: &E,
	bias: usize,
) -> Res {
	cx.eval();
	match cx.rng.below(60) {
		0 => {
			// Bulk extension, with duplicates.
			let k = cx.rng.below(8);
			let v: Vec<_> = (0..k)
				.map(|_| statement(&mut cx.rng, known, S::GRAPHS))
				.collect();
			cx.log(|| format!("extend({v:?})"));
			cx.count("extend");
			model.extend(v.iter().cloned());
			store.ext(v);
		}
		1 => {
			// Clone; continue with one of the two, keep the other.
			cx.log(|| "clone".to_owned());
			cx.count("clone");
			let c = store.clone();
			if cx.rng.chance(1, 2) {
				*shadow = Some((c, model.clone()));
			} else {
				*shadow = Some((std::mem::replace(store, c), model.clone()));
			}
		}
		2 => {
			cx.log(|| "into_iter, then collect".to_owned());
			cx.count("rebuild");
			let cap = model.len() + 4;
			let mut v = std::mem::take(store).into_list(cap);
			ensure!(
				v.iter().eq(model.iter()),
				"by-value iteration yields {v:?}, expected {model:?}"
			);
			cx.rng.shuffle(&mut v);
			*store = S::collect(v);
		}
		3 => {
			cx.log(|| "through the other kind of container".to_owned());
			cx.count("convert");
			*store = std::mem::take(store).through_other_kind(&mut cx.rng);
		}
		4 => store.special(cx, model, known)?,
		5 => {
			// A statement using an unknown resource in one position.
			let mut s = statement(&mut cx.rng, known, S::GRAPHS);
			match cx.rng.below(4) {
				0 => s.0 = stranger.clone(),
				1 => s.1 = stranger.clone(),
				2 => s.2 = stranger.clone(),
				_ if S::GRAPHS => s.3 = Some(stranger.clone()),
				_ => s.0 = stranger.clone(),
			}
			if cx.rng.chance(1, 2) {
				do_remove(cx, store, model, &s)?;
			} else {
				do_insert(cx, store, model, s.clone())?;
				if cx.rng.chance(3, 4) {
					do_remove(cx, store, model, &s)?;
				}
			}
		}
		6 => {
			// Remove everything about one resource.
			let r = cx.rng.pick(known).clone();
			if cx.rng.chance(1, 3) {
				let mut all: Vec<_> = model
					.iter()
					.filter(|s| s.0 == r || s.1 == r || s.2 == r || s.3.as_ref() == Some(&r))
					.cloned()
					.collect();
				cx.rng.shuffle(&mut all);
				for s in all {
					do_remove(cx, store, model, &s)?;
				}
			}
		}
		7 => {
			// Through the mutation traits.
			let s = statement(&mut cx.rng, known, S::GRAPHS);
			if cx.rng.below(10) < bias {
				cx.log(|| format!("trait insert({s:?})"));
				store.trait_ins(s.clone());
				model.insert(s);
			} else {
				let s = existing(cx, model).unwrap_or(s);
				cx.log(|| format!("trait remove({s:?})"));
				store.trait_rem(&s);
				model.remove(&s);
			}
			cx.count("trait mutation");
		}
		8 => {
			// Re-insertion right after removal.
			if let Some(s) = existing(cx, model) {
				do_remove(cx, store, model, &s)?;
				do_insert(cx, store, model, s)?;
			}
		}
		_ => {
			if cx.rng.below(10) < bias {
				let s = match cx.rng.below(8) {
					0 => existing(cx, model),
					1 => existing(cx, model).map(|mut s| {
						// A near duplicate of a stored statement.
						let r = cx.rng.pick(known).clone();
						match cx.rng.below(4) {
							0 => s.0 = r,
							1 => s.1 = r,
							2 => s.2 = r,
							_ if S::GRAPHS => s.3 = s.3.is_none().then_some(r),
							_ => s.2 = r,
						}
						s
					}),
					_ => None,
				};
				let s = s.unwrap_or_else(|| statement(&mut cx.rng, known, S::GRAPHS));
				do_insert(cx, store, model, s)?;
			} else {
				let s = match existing(cx, model) {
					Some(s) if cx.rng.chance(4, 5) => s,
					_ => statement(&mut cx.rng, known, S::GRAPHS),
				};
				do_remove(cx, store, model, &s)?;
			}
		}
	}
	ensure!(
		store.size() == model.len(),
		"length is {}, expected {}",
		store.size(),
		model.len()
	);
	Ok(())
}

fn existing<E: Elem>(cx: &mut Cx, model: &Model<E>) -> Option<St<E>> {
	if model.is_empty() {
		None
	} else {
		let n = cx.rng.below(model.len());
		model.iter().nth(n).cloned()
	}
}

fn do_insert<E: Elem, S: Store<E>>(
	cx: &mut Cx,
	store: &mut S,
	model: &mut Model<E>,
	s: St<E>,
) -> Res {
	cx.log(|| format!("insert({s:?})"));
	cx.count("insert");
	let got = store.ins(s.clone());
	let expected = model.insert(s.clone());
	ensure!(
		got == expected,
		"insert({s:?}) reported {got}, expected {expected}"
	);
	Ok(())
}

fn do_remove<E: Elem, S: Store<E>>(
	cx: &mut Cx,
	store: &mut S,
	model: &mut Model<E>,
	s: &St<E>,
) -> Res {
	cx.log(|| format!("remove({s:?})"));
	cx.count("remove");
	let got = store.rem(s);
	let expected = model.remove(s);
	ensure!(
		got == expected,
		"remove({s:?}) reported {got}, expected {expected}"
	);
	Ok(())
}

/// Bounded exhaustive histories: all sequences of inserts and removes of a
/// fixed small set of statements, numbered by `index`.
pub fn run_enumerated<E: Elem, S: Special<E>>(
	cx: &mut Cx,
	length: usize,
	audit: Audit<E, S>,
) -> Res {
	let u: Vec<E> = (0..3).map(E::nth).collect();
	let a = u[0].clone();
	let b = u[1].clone();
	let g = |x: &E| S::GRAPHS.then(|| x.clone());
	let pool: Vec<St<E>> = vec![
		(a.clone(), a.clone(), a.clone(), None),
		(a.clone(), a.clone(), b.clone(), g(&a)),
		(b.clone(), a.clone(), a.clone(), g(&b)),
		(a.clone(), b.clone(), a.clone(), g(&a)),
	];
	let mut n = cx.index as usize;
	let mut store = S::make();
	let mut model = Model::new();
	for _ in 0..length {
		let op = n % 8;
		n /= 8;
		let s = pool[op / 2].clone();
		if op % 2 == 0 {
			do_insert(cx, &mut store, &mut model, s)?;
		} else {
			do_remove(cx, &mut store, &mut model, &s)?;
		}
		audit(cx, &store, &model, &u)?;
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// Audits.

/// Content: membership, size and iteration.
pub fn audit_content<E: Elem, S: Store<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	let cap = model.len() + 4;
	let expected: Vec<QRef<E>> = model.iter().map(st_ref).collect();
	ensure!(
		store.size() == model.len(),
		"length is {}, expected {}",
		store.size(),
		model.len()
	);
	ensure!(
		store.empty() == model.is_empty(),
		"is_empty is {}, expected {}",
		store.empty(),
		model.is_empty()
	);
	ensure!(
		store.count_trait() == model.len(),
		"statement count through the traits is {}, expected {}",
		store.count_trait(),
		model.len()
	);
	let l = store.list(cap);
	ensure!(l == expected, "iter() yields {l:?}, expected {expected:?}");
	let l = store.list_ref(cap);
	ensure!(
		l == expected,
		"iteration by reference yields {l:?}, expected {expected:?}"
	);
	let l = store.list_trait(cap);
	ensure!(
		l == expected,
		"traversal through the traits yields {l:?}, expected {expected:?}"
	);
	let k = cx.rng.below(model.len() + 2);
	let (a, b) = store.list_split(k, cap);
	ensure!(
		a == expected && b == expected,
		"an iterator cloned after {k} items yields {a:?} / {b:?}, expected {expected:?}"
	);
	if cx.rng.chance(1, 4) {
		let l = store.clone().into_list(cap);
		ensure!(
			l.iter().map(st_ref).eq(expected.iter().copied()),
			"by-value iteration yields {l:?}, expected {expected:?}"
		);
	}
	for s in model.iter().take(40) {
		ensure!(store.has(s), "contains({s:?}) is false for a stored statement");
	}
	for _ in 0..12 {
		let s = statement(&mut cx.rng, u, S::GRAPHS);
		let expected = model.contains(&s);
		ensure!(
			store.has(&s) == expected,
			"contains({s:?}) is {}",
			!expected
		);
	}
	cx.evals(7 + model.len().min(40) + 12);
	if !model.is_empty() {
		cx.distinct(&(S::NAME, E::NAME, sig(model)));
	}
	Ok(())
}

pub fn model_resources<E: Elem>(model: &Model<E>) -> BTreeSet<&E> {
	let mut r = BTreeSet::new();
	for s in model {
		r.insert(&s.0);
		r.insert(&s.1);
		r.insert(&s.2);
		if let Some(g) = &s.3 {
			r.insert(g);
		}
	}
	r
}

/// Resource listing.
pub fn audit_resources<E: Elem, S: Store<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	let expected = model_resources(model);
	let sorted: Vec<&E> = expected.iter().copied().collect();
	let cap = sorted.len() + 4;
	let l = store.res(cap);
	ensure!(
		l == sorted,
		"resources() yields {l:?}, expected {sorted:?} for {model:?}"
	);
	let l = store.res_trait(cap);
	ensure!(
		l == sorted,
		"resources through the traits yields {l:?}, expected {sorted:?}"
	);
	ensure!(
		store.res_count() == sorted.len(),
		"resource count is {}, expected {}",
		store.res_count(),
		sorted.len()
	);
	for r in u {
		let e = expected.contains(r);
		ensure!(
			store.has_res(r) == e,
			"contains_resource({r:?}) is {}, content {model:?}",
			!e
		);
	}
	cx.evals(3 + u.len());
	if !model.is_empty() {
		cx.distinct(&(S::NAME, E::NAME, sig(model)));
	}
	Ok(())
}

pub fn model_role<E: Elem>(model: &Model<E>, role: Role) -> BTreeSet<&E> {
	model
		.iter()
		.filter_map(|s| match role {
			Role::Subject => Some(&s.0),
			Role::Predicate => Some(&s.1),
			Role::Object => Some(&s.2),
			Role::Graph => s.3.as_ref(),
		})
		.collect()
}

/// Role listings. Only the set of listed resources is specified, not the order.
pub fn audit_roles<E: Elem, S: Indexed<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	_u: &[E],
) -> Res {
	for role in ROLES {
		let expected = model_role(model, role);
		let cap = expected.len() + 4;
		for (what, l) in store.roles(role, cap) {
			let n = l.len();
			let set: BTreeSet<&E> = l.iter().copied().collect();
			ensure!(
				n == set.len(),
				"{what} lists a resource twice: {l:?}, content {model:?}"
			);
			ensure!(
				set == expected,
				"{what} yields {l:?}, expected {expected:?}, content {model:?}"
			);
			cx.eval();
		}
		for (what, n) in store.role_counts(role) {
			ensure!(
				n == expected.len(),
				"{what} is {n}, expected {}, content {model:?}",
				expected.len()
			);
			cx.eval();
		}
	}
	if !model.is_empty() {
		cx.distinct(&(S::NAME, E::NAME, sig(model)));
	}
	Ok(())
}

/// One pattern against the model.
pub fn check_pattern<E: Elem, S: Indexed<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	pat: Pat<&E>,
) -> Res {
	let expected: Vec<QRef<E>> = model
		.iter()
		.map(st_ref)
		.filter(|s| pat.accepts_with(*s, |a, b| *a == b))
		.collect();
	for (what, mut l) in store.matching(pat, model.len() + 4) {
		cx.eval();
		l.sort();
		ensure!(
			l == expected,
			"{what}({pat:?}) yields {l:?}, expected {expected:?}, content {model:?}"
		);
	}
	if !expected.is_empty() {
		cx.count("non-empty answers");
		cx.distinct(&(
			S::NAME,
			pat.map(|_| ()),
			expected.len(),
			sig(model) % 4096,
		));
	} else {
		cx.count("empty answers");
	}
	Ok(())
}

/// Shapes instantiated with resources of the universe.
pub fn instantiate<'u, E: Elem>(rng: &mut Rng, shape: Pat<()>, u: &'u [E]) -> Pat<&'u E> {
	shape.map(|_| rng.pick(u))
}

/// Shape instantiated after a stored statement, so that it has an answer.
pub fn instantiate_on<'m, E: Elem>(
	rng: &mut Rng,
	shape: Pat<()>,
	s: &'m St<E>,
	u: &'m [E],
) -> Pat<&'m E> {
	Pat {
		s: shape.s.map_c(|_| &s.0),
		p: shape.p.map_c(|_| &s.1),
		o: shape.o.map_c(|_| &s.2),
		g: match shape.g {
			G::Any => G::Any,
			G::S => G::S,
			G::P => G::P,
			G::O => G::O,
			G::Given(None) => G::Given(None),
			G::Given(Some(())) => G::Given(Some(s.3.as_ref().unwrap_or_else(|| rng.pick(u)))),
		},
	}
}

pub fn audit_patterns<E: Elem, S: Indexed<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	let all = shapes();
	if u.len() <= 3 && !cx.tiny && cx.rng.chance(1, 3) {
		// Every pattern over the universe.
		for shape in &all {
			let n = [
				matches!(shape.s, C::Given(_)),
				matches!(shape.p, C::Given(_)),
				matches!(shape.o, C::Given(_)),
				matches!(shape.g, G::Given(Some(_))),
			]
			.into_iter()
			.filter(|b| *b)
			.count();
			for mut code in 0..u.len().pow(n as u32) {
				let pat = shape.map(|_| {
					let r = &u[code % u.len()];
					code /= u.len();
					r
				});
				check_pattern(cx, store, model, pat)?;
			}
		}
		cx.count("contents queried with every pattern");
		return Ok(());
	}
	let few = cx.tiny || !cx.rng.chance(1, 3);
	for shape in &all {
		if few && !cx.rng.chance(1, if cx.tiny { 8 } else { 3 }) {
			continue;
		}
		let pat = instantiate(&mut cx.rng, *shape, u);
		check_pattern(cx, store, model, pat)?;
		if let Some(s) = existing(cx, model) {
			let pat = instantiate_on(&mut cx.rng, *shape, &s, u);
			check_pattern(cx, store, model, pat)?;
		}
	}
	Ok(())
}

/// Everything an indexed container can be asked.
pub fn audit_indexed<E: Elem, S: Indexed<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	audit_content(cx, store, model, u)?;
	audit_resources(cx, store, model, u)?;
	audit_roles(cx, store, model, u)?;
	audit_patterns(cx, store, model, u)
}

/// Everything any container can be asked.
pub fn audit_plain<E: Elem, S: Store<E>>(
	cx: &mut Cx,
	store: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	audit_content(cx, store, model, u)?;
	audit_resources(cx, store, model, u)
}
