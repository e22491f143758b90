//! C01–C07, C21: containers.
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

use rdf_types::dataset::*;
use rdf_types::pattern::quad::canonical::*;
use rdf_types::pattern::CanonicalQuadPattern;
use rdf_types::LocalTerm;

use crate::common::*;
use crate::elem::*;
use crate::ensure;
use crate::hist::*;
use crate::pat::*;
use crate::store::*;

/// Runs `$f::<Elem, Container>` for a random element type among the four.
macro_rules! any_elem {
	($cx:ident, $ty:ident, |$E:ident, $S:ident| $body:expr) => {
		match if $cx.tiny { ($cx.rng.below(10) == 0) as usize } else { $cx.rng.below(5) } {
			0 => {
				type $E = u32;
				type $S = $ty<u32>;
				$body
			}
			1 => {
				type $E = LocalTerm;
				type $S = $ty<LocalTerm>;
				$body
			}
			2 => {
				type $E = LocalTerm;
				type $S = $ty<LocalTerm>;
				$body
			}
			3 => {
				type $E = String;
				type $S = $ty<String>;
				$body
			}
			_ => {
				type $E = Rev;
				type $S = $ty<Rev>;
				$body
			}
		}
	};
}

macro_rules! any_store {
	($cx:ident, |$E:ident, $S:ident| $body:expr) => {
		match $cx.rng.below(4) {
			0 => any_elem!($cx, BTreeGraph, |$E, $S| $body),
			1 => any_elem!($cx, BTreeDataset, |$E, $S| $body),
			2 => any_elem!($cx, IndexedBTreeGraph, |$E, $S| $body),
			_ => any_elem!($cx, IndexedBTreeDataset, |$E, $S| $body),
		}
	};
}

macro_rules! any_indexed {
	($cx:ident, |$E:ident, $S:ident| $body:expr) => {
		match $cx.rng.below(5) {
			0 | 1 => any_elem!($cx, IndexedBTreeGraph, |$E, $S| $body),
			_ => any_elem!($cx, IndexedBTreeDataset, |$E, $S| $body),
		}
	};
}

pub fn c01_history(cx: &mut Cx) -> Res {
	let p = random_profile(cx);
	any_store!(cx, |E, S| run_history::<E, S>(cx, p, audit_content))
}

/// Every sequence of five inserts/removes of four overlapping statements.
pub fn c01_enumerated(cx: &mut Cx) -> Res {
	run_enumerated::<u32, BTreeGraph<u32>>(cx, 5, audit_content)?;
	run_enumerated::<u32, BTreeDataset<u32>>(cx, 5, audit_content)?;
	run_enumerated::<u32, IndexedBTreeGraph<u32>>(cx, 5, audit_content)?;
	run_enumerated::<u32, IndexedBTreeDataset<u32>>(cx, 5, audit_content)
}

fn big<E: Elem, S: Special<E>>(cx: &mut Cx, audit: Audit<E, S>) -> Res {
	let n = *cx.rng.pick(&[600usize, 1500, 4000]);
	let dense = cx.rng.chance(1, 2);
	let m = if dense { 25 } else { n };
	let u: Vec<E> = universe(&mut cx.rng, m);
	cx.log(|| format!("{}<{}>, about {n} statements over {m}", S::NAME, E::NAME));
	let mut model = Model::new();
	let mut store = S::make();
	let sorted = cx.rng.chance(1, 4);
	let mut v: Vec<_> = (0..n)
		.map(|_| statement(&mut cx.rng, &u, S::GRAPHS))
		.collect();
	if sorted {
		v.sort();
		if cx.rng.chance(1, 2) {
			v.reverse()
		}
	}
	for s in v {
		let e = model.insert(s.clone());
		let g = store.ins(s.clone());
		ensure!(g == e, "insert({s:?}) reported {g}, expected {e}");
		cx.eval();
	}
	audit(cx, &store, &model, &u)?;
	for _ in 0..3 {
		let mut all: Vec<_> = model.iter().cloned().collect();
		cx.rng.shuffle(&mut all);
		let k = all.len() * cx.rng.range(20, 95) / 100;
		for s in all.into_iter().take(k) {
			model.remove(&s);
			ensure!(store.rem(&s), "remove({s:?}) reported false");
			ensure!(
				!store.rem(&s),
				"remove({s:?}) reported true a second time"
			);
			cx.evals(2);
		}
		audit(cx, &store, &model, &u)?;
		for _ in 0..k / 2 {
			let s = statement(&mut cx.rng, &u, S::GRAPHS);
			let e = model.insert(s.clone());
			let g = store.ins(s.clone());
			ensure!(g == e, "insert({s:?}) reported {g}, expected {e}");
			cx.eval();
		}
		audit(cx, &store, &model, &u)?;
	}
	cx.count("large contents");
	Ok(())
}

/// More statements sharing a resource than 16 bits can count.
fn huge<E: Elem, S: Special<E>>(cx: &mut Cx, audit: Audit<E, S>) -> Res {
	let n = 65_000 + cx.rng.below(3000);
	let m = 320;
	let u: Vec<E> = universe(&mut cx.rng, m + 1);
	let (hub, others) = u.split_first().unwrap();
	let place = cx.rng.below(if S::GRAPHS { 4 } else { 3 });
	let also = cx.rng.below(3);
	cx.log(|| format!("{}<{}>, {n} statements with {hub:?} in position {place}", S::NAME, E::NAME));
	let few = [hub.clone(), others[0].clone(), others[m - 1].clone()];
	let mut v: Vec<St<E>> = Vec::with_capacity(n);
	for k in 0..n {
		let (a, b) = (others[k % m].clone(), others[k / m].clone());
		let c = if also == 0 { hub.clone() } else { others[k % (also + 1)].clone() };
		v.push(match place {
			0 => (hub.clone(), a, b, S::GRAPHS.then_some(c)),
			1 => (a, hub.clone(), b, S::GRAPHS.then_some(c)),
			2 => (a, b, hub.clone(), S::GRAPHS.then_some(c)),
			_ => (a, b, c, Some(hub.clone())),
		})
	}
	cx.rng.shuffle(&mut v);
	let mut model = Model::new();
	let mut store = S::make();
	for s in &v {
		model.insert(s.clone());
		ensure!(store.ins(s.clone()), "insert({s:?}) reported false");
		cx.eval();
	}
	audit(cx, &store, &model, &few)?;
	if cx.rng.chance(1, 2) {
		let copy = store.clone();
		audit(cx, &copy, &model, &few).map_err(|e| format!("copy: {e}"))?;
		// The original goes away.
		store = copy;
	}
	cx.rng.shuffle(&mut v);
	let keep = *cx.rng.pick(&[1usize, 2, n - 65_536.min(n - 1), 500]);
	for s in v.drain(keep..) {
		model.remove(&s);
		ensure!(store.rem(&s), "remove({s:?}) reported false");
		cx.eval();
	}
	audit(cx, &store, &model, &few)?;
	for s in v {
		model.remove(&s);
		ensure!(store.rem(&s), "remove({s:?}) reported false");
		ensure!(!store.has(&s), "{s:?} is still there after its removal");
		cx.evals(2);
		if model.len() < 3 {
			audit(cx, &store, &model, &few)?;
		}
	}
	cx.count("huge contents");
	Ok(())
}

macro_rules! huge {
	($($name:ident: $audit:ident, $($ty:ident)*;)*) => {
		$(pub fn $name(cx: &mut Cx) -> Res {
			let cases: &[fn(&mut Cx) -> Res] = &[$(|cx| huge::<u32, $ty<u32>>(cx, $audit)),*];
			cases[cx.index as usize % cases.len()](cx)
		})*
	};
}

huge! {
	c01_huge: audit_content, BTreeGraph BTreeDataset IndexedBTreeGraph IndexedBTreeDataset;
	c02_huge: audit_resources, BTreeGraph BTreeDataset IndexedBTreeGraph IndexedBTreeDataset;
	c03_huge: audit_roles, IndexedBTreeGraph IndexedBTreeDataset;
	c04_huge: audit_patterns, IndexedBTreeGraph IndexedBTreeDataset;
}

pub fn c01_big(cx: &mut Cx) -> Res {
	any_store!(cx, |E, S| big::<E, S>(cx, audit_content))
}

pub fn c02_history(cx: &mut Cx) -> Res {
	let p = random_profile(cx);
	any_store!(cx, |E, S| run_history::<E, S>(cx, p, audit_resources))
}

pub fn c02_enumerated(cx: &mut Cx) -> Res {
	run_enumerated::<u32, BTreeGraph<u32>>(cx, 5, audit_resources)?;
	run_enumerated::<u32, BTreeDataset<u32>>(cx, 5, audit_resources)?;
	run_enumerated::<u32, IndexedBTreeGraph<u32>>(cx, 5, audit_resources)?;
	run_enumerated::<u32, IndexedBTreeDataset<u32>>(cx, 5, audit_resources)
}

pub fn c02_big(cx: &mut Cx) -> Res {
	any_store!(cx, |E, S| big::<E, S>(cx, audit_resources))
}

pub fn c03_history(cx: &mut Cx) -> Res {
	let p = random_profile(cx);
	any_indexed!(cx, |E, S| run_history::<E, S>(cx, p, audit_roles))
}

pub fn c03_enumerated(cx: &mut Cx) -> Res {
	run_enumerated::<u32, IndexedBTreeGraph<u32>>(cx, 5, audit_roles)?;
	run_enumerated::<u32, IndexedBTreeDataset<u32>>(cx, 5, audit_roles)
}

pub fn c03_big(cx: &mut Cx) -> Res {
	any_indexed!(cx, |E, S| big::<E, S>(cx, audit_roles))
}

pub fn c04_history(cx: &mut Cx) -> Res {
	let mut p = random_profile(cx);
	p.audit_den *= 3;
	any_indexed!(cx, |E, S| run_history::<E, S>(cx, p, audit_patterns))
}

pub fn c04_big(cx: &mut Cx) -> Res {
	any_indexed!(cx, |E, S| big::<E, S>(cx, audit_patterns))
}

// ---------------------------------------------------------------------------
// C05

fn audit_multi<E: Elem>(
	cx: &mut Cx,
	store: &IndexedBTreeDataset<E>,
	model: &Model<E>,
	u: &[E],
) -> Res {
	let den = if cx.tiny { 8 } else { 2 };
	audit_multi_of(
		cx,
		store,
		model,
		|cx| {
			let k = match cx.rng.below(6) {
				0 => 0,
				1 => 1,
				2 | 3 => 2,
				4 => 3,
				_ if cx.rng.chance(1, 4) => cx.rng.range(12, 80),
				_ => cx.rng.range(3, 12),
			};
			let mut v: Vec<&E> = (0..k).map(|_| cx.rng.pick(u)).collect();
			if k > 0 && cx.rng.chance(1, 4) {
				v.push(v[0]);
			}
			v
		},
		den,
	)
}

/// Patterns of about one shape in `den`, whose lists are made by `list`.
fn audit_multi_of<'u, E: Elem>(
	cx: &mut Cx,
	store: &IndexedBTreeDataset<E>,
	model: &Model<E>,
	mut list: impl FnMut(&mut Cx) -> Vec<&'u E>,
	den: usize,
) -> Res {
	let all = shapes();
	for shape in &all {
		if !cx.rng.chance(1, den) {
			continue;
		}
		let pat: Pat<Vec<&E>> = shape.map(|_| {
			let v = list(cx);
			if v.len() > 16 {
				cx.count("lists of more than 16 resources");
			}
			v
		});
		let expected: Vec<QRef<E>> = model
			.iter()
			.map(st_ref)
			.filter(|s| pat.accepts_with(*s, |a, b| a.contains(&b)))
			.collect();
		let cap = model.len() + 4;
		let mut a = listing(|| store.multi_pattern_matching(pat.clone().build()), qr, cap);
		a.sort();
		ensure!(
			a == expected,
			"multi_pattern_matching({pat:?}) yields {a:?}, expected {expected:?}, content {model:?}"
		);
		// Through the trait, the lists being any iterable of references.
		let sets: Pat<BTreeSet<&E>> = pat.clone().map(|v| v.into_iter().collect());
		let mut b = listing(|| store.quad_multi_pattern_matching(sets.clone().build()), qr, cap);
		b.sort();
		ensure!(
			b == expected,
			"quad_multi_pattern_matching({pat:?}) yields {b:?}, expected {expected:?}, content {model:?}"
		);
		cx.evals(2);
		if !expected.is_empty() {
			cx.count("non-empty answers");
			cx.distinct(&(*shape, expected.len(), sig(model) % 4096));
		} else {
			cx.count("empty answers");
		}
	}
	Ok(())
}

pub fn c05_history(cx: &mut Cx) -> Res {
	let mut p = random_profile(cx);
	p.audit_den *= 2;
	any_elem!(cx, IndexedBTreeDataset, |E, S| run_history::<E, S>(
		cx,
		p,
		audit_multi
	))
}

/// Lists of hundreds of resources, over thousands of statements.
fn audit_multi_huge(
	cx: &mut Cx,
	store: &IndexedBTreeDataset<u32>,
	model: &Model<u32>,
	few: &[u32],
) -> Res {
	let used: Vec<u32> = model
		.iter()
		.flat_map(|s| [Some(s.0), Some(s.1), Some(s.2), s.3].into_iter().flatten())
		.collect();
	if used.is_empty() {
		return audit_multi(cx, store, model, few);
	}
	for k in [1usize, 40, 300] {
		let list: Vec<u32> = (0..k).map(|_| *cx.rng.pick(&used)).collect();
		audit_multi_of(cx, store, model, |cx| {
			let mut v: Vec<&u32> = match cx.rng.below(3) {
				0 => few.iter().collect(),
				_ => list.iter().collect(),
			};
			cx.rng.shuffle(&mut v);
			v
		}, 40)?;
	}
	Ok(())
}

pub fn c05_huge(cx: &mut Cx) -> Res {
	huge::<u32, IndexedBTreeDataset<u32>>(cx, audit_multi_huge)
}

pub fn c05_big(cx: &mut Cx) -> Res {
	any_elem!(cx, IndexedBTreeDataset, |E, S| big::<E, S>(cx, audit_multi))
}

// ---------------------------------------------------------------------------
// C06

pub(crate) fn extraction<E: Elem>(cx: &mut Cx) -> Res {
	let n = if cx.tiny {
		3
	} else {
		*cx.rng.pick(&[1usize, 2, 3, 3, 4, 5, 8, 15])
	};
	extraction_of::<E>(cx, n, if cx.tiny { 8 } else { 30 }, if cx.tiny { 2 } else { 12 })
}

/// Rounds of changes followed by extractions.
fn extraction_of<E: Elem>(cx: &mut Cx, n: usize, grow: usize, rounds: usize) -> Res {
	let u: Vec<E> = universe(&mut cx.rng, n);
	let mut model = Model::new();
	let mut store = IndexedBTreeDataset::<E>::new();
	cx.log(|| format!("IndexedBTreeDataset<{}>", E::NAME));
	for _ in 0..rounds {
		// Grow, with some removals to vacate slots.
		for _ in 0..cx.rng.range(1, grow) {
			let s = statement(&mut cx.rng, &u, true);
			if cx.rng.chance(1, 4) {
				cx.log(|| format!("remove({s:?})"));
				let g = store.remove(q_ref(&s));
				ensure!(g == model.remove(&s), "remove({s:?}) reported {g}");
			} else {
				cx.log(|| format!("insert({s:?})"));
				let g = store.insert(q_of(&s));
				ensure!(g == model.insert(s.clone()), "insert({s:?}) reported {g}");
			}
		}
		for _ in 0..cx.rng.range(1, 3) {
			if cx.rng.chance(1, 4) {
				let g = if cx.rng.chance(1, 3) {
					None
				} else {
					Some(cx.rng.pick(&u).clone())
				};
				remove_graph_step(cx, &mut store, &mut model, g)?;
			} else if cx.rng.chance(1, 3) && !model.is_empty() {
				let all = shapes();
				let shape = *cx.rng.pick(&all);
				let k = cx.rng.below(model.len());
				let s = model.iter().nth(k).unwrap().clone();
				let pat = instantiate_on(&mut cx.rng, shape, &s, &u);
				extract_step(cx, &mut store, &mut model, pat)?;
			} else {
				let pat = random_pat(&mut cx.rng, &u);
				extract_step(cx, &mut store, &mut model, pat)?;
			}
			audit_content(cx, &store, &model, &u)?;
			audit_resources(cx, &store, &model, &u)?;
			audit_roles(cx, &store, &model, &u)?;
		}
		if cx.rng.chance(1, 3) {
			audit_patterns(cx, &store, &model, &u)?;
		}
	}
	Ok(())
}

/// Extractions from large contents.
pub fn c06_big(cx: &mut Cx) -> Res {
	let n = *cx.rng.pick(&[10usize, 25, 100]);
	let grow = *cx.rng.pick(&[300usize, 1500]);
	cx.count("large contents");
	if cx.index % 12 == 0 {
		// Few resources or none repeated; thousands of statements.
		let n = *cx.rng.pick(&[30usize, 6000]);
		return extraction_of::<u32>(cx, n, 6000, 2);
	}
	match cx.rng.below(3) {
		0 => extraction_of::<u32>(cx, n, grow, 4),
		1 => extraction_of::<String>(cx, n, grow, 4),
		_ => extraction_of::<LocalTerm>(cx, n, grow, 4),
	}
}

pub fn c06_extraction(cx: &mut Cx) -> Res {
	match cx.rng.below(4) {
		0 | 1 => extraction::<u32>(cx),
		2 => extraction::<LocalTerm>(cx),
		_ => extraction::<Rev>(cx),
	}
}

pub fn c06_history(cx: &mut Cx) -> Res {
	let p = random_profile(cx);
	// Special operations are part of the histories of indexed datasets.
	any_elem!(cx, IndexedBTreeDataset, |E, S| run_history::<E, S>(
		cx,
		Profile {
			audit_den: p.audit_den * 2,
			..p
		},
		audit_indexed
	))
}

// ---------------------------------------------------------------------------
// C07

fn check_indexed<E: Elem, S: Indexed<E> + Special<E>>(
	cx: &mut Cx,
	what: &str,
	mut store: S,
	reference: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	cx.log(|| format!("check the container built {what}"));
	let r = (|| {
		audit_indexed(cx, &store, model, u)?;
		cx.evals(2);
		ensure!(store == *reference, "it differs from plain insertion");
		ensure!(*reference == store, "plain insertion differs from it");
		// Later operations, on a copy and on the container itself.
		let mut m = model.clone();
		after_ops(cx, &mut store, &mut m, u)?;
		audit_indexed(cx, &store, &m, u)
	})();
	cx.count("containers built and used");
	r.map_err(|e| format!("{} built {what}: {e}", S::NAME))
}

fn check_plain<E: Elem, S: Special<E>>(
	cx: &mut Cx,
	what: &str,
	mut store: S,
	reference: &S,
	model: &Model<E>,
	u: &[E],
) -> Res {
	cx.log(|| format!("check the container built {what}"));
	let r = (|| {
		audit_plain(cx, &store, model, u)?;
		cx.evals(2);
		ensure!(store == *reference, "it differs from plain insertion");
		ensure!(*reference == store, "plain insertion differs from it");
		let mut m = model.clone();
		after_ops(cx, &mut store, &mut m, u)?;
		audit_plain(cx, &store, &m, u)
	})();
	cx.count("containers built and used");
	r.map_err(|e| format!("{} built {what}: {e}", S::NAME))
}

fn after_ops<E: Elem, S: Special<E>>(
	cx: &mut Cx,
	store: &mut S,
	m: &mut Model<E>,
	u: &[E],
) -> Res {
	for _ in 0..cx.rng.range(4, 30) {
		let mut s = statement(&mut cx.rng, u, S::GRAPHS);
		if cx.rng.chance(1, 2) {
			if !m.is_empty() && cx.rng.chance(4, 5) {
				let k = cx.rng.below(m.len());
				s = m.iter().nth(k).unwrap().clone();
			}
			cx.log(|| format!("remove({s:?})"));
			let g = store.rem(&s);
			ensure!(g == m.remove(&s), "remove({s:?}) reported {g}");
		} else {
			cx.log(|| format!("insert({s:?})"));
			let g = store.ins(s.clone());
			ensure!(g == m.insert(s.clone()), "insert({s:?}) reported {g}");
		}
		cx.eval();
	}
	if cx.rng.chance(1, 4) {
		store.special(cx, m, u)?;
	}
	Ok(())
}

pub(crate) fn construct<E: Elem>(cx: &mut Cx) -> Res {
	let large = !cx.tiny && cx.rng.chance(1, 80);
	construct_of::<E>(cx, large, false)
}

/// Thousands of statements.
pub fn c07_huge(cx: &mut Cx) -> Res {
	match cx.index % 3 {
		0 => construct_of::<LocalTerm>(cx, true, true),
		1 => construct_of::<String>(cx, true, true),
		_ => construct_of::<u32>(cx, true, true),
	}
}

fn construct_of<E: Elem>(cx: &mut Cx, large: bool, huge: bool) -> Res {
	let n = if cx.tiny {
		3
	} else if huge {
		*cx.rng.pick(&[40usize, 300, 9000])
	} else if large {
		*cx.rng.pick(&[14usize, 60, 200])
	} else {
		*cx.rng.pick(&[1usize, 2, 3, 4, 6, 10, 30])
	};
	let u: Vec<E> = universe(&mut cx.rng, n);
	let most = if cx.tiny { 8 } else { *cx.rng.pick(&[3, 10, 40, 150]) };
	let count = if large {
		cx.count("large contents");
		if huge {
			cx.rng.range(4200, 9000)
		} else {
			cx.rng.range(300, 1500)
		}
	} else {
		cx.rng.below(most + 1)
	};
	let graphs = cx.rng.chance(2, 3);
	// The input, with duplicates.
	let mut input: Vec<St<E>> = (0..count)
		.map(|_| statement(&mut cx.rng, &u, graphs))
		.collect();
	for _ in 0..count / 4 {
		let s = cx.rng.pick(&input).clone();
		input.push(s);
	}
	cx.rng.shuffle(&mut input);
	let model: Model<E> = input.iter().cloned().collect();
	cx.log(|| format!("{} from {input:?}", E::NAME));
	if !model.is_empty() {
		cx.distinct(&sig(&input));
	}
	let shuffled = |cx: &mut Cx| {
		let mut v = input.clone();
		cx.rng.shuffle(&mut v);
		v
	};
	// Resources asked about.
	let u = &u[..n.min(60)];

	if graphs {
		let mut iref = IndexedBTreeDataset::<E>::new();
		let mut pref = BTreeDataset::<E>::new();
		for s in &input {
			iref.insert(q_of(s));
			pref.insert(q_of(s));
		}
		match cx.rng.below(9) {
			0 => {
				let v = shuffled(cx);
				check_indexed(cx, "by collecting", Store::collect(v), &iref, &model, u)
			}
			1 => {
				let mut v = shuffled(cx);
				let k = cx.rng.below(v.len() + 1);
				let tail = v.split_off(k);
				let mut s = IndexedBTreeDataset::<E>::collect(v);
				s.ext(tail);
				check_indexed(cx, "by extending", s, &iref, &model, u)
			}
			2 => {
				let mut s = IndexedBTreeDataset::<E>::default();
				for q in shuffled(cx) {
					s.trait_ins(q)
				}
				check_indexed(cx, "through DatasetMut", s, &iref, &model, u)
			}
			3 => {
				let d = holed_dataset(&mut cx.rng, model.iter().cloned().collect());
				check_indexed(
					cx,
					"by into_indexed after removals",
					d.into_indexed(),
					&iref,
					&model,
					u,
				)
			}
			4 => check_indexed(
				cx,
				"by from_non_indexed",
				IndexedBTreeDataset::from_non_indexed(pref),
				&iref,
				&model,
				u,
			),
			5 => {
				let s: IndexedBTreeDataset<E> = pref.into_iter().collect();
				check_indexed(cx, "from a non-indexed iterator", s, &iref, &model, u)
			}
			6 => {
				let c = iref.clone();
				check_indexed(cx, "by cloning", c, &iref, &model, u)?;
				audit_indexed(cx, &iref, &model, u)
					.map_err(|e| format!("original, after its clone changed: {e}"))
			}
			7 => {
				let s: BTreeDataset<E> = iref.into_iter().collect();
				check_plain(cx, "from an indexed iterator", s, &pref, &model, u)
			}
			_ => {
				let v = shuffled(cx);
				check_plain(cx, "by collecting", Store::collect(v), &pref, &model, u)?;
				let c = pref.clone();
				check_plain(cx, "by cloning", c, &pref, &model, u)?;
				audit_plain(cx, &pref, &model, u)
					.map_err(|e| format!("original, after its clone changed: {e}"))
			}
		}
	} else {
		let mut iref = IndexedBTreeGraph::<E>::new();
		let mut pref = BTreeGraph::<E>::new();
		for s in &input {
			iref.insert(t_of(s));
			pref.insert(t_of(s));
		}
		match cx.rng.below(9) {
			0 => {
				let v = shuffled(cx);
				check_indexed(cx, "by collecting", Store::collect(v), &iref, &model, u)
			}
			1 => {
				let mut v = shuffled(cx);
				let k = cx.rng.below(v.len() + 1);
				let tail = v.split_off(k);
				let mut s = IndexedBTreeGraph::<E>::collect(v);
				s.ext(tail);
				check_indexed(cx, "by extending", s, &iref, &model, u)
			}
			2 => {
				let mut s = IndexedBTreeGraph::<E>::default();
				for q in shuffled(cx) {
					s.trait_ins(q)
				}
				check_indexed(cx, "through GraphMut", s, &iref, &model, u)
			}
			3 => {
				let d = holed_graph(&mut cx.rng, model.iter().cloned().collect());
				let s: IndexedBTreeGraph<E> = d.into();
				check_indexed(cx, "by From after removals", s, &iref, &model, u)
			}
			4 => check_indexed(
				cx,
				"by from_non_indexed",
				IndexedBTreeGraph::from_non_indexed(pref),
				&iref,
				&model,
				u,
			),
			5 => {
				let d = holed_graph(&mut cx.rng, model.iter().cloned().collect());
				check_indexed(
					cx,
					"by into_indexed after removals",
					d.into_indexed(),
					&iref,
					&model,
					u,
				)
			}
			6 => {
				let c = iref.clone();
				check_indexed(cx, "by cloning", c, &iref, &model, u)?;
				audit_indexed(cx, &iref, &model, u)
					.map_err(|e| format!("original, after its clone changed: {e}"))
			}
			7 => {
				let s: BTreeGraph<E> = iref.into_iter().collect();
				check_plain(cx, "from an indexed iterator", s, &pref, &model, u)
			}
			_ => {
				let v = shuffled(cx);
				let mut s = BTreeGraph::<E>::default();
				for q in v {
					s.trait_ins(q)
				}
				check_plain(cx, "through GraphMut", s, &pref, &model, u)?;
				let c = pref.clone();
				check_plain(cx, "by cloning", c, &pref, &model, u)?;
				audit_plain(cx, &pref, &model, u)
					.map_err(|e| format!("original, after its clone changed: {e}"))
			}
		}
	}
}

pub fn c07_construct(cx: &mut Cx) -> Res {
	match cx.rng.below(5) {
		0 | 1 => construct::<u32>(cx),
		2 => construct::<LocalTerm>(cx),
		3 => construct::<Rev>(cx),
		_ => construct::<String>(cx),
	}
}

/// `From<BTreeDataset>` only exists for local terms; a removed graph is a
/// container too.
pub fn c07_more(cx: &mut Cx) -> Res {
	let n = if cx.tiny { 3 } else { cx.rng.range(2, 12) };
	let u: Vec<LocalTerm> = universe(&mut cx.rng, n);
	let count = if cx.tiny { 8 } else { cx.rng.below(80) };
	let model: Model<LocalTerm> = (0..count)
		.map(|_| statement(&mut cx.rng, &u, true))
		.collect();
	let iref: IndexedBTreeDataset = model.iter().map(q_of).collect();
	let d = holed_dataset(&mut cx.rng, model.iter().cloned().collect());
	let s: IndexedBTreeDataset = d.into();
	check_indexed(cx, "by From", s, &iref, &model, &u)?;

	let g = if cx.rng.chance(1, 3) {
		None
	} else {
		Some(cx.rng.pick(&u).clone())
	};
	let mut src = iref.clone();
	let gm: Model<LocalTerm> = model
		.iter()
		.filter(|s| s.3 == g)
		.map(|s| (s.0.clone(), s.1.clone(), s.2.clone(), None))
		.collect();
	let pref = BTreeGraph::collect(gm.iter().cloned().collect());
	if let Some(graph) = src.remove_graph(g.as_ref()) {
		check_plain(cx, "by remove_graph", graph, &pref, &gm, &u)?;
	}
	Ok(())
}

pub fn c07_history(cx: &mut Cx) -> Res {
	let p = random_profile(cx);
	match cx.rng.below(4) {
		0 => any_elem!(cx, BTreeGraph, |E, S| run_history::<E, S>(
			cx,
			p,
			audit_plain
		)),
		1 => any_elem!(cx, BTreeDataset, |E, S| run_history::<E, S>(
			cx,
			p,
			audit_plain
		)),
		_ => {
			let p = Profile {
				audit_den: p.audit_den * 2,
				..p
			};
			any_indexed!(cx, |E, S| run_history::<E, S>(cx, p, audit_indexed))
		}
	}
}

// ---------------------------------------------------------------------------
// C21

fn std_hash<T: Hash>(t: &T) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// A container with the given content, reached through a random history.
fn via_history<E: Elem, S: Special<E>>(cx: &mut Cx, model: &Model<E>, u: &[E]) -> S {
	let mut v: Vec<_> = model.iter().cloned().collect();
	cx.rng.shuffle(&mut v);
	let mut s = S::make();
	let mut junk: Vec<St<E>> = Vec::new();
	for st in v {
		if cx.rng.chance(1, 3) {
			let j = statement(&mut cx.rng, u, S::GRAPHS);
			if !model.contains(&j) {
				s.ins(j.clone());
				junk.push(j);
			}
		}
		s.ins(st.clone());
		if cx.rng.chance(1, 8) {
			s.rem(&st);
			s.ins(st);
		}
	}
	for j in junk {
		s.rem(&j);
	}
	match cx.rng.below(5) {
		0 => s.clone(),
		1 => s.through_other_kind(&mut cx.rng),
		2 => {
			let cap = model.len() + 4;
			S::collect(s.into_list(cap))
		}
		_ => s,
	}
}

pub fn c21_huge(cx: &mut Cx) -> Res {
	any_store!(cx, |E, S| compare_of::<E, S>(cx, true, true))
}

pub(crate) fn compare<E: Elem, S: Special<E>>(cx: &mut Cx) -> Res {
	let large = !cx.tiny && cx.rng.chance(1, 150);
	compare_of::<E, S>(cx, large, false)
}

fn compare_of<E: Elem, S: Special<E>>(cx: &mut Cx, large: bool, huge: bool) -> Res {
	let n = if cx.tiny {
		3
	} else if large {
		*cx.rng.pick(&[12usize, 60, 400])
	} else {
		cx.rng.range(1, 8)
	};
	let u: Vec<E> = universe(&mut cx.rng, n);
	let count = if huge {
		cx.rng.range(1000, 6000)
	} else if large {
		cx.rng.range(60, 1200)
	} else {
		cx.rng.below(if cx.tiny { 6 } else { 25 })
	};
	if large {
		cx.count("large contents")
	}
	let ma: Model<E> = (0..count)
		.map(|_| statement(&mut cx.rng, &u, S::GRAPHS))
		.collect();
	// The other content: equal, or with a few statements added, removed or changed.
	let mut mb = ma.clone();
	match cx.rng.below(6) {
		0 | 1 => (),
		2 => {
			mb.insert(statement(&mut cx.rng, &u, S::GRAPHS));
		}
		3 => {
			if !mb.is_empty() {
				let k = cx.rng.below(mb.len());
				let s = mb.iter().nth(k).unwrap().clone();
				mb.remove(&s);
			}
		}
		4 => {
			if !mb.is_empty() {
				let k = cx.rng.below(mb.len());
				let mut s = mb.iter().nth(k).unwrap().clone();
				mb.remove(&s);
				let r = cx.rng.pick(&u).clone();
				match cx.rng.below(4) {
					0 => s.0 = r,
					1 => s.1 = r,
					2 => s.2 = r,
					_ if S::GRAPHS => s.3 = s.3.is_none().then_some(r),
					_ => s.2 = r,
				}
				mb.insert(s);
			}
		}
		_ => {
			let c = cx.rng.below(20);
			mb = (0..c)
				.map(|_| statement(&mut cx.rng, &u, S::GRAPHS))
				.collect();
		}
	}
	let a: S = via_history(cx, &ma, &u);
	let b: S = via_history(cx, &mb, &u);
	cx.log(|| format!("{}<{}>: {ma:?} against {mb:?}", S::NAME, E::NAME));
	let eq = ma == mb;
	let ord = ma.iter().cmp(mb.iter());
	ensure!((a == b) == eq, "== is {}, expected {eq}", a == b);
	ensure!((b == a) == eq, "== (swapped) is {}, expected {eq}", b == a);
	ensure!((a != b) != eq, "!= is {}, expected {}", a != b, !eq);
	ensure!(a.cmp(&b) == ord, "cmp is {:?}, expected {ord:?}", a.cmp(&b));
	ensure!(
		b.cmp(&a) == ord.reverse(),
		"cmp (swapped) is {:?}, expected {:?}",
		b.cmp(&a),
		ord.reverse()
	);
	ensure!(
		a.partial_cmp(&b) == Some(ord),
		"partial_cmp is {:?}, expected {ord:?}",
		a.partial_cmp(&b)
	);
	ensure!((a < b) == ord.is_lt(), "< disagrees with {ord:?}");
	#[allow(clippy::eq_op)]
	{
		ensure!(a == a, "not equal to itself");
	}
	let da = format!("{a:?}");
	let db = format!("{b:?}");
	if eq {
		ensure!(
			std_hash(&a) == std_hash(&b),
			"equal containers hash differently"
		);
		ensure!(
			sig(&a) == sig(&b),
			"equal containers hash differently (FNV)"
		);
		ensure!(da == db, "equal containers print {da} and {db}");
		cx.count("equal pairs");
	} else {
		cx.count("different pairs");
	}
	cx.evals(9);
	if !ma.is_empty() && !mb.is_empty() {
		cx.distinct(&(S::NAME, sig(&ma), sig(&mb)));
	}
	if large {
		return Ok(());
	}
	cx.sample(|| format!("{}<{}>: {ma:?} vs {mb:?}: {ord:?}", S::NAME, E::NAME));
	Ok(())
}

pub fn c21_compare(cx: &mut Cx) -> Res {
	any_store!(cx, |E, S| compare::<E, S>(cx))
}

/// Comparison between datasets of different resource types.
pub fn c21_cross(cx: &mut Cx) -> Res {
	use rdf_types::{LiteralRef, LiteralTypeRef, Quad};
	let _ = LiteralRef::new("", LiteralTypeRef::Any(rdf_types::XSD_STRING));
	let n = cx.rng.range(1, 5);
	let u: Vec<String> = universe(&mut cx.rng, n);
	let ma: Model<String> = (0..cx.rng.below(12))
		.map(|_| statement(&mut cx.rng, &u, true))
		.collect();
	let mut mb = ma.clone();
	if cx.rng.chance(1, 2) {
		let s = statement(&mut cx.rng, &u, true);
		if !mb.remove(&s) {
			mb.insert(s);
		}
	}
	let a: BTreeDataset<String> = ma.iter().map(q_of).collect();
	let b: BTreeDataset<&str> = mb
		.iter()
		.map(|s| {
			Quad(
				s.0.as_str(),
				s.1.as_str(),
				s.2.as_str(),
				s.3.as_deref(),
			)
		})
		.collect();
	cx.log(|| format!("{ma:?} against {mb:?}"));
	let eq = ma == mb;
	ensure!((a == b) == eq, "owned == borrowed is {}", !eq);
	ensure!((b == a) == eq, "borrowed == owned is {}", !eq);
	cx.evals(2);
	cx.distinct(&(sig(&ma), sig(&mb)));
	Ok(())
}

#[allow(unused)]
fn _assert_types(p: CanonicalQuadPattern<u8>, g: PatternGraph<u8>) {}
