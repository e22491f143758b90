//! C27: what operations cost, in comparisons of resources.
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

use rdf_types::dataset::*;

use crate::common::*;
use crate::elem::{Elem, St};
use crate::ensure;
use crate::pat::{Pat, C, G};
use crate::store::*;

thread_local! {
	static COMPARISONS: Cell<u64> = const { Cell::new(0) };
}

/// Resource counting how many times it is compared with another one.
#[derive(Clone, Debug)]
pub struct Counted(u32);

fn tick() {
	if is_aside() {
		return;
	}
	COMPARISONS.with(|c| c.set(c.get() + 1))
}

impl PartialEq for Counted {
	fn eq(&self, other: &Self) -> bool {
		tick();
		self.0 == other.0
	}
}

impl Eq for Counted {}

impl PartialOrd for Counted {
	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
		Some(self.cmp(other))
	}
}

impl Ord for Counted {
	fn cmp(&self, other: &Self) -> Ordering {
		tick();
		self.0.cmp(&other.0)
	}
}

impl Hash for Counted {
	fn hash<H: Hasher>(&self, state: &mut H) {
		self.0.hash(state)
	}
}

impl Elem for Counted {
	const NAME: &'static str = "Counted";
	fn nth(i: usize) -> Self {
		Counted((i as u32).wrapping_mul(2654435761))
	}
}

/// What `f` returns, and the comparisons it made.
fn cost<T>(f: impl FnOnce() -> T) -> (T, u64) {
	let before = COMPARISONS.with(Cell::get);
	let r = f();
	(r, COMPARISONS.with(Cell::get) - before)
}

fn log2(n: usize) -> u64 {
	(usize::BITS - n.leading_zeros()) as u64
}

/// Comparisons allowed to one operation on a content of `n` statements, far above
/// what any balanced or sorted structure needs and far below `n`.
fn allowed(n: usize) -> u64 {
	40 * (log2(n) + 2)
}

struct Meter<'a> {
	cx: &'a mut Cx,
	n: usize,
	name: &'static str,
}

impl Meter<'_> {
	/// An operation returning or changing `k` statements.
	fn check<T>(&mut self, what: &'static str, k: usize, f: impl FnOnce() -> T) -> Res<T> {
		let (r, c) = cost(f);
		let limit = allowed(self.n) * (k as u64 + 1);
		self.cx.eval();
		self.cx.count(what);
		let per = c / (k as u64 + 1);
		self.cx.distinct(&(self.name, what, log2(self.n), per));
		ensure!(
			c <= limit,
			"{}: {what} made {c} comparisons on {} statements ({k} concerned), more than {limit}",
			self.name,
			self.n
		);
		Ok(r)
	}
}

fn content<S: Store<Counted>>(cx: &mut Cx, n: usize) -> Vec<St<Counted>> {
	// Many resources, few resources, one crowded subject or graph, ...
	let shape = cx.rng.below(5);
	let side = (n as f64).cbrt() as usize + 2;
	let mut keys = BTreeSet::new();
	let m = n * 2;
	while keys.len() < n {
		let r = &mut cx.rng;
		let mut k = match shape {
			0 => [r.below(m), r.below(m), r.below(m), r.below(m)],
			1 => [r.below(side), r.below(side), r.below(side) + keys.len() / (2 * side), r.below(3)],
			2 => [0, r.below(5), r.below(m), r.below(2)],
			3 => [r.below(m), 1, 2, 3],
			_ => [r.below(m), r.below(3), r.below(m), r.below(m / 8)],
		};
		if !S::GRAPHS || r.chance(1, 3) {
			k[3] = usize::MAX
		}
		keys.insert(k);
	}
	let mut v: Vec<St<Counted>> = keys
		.into_iter()
		.map(|[s, p, o, g]| {
			let e = |i| Counted::nth(i);
			(e(s), e(p), e(o), (g != usize::MAX).then(|| e(g)))
		})
		.collect();
	match cx.rng.below(3) {
		0 => cx.rng.shuffle(&mut v),
		1 => v.sort(),
		_ => {
			v.sort();
			v.reverse()
		}
	}
	v
}

fn common<S: Store<Counted>>(cx: &mut Cx) -> Res<(S, Vec<St<Counted>>)> {
	let n = *cx.rng.pick(&[6000usize, 9000, 14000]);
	let mut v = content::<S>(cx, n);
	cx.log(|| format!("{} of {n} statements", S::NAME));
	let mut m = Meter { cx, n, name: S::NAME };
	let mut store = if m.cx.rng.chance(1, 2) {
		let w = v.clone();
		m.check("collecting", n, || S::collect(w))?
	} else {
		let mut s = S::make();
		for x in &v {
			ensure!(m.check("inserting", 0, || s.ins(x.clone()))?, "an insertion reported false");
		}
		s
	};
	// Vacate and reuse some slots.
	for _ in 0..200 {
		let i = m.cx.rng.below(v.len());
		let x = v.swap_remove(i);
		ensure!(m.check("removing", 0, || store.rem(&x))?, "a removal reported false");
		ensure!(!m.check("removing what is absent", 0, || store.rem(&x))?, "a removal reported true");
		if m.cx.rng.chance(2, 3) {
			ensure!(m.check("inserting", 0, || store.ins(x.clone()))?, "an insertion reported false");
			v.push(x)
		}
	}
	let fresh = |r: &mut Rng| Counted::nth(1_000_000 + r.below(1_000_000));
	for k in 0..200 {
		let i = m.cx.rng.below(v.len());
		let mut x = v[i].clone();
		ensure!(m.check("membership", 0, || store.has(&x))?, "a statement is missing");
		ensure!(!m.check("inserting what is present", 0, || store.ins(x.clone()))?, "an insertion reported true");
		ensure!(m.check("membership of a resource", 0, || store.has_res(&x.2))?, "a resource is missing");
		let f = fresh(&mut m.cx.rng);
		ensure!(!m.check("membership of an absent resource", 0, || store.has_res(&f))?, "a resource is present");
		match k % 3 {
			0 => x.0 = f,
			1 => x.1 = f,
			_ => x.2 = f,
		}
		ensure!(!m.check("membership of what is absent", 0, || store.has(&x))?, "a statement is present");
	}
	let size = v.len();
	ensure!(m.check("size", 0, || store.size())? == size, "wrong size");
	ensure!(m.check("iterating", 0, || store.list_ref(size).len())? == size, "wrong iteration");
	m.check("listing the resources", 0, || store.res(4 * size).len())?;
	m.check("counting", 0, || (store.count_trait(), store.res_count()))?;
	let copy = m.check("cloning", size, || store.clone())?;
	ensure!(m.check("comparing", size, || store == copy)?, "a clone differs");
	ensure!(m.check("ordering", size, || store.cmp(&copy))? == Ordering::Equal, "a clone differs");
	ensure!(m.check("listing by value", 0, || copy.into_list(size).len())? == size, "wrong iteration");
	cx.count("contents measured");
	Ok((store, v))
}

/// Patterns around a statement of the content.
fn pattern<'a>(r: &mut Rng, x: &'a St<Counted>, graphs: bool) -> Pat<&'a Counted> {
	let c = |r: &mut Rng, t: &'a Counted| if r.chance(1, 2) { C::Given(t) } else { C::Any };
	let (s, mut p, mut o) = (c(r, &x.0), c(r, &x.1), c(r, &x.2));
	if s == C::Any && p == C::Any && r.chance(1, 4) {
		p = C::S
	}
	if s == C::Any && o == C::Any && r.chance(1, 4) {
		o = C::S
	}
	let g = match r.below(3) {
		0 => G::Any,
		_ if !graphs => G::Given(None),
		_ => G::Given(x.3.as_ref()),
	};
	Pat { s, p, o, g }
}

fn indexed<S: Indexed<Counted>>(cx: &mut Cx) -> Res<(S, Vec<St<Counted>>)> {
	let (store, v) = common::<S>(cx)?;
	let n = v.len();
	let mut m = Meter { cx, n, name: S::NAME };
	for _ in 0..60 {
		let x = v[m.cx.rng.below(n)].clone();
		let pat = pattern(&mut m.cx.rng, &x, S::GRAPHS);
		// Through every interface.
		m.check("matching a pattern", 3, || store.matching(pat, n).len())?;
	}
	for role in ROLES {
		m.check("listing a role", 3, || store.roles(role, 4 * n).len())?;
		m.check("counting a role", 3, || store.role_counts(role).len())?;
	}
	Ok((store, v))
}

pub fn c27(cx: &mut Cx) -> Res {
	match cx.rng.below(4) {
		0 => {
			let (store, _) = common::<BTreeGraph<Counted>>(cx)?;
			let n = store.len();
			let mut m = Meter { cx, n, name: "BTreeGraph" };
			m.check("indexing", n, || store.into_indexed())?;
			Ok(())
		}
		1 => {
			let (store, _) = common::<BTreeDataset<Counted>>(cx)?;
			let n = store.len();
			let mut m = Meter { cx, n, name: "BTreeDataset" };
			m.check("indexing", n, || store.into_indexed())?;
			Ok(())
		}
		2 => {
			let (store, v) = indexed::<IndexedBTreeGraph<Counted>>(cx)?;
			let n = store.len();
			let mut m = Meter { cx, n, name: "IndexedBTreeGraph" };
			for _ in 0..60 {
				let x = &v[m.cx.rng.below(n)];
				m.check("derived queries", 8, || {
					(
						store.contains_triple(t_ref(x)),
						store.contains_triple_subject(&x.0),
						store.contains_triple_predicate(&x.1),
						store.contains_triple_object(&x.2),
						store.triple_objects(&x.0, &x.1).count(),
					)
				})?;
			}
			Ok(())
		}
		_ => {
			let (mut store, mut v) = indexed::<IndexedBTreeDataset<Counted>>(cx)?;
			let n = store.len();
			let mut m = Meter { cx, n, name: "IndexedBTreeDataset" };
			for _ in 0..60 {
				let x = &v[m.cx.rng.below(n)];
				m.check("derived queries", 8, || {
					(
						store.contains_quad(q_ref(x)),
						store.contains_quad_subject(&x.0),
						store.contains_quad_predicate(&x.1),
						store.contains_quad_object(&x.2),
						x.3.as_ref().map(|g| store.contains_named_graph(g)),
						store.quad_objects(x.3.as_ref(), &x.0, &x.1).count(),
					)
				})?;
				let lists = Pat {
					s: C::Given(vec![&x.0, &v[0].0]),
					p: C::Any,
					o: C::Given(vec![&x.2, &v[1].2, &x.2]),
					g: G::Any,
				};
				m.check("matching lists of values", 6, || {
					store.quad_multi_pattern_matching(lists.build()).count()
				})?;
			}
			for _ in 0..40 {
				let x = v[m.cx.rng.below(v.len())].clone();
				let mut pat = pattern(&mut m.cx.rng, &x, true);
				if m.cx.rng.chance(9, 10) {
					pat.s = C::Given(&x.0);
					if !pat.is_canonical() {
						(pat.p, pat.o) = (C::Any, C::Given(&x.2));
					}
				}
				let k = v.iter().filter(|y| pat.accepts_with(st_ref(y), |a, b| *a == b)).count();
				let got = m.check("extracting", k, || store.extract_pattern_matching(pat.build()).count())?;
				ensure!(got == k, "{got} statements extracted, expected {k}");
				v.retain(|y| !pat.accepts_with(st_ref(y), |a, b| *a == b));
				if v.len() < n / 2 {
					break;
				}
			}
			if !v.is_empty() {
				let g = v[m.cx.rng.below(v.len())].3.clone();
				let k = v.iter().filter(|x| x.3 == g).count();
				let got = m.check("removing a graph", k, || store.remove_graph(g.as_ref()))?;
				ensure!(got.map(|g| g.len()) == Some(k), "wrong graph removed");
			}
			Ok(())
		}
	}
}
