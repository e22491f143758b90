//! C08, C09: isomorphism.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::*;
use rdf_types::interpretation::*;
use rdf_types::*;

use crate::common::*;
use crate::elem::{iri, lang, XSD_STRING};
use crate::ensure;

/// Model term: the blank nodes are numbers.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum M {
	B(u8),
	I(u8),
	/// text, type
	L(u8, u8),
}

type S = (M, M, M, Option<M>);
type Set = BTreeSet<S>;

fn build_ty(t: u8) -> LiteralType {
	match t {
		0 => LiteralType::Any(iri(XSD_STRING)),
		1 => LiteralType::Any(iri("http://e.org/t")),
		2 => LiteralType::LangString(lang("en")),
		_ => LiteralType::LangString(lang("fr")),
	}
}

fn build(m: M, labels: &[String]) -> LocalTerm {
	match m {
		M::B(i) => LocalTerm::Anonymous(BlankIdBuf::new(labels[i as usize].clone()).unwrap()),
		M::I(i) => LocalTerm::iri(iri(&format!("http://e.org/{i}"))),
		M::L(v, t) => LocalTerm::literal(Literal {
			value: format!("{v}"),
			type_: build_ty(t),
		}),
	}
}

fn relabel(s: &Set, map: &[u8]) -> Set {
	let f = |m: M| match m {
		M::B(i) => M::B(map[i as usize]),
		m => m,
	};
	s.iter()
		.map(|q| (f(q.0), f(q.1), f(q.2), q.3.map(f)))
		.collect()
}

fn terms(q: &S) -> impl Iterator<Item = M> {
	[Some(q.0), Some(q.1), Some(q.2), q.3].into_iter().flatten()
}

fn blanks(s: &Set) -> Vec<u8> {
	let set: BTreeSet<u8> = s
		.iter()
		.flat_map(terms)
		.filter_map(|m| match m {
			M::B(i) => Some(i),
			_ => None,
		})
		.collect();
	set.into_iter().collect()
}

fn permutations(n: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
	fn go(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
		if k == p.len() {
			return f(p);
		}
		for i in k..p.len() {
			p.swap(k, i);
			if go(p, k + 1, f) {
				return true;
			}
			p.swap(k, i);
		}
		false
	}
	let mut p: Vec<usize> = (0..n).collect();
	go(&mut p, 0, f)
}

/// Brute force: is there a blank node bijection turning `a` into `b`?
fn isomorphic(a: &Set, b: &Set) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let (ab, bb) = (blanks(a), blanks(b));
	if ab.len() != bb.len() {
		return false;
	}
	let mut map = vec![0u8; 256];
	permutations(ab.len(), &mut |p| {
		for (i, &x) in ab.iter().enumerate() {
			map[x as usize] = bb[p[i]];
		}
		relabel(a, &map) == *b
	})
}

fn random_set(cx: &mut Cx, nb: usize) -> Set {
	let r = &mut cx.rng;
	let n = r.range(0, 9);
	let blank_heavy = r.chance(1, 2);
	let graphs = r.chance(2, 3);
	let blank_preds = r.chance(1, 3);
	let ni = r.range(1, 3) as u8;
	let mut s = Set::new();
	let term = |r: &mut Rng, lits: bool| {
		if nb > 0 && r.chance(if blank_heavy { 4 } else { 2 }, 6) {
			M::B(r.below(nb) as u8)
		} else if lits && r.chance(1, 3) {
			M::L(r.below(2) as u8, r.below(4) as u8)
		} else {
			M::I(r.below(ni as usize) as u8)
		}
	};
	for _ in 0..n {
		let sub = term(r, false);
		let p = if blank_preds && nb > 0 && r.chance(1, 3) {
			M::B(r.below(nb) as u8)
		} else {
			M::I(r.below(2) as u8 + 10)
		};
		let o = term(r, true);
		let g = if graphs && r.chance(1, 2) {
			Some(term(r, r.0 % 5 == 0))
		} else {
			None
		};
		s.insert((sub, p, o, g));
	}
	s
}

/// A small change.
fn mutate(cx: &mut Cx, s: &Set, nb: usize) -> Set {
	let mut v: Vec<S> = s.iter().copied().collect();
	if v.is_empty() {
		return random_set(cx, nb);
	}
	let r = &mut cx.rng;
	for _ in 0..r.range(1, 2) {
		let k = r.below(v.len());
		let q = v[k];
		let change = |r: &mut Rng, m: M| match m {
			M::B(_) if r.chance(3, 4) && nb > 0 => M::B(r.below(nb) as u8),
			M::B(_) => M::I(0),
			M::I(i) => match r.below(4) {
				0 if nb > 0 => M::B(r.below(nb) as u8),
				1 => M::L(i, 0),
				_ => M::I(i ^ 1),
			},
			M::L(a, t) => match r.below(4) {
				0 => M::L(a ^ 1, t),
				1 if nb > 0 => M::B(r.below(nb) as u8),
				_ => M::L(a, (t + 1 + r.below(3) as u8) % 4),
			},
		};
		match r.below(9) {
			0 => v[k].0 = change(r, q.0),
			1 => v[k].1 = change(r, q.1),
			2 | 3 => v[k].2 = change(r, q.2),
			4 => v[k].3 = q.3.map(|g| change(r, g)),
			5 => {
				v[k].3 = match q.3 {
					None => Some(M::I(0)),
					Some(_) => None,
				}
			}
			6 => {
				v.swap_remove(k);
				if v.is_empty() {
					break;
				}
			}
			7 => {
				// Exchange an end of two statements.
				let j = r.below(v.len());
				let o = v[k].2;
				v[k].2 = v[j].2;
				v[j].2 = o;
			}
			_ => {
				let j = r.below(v.len());
				let o = v[k].3;
				v[k].3 = v[j].3;
				v[j].3 = o;
			}
		}
	}
	v.into_iter().collect()
}

fn random_labels(cx: &mut Cx, n: usize) -> Vec<String> {
	let mut all: Vec<String> = match cx.rng.below(4) {
		0 => (0..n).map(|i| format!("_:b{i}")).collect(),
		1 => (0..n).map(|i| format!("_:{}", i * 7)).collect(),
		2 => (0..n).map(|i| format!("_:{}", "x".repeat(i + 1))).collect(),
		_ => (0..n)
			.map(|i| format!("_:{}", char::from_u32(0x4e00 + 37 * i as u32).unwrap()))
			.collect(),
	};
	cx.rng.shuffle(&mut all);
	all
}

fn quads(s: &Set, labels: &[String]) -> Vec<Quad> {
	s.iter()
		.map(|q| {
			Quad(
				build(q.0, labels),
				build(q.1, labels),
				build(q.2, labels),
				q.3.map(|g| build(g, labels)),
			)
		})
		.collect()
}

/// Checks a reported bijection between the two sets.
fn check_bijection(
	a: &Set,
	b: &Set,
	fw: &[(M, M)],
	bw: &[(M, M)],
	what: &str,
) -> Res {
	let mut f: BTreeMap<M, M> = BTreeMap::new();
	for (x, y) in fw {
		ensure!(
			f.insert(*x, *y).is_none(),
			"{what}: {x:?} mapped twice by the reported bijection"
		);
	}
	let inv: BTreeMap<M, M> = bw.iter().copied().collect();
	ensure!(
		bw.len() == fw.len() && inv.len() == bw.len(),
		"{what}: the two directions of the bijection differ in size ({} and {})",
		fw.len(),
		bw.len()
	);
	for (x, y) in fw {
		ensure!(
			inv.get(y) == Some(x),
			"{what}: {x:?} is mapped to {y:?} forward, but {y:?} to {:?} backward",
			inv.get(y)
		);
	}
	let ab: Vec<M> = blanks(a).into_iter().map(M::B).collect();
	let bb: Vec<M> = blanks(b).into_iter().map(M::B).collect();
	let dom: Vec<M> = f.keys().copied().collect();
	let ran: BTreeSet<M> = f.values().copied().collect();
	ensure!(
		dom == ab,
		"{what}: the bijection is defined on {dom:?}, the blank nodes are {ab:?}"
	);
	ensure!(
		ran.iter().copied().collect::<Vec<_>>() == bb,
		"{what}: the bijection yields {ran:?}, the blank nodes are {bb:?}"
	);
	let map = |m: M| f.get(&m).copied().unwrap_or(m);
	let image: Set = a
		.iter()
		.map(|q| (map(q.0), map(q.1), map(q.2), q.3.map(map)))
		.collect();
	ensure!(
		image == *b,
		"{what}: the reported bijection {f:?} turns the first dataset into {image:?}, the second is {b:?}"
	);
	Ok(())
}

/// What is wrong with a reported bijection, if anything.
fn defect<A, B>(m: &BTreeBijection, from: &A, to: &B) -> Option<String>
where
	A: TraversableDataset<Resource = LocalTerm>,
	B: TraversableDataset<Resource = LocalTerm>,
{
	fn key(t: &LocalTerm) -> String {
		t.to_string()
	}
	fn statements<D: TraversableDataset<Resource = LocalTerm>>(
		d: &D,
		map: impl Fn(&LocalTerm) -> Option<String>,
	) -> Option<BTreeSet<[Option<String>; 4]>> {
		d.quads()
			.map(|q| {
				let g = match q.3 {
					Some(g) => Some(map(g)?),
					None => None,
				};
				Some([Some(map(q.0)?), Some(map(q.1)?), Some(map(q.2)?), g])
			})
			.collect()
	}
	fn mapping<'m>(
		pairs: impl Iterator<Item = (&'m LocalTerm, &'m LocalTerm)>,
	) -> BTreeMap<String, String> {
		pairs.map(|(x, y)| (key(x), key(y))).collect()
	}
	for (name, map, inverse, a, b) in [
		(
			"forward",
			mapping(m.forward.iter().map(|(x, y)| (*x, *y))),
			mapping(m.backward.iter().map(|(x, y)| (*x, *y))),
			0,
			1,
		),
		(
			"backward",
			mapping(m.backward.iter().map(|(x, y)| (*x, *y))),
			mapping(m.forward.iter().map(|(x, y)| (*x, *y))),
			1,
			0,
		),
	] {
		if let Some((x, y)) = map.iter().find(|(x, y)| inverse.get(*y) != Some(*x)) {
			return Some(format!("{name} sends {x} to {y}, not the other way"));
		}
		let image = |t: &LocalTerm| match t {
			LocalTerm::Anonymous(_) => map.get(&key(t)).cloned(),
			_ => Some(key(t)),
		};
		let given = |t: &LocalTerm| Some(key(t));
		let sides = [
			(statements(from, image), statements(from, given)),
			(statements(to, image), statements(to, given)),
		];
		let Some(got) = &sides[a].0 else {
			return Some(format!("{name} is not defined on every blank node"));
		};
		if Some(got) != sides[b].1.as_ref() {
			return Some(format!("{name} does not turn a dataset into the other"));
		}
	}
	None
}

/// Integer resources with a table of names.
struct Table {
	iris: BTreeMap<u32, Vec<IriBuf>>,
	lits: BTreeMap<u32, Vec<Literal>>,
}

impl Interpretation for Table {
	type Resource = u32;
	fn iri(&self, i: &Iri) -> Option<u32> {
		self.iris
			.iter()
			.find(|(_, v)| v.iter().any(|x| x == i))
			.map(|e| *e.0)
	}
	fn literal<'a>(&self, l: impl Into<LiteralRef<'a>>) -> Option<u32> {
		let l = l.into();
		self.lits
			.iter()
			.find(|(_, v)| v.iter().any(|x| *x == l))
			.map(|e| *e.0)
	}
}

impl ReverseInterpretation for Table {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a u32) -> Self::Iris<'a> {
		let v: Vec<_> = self
			.iris
			.get(r)
			.into_iter()
			.flatten()
			.map(|i| Cow::Borrowed(i.as_iri()))
			.collect();
		v.into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a u32) -> Self::Literals<'a> {
		let v: Vec<_> = self
			.lits
			.get(r)
			.into_iter()
			.flatten()
			.map(|l| l.as_cow())
			.collect();
		v.into_iter()
	}
}

/// The verdicts of the entry points on one pair of datasets.
struct Verdicts {
	verdict: bool,
	pairs: Option<(Vec<(M, M)>, Vec<(M, M)>)>,
}

fn ask<A, B>(a: &A, b: &B, la: &[String], lb: &[String]) -> Res<Verdicts>
where
	A: TraversableDataset<Resource = LocalTerm>,
	B: TraversableDataset<Resource = LocalTerm>,
{
	let back = |l: &[String], t: &LocalTerm| -> M {
		let LocalTerm::Anonymous(t) = t else {
			return M::I(255);
		};
		match l.iter().position(|x| x == t.as_str()) {
			Some(i) => M::B(i as u8),
			None => M::I(254),
		}
	};
	let f = find_bijection(a, b);
	let g = find_bijection_with(&(), a, b);
	let is = are_isomorphic(a, b);
	let is_with = are_isomorphic_with(&(), a, b);
	ensure!(
		f.is_some() == is && g.is_some() == is && is_with == is,
		"the entry points disagree: find_bijection {}, find_bijection_with {}, are_isomorphic {is}, are_isomorphic_with {is_with}",
		f.is_some(),
		g.is_some()
	);
	let conv = |f: BTreeBijection| {
		(
			f.forward
				.iter()
				.map(|(x, y)| (back(la, x), back(lb, y)))
				.collect::<Vec<_>>(),
			f.backward
				.iter()
				.map(|(x, y)| (back(lb, x), back(la, y)))
				.collect::<Vec<_>>(),
		)
	};
	Ok(Verdicts {
		verdict: is,
		pairs: f.or(g).map(conv),
	})
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
	Sound,
	Complete,
}

/// Compares the verdicts on (a, b) with the expected one.
fn check_pair(cx: &mut Cx, mode: Mode, a: &Set, b: &Set, expected: bool, what: &str) -> Res {
	let n = blanks(a)
		.into_iter()
		.chain(blanks(b))
		.max()
		.map(|i| i as usize + 1)
		.unwrap_or(0);
	let la = random_labels(cx, n);
	let lb = if cx.rng.chance(1, 3) {
		la.clone()
	} else {
		random_labels(cx, n)
	};
	let (mut qa, mut qb) = (quads(a, &la), quads(b, &lb));
	cx.rng.shuffle(&mut qa);
	cx.rng.shuffle(&mut qb);
	cx.log(|| format!("{what}: first {a:?}"));
	cx.log(|| format!("second {b:?}; isomorphic: {expected}"));
	let graph_like = a.iter().chain(b).all(|q| q.3.is_none());
	let combo = cx.rng.below(if graph_like { 8 } else { 4 });
	let t = |q: &Vec<Quad>| -> Vec<Triple> {
		q.iter()
			.cloned()
			.map(|q| Triple(q.0, q.1, q.2))
			.collect()
	};
	macro_rules! combo {
		($A:ident $qa:expr, $B:ident $qb:expr) => {{
			let x: $A = $qa.into_iter().collect();
			let y: $B = $qb.into_iter().collect();
			(
				concat!(stringify!($A), "/", stringify!($B)),
				ask(&x, &y, &la, &lb)?,
				ask(&y, &x, &lb, &la)?,
			)
		}};
	}
	let (types, v, w) = match combo {
		0 => combo!(BTreeDataset qa, BTreeDataset qb),
		1 => combo!(IndexedBTreeDataset qa, IndexedBTreeDataset qb),
		2 => combo!(BTreeDataset qa, IndexedBTreeDataset qb),
		3 => combo!(IndexedBTreeDataset qa, BTreeDataset qb),
		4 => combo!(BTreeGraph t(&qa), BTreeGraph t(&qb)),
		5 => combo!(IndexedBTreeGraph t(&qa), BTreeDataset qb),
		6 => combo!(BTreeDataset qa, IndexedBTreeGraph t(&qb)),
		_ => combo!(IndexedBTreeGraph t(&qa), IndexedBTreeGraph t(&qb)),
	};
	cx.log(|| format!("{types}: {} and {}", v.verdict, w.verdict));
	let what = format!("{what} ({types})");
	verdict(cx, mode, a, b, expected, &what, &v, &w)?;

	// The same through integer resources named by a table.
	let mut ids: BTreeMap<(bool, M), u32> = BTreeMap::new();
	let mut table = Table {
		iris: BTreeMap::new(),
		lits: BTreeMap::new(),
	};
	let mut fresh: Vec<u32> = (0..200).collect();
	cx.rng.shuffle(&mut fresh);
	// The blank nodes of the two datasets may be the same resources or not.
	let shared = cx.rng.chance(1, 3);
	let aliases = cx.rng.chance(1, 3);
	// The two datasets may use different resources with the same names.
	let twins = cx.rng.chance(1, 4);
	let mut conv = |second: bool, m: M| -> u32 {
		let own = if matches!(m, M::B(_)) { !shared } else { twins };
		let key = (second && own, m);
		*ids.entry(key).or_insert_with(|| {
			let r = fresh.pop().unwrap();
			match m {
				M::B(_) => (),
				M::I(i) => {
					let mut v = vec![iri(&format!("http://e.org/{i}"))];
					if aliases {
						v.insert(0, iri(&format!("http://alias.org/{i}")))
					}
					table.iris.insert(r, v);
				}
				M::L(v, t) => {
					table.lits.insert(
						r,
						vec![Literal {
							value: v.to_string(),
							type_: build_ty(t),
						}],
					);
					if aliases && v % 2 == 0 {
						table
							.iris
							.insert(r, vec![iri(&format!("http://lit.org/{v}/{t}"))]);
					}
				}
			}
			r
		})
	};
	let mut num = |second: bool, s: &Set| -> BTreeDataset<u32> {
		s.iter()
			.map(|q| {
				Quad(
					conv(second, q.0),
					conv(second, q.1),
					conv(second, q.2),
					q.3.map(|g| conv(second, g)),
				)
			})
			.collect()
	};
	let x = num(false, a);
	let y: IndexedBTreeDataset<u32> = num(true, b).into_iter().collect();
	let back: BTreeMap<u32, M> = ids.iter().map(|(k, v)| (*v, k.1)).collect();
	let pairs = |m: Option<BTreeBijection<u32>>| {
		m.map(|m| {
			(
				m.forward
					.iter()
					.map(|(a, b)| (back[*a], back[*b]))
					.collect::<Vec<_>>(),
				m.backward
					.iter()
					.map(|(a, b)| (back[*a], back[*b]))
					.collect::<Vec<_>>(),
			)
		})
	};
	let (p, q) = (
		find_bijection_with(&table, &x, &y),
		find_bijection_with(&table, &y, &x),
	);
	ensure!(
		are_isomorphic_with(&table, &x, &y) == p.is_some()
			&& are_isomorphic_with(&table, &y, &x) == q.is_some(),
		"{what}: are_isomorphic_with and find_bijection_with disagree"
	);
	let v = Verdicts {
		verdict: p.is_some(),
		pairs: pairs(p),
	};
	let w = Verdicts {
		verdict: q.is_some(),
		pairs: pairs(q),
	};
	verdict(
		cx,
		mode,
		a,
		b,
		expected,
		&format!("{what}, integer resources"),
		&v,
		&w,
	)?;
	cx.count(if expected { "isomorphic pairs" } else { "non-isomorphic pairs" });
	if !a.is_empty() {
		cx.distinct(&(a, b));
		cx.sample(|| format!("{a:?} against {b:?}"))
	}
	Ok(())
}

fn verdict(
	cx: &mut Cx,
	mode: Mode,
	a: &Set,
	b: &Set,
	expected: bool,
	what: &str,
	v: &Verdicts,
	w: &Verdicts,
) -> Res {
	cx.evals(2);
	match mode {
		Mode::Sound => {
			ensure!(
				expected || !(v.verdict || w.verdict),
				"{what}: declared isomorphic, but no blank node bijection turns {a:?} into {b:?}"
			);
			if let Some((f, k)) = &v.pairs {
				check_bijection(a, b, f, k, what)?
			}
			if let Some((f, k)) = &w.pairs {
				check_bijection(b, a, f, k, what)?
			}
		}
		Mode::Complete => {
			ensure!(
				v.verdict == w.verdict,
				"{what}: the verdict depends on the order of the arguments ({} and {}) for {a:?} and {b:?}",
				v.verdict,
				w.verdict
			);
			ensure!(
				!expected || v.verdict,
				"{what}: declared non-isomorphic, but renaming blank nodes turns {a:?} into {b:?}"
			);
		}
	}
	Ok(())
}

fn random_relabel(cx: &mut Cx, s: &Set, n: usize) -> Set {
	let mut map: Vec<u8> = (0..n as u8).collect();
	cx.rng.shuffle(&mut map);
	relabel(s, &map)
}

fn random_case(cx: &mut Cx, mode: Mode) -> Res {
	let max = if cx.rng.chance(1, 4) { 6 } else { 4 };
	let nb = cx.rng.range(0, max);
	let a = random_set(cx, nb);
	let b = match cx.rng.below(5) {
		0 | 1 => a.clone(),
		2 | 3 => mutate(cx, &a, nb),
		_ => random_set(cx, nb),
	};
	let b = random_relabel(cx, &b, nb);
	let e = isomorphic(&a, &b);
	check_pair(cx, mode, &a, &b, e, "random")
}

/// Edges of a small graph over blank nodes, as statements.
fn edges(cx: &mut Cx, e: &[(u8, u8)], style: usize) -> Set {
	let _ = cx;
	e.iter()
		.flat_map(|&(x, y)| {
			let (x, y) = (M::B(x), M::B(y));
			let p = M::I(10);
			match style {
				0 => vec![(x, p, y, None)],
				1 => vec![(x, p, y, None), (y, p, x, None)],
				2 => vec![(M::I(0), x, y, None)],
				3 => vec![(M::I(0), p, x, Some(y))],
				_ => vec![(x, p, y, Some(x))],
			}
		})
		.collect()
}

fn cycle(first: u8, n: u8) -> Vec<(u8, u8)> {
	(0..n).map(|i| (first + i, first + (i + 1) % n)).collect()
}

/// Symmetric structures, whose verdict is known or brute forced.
fn symmetric_case(cx: &mut Cx, mode: Mode) -> Res {
	let style = cx.rng.below(5);
	let k = cx.rng.below(9);
	let clique = |n: u8| -> Vec<(u8, u8)> {
		(0..n)
			.flat_map(|i| (0..n).filter(move |j| i < *j).map(move |j| (i, j)))
			.collect()
	};
	let (a, b): (Vec<(u8, u8)>, Vec<(u8, u8)>) = match k {
		0 => {
			let n = cx.rng.range(1, 7) as u8;
			(cycle(0, n), cycle(0, n))
		}
		1 => {
			// One cycle against two: locally identical.
			let mut two = cycle(0, 3);
			two.extend(cycle(3, 3));
			(cycle(0, 6), two)
		}
		2 => {
			let mut two = cycle(0, 3);
			two.extend(cycle(3, 4));
			(cycle(0, 7), two)
		}
		3 => {
			// K3,3 against the prism: both 3-regular.
			let k33: Vec<(u8, u8)> = (0..3)
				.flat_map(|i| (3..6).map(move |j| (i, j)))
				.collect();
			let mut prism = cycle(0, 3);
			prism.extend(cycle(3, 3));
			prism.extend([(0, 3), (1, 4), (2, 5)]);
			(k33, prism)
		}
		4 => {
			let n = cx.rng.range(1, 5) as u8;
			(clique(n), clique(n))
		}
		5 => {
			// A cycle, with one edge reversed in the other.
			let n = cx.rng.range(3, 6) as u8;
			let c = cycle(0, n);
			let mut d = c.clone();
			d[0] = (d[0].1, d[0].0);
			(c, d)
		}
		6 => {
			// Disjoint equal components.
			let n = cx.rng.range(2, 3) as u8;
			let mut c = cycle(0, n);
			c.extend(cycle(n, n));
			(c.clone(), c)
		}
		7 => {
			// Self loops against 2-cycles.
			(vec![(0, 0), (1, 1)], vec![(0, 1), (1, 0)])
		}
		_ => {
			// Two paths of 3 and 1 edges against two of 2 edges.
			(
				vec![(0, 1), (1, 2), (2, 3), (4, 5)],
				vec![(0, 1), (1, 2), (3, 4), (4, 5)],
			)
		}
	};
	let mut a = edges(cx, &a, style);
	let mut b = edges(cx, &b, style);
	// Possibly a decoration that breaks part of the symmetry.
	if cx.rng.chance(1, 2) {
		let same = cx.rng.chance(2, 3);
		let x = M::B(cx.rng.below(3) as u8);
		let y = M::B(cx.rng.below(3) as u8);
		a.insert((x, M::I(11), M::L(0, 0), None));
		b.insert((
			y,
			M::I(11),
			M::L(0, if same { 0 } else { 2 }),
			None,
		));
	}
	let n = blanks(&a).into_iter().chain(blanks(&b)).max().map_or(0, |m| m as usize + 1);
	let b = random_relabel(cx, &b, n);
	let e = isomorphic(&a, &b);
	check_pair(cx, mode, &a, &b, e, "symmetric")
}

/// Larger datasets with distinctive blank nodes.
fn large_case(cx: &mut Cx, mode: Mode) -> Res {
	let n = cx.rng.range(2, if cx.tiny { 6 } else { 30 });
	let mut a = Set::new();
	for i in 0..n as u8 {
		// A chain, whose nodes are told apart by a literal for most of them.
		if i as usize + 1 < n {
			a.insert((M::B(i), M::I(10), M::B(i + 1), None));
		}
		a.insert((M::B(i), M::I(11), M::L(i / 2, i % 4), None));
		if cx.rng.chance(1, 3) {
			a.insert((M::I(i), M::I(12), M::L(i, 0), Some(M::B(i))));
		}
		if cx.rng.chance(1, 3) {
			a.insert((M::I(i), M::I(i % 3), M::I(i / 2), None));
		}
	}
	let (b, e) = if cx.rng.chance(1, 2) {
		(a.clone(), true)
	} else {
		// One statement changed in a way that changes a term multiset.
		let mut v: Vec<S> = a.iter().copied().collect();
		let k = cx.rng.below(v.len());
		match cx.rng.below(3) {
			0 => v[k].1 = M::I(99),
			1 => {
				v[k].3 = match v[k].3 {
					None => Some(M::I(98)),
					Some(_) => None,
				}
			}
			_ => {
				if matches!(v[k].2, M::B(_)) {
					v[k].2 = M::I(97)
				} else {
					v[k].2 = M::L(200, 3)
				}
			}
		}
		let b: Set = v.into_iter().collect();
		(b, false)
	};
	let b = random_relabel(cx, &b, n);
	check_pair(cx, mode, &a, &b, e, "large")
}

/// Datasets without any blank node.
fn ground_case(cx: &mut Cx, mode: Mode) -> Res {
	let a = random_set(cx, 0);
	let b = match cx.rng.below(3) {
		0 => a.clone(),
		1 => mutate(cx, &a, 0),
		_ => random_set(cx, 0),
	};
	let e = a == b;
	check_pair(cx, mode, &a, &b, e, "ground")
}

/// Blank nodes of many statements each, among hundreds of ground statements.
fn wide_case(cx: &mut Cx, mode: Mode) -> Res {
	type Edge = (u8, usize, usize, usize);
	let hubs = cx.rng.below(5);
	let degree = *cx.rng.pick(&[6usize, 20, 40, 90]);
	let ground = *cx.rng.pick(&[0usize, 30, 300, 900]);
	let edge = |cx: &mut Cx| -> Edge { (cx.rng.below(3) as u8, cx.rng.below(3), cx.rng.below(200), cx.rng.below(4)) };
	let mut ga: BTreeSet<Edge> = BTreeSet::new();
	while ga.len() < ground {
		let e = (cx.rng.below(3) as u8, cx.rng.below(9), cx.rng.below(200), cx.rng.below(4));
		ga.insert(e);
	}
	let mut ha: Vec<BTreeSet<Edge>> = Vec::new();
	for _ in 0..hubs {
		let mut s = BTreeSet::new();
		// Sometimes the same as another one.
		if !ha.is_empty() && cx.rng.chance(1, 3) {
			s = cx.rng.pick(&ha).clone();
		}
		while s.len() < degree {
			s.insert(edge(cx));
		}
		ha.push(s);
	}
	let (mut gb, mut hb) = (ga.clone(), ha.clone());
	cx.rng.shuffle(&mut hb);
	match cx.rng.below(5) {
		0 | 1 => (),
		// Another ground statement.
		2 if !gb.is_empty() => {
			let k = cx.rng.below(gb.len());
			let mut e = *gb.iter().nth(k).unwrap();
			gb.remove(&e);
			e.2 = 200 + cx.rng.below(9);
			gb.insert(e);
		}
		// A statement of a blank node, replaced.
		3 if hubs > 0 => {
			let h = cx.rng.below(hubs);
			let k = cx.rng.below(degree);
			let mut e = *hb[h].iter().nth(k).unwrap();
			hb[h].remove(&e);
			match cx.rng.below(3) {
				0 => e.0 = 3 + e.0,
				1 => e.1 += 3,
				_ => e.2 += 200,
			}
			hb[h].insert(e);
		}
		// A statement exchanged between two of them.
		_ if hubs > 1 => {
			let (x, y) = (0, 1 + cx.rng.below(hubs - 1));
			let p: Vec<Edge> = hb[x].difference(&hb[y]).copied().collect();
			let q: Vec<Edge> = hb[y].difference(&hb[x]).copied().collect();
			if !p.is_empty() && !q.is_empty() {
				let (p, q) = (*cx.rng.pick(&p), *cx.rng.pick(&q));
				hb[x].remove(&p);
				hb[x].insert(q);
				hb[y].remove(&q);
				hb[y].insert(p);
			}
		}
		_ => (),
	}
	let sorted = |h: &Vec<BTreeSet<Edge>>| {
		let mut h = h.clone();
		h.sort();
		h
	};
	let expected = ga == gb && sorted(&ha) == sorted(&hb);
	let iri_of = |s: &str, i: usize| LocalTerm::iri(iri(&format!("http://e.org/{s}{i}")));
	let build = |cx: &mut Cx, g: &BTreeSet<Edge>, h: &[BTreeSet<Edge>]| -> Vec<Quad> {
		let base = cx.rng.below(1000);
		let quad = |n: LocalTerm, e: &Edge| {
			let g = |n| (e.3 > 0).then_some(n);
			let named = iri_of("g", e.3);
			match e.0 {
				0 => Quad(n, iri_of("p", e.1), iri_of("x", e.2), g(named)),
				1 => Quad(iri_of("x", e.2), iri_of("p", e.1), n, g(named)),
				2 => Quad(iri_of("x", e.2), iri_of("p", e.1), iri_of("y", e.3), Some(n)),
				3 => Quad(n, iri_of("p", e.1), iri_of("z", e.2), g(named)),
				4 => Quad(iri_of("z", e.2), iri_of("p", e.1), n, g(named)),
				_ => Quad(iri_of("z", e.2), iri_of("p", e.1), iri_of("y", e.3), Some(n)),
			}
		};
		let mut v: Vec<Quad> = g.iter().map(|e| quad(iri_of("n", e.2 % 3), e)).collect();
		for (i, h) in h.iter().enumerate() {
			let n = LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{:06}", base + i)).unwrap());
			v.extend(h.iter().map(|e| quad(n.clone(), e)))
		}
		cx.rng.shuffle(&mut v);
		v
	};
	let va = build(cx, &ga, &ha);
	let vb = build(cx, &gb, &hb);
	cx.log(|| format!("{hubs} blank nodes of {degree} statements, {ground} ground statements, isomorphic {expected}"));
	cx.distinct(&("wide", &ga, &ha, &gb, &hb));
	cx.count("wide pairs");
	let x: BTreeDataset = va.into_iter().collect();
	let (v, w) = if cx.rng.chance(1, 2) {
		let y: IndexedBTreeDataset = vb.into_iter().collect();
		(
			are_isomorphic(&x, &y),
			find_bijection(&y, &x).map(|m| (m.forward.len(), defect(&m, &y, &x))),
		)
	} else {
		let y: BTreeDataset = vb.into_iter().collect();
		(
			are_isomorphic(&x, &y),
			find_bijection(&y, &x).map(|m| (m.forward.len(), defect(&m, &y, &x))),
		)
	};
	cx.evals(2);
	let (w, wrong) = match w {
		Some((size, wrong)) => (Some(size), wrong),
		None => (None, None),
	};
	if let (Mode::Sound, Some(e)) = (&mode, wrong) {
		return Err(format!("{hubs} blank nodes of {degree} statements and {ground} ground statements: {e}"));
	}
	match mode {
		Mode::Sound => ensure!(
			expected || (!v && w.is_none()),
			"{hubs} blank nodes of {degree} statements and {ground} ground statements: declared isomorphic, though they are not"
		),
		Mode::Complete => ensure!(
			!expected || (v && w == Some(hubs)),
			"{hubs} blank nodes of {degree} statements and {ground} ground statements: isomorphic, but the answer is {v} and the bijection has {w:?} pairs"
		),
	}
	Ok(())
}

pub fn c08_wide(cx: &mut Cx) -> Res {
	wide_case(cx, Mode::Sound)
}
pub fn c09_wide(cx: &mut Cx) -> Res {
	wide_case(cx, Mode::Complete)
}

/// Datasets with many blank nodes, compared by a thread whose stack is small: what
/// is needed to compare two datasets must not depend on their size that way.
fn deep_case(cx: &mut Cx, mode: Mode) -> Res {
	let expected = cx.rng.chance(1, 2);
	let chained = cx.index % 3 != 0;
	let n = if chained { cx.rng.range(60, 130) } else { cx.rng.range(700, 900) };
	// Leaves are told apart by an IRI; nodes by the leaves they are linked with.
	let mut links: Vec<(usize, usize)> = (0..n).map(|i| (i, cx.rng.below(n))).collect();
	let iri_of = |s: &str, i: usize| LocalTerm::iri(iri(&format!("http://e.org/{s}{i}")));
	let make = |cx: &mut Cx, links: &[(usize, usize)], last: usize| -> Vec<Quad> {
		let mut place: Vec<usize> = (0..n).collect();
		cx.rng.shuffle(&mut place);
		let base = cx.rng.below(1000);
		let label = |k: usize| LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{:06}", base + k)).unwrap());
		let mut v: Vec<Quad> = Vec::new();
		for i in 0..n {
			let leaf = label(2 * place[i]);
			let tag = if i + 1 == n { last } else { i };
			let g = (i % 5 == 0).then(|| iri_of("g", i % 7));
			v.push(Quad(leaf.clone(), iri_of("p", i % 2), iri_of("x", tag), g));
			if chained {
				let node = label(2 * place[i] + 1);
				let (a, b) = links[i];
				v.push(Quad(node.clone(), iri_of("p", 3), label(2 * place[a]), None));
				v.push(Quad(node, iri_of("p", 4), label(2 * place[b]), None));
			}
		}
		cx.rng.shuffle(&mut v);
		v
	};
	let a = make(cx, &links, n - 1);
	let last = if expected || chained { n - 1 } else { n };
	if chained && !expected {
		// Another link, so that the pairs of leaves are not the same.
		let k = cx.rng.below(n);
		links[k].1 = (links[k].1 + 1 + cx.rng.below(n - 1)) % n;
	}
	let b = make(cx, &links, last);
	cx.log(|| format!("{n} leaves, chained {chained}, isomorphic {expected}"));
	let indexed = cx.rng.chance(1, 2);
	let (v, w) = std::thread::scope(|s| {
		std::thread::Builder::new()
			.stack_size(if chained { 2 << 20 } else { 96 << 10 })
			.spawn_scoped(s, || {
				let x: BTreeDataset = a.into_iter().collect();
				if indexed {
					let y: IndexedBTreeDataset = b.into_iter().collect();
					(
			are_isomorphic(&x, &y),
			find_bijection(&y, &x).map(|m| (m.forward.len(), defect(&m, &y, &x))),
		)
				} else {
					let y: BTreeDataset = b.into_iter().collect();
					(
			are_isomorphic(&x, &y),
			find_bijection(&y, &x).map(|m| (m.forward.len(), defect(&m, &y, &x))),
		)
				}
			})
			.map_err(|e| format!("harness: {e}"))
			.and_then(|t| t.join().map_err(|_| "the comparison panicked".to_owned()))
	})?;
	cx.evals(2);
	cx.count(if chained { "many linked blank nodes" } else { "hundreds of unlinked blank nodes" });
	cx.distinct(&("deep", n, chained, expected));
	let size = if chained { 2 * n } else { n };
	let (w, wrong) = match w {
		Some((size, wrong)) => (Some(size), wrong),
		None => (None, None),
	};
	if let (Mode::Sound, Some(e)) = (&mode, wrong) {
		return Err(format!("{n} leaves, chained {chained}: {e}"));
	}
	match mode {
		Mode::Sound => ensure!(
			expected || (!v && w.is_none()),
			"{n} leaves, chained {chained}: declared isomorphic, though they are not"
		),
		Mode::Complete => ensure!(
			!expected || (v && w == Some(size)),
			"{n} leaves, chained {chained}: {v} and a bijection of {w:?} nodes, though they are isomorphic over {size}"
		),
	}
	Ok(())
}

pub fn c08_deep(cx: &mut Cx) -> Res {
	deep_case(cx, Mode::Sound)
}
pub fn c09_deep(cx: &mut Cx) -> Res {
	deep_case(cx, Mode::Complete)
}
pub fn c08_random(cx: &mut Cx) -> Res {
	random_case(cx, Mode::Sound)
}
pub fn c09_random(cx: &mut Cx) -> Res {
	random_case(cx, Mode::Complete)
}
pub fn c08_symmetric(cx: &mut Cx) -> Res {
	symmetric_case(cx, Mode::Sound)
}
pub fn c09_symmetric(cx: &mut Cx) -> Res {
	symmetric_case(cx, Mode::Complete)
}
pub fn c08_large(cx: &mut Cx) -> Res {
	large_case(cx, Mode::Sound)
}
pub fn c09_large(cx: &mut Cx) -> Res {
	large_case(cx, Mode::Complete)
}
pub fn c08_ground(cx: &mut Cx) -> Res {
	ground_case(cx, Mode::Sound)
}
pub fn c09_ground(cx: &mut Cx) -> Res {
	ground_case(cx, Mode::Complete)
}
