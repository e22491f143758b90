//! C20: what happens to the values and the memory given to the library.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use rdf_types::dataset::*;
use rdf_types::pattern::CanonicalTriplePattern;
use rdf_types::LocalTerm;

use crate::common::*;
use crate::elem::*;
use crate::ensure;
use crate::hist::*;
use crate::pat::*;
use crate::props::{containers as c, patterns};
use crate::store::*;
use crate::track::{self, Fault, Tracked};

/// End of a case: everything made was dropped, once, and nothing was used after.
fn settle(cx: &mut Cx) -> Res {
	track::disarm();
	let (made, dropped) = track::totals();
	cx.count_n("values made", made);
	cx.count_n("values dropped", dropped);
	cx.eval();
	if let Some(e) = track::misuse() {
		return Err(e);
	}
	ensure!(
		track::live() == 0,
		"{} of {made} values were never dropped",
		track::live()
	);
	ensure!(made == dropped, "{made} values made, {dropped} dropped");
	Ok(())
}

/// The workloads of the other properties over tracked values. Their own verdict is
/// theirs: only the ledger is judged here.
pub fn c20_histories(cx: &mut Cx) -> Res {
	track::reset();
	let which = cx.rng.below(10);
	let p = random_profile(cx);
	let p = Profile {
		audit_den: p.audit_den * 3,
		..p
	};
	let r = catch_unwind(AssertUnwindSafe(|| match which {
		0 => run_history::<Tracked, BTreeGraph<Tracked>>(cx, p, audit_plain),
		1 => run_history::<Tracked, BTreeDataset<Tracked>>(cx, p, audit_plain),
		2 => run_history::<Tracked, IndexedBTreeGraph<Tracked>>(cx, p, audit_indexed),
		3 | 4 => run_history::<Tracked, IndexedBTreeDataset<Tracked>>(cx, p, audit_indexed),
		5 => c::extraction::<Tracked>(cx),
		6 => c::construct::<Tracked>(cx),
		7 => patterns::c11_one::<Tracked>(cx),
		8 => patterns::c12_any::<Tracked>(cx),
		_ => c::compare::<Tracked, IndexedBTreeDataset<Tracked>>(cx),
	}));
	drop(r);
	cx.distinct(&("histories", which, track::totals()));
	settle(cx)
}

/// Contents large enough for several levels of index nodes, cloned, partly
/// consumed, extracted from and dropped in every state.
fn deep<S: Special<Tracked>>(cx: &mut Cx) -> Res {
	track::reset();
	let r = catch_unwind(AssertUnwindSafe(|| {
		let n = if cx.tiny { cx.rng.range(30, 70) } else { cx.rng.range(50, 800) };
		let wide = cx.rng.chance(1, 2);
		let m = if wide { n } else { 6 } as u32;
		let mut store = S::make();
		let mut all = Vec::new();
		for _ in 0..n {
			let s = random(cx, m, S::GRAPHS);
			store.ins(make(&s));
			all.push(s);
		}
		let copy = store.clone();
		cx.rng.shuffle(&mut all);
		let k = cx.rng.below(n);
		for s in &all[..k] {
			store.rem(&make(s));
		}
		let other = store.clone();
		cx.count_n("statements in deep contents", copy.size() as u64);
		cx.distinct(&("deep", S::NAME, copy.size(), store.size()));
		let half = other.size() / 2;
		match cx.rng.below(5) {
			0 => drop(copy),
			1 => drop(copy.into_list(half)),
			2 => {
				drop(store);
				store = copy;
				for s in &all[..k / 2] {
					store.rem(&make(s));
				}
			}
			3 => store = copy.through_other_kind(&mut cx.rng),
			_ => {
				let mut c = copy;
				c.ext(all[k..].iter().map(make).collect());
				drop(std::mem::replace(&mut store, c));
			}
		}
		drop(other.into_list(half / 2));
		let _ = store.list(usize::MAX - 1).len();
	}));
	drop(r);
	settle(cx)
}

pub fn c20_deep(cx: &mut Cx) -> Res {
	match cx.rng.below(4) {
		0 => deep::<BTreeGraph<Tracked>>(cx),
		1 => deep::<BTreeDataset<Tracked>>(cx),
		2 => deep::<IndexedBTreeGraph<Tracked>>(cx),
		_ => deep::<IndexedBTreeDataset<Tracked>>(cx),
	}
}

type V = (u32, u32, u32, Option<u32>);

fn make(s: &V) -> St<Tracked> {
	(
		Tracked::new(s.0),
		Tracked::new(s.1),
		Tracked::new(s.2),
		s.3.map(Tracked::new),
	)
}

fn value(s: &St<Tracked>) -> V {
	(
		s.0.value(),
		s.1.value(),
		s.2.value(),
		s.3.as_ref().map(|g| g.value()),
	)
}

fn resources(model: &BTreeSet<V>) -> usize {
	let mut r = BTreeSet::new();
	for s in model {
		r.extend([s.0, s.1, s.2]);
		r.extend(s.3);
	}
	r.len()
}

fn random(cx: &mut Cx, n: u32, graphs: bool) -> V {
	let mut r = || cx.rng.below(n as usize) as u32;
	let (s, p, o, g) = (r(), r(), r(), r());
	(s, p, o, (graphs && cx.rng.chance(2, 3)).then_some(g))
}

fn some(cx: &mut Cx, model: &BTreeSet<V>) -> Option<V> {
	(!model.is_empty())
		.then(|| cx.rng.below(model.len()))
		.and_then(|n| model.iter().nth(n).copied())
}

/// A container holds one value per resource it uses, from the first statement
/// using it to the last; all others are dropped on the spot.
fn values<S: Special<Tracked> + Extra>(cx: &mut Cx) -> Res {
	track::reset();
	let n = cx.rng.range(1, if cx.tiny { 4 } else { 12 }) as u32;
	let steps = if cx.tiny { 25 } else { cx.rng.range(10, 120) };
	let mut model: BTreeSet<V> = BTreeSet::new();
	let mut store = S::make();
	cx.log(|| S::NAME.to_owned());
	for _ in 0..steps {
		let what;
		match cx.rng.below(24) {
			0..=10 => {
				let s = random(cx, n, S::GRAPHS);
				what = format!("insert({s:?})");
				if cx.rng.chance(1, 6) {
					store.trait_ins(make(&s));
				} else {
					store.ins(make(&s));
				}
				model.insert(s);
			}
			11..=16 => {
				let s = match some(cx, &model) {
					Some(s) if cx.rng.chance(4, 5) => s,
					_ => random(cx, n, S::GRAPHS),
				};
				what = format!("remove({s:?})");
				if cx.rng.chance(1, 6) {
					store.trait_rem(&make(&s));
				} else {
					store.rem(&make(&s));
				}
				model.remove(&s);
			}
			17 => {
				let v: Vec<V> = (0..cx.rng.below(8))
					.map(|_| random(cx, n, S::GRAPHS))
					.collect();
				what = format!("extend({v:?})");
				store.ext(v.iter().map(make).collect());
				model.extend(v);
			}
			18 => {
				what = "clone".to_owned();
				let copy = store.clone();
				ensure!(
					track::live() == 2 * resources(&model),
					"{} values live in a container and its clone over {} resources",
					track::live(),
					resources(&model)
				);
				if cx.rng.chance(1, 2) {
					store = copy;
				}
			}
			19 => {
				// Consumed up to a point, the rest abandoned.
				let k = cx.rng.below(model.len() + 2);
				what = format!("by-value iteration abandoned after {k} items");
				let l = std::mem::take(&mut store).into_list(k);
				let held: usize = l.iter().map(|s| 3 + s.3.is_some() as usize).sum();
				ensure!(
					track::live() == held,
					"{} values alive while {held} are held after {what}",
					track::live()
				);
				cx.eval();
				let taken: Vec<V> = l.iter().map(value).collect();
				drop(l);
				ensure!(track::live() == 0, "{} values alive after {what}", track::live());
				if cx.rng.chance(1, 2) {
					model = taken.into_iter().collect();
					store = S::collect(model.iter().map(make).collect());
				} else {
					model.clear();
				}
			}
			20 => {
				what = "conversion through the other kind of container".to_owned();
				store = std::mem::take(&mut store).through_other_kind(&mut cx.rng);
			}
			21 => {
				// Listings abandoned midway hold nothing.
				what = "abandoned listings".to_owned();
				let k = cx.rng.below(model.len() + 1);
				let _ = store.list(k).len() + store.res(k).len() + store.list_ref(k).len();
			}
			_ => what = store.extra(cx, &mut model, n)?,
		}
		cx.log(|| what.clone());
		cx.eval();
		cx.count("steps accounted");
		if let Some(e) = track::misuse() {
			return Err(format!("{what}: {e}"));
		}
		let r = resources(&model);
		ensure!(
			track::live() == r,
			"{} values alive in a {} of {} statements over {r} resources, after {what}",
			track::live(),
			S::NAME,
			model.len()
		);
	}
	if !model.is_empty() {
		cx.distinct(&("values", S::NAME, &model));
	}
	drop(store);
	settle(cx)
}

/// Operations of some containers only.
trait Extra: Sized {
	fn extra(&mut self, _: &mut Cx, _: &mut BTreeSet<V>, _: u32) -> Res<String> {
		Ok("nothing".to_owned())
	}
}

impl Extra for BTreeGraph<Tracked> {}
impl Extra for BTreeDataset<Tracked> {}
impl Extra for IndexedBTreeGraph<Tracked> {}
impl Extra for IndexedBTreeDataset<Tracked> {
	fn extra(&mut self, cx: &mut Cx, model: &mut BTreeSet<V>, n: u32) -> Res<String> {
		if cx.rng.chance(1, 3) {
			let g = cx.rng.chance(2, 3).then(|| cx.rng.below(n as usize) as u32);
			let removed = match g {
				Some(g) => {
					let g = Tracked::new(g);
					self.remove_graph(Some(&g))
				}
				None => self.remove_graph(None),
			};
			let moved: BTreeSet<V> = model.iter().filter(|s| s.3 == g).map(|s| (s.0, s.1, s.2, None)).collect();
			model.retain(|s| s.3 != g);
			let expected = resources(model) + resources(&moved);
			ensure!(
				track::live() == expected,
				"{} values alive after remove_graph({g:?}), {expected} resources in the two parts",
				track::live()
			);
			drop(removed);
			return Ok(format!("remove_graph({g:?})"));
		}
		let u: Vec<u32> = (0..n).collect();
		let pat = random_pat(&mut cx.rng, &u);
		let limit = cx.rng.below(6);
		let given: Vec<Tracked> = (0..n).map(Tracked::new).collect();
		let mut got: Vec<St<Tracked>> = Vec::new();
		{
			let tpat = pat.map(|v| &given[*v as usize]);
			let mut it = self.extract_pattern_matching(tpat.build());
			while got.len() < limit {
				match it.next() {
					Some(q) => got.push(st_of(q)),
					None => break,
				}
			}
		}
		drop(given);
		for s in &got {
			model.remove(&value(s));
		}
		let held: usize = got.iter().map(|s| 3 + s.3.is_some() as usize).sum();
		ensure!(
			track::live() == resources(model) + held,
			"{} values alive after an extraction abandoned after {} items: {held} held, {} resources left",
			track::live(),
			got.len(),
			resources(model)
		);
		cx.count("extractions accounted");
		Ok(format!("extraction of {pat:?}, {} items", got.len()))
	}
}

pub fn c20_values(cx: &mut Cx) -> Res {
	match cx.rng.below(5) {
		0 => values::<BTreeGraph<Tracked>>(cx),
		1 => values::<BTreeDataset<Tracked>>(cx),
		2 => values::<IndexedBTreeGraph<Tracked>>(cx),
		_ => values::<IndexedBTreeDataset<Tracked>>(cx),
	}
}

/// Panics raised by the comparison, cloning or hashing of a resource, at any
/// call: the container may be left with anything in it, but every value is
/// dropped once and the container can still be used and dropped.
fn faults<S: Special<Tracked> + Extra>(cx: &mut Cx) -> Res {
	track::reset();
	let n = cx.rng.range(1, if cx.tiny { 3 } else { 9 }) as u32;
	let steps = if cx.tiny { 12 } else { cx.rng.range(5, 60) };
	let den = cx.rng.range(1, 6);
	let mut store = S::make();
	let mut dummy: BTreeSet<V> = BTreeSet::new();
	let mut fired = 0u64;
	for i in 0..steps {
		let op = cx.rng.below(16);
		let s = random(cx, n, S::GRAPHS);
		let fault = *cx.rng.pick(&[Fault::Compare, Fault::Compare, Fault::Clone, Fault::Hash]);
		let after = match cx.rng.below(3) {
			0 => cx.rng.below(3),
			1 => cx.rng.below(12),
			_ => cx.rng.below(60),
		} as u64;
		let arm = i > 2 && cx.rng.chance(1, den);
		let more: Vec<V> = (0..6).map(|_| random(cx, n, S::GRAPHS)).collect();
		if arm {
			track::arm(fault, after);
		}
		let r = catch_unwind(AssertUnwindSafe(|| match op {
			0..=5 => drop(store.ins(make(&s))),
			6 | 7 => drop(store.rem(&make(&s))),
			8 => store.ext(more.iter().map(make).collect()),
			9 => drop(store.clone()),
			10 => {
				let copy = store.clone();
				store = copy
			}
			11 => drop(std::mem::take(&mut store).into_list(3)),
			12 => drop(store.clone().into_list(usize::MAX - 1)),
			13 => store = S::collect(more.iter().map(make).collect()),
			14 => {
				store = std::mem::take(&mut store).through_other_kind(&mut cx.rng);
			}
			_ => {
				let _ = store.extra(cx, &mut dummy, n);
			}
		}));
		let pending = track::disarm();
		if arm && !pending {
			fired += 1;
			cx.distinct(&("fault", S::NAME, op, fault, after, r.is_err()));
		}
		drop(r);
		cx.eval();
		if let Some(e) = track::misuse() {
			return Err(format!("{} after a panic in user code: {e}", S::NAME));
		}
	}
	cx.count_n("faults injected", fired);
	let r = catch_unwind(AssertUnwindSafe(|| drop(store)));
	ensure!(r.is_ok(), "dropping a {} panicked", S::NAME);
	settle(cx).map_err(|e| format!("{} after {fired} panics in user code: {e}", S::NAME))
}

pub fn c20_faults(cx: &mut Cx) -> Res {
	match cx.rng.below(5) {
		0 => faults::<BTreeGraph<Tracked>>(cx),
		1 => faults::<BTreeDataset<Tracked>>(cx),
		2 => faults::<IndexedBTreeGraph<Tracked>>(cx),
		_ => faults::<IndexedBTreeDataset<Tracked>>(cx),
	}
}

/// Bindings of patterns own the values put in them, and only these.
pub fn c20_patterns(cx: &mut Cx) -> Res {
	track::reset();
	let shapes = triple_shapes();
	let shape = *cx.rng.pick(&shapes);
	{
		let mut k = 0;
		let given = |p: &Pat<Tracked>| {
			[&p.s, &p.p, &p.o]
				.iter()
				.filter(|c| matches!(c, C::Given(_)))
				.count()
		};
		let mut p = shape
			.map(|()| {
				k += 1;
				Tracked::new(k)
			})
			.build_triple();
		let steps = cx.rng.range(1, 6);
		for step in 0..steps {
			let i = cx.rng.below(3);
			match cx.rng.below(6) {
				0 => {
					p = match i {
						0 => p.with_subject(Tracked::new(7)),
						1 => p.with_predicate(Tracked::new(8)),
						_ => p.with_object(Tracked::new(9)),
					}
				}
				1 => p = p.clone(),
				2 => {
					// As a quad pattern and back.
					let (mut c, q) = (0, p.clone().with_any_graph());
					let q = q.map(|t| {
						c += 1;
						t
					});
					drop(p);
					p = q.into_triple().0;
					cx.distinct(&("through a quad pattern", c));
				}
				_ => match i {
					0 => drop_any(p.set_subject(Tracked::new(7))),
					1 => drop_any(p.set_predicate(Tracked::new(8))),
					_ => drop_any(p.set_object(Tracked::new(9))),
				},
			}
			let n = {
				let copy = decode_triple(&p);
				given(&copy)
			};
			cx.eval();
			ensure!(
				track::live() == n,
				"{} values alive in a pattern with {n} given positions",
				track::live()
			);
			cx.distinct(&("pattern", sig(&format!("{shape:?}")), step, i, n));
		}
	}
	settle(cx)
}

/// Setter `i` (subject, predicate, object; then the same by value) of the `k`-th
/// shape of pattern, the clone number `after` panicking: exits with 0 when every
/// value was dropped once. The library may bring the process down instead.
pub fn probe(k: usize, i: usize, after: u64) -> i32 {
	std::panic::set_hook(Box::new(|_| ()));
	track::reset();
	let mut n = 0;
	let mut p = Some(
		triple_shapes()[k]
			.map(|()| {
				n += 1;
				Tracked::new(n)
			})
			.build_triple(),
	);
	let value = Tracked::new(7);
	track::arm(Fault::Clone, after);
	let r = catch_unwind(AssertUnwindSafe(|| match i {
		0 => drop_any(p.as_mut().unwrap().set_subject(value)),
		1 => drop_any(p.as_mut().unwrap().set_predicate(value)),
		2 => drop_any(p.as_mut().unwrap().set_object(value)),
		3 => p = Some(p.take().unwrap().with_subject(value)),
		4 => p = Some(p.take().unwrap().with_predicate(value)),
		5 => p = Some(p.take().unwrap().with_object(value)),
		6 => match p.as_mut().unwrap() {
			CanonicalTriplePattern::GivenSubject(_, r) => drop_any(r.set_predicate(value)),
			CanonicalTriplePattern::AnySubject(r) => drop_any(r.set_predicate(value)),
		},
		_ => match p.as_mut().unwrap() {
			CanonicalTriplePattern::GivenSubject(_, r) => drop_any(r.set_object(value)),
			CanonicalTriplePattern::AnySubject(r) => drop_any(r.set_object(value)),
		},
	}));
	let fired = !track::disarm();
	drop(p);
	let fate = format!(
		"the panic {}, the setter {}",
		if fired { "was raised" } else { "was not reached" },
		if r.is_ok() { "returned" } else { "unwound" },
	);
	if let Some(e) = track::misuse() {
		println!("{e}; {fate}");
		return 3;
	}
	if track::live() != 0 {
		println!("{} values never dropped; {fate}", track::live());
		return 3;
	}
	println!("{fate}");
	0
}

/// A panic inside a setter, in a process of its own.
pub fn c20_setter_faults(cx: &mut Cx) -> Res {
	let shapes = triple_shapes();
	let mut i = cx.index as usize;
	let k = i % shapes.len();
	i /= shapes.len();
	let (op, after) = (i % 8, i / 8);
	let out = std::process::Command::new(std::env::current_exe().map_err(|e| format!("harness: {e}"))?)
		.args(["--probe", &k.to_string(), &op.to_string(), &after.to_string()])
		.stdin(std::process::Stdio::null())
		.output();
	let Ok(out) = out else {
		// No room for another process: nothing was observed.
		cx.count("probes that could not be started");
		return Ok(());
	};
	use std::os::unix::process::ExitStatusExt;
	let text = String::from_utf8_lossy(&out.stdout).trim().to_owned();
	cx.eval();
	match (out.status.code(), out.status.signal()) {
		(Some(0), _) => {
			if text.contains("was raised") {
				cx.count("panics in a setter, unwound");
				cx.distinct(&("setter fault", k, op, after));
			}
			Ok(())
		}
		// SIGABRT, the documented answer of replace_with_or_abort.
		(None, Some(6)) => {
			cx.count("panics in a setter, aborted");
			cx.distinct(&("setter fault", k, op, after));
			Ok(())
		}
		(Some(3), _) => Err(format!(
			"pattern {:?}, setter {op} (subject, predicate, object, by value, nested), clone {after} panics: {text}",
			shapes[k]
		)),
		(None, Some(s @ (4 | 5 | 7 | 8 | 11))) => Err(format!(
			"pattern {:?}, setter {op}, clone {after} panics: killed by signal {s}",
			shapes[k]
		)),
		_ => {
			cx.count("probes that gave no answer");
			Ok(())
		}
	}
}

fn drop_any<T>(_: T) {}

/// Runs `f` a few times and tells what each run left allocated.
fn left_behind(f: &mut dyn FnMut()) -> Vec<(isize, isize)> {
	(0..4)
		.map(|_| {
			let (a, b) = track::balance();
			f();
			let (c, d) = track::balance();
			(c - a, d - b)
		})
		.collect()
}

fn balance<E: Elem, S: Special<E>>(cx: &mut Cx) -> Res {
	let n = cx.rng.range(1, if cx.tiny { 4 } else { 20 });
	let u: Vec<E> = universe(&mut cx.rng, n);
	let steps = if cx.tiny { 20 } else { cx.rng.range(5, 200) };
	// The history is fixed beforehand, so that only the library allocates.
	let ops: Vec<(usize, St<E>, usize)> = (0..steps)
		.map(|_| {
			(
				cx.rng.below(24),
				statement(&mut cx.rng, &u, S::GRAPHS),
				cx.rng.below(6),
			)
		})
		.collect();
	let before = track::allocations();
	let seed = cx.rng.next();
	let mut run = || {
		let mut rng = Rng::new(seed);
		let mut store = S::make();
		for (op, s, k) in &ops {
			match op {
				0..=13 => drop(store.ins(s.clone())),
				14..=19 => drop(store.rem(s)),
				20 => drop(store.clone()),
				21 => {
					let l = std::mem::take(&mut store).into_list(*k);
					store = S::collect(l);
				}
				22 => {
					store = std::mem::take(&mut store).through_other_kind(&mut rng);
				}
				_ => drop(store.list(*k).len() + store.res(*k).len()),
			}
		}
	};
	let l = left_behind(&mut run);
	cx.eval();
	cx.count_n("allocations watched", track::allocations() - before);
	cx.distinct(&("balance", S::NAME, E::NAME, sig(&ops)));
	ensure!(
		!l.iter().skip(1).all(|(bytes, blocks)| *bytes > 0 || *blocks > 0),
		"each run of a history on {}<{}> leaves memory allocated: {l:?} (bytes, blocks)",
		S::NAME,
		E::NAME
	);

	// Filled and emptied again and again, a container stays as small.
	if !cx.tiny && cx.rng.chance(1, 4) {
		let mut v: Vec<St<E>> = ops.iter().map(|o| o.1.clone()).collect();
		let mut store = S::make();
		let base = track::balance().0;
		let mut early = 0;
		let rounds = 64;
		for i in 0..rounds {
			for s in &v {
				store.ins(s.clone());
			}
			let mut seeded = Rng::new(i);
			seeded.shuffle(&mut v);
			for s in &v {
				store.rem(s);
			}
			let now = track::balance().0 - base;
			if i < 8 {
				early = early.max(now);
			}
			cx.eval();
			ensure!(
				now <= 2 * early + 4096,
				"an emptied {}<{}> keeps {now} bytes after {i} rounds, {early} at first",
				S::NAME,
				E::NAME
			);
		}
		cx.count("containers filled and emptied repeatedly");
	}
	Ok(())
}

pub fn c20_balance(cx: &mut Cx) -> Res {
	match cx.rng.below(8) {
		0 => balance::<u32, BTreeGraph<u32>>(cx),
		1 => balance::<u32, BTreeDataset<u32>>(cx),
		2 => balance::<u32, IndexedBTreeGraph<u32>>(cx),
		3 => balance::<u32, IndexedBTreeDataset<u32>>(cx),
		4 => balance::<LocalTerm, BTreeGraph<LocalTerm>>(cx),
		5 => balance::<LocalTerm, BTreeDataset<LocalTerm>>(cx),
		6 => balance::<LocalTerm, IndexedBTreeGraph<LocalTerm>>(cx),
		_ => balance::<LocalTerm, IndexedBTreeDataset<LocalTerm>>(cx),
	}
}
