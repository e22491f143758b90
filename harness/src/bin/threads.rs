//! C24: containers read from several threads at once, and handed over.
//!
//! `threads C24 [options of harness::driver]`, or `threads --plain SEED FIRST COUNT`
//! for an outside observer (ThreadSanitizer, Miri).
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

use harness::common::*;
use harness::driver::{run, Suite};
use harness::elem::*;
use harness::ensure;
use harness::hist::*;
use harness::mterm;
use harness::pat::*;
use harness::store::*;
use rdf_types::dataset::isomorphism::{are_isomorphic, find_bijection};
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalTriplePattern, TriplePatternMap};
use rdf_types::{LocalTerm, RdfDisplay, Triple};

#[global_allocator]
static ALLOCATOR: harness::track::Counting = harness::track::Counting;

/// Question asked to a container.
#[derive(Clone, Debug)]
enum Query<E> {
	Iter,
	ByRef,
	Len,
	Contains(St<E>),
	Resources,
	HasResource(E),
	Count,
	Debug,
	Hash,
	Clone,
	IntoIter,
	Own(usize),
}

/// Questions only some containers can be asked.
trait Shared<E: Elem>: Special<E> + Send + Sync + 'static {
	fn own(&self, n: usize, u: &[E], cap: usize) -> u64;
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
	v.sort();
	v
}

fn patterns<E: Elem, S: Indexed<E>>(store: &S, n: usize, u: &[E], cap: usize) -> u64 {
	let all = shapes();
	let mut rng = Rng::new(n as u64);
	match n % 4 {
		0 => {
			let role = *rng.pick(&ROLES);
			let l: Vec<_> = store
				.roles(role, cap)
				.into_iter()
				.map(|(_, l)| sorted(l))
				.collect();
			sig(&(l, store.role_counts(role)))
		}
		_ => {
			let shape = *rng.pick(&all);
			let pat = instantiate(&mut rng, shape, u);
			let l: Vec<_> = store
				.matching(pat, cap)
				.into_iter()
				.map(|(_, l)| sorted(l))
				.collect();
			sig(&l)
		}
	}
}

impl<E: Elem> Shared<E> for BTreeGraph<E> {
	fn own(&self, n: usize, _: &[E], cap: usize) -> u64 {
		sig(&self.list_split(n % (cap + 1), cap))
	}
}

impl<E: Elem> Shared<E> for BTreeDataset<E> {
	fn own(&self, n: usize, _: &[E], cap: usize) -> u64 {
		sig(&self.list_split(n % (cap + 1), cap))
	}
}

impl<E: Elem> Shared<E> for IndexedBTreeGraph<E> {
	fn own(&self, n: usize, u: &[E], cap: usize) -> u64 {
		patterns(self, n, u, cap)
	}
}

impl<E: Elem> Shared<E> for IndexedBTreeDataset<E> {
	fn own(&self, n: usize, u: &[E], cap: usize) -> u64 {
		if n % 5 == 0 {
			let all = shapes();
			let mut rng = Rng::new(n as u64);
			let shape = *rng.pick(&all);
			let pat: Pat<Vec<&E>> = shape.map(|_| {
				let k = rng.below(4);
				(0..k).map(|_| rng.pick(u)).collect()
			});
			return sig(&sorted(drain(
				self.multi_pattern_matching(pat.build()).map(qr),
				cap,
			)));
		}
		patterns(self, n, u, cap)
	}
}

fn std_hash<T: std::hash::Hash>(t: &T) -> u64 {
	sig(t)
}

fn answer<E: Elem, S: Shared<E>>(store: &S, q: &Query<E>, u: &[E], cap: usize) -> u64 {
	match q {
		Query::Iter => sig(&store.list(cap)),
		Query::ByRef => sig(&store.list_ref(cap)),
		Query::Len => sig(&(store.size(), store.empty())),
		Query::Contains(s) => sig(&store.has(s)),
		Query::Resources => sig(&store.res(cap)),
		Query::HasResource(r) => sig(&store.has_res(r)),
		Query::Count => sig(&(store.count_trait(), store.res_count())),
		Query::Debug => sig(&format!("{store:?}")),
		Query::Hash => std_hash(store),
		Query::Clone => {
			let c = store.clone();
			sig(&(c.list(cap), c == *store))
		}
		Query::IntoIter => sig(&store.clone().into_list(cap)),
		Query::Own(n) => store.own(*n, u, cap),
	}
}

fn random_query<E: Elem>(rng: &mut Rng, u: &[E], model: &Model<E>, graphs: bool) -> Query<E> {
	match rng.below(20) {
		0 => Query::Iter,
		1 => Query::ByRef,
		2 => Query::Len,
		3..=6 => Query::Contains(if model.is_empty() || rng.chance(1, 2) {
			statement(rng, u, graphs)
		} else {
			model.iter().nth(rng.below(model.len())).unwrap().clone()
		}),
		7 => Query::Resources,
		8 | 9 => Query::HasResource(rng.pick(u).clone()),
		10 => Query::Count,
		11 => Query::Debug,
		12 => Query::Hash,
		13 => Query::Clone,
		14 => Query::IntoIter,
		_ => Query::Own(rng.below(10_000)),
	}
}

/// A short delay at the mercy of the scheduler.
fn jitter(rng: &mut Rng) {
	match rng.below(6) {
		0 => std::thread::yield_now(),
		1 => {
			for _ in 0..rng.below(if cfg!(miri) { 4 } else { 400 }) {
				std::hint::spin_loop()
			}
		}
		_ => (),
	}
}

/// Inserts and removes; the same list gives the same container.
fn apply<E: Elem, S: Store<E>>(store: &mut S, ops: &[(bool, St<E>)]) -> Vec<bool> {
	ops.iter()
		.map(|(ins, s)| {
			if *ins {
				store.ins(s.clone())
			} else {
				store.rem(s)
			}
		})
		.collect()
}

fn random_ops<E: Elem>(rng: &mut Rng, u: &[E], n: usize, graphs: bool) -> Vec<(bool, St<E>)> {
	let mut ops: Vec<(bool, St<E>)> = Vec::new();
	for _ in 0..n {
		if rng.chance(1, 4) && !ops.is_empty() {
			let s = rng.pick(&ops).1.clone();
			ops.push((false, s));
		} else {
			ops.push((true, statement(rng, u, graphs)));
		}
	}
	ops
}

fn model_of<E: Elem>(ops: &[(bool, St<E>)]) -> Model<E> {
	let mut m = Model::new();
	for (ins, s) in ops {
		if *ins {
			m.insert(s.clone());
		} else {
			m.remove(s);
		}
	}
	m
}

/// Order in which threads took their tickets.
fn interleaving(tickets: &[Vec<u64>]) -> Vec<u8> {
	let mut all: Vec<(u64, u8)> = tickets
		.iter()
		.enumerate()
		.flat_map(|(t, v)| v.iter().map(move |k| (*k, t as u8)))
		.collect();
	all.sort();
	all.into_iter().map(|(_, t)| t).collect()
}

fn switches(order: &[u8]) -> u64 {
	order.windows(2).filter(|w| w[0] != w[1]).count() as u64
}

fn observe(cx: &mut Cx, what: &'static str, tickets: &[Vec<u64>]) {
	let order = interleaving(tickets);
	cx.count_n("questions answered", order.len() as u64);
	cx.count_n("switches between threads seen", switches(&order));
	if switches(&order) > tickets.len() as u64 {
		cx.count("runs with overlapping threads");
		cx.distinct(&(what, &order));
	}
	cx.sample(|| format!("{what}: {} threads, order of questions {order:?}", tickets.len()));
}

fn readers<E: Elem, S: Shared<E>>(cx: &mut Cx) -> Res {
	let n = cx.rng.range(1, if cx.tiny { 3 } else { 12 });
	let u: Vec<E> = universe(&mut cx.rng, n);
	let size = if cx.tiny { 10 } else { cx.rng.range(0, 120) };
	let ops = random_ops(&mut cx.rng, &u, size, S::GRAPHS);
	let model = model_of(&ops);
	let cap = model.len() + u.len() + 4;
	// The single-threaded reader has a container of its own, so that the shared
	// one has never been read before.
	let mut alone = S::make();
	apply(&mut alone, &ops);
	let mut store = S::make();
	apply(&mut store, &ops);
	if cx.rng.chance(1, 4) {
		store = alone.clone();
	}
	let queries: Vec<Query<E>> = (0..if cx.tiny { 5 } else { cx.rng.range(3, 24) })
		.map(|_| random_query(&mut cx.rng, &u, &model, S::GRAPHS))
		.collect();
	let expected: Vec<u64> = queries.iter().map(|q| answer(&alone, q, &u, cap)).collect();
	let content: Vec<St<E>> = alone.clone().into_list(cap);
	let threads = cx.rng.range(2, if cx.tiny { 3 } else { 6 });
	let rounds = if cx.tiny { 4 } else { cx.rng.range(4, 40) };
	let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.next()).collect();
	let ticket = AtomicU64::new(0);
	let barrier = Barrier::new(threads);
	let results: Vec<(Vec<u64>, Option<String>)> = std::thread::scope(|scope| {
		let handles: Vec<_> = seeds
			.iter()
			.map(|seed| {
				let (store, queries, expected, u, ticket, barrier) =
					(&store, &queries, &expected, &u, &ticket, &barrier);
				scope.spawn(move || {
					let mut rng = Rng::new(*seed);
					let mut tickets = Vec::with_capacity(rounds);
					barrier.wait();
					let mut wrong = None;
					for _ in 0..rounds {
						let i = rng.below(queries.len());
						tickets.push(ticket.fetch_add(1, Ordering::Relaxed));
						jitter(&mut rng);
						let got = no_panic("a reader", || answer(store, &queries[i], u, cap));
						match got {
							Ok(a) if a == expected[i] => (),
							Ok(_) => {
								wrong = Some(format!(
									"a concurrent reader got another answer to {:?} than a reader alone",
									queries[i]
								));
								break;
							}
							Err(e) => {
								wrong = Some(e);
								break;
							}
						}
					}
					(tickets, wrong)
				})
			})
			.collect();
		handles.into_iter().map(|h| h.join().unwrap()).collect()
	});
	let tickets: Vec<Vec<u64>> = results.iter().map(|r| r.0.clone()).collect();
	cx.evals(tickets.iter().map(|t| t.len()).sum());
	observe(cx, S::NAME, &tickets);
	for (_, wrong) in results {
		if let Some(w) = wrong {
			return Err(format!("{}<{}>: {w}", S::NAME, E::NAME));
		}
	}
	// Reading left everything as it was.
	for (q, e) in queries.iter().zip(&expected) {
		cx.eval();
		ensure!(
			answer(&store, q, &u, cap) == *e,
			"{}: after concurrent reads, {q:?} is answered differently",
			S::NAME
		);
	}
	let listed = store.list(cap);
	ensure!(
		listed == content.iter().map(st_ref).collect::<Vec<_>>(),
		"{}: content changed by concurrent reads",
		S::NAME
	);
	Ok(())
}

macro_rules! any {
	($cx:ident, $f:ident) => {
		match $cx.rng.below(if $cx.tiny { 4 } else { 8 }) {
			0 => $f::<u32, BTreeGraph<u32>>($cx),
			1 => $f::<u32, BTreeDataset<u32>>($cx),
			2 => $f::<u32, IndexedBTreeGraph<u32>>($cx),
			3 => $f::<u32, IndexedBTreeDataset<u32>>($cx),
			4 => $f::<LocalTerm, BTreeGraph<LocalTerm>>($cx),
			5 => $f::<String, BTreeDataset<String>>($cx),
			6 => $f::<LocalTerm, IndexedBTreeGraph<LocalTerm>>($cx),
			_ => $f::<LocalTerm, IndexedBTreeDataset<LocalTerm>>($cx),
		}
	};
}

/// A panic that a thread alone meets as well belongs to other properties.
fn concurrent(cx: &mut Cx, f: fn(&mut Cx) -> Res) -> Res {
	match no_panic("alone", || f(cx)) {
		Ok(r) => r,
		Err(_) => {
			cx.count("cases left because a thread alone panics");
			Ok(())
		}
	}
}

fn c24_readers(cx: &mut Cx) -> Res {
	concurrent(cx, |cx| any!(cx, readers))
}

/// A container goes from thread to thread, each making a part of the changes.
fn hand_over<E: Elem, S: Shared<E>>(cx: &mut Cx) -> Res {
	let n = cx.rng.range(1, if cx.tiny { 3 } else { 10 });
	let u: Vec<E> = universe(&mut cx.rng, n);
	let size = if cx.tiny { 12 } else { cx.rng.range(1, 150) };
	let ops = random_ops(&mut cx.rng, &u, size, S::GRAPHS);
	let model = model_of(&ops);
	let cap = model.len() + 4;
	let mut alone = S::make();
	let expected = apply(&mut alone, &ops);
	let chunk = cx.rng.range(1, ops.len());
	let mut moved = S::make();
	let mut got = Vec::new();
	let mut hops = 0;
	for part in ops.chunks(chunk) {
		let part = part.to_vec();
		let keep = cx.rng.chance(1, 3).then(|| moved.clone());
		(moved, got) = std::thread::spawn(move || {
			let mut r = got;
			let mut s = moved;
			r.extend(apply(&mut s, &part));
			drop(keep);
			(s, r)
		})
		.join()
		.map_err(|_| format!("{}: mutation panicked in another thread", S::NAME))?;
		hops += 1;
	}
	cx.count_n("hand-overs", hops);
	cx.evals(3);
	ensure!(
		got == expected,
		"{}: changes made in other threads reported {got:?}, in place {expected:?}",
		S::NAME
	);
	ensure!(
		moved == alone && moved.list(cap) == alone.list(cap),
		"{}: content after changes in other threads differs from changes in place",
		S::NAME
	);
	ensure!(
		format!("{moved:?}") == format!("{alone:?}"),
		"{}: debug output differs",
		S::NAME
	);
	cx.distinct(&("hand over", S::NAME, E::NAME, hops, sig(&model)));
	Ok(())
}

fn c24_hand_over(cx: &mut Cx) -> Res {
	concurrent(cx, |cx| any!(cx, hand_over))
}

/// Iterators over one container started here and finished elsewhere, all at once.
fn c24_iterators(cx: &mut Cx) -> Res {
	concurrent(cx, iterators)
}

fn iterators(cx: &mut Cx) -> Res {
	let n = cx.rng.range(1, if cx.tiny { 3 } else { 9 });
	let u: Vec<u32> = universe(&mut cx.rng, n);
	let size = if cx.tiny { 10 } else { cx.rng.range(1, 100) };
	let ops = random_ops(&mut cx.rng, &u, size, true);
	let model = model_of(&ops);
	let cap = model.len() + 4;
	let mut store = IndexedBTreeDataset::<u32>::new();
	apply(&mut store, &ops);
	let mut copy = BTreeDataset::<u32>::new();
	apply(&mut copy, &ops);
	let all = shapes();
	let pats: Vec<Pat<&u32>> = (0..3)
		.map(|_| {
			let shape = *cx.rng.pick(&all);
			instantiate(&mut cx.rng, shape, &u)
		})
		.collect();
	let k = cx.rng.below(model.len() + 1);
	let twin = store.clone();
	let expected: Vec<QRef<u32>> = drain(twin.iter().map(qr), cap);
	let expected_copy: Vec<QRef<u32>> = drain(copy.iter().map(qr), cap);
	let wrong: Option<String> = std::thread::scope(|scope| {
		let mut handles = Vec::new();
		{
			let mut it = store.iter().map(qr);
			let mut got = Vec::new();
			for _ in 0..k {
				got.extend(it.next());
			}
			let expected = &expected;
			handles.push(scope.spawn(move || {
				got.extend(drain(it, cap));
				(got != *expected).then(|| "iter()".to_owned())
			}));
		}
		{
			let mut it = copy.iter().map(qr);
			let mut got = Vec::new();
			for _ in 0..k {
				got.extend(it.next());
			}
			let expected = &expected_copy;
			handles.push(scope.spawn(move || {
				got.extend(drain(it, cap));
				(got != *expected).then(|| "BTreeDataset::iter()".to_owned())
			}));
		}
		for pat in &pats {
			let mut it = store.pattern_matching(pat.build()).map(qr);
			let first = it.next();
			let twin = &twin;
			handles.push(scope.spawn(move || {
				let mut got: Vec<_> = first.into_iter().collect();
				if !got.is_empty() {
					got.extend(drain(it, cap));
				}
				got.sort();
				let mut expected = Vec::new();
				let mut it = twin.pattern_matching(pat.build()).map(qr);
				if let Some(q) = it.next() {
					expected.push(q);
					expected.extend(drain(it, cap));
				}
				expected.sort();
				(got != expected).then(|| format!("pattern_matching({pat:?})"))
			}));
		}
		handles
			.into_iter()
			.map(|h| {
				h.join()
					.unwrap_or_else(|_| Some("a panicking iterator".to_owned()))
			})
			.fold(None, |a, b| a.or(b))
	});
	cx.evals(5);
	cx.count_n("iterators moved", 5);
	cx.distinct(&("iterators", k, sig(&model)));
	if let Some(w) = wrong {
		return Err(format!("{w} finished in another thread yields something else"));
	}
	Ok(())
}

/// Terms, patterns, pattern maps and isomorphism used from several threads.
fn c24_terms(cx: &mut Cx) -> Res {
	concurrent(cx, terms)
}

fn terms(cx: &mut Cx) -> Res {
	let n = if cx.tiny { 3 } else { cx.rng.range(2, 12) };
	let u: Vec<LocalTerm> = universe(&mut cx.rng, n);
	let size = if cx.tiny { 3 } else { cx.rng.range(1, 12) };
	let ops = random_ops(&mut cx.rng, &u, size, true);
	let mut d = BTreeDataset::<LocalTerm>::new();
	apply(&mut d, &ops);
	// A renamed copy.
	let rename = |t: &LocalTerm| match t {
		LocalTerm::Anonymous(b) => LocalTerm::Anonymous(
			rdf_types::BlankIdBuf::new(format!("{}x", b.as_str())).unwrap(),
		),
		t => t.clone(),
	};
	let e: IndexedBTreeDataset = d
		.iter()
		.map(|q| rdf_types::Quad(rename(q.0), rename(q.1), rename(q.2), q.3.map(rename)))
		.collect();
	let mut map: TriplePatternMap<u32, LocalTerm> = TriplePatternMap::default();
	let ts = triple_shapes();
	for i in 0..if cx.tiny { 3 } else { 12 } {
		let shape = *cx.rng.pick(&ts);
		let p = shape.map(|_| cx.rng.pick(&u).clone());
		let b: CanonicalTriplePattern<LocalTerm> = p.build_triple();
		map.insert(b, i);
	}
	let threads = if cx.tiny { 2 } else { cx.rng.range(2, 5) };
	let rounds = if cx.tiny { 2 } else { cx.rng.range(2, 10) };
	let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.next()).collect();
	let look = |s: &LocalTerm, p: &LocalTerm, o: &LocalTerm| -> BTreeSet<u32> {
		map.get(Triple(s, p, o)).copied().take(100).collect()
	};
	let known: Vec<([usize; 3], BTreeSet<u32>)> = (0..12)
		.map(|_| {
			let i = [0; 3].map(|_| cx.rng.below(u.len()));
			(i, look(&u[i[0]], &u[i[1]], &u[i[2]]))
		})
		.collect();
	// The isomorphism of other datasets, so that nothing is computed beforehand.
	let verdict = are_isomorphic(&d.clone(), &e.clone());
	let texts: Vec<String> = u.iter().map(|t| t.rdf_display().to_string()).collect();
	let hashes: Vec<u64> = u.iter().map(sig).collect();
	let ticket = AtomicU64::new(0);
	let barrier = Barrier::new(threads);
	let results: Vec<(Vec<u64>, Option<String>)> = std::thread::scope(|scope| {
		let handles: Vec<_> = seeds
			.iter()
			.map(|seed| {
				let (u, d, e, look, known, texts, hashes, ticket, barrier) =
					(&u, &d, &e, &look, &known, &texts, &hashes, &ticket, &barrier);
				scope.spawn(move || {
					let mut rng = Rng::new(*seed);
					let mut tickets = Vec::new();
					barrier.wait();
					for _ in 0..rounds {
						tickets.push(ticket.fetch_add(1, Ordering::Relaxed));
						jitter(&mut rng);
						let wrong = no_panic("a reader", || match rng.below(4) {
							0 => {
								let i = rng.below(u.len());
								let t = u[i].clone();
								(t.rdf_display().to_string() != texts[i]
									|| sig(&t) != hashes[i] || t != u[i]
									|| mterm::local_of(&t) != mterm::local_of(&u[i]))
								.then(|| format!("{t:?} displayed, hashed or compared"))
							}
							1 => {
								let (i, expected) = rng.pick(known);
								(look(&u[i[0]], &u[i[1]], &u[i[2]]) != *expected)
									.then(|| format!("pattern map lookup of {i:?}"))
							}
							2 => (are_isomorphic(d, e) != verdict).then(|| "are_isomorphic".to_owned()),
							_ => (find_bijection(e, d).is_some() != verdict)
								.then(|| "find_bijection".to_owned()),
						})
						.unwrap_or_else(Some);
						if wrong.is_some() {
							return (tickets, wrong);
						}
					}
					(tickets, None)
				})
			})
			.collect();
		handles.into_iter().map(|h| h.join().unwrap()).collect()
	});
	let tickets: Vec<Vec<u64>> = results.iter().map(|r| r.0.clone()).collect();
	cx.evals(tickets.iter().map(|t| t.len()).sum());
	observe(cx, "terms", &tickets);
	for (_, wrong) in results {
		if let Some(w) = wrong {
			return Err(format!("{w}: another answer in a concurrent reader"));
		}
	}
	Ok(())
}

fn workloads(prop: &str) -> Option<Vec<Workload>> {
	(prop == "C24").then(|| {
		vec![
			w("readers", 6000, 120000, c24_readers),
			w("hand over", 2000, 30000, c24_hand_over),
			w("iterators", 2500, 40000, c24_iterators),
			w("terms", 2500, 40000, c24_terms),
		]
	})
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	if args.first().is_some_and(|a| a == "--plain") {
		let f: Vec<u64> = args[1..].iter().map(|a| a.parse().expect("number")).collect();
		std::panic::set_hook(Box::new(|_| ()));
		for w in workloads("C24").unwrap() {
			let mut obs = (0, 0, 0, 0);
			for i in f[1]..f[1] + f[2] {
				let mut cx = Cx::new(case_seed(f[0], "C24", w.name, i), i, false, false);
				obs.3 += run_case(w.run, &mut cx).is_err() as u64;
				obs.0 += cx.obs.evals;
				obs.1 += cx.obs.distinct.len();
				obs.2 += cx.obs.counters.get("switches between threads seen").copied().unwrap_or(0);
			}
			println!(
				"RAN {} {} {} {} {} {}",
				w.name.replace(' ', "_"), f[2], obs.0, obs.1, obs.2, obs.3
			);
		}
		return;
	}
	run(Suite {
		workloads,
		rule: |_| {
			"Containers reached by random histories, read by 2-6 threads asking random questions at random moments, iterators moved to other threads midway, containers handed over between threads that mutate them, terms, patterns, pattern maps and isomorphism used concurrently; a situation is a distinct order of the threads' questions in which they really overlapped, or a distinct content handed over."
		},
		assumptions: |_| {
			vec![
				"the operating system's scheduler and injected delays give the schedules observed",
				"the standard library's threads",
			]
		},
		probes: |_| &[],
		parallel: 2,
	})
}
