//! Shared machinery: deterministic randomness, case runner, observation
//! counters, verdicts and evidence.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::Instant;

/// Outcome of one monitored case.
pub type Res<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
	($cond:expr, $($fmt:tt)+) => {
		if !$cond {
			return Err(format!($($fmt)+));
		}
	};
}

/// SplitMix64 based generator (self-contained, stable across platforms).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Self(seed ^ 0x9E37_79B9_7F4A_7C15);
		r.next();
		r
	}

	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}

	/// Uniform in `0..n` (`n > 0`).
	pub fn below(&mut self, n: usize) -> usize {
		((self.next() as u128 * n as u128) >> 64) as usize
	}

	/// Uniform in `a..=b`.
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}

	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}

	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		let i = self.below(items.len());
		&items[i]
	}

	pub fn shuffle<T>(&mut self, items: &mut [T]) {
		for i in (1..items.len()).rev() {
			let j = self.below(i + 1);
			items.swap(i, j);
		}
	}
}

/// FNV-1a, used for stable signatures of observed states.
#[derive(Clone)]
pub struct Fnv(pub u64);

impl Default for Fnv {
	fn default() -> Self {
		Self(0xcbf2_9ce4_8422_2325)
	}
}

impl Hasher for Fnv {
	fn finish(&self) -> u64 {
		self.0
	}

	fn write(&mut self, bytes: &[u8]) {
		for b in bytes {
			self.0 ^= *b as u64;
			self.0 = self.0.wrapping_mul(0x0000_0100_0000_01b3);
		}
	}
}

pub fn sig<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = Fnv::default();
	t.hash(&mut h);
	h.finish()
}

/// What the monitors observed.
#[derive(Default)]
pub struct Obs {
	/// Oracle evaluations: comparisons of an observation with the specification.
	pub evals: u64,
	/// Named event counters.
	pub counters: BTreeMap<&'static str, u64>,
	/// Signatures of distinct non-trivial observed situations.
	pub distinct: HashSet<u64>,
	/// Written-out samples.
	pub samples: Vec<String>,
}

pub const DISTINCT_CAP: usize = 400_000;

impl Obs {
	fn merge(&mut self, other: Obs) {
		self.evals += other.evals;
		for (k, v) in other.counters {
			*self.counters.entry(k).or_default() += v;
		}
		for d in other.distinct {
			if self.distinct.len() < DISTINCT_CAP {
				self.distinct.insert(d);
			}
		}
		for s in other.samples {
			if self.samples.len() < 6 {
				self.samples.push(s)
			}
		}
	}
}

/// Per-case context handed to workloads.
pub struct Cx {
	pub rng: Rng,
	pub index: u64,
	pub thorough: bool,
	/// Scale for tiny interpreters such as Miri (1 = normal).
	pub tiny: bool,
	pub obs: Obs,
	tracing: bool,
	pub trace: Vec<String>,
}

impl Cx {
	pub fn new(seed: u64, index: u64, thorough: bool, tracing: bool) -> Self {
		Self {
			rng: Rng::new(seed),
			index,
			thorough,
			tiny: cfg!(miri),
			obs: Obs::default(),
			tracing,
			trace: Vec::new(),
		}
	}

	/// Records an event of the trace (only formatted when tracing).
	#[inline]
	pub fn log(&mut self, f: impl FnOnce() -> String) {
		if self.tracing {
			self.trace.push(f())
		}
	}

	#[inline]
	pub fn eval(&mut self) {
		self.obs.evals += 1
	}

	#[inline]
	pub fn evals(&mut self, n: usize) {
		self.obs.evals += n as u64
	}

	#[inline]
	pub fn count(&mut self, what: &'static str) {
		*self.obs.counters.entry(what).or_default() += 1
	}

	#[inline]
	pub fn count_n(&mut self, what: &'static str, n: u64) {
		*self.obs.counters.entry(what).or_default() += n
	}

	/// Records a distinct non-trivial observed situation.
	#[inline]
	pub fn distinct<T: Hash>(&mut self, t: &T) {
		let s = sig(t);
		if self.obs.distinct.len() < DISTINCT_CAP {
			self.obs.distinct.insert(s);
		}
	}

	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.obs.samples.len() < 2 && self.index < 16 {
			let mut s = f();
			if s.len() > 600 {
				let mut n = 600;
				while !s.is_char_boundary(n) {
					n -= 1
				}
				s.truncate(n);
				s.push('…');
			}
			self.obs.samples.push(s)
		}
	}
}

pub type CaseFn = fn(&mut Cx) -> Res;

/// One workload of a property: a named generator of cases.
pub struct Workload {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub run: CaseFn,
}

pub const fn w(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Workload {
	Workload {
		name,
		quick,
		thorough,
		run,
	}
}

pub struct Violation {
	pub workload: &'static str,
	pub index: u64,
	pub message: String,
	pub trace: Vec<String>,
}

pub struct Outcome {
	pub obs: Obs,
	pub cases: u64,
	pub planned: u64,
	pub violation: Option<Violation>,
}

pub fn case_seed(seed: u64, prop: &str, workload: &str, index: u64) -> u64 {
	sig(&(seed, prop, workload, index))
}

fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = e.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = e.downcast_ref::<String>() {
		s.clone()
	} else {
		"panic with a non-text payload".to_owned()
	}
}

/// Runs `f`, turning a panic into an error naming what was being done.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
	catch_unwind(AssertUnwindSafe(f))
		.map_err(|e| format!("{what} panicked: {}", panic_message(e)))
}

pub fn run_case(f: CaseFn, cx: &mut Cx) -> Res {
	CHOICES.with(|c| *c.borrow_mut() = cx.rng.clone());
	ASIDE.with(|a| a.set(false));
	match catch_unwind(AssertUnwindSafe(|| f(cx))) {
		Ok(r) => r,
		Err(e) => Err(format!("panic: {}", panic_message(e))),
	}
}

/// Runs all the workloads of a property over `threads` threads.
pub fn run_workloads(
	prop: &str,
	workloads: &[Workload],
	seed: u64,
	thorough: bool,
	threads: usize,
	wall_cap_s: f64,
	on_stuck: &(dyn Fn(&'static str, u64) + Sync),
) -> Outcome {
	let start = Instant::now();
	let stop = AtomicBool::new(false);
	let total = Mutex::new(Obs::default());
	let found: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
	let cases = AtomicU64::new(0);

	// Plan: (workload, index) pairs, interleaved so that a wall cap cuts all
	// the workloads alike.
	let mut plan: Vec<(f64, usize, u64)> = Vec::new();
	for (wi, w) in workloads.iter().enumerate() {
		let n = if thorough { w.thorough } else { w.quick };
		for i in 0..n {
			plan.push(((i as f64 + 0.5) / n as f64, wi, i));
		}
	}
	plan.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
	let planned = plan.len() as u64;
	let next = AtomicU64::new(0);
	let current: Vec<Mutex<Option<(usize, u64)>>> =
		(0..threads).map(|_| Mutex::new(None)).collect();
	let done = AtomicU64::new(0);

	std::thread::scope(|scope| {
		for t in 0..threads {
			let (plan, next, stop, total, found, cases, current, done) = (
				&plan, &next, &stop, &total, &found, &cases, &current, &done,
			);
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(scope, move || {
					let mut obs = Obs::default();
					while !stop.load(AO::Relaxed) {
						if start.elapsed().as_secs_f64() > wall_cap_s {
							break;
						}
						let n = next.fetch_add(1, AO::Relaxed) as usize;
						let Some(&(_, wi, i)) = plan.get(n) else {
							break;
						};
						let w = &workloads[wi];
						*current[t].lock().unwrap() = Some((wi, i));
						let mut cx =
							Cx::new(case_seed(seed, prop, w.name, i), i, thorough, false);
						let r = run_case(w.run, &mut cx);
						*current[t].lock().unwrap() = None;
						cases.fetch_add(1, AO::Relaxed);
						obs.merge(cx.obs);
						if let Err(message) = r {
							let mut f = found.lock().unwrap();
							if f.is_none() {
								*f = Some((wi, i, message));
							}
							stop.store(true, AO::Relaxed);
						}
					}
					total.lock().unwrap().merge(obs);
					done.fetch_add(1, AO::SeqCst);
				})
				.unwrap();
		}

		// Watchdog: a case normally takes milliseconds. It is reported as endless
		// after 150 s during which the process was really given 120 s of CPU time.
		let mut stuck: Vec<(Option<(usize, u64)>, Instant, u64)> =
			vec![(None, Instant::now(), 0); threads];
		while done.load(AO::SeqCst) < threads as u64 {
			std::thread::sleep(std::time::Duration::from_millis(20));
			for t in 0..threads {
				let cur = *current[t].lock().unwrap();
				if cur.is_some() && cur == stuck[t].0 {
					let cpu = process_cpu_ms().saturating_sub(stuck[t].2);
					if stuck[t].1.elapsed().as_secs() > 150 && cpu > 120_000 {
						let (wi, i) = cur.unwrap();
						on_stuck(workloads[wi].name, i);
					}
				} else {
					stuck[t] = (cur, Instant::now(), process_cpu_ms());
				}
			}
		}
	});

	let violation = found.into_inner().unwrap().map(|(wi, index, message)| {
		// Replay the case with tracing on.
		let w = &workloads[wi];
		let mut cx = Cx::new(case_seed(seed, prop, w.name, index), index, thorough, true);
		let again = run_case(w.run, &mut cx);
		let mut trace = cx.trace;
		match again {
			Err(m) if m == message => (),
			Err(m) => trace.push(format!("(replay reported: {m})")),
			Ok(()) => trace.push("(the replay of this case did not fail again)".to_owned()),
		}
		Violation {
			workload: w.name,
			index,
			message,
			trace,
		}
	});

	Outcome {
		obs: total.into_inner().unwrap(),
		cases: cases.into_inner(),
		planned,
		violation,
	}
}

fn process_cpu_ms() -> u64 {
	// utime + stime of this process, in clock ticks (100 Hz).
	let Ok(s) = std::fs::read_to_string("/proc/self/stat") else {
		return 0;
	};
	let Some(i) = s.rfind(')') else { return 0 };
	let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
	let get = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
	(get(11) + get(12)) * 10
}

thread_local! {
	/// Whether an oracle is comparing values by itself.
	static ASIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
	/// Choices made while observing iterators, the same again when a case is replayed.
	static CHOICES: std::cell::RefCell<Rng> = std::cell::RefCell::new(Rng(0));
}

/// Work of an oracle, whose comparisons are not the library's.
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
	let before = ASIDE.with(|a| a.replace(true));
	let r = f();
	ASIDE.with(|a| a.set(before));
	r
}

pub fn is_aside() -> bool {
	ASIDE.with(|a| a.get())
}

/// A choice among `n`.
pub fn choice(n: usize) -> usize {
	CHOICES.with(|c| c.borrow_mut().below(n))
}

/// Consumes at most `cap + 1` items, so that an endless iterator is observed
/// as one yielding too much rather than as a hang. What the iterator announces
/// at each step is compared with what it then yields.
pub fn drain<I: Iterator>(mut iter: I, cap: usize) -> Vec<I::Item> {
	let mut hints = vec![iter.size_hint()];
	let mut items = Vec::new();
	let mut ended = false;
	while items.len() <= cap {
		match iter.next() {
			Some(i) => items.push(i),
			None => {
				ended = true;
				break;
			}
		}
		hints.push(iter.size_hint());
	}
	if ended {
		for (k, (lo, hi)) in hints.into_iter().enumerate() {
			let left = items.len() - k;
			if lo > left || hi.is_some_and(|hi| hi < left) {
				panic!("an iterator with {left} items left announces between {lo} and {hi:?}")
			}
		}
	}
	items
}

/// Lists `make()` one item at a time, then once more through another method of
/// iterators: whichever is used, the same items must come.
pub fn listing<I: Iterator, T: Ord + Clone + std::fmt::Debug>(
	make: impl Fn() -> I,
	f: impl Fn(I::Item) -> T + Copy,
	cap: usize,
) -> Vec<T> {
	relisted(make, f, cap, false)
}

/// Same, the items having a fixed order.
pub fn ordered_listing<I: Iterator, T: Ord + Clone + std::fmt::Debug>(
	make: impl Fn() -> I,
	f: impl Fn(I::Item) -> T + Copy,
	cap: usize,
) -> Vec<T> {
	relisted(make, f, cap, true)
}

fn relisted<I: Iterator, T: Ord + Clone + std::fmt::Debug>(
	make: impl Fn() -> I,
	f: impl Fn(I::Item) -> T + Copy,
	cap: usize,
	ordered: bool,
) -> Vec<T> {
	let items = drain(make().map(f), cap);
	let n = items.len();
	if n <= cap {
		let mut it = make();
		// The first ones are taken one by one.
		let first = if choice(2) == 0 { 0 } else { choice(n + 1) };
		let mut head: Vec<T> = Vec::new();
		for _ in 0..first {
			head.extend(it.next().map(f));
		}
		finish(it, f, &items, head, ordered);
	}
	items
}

/// Consumes what remains of an iterator over `items`, whose `head` was consumed,
/// through one of its methods.
pub fn finish<I: Iterator, T: Ord + Clone + std::fmt::Debug>(
	mut it: I,
	f: impl Fn(I::Item) -> T + Copy,
	items: &[T],
	mut head: Vec<T>,
	ordered: bool,
) {
	let (n, first) = (items.len(), head.len());
	let norm = |mut v: Vec<T>| {
		if !ordered {
			v.sort()
		}
		v
	};
	let all = aside(|| norm(items.to_vec()));
	let k = choice(n + 2);
	let same = |what: &str, got: Vec<T>| {
		let got = aside(|| norm(got));
		if aside(|| got != all) {
			panic!("listed with {what}, an iterator yields {got:?}, but one by one {all:?}")
		}
	};
	// Some are passed over.
	let passed = |what: &str, got: Vec<T>, e: Vec<T>| {
		let got = aside(|| norm(got));
		let mut rest = all.iter();
		if got.len() != e.len() || aside(|| ordered && got != e || !got.iter().all(|g| rest.any(|r| r == g))) {
			panic!("with {what} after {first} of {n} items, an iterator yields {got:?} in all, expected {e:?}")
		}
	};
	let (done, todo) = items.split_at(first.min(n));
	let without = |k: usize| done.iter().chain(todo.iter().skip(k)).cloned().collect::<Vec<T>>();
	match choice(8) {
		0 => {
			let got = it.count() + head.len();
			if got != n {
				panic!("count() after {first} of {n} items: {got} in all")
			}
		}
		1 => {
			head.extend(it.last().map(f));
			let e = done.iter().chain(todo.last()).cloned().collect();
			passed("last()", head, e)
		}
		2 => {
			let got = it.nth(k).map(f);
			if got.is_some() != (first + k < n) {
				panic!("nth({k}) after {first} of {n} items: {got:?}")
			}
			if let Some(i) = got {
				head.push(i);
				head.extend(drain(it.map(f), n));
				passed(&format!("nth({k})"), head, without(k))
			}
		}
		3 => {
			head.extend(it.skip(k).map(f));
			passed(&format!("skip({k})"), head, without(k))
		}
		4 => {
			it.for_each(|i| head.push(f(i)));
			same("for_each()", head)
		}
		5 => {
			head.extend(it.by_ref().take(k).map(f));
			head.extend(it.map(f));
			same("take() then collect()", head)
		}
		6 => {
			let head = it.fold(head, |mut v, i| {
				v.push(f(i));
				v
			});
			same("fold()", head)
		}
		_ => {
			let none = it.position(|i| {
				head.push(f(i));
				false
			});
			if none.is_some() {
				panic!("position() found what it does not look for")
			}
			same("position()", head)
		}
	}
}
