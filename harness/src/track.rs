//! Resources whose clones, comparisons and drops are watched, with faults
//! injected on demand, and an allocator that keeps a balance per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;

use crate::elem::Elem;

#[derive(Default)]
struct Ledger {
	next: u64,
	live: HashSet<u64>,
	errors: Vec<String>,
	made: u64,
	dropped: u64,
}

/// Calls of user code in which a fault can be injected.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
	Compare,
	Clone,
	Hash,
}

thread_local! {
	static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
	static ARMED: Cell<Option<(Fault, u64)>> = const { Cell::new(None) };
	static COMPARES: Cell<u64> = const { Cell::new(0) };
}

/// A resource value, with heap memory of its own.
pub struct Tracked {
	v: u32,
	id: u64,
	heap: ManuallyDrop<Box<u64>>,
}

const MAGIC: u64 = 0x5afe_5afe_5afe_5afe;

fn error(m: String) {
	LEDGER.with_borrow_mut(|l| {
		if l.errors.len() < 8 {
			l.errors.push(m)
		}
	})
}

fn fault(f: Fault) {
	if let Some((g, n)) = ARMED.get() {
		if f == g {
			if n == 0 {
				ARMED.set(None);
				std::panic::panic_any("injected fault");
			}
			ARMED.set(Some((g, n - 1)));
		}
	}
}

impl Tracked {
	pub fn new(v: u32) -> Self {
		let id = LEDGER.with_borrow_mut(|l| {
			l.next += 1;
			l.made += 1;
			l.live.insert(l.next);
			l.next
		});
		Self {
			v,
			id,
			heap: ManuallyDrop::new(Box::new(id ^ MAGIC)),
		}
	}

	fn used(&self, what: &str) {
		let live = LEDGER.with_borrow(|l| l.live.contains(&self.id));
		if !live {
			error(format!("{what} of value {} (#{}) that was dropped", self.v, self.id))
		} else if **self.heap != self.id ^ MAGIC {
			error(format!("{what} of value {} (#{}) whose memory was overwritten", self.v, self.id))
		}
	}

	pub fn value(&self) -> u32 {
		self.used("use");
		self.v
	}
}

impl Clone for Tracked {
	fn clone(&self) -> Self {
		self.used("clone");
		fault(Fault::Clone);
		Self::new(self.v)
	}
}

impl Drop for Tracked {
	fn drop(&mut self) {
		let live = LEDGER.with_borrow_mut(|l| {
			l.dropped += 1;
			l.live.remove(&self.id)
		});
		if live {
			unsafe { ManuallyDrop::drop(&mut self.heap) }
		} else {
			error(format!("value {} (#{}) dropped twice", self.v, self.id))
		}
	}
}

impl PartialEq for Tracked {
	fn eq(&self, other: &Self) -> bool {
		self.used("comparison");
		other.used("comparison");
		fault(Fault::Compare);
		self.v == other.v
	}
}

impl Eq for Tracked {}

impl PartialOrd for Tracked {
	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
		Some(self.cmp(other))
	}
}

impl Ord for Tracked {
	fn cmp(&self, other: &Self) -> Ordering {
		self.used("comparison");
		other.used("comparison");
		COMPARES.set(COMPARES.get() + 1);
		fault(Fault::Compare);
		self.v.cmp(&other.v)
	}
}

impl Hash for Tracked {
	fn hash<H: Hasher>(&self, state: &mut H) {
		self.used("hash");
		fault(Fault::Hash);
		self.v.hash(state)
	}
}

impl std::fmt::Debug for Tracked {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "#{}", self.v)
	}
}

impl Elem for Tracked {
	const NAME: &'static str = "Tracked";
	fn nth(i: usize) -> Self {
		Tracked::new((i as u32).wrapping_mul(2654435761))
	}
}

/// Starts the accounting of a case on this thread.
pub fn reset() {
	ARMED.set(None);
	LEDGER.with_borrow_mut(|l| {
		l.live.clear();
		l.errors.clear();
		l.made = 0;
		l.dropped = 0;
	})
}

/// Number of values alive on this thread.
pub fn live() -> usize {
	LEDGER.with_borrow(|l| l.live.len())
}

/// Values made and dropped since the last reset.
pub fn totals() -> (u64, u64) {
	LEDGER.with_borrow(|l| (l.made, l.dropped))
}

pub fn compares() -> u64 {
	COMPARES.get()
}

/// First misuse observed since the last reset.
pub fn misuse() -> Option<String> {
	LEDGER.with_borrow(|l| l.errors.first().cloned())
}

pub fn arm(f: Fault, after: u64) {
	ARMED.set(Some((f, after)))
}

/// Disarms; tells if the fault was still pending.
pub fn disarm() -> bool {
	ARMED.take().is_some()
}

/// Allocator keeping, per thread, the number of live bytes and blocks.
pub struct Counting;

thread_local! {
	static BYTES: Cell<isize> = const { Cell::new(0) };
	static BLOCKS: Cell<isize> = const { Cell::new(0) };
	static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(bytes: isize, blocks: isize) {
	let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
	let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
	if blocks > 0 {
		let _ = CALLS.try_with(|b| b.set(b.get() + 1));
	}
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let p = System.alloc(l);
		if !p.is_null() {
			add(l.size() as isize, 1);
		}
		p
	}

	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let p = System.alloc_zeroed(l);
		if !p.is_null() {
			add(l.size() as isize, 1);
		}
		p
	}

	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		add(-(l.size() as isize), -1);
		System.dealloc(p, l)
	}

	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let q = System.realloc(p, l, n);
		if !q.is_null() {
			add(n as isize - l.size() as isize, 0);
		}
		q
	}
}

/// Live bytes and blocks allocated by this thread.
pub fn balance() -> (isize, isize) {
	(BYTES.get(), BLOCKS.get())
}

/// Allocations made by this thread.
pub fn allocations() -> u64 {
	CALLS.get()
}
