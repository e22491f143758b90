//! The monitors of the properties observed in one thread; see `harness::driver`.
use harness::driver::{run, Suite};
use harness::props;

#[global_allocator]
static ALLOCATOR: harness::track::Counting = harness::track::Counting;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	if args.first().is_some_and(|a| a == "--probe") {
		let n: Vec<usize> = args[1..].iter().filter_map(|a| a.parse().ok()).collect();
		std::process::exit(props::memory::probe(n[0], n[1], n[2] as u64));
	}
	run(Suite {
		workloads: props::workloads,
		rule: props::rule,
		assumptions: props::assumptions,
		probes: props::probes::probes,
		parallel: 8,
	})
}
