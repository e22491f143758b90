//! The monitor of the UUID generators, which need a feature of the library.
use harness::driver::{run, Suite};
use harness::props::uuids;

fn main() {
	run(Suite {
		workloads: uuids::workloads,
		rule: uuids::rule,
		assumptions: uuids::assumptions,
		probes: |_| &[],
		parallel: 8,
	})
}
