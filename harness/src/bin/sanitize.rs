//! `sanitize SEED SECONDS SPEC...` with SPEC = PROPERTY:WORKLOAD:START:COUNT
//!
//! Runs cases of several workloads in turn for an outside observer (Miri or
//! AddressSanitizer), until all are run or the time is up. The verdicts of the
//! cases themselves are not looked at.
use harness::common::*;
use harness::props;
use std::io::Write;
use std::time::Instant;

struct Spec {
	prop: String,
	w: Workload,
	start: u64,
	count: u64,
	ran: u64,
	evals: u64,
	distinct: usize,
	failed: u64,
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let seed: u64 = args[0].parse().expect("seed");
	let seconds: f64 = args[1].parse().expect("seconds");
	std::panic::set_hook(Box::new(|_| ()));
	let begin = Instant::now();
	let mut specs: Vec<Spec> = args[2..]
		.iter()
		.map(|spec| {
			let f: Vec<&str> = spec.split(':').collect();
			Spec {
				prop: f[0].to_owned(),
				w: props::workloads(f[0])
					.expect("property")
					.into_iter()
					.find(|w| w.name == f[1])
					.expect("workload"),
				start: f[2].parse().expect("start"),
				count: f[3].parse().expect("count"),
				ran: 0,
				evals: 0,
				distinct: 0,
				failed: 0,
			}
		})
		.collect();
	let most = specs.iter().map(|s| s.count).max().unwrap_or(0);
	'all: for k in 0..most {
		for s in &mut specs {
			if k >= s.count {
				continue;
			}
			if begin.elapsed().as_secs_f64() > seconds {
				break 'all;
			}
			let i = s.start + k;
			if cfg!(miri) || k % 64 == 0 {
				println!("CASE {}:{}:{i}", s.prop, s.w.name);
				let _ = std::io::stdout().flush();
			}
			let mut cx = Cx::new(case_seed(seed, &s.prop, s.w.name, i), i, false, false);
			s.failed += run_case(s.w.run, &mut cx).is_err() as u64;
			s.ran += 1;
			s.evals += cx.obs.evals;
			s.distinct += cx.obs.distinct.len();
		}
	}
	for s in &specs {
		println!(
			"RAN {}:{} {} {} {} {}",
			s.prop,
			s.w.name.replace(' ', "_"),
			s.ran,
			s.evals,
			s.distinct,
			s.failed
		);
	}
}
