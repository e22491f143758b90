//! Command line driver of the monitors.
use crate::common::*;
use std::time::Instant;

/// What a binary monitors.
pub struct Suite {
	pub workloads: fn(&str) -> Option<Vec<Workload>>,
	pub rule: fn(&str) -> &'static str,
	pub assumptions: fn(&str) -> Vec<&'static str>,
	/// Inputs on which the property is known not to hold, if listed as such.
	pub probes: fn(&str) -> &'static [crate::props::probes::Probe],
	/// Cases run at the same time, at most.
	pub parallel: usize,
}

/// `PROPERTY [--tier quick|thorough] [--seed N] [--case WORKLOAD:INDEX] [--div N]`
///
/// Runs the workloads of a property under its monitors. Exit 0: held on
/// everything observed. Exit 1 and a VIOLATION line: violated. Exit 2: error or
/// inconclusive.
pub fn run(suite: Suite) {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let get = |k: &str| {
		args.iter()
			.position(|a| a == k)
			.and_then(|i| args.get(i + 1).cloned())
	};
	let prop = args.first().cloned().unwrap_or_default();
	let thorough = get("--tier").as_deref() == Some("thorough");
	let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
	let cap: f64 = get("--cap")
		.and_then(|s| s.parse().ok())
		.unwrap_or(if thorough { 3000.0 } else { 240.0 });
	let out = get("--out").unwrap_or_else(|| "/verif/evidence".to_owned());
	let replays = get("--replays").unwrap_or_else(|| "/verif/replays".to_owned());
	let Some(mut workloads) = (suite.workloads)(&prop) else {
		eprintln!("unknown property {prop}");
		std::process::exit(2)
	};

	if let Some(div) = get("--div").and_then(|s| s.parse::<u64>().ok()) {
		for w in &mut workloads {
			w.quick = (w.quick / div).max(1);
			w.thorough = (w.thorough / div).max(1);
		}
	}

	// Panics of the code under test are observed by the runner.
	if std::env::var_os("MONITOR_BACKTRACE").is_none() { std::panic::set_hook(Box::new(|_| ())); }

	if let Some(case) = get("--case") {
		let (wn, i) = case.split_once(':').expect("WORKLOAD:INDEX");
		let i: u64 = i.parse().expect("index");
		if wn == "probe" {
			let (what, probe) = (suite.probes)(&prop)[i as usize];
			match crate::common::no_panic(what, probe).and_then(|r| r) {
				Ok(()) => println!("held: {what}"),
				Err(e) => {
					println!("violated: {what}: {e}");
					std::process::exit(1)
				}
			}
			return;
		}
		let w = workloads
			.iter()
			.find(|w| w.name == wn)
			.expect("unknown workload");
		let mut cx = Cx::new(case_seed(seed, &prop, w.name, i), i, thorough, true);
		let r = run_case(w.run, &mut cx);
		for l in &cx.trace {
			println!("{l}");
		}
		match r {
			Ok(()) => println!("held"),
			Err(e) => {
				println!("violated: {e}");
				std::process::exit(1)
			}
		}
		return;
	}

	let start = Instant::now();
	let replay_path = format!("{replays}/{prop}-seed{seed}.txt");
	let report = |workload: &str, index: u64, message: &str, trace: &[String]| {
		let _ = std::fs::create_dir_all(&replays);
		let mut text = format!(
			"property: {prop}\nworkload: {workload}\ncase: {index}\nseed: {seed}\nreplay: monitor {prop} --seed {seed} --tier {} --case {workload}:{index}\nviolation: {message}\n\ntrace:\n",
			if thorough { "thorough" } else { "quick" },
		);
		for l in trace {
			text.push_str(l);
			text.push('\n');
		}
		let _ = std::fs::write(&replay_path, text);
		let mut m = message.to_owned();
		if m.len() > 1500 {
			let mut n = 1500;
			while !m.is_char_boundary(n) {
				n -= 1
			}
			m.truncate(n);
		}
		println!("{prop} {workload}:{index}: {m}");
		println!("VIOLATION property={prop} replay={replay_path}");
	};
	let on_stuck = |workload: &'static str, index: u64| {
		report(
			workload,
			index,
			"a call does not return: 120 s of CPU time spent on a case that takes milliseconds",
			&[],
		);
		std::process::exit(1)
	};
	let threads = std::thread::available_parallelism()
		.map(|n| n.get())
		.unwrap_or(4)
		.clamp(2, 8)
		.min(suite.parallel);
	let mut outcome = run_workloads(&prop, &workloads, seed, thorough, threads, cap, &on_stuck);

	// Inputs that may be listed as known findings.
	let known_file = get("--known").unwrap_or_else(|| "/verif/known_findings.txt".to_owned());
	let listed = std::fs::read_to_string(known_file).unwrap_or_default();
	let mut known = Vec::new();
	for (i, (what, probe)) in (suite.probes)(&prop).iter().enumerate() {
		outcome.obs.evals += 1;
		let Err(message) = crate::common::no_panic(what, *probe).and_then(|r| r) else {
			continue;
		};
		let line = format!("known: property={prop} {what}");
		if listed.lines().any(|l| l.split(" | ").next() == Some(line.as_str())) {
			println!("KNOWN-FINDING: property={prop} {what}: {message}");
			known.push(format!("{what}: {message}"));
		} else if outcome.violation.is_none() {
			outcome.violation = Some(Violation {
				workload: "probe",
				index: i as u64,
				message: format!("{what}: {message}"),
				trace: Vec::new(),
			})
		}
	}

	// A run that observed nothing decides nothing.
	if outcome.violation.is_none() && (outcome.obs.evals == 0 || outcome.obs.distinct.is_empty()) {
		eprintln!("{prop}: inconclusive, nothing was observed");
		std::process::exit(2)
	}

	let counters: serde_json::Map<String, serde_json::Value> = outcome
		.obs
		.counters
		.iter()
		.map(|(k, v)| (k.to_string(), (*v).into()))
		.collect();
	let evidence = serde_json::json!({
		"property": prop,
		"tier": if thorough { "thorough" } else { "quick" },
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": outcome.obs.evals,
			"cases": outcome.cases,
			"distinct_nontrivial": outcome.obs.distinct.len(),
			"rule": (suite.rule)(&prop),
			"samples": outcome.obs.samples,
			"distinct_counted_up_to": DISTINCT_CAP,
			"events": counters,
			"cases_planned": outcome.planned,
			"workloads": workloads.iter().map(|w| w.name).collect::<Vec<_>>(),
			"threads": threads,
			"known_findings": known,
		},
		"assumptions": (suite.assumptions)(&prop),
		"wall_s": start.elapsed().as_secs_f64(),
		"violations": outcome.violation.is_some() as u32,
	});
	let _ = std::fs::create_dir_all(&out);
	let path = format!("{out}/{prop}.json");
	if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()) {
		eprintln!("cannot write {path}: {e}");
		std::process::exit(2)
	}

	match outcome.violation {
		Some(v) => {
			report(v.workload, v.index, &v.message, &v.trace);
			std::process::exit(1)
		}
		None => println!(
			"{prop} held: {} cases, {} oracle checks, {} distinct situations, {:.1} s",
			outcome.cases,
			outcome.obs.evals,
			outcome.obs.distinct.len(),
			start.elapsed().as_secs_f64()
		),
	}
}
