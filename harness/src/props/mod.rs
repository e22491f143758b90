//! The monitored properties.
use crate::common::{w, Workload};

pub mod containers;
pub mod cost;
pub mod interp;
pub mod iso;
pub mod memory;
pub mod patterns;
pub mod probes;
pub mod queries;
pub mod syntax;
pub mod terms;
#[cfg(feature = "uuid")]
pub mod uuids;

pub fn workloads(prop: &str) -> Option<Vec<Workload>> {
	use containers as c;
	Some(match prop {
		"C01" => vec![
			w("history", 4000, 60000, c::c01_history),
			w("enumerated", 32768, 32768, c::c01_enumerated),
			w("big", 24, 300, c::c01_big),
			w("huge", 8, 60, c::c01_huge),
		],
		"C02" => vec![
			w("history", 5000, 80000, c::c02_history),
			w("enumerated", 32768, 32768, c::c02_enumerated),
			w("big", 24, 300, c::c02_big),
			w("huge", 8, 60, c::c02_huge),
		],
		"C03" => vec![
			w("history", 5000, 80000, c::c03_history),
			w("enumerated", 32768, 32768, c::c03_enumerated),
			w("big", 24, 300, c::c03_big),
			w("huge", 4, 60, c::c03_huge),
		],
		"C04" => vec![
			w("history", 1500, 20000, c::c04_history),
			w("big", 16, 200, c::c04_big),
			w("huge", 2, 40, c::c04_huge),
		],
		"C05" => vec![
			w("history", 1500, 20000, c::c05_history),
			w("big", 16, 200, c::c05_big),
			w("huge", 1, 20, c::c05_huge),
		],
		"C06" => vec![
			w("extraction", 3000, 40000, c::c06_extraction),
			w("big", 60, 800, c::c06_big),
			w("history", 600, 10000, c::c06_history),
		],
		"C07" => vec![
			w("construct", 4000, 60000, c::c07_construct),
			w("more", 1000, 15000, c::c07_more),
			w("huge", 36, 400, c::c07_huge),
			w("history", 500, 8000, c::c07_history),
		],
		"C08" => vec![
			w("random", 12000, 300000, iso::c08_random),
			w("symmetric", 3000, 40000, iso::c08_symmetric),
			w("large", 600, 10000, iso::c08_large),
			w("ground", 3000, 40000, iso::c08_ground),
			w("deep", 24, 200, iso::c08_deep),
			w("wide", 240, 3000, iso::c08_wide),
		],
		"C09" => vec![
			w("random", 12000, 300000, iso::c09_random),
			w("symmetric", 3000, 40000, iso::c09_symmetric),
			w("large", 600, 10000, iso::c09_large),
			w("ground", 3000, 40000, iso::c09_ground),
			w("deep", 24, 200, iso::c09_deep),
			w("wide", 240, 3000, iso::c09_wide),
		],
		"C10" => vec![
			w("variables", 2744 * 4, 2744 * 4 * 4, patterns::c10_vars),
			w("optional", 384 * 4, 384 * 4 * 4, patterns::c10_opts),
		],
		"C11" => vec![
			w("enumerated", 36, 360, patterns::c11_enumerated),
			w("sequence", 40000, 600000, patterns::c11_sequence),
		],
		"C12" => vec![
			w("maps", 12000, 200000, patterns::c12_maps),
			w("big", 24, 400, patterns::c12_big),
		],
		"C13" => vec![
			w("code points", 1088, 1088, terms::c13_code_points),
			w("strings", 60000, 2000000, terms::c13_strings),
			w("integers", 256, 2048, terms::c13_integers),
		],
		"C14" => vec![
			w("code points", 1088, 1088, syntax::c14_code_points),
			w("terms", 12000, 300000, syntax::c14_terms),
			w("statements", 12000, 200000, syntax::c14_statements),
			w("containers", 3000, 40000, syntax::c14_containers),
		],
		"C17" => vec![
			w("terms", 4000, 80000, syntax::c17_terms),
			w("statements", 4000, 80000, syntax::c17_statements),
			w("containers", 2000, 30000, syntax::c17_containers),
			w("large", 16, 200, syntax::c17_large),
			w("input", 20000, 300000, syntax::c17_input),
		],
		"C15" => vec![
			w("blank", 6000, 100000, terms::c15_blank),
			w("literal", 6000, 100000, terms::c15_literal),
			w("term", 6000, 100000, terms::c15_term),
			w("statement", 5000, 80000, terms::c15_statement),
			w("partial", 20000, 200000, terms::c15_partial),
			w("spellings", 6000, 100000, terms::c15_spellings),
		],
		"C16" => vec![
			w("term", 30000, 600000, terms::c16_term),
			w("statement", 20000, 300000, terms::c16_statement),
		],
		"C18" => vec![
			w("draws", 30000, 600000, interp::c18_draws),
			w("exhaustion", 4000, 40000, interp::c18_exhaustion),
		],
		"C19" => vec![
			w("table", 12000, 200000, interp::c19_table),
			w("lexical", 20000, 300000, interp::c19_lexical),
		],
		"C20" => vec![
			w("histories", 1500, 30000, memory::c20_histories),
			w("values", 12000, 200000, memory::c20_values),
			w("faults", 20000, 400000, memory::c20_faults),
			w("deep", 3000, 40000, memory::c20_deep),
			w("patterns", 8000, 60000, memory::c20_patterns),
			// Every shape, setter and moment, whatever the tier.
			w("setter faults", 20 * 8 * 3, 20 * 8 * 3, memory::c20_setter_faults),
			w("balance", 4000, 60000, memory::c20_balance),
		],
		"C22" => vec![w("queries", 12000, 200000, queries::c22)],
		"C25" => vec![
			w("triple", 40000, 500000, terms::c25_triple),
			w("quad", 40000, 500000, terms::c25_quad),
			w("partial", 40000, 500000, terms::c15_partial),
		],
		"C21" => vec![
			w("compare", 40000, 600000, c::c21_compare),
			w("cross", 20000, 200000, c::c21_cross),
			w("huge", 120, 1500, c::c21_huge),
		],
		"C27" => vec![w("operations", 400, 8000, cost::c27)],
		_ => return None,
	})
}

/// How cases are made, and what makes one non-trivial.
pub fn rule(prop: &str) -> &'static str {
	match prop {
		"C01" | "C02" | "C03" => "Random histories (insert, remove, extend, clone, rebuild, convert, extract, remove graph) over 1-60 shared resources of 4 types on each container, all 8^5 short histories over 4 overlapping statements, and contents of thousands of statements; a situation is a distinct non-empty content audited (container, resource type, content).",
		"C04" | "C05" => "Canonical patterns of every shape, with given values present, absent or present in another role, matched against contents reached by random histories, some of tens of thousands of statements, and multi-patterns with lists of up to 300 resources; a situation is a distinct (shape, number of answers, content class) with a non-empty answer.",
		"C06" => "Extractions (complete or abandoned midway) and graph removals between random inserts and removals; a situation is a distinct (pattern shape, content size, yield, completion) with something to extract, or a distinct content audited afterwards.",
		"C07" => "Random statement lists with duplicates (a few of up to 9000 statements) turned into containers along every construction path, audited, then mutated and audited again; a situation is a distinct non-empty input list or audited content.",
		"C08" | "C09" => "Pairs of datasets over few blank nodes, IRIs and literals: renamed copies, copies with a small change, unrelated ones, symmetric structures with equal local views, larger ones, ones of a hundred or a thousand blank nodes compared within a small stack, ones whose blank nodes have up to 90 statements each among up to 900 ground statements, and ground ones, in every pair of containers and through integer resources named by a table; the expected verdict comes from trying every bijection; a situation is a distinct pair of non-empty statement sets.",
		"C10" => "Every quad and triple pattern over 3 resources and 4 variables, and every choice of optional components, with 4 resource types, converted and then read back through every accessor, borrowed, mapped, split, reduced and lifted; a situation is a distinct source pattern and resource type.",
		"C11" => "Every shape of triple pattern, every position and value, twice in a row, and random sequences of setters; a situation is a distinct (pattern, position, value).",
		"C12" => "Random sequences of insertions and merges on the pattern map and each of its submaps, looked up with every triple of the universe after each phase; a situation is a distinct lookup with a non-empty answer.",
		"C13" => "Every Unicode code point in every position of a label, random strings over an alphabet of boundary characters, and integers, given to each constructor and deserializer and compared with the documented grammar transcribed as tables; a situation is a distinct code point, string or number.",
		"C14" => "Every code point in a string, an IRI and a label, random terms with hostile text, statements over them and containers of them, displayed in every form and read by a parser of N-Quads written from its grammar; a situation is a distinct code point, term, statement or content displayed.",
		"C17" => "Random terms, statements and statement sequences (repeated, shuffled, of up to 4500 statements) written and read through serde_json text, readers and values and a strict format that checks announced lengths and reads in 48 manners (compact or by name, borrowed or owned, sized or not), and text near the grammar of identifiers or values of the wrong shape given to every deserializer; a situation is a distinct value or input text.",
		"C15" => "Pools of values with duplicates and near duplicates, compared pairwise in every mix of forms, checked for a total order, and looked up in ordered and hashed collections, also under other spellings of equal IRIs and tags; a situation is a distinct pair of values.",
		"C16" => "Random terms and statements read through every accessor and carried through random chains of conversions; a situation is a distinct term or statement.",
		"C18" => "Generators over many prefixes and offsets (powers of ten and two, near the maximum) drawn from through every interface in random interleavings, and generators close to exhaustion drawn past it, in builds with and without overflow checks; a situation is a distinct (prefix, offset) or (numbers left, interface).",
		"C19" => "Random insertions, aliases, questions and generations on the unit interpretation, generator-backed ones and a user-defined table that records what reaches its required methods, bare and wrapped; a situation is a distinct set of terms used.",
		"C20" => "Histories over resources whose every clone, comparison and drop is accounted for, containers consumed or extracted from up to a random point, panics injected in the comparison, cloning and hashing of resources, deep contents cloned and taken apart, and the balance of allocations over fixed histories; the same and all other workloads interpreted by Miri and run under AddressSanitizer; a situation is a distinct content accounted for, a distinct (container, operation, fault, moment) with the fault raised, or a distinct history balanced.",
		"C22" => "Random contents of the four containers and of user-defined datasets and graphs, seen as graphs and as datasets, asked every membership, listing and count query for resources present, absent or present elsewhere, and through the fallible interfaces; a situation is a distinct non-empty content queried.",
		"C25" => "Random triples and quads with components of different types put through every component operation, and compared when some components have no order; a situation is a distinct statement.",
		"C27" => "Contents of thousands of statements of several shapes, in several insertion orders and with vacated slots, on each container with resources that count their comparisons; every operation is metered; a situation is a distinct (container, operation, order of magnitude of the content, comparisons per statement concerned).",
		"C21" => "Pairs of containers whose equal, nearly equal or unrelated contents were reached by different histories, a few of up to 6000 statements; a situation is a distinct pair of non-empty contents.",
		_ => "Random cases; a situation is a distinct non-trivial input.",
	}
}

pub fn assumptions(_prop: &str) -> Vec<&'static str> {
	vec![
		"the reference model and the oracle in /verif/harness",
		"the standard library, iref, langtag and serde_json",
	]
}
