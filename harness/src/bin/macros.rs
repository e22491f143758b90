// Written by tools/mkmacros.py.
//! C23: the statement macros, used with every combination of term kinds in every
//! position, against the statements spelled.
#![allow(clippy::all)]
#![recursion_limit = "4096"]
use harness::mterm::*;
use rdf_types::pattern::ResourceOrVar;
use rdf_types::{LocalTerm, Quad, Triple};
use rdf_types::{grdf_quad, grdf_quad_pattern, grdf_quads, grdf_triple, grdf_triples};

const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";

#[derive(Clone, PartialEq, Eq, Debug)]
enum PT {
	R(MT),
	V(usize),
}
use PT::V;

fn b(s: &str) -> MT {
	MT::Blank(s.to_owned())
}
fn i(s: &str) -> MT {
	MT::Iri(s.to_owned())
}
fn l(s: &str, t: &str) -> MT {
	MT::Lit(s.to_owned(), MTy::Any(t.to_owned()))
}
#[allow(non_snake_case)]
fn R(t: MT) -> PT {
	PT::R(t)
}
fn var(s: &str) -> rdf_types::IriBuf {
	harness::elem::iri(s)
}

type PSt = (PT, PT, PT, Option<PT>);

fn pt(t: &ResourceOrVar<LocalTerm, usize>) -> PT {
	match t {
		ResourceOrVar::Resource(r) => PT::R(local_of(r)),
		ResourceOrVar::Var(x) => PT::V(*x),
	}
}

struct Checks {
	uses: usize,
	statements: usize,
	kinds: std::collections::BTreeMap<&'static str, usize>,
	samples: Vec<String>,
}

impl Checks {
	fn fail(&self, what: &str, source: &str, got: &dyn std::fmt::Debug, expected: &dyn std::fmt::Debug) -> ! {
		println!("{what}! [ {source} ] is {got:?} instead of {expected:?}");
		std::process::exit(1)
	}

	fn used(&mut self, what: &'static str, source: &str, n: usize) {
		self.uses += 1;
		self.statements += n;
		let k = self.kinds.entry(what).or_default();
		*k += 1;
		if *k % 400 == 7 {
			self.samples.push(format!("{what}! [ {source} ]"))
		}
	}

	fn triple(&mut self, source: &str, got: Triple, e: (MT, MT, MT)) {
		self.used("grdf_triple", source, 1);
		let got = (local_of(&got.0), local_of(&got.1), local_of(&got.2));
		if got != e {
			self.fail("grdf_triple", source, &got, &e)
		}
	}

	fn quad(&mut self, source: &str, got: Quad, e: MSt) {
		self.used("grdf_quad", source, 1);
		let got = st_of_local(got.as_ref());
		if got != e {
			self.fail("grdf_quad", source, &got, &e)
		}
	}

	fn pattern(&mut self, source: &str, got: Quad<ResourceOrVar<LocalTerm, usize>>, e: PSt) {
		self.used("grdf_quad_pattern", source, 1);
		let got = (pt(&got.0), pt(&got.1), pt(&got.2), got.3.as_ref().map(pt));
		if got != e {
			self.fail("grdf_quad_pattern", source, &got, &e)
		}
	}

	fn triples(&mut self, source: &str, got: &[Triple], e: &[(MT, MT, MT)]) {
		self.used("grdf_triples", source, got.len());
		let got: Vec<_> = got.iter().map(|t| (local_of(&t.0), local_of(&t.1), local_of(&t.2))).collect();
		if got != e {
			self.fail("grdf_triples", source, &got, &e)
		}
	}

	fn quads(&mut self, source: &str, got: &[Quad], e: &[MSt]) {
		self.used("grdf_quads", source, got.len());
		let got: Vec<_> = got.iter().map(|q| st_of_local(q.as_ref())).collect();
		if got != e {
			self.fail("grdf_quads", source, &got, &e)
		}
	}
}

fn triples_all_0(c: &mut Checks) {
	{ c.triple(r##"_:"n0" _:"n1" _:"n2""##, grdf_triple![_:"n0" _:"n1" _:"n2"], (b("_:n0"), b("_:n1"), b("_:n2"))); }
	{ c.triple(r##"_:"n0" _:"n1" <"http://e.org/i2">"##, grdf_triple![_:"n0" _:"n1" <"http://e.org/i2">], (b("_:n0"), b("_:n1"), i("http://e.org/i2"))); }
	{ c.triple(r##"_:"n0" _:"n1" "text 2""##, grdf_triple![_:"n0" _:"n1" "text 2"], (b("_:n0"), b("_:n1"), l("text 2", XSD))); }
	{ c.triple(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_triple![_:"n0" _:"n1" "value 2"^^"http://e.org/t2"], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"_:"n0" _:"n1" v2"##, grdf_triple![_:"n0" _:"n1" v2], (b("_:n0"), b("_:n1"), i("http://e.org/v2"))); }
	{ c.triple(r##"_:"n0" <"http://e.org/i1"> _:"n2""##, grdf_triple![_:"n0" <"http://e.org/i1"> _:"n2"], (b("_:n0"), i("http://e.org/i1"), b("_:n2"))); }
	{ c.triple(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_triple![_:"n0" <"http://e.org/i1"> <"http://e.org/i2">], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"))); }
	{ c.triple(r##"_:"n0" <"http://e.org/i1"> "text 2""##, grdf_triple![_:"n0" <"http://e.org/i1"> "text 2"], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD))); }
	{ c.triple(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_triple![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"_:"n0" <"http://e.org/i1"> v2"##, grdf_triple![_:"n0" <"http://e.org/i1"> v2], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"))); }
	{ c.triple(r##"_:"n0" "text 1" _:"n2""##, grdf_triple![_:"n0" "text 1" _:"n2"], (b("_:n0"), l("text 1", XSD), b("_:n2"))); }
	{ c.triple(r##"_:"n0" "text 1" <"http://e.org/i2">"##, grdf_triple![_:"n0" "text 1" <"http://e.org/i2">], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"))); }
	{ c.triple(r##"_:"n0" "text 1" "text 2""##, grdf_triple![_:"n0" "text 1" "text 2"], (b("_:n0"), l("text 1", XSD), l("text 2", XSD))); }
	{ c.triple(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_triple![_:"n0" "text 1" "value 2"^^"http://e.org/t2"], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"_:"n0" "text 1" v2"##, grdf_triple![_:"n0" "text 1" v2], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"))); }
	{ c.triple(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_triple![_:"n0" "value 1"^^"http://e.org/t1" _:"n2"], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"))); }
	{ c.triple(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_triple![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"))); }
	{ c.triple(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_triple![_:"n0" "value 1"^^"http://e.org/t1" "text 2"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD))); }
	{ c.triple(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_triple![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"_:"n0" "value 1"^^"http://e.org/t1" v2"##, grdf_triple![_:"n0" "value 1"^^"http://e.org/t1" v2], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"_:"n0" v1 _:"n2""##, grdf_triple![_:"n0" v1 _:"n2"], (b("_:n0"), i("http://e.org/v1"), b("_:n2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"_:"n0" v1 <"http://e.org/i2">"##, grdf_triple![_:"n0" v1 <"http://e.org/i2">], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"_:"n0" v1 "text 2""##, grdf_triple![_:"n0" v1 "text 2"], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"_:"n0" v1 "value 2"^^"http://e.org/t2""##, grdf_triple![_:"n0" v1 "value 2"^^"http://e.org/t2"], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.triple(r##"_:"n0" v1 v2"##, grdf_triple![_:"n0" v1 v2], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"))); }
	{ c.triple(r##"<"http://e.org/i0"> _:"n1" _:"n2""##, grdf_triple![<"http://e.org/i0"> _:"n1" _:"n2"], (i("http://e.org/i0"), b("_:n1"), b("_:n2"))); }
	{ c.triple(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2">"##, grdf_triple![<"http://e.org/i0"> _:"n1" <"http://e.org/i2">], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"))); }
	{ c.triple(r##"<"http://e.org/i0"> _:"n1" "text 2""##, grdf_triple![<"http://e.org/i0"> _:"n1" "text 2"], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD))); }
	{ c.triple(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2""##, grdf_triple![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"<"http://e.org/i0"> _:"n1" v2"##, grdf_triple![<"http://e.org/i0"> _:"n1" v2], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"))); }
	{ c.triple(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2""##, grdf_triple![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2"], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"))); }
	{ c.triple(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_triple![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2">], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"))); }
	{ c.triple(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2""##, grdf_triple![<"http://e.org/i0"> <"http://e.org/i1"> "text 2"], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD))); }
	{ c.triple(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_triple![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2"##, grdf_triple![<"http://e.org/i0"> <"http://e.org/i1"> v2], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"))); }
	{ c.triple(r##"<"http://e.org/i0"> "text 1" _:"n2""##, grdf_triple![<"http://e.org/i0"> "text 1" _:"n2"], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"))); }
	{ c.triple(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2">"##, grdf_triple![<"http://e.org/i0"> "text 1" <"http://e.org/i2">], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"))); }
	{ c.triple(r##"<"http://e.org/i0"> "text 1" "text 2""##, grdf_triple![<"http://e.org/i0"> "text 1" "text 2"], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD))); }
	{ c.triple(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2""##, grdf_triple![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"<"http://e.org/i0"> "text 1" v2"##, grdf_triple![<"http://e.org/i0"> "text 1" v2], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"))); }
	{ c.triple(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2""##, grdf_triple![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"))); }
	{ c.triple(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_triple![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"))); }
	{ c.triple(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2""##, grdf_triple![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD))); }
	{ c.triple(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_triple![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2"##, grdf_triple![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"<"http://e.org/i0"> v1 _:"n2""##, grdf_triple![<"http://e.org/i0"> v1 _:"n2"], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"<"http://e.org/i0"> v1 <"http://e.org/i2">"##, grdf_triple![<"http://e.org/i0"> v1 <"http://e.org/i2">], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"<"http://e.org/i0"> v1 "text 2""##, grdf_triple![<"http://e.org/i0"> v1 "text 2"], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2""##, grdf_triple![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.triple(r##"<"http://e.org/i0"> v1 v2"##, grdf_triple![<"http://e.org/i0"> v1 v2], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"))); }
	{ c.triple(r##""text 0" _:"n1" _:"n2""##, grdf_triple!["text 0" _:"n1" _:"n2"], (l("text 0", XSD), b("_:n1"), b("_:n2"))); }
	{ c.triple(r##""text 0" _:"n1" <"http://e.org/i2">"##, grdf_triple!["text 0" _:"n1" <"http://e.org/i2">], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"))); }
	{ c.triple(r##""text 0" _:"n1" "text 2""##, grdf_triple!["text 0" _:"n1" "text 2"], (l("text 0", XSD), b("_:n1"), l("text 2", XSD))); }
	{ c.triple(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_triple!["text 0" _:"n1" "value 2"^^"http://e.org/t2"], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""text 0" _:"n1" v2"##, grdf_triple!["text 0" _:"n1" v2], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"))); }
	{ c.triple(r##""text 0" <"http://e.org/i1"> _:"n2""##, grdf_triple!["text 0" <"http://e.org/i1"> _:"n2"], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"))); }
	{ c.triple(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_triple!["text 0" <"http://e.org/i1"> <"http://e.org/i2">], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"))); }
	{ c.triple(r##""text 0" <"http://e.org/i1"> "text 2""##, grdf_triple!["text 0" <"http://e.org/i1"> "text 2"], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD))); }
	{ c.triple(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_triple!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""text 0" <"http://e.org/i1"> v2"##, grdf_triple!["text 0" <"http://e.org/i1"> v2], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"))); }
}

fn triples_all_1(c: &mut Checks) {
	{ c.triple(r##""text 0" "text 1" _:"n2""##, grdf_triple!["text 0" "text 1" _:"n2"], (l("text 0", XSD), l("text 1", XSD), b("_:n2"))); }
	{ c.triple(r##""text 0" "text 1" <"http://e.org/i2">"##, grdf_triple!["text 0" "text 1" <"http://e.org/i2">], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"))); }
	{ c.triple(r##""text 0" "text 1" "text 2""##, grdf_triple!["text 0" "text 1" "text 2"], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD))); }
	{ c.triple(r##""text 0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_triple!["text 0" "text 1" "value 2"^^"http://e.org/t2"], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""text 0" "text 1" v2"##, grdf_triple!["text 0" "text 1" v2], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"))); }
	{ c.triple(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_triple!["text 0" "value 1"^^"http://e.org/t1" _:"n2"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"))); }
	{ c.triple(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_triple!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"))); }
	{ c.triple(r##""text 0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_triple!["text 0" "value 1"^^"http://e.org/t1" "text 2"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD))); }
	{ c.triple(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_triple!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""text 0" "value 1"^^"http://e.org/t1" v2"##, grdf_triple!["text 0" "value 1"^^"http://e.org/t1" v2], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""text 0" v1 _:"n2""##, grdf_triple!["text 0" v1 _:"n2"], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""text 0" v1 <"http://e.org/i2">"##, grdf_triple!["text 0" v1 <"http://e.org/i2">], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""text 0" v1 "text 2""##, grdf_triple!["text 0" v1 "text 2"], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""text 0" v1 "value 2"^^"http://e.org/t2""##, grdf_triple!["text 0" v1 "value 2"^^"http://e.org/t2"], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.triple(r##""text 0" v1 v2"##, grdf_triple!["text 0" v1 v2], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2""##, grdf_triple!["value 0"^^"http://e.org/t0" _:"n1" _:"n2"], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2">"##, grdf_triple!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2""##, grdf_triple!["value 0"^^"http://e.org/t0" _:"n1" "text 2"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_triple!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""value 0"^^"http://e.org/t0" _:"n1" v2"##, grdf_triple!["value 0"^^"http://e.org/t0" _:"n1" v2], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2""##, grdf_triple!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_triple!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2""##, grdf_triple!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_triple!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2"##, grdf_triple!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2""##, grdf_triple!["value 0"^^"http://e.org/t0" "text 1" _:"n2"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2">"##, grdf_triple!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "text 1" "text 2""##, grdf_triple!["value 0"^^"http://e.org/t0" "text 1" "text 2"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_triple!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""value 0"^^"http://e.org/t0" "text 1" v2"##, grdf_triple!["value 0"^^"http://e.org/t0" "text 1" v2], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_triple!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_triple!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_triple!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD))); }
	{ c.triple(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_triple!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"))); }
	{ let v2 = (var("http://e.org/v2")); c.triple(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2"##, grdf_triple!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""value 0"^^"http://e.org/t0" v1 _:"n2""##, grdf_triple!["value 0"^^"http://e.org/t0" v1 _:"n2"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2">"##, grdf_triple!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""value 0"^^"http://e.org/t0" v1 "text 2""##, grdf_triple!["value 0"^^"http://e.org/t0" v1 "text 2"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD))); }
	{ let v1 = (var("http://e.org/v1")); c.triple(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2""##, grdf_triple!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.triple(r##""value 0"^^"http://e.org/t0" v1 v2"##, grdf_triple!["value 0"^^"http://e.org/t0" v1 v2], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 _:"n1" _:"n2""##, grdf_triple![v0 _:"n1" _:"n2"], (i("http://e.org/v0"), b("_:n1"), b("_:n2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 _:"n1" <"http://e.org/i2">"##, grdf_triple![v0 _:"n1" <"http://e.org/i2">], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 _:"n1" "text 2""##, grdf_triple![v0 _:"n1" "text 2"], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 _:"n1" "value 2"^^"http://e.org/t2""##, grdf_triple![v0 _:"n1" "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.triple(r##"v0 _:"n1" v2"##, grdf_triple![v0 _:"n1" v2], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 <"http://e.org/i1"> _:"n2""##, grdf_triple![v0 <"http://e.org/i1"> _:"n2"], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_triple![v0 <"http://e.org/i1"> <"http://e.org/i2">], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 <"http://e.org/i1"> "text 2""##, grdf_triple![v0 <"http://e.org/i1"> "text 2"], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_triple![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.triple(r##"v0 <"http://e.org/i1"> v2"##, grdf_triple![v0 <"http://e.org/i1"> v2], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "text 1" _:"n2""##, grdf_triple![v0 "text 1" _:"n2"], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "text 1" <"http://e.org/i2">"##, grdf_triple![v0 "text 1" <"http://e.org/i2">], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "text 1" "text 2""##, grdf_triple![v0 "text 1" "text 2"], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "text 1" "value 2"^^"http://e.org/t2""##, grdf_triple![v0 "text 1" "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.triple(r##"v0 "text 1" v2"##, grdf_triple![v0 "text 1" v2], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "value 1"^^"http://e.org/t1" _:"n2""##, grdf_triple![v0 "value 1"^^"http://e.org/t1" _:"n2"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_triple![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "value 1"^^"http://e.org/t1" "text 2""##, grdf_triple![v0 "value 1"^^"http://e.org/t1" "text 2"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD))); }
	{ let v0 = (var("http://e.org/v0")); c.triple(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_triple![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.triple(r##"v0 "value 1"^^"http://e.org/t1" v2"##, grdf_triple![v0 "value 1"^^"http://e.org/t1" v2], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"))); }
}

fn triples_all_2(c: &mut Checks) {
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.triple(r##"v0 v1 _:"n2""##, grdf_triple![v0 v1 _:"n2"], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.triple(r##"v0 v1 <"http://e.org/i2">"##, grdf_triple![v0 v1 <"http://e.org/i2">], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.triple(r##"v0 v1 "text 2""##, grdf_triple![v0 v1 "text 2"], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.triple(r##"v0 v1 "value 2"^^"http://e.org/t2""##, grdf_triple![v0 v1 "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.triple(r##"v0 v1 v2"##, grdf_triple![v0 v1 v2], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"))); }
}

fn quads_all_0(c: &mut Checks) {
	{ c.quad(r##"_:"n0" _:"n1" _:"n2""##, grdf_quad![_:"n0" _:"n1" _:"n2"], (b("_:n0"), b("_:n1"), b("_:n2"), None)); }
	{ c.quad(r##"_:"n0" _:"n1" <"http://e.org/i2">"##, grdf_quad![_:"n0" _:"n1" <"http://e.org/i2">], (b("_:n0"), b("_:n1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##"_:"n0" _:"n1" "text 2""##, grdf_quad![_:"n0" _:"n1" "text 2"], (b("_:n0"), b("_:n1"), l("text 2", XSD), None)); }
	{ c.quad(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad![_:"n0" _:"n1" "value 2"^^"http://e.org/t2"], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" _:"n1" v2"##, grdf_quad![_:"n0" _:"n1" v2], (b("_:n0"), b("_:n1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> _:"n2""##, grdf_quad![_:"n0" <"http://e.org/i1"> _:"n2"], (b("_:n0"), i("http://e.org/i1"), b("_:n2"), None)); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad![_:"n0" <"http://e.org/i1"> <"http://e.org/i2">], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "text 2""##, grdf_quad![_:"n0" <"http://e.org/i1"> "text 2"], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD), None)); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" <"http://e.org/i1"> v2"##, grdf_quad![_:"n0" <"http://e.org/i1"> v2], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##"_:"n0" "text 1" _:"n2""##, grdf_quad![_:"n0" "text 1" _:"n2"], (b("_:n0"), l("text 1", XSD), b("_:n2"), None)); }
	{ c.quad(r##"_:"n0" "text 1" <"http://e.org/i2">"##, grdf_quad![_:"n0" "text 1" <"http://e.org/i2">], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"), None)); }
	{ c.quad(r##"_:"n0" "text 1" "text 2""##, grdf_quad![_:"n0" "text 1" "text 2"], (b("_:n0"), l("text 1", XSD), l("text 2", XSD), None)); }
	{ c.quad(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad![_:"n0" "text 1" "value 2"^^"http://e.org/t2"], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "text 1" v2"##, grdf_quad![_:"n0" "text 1" v2], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"), None)); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" _:"n2"], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"), None)); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "text 2"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None)); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" v2"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" v2], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 _:"n2""##, grdf_quad![_:"n0" v1 _:"n2"], (b("_:n0"), i("http://e.org/v1"), b("_:n2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 <"http://e.org/i2">"##, grdf_quad![_:"n0" v1 <"http://e.org/i2">], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "text 2""##, grdf_quad![_:"n0" v1 "text 2"], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "value 2"^^"http://e.org/t2""##, grdf_quad![_:"n0" v1 "value 2"^^"http://e.org/t2"], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" v1 v2"##, grdf_quad![_:"n0" v1 v2], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" _:"n2""##, grdf_quad![<"http://e.org/i0"> _:"n1" _:"n2"], (i("http://e.org/i0"), b("_:n1"), b("_:n2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2">"##, grdf_quad![<"http://e.org/i0"> _:"n1" <"http://e.org/i2">], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "text 2""##, grdf_quad![<"http://e.org/i0"> _:"n1" "text 2"], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD), None)); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> _:"n1" v2"##, grdf_quad![<"http://e.org/i0"> _:"n1" v2], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2"], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2">], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "text 2"], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), None)); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> v2], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" _:"n2""##, grdf_quad![<"http://e.org/i0"> "text 1" _:"n2"], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2">"##, grdf_quad![<"http://e.org/i0"> "text 1" <"http://e.org/i2">], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "text 2""##, grdf_quad![<"http://e.org/i0"> "text 1" "text 2"], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "text 1" v2"##, grdf_quad![<"http://e.org/i0"> "text 1" v2], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None)); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 _:"n2""##, grdf_quad![<"http://e.org/i0"> v1 _:"n2"], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 <"http://e.org/i2">"##, grdf_quad![<"http://e.org/i0"> v1 <"http://e.org/i2">], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "text 2""##, grdf_quad![<"http://e.org/i0"> v1 "text 2"], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2""##, grdf_quad![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2"], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> v1 v2"##, grdf_quad![<"http://e.org/i0"> v1 v2], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##""text 0" _:"n1" _:"n2""##, grdf_quad!["text 0" _:"n1" _:"n2"], (l("text 0", XSD), b("_:n1"), b("_:n2"), None)); }
	{ c.quad(r##""text 0" _:"n1" <"http://e.org/i2">"##, grdf_quad!["text 0" _:"n1" <"http://e.org/i2">], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##""text 0" _:"n1" "text 2""##, grdf_quad!["text 0" _:"n1" "text 2"], (l("text 0", XSD), b("_:n1"), l("text 2", XSD), None)); }
	{ c.quad(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad!["text 0" _:"n1" "value 2"^^"http://e.org/t2"], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" _:"n1" v2"##, grdf_quad!["text 0" _:"n1" v2], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> _:"n2""##, grdf_quad!["text 0" <"http://e.org/i1"> _:"n2"], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"), None)); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad!["text 0" <"http://e.org/i1"> <"http://e.org/i2">], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "text 2""##, grdf_quad!["text 0" <"http://e.org/i1"> "text 2"], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD), None)); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" <"http://e.org/i1"> v2"##, grdf_quad!["text 0" <"http://e.org/i1"> v2], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"), None)); }
}

fn quads_all_1(c: &mut Checks) {
	{ c.quad(r##""text 0" "text 1" _:"n2""##, grdf_quad!["text 0" "text 1" _:"n2"], (l("text 0", XSD), l("text 1", XSD), b("_:n2"), None)); }
	{ c.quad(r##""text 0" "text 1" <"http://e.org/i2">"##, grdf_quad!["text 0" "text 1" <"http://e.org/i2">], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), None)); }
	{ c.quad(r##""text 0" "text 1" "text 2""##, grdf_quad!["text 0" "text 1" "text 2"], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD), None)); }
	{ c.quad(r##""text 0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad!["text 0" "text 1" "value 2"^^"http://e.org/t2"], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "text 1" v2"##, grdf_quad!["text 0" "text 1" v2], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), None)); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" _:"n2"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"), None)); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "text 2"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), None)); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" v2"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" v2], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 _:"n2""##, grdf_quad!["text 0" v1 _:"n2"], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 <"http://e.org/i2">"##, grdf_quad!["text 0" v1 <"http://e.org/i2">], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "text 2""##, grdf_quad!["text 0" v1 "text 2"], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "value 2"^^"http://e.org/t2""##, grdf_quad!["text 0" v1 "value 2"^^"http://e.org/t2"], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" v1 v2"##, grdf_quad!["text 0" v1 v2], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" _:"n2"], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2">"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "text 2"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" v2"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" v2], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" _:"n2"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2">"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "text 2""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "text 2"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" v2"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" v2], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None)); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 _:"n2""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 _:"n2"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2">"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "text 2""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "text 2"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD), None)); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" v1 v2"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 v2], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" _:"n2""##, grdf_quad![v0 _:"n1" _:"n2"], (i("http://e.org/v0"), b("_:n1"), b("_:n2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" <"http://e.org/i2">"##, grdf_quad![v0 _:"n1" <"http://e.org/i2">], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "text 2""##, grdf_quad![v0 _:"n1" "text 2"], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad![v0 _:"n1" "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 _:"n1" v2"##, grdf_quad![v0 _:"n1" v2], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> _:"n2""##, grdf_quad![v0 <"http://e.org/i1"> _:"n2"], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad![v0 <"http://e.org/i1"> <"http://e.org/i2">], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "text 2""##, grdf_quad![v0 <"http://e.org/i1"> "text 2"], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 <"http://e.org/i1"> v2"##, grdf_quad![v0 <"http://e.org/i1"> v2], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" _:"n2""##, grdf_quad![v0 "text 1" _:"n2"], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" <"http://e.org/i2">"##, grdf_quad![v0 "text 1" <"http://e.org/i2">], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "text 2""##, grdf_quad![v0 "text 1" "text 2"], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad![v0 "text 1" "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "text 1" v2"##, grdf_quad![v0 "text 1" v2], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" _:"n2"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "text 2"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None)); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" v2"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" v2], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), None)); }
}

fn quads_all_2(c: &mut Checks) {
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 _:"n2""##, grdf_quad![v0 v1 _:"n2"], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 <"http://e.org/i2">"##, grdf_quad![v0 v1 <"http://e.org/i2">], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "text 2""##, grdf_quad![v0 v1 "text 2"], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), None)); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "value 2"^^"http://e.org/t2""##, grdf_quad![v0 v1 "value 2"^^"http://e.org/t2"], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), None)); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 v1 v2"##, grdf_quad![v0 v1 v2], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"), None)); }
	{ c.quad(r##"_:"n0" _:"n1" _:"n2" _:"n3""##, grdf_quad![_:"n0" _:"n1" _:"n2" _:"n3"], (b("_:n0"), b("_:n1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad![_:"n0" _:"n1" _:"n2" <"http://e.org/i3">], (b("_:n0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" _:"n1" _:"n2" "text 3""##, grdf_quad![_:"n0" _:"n1" _:"n2" "text 3"], (b("_:n0"), b("_:n1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (b("_:n0"), b("_:n1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" _:"n1" _:"n2" v3"##, grdf_quad![_:"n0" _:"n1" _:"n2" v3], (b("_:n0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad![_:"n0" _:"n1" <"http://e.org/i2"> _:"n3"], (b("_:n0"), b("_:n1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![_:"n0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (b("_:n0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad![_:"n0" _:"n1" <"http://e.org/i2"> "text 3"], (b("_:n0"), b("_:n1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (b("_:n0"), b("_:n1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" _:"n1" <"http://e.org/i2"> v3"##, grdf_quad![_:"n0" _:"n1" <"http://e.org/i2"> v3], (b("_:n0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" _:"n1" "text 2" _:"n3""##, grdf_quad![_:"n0" _:"n1" "text 2" _:"n3"], (b("_:n0"), b("_:n1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad![_:"n0" _:"n1" "text 2" <"http://e.org/i3">], (b("_:n0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" _:"n1" "text 2" "text 3""##, grdf_quad![_:"n0" _:"n1" "text 2" "text 3"], (b("_:n0"), b("_:n1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (b("_:n0"), b("_:n1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" _:"n1" "text 2" v3"##, grdf_quad![_:"n0" _:"n1" "text 2" v3], (b("_:n0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" v3], (b("_:n0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" _:"n1" v2 _:"n3""##, grdf_quad![_:"n0" _:"n1" v2 _:"n3"], (b("_:n0"), b("_:n1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" _:"n1" v2 <"http://e.org/i3">"##, grdf_quad![_:"n0" _:"n1" v2 <"http://e.org/i3">], (b("_:n0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" _:"n1" v2 "text 3""##, grdf_quad![_:"n0" _:"n1" v2 "text 3"], (b("_:n0"), b("_:n1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" _:"n1" v2 "value 3"^^"http://e.org/t3"], (b("_:n0"), b("_:n1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" _:"n1" v2 v3"##, grdf_quad![_:"n0" _:"n1" v2 v3], (b("_:n0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad![_:"n0" <"http://e.org/i1"> _:"n2" _:"n3"], (b("_:n0"), i("http://e.org/i1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad![_:"n0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (b("_:n0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad![_:"n0" <"http://e.org/i1"> _:"n2" "text 3"], (b("_:n0"), i("http://e.org/i1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/i1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" <"http://e.org/i1"> _:"n2" v3"##, grdf_quad![_:"n0" <"http://e.org/i1"> _:"n2" v3], (b("_:n0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> v3], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad![_:"n0" <"http://e.org/i1"> "text 2" _:"n3"], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad![_:"n0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad![_:"n0" <"http://e.org/i1"> "text 2" "text 3"], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" <"http://e.org/i1"> "text 2" v3"##, grdf_quad![_:"n0" <"http://e.org/i1"> "text 2" v3], (b("_:n0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" <"http://e.org/i1"> v2 _:"n3""##, grdf_quad![_:"n0" <"http://e.org/i1"> v2 _:"n3"], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad![_:"n0" <"http://e.org/i1"> v2 <"http://e.org/i3">], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" <"http://e.org/i1"> v2 "text 3""##, grdf_quad![_:"n0" <"http://e.org/i1"> v2 "text 3"], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" <"http://e.org/i1"> v2 v3"##, grdf_quad![_:"n0" <"http://e.org/i1"> v2 v3], (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "text 1" _:"n2" _:"n3""##, grdf_quad![_:"n0" "text 1" _:"n2" _:"n3"], (b("_:n0"), l("text 1", XSD), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad![_:"n0" "text 1" _:"n2" <"http://e.org/i3">], (b("_:n0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "text 1" _:"n2" "text 3""##, grdf_quad![_:"n0" "text 1" _:"n2" "text 3"], (b("_:n0"), l("text 1", XSD), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (b("_:n0"), l("text 1", XSD), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "text 1" _:"n2" v3"##, grdf_quad![_:"n0" "text 1" _:"n2" v3], (b("_:n0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_3(c: &mut Checks) {
	{ c.quad(r##"_:"n0" "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad![_:"n0" "text 1" <"http://e.org/i2"> _:"n3"], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![_:"n0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad![_:"n0" "text 1" <"http://e.org/i2"> "text 3"], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "text 1" <"http://e.org/i2"> v3"##, grdf_quad![_:"n0" "text 1" <"http://e.org/i2"> v3], (b("_:n0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "text 1" "text 2" _:"n3""##, grdf_quad![_:"n0" "text 1" "text 2" _:"n3"], (b("_:n0"), l("text 1", XSD), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad![_:"n0" "text 1" "text 2" <"http://e.org/i3">], (b("_:n0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "text 1" "text 2" "text 3""##, grdf_quad![_:"n0" "text 1" "text 2" "text 3"], (b("_:n0"), l("text 1", XSD), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "text 1" "text 2" "value 3"^^"http://e.org/t3"], (b("_:n0"), l("text 1", XSD), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "text 1" "text 2" v3"##, grdf_quad![_:"n0" "text 1" "text 2" v3], (b("_:n0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![_:"n0" "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![_:"n0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![_:"n0" "text 1" "value 2"^^"http://e.org/t2" "text 3"], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![_:"n0" "text 1" "value 2"^^"http://e.org/t2" v3], (b("_:n0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "text 1" v2 _:"n3""##, grdf_quad![_:"n0" "text 1" v2 _:"n3"], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "text 1" v2 <"http://e.org/i3">"##, grdf_quad![_:"n0" "text 1" v2 <"http://e.org/i3">], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "text 1" v2 "text 3""##, grdf_quad![_:"n0" "text 1" v2 "text 3"], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "text 1" v2 "value 3"^^"http://e.org/t3"], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "text 1" v2 v3"##, grdf_quad![_:"n0" "text 1" v2 v3], (b("_:n0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" v3], (b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "text 2" "text 3"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "text 2" v3], (b("_:n0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" v2 _:"n3"], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" v2 "text 3"], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad![_:"n0" "value 1"^^"http://e.org/t1" v2 v3], (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 _:"n2" _:"n3""##, grdf_quad![_:"n0" v1 _:"n2" _:"n3"], (b("_:n0"), i("http://e.org/v1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 _:"n2" <"http://e.org/i3">"##, grdf_quad![_:"n0" v1 _:"n2" <"http://e.org/i3">], (b("_:n0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 _:"n2" "text 3""##, grdf_quad![_:"n0" v1 _:"n2" "text 3"], (b("_:n0"), i("http://e.org/v1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" v1 _:"n2" "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/v1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" v1 _:"n2" v3"##, grdf_quad![_:"n0" v1 _:"n2" v3], (b("_:n0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 <"http://e.org/i2"> _:"n3""##, grdf_quad![_:"n0" v1 <"http://e.org/i2"> _:"n3"], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![_:"n0" v1 <"http://e.org/i2"> <"http://e.org/i3">], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 <"http://e.org/i2"> "text 3""##, grdf_quad![_:"n0" v1 <"http://e.org/i2"> "text 3"], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" v1 <"http://e.org/i2"> v3"##, grdf_quad![_:"n0" v1 <"http://e.org/i2"> v3], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "text 2" _:"n3""##, grdf_quad![_:"n0" v1 "text 2" _:"n3"], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "text 2" <"http://e.org/i3">"##, grdf_quad![_:"n0" v1 "text 2" <"http://e.org/i3">], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "text 2" "text 3""##, grdf_quad![_:"n0" v1 "text 2" "text 3"], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" v1 "text 2" "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" v1 "text 2" v3"##, grdf_quad![_:"n0" v1 "text 2" v3], (b("_:n0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
}

fn quads_all_4(c: &mut Checks) {
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![_:"n0" v1 "value 2"^^"http://e.org/t2" _:"n3"], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![_:"n0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![_:"n0" v1 "value 2"^^"http://e.org/t2" "text 3"], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad![_:"n0" v1 "value 2"^^"http://e.org/t2" v3], (b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" v1 v2 _:"n3""##, grdf_quad![_:"n0" v1 v2 _:"n3"], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" v1 v2 <"http://e.org/i3">"##, grdf_quad![_:"n0" v1 v2 <"http://e.org/i3">], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" v1 v2 "text 3""##, grdf_quad![_:"n0" v1 v2 "text 3"], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"_:"n0" v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad![_:"n0" v1 v2 "value 3"^^"http://e.org/t3"], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"_:"n0" v1 v2 v3"##, grdf_quad![_:"n0" v1 v2 v3], (b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" _:"n2" _:"n3""##, grdf_quad![<"http://e.org/i0"> _:"n1" _:"n2" _:"n3"], (i("http://e.org/i0"), b("_:n1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> _:"n1" _:"n2" <"http://e.org/i3">], (i("http://e.org/i0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" _:"n2" "text 3""##, grdf_quad![<"http://e.org/i0"> _:"n1" _:"n2" "text 3"], (i("http://e.org/i0"), b("_:n1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), b("_:n1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> _:"n1" _:"n2" v3"##, grdf_quad![<"http://e.org/i0"> _:"n1" _:"n2" v3], (i("http://e.org/i0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> _:"n3"], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "text 3"], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> v3"##, grdf_quad![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> v3], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "text 2" _:"n3""##, grdf_quad![<"http://e.org/i0"> _:"n1" "text 2" _:"n3"], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> _:"n1" "text 2" <"http://e.org/i3">], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "text 2" "text 3""##, grdf_quad![<"http://e.org/i0"> _:"n1" "text 2" "text 3"], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> _:"n1" "text 2" v3"##, grdf_quad![<"http://e.org/i0"> _:"n1" "text 2" v3], (i("http://e.org/i0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" v3], (i("http://e.org/i0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> _:"n1" v2 _:"n3""##, grdf_quad![<"http://e.org/i0"> _:"n1" v2 _:"n3"], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> _:"n1" v2 <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> _:"n1" v2 <"http://e.org/i3">], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> _:"n1" v2 "text 3""##, grdf_quad![<"http://e.org/i0"> _:"n1" v2 "text 3"], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> _:"n1" v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> _:"n1" v2 v3"##, grdf_quad![<"http://e.org/i0"> _:"n1" v2 v3], (i("http://e.org/i0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" _:"n3"], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "text 3"], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" v3"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" v3], (i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> v3], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" _:"n3"], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "text 3"], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" v3"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" v3], (i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 _:"n3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> v2 _:"n3"], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> v2 <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 "text 3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> v2 "text 3"], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 v3"##, grdf_quad![<"http://e.org/i0"> <"http://e.org/i1"> v2 v3], (i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_5(c: &mut Checks) {
	{ c.quad(r##"<"http://e.org/i0"> "text 1" _:"n2" _:"n3""##, grdf_quad![<"http://e.org/i0"> "text 1" _:"n2" _:"n3"], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "text 1" _:"n2" <"http://e.org/i3">], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" _:"n2" "text 3""##, grdf_quad![<"http://e.org/i0"> "text 1" _:"n2" "text 3"], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "text 1" _:"n2" v3"##, grdf_quad![<"http://e.org/i0"> "text 1" _:"n2" v3], (i("http://e.org/i0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> _:"n3"], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "text 3"], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> v3"##, grdf_quad![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> v3], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "text 2" _:"n3""##, grdf_quad![<"http://e.org/i0"> "text 1" "text 2" _:"n3"], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "text 1" "text 2" <"http://e.org/i3">], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "text 2" "text 3""##, grdf_quad![<"http://e.org/i0"> "text 1" "text 2" "text 3"], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "text 1" "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "text 1" "text 2" v3"##, grdf_quad![<"http://e.org/i0"> "text 1" "text 2" v3], (i("http://e.org/i0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" v3], (i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "text 1" v2 _:"n3""##, grdf_quad![<"http://e.org/i0"> "text 1" v2 _:"n3"], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "text 1" v2 <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "text 1" v2 <"http://e.org/i3">], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "text 1" v2 "text 3""##, grdf_quad![<"http://e.org/i0"> "text 1" v2 "text 3"], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "text 1" v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "text 1" v2 v3"##, grdf_quad![<"http://e.org/i0"> "text 1" v2 v3], (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" v3], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "text 3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" v3], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 _:"n3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "text 3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 v3], (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 _:"n2" _:"n3""##, grdf_quad![<"http://e.org/i0"> v1 _:"n2" _:"n3"], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 _:"n2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> v1 _:"n2" <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 _:"n2" "text 3""##, grdf_quad![<"http://e.org/i0"> v1 _:"n2" "text 3"], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> v1 _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> v1 _:"n2" v3"##, grdf_quad![<"http://e.org/i0"> v1 _:"n2" v3], (i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> _:"n3""##, grdf_quad![<"http://e.org/i0"> v1 <"http://e.org/i2"> _:"n3"], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> v1 <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> "text 3""##, grdf_quad![<"http://e.org/i0"> v1 <"http://e.org/i2"> "text 3"], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> v3"##, grdf_quad![<"http://e.org/i0"> v1 <"http://e.org/i2"> v3], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_6(c: &mut Checks) {
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "text 2" _:"n3""##, grdf_quad![<"http://e.org/i0"> v1 "text 2" _:"n3"], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "text 2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> v1 "text 2" <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "text 2" "text 3""##, grdf_quad![<"http://e.org/i0"> v1 "text 2" "text 3"], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> v1 "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> v1 "text 2" v3"##, grdf_quad![<"http://e.org/i0"> v1 "text 2" v3], (i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" v3], (i("http://e.org/i0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> v1 v2 _:"n3""##, grdf_quad![<"http://e.org/i0"> v1 v2 _:"n3"], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> v1 v2 <"http://e.org/i3">"##, grdf_quad![<"http://e.org/i0"> v1 v2 <"http://e.org/i3">], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> v1 v2 "text 3""##, grdf_quad![<"http://e.org/i0"> v1 v2 "text 3"], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"<"http://e.org/i0"> v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad![<"http://e.org/i0"> v1 v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"<"http://e.org/i0"> v1 v2 v3"##, grdf_quad![<"http://e.org/i0"> v1 v2 v3], (i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" _:"n1" _:"n2" _:"n3""##, grdf_quad!["text 0" _:"n1" _:"n2" _:"n3"], (l("text 0", XSD), b("_:n1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad!["text 0" _:"n1" _:"n2" <"http://e.org/i3">], (l("text 0", XSD), b("_:n1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" _:"n1" _:"n2" "text 3""##, grdf_quad!["text 0" _:"n1" _:"n2" "text 3"], (l("text 0", XSD), b("_:n1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), b("_:n1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" _:"n1" _:"n2" v3"##, grdf_quad!["text 0" _:"n1" _:"n2" v3], (l("text 0", XSD), b("_:n1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad!["text 0" _:"n1" <"http://e.org/i2"> _:"n3"], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["text 0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad!["text 0" _:"n1" <"http://e.org/i2"> "text 3"], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" _:"n1" <"http://e.org/i2"> v3"##, grdf_quad!["text 0" _:"n1" <"http://e.org/i2"> v3], (l("text 0", XSD), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" _:"n1" "text 2" _:"n3""##, grdf_quad!["text 0" _:"n1" "text 2" _:"n3"], (l("text 0", XSD), b("_:n1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad!["text 0" _:"n1" "text 2" <"http://e.org/i3">], (l("text 0", XSD), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" _:"n1" "text 2" "text 3""##, grdf_quad!["text 0" _:"n1" "text 2" "text 3"], (l("text 0", XSD), b("_:n1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), b("_:n1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" _:"n1" "text 2" v3"##, grdf_quad!["text 0" _:"n1" "text 2" v3], (l("text 0", XSD), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["text 0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["text 0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["text 0" _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["text 0" _:"n1" "value 2"^^"http://e.org/t2" v3], (l("text 0", XSD), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" _:"n1" v2 _:"n3""##, grdf_quad!["text 0" _:"n1" v2 _:"n3"], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" _:"n1" v2 <"http://e.org/i3">"##, grdf_quad!["text 0" _:"n1" v2 <"http://e.org/i3">], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" _:"n1" v2 "text 3""##, grdf_quad!["text 0" _:"n1" v2 "text 3"], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" _:"n1" v2 "value 3"^^"http://e.org/t3"], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" _:"n1" v2 v3"##, grdf_quad!["text 0" _:"n1" v2 v3], (l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad!["text 0" <"http://e.org/i1"> _:"n2" _:"n3"], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad!["text 0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad!["text 0" <"http://e.org/i1"> _:"n2" "text 3"], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" <"http://e.org/i1"> _:"n2" v3"##, grdf_quad!["text 0" <"http://e.org/i1"> _:"n2" v3], (l("text 0", XSD), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> v3], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad!["text 0" <"http://e.org/i1"> "text 2" _:"n3"], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad!["text 0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad!["text 0" <"http://e.org/i1"> "text 2" "text 3"], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" <"http://e.org/i1"> "text 2" v3"##, grdf_quad!["text 0" <"http://e.org/i1"> "text 2" v3], (l("text 0", XSD), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (l("text 0", XSD), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_7(c: &mut Checks) {
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" <"http://e.org/i1"> v2 _:"n3""##, grdf_quad!["text 0" <"http://e.org/i1"> v2 _:"n3"], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad!["text 0" <"http://e.org/i1"> v2 <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" <"http://e.org/i1"> v2 "text 3""##, grdf_quad!["text 0" <"http://e.org/i1"> v2 "text 3"], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" <"http://e.org/i1"> v2 v3"##, grdf_quad!["text 0" <"http://e.org/i1"> v2 v3], (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "text 1" _:"n2" _:"n3""##, grdf_quad!["text 0" "text 1" _:"n2" _:"n3"], (l("text 0", XSD), l("text 1", XSD), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad!["text 0" "text 1" _:"n2" <"http://e.org/i3">], (l("text 0", XSD), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "text 1" _:"n2" "text 3""##, grdf_quad!["text 0" "text 1" _:"n2" "text 3"], (l("text 0", XSD), l("text 1", XSD), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("text 1", XSD), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "text 1" _:"n2" v3"##, grdf_quad!["text 0" "text 1" _:"n2" v3], (l("text 0", XSD), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad!["text 0" "text 1" <"http://e.org/i2"> _:"n3"], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["text 0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad!["text 0" "text 1" <"http://e.org/i2"> "text 3"], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "text 1" <"http://e.org/i2"> v3"##, grdf_quad!["text 0" "text 1" <"http://e.org/i2"> v3], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "text 1" "text 2" _:"n3""##, grdf_quad!["text 0" "text 1" "text 2" _:"n3"], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad!["text 0" "text 1" "text 2" <"http://e.org/i3">], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "text 1" "text 2" "text 3""##, grdf_quad!["text 0" "text 1" "text 2" "text 3"], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "text 1" "text 2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "text 1" "text 2" v3"##, grdf_quad!["text 0" "text 1" "text 2" v3], (l("text 0", XSD), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["text 0" "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["text 0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["text 0" "text 1" "value 2"^^"http://e.org/t2" "text 3"], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["text 0" "text 1" "value 2"^^"http://e.org/t2" v3], (l("text 0", XSD), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "text 1" v2 _:"n3""##, grdf_quad!["text 0" "text 1" v2 _:"n3"], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "text 1" v2 <"http://e.org/i3">"##, grdf_quad!["text 0" "text 1" v2 <"http://e.org/i3">], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "text 1" v2 "text 3""##, grdf_quad!["text 0" "text 1" v2 "text 3"], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "text 1" v2 "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "text 1" v2 v3"##, grdf_quad!["text 0" "text 1" v2 v3], (l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" _:"n2" v3], (l("text 0", XSD), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "text 2" "text 3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "text 2" v3], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" v2 _:"n3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" v2 "text 3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad!["text 0" "value 1"^^"http://e.org/t1" v2 v3], (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 _:"n2" _:"n3""##, grdf_quad!["text 0" v1 _:"n2" _:"n3"], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 _:"n2" <"http://e.org/i3">"##, grdf_quad!["text 0" v1 _:"n2" <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 _:"n2" "text 3""##, grdf_quad!["text 0" v1 _:"n2" "text 3"], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" v1 _:"n2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" v1 _:"n2" v3"##, grdf_quad!["text 0" v1 _:"n2" v3], (l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_8(c: &mut Checks) {
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 <"http://e.org/i2"> _:"n3""##, grdf_quad!["text 0" v1 <"http://e.org/i2"> _:"n3"], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["text 0" v1 <"http://e.org/i2"> <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 <"http://e.org/i2"> "text 3""##, grdf_quad!["text 0" v1 <"http://e.org/i2"> "text 3"], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" v1 <"http://e.org/i2"> v3"##, grdf_quad!["text 0" v1 <"http://e.org/i2"> v3], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "text 2" _:"n3""##, grdf_quad!["text 0" v1 "text 2" _:"n3"], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "text 2" <"http://e.org/i3">"##, grdf_quad!["text 0" v1 "text 2" <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "text 2" "text 3""##, grdf_quad!["text 0" v1 "text 2" "text 3"], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" v1 "text 2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" v1 "text 2" v3"##, grdf_quad!["text 0" v1 "text 2" v3], (l("text 0", XSD), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["text 0" v1 "value 2"^^"http://e.org/t2" _:"n3"], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["text 0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["text 0" v1 "value 2"^^"http://e.org/t2" "text 3"], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""text 0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["text 0" v1 "value 2"^^"http://e.org/t2" v3], (l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" v1 v2 _:"n3""##, grdf_quad!["text 0" v1 v2 _:"n3"], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" v1 v2 <"http://e.org/i3">"##, grdf_quad!["text 0" v1 v2 <"http://e.org/i3">], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" v1 v2 "text 3""##, grdf_quad!["text 0" v1 v2 "text 3"], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""text 0" v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["text 0" v1 v2 "value 3"^^"http://e.org/t3"], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""text 0" v1 v2 v3"##, grdf_quad!["text 0" v1 v2 v3], (l("text 0", XSD), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" _:"n3"], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" "text 3"], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" v3], (l("value 0", "http://e.org/t0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> _:"n3"], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "text 3"], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> v3"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> v3], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "text 2" _:"n3"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "text 2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "text 2" "text 3"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "text 2" v3], (l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" v3], (l("value 0", "http://e.org/t0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" v2 _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" v2 _:"n3"], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" v2 <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" v2 <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" v2 "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" v2 "text 3"], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" v2 "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" _:"n1" v2 v3"##, grdf_quad!["value 0"^^"http://e.org/t0" _:"n1" v2 v3], (l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" v3], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> v3], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" v3], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
}

fn quads_all_9(c: &mut Checks) {
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 v3"##, grdf_quad!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 v3], (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" _:"n2" _:"n3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" _:"n2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" _:"n2" "text 3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" _:"n2" v3], (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> _:"n3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "text 3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> v3], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "text 2" _:"n3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "text 2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "text 2" "text 3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "text 2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "text 2" v3], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "text 3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" v3], (l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" v2 _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" v2 _:"n3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" v2 <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" v2 <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" v2 "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" v2 "text 3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" v2 "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "text 1" v2 v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "text 1" v2 v3], (l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" v3], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "text 3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" v3], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 _:"n3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "text 3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 v3], (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_10(c: &mut Checks) {
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 _:"n2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 _:"n2" _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 _:"n2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 _:"n2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 _:"n2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 _:"n2" "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 _:"n2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" v1 _:"n2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 _:"n2" v3], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> v3"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> v3], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "text 2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "text 2" _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "text 2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "text 2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "text 2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "text 2" "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "text 2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "text 2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "text 2" v3], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" v3], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" v1 v2 _:"n3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 v2 _:"n3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" v1 v2 <"http://e.org/i3">"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 v2 <"http://e.org/i3">], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" v1 v2 "text 3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 v2 "text 3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##""value 0"^^"http://e.org/t0" v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad!["value 0"^^"http://e.org/t0" v1 v2 "value 3"^^"http://e.org/t3"], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##""value 0"^^"http://e.org/t0" v1 v2 v3"##, grdf_quad!["value 0"^^"http://e.org/t0" v1 v2 v3], (l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" _:"n2" _:"n3""##, grdf_quad![v0 _:"n1" _:"n2" _:"n3"], (i("http://e.org/v0"), b("_:n1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad![v0 _:"n1" _:"n2" <"http://e.org/i3">], (i("http://e.org/v0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" _:"n2" "text 3""##, grdf_quad![v0 _:"n1" _:"n2" "text 3"], (i("http://e.org/v0"), b("_:n1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), b("_:n1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 _:"n1" _:"n2" v3"##, grdf_quad![v0 _:"n1" _:"n2" v3], (i("http://e.org/v0"), b("_:n1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad![v0 _:"n1" <"http://e.org/i2"> _:"n3"], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![v0 _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad![v0 _:"n1" <"http://e.org/i2"> "text 3"], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![v0 _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 _:"n1" <"http://e.org/i2"> v3"##, grdf_quad![v0 _:"n1" <"http://e.org/i2"> v3], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "text 2" _:"n3""##, grdf_quad![v0 _:"n1" "text 2" _:"n3"], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad![v0 _:"n1" "text 2" <"http://e.org/i3">], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "text 2" "text 3""##, grdf_quad![v0 _:"n1" "text 2" "text 3"], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 _:"n1" "text 2" v3"##, grdf_quad![v0 _:"n1" "text 2" v3], (i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![v0 _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![v0 _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![v0 _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![v0 _:"n1" "value 2"^^"http://e.org/t2" v3], (i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 _:"n1" v2 _:"n3""##, grdf_quad![v0 _:"n1" v2 _:"n3"], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 _:"n1" v2 <"http://e.org/i3">"##, grdf_quad![v0 _:"n1" v2 <"http://e.org/i3">], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 _:"n1" v2 "text 3""##, grdf_quad![v0 _:"n1" v2 "text 3"], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![v0 _:"n1" v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 _:"n1" v2 v3"##, grdf_quad![v0 _:"n1" v2 v3], (i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad![v0 <"http://e.org/i1"> _:"n2" _:"n3"], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad![v0 <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad![v0 <"http://e.org/i1"> _:"n2" "text 3"], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 <"http://e.org/i1"> _:"n2" v3"##, grdf_quad![v0 <"http://e.org/i1"> _:"n2" v3], (i("http://e.org/v0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad![v0 <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![v0 <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad![v0 <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![v0 <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad![v0 <"http://e.org/i1"> <"http://e.org/i2"> v3], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_11(c: &mut Checks) {
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad![v0 <"http://e.org/i1"> "text 2" _:"n3"], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad![v0 <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad![v0 <"http://e.org/i1"> "text 2" "text 3"], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 <"http://e.org/i1"> "text 2" v3"##, grdf_quad![v0 <"http://e.org/i1"> "text 2" v3], (i("http://e.org/v0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (i("http://e.org/v0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 <"http://e.org/i1"> v2 _:"n3""##, grdf_quad![v0 <"http://e.org/i1"> v2 _:"n3"], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad![v0 <"http://e.org/i1"> v2 <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 <"http://e.org/i1"> v2 "text 3""##, grdf_quad![v0 <"http://e.org/i1"> v2 "text 3"], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad![v0 <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 <"http://e.org/i1"> v2 v3"##, grdf_quad![v0 <"http://e.org/i1"> v2 v3], (i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" _:"n2" _:"n3""##, grdf_quad![v0 "text 1" _:"n2" _:"n3"], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad![v0 "text 1" _:"n2" <"http://e.org/i3">], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" _:"n2" "text 3""##, grdf_quad![v0 "text 1" _:"n2" "text 3"], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "text 1" _:"n2" v3"##, grdf_quad![v0 "text 1" _:"n2" v3], (i("http://e.org/v0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad![v0 "text 1" <"http://e.org/i2"> _:"n3"], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![v0 "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad![v0 "text 1" <"http://e.org/i2"> "text 3"], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "text 1" <"http://e.org/i2"> v3"##, grdf_quad![v0 "text 1" <"http://e.org/i2"> v3], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "text 2" _:"n3""##, grdf_quad![v0 "text 1" "text 2" _:"n3"], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad![v0 "text 1" "text 2" <"http://e.org/i3">], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "text 2" "text 3""##, grdf_quad![v0 "text 1" "text 2" "text 3"], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "text 1" "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "text 1" "text 2" v3"##, grdf_quad![v0 "text 1" "text 2" v3], (i("http://e.org/v0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![v0 "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![v0 "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![v0 "text 1" "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![v0 "text 1" "value 2"^^"http://e.org/t2" v3], (i("http://e.org/v0"), l("text 1", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "text 1" v2 _:"n3""##, grdf_quad![v0 "text 1" v2 _:"n3"], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "text 1" v2 <"http://e.org/i3">"##, grdf_quad![v0 "text 1" v2 <"http://e.org/i3">], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "text 1" v2 "text 3""##, grdf_quad![v0 "text 1" v2 "text 3"], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "text 1" v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "text 1" v2 v3"##, grdf_quad![v0 "text 1" v2 v3], (i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" _:"n2" v3], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "text 2" "text 3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "text 2" v3], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
}

fn quads_all_12(c: &mut Checks) {
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" v2 _:"n3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" v2 "text 3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad![v0 "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad![v0 "value 1"^^"http://e.org/t1" v2 v3], (i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 _:"n2" _:"n3""##, grdf_quad![v0 v1 _:"n2" _:"n3"], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 _:"n2" <"http://e.org/i3">"##, grdf_quad![v0 v1 _:"n2" <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 _:"n2" "text 3""##, grdf_quad![v0 v1 _:"n2" "text 3"], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 v1 _:"n2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 v1 _:"n2" v3"##, grdf_quad![v0 v1 _:"n2" v3], (i("http://e.org/v0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 <"http://e.org/i2"> _:"n3""##, grdf_quad![v0 v1 <"http://e.org/i2"> _:"n3"], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad![v0 v1 <"http://e.org/i2"> <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 <"http://e.org/i2"> "text 3""##, grdf_quad![v0 v1 <"http://e.org/i2"> "text 3"], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad![v0 v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 v1 <"http://e.org/i2"> v3"##, grdf_quad![v0 v1 <"http://e.org/i2"> v3], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "text 2" _:"n3""##, grdf_quad![v0 v1 "text 2" _:"n3"], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "text 2" <"http://e.org/i3">"##, grdf_quad![v0 v1 "text 2" <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "text 2" "text 3""##, grdf_quad![v0 v1 "text 2" "text 3"], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 v1 "text 2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 v1 "text 2" v3"##, grdf_quad![v0 v1 "text 2" v3], (i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad![v0 v1 "value 2"^^"http://e.org/t2" _:"n3"], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad![v0 v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad![v0 v1 "value 2"^^"http://e.org/t2" "text 3"], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); c.quad(r##"v0 v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad![v0 v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad![v0 v1 "value 2"^^"http://e.org/t2" v3], (i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 v1 v2 _:"n3""##, grdf_quad![v0 v1 v2 _:"n3"], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(b("_:n3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 v1 v2 <"http://e.org/i3">"##, grdf_quad![v0 v1 v2 <"http://e.org/i3">], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/i3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 v1 v2 "text 3""##, grdf_quad![v0 v1 v2 "text 3"], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("text 3", XSD)))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); c.quad(r##"v0 v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad![v0 v1 v2 "value 3"^^"http://e.org/t3"], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3")))); }
	{ let v0 = (var("http://e.org/v0")); let v1 = (var("http://e.org/v1")); let v2 = (var("http://e.org/v2")); let v3 = (var("http://e.org/v3")); c.quad(r##"v0 v1 v2 v3"##, grdf_quad![v0 v1 v2 v3], (i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/v3")))); }
}

fn patterns_all_0(c: &mut Checks) {
	{ c.pattern(r##"_:"n0" _:"n1" _:"n2""##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2"], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), None)); }
	{ c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2">"##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2">], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"_:"n0" _:"n1" "text 2""##, grdf_quad_pattern![_:"n0" _:"n1" "text 2"], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2"], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" _:"n1" v2"##, grdf_quad_pattern![_:"n0" _:"n1" v2], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" _:"n1" ?x2"##, grdf_quad_pattern![_:"n0" _:"n1" ?x2], (R(b("_:n0")), R(b("_:n1")), V(12), None)); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2"], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), None)); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2">], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" <"http://e.org/i1"> v2"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), None)); }
	{ c.pattern(r##"_:"n0" "text 1" _:"n2""##, grdf_quad_pattern![_:"n0" "text 1" _:"n2"], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), None)); }
	{ c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2">"##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2">], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"_:"n0" "text 1" "text 2""##, grdf_quad_pattern![_:"n0" "text 1" "text 2"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "text 1" v2"##, grdf_quad_pattern![_:"n0" "text 1" v2], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "text 1" ?x2"##, grdf_quad_pattern![_:"n0" "text 1" ?x2], (R(b("_:n0")), R(l("text 1", XSD)), V(12), None)); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), None)); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 _:"n2""##, grdf_quad_pattern![_:"n0" v1 _:"n2"], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 <"http://e.org/i2">"##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2">], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "text 2""##, grdf_quad_pattern![_:"n0" v1 "text 2"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" v1 v2"##, grdf_quad_pattern![_:"n0" v1 v2], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"_:"n0" v1 ?x2"##, grdf_quad_pattern![_:"n0" v1 ?x2], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), None)); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 _:"n2""##, grdf_quad_pattern![_:"n0" ?x1 _:"n2"], (R(b("_:n0")), V(11), R(b("_:n2")), None)); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2">"##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2">], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), None)); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "text 2""##, grdf_quad_pattern![_:"n0" ?x1 "text 2"], (R(b("_:n0")), V(11), R(l("text 2", XSD)), None)); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2"], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" ?x1 v2"##, grdf_quad_pattern![_:"n0" ?x1 v2], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), None)); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"_:"n0" ?x1 ?x2"##, grdf_quad_pattern![_:"n0" ?x1 ?x2], (R(b("_:n0")), V(11), V(12), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2"], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2">], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> _:"n1" v2"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "text 1" v2"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), None)); }
}

fn patterns_all_1(c: &mut Checks) {
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 _:"n2""##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "text 2""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> v1 v2"##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> v1 ?x2"##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), None)); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2"], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), None)); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2">], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), None)); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2"], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), None)); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2"], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> ?x1 v2"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), None)); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2], (R(i("http://e.org/i0")), V(11), V(12), None)); }
	{ c.pattern(r##""text 0" _:"n1" _:"n2""##, grdf_quad_pattern!["text 0" _:"n1" _:"n2"], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), None)); }
	{ c.pattern(r##""text 0" _:"n1" <"http://e.org/i2">"##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2">], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""text 0" _:"n1" "text 2""##, grdf_quad_pattern!["text 0" _:"n1" "text 2"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" _:"n1" v2"##, grdf_quad_pattern!["text 0" _:"n1" v2], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""text 0" _:"n1" ?x2"##, grdf_quad_pattern!["text 0" _:"n1" ?x2], (R(l("text 0", XSD)), R(b("_:n1")), V(12), None)); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), None)); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "text 2""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" <"http://e.org/i1"> v2"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""text 0" <"http://e.org/i1"> ?x2"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), None)); }
	{ c.pattern(r##""text 0" "text 1" _:"n2""##, grdf_quad_pattern!["text 0" "text 1" _:"n2"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), None)); }
	{ c.pattern(r##""text 0" "text 1" <"http://e.org/i2">"##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2">], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""text 0" "text 1" "text 2""##, grdf_quad_pattern!["text 0" "text 1" "text 2"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "text 1" v2"##, grdf_quad_pattern!["text 0" "text 1" v2], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "text 1" ?x2"##, grdf_quad_pattern!["text 0" "text 1" ?x2], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), None)); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), None)); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 _:"n2""##, grdf_quad_pattern!["text 0" v1 _:"n2"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 <"http://e.org/i2">"##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "text 2""##, grdf_quad_pattern!["text 0" v1 "text 2"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" v1 v2"##, grdf_quad_pattern!["text 0" v1 v2], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""text 0" v1 ?x2"##, grdf_quad_pattern!["text 0" v1 ?x2], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), None)); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 _:"n2""##, grdf_quad_pattern!["text 0" ?x1 _:"n2"], (R(l("text 0", XSD)), V(11), R(b("_:n2")), None)); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 <"http://e.org/i2">"##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2">], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), None)); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "text 2""##, grdf_quad_pattern!["text 0" ?x1 "text 2"], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), None)); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2"], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" ?x1 v2"##, grdf_quad_pattern!["text 0" ?x1 v2], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), None)); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""text 0" ?x1 ?x2"##, grdf_quad_pattern!["text 0" ?x1 ?x2], (R(l("text 0", XSD)), V(11), V(12), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), None)); }
}

fn patterns_all_2(c: &mut Checks) {
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), None)); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), None)); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), None)); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), None)); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2"], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), None)); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2">], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), None)); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), None)); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), None)); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2], (R(l("value 0", "http://e.org/t0")), V(11), V(12), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" _:"n2""##, grdf_quad_pattern![v0 _:"n1" _:"n2"], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" <"http://e.org/i2">"##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2">], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "text 2""##, grdf_quad_pattern![v0 _:"n1" "text 2"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 _:"n1" v2"##, grdf_quad_pattern![v0 _:"n1" v2], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 _:"n1" ?x2"##, grdf_quad_pattern![v0 _:"n1" ?x2], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> _:"n2""##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "text 2""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 <"http://e.org/i1"> v2"##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 <"http://e.org/i1"> ?x2"##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" _:"n2""##, grdf_quad_pattern![v0 "text 1" _:"n2"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" <"http://e.org/i2">"##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "text 2""##, grdf_quad_pattern![v0 "text 1" "text 2"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "text 1" v2"##, grdf_quad_pattern![v0 "text 1" v2], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "text 1" ?x2"##, grdf_quad_pattern![v0 "text 1" ?x2], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 _:"n2""##, grdf_quad_pattern![v0 v1 _:"n2"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 <"http://e.org/i2">"##, grdf_quad_pattern![v0 v1 <"http://e.org/i2">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "text 2""##, grdf_quad_pattern![v0 v1 "text 2"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 v1 v2"##, grdf_quad_pattern![v0 v1 v2], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"v0 v1 ?x2"##, grdf_quad_pattern![v0 v1 ?x2], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 _:"n2""##, grdf_quad_pattern![v0 ?x1 _:"n2"], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 <"http://e.org/i2">"##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2">], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "text 2""##, grdf_quad_pattern![v0 ?x1 "text 2"], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2"], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 ?x1 v2"##, grdf_quad_pattern![v0 ?x1 v2], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), None)); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; c.pattern(r##"v0 ?x1 ?x2"##, grdf_quad_pattern![v0 ?x1 ?x2], (R(i("http://e.org/v0")), V(11), V(12), None)); }
}

fn patterns_all_3(c: &mut Checks) {
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" _:"n2""##, grdf_quad_pattern![?x0 _:"n1" _:"n2"], (V(10), R(b("_:n1")), R(b("_:n2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" <"http://e.org/i2">"##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2">], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "text 2""##, grdf_quad_pattern![?x0 _:"n1" "text 2"], (V(10), R(b("_:n1")), R(l("text 2", XSD)), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2"], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 _:"n1" v2"##, grdf_quad_pattern![?x0 _:"n1" v2], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), None)); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 _:"n1" ?x2"##, grdf_quad_pattern![?x0 _:"n1" ?x2], (V(10), R(b("_:n1")), V(12), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2"], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2">], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "text 2""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2"], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2"], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 <"http://e.org/i1"> v2"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), None)); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 <"http://e.org/i1"> ?x2"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2], (V(10), R(i("http://e.org/i1")), V(12), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" _:"n2""##, grdf_quad_pattern![?x0 "text 1" _:"n2"], (V(10), R(l("text 1", XSD)), R(b("_:n2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" <"http://e.org/i2">"##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2">], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "text 2""##, grdf_quad_pattern![?x0 "text 1" "text 2"], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2"], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "text 1" v2"##, grdf_quad_pattern![?x0 "text 1" v2], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), None)); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "text 1" ?x2"##, grdf_quad_pattern![?x0 "text 1" ?x2], (V(10), R(l("text 1", XSD)), V(12), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2"], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2">], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), None)); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), None)); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2], (V(10), R(l("value 1", "http://e.org/t1")), V(12), None)); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 _:"n2""##, grdf_quad_pattern![?x0 v1 _:"n2"], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), None)); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 <"http://e.org/i2">"##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2">], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), None)); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "text 2""##, grdf_quad_pattern![?x0 v1 "text 2"], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), None)); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2"], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 v1 v2"##, grdf_quad_pattern![?x0 v1 v2], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), None)); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"?x0 v1 ?x2"##, grdf_quad_pattern![?x0 v1 ?x2], (V(10), R(i("http://e.org/v1")), V(12), None)); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 _:"n2""##, grdf_quad_pattern![?x0 ?x1 _:"n2"], (V(10), V(11), R(b("_:n2")), None)); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 <"http://e.org/i2">"##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2">], (V(10), V(11), R(i("http://e.org/i2")), None)); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "text 2""##, grdf_quad_pattern![?x0 ?x1 "text 2"], (V(10), V(11), R(l("text 2", XSD)), None)); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2""##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2"], (V(10), V(11), R(l("value 2", "http://e.org/t2")), None)); }
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 ?x1 v2"##, grdf_quad_pattern![?x0 ?x1 v2], (V(10), V(11), R(i("http://e.org/v2")), None)); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; c.pattern(r##"?x0 ?x1 ?x2"##, grdf_quad_pattern![?x0 ?x1 ?x2], (V(10), V(11), V(12), None)); }
	{ c.pattern(r##"_:"n0" _:"n1" _:"n2" _:"n3""##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2" _:"n3"], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2" <"http://e.org/i3">], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" _:"n2" "text 3""##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2" "text 3"], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" _:"n1" _:"n2" v3"##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2" v3], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" _:"n1" _:"n2" ?x3"##, grdf_quad_pattern![_:"n0" _:"n1" _:"n2" ?x3], (R(b("_:n0")), R(b("_:n1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2"> _:"n3"], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2"> "text 3"], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2"> v3], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" _:"n1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![_:"n0" _:"n1" <"http://e.org/i2"> ?x3], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" _:"n1" "text 2" _:"n3""##, grdf_quad_pattern![_:"n0" _:"n1" "text 2" _:"n3"], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" _:"n1" "text 2" <"http://e.org/i3">], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" "text 2" "text 3""##, grdf_quad_pattern![_:"n0" _:"n1" "text 2" "text 3"], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" _:"n1" "text 2" v3"##, grdf_quad_pattern![_:"n0" _:"n1" "text 2" v3], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" _:"n1" "text 2" ?x3"##, grdf_quad_pattern![_:"n0" _:"n1" "text 2" ?x3], (R(b("_:n0")), R(b("_:n1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" v3], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" _:"n1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![_:"n0" _:"n1" "value 2"^^"http://e.org/t2" ?x3], (R(b("_:n0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_4(c: &mut Checks) {
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" _:"n1" v2 _:"n3""##, grdf_quad_pattern![_:"n0" _:"n1" v2 _:"n3"], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" _:"n1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" _:"n1" v2 <"http://e.org/i3">], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" _:"n1" v2 "text 3""##, grdf_quad_pattern![_:"n0" _:"n1" v2 "text 3"], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" _:"n1" v2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" _:"n1" v2 v3"##, grdf_quad_pattern![_:"n0" _:"n1" v2 v3], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"_:"n0" _:"n1" v2 ?x3"##, grdf_quad_pattern![_:"n0" _:"n1" v2 ?x3], (R(b("_:n0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" _:"n1" ?x2 _:"n3""##, grdf_quad_pattern![_:"n0" _:"n1" ?x2 _:"n3"], (R(b("_:n0")), R(b("_:n1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" _:"n1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" _:"n1" ?x2 <"http://e.org/i3">], (R(b("_:n0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" _:"n1" ?x2 "text 3""##, grdf_quad_pattern![_:"n0" _:"n1" ?x2 "text 3"], (R(b("_:n0")), R(b("_:n1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" _:"n1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" _:"n1" ?x2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(b("_:n1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" _:"n1" ?x2 v3"##, grdf_quad_pattern![_:"n0" _:"n1" ?x2 v3], (R(b("_:n0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"_:"n0" _:"n1" ?x2 ?x3"##, grdf_quad_pattern![_:"n0" _:"n1" ?x2 ?x3], (R(b("_:n0")), R(b("_:n1")), V(12), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2" _:"n3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2" "text 3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2" v3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2" v3], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> _:"n2" ?x3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> _:"n2" ?x3], (R(b("_:n0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> v3], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> ?x3], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2" _:"n3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2" "text 3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2" v3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2" v3], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> "text 2" ?x3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "text 2" ?x3], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3], (R(b("_:n0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" <"http://e.org/i1"> v2 _:"n3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2 _:"n3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2 <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" <"http://e.org/i1"> v2 "text 3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2 "text 3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" <"http://e.org/i1"> v2 v3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2 v3], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> v2 ?x3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> v2 ?x3], (R(b("_:n0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2 _:"n3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2 _:"n3"], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2 <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2 "text 3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2 "text 3"], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2 v3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2 v3], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"_:"n0" <"http://e.org/i1"> ?x2 ?x3"##, grdf_quad_pattern![_:"n0" <"http://e.org/i1"> ?x2 ?x3], (R(b("_:n0")), R(i("http://e.org/i1")), V(12), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "text 1" _:"n2" _:"n3""##, grdf_quad_pattern![_:"n0" "text 1" _:"n2" _:"n3"], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "text 1" _:"n2" <"http://e.org/i3">], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" _:"n2" "text 3""##, grdf_quad_pattern![_:"n0" "text 1" _:"n2" "text 3"], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "text 1" _:"n2" v3"##, grdf_quad_pattern![_:"n0" "text 1" _:"n2" v3], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "text 1" _:"n2" ?x3"##, grdf_quad_pattern![_:"n0" "text 1" _:"n2" ?x3], (R(b("_:n0")), R(l("text 1", XSD)), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2"> _:"n3"], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2"> "text 3"], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2"> v3], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "text 1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![_:"n0" "text 1" <"http://e.org/i2"> ?x3], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_5(c: &mut Checks) {
	{ c.pattern(r##"_:"n0" "text 1" "text 2" _:"n3""##, grdf_quad_pattern![_:"n0" "text 1" "text 2" _:"n3"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "text 1" "text 2" <"http://e.org/i3">], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" "text 2" "text 3""##, grdf_quad_pattern![_:"n0" "text 1" "text 2" "text 3"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "text 1" "text 2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "text 1" "text 2" v3"##, grdf_quad_pattern![_:"n0" "text 1" "text 2" v3], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "text 1" "text 2" ?x3"##, grdf_quad_pattern![_:"n0" "text 1" "text 2" ?x3], (R(b("_:n0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2" "text 3"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2" v3], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "text 1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![_:"n0" "text 1" "value 2"^^"http://e.org/t2" ?x3], (R(b("_:n0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "text 1" v2 _:"n3""##, grdf_quad_pattern![_:"n0" "text 1" v2 _:"n3"], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "text 1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "text 1" v2 <"http://e.org/i3">], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "text 1" v2 "text 3""##, grdf_quad_pattern![_:"n0" "text 1" v2 "text 3"], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "text 1" v2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "text 1" v2 v3"##, grdf_quad_pattern![_:"n0" "text 1" v2 v3], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"_:"n0" "text 1" v2 ?x3"##, grdf_quad_pattern![_:"n0" "text 1" v2 ?x3], (R(b("_:n0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "text 1" ?x2 _:"n3""##, grdf_quad_pattern![_:"n0" "text 1" ?x2 _:"n3"], (R(b("_:n0")), R(l("text 1", XSD)), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "text 1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "text 1" ?x2 <"http://e.org/i3">], (R(b("_:n0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "text 1" ?x2 "text 3""##, grdf_quad_pattern![_:"n0" "text 1" ?x2 "text 3"], (R(b("_:n0")), R(l("text 1", XSD)), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "text 1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "text 1" ?x2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("text 1", XSD)), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "text 1" ?x2 v3"##, grdf_quad_pattern![_:"n0" "text 1" ?x2 v3], (R(b("_:n0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"_:"n0" "text 1" ?x2 ?x3"##, grdf_quad_pattern![_:"n0" "text 1" ?x2 ?x3], (R(b("_:n0")), R(l("text 1", XSD)), V(12), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" v3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" ?x3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" ?x3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2" "text 3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2" v3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "text 2" ?x3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "text 2" ?x3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2 _:"n3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2 "text 3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2 v3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" v2 ?x3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" v2 ?x3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2 _:"n3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2 _:"n3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2 "text 3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2 "text 3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2 v3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2 v3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"_:"n0" "value 1"^^"http://e.org/t1" ?x2 ?x3"##, grdf_quad_pattern![_:"n0" "value 1"^^"http://e.org/t1" ?x2 ?x3], (R(b("_:n0")), R(l("value 1", "http://e.org/t1")), V(12), Some(V(13)))); }
}

fn patterns_all_6(c: &mut Checks) {
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 _:"n2" _:"n3""##, grdf_quad_pattern![_:"n0" v1 _:"n2" _:"n3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" v1 _:"n2" <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 _:"n2" "text 3""##, grdf_quad_pattern![_:"n0" v1 _:"n2" "text 3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" v1 _:"n2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" v1 _:"n2" v3"##, grdf_quad_pattern![_:"n0" v1 _:"n2" v3], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"_:"n0" v1 _:"n2" ?x3"##, grdf_quad_pattern![_:"n0" v1 _:"n2" ?x3], (R(b("_:n0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2"> _:"n3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2"> <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2"> "text 3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" v1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2"> v3], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"_:"n0" v1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![_:"n0" v1 <"http://e.org/i2"> ?x3], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "text 2" _:"n3""##, grdf_quad_pattern![_:"n0" v1 "text 2" _:"n3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" v1 "text 2" <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "text 2" "text 3""##, grdf_quad_pattern![_:"n0" v1 "text 2" "text 3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" v1 "text 2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" v1 "text 2" v3"##, grdf_quad_pattern![_:"n0" v1 "text 2" v3], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"_:"n0" v1 "text 2" ?x3"##, grdf_quad_pattern![_:"n0" v1 "text 2" ?x3], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2" _:"n3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2" "text 3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2" v3], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![_:"n0" v1 "value 2"^^"http://e.org/t2" ?x3], (R(b("_:n0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" v1 v2 _:"n3""##, grdf_quad_pattern![_:"n0" v1 v2 _:"n3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" v1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" v1 v2 <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" v1 v2 "text 3""##, grdf_quad_pattern![_:"n0" v1 v2 "text 3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" v1 v2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" v1 v2 v3"##, grdf_quad_pattern![_:"n0" v1 v2 v3], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"_:"n0" v1 v2 ?x3"##, grdf_quad_pattern![_:"n0" v1 v2 ?x3], (R(b("_:n0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"_:"n0" v1 ?x2 _:"n3""##, grdf_quad_pattern![_:"n0" v1 ?x2 _:"n3"], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"_:"n0" v1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" v1 ?x2 <"http://e.org/i3">], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"_:"n0" v1 ?x2 "text 3""##, grdf_quad_pattern![_:"n0" v1 ?x2 "text 3"], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"_:"n0" v1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" v1 ?x2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" v1 ?x2 v3"##, grdf_quad_pattern![_:"n0" v1 ?x2 v3], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"_:"n0" v1 ?x2 ?x3"##, grdf_quad_pattern![_:"n0" v1 ?x2 ?x3], (R(b("_:n0")), R(i("http://e.org/v1")), V(12), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 _:"n2" _:"n3""##, grdf_quad_pattern![_:"n0" ?x1 _:"n2" _:"n3"], (R(b("_:n0")), V(11), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" ?x1 _:"n2" <"http://e.org/i3">], (R(b("_:n0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 _:"n2" "text 3""##, grdf_quad_pattern![_:"n0" ?x1 _:"n2" "text 3"], (R(b("_:n0")), V(11), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" ?x1 _:"n2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), V(11), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" ?x1 _:"n2" v3"##, grdf_quad_pattern![_:"n0" ?x1 _:"n2" v3], (R(b("_:n0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"_:"n0" ?x1 _:"n2" ?x3"##, grdf_quad_pattern![_:"n0" ?x1 _:"n2" ?x3], (R(b("_:n0")), V(11), R(b("_:n2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2"> _:"n3"], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2"> <"http://e.org/i3">], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2"> "text 3"], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2"> v3], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"_:"n0" ?x1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![_:"n0" ?x1 <"http://e.org/i2"> ?x3], (R(b("_:n0")), V(11), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "text 2" _:"n3""##, grdf_quad_pattern![_:"n0" ?x1 "text 2" _:"n3"], (R(b("_:n0")), V(11), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" ?x1 "text 2" <"http://e.org/i3">], (R(b("_:n0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "text 2" "text 3""##, grdf_quad_pattern![_:"n0" ?x1 "text 2" "text 3"], (R(b("_:n0")), V(11), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" ?x1 "text 2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), V(11), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" ?x1 "text 2" v3"##, grdf_quad_pattern![_:"n0" ?x1 "text 2" v3], (R(b("_:n0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"_:"n0" ?x1 "text 2" ?x3"##, grdf_quad_pattern![_:"n0" ?x1 "text 2" ?x3], (R(b("_:n0")), V(11), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2" _:"n3"], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2" "text 3"], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2" v3], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"_:"n0" ?x1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![_:"n0" ?x1 "value 2"^^"http://e.org/t2" ?x3], (R(b("_:n0")), V(11), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_7(c: &mut Checks) {
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" ?x1 v2 _:"n3""##, grdf_quad_pattern![_:"n0" ?x1 v2 _:"n3"], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" ?x1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" ?x1 v2 <"http://e.org/i3">], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" ?x1 v2 "text 3""##, grdf_quad_pattern![_:"n0" ?x1 v2 "text 3"], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"_:"n0" ?x1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" ?x1 v2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" ?x1 v2 v3"##, grdf_quad_pattern![_:"n0" ?x1 v2 v3], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"_:"n0" ?x1 v2 ?x3"##, grdf_quad_pattern![_:"n0" ?x1 v2 ?x3], (R(b("_:n0")), V(11), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"_:"n0" ?x1 ?x2 _:"n3""##, grdf_quad_pattern![_:"n0" ?x1 ?x2 _:"n3"], (R(b("_:n0")), V(11), V(12), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"_:"n0" ?x1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![_:"n0" ?x1 ?x2 <"http://e.org/i3">], (R(b("_:n0")), V(11), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"_:"n0" ?x1 ?x2 "text 3""##, grdf_quad_pattern![_:"n0" ?x1 ?x2 "text 3"], (R(b("_:n0")), V(11), V(12), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"_:"n0" ?x1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![_:"n0" ?x1 ?x2 "value 3"^^"http://e.org/t3"], (R(b("_:n0")), V(11), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"_:"n0" ?x1 ?x2 v3"##, grdf_quad_pattern![_:"n0" ?x1 ?x2 v3], (R(b("_:n0")), V(11), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"_:"n0" ?x1 ?x2 ?x3"##, grdf_quad_pattern![_:"n0" ?x1 ?x2 ?x3], (R(b("_:n0")), V(11), V(12), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2" _:"n3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2" "text 3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2" v3], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" _:"n2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" _:"n2" ?x3], (R(i("http://e.org/i0")), R(b("_:n1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "text 3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> v3], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> ?x3], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2" _:"n3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2" "text 3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2" v3], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" "text 2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "text 2" ?x3], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/i0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> _:"n1" v2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2 _:"n3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> _:"n1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> _:"n1" v2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2 "text 3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> _:"n1" v2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2 v3], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" v2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" v2 ?x3], (R(i("http://e.org/i0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2 _:"n3"], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2 "text 3"], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2 v3], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> _:"n1" ?x2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> _:"n1" ?x2 ?x3], (R(i("http://e.org/i0")), R(b("_:n1")), V(12), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" v3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> v3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_8(c: &mut Checks) {
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" v3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2 _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2 "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2 v3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> v2 ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2 _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2 "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2 v3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> <"http://e.org/i1"> ?x2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> <"http://e.org/i1"> ?x2 ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/i1")), V(12), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2" _:"n3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2" "text 3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2" v3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "text 1" _:"n2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" _:"n2" ?x3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "text 3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> v3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> ?x3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2" _:"n3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2" "text 3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2" v3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "text 1" "text 2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "text 2" ?x3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "text 1" v2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2 _:"n3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "text 1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "text 1" v2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2 "text 3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "text 1" v2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2 v3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "text 1" v2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" v2 ?x3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2 _:"n3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2 "text 3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2 v3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "text 1" ?x2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "text 1" ?x2 ?x3], (R(i("http://e.org/i0")), R(l("text 1", XSD)), V(12), Some(V(13)))); }
}

fn patterns_all_9(c: &mut Checks) {
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" v3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" ?x3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "text 3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" v3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" ?x3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 _:"n3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "text 3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 v3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 ?x3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 _:"n3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 "text 3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 v3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" ?x2 ?x3], (R(i("http://e.org/i0")), R(l("value 1", "http://e.org/t1")), V(12), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 _:"n2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2" _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 _:"n2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2" "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> v1 _:"n2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2" v3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> v1 _:"n2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 _:"n2" ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2"> "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2"> v3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 <"http://e.org/i2"> ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "text 2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2" _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "text 2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2" "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> v1 "text 2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2" v3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> v1 "text 2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 "text 2" ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_10(c: &mut Checks) {
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> v1 v2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2 _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> v1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> v1 v2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2 "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> v1 v2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2 v3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> v1 v2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 v2 ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> v1 ?x2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2 _:"n3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> v1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2 <"http://e.org/i3">], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> v1 ?x2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2 "text 3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> v1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> v1 ?x2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2 v3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> v1 ?x2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> v1 ?x2 ?x3], (R(i("http://e.org/i0")), R(i("http://e.org/v1")), V(12), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2" _:"n3"], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2" <"http://e.org/i3">], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2" "text 3"], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2" v3], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> ?x1 _:"n2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 _:"n2" ?x3], (R(i("http://e.org/i0")), V(11), R(b("_:n2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2"> "text 3"], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2"> v3], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> ?x1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 <"http://e.org/i2"> ?x3], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2" _:"n3"], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2" <"http://e.org/i3">], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2" "text 3"], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2" v3], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "text 2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "text 2" ?x3], (R(i("http://e.org/i0")), V(11), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/i0")), V(11), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> ?x1 v2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2 _:"n3"], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> ?x1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2 <"http://e.org/i3">], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> ?x1 v2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2 "text 3"], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"<"http://e.org/i0"> ?x1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> ?x1 v2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2 v3], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> ?x1 v2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 v2 ?x3], (R(i("http://e.org/i0")), V(11), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2 _:"n3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2 _:"n3"], (R(i("http://e.org/i0")), V(11), V(12), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2 <"http://e.org/i3">], (R(i("http://e.org/i0")), V(11), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2 "text 3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2 "text 3"], (R(i("http://e.org/i0")), V(11), V(12), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/i0")), V(11), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2 v3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2 v3], (R(i("http://e.org/i0")), V(11), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"<"http://e.org/i0"> ?x1 ?x2 ?x3"##, grdf_quad_pattern![<"http://e.org/i0"> ?x1 ?x2 ?x3], (R(i("http://e.org/i0")), V(11), V(12), Some(V(13)))); }
	{ c.pattern(r##""text 0" _:"n1" _:"n2" _:"n3""##, grdf_quad_pattern!["text 0" _:"n1" _:"n2" _:"n3"], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" _:"n1" _:"n2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" _:"n1" _:"n2" "text 3""##, grdf_quad_pattern!["text 0" _:"n1" _:"n2" "text 3"], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" _:"n1" _:"n2" v3"##, grdf_quad_pattern!["text 0" _:"n1" _:"n2" v3], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" _:"n1" _:"n2" ?x3"##, grdf_quad_pattern!["text 0" _:"n1" _:"n2" ?x3], (R(l("text 0", XSD)), R(b("_:n1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2"> _:"n3"], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2"> "text 3"], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" _:"n1" <"http://e.org/i2"> v3"##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2"> v3], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" _:"n1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["text 0" _:"n1" <"http://e.org/i2"> ?x3], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_11(c: &mut Checks) {
	{ c.pattern(r##""text 0" _:"n1" "text 2" _:"n3""##, grdf_quad_pattern!["text 0" _:"n1" "text 2" _:"n3"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" _:"n1" "text 2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" _:"n1" "text 2" "text 3""##, grdf_quad_pattern!["text 0" _:"n1" "text 2" "text 3"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" _:"n1" "text 2" v3"##, grdf_quad_pattern!["text 0" _:"n1" "text 2" v3], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" _:"n1" "text 2" ?x3"##, grdf_quad_pattern!["text 0" _:"n1" "text 2" ?x3], (R(l("text 0", XSD)), R(b("_:n1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2" v3], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" _:"n1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["text 0" _:"n1" "value 2"^^"http://e.org/t2" ?x3], (R(l("text 0", XSD)), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" _:"n1" v2 _:"n3""##, grdf_quad_pattern!["text 0" _:"n1" v2 _:"n3"], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" _:"n1" v2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" _:"n1" v2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" _:"n1" v2 "text 3""##, grdf_quad_pattern!["text 0" _:"n1" v2 "text 3"], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" _:"n1" v2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" _:"n1" v2 v3"##, grdf_quad_pattern!["text 0" _:"n1" v2 v3], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""text 0" _:"n1" v2 ?x3"##, grdf_quad_pattern!["text 0" _:"n1" v2 ?x3], (R(l("text 0", XSD)), R(b("_:n1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" _:"n1" ?x2 _:"n3""##, grdf_quad_pattern!["text 0" _:"n1" ?x2 _:"n3"], (R(l("text 0", XSD)), R(b("_:n1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" _:"n1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" _:"n1" ?x2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(b("_:n1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" _:"n1" ?x2 "text 3""##, grdf_quad_pattern!["text 0" _:"n1" ?x2 "text 3"], (R(l("text 0", XSD)), R(b("_:n1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" _:"n1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" _:"n1" ?x2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(b("_:n1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" _:"n1" ?x2 v3"##, grdf_quad_pattern!["text 0" _:"n1" ?x2 v3], (R(l("text 0", XSD)), R(b("_:n1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""text 0" _:"n1" ?x2 ?x3"##, grdf_quad_pattern!["text 0" _:"n1" ?x2 ?x3], (R(l("text 0", XSD)), R(b("_:n1")), V(12), Some(V(13)))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2" _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2" "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2" v3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2" v3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" <"http://e.org/i1"> _:"n2" ?x3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> _:"n2" ?x3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> v3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> ?x3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2" _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2" "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" <"http://e.org/i1"> "text 2" v3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2" v3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" <"http://e.org/i1"> "text 2" ?x3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "text 2" ?x3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" <"http://e.org/i1"> v2 _:"n3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2 _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" <"http://e.org/i1"> v2 "text 3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2 "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" <"http://e.org/i1"> v2 v3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2 v3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""text 0" <"http://e.org/i1"> v2 ?x3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> v2 ?x3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" <"http://e.org/i1"> ?x2 _:"n3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2 _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" <"http://e.org/i1"> ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" <"http://e.org/i1"> ?x2 "text 3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2 "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" <"http://e.org/i1"> ?x2 v3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2 v3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""text 0" <"http://e.org/i1"> ?x2 ?x3"##, grdf_quad_pattern!["text 0" <"http://e.org/i1"> ?x2 ?x3], (R(l("text 0", XSD)), R(i("http://e.org/i1")), V(12), Some(V(13)))); }
}

fn patterns_all_12(c: &mut Checks) {
	{ c.pattern(r##""text 0" "text 1" _:"n2" _:"n3""##, grdf_quad_pattern!["text 0" "text 1" _:"n2" _:"n3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "text 1" _:"n2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "text 1" _:"n2" "text 3""##, grdf_quad_pattern!["text 0" "text 1" _:"n2" "text 3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "text 1" _:"n2" v3"##, grdf_quad_pattern!["text 0" "text 1" _:"n2" v3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "text 1" _:"n2" ?x3"##, grdf_quad_pattern!["text 0" "text 1" _:"n2" ?x3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2"> _:"n3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2"> "text 3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "text 1" <"http://e.org/i2"> v3"##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2"> v3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "text 1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["text 0" "text 1" <"http://e.org/i2"> ?x3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" "text 1" "text 2" _:"n3""##, grdf_quad_pattern!["text 0" "text 1" "text 2" _:"n3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "text 1" "text 2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "text 1" "text 2" "text 3""##, grdf_quad_pattern!["text 0" "text 1" "text 2" "text 3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "text 1" "text 2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "text 1" "text 2" v3"##, grdf_quad_pattern!["text 0" "text 1" "text 2" v3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "text 1" "text 2" ?x3"##, grdf_quad_pattern!["text 0" "text 1" "text 2" ?x3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2" "text 3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2" v3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "text 1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["text 0" "text 1" "value 2"^^"http://e.org/t2" ?x3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "text 1" v2 _:"n3""##, grdf_quad_pattern!["text 0" "text 1" v2 _:"n3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "text 1" v2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "text 1" v2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "text 1" v2 "text 3""##, grdf_quad_pattern!["text 0" "text 1" v2 "text 3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "text 1" v2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "text 1" v2 v3"##, grdf_quad_pattern!["text 0" "text 1" v2 v3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""text 0" "text 1" v2 ?x3"##, grdf_quad_pattern!["text 0" "text 1" v2 ?x3], (R(l("text 0", XSD)), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "text 1" ?x2 _:"n3""##, grdf_quad_pattern!["text 0" "text 1" ?x2 _:"n3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "text 1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "text 1" ?x2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "text 1" ?x2 "text 3""##, grdf_quad_pattern!["text 0" "text 1" ?x2 "text 3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "text 1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "text 1" ?x2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "text 1" ?x2 v3"##, grdf_quad_pattern!["text 0" "text 1" ?x2 v3], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""text 0" "text 1" ?x2 ?x3"##, grdf_quad_pattern!["text 0" "text 1" ?x2 ?x3], (R(l("text 0", XSD)), R(l("text 1", XSD)), V(12), Some(V(13)))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2" v3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" _:"n2" ?x3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" _:"n2" ?x3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2" "text 3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2" v3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "text 2" ?x3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "text 2" ?x3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_13(c: &mut Checks) {
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2 _:"n3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2 "text 3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2 v3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" v2 ?x3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" v2 ?x3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2 _:"n3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2 _:"n3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2 "text 3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2 "text 3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2 v3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2 v3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""text 0" "value 1"^^"http://e.org/t1" ?x2 ?x3"##, grdf_quad_pattern!["text 0" "value 1"^^"http://e.org/t1" ?x2 ?x3], (R(l("text 0", XSD)), R(l("value 1", "http://e.org/t1")), V(12), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 _:"n2" _:"n3""##, grdf_quad_pattern!["text 0" v1 _:"n2" _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" v1 _:"n2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 _:"n2" "text 3""##, grdf_quad_pattern!["text 0" v1 _:"n2" "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" v1 _:"n2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" v1 _:"n2" v3"##, grdf_quad_pattern!["text 0" v1 _:"n2" v3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""text 0" v1 _:"n2" ?x3"##, grdf_quad_pattern!["text 0" v1 _:"n2" ?x3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(b("_:n2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2"> _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2"> <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2"> "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" v1 <"http://e.org/i2"> v3"##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2"> v3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""text 0" v1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["text 0" v1 <"http://e.org/i2"> ?x3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "text 2" _:"n3""##, grdf_quad_pattern!["text 0" v1 "text 2" _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" v1 "text 2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "text 2" "text 3""##, grdf_quad_pattern!["text 0" v1 "text 2" "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" v1 "text 2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" v1 "text 2" v3"##, grdf_quad_pattern!["text 0" v1 "text 2" v3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""text 0" v1 "text 2" ?x3"##, grdf_quad_pattern!["text 0" v1 "text 2" ?x3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2" _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2" "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2" v3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""text 0" v1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["text 0" v1 "value 2"^^"http://e.org/t2" ?x3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" v1 v2 _:"n3""##, grdf_quad_pattern!["text 0" v1 v2 _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" v1 v2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" v1 v2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" v1 v2 "text 3""##, grdf_quad_pattern!["text 0" v1 v2 "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" v1 v2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" v1 v2 v3"##, grdf_quad_pattern!["text 0" v1 v2 v3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""text 0" v1 v2 ?x3"##, grdf_quad_pattern!["text 0" v1 v2 ?x3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""text 0" v1 ?x2 _:"n3""##, grdf_quad_pattern!["text 0" v1 ?x2 _:"n3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""text 0" v1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" v1 ?x2 <"http://e.org/i3">], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""text 0" v1 ?x2 "text 3""##, grdf_quad_pattern!["text 0" v1 ?x2 "text 3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""text 0" v1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" v1 ?x2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" v1 ?x2 v3"##, grdf_quad_pattern!["text 0" v1 ?x2 v3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##""text 0" v1 ?x2 ?x3"##, grdf_quad_pattern!["text 0" v1 ?x2 ?x3], (R(l("text 0", XSD)), R(i("http://e.org/v1")), V(12), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 _:"n2" _:"n3""##, grdf_quad_pattern!["text 0" ?x1 _:"n2" _:"n3"], (R(l("text 0", XSD)), V(11), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" ?x1 _:"n2" <"http://e.org/i3">], (R(l("text 0", XSD)), V(11), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 _:"n2" "text 3""##, grdf_quad_pattern!["text 0" ?x1 _:"n2" "text 3"], (R(l("text 0", XSD)), V(11), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" ?x1 _:"n2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), V(11), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" ?x1 _:"n2" v3"##, grdf_quad_pattern!["text 0" ?x1 _:"n2" v3], (R(l("text 0", XSD)), V(11), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""text 0" ?x1 _:"n2" ?x3"##, grdf_quad_pattern!["text 0" ?x1 _:"n2" ?x3], (R(l("text 0", XSD)), V(11), R(b("_:n2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2"> _:"n3"], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2"> <"http://e.org/i3">], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2"> "text 3"], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" ?x1 <"http://e.org/i2"> v3"##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2"> v3], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""text 0" ?x1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["text 0" ?x1 <"http://e.org/i2"> ?x3], (R(l("text 0", XSD)), V(11), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_14(c: &mut Checks) {
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "text 2" _:"n3""##, grdf_quad_pattern!["text 0" ?x1 "text 2" _:"n3"], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" ?x1 "text 2" <"http://e.org/i3">], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "text 2" "text 3""##, grdf_quad_pattern!["text 0" ?x1 "text 2" "text 3"], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" ?x1 "text 2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" ?x1 "text 2" v3"##, grdf_quad_pattern!["text 0" ?x1 "text 2" v3], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""text 0" ?x1 "text 2" ?x3"##, grdf_quad_pattern!["text 0" ?x1 "text 2" ?x3], (R(l("text 0", XSD)), V(11), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2" _:"n3"], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2" "text 3"], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2" v3], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""text 0" ?x1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["text 0" ?x1 "value 2"^^"http://e.org/t2" ?x3], (R(l("text 0", XSD)), V(11), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" ?x1 v2 _:"n3""##, grdf_quad_pattern!["text 0" ?x1 v2 _:"n3"], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" ?x1 v2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" ?x1 v2 <"http://e.org/i3">], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" ?x1 v2 "text 3""##, grdf_quad_pattern!["text 0" ?x1 v2 "text 3"], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""text 0" ?x1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" ?x1 v2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" ?x1 v2 v3"##, grdf_quad_pattern!["text 0" ?x1 v2 v3], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""text 0" ?x1 v2 ?x3"##, grdf_quad_pattern!["text 0" ?x1 v2 ?x3], (R(l("text 0", XSD)), V(11), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""text 0" ?x1 ?x2 _:"n3""##, grdf_quad_pattern!["text 0" ?x1 ?x2 _:"n3"], (R(l("text 0", XSD)), V(11), V(12), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""text 0" ?x1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["text 0" ?x1 ?x2 <"http://e.org/i3">], (R(l("text 0", XSD)), V(11), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""text 0" ?x1 ?x2 "text 3""##, grdf_quad_pattern!["text 0" ?x1 ?x2 "text 3"], (R(l("text 0", XSD)), V(11), V(12), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""text 0" ?x1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["text 0" ?x1 ?x2 "value 3"^^"http://e.org/t3"], (R(l("text 0", XSD)), V(11), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""text 0" ?x1 ?x2 v3"##, grdf_quad_pattern!["text 0" ?x1 ?x2 v3], (R(l("text 0", XSD)), V(11), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##""text 0" ?x1 ?x2 ?x3"##, grdf_quad_pattern!["text 0" ?x1 ?x2 ?x3], (R(l("text 0", XSD)), V(11), V(12), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" v3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" _:"n2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" _:"n2" ?x3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> _:"n3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "text 3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> v3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" <"http://e.org/i2"> ?x3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2" v3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "text 2" ?x3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" v3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" "value 2"^^"http://e.org/t2" ?x3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2 v3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" v2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" v2 ?x3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2 v3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" _:"n1" ?x2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" _:"n1" ?x2 ?x3], (R(l("value 0", "http://e.org/t0")), R(b("_:n1")), V(12), Some(V(13)))); }
}

fn patterns_all_15(c: &mut Checks) {
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> v2 ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> ?x2 ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/i1")), V(12), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2" v3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" _:"n2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" _:"n2" ?x3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> v3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> ?x3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2" v3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "text 2" ?x3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" v3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" ?x3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_16(c: &mut Checks) {
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2 v3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" v2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" v2 ?x3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2 v3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "text 1" ?x2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "text 1" ?x2 ?x3], (R(l("value 0", "http://e.org/t0")), R(l("text 1", XSD)), V(12), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" v3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" ?x3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" v3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" ?x3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 v3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 ?x3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(b("_:n3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 v3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x2 = 12usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" ?x2 ?x3], (R(l("value 0", "http://e.org/t0")), R(l("value 1", "http://e.org/t1")), V(12), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2" v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 _:"n2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 _:"n2" ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 <"http://e.org/i2"> ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_17(c: &mut Checks) {
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2" v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 "text 2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "text 2" ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 "value 2"^^"http://e.org/t2" ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2 v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 v2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 v2 ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2 _:"n3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), Some(R(b("_:n3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2 "text 3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2 v3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" v1 ?x2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" v1 ?x2 ?x3], (R(l("value 0", "http://e.org/t0")), R(i("http://e.org/v1")), V(12), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2" _:"n3"], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2" "text 3"], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2" v3], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 _:"n2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 _:"n2" ?x3], (R(l("value 0", "http://e.org/t0")), V(11), R(b("_:n2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> _:"n3"], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> "text 3"], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> v3], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 <"http://e.org/i2"> ?x3], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2" _:"n3"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2" "text 3"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2" v3], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "text 2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "text 2" ?x3], (R(l("value 0", "http://e.org/t0")), V(11), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" _:"n3"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" "text 3"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" v3], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 "value 2"^^"http://e.org/t2" ?x3], (R(l("value 0", "http://e.org/t0")), V(11), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2 _:"n3"], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2 "text 3"], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2 v3], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 v2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 v2 ?x3], (R(l("value 0", "http://e.org/t0")), V(11), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2 _:"n3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2 _:"n3"], (R(l("value 0", "http://e.org/t0")), V(11), V(12), Some(R(b("_:n3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2 <"http://e.org/i3">], (R(l("value 0", "http://e.org/t0")), V(11), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2 "text 3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2 "text 3"], (R(l("value 0", "http://e.org/t0")), V(11), V(12), Some(R(l("text 3", XSD))))); }
	{ let x1 = 11usize; let x2 = 12usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2 "value 3"^^"http://e.org/t3"], (R(l("value 0", "http://e.org/t0")), V(11), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2 v3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2 v3], (R(l("value 0", "http://e.org/t0")), V(11), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x1 = 11usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##""value 0"^^"http://e.org/t0" ?x1 ?x2 ?x3"##, grdf_quad_pattern!["value 0"^^"http://e.org/t0" ?x1 ?x2 ?x3], (R(l("value 0", "http://e.org/t0")), V(11), V(12), Some(V(13)))); }
}

fn patterns_all_18(c: &mut Checks) {
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" _:"n2" _:"n3""##, grdf_quad_pattern![v0 _:"n1" _:"n2" _:"n3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 _:"n1" _:"n2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" _:"n2" "text 3""##, grdf_quad_pattern![v0 _:"n1" _:"n2" "text 3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 _:"n1" _:"n2" v3"##, grdf_quad_pattern![v0 _:"n1" _:"n2" v3], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 _:"n1" _:"n2" ?x3"##, grdf_quad_pattern![v0 _:"n1" _:"n2" ?x3], (R(i("http://e.org/v0")), R(b("_:n1")), R(b("_:n2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2"> "text 3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 _:"n1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2"> v3], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 _:"n1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![v0 _:"n1" <"http://e.org/i2"> ?x3], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "text 2" _:"n3""##, grdf_quad_pattern![v0 _:"n1" "text 2" _:"n3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 _:"n1" "text 2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "text 2" "text 3""##, grdf_quad_pattern![v0 _:"n1" "text 2" "text 3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 _:"n1" "text 2" v3"##, grdf_quad_pattern![v0 _:"n1" "text 2" v3], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 _:"n1" "text 2" ?x3"##, grdf_quad_pattern![v0 _:"n1" "text 2" ?x3], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![v0 _:"n1" "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/v0")), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 _:"n1" v2 _:"n3""##, grdf_quad_pattern![v0 _:"n1" v2 _:"n3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 _:"n1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 _:"n1" v2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 _:"n1" v2 "text 3""##, grdf_quad_pattern![v0 _:"n1" v2 "text 3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 _:"n1" v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 _:"n1" v2 v3"##, grdf_quad_pattern![v0 _:"n1" v2 v3], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"v0 _:"n1" v2 ?x3"##, grdf_quad_pattern![v0 _:"n1" v2 ?x3], (R(i("http://e.org/v0")), R(b("_:n1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 _:"n1" ?x2 _:"n3""##, grdf_quad_pattern![v0 _:"n1" ?x2 _:"n3"], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 _:"n1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 _:"n1" ?x2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 _:"n1" ?x2 "text 3""##, grdf_quad_pattern![v0 _:"n1" ?x2 "text 3"], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 _:"n1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 _:"n1" ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 _:"n1" ?x2 v3"##, grdf_quad_pattern![v0 _:"n1" ?x2 v3], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"v0 _:"n1" ?x2 ?x3"##, grdf_quad_pattern![v0 _:"n1" ?x2 ?x3], (R(i("http://e.org/v0")), R(b("_:n1")), V(12), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2" _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2" "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 <"http://e.org/i1"> _:"n2" v3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2" v3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 <"http://e.org/i1"> _:"n2" ?x3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> _:"n2" ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(b("_:n2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2"> v3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> <"http://e.org/i2"> ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2" _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2" "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 <"http://e.org/i1"> "text 2" v3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2" v3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 <"http://e.org/i1"> "text 2" ?x3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> "text 2" ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_19(c: &mut Checks) {
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 <"http://e.org/i1"> v2 _:"n3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2 _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 <"http://e.org/i1"> v2 "text 3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2 "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 <"http://e.org/i1"> v2 v3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2 v3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"v0 <"http://e.org/i1"> v2 ?x3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> v2 ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 <"http://e.org/i1"> ?x2 _:"n3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2 _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 <"http://e.org/i1"> ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 <"http://e.org/i1"> ?x2 "text 3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2 "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 <"http://e.org/i1"> ?x2 v3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2 v3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"v0 <"http://e.org/i1"> ?x2 ?x3"##, grdf_quad_pattern![v0 <"http://e.org/i1"> ?x2 ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/i1")), V(12), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" _:"n2" _:"n3""##, grdf_quad_pattern![v0 "text 1" _:"n2" _:"n3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 "text 1" _:"n2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" _:"n2" "text 3""##, grdf_quad_pattern![v0 "text 1" _:"n2" "text 3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "text 1" _:"n2" v3"##, grdf_quad_pattern![v0 "text 1" _:"n2" v3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "text 1" _:"n2" ?x3"##, grdf_quad_pattern![v0 "text 1" _:"n2" ?x3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(b("_:n2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2"> "text 3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "text 1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2"> v3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "text 1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![v0 "text 1" <"http://e.org/i2"> ?x3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "text 2" _:"n3""##, grdf_quad_pattern![v0 "text 1" "text 2" _:"n3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 "text 1" "text 2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "text 2" "text 3""##, grdf_quad_pattern![v0 "text 1" "text 2" "text 3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "text 1" "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "text 1" "text 2" v3"##, grdf_quad_pattern![v0 "text 1" "text 2" v3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "text 1" "text 2" ?x3"##, grdf_quad_pattern![v0 "text 1" "text 2" ?x3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "text 1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![v0 "text 1" "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "text 1" v2 _:"n3""##, grdf_quad_pattern![v0 "text 1" v2 _:"n3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "text 1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 "text 1" v2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "text 1" v2 "text 3""##, grdf_quad_pattern![v0 "text 1" v2 "text 3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "text 1" v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "text 1" v2 v3"##, grdf_quad_pattern![v0 "text 1" v2 v3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"v0 "text 1" v2 ?x3"##, grdf_quad_pattern![v0 "text 1" v2 ?x3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "text 1" ?x2 _:"n3""##, grdf_quad_pattern![v0 "text 1" ?x2 _:"n3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "text 1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 "text 1" ?x2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "text 1" ?x2 "text 3""##, grdf_quad_pattern![v0 "text 1" ?x2 "text 3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "text 1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "text 1" ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "text 1" ?x2 v3"##, grdf_quad_pattern![v0 "text 1" ?x2 v3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"v0 "text 1" ?x2 ?x3"##, grdf_quad_pattern![v0 "text 1" ?x2 ?x3], (R(i("http://e.org/v0")), R(l("text 1", XSD)), V(12), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2" v3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" _:"n2" ?x3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" _:"n2" ?x3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_20(c: &mut Checks) {
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2" "text 3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2" v3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "text 2" ?x3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "text 2" ?x3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x3 = 13usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2 _:"n3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2 "text 3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2 v3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" v2 ?x3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" v2 ?x3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2 _:"n3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2 _:"n3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2 "text 3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2 "text 3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2 v3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2 v3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"v0 "value 1"^^"http://e.org/t1" ?x2 ?x3"##, grdf_quad_pattern![v0 "value 1"^^"http://e.org/t1" ?x2 ?x3], (R(i("http://e.org/v0")), R(l("value 1", "http://e.org/t1")), V(12), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 _:"n2" _:"n3""##, grdf_quad_pattern![v0 v1 _:"n2" _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 v1 _:"n2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 _:"n2" "text 3""##, grdf_quad_pattern![v0 v1 _:"n2" "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 v1 _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 v1 _:"n2" v3"##, grdf_quad_pattern![v0 v1 _:"n2" v3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"v0 v1 _:"n2" ?x3"##, grdf_quad_pattern![v0 v1 _:"n2" ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(b("_:n2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![v0 v1 <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![v0 v1 <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![v0 v1 <"http://e.org/i2"> "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 v1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![v0 v1 <"http://e.org/i2"> v3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"v0 v1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![v0 v1 <"http://e.org/i2"> ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "text 2" _:"n3""##, grdf_quad_pattern![v0 v1 "text 2" _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 v1 "text 2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "text 2" "text 3""##, grdf_quad_pattern![v0 v1 "text 2" "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 v1 "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 v1 "text 2" v3"##, grdf_quad_pattern![v0 v1 "text 2" v3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"v0 v1 "text 2" ?x3"##, grdf_quad_pattern![v0 v1 "text 2" ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"v0 v1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![v0 v1 "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 v1 v2 _:"n3""##, grdf_quad_pattern![v0 v1 v2 _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 v1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 v1 v2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 v1 v2 "text 3""##, grdf_quad_pattern![v0 v1 v2 "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 v1 v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 v1 v2 v3"##, grdf_quad_pattern![v0 v1 v2 v3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"v0 v1 v2 ?x3"##, grdf_quad_pattern![v0 v1 v2 ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"v0 v1 ?x2 _:"n3""##, grdf_quad_pattern![v0 v1 ?x2 _:"n3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"v0 v1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 v1 ?x2 <"http://e.org/i3">], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"v0 v1 ?x2 "text 3""##, grdf_quad_pattern![v0 v1 ?x2 "text 3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"v0 v1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 v1 ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 v1 ?x2 v3"##, grdf_quad_pattern![v0 v1 ?x2 v3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"v0 v1 ?x2 ?x3"##, grdf_quad_pattern![v0 v1 ?x2 ?x3], (R(i("http://e.org/v0")), R(i("http://e.org/v1")), V(12), Some(V(13)))); }
}

fn patterns_all_21(c: &mut Checks) {
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 _:"n2" _:"n3""##, grdf_quad_pattern![v0 ?x1 _:"n2" _:"n3"], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 ?x1 _:"n2" <"http://e.org/i3">], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 _:"n2" "text 3""##, grdf_quad_pattern![v0 ?x1 _:"n2" "text 3"], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 ?x1 _:"n2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 ?x1 _:"n2" v3"##, grdf_quad_pattern![v0 ?x1 _:"n2" v3], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x3 = 13usize; c.pattern(r##"v0 ?x1 _:"n2" ?x3"##, grdf_quad_pattern![v0 ?x1 _:"n2" ?x3], (R(i("http://e.org/v0")), V(11), R(b("_:n2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2"> _:"n3"], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2"> <"http://e.org/i3">], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2"> "text 3"], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 ?x1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2"> v3], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x3 = 13usize; c.pattern(r##"v0 ?x1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![v0 ?x1 <"http://e.org/i2"> ?x3], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "text 2" _:"n3""##, grdf_quad_pattern![v0 ?x1 "text 2" _:"n3"], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 ?x1 "text 2" <"http://e.org/i3">], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "text 2" "text 3""##, grdf_quad_pattern![v0 ?x1 "text 2" "text 3"], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 ?x1 "text 2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 ?x1 "text 2" v3"##, grdf_quad_pattern![v0 ?x1 "text 2" v3], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x3 = 13usize; c.pattern(r##"v0 ?x1 "text 2" ?x3"##, grdf_quad_pattern![v0 ?x1 "text 2" ?x3], (R(i("http://e.org/v0")), V(11), R(l("text 2", XSD)), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2" _:"n3"], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2" "text 3"], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2" v3], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x3 = 13usize; c.pattern(r##"v0 ?x1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![v0 ?x1 "value 2"^^"http://e.org/t2" ?x3], (R(i("http://e.org/v0")), V(11), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 ?x1 v2 _:"n3""##, grdf_quad_pattern![v0 ?x1 v2 _:"n3"], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 ?x1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 ?x1 v2 <"http://e.org/i3">], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 ?x1 v2 "text 3""##, grdf_quad_pattern![v0 ?x1 v2 "text 3"], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"v0 ?x1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 ?x1 v2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 ?x1 v2 v3"##, grdf_quad_pattern![v0 ?x1 v2 v3], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"v0 ?x1 v2 ?x3"##, grdf_quad_pattern![v0 ?x1 v2 ?x3], (R(i("http://e.org/v0")), V(11), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; c.pattern(r##"v0 ?x1 ?x2 _:"n3""##, grdf_quad_pattern![v0 ?x1 ?x2 _:"n3"], (R(i("http://e.org/v0")), V(11), V(12), Some(R(b("_:n3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; c.pattern(r##"v0 ?x1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![v0 ?x1 ?x2 <"http://e.org/i3">], (R(i("http://e.org/v0")), V(11), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; c.pattern(r##"v0 ?x1 ?x2 "text 3""##, grdf_quad_pattern![v0 ?x1 ?x2 "text 3"], (R(i("http://e.org/v0")), V(11), V(12), Some(R(l("text 3", XSD))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; c.pattern(r##"v0 ?x1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![v0 ?x1 ?x2 "value 3"^^"http://e.org/t3"], (R(i("http://e.org/v0")), V(11), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"v0 ?x1 ?x2 v3"##, grdf_quad_pattern![v0 ?x1 ?x2 v3], (R(i("http://e.org/v0")), V(11), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let v0 = LocalTerm::iri(var("http://e.org/v0")); let x1 = 11usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"v0 ?x1 ?x2 ?x3"##, grdf_quad_pattern![v0 ?x1 ?x2 ?x3], (R(i("http://e.org/v0")), V(11), V(12), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" _:"n2" _:"n3""##, grdf_quad_pattern![?x0 _:"n1" _:"n2" _:"n3"], (V(10), R(b("_:n1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 _:"n1" _:"n2" <"http://e.org/i3">], (V(10), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" _:"n2" "text 3""##, grdf_quad_pattern![?x0 _:"n1" _:"n2" "text 3"], (V(10), R(b("_:n1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 _:"n1" _:"n2" "value 3"^^"http://e.org/t3"], (V(10), R(b("_:n1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 _:"n1" _:"n2" v3"##, grdf_quad_pattern![?x0 _:"n1" _:"n2" v3], (V(10), R(b("_:n1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 _:"n1" _:"n2" ?x3"##, grdf_quad_pattern![?x0 _:"n1" _:"n2" ?x3], (V(10), R(b("_:n1")), R(b("_:n2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2"> _:"n3"], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2"> <"http://e.org/i3">], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2"> "text 3"], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 _:"n1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2"> v3], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 _:"n1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![?x0 _:"n1" <"http://e.org/i2"> ?x3], (V(10), R(b("_:n1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "text 2" _:"n3""##, grdf_quad_pattern![?x0 _:"n1" "text 2" _:"n3"], (V(10), R(b("_:n1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 _:"n1" "text 2" <"http://e.org/i3">], (V(10), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "text 2" "text 3""##, grdf_quad_pattern![?x0 _:"n1" "text 2" "text 3"], (V(10), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 _:"n1" "text 2" "value 3"^^"http://e.org/t3"], (V(10), R(b("_:n1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 _:"n1" "text 2" v3"##, grdf_quad_pattern![?x0 _:"n1" "text 2" v3], (V(10), R(b("_:n1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 _:"n1" "text 2" ?x3"##, grdf_quad_pattern![?x0 _:"n1" "text 2" ?x3], (V(10), R(b("_:n1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2" _:"n3"], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2" "text 3"], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2" v3], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 _:"n1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![?x0 _:"n1" "value 2"^^"http://e.org/t2" ?x3], (V(10), R(b("_:n1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_22(c: &mut Checks) {
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 _:"n1" v2 _:"n3""##, grdf_quad_pattern![?x0 _:"n1" v2 _:"n3"], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 _:"n1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 _:"n1" v2 <"http://e.org/i3">], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 _:"n1" v2 "text 3""##, grdf_quad_pattern![?x0 _:"n1" v2 "text 3"], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 _:"n1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 _:"n1" v2 "value 3"^^"http://e.org/t3"], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 _:"n1" v2 v3"##, grdf_quad_pattern![?x0 _:"n1" v2 v3], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"?x0 _:"n1" v2 ?x3"##, grdf_quad_pattern![?x0 _:"n1" v2 ?x3], (V(10), R(b("_:n1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 _:"n1" ?x2 _:"n3""##, grdf_quad_pattern![?x0 _:"n1" ?x2 _:"n3"], (V(10), R(b("_:n1")), V(12), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 _:"n1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 _:"n1" ?x2 <"http://e.org/i3">], (V(10), R(b("_:n1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 _:"n1" ?x2 "text 3""##, grdf_quad_pattern![?x0 _:"n1" ?x2 "text 3"], (V(10), R(b("_:n1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 _:"n1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 _:"n1" ?x2 "value 3"^^"http://e.org/t3"], (V(10), R(b("_:n1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 _:"n1" ?x2 v3"##, grdf_quad_pattern![?x0 _:"n1" ?x2 v3], (V(10), R(b("_:n1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"?x0 _:"n1" ?x2 ?x3"##, grdf_quad_pattern![?x0 _:"n1" ?x2 ?x3], (V(10), R(b("_:n1")), V(12), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2" _:"n3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2" _:"n3"], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2" <"http://e.org/i3">], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2" "text 3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2" "text 3"], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2" "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2" v3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2" v3], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 <"http://e.org/i1"> _:"n2" ?x3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> _:"n2" ?x3], (V(10), R(i("http://e.org/i1")), R(b("_:n2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2"> _:"n3"], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3">], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2"> "text 3"], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2"> v3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2"> v3], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 <"http://e.org/i1"> <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> <"http://e.org/i2"> ?x3], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "text 2" _:"n3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2" _:"n3"], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2" <"http://e.org/i3">], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "text 2" "text 3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2" "text 3"], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2" "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 <"http://e.org/i1"> "text 2" v3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2" v3], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 <"http://e.org/i1"> "text 2" ?x3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "text 2" ?x3], (V(10), R(i("http://e.org/i1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" _:"n3"], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "text 3"], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" v3], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> "value 2"^^"http://e.org/t2" ?x3], (V(10), R(i("http://e.org/i1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 <"http://e.org/i1"> v2 _:"n3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2 _:"n3"], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 <"http://e.org/i1"> v2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2 <"http://e.org/i3">], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 <"http://e.org/i1"> v2 "text 3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2 "text 3"], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2 "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 <"http://e.org/i1"> v2 v3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2 v3], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"?x0 <"http://e.org/i1"> v2 ?x3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> v2 ?x3], (V(10), R(i("http://e.org/i1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 <"http://e.org/i1"> ?x2 _:"n3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2 _:"n3"], (V(10), R(i("http://e.org/i1")), V(12), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 <"http://e.org/i1"> ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2 <"http://e.org/i3">], (V(10), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 <"http://e.org/i1"> ?x2 "text 3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2 "text 3"], (V(10), R(i("http://e.org/i1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2 "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/i1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 <"http://e.org/i1"> ?x2 v3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2 v3], (V(10), R(i("http://e.org/i1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"?x0 <"http://e.org/i1"> ?x2 ?x3"##, grdf_quad_pattern![?x0 <"http://e.org/i1"> ?x2 ?x3], (V(10), R(i("http://e.org/i1")), V(12), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" _:"n2" _:"n3""##, grdf_quad_pattern![?x0 "text 1" _:"n2" _:"n3"], (V(10), R(l("text 1", XSD)), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "text 1" _:"n2" <"http://e.org/i3">], (V(10), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" _:"n2" "text 3""##, grdf_quad_pattern![?x0 "text 1" _:"n2" "text 3"], (V(10), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "text 1" _:"n2" "value 3"^^"http://e.org/t3"], (V(10), R(l("text 1", XSD)), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "text 1" _:"n2" v3"##, grdf_quad_pattern![?x0 "text 1" _:"n2" v3], (V(10), R(l("text 1", XSD)), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "text 1" _:"n2" ?x3"##, grdf_quad_pattern![?x0 "text 1" _:"n2" ?x3], (V(10), R(l("text 1", XSD)), R(b("_:n2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2"> _:"n3"], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2"> <"http://e.org/i3">], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2"> "text 3"], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "text 1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2"> v3], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "text 1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![?x0 "text 1" <"http://e.org/i2"> ?x3], (V(10), R(l("text 1", XSD)), R(i("http://e.org/i2")), Some(V(13)))); }
}

fn patterns_all_23(c: &mut Checks) {
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "text 2" _:"n3""##, grdf_quad_pattern![?x0 "text 1" "text 2" _:"n3"], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "text 1" "text 2" <"http://e.org/i3">], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "text 2" "text 3""##, grdf_quad_pattern![?x0 "text 1" "text 2" "text 3"], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "text 1" "text 2" "value 3"^^"http://e.org/t3"], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "text 1" "text 2" v3"##, grdf_quad_pattern![?x0 "text 1" "text 2" v3], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "text 1" "text 2" ?x3"##, grdf_quad_pattern![?x0 "text 1" "text 2" ?x3], (V(10), R(l("text 1", XSD)), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2" _:"n3"], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2" "text 3"], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2" v3], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "text 1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![?x0 "text 1" "value 2"^^"http://e.org/t2" ?x3], (V(10), R(l("text 1", XSD)), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "text 1" v2 _:"n3""##, grdf_quad_pattern![?x0 "text 1" v2 _:"n3"], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "text 1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "text 1" v2 <"http://e.org/i3">], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "text 1" v2 "text 3""##, grdf_quad_pattern![?x0 "text 1" v2 "text 3"], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "text 1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "text 1" v2 "value 3"^^"http://e.org/t3"], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "text 1" v2 v3"##, grdf_quad_pattern![?x0 "text 1" v2 v3], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"?x0 "text 1" v2 ?x3"##, grdf_quad_pattern![?x0 "text 1" v2 ?x3], (V(10), R(l("text 1", XSD)), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "text 1" ?x2 _:"n3""##, grdf_quad_pattern![?x0 "text 1" ?x2 _:"n3"], (V(10), R(l("text 1", XSD)), V(12), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "text 1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "text 1" ?x2 <"http://e.org/i3">], (V(10), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "text 1" ?x2 "text 3""##, grdf_quad_pattern![?x0 "text 1" ?x2 "text 3"], (V(10), R(l("text 1", XSD)), V(12), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "text 1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "text 1" ?x2 "value 3"^^"http://e.org/t3"], (V(10), R(l("text 1", XSD)), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "text 1" ?x2 v3"##, grdf_quad_pattern![?x0 "text 1" ?x2 v3], (V(10), R(l("text 1", XSD)), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"?x0 "text 1" ?x2 ?x3"##, grdf_quad_pattern![?x0 "text 1" ?x2 ?x3], (V(10), R(l("text 1", XSD)), V(12), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2" _:"n3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2" _:"n3"], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2" <"http://e.org/i3">], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2" "text 3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2" "text 3"], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2" "value 3"^^"http://e.org/t3"], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2" v3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2" v3], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" _:"n2" ?x3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" _:"n2" ?x3], (V(10), R(l("value 1", "http://e.org/t1")), R(b("_:n2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> _:"n3"], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> <"http://e.org/i3">], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "text 3"], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> ?x3], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2" _:"n3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2" _:"n3"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2" <"http://e.org/i3">], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2" "text 3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2" "text 3"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2" v3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2" v3], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "text 2" ?x3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "text 2" ?x3], (V(10), R(l("value 1", "http://e.org/t1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" _:"n3"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "text 3"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x3 = 13usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" ?x3], (V(10), R(l("value 1", "http://e.org/t1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2 _:"n3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2 _:"n3"], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2 <"http://e.org/i3">], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2 "text 3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2 "text 3"], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2 "value 3"^^"http://e.org/t3"], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2 v3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2 v3], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" v2 ?x3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" v2 ?x3], (V(10), R(l("value 1", "http://e.org/t1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2 _:"n3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2 _:"n3"], (V(10), R(l("value 1", "http://e.org/t1")), V(12), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2 <"http://e.org/i3">], (V(10), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2 "text 3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2 "text 3"], (V(10), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x2 = 12usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2 "value 3"^^"http://e.org/t3"], (V(10), R(l("value 1", "http://e.org/t1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2 v3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2 v3], (V(10), R(l("value 1", "http://e.org/t1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"?x0 "value 1"^^"http://e.org/t1" ?x2 ?x3"##, grdf_quad_pattern![?x0 "value 1"^^"http://e.org/t1" ?x2 ?x3], (V(10), R(l("value 1", "http://e.org/t1")), V(12), Some(V(13)))); }
}

fn patterns_all_24(c: &mut Checks) {
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 _:"n2" _:"n3""##, grdf_quad_pattern![?x0 v1 _:"n2" _:"n3"], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 v1 _:"n2" <"http://e.org/i3">], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 _:"n2" "text 3""##, grdf_quad_pattern![?x0 v1 _:"n2" "text 3"], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 v1 _:"n2" "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 v1 _:"n2" v3"##, grdf_quad_pattern![?x0 v1 _:"n2" v3], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"?x0 v1 _:"n2" ?x3"##, grdf_quad_pattern![?x0 v1 _:"n2" ?x3], (V(10), R(i("http://e.org/v1")), R(b("_:n2")), Some(V(13)))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2"> _:"n3"], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2"> <"http://e.org/i3">], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2"> "text 3"], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 v1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2"> v3], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"?x0 v1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![?x0 v1 <"http://e.org/i2"> ?x3], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "text 2" _:"n3""##, grdf_quad_pattern![?x0 v1 "text 2" _:"n3"], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 v1 "text 2" <"http://e.org/i3">], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "text 2" "text 3""##, grdf_quad_pattern![?x0 v1 "text 2" "text 3"], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 v1 "text 2" "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 v1 "text 2" v3"##, grdf_quad_pattern![?x0 v1 "text 2" v3], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"?x0 v1 "text 2" ?x3"##, grdf_quad_pattern![?x0 v1 "text 2" ?x3], (V(10), R(i("http://e.org/v1")), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2" _:"n3"], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2" "text 3"], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2" v3], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x3 = 13usize; c.pattern(r##"?x0 v1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![?x0 v1 "value 2"^^"http://e.org/t2" ?x3], (V(10), R(i("http://e.org/v1")), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 v1 v2 _:"n3""##, grdf_quad_pattern![?x0 v1 v2 _:"n3"], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 v1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 v1 v2 <"http://e.org/i3">], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 v1 v2 "text 3""##, grdf_quad_pattern![?x0 v1 v2 "text 3"], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 v1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 v1 v2 "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 v1 v2 v3"##, grdf_quad_pattern![?x0 v1 v2 v3], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"?x0 v1 v2 ?x3"##, grdf_quad_pattern![?x0 v1 v2 ?x3], (V(10), R(i("http://e.org/v1")), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"?x0 v1 ?x2 _:"n3""##, grdf_quad_pattern![?x0 v1 ?x2 _:"n3"], (V(10), R(i("http://e.org/v1")), V(12), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"?x0 v1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 v1 ?x2 <"http://e.org/i3">], (V(10), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"?x0 v1 ?x2 "text 3""##, grdf_quad_pattern![?x0 v1 ?x2 "text 3"], (V(10), R(i("http://e.org/v1")), V(12), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; c.pattern(r##"?x0 v1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 v1 ?x2 "value 3"^^"http://e.org/t3"], (V(10), R(i("http://e.org/v1")), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 v1 ?x2 v3"##, grdf_quad_pattern![?x0 v1 ?x2 v3], (V(10), R(i("http://e.org/v1")), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let v1 = LocalTerm::iri(var("http://e.org/v1")); let x2 = 12usize; let x3 = 13usize; c.pattern(r##"?x0 v1 ?x2 ?x3"##, grdf_quad_pattern![?x0 v1 ?x2 ?x3], (V(10), R(i("http://e.org/v1")), V(12), Some(V(13)))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 _:"n2" _:"n3""##, grdf_quad_pattern![?x0 ?x1 _:"n2" _:"n3"], (V(10), V(11), R(b("_:n2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 _:"n2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 ?x1 _:"n2" <"http://e.org/i3">], (V(10), V(11), R(b("_:n2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 _:"n2" "text 3""##, grdf_quad_pattern![?x0 ?x1 _:"n2" "text 3"], (V(10), V(11), R(b("_:n2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 _:"n2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 ?x1 _:"n2" "value 3"^^"http://e.org/t3"], (V(10), V(11), R(b("_:n2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 ?x1 _:"n2" v3"##, grdf_quad_pattern![?x0 ?x1 _:"n2" v3], (V(10), V(11), R(b("_:n2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x3 = 13usize; c.pattern(r##"?x0 ?x1 _:"n2" ?x3"##, grdf_quad_pattern![?x0 ?x1 _:"n2" ?x3], (V(10), V(11), R(b("_:n2")), Some(V(13)))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 <"http://e.org/i2"> _:"n3""##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2"> _:"n3"], (V(10), V(11), R(i("http://e.org/i2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 <"http://e.org/i2"> <"http://e.org/i3">"##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2"> <"http://e.org/i3">], (V(10), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 <"http://e.org/i2"> "text 3""##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2"> "text 3"], (V(10), V(11), R(i("http://e.org/i2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2"> "value 3"^^"http://e.org/t3"], (V(10), V(11), R(i("http://e.org/i2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 ?x1 <"http://e.org/i2"> v3"##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2"> v3], (V(10), V(11), R(i("http://e.org/i2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x3 = 13usize; c.pattern(r##"?x0 ?x1 <"http://e.org/i2"> ?x3"##, grdf_quad_pattern![?x0 ?x1 <"http://e.org/i2"> ?x3], (V(10), V(11), R(i("http://e.org/i2")), Some(V(13)))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "text 2" _:"n3""##, grdf_quad_pattern![?x0 ?x1 "text 2" _:"n3"], (V(10), V(11), R(l("text 2", XSD)), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "text 2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 ?x1 "text 2" <"http://e.org/i3">], (V(10), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "text 2" "text 3""##, grdf_quad_pattern![?x0 ?x1 "text 2" "text 3"], (V(10), V(11), R(l("text 2", XSD)), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "text 2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 ?x1 "text 2" "value 3"^^"http://e.org/t3"], (V(10), V(11), R(l("text 2", XSD)), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 ?x1 "text 2" v3"##, grdf_quad_pattern![?x0 ?x1 "text 2" v3], (V(10), V(11), R(l("text 2", XSD)), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x3 = 13usize; c.pattern(r##"?x0 ?x1 "text 2" ?x3"##, grdf_quad_pattern![?x0 ?x1 "text 2" ?x3], (V(10), V(11), R(l("text 2", XSD)), Some(V(13)))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2" _:"n3""##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2" _:"n3"], (V(10), V(11), R(l("value 2", "http://e.org/t2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">"##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2" <"http://e.org/i3">], (V(10), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2" "text 3""##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2" "text 3"], (V(10), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x1 = 11usize; c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3"], (V(10), V(11), R(l("value 2", "http://e.org/t2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2" v3"##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2" v3], (V(10), V(11), R(l("value 2", "http://e.org/t2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x3 = 13usize; c.pattern(r##"?x0 ?x1 "value 2"^^"http://e.org/t2" ?x3"##, grdf_quad_pattern![?x0 ?x1 "value 2"^^"http://e.org/t2" ?x3], (V(10), V(11), R(l("value 2", "http://e.org/t2")), Some(V(13)))); }
}

fn patterns_all_25(c: &mut Checks) {
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 ?x1 v2 _:"n3""##, grdf_quad_pattern![?x0 ?x1 v2 _:"n3"], (V(10), V(11), R(i("http://e.org/v2")), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 ?x1 v2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 ?x1 v2 <"http://e.org/i3">], (V(10), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 ?x1 v2 "text 3""##, grdf_quad_pattern![?x0 ?x1 v2 "text 3"], (V(10), V(11), R(i("http://e.org/v2")), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); c.pattern(r##"?x0 ?x1 v2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 ?x1 v2 "value 3"^^"http://e.org/t3"], (V(10), V(11), R(i("http://e.org/v2")), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 ?x1 v2 v3"##, grdf_quad_pattern![?x0 ?x1 v2 v3], (V(10), V(11), R(i("http://e.org/v2")), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let v2 = LocalTerm::iri(var("http://e.org/v2")); let x3 = 13usize; c.pattern(r##"?x0 ?x1 v2 ?x3"##, grdf_quad_pattern![?x0 ?x1 v2 ?x3], (V(10), V(11), R(i("http://e.org/v2")), Some(V(13)))); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; c.pattern(r##"?x0 ?x1 ?x2 _:"n3""##, grdf_quad_pattern![?x0 ?x1 ?x2 _:"n3"], (V(10), V(11), V(12), Some(R(b("_:n3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; c.pattern(r##"?x0 ?x1 ?x2 <"http://e.org/i3">"##, grdf_quad_pattern![?x0 ?x1 ?x2 <"http://e.org/i3">], (V(10), V(11), V(12), Some(R(i("http://e.org/i3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; c.pattern(r##"?x0 ?x1 ?x2 "text 3""##, grdf_quad_pattern![?x0 ?x1 ?x2 "text 3"], (V(10), V(11), V(12), Some(R(l("text 3", XSD))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; c.pattern(r##"?x0 ?x1 ?x2 "value 3"^^"http://e.org/t3""##, grdf_quad_pattern![?x0 ?x1 ?x2 "value 3"^^"http://e.org/t3"], (V(10), V(11), V(12), Some(R(l("value 3", "http://e.org/t3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; let v3 = LocalTerm::iri(var("http://e.org/v3")); c.pattern(r##"?x0 ?x1 ?x2 v3"##, grdf_quad_pattern![?x0 ?x1 ?x2 v3], (V(10), V(11), V(12), Some(R(i("http://e.org/v3"))))); }
	{ let x0 = 10usize; let x1 = 11usize; let x2 = 12usize; let x3 = 13usize; c.pattern(r##"?x0 ?x1 ?x2 ?x3"##, grdf_quad_pattern![?x0 ?x1 ?x2 ?x3], (V(10), V(11), V(12), Some(V(13)))); }
}

fn lists_0(c: &mut Checks) {
	{ c.triples(r##""##, &grdf_triples![] as &[Triple], &[]); }
	{ c.triples(r##""##, &grdf_triples![] as &[Triple], &[]); }
	{ let v2 = var("http://e.org/v2"); c.triples(r##"_:"n0" "text 1" v2 ."##, &grdf_triples![_:"n0" "text 1" v2 .] as &[Triple], &[(b("_:n0"), l("text 1", XSD), i("http://e.org/v2"))]); }
	{ c.triples(r##"_:"n0" <"http://e.org/i1"> _:"n2" ."##, &grdf_triples![_:"n0" <"http://e.org/i1"> _:"n2" .] as &[Triple], &[(b("_:n0"), i("http://e.org/i1"), b("_:n2"))]); }
	{ c.triples(r##""value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" ."##, &grdf_triples!["value 0"^^"http://e.org/t0" "text 1" "value 2"^^"http://e.org/t2" .] as &[Triple], &[(l("value 0", "http://e.org/t0"), l("text 1", XSD), l("value 2", "http://e.org/t2"))]); }
	{ let v1 = var("http://e.org/v1"); let v2 = var("http://e.org/v2"); c.triples(r##""value 0"^^"http://e.org/t0" v1 v2 ."##, &grdf_triples!["value 0"^^"http://e.org/t0" v1 v2 .] as &[Triple], &[(l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"))]); }
	{ c.triples(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" . _:"n0" "value 11"^^"http://e.org/t11" "text 12" ."##, &grdf_triples!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" . _:"n0" "value 11"^^"http://e.org/t11" "text 12" .] as &[Triple], &[(l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2")), (b("_:n0"), l("value 11", "http://e.org/t11"), l("text 12", XSD))]); }
	{ let v1 = var("http://e.org/v1"); c.triples(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" "text 1" <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> v1 <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" "text 1" <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2")), (l("value 10", "http://e.org/t10"), l("text 1", XSD), i("http://e.org/i12"))]); }
	{ let v1 = var("http://e.org/v1"); c.triples(r##"_:"n0" v1 "text 2" . "text 10" <"http://e.org/i11"> "text 12" ."##, &grdf_triples![_:"n0" v1 "text 2" . "text 10" <"http://e.org/i11"> "text 12" .] as &[Triple], &[(b("_:n0"), i("http://e.org/v1"), l("text 2", XSD)), (l("text 10", XSD), i("http://e.org/i11"), l("text 12", XSD))]); }
	{ let v0 = var("http://e.org/v0"); c.triples(r##"v0 "value 1"^^"http://e.org/t1" "text 2" . "text 0" "text 1" _:"n12" ."##, &grdf_triples![v0 "value 1"^^"http://e.org/t1" "text 2" . "text 0" "text 1" _:"n12" .] as &[Triple], &[(i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD)), (l("text 0", XSD), l("text 1", XSD), b("_:n12"))]); }
	{ c.triples(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" . "text 10" _:"n11" _:"n2" . "text 0" _:"n1" "text 22" ."##, &grdf_triples!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" _:"n2" . "text 10" _:"n11" _:"n2" . "text 0" _:"n1" "text 22" .] as &[Triple], &[(l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), b("_:n2")), (l("text 10", XSD), b("_:n11"), b("_:n2")), (l("text 0", XSD), b("_:n1"), l("text 22", XSD))]); }
	{ let v2 = var("http://e.org/v2"); let v22 = var("http://e.org/v22"); c.triples(r##""text 0" "value 1"^^"http://e.org/t1" v2 . <"http://e.org/i0"> "text 1" <"http://e.org/i12"> . _:"n0" <"http://e.org/i1"> v22 ."##, &grdf_triples!["text 0" "value 1"^^"http://e.org/t1" v2 . <"http://e.org/i0"> "text 1" <"http://e.org/i12"> . _:"n0" <"http://e.org/i1"> v22 .] as &[Triple], &[(l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v2")), (i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i12")), (b("_:n0"), i("http://e.org/i1"), i("http://e.org/v22"))]); }
	{ let v1 = var("http://e.org/v1"); let v2 = var("http://e.org/v2"); c.triples(r##""value 0"^^"http://e.org/t0" v1 v2 . <"http://e.org/i0"> <"http://e.org/i11"> "text 12" . "text 20" <"http://e.org/i21"> <"http://e.org/i22"> ."##, &grdf_triples!["value 0"^^"http://e.org/t0" v1 v2 . <"http://e.org/i0"> <"http://e.org/i11"> "text 12" . "text 20" <"http://e.org/i21"> <"http://e.org/i22"> .] as &[Triple], &[(l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2")), (i("http://e.org/i0"), i("http://e.org/i11"), l("text 12", XSD)), (l("text 20", XSD), i("http://e.org/i21"), i("http://e.org/i22"))]); }
	{ let v1 = var("http://e.org/v1"); let v21 = var("http://e.org/v21"); c.triples(r##"<"http://e.org/i0"> v1 _:"n2" . <"http://e.org/i10"> <"http://e.org/i11"> "text 2" . "text 20" v21 _:"n22" ."##, &grdf_triples![<"http://e.org/i0"> v1 _:"n2" . <"http://e.org/i10"> <"http://e.org/i11"> "text 2" . "text 20" v21 _:"n22" .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/v1"), b("_:n2")), (i("http://e.org/i10"), i("http://e.org/i11"), l("text 2", XSD)), (l("text 20", XSD), i("http://e.org/v21"), b("_:n22"))]); }
	{ let v1 = var("http://e.org/v1"); let v2 = var("http://e.org/v2"); let v10 = var("http://e.org/v10"); let v12 = var("http://e.org/v12"); let v30 = var("http://e.org/v30"); c.triples(r##"<"http://e.org/i0"> v1 v2 . v10 _:"n11" v12 . "value 20"^^"http://e.org/t20" _:"n21" "text 22" . v30 "text 1" _:"n32" ."##, &grdf_triples![<"http://e.org/i0"> v1 v2 . v10 _:"n11" v12 . "value 20"^^"http://e.org/t20" _:"n21" "text 22" . v30 "text 1" _:"n32" .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/v2")), (i("http://e.org/v10"), b("_:n11"), i("http://e.org/v12")), (l("value 20", "http://e.org/t20"), b("_:n21"), l("text 22", XSD)), (i("http://e.org/v30"), l("text 1", XSD), b("_:n32"))]); }
	{ let v12 = var("http://e.org/v12"); let v20 = var("http://e.org/v20"); let v22 = var("http://e.org/v22"); c.triples(r##"_:"n0" <"http://e.org/i1"> _:"n2" . _:"n10" _:"n1" v12 . v20 <"http://e.org/i21"> v22 . _:"n0" <"http://e.org/i31"> _:"n32" ."##, &grdf_triples![_:"n0" <"http://e.org/i1"> _:"n2" . _:"n10" _:"n1" v12 . v20 <"http://e.org/i21"> v22 . _:"n0" <"http://e.org/i31"> _:"n32" .] as &[Triple], &[(b("_:n0"), i("http://e.org/i1"), b("_:n2")), (b("_:n10"), b("_:n1"), i("http://e.org/v12")), (i("http://e.org/v20"), i("http://e.org/i21"), i("http://e.org/v22")), (b("_:n0"), i("http://e.org/i31"), b("_:n32"))]); }
	{ let v11 = var("http://e.org/v11"); let v22 = var("http://e.org/v22"); let v41 = var("http://e.org/v41"); c.triples(r##"<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" . <"http://e.org/i10"> v11 "text 2" . _:"n20" "text 1" v22 . "text 30" <"http://e.org/i31"> "text 32" . _:"n40" v41 "value 42"^^"http://e.org/t42" ."##, &grdf_triples![<"http://e.org/i0"> "text 1" "value 2"^^"http://e.org/t2" . <"http://e.org/i10"> v11 "text 2" . _:"n20" "text 1" v22 . "text 30" <"http://e.org/i31"> "text 32" . _:"n40" v41 "value 42"^^"http://e.org/t42" .] as &[Triple], &[(i("http://e.org/i0"), l("text 1", XSD), l("value 2", "http://e.org/t2")), (i("http://e.org/i10"), i("http://e.org/v11"), l("text 2", XSD)), (b("_:n20"), l("text 1", XSD), i("http://e.org/v22")), (l("text 30", XSD), i("http://e.org/i31"), l("text 32", XSD)), (b("_:n40"), i("http://e.org/v41"), l("value 42", "http://e.org/t42"))]); }
	{ let v2 = var("http://e.org/v2"); let v22 = var("http://e.org/v22"); let v31 = var("http://e.org/v31"); let v42 = var("http://e.org/v42"); c.triples(r##""value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 . _:"n10" "value 11"^^"http://e.org/t11" <"http://e.org/i12"> . _:"n20" <"http://e.org/i1"> v22 . _:"n0" v31 <"http://e.org/i32"> . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" v42 ."##, &grdf_triples!["value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" v2 . _:"n10" "value 11"^^"http://e.org/t11" <"http://e.org/i12"> . _:"n20" <"http://e.org/i1"> v22 . _:"n0" v31 <"http://e.org/i32"> . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" v42 .] as &[Triple], &[(l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2")), (b("_:n10"), l("value 11", "http://e.org/t11"), i("http://e.org/i12")), (b("_:n20"), i("http://e.org/i1"), i("http://e.org/v22")), (b("_:n0"), i("http://e.org/v31"), i("http://e.org/i32")), (l("value 40", "http://e.org/t40"), l("value 41", "http://e.org/t41"), i("http://e.org/v42"))]); }
	{ let v12 = var("http://e.org/v12"); c.triples(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> . <"http://e.org/i10"> "value 11"^^"http://e.org/t11" v12 . <"http://e.org/i20"> <"http://e.org/i21"> <"http://e.org/i22"> . "text 0" "value 31"^^"http://e.org/t31" "text 32" . "value 40"^^"http://e.org/t40" _:"n41" <"http://e.org/i2"> . <"http://e.org/i50"> "value 51"^^"http://e.org/t51" <"http://e.org/i52"> ."##, &grdf_triples![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> . <"http://e.org/i10"> "value 11"^^"http://e.org/t11" v12 . <"http://e.org/i20"> <"http://e.org/i21"> <"http://e.org/i22"> . "text 0" "value 31"^^"http://e.org/t31" "text 32" . "value 40"^^"http://e.org/t40" _:"n41" <"http://e.org/i2"> . <"http://e.org/i50"> "value 51"^^"http://e.org/t51" <"http://e.org/i52"> .] as &[Triple], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2")), (i("http://e.org/i10"), l("value 11", "http://e.org/t11"), i("http://e.org/v12")), (i("http://e.org/i20"), i("http://e.org/i21"), i("http://e.org/i22")), (l("text 0", XSD), l("value 31", "http://e.org/t31"), l("text 32", XSD)), (l("value 40", "http://e.org/t40"), b("_:n41"), i("http://e.org/i2")), (i("http://e.org/i50"), l("value 51", "http://e.org/t51"), i("http://e.org/i52"))]); }
	{ let v11 = var("http://e.org/v11"); let v12 = var("http://e.org/v12"); let v22 = var("http://e.org/v22"); let v40 = var("http://e.org/v40"); c.triples(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" . "value 0"^^"http://e.org/t0" v11 v12 . "text 0" "value 1"^^"http://e.org/t1" v22 . "text 30" "value 31"^^"http://e.org/t31" <"http://e.org/i32"> . v40 _:"n1" <"http://e.org/i2"> . <"http://e.org/i50"> "value 51"^^"http://e.org/t51" "value 52"^^"http://e.org/t52" ."##, &grdf_triples![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" . "value 0"^^"http://e.org/t0" v11 v12 . "text 0" "value 1"^^"http://e.org/t1" v22 . "text 30" "value 31"^^"http://e.org/t31" <"http://e.org/i32"> . v40 _:"n1" <"http://e.org/i2"> . <"http://e.org/i50"> "value 51"^^"http://e.org/t51" "value 52"^^"http://e.org/t52" .] as &[Triple], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2")), (l("value 0", "http://e.org/t0"), i("http://e.org/v11"), i("http://e.org/v12")), (l("text 0", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v22")), (l("text 30", XSD), l("value 31", "http://e.org/t31"), i("http://e.org/i32")), (i("http://e.org/v40"), b("_:n1"), i("http://e.org/i2")), (i("http://e.org/i50"), l("value 51", "http://e.org/t51"), l("value 52", "http://e.org/t52"))]); }
}

fn lists_1(c: &mut Checks) {
	{ let v2 = var("http://e.org/v2"); let v10 = var("http://e.org/v10"); let v11 = var("http://e.org/v11"); let v21 = var("http://e.org/v21"); let v30 = var("http://e.org/v30"); let v42 = var("http://e.org/v42"); c.triples(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 . v10 v11 "value 12"^^"http://e.org/t12" . "text 20" v21 <"http://e.org/i22"> . v30 _:"n31" <"http://e.org/i32"> . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" v42 . "value 50"^^"http://e.org/t50" "text 1" "text 2" . _:"n0" <"http://e.org/i61"> _:"n62" . <"http://e.org/i70"> "value 1"^^"http://e.org/t1" "value 72"^^"http://e.org/t72" ."##, &grdf_triples![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 . v10 v11 "value 12"^^"http://e.org/t12" . "text 20" v21 <"http://e.org/i22"> . v30 _:"n31" <"http://e.org/i32"> . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" v42 . "value 50"^^"http://e.org/t50" "text 1" "text 2" . _:"n0" <"http://e.org/i61"> _:"n62" . <"http://e.org/i70"> "value 1"^^"http://e.org/t1" "value 72"^^"http://e.org/t72" .] as &[Triple], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2")), (i("http://e.org/v10"), i("http://e.org/v11"), l("value 12", "http://e.org/t12")), (l("text 20", XSD), i("http://e.org/v21"), i("http://e.org/i22")), (i("http://e.org/v30"), b("_:n31"), i("http://e.org/i32")), (l("value 40", "http://e.org/t40"), l("value 41", "http://e.org/t41"), i("http://e.org/v42")), (l("value 50", "http://e.org/t50"), l("text 1", XSD), l("text 2", XSD)), (b("_:n0"), i("http://e.org/i61"), b("_:n62")), (i("http://e.org/i70"), l("value 1", "http://e.org/t1"), l("value 72", "http://e.org/t72"))]); }
	{ let v1 = var("http://e.org/v1"); let v10 = var("http://e.org/v10"); let v30 = var("http://e.org/v30"); let v70 = var("http://e.org/v70"); c.triples(r##""text 0" v1 "value 2"^^"http://e.org/t2" . v10 "text 11" "text 12" . _:"n20" "text 1" <"http://e.org/i22"> . v30 <"http://e.org/i1"> "value 32"^^"http://e.org/t32" . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" _:"n42" . <"http://e.org/i50"> "text 51" _:"n52" . <"http://e.org/i60"> "value 61"^^"http://e.org/t61" "text 2" . v70 "value 71"^^"http://e.org/t71" "value 72"^^"http://e.org/t72" ."##, &grdf_triples!["text 0" v1 "value 2"^^"http://e.org/t2" . v10 "text 11" "text 12" . _:"n20" "text 1" <"http://e.org/i22"> . v30 <"http://e.org/i1"> "value 32"^^"http://e.org/t32" . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" _:"n42" . <"http://e.org/i50"> "text 51" _:"n52" . <"http://e.org/i60"> "value 61"^^"http://e.org/t61" "text 2" . v70 "value 71"^^"http://e.org/t71" "value 72"^^"http://e.org/t72" .] as &[Triple], &[(l("text 0", XSD), i("http://e.org/v1"), l("value 2", "http://e.org/t2")), (i("http://e.org/v10"), l("text 11", XSD), l("text 12", XSD)), (b("_:n20"), l("text 1", XSD), i("http://e.org/i22")), (i("http://e.org/v30"), i("http://e.org/i1"), l("value 32", "http://e.org/t32")), (l("value 40", "http://e.org/t40"), l("value 41", "http://e.org/t41"), b("_:n42")), (i("http://e.org/i50"), l("text 51", XSD), b("_:n52")), (i("http://e.org/i60"), l("value 61", "http://e.org/t61"), l("text 2", XSD)), (i("http://e.org/v70"), l("value 71", "http://e.org/t71"), l("value 72", "http://e.org/t72"))]); }
	{ let v0 = var("http://e.org/v0"); let v1 = var("http://e.org/v1"); let v22 = var("http://e.org/v22"); let v60 = var("http://e.org/v60"); let v92 = var("http://e.org/v92"); c.triples(r##"v0 v1 "value 2"^^"http://e.org/t2" . _:"n0" _:"n1" _:"n2" . "value 20"^^"http://e.org/t20" _:"n21" v22 . _:"n30" "value 31"^^"http://e.org/t31" _:"n32" . <"http://e.org/i40"> <"http://e.org/i41"> _:"n2" . "value 50"^^"http://e.org/t50" "value 51"^^"http://e.org/t51" "value 52"^^"http://e.org/t52" . v60 <"http://e.org/i61"> _:"n62" . <"http://e.org/i70"> "text 71" "value 2"^^"http://e.org/t2" . "value 80"^^"http://e.org/t80" "text 81" <"http://e.org/i82"> . _:"n90" "value 91"^^"http://e.org/t91" v92 ."##, &grdf_triples![v0 v1 "value 2"^^"http://e.org/t2" . _:"n0" _:"n1" _:"n2" . "value 20"^^"http://e.org/t20" _:"n21" v22 . _:"n30" "value 31"^^"http://e.org/t31" _:"n32" . <"http://e.org/i40"> <"http://e.org/i41"> _:"n2" . "value 50"^^"http://e.org/t50" "value 51"^^"http://e.org/t51" "value 52"^^"http://e.org/t52" . v60 <"http://e.org/i61"> _:"n62" . <"http://e.org/i70"> "text 71" "value 2"^^"http://e.org/t2" . "value 80"^^"http://e.org/t80" "text 81" <"http://e.org/i82"> . _:"n90" "value 91"^^"http://e.org/t91" v92 .] as &[Triple], &[(i("http://e.org/v0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2")), (b("_:n0"), b("_:n1"), b("_:n2")), (l("value 20", "http://e.org/t20"), b("_:n21"), i("http://e.org/v22")), (b("_:n30"), l("value 31", "http://e.org/t31"), b("_:n32")), (i("http://e.org/i40"), i("http://e.org/i41"), b("_:n2")), (l("value 50", "http://e.org/t50"), l("value 51", "http://e.org/t51"), l("value 52", "http://e.org/t52")), (i("http://e.org/v60"), i("http://e.org/i61"), b("_:n62")), (i("http://e.org/i70"), l("text 71", XSD), l("value 2", "http://e.org/t2")), (l("value 80", "http://e.org/t80"), l("text 81", XSD), i("http://e.org/i82")), (b("_:n90"), l("value 91", "http://e.org/t91"), i("http://e.org/v92"))]); }
	{ let v21 = var("http://e.org/v21"); let v42 = var("http://e.org/v42"); let v60 = var("http://e.org/v60"); let v61 = var("http://e.org/v61"); let v81 = var("http://e.org/v81"); let v90 = var("http://e.org/v90"); c.triples(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> _:"n11" <"http://e.org/i12"> . "value 0"^^"http://e.org/t0" v21 <"http://e.org/i22"> . _:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . _:"n40" "value 1"^^"http://e.org/t1" v42 . "value 0"^^"http://e.org/t0" "text 51" "text 52" . v60 v61 "text 62" . "text 0" _:"n1" _:"n2" . "text 0" v81 _:"n2" . v90 <"http://e.org/i91"> <"http://e.org/i2"> ."##, &grdf_triples!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> _:"n11" <"http://e.org/i12"> . "value 0"^^"http://e.org/t0" v21 <"http://e.org/i22"> . _:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . _:"n40" "value 1"^^"http://e.org/t1" v42 . "value 0"^^"http://e.org/t0" "text 51" "text 52" . v60 v61 "text 62" . "text 0" _:"n1" _:"n2" . "text 0" v81 _:"n2" . v90 <"http://e.org/i91"> <"http://e.org/i2"> .] as &[Triple], &[(l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2")), (i("http://e.org/i10"), b("_:n11"), i("http://e.org/i12")), (l("value 0", "http://e.org/t0"), i("http://e.org/v21"), i("http://e.org/i22")), (b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2")), (b("_:n40"), l("value 1", "http://e.org/t1"), i("http://e.org/v42")), (l("value 0", "http://e.org/t0"), l("text 51", XSD), l("text 52", XSD)), (i("http://e.org/v60"), i("http://e.org/v61"), l("text 62", XSD)), (l("text 0", XSD), b("_:n1"), b("_:n2")), (l("text 0", XSD), i("http://e.org/v81"), b("_:n2")), (i("http://e.org/v90"), i("http://e.org/i91"), i("http://e.org/i2"))]); }
	{ let v12 = var("http://e.org/v12"); let v21 = var("http://e.org/v21"); let v42 = var("http://e.org/v42"); let v61 = var("http://e.org/v61"); let v62 = var("http://e.org/v62"); let v100 = var("http://e.org/v100"); c.triples(r##"_:"n0" "value 1"^^"http://e.org/t1" _:"n2" . "value 10"^^"http://e.org/t10" "value 1"^^"http://e.org/t1" v12 . _:"n20" v21 "value 22"^^"http://e.org/t22" . _:"n30" "text 31" "text 2" . _:"n40" "text 41" v42 . _:"n50" "value 51"^^"http://e.org/t51" "text 52" . "text 60" v61 v62 . _:"n70" <"http://e.org/i71"> "text 72" . <"http://e.org/i80"> _:"n81" <"http://e.org/i82"> . "value 90"^^"http://e.org/t90" "text 1" <"http://e.org/i2"> . v100 _:"n1" "value 102"^^"http://e.org/t102" . _:"n110" "value 111"^^"http://e.org/t111" _:"n112" ."##, &grdf_triples![_:"n0" "value 1"^^"http://e.org/t1" _:"n2" . "value 10"^^"http://e.org/t10" "value 1"^^"http://e.org/t1" v12 . _:"n20" v21 "value 22"^^"http://e.org/t22" . _:"n30" "text 31" "text 2" . _:"n40" "text 41" v42 . _:"n50" "value 51"^^"http://e.org/t51" "text 52" . "text 60" v61 v62 . _:"n70" <"http://e.org/i71"> "text 72" . <"http://e.org/i80"> _:"n81" <"http://e.org/i82"> . "value 90"^^"http://e.org/t90" "text 1" <"http://e.org/i2"> . v100 _:"n1" "value 102"^^"http://e.org/t102" . _:"n110" "value 111"^^"http://e.org/t111" _:"n112" .] as &[Triple], &[(b("_:n0"), l("value 1", "http://e.org/t1"), b("_:n2")), (l("value 10", "http://e.org/t10"), l("value 1", "http://e.org/t1"), i("http://e.org/v12")), (b("_:n20"), i("http://e.org/v21"), l("value 22", "http://e.org/t22")), (b("_:n30"), l("text 31", XSD), l("text 2", XSD)), (b("_:n40"), l("text 41", XSD), i("http://e.org/v42")), (b("_:n50"), l("value 51", "http://e.org/t51"), l("text 52", XSD)), (l("text 60", XSD), i("http://e.org/v61"), i("http://e.org/v62")), (b("_:n70"), i("http://e.org/i71"), l("text 72", XSD)), (i("http://e.org/i80"), b("_:n81"), i("http://e.org/i82")), (l("value 90", "http://e.org/t90"), l("text 1", XSD), i("http://e.org/i2")), (i("http://e.org/v100"), b("_:n1"), l("value 102", "http://e.org/t102")), (b("_:n110"), l("value 111", "http://e.org/t111"), b("_:n112"))]); }
	{ let v22 = var("http://e.org/v22"); let v80 = var("http://e.org/v80"); c.triples(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> . _:"n10" _:"n1" <"http://e.org/i12"> . "text 20" "value 1"^^"http://e.org/t1" v22 . "value 30"^^"http://e.org/t30" <"http://e.org/i31"> "text 2" . "value 40"^^"http://e.org/t40" <"http://e.org/i41"> "value 42"^^"http://e.org/t42" . "text 50" "value 51"^^"http://e.org/t51" <"http://e.org/i52"> . "value 60"^^"http://e.org/t60" _:"n61" "value 62"^^"http://e.org/t62" . "text 70" "value 71"^^"http://e.org/t71" "text 72" . v80 "value 1"^^"http://e.org/t1" "text 82" . _:"n90" _:"n91" <"http://e.org/i2"> . <"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n102" . "text 110" "value 111"^^"http://e.org/t111" _:"n2" ."##, &grdf_triples![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> . _:"n10" _:"n1" <"http://e.org/i12"> . "text 20" "value 1"^^"http://e.org/t1" v22 . "value 30"^^"http://e.org/t30" <"http://e.org/i31"> "text 2" . "value 40"^^"http://e.org/t40" <"http://e.org/i41"> "value 42"^^"http://e.org/t42" . "text 50" "value 51"^^"http://e.org/t51" <"http://e.org/i52"> . "value 60"^^"http://e.org/t60" _:"n61" "value 62"^^"http://e.org/t62" . "text 70" "value 71"^^"http://e.org/t71" "text 72" . v80 "value 1"^^"http://e.org/t1" "text 82" . _:"n90" _:"n91" <"http://e.org/i2"> . <"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n102" . "text 110" "value 111"^^"http://e.org/t111" _:"n2" .] as &[Triple], &[(i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2")), (b("_:n10"), b("_:n1"), i("http://e.org/i12")), (l("text 20", XSD), l("value 1", "http://e.org/t1"), i("http://e.org/v22")), (l("value 30", "http://e.org/t30"), i("http://e.org/i31"), l("text 2", XSD)), (l("value 40", "http://e.org/t40"), i("http://e.org/i41"), l("value 42", "http://e.org/t42")), (l("text 50", XSD), l("value 51", "http://e.org/t51"), i("http://e.org/i52")), (l("value 60", "http://e.org/t60"), b("_:n61"), l("value 62", "http://e.org/t62")), (l("text 70", XSD), l("value 71", "http://e.org/t71"), l("text 72", XSD)), (i("http://e.org/v80"), l("value 1", "http://e.org/t1"), l("text 82", XSD)), (b("_:n90"), b("_:n91"), i("http://e.org/i2")), (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n102")), (l("text 110", XSD), l("value 111", "http://e.org/t111"), b("_:n2"))]); }
	{ let v2 = var("http://e.org/v2"); let v42 = var("http://e.org/v42"); let v51 = var("http://e.org/v51"); let v52 = var("http://e.org/v52"); let v62 = var("http://e.org/v62"); let v82 = var("http://e.org/v82"); let v90 = var("http://e.org/v90"); let v101 = var("http://e.org/v101"); c.triples(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 . "value 10"^^"http://e.org/t10" "value 11"^^"http://e.org/t11" <"http://e.org/i12"> . "text 0" "text 21" "value 22"^^"http://e.org/t22" . "text 0" <"http://e.org/i31"> _:"n32" . _:"n40" _:"n41" v42 . "value 50"^^"http://e.org/t50" v51 v52 . _:"n60" "value 1"^^"http://e.org/t1" v62 . <"http://e.org/i70"> "text 71" <"http://e.org/i72"> . <"http://e.org/i80"> <"http://e.org/i81"> v82 . v90 <"http://e.org/i1"> _:"n2" . "value 100"^^"http://e.org/t100" v101 "value 102"^^"http://e.org/t102" . _:"n110" "value 111"^^"http://e.org/t111" _:"n112" . "value 120"^^"http://e.org/t120" _:"n121" <"http://e.org/i2"> . "value 0"^^"http://e.org/t0" "value 131"^^"http://e.org/t131" <"http://e.org/i132"> . "value 0"^^"http://e.org/t0" <"http://e.org/i141"> "value 142"^^"http://e.org/t142" . _:"n150" "text 151" <"http://e.org/i152"> ."##, &grdf_triples![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" v2 . "value 10"^^"http://e.org/t10" "value 11"^^"http://e.org/t11" <"http://e.org/i12"> . "text 0" "text 21" "value 22"^^"http://e.org/t22" . "text 0" <"http://e.org/i31"> _:"n32" . _:"n40" _:"n41" v42 . "value 50"^^"http://e.org/t50" v51 v52 . _:"n60" "value 1"^^"http://e.org/t1" v62 . <"http://e.org/i70"> "text 71" <"http://e.org/i72"> . <"http://e.org/i80"> <"http://e.org/i81"> v82 . v90 <"http://e.org/i1"> _:"n2" . "value 100"^^"http://e.org/t100" v101 "value 102"^^"http://e.org/t102" . _:"n110" "value 111"^^"http://e.org/t111" _:"n112" . "value 120"^^"http://e.org/t120" _:"n121" <"http://e.org/i2"> . "value 0"^^"http://e.org/t0" "value 131"^^"http://e.org/t131" <"http://e.org/i132"> . "value 0"^^"http://e.org/t0" <"http://e.org/i141"> "value 142"^^"http://e.org/t142" . _:"n150" "text 151" <"http://e.org/i152"> .] as &[Triple], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/v2")), (l("value 10", "http://e.org/t10"), l("value 11", "http://e.org/t11"), i("http://e.org/i12")), (l("text 0", XSD), l("text 21", XSD), l("value 22", "http://e.org/t22")), (l("text 0", XSD), i("http://e.org/i31"), b("_:n32")), (b("_:n40"), b("_:n41"), i("http://e.org/v42")), (l("value 50", "http://e.org/t50"), i("http://e.org/v51"), i("http://e.org/v52")), (b("_:n60"), l("value 1", "http://e.org/t1"), i("http://e.org/v62")), (i("http://e.org/i70"), l("text 71", XSD), i("http://e.org/i72")), (i("http://e.org/i80"), i("http://e.org/i81"), i("http://e.org/v82")), (i("http://e.org/v90"), i("http://e.org/i1"), b("_:n2")), (l("value 100", "http://e.org/t100"), i("http://e.org/v101"), l("value 102", "http://e.org/t102")), (b("_:n110"), l("value 111", "http://e.org/t111"), b("_:n112")), (l("value 120", "http://e.org/t120"), b("_:n121"), i("http://e.org/i2")), (l("value 0", "http://e.org/t0"), l("value 131", "http://e.org/t131"), i("http://e.org/i132")), (l("value 0", "http://e.org/t0"), i("http://e.org/i141"), l("value 142", "http://e.org/t142")), (b("_:n150"), l("text 151", XSD), i("http://e.org/i152"))]); }
	{ let v22 = var("http://e.org/v22"); let v40 = var("http://e.org/v40"); let v60 = var("http://e.org/v60"); let v62 = var("http://e.org/v62"); let v70 = var("http://e.org/v70"); let v91 = var("http://e.org/v91"); let v120 = var("http://e.org/v120"); let v121 = var("http://e.org/v121"); let v132 = var("http://e.org/v132"); c.triples(r##""text 0" "text 1" "text 2" . "text 0" "text 11" _:"n2" . "value 20"^^"http://e.org/t20" "text 21" v22 . <"http://e.org/i30"> _:"n31" "text 2" . v40 _:"n1" "value 42"^^"http://e.org/t42" . _:"n50" "value 51"^^"http://e.org/t51" "text 52" . v60 "text 1" v62 . v70 _:"n71" <"http://e.org/i2"> . <"http://e.org/i80"> "value 81"^^"http://e.org/t81" "text 82" . "value 90"^^"http://e.org/t90" v91 "value 92"^^"http://e.org/t92" . "text 100" "value 101"^^"http://e.org/t101" "value 102"^^"http://e.org/t102" . <"http://e.org/i110"> "value 111"^^"http://e.org/t111" "text 112" . v120 v121 _:"n122" . <"http://e.org/i130"> "value 131"^^"http://e.org/t131" v132 . "text 140" _:"n141" "value 142"^^"http://e.org/t142" . "text 150" _:"n151" _:"n152" ."##, &grdf_triples!["text 0" "text 1" "text 2" . "text 0" "text 11" _:"n2" . "value 20"^^"http://e.org/t20" "text 21" v22 . <"http://e.org/i30"> _:"n31" "text 2" . v40 _:"n1" "value 42"^^"http://e.org/t42" . _:"n50" "value 51"^^"http://e.org/t51" "text 52" . v60 "text 1" v62 . v70 _:"n71" <"http://e.org/i2"> . <"http://e.org/i80"> "value 81"^^"http://e.org/t81" "text 82" . "value 90"^^"http://e.org/t90" v91 "value 92"^^"http://e.org/t92" . "text 100" "value 101"^^"http://e.org/t101" "value 102"^^"http://e.org/t102" . <"http://e.org/i110"> "value 111"^^"http://e.org/t111" "text 112" . v120 v121 _:"n122" . <"http://e.org/i130"> "value 131"^^"http://e.org/t131" v132 . "text 140" _:"n141" "value 142"^^"http://e.org/t142" . "text 150" _:"n151" _:"n152" .] as &[Triple], &[(l("text 0", XSD), l("text 1", XSD), l("text 2", XSD)), (l("text 0", XSD), l("text 11", XSD), b("_:n2")), (l("value 20", "http://e.org/t20"), l("text 21", XSD), i("http://e.org/v22")), (i("http://e.org/i30"), b("_:n31"), l("text 2", XSD)), (i("http://e.org/v40"), b("_:n1"), l("value 42", "http://e.org/t42")), (b("_:n50"), l("value 51", "http://e.org/t51"), l("text 52", XSD)), (i("http://e.org/v60"), l("text 1", XSD), i("http://e.org/v62")), (i("http://e.org/v70"), b("_:n71"), i("http://e.org/i2")), (i("http://e.org/i80"), l("value 81", "http://e.org/t81"), l("text 82", XSD)), (l("value 90", "http://e.org/t90"), i("http://e.org/v91"), l("value 92", "http://e.org/t92")), (l("text 100", XSD), l("value 101", "http://e.org/t101"), l("value 102", "http://e.org/t102")), (i("http://e.org/i110"), l("value 111", "http://e.org/t111"), l("text 112", XSD)), (i("http://e.org/v120"), i("http://e.org/v121"), b("_:n122")), (i("http://e.org/i130"), l("value 131", "http://e.org/t131"), i("http://e.org/v132")), (l("text 140", XSD), b("_:n141"), l("value 142", "http://e.org/t142")), (l("text 150", XSD), b("_:n151"), b("_:n152"))]); }
	{ c.quads(r##""##, &grdf_quads![] as &[Quad], &[]); }
	{ c.quads(r##""##, &grdf_quads![] as &[Quad], &[]); }
	{ c.quads(r##""##, &grdf_quads![] as &[Quad], &[]); }
	{ let v0 = var("http://e.org/v0"); c.quads(r##"v0 _:"n1" "text 2" ."##, &grdf_quads![v0 _:"n1" "text 2" .] as &[Quad], &[(i("http://e.org/v0"), b("_:n1"), l("text 2", XSD), None)]); }
	{ c.quads(r##""text 0" _:"n1" _:"n2" ."##, &grdf_quads!["text 0" _:"n1" _:"n2" .] as &[Quad], &[(l("text 0", XSD), b("_:n1"), b("_:n2"), None)]); }
	{ let v0 = var("http://e.org/v0"); let v1 = var("http://e.org/v1"); c.quads(r##"v0 v1 <"http://e.org/i2"> ."##, &grdf_quads![v0 v1 <"http://e.org/i2"> .] as &[Quad], &[(i("http://e.org/v0"), i("http://e.org/v1"), i("http://e.org/i2"), None)]); }
	{ c.quads(r##""text 0" _:"n1" "text 2" "text 3" ."##, &grdf_quads!["text 0" _:"n1" "text 2" "text 3" .] as &[Quad], &[(l("text 0", XSD), b("_:n1"), l("text 2", XSD), Some(l("text 3", XSD)))]); }
	{ c.quads(r##""value 0"^^"http://e.org/t0" _:"n1" "text 2" ."##, &grdf_quads!["value 0"^^"http://e.org/t0" _:"n1" "text 2" .] as &[Quad], &[(l("value 0", "http://e.org/t0"), b("_:n1"), l("text 2", XSD), None)]); }
	{ let v0 = var("http://e.org/v0"); let v3 = var("http://e.org/v3"); c.quads(r##"v0 _:"n1" "value 2"^^"http://e.org/t2" v3 ."##, &grdf_quads![v0 _:"n1" "value 2"^^"http://e.org/t2" v3 .] as &[Quad], &[(i("http://e.org/v0"), b("_:n1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3")))]); }
	{ c.quads(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3" . "value 10"^^"http://e.org/t10" "text 11" "text 2" _:"n3" ."##, &grdf_quads!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3" . "value 10"^^"http://e.org/t10" "text 11" "text 2" _:"n3" .] as &[Quad], &[(l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3"))), (l("value 10", "http://e.org/t10"), l("text 11", XSD), l("text 2", XSD), Some(b("_:n3")))]); }
	{ let v0 = var("http://e.org/v0"); let v2 = var("http://e.org/v2"); let v11 = var("http://e.org/v11"); c.quads(r##"v0 _:"n1" v2 <"http://e.org/i3"> . _:"n10" v11 "value 12"^^"http://e.org/t12" ."##, &grdf_quads![v0 _:"n1" v2 <"http://e.org/i3"> . _:"n10" v11 "value 12"^^"http://e.org/t12" .] as &[Quad], &[(i("http://e.org/v0"), b("_:n1"), i("http://e.org/v2"), Some(i("http://e.org/i3"))), (b("_:n10"), i("http://e.org/v11"), l("value 12", "http://e.org/t12"), None)]); }
	{ let v3 = var("http://e.org/v3"); c.quads(r##"_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3 . _:"n0" "text 1" _:"n2" <"http://e.org/i3"> ."##, &grdf_quads![_:"n0" "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" v3 . _:"n0" "text 1" _:"n2" <"http://e.org/i3"> .] as &[Quad], &[(b("_:n0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v3"))), (b("_:n0"), l("text 1", XSD), b("_:n2"), Some(i("http://e.org/i3")))]); }
}

fn lists_2(c: &mut Checks) {
	{ let v2 = var("http://e.org/v2"); c.quads(r##"<"http://e.org/i0"> "text 1" v2 . _:"n0" _:"n1" "value 12"^^"http://e.org/t12" ."##, &grdf_quads![<"http://e.org/i0"> "text 1" v2 . _:"n0" _:"n1" "value 12"^^"http://e.org/t12" .] as &[Quad], &[(i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), None), (b("_:n0"), b("_:n1"), l("value 12", "http://e.org/t12"), None)]); }
	{ let v3 = var("http://e.org/v3"); c.quads(r##""value 0"^^"http://e.org/t0" "text 1" "text 2" v3 . "value 0"^^"http://e.org/t0" "text 11" "text 12" ."##, &grdf_quads!["value 0"^^"http://e.org/t0" "text 1" "text 2" v3 . "value 0"^^"http://e.org/t0" "text 11" "text 12" .] as &[Quad], &[(l("value 0", "http://e.org/t0"), l("text 1", XSD), l("text 2", XSD), Some(i("http://e.org/v3"))), (l("value 0", "http://e.org/t0"), l("text 11", XSD), l("text 12", XSD), None)]); }
	{ let v0 = var("http://e.org/v0"); let v1 = var("http://e.org/v1"); let v10 = var("http://e.org/v10"); let v13 = var("http://e.org/v13"); c.quads(r##"v0 v1 "text 2" . v10 <"http://e.org/i11"> <"http://e.org/i12"> v13 ."##, &grdf_quads![v0 v1 "text 2" . v10 <"http://e.org/i11"> <"http://e.org/i12"> v13 .] as &[Quad], &[(i("http://e.org/v0"), i("http://e.org/v1"), l("text 2", XSD), None), (i("http://e.org/v10"), i("http://e.org/i11"), i("http://e.org/i12"), Some(i("http://e.org/v13")))]); }
	{ let v10 = var("http://e.org/v10"); let v12 = var("http://e.org/v12"); let v23 = var("http://e.org/v23"); c.quads(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" . v10 <"http://e.org/i1"> v12 _:"n13" . "value 0"^^"http://e.org/t0" "value 21"^^"http://e.org/t21" <"http://e.org/i22"> v23 ."##, &grdf_quads![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" _:"n2" . v10 <"http://e.org/i1"> v12 _:"n13" . "value 0"^^"http://e.org/t0" "value 21"^^"http://e.org/t21" <"http://e.org/i22"> v23 .] as &[Quad], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), b("_:n2"), None), (i("http://e.org/v10"), i("http://e.org/i1"), i("http://e.org/v12"), Some(b("_:n13"))), (l("value 0", "http://e.org/t0"), l("value 21", "http://e.org/t21"), i("http://e.org/i22"), Some(i("http://e.org/v23")))]); }
	{ let v2 = var("http://e.org/v2"); let v11 = var("http://e.org/v11"); c.quads(r##""text 0" "text 1" v2 . "text 0" v11 <"http://e.org/i12"> <"http://e.org/i13"> . "value 0"^^"http://e.org/t0" "text 1" _:"n22" ."##, &grdf_quads!["text 0" "text 1" v2 . "text 0" v11 <"http://e.org/i12"> <"http://e.org/i13"> . "value 0"^^"http://e.org/t0" "text 1" _:"n22" .] as &[Quad], &[(l("text 0", XSD), l("text 1", XSD), i("http://e.org/v2"), None), (l("text 0", XSD), i("http://e.org/v11"), i("http://e.org/i12"), Some(i("http://e.org/i13"))), (l("value 0", "http://e.org/t0"), l("text 1", XSD), b("_:n22"), None)]); }
	{ let v0 = var("http://e.org/v0"); c.quads(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> . "text 10" _:"n11" "value 12"^^"http://e.org/t12" "value 13"^^"http://e.org/t13" . "text 0" _:"n1" "text 22" _:"n23" ."##, &grdf_quads![v0 <"http://e.org/i1"> <"http://e.org/i2"> . "text 10" _:"n11" "value 12"^^"http://e.org/t12" "value 13"^^"http://e.org/t13" . "text 0" _:"n1" "text 22" _:"n23" .] as &[Quad], &[(i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (l("text 10", XSD), b("_:n11"), l("value 12", "http://e.org/t12"), Some(l("value 13", "http://e.org/t13"))), (l("text 0", XSD), b("_:n1"), l("text 22", XSD), Some(b("_:n23")))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . <"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" . _:"n20" "text 21" "text 22" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . <"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" . _:"n20" "text 21" "text 22" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None), (i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None), (b("_:n20"), l("text 21", XSD), l("text 22", XSD), None)]); }
	{ let v1 = var("http://e.org/v1"); let v2 = var("http://e.org/v2"); let v3 = var("http://e.org/v3"); let v12 = var("http://e.org/v12"); c.quads(r##""value 0"^^"http://e.org/t0" v1 v2 v3 . _:"n10" _:"n11" v12 . "text 0" "value 1"^^"http://e.org/t1" "text 2" ."##, &grdf_quads!["value 0"^^"http://e.org/t0" v1 v2 v3 . _:"n10" _:"n11" v12 . "text 0" "value 1"^^"http://e.org/t1" "text 2" .] as &[Quad], &[(l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/v3"))), (b("_:n10"), b("_:n11"), i("http://e.org/v12"), None), (l("text 0", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), None)]); }
	{ let v2 = var("http://e.org/v2"); c.quads(r##""text 0" _:"n1" v2 . <"http://e.org/i0"> "value 11"^^"http://e.org/t11" <"http://e.org/i12"> _:"n13" . _:"n20" "value 21"^^"http://e.org/t21" _:"n2" ."##, &grdf_quads!["text 0" _:"n1" v2 . <"http://e.org/i0"> "value 11"^^"http://e.org/t11" <"http://e.org/i12"> _:"n13" . _:"n20" "value 21"^^"http://e.org/t21" _:"n2" .] as &[Quad], &[(l("text 0", XSD), b("_:n1"), i("http://e.org/v2"), None), (i("http://e.org/i0"), l("value 11", "http://e.org/t11"), i("http://e.org/i12"), Some(b("_:n13"))), (b("_:n20"), l("value 21", "http://e.org/t21"), b("_:n2"), None)]); }
	{ let v2 = var("http://e.org/v2"); let v11 = var("http://e.org/v11"); let v31 = var("http://e.org/v31"); let v32 = var("http://e.org/v32"); c.quads(r##""value 0"^^"http://e.org/t0" _:"n1" v2 "value 3"^^"http://e.org/t3" . "text 10" v11 _:"n12" . "value 20"^^"http://e.org/t20" "text 21" _:"n22" . "text 30" v31 v32 ."##, &grdf_quads!["value 0"^^"http://e.org/t0" _:"n1" v2 "value 3"^^"http://e.org/t3" . "text 10" v11 _:"n12" . "value 20"^^"http://e.org/t20" "text 21" _:"n22" . "text 30" v31 v32 .] as &[Quad], &[(l("value 0", "http://e.org/t0"), b("_:n1"), i("http://e.org/v2"), Some(l("value 3", "http://e.org/t3"))), (l("text 10", XSD), i("http://e.org/v11"), b("_:n12"), None), (l("value 20", "http://e.org/t20"), l("text 21", XSD), b("_:n22"), None), (l("text 30", XSD), i("http://e.org/v31"), i("http://e.org/v32"), None)]); }
	{ c.quads(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" _:"n3" . "value 10"^^"http://e.org/t10" _:"n11" "text 12" . <"http://e.org/i20"> "value 21"^^"http://e.org/t21" <"http://e.org/i22"> "text 23" . "text 30" _:"n31" "value 32"^^"http://e.org/t32" ."##, &grdf_quads![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "text 2" _:"n3" . "value 10"^^"http://e.org/t10" _:"n11" "text 12" . <"http://e.org/i20"> "value 21"^^"http://e.org/t21" <"http://e.org/i22"> "text 23" . "text 30" _:"n31" "value 32"^^"http://e.org/t32" .] as &[Quad], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(b("_:n3"))), (l("value 10", "http://e.org/t10"), b("_:n11"), l("text 12", XSD), None), (i("http://e.org/i20"), l("value 21", "http://e.org/t21"), i("http://e.org/i22"), Some(l("text 23", XSD))), (l("text 30", XSD), b("_:n31"), l("value 32", "http://e.org/t32"), None)]); }
	{ let v0 = var("http://e.org/v0"); let v20 = var("http://e.org/v20"); let v21 = var("http://e.org/v21"); let v22 = var("http://e.org/v22"); let v30 = var("http://e.org/v30"); c.quads(r##"v0 _:"n1" <"http://e.org/i2"> . _:"n10" _:"n11" <"http://e.org/i12"> <"http://e.org/i13"> . v20 v21 v22 "text 23" . v30 "text 31" "value 32"^^"http://e.org/t32" ."##, &grdf_quads![v0 _:"n1" <"http://e.org/i2"> . _:"n10" _:"n11" <"http://e.org/i12"> <"http://e.org/i13"> . v20 v21 v22 "text 23" . v30 "text 31" "value 32"^^"http://e.org/t32" .] as &[Quad], &[(i("http://e.org/v0"), b("_:n1"), i("http://e.org/i2"), None), (b("_:n10"), b("_:n11"), i("http://e.org/i12"), Some(i("http://e.org/i13"))), (i("http://e.org/v20"), i("http://e.org/v21"), i("http://e.org/v22"), Some(l("text 23", XSD))), (i("http://e.org/v30"), l("text 31", XSD), l("value 32", "http://e.org/t32"), None)]); }
	{ let v21 = var("http://e.org/v21"); let v23 = var("http://e.org/v23"); let v32 = var("http://e.org/v32"); let v42 = var("http://e.org/v42"); c.quads(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" . _:"n10" _:"n11" _:"n2" . <"http://e.org/i20"> v21 <"http://e.org/i22"> v23 . <"http://e.org/i30"> "value 1"^^"http://e.org/t1" v32 <"http://e.org/i33"> . "value 40"^^"http://e.org/t40" _:"n1" v42 ."##, &grdf_quads![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" . _:"n10" _:"n11" _:"n2" . <"http://e.org/i20"> v21 <"http://e.org/i22"> v23 . <"http://e.org/i30"> "value 1"^^"http://e.org/t1" v32 <"http://e.org/i33"> . "value 40"^^"http://e.org/t40" _:"n1" v42 .] as &[Quad], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), None), (b("_:n10"), b("_:n11"), b("_:n2"), None), (i("http://e.org/i20"), i("http://e.org/v21"), i("http://e.org/i22"), Some(i("http://e.org/v23"))), (i("http://e.org/i30"), l("value 1", "http://e.org/t1"), i("http://e.org/v32"), Some(i("http://e.org/i33"))), (l("value 40", "http://e.org/t40"), b("_:n1"), i("http://e.org/v42"), None)]); }
	{ let v0 = var("http://e.org/v0"); let v12 = var("http://e.org/v12"); let v13 = var("http://e.org/v13"); let v30 = var("http://e.org/v30"); let v31 = var("http://e.org/v31"); let v32 = var("http://e.org/v32"); let v40 = var("http://e.org/v40"); let v41 = var("http://e.org/v41"); c.quads(r##"v0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3" . <"http://e.org/i10"> "value 1"^^"http://e.org/t1" v12 v13 . "value 20"^^"http://e.org/t20" <"http://e.org/i21"> _:"n2" . v30 v31 v32 "value 33"^^"http://e.org/t33" . v40 v41 "text 42" _:"n43" ."##, &grdf_quads![v0 "value 1"^^"http://e.org/t1" "text 2" "value 3"^^"http://e.org/t3" . <"http://e.org/i10"> "value 1"^^"http://e.org/t1" v12 v13 . "value 20"^^"http://e.org/t20" <"http://e.org/i21"> _:"n2" . v30 v31 v32 "value 33"^^"http://e.org/t33" . v40 v41 "text 42" _:"n43" .] as &[Quad], &[(i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("value 3", "http://e.org/t3"))), (i("http://e.org/i10"), l("value 1", "http://e.org/t1"), i("http://e.org/v12"), Some(i("http://e.org/v13"))), (l("value 20", "http://e.org/t20"), i("http://e.org/i21"), b("_:n2"), None), (i("http://e.org/v30"), i("http://e.org/v31"), i("http://e.org/v32"), Some(l("value 33", "http://e.org/t33"))), (i("http://e.org/v40"), i("http://e.org/v41"), l("text 42", XSD), Some(b("_:n43")))]); }
	{ let v1 = var("http://e.org/v1"); let v31 = var("http://e.org/v31"); let v43 = var("http://e.org/v43"); c.quads(r##"_:"n0" v1 _:"n2" . "text 10" <"http://e.org/i11"> _:"n12" . "value 20"^^"http://e.org/t20" "value 21"^^"http://e.org/t21" "value 2"^^"http://e.org/t2" . <"http://e.org/i30"> v31 "value 32"^^"http://e.org/t32" "value 3"^^"http://e.org/t3" . _:"n40" "text 41" "value 42"^^"http://e.org/t42" v43 ."##, &grdf_quads![_:"n0" v1 _:"n2" . "text 10" <"http://e.org/i11"> _:"n12" . "value 20"^^"http://e.org/t20" "value 21"^^"http://e.org/t21" "value 2"^^"http://e.org/t2" . <"http://e.org/i30"> v31 "value 32"^^"http://e.org/t32" "value 3"^^"http://e.org/t3" . _:"n40" "text 41" "value 42"^^"http://e.org/t42" v43 .] as &[Quad], &[(b("_:n0"), i("http://e.org/v1"), b("_:n2"), None), (l("text 10", XSD), i("http://e.org/i11"), b("_:n12"), None), (l("value 20", "http://e.org/t20"), l("value 21", "http://e.org/t21"), l("value 2", "http://e.org/t2"), None), (i("http://e.org/i30"), i("http://e.org/v31"), l("value 32", "http://e.org/t32"), Some(l("value 3", "http://e.org/t3"))), (b("_:n40"), l("text 41", XSD), l("value 42", "http://e.org/t42"), Some(i("http://e.org/v43")))]); }
	{ let v11 = var("http://e.org/v11"); let v42 = var("http://e.org/v42"); let v50 = var("http://e.org/v50"); c.quads(r##""text 0" "text 1" <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" v11 <"http://e.org/i12"> . <"http://e.org/i20"> "text 1" _:"n2" "value 23"^^"http://e.org/t23" . <"http://e.org/i30"> <"http://e.org/i1"> "value 32"^^"http://e.org/t32" <"http://e.org/i33"> . _:"n40" _:"n1" v42 . v50 "text 1" <"http://e.org/i52"> ."##, &grdf_quads!["text 0" "text 1" <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" v11 <"http://e.org/i12"> . <"http://e.org/i20"> "text 1" _:"n2" "value 23"^^"http://e.org/t23" . <"http://e.org/i30"> <"http://e.org/i1"> "value 32"^^"http://e.org/t32" <"http://e.org/i33"> . _:"n40" _:"n1" v42 . v50 "text 1" <"http://e.org/i52"> .] as &[Quad], &[(l("text 0", XSD), l("text 1", XSD), i("http://e.org/i2"), None), (l("value 10", "http://e.org/t10"), i("http://e.org/v11"), i("http://e.org/i12"), None), (i("http://e.org/i20"), l("text 1", XSD), b("_:n2"), Some(l("value 23", "http://e.org/t23"))), (i("http://e.org/i30"), i("http://e.org/i1"), l("value 32", "http://e.org/t32"), Some(i("http://e.org/i33"))), (b("_:n40"), b("_:n1"), i("http://e.org/v42"), None), (i("http://e.org/v50"), l("text 1", XSD), i("http://e.org/i52"), None)]); }
	{ let v0 = var("http://e.org/v0"); let v22 = var("http://e.org/v22"); let v30 = var("http://e.org/v30"); let v32 = var("http://e.org/v32"); let v41 = var("http://e.org/v41"); c.quads(r##"v0 "text 1" <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" "text 11" "text 12" . _:"n20" "text 21" v22 _:"n3" . v30 _:"n31" v32 "text 33" . "text 40" v41 _:"n42" . <"http://e.org/i50"> _:"n51" "value 52"^^"http://e.org/t52" ."##, &grdf_quads![v0 "text 1" <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" "text 11" "text 12" . _:"n20" "text 21" v22 _:"n3" . v30 _:"n31" v32 "text 33" . "text 40" v41 _:"n42" . <"http://e.org/i50"> _:"n51" "value 52"^^"http://e.org/t52" .] as &[Quad], &[(i("http://e.org/v0"), l("text 1", XSD), i("http://e.org/i2"), None), (l("value 10", "http://e.org/t10"), l("text 11", XSD), l("text 12", XSD), None), (b("_:n20"), l("text 21", XSD), i("http://e.org/v22"), Some(b("_:n3"))), (i("http://e.org/v30"), b("_:n31"), i("http://e.org/v32"), Some(l("text 33", XSD))), (l("text 40", XSD), i("http://e.org/v41"), b("_:n42"), None), (i("http://e.org/i50"), b("_:n51"), l("value 52", "http://e.org/t52"), None)]); }
	{ let v12 = var("http://e.org/v12"); let v20 = var("http://e.org/v20"); let v31 = var("http://e.org/v31"); let v52 = var("http://e.org/v52"); c.quads(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 0" "text 11" v12 _:"n3" . v20 <"http://e.org/i21"> "value 2"^^"http://e.org/t2" _:"n23" . <"http://e.org/i0"> v31 "text 32" . "text 0" "value 41"^^"http://e.org/t41" <"http://e.org/i42"> . "text 50" _:"n1" v52 ."##, &grdf_quads!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 0" "text 11" v12 _:"n3" . v20 <"http://e.org/i21"> "value 2"^^"http://e.org/t2" _:"n23" . <"http://e.org/i0"> v31 "text 32" . "text 0" "value 41"^^"http://e.org/t41" <"http://e.org/i42"> . "text 50" _:"n1" v52 .] as &[Quad], &[(l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (l("text 0", XSD), l("text 11", XSD), i("http://e.org/v12"), Some(b("_:n3"))), (i("http://e.org/v20"), i("http://e.org/i21"), l("value 2", "http://e.org/t2"), Some(b("_:n23"))), (i("http://e.org/i0"), i("http://e.org/v31"), l("text 32", XSD), None), (l("text 0", XSD), l("value 41", "http://e.org/t41"), i("http://e.org/i42"), None), (l("text 50", XSD), b("_:n1"), i("http://e.org/v52"), None)]); }
	{ let v1 = var("http://e.org/v1"); let v21 = var("http://e.org/v21"); let v31 = var("http://e.org/v31"); let v33 = var("http://e.org/v33"); let v51 = var("http://e.org/v51"); let v52 = var("http://e.org/v52"); let v72 = var("http://e.org/v72"); let v73 = var("http://e.org/v73"); c.quads(r##"<"http://e.org/i0"> v1 "text 2" "text 3" . "text 10" "value 11"^^"http://e.org/t11" "text 12" . _:"n20" v21 _:"n22" . "value 0"^^"http://e.org/t0" v31 "text 32" v33 . "text 40" <"http://e.org/i41"> <"http://e.org/i42"> . <"http://e.org/i0"> v51 v52 . "text 60" "value 61"^^"http://e.org/t61" "text 2" "value 63"^^"http://e.org/t63" . "text 0" <"http://e.org/i71"> v72 v73 ."##, &grdf_quads![<"http://e.org/i0"> v1 "text 2" "text 3" . "text 10" "value 11"^^"http://e.org/t11" "text 12" . _:"n20" v21 _:"n22" . "value 0"^^"http://e.org/t0" v31 "text 32" v33 . "text 40" <"http://e.org/i41"> <"http://e.org/i42"> . <"http://e.org/i0"> v51 v52 . "text 60" "value 61"^^"http://e.org/t61" "text 2" "value 63"^^"http://e.org/t63" . "text 0" <"http://e.org/i71"> v72 v73 .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/v1"), l("text 2", XSD), Some(l("text 3", XSD))), (l("text 10", XSD), l("value 11", "http://e.org/t11"), l("text 12", XSD), None), (b("_:n20"), i("http://e.org/v21"), b("_:n22"), None), (l("value 0", "http://e.org/t0"), i("http://e.org/v31"), l("text 32", XSD), Some(i("http://e.org/v33"))), (l("text 40", XSD), i("http://e.org/i41"), i("http://e.org/i42"), None), (i("http://e.org/i0"), i("http://e.org/v51"), i("http://e.org/v52"), None), (l("text 60", XSD), l("value 61", "http://e.org/t61"), l("text 2", XSD), Some(l("value 63", "http://e.org/t63"))), (l("text 0", XSD), i("http://e.org/i71"), i("http://e.org/v72"), Some(i("http://e.org/v73")))]); }
	{ let v0 = var("http://e.org/v0"); let v10 = var("http://e.org/v10"); let v12 = var("http://e.org/v12"); let v30 = var("http://e.org/v30"); let v62 = var("http://e.org/v62"); c.quads(r##"v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3" . v10 <"http://e.org/i11"> v12 "text 3" . "value 20"^^"http://e.org/t20" <"http://e.org/i21"> "text 2" "text 23" . v30 _:"n31" _:"n32" "text 33" . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" "value 42"^^"http://e.org/t42" _:"n3" . "value 50"^^"http://e.org/t50" _:"n51" <"http://e.org/i52"> <"http://e.org/i53"> . "text 60" _:"n61" v62 . "value 0"^^"http://e.org/t0" "value 71"^^"http://e.org/t71" "value 72"^^"http://e.org/t72" _:"n73" ."##, &grdf_quads![v0 "value 1"^^"http://e.org/t1" "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3" . v10 <"http://e.org/i11"> v12 "text 3" . "value 20"^^"http://e.org/t20" <"http://e.org/i21"> "text 2" "text 23" . v30 _:"n31" _:"n32" "text 33" . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" "value 42"^^"http://e.org/t42" _:"n3" . "value 50"^^"http://e.org/t50" _:"n51" <"http://e.org/i52"> <"http://e.org/i53"> . "text 60" _:"n61" v62 . "value 0"^^"http://e.org/t0" "value 71"^^"http://e.org/t71" "value 72"^^"http://e.org/t72" _:"n73" .] as &[Quad], &[(i("http://e.org/v0"), l("value 1", "http://e.org/t1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3"))), (i("http://e.org/v10"), i("http://e.org/i11"), i("http://e.org/v12"), Some(l("text 3", XSD))), (l("value 20", "http://e.org/t20"), i("http://e.org/i21"), l("text 2", XSD), Some(l("text 23", XSD))), (i("http://e.org/v30"), b("_:n31"), b("_:n32"), Some(l("text 33", XSD))), (l("value 40", "http://e.org/t40"), l("value 41", "http://e.org/t41"), l("value 42", "http://e.org/t42"), Some(b("_:n3"))), (l("value 50", "http://e.org/t50"), b("_:n51"), i("http://e.org/i52"), Some(i("http://e.org/i53"))), (l("text 60", XSD), b("_:n61"), i("http://e.org/v62"), None), (l("value 0", "http://e.org/t0"), l("value 71", "http://e.org/t71"), l("value 72", "http://e.org/t72"), Some(b("_:n73")))]); }
}

fn lists_3(c: &mut Checks) {
	{ let v1 = var("http://e.org/v1"); let v2 = var("http://e.org/v2"); let v12 = var("http://e.org/v12"); let v32 = var("http://e.org/v32"); let v41 = var("http://e.org/v41"); let v50 = var("http://e.org/v50"); let v61 = var("http://e.org/v61"); let v73 = var("http://e.org/v73"); c.quads(r##""value 0"^^"http://e.org/t0" v1 v2 _:"n3" . <"http://e.org/i10"> _:"n11" v12 . <"http://e.org/i20"> <"http://e.org/i1"> _:"n22" . "value 30"^^"http://e.org/t30" "value 31"^^"http://e.org/t31" v32 "text 33" . _:"n40" v41 "value 42"^^"http://e.org/t42" . v50 <"http://e.org/i51"> "text 2" . "value 60"^^"http://e.org/t60" v61 _:"n62" "value 63"^^"http://e.org/t63" . _:"n70" "text 71" "value 2"^^"http://e.org/t2" v73 ."##, &grdf_quads!["value 0"^^"http://e.org/t0" v1 v2 _:"n3" . <"http://e.org/i10"> _:"n11" v12 . <"http://e.org/i20"> <"http://e.org/i1"> _:"n22" . "value 30"^^"http://e.org/t30" "value 31"^^"http://e.org/t31" v32 "text 33" . _:"n40" v41 "value 42"^^"http://e.org/t42" . v50 <"http://e.org/i51"> "text 2" . "value 60"^^"http://e.org/t60" v61 _:"n62" "value 63"^^"http://e.org/t63" . _:"n70" "text 71" "value 2"^^"http://e.org/t2" v73 .] as &[Quad], &[(l("value 0", "http://e.org/t0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(b("_:n3"))), (i("http://e.org/i10"), b("_:n11"), i("http://e.org/v12"), None), (i("http://e.org/i20"), i("http://e.org/i1"), b("_:n22"), None), (l("value 30", "http://e.org/t30"), l("value 31", "http://e.org/t31"), i("http://e.org/v32"), Some(l("text 33", XSD))), (b("_:n40"), i("http://e.org/v41"), l("value 42", "http://e.org/t42"), None), (i("http://e.org/v50"), i("http://e.org/i51"), l("text 2", XSD), None), (l("value 60", "http://e.org/t60"), i("http://e.org/v61"), b("_:n62"), Some(l("value 63", "http://e.org/t63"))), (b("_:n70"), l("text 71", XSD), l("value 2", "http://e.org/t2"), Some(i("http://e.org/v73")))]); }
	{ let v2 = var("http://e.org/v2"); let v3 = var("http://e.org/v3"); let v31 = var("http://e.org/v31"); let v42 = var("http://e.org/v42"); let v50 = var("http://e.org/v50"); let v62 = var("http://e.org/v62"); let v72 = var("http://e.org/v72"); let v73 = var("http://e.org/v73"); let v80 = var("http://e.org/v80"); let v92 = var("http://e.org/v92"); c.quads(r##"<"http://e.org/i0"> "text 1" v2 v3 . _:"n10" "text 11" <"http://e.org/i2"> "text 13" . _:"n20" _:"n21" <"http://e.org/i22"> <"http://e.org/i23"> . "text 30" v31 "value 2"^^"http://e.org/t2" . "value 40"^^"http://e.org/t40" <"http://e.org/i41"> v42 . v50 <"http://e.org/i51"> "value 52"^^"http://e.org/t52" . "text 0" "value 61"^^"http://e.org/t61" v62 . "value 0"^^"http://e.org/t0" <"http://e.org/i71"> v72 v73 . v80 _:"n81" <"http://e.org/i2"> . _:"n90" "text 91" v92 ."##, &grdf_quads![<"http://e.org/i0"> "text 1" v2 v3 . _:"n10" "text 11" <"http://e.org/i2"> "text 13" . _:"n20" _:"n21" <"http://e.org/i22"> <"http://e.org/i23"> . "text 30" v31 "value 2"^^"http://e.org/t2" . "value 40"^^"http://e.org/t40" <"http://e.org/i41"> v42 . v50 <"http://e.org/i51"> "value 52"^^"http://e.org/t52" . "text 0" "value 61"^^"http://e.org/t61" v62 . "value 0"^^"http://e.org/t0" <"http://e.org/i71"> v72 v73 . v80 _:"n81" <"http://e.org/i2"> . _:"n90" "text 91" v92 .] as &[Quad], &[(i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/v2"), Some(i("http://e.org/v3"))), (b("_:n10"), l("text 11", XSD), i("http://e.org/i2"), Some(l("text 13", XSD))), (b("_:n20"), b("_:n21"), i("http://e.org/i22"), Some(i("http://e.org/i23"))), (l("text 30", XSD), i("http://e.org/v31"), l("value 2", "http://e.org/t2"), None), (l("value 40", "http://e.org/t40"), i("http://e.org/i41"), i("http://e.org/v42"), None), (i("http://e.org/v50"), i("http://e.org/i51"), l("value 52", "http://e.org/t52"), None), (l("text 0", XSD), l("value 61", "http://e.org/t61"), i("http://e.org/v62"), None), (l("value 0", "http://e.org/t0"), i("http://e.org/i71"), i("http://e.org/v72"), Some(i("http://e.org/v73"))), (i("http://e.org/v80"), b("_:n81"), i("http://e.org/i2"), None), (b("_:n90"), l("text 91", XSD), i("http://e.org/v92"), None)]); }
	{ let v20 = var("http://e.org/v20"); let v41 = var("http://e.org/v41"); let v60 = var("http://e.org/v60"); let v72 = var("http://e.org/v72"); c.quads(r##"_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3" . "text 0" "value 11"^^"http://e.org/t11" _:"n12" . v20 <"http://e.org/i21"> "text 22" . _:"n30" "value 1"^^"http://e.org/t1" _:"n32" . "text 40" v41 "text 42" <"http://e.org/i43"> . "value 50"^^"http://e.org/t50" _:"n1" "value 52"^^"http://e.org/t52" _:"n53" . v60 <"http://e.org/i1"> _:"n2" . _:"n0" <"http://e.org/i71"> v72 . "text 80" _:"n81" "value 2"^^"http://e.org/t2" "text 83" . <"http://e.org/i90"> "text 91" "value 92"^^"http://e.org/t92" <"http://e.org/i3"> ."##, &grdf_quads![_:"n0" <"http://e.org/i1"> "value 2"^^"http://e.org/t2" "value 3"^^"http://e.org/t3" . "text 0" "value 11"^^"http://e.org/t11" _:"n12" . v20 <"http://e.org/i21"> "text 22" . _:"n30" "value 1"^^"http://e.org/t1" _:"n32" . "text 40" v41 "text 42" <"http://e.org/i43"> . "value 50"^^"http://e.org/t50" _:"n1" "value 52"^^"http://e.org/t52" _:"n53" . v60 <"http://e.org/i1"> _:"n2" . _:"n0" <"http://e.org/i71"> v72 . "text 80" _:"n81" "value 2"^^"http://e.org/t2" "text 83" . <"http://e.org/i90"> "text 91" "value 92"^^"http://e.org/t92" <"http://e.org/i3"> .] as &[Quad], &[(b("_:n0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), Some(l("value 3", "http://e.org/t3"))), (l("text 0", XSD), l("value 11", "http://e.org/t11"), b("_:n12"), None), (i("http://e.org/v20"), i("http://e.org/i21"), l("text 22", XSD), None), (b("_:n30"), l("value 1", "http://e.org/t1"), b("_:n32"), None), (l("text 40", XSD), i("http://e.org/v41"), l("text 42", XSD), Some(i("http://e.org/i43"))), (l("value 50", "http://e.org/t50"), b("_:n1"), l("value 52", "http://e.org/t52"), Some(b("_:n53"))), (i("http://e.org/v60"), i("http://e.org/i1"), b("_:n2"), None), (b("_:n0"), i("http://e.org/i71"), i("http://e.org/v72"), None), (l("text 80", XSD), b("_:n81"), l("value 2", "http://e.org/t2"), Some(l("text 83", XSD))), (i("http://e.org/i90"), l("text 91", XSD), l("value 92", "http://e.org/t92"), Some(i("http://e.org/i3")))]); }
	{ let v1 = var("http://e.org/v1"); let v3 = var("http://e.org/v3"); let v11 = var("http://e.org/v11"); let v20 = var("http://e.org/v20"); let v21 = var("http://e.org/v21"); let v22 = var("http://e.org/v22"); let v50 = var("http://e.org/v50"); let v60 = var("http://e.org/v60"); let v63 = var("http://e.org/v63"); let v90 = var("http://e.org/v90"); c.quads(r##""value 0"^^"http://e.org/t0" v1 _:"n2" v3 . <"http://e.org/i10"> v11 "value 12"^^"http://e.org/t12" "value 13"^^"http://e.org/t13" . v20 v21 v22 . "text 30" "text 1" _:"n2" . "text 40" "text 41" "value 42"^^"http://e.org/t42" . v50 _:"n1" "value 52"^^"http://e.org/t52" <"http://e.org/i3"> . v60 _:"n61" _:"n62" v63 . "value 70"^^"http://e.org/t70" "text 1" <"http://e.org/i72"> _:"n73" . "text 80" "text 1" <"http://e.org/i82"> . v90 <"http://e.org/i91"> <"http://e.org/i2"> <"http://e.org/i3"> ."##, &grdf_quads!["value 0"^^"http://e.org/t0" v1 _:"n2" v3 . <"http://e.org/i10"> v11 "value 12"^^"http://e.org/t12" "value 13"^^"http://e.org/t13" . v20 v21 v22 . "text 30" "text 1" _:"n2" . "text 40" "text 41" "value 42"^^"http://e.org/t42" . v50 _:"n1" "value 52"^^"http://e.org/t52" <"http://e.org/i3"> . v60 _:"n61" _:"n62" v63 . "value 70"^^"http://e.org/t70" "text 1" <"http://e.org/i72"> _:"n73" . "text 80" "text 1" <"http://e.org/i82"> . v90 <"http://e.org/i91"> <"http://e.org/i2"> <"http://e.org/i3"> .] as &[Quad], &[(l("value 0", "http://e.org/t0"), i("http://e.org/v1"), b("_:n2"), Some(i("http://e.org/v3"))), (i("http://e.org/i10"), i("http://e.org/v11"), l("value 12", "http://e.org/t12"), Some(l("value 13", "http://e.org/t13"))), (i("http://e.org/v20"), i("http://e.org/v21"), i("http://e.org/v22"), None), (l("text 30", XSD), l("text 1", XSD), b("_:n2"), None), (l("text 40", XSD), l("text 41", XSD), l("value 42", "http://e.org/t42"), None), (i("http://e.org/v50"), b("_:n1"), l("value 52", "http://e.org/t52"), Some(i("http://e.org/i3"))), (i("http://e.org/v60"), b("_:n61"), b("_:n62"), Some(i("http://e.org/v63"))), (l("value 70", "http://e.org/t70"), l("text 1", XSD), i("http://e.org/i72"), Some(b("_:n73"))), (l("text 80", XSD), l("text 1", XSD), i("http://e.org/i82"), None), (i("http://e.org/v90"), i("http://e.org/i91"), i("http://e.org/i2"), Some(i("http://e.org/i3")))]); }
	{ let v1 = var("http://e.org/v1"); let v2 = var("http://e.org/v2"); let v12 = var("http://e.org/v12"); let v30 = var("http://e.org/v30"); let v31 = var("http://e.org/v31"); let v41 = var("http://e.org/v41"); let v43 = var("http://e.org/v43"); let v51 = var("http://e.org/v51"); let v72 = var("http://e.org/v72"); let v91 = var("http://e.org/v91"); let v92 = var("http://e.org/v92"); let v93 = var("http://e.org/v93"); let v100 = var("http://e.org/v100"); let v102 = var("http://e.org/v102"); c.quads(r##"_:"n0" v1 v2 <"http://e.org/i3"> . "text 10" _:"n11" v12 "text 13" . _:"n20" "text 21" <"http://e.org/i22"> . v30 v31 "text 32" <"http://e.org/i33"> . "text 40" v41 "text 42" v43 . "text 0" v51 _:"n52" <"http://e.org/i53"> . "text 60" "text 61" <"http://e.org/i2"> _:"n3" . _:"n70" "value 1"^^"http://e.org/t1" v72 _:"n3" . "value 80"^^"http://e.org/t80" "text 81" <"http://e.org/i82"> . <"http://e.org/i90"> v91 v92 v93 . v100 "text 101" v102 . "text 110" _:"n111" "text 2" ."##, &grdf_quads![_:"n0" v1 v2 <"http://e.org/i3"> . "text 10" _:"n11" v12 "text 13" . _:"n20" "text 21" <"http://e.org/i22"> . v30 v31 "text 32" <"http://e.org/i33"> . "text 40" v41 "text 42" v43 . "text 0" v51 _:"n52" <"http://e.org/i53"> . "text 60" "text 61" <"http://e.org/i2"> _:"n3" . _:"n70" "value 1"^^"http://e.org/t1" v72 _:"n3" . "value 80"^^"http://e.org/t80" "text 81" <"http://e.org/i82"> . <"http://e.org/i90"> v91 v92 v93 . v100 "text 101" v102 . "text 110" _:"n111" "text 2" .] as &[Quad], &[(b("_:n0"), i("http://e.org/v1"), i("http://e.org/v2"), Some(i("http://e.org/i3"))), (l("text 10", XSD), b("_:n11"), i("http://e.org/v12"), Some(l("text 13", XSD))), (b("_:n20"), l("text 21", XSD), i("http://e.org/i22"), None), (i("http://e.org/v30"), i("http://e.org/v31"), l("text 32", XSD), Some(i("http://e.org/i33"))), (l("text 40", XSD), i("http://e.org/v41"), l("text 42", XSD), Some(i("http://e.org/v43"))), (l("text 0", XSD), i("http://e.org/v51"), b("_:n52"), Some(i("http://e.org/i53"))), (l("text 60", XSD), l("text 61", XSD), i("http://e.org/i2"), Some(b("_:n3"))), (b("_:n70"), l("value 1", "http://e.org/t1"), i("http://e.org/v72"), Some(b("_:n3"))), (l("value 80", "http://e.org/t80"), l("text 81", XSD), i("http://e.org/i82"), None), (i("http://e.org/i90"), i("http://e.org/v91"), i("http://e.org/v92"), Some(i("http://e.org/v93"))), (i("http://e.org/v100"), l("text 101", XSD), i("http://e.org/v102"), None), (l("text 110", XSD), b("_:n111"), l("text 2", XSD), None)]); }
	{ let v3 = var("http://e.org/v3"); let v10 = var("http://e.org/v10"); let v32 = var("http://e.org/v32"); let v51 = var("http://e.org/v51"); let v60 = var("http://e.org/v60"); let v83 = var("http://e.org/v83"); let v102 = var("http://e.org/v102"); c.quads(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" v3 . v10 "text 11" <"http://e.org/i12"> . "value 20"^^"http://e.org/t20" "text 21" <"http://e.org/i22"> . "value 30"^^"http://e.org/t30" "value 31"^^"http://e.org/t31" v32 . "value 40"^^"http://e.org/t40" <"http://e.org/i41"> _:"n42" <"http://e.org/i43"> . "value 50"^^"http://e.org/t50" v51 _:"n52" . v60 "value 1"^^"http://e.org/t1" _:"n2" . "value 70"^^"http://e.org/t70" "text 1" <"http://e.org/i72"> . "value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" v83 . _:"n90" "value 91"^^"http://e.org/t91" "value 92"^^"http://e.org/t92" . <"http://e.org/i100"> "text 101" v102 . "value 0"^^"http://e.org/t0" "text 111" "value 112"^^"http://e.org/t112" _:"n113" ."##, &grdf_quads!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> "text 2" v3 . v10 "text 11" <"http://e.org/i12"> . "value 20"^^"http://e.org/t20" "text 21" <"http://e.org/i22"> . "value 30"^^"http://e.org/t30" "value 31"^^"http://e.org/t31" v32 . "value 40"^^"http://e.org/t40" <"http://e.org/i41"> _:"n42" <"http://e.org/i43"> . "value 50"^^"http://e.org/t50" v51 _:"n52" . v60 "value 1"^^"http://e.org/t1" _:"n2" . "value 70"^^"http://e.org/t70" "text 1" <"http://e.org/i72"> . "value 0"^^"http://e.org/t0" <"http://e.org/i1"> _:"n2" v83 . _:"n90" "value 91"^^"http://e.org/t91" "value 92"^^"http://e.org/t92" . <"http://e.org/i100"> "text 101" v102 . "value 0"^^"http://e.org/t0" "text 111" "value 112"^^"http://e.org/t112" _:"n113" .] as &[Quad], &[(l("value 0", "http://e.org/t0"), i("http://e.org/i1"), l("text 2", XSD), Some(i("http://e.org/v3"))), (i("http://e.org/v10"), l("text 11", XSD), i("http://e.org/i12"), None), (l("value 20", "http://e.org/t20"), l("text 21", XSD), i("http://e.org/i22"), None), (l("value 30", "http://e.org/t30"), l("value 31", "http://e.org/t31"), i("http://e.org/v32"), None), (l("value 40", "http://e.org/t40"), i("http://e.org/i41"), b("_:n42"), Some(i("http://e.org/i43"))), (l("value 50", "http://e.org/t50"), i("http://e.org/v51"), b("_:n52"), None), (i("http://e.org/v60"), l("value 1", "http://e.org/t1"), b("_:n2"), None), (l("value 70", "http://e.org/t70"), l("text 1", XSD), i("http://e.org/i72"), None), (l("value 0", "http://e.org/t0"), i("http://e.org/i1"), b("_:n2"), Some(i("http://e.org/v83"))), (b("_:n90"), l("value 91", "http://e.org/t91"), l("value 92", "http://e.org/t92"), None), (i("http://e.org/i100"), l("text 101", XSD), i("http://e.org/v102"), None), (l("value 0", "http://e.org/t0"), l("text 111", XSD), l("value 112", "http://e.org/t112"), Some(b("_:n113")))]); }
	{ let v10 = var("http://e.org/v10"); let v43 = var("http://e.org/v43"); let v53 = var("http://e.org/v53"); let v60 = var("http://e.org/v60"); let v63 = var("http://e.org/v63"); let v70 = var("http://e.org/v70"); let v110 = var("http://e.org/v110"); let v111 = var("http://e.org/v111"); c.quads(r##""value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> . v10 _:"n1" "value 12"^^"http://e.org/t12" . <"http://e.org/i20"> _:"n21" "text 22" . "text 30" _:"n1" _:"n32" . <"http://e.org/i40"> "text 41" "text 42" v43 . <"http://e.org/i0"> "value 51"^^"http://e.org/t51" <"http://e.org/i52"> v53 . v60 _:"n61" "value 62"^^"http://e.org/t62" v63 . v70 <"http://e.org/i1"> _:"n72" "value 73"^^"http://e.org/t73" . "text 0" <"http://e.org/i81"> <"http://e.org/i82"> "text 83" . "text 0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 100" _:"n1" "value 102"^^"http://e.org/t102" . v110 v111 "text 112" ."##, &grdf_quads!["value 0"^^"http://e.org/t0" "text 1" <"http://e.org/i2"> . v10 _:"n1" "value 12"^^"http://e.org/t12" . <"http://e.org/i20"> _:"n21" "text 22" . "text 30" _:"n1" _:"n32" . <"http://e.org/i40"> "text 41" "text 42" v43 . <"http://e.org/i0"> "value 51"^^"http://e.org/t51" <"http://e.org/i52"> v53 . v60 _:"n61" "value 62"^^"http://e.org/t62" v63 . v70 <"http://e.org/i1"> _:"n72" "value 73"^^"http://e.org/t73" . "text 0" <"http://e.org/i81"> <"http://e.org/i82"> "text 83" . "text 0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 100" _:"n1" "value 102"^^"http://e.org/t102" . v110 v111 "text 112" .] as &[Quad], &[(l("value 0", "http://e.org/t0"), l("text 1", XSD), i("http://e.org/i2"), None), (i("http://e.org/v10"), b("_:n1"), l("value 12", "http://e.org/t12"), None), (i("http://e.org/i20"), b("_:n21"), l("text 22", XSD), None), (l("text 30", XSD), b("_:n1"), b("_:n32"), None), (i("http://e.org/i40"), l("text 41", XSD), l("text 42", XSD), Some(i("http://e.org/v43"))), (i("http://e.org/i0"), l("value 51", "http://e.org/t51"), i("http://e.org/i52"), Some(i("http://e.org/v53"))), (i("http://e.org/v60"), b("_:n61"), l("value 62", "http://e.org/t62"), Some(i("http://e.org/v63"))), (i("http://e.org/v70"), i("http://e.org/i1"), b("_:n72"), Some(l("value 73", "http://e.org/t73"))), (l("text 0", XSD), i("http://e.org/i81"), i("http://e.org/i82"), Some(l("text 83", XSD))), (l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), None), (l("text 100", XSD), b("_:n1"), l("value 102", "http://e.org/t102"), None), (i("http://e.org/v110"), i("http://e.org/v111"), l("text 112", XSD), None)]); }
	{ let v0 = var("http://e.org/v0"); let v3 = var("http://e.org/v3"); let v12 = var("http://e.org/v12"); let v21 = var("http://e.org/v21"); let v22 = var("http://e.org/v22"); let v60 = var("http://e.org/v60"); let v62 = var("http://e.org/v62"); let v72 = var("http://e.org/v72"); let v91 = var("http://e.org/v91"); let v101 = var("http://e.org/v101"); let v133 = var("http://e.org/v133"); let v152 = var("http://e.org/v152"); c.quads(r##"v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3 . "value 10"^^"http://e.org/t10" "value 11"^^"http://e.org/t11" v12 . <"http://e.org/i0"> v21 v22 <"http://e.org/i23"> . "value 0"^^"http://e.org/t0" <"http://e.org/i31"> "value 32"^^"http://e.org/t32" . _:"n40" _:"n1" "value 2"^^"http://e.org/t2" . "value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" . v60 "text 61" v62 . <"http://e.org/i70"> "text 71" v72 _:"n73" . _:"n80" _:"n81" "text 82" . _:"n90" v91 "value 2"^^"http://e.org/t2" . <"http://e.org/i100"> v101 "text 102" . _:"n110" "text 1" "value 112"^^"http://e.org/t112" "value 113"^^"http://e.org/t113" . "text 120" "value 1"^^"http://e.org/t1" "text 2" "text 3" . "value 130"^^"http://e.org/t130" "value 131"^^"http://e.org/t131" _:"n2" v133 . <"http://e.org/i0"> <"http://e.org/i141"> "text 142" . _:"n0" "value 1"^^"http://e.org/t1" v152 ."##, &grdf_quads![v0 "value 1"^^"http://e.org/t1" <"http://e.org/i2"> v3 . "value 10"^^"http://e.org/t10" "value 11"^^"http://e.org/t11" v12 . <"http://e.org/i0"> v21 v22 <"http://e.org/i23"> . "value 0"^^"http://e.org/t0" <"http://e.org/i31"> "value 32"^^"http://e.org/t32" . _:"n40" _:"n1" "value 2"^^"http://e.org/t2" . "value 0"^^"http://e.org/t0" "value 1"^^"http://e.org/t1" "text 2" . v60 "text 61" v62 . <"http://e.org/i70"> "text 71" v72 _:"n73" . _:"n80" _:"n81" "text 82" . _:"n90" v91 "value 2"^^"http://e.org/t2" . <"http://e.org/i100"> v101 "text 102" . _:"n110" "text 1" "value 112"^^"http://e.org/t112" "value 113"^^"http://e.org/t113" . "text 120" "value 1"^^"http://e.org/t1" "text 2" "text 3" . "value 130"^^"http://e.org/t130" "value 131"^^"http://e.org/t131" _:"n2" v133 . <"http://e.org/i0"> <"http://e.org/i141"> "text 142" . _:"n0" "value 1"^^"http://e.org/t1" v152 .] as &[Quad], &[(i("http://e.org/v0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), Some(i("http://e.org/v3"))), (l("value 10", "http://e.org/t10"), l("value 11", "http://e.org/t11"), i("http://e.org/v12"), None), (i("http://e.org/i0"), i("http://e.org/v21"), i("http://e.org/v22"), Some(i("http://e.org/i23"))), (l("value 0", "http://e.org/t0"), i("http://e.org/i31"), l("value 32", "http://e.org/t32"), None), (b("_:n40"), b("_:n1"), l("value 2", "http://e.org/t2"), None), (l("value 0", "http://e.org/t0"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None), (i("http://e.org/v60"), l("text 61", XSD), i("http://e.org/v62"), None), (i("http://e.org/i70"), l("text 71", XSD), i("http://e.org/v72"), Some(b("_:n73"))), (b("_:n80"), b("_:n81"), l("text 82", XSD), None), (b("_:n90"), i("http://e.org/v91"), l("value 2", "http://e.org/t2"), None), (i("http://e.org/i100"), i("http://e.org/v101"), l("text 102", XSD), None), (b("_:n110"), l("text 1", XSD), l("value 112", "http://e.org/t112"), Some(l("value 113", "http://e.org/t113"))), (l("text 120", XSD), l("value 1", "http://e.org/t1"), l("text 2", XSD), Some(l("text 3", XSD))), (l("value 130", "http://e.org/t130"), l("value 131", "http://e.org/t131"), b("_:n2"), Some(i("http://e.org/v133"))), (i("http://e.org/i0"), i("http://e.org/i141"), l("text 142", XSD), None), (b("_:n0"), l("value 1", "http://e.org/t1"), i("http://e.org/v152"), None)]); }
	{ let v1 = var("http://e.org/v1"); let v31 = var("http://e.org/v31"); let v50 = var("http://e.org/v50"); let v51 = var("http://e.org/v51"); let v62 = var("http://e.org/v62"); let v80 = var("http://e.org/v80"); let v82 = var("http://e.org/v82"); let v102 = var("http://e.org/v102"); let v112 = var("http://e.org/v112"); let v132 = var("http://e.org/v132"); let v150 = var("http://e.org/v150"); let v151 = var("http://e.org/v151"); let v153 = var("http://e.org/v153"); c.quads(r##""text 0" v1 _:"n2" _:"n3" . "value 0"^^"http://e.org/t0" _:"n11" "text 12" "text 13" . _:"n20" "value 1"^^"http://e.org/t1" "text 22" "text 23" . "value 0"^^"http://e.org/t0" v31 _:"n32" "text 33" . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" "value 42"^^"http://e.org/t42" . v50 v51 _:"n2" _:"n53" . "value 0"^^"http://e.org/t0" "text 61" v62 <"http://e.org/i63"> . "value 0"^^"http://e.org/t0" "value 71"^^"http://e.org/t71" <"http://e.org/i72"> . v80 "text 81" v82 "text 3" . "value 0"^^"http://e.org/t0" _:"n91" _:"n2" . <"http://e.org/i100"> "value 101"^^"http://e.org/t101" v102 . <"http://e.org/i110"> <"http://e.org/i1"> v112 _:"n113" . "value 120"^^"http://e.org/t120" "text 121" <"http://e.org/i122"> . "text 130" "text 131" v132 _:"n3" . <"http://e.org/i140"> "value 141"^^"http://e.org/t141" _:"n142" . v150 v151 _:"n152" v153 ."##, &grdf_quads!["text 0" v1 _:"n2" _:"n3" . "value 0"^^"http://e.org/t0" _:"n11" "text 12" "text 13" . _:"n20" "value 1"^^"http://e.org/t1" "text 22" "text 23" . "value 0"^^"http://e.org/t0" v31 _:"n32" "text 33" . "value 40"^^"http://e.org/t40" "value 41"^^"http://e.org/t41" "value 42"^^"http://e.org/t42" . v50 v51 _:"n2" _:"n53" . "value 0"^^"http://e.org/t0" "text 61" v62 <"http://e.org/i63"> . "value 0"^^"http://e.org/t0" "value 71"^^"http://e.org/t71" <"http://e.org/i72"> . v80 "text 81" v82 "text 3" . "value 0"^^"http://e.org/t0" _:"n91" _:"n2" . <"http://e.org/i100"> "value 101"^^"http://e.org/t101" v102 . <"http://e.org/i110"> <"http://e.org/i1"> v112 _:"n113" . "value 120"^^"http://e.org/t120" "text 121" <"http://e.org/i122"> . "text 130" "text 131" v132 _:"n3" . <"http://e.org/i140"> "value 141"^^"http://e.org/t141" _:"n142" . v150 v151 _:"n152" v153 .] as &[Quad], &[(l("text 0", XSD), i("http://e.org/v1"), b("_:n2"), Some(b("_:n3"))), (l("value 0", "http://e.org/t0"), b("_:n11"), l("text 12", XSD), Some(l("text 13", XSD))), (b("_:n20"), l("value 1", "http://e.org/t1"), l("text 22", XSD), Some(l("text 23", XSD))), (l("value 0", "http://e.org/t0"), i("http://e.org/v31"), b("_:n32"), Some(l("text 33", XSD))), (l("value 40", "http://e.org/t40"), l("value 41", "http://e.org/t41"), l("value 42", "http://e.org/t42"), None), (i("http://e.org/v50"), i("http://e.org/v51"), b("_:n2"), Some(b("_:n53"))), (l("value 0", "http://e.org/t0"), l("text 61", XSD), i("http://e.org/v62"), Some(i("http://e.org/i63"))), (l("value 0", "http://e.org/t0"), l("value 71", "http://e.org/t71"), i("http://e.org/i72"), None), (i("http://e.org/v80"), l("text 81", XSD), i("http://e.org/v82"), Some(l("text 3", XSD))), (l("value 0", "http://e.org/t0"), b("_:n91"), b("_:n2"), None), (i("http://e.org/i100"), l("value 101", "http://e.org/t101"), i("http://e.org/v102"), None), (i("http://e.org/i110"), i("http://e.org/i1"), i("http://e.org/v112"), Some(b("_:n113"))), (l("value 120", "http://e.org/t120"), l("text 121", XSD), i("http://e.org/i122"), None), (l("text 130", XSD), l("text 131", XSD), i("http://e.org/v132"), Some(b("_:n3"))), (i("http://e.org/i140"), l("value 141", "http://e.org/t141"), b("_:n142"), None), (i("http://e.org/v150"), i("http://e.org/v151"), b("_:n152"), Some(i("http://e.org/v153")))]); }
	{ let v1 = var("http://e.org/v1"); let v11 = var("http://e.org/v11"); let v12 = var("http://e.org/v12"); let v21 = var("http://e.org/v21"); let v51 = var("http://e.org/v51"); let v60 = var("http://e.org/v60"); let v101 = var("http://e.org/v101"); let v120 = var("http://e.org/v120"); let v131 = var("http://e.org/v131"); let v132 = var("http://e.org/v132"); let v152 = var("http://e.org/v152"); c.quads(r##"_:"n0" v1 "value 2"^^"http://e.org/t2" . "text 0" v11 v12 . _:"n20" v21 "text 2" _:"n23" . "text 0" <"http://e.org/i1"> "text 32" _:"n33" . <"http://e.org/i40"> "value 1"^^"http://e.org/t1" "text 2" . "value 50"^^"http://e.org/t50" v51 <"http://e.org/i52"> <"http://e.org/i53"> . v60 _:"n1" "value 62"^^"http://e.org/t62" . _:"n0" "text 71" "text 72" . _:"n80" _:"n1" "text 2" . _:"n90" "text 91" "text 92" "text 93" . "text 0" v101 <"http://e.org/i102"> . <"http://e.org/i110"> "text 1" <"http://e.org/i112"> _:"n113" . v120 _:"n121" _:"n122" . "value 130"^^"http://e.org/t130" v131 v132 . "value 0"^^"http://e.org/t0" "text 141" _:"n142" . "value 0"^^"http://e.org/t0" <"http://e.org/i151"> v152 <"http://e.org/i153"> ."##, &grdf_quads![_:"n0" v1 "value 2"^^"http://e.org/t2" . "text 0" v11 v12 . _:"n20" v21 "text 2" _:"n23" . "text 0" <"http://e.org/i1"> "text 32" _:"n33" . <"http://e.org/i40"> "value 1"^^"http://e.org/t1" "text 2" . "value 50"^^"http://e.org/t50" v51 <"http://e.org/i52"> <"http://e.org/i53"> . v60 _:"n1" "value 62"^^"http://e.org/t62" . _:"n0" "text 71" "text 72" . _:"n80" _:"n1" "text 2" . _:"n90" "text 91" "text 92" "text 93" . "text 0" v101 <"http://e.org/i102"> . <"http://e.org/i110"> "text 1" <"http://e.org/i112"> _:"n113" . v120 _:"n121" _:"n122" . "value 130"^^"http://e.org/t130" v131 v132 . "value 0"^^"http://e.org/t0" "text 141" _:"n142" . "value 0"^^"http://e.org/t0" <"http://e.org/i151"> v152 <"http://e.org/i153"> .] as &[Quad], &[(b("_:n0"), i("http://e.org/v1"), l("value 2", "http://e.org/t2"), None), (l("text 0", XSD), i("http://e.org/v11"), i("http://e.org/v12"), None), (b("_:n20"), i("http://e.org/v21"), l("text 2", XSD), Some(b("_:n23"))), (l("text 0", XSD), i("http://e.org/i1"), l("text 32", XSD), Some(b("_:n33"))), (i("http://e.org/i40"), l("value 1", "http://e.org/t1"), l("text 2", XSD), None), (l("value 50", "http://e.org/t50"), i("http://e.org/v51"), i("http://e.org/i52"), Some(i("http://e.org/i53"))), (i("http://e.org/v60"), b("_:n1"), l("value 62", "http://e.org/t62"), None), (b("_:n0"), l("text 71", XSD), l("text 72", XSD), None), (b("_:n80"), b("_:n1"), l("text 2", XSD), None), (b("_:n90"), l("text 91", XSD), l("text 92", XSD), Some(l("text 93", XSD))), (l("text 0", XSD), i("http://e.org/v101"), i("http://e.org/i102"), None), (i("http://e.org/i110"), l("text 1", XSD), i("http://e.org/i112"), Some(b("_:n113"))), (i("http://e.org/v120"), b("_:n121"), b("_:n122"), None), (l("value 130", "http://e.org/t130"), i("http://e.org/v131"), i("http://e.org/v132"), None), (l("value 0", "http://e.org/t0"), l("text 141", XSD), b("_:n142"), None), (l("value 0", "http://e.org/t0"), i("http://e.org/i151"), i("http://e.org/v152"), Some(i("http://e.org/i153")))]); }
	{ c.quads(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> . _:"n10" <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> . _:"n10" <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (b("_:n10"), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> . _:"n10" <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples![_:"n0" <"http://e.org/i1"> <"http://e.org/i2"> . _:"n10" <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(b("_:n0"), i("http://e.org/i1"), i("http://e.org/i2")), (b("_:n10"), i("http://e.org/i11"), i("http://e.org/i12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2")), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"))]); }
	{ c.quads(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 10" <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 10" <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2"), None), (l("text 10", XSD), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##""text 0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 10" <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples!["text 0" <"http://e.org/i1"> <"http://e.org/i2"> . "text 10" <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(l("text 0", XSD), i("http://e.org/i1"), i("http://e.org/i2")), (l("text 10", XSD), i("http://e.org/i11"), i("http://e.org/i12"))]); }
	{ c.quads(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (l("value 10", "http://e.org/t10"), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##""value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples!["value 0"^^"http://e.org/t0" <"http://e.org/i1"> <"http://e.org/i2"> . "value 10"^^"http://e.org/t10" <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(l("value 0", "http://e.org/t0"), i("http://e.org/i1"), i("http://e.org/i2")), (l("value 10", "http://e.org/t10"), i("http://e.org/i11"), i("http://e.org/i12"))]); }
	{ let v0 = var("http://e.org/v0"); let v10 = var("http://e.org/v10"); c.quads(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> . v10 <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads![v0 <"http://e.org/i1"> <"http://e.org/i2"> . v10 <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (i("http://e.org/v10"), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ let v0 = var("http://e.org/v0"); let v10 = var("http://e.org/v10"); c.triples(r##"v0 <"http://e.org/i1"> <"http://e.org/i2"> . v10 <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples![v0 <"http://e.org/i1"> <"http://e.org/i2"> . v10 <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/v0"), i("http://e.org/i1"), i("http://e.org/i2")), (i("http://e.org/v10"), i("http://e.org/i11"), i("http://e.org/i12"))]); }
}

fn lists_4(c: &mut Checks) {
	{ c.quads(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> . <"http://e.org/i10"> _:"n11" <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> . <"http://e.org/i10"> _:"n11" <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2"), None), (i("http://e.org/i10"), b("_:n11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> . <"http://e.org/i10"> _:"n11" <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> _:"n1" <"http://e.org/i2"> . <"http://e.org/i10"> _:"n11" <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), b("_:n1"), i("http://e.org/i2")), (i("http://e.org/i10"), b("_:n11"), i("http://e.org/i12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2")), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> . <"http://e.org/i10"> "text 11" <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> . <"http://e.org/i10"> "text 11" <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2"), None), (i("http://e.org/i10"), l("text 11", XSD), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> "text 1" <"http://e.org/i2"> . <"http://e.org/i10"> "text 11" <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> "text 1" <"http://e.org/i2"> . <"http://e.org/i10"> "text 11" <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), l("text 1", XSD), i("http://e.org/i2")), (i("http://e.org/i10"), l("text 11", XSD), i("http://e.org/i12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> . <"http://e.org/i10"> "value 11"^^"http://e.org/t11" <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> . <"http://e.org/i10"> "value 11"^^"http://e.org/t11" <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2"), None), (i("http://e.org/i10"), l("value 11", "http://e.org/t11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> . <"http://e.org/i10"> "value 11"^^"http://e.org/t11" <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> "value 1"^^"http://e.org/t1" <"http://e.org/i2"> . <"http://e.org/i10"> "value 11"^^"http://e.org/t11" <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), l("value 1", "http://e.org/t1"), i("http://e.org/i2")), (i("http://e.org/i10"), l("value 11", "http://e.org/t11"), i("http://e.org/i12"))]); }
	{ let v1 = var("http://e.org/v1"); let v11 = var("http://e.org/v11"); c.quads(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> . <"http://e.org/i10"> v11 <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> v1 <"http://e.org/i2"> . <"http://e.org/i10"> v11 <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2"), None), (i("http://e.org/i10"), i("http://e.org/v11"), i("http://e.org/i12"), None)]); }
	{ let v1 = var("http://e.org/v1"); let v11 = var("http://e.org/v11"); c.triples(r##"<"http://e.org/i0"> v1 <"http://e.org/i2"> . <"http://e.org/i10"> v11 <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> v1 <"http://e.org/i2"> . <"http://e.org/i10"> v11 <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/v1"), i("http://e.org/i2")), (i("http://e.org/i10"), i("http://e.org/v11"), i("http://e.org/i12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" . <"http://e.org/i10"> <"http://e.org/i11"> _:"n12" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" . <"http://e.org/i10"> <"http://e.org/i11"> _:"n12" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2"), None), (i("http://e.org/i10"), i("http://e.org/i11"), b("_:n12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" . <"http://e.org/i10"> <"http://e.org/i11"> _:"n12" ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> _:"n2" . <"http://e.org/i10"> <"http://e.org/i11"> _:"n12" .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), b("_:n2")), (i("http://e.org/i10"), i("http://e.org/i11"), b("_:n12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), None), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2")), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" . <"http://e.org/i10"> <"http://e.org/i11"> "text 12" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" . <"http://e.org/i10"> <"http://e.org/i11"> "text 12" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD), None), (i("http://e.org/i10"), i("http://e.org/i11"), l("text 12", XSD), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> "text 2" . <"http://e.org/i10"> <"http://e.org/i11"> "text 12" ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> "text 2" . <"http://e.org/i10"> <"http://e.org/i11"> "text 12" .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), l("text 2", XSD)), (i("http://e.org/i10"), i("http://e.org/i11"), l("text 12", XSD))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . <"http://e.org/i10"> <"http://e.org/i11"> "value 12"^^"http://e.org/t12" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . <"http://e.org/i10"> <"http://e.org/i11"> "value 12"^^"http://e.org/t12" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2"), None), (i("http://e.org/i10"), i("http://e.org/i11"), l("value 12", "http://e.org/t12"), None)]); }
	{ c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . <"http://e.org/i10"> <"http://e.org/i11"> "value 12"^^"http://e.org/t12" ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> "value 2"^^"http://e.org/t2" . <"http://e.org/i10"> <"http://e.org/i11"> "value 12"^^"http://e.org/t12" .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), l("value 2", "http://e.org/t2")), (i("http://e.org/i10"), i("http://e.org/i11"), l("value 12", "http://e.org/t12"))]); }
	{ let v2 = var("http://e.org/v2"); let v12 = var("http://e.org/v12"); c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 . <"http://e.org/i10"> <"http://e.org/i11"> v12 ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> v2 . <"http://e.org/i10"> <"http://e.org/i11"> v12 .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2"), None), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/v12"), None)]); }
	{ let v2 = var("http://e.org/v2"); let v12 = var("http://e.org/v12"); c.triples(r##"<"http://e.org/i0"> <"http://e.org/i1"> v2 . <"http://e.org/i10"> <"http://e.org/i11"> v12 ."##, &grdf_triples![<"http://e.org/i0"> <"http://e.org/i1"> v2 . <"http://e.org/i10"> <"http://e.org/i11"> v12 .] as &[Triple], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/v2")), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/v12"))]); }
}

fn lists_5(c: &mut Checks) {
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> _:"n3" . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> _:"n13" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> _:"n3" . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> _:"n13" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(b("_:n3"))), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), Some(b("_:n13")))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> <"http://e.org/i13"> ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> <"http://e.org/i3"> . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> <"http://e.org/i13"> .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/i3"))), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), Some(i("http://e.org/i13")))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "text 3" . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> "text 13" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "text 3" . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> "text 13" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("text 3", XSD))), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), Some(l("text 13", XSD)))]); }
	{ c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3" . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> "value 13"^^"http://e.org/t13" ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> "value 3"^^"http://e.org/t3" . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> "value 13"^^"http://e.org/t13" .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(l("value 3", "http://e.org/t3"))), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), Some(l("value 13", "http://e.org/t13")))]); }
	{ let v3 = var("http://e.org/v3"); let v13 = var("http://e.org/v13"); c.quads(r##"<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> v3 . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> v13 ."##, &grdf_quads![<"http://e.org/i0"> <"http://e.org/i1"> <"http://e.org/i2"> v3 . <"http://e.org/i10"> <"http://e.org/i11"> <"http://e.org/i12"> v13 .] as &[Quad], &[(i("http://e.org/i0"), i("http://e.org/i1"), i("http://e.org/i2"), Some(i("http://e.org/v3"))), (i("http://e.org/i10"), i("http://e.org/i11"), i("http://e.org/i12"), Some(i("http://e.org/v13")))]); }
}

fn special(c: &mut Checks) {
	let texts: [(Triple, &str); 8] = [
		(grdf_triple![_:"a" _:"b" ""], ""),
		(grdf_triple![_:"a" _:"b" "\"\\\n\t"], "\"\\\n\t"),
		(grdf_triple![_:"a" _:"b" r"\n"], r"\n"),
		(grdf_triple![_:"a" _:"b" r#"a"b"#], r#"a"b"#),
		(grdf_triple![_:"a" _:"b" "_:b"], "_:b"),
		(grdf_triple![_:"a" _:"b" "http://e.org/a"], "http://e.org/a"),
		(grdf_triple![_:"a" _:"b" "日本 😀 \u{0}"], "日本 😀 \u{0}"),
		(grdf_triple![_:"a" _:"b" "?x . ^^"], "?x . ^^"),
	];
	for (t, s) in texts {
		c.triple(s, t, (b("_:a"), b("_:b"), l(s, XSD)));
	}
	c.triple("labels", grdf_triple![_:"0" _:"é" _:"a-b"], (b("_:0"), b("_:é"), b("_:a-b")));
	c.triple(
		"typed",
		grdf_triple!["" ^^ "http://e.org/t" "a"^^"urn:x:y" "x"^^"http://www.w3.org/2001/XMLSchema#string"],
		(l("", "http://e.org/t"), l("a", "urn:x:y"), l("x", XSD)),
	);
	// Variables of each convertible type.
	{
		let s: rdf_types::BlankIdBuf = blank("_:s");
		let p: rdf_types::Term = i("http://e.org/p").term().unwrap();
		let o: rdf_types::Literal = MT::Lit("x".to_owned(), MTy::Lang("en".to_owned())).literal().unwrap();
		let g: LocalTerm = b("_:g").local();
		c.quad(
			"s p o g",
			grdf_quad![s p o g],
			(b("_:s"), i("http://e.org/p"), MT::Lit("x".to_owned(), MTy::Lang("en".to_owned())), Some(b("_:g"))),
		);
	}
	{
		let acc: LocalTerm = b("_:acc").local();
		let id: LocalTerm = b("_:id").local();
		let value: LocalTerm = b("_:value").local();
		let ty: LocalTerm = b("_:ty").local();
		c.quad("acc id value ty", grdf_quad! { acc id value ty }, (b("_:acc"), b("_:id"), b("_:value"), Some(b("_:ty"))));
		let (current, rest, t, iri) = (b("_:c").local(), b("_:r").local(), b("_:t").local(), b("_:i").local());
		c.quads(
			"current rest t iri .",
			&grdf_quads! { current rest t iri . },
			&[(b("_:c"), b("_:r"), b("_:t"), Some(b("_:i")))],
		);
	}
	{
		// The same pattern variable in several positions.
		let x = 4usize;
		c.pattern("?x ?x ?x ?x", grdf_quad_pattern! [ ?x ?x ?x ?x ], (V(4), V(4), V(4), Some(V(4))));
		c.pattern("?x ?x ?x", grdf_quad_pattern! ( ?x ?x ?x ), (V(4), V(4), V(4), None));
		// Pattern variables of another type.
		let (s, g) = ("s", "g");
		let q = grdf_quad_pattern![?s _:"p" "o" ?g];
		let same = q.0 == ResourceOrVar::Var("s")
			&& q.1 == ResourceOrVar::Resource(b("_:p").local())
			&& q.2 == ResourceOrVar::Resource(l("o", XSD).local())
			&& q.3 == Some(ResourceOrVar::Var("g"));
		c.used("grdf_quad_pattern", "?s _:\"p\" \"o\" ?g", 1);
		if !same {
			c.fail("grdf_quad_pattern", "?s _:\"p\" \"o\" ?g", &q, &"the pattern spelled")
		}
	}
	// By path, as an argument, in a loop.
	for k in 0..3usize {
		let v = LocalTerm::iri(var(&format!("http://e.org/{k}")));
		c.quad(
			"v in a loop",
			rdf_types::grdf_quad!(v <"http://e.org/p"> "o"),
			(i(&format!("http://e.org/{k}")), i("http://e.org/p"), l("o", XSD), None),
		);
		c.pattern(
			"?k in a loop",
			rdf_types::grdf_quad_pattern!(?k <"http://e.org/p"> "o"^^"http://e.org/t" _:"g"),
			(V(k), R(i("http://e.org/p")), R(l("o", "http://e.org/t")), Some(R(b("_:g")))),
		);
	}
	c.triples("nothing", &rdf_types::grdf_triples![] as &[Triple; 0], &[]);
	c.quads("nothing", &rdf_types::grdf_quads![] as &[Quad; 0], &[]);
}

fn main() {
	let mut c = Checks { uses: 0, statements: 0, kinds: Default::default(), samples: Vec::new() };
	triples_all_0(&mut c);
	triples_all_1(&mut c);
	triples_all_2(&mut c);
	quads_all_0(&mut c);
	quads_all_1(&mut c);
	quads_all_2(&mut c);
	quads_all_3(&mut c);
	quads_all_4(&mut c);
	quads_all_5(&mut c);
	quads_all_6(&mut c);
	quads_all_7(&mut c);
	quads_all_8(&mut c);
	quads_all_9(&mut c);
	quads_all_10(&mut c);
	quads_all_11(&mut c);
	quads_all_12(&mut c);
	patterns_all_0(&mut c);
	patterns_all_1(&mut c);
	patterns_all_2(&mut c);
	patterns_all_3(&mut c);
	patterns_all_4(&mut c);
	patterns_all_5(&mut c);
	patterns_all_6(&mut c);
	patterns_all_7(&mut c);
	patterns_all_8(&mut c);
	patterns_all_9(&mut c);
	patterns_all_10(&mut c);
	patterns_all_11(&mut c);
	patterns_all_12(&mut c);
	patterns_all_13(&mut c);
	patterns_all_14(&mut c);
	patterns_all_15(&mut c);
	patterns_all_16(&mut c);
	patterns_all_17(&mut c);
	patterns_all_18(&mut c);
	patterns_all_19(&mut c);
	patterns_all_20(&mut c);
	patterns_all_21(&mut c);
	patterns_all_22(&mut c);
	patterns_all_23(&mut c);
	patterns_all_24(&mut c);
	patterns_all_25(&mut c);
	lists_0(&mut c);
	lists_1(&mut c);
	lists_2(&mut c);
	lists_3(&mut c);
	lists_4(&mut c);
	lists_5(&mut c);
	special(&mut c);
	println!("USES {}", c.uses);
	println!("STATEMENTS {}", c.statements);
	for (k, n) in &c.kinds {
		println!("KIND {k} {n}");
	}
	for s in &c.samples {
		println!("SAMPLE {s}");
	}
}
