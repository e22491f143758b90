//! C18, C19: generators and interpretations.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use iref::Iri;
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::fallible::{
	FallibleGenerativeInterpretation, TraversableFallibleInterpretation,
};
use rdf_types::interpretation::*;
use rdf_types::*;

use crate::common::*;
use crate::elem::iri;
use crate::ensure;
use crate::mterm::*;
use crate::props::terms::grammar;

// ------------------------------------------- a user-defined interpretation

/// Interpretation keeping a table of terms, defined by its required methods.
/// Several terms may denote one resource.
#[derive(Default, Clone)]
pub struct Table {
	by_term: BTreeMap<MT, usize>,
	iris: BTreeMap<usize, Vec<iref::IriBuf>>,
	literals: BTreeMap<usize, Vec<Literal>>,
	blanks: BTreeMap<usize, Vec<BlankIdBuf>>,
	resources: Vec<usize>,
	/// Terms given to the required methods, in order.
	calls: Vec<MT>,
}

impl Table {
	fn fresh(&mut self) -> usize {
		let n = self.resources.len() * 7 + 3;
		self.resources.push(n);
		n
	}

	fn add(&mut self, t: MT) -> usize {
		self.calls.push(t.clone());
		if let Some(r) = self.by_term.get(&t) {
			return *r;
		}
		let r = self.fresh();
		self.assign(t, r);
		r
	}

	/// Makes `t` denote `r` too.
	fn assign(&mut self, t: MT, r: usize) {
		if self.by_term.insert(t.clone(), r).is_some() {
			panic!("harness: term already assigned")
		}
		match &t {
			MT::Blank(b) => self.blanks.entry(r).or_default().push(blank(b)),
			MT::Iri(i) => self.iris.entry(r).or_default().push(iri(i)),
			MT::Lit(..) => self
				.literals
				.entry(r)
				.or_default()
				.push(t.literal().unwrap()),
		}
	}
}

impl Interpretation for Table {
	type Resource = usize;

	fn iri(&self, iri: &Iri) -> Option<usize> {
		self.by_term.get(&MT::Iri(iri.as_str().to_owned())).copied()
	}

	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<usize> {
		self.by_term.get(&lit_of_ref(literal.into())).copied()
	}
}

impl TraversableInterpretation for Table {
	type Resources<'a> = std::slice::Iter<'a, usize>;
	fn resources(&self) -> Self::Resources<'_> {
		self.resources.iter()
	}
}

impl LocalInterpretation for Table {
	fn blank_id(&self, b: &BlankId) -> Option<usize> {
		self.by_term.get(&MT::Blank(b.as_str().to_owned())).copied()
	}
}

impl InterpretationMut for Table {
	fn insert_iri<'a>(&mut self, iri: impl Into<Cow<'a, Iri>>) -> usize {
		let i = iri.into();
		self.add(MT::Iri(i.as_str().to_owned()))
	}

	fn insert_literal<'a>(&mut self, literal: impl Into<CowLiteral<'a>>) -> usize {
		let l = literal.into();
		self.add(lit_of_cow(&l))
	}
}

impl LocalInterpretationMut for Table {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> usize {
		let b = b.into();
		self.add(MT::Blank(b.as_str().to_owned()))
	}
}

impl ReverseInterpretation for Table {
	type Iris<'a> = std::vec::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::vec::IntoIter<CowLiteral<'a>>;

	fn iris_of<'a>(&'a self, r: &'a usize) -> Self::Iris<'a> {
		let v: Vec<_> = self
			.iris
			.get(r)
			.into_iter()
			.flatten()
			.map(|i| Cow::Borrowed(i.as_iri()))
			.collect();
		v.into_iter()
	}

	fn literals_of<'a>(&'a self, r: &'a usize) -> Self::Literals<'a> {
		let v: Vec<_> = self
			.literals
			.get(r)
			.into_iter()
			.flatten()
			.map(|l| l.as_cow())
			.collect();
		v.into_iter()
	}
}

impl ReverseLocalInterpretation for Table {
	type BlankIds<'a> = std::vec::IntoIter<Cow<'a, BlankId>>;

	fn blank_ids_of<'a>(&'a self, r: &'a usize) -> Self::BlankIds<'a> {
		let v: Vec<_> = self
			.blanks
			.get(r)
			.into_iter()
			.flatten()
			.map(|b| Cow::Borrowed(b.as_blank_id_ref()))
			.collect();
		v.into_iter()
	}
}

/// Interpretation that also creates resources without any term.
impl GenerativeInterpretation for Table2 {
	fn new_resource(&mut self) -> usize {
		self.0.fresh()
	}
}

#[derive(Default, Clone)]
pub struct Table2(Table);

impl Interpretation for Table2 {
	type Resource = usize;
	fn iri(&self, iri: &Iri) -> Option<usize> {
		self.0.iri(iri)
	}
	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<usize> {
		self.0.literal(literal)
	}
}

/// Generator of IRIs and literals.
#[derive(Clone)]
struct TermGen {
	n: usize,
	literals: bool,
	drawn: Vec<MT>,
}

impl Generator for TermGen {
	fn next_term(&mut self) -> Term {
		self.n += 1;
		let m = if self.literals && self.n % 2 == 0 {
			MT::Lit(format!("gen {}", self.n), MTy::Any("http://e.org/gen".to_owned()))
		} else {
			MT::Iri(format!("urn:gen:{}", self.n))
		};
		self.drawn.push(m.clone());
		m.term().unwrap()
	}
}

/// Generator of local terms of all kinds.
#[derive(Clone)]
struct LocalGen {
	n: usize,
	drawn: Vec<MT>,
}

impl LocalGenerator for LocalGen {
	fn next_local_term(&mut self) -> LocalTerm {
		self.n += 1;
		let m = match self.n % 3 {
			0 => MT::Blank(format!("_:gen{}", self.n)),
			1 => MT::Iri(format!("urn:gen:{}", self.n)),
			_ => MT::Lit(format!("gen {}", self.n), MTy::Lang("en".to_owned())),
		};
		self.drawn.push(m.clone());
		m.local()
	}
}

// ---------------------------------------------------------------- C18

const PREFIXES: &[&str] = &[
	"", "b", "B", "_", ":", "x.", "x.y", "a-", "é", "日本", "0", "00", "1", "a:b", "𐀀", "g_", "x..", "9.",
	"_:", "_:b", "_:_:", ":_:", "__", "::", "x_:",
];

/// Pieces of prefixes.
const PIECES: &[&str] = &["_", ":", "_:", "__", ".", "..", "-", "b", "B", "0", "9", "18446744073709551615", "é", "\u{b7}", "\u{203f}", "𐀀", "A"];

/// The identifier with a given number must have this text.
fn expected_id(prefix: &str, n: usize) -> String {
	let mut digits = Vec::new();
	let mut k = n;
	loop {
		digits.push((b'0' + (k % 10) as u8) as char);
		k /= 10;
		if k == 0 {
			break;
		}
	}
	let mut s = String::from("_:");
	s.push_str(prefix);
	s.extend(digits.iter().rev());
	s
}

fn take_blank(t: LocalTerm) -> Res<String> {
	match local_of(&t) {
		MT::Blank(b) => Ok(b),
		other => Err(format!("generated {other:?}, not a blank node")),
	}
}

fn check_id(cx: &mut Cx, how: &str, got: &str, prefix: &str, n: usize, seen: &mut BTreeSet<String>) -> Res {
	cx.evals(3);
	cx.count("identifiers drawn");
	let expected = expected_id(prefix, n);
	ensure!(
		got == expected,
		"{how}: draw number {n} with prefix {prefix:?} gives {got:?} instead of {expected:?}"
	);
	ensure!(
		grammar::blank_node_label(got),
		"{how}: {got:?} is not a blank node identifier"
	);
	ensure!(seen.insert(got.to_owned()), "{how}: {got:?} is given twice");
	Ok(())
}

fn check_state(cx: &mut Cx, g: &Blank, prefix: &str, n: usize) -> Res {
	cx.evals(2);
	ensure!(g.prefix() == prefix, "prefix is {:?} instead of {prefix:?}", g.prefix());
	ensure!(g.count() == n, "count is {} instead of {n}", g.count());
	Ok(())
}

/// Draws through every interface, in any order.
pub fn c18_draws(cx: &mut Cx) -> Res {
	let prefix = loop {
		let p = if cx.rng.chance(1, 4) {
			let mut s = String::new();
			for _ in 0..cx.rng.range(1, 4) {
				s.push(any_char(&mut cx.rng))
			}
			s
		} else if cx.rng.chance(1, 2) {
			(0..cx.rng.range(1, 6)).map(|_| *cx.rng.pick(PIECES)).collect()
		} else {
			cx.rng.pick(PREFIXES).to_string()
		};
		// A prefix that makes valid labels.
		if grammar::blank_node_label(&format!("_:{p}0")) {
			break p;
		}
	};
	let offset = match cx.rng.below(6) {
		0 => 0,
		1 => cx.rng.below(1000),
		2 => *cx.rng.pick(&[9, 10, 99, 100, 255, 256, 65535, 65536, 999_999, u32::MAX as usize - 3, i64::MAX as usize - 2]),
		3 => usize::MAX - 500 - cx.rng.below(1000),
		4 => 1usize << cx.rng.below(63),
		_ => (cx.rng.next() >> cx.rng.below(60).max(1)) as usize,
	};
	let (g, prefix, offset) = match cx.rng.below(5) {
		0 => (Blank::new(), String::new(), 0),
		1 => (Blank::new_with_offset(offset), String::new(), offset),
		2 => (Blank::new_with_prefix(prefix.clone()), prefix, 0),
		3 if cx.rng.chance(1, 4) => (Blank::default(), String::new(), 0),
		_ => (Blank::new_full(prefix.clone(), offset), prefix, offset),
	};
	cx.log(|| format!("generator with prefix {prefix:?} and offset {offset}"));
	cx.sample(|| format!("prefix {prefix:?}, offset {offset}"));
	cx.distinct(&(&prefix, offset));
	let mut seen = BTreeSet::new();
	let mut n = offset;
	check_state(cx, &g, &prefix, n)?;
	let mut g = g;
	for _ in 0..cx.rng.range(1, 12) {
		let k = cx.rng.range(0, 6);
		match cx.rng.below(8) {
			0 => {
				for _ in 0..k {
					let id = g.next_blank_id();
					check_id(cx, "next_blank_id", id.as_str(), &prefix, n, &mut seen)?;
					n += 1;
				}
			}
			1 => {
				for _ in 0..k {
					let id = take_blank(g.next_local_term())?;
					check_id(cx, "next_local_term", &id, &prefix, n, &mut seen)?;
					n += 1;
				}
			}
			2 => {
				fn draw<G: LocalGenerator>(mut g: G) -> LocalTerm {
					g.next_local_term()
				}
				for _ in 0..k {
					let id = take_blank(draw(&mut g))?;
					check_id(cx, "a mutable reference", &id, &prefix, n, &mut seen)?;
					n += 1;
					let id = take_blank(draw(&mut &mut g))?;
					check_id(cx, "a mutable reference", &id, &prefix, n, &mut seen)?;
					n += 1;
				}
			}
			3 => {
				let i = LocalGeneratorInterpretation::new(g);
				for _ in 0..k {
					let id = take_blank(ConstGenerativeInterpretation::new_resource(&i))?;
					check_id(cx, "LocalGeneratorInterpretation", &id, &prefix, n, &mut seen)?;
					n += 1;
				}
				g = i.into_generator();
			}
			4 => {
				let mut i = LocalGeneratorInterpretation::new(g);
				for _ in 0..k {
					let id = take_blank(GenerativeInterpretation::new_resource(&mut i))?;
					check_id(cx, "GenerativeInterpretation", &id, &prefix, n, &mut seen)?;
					n += 1;
					let id = take_blank(i.try_new_resource().unwrap_or_else(|e| match e {}))?;
					check_id(cx, "try_new_resource", &id, &prefix, n, &mut seen)?;
					n += 1;
				}
				g = i.into_generator();
			}
			5 => {
				// Through an interpretation wrapped with the generator.
				let mut i = WithLocalGenerator::new(Table::default(), g);
				for _ in 0..k {
					let r = i.new_resource();
					let terms: Vec<MT> = i.local_terms_of(&r).map(|t| local_of_cow(&t)).collect();
					cx.eval();
					ensure!(
						terms.len() == 1,
						"WithLocalGenerator: the terms of a new resource are {terms:?}"
					);
					let MT::Blank(id) = &terms[0] else {
						return Err(format!("WithLocalGenerator: new resource named {terms:?}"));
					};
					check_id(cx, "WithLocalGenerator", id, &prefix, n, &mut seen)?;
					n += 1;
					check_state(cx, i.generator(), &prefix, n)?;
				}
				if cx.rng.chance(1, 2) {
					let id = i.generator_mut().next_blank_id();
					check_id(cx, "generator_mut", id.as_str(), &prefix, n, &mut seen)?;
					n += 1;
				}
				g = if cx.rng.chance(1, 2) {
					i.into_generator()
				} else {
					i.into_parts().1
				};
			}
			6 => {
				let mut i = WithLocalGenerator::new(Table::default(), &mut g);
				for _ in 0..k {
					let r = i.try_new_resource().unwrap_or_else(|e| match e {});
					let terms: Vec<MT> = i.local_terms_of(&r).map(|t| local_of_cow(&t)).collect();
					let [MT::Blank(id)] = &terms[..] else {
						return Err(format!("WithLocalGenerator: new resource named {terms:?}"));
					};
					check_id(cx, "WithLocalGenerator", id, &prefix, n, &mut seen)?;
					n += 1;
				}
			}
			_ => {
				// The identifiers are usable as such.
				let id = g.next_blank_id();
				check_id(cx, "next_blank_id", id.as_str(), &prefix, n, &mut seen)?;
				n += 1;
				cx.eval();
				let again = BlankIdBuf::new(id.as_str().to_owned());
				ensure!(
					again.as_ref().is_ok_and(|b| *b == id),
					"{id:?} is refused as an identifier"
				);
			}
		}
		check_state(cx, &g, &prefix, n)?;
	}
	Ok(())
}

/// Near and at exhaustion: `usize::MAX - offset` draws, then panics.
pub fn c18_exhaustion(cx: &mut Cx) -> Res {
	let left = cx.rng.below(6);
	let prefix = cx.rng.pick(&["", "b", "_", "_:", "_:b", "9."]).to_string();
	let offset = usize::MAX - left;
	let mut seen = BTreeSet::new();
	let how = cx.rng.below(4);
	cx.log(|| format!("{left} identifiers left, interface {how}"));
	cx.distinct(&(left, &prefix, how));
	let mut g = Blank::new_full(prefix.clone(), offset);
	let total = left + cx.rng.range(1, 4);
	for k in 0..total {
		let drawn = match how {
			0 => no_panic("", || g.next_blank_id().as_str().to_owned()),
			1 => no_panic("", || g.next_local_term()).and_then(take_blank),
			2 => {
				let mut i = WithLocalGenerator::new(Table::default(), &mut g);
				no_panic("", || {
					i.new_resource();
					i.inner_interpretation().blanks.values().flatten().next().unwrap().as_str().to_owned()
				})
			}
			_ => {
				let i = LocalGeneratorInterpretation::new(&mut g);
				no_panic("", || ConstGenerativeInterpretation::new_resource(&i)).and_then(take_blank)
			}
		};
		cx.eval();
		match drawn {
			Ok(id) => {
				cx.count("draws before exhaustion");
				ensure!(
					seen.insert(id.clone()),
					"the exhausted generator gives {id:?} again"
				);
				ensure!(
					k < left,
					"draw {k} with {left} numbers left gives {id:?} instead of panicking"
				);
				let expected = expected_id(&prefix, offset + k);
				ensure!(id == expected, "{id:?} instead of {expected:?}");
			}
			Err(_) => {
				cx.count("panics on exhaustion");
				ensure!(
					k >= left,
					"draw {k} panics although {left} numbers are left"
				);
			}
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- C19

/// What the checked interpretation must answer: for each term, its resource.
struct Spec<R> {
	by_term: BTreeMap<MT, R>,
}

fn multiset(mut v: Vec<MT>) -> Vec<MT> {
	v.sort();
	v
}

fn terms_with<R: PartialEq>(spec: &Spec<R>, r: &R, f: impl Fn(&MT) -> bool) -> Vec<MT> {
	spec.by_term
		.iter()
		.filter(|(t, s)| *s == r && f(t))
		.map(|(t, _)| t.clone())
		.collect()
}

fn agree<T: PartialEq + Debug>(cx: &mut Cx, what: &dyn Fn() -> String, got: T, expected: T) -> Res {
	cx.eval();
	ensure!(got == expected, "{}: {got:?} instead of {expected:?}", what());
	Ok(())
}

/// Asks for a term through every entry point.
fn ask<I: Interpretation>(cx: &mut Cx, name: &str, i: &I, t: &MT, expected: Option<I::Resource>) -> Res
where
	I::Resource: PartialEq + Debug + Clone,
{
	let what = |how: &str| format!("{name}: {how} of {t:?}");
	match t {
		MT::Blank(_) => (),
		MT::Iri(s) => {
			let owned = iri(s);
			agree(cx, &|| what("iri"), i.iri(&owned), expected.clone())?;
			let term = t.term().unwrap();
			agree(cx, &|| what("term"), i.term(term.as_ref()), expected.clone())?;
			agree(cx, &|| what("term"), i.term(TermRef::Iri(&owned)), expected)?;
		}
		MT::Lit(..) => {
			let l = t.literal().unwrap();
			agree(cx, &|| what("literal"), i.literal(l.as_ref()), expected.clone())?;
			let term = t.term().unwrap();
			agree(cx, &|| what("term"), i.term(term.as_ref()), expected.clone())?;
			agree(cx, &|| what("term"), i.term(TermRef::Literal(l.as_ref())), expected)?;
		}
	}
	Ok(())
}

fn ask_local<I: LocalInterpretation>(cx: &mut Cx, name: &str, i: &I, t: &MT, expected: Option<I::Resource>) -> Res
where
	I::Resource: PartialEq + Debug + Clone,
{
	let what = |how: &str| format!("{name}: {how} of {t:?}");
	let l = t.local();
	agree(cx, &|| what("local_term"), i.local_term(l.as_ref()), expected.clone())?;
	if let MT::Blank(b) = t {
		agree(cx, &|| what("blank_id"), i.blank_id(&blank(b)), expected.clone())?;
	}
	if let Some(id) = t.id() {
		agree(cx, &|| what("id"), i.id(id.as_ref()), expected)?;
	}
	Ok(())
}

/// Asks for the terms of a resource.
fn reverse<I: ReverseInterpretation>(cx: &mut Cx, name: &str, i: &I, r: &I::Resource, spec: &Spec<I::Resource>) -> Res
where
	I::Resource: PartialEq + Debug,
{
	let cap = spec.by_term.len() + 2;
	let iris = terms_with(spec, r, |t| matches!(t, MT::Iri(_)));
	let literals = terms_with(spec, r, |t| matches!(t, MT::Lit(..)));
	let got: Vec<MT> = listing(|| i.iris_of(r), |i| MT::Iri(i.as_str().to_owned()), cap);
	agree(cx, &|| format!("{name}: iris_of {r:?}"), multiset(got), multiset(iris.clone()))?;
	let got: Vec<MT> = listing(|| i.literals_of(r), |t| lit_of_cow(&t), cap);
	agree(cx, &|| format!("{name}: literals_of {r:?}"), multiset(got), multiset(literals.clone()))?;
	let got: Vec<MT> = listing(|| i.terms_of(r), |t| term_of_cow(&t), cap);
	let mut all = iris;
	all.extend(literals);
	let anonymous = all.is_empty();
	cx.count(if anonymous { "anonymous resources" } else { "named resources" });
	if all.len() > 1 {
		cx.count("resources with several terms");
	}
	agree(cx, &|| format!("{name}: terms_of {r:?}"), multiset(got), multiset(all))?;
	agree(cx, &|| format!("{name}: is_anonymous {r:?}"), i.is_anonymous(r), anonymous)
}

fn reverse_local<I: ReverseLocalInterpretation>(cx: &mut Cx, name: &str, i: &I, r: &I::Resource, spec: &Spec<I::Resource>) -> Res
where
	I::Resource: PartialEq + Debug,
{
	let cap = spec.by_term.len() + 2;
	let blanks = terms_with(spec, r, |t| t.is_blank());
	let got: Vec<MT> = listing(|| i.blank_ids_of(r), |i| MT::Blank(i.as_str().to_owned()), cap);
	agree(cx, &|| format!("{name}: blank_ids_of {r:?}"), multiset(got), multiset(blanks))?;
	let got: Vec<MT> = listing(|| i.local_terms_of(r), |t| local_of_cow(&t), cap);
	agree(
		cx,
		&|| format!("{name}: local_terms_of {r:?}"),
		multiset(got),
		multiset(terms_with(spec, r, |_| true)),
	)
}

/// Inserts a named term through some entry point.
fn insert_named<I: InterpretationMut>(cx: &mut Cx, i: &mut I, t: &MT) -> I::Resource {
	let how = cx.rng.below(6);
	match t {
		MT::Iri(s) => {
			let owned = iri(s);
			match how {
				0 => i.insert_iri(Cow::Borrowed(owned.as_iri())),
				1 => i.insert_iri(Cow::Owned(owned)),
				2 => i.insert_term(CowTerm::Iri(Cow::Borrowed(&owned))),
				3 => i.insert_term(CowTerm::Iri(Cow::Owned(owned))),
				_ => i.insert_term(t.term().unwrap()),
			}
		}
		MT::Lit(..) => {
			let l = t.literal().unwrap();
			match how {
				0 => i.insert_literal(&l),
				1 => i.insert_literal(l.into_cow()),
				2 => i.insert_literal(l.as_cow()),
				3 => i.insert_term(CowTerm::Literal(l.as_cow())),
				_ => i.insert_term(t.term().unwrap()),
			}
		}
		MT::Blank(_) => unreachable!(),
	}
}

/// Inserts any term through the entry points for local terms.
fn insert_any<I: LocalInterpretationMut>(cx: &mut Cx, i: &mut I, t: &MT) -> I::Resource {
	let how = cx.rng.below(6);
	match t {
		MT::Blank(b) => {
			let b = blank(b);
			match how {
				0 => i.insert_blank_id(Cow::Borrowed(b.as_blank_id_ref())),
				1 => i.insert_blank_id(Cow::Owned(b)),
				2 => i.insert_local_term(CowLocalTerm::Anonymous(Cow::Borrowed(&b))),
				3 => i.insert_id(CowId::BlankId(Cow::Borrowed(&b))),
				4 => i.insert_id(CowId::BlankId(Cow::Owned(b))),
				_ => i.insert_local_term(t.local()),
			}
		}
		MT::Iri(s) if how < 3 => {
			let owned = iri(s);
			match how {
				0 => i.insert_id(CowId::Iri(Cow::Borrowed(&owned))),
				1 => i.insert_id(CowId::Iri(Cow::Owned(owned))),
				_ => i.insert_local_term(CowLocalTerm::Named(CowTerm::Iri(Cow::Borrowed(&owned)))),
			}
		}
		MT::Lit(..) if how == 0 => {
			let l = t.literal().unwrap();
			i.insert_local_term(CowLocalTerm::Named(CowTerm::Literal(l.as_cow())))
		}
		_ if how == 3 => i.insert_local_term(t.local()),
		_ => insert_named(cx, i, t),
	}
}

fn some_terms(cx: &mut Cx) -> Vec<MT> {
	// Few of them, with the same text in several kinds.
	let mut v: Vec<MT> = (0..cx.rng.range(2, 8)).map(|_| random_term(&mut cx.rng)).collect();
	for i in 0..v.len() {
		match v[i].clone() {
			MT::Blank(b) if cx.rng.chance(1, 2) => v.push(MT::Lit(b, random_type(&mut cx.rng))),
			MT::Iri(i) if cx.rng.chance(1, 2) => {
				v.push(MT::Lit(i.clone(), random_type(&mut cx.rng)));
				v.push(MT::Lit("x".to_owned(), MTy::Any(i)))
			}
			MT::Lit(s, _) if cx.rng.chance(1, 2) => v.push(MT::Lit(s, random_type(&mut cx.rng))),
			_ => (),
		}
	}
	v.sort();
	v.dedup();
	v
}

fn check_all_local<I>(cx: &mut Cx, name: &str, i: &I, spec: &Spec<usize>, terms: &[MT], resources: &[usize]) -> Res
where
	I: LocalInterpretation<Resource = usize> + ReverseLocalInterpretation,
{
	for t in terms.iter().chain(spec.by_term.keys()) {
		let e = spec.by_term.get(t).copied();
		cx.count(if e.is_some() { "known terms asked" } else { "unknown terms asked" });
		ask(cx, name, i, t, e)?;
		ask_local(cx, name, i, t, e)?;
	}
	for r in resources.iter().chain([&1_000_001]) {
		reverse(cx, name, i, r, spec)?;
		reverse_local(cx, name, i, r, spec)?;
	}
	Ok(())
}

/// User-defined interpretation, bare and wrapped with generators.
pub fn c19_table(cx: &mut Cx) -> Res {
	let terms = some_terms(cx);
	cx.sample(|| format!("{terms:?}"));
	cx.distinct(&terms);
	let mut table = Table::default();
	let mut spec: Spec<usize> = Spec { by_term: BTreeMap::new() };
	// Aliases and resources without any term.
	for _ in 0..cx.rng.below(3) {
		table.fresh();
	}
	let insert = |cx: &mut Cx, table: &mut Table, spec: &mut Spec<usize>| -> Res {
		let t = cx.rng.pick(&terms).clone();
		cx.log(|| format!("insert {t:?}"));
		if !table.resources.is_empty() && !spec.by_term.contains_key(&t) && cx.rng.chance(1, 3) {
			let r = *cx.rng.pick(&table.resources);
			table.assign(t.clone(), r);
			spec.by_term.insert(t, r);
			return Ok(());
		}
		table.calls.clear();
		let r = insert_any(cx, table, &t);
		expect_insert(cx, "user-defined interpretation", table, spec, &t, r)
	};
	for _ in 0..cx.rng.range(1, 10) {
		insert(cx, &mut table, &mut spec)?;
	}
	let resources = table.resources.clone();
	check_all_local(cx, "user-defined interpretation", &table, &spec, &terms, &resources)?;
	let listed: Vec<usize> = drain(table.try_resources(), resources.len() + 1)
		.into_iter()
		.map(|r| *r.unwrap_or_else(|e| match e {}))
		.collect();
	agree(cx, &|| "try_resources".to_owned(), listed, resources.clone())?;

	// With a generator of terms.
	{
		let mut i = WithGenerator::new(
			table.clone(),
			TermGen { n: 0, literals: cx.rng.chance(1, 2), drawn: Vec::new() },
		);
		let mut spec = Spec { by_term: spec.by_term.clone() };
		for _ in 0..cx.rng.range(1, 8) {
			if cx.rng.chance(1, 2) {
				let t = cx.rng.pick(&terms).clone();
				if t.is_blank() {
					continue;
				}
				cx.log(|| format!("with generator: insert {t:?}"));
				i.inner_interpretation_mut().calls.clear();
				let r = insert_named(cx, &mut i, &t);
				expect_insert(cx, "WithGenerator", i.inner_interpretation(), &mut spec, &t, r)?;
			} else {
				cx.log(|| "with generator: new resource".to_owned());
				let before = i.generator().drawn.len();
				let known: BTreeSet<usize> = i.inner_interpretation().resources.iter().copied().collect();
				let r = if cx.rng.chance(1, 3) {
					i.try_new_resource().unwrap_or_else(|e| match e {})
				} else {
					i.new_resource()
				};
				cx.count("resources generated");
				cx.evals(2);
				ensure!(
					i.generator().drawn.len() == before + 1,
					"WithGenerator: new_resource draws {} terms",
					i.generator().drawn.len() - before
				);
				ensure!(!known.contains(&r), "WithGenerator: the new resource {r} is not fresh");
				spec.by_term.insert(i.generator().drawn[before].clone(), r);
			}
		}
		let resources = i.inner_interpretation().resources.clone();
		for t in terms.iter().chain(spec.by_term.keys()) {
			let e = spec.by_term.get(t).copied();
			ask(cx, "WithGenerator", &i, t, e)?;
		}
		for r in &resources {
			reverse(cx, "WithGenerator", &i, r, &spec)?;
		}
		let drawn = i.generator().drawn.clone();
		agree(cx, &|| "generator_mut".to_owned(), i.generator_mut().drawn.clone(), drawn.clone())?;
		match cx.rng.below(3) {
			0 => {
				let (inner, generator) = i.into_parts();
				check_all_local(cx, "inner interpretation", &inner, &spec, &terms, &resources)?;
				agree(cx, &|| "into_parts".to_owned(), generator.drawn, drawn)?;
			}
			1 => {
				let inner = i.into_inner_interpretation();
				check_all_local(cx, "inner interpretation", &inner, &spec, &terms, &resources)?;
			}
			_ => agree(cx, &|| "into_generator".to_owned(), i.into_generator().drawn, drawn)?,
		}
		// A borrowed generator draws the same terms.
		let mut terms_of = TermGen { n: 0, literals: cx.rng.chance(1, 2), drawn: Vec::new() };
		let mut i = WithGenerator::new(table.clone(), &mut terms_of);
		let n = cx.rng.range(1, 4);
		let made: Vec<usize> = (0..n).map(|_| i.new_resource()).collect();
		let inner = i.into_inner_interpretation();
		let drawn = terms_of.drawn;
		agree(cx, &|| "terms drawn from a borrowed generator".to_owned(), drawn.len(), n)?;
		for (t, r) in drawn.iter().zip(made) {
			ask(cx, "WithGenerator<&mut _>", &inner, t, Some(r))?;
		}
	}

	// With a generator of local terms.
	{
		let mut i = WithLocalGenerator::new(table.clone(), LocalGen { n: 0, drawn: Vec::new() });
		let mut spec = Spec { by_term: spec.by_term.clone() };
		for _ in 0..cx.rng.range(1, 8) {
			if cx.rng.chance(1, 2) {
				let t = cx.rng.pick(&terms).clone();
				cx.log(|| format!("with local generator: insert {t:?}"));
				i.inner_interpretation_mut().calls.clear();
				let r = insert_any(cx, &mut i, &t);
				expect_insert(cx, "WithLocalGenerator", i.inner_interpretation(), &mut spec, &t, r)?;
			} else {
				cx.log(|| "with local generator: new resource".to_owned());
				let before = i.generator().drawn.len();
				let known: BTreeSet<usize> = i.inner_interpretation().resources.iter().copied().collect();
				let r = if cx.rng.chance(1, 3) {
					i.try_new_resource().unwrap_or_else(|e| match e {})
				} else {
					i.new_resource()
				};
				cx.count("resources generated");
				cx.evals(2);
				ensure!(
					i.generator().drawn.len() == before + 1,
					"WithLocalGenerator: new_resource draws {} terms",
					i.generator().drawn.len() - before
				);
				ensure!(!known.contains(&r), "WithLocalGenerator: the new resource {r} is not fresh");
				spec.by_term.insert(i.generator().drawn[before].clone(), r);
			}
		}
		let resources = i.inner_interpretation().resources.clone();
		check_all_local(cx, "WithLocalGenerator", &i, &spec, &terms, &resources)?;
		let n = i.generator().n;
		agree(cx, &|| "into_generator".to_owned(), i.generator_mut().n, n)?;
		if cx.rng.chance(1, 2) {
			agree(cx, &|| "into_generator".to_owned(), i.into_generator().n, n)?;
		} else {
			let inner = i.into_inner_interpretation();
			check_all_local(cx, "inner interpretation", &inner, &spec, &terms, &resources)?;
		}
	}

	// Fallible generation of a user-defined generative interpretation.
	let mut t2 = Table2(table);
	let a = t2.0.resources.len();
	let r = t2.try_new_resource().unwrap_or_else(|e| match e {});
	agree(
		cx,
		&|| "try_new_resource".to_owned(),
		(t2.0.resources.len(), t2.0.resources.last().copied()),
		(a + 1, Some(r)),
	)
}

fn expect_insert(cx: &mut Cx, name: &str, table: &Table, spec: &mut Spec<usize>, t: &MT, r: usize) -> Res {
	cx.evals(2);
	cx.count("insertions");
	ensure!(
		table.calls == [t.clone()],
		"{name}: inserting {t:?} inserts {:?} in the interpretation",
		table.calls
	);
	match spec.by_term.get(t) {
		Some(e) => ensure!(*e == r, "{name}: {t:?} inserted again is {r} instead of {e}"),
		None => {
			spec.by_term.insert(t.clone(), r);
		}
	}
	Ok(())
}

/// Lexical interpretations: a resource is its term.
pub fn c19_lexical(cx: &mut Cx) -> Res {
	for _ in 0..4 {
		let t = random_term(&mut cx.rng);
		cx.log(|| format!("term {t:?}"));
		cx.sample(|| format!("{t:?}"));
		cx.distinct(&t);
		let l = t.local();
		let spec = Spec { by_term: [(t.clone(), l.clone())].into_iter().collect() };
		let g = || Blank::new_with_prefix("gen".to_owned());

		// The unit interpretation, bare or wrapped.
		ask(cx, "()", &(), &t, Some(l.clone()))?;
		let wrapped = WithGenerator::new((), TermGen { n: 0, literals: false, drawn: Vec::new() });
		ask(cx, "WithGenerator<_, ()>", &wrapped, &t, Some(l.clone()))?;
		let local = WithLocalGenerator::new((), g());
		ask(cx, "WithLocalGenerator<_, ()>", &local, &t, Some(l.clone()))?;
		if !t.is_blank() {
			let mut unit = ();
			let r = insert_named(cx, &mut unit, &t);
			agree(cx, &|| format!("(): inserting {t:?}"), local_of(&r), t.clone())?;
			let mut wrapped = wrapped;
			let r = insert_named(cx, &mut wrapped, &t);
			agree(cx, &|| format!("WithGenerator<_, ()>: inserting {t:?}"), local_of(&r), t.clone())?;
			let n = wrapped.new_resource();
			let drawn = wrapped.generator().drawn.clone();
			agree(cx, &|| "WithGenerator<_, ()>: new_resource".to_owned(), vec![local_of(&n)], drawn)?;
			let mut local = local;
			let r = insert_named(cx, &mut local, &t);
			agree(cx, &|| format!("WithLocalGenerator<_, ()>: inserting {t:?}"), local_of(&r), t.clone())?;
			reverse(cx, "WithLocalGenerator<_, ()>", &local, &l, &spec)?;
		}
		let named = Spec {
			by_term: spec.by_term.iter().filter(|(t, _)| !t.is_blank()).map(|(t, l)| (t.clone(), l.clone())).collect(),
		};
		reverse(cx, "()", &(), &l, &named)?;
		agree(cx, &|| format!("(): is_anonymous {l:?}"), ().is_anonymous(&l), t.is_blank())?;
		let wrapped = WithGenerator::new((), TermGen { n: 0, literals: false, drawn: Vec::new() });
		reverse(cx, "WithGenerator<_, ()>", &wrapped, &l, &named)?;

		// Generator-backed lexical interpretation.
		let mut i = LocalGeneratorInterpretation::new(g());
		ask(cx, "LocalGeneratorInterpretation", &i, &t, Some(l.clone()))?;
		ask_local(cx, "LocalGeneratorInterpretation", &i, &t, Some(l.clone()))?;
		reverse(cx, "LocalGeneratorInterpretation", &i, &l, &named)?;
		reverse_local(cx, "LocalGeneratorInterpretation", &i, &l, &spec)?;
		agree(
			cx,
			&|| format!("LocalGeneratorInterpretation: is_anonymous {l:?}"),
			i.is_anonymous(&l),
			t.is_blank(),
		)?;
		if !t.is_blank() {
			let r = insert_named(cx, &mut i, &t);
			agree(cx, &|| format!("LocalGeneratorInterpretation: inserting {t:?}"), local_of(&r), t.clone())?;
		}
		let r = ConstGenerativeInterpretation::new_resource(&i);
		agree(cx, &|| "new_resource is anonymous".to_owned(), i.is_anonymous(&r), true)?;
		let known: Vec<MT> = drain(i.local_terms_of(&r), 3).iter().map(local_of_cow).collect();
		agree(cx, &|| "terms of a new resource".to_owned(), known, vec![local_of(&r)])?;
		let again = i.local_term(r.as_ref());
		agree(cx, &|| "a new resource asked again".to_owned(), again.as_ref().map(local_of), Some(local_of(&r)))?;

		// Wrapping a generator-backed interpretation.
		let w = WithLocalGenerator::new(LocalGeneratorInterpretation::new(g()), g());
		ask(cx, "nested wrappers", &w, &t, Some(l.clone()))?;
		ask_local(cx, "nested wrappers", &w, &t, Some(l.clone()))?;
		reverse(cx, "nested wrappers", &w, &l, &named)?;
		reverse_local(cx, "nested wrappers", &w, &l, &spec)?;
	}
	Ok(())
}
