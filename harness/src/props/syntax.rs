//! C14, C17: what is written out reads back as the same thing.
use std::collections::BTreeSet;
use std::fmt::Debug;

use contextual::Contextual;
use iref::{Iri, IriBuf, IriRef, IriRefBuf};
use rdf_types::dataset::{BTreeDataset, BTreeGraph, IndexedBTreeDataset, IndexedBTreeGraph};
use rdf_types::pattern::ResourceOrVar;
use rdf_types::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

use crate::common::*;
use crate::elem::{iri, lang, Elem, XSD_STRING};
use crate::ensure;
use crate::mterm::*;
use crate::props::terms::grammar;
use crate::tree::{self, Manner};

// ------------------------------------------------ parser of N-Triples/N-Quads

/// Parser of the terms and statements of N-Quads (any term in any position),
/// written from the grammar of the recommendation.
pub mod nq {
	use super::*;

	pub struct P<'a> {
		rest: &'a str,
	}

	impl<'a> P<'a> {
		pub fn new(s: &'a str) -> Self {
			Self { rest: s }
		}

		pub fn end(&self) -> Res {
			ensure!(self.rest.is_empty(), "unexpected text {:?}", self.rest);
			Ok(())
		}

		fn peek(&self) -> Option<char> {
			self.rest.chars().next()
		}

		fn bump(&mut self) -> Option<char> {
			let c = self.peek()?;
			self.rest = &self.rest[c.len_utf8()..];
			Some(c)
		}

		fn eat(&mut self, s: &str) -> bool {
			match self.rest.strip_prefix(s) {
				Some(r) => {
					self.rest = r;
					true
				}
				None => false,
			}
		}

		/// White space between terms: at least one space or tab.
		fn ws(&mut self) -> Res {
			ensure!(
				matches!(self.peek(), Some(' ' | '\t')),
				"white space expected before {:?}",
				self.rest
			);
			self.opt_ws();
			Ok(())
		}

		fn opt_ws(&mut self) {
			while matches!(self.peek(), Some(' ' | '\t')) {
				self.bump();
			}
		}

		fn uchar(&mut self) -> Res<char> {
			let n = match self.bump() {
				Some('u') => 4,
				Some('U') => 8,
				other => return Err(format!("escape sequence with {other:?}")),
			};
			let mut v: u32 = 0;
			for _ in 0..n {
				let d = self.bump().and_then(|c| c.to_digit(16));
				let Some(d) = d else {
					return Err("bad digit in a numeric escape sequence".to_owned());
				};
				v = v.wrapping_mul(16).wrapping_add(d);
			}
			char::from_u32(v).ok_or_else(|| format!("numeric escape {v:#x}"))
		}

		/// STRING_LITERAL_QUOTE
		pub fn string(&mut self) -> Res<String> {
			ensure!(self.eat("\""), "quote expected before {:?}", self.rest);
			let mut out = String::new();
			loop {
				match self.bump() {
					None => return Err("unterminated string".to_owned()),
					Some('"') => return Ok(out),
					Some('\n' | '\r') => return Err("line break inside a string".to_owned()),
					Some('\\') => {
						let c = match self.peek() {
							Some('t') => '\t',
							Some('b') => '\u{8}',
							Some('n') => '\n',
							Some('r') => '\r',
							Some('f') => '\u{c}',
							Some('"') => '"',
							Some('\'') => '\'',
							Some('\\') => '\\',
							_ => {
								out.push(self.uchar()?);
								continue;
							}
						};
						self.bump();
						out.push(c)
					}
					Some(c) => out.push(c),
				}
			}
		}

		/// IRIREF
		pub fn iri(&mut self) -> Res<String> {
			ensure!(self.eat("<"), "< expected before {:?}", self.rest);
			let mut out = String::new();
			loop {
				match self.bump() {
					None => return Err("unterminated IRI".to_owned()),
					Some('>') => return Ok(out),
					Some('\\') => out.push(self.uchar()?),
					Some(c @ ('\0'..='\x20' | '<' | '"' | '{' | '}' | '|' | '^' | '`')) => {
						return Err(format!("{c:?} inside an IRI"))
					}
					Some(c) => out.push(c),
				}
			}
		}

		/// BLANK_NODE_LABEL: as many characters as possible, not ending with a dot.
		pub fn blank(&mut self) -> Res<String> {
			let mut n = 2;
			let mut end = 0;
			if self.rest.starts_with("_:") {
				for c in self.rest[2..].chars() {
					if c != '.' && !grammar::pn_chars(c) {
						break;
					}
					n += c.len_utf8();
					if c != '.' {
						end = n
					}
				}
			}
			let (label, rest) = self.rest.split_at(end);
			ensure!(
				grammar::blank_node_label(label),
				"blank node expected before {:?}",
				self.rest
			);
			self.rest = rest;
			Ok(label.to_owned())
		}

		/// What follows the string of a literal.
		pub fn suffix(&mut self) -> Res<MTy> {
			if self.eat("^^") {
				Ok(MTy::Any(self.iri()?))
			} else if self.eat("@") {
				Ok(MTy::Lang(self.tag()?))
			} else {
				Ok(MTy::Any(XSD_STRING.to_owned()))
			}
		}

		/// `[a-zA-Z]+ ('-' [a-zA-Z0-9]+)*`
		pub fn tag(&mut self) -> Res<String> {
			let end = self
				.rest
				.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
				.unwrap_or(self.rest.len());
			let (t, rest) = self.rest.split_at(end);
			let mut parts = t.split('-');
			let first = parts.next().unwrap_or("");
			ensure!(
				!first.is_empty() && first.chars().all(|c| c.is_ascii_alphabetic()),
				"language tag {t:?}"
			);
			ensure!(parts.all(|p| !p.is_empty()), "language tag {t:?}");
			self.rest = rest;
			Ok(t.to_owned())
		}

		pub fn term(&mut self) -> Res<MT> {
			match self.peek() {
				Some('<') => Ok(MT::Iri(self.iri()?)),
				Some('"') => {
					let s = self.string()?;
					Ok(MT::Lit(s, self.suffix()?))
				}
				_ => Ok(MT::Blank(self.blank()?)),
			}
		}

		/// Statement without its final dot.
		pub fn statement(&mut self, graph: bool) -> Res<MSt> {
			let s = self.term()?;
			self.ws()?;
			let p = self.term()?;
			self.ws()?;
			let o = self.term()?;
			let mut g = None;
			if graph {
				let saved = self.rest;
				self.opt_ws();
				match self.peek() {
					None | Some('.') => self.rest = saved,
					_ => {
						self.rest = saved;
						self.ws()?;
						g = Some(self.term()?)
					}
				}
			}
			Ok((s, p, o, g))
		}

		pub fn document(&mut self, graph: bool) -> Res<Vec<MSt>> {
			let mut out = Vec::new();
			loop {
				self.opt_ws();
				match self.peek() {
					None => return Ok(out),
					Some('\n' | '\r') => {
						self.bump();
						continue;
					}
					_ => (),
				}
				out.push(self.statement(graph)?);
				self.opt_ws();
				ensure!(self.eat("."), "dot expected before {:?}", self.rest);
				self.opt_ws();
				ensure!(
					matches!(self.peek(), None | Some('\n' | '\r')),
					"end of line expected before {:?}",
					self.rest
				);
			}
		}
	}

	pub fn all<T>(s: &str, f: impl FnOnce(&mut P) -> Res<T>) -> Res<T> {
		let mut p = P::new(s);
		let t = f(&mut p)?;
		p.end()?;
		Ok(t)
	}
}

/// `text` must read as `expected`.
fn reads<T: PartialEq + Debug>(
	cx: &mut Cx,
	what: &str,
	text: &str,
	f: impl FnOnce(&mut nq::P) -> Res<T>,
	expected: &T,
) -> Res {
	cx.eval();
	match nq::all(text, f) {
		Ok(t) => {
			ensure!(
				t == *expected,
				"{what} of {expected:?} prints {text:?}, which reads as {t:?}"
			);
			Ok(())
		}
		Err(e) => Err(format!(
			"{what} of {expected:?} prints {text:?}, which does not read back: {e}"
		)),
	}
}

/// Forms that must print the same text.
fn prints_same(cx: &mut Cx, what: &str, expected: &str, forms: &[(&str, String)]) -> Res {
	for (name, got) in forms {
		cx.eval();
		ensure!(
			got == expected,
			"{what}: {name} prints {got:?} where rdf_display prints {expected:?}"
		);
	}
	Ok(())
}

fn rd<T: RdfDisplay + ?Sized>(t: &T) -> String {
	t.rdf_display().to_string()
}

/// RDF display of a value whose type should have one: a type without it shows as
/// such here, where it can be judged, instead of stopping the build.
struct Shown<'a, T: ?Sized>(&'a T);

trait HasRdfDisplay {
	fn shown(&self) -> String;
}

impl<T: RdfDisplay + ?Sized> HasRdfDisplay for Shown<'_, T> {
	fn shown(&self) -> String {
		rd(self.0)
	}
}

trait NoRdfDisplay {
	fn shown(&self) -> String;
}

impl<T: ?Sized> NoRdfDisplay for &Shown<'_, T> {
	fn shown(&self) -> String {
		format!("(no RDF display for {})", std::any::type_name::<T>())
	}
}

macro_rules! shown {
	($e:expr) => {
		(&Shown($e)).shown()
	};
}

fn c14_string(cx: &mut Cx, s: &str) -> Res {
	let text = rd(s);
	reads(cx, "rdf_display", &text, |p| p.string(), &s.to_owned())?;
	prints_same(
		cx,
		"string",
		&text,
		&[
			("String", rd(&s.to_owned())),
			("&str", rd(&s)),
			("&&str", rd(&&s)),
			("a reused formatter", format!("{}", (&s).rdf_display())),
		],
	)
}

fn c14_iri(cx: &mut Cx, s: &str) -> Res {
	if let Ok(i) = Iri::new(s) {
		let text = rd(i);
		reads(cx, "rdf_display", &text, |p| p.iri(), &s.to_owned())?;
		let owned = i.to_owned();
		let reference = IriRefBuf::new(s.to_owned()).map_err(|_| "harness: IRI is not a reference")?;
		let mut unit = ();
		prints_same(
			cx,
			"IRI",
			&text,
			&[
				("IriBuf", rd(&owned)),
				("&Iri", rd(&i)),
				("IriRefBuf", rd(&reference)),
				("IriRef", rd(reference.as_iri_ref())),
				("contextual Iri", rd(&Contextual(i, &()))),
				("contextual Iri (mut)", rd(&Contextual(i, &mut unit))),
				("contextual IriBuf", rd(&Contextual(owned.clone(), &()))),
				("contextual &IriBuf", rd(&Contextual(&owned, "context"))),
				("contextual IriRefBuf", rd(&Contextual(&reference, &1u8))),
				("Term", rd(&Term::Iri(owned.clone()))),
				("LocalTerm", rd(&LocalTerm::iri(owned.clone()))),
			],
		)?;
		cx.evals(2);
		for (n, d) in [
			("Term", Term::Iri(owned.clone()).to_string()),
			("LocalTerm", LocalTerm::iri(owned.clone()).to_string()),
		] {
			ensure!(d == s, "the plain display of {n} <{s}> is {d:?}");
		}
	}
	Ok(())
}

fn c14_iri_ref(cx: &mut Cx, s: &str) -> Res {
	if let Ok(i) = IriRef::new(s) {
		let text = rd(i);
		reads(cx, "rdf_display", &text, |p| p.iri(), &s.to_owned())?;
		let owned = i.to_owned();
		prints_same(
			cx,
			"IRI reference",
			&text,
			&[
				("IriRefBuf", rd(&owned)),
				("&IriRef", rd(&i)),
				("contextual", rd(&Contextual(&owned, &()))),
			],
		)?;
	}
	Ok(())
}

fn c14_tag(cx: &mut Cx, s: &str) -> Res {
	let Ok(t) = langtag::LangTagBuf::new(s.to_owned()) else {
		return Ok(());
	};
	let text = rd(&t);
	reads(cx, "rdf_display", &text, |p| p.tag(), &s.to_owned())?;
	prints_same(
		cx,
		"language tag",
		&text,
		&[
			("LangTag", rd(t.as_lang_tag())),
			("&LangTag", rd(&t.as_lang_tag())),
			("contextual", rd(&Contextual(&t, &()))),
			("contextual LangTag", rd(&Contextual(t.as_lang_tag(), &()))),
		],
	)
}

fn c14_literal_type(cx: &mut Cx, t: &MTy) -> Res {
	let ty = t.build();
	let text = rd(&ty);
	reads(cx, "rdf_display", &text, |p| p.suffix(), t)?;
	prints_same(
		cx,
		"literal type",
		&text,
		&[
			("LiteralTypeRef", rd(&ty.as_ref())),
			("CowLiteralType", rd(&ty.as_cow().as_ref())),
			("&LiteralType", rd(&&ty)),
		],
	)
}

fn c14_one_term(cx: &mut Cx, m: &MT) -> Res {
	let local = m.local();
	let text = rd(&local);
	reads(cx, "rdf_display", &text, |p| p.term(), m)?;
	prints_same(
		cx,
		"term",
		&text,
		&[("&LocalTerm", rd(&&local)), ("&&LocalTerm", rd(&&&local))],
	)?;
	match m {
		MT::Blank(b) => {
			let id = blank(b);
			prints_same(
				cx,
				"blank node",
				&text,
				&[
					("BlankIdBuf", shown!(&id)),
					("BlankId", shown!(id.as_blank_id_ref())),
					("&BlankId", shown!(&id.as_blank_id_ref())),
					("Display of BlankIdBuf", id.to_string()),
					("Display of BlankId", id.as_blank_id_ref().to_string()),
					("Display of LocalTerm", local.to_string()),
				],
			)?;
			cx.eval();
			ensure!(text == *b, "blank node {b} prints {text:?}");
		}
		MT::Iri(i) => c14_iri(cx, i)?,
		MT::Lit(v, t) => {
			let l = m.literal().unwrap();
			let term = m.term().unwrap();
			c14_string(cx, v)?;
			c14_literal_type(cx, t)?;
			prints_same(
				cx,
				"literal",
				&text,
				&[
					("Literal", rd(&l)),
					("&Literal", rd(&&l)),
					("LiteralRef", rd(&l.as_ref())),
					("CowLiteral", rd(&l.as_cow().as_ref())),
					("Term", rd(&term)),
					("Display of Literal", l.to_string()),
					("Display of LiteralRef", l.as_ref().to_string()),
					("Display of Term", term.to_string()),
					("Display of LocalTerm", local.to_string()),
				],
			)?;
			// A plain string is written without its datatype.
			if *t == MTy::Any(XSD_STRING.to_owned()) {
				cx.count("plain strings");
				cx.eval();
				ensure!(
					text == rd(v.as_str()),
					"the xsd:string literal {v:?} prints {text:?}"
				);
			}
		}
	}
	Ok(())
}

/// Every code point, in a string, a literal and (when allowed) an IRI and a label.
pub fn c14_code_points(cx: &mut Cx) -> Res {
	let chunk = cx.index as u32;
	for c in (chunk * 1024..(chunk + 1) * 1024).filter_map(char::from_u32) {
		let s = format!("a{c}b{c}");
		cx.count("code points");
		cx.distinct(&c);
		let text = rd(s.as_str());
		reads(cx, "rdf_display", &text, |p| p.string(), &s)?;
		let l = Literal::new(s.clone(), LiteralType::Any(iri(XSD_STRING)));
		prints_same(
			cx,
			"literal",
			&text,
			&[("Literal", rd(&l)), ("LiteralRef", rd(&l.as_ref()))],
		)?;
		let i = format!("http://e.org/{c}");
		if let Ok(i) = Iri::new(i.as_str()) {
			cx.count("code points in an IRI");
			reads(cx, "rdf_display", &rd(i), |p| p.iri(), &i.as_str().to_owned())?;
		}
		let b = format!("_:{c}x{c}{c}");
		if let Ok(b) = BlankId::new(b.as_str()) {
			cx.count("code points in a label");
			reads(cx, "rdf_display", &shown!(b), |p| p.blank(), &b.as_str().to_owned())?;
		}
		// Between two quotes, and at both ends.
		let s = format!("{c}\"{c}\\{c}");
		reads(cx, "rdf_display", &rd(s.as_str()), |p| p.string(), &s)?;
	}
	Ok(())
}

pub fn c14_terms(cx: &mut Cx) -> Res {
	for _ in 0..8 {
		let mut m = random_term(&mut cx.rng);
		if cx.rng.chance(1, 4) {
			// Longer text.
			let mut s = String::new();
			for _ in 0..cx.rng.range(1, 40) {
				s.push_str(&text(&mut cx.rng))
			}
			m = MT::Lit(s, random_type(&mut cx.rng))
		} else if cx.rng.chance(1, 6) {
			m = MT::Iri(cx.rng.pick(ODD_IRIS).to_string())
		} else if cx.rng.chance(1, 6) {
			m = MT::Lit(text(&mut cx.rng), MTy::Any(cx.rng.pick(ODD_IRIS).to_string()))
		}
		cx.log(|| format!("display {m:?}"));
		cx.sample(|| format!("{m:?}"));
		cx.distinct(&m);
		c14_one_term(cx, &m)?;
	}
	let r = *cx.rng.pick(&["", "a", "../b?c#d", "//e.org/x", "#f", "?q=1", "a/b;c", "é", "./x:y"]);
	c14_iri_ref(cx, r)?;
	let t = cx.rng.pick(TAGS).to_string();
	c14_tag(cx, &t)?;
	c14_string(cx, &text(&mut cx.rng.clone()))
}

pub fn c14_statements(cx: &mut Cx) -> Res {
	for _ in 0..4 {
		let st = random_statement(&mut cx.rng);
		cx.log(|| format!("display {st:?}"));
		cx.sample(|| format!("{st:?}"));
		cx.distinct(&st);
		let q = st_local(&st);
		let text = rd(&q);
		reads(cx, "rdf_display of a quad", &text, |p| p.statement(true), &st)?;
		prints_same(
			cx,
			"quad",
			&text,
			&[
				("Display", q.to_string()),
				("Quad of references", rd(&q.as_ref())),
				("Display of a quad of references", q.as_ref().to_string()),
				("&Quad", rd(&&q)),
			],
		)?;
		let t = Triple(st.0.local(), st.1.local(), st.2.local());
		let text = rd(&t);
		let expected = (st.0.clone(), st.1.clone(), st.2.clone(), None);
		reads(cx, "rdf_display of a triple", &text, |p| p.statement(false), &expected)?;
		prints_same(
			cx,
			"triple",
			&text,
			&[
				("Display", t.to_string()),
				("Triple of references", rd(&t.as_ref())),
				("Display of a triple of references", t.as_ref().to_string()),
				("&Triple", rd(&&t)),
				("the same in the default graph", rd(&t.clone().into_quad(None::<LocalTerm>))),
			],
		)?;
		// Components of different types.
		if let (MT::Blank(_), Some(p), MT::Lit(..)) =
			(&st.0, st.1.term().filter(Term::is_iri), &st.2)
		{
			cx.count("mixed component types");
			let mixed: Quad<BlankIdBuf, IriBuf, Literal, LocalTerm> = Quad(
				match st.0.local() {
					LocalTerm::Anonymous(b) => b,
					_ => unreachable!(),
				},
				p.into_iri().unwrap(),
				st.2.literal().unwrap(),
				st.3.as_ref().map(MT::local),
			);
			reads(cx, "rdf_display of a quad", &shown!(&mixed), |p| p.statement(true), &st)?;
		}
	}
	Ok(())
}

pub fn c14_containers(cx: &mut Cx) -> Res {
	let n = match cx.rng.below(300) {
		0 => cx.rng.range(200, 1200),
		_ => *cx.rng.pick(&[0usize, 1, 2, 3, 5, 9, 30]),
	};
	let mut set: BTreeSet<MSt> = BTreeSet::new();
	for _ in 0..n {
		set.insert(random_statement(&mut cx.rng));
	}
	if !set.is_empty() {
		cx.distinct(&set);
	}
	cx.sample(|| format!("{set:?}"));
	let quads: Vec<Quad> = set.iter().map(st_local).collect();
	let ds: BTreeDataset = quads.iter().cloned().collect();
	let ids: IndexedBTreeDataset = quads.iter().cloned().collect();
	for (name, text) in [("BTreeDataset", rd(&ds)), ("IndexedBTreeDataset", rd(&ids))] {
		cx.eval();
		cx.count("documents");
		let got = nq::all(&text, |p| p.document(true)).map_err(|e| format!("{name} prints {text:?}: {e}"))?;
		let got_set: BTreeSet<MSt> = got.iter().cloned().collect();
		ensure!(
			got_set == set && got.len() == set.len(),
			"{name} of {set:?} prints {text:?}, which reads as {got:?}"
		);
	}
	let triples: BTreeSet<MSt> = set
		.iter()
		.map(|s| (s.0.clone(), s.1.clone(), s.2.clone(), None))
		.collect();
	let list: Vec<Triple> = triples
		.iter()
		.map(|s| Triple(s.0.local(), s.1.local(), s.2.local()))
		.collect();
	let g: BTreeGraph = list.iter().cloned().collect();
	let ig: IndexedBTreeGraph = list.iter().cloned().collect();
	for (name, text) in [("BTreeGraph", rd(&g)), ("IndexedBTreeGraph", rd(&ig))] {
		cx.eval();
		cx.count("documents");
		let got = nq::all(&text, |p| p.document(false)).map_err(|e| format!("{name} prints {text:?}: {e}"))?;
		let got_set: BTreeSet<MSt> = got.iter().cloned().collect();
		ensure!(
			got_set == triples && got.len() == triples.len(),
			"{name} of {triples:?} prints {text:?}, which reads as {got:?}"
		);
	}
	Ok(())
}

// ---------------------------------------------------------------- C17

/// All the ways through which a value is written and read back.
fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(cx: &mut Cx, what: &str, v: &T) -> Res {
	trip_as::<T, T>(cx, what, v, v)
}

/// What is written for `v` must read as `expected`, of another type.
fn trip_as<S: Serialize + Debug, T: DeserializeOwned + PartialEq + Debug>(
	cx: &mut Cx,
	what: &str,
	v: &S,
	expected: &T,
) -> Res {
	let text = serde_json::to_string(v).map_err(|e| format!("{what} {v:?} is not serialized: {e}"))?;
	let value = serde_json::to_value(v).map_err(|e| format!("{what} {v:?} is not serialized: {e}"))?;
	let pretty = serde_json::to_vec_pretty(v).map_err(|e| format!("{what} {v:?} is not serialized: {e}"))?;
	let ways: [(&str, Result<T, serde_json::Error>); 5] = [
		("from_str", serde_json::from_str(&text)),
		("from_slice", serde_json::from_slice(text.as_bytes())),
		("from_reader", serde_json::from_reader(&pretty[..])),
		("from_value", serde_json::from_value(value.clone())),
		("from_value (borrowed)", T::deserialize(&value)),
	];
	for (way, got) in ways {
		cx.eval();
		match got {
			Ok(got) => ensure!(
				got == *expected,
				"{what} {v:?} is written {text}, which {way} reads as {got:?}"
			),
			Err(e) => {
				return Err(format!(
					"{what} {v:?} is written {text}, which {way} does not read: {e}"
				))
			}
		}
	}
	// A format that checks what is announced to it, read in several manners.
	for _ in 0..3 {
		let manner = Manner::nth(choice(Manner::COUNT));
		let written = tree::write(v, manner.human_readable)
			.map_err(|e| format!("{what} {v:?} is not serialized: {e}"))?;
		cx.eval();
		match tree::read::<T>(&written, manner) {
			Ok(got) => ensure!(
				got == *expected,
				"{what} {v:?} is written {written:?}, read as {got:?} ({manner:?})"
			),
			Err(e) => {
				return Err(format!(
					"{what} {v:?} is written {written:?}, which is not read back: {e} ({manner:?})"
				))
			}
		}
	}
	Ok(())
}

fn model_check(cx: &mut Cx, what: &str, got: MT, expected: &MT) -> Res {
	// The comparison of the library must not be what decides.
	cx.eval();
	ensure!(got == *expected, "{what}: {got:?} instead of {expected:?}");
	Ok(())
}

fn again<S: Serialize, T: DeserializeOwned>(v: &S) -> Res<T> {
	let text = serde_json::to_string(v).map_err(|e| e.to_string())?;
	serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))
}

pub fn c17_terms(cx: &mut Cx) -> Res {
	for _ in 0..6 {
		let mut m = random_term(&mut cx.rng);
		if cx.rng.chance(1, 8) {
			m = MT::Iri(cx.rng.pick(ODD_IRIS).to_string())
		}
		cx.log(|| format!("round trip of {m:?}"));
		cx.sample(|| format!("{m:?}"));
		cx.distinct(&m);
		let l = m.local();
		trip(cx, "LocalTerm", &l)?;
		model_check(cx, "LocalTerm", local_of(&again(&l)?), &m)?;
		trip(cx, "Option<LocalTerm>", &Some(l.clone()))?;
		trip(cx, "Vec<LocalTerm>", &vec![l.clone(), l.clone()])?;
		match &m {
			MT::Blank(b) => {
				let id = blank(b);
				trip(cx, "BlankIdBuf", &id)?;
				let back: BlankIdBuf = again(&id)?;
				model_check(cx, "BlankIdBuf", MT::Blank(back.as_str().to_owned()), &m)?;
				trip_as::<_, LocalTerm>(cx, "BlankIdBuf", &id, &l)?;
			}
			_ => {
				let t = m.term().unwrap();
				trip(cx, "Term", &t)?;
				model_check(cx, "Term", term_of(&again(&t)?), &m)?;
				trip_as::<_, LocalTerm>(cx, "Term", &t, &l)?;
				trip_as::<_, Term>(cx, "LocalTerm", &l, &t)?;
			}
		}
		if let Some(lit) = m.literal() {
			trip(cx, "Literal", &lit)?;
			trip(cx, "LiteralType", &lit.type_)?;
			model_check(cx, "Literal", lit_of(&again(&lit)?), &m)?;
			trip_as(cx, "LiteralRef", &lit.as_ref(), &lit)?;
			trip_as(cx, "CowLiteral", &lit.as_cow(), &lit)?;
			trip_as(cx, "CowLiteral", &lit.clone().into_cow(), &lit)?;
			trip_as(cx, "LiteralTypeRef", &lit.type_.as_ref(), &lit.type_)?;
			trip_as(cx, "CowLiteralType", &lit.type_.as_cow(), &lit.type_)?;
		}
		// Pattern components.
		let x = cx.rng.below(5);
		let name = text(&mut cx.rng);
		trip::<ResourceOrVar<LocalTerm, usize>>(cx, "ResourceOrVar", &ResourceOrVar::Resource(l.clone()))?;
		trip::<ResourceOrVar<LocalTerm, usize>>(cx, "ResourceOrVar", &ResourceOrVar::Var(x))?;
		trip::<ResourceOrVar<LocalTerm, String>>(cx, "ResourceOrVar", &ResourceOrVar::Var(name.clone()))?;
		trip::<ResourceOrVar<String, String>>(cx, "ResourceOrVar", &ResourceOrVar::Resource(name.clone()))?;
		trip::<ResourceOrVar<String, String>>(cx, "ResourceOrVar", &ResourceOrVar::Var(name))?;
	}
	Ok(())
}

pub fn c17_statements(cx: &mut Cx) -> Res {
	for _ in 0..4 {
		let st = random_statement(&mut cx.rng);
		cx.log(|| format!("round trip of {st:?}"));
		cx.sample(|| format!("{st:?}"));
		cx.distinct(&st);
		let q = st_local(&st);
		trip(cx, "Quad", &q)?;
		trip_as(cx, "Quad of references", &q.as_ref(), &q)?;
		let back: Quad = again(&q)?;
		cx.eval();
		let b = st_of_local(back.as_ref());
		ensure!(b == st, "Quad {st:?} reads as {b:?}");
		let t = Triple(st.0.local(), st.1.local(), st.2.local());
		trip(cx, "Triple", &t)?;
		trip_as(cx, "Triple of references", &t.as_ref(), &t)?;
		let back: Triple = again(&t)?;
		cx.eval();
		let b = (local_of(&back.0), local_of(&back.1), local_of(&back.2), None::<MT>);
		ensure!(
			b == (st.0.clone(), st.1.clone(), st.2.clone(), None),
			"Triple {t:?} reads as {b:?}"
		);
		let n: [u32; 4] = std::array::from_fn(|_| cx.rng.next() as u32);
		trip(cx, "Quad<u32>", &Quad(n[0], n[1], n[2], (n[3] % 2 == 0).then_some(n[3])))?;
		trip(cx, "Triple<u32>", &Triple(n[0], n[1], n[2]))?;
		let x = |i: usize, m: &MT| -> ResourceOrVar<LocalTerm, usize> {
			if n[i] % 3 == 0 {
				ResourceOrVar::Var(n[i] as usize % 4)
			} else {
				ResourceOrVar::Resource(m.local())
			}
		};
		trip(
			cx,
			"quad pattern",
			&Quad(x(0, &st.0), x(1, &st.1), x(2, &st.2), st.3.as_ref().map(|g| x(3, g))),
		)?;
		trip(cx, "triple pattern", &Triple(x(0, &st.0), x(1, &st.1), x(2, &st.2)))?;
	}
	Ok(())
}

/// Any sequence of statements, read as a container.
fn containers_of<E: Elem + Serialize + DeserializeOwned>(
	cx: &mut Cx,
	list: &[Quad<E>],
) -> Res {
	let set: BTreeSet<(E, E, E, Option<E>)> = list
		.iter()
		.map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), q.3.clone()))
		.collect();
	let tset: BTreeSet<(E, E, E)> = set
		.iter()
		.map(|q| (q.0.clone(), q.1.clone(), q.2.clone()))
		.collect();
	let seq = serde_json::to_string(list).map_err(|e| e.to_string())?;
	let tlist: Vec<Triple<E>> = list
		.iter()
		.map(|q| Triple(q.0.clone(), q.1.clone(), q.2.clone()))
		.collect();
	let tseq = serde_json::to_string(&tlist).map_err(|e| e.to_string())?;

	macro_rules! dataset {
		($ty:ty, $name:literal) => {
			let d: $ty = serde_json::from_str(&seq)
				.map_err(|e| format!("{} does not read {seq}: {e}", $name))?;
			let got: Vec<_> = d
				.iter()
				.map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), q.3.cloned()))
				.collect();
			cx.eval();
			ensure!(
				got.len() == set.len() && got.iter().cloned().collect::<BTreeSet<_>>() == set,
				"{} reads {seq} as {got:?}",
				$name
			);
			for q in list {
				cx.eval();
				ensure!(
					d.contains(q.as_ref()),
					"{} read from {seq} does not contain {q:?}",
					$name
				);
			}
			trip(cx, $name, &d)?;
			trip_as(cx, "sequence of quads", &list, &d)?;
			// Written as the sequence of its statements.
			let v = serde_json::to_value(&d).map_err(|e| e.to_string())?;
			cx.eval();
			let Value::Array(items) = v else {
				return Err(format!("{} is written {v}, not a sequence", $name));
			};
			ensure!(
				items.len() == set.len(),
				"{} of {} statements is written with {} elements",
				$name,
				set.len(),
				items.len()
			);
			let mut seen = BTreeSet::new();
			for i in items {
				cx.eval();
				let q: Quad<E> = serde_json::from_value(i.clone())
					.map_err(|e| format!("{}: element {i} is not a statement: {e}", $name))?;
				ensure!(
					seen.insert((q.0, q.1, q.2, q.3)),
					"{}: element {i} is repeated",
					$name
				);
			}
			ensure!(seen == set, "{} is written with other statements", $name);
		};
	}
	dataset!(BTreeDataset<E>, "BTreeDataset");
	dataset!(IndexedBTreeDataset<E>, "IndexedBTreeDataset");

	macro_rules! graph {
		($ty:ty, $name:literal) => {
			let d: $ty = serde_json::from_str(&tseq)
				.map_err(|e| format!("{} does not read {tseq}: {e}", $name))?;
			let got: Vec<_> = d
				.iter()
				.map(|q| (q.0.clone(), q.1.clone(), q.2.clone()))
				.collect();
			cx.eval();
			ensure!(
				got.len() == tset.len() && got.iter().cloned().collect::<BTreeSet<_>>() == tset,
				"{} reads {tseq} as {got:?}",
				$name
			);
			for q in &tlist {
				cx.eval();
				ensure!(
					d.contains(q.as_ref()),
					"{} read from {tseq} does not contain {q:?}",
					$name
				);
			}
			trip(cx, $name, &d)?;
			trip_as(cx, "sequence of triples", &tlist, &d)?;
			let v = serde_json::to_value(&d).map_err(|e| e.to_string())?;
			cx.eval();
			let Value::Array(items) = v else {
				return Err(format!("{} is written {v}, not a sequence", $name));
			};
			ensure!(
				items.len() == tset.len(),
				"{} of {} statements is written with {} elements",
				$name,
				tset.len(),
				items.len()
			);
			let mut seen = BTreeSet::new();
			for i in items {
				cx.eval();
				let q: Triple<E> = serde_json::from_value(i.clone())
					.map_err(|e| format!("{}: element {i} is not a statement: {e}", $name))?;
				ensure!(
					seen.insert((q.0, q.1, q.2)),
					"{}: element {i} is repeated",
					$name
				);
			}
			ensure!(seen == tset, "{} is written with other statements", $name);
		};
	}
	graph!(BTreeGraph<E>, "BTreeGraph");
	graph!(IndexedBTreeGraph<E>, "IndexedBTreeGraph");
	Ok(())
}

pub fn c17_containers(cx: &mut Cx) -> Res {
	let n = *cx.rng.pick(&[0usize, 1, 2, 4, 9, 25, 60]);
	sequences(cx, n)
}

/// Sequences of thousands of statements.
pub fn c17_large(cx: &mut Cx) -> Res {
	let n = *cx.rng.pick(&[300usize, 1100, 4500]);
	cx.count("large sequences");
	sequences(cx, n)
}

fn sequences(cx: &mut Cx, n: usize) -> Res {
	fn list<E: Elem>(cx: &mut Cx, n: usize) -> Vec<Quad<E>> {
		let k = cx.rng.range(1, 12).max(n / 12);
		let u: Vec<E> = crate::elem::universe(&mut cx.rng, k);
		let mut l: Vec<Quad<E>> = Vec::new();
		for _ in 0..n {
			let s = crate::elem::statement(&mut cx.rng, &u, true);
			l.push(Quad(s.0, s.1, s.2, s.3));
			if cx.rng.chance(1, 4) {
				let q = cx.rng.pick(&l).clone();
				l.push(q)
			}
		}
		cx.rng.shuffle(&mut l);
		l
	}
	match cx.index % 4 {
		0 => {
			let l = list::<u32>(cx, n);
			cx.distinct(&l);
			cx.log(|| format!("sequence {l:?}"));
			containers_of(cx, &l)
		}
		1 => {
			let l = list::<String>(cx, n);
			cx.distinct(&l);
			cx.log(|| format!("sequence {l:?}"));
			containers_of(cx, &l)
		}
		2 => {
			let l = list::<LocalTerm>(cx, n);
			cx.distinct(&l);
			cx.log(|| format!("sequence {l:?}"));
			containers_of(cx, &l)
		}
		_ => {
			let mut l: Vec<Quad> = (0..n)
				.map(|_| st_local(&random_statement(&mut cx.rng)))
				.collect();
			if let Some(q) = l.first().cloned() {
				l.push(q)
			}
			cx.log(|| format!("sequence {l:?}"));
			cx.distinct(&format!("{l:?}"));
			containers_of(cx, &l)
		}
	}
}

fn refused<T: DeserializeOwned + Debug>(cx: &mut Cx, what: &str, v: &Value) -> Res {
	cx.eval();
	cx.count("refused");
	if let Ok(t) = serde_json::from_value::<T>(v.clone()) {
		return Err(format!("{what} reads {v} as {t:?}"));
	}
	if let Ok(t) = serde_json::from_str::<T>(&v.to_string()) {
		return Err(format!("{what} reads {v} as {t:?}"));
	}
	Ok(())
}

/// Text that is or is not an identifier, and ill-formed values.
pub fn c17_input(cx: &mut Cx) -> Res {
	let s = match cx.rng.below(5) {
		0 => text(&mut cx.rng),
		1 => format!("_:{}", text(&mut cx.rng)),
		2 => format!("http://{}", text(&mut cx.rng)),
		3 => format!("{}:{}", text(&mut cx.rng), text(&mut cx.rng)),
		_ => {
			// A valid identifier with one character changed or added.
			let mut chars: Vec<char> = if cx.rng.chance(1, 2) {
				cx.rng.pick(LABELS).chars().collect()
			} else {
				cx.rng.pick(IRIS).chars().collect()
			};
			let i = cx.rng.below(chars.len() + 1);
			let c = *cx.rng.pick(&['.', ' ', '"', '<', '\\', '-', ':', '_', '%', '\u{0}', 'é', '#']);
			if cx.rng.chance(1, 2) && i < chars.len() {
				chars[i] = c
			} else {
				chars.insert(i, c)
			}
			chars.into_iter().collect()
		}
	};
	cx.log(|| format!("text {s:?}"));
	cx.sample(|| format!("{s:?}"));
	cx.distinct(&s);
	let v = Value::String(s.clone());
	let is_blank = grammar::blank_node_label(&s);
	let is_iri = IriBuf::new(s.clone()).is_ok();
	cx.count(match (is_blank, is_iri) {
		(true, _) => "text of a blank node",
		(_, true) => "text of an IRI",
		_ => "other text",
	});

	cx.eval();
	match serde_json::from_value::<BlankIdBuf>(v.clone()) {
		Ok(b) => ensure!(is_blank && b.as_str() == s, "BlankIdBuf reads {v} as {b:?}"),
		Err(e) => ensure!(!is_blank, "BlankIdBuf does not read {v}: {e}"),
	}
	cx.eval();
	match serde_json::from_value::<Term>(v.clone()) {
		Ok(t) => ensure!(
			is_iri && term_of(&t) == MT::Iri(s.clone()),
			"Term reads {v} as {t:?}"
		),
		Err(e) => ensure!(!is_iri, "Term does not read {v}: {e}"),
	}
	let expected = if is_blank {
		Some(MT::Blank(s.clone()))
	} else if is_iri {
		Some(MT::Iri(s.clone()))
	} else {
		None
	};
	cx.eval();
	match (serde_json::from_value::<LocalTerm>(v.clone()), &expected) {
		(Ok(t), Some(e)) => ensure!(local_of(&t) == *e, "LocalTerm reads {v} as {t:?}"),
		(Ok(t), None) => return Err(format!("LocalTerm reads {v} as {t:?}")),
		(Err(e), Some(_)) => return Err(format!("LocalTerm does not read {v}: {e}")),
		(Err(_), None) => (),
	}
	// The same in a statement and in a container, in any position.
	let good = serde_json::to_value(LocalTerm::iri(iri("http://e.org/x"))).unwrap();
	let pos = cx.rng.below(4);
	let mut parts = vec![good.clone(), good.clone(), good.clone(), good.clone()];
	parts[pos] = v.clone();
	let quad = Value::Array(parts);
	let all = Value::Array(vec![
		serde_json::to_value(Quad(
			LocalTerm::iri(iri("http://e.org/y")),
			LocalTerm::iri(iri("http://e.org/y")),
			LocalTerm::iri(iri("http://e.org/y")),
			None::<LocalTerm>,
		))
		.unwrap(),
		quad.clone(),
	]);
	match &expected {
		None => {
			refused::<Quad>(cx, "Quad", &quad)?;
			refused::<BTreeDataset>(cx, "BTreeDataset", &all)?;
			refused::<IndexedBTreeDataset>(cx, "IndexedBTreeDataset", &all)?;
		}
		Some(m) => {
			cx.eval();
			let q: Quad = serde_json::from_value(quad.clone())
				.map_err(|e| format!("Quad does not read {quad}: {e}"))?;
			let got = st_of_local(q.as_ref());
			let got = [got.0, got.1, got.2, got.3.ok_or("the graph is lost")?];
			ensure!(got[pos] == *m, "Quad reads {quad} as {got:?}");
			// (`iref` panics when it compares IRIs whose percent-encoded bytes are not
			// UTF-8: containers of such IRIs are left out.)
			if !s.contains('%') {
				let d: BTreeDataset = serde_json::from_value(all.clone())
					.map_err(|e| format!("BTreeDataset does not read {all}: {e}"))?;
				ensure!(
					d.len() == 2 && d.contains(q.as_ref()),
					"BTreeDataset reads {all} as {d:?}"
				);
			}
		}
	}

	// Ill-formed literals.
	let tag = if cx.rng.chance(1, 2) {
		text(&mut cx.rng)
	} else {
		format!("{}{}", cx.rng.pick(TAGS), cx.rng.pick(&["", "-", "_x", " ", "-abcdefghi", "é", "--x"]))
	};
	let lit = |ty: LiteralType| serde_json::to_value(Literal::new("text", ty)).unwrap();
	let replace = |v: Value, from: &str, to: &str| -> Value {
		fn go(v: Value, from: &str, to: &str) -> Value {
			match v {
				Value::String(s) if s == from => Value::String(to.to_owned()),
				Value::Array(a) => Value::Array(a.into_iter().map(|v| go(v, from, to)).collect()),
				Value::Object(o) => {
					Value::Object(o.into_iter().map(|(k, v)| (k, go(v, from, to))).collect())
				}
				v => v,
			}
		}
		go(v, from, to)
	};
	let v = replace(lit(LiteralType::LangString(lang("en-x-mark"))), "en-x-mark", &tag);
	match langtag::LangTagBuf::new(tag.clone()) {
		Ok(_) => {
			cx.eval();
			let l: Literal = serde_json::from_value(v.clone())
				.map_err(|e| format!("Literal does not read {v}: {e}"))?;
			ensure!(
				lit_of(&l) == MT::Lit("text".to_owned(), MTy::Lang(tag.clone())),
				"Literal reads {v} as {l:?}"
			);
		}
		Err(_) => {
			refused::<Literal>(cx, "Literal", &v)?;
			refused::<Term>(cx, "Term", &v)?;
			refused::<LocalTerm>(cx, "LocalTerm", &v)?;
		}
	}
	let v = replace(lit(LiteralType::Any(iri("http://e.org/mark"))), "http://e.org/mark", &s);
	if is_iri {
		cx.eval();
		let l: Literal = serde_json::from_value(v.clone())
			.map_err(|e| format!("Literal does not read {v}: {e}"))?;
		ensure!(
			lit_of(&l) == MT::Lit("text".to_owned(), MTy::Any(s.clone())),
			"Literal reads {v} as {l:?}"
		);
	} else {
		refused::<Literal>(cx, "Literal", &v)?;
		refused::<Term>(cx, "Term", &v)?;
		refused::<LocalTerm>(cx, "LocalTerm", &v)?;
	}

	// Values of the wrong shape.
	let g = good;
	let bad = match cx.rng.below(7) {
		0 => Value::Null,
		1 => Value::from(cx.rng.below(100)),
		2 => Value::Bool(true),
		3 => Value::Array(vec![]),
		4 => Value::Array(vec![g.clone(), g.clone()]),
		5 => serde_json::json!({ "value": "x" }),
		_ => serde_json::json!({}),
	};
	refused::<BlankIdBuf>(cx, "BlankIdBuf", &bad)?;
	if !bad.is_array() {
		refused::<Term>(cx, "Term", &bad)?;
		refused::<LocalTerm>(cx, "LocalTerm", &bad)?;
		refused::<BTreeDataset>(cx, "BTreeDataset", &bad)?;
		refused::<IndexedBTreeDataset>(cx, "IndexedBTreeDataset", &bad)?;
		refused::<BTreeGraph>(cx, "BTreeGraph", &bad)?;
		refused::<IndexedBTreeGraph>(cx, "IndexedBTreeGraph", &bad)?;
	}
	refused::<Triple>(cx, "Triple", &bad)?;
	refused::<Quad>(cx, "Quad", &bad)?;
	refused::<Triple>(cx, "Triple", &Value::Array(vec![g.clone(), bad.clone(), g.clone()]))?;
	refused::<Triple>(cx, "Triple", &Value::Array(vec![g.clone(), g.clone(), g.clone(), g.clone()]))?;
	let list = Value::Array(vec![bad]);
	refused::<BTreeDataset>(cx, "BTreeDataset", &list)?;
	refused::<IndexedBTreeDataset>(cx, "IndexedBTreeDataset", &list)?;
	refused::<BTreeGraph>(cx, "BTreeGraph", &list)?;
	refused::<IndexedBTreeGraph>(cx, "IndexedBTreeGraph", &list)
}
