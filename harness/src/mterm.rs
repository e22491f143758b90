//! Plain-text model of terms, independent of the types under test.
use crate::common::Rng;
use crate::elem::{iri, lang};
use rdf_types::*;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum MTy {
	Any(String),
	Lang(String),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum MT {
	/// Full text, with `_:`.
	Blank(String),
	Iri(String),
	Lit(String, MTy),
}

pub type MSt = (MT, MT, MT, Option<MT>);

pub fn blank(s: &str) -> BlankIdBuf {
	// The harness only uses labels of this simple form here, so that it does not
	// depend on which other labels are accepted.
	BlankIdBuf::new(s.to_owned()).unwrap_or_else(|e| panic!("harness: label {:?} rejected", e.0))
}

impl MTy {
	pub fn build(&self) -> LiteralType {
		match self {
			MTy::Any(i) => LiteralType::Any(iri(i)),
			MTy::Lang(l) => LiteralType::LangString(lang(l)),
		}
	}

	pub fn of(t: &LiteralType) -> Self {
		match t {
			LiteralType::Any(i) => MTy::Any(i.as_str().to_owned()),
			LiteralType::LangString(l) => MTy::Lang(l.as_str().to_owned()),
		}
	}

	pub fn of_ref(t: LiteralTypeRef) -> Self {
		match t {
			LiteralTypeRef::Any(i) => MTy::Any(i.as_str().to_owned()),
			LiteralTypeRef::LangString(l) => MTy::Lang(l.as_str().to_owned()),
		}
	}

	pub fn of_cow(t: &CowLiteralType) -> Self {
		match t {
			CowLiteralType::Any(i) => MTy::Any(i.as_str().to_owned()),
			CowLiteralType::LangString(l) => MTy::Lang(l.as_str().to_owned()),
		}
	}
}

pub fn lit_of(l: &Literal) -> MT {
	MT::Lit(l.value.clone(), MTy::of(&l.type_))
}

pub fn lit_of_ref(l: LiteralRef) -> MT {
	MT::Lit(l.value.to_owned(), MTy::of_ref(l.type_))
}

pub fn lit_of_cow(l: &CowLiteral) -> MT {
	MT::Lit(l.value.clone().into_owned(), MTy::of_cow(&l.type_))
}

pub fn term_of(t: &Term) -> MT {
	match t {
		Term::Iri(i) => MT::Iri(i.as_str().to_owned()),
		Term::Literal(l) => lit_of(l),
	}
}

pub fn term_of_ref(t: TermRef) -> MT {
	match t {
		TermRef::Iri(i) => MT::Iri(i.as_str().to_owned()),
		TermRef::Literal(l) => lit_of_ref(l),
	}
}

pub fn term_of_cow(t: &CowTerm) -> MT {
	match t {
		CowTerm::Iri(i) => MT::Iri(i.as_str().to_owned()),
		CowTerm::Literal(l) => lit_of_cow(l),
	}
}

pub fn local_of(t: &LocalTerm) -> MT {
	match t {
		LocalTerm::Anonymous(b) => MT::Blank(b.as_str().to_owned()),
		LocalTerm::Named(t) => term_of(t),
	}
}

pub fn local_of_ref(t: LocalTermRef) -> MT {
	match t {
		LocalTermRef::Anonymous(b) => MT::Blank(b.as_str().to_owned()),
		LocalTermRef::Named(t) => term_of_ref(t),
	}
}

pub fn local_of_cow(t: &CowLocalTerm) -> MT {
	match t {
		CowLocalTerm::Anonymous(b) => MT::Blank(b.as_str().to_owned()),
		CowLocalTerm::Named(t) => term_of_cow(t),
	}
}

pub fn id_of(i: &Id) -> MT {
	match i {
		Id::BlankId(b) => MT::Blank(b.as_str().to_owned()),
		Id::Iri(i) => MT::Iri(i.as_str().to_owned()),
	}
}

pub fn id_of_ref(i: IdRef) -> MT {
	match i {
		IdRef::BlankId(b) => MT::Blank(b.as_str().to_owned()),
		IdRef::Iri(i) => MT::Iri(i.as_str().to_owned()),
	}
}

pub fn id_of_cow(i: &CowId) -> MT {
	match i {
		CowId::BlankId(b) => MT::Blank(b.as_str().to_owned()),
		CowId::Iri(i) => MT::Iri(i.as_str().to_owned()),
	}
}

impl MT {
	pub fn is_blank(&self) -> bool {
		matches!(self, MT::Blank(_))
	}

	pub fn literal(&self) -> Option<Literal> {
		match self {
			MT::Lit(v, t) => Some(Literal {
				value: v.clone(),
				type_: t.build(),
			}),
			_ => None,
		}
	}

	pub fn term(&self) -> Option<Term> {
		match self {
			MT::Blank(_) => None,
			MT::Iri(i) => Some(Term::Iri(iri(i))),
			MT::Lit(..) => self.literal().map(Term::Literal),
		}
	}

	pub fn local(&self) -> LocalTerm {
		match self {
			MT::Blank(b) => LocalTerm::Anonymous(blank(b)),
			_ => LocalTerm::Named(self.term().unwrap()),
		}
	}

	pub fn id(&self) -> Option<Id> {
		match self {
			MT::Blank(b) => Some(Id::BlankId(blank(b))),
			MT::Iri(i) => Some(Id::Iri(iri(i))),
			MT::Lit(..) => None,
		}
	}
}

pub fn st_local(s: &MSt) -> Quad {
	Quad(
		s.0.local(),
		s.1.local(),
		s.2.local(),
		s.3.as_ref().map(MT::local),
	)
}

pub fn st_of_local(q: Quad<&LocalTerm>) -> MSt {
	(
		local_of(q.0),
		local_of(q.1),
		local_of(q.2),
		q.3.map(local_of),
	)
}

pub const IRIS: &[&str] = &[
	"http://e.org/a",
	"http://e.org/b",
	"http://e.org/",
	"http://e.org/a#b",
	"http://e.org/a?b=c&d",
	"urn:x:y",
	"a:b",
	"http://www.w3.org/2001/XMLSchema#string",
	"http://www.w3.org/2001/XMLSchema#integer",
	"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
	"http://é.org/ü/日本",
	"tag:x,2020:(y)'z'",
	"http://[::1]:80/a;b=c,d",
	"mailto:x@y.z",
];

/// IRIs that `iref` may consider equal to others once normalized: used where
/// only the text matters.
pub const ODD_IRIS: &[&str] = &[
	"http://e.org/a/../b/./c",
	"HTTP://E.org/",
	"http://e.org/%20%C3%A9",
	"http://e.org:80/",
	"http://e.org",
];

/// All entries of [`IRIS`] that are IRIs for `iref`.
pub fn iris() -> &'static [String] {
	static CELL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
	CELL.get_or_init(|| {
		IRIS.iter()
			.filter(|s| IriBuf::new(s.to_string()).is_ok())
			.map(|s| s.to_string())
			.collect()
	})
}

pub const TAGS: &[&str] = &[
	"en",
	"fr",
	"en-US",
	"zh-Hant-TW",
	"de-1996",
	"sl-rozaj-biske",
	"x-private",
	"i-klingon",
	"es-419",
	"a1b2c3d4",
];

pub fn tags() -> &'static [String] {
	static CELL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
	CELL.get_or_init(|| {
		TAGS.iter()
			.filter(|s| langtag::LangTagBuf::new(s.to_string()).is_ok())
			.map(|s| s.to_string())
			.collect()
	})
}

pub const LABELS: &[&str] = &[
	"_:a", "_:b", "_:b0", "_:b1", "_:b10", "_:0", "_:B", "_:é", "_:a-b", "_:_", "_::", "_:日本",
	"_:a:b", "_:x.y", "_:𐀀",
];

/// All entries of [`LABELS`] the library accepts (which ones it must accept is
/// another property's concern).
pub fn labels() -> &'static [String] {
	static CELL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
	CELL.get_or_init(|| {
		LABELS
			.iter()
			.filter(|s| BlankIdBuf::new(s.to_string()).is_ok())
			.map(|s| s.to_string())
			.collect()
	})
}

/// Text made to be hostile to escaping and to parsing.
pub fn text(rng: &mut Rng) -> String {
	const PIECES: &[&str] = &[
		"", "a", "b", "\"", "\\", "\n", "\r", "\t", "\r\n", "\\n", "\\\"", "'", "\u{0}", "\u{1}",
		"\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "é", "e\u{301}", "日本", "😀", "\u{10ffff}", "\u{fffd}",
		"^^", "@en", "<", ">", "_:b0", "http://e.org/a", "\"@en", "\"^^<http://e.org/a>", " .", "\\u0041",
		"\\U0001F600", "{", "}", "%", "null", "[]", "\u{8}", "\u{c}", " ",
	];
	// Sizes around those of buffers.
	if rng.chance(1, 30) {
		let n = *rng.pick(&[7usize, 8, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 4096]);
		let filler = *rng.pick(&["x", "é", "😀", "\"", "\\", "\n", ""]);
		let mut s = String::new();
		while s.len() < n {
			if filler.is_empty() {
				s.push_str(PIECES[rng.range(1, PIECES.len() - 1)])
			} else {
				s.push_str(filler)
			}
		}
		for _ in 0..rng.below(3) {
			s.push_str(PIECES[rng.below(PIECES.len())])
		}
		return s;
	}
	match rng.below(10) {
		0 => String::new(),
		1 => LABELS[rng.below(LABELS.len())].to_owned(),
		2 => IRIS[rng.below(IRIS.len())].to_owned(),
		3 => {
			let mut s = String::new();
			for _ in 0..rng.range(1, 4) {
				s.push(any_char(rng))
			}
			s
		}
		_ => {
			let mut s = String::new();
			for _ in 0..rng.range(1, 5) {
				s.push_str(PIECES[rng.below(PIECES.len())])
			}
			s
		}
	}
}

pub fn any_char(rng: &mut Rng) -> char {
	loop {
		let max = *rng.pick(&[0x80usize, 0x100, 0x3000, 0x110000]);
		if let Some(c) = char::from_u32(rng.below(max) as u32) {
			return c;
		}
	}
}

pub fn random_type(rng: &mut Rng) -> MTy {
	if rng.chance(2, 5) {
		MTy::Lang(random_tag(rng))
	} else if rng.chance(1, 3) {
		MTy::Any(crate::elem::XSD_STRING.to_owned())
	} else {
		let MT::Iri(i) = random_iri(rng) else { unreachable!() };
		MTy::Any(i)
	}
}

/// Language tag; no two differ by their case only.
pub fn random_tag(rng: &mut Rng) -> String {
	if rng.chance(2, 3) {
		return rng.pick(tags()).clone();
	}
	let mut letters = |n: usize, first: u8| -> String {
		(0..n).map(|_| (first + rng.below(26) as u8) as char).collect()
	};
	let mut t = letters(2, b'a');
	t.push('-');
	t.push_str(&letters(2, b'A'));
	if rng.chance(1, 2) {
		t.truncate(2);
	}
	if langtag::LangTagBuf::new(t.clone()).is_ok() {
		t
	} else {
		"en".to_owned()
	}
}

/// Label made at random from the grammar.
pub fn random_label(rng: &mut Rng) -> String {
	const ALPHABET: &[char] = &['a', 'b', 'Z', '0', '9', '_', ':', '-', '.', 'é', '日', '\u{b7}', '\u{10000}', '\u{2040}'];
	loop {
		let n = match rng.below(400) {
			0 => rng.range(1000, 5000),
			1..=20 => rng.range(10, 300),
			_ => rng.range(1, 6),
		};
		let mut s = "_:".to_owned();
		for _ in 0..n {
			s.push(*rng.pick(ALPHABET))
		}
		if BlankIdBuf::new(s.clone()).is_ok() {
			return s;
		}
	}
}

/// IRI whose comparison is that of its text.
fn random_path(rng: &mut Rng) -> String {
	const ALPHABET: &[char] = &['a', 'b', 'Z', '0', '9', '_', '-', '~', '/', 'é', '日', ',', ';', '=', '@', ':', '(', '\u{10000}'];
	let mut s = "http://e.org/p".to_owned();
	let n = match rng.below(400) {
		0 => rng.range(1000, 5000),
		1..=20 => rng.range(10, 300),
		_ => rng.range(0, 5),
	};
	for _ in 0..n {
		s.push(*rng.pick(ALPHABET))
	}
	match rng.below(4) {
		0 => s.push_str("?q=1&r"),
		1 => s.push_str("#f"),
		_ => (),
	}
	if IriBuf::new(s.clone()).is_ok() {
		s
	} else {
		"http://e.org/p".to_owned()
	}
}

pub fn random_literal(rng: &mut Rng) -> MT {
	MT::Lit(text(rng), random_type(rng))
}

pub fn random_iri(rng: &mut Rng) -> MT {
	if rng.chance(1, 4) {
		MT::Iri(format!("http://e.org/{}", rng.below(40)))
	} else if rng.chance(1, 3) {
		MT::Iri(random_path(rng))
	} else {
		MT::Iri(rng.pick(iris()).clone())
	}
}

pub fn random_blank(rng: &mut Rng) -> MT {
	if rng.chance(1, 3) {
		MT::Blank(random_label(rng))
	} else {
		MT::Blank(rng.pick(labels()).clone())
	}
}

/// A text differing in one place.
pub fn nudge(rng: &mut Rng, s: &str) -> String {
	let mut c: Vec<char> = s.chars().collect();
	let i = match rng.below(3) {
		0 => 0,
		1 => c.len().saturating_sub(1),
		_ => rng.below(c.len().max(1)),
	};
	let new = *rng.pick(&['a', 'b', 'A', '0', 'é', '\u{0}', '.', ' ', '\u{10ffff}']);
	match rng.below(4) {
		0 if i < c.len() => c[i] = new,
		1 if i < c.len() => {
			c.remove(i);
		}
		2 if i + 1 < c.len() => c.swap(i, i + 1),
		_ => {
			let at = if rng.chance(1, 2) { c.len() } else { i };
			c.insert(at, new)
		}
	}
	c.into_iter().collect()
}

pub fn random_term(rng: &mut Rng) -> MT {
	match rng.below(4) {
		0 => random_blank(rng),
		1 => random_iri(rng),
		_ => random_literal(rng),
	}
}

pub fn random_statement(rng: &mut Rng) -> MSt {
	let g = if rng.chance(1, 2) {
		Some(random_term(rng))
	} else {
		None
	};
	(random_term(rng), random_term(rng), random_term(rng), g)
}
