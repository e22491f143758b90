//! C13, C15, C16, C25: identifiers, terms and statements as values.
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use rdf_types::*;

use crate::common::*;
use crate::elem::{iri, lang};
use crate::ensure;
use crate::mterm::*;

fn same<T: Debug + PartialEq<U>, U: Debug>(cx: &mut Cx, what: &str, got: T, expected: U) -> Res {
	cx.eval();
	ensure!(got == expected, "{what}: {got:?} instead of {expected:?}");
	Ok(())
}

// ---------------------------------------------------------------- C13

/// The documented grammar, transcribed from its text.
pub mod grammar {
	const BASE: &[(u32, u32)] = &[
		('A' as u32, 'Z' as u32),
		('a' as u32, 'z' as u32),
		(0x00C0, 0x00D6),
		(0x00D8, 0x00F6),
		(0x00F8, 0x02FF),
		(0x0370, 0x037D),
		(0x037F, 0x1FFF),
		(0x200C, 0x200D),
		(0x2070, 0x218F),
		(0x2C00, 0x2FEF),
		(0x3001, 0xD7FF),
		(0xF900, 0xFDCF),
		(0xFDF0, 0xFFFD),
		(0x10000, 0xEFFFF),
	];
	const MORE: &[(u32, u32)] = &[
		('-' as u32, '-' as u32),
		('0' as u32, '9' as u32),
		(0x00B7, 0x00B7),
		(0x0300, 0x036F),
		(0x203F, 0x2040),
	];

	fn within(c: char, ranges: &[(u32, u32)]) -> bool {
		let c = c as u32;
		ranges.iter().any(|(a, b)| *a <= c && c <= *b)
	}

	pub fn pn_chars_u(c: char) -> bool {
		c == '_' || c == ':' || within(c, BASE)
	}

	pub fn pn_chars(c: char) -> bool {
		pn_chars_u(c) || within(c, MORE)
	}

	/// `'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?`
	pub fn blank_node_label(s: &str) -> bool {
		let Some(rest) = s.strip_prefix("_:") else {
			return false;
		};
		let chars: Vec<char> = rest.chars().collect();
		let Some((first, rest)) = chars.split_first() else {
			return false;
		};
		if !(pn_chars_u(*first) || ('0'..='9').contains(first)) {
			return false;
		}
		match rest.split_last() {
			None => true,
			Some((last, middle)) => {
				pn_chars(*last) && middle.iter().all(|c| *c == '.' || pn_chars(*c))
			}
		}
	}
}

/// All the ways to make an identifier from text must agree with the grammar.
fn c13_text(cx: &mut Cx, s: &str, serde: bool) -> Res {
	let ok = grammar::blank_node_label(s);
	cx.count(if ok { "accepted" } else { "rejected" });
	cx.evals(3);
	match BlankId::new(s) {
		Ok(b) => {
			ensure!(ok, "BlankId::new accepts {s:?}");
			ensure!(b.as_str() == s, "BlankId::new({s:?}) holds {:?}", b.as_str());
			ensure!(b.suffix() == &s[2..], "suffix of {s:?} is {:?}", b.suffix());
		}
		Err(InvalidBlankId(t)) => {
			ensure!(!ok, "BlankId::new rejects {s:?}");
			ensure!(t == s, "the error of BlankId::new({s:?}) holds {t:?}");
		}
	}
	match BlankIdBuf::new(s.to_owned()) {
		Ok(b) => {
			ensure!(ok, "BlankIdBuf::new accepts {s:?}");
			ensure!(b.as_str() == s, "BlankIdBuf::new({s:?}) holds {:?}", b.as_str());
			ensure!(b.suffix() == &s[2..], "suffix of {s:?} is {:?}", b.suffix());
			ensure!(
				b.as_blank_id_ref().as_str() == s,
				"as_blank_id_ref of {s:?} is {:?}",
				b.as_blank_id_ref()
			);
		}
		Err(InvalidBlankId(t)) => {
			ensure!(!ok, "BlankIdBuf::new rejects {s:?}");
			ensure!(t == s, "the error of BlankIdBuf::new({s:?}) holds {t:?}");
		}
	}
	match s.parse::<BlankIdBuf>() {
		Ok(b) => {
			ensure!(ok, "parsing accepts {s:?}");
			ensure!(b.as_str() == s, "parsing {s:?} gives {:?}", b.as_str());
		}
		Err(InvalidBlankId(t)) => {
			ensure!(!ok, "parsing rejects {s:?}");
			ensure!(t == s, "the error of parsing {s:?} holds {t:?}");
		}
	}
	if let Some(suffix) = s.strip_prefix("_:") {
		cx.eval();
		match BlankIdBuf::from_suffix(suffix) {
			Ok(b) => {
				ensure!(ok, "from_suffix accepts {suffix:?}");
				ensure!(b.as_str() == s, "from_suffix({suffix:?}) gives {:?}", b.as_str());
				ensure!(b.suffix() == suffix, "from_suffix({suffix:?}) has suffix {:?}", b.suffix());
			}
			Err(InvalidBlankId(t)) => {
				ensure!(!ok, "from_suffix rejects {suffix:?}");
				ensure!(t == s, "the error of from_suffix({suffix:?}) holds {t:?}");
			}
		}
	}
	if serde {
		use serde::de::value::{BorrowedStrDeserializer, Error, StrDeserializer, StringDeserializer};
		use serde::de::{Deserialize, IntoDeserializer};
		let json = serde_json::to_string(s).unwrap();
		let d1: StrDeserializer<Error> = s.into_deserializer();
		let d2: StringDeserializer<Error> = s.to_owned().into_deserializer();
		let all: [(&str, Option<BlankIdBuf>); 6] = [
			("JSON text", serde_json::from_str(&json).ok()),
			("JSON reader", serde_json::from_reader(json.as_bytes()).ok()),
			(
				"JSON value",
				serde_json::from_value(serde_json::Value::String(s.to_owned())).ok(),
			),
			("text", BlankIdBuf::deserialize(d1).ok()),
			("owned text", BlankIdBuf::deserialize(d2).ok()),
			(
				"borrowed text",
				BlankIdBuf::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok(),
			),
		];
		for (what, b) in all {
			cx.eval();
			match b {
				Some(b) => {
					ensure!(ok, "deserializing {s:?} from {what} succeeds");
					ensure!(b.as_str() == s, "deserializing {s:?} from {what} gives {b:?}");
				}
				None => ensure!(!ok, "deserializing {s:?} from {what} fails"),
			}
		}
	}
	Ok(())
}

/// Every code point, in every position.
pub fn c13_code_points(cx: &mut Cx) -> Res {
	let block = 1024u32;
	let start = cx.index as u32 * block;
	let mut accepted = 0;
	for n in start..start + block {
		let Some(c) = char::from_u32(n) else { continue };
		let serde = n % 64 == 0 || n < 0x400;
		for s in [
			format!("_:{c}"),
			format!("_:{c}a"),
			format!("_:a{c}"),
			format!("_:a{c}b"),
			format!("_:0{c}{c}"),
			format!("_:.{c}"),
			format!("_:a.{c}"),
		] {
			accepted += grammar::blank_node_label(&s) as u32;
			c13_text(cx, &s, serde)?;
		}
		for s in [format!("{c}:a"), format!("_{c}a"), format!("{c}_:a"), format!("{c}")] {
			c13_text(cx, &s, false)?;
		}
		cx.distinct(&n);
	}
	cx.sample(|| format!("code points {start:#x}..{:#x}: {accepted} accepted strings", start + block));
	Ok(())
}

pub fn c13_strings(cx: &mut Cx) -> Res {
	const ALPHABET: &[char] = &[
		'_', ':', '.', '-', 'a', 'Z', '0', '9', '\u{b7}', '\u{300}', '\u{36f}', '\u{370}', '\u{37e}',
		'\u{37f}', '\u{d7}', '\u{f7}', '\u{200b}', '\u{200c}', '\u{2040}', '\u{2041}', '\u{203e}',
		'\u{3000}', '\u{3001}', '\u{fffd}', '\u{fffe}', '\u{10000}', '\u{effff}', '\u{f0000}', ' ', '\u{0}',
		'é', '٣', '²',
	];
	let prefix = *cx.rng.pick(&["_:", "_:", "_:", "_:", "_:", "", "_", ":", "__:", "_::", " _:"]);
	let mut s = prefix.to_owned();
	let n = cx.rng.below(9);
	for _ in 0..n {
		let c = if cx.rng.chance(1, 12) {
			any_char(&mut cx.rng)
		} else if cx.rng.chance(2, 3) {
			*cx.rng.pick(&ALPHABET[..8])
		} else {
			*cx.rng.pick(ALPHABET)
		};
		s.push(c)
	}
	if cx.rng.chance(1, 50) {
		let n = cx.rng.range(100, 5000);
		s.push_str(&"a.".repeat(n));
		if cx.rng.chance(1, 2) {
			s.push('b')
		}
	}
	cx.log(|| format!("text {s:?}"));
	cx.distinct(&s);
	cx.sample(|| format!("{s:?}: {}", grammar::blank_node_label(&s)));
	c13_text(cx, &s, true)
}

pub fn c13_integers(cx: &mut Cx) -> Res {
	fn check(cx: &mut Cx, b: BlankIdBuf, n: u64) -> Res {
		let t = format!("_:{n}");
		same(cx, &format!("identifier made from {n}"), b.as_str(), t.as_str())?;
		same(cx, &format!("suffix of the identifier made from {n}"), b.suffix(), &t[2..])?;
		ensure!(
			BlankIdBuf::new(t).is_ok(),
			"the identifier made from {n} is not valid"
		);
		Ok(())
	}
	let base = (cx.index as u32 * 256) as u16;
	for i in 0..256u16 {
		check(cx, BlankIdBuf::from_u8(i as u8), (i as u8) as u64)?;
		let n = base.wrapping_add(i);
		check(cx, BlankIdBuf::from_u16(n), n as u64)?;
		cx.distinct(&n);
	}
	for i in 0..200 {
		let r = cx.rng.next() >> cx.rng.below(64);
		let n = match i {
			0 => u64::MAX,
			1 => u32::MAX as u64,
			2 => u32::MAX as u64 + 1,
			3 => i64::MAX as u64 + 1,
			_ => r,
		};
		check(cx, BlankIdBuf::from_u64(n), n)?;
		check(cx, BlankIdBuf::from_u32(n as u32), n as u32 as u64)?;
		cx.distinct(&n);
	}
	Ok(())
}

// ---------------------------------------------------------------- C15

fn h<T: Hash + ?Sized>(t: &T) -> (u64, u64) {
	let mut d = DefaultHasher::new();
	t.hash(&mut d);
	(d.finish(), sig(t))
}

/// Pool of model terms with many near collisions and duplicates.
fn pool(cx: &mut Cx, n: usize, mut f: impl FnMut(&mut Rng) -> MT) -> Vec<MT> {
	let mut v: Vec<MT> = Vec::new();
	while v.len() < n {
		if !v.is_empty() && cx.rng.chance(1, 3) {
			let m = cx.rng.pick(&v).clone();
			let m = if cx.rng.chance(1, 2) {
				m
			} else {
				mutate(&mut cx.rng, &m)
			};
			v.push(m)
		} else {
			v.push(f(&mut cx.rng))
		}
	}
	v
}

/// The same value with another character, far in its text.
fn change_late(rng: &mut Rng, m: &MT) -> Option<MT> {
	let (MT::Blank(s) | MT::Iri(s) | MT::Lit(s, _)) = m;
	if s.len() < 24 {
		return None;
	}
	let i = s.len() - 1 - rng.below(s.len().min(6));
	let c = *s.as_bytes().get(i)?;
	if !c.is_ascii() {
		return None;
	}
	let mut s = s.clone();
	s.replace_range(i..i + 1, rng.pick(&["a", "Z", "0"]));
	Some(match m {
		MT::Blank(_) if BlankIdBuf::new(s.clone()).is_ok() => MT::Blank(s),
		// Where the comparison is that of the text.
		MT::Iri(i) if i.starts_with("http://e.org/p") && IriBuf::new(s.clone()).is_ok() => MT::Iri(s),
		MT::Lit(_, t) => MT::Lit(s, t.clone()),
		_ => return None,
	})
}

/// A value differing a little.
fn mutate(rng: &mut Rng, m: &MT) -> MT {
	if rng.chance(2, 3) {
		if let Some(m) = change_late(rng, m) {
			return m;
		}
	}
	match m {
		MT::Blank(b) => {
			let n = nudge(rng, b);
			if BlankIdBuf::new(n.clone()).is_ok() {
				MT::Blank(n)
			} else {
				random_blank(rng)
			}
		}
		MT::Iri(i) => {
			if i.starts_with("http://e.org/p") && rng.chance(1, 2) {
				// Only the path, where comparison is that of the text.
				let k = rng.range("http://e.org/p".len(), i.len());
				let (a, b) = match i.is_char_boundary(k) {
					true => i.split_at(k),
					false => (&i[..], ""),
				};
				MT::Iri(format!("{a}{}{b}", rng.pick(&['a', 'Z', '0', '-'])))
			} else if rng.chance(1, 2) {
				MT::Lit(i.clone(), MTy::Any(crate::elem::XSD_STRING.to_owned()))
			} else {
				random_iri(rng)
			}
		}
		MT::Lit(v, t) => match rng.below(4) {
			0 => MT::Lit(text(rng), t.clone()),
			2 if rng.chance(2, 3) => MT::Lit(nudge(rng, v), t.clone()),
			1 => MT::Lit(v.clone(), random_type(rng)),
			2 => MT::Lit(format!("{v}a"), t.clone()),
			_ => MT::Lit(
				v.clone(),
				match t {
					MTy::Any(_) => MTy::Lang("en".to_owned()),
					MTy::Lang(_) => MTy::Any(crate::elem::XSD_STRING.to_owned()),
				},
			),
		},
	}
}

/// Spellings of a few IRIs, some of them equal once normalized.
const SPELLINGS: &[&str] = &[
	"http://e.org/a",
	"http://e.org/%61",
	"HTTP://e.org/a",
	"http://E.ORG/a",
	"http://e.org/A",
	"http://e.org/%41",
	"http://e.org/x/../a",
	"http://e.org/./a",
	"http://e.org/a/",
	"http://e.org/\u{e9}",
	"http://e.org/%C3%A9",
	"http://e.org/%c3%a9",
	"http://e.org/a?x=a",
	"http://e.org/a?x=%61",
	"http://e.org/a#a",
	"http://e.org/a#%61",
	"http://www.w3.org/2001/XMLSchema#string",
	"http://www.w3.org/2001/XMLSchema#%73tring",
	"http://www.w3.org/2001/XMLSchema#STRING",
];

const TAG_SPELLINGS: &[&str] = &["en", "EN", "eN", "fr", "en-us", "en-US", "EN-US", "en-x-a", "EN-X-A", "zh-hant", "zh-Hant"];

/// Another spelling of what a term is made of.
fn respell(rng: &mut Rng, m: MT) -> MT {
	let mut iri = || rng.pick(SPELLINGS).to_string();
	match m {
		MT::Iri(_) => MT::Iri(iri()),
		MT::Lit(v, MTy::Any(_)) => {
			let i = iri();
			let v = if rng.chance(2, 3) { "v".to_owned() } else { v };
			MT::Lit(v, MTy::Any(i))
		}
		MT::Lit(v, MTy::Lang(_)) => {
			let v = if rng.chance(2, 3) { "v".to_owned() } else { v };
			MT::Lit(v, MTy::Lang(rng.pick(TAG_SPELLINGS).to_string()))
		}
		b => b,
	}
}

/// The same terms, each IRI and language tag spelled like the first one equal to it.
fn canon(v: &[MT]) -> Vec<MT> {
	let mut iris: Vec<IriBuf> = Vec::new();
	let mut tags: Vec<langtag::LangTagBuf> = Vec::new();
	let mut iri = |i: &String| {
		let i = IriBuf::new(i.clone()).unwrap();
		if let Some(j) = iris.iter().find(|j| **j == i) {
			return j.as_str().to_owned();
		}
		iris.push(i.clone());
		i.as_str().to_owned()
	};
	v.iter()
		.map(|m| match m {
			MT::Iri(i) => MT::Iri(iri(i)),
			MT::Lit(v, MTy::Any(i)) => MT::Lit(v.clone(), MTy::Any(iri(i))),
			MT::Lit(v, MTy::Lang(l)) => {
				let l = langtag::LangTagBuf::new(l.clone()).unwrap();
				let first = tags.iter().find(|t| **t == l).cloned().unwrap_or_else(|| {
					tags.push(l.clone());
					l
				});
				MT::Lit(v.clone(), MTy::Lang(first.as_str().to_owned()))
			}
			b => b.clone(),
		})
		.collect()
}

/// Pools whose IRIs and language tags have several spellings.
pub fn c15_spellings(cx: &mut Cx) -> Res {
	let v = pool(cx, 9, random_literal);
	let v = v.into_iter().map(|m| respell(&mut cx.rng, m)).collect();
	literals(cx, v)?;
	let v = pool(cx, 9, random_term);
	let v = v.into_iter().map(|m| respell(&mut cx.rng, m)).collect();
	local_terms(cx, v)?;
	let v = pool(cx, 4, random_term);
	let v = v.into_iter().map(|m| respell(&mut cx.rng, m)).collect();
	statements(cx, v)
}

/// Checks that `order` (a matrix of comparisons) is a total order whose equality
/// is `eq`.
fn total_order(cx: &mut Cx, what: &str, items: &[String], order: &[Vec<Ordering>], eq: &[Vec<bool>]) -> Res {
	let n = items.len();
	for i in 0..n {
		for j in 0..n {
			cx.eval();
			ensure!(
				(order[i][j] == Ordering::Equal) == eq[i][j],
				"{what}: {} and {} compare {:?} while equality is {}",
				items[i],
				items[j],
				order[i][j],
				eq[i][j]
			);
			ensure!(
				order[i][j] == order[j][i].reverse(),
				"{what}: {} and {} compare {:?}, and {:?} the other way",
				items[i],
				items[j],
				order[i][j],
				order[j][i]
			);
			for k in 0..n {
				if order[i][j] != Ordering::Greater && order[j][k] != Ordering::Greater {
					ensure!(
						order[i][k] != Ordering::Greater,
						"{what}: not transitive: {} {} {}",
						items[i],
						items[j],
						items[k]
					);
				}
			}
		}
	}
	Ok(())
}

macro_rules! agree {
	($cx:expr, $what:expr, $a:expr, $b:expr, $e:expr; $($form:literal : $got:expr),* $(,)?) => {
		$(
			$cx.eval();
			let got = $got;
			ensure!(got == $e, "{} ({}): {:?} and {:?} give {:?} instead of {:?}", $what, $form, $a, $b, got, $e);
		)*
	};
}

pub fn c15_blank(cx: &mut Cx) -> Res {
	let v = pool(cx, 8, random_blank);
	let b: Vec<BlankIdBuf> = v
		.iter()
		.map(|m| match m {
			MT::Blank(s) => blank(s),
			_ => unreachable!(),
		})
		.collect();
	for (i, x) in b.iter().enumerate() {
		for (j, y) in b.iter().enumerate() {
			let e = v[i] == v[j];
			let (xr, yr): (&BlankId, &BlankId) = (x, y);
			cx.distinct(&("blank", &v[i], &v[j]));
			agree!(cx, "equality", x, y, e;
				"owned" : x == y,
				"borrowed" : *xr == *yr,
				"owned, borrowed" : *x == *yr,
				"owned, reference" : *x == yr,
				"reference, owned" : xr == *y,
				"borrowed, owned" : *xr == *y,
				"borrowed, text" : *xr == *y.as_str(),
				"not owned" : !(x != y),
			);
			let (MT::Blank(a), MT::Blank(c)) = (&v[i], &v[j]) else {
				unreachable!()
			};
			let e = a.cmp(c);
			agree!(cx, "order", x, y, e;
				"owned" : x.cmp(y),
				"borrowed" : xr.cmp(yr),
			);
			agree!(cx, "order", x, y, Some(e);
				"owned, partial" : x.partial_cmp(y),
				"borrowed, partial" : xr.partial_cmp(yr),
			);
			if v[i] == v[j] {
				let eh = h(x);
				agree!(cx, "hash", x, y, eh;
					"owned" : h(y),
					"borrowed" : h(yr),
					"text" : h(y.as_str()),
				);
			}
		}
	}
	// Collections.
	let mut bt: BTreeMap<BlankIdBuf, usize> = BTreeMap::new();
	let mut hm: HashMap<BlankIdBuf, usize> = HashMap::new();
	let mut hr: HashMap<&BlankIdBuf, usize> = HashMap::new();
	let mut br: BTreeMap<&BlankIdBuf, usize> = BTreeMap::new();
	let mut im: indexmap::IndexMap<BlankIdBuf, usize> = indexmap::IndexMap::new();
	let mut model: BTreeMap<MT, usize> = BTreeMap::new();
	for (i, x) in b.iter().enumerate().take(5) {
		bt.insert(x.clone(), i);
		hm.insert(x.clone(), i);
		im.insert(x.clone(), i);
		hr.insert(x, i);
		br.insert(x, i);
		model.insert(v[i].clone(), i);
	}
	for (i, x) in b.iter().enumerate() {
		let e = model.get(&v[i]);
		let r: &BlankId = x;
		let s: &str = x.as_str();
		agree!(cx, "lookup", x, model, e;
			"ordered map, owned" : bt.get(x),
			"ordered map, borrowed" : bt.get(r),
			"ordered map, text" : bt.get(s),
			"hash map, owned" : hm.get(x),
			"hash map, borrowed" : hm.get(r),
			"hash map, text" : hm.get(s),
			"hash map of references, borrowed" : hr.get(r),
			"hash map of references, text" : hr.get(s),
			"ordered map of references, borrowed" : br.get(r),
			"ordered map of references, text" : br.get(s),
			"index map, borrowed" : im.get(r),
			"index map, text" : im.get(s),
		);
	}
	let sorted: Vec<&str> = bt.keys().map(|k| k.as_str()).collect();
	let set: BTreeSet<&str> = model
		.keys()
		.map(|k| match k {
			MT::Blank(s) => s.as_str(),
			_ => unreachable!(),
		})
		.collect();
	same(cx, "keys in order", sorted, set.into_iter().collect::<Vec<_>>())
}

pub fn c15_literal(cx: &mut Cx) -> Res {
	let v = pool(cx, 9, random_literal);
	literals(cx, v)
}

fn literals(cx: &mut Cx, v: Vec<MT>) -> Res {
	let l: Vec<Literal> = v.iter().map(|m| m.literal().unwrap()).collect();
	let v = canon(&v);
	let names: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
	let n = l.len();
	let mut order = vec![vec![Ordering::Equal; n]; n];
	let mut torder = order.clone();
	let mut eq = vec![vec![false; n]; n];
	let mut teq = eq.clone();
	for (i, x) in l.iter().enumerate() {
		for (j, y) in l.iter().enumerate() {
			let e = v[i] == v[j];
			cx.distinct(&("literal", &v[i], &v[j]));
			let (xr, yr) = (x.as_ref(), y.as_ref());
			let (xc, yc) = (x.as_cow(), y.clone().into_cow());
			agree!(cx, "equality", x, y, e;
				"owned" : x == y,
				"references" : xr == yr,
				"owned, reference" : *x == yr,
				"reference, owned" : xr == *y,
				"copy on write" : xc == yc,
				"equivalent" : equivalent::Equivalent::<Literal>::equivalent(&xr, y),
				"not" : !(x != y),
				"not, reference" : !(xr != *y),
			);
			let o = x.cmp(y);
			order[i][j] = o;
			eq[i][j] = e;
			agree!(cx, "order", x, y, o;
				"references" : xr.cmp(&yr),
				"copy on write" : xc.cmp(&yc),
			);
			agree!(cx, "order", x, y, Some(o);
				"owned, partial" : x.partial_cmp(y),
				"references, partial" : xr.partial_cmp(&yr),
				"copy on write, partial" : xc.partial_cmp(&yc),
				"owned, reference" : x.partial_cmp(&yr),
				"reference, owned" : xr.partial_cmp(y),
			);
			if e {
				let eh = h(x);
				agree!(cx, "hash", x, y, eh;
					"owned" : h(y),
					"reference" : h(&yr),
				);
				agree!(cx, "hash", x, y, h(&xc);
					"copy on write" : h(&yc),
				);
			}
			// Types.
			let (MT::Lit(_, a), MT::Lit(_, b)) = (&v[i], &v[j]) else {
				unreachable!()
			};
			let e = a == b;
			let (x, y) = (&x.type_, &y.type_);
			let (xr, yr) = (x.as_ref(), y.as_ref());
			let (xc, yc) = (x.as_cow(), y.clone().into_cow());
			agree!(cx, "type equality", x, y, e;
				"owned" : x == y,
				"references" : xr == yr,
				"owned, reference" : *x == yr,
				"reference, owned" : xr == *y,
				"copy on write" : xc == yc,
			);
			let o = x.cmp(y);
			torder[i][j] = o;
			teq[i][j] = e;
			agree!(cx, "type order", x, y, o;
				"references" : xr.cmp(&yr),
				"copy on write" : xc.cmp(&yc),
			);
			agree!(cx, "type order", x, y, Some(o);
				"owned, partial" : x.partial_cmp(y),
				"references, partial" : xr.partial_cmp(&yr),
				"owned, reference" : x.partial_cmp(&yr),
				"reference, owned" : xr.partial_cmp(y),
			);
			if e {
				let eh = h(x);
				agree!(cx, "type hash", x, y, eh;
					"owned" : h(y),
					"reference" : h(&yr),
				);
			}
		}
	}
	total_order(cx, "literals", &names, &order, &eq)?;
	total_order(cx, "literal types", &names, &torder, &teq)?;

	let mut im: indexmap::IndexMap<Literal, usize> = indexmap::IndexMap::new();
	let mut hm: HashMap<Literal, usize> = HashMap::new();
	let mut bt: BTreeMap<Literal, usize> = BTreeMap::new();
	let mut model: BTreeMap<MT, usize> = BTreeMap::new();
	for (i, x) in l.iter().enumerate().take(6) {
		im.insert(x.clone(), i);
		hm.insert(x.clone(), i);
		bt.insert(x.clone(), i);
		model.insert(v[i].clone(), i);
	}
	for (i, x) in l.iter().enumerate() {
		let e = model.get(&v[i]);
		agree!(cx, "lookup", x, model, e;
			"index map, owned" : im.get(x),
			"index map, reference" : im.get(&x.as_ref()),
			"hash map" : hm.get(x),
			"ordered map" : bt.get(x),
		);
	}
	Ok(())
}

pub fn c15_term(cx: &mut Cx) -> Res {
	let v = pool(cx, 9, random_term);
	local_terms(cx, v)
}

fn local_terms(cx: &mut Cx, v: Vec<MT>) -> Res {
	let t: Vec<LocalTerm> = v.iter().map(MT::local).collect();
	let ids: Vec<Option<Id>> = v.iter().map(|m| m.id()).collect();
	let v = canon(&v);
	let names: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
	let n = t.len();
	let mut order = vec![vec![Ordering::Equal; n]; n];
	let mut eq = vec![vec![false; n]; n];
	cx.sample(|| format!("{v:?}"));
	for (i, x) in t.iter().enumerate() {
		for (j, y) in t.iter().enumerate() {
			let e = v[i] == v[j];
			cx.distinct(&("term", &v[i], &v[j]));
			let (xr, yr) = (x.as_ref(), y.as_ref());
			agree!(cx, "equality", x, y, e;
				"owned" : x == y,
				"references" : xr == yr,
				"reference, owned" : xr == *y,
				"not" : !(x != y),
			);
			let o = x.cmp(y);
			order[i][j] = o;
			eq[i][j] = e;
			agree!(cx, "order", x, y, o; "references" : xr.cmp(&yr));
			agree!(cx, "order", x, y, Some(o);
				"owned, partial" : x.partial_cmp(y),
				"references, partial" : xr.partial_cmp(&yr),
				"reference, owned" : xr.partial_cmp(y),
			);
			if e {
				agree!(cx, "hash", x, y, h(x); "owned" : h(y));
			}
			if let (LocalTerm::Named(x), LocalTerm::Named(y)) = (x, y) {
				let (xr, yr) = (x.as_ref(), y.as_ref());
				agree!(cx, "named equality", x, y, e;
					"owned" : x == y,
					"references" : xr == yr,
					"reference, owned" : xr == *y,
				);
				agree!(cx, "named order", x, y, o;
					"owned" : x.cmp(y),
					"references" : xr.cmp(&yr),
				);
				agree!(cx, "named order", x, y, Some(o);
					"owned, partial" : x.partial_cmp(y),
					"references, partial" : xr.partial_cmp(&yr),
					"reference, owned" : xr.partial_cmp(y),
				);
				if e {
					agree!(cx, "named hash", x, y, h(x); "owned" : h(y));
				}
			}
			if let (Some(x), Some(y)) = (&ids[i], &ids[j]) {
				let (xr, yr) = (x.as_ref(), y.as_ref());
				agree!(cx, "identifier equality", xr, yr, e; "references" : xr == yr);
				agree!(cx, "identifier order", xr, yr, Some(xr.cmp(&yr)); "partial" : xr.partial_cmp(&yr));
				agree!(cx, "identifier order", xr, yr, e; "equal" : xr.cmp(&yr) == Ordering::Equal);
				agree!(cx, "identifier order", xr, yr, xr.cmp(&yr); "reversed" : yr.cmp(&xr).reverse());
			}
		}
	}
	total_order(cx, "terms", &names, &order, &eq)?;

	let hs: HashSet<LocalTerm> = t.iter().take(6).cloned().collect();
	let bs: BTreeSet<LocalTerm> = t.iter().take(6).cloned().collect();
	let im: indexmap::IndexSet<LocalTerm> = t.iter().take(6).cloned().collect();
	let model: BTreeSet<MT> = v.iter().take(6).cloned().collect();
	same(cx, "distinct terms in a hash set", hs.len(), model.len())?;
	same(cx, "distinct terms in an ordered set", bs.len(), model.len())?;
	for (i, x) in t.iter().enumerate() {
		let e = model.contains(&v[i]);
		agree!(cx, "lookup", x, model, e;
			"hash set" : hs.contains(x),
			"ordered set" : bs.contains(x),
			"index set" : im.contains(x),
		);
	}
	Ok(())
}

pub fn c15_statement(cx: &mut Cx) -> Res {
	let terms = pool(cx, 3, random_term);
	statements(cx, terms)
}

fn statements(cx: &mut Cx, terms: Vec<MT>) -> Res {
	let mut v: Vec<MSt> = Vec::new();
	for _ in 0..9 {
		let g = if cx.rng.chance(1, 2) {
			Some(cx.rng.pick(&terms).clone())
		} else {
			None
		};
		v.push((
			cx.rng.pick(&terms).clone(),
			cx.rng.pick(&terms).clone(),
			cx.rng.pick(&terms).clone(),
			g,
		));
	}
	// Near duplicates.
	for k in 0..3 {
		let mut s = v[k].clone();
		match cx.rng.below(5) {
			0 => s.0 = cx.rng.pick(&terms).clone(),
			1 => s.1 = cx.rng.pick(&terms).clone(),
			2 => s.2 = cx.rng.pick(&terms).clone(),
			3 => s.3 = None,
			_ => (),
		}
		v[8 - k] = s;
	}
	let q: Vec<Quad> = v.iter().map(st_local).collect();
	let firsts = canon(&terms);
	let first = |m: &MT| firsts[terms.iter().position(|t| t == m).unwrap()].clone();
	let v: Vec<MSt> = v
		.iter()
		.map(|s| (first(&s.0), first(&s.1), first(&s.2), s.3.as_ref().map(first)))
		.collect();
	let names: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
	let n = q.len();
	let mut order = vec![vec![Ordering::Equal; n]; n];
	let mut eq = vec![vec![false; n]; n];
	let mut torder = order.clone();
	let mut teq = eq.clone();
	let lref = |q: &Quad| -> (LocalTerm, LocalTerm, LocalTerm, Option<LocalTerm>) {
		(q.0.clone(), q.1.clone(), q.2.clone(), q.3.clone())
	};
	for (i, x) in q.iter().enumerate() {
		for (j, y) in q.iter().enumerate() {
			let e = v[i] == v[j];
			cx.distinct(&("quad", &v[i], &v[j]));
			let (xr, yr) = (x.as_ref(), y.as_ref());
			let xl = Quad(x.0.as_ref(), x.1.as_ref(), x.2.as_ref(), x.3.as_ref().map(|g| g.as_ref()));
			let yl = Quad(y.0.as_ref(), y.1.as_ref(), y.2.as_ref(), y.3.as_ref().map(|g| g.as_ref()));
			agree!(cx, "equality", x, y, e;
				"owned" : x == y,
				"components borrowed" : xr == yr,
				"term references" : xl == yl,
				"term references, owned" : xl == *y,
				"not" : !(x != y),
			);
			let o = x.cmp(y);
			order[i][j] = o;
			eq[i][j] = e;
			// By subject, predicate, object, then graph, the default graph first.
			let eo = lref(x).cmp(&lref(y));
			agree!(cx, "order", x, y, eo;
				"owned" : o,
				"components borrowed" : xr.cmp(&yr),
				"term references" : xl.cmp(&yl),
			);
			agree!(cx, "order", x, y, Some(eo);
				"owned, partial" : x.partial_cmp(y),
				"components borrowed, partial" : xr.partial_cmp(&yr),
				"term references, partial" : xl.partial_cmp(&yl),
				"term references, owned" : xl.partial_cmp(y),
			);
			if e {
				let eh = h(x);
				agree!(cx, "hash", x, y, eh;
					"owned" : h(y),
					"components borrowed" : h(&yr),
				);
			}
			// Triples.
			let e = (&v[i].0, &v[i].1, &v[i].2) == (&v[j].0, &v[j].1, &v[j].2);
			let (x, _) = x.clone().into_triple();
			let (y, _) = y.clone().into_triple();
			let (xr, yr) = (x.as_ref(), y.as_ref());
			let xl = Triple(x.0.as_ref(), x.1.as_ref(), x.2.as_ref());
			let yl = Triple(y.0.as_ref(), y.1.as_ref(), y.2.as_ref());
			agree!(cx, "triple equality", x, y, e;
				"owned" : x == y,
				"components borrowed" : xr == yr,
				"term references" : xl == yl,
				"term references, owned" : xl == y,
			);
			let eo = (&x.0, &x.1, &x.2).cmp(&(&y.0, &y.1, &y.2));
			torder[i][j] = eo;
			teq[i][j] = e;
			agree!(cx, "triple order", x, y, eo;
				"owned" : x.cmp(&y),
				"components borrowed" : xr.cmp(&yr),
				"term references" : xl.cmp(&yl),
			);
			agree!(cx, "triple order", x, y, Some(eo);
				"owned, partial" : x.partial_cmp(&y),
				"components borrowed, partial" : xr.partial_cmp(&yr),
				"term references, partial" : xl.partial_cmp(&yl),
				"term references, owned" : xl.partial_cmp(&y),
			);
			if e {
				let eh = h(&x);
				agree!(cx, "triple hash", x, y, eh;
					"owned" : h(&y),
					"components borrowed" : h(&yr),
				);
			}
		}
	}
	total_order(cx, "quads", &names, &order, &eq)?;
	total_order(cx, "triples", &names, &torder, &teq)?;
	let hs: HashSet<Quad> = q.iter().take(6).cloned().collect();
	let bs: BTreeSet<Quad> = q.iter().take(6).cloned().collect();
	let model: BTreeSet<MSt> = v.iter().take(6).cloned().collect();
	for (i, x) in q.iter().enumerate() {
		let e = model.contains(&v[i]);
		agree!(cx, "lookup", x, model, e;
			"hash set" : hs.contains(x),
			"ordered set" : bs.contains(x),
		);
	}
	Ok(())
}

/// Values of a partial order: comparison gives up where components do.
pub fn c15_partial(cx: &mut Cx) -> Res {
	let f = [f64::NAN, 0.0, 1.0, -1.0, f64::INFINITY];
	let mut one = || *cx.rng.pick(&f);
	let a = (one(), one(), one(), one());
	let b = (one(), one(), one(), one());
	let ga = cx.rng.chance(2, 3).then_some(a.3);
	let gb = cx.rng.chance(2, 3).then_some(b.3);
	let x = Quad(a.0, a.1, a.2, ga);
	let y = Quad(b.0, b.1, b.2, gb);
	cx.distinct(&(format!("{x:?}"), format!("{y:?}")));
	let e = (a.0, a.1, a.2, ga).partial_cmp(&(b.0, b.1, b.2, gb));
	agree!(cx, "partial order", x, y, e; "quad" : x.partial_cmp(&y));
	let e = (a.0, a.1, a.2, ga) == (b.0, b.1, b.2, gb);
	agree!(cx, "equality", x, y, e; "quad" : x == y);
	let x = Triple(a.0, a.1, a.2);
	let y = Triple(b.0, b.1, b.2);
	let e = (a.0, a.1, a.2).partial_cmp(&(b.0, b.1, b.2));
	agree!(cx, "partial order", x, y, e; "triple" : x.partial_cmp(&y));
	let e = (a.0, a.1, a.2) == (b.0, b.1, b.2);
	agree!(cx, "equality", x, y, e; "triple" : x == y);
	Ok(())
}

// ---------------------------------------------------------------- C16

fn any_iri(cx: &mut Cx) -> MT {
	// Only the text matters here.
	if cx.rng.chance(1, 3) {
		let s = *cx.rng.pick(ODD_IRIS);
		if IriBuf::new(s.to_owned()).is_ok() {
			return MT::Iri(s.to_owned());
		}
	}
	random_iri(&mut cx.rng)
}

fn any_term(cx: &mut Cx) -> MT {
	match cx.rng.below(4) {
		0 => random_blank(&mut cx.rng),
		1 => any_iri(cx),
		2 => {
			let MT::Iri(i) = any_iri(cx) else { unreachable!() };
			MT::Lit(text(&mut cx.rng), MTy::Any(i))
		}
		_ => random_literal(&mut cx.rng),
	}
}

/// Every reading of a literal type must show `m`.
fn audit_type(cx: &mut Cx, t: &LiteralType, m: &MTy) -> Res {
	let xsd = *m == MTy::Any(crate::elem::XSD_STRING.to_owned());
	let lang_ = match m {
		MTy::Lang(l) => Some(l.as_str()),
		_ => None,
	};
	same(cx, "literal type", MTy::of(t), m.clone())?;
	same(cx, "type as_ref", MTy::of_ref(t.as_ref()), m.clone())?;
	same(cx, "type as_cow", MTy::of_cow(&t.as_cow()), m.clone())?;
	same(cx, "type into_cow", MTy::of_cow(&t.clone().into_cow()), m.clone())?;
	same(cx, "type as_ref, into_owned", MTy::of(&t.as_ref().into_owned()), m.clone())?;
	same(cx, "type as_cow, into_owned", MTy::of(&t.as_cow().into_owned()), m.clone())?;
	same(cx, "type as_cow, as_ref", MTy::of_ref(t.as_cow().as_ref()), m.clone())?;
	same(cx, "type into_cow, into", MTy::of(&LiteralType::from(t.clone().into_cow())), m.clone())?;
	same(cx, "type reference into cow", MTy::of_cow(&CowLiteralType::from(t.as_ref())), m.clone())?;
	same(cx, "is_lang_string", t.is_lang_string(), lang_.is_some())?;
	same(cx, "reference is_lang_string", t.as_ref().is_lang_string(), lang_.is_some())?;
	same(cx, "lang_tag", t.lang_tag().map(|l| l.as_str()), lang_)?;
	same(cx, "reference lang_tag", t.as_ref().lang_tag().map(|l| l.as_str()), lang_)?;
	same(cx, "is_xsd_string", t.is_xsd_string(), xsd)?;
	same(cx, "reference is_xsd_string", t.as_ref().is_xsd_string(), xsd)?;
	let other = iri("http://other.org/x#unused");
	same(cx, "is_iri of another", t.is_iri(&other), false)?;
	same(cx, "reference is_iri of another", t.as_ref().is_iri(&other), false)?;
	match m {
		MTy::Any(i) => {
			let i = iri(i);
			same(cx, "is_iri", t.is_iri(&i), true)?;
			same(cx, "reference is_iri", t.as_ref().is_iri(&i), true)?;
			same(cx, "cow from &Iri", MTy::of_cow(&CowLiteralType::from(i.as_iri())), m.clone())?;
			same(cx, "cow from IriBuf", MTy::of_cow(&CowLiteralType::from(i.clone())), m.clone())?;
			same(
				cx,
				"cow from Cow<Iri>",
				MTy::of_cow(&CowLiteralType::from(Cow::Borrowed(i.as_iri()))),
				m.clone(),
			)?;
			same(
				cx,
				"cow from owned Cow<Iri>",
				MTy::of_cow(&CowLiteralType::from(Cow::<Iri>::Owned(i.clone()))),
				m.clone(),
			)
		}
		MTy::Lang(l) => {
			let l = lang(l);
			same(
				cx,
				"cow from &LangTag",
				MTy::of_cow(&CowLiteralType::from(l.as_lang_tag())),
				m.clone(),
			)?;
			same(cx, "cow from LangTagBuf", MTy::of_cow(&CowLiteralType::from(l.clone())), m.clone())?;
			same(
				cx,
				"cow from Cow<LangTag>",
				MTy::of_cow(&CowLiteralType::from(Cow::Borrowed(l.as_lang_tag()))),
				m.clone(),
			)?;
			same(
				cx,
				"cow from owned Cow<LangTag>",
				MTy::of_cow(&CowLiteralType::from(Cow::<langtag::LangTag>::Owned(l.clone()))),
				m.clone(),
			)
		}
	}
}

fn audit_literal(cx: &mut Cx, l: &Literal, m: &MT) -> Res {
	let MT::Lit(v, t) = m else {
		return Err(format!("{m:?} became a literal"));
	};
	let is_lang = matches!(t, MTy::Lang(_));
	let tag = match t {
		MTy::Lang(l) => Some(l.as_str()),
		_ => None,
	};
	same(cx, "literal", lit_of(l), m.clone())?;
	audit_type(cx, l.as_type(), t)?;
	same(cx, "as_value", l.as_value().as_str(), v.as_str())?;
	same(cx, "as_str", l.as_str(), v.as_str())?;
	same(cx, "as_bytes", l.as_bytes(), v.as_bytes())?;
	same(cx, "AsRef<str>", <Literal as AsRef<str>>::as_ref(l), v.as_str())?;
	same(cx, "Borrow<str>", <Literal as Borrow<str>>::borrow(l), v.as_str())?;
	same(cx, "is_lang_string", l.is_lang_string(), is_lang)?;
	same(cx, "lang_tag", l.lang_tag().map(|l| l.as_str()), tag)?;
	same(cx, "into_type", MTy::of(&l.clone().into_type()), t.clone())?;
	same(cx, "into_value", l.clone().into_value(), v.clone())?;
	let (a, b) = l.clone().into_parts();
	same(cx, "into_parts", (a, MTy::of(&b)), (v.clone(), t.clone()))?;
	same(cx, "as_ref", lit_of_ref(l.as_ref()), m.clone())?;
	same(cx, "as_cow", lit_of_cow(&l.as_cow()), m.clone())?;
	same(cx, "into_cow", lit_of_cow(&l.clone().into_cow()), m.clone())?;
	same(cx, "From<&Literal>", lit_of_cow(&CowLiteral::from(l)), m.clone())?;
	same(cx, "as_cow, into_owned", lit_of(&l.as_cow().into_owned()), m.clone())?;
	same(cx, "into_cow, into_owned", lit_of(&l.clone().into_cow().into_owned()), m.clone())?;
	same(cx, "as_cow, as_ref", lit_of_ref(l.as_cow().as_ref()), m.clone())?;
	same(cx, "as_cow, clone", lit_of_cow(&l.as_cow().clone()), m.clone())?;
	let r = l.as_ref();
	same(cx, "reference to_owned", lit_of(&r.to_owned()), m.clone())?;
	same(cx, "reference cloned", lit_of(&r.cloned()), m.clone())?;
	same(cx, "reference into_cow", lit_of_cow(&r.into_cow()), m.clone())?;
	same(cx, "reference as_type", MTy::of_ref(r.as_type()), t.clone())?;
	same(cx, "reference into_type", MTy::of_ref(r.into_type()), t.clone())?;
	same(cx, "reference as_value", r.as_value(), v.as_str())?;
	same(cx, "reference into_value", r.into_value(), v.as_str())?;
	same(cx, "reference as_str", r.as_str(), v.as_str())?;
	same(cx, "reference as_bytes", r.as_bytes(), v.as_bytes())?;
	let (a, b) = r.into_parts();
	same(cx, "reference into_parts", (a.to_owned(), MTy::of_ref(b)), (v.clone(), t.clone()))?;
	same(cx, "reference is_lang_string", r.is_lang_string(), is_lang)?;
	same(cx, "reference lang_tag", r.lang_tag().map(|l| l.as_str()), tag)?;
	same(cx, "reference AsRef<str>", <LiteralRef as AsRef<str>>::as_ref(&r), v.as_str())?;
	same(cx, "reference Borrow<str>", <LiteralRef as Borrow<str>>::borrow(&r), v.as_str())?;
	same(cx, "new reference", lit_of_ref(LiteralRef::new(v, l.type_.as_ref())), m.clone())?;
	same(cx, "new", lit_of(&Literal::new(v.as_str(), t.build())), m.clone())?;
	same(cx, "new copy on write", lit_of_cow(&CowLiteral::new(v.as_str(), l.type_.as_ref())), m.clone())?;
	// Changing one part leaves the other.
	let nt = random_type(&mut cx.rng);
	let nv = text(&mut cx.rng);
	let mut c = l.clone();
	*c.as_type_mut() = nt.build();
	same(cx, "as_type_mut", lit_of(&c), MT::Lit(v.clone(), nt.clone()))?;
	let mut c = l.clone();
	*c.as_value_mut() = nv.clone();
	same(cx, "as_value_mut", lit_of(&c), MT::Lit(nv, t.clone()))?;
	let nb = nt.build();
	let mut r = l.as_ref();
	*r.as_type_mut() = nb.as_ref();
	same(cx, "reference as_type_mut", lit_of_ref(r), MT::Lit(v.clone(), nt))
}

fn audit_term(cx: &mut Cx, t: &Term, m: &MT) -> Res {
	let is_iri = matches!(m, MT::Iri(_));
	let text_iri = match m {
		MT::Iri(i) => Some(i.as_str()),
		_ => None,
	};
	same(cx, "term", term_of(t), m.clone())?;
	same(cx, "is_iri", t.is_iri(), is_iri)?;
	same(cx, "is_literal", t.is_literal(), !is_iri)?;
	same(cx, "as_iri", t.as_iri().map(|i| i.as_str()), text_iri)?;
	same(
		cx,
		"into_iri",
		t.clone().into_iri().map(|i| i.as_str().to_owned()),
		text_iri.map(str::to_owned),
	)?;
	match t.clone().try_into_iri() {
		Ok(i) => same(cx, "try_into_iri", Some(i.as_str()), text_iri)?,
		Err(o) => {
			ensure!(!is_iri, "try_into_iri fails on {m:?}");
			same(cx, "try_into_iri error", term_of(&o), m.clone())?
		}
	}
	same(
		cx,
		"as_literal",
		t.as_literal().map(lit_of_ref),
		(!is_iri).then(|| m.clone()),
	)?;
	same(
		cx,
		"into_literal",
		t.clone().into_literal().map(|l| lit_of(&l)),
		(!is_iri).then(|| m.clone()),
	)?;
	match t.clone().try_into_literal() {
		Ok(l) => same(cx, "try_into_literal", lit_of(&l), m.clone())?,
		Err(i) => same(cx, "try_into_literal error", Some(i.as_str()), text_iri)?,
	}
	same(cx, "as_ref", term_of_ref(t.as_ref()), m.clone())?;
	same(cx, "as_cow", term_of_cow(&t.as_cow()), m.clone())?;
	same(cx, "into_cow", term_of_cow(&t.clone().into_cow()), m.clone())?;
	same(cx, "From<Term>", term_of_cow(&CowTerm::from(t.clone())), m.clone())?;
	same(cx, "as_ref, to_owned", term_of(&t.as_ref().to_owned()), m.clone())?;
	same(cx, "as_cow, into_owned", term_of(&t.as_cow().into_owned()), m.clone())?;
	same(cx, "into_cow, into_owned", term_of(&t.clone().into_cow().into_owned()), m.clone())?;
	same(cx, "into local term", local_of(&LocalTerm::from(t.clone())), m.clone())?;
	match t {
		Term::Literal(l) => audit_literal(cx, l, m),
		Term::Iri(_) => Ok(()),
	}
}

fn audit_local(cx: &mut Cx, t: &LocalTerm, m: &MT) -> Res {
	let b = match m {
		MT::Blank(s) => Some(s.as_str()),
		_ => None,
	};
	let i = match m {
		MT::Iri(s) => Some(s.as_str()),
		_ => None,
	};
	let l = matches!(m, MT::Lit(..)).then(|| m.clone());
	same(cx, "local term", local_of(t), m.clone())?;
	same(cx, "is_anonymous", t.is_anonymous(), b.is_some())?;
	same(cx, "is_blank_id", t.is_blank_id(), b.is_some())?;
	same(cx, "as_anonymous", t.as_anonymous().map(|b| b.as_str()), b)?;
	same(cx, "as_blank_id", t.as_blank_id().map(|b| b.as_str()), b)?;
	same(cx, "as_iri", t.as_iri().map(|b| b.as_str()), i)?;
	same(cx, "as_literal", t.as_literal().map(lit_of_ref), l)?;
	same(cx, "as_ref", local_of_ref(t.as_ref()), m.clone())?;
	same(cx, "as_cow", local_of_cow(&t.as_cow()), m.clone())?;
	same(cx, "into_cow", local_of_cow(&t.clone().into_cow()), m.clone())?;
	same(cx, "From<LocalTerm>", local_of_cow(&CowLocalTerm::from(t.clone())), m.clone())?;
	same(cx, "as_ref, to_owned", local_of(&t.as_ref().to_owned()), m.clone())?;
	same(cx, "clone", local_of(&t.clone()), m.clone())?;
	match t {
		LocalTerm::Named(t) => audit_term(cx, t, m),
		LocalTerm::Anonymous(b) => audit_blank(cx, b, m),
	}
}

fn audit_blank(cx: &mut Cx, b: &BlankIdBuf, m: &MT) -> Res {
	let MT::Blank(s) = m else {
		return Err(format!("{m:?} became a blank node"));
	};
	let s = s.as_str();
	let r: &BlankId = b;
	same(cx, "BlankIdBuf", b.as_str(), s)?;
	same(cx, "deref", r.as_str(), s)?;
	same(cx, "suffix", r.suffix(), &s[2..])?;
	same(cx, "as_blank_id_ref", b.as_blank_id_ref().as_str(), s)?;
	same(cx, "AsRef<BlankId>", <BlankIdBuf as AsRef<BlankId>>::as_ref(b).as_str(), s)?;
	same(cx, "Borrow<BlankId>", <BlankIdBuf as Borrow<BlankId>>::borrow(b).as_str(), s)?;
	same(cx, "Borrow<BlankId> for &", <&BlankIdBuf as Borrow<BlankId>>::borrow(&b).as_str(), s)?;
	same(cx, "Into<&BlankId>", <&BlankId>::from(b).as_str(), s)?;
	same(cx, "AsRef<str>", <BlankIdBuf as AsRef<str>>::as_ref(b), s)?;
	same(cx, "Borrow<str>", <BlankIdBuf as Borrow<str>>::borrow(b), s)?;
	same(cx, "Borrow<str> for &", <&BlankIdBuf as Borrow<str>>::borrow(&b), s)?;
	same(cx, "AsRef<[u8]>", <BlankIdBuf as AsRef<[u8]>>::as_ref(b), s.as_bytes())?;
	same(cx, "BlankId AsRef<str>", <BlankId as AsRef<str>>::as_ref(r), s)?;
	same(cx, "BlankId Borrow<str>", <BlankId as Borrow<str>>::borrow(r), s)?;
	same(cx, "BlankId AsRef<[u8]>", <BlankId as AsRef<[u8]>>::as_ref(r), s.as_bytes())?;
	same(cx, "to_owned", r.to_owned().as_str(), s)?;
	same(cx, "clone", b.clone().as_str(), s)?;
	same(cx, "From<BlankIdBuf>", local_of(&LocalTerm::from(b.clone())), m.clone())
}

fn audit_id(cx: &mut Cx, id: &Id, m: &MT) -> Res {
	let i = match m {
		MT::Iri(s) => Some(s.as_str()),
		_ => None,
	};
	same(cx, "identifier", id_of(id), m.clone())?;
	same(cx, "as_iri", id.as_iri().map(|i| i.as_str()), i)?;
	same(cx, "as_ref", id_of_ref(id.as_ref()), m.clone())?;
	same(cx, "as_cow", id_of_cow(&id.as_cow()), m.clone())?;
	same(cx, "as_ref, to_owned", id_of(&id.as_ref().to_owned()), m.clone())?;
	same(cx, "as_ref, into_owned", id_of(&id.as_ref().into_owned()), m.clone())
}

pub fn c16_term(cx: &mut Cx) -> Res {
	let m = any_term(cx);
	cx.distinct(&m);
	cx.log(|| format!("{m:?}"));
	cx.sample(|| format!("{m:?}"));
	let mut t = m.local();
	audit_local(cx, &t, &m)?;
	// A random chain of conversions.
	for _ in 0..cx.rng.range(1, 6) {
		t = match cx.rng.below(8) {
			0 => t.as_ref().to_owned(),
			1 => t.clone(),
			2 => match t.into_cow() {
				CowLocalTerm::Anonymous(b) => LocalTerm::Anonymous(b.into_owned()),
				CowLocalTerm::Named(t) => LocalTerm::Named(t.into_owned()),
			},
			3 => {
				let u = match t.as_cow() {
					CowLocalTerm::Anonymous(b) => LocalTerm::from(b.into_owned()),
					CowLocalTerm::Named(t) => LocalTerm::from(t.into_owned()),
				};
				u
			}
			4 => match t {
				LocalTerm::Named(Term::Iri(i)) => LocalTerm::from(i),
				LocalTerm::Named(Term::Literal(l)) => LocalTerm::from(l),
				LocalTerm::Anonymous(b) => LocalTerm::from(b),
			},
			5 => match t {
				LocalTerm::Named(t) => match t.try_into_iri() {
					Ok(i) => LocalTerm::iri(i),
					Err(t) => LocalTerm::literal(t.into_literal().ok_or("literal lost")?),
				},
				b => b,
			},
			6 => match t {
				LocalTerm::Named(t) => match t.try_into_literal() {
					Ok(l) => LocalTerm::literal(l.as_ref().into_cow().into_owned()),
					Err(i) => LocalTerm::Named(CowTerm::from(Term::Iri(i)).into_owned()),
				},
				b => b,
			},
			_ => match (t.as_blank_id(), t.as_iri(), t.as_literal()) {
				(Some(b), None, None) => LocalTerm::Anonymous(b.to_owned()),
				(None, Some(i), None) => LocalTerm::iri(i.to_owned()),
				(None, None, Some(l)) => LocalTerm::literal(l.to_owned()),
				_ => return Err(format!("accessors disagree about {m:?}")),
			},
		};
		same(cx, "after a chain of conversions", local_of(&t), m.clone())?;
	}
	audit_local(cx, &t, &m)?;
	if let Some(id) = m.id() {
		audit_id(cx, &id, &m)?;
	}
	Ok(())
}

pub fn c16_statement(cx: &mut Cx) -> Res {
	let id = |cx: &mut Cx| {
		if cx.rng.chance(1, 2) {
			random_blank(&mut cx.rng)
		} else {
			any_iri(cx)
		}
	};
	let s = id(cx);
	let p = any_iri(cx);
	let o = any_term(cx);
	let g = if cx.rng.chance(2, 3) { Some(id(cx)) } else { None };
	let pi = || match &p {
		MT::Iri(i) => iri(i),
		_ => unreachable!(),
	};
	cx.distinct(&(&s, &p, &o, &g));
	let t: LexicalTriple = Triple(s.id().unwrap(), pi(), o.local());
	let r = t.as_lexical_triple_ref();
	let e = (s.clone(), p.clone(), o.clone());
	same(
		cx,
		"as_lexical_triple_ref",
		(id_of_ref(r.0), MT::Iri(r.1.as_str().to_owned()), local_of_ref(r.2)),
		e.clone(),
	)?;
	let b = r.into_owned();
	same(
		cx,
		"triple into_owned",
		(id_of(&b.0), MT::Iri(b.1.as_str().to_owned()), local_of(&b.2)),
		e,
	)?;
	let q: RdfQuad = Quad(s.id().unwrap(), pi(), o.local(), g.as_ref().map(|g| g.id().unwrap()));
	let r = q.as_lexical_quad_ref();
	let e = (s.clone(), p.clone(), o.clone(), g.clone());
	same(
		cx,
		"as_lexical_quad_ref",
		(
			id_of_ref(r.0),
			MT::Iri(r.1.as_str().to_owned()),
			local_of_ref(r.2),
			r.3.map(id_of_ref),
		),
		e.clone(),
	)?;
	let b = r.into_owned();
	same(
		cx,
		"quad into_owned",
		(
			id_of(&b.0),
			MT::Iri(b.1.as_str().to_owned()),
			local_of(&b.2),
			b.3.as_ref().map(id_of),
		),
		e,
	)
}

// ---------------------------------------------------------------- C25

pub fn c25_triple(cx: &mut Cx) -> Res {
	// Components of different types, so that the values tell where they are.
	let (s, p, o) = (cx.rng.next(), text(&mut cx.rng), any_char(&mut cx.rng));
	cx.distinct(&(s, &p, o));
	cx.sample(|| format!("({s:?}, {p:?}, {o:?})"));
	let t = || Triple(s, p.clone(), o);
	let parts = |t: Triple<u64, String, char>| (t.0, t.1, t.2);
	let e = (s, p.clone(), o);
	same(cx, "new", parts(Triple::new(s, p.clone(), o)), e.clone())?;
	same(cx, "subject", *t().subject(), s)?;
	same(cx, "predicate", t().predicate().clone(), p.clone())?;
	same(cx, "object", *t().object(), o)?;
	same(cx, "into_subject", t().into_subject(), s)?;
	same(cx, "into_predicate", t().into_predicate(), p.clone())?;
	same(cx, "into_object", t().into_object(), o)?;
	same(cx, "into_parts", t().into_parts(), e.clone())?;
	let x = t();
	let r = x.as_ref();
	same(cx, "as_ref", (*r.0, r.1.clone(), *r.2), e.clone())?;
	same(cx, "cloned", parts(r.cloned()), e.clone())?;
	same(cx, "into_cloned", parts(r.into_cloned()), e.clone())?;
	let c = Triple(s, o, o as u32);
	let c = c.as_ref();
	same(cx, "copied", c.copied().into_parts(), (s, o, o as u32))?;
	same(cx, "into_copied", c.into_copied().into_parts(), (s, o, o as u32))?;
	let mut x = t();
	*x.subject_mut() = 7;
	same(cx, "subject_mut", parts(x), (7, p.clone(), o))?;
	let mut x = t();
	x.predicate_mut().push('!');
	same(cx, "predicate_mut", parts(x), (s, format!("{p}!"), o))?;
	let mut x = t();
	*x.object_mut() = 'z';
	same(cx, "object_mut", parts(x), (s, p.clone(), 'z'))?;
	same(cx, "map_subject", t().map_subject(|x| (x, 1)).into_parts(), ((s, 1), p.clone(), o))?;
	same(cx, "map_predicate", t().map_predicate(|x| (x, 1)).into_parts(), (s, (p.clone(), 1), o))?;
	same(cx, "map_object", t().map_object(|x| (x, 1)).into_parts(), (s, p.clone(), (o, 1)))?;
	let g = cx.rng.chance(1, 2).then_some(3.5f32);
	same(cx, "into_quad", t().into_quad(g).into_parts(), (s, p.clone(), o, g))?;
	let v: [u64; 3] = [cx.rng.next(), cx.rng.next(), cx.rng.next()];
	let mut seen = Vec::new();
	let m = Triple(v[0], v[1], v[2]).map(|x| {
		seen.push(x);
		(x, seen.len())
	});
	same(cx, "map", m.into_parts(), ((v[0], 1), (v[1], 2), (v[2], 3)))?;
	same(cx, "map, calls", seen, v.to_vec())
}

pub fn c25_quad(cx: &mut Cx) -> Res {
	let (s, p, o) = (cx.rng.next(), text(&mut cx.rng), any_char(&mut cx.rng));
	let g: Option<Vec<u8>> = cx.rng.chance(2, 3).then(|| vec![s as u8, 1]);
	cx.distinct(&(s, &p, o, &g));
	type Q = Quad<u64, String, char, Vec<u8>>;
	let q = || -> Q { Quad(s, p.clone(), o, g.clone()) };
	let parts = |t: Q| (t.0, t.1, t.2, t.3);
	let e = (s, p.clone(), o, g.clone());
	same(cx, "new", parts(Quad::new(s, p.clone(), o, g.clone())), e.clone())?;
	same(cx, "subject", *q().subject(), s)?;
	same(cx, "predicate", q().predicate().clone(), p.clone())?;
	same(cx, "object", *q().object(), o)?;
	same(cx, "graph", q().graph().cloned(), g.clone())?;
	same(cx, "into_subject", q().into_subject(), s)?;
	same(cx, "into_predicate", q().into_predicate(), p.clone())?;
	same(cx, "into_object", q().into_object(), o)?;
	same(cx, "into_graph", q().into_graph(), g.clone())?;
	same(cx, "into_parts", q().into_parts(), e.clone())?;
	let (t, tg) = q().into_triple();
	same(cx, "into_triple", (t.into_parts(), tg), ((s, p.clone(), o), g.clone()))?;
	let x = q();
	let r = x.as_ref();
	let un = |r: Quad<&u64, &String, &char, &Vec<u8>>| (*r.0, r.1.clone(), *r.2, r.3.cloned());
	same(cx, "as_ref", un(r), e.clone())?;
	#[allow(deprecated)]
	let b = x.borrow_components();
	same(cx, "borrow_components", un(b), e.clone())?;
	same(cx, "cloned", parts(r.cloned()), e.clone())?;
	same(cx, "into_cloned", parts(r.into_cloned()), e.clone())?;
	let gc = g.as_ref().map(|_| 2.5f64);
	let c = Quad(s, o, o as u32, gc);
	let c = c.as_ref();
	same(cx, "copied", c.copied().into_parts(), (s, o, o as u32, gc))?;
	same(cx, "into_copied", c.into_copied().into_parts(), (s, o, o as u32, gc))?;
	let mut x = q();
	*x.subject_mut() = 7;
	same(cx, "subject_mut", parts(x), (7, p.clone(), o, g.clone()))?;
	let mut x = q();
	x.predicate_mut().push('!');
	same(cx, "predicate_mut", parts(x), (s, format!("{p}!"), o, g.clone()))?;
	let mut x = q();
	*x.object_mut() = 'z';
	same(cx, "object_mut", parts(x), (s, p.clone(), 'z', g.clone()))?;
	let mut x = q();
	if let Some(y) = x.graph_mut() {
		y.push(9)
	}
	let ng = g.clone().map(|mut g| {
		g.push(9);
		g
	});
	same(cx, "graph_mut", parts(x), (s, p.clone(), o, ng))?;
	same(cx, "map_subject", q().map_subject(|x| (x, 1)).into_parts(), ((s, 1), p.clone(), o, g.clone()))?;
	same(cx, "map_predicate", q().map_predicate(|x| (x, 1)).into_parts(), (s, (p.clone(), 1), o, g.clone()))?;
	same(cx, "map_object", q().map_object(|x| (x, 1)).into_parts(), (s, p.clone(), (o, 1), g.clone()))?;
	let mut seen = None;
	let m = q().map_graph(|x| {
		seen = Some(x.clone());
		x.map(|x| (x, 1))
	});
	same(cx, "map_graph", m.into_parts(), (s, p.clone(), o, g.clone().map(|g| (g, 1))))?;
	same(cx, "map_graph argument", seen, Some(g.clone()))?;
	same(cx, "map_graph to none", q().map_graph(|_| None::<u8>).into_parts(), (s, p.clone(), o, None))?;
	same(
		cx,
		"map_graph to some",
		q().map_graph(|_| Some(4u8)).into_parts(),
		(s, p.clone(), o, Some(4u8)),
	)?;
	for ng in [None, Some(vec![5u8])] {
		same(cx, "with_graph", parts(q().with_graph(ng.clone())), (s, p.clone(), o, ng))?;
	}
	let m = q().map_all(
		|s| (s, 's'),
		|p| (p, 'p'),
		|o| (o, 'o'),
		|g| g.map(|g| (g, 'g')),
	);
	same(
		cx,
		"map_all",
		m.into_parts(),
		((s, 's'), (p.clone(), 'p'), (o, 'o'), g.clone().map(|g| (g, 'g'))),
	)?;
	let v: [u64; 4] = [cx.rng.next(), cx.rng.next(), cx.rng.next(), cx.rng.next()];
	let mut calls = Vec::new();
	let m = Quad(v[0], v[1], v[2], g.as_ref().map(|_| v[3])).map(|x| {
		calls.push(x);
		(x, calls.len())
	});
	same(
		cx,
		"map",
		m.into_parts(),
		((v[0], 1), (v[1], 2), (v[2], 3), g.as_ref().map(|_| (v[3], 4))),
	)?;
	same(cx, "map, calls", calls, v[..3 + g.is_some() as usize].to_vec())?;

	// Order.
	let mk = |cx: &mut Cx| {
		let a = (
			cx.rng.below(2) as u8,
			cx.rng.below(2) as u8,
			cx.rng.below(2) as u8,
			match cx.rng.below(3) {
				0 => None,
				n => Some(n as u8),
			},
		);
		a
	};
	let (a, b) = (mk(cx), mk(cx));
	let (x, y) = (Quad(a.0, a.1, a.2, a.3), Quad(b.0, b.1, b.2, b.3));
	let e = (a.0, a.1, a.2, a.3).cmp(&(b.0, b.1, b.2, b.3));
	same(cx, &format!("{x:?} compared with {y:?}"), x.cmp(&y), e)?;
	same(cx, &format!("{x:?} compared with {y:?}, partially"), x.partial_cmp(&y), Some(e))?;
	same(cx, &format!("{x:?} equal to {y:?}"), x == y, a == b)?;
	let (x, y) = (Triple(a.0, a.1, a.2), Triple(b.0, b.1, b.2));
	let e = (a.0, a.1, a.2).cmp(&(b.0, b.1, b.2));
	same(cx, &format!("{x:?} compared with {y:?}"), x.cmp(&y), e)?;
	same(cx, &format!("{x:?} compared with {y:?}, partially"), x.partial_cmp(&y), Some(e))?;
	same(cx, &format!("{x:?} equal to {y:?}"), x == y, (a.0, a.1, a.2) == (b.0, b.1, b.2))
}
