//! Resource types used in the container workloads.
use rdf_types::{BlankIdBuf, IriBuf, Literal, LiteralType, LocalTerm};
use std::fmt::Debug;
use std::hash::Hash;

use crate::common::Rng;

/// Statement of the reference model. Plain tuples, so that the model does not
/// rely on the comparisons of the code under test.
pub type St<E> = (E, E, E, Option<E>);

pub trait Elem: Clone + Ord + Hash + Debug + Send + Sync + 'static {
	const NAME: &'static str;

	/// The `i`-th of a family of distinct values, whose order is unrelated to
	/// their index.
	fn nth(i: usize) -> Self;
}

impl Elem for u32 {
	const NAME: &'static str = "u32";
	fn nth(i: usize) -> Self {
		(i as u32).wrapping_mul(2654435761)
	}
}

impl Elem for String {
	const NAME: &'static str = "String";
	fn nth(i: usize) -> Self {
		// Many shared prefixes, including prefixes of each other and "".
		let i = i.wrapping_mul(7919) % 1_000_003;
		let mut s = String::new();
		let mut j = i;
		while j > 0 {
			s.push(['a', 'b', 'é', '\u{0}'][j % 4]);
			j /= 4;
		}
		s
	}
}

/// Value with a reversed order.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rev(pub u16);

impl PartialOrd for Rev {
	fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(other))
	}
}

impl Ord for Rev {
	fn cmp(&self, other: &Self) -> std::cmp::Ordering {
		other.0.cmp(&self.0)
	}
}

impl Elem for Rev {
	const NAME: &'static str = "Rev";
	fn nth(i: usize) -> Self {
		Rev((i as u16).wrapping_mul(40503))
	}
}

pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_owned()).unwrap_or_else(|e| panic!("harness: invalid IRI {:?}", e.0))
}

pub fn lang(s: &str) -> langtag::LangTagBuf {
	langtag::LangTagBuf::new(s.to_owned()).unwrap_or_else(|_| panic!("harness: invalid tag {s}"))
}

pub const XSD_STRING: &str = "http://www.w3.org/2001/XMLSchema#string";

impl Elem for LocalTerm {
	const NAME: &'static str = "LocalTerm";
	fn nth(i: usize) -> Self {
		// Near collisions: the same text as blank node, IRI or literal.
		let k = i / 6;
		match i % 6 {
			0 => LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{k}")).unwrap()),
			1 => LocalTerm::iri(iri(&format!("http://e.org/b{k}"))),
			2 => LocalTerm::literal(Literal::new(
				format!("_:b{k}"),
				LiteralType::Any(iri(XSD_STRING)),
			)),
			3 => LocalTerm::literal(Literal::new(
				format!("http://e.org/b{k}"),
				LiteralType::Any(iri(XSD_STRING)),
			)),
			4 => LocalTerm::literal(Literal::new(
				format!("_:b{k}"),
				LiteralType::LangString(lang(["en", "fr", "en-US"][k % 3])),
			)),
			_ => LocalTerm::literal(Literal::new(
				format!("_:b{k}"),
				LiteralType::Any(iri("http://e.org/t")),
			)),
		}
	}
}

/// Random universe of `n` distinct resources.
pub fn universe<E: Elem>(rng: &mut Rng, n: usize) -> Vec<E> {
	let base = rng.below(50);
	let mut u: Vec<E> = (0..n).map(|i| E::nth(base + i)).collect();
	rng.shuffle(&mut u);
	u
}

/// Random statement over `u`; `graphs` tells whether the statement may be in a
/// named graph. Resources are shared between positions on purpose.
pub fn statement<E: Elem>(rng: &mut Rng, u: &[E], graphs: bool) -> St<E> {
	let s = rng.pick(u).clone();
	let p = if rng.chance(1, 6) {
		s.clone()
	} else {
		rng.pick(u).clone()
	};
	let o = if rng.chance(1, 6) {
		s.clone()
	} else if rng.chance(1, 10) {
		p.clone()
	} else {
		rng.pick(u).clone()
	};
	let g = if !graphs || rng.chance(1, 3) {
		None
	} else if rng.chance(1, 8) {
		Some(s.clone())
	} else {
		Some(rng.pick(u).clone())
	};
	(s, p, o, g)
}
