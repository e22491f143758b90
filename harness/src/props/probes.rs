//! Inputs on which the library is known to break a property: each is tried on every
//! run, and reported as known when the list of known findings has it, as a violation
//! when it has not.
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use rdf_types::generator::Blank;
use rdf_types::*;

use crate::common::*;
use crate::elem::{iri, XSD_STRING};
use crate::ensure;
use crate::props::terms::grammar;

/// A probe: what fails, as the list of known findings names it, and the observation.
pub type Probe = (&'static str, fn() -> Res);

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut s = DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}

fn literal() -> Literal {
	Literal::new("a".to_owned(), LiteralType::Any(iri(XSD_STRING)))
}

pub fn probes(prop: &str) -> &'static [Probe] {
	match prop {
		"C15" => &[
			("comparing IRI http://e.org/%FF", || {
				no_panic("comparing <http://e.org/%FF> with itself", || {
					let t = LocalTerm::iri(iri("http://e.org/%FF"));
					let u = t.clone();
					t == u && t.cmp(&u).is_eq()
				})
				.and_then(|e| {
					ensure!(e, "<http://e.org/%FF> is not equal to itself");
					Ok(())
				})
			}),
			("Literal as Borrow<str>", || {
				let l = literal();
				let s: &str = l.borrow();
				ensure!(h(&l) == h(s), "\"a\" hashes differently when borrowed as {s:?}");
				Ok(())
			}),
			("LiteralRef as Borrow<str>", || {
				let l = literal();
				let l = l.as_ref();
				let s: &str = l.borrow();
				ensure!(h(&l) == h(s), "\"a\" hashes differently when borrowed as {s:?}");
				Ok(())
			}),
		],
		"C18" => &[("prefix \"a b\"", || {
			let mut g = Blank::new_with_prefix("a b".to_owned());
			// Refusing the prefix would do.
			if let Ok(b) = no_panic("next_blank_id", || g.next_blank_id()) {
				ensure!(
					grammar::blank_node_label(b.as_str()),
					"a generator with prefix \"a b\" yields {:?}, not a blank node label",
					b.as_str()
				);
			}
			Ok(())
		})],
		_ => &[],
	}
}
