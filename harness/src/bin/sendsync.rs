//! C24, the part decided by the compiler: what can be shared between threads
//! and sent to another one when its resources can. Each line printed is one type.
use std::any::type_name;

use rdf_types::dataset::isomorphism::BTreeBijection;
use rdf_types::dataset::*;
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::{WithGenerator, WithLocalGenerator};
use rdf_types::pattern::{triple::map::*, *};
use rdf_types::*;

fn shared<T: Send + Sync>() {
	println!("SHARED {}", type_name::<T>());
}

fn sent<T: Send>() {
	println!("SENT {}", type_name::<T>());
}

fn shared_value<T: Send + Sync>(_: T) {
	println!("SHARED {}", type_name::<T>());
}

fn containers<R: Send + Sync + Ord + Clone>() {
	shared::<BTreeGraph<R>>();
	shared::<BTreeDataset<R>>();
	shared::<IndexedBTreeGraph<R>>();
	shared::<IndexedBTreeDataset<R>>();
	let mut g = BTreeGraph::<R>::new();
	let mut d = BTreeDataset::<R>::new();
	let mut ig = IndexedBTreeGraph::<R>::new();
	let mut id = IndexedBTreeDataset::<R>::new();
	shared_value(g.iter());
	shared_value(g.resources());
	shared_value(d.iter());
	shared_value(d.resources());
	shared_value(ig.iter());
	shared_value(ig.resources());
	shared_value(ig.subjects());
	shared_value(ig.predicates());
	shared_value(ig.objects());
	shared_value(ig.pattern_matching(CanonicalTriplePattern::from_option_triple(Triple(
		None, None, None,
	))));
	shared_value(id.iter());
	shared_value(id.resources());
	shared_value(id.subjects());
	shared_value(id.predicates());
	shared_value(id.objects());
	shared_value(id.named_graphs());
	shared_value(id.pattern_matching(CanonicalQuadPattern::from_option_quad(Quad(
		None, None, None, None,
	))));
	shared_value(id.extract_pattern_matching(CanonicalQuadPattern::from_option_quad(Quad(
		None, None, None, None,
	))));
	shared_value(&mut g);
	shared_value(&mut d);
	shared_value(&mut ig);
	shared_value(&mut id);
	shared_value(g.into_iter());
	shared_value(d.into_iter());
	shared_value(ig.into_iter());
	shared_value(id.into_iter());
}

fn generic<R: Send + Sync + Ord + std::hash::Hash + 'static>() {
	shared::<Triple<R>>();
	shared::<Quad<R>>();
	shared::<CanonicalTriplePattern<R>>();
	shared::<CanonicalQuadPattern<R>>();
	shared::<ResourceOrVar<R, R>>();
	shared::<TriplePatternMap<R, R>>();
	shared::<BTreeBijection<'static, 'static, R>>();
}

fn main() {
	containers::<u32>();
	containers::<String>();
	containers::<LocalTerm>();
	generic::<u32>();
	generic::<LocalTerm>();
	shared::<&'static BlankId>();
	shared::<BlankIdBuf>();
	shared::<InvalidBlankId<String>>();
	shared::<Id>();
	shared::<Literal>();
	shared::<LiteralType>();
	shared::<Term>();
	shared::<LocalTerm>();
	shared::<TermRef<'static>>();
	shared::<CowTerm<'static>>();
	shared::<LocalTermRef<'static>>();
	shared::<CowLocalTerm<'static>>();
	shared::<Blank>();
	sent::<LocalGeneratorInterpretation<Blank>>();
	shared::<WithGenerator<(), Blank>>();
	shared::<WithLocalGenerator<(), Blank>>();
}
