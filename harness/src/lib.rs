//! Runtime monitors for rdf-types.
#![allow(clippy::type_complexity)]
pub mod common;
#[cfg(feature = "full")]
pub mod driver;
pub mod elem;
pub mod hist;
pub mod mterm;
pub mod pat;
#[cfg(feature = "full")]
pub mod props;
pub mod store;
pub mod track;
#[cfg(feature = "full")]
pub mod tree;
