//! A serialization format that checks what is announced to it: lengths, names and
//! kinds, and reads in several manners allowed to formats (compact or by name,
//! borrowed or owned text, with or without a known length).
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
	Unit,
	Bool(bool),
	Int(i128),
	Float(f64),
	Str(String),
	Bytes(Vec<u8>),
	None,
	Some(Box<Tree>),
	Seq(Vec<Tree>),
	/// Fields of a structure, in order.
	Struct(Vec<(&'static str, Tree)>),
	Map(Vec<(Tree, Tree)>),
	/// Variant of an enumeration.
	Variant(u32, &'static str, Box<Tree>),
}

#[derive(Debug)]
pub struct Error(pub String);

impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}

impl std::error::Error for Error {}

impl ser::Error for Error {
	fn custom<T: fmt::Display>(m: T) -> Self {
		Self(m.to_string())
	}
}

impl de::Error for Error {
	fn custom<T: fmt::Display>(m: T) -> Self {
		Self(m.to_string())
	}
}

// ------------------------------------------------------------------- writing

#[derive(Clone, Copy)]
pub struct Writer {
	pub human_readable: bool,
}

pub struct Many {
	writer: Writer,
	announced: Option<usize>,
	items: Vec<Tree>,
	variant: Option<(u32, &'static str)>,
}

pub struct Fields {
	writer: Writer,
	announced: usize,
	fields: Vec<(&'static str, Tree)>,
	variant: Option<(u32, &'static str)>,
}

pub struct Entries {
	writer: Writer,
	announced: Option<usize>,
	entries: Vec<(Tree, Tree)>,
	key: Option<Tree>,
}

impl Many {
	fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
		self.items.push(v.serialize(self.writer)?);
		Ok(())
	}

	fn close(self) -> Result<Tree, Error> {
		if self.announced.is_some_and(|n| n != self.items.len()) {
			return Err(Error(format!(
				"{:?} elements are announced, {} are written",
				self.announced,
				self.items.len()
			)));
		}
		let t = Tree::Seq(self.items);
		Ok(match self.variant {
			Some((i, n)) => Tree::Variant(i, n, Box::new(t)),
			None => t,
		})
	}
}

impl Fields {
	fn push<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<(), Error> {
		if self.fields.iter().any(|f| f.0 == key) {
			return Err(Error(format!("field {key} is written twice")));
		}
		self.fields.push((key, v.serialize(self.writer)?));
		Ok(())
	}

	fn close(self) -> Result<Tree, Error> {
		if self.announced != self.fields.len() {
			return Err(Error(format!(
				"{} fields are announced, {} are written",
				self.announced,
				self.fields.len()
			)));
		}
		let t = Tree::Struct(self.fields);
		Ok(match self.variant {
			Some((i, n)) => Tree::Variant(i, n, Box::new(t)),
			None => t,
		})
	}
}

macro_rules! int {
	($($name:ident $ty:ty),*) => {
		$(fn $name(self, v: $ty) -> Result<Tree, Error> { Ok(Tree::Int(v as i128)) })*
	};
}

impl ser::Serializer for Writer {
	type Ok = Tree;
	type Error = Error;
	type SerializeSeq = Many;
	type SerializeTuple = Many;
	type SerializeTupleStruct = Many;
	type SerializeTupleVariant = Many;
	type SerializeMap = Entries;
	type SerializeStruct = Fields;
	type SerializeStructVariant = Fields;

	int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
		serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);

	fn is_human_readable(&self) -> bool {
		self.human_readable
	}
	fn serialize_bool(self, v: bool) -> Result<Tree, Error> {
		Ok(Tree::Bool(v))
	}
	fn serialize_f32(self, v: f32) -> Result<Tree, Error> {
		Ok(Tree::Float(v as f64))
	}
	fn serialize_f64(self, v: f64) -> Result<Tree, Error> {
		Ok(Tree::Float(v))
	}
	fn serialize_char(self, v: char) -> Result<Tree, Error> {
		Ok(Tree::Str(v.to_string()))
	}
	fn serialize_str(self, v: &str) -> Result<Tree, Error> {
		Ok(Tree::Str(v.to_owned()))
	}
	fn serialize_bytes(self, v: &[u8]) -> Result<Tree, Error> {
		Ok(Tree::Bytes(v.to_vec()))
	}
	fn serialize_none(self) -> Result<Tree, Error> {
		Ok(Tree::None)
	}
	fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tree, Error> {
		Ok(Tree::Some(Box::new(v.serialize(self)?)))
	}
	fn serialize_unit(self) -> Result<Tree, Error> {
		Ok(Tree::Unit)
	}
	fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, Error> {
		Ok(Tree::Unit)
	}
	fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Tree, Error> {
		Ok(Tree::Variant(i, v, Box::new(Tree::Unit)))
	}
	fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tree, Error> {
		v.serialize(self)
	}
	fn serialize_newtype_variant<T: Serialize + ?Sized>(
		self,
		_: &'static str,
		i: u32,
		n: &'static str,
		v: &T,
	) -> Result<Tree, Error> {
		Ok(Tree::Variant(i, n, Box::new(v.serialize(self)?)))
	}
	fn serialize_seq(self, len: Option<usize>) -> Result<Many, Error> {
		Ok(Many {
			writer: self,
			announced: len,
			items: Vec::new(),
			variant: None,
		})
	}
	fn serialize_tuple(self, len: usize) -> Result<Many, Error> {
		self.serialize_seq(Some(len))
	}
	fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Many, Error> {
		self.serialize_seq(Some(len))
	}
	fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, len: usize) -> Result<Many, Error> {
		Ok(Many {
			writer: self,
			announced: Some(len),
			items: Vec::new(),
			variant: Some((i, n)),
		})
	}
	fn serialize_map(self, len: Option<usize>) -> Result<Entries, Error> {
		Ok(Entries {
			writer: self,
			announced: len,
			entries: Vec::new(),
			key: None,
		})
	}
	fn serialize_struct(self, _: &'static str, len: usize) -> Result<Fields, Error> {
		Ok(Fields {
			writer: self,
			announced: len,
			fields: Vec::new(),
			variant: None,
		})
	}
	fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, len: usize) -> Result<Fields, Error> {
		Ok(Fields {
			writer: self,
			announced: len,
			fields: Vec::new(),
			variant: Some((i, n)),
		})
	}
}

macro_rules! many {
	($($tr:ident $f:ident),*) => {
		$(impl ser::$tr for Many {
			type Ok = Tree;
			type Error = Error;
			fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
				self.push(v)
			}
			fn end(self) -> Result<Tree, Error> {
				self.close()
			}
		})*
	};
}

many!(SerializeSeq serialize_element, SerializeTuple serialize_element,
	SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! fields {
	($($tr:ident),*) => {
		$(impl ser::$tr for Fields {
			type Ok = Tree;
			type Error = Error;
			fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<(), Error> {
				self.push(key, v)
			}
			fn end(self) -> Result<Tree, Error> {
				self.close()
			}
		})*
	};
}

fields!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for Entries {
	type Ok = Tree;
	type Error = Error;

	fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
		if self.key.is_some() {
			return Err(Error("a key is written without its value".to_owned()));
		}
		self.key = Some(k.serialize(self.writer)?);
		Ok(())
	}
	fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
		let k = self.key.take().ok_or_else(|| Error("a value is written without its key".to_owned()))?;
		self.entries.push((k, v.serialize(self.writer)?));
		Ok(())
	}
	fn end(self) -> Result<Tree, Error> {
		if self.announced.is_some_and(|n| n != self.entries.len()) {
			return Err(Error("a map has not the announced length".to_owned()));
		}
		Ok(Tree::Map(self.entries))
	}
}

// ------------------------------------------------------------------- reading

/// Manner of reading.
#[derive(Clone, Copy, Debug)]
pub struct Manner {
	/// 0: borrowed, 1: transient, 2: owned.
	pub text: u8,
	/// Lengths are known.
	pub lengths: bool,
	/// Structures are read as sequences where their type is known.
	pub compact: bool,
	/// Fields and variants are identified by their number.
	pub numbers: bool,
	pub human_readable: bool,
}

impl Manner {
	pub fn nth(n: usize) -> Self {
		Self {
			text: (n % 3) as u8,
			lengths: n / 3 % 2 == 0,
			compact: n / 6 % 2 == 0,
			numbers: n / 12 % 2 == 0,
			human_readable: n / 24 % 2 == 0,
		}
	}

	pub const COUNT: usize = 48;
}

#[derive(Clone, Copy)]
pub struct Reader<'de>(pub &'de Tree, pub Manner);

struct Items<'de>(std::slice::Iter<'de, Tree>, Manner);

impl<'de> de::SeqAccess<'de> for Items<'de> {
	type Error = Error;
	fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
		match self.0.next() {
			Some(t) => seed.deserialize(Reader(t, self.1)).map(Some),
			None => Ok(None),
		}
	}
	fn size_hint(&self) -> Option<usize> {
		self.1.lengths.then_some(self.0.len())
	}
}

/// Fields as a sequence.
struct Values<'de>(std::slice::Iter<'de, (&'static str, Tree)>, Manner);

impl<'de> de::SeqAccess<'de> for Values<'de> {
	type Error = Error;
	fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
		match self.0.next() {
			Some(t) => seed.deserialize(Reader(&t.1, self.1)).map(Some),
			None => Ok(None),
		}
	}
	fn size_hint(&self) -> Option<usize> {
		self.1.lengths.then_some(self.0.len())
	}
}

/// Fields by name or number.
struct Named<'de>(std::iter::Enumerate<std::slice::Iter<'de, (&'static str, Tree)>>, Option<&'de Tree>, Manner, bool);

impl<'de> de::MapAccess<'de> for Named<'de> {
	type Error = Error;
	fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
		match self.0.next() {
			Some((i, (k, v))) => {
				self.1 = Some(v);
				if self.2.numbers && self.3 {
					seed.deserialize((i as u64).into_deserializer()).map(Some)
				} else {
					seed.deserialize((*k).into_deserializer()).map(Some)
				}
			}
			None => Ok(None),
		}
	}
	fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
		seed.deserialize(Reader(self.1.take().unwrap(), self.2))
	}
	fn size_hint(&self) -> Option<usize> {
		self.2.lengths.then_some(self.0.len())
	}
}

struct Pairs<'de>(std::slice::Iter<'de, (Tree, Tree)>, Option<&'de Tree>, Manner);

impl<'de> de::MapAccess<'de> for Pairs<'de> {
	type Error = Error;
	fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
		match self.0.next() {
			Some((k, v)) => {
				self.1 = Some(v);
				seed.deserialize(Reader(k, self.2)).map(Some)
			}
			None => Ok(None),
		}
	}
	fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
		seed.deserialize(Reader(self.1.take().unwrap(), self.2))
	}
}

/// The variant of an enumeration.
struct Chosen<'de>(u32, &'static str, &'de Tree, Manner);

impl<'de> de::EnumAccess<'de> for Chosen<'de> {
	type Error = Error;
	type Variant = Reader<'de>;
	fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Reader<'de>), Error> {
		let v = if self.3.numbers {
			seed.deserialize((self.0 as u64).into_deserializer())
		} else {
			seed.deserialize(self.1.into_deserializer())
		};
		v.map(|v: T::Value| (v, Reader(self.2, self.3)))
	}
}

impl<'de> de::VariantAccess<'de> for Reader<'de> {
	type Error = Error;
	fn unit_variant(self) -> Result<(), Error> {
		match self.0 {
			Tree::Unit => Ok(()),
			t => Err(Error(format!("{t:?} where a variant without content is expected"))),
		}
	}
	fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
		seed.deserialize(self)
	}
	fn tuple_variant<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Error> {
		de::Deserializer::deserialize_tuple(self, len, v)
	}
	fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], v: V) -> Result<V::Value, Error> {
		de::Deserializer::deserialize_struct(self, "", fields, v)
	}
}

/// A variant where nothing tells that one is expected.
struct Single<'de>(Option<(&'static str, &'de Tree)>, Manner);

impl<'de> de::MapAccess<'de> for Single<'de> {
	type Error = Error;
	fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
		match &self.0 {
			Some((n, _)) => seed.deserialize((*n).into_deserializer()).map(Some),
			None => Ok(None),
		}
	}
	fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
		seed.deserialize(Reader(self.0.take().unwrap().1, self.1))
	}
}

fn whole<'de, T>(value: Result<T, Error>, left: usize) -> Result<T, Error> {
	match value {
		Ok(_) if left > 0 => Err(Error(format!("{left} elements are not read"))),
		v => v,
	}
}

impl<'de> Reader<'de> {
	fn str<V: Visitor<'de>>(self, s: &'de str, v: V) -> Result<V::Value, Error> {
		match self.1.text {
			0 => v.visit_borrowed_str(s),
			1 => v.visit_str(&s.to_owned()),
			_ => v.visit_string(s.to_owned()),
		}
	}

	fn seq<V: Visitor<'de>>(self, items: &'de [Tree], v: V) -> Result<V::Value, Error> {
		let mut a = Items(items.iter(), self.1);
		let r = v.visit_seq(&mut a);
		whole(r, a.0.len())
	}
}

macro_rules! any {
	($($name:ident),*) => {
		$(fn $name<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) })*
	};
}

impl<'de> de::Deserializer<'de> for Reader<'de> {
	type Error = Error;

	fn is_human_readable(&self) -> bool {
		self.1.human_readable
	}

	fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
		match self.0 {
			Tree::Unit => v.visit_unit(),
			Tree::Bool(b) => v.visit_bool(*b),
			Tree::Int(i) => match (u64::try_from(*i), i64::try_from(*i)) {
				(Ok(i), _) => v.visit_u64(i),
				(_, Ok(i)) => v.visit_i64(i),
				_ => v.visit_i128(*i),
			},
			Tree::Float(f) => v.visit_f64(*f),
			Tree::Str(s) => self.str(s, v),
			Tree::Bytes(b) => v.visit_bytes(b),
			Tree::None => v.visit_none(),
			Tree::Some(t) => v.visit_some(Reader(t, self.1)),
			Tree::Seq(items) => self.seq(items, v),
			Tree::Struct(fields) => {
				let mut a = Named(fields.iter().enumerate(), None, self.1, false);
				let r = v.visit_map(&mut a);
				whole(r, a.0.len())
			}
			Tree::Map(entries) => {
				let mut a = Pairs(entries.iter(), None, self.1);
				let r = v.visit_map(&mut a);
				whole(r, a.0.len())
			}
			Tree::Variant(_, n, t) => match **t {
				Tree::Unit => v.visit_str(n),
				_ => v.visit_map(Single(Some((n, t)), self.1)),
			},
		}
	}

	fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
		match self.0 {
			Tree::None => v.visit_none(),
			Tree::Some(t) => v.visit_some(Reader(t, self.1)),
			_ => v.visit_some(self),
		}
	}

	fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
		v.visit_newtype_struct(self)
	}

	fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Error> {
		match self.0 {
			Tree::Seq(items) if items.len() != len => {
				Err(Error(format!("{} elements where {len} are expected", items.len())))
			}
			_ => self.deserialize_any(v),
		}
	}

	fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, len: usize, v: V) -> Result<V::Value, Error> {
		self.deserialize_tuple(len, v)
	}

	fn deserialize_struct<V: Visitor<'de>>(
		self,
		_: &'static str,
		known: &'static [&'static str],
		v: V,
	) -> Result<V::Value, Error> {
		match self.0 {
			Tree::Struct(fields) => {
				let same = known.len() == fields.len() && known.iter().zip(fields).all(|(a, b)| *a == b.0);
				if self.1.compact && same {
					let mut a = Values(fields.iter(), self.1);
					let r = v.visit_seq(&mut a);
					whole(r, a.0.len())
				} else {
					let mut a = Named(fields.iter().enumerate(), None, self.1, same);
					let r = v.visit_map(&mut a);
					whole(r, a.0.len())
				}
			}
			_ => self.deserialize_any(v),
		}
	}

	fn deserialize_enum<V: Visitor<'de>>(
		self,
		_: &'static str,
		known: &'static [&'static str],
		v: V,
	) -> Result<V::Value, Error> {
		match self.0 {
			Tree::Variant(i, n, t) => {
				let mut m = self.1;
				m.numbers &= known.get(*i as usize) == Some(n);
				v.visit_enum(Chosen(*i, n, t, m))
			}
			t => Err(Error(format!("{t:?} where a variant is expected"))),
		}
	}

	fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
		self.deserialize_any(v)
	}

	any!(
		deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128,
		deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128, deserialize_f32,
		deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes,
		deserialize_byte_buf, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier,
		deserialize_ignored_any
	);
}

pub fn write<T: Serialize + ?Sized>(v: &T, human_readable: bool) -> Result<Tree, Error> {
	v.serialize(Writer { human_readable })
}

pub fn read<'de, T: Deserialize<'de>>(t: &'de Tree, manner: Manner) -> Result<T, Error> {
	T::deserialize(Reader(t, manner))
}
