//! C26: UUID generators.
use std::collections::HashSet;

use rdf_types::generator::Uuid;
use rdf_types::interpretation::*;
use rdf_types::*;

use crate::common::*;
use crate::ensure;
use crate::props::interp::Table;

// ------------------------------------- digests, written from their definitions

/// MD5 (RFC 1321).
pub fn md5(message: &[u8]) -> [u8; 16] {
	const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
	let mut m = message.to_vec();
	m.push(0x80);
	while m.len() % 64 != 56 {
		m.push(0)
	}
	m.extend_from_slice(&(message.len() as u64 * 8).to_le_bytes());
	let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
	for block in m.chunks(64) {
		let w: Vec<u32> = block
			.chunks(4)
			.map(|c| u32::from_le_bytes(c.try_into().unwrap()))
			.collect();
		let [mut a, mut b, mut c, mut d] = h;
		for i in 0..64usize {
			let (f, g) = match i / 16 {
				0 => ((b & c) | (!b & d), i),
				1 => ((d & b) | (!d & c), 5 * i + 1),
				2 => (b ^ c ^ d, 3 * i + 5),
				_ => (c ^ (b | !d), 7 * i),
			};
			let k = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
			let t = a
				.wrapping_add(f)
				.wrapping_add(k)
				.wrapping_add(w[g % 16])
				.rotate_left(S[i / 16][i % 4]);
			(a, d, c, b) = (d, c, b, b.wrapping_add(t));
		}
		for (x, y) in h.iter_mut().zip([a, b, c, d]) {
			*x = x.wrapping_add(y)
		}
	}
	let mut r = [0; 16];
	for (i, x) in h.iter().enumerate() {
		r[4 * i..4 * i + 4].copy_from_slice(&x.to_le_bytes())
	}
	r
}

/// SHA-1 (RFC 3174).
pub fn sha1(message: &[u8]) -> [u8; 20] {
	let mut m = message.to_vec();
	m.push(0x80);
	while m.len() % 64 != 56 {
		m.push(0)
	}
	m.extend_from_slice(&(message.len() as u64 * 8).to_be_bytes());
	let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
	for block in m.chunks(64) {
		let mut w: Vec<u32> = block
			.chunks(4)
			.map(|c| u32::from_be_bytes(c.try_into().unwrap()))
			.collect();
		for i in 16..80 {
			let x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16];
			w.push(x.rotate_left(1))
		}
		let [mut a, mut b, mut c, mut d, mut e] = h;
		for (i, x) in w.iter().enumerate() {
			let (f, k) = match i / 20 {
				0 => ((b & c) | (!b & d), 0x5a827999),
				1 => (b ^ c ^ d, 0x6ed9eba1),
				2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
				_ => (b ^ c ^ d, 0xca62c1d6u32),
			};
			let t = a
				.rotate_left(5)
				.wrapping_add(f)
				.wrapping_add(e)
				.wrapping_add(k)
				.wrapping_add(*x);
			(e, d, c, b, a) = (d, c, b.rotate_left(30), a, t);
		}
		for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
			*x = x.wrapping_add(y)
		}
	}
	let mut r = [0; 20];
	for (i, x) in h.iter().enumerate() {
		r[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes())
	}
	r
}

fn hex(bytes: &[u8]) -> String {
	bytes.iter().map(|b| format!("{b:02x}")).collect()
}

/// The URN of a name-based UUID (RFC 4122, 4.3).
fn urn(digest: &[u8], version: u8) -> String {
	let mut b: [u8; 16] = digest[..16].try_into().unwrap();
	b[6] = b[6] & 0x0f | version << 4;
	b[8] = b[8] & 0x3f | 0x80;
	let h = hex(&b);
	format!("urn:uuid:{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

/// The oracles above against published values.
fn self_test() {
	assert_eq!(hex(&md5(b"abc")), "900150983cd24fb0d6963f7d28e17f72");
	assert_eq!(hex(&md5(b"")), "d41d8cd98f00b204e9800998ecf8427e");
	assert_eq!(hex(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
	assert_eq!(hex(&sha1(b"")), "da39a3ee5e6b4b0d3255bfef95601890afd80709");
}

/// `Some(version)` if this is the URN of an RFC 4122 UUID in canonical form.
fn version_of(s: &str) -> Option<u32> {
	let u = s.strip_prefix("urn:uuid:")?;
	if u.len() != 36 {
		return None;
	}
	for (i, c) in u.chars().enumerate() {
		let ok = match i {
			8 | 13 | 18 | 23 => c == '-',
			19 => matches!(c, '8' | '9' | 'a' | 'b'),
			_ => c.is_ascii_digit() || ('a'..='f').contains(&c),
		};
		if !ok {
			return None;
		}
	}
	u.chars().nth(14)?.to_digit(16)
}

/// Draws through one of the ways to draw.
fn draw(cx: &mut Cx, g: &mut Uuid) -> Res<String> {
	fn through<G: Generator>(mut g: G) -> Term {
		g.next_term()
	}
	let t = match cx.rng.below(4) {
		0 => g.next_term(),
		1 => through(&mut *g),
		2 => through(&mut &mut *g),
		_ => {
			let mut i = WithGenerator::new(Table::default(), &mut *g);
			let r = i.new_resource();
			let iris: Vec<String> = i.iris_of(&r).map(|i| i.as_str().to_owned()).collect();
			ensure!(iris.len() == 1, "a generated resource is denoted by the IRIs {iris:?}");
			ensure!(i.literals_of(&r).count() == 0, "a generated resource is denoted by a literal");
			ensure!(
				i.iri(Iri::new(&iris[0]).map_err(|_| format!("{:?} is no IRI", iris[0]))?) == Some(r),
				"the IRI {} does not denote the resource generated for it",
				iris[0]
			);
			return Ok(iris[0].clone());
		}
	};
	let Some(i) = t.as_iri() else {
		return Err(format!("a UUID generator yields {t:?}"));
	};
	ensure!(Iri::new(i.as_str()).is_ok(), "{:?} is no IRI", i.as_str());
	ensure!(t.rdf_display().to_string() == format!("<{}>", i.as_str()), "display of {t:?}");
	Ok(i.as_str().to_owned())
}

const ALPHABET: &[char] = &['a', 'Z', '0', '/', ':', '.', ' ', '\0', '\n', 'é', 'ß', '\u{7ff}', '\u{800}', '\u{ffff}', '𝒳', '"'];

pub fn names(cx: &mut Cx) -> Res {
	if cx.index == 0 {
		self_test()
	}
	let mut space = [0u8; 16];
	match cx.rng.below(8) {
		0 => (),
		1 => space = [0xff; 16],
		// The namespace for domain names.
		2 => space = 0x6ba7b8109dad11d180b400c04fd430c8u128.to_be_bytes(),
		_ => {
			for b in &mut space {
				*b = cx.rng.next() as u8
			}
		}
	}
	let len = match cx.rng.below(6) {
		0 => cx.rng.below(3),
		1 => 0,
		2 => 30 + cx.rng.below(20),
		3 => 90 + cx.rng.below(50),
		4 => cx.rng.below(2000),
		_ => cx.rng.below(30),
	};
	let ascii = cx.rng.chance(1, 2);
	let name: String = (0..len)
		.map(|_| if ascii { (b'!' + cx.rng.below(94) as u8) as char } else { *cx.rng.pick(ALPHABET) })
		.collect();
	let mut message = space.to_vec();
	message.extend_from_slice(name.as_bytes());
	let v3 = cx.rng.chance(1, 2);
	let ns = uuid::Uuid::from_bytes(space);
	let (mut g, expected) = if v3 {
		(Uuid::V3(ns, name.clone()), urn(&md5(&message), 3))
	} else {
		(Uuid::V5(ns, name.clone()), urn(&sha1(&message), 5))
	};
	cx.log(|| format!("version {} namespace {} name {name:?}", if v3 { 3 } else { 5 }, hex(&space)));
	for k in 0..cx.rng.range(1, 6) {
		let u = draw(cx, &mut g)?;
		ensure!(
			u == expected,
			"draw {k} of version {} in {} for {name:?}: {u:?}, expected {expected:?}",
			if v3 { 3 } else { 5 },
			hex(&space)
		);
		let u = format!("urn:uuid:{}", g.next_uuid().to_hyphenated());
		ensure!(u == expected, "next_uuid gives {u:?}, expected {expected:?}");
		cx.evals(2);
		cx.count(if v3 { "version 3 drawn" } else { "version 5 drawn" });
	}
	cx.distinct(&(v3, space, &name));
	cx.sample(|| format!("{expected} for {:?}", name.chars().take(40).collect::<String>()));
	Ok(())
}

pub fn random(cx: &mut Cx) -> Res {
	let mut generators: Vec<Uuid> = (0..cx.rng.range(1, 3)).map(|_| Uuid::V4).collect();
	let mut seen = HashSet::new();
	let n = 400;
	// Bits seen set, and bits seen clear.
	let (mut set, mut clear) = (0u128, 0u128);
	for k in 0..n {
		let i = cx.rng.below(generators.len());
		let u = draw(cx, &mut generators[i])?;
		ensure!(version_of(&u) == Some(4), "draw {k} is {u:?}, not a version 4 UUID in canonical form");
		let v = u128::from_str_radix(&u[9..].replace('-', ""), 16).unwrap();
		set |= v;
		clear |= !v;
		ensure!(seen.insert(v), "draw {k} repeats {u:?}");
		let v = generators[i].next_uuid();
		ensure!(
			version_of(&format!("urn:uuid:{}", v.to_hyphenated())) == Some(4),
			"next_uuid of version 4 gives {v}"
		);
		ensure!(seen.insert(v.as_u128()), "draw {k} repeats {v}");
		cx.evals(4);
		cx.count_n("version 4 drawn", 2);
	}
	// Version and variant are fixed; no other bit can be the same 400 times.
	let free = !(0xfu128 << 76 | 0x3u128 << 62);
	ensure!(set & clear & free == free, "bits {:032x} never change", free & !(set & clear));
	for v in seen {
		cx.distinct(&v)
	}
	Ok(())
}

pub fn workloads(prop: &str) -> Option<Vec<Workload>> {
	(prop == "C26").then(|| vec![w("names", 40000, 800000, names), w("random", 400, 8000, random)])
}

pub fn rule(_: &str) -> &'static str {
	"Namespaces (nil, full, published, random) and names of 0 to 2000 characters given to the name-based generators, whose terms are compared with digests computed from their definitions, and draws of the random generator checked for form, repetition and bits that never change; a situation is a distinct (version, namespace, name) or a distinct random UUID."
}

pub fn assumptions(_: &str) -> Vec<&'static str> {
	vec!["the digests and the URN form written in the harness", "the standard library and iref"]
}
