#!/usr/bin/env python3
"""Writes harness/src/bin/macros.rs: every combination of term kinds in every
position of the statement macros, compared with the statement it spells."""
import itertools
import os

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "bin", "macros.rs")

# kind -> (source for position i, expected model term for position i)
KINDS = {
    "blank": lambda i: (f'_:"n{i}"', f'b("_:n{i}")'),
    "iri": lambda i: (f'<"http://e.org/i{i}">', f'i("http://e.org/i{i}")'),
    "plain": lambda i: (f'"text {i}"', f'l("text {i}", XSD)'),
    "typed": lambda i: (f'"value {i}"^^"http://e.org/t{i}"', f'l("value {i}", "http://e.org/t{i}")'),
    "var": lambda i: (f'v{i}', f'i("http://e.org/v{i}")'),
}
PATTERN = dict(KINDS)
PATTERN["pvar"] = lambda i: (f'?x{i}', f'V({10 + i})')

out = []
w = out.append
w("""// Written by tools/mkmacros.py.
//! C23: the statement macros, used with every combination of term kinds in every
//! position, against the statements spelled.
#![allow(clippy::all)]
#![recursion_limit = "4096"]
use harness::mterm::*;
use rdf_types::pattern::ResourceOrVar;
use rdf_types::{LocalTerm, Quad, Triple};
use rdf_types::{grdf_quad, grdf_quad_pattern, grdf_quads, grdf_triple, grdf_triples};

const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";

#[derive(Clone, PartialEq, Eq, Debug)]
enum PT {
	R(MT),
	V(usize),
}
use PT::V;

fn b(s: &str) -> MT {
	MT::Blank(s.to_owned())
}
fn i(s: &str) -> MT {
	MT::Iri(s.to_owned())
}
fn l(s: &str, t: &str) -> MT {
	MT::Lit(s.to_owned(), MTy::Any(t.to_owned()))
}
#[allow(non_snake_case)]
fn R(t: MT) -> PT {
	PT::R(t)
}
fn var(s: &str) -> rdf_types::IriBuf {
	harness::elem::iri(s)
}

type PSt = (PT, PT, PT, Option<PT>);

fn pt(t: &ResourceOrVar<LocalTerm, usize>) -> PT {
	match t {
		ResourceOrVar::Resource(r) => PT::R(local_of(r)),
		ResourceOrVar::Var(x) => PT::V(*x),
	}
}

struct Checks {
	uses: usize,
	statements: usize,
	kinds: std::collections::BTreeMap<&'static str, usize>,
	samples: Vec<String>,
}

impl Checks {
	fn fail(&self, what: &str, source: &str, got: &dyn std::fmt::Debug, expected: &dyn std::fmt::Debug) -> ! {
		println!("{what}! [ {source} ] is {got:?} instead of {expected:?}");
		std::process::exit(1)
	}

	fn used(&mut self, what: &'static str, source: &str, n: usize) {
		self.uses += 1;
		self.statements += n;
		let k = self.kinds.entry(what).or_default();
		*k += 1;
		if *k % 400 == 7 {
			self.samples.push(format!("{what}! [ {source} ]"))
		}
	}

	fn triple(&mut self, source: &str, got: Triple, e: (MT, MT, MT)) {
		self.used("grdf_triple", source, 1);
		let got = (local_of(&got.0), local_of(&got.1), local_of(&got.2));
		if got != e {
			self.fail("grdf_triple", source, &got, &e)
		}
	}

	fn quad(&mut self, source: &str, got: Quad, e: MSt) {
		self.used("grdf_quad", source, 1);
		let got = st_of_local(got.as_ref());
		if got != e {
			self.fail("grdf_quad", source, &got, &e)
		}
	}

	fn pattern(&mut self, source: &str, got: Quad<ResourceOrVar<LocalTerm, usize>>, e: PSt) {
		self.used("grdf_quad_pattern", source, 1);
		let got = (pt(&got.0), pt(&got.1), pt(&got.2), got.3.as_ref().map(pt));
		if got != e {
			self.fail("grdf_quad_pattern", source, &got, &e)
		}
	}

	fn triples(&mut self, source: &str, got: &[Triple], e: &[(MT, MT, MT)]) {
		self.used("grdf_triples", source, got.len());
		let got: Vec<_> = got.iter().map(|t| (local_of(&t.0), local_of(&t.1), local_of(&t.2))).collect();
		if got != e {
			self.fail("grdf_triples", source, &got, &e)
		}
	}

	fn quads(&mut self, source: &str, got: &[Quad], e: &[MSt]) {
		self.used("grdf_quads", source, got.len());
		let got: Vec<_> = got.iter().map(|q| st_of_local(q.as_ref())).collect();
		if got != e {
			self.fail("grdf_quads", source, &got, &e)
		}
	}
}
""")

fns = []


def chunked(name, lines, size=60):
    for n in range(0, len(lines), size):
        f = f"{name}_{n // size}"
        fns.append(f)
        w(f"fn {f}(c: &mut Checks) {{")
        for line in lines[n:n + size]:
            w("\t" + line)
        w("}\n")


def lets(kinds, pattern=False):
    s = ""
    for i, k in enumerate(kinds):
        if k == "var":
            s += f'let v{i} = {"LocalTerm::iri" if pattern else ""}(var("http://e.org/v{i}")); '
        if k == "pvar":
            s += f"let x{i} = {10 + i}usize; "
    return s


def esc(s):
    return 'r##"' + s + '"##'


KS = list(KINDS)
lines = []
for ks in itertools.product(KS, repeat=3):
    p = [KINDS[k](i) for i, k in enumerate(ks)]
    src = " ".join(x for x, _ in p)
    lines.append(f'{{ {lets(ks)}c.triple({esc(src)}, grdf_triple![{src}], ({", ".join(e for _, e in p)})); }}')
chunked("triples_all", lines)

lines = []
for n in (3, 4):
    for ks in itertools.product(KS, repeat=n):
        p = [KINDS[k](i) for i, k in enumerate(ks)]
        src = " ".join(x for x, _ in p)
        g = f"Some({p[3][1]})" if n == 4 else "None"
        lines.append(f'{{ {lets(ks)}c.quad({esc(src)}, grdf_quad![{src}], ({", ".join(e for _, e in p[:3])}, {g})); }}')
chunked("quads_all", lines)

lines = []
for n in (3, 4):
    for ks in itertools.product(list(PATTERN), repeat=n):
        p = []
        for i, k in enumerate(ks):
            s, e = PATTERN[k](i)
            p.append((s, e if k == "pvar" else f"R({e})"))
        src = " ".join(x for x, _ in p)
        g = f"Some({p[3][1]})" if n == 4 else "None"
        lines.append(f'{{ {lets(ks, True)}c.pattern({esc(src)}, grdf_quad_pattern![{src}], ({", ".join(e for _, e in p[:3])}, {g})); }}')
chunked("patterns_all", lines)

# Lists: statements of varied kinds, in order, with repetitions.
lines = []
all3 = list(itertools.product(KS, repeat=3))
all4 = [ks for n in (3, 4) for ks in itertools.product(KS, repeat=n)]
state = 12345


def rnd(n):
    global state
    state = (state * 6364136223846793005 + 1442695040888963407) % (1 << 64)
    return (state >> 33) % n


for size in [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16]:
    for _ in range(2):
        stmts = [all3[rnd(len(all3))] for _ in range(size)]
        if size > 2 and rnd(2):
            stmts[-1] = stmts[0]
        src, exp, let = [], [], ""
        for j, ks in enumerate(stmts):
            parts = []
            for i, k in enumerate(ks):
                n = j * 10 + i if rnd(4) else i
                s, e = KINDS[k](n)
                if k == "var":
                    n = j * 10 + i
                    s, e = KINDS[k](n)
                    let += f'let v{n} = var("http://e.org/v{n}"); '
                parts.append((s, e))
            src.append(" ".join(s for s, _ in parts) + " .")
            exp.append("(" + ", ".join(e for _, e in parts) + ")")
        s = " ".join(src)
        lines.append(f'{{ {let}c.triples({esc(s)}, &grdf_triples![{s}] as &[Triple], &[{", ".join(exp)}]); }}')
for size in [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16]:
    for _ in range(3):
        stmts = [all4[rnd(len(all4))] if rnd(2) else all3[rnd(len(all3))] for _ in range(size)]
        src, exp, let = [], [], ""
        for j, ks in enumerate(stmts):
            parts = []
            for i, k in enumerate(ks):
                n = j * 10 + i if rnd(4) else i
                s, e = KINDS[k](n)
                if k == "var":
                    n = j * 10 + i
                    s, e = KINDS[k](n)
                    let += f'let v{n} = var("http://e.org/v{n}"); '
                parts.append((s, e))
            src.append(" ".join(s for s, _ in parts) + " .")
            g = f"Some({parts[3][1]})" if len(parts) == 4 else "None"
            exp.append("(" + ", ".join(e for _, e in parts[:3]) + f", {g})")
        s = " ".join(src)
        lines.append(f'{{ {let}c.quads({esc(s)}, &grdf_quads![{s}] as &[Quad], &[{", ".join(exp)}]); }}')
# Each kind in each position of a list, twice in a row.
for pos in range(4):
    for k in KS:
        ks = ["iri"] * (4 if pos == 3 else 3)
        ks[pos] = k
        src, exp, let = [], [], ""
        for j in range(2):
            parts = [KINDS[x](j * 10 + i) for i, x in enumerate(ks)]
            if k == "var":
                let += f'let v{j * 10 + pos} = var("http://e.org/v{j * 10 + pos}"); '
            src.append(" ".join(s for s, _ in parts) + " .")
            exp.append(parts)
        s = " ".join(src)
        q = ", ".join("(" + ", ".join(e for _, e in p[:3]) + (f", Some({p[3][1]}))" if len(p) == 4 else ", None)") for p in exp)
        lines.append(f'{{ {let}c.quads({esc(s)}, &grdf_quads![{s}] as &[Quad], &[{q}]); }}')
        if pos < 3:
            t = ", ".join("(" + ", ".join(e for _, e in p) + ")" for p in exp)
            lines.append(f'{{ {let}c.triples({esc(s)}, &grdf_triples![{s}] as &[Triple], &[{t}]); }}')
chunked("lists", lines, 20)

# Text, other variable types, variables named as in the macros, other delimiters.
w(r'''fn special(c: &mut Checks) {
	let texts: [(Triple, &str); 8] = [
		(grdf_triple![_:"a" _:"b" ""], ""),
		(grdf_triple![_:"a" _:"b" "\"\\\n\t"], "\"\\\n\t"),
		(grdf_triple![_:"a" _:"b" r"\n"], r"\n"),
		(grdf_triple![_:"a" _:"b" r#"a"b"#], r#"a"b"#),
		(grdf_triple![_:"a" _:"b" "_:b"], "_:b"),
		(grdf_triple![_:"a" _:"b" "http://e.org/a"], "http://e.org/a"),
		(grdf_triple![_:"a" _:"b" "日本 😀 \u{0}"], "日本 😀 \u{0}"),
		(grdf_triple![_:"a" _:"b" "?x . ^^"], "?x . ^^"),
	];
	for (t, s) in texts {
		c.triple(s, t, (b("_:a"), b("_:b"), l(s, XSD)));
	}
	c.triple("labels", grdf_triple![_:"0" _:"é" _:"a-b"], (b("_:0"), b("_:é"), b("_:a-b")));
	c.triple(
		"typed",
		grdf_triple!["" ^^ "http://e.org/t" "a"^^"urn:x:y" "x"^^"http://www.w3.org/2001/XMLSchema#string"],
		(l("", "http://e.org/t"), l("a", "urn:x:y"), l("x", XSD)),
	);
	// Variables of each convertible type.
	{
		let s: rdf_types::BlankIdBuf = blank("_:s");
		let p: rdf_types::Term = i("http://e.org/p").term().unwrap();
		let o: rdf_types::Literal = MT::Lit("x".to_owned(), MTy::Lang("en".to_owned())).literal().unwrap();
		let g: LocalTerm = b("_:g").local();
		c.quad(
			"s p o g",
			grdf_quad![s p o g],
			(b("_:s"), i("http://e.org/p"), MT::Lit("x".to_owned(), MTy::Lang("en".to_owned())), Some(b("_:g"))),
		);
	}
	{
		let acc: LocalTerm = b("_:acc").local();
		let id: LocalTerm = b("_:id").local();
		let value: LocalTerm = b("_:value").local();
		let ty: LocalTerm = b("_:ty").local();
		c.quad("acc id value ty", grdf_quad! { acc id value ty }, (b("_:acc"), b("_:id"), b("_:value"), Some(b("_:ty"))));
		let (current, rest, t, iri) = (b("_:c").local(), b("_:r").local(), b("_:t").local(), b("_:i").local());
		c.quads(
			"current rest t iri .",
			&grdf_quads! { current rest t iri . },
			&[(b("_:c"), b("_:r"), b("_:t"), Some(b("_:i")))],
		);
	}
	{
		// The same pattern variable in several positions.
		let x = 4usize;
		c.pattern("?x ?x ?x ?x", grdf_quad_pattern! [ ?x ?x ?x ?x ], (V(4), V(4), V(4), Some(V(4))));
		c.pattern("?x ?x ?x", grdf_quad_pattern! ( ?x ?x ?x ), (V(4), V(4), V(4), None));
		// Pattern variables of another type.
		let (s, g) = ("s", "g");
		let q = grdf_quad_pattern![?s _:"p" "o" ?g];
		let same = q.0 == ResourceOrVar::Var("s")
			&& q.1 == ResourceOrVar::Resource(b("_:p").local())
			&& q.2 == ResourceOrVar::Resource(l("o", XSD).local())
			&& q.3 == Some(ResourceOrVar::Var("g"));
		c.used("grdf_quad_pattern", "?s _:\"p\" \"o\" ?g", 1);
		if !same {
			c.fail("grdf_quad_pattern", "?s _:\"p\" \"o\" ?g", &q, &"the pattern spelled")
		}
	}
	// By path, as an argument, in a loop.
	for k in 0..3usize {
		let v = LocalTerm::iri(var(&format!("http://e.org/{k}")));
		c.quad(
			"v in a loop",
			rdf_types::grdf_quad!(v <"http://e.org/p"> "o"),
			(i(&format!("http://e.org/{k}")), i("http://e.org/p"), l("o", XSD), None),
		);
		c.pattern(
			"?k in a loop",
			rdf_types::grdf_quad_pattern!(?k <"http://e.org/p"> "o"^^"http://e.org/t" _:"g"),
			(V(k), R(i("http://e.org/p")), R(l("o", "http://e.org/t")), Some(R(b("_:g")))),
		);
	}
	c.triples("nothing", &rdf_types::grdf_triples![] as &[Triple; 0], &[]);
	c.quads("nothing", &rdf_types::grdf_quads![] as &[Quad; 0], &[]);
}
''')
fns.append("special")

w("fn main() {")
w("\tlet mut c = Checks { uses: 0, statements: 0, kinds: Default::default(), samples: Vec::new() };")
for f in fns:
    w(f"\t{f}(&mut c);")
w('\tprintln!("USES {}", c.uses);')
w('\tprintln!("STATEMENTS {}", c.statements);')
w('\tfor (k, n) in &c.kinds {\n\t\tprintln!("KIND {k} {n}");\n\t}')
w('\tfor s in &c.samples {\n\t\tprintln!("SAMPLE {s}");\n\t}')
w("}")

with open(OUT, "w") as f:
    f.write("\n".join(out) + "\n")
