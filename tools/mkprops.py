import json
D='src/dataset/'; 
FOUR=[D+'impl/btree_dataset.rs',D+'impl/indexed_btree_dataset.rs',D+'graph/impl/btree_graph.rs',D+'graph/impl/indexed_btree_graph.rs']
IDX=[FOUR[1],FOUR[3]]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Graph and dataset containers behave exactly as sets of statements",
 "After any history of operations, each of the four container types (graph or dataset, indexed or not) holds exactly the statements that were inserted and not removed since: membership tests, the number of statements, emptiness, and by-reference and by-value iteration all agree with that set, and iteration yields every statement once, in ascending order, however the iterator is consumed and with the sizes it announces. Inserting reports true exactly when the statement was not there, removing reports true exactly when it was, and neither ever panics or disturbs another statement.",
 ["histories","inputs"],"every finite sequence of inserts, removals, bulk extensions, clones and rebuilds, over every resource type with a lawful order, including statements that use one resource in several positions and slots reused after removals",
 "The unit tests insert and then remove random, almost surely distinct 32-bit resources once, without reinsertion, without one resource occurring in several positions and without interleaving; they reach none of the shared-resource or slot-reuse histories.",
 FOUR,[("insert / remove keep the slab, the sorted statement index and the resource table in step","insert(), remove(), remove_by_index() of each container"),("statement order computed through the resource table","quad_with_resources / triple comparison closures")],
 ["insert/remove return values","contains","len / is_empty","iter, into_iter, &into_iter, quads()/triples()"],
 [("quads/triples","slab of statements by resource index","each container"),("quads_indexes/triples_indexes","sorted index of live slots","each container")])
p("C02","A container lists exactly the resources its statements use",
 "At every point of every history, the resources a container lists are exactly those occurring in some position (subject, predicate, object or graph name) of a statement it currently holds, each listed once and in ascending order. The resource membership test and the resource count agree with that list.",
 ["histories","inputs"],"every history of inserts and removals on each container, in particular those where one resource is used in several positions of one statement or by many statements, and those that remove the last or the second-to-last use",
 "No test looks at the resource list or the resource membership test at all.",
 FOUR,[("occurrence counting and release of resources on removal","Resource::occurrences / Resource::is_empty and remove() in each container")],
 ["resources()","contains_resource","ResourceTraversable*::resource_count / graph_resource_count"])
p("C03","Indexed containers list exactly the subjects, predicates, objects, graphs",
 "At every point of every history, an indexed graph or dataset lists as subjects, predicates, objects (and, for datasets, named graphs) exactly the resources that occur in that position of some statement currently held, each once. The corresponding counts always agree with those lists, and a graph seen as a dataset has no named graph.",
 ["histories","inputs"],"every history of inserts, removals, pattern extractions and graph removals on indexed containers, including resources playing several roles and losing one of them",
 "No test reads the role listings; the bookkeeping only goes wrong after removals of resources shared between statements, which no test performs.",
 IDX+[D+'mod.rs',D+'graph/mod.rs'],[("per-resource role sets and the role indexes built from them","Resource::as_subject/as_predicate/as_object/as_graph, remove_by_index, remove_graph")],
 ["subjects()/predicates()/objects()/named_graphs() inherent and trait","*_count"])
p("C04","Pattern matching yields exactly the statements that satisfy the pattern",
 "For every content an indexed graph or dataset may have reached and every canonical pattern, matching yields each stored statement that satisfies all constraints of the pattern (given values, positions required to be equal, default graph, a given graph or any graph) exactly once, and nothing else. A graph queried as a dataset answers as a dataset whose statements are all in the default graph.",
 ["inputs","histories"],"every pattern shape and every choice of given values (present, absent, or present only in another role) against every content reached by inserts and removals, including contents with vacated slots",
 "No test calls pattern matching; the merge of several per-role slot lists with wrap-around cases only misbehaves for particular slot layouts that depend on the history.",
 IDX+[D+'mod.rs','src/pattern/quad/canonical.rs','src/pattern/triple/canonical.rs'],[("leap-frog intersection of per-role slot lists","PatternMatching::next, SubjectConstraints/PredicateConstraints/ObjectConstraints/GraphConstraints::next"),("graph as dataset","impl PatternMatchingDataset for G")],
 ["pattern_matching","quad_pattern_matching","triple_pattern_matching"])
p("C05","Multi-valued pattern matching equals the union over the listed values",
 "Matching a dataset against a pattern whose given positions each list several acceptable resources yields exactly the stored statements that satisfy the pattern for some choice of one listed resource per given position, each once. Duplicated or unknown resources in a list change nothing, and an empty list matches nothing.",
 ["inputs","histories"],"every pattern shape, every list of acceptable resources (empty, duplicated, absent, many) and every content reached by inserts and removals",
 "No test calls multi-pattern matching.",
 [FOUR[1],D+'mod.rs'],[("union of role slot lists per position","new_multi of Subject/Predicate/Object/GraphConstraints, MultiPatternMatching::next")],
 ["multi_pattern_matching","quad_multi_pattern_matching"])
p("C06","Extraction and graph removal move statements without losing any",
 "Extracting the statements matching a pattern removes from the dataset exactly those the extraction yields: each matching statement is yielded at most once (exactly once when fully consumed), non-matching ones stay, and stopping or dropping the extraction midway leaves every statement not yet yielded in place. Removing a graph returns precisely the triples of that graph and leaves all other graphs untouched (nothing is returned or changed for a name that is not a graph), and the dataset stays fully consistent and usable afterwards.",
 ["histories","inputs"],"every content, pattern, number of extraction steps taken before dropping, and graph name; followed by any further operations",
 "No test extracts or removes a graph, let alone abandons an extraction midway and continues to use the dataset.",
 [FOUR[1],FOUR[2]],[("lazy extraction with copied slot lists","ExtractPatternMatching::next, new_owned"),("remove_graph walks the graph's slot list","remove_graph, remove_by_index")],
 ["extract_pattern_matching","remove_graph","content, role and pattern queries afterwards"])
p("C07","Every way to build or convert a container gives the same working container",
 "Building a container by collecting, extending, inserting one by one, through the mutation traits, by indexing a non-indexed container or by unfolding and re-collecting another one gives, for the same statements and whatever their order and duplication, equal contents. The result answers every query and accepts every later operation exactly like a container built by plain insertion; clones are independent of their original.",
 ["histories","inputs"],"every statement multiset, order and construction path, from sources that themselves went through removals, followed by arbitrary operations",
 "Tests build containers by plain insertion only and never convert to an indexed container.",
 FOUR,[("index construction that reuses the slots of the non-indexed container","from_non_indexed / into_indexed"),("FromIterator, Extend, IntoIterator, DatasetMut, GraphMut","each container")],
 ["all queries after conversion"])
p("C08","A reported isomorphism is a real one",
 "Whenever two datasets are declared isomorphic, the bijection reported maps the blank nodes of the first one-to-one onto those of the second (its two directions being inverse of each other) and turns the set of statements of the first into exactly the set of statements of the second, leaving IRIs and literals unchanged. In particular datasets that differ in any ground statement, IRI, literal or graph name are never declared isomorphic.",
 ["inputs"],"every pair of finite datasets or graphs, with blank nodes in any position including predicate and graph name, under the lexical interpretation or a user-defined one",
 "The tests cover a fixed list of W3C canonicalisation examples, all with blank nodes; the negative ones differ in structure only.",
 [D+'isomorphism.rs'],[("signature matching and backtracking search","find_bijection_with, find_from_candidates, quad_matches_with, ground quad comparison")],
 ["find_bijection(_with)","are_isomorphic(_with)"])
p("C09","Datasets equal up to blank node renaming are always found isomorphic",
 "Renaming the blank nodes of a dataset one-to-one, or storing its statements in another container or another order, always gives a dataset declared isomorphic to the original; the verdict does not depend on the order of the two arguments, on labels, or on which entry point is used. A pair is declared non-isomorphic only if no blank node bijection exists.",
 ["inputs"],"every finite dataset and every blank node renaming, in particular highly symmetric ones (cycles, cliques, several equal components) that force backtracking, and large ones",
 "The tests only compare a fixed list of example datasets with one fixed renaming each.",
 [D+'isomorphism.rs'],[("candidate filtering must never exclude a valid image","collect_signatures, split_by_size, BlankSignature::matches, signature_matches_with")],
 ["find_bijection(_with)","are_isomorphic(_with)"])
p("C10","Canonical patterns denote the statements their source pattern denotes",
 "A canonical pattern built from a statement, from optional components or from a pattern with variables is satisfied by exactly the statements satisfying the source: given components must be equal, components sharing a variable must be equal to each other, other variables are unconstrained, and a missing graph means the default graph (for a plain or optional triple, or an optional quad: any graph). Reading its constraints back, borrowing, mapping or splitting it, reducing it to a triple pattern and lifting a triple pattern to any graph all preserve that meaning, position by position.",
 ["inputs"],"every assignment of values, variables (shared in every possible way) or nothing to the four positions, and every conversion between the representations",
 "No test builds a canonical pattern; there are hundreds of shape combinations over some forty types.",
 ['src/pattern/quad/canonical.rs','src/pattern/triple/canonical.rs','src/pattern/resource_or_variable.rs'],[("nested case analysis over shared variables","from_pattern, from_option*, from_quad/from_triple"),("projections","subject/predicate/object/graph, into_*, into_parts, into_triple, with_any_graph, as_ref, map, map2")],
 ["constraint accessors","filter_triple","matching on a container"])
p("C11","Binding a position of a triple pattern binds exactly what that position denotes",
 "Setting the subject, predicate or object of a canonical triple pattern gives the pattern satisfied by exactly those triples that satisfied the pattern and have the new value at that position when it was unconstrained or linked to other positions (those links being preserved), and replaces only that component when it was already given. The setter returns the constraint the position carried before, and the by-value variants agree with the in-place ones.",
 ["inputs","histories"],"every canonical triple pattern, position and value, and every sequence of such bindings",
 "No test calls the setters.",
 ['src/pattern/triple/canonical.rs'],[("rewriting of linked positions when one of them is bound","set_subject, set_predicate, set_object, with_*")],
 ["set_* return values","constraints read back","filter_triple"])
p("C12","A triple pattern map returns the values of all patterns a triple satisfies",
 "Looking up a triple in a map from canonical triple patterns to values yields exactly the values inserted under patterns satisfied by that triple, once per pattern and value; inserting reports whether the pair was new. Merging two (sub)maps yields a map answering every lookup with the union of both answers.",
 ["inputs","histories"],"every sequence of insertions of any pattern shapes with shared or distinct values, every merge and every looked-up triple",
 "No test uses the pattern map.",
 ['src/pattern/triple/map.rs'],[("nested tables by pattern shape and chained value iterators","insert, get, union_with of each map")],
 ["insert return value","get","union_with"])
p("C13","A blank node identifier is accepted exactly when it matches the grammar",
 "Each way to make a blank node identifier from text (borrowed, owned, parsed, from a suffix, deserialized) accepts precisely the strings matching the documented BLANK_NODE_LABEL grammar, keeps the text unchanged, and returns the rejected text in its error. Identifiers made from integers are valid, distinct for distinct numbers, and their suffix is the number.",
 ["inputs"],"every Unicode string; in particular every code point at first, middle and last position, and every boundary of the grammar's ranges",
 "No test feeds text to the blank identifier parser beyond a few ASCII labels.",
 ['src/blankid.rs'],[("character class tests over the label","check, is_pn_char_base, is_pn_char_u, is_pn_char"),("integer constructors","from_u8..from_u64, from_suffix")],
 ["BlankId::new","BlankIdBuf::new","FromStr","from_suffix","Deserialize"])
p("C14","RDF output of terms and statements reads back as the same thing",
 "The RDF display of any identifier, literal, term, triple, quad, graph or dataset is N-Triples/N-Quads syntax which, read by an independent parser of that syntax, gives back exactly the value displayed: blank nodes, IRIs, literal text with its datatype (a plain string when it is xsd:string) or language tag, and graph name. The owned, borrowed and contextual forms of one value print the same text, and so does the plain display of literals, blank nodes, triples and quads; the plain display of an IRI term is the IRI itself.",
 ["inputs"],"every term, with literal text over all of Unicode (quotes, backslashes, line breaks, control characters, text looking like syntax), every datatype IRI and language tag, and every statement over them",
 "Nothing tests displayed text.",
 ['src/display.rs','src/blankid.rs','src/literal/mod.rs','src/literal/ref.rs','src/literal/type/mod.rs','src/literal/type/ref.rs','src/term/mod.rs','src/term/local/mod.rs','src/triple.rs','src/quad.rs']+FOUR,[("escaping and delimiting","RdfDisplay::rdf_fmt of str, Iri, BlankId, LiteralType, Literal, Term, LocalTerm, Triple, Quad, containers")],
 ["rdf_display()","Display","Contextual display"])
p("C15","Equality, order and hashing agree across owned, borrowed and copied forms",
 "For identifiers, literal types, literals, terms, local terms, triples and quads, equality and comparison give the same answer whichever mix of owned, borrowed or copy-on-write forms is compared, and equality coincides with being the same RDF value (IRIs being equal up to normalization and language tags up to case). Comparison is a total order consistent with equality, and values considered equal (or equivalent as lookup keys) hash alike, so a value stored in an ordered or hashed collection is found through any of its forms, the text it lends included.",
 ["inputs"],"every pair and triple of values in every combination of forms for which a comparison or hash exists",
 "No test compares or hashes terms across forms; the laws quantify over pairs and triples of values.",
 ['src/blankid.rs','src/literal/mod.rs','src/literal/ref.rs','src/literal/cow.rs','src/literal/type/mod.rs','src/literal/type/ref.rs','src/literal/type/cow.rs','src/term/mod.rs','src/term/ref.rs','src/term/local/mod.rs','src/term/local/ref.rs','src/triple.rs','src/quad.rs'],[("hand-written cross-form PartialEq/PartialOrd/Hash/Equivalent","impls in each file")],
 ["==, cmp, partial_cmp, Hash, Equivalent","BTreeMap and hash map lookups"])
p("C16","Conversions between forms of a term keep its kind and its text",
 "Borrowing, cloning, copying on write, owning back, wrapping into or out of identifiers, terms and local terms, and the accessors of these types never change what is denoted: kind (blank node, IRI, literal), text, datatype and language tag all survive any chain of conversions. Accessors and tests for a kind succeed exactly for that kind.",
 ["inputs"],"every identifier, literal, term and local term, and every chain of conversions between their owned, borrowed and copy-on-write forms",
 "No test converts terms between forms.",
 ['src/id/mod.rs','src/id/ref.rs','src/id/cow.rs','src/literal/mod.rs','src/literal/ref.rs','src/literal/cow.rs','src/literal/type/mod.rs','src/literal/type/ref.rs','src/literal/type/cow.rs','src/term/mod.rs','src/term/ref.rs','src/term/cow.rs','src/term/local/mod.rs','src/term/local/ref.rs','src/term/local/cow.rs','src/triple.rs','src/quad.rs'],[("as_ref/as_cow/into_cow/to_owned/into_owned/From impls","each file")],
 ["accessors after conversion"])
p("C17","Serialization round-trips, and input that is not a term is rejected",
 "Serializing a blank node identifier, literal, term, local term, triple, quad, pattern component, graph or dataset and deserializing the result gives back an equal value, whatever text it carries and whether the format is textual or binary, compact or by name. Containers are serialized as the sequence of their statements and deserialize any sequence, with repetitions and in any order, to the set of its elements; text that is neither a blank node identifier nor an IRI is rejected.",
 ["inputs"],"every serializable value, in particular literals whose text looks like an identifier, and every well- or ill-formed serialized term",
 "No test serializes anything.",
 ['src/blankid.rs','src/literal/mod.rs','src/literal/type/mod.rs','src/term/mod.rs','src/term/local/mod.rs','src/triple.rs','src/quad.rs']+FOUR,[("derived and hand-written serde impls","Serialize/Deserialize of each type")],
 ["serde_json text and value round trips"])
p("C18","Generated blank nodes are valid, numbered in order and never repeat",
 "A blank node generator yields, whatever its prefix, only valid identifiers, made of its prefix followed by consecutive numbers starting at its offset, never the same twice, and reports its prefix and count accordingly; when its numbers are exhausted it panics instead of reusing one. Drawing identifiers directly, as local terms or through a generating interpretation yields the same sequence.",
 ["histories","inputs"],"every prefix, every offset up to the maximum, every number and interleaving of draws through every interface, with and without overflow checks in the build",
 "No test generates identifiers beyond incidental use, and none approaches exhaustion.",
 ['src/term/generator/blank.rs','src/term/generator/mod.rs','src/term/generator/interpretation.rs','src/interpretation/impl/with_generator.rs'],[("counter advanced on each draw","Blank::next_blank_id")],
 ["next_blank_id","next_local_term","new_resource","count, prefix"])
p("C19","Interpretations map terms to resources and back consistently",
 "For every interpretation, inserting an IRI, literal or blank node and asking for it again gives the same resource, the terms listed for that resource contain it, a resource is anonymous exactly when no IRI or literal denotes it, and the generic term, local term and identifier entry points agree with the specific ones. Wrapping an interpretation with a generator changes none of these answers and only adds the resources of the terms its generator yields; the fallible interface agrees with the infallible one.",
 ["inputs","histories"],"every term and every history of insertions and generations, for the lexical interpretation, generator-backed ones and user-defined ones that rely on the provided methods",
 "No test uses an interpretation.",
 ['src/interpretation/mod.rs','src/interpretation/fallible.rs','src/interpretation/impl/none.rs','src/interpretation/impl/with_generator.rs','src/term/generator/interpretation.rs'],[("provided methods dispatch on the kind of term","term/local_term/id, insert_term/insert_local_term/insert_id, terms_of/local_terms_of, is_anonymous"),("delegation","WithGenerator, WithLocalGenerator, LocalGeneratorInterpretation")],
 ["all interpretation traits"])
p("C20","No safe use of the library causes undefined behaviour or loses memory",
 "No history of safe calls (containers, patterns, extraction, isomorphism, identifiers, conversions) makes the process read or write invalid memory, misuse an allocation, make an invalid value or otherwise execute undefined behaviour. Every resource value moved into a container is dropped exactly once, whether the container is dropped, consumed, partly consumed or partly extracted, and even if a resource's own comparison or cloning panics. A container keeps one value per resource it uses: duplicates and resources no longer used are dropped at once, and no history leaves memory behind.",
 ["histories","inputs","fault_sequences"],"every history of safe operations, every point at which an iterator or extraction is abandoned, and panics raised by user-provided comparisons at any call",
 "Tests run uninstrumented and never look at drops or abandoned iterators; undefined behaviour need not change their results.",
 FOUR+['src/blankid.rs','src/pattern/triple/canonical.rs','src/term/generator/blank.rs'],[("unsafe transmutes and unchecked constructors","blankid.rs, generator/blank.rs"),("raw B-tree and slab indexes kept valid","containers"),("in-place replacement of patterns","replace_with in pattern setters")],
 ["Miri, AddressSanitizer, valgrind reports","drop accounting of tracked resources"])
p("C21","Comparing, ordering and hashing containers depends only on their statements",
 "Two containers of one type are equal exactly when they hold the same statements, whatever histories produced them; equal containers hash alike, and containers compare as the ascending sequences of their statements do. Debug output and serialized form of equal containers are identical.",
 ["histories","inputs"],"every pair of containers produced by different histories, with equal, nested, or slightly different contents",
 "No test compares, orders or hashes containers.",
 FOUR,[("comparisons through the sorted statement sequence","PartialEq/PartialOrd/Ord/Hash/Debug of each container")],
 ["==, cmp, partial_cmp, Hash, Debug"])
p("C22","Derived queries and fallible wrappers agree with direct enumeration",
 "Every membership query (statement, subject, predicate, object, named graph), object and predicate-objects listing, count and traversal offered by the dataset and graph traits gives what enumerating the statements would give, in the requested graph only, for built-in containers, graphs seen as datasets and user-defined datasets relying on the provided methods. The fallible interfaces give the same answers, and the same effects for mutations, as the infallible ones.",
 ["inputs","histories"],"every content and every queried resource or combination, present, absent, or present in another position or graph only",
 "No test calls these queries.",
 [D+'mod.rs',D+'fallible.rs',D+'graph/mod.rs',D+'graph/fallible.rs','src/utils.rs']+IDX,[("provided methods built on pattern matching","PatternMatchingDataset / PatternMatchingGraph defaults, QuadPredicatesObjects, QuadObjects, TriplePredicatesObjects, TripleObjects"),("blanket impls","Graph -> Dataset, fallible blanket impls")],
 ["contains_*","quad_objects / triple_objects","quad_predicates_objects / triple_predicates_objects","try_*"])
p("C23","The statement macros denote the statements they spell",
 "The triple, triples, quad, quads and quad pattern macros expand, for every combination of term kinds in every position, to exactly the statements written: IRIs, blank nodes, plain and typed literals, Rust variables holding terms, pattern variables, and a graph position that is optional and means the default graph when left out. The list macros yield the statements in the order written.",
 ["programs","inputs"],"every well-formed use of the macros: all combinations of term kinds per position, any number of statements",
 "The macro tests only check that four fixed uses compile, and never look at the value; the quad pattern macro is never used.",
 ['src/macro.rs'],[("token-tree recursion","grdf_triple, grdf_triples, grdf_quad, grdf_quads, grdf_quad_pattern")],
 ["value of the expansion, compared with the statement built by hand"])
p("C24","Shared containers can be read from several threads at once",
 "Containers, terms, patterns and their iterators can be shared between threads whenever their resources can, and concurrent readers of one container each get exactly the answers a single-threaded reader gets, for every interleaving, without any data race. Moving a container to another thread and mutating it there gives the same result as mutating it in place.",
 ["schedules","histories"],"every schedule of concurrent readers (iteration, membership, listings, pattern matching, isomorphism) over one shared container, and every hand-over between threads",
 "No test uses threads.",
 FOUR+[D+'isomorphism.rs'],[("no interior mutability behind shared references; automatic Send and Sync","container structs")],
 ["ThreadSanitizer / Miri reports","answers of each reader thread"])
p("C25","Component operations on triples and quads touch exactly the named component",
 "Reading, mutating, replacing, mapping or extracting one component of a triple or quad reads or changes that component only; mapping all components applies the function once to each component that is present, in order. Converting between triples and quads, borrowing, cloning and copying keep the three components and the graph as specified, and comparison between statements is by subject, predicate, object, then graph with the default graph first, components that cannot be ordered leaving the statements unordered.",
 ["inputs"],"every triple and quad over distinguishable component types, and every component operation and chain of them",
 "No test calls the component operations beyond copying whole statements.",
 ['src/triple.rs','src/quad.rs'],[("hand-written accessors and maps","impl blocks of Triple and Quad")],
 ["component operations"])
p("C26","UUID generators yield valid UUID IRIs of the version asked for",
 "A UUID generator yields, whenever and however it is drawn from, an IRI made of urn:uuid: and the canonical lowercase form of a UUID of its version, with each of its feature flags. The name-based ones (versions 3 and 5) always yield the UUID that RFC 4122 derives from their namespace and name; the random one (version 4) never yields the same twice.",
 ["inputs","histories","configurations"],"every namespace and name, every sequence of draws through every interface, and every combination of the uuid-generator features",
 "The tests of this module are not compiled without its features, and with them the crate did not compile at all.",
 ['src/term/generator/uuid.rs','src/interpretation/impl/with_generator.rs'],[("version dispatch and URN encoding","Uuid::next_uuid, Generator for Uuid")],
 ["next_term","next_uuid","new_resource of WithGenerator"])
p("C27","Operations on large containers compare few resources",
 "On a container of n statements, whatever its history, testing whether it holds a statement or resource, inserting, removing, and (on indexed containers) matching a pattern, asking a derived query or listing a role compare resources a number of times that grows with the logarithm of n, not with n. Operations that yield or move k statements (extraction, graph removal, collecting, cloning, indexing, comparing two containers) cost at most that much per statement.",
 ["inputs","histories"],"every content, from thousands of statements on, of every shape (one crowded resource, few resources, all distinct) and insertion order, after removals too",
 "The tests hold at most a few hundred statements and never look at what an operation does to the resources; a scan gives the same answers as a search.",
 FOUR,[("searches in the sorted indexes and role sets","index_of_resource, index_of_quad / index_of_triple, remove_by_index, *Constraints::new")],
 ["calls of Ord, PartialOrd and PartialEq on resources"])
assert len({x['id'] for x in P})==len(P)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
