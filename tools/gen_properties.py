#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
DS = ["src/dataset/impl/indexed_btree_dataset.rs", "src/dataset/impl/btree_dataset.rs"]
GR = ["src/dataset/graph/impl/indexed_btree_graph.rs", "src/dataset/graph/impl/btree_graph.rs"]
TR = ["src/dataset/mod.rs", "src/dataset/graph/mod.rs"]
slabs = [("quads / triples slab", "slot -> (s,p,o[,g]) resource slots; freed slots are reused", DS[0]),
         ("resources slab", "slot -> value plus, per role, the set of quad slots using it", DS[0]),
         ("quads_indexes, resources_indexes", "B-trees of slots ordered by value", DS[0])]
prop("P01", "Datasets and graphs are exact sets under every history of mutations",
 "After any sequence of insertions, removals and other mutations, a dataset (indexed or not) holds exactly the quads, and a graph exactly the triples, that were inserted and not removed since, as told by membership tests, length and emptiness. Every insertion reports whether the element was new and every removal whether it was present, and neither changes anything else.",
 ["histories", "inputs"], "for every finite history of insert/remove/extract/remove-graph calls on every container, for every choice of resources, including quads that repeat a resource in several positions and histories that free and reuse internal slots",
 "The unit tests insert up to a few hundred random quads of distinct 32-bit numbers and remove half once: resources are never shared between positions or quads, nothing is re-inserted after a removal, and return values are not looked at.",
 DS + GR, slabs, [("insert / remove / contains / len", DS[0]), ("insert / remove / contains / len", GR[0])],
 ["insert", "remove", "contains", "len", "is_empty", "DatasetMut", "GraphMut"])
prop("P02", "Traversal is sorted and duplicate-free, comparison depends on content alone",
 "Whatever history produced a dataset or graph, iterating over it (by reference, by value or through the traversal traits) yields each element exactly once in increasing order. Equality, ordering and hashing of two containers of one kind depend only on the elements they hold, never on how they got there.",
 ["histories", "inputs"], "for every pair of histories leading to the same or to different contents",
 "The tests check the order of by-reference iteration after one insert phase and one remove phase; no test compares, orders or hashes containers, consumes one by value, or looks at one whose slots were reused.",
 DS + GR + ["src/quad.rs", "src/triple.rs"], slabs, [("iter / IntoIterator / TraversableDataset", DS[0]), ("PartialEq/Ord/Hash impls", DS[0])],
 ["iter", "into_iter", "quads", "triples", "quads_count", "==", "cmp", "Hash"])
prop("P03", "Resource and role listings are exact",
 "At every moment a dataset or graph lists as its resources exactly the resources occurring in some element, in increasing order, and as its subjects, predicates, objects and named graphs exactly those occurring in that position, each once. The corresponding counts and resource membership tests agree with the listings.",
 ["histories", "inputs"], "for every history, in particular when a resource plays several roles, in one element or several, and loses some of them",
 "No unit test reads a listing or a count; the only removals tested involve resources that occur once.",
 DS + GR + TR, [("subjects, predicates, objects, named_graphs", "sets of resource slots per role", DS[0])] + slabs,
 [("role sets updated in insert and on removal", DS[0]), ("occurrence counters", DS[1])],
 ["resources", "subjects", "predicates", "objects", "named_graphs", "*_count", "contains_resource"])
prop("P04", "Pattern matching returns exactly the matching elements",
 "For every pattern, made of given resources, free positions, repeated variables and a given, default or unconstrained graph, matching it against an indexed dataset or graph yields exactly the elements that satisfy it, each once, whatever history built the container. The membership and lookup helpers derived from matching (is this quad, triple, subject, predicate, object or named graph present; which predicates and objects does this subject have) give the same answer as the contents.",
 ["histories", "inputs"], "for every canonical pattern and every reachable container state",
 "No unit test performs a match: the search interleaves several index cursors over reusable slots, so its correctness depends on both the pattern shape and the layout left by the history.",
 [DS[0], GR[0]] + TR, slabs, [("SubjectConstraints/PredicateConstraints/ObjectConstraints/GraphConstraints::next", DS[0]), ("PatternMatching::next", GR[0]), ("default methods of PatternMatchingDataset / PatternMatchingGraph", TR[0])],
 ["pattern_matching", "quad_pattern_matching", "triple_pattern_matching", "contains_quad*", "contains_named_graph", "quad_objects", "quad_predicates_objects", "triple_objects", "triple_predicates_objects"])
prop("P05", "Multi-valued patterns match the union of their alternatives",
 "When positions of a pattern are given as lists of alternatives, matching yields exactly the quads whose component in each such position is one of the listed resources and which satisfy the rest of the pattern. Each matching quad is yielded once even if alternatives repeat or are unknown to the dataset, and an empty list matches nothing.",
 ["histories", "inputs"], "for every pattern shape, every choice of alternative lists and every reachable dataset state",
 "No unit test uses multi-valued patterns.",
 [DS[0], TR[0]], slabs, [("new_multi constructors, MultiPatternMatching::next", DS[0])], ["multi_pattern_matching", "quad_multi_pattern_matching"])
prop("P06", "Extraction removes exactly the quads it returns",
 "Extracting with a pattern yields only matching quads, each once, and every quad yielded is gone from the dataset while every other quad stays, even when the consumer stops part-way. When run to the end it yields all matching quads, and the dataset behaves in every later operation as if those quads had been removed one by one.",
 ["histories", "inputs"], "for every reachable state, pattern, and number of elements consumed before the iterator is dropped",
 "No unit test extracts anything; extraction mutates the indexes it is iterating over.",
 [DS[0]], slabs, [("ExtractPatternMatching::next, remove_by_index", DS[0])], ["extract_pattern_matching"])
prop("P07", "Removing a graph removes exactly that graph and returns it",
 "Removing a named graph, or the default graph, returns a graph made of exactly the triples it had, or nothing for a named graph that does not exist, and leaves exactly the quads of all other graphs in the dataset. Afterwards the named graph is no longer listed and every later operation behaves as if its quads had been removed one by one.",
 ["histories", "inputs"], "for every reachable state and every graph name, including names that also occur as subject, predicate or object",
 "No unit test calls it.",
 [DS[0]], [("default_graph, as_graph", "quad slots of each graph", DS[0])] + slabs, [("remove_graph, remove_by_index", DS[0])], ["remove_graph"])
prop("P08", "Conversions, copies and views preserve content and stay independent",
 "Cloning, collecting, extending, indexing a non-indexed container, consuming one into another, serialising and reading back, and viewing a graph as a dataset or through the fallible interfaces all preserve exactly the content, with the graph's triples seen as quads of the default graph. The resulting container answers every query and every later mutation like one built by plain insertion, and never affects the one it came from.",
 ["histories", "inputs"], "for every reachable state of the source, followed by every further history on source or result",
 "No unit test converts, clones, extends or views a container; the indexed form reuses the slots of the non-indexed one, so gaps left by removals carry over.",
 DS + GR + TR + ["src/dataset/fallible.rs", "src/dataset/graph/fallible.rs", "src/utils.rs"], slabs,
 [("from_non_indexed / into_indexed / From", DS[0]), ("blanket impls of dataset traits for graphs", TR[0]), ("Fallible* blanket impls", "src/dataset/fallible.rs")],
 ["clone", "clone_from", "serialise and read back", "collect", "extend", "into_indexed", "from_non_indexed", "From", "into_iter", "quads on a graph", "try_quads", "try_quad_pattern_matching", "try_contains_triple", "try_insert", "try_triples"])
prop("P09", "Canonical patterns mean the same as the patterns they come from",
 "Converting a triple, quad, optional-component or variable pattern to canonical form yields the pattern that accepts exactly the same quads, where equal variables denote equal components and an absent graph follows the documented rule of each conversion. Reading a canonical pattern component by component, borrowing it, mapping its resources, splitting off its graph or adding an unconstrained graph preserves every constraint.",
 ["inputs"], "for every assignment of resources and variables to the positions",
 "No unit test builds a canonical pattern; the case tree has some sixty leaves, each written by hand several times.",
 ["src/pattern/quad/canonical.rs", "src/pattern/triple/canonical.rs", "src/pattern/mod.rs", "src/pattern/resource_or_variable.rs"], [],
 [("from_pattern / from_option_* / from_triple / from_quad", "src/pattern/quad/canonical.rs"), ("into_parts, into_triple, as_ref, map, map2, with_any_graph", "src/pattern/quad/canonical.rs")],
 ["From impls", "subject/predicate/object/graph", "into_*", "into_parts", "into_triple", "map", "map2", "as_ref", "with_any_graph", "filter_triple"])
prop("P10", "Setting a component of a triple pattern narrows it as stated",
 "Setting the subject, predicate or object of a canonical triple pattern to a resource binds that position, and every position sharing its variable, to the resource, replaces a resource already given there, and leaves every other constraint as it was. The call returns the constraint the position had before. The nested forms of a pattern (the part after the subject, or after the predicate) offer the same calls and do so on the positions they hold, leaving the others alone.",
 ["inputs"], "for every canonical triple pattern, position and resource",
 "No unit test calls these methods.",
 ["src/pattern/triple/canonical.rs"], [], [("set_subject / set_predicate / set_object, with_*", "src/pattern/triple/canonical.rs")],
 ["set_subject", "set_predicate", "set_object", "with_subject", "with_predicate", "with_object"])
prop("P11", "A pattern map returns the values of exactly the matching patterns",
 "Looking a triple up in a pattern map yields every value inserted under a pattern that matches the triple, once per such pattern, and nothing else; inserting reports whether the value was new for that pattern. The union of two sub-maps behaves as if every entry of both had been inserted.",
 ["histories", "inputs"], "for every sequence of insertions and unions, and every looked-up triple",
 "No unit test uses the map.",
 ["src/pattern/triple/map.rs"], [("nested hash maps keyed by the pattern's given resources", "one set of values per pattern", "src/pattern/triple/map.rs")],
 [("insert / get / union_with on each level", "src/pattern/triple/map.rs")], ["TriplePatternMap::insert", "TriplePatternMap::get", "union_with"])
prop("P12", "Isomorphism is decided correctly",
 "Two datasets are reported isomorphic if and only if some bijection between their blank nodes turns one into exactly the other, whatever the blank node labels, the order in which quads were inserted, the position of the blank nodes and the kind of dataset. The decision is symmetric and does not depend on labels.",
 ["inputs"], "for every pair of finite datasets",
 "The tests decide 200 fixed positive and 20 fixed negative random pairs of one dataset type; the backtracking search prunes by signatures, which only misbehaves on structured inputs such as regular blank node graphs, repeated blank nodes, or pairs differing in ground quads or in one resource.",
 ["src/dataset/isomorphism.rs"], [("candidates", "per blank node, the blank nodes with a matching signature", "src/dataset/isomorphism.rs")],
 [("find_bijection_with, signature matching and backtracking", "src/dataset/isomorphism.rs")], ["are_isomorphic", "are_isomorphic_with", "find_bijection", "find_bijection_with"])
prop("P13", "A returned isomorphism really is one",
 "Whenever a blank node bijection is returned, its two directions are inverse to each other, its forward direction is defined on exactly the blank nodes of the first dataset and its backward direction on exactly those of the second, and renaming the first dataset with it gives exactly the second. It is returned exactly when the datasets are reported isomorphic.",
 ["inputs"], "for every pair of datasets for which a bijection is returned",
 "The tests apply the bijection found for 200 fixed random pairs in one direction; the other direction, its domain, and structured pairs that need backtracking are not looked at.",
 ["src/dataset/isomorphism.rs"], [("forward, backward", "the two directions of the bijection", "src/dataset/isomorphism.rs")],
 [("BTreeBijection::insert, find_from_candidates", "src/dataset/isomorphism.rs")], ["find_bijection", "BTreeBijection.forward/backward"])
prop("P14", "Blank node identifiers are exactly the strings of the documented grammar",
 "Every way of obtaining a checked blank node identifier from text (borrowed, owned, from a suffix, by parsing, by deserialising) accepts exactly the strings of the documented grammar and keeps the text unchanged, and a refusal hands the input back. Identifiers made from numbers are valid and distinct for distinct numbers.",
 ["inputs"], "for every Unicode string",
 "There is no unit test for blank node identifiers.",
 ["src/blankid.rs"], [], [("check, is_pn_char_base, is_pn_char_u, is_pn_char", "src/blankid.rs")],
 ["BlankId::new", "BlankIdBuf::new", "from_suffix", "FromStr", "Deserialize", "from_u8..from_u64", "suffix", "as_str"])
prop("P15", "Generated blank nodes are valid, distinct and end in a panic, never a repeat",
 "A numbered generator with a label-valid prefix produces, from its offset on, the identifiers made of its prefix and consecutive numbers; they are valid blank node identifiers and never repeat, and its counter advances by one with each. Once its numbers are exhausted it panics instead of repeating one, and the interpretations built on a generator hand out its identifiers unchanged, each once.",
 ["histories", "inputs"], "for every prefix, offset and number of calls, including the last available numbers",
 "There is no unit test for generators, and exhaustion needs an offset next to the largest machine integer.",
 ["src/term/generator/blank.rs", "src/term/generator/mod.rs", "src/term/generator/interpretation.rs", "src/interpretation/impl/with_generator.rs"], [("count", "next number", "src/term/generator/blank.rs")],
 [("next_blank_id", "src/term/generator/blank.rs"), ("new_resource", "src/term/generator/interpretation.rs")], ["Blank::*", "next_local_term", "new_resource"])
prop("P16", "What is rendered reads back as the same RDF",
 "The RDF rendering of any term, literal, triple, quad, graph or dataset is valid N-Quads text that an N-Quads reader turns back into exactly the same terms and statements, for any characters in literals, with plain strings rendered without datatype. Owned, borrowed and contextual values render identically, and asking for a width adds at most spaces around the text.",
 ["inputs"], "for every term and every finite dataset",
 "No unit test renders anything.",
 ["src/display.rs", "src/literal/mod.rs", "src/literal/ref.rs", "src/literal/type/mod.rs", "src/literal/type/ref.rs", "src/term/mod.rs", "src/term/local/mod.rs", "src/quad.rs", "src/triple.rs", "src/blankid.rs"] + DS + GR, [],
 [("RdfDisplay impls", "src/display.rs"), ("RdfDisplay for Literal and LiteralType", "src/literal/mod.rs")], ["rdf_display", "Display of Quad, Triple, Literal, LiteralRef"])
prop("P17", "Serialised values deserialise to themselves",
 "Serialising any term, literal, identifier, triple, quad, graph or dataset and deserialising the result gives back an equal value, a graph or dataset read from a list of statements holds exactly these whatever their order and repeats, and the three kinds of terms are never confused although they are written without tags. Text that is neither a valid IRI nor a valid blank node identifier is refused, and borrowed forms serialise like owned ones.",
 ["inputs", "configurations"], "for every value, with the serde feature enabled",
 "No unit test serialises anything.",
 ["src/term/mod.rs", "src/term/local/mod.rs", "src/literal/mod.rs", "src/literal/ref.rs", "src/literal/cow.rs", "src/literal/type/mod.rs", "src/blankid.rs", "src/quad.rs", "src/triple.rs"] + DS + GR, [],
 [("serde derives, untagged enums, container Visitor impls", "src/term/local/mod.rs")], ["Serialize", "Deserialize"])
prop("P18", "Owned, borrowed and copy-on-write terms agree",
 "Turning a term, literal, literal type or identifier into its borrowed or copy-on-write form and back gives an equal value, and every accessor and kind test tells what the value was built from. Equality, ordering and hashing give the same answer whichever mix of forms is compared, equality holds exactly when kind and components are equal, and the ordering is total and consistent with equality.",
 ["inputs"], "for every pair of terms and every pair of forms",
 "No unit test compares forms or terms.",
 ["src/term/mod.rs", "src/term/ref.rs", "src/term/cow.rs", "src/term/local/mod.rs", "src/term/local/ref.rs", "src/term/local/cow.rs", "src/literal/mod.rs", "src/literal/ref.rs", "src/literal/cow.rs", "src/literal/type/mod.rs", "src/literal/type/ref.rs", "src/literal/type/cow.rs", "src/id/mod.rs", "src/id/ref.rs", "src/id/cow.rs", "src/blankid.rs"], [],
 [("cross-form PartialEq/PartialOrd/Hash impls", "src/literal/ref.rs"), ("as_ref/as_cow/into_cow/into_owned/to_owned", "src/term/mod.rs")],
 ["as_ref", "as_cow", "into_cow", "into_owned", "to_owned", "as_*", "is_*", "==", "partial_cmp", "Hash"])
prop("P19", "Interpretations map terms and resources consistently",
 "Interpreting a term by any route (as IRI, literal, blank node, identifier, named or local term) gives the resource of that very term, inserting an already known term gives its existing resource, and asking for the terms of a resource returns exactly those interpreted as it. Wrapping an interpretation with a generator changes none of these answers, and each newly created resource is a fresh one bearing the generated term.",
 ["histories", "inputs"], "for every sequence of lookups, insertions and resource creations",
 "No unit test uses interpretations.",
 ["src/interpretation/mod.rs", "src/interpretation/fallible.rs", "src/interpretation/impl/none.rs", "src/interpretation/impl/with_generator.rs", "src/term/generator/interpretation.rs"], [],
 [("default dispatch methods of the interpretation traits", "src/interpretation/mod.rs"), ("delegation", "src/interpretation/impl/with_generator.rs")],
 ["iri", "literal", "term", "local_term", "id", "insert_*", "iris_of", "literals_of", "terms_of", "blank_ids_of", "local_terms_of", "is_anonymous", "new_resource", "try_new_resource"])
prop("P20", "Triples and quads carry their components faithfully",
 "Every accessor, borrowing, copying, mapping and conversion of a triple or quad yields the component or tuple it names, touching no other, and turning a triple into a quad of a graph and back loses nothing. Comparison is lexicographic on subject, predicate, object and then graph with the default graph first, and equality, partial and total order, and hash agree, also between owned and borrowed tuples.",
 ["inputs"], "for every tuple of components and every pair of tuples",
 "No unit test looks at accessors; comparison is only used through sorted containers of distinct numbers.",
 ["src/quad.rs", "src/triple.rs"], [], [("hand-written PartialEq/PartialOrd next to derived Eq/Ord/Hash", "src/quad.rs"), ("map*/into_*/with_graph", "src/quad.rs")],
 ["Quad::*", "Triple::*", "RdfQuad::as_lexical_quad_ref", "LexicalTriple::as_lexical_triple_ref"])
prop("P21", "The statement macros build the terms that are written",
 "A list of statements written with the triple or quad macros evaluates to an array with one triple or quad per statement, in order, whose components are exactly the written terms: IRIs, blank nodes, plain or typed literals, and Rust variables. A quad written without a graph lies in the default graph and one written with a graph lies in that graph.",
 ["programs", "inputs"], "for every sequence of statements over the supported term syntaxes, in every position",
 "The tests expand each macro once and discard the result.",
 ["src/macro.rs"], [], [("grdf_triple!, grdf_triples!, grdf_quad!, grdf_quads!", "src/macro.rs")], ["grdf_triple!", "grdf_triples!", "grdf_quad!", "grdf_quads!"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
