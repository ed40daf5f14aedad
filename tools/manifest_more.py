PAT = "TLA+ model of patterns checked with TLC; the model's enumerated behaviours replayed on the real code"
CH["P09"] = (PAT, "all raw patterns over 2 resources and 4 variables, all canonical patterns over 3 resources; theorems checked by TLC")
CH["P10"] = (PAT, "all sequences of up to 3 set calls from every canonical triple pattern over 2 resources")
CH["P11"] = (PAT + "; recorded random histories validated by a TLA+ trace specification", "all sequences of 3 insertions under any two canonical patterns over 2 resources, all lookups; random histories beyond")
TR = "; recorded executions validated by a TLA+ trace specification"
CH["P12"] = ("TLA+ definition of RDF isomorphism, decided by TLC on every enumerated pair; pairs and answers replayed on the real code" + TR, "all pairs of datasets over small universes; random, relabelled and one-quad-changed pairs beyond, the model deciding each")
CH["P13"] = ("TLA+ definition of an isomorphism witness; TLC enumerates isomorphic pairs, the real code's bijection is checked against the model" + TR, "as P12: every returned correspondence must be a bijection mapping one dataset onto the other")
CH["P14"] = ("TLA+ grammar of blank node labels; TLC enumerates words with verdicts, replayed on the real constructors" + TR, "all words up to a length over class representatives, every code point at every position; random words beyond")
CH["P15"] = ("TLA+ model of the generators' state machines; recorded sequences validated by a TLA+ trace specification", "random histories of generators with label-valid prefixes, start counts up to the maximum")
CH["P16"] = ("TLA+ reader of N-Quads over code points; every recorded rendering read back by the specification", "all short strings over special characters with each type, every code point in a literal; random terms and documents beyond")
CH["P19"] = ("TLA+ model of interpretations; the model's behaviours replayed on the real code" + TR, "all short histories over small vocabularies; random histories beyond")
CH["P17"] = ("TLA+ model of an observed code (one text per value, one value per text); recorded serialisations and deserialisations validated by a TLA+ trace specification", "all statements over 4 terms, all short texts over 8 characters; random terms, statements, containers and texts beyond; JSON only")
CH["P20"] = ("TLA+ model of triples and quads; the model's expected result of every operation replayed on the real types; recorded comparisons validated by a TLA+ trace specification", "all tuples over 3 components, all pairs over 2, incomparable components included; random pairs beyond")
CH["P18"] = ("TLA+ model of terms; the model's answer of every accessor and conversion replayed on the real forms; recorded comparison matrices validated by a TLA+ trace specification", "all terms over small component sets; random pools of terms beyond; equality of IRIs, tags and strings themselves taken from their crates")
CH["P21"] = ("TLA+ evaluator of macro token sequences; TLC-enumerated and random macro uses compiled against the real macros, results validated by a TLA+ trace specification", "all single statements over a small token alphabet, random multi-statement uses beyond; the macros grdf_triple, grdf_triples, grdf_quad, grdf_quads")
