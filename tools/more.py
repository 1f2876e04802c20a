prop("C08", "Malformed texts are rejected",
 "A text that breaks a rule of YAML's syntax is reported as an error by the parser, and no values are loaded from it: brackets and quotes that are not closed or do not match, missing or doubled commas, content that cannot follow a finished node, wrong or tabbed indentation, several anchors or tags on one node, properties on aliases, names of anchors and handles that were not declared, bad escapes, bad directives and block scalar headers, document markers inside flow collections and quoted scalars, implicit keys that span lines, block collections where none can start. The same text without the fault is accepted.",
 ["inputs"], "every fault of some fifty classes, with any content, at any place of a larger text",
 SUITE + "the suite's error cases show each fault once, bare; that it is still found in other surroundings and with other content needs generated ones.",
 [S, P], [("required simple keys, allowed positions", S + " (save_simple_key, stale_simple_keys, simple_key_allowed)"), ("indentation", S + " (unroll_indent, fetch_next_token)"), ("trailing content", S + " (scan_flow_scalar, fetch_flow_collection_end)"), ("expected tokens", P + " (the states' error arms)"), ("directives", P + " (parser_process_directives)")],
 "property-based testing: fault injection into generated texts, each with a faultless twin as the control",
 "Random search over fault classes, contents and surroundings; faults outside the classes are not covered. Not claimed: quoted scalars that go on at the column of the dash that holds them (the suite of the repository accepts them).")

prop("C10", "Spans and marks point at the text they are about",
 "Every event's span, and the mark of every error, lies within the text, on a character boundary, with the line and column that this byte has; starts never go back, and no end lies before its start. Scalars, aliases, collections and explicit document markers start at their first byte, quoted scalars, aliases and brackets end behind their last one. The end of the stream is reported at the end of the text.",
 ["inputs"], "every UTF-8 text, accepted or not, with any line ends",
 SUITE + "the tests compare events without their places.",
 [S, P], [("marker arithmetic (pos, line, col)", S + " (skip_blank, skip_n_non_blank, skip_linebreak, skip_ws_to_eol and the chunk-wise readers)"), ("spans of events", P)],
 "property-based testing: invariants over spans of any text, and model-based generation with known places",
 "Random search. Columns count bytes. Omitted nodes and the ends of block collections are only ordered, not placed; block scalars start behind their header, and white space and comments behind a token may count to it.")

prop("C11", "All ways of reading a text agree",
 "Pulling events, peeking any number of times in between, loading into event receivers (plain and spanned, document by document or as a whole), the event iterator and the tree loader all see the same events, spans, anchor ids, documents and errors. Peeking does not consume. Parsers and loaders made from a string or from a source behave alike, and loading the first document alone gives the first of all trees.",
 ["inputs", "histories"], "every text and every interleaving of next, peek and load calls",
 SUITE + "each test uses one way of reading; equality over all of them is a relation no single test states.",
 [P, PI, LD, PRE], [("peek cache", P + " (peek, next_event)"), ("load, load_document, load_node", P), ("iterator over the stream", PI), ("loader as event receiver", LD)],
 "property-based testing: differential between the APIs under random call schedules",
 "Random search over texts and schedules.", state=[("current", "event peeked at but not taken", P)])

prop("C12", "Loaded trees are what the events say",
 "Loading gives one tree per document: scalars resolved to values, sequences in order, mappings with their pairs in order, tagged nodes kept with their tag, an alias replaced by a copy of the node it names (a bad value where that node is not finished yet). Text that gives a parse error loads to that error and no trees. The same holds for a node type of one's own given to YamlLoader, whose nodes are told where they start and end.",
 ["inputs"], "every text that parses, and the error of every other one",
 SUITE + "loader tests hold a handful of documents; aliases of collections, tags on collections, complex keys and their nestings are unbounded.",
 [LD, PRE, YD, YM, P], [("stack of open nodes and keys", LD), ("anchor map", LD), ("tagged nodes", LD + ", " + YD)],
 "property-based testing: differential against an independent composer over the event stream",
 "Random search. The events are taken as given (C02 to C07 judge them).")

prop("C13", "Scalars resolve as the core schema says",
 "A plain scalar without a tag is null, a boolean, an integer (decimal, octal, hexadecimal, signed where allowed), a floating point number (with fraction, exponent, infinities and not-a-number) or a string exactly as the YAML core schema spells them, with the exact value: integers within 64 bits are not rounded and floats are the nearest ones. Quoted and block scalars are strings. An explicit core tag forces the type, giving a bad value where the text does not fit; other tags are kept.",
 ["inputs"], "every string as content, every style, every tag",
 SUITE + "a few spellings per type are tested; near misses (signs, dots, underscores, case, overflow) are endless.",
 [SC, YD, LD], [("spelling and parsing of values", SC), ("resolution of scalar events", LD + ", " + YD)],
 "property-based testing: differential against an independent matcher of the core schema",
 "Random search over spellings and one-character changes of them. Quoted scalars stay strings whatever core tag they have, and decimal integers beyond 64 bits become floats, octal and hexadecimal ones strings, as the code intends.")

prop("C09", "What carries no meaning changes nothing",
 "Whether a text is accepted, and what its events are, does not depend on how its line breaks are written (LF, CRLF or CR, except where quoted), on comment lines or blank lines in front of or behind it, on a byte order mark in front of it, or on an explicit document marker or another document around it: those add their own events and move the spans, nothing else. A document put under a key, a dash or an explicit key, or (a flow node) into a flow collection gives the same events inside the outer ones. Texts that are rejected stay rejected.",
 ["inputs"], "every text, accepted or rejected, and every such change",
 SUITE + "each layout is its own fixed test there; that layout and place do not matter is a relation between pairs of texts, of any size and kind, broken ones included.",
 [S, SRC, P], [("line breaks", SRC + " and " + S + " (skip_linebreak, chunk-wise readers)"), ("indentation relative to the parent", S + " (roll_indent, unroll_indent, scan_block_scalar)"), ("state between documents", P + " (document_start, document_end)")],
 "property-based testing: metamorphic relations between a generated text and a changed layout of it",
 "Random search over eleven changes of generated, mutated and arbitrary texts. NUL ends the input, so texts with NUL are not put in front of others.")

prop("C14", "Trees answer and change as plain values do",
 "Every node of a tree answers the questions of the access traits (type, is_*, as_*, into_*, indexing by number and key, lookups, iteration, length, emptiness) consistently with the value it holds, plain, spanned or tagged; a question that does not fit gives none, a bad value or the documented panic. Changes through the mutable accessors (assignment, take, push, removal, index) change that node and nothing else. Equality and copies agree with the values.",
 ["histories", "inputs"], "every tree and every sequence of changes to it",
 "The repository's tests call a few accessors on small trees; the table of accessors by kind of node, and what a change leaves untouched elsewhere, is not enumerated there.",
 [YD, YM, "yam-core/src/node/spanned_yaml.rs", "yam-core/src/node/mod.rs", SC], [("access traits and their default methods", "yam-core/src/node/mod.rs"), ("mutable index", YM), ("tagged nodes", YD)],
 "stateful property-based testing: random histories of changes against a plain model, with every accessor compared after them",
 "Random search over trees of some 15 nodes and histories of up to 10 changes.", state=[("tree", "nodes and the values they hold", YD)])

prop("C15", "Deserializing a document gives the values it says, or an error",
 "Reading a text into a type gives, for every type built from primitives, strings, options, newtypes, sequences, tuples, maps, structs and enums, the value that the document's node stands for under that type: fields by name in any order, ignored unknown fields, missing and null options, enums by name or single pair, however the document is written. A document that does not fit the type, a second document, a syntax error anywhere or content behind the document is an error, never a wrong or partial value. No integer is truncated or wrapped.",
 ["inputs", "programs"], "every type, every document, written in any way",
 "The repository's tests deserialize some dozen fixed types and texts; position in the event stream after nested, ignored, tagged and refused parts is state that only combinations of types reach.",
 [DE, SL, SC], [("one peek of the event stream, shared by nested readers", DE), ("end of collections", DE + " (SeqAccess, MapAccess, EnumAccess)"), ("errors and the end of the stream", SL + ", " + DE + " (error_or, finish)")],
 "property-based testing: random types and values of them, written at random, against a reference that maps the written tree to the type",
 "Random search over dynamically built types of up to 4 levels. Left open: strings and tagged scalars read into integer types.")

prop("C16", "Self-describing and ignored values take exactly one node each",
 "A value read without a type in mind (`deserialize_any`) is the tree the events say, with scalars as the core schema resolves them, sequences and pairs in order; an ignored value takes exactly one node, of any kind and depth. Both give an error when the text is malformed anywhere, has no document or more than one, or holds an alias; a syntax error is told as such. What follows an ignored or refused part is not affected by it.",
 ["inputs"], "every text",
 "The repository's tests ignore values and read self-describing ones in a few fixed texts only.",
 [DE, SL, SC], [("deserialize_any and deserialize_ignored_any", DE), ("errors and the end of the stream", SL)],
 "property-based testing: differential against the tree composed from the parser's own events",
 "Random search over any text. The events are taken as given (C02 to C07 judge them).")

prop("C17", "What is serialized reads back as the same value",
 "Every scalar that can be serialized (booleans, integers of all widths, floats, characters, strings of any content, options and unit) is written as YAML that deserializes to the same value of the same type, and loads as that value and no other: strings that look like other values stay strings, floats keep every bit, controls and line breaks survive, with any preferred line length and format.",
 ["inputs", "configurations"], "every scalar value and every formatter setting",
 "The repository's tests serialize a few strings and numbers; which contents need quoting or escapes, and where a long string may be split, are endless.",
 [SE, "yam-serde/src/escape_str.rs", SC], [("quoting and escapes", SE + ", yam-serde/src/escape_str.rs"), ("splitting of long strings at words", SE), ("floats", SE)],
 "property-based testing: round trip through the serializer, deserializer and loader",
 "Random search. Collections, structs, enums and bytes are not implemented by the serializer (`todo!()`), and null with the formatter that writes it as nothing is left out.")

prop("C18", "Comment events change nothing but tell comments",
 "With the `comment` feature, every text gives the same events as without, apart from comment events, and is accepted or rejected the same; every comment told is one that is in the text, whole, at its span, and none is told twice or out of order.",
 ["inputs", "configurations"], "every text, with comments at every place one may stand",
 "The repository's tests run without the feature, but for one or two; a comment token stands in the queue wherever other tokens are expected, in every state of the parser.",
 [S, P], [("comment tokens", S + " (scan_comment and its callers)"), ("comment events in every state", P)],
 "property-based testing: model-based generation with the feature on, invariants over told comments",
 "Random search. Which comments are told, and where among the other events, is left open: the code passes over most of them.")

prop("C19", "The cost of reading and writing stays in proportion to the text",
 "Parsing, peeking through, loading and deserializing a text, and serializing a string, take time and memory in proportion to its length: no text of repeated, nested or ever deeper pieces makes them look at the input, allocate or compute more than a fixed amount per byte. Trees that repeat what aliases name are as large as they say.",
 ["inputs"], "every text made of repeated pieces",
 "The repository's tests time nothing, and their texts are too short to tell linear from quadratic cost.",
 [S, SRC, P, LD, DE, SE], [("queue of tokens and possible keys", S), ("chunk-wise readers, lookahead", S + ", " + SRC), ("anchor, tag and state tables", P)],
 "fuzzing: generated repetitive texts of 6 to 200 KB against bounds per byte on input reads, allocations and CPU time",
 "Random search over pieces; bounds are 4 to 10 times what any text takes. One known finding: nested flow collections as keys.",
 hook="step counter in the source")
