#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "yam-core/src/parsing/parser.rs"
S = "yam-core/src/parsing/scanner.rs"
SRC = "yam-core/src/parsing/source.rs"
CU = "yam-core/src/parsing/char_utils.rs"
PI = "yam-core/src/parsing/parser_iter.rs"
LD = "yam-core/src/prelude/loader.rs"
PRE = "yam-core/src/prelude/mod.rs"
SC = "yam-core/src/node/scalar.rs"
YD = "yam-core/src/node/yaml_data.rs"
YM = "yam-core/src/node/yaml.rs"
DE = "yam-serde/src/de.rs"
SE = "yam-serde/src/ser.rs"
SL = "yam-serde/src/lib.rs"
SUITE = "The repository's tests are the fixed documents of the YAML test suite and some unit tests; "

props = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))

prop("C01", "Reading any text ends with a result or a reported error",
 "For every UTF-8 text, each way of reading it (pulling events, peeking, loading documents, loading into an event receiver, the event iterator, deserializing into any type) comes to an end with events, values or a reported error. It never panics, aborts, loops forever, reads outside the given text or hands out a string that is not valid UTF-8. This holds as well when a parser is asked for more events after it reported an error.",
 ["inputs"], "every UTF-8 text (up to 64 KiB in the search, nesting below some thousand levels) and every reading API",
 SUITE + "texts nobody would write (controls, NUL, cut off tokens, lone line ends, huge numbers) are not among them, and memory errors of unchecked reads do not show in a test that passes.",
 [S, SRC, P, PI, LD, DE], [("token scanning with unchecked reads behind length checks", S), ("skip, peek and prefix tests on the source", SRC), ("state stack of the parser", P), ("escape decoding", S + " (double-quoted scalars, tag URIs)"), ("peek and skip over events", DE)],
 "fuzzing: generated and mutated texts against a totality oracle (panic barrier, step budget, CPU limit, guard pages)",
 "Random search, no proof: a million fresh texts per quick run, each read through three of twelve APIs. Debug assertions, overflow checks and the unsafe-precondition checks of std are on; over-reads hit an unreadable page.",
 hook="step counter in the source, to tell loops from long runs")

prop("C02", "Events form a well-nested stream of one-rooted documents",
 "For every text, the events reported are one stream start, then documents that each hold exactly one node, with collections properly nested and mappings holding complete key-value pairs, then one stream end and nothing behind it; when an error is reported, the events before it are the beginning of such a stream. Anchor ids are positive and never given twice in a stream, and every alias names an id given earlier in the same document.",
 ["inputs"], "every UTF-8 text, accepted or not",
 SUITE + "they compare a few hundred event lists; that no text at all gives unbalanced events or a dangling alias is beyond them.",
 [P], [("state machine with a stack of states", P + " (state_machine, push_state, pop_state)"), ("anchor registration and lookup", P + " (register_anchor, parse_node)"), ("end of stream", P + " (next_event, peek)")],
 "property-based testing: grammar recognizer over the events of generated and mutated texts",
 "Random search over arbitrary texts with an explicit recognizer; no proof.")

prop("C03", "Flow scalars give back the text that was written",
 "A plain, single-quoted or double-quoted scalar is reported with its style and exactly the text it stands for, whatever characters it has: indicators inside words, spaces and tabs, every escape (hexadecimal ones of all lengths, escaped line breaks), doubled quotes, non-ASCII and long runs. Line folding gives one space for one line break and one less line break for several, with surrounding blanks dropped, the same for LF, CRLF and CR. This holds in every context (document root, block and flow collections, keys and values) and at any indentation allowed there.",
 ["inputs"], "every text of a scalar, every allowed way to write it, every context",
 SUITE + "they hold some dozens of scalars; combinations of content, escape, folding, context, chunk boundaries of the scanner and line ends are unbounded.",
 [S, CU, SRC], [("plain scalars, chunk-wise", S + " (fetch_plain_scalar, scan_plain_scalar)"), ("quoted scalars and escapes", S + " (scan_flow_scalar, resolve_flow_scalar_escape_sequence)"), ("line breaks", SRC)],
 "property-based testing: model-based generation (value first, text from it), differential against the model's events",
 "Random search over an independent writer of YAML; what the writer never writes is not covered.")

prop("C04", "Block scalars give back their lines",
 "A literal scalar is reported with exactly its lines, and a folded scalar with the lines folded (single breaks between plain lines become spaces; breaks next to more-indented or blank lines stay), after its indentation, detected or indicated, is removed. Final line breaks are kept, clipped or stripped as the header says. This holds at any nesting and indentation, with blank and more-indented lines, tabs, comments behind, non-ASCII content and all line ends.",
 ["inputs"], "every block scalar content, header, indentation and context",
 SUITE + "the interplay of indentation detection, blank lines, chomping, folding state and what follows the scalar is combinatorial.",
 [S], [("header, indentation detection, chomping, folding", S + " (scan_block_scalar and its helpers)")],
 "property-based testing: model-based generation, differential against the model's events",
 "Random search over an independent writer. Excluded as unsettled: indentation indicators at the top level, and block scalars whose last content line has no line break at the end of the input.")

prop("C05", "Collections have the structure that was written",
 "Block and flow sequences and mappings are reported with exactly the nodes, pairs and nesting written: implicit and explicit keys, omitted keys and values, compact and indentless forms, single pairs in flow sequences, adjacent values, trailing commas, nested collections as keys. The structure depends on indentation and indicators only, not on the amount of indentation, blank lines, comments, line ends or line breaks between tokens.",
 ["inputs"], "every tree of collections and every way to write it",
 SUITE + "tests hold shallow fixed shapes; interactions of states (flow in explicit key in indentless sequence ...) need generated nestings.",
 [S, P], [("indentation stack, simple keys", S + " (roll_indent, unroll_indent, save_simple_key, stale_simple_keys)"), ("flow levels and implicit flow mappings", S), ("block and flow states", P)],
 "property-based testing: model-based generation, differential against the model's events",
 "Random search over an independent writer; trees of up to some 60 nodes and 7 levels.")

prop("C06", "Anchors, aliases and tags belong to the right node",
 "Every anchor and tag is reported with the node it is written on, in either order, on scalars, collections and nodes without content. An alias refers to the latest node of the same document that was given that name before, and using a name that has no such node is an error. Tags are resolved with the handles of their own document (defaults for `!` and `!!`, declared ones, verbatim ones), and percent escapes are decoded as UTF-8. The parser tells the name that belongs to an id.",
 ["inputs"], "every placement of anchors, aliases and tags in streams of several documents",
 SUITE + "redefinition, scoping over documents and properties on omitted content occur in a handful of cases only.",
 [P, S], [("properties of a node", P + " (parse_node)"), ("anchor table", P + " (register_anchor)"), ("tag handles", P + " (parser_process_directives, resolve_tag)"), ("tag scanning, URI escapes", S + " (scan_tag and helpers)")],
 "property-based testing: model-based generation, differential against the model's events",
 "Random search over an independent writer.", state=[("anchors", "names of the document so far", P), ("tags", "handles of the document", P)])

prop("C07", "Documents and directives are told apart",
 "A stream is split into exactly the documents written, bare or explicit, empty or not, ended by a marker or not, and each document start says whether it is explicit. Directives apply to the document behind them only; reserved directives are passed over. With `keep_tags`, handles stay declared for later documents until one declares them anew. Document markers count at the start of a line only, also behind unfinished plain and block scalars.",
 ["inputs"], "every sequence of documents, markers, comments and directives",
 SUITE + "state that leaks from one document into the next shows only in generated sequences.",
 [P, S], [("document states", P + " (document_start, explicit_document_start, document_end)"), ("directives and markers", S + " (fetch_next_token, scan_directive)")],
 "property-based testing: model-based generation, differential against the model's events",
 "Random search over an independent writer; up to 4 documents per stream.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")) else None

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, _, _ in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "hooks": {"guard": "cfg(yam_verif)", "enable": "rustflags = [\"--cfg\", \"yam_verif\"] in harness/.cargo/config.toml (check.sh builds there)", "source_commits": ["71e677e", "7ca85d9"]},
 "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}", "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": t, "level": "exploration", "level_note": n} for p, t, n in props],
 "not_applicable": [],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
