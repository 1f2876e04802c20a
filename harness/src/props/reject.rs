//! C08: texts that are no YAML are rejected.
//!
//! Each case takes a valid text and a variant of it with one fault of a known
//! class in the same place, nested and surrounded the same way.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::huge::{ALL, Kind as Size, huge};
use crate::runner::Prop;

/// A pair of a fault and what it could have been.
struct Pair {
    class: &'static str,
    bad: String,
    good: String,
    /// Where it may stand.
    place: Place,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
    /// Any node in block or flow context; one line, not a block node.
    Inline,
    /// Any node in block context, lines indented with `\u{1}` for the column it starts at.
    Block,
    /// Only at the end of the text.
    Last,
    /// A whole stream.
    Stream,
}

use Place::*;

const SCALARS: &[&str] = &["a", "'b'", "\"c\"", "x y", "12", "é", "\"\"", "~"];
const QUOTED: &[&str] = &["'b'", "\"c\"", "'it''s'", "\"\\n\"", "''", "\"日本\""];
const WORDS: &[&str] = &["a", "key", "é", "x1", "long-word_here"];
const FLOWS: &[&str] = &["[a]", "{a: b}", "[]", "{}", "[a, [b, c]]", "{a: [b], c: {d: e}}", "[{a: b}]", "['x', \"y\"]"];

fn pair(class: &'static str, place: Place, bad: impl Into<String>, good: impl Into<String>) -> Pair {
    Pair { class, place, bad: bad.into(), good: good.into() }
}

fn hex(g: &mut G, n: usize) -> String {
    (0..n).map(|_| *g.pick(&['0', '1', '4', '7', 'a', 'B', 'e', 'F'])).collect()
}

/// What opens and closes flow collections around a node, if any.
fn in_flow(g: &mut G) -> (&'static str, &'static str) {
    if g.chance(1, 2) { ("", "") } else { *g.pick(&[("[", "]"), ("[x, ", "]"), ("{x: ", "}"), ("[[", "], y]"), ("{x: [", "], y: z}"), ("[{", ": y}]"), ("{x, ", ": z}"), ("[", ", y]")]) }
}

fn fault(g: &mut G) -> Pair {
    let w = *g.pick(WORDS);
    let w2 = *g.pick(WORDS);
    let q = *g.pick(QUOTED);
    let s = *g.pick(SCALARS);
    let f = *g.pick(FLOWS);
    let qf = if g.chance(1, 2) { q } else { f };
    match g.below(59) {
        0 => {
            // Closing brackets cut off, one or all.
            let k = g.range(1, f.bytes().rev().take_while(|b| matches!(b, b']' | b'}')).count());
            pair("unclosed-flow", Last, &f[..f.len() - k], f)
        }
        1 => {
            let q = *g.pick(&["'b", "\"c", "'it''s", "\"\\n", "\"a\\\"", "'''", "\"日本", "'", "\""]);
            pair("unclosed-quote", Last, q, format!("{q}{}", &q[..1]))
        }
        2 => {
            let (o, c, x) = *g.pick(&[('[', ']', '}'), ('{', '}', ']')]);
            let inner = *g.pick(&["", "a", "a, b", "'a'", "[b]", "{c: d}"]);
            pair("mismatched-bracket", Inline, format!("{o}{inner}{x}"), format!("{o}{inner}{c}"))
        }
        3 => {
            let c = *g.pick(&[']', '}']);
            let b = match g.below(3) {
                0 => format!("{f}{c}"),
                1 => format!("{f} {c}"),
                _ => format!("{c}"),
            };
            pair("stray-bracket", Block, b, f)
        }
        4 => pair("undefined-alias", Inline, format!("*{w}no"), s),
        5 => {
            // Known in the document in front only.
            let m = *g.pick(&["---\n", "...\n", "...\n---\n"]);
            let (a, b) = (format!("- &{w} {s}\n- *{w}\n{m}"), format!("- *{w}\n"));
            pair("alias-of-other-document", Stream, format!("{a}{b}"), format!("{a}- &{w} x\n{b}"))
        }
        6 => {
            let (bad, good) = match g.below(8) {
                0 => (format!("\\{}", g.pick(&['q', 'c', 'd', 'X', 'A', '1', '8', '\'', '`', '-', 'é', '.', ',', '[', 'l', 'p', 'i'])), "\\n".to_string()),
                1 => (format!("\\x{}", hex(g, 1)), format!("\\x4{}", hex(g, 1))),
                2 => (format!("\\u{}", hex(g, 3)), format!("\\u0{}", hex(g, 3))),
                3 => (format!("\\U0000{}", hex(g, 3)), format!("\\U00000{}", hex(g, 3))),
                4 => (format!("\\u{}{}", g.pick(&["d8", "DB", "dc", "dF"]), hex(g, 2)), format!("\\ud7{}", hex(g, 2))),
                5 => (format!("\\U{}", g.pick(&["00110000", "7fffffff", "ffffffff", "0000d800", "0000DFFF", "01000041"])), "\\U0010ffff".to_string()),
                6 => (format!("\\x{}g", hex(g, 1)), "\\xfe".to_string()),
                _ => (format!("\\u{} ", hex(g, 3)), "\\u1e9e ".to_string()),
            };
            let (p, t) = (*g.pick(&["", "a", "é ", "\\\\"]), *g.pick(&["", "z", " z", "\\\""]));
            pair("bad-escape", Inline, format!("\"{p}{bad}{t}\""), format!("\"{p}{good}{t}\""))
        }
        7 => {
            let t = *g.pick(&["\t", "\t\t", "\t "]);
            let x = *g.pick(&["b: c", "- c", "? c"]);
            let h = match g.below(7) {
                0 => format!("{w}: &a"),
                1 => "- !t".into(),
                2 => "- &a # b".into(),
                3 => "- &a !t\n".into(),
                4 => "? &a".into(),
                _ => format!("{w}:"),
            };
            let t = if g.chance(1, 3) { format!("\u{1} {t}") } else { t.to_string() };
            pair("tab-indentation", Block, format!("{h}\n{t}{x}"), format!("{h}\n\u{1} {x}"))
        }
        8 => {
            let x = *g.pick(&["- c", "b: c", "? c"]);
            pair("tab-indentation", Block, format!("- {w}: {s}\n\u{1}-\t{x}"), format!("- {w}: {s}\n\u{1}- {x}"))
        }
        9 => {
            // Between two levels.
            let v = if g.chance(1, 2) { q } else { f };
            let (x, y) = (format!("{w}:\n\u{1}  {w2}: {v}\n\u{1}"), format!("x{w2}: {s}"));
            pair("wrong-indentation", Block, format!("{x} {y}"), format!("{x}  {y}"))
        }
        10 => {
            let (x, y) = (format!("{w}:\n\u{1}  - {qf}\n\u{1}"), format!("- {s}"));
            pair("wrong-indentation", Block, format!("{x} {y}"), format!("{x}  {y}"))
        }
        11 => {
            // More than the siblings.
            let x = format!("{w}: {qf}\n\u{1}");
            let k = g.range(1, 3);
            pair("wrong-indentation", Block, format!("{x}{}x{w2}: {s}", " ".repeat(k)), format!("{x}x{w2}: {s}"))
        }
        12 => {
            let x = format!("- {qf}\n\u{1}");
            pair("wrong-indentation", Block, format!("{x} - {s}"), format!("{x}- {s}"))
        }
        13 => {
            let (p, q) = *g.pick(&[("&a ", "&b "), ("!a ", "!b "), ("!!str ", "!a "), ("&a ", "&a ")]);
            let both = *g.pick(&["", "!t ", "&z "]);
            let both = if both.starts_with(&p[..1]) { "" } else { both };
            pair("two-anchors-or-tags", Inline, format!("{p}{both}{q}{s}"), format!("{p}{both}{s}"))
        }
        14 => {
            let p = *g.pick(&["&b ", "!t ", "!!str ", "&b !t "]);
            let (a, b) = (format!("- &{w} {s}\n\u{1}- "), format!("*{w}"));
            pair("alias-with-properties", Block, format!("{a}{p}{b}"), format!("{a}{b}"))
        }
        15 => {
            let t = *g.pick(&[" b", " 'b'", " \"b\"", " [b]", " {b: c}", " &a", " !t", " *a", " -", " |"]);
            pair("content-behind", Inline, format!("{qf}{t}"), qf)
        }
        16 => pair("content-behind", Inline, format!("{q}{}", g.pick(&["b", "1", "é", "-"])), q),
        17 => {
            let v = *g.pick(&["- b", "b: c", "'b': c", "\"b\": c", "[b]: c", "? b", "{b}: c", "&a b: c", "!t b: c", "&a - b", "b: - c", "b: c: d"]);
            pair("block-collection-on-the-key's-line", Block, format!("{w}: {v}"), format!("{w}: {s}"))
        }
        18 => {
            let d = *g.pick(&["", "%TAG !e! x:\n", "%FOO\n", "# c\n", "%TAG ! x:\n%TAG !! y:\n", "%FOO bar\n%TAG !e! x:\n"]);
            let v = *g.pick(&["1.2", "1.1", "1.3"]);
            pair("second-yaml-directive", Stream, format!("%YAML 1.2\n{d}%YAML {v}\n---\n{s}\n"), format!("%YAML 1.2\n{d}---\n{s}\n"))
        }
        19 => {
            let v = *g.pick(&["1", "1.", ".2", "a.b", "1.2 3", "1.x", "-1.2", "", "1 .2", "1.2#c", "1.2.3"]);
            pair("bad-yaml-directive", Stream, format!("%YAML {v}\n---\n{s}\n"), format!("%YAML 1.2\n---\n{s}\n"))
        }
        20 => {
            let v = *g.pick(&["!e! ", "!e!", "!e x:", "e! x:", "! x: y", "", "!e!x:", "! ", "!é! x:"]);
            pair("bad-tag-directive", Stream, format!("%TAG {v}\n---\n{s}\n"), format!("%TAG !e! x:\n---\n{s}\n"))
        }
        21 => {
            let d = *g.pick(&["", "%TAG !f! x:\n", "%FOO\n", "%YAML 1.2\n", "# c\n", "%TAG ! x:\n%TAG !! y:\n", "%FOO bar\n%TAG !d! x:\n%BAR\n"]);
            let (h, p) = (*g.pick(&["!e!", "!eE!", "!0!"]), *g.pick(&["x:", "y:", "!y"]));
            pair("second-tag-directive", Stream, format!("%TAG {h} x:\n{d}%TAG {h} {p}\n---\n{s}\n"), format!("%TAG {h} x:\n{d}%TAG !g! y:\n---\n{s}\n"))
        }
        22 => {
            let t = *g.pick(&["a", "x1", "%C3%A9", "a-b"]);
            if g.chance(1, 3) {
                // One that looks much like it is declared.
                let (a, b) = *g.pick(&[("!e!", "!E!"), ("!E!", "!e!"), ("!ee!", "!e!"), ("!e!", "!ee!"), ("!e1!", "!e!"), ("!e!", "!e1!"), ("!e-!", "!e!"), ("!aB!", "!ab!"), ("!1!", "!01!")]);
                let p = *g.pick(&["x:", "!x", "tag:e.org,2000:", &b[..b.len() - 1]]);
                pair("undeclared-handle", Stream, format!("%TAG {a} {p}\n---\n- {b}{t} {s}\n"), format!("%TAG {b} {p}\n---\n- {b}{t} {s}\n"))
            } else if g.chance(1, 2) {
                // Others are declared.
                let d = *g.pick(&["%TAG !f! x:\n", "%TAG ! x:\n", "%TAG !! x:\n%TAG !ee! y:\n", "%YAML 1.2\n%TAG !E! y:\n", "%TAG !e1! x\n", "%TAG ! !e!\n"]);
                pair("undeclared-handle", Stream, format!("{d}---\n- !e!{t} {s}\n"), format!("{d}%TAG !e! z:\n---\n- !e!{t} {s}\n"))
            } else {
                pair("undeclared-handle", Inline, format!("!e!{t} {s}"), format!("!{t} {s}"))
            }
        }
        23 => {
            let m = *g.pick(&["...\n", "---\n- x\n...\n"]);
            let (a, b) = (format!("%TAG !e! x:\n---\n- !e!t {s}\n{m}"), format!("- !e!t {s}\n"));
            pair("handle-of-other-document", Stream, format!("{a}---\n{b}"), format!("{a}%TAG !e! x:\n---\n{b}"))
        }
        24 => {
            let d = *g.pick(&["%YAML 1.2\n", "%TAG !e! x:\n", "%YAML 1.2\n%TAG ! x:\n"]);
            let t = match g.below(3) {
                0 => String::new(),
                1 => "...\n".to_string(),
                _ => format!("{s}\n"),
            };
            pair("directive-without-document", Stream, format!("{d}{t}"), format!("{d}---\n"))
        }
        25 => {
            // Not indented enough for what goes on.
            let (a, b) = *g.pick(&[("\"a", "b\""), ("'a", "b'"), ("[a,", "b]"), ("{a: b,", "c: d}"), ("[", "]"), ("{", "}"), ("\"a\\", "b\""), ("\"a\\", "\""), ("\"\\", "\\ \""), ("'a", "'")]);
            let d = if a.ends_with('\\') { "" } else { g.pick(&["", "\n"]) };
            // Known finding: behind a plain scalar, what is in a flow collection need not be indented.
            let (o, e) = in_flow(g);
            let o = o.replace('x', "'x'");
            pair("not-indented-enough", Block, format!("{w}: {o}{a}{d}\n\u{1}{b}{e}"), format!("{w}: {o}{a}{d}\n\u{1} {b}{e}"))
        }
        26 => {
            let i = *g.pick(&["|", ">"]);
            let h = *g.pick(&["0", "-+", "+-", "--", "++", "10", "2x", "x", " x", "-x", "- x", "1 2", "11", "-0", "+12", "-1-", "#c", "2#c", "!", "\"", "é"]);
            pair("bad-block-scalar-header", Block, format!("- {i}{h}\n\u{1}  a"), format!("- {i}\n\u{1}  a"))
        }
        27 => {
            let i = *g.pick(&["|", ">", "|-", ">+"]);
            let k = g.range(1, 4);
            let (d, h) = (" ".repeat(g.range(1, 3)), g.pick(&["-", "k:", "?"]));
            let (a, b) = (format!("{h} {i}\n\u{1}{d}"), format!("\n\u{1}{d}{w}"));
            pair("leading-blank-line-too-long", Block, format!("{a}{}{b}", " ".repeat(k)), format!("{a}{b}"))
        }
        28 => pair("comment-without-space", Inline, format!("{qf}#c"), qf),
        29 => pair("comment-without-space", Block, format!("[a,#c\n\u{1} b]"), "[a, #c\n\u{1} b]"),
        30 => pair("reserved-indicator", Inline, format!("{}{w}", g.pick(&['@', '`'])), format!("x@{w}")),
        31 => pair("percent-at-the-start", Block, format!("{w}: %{w2}"), format!("{w}: x%{w2}")),
        32 => {
            let (k, l) = *g.pick(&[("\"a", "b\""), ("'a", "b'"), ("a", "b"), ("[a,", "b]"), ("{a,", "b}")]);
            pair("key-of-several-lines", Block, format!("{k}\n\u{1} {l}: {s}"), format!("{k} {l}: {s}"))
        }
        33 => {
            let n = g.range(1025, 1400);
            let (o, c) = *g.pick(&[("", ""), ("'", "'"), ("\"", "\""), ("[", "]"), ("{", "}")]);
            // The limit is 1024 characters, whatever they take.
            let k = *g.pick(&["k", "k", "é", "日", "😀"]);
            let m = g.range(1, 1022);
            pair("key-too-long", Block, format!("{o}{}{c}: {s}", k.repeat(n)), format!("{o}{}{c}: {s}", k.repeat(m)))
        }
        34 => {
            let m = *g.pick(&["---", "...", "--- ", "... #"]);
            let (a, b) = *g.pick(&[("\"a", "b\""), ("'a", "b'"), ("[a,", "b]"), ("{a: b,", "c: d}"), ("[a", ",b]")]);
            let (o, e) = in_flow(g);
            let t = g.pick(&["- ", "", "k: "]);
            // The marker may be all there is, or have the rest behind it.
            let r = if m == "... #" || g.chance(1, 2) { "\n " } else { *g.pick(&[" ", "\t", "\n", "\n\n "]) };
            pair("marker-inside", Stream, format!("{t}{o}{a}\n{m}{r}{b}{e}\n"), format!("{t}{o}{a}\n\n {b}{e}\n"))
        }
        35 => pair("mixed-collections", Block, format!("- {s}\n\u{1}{w}: {s}"), format!("- {s}\n\u{1}- {s}")),
        36 => pair("mixed-collections", Block, format!("{w}: {qf}\n\u{1}- {s}"), format!("{w}: {qf}\n\u{1}x{w2}: {s}")),
        37 => {
            let m = *g.pick(&["", "x: y\n"]);
            pair("key-without-value-indicator", Block, format!("{w}: {qf}\n\u{1}{w2}x\n\u{1}z: {s}"), format!("{w}: {qf}\n\u{1}{w2}x:\n\u{1}z: {s}{}", &m[..0]))
        }
        38 => pair("entry-without-dash", Block, format!("- {qf}\n\u{1}{}\n\u{1}- {s}", g.pick(QUOTED)), format!("- {qf}\n\u{1}- {q}\n\u{1}- {s}")),
        39 => pair("content-behind-document-end", Stream, format!("{s}\n... {}\n", g.pick(&["x", "'x'", "[x]", "- x", "x: y", "...", "---"])), format!("{s}\n... # c\n")),
        40 => {
            let (b, o) = *g.pick(&[("[,a]", "[a]"), ("[a,,b]", "[a,b]"), ("{,a: b}", "{a: b}"), ("{a: b,, c: d}", "{a: b, c: d}"), ("[,]", "[]"), ("{,}", "{}"), ("[a, ,]", "[a ,]"), ("['a',,]", "['a',]"), ("[[a],, b]", "[[a], b]")]);
            pair("extra-comma", Inline, b, o)
        }
        41 => {
            let (b, o) = *g.pick(&[
                ("[\"a\" \"b\"]", "[\"a\", \"b\"]"), ("[[a] [b]]", "[[a], [b]]"), ("{\"a\": b, \"c\" \"d\"}", "{\"a\": b, \"c\": \"d\"}"), ("['a' b]", "['a', b]"),
                ("[{a} b]", "[{a}, b]"), ("{'a' : 'b' 'c' : d}", "{'a' : 'b', 'c' : d}"), ("{[a]: [b] c: d}", "{[a]: [b], c: d}"), ("[a: 'b' c]", "[a: 'b', c]"), ("{a: 'b' c}", "{a: 'b', c}"),
            ]);
            pair("missing-comma", Inline, b, o)
        }
        42 => {
            let v = *g.pick(&["a: b", "- a", "? a", "&x a: b", "'a': b", "[a]: b"]);
            pair("block-collection-on-the-marker's-line", Stream, format!("--- {v}\n"), format!("---\n{v}\n"))
        }
        43 => pair("properties-on-the-dash's-line", Block, format!("{} - {s}", g.pick(&["&a", "!t", "&a !t"])), format!("- &a {s}")),
        44 => {
            let (b, o) = *g.pick(&[("& a", "&b a"), ("* a", "'* a'"), ("!<x a", "!<x> a"), ("!<x y> a", "!<xy> a"), ("!%zz a", "!%7a a"), ("!%4 a", "!%4a a"), ("!<> a", "!<a> a"), ("!!%C3 a", "!!%C3%A9 a"), ("!%FF a", "!%7F a")]);
            pair("bad-property", Inline, b, o)
        }
        45 if g.chance(1, 3) => {
            let h = match g.below(4) {
                0 => format!("{w}:"),
                1 => format!("? {w}\n\u{1}:"),
                2 => "?".into(),
                _ => "-".into(),
            };
            let (a, b) = *g.pick(&[("[", "a]"), ("{", "a: b}"), ("[", "]"), ("{", "}"), ("[\"a\",", "b]"), ("[ []", "]"), ("{'a': 'b'", "}"), ("[[]", ",a]"), ("[*a,", "'b']")]);
            let a = a.replace("*a,", "{},");
            let t = *g.pick(&["\t", "\t\t", "\t "]);
            pair("tab-indentation", Block, format!("{h} {a}\n{t}{b}"), format!("{h} {a}\n\u{1} {t}{b}"))
        }
        45 => {
            let (a, b) = *g.pick(&[("\"a", "b\""), ("'a", "b'"), ("a", "b"), ("x y", "z"), ("|", "a"), (">", "a b")]);
            let t = *g.pick(&["\t", "\t\t", "\t "]);
            // Quoted scalars that a dash in column 1 holds may go on there (the suite has one).
            let h = if a.starts_with(['"', '\'']) { format!("{w}:") } else { "-".into() };
            pair("tab-indentation", Block, format!("{h} {a}\n{t}{b}"), format!("{h} {a}\n\u{1}  {b}"))
        }
        46 => {
            let e = *g.pick(&["---", "...", "--- a"]);
            let (a, b) = *g.pick(&[("[", "]"), ("{", "}"), ("[a, ", "]"), ("{a: ", "}"), ("[{", "}]"), ("[[b], ", "]"), ("{a, b: [", "]}"), ("['a'", "]"), ("{'a':", "}"), ("[? a", "]"), ("[?", "]"), ("{? a", ": b}")]);
            pair("marker-inside", Stream, format!("- {a}\n{e}\n {b}\n"), format!("- {a}\n {b}\n"))
        }
        47 => {
            let a = *g.pick(&["'a'", "[a]", "a: b", "- a", "\"a\"", "{a: b}", "|\n a", "- - a"]);
            let d = *g.pick(&["%YAML 1.2\n", "%TAG !e! x:\n", "%YAML 1.2\n%TAG ! x:\n"]);
            pair("directive-behind-content", Stream, format!("{a}\n{d}---\n{s}\n"), format!("{a}\n...\n{d}---\n{s}\n"))
        }
        48 => {
            let (b, o) = *g.pick(&[("{a:[b]}", "{a: [b]}"), ("{a:{b: c}}", "{a: {b: c}}"), ("[a:[b]]", "[a: [b]]"), ("[x, a:{b}]", "[x, a: {b}]")]);
            pair("value-without-space", Inline, b, o)
        }
        49 => {
            let (b, o) = *g.pick(&[("[a\n\u{1} : b]", "[a : b]"), ("['a'\n\u{1} : b]", "['a' : b]"), ("[x, a\n\u{1} b: c]", "[x, a b: c]"), ("[[a]\n\u{1} : b]", "[[a] : b]"), ("[\"a\n\u{1} b\": c]", "[\"a b\": c]")]);
            pair("key-of-several-lines", Block, b, o)
        }
        50 => {
            let (b, o) = *g.pick(&[("!a{b} c", "!ab c"), ("!a,b c", "!ab c"), ("!a[b] c", "!ab c"), ("!a\"b\"", "!a \"b\""), ("!<a>b", "!<a> b"), ("!!str\"a\"", "!!str \"a\"")]);
            pair("bad-property", Block, b, o)
        }
        51 => {
            let b = *g.pick(&["%C3%41", "%E2%82", "%C0%80", "%ED%A0%80", "%C3", "%80", "%F0%9F%98", "%F5%80%80%80", "%C3%C3%A9", "%E2%82%AC%", "%4", "%g0", "%-1"]);
            let (p, t) = *g.pick(&[("!", " a"), ("!<x:", "> a"), ("!!", " a"), ("!x", " a")]);
            pair("bad-escape-in-tag", Inline, format!("{p}{b}{t}"), format!("{p}%C3%A9{t}"))
        }
        52 => {
            let x = *g.pick(&["b", "'b'", "[b]", "&a b", "- b"]);
            pair("content-behind", Block, format!("{w}: {qf}\n\u{1} {x}"), format!("{w}: {qf}\n\u{1} # {x}"))
        }
        54 => {
            // A comment ends a plain scalar.
            let t = *g.pick(&[" ", "\t", "  ", " \t", "\t "]);
            let c = *g.pick(&["#", "# c", "#c", "##"]);
            let (x, y) = (format!("{w}:\n\u{1}  {w2}\n"), format!("\n\u{1}  {}", g.pick(&["b", "x y", "1"])));
            if g.chance(1, 3) {
                pair("content-behind-comment", Block, format!("[{w2} {t}{c}{y} ]"), format!("[{w2} {t},{t}{c}{y} ]"))
            } else {
                pair("content-behind-comment", Block, format!("{x}\u{1}{t}{c}{y}"), format!("{x}\u{1}   x{c}{y}"))
            }
        }
        55 => {
            let a = match g.below(6) {
                0 => format!("|\n {w}"),
                1 => format!("- {qf}"),
                2 => format!("{w}: {qf}"),
                3 => format!("? {w}\n: {qf}"),
                4 => format!("--- {qf}"),
                _ => qf.to_string(),
            };
            let b = *g.pick(&["[b]", "'b'", "{b: c}", "&a b", "!t b", "\"b\"", "|\n b", "&a [b]"]);
            pair("second-root", Stream, format!("{a}\n{b}\n"), format!("{a}\n---\n{b}\n"))
        }
        56 => {
            // A block collection may only start where its siblings do.
            let (a, b) = *g.pick(&[("- 'a'", "x: y"), ("'a': b", "- c"), ("[a]", "- c"), ("[a]", "b: c"), ("'a'", "? b"), ("|\n a", "b: c"), ("- a: b", "c: d"), ("- - a", "b")]);
            pair("second-root", Stream, format!("{a}\n{b}\n"), format!("{a}\n---\n{b}\n"))
        }
        57 => {
            // Properties belong to the node behind them, and are indented as it has to be.
            let p = *g.pick(&["&a", "!t", "&a !t", "!t &a", "&a # c", "!<x>"]);
            let n = *g.pick(&["- b", "b: c", "b", "'b'", "? b", "[b]"]);
            let h = match g.below(4) {
                0 => format!("{w}:"),
                1 => format!("? {w}\n\u{1}:"),
                2 => "-".into(),
                _ => "- - x\n\u{1}-".into(),
            };
            let l = *g.pick(&["", "# c\n", "\n"]);
            pair("properties-not-indented", Block, format!("{h}\n{l}\u{1}{p}\n\u{1}{n}"), format!("{h}\n{l}\u{1} {p}\n\u{1} {n}"))
        }
        53 => {
            let i = match g.below(4) {
                0 => format!("{w}:"),
                1 => format!("? {w}\n\u{1}:"),
                2 => "?".into(),
                _ => "-".into(),
            };
            let t = *g.pick(&["\t", " \t", "\t "]);
            pair("block-collection-behind-tab", Block, format!("{i}{t}{}", g.pick(&["- b", "b: c", "? b", "'b': c", "[b]: c", "&a b: c"])), format!("{i}{t}{s}"))
        }
        _ => {
            let (b, o) = *g.pick(&[("[- a]", "[-a]"), ("{- a}", "{-a}"), ("[a, - b]", "[a, -b]"), ("[|\n \u{1}a\n \u{1}]", "['|a'\n \u{1}]"), ("{a: >\n \u{1}b\n \u{1}}", "{a: '>b'\n \u{1}}"), ("[-]", "['-']"), ("[-, a]", "['-', a]"), ("{-}", "{'-'}"), ("[-[a]]", "['-',[a]]"), ("{a: -}", "{a: '-'}"), ("[-{a: b}]", "[{a: b}]"), ("[a, -,]", "[a, '-',]"),
                ("[|]", "['|']"), ("[a, >]", "[a, '>']"), ("{a: b: c}", "{a: 'b: c'}"), ("[a: b: c]", "[a: 'b: c']")]);
            pair("block-style-in-flow", Block, b, o)
        }
    }
}

/// Surroundings: text in front, the column of the node, text behind.
struct Ctx {
    pre: String,
    col: usize,
    post: String,
}

fn block_ctx(g: &mut G, last: bool) -> Ctx {
    let mut pre = String::new();
    let mut post = String::new();
    if g.chance(1, 6) {
        pre.push_str(g.pick(&["# c\n", "\n", "---\n", "%YAML 1.2\n---\n", "x: y\n---\n", "- |\n a\n...\n", "[a]\n---\n", "# c\n---\n\n"]));
    }
    let mut col = 0;
    // Whether the node goes on where a collection's entry starts.
    let mut at_bol = true;
    for _ in 0..g.weighted(&[4, 3, 2, 1]) {
        let ind = " ".repeat(col);
        let mut before = String::new();
        let map = g.chance(1, 2);
        if at_bol && g.chance(1, 3) {
            before = if map { format!("b{col}: [x]\n{ind}") } else { format!("- 'x'\n{ind}") };
        }
        if !last && g.chance(1, 2) {
            post = if map { format!("{ind}e{col}: 1\n{post}") } else { format!("{ind}- z\n{post}") };
        }
        pre.push_str(&before);
        if map {
            let d = g.range(1, 3);
            pre.push_str(&format!("k{col}:\n"));
            col += d;
            pre.push_str(&" ".repeat(col));
            at_bol = true;
        } else if g.chance(2, 3) {
            pre.push_str("- ");
            col += 2;
            at_bol = true;
        } else {
            let d = g.range(1, 3);
            pre.push_str("-\n");
            col += d;
            pre.push_str(&" ".repeat(col));
            at_bol = true;
        }
    }
    Ctx { pre, col, post }
}

fn build(g: &mut G) -> (Pair, String, String) {
    let p = fault(g);
    if p.place == Stream {
        let pre = *g.pick(&["", "# c\n", "a: b\n...\n", "--- [x]\n...\n", "\n"]);
        let post = if p.bad.ends_with('\n') && g.chance(1, 3) && p.class != "directive-without-document" { "---\nz\n" } else { "" };
        // A whole stream of a size at which counters end may be in front.
        let far = if g.chance(1, 1500) {
            let kinds: Vec<Size> = ALL.iter().copied().filter(|k| !matches!(k, Size::FlowNest | Size::BlockNest)).collect();
            format!("{}...\n", huge(g, &kinds, 1000).text)
        } else {
            String::new()
        };
        let mk = |s: &str| format!("{far}{pre}{s}{post}");
        return (Pair { class: p.class, bad: String::new(), good: String::new(), place: p.place }, mk(&p.bad), mk(&p.good));
    }
    let mut c = block_ctx(g, p.place == Last);
    if g.chance(1, 10_000) {
        let n = crate::huge::size(g, 100_000);
        c.pre = match g.below(4) {
            0 => format!("{}{}", g.pick(&["# c\n", "\n", "\r\n", "\r"]).repeat(n), c.pre),
            1 => format!("# {}\n{}", "c".repeat(n), c.pre),
            2 if c.pre.starts_with("- ") && !c.pre.contains("---") => format!("{}{}", g.pick(&["- x\n", "- [a, b]\n", "- k: v\n  l: w\n", "- - - y\n"]).repeat(n), c.pre),
            _ => format!("{}...\n{}", g.pick(&["--- x\n", "---\nk: v\n", "---\n- [a]\n"]).repeat(n), c.pre),
        };
    }
    // In a flow collection, as a value, or as it is.
    let (mut a, mut z) = (String::new(), String::new());
    if matches!(p.place, Inline | Last) {
        match g.below(4) {
            0 => {}
            1 => a = "v: ".into(),
            _ => {
                let (o, e) = *g.pick(&[("[", "]"), ("[q, ", "]"), ("{v: ", "}"), ("{x: 'y', v: ", "}"), ("[", ", r]"), ("[[[", "]]]"), ("{v: [", "], w: q}"), ("[v: ", "]")]);
                a = o.into();
                z = e.into();
            }
        }
        if p.place == Last {
            // What would close stays outside of an open quote.
            z = String::new();
        }
    }
    let ind = " ".repeat(c.col);
    let mk = |s: &str, z: &str| {
        let body = format!("{a}{s}{z}").replace('\u{1}', &ind);
        format!("{}{body}\n{}", c.pre, c.post)
    };
    let close = if p.place == Last {
        // The good one is closed.
        a.chars().rev().filter_map(|c| match c {
            '[' => Some(']'),
            '{' => Some('}'),
            _ => None,
        }).collect()
    } else {
        z.clone()
    };
    let mut bad = mk(&p.bad, &z);
    let good = mk(&p.good, &close);
    if p.place == Last {
        match g.below(4) {
            0 => bad.push_str("---\nx\n"),
            1 => bad.push_str("...\n"),
            2 => {
                bad.pop();
            }
            _ => {}
        }
    }
    (p, bad, good)
}

fn check(bad: &str, good: &str, class: &str) -> Result<(), String> {
    let p = parse(good)?;
    if let Some(e) = p.err {
        return Err(format!("good-{class}: the correct text {good:?} is rejected: {e}"));
    }
    let p = parse(bad)?;
    if p.ok() {
        return Err(format!("accepted-{class}: {}", show(&p.evs)));
    }
    let r = guarded(bad.len(), || {
        use yam_core::prelude::*;
        Yaml::load_from(bad).is_ok()
    })?;
    if r {
        return Err(format!("loaded-{class}: loads although parsing fails"));
    }
    Ok(())
}

/// How often generated faults meet which error.
pub fn errors(n: u64) -> std::collections::BTreeMap<String, usize> {
    let mut m = std::collections::BTreeMap::new();
    for i in 0..n {
        let (_, bad, _) = build(&mut G::random(mix(&[77, i])));
        if let Ok(Parsed { err: Some(yam_core::prelude::YamlError::ScannerErr { info, .. }), .. }) = parse(&bad) {
            *m.entry(info.to_string()).or_default() += 1;
        }
    }
    m
}

/// Brackets thousands deep, one of which is missing, of the other kind or too many.
fn deep(g: &mut G) -> (String, String) {
    let n = crate::huge::size(g, 100_000);
    let k = 1 + g.below(4);
    let kinds: Vec<bool> = (0..k).map(|_| g.chance(1, 3)).collect();
    let open: String = (0..n).map(|i| if kinds[i % k] { "{k: " } else { "[" }).collect();
    let mut close: Vec<u8> = (0..n).rev().map(|i| if kinds[i % k] { b'}' } else { b']' }).collect();
    let good = format!("{open}x{}\n", String::from_utf8_lossy(&close));
    let at = match g.below(4) {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => g.below(n),
    };
    match g.below(3) {
        0 => close[at] ^= b']' ^ b'}',
        1 => {
            close.pop();
        }
        _ => close.push(b']'),
    }
    (format!("{open}x{}\n", String::from_utf8_lossy(&close)), good)
}

fn c08(g: &mut G) -> Case {
    if g.chance(1, 20_000) {
        let (bad, good) = deep(g);
        let mut c = text_case(&bad);
        c.label("deep-brackets");
        c.nontrivial = true;
        let r = parse(&good).and_then(|p| if p.ok() { Ok(()) } else { Err("good-brackets: the correct text is rejected".into()) });
        let r = r.and_then(|()| parse(&bad)).and_then(|p| if p.ok() { Err("accepted-brackets: brackets that do not match".into()) } else { Ok(()) });
        c.fail = r.err();
        return c;
    }
    if g.chance(1, 4)
        && let Some((class, bad, good)) = super::inmodel::fault(g)
    {
        let mut c = text_case(&bad);
        c.label(class);
        c.nontrivial = true;
        c.fail = check(&bad, &good, class).err();
        return c;
    }
    let (p, bad, good) = build(g);
    let crlf = g.chance(1, 6);
    let (bad, good) = if crlf { (bad.replace('\n', "\r\n"), good.replace('\n', "\r\n")) } else { (bad, good) };
    let mut c = text_case(&bad);
    c.label(p.class);
    c.nontrivial = true;
    if let Err(e) = check(&bad, &good, p.class) {
        c.fail = Some(e);
    }
    c
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "a text with one fault of some fifty classes (unclosed and mismatched brackets and quotes, undefined aliases and handles, bad escapes, directives and headers, wrong or tabbed indentation, content that cannot follow, keys that are no keys, markers inside, commas too many or missing ...), nested 0 to 3 levels deep with siblings around, and the same text without the fault; one in five is a text of the model with a fault put where the model knows a token to be; the first must be rejected by parser and loader, the second accepted; every case is non-trivial; distinct by text",
    assumptions: &["each class is one that YAML 1.2 rules out; other ill-formed texts are not covered"],
    quick: 4_000_000,
    thorough: 30_000_000,
    run: c08,
    fixed: || crate::regress::of("C08"),
};
