//! Streams with something in them that is past the sizes at which counters
//! wrap and tables end: deep, wide, long or far away. Text and events are
//! written side by side.

use crate::engine::G;
use crate::ev::{Ev, Style};

pub struct Huge {
    pub text: String,
    pub evs: Vec<Ev>,
    pub what: &'static str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    FlowNest,
    BlockNest,
    LineNest,
    Wide,
    LongKey,
    Scalar,
    Block,
    Names,
    LongNames,
    Handles,
    Docs,
    Gap,
}

pub const ALL: &[Kind] = &[
    Kind::FlowNest,
    Kind::BlockNest,
    Kind::LineNest,
    Kind::Wide,
    Kind::LongKey,
    Kind::Scalar,
    Kind::Block,
    Kind::Names,
    Kind::LongNames,
    Kind::Handles,
    Kind::Docs,
    Kind::Gap,
];

/// A size near one at which something may end.
pub fn size(g: &mut G, cap: usize) -> usize {
    let n = match g.weighted(&[2, 2, 2, 2, 3, 3, 6, 3, 2]) {
        0 => 256,
        1 => 1000,
        2 => 1024,
        3 => 4096,
        4 => 10_000,
        5 => 32_768,
        6 => 65_536,
        7 => 70_000,
        _ => 100_000,
    };
    (n + g.below(9)).saturating_sub(4).min(cap)
}

fn plain(v: &str) -> Ev {
    sc(Style::Plain, v)
}

fn sc(style: Style, v: &str) -> Ev {
    Ev::Scalar { style, value: v.into(), anchor: 0, tag: None }
}

fn seq() -> Ev {
    Ev::SeqStart { anchor: 0, tag: None }
}

fn map() -> Ev {
    Ev::MapStart { anchor: 0, tag: None }
}

#[derive(Default)]
struct B {
    text: String,
    evs: Vec<Ev>,
}

impl B {
    fn s(&mut self, t: &str) -> &mut Self {
        self.text.push_str(t);
        self
    }
    fn e(&mut self, e: Ev) -> &mut Self {
        self.evs.push(e);
        self
    }
    fn one(mut self, what: &'static str) -> Huge {
        self.evs.splice(0..0, [Ev::StreamStart, Ev::DocStart(false)]);
        self.evs.extend([Ev::DocEnd, Ev::StreamEnd]);
        Huge { text: self.text, evs: self.evs, what }
    }
}

/// Some of `xs`, to be repeated.
fn pattern<'a, T>(g: &mut G, xs: &'a [T]) -> Vec<&'a T> {
    (0..1 + g.weighted(&[6, 2, 1, 1])).map(|_| g.pick(xs)).collect()
}

/// Opening and closing texts with their events.
type Unit = (&'static str, fn(&mut Vec<Ev>), &'static str, fn(&mut Vec<Ev>));

fn nest(b: &mut B, units: &[&Unit], n: usize, brk: usize, leaf: &str) {
    for i in 0..n {
        let u = units[i % units.len()];
        b.s(u.0);
        (u.1)(&mut b.evs);
        if brk > 0 && i % brk == brk - 1 {
            b.s("\n ");
        }
    }
    b.s(leaf).e(plain(leaf));
    for i in (0..n).rev() {
        let u = units[i % units.len()];
        b.s(u.2);
        (u.3)(&mut b.evs);
        if brk > 0 && i % brk == 0 {
            b.s("\n ");
        }
    }
}

const FLOW: &[Unit] = &[
    ("[", |v| v.push(seq()), "]", |v| v.push(Ev::SeqEnd)),
    ("{k: ", |v| v.extend([map(), plain("k")]), "}", |v| v.push(Ev::MapEnd)),
    ("[k: ", |v| v.extend([seq(), map(), plain("k")]), "]", |v| v.extend([Ev::MapEnd, Ev::SeqEnd])),
    ("[a, ", |v| v.extend([seq(), plain("a")]), ", b]", |v| v.extend([plain("b"), Ev::SeqEnd])),
    ("{a: b, 'c':", |v| v.extend([map(), plain("a"), plain("b"), sc(Style::Single, "c")]), " , d}", |v| v.extend([plain("d"), plain(""), Ev::MapEnd])),
    ("[? k : ", |v| v.extend([seq(), map(), plain("k")]), "]", |v| v.extend([Ev::MapEnd, Ev::SeqEnd])),
    ("{? k : ", |v| v.extend([map(), plain("k")]), "}", |v| v.push(Ev::MapEnd)),
];

const COMPACT: &[Unit] = &[
    ("- ", |v| v.push(seq()), "", |v| v.push(Ev::SeqEnd)),
    ("-  ", |v| v.push(seq()), "", |v| v.push(Ev::SeqEnd)),
    ("? ", |v| v.push(map()), "", |v| v.extend([plain(""), Ev::MapEnd])),
];

fn flow_nest(g: &mut G, cap: usize) -> Huge {
    let mut b = B::default();
    let n = size(g, cap);
    let units = pattern(g, FLOW);
    // Block collections around them take one level each.
    let front = g.below(4);
    b.s(["", "- ", "k: ", "? "][front]);
    match front {
        1 => b.evs.push(seq()),
        2 => b.evs.extend([map(), plain("k")]),
        3 => b.evs.push(map()),
        _ => {}
    }
    let brk = *g.pick(&[0, 0, 1, 7, 100]);
    nest(&mut b, &units, n, brk, "x");
    b.s("\n");
    match front {
        1 => b.evs.push(Ev::SeqEnd),
        2 => b.evs.push(Ev::MapEnd),
        3 => b.evs.extend([plain(""), Ev::MapEnd]),
        _ => {}
    }
    b.one("flow-nest")
}

fn block_nest(g: &mut G, cap: usize) -> Huge {
    let mut b = B::default();
    let n = size(g, cap);
    let units = pattern(g, COMPACT);
    nest(&mut b, &units, n, 0, "x");
    b.s("\n");
    if units[0].0 != "? " && g.chance(1, 2) {
        // Another entry at the outermost level.
        b.s("- y\n");
        let end = b.evs.pop().unwrap();
        b.e(plain("y")).e(end);
    }
    b.one("block-nest")
}

fn line_nest(g: &mut G) -> Huge {
    let mut b = B::default();
    let n = *g.pick(&[120, 127, 128, 129, 200, 255, 256, 257, 300]);
    let maps = g.below(3);
    let mut kinds = Vec::new();
    for i in 0..n {
        let m = match maps {
            0 => true,
            1 => false,
            _ => i % 3 != 0,
        };
        kinds.push(m);
        let ind = " ".repeat(i);
        b.s(&ind).s(if m { "k:\n" } else { "-\n" }).e(if m { map() } else { seq() });
        if m {
            b.e(plain("k"));
        }
    }
    b.s(&" ".repeat(n)).s("x\n").e(plain("x"));
    let siblings = g.chance(1, 2);
    for i in (0..n).rev() {
        if siblings {
            b.s(&" ".repeat(i)).s(if kinds[i] { "l: y\n" } else { "- y\n" });
            if kinds[i] {
                b.e(plain("l"));
            }
            b.e(plain("y"));
        }
        b.e(if kinds[i] { Ev::MapEnd } else { Ev::SeqEnd });
    }
    b.one("line-nest")
}

type Entry = (&'static str, fn(&mut Vec<Ev>));

const IN_SEQ: &[Entry] = &[
    ("- x\n", |v| v.push(plain("x"))),
    ("-\n", |v| v.push(plain(""))),
    ("- [x, y]\n", |v| v.extend([seq(), plain("x"), plain("y"), Ev::SeqEnd])),
    ("- k: v\n", |v| v.extend([map(), plain("k"), plain("v"), Ev::MapEnd])),
    ("- k: v\n  l: w\n", |v| v.extend([map(), plain("k"), plain("v"), plain("l"), plain("w"), Ev::MapEnd])),
    ("- - x\n", |v| v.extend([seq(), plain("x"), Ev::SeqEnd])),
    ("- |\n  x\n", |v| v.push(sc(Style::Literal, "x\n"))),
    ("- 'x'\n", |v| v.push(sc(Style::Single, "x"))),
    ("- \"\\u00e9\"\n", |v| v.push(sc(Style::Double, "é"))),
    ("- {}\n", |v| v.extend([map(), Ev::MapEnd])),
];

const IN_MAP: &[Entry] = &[
    ("k: v\n", |v| v.extend([plain("k"), plain("v")])),
    ("k:\n", |v| v.extend([plain("k"), plain("")])),
    ("? k\n: v\n", |v| v.extend([plain("k"), plain("v")])),
    ("k:\n- x\n- y\n", |v| v.extend([plain("k"), seq(), plain("x"), plain("y"), Ev::SeqEnd])),
    ("k:\n  l: v\n", |v| v.extend([plain("k"), map(), plain("l"), plain("v"), Ev::MapEnd])),
    ("'k': >\n  v\n", |v| v.extend([sc(Style::Single, "k"), sc(Style::Folded, "v\n")])),
    ("[k]: v\n", |v| v.extend([seq(), plain("k"), Ev::SeqEnd, plain("v")])),
    (": v\n", |v| v.extend([plain(""), plain("v")])),
];

const IN_FLOW_SEQ: &[Entry] = &[
    ("x, ", |v| v.push(plain("x"))),
    ("x,\n ", |v| v.push(plain("x"))),
    ("k: v, ", |v| v.extend([map(), plain("k"), plain("v"), Ev::MapEnd])),
    ("\"k\":v, ", |v| v.extend([map(), sc(Style::Double, "k"), plain("v"), Ev::MapEnd])),
    ("[], ", |v| v.extend([seq(), Ev::SeqEnd])),
    ("{k: v, l}, ", |v| v.extend([map(), plain("k"), plain("v"), plain("l"), plain(""), Ev::MapEnd])),
    ("'x', ", |v| v.push(sc(Style::Single, "x"))),
];

const IN_FLOW_MAP: &[Entry] = &[
    ("k: v, ", |v| v.extend([plain("k"), plain("v")])),
    ("k, ", |v| v.extend([plain("k"), plain("")])),
    ("? k : v,\n ", |v| v.extend([plain("k"), plain("v")])),
    ("'k':v, ", |v| v.extend([sc(Style::Single, "k"), plain("v")])),
    ("k: [x], ", |v| v.extend([plain("k"), seq(), plain("x"), Ev::SeqEnd])),
];

fn wide(g: &mut G, cap: usize) -> Huge {
    let mut b = B::default();
    let n = size(g, cap);
    let (pre, xs, post, open, close) = match g.below(4) {
        0 => ("", IN_SEQ, "", seq(), Ev::SeqEnd),
        1 => ("", IN_MAP, "", map(), Ev::MapEnd),
        2 => ("[ ", IN_FLOW_SEQ, "]\n", seq(), Ev::SeqEnd),
        _ => ("{ ", IN_FLOW_MAP, "}\n", map(), Ev::MapEnd),
    };
    let units = pattern(g, xs);
    b.s(pre).e(open);
    for i in 0..n {
        let u = units[i % units.len()];
        b.s(u.0);
        (u.1)(&mut b.evs);
    }
    b.s(post).e(close);
    b.one("wide")
}

fn long_key(g: &mut G) -> Huge {
    let mut b = B::default();
    let n = size(g, 100_000);
    let w = word(g, n);
    match g.below(6) {
        0 => b.s("? ").s(&w).s("\n: v\n").e(map()).e(plain(&w)).e(plain("v")).e(Ev::MapEnd),
        1 => b.s("{").s(&w).s(": v, l: w}\n").e(map()).e(plain(&w)).e(plain("v")).e(plain("l")).e(plain("w")).e(Ev::MapEnd),
        2 => b.s("[{\"").s(&w).s("\":v}]\n").e(seq()).e(map()).e(sc(Style::Double, &w)).e(plain("v")).e(Ev::MapEnd).e(Ev::SeqEnd),
        3 => {
            b.s("{[").e(map()).e(seq());
            for _ in 0..n / 2 {
                b.s("x, ").e(plain("x"));
            }
            b.s("] : v}\n").e(Ev::SeqEnd).e(plain("v")).e(Ev::MapEnd)
        }
        4 => b.s("{? ").s(&w).s("\n , 'l': '").s(&w).s("'}\n").e(map()).e(plain(&w)).e(plain("")).e(sc(Style::Single, "l")).e(sc(Style::Single, &w)).e(Ev::MapEnd),
        _ => {
            b.s("? - x\n").e(map()).e(seq()).e(plain("x"));
            for _ in 0..n / 4 {
                b.s("  - x\n").e(plain("x"));
            }
            b.s(": v\n").e(Ev::SeqEnd).e(plain("v")).e(Ev::MapEnd)
        }
    };
    b.one("long-key")
}

/// A word of about `n` bytes that differs from others of its length.
pub fn word(g: &mut G, n: usize) -> String {
    let unit = *g.pick(&["a", "ab", "x-1", "é", "日本", "😀", "k_z."]);
    let mut s = unit.repeat(n / unit.len());
    s.push_str(g.pick(&["", "b", "é", "zz", "0"]));
    if s.is_empty() { "w".into() } else { s }
}

/// A flow scalar: many words, lines or one long word, in some place.
fn scalar(g: &mut G) -> Huge {
    let n = size(g, 100_000);
    let style = *g.pick(&[Style::Plain, Style::Single, Style::Double]);
    let place = g.below(6);
    let (pre, post, first): (&str, &str, fn(&mut Vec<Ev>)) = [
        ("", "\n", (|_| ()) as fn(&mut Vec<Ev>)),
        ("- ", "\n", |v| v.push(seq())),
        ("k: ", "\n", |v| v.extend([map(), plain("k")])),
        ("[a, ", "]\n", |v| v.extend([seq(), plain("a")])),
        ("{k: ", ", }\n", |v| v.extend([map(), plain("k")])),
        ("? ", "\n: v\n", |v| v.push(map())),
    ][place];
    let last: fn(&mut Vec<Ev>) = [
        (|_| ()) as fn(&mut Vec<Ev>),
        |v| v.push(Ev::SeqEnd),
        |v| v.push(Ev::MapEnd),
        |v| v.push(Ev::SeqEnd),
        |v| v.push(Ev::MapEnd),
        |v| v.extend([plain("v"), Ev::MapEnd]),
    ][place];
    // Pieces of text with what they mean.
    let mut pieces: Vec<(&str, &str)> = vec![("a ", "a "), ("word ", "word "), ("é日 ", "é日 "), ("a\n ", "a "), ("b\n\n ", "b\n"), ("c \n \n\n   ", "c\n\n"), ("w", "w"), ("😀", "😀"), ("a-b:c#d", "a-b:c#d"), ("a\r\n ", "a ")];
    match style {
        Style::Single => pieces.extend([("''", "'"), ("\"", "\""), ("it''s: # ", "it's: # "), ("x\n ''", "x '"), ("\\", "\\")]),
        Style::Double => pieces.extend([("\\n", "\n"), ("\\\\", "\\"), ("\\x41", "A"), ("\\u00e9", "é"), ("\\U0001F600", "😀"), ("\\\"", "\""), ("x\\\n  ", "x"), ("x \\\n \\ y", "x  y"), ("'", "'"), ("\\_", "\u{a0}"), ("\\L", "\u{2028}"), ("x\\\n\n  y", "x\ny")]),
        _ => {}
    }
    let ps: Vec<(&str, &str)> = pattern(g, &pieces).into_iter().copied().collect();
    let mut t = String::from("s");
    let mut v = String::from("s");
    let long = g.chance(1, 3);
    if long {
        let w = word(g, n);
        t.push_str(&w);
        v.push_str(&w);
    }
    let mut i = 0;
    while t.len() < if long { n + n / 8 } else { n } {
        let p = ps[i % ps.len()];
        i += 1;
        t.push_str(p.0);
        v.push_str(p.1);
    }
    t.push('e');
    v.push('e');
    let q = match style {
        Style::Single => "'",
        Style::Double => "\"",
        _ => "",
    };
    let mut b = B::default();
    b.s(pre).s(q).s(&t).s(q).s(post);
    first(&mut b.evs);
    b.e(sc(style, &v));
    last(&mut b.evs);
    b.one("scalar")
}

/// A block scalar with many, long or far indented lines.
fn block(g: &mut G) -> Huge {
    let n = size(g, 100_000);
    let folded = g.chance(1, 2);
    let chomp = g.below(3);
    let deep = g.chance(1, 5);
    let ind = if deep { n } else { 1 + g.below(3) };
    let mut lines: Vec<String> = Vec::new();
    if deep {
        lines.extend(["x".to_string(), String::new(), "y z".into(), "é".into()]);
    } else {
        match g.below(4) {
            0 => {
                let w = word(g, n);
                lines.push(format!("a{w}"));
                lines.push(format!("b{w}"));
            }
            1 => {
                lines.push("a".into());
                lines.extend(std::iter::repeat_n(String::new(), n));
                lines.push("b".into());
            }
            2 => {
                let xs = ["a", "a b", "word", "é日", "", " m", "# c", "\t", "x: y"];
                let p = pattern(g, &xs);
                lines.push("a".into());
                lines.extend((0..n / 3).map(|i| (*p[i % p.len()]).to_string()));
                lines.push("b".into());
            }
            _ => {
                // Trailing blank lines.
                lines.push("a".into());
                lines.extend(std::iter::repeat_n(String::new(), n));
            }
        }
    }
    let mut b = B::default();
    let place = g.below(3);
    b.s(["- ", "k: ", "? "][place]).s(if folded { ">" } else { "|" }).s(["", "-", "+"][chomp]).s("\n");
    for l in &lines {
        if !l.is_empty() {
            b.s(&" ".repeat(ind)).s(l);
        }
        b.s("\n");
    }
    let last = lines.iter().rposition(|l| !l.is_empty()).unwrap();
    let mut following = vec![last; last + 1];
    for i in (0..last).rev() {
        following[i] = if lines[i + 1].is_empty() { following[i + 1] } else { i + 1 };
    }
    let mut v = String::new();
    for i in 0..=last {
        v.push_str(&lines[i]);
        if i == last {
            break;
        }
        let text = |l: &String| !l.is_empty() && !l.starts_with([' ', '\t']);
        // A single break between two lines of text folds; of several, the first goes.
        let next = following[i];
        if folded && text(&lines[i]) && text(&lines[next]) {
            if next == i + 1 {
                v.push(' ');
            }
        } else {
            v.push('\n');
        }
    }
    match chomp {
        0 => v.push('\n'),
        1 => {}
        _ => v.extend(std::iter::repeat_n('\n', lines.len() - last)),
    }
    let style = if folded { Style::Folded } else { Style::Literal };
    match place {
        0 => b.e(seq()).e(sc(style, &v)).e(Ev::SeqEnd),
        1 => b.e(map()).e(plain("k")).e(sc(style, &v)).e(Ev::MapEnd),
        _ => b.s(": v\n").e(map()).e(sc(style, &v)).e(plain("v")).e(Ev::MapEnd),
    };
    b.one("block-scalar")
}

/// Many anchors and aliases.
fn names(g: &mut G, cap: usize) -> Huge {
    let mut b = B::default();
    let n = size(g, cap);
    let kind = g.below(5);
    b.e(seq());
    let anch = |a: usize| Ev::Scalar { style: Style::Plain, value: format!("x{a}").into(), anchor: a, tag: None };
    for i in 1..=n {
        match kind {
            // All of them distinct; some are used.
            0 => {
                b.s(&format!("- &a{i} x{i}\n")).e(anch(i));
            }
            // One name.
            1 => {
                b.s(&format!("- &a x{i}\n- *a\n")).e(anch(i)).e(Ev::Alias(i));
            }
            2 => {
                let j = (i / 2).max(1);
                b.s(&format!("- &a{i} x{i}\n- *a{j}\n")).e(anch(i)).e(Ev::Alias(j));
            }
            // Many aliases of few.
            3 => {
                if i <= 3 {
                    b.s(&format!("- &a{i} x{i}\n")).e(anch(i));
                }
                let j = (i % 3 + 1).min(i);
                b.s(&format!("- *a{j}\n")).e(Ev::Alias(j));
            }
            _ => {
                b.s(&format!("- &a{i} [*a{i}, x]\n")).e(Ev::SeqStart { anchor: i, tag: None }).e(Ev::Alias(i)).e(plain("x")).e(Ev::SeqEnd);
            }
        }
    }
    if kind == 0 || kind == 2 || kind == 4 {
        for j in [1, 2, n / 2, n.saturating_sub(65_536), n.saturating_sub(256), n - 1, n] {
            if j > 0 {
                b.s(&format!("- *a{j}\n")).e(Ev::Alias(j));
            }
        }
    }
    b.e(Ev::SeqEnd);
    b.one("names")
}

/// Long names, one the start of the other or alike to their end.
fn long_names(g: &mut G) -> Huge {
    let mut b = B::default();
    let n = size(g, 100_000);
    let w = word(g, n);
    b.e(seq());
    if g.chance(1, 2) {
        let ends = ["", "1", "2", "é", "22"];
        for (i, e) in ends.iter().enumerate() {
            b.s(&format!("- &{w}{e} x\n")).e(Ev::Scalar { style: Style::Plain, value: "x".into(), anchor: i + 1, tag: None });
        }
        for k in 0..4 {
            let i = (g.below(ends.len()) + k) % ends.len();
            b.s(&format!("- *{w}{}\n", ends[i])).e(Ev::Alias(i + 1));
        }
    } else {
        let w: String = w.chars().filter(char::is_ascii_alphanumeric).collect();
        let w = if w.is_empty() { "a".repeat(n) } else { w };
        let t = |h: &str, s: &str| Ev::Scalar { style: Style::Plain, value: "x".into(), anchor: 0, tag: Some((h.into(), s.into())) };
        let decl = g.chance(1, 2);
        if decl {
            b.s(&format!("%TAG !e! tag:{w},x\n%TAG !{w}! y:\n---\n"));
        }
        for e in ["", "1", "2"] {
            b.s(&format!("- !{w}{e} x\n- !!{w}{e} x\n- !<{w}{e}> x\n"));
            b.e(t("!", &format!("{w}{e}"))).e(t("tag:yaml.org,2002:", &format!("{w}{e}"))).e(t("", &format!("{w}{e}")));
            if decl {
                b.s(&format!("- !e!{w}{e} x\n- !{w}!a{e} x\n"));
                b.e(t(&format!("tag:{w},x"), &format!("{w}{e}"))).e(t("y:", &format!("a{e}")));
            }
        }
        b.e(Ev::SeqEnd);
        let mut h = b.one("long-tags");
        if decl {
            h.evs[1] = Ev::DocStart(true);
        }
        return h;
    }
    b.e(Ev::SeqEnd);
    b.one("long-names")
}

/// Many declared handles.
fn handles(g: &mut G) -> Huge {
    let mut b = B::default();
    let n = size(g, 10_000);
    b.e(Ev::StreamStart).e(Ev::DocStart(true)).e(seq());
    for i in 0..n {
        b.s(&format!("%TAG !t{i}! x{i}:\n"));
    }
    b.s("---\n");
    for j in [0, 1, n / 2, n.saturating_sub(256), n - 1] {
        b.s(&format!("- !t{j}!a x\n"));
        b.e(Ev::Scalar { style: Style::Plain, value: "x".into(), anchor: 0, tag: Some((format!("x{j}:"), "a".into())) });
    }
    b.e(Ev::SeqEnd).e(Ev::DocEnd).e(Ev::StreamEnd);
    Huge { text: b.text, evs: b.evs, what: "handles" }
}

/// Many documents.
fn docs(g: &mut G, cap: usize) -> Huge {
    let mut b = B::default();
    let n = size(g, cap);
    let kind = g.below(7);
    b.e(Ev::StreamStart);
    for i in 1..=n {
        match kind {
            0 => b.s("--- x\n").e(Ev::DocStart(true)).e(plain("x")),
            1 => b.s("---\n").e(Ev::DocStart(true)).e(plain("")),
            2 => b.s(&format!("x{i}\n...\n")).e(Ev::DocStart(false)).e(plain(&format!("x{i}"))),
            3 => b.s("%TAG !e! x:\n---\n!e!a y\n...\n").e(Ev::DocStart(true)).e(Ev::Scalar { style: Style::Plain, value: "y".into(), anchor: 0, tag: Some(("x:".into(), "a".into())) }),
            4 => b.s(&format!("%YAML 1.2\n---\n- &a x{i}\n- *a\n...\n")).e(Ev::DocStart(true)).e(seq()).e(Ev::Scalar { style: Style::Plain, value: format!("x{i}").into(), anchor: i, tag: None }).e(Ev::Alias(i)).e(Ev::SeqEnd),
            5 => b.s("---\nk: v\n... # c\n").e(Ev::DocStart(true)).e(map()).e(plain("k")).e(plain("v")).e(Ev::MapEnd),
            _ => b.s("--- |\n x\n").e(Ev::DocStart(true)).e(sc(Style::Literal, "x\n")),
        };
        b.e(Ev::DocEnd);
    }
    b.e(Ev::StreamEnd);
    Huge { text: b.text, evs: b.evs, what: "documents" }
}

/// Much of what means nothing, in front of what does.
fn gap(g: &mut G) -> Huge {
    let mut b = B::default();
    let n = size(g, 100_000);
    let xs = ["\n", "# c\n", " \n", "\t\n", "\r\n", "\r", "# é日 'q\n", "  # [\n"];
    let p = pattern(g, &xs);
    let lines: String = (0..n).map(|i| *p[i % p.len()]).collect();
    let sp = " ".repeat(n);
    let c = format!(" #{}", word(g, n));
    match g.below(18) {
        0 => b.s(&lines).s("a: b\n").e(map()).e(plain("a")).e(plain("b")).e(Ev::MapEnd),
        1 => b.s("a:\n").s(&lines).s(" b\n").e(map()).e(plain("a")).e(plain("b")).e(Ev::MapEnd),
        2 => b.s("- a\n").s(&lines).s("- b\n").e(seq()).e(plain("a")).e(plain("b")).e(Ev::SeqEnd),
        3 => b.s("[ a,\n").s(&lines).s(" b ]\n").e(seq()).e(plain("a")).e(plain("b")).e(Ev::SeqEnd),
        4 => b.s("{ a:\n").s(&lines).s(" b\n").s(&lines).s(" , c: d }\n").e(map()).e(plain("a")).e(plain("b")).e(plain("c")).e(plain("d")).e(Ev::MapEnd),
        5 => b.s("- ").s(&sp).s("a\n-").s(&sp).s(" - b\n").e(seq()).e(plain("a")).e(seq()).e(plain("b")).e(Ev::SeqEnd).e(Ev::SeqEnd),
        6 => b.s("a: ").s(&sp).s("b").s(&sp).s("\nc:").s(&sp).s(" 'd'\n").e(map()).e(plain("a")).e(plain("b")).e(plain("c")).e(sc(Style::Single, "d")).e(Ev::MapEnd),
        7 => b.s("[").s(&sp).s("a").s(&sp).s(",").s(&sp).s("\"b\"").s(&sp).s("]").s(&sp).s("\n").e(seq()).e(plain("a")).e(sc(Style::Double, "b")).e(Ev::SeqEnd),
        8 => b.s("a: b").s(&c).s("\nc: [d,").s(&c).s("\n e]").s(&c).s("\n").e(map()).e(plain("a")).e(plain("b")).e(plain("c")).e(seq()).e(plain("d")).e(plain("e")).e(Ev::SeqEnd).e(Ev::MapEnd),
        9 => b.s(&sp).s("- a\n").s(&sp).s("- b: c\n").s(&sp).s("  d: e\n").e(seq()).e(plain("a")).e(map()).e(plain("b")).e(plain("c")).e(plain("d")).e(plain("e")).e(Ev::MapEnd).e(Ev::SeqEnd),
        10 => b.s("k:\n").s(&sp).s("- a\n").s(&sp).s("- b\nl: m\n").e(map()).e(plain("k")).e(seq()).e(plain("a")).e(plain("b")).e(Ev::SeqEnd).e(plain("l")).e(plain("m")).e(Ev::MapEnd),
        11 => b.s("a: 'b\n").s(&sp).s("c'\nd: e\n").s(&sp).s("f\n").e(map()).e(plain("a")).e(sc(Style::Single, "b c")).e(plain("d")).e(plain("e f")).e(Ev::MapEnd),
        12 => b.s("- 'a'").s(&c).s("\n- b").s(&c).s("\n").e(seq()).e(sc(Style::Single, "a")).e(plain("b")).e(Ev::SeqEnd),
        13 => b.s("- |").s(&c).s("\n a\n- >-").s(&c).s("\n b\n").e(seq()).e(sc(Style::Literal, "a\n")).e(sc(Style::Folded, "b")).e(Ev::SeqEnd),
        14 => b.s("?").s(&c).s("\n a\n: b\n").e(map()).e(plain("a")).e(plain("b")).e(Ev::MapEnd),
        15 => b.s("[\"a\",").s(&c).s("\n 'b'").s(&c).s("\n]").s(&c).s("\n").e(seq()).e(sc(Style::Double, "a")).e(sc(Style::Single, "b")).e(Ev::SeqEnd),
        16 => b.s("-").s(&c).s("\n a\n-").s(&c).s("\n  - b\n").e(seq()).e(plain("a")).e(seq()).e(plain("b")).e(Ev::SeqEnd).e(Ev::SeqEnd),
        _ => b.s("- a\n").s(&lines).s("- b\n").s(&lines).e(seq()).e(plain("a")).e(plain("b")).e(Ev::SeqEnd),
    };
    b.one("gap")
}

/// Something huge of these kinds. Nothing is nested deeper than `depth`.
pub fn huge(g: &mut G, kinds: &[Kind], depth: usize) -> Huge {
    match *g.pick(kinds) {
        Kind::FlowNest => flow_nest(g, depth),
        Kind::BlockNest => block_nest(g, depth),
        Kind::LineNest => line_nest(g),
        Kind::Wide => wide(g, 70_000),
        Kind::LongKey => long_key(g),
        Kind::Scalar => scalar(g),
        Kind::Block => block(g),
        Kind::Names => names(g, 70_000),
        Kind::LongNames => long_names(g),
        Kind::Handles => handles(g),
        Kind::Docs => docs(g, 70_000),
        Kind::Gap => gap(g),
    }
}
