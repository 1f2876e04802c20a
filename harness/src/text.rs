//! Arbitrary texts: from noise over YAML-like noise to nearly valid streams.

use crate::engine::G;
use crate::model::*;
use crate::render::*;

pub const TOKENS: &[&str] = &[
    "- ", "? ", ": ", ":", "-", "?", "[", "]", "{", "}", ",", ", ", "\n", "\n", "\n", "\n  ", "\n ", "\n    ", "  ", " ", "\t", "\r\n", "\r",
    "a", "b", "key", "a: b", "- x", "a:", "'", "\"", "''", "'x'", "\"x\"", "\\", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\uD800", "\\",
    "|", ">", "|\n", ">\n", "|-\n", ">+\n", "|2\n", ">1-\n", "|+\n ", "|9", "|0", "&a ", "&a", "*a", "*a ", "&b ", "*b", "!t ", "!!str ", "!!int ",
    "!<x> ", "!e!x ", "!", "!! ", "!<", "!%41 ", "!%C3%A9 ", "!%zz", "%YAML 1.2\n", "%YAML 1.1\n", "%YAML 9999999999.1\n", "%TAG ! !x\n",
    "%TAG !e! tag:e,\n", "%FOO\n", "%", "---", "--- ", "---\n", "...", "...\n", "# c\n", " # c", "#", "~", "null", "true", "1", "1.5", "-1", "0x1f",
    "é", "日本", "😀", "\u{feff}", "\u{85}", "\u{2028}", "\u{a0}", "\0", "\x01", "\x7f", "@", "`", "%a", "=", "<<", "<<: ", "::", ":-", "- - - ", "? - ",
    "{a: b}", "[a, b]", "{a, b: c}", "[a: b]", "[? a: b]", "{? a}", "\"a\n b\"", "'a\n  b'", "a\n b", "\"a\\\n b\"", "&x &y ", "!a !b ", "key: |\n  t\n",
    "\n# c\n", "\n\n", "\n---\n", "\n...\n", "\n- ", "\n? ", "\n: ", "\na: ", "\n  - ", "\n  b: ", "\n\t", " \t", "-\t", "?\t", ":\t", "\"\\", "'\n", "\"\n",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "                                        ", "[[[[[[[[", "{{{{", "]]]]",
];

pub fn soup(g: &mut G, max: usize) -> String {
    let n = 1 + g.below(max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(g.pick(TOKENS));
    }
    s
}

fn noise(g: &mut G) -> String {
    let n = g.range(1, 40);
    let mut s = String::new();
    for _ in 0..n {
        let c = match g.weighted(&[6, 4, 2, 1, 1]) {
            0 => g.range(0x20, 0x7e) as u8 as char,
            1 => *g.pick(&['\n', ' ', ':', '-', '"', '\'', '[', ']', '{', '}', ',', '#', '&', '*', '!', '|', '>', '%', '?', '\r', '\t']),
            2 => g.below(0x20) as u8 as char,
            3 => char::from_u32(g.below(0x3000) as u32).unwrap_or('x'),
            _ => char::from_u32(g.below(0x11_0000) as u32).unwrap_or('y'),
        };
        s.push(c);
    }
    s
}

/// A number of small edits.
pub fn mutate(g: &mut G, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let n = 1 + g.count(4);
    for _ in 0..n {
        if cs.is_empty() {
            break;
        }
        let i = g.below(cs.len());
        match g.weighted(&[4, 4, 3, 2, 2, 2, 2, 1]) {
            0 => {
                cs.remove(i);
            }
            1 => {
                let t = *g.pick(TOKENS);
                for (k, c) in t.chars().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            2 => cs[i] = *g.pick(&[' ', '\n', ':', '-', '?', '"', '\'', '[', ']', '{', '}', ',', '#', '\t', '&', '*', '!', '|', '>', '%', 'a', '\\', '\r', '\0']),
            3 => cs.truncate(i),
            4 => {
                // Duplicate a stretch.
                let k = g.range(1, 12).min(cs.len() - i);
                let part: Vec<char> = cs[i..i + k].to_vec();
                let at = g.below(cs.len() + 1);
                cs.splice(at..at, part);
            }
            5 => {
                // Drop a stretch.
                let k = g.range(1, 12).min(cs.len() - i);
                cs.drain(i..i + k);
            }
            6 => {
                // Shift a line.
                let ls = cs[..i].iter().rposition(|c| *c == '\n').map_or(0, |p| p + 1);
                if g.chance(1, 2) {
                    cs.insert(ls, *g.pick(&[' ', ' ', '\t']));
                } else if cs.get(ls) == Some(&' ') {
                    cs.remove(ls);
                }
            }
            _ => {
                let j = g.below(cs.len());
                cs.swap(i, j);
            }
        }
    }
    cs.into_iter().collect()
}

pub fn small_cfg() -> MCfg {
    MCfg { max_depth: 4, max_width: 4, max_nodes: 14, max_docs: 3, ..MCfg::default() }
}

pub fn valid(g: &mut G, cfg: &MCfg) -> (Vec<Doc>, Rendered) {
    let mut docs = gen_stream(g, cfg);
    for d in &mut docs {
        fix_root(&mut d.root);
    }
    let r = render(g, &RCfg::default(), &docs);
    (docs, r)
}

/// A length at which counters and buffers may have their bounds.
fn bound(g: &mut G) -> usize {
    let n = 1usize << g.weighted(&[0, 0, 0, 2, 4, 6, 6, 8, 8, 6, 6, 3, 2]);
    (n + g.below(7)).saturating_sub(3)
}

/// `n` bytes, with a character of several bytes across some place near the end.
fn stretch(g: &mut G, n: usize, ascii: bool) -> String {
    let unit = *g.pick(&["a", "a", "ab", "x1", "Z-"]);
    let mut s: String = unit.chars().cycle().take(n).collect();
    if !ascii && n > 8 && g.chance(2, 3) {
        let wide = *g.pick(&["é", "日", "😀", "\u{2028}", "\u{85}", "\u{feff}"]);
        let at = n - wide.len().min(n) - g.below(5).min(n / 2);
        s.insert_str(at, wide);
    }
    s
}

/// A text with something in it that is as long as a power of two, or nearly.
fn stretched(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..1 + g.weighted(&[5, 2, 1]) {
        let n = bound(g);
        let w = stretch(g, n, false);
        let a = stretch(g, n, true);
        let sp = " ".repeat(n);
        let after = *g.pick(&["\n", "\n", ": v\n", " x\n", "", "\n ", ", b]\n", ": {}]\n", " # c\n"]);
        let piece = match g.below(30) {
            0 => format!("- &{w} x\n- *{w}{after}"),
            1 => format!("&{w}{after}"),
            2 => format!("- &{w} x\n- *{w}x{after}"),
            3 => format!("!{a}{after}"),
            4 => format!("!<{a}>{after}"),
            5 => format!("%TAG !{a}! x:\n---\n!{a}!y{after}"),
            6 => format!("%TAG !e! {a}\n---\n!e!{a}{after}"),
            7 => format!("%{a}{after}"),
            8 => format!("%FOO {w}\n---{after}"),
            9 => format!("{w}{after}"),
            10 => format!("'{w}'{after}"),
            11 => format!("\"{w}\"{after}"),
            12 => format!("\"\\\n{sp}{w}\"{after}"),
            13 => format!("|\n {w}{after}"),
            14 => format!(">\n {w}\n {w}{after}"),
            15 => format!("# {w}{after}"),
            16 => format!("a # {w}\n"),
            17 => format!("{}{sp}{after}", g.pick(TOKENS)),
            18 => format!("a:\n{sp}b{after}"),
            19 => format!("a: |\n{sp}b\n{sp}\n{sp}c{after}"),
            20 => format!("a: >{}\n{sp}b\n\n{sp} c{after}", g.pick(&["", "+", "-"])),
            21 => format!("- |+\n{}{after}", "\n".repeat(n)),
            22 => format!("a{}b{after}", "\n".repeat(n)),
            23 => format!("\"a{}b\"{after}", "\n".repeat(n)),
            24 => format!("[{w}{after}"),
            25 => format!("{{? {w}\n: {w}{after}"),
            26 => format!("[{sp}'{w}'{sp}{after}"),
            27 => format!("!{}{after}", "%C3%A9".repeat(n / 6)),
            28 => format!("\"{}\"{after}", "\\u00e9".repeat(n / 6)),
            _ => format!("{}{}", soup(g, 4).repeat((n / 8).clamp(1, 60)), after),
        };
        s.push_str(&piece);
    }
    s
}

/// A text with hundreds of entries.
fn numbered(g: &mut G) -> String {
    let n = *g.pick(&[40, 130, 260, 270, 520]);
    let kinds = 1 + g.below(3);
    let k: Vec<usize> = (0..kinds).map(|_| g.below(14)).collect();
    let mut s = String::new();
    for i in 0..n {
        let j = i / 2;
        s.push_str(&match k[i % kinds] {
            0 => format!("- &a{i} x\n"),
            1 => format!("- *a{j}\n"),
            2 => format!("- &a{} [x]\n", i % 7),
            3 => format!("- &a{i} {{k: *a{j}}}\n"),
            4 => format!("- !t{i} x\n"),
            5 => format!("- {i}: &a{i} x\n"),
            6 => format!("- ? &a{i} x\n  : *a{i}\n"),
            7 => format!("--- &a{} x\n", i % 9),
            8 => format!("- [&a{i} , *a{i}]\n"),
            9 => format!("%TAG !t{i}! x{i}:\n"),
            10 => format!("--- !t{j}!x\n...\n"),
            11 => format!("- k{i}:\n  - &a{i}\n  - *a{i}\n"),
            12 => format!("- |\n  l{i}\n"),
            _ => "- x\n".to_string(),
        });
    }
    s
}

/// Any text; says what it is.
pub fn any_text(g: &mut G) -> (String, &'static str) {
    if g.chance(1, 3000) {
        let h = crate::huge::huge(g, crate::huge::ALL, 1500);
        return (h.text, h.what);
    }
    if g.chance(1, 60) {
        return match g.weighted(&[6, 1]) {
            0 => (stretched(g), "stretched"),
            _ => (numbered(g), "numbered"),
        };
    }
    match g.weighted(&[5, 3, 1, 2, 1]) {
        0 => {
            let (_, r) = valid(g, &small_cfg());
            (mutate(g, &r.text), "mutated")
        }
        1 => (soup(g, 24), "soup"),
        2 => (noise(g), "noise"),
        3 => {
            let (_, r) = valid(g, &small_cfg());
            (r.text, "valid")
        }
        _ => {
            let (_, a) = valid(g, &small_cfg());
            let (_, b) = valid(g, &small_cfg());
            let a: Vec<char> = a.text.chars().collect();
            let b: Vec<char> = b.text.chars().collect();
            let i = g.below(a.len() + 1);
            let j = g.below(b.len() + 1);
            (a[..i].iter().chain(b[j..].iter()).collect(), "spliced")
        }
    }
}
