//! Abstract YAML streams and their generator. What a stream means (its events)
//! is read off the abstract form; `render` writes it down as text.

use crate::engine::G;
use crate::ev::{Style, TagPair};

#[derive(Clone, Debug, PartialEq)]
pub struct TagUse {
    /// As written in the text.
    pub text: String,
    /// As reported: prefix and suffix.
    pub ev: TagPair,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Sc(Style, String),
    /// A node without content.
    Empty,
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>),
    Alias(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub anchor: Option<String>,
    pub tag: Option<TagUse>,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    /// `%TAG handle prefix`
    pub tag_dirs: Vec<(String, String)>,
    pub yaml_dir: Option<(u32, u32)>,
    pub reserved_dir: Option<String>,
    pub root: Node,
}

impl Doc {
    pub fn has_directives(&self) -> bool {
        !self.tag_dirs.is_empty() || self.yaml_dir.is_some() || self.reserved_dir.is_some()
    }
}

impl Node {
    pub fn plain(v: &str) -> Node {
        Node::of(Kind::Sc(Style::Plain, v.to_string()))
    }
    pub fn of(kind: Kind) -> Node {
        Node { anchor: None, tag: None, kind }
    }
    pub fn has_props(&self) -> bool {
        self.anchor.is_some() || self.tag.is_some()
    }
    pub fn is_bare_empty(&self) -> bool {
        self.kind == Kind::Empty && !self.has_props()
    }
    pub fn size(&self) -> usize {
        1 + match &self.kind {
            Kind::Seq(xs) => xs.iter().map(Node::size).sum(),
            Kind::Map(es) => es.iter().map(|(k, v)| k.size() + v.size()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        1 + match &self.kind {
            Kind::Seq(xs) => xs.iter().map(Node::depth).max().unwrap_or(0),
            Kind::Map(es) => es.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        match &self.kind {
            Kind::Seq(xs) => xs.iter().for_each(|x| x.visit(f)),
            Kind::Map(es) => es.iter().for_each(|(k, v)| {
                k.visit(f);
                v.visit(f);
            }),
            _ => {}
        }
    }
}

/// What the generator may produce.
#[derive(Clone, Debug)]
pub struct MCfg {
    pub max_depth: usize,
    pub max_width: usize,
    pub max_nodes: usize,
    pub max_docs: usize,
    pub anchors: bool,
    /// Aliases inside the node they refer to.
    pub recursive_alias: bool,
    pub tags: bool,
    pub core_tags: bool,
    pub directives: bool,
    pub empty: bool,
    pub block_scalars: bool,
    pub complex_keys: bool,
    /// Weights of plain, single, double, literal, folded.
    pub styles: [usize; 5],
    /// Scalars are picked from the core schema's spellings with this chance in 8.
    pub schema_values: usize,
    pub collections: bool,
    /// One in so many nodes is an alias, has an anchor, has a tag.
    pub alias_in: usize,
    pub anchor_in: usize,
    pub tag_in: usize,
    /// One in so many documents has directives.
    pub directives_in: usize,
    /// Weights of 1, 2, 3 and 4 documents.
    pub docs: [usize; 4],
    pub empty_weight: usize,
    /// The root may be put into up to so many collections of one node more.
    pub wrap: usize,
    /// Now and then a collection has hundreds of entries.
    pub many: bool,
}

impl Default for MCfg {
    fn default() -> Self {
        MCfg {
            max_depth: 5,
            max_width: 5,
            max_nodes: 40,
            max_docs: 3,
            anchors: true,
            recursive_alias: true,
            tags: true,
            core_tags: true,
            directives: true,
            empty: true,
            block_scalars: true,
            complex_keys: true,
            styles: [6, 2, 3, 2, 2],
            schema_values: 1,
            collections: true,
            alias_in: 10,
            anchor_in: 8,
            tag_in: 10,
            directives_in: 4,
            docs: [6, 1, 1, 1],
            empty_weight: 1,
            wrap: 12,
            many: true,
        }
    }
}

pub const SCHEMA: &[&str] = &[
    "~", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", "0", "1", "-1", "+1", "42", "007",
    "-0", "+0", "0o14", "0o7", "0x1F", "0xff", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
    "1.5", "-1.5", "+1.5", ".5", "-.5", "1.", "1e3", "1E3", "1e+3", "1e-3", "-1.5e10", ".inf", ".Inf", ".INF",
    "-.inf", "+.inf", ".nan", ".NaN", ".NAN", "1_000", "0b11", "yes", "no", "on", "off", "tRue", "nULL", "0o8",
    "0xg", "1e", "e3", ".", "-", "+", "1.2.3", "2001-01-01", "inf", "nan", "-.nan", "+.nan", "infinity", "NaN", "1e400",
    "0x8000000000000000", "0o", "0x", "--1", "+-1", "1 ", "१",
];

const WORDS: &[&str] = &[
    "a", "b", "cd", "x1", "foo", "key", "value", "lorem", "a:b", "a#b", "-x", "?x", ":x", "x,y", "[x]", "{x}", "x]", "}",
    "&a", "*a", "!t", "%d", "@x", "`x", "'", "''", "\"", "it's", "\\", "\\n", "\\x41", "---", "...", "--", "-", "?", ":",
    "~", "null", "true", "1.5", "é", "日本", "😀", "\u{a0}", "\u{85}x", "x\u{2028}y", "=", "<<", "|", ">", "|-", ">+", "#",
    "#x", "x#", "x:", ",", "[", "{", "::", "---x", "...x", "x...", "----", "a?", "a-", "100%", "ß", "\u{301}e", "\u{fffd}", "\u{10ffff}", "$", "^", "(", ";",
    "\u{7f}", "\u{80}x", "x\u{9f}", "\u{feff}", "x\u{feff}y", "\u{ffff}", "\u{fffe}x", "a/b", "'x", "\"x", "%YAML",
];

/// Characters that only an escape can write.
const CONTROL: &[char] = &['\0', '\x01', '\x07', '\x08', '\x0b', '\x0c', '\r', '\x1b', '\x7f', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{ffff}'];

fn word(g: &mut G, out: &mut String) {
    match g.weighted(&[6, 5, 1, 1]) {
        0 => out.push_str(g.pick(&WORDS[..8])),
        1 => out.push_str(g.pick(WORDS)),
        2 => {
            // Long enough to cross the chunks of the scanner, or about as long as a key may be.
            let n = match g.weighted(&[20000, 2000, 60, 3]) {
                0 => g.range(8, 70),
                1 => g.range(60, 300),
                2 => g.range(1000, 1030),
                _ => g.range(4000, 9000),
            };
            let c = *g.pick(&['a', 'b', '0', 'é', '日']);
            for _ in 0..n {
                out.push(c);
            }
        }
        _ => {
            let n = g.range(1, 8);
            for _ in 0..n {
                let c = g.range(0x21, 0x7e) as u8 as char;
                out.push(c);
            }
        }
    }
}

fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t'
}

/// Text of words, spaces, tabs and line breaks.
fn raw_text(g: &mut G, multi: bool) -> String {
    let mut s = String::new();
    let n = 1 + g.count(8);
    for i in 0..n {
        if i > 0 {
            match g.weighted(&[8, 1, 1, if multi { 4 } else { 0 }, if multi { 2 } else { 0 }, if multi { 1 } else { 0 }]) {
                0 => s.push(' '),
                1 => s.push_str("  "),
                2 => s.push('\t'),
                3 => s.push('\n'),
                4 if g.chance(1, 40) => s.push_str(&"\n".repeat(g.range(3, 70))),
                4 => s.push_str("\n\n"),
                _ => {
                    s.push('\n');
                    for _ in 0..g.range(1, 3) {
                        s.push(if g.chance(1, 4) { '\t' } else { ' ' });
                    }
                }
            }
        }
        word(g, &mut s);
    }
    s
}

/// Removes spaces and tabs next to line breaks.
fn trim_lines(s: &str) -> String {
    s.split('\n').map(|l| l.trim_matches(is_ws)).collect::<Vec<_>>().join("\n")
}

pub fn first_plain_ok(s: &str, flow: bool) -> bool {
    let mut it = s.chars();
    let Some(c) = it.next() else { return false };
    match c {
        '-' | '?' | ':' => match it.next() {
            None => false,
            Some(d) => !d.is_ascii_whitespace() && !(flow && is_flow_ind(d)),
        },
        ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '%' | '@' | '`' => false,
        c => !c.is_ascii_whitespace(),
    }
}

pub fn is_flow_ind(c: char) -> bool {
    matches!(c, ',' | '[' | ']' | '{' | '}')
}

/// Whether `s` can be a plain scalar.
pub fn plain_ok(s: &str, flow: bool) -> bool {
    if !first_plain_ok(s, flow) {
        return false;
    }
    if s.split('\n').any(|l| l.starts_with(is_ws) || l.ends_with(is_ws)) || s.starts_with('\n') || s.ends_with('\n') {
        return false;
    }
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        let next = cs.get(i + 1).copied();
        let prev = if i > 0 { Some(cs[i - 1]) } else { None };
        match c {
            ':' => match next {
                None => return false,
                Some(n) if n.is_ascii_whitespace() || (flow && is_flow_ind(n)) => return false,
                _ => {}
            },
            '#' => {
                if prev.is_none_or(|p| p.is_ascii_whitespace()) {
                    return false;
                }
            }
            c if flow && is_flow_ind(*c) => return false,
            '\n' | '\t' => {}
            c if !printable(*c) => return false,
            _ => {}
        }
    }
    true
}

/// Whether `s` starts with a word that is a document marker where it is in the first column.
pub fn starts_with_marker(s: &str) -> bool {
    matches!(s.split([' ', '\n', '\t']).next(), Some("---" | "..."))
}

pub fn printable(c: char) -> bool {
    c == '\u{85}' || (c >= ' ' && c != '\x7f' && !('\u{80}'..='\u{9f}').contains(&c) && c != '\u{feff}' && c != '\u{fffe}' && c != '\u{ffff}')
}

/// Whether `c` can be in quotes as it is.
pub fn quotable(c: char) -> bool {
    c >= ' '
}

pub fn gen_plain(g: &mut G, flow: bool, multi: bool) -> String {
    let s = trim_lines(&raw_text(g, multi));
    let s = s.trim_matches('\n').to_string();
    if plain_ok(&s, flow) {
        return s;
    }
    // Repair word by word.
    let mut out = String::new();
    let mut cur = String::new();
    let flush = |cur: &mut String, out: &mut String| {
        if cur.is_empty() {
            return;
        }
        let mut w: String = cur.chars().filter(|c| !(flow && is_flow_ind(*c)) && printable(*c)).collect();
        if w.ends_with(':') {
            w.push('x');
        }
        if w.starts_with('#') || w.is_empty() || (out.is_empty() && !first_plain_ok(&w, flow)) {
            w.insert(0, 'x');
        }
        out.push_str(&w);
        cur.clear();
    };
    for c in s.chars() {
        if c.is_ascii_whitespace() {
            flush(&mut cur, &mut out);
            out.push(c);
        } else {
            cur.push(c);
        }
    }
    flush(&mut cur, &mut out);
    if plain_ok(&out, flow) { out } else { "p".to_string() }
}

pub fn gen_single(g: &mut G, multi: bool) -> String {
    match g.weighted(&[12, 1, 1]) {
        0 => {}
        1 => return String::new(),
        _ => return " ".to_string(),
    }
    let mut s = String::new();
    if g.chance(1, 10) {
        s.push(' ');
    }
    if multi && g.chance(1, 12) {
        s.push('\n');
    }
    s.push_str(&raw_text(g, multi));
    if g.chance(1, 10) {
        s.push(' ');
    }
    if multi && g.chance(1, 12) {
        s.push('\n');
    }
    let s: String = s.chars().filter(|c| quotable(*c) || *c == '\n' || *c == '\t').collect();
    if s.contains('\n') {
        // Only the outer ends may keep their whitespace.
        let mut lines: Vec<String> = s.split('\n').map(str::to_string).collect();
        let last = lines.len() - 1;
        for (i, l) in lines.iter_mut().enumerate() {
            let mut t = l.as_str();
            if i > 0 {
                t = t.trim_start_matches(is_ws);
            }
            if i < last {
                t = t.trim_end_matches(is_ws);
            }
            *l = t.to_string();
        }
        lines.join("\n")
    } else {
        s
    }
}

pub fn gen_double(g: &mut G, multi: bool) -> String {
    match g.weighted(&[14, 1]) {
        0 => {}
        _ => return String::new(),
    }
    let mut s = String::new();
    if g.chance(1, 8) {
        s.push_str(g.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
    }
    let n = 1 + g.count(2);
    for _ in 0..n {
        s.push_str(&raw_text(g, multi));
        if g.chance(1, 3) {
            s.push(*g.pick(CONTROL));
        }
        if multi && g.chance(1, 8) {
            s.push_str(g.pick(&[" \n", "\n ", "\t\n", "\n\t", " \n ", "\n\n", "\r", "\r\n ", "\n \n", "\t ", "  "]));
        }
    }
    if g.chance(1, 8) {
        s.push_str(g.pick(&[" ", "\n", "\t", "\n\n", "\\"]));
    }
    s
}

pub fn gen_block(g: &mut G, folded: bool) -> String {
    match g.weighted(&[16, 1, 1]) {
        0 => {}
        1 => return String::new(),
        _ => return "\n".repeat(g.range(1, 3)),
    }
    let mut s = String::new();
    let mut n = 1 + g.count(5);
    if g.chance(1, 8) {
        s.push_str(&"\n".repeat(g.range(1, 2)));
    }
    let first = s.len();
    while n > 0 {
        n -= 1;
        if s.len() > first {
            let k = if g.chance(1, 100) { g.range(4, 70) } else { g.weighted(&[0, 8, 3, 1]) };
            s.push_str(&"\n".repeat(k));
        }
        // Indentation of the line's own.
        match g.weighted(&[12, 2, 1, 1]) {
            0 => {}
            1 => s.push_str(&" ".repeat(g.range(1, 4))),
            2 => s.push('\t'),
            _ => {
                // A line of spaces.
                if s.len() > first && n > 0 {
                    s.push_str(&" ".repeat(g.range(1, 3)));
                    continue;
                }
            }
        }
        let line = raw_text(g, false);
        s.extend(line.chars().filter(|c| printable(*c) || *c == '\t'));
        if g.chance(1, 16) {
            s.push(' ');
        }
    }
    let _ = folded;
    s.push_str(&"\n".repeat(g.weighted(&[4, 6, 2, 1])));
    // Line breaks at the very start come out of a block scalar only with content after them.
    if s.trim_matches('\n').is_empty() { String::new() } else { s }
}

/// State of the generator of one document.
struct Ctx {
    nodes: usize,
    /// Anchors so far; whether their node is complete.
    anchors: Vec<(String, bool)>,
    handles: Vec<(String, String)>,
}

/// A name for an anchor.
fn gen_anchor(g: &mut G) -> String {
    if g.chance(4, 5) {
        return g.pick(ANCHORS).to_string();
    }
    let n = if g.chance(1, 30) { g.range(100, 700) } else { g.range(1, 12) };
    (0..n)
        .map(|_| match g.weighted(&[6, 2, 1]) {
            0 => g.range(0x21, 0x7e) as u8 as char,
            // Every leading byte, also those of white space and of the byte order mark.
            1 => *g.pick(&['é', '日', '😀', '\u{a0}', '\u{10ffff}', 'ａ', '\u{fffd}', '\u{f000}', '\u{2003}', '\u{e000}', 'ÿ', '\u{7ff}', '\u{40000}']),
            _ => *g.pick(&['a', '-', '_', '.']),
        })
        .map(|c| if is_flow_ind(c) { '_' } else { c })
        .collect()
}

const ANCHORS: &[&str] = &["a", "b", "x1", "long-anchor_name", "é", "a.b", "1", "a:b", "日本", "*", "&", "!x"];

fn gen_tag(g: &mut G, cfg: &MCfg, ctx: &Ctx, kind: &Kind) -> TagUse {
    let mk = |text: String, p: &str, s: &str| TagUse { text, ev: (p.to_string(), s.to_string()) };
    let bang2 = ctx.handles.iter().find(|(h, _)| h == "!!").map(|(_, p)| p.clone());
    let bang1 = ctx.handles.iter().find(|(h, _)| h == "!").map(|(_, p)| p.clone());
    let named: Vec<(String, String)> = ctx.handles.iter().filter(|(h, _)| h.len() > 2).cloned().collect();
    if !named.is_empty() && g.chance(1, 2) {
        let (h, p) = g.pick(&named).clone();
        let (t, s) = suffix(g);
        return mk(format!("{h}{t}"), &p, &s);
    }
    match g.weighted(&[4, if cfg.core_tags { 4 } else { 0 }, 1, 1]) {
        0 => {
            let (t, s) = suffix(g);
            mk(format!("!{t}"), bang1.as_deref().unwrap_or("!"), &s)
        }
        1 => {
            let s = match kind {
                Kind::Seq(_) => if g.chance(1, 4) { g.pick(&["omap", "pairs", "set"]) } else { "seq" },
                Kind::Map(_) => if g.chance(1, 4) { g.pick(&["set", "omap", "merge"]) } else { "map" },
                _ => g.pick(&["str", "int", "float", "bool", "null"]),
            };
            mk(format!("!!{s}"), bang2.as_deref().unwrap_or("tag:yaml.org,2002:"), s)
        }
        2 if g.chance(1, 3) => {
            let (t, s) = suffix(g);
            mk(format!("!<!{t}>"), "", &format!("!{s}"))
        }
        2 => {
            let (t, s) = suffix(g);
            mk(format!("!<tag:example.com,2000:{t}>"), "", &format!("tag:example.com,2000:{s}"))
        }
        _ => {
            let (t, s) = suffix(g);
            mk(format!("!!{t}"), bang2.as_deref().unwrap_or("tag:yaml.org,2002:"), &s)
        }
    }
}

/// A tag suffix as written, and decoded.
fn suffix(g: &mut G) -> (String, String) {
    let mut t = String::new();
    let mut s = String::new();
    let n = g.range(1, 4);
    for _ in 0..n {
        match g.weighted(&[8, 1, 1, 1, 1]) {
            4 => {
                // Any character, escaped.
                let c = if g.chance(1, 2) { (1 + g.below(127) as u8) as char } else { char::from_u32(g.below(0x11_0000) as u32).unwrap_or('/') };
                let up = g.chance(1, 2);
                for b in c.to_string().bytes() {
                    t.push_str(&if up { format!("%{b:02X}") } else { format!("%{b:02x}") });
                }
                s.push(c);
            }
            0 => {
                let w = *g.pick(&["t", "foo", "x-y", "a/b", "v1.0", "q", "z_", "a=b", "(c)"]);
                t.push_str(w);
                s.push_str(w);
            }
            1 => {
                let (a, b) = *g.pick(&[("%21", "!"), ("%41", "A"), ("%2c", ","), ("%20", " "), ("%7B", "{")]);
                t.push_str(a);
                s.push_str(b);
            }
            2 => {
                let (a, b) = *g.pick(&[("%C3%A9", "é"), ("%e6%97%a5", "日"), ("%F0%9F%98%80", "😀")]);
                t.push_str(a);
                s.push_str(b);
            }
            _ => {
                let w = *g.pick(&["#", ";", "&", "$", "*", "'", ":", "@", "~"]);
                t.push_str(w);
                s.push_str(w);
            }
        }
    }
    if t.starts_with(['#', '&', '*', '\'', ':', '@', ';', '$', '~']) {
        t.insert(0, 'k');
        s.insert(0, 'k');
    }
    (t, s)
}

pub fn gen_scalar(g: &mut G, cfg: &MCfg, block_ok: bool) -> Kind {
    let mut w = cfg.styles;
    if !block_ok || !cfg.block_scalars {
        w[3] = 0;
        w[4] = 0;
    }
    if w.iter().sum::<usize>() == 0 {
        w[0] = 1;
    }
    if g.chance(cfg.schema_values, 8) {
        let v = *g.pick(SCHEMA);
        let i = g.weighted(&w);
        return match i {
            0 if plain_ok(v, true) => Kind::Sc(Style::Plain, v.to_string()),
            1 => Kind::Sc(Style::Single, v.to_string()),
            3 => Kind::Sc(Style::Literal, v.trim().to_string()),
            4 => Kind::Sc(Style::Folded, v.trim().to_string()),
            _ => Kind::Sc(Style::Double, v.to_string()),
        };
    }
    match g.weighted(&w) {
        0 => {
            let flow = g.chance(2, 3);
            let multi = g.chance(1, 3);
            Kind::Sc(Style::Plain, gen_plain(g, flow, multi))
        }
        1 => {
            let multi = g.chance(1, 2);
            Kind::Sc(Style::Single, gen_single(g, multi))
        }
        2 => {
            let multi = g.chance(1, 2);
            Kind::Sc(Style::Double, gen_double(g, multi))
        }
        3 => Kind::Sc(Style::Literal, gen_block(g, false)),
        _ => Kind::Sc(Style::Folded, gen_block(g, true)),
    }
}

fn gen_node(g: &mut G, cfg: &MCfg, ctx: &mut Ctx, depth: usize, key: bool, in_alias: bool) -> Node {
    ctx.nodes += 1;
    let room = ctx.nodes < cfg.max_nodes;
    if cfg.anchors && !ctx.anchors.is_empty() && g.chance(1, cfg.alias_in) {
        let usable: Vec<String> = ctx
            .anchors
            .iter()
            .filter(|(_, done)| cfg.recursive_alias || *done)
            .map(|(n, _)| n.clone())
            .collect();
        // A name whose latest definition is still open is out, too.
        let usable: Vec<String> = usable
            .into_iter()
            .filter(|n| cfg.recursive_alias || ctx.anchors.iter().rev().find(|(m, _)| m == n).is_some_and(|(_, d)| *d))
            .collect();
        if !usable.is_empty() {
            return Node::of(Kind::Alias(g.pick(&usable).clone()));
        }
    }
    let deep = depth < cfg.max_depth && room && cfg.collections && (!key || cfg.complex_keys);
    let w_coll = if !deep { 0 } else if key { 1 } else if depth == 0 { 12 } else { 4 };
    let shape = g.weighted(&[if key { 12 } else { 6 }, w_coll, w_coll, if cfg.empty && depth > 0 { cfg.empty_weight } else { 0 }]);
    let anchor = if cfg.anchors && g.chance(1, cfg.anchor_in) { Some(gen_anchor(g)) } else { None };
    let slot = anchor.as_ref().map(|a| {
        ctx.anchors.push((a.clone(), false));
        ctx.anchors.len() - 1
    });
    let kind = match shape {
        0 => {
            // Keys: mostly flow scalars.
            let block_ok = !key || (cfg.complex_keys && g.chance(1, 6));
            gen_scalar(g, cfg, block_ok)
        }
        1 => {
            let n = g.count(cfg.max_width);
            let mut xs = Vec::new();
            for _ in 0..n {
                xs.push(gen_node(g, cfg, ctx, depth + 1, false, in_alias));
            }
            Kind::Seq(xs)
        }
        2 => {
            let n = g.count(cfg.max_width);
            let mut es = Vec::new();
            for _ in 0..n {
                let k = gen_node(g, cfg, ctx, depth + 1, true, in_alias);
                let v = gen_node(g, cfg, ctx, depth + 1, false, in_alias);
                es.push((k, v));
            }
            Kind::Map(es)
        }
        _ => Kind::Empty,
    };
    if let Some(i) = slot {
        ctx.anchors[i].1 = true;
    }
    let tag = if cfg.tags && g.chance(1, cfg.tag_in) { Some(gen_tag(g, cfg, ctx, &kind)) } else { None };
    Node { anchor, tag, kind }
}

/// A collection of many small nodes, anchors and aliases around `inner`.
fn many(g: &mut G, cfg: &MCfg, inner: Node) -> Node {
    let n = g.range(60, 320);
    let names = g.range(1, n);
    let mut last = None;
    let mut xs = Vec::new();
    for i in 0..n {
        let mut x = match &last {
            Some(a) if cfg.anchors && g.chance(1, 4) => Node::of(Kind::Alias(String::clone(a))),
            _ => Node::plain(&format!("v{i}")),
        };
        if cfg.anchors && !matches!(x.kind, Kind::Alias(_)) && g.chance(3, 4) {
            let a = format!("n{}", i % names);
            last = Some(a.clone());
            x.anchor = Some(a);
        }
        xs.push(x);
    }
    xs.push(inner);
    let kind = if g.chance(1, 2) {
        Kind::Seq(xs)
    } else {
        Kind::Map(xs.into_iter().enumerate().map(|(i, x)| (Node::plain(&format!("k{i}")), x)).collect())
    };
    Node::of(kind)
}

/// Prefixes of tags.
const PREFIXES: &[&str] = &["!", "x", "!x", "tag:example.com,2000:", "tag:yaml.org,2002:", "!a,b[c]", "a%21b", "%41", "!%e6%97%a5/", "http://x.y/?a=b&c=(d)#", "-", "!!", "&x", "*y"];

/// The text with its percent escapes decoded.
fn unescaped(s: &str) -> String {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(v).unwrap()
}

pub fn gen_doc(g: &mut G, cfg: &MCfg) -> Doc {
    let mut doc = Doc { tag_dirs: Vec::new(), yaml_dir: None, reserved_dir: None, root: Node::of(Kind::Empty) };
    if cfg.directives && g.chance(1, cfg.directives_in) {
        if g.chance(1, 2) {
            doc.yaml_dir = Some((1, if g.chance(1, 6) { *g.pick(&[0, 3, 9, 10, 12, 21, 99, 100, 128, 200, 255]) } else if g.chance(1, 3) { 1 } else { 2 }));
        }
        let pool: &[(&str, &str)] = &[("!e!", "tag:example.com,2000:"), ("!!", "tag:other,2001:"), ("!", "!my-"), ("!x-1!", "!lo/"), ("!e2!", "tag:%C3%A9,")];
        for (h, p) in pool {
            if g.chance(1, 4) {
                let p = if g.chance(1, 3) { *g.pick(PREFIXES) } else { *p };
                doc.tag_dirs.push(((*h).to_string(), p.to_string()));
            }
        }
        if g.chance(1, 8) {
            let n = g.range(1, 6);
            let h: String = (0..n).map(|_| *g.pick(&['a', 'Z', '0', '9', '-', 'k', 'e'])).collect();
            let h = format!("!{h}!");
            if doc.tag_dirs.iter().all(|x| x.0 != h) {
                let p = (*g.pick(PREFIXES)).to_string();
                doc.tag_dirs.push((h, p));
            }
        }
        if g.chance(1, 6) {
            doc.reserved_dir = Some(g.pick(&["FOO", "FOO bar baz", "yaml 9.9", "TAGS a b"]).to_string());
        }
    }
    let mut ctx = Ctx { nodes: 0, anchors: Vec::new(), handles: doc.tag_dirs.iter().map(|(h, p)| (h.clone(), unescaped(p))).collect() };
    doc.root = gen_node(g, cfg, &mut ctx, 0, false, false);
    if cfg.empty && g.chance(1, 16) {
        doc.root = Node::of(Kind::Empty);
    }
    if cfg.many && g.chance(1, 1500) {
        doc.root = many(g, cfg, doc.root);
    }
    if cfg.wrap > 0 && cfg.collections && g.chance(1, 12) {
        let most = if g.chance(1, 60) { cfg.wrap * 15 } else { cfg.wrap };
        for _ in 0..g.range(1, most) {
            let inner = std::mem::replace(&mut doc.root, Node::of(Kind::Empty));
            doc.root.kind = match g.weighted(&[4, 4, 1]) {
                0 => Kind::Seq(vec![inner]),
                1 => Kind::Map(vec![(Node::plain("k"), inner)]),
                _ if cfg.complex_keys => Kind::Map(vec![(inner, Node::plain("v"))]),
                _ => Kind::Seq(vec![Node::plain("x"), inner]),
            };
        }
    }
    doc
}

pub fn gen_stream(g: &mut G, cfg: &MCfg) -> Vec<Doc> {
    let n = if cfg.max_docs <= 1 { 1 } else { 1 + g.weighted(&cfg.docs).min(cfg.max_docs - 1) };
    (0..n).map(|_| gen_doc(g, cfg)).collect()
}
