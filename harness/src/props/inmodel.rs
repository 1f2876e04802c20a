//! Faults put into texts of the model: it knows where the tokens are.

use crate::engine::*;
use crate::ev::*;
use crate::model::*;
use crate::render::*;

/// What the events of a stream say about a place in its text.
struct Item {
    /// Where the event starts, and the byte behind it.
    at: usize,
    end: Option<usize>,
    kind: What,
    anchor: bool,
    tag: bool,
    /// The document.
    doc: usize,
    /// In a flow collection.
    flow: bool,
    /// How many block collections are around it, and the column of the innermost.
    blocks: usize,
    col: usize,
    /// A key of a block mapping, other than the first.
    later_key: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Plain,
    Single,
    Double,
    Alias,
    Open,
    Block,
    Close,
}

fn bol(text: &str, at: usize) -> usize {
    // A byte order mark is no column.
    text[..at].rfind(['\n', '\r', '\u{feff}']).map_or(0, |p| p + text[p..].chars().next().map_or(1, char::len_utf8))
}

/// The column, if there are only spaces in front.
fn free_col(text: &str, at: usize) -> Option<usize> {
    let b = bol(text, at);
    text[b..at].bytes().all(|c| c == b' ').then_some(at - b)
}

struct Frame {
    map: bool,
    flow: bool,
    n: usize,
    col: usize,
    item: Option<usize>,
}

/// The items, the pairs of brackets, and the documents' roots.
fn items(r: &Rendered) -> (Vec<Item>, Vec<(usize, usize)>, Vec<(Option<usize>, Ev)>) {
    let t = &r.text;
    let (mut out, mut pairs, mut roots): (Vec<Item>, Vec<_>, Vec<_>) = (Vec::new(), Vec::new(), Vec::new());
    let mut st: Vec<Frame> = Vec::new();
    let mut start = None;
    for x in &r.exp {
        let (props, kind) = match &x.ev {
            Ev::DocStart(_) => {
                start = x.at;
                continue;
            }
            Ev::Scalar { style, anchor, tag, .. } => ((*anchor > 0, tag.is_some()), match style {
                Style::Plain => Some(What::Plain),
                Style::Single => Some(What::Single),
                Style::Double => Some(What::Double),
                _ => None,
            }),
            Ev::Alias(_) => ((false, false), Some(What::Alias)),
            Ev::SeqStart { anchor, tag } | Ev::MapStart { anchor, tag } => {
                let open = x.at.is_some() && x.end.is_some();
                ((*anchor > 0, tag.is_some()), Some(if open { What::Open } else { What::Block }))
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let Some(f) = st.pop() else { continue };
                if let (Some(at), Some(i)) = (x.at, f.item)
                    && f.flow
                {
                    out[i].end = Some(at + 1);
                    pairs.push((out[i].at, at));
                    let doc = roots.len().saturating_sub(1);
                    let flow = st.iter().any(|f| f.flow);
                    out.push(Item { at, end: Some(at + 1), kind: What::Close, anchor: false, tag: false, doc, flow, blocks: 0, col: 0, later_key: false });
                }
                continue;
            }
            _ => continue,
        };
        if st.is_empty() {
            roots.push((start, x.ev.clone()));
        }
        let flow = st.iter().any(|f| f.flow);
        let blocks = st.iter().filter(|f| !f.flow).count();
        let col = st.last().map_or(0, |f| f.col);
        let mut later_key = false;
        if let Some(f) = st.last_mut() {
            later_key = f.map && !f.flow && f.n > 0 && f.n % 2 == 0;
            f.n += 1;
        }
        let mut item = None;
        if let (Some(at), Some(kind)) = (x.at, kind) {
            item = Some(out.len());
            out.push(Item { at, end: x.end, kind, anchor: props.0, tag: props.1, doc: roots.len() - 1, flow, blocks, col, later_key });
        }
        if matches!(x.ev, Ev::SeqStart { .. } | Ev::MapStart { .. }) {
            let open = kind == Some(What::Open);
            // Single pairs in flow sequences have no brackets.
            let in_flow = open || flow;
            let c = match x.at {
                Some(at) if !in_flow => at - bol(t, at),
                _ => col,
            };
            st.push(Frame { map: matches!(x.ev, Ev::MapStart { .. }), flow: in_flow, n: 0, col: c, item: if open { item } else { None } });
        }
    }
    (out, pairs, roots)
}

/// A text of the model, with and without a fault.
pub fn fault(g: &mut G) -> Option<(&'static str, String, String)> {
    let m = MCfg { max_depth: 4, max_width: 4, max_nodes: 14, max_docs: 3, anchor_in: 6, alias_in: 6, tag_in: 6, directives_in: 3, docs: [6, 2, 1, 0], recursive_alias: false, ..MCfg::default() };
    let mut docs = gen_stream(g, &m);
    for d in &mut docs {
        fix_root(&mut d.root);
    }
    let r = render(g, &RCfg::default(), &docs);
    let t = r.text.clone();
    let (its, pairs, roots) = items(&r);
    let ins = |at: usize, s: &str| format!("{}{s}{}", &t[..at], &t[at..]);
    let one = |g: &mut G, f: &dyn Fn(&Item) -> bool| {
        let v: Vec<&Item> = its.iter().filter(|i| f(i)).collect();
        if v.is_empty() { None } else { Some(v[g.below(v.len())]) }
    };
    let scalar = |i: &Item| matches!(i.kind, What::Plain | What::Single | What::Double);
    let balanced = pairs.len() * 2 == t.bytes().filter(|c| b"[]{}".contains(c)).count();
    let behind = |i: &Item| i.end.map(|e| (e, t[e..].trim_start_matches([' ', '\t'])));
    let (class, bad) = match g.below(22) {
        0 => {
            let i = one(g, &|i| i.kind == What::Close)?;
            if !balanced {
                return None;
            }
            if g.chance(1, 2) {
                ("model-bracket-removed", format!("{}{}", &t[..i.at], &t[i.at + 1..]))
            } else {
                let c = if t.as_bytes()[i.at] == b']' { '}' } else { ']' };
                ("model-bracket-of-other-kind", format!("{}{c}{}", &t[..i.at], &t[i.at + 1..]))
            }
        }
        1 => {
            let i = one(g, &|i| i.kind == What::Single || i.kind == What::Double)?;
            let end = i.end?;
            let q = &t[i.at..=i.at];
            if t.matches(q).count() != 2 {
                return None;
            }
            ("model-quote-removed", format!("{}{}", &t[..end - 1], &t[end..]))
        }
        2 => ("model-undefined-alias", ins(one(g, &|i| i.kind == What::Alias)?.at + 1, "Z9")),
        3 => {
            let p = *g.pick(&["&Z9 ", "!z ", "!!str ", "!<z> ", "&Z9 !z "]);
            ("model-alias-with-properties", ins(one(g, &|i| i.kind == What::Alias)?.at, p))
        }
        4 => {
            let i = one(g, &|i| i.anchor && (scalar(i) || i.kind == What::Open))?;
            ("model-second-anchor", ins(i.at, "&Z9 "))
        }
        5 => {
            let i = one(g, &|i| i.tag && (scalar(i) || i.kind == What::Open))?;
            let p = *g.pick(&["!z ", "!!str ", "!<z> ", "! "]);
            ("model-second-tag", ins(i.at, p))
        }
        6 => {
            let i = one(g, &|i| i.kind != What::Close)?;
            let p = *g.pick(&["!Z9!x ", "!z9z!x ", "!9Z!a%20b ", "!-Z9-!x "]);
            let h = &p[..=p[1..].find('!')? + 1];
            if t.contains(&format!("%TAG {h}")) {
                return None;
            }
            ("model-undeclared-handle", ins(i.at, p))
        }
        7 => {
            // A marker within brackets or quotes.
            let mut v: Vec<usize> = Vec::new();
            let mut range = |a: usize, b: usize| {
                for p in a + 1..=b {
                    let w = t.as_bytes()[p - 1];
                    if (w == b'\n' || w == b'\r' && t.as_bytes()[p] != b'\n') && !v.contains(&p) {
                        v.push(p);
                    }
                }
            };
            for &(a, b) in &pairs {
                range(a, b);
            }
            for i in &its {
                if let (What::Single | What::Double, Some(e)) = (i.kind, i.end) {
                    range(i.at, e - 1);
                }
            }
            if v.is_empty() {
                return None;
            }
            let p = *g.pick(&["---\n", "...\n", "--- ", "... ", "---\t", "---\r", "...\r\n"]);
            ("model-marker-inside", ins(v[g.below(v.len())], p))
        }
        8 => {
            let &(a, b) = if pairs.is_empty() { return None } else { &pairs[g.below(pairs.len())] };
            if g.chance(1, 2) { ("model-leading-comma", ins(a + 1, ",")) } else { ("model-doubled-comma", ins(b, g.pick(&[", ,", ",,", " , , "]))) }
        }
        9 => {
            let i = one(g, &|i| i.kind == What::Double)?;
            let e = *g.pick(&["\\q", "\\.", "\\xG0", "\\u12G4", "\\U00110000", "\\uD800", "\\'", "\\8", "\\X41", "\\ud83d\\ude00", "\\UFFFFFFFF"]);
            ("model-bad-escape", ins(i.at + 1, e))
        }
        10 => {
            let i = one(g, &|i| matches!(i.kind, What::Single | What::Double | What::Alias | What::Close) && i.end.is_some())?;
            let s = *g.pick(&["x", "'x'", "\"x\"", "[x]", "{x: y}", "&x", "!x", "*x", "-", "x: y"]);
            ("model-content-behind", ins(i.end?, &format!(" {s}")))
        }
        11 => {
            // Behind a collection at the root nothing can follow.
            let (_, root) = roots.last()?;
            if !matches!(root, Ev::SeqStart { .. } | Ev::MapStart { .. }) {
                return None;
            }
            let s = *g.pick(&["]", "}", ",", "x: ]", "- }", "'", "\"", "[", "{x", "*Z9", "!Z9!x y", "@x", "`", "\"\\q\""]);
            let nl = if t.ends_with(['\n', '\r']) { "" } else { "\n" };
            ("model-bad-end", format!("{t}{nl}{s}\n"))
        }
        12 => {
            // Tabs do not indent.
            // What stands behind a `?` on a line of its own is no key yet.
            let i = one(g, &|i| i.kind != What::Close && !i.flow && free_col(&t, i.at).is_some_and(|c| i.kind == What::Block || i.later_key && c == i.col))?;
            let b = bol(&t, i.at);
            match g.below(3) {
                0 if i.at > b => ("model-tab-indent", format!("{}\t{}", &t[..b], &t[b + 1..])),
                1 => ("model-tab-indent", ins(b, "\t")),
                _ => ("model-tab-indent", ins(i.at, "\t")),
            }
        }
        13 => {
            let i = one(g, &|i| i.later_key && i.kind != What::Close && free_col(&t, i.at).is_some_and(|c| c > 0))?;
            // Less indented than its mapping, more than all around it.
            let col = free_col(&t, i.at)?;
            let outer = its.iter().filter(|o| o.doc == i.doc && o.kind == What::Block && o.at < i.at).map(|o| o.at - bol(&t, o.at)).filter(|&c| c < col).max().map_or(0, |c| c + 1);
            if i.col != col || outer >= col {
                return None;
            }
            let k = 1 + g.below(col - outer);
            let b = bol(&t, i.at);
            ("model-key-not-aligned", format!("{}{}", &t[..b], &t[b + k..]))
        }
        15 => {
            // A line of a block mapping without its `:`.
            let ok = |i: &Item| {
                let Some((_, b)) = behind(i) else { return false };
                let line = b.split(['\n', '\r']).next().unwrap_or("");
                i.later_key && !i.flow && line.starts_with(':') && !line[1..].contains(':') && !t[i.at..i.end.unwrap_or(i.at)].contains(':')
            };
            let i = one(g, &|i| scalar(i) && ok(i))?;
            let (_, b) = behind(i)?;
            let p = t.len() - b.len();
            ("model-colon-removed", format!("{} {}", &t[..p], &t[p + 1..]))
        }
        16 => {
            let ok = |i: &Item| {
                let Some((_, b)) = behind(i) else { return false };
                let Some(b) = b.strip_prefix(',') else { return false };
                let next = b.trim_start_matches([' ', '\t', '\r', '\n']);
                i.flow && !next.starts_with([':', ']', '}', '#', ','])
            };
            let i = one(g, &|i| i.kind != What::Plain && ok(i))?;
            let (_, b) = behind(i)?;
            let p = t.len() - b.len();
            ("model-comma-removed", format!("{} {}", &t[..p], &t[p + 1..]))
        }
        17 => {
            let i = one(g, &|i| matches!(i.kind, What::Single | What::Double | What::Alias) && behind(i).is_some_and(|(_, b)| b.starts_with(':') && b[1..].starts_with([' ', '\t', '\n', '\r'])))?;
            ("model-doubled-colon", ins(i.end?, " : "))
        }
        18 => {
            let i = one(g, &|i| i.kind == What::Plain)?;
            ("model-reserved-indicator", ins(i.at, g.pick(&["@", "`", "& ", "* "])))
        }
        19 => {
            let i = one(g, &|i| i.kind == What::Block && free_col(&t, i.at).is_some() && t[i.at..].starts_with(['-', '?']) && t[i.at + 1..].starts_with([' ', '\t', '\n', '\r']))?;
            ("model-properties-before-indicator", ins(i.at, g.pick(&["&Z9 ", "!z ", "&Z9 !z ", "!!str "])))
        }
        20 => {
            let i = one(g, &|i| matches!(i.kind, What::Single | What::Double | What::Alias | What::Close) && i.end.is_some())?;
            ("model-comment-not-separated", ins(i.end?, "#x"))
        }
        _ => {
            // A directive given twice.
            let at = roots.iter().filter_map(|r| r.0).nth(g.below(2))?;
            let mut lines = Vec::new();
            for l in t[..at].split(['\n', '\r']).rev().skip(1) {
                if l.starts_with('%') {
                    lines.push(l);
                } else if l.starts_with("...") {
                    break;
                } else if !(l.trim_start().is_empty() || l.trim_start().starts_with('#')) {
                    return None;
                }
            }
            let lines: Vec<&str> = lines.into_iter().filter(|l| l.starts_with("%YAML ") || l.starts_with("%TAG ")).collect();
            if lines.is_empty() {
                return None;
            }
            let l = lines[g.below(lines.len())];
            let mut w = l.split_ascii_whitespace();
            let (d, h) = (w.next()?, w.next()?);
            let again = match g.below(3) {
                0 => l.to_string(),
                _ if d == "%YAML" => "%YAML 1.1".to_string(),
                _ => format!("%TAG {h} tag:z,1:"),
            };
            let other = *g.pick(&["", "", "%TAG !zz9! x:\n", "%FOO bar\n", "# c\n"]);
            ("model-directive-twice", ins(at, &format!("{other}{again}\n")))
        }
    };
    Some((class, bad, t))
}
