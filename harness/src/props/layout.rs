//! C09: changes of layout that carry no meaning.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::model::MCfg;
use crate::runner::Prop;
use crate::text::*;
use yam_core::prelude::*;

/// What a changed text must give.
struct Changed {
    what: &'static str,
    text: String,
    evs: Vec<Ev>,
    /// The first events that have no counterpart, what is behind them and
    /// how far their spans move: bytes, lines.
    shift: Option<(usize, usize, i64, i64)>,
    /// Spans stay the same but for the byte.
    lines: bool,
}

const BOM: char = '\u{feff}';

fn starts_marker(text: &str) -> bool {
    text.split(['\n', '\r']).any(|l| l.starts_with("---") || l.starts_with("...") || l.starts_with('%'))
}

fn block_scalar_last(evs: &[Ev]) -> bool {
    evs.iter().rev().find_map(|e| match e {
        Ev::Scalar { style: Style::Plain, value, .. } if value.is_empty() => None,
        Ev::Scalar { style, .. } => Some(matches!(style, Style::Literal | Style::Folded)),
        Ev::SeqEnd | Ev::MapEnd | Ev::DocEnd | Ev::StreamEnd => None,
        _ => Some(false),
    }) == Some(true)
}

fn shifted(evs: &[Ev], by: usize) -> Vec<Ev> {
    let f = |a: &usize| if *a > 0 { a + by } else { 0 };
    evs.iter()
        .map(|e| match e {
            Ev::Alias(i) => Ev::Alias(i + by),
            Ev::Scalar { style, value, anchor, tag } => Ev::Scalar { style: *style, value: value.clone(), anchor: f(anchor), tag: tag.clone() },
            Ev::SeqStart { anchor, tag } => Ev::SeqStart { anchor: f(anchor), tag: tag.clone() },
            Ev::MapStart { anchor, tag } => Ev::MapStart { anchor: f(anchor), tag: tag.clone() },
            e => e.clone(),
        })
        .collect()
}

pub fn max_anchor(evs: &[Ev]) -> usize {
    evs.iter()
        .map(|e| match e {
            Ev::Scalar { anchor, .. } | Ev::SeqStart { anchor, .. } | Ev::MapStart { anchor, .. } => *anchor,
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

fn docs(evs: &[Ev]) -> usize {
    evs.iter().filter(|e| matches!(e, Ev::DocStart(_))).count()
}

/// Puts `open` in front of the root of the only document and `close` behind it.
fn around(evs: &[Ev], open: &[Ev], close: &[Ev]) -> Vec<Ev> {
    let mut v = evs[..2].to_vec();
    v.extend_from_slice(open);
    v.extend_from_slice(&evs[2..evs.len() - 2]);
    v.extend_from_slice(close);
    v.extend_from_slice(&evs[evs.len() - 2..]);
    v
}

fn indented(text: &str, by: &str) -> String {
    text.split_inclusive('\n').map(|l| if l == "\n" { l.to_string() } else { format!("{by}{l}") }).collect()
}

/// The change, or nothing where it does not apply.
fn change(g: &mut G, a: &str, pa: &Parsed, b: &str, pb: &Parsed) -> Option<Changed> {
    let lf = !a.contains('\r');
    let bare_one = pa.ok() && docs(&pa.evs) == 1 && pa.evs[1] == Ev::DocStart(false) && pa.evs[pa.evs.len() - 2..] == [Ev::DocEnd, Ev::StreamEnd] && !starts_marker(a) && a.ends_with('\n') && lf && !a.contains('\0');
    let key = |k: &str| Ev::Scalar { style: Style::Plain, value: k.into(), anchor: 0, tag: None };
    let map = Ev::MapStart { anchor: 0, tag: None };
    let seq = Ev::SeqStart { anchor: 0, tag: None };
    let block_root = matches!(pa.evs.get(2), Some(Ev::Scalar { style: Style::Literal | Style::Folded, .. }));
    let mut ch = Changed { what: "", text: String::new(), evs: pa.evs.clone(), shift: None, lines: false };
    if a.starts_with(BOM) || b.starts_with(BOM) {
        return None;
    }
    match g.weighted(&[2, 2, 2, 2, 3, 2, 2, 3, 3, 2, 2, 2]) {
        0 | 1 if !lf || !a.contains('\n') => return None,
        0 => {
            ch.what = "crlf";
            ch.text = a.replace('\n', "\r\n");
            ch.lines = true;
        }
        1 => {
            ch.what = "cr";
            ch.text = a.replace('\n', "\r");
            ch.shift = Some((0, 0, 0, 0));
        }
        11 => {
            ch.what = "byte-order-mark";
            ch.text = format!("{BOM}{a}");
            ch.shift = Some((1, 1, 3, 0));
        }
        _ if !pa.ok() => return None,
        2 => {
            let c = *g.pick(&["# c\n", "\n", "#\n", "  \n", " # - [\n", "\t\n", "\t# {\n"]);
            ch.what = "line-in-front";
            ch.text = format!("{c}{a}");
            ch.shift = Some((1, 1, c.len() as i64, 1));
        }
        3 => {
            if block_scalar_last(&pa.evs) || !a.ends_with(['\n', '\r']) || a.contains('\0') {
                return None;
            }
            let c = *g.pick(&["# c\n", "#\n", "# c", " # - [\n", "\n", "  \n", "\n\n# x\n"]);
            ch.what = "line-behind";
            ch.text = format!("{a}{c}");
        }
        4 => {
            if !pb.ok() || docs(&pa.evs) == 0 || !a.ends_with(['\n', '\r']) || a.contains('\0') {
                return None;
            }
            ch.what = "two-streams";
            let sep = *g.pick(&["...\n", "... # c\n", "...\n# c\n", "...\n...\n", "...\n\n"]);
            ch.text = format!("{a}{sep}{b}");
            let by = max_anchor(&pa.evs);
            ch.evs.pop();
            ch.evs.extend(shifted(&pb.evs[1..], by));
        }
        5 => {
            if pa.evs.get(1) != Some(&Ev::DocStart(false)) || a.starts_with("...") || a.contains("\n...") || a.contains("\r...") {
                return None;
            }
            ch.what = "marker-in-front";
            let m = *g.pick(&["---\n", "--- # c\n", "# c\n---\n"]);
            ch.text = format!("{m}{a}");
            ch.evs[1] = Ev::DocStart(true);
            ch.shift = Some((2, 2, m.len() as i64, m.matches('\n').count() as i64));
        }
        6 => {
            if docs(&pa.evs) == 0 || !a.ends_with(['\n', '\r']) || a.contains('\0') {
                return None;
            }
            ch.what = "marker-behind";
            ch.text = format!("{a}...{}", g.pick(&["\n", "", " # c\n", "\n# c\n"]));
        }
        7 if bare_one && !block_root => {
            let n = g.range(1, 5);
            ch.what = "under-a-key";
            ch.text = format!("k:\n{}", indented(a, &" ".repeat(n)));
            ch.evs = around(&pa.evs, &[map, key("k")], &[Ev::MapEnd]);
        }
        8 if bare_one && !block_root => {
            let n = g.range(1, 5);
            ch.what = "behind-a-dash";
            let t = indented(a, &" ".repeat(n));
            // Content in the line of the dash, if there is any to put there.
            ch.text = if !a.starts_with([' ', '\n', '#', '\t']) && g.chance(2, 3) { format!("-{t}") } else { format!("-\n{t}") };
            if ch.text.starts_with('-') && !ch.text.starts_with("-\n") {
                // The dash takes a column.
                let t = indented(a, &" ".repeat(n + 1));
                ch.text = format!("-{}", &t[1..]);
            }
            ch.evs = around(&pa.evs, &[seq], &[Ev::SeqEnd]);
        }
        9 if bare_one && a.starts_with(['[', '{', '"', '\'']) && matches!(pa.evs[2], Ev::SeqStart { .. } | Ev::MapStart { .. } | Ev::Scalar { .. }) => {
            // Not where the collection is but the first key.
            let root = match &pa.evs[2] {
                Ev::SeqStart { .. } => a.starts_with('['),
                Ev::MapStart { .. } => a.starts_with('{') && !matches!(pa.evs[3], Ev::MapStart { .. }),
                _ => a.starts_with(['"', '\'']),
            };
            if !root {
                return None;
            }
            ch.what = "in-brackets";
            let n = g.below(3);
            ch.text = format!("[ {}]\n", indented(a, &" ".repeat(n)));
            ch.evs = around(&pa.evs, &[seq], &[Ev::SeqEnd]);
        }
        10 if bare_one && !block_root => {
            let n = g.range(1, 4);
            ch.what = "explicit-key";
            ch.text = format!("?\n{}: v\n", indented(a, &" ".repeat(n)));
            ch.evs = around(&pa.evs, &[map], &[key("v"), Ev::MapEnd]);
        }
        _ => return None,
    }
    Some(ch)
}

fn compare(ch: &Changed, pa: &Parsed) -> Result<(), String> {
    let p = parse(&ch.text)?;
    let show_at = |k: usize, v: &[Ev]| v.get(k).map_or("(end)".into(), show_ev);
    if p.ok() != pa.ok() {
        return Err(format!("{}: {} gives {:?} where the original gives {:?}", ch.what, show(&p.evs), p.err, pa.err));
    }
    if p.evs != ch.evs {
        let k = p.evs.iter().zip(&ch.evs).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: event {k} is {} instead of {}; {}", ch.what, show_at(k, &p.evs), show_at(k, &ch.evs), show(&p.evs)));
    }
    let mark = |a: &Marker, bytes: i64, lines: i64| (a.pos as i64 + bytes, i64::from(a.line) + lines, a.col);
    if let Some((from, to, bytes, lines)) = ch.shift {
        for (k, (a, b)) in pa.spans[from..].iter().zip(&p.spans[to..]).enumerate() {
            for (x, y) in [(a.start, b.start), (a.end, b.end)] {
                if mark(&x, bytes, lines) != mark(&y, 0, 0) {
                    return Err(format!("{}-place: event {} ({}) at {y:?}, {x:?} in the original", ch.what, k + to, show_at(k + to, &p.evs)));
                }
            }
        }
    }
    if ch.lines {
        for (k, (a, b)) in pa.spans.iter().zip(&p.spans).enumerate() {
            for (x, y) in [(a.start, b.start), (a.end, b.end)] {
                if (x.line, x.col) != (y.line, y.col) {
                    return Err(format!("{}-place: event {k} ({}) at {y:?}, {x:?} in the original", ch.what, show_at(k, &p.evs)));
                }
            }
        }
    }
    Ok(())
}

fn c09(g: &mut G) -> Case {
    let text = |g: &mut G| {
        if g.chance(1, 3) {
            any_text(g).0
        } else {
            let m = MCfg { max_depth: 4, max_width: 3, max_nodes: 10, max_docs: 2, docs: [8, 1, 0, 0], ..MCfg::default() };
            let t = valid(g, &m).1.text;
            let t = if g.chance(1, 2) { mutate(g, &t) } else { t };
            if t.contains('\r') && g.chance(3, 4) { t.replace("\r\n", "\n").replace('\r', "\n") } else { t }
        }
    };
    let a = text(g);
    let b = if g.chance(1, 4) { text(g) } else { "- b\n".into() };
    let mut c = text_case(&a);
    let (Ok(pa), Ok(pb)) = (parse(&a), parse(&b)) else {
        c.discard = true;
        return c;
    };
    let Some(ch) = change(g, &a, &pa, &b, &pb) else {
        return c;
    };
    c = text_case(&ch.text);
    c.label(ch.what);
    c.label(if pa.ok() { "accepted" } else { "rejected" });
    c.nontrivial = pa.evs.len() > 4;
    if let Err(e) = compare(&ch, &pa) {
        c.fail = Some(format!("{e}; original {a:?}"));
    }
    c
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "any text (written from a model, mutated, soup), with one change that carries no meaning: other line ends (also in rejected texts), a byte order mark, a comment, blank or marker line in front, or one behind, another stream behind it, or the whole document put under a key, behind a dash, into brackets or behind `?` with its lines indented; events must be the same but for what was put around, spans moved by what was put in front; non-trivial: more than one node; distinct by text",
    assumptions: &["NUL ends the input for the scanner and is kept out of texts that are put in front of others", "documents with markers or directives are not put under others", "root block scalars are not put under others, their indentation indicators would change their meaning"],
    quick: 2_000_000,
    thorough: 40_000_000,
    run: c09,
    fixed: super::none,
};
