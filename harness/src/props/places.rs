//! C10: where events and errors are said to be.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::model::MCfg;
use crate::render::*;
use crate::runner::Prop;
use crate::text::*;
use yam_core::prelude::Marker;

/// Line and column (in bytes, both from one) of every byte position.
/// A byte order mark at the start takes no column.
pub struct Lines(Vec<usize>, usize);

impl Lines {
    pub fn new(text: &str) -> Lines {
        let b = text.as_bytes();
        let mut v = vec![0];
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'\n' => v.push(i + 1),
                b'\r' if b.get(i + 1) != Some(&b'\n') => v.push(i + 1),
                _ => {}
            }
            i += 1;
        }
        Lines(v, if text.starts_with('\u{feff}') { 3 } else { 0 })
    }
    pub fn of(&self, pos: usize) -> (u32, u32) {
        let k = self.0.partition_point(|s| *s <= pos);
        let start = if k == 1 { self.1.min(pos) } else { self.0[k - 1] };
        (k as u32, (pos - start + 1) as u32)
    }
}

fn place(text: &str, lines: &Lines, m: &Marker, what: &str) -> Result<(), String> {
    if m.pos > text.len() {
        return Err(format!("{what}-range: at byte {} of {}", m.pos, text.len()));
    }
    if !text.is_char_boundary(m.pos) {
        return Err(format!("{what}-boundary: at byte {} inside a character", m.pos));
    }
    let want = lines.of(m.pos);
    if (m.line, m.col) != want {
        return Err(format!("{what}-line: byte {} is line {} column {}, not line {} column {}", m.pos, want.0, want.1, m.line, m.col));
    }
    Ok(())
}

pub fn check(text: &str, p: &Parsed) -> Result<(), String> {
    let lines = Lines::new(text);
    let mut last = 0;
    for (e, s) in p.evs.iter().zip(&p.spans) {
        let at = |m: String| format!("{m} ({} {:?})", show_ev(e), s);
        place(text, &lines, &s.start, "start").map_err(at)?;
        place(text, &lines, &s.end, "end").map_err(at)?;
        if s.end.pos < s.start.pos {
            return Err(at("backwards: the end is before the start".into()));
        }
        // Where comments stand among the other events is open.
        if matches!(e, Ev::Comment(_)) {
            continue;
        }
        if s.start.pos < last {
            return Err(at(format!("order: starts before the event in front of it, at {last}")));
        }
        last = s.start.pos;
    }
    if let Some(m) = p.err.as_ref().and_then(err_mark) {
        place(text, &lines, &m, "error").map_err(|x| format!("{x} ({:?})", p.err))?;
    }
    Ok(())
}

/// Tokens of some length, the last one ended by the text.
fn long_ends(g: &mut G) -> String {
    let mut t = String::new();
    let n = g.range(1, 3);
    for i in 0..n {
        t.push_str(*g.pick(&["- ", "- |\n  ", "- >\n   ", "- |\n  x\n\n   ", "- a: ", "- '", "- \"", "# ", "- [", "- !", "- &", "- ? ", "- !<", "- a # ", "  ", "\t", ""]));
        let max = *g.pick(&[20, 70, 140, 300, 600, 1100]);
        let len = g.range(1, max);
        let c = *g.pick(&['a', 'a', ' ', 'é', '日', '\t', '%']);
        for _ in 0..len {
            t.push(if c == 'a' || g.chance(9, 10) { c } else { 'x' });
        }
        if i + 1 < n {
            t.push_str(*g.pick(&["\n", "\r\n", "\r", "'\n", "\"\n", "]\n"]));
        }
    }
    t
}

fn c10(g: &mut G) -> Case {
    if g.chance(1, 2) {
        let m = MCfg { max_depth: 4, max_width: 4, max_nodes: 20, ..MCfg::default() };
        let (_, r) = valid(g, &m);
        let mut c = text_case(&r.text);
        c.label("valid");
        match parse(&r.text) {
            Err(e) => c.fail = Some(e),
            Ok(p) => {
                c.nontrivial = p.evs.len() > 5;
                if let Err(e) = check(&r.text, &p) {
                    c.fail = Some(e);
                } else if p.ok() && p.evs == r.evs() {
                    exact(&r, &p, &mut c);
                }
            }
        }
        return c;
    }
    let (text, kind) = if g.chance(1, 60) { (long_ends(g), "long-ends") } else { any_text(g) };
    let mut c = text_case(&text);
    c.label(kind);
    match parse(&text) {
        Err(e) => c.fail = Some(e),
        Ok(p) => {
            c.label(if p.ok() { "accepted" } else { "rejected" });
            c.nontrivial = p.evs.len() > 5 || p.err.is_some();
            if let Err(e) = check(&text, &p) {
                c.fail = Some(e);
            }
        }
    }
    c
}

pub fn exact(r: &Rendered, p: &Parsed, c: &mut Case) {
    let spans = p.evs.iter().zip(&p.spans).filter(|(e, _)| !matches!(e, Ev::Comment(_))).map(|(_, s)| s);
    for (x, s) in r.exp.iter().zip(spans) {
        // Block scalars start behind their header.
        let block = matches!(x.ev, Ev::Scalar { style: Style::Literal | Style::Folded, .. });
        if let Some(at) = x.at
            && if block { s.start.pos < at } else { at != s.start.pos }
        {
            c.fail("exact", format!("{} starts at byte {at}, not {} ({s:?})", show_ev(&x.ev), s.start.pos));
        }
        // Plain scalars end behind their last character.
        if let (Some(at), Ev::Scalar { style: Style::Plain, .. }) = (x.end, &x.ev)
            && s.end.pos != at
        {
            c.fail("exact-end", format!("{} ends at byte {at}, not {} ({s:?})", show_ev(&x.ev), s.end.pos));
        }
        // White space and comments behind a token may belong to it.
        if let Some(at) = x.end
            && !r.text.get(at..s.end.pos).is_some_and(|t| t.split('#').next().unwrap_or("").bytes().all(|b| b.is_ascii_whitespace()))
        {
            c.fail("exact-end", format!("{} ends at byte {at}, not {} ({s:?})", show_ev(&x.ev), s.end.pos));
        }
    }
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "half valid streams written from a model that knows where each token is, half any text, some of it long tokens that the text ends; every start, end and error mark is in range, on a character, with the line and column of its byte, starts are in order and no end is before its start; against the model, scalars, aliases, brackets, block collections and document markers start where they were written and flow tokens end there (white space and comments aside); non-trivial: more than five events or an error; distinct by text",
    assumptions: &["columns count bytes", "the place of what is not written (omitted nodes, ends of block collections and documents, implicit document starts) is only required to be in order", "block scalars are said to start behind their header, and white space and comments behind a token other than a plain scalar may count to it"],
    quick: 2_400_000,
    thorough: 30_000_000,
    run: c10,
    fixed: || {
        crate::regress::rows()
            .iter()
            .map(|r| -> crate::runner::Fixed { (format!("{:?}", r.1), Box::new(move || parse(r.1).and_then(|p| check(r.1, &p)).err())) })
            .collect()
    },
};
