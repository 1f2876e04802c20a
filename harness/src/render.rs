//! Writes an abstract stream down as text, choosing among the presentations
//! YAML allows, and states the events (and where they start) it must give.

use crate::engine::G;
use crate::ev::{Ev, Style};
use crate::model::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct RCfg {
    pub comments: bool,
    pub blank_lines: bool,
    pub trailing_ws: bool,
    /// White space other than spaces.
    pub tabs: bool,
    /// Line breaks other than LF.
    pub eols: bool,
    pub flow: bool,
    pub multi_line: bool,
    pub explicit_keys: bool,
    /// No final line break, at times.
    pub eof: bool,
    pub doc_marks: bool,
}

/// Whether what comes next would be a document marker in the first column.
fn marker_next(next: &[char]) -> bool {
    let w: String = next.iter().take(4).collect();
    (w.starts_with("---") || w.starts_with("...")) && w.chars().nth(3).is_none_or(|c| c.is_ascii_whitespace())
}

impl Default for RCfg {
    fn default() -> Self {
        RCfg { comments: true, blank_lines: true, trailing_ws: true, tabs: true, eols: true, flow: true, multi_line: true, explicit_keys: true, eof: true, doc_marks: true }
    }
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub ev: Ev,
    /// Byte at which the event starts, where that is settled.
    pub at: Option<usize>,
    /// The byte behind it, where that is settled.
    pub end: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Rendered {
    pub text: String,
    pub exp: Vec<Exp>,
    pub labels: Vec<&'static str>,
}

impl Rendered {
    pub fn evs(&self) -> Vec<Ev> {
        self.exp.iter().map(|e| e.ev.clone()).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lead {
    DocStart,
    DashDoc,
    Seq,
    ExpKey,
    ExpVal,
    ImpVal,
}

struct R<'g, 'b> {
    g: &'g mut G<'b>,
    cfg: RCfg,
    out: String,
    exp: Vec<Exp>,
    anchors: HashMap<String, usize>,
    next_anchor: usize,
    eol: usize,
    /// Set behind a block scalar: its content indentation.
    /// Where a block scalar ended: its chomping, whether it has content and how many breaks are behind it.
    block_end: Option<(usize, char, bool, usize)>,
    after_block: Option<usize>,
    labels: Vec<&'static str>,
}

/// Can be written inside a flow collection.
fn can_flow(n: &Node) -> bool {
    match &n.kind {
        Kind::Sc(Style::Plain, v) => plain_ok(v, true),
        Kind::Sc(Style::Literal | Style::Folded, _) => false,
        Kind::Sc(..) | Kind::Alias(_) | Kind::Empty => true,
        Kind::Seq(xs) => xs.iter().all(|x| can_flow(x) && !x.is_bare_empty()),
        Kind::Map(es) => es.iter().all(|(k, v)| can_flow(k) && can_flow(v)),
    }
}

/// Can be written on one line, as an implicit key.
fn can_single(n: &Node, in_flow: bool) -> bool {
    match &n.kind {
        Kind::Sc(Style::Plain, v) => !v.contains('\n') && plain_ok(v, in_flow),
        Kind::Sc(Style::Single, v) => !v.contains('\n'),
        Kind::Sc(Style::Double, _) | Kind::Alias(_) | Kind::Empty => true,
        Kind::Sc(..) => false,
        Kind::Seq(xs) => xs.iter().all(|x| can_single(x, true) && !x.is_bare_empty()),
        Kind::Map(es) => es.iter().all(|(k, v)| can_single(k, true) && can_single(v, true)),
    }
}

fn json_like(n: &Node) -> bool {
    matches!(n.kind, Kind::Sc(Style::Single | Style::Double, _) | Kind::Seq(_) | Kind::Map(_))
}

const COMMENTS: &[&str] = &["#", "# c", "# a: b", "#no space", "# 'quote", "# \"dq", "# - x", "# [", "# }", "# é日", "## #", "#\t", "# ---", "# %YAML 1.2", "# \\", "# &a *b !t"];

impl R<'_, '_> {
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn bol(&self) -> bool {
        self.out.is_empty() || self.out.ends_with('\n') || self.out.ends_with('\r')
    }
    fn col(&self) -> usize {
        self.out.len() - self.out.rfind(['\n', '\r']).map_or(0, |i| i + 1)
    }
    fn nl(&mut self) {
        let k = match self.eol {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => self.g.below(3),
        };
        match k {
            0 if self.out.ends_with('\r') => self.out.push('\r'),
            0 => self.out.push('\n'),
            1 => self.out.push_str("\r\n"),
            _ => self.out.push('\r'),
        }
    }
    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    /// White space inside a line, `n` columns of it if it is spaces.
    fn ws(&mut self, n: usize) {
        if n > 0 && self.cfg.tabs && self.g.chance(1, 16) {
            let t = *self.g.pick(&["\t", " \t", "\t ", "\t\t"]);
            self.out.push_str(t);
            self.label("tab-separation");
        } else {
            self.spaces(n);
        }
    }
    fn comment_text(&mut self) {
        let c = *self.g.pick(COMMENTS);
        self.out.push_str(c);
    }
    /// Ends the current line; may put comment and blank lines behind it.
    fn end_line(&mut self) {
        if !self.bol() {
            if self.cfg.trailing_ws && self.g.chance(1, 12) {
                let t = *self.g.pick(&[" ", "  ", "\t", " \t"]);
                self.out.push_str(t);
                self.label("trailing-ws");
            }
            if self.cfg.comments && self.g.chance(1, 10) {
                self.ws(1);
                self.comment_text();
                self.label("comment");
            }
            self.nl();
        }
        self.filler();
    }
    fn filler(&mut self) {
        debug_assert!(self.bol());
        if !self.cfg.comments && !self.cfg.blank_lines {
            return;
        }
        if !self.g.chance(1, 10) {
            return;
        }
        let n = self.g.range(1, 3);
        for _ in 0..n {
            let comment = self.cfg.comments && (!self.cfg.blank_lines || self.g.chance(1, 2));
            if let Some(ind) = self.after_block {
                // Only a less indented comment ends a block scalar.
                if !self.cfg.comments || ind == 0 {
                    return;
                }
                let n = self.g.below(ind.min(4));
                self.spaces(n);
                self.comment_text();
                self.after_block = None;
                self.label("comment-after-block-scalar");
            } else if comment {
                let n = self.g.weighted(&[4, 1, 1, 1, 1]);
                self.spaces(n);
                if n > 0 {
                    self.ws(1);
                }
                self.comment_text();
                self.label("comment-line");
            } else {
                let n = self.g.weighted(&[4, 1, 1, 1]);
                self.ws(n);
                self.label("blank-line");
            }
            self.nl();
        }
    }
    fn push(&mut self, ev: Ev, at: Option<usize>) {
        self.exp.push(Exp { ev, at, end: None });
    }
    fn anchor_id(&mut self, n: &Node) -> usize {
        match &n.anchor {
            None => 0,
            Some(a) => {
                let id = self.next_anchor;
                self.next_anchor += 1;
                self.anchors.insert(a.clone(), id);
                id
            }
        }
    }

    // ----- separation ---------------------------------------------------

    /// Indentation of at least `min`, and `k` more; now and then none at all where that is enough.
    fn indent(&mut self, min: usize, k: usize) {
        if min == 0 && self.g.chance(1, 3) {
            self.label("continued-in-first-column");
        } else {
            self.spaces(min.max(1) + k);
        }
    }

    /// White space between tokens; may go to further lines, indented by at least `min`.
    fn sep(&mut self, min: usize, single: bool, required: bool) {
        let k = self.g.weighted(&[8, if required { 0 } else { 8 }, 1, if single || !self.cfg.multi_line { 0 } else { 3 }]);
        match k {
            0 => self.ws(1),
            1 => {}
            2 => self.ws(2),
            _ => {
                self.label("break-in-separation");
                self.line_break(min);
            }
        }
    }
    /// A line break with everything that may go along, and indentation of at least `min`.
    fn line_break(&mut self, min: usize) {
        self.after_block = None;
        self.end_line();
        let k = self.g.weighted(&[5, 2, 1, 1]);
        self.indent(min, k);
        if self.cfg.tabs && self.g.chance(1, 24) {
            self.out.push('\t');
            self.label("tab-separation");
        }
    }

    fn props(&mut self, n: &Node, min: usize, single: bool) -> bool {
        let mut ps: Vec<String> = Vec::new();
        if let Some(a) = &n.anchor {
            ps.push(format!("&{a}"));
        }
        if let Some(t) = &n.tag {
            ps.push(t.text.clone());
        }
        if ps.len() == 2 && self.g.chance(1, 2) {
            ps.swap(0, 1);
        }
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.sep(min, single, true);
            }
            self.out.push_str(p);
        }
        !ps.is_empty()
    }

    // ----- flow scalars -------------------------------------------------

    fn tag_of(n: &Node) -> Option<(String, String)> {
        n.tag.as_ref().map(|t| t.ev.clone())
    }

    /// `k` line breaks and an indentation of at least `min`.
    fn fold_breaks(&mut self, k: usize, min: usize, next: &[char]) {
        if self.cfg.trailing_ws && self.g.chance(1, 10) {
            if self.g.chance(1, 6) {
                let n = if self.g.chance(1, 4) { self.g.range(30, 300) } else { self.g.range(2, 12) };
                let t = self.g.weighted(&[3, 2, 1]);
                for _ in 0..n {
                    let c = if t == 0 || (t == 1 && self.g.chance(1, 2)) { ' ' } else { '\t' };
                    self.out.push(c);
                }
                self.label("long-trailing-ws");
            } else {
                let t = *self.g.pick(&[" ", "\t"]);
                self.out.push_str(t);
            }
        }
        for i in 0..k {
            self.nl();
            if i + 1 < k && self.g.chance(1, 6) {
                let n = if self.g.chance(1, 20) { self.g.range(5, 100) } else { self.g.range(1, 4) };
                self.spaces(n);
                if n >= min && self.g.chance(1, 5) {
                    self.out.push('\t');
                    self.label("tab-in-blank-line");
                }
            }
        }
        let k = self.g.weighted(&[5, 2, 1, 1]);
        self.indent(if marker_next(next) { min.max(1) } else { min }, k);
        if self.g.chance(1, 20) {
            let n = if self.g.chance(1, 10) { self.g.range(2, 80) } else { 1 };
            for _ in 0..n {
                let c = if n > 1 && self.g.chance(1, 3) { ' ' } else { '\t' };
                self.out.push(c);
            }
        }
        self.label("folded-lines");
    }

    fn plain(&mut self, v: &str, min: usize, single: bool) {
        self.folded_text(v, min, single, |r, c, _| r.out.push(c));
    }
    fn single(&mut self, v: &str, min: usize, single: bool) {
        self.out.push('\'');
        self.folded_text(v, min, single, |r, c, _| {
            if c == '\'' {
                r.out.push('\'');
            }
            r.out.push(c);
        });
        self.out.push('\'');
    }
    /// Text in which line breaks are written folded, and spaces may be.
    fn folded_text(&mut self, v: &str, min: usize, single: bool, mut put: impl FnMut(&mut Self, char, bool)) {
        let cs: Vec<char> = v.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '\n' {
                let mut k = 0;
                while i < cs.len() && cs[i] == '\n' {
                    k += 1;
                    i += 1;
                }
                self.fold_breaks(k + 1, min, &cs[i..]);
                continue;
            }
            let solid = |c: Option<&char>| c.is_some_and(|c| !c.is_ascii_whitespace());
            if cs[i] == ' ' && !single && self.cfg.multi_line && i > 0 && solid(cs.get(i - 1)) && solid(cs.get(i + 1)) && self.g.chance(1, 6) {
                self.fold_breaks(1, min, &cs[i + 1..]);
                i += 1;
                continue;
            }
            put(self, cs[i], false);
            i += 1;
        }
    }

    fn escape(&mut self, c: char) {
        let short: &[(char, &str)] = &[
            ('\0', "0"), ('\x07', "a"), ('\x08', "b"), ('\t', "t"), ('\n', "n"), ('\x0b', "v"), ('\x0c', "f"), ('\r', "r"), ('\x1b', "e"),
            (' ', " "), ('"', "\""), ('/', "/"), ('\\', "\\"), ('\u{85}', "N"), ('\u{a0}', "_"), ('\u{2028}', "L"), ('\u{2029}', "P"),
        ];
        let cp = c as u32;
        if let Some((_, e)) = short.iter().find(|(x, _)| *x == c)
            && !self.g.chance(1, 4)
        {
            self.out.push('\\');
            self.out.push_str(e);
            return;
        }
        let mut k = self.g.below(3);
        if cp > 0xff && k == 0 {
            k = 1;
        }
        if cp > 0xffff {
            k = 2;
        }
        let s = match k {
            0 => format!("{cp:02x}"),
            1 => format!("{cp:04x}"),
            _ => format!("{cp:08x}"),
        };
        let s = match self.g.below(3) {
            0 => s,
            1 => s.to_uppercase(),
            _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        self.out.push('\\');
        self.out.push(['x', 'u', 'U'][k]);
        self.out.push_str(&s);
        self.label("hex-escape");
    }

    fn double(&mut self, v: &str, min: usize, single: bool) {
        self.out.push('"');
        let cs: Vec<char> = v.chars().collect();
        let mut i = 0;
        // Whether what was written last is white space that folding would strip.
        let mut soft = false;
        // Nothing of white space may follow unescaped.
        let mut at_line_start = false;
        let fold_ok = !single && self.cfg.multi_line;
        while i < cs.len() {
            let c = cs[i];
            let next = cs.get(i + 1).copied();
            if fold_ok && !soft {
                if c == '\n' && !at_line_start && self.g.chance(1, 2) {
                    let mut k = 0;
                    while i < cs.len() && cs[i] == '\n' {
                        k += 1;
                        i += 1;
                    }
                    self.fold_breaks(k + 1, min, &cs[i..]);
                    at_line_start = true;
                    continue;
                }
                if c == ' ' && !at_line_start && self.g.chance(1, 6) {
                    self.fold_breaks(1, min, &cs[i + 1..]);
                    at_line_start = true;
                    i += 1;
                    continue;
                }
            }
            // An escaped line break leaves no trace.
            if fold_ok && !at_line_start && self.g.chance(1, if c == '\n' { 4 } else { 24 }) {
                self.out.push('\\');
                self.nl();
                // Each blank line behind it is a line break.
                while i < cs.len() && cs[i] == '\n' {
                    if self.cfg.trailing_ws && self.g.chance(1, 8) {
                        let k = self.g.range(1, 3);
                        self.spaces(k);
                    }
                    self.nl();
                    i += 1;
                    self.label("escaped-break-blank-line");
                }
                let k = self.g.weighted(&[5, 2, 1]);
                self.indent(if marker_next(&cs[i..]) { min.max(1) } else { min }, k);
                self.label("escaped-break");
                at_line_start = true;
                soft = false;
                continue;
            }
            let raw = printable(c) || c == '\t' || (quotable(c) && self.g.chance(1, 3));
            let must = !raw || c == '"' || c == '\\' || (at_line_start && (c == ' ' || c == '\t'));
            let _ = next;
            if must || self.g.chance(1, 14) {
                self.escape(c);
                soft = false;
            } else {
                self.out.push(c);
                soft = c == ' ' || c == '\t';
            }
            at_line_start = false;
            i += 1;
        }
        if fold_ok && !at_line_start && self.g.chance(1, 40) {
            self.out.push('\\');
            self.nl();
            self.indent(min, 0);
            self.label("escaped-break-at-end");
        }
        self.out.push('"');
    }

    fn flow_scalar(&mut self, n: &Node, style: Style, v: &str, min: usize, single: bool) {
        let id = self.anchor_id(n);
        let at = self.out.len();
        // A document marker in the first column cannot be a plain scalar.
        let first_column = self.out.trim_start_matches('\u{feff}').is_empty() || self.out.ends_with(['\n', '\r']);
        let style = if style == Style::Plain && first_column && starts_with_marker(v) { Style::Single } else { style };
        self.push(Ev::Scalar { style, value: v.to_string(), anchor: id, tag: Self::tag_of(n) }, Some(at));
        match style {
            Style::Plain => self.plain(v, min, single),
            Style::Single => self.single(v, min, single),
            _ => self.double(v, min, single),
        }
        self.ends();
    }
    /// The latest event ends here.
    fn ends(&mut self) {
        let at = self.out.len();
        if let Some(e) = self.exp.last_mut() {
            e.end = Some(at);
        }
    }

    fn empty(&mut self, n: &Node) {
        let id = self.anchor_id(n);
        self.push(Ev::Scalar { style: Style::Plain, value: String::new(), anchor: id, tag: Self::tag_of(n) }, None);
    }

    fn alias(&mut self, a: &str) {
        let id = self.anchors[a];
        let at = self.out.len();
        self.push(Ev::Alias(id), Some(at));
        self.out.push('*');
        self.out.push_str(a);
        self.ends();
    }

    // ----- flow nodes ---------------------------------------------------

    /// A node inside a flow collection, or as an implicit key (`single`).
    fn flow_node(&mut self, n: &Node, min: usize, single: bool) {
        let had = self.props(n, min, single);
        if had && n.kind != Kind::Empty {
            self.sep(min, single, true);
        }
        self.flow_content(n, min, single);
    }

    fn flow_content(&mut self, n: &Node, min: usize, single: bool) {
        match &n.kind {
            Kind::Alias(a) => self.alias(a),
            Kind::Empty => self.empty(n),
            Kind::Sc(s, v) => self.flow_scalar(n, *s, v, min, single),
            Kind::Seq(xs) => {
                let id = self.anchor_id(n);
                let at = self.out.len();
                self.push(Ev::SeqStart { anchor: id, tag: Self::tag_of(n) }, Some(at));
                self.out.push('[');
                self.ends();
                self.sep(min, single, false);
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.sep(min, single, false);
                    }
                    self.flow_item(x, min, single);
                    let need = Self::ends_open(x);
                    self.sep(min, single, need);
                }
                if !xs.is_empty() && self.g.chance(1, 8) {
                    self.out.push(',');
                    self.sep(min, single, false);
                    self.label("trailing-comma");
                }
                self.push(Ev::SeqEnd, Some(self.out.len()));
                self.out.push(']');
                self.ends();
            }
            Kind::Map(es) => {
                let id = self.anchor_id(n);
                let at = self.out.len();
                self.push(Ev::MapStart { anchor: id, tag: Self::tag_of(n) }, Some(at));
                self.out.push('{');
                self.ends();
                self.sep(min, single, false);
                for (i, (k, v)) in es.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.sep(min, single, false);
                    }
                    self.flow_entry(k, v, min, single);
                    self.sep(min, single, false);
                }
                if !es.is_empty() && self.g.chance(1, 8) {
                    self.out.push(',');
                    self.sep(min, single, false);
                }
                self.push(Ev::MapEnd, Some(self.out.len()));
                self.out.push('}');
                self.ends();
            }
        }
    }

    /// Whether the node's text ends in something a `,` could be part of.
    fn ends_open(_n: &Node) -> bool {
        false
    }

    fn flow_item(&mut self, n: &Node, min: usize, single: bool) {
        if let Kind::Map(es) = &n.kind
            && es.len() == 1
            && !n.has_props()
            && self.g.chance(1, 2)
        {
            let (k, v) = &es[0];
            let implicit = can_single(k, true);
            if implicit && !self.g.chance(1, 5) {
                let save = self.save();
                let at = self.out.len();
                self.push(Ev::MapStart { anchor: 0, tag: None }, Some(at));
                self.flow_node(k, min, true);
                if self.out.len() - at <= 900 {
                    if self.key_needs_space(k) || (!k.is_bare_empty() && self.g.chance(1, 6)) {
                        self.ws(1);
                    }
                    self.colon_value(k, v, min, single, true);
                    self.push(Ev::MapEnd, None);
                    self.label("flow-pair");
                    return;
                }
                self.restore(save);
            }
            if self.cfg.explicit_keys {
                let at = self.out.len();
                self.push(Ev::MapStart { anchor: 0, tag: None }, Some(at));
                self.explicit_flow(k, v, min, single, true);
                self.push(Ev::MapEnd, None);
                self.label("flow-pair-explicit");
                return;
            }
        }
        self.flow_node(n, min, single);
    }

    fn explicit_flow(&mut self, k: &Node, v: &Node, min: usize, single: bool, pair: bool) {
        self.out.push('?');
        self.sep(min, single, true);
        self.flow_node(k, min, single);
        if v.is_bare_empty() && self.g.chance(1, 2) && !(pair && false) {
            self.empty(v);
            if k.is_bare_empty() {
                return;
            }
            return;
        }
        self.sep(min, single, self.key_needs_space(k));
        self.out.push(':');
        if v.is_bare_empty() {
            self.empty(v);
            self.sep(min, single, true);
        } else {
            if json_like(k) && self.g.chance(1, 3) {
                self.label("adjacent-value");
            } else {
                self.sep(min, single, true);
            }
            self.flow_node(v, min, single);
        }
    }

    fn key_needs_space(&self, k: &Node) -> bool {
        matches!(k.kind, Kind::Alias(_)) || (k.kind == Kind::Empty && k.has_props())
    }

    fn colon_value(&mut self, k: &Node, v: &Node, min: usize, single: bool, _pair: bool) {
        let adjacent = json_like(k);
        self.out.push(':');
        if v.is_bare_empty() {
            self.empty(v);
            self.sep(min, single, true);
            return;
        }
        if adjacent && self.g.chance(1, 3) {
            self.label("adjacent-value");
        } else {
            self.sep(min, single, true);
        }
        self.flow_node(v, min, single);
    }

    fn flow_entry(&mut self, k: &Node, v: &Node, min: usize, single: bool) {
        if k.depth() > 8 || (self.cfg.explicit_keys && self.g.chance(1, 8)) {
            self.explicit_flow(k, v, min, single, false);
            self.label("flow-explicit-key");
            return;
        }
        let save = self.save();
        let start = self.out.len();
        self.flow_node(k, min, single);
        if self.out[start..].chars().count() > 1024 {
            self.restore(save);
            self.explicit_flow(k, v, min, single, false);
            return;
        }
        if v.is_bare_empty() && !k.is_bare_empty() && self.g.chance(1, 2) {
            self.empty(v);
            return;
        }
        let need = self.key_needs_space(k);
        if need || self.g.chance(1, 8) {
            self.sep(min, single, need);
        }
        self.colon_value(k, v, min, single, false);
    }

    fn save(&self) -> (usize, usize, HashMap<String, usize>, usize) {
        (self.out.len(), self.exp.len(), self.anchors.clone(), self.next_anchor)
    }
    fn restore(&mut self, s: (usize, usize, HashMap<String, usize>, usize)) {
        self.out.truncate(s.0);
        self.exp.truncate(s.1);
        self.anchors = s.2;
        self.next_anchor = s.3;
    }

    // ----- block nodes --------------------------------------------------

    /// The node behind an indicator; `n` is the indentation of the parent.
    fn block_value(&mut self, node: &Node, n: i32, lead: Lead) {
        if node.is_bare_empty() {
            self.empty(node);
            return;
        }
        let min = (n + 1) as usize;
        let flowable = match &node.kind {
            Kind::Seq(xs) => can_flow(node) && (xs.is_empty() || (self.cfg.flow && self.g.chance(1, 3))),
            Kind::Map(es) => can_flow(node) && (es.is_empty() || (self.cfg.flow && self.g.chance(1, 3))),
            _ => false,
        };
        match &node.kind {
            Kind::Sc(s @ (Style::Literal | Style::Folded), v) => {
                self.lead_sep(lead, min, false);
                if self.props(node, min, false) {
                    self.sep(min, false, true);
                }
                self.block_scalar(node, *s, v, n);
            }
            Kind::Seq(xs) if !flowable => {
                let indentless = matches!(lead, Lead::ExpKey | Lead::ExpVal | Lead::ImpVal);
                let at = self.block_open(node, n, lead, indentless);
                let id = self.anchor_id(node);
                self.push(Ev::SeqStart { anchor: id, tag: Self::tag_of(node) }, if at as i32 > n { Some(self.out.len()) } else { None });
                self.block_seq(xs, at);
                self.push(Ev::SeqEnd, None);
            }
            Kind::Map(es) if !flowable => {
                let at = self.block_open(node, n, lead, false);
                let id = self.anchor_id(node);
                self.push(Ev::MapStart { anchor: id, tag: Self::tag_of(node) }, Some(self.out.len()));
                self.block_map(es, at);
                self.push(Ev::MapEnd, None);
            }
            _ => {
                self.lead_sep(lead, min, true);
                if self.props(node, min, false) && node.kind != Kind::Empty {
                    self.sep(min, false, true);
                }
                self.flow_content(node, min, false);
            }
        }
    }

    /// Goes from the indicator to the first token of the node.
    fn lead_sep(&mut self, lead: Lead, min: usize, may_break: bool) {
        if lead == Lead::DocStart {
            let k = self.g.weighted(&[6, 1, 1]);
            self.spaces(k);
            return;
        }
        if self.cfg.multi_line && self.g.chance(1, if may_break { 8 } else { 24 }) {
            self.label("value-on-next-line");
            self.line_break(min);
        } else {
            let k = self.g.weighted(&[0, 10, 2, 1]);
            self.ws(k);
        }
    }

    /// Goes to the first entry of a block collection; its column comes back.
    fn block_open(&mut self, node: &Node, n: i32, lead: Lead, indentless: bool) -> usize {
        let min = (n + 1) as usize;
        if !node.has_props() {
            if lead == Lead::DocStart {
                let k = self.g.weighted(&[8, 1, 1]);
                self.spaces(k);
                return k;
            }
            if matches!(lead, Lead::Seq | Lead::ExpKey | Lead::ExpVal) && self.g.chance(1, 2) {
                let k = self.g.weighted(&[0, 8, 1, 1]);
                self.spaces(k);
                self.label("compact");
                return self.col();
            }
        } else {
            self.lead_sep(lead, min, true);
            self.props(node, min, false);
        }
        self.end_line();
        let m = if indentless && n >= 0 && self.g.chance(1, 3) {
            self.label("indentless");
            n as usize
        } else {
            min + self.g.weighted(&[2, 6, 1, 1])
        };
        self.spaces(m);
        m
    }

    fn block_seq(&mut self, xs: &[Node], m: usize) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.spaces(m);
            }
            self.after_block = None;
            self.out.push('-');
            self.block_value(x, m as i32, Lead::Seq);
            self.end_line();
        }
    }

    fn block_map(&mut self, es: &[(Node, Node)], m: usize) {
        for (i, (k, v)) in es.iter().enumerate() {
            if i > 0 {
                self.spaces(m);
            }
            self.after_block = None;
            // Deep keys would be tried again at each level.
            if k.depth() <= 8 && can_single(k, false) && !(self.cfg.explicit_keys && self.g.chance(1, 10)) {
                let save = self.save();
                let start = self.out.len();
                self.flow_node(k, 0, true);
                if self.key_needs_space(k) || (!k.is_bare_empty() && self.g.chance(1, 10)) {
                    self.ws(1);
                }
                // Implicit keys have at most 1024 characters.
                let len = self.out[start..].chars().count();
                if len <= 1024 {
                    if len > 900 {
                        self.label("long-key");
                    }
                    self.out.push(':');
                    self.block_value(v, m as i32, Lead::ImpVal);
                    self.end_line();
                    continue;
                }
                self.restore(save);
            }
            self.label("explicit-key");
            self.out.push('?');
            self.block_value(k, m as i32, Lead::ExpKey);
            self.end_line();
            // A `:` in the next line would be taken for the one of this key.
            let colon_next = es.get(i + 1).is_some_and(|(k, _)| k.is_bare_empty());
            if v.is_bare_empty() && !colon_next && self.g.chance(1, 2) {
                self.empty(v);
                continue;
            }
            self.spaces(m);
            self.after_block = None;
            self.out.push(':');
            self.block_value(v, m as i32, Lead::ExpVal);
            self.end_line();
        }
    }

    fn block_scalar(&mut self, node: &Node, style: Style, v: &str, n: i32) {
        let id = self.anchor_id(node);
        self.push(Ev::Scalar { style, value: v.to_string(), anchor: id, tag: Self::tag_of(node) }, Some(self.out.len()));
        self.out.push(if style == Style::Literal { '|' } else { '>' });
        let content = v.trim_end_matches('\n');
        let trailing = v.len() - content.len();
        let lines: Vec<&str> = content.split('\n').collect();
        let first = lines.iter().find(|l| !l.is_empty()).copied().unwrap_or("");
        let lead_blank = lines[0].is_empty();
        // Indentation.
        let marker = lines.iter().any(|l| starts_with_marker(l));
        let mut min = (n + 1) as usize;
        if n < 0 && (marker || self.g.chance(3, 4)) {
            min = 1;
        }
        let mut ind = min + self.g.weighted(&[4, 4, 1, 1]);
        let must = first.starts_with(' ');
        // At the top level the meaning of an indicator is not settled.
        let indicate = (must || self.g.chance(1, 8)) && n >= 0;
        if indicate {
            ind = n as usize + self.g.range(1, 9);
        }
        let keep_needed = trailing > 1 || (content.is_empty() && trailing > 0);
        let chomp = if keep_needed {
            '+'
        } else if trailing == 0 {
            if content.is_empty() { *self.g.pick(&['-', ' ', '+']) } else { '-' }
        } else {
            *self.g.pick(&[' ', ' ', '+'])
        };
        let digit = char::from(b'0' + (ind as i32 - n) as u8);
        let first_digit = self.g.chance(1, 2);
        if indicate && first_digit {
            self.out.push(digit);
        }
        if chomp != ' ' {
            self.out.push(chomp);
        }
        if indicate && !first_digit {
            self.out.push(digit);
        }
        if indicate {
            self.label("indent-indicator");
        }
        if self.cfg.comments && self.g.chance(1, 10) {
            self.ws(1);
            self.comment_text();
        } else if self.cfg.trailing_ws && self.g.chance(1, 12) {
            self.ws(1);
        }
        self.nl();
        let more = |l: &str| l.starts_with([' ', '\t']);
        if !content.is_empty() {
            if style == Style::Literal {
                for l in &lines {
                    if l.is_empty() {
                        self.blank(ind);
                    } else {
                        self.spaces(ind);
                        self.out.push_str(l);
                    }
                    self.nl();
                }
            } else {
                // Folded: groups of line breaks between content lines.
                let mut prev: Option<&str> = None;
                let mut blanks = 0;
                for l in &lines {
                    if l.is_empty() {
                        blanks += 1;
                        continue;
                    }
                    let n_blank = match prev {
                        None => blanks,
                        // `blanks + 1` breaks in the value.
                        Some(p) if more(p) || more(l) => blanks,
                        Some(_) => blanks + 1,
                    };
                    for _ in 0..n_blank {
                        self.blank(ind);
                        self.nl();
                    }
                    blanks = 0;
                    self.spaces(ind);
                    if more(l) || !self.cfg.multi_line {
                        self.out.push_str(l);
                    } else {
                        let cs: Vec<char> = l.chars().collect();
                        for (i, c) in cs.iter().enumerate() {
                            let solid = |c: Option<&char>| c.is_some_and(|c| !c.is_ascii_whitespace());
                            if *c == ' ' && i > 0 && solid(cs.get(i - 1)) && solid(cs.get(i + 1)) && self.g.chance(1, 5) {
                                // Keeps document markers out of the first column.
                                let rest: String = cs[i + 1..].iter().collect();
                                if ind > 0 || !starts_with_marker(&rest) {
                                    self.nl();
                                    self.spaces(ind);
                                    self.label("folded-block-line");
                                    continue;
                                }
                            }
                            self.out.push(*c);
                        }
                    }
                    self.nl();
                    prev = Some(l);
                }
            }
        }
        if lead_blank {
            self.label("leading-blank");
        }
        // Final line breaks.
        let extra = if keep_needed {
            if content.is_empty() { trailing } else { trailing - 1 }
        } else if chomp == '+' {
            0
        } else {
            self.g.weighted(&[6, 1, 1])
        };
        for _ in 0..extra {
            self.blank(ind);
            self.nl();
        }
        self.after_block = Some(if content.is_empty() { min.min((n + 1) as usize) } else { ind });
        self.block_end = Some((self.out.len(), chomp, !content.is_empty(), extra));
        self.label(if style == Style::Literal { "literal" } else { "folded" });
    }

    /// Takes the last line break away again where a block scalar is last.
    fn unended_block(&mut self) -> bool {
        let Some((at, chomp, content, extra)) = self.block_end else { return false };
        if at != self.out.len() {
            return false;
        }
        let t = self.out.strip_suffix('\n').unwrap_or(&self.out);
        let t = t.strip_suffix('\r').unwrap_or(t);
        if content && extra == 0 && chomp != '-' {
            // Whether the end of the text counts as a line break is open, but not from case to case.
            let value = self.exp.iter_mut().rev().find_map(|x| match &mut x.ev {
                Ev::Scalar { style: Style::Literal | Style::Folded, value, .. } => Some(value),
                _ => None,
            });
            match end_is_break() {
                Some(true) => {}
                Some(false) => {
                    value.unwrap().pop();
                }
                None => return false,
            }
        }
        if chomp == '+' && extra > 0 {
            // The last empty line is gone, as it has no break any more.
            if !t.ends_with(['\n', '\r']) {
                return false;
            }
            let last = self.exp.iter_mut().rev().find_map(|x| match &mut x.ev {
                Ev::Scalar { style: Style::Literal | Style::Folded, value, .. } => Some(value),
                _ => None,
            });
            last.unwrap().pop();
        }
        let n = t.len();
        self.out.truncate(n);
        self.label("no-final-break-in-block");
        true
    }

    /// One line with a document end marker, or several.
    fn document_ends(&mut self) {
        let n = 1 + self.g.weighted(&[12, 2, 1]);
        for _ in 0..n {
            self.out.push_str("...");
            self.end_line();
        }
        if n > 1 {
            self.label("document-ends");
        }
    }

    /// An empty line inside a block scalar may be indented, but no more than the content.
    fn blank(&mut self, ind: usize) {
        if self.cfg.trailing_ws && self.g.chance(1, 8) {
            let k = self.g.below(ind + 1);
            self.spaces(k);
        }
    }
}

/// Top-level block scalars whose first line starts with a space cannot be
/// written without an indentation indicator.
pub fn fix_root(n: &mut Node) {
    if let Kind::Sc(Style::Literal | Style::Folded, v) = &mut n.kind
        && v.trim_start_matches('\n').starts_with(' ')
    {
        *v = v.trim_start_matches(['\n', ' ']).to_string();
        if v.trim_matches('\n').is_empty() {
            v.clear();
        }
    }
}

pub fn render(g: &mut G, cfg: &RCfg, docs: &[Doc]) -> Rendered {
    let eol = if cfg.eols { g.weighted(&[8, 2, 1, 1]) } else { 0 };
    let mut r = R { g, cfg: cfg.clone(), out: String::new(), exp: Vec::new(), anchors: HashMap::new(), next_anchor: 1, eol, after_block: None, block_end: None, labels: Vec::new() };
    if eol > 0 {
        r.label(["lf", "crlf", "cr", "mixed-eol"][eol]);
    }
    r.push(Ev::StreamStart, Some(0));
    r.filler();
    if cfg.doc_marks && r.g.chance(1, 60) {
        r.document_ends();
    }
    // Whether the stream is behind a `...` (or at its start).
    let mut fresh = true;
    for (i, d) in docs.iter().enumerate() {
        r.anchors.clear();
        if d.has_directives() && !fresh {
            r.document_ends();
            fresh = true;
        }
        let bare = fresh && !d.has_directives() && !d.root.is_bare_empty() && !(cfg.doc_marks && r.g.chance(1, 4));
        if d.has_directives() {
            let mut lines: Vec<String> = Vec::new();
            if let Some((a, b)) = d.yaml_dir {
                lines.push(format!("%YAML {a}.{b}"));
            }
            for (h, p) in &d.tag_dirs {
                lines.push(format!("%TAG {h} {p}"));
            }
            if let Some(x) = &d.reserved_dir {
                lines.push(format!("%{x}"));
            }
            while r.g.chance(1, 8) && lines.len() < 6 {
                lines.push(r.g.pick(&["%FOO", "%FOO bar", "%X a b c", "%BAR é", "%YAMLS 1.2", "%TAGS !e! x:"]).to_string());
            }
            for i in (1..lines.len()).rev() {
                let j = r.g.below(i + 1);
                lines.swap(i, i - j);
            }
            for l in lines {
                r.out.push_str(&l);
                r.end_line();
            }
            r.label("directives");
        }
        if bare {
            r.push(Ev::DocStart(false), None);
            r.block_value(&d.root, -1, Lead::DocStart);
        } else {
            let at = r.out.len();
            r.push(Ev::DocStart(true), Some(at));
            r.out.push_str("---");
            r.ends();
            r.block_value(&d.root, -1, Lead::DashDoc);
        }
        let last = i + 1 == docs.len();
        let eof = last && cfg.eof && if r.bol() { r.g.chance(1, 5) && r.unended_block() } else { r.g.chance(1, 10) };
        if !eof {
            r.end_line();
        } else {
            r.label("no-final-break");
        }
        r.after_block = None;
        r.push(Ev::DocEnd, None);
        fresh = false;
        if !eof && cfg.doc_marks && r.g.chance(1, 5) {
            r.document_ends();
            fresh = true;
            r.label("document-end");
        }
    }
    r.push(Ev::StreamEnd, None);
    if docs.len() > 1 {
        r.label("multi-doc");
    }
    if r.g.chance(1, 100) {
        r.label("byte-order-mark");
        r.out.insert(0, '\u{feff}');
        for x in &mut r.exp[1..] {
            x.at = x.at.map(|p| p + 3);
            x.end = x.end.map(|p| p + 3);
        }
    }
    Rendered { text: r.out, exp: r.exp, labels: r.labels }
}

/// Whether the parser takes the end of the text for the line break of a block scalar's last line.
fn end_is_break() -> Option<bool> {
    static BREAK: std::sync::OnceLock<Option<bool>> = std::sync::OnceLock::new();
    *BREAK.get_or_init(|| {
        let p = crate::ev::parse("- |\n  ab").ok()?;
        p.evs.iter().find_map(|e| match e {
            Ev::Scalar { value, .. } => match value.as_str() {
                "ab\n" => Some(true),
                "ab" => Some(false),
                _ => None,
            },
            _ => None,
        })
    })
}
