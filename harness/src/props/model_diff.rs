//! C03 to C07: what a text means, against the abstract stream it was written from.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::huge::{Kind as Size, huge};
use crate::model::*;
use crate::render::*;
use crate::runner::Prop;

/// Draws a stream, writes it down, and compares what is parsed.
pub fn diff(g: &mut G, m: &MCfg, r: &RCfg) -> (Vec<Doc>, Rendered, Case) {
    let mut docs = gen_stream(g, m);
    for d in &mut docs {
        fix_root(&mut d.root);
    }
    let r = render(g, r, &docs);
    let mut c = text_case(&r.text);
    c.labels = r.labels.clone();
    match parse(&r.text) {
        Err(e) => c.fail = Some(e),
        Ok(p) => match &p.err {
            Some(e) => c.fail("rejected", format!("{e}; expected {}", show(&r.evs()))),
            None => {
                let want = r.evs();
                if p.evs != want {
                    let k = p.evs.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    let at = |v: &[Ev]| v.get(k).map_or("(end)".to_string(), show_ev);
                    c.fail("events", format!("event {k}: got {} expected {}; got {}; expected {}", at(&p.evs), at(&want), show(&p.evs), show(&want)));
                }
            }
        },
    }
    (docs, r, c)
}

fn same(text: &str, want: &[Ev], c: &mut Case) {
    match parse(text) {
        Err(e) => c.fail = Some(e),
        Ok(p) => {
            let k = p.evs.iter().zip(want).take_while(|(a, b)| a == b).count();
            let at = |v: &[Ev]| v.get(k..v.len().min(k + 3)).map_or("(end)".to_string(), |v| show(v).chars().take(300).collect());
            if let Some(e) = &p.err {
                c.fail("rejected", format!("{e} behind event {k}; expected {}", at(want)));
            } else if p.evs != want {
                c.fail("events", format!("event {k}: got {} expected {}", at(&p.evs), at(want)));
            }
        }
    }
}

/// Something past the sizes at which counters wrap, once in `1/den` cases.
fn huge_case(g: &mut G, den: usize, kinds: &[Size]) -> Option<Case> {
    huge_text(g, den, kinds).map(|(_, c)| c)
}

fn huge_text(g: &mut G, den: usize, kinds: &[Size]) -> Option<(crate::huge::Huge, Case)> {
    if !g.chance(1, den) {
        return None;
    }
    let h = huge(g, kinds, 100_000);
    let mut c = text_case(&h.text);
    c.label("huge");
    c.label(h.what);
    c.nontrivial = true;
    same(&h.text, &h.evs, &mut c);
    Some((h, c))
}

fn visit(docs: &[Doc], f: &mut dyn FnMut(&Node)) {
    for d in docs {
        d.root.visit(&mut |n| f(n));
    }
}

const ASSUME: &[&str] = &[
    "the harness's model of YAML 1.2 (model.rs, render.rs) writes only texts whose meaning is settled: no indentation indicator at the top level, no byte order mark, implicit keys of at most 900 bytes",
    "a case is a random sample: a text outside the drawn ones is not covered",
];

// ----- C03 ---------------------------------------------------------------

fn c03(g: &mut G) -> Case {
    if let Some(c) = huge_case(g, 2000, &[Size::Scalar, Size::Scalar, Size::Scalar, Size::LongKey, Size::Gap]) {
        return c;
    }
    let m = MCfg {
        max_depth: 3,
        max_width: 4,
        max_nodes: 10,
        max_docs: 1,
        anchors: false,
        tags: false,
        directives: false,
        empty: false,
        block_scalars: false,
        styles: [4, 4, 6, 0, 0],
        ..MCfg::default()
    };
    let (docs, r, mut c) = diff(g, &m, &RCfg::default());
    let mut special = false;
    visit(&docs, &mut |n| {
        if let Kind::Sc(_, v) = &n.kind {
            special |= v.chars().any(|ch| !ch.is_ascii_alphanumeric());
        }
    });
    c.nontrivial = special || r.labels.iter().any(|l| matches!(*l, "folded-lines" | "hex-escape" | "escaped-break"));
    visit(&docs, &mut |n| {
        if let Kind::Sc(s, v) = &n.kind {
            c.label(match s {
                Style::Plain => "plain",
                Style::Single => "single-quoted",
                _ => "double-quoted",
            });
            if v.contains('\n') {
                c.label("value-with-line-break");
            }
            if !v.is_ascii() {
                c.label("value-not-ascii");
            }
            if v.len() > 60 {
                c.label("value-long");
            }
        }
    });
    c
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "a random tree of plain, single- and double-quoted scalars (spaces, tabs, line breaks, indicators, controls, non-ASCII, up to some hundred bytes) written with random quoting, escapes, folding, indentation, line ends and comments, in block and flow context; non-trivial: a value has a character other than ASCII letters and digits, or the text uses folding or escapes; distinct by text",
    assumptions: ASSUME,
    quick: 3_600_000,
    thorough: 40_000_000,
    run: c03,
    fixed: || crate::regress::of("C03"),
};

// ----- C04 ---------------------------------------------------------------

fn c04(g: &mut G) -> Case {
    if let Some(c) = huge_case(g, 2000, &[Size::Block]) {
        return c;
    }
    let m = MCfg {
        max_depth: 4,
        max_width: 4,
        max_nodes: 12,
        max_docs: 2,
        anchors: true,
        tags: true,
        directives: false,
        styles: [2, 0, 0, 6, 6],
        schema_values: 0,
        ..MCfg::default()
    };
    let (docs, r, mut c) = diff(g, &m, &RCfg::default());
    let mut lines = false;
    visit(&docs, &mut |n| {
        if let Kind::Sc(Style::Literal | Style::Folded, v) = &n.kind {
            lines |= v.trim_end_matches('\n').contains('\n') || v.contains(' ') || v.ends_with("\n\n");
            if v.is_empty() {
                c.label("empty-value");
            }
            if v.ends_with("\n\n") {
                c.label("kept-breaks");
            }
            if !v.is_empty() && !v.ends_with('\n') {
                c.label("no-final-break-in-value");
            }
            if v.split('\n').any(|l| l.starts_with([' ', '\t'])) {
                c.label("more-indented-line");
            }
        }
    });
    c.nontrivial = lines && r.labels.iter().any(|l| matches!(*l, "literal" | "folded"));
    c
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "a random tree whose scalars are mostly literal and folded blocks (blank and more-indented lines, tabs, trailing breaks), written with every chomping, indentation and indicator that gives the value, nested in block collections, with comments and all line ends; non-trivial: a block scalar has several lines, spaces or several final breaks; distinct by text",
    assumptions: ASSUME,
    quick: 3_600_000,
    thorough: 40_000_000,
    run: c04,
    fixed: || crate::regress::of("C04"),
};

// ----- C05 ---------------------------------------------------------------

fn c05(g: &mut G) -> Case {
    if let Some(c) = huge_case(g, 2000, &[Size::FlowNest, Size::FlowNest, Size::BlockNest, Size::LineNest, Size::Wide, Size::Wide, Size::LongKey, Size::Gap]) {
        return c;
    }
    let m = MCfg {
        max_depth: 7,
        max_width: 6,
        max_nodes: 60,
        max_docs: 1,
        anchors: false,
        tags: false,
        directives: false,
        styles: [12, 2, 2, 1, 1],
        empty_weight: 2,
        ..MCfg::default()
    };
    let (docs, r, mut c) = diff(g, &m, &RCfg::default());
    c.nontrivial = docs[0].root.depth() >= 3;
    if docs[0].root.depth() >= 5 {
        c.label("depth-5-and-more");
    }
    if docs[0].root.size() >= 20 {
        c.label("nodes-20-and-more");
    }
    if r.text.len() > 1000 {
        c.label("text-over-1000-bytes");
    }
    visit(&docs, &mut |n| {
        if let Kind::Map(es) = &n.kind {
            for (k, v) in es {
                if matches!(k.kind, Kind::Seq(_) | Kind::Map(_)) {
                    c.label("collection-as-key");
                }
                if k.is_bare_empty() {
                    c.label("empty-key");
                }
                if v.is_bare_empty() {
                    c.label("empty-value");
                }
            }
        }
    });
    c
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "a random tree of sequences and mappings, up to 7 deep and some 60 nodes, with empty and collection keys, written as block (compact, indentless, explicit and implicit keys, random indentation) and flow collections (single pairs, trailing commas, adjacent values, line breaks anywhere) with comments; non-trivial: three levels and more; distinct by text",
    assumptions: ASSUME,
    quick: 2_400_000,
    thorough: 30_000_000,
    run: c05,
    fixed: || crate::regress::of("C05"),
};

// ----- C06 ---------------------------------------------------------------

/// The parser tells an anchor's name by its id.
fn names(r: &Rendered, c: &mut Case) {
    use yam_core::prelude::*;
    let got = guarded(r.text.len(), || {
        let mut p = yam_core::parsing::Parser::new(StrSource::new(&r.text));
        for x in &r.exp {
            let e = match p.next() {
                Some(Ok((e, _))) => conv(&e),
                e => return Some(format!("{e:?} instead of {}", show_ev(&x.ev))),
            };
            let (Ev::Alias(id), Some(at), Some(end)) = (&e, x.at, x.end) else { continue };
            let name = p.get_anchor(*id).map(|s| s.to_string());
            if name.as_deref() != Some(&r.text[at + 1..end]) {
                return Some(format!("anchor {id} of {} is called {name:?}", &r.text[at..end]));
            }
        }
        p.get_anchor(0).map(|n| format!("anchor 0 is called {n:?}"))
    });
    match got {
        Err(e) => c.fail = Some(e),
        Ok(Some(e)) => c.fail("anchor-name", e),
        Ok(None) => {}
    }
}

/// The same of a huge text, for some two hundred of its aliases.
fn names_at(text: &str, evs: &[Ev], c: &mut Case) {
    use yam_core::prelude::*;
    let n = evs.iter().filter(|e| matches!(e, Ev::Alias(_))).count();
    let got = guarded(text.len(), || {
        let mut p = yam_core::parsing::Parser::new(StrSource::new(text));
        let mut k = 0;
        while let Some(Ok((e, span))) = p.next() {
            let Ev::Alias(id) = conv(&e) else { continue };
            k += 1;
            if k % (1 + n / 200) != 0 {
                continue;
            }
            let (name, want) = (p.get_anchor(id), &text[span.start.pos + 1..span.end.pos]);
            if name.is_none_or(|n| n != want) {
                return Some(format!("anchor {id} of *{want:.40} is called {:.40}", format!("{name:?}")));
            }
        }
        None
    });
    match got {
        Err(e) => c.fail = Some(e),
        Ok(Some(e)) => c.fail("anchor-name", e),
        Ok(None) => {}
    }
}

fn c06(g: &mut G) -> Case {
    if let Some((h, mut c)) = huge_text(g, 2000, &[Size::Names, Size::LongNames, Size::LongNames, Size::Handles]) {
        if c.fail.is_none() {
            names_at(&h.text, &h.evs, &mut c);
        }
        return c;
    }
    let m = MCfg {
        max_depth: 4,
        max_width: 4,
        max_nodes: 24,
        max_docs: 3,
        alias_in: 4,
        anchor_in: 3,
        tag_in: 4,
        directives_in: 3,
        docs: [4, 2, 1, 1],
        ..MCfg::default()
    };
    let (docs, r, mut c) = diff(g, &m, &RCfg::default());
    if c.fail.is_none() {
        names(&r, &mut c);
    }
    let (mut an, mut al, mut tg) = (0, 0, 0);
    visit(&docs, &mut |n| {
        an += usize::from(n.anchor.is_some());
        al += usize::from(matches!(n.kind, Kind::Alias(_)));
        tg += usize::from(n.tag.is_some());
        if n.anchor.is_some() && n.tag.is_some() {
            c.label("anchor-and-tag");
        }
        if n.has_props() && n.kind == Kind::Empty {
            c.label("properties-without-content");
        }
        if let Kind::Map(es) = &n.kind
            && es.iter().any(|(k, _)| matches!(k.kind, Kind::Alias(_)))
        {
            c.label("alias-as-key");
        }
    });
    c.nontrivial = al > 0 || tg > 1;
    if al > 0 {
        c.label("alias");
    }
    if tg > 0 {
        c.label("tag");
    }
    for d in &docs {
        let mut names: Vec<&str> = Vec::new();
        d.root.visit(&mut |n| {
            if let Some(a) = &n.anchor {
                if names.contains(&a.as_str()) {
                    c.label("anchor-redefined");
                }
                names.push(a);
            }
        });
    }
    let _ = an;
    c
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "a random stream in which a third of the nodes have anchors (names reused, redefined, non-ASCII), a quarter tags (primary, secondary and declared handles, verbatim, %-escapes) and a quarter are aliases (also of enclosing nodes and as keys), in up to 4 documents; ids, the names behind them and resolved tags are compared; non-trivial: an alias or two tags; distinct by text",
    assumptions: ASSUME,
    quick: 2_400_000,
    thorough: 30_000_000,
    run: c06,
    fixed: || crate::regress::of("C06"),
};

// ----- C07 ---------------------------------------------------------------

/// A stream whose documents use handles declared before; the same stream with
/// the declarations repeated; whether every document declares what it uses;
/// whether some does not declare what another did.
pub fn kept_text(g: &mut G) -> (String, String, bool, bool) {
    let n = g.range(2, 4);
    let (mut a, mut b) = (String::new(), String::new());
    let mut all: Vec<(&str, String)> = Vec::new();
    // Whether every document declares what it uses.
    let mut own = true;
    let mut varied = false;
    for i in 0..n {
        let mut here: Vec<(&str, String)> = Vec::new();
        if i == 0 || g.chance(1, 3) {
            for h in ["!e!", "!f-0!", "!", "!!"] {
                if g.chance(1, 2) {
                    here.push((h, (*g.pick(&["!x", "tag:e.org,2000:", "!", "tag:%C3%A9"])).to_string()));
                }
            }
        }
        let lines = |v: &[(&str, String)]| v.iter().map(|(h, p)| format!("%TAG {h} {p}\n")).collect::<String>();
        for (h, p) in &here {
            all.retain(|(k, _)| k != h);
            all.push((h, p.clone()));
        }
        if i > 0 && !here.is_empty() {
            a.push_str("...\n");
        }
        a.push_str(&lines(&here));
        if i > 0 && !all.is_empty() {
            b.push_str("...\n");
        }
        b.push_str(&lines(&all));
        let mut body = String::from("---\n");
        for _ in 0..g.range(1, 3) {
            let known: Vec<&str> = all.iter().map(|x| x.0).chain(["!", "!!"]).collect();
            let h = *g.pick(&known);
            let declared = |v: &[(&str, String)]| v.iter().any(|(k, _)| *k == h);
            if declared(&all) && !declared(&here) {
                varied = true;
                own &= h == "!" || h == "!!";
            }
            body.push_str(&format!("- {h}{} x\n", g.pick(&["a", "str", "%41", "b-c"])));
        }
        a.push_str(&body);
        b.push_str(&body);
    }
    (a, b, own, varied)
}

/// Handles that are kept over documents, as if they were declared again.
fn kept_tags(g: &mut G) -> Case {
    if g.chance(1, 4) {
        return kept_anchors(g);
    }
    let (a, b, own, varied) = kept_text(g);
    let mut c = text_case(&a);
    c.label("kept-tags");
    c.nontrivial = varied;
    let (ka, kb, pa) = match (parse_with(&a, true), parse_with(&b, false), parse(&a)) {
        (Ok(x), Ok(y), Ok(z)) => (x, y, z),
        (Err(e), ..) | (_, Err(e), _) | (.., Err(e)) => {
            c.fail = Some(e);
            return c;
        }
    };
    if let Some(e) = ka.err.as_ref().or(kb.err.as_ref()) {
        c.fail("keep-tags", format!("rejected: {e}"));
    } else if ka.evs != kb.evs {
        c.fail("keep-tags", format!("{} instead of {}", show(&ka.evs), show(&kb.evs)));
    } else if pa.ok() != own {
        c.fail("handles", format!("{:?} where every document {} what it uses", pa.err, if own { "declares" } else { "does not declare" }));
    }
    c
}

/// Anchors are not kept, whatever is of the handles: an alias to an anchor of
/// a document before is an error, one to the document's own is not.
fn kept_anchors(g: &mut G) -> Case {
    let n = g.range(2, 5);
    let bad = g.chance(1, 2).then(|| g.range(1, n - 1));
    let mut text = String::new();
    let names = ["a", "b", "c", "d", "e"];
    let mut ended = true;
    for i in 0..n {
        if i == 0 && g.chance(1, 2) {
            text.push_str("%TAG !e! tag:e.org,2000:\n---\n");
        } else {
            // Bare documents come first or behind a marker.
            if !ended || g.chance(1, 2) {
                text.push_str(*g.pick(&["---\n", "--- # c\n", "---\n\n"]));
            }
        }
        let aliased = if bad == Some(i) { names[g.below(i)] } else { names[i] };
        text.push_str(&match g.below(4) {
            0 => format!("- &{} x\n- *{aliased}\n", names[i]),
            1 => format!("[&{} x, *{aliased}]\n", names[i]),
            2 => format!("&{} k: v\nl: *{aliased}\n", names[i]),
            _ => format!("&{} \nk: {{l: [*{aliased} ]}}\n", names[i]),
        });
        ended = g.chance(1, 2);
        if ended {
            text.push_str(*g.pick(&["...\n", "... # c\n"]));
        }
    }
    let mut c = text_case(&text);
    c.label("kept-anchors");
    c.nontrivial = true;
    for keep in [false, true] {
        match parse_with(&text, keep) {
            Err(e) => c.fail = Some(e),
            Ok(p) => {
                if p.ok() != bad.is_none() {
                    c.fail("anchors", format!("{:?} with keep_tags({keep}) where {}", p.err, if bad.is_some() { "an alias is to an anchor of an earlier document" } else { "aliases are to anchors of their own documents" }));
                }
            }
        }
    }
    c
}

fn c07(g: &mut G) -> Case {
    if let Some(c) = huge_case(g, 2000, &[Size::Docs, Size::Docs, Size::Handles, Size::Gap]) {
        return c;
    }
    if g.chance(1, 10) {
        return kept_tags(g);
    }
    let m = MCfg {
        max_depth: 3,
        max_width: 3,
        max_nodes: 8,
        max_docs: 4,
        docs: [1, 3, 3, 3],
        directives_in: 2,
        ..MCfg::default()
    };
    let (docs, _, mut c) = diff(g, &m, &RCfg::default());
    c.nontrivial = docs.len() > 1 || docs[0].has_directives();
    if docs.iter().any(|d| d.tag_dirs.len() > 1) {
        c.label("several-tag-directives");
    }
    if docs.iter().any(|d| d.root.is_bare_empty()) {
        c.label("empty-document");
    }
    c
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "a random stream of up to 4 small documents, bare or with `---`, ended by `...` or not, empty or not, half with %YAML, %TAG or reserved directives; document boundaries, explicitness and what stays of tags and anchors are compared; one case in ten is a stream whose documents use handles declared before, kept (`keep_tags`) or not, against the same stream with the declarations repeated, or one whose aliases are to anchors of their own document or, once, of an earlier one; non-trivial: several documents or a directive; distinct by text",
    assumptions: ASSUME,
    quick: 2_400_000,
    thorough: 30_000_000,
    run: c07,
    fixed: || crate::regress::of("C07"),
};
