//! C18: with the `comment` feature, texts mean the same, and comments are told.

use super::apis::{Outcome, check, loads};
use super::grammar::Grammar;
use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::huge::Kind as Size;
use crate::model::*;
use crate::render::*;
use crate::runner::Prop;
use crate::schema::compose;
use crate::text::*;

fn told(text: &str, p: &Parsed) -> Result<usize, String> {
    let mut last = 0;
    let mut n = 0;
    for (e, s) in p.evs.iter().zip(&p.spans) {
        let Ev::Comment(c) = e else { continue };
        n += 1;
        let (a, b) = (s.start.pos, s.end.pos);
        if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
            return Err(format!("comment-span: {a}..{b} of {} bytes", text.len()));
        }
        if !c.starts_with('#') || text[a..b] != **c {
            return Err(format!("comment-text: {c:?}, but {:?} is at {a}..{b}", &text[a..b]));
        }
        if a > 0 && !text[..a].ends_with([' ', '\t', '\n', '\r']) {
            return Err(format!("comment-place: {c:?} at {a} follows no white space"));
        }
        if !text[b..].is_empty() && !text[b..].starts_with(['\n', '\r', '\0']) {
            return Err(format!("comment-end: {c:?} at {a}..{b} is not all of its line"));
        }
        if a < last {
            return Err(format!("comment-order: {c:?} at {a} is told behind one at {last}"));
        }
        last = b;
    }
    Ok(n)
}

/// Every reading of the text agrees with the events, and with what they are without the feature.
fn readings(g: &mut G, text: &str, p: &Parsed, c: &mut Case) -> Result<(), String> {
    c.label(if crate::peer::compare(text, p)? { "same-without" } else { "no-answer-without" });
    if g.chance(1, 3) && text.len() < 20_000 {
        c.label("readings");
        let sched: Vec<usize> = (0..g.range(1, 6)).map(|_| g.below(12)).collect();
        let want: Outcome = (p.evs.iter().cloned().zip(p.spans.iter().copied()).collect(), p.err.clone());
        let trees = compose(&p.evs, 20_000).is_some();
        guarded(text.len() * 8 + 1000, || {
            check(text, false, &want, &sched)?;
            if trees { loads(text, &want) } else { Ok(()) }
        })??;
    }
    super::places::check(text, p)
}

fn c18(g: &mut G) -> Case {
    let (text, kind, model) = if g.chance(1, 4000) {
        let h = crate::huge::huge(g, &[Size::Gap, Size::Gap, Size::Gap, Size::Scalar, Size::Block], 1000);
        (h.text, h.what, None)
    } else if g.chance(1, 3) {
        let (text, kind) = any_text(g);
        (text, kind, None)
    } else {
        let mut docs = gen_stream(g, &small_cfg());
        for d in &mut docs {
            fix_root(&mut d.root);
        }
        let r = render(g, &RCfg::default(), &docs);
        (r.text.clone(), "model", Some(r))
    };
    let mut c = text_case(&text);
    c.label(kind);
    let p = match parse(&text) {
        Err(e) => {
            c.fail = Some(e);
            return c;
        }
        Ok(p) => p,
    };
    match &model {
        None => {
            let mut gr = Grammar::default();
            for e in &p.evs {
                if let Err(e) = gr.step(e) {
                    c.fail("stream", e);
                }
            }
        }
        Some(r) => {
            let want = r.evs();
            let got: Vec<Ev> = p.evs.iter().filter(|e| !matches!(e, Ev::Comment(_))).cloned().collect();
            if let Some(e) = &p.err {
                c.fail("rejected", format!("{e}; got {}; expected {}", show(&p.evs), show(&want)));
            } else if got != want {
                c.fail("events", format!("got {}; expected {}", show(&p.evs), show(&want)));
            } else {
                super::places::exact(r, &p, &mut c);
            }
        }
    }
    if c.fail.is_none()
        && let Err(e) = readings(g, &text, &p, &mut c)
    {
        c.fail = Some(e);
    }
    match told(&text, &p) {
        Err(e) => c.fail = Some(e),
        Ok(n) => {
            c.nontrivial = n > 0;
            if n > 0 {
                c.label("comment-told");
            }
        }
    }
    c
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "built with the `comment` feature: two in three a stream written from a model, with comments wherever they may stand, whose events other than comments must be the model's; one in three any text, whose events must form a stream; each text goes to a process built without the feature as well, which must give the same events, places, trees and typed values, or errors with it; one in three is read in all the ways of C11; every comment told must be a whole comment of the text, at its span, behind white space, up to the end of its line, in order and none twice; non-trivial: a comment is told; distinct by text",
    assumptions: &["which comments are told is left open: the parser tells those behind `?`, quoted scalars and block scalar headers and passes over others", "where comment events stand among the other events is left open"],
    quick: 2_000_000,
    thorough: 40_000_000,
    run: c18,
    fixed: || {
        let mut v: Vec<crate::runner::Fixed> = Vec::new();
        for r in crate::regress::rows() {
            let (text, want) = (r.1, r.2);
            v.push((
                format!("{text:?}"),
                Box::new(move || {
                    let p = parse(text).ok()?;
                    if p.ok() == want.ends_with("ERR") {
                        return Some(format!("regression: {} expected {want}", show(&p.evs)));
                    }
                    crate::peer::compare(text, &p).err().or_else(|| told(text, &p).err())
                }),
            ));
        }
        v
    },
};
