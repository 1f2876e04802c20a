//! C02: what a parser yields is a stream of documents, whatever the text.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::runner::Prop;
use crate::text::*;
use std::collections::HashSet;
use yam_core::parsing::Parser;
use yam_core::prelude::StrSource;

/// Recognizes streams of events.
#[derive(Default)]
pub struct Grammar {
    started: bool,
    ended: bool,
    in_doc: bool,
    root: bool,
    /// Open collections: is a mapping, number of children.
    open: Vec<(bool, usize)>,
    ids: HashSet<usize>,
    doc_ids: HashSet<usize>,
    pub docs: usize,
}

impl Grammar {
    fn node(&mut self) -> Result<(), String> {
        if !self.in_doc {
            return Err("a node outside of a document".into());
        }
        match self.open.last_mut() {
            Some((_, n)) => *n += 1,
            None if self.root => return Err("a second root node".into()),
            None => self.root = true,
        }
        Ok(())
    }
    fn anchor(&mut self, id: usize) -> Result<(), String> {
        if id > 0 {
            if !self.ids.insert(id) {
                return Err(format!("anchor id {id} is given twice"));
            }
            self.doc_ids.insert(id);
        }
        Ok(())
    }
    pub fn step(&mut self, e: &Ev) -> Result<(), String> {
        if self.ended {
            return Err("an event behind the end of the stream".into());
        }
        if !self.started && *e != Ev::StreamStart {
            return Err("the first event is no stream start".into());
        }
        match e {
            Ev::StreamStart => {
                if self.started {
                    return Err("a second stream start".into());
                }
                self.started = true;
            }
            Ev::StreamEnd => {
                if self.in_doc {
                    return Err("the stream ends inside a document".into());
                }
                self.ended = true;
            }
            Ev::DocStart(_) => {
                if self.in_doc {
                    return Err("a document starts inside a document".into());
                }
                self.in_doc = true;
                self.root = false;
                self.doc_ids.clear();
                self.docs += 1;
            }
            Ev::DocEnd => {
                if !self.in_doc || !self.open.is_empty() {
                    return Err("a document end without a document, or inside a collection".into());
                }
                if !self.root {
                    return Err("a document without a node".into());
                }
                self.in_doc = false;
            }
            Ev::Alias(id) => {
                self.node()?;
                if !self.doc_ids.contains(id) {
                    return Err(format!("alias to id {id}, which no node of the document has so far"));
                }
            }
            Ev::Scalar { anchor, .. } => {
                self.node()?;
                self.anchor(*anchor)?;
            }
            Ev::SeqStart { anchor, .. } | Ev::MapStart { anchor, .. } => {
                self.node()?;
                self.anchor(*anchor)?;
                self.open.push((matches!(e, Ev::MapStart { .. }), 0));
            }
            Ev::SeqEnd => match self.open.pop() {
                Some((false, _)) => {}
                _ => return Err("a sequence end without its start".into()),
            },
            Ev::MapEnd => match self.open.pop() {
                Some((true, n)) if n % 2 == 0 => {}
                Some((true, n)) => return Err(format!("a mapping with {n} keys and values")),
                _ => return Err("a mapping end without its start".into()),
            },
            Ev::Comment(_) => {}
            Ev::Nothing => return Err("an event that says nothing".into()),
        }
        Ok(())
    }
    pub fn complete(&self) -> bool {
        self.ended
    }
}

fn c02(g: &mut G) -> Case {
    let (text, kind) = any_text(g);
    let keep = g.chance(1, 4);
    let mut c = text_case(&text);
    c.label(kind);
    match check(&text, keep) {
        Err(e) => c.fail = Some(e),
        Ok((p, docs)) => {
            c.label(if p.ok() { "accepted" } else { "rejected" });
            c.nontrivial = p.evs.iter().any(|e| matches!(e, Ev::SeqStart { .. } | Ev::MapStart { .. }));
            if docs > 1 {
                c.label("several-documents");
            }
            if p.evs.iter().any(|e| matches!(e, Ev::Alias(_))) {
                c.label("alias");
            }
        }
    }
    c
}

fn check(text: &str, keep: bool) -> Result<(Parsed, usize), String> {
    let p = parse_with(text, keep)?;
    let mut gr = Grammar::default();
    for (i, e) in p.evs.iter().enumerate() {
        gr.step(e).map_err(|m| format!("grammar: event {i}: {m}; events {}", show(&p.evs)))?;
    }
    if p.ok() && !gr.complete() {
        return Err(format!("incomplete: the events end without an error and without a stream end: {}", show(&p.evs)));
    }
    if p.ok() {
        // Nothing comes behind the end.
        let more = guarded(text.len(), || {
            let mut q = Parser::new(StrSource::new(text)).keep_tags(keep);
            for _ in 0..p.evs.len() {
                let _ = q.next_event();
            }
            q.next_event().is_some() || q.peek().is_some() || q.next_event().is_some()
        })?;
        if more {
            return Err("more: events behind the end of the stream".into());
        }
    }
    let d = gr.docs;
    Ok((p, d))
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "any text (mutated, spliced, token soup, noise, valid); its events run through a recognizer of event streams (nesting, pairs, one root per document, anchor ids, aliases), as a whole when there is no error, as a prefix otherwise; non-trivial: a collection starts; distinct by text",
    assumptions: &["a case is a random sample: a text outside the drawn ones is not covered"],
    quick: 2_000_000,
    thorough: 60_000_000,
    run: c02,
    fixed: || {
        crate::regress::rows()
            .iter()
            .map(|r| -> crate::runner::Fixed { (format!("{:?}", r.1), Box::new(move || check(r.1, false).err())) })
            .collect()
    },
};
