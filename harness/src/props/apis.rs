//! C11: all ways of reading a text agree.

use super::model_diff::kept_text;
use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::model::MCfg;
use crate::runner::Prop;
use crate::schema::*;
use crate::text::*;
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::{Event, EventReceiver, Parser, ParserIter, SpannedEventReceiver};
use yam_core::prelude::*;

#[derive(Default)]
struct Spanned(Vec<(Ev, Span)>);

impl<'i> SpannedEventReceiver<'i> for Spanned {
    fn on_event(&mut self, ev: Event<'i>, span: Span) {
        self.0.push((conv(&ev), span));
    }
}

#[derive(Default)]
struct Bare(Vec<Ev>);

impl<'i> EventReceiver<'i> for Bare {
    fn on_event(&mut self, ev: Event<'i>) {
        self.0.push(conv(&ev));
    }
}

pub type Outcome = (Vec<(Ev, Span)>, Option<YamlError>);

fn diff(what: &str, got: &Outcome, want: &Outcome) -> Result<(), String> {
    for (k, (a, b)) in got.0.iter().zip(&want.0).enumerate() {
        if a.0 != b.0 {
            return Err(format!("{what}: event {k} is {} instead of {}", show_ev(&a.0), show_ev(&b.0)));
        }
        if a.1 != b.1 {
            return Err(format!("{what}-span: event {k} ({}) at {:?} instead of {:?}", show_ev(&a.0), a.1, b.1));
        }
    }
    if got.0.len() != want.0.len() {
        return Err(format!("{what}: {} events instead of {}: {}", got.0.len(), want.0.len(), show(&got.0.iter().map(|x| x.0.clone()).collect::<Vec<_>>())));
    }
    if got.1 != want.1 {
        return Err(format!("{what}: ends with {:?} instead of {:?}", got.1, want.1));
    }
    Ok(())
}

fn yam(e: &YamEvent<'_>) -> Ev {
    match e {
        YamEvent::DocStart => Ev::DocStart(false),
        YamEvent::DocEnd => Ev::DocEnd,
        YamEvent::StreamEnd => Ev::StreamEnd,
        YamEvent::Alias(i) => Ev::Alias(*i),
        YamEvent::Scalar(s) => conv(&Event::Scalar(s.clone())),
        YamEvent::SeqStart(a, t) => conv(&Event::SequenceStart(*a, t.clone())),
        YamEvent::SeqEnd => Ev::SeqEnd,
        YamEvent::MapStart(a, t) => conv(&Event::MappingStart(*a, t.clone())),
        YamEvent::MapEnd => Ev::MapEnd,
    }
}

/// Compares every way with pulling events one by one.
pub fn check(text: &str, keep: bool, want: &Outcome, schedule: &[usize]) -> Result<(), String> {
    let make = || Parser::new(StrSource::new(text)).keep_tags(keep);
    let cap = event_cap(text.len());
    let mut sched = schedule.iter().cycle();
    // Peeks in between.
    {
        let mut p = make();
        let mut got: Outcome = (Vec::new(), None);
        for _ in 0..cap {
            let peeks = sched.next().unwrap() % 4;
            let mut seen: Option<(Ev, Span)> = None;
            let mut failed = None;
            for _ in 0..peeks {
                match p.peek() {
                    None => return Err("peek: nothing to see before the stream end was taken".into()),
                    Some(Ok((e, s))) => {
                        let now = (conv(e), *s);
                        if seen.as_ref().is_some_and(|x| *x != now) {
                            return Err(format!("peek: two looks give {} and {}", show_ev(&seen.unwrap().0), show_ev(&now.0)));
                        }
                        seen = Some(now);
                    }
                    Some(Err(e)) => {
                        failed = Some(e);
                        break;
                    }
                }
            }
            if let Some(e) = failed {
                got.1 = Some(e);
                break;
            }
            match p.next_event() {
                None => break,
                Some(Err(e)) => {
                    got.1 = Some(e);
                    break;
                }
                Some(Ok((e, s))) => {
                    let now = (conv(&e), s);
                    if seen.as_ref().is_some_and(|x| *x != now) {
                        return Err(format!("peek: saw {} but took {}", show_ev(&seen.unwrap().0), show_ev(&now.0)));
                    }
                    let last = now.0 == Ev::StreamEnd;
                    got.0.push(now);
                    if last {
                        break;
                    }
                }
            }
        }
        if got.1.is_none() && (p.peek().is_some() || p.next_event().is_some() || p.next().is_some()) {
            return Err("after-end: something comes behind the stream end".into());
        }
        diff("peek", &got, want)?;
    }
    // The parser made from a string, and as an iterator.
    {
        let mut got: Outcome = (Vec::new(), None);
        for r in Parser::new_from_str(text).keep_tags(keep).take(cap) {
            match r {
                Ok((e, s)) => got.0.push((conv(&e), s)),
                Err(e) => {
                    got.1 = Some(e);
                    break;
                }
            }
        }
        diff("new-from-str", &got, want)?;
    }
    // Pushed into receivers.
    {
        let mut p = make();
        let mut r = Spanned::default();
        if sched.next().unwrap() % 3 == 0 {
            let _ = p.peek();
        }
        let e = p.load(&mut r, true).err();
        diff("load", &(r.0, e), want)?;
        let mut p = make();
        let mut r = Bare::default();
        let e = p.load(&mut r, true).err();
        let z = Span::default();
        let bare: Outcome = (want.0.iter().map(|x| (x.0.clone(), z)).collect(), want.1.clone());
        diff("receiver", &(r.0.into_iter().map(|x| (x, z)).collect(), e), &bare)?;
    }
    // One document at a time.
    {
        let mut p = make();
        let mut r = Spanned::default();
        let mut err = None;
        let docs = want.0.iter().filter(|e| e.0 == Ev::DocEnd).count();
        for n in 0..=docs + 1 {
            if sched.next().unwrap() % 2 == 1
                && let Some(Err(e)) = p.peek()
            {
                err = Some(e);
                break;
            }
            let had = r.0.len();
            if let Err(e) = p.load(&mut r, false) {
                err = Some(e);
                break;
            }
            let ends = r.0[had..].iter().filter(|e| e.0 == Ev::DocEnd).count();
            if ends > 1 {
                return Err(format!("load-one: call {n} gives {ends} documents"));
            }
            if r.0.last().is_some_and(|e| e.0 == Ev::StreamEnd) {
                break;
            }
        }
        diff("load-one", &(r.0, err), want)?;
    }
    // The iterator over the first document.
    if !keep {
        let mut first: Vec<Ev> = Vec::new();
        let mut rest_ok = false;
        let spoken: Vec<&Ev> = want.0.iter().map(|e| &e.0).filter(|e| !matches!(e, Ev::Comment(_))).collect();
        for (k, e) in spoken.iter().enumerate() {
            match e {
                Ev::StreamStart => {}
                Ev::DocStart(_) => first.push(Ev::DocStart(false)),
                e => first.push((*e).clone()),
            }
            if **e == Ev::DocEnd {
                rest_ok = spoken.get(k + 1).is_some_and(|e| **e == Ev::StreamEnd);
                break;
            }
        }
        let complete = first.last() == Some(&Ev::DocEnd);
        if !complete {
            first.retain(|e| *e != Ev::StreamEnd);
        }
        let mut it = ParserIter::from_str_ref(&text);
        let mut got: Vec<Ev> = Vec::new();
        while let Some(e) = it.next() {
            got.push(yam(&e));
            if got.len() > cap {
                return Err("iter: too many events".into());
            }
        }
        if it.next().is_some() {
            return Err("iter: goes on behind its end".into());
        }
        if got != first {
            return Err(format!("iter: {} instead of {}", show(&got), show(&first)));
        }
        let err = it.error().cloned();
        if complete && rest_ok {
            if err.is_some() {
                return Err(format!("iter: reports {err:?} on one complete document"));
            }
        } else if err.is_none() {
            return Err("iter: ends without an error on what is not one document".into());
        } else if !complete && want.1.is_some() && err != want.1 && want.0.len() > 1 {
            return Err(format!("iter: reports {err:?} instead of {:?}", want.1));
        }
    }
    Ok(())
}

/// The loading calls against each other.
pub fn loads(text: &str, want: &Outcome) -> Result<(), String> {
    let conv = |r: Result<Vec<Yaml<'_>>, YamlError>| r.map(|v| v.iter().map(of_yaml).collect::<Vec<_>>());
    let conv1 = |r: Result<Yaml<'_>, YamlError>| r.map(|y| of_yaml(&y));
    let all = conv(Yaml::load_from(text));
    if all.is_ok() != want.1.is_none() || all.as_ref().err() != want.1.as_ref() {
        return Err(format!("load-from: gives {:?}, parsing {:?}", all.err(), want.1));
    }
    let docs = want.0.iter().filter(|e| e.0 == Ev::DocEnd).count();
    if let Ok(v) = &all
        && v.len() != docs
    {
        return Err(format!("load-from: {} trees for {docs} documents", v.len()));
    }
    let mut p = Parser::new_from_str(text);
    let b = conv(YamlLoader::<Yaml>::load_from_parser(&mut p));
    if b != all {
        return Err(format!("load-from-parser: {b:?} instead of {all:?}"));
    }
    let b = conv(YamlLoader::<Yaml>::load_from(String::from(text)));
    if b != all {
        return Err(format!("loader: {b:?} instead of {all:?}"));
    }
    let one = conv1(Yaml::load_single(text));
    match (&one, docs > 0) {
        (Ok(y), true) => {
            if let Ok(v) = &all
                && v[0] != *y
            {
                return Err(format!("load-single: {y:?} instead of {:?}", v[0]));
            }
        }
        (Ok(y), false) => return Err(format!("load-single: {y:?} without a document")),
        (Err(e), true) => return Err(format!("load-single: {e} although the first document is complete")),
        (Err(e), false) => {
            let w = want.1.clone().unwrap_or(YamlError::NoDocument);
            if *e != w {
                return Err(format!("load-single: {e} instead of {w}"));
            }
        }
    }
    let mut p = Parser::new_from_str(text);
    for (what, r) in [
        ("load-single-from-parser", conv1(YamlLoader::<Yaml>::load_single_from_parser(&mut p))),
        ("load-single-source", conv1(YamlLoader::<Yaml>::load_single_source(StrSource::new(text)))),
        ("loader-single", conv1(YamlLoader::<Yaml>::load_single(text))),
    ] {
        if r != one {
            return Err(format!("{what}: {r:?} instead of {one:?}"));
        }
    }
    // The same parser goes on with the documents behind the first.
    let mut p = Parser::new_from_str(text);
    let mut got = Vec::new();
    for _ in 0..docs {
        match conv1(YamlLoader::<Yaml>::load_single_from_parser(&mut p)) {
            Ok(y) => got.push(y),
            Err(e) => return Err(format!("one-by-one: document {} gives {e}", got.len())),
        }
    }
    if let Ok(v) = &all
        && *v != got
    {
        return Err(format!("one-by-one: {got:?} instead of {v:?}"));
    }
    Ok(())
}

fn c11(g: &mut G) -> Case {
    let keep = g.chance(1, 5);
    let (text, kind) = if keep && g.chance(1, 2) {
        let a = kept_text(g).0;
        if g.chance(1, 3) { (mutate(g, &a), "kept-tags-mutated") } else { (a, "kept-tags") }
    } else if g.chance(1, 3) {
        let m = MCfg { max_depth: 3, max_width: 3, max_nodes: 10, max_docs: 4, docs: [1, 2, 2, 2], ..MCfg::default() };
        let (_, r) = valid(g, &m);
        if g.chance(1, 3) { (mutate(g, &r.text), "mutated") } else { (r.text, "valid") }
    } else {
        any_text(g)
    };
    let n = g.range(1, 6);
    let sched: Vec<usize> = (0..n).map(|_| g.below(12)).collect();
    let mut c = text_case(&text);
    c.label(kind);
    if keep {
        c.label("keep-tags");
    }
    let p = match parse_with(&text, keep) {
        Ok(p) => p,
        Err(_) => {
            c.discard = true;
            return c;
        }
    };
    let alias = compose(&p.evs, 20_000).is_none();
    c.label(if p.ok() { "accepted" } else { "rejected" });
    let docs = p.evs.iter().filter(|e| **e == Ev::DocEnd).count();
    if docs > 1 {
        c.label("several-documents");
    }
    if docs == 0 {
        c.label("no-complete-document");
    }
    c.nontrivial = p.evs.len() >= 4;
    let want: Outcome = (p.evs.into_iter().zip(p.spans).collect(), p.err);
    // Some twenty readings of the text under one budget.
    let r = guarded(text.len() * 8 + 1000, || {
        check(&text, keep, &want, &sched)?;
        if alias || keep { Ok(()) } else { loads(&text, &want) }
    });
    match r {
        Err(e) | Ok(Err(e)) => c.fail = Some(e),
        Ok(Ok(())) => {}
    }
    c
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "any text, a third of them streams of several documents; pulled event by event as the reference, then with a random schedule of peeks, through new_from_str, into receivers with and without spans, document by document with peeks in between, through ParserIter and all the loader's calls; events, spans, errors and trees are compared; non-trivial: two events behind stream and document start; distinct by text",
    assumptions: &["ParserIter is for one document: a second one, or none, is an error", "after an error was reported, nothing is compared any more"],
    quick: 800_000,
    thorough: 30_000_000,
    run: c11,
    fixed: || {
        let mut v: Vec<crate::runner::Fixed> = Vec::new();
        for r in crate::regress::rows() {
            let text = r.1;
            for sched in [&[0usize][..], &[1], &[3, 2, 1, 0], &[11, 5]] {
                v.push((
                    format!("{text:?} {sched:?}"),
                    Box::new(move || {
                        let p = parse(text).ok()?;
                        if compose(&p.evs, 20_000).is_none() {
                            return None;
                        }
                        let want: Outcome = (p.evs.into_iter().zip(p.spans).collect(), p.err);
                        match guarded(text.len() * 8 + 1000, || check(text, false, &want, sched).and_then(|()| loads(text, &want))) {
                            Err(e) | Ok(Err(e)) => Some(e),
                            Ok(Ok(())) => None,
                        }
                    }),
                ));
            }
        }
        v
    },
};
