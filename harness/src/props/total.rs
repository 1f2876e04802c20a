//! C01: reading is total.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::model::*;
use crate::runner::Prop;
use crate::text::*;
use serde::Deserialize;
use std::collections::{BTreeMap, HashMap};
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::{Parser, ParserIter};
use yam_core::prelude::*;

/// A text with nothing readable right before or right behind it.
pub struct Fenced {
    base: *mut u8,
    pages: usize,
}

const PAGE: usize = 4096;

impl Fenced {
    pub fn new(pages: usize) -> Fenced {
        unsafe {
            let len = (pages + 2) * PAGE;
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let base = p.cast::<u8>();
            assert_eq!(libc::mprotect(base.add(PAGE).cast(), pages * PAGE, libc::PROT_READ | libc::PROT_WRITE), 0);
            Fenced { base, pages }
        }
    }
    /// Copies `text` against one of the fences.
    pub fn put(&mut self, text: &str, at_end: bool) -> &str {
        let cap = self.pages * PAGE;
        assert!(text.len() <= cap);
        let off = if at_end { cap - text.len() } else { 0 };
        unsafe {
            let d = self.base.add(PAGE + off);
            std::ptr::copy_nonoverlapping(text.as_ptr(), d, text.len());
            std::str::from_utf8(std::slice::from_raw_parts(d, text.len())).unwrap()
        }
    }
    pub fn capacity(&self) -> usize {
        self.pages * PAGE
    }
}

/// Reads every byte of what came out and checks that it is text.
fn check_utf8(s: &str, what: &str) -> Result<(), String> {
    std::str::from_utf8(s.as_bytes()).map(|_| ()).map_err(|e| format!("utf8: {what} is not valid UTF-8: {e}"))
}

fn check_ev(e: &yam_core::parsing::Event<'_>) -> Result<(), String> {
    use yam_core::parsing::Event as E;
    match e {
        E::Scalar(s) => {
            check_utf8(&s.value, "a value")?;
            if let Some(t) = &s.tag {
                check_utf8(&t.handle, "a tag")?;
                check_utf8(&t.suffix, "a tag")?;
            }
        }
        E::SequenceStart(_, Some(t)) | E::MappingStart(_, Some(t)) => {
            check_utf8(&t.handle, "a tag")?;
            check_utf8(&t.suffix, "a tag")?;
        }
        E::Comment(c) => check_utf8(c, "a comment")?,
        _ => {}
    }
    Ok(())
}

fn anchor_of(e: &yam_core::parsing::Event<'_>) -> Option<usize> {
    use yam_core::parsing::Event as E;
    match e {
        E::Scalar(s) => Some(s.anchor_id),
        E::Alias(id) | E::SequenceStart(id, _) | E::MappingStart(id, _) => Some(*id),
        _ => None,
    }
    .filter(|id| *id > 0)
}

fn check_tree(y: &Yaml<'_>) -> Result<(), String> {
    match &y.0 {
        YamlData::Scalar(YamlScalar::String(s)) => check_utf8(s, "a string"),
        YamlData::Sequence(v) => v.iter().try_for_each(check_tree),
        YamlData::Mapping(m) => m.iter().try_for_each(|e| {
            check_tree(&e.key)?;
            check_tree(&e.value)
        }),
        YamlData::Tagged(t, n) => {
            check_utf8(&t.suffix, "a tag")?;
            check_tree(n)
        }
        _ => Ok(()),
    }
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct S {
    a: Option<i64>,
    #[serde(default)]
    b: Vec<String>,
    key: Option<Box<S>>,
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum En {
    A,
    Key(i64),
    #[serde(rename = "a")]
    T(u8, String),
    #[serde(rename = "b")]
    St { a: Option<f64> },
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Unit;

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct New(Vec<New>);

/// The ways to read a text. Each must come to an end, without a panic.
pub const APIS: usize = 12;

pub fn api_name(k: usize) -> &'static str {
    ["next", "peek", "load", "load_single", "load into a receiver", "ParserIter", "next after errors", "keep_tags", "serde value", "serde containers", "serde scalars", "serde derive"][k]
}

/// Errors can be shown.
fn told<T>(r: Result<T, yam_serde::de::DeYamlError>) -> Result<(), String> {
    r.map_or_else(|e| check_utf8(&format!("{e} {e:?}"), "an error"), |_| Ok(()))
}

pub fn read(text: &str, api: usize) -> Result<(), String> {
    let cap = event_cap(text.len());
    let too_many = || format!("hang: more than {cap} events on {} bytes", text.len());
    guarded(text.len(), || -> Result<(), String> {
        match api {
            0 | 7 => {
                let mut p = Parser::new(StrSource::new(text)).keep_tags(api == 7);
                let mut n = 0;
                while let Some(r) = p.next_event() {
                    n += 1;
                    match r {
                        Ok((e, _)) => {
                            check_ev(&e)?;
                            if let Some(name) = anchor_of(&e).and_then(|id| p.get_anchor(id)) {
                                check_utf8(name, "the name of an anchor")?;
                            }
                        }
                        Err(e) => {
                            check_utf8(&e.to_string(), "an error")?;
                            break;
                        }
                    }
                    if n > cap {
                        return Err(too_many());
                    }
                }
            }
            1 => {
                let mut p = Parser::new(StrSource::new(text));
                for n in 0.. {
                    match p.peek() {
                        None => break,
                        Some(Ok((e, _))) => check_ev(e)?,
                        Some(Err(_)) => break,
                    }
                    if n % 3 == 0 {
                        let _ = p.peek();
                    }
                    match p.next_event() {
                        None | Some(Err(_)) => break,
                        _ => {}
                    }
                    if n > cap {
                        return Err(too_many());
                    }
                }
            }
            2 => {
                match Yaml::load_from(text) {
                    Ok(ds) => ds.iter().try_for_each(check_tree)?,
                    Err(e) => check_utf8(&format!("{e} {e:?}"), "an error")?,
                }
            }
            3 => {
                if let Ok(d) = YamlLoader::<Yaml>::load_single(text) {
                    check_tree(&d)?;
                }
                let _ = YamlLoader::<Yaml>::load_single_source(StrSource::new(text)).map(|d| check_tree(&d));
            }
            4 => {
                let mut p = Parser::new(StrSource::new(text));
                let _ = p.load(&mut Sink, true);
                let mut p = Parser::new(StrSource::new(text));
                for _ in 0..cap {
                    if p.load(&mut Sink, false).is_err() || p.peek().is_none() {
                        break;
                    }
                    if matches!(p.peek(), Some(Ok((yam_core::parsing::Event::StreamEnd, _)))) {
                        break;
                    }
                }
            }
            5 => {
                for (n, e) in ParserIter::from_str_ref(&text).enumerate() {
                    if let YamEvent::Scalar(s) = &e {
                        check_utf8(&s.value, "a value")?;
                    }
                    if n > cap {
                        return Err(too_many());
                    }
                }
            }
            6 => {
                // An error does not make the parser unusable.
                let mut p = Parser::new(StrSource::new(text));
                let mut errs = 0;
                let mut n = 0;
                while errs < 4 && n < cap {
                    n += 1;
                    match p.next_event() {
                        None => break,
                        Some(Ok(_)) => {}
                        Some(Err(_)) => {
                            errs += 1;
                            let _ = p.peek();
                        }
                    }
                }
            }
            8 => {
                told(yam_serde::from_str::<serde_json::Value>(text))?;
                told(yam_serde::from_str::<serde::de::IgnoredAny>(text))?;
            }
            9 => {
                told(yam_serde::from_str::<Vec<Vec<String>>>(text))?;
                told(yam_serde::from_str::<BTreeMap<String, Option<f64>>>(text))?;
                told(yam_serde::from_str::<HashMap<i64, (bool, char)>>(text))?;
                told(yam_serde::from_str::<Option<Vec<Option<()>>>>(text))?;
            }
            10 => {
                told(yam_serde::from_str::<String>(text))?;
                told(yam_serde::from_str::<u8>(text))?;
                told(yam_serde::from_str::<i64>(text))?;
                told(yam_serde::from_str::<f64>(text))?;
                told(yam_serde::from_str::<bool>(text))?;
                told(yam_serde::from_str::<()>(text))?;
            }
            _ => {
                told(yam_serde::from_str::<S>(text))?;
                told(yam_serde::from_str::<En>(text))?;
                told(yam_serde::from_str::<Vec<En>>(text))?;
                told(yam_serde::from_str::<Unit>(text))?;
                told(yam_serde::from_str::<New>(text))?;
            }
        }
        Ok(())
    })?
}

/// A piece repeated, or nested.
fn big_text(g: &mut G) -> String {
    let n = *g.pick(&[3usize, 17, 100, 300]);
    match g.below(3) {
        0 => {
            let s = soup(g, 4);
            s.repeat(n)
        }
        1 => {
            let a = *g.pick(&["[", "{", "- ", "? ", "[{", "{a: ", "[a: ", "{? ", "-\t", "a: [", "&a [", "!t {", ": "]);
            let b = *g.pick(&["", "]", "}", "}]", "]}", ",", "\n", "a", ": b"]);
            let mid = soup(g, 3);
            format!("{}{}{}", a.repeat(n), mid, b.repeat(n))
        }
        _ => {
            // Ever deeper lines.
            let w = *g.pick(&["a:", "-", "? a", "- -", "&a", "!t", "a: |", "'x", "? -"]);
            let mut s = String::new();
            for i in 0..n.min(100) {
                s.push_str(&" ".repeat(i));
                s.push_str(w);
                s.push('\n');
            }
            s
        }
    }
}

struct Sink;

impl<'i> yam_core::parsing::EventReceiver<'i> for Sink {
    fn on_event(&mut self, ev: yam_core::parsing::Event<'i>) {
        std::hint::black_box(&ev);
    }
}

thread_local! {
    static FENCE: std::cell::RefCell<Fenced> = std::cell::RefCell::new(Fenced::new(16));
}

fn c01(g: &mut G) -> Case {
    let (text, kind) = if g.chance(1, 24) { (big_text(g), "repeated") } else { any_text(g) };
    let mut text = text;
    FENCE.with(|f| {
        let cap = f.borrow().capacity();
        if text.len() > cap {
            let mut k = cap;
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
        }
    });
    let at_end = !g.chance(1, 8);
    let mut c = text_case(&text);
    c.label(kind);
    // Every way of reading is tried on a part of the texts, the parser on all.
    let mut apis = vec![0];
    let k = g.below(APIS);
    apis.push(k);
    apis.push((k + 5) % APIS);
    FENCE.with(|f| {
        let mut f = f.borrow_mut();
        let t = f.put(&text, at_end);
        for a in apis {
            c.label(api_name(a));
            if let Err(e) = read(t, a) {
                c.fail = Some(format!("{e} [{}]", api_name(a)));
                break;
            }
        }
        if c.fail.is_none()
            && let Ok(p) = parse(t)
        {
            c.label(if p.ok() { "accepted" } else { "rejected" });
            c.nontrivial = p.evs.len() >= 4;
        }
    });
    c
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "any text: mutated and spliced valid streams, soup of YAML tokens, noise over Unicode, repeated and deeply nested pieces; laid against an unreadable page at its end or start and read through 3 of 12 ways (parser, peek, loader, receiver, ParserIter, on after errors, serde into values, containers, scalars, derived types) under a step budget; non-trivial: two events behind the stream and document start; distinct by text",
    assumptions: &[
        "nesting stays below some 2000 levels: deeper trees overflow the stack when they are dropped, cloned or deserialized (known finding)",
        "alias expansion stays small: it is exponential by design of a tree without sharing",
        "a step is one look at the input through the source (hook); a loop without a look at the input shows as 25 s of CPU time",
        "texts are at most 64 KiB",
    ],
    quick: 1_000_000,
    thorough: 30_000_000,
    run: c01,
    fixed: || {
        let mut v: Vec<crate::runner::Fixed> = Vec::new();
        for r in crate::regress::rows() {
            for a in 0..APIS {
                v.push((format!("{:?} through {}", r.1, api_name(a)), Box::new(move || read(r.1, a).err())));
            }
        }
        v
    },
};

#[allow(dead_code)]
fn unused(_: &MCfg) {}
