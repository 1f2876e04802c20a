//! Running the code under test behind a panic barrier and a step budget.

use std::cell::RefCell;
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering;
use yam_core::parsing::{Event, Parser, Tag};
use yam_core::prelude::{Marker, ScalarType, Span, StrSource, YamlError};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("panic")
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

/// Step budget for an input of `n` bytes: far above what any call needs.
pub fn budget(n: usize) -> u64 {
    let n = n as u64;
    200_000 + 4_000 * n + 8 * n * n
}

/// Runs `f` with a step budget. `Err` carries `panic: ...` or `hang: ...`.
pub fn guarded<T>(input_len: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    use yam_core::verif::{LIMIT, STEPS};
    STEPS.store(0, Ordering::Relaxed);
    LIMIT.store(budget(input_len), Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.store(u64::MAX, Ordering::Relaxed);
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if m.contains("yam_verif: step limit") {
            format!("hang: more than {} steps on {} bytes", budget(input_len), input_len)
        } else {
            format!("panic: {m}")
        }
    })
}

/// Runs `f`; `Err` says where it panicked.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn steps() -> u64 {
    yam_core::verif::STEPS.load(Ordering::Relaxed)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

pub type TagPair = (String, String);

/// Neutral event.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart(bool),
    DocEnd,
    Alias(usize),
    Scalar { style: Style, value: String, anchor: usize, tag: Option<TagPair> },
    SeqStart { anchor: usize, tag: Option<TagPair> },
    SeqEnd,
    MapStart { anchor: usize, tag: Option<TagPair> },
    MapEnd,
    Comment(String),
    Nothing,
}

fn tagp(t: &Option<std::borrow::Cow<'_, Tag>>) -> Option<TagPair> {
    t.as_ref().map(|t| (t.handle.clone(), t.suffix.clone()))
}

pub fn style_of(s: ScalarType) -> Style {
    match s {
        ScalarType::Plain => Style::Plain,
        ScalarType::Folded => Style::Folded,
        ScalarType::Literal => Style::Literal,
        ScalarType::SingleQuote => Style::Single,
        ScalarType::DoubleQuote => Style::Double,
    }
}

pub fn style_to(s: Style) -> ScalarType {
    match s {
        Style::Plain => ScalarType::Plain,
        Style::Folded => ScalarType::Folded,
        Style::Literal => ScalarType::Literal,
        Style::Single => ScalarType::SingleQuote,
        Style::Double => ScalarType::DoubleQuote,
    }
}

pub fn conv(e: &Event<'_>) -> Ev {
    match e {
        Event::Nothing => Ev::Nothing,
        Event::StreamStart => Ev::StreamStart,
        Event::StreamEnd => Ev::StreamEnd,
        Event::DocumentStart(b) => Ev::DocStart(*b),
        Event::DocumentEnd => Ev::DocEnd,
        Event::Alias(i) => Ev::Alias(*i),
        Event::Comment(c) => Ev::Comment(c.to_string()),
        Event::Scalar(s) => Ev::Scalar {
            style: style_of(s.scalar_type),
            value: s.value.to_string(),
            anchor: s.anchor_id,
            tag: tagp(&s.tag),
        },
        Event::SequenceStart(a, t) => Ev::SeqStart { anchor: *a, tag: tagp(t) },
        Event::SequenceEnd => Ev::SeqEnd,
        Event::MappingStart(a, t) => Ev::MapStart { anchor: *a, tag: tagp(t) },
        Event::MappingEnd => Ev::MapEnd,
    }
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub evs: Vec<Ev>,
    pub spans: Vec<Span>,
    /// First error reported.
    pub err: Option<YamlError>,
}

impl Parsed {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
}

pub fn err_text(e: &YamlError) -> String {
    format!("{e:?}")
}

pub fn err_mark(e: &YamlError) -> Option<Marker> {
    match e {
        YamlError::ScannerErr { mark, .. } => Some(*mark),
        _ => None,
    }
}

/// Limit on the number of events for an input of `n` bytes.
pub fn event_cap(n: usize) -> usize {
    16 * n + 64
}

/// Iterates the parser until the end of the stream or the first error.
pub fn parse_with(text: &str, keep_tags: bool) -> Result<Parsed, String> {
    guarded(text.len(), || {
        let mut p = Parser::new(StrSource::new(text)).keep_tags(keep_tags);
        let mut out = Parsed { evs: Vec::new(), spans: Vec::new(), err: None };
        let cap = event_cap(text.len());
        while let Some(r) = p.next() {
            match r {
                Ok((e, s)) => {
                    out.evs.push(conv(&e));
                    out.spans.push(s);
                }
                Err(e) => {
                    out.err = Some(e);
                    break;
                }
            }
            if out.evs.len() > cap {
                return Err(format!("hang: more than {cap} events on {} bytes", text.len()));
            }
        }
        Ok(out)
    })?
}

pub fn parse(text: &str) -> Result<Parsed, String> {
    parse_with(text, false)
}

pub fn show_ev(e: &Ev) -> String {
    let mut s = String::new();
    fn props(s: &mut String, a: usize, t: &Option<TagPair>) {
        if a > 0 {
            let _ = write!(s, " &{a}");
        }
        if let Some((h, x)) = t {
            let _ = write!(s, " <{h}|{x}>");
        }
    }
    match e {
        Ev::StreamStart => s.push_str("+STR"),
        Ev::StreamEnd => s.push_str("-STR"),
        Ev::DocStart(b) => s.push_str(if *b { "+DOC ---" } else { "+DOC" }),
        Ev::DocEnd => s.push_str("-DOC"),
        Ev::Alias(i) => {
            let _ = write!(s, "=ALI *{i}");
        }
        Ev::Scalar { style, value, anchor, tag } => {
            s.push_str("=VAL");
            props(&mut s, *anchor, tag);
            let c = match style {
                Style::Plain => ':',
                Style::Single => '\'',
                Style::Double => '"',
                Style::Literal => '|',
                Style::Folded => '>',
            };
            let _ = write!(s, " {c}{value:?}");
        }
        Ev::SeqStart { anchor, tag } => {
            s.push_str("+SEQ");
            props(&mut s, *anchor, tag);
        }
        Ev::SeqEnd => s.push_str("-SEQ"),
        Ev::MapStart { anchor, tag } => {
            s.push_str("+MAP");
            props(&mut s, *anchor, tag);
        }
        Ev::MapEnd => s.push_str("-MAP"),
        Ev::Comment(c) => {
            let _ = write!(s, "#{c:?}");
        }
        Ev::Nothing => s.push_str("NOTHING"),
    }
    s
}

pub fn show(evs: &[Ev]) -> String {
    evs.iter().map(show_ev).collect::<Vec<_>>().join(" ")
}
