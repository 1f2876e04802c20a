//! The core schema's resolution of scalars, written from its regular
//! expressions, and trees composed from events by the rules of a loader.

use crate::ev::*;
use std::collections::BTreeMap;
use yam_core::prelude::*;

/// A loaded tree, independent of the code's own type.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Bad,
    Null,
    Bool(bool),
    Int(i64),
    /// Bits; all NaNs are one.
    Float(u64),
    Str(String),
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
    Tagged(TagPair, Box<T>),
    Alias(usize),
}

pub fn float(x: f64) -> T {
    T::Float(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}

/// `[-+]? [0-9]+`
fn is_dec(s: &str) -> bool {
    let d = s.strip_prefix(['-', '+']).unwrap_or(s);
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
}

/// `[-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?`
fn is_float(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        i += 1;
    }
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    let whole = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let frac = digits(&mut i);
        if whole == 0 && frac == 0 {
            return false;
        }
    } else if whole == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

fn int_of(digits: &str, radix: u32, neg: bool) -> Option<i64> {
    let mut v: i128 = 0;
    for c in digits.chars() {
        v = v * i128::from(radix) + i128::from(c.to_digit(radix)?);
        if v > 1 << 100 {
            return None;
        }
    }
    i64::try_from(if neg { -v } else { v }).ok()
}

fn float_of(s: &str) -> Option<T> {
    match s {
        ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => Some(float(f64::INFINITY)),
        "-.inf" | "-.Inf" | "-.INF" => Some(float(f64::NEG_INFINITY)),
        ".nan" | ".NaN" | ".NAN" => Some(float(f64::NAN)),
        _ if is_float(s) => Some(float(s.parse::<f64>().expect("a float"))),
        _ => None,
    }
}

/// Resolution of an untagged plain scalar.
pub fn resolve(s: &str) -> T {
    match s {
        "" | "~" | "null" | "Null" | "NULL" => return T::Null,
        "true" | "True" | "TRUE" => return T::Bool(true),
        "false" | "False" | "FALSE" => return T::Bool(false),
        _ => {}
    }
    if is_dec(s) {
        let (neg, d) = match s.as_bytes()[0] {
            b'-' => (true, &s[1..]),
            b'+' => (false, &s[1..]),
            _ => (false, s),
        };
        if let Some(i) = int_of(d, 10, neg) {
            return T::Int(i);
        }
        // Too large for an integer: the nearest float.
        return float_of(s).unwrap();
    }
    for (p, radix) in [("0o", 8), ("0x", 16)] {
        if let Some(d) = s.strip_prefix(p)
            && !d.is_empty()
            && d.chars().all(|c| c.is_digit(radix))
        {
            return int_of(d, radix, false).map_or(T::Str(s.to_string()), T::Int);
        }
    }
    float_of(s).unwrap_or_else(|| T::Str(s.to_string()))
}

pub const CORE: &str = "tag:yaml.org,2002:";

/// Resolution of any scalar.
pub fn scalar(style: Style, s: &str, tag: Option<&TagPair>) -> T {
    if let Some(t) = tag
        && t.0 != CORE
    {
        return T::Tagged(t.clone(), Box::new(scalar(style, s, None)));
    }
    if style != Style::Plain {
        return T::Str(s.to_string());
    }
    let Some(t) = tag else { return resolve(s) };
    let r = resolve(s);
    match (t.1.as_str(), r) {
        ("str", _) => T::Str(s.to_string()),
        ("null", T::Null) => T::Null,
        ("bool", T::Bool(b)) => T::Bool(b),
        ("int", T::Int(i)) => T::Int(i),
        ("float", _) => float_of(s).unwrap_or(T::Bad),
        _ => T::Bad,
    }
}

struct Open {
    anchor: usize,
    tag: Option<TagPair>,
    map: bool,
    kids: Vec<T>,
}

/// The trees the events stand for, of complete documents only.
/// `None` when aliases make them larger than `cap` nodes.
pub fn compose(evs: &[Ev], cap: usize) -> Option<Vec<T>> {
    let mut docs = Vec::new();
    let mut stack: Vec<Open> = Vec::new();
    let mut root: Option<T> = None;
    let mut anchors: BTreeMap<usize, (T, usize)> = BTreeMap::new();
    let mut total = 0;
    // Sizes of what is open.
    let mut sizes: Vec<usize> = Vec::new();
    for e in evs {
        let (node, size, anchor) = match e {
            Ev::StreamStart | Ev::StreamEnd | Ev::Comment(_) | Ev::Nothing => continue,
            Ev::DocStart(_) => {
                root = None;
                continue;
            }
            Ev::DocEnd => {
                docs.push(root.take().unwrap_or(T::Bad));
                continue;
            }
            Ev::SeqStart { anchor, tag } => {
                stack.push(Open { anchor: *anchor, tag: tag.clone(), map: false, kids: Vec::new() });
                sizes.push(1);
                continue;
            }
            Ev::MapStart { anchor, tag } => {
                stack.push(Open { anchor: *anchor, tag: tag.clone(), map: true, kids: Vec::new() });
                sizes.push(1);
                continue;
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let o = stack.pop().unwrap();
                let n = if o.map {
                    let mut it = o.kids.into_iter();
                    let mut es = Vec::new();
                    while let (Some(k), Some(v)) = (it.next(), it.next()) {
                        es.push((k, v));
                    }
                    T::Map(es)
                } else {
                    T::Seq(o.kids)
                };
                let n = match o.tag {
                    Some(t) if t.0 != CORE => T::Tagged(t, Box::new(n)),
                    _ => n,
                };
                (n, sizes.pop().unwrap(), o.anchor)
            }
            Ev::Scalar { style, value, anchor, tag } => (scalar(*style, value, tag.as_ref()), 1, *anchor),
            Ev::Alias(id) => match anchors.get(id) {
                Some((n, s)) => {
                    total += s;
                    if total > cap {
                        return None;
                    }
                    (n.clone(), *s, 0)
                }
                None => (T::Bad, 1, 0),
            },
        };
        total += 1;
        if anchor > 0 {
            total += size;
            anchors.insert(anchor, (node.clone(), size));
        }
        if total > cap {
            return None;
        }
        match stack.last_mut() {
            Some(o) => {
                o.kids.push(node);
                *sizes.last_mut().unwrap() += size;
            }
            None => root = Some(node),
        }
    }
    Some(docs)
}

/// The code's tree as ours.
pub fn of_yaml(y: &Yaml<'_>) -> T {
    match &y.0 {
        YamlData::BadValue => T::Bad,
        YamlData::Scalar(s) => of_scalar(s),
        YamlData::Sequence(v) => T::Seq(v.iter().map(of_yaml).collect()),
        YamlData::Mapping(m) => T::Map(m.iter().map(|e| (of_yaml(&e.key), of_yaml(&e.value))).collect()),
        YamlData::Tagged(t, n) => T::Tagged((t.handle.clone(), t.suffix.clone()), Box::new(of_yaml(n))),
        YamlData::Alias(i) => T::Alias(*i),
    }
}

pub fn of_scalar(s: &YamlScalar<'_>) -> T {
    match s {
        YamlScalar::Null(_) => T::Null,
        YamlScalar::Bool(b) => T::Bool(*b),
        YamlScalar::Integer(i) => T::Int(*i),
        YamlScalar::FloatingPoint(f) => float(*f),
        YamlScalar::String(s) => T::Str(s.to_string()),
    }
}

impl T {
    pub fn size(&self) -> usize {
        1 + match self {
            T::Seq(v) => v.iter().map(T::size).sum(),
            T::Map(m) => m.iter().map(|(k, v)| k.size() + v.size()).sum(),
            T::Tagged(_, n) => n.size(),
            _ => 0,
        }
    }
}
