//! A node type of one's own, which the loader fills and tells where things are.

use crate::ev::{Ev, TagPair};
use crate::schema::{T, of_scalar, scalar};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use yam_core::parsing::{Parser, Tag};
use yam_core::prelude::*;

#[derive(Clone, Debug)]
enum In<'i> {
    Bad,
    Scalar(YamlScalar<'i>),
    Seq(Vec<Own<'i>>),
    Map(Vec<YamlEntry<'i, Own<'i>>>),
    Tagged(Cow<'i, Tag>, Box<Own<'i>>),
    Alias(usize),
}

#[derive(Clone, Debug)]
pub struct Own<'i> {
    d: In<'i>,
    start: Option<usize>,
    end: Option<usize>,
    span: Option<(usize, usize)>,
}

impl<'i> From<YamlData<'i, Own<'i>>> for Own<'i> {
    fn from(d: YamlData<'i, Own<'i>>) -> Self {
        of(match d {
            YamlData::BadValue => In::Bad,
            YamlData::Scalar(s) => In::Scalar(s),
            YamlData::Sequence(v) => In::Seq(v),
            YamlData::Mapping(m) => In::Map(m),
            YamlData::Tagged(t, n) => In::Tagged(t, n),
            YamlData::Alias(i) => In::Alias(i),
        })
    }
}

impl<'i> From<YamlScalar<'i>> for Own<'i> {
    fn from(s: YamlScalar<'i>) -> Self {
        of(In::Scalar(s))
    }
}

fn of(d: In<'_>) -> Own<'_> {
    Own { d, start: None, end: None, span: None }
}

macro_rules! value {
    ($get:ident, $get_mut:ident, $t:ty, $v:ident) => {
        fn $get(&self) -> Option<$t> {
            if let In::Scalar(YamlScalar::$v(x)) = &self.d { Some(*x) } else { None }
        }
        fn $get_mut(&mut self) -> Option<&mut $t> {
            if let In::Scalar(YamlScalar::$v(x)) = &mut self.d { Some(x) } else { None }
        }
    };
}

impl<'i> YamlDocAccess<'i> for Own<'i> {
    type OutNode = Self;
    type SequenceNode = Vec<Self>;
    type MappingNode = Vec<YamlEntry<'i, Self>>;

    fn key_from_usize(i: usize) -> Self {
        of(In::Scalar(YamlScalar::Integer(i as i64)))
    }
    fn key_from_str(s: &str) -> Self {
        of(In::Scalar(YamlScalar::String(Cow::Owned(s.to_string()))))
    }
    fn is_non_empty_collection(&self) -> bool {
        match &self.d {
            In::Seq(v) => !v.is_empty(),
            In::Map(m) => !m.is_empty(),
            _ => false,
        }
    }
    value!(as_bool, as_bool_mut, bool, Bool);
    value!(as_i64, as_i64_mut, i64, Integer);
    value!(as_f64, as_f64_mut, f64, FloatingPoint);
    fn as_sequence(&self) -> Result<&Vec<Self>, YamlAccessError> {
        if let In::Seq(v) = &self.d { Ok(v) } else { Err(YamlAccessError::ExpectedSequence) }
    }
    fn as_sequence_mut(&mut self) -> Result<&mut Vec<Self>, YamlAccessError> {
        if let In::Seq(v) = &mut self.d { Ok(v) } else { Err(YamlAccessError::ExpectedSequence) }
    }
    fn as_mapping(&self) -> Result<&Self::MappingNode, YamlAccessError> {
        if let In::Map(v) = &self.d { Ok(v) } else { Err(YamlAccessError::ExpectedMapping) }
    }
    fn as_mapping_mut(&mut self) -> Result<&mut Self::MappingNode, YamlAccessError> {
        if let In::Map(v) = &mut self.d { Ok(v) } else { Err(YamlAccessError::ExpectedMapping) }
    }
    fn as_str(&self) -> Option<&str> {
        if let In::Scalar(YamlScalar::String(s)) = &self.d { Some(s) } else { None }
    }
    fn as_str_mut(&mut self) -> Option<&mut str> {
        if let In::Scalar(YamlScalar::String(s)) = &mut self.d { Some(s.to_mut()) } else { None }
    }
    fn sequence_mut(&mut self) -> &mut Vec<Self> {
        self.as_sequence_mut().expect("sequence")
    }
    fn sequence(&self) -> &Vec<Self> {
        self.as_sequence().expect("sequence")
    }
    fn mapping_mut(&mut self) -> &mut Self::MappingNode {
        self.as_mapping_mut().expect("mapping")
    }
    fn mapping(&self) -> &Self::MappingNode {
        self.as_mapping().expect("mapping")
    }
    fn get_tag(&self) -> Option<Tag> {
        if let In::Tagged(t, _) = &self.d { Some(t.clone().into_owned()) } else { None }
    }
    fn get_type(&self) -> NodeType {
        match &self.d {
            In::Scalar(YamlScalar::Null(_)) => NodeType::Null,
            In::Scalar(YamlScalar::Bool(_)) => NodeType::Bool,
            In::Scalar(YamlScalar::Integer(_)) => NodeType::Integer,
            In::Scalar(YamlScalar::FloatingPoint(_)) => NodeType::Floating,
            In::Scalar(YamlScalar::String(_)) => NodeType::String,
            In::Seq(_) => NodeType::Sequence,
            In::Map(_) => NodeType::Mapping,
            In::Alias(_) => NodeType::Alias,
            In::Bad | In::Tagged(..) => NodeType::Bad,
        }
    }
    fn into_string(self) -> Option<String> {
        self.as_str().map(str::to_string)
    }
    fn into_mapping(self) -> Option<Self::MappingNode> {
        if let In::Map(m) = self.d { Some(m) } else { None }
    }
    fn into_sequence(self) -> Option<Vec<Self>> {
        if let In::Seq(v) = self.d { Some(v) } else { None }
    }
    fn into_tagged(self, tag: Cow<'i, Tag>) -> Self {
        of(In::Tagged(tag, Box::new(self)))
    }
    fn bad_span_value(s: Span) -> Self {
        of(In::Bad).with_span(s)
    }
    fn null() -> Self {
        of(In::Scalar(YamlScalar::Null(PhantomData)))
    }
    fn with_start(mut self, m: Marker) -> Self {
        self.start = Some(m.pos);
        self
    }
    fn with_end(mut self, m: Marker) -> Self {
        self.end = Some(m.pos);
        self
    }
    fn with_span(mut self, s: Span) -> Self {
        self.span = Some((s.start.pos, s.end.pos));
        self
    }
}

/// The nodes of a tree and what was told of their places.
fn check(n: &Own<'_>, w: &P) -> Result<(), String> {
    if n.span != w.span {
        return Err(format!("own-span: {n:?} should be at {:?}", w.span));
    }
    match (&n.d, &w.d) {
        (In::Bad, W::Bad) => Ok(()),
        (In::Scalar(s), W::Leaf(t)) if of_scalar(s) == *t => Ok(()),
        (In::Tagged(t, n), W::Tagged(u, w)) if t.handle == u.0 && t.suffix == u.1 => check(n, w),
        (In::Seq(_) | In::Map(_), W::Coll(map, start, end, kids)) => {
            let ks: Vec<&Own> = match &n.d {
                In::Seq(v) if !map => v.iter().collect(),
                In::Map(m) if *map => m.iter().flat_map(|e| [&e.key, &e.value]).collect(),
                _ => return Err(format!("own-tree: {n:?} is the wrong kind of collection")),
            };
            if n.start != Some(*start) {
                return Err(format!("own-start: {n:?} starts at {start}"));
            }
            // Which end of the closing bracket is left open.
            if !n.end.is_some_and(|e| e == end.0 || e == end.1) {
                return Err(format!("own-end: {n:?} ends at {end:?}"));
            }
            if ks.len() != kids.len() {
                return Err(format!("own-tree: {n:?} should have {} nodes", kids.len()));
            }
            ks.iter().zip(kids).try_for_each(|(a, b)| check(a, b))
        }
        _ => Err(format!("own-tree: {n:?} instead of {w:?}")),
    }
}

#[derive(Clone, Debug)]
enum W {
    Bad,
    Leaf(T),
    Coll(bool, usize, (usize, usize), Vec<P>),
    Tagged(TagPair, Box<P>),
}

#[derive(Clone, Debug)]
struct P {
    d: W,
    span: Option<(usize, usize)>,
}

fn p(d: W) -> P {
    P { d, span: None }
}

/// The trees of the documents that came to their end.
fn compose(evs: &[Ev], spans: &[Span]) -> Vec<P> {
    let mut docs = Vec::new();
    let mut stack: Vec<(bool, usize, usize, Option<TagPair>, Vec<P>)> = Vec::new();
    let mut root = None;
    let mut anchors: BTreeMap<usize, P> = BTreeMap::new();
    for (e, s) in evs.iter().zip(spans) {
        let at = (s.start.pos, s.end.pos);
        let (n, anchor) = match e {
            Ev::DocEnd => {
                docs.extend(root.take());
                continue;
            }
            Ev::SeqStart { anchor, tag } | Ev::MapStart { anchor, tag } => {
                stack.push((matches!(e, Ev::MapStart { .. }), at.0, *anchor, tag.clone(), Vec::new()));
                continue;
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let (map, start, anchor, tag, kids) = stack.pop().unwrap();
                let n = p(W::Coll(map, start, at, kids));
                match tag {
                    Some(t) if t.0 != crate::schema::CORE => (p(W::Tagged(t, Box::new(n))), anchor),
                    _ => (n, anchor),
                }
            }
            Ev::Scalar { style, value, anchor, tag } => (
                p(match scalar(*style, value, tag.as_ref()) {
                    T::Bad => W::Bad,
                    T::Tagged(t, n) => W::Tagged(t, Box::new(p(W::Leaf(*n)))),
                    t => W::Leaf(t),
                }),
                *anchor,
            ),
            Ev::Alias(id) => {
                let mut n = anchors.get(id).cloned().unwrap_or(p(W::Bad));
                n.span = Some(at);
                (n, 0)
            }
            _ => continue,
        };
        if anchor > 0 {
            anchors.insert(anchor, n.clone());
        }
        match stack.last_mut() {
            Some(o) => o.4.push(n),
            None => root = Some(n),
        }
    }
    docs
}

/// Loads the text into nodes of one's own, by hand, and compares them with what the events say.
pub fn run(text: &str, evs: &[Ev], spans: &[Span], accepted: bool) -> Result<(), String> {
    let mut l = YamlLoader::<Own>::default();
    let mut ps = Parser::new_from_str(text);
    let r = ps.load(&mut l, true);
    if r.is_ok() != accepted {
        return Err(format!("own-result: {r:?}"));
    }
    let docs = l.into_documents();
    let want = compose(evs, spans);
    if docs.len() != want.len() {
        return Err(format!("own-documents: {} instead of {}", docs.len(), want.len()));
    }
    docs.iter().zip(&want).try_for_each(|(a, b)| check(a, b))
}
