//! C15 and C16: deserializing into types of one's own, and into whatever is there.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::model::*;
use crate::render::*;
use crate::runner::Prop;
use crate::schema::{CORE, T, float, resolve, scalar};
use crate::text::*;
use serde::Deserialize;
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, Error, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

/// A type.
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    Unit,
    UnitStruct,
    Any,
    Ignored,
    Opt(Rc<Ty>),
    New(Rc<Ty>),
    Seq(Rc<Ty>),
    Tuple(Vec<Ty>),
    Map(Rc<Ty>, Rc<Ty>),
    /// Fields `NAMES[from..]`, whether unknown ones are an error.
    Struct(usize, Vec<Ty>, bool),
    /// Variants `NAMES[from..]`.
    Enum(usize, Vec<Var>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(usize, Vec<Ty>),
}

const NAMES: &[&str] = &["a", "b", "key", "Value", "a b", "x-y", "é", "#1", "- d", "two\nlines", "with: colon", "'q", "_"];

/// A value.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    Int(i128),
    F32(u32),
    Char(char),
    Str(String),
    Unit,
    Ignored,
    Any(T),
    None,
    Some(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Var(usize, Box<V>),
}

/// What is in the text.
#[derive(Clone, Debug)]
pub enum R {
    Sc(Style, String, Option<TagPair>),
    Seq(Vec<R>),
    Map(Vec<(R, R)>),
    Alias,
}

/// The root of every document.
pub fn read_events(evs: &[Ev]) -> Vec<R> {
    let mut out = Vec::new();
    let mut stack: Vec<(bool, Vec<R>)> = Vec::new();
    for e in evs {
        let r = match e {
            Ev::Scalar { style, value, tag, .. } => R::Sc(*style, value.clone(), tag.clone()),
            Ev::Alias(_) => R::Alias,
            Ev::SeqStart { .. } | Ev::MapStart { .. } => {
                stack.push((matches!(e, Ev::MapStart { .. }), Vec::new()));
                continue;
            }
            Ev::SeqEnd => R::Seq(stack.pop().unwrap().1),
            Ev::MapEnd => {
                let mut es = Vec::new();
                let mut it = stack.pop().unwrap().1.into_iter();
                while let (Some(k), Some(v)) = (it.next(), it.next()) {
                    es.push((k, v));
                }
                R::Map(es)
            }
            _ => continue,
        };
        match stack.last_mut() {
            Some(s) => s.1.push(r),
            None => out.push(r),
        }
    }
    out
}

/// A scalar as the core schema has it, tags other than core ones aside. `Bad` where it has none.
fn value(s: Style, v: &str, t: &Option<TagPair>) -> T {
    match scalar(s, v, t.as_ref()) {
        T::Tagged(_, n) => *n,
        t => t,
    }
}

pub enum Out {
    Val(V),
    Err,
    /// Left open: a number that is written as a string or has a tag, read as an integer.
    Open,
}
use Out::{Open, Val};

fn all(it: impl Iterator<Item = Out>, f: impl FnOnce(Vec<V>) -> V) -> Out {
    let mut vs = Vec::new();
    let mut open = false;
    for o in it {
        match o {
            Val(v) => vs.push(v),
            Open => open = true,
            Out::Err => return Out::Err,
        }
    }
    if open { Open } else { Val(f(vs)) }
}

/// What a self-describing visitor is told.
pub fn any(r: &R) -> Option<T> {
    Some(match r {
        R::Alias => return None,
        R::Sc(s, v, t) => match value(*s, v, t) {
            T::Bad => return None,
            t => t,
        },
        R::Seq(v) => T::Seq(v.iter().map(any).collect::<Option<_>>()?),
        R::Map(m) => T::Map(m.iter().map(|(k, v)| Some((any(k)?, any(v)?))).collect::<Option<_>>()?),
    })
}

fn ints(r: &R, lo: i128, hi: i128) -> Out {
    let R::Sc(style, v, tag) = r else { return Out::Err };
    // Decimals of any size, signed or not.
    let d = v.strip_prefix(['+', '-']).unwrap_or(v);
    let i = if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) {
        v.parse::<i128>().ok()
    } else if let T::Int(i) = resolve(v) {
        Some(i128::from(i))
    } else {
        None
    };
    match i.filter(|i| (lo..=hi).contains(i)) {
        None => Out::Err,
        Some(_) if *style != Style::Plain || tag.is_some() => Open,
        Some(i) => Val(V::Int(i)),
    }
}

fn fields(from: usize, tys: &[Ty], strict: bool, r: &R) -> Out {
    match r {
        R::Seq(v) if v.len() == tys.len() => all(v.iter().zip(tys).map(|(r, t)| want(t, r)), V::Seq),
        R::Map(m) => {
            let mut found: Vec<Option<Out>> = tys.iter().map(|_| None).collect();
            for (k, v) in m {
                let R::Sc(s, k, t) = k else { return Out::Err };
                let T::Str(k) = value(*s, k, t) else { return Out::Err };
                match NAMES[from..from + tys.len()].iter().position(|n| *n == k) {
                    Some(i) if found[i].is_some() => return Out::Err,
                    Some(i) => found[i] = Some(want(&tys[i], v)),
                    None if strict || any(v).is_none() => return Out::Err,
                    None => {}
                }
            }
            all(
                found.into_iter().zip(tys).map(|(f, t)| match (f, t) {
                    (Some(f), _) => f,
                    (None, Ty::Opt(_)) => Val(V::None),
                    _ => Out::Err,
                }),
                V::Seq,
            )
        }
        _ => Out::Err,
    }
}

/// What a type makes of a node.
pub fn want(t: &Ty, r: &R) -> Out {
    let sc = match r {
        R::Sc(s, v, t) => Some(value(*s, v, t)),
        _ => None,
    };
    let when = |v: Option<V>| v.map_or(Out::Err, Val);
    match t {
        Ty::Bool => when(if let Some(T::Bool(b)) = sc { Some(V::Bool(b)) } else { None }),
        Ty::I8 => ints(r, i8::MIN.into(), i8::MAX.into()),
        Ty::I16 => ints(r, i16::MIN.into(), i16::MAX.into()),
        Ty::I32 => ints(r, i32::MIN.into(), i32::MAX.into()),
        Ty::I64 => ints(r, i64::MIN.into(), i64::MAX.into()),
        Ty::U8 => ints(r, 0, u8::MAX.into()),
        Ty::U16 => ints(r, 0, u16::MAX.into()),
        Ty::U32 => ints(r, 0, u32::MAX.into()),
        Ty::U64 => ints(r, 0, u64::MAX.into()),
        // Beyond 64 bits numbers are floats, which is for the code to better.
        Ty::I128 | Ty::U128 if matches!(sc, Some(T::Float(f)) if f64::from_bits(f).fract() == 0.0) => Open,
        Ty::I128 => when(if let Some(T::Int(i)) = sc { Some(V::Int(i.into())) } else { None }),
        Ty::U128 => when(if let Some(T::Int(i)) = sc { u128::try_from(i).ok().map(|i| V::Int(i as i128)) } else { None }),
        Ty::F32 => when(match sc {
            Some(T::Int(i)) => Some(f32s(i as f32)),
            Some(T::Float(f)) => Some(f32s(f64::from_bits(f) as f32)),
            _ => None,
        }),
        Ty::F64 => when(match sc {
            Some(T::Int(i)) => Some(V::Any(float(i as f64))),
            Some(T::Float(f)) => Some(V::Any(T::Float(f))),
            _ => None,
        }),
        Ty::Char => when(match sc {
            Some(T::Str(s)) if s.chars().count() == 1 => s.chars().next().map(V::Char),
            _ => None,
        }),
        Ty::Str => when(if let Some(T::Str(s)) = sc { Some(V::Str(s)) } else { None }),
        Ty::Unit | Ty::UnitStruct => when((sc == Some(T::Null)).then_some(V::Unit)),
        Ty::Any => when(any(r).map(V::Any)),
        Ty::Ignored => when(any(r).map(|_| V::Ignored)),
        Ty::Opt(_) if sc == Some(T::Null) => Val(V::None),
        Ty::Opt(t) => match want(t, r) {
            Val(v) => Val(V::Some(Box::new(v))),
            o => o,
        },
        Ty::New(t) => want(t, r),
        Ty::Seq(t) => match r {
            R::Seq(v) => all(v.iter().map(|r| want(t, r)), V::Seq),
            _ => Out::Err,
        },
        Ty::Tuple(ts) => match r {
            R::Seq(v) if v.len() == ts.len() => all(v.iter().zip(ts).map(|(r, t)| want(t, r)), V::Seq),
            _ => Out::Err,
        },
        Ty::Map(k, v) => match r {
            R::Map(m) => all(m.iter().flat_map(|(a, b)| [want(k, a), want(v, b)]), |vs| {
                let mut it = vs.into_iter();
                let mut es = Vec::new();
                while let (Some(a), Some(b)) = (it.next(), it.next()) {
                    es.push((a, b));
                }
                V::Map(es)
            }),
            _ => Out::Err,
        },
        Ty::Struct(from, ts, strict) => fields(*from, ts, *strict, r),
        Ty::Enum(from, vars) => {
            let find = |n: &str| NAMES[*from..*from + vars.len()].iter().position(|x| *x == n);
            match r {
                // The name of a variant, however it is written.
                R::Sc(_, n, _) => match find(n) {
                    Some(i) if vars[i] == Var::Unit => Val(V::Var(i, Box::new(V::Unit))),
                    _ => Out::Err,
                },
                R::Map(m) if m.len() == 1 => {
                    let R::Sc(s, k, t) = &m[0].0 else { return Out::Err };
                    let T::Str(k) = value(*s, k, t) else { return Out::Err };
                    let Some(i) = find(&k) else { return Out::Err };
                    let body = &m[0].1;
                    let o = match &vars[i] {
                        Var::Unit => want(&Ty::Unit, body),
                        Var::New(t) => want(t, body),
                        Var::Tuple(ts) => want(&Ty::Tuple(ts.clone()), body),
                        Var::Struct(f, ts) => match body {
                            R::Map(_) => fields(*f, ts, false, body),
                            _ => Out::Err,
                        },
                    };
                    match o {
                        Val(v) => Val(V::Var(i, Box::new(v))),
                        o => o,
                    }
                }
                _ => Out::Err,
            }
        }
    }
}

fn f32s(f: f32) -> V {
    V::F32(if f.is_nan() { f32::NAN.to_bits() } else { f.to_bits() })
}

// ----- reading as a type ----------------------------------------------------

struct Seed<'t>(&'t Ty);

/// A visitor for one kind of node, the rest of which is an error.
struct Vis<'t>(&'t Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        let v = Vis(self.0);
        Ok(match self.0 {
            Ty::Bool => V::Bool(bool::deserialize(d)?),
            Ty::I8 => V::Int(i8::deserialize(d)?.into()),
            Ty::I16 => V::Int(i16::deserialize(d)?.into()),
            Ty::I32 => V::Int(i32::deserialize(d)?.into()),
            Ty::I64 => V::Int(i64::deserialize(d)?.into()),
            Ty::I128 => V::Int(i128::deserialize(d)?),
            Ty::U8 => V::Int(u8::deserialize(d)?.into()),
            Ty::U16 => V::Int(u16::deserialize(d)?.into()),
            Ty::U32 => V::Int(u32::deserialize(d)?.into()),
            Ty::U64 => V::Int(u64::deserialize(d)?.into()),
            Ty::U128 => V::Int(u128::deserialize(d)? as i128),
            Ty::F32 => f32s(f32::deserialize(d)?),
            Ty::F64 => V::Any(float(f64::deserialize(d)?)),
            Ty::Char => V::Char(char::deserialize(d)?),
            Ty::Str => V::Str(String::deserialize(d)?),
            Ty::Unit => <()>::deserialize(d).map(|()| V::Unit)?,
            Ty::UnitStruct => d.deserialize_unit_struct("U", v)?,
            Ty::Any => V::Any(Any::deserialize(d)?.0),
            Ty::Ignored => IgnoredAny::deserialize(d).map(|_| V::Ignored)?,
            Ty::Opt(_) => d.deserialize_option(v)?,
            Ty::New(_) => d.deserialize_newtype_struct("N", v)?,
            Ty::Seq(_) => d.deserialize_seq(v)?,
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), v)?,
            Ty::Map(..) => d.deserialize_map(v)?,
            Ty::Struct(from, ts, _) => d.deserialize_struct("S", &NAMES[*from..*from + ts.len()], v)?,
            Ty::Enum(from, vs) => d.deserialize_enum("E", &NAMES[*from..*from + vs.len()], v)?,
        })
    }
}

/// A name, as derived code reads it. `Ok(None)`: not one of them.
struct Name(usize, usize);

impl<'de> DeserializeSeed<'de> for Name {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl Visitor<'_> for Name {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<Option<usize>, E> {
        Ok(NAMES[self.0..self.0 + self.1].iter().position(|n| *n == s))
    }
}

fn visit_fields<'de, A: MapAccess<'de>>(from: usize, ts: &[Ty], strict: bool, mut a: A) -> Result<V, A::Error> {
    let mut got: Vec<Option<V>> = vec![None; ts.len()];
    while let Some(k) = a.next_key_seed(Name(from, ts.len()))? {
        match k {
            Some(i) if got[i].is_some() => return Err(A::Error::custom("twice")),
            Some(i) => got[i] = Some(a.next_value_seed(Seed(&ts[i]))?),
            None if strict => return Err(A::Error::custom("unknown")),
            None => {
                a.next_value::<IgnoredAny>()?;
            }
        }
    }
    let mut vs = Vec::new();
    for (g, t) in got.into_iter().zip(ts) {
        vs.push(match (g, t) {
            (Some(v), _) => v,
            (None, Ty::Opt(_)) => V::None,
            _ => return Err(A::Error::custom("missing")),
        });
    }
    Ok(V::Seq(vs))
}

fn visit_items<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<V, A::Error> {
    let mut vs = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(v) => vs.push(v),
            None => return Err(A::Error::invalid_length(i, &"more")),
        }
    }
    Ok(V::Seq(vs))
}

struct Fields<'t>(usize, &'t [Ty], bool);

impl<'de> Visitor<'de> for Fields<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        visit_items(self.1, a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        visit_fields(self.0, self.1, self.2, a)
    }
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: Error>(self) -> Result<V, E> {
        match self.0 {
            Ty::UnitStruct => Ok(V::Unit),
            Ty::Opt(_) => Ok(V::None),
            _ => Err(E::custom("a unit")),
        }
    }
    fn visit_none<E: Error>(self) -> Result<V, E> {
        match self.0 {
            Ty::Opt(_) => Ok(V::None),
            _ => Err(E::custom("a none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Ty::Opt(t) => Seed(t).deserialize(d).map(|v| V::Some(Box::new(v))),
            _ => Err(D::Error::custom("a some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Ty::New(t) => Seed(t).deserialize(d),
            _ => Err(D::Error::custom("a newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Ty::New(t) => match a.next_element_seed(Seed(t))? {
                Some(v) => Ok(v),
                None => Err(A::Error::invalid_length(0, &"one")),
            },
            Ty::Seq(t) => {
                let mut vs = Vec::new();
                while let Some(v) = a.next_element_seed(Seed(t))? {
                    vs.push(v);
                }
                Ok(V::Seq(vs))
            }
            Ty::Tuple(ts) | Ty::Struct(_, ts, _) => visit_items(ts, a),
            _ => Err(A::Error::custom("a sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Ty::Map(k, v) => {
                let mut es = Vec::new();
                while let Some(key) = a.next_key_seed(Seed(k))? {
                    let value = a.next_value_seed(Seed(v))?;
                    es.push((key, value));
                }
                Ok(V::Map(es))
            }
            Ty::Struct(from, ts, strict) => visit_fields(*from, ts, *strict, a),
            _ => Err(A::Error::custom("a mapping")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let Ty::Enum(from, vars) = self.0 else { return Err(A::Error::custom("an enum")) };
        let (i, body) = a.variant_seed(Name(*from, vars.len()))?;
        let Some(i) = i else { return Err(A::Error::custom("unknown variant")) };
        let v = match &vars[i] {
            Var::Unit => body.unit_variant().map(|()| V::Unit),
            Var::New(t) => body.newtype_variant_seed(Seed(t)),
            Var::Tuple(ts) => body.tuple_variant(ts.len(), Vis(&Ty::Tuple(ts.clone()))),
            Var::Struct(f, ts) => body.struct_variant(&NAMES[*f..*f + ts.len()], Fields(*f, ts, false)),
        };
        Ok(V::Var(i, Box::new(v?)))
    }
}

thread_local! {
    static TYPE: RefCell<Rc<Ty>> = RefCell::new(Rc::new(Ty::Unit));
}

/// Whatever the current type reads.
struct Dyn(V);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let t = TYPE.with(|t| t.borrow().clone());
        Seed(&t).deserialize(d).map(Dyn)
    }
}

/// Whatever is there.
pub struct Any(pub T);

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        d.deserialize_any(AnyVis)
    }
}

struct AnyVis;

impl<'de> Visitor<'de> for AnyVis {
    type Value = Any;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: Error>(self, b: bool) -> Result<Any, E> {
        Ok(Any(T::Bool(b)))
    }
    fn visit_i64<E: Error>(self, i: i64) -> Result<Any, E> {
        Ok(Any(T::Int(i)))
    }
    fn visit_u64<E: Error>(self, i: u64) -> Result<Any, E> {
        i64::try_from(i).map(|i| Any(T::Int(i))).map_err(E::custom)
    }
    fn visit_f64<E: Error>(self, f: f64) -> Result<Any, E> {
        Ok(Any(float(f)))
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<Any, E> {
        Ok(Any(T::Str(s.to_string())))
    }
    fn visit_unit<E: Error>(self) -> Result<Any, E> {
        Ok(Any(T::Null))
    }
    fn visit_none<E: Error>(self) -> Result<Any, E> {
        Ok(Any(T::Null))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(Any(t)) = a.next_element()? {
            v.push(t);
        }
        Ok(Any(T::Seq(v)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut m = Vec::new();
        while let Some((Any(k), Any(v))) = a.next_entry()? {
            m.push((k, v));
        }
        Ok(Any(T::Map(m)))
    }
}

// ----- generation -----------------------------------------------------------

fn leaf_ty(g: &mut G) -> Ty {
    match g.below(19) {
        0 => Ty::I64,
        1 | 2 => Ty::Str,
        3 => Ty::Bool,
        4 => Ty::I8,
        5 => Ty::I16,
        6 => Ty::I32,
        7 => Ty::U8,
        8 => Ty::U16,
        9 => Ty::U32,
        10 => Ty::U64,
        11 => Ty::I128,
        12 => Ty::U128,
        13 => Ty::F32,
        14 => Ty::F64,
        15 => Ty::Char,
        16 => Ty::Unit,
        17 => Ty::UnitStruct,
        _ => Ty::Any,
    }
}

fn tys(g: &mut G, depth: usize, max: usize) -> Vec<Ty> {
    (0..g.count(max)).map(|_| ty(g, depth)).collect()
}

fn names(g: &mut G, n: usize) -> usize {
    g.below(NAMES.len() - n + 1)
}

fn ty(g: &mut G, depth: usize) -> Ty {
    if depth == 0 {
        return leaf_ty(g);
    }
    let d = depth - 1;
    match g.weighted(&[5, 2, 1, 3, 2, 3, 4, 3, 1]) {
        0 => leaf_ty(g),
        1 => {
            // An option of something that takes null for itself cannot tell the two apart.
            let t = ty(g, d);
            if matches!(t, Ty::Opt(_)) { t } else { Ty::Opt(Rc::new(t)) }
        }
        2 => Ty::New(Rc::new(ty(g, d))),
        3 => Ty::Seq(Rc::new(ty(g, d))),
        4 => Ty::Tuple(tys(g, d, 4)),
        5 => {
            let k = if g.chance(1, 5) { ty(g, d.min(1)) } else { leaf_ty(g) };
            Ty::Map(Rc::new(k), Rc::new(ty(g, d)))
        }
        6 => {
            let ts = tys(g, d, 5);
            Ty::Struct(names(g, ts.len()), ts, g.chance(1, 4))
        }
        7 => {
            let n = 1 + g.count(3);
            let vs = (0..n)
                .map(|_| match g.below(4) {
                    0 => Var::Unit,
                    1 => Var::New(ty(g, d)),
                    2 => Var::Tuple(tys(g, d, 3)),
                    _ => {
                        let ts = tys(g, d, 3);
                        Var::Struct(names(g, ts.len()), ts)
                    }
                })
                .collect();
            Ty::Enum(names(g, n), vs)
        }
        _ => Ty::Ignored,
    }
}

fn plain(s: impl Into<String>) -> Node {
    Node::of(Kind::Sc(Style::Plain, s.into()))
}

/// A string, in any style that keeps it one.
fn string(g: &mut G, s: &str) -> Node {
    let nl = s.contains('\n');
    let text = s.chars().all(|c| printable(c) || c == '\n');
    let styles = [
        (Style::Plain, plain_ok(s, true) && matches!(resolve(s), T::Str(_)), 4),
        (Style::Double, true, 2),
        // Lines would be trimmed.
        (Style::Single, text && !nl, 2),
        (Style::Literal, text && !s.is_empty() && !s.starts_with([' ', '\t', '\n']) && !s.ends_with('\n') && !s.contains('\t'), 1),
        (Style::Folded, text && !nl && !s.is_empty() && !s.starts_with([' ', '\t']) && !s.contains('\t'), 1),
    ];
    let ok: Vec<(Style, usize)> = styles.iter().filter(|s| s.1).map(|s| (s.0, s.2)).collect();
    let w: Vec<usize> = ok.iter().map(|s| s.1).collect();
    let style = ok[g.weighted(&w)].0;
    Node::of(Kind::Sc(style, s.to_string()))
}

fn int(g: &mut G, lo: i128, hi: i128) -> Node {
    let i = match g.below(6) {
        0 => g.below(10) as i128,
        1 => hi,
        2 => lo,
        3 => hi.min(127) - g.below(3) as i128,
        _ => {
            let bits = (g.below(1 << 30) as i128) << 60 | (g.below(1 << 30) as i128) << 30 | g.below(1 << 30) as i128;
            let span = hi - lo + 1;
            lo + bits % span
        }
    };
    let i = i.clamp(lo, hi);
    plain(match g.below(8) {
        0 if i >= 0 && i <= i64::MAX.into() => format!("0x{i:x}"),
        1 if i >= 0 && i <= i64::MAX.into() => format!("0o{i:o}"),
        2 => format!("{i:+}"),
        3 if i >= 0 => format!("00{i}"),
        _ => i.to_string(),
    })
}

fn real(g: &mut G) -> Node {
    let f = match g.below(4) {
        0 => g.below(100) as f64 / 4.0,
        1 => f64::from(f32::from_bits((g.below(1 << 16) << 16 | g.below(1 << 16)) as u32)),
        2 => f64::from_bits((g.below(1 << 30) as u64) << 34 | (g.below(1 << 30) as u64) << 4 | g.below(16) as u64),
        _ => return plain(*g.pick(&["1e3", ".5", "1.", "-1.5E-3", ".inf", "-.INF", ".nan", "3", "-0", "0x1F", "12345678901234567890"])),
    };
    plain(if f.is_nan() {
        ".NaN".to_string()
    } else if f.is_infinite() {
        if f > 0.0 { "+.Inf".to_string() } else { "-.inf".to_string() }
    } else if g.chance(1, 3) {
        format!("{f:e}")
    } else {
        format!("{f:?}")
    })
}

fn some_string(g: &mut G) -> Node {
    let s = match g.below(5) {
        0 => g.pick(NAMES).to_string(),
        1 => g.pick(SCHEMA).to_string(),
        2 => gen_double(g, true),
        3 => String::new(),
        _ => gen_plain(g, true, false),
    };
    string(g, &s)
}

/// Anything, aliases aside.
fn anything(g: &mut G, depth: usize) -> Node {
    match g.weighted(&[4, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, 1]) {
        0 => {
            let cfg = MCfg { schema_values: 5, ..MCfg::default() };
            Node::of(gen_scalar(g, &cfg, true))
        }
        1 => Node::of(Kind::Seq((0..g.count(3)).map(|_| anything(g, depth - 1)).collect())),
        2 => Node::of(Kind::Map((0..g.count(3)).map(|_| (anything(g, depth - 1), anything(g, depth - 1))).collect())),
        _ => Node::of(Kind::Empty),
    }
}

fn null(g: &mut G) -> Node {
    if g.chance(1, 4) { Node::of(Kind::Empty) } else { plain(*g.pick(&["null", "~", "Null", "NULL"])) }
}

fn struct_node(g: &mut G, from: usize, ts: &[Ty], strict: bool) -> Node {
    let mut es: Vec<(Node, Node)> = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        if matches!(t, Ty::Opt(_)) && g.chance(1, 3) {
            continue;
        }
        es.push((string(g, NAMES[from + i]), node(g, t)));
    }
    // In any order.
    for i in (1..es.len()).rev() {
        let j = i - g.below(i + 1);
        es.swap(i, j);
    }
    if !strict && g.chance(1, 3) {
        let i = g.below(es.len() + 1);
        let k = format!("unknown{}", g.below(3));
        es.insert(i, (string(g, &k), anything(g, 2)));
    }
    Node::of(Kind::Map(es))
}

/// How many items a collection has: few, now and then many.
fn items(g: &mut G) -> usize {
    if g.chance(1, 60) { (1 << g.range(3, 8)) - 2 + g.below(5) } else { g.count(4) }
}

fn seq_node(g: &mut G, ts: &[Ty]) -> Node {
    Node::of(Kind::Seq(ts.iter().map(|t| node(g, t)).collect()))
}

/// A node a type reads.
fn node(g: &mut G, t: &Ty) -> Node {
    match t {
        Ty::Bool => plain(*g.pick(&["true", "false", "True", "FALSE"])),
        Ty::I8 => int(g, i8::MIN.into(), i8::MAX.into()),
        Ty::I16 => int(g, i16::MIN.into(), i16::MAX.into()),
        Ty::I32 => int(g, i32::MIN.into(), i32::MAX.into()),
        Ty::I64 | Ty::I128 => int(g, i64::MIN.into(), i64::MAX.into()),
        Ty::U8 => int(g, 0, u8::MAX.into()),
        Ty::U16 => int(g, 0, u16::MAX.into()),
        Ty::U32 => int(g, 0, u32::MAX.into()),
        Ty::U64 => int(g, 0, u64::MAX.into()),
        Ty::U128 => int(g, 0, i64::MAX.into()),
        Ty::F32 | Ty::F64 => real(g),
        Ty::Char => {
            let c = g.pick(&["a", "é", "日", "😀", "\"", "'", "\\", "\n", "\u{0}", "#", ":", "-", "1", " "]).to_string();
            string(g, &c)
        }
        Ty::Str => some_string(g),
        Ty::Unit | Ty::UnitStruct => null(g),
        Ty::Any | Ty::Ignored => anything(g, 2),
        Ty::Opt(t) => {
            if g.chance(1, 3) {
                null(g)
            } else {
                node(g, t)
            }
        }
        Ty::New(t) => node(g, t),
        Ty::Seq(t) => Node::of(Kind::Seq((0..items(g)).map(|_| node(g, t)).collect())),
        Ty::Tuple(ts) => seq_node(g, ts),
        Ty::Map(k, v) => Node::of(Kind::Map((0..items(g)).map(|_| (node(g, k), node(g, v))).collect())),
        Ty::Struct(from, ts, strict) => {
            if g.chance(1, 8) {
                seq_node(g, ts)
            } else {
                struct_node(g, *from, ts, *strict)
            }
        }
        Ty::Enum(from, vs) => {
            let i = g.below(vs.len());
            let name = string(g, NAMES[from + i]);
            let body = match &vs[i] {
                Var::Unit if g.chance(2, 3) => return name,
                Var::Unit => null(g),
                Var::New(t) => node(g, t),
                Var::Tuple(ts) => seq_node(g, ts),
                Var::Struct(f, ts) => struct_node(g, *f, ts, false),
            };
            Node::of(Kind::Map(vec![(name, body)]))
        }
    }
}

fn nth<'n>(n: &'n mut Node, k: &mut usize) -> Option<&'n mut Node> {
    if *k == 0 {
        return Some(n);
    }
    *k -= 1;
    match &mut n.kind {
        Kind::Seq(xs) => xs.iter_mut().find_map(|x| nth(x, k)),
        Kind::Map(es) => {
            for (a, b) in es {
                if let Some(x) = nth(a, k) {
                    return Some(x);
                }
                if let Some(x) = nth(b, k) {
                    return Some(x);
                }
            }
            None
        }
        _ => None,
    }
}

/// Changes some node.
fn spoil(g: &mut G, root: &mut Node) -> &'static str {
    let mut k = g.below(root.size());
    let Some(n) = nth(root, &mut k) else { return "spoilt" };
    match (g.below(6), &mut n.kind) {
        (0, Kind::Seq(xs)) if !xs.is_empty() => {
            let i = g.below(xs.len());
            xs.remove(i);
        }
        (1, Kind::Seq(xs)) => {
            let i = g.below(xs.len() + 1);
            xs.insert(i, anything(g, 1));
        }
        (0, Kind::Map(es)) if !es.is_empty() => {
            let i = g.below(es.len());
            es.remove(i);
        }
        (1, Kind::Map(es)) if !es.is_empty() => {
            let i = g.below(es.len());
            let e = es[i].clone();
            es.push(e);
        }
        (2, Kind::Map(es)) => {
            let i = g.below(es.len() + 1);
            es.insert(i, (anything(g, 1), anything(g, 1)));
        }
        (2, Kind::Seq(xs)) if xs.len() > 1 => {
            if xs[0].anchor.is_none() && !matches!(xs[0].kind, Kind::Alias(_)) {
                xs[0].anchor = Some("spoilt".into());
                let i = g.range(1, xs.len() - 1);
                xs[i] = Node::of(Kind::Alias("spoilt".into()));
                return "alias";
            }
        }
        (3, Kind::Sc(Style::Plain, v)) => {
            // One off the end of a number's range.
            if let Ok(i) = v.parse::<i128>() {
                *v = (i + if g.chance(1, 2) { 1 } else { -1 }).to_string();
            }
        }
        (4, Kind::Sc(s @ Style::Plain, _)) => *s = Style::Double,
        (5, Kind::Sc(s, v)) if g.chance(2, 3) => {
            // Nearly the same: a name that is none, a number that is a string.
            *s = Style::Double;
            match g.below(6) {
                0 => v.push(' '),
                1 => v.insert(0, ' '),
                2 => *v = v.to_uppercase(),
                3 => *v = v.to_lowercase(),
                4 => {
                    v.pop();
                }
                _ => v.push(*g.pick(&['a', '_', '\t', 'é', '\u{feff}', '0'])),
            }
        }
        _ => {
            let a = n.anchor.take();
            *n = anything(g, 1);
            n.anchor = a;
        }
    }
    "spoilt"
}

/// Anchors and tags, which mean nothing here, and core tags.
fn decorate(g: &mut G, root: &mut Node) {
    for i in 0..g.count(2) {
        let mut k = g.below(root.size());
        let Some(n) = nth(root, &mut k) else { continue };
        if matches!(n.kind, Kind::Alias(_)) {
            continue;
        }
        if g.chance(1, 2) {
            if n.anchor.is_none() {
                n.anchor = Some(format!("d{i}"));
            }
        } else if n.tag.is_none() {
            let (text, ev) = *g.pick(&[
                ("!t", ("!", "t")),
                ("!!str", (CORE, "str")),
                ("!!int", (CORE, "int")),
                ("!!float", (CORE, "float")),
                ("!!null", (CORE, "null")),
                ("!!bool", (CORE, "bool")),
                ("!!map", (CORE, "map")),
                ("!!seq", (CORE, "seq")),
            ]);
            let fits = match &n.kind {
                Kind::Seq(_) => text == "!!seq" || text == "!t",
                Kind::Map(_) => text == "!!map" || text == "!t",
                _ => text != "!!seq" && text != "!!map",
            };
            if fits {
                n.tag = Some(TagUse { text: text.into(), ev: (ev.0.into(), ev.1.into()) });
            }
        }
    }
}

fn doc(root: Node) -> Doc {
    Doc { tag_dirs: Vec::new(), yaml_dir: None, reserved_dir: None, root }
}

/// A type the tree is likely to fit.
fn infer(g: &mut G, r: &R) -> Ty {
    match r {
        R::Seq(v) if g.chance(7, 8) => Ty::Seq(Rc::new(v.last().map_or(Ty::Any, |r| infer(g, r)))),
        R::Map(m) if g.chance(7, 8) => match m.last() {
            Some((k, v)) => Ty::Map(Rc::new(infer(g, k)), Rc::new(infer(g, v))),
            None => Ty::Any,
        },
        R::Sc(..) => match g.below(4) {
            0 | 1 => Ty::Str,
            2 => Ty::Opt(Rc::new(Ty::Str)),
            _ => Ty::Any,
        },
        _ => (*g.pick(&[Ty::Any, Ty::Ignored])).clone(),
    }
}

/// Something very long, wide or deep, read into a type that fits it.
fn huge_typed(g: &mut G) -> Case {
    use crate::huge::{Kind as Size, huge};
    let h = huge(g, &[Size::FlowNest, Size::BlockNest, Size::LineNest, Size::Wide, Size::Wide, Size::LongKey, Size::Scalar, Size::Block, Size::Gap], 400);
    let mut c = text_case(&h.text);
    c.label("huge");
    c.label(h.what);
    c.nontrivial = true;
    let root = read_events(&h.evs).remove(0);
    let mut t = Rc::new(infer(g, &root));
    if g.chance(1, 6) {
        t = Rc::new(ty(g, 2));
    }
    TYPE.with(|x| *x.borrow_mut() = t.clone());
    let cut = |s: String| s.chars().take(400).collect::<String>();
    match (want(&t, &root), guarded(h.text.len(), || yam_serde::from_str::<Dyn>(&h.text))) {
        (_, Err(e)) => c.fail = Some(e),
        (Open, _) => c.label("open"),
        (Val(v), Ok(Ok(Dyn(w)))) if v == w => c.label("read"),
        (Val(v), Ok(Ok(Dyn(w)))) => c.fail("value", format!("{} instead of {}", cut(format!("{w:?}")), cut(format!("{v:?}")))),
        (Val(v), Ok(Err(e))) => c.fail("refused", format!("{e} instead of {}", cut(format!("{v:?}")))),
        (Out::Err, Ok(Ok(Dyn(w)))) => c.fail("accepted", format!("{} instead of an error", cut(format!("{w:?}")))),
        (Out::Err, Ok(Err(_))) => c.label("refused"),
    }
    c
}

fn c15(g: &mut G) -> Case {
    if g.chance(1, 10_000) {
        return huge_typed(g);
    }
    let depth = g.range(0, 3);
    let t = Rc::new(ty(g, depth));
    let mut root = node(g, &t);
    let mut label = "fitting";
    if g.chance(1, 2) {
        label = spoil(g, &mut root);
    }
    if g.chance(1, 2) {
        decorate(g, &mut root);
    }
    fix_root(&mut root);
    let mut docs = vec![doc(root)];
    if g.chance(1, 40) {
        docs.push(doc(anything(g, 1)));
    }
    let mut r = render(g, &RCfg::default(), &docs);
    let mut roots = read_events(&r.evs());
    if g.chance(1, 10) {
        // A text that was changed stands for what its events say, if they say anything.
        label = "changed-text";
        r.text = match g.below(3) {
            0 => format!("{}{}", r.text, g.pick(&["\0", "\n\0x", "\n---\n", "\n...\n", "\n...\nx", "\n@", "\n]", " # c", "\n# c", "\n\t", "\n- x", "\nk: v", "\n\"", "\n... x", "\n%YAML 1.2\n", "\n---"])),
            _ => mutate(g, &r.text),
        };
        roots = match parse(&r.text) {
            Ok(p) if p.ok() => read_events(&p.evs),
            _ => Vec::new(),
        };
    }
    let mut c = text_case(&r.text);
    c.desc = format!("{t:?} from {:?}", r.text);
    c.key = hash_bytes(c.desc.as_bytes());
    let expect = if roots.len() == 1 {
        want(&t, &roots[0])
    } else {
        // No document, more than one, or none that can be read.
        Out::Err
    };
    c.label(label);
    c.nontrivial = !matches!(expect, Open) && (matches!(expect, Out::Err) || docs[0].root.size() > 1);
    TYPE.with(|x| *x.borrow_mut() = t.clone());
    let got = match guarded(r.text.len(), || yam_serde::from_str::<Dyn>(&r.text)) {
        Err(e) => {
            c.fail = Some(e);
            return c;
        }
        Ok(r) => r,
    };
    match (expect, got) {
        (Open, _) => c.label("open"),
        (Val(v), Ok(Dyn(w))) if v == w => c.label("read"),
        (Val(v), Ok(Dyn(w))) => c.fail("value", format!("{w:?} instead of {v:?}")),
        (Val(v), Err(e)) => c.fail("refused", format!("{e} instead of {v:?}")),
        (Out::Err, Ok(Dyn(w))) => c.fail("accepted", format!("{w:?} instead of an error")),
        (Out::Err, Err(_)) => c.label("refused"),
    }
    c
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "a random type (all primitive ones, options, newtypes, sequences, tuples, maps with any keys, structs with and without unknown fields, enums with all kinds of variants, ignored and self-describing parts, up to 4 levels), a random value of it written down in a random presentation (or one that was changed in some place, with anchors and tags added; one text in ten is changed as a text), read with visitors that ask as derived code does, against a reference that maps the written tree to the type; non-trivial: it must be refused, or has more than one node; distinct by type and text",
    assumptions: &["the harness's model of YAML writes only texts whose meaning is settled; texts changed behind its back are taken as their events say", "left open: integers written as strings or with a tag where an integer type is asked for (the code takes them)", "types that borrow strings from the text are not covered: the code hands out copies only"],
    quick: 6_000_000,
    thorough: 120_000_000,
    run: c15,
    fixed: super::none,
};

// ----- C16 ------------------------------------------------------------------

fn c16(g: &mut G) -> Case {
    let (text, label) = if g.chance(1, 3) {
        let mut root = anything(g, 4);
        decorate(g, &mut root);
        fix_root(&mut root);
        (render(g, &RCfg::default(), &[doc(root)]).text, "one-document")
    } else {
        any_text(g)
    };
    let mut c = text_case(&text);
    c.label(label);
    let p = match parse(&text) {
        Err(e) => {
            c.fail = Some(e);
            return c;
        }
        Ok(p) => p,
    };
    let want = if p.ok() {
        match &read_events(&p.evs)[..] {
            [r] => any(r),
            _ => None,
        }
    } else {
        None
    };
    let r = guarded(text.len(), || (yam_serde::from_str::<Any>(&text), yam_serde::from_str::<IgnoredAny>(&text)));
    let (got, skipped) = match r {
        Err(e) => {
            c.fail = Some(e);
            return c;
        }
        Ok(r) => r,
    };
    c.nontrivial = p.evs.len() > 5;
    if got.is_ok() != skipped.is_ok() {
        c.fail("skipped", format!("reading all: {}, passing over all: {}", got.is_ok(), skipped.is_ok()));
    }
    match (want, got) {
        (Some(t), Ok(Any(u))) if t == u => c.label("read"),
        (Some(t), Ok(Any(u))) => c.fail("value", format!("{u:?} instead of {t:?}")),
        (Some(t), Err(e)) => c.fail("refused", format!("{e} instead of {t:?}")),
        (None, Ok(Any(u))) => c.fail("accepted", format!("{u:?} instead of an error ({:?})", p.err)),
        (None, Err(e)) => {
            c.label(if p.ok() { "no-single-value" } else { "malformed" });
            // A syntax error that was met is told.
            if let Some(x) = &p.err
                && p.evs.iter().filter(|e| **e == Ev::DocEnd).count() == 0
                && read_events(&p.evs).is_empty()
                && !p.evs.iter().any(|e| matches!(e, Ev::Alias(_)))
                && no_bad(&p.evs)
            {
                c.label("syntax-error-told");
                match e {
                    yam_serde::de::DeYamlError::ParserError(y) if y == *x => {}
                    e => c.fail("error", format!("{e:?} instead of {x:?}")),
                }
            }
        }
    }
    c
}

fn no_bad(evs: &[Ev]) -> bool {
    evs.iter().all(|e| match e {
        Ev::Scalar { style, value: v, tag, .. } => value(*style, v, tag) != T::Bad,
        _ => true,
    })
}

pub const C16: Prop = Prop {
    id: "C16",
    rule: "a random text (valid streams, changed ones, token soup, noise, one third single documents of up to 5 levels without aliases), read as a self-describing value and passed over as an ignored one, against the events' own tree: the same values in the same order when there is one document and all of it has a value, an error otherwise, which is the syntax error where that comes first; non-trivial: more than one node's worth of events; distinct by text",
    assumptions: &["the events are taken as given (C02 to C07 judge them)", "tags other than core ones do not show in self-describing values; aliases are refused"],
    quick: 3_000_000,
    thorough: 60_000_000,
    run: c16,
    fixed: super::none,
};
