//! C14: looking at and changing loaded trees.

use crate::engine::*;
use crate::ev::guarded;
use crate::runner::Prop;
use crate::schema::*;
use std::borrow::Cow;
use std::marker::PhantomData;
use yam_core::parsing::Tag;
use yam_core::prelude::*;

const WORDS: &[&str] = &["", "a", "b", "key", "é日", "true", "1", "long string with spaces", "A\nb"];
const INTS: &[i64] = &[0, 1, 2, 3, -1, 7, i64::MAX, i64::MIN, 1 << 40];
const FLOATS: &[f64] = &[0.0, -0.0, 1.0, 1.5, -2.5e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-310];

fn leaf(g: &mut G) -> T {
    match g.weighted(&[6, 4, 2, 3, 2, 1, 1]) {
        0 => T::Str(match g.below(8) {
            0 => crate::model::gen_double(g, true),
            1 => format!("{}{}", g.pick(WORDS), g.below(300)),
            _ => (*g.pick(WORDS)).to_string(),
        }),
        1 => T::Int(if g.chance(1, 4) { g.below(400) as i64 - 50 } else { *g.pick(INTS) }),
        2 => T::Bool(g.chance(1, 2)),
        3 => float(*g.pick(FLOATS)),
        4 => T::Null,
        5 => T::Alias(g.range(1, 9)),
        _ => T::Bad,
    }
}

fn tree(g: &mut G, depth: usize) -> T {
    let k = if depth == 0 { 0 } else { g.weighted(&[40, 30, 40, 10, 1]) };
    match k {
        4 => wide(g),
        0 => leaf(g),
        1 => T::Seq((0..g.count(4)).map(|_| tree(g, depth - 1)).collect()),
        2 => T::Map((0..g.count(4)).map(|_| (if g.chance(1, 8) { tree(g, depth - 1) } else { leaf(g) }, tree(g, depth - 1))).collect()),
        _ => T::Tagged(((*g.pick(&["!", "tag:yaml.org,2002:", "!e"])).into(), (*g.pick(&["a", "str", "b"])).into()), Box::new(tree(g, depth - 1))),
    }
}

/// Many nodes in one, or one in the other.
fn wide(g: &mut G) -> T {
    let n = 1 << g.range(3, 9);
    let n = n - 2 + g.below(5);
    match g.below(3) {
        0 => T::Seq((0..n).map(|_| leaf(g)).collect()),
        1 => T::Map((0..n).map(|_| (leaf(g), leaf(g))).collect()),
        _ => (0..n.min(100)).fold(leaf(g), |t, _| match g.below(4) {
            0 => T::Seq(vec![t]),
            1 => T::Seq(vec![leaf(g), t]),
            2 => T::Map(vec![(leaf(g), t)]),
            _ => T::Tagged(("!".into(), "a".into()), Box::new(t)),
        }),
    }
}

/// Equality as the code's: floats compare as numbers.
fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Float(x), T::Float(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (T::Seq(x), T::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (T::Map(x), T::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(&a.0, &b.0) && same(&a.1, &b.1)),
        (T::Tagged(s, x), T::Tagged(t, y)) => s == t && same(x, y),
        _ => a == b,
    }
}

fn scalar_of(t: &T) -> Option<YamlScalar<'static>> {
    Some(match t {
        T::Null => YamlScalar::Null(PhantomData),
        T::Bool(b) => YamlScalar::Bool(*b),
        T::Int(i) => YamlScalar::Integer(*i),
        T::Float(f) => YamlScalar::FloatingPoint(f64::from_bits(*f)),
        T::Str(s) => YamlScalar::String(match WORDS.iter().find(|w| **w == s.as_str() && w.len() % 2 == 1) {
            Some(w) => Cow::Borrowed(*w),
            None => Cow::Owned(s.clone()),
        }),
        _ => return None,
    })
}

fn tag(t: &(String, String)) -> Cow<'static, Tag> {
    Cow::Owned(Tag::new(t.0.clone(), t.1.clone()))
}

trait Nd: YamlDocAccess<'static, OutNode = Self, SequenceNode = Vec<Self>, MappingNode = Vec<YamlEntry<'static, Self>>> + Sized {
    const NAME: &'static str;
    fn data(d: YamlData<'static, Self>) -> Self;
    fn inner(&self) -> &YamlData<'static, Self>;

    fn build(t: &T) -> Self {
        match t {
            T::Bad => Self::bad_value(),
            T::Alias(i) => Self::data(YamlData::Alias(*i)),
            T::Seq(v) => Self::data(YamlData::Sequence(v.iter().map(Self::build).collect())),
            T::Map(m) => Self::data(YamlData::Mapping(m.iter().map(|(k, v)| YamlEntry::new(Self::build(k), Self::build(v))).collect())),
            T::Tagged(t, n) => Self::build(n).into_tagged(tag(t)),
            T::Null => Self::null(),
            t => Self::data(YamlData::Scalar(scalar_of(t).unwrap())),
        }
    }
    fn read(&self) -> T {
        match self.inner() {
            YamlData::BadValue => T::Bad,
            YamlData::Scalar(s) => of_scalar(s),
            YamlData::Sequence(v) => T::Seq(v.iter().map(Self::read).collect()),
            YamlData::Mapping(m) => T::Map(m.iter().map(|e| (e.key.read(), e.value.read())).collect()),
            YamlData::Tagged(t, n) => T::Tagged((t.handle.clone(), t.suffix.clone()), Box::new(n.read())),
            YamlData::Alias(i) => T::Alias(*i),
        }
    }
}

impl Nd for Yaml<'static> {
    const NAME: &'static str = "yaml";
    fn data(d: YamlData<'static, Self>) -> Self {
        Yaml(d)
    }
    fn inner(&self) -> &YamlData<'static, Self> {
        &self.0
    }
}

impl Nd for SpannedYaml<'static> {
    const NAME: &'static str = "spanned";
    fn data(yaml: YamlData<'static, Self>) -> Self {
        SpannedYaml { span: Span::default(), yaml }
    }
    fn inner(&self) -> &YamlData<'static, Self> {
        &self.yaml
    }
}

fn owned(t: &T) -> YamlOwned {
    YamlOwned(match t {
        T::Bad => YamlData::BadValue,
        T::Alias(i) => YamlData::Alias(*i),
        T::Seq(v) => YamlData::Sequence(v.iter().map(owned).collect()),
        T::Map(m) => YamlData::Mapping(m.iter().map(|(k, v)| YamlEntry::new(owned(k), owned(v))).collect()),
        T::Tagged(t, n) => YamlData::Tagged(tag(t), Box::new(owned(n))),
        T::Null => YamlData::Scalar(YamlScalar::Null(PhantomData)),
        T::Bool(b) => YamlData::Scalar(YamlScalar::Bool(*b)),
        T::Int(i) => YamlData::Scalar(YamlScalar::Integer(*i)),
        T::Float(f) => YamlData::Scalar(YamlScalar::FloatingPoint(f64::from_bits(*f))),
        T::Str(s) => YamlData::Scalar(YamlScalar::String(s.clone())),
    })
}

/// Panics or not.
fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// Everything a node says about itself.
fn look<N: Nd>(n: &N, t: &T) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{}-{what}: wrong on {t:?}", N::NAME));
    let ty = match t {
        T::Bad | T::Tagged(..) => NodeType::Bad,
        T::Null => NodeType::Null,
        T::Bool(_) => NodeType::Bool,
        T::Int(_) => NodeType::Integer,
        T::Float(_) => NodeType::Floating,
        T::Str(_) => NodeType::String,
        T::Seq(_) => NodeType::Sequence,
        T::Map(_) => NodeType::Mapping,
        T::Alias(_) => NodeType::Alias,
    };
    if n.get_type() != ty {
        return bad("get_type");
    }
    for (what, got, want) in [
        ("is_bad_value", n.is_bad_value(), ty == NodeType::Bad),
        ("is_null", n.is_null(), ty == NodeType::Null),
        ("is_bool", n.is_bool(), ty == NodeType::Bool),
        ("is_integer", n.is_integer(), ty == NodeType::Integer),
        ("is_floating_point", n.is_floating_point(), ty == NodeType::Floating),
        ("is_string", n.is_string(), ty == NodeType::String),
        ("is_sequence", n.is_sequence(), ty == NodeType::Sequence),
        ("is_mapping", n.is_mapping(), ty == NodeType::Mapping),
        ("is_alias", n.is_alias(), ty == NodeType::Alias),
        ("is_collection", n.is_collection(), matches!(ty, NodeType::Sequence | NodeType::Mapping)),
        ("is_non_empty_collection", n.is_non_empty_collection(), matches!(t, T::Seq(v) if !v.is_empty()) || matches!(t, T::Map(m) if !m.is_empty())),
    ] {
        if got != want {
            return bad(what);
        }
    }
    let b = if let T::Bool(b) = t { Some(*b) } else { None };
    if n.as_bool() != b || n.clone().into_bool() != b || n.clone().as_bool_mut().copied() != b {
        return bad("bool");
    }
    let i = if let T::Int(i) = t { Some(*i) } else { None };
    if n.as_i64() != i || n.clone().into_i64() != i || n.clone().as_i64_mut().copied() != i {
        return bad("i64");
    }
    let bits = |x: Option<f64>| x.map(float);
    let f = if let T::Float(f) = t { Some(f64::from_bits(*f)) } else { None };
    if bits(n.as_f64()) != bits(f) || bits(n.clone().into_f64()) != bits(f) || bits(n.clone().as_f64_mut().copied()) != bits(f) {
        return bad("f64");
    }
    let s = if let T::Str(s) = t { Some(s.as_str()) } else { None };
    if n.as_str() != s || n.clone().into_string().as_deref() != s || n.clone().as_str_mut().map(|x| &*x) != s {
        return bad("str");
    }
    let tg = if let T::Tagged(t, _) = t { Some(t.clone()) } else { None };
    if n.get_tag().map(|t| (t.handle, t.suffix)) != tg {
        return bad("get_tag");
    }
    let list = |v: &Vec<N>| v.iter().map(N::read).collect::<Vec<_>>();
    match (n.as_sequence(), t) {
        (Ok(v), T::Seq(w)) => {
            if list(v) != *w || list(n.sequence()) != *w || n.clone().into_sequence().map(|v| list(&v)).as_ref() != Some(w) {
                return bad("sequence");
            }
        }
        (Err(YamlAccessError::ExpectedSequence), x) if !matches!(x, T::Seq(_)) => {
            let mut c = n.clone();
            if n.clone().into_sequence().is_some() || c.as_sequence_mut().err() != Some(YamlAccessError::ExpectedSequence) || !panics(|| n.sequence().len()) || !panics(|| c.sequence_mut().len()) {
                return bad("sequence");
            }
        }
        _ => return bad("as_sequence"),
    }
    let pairs = |m: &Vec<YamlEntry<'static, N>>| m.iter().map(|e| (e.key.read(), e.value.read())).collect::<Vec<_>>();
    match (n.as_mapping(), t) {
        (Ok(m), T::Map(w)) => {
            if pairs(m) != *w || pairs(n.mapping()) != *w || n.clone().into_mapping().map(|m| pairs(&m)).as_ref() != Some(w) {
                return bad("mapping");
            }
        }
        (Err(YamlAccessError::ExpectedMapping), x) if !matches!(x, T::Map(_)) => {
            let mut c = n.clone();
            if n.clone().into_mapping().is_some() || c.as_mapping_mut().err() != Some(YamlAccessError::ExpectedMapping) || !panics(|| n.mapping().len()) || !panics(|| c.mapping_mut().len()) {
                return bad("mapping");
            }
        }
        _ => return bad("as_mapping"),
    }
    Ok(())
}

fn child<'t>(t: &'t mut T, k: usize) -> Option<&'t mut T> {
    match t {
        T::Seq(v) => v.get_mut(k),
        T::Map(m) => m.get_mut(k).map(|e| &mut e.1),
        _ => None,
    }
}

fn kids(t: &T) -> usize {
    match t {
        T::Seq(v) => v.len(),
        T::Map(m) => m.len(),
        _ => 0,
    }
}

fn node<'n, N: Nd>(mut n: &'n mut N, path: &[usize]) -> &'n mut N {
    for k in path {
        n = if n.is_sequence() { &mut n.sequence_mut()[*k] } else { &mut n.as_mapping_mut().unwrap()[*k].value };
    }
    n
}

fn model<'t>(mut t: &'t mut T, path: &[usize]) -> &'t mut T {
    for k in path {
        t = child(t, *k).unwrap();
    }
    t
}

fn path(g: &mut G, mut t: &T) -> Vec<usize> {
    let mut p = Vec::new();
    while kids(t) > 0 && g.chance(2, 3) {
        let k = g.below(kids(t));
        p.push(k);
        t = match t {
            T::Seq(v) => &v[k],
            T::Map(m) => &m[k].1,
            _ => unreachable!(),
        };
    }
    p
}

/// A key and where it leads.
enum Key {
    Num(usize),
    Name(String),
}

fn lookup(t: &T, k: &Key) -> Option<usize> {
    match (t, k) {
        (T::Seq(v), Key::Num(i)) => (*i < v.len()).then_some(*i),
        (T::Map(m), Key::Num(i)) => m.iter().position(|e| e.0 == T::Int(*i as i64)),
        (T::Map(m), Key::Name(s)) => m.iter().position(|e| e.0 == T::Str(s.clone())),
        _ => None,
    }
}

fn key(g: &mut G, t: &T) -> Key {
    if let T::Map(m) = t
        && !m.is_empty()
        && g.chance(3, 4)
    {
        match &m[g.below(m.len())].0 {
            T::Str(s) => return Key::Name(s.clone()),
            T::Int(i) if *i >= 0 => return Key::Num(*i as usize),
            _ => {}
        }
    }
    if g.chance(1, 2) { Key::Num(g.below(kids(t) + 3)) } else { Key::Name((*g.pick(WORDS)).to_string()) }
}

/// Index and IndexMut of the one type that has them.
fn index(g: &mut G, y: &mut Yaml<'static>, t: &mut T, c: &mut Case) -> Result<String, String> {
    let p = path(g, t);
    let k = key(g, model(t, &p));
    let hit = lookup(model(t, &p), &k);
    let n = node(y, &p);
    let name = match &k {
        Key::Num(i) => format!("[{i}]"),
        Key::Name(s) => format!("[{s:?}]"),
    };
    let Some(h) = hit else {
        let (a, b) = match &k {
            Key::Num(i) => (panics(|| n[*i].is_null()), panics(|| n[*i] = Yaml::null())),
            Key::Name(s) => (panics(|| n[s.as_str()].is_null()), panics(|| n[s.as_str()] = Yaml::null())),
        };
        c.label("index-missing");
        return if a && b { Ok(format!("{p:?}{name} missing")) } else { Err(format!("index: {name} finds something in {:?}", model(t, &p))) };
    };
    c.label("index-found");
    let m = model(t, &p);
    let want = child(m, h).unwrap();
    let got = match &k {
        Key::Num(i) => n[*i].read(),
        Key::Name(s) => n[s.as_str()].read(),
    };
    if got != *want {
        return Err(format!("index: {name} gives {got:?} instead of {want:?}"));
    }
    let new = leaf(g);
    match &k {
        Key::Num(i) => n[*i] = Yaml::build(&new),
        Key::Name(s) => n[s.as_str()] = Yaml::build(&new),
    }
    *want = new.clone();
    Ok(format!("{p:?}{name} = {new:?}"))
}

/// One change, made to both.
fn change<N: Nd>(g: &mut G, n: &mut N, t: &mut T) -> Result<String, String> {
    let p = path(g, t);
    let real = node(n, &p);
    let m = model(t, &p);
    let lost = |what: &str, m: &T| Err(format!("{}-{what}: not there on {m:?}", N::NAME));
    Ok(match g.weighted(&[6, 3, 2, 2, 2, 2]) {
        0 => {
            match m {
                T::Bool(b) => {
                    *b = !*b;
                    match real.as_bool_mut() {
                        Some(x) => *x = !*x,
                        None => return lost("as_bool_mut", m),
                    }
                }
                T::Int(i) => {
                    *i = i.wrapping_add(3);
                    match real.as_i64_mut() {
                        Some(x) => *x = x.wrapping_add(3),
                        None => return lost("as_i64_mut", m),
                    }
                }
                T::Float(f) => {
                    let new = *g.pick(FLOATS);
                    let T::Float(bits) = float(new) else { unreachable!() };
                    *f = bits;
                    match real.as_f64_mut() {
                        Some(x) => *x = new,
                        None => return lost("as_f64_mut", m),
                    }
                }
                T::Str(s) => {
                    s.make_ascii_uppercase();
                    match real.as_str_mut() {
                        Some(x) => x.make_ascii_uppercase(),
                        None => return lost("as_str_mut", m),
                    }
                }
                T::Seq(v) => {
                    let new = tree(g, 1);
                    real.sequence_mut().push(N::build(&new));
                    v.push(new);
                }
                T::Map(es) => {
                    let (k, v) = (leaf(g), tree(g, 1));
                    real.mapping_mut().push(YamlEntry::new(N::build(&k), N::build(&v)));
                    es.push((k, v));
                }
                _ => {}
            }
            format!("{p:?} changed")
        }
        1 => {
            let new = tree(g, 2);
            *real = N::build(&new);
            *m = new.clone();
            format!("{p:?} = {new:?}")
        }
        2 => {
            let got = real.take().read();
            if got != *m {
                return Err(format!("{}-take: gives {got:?} instead of {m:?}", N::NAME));
            }
            *m = T::Bad;
            format!("{p:?} taken")
        }
        3 => {
            let t = ("!".to_string(), "x".to_string());
            let old = real.take();
            *real = old.into_tagged(tag(&t));
            *m = T::Tagged(t, Box::new(std::mem::replace(m, T::Bad)));
            format!("{p:?} tagged")
        }
        4 => {
            match m {
                T::Seq(v) if !v.is_empty() => {
                    let k = g.below(v.len());
                    v.remove(k);
                    let _ = real.as_sequence_mut().map(|s| s.remove(k));
                }
                T::Map(es) if !es.is_empty() => {
                    let k = g.below(es.len());
                    es.remove(k);
                    let _ = real.as_mapping_mut().map(|s| s.remove(k));
                }
                _ => {}
            }
            format!("{p:?} shortened")
        }
        _ => {
            // A copy is a thing of its own.
            let mut copy = real.clone();
            if copy.read() != *m {
                return Err(format!("{}-clone: {:?} of {m:?}", N::NAME, copy.read()));
            }
            let _ = copy.take();
            let mut copy = real.clone();
            if let Some(x) = copy.as_str_mut() {
                x.make_ascii_lowercase();
            }
            if let Ok(v) = copy.as_sequence_mut() {
                v.clear();
            }
            if let Ok(v) = copy.as_mapping_mut() {
                v.clear();
            }
            format!("{p:?} copied")
        }
    })
}

fn visit<N: Nd>(n: &N, t: &T) -> Result<(), String> {
    look(n, t)?;
    match (n.inner(), t) {
        (YamlData::Sequence(v), T::Seq(w)) => v.iter().zip(w).try_for_each(|(a, b)| visit(a, b)),
        (YamlData::Mapping(v), T::Map(w)) => v.iter().zip(w).try_for_each(|(a, b)| visit(&a.key, &b.0).and_then(|()| visit(&a.value, &b.1))),
        (YamlData::Tagged(_, a), T::Tagged(_, b)) => visit(&**a, b),
        _ => Ok(()),
    }
}

fn history<N: Nd>(g: &mut G, t: &mut T, n: &mut N, desc: &mut String, extra: &mut dyn FnMut(&mut G, &mut N, &mut T) -> Option<Result<String, String>>) -> Result<(), String> {
    if n.read() != *t {
        return Err(format!("{}-build: {:?} instead of {t:?}", N::NAME, n.read()));
    }
    visit(n, t)?;
    for _ in 0..g.count(10) {
        let step = match extra(g, n, t) {
            Some(r) => r?,
            None => change(g, n, t)?,
        };
        desc.push_str(&format!("; {step}"));
        let now = n.read();
        if now != *t {
            return Err(format!("{}-change: {now:?} instead of {t:?}", N::NAME));
        }
    }
    visit(n, t)
}

fn froms(g: &mut G) -> Result<(), String> {
    let i = *g.pick(INTS);
    let f = *g.pick(FLOATS);
    let s: &'static str = g.pick(WORDS);
    let t = tree(g, 1);
    for (got, want) in [
        (Yaml::from(s), T::Str(s.into())),
        (Yaml::from(i), T::Int(i)),
        (Yaml::from(i as i32), T::Int(i64::from(i as i32))),
        (Yaml::from(i as i16), T::Int(i64::from(i as i16))),
        (Yaml::from(i as i8), T::Int(i64::from(i as i8))),
        (Yaml::from(f), float(f)),
        (Yaml::from(f as f32), float(f64::from(f as f32))),
        (Yaml::from(i > 0), T::Bool(i > 0)),
        (Yaml::from(vec![Yaml::build(&t), Yaml::from(s)]), T::Seq(vec![t.clone(), T::Str(s.into())])),
        (Yaml::from(YamlScalar::Integer(i)), T::Int(i)),
        (Yaml::from(YamlData::Sequence(vec![Yaml::build(&t)])), T::Seq(vec![t.clone()])),
        (Yaml::key_from_str(s), T::Str(s.into())),
        (Yaml::key_from_usize(7), T::Int(7)),
        (Yaml::null(), T::Null),
        (Yaml::bad_value(), T::Bad),
        (Yaml::bad_span_value(Span::default()), T::Bad),
    ] {
        if got.read() != want {
            return Err(format!("from: {got:?} instead of {want:?}"));
        }
    }
    let n = g.below(1 << 20);
    for (got, want) in [
        (SpannedYaml::<'static>::key_from_str(s), T::Str(s.into())),
        (SpannedYaml::key_from_usize(n), T::Int(n as i64)),
        (SpannedYaml::null(), T::Null),
        (SpannedYaml::bad_value(), T::Bad),
        (SpannedYaml::bad_span_value(Span::default()), T::Bad),
    ] {
        if got.read() != want {
            return Err(format!("from: {:?} instead of {want:?}", got.read()));
        }
    }
    Ok(())
}

/// One tagged node told from another by part of its tag only.
fn retag(g: &mut G, t: &mut T, left: &mut usize) {
    match t {
        T::Tagged(tag, n) => {
            if *left == 0 {
                match g.below(3) {
                    0 => tag.0 = (*g.pick(&["!", "tag:yaml.org,2002:", "!e", ""])).to_string(),
                    1 => tag.1 = (*g.pick(&["a", "str", "b", "A"])).to_string(),
                    _ => **n = leaf(g),
                }
            }
            *left = left.wrapping_sub(1);
            retag(g, n, left);
        }
        T::Seq(v) => v.iter_mut().for_each(|x| retag(g, x, left)),
        T::Map(m) => m.iter_mut().for_each(|(k, v)| {
            retag(g, k, left);
            retag(g, v, left);
        }),
        _ => {}
    }
}

/// A tree that differs in one place, or not at all.
fn variant(g: &mut G, t: &T) -> T {
    let mut b = t.clone();
    if g.chance(1, 4) {
        let mut k = g.below(3);
        retag(g, &mut b, &mut k);
        return b;
    }
    if g.chance(2, 3) {
        let p = path(g, &b);
        let m = model(&mut b, &p);
        *m = match m {
            T::Seq(v) if !v.is_empty() => {
                let mut w = v.clone();
                w.pop();
                T::Seq(w)
            }
            T::Map(es) if !es.is_empty() => {
                let mut w = es.clone();
                let k = g.below(w.len());
                w[k].0 = leaf(g);
                T::Map(w)
            }
            T::Tagged(_, n) => T::Tagged(("!".into(), "other".into()), n.clone()),
            _ => leaf(g),
        };
    }
    b
}

/// A node with very many children: looking at some, changing one.
fn giant(g: &mut G) -> Case {
    let n = crate::huge::size(g, 70_000);
    let map = g.chance(1, 2);
    let named = g.chance(1, 2);
    let name = |i: usize| if named { T::Str(format!("k{i}")) } else { T::Int(i as i64) };
    let mut t = if map { T::Map((0..n).map(|i| (name(i), T::Int(i as i64 * 3))).collect()) } else { T::Seq((0..n).map(|i| T::Int(i as i64 * 3)).collect()) };
    let mut c = Case { desc: format!("giant {map} {named} {n}"), nontrivial: true, ..Case::default() };
    c.key = hash_bytes(c.desc.as_bytes());
    c.label("giant");
    let r = guarded(100_000, || {
        let mut y = Yaml::build(&t);
        look(&y, &t)?;
        let copy = y.clone();
        for k in [n - 1, n / 2, n.saturating_sub(65_536), n.saturating_sub(256), 0, g.below(n), n, n + 65_536] {
            let key = if map && named { Key::Name(format!("k{k}")) } else { Key::Num(k) };
            let hit = lookup(&t, &key);
            let new = Yaml::build(&T::Int(-(k as i64)));
            let (got, ok) = match &key {
                Key::Num(i) => (hit.map(|_| y[*i].read()), hit.is_some() || panics(|| y[*i].is_null())),
                Key::Name(s) => (hit.map(|_| y[s.as_str()].read()), hit.is_some() || panics(|| y[s.as_str()].is_null())),
            };
            if !ok {
                return Err(format!("index: there is no child {k} of {n}"));
            }
            let Some(h) = hit else { continue };
            let m = child(&mut t, h).unwrap();
            if got.as_ref() != Some(m) {
                return Err(format!("index: child {k} of {n} is {got:?}, not {m:?}"));
            }
            *m = T::Int(-(k as i64));
            match &key {
                Key::Num(i) => y[*i] = new,
                Key::Name(s) => y[s.as_str()] = new,
            }
            if k > 0 && copy == y {
                return Err(format!("equality: equal although child {k} of {n} differs"));
            }
        }
        if y.read() != t {
            return Err("index-mut: not the tree it should be".to_string());
        }
        look(&y, &t)
    });
    match r {
        Err(e) | Ok(Err(e)) => c.fail = Some(e.chars().take(500).collect()),
        Ok(Ok(())) => {}
    }
    c
}

fn c14(g: &mut G) -> Case {
    if g.chance(1, 1500) {
        return giant(g);
    }
    let mut t = tree(g, 4);
    let mut c = Case::default();
    let mut desc = format!("{t:?}");
    let start = t.clone();
    let spanned = g.chance(1, 4);
    let r = guarded(100_000, || {
        if spanned {
            let mut n = SpannedYaml::build(&t);
            history(g, &mut t, &mut n, &mut desc, &mut |_, _, _| None)?;
        } else {
            let mut n = Yaml::build(&t);
            history(g, &mut t, &mut n, &mut desc, &mut |g, n, t| if g.chance(1, 2) { Some(index(g, n, t, &mut c)) } else { None })?;
            let b = variant(g, &t);
            let other = Yaml::build(&b);
            if (n == other) != same(&t, &b) || (n != other) == same(&t, &b) {
                return Err(format!("equality: {} of {t:?} and {b:?}", n == other));
            }
            let (x, y) = (owned(&t), owned(&b));
            if (x == y) != same(&t, &b) || (x.clone() == y) != same(&t, &b) {
                return Err(format!("owned-equality: {} of {t:?} and {b:?}", x == y));
            }
        }
        froms(g)
    });
    match r {
        Err(e) | Ok(Err(e)) => c.fail = Some(e),
        Ok(Ok(())) => {}
    }
    c.label(if spanned { "spanned" } else { "yaml" });
    c.nontrivial = start.size() > 1 || t.size() > 1;
    c.key = hash_bytes(desc.as_bytes());
    c.desc = desc;
    c
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "a random tree (all kinds of nodes, keys of any kind, repeated keys) as Yaml or SpannedYaml, and a history of up to 10 changes (through the _mut accessors, IndexMut by number and name, take, tagging, pushing, removing) made to it and to a plain model; after each the trees are the same, and before and after all of it every node answers every question as the model does; equality, copies and conversions too; non-trivial: more than one node; distinct by tree and history",
    assumptions: &["tagged nodes have no type of their own and answer as bad values, as documented by get_type's table"],
    quick: 300_000,
    thorough: 12_000_000,
    run: c14,
    fixed: super::none,
};
