//! C12: loaded trees. C13: what scalars stand for.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::model::*;
use crate::runner::Prop;
use crate::schema::*;
use crate::text::*;
use std::borrow::Cow;
use yam_core::parsing::ScalarValue;
use yam_core::prelude::*;

const CAP: usize = 20_000;

/// Something very long, wide or deep, of which the tree is known.
fn huge_tree(g: &mut G) -> Case {
    use crate::huge::{ALL, Kind as Size, huge};
    let h = if g.chance(1, 2) { huge(g, &[Size::Names, Size::Names, Size::Docs, Size::Wide, Size::Handles], 1000) } else { huge(g, ALL, 1000) };
    let mut c = text_case(&h.text);
    c.label("huge");
    c.label(h.what);
    c.nontrivial = true;
    let Some(want) = compose(&h.evs, 1_000_000) else {
        c.discard = true;
        return c;
    };
    let cut = |s: String| s.chars().take(300).collect::<String>();
    match guarded(h.text.len() + 1_000_000, || Yaml::load_from(h.text.as_str()).map(|v| v.iter().map(of_yaml).collect::<Vec<_>>())) {
        Err(e) => c.fail = Some(e),
        Ok(Err(e)) => c.fail("not-loaded", format!("does not load: {e}")),
        Ok(Ok(got)) if got != want => {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let d = match (got.get(k), want.get(k)) {
                (Some(T::Seq(a)), Some(T::Seq(b))) => {
                    let j = a.iter().zip(b).take_while(|(a, b)| a == b).count();
                    format!("node {j} is {}, expected {}", cut(format!("{:?}", a.get(j))), cut(format!("{:?}", b.get(j))))
                }
                (a, b) => format!("loaded {}, expected {}", cut(format!("{a:?}")), cut(format!("{b:?}"))),
            };
            c.fail("tree", format!("{} documents instead of {}; document {k}: {d}", got.len(), want.len()));
        }
        Ok(Ok(_)) => {}
    }
    c
}

fn c12(g: &mut G) -> Case {
    if g.chance(1, 2000) {
        return huge_tree(g);
    }
    let (text, kind) = if g.chance(3, 4) {
        let m = MCfg {
            max_depth: 5,
            max_width: 4,
            max_nodes: 30,
            max_docs: 3,
            alias_in: 5,
            anchor_in: 4,
            tag_in: 5,
            schema_values: 4,
            docs: [4, 1, 1, 1],
            ..MCfg::default()
        };
        let (_, r) = valid(g, &m);
        if g.chance(1, 6) { (mutate(g, &r.text), "mutated") } else { (r.text, "valid") }
    } else {
        any_text(g)
    };
    let mut c = text_case(&text);
    c.label(kind);
    let p = match parse(&text) {
        Ok(p) => p,
        Err(_) => {
            c.discard = true;
            return c;
        }
    };
    let Some(want) = compose(&p.evs, CAP) else {
        c.discard = true;
        return c;
    };
    let got = match guarded(text.len() + 4 * CAP, || Yaml::load_from(text.as_str()).map(|v| v.iter().map(of_yaml).collect::<Vec<_>>())) {
        Ok(x) => x,
        Err(e) => {
            c.fail = Some(e);
            return c;
        }
    };
    c.label(if p.ok() { "accepted" } else { "rejected" });
    if g.chance(1, 4) {
        match guarded(text.len() + 4 * CAP, || super::own::run(&text, &p.evs, &p.spans, p.ok())) {
            Err(e) | Ok(Err(e)) => {
                c.fail = Some(e);
                return c;
            }
            Ok(Ok(())) => c.label("own-node-type"),
        }
    }
    match (&got, &p.err) {
        (Ok(_), Some(e)) => c.fail("loaded", format!("loads although parsing gives {e}")),
        (Err(e), None) => c.fail("not-loaded", format!("does not load: {e}; events {}", show(&p.evs))),
        (Err(a), Some(b)) => {
            if a != b {
                c.fail("error", format!("loading gives {a}, parsing {b}"));
            }
        }
        (Ok(got), None) => {
            if *got != want {
                c.fail("tree", format!("loaded {got:?}, expected {want:?}; events {}", show(&p.evs)));
            }
        }
    }
    let has = |f: &dyn Fn(&Ev) -> bool| p.evs.iter().any(f);
    if has(&|e| matches!(e, Ev::Alias(_))) {
        c.label("alias");
    }
    if want.iter().any(|t| format!("{t:?}").contains("Bad")) {
        c.label("bad-value");
    }
    if has(&|e| matches!(e, Ev::Scalar { tag: Some(_), .. } | Ev::SeqStart { tag: Some(_), .. } | Ev::MapStart { tag: Some(_), .. })) {
        c.label("tag");
    }
    if want.len() > 1 {
        c.label("several-documents");
    }
    c.nontrivial = p.ok() && want.iter().map(T::size).sum::<usize>() >= 3;
    c
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "any text, mostly valid streams rich in anchors, aliases, tags and values of the core schema; the loaded trees (of Yaml, or of a node type of the harness's own, which is also told where its nodes are) are compared with trees composed from the events by an independent composer and resolver; non-trivial: accepted, three nodes and more; distinct by text",
    assumptions: &["the events themselves are judged by C02 to C07", "streams whose aliases expand to more than 20000 nodes are passed over"],
    quick: 1_600_000,
    thorough: 30_000_000,
    run: c12,
    fixed: || {
        let mut v: Vec<crate::runner::Fixed> = Vec::new();
        for r in crate::regress::rows() {
            let text = r.1;
            v.push((
                format!("{text:?}"),
                Box::new(move || {
                    let p = parse(text).ok()?;
                    let want = compose(&p.evs, CAP)?;
                    let got = guarded(text.len() + 4 * CAP, || Yaml::load_from(text).map(|v| v.iter().map(of_yaml).collect::<Vec<_>>()));
                    match (got, p.err) {
                        (Err(e), _) => Some(e),
                        (Ok(Ok(g)), None) if g == want => None,
                        (Ok(Err(a)), Some(b)) if a == b => None,
                        (g, e) => Some(format!("tree: loaded {g:?}, expected {want:?}, parse error {e:?}")),
                    }
                }),
            ));
        }
        v
    },
};

// ----- C13 ---------------------------------------------------------------

fn number(g: &mut G) -> String {
    let long = g.chance(1, 30);
    let digits = |g: &mut G, max: usize| -> String {
        if long && g.chance(1, 2) {
            // Zeros and others, more than any number needs.
            let n = if g.chance(1, 300) { g.range(1, 70_000) } else { g.range(1, 420) };
            let (a, b) = (char::from(b'0' + g.below(10) as u8), char::from(b'0' + g.below(10) as u8));
            let k = g.below(n + 1);
            return (0..n).map(|i| if i < k { if a < '5' { '0' } else { a } } else { b }).collect();
        }
        let n = g.range(1, max);
        (0..n).map(|_| char::from(b'0' + g.below(10) as u8)).collect()
    };
    let mut s = String::new();
    match g.weighted(&[5, 6, 2, 2, 2]) {
        0 => {
            s.push_str(g.pick(&["", "-", "+"]));
            s.push_str(&digits(g, 6));
        }
        1 => {
            s.push_str(g.pick(&["", "-", "+"]));
            let w = g.chance(2, 3);
            if w {
                s.push_str(&digits(g, 5));
            }
            if g.chance(2, 3) {
                s.push('.');
                if !w || g.chance(2, 3) {
                    s.push_str(&digits(g, 5));
                }
            }
            if g.chance(1, 2) {
                s.push_str(g.pick(&["e", "E"]));
                s.push_str(g.pick(&["", "-", "+"]));
                s.push_str(&digits(g, 3));
            }
        }
        2 => {
            s.push_str("0o");
            let n = g.range(1, 24);
            for _ in 0..n {
                s.push(char::from(b'0' + g.below(8) as u8));
            }
        }
        3 => {
            s.push_str("0x");
            let n = g.range(1, 18);
            for _ in 0..n {
                s.push(*g.pick(&['0', '1', '7', '8', '9', 'a', 'b', 'f', 'A', 'F']));
            }
        }
        _ => {
            // Around the limits of i64.
            let lim: i128 = if g.chance(1, 2) { i128::from(i64::MAX) } else { i128::from(i64::MIN) };
            let d = g.below(5) as i128 - 2;
            s = format!("{}", lim + d);
            if g.chance(1, 4) {
                s = s.replace('-', "-000");
            }
            if g.chance(1, 4) {
                s.push_str(&digits(g, 4));
            }
            if g.chance(1, 4) {
                s.push_str(g.pick(&[".", ".0", "e0"]));
            }
        }
    }
    s
}

/// Strings around the core schema's spellings.
pub fn spelling(g: &mut G) -> String {
    let mut s = match g.weighted(&[4, 5, 2, 1]) {
        0 => g.pick(SCHEMA).to_string(),
        1 => number(g),
        2 => {
            let n = g.range(0, 7);
            (0..n).map(|_| *g.pick(&['0', '1', '8', '9', '+', '-', '.', 'e', 'E', 'x', 'o', 'i', 'n', 'f', 'a', 'N', 'I', 't', 'r', 'u', 'l', '~', '_', ' ', 'é'])).collect()
        }
        _ => g.pick(&["yes", "No", "on", "OFF", "y", "n", "2001-12-14", "1:30", "0b1", "nil", "none", "infinity", "inf", "nan", "-nan", "1f", "1d", "0.0.0", "١", "１", "1\u{a0}"]).to_string(),
    };
    if g.chance(1, 4) {
        let mut cs: Vec<char> = s.chars().collect();
        let i = g.below(cs.len() + 1);
        match g.below(4) {
            0 if i < cs.len() => {
                cs.remove(i);
            }
            1 if i < cs.len() => {
                cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() };
            }
            2 if i < cs.len() => {
                let c = cs[i];
                cs.insert(i, c);
            }
            _ => cs.insert(i, *g.pick(&['0', '1', '+', '-', '.', 'e', 'E', '_', ' ', 'x', 'o', 'n', 'l', '\t', 'é', '٣', ','])),
        }
        s = cs.into_iter().collect();
    }
    s
}

fn c13(g: &mut G) -> Case {
    let s = spelling(g);
    let style = *g.pick(&[Style::Plain, Style::Plain, Style::Plain, Style::Single, Style::Double, Style::Literal, Style::Folded]);
    let tag: Option<TagPair> = match g.below(4) {
        0 => {
            let suf = g.pick(&["int", "float", "bool", "null", "str", "binary", "seq", "Int", ""]).to_string();
            Some((CORE.to_string(), suf))
        }
        1 => Some((g.pick(&["!", "", "tag:yaml.org,2002", "tag:example.com,2000:"]).to_string(), g.pick(&["int", "x", "str", "tag:yaml.org,2002:int"]).to_string())),
        _ => None,
    };
    let mut c = Case { desc: format!("{s:?} {style:?} {tag:?}"), key: hash_bytes(format!("{s}\u{0}{style:?}{tag:?}").as_bytes()), ..Case::default() };
    let want = resolve(&s);
    c.label(match want {
        T::Null => "null",
        T::Bool(_) => "bool",
        T::Int(_) => "int",
        T::Float(_) => "float",
        _ => "string",
    });
    c.nontrivial = true;
    let r = guarded(s.len(), || -> Result<(), String> {
        let got = of_scalar(&YamlScalar::parse_from_cow(Cow::Borrowed(s.as_str())));
        if got != want {
            return Err(format!("resolve: {s:?} gives {got:?}, expected {want:?}"));
        }
        // Also into number types of one's own.
        let wide = match YamlScalar::<f64, i128, String>::parse_from_cow(Cow::Borrowed(s.as_str())) {
            YamlScalar::Null(_) => T::Null,
            YamlScalar::Bool(b) => T::Bool(b),
            YamlScalar::Integer(i) => i64::try_from(i).map_or(T::Bad, T::Int),
            YamlScalar::FloatingPoint(f) => float(f),
            YamlScalar::String(s) => T::Str(s),
        };
        if wide != want {
            return Err(format!("resolve-wide: {s:?} gives {wide:?}, expected {want:?}"));
        }
        // With style and tag; a foreign tag leaves the resolution alone.
        let want = match &tag {
            Some(t) if t.0 != CORE => scalar(style, &s, None),
            t => scalar(style, &s, t.as_ref()),
        };
        let tg = tag.as_ref().map(|t| Cow::Owned(Tag::new(t.0.clone(), t.1.clone())));
        let got = YamlScalar::<f64, i64>::parse_from_cow_and_metadata(Cow::Borrowed(s.as_str()), style_to(style), tg.clone());
        let got = got.as_ref().map_or(T::Bad, of_scalar);
        if got != want {
            return Err(format!("resolve-tagged: {s:?} {style:?} {tag:?} gives {got:?}, expected {want:?}"));
        }
        let sv = ScalarValue { value: Cow::Borrowed(s.as_str()), scalar_type: style_to(style), anchor_id: 0, tag: tg };
        let null = sv.is_null();
        if null != (want == T::Null) {
            return Err(format!("is-null: {s:?} {style:?} {tag:?} gives {null}"));
        }
        let got = YamlScalar::parse_from_scalar(sv);
        let got = got.as_ref().map_or(T::Bad, of_scalar);
        if got != want {
            return Err(format!("resolve-scalar: {s:?} {style:?} {tag:?} gives {got:?}, expected {want:?}"));
        }
        Ok(())
    });
    match r {
        Err(e) | Ok(Err(e)) => {
            c.fail = Some(e);
            return c;
        }
        Ok(Ok(())) => {}
    }
    // Loaded from a text.
    if plain_ok(&s, true) {
        c.label("loaded");
        let core = tag.as_ref().filter(|t| t.0 == CORE && !t.1.is_empty());
        let tt = core.map_or(String::new(), |t| format!("!!{} ", t.1));
        let (text, path): (String, &[usize]) = match g.below(4) {
            0 => (format!("- {tt}{s}\n"), &[0]),
            1 => (format!("[{tt}{s}]"), &[0]),
            2 => (format!("k: {tt}{s} # c\n"), &[1]),
            _ => (format!("{{? x : {tt}{s}\n}}"), &[1]),
        };
        let want = scalar(Style::Plain, &s, core);
        let want = match (path[0], text.starts_with('{')) {
            (0, _) => T::Seq(vec![want]),
            (_, true) => T::Map(vec![(T::Str("x".into()), want)]),
            _ => T::Map(vec![(T::Str("k".into()), want)]),
        };
        match guarded(text.len(), || Yaml::load_single(text.as_str()).map(|y| of_yaml(&y))) {
            Err(e) => c.fail = Some(e),
            Ok(Ok(got)) if got == want => {}
            Ok(got) => c.fail("load", format!("{text:?} gives {got:?}, expected {want:?}")),
        }
    }
    // Numbers come back from how they are shown.
    if c.fail.is_none() {
        let bits = (g.below(1 << 30) as u64) << 34 | (g.below(1 << 30) as u64) << 4 | g.below(16) as u64;
        let i = bits as i64 >> g.below(64);
        let f = f64::from_bits(bits);
        for (t, want) in [(i.to_string(), T::Int(i)), (format!("{i:+}"), T::Int(i)), (format!("0x{:x}", i & i64::MAX), T::Int(i & i64::MAX)), (format!("0o{:o}", i & i64::MAX), T::Int(i & i64::MAX)), (format!("{f:?}"), float(f)), (format!("{f:e}"), float(f))] {
            if f.is_nan() || f.is_infinite() {
                break;
            }
            let got = of_scalar(&YamlScalar::parse_from_cow(Cow::Borrowed(t.as_str())));
            // A float may be shown as digits alone.
            let same = got == want || matches!((&got, &want), (T::Int(a), T::Float(_)) if float(*a as f64) == want);
            if !same {
                c.fail("shown", format!("{t} gives {got:?}, expected {want:?}"));
            }
        }
    }
    c
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "a spelling of the core schema, a random number (all bases, signs, exponents, around the limits of i64), a random string over their alphabet, or one of them with a character changed; with a style and perhaps a core or foreign tag; resolved directly, through ScalarValue and through a loaded text, against an independent matcher; every case is non-trivial; distinct by string, style and tag",
    assumptions: &["the value of a float is what the standard library reads from its text", "integers beyond i64 resolve to the nearest float, in base 8 and 16 to a string; quoted scalars are strings whatever core tag they have (as the code documents)"],
    quick: 4_000_000,
    thorough: 60_000_000,
    run: c13,
    fixed: super::none,
};
