//! C17: what is serialized reads back as the same value.

use crate::engine::*;
use crate::ev::*;
use crate::model::{SCHEMA, gen_double};
use crate::runner::Prop;
use crate::schema::{T, float, of_yaml};
use crate::text::soup;
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::borrow::Cow;
use yam_core::prelude::*;
use yam_serde::ser::PrettyFormatter;

fn formatter(g: &mut G) -> (PrettyFormatter, String) {
    let mut f = if g.chance(1, 6) {
        let mut f = PrettyFormatter::default();
        f.pref_string_length = 80;
        f
    } else {
        PrettyFormatter::pretty()
    };
    f.pref_string_length = match g.below(4) {
        0 => 80,
        1 => g.below(4),
        2 => g.below(20),
        _ => g.below(200),
    };
    f.depth_limit = g.below(12);
    if g.chance(1, 4) {
        f.yaml_format = !f.yaml_format;
    }
    if g.chance(1, 4) {
        f.indentor = Cow::Borrowed(*g.pick(&["", " ", "  ", "    ", "\t"]));
        f.new_line = Cow::Borrowed(*g.pick(&["", "\n", "\r\n"]));
    }
    let d = format!("{f:?}");
    (f, d)
}

const BITS: &[&str] = &[
    " ", " ", " ", " ", "  ", "\n", "\n\n", " \n", "\n ", "\t", " \t", "\r", "\r\n", "a", "word", "two words", "---", "...", "--- ", "\"", "'", "\\", "\\n", "\\\n", "#", " #", ": ", "- ", "\0", "\x07", "\x1b", "\x7f", "\u{80}",
    "\u{85}", "\u{9f}", "\u{a0}", "é", "e\u{301}", "日本語", "😀", "👩\u{200d}👧", "🇩🇪", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{10ffff}", "\u{200b}", "\u{ad}", "can't", "3.14", "1,000.5", "(x)", ".", ",", "\u{3000}", "\u{2003}", "\u{1f}",
    "\u{e000}", "\u{ffff}", "कि", "한국", "\u{202e}",
];

fn string(g: &mut G) -> String {
    if g.chance(1, 3000) {
        let n = crate::huge::size(g, 100_000);
        let w = if g.chance(1, 2) { crate::huge::word(g, n) } else { String::new() };
        let k = g.range(1, 5);
        let p: Vec<&str> = (0..k).map(|_| *g.pick(BITS)).collect();
        let mut s = w;
        let mut i = 0;
        while s.len() < n {
            s.push_str(p[i % k]);
            i += 1;
        }
        s.push_str(g.pick(BITS));
        return s;
    }
    match g.below(5) {
        0 => soup(g, 12),
        1 => gen_double(g, true),
        2 => g.pick(SCHEMA).to_string(),
        _ => {
            let n = g.range(0, 40);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(g.pick(BITS));
                if g.chance(1, 3) {
                    s.push(' ');
                }
            }
            s
        }
    }
}

fn char_of(g: &mut G) -> char {
    match g.below(3) {
        0 => g.below(256) as u8 as char,
        1 => {
            let s: &str = g.pick(BITS);
            s.chars().next().unwrap()
        }
        _ => char::from_u32(g.below(0x11_0000) as u32).unwrap_or('\''),
    }
}

fn bits(g: &mut G) -> u64 {
    let b = (g.below(1 << 32) as u64) << 32 | g.below(1 << 32) as u64;
    match g.below(4) {
        0 => b,
        1 => b >> g.below(64),
        2 => *g.pick(&[0, 1, u64::MAX, 1 << 63, i64::MAX as u64, 1 << 62, 1 << 53, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x8000_0000_0000_0001, 0x7f7f_ffff, 0x3ff0_0000_0000_0000]),
        _ => !(b >> g.below(64)),
    }
}

/// Writes, reads back, and compares; `as_tree` is what the loader must make of it.
fn round<V: Serialize + DeserializeOwned + std::fmt::Debug>(c: &mut Case, v: &V, f: PrettyFormatter, d: &str, same: impl Fn(&V, &V) -> bool, as_tree: Option<T>) {
    c.desc = format!("{} {v:?} with {d}", std::any::type_name::<V>());
    c.key = hash_bytes(c.desc.as_bytes());
    let r = guarded(10_000 + c.desc.len(), || -> Result<(), String> {
        let text = yam_serde::to_pretty_string(v, f).map_err(|e| format!("write: {e:?}"))?;
        let got: V = yam_serde::from_str(&text).map_err(|e| format!("read: {text:?}: {e}"))?;
        if !same(v, &got) {
            return Err(format!("value: {text:?} reads as {got:?}"));
        }
        if let Some(k) = text.chars().find(|k| k.is_control() && !matches!(k, '\t' | '\n' | '\r')) {
            return Err(format!("control: {text:?} has {k:?} as it is"));
        }
        // In any text that holds it.
        if let Some(t) = as_tree {
            let got = Yaml::load_from(text.as_str()).map(|v| v.iter().map(of_yaml).collect::<Vec<_>>());
            if got.as_ref().ok() != Some(&vec![t]) {
                return Err(format!("load: {text:?} loads as {got:?}"));
            }
        }
        Ok(())
    });
    match r {
        Err(e) | Ok(Err(e)) => c.fail = Some(e),
        Ok(Ok(())) => {}
    }
}

fn c17(g: &mut G) -> Case {
    let mut c = Case::default();
    let (f, d) = formatter(g);
    let b = bits(g);
    // Null is nothing at all with the formatter that is not pretty.
    let pretty = !d.contains("null_format: \"\"");
    macro_rules! int {
        ($($k:pat => $t:ty),*; $e:expr, $($rest:tt)*) => {
            match $e {
                $($k => {
                    c.label("integer");
                    c.nontrivial = true;
                    let v = b as $t;
                    let t = i64::try_from(v).ok().map(T::Int);
                    if pretty && g.chance(1, 8) {
                        let o = g.chance(3, 4).then_some(v);
                        round(&mut c, &o, f, &d, |a, b| a == b, if o.is_some() { t } else { Some(T::Null) });
                    } else {
                        round(&mut c, &v, f, &d, |a, b| a == b, t);
                    }
                })*
                $($rest)*
            }
        };
    }
    int! { 0 => i8, 1 => i16, 2 => i32, 3 => i64, 4 => u8, 5 => u16, 6 => u32, 7 => u64; g.below(32),
        8 | 9 => {
            c.label("float");
            c.nontrivial = true;
            let v = f64::from_bits(b);
            round(&mut c, &v, f, &d, |a, b| float(*a) == float(*b), Some(float(v)));
        }
        10 | 11 => {
            c.label("float");
            c.nontrivial = true;
            let v = f32::from_bits(b as u32);
            round(&mut c, &v, f, &d, |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), None);
        }
        12 | 13 => {
            c.label("char");
            c.nontrivial = true;
            let v = char_of(g);
            round(&mut c, &v, f, &d, |a, b| a == b, Some(T::Str(v.to_string())));
        }
        14 => {
            c.label("bool");
            let v = g.chance(1, 2);
            round(&mut c, &v, f, &d, |a, b| a == b, Some(T::Bool(v)));
        }
        15 if pretty => {
            c.label("null");
            if g.chance(1, 2) {
                round(&mut c, &(), f, &d, |a, b| a == b, Some(T::Null));
            } else {
                let v: Option<String> = g.chance(2, 3).then(|| string(g));
                c.label("option");
                let t = v.clone().map_or(T::Null, T::Str);
                round(&mut c, &v, f, &d, |a, b| a == b, Some(t));
            }
        }
        _ => {
            c.label("string");
            let v = string(g);
            c.nontrivial = v.chars().any(|ch| !ch.is_ascii_alphanumeric());
            if v.len() > f.pref_string_length {
                c.label("string-over-length");
            }
            let t = T::Str(v.clone());
            round(&mut c, &v, f, &d, |a, b| a == b, Some(t));
        }
    }
    c
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "a random scalar value (integers of every width, floats by their bits, chars, strings of words, white space, line breaks, controls, quotes, markers, emoji and combining characters, options and unit) written with a random formatter (preferred length 0 to 200, default or pretty), read back as the type it was and loaded as a tree; non-trivial: other than a boolean, null or a string of letters; distinct by type, value and formatter",
    assumptions: &["only scalars: everything else the serializer leaves to do (`todo!()`)", "null with the formatter that writes it as nothing is left out: an empty text holds no document"],
    quick: 2_000_000,
    thorough: 80_000_000,
    run: c17,
    fixed: super::none,
};
