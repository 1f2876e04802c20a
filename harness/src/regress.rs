//! Inputs on which the code once failed, with what they must give.

use crate::ev::*;
use crate::runner::Fixed;

/// Properties, text, events (or `ERR` at the end).
type Row = (&'static str, &'static str, &'static str);

const ROWS: &[Row] = &include!("regress_rows.in");

pub fn rows() -> &'static [Row] {
    ROWS
}

pub fn got(text: &str) -> String {
    match parse(text) {
        Err(e) => format!("!! {e}"),
        Ok(p) => {
            let mut s = show(&p.evs);
            if p.err.is_some() {
                s.push_str(" ERR");
            }
            s
        }
    }
}

/// The rows of a property.
pub fn of(id: &str) -> Vec<Fixed> {
    ROWS.iter()
        .filter(|r| r.0.split(' ').any(|p| p == id))
        .map(|&(_, text, want)| -> Fixed {
            (
                format!("{text:?}"),
                Box::new(move || {
                    let g = got(text);
                    let same = if want.ends_with("ERR") { g.ends_with("ERR") } else { g == want };
                    (!same).then(|| format!("regression: got {g} expected {want}"))
                }),
            )
        })
        .collect()
}
