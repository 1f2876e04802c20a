//! The properties.

use crate::engine::*;
use crate::runner::{Fixed, Prop};

pub mod apis;
pub mod access;
pub mod comments;
pub mod cost;
pub mod grammar;
pub mod inmodel;
pub mod layout;
pub mod model_diff;
pub mod places;
pub mod own;
pub mod reject;
pub mod total;
pub mod ser;
pub mod tree;
pub mod typed;

pub fn none() -> Vec<Fixed> {
    Vec::new()
}

/// A case about one text.
pub fn text_case(text: &str) -> Case {
    crate::runner::about_to_run(text);
    Case { desc: format!("{text:?}"), key: hash_bytes(text.as_bytes()), ..Case::default() }
}

pub static PROPS: &[Prop] = &[
    total::C01,
    grammar::C02,
    model_diff::C03,
    model_diff::C04,
    model_diff::C05,
    model_diff::C06,
    model_diff::C07,
    reject::C08,
    layout::C09,
    places::C10,
    apis::C11,
    tree::C12,
    tree::C13,
    access::C14,
    typed::C15,
    typed::C16,
    ser::C17,
    comments::C18,
    cost::C19,
];
