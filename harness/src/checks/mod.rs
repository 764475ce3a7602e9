//! The checks, one per property.

mod build;
mod copies;
mod laws;
mod order;
mod parse;
mod refuse;
mod rules;
mod types;

use serde_json::Value;
use wot_td::thing::Thing;

use crate::{
    drive::{self, Order},
    engine::{Check, Ctx, Src},
    expect,
    ext::XSet,
    model::*,
};

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(build::checks());
    v.extend(copies::checks());
    v.extend(parse::checks());
    v.extend(rules::checks());
    v.extend(laws::checks());
    v.extend(order::checks());
    v.extend(refuse::checks());
    v.extend(types::checks());
    v.sort_by_key(|c| c.id);
    v
}

/// Calls in the canonical order, or in any other.
pub fn some_order(s: &mut Src) -> Order {
    if s.chance(60) {
        Order::shuffled(u64::from(s.raw()))
    } else {
        Order::canonical()
    }
}

/// Build a description which breaks no rule.
pub fn built<X: XSet>(m: &MThing, o: &mut Order) -> Result<Thing<X>, String> {
    drive::build::<X>(m, o).map_err(|e| format!("a valid description did not build: {e}"))
}

/// The rule by which a description is non-trivial: it has at least one affordance, form, link,
/// schema definition or URI variable.
pub fn has_content(m: &MThing) -> bool {
    !(m.props.is_empty()
        && m.actions.is_empty()
        && m.events.is_empty()
        && m.forms.is_empty()
        && m.links.is_empty()
        && m.schemas.is_empty()
        && m.uri.is_empty())
}

pub fn doc_has_content(v: &Value) -> bool {
    ["properties", "actions", "events", "forms", "links", "schemaDefinitions", "uriVariables"]
        .iter()
        .any(|k| match &v[*k] {
            Value::Object(o) => !o.is_empty(),
            Value::Array(a) => !a.is_empty(),
            _ => false,
        })
}

/// The canonical documents must be the same.
pub fn same_doc(what: &str, want: &Value, got: &Value) -> Result<(), String> {
    match expect::diff(&expect::canon(want.clone()), &expect::canon(got.clone())) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

/// A hash of any value written out.
pub fn show_doc(c: &mut Ctx, name: &str, v: &Value) {
    c.show(name, || serde_json::to_string_pretty(v).unwrap());
}

pub fn to_value<X: XSet>(t: &Thing<X>) -> Result<Value, String> {
    serde_json::to_value(t).map_err(|e| format!("the Thing does not serialise: {e}"))
}

pub fn from_text<X: XSet>(t: &str) -> Result<Thing<X>, String> {
    serde_json::from_str(t).map_err(|e| format!("the document is refused: {e}"))
}

pub fn from_value<X: XSet>(v: &Value) -> Result<Thing<X>, String> {
    serde_json::from_value(v.clone()).map_err(|e| format!("the document is refused: {e}"))
}
