//! The rules a description has to follow, checked on the model: every error that may be reported.

use oxilangtag::LanguageTag;
use wot_td::builder::{AffordanceType, Error, FormContext};

use crate::model::*;

fn ctx(w: Where) -> FormContext {
    match w {
        Where::Thing => FormContext::Thing,
        Where::Property => FormContext::Property,
        Where::Action => FormContext::Action,
        Where::Event => FormContext::Event,
    }
}

/// Is the range from `min` to `max` empty?
fn empty<T: PartialOrd>(min: &Lim<T>, max: &Lim<T>) -> bool {
    min.v > max.v || (min.v == max.v && (min.excl || max.excl))
}

/// Faults of one data schema, its parts excluded.
fn schema_faults(m: &MSchema, out: &mut Vec<Error>) {
    match &m.kind {
        Kind::Str {
            min: Some(a),
            max: Some(b),
            ..
        }
        | Kind::Vec {
            min: Some(a),
            max: Some(b),
            ..
        } if a > b => out.push(Error::InvalidMinMax),
        Kind::Int {
            min: Some(a),
            max: Some(b),
            ..
        } if empty(a, b) => out.push(Error::InvalidMinMax),
        Kind::Num { min, max, mult } => {
            let nan = |l: &Option<Lim<f64>>| l.as_ref().is_some_and(|l| l.v.is_nan());
            if nan(min) || nan(max) {
                out.push(Error::NanMinMax);
            } else if let (Some(a), Some(b)) = (min, max) {
                if empty(a, b) {
                    out.push(Error::InvalidMinMax);
                }
            }
            if mult.is_some_and(|m| m.is_nan() || m <= 0.) {
                out.push(Error::InvalidMultipleOf);
            }
        }
        _ => {}
    }
}

/// A well-formed BCP 47 tag, along the grammar of RFC 5646 section 2.1 (well-formedness only, and
/// no repeated variant or singleton).
pub fn well_formed(tag: &str) -> bool {
    const GRANDFATHERED: &[&str] = &[
        "en-gb-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo",
        "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-be-fr", "sgn-be-nl", "sgn-ch-de", "art-lojban",
        "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang",
    ];
    let low = tag.to_ascii_lowercase();
    if GRANDFATHERED.contains(&low.as_str()) {
        return true;
    }
    if !low.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-') {
        return false;
    }
    let parts: Vec<&str> = low.split('-').collect();
    if parts.iter().any(|p| p.is_empty() || p.len() > 8) {
        return false;
    }
    let alpha = |s: &str| s.bytes().all(|b| b.is_ascii_alphabetic());
    let digit = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    let mut it = parts.iter().copied().peekable();
    if *it.peek().unwrap() == "x" {
        return parts.len() > 1;
    }
    let lang = it.next().unwrap();
    if !alpha(lang) || lang.len() < 2 {
        return false;
    }
    if lang.len() <= 3 {
        for _ in 0..3 {
            match it.peek() {
                Some(p) if p.len() == 3 && alpha(p) => {
                    it.next();
                }
                _ => break,
            }
        }
    }
    if it.peek().is_some_and(|p| p.len() == 4 && alpha(p)) {
        it.next();
    }
    if it.peek().is_some_and(|p| (p.len() == 2 && alpha(p)) || (p.len() == 3 && digit(p))) {
        it.next();
    }
    let mut variants: Vec<&str> = vec![];
    while let Some(p) = it.peek() {
        if (5..=8).contains(&p.len()) || (p.len() == 4 && p.as_bytes()[0].is_ascii_digit()) {
            if variants.contains(p) {
                return false;
            }
            variants.push(p);
            it.next();
        } else {
            break;
        }
    }
    let mut singles: Vec<&str> = vec![];
    while let Some(p) = it.next() {
        if p.len() != 1 {
            return false;
        }
        let mut n = 0;
        if p == "x" {
            return it.next().is_some();
        }
        if singles.contains(&p) {
            return false;
        }
        singles.push(p);
        while it.peek().is_some_and(|q| q.len() >= 2) {
            it.next();
            n += 1;
        }
        if n == 0 {
            return false;
        }
    }
    true
}

/// Tags on which the generators rely are the ones on which both agree; see `checks::build`.
pub fn library_agrees(tag: &str) -> bool {
    LanguageTag::parse(tag).is_ok() == well_formed(tag)
}

fn langs(v: &Option<Vec<(String, String)>>, out: &mut Vec<Error>) {
    for (l, _) in v.iter().flatten() {
        if !well_formed(l) {
            out.push(Error::InvalidLanguageTag(l.clone()));
        }
    }
}

fn hr(h: &Hr, out: &mut Vec<Error>) {
    langs(&h.titles, out);
    langs(&h.descs, out);
}

fn schema(m: &MSchema, out: &mut Vec<Error>) {
    hr(&m.hr, out);
    schema_faults(m, out);
    match &m.kind {
        Kind::Vec { item: Some(i), .. } => schema(i, out),
        Kind::Tuple(v) | Kind::OneOf(v) => v.iter().for_each(|s| schema(s, out)),
        Kind::Obj(v) => v.iter().for_each(|s| schema(&s.2, out)),
        _ => {}
    }
}

/// Every error which may be reported for a description; none when it breaks no rule. The faults
/// of a standalone schema.
pub fn schema_violations(m: &MSchema) -> Vec<Error> {
    let mut v = vec![];
    schema(m, &mut v);
    v
}

fn uri(v: &[(String, MSchema)], out: &mut Vec<Error>) {
    for (_, s) in v {
        schema(s, out);
        if matches!(s.kind, Kind::Vec { .. } | Kind::Tuple(_) | Kind::Obj(_)) {
            out.push(Error::InvalidUriVariables);
        }
    }
}

fn dups<'a>(names: impl Iterator<Item = &'a str>, mut f: impl FnMut(&str)) {
    let mut seen: Vec<&str> = vec![];
    for n in names {
        if seen.contains(&n) {
            f(n);
        }
        seen.push(n);
    }
}

fn form(f: &MForm, w: Where, m: &MThing, out: &mut Vec<Error>) {
    for i in &f.ops {
        if !allowed(w).contains(i) {
            out.push(Error::InvalidOpInForm {
                context: ctx(w),
                operation: ALL_OPS[*i].0,
            });
        }
    }
    if w == Where::Thing && f.ops.is_empty() {
        out.push(Error::MissingOpInForm);
    }
    for n in &f.security {
        if m.secs.iter().all(|s| s.name() != n) {
            out.push(Error::UndefinedSecurity(n.clone()));
        }
    }
    for a in &f.addl {
        if let Some(n) = &a.schema {
            if m.schemas.iter().all(|s| s.0 != *n) {
                out.push(Error::MissingSchemaDefinition(n.clone()));
            }
        }
    }
}

fn aff(a: &MAff, w: Where, m: &MThing, out: &mut Vec<Error>) {
    hr(&a.hr, out);
    a.forms.iter().for_each(|f| form(f, w, m, out));
    uri(&a.uri, out);
}

/// Every error which may be reported for a description; none when it breaks no rule.
pub fn violations(m: &MThing) -> Vec<Error> {
    let mut out = vec![];
    hr(&m.hr, &mut out);
    dups(m.secs.iter().map(|s| s.name()), |n| {
        out.push(Error::DuplicatedSecurityDefinition(n.to_string()))
    });
    for s in &m.secs {
        langs(&s.descs, &mut out);
        if let SecKind::Combo { names, .. } = &s.kind {
            for n in names {
                if m.secs.iter().all(|s| s.name() != n) {
                    // the message speaks of schemas: pinned by the tests
                    out.push(Error::MissingSchemaDefinition(n.clone()));
                    out.push(Error::UndefinedSecurity(n.clone()));
                }
            }
        }
    }
    for l in &m.links {
        if l.sizes.is_some() && l.rel.as_deref() != Some("icon") {
            out.push(Error::SizesWithRelNotIcon);
        }
        for t in &l.hreflang {
            if !well_formed(t) {
                out.push(Error::InvalidLanguageTag(t.clone()));
            }
        }
    }
    m.forms.iter().for_each(|f| form(f, Where::Thing, m, &mut out));
    uri(&m.uri, &mut out);
    m.schemas.iter().for_each(|s| schema(&s.1, &mut out));
    for (ty, names) in [
        (AffordanceType::Property, m.props.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()),
        (AffordanceType::Action, m.actions.iter().map(|x| x.0.as_str()).collect()),
        (AffordanceType::Event, m.events.iter().map(|x| x.0.as_str()).collect()),
    ] {
        dups(names.into_iter(), |n| {
            out.push(Error::DuplicatedAffordance {
                ty,
                name: n.to_string(),
            })
        });
    }
    for (_, p) in &m.props {
        aff(&p.aff, Where::Property, m, &mut out);
        schema(&p.schema, &mut out);
    }
    for (_, a) in &m.actions {
        aff(&a.aff, Where::Action, m, &mut out);
        [&a.input, &a.output].into_iter().flatten().for_each(|s| schema(s, &mut out));
    }
    for (_, e) in &m.events {
        aff(&e.aff, Where::Event, m, &mut out);
        [&e.subscription, &e.data, &e.data_response, &e.cancellation]
            .into_iter()
            .flatten()
            .for_each(|s| schema(s, &mut out));
    }
    out
}
