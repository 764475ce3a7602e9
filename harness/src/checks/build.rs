//! P01 round trip, P03 fidelity of the builder, P11 extensions, P21 contexts.

use serde_json::{json, Value};
use wot_td::{
    hlist::Nil,
    thing::{ArraySchema, BoxedElemOrVec, DataSchemaSubtype, ObjectSchema, Thing},
};

use super::*;
use crate::{
    doc::{self, Node, Seg},
    engine::{arm, Check, Ctx, Outcome, Src},
    expect,
    ext::{DataSchemaFromOther, Pt, XSet},
    gen, inject, with_set,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P01",
            rule: "the built Thing has at least one affordance, form, link, schema definition or URI variable \
                   (schema arm: a data schema with parts, limits, constants or extension data)",
            assumptions: &[
                "numbers are finite (JSON has no other)",
                "extension data serialises as an object whose members are its own",
                "text nesting below the 128 levels serde_json reads",
            ],
            arms: vec![
                arm("thing", p01_thing, 30_000, 1_500_000),
                arm("schema", p01_schema, 30_000, 1_500_000),
                arm("one-of-each", p01_each, 20_000, 800_000),
            ],
            known: vec![],
        },
        Check {
            id: "P03",
            rule: "the description has at least one affordance, form, link, schema definition or URI variable",
            assumptions: &["the member `data_response` of events is the known finding KF-EVENT-DATA-RESPONSE"],
            arms: vec![
                arm("thing", p03_thing, 40_000, 2_000_000),
                arm("schema", p03_schema, 30_000, 1_500_000),
                arm("one-of-each", p03_each, 20_000, 800_000),
            ],
            known: vec![crate::engine::Known {
                id: "KF-EVENT-DATA-RESPONSE",
                what: "the dataResponse schema of an event is written as `data_response`",
                still_fails: kf_data_response,
            }],
        },
        Check {
            id: "P11",
            rule: "the description uses the extensions at three or more of the ten extension points",
            assumptions: &["extension pieces are those of the harness: mandatory, optional, list, map and free-form members"],
            arms: vec![
                arm("carry", p11_carry, 30_000, 1_200_000),
                arm("mandatory", p11_mandatory, 20_000, 800_000),
                arm("schema", p11_schema, 20_000, 800_000),
            ],
            known: vec![],
        },
        Check {
            id: "P21",
            rule: "the builder is given at least one context, or the document has one which is not the TD 1.1 IRI",
            assumptions: &["the prefixes of one namespace map are distinct"],
            arms: vec![
                arm("builder", p21_builder, 40_000, 1_500_000),
                arm("document", p21_document, 20_000, 800_000),
            ],
            known: vec![],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// P01

fn round_trip<X: XSet>(m: &MThing, o: &mut drive::Order, c: &mut Ctx) -> Outcome {
    let t = built::<X>(m, o)?;
    let text = serde_json::to_string(&t).map_err(|e| format!("does not serialise: {e}"))?;
    c.show("json", || text.clone());
    let strict = expect::strict_json(&text).map_err(|e| format!("the text is not well-formed JSON: {e}"))?;
    let v = to_value(&t)?;
    if let Some(d) = expect::diff(&strict, &v) {
        return Err(format!("text and value differ: {d}"));
    }
    if has_content(m) {
        c.nontrivial(v.to_string());
    }
    let pretty = serde_json::to_string_pretty(&t).map_err(|e| e.to_string())?;
    let mut parsed: Vec<(&str, Thing<X>)> = vec![
        ("text", from_text(&text)?),
        ("value", from_value(&v)?),
    ];
    parsed.push((
        "bytes",
        serde_json::from_slice(text.as_bytes()).map_err(|e| format!("bytes are refused: {e}"))?,
    ));
    parsed.push(("pretty text", from_text(&pretty)?));
    parsed.push((
        "reader",
        serde_json::from_reader(text.as_bytes()).map_err(|e| format!("a reader is refused: {e}"))?,
    ));
    for (how, p) in &parsed {
        c.evals += 1;
        if *p != t {
            return Err(format!("the Thing parsed back from {how} is not equal"));
        }
        let again = to_value(p)?;
        if let Some(d) = expect::diff(&v, &again) {
            return Err(format!("serialising the Thing parsed from {how} again differs: {d}"));
        }
    }
    Ok(())
}

fn p01_thing(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = any_thing(s);
    let mut o = some_order(s);
    with_set!(m.set, X => round_trip::<X>(&m, &mut o, c))
}

fn p01_each(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = one_of_each(s);
    let mut o = some_order(s);
    with_set!(m.set, X => round_trip::<X>(&m, &mut o, c))
}

/// A small description around one or a few parts, so that every single part comes up alone.
pub fn one_of_each(s: &mut Src) -> MThing {
    let set = any_set(s);
    let mut m = MThing::new(set, gen::string(s));
    let mut g = crate::model::Gen::new(set, s);
    g.rich = *s.pick(&[15, 40]);
    for _ in 0..1 + s.below(2) {
        let all = g.thing(s);
        match s.below(15) {
            0 => m.props = all.props,
            1 => m.actions = all.actions,
            2 => m.events = all.events,
            3 => m.links = all.links,
            4 => m.secs = all.secs,
            5 => m.uri = all.uri,
            6 => m.schemas = all.schemas,
            7 => m.forms = all.forms,
            8 => m.hr = all.hr,
            9 => {
                m.created = all.created;
                m.modified = all.modified;
                m.version = all.version;
            }
            10 => m.context = all.context,
            11 => {
                m.id = all.id;
                m.support = all.support;
                m.base = all.base;
                m.profile = all.profile;
            }
            12 => inject::place(&mut m, Role::Prop, g.schema(s, 2, false), &g, s),
            13 => inject::place(&mut m, Role::ActIn, g.schema(s, 2, false), &g, s),
            _ => inject::place(&mut m, Role::Def, g.schema(s, 3, false), &g, s),
        }
    }
    settle(&mut m);
    m
}

use inject::Role;

/// Forget references to what is not there, and what the builder cannot be told.
pub fn settle(m: &mut MThing) {
    let secs: Vec<String> = m.secs.iter().map(|x| x.name().to_string()).collect();
    let schemas: Vec<String> = m.schemas.iter().map(|x| x.0.clone()).collect();
    visit_forms(m, &mut |f, _| {
        f.security.retain(|n| secs.contains(n));
        for a in &mut f.addl {
            if a.schema.as_ref().is_some_and(|n| !schemas.contains(n)) {
                a.schema = None;
            }
        }
    });
    for x in &mut m.secs {
        if let SecKind::Combo { names, .. } = &mut x.kind {
            names.retain(|n| secs.contains(n));
        }
    }
    for (_, p) in &mut m.props {
        if let Kind::Str {
            min,
            max,
            pattern,
            enc,
            media,
        } = &mut p.schema.kind
        {
            (*min, *max, *pattern, *enc, *media) = (None, None, None, None, None);
        }
    }
}

pub fn schema_weight(m: &MSchema) -> bool {
    !matches!(m.kind, Kind::Bool | Kind::Null) || *m != MSchema::plain(m.kind.clone())
}

pub fn some_schema(s: &mut Src) -> (Set, MSchema) {
    let set = any_set(s);
    let g = crate::model::Gen::new(set, s);
    let depth = g.depth;
    (set, g.schema(s, depth, false))
}

pub fn built_schema<X: XSet>(m: &MSchema, o: &mut drive::Order) -> Result<DataSchemaFromOther<X>, String> {
    drive::standalone::<X>(m, o).map_err(|e| format!("a valid data schema did not build: {e}"))
}

fn schema_round_trip<X: XSet>(m: &MSchema, o: &mut drive::Order, c: &mut Ctx) -> Outcome {
    let d = built_schema::<X>(m, o)?;
    let text = serde_json::to_string(&d).map_err(|e| e.to_string())?;
    c.show("json", || text.clone());
    let strict = expect::strict_json(&text).map_err(|e| format!("the text is not well-formed JSON: {e}"))?;
    let v = serde_json::to_value(&d).map_err(|e| e.to_string())?;
    if let Some(d) = expect::diff(&strict, &v) {
        return Err(format!("text and value differ: {d}"));
    }
    if schema_weight(m) {
        c.nontrivial(&text);
    }
    let a: DataSchemaFromOther<X> = serde_json::from_str(&text).map_err(|e| format!("refused: {e}"))?;
    let b: DataSchemaFromOther<X> = serde_json::from_value(v.clone()).map_err(|e| format!("refused: {e}"))?;
    for (how, p) in [("text", a), ("value", b)] {
        if p != d {
            return Err(format!("the data schema parsed back from {how} is not equal"));
        }
        let again = serde_json::to_value(&p).map_err(|e| e.to_string())?;
        if let Some(d) = expect::diff(&v, &again) {
            return Err(format!("serialising what was parsed from {how} differs: {d}"));
        }
    }
    Ok(())
}

fn p01_schema(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, m) = some_schema(s);
    let mut o = some_order(s);
    with_set!(set, X => schema_round_trip::<X>(&m, &mut o, c))
}

// ---------------------------------------------------------------------------------------------
// P03

fn fidelity<X: XSet>(m: &MThing, o: &mut drive::Order, c: &mut Ctx) -> Outcome {
    let want = expect::thing::<X>(m);
    show_doc(c, "expected", &want);
    let t = built::<X>(m, o)?;
    let got = to_value(&t)?;
    if has_content(m) {
        c.nontrivial(want.to_string());
    }
    same_doc("the JSON is not what the builder was told", &want, &got)
}

fn p03_thing(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = any_thing(s);
    let mut o = some_order(s);
    with_set!(m.set, X => fidelity::<X>(&m, &mut o, c))
}

fn p03_each(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = one_of_each(s);
    let mut o = some_order(s);
    with_set!(m.set, X => fidelity::<X>(&m, &mut o, c))
}

fn schema_fidelity<X: XSet>(m: &MSchema, o: &mut drive::Order, c: &mut Ctx) -> Outcome {
    let mut want = expect::schema::<X>(m);
    show_doc(c, "expected", &want);
    if schema_weight(m) {
        c.nontrivial(want.to_string());
    }
    let d = built_schema::<X>(m, o)?;
    let mut got = serde_json::to_value(&d).map_err(|e| e.to_string())?;
    expect::canon_schema(&mut want);
    expect::canon_schema(&mut got);
    match expect::diff(&want, &got) {
        None => Ok(()),
        Some(d) => Err(format!("the JSON is not what the builder was told: {d}")),
    }
}

fn p03_schema(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, m) = some_schema(s);
    let mut o = some_order(s);
    with_set!(set, X => schema_fidelity::<X>(&m, &mut o, c))
}

pub fn kf_data_response() -> bool {
    let doc = json!({"title": "t", "security": [], "securityDefinitions": {},
        "events": {"e": {"forms": [], "dataResponse": {"type": "null"}}}});
    let Ok(t) = serde_json::from_value::<Thing>(doc) else {
        return false;
    };
    let v = serde_json::to_value(&t).unwrap();
    v["events"]["e"].get("data_response").is_some() && v["events"]["e"].get("dataResponse").is_none()
}

// ---------------------------------------------------------------------------------------------
// P11

/// Compare the extension data reached at a place with what was attached there.
struct Reach<'a> {
    count: usize,
    err: Option<String>,
    at: &'a str,
}

impl Reach<'_> {
    fn eq<X: XSet, T: serde::Serialize>(&mut self, pt: Pt, x: &XData, got: &T) {
        self.count += 1;
        let mut want = serde_json::Map::new();
        X::members(pt, x, &mut want);
        let want = Value::Object(want);
        match serde_json::to_value(got) {
            Ok(got) => {
                let got = if got.is_null() { json!({}) } else { got };
                if let (None, Some(d)) = (&self.err, expect::diff(&want, &got)) {
                    self.err = Some(format!("{} extension data {}: {d}", pt.name(), self.at));
                }
            }
            Err(e) => self.err = Some(e.to_string()),
        }
    }

    fn missing(&mut self, what: &str) {
        self.err.get_or_insert(format!("{what} is missing {}", self.at));
    }

    fn schema<X: XSet>(&mut self, m: &MSchema, d: &DataSchemaFromOther<X>) {
        self.eq::<X, _>(Pt::Ds, &m.x, &d.other);
        match (&m.kind, &d.subtype) {
            (Kind::Vec { item, .. }, Some(DataSchemaSubtype::Array(a))) => {
                self.eq::<X, _>(Pt::As, &m.xk, &array_other::<X>(a));
                match (item, &a.items) {
                    (Some(i), Some(BoxedElemOrVec::Elem(e))) => self.schema::<X>(i, e),
                    (None, None) => {}
                    _ => self.missing("an item"),
                }
            }
            (Kind::Tuple(v), Some(DataSchemaSubtype::Array(a))) => {
                self.eq::<X, _>(Pt::As, &m.xk, &array_other::<X>(a));
                match &a.items {
                    Some(BoxedElemOrVec::Vec(w)) if w.len() == v.len() => {
                        v.iter().zip(w).for_each(|(m, d)| self.schema::<X>(m, d))
                    }
                    None if v.is_empty() => {}
                    _ => self.missing("an item"),
                }
            }
            (Kind::Obj(v), Some(DataSchemaSubtype::Object(o))) => {
                self.eq::<X, _>(Pt::Os, &m.xk, &object_other::<X>(o));
                for (n, _, m) in v {
                    match o.properties.as_ref().and_then(|p| p.get(n)) {
                        Some(d) => self.schema::<X>(m, d),
                        None => self.missing("a member"),
                    }
                }
            }
            (Kind::Vec { .. } | Kind::Tuple(_) | Kind::Obj(_), _) => self.missing("a subtype"),
            (Kind::OneOf(v), _) => match &d.one_of {
                Some(w) if w.len() == v.len() => v.iter().zip(w).for_each(|(m, d)| self.schema::<X>(m, d)),
                _ => self.missing("an alternative"),
            },
            _ => {}
        }
    }

    fn opt<X: XSet>(&mut self, m: &Option<MSchema>, d: &Option<DataSchemaFromOther<X>>) {
        match (m, d) {
            (Some(m), Some(d)) => self.schema::<X>(m, d),
            (None, None) => {}
            _ => self.missing("a data schema"),
        }
    }

    fn forms<X: XSet>(&mut self, m: &[MForm], d: &[wot_td::thing::Form<X>]) {
        if m.len() != d.len() {
            return self.missing("a form");
        }
        for (m, d) in m.iter().zip(d) {
            self.eq::<X, _>(Pt::Form, &m.x, &d.other);
            match (&m.response, &d.response) {
                (Some((_, x)), Some(r)) => self.eq::<X, _>(Pt::Resp, x, &r.other),
                (None, None) => {}
                _ => self.missing("a response"),
            }
        }
    }

    fn aff<X: XSet>(&mut self, m: &MAff, d: &wot_td::thing::InteractionAffordance<X>) {
        self.eq::<X, _>(Pt::Ia, &m.x, &d.other);
        self.forms::<X>(&m.forms, &d.forms);
        for (n, u) in &m.uri {
            match d.uri_variables.as_ref().and_then(|v| v.get(n)) {
                Some(d) => self.schema::<X>(u, d),
                None => self.missing("a URI variable"),
            }
        }
    }

    fn thing<X: XSet>(&mut self, m: &MThing, t: &Thing<X>) {
        self.eq::<X, _>(Pt::Thing, &m.x, &t.other);
        self.forms::<X>(&m.forms, t.forms.as_deref().unwrap_or_default());
        for (n, x) in &m.props {
            match t.properties.as_ref().and_then(|v| v.get(n)) {
                Some(p) => {
                    self.aff::<X>(&x.aff, &p.interaction);
                    self.eq::<X, _>(Pt::Prop, &x.x, &p.other);
                    self.schema::<X>(&x.schema, &p.data_schema);
                }
                None => self.missing("a property"),
            }
        }
        for (n, x) in &m.actions {
            match t.actions.as_ref().and_then(|v| v.get(n)) {
                Some(p) => {
                    self.aff::<X>(&x.aff, &p.interaction);
                    self.eq::<X, _>(Pt::Act, &x.x, &p.other);
                    self.opt::<X>(&x.input, &p.input);
                    self.opt::<X>(&x.output, &p.output);
                }
                None => self.missing("an action"),
            }
        }
        for (n, x) in &m.events {
            match t.events.as_ref().and_then(|v| v.get(n)) {
                Some(p) => {
                    self.aff::<X>(&x.aff, &p.interaction);
                    self.eq::<X, _>(Pt::Evt, &x.x, &p.other);
                    self.opt::<X>(&x.subscription, &p.subscription);
                    self.opt::<X>(&x.data, &p.data);
                    self.opt::<X>(&x.data_response, &p.data_response);
                    self.opt::<X>(&x.cancellation, &p.cancellation);
                }
                None => self.missing("an event"),
            }
        }
        for (ms, ds) in [(&m.uri, &t.uri_variables), (&m.schemas, &t.schema_definitions)] {
            for (n, x) in ms {
                match ds.as_ref().and_then(|v| v.get(n)) {
                    Some(d) => self.schema::<X>(x, d),
                    None => self.missing("a data schema"),
                }
            }
        }
    }
}

/// The extension data of an array schema is private: it is seen through what it adds to the JSON.
fn array_other<X: XSet>(a: &ArraySchema<X::D, X::A, X::O>) -> Value {
    let mut v = serde_json::to_value(a).unwrap();
    let o = v.as_object_mut().unwrap();
    for k in ["items", "minItems", "maxItems"] {
        o.remove(k);
    }
    v
}

fn object_other<X: XSet>(a: &ObjectSchema<X::D, X::A, X::O>) -> Value {
    let mut v = serde_json::to_value(a).unwrap();
    let o = v.as_object_mut().unwrap();
    for k in ["properties", "required"] {
        o.remove(k);
    }
    v
}

fn points(m: &MThing) -> usize {
    // at least the Thing and what it has
    let mut n = 1;
    n += usize::from(!m.props.is_empty()) * 3;
    n += usize::from(!m.actions.is_empty()) * 2;
    n += usize::from(!m.events.is_empty()) * 2;
    n += usize::from(!m.forms.is_empty());
    n
}

fn carry<X: XSet>(m: &MThing, o: &mut drive::Order, c: &mut Ctx) -> Outcome {
    let t = built::<X>(m, o)?;
    let v = to_value(&t)?;
    show_doc(c, "json", &v);
    let want = expect::thing::<X>(m);
    same_doc("extension or standard data is not where it was put", &want, &v)?;
    if points(m) >= 3 {
        c.nontrivial(v.to_string());
    }
    let p: Thing<X> = from_value(&v)?;
    if p != t {
        return Err("the Thing parsed back is not equal".into());
    }
    for (at, t) in [("in the built Thing", &t), ("after parsing", &p)] {
        let mut r = Reach {
            count: 0,
            err: None,
            at,
        };
        r.thing::<X>(m, t);
        c.evals += r.count as u64;
        if let Some(e) = r.err {
            return Err(e);
        }
    }
    // the same document as a Thing without extensions: the standard part is undisturbed
    let plain: Thing<Nil> = serde_json::from_value(v.clone()).map_err(|e| format!("refused without extensions: {e}"))?;
    let mut bare = m.clone();
    bare.set = Set::Nil;
    let want = expect::thing::<Nil>(&bare);
    same_doc("read without the extensions", &want, &serde_json::to_value(&plain).unwrap())
}

fn p11_carry(s: &mut Src, c: &mut Ctx) -> Outcome {
    let set = *s.pick(&[Set::AB, Set::A, Set::P]);
    let m = crate::model::Gen::new(set, s).thing(s);
    let mut o = some_order(s);
    match set {
        Set::AB => carry::<crate::ext::XAB>(&m, &mut o, c),
        Set::A => carry::<crate::ext::XA>(&m, &mut o, c),
        _ => carry::<crate::ext::XP>(&m, &mut o, c),
    }
}

fn p11_schema(s: &mut Src, c: &mut Ctx) -> Outcome {
    let set = *s.pick(&[Set::AB, Set::A]);
    let g = crate::model::Gen::new(set, s);
    let m = g.schema(s, 4, false);
    let mut o = some_order(s);
    fn go<X: XSet>(m: &MSchema, o: &mut drive::Order, c: &mut Ctx) -> Outcome {
        let d = built_schema::<X>(m, o)?;
        let text = serde_json::to_string(&d).unwrap();
        c.show("json", || text.clone());
        let p: DataSchemaFromOther<X> = serde_json::from_str(&text).map_err(|e| format!("refused: {e}"))?;
        for (at, d) in [("in the built schema", &d), ("after parsing", &p)] {
            let mut r = Reach {
                count: 0,
                err: None,
                at,
            };
            r.schema::<X>(m, d);
            c.evals += r.count as u64;
            if r.count >= 3 {
                c.nontrivial(&text);
            }
            if let Some(e) = r.err {
                return Err(e);
            }
        }
        Ok(())
    }
    if set == Set::AB {
        go::<crate::ext::XAB>(&m, &mut o, c)
    } else {
        go::<crate::ext::XA>(&m, &mut o, c)
    }
}

/// Without the mandatory member of an extension, at any place, the document is refused.
fn p11_mandatory(s: &mut Src, c: &mut Ctx) -> Outcome {
    let set = *s.pick(&[Set::AB, Set::A]);
    let m = crate::model::Gen::new(set, s).thing(s);
    let mut v = if set == Set::AB {
        expect::thing::<crate::ext::XAB>(&m)
    } else {
        expect::thing::<crate::ext::XA>(&m)
    };
    // find every mandatory member
    let mut at: Vec<(doc::Path, String)> = vec![];
    for (node, p) in doc::nodes(&v) {
        let mut keys: Vec<&str> = match node {
            Node::Thing => vec!["a:thing"],
            Node::Aff(Where::Property) => vec!["a:ia", "a:prop"],
            Node::Aff(Where::Action) => vec!["a:ia", "a:act"],
            Node::Aff(_) => vec!["a:ia", "a:evt"],
            Node::Form(_) => vec!["a:form"],
            Node::Resp => vec!["a:resp"],
            Node::Schema { .. } => vec!["a:ds"],
            _ => vec![],
        };
        if let Node::Schema { .. } = node {
            match doc::at(&v, &p)["type"].as_str() {
                Some("array") => keys.push("a:as"),
                Some("object") => keys.push("a:os"),
                _ => {}
            }
        }
        for k in keys {
            if doc::at(&v, &p).get(k).is_none() {
                return Err(format!("harness: {k} is not at {}", doc::show(&p)));
            }
            at.push((p.clone(), k.to_string()));
        }
    }
    let (p, k) = s.pick(&at).clone();
    let wrong = match s.below(3) {
        0 => {
            doc::obj_mut(&mut v, &p).remove(&k);
            "without"
        }
        1 => {
            doc::obj_mut(&mut v, &p).insert(k.clone(), json!(7));
            "with a number for"
        }
        _ => {
            doc::obj_mut(&mut v, &p).insert(k.clone(), json!(["x"]));
            "with a list for"
        }
    };
    show_doc(c, "document", &v);
    let mut q = p.clone();
    q.push(Seg::K(k.clone()));
    c.nontrivial((doc::show(&q), wrong, v.to_string()));
    let ok = if set == Set::AB {
        from_text::<crate::ext::XAB>(&v.to_string()).is_ok() || from_value::<crate::ext::XAB>(&v).is_ok()
    } else {
        from_text::<crate::ext::XA>(&v.to_string()).is_ok() || from_value::<crate::ext::XA>(&v).is_ok()
    };
    if ok {
        return Err(format!("accepted {wrong} the mandatory {}", doc::show(&q)));
    }
    // and it is none of the business of a Thing without extensions
    from_value::<Nil>(&v).map(|_| ()).map_err(|e| format!("without extensions: {e}"))
}

// ---------------------------------------------------------------------------------------------
// P21

fn p21_builder(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let mut g = crate::model::Gen::new(m.set, s);
    g.rich = 90;
    m.context = g.context(s);
    if s.chance(30) {
        m.context.extend(g.context(s));
    }
    let mut o = some_order(s);
    let want = expect::context(&m.context);
    if !m.context.is_empty() {
        c.nontrivial((want.to_string(), m.context.len()));
    }
    show_doc(c, "expected context", &want);
    with_set!(m.set, X => {
        let t = built::<X>(&m, &mut o)?;
        let v = to_value(&t)?;
        for (what, got) in [("field", &t.context), ("JSON", &v["@context"])] {
            if let Some(d) = expect::diff(&want, got) {
                return Err(format!("context in the {what}: {d}"));
            }
        }
        let back = from_value::<X>(&v)?;
        if back.context != want {
            return Err("the context parsed back differs".into());
        }
        Ok(())
    })
}

fn p21_document(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut d = doc::nil_document(s);
    let ctx = match s.below(6) {
        0 => None,
        1 => Some(json!(TD11)),
        2 => Some(json!([TD11])),
        3 => Some(json!([{"saref": "https://w3id.org/saref#", "@language": "en"}, TD11, {"x": {"@id": "y", "@type": "@id"}}])),
        4 => Some(json!("https://www.w3.org/2019/wot/td/v1")),
        _ => Some(gen::json(s, 4)),
    };
    match &ctx {
        None => d.as_object_mut().unwrap().remove("@context"),
        Some(v) => d.as_object_mut().unwrap().insert("@context".into(), v.clone()),
    };
    let want = ctx.unwrap_or(json!(TD11));
    if want != json!(TD11) {
        c.nontrivial(want.to_string());
    }
    show_doc(c, "context", &want);
    for (how, t) in [
        ("text", from_text::<Nil>(&d.to_string())?),
        ("value", from_value::<Nil>(&d)?),
    ] {
        if let Some(x) = expect::diff(&want, &t.context) {
            return Err(format!("context read from {how}: {x}"));
        }
        let v = to_value(&t)?;
        if let Some(x) = expect::diff(&want, &v["@context"]) {
            return Err(format!("context written after reading from {how}: {x}"));
        }
    }
    Ok(())
}
