//! P24: copies, hashes, defaults and debug texts of the parts of a Thing.

use std::{
    collections::hash_map::DefaultHasher,
    fmt::Debug,
    hash::{Hash, Hasher},
};

use serde::{de::DeserializeOwned, Serialize};
use serde_json::json;
use wot_td::{
    hlist::Nil,
    protocol::{coap, http, mqtt},
    thing::*,
};

use super::*;
use crate::{
    engine::{arm, arm_all, Check, Ctx, Outcome, Src},
    expect,
    ext::{XSet, XP},
    gen,
    with_set,
};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P24",
        rule: "the description has at least one affordance, form, link, schema definition or URI variable (schemas: at least one setting besides the type; defaults: every case)",
        assumptions: &[
            "a debug text is only asked to mention the texts held, in any form of presentation, and to differ for Things that differ",
            "only types which can be cloned, hashed or defaulted are asked for it",
        ],
        arms: vec![
            arm("parts", p24_parts, 15_000, 1_000_000),
            arm("few", p24_few, 20_000, 1_500_000),
            arm("apart", p24_apart, 40_000, 2_000_000),
            arm("schemas", p24_schemas, 20_000, 1_000_000),
            arm("bindings", p24_bindings, 10_000, 500_000),
            arm("errors", p24_errors, 10_000, 500_000),
            arm_all("words", p24_words, 1),
            arm_all("defaults", p24_defaults, DEFAULTS),
        ],
        known: vec![],
    }]
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Copies of some values of one type, each made anew and over another one.
fn copies<T: Clone + PartialEq + Serialize>(what: &str, parts: &[&T], c: &mut Ctx) -> Outcome {
    for (i, &t) in parts.iter().enumerate() {
        c.evals += 1;
        let v = serde_json::to_value(t).map_err(|e| format!("{what} does not serialise: {e}"))?;
        let mut over = parts[(i + 1) % parts.len()].clone();
        over.clone_from(t);
        for (how, k) in [("a copy", t.clone()), ("a copy of a copy", t.clone().clone()), ("a copy over another", over)] {
            if k != *t || *t != k {
                return Err(format!("{what}: {how} is not equal to the original {v}"));
            }
            let w = serde_json::to_value(&k).map_err(|e| format!("{what}: {how} does not serialise: {e}"))?;
            if let Some(d) = expect::diff(&v, &w) {
                return Err(format!("{what}: {how} differs from the original {v}: {d}"));
            }
        }
    }
    Ok(())
}

/// A text which is nearly the same, in some ways.
fn near_texts(t: &str) -> Vec<String> {
    let flip = |t: &str| -> String {
        t.chars()
            .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect()
    };
    let mut v = vec![flip(t), format!("{t} "), format!(" {t}"), t.trim().to_owned(), format!("{t}/"), String::new()];
    if let Some(last) = t.chars().last() {
        v.push(t[..t.len() - last.len_utf8()].to_owned());
    }
    v
}

/// JSON values that differ a little from this one.
fn near(v: &Value) -> Vec<Value> {
    match v {
        Value::String(t) => near_texts(t).into_iter().map(Value::from).collect(),
        Value::Number(n) => match n.as_i64() {
            Some(i) => vec![json!(i.wrapping_add(1)), json!(i.wrapping_neg()), json!(-0.0)],
            None => n.as_f64().map(|f| vec![json!(-f), json!(f * (1. + f64::EPSILON)), json!(f.round())]).unwrap_or_default(),
        },
        Value::Bool(b) => vec![json!(!b)],
        Value::Null => vec![],
        Value::Array(a) => {
            let mut all = vec![json!([])];
            let mut r = a.clone();
            r.reverse();
            all.push(Value::Array(r));
            let mut r = a.clone();
            r.extend(a.first().cloned());
            all.push(Value::Array(r));
            let mut r = a.clone();
            r.dedup();
            all.push(Value::Array(r));
            if let Some(i) = a.len().checked_sub(1) {
                for x in near(&a[i]) {
                    let mut r = a.clone();
                    r[i] = x;
                    all.push(Value::Array(r));
                }
            }
            all
        }
        Value::Object(o) => {
            let mut all = vec![];
            for (k, x) in o {
                let mut r = o.clone();
                r.remove(k);
                all.push(Value::Object(r));
                for y in near(x) {
                    let mut r = o.clone();
                    r.insert(k.clone(), y);
                    all.push(Value::Object(r));
                }
            }
            all
        }
    }
}

/// Equal values have equal hashes.
fn hashes<T: Clone + PartialEq + Serialize + DeserializeOwned + Hash>(what: &str, parts: &[&T], c: &mut Ctx) -> Outcome {
    for (i, &t) in parts.iter().enumerate() {
        c.evals += 1;
        let v = serde_json::to_value(t).map_err(|e| format!("{what} does not serialise: {e}"))?;
        let mut made: Vec<T> = serde_json::from_value(v.clone()).into_iter().collect();
        if i < 2 {
            made.extend(near(&v).into_iter().take(60).filter_map(|v| serde_json::from_value(v).ok()));
        }
        let others = parts[i..].iter().take(4).copied().chain(&made);
        for u in others.chain([&t.clone()]) {
            if u == t && hash(u) != hash(t) {
                return Err(format!("{what}: two equal values have different hashes: {v}"));
            }
        }
    }
    Ok(())
}

/// Texts a value holds, as far as they are texts for the library as well.
fn texts<'a>(v: &'a Value, out: &mut Vec<&'a str>) {
    match v {
        Value::String(t) => out.push(t),
        Value::Array(a) => a.iter().for_each(|x| texts(x, out)),
        Value::Object(o) => {
            for (k, x) in o {
                let word = matches!(&k[..], "type" | "scheme" | "op" | "in" | "qop" | "created" | "modified")
                    || ["htv:", "cov:", "mqv:"].iter().any(|p| k.starts_with(p));
                if !word {
                    texts(x, out);
                }
            }
        }
        _ => {}
    }
}

fn mentions<T: Debug + Serialize>(what: &str, t: &T, c: &mut Ctx) -> Outcome {
    c.evals += 1;
    let v = serde_json::to_value(t).map_err(|e| format!("{what} does not serialise: {e}"))?;
    let mut all = vec![];
    texts(&v, &mut all);
    let plain = format!("{t:?}");
    let pretty = format!("{t:#?}");
    for s in all {
        let q = format!("{s:?}");
        if !plain.contains(&q) || !pretty.contains(&q) {
            return Err(format!("{what}: the debug text does not mention {q}: {plain}"));
        }
    }
    Ok(())
}

type Schema<X> = DataSchema<<X as XSet>::D, <X as XSet>::A, <X as XSet>::O>;

fn within<'a, X: XSet>(d: &'a Schema<X>, out: &mut Vec<&'a Schema<X>>) {
    out.push(d);
    for x in d.one_of.iter().flatten() {
        within::<X>(x, out);
    }
    match &d.subtype {
        Some(DataSchemaSubtype::Array(a)) => match &a.items {
            Some(BoxedElemOrVec::Elem(x)) => within::<X>(x, out),
            Some(BoxedElemOrVec::Vec(v)) => v.iter().for_each(|x| within::<X>(x, out)),
            None => {}
        },
        Some(DataSchemaSubtype::Object(o)) => o.properties.iter().flatten().for_each(|(_, x)| within::<X>(x, out)),
        _ => {}
    }
}

fn schemas<X: XSet>(roots: Vec<&Schema<X>>, c: &mut Ctx) -> Outcome {
    let mut all = vec![];
    for d in &roots {
        within::<X>(d, &mut all);
    }
    copies("a data schema", &roots, c)?;
    copies("a data schema", &all, c)?;
    let kinds: Vec<_> = all.iter().filter_map(|d| d.subtype.as_ref()).collect();
    copies("the type of a data schema", &kinds, c)?;
    let (mut arrays, mut objects, mut numbers, mut integers, mut strings) = (vec![], vec![], vec![], vec![], vec![]);
    for k in kinds {
        match k {
            DataSchemaSubtype::Array(x) => arrays.push(x),
            DataSchemaSubtype::Object(x) => objects.push(x),
            DataSchemaSubtype::Number(x) => numbers.push(x),
            DataSchemaSubtype::Integer(x) => integers.push(x),
            DataSchemaSubtype::String(x) => strings.push(x),
            _ => {}
        }
    }
    copies("an array schema", &arrays, c)?;
    copies("the items of an array schema", &arrays.iter().filter_map(|a| a.items.as_ref()).collect::<Vec<_>>(), c)?;
    copies("an object schema", &objects, c)?;
    copies("a number schema", &numbers, c)?;
    copies("an integer schema", &integers, c)?;
    hashes("an integer schema", &integers, c)?;
    copies("a string schema", &strings, c)?;
    let (min, max): (Vec<_>, Vec<_>) = (
        integers.iter().filter_map(|i| i.minimum.as_ref()).collect(),
        integers.iter().filter_map(|i| i.maximum.as_ref()).collect(),
    );
    copies("a minimum", &min, c)?;
    hashes("a minimum", &min, c)?;
    copies("a maximum", &max, c)?;
    hashes("a maximum", &max, c)?;
    for d in roots {
        mentions("a data schema", d, c)?;
    }
    Ok(())
}

fn forms<X: XSet>(all: &[&Form<X>], c: &mut Ctx) -> Outcome {
    copies("a form", all, c)?;
    let ops: Vec<_> = all.iter().map(|f| &f.op).collect();
    copies("the operations of a form", &ops, c)?;
    hashes("the operations of a form", &ops, c)?;
    let responses: Vec<_> = all.iter().filter_map(|f| f.response.as_ref()).collect();
    copies("an expected response", &responses, c)?;
    let more: Vec<_> = all.iter().flat_map(|f| f.additional_responses.iter().flatten()).collect();
    copies("an additional response", &more, c)?;
    for f in all {
        mentions("a form", f, c)?;
    }
    Ok(())
}

fn securities(all: &[&SecurityScheme], c: &mut Ctx) -> Outcome {
    use KnownSecuritySchemeSubtype as K;
    copies("a security definition", all, c)?;
    copies("a security scheme", &all.iter().map(|d| &d.subtype).collect::<Vec<_>>(), c)?;
    let known: Vec<_> = all
        .iter()
        .filter_map(|d| match &d.subtype {
            SecuritySchemeSubtype::Known(k) => Some(k),
            _ => None,
        })
        .collect();
    copies("a security scheme", &known, c)?;
    hashes("a security scheme", &known, c)?;
    for k in known {
        match k {
            K::Basic(x) => copies("a basic scheme", &[x], c)?,
            K::Digest(x) => copies("a digest scheme", &[x], c)?,
            K::Bearer(x) => copies("a bearer scheme", &[x], c)?,
            K::Psk(x) => copies("a psk scheme", &[x], c)?,
            K::OAuth2(x) => copies("an oauth2 scheme", &[x], c)?,
            K::ApiKey(x) => copies("an apikey scheme", &[x], c)?,
            K::Combo(x) => copies("a combo scheme", &[x], c)?,
            _ => {}
        }
    }
    for d in all {
        mentions("a security definition", d, c)?;
    }
    Ok(())
}

fn parts<X: XSet>(t: &Thing<X>, c: &mut Ctx) -> Outcome
where
    Thing<X>: Debug,
    PropertyAffordance<X>: Debug,
    ActionAffordance<X>: Debug,
    EventAffordance<X>: Debug,
    Form<X>: Debug,
{
    mentions("the Thing", t, c)?;
    let mut fs: Vec<&Form<X>> = t.forms.iter().flatten().collect();
    let mut ds: Vec<&Schema<X>> = t.schema_definitions.iter().flatten().map(|x| x.1).collect();
    ds.extend(t.uri_variables.iter().flatten().map(|x| x.1));
    let mut is = vec![];
    for p in t.properties.iter().flatten().map(|x| x.1) {
        mentions("a property", p, c)?;
        ds.push(&p.data_schema);
        is.push(&p.interaction);
    }
    for a in t.actions.iter().flatten().map(|x| x.1) {
        mentions("an action", a, c)?;
        ds.extend(a.input.iter().chain(&a.output));
        is.push(&a.interaction);
    }
    for e in t.events.iter().flatten().map(|x| x.1) {
        mentions("an event", e, c)?;
        ds.extend(e.subscription.iter().chain(&e.data).chain(&e.data_response).chain(&e.cancellation));
        is.push(&e.interaction);
    }
    for i in is {
        mentions("an interaction", i, c)?;
        fs.extend(&i.forms);
        ds.extend(i.uri_variables.iter().flatten().map(|x| x.1));
    }
    forms::<X>(&fs, c)?;
    schemas::<X>(ds, c)?;
    securities(&t.security_definitions.values().collect::<Vec<_>>(), c)?;
    let links: Vec<_> = t.links.iter().flatten().collect();
    copies("a link", &links, c)?;
    hashes("a link", &links, c)?;
    for l in links {
        mentions("a link", l, c)?;
    }
    let version: Vec<_> = t.version.iter().collect();
    copies("a version", &version, c)?;
    hashes("a version", &version, c)?;
    Ok(())
}

fn all_parts<X: XSet>(m: &MThing, o: &mut Order, c: &mut Ctx) -> Outcome {
    let t = built::<X>(m, o)?;
    let v = to_value(&t)?;
    show_doc(c, "json", &v);
    if has_content(m) {
        c.nontrivial(v.to_string());
    }
    parts::<X>(&t, c)?;
    parts::<X>(&from_value::<X>(&v)?, c)
}

fn p24_parts(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = any_thing(s);
    let mut o = some_order(s);
    with_set!(m.set, X => all_parts::<X>(&m, &mut o, c))
}

fn p24_few(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = super::build::one_of_each(s);
    let mut o = some_order(s);
    with_set!(m.set, X => all_parts::<X>(&m, &mut o, c))
}

/// What differs has different debug texts. Maps are written in any order, so a few tries are made
/// to get the same one for both.
fn apart<X: XSet>(d: &Value, e: &Value, c: &mut Ctx) -> Outcome
where
    Thing<X>: Debug,
{
    let read = |v: &Value| serde_json::from_value::<Thing<X>>(v.clone()).ok();
    let (Some(a), Some(b)) = (read(d), read(e)) else {
        return Ok(());
    };
    if a == b {
        return Ok(());
    }
    c.nontrivial((d.to_string(), e.to_string()));
    let text = format!("{a:?}");
    let sorted = |t: &str| {
        let mut n = [0usize; 256];
        t.bytes().for_each(|b| n[usize::from(b)] += 1);
        n
    };
    let mut other = format!("{b:?}");
    if sorted(&text) != sorted(&other) {
        return Ok(());
    }
    for _ in 0..8 {
        c.evals += 1;
        if text == other {
            return Err(format!("two Things which differ have the same debug text: {text}"));
        }
        other = match read(e) {
            Some(b) => format!("{b:?}"),
            None => return Ok(()),
        };
    }
    Ok(())
}

fn p24_apart(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d, e) = super::parse::two_documents(s);
    show_doc(c, "first document", &d);
    show_doc(c, "second document", &e);
    with_set!(set, X => apart::<X>(&d, &e, c))
}

/// The data of the protocol bindings.
fn p24_bindings(s: &mut Src, c: &mut Ctx) -> Outcome {
    let g = Gen::new(Set::P, s);
    let (a, b) = (g.x(s, true, false), g.x(s, true, false));
    let (p, q) = (g.x(s, false, true), g.x(s, false, true));
    if a != XData::default() || p != XData::default() {
        c.nontrivial(format!("{a:?} {p:?}"));
    }
    c.show("forms", || format!("{a:?} {b:?}"));
    c.show("responses", || format!("{p:?} {q:?}"));
    macro_rules! both {
        ($what:literal, $t:ty, $a:ident, $b:ident) => {{
            let (x, y) = (<$t>::from(&$a), <$t>::from(&$b));
            copies($what, &[&x, &y], c)?;
            hashes($what, &[&x, &y], c)?;
            mentions($what, &x, c)?;
        }};
    }
    both!("an HTTP form", http::Form, a, b);
    both!("a CoAP form", coap::Form, a, b);
    both!("an MQTT form", mqtt::Form, a, b);
    both!("an HTTP response", http::Response, p, q);
    both!("a CoAP response", coap::ExpectedResponse, p, q);
    Ok(())
}

/// Copies, equality and hashes of the errors of the builder.
fn p24_errors(s: &mut Src, c: &mut Ctx) -> Outcome {
    use wot_td::builder::{AffordanceType as A, Error as E, FormContext as C};
    // which one, two words of vocabularies and a text
    type Key = (usize, usize, usize, String);
    let error = |k: &Key| -> E {
        let t = k.3.clone();
        match k.0 {
            0 => E::DuplicatedSecurityDefinition(t),
            1 => E::MissingOpInForm,
            2 => E::InvalidOpInForm {
                context: [C::Thing, C::Property, C::Action, C::Event][k.1 % 4].clone(),
                operation: serde_json::from_value(json!(OPS[k.2 % OPS.len()].1)).expect("an operation"),
            },
            3 => E::UndefinedSecurity(t),
            4 => E::InvalidMinMax,
            5 => E::NanMinMax,
            6 => E::DuplicatedAffordance {
                ty: [A::Property, A::Action, A::Event][k.1 % 3],
                name: t,
            },
            7 => E::InvalidMultipleOf,
            8 => E::MissingSchemaDefinition(t),
            9 => E::InvalidUriVariables,
            10 => E::InvalidLanguageTag(t),
            _ => E::SizesWithRelNotIcon,
        }
    };
    let same = |a: &Key, b: &Key| {
        a.0 == b.0
            && match a.0 {
                2 => a.1 % 4 == b.1 % 4 && a.2 % OPS.len() == b.2 % OPS.len(),
                6 => a.1 % 3 == b.1 % 3 && a.3 == b.3,
                0 | 3 | 8 | 10 => a.3 == b.3,
                _ => true,
            }
    };
    let a: Key = (s.below(12), s.below(12), s.below(32), if s.chance(30) { gen::lang(s) } else { gen::string(s) });
    let mut b = a.clone();
    match s.below(5) {
        0 => b.0 = s.below(12),
        1 => b.1 = s.below(12),
        2 => b.2 = s.below(32),
        3 => b.3 = gen::string(s),
        _ => b.3 = s.pick(&near_texts(&a.3)).clone(),
    }
    c.nontrivial((&a, &b));
    let (x, y) = (error(&a), error(&b));
    c.show("errors", || format!("{x:?} {y:?}"));
    let mut over = y.clone();
    over.clone_from(&x);
    if x.clone() != x || over != x || x != x.clone().clone() || hash(&x) != hash(&x.clone()) || hash(&over) != hash(&x) {
        return Err(format!("a copy of {x:?} is not equal to it or has another hash"));
    }
    if (x == y) != same(&a, &b) || (y == x) != same(&a, &b) || (x != y) == same(&a, &b) {
        return Err(format!("{x:?} and {y:?} are held to be {}", if x == y { "equal" } else { "different" }));
    }
    if x == y && hash(&x) != hash(&y) {
        return Err(format!("{x:?} and {y:?} are equal and have different hashes"));
    }
    for (k, e) in [(&a, &x), (&b, &y)] {
        if matches!(k.0, 0 | 3 | 6 | 8 | 10) && !format!("{e:?}").contains(&format!("{:?}", k.3)) {
            return Err(format!("the debug text {e:?} does not mention {:?}", k.3));
        }
    }
    Ok(())
}

/// The words of all vocabularies: each is equal to itself only.
fn p24_words(_: &mut Src, c: &mut Ctx) -> Outcome {
    use wot_td::builder::{AffordanceType as A, FormContext as C};
    fn words<T: Clone + PartialEq + Hash + Debug>(all: &[T]) -> Outcome {
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                let k = b.clone();
                if (a == b) != (i == j) || (*a == k) != (i == j) || (format!("{a:?}") == format!("{b:?}")) != (i == j) {
                    return Err(format!("{a:?} and {b:?}, the words {i} and {j}, or their copies"));
                }
                if i == j && (hash(a) != hash(b) || hash(a) != hash(&k)) {
                    return Err(format!("{a:?} has two hashes"));
                }
            }
        }
        Ok(())
    }
    fn named<T: Clone + PartialEq + Hash + Debug + DeserializeOwned>(all: &[&str]) -> Outcome {
        let v: Result<Vec<T>, _> = all.iter().map(|w| serde_json::from_value(json!(w))).collect();
        words(&v.map_err(|e| format!("one of {all:?} is refused: {e}"))?)
    }
    c.nontrivial(0);
    words(&[A::Property, A::Action, A::Event])?;
    words(&[C::Thing, C::Property, C::Action, C::Event])?;
    named::<FormOperation>(&OPS.map(|o| o.1))?;
    named::<SecurityAuthenticationLocation>(&["header", "query", "body", "cookie", "uri"])?;
    named::<QualityOfProtection>(&["auth", "auth-int"])?;
    named::<http::Method>(&["GET", "PUT", "POST", "DELETE", "PATCH"])?;
    named::<coap::Method>(&["GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH"])?;
    named::<mqtt::ControlPacket>(&["mqv:publish", "mqv:subscribe", "mqv:unsubscribe"])?;
    named::<mqtt::QoS>(&["quality:0", "quality:1", "quality:2"])
}

fn lone_schema<X: XSet>(m: &MSchema, o: &mut Order, c: &mut Ctx) -> Outcome {
    let d = super::build::built_schema::<X>(m, o)?;
    show_doc(c, "json", &serde_json::to_value(&d).map_err(|e| e.to_string())?);
    schemas::<X>(vec![&d], c)
}

fn p24_schemas(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, m) = super::build::some_schema(s);
    let mut o = some_order(s);
    if super::build::schema_weight(&m) {
        c.nontrivial(format!("{m:?}"));
    }
    with_set!(set, X => lone_schema::<X>(&m, &mut o, c))
}

/// The default value is what the smallest document is read as, and round trips.
fn default<T: Default + PartialEq + Serialize + DeserializeOwned>(what: &str, least: Value) -> Outcome {
    let d = T::default();
    let p: T = serde_json::from_value(least.clone()).map_err(|e| format!("{what}: {least} is refused: {e}"))?;
    if d != p || p != d {
        return Err(format!(
            "{what}: the default value, written {}, is not what {least} is read as, written {}",
            serde_json::to_value(&d).unwrap_or_default(),
            serde_json::to_value(&p).unwrap_or_default()
        ));
    }
    let v = serde_json::to_value(&d).map_err(|e| format!("{what}: the default does not serialise: {e}"))?;
    let again: T = serde_json::from_value(v.clone()).map_err(|e| format!("{what}: the default, written {v}, is refused: {e}"))?;
    if again != d {
        return Err(format!("{what}: the default, written {v}, is read as something else"));
    }
    Ok(())
}

const DEFAULTS: u64 = 41;

/// A default builder is one which was told nothing.
fn default_builders() -> Outcome {
    use wot_td::builder::{affordance::*, data_schema::*, Extended};
    type Ds = DataSchemaBuilder<Nil, Nil, Nil, Extended>;
    type Partial = PartialDataSchemaBuilder<Nil, Nil, Nil, Extended>;
    let t = Thing::builder("t")
        .finish_extend()
        .property("p", |_| PropertyAffordanceBuilder::<Nil, Partial, Nil, Nil>::default().bool())
        .action("a", |_| ActionAffordanceBuilder::<Nil, Nil, Nil>::default())
        .event("e", |_| EventAffordanceBuilder::<Nil, Nil, Nil>::default())
        .schema_definition("s", |_| Ds::default().string())
        .build()
        .map_err(|e| format!("default builders are refused: {e}"))?;
    let want: Thing<Nil> = serde_json::from_value(json!({
        "title": "t", "security": [], "securityDefinitions": {},
        "properties": {"p": {"forms": [], "type": "boolean"}}, "actions": {"a": {"forms": []}}, "events": {"e": {"forms": []}},
        "schemaDefinitions": {"s": {"type": "string"}},
    }))
    .map_err(|e| e.to_string())?;
    if t != want {
        return Err(format!("default builders were told something: {}", serde_json::to_value(&t).unwrap_or_default()));
    }
    Ok(())
}

fn p24_defaults(s: &mut Src, c: &mut Ctx) -> Outcome {
    let i = s.raw();
    c.nontrivial(i);
    c.show("case", || format!("default {i}"));
    type DS = DataSchema<Nil, Nil, Nil>;
    let aff = || json!({"forms": []});
    match i {
        0 => default::<InteractionAffordance<Nil>>("interaction", aff()),
        1 => default::<PropertyAffordance<Nil>>("property", aff()),
        2 => default::<ActionAffordance<Nil>>("action", aff()),
        3 => default::<EventAffordance<Nil>>("event", aff()),
        4 => default::<DS>("data schema", json!({})),
        5 => default::<DataSchemaSubtype<Nil, Nil, Nil>>("type of a data schema", json!({"type": "null"})),
        6 => default::<ArraySchema<Nil, Nil, Nil>>("array schema", json!({})),
        7 => default::<ObjectSchema<Nil, Nil, Nil>>("object schema", json!({})),
        8 => default::<NumberSchema>("number schema", json!({})),
        9 => default::<IntegerSchema>("integer schema", json!({})),
        10 => default::<StringSchema>("string schema", json!({})),
        11 => default::<VersionInfo>("version", json!({"instance": ""})),
        12 => default::<SecurityScheme>("security definition", json!({"scheme": "nosec"})),
        13 => default::<KnownSecuritySchemeSubtype>("security scheme", json!({"scheme": "nosec"})),
        14 => default::<SecuritySchemeSubtype>("security scheme", json!({"scheme": "nosec"})),
        15 => default::<BasicSecurityScheme>("basic scheme", json!({})),
        16 => default::<DigestSecurityScheme>("digest scheme", json!({})),
        17 => default::<BearerSecurityScheme>("bearer scheme", json!({})),
        18 => default::<PskSecurityScheme>("psk scheme", json!({})),
        19 => default::<ApiKeySecurityScheme>("apikey scheme", json!({})),
        20 => default::<OAuth2SecurityScheme>("oauth2 scheme", json!({"flow": ""})),
        21 => default::<Link>("link", json!({"href": ""})),
        22 => default::<Form<Nil>>("form", json!({"href": ""})),
        23 => default::<DefaultedFormOperations>("operations", json!(null)),
        24 => default::<ExpectedResponse<Nil>>("expected response", json!({"contentType": ""})),
        25 => default::<AdditionalExpectedResponse>("additional response", json!({})),
        26 => default::<Thing<Nil>>("Thing", json!({"@context": null, "title": "", "security": [], "securityDefinitions": {}})),
        27 => default::<http::Form>("HTTP form", json!({})),
        28 => default::<http::Response>("HTTP response", json!({})),
        29 => default::<http::MessageHeader>("HTTP header", json!({})),
        30 => default::<coap::Form>("CoAP form", json!({})),
        31 => default::<coap::ExpectedResponse>("CoAP response", json!({})),
        32 => default::<coap::BlockWiseTransferParameters>("CoAP block-wise transfer", json!({})),
        33 => default::<mqtt::Form>("MQTT form", json!({})),
        34 => default::<InteractionAffordance<XP>>("interaction with bindings", aff()),
        35 => default::<PropertyAffordance<XP>>("property with bindings", aff()),
        36 => default::<ActionAffordance<XP>>("action with bindings", aff()),
        37 => default::<EventAffordance<XP>>("event with bindings", aff()),
        38 => default::<QualityOfProtection>("quality of protection", json!("auth")),
        39 => default_builders(),
        _ => {
            let (a, b) = (OAuth2SecurityScheme::new("x"), serde_json::from_value::<OAuth2SecurityScheme>(json!({"flow": "x"})));
            if b.as_ref().ok() != Some(&a) {
                return Err(format!("an oauth2 scheme made from its flow, {a:?}, is not what its document is read as: {b:?}"));
            }
            let (a, b) = (VersionInfo::from("x"), serde_json::from_value::<VersionInfo>(json!({"instance": "x"})));
            if b.as_ref().ok() != Some(&a) {
                return Err(format!("a version made from its text, {a:?}, is not what its document is read as: {b:?}"));
            }
            Ok(())
        }
    }
}
