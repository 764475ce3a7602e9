//! What the JSON of a description must be, written from the TD 1.1 vocabulary, and the canonical
//! form in which documents are compared.

use serde_json::{json, Map, Value};

use crate::{
    ext::{Pt, XSet},
    gen,
    model::*,
};

type Obj = Map<String, Value>;

fn put(o: &mut Obj, k: &str, v: impl Into<Value>) {
    o.insert(k.into(), v.into());
}

fn put_opt<T: Clone + Into<Value>>(o: &mut Obj, k: &str, v: &Option<T>) {
    if let Some(v) = v {
        o.insert(k.into(), v.clone().into());
    }
}

fn put_list(o: &mut Obj, k: &str, v: &[String]) {
    if !v.is_empty() {
        o.insert(k.into(), json!(v));
    }
}

fn langs(v: &[(String, String)]) -> Value {
    Value::Object(v.iter().map(|(k, v)| (k.clone(), json!(v))).collect())
}

fn hr(o: &mut Obj, h: &Hr) {
    put_list(o, "@type", &h.attype);
    put_opt(o, "title", &h.title);
    put_opt(o, "description", &h.desc);
    if let Some(t) = &h.titles {
        put(o, "titles", langs(t));
    }
    if let Some(t) = &h.descs {
        put(o, "descriptions", langs(t));
    }
}

fn float(v: f64) -> Value {
    json!(v)
}

/// The members of a data schema, without its human readable information.
fn schema_body<X: XSet>(o: &mut Obj, m: &MSchema) {
    put_opt(o, "unit", &m.unit);
    put_opt(o, "format", &m.format);
    if let Some(v) = &m.default {
        put(o, "default", v.clone());
    }
    put(o, "readOnly", m.rw == Rw::Read);
    put(o, "writeOnly", m.rw == Rw::Write);
    X::members(Pt::Ds, &m.x, o);
    match &m.kind {
        Kind::Bool => put(o, "type", "boolean"),
        Kind::Null => put(o, "type", "null"),
        Kind::Str {
            min,
            max,
            pattern,
            enc,
            media,
        } => {
            put(o, "type", "string");
            put_opt(o, "minLength", min);
            put_opt(o, "maxLength", max);
            put_opt(o, "pattern", pattern);
            put_opt(o, "contentEncoding", enc);
            put_opt(o, "contentMediaType", media);
        }
        Kind::Int { min, max, mult } => {
            put(o, "type", "integer");
            if let Some(l) = min {
                put(o, if l.excl { "exclusiveMinimum" } else { "minimum" }, l.v);
            }
            if let Some(l) = max {
                put(o, if l.excl { "exclusiveMaximum" } else { "maximum" }, l.v);
            }
            put_opt(o, "multipleOf", mult);
        }
        Kind::Num { min, max, mult } => {
            put(o, "type", "number");
            if let Some(l) = min {
                put(o, if l.excl { "exclusiveMinimum" } else { "minimum" }, float(l.v));
            }
            if let Some(l) = max {
                put(o, if l.excl { "exclusiveMaximum" } else { "maximum" }, float(l.v));
            }
            if let Some(v) = mult {
                put(o, "multipleOf", float(*v));
            }
        }
        Kind::Vec { item, min, max } => {
            put(o, "type", "array");
            if let Some(i) = item {
                put(o, "items", schema::<X>(i));
            }
            put_opt(o, "minItems", min);
            put_opt(o, "maxItems", max);
            X::members(Pt::As, &m.xk, o);
        }
        Kind::Tuple(v) => {
            put(o, "type", "array");
            put(o, "items", v.iter().map(schema::<X>).collect::<Vec<_>>());
            X::members(Pt::As, &m.xk, o);
        }
        Kind::Obj(v) => {
            put(o, "type", "object");
            if !v.is_empty() {
                put(
                    o,
                    "properties",
                    v.iter().map(|(n, _, s)| (n.clone(), schema::<X>(s))).collect::<Obj>(),
                );
            }
            let req: Vec<String> = v.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
            put_list(o, "required", &req);
            X::members(Pt::Os, &m.xk, o);
        }
        Kind::Const(v) => put(o, "const", v.clone()),
        Kind::Enum(v) => put(o, "enum", v.clone()),
        Kind::OneOf(v) => put(o, "oneOf", v.iter().map(schema::<X>).collect::<Vec<_>>()),
    }
}

pub fn schema<X: XSet>(m: &MSchema) -> Value {
    let mut o = Obj::new();
    hr(&mut o, &m.hr);
    schema_body::<X>(&mut o, m);
    Value::Object(o)
}

fn schema_map<X: XSet>(v: &[(String, MSchema)]) -> Value {
    Value::Object(v.iter().map(|(n, s)| (n.clone(), schema::<X>(s))).collect())
}

pub fn form<X: XSet>(m: &MForm) -> Value {
    let mut o = Obj::new();
    put(&mut o, "href", m.href.as_str());
    let ops: Vec<String> = m.ops.iter().map(|i| ALL_OPS[*i].1.to_string()).collect();
    put_list(&mut o, "op", &ops);
    put_opt(&mut o, "contentType", &m.ct);
    put_opt(&mut o, "contentCoding", &m.cc);
    put_opt(&mut o, "subprotocol", &m.sub);
    put_list(&mut o, "security", &m.security);
    put_list(&mut o, "scopes", &m.scopes);
    if let Some((ct, x)) = &m.response {
        let mut r = Obj::new();
        put(&mut r, "contentType", ct.as_str());
        X::members(Pt::Resp, x, &mut r);
        put(&mut o, "response", r);
    }
    if !m.addl.is_empty() {
        let v: Vec<Value> = m
            .addl
            .iter()
            .map(|a| {
                let mut r = Obj::new();
                put(&mut r, "success", a.success);
                put_opt(&mut r, "contentType", &a.ct);
                put_opt(&mut r, "schema", &a.schema);
                Value::Object(r)
            })
            .collect();
        put(&mut o, "additionalResponses", v);
    }
    X::members(Pt::Form, &m.x, &mut o);
    Value::Object(o)
}

fn forms<X: XSet>(v: &[MForm]) -> Value {
    Value::Array(v.iter().map(form::<X>).collect())
}

pub fn link(l: &MLink) -> Value {
    let mut o = Obj::new();
    put(&mut o, "href", l.href.as_str());
    put_opt(&mut o, "type", &l.ty);
    put_opt(&mut o, "rel", &l.rel);
    put_opt(&mut o, "anchor", &l.anchor);
    put_opt(&mut o, "sizes", &l.sizes);
    put_list(&mut o, "hreflang", &l.hreflang);
    Value::Object(o)
}

fn loc(l: &Option<Loc>, default: Loc) -> &'static str {
    let l = l.unwrap_or(default);
    LOCS.iter().find(|x| x.0 == l).unwrap().1
}

pub fn sec(m: &MSec) -> Value {
    let mut o = Obj::new();
    put(&mut o, "scheme", m.scheme());
    put_list(&mut o, "@type", &m.attype);
    put_opt(&mut o, "description", &m.desc);
    if let Some(d) = &m.descs {
        put(&mut o, "descriptions", langs(d));
    }
    put_opt(&mut o, "proxy", &m.proxy);
    match &m.kind {
        SecKind::NoSec | SecKind::Auto | SecKind::Psk => {}
        SecKind::Combo { all, names } => put(&mut o, if *all { "allOf" } else { "oneOf" }, names.clone()),
        SecKind::Basic { loc: l, name } => {
            put(&mut o, "in", loc(l, Loc::Header));
            put_opt(&mut o, "name", name);
        }
        SecKind::Digest { loc: l, name, auth_int } => {
            put(&mut o, "in", loc(l, Loc::Header));
            put_opt(&mut o, "name", name);
            put(&mut o, "qop", if *auth_int == Some(true) { "auth-int" } else { "auth" });
        }
        SecKind::Bearer {
            loc: l,
            name,
            authz,
            alg,
            format,
        } => {
            put(&mut o, "in", loc(l, Loc::Header));
            put_opt(&mut o, "name", name);
            put_opt(&mut o, "authorization", authz);
            put(&mut o, "alg", alg.as_deref().unwrap_or("ES256"));
            put(&mut o, "format", format.as_deref().unwrap_or("jwt"));
        }
        SecKind::OAuth2 {
            flow,
            authz,
            token,
            refresh,
            scopes,
        } => {
            put(&mut o, "flow", flow.as_str());
            put_opt(&mut o, "authorization", authz);
            put_opt(&mut o, "token", token);
            put_opt(&mut o, "refresh", refresh);
            put_list(&mut o, "scopes", scopes);
        }
        SecKind::ApiKey { loc: l, name } => {
            put(&mut o, "in", loc(l, Loc::Query));
            put_opt(&mut o, "name", name);
        }
        SecKind::Custom { data, .. } => {
            for (k, v) in data.iter().flatten() {
                put(&mut o, k, v.clone());
            }
        }
    }
    Value::Object(o)
}

fn aff<X: XSet>(o: &mut Obj, a: &MAff) {
    hr(o, &a.hr);
    put(o, "forms", forms::<X>(&a.forms));
    if !a.uri.is_empty() {
        put(o, "uriVariables", schema_map::<X>(&a.uri));
    }
    X::members(Pt::Ia, &a.x, o);
}

pub fn prop<X: XSet>(m: &MProp) -> Value {
    let mut o = Obj::new();
    aff::<X>(&mut o, &m.aff);
    schema_body::<X>(&mut o, &m.schema);
    put_opt(&mut o, "observable", &m.observable);
    X::members(Pt::Prop, &m.x, &mut o);
    Value::Object(o)
}

pub fn action<X: XSet>(m: &MAction) -> Value {
    let mut o = Obj::new();
    aff::<X>(&mut o, &m.aff);
    if let Some(s) = &m.input {
        put(&mut o, "input", schema::<X>(s));
    }
    if let Some(s) = &m.output {
        put(&mut o, "output", schema::<X>(s));
    }
    put(&mut o, "safe", m.safe);
    put(&mut o, "idempotent", m.idempotent);
    put_opt(&mut o, "synchronous", &m.synchronous);
    X::members(Pt::Act, &m.x, &mut o);
    Value::Object(o)
}

pub fn event<X: XSet>(m: &MEvent) -> Value {
    let mut o = Obj::new();
    aff::<X>(&mut o, &m.aff);
    for (k, s) in [
        ("subscription", &m.subscription),
        ("data", &m.data),
        ("dataResponse", &m.data_response),
        ("cancellation", &m.cancellation),
    ] {
        if let Some(s) = s {
            put(&mut o, k, schema::<X>(s));
        }
    }
    X::members(Pt::Evt, &m.x, &mut o);
    Value::Object(o)
}

pub fn context(c: &[MCtx]) -> Value {
    let mut v = vec![json!(TD11)];
    for c in c {
        match c {
            MCtx::Iri(i) if i == TD11 => {}
            MCtx::Iri(i) => v.push(json!(i)),
            MCtx::Map(m) => v.push(Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect())),
        }
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        Value::Array(v)
    }
}

/// The canonical JSON of a description which breaks no rule.
pub fn thing<X: XSet>(m: &MThing) -> Value {
    let mut o = Obj::new();
    put(&mut o, "@context", context(&m.context));
    hr(&mut o, &m.hr);
    put(&mut o, "title", m.title.as_str());
    put_opt(&mut o, "id", &m.id);
    if let Some((i, model)) = &m.version {
        let mut v = Obj::new();
        put(&mut v, "instance", i.as_str());
        put_opt(&mut v, "model", model);
        put(&mut o, "version", v);
    }
    put_opt(&mut o, "created", &m.created.as_ref().map(gen::rfc3339));
    put_opt(&mut o, "modified", &m.modified.as_ref().map(gen::rfc3339));
    put_opt(&mut o, "support", &m.support);
    put_opt(&mut o, "base", &m.base);
    if !m.props.is_empty() {
        put(&mut o, "properties", m.props.iter().map(|(n, p)| (n.clone(), prop::<X>(p))).collect::<Obj>());
    }
    if !m.actions.is_empty() {
        put(&mut o, "actions", m.actions.iter().map(|(n, p)| (n.clone(), action::<X>(p))).collect::<Obj>());
    }
    if !m.events.is_empty() {
        put(&mut o, "events", m.events.iter().map(|(n, p)| (n.clone(), event::<X>(p))).collect::<Obj>());
    }
    if !m.links.is_empty() {
        put(&mut o, "links", m.links.iter().map(link).collect::<Vec<_>>());
    }
    if !m.forms.is_empty() {
        put(&mut o, "forms", forms::<X>(&m.forms));
    }
    let req: Vec<&str> = m.secs.iter().filter(|s| s.required).map(|s| s.name()).collect();
    put(&mut o, "security", json!(req));
    put(
        &mut o,
        "securityDefinitions",
        m.secs.iter().map(|s| (s.name().to_string(), sec(s))).collect::<Obj>(),
    );
    if !m.uri.is_empty() {
        put(&mut o, "uriVariables", schema_map::<X>(&m.uri));
    }
    put_list(&mut o, "profile", &m.profile);
    if !m.schemas.is_empty() {
        put(&mut o, "schemaDefinitions", schema_map::<X>(&m.schemas));
    }
    X::members(Pt::Thing, &m.x, &mut o);
    Value::Object(o)
}

// ---------------------------------------------------------------------------------------------
// Canonical form

fn listify(o: &mut Obj, k: &str) {
    if let Some(v) = o.get_mut(k) {
        if !v.is_array() {
            let x = v.take();
            *v = Value::Array(vec![x]);
        }
    }
}

fn default(o: &mut Obj, k: &str, v: Value) {
    o.entry(k.to_string()).or_insert(v);
}

fn each(v: Option<&mut Value>, f: fn(&mut Value)) {
    match v {
        Some(Value::Object(o)) => o.values_mut().for_each(f),
        Some(Value::Array(a)) => a.iter_mut().for_each(f),
        _ => {}
    }
}

fn one(v: Option<&mut Value>, f: fn(&mut Value)) {
    if let Some(v) = v {
        f(v)
    }
}

/// Language tags mean the same in any letter case, and the builder normalises it.
fn canon_langs(o: &mut Obj) {
    for k in ["titles", "descriptions"] {
        if let Some(Value::Object(m)) = o.get_mut(k) {
            *m = std::mem::take(m).into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
        }
    }
}

pub fn canon_schema(v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    listify(o, "@type");
    canon_langs(o);
    default(o, "readOnly", json!(false));
    default(o, "writeOnly", json!(false));
    if o.get("type") == Some(&json!("number")) {
        for k in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"] {
            if let Some(v) = o.get_mut(k) {
                if let Some(f) = v.as_f64() {
                    *v = json!(f);
                }
            }
        }
    }
    match o.get_mut("items") {
        Some(Value::Array(a)) => a.iter_mut().for_each(canon_schema),
        Some(i) => canon_schema(i),
        None => {}
    }
    each(o.get_mut("oneOf"), canon_schema);
    if let Some(Value::Object(p)) = o.get_mut("properties") {
        p.values_mut().for_each(canon_schema);
    }
}

pub fn canon_form(v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    for k in ["op", "security", "scopes", "additionalResponses", "mqv:filter"] {
        listify(o, k);
    }
    if let Some(Value::Array(a)) = o.get_mut("additionalResponses") {
        for r in a {
            if let Some(r) = r.as_object_mut() {
                default(r, "success", json!(false));
            }
        }
    }
}

fn canon_aff(o: &mut Obj) {
    listify(o, "@type");
    canon_langs(o);
    each(o.get_mut("forms"), canon_form);
    each(o.get_mut("uriVariables"), canon_schema);
}

fn canon_prop(v: &mut Value) {
    canon_schema(v);
    if let Some(o) = v.as_object_mut() {
        canon_aff(o);
    }
}

fn canon_action(v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    canon_aff(o);
    one(o.get_mut("input"), canon_schema);
    one(o.get_mut("output"), canon_schema);
    default(o, "safe", json!(false));
    default(o, "idempotent", json!(false));
}

fn canon_event(v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    // KF-EVENT-DATA-RESPONSE: the member is written under a name of the program's own
    if !o.contains_key("dataResponse") {
        if let Some(d) = o.remove("data_response") {
            o.insert("dataResponse".into(), d);
        }
    }
    canon_aff(o);
    for k in ["subscription", "data", "dataResponse", "cancellation"] {
        one(o.get_mut(k), canon_schema);
    }
}

pub fn canon_sec(v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    listify(o, "@type");
    canon_langs(o);
    match o.get("scheme").and_then(Value::as_str).unwrap_or("") {
        "basic" => default(o, "in", json!("header")),
        "digest" => {
            default(o, "in", json!("header"));
            default(o, "qop", json!("auth"));
        }
        "bearer" => {
            default(o, "in", json!("header"));
            default(o, "alg", json!("ES256"));
            default(o, "format", json!("jwt"));
        }
        "apikey" => default(o, "in", json!("query")),
        "combo" => {
            listify(o, "oneOf");
            listify(o, "allOf");
        }
        "oauth2" => listify(o, "scopes"),
        _ => {}
    }
}

fn canon_link(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        listify(o, "hreflang");
        if let Some(Value::Array(a)) = o.get_mut("hreflang") {
            for t in a {
                if let Value::String(t) = t {
                    t.make_ascii_lowercase();
                }
            }
        }
    }
}

/// Spell a document in the canonical way: lists as lists, defaults written out.
pub fn canon_thing_but_time(v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    default(o, "@context", json!(TD11));
    canon_langs(o);
    for k in ["@type", "security", "profile"] {
        listify(o, k);
    }
    each(o.get_mut("properties"), canon_prop);
    each(o.get_mut("actions"), canon_action);
    each(o.get_mut("events"), canon_event);
    each(o.get_mut("forms"), canon_form);
    each(o.get_mut("links"), canon_link);
    each(o.get_mut("uriVariables"), canon_schema);
    each(o.get_mut("schemaDefinitions"), canon_schema);
    each(o.get_mut("securityDefinitions"), canon_sec);
}

/// Spell a document in the canonical way, timestamps by what they denote.
pub fn canon_thing(v: &mut Value) {
    canon_thing_but_time(v);
    let Some(o) = v.as_object_mut() else { return };
    for k in ["created", "modified"] {
        if let Some(Value::String(s)) = o.get_mut(k) {
            if let Some((ns, off)) = instant(s) {
                *s = format!("{ns}@{off}");
            }
        }
    }
}

pub fn canon(mut v: Value) -> Value {
    canon_thing(&mut v);
    v
}

/// The first place where two values differ.
pub fn diff(want: &Value, got: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, p: &mut String) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let n = p.len();
                    p.push('/');
                    p.push_str(k);
                    match y.get(k) {
                        None => return Some(format!("{p} is missing (wanted {v})")),
                        Some(w) => {
                            if let Some(d) = go(v, w, p) {
                                return Some(d);
                            }
                        }
                    }
                    p.truncate(n);
                }
                y.iter()
                    .find(|(k, _)| !x.contains_key(*k))
                    .map(|(k, v)| format!("{p}/{k} is unexpected: {v}"))
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{p}: wanted {} elements, got {}: {a} / {b}", x.len(), y.len()));
                }
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    let n = p.len();
                    p.push_str(&format!("/{i}"));
                    if let Some(d) = go(v, w, p) {
                        return Some(d);
                    }
                    p.truncate(n);
                }
                None
            }
            _ if same(a, b) => None,
            _ => Some(format!("{p}: wanted {a}, got {b}")),
        }
    }
    go(want, got, &mut String::new())
}

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            // an integer and a float are told apart; floats by their bits, so that -0.0 is kept
            match (x.is_f64(), y.is_f64()) {
                (true, true) => x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits(),
                (false, false) => x == y,
                _ => false,
            }
        }
        _ => a == b,
    }
}

/// Instant in nanoseconds since 1970 and offset in minutes of an RFC 3339 text, read
/// independently of the `time` crate; `None` when it is not one. Leap seconds are refused.
pub fn instant(s: &str) -> Option<(i128, i32)> {
    let b = s.as_bytes();
    let num = |from: usize, n: usize| -> Option<i64> {
        let d = b.get(from..from + n)?;
        if d.iter().all(u8::is_ascii_digit) {
            std::str::from_utf8(d).ok()?.parse().ok()
        } else {
            None
        }
    };
    let lit = |at: usize, c: &[u8]| b.get(at).filter(|x| c.contains(x)).map(|_| ());
    let (y, mo, d) = (num(0, 4)?, num(5, 2)?, num(8, 2)?);
    lit(4, b"-")?;
    lit(7, b"-")?;
    lit(10, b"Tt")?;
    let (h, mi, se) = (num(11, 2)?, num(14, 2)?, num(17, 2)?);
    lit(13, b":")?;
    lit(16, b":")?;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > days[mo as usize - 1] || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let mut at = 19;
    let mut nanos = 0i128;
    if b.get(at) == Some(&b'.') {
        at += 1;
        let from = at;
        while b.get(at).is_some_and(u8::is_ascii_digit) {
            at += 1;
        }
        if at == from {
            return None;
        }
        for i in 0..9 {
            nanos = nanos * 10
                + b.get(from + i)
                    .filter(|_| from + i < at)
                    .map_or(0, |d| i128::from(d - b'0'));
        }
    }
    let off = match b.get(at)? {
        b'Z' | b'z' => {
            at += 1;
            0
        }
        c @ (b'+' | b'-') => {
            let (oh, om) = (num(at + 1, 2)?, num(at + 4, 2)?);
            lit(at + 3, b":")?;
            if oh > 23 || om > 59 {
                return None;
            }
            at += 6;
            let o = (oh * 60 + om) as i32;
            if *c == b'-' {
                -o
            } else {
                o
            }
        }
        _ => return None,
    };
    if at != b.len() {
        return None;
    }
    // days since 1970-01-01 (proleptic Gregorian)
    let mut n = 0i64;
    let yy = y - 1;
    n += yy * 365 + yy / 4 - yy / 100 + yy / 400;
    n -= 719_162;
    n += days[..mo as usize - 1].iter().sum::<i64>() + d - 1;
    if y == 0 {
        // year 0 is a leap year before year 1
        n = -719_528 + days[..mo as usize - 1].iter().sum::<i64>() + d - 1;
    }
    let secs = n * 86_400 + h * 3600 + mi * 60 + se - i64::from(off) * 60;
    Some((i128::from(secs) * 1_000_000_000 + nanos, off))
}

// ---------------------------------------------------------------------------------------------
// Strict reading of JSON text

/// Read JSON text strictly (RFC 8259), refusing objects which repeat a member name.
pub fn strict_json(text: &str) -> Result<Value, String> {
    let mut p = Parser {
        b: text.as_bytes(),
        at: 0,
    };
    let v = p.value()?;
    p.ws();
    if p.at != p.b.len() {
        return Err(format!("something follows the value at byte {}", p.at));
    }
    Ok(v)
}

struct Parser<'a> {
    b: &'a [u8],
    at: usize,
}

impl Parser<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.at), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.at += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}", self.at))
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.b.get(self.at) == Some(&c) {
            self.at += 1;
            true
        } else {
            false
        }
    }
    fn value(&mut self) -> Result<Value, String> {
        self.ws();
        match self.b.get(self.at) {
            Some(b'{') => {
                self.at += 1;
                let mut o = Obj::new();
                self.ws();
                if self.eat(b'}') {
                    return Ok(Value::Object(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(b':') {
                        return self.err("no colon");
                    }
                    let v = self.value()?;
                    if o.insert(k.clone(), v).is_some() {
                        return self.err(&format!("member {k:?} is repeated"));
                    }
                    self.ws();
                    if self.eat(b'}') {
                        return Ok(Value::Object(o));
                    }
                    if !self.eat(b',') {
                        return self.err("no comma in object");
                    }
                }
            }
            Some(b'[') => {
                self.at += 1;
                let mut a = Vec::new();
                self.ws();
                if self.eat(b']') {
                    return Ok(Value::Array(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    if self.eat(b']') {
                        return Ok(Value::Array(a));
                    }
                    if !self.eat(b',') {
                        return self.err("no comma in array");
                    }
                }
            }
            Some(b'"') => Ok(Value::String(self.string()?)),
            Some(b't') => self.word("true", Value::Bool(true)),
            Some(b'f') => self.word("false", Value::Bool(false)),
            Some(b'n') => self.word("null", Value::Null),
            _ => self.number(),
        }
    }
    fn word(&mut self, w: &str, v: Value) -> Result<Value, String> {
        if self.b[self.at..].starts_with(w.as_bytes()) {
            self.at += w.len();
            Ok(v)
        } else {
            self.err("unknown word")
        }
    }
    fn digits(&mut self) -> usize {
        let from = self.at;
        while self.b.get(self.at).is_some_and(u8::is_ascii_digit) {
            self.at += 1;
        }
        self.at - from
    }
    fn number(&mut self) -> Result<Value, String> {
        let from = self.at;
        self.eat(b'-');
        let int = self.at;
        let n = self.digits();
        if n == 0 || (n > 1 && self.b[int] == b'0') {
            return self.err("malformed number");
        }
        let mut float = false;
        if self.eat(b'.') {
            float = true;
            if self.digits() == 0 {
                return self.err("malformed fraction");
            }
        }
        if matches!(self.b.get(self.at), Some(b'e' | b'E')) {
            float = true;
            self.at += 1;
            if !self.eat(b'+') {
                self.eat(b'-');
            }
            if self.digits() == 0 {
                return self.err("malformed exponent");
            }
        }
        let t = std::str::from_utf8(&self.b[from..self.at]).unwrap();
        if !float {
            if let Ok(v) = t.parse::<u64>() {
                return Ok(json!(v));
            }
            if t != "-0" {
                if let Ok(v) = t.parse::<i64>() {
                    return Ok(json!(v));
                }
            }
        }
        match t.parse::<f64>() {
            Ok(v) if v.is_finite() => Ok(json!(v)),
            _ => self.err("number out of range"),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let Some(h) = self.b.get(self.at..self.at + 4) else {
            return self.err("short escape");
        };
        if !h.iter().all(u8::is_ascii_hexdigit) {
            return self.err("malformed escape");
        }
        self.at += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        if !self.eat(b'"') {
            return self.err("no string");
        }
        let mut out = Vec::new();
        loop {
            let Some(c) = self.b.get(self.at).copied() else {
                return self.err("open string");
            };
            self.at += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                0..=0x1f => return self.err("raw control character"),
                b'\\' => {
                    let e = self.b.get(self.at).copied().unwrap_or(0);
                    self.at += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if !(self.eat(b'\\') && self.eat(b'u')) {
                                    return self.err("lone surrogate");
                                }
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return self.err("lone surrogate");
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            match char::from_u32(u) {
                                Some(c) => c,
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("unknown escape"),
                    };
                    out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
}
