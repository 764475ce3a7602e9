//! Thing Description documents as JSON: finding their parts, respelling them in equivalent ways,
//! enriching them beyond what the builder can say, and breaking them.

use serde_json::{json, Map, Value};

use crate::{
    dict,
    engine::{Rng, Src},
    expect, gen,
    model::*,
    with_set,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    K(String),
    I(usize),
}

pub type Path = Vec<Seg>;

/// The class of a part of a document.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Node {
    Thing,
    Version,
    Langs,
    Aff(Where),
    /// A data schema; whether it is the root schema of a property.
    Schema { prop: bool },
    Form(Where),
    Resp,
    Addl,
    Link,
    Sec,
}

pub fn at<'a>(v: &'a Value, p: &[Seg]) -> &'a Value {
    p.iter().fold(v, |v, s| match s {
        Seg::K(k) => &v[k],
        Seg::I(i) => &v[*i],
    })
}

pub fn at_mut<'a>(v: &'a mut Value, p: &[Seg]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Seg::K(k) => v.get_mut(k).unwrap(),
        Seg::I(i) => v.get_mut(i).unwrap(),
    })
}

pub fn obj_mut<'a>(v: &'a mut Value, p: &[Seg]) -> &'a mut Map<String, Value> {
    at_mut(v, p).as_object_mut().unwrap()
}

pub fn show(p: &[Seg]) -> String {
    p.iter()
        .map(|s| match s {
            Seg::K(k) => format!("/{k}"),
            Seg::I(i) => format!("/{i}"),
        })
        .collect()
}

struct Walk {
    out: Vec<(Node, Path)>,
    path: Path,
}

impl Walk {
    fn sub<'a>(&mut self, v: &'a Value, k: &str, f: impl FnOnce(&mut Self, &'a Value)) {
        if let Some(x) = v.get(k) {
            self.path.push(Seg::K(k.into()));
            f(self, x);
            self.path.pop();
        }
    }
    fn each<'a>(&mut self, v: &'a Value, k: &str, mut f: impl FnMut(&mut Self, &'a Value)) {
        self.sub(v, k, |w, x| match x {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    w.path.push(Seg::I(i));
                    f(w, x);
                    w.path.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    w.path.push(Seg::K(k.clone()));
                    f(w, x);
                    w.path.pop();
                }
            }
            _ => {}
        });
    }
    fn node(&mut self, n: Node) {
        self.out.push((n, self.path.clone()));
    }
    fn langs(&mut self, v: &Value) {
        self.sub(v, "titles", |w, _| w.node(Node::Langs));
        self.sub(v, "descriptions", |w, _| w.node(Node::Langs));
    }
    fn schema_parts(&mut self, v: &Value) {
        self.each(v, "oneOf", Self::schema);
        if v["items"].is_array() {
            self.each(v, "items", Self::schema);
        } else {
            self.sub(v, "items", Self::schema);
        }
        self.each(v, "properties", Self::schema);
    }
    fn schema(&mut self, v: &Value) {
        self.node(Node::Schema { prop: false });
        self.langs(v);
        self.schema_parts(v);
    }
    fn form(&mut self, v: &Value, at: Where) {
        self.node(Node::Form(at));
        self.sub(v, "response", |w, _| w.node(Node::Resp));
        if v["additionalResponses"].is_object() {
            self.sub(v, "additionalResponses", |w, _| w.node(Node::Addl));
        } else {
            self.each(v, "additionalResponses", |w, _| w.node(Node::Addl));
        }
    }
    fn aff(&mut self, v: &Value, at: Where) {
        self.node(Node::Aff(at));
        self.langs(v);
        self.each(v, "forms", |w, f| w.form(f, at));
        self.each(v, "uriVariables", Self::schema);
        match at {
            Where::Property => {
                self.node(Node::Schema { prop: true });
                self.schema_parts(v);
            }
            Where::Action => {
                self.sub(v, "input", Self::schema);
                self.sub(v, "output", Self::schema);
            }
            _ => {
                for k in ["subscription", "data", "dataResponse", "data_response", "cancellation"] {
                    self.sub(v, k, Self::schema);
                }
            }
        }
    }
    fn thing(&mut self, v: &Value) {
        self.node(Node::Thing);
        self.langs(v);
        self.sub(v, "version", |w, _| w.node(Node::Version));
        self.each(v, "properties", |w, x| w.aff(x, Where::Property));
        self.each(v, "actions", |w, x| w.aff(x, Where::Action));
        self.each(v, "events", |w, x| w.aff(x, Where::Event));
        self.each(v, "links", |w, _| w.node(Node::Link));
        self.each(v, "forms", |w, x| w.form(x, Where::Thing));
        self.each(v, "uriVariables", Self::schema);
        self.each(v, "schemaDefinitions", Self::schema);
        self.each(v, "securityDefinitions", |w, x| {
            w.node(Node::Sec);
            w.langs(x);
        });
    }
}

/// Every part of a document, outermost first.
pub fn nodes(doc: &Value) -> Vec<(Node, Path)> {
    let mut w = Walk {
        out: vec![],
        path: vec![],
    };
    w.thing(doc);
    w.out
}

const KNOWN_SCHEMES: [&str; 9] = [
    "nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey",
];

pub fn is_known_sec(v: &Value) -> bool {
    v["scheme"].as_str().is_some_and(|s| KNOWN_SCHEMES.contains(&s))
}

// ---------------------------------------------------------------------------------------------
// Equivalent spellings

/// Members where one value and a list of one are alike.
pub fn one_or_many(n: Node, v: &Value) -> &'static [&'static str] {
    match n {
        Node::Thing => &["@type", "security", "profile"],
        Node::Aff(_) => &["@type"],
        Node::Schema { prop: false } => &["@type"],
        Node::Form(_) => &["op", "security", "scopes", "additionalResponses", "mqv:filter"],
        Node::Link => &["hreflang"],
        Node::Sec => match v["scheme"].as_str() {
            Some("combo") => &["@type", "oneOf", "allOf"],
            Some("oauth2") => &["@type", "scopes"],
            _ => &["@type"],
        },
        _ => &[],
    }
}

/// Members with a default, and the default.
pub fn defaults(n: Node, v: &Value) -> Vec<(&'static str, Value)> {
    match n {
        Node::Thing => vec![("@context", json!(TD11))],
        Node::Schema { .. } => vec![("readOnly", json!(false)), ("writeOnly", json!(false))],
        Node::Aff(Where::Action) => vec![("safe", json!(false)), ("idempotent", json!(false))],
        Node::Addl => vec![("success", json!(false))],
        Node::Sec => match v["scheme"].as_str() {
            Some("basic") => vec![("in", json!("header"))],
            Some("digest") => vec![("in", json!("header")), ("qop", json!("auth"))],
            Some("bearer") => vec![
                ("in", json!("header")),
                ("alg", json!("ES256")),
                ("format", json!("jwt")),
            ],
            Some("apikey") => vec![("in", json!("query"))],
            _ => vec![],
        },
        _ => vec![],
    }
}

/// Spell some one-element lists as their element; returns how many.
pub fn unlist(doc: &mut Value, s: &mut Src) -> usize {
    let mut n = 0;
    // innermost first: the paths stay good
    for (node, p) in nodes(doc).into_iter().rev() {
        for k in one_or_many(node, at(doc, &p)) {
            let o = obj_mut(doc, &p);
            if let Some(Value::Array(a)) = o.get_mut(*k) {
                if a.len() == 1 && s.chance(60) {
                    let x = a.pop().unwrap();
                    o.insert(k.to_string(), x);
                    n += 1;
                }
            }
        }
    }
    n
}

/// Leave some members with their default value out; returns how many.
pub fn undefault(doc: &mut Value, s: &mut Src) -> usize {
    let mut n = 0;
    for (node, p) in nodes(doc).into_iter().rev() {
        for (k, d) in defaults(node, at(doc, &p)) {
            let o = obj_mut(doc, &p);
            if o.get(k) == Some(&d) && s.chance(60) {
                o.remove(k);
                n += 1;
            }
        }
    }
    n
}

// ---------------------------------------------------------------------------------------------
// Documents

/// Say more in a document than the builder can.
pub fn enrich(doc: &mut Value, s: &mut Src) -> usize {
    let mut n = 0;
    for (node, p) in nodes(doc).into_iter().rev() {
        if !s.chance(30) {
            continue;
        }
        let scheme = at(doc, &p)["scheme"].as_str().map(String::from);
        let o = obj_mut(doc, &p);
        match node {
            Node::Schema { .. } => {
                n += 1;
                let ty = o.get("type").and_then(Value::as_str).unwrap_or("").to_string();
                match s.below(7) {
                    // with both a type and constants or alternatives
                    0 => {
                        o.insert("const".into(), gen::json(s, 2));
                    }
                    1 => {
                        let v: Vec<Value> = (0..s.len(4)).map(|_| gen::json(s, 1)).collect();
                        o.insert("enum".into(), json!(v));
                    }
                    2 => {
                        let mut alts = vec![];
                        for _ in 0..s.len(3) {
                            let k = *s.pick(&["string", "boolean", "null"]);
                            alts.push(json!({"type": k, "readOnly": s.chance(50), "writeOnly": s.chance(50)}));
                        }
                        o.insert("oneOf".into(), json!(alts));
                    }
                    3 => {
                        o.insert("readOnly".into(), json!(s.chance(50)));
                        o.insert("writeOnly".into(), json!(s.chance(50)));
                    }
                    4 if ty == "array" => {
                        o.insert("minItems".into(), json!(gen::u32v(s)));
                        o.insert("maxItems".into(), json!(gen::u32v(s)));
                        if s.chance(30) {
                            o.insert("items".into(), json!([]));
                        }
                    }
                    4 if ty == "object" => {
                        let r: Vec<String> = s.vec(3, gen::name);
                        o.insert("required".into(), json!(r));
                        if s.chance(20) {
                            o.insert("properties".into(), json!({}));
                        }
                    }
                    4 if ty == "string" => {
                        o.insert("minLength".into(), json!(gen::u32v(s)));
                        o.insert("maxLength".into(), json!(gen::u32v(s)));
                        o.insert("pattern".into(), json!(gen::string(s)));
                        o.insert("contentEncoding".into(), json!(gen::string(s)));
                        o.insert("contentMediaType".into(), json!(gen::string(s)));
                    }
                    4 if ty == "number" => {
                        // written as an integer
                        for k in ["minimum", "exclusiveMinimum", "maximum", "exclusiveMaximum"] {
                            o.remove(k);
                        }
                        let a = *s.pick(&["minimum", "exclusiveMinimum"]);
                        o.insert(a.into(), json!(s.below(100)));
                        let b = *s.pick(&["maximum", "exclusiveMaximum"]);
                        o.insert(b.into(), json!(gen::int(s)));
                    }
                    5 => {
                        o.insert("default".into(), gen::json(s, 2));
                        o.insert("unit".into(), json!(gen::string(s)));
                        o.insert("format".into(), json!(gen::string(s)));
                    }
                    _ if ty.is_empty() && !o.contains_key("oneOf") => {
                        let t = *s.pick(&["array", "boolean", "number", "integer", "object", "string", "null"]);
                        o.insert("type".into(), json!(t));
                    }
                    _ => {}
                }
            }
            Node::Sec if scheme.as_deref() == Some("psk") => {
                n += 1;
                o.insert("identity".into(), json!(gen::string(s)));
            }
            Node::Sec if scheme.as_deref() == Some("oauth2") => {
                n += 1;
                o.insert("scopes".into(), json!(s.vec(3, gen::string)));
            }
            Node::Thing => {
                n += 1;
                match s.below(6) {
                    0 => {
                        o.insert("@context".into(), gen::json(s, 3));
                    }
                    // a conforming document names what it requires in any order, with repetitions
                    1 => {
                        let ns: Vec<String> = o["securityDefinitions"]
                            .as_object()
                            .unwrap()
                            .keys()
                            .cloned()
                            .collect();
                        if !ns.is_empty() {
                            let v: Vec<String> = (0..1 + s.below(3)).map(|_| s.pick(&ns).clone()).collect();
                            o.insert("security".into(), json!(v));
                        }
                    }
                    2 => {
                        for k in ["properties", "actions", "events", "uriVariables", "schemaDefinitions"] {
                            o.entry(k).or_insert(json!({}));
                        }
                    }
                    3 => {
                        for k in ["links", "forms", "@type"] {
                            o.entry(k).or_insert(json!([]));
                        }
                    }
                    4 => {
                        for k in ["created", "modified"] {
                            o.insert(k.into(), json!(stamp(s)));
                        }
                    }
                    _ => {
                        o.insert("titles".into(), json!({}));
                        o.insert("version".into(), json!({"instance": gen::string(s)}));
                    }
                }
            }
            Node::Aff(_) => {
                n += 1;
                match s.below(3) {
                    0 => {
                        o.entry("uriVariables").or_insert(json!({}));
                    }
                    1 => {
                        o.entry("@type").or_insert(json!([]));
                    }
                    _ => {
                        o.entry("descriptions").or_insert(json!({}));
                    }
                }
            }
            Node::Form(_) => {
                n += 1;
                match s.below(3) {
                    0 => {
                        o.insert("security".into(), json!(s.vec(2, gen::name)));
                    }
                    1 => {
                        o.insert("scopes".into(), json!(s.vec(3, gen::string)));
                    }
                    _ => {
                        o.entry("additionalResponses").or_insert(json!([{"success": s.chance(50)}]));
                    }
                }
            }
            Node::Link => {
                n += 1;
                // parsing leaves the rule on sizes to the builder
                if s.chance(50) {
                    o.insert("sizes".into(), json!(gen::string(s)));
                } else {
                    let v: Vec<String> = (0..s.len(3)).map(|_| gen::lang(s)).collect();
                    o.insert("hreflang".into(), json!(v));
                }
            }
            _ => {}
        }
    }
    n
}

/// An RFC 3339 text in any of its spellings.
pub fn stamp(s: &mut Src) -> String {
    let t = gen::timestamp(s);
    let mut x = gen::rfc3339(&t);
    match s.below(6) {
        // more digits in the fraction
        0 => {
            let at = 19;
            let digits = 1 + s.below(9);
            let frac: String = (0..digits).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            let rest = x[at..].trim_start_matches(|c: char| c == '.' || c.is_ascii_digit()).to_string();
            x.truncate(at);
            x.push('.');
            x.push_str(&frac);
            x.push_str(&rest);
        }
        // UTC as an offset
        1 if x.ends_with('Z') => {
            x.pop();
            x.push_str("+00:00");
        }
        _ => {}
    }
    x
}

/// A conforming document, in canonical spelling, for the extensions of its set.
pub fn document(s: &mut Src) -> (Set, Value) {
    let m = any_thing(s);
    let mut doc = with_set!(m.set, X => expect::thing::<X>(&m));
    if s.chance(75) {
        enrich(&mut doc, s);
    }
    expect::canon_thing_but_time(&mut doc);
    complete(&mut doc, m.set);
    (m.set, doc)
}

/// Give what was added the members which the extensions require.
pub fn complete(doc: &mut Value, set: Set) {
    if !matches!(set, Set::A | Set::AB) {
        return;
    }
    for (node, p) in nodes(doc) {
        if let Node::Schema { .. } = node {
            let o = obj_mut(doc, &p);
            let ty = o.get("type").and_then(Value::as_str).unwrap_or("");
            let more = match ty {
                "array" => Some("a:as"),
                "object" => Some("a:os"),
                _ => None,
            };
            o.entry("a:ds").or_insert(json!(""));
            if let Some(k) = more {
                o.entry(k).or_insert(json!(""));
            }
        }
    }
}

pub fn nil_document(s: &mut Src) -> Value {
    let m = Gen::new(Set::Nil, s).thing(s);
    let mut doc = expect::thing::<wot_td::hlist::Nil>(&m);
    if s.chance(75) {
        enrich(&mut doc, s);
    }
    expect::canon_thing_but_time(&mut doc);
    doc
}

/// Names which mean nothing to a part of a document.
fn foreign_names(n: Node) -> &'static [&'static str] {
    match n {
        Node::Thing => &["x:foreign", "Title", "href", "op", "readOnly", "type", "forms ", "observable", "htv:x", "input"],
        Node::Version => &["x:foreign", "title", "Instance", "models"],
        Node::Aff(Where::Property) => &["x:foreign", "safe", "href", "op", "contentType", "cov:x", "input", "Forms", "version"],
        Node::Aff(Where::Action) => &["x:foreign", "observable", "href", "op", "readOnly", "type", "data", "minimum", "unit"],
        Node::Aff(_) => &["x:foreign", "observable", "href", "op", "readOnly", "type", "input", "safe", "dataresponse"],
        Node::Schema { prop: false } => &["x:foreign", "forms", "href", "op", "observable", "security", "Type", "read_only", "$schema"],
        Node::Schema { prop: true } => &["x:foreign", "href", "op", "security", "Type", "read_only"],
        Node::Form(_) => &["x:foreign", "title", "type", "rel", "readOnly", "content_type", "OP", "success"],
        Node::Resp => &["x:foreign", "success", "schema", "href", "content_type"],
        Node::Addl => &["x:foreign", "href", "title", "content_type"],
        Node::Link => &["x:foreign", "title", "op", "contentType", "Rel", "forms"],
        Node::Sec => &["x:foreign", "title", "href", "Scheme", "required"],
        Node::Langs => &[],
    }
}

const HUMAN: &[&str] = &["@type", "title", "titles", "description", "descriptions"];
const INTERACTION: &[&str] = &["forms", "uriVariables"];
const SCHEMA: &[&str] = &[
    "const", "default", "unit", "oneOf", "enum", "readOnly", "writeOnly", "format", "type", "items", "minItems", "maxItems", "minimum",
    "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "properties", "required", "minLength", "maxLength", "pattern",
    "contentEncoding", "contentMediaType",
];

/// The terms which mean something to a part of a document.
fn terms(n: Node) -> Vec<&'static [&'static str]> {
    match n {
        Node::Thing => vec![
            HUMAN,
            &[
                "@context", "id", "version", "created", "modified", "support", "base", "properties", "actions", "events", "links",
                "forms", "security", "securityDefinitions", "uriVariables", "profile", "schemaDefinitions",
            ],
        ],
        Node::Version => vec![&["instance", "model"]],
        Node::Aff(Where::Property) => vec![HUMAN, INTERACTION, SCHEMA, &["observable"]],
        Node::Aff(Where::Action) => vec![HUMAN, INTERACTION, &["input", "output", "safe", "idempotent", "synchronous"]],
        Node::Aff(_) => vec![
            HUMAN,
            INTERACTION,
            &["subscription", "data", "dataResponse", "data_response", "cancellation"],
        ],
        Node::Schema { prop: false } => vec![HUMAN, SCHEMA],
        Node::Schema { prop: true } => vec![HUMAN, INTERACTION, SCHEMA, &["observable"]],
        Node::Form(_) => vec![&[
            "href", "contentType", "contentCoding", "security", "scopes", "response", "additionalResponses", "subprotocol", "op",
        ]],
        Node::Resp => vec![&["contentType"]],
        Node::Addl => vec![&["success", "contentType", "schema"]],
        Node::Link => vec![&["href", "type", "rel", "anchor", "sizes", "hreflang"]],
        Node::Sec => vec![
            HUMAN,
            &[
                "proxy", "scheme", "in", "name", "qop", "authorization", "token", "refresh", "scopes", "flow", "alg", "format",
                "identity", "oneOf", "allOf",
            ],
        ],
        Node::Langs => vec![],
    }
}

/// A name which means nothing to a part of a document: of a list, a term of another part, or one
/// the sources mention.
fn foreign_name(n: Node, s: &mut Src) -> String {
    let k = match s.below(8) {
        0 | 1 => {
            let parts = [
                Node::Thing,
                Node::Version,
                Node::Aff(Where::Property),
                Node::Aff(Where::Action),
                Node::Aff(Where::Event),
                Node::Form(Where::Thing),
                Node::Addl,
                Node::Link,
                Node::Sec,
            ];
            let of = terms(*s.pick(&parts));
            let of = of[s.below(of.len())];
            Some(s.pick(of).to_string())
        }
        2 => dict::term(s),
        _ => None,
    };
    match k {
        Some(k) if !terms(n).iter().any(|t| t.contains(&k.as_str())) => k,
        _ => s.pick(foreign_names(n)).to_string(),
    }
}

/// Add members of other vocabularies; returns how many.
pub fn foreign(doc: &mut Value, s: &mut Src) -> usize {
    let mut n = 0;
    for (node, p) in nodes(doc).into_iter().rev() {
        let v = at(doc, &p);
        // other schemes keep all their members
        if node == Node::Sec && !is_known_sec(v) || node == Node::Langs || !s.chance(40) {
            continue;
        }
        let k = foreign_name(node, s);
        let v = gen::json(s, 2);
        obj_mut(doc, &p).insert(k, v);
        n += 1;
    }
    n
}

/// Write JSON with members in any order, any white space and any escapes.
pub fn write_text(v: &Value, r: &mut Rng) -> String {
    let mut out = String::new();
    write(v, r, &mut out);
    out
}

fn ws(r: &mut Rng, out: &mut String) {
    if r.chance(10) {
        out.push_str([" ", "\n", "\t", "\r\n", "  "][r.below(5)]);
    }
}

fn write_str(t: &str, r: &mut Rng, out: &mut String) {
    out.push('"');
    let wild = r.chance(10);
    for c in t.chars() {
        if c == '"' || c == '\\' || (c as u32) < 0x20 || (wild && r.chance(30)) {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn write(v: &Value, r: &mut Rng, out: &mut String) {
    ws(r, out);
    match v {
        Value::Object(o) => {
            let mut ks: Vec<(&String, &Value)> = o.iter().collect();
            for i in (1..ks.len()).rev() {
                ks.swap(i, r.below(i + 1));
            }
            out.push('{');
            for (i, (k, v)) in ks.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(r, out);
                write_str(k, r, out);
                ws(r, out);
                out.push(':');
                write(v, r, out);
            }
            ws(r, out);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(v, r, out);
            }
            ws(r, out);
            out.push(']');
        }
        Value::String(t) => write_str(t, r, out),
        v => out.push_str(&v.to_string()),
    }
    ws(r, out);
}
