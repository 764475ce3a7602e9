//! P18: documents which break the grammar are refused.

use serde_json::{json, Value};

use super::*;
use crate::{
    doc::{self, Node, Path, Seg},
    engine::{arm, arm_all, Check, Ctx, Outcome, Rng, Src},
    ext::XSet,
    gen, with_set,
};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P18",
        rule: "every case: one fault (several in one arm) in a conforming document; distinct by the document",
        assumptions: &[
            "null stands for an optional member which is absent",
            "members which only belong to some security schemes are left out: such a scheme may be read as one the library does not know",
            "a sequence with the values of the members is not tried where an object belongs",
        ],
        arms: vec![
            arm("missing", p18_missing, 40_000, 1_500_000),
            arm("wrong type", p18_type, 60_000, 2_500_000),
            arm("vocabulary", p18_vocabulary, 30_000, 1_200_000),
            arm("several", p18_several, 20_000, 800_000),
            arm_all("every member", p18_every, EVERY),
        ],
        known: vec![],
    }]
}

/// The type of a member.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    Str,
    Bool,
    /// String or list of strings.
    Strs,
    List,
    /// Object with members of any name, each an object.
    Map,
    Obj,
    /// Language map.
    Langs,
    /// Language or list of them.
    LangList,
    Stamp,
    /// List of objects.
    Objs,
    /// Object or list of them.
    OneObjs,
    Ops,
    Uint,
    Int,
    Num,
    SchemaType,
    NonZero,
    Positive,
}

/// Members of a part and whether they are mandatory.
fn members(n: Node, v: &Value) -> Vec<(&'static str, Ty, bool)> {
    use Ty::*;
    let hr = [("@type", Strs, false), ("title", Str, false), ("titles", Langs, false), ("description", Str, false), ("descriptions", Langs, false)];
    match n {
        Node::Thing => vec![
            ("@type", Strs, false),
            ("title", Str, true),
            ("titles", Langs, false),
            ("description", Str, false),
            ("descriptions", Langs, false),
            ("id", Str, false),
            ("version", Obj, false),
            ("created", Stamp, false),
            ("modified", Stamp, false),
            ("support", Str, false),
            ("base", Str, false),
            ("properties", Map, false),
            ("actions", Map, false),
            ("events", Map, false),
            ("links", Objs, false),
            ("forms", Objs, false),
            ("security", Strs, true),
            ("securityDefinitions", Map, true),
            ("profile", Strs, false),
            ("schemaDefinitions", Map, false),
            ("uriVariables", Map, false),
        ],
        Node::Version => vec![("instance", Str, true), ("model", Str, false)],
        Node::Langs => vec![],
        Node::Aff(w) => {
            let mut m = hr.to_vec();
            m.push(("forms", Objs, true));
            m.push(("uriVariables", Map, false));
            match w {
                Where::Property => m.push(("observable", Bool, false)),
                Where::Action => m.extend([
                    ("input", Obj, false),
                    ("output", Obj, false),
                    ("safe", Bool, false),
                    ("idempotent", Bool, false),
                    ("synchronous", Bool, false),
                ]),
                _ => m.extend([
                    ("subscription", Obj, false),
                    ("data", Obj, false),
                    ("dataResponse", Obj, false),
                    ("cancellation", Obj, false),
                ]),
            }
            m
        }
        Node::Schema { prop } => {
            let mut m = if prop { vec![] } else { hr.to_vec() };
            m.extend([
                ("unit", Str, false),
                ("oneOf", Objs, false),
                ("enum", List, false),
                ("readOnly", Bool, false),
                ("writeOnly", Bool, false),
                ("format", Str, false),
                ("type", SchemaType, false),
            ]);
            match v["type"].as_str() {
                Some("array") => m.extend([("items", OneObjs, false), ("minItems", Uint, false), ("maxItems", Uint, false)]),
                Some("object") => m.extend([("properties", Map, false), ("required", List, false)]),
                Some("string") => m.extend([
                    ("minLength", Uint, false),
                    ("maxLength", Uint, false),
                    ("pattern", Str, false),
                    ("contentEncoding", Str, false),
                    ("contentMediaType", Str, false),
                ]),
                Some("integer") => m.extend([
                    ("minimum", Int, false),
                    ("exclusiveMinimum", Int, false),
                    ("maximum", Int, false),
                    ("exclusiveMaximum", Int, false),
                    ("multipleOf", NonZero, false),
                ]),
                Some("number") => m.extend([
                    ("minimum", Num, false),
                    ("exclusiveMinimum", Num, false),
                    ("maximum", Num, false),
                    ("exclusiveMaximum", Num, false),
                    ("multipleOf", Num, false),
                ]),
                _ => {}
            }
            m
        }
        Node::Form(_) => vec![
            ("href", Str, true),
            ("op", Ops, false),
            ("contentType", Str, false),
            ("contentCoding", Str, false),
            ("subprotocol", Str, false),
            ("security", Strs, false),
            ("scopes", Strs, false),
            ("response", Obj, false),
            ("additionalResponses", OneObjs, false),
        ],
        Node::Resp => vec![("contentType", Str, true)],
        Node::Addl => vec![("success", Bool, false), ("contentType", Str, false), ("schema", Str, false)],
        Node::Link => vec![
            ("href", Str, true),
            ("type", Str, false),
            ("rel", Str, false),
            ("anchor", Str, false),
            ("sizes", Str, false),
            ("hreflang", LangList, false),
        ],
        Node::Sec => vec![
            ("scheme", Str, true),
            ("@type", Strs, false),
            ("description", Str, false),
            ("descriptions", Langs, false),
            ("proxy", Str, false),
        ],
    }
}

/// Values of the wrong type.
fn wrong(t: Ty, mandatory: bool, s: &mut Src) -> Value {
    let text = || json!("wrong");
    let mut v: Vec<Value> = match t {
        Ty::Str => vec![json!(true), json!(5), json!(-1.5), json!([]), json!({}), json!(["a"]), json!({"a": "b"})],
        Ty::Bool => vec![json!("true"), json!("false"), json!(0), json!(1), json!([]), json!([true]), json!({}), json!("")],
        Ty::Strs => vec![
            json!(true),
            json!(5),
            json!({}),
            json!({"a": "b"}),
            json!([5]),
            json!(["a", 5]),
            json!([true, "a"]),
            json!([["a"]]),
            json!(["a", {}]),
            json!([null]),
        ],
        Ty::List => vec![text(), json!(true), json!(5), json!({}), json!({"a": "b"})],
        Ty::Map => vec![text(), json!(true), json!(5), json!([]), json!([{}]), json!({"a": 5}), json!({"a": "x"}), json!({"a": null}), json!({"a": true})],
        Ty::Obj => vec![text(), json!(true), json!(5), json!(1.5), json!("")],
        Ty::Langs => vec![
            text(),
            json!(true),
            json!(5),
            json!([]),
            json!(["en"]),
            json!({"en": 5}),
            json!({"en": null}),
            json!({"en": ["x"]}),
            json!({"en": {"x": "y"}}),
            json!({"de": "x", "en": true}),
        ],
        Ty::LangList => vec![json!(true), json!(5), json!({}), json!({"en": "x"}), json!([5]), json!(["en", null]), json!(["en", ["de"]])],
        Ty::Stamp => vec![json!(true), json!(5), json!(1700000000), json!([]), json!({}), json!([2020, 1]), json!(["2020-01-01T00:00:00Z"])],
        Ty::Objs => vec![text(), json!(true), json!(5), json!({"href": "x", "type": "null"}), json!([5]), json!(["x"]), json!([null]), json!([true])],
        Ty::OneObjs => vec![text(), json!(true), json!(5), json!([5]), json!(["x"]), json!([true]), json!([null])],
        Ty::Ops => vec![json!(true), json!(5), json!({}), json!([5]), json!(["readproperty", 5]), json!([["readproperty"]]), json!([null, "readproperty"])],
        Ty::Uint => vec![text(), json!("5"), json!(true), json!(-1), json!(1.5), json!([5]), json!({})],
        Ty::Int => vec![text(), json!("5"), json!(true), json!(1.5), json!([5]), json!({})],
        Ty::NonZero => vec![text(), json!("5"), json!(true), json!(1.5), json!(-2), json!([5]), json!({})],
        Ty::Num | Ty::Positive => vec![text(), json!("5"), json!("NaN"), json!(true), json!([5]), json!({})],
        Ty::SchemaType => vec![json!(true), json!(5), json!([]), json!({}), json!(["string"]), json!(["string", "null"])],
    };
    if mandatory {
        v.push(Value::Null);
    }
    s.pick(&v).clone()
}

#[derive(Debug)]
enum Edit {
    Remove(Path, &'static str),
    Set(Path, &'static str, Value),
}

impl Edit {
    fn apply(&self, d: &mut Value) {
        match self {
            Edit::Remove(p, k) => {
                doc::obj_mut(d, p).remove(*k);
            }
            Edit::Set(p, k, v) => {
                doc::obj_mut(d, p).insert(k.to_string(), v.clone());
            }
        }
    }
    fn show(&self) -> String {
        match self {
            Edit::Remove(p, k) => format!("{}/{k} removed", doc::show(p)),
            Edit::Set(p, k, v) => format!("{}/{k} = {v}", doc::show(p)),
        }
    }
}

fn refused<X: XSet>(d: &Value, what: &str, s: &mut Src) -> Outcome {
    if from_value::<X>(d).is_ok() {
        return Err(format!("accepted from memory: {what}"));
    }
    let text = doc::write_text(d, &mut Rng(u64::from(s.raw())));
    if from_text::<X>(&text).is_ok() {
        return Err(format!("accepted from text: {what}"));
    }
    if serde_json::from_slice::<wot_td::thing::Thing<X>>(d.to_string().as_bytes()).is_ok() {
        return Err(format!("accepted from bytes: {what}"));
    }
    Ok(())
}

/// A document whose parts are rich enough to have anything wrong.
fn some_doc(s: &mut Src) -> (Set, Value) {
    let (set, mut d) = doc::document(s);
    if s.chance(60) {
        doc::unlist(&mut d, s);
    }
    if s.chance(60) {
        doc::undefault(&mut d, s);
    }
    (set, d)
}

fn run(set: Set, mut d: Value, edits: &[Edit], s: &mut Src, c: &mut Ctx) -> Outcome {
    let ok = with_set!(set, X => from_value::<X>(&d).map(|_| ()));
    if let Err(e) = ok {
        // that is for P02 to judge
        c.show("refused before", || e.clone());
        return Ok(());
    }
    // inner edits last: an outer one may remove what they are in
    let mut what = vec![];
    for e in edits {
        e.apply(&mut d);
        what.push(e.show());
    }
    let what = what.join(", ");
    c.nontrivial(d.to_string());
    c.show("faults", || what.clone());
    show_doc(c, "document", &d);
    with_set!(set, X => refused::<X>(&d, &what, s))
}

fn p18_missing(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = some_doc(s);
    let e = missing(&d, s);
    run(set, d, &[e], s, c)
}

/// Parts by class first, so that rare ones are not drowned.
fn some_node(d: &Value, s: &mut Src, keep: impl Fn(Node, &Value) -> bool) -> (Node, Path) {
    let all: Vec<(Node, Path)> = doc::nodes(d).into_iter().filter(|(n, p)| keep(*n, doc::at(d, p))).collect();
    if s.chance(50) {
        return s.pick(&all).clone();
    }
    let mut classes: Vec<Node> = vec![];
    for (n, _) in &all {
        if !classes.contains(n) {
            classes.push(*n);
        }
    }
    let n = *s.pick(&classes);
    let of: Vec<&(Node, Path)> = all.iter().filter(|x| x.0 == n).collect();
    (*s.pick(&of)).clone()
}

fn missing(d: &Value, s: &mut Src) -> Edit {
    let (n, p) = some_node(d, s, |n, v| members(n, v).iter().any(|m| m.2));
    let ms: Vec<_> = members(n, doc::at(d, &p)).into_iter().filter(|m| m.2).collect();
    let k = s.pick(&ms).0;
    if s.chance(85) {
        Edit::Remove(p, k)
    } else {
        Edit::Set(p, k, Value::Null)
    }
}

fn p18_type(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = some_doc(s);
    let e = mistyped(&d, s);
    run(set, d, &[e], s, c)
}

fn mistyped(d: &Value, s: &mut Src) -> Edit {
    let (n, p) = some_node(d, s, |n, v| !members(n, v).is_empty());
    let (k, t, m) = *s.pick(&members(n, doc::at(d, &p)));
    Edit::Set(p, k, wrong(t, m, s))
}

/// The right type, but not in the vocabulary.
fn p18_vocabulary(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = some_doc(s);
    let e = outside(&d, s);
    run(set, d, &[e], s, c)
}

const NO_OP: [&str; 14] = [
    "", "read", "readProperty", "READPROPERTY", "readproperty ", " readproperty", "readproperties", "invoke", "subscribe",
    "observeallevents", "queryallaction", "cancelallactions", "readallproperty", "ReadProperty",
];
const NO_TYPE: [&str; 10] = ["", "String", "str", "bool", "int", "float", "any", "Null", "string ", "tuple"];
const NO_STAMP: [&str; 16] = [
    "",
    "now",
    "2020-01-01",
    "12:00:00Z",
    "2020-01-01T00:00:00",
    "2020-13-01T00:00:00Z",
    "2020-00-01T00:00:00Z",
    "2020-02-30T00:00:00Z",
    "2021-02-29T00:00:00Z",
    "2020-01-01T24:00:00Z",
    "2020-01-01T00:60:00Z",
    "2020-01-01T00:00Z",
    "2020-01-01T00:00:00+24:00",
    "2020-01-01T00:00:00.Z",
    "20-01-01T00:00:00Z",
    "2020-01-01T00:00:00Z ",
];

fn outside(d: &Value, s: &mut Src) -> Edit {
    let fits = |t: Ty| matches!(t, Ty::Ops | Ty::Stamp | Ty::Langs | Ty::LangList | Ty::SchemaType | Ty::Uint | Ty::NonZero);
    let (n, p) = some_node(d, s, |n, v| members(n, v).iter().any(|m| fits(m.1)));
    let ms: Vec<_> = members(n, doc::at(d, &p)).into_iter().filter(|m| fits(m.1)).collect();
    let (k, t, _) = *s.pick(&ms);
    let v = match t {
        Ty::Ops => {
            let bad = json!(*s.pick(&NO_OP));
            match s.below(4) {
                0 => bad,
                1 => json!([bad]),
                2 => json!([bad, "readproperty"]),
                _ => json!(["invokeaction", "readproperty", bad]),
            }
        }
        Ty::Stamp => json!(*s.pick(&NO_STAMP)),
        Ty::Langs => {
            let mut o = serde_json::Map::new();
            if s.chance(50) {
                o.insert("en".into(), json!("x"));
            }
            o.insert(gen::bad_lang(s), json!("x"));
            Value::Object(o)
        }
        Ty::LangList => {
            let bad = json!(gen::bad_lang(s));
            match s.below(3) {
                0 => bad,
                1 => json!([bad]),
                _ => json!(["en", bad]),
            }
        }
        Ty::SchemaType => json!(*s.pick(&NO_TYPE)),
        Ty::NonZero => s.pick(&[json!(0), json!(-1)]).clone(),
        _ => s.pick(&[json!(-1), json!(i64::MIN), json!(-0.5)]).clone(),
    };
    Edit::Set(p, k, v)
}

/// Faults do not make up for each other.
fn p18_several(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = some_doc(s);
    if with_set!(set, X => from_value::<X>(&d).is_err()) {
        return Ok(());
    }
    let mut what = vec![];
    for _ in 0..2 + s.below(3) {
        // each is applied to what the earlier ones have left; the last one stays
        let e = match s.below(3) {
            0 => missing(&d, s),
            1 => mistyped(&d, s),
            _ => outside(&d, s),
        };
        what.push(e.show());
        e.apply(&mut d);
        // keep walking over well-formed parts only
        if doc::nodes(&d).iter().any(|(n, p)| !doc::at(&d, p).is_object() && *n != Node::Langs) {
            break;
        }
    }
    let what = what.join(", ");
    c.nontrivial(d.to_string());
    c.show("faults", || what.clone());
    show_doc(c, "document", &d);
    with_set!(set, X => refused::<X>(&d, &what, s))
}

// ---------------------------------------------------------------------------------------------

/// A document with every class of part, at least once.
fn everything() -> Value {
    let schema = |t: &str| json!({"type": t, "titles": {"en": "x"}});
    let form = |op: &str| {
        json!({
            "href": "h", "op": op,
            "response": {"contentType": "x"},
            "additionalResponses": {"schema": "sd"},
        })
    };
    json!({
        "title": "t",
        "version": {"instance": "1"},
        "security": "b",
        "securityDefinitions": {
            "n": {"scheme": "nosec", "descriptions": {"en": "x"}},
            "b": {"scheme": "basic"},
            "d": {"scheme": "digest"},
            "r": {"scheme": "bearer"},
            "o": {"scheme": "oauth2", "flow": "code"},
            "p": {"scheme": "psk"},
            "k": {"scheme": "apikey"},
            "c": {"scheme": "combo", "oneOf": ["b", "d"]},
            "a": {"scheme": "auto"},
            "x": {"scheme": "x:other", "x:more": 5},
        },
        "properties": {
            "p": {
                "type": "array", "items": [{"type": "object", "properties": {"q": schema("integer")}}, schema("number")],
                "forms": [form("readproperty")],
                "uriVariables": {"u": schema("string")},
            },
            "q": {"type": "object", "properties": {"x": schema("string")}, "forms": [{"href": "h"}]},
            "r": {"type": "string", "forms": []},
            "s": {"type": "integer", "forms": []},
            "t": {"type": "number", "oneOf": [schema("null"), schema("boolean")], "forms": []},
        },
        "actions": {"a": {
            "input": schema("string"), "output": {"oneOf": [schema("array"), schema("object")]},
            "forms": [{"href": "g"}, form("invokeaction")],
            "uriVariables": {"u": schema("integer")},
        }},
        "events": {"e": {
            "subscription": schema("integer"), "data": schema("number"), "dataResponse": schema("object"), "cancellation": schema("array"),
            "forms": [form("subscribeevent")],
            "uriVariables": {"u": schema("number")},
        }},
        "links": [{"href": "l"}, {"href": "m", "hreflang": ["en"]}],
        "forms": [form("readallproperties")],
        "schemaDefinitions": {"sd": {"type": "array", "items": schema("string")}},
        "uriVariables": {"v": schema("boolean")},
        "titles": {"de": "t"},
    })
}

const EVERY: u64 = 700;

/// Every member of every part of one document: left out when mandatory, and with wrong values.
fn p18_every(s: &mut Src, c: &mut Ctx) -> Outcome {
    let i = s.raw() as usize;
    let d = everything();
    let mut all: Vec<(Path, &'static str, Ty, bool)> = vec![];
    for (n, p) in doc::nodes(&d) {
        for (k, t, m) in members(n, doc::at(&d, &p)) {
            all.push((p.clone(), k, t, m));
        }
    }
    if all.len() > EVERY as usize {
        return Err(format!("harness: {} members", all.len()));
    }
    let Some((p, k, t, m)) = all.get(i) else { return Ok(()) };
    c.nontrivial(i);
    c.show("member", || format!("{}/{k}", doc::show(p)));
    type X = wot_td::hlist::Nil;
    from_value::<X>(&d).map_err(|e| format!("harness: {e}"))?;
    let mut edits = vec![];
    if *m {
        edits.push(Edit::Remove(p.clone(), k));
    }
    // all wrong values, one after the other
    let mut seen: Vec<Value> = vec![];
    for j in 0..40 {
        let v = wrong(*t, *m, &mut Src::replay(vec![j]));
        if !seen.contains(&v) {
            seen.push(v.clone());
            edits.push(Edit::Set(p.clone(), k, v));
        }
    }
    for e in edits {
        c.evals += 1;
        let mut x = d.clone();
        e.apply(&mut x);
        refused::<X>(&x, &e.show(), s)?;
    }
    let _ = Seg::I(0);
    Ok(())
}
