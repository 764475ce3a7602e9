//! P02 fidelity of parsing, P14 protocol bindings, P15 defaults, P16 one or many, P17 robustness,
//! P20 equality, P22 timestamps.

use serde_json::{json, Map, Value};
use wot_td::{
    hlist::{Cons, Nil},
    protocol::{coap, http, mqtt},
    thing::Thing,
};

use super::*;
use crate::{
    dict,
    doc::{self, Node, Path, Seg},
    engine::{arm, arm_all, Check, Ctx, Known, Outcome, Rng, Src},
    expect,
    ext::{self, Pt, XSet, XP},
    gen, with_set,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P02",
            rule: "the document has at least one affordance, form, link, schema definition or URI variable",
            assumptions: &[
                "integers fit i64 (limits) or u32 (sizes), multipleOf of an integer is a positive integer",
                "at most one of minimum and exclusiveMinimum, and of their maxima, per schema (KF-BOTH-LIMITS); of two in one schema (arm pairs) the one that implies the other must stay",
                "null is not used for an absent member",
                "object members are compared without order, as JSON says",
            ],
            arms: vec![
                arm("document", p02_document, 40_000, 2_000_000),
                arm("foreign", p02_foreign, 30_000, 1_000_000),
                arm("part", p02_part, 30_000, 1_000_000),
                arm("pairs", p02_pairs, 15_000, 600_000),
            ],
            known: vec![
                Known {
                    id: "KF-EVENT-DATA-RESPONSE",
                    what: "the dataResponse schema of an event is written as `data_response`",
                    still_fails: super::build::kf_data_response,
                },
                Known {
                    id: "KF-BOTH-LIMITS",
                    what: "of minimum and exclusiveMinimum (maximum and exclusiveMaximum) in one schema only the stricter is kept",
                    still_fails: kf_both_limits,
                },
            ],
        },
        Check {
            id: "P14",
            rule: "the document has at least one form with binding data (refusal arm: every case)",
            assumptions: &["the vocabulary values are those the documentation of the protocol modules lists"],
            arms: vec![
                arm("documents", p14_documents, 30_000, 1_200_000),
                arm("alone", p14_alone, 30_000, 1_000_000),
                arm("refused", p14_refused, 30_000, 1_000_000),
                arm("null", p14_null, 10_000, 500_000),
                arm_all("vocabulary", p14_vocabulary, VOCABULARY),
            ],
            known: vec![],
        },
        Check {
            id: "P15",
            rule: "at least one defaulted or optional member was left out of the document",
            assumptions: &["defaults are those of the Thing Description 1.1 specification, section 5.4"],
            arms: vec![
                arm("defaults", p15_defaults, 40_000, 1_500_000),
                arm("optional", p15_optional, 30_000, 1_000_000),
                arm("null", p15_null, 15_000, 1_000_000),
                arm("fields", p15_fields, 10_000, 300_000),
            ],
            known: vec![],
        },
        Check {
            id: "P16",
            rule: "at least one one-element list of the document was respelled (lists arm: a list of two or more)",
            assumptions: &[],
            arms: vec![
                arm("respelled", p16_respelled, 40_000, 1_500_000),
                arm("lists", p16_lists, 30_000, 1_000_000),
                arm("items", p16_items, 20_000, 600_000),
            ],
            known: vec![],
        },
        Check {
            id: "P17",
            rule: "the input was accepted as a Thing after a mutation, or is at least 40 bytes of valid UTF-8 that starts like JSON",
            assumptions: &[
                "stack of 16 MiB; the time limit per case is 60 s",
                "for in-memory values nested deeper than serde_json reads text (128), stability is checked in memory",
                "text and value are compared when no object of the text repeats a member name",
            ],
            arms: vec![
                arm("bytes", p17_bytes, 40_000, 3_000_000),
                arm("values", p17_values, 40_000, 2_000_000),
                arm("junk", p17_junk, 40_000, 2_000_000),
                arm("deep", p17_deep, 1_500, 40_000),
            ],
            known: vec![],
        },
        Check {
            id: "P20",
            rule: "both documents of the pair are accepted and their serialisations differ",
            assumptions: &[
                "timestamps are compared as instants and numbers as numbers (0.0 and -0.0 alike)",
                "serialisation shows every modelled detail (decided by P02 and P03)",
            ],
            arms: vec![
                arm("one-change", p20_change, 60_000, 3_000_000),
                arm("known-member", p20_known, 40_000, 2_000_000),
                arm("same", p20_same, 10_000, 500_000),
            ],
            known: vec![],
        },
        Check {
            id: "P22",
            rule: "the timestamp is not in UTC, or has a fraction of a second (malformed arm: every case)",
            assumptions: &[
                "years 0 to 9999, offsets of whole minutes, no leap seconds",
                "the date and time of a document may be separated by T or t and end in Z or z",
            ],
            arms: vec![
                arm("builder", p22_builder, 60_000, 2_500_000),
                arm("document", p22_document, 60_000, 2_500_000),
                arm("malformed", p22_malformed, 40_000, 1_500_000),
            ],
            known: vec![],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// P02

fn kf_both_limits() -> bool {
    let d = json!({"title": "t", "security": [], "securityDefinitions": {},
        "schemaDefinitions": {"s": {"type": "integer", "minimum": 1, "exclusiveMinimum": 5}}});
    let Ok(t) = serde_json::from_value::<Thing>(d) else {
        return false;
    };
    let v = serde_json::to_value(&t).unwrap();
    let s = &v["schemaDefinitions"]["s"];
    s.get("minimum").is_none() || s.get("exclusiveMinimum").is_none()
}

/// The document must be read and written back without loss, from text and from memory.
fn lossless<X: XSet>(spelled: &Value, want: &Value, order: u64, c: &mut Ctx) -> Outcome {
    let text = doc::write_text(spelled, &mut Rng(order));
    c.show("document", || text.clone());
    let a = from_text::<X>(&text)?;
    same_doc("read from text and written", want, &to_value(&a)?)?;
    let b = from_value::<X>(spelled)?;
    same_doc("read from memory and written", want, &to_value(&b)?)?;
    if a != b {
        return Err("text and memory give different Things".into());
    }
    Ok(())
}

fn p02_document(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, want) = doc::document(s);
    let mut d = want.clone();
    doc::unlist(&mut d, s);
    doc::undefault(&mut d, s);
    if doc_has_content(&d) {
        c.nontrivial(d.to_string());
    }
    let order = u64::from(s.raw());
    with_set!(set, X => lossless::<X>(&d, &want, order, c))
}

fn p02_foreign(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, want) = doc::document(s);
    let mut d = want.clone();
    let n = doc::foreign(&mut d, s);
    if doc_has_content(&d) && n > 0 {
        c.nontrivial(d.to_string());
    }
    let order = u64::from(s.raw());
    with_set!(set, X => lossless::<X>(&d, &want, order, c))
}

/// Inclusive and exclusive limits together. KF-BOTH-LIMITS: the one which implies the other is kept,
/// nothing else of the schema is touched.
fn p02_pairs(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = doc::document(s);
    let numeric = |v: &Value| matches!(v["type"].as_str(), Some("number" | "integer"));
    let mut at: Vec<Path> = doc::nodes(&d)
        .into_iter()
        .filter(|(n, p)| matches!(n, Node::Schema { .. }) && numeric(doc::at(&d, p)))
        .map(|x| x.1)
        .collect();
    if at.is_empty() {
        let defs = d.as_object_mut().unwrap().entry("schemaDefinitions").or_insert(json!({}));
        let kind = if s.chance(50) {
            Kind::Int { min: None, max: None, mult: None }
        } else {
            Kind::Num { min: None, max: None, mult: None }
        };
        let new = with_set!(set, X => expect::schema::<X>(&MSchema::plain(kind)));
        defs["pairs"] = new;
        at = vec![vec![Seg::K("schemaDefinitions".into()), Seg::K("pairs".into())]];
    }
    let mut kept = d.clone();
    for _ in 0..1 + s.below(2) {
        let p = s.pick(&at).clone();
        let whole = doc::at(&d, &p)["type"] == "integer";
        for (incl, excl, lower) in [("minimum", "exclusiveMinimum", true), ("maximum", "exclusiveMaximum", false)] {
            if !s.chance(70) {
                continue;
            }
            let (a, b, stricter) = if whole {
                let a = gen::int(s);
                let b = match s.below(4) {
                    0 => a,
                    1 => a.wrapping_add(1),
                    2 => a.wrapping_sub(1),
                    _ => gen::int(s),
                };
                (json!(a), json!(b), if lower { a > b } else { a < b })
            } else {
                let a = gen::float(s);
                let b = match s.below(4) {
                    0 => a,
                    1 => a + 0.5,
                    2 => a - 0.5,
                    _ => gen::float(s),
                };
                (json!(a), json!(b), if lower { a > b } else { a < b })
            };
            if !a.is_number() || !b.is_number() {
                continue;
            }
            let o = doc::obj_mut(&mut d, &p);
            o.insert(incl.into(), a.clone());
            o.insert(excl.into(), b.clone());
            let o = doc::obj_mut(&mut kept, &p);
            o.remove(incl);
            o.remove(excl);
            if stricter {
                o.insert(incl.into(), a);
            } else {
                o.insert(excl.into(), b);
            }
            c.nontrivial(d.to_string());
        }
    }
    let order = u64::from(s.raw());
    with_set!(set, X => match lossless::<X>(&d, &kept, order, c) {
        Err(e) => lossless::<X>(&d, &d, order, c).map_err(|_| e),
        ok => ok,
    })
}

/// Small documents: each part alone.
fn p02_part(s: &mut Src, c: &mut Ctx) -> Outcome {
    let full = doc::nil_document(s);
    let mut d = json!({"title": full["title"], "security": full["security"],
        "securityDefinitions": full["securityDefinitions"]});
    let keys: Vec<String> = full.as_object().unwrap().keys().cloned().collect();
    for _ in 0..1 + s.below(2) {
        let k = s.pick(&keys).clone();
        d[&k] = full[&k].clone();
        // and only one of many
        if let Value::Object(o) = &mut d[&k] {
            if k != "version" && k != "securityDefinitions" && o.len() > 1 && s.chance(60) {
                let n = o.keys().nth(s.below(o.len())).unwrap().clone();
                o.retain(|x, _| *x == n);
            }
        }
    }
    let mut want = d.clone();
    expect::canon_thing_but_time(&mut want);
    if doc_has_content(&d) {
        c.nontrivial(d.to_string());
    }
    doc::unlist(&mut d, s);
    doc::undefault(&mut d, s);
    let order = u64::from(s.raw());
    lossless::<Nil>(&d, &want, order, c)
}

// ---------------------------------------------------------------------------------------------
// P14

type PForm = Cons<http::Form, Cons<coap::Form, Cons<mqtt::Form, Nil>>>;

fn pieces(x: &XData) -> PForm {
    Cons {
        head: http::Form::from(x),
        tail: Cons {
            head: coap::Form::from(x),
            tail: Cons {
                head: mqtt::Form::from(x),
                tail: Nil,
            },
        },
    }
}

fn p14_documents(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = Gen::new(Set::P, s).thing(s);
    // at least one form with something in it
    let g = crate::inject::gen_for(&m, s);
    let w = *s.pick(&crate::inject::WHERES);
    crate::inject::some_form(&mut m, w, &g, s);
    let want = expect::thing::<XP>(&m);
    show_doc(c, "document", &want);
    let mut spelled = want.clone();
    doc::unlist(&mut spelled, s);
    let t = from_text::<XP>(&spelled.to_string())?;
    let mut bound = 0;
    let mut check = |w: &[MForm], f: &[wot_td::thing::Form<XP>]| -> Outcome {
        for (m, f) in w.iter().zip(f) {
            if f.other != pieces(&m.x) {
                return Err(format!("binding data of a form: wanted {:?}, got {:?}", pieces(&m.x), f.other));
            }
            if m.x != XData::default() {
                bound += 1;
            }
            if let (Some((_, x)), Some(r)) = (&m.response, &f.response) {
                let want = Cons {
                    head: http::Response::from(x),
                    tail: Cons {
                        head: coap::ExpectedResponse::from(x),
                        tail: Cons { head: (), tail: Nil },
                    },
                };
                if r.other != want {
                    return Err(format!("binding data of a response: wanted {want:?}, got {:?}", r.other));
                }
            }
        }
        Ok(())
    };
    check(&m.forms, t.forms.as_deref().unwrap_or_default())?;
    for (n, p) in &m.props {
        check(&p.aff.forms, &t.properties.as_ref().unwrap()[n].interaction.forms)?;
    }
    for (n, p) in &m.actions {
        check(&p.aff.forms, &t.actions.as_ref().unwrap()[n].interaction.forms)?;
    }
    for (n, p) in &m.events {
        check(&p.aff.forms, &t.events.as_ref().unwrap()[n].interaction.forms)?;
    }
    if bound > 0 {
        c.nontrivial(want.to_string());
    }
    same_doc("read and written", &want, &to_value(&t)?)?;
    let mut o = some_order(s);
    let b = built::<XP>(&m, &mut o)?;
    same_doc("built", &want, &to_value(&b)?)?;
    let again = from_value::<XP>(&to_value(&b)?)?;
    if again != b {
        return Err("the built Thing parsed back differs".into());
    }
    Ok(())
}

fn alone<T>(want: &T, members: &Value, c: &mut Ctx) -> Outcome
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    c.evals += 1;
    let got = serde_json::to_value(want).map_err(|e| e.to_string())?;
    let mut a = members.clone();
    let mut b = got;
    expect::canon_form(&mut a);
    expect::canon_form(&mut b);
    if let Some(d) = expect::diff(&a, &b) {
        return Err(format!("written binding data: {d}"));
    }
    let back: T = serde_json::from_str(&members.to_string()).map_err(|e| format!("refused: {e}"))?;
    if back != *want {
        return Err(format!("read binding data: wanted {want:?}, got {back:?}"));
    }
    Ok(())
}

fn only(v: &Value, prefix: &str) -> Value {
    Value::Object(
        v.as_object()
            .unwrap()
            .iter()
            .filter(|(k, _)| k.starts_with(prefix))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect(),
    )
}

/// Every binding on its own, as data and as the only extension of a form.
fn p14_alone(s: &mut Src, c: &mut Ctx) -> Outcome {
    let g = Gen::new(Set::P, s);
    let x = g.x(s, true, false);
    let r = g.x(s, false, true);
    let mut f = Map::new();
    ext::members_p(Pt::Form, &x, &mut f);
    let f = Value::Object(f);
    let mut rs = Map::new();
    ext::members_p(Pt::Resp, &r, &mut rs);
    let rs = Value::Object(rs);
    show_doc(c, "form members", &f);
    show_doc(c, "response members", &rs);
    if x != XData::default() {
        c.nontrivial((f.to_string(), rs.to_string()));
    }
    alone(&http::Form::from(&x), &only(&f, "htv:"), c)?;
    alone(&coap::Form::from(&x), &only(&f, "cov:"), c)?;
    alone(&mqtt::Form::from(&x), &only(&f, "mqv:"), c)?;
    alone(&http::Response::from(&r), &only(&rs, "htv:"), c)?;
    alone(&coap::ExpectedResponse::from(&r), &only(&rs, "cov:"), c)?;
    // a form for one protocol ignores the members of the others
    let mut full = f.clone();
    full["href"] = json!("x");
    full["response"] = rs.clone();
    full["response"]["contentType"] = json!("y");
    let t = full.to_string();
    let h: wot_td::thing::Form<http::HttpProtocol> = serde_json::from_str(&t).map_err(|e| format!("http form refused: {e}"))?;
    let k: wot_td::thing::Form<coap::CoapProtocol> = serde_json::from_str(&t).map_err(|e| format!("coap form refused: {e}"))?;
    let q: wot_td::thing::Form<mqtt::MqttProtocol> = serde_json::from_str(&t).map_err(|e| format!("mqtt form refused: {e}"))?;
    if h.other != http::Form::from(&x) || h.response.as_ref().unwrap().other != http::Response::from(&r) {
        return Err(format!("http form: {h:?}"));
    }
    if k.other != coap::Form::from(&x) || k.response.as_ref().unwrap().other != coap::ExpectedResponse::from(&r) {
        return Err(format!("coap form: {k:?}"));
    }
    if q.other != mqtt::Form::from(&x) || q.response.as_ref().unwrap().content_type != "y" {
        return Err(format!("mqtt form: {q:?}"));
    }
    Ok(())
}

/// A member of a binding and a value which its vocabulary has not.
fn bad_binding(s: &mut Src) -> (bool, &'static str, Value) {
    const STR: &[&str] = &["TRACE", "get", "", "GET ", "Get", "OPTIONS", "HEAD", "ipatch", "IPATCH", "htv:GET", "PUBLISH"];
    let not_string = |s: &mut Src| -> Value {
        s.pick(&[json!(1), json!(true), json!(["GET"]), json!({"a": 1}), json!(0.5), json!([])]).clone()
    };
    match s.below(17) {
        0 => (false, "htv:methodName", json!(s.pick(&["TRACE", "get", "", "FETCH", "iPATCH", "HEAD", "OPTIONS", "Get", "GET "]))),
        1 => (false, "htv:methodName", not_string(s)),
        2 => (true, "htv:statusCodeValue", s.pick(&[json!("200"), json!(-1), json!(200.5), json!([200]), json!(true), json!(1e30)]).clone()),
        3 => (true, "htv:headers", s.pick(&[json!("a"), json!(1), json!({"htv:fieldName": "a"}), json!([1]), json!(["a"]), json!([{"htv:fieldName": 1}]),
            json!([{"htv:fieldValue": true}]), json!([{"htv:fieldName": "ok"}, {"htv:fieldValue": ["x"]}])]).clone()),
        4 => (false, "cov:method", json!(s.pick(STR))),
        5 => (false, "cov:method", not_string(s)),
        6 => (false, *s.pick(&["cov:blockwise", "cov:qblockwise"]), {
            let k = *s.pick(&["cov:block1Size", "cov:block2Size"]);
            let v = match s.below(3) {
                0 => json!(s.pick(&[0u64, 1, 15, 17, 31, 48, 2048, 65536 + 16, 1 << 32, 4096, 8, 1023, 1025])),
                1 => s.pick(&[json!("16"), json!(16.5), json!(-16), json!([16]), json!(true), json!({})]).clone(),
                _ => {
                    let n = s.below(3000) as u64;
                    if ext::BLOCKS.contains(&n) { json!(n + 1) } else { json!(n) }
                }
            };
            let mut o = Map::new();
            if s.chance(30) {
                o.insert((if k == "cov:block1Size" { "cov:block2Size" } else { "cov:block1Size" }).into(), json!(64));
            }
            o.insert(k.into(), v);
            Value::Object(o)
        }),
        7 => (false, *s.pick(&["cov:blockwise", "cov:qblockwise"]), s.pick(&[json!("x"), json!(16), json!([16]), json!(true)]).clone()),
        8 => (false, "cov:hopLimit", s.pick(&[json!(256), json!(-1), json!("5"), json!(5.5), json!([5]), json!(true), json!(1 << 20)]).clone()),
        9 => (false, *s.pick(&["cov:accept", "cov:contentFormat"]), s.pick(&[json!(65536), json!(-1), json!("60"), json!(0.5), json!([60]), json!({})]).clone()),
        10 => (true, "cov:contentFormat", s.pick(&[json!(65536), json!(-1), json!("60"), json!(0.5), json!([60]), json!(false)]).clone()),
        11 => (false, "mqv:retain", s.pick(&[json!("true"), json!(1), json!(0), json!([true]), json!({})]).clone()),
        12 => (false, "mqv:controlPacket", json!(s.pick(&["publish", "mqv:Publish", "mqv:connect", "", "mqv:publish ", "subscribe", "PUBLISH"]))),
        13 => (false, "mqv:controlPacket", not_string(s)),
        14 => (false, "mqv:qos", s.pick(&[json!("quality:3"), json!("0"), json!(0), json!(1), json!("quality:"), json!("Quality:1"), json!(["quality:1"]), json!("quality:01")]).clone()),
        15 => (false, "mqv:topic", not_string(s)),
        _ => (false, "mqv:filter", s.pick(&[json!(1), json!({"a": "b"}), json!([1]), json!(["a", 1]), json!(true), json!([["a"]])]).clone()),
    }
}

fn p14_refused(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = Gen::new(Set::P, s).thing(s);
    let g = crate::inject::gen_for(&m, s);
    let w = *s.pick(&crate::inject::WHERES);
    let (resp, key, bad) = bad_binding(s);
    {
        let f = crate::inject::some_form(&mut m, w, &g, s);
        if f.response.is_none() {
            f.response = Some(("x".into(), XData::default()));
        }
    }
    let mut d = expect::thing::<XP>(&m);
    let at: Vec<Path> = doc::nodes(&d)
        .into_iter()
        .filter(|(n, _)| if resp { *n == Node::Resp } else { matches!(n, Node::Form(_)) })
        .map(|x| x.1)
        .collect();
    let p = s.pick(&at).clone();
    doc::obj_mut(&mut d, &p).insert(key.into(), bad);
    c.nontrivial(d.to_string());
    show_doc(c, "document", &d);
    if from_text::<XP>(&d.to_string()).is_ok() {
        return Err(format!("accepted with a wrong {key} at {}", doc::show(&p)));
    }
    if from_value::<XP>(&d).is_ok() {
        return Err(format!("accepted from memory with a wrong {key} at {}", doc::show(&p)));
    }
    // the binding at fault alone refuses it too, the others do not care
    let ok = [
        serde_json::from_value::<Thing<Cons<http::HttpProtocol, Nil>>>(d.clone()).is_ok(),
        serde_json::from_value::<Thing<Cons<coap::CoapProtocol, Nil>>>(d.clone()).is_ok(),
        serde_json::from_value::<Thing<Cons<mqtt::MqttProtocol, Nil>>>(d.clone()).is_ok(),
    ];
    let want = [!key.starts_with("htv:"), !key.starts_with("cov:"), !key.starts_with("mqv:")];
    if ok != want {
        return Err(format!("bindings alone (http, coap, mqtt) accept {ok:?} instead of {want:?} for a wrong {key}"));
    }
    Ok(())
}

/// A binding member which is null is refused or stands for an absent one.
fn p14_null(s: &mut Src, c: &mut Ctx) -> Outcome {
    const FORM: &[&str] = &[
        "htv:methodName", "cov:method", "cov:blockwise", "cov:qblockwise", "cov:hopLimit", "cov:accept", "cov:contentFormat", "mqv:retain",
        "mqv:controlPacket", "mqv:qos", "mqv:topic", "mqv:filter",
    ];
    const RESP: &[&str] = &["htv:headers", "htv:statusCodeValue", "cov:contentFormat"];
    let mut m = Gen::new(Set::P, s).thing(s);
    let g = crate::inject::gen_for(&m, s);
    let w = *s.pick(&crate::inject::WHERES);
    let f = crate::inject::some_form(&mut m, w, &g, s);
    if f.response.is_none() {
        f.response = Some(("x".into(), XData::default()));
    }
    let resp = s.chance(30);
    let key = *s.pick(if resp { RESP } else { FORM });
    let mut d = expect::thing::<XP>(&m);
    let at: Vec<Path> = doc::nodes(&d)
        .into_iter()
        .filter(|(n, _)| if resp { *n == Node::Resp } else { matches!(n, Node::Form(_)) })
        .map(|x| x.1)
        .collect();
    let p = s.pick(&at).clone();
    doc::obj_mut(&mut d, &p).remove(key);
    let without = from_value::<XP>(&d)?;
    // inside the block-wise parameters as well
    if key.ends_with("blockwise") && s.chance(50) {
        doc::obj_mut(&mut d, &p).insert(key.into(), json!({}));
        let without = from_value::<XP>(&d)?;
        let k = *s.pick(&["cov:block1Size", "cov:block2Size"]);
        doc::obj_mut(&mut d, &p)[key][k] = Value::Null;
        return null_or_absent(&d, &without, k, c);
    }
    doc::obj_mut(&mut d, &p).insert(key.into(), Value::Null);
    null_or_absent(&d, &without, key, c)
}

fn null_or_absent(d: &Value, without: &Thing<XP>, key: &str, c: &mut Ctx) -> Outcome {
    c.nontrivial(d.to_string());
    show_doc(c, "document", d);
    match (from_text::<XP>(&d.to_string()), from_value::<XP>(d)) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) if a == *without && b == *without => Ok(()),
        (Ok(_), Ok(_)) => Err(format!("{key} which is null is read as a value")),
        _ => Err(format!("{key} which is null: text and memory disagree")),
    }
}

const VOCABULARY: u64 = 5 + 7 + 7 * 4 + 3 + 3 + 256 + 1025;

/// Every value of every vocabulary; all hop limits; all block sizes up to 1024, good or bad.
fn p14_vocabulary(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut i = s.raw() as usize;
    c.nontrivial(i);
    let mut x = XData::default();
    let case = |x: &XData, c: &mut Ctx| -> Outcome {
        let mut f = Map::new();
        ext::members_p(Pt::Form, x, &mut f);
        let mut f = Value::Object(f);
        show_doc(c, "members", &f);
        alone(&pieces(x), &f, c)?;
        f["href"] = json!("h");
        let t: wot_td::thing::Form<XP> = serde_json::from_value(f.clone()).map_err(|e| format!("refused: {e}"))?;
        if t.other != pieces(x) {
            return Err(format!("wanted {:?}, got {:?}", pieces(x), t.other));
        }
        Ok(())
    };
    if i < 5 {
        x.method = Some(i);
        return case(&x, c);
    }
    i -= 5;
    if i < 7 {
        x.cov_method = Some(i);
        return case(&x, c);
    }
    i -= 7;
    if i < 28 {
        let (b, k) = (i / 4, i % 4);
        let v = if k % 2 == 0 { (Some(b), None) } else { (None, Some(b)) };
        if k < 2 {
            x.block = Some(v);
        } else {
            x.qblock = Some(v);
        }
        return case(&x, c);
    }
    i -= 28;
    if i < 3 {
        x.packet = Some(i);
        return case(&x, c);
    }
    i -= 3;
    if i < 3 {
        x.qos = Some(i);
        return case(&x, c);
    }
    i -= 3;
    if i < 256 {
        x.hop = Some(i as u8);
        return case(&x, c);
    }
    i -= 256;
    let d = json!({"href": "h", "cov:blockwise": {"cov:block1Size": i}, "cov:qblockwise": {"cov:block2Size": i}});
    show_doc(c, "form", &d);
    let got = serde_json::from_value::<wot_td::thing::Form<coap::CoapProtocol>>(d.clone());
    if got.is_ok() != ext::BLOCKS.contains(&(i as u64)) {
        return Err(format!("block size {i}: accepted is {}", got.is_ok()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P15

fn p15_defaults(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, full) = doc::document(s);
    let mut less = full.clone();
    let n = doc::undefault(&mut less, s);
    if n > 0 {
        c.nontrivial(less.to_string());
    }
    show_doc(c, "document with members left out", &less);
    with_set!(set, X => {
        let a = from_text::<X>(&full.to_string())?;
        let b = from_text::<X>(&less.to_string())?;
        if a != b {
            return Err(format!("not the same Thing: {}", same_doc("it differs", &to_value(&a)?, &to_value(&b)?).err().unwrap_or_default()));
        }
        let b = from_value::<X>(&less)?;
        if a != b {
            return Err("not the same Thing when read from memory".to_string());
        }
        same_doc("written", &full, &to_value(&b)?)
    })
}

/// Members which may be absent and have no default.
fn optional(n: Node, v: &Value) -> &'static [&'static str] {
    match n {
        Node::Thing => &[
            "id", "@type", "titles", "description", "descriptions", "version", "created", "modified", "support", "base",
            "properties", "actions", "events", "links", "forms", "uriVariables", "profile", "schemaDefinitions",
        ],
        Node::Version => &["model"],
        Node::Aff(Where::Property) => &["@type", "title", "titles", "description", "descriptions", "uriVariables", "observable"],
        Node::Aff(Where::Action) => &["@type", "title", "titles", "description", "descriptions", "uriVariables", "input", "output", "synchronous"],
        Node::Aff(_) => &["@type", "title", "titles", "description", "descriptions", "uriVariables", "subscription", "data", "dataResponse", "cancellation"],
        Node::Schema { .. } => &[
            "const", "default", "unit", "oneOf", "enum", "format", "type", "items", "minItems", "maxItems", "minimum",
            "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "properties", "required", "minLength",
            "maxLength", "pattern", "contentEncoding", "contentMediaType",
        ],
        Node::Form(_) => &["op", "contentType", "contentCoding", "subprotocol", "security", "scopes", "response", "additionalResponses"],
        Node::Addl => &["contentType", "schema"],
        Node::Link => &["type", "rel", "anchor", "sizes", "hreflang"],
        Node::Sec => {
            if doc::is_known_sec(v) {
                match v["scheme"].as_str() {
                    Some("combo") => &["@type", "description", "descriptions", "proxy"],
                    _ => &["@type", "description", "descriptions", "proxy", "name", "authorization", "token", "refresh", "scopes", "identity"],
                }
            } else {
                &["@type", "description", "descriptions", "proxy"]
            }
        }
        _ => &[],
    }
}

/// Leave optional members out: they are absent, and nothing else changes.
fn p15_optional(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = doc::document(s);
    let percent = *s.pick(&[10, 40, 90]);
    let mut n = 0;
    for (node, p) in doc::nodes(&d).into_iter().rev() {
        for k in optional(node, doc::at(&d, &p)) {
            let o = doc::obj_mut(&mut d, &p);
            if *k == "type" && o.contains_key("type") {
                // the members that go with it stay behind, meaning nothing
                if s.chance(percent / 4) {
                    for k in TYPED {
                        o.remove(*k);
                    }
                    // including those of the extensions of arrays and objects
                    o.retain(|k, _| !["a:as", "a:os", "b:as", "b:os"].iter().any(|p| k.starts_with(p)));
                    o.remove("type");
                    n += 1;
                }
            } else if o.contains_key(*k) && s.chance(percent) {
                o.remove(*k);
                n += 1;
            }
        }
    }
    if n > 0 {
        c.nontrivial(d.to_string());
    }
    show_doc(c, "document", &d);
    let order = u64::from(s.raw());
    let mut spelled = d.clone();
    doc::undefault(&mut spelled, s);
    with_set!(set, X => lossless::<X>(&spelled, &d, order, c))
}

/// An optional member which is null, if that is accepted, is absent.
fn p15_null(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = doc::document(s);
    let all: Vec<(Node, Path)> = doc::nodes(&d).into_iter().filter(|(n, p)| !optional(*n, doc::at(&d, p)).is_empty()).collect();
    // every kind of part alike
    let mut kinds: Vec<Node> = vec![];
    for (n, _) in &all {
        if !kinds.contains(n) {
            kinds.push(*n);
        }
    }
    let kind = *s.pick(&kinds);
    let of: Vec<_> = all.iter().filter(|x| x.0 == kind).collect();
    let p = s.pick(&of).1.clone();
    // these two are any value
    let ks: Vec<&str> = optional(kind, doc::at(&d, &p)).iter().filter(|k| !matches!(**k, "const" | "default")).copied().collect();
    let k = *s.pick(&ks);
    doc::obj_mut(&mut d, &p).remove(k);
    let mut null = d.clone();
    doc::obj_mut(&mut null, &p).insert(k.into(), Value::Null);
    c.nontrivial(null.to_string());
    show_doc(c, "document", &null);
    with_set!(set, X => {
        let (Ok(absent), Ok(x), Ok(y)) = (from_text::<X>(&d.to_string()), from_text::<X>(&null.to_string()), from_value::<X>(&null)) else {
            c.label("refused");
            return Ok(());
        };
        if x != absent || y != absent {
            return Err(format!("{k} which is null, at {}, is not absent", doc::show(&p)));
        }
        same_doc("written", &to_value(&absent)?, &to_value(&x)?)
    })
}

/// Members of a data schema which belong to a type.
pub const TYPED: &[&str] = &[
    "items", "minItems", "maxItems", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
    "properties", "required", "minLength", "maxLength", "pattern", "contentEncoding", "contentMediaType",
];

/// The fields of the parsed structures, on minimal parts.
fn p15_fields(s: &mut Src, c: &mut Ctx) -> Outcome {
    use wot_td::thing::*;
    let title = gen::string(s);
    let (key, href) = (gen::name(s), gen::string(s));
    let ty = *s.pick(&["array", "boolean", "number", "integer", "object", "string", "null"]);
    let mut p = json!({"forms": [{"href": href}], "type": ty});
    if s.chance(30) {
        p.as_object_mut().unwrap().remove("type");
    }
    let d = json!({
        "title": title, "security": [], 
        "securityDefinitions": {
            "b": {"scheme": "basic"}, "d": {"scheme": "digest"}, "r": {"scheme": "bearer"}, "k": {"scheme": "apikey"},
            "p": {"scheme": "psk"}, "o": {"scheme": "oauth2", "flow": href}, "n": {"scheme": "nosec"}, "a": {"scheme": "auto"}
        },
        "properties": {&key: p},
        "actions": {&key: {"forms": [{"href": href, "additionalResponses": [{}], "response": {"contentType": "c"}}], "input": {}}},
        "events": {&key: {"forms": []}},
        "links": [{"href": href}],
        "version": {"instance": title},
    });
    c.nontrivial(d.to_string());
    show_doc(c, "document", &d);
    let t = from_text::<Nil>(&d.to_string())?;
    let mut bad: Vec<&str> = vec![];
    macro_rules! check {
        ($($e:expr),* $(,)?) => {{ $( if !($e) { bad.push(stringify!($e)); } )* }};
    }
    check!(
        t.context == json!(TD11),
        t.title == title,
        t.id.is_none(),
        t.attype.is_none(),
        t.titles.is_none(),
        t.description.is_none(),
        t.descriptions.is_none(),
        t.created.is_none(),
        t.modified.is_none(),
        t.support.is_none(),
        t.base.is_none(),
        t.forms.is_none(),
        t.security.is_empty(),
        t.uri_variables.is_none(),
        t.profile.is_none(),
        t.schema_definitions.is_none(),
        t.version.as_ref().unwrap().model.is_none(),
    );
    let p = &t.properties.as_ref().unwrap()[&key];
    let i = &p.interaction;
    let x = &p.data_schema;
    check!(
        p.observable.is_none(),
        i.attype.is_none() && i.title.is_none() && i.titles.is_none() && i.description.is_none(),
        i.descriptions.is_none() && i.uri_variables.is_none(),
        !x.read_only && !x.write_only,
        x.constant.is_none() && x.default.is_none() && x.unit.is_none() && x.one_of.is_none(),
        x.enumeration.is_none() && x.format.is_none(),
        x.subtype.is_none() == d["properties"][&key].get("type").is_none(),
    );
    match &x.subtype {
        Some(DataSchemaSubtype::Array(a)) => {
            check!(ty == "array", a.items.is_none() && a.min_items.is_none() && a.max_items.is_none())
        }
        Some(DataSchemaSubtype::Boolean) => check!(ty == "boolean"),
        Some(DataSchemaSubtype::Number(n)) => {
            check!(ty == "number", n.maximum.is_none() && n.minimum.is_none() && n.multiple_of.is_none())
        }
        Some(DataSchemaSubtype::Integer(n)) => {
            check!(ty == "integer", n.maximum.is_none() && n.minimum.is_none() && n.multiple_of.is_none())
        }
        Some(DataSchemaSubtype::Object(o)) => check!(ty == "object", o.properties.is_none() && o.required.is_none()),
        Some(DataSchemaSubtype::String(v)) => check!(
            ty == "string",
            v.min_length.is_none() && v.max_length.is_none() && v.pattern.is_none(),
            v.content_encoding.is_none() && v.content_media_type.is_none()
        ),
        Some(DataSchemaSubtype::Null) => check!(ty == "null"),
        None => {}
    }
    let f = &i.forms[0];
    check!(
        f.op == DefaultedFormOperations::Default,
        f.op.is_default(),
        f.href == href,
        f.content_type.is_none() && f.content_coding.is_none() && f.subprotocol.is_none() && f.security.is_none(),
        f.scopes.is_none() && f.response.is_none() && f.additional_responses.is_none(),
    );
    let a = &t.actions.as_ref().unwrap()[&key];
    let r = &a.interaction.forms[0].additional_responses.as_ref().unwrap()[0];
    check!(
        !a.safe && !a.idempotent && a.synchronous.is_none() && a.output.is_none(),
        !r.success && r.content_type.is_none() && r.schema.is_none(),
        a.interaction.forms[0].response.as_ref().unwrap().content_type == "c",
        !a.input.as_ref().unwrap().read_only && !a.input.as_ref().unwrap().write_only,
        a.input.as_ref().unwrap().subtype.is_none(),
    );
    let e = &t.events.as_ref().unwrap()[&key];
    check!(
        e.subscription.is_none() && e.data.is_none() && e.data_response.is_none() && e.cancellation.is_none(),
    );
    let l = &t.links.as_ref().unwrap()[0];
    check!(l.ty.is_none() && l.rel.is_none() && l.anchor.is_none() && l.sizes.is_none() && l.hreflang.is_none());
    let known = |k: &str| match &t.security_definitions[k].subtype {
        SecuritySchemeSubtype::Known(x) => Some(x.clone()),
        _ => None,
    };
    use KnownSecuritySchemeSubtype as K;
    use SecurityAuthenticationLocation as L;
    check!(
        matches!(known("b"), Some(K::Basic(x)) if x.location == L::Header && x.name.is_none()),
        matches!(known("d"), Some(K::Digest(x)) if x.location == L::Header && x.name.is_none() && x.qop == QualityOfProtection::Auth),
        matches!(known("r"), Some(K::Bearer(x)) if x.location == L::Header && x.name.is_none() && x.alg == "ES256" && x.format == "jwt" && x.authorization.is_none()),
        matches!(known("k"), Some(K::ApiKey(x)) if x.location == L::Query && x.name.is_none()),
        matches!(known("p"), Some(K::Psk(x)) if x.identity.is_none()),
        matches!(known("o"), Some(K::OAuth2(x)) if x.flow == href && x.authorization.is_none() && x.token.is_none() && x.refresh.is_none() && x.scopes.is_none()),
        matches!(known("n"), Some(K::NoSec)),
        matches!(known("a"), Some(K::Auto)),
    );
    for k in ["b", "d", "r", "k", "p", "o", "n", "a"] {
        let x = &t.security_definitions[k];
        check!(x.attype.is_none() && x.description.is_none() && x.descriptions.is_none() && x.proxy.is_none());
    }
    // the default of the structures is the default of the members
    check!(
        matches!(known("b"), Some(K::Basic(x)) if x == BasicSecurityScheme::default()),
        matches!(known("d"), Some(K::Digest(x)) if x == DigestSecurityScheme::default()),
        matches!(known("r"), Some(K::Bearer(x)) if x == BearerSecurityScheme::default()),
        matches!(known("k"), Some(K::ApiKey(x)) if x == ApiKeySecurityScheme::default()),
    );
    if bad.is_empty() {
        Ok(())
    } else {
        Err(format!("does not hold: {}", bad.join("; ")))
    }
}

// ---------------------------------------------------------------------------------------------
// P16

fn p16_respelled(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, full) = doc::document(s);
    let mut bare = full.clone();
    let n = doc::unlist(&mut bare, s);
    if n > 0 {
        c.nontrivial(bare.to_string());
    }
    show_doc(c, "document with bare values", &bare);
    with_set!(set, X => {
        let a = from_text::<X>(&full.to_string())?;
        for b in [from_text::<X>(&bare.to_string())?, from_value::<X>(&bare)?] {
            if a != b {
                return Err(format!("not the same Thing: {}", same_doc("it differs", &to_value(&a)?, &to_value(&b)?).err().unwrap_or_default()));
            }
            let v = to_value(&b)?;
            same_doc("written", &full, &v)?;
            if from_value::<X>(&v)? != a {
                return Err("what was written is not read back equal".to_string());
            }
        }
        Ok(())
    })
}

/// Lists keep all elements in order, with repetitions.
fn p16_lists(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = doc::document(s);
    let mut long = 0;
    for (node, p) in doc::nodes(&d).into_iter().rev() {
        for k in doc::one_or_many(node, doc::at(&d, &p)) {
            if *k == "mqv:filter" && set != Set::P {
                continue;
            }
            let scheme = doc::at(&d, &p)["scheme"].as_str().unwrap_or("").to_string();
            let o = doc::obj_mut(&mut d, &p);
            if !s.chance(40) || (scheme == "combo" && *k != "@type" && !o.contains_key(*k)) {
                continue;
            }
            let n = s.below(5);
            let pool: Vec<String> = (0..2).map(|_| gen::string(s)).collect();
            let v: Vec<Value> = (0..n)
                .map(|_| match *k {
                    "op" => json!(ALL_OPS[s.below(18)].1),
                    "hreflang" => json!(gen::lang(s)),
                    "additionalResponses" => json!({"success": s.chance(50), "schema": s.pick(&pool)}),
                    _ => json!(s.pick(&pool)),
                })
                .collect();
            if n > 1 {
                long += 1;
            }
            // an empty list of operations or filters says what no list says
            if n == 0 && ["op", "mqv:filter"].contains(k) {
                o.remove(*k);
                continue;
            }
            o.insert(k.to_string(), json!(v));
        }
    }
    if long > 0 {
        c.nontrivial(d.to_string());
    }
    let want = d.clone();
    doc::unlist(&mut d, s);
    let order = u64::from(s.raw());
    with_set!(set, X => lossless::<X>(&d, &want, order, c))
}

/// One schema for all items, and one schema for the first item, are different things.
fn p16_items(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut d = doc::nil_document(s);
    let g = Gen::new(Set::Nil, s);
    let item = expect::schema::<Nil>(&g.schema(s, 2, false));
    let mut arr = json!({"type": "array", "readOnly": false, "writeOnly": false});
    arr["items"] = item.clone();
    for _ in 0..s.below(3) {
        arr = match s.below(3) {
            0 => json!({"type": "array", "items": arr, "readOnly": false, "writeOnly": false}),
            1 => json!({"type": "object", "properties": {"x": arr}, "readOnly": false, "writeOnly": false}),
            _ => json!({"oneOf": [{"type": "null", "readOnly": false, "writeOnly": false}, arr], "readOnly": false, "writeOnly": false}),
        };
    }
    fn tuple(v: &mut Value, item: &Value) -> bool {
        match v {
            Value::Object(o) => {
                if o.get("items") == Some(item) && o.get("type") == Some(&json!("array")) {
                    o.insert("items".into(), json!([item]));
                    return true;
                }
                o.values_mut().any(|v| tuple(v, item))
            }
            Value::Array(a) => a.iter_mut().any(|v| tuple(v, item)),
            _ => false,
        }
    }
    let mut one = arr.clone();
    if !tuple(&mut one, &item) {
        return Err("harness: no item".into());
    }
    let place = |d: &mut Value, x: Value, at: usize| match at {
        0 => d["schemaDefinitions"]["item test"] = x,
        1 => {
            let mut p = x;
            p["forms"] = json!([]);
            d["properties"]["item test"] = p;
        }
        2 => d["actions"]["item test"] = json!({"forms": [], "output": x, "safe": false, "idempotent": false}),
        _ => d["events"]["item test"] = json!({"forms": [], "data": x}),
    };
    let at = s.below(4);
    let mut a = d.clone();
    place(&mut a, arr, at);
    place(&mut d, one, at);
    c.nontrivial((a.to_string(), at));
    show_doc(c, "document", &d);
    let (ta, td) = (from_text::<Nil>(&a.to_string())?, from_text::<Nil>(&d.to_string())?);
    if ta == td {
        return Err("an item schema and a list of one item schema are read alike".into());
    }
    same_doc("one item schema", &a, &to_value(&ta)?)?;
    same_doc("list of one item schema", &d, &to_value(&td)?)
}

// ---------------------------------------------------------------------------------------------
// P17

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// What was accepted is stable.
fn stable<X: XSet>(t: &Thing<X>, deep: bool) -> Outcome {
    let v = to_value(t)?;
    let b = from_value::<X>(&v).map_err(|e| format!("what was written is refused: {e}"))?;
    if *t != b {
        return Err("the Thing written and read again is not equal".into());
    }
    if let Some(d) = expect::diff(&v, &to_value(&b)?) {
        return Err(format!("writing again differs: {d}"));
    }
    let _ = format!("{t:?}");
    if !deep {
        let text = serde_json::to_string(t).map_err(|e| format!("does not serialise: {e}"))?;
        let w = expect::strict_json(&text).map_err(|e| format!("the text written is not well-formed JSON: {e}"))?;
        if let Some(d) = expect::diff(&w, &v) {
            return Err(format!("text and value written differ: {d}"));
        }
        if from_text::<X>(&text)? != *t {
            return Err("the Thing read from the text written is not equal".into());
        }
    }
    Ok(())
}

fn survive_text<X: XSet>(bytes: &[u8]) -> Result<bool, String> {
    let r = serde_json::from_slice::<Thing<X>>(bytes);
    let text = std::str::from_utf8(bytes).ok();
    if let Some(t) = text {
        let r2 = serde_json::from_str::<Thing<X>>(t);
        if r2.is_ok() != r.is_ok() {
            return Err("bytes and text disagree on acceptance".into());
        }
        if let Ok(v) = expect::strict_json(t) {
            if depth(&v) < 120 {
                match (&r, serde_json::from_value::<Thing<X>>(v)) {
                    (Ok(a), Ok(b)) => {
                        if *a != b {
                            return Err("text and value give different Things".into());
                        }
                    }
                    (Err(_), Err(_)) => {}
                    (a, b) => {
                        return Err(format!(
                            "text and value disagree on acceptance: {:?} / {:?}",
                            a.as_ref().err().map(ToString::to_string),
                            b.err().map(|e| e.to_string())
                        ))
                    }
                }
            }
        }
    }
    match r {
        Ok(t) => stable::<X>(&t, false).map(|()| true),
        Err(_) => Ok(false),
    }
}

fn survive_value<X: XSet>(v: &Value) -> Result<bool, String> {
    match serde_json::from_value::<Thing<X>>(v.clone()) {
        Ok(t) => stable::<X>(&t, depth(v) > 100).map(|()| true),
        Err(_) => Ok(false),
    }
}

const TOKENS: &[&str] = &[
    "{", "}", "[", "]", ",", ":", "\"", "null", "true", "false", "0", "-1", "1e400", "-0.0", "1e-400", "18446744073709551616",
    "9223372036854775808", "\"\"", "\\u0000", "\\ud800", "\u{feff}", "\u{0}", "{}", "[]", "\"@type\":", "\"type\":\"array\",",
    "\"type\":\"object\",", "\"items\":", "\"oneOf\":[", "\"const\":null,", "\"scheme\":\"combo\",", "\"op\":[],", "\"title\":\"x\",",
    "\"minimum\":1,", "\"exclusiveMinimum\":1,", "\"readOnly\":null,", "\"data_response\":{},", "\"security\":\"\",", "\"$serde_json::private::Number\":\"1\",",
    "\"$serde_json::private::RawValue\":\"1\",", "\"forms\":[],", "\"multipleOf\":0,",
];

fn p17_bytes(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = doc::document(s);
    let mut b = doc::write_text(&d, &mut Rng(u64::from(s.raw()))).into_bytes();
    let other = if s.chance(20) {
        doc::nil_document(s).to_string().into_bytes()
    } else {
        b.clone()
    };
    for _ in 0..1 + s.below(4) {
        if b.is_empty() {
            break;
        }
        let at = s.below(b.len());
        let span = |s: &mut Src, n: usize| -> usize {
            match s.below(3) {
                0 => 1,
                1 => s.below(12),
                _ => s.below(n.max(1)),
            }
        };
        match s.below(8) {
            0 => b[at] = s.raw() as u8,
            1 => {
                let n = span(s, b.len() - at).min(b.len() - at);
                b.drain(at..at + n);
            }
            2 | 3 => {
                let t = match s.below(4) {
                    0 => dict::token(s),
                    _ => None,
                };
                let t = t.unwrap_or_else(|| s.pick(TOKENS).to_string()).into_bytes();
                b.splice(at..at, t);
            }
            4 => b.truncate(at),
            5 => {
                // a range again
                let n = span(s, b.len() - at).min(b.len() - at);
                let r = b[at..at + n].to_vec();
                b.splice(at..at, r);
            }
            6 => {
                // a range of another document
                let from = s.below(other.len());
                let n = span(s, other.len() - from).min(other.len() - from);
                let end = (at + span(s, b.len() - at)).min(b.len());
                b.splice(at..end, other[from..from + n].iter().copied());
            }
            _ => {
                // swap two characters
                let to = s.below(b.len());
                b.swap(at, to);
            }
        }
    }
    c.show("text", || String::from_utf8_lossy(&b).into_owned());
    let ok = with_set!(set, X => survive_text::<X>(&b))?;
    if set != Set::Nil {
        survive_text::<Nil>(&b)?;
    }
    if ok {
        c.label("accepted");
    }
    if ok || (b.len() >= 40 && b[0] == b'{' && std::str::from_utf8(&b).is_ok()) {
        c.nontrivial(&b);
    }
    Ok(())
}

/// Terms of the vocabulary, to insert anywhere.
pub const TERMS: &[&str] = &[
    "@context", "@type", "id", "title", "titles", "description", "descriptions", "version", "created", "modified", "support", "base",
    "properties", "actions", "events", "links", "forms", "security", "securityDefinitions", "uriVariables", "profile",
    "schemaDefinitions", "observable", "input", "output", "safe", "idempotent", "synchronous", "subscription", "data", "dataResponse",
    "data_response", "cancellation", "const", "default", "unit", "oneOf", "allOf", "enum", "readOnly", "writeOnly", "format", "type", "items",
    "minItems", "maxItems", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "required", "minLength", "maxLength",
    "pattern", "contentEncoding", "contentMediaType", "proxy", "scheme", "in", "name", "qop", "authorization", "alg", "identity", "token",
    "refresh", "scopes", "flow", "href", "rel", "anchor", "sizes", "hreflang", "op", "contentType", "contentCoding", "subprotocol",
    "response", "additionalResponses", "success", "schema", "instance", "model", "htv:methodName", "cov:method", "mqv:qos", "mqv:filter", "a:form",
];

/// Values which are good somewhere.
fn plausible(s: &mut Src) -> Value {
    match s.below(12) {
        0 => json!({}),
        1 => json!([]),
        2 => json!(s.pick(&["array", "object", "string", "number", "integer", "boolean", "null"])),
        3 => json!(s.chance(50)),
        4 => json!(ALL_OPS[s.below(18)].1),
        5 => json!(s.pick(&["nosec", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey", "auto", "custom"])),
        6 => json!(s.pick(&["header", "query", "body", "cookie", "uri", "auth", "auth-int", "2022-01-01T00:00:00Z", "en", "icon"])),
        7 => json!(gen::int(s)),
        8 => Value::Null,
        9 => {
            let g = Gen::new(Set::Nil, s);
            expect::schema::<Nil>(&g.schema(s, 1, false))
        }
        10 => {
            let g = Gen::new(Set::Nil, s);
            expect::form::<Nil>(&g.form(s, Where::Property))
        }
        _ => gen::json(s, 2),
    }
}

fn all_paths(v: &Value, p: &mut Path, out: &mut Vec<Path>) {
    out.push(p.clone());
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Seg::K(k.clone()));
                all_paths(x, p, out);
                p.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(Seg::I(i));
                all_paths(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}

/// One structural change anywhere in a JSON value.
pub fn change(d: &mut Value, s: &mut Src) -> String {
    let mut paths = vec![];
    all_paths(d, &mut vec![], &mut paths);
    let p = s.pick(&paths).clone();
    let pick_at = |s: &mut Src| s.pick(&paths).clone();
    let donor = doc::at(d, &pick_at(s)).clone();
    let at = doc::show(&p);
    let v = doc::at_mut(d, &p);
    match (s.below(8), v) {
        // change the value a little
        (0..=2, v) => {
            match v {
                Value::Bool(b) => *b = !*b,
                Value::String(t) => match s.below(4) {
                    0 => t.push('x'),
                    1 => {
                        t.pop();
                    }
                    2 => *t = gen::string(s),
                    _ => *t = plausible(s).as_str().unwrap_or("x").to_string(),
                },
                Value::Number(n) => {
                    let n = n.clone();
                    *v = match s.below(3) {
                        0 => n
                            .as_i64()
                            .map(|i| json!(i.wrapping_add(1)))
                            .or(n.as_f64().map(|f| json!(f + 0.5)))
                            .unwrap_or(json!(1)),
                        1 => json!(gen::int(s)),
                        _ => json!(gen::float(s)),
                    }
                }
                Value::Null => *v = plausible(s),
                Value::Array(a) => match s.below(5) {
                    0 if !a.is_empty() => {
                        let i = s.below(a.len());
                        a.remove(i);
                    }
                    1 if !a.is_empty() => {
                        let i = s.below(a.len());
                        let x = a[i].clone();
                        a.insert(s.below(a.len() + 1), x);
                    }
                    2 if a.len() > 1 => {
                        let i = s.below(a.len() - 1);
                        a.swap(i, i + 1);
                    }
                    3 => a.push(plausible(s)),
                    _ => a.push(donor),
                },
                Value::Object(o) => {
                    let keys: Vec<String> = o.keys().cloned().collect();
                    match s.below(4) {
                        0 if !keys.is_empty() => {
                            o.remove(s.pick(&keys));
                        }
                        1 if !keys.is_empty() => {
                            let k = s.pick(&keys).clone();
                            let x = o.remove(&k).unwrap();
                            let n = if s.chance(50) { format!("{k}x") } else { s.pick(TERMS).to_string() };
                            o.insert(n, x);
                        }
                        2 => {
                            o.insert(s.pick(TERMS).to_string(), plausible(s));
                        }
                        _ => {
                            o.insert(s.pick(TERMS).to_string(), donor);
                        }
                    }
                }
            }
            format!("changed {at}")
        }
        (3, v) => {
            *v = plausible(s);
            format!("replaced {at}")
        }
        (4, v) => {
            *v = donor;
            format!("replaced {at} by another part")
        }
        (5, v) => {
            let x = v.take();
            *v = json!([x]);
            format!("wrapped {at}")
        }
        (6, v) => {
            if let Value::Array(a) = v {
                if a.len() == 1 {
                    *v = a.pop().unwrap();
                }
            }
            format!("unwrapped {at}")
        }
        (_, v) => {
            if let Value::Object(o) = v {
                o.insert(s.pick(TERMS).to_string(), plausible(s));
            }
            format!("inserted into {at}")
        }
    }
}

fn p17_values(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = doc::document(s);
    for _ in 0..1 + s.below(3) {
        let what = change(&mut d, s);
        c.show("change", || what);
    }
    show_doc(c, "document", &d);
    let ok = with_set!(set, X => survive_value::<X>(&d))?;
    let text = d.to_string();
    if depth(&d) < 110 {
        let b = with_set!(set, X => survive_text::<X>(text.as_bytes()))?;
        if ok != b {
            return Err("text and value disagree on acceptance".into());
        }
    }
    if ok {
        c.label("accepted");
        c.nontrivial(&text);
    } else if text.len() >= 40 {
        c.nontrivial(&text);
    }
    Ok(())
}

fn p17_junk(s: &mut Src, c: &mut Ctx) -> Outcome {
    let b: Vec<u8> = match s.below(3) {
        0 => (0..s.below(200)).map(|_| s.raw() as u8).collect(),
        1 => {
            // a soup of tokens
            let mut t = String::from("{");
            for _ in 0..s.below(60) {
                match s.below(3) {
                    0 => t.push_str(s.pick(TOKENS)),
                    1 => t.push_str(&format!("\"{}\":", s.pick(TERMS))),
                    _ => t.push_str(&plausible(s).to_string()),
                }
                if s.chance(50) {
                    t.push(',');
                }
            }
            if s.chance(50) {
                t.push('}');
            }
            t.into_bytes()
        }
        _ => {
            // an object of known terms with plausible values
            let mut o = Map::new();
            for k in ["title", "security", "securityDefinitions"] {
                if s.chance(90) {
                    let v = match (k, s.chance(90)) {
                        ("title", true) => json!("t"),
                        ("security", true) => json!([]),
                        (_, true) => json!({}),
                        _ => plausible(s),
                    };
                    o.insert(k.into(), v);
                }
            }
            for _ in 0..s.below(8) {
                o.insert(s.pick(TERMS).to_string(), plausible(s));
            }
            Value::Object(o).to_string().into_bytes()
        }
    };
    c.show("input", || String::from_utf8_lossy(&b).into_owned());
    let mut ok = survive_text::<Nil>(&b)?;
    ok |= survive_text::<ext::XAB>(&b)?;
    ok |= survive_text::<XP>(&b)?;
    if ok {
        c.label("accepted");
    }
    if ok || (b.len() >= 40 && b[0] == b'{' && std::str::from_utf8(&b).is_ok()) {
        c.nontrivial(&b);
    }
    Ok(())
}

/// Deeply nested schemas, values and lists.
fn p17_deep(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = match s.below(4) {
        0 => 1 + s.below(30),
        1 => 30 + s.below(30),
        2 => 60 + s.below(60),
        _ => 120 + s.below(200),
    };
    let leaf = match s.below(4) {
        0 => json!({"type": "string"}),
        1 => json!({"type": 5}),
        2 => json!({"type": "integer", "minimum": "x"}),
        _ => plausible(s),
    };
    let mut v = leaf;
    let style = s.below(7);
    for i in 0..n {
        let k = if style == 6 { s.below(6) } else { style };
        v = match k {
            0 => json!({"type": "array", "items": v}),
            1 => json!({"type": "array", "items": [v]}),
            2 => json!({"oneOf": [v]}),
            3 => json!({"type": "object", "properties": {"a": v}}),
            4 => json!([v]),
            _ => json!({"a": v, "b": i}),
        };
    }
    let what = s.below(8);
    let mut d = json!({"title": "t", "security": [], "securityDefinitions": {}});
    match what {
        0 => d["schemaDefinitions"] = json!({"s": v}),
        1 => {
            if let Value::Object(_) = v {
                v["forms"] = json!([]);
            }
            d["properties"] = json!({"p": v});
        }
        2 => d["actions"] = json!({"p": {"forms": [], "input": v}}),
        3 => d["events"] = json!({"p": {"forms": [], "data": v}}),
        4 => d["@context"] = v,
        5 => d["schemaDefinitions"] = json!({"s": {"const": v}}),
        6 => d["securityDefinitions"] = json!({"s": {"scheme": "custom", "data": v}}),
        _ => d["properties"] = json!({"p": {"forms": [{"href": "x", "foreign": v}]}}),
    }
    c.show("nesting", || format!("{n} levels, style {style}, place {what}"));
    c.nontrivial((n, style, what, d.to_string().len()));
    let text = d.to_string();
    let mut ok = survive_text::<Nil>(text.as_bytes())?;
    ok |= survive_value::<Nil>(&d)?;
    ok |= survive_text::<ext::XAB>(text.as_bytes())?;
    ok |= survive_value::<XP>(&d)?;
    if ok {
        c.label("accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P20

/// Equality of values as the library may see it: numbers as numbers.
fn loose(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| loose(v, w)))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| loose(v, w)),
        (Value::Number(x), Value::Number(y)) => match (x.is_f64(), y.is_f64()) {
            (true, true) => x.as_f64() == y.as_f64(),
            (false, false) => x == y,
            _ => false,
        },
        _ => a == b,
    }
}

fn times_as_instants(v: &mut Value) {
    expect::canon_thing(v);
    if let Some(o) = v.as_object_mut() {
        for k in ["created", "modified"] {
            if let Some(Value::String(t)) = o.get_mut(k) {
                if let Some(i) = t.find('@') {
                    t.truncate(i);
                }
            }
        }
    }
}

fn equal_as_written<X: XSet>(a: &Thing<X>, b: &Thing<X>) -> Result<(bool, Value, Value), String> {
    let (mut x, mut y) = (to_value(a)?, to_value(b)?);
    times_as_instants(&mut x);
    times_as_instants(&mut y);
    Ok((loose(&x, &y), x, y))
}

fn compare_part<T: PartialEq + serde::Serialize>(what: &str, a: &T, b: &T, c: &mut Ctx) -> Outcome {
    c.evals += 1;
    let (x, y) = (serde_json::to_value(a).unwrap(), serde_json::to_value(b).unwrap());
    let want = loose(&x, &y);
    if (a == b) != want || (b == a) != want || (a != b) == want {
        return Err(format!("{what}: == says {}, the JSON {x} and {y}", a == b));
    }
    Ok(())
}

fn compare<X: XSet>(d1: &Value, d2: &Value, c: &mut Ctx) -> Outcome {
    let a = from_value::<X>(d1)?;
    let Ok(b) = from_value::<X>(d2) else {
        c.label("changed document refused");
        return Ok(());
    };
    let (want, x, y) = equal_as_written::<X>(&a, &b)?;
    if !want {
        c.nontrivial(d2.to_string());
        c.label("different");
    }
    if (a == b) != want || (b == a) != want || (a != b) == want {
        return Err(format!(
            "== says {}, {} the other way, but the JSON is {}: {}",
            a == b,
            b == a,
            if want { "the same" } else { "different" },
            expect::diff(&x, &y).unwrap_or_default()
        ));
    }
    #[allow(clippy::eq_op)]
    if a != a || b != b {
        return Err("not equal to itself".into());
    }
    // parts under the same name
    for (n, p) in a.properties.iter().flatten() {
        if let Some(q) = b.properties.as_ref().and_then(|v| v.get(n)) {
            compare_part("properties", p, q, c)?;
            compare_part("property interactions", &p.interaction, &q.interaction, c)?;
            compare_part("property schemas", &p.data_schema, &q.data_schema, c)?;
            for (f, g) in p.interaction.forms.iter().zip(&q.interaction.forms) {
                compare_part("forms", f, g, c)?;
            }
        }
    }
    for (n, p) in a.actions.iter().flatten() {
        if let Some(q) = b.actions.as_ref().and_then(|v| v.get(n)) {
            compare_part("actions", p, q, c)?;
            compare_part("action interactions", &p.interaction, &q.interaction, c)?;
        }
    }
    for (n, p) in a.events.iter().flatten() {
        if let Some(q) = b.events.as_ref().and_then(|v| v.get(n)) {
            compare_part("events", p, q, c)?;
        }
    }
    for (n, p) in &a.security_definitions {
        if let Some(q) = b.security_definitions.get(n) {
            compare_part("security schemes", p, q, c)?;
        }
    }
    for (p, q) in a.links.iter().flatten().zip(b.links.iter().flatten()) {
        compare_part("links", p, q, c)?;
    }
    for (n, p) in a.schema_definitions.iter().flatten() {
        if let Some(q) = b.schema_definitions.as_ref().and_then(|v| v.get(n)) {
            compare_part("data schemas", p, q, c)?;
        }
    }
    Ok(())
}

fn p20_change(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = doc::document(s);
    let mut e = d.clone();
    let what = change(&mut e, s);
    c.show("change", || what);
    show_doc(c, "first document", &d);
    show_doc(c, "second document", &e);
    with_set!(set, X => compare::<X>(&d, &e, c))
}

/// A change of a member that means something where it is.
fn p20_known(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = doc::document(s);
    let mut e = d.clone();
    let what = change_known(&mut e, s);
    c.show("change", || what);
    show_doc(c, "first document", &d);
    show_doc(c, "second document", &e);
    with_set!(set, X => compare::<X>(&d, &e, c))
}

fn change_known(e: &mut Value, s: &mut Src) -> String {
    let nodes = doc::nodes(e);
    let (node, p) = s.pick(&nodes).clone();
    let opt = optional(node, doc::at(e, &p));
    let o = doc::obj_mut(e, &p);
    let mut keys: Vec<String> = o.keys().cloned().collect();
    keys.extend(opt.iter().map(|k| k.to_string()));
    if keys.is_empty() {
        keys.push("en".into());
    }
    let k = s.pick(&keys).clone();
    match o.get(&k) {
        Some(_) if s.chance(40) => {
            o.remove(&k);
        }
        Some(v) => {
            let new = similar(v, s);
            o.insert(k.clone(), new);
        }
        None => {
            let new = sample(node, &k, s);
            o.insert(k.clone(), new);
        }
    }
    format!("{k} at {}", doc::show(&p))
}

/// A document and another one with one change, which means something more often than not.
pub fn two_documents(s: &mut Src) -> (Set, Value, Value) {
    let (set, d) = doc::document(s);
    let mut e = d.clone();
    if s.chance(25) {
        change(&mut e, s);
    } else {
        change_known(&mut e, s);
    }
    (set, d, e)
}

/// A value of the same type.
fn similar(v: &Value, s: &mut Src) -> Value {
    match v {
        Value::Bool(b) => json!(!b),
        Value::String(t) => match s.below(3) {
            0 => json!(format!("{t}x")),
            1 => json!(stamp_or(t, s)),
            _ => json!(gen::string(s)),
        },
        Value::Number(n) if n.is_f64() => json!(n.as_f64().unwrap() + 1.0),
        Value::Number(n) => n.as_i64().map_or(json!(0), |i| json!(i.wrapping_add(1))),
        Value::Array(a) => {
            let mut a = a.clone();
            match s.below(4) {
                0 if !a.is_empty() => {
                    a.remove(s.below(a.len()));
                }
                1 if a.len() > 1 => a.reverse(),
                2 if !a.is_empty() => {
                    let i = s.below(a.len());
                    a[i] = similar(&a[i], s);
                }
                _ => match a.first().cloned() {
                    Some(x) => a.push(x),
                    None => a.push(json!("x")),
                },
            }
            Value::Array(a)
        }
        Value::Object(o) => {
            let mut o = o.clone();
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() {
                return json!({"en": "x"});
            }
            let k = s.pick(&keys).clone();
            if s.chance(40) {
                o.remove(&k);
            } else {
                let x = similar(&o[&k], s);
                o.insert(k, x);
            }
            Value::Object(o)
        }
        Value::Null => json!(0),
    }
}

fn stamp_or(t: &str, s: &mut Src) -> String {
    if expect::instant(t).is_some() {
        doc::stamp(s)
    } else if ALL_OPS.iter().any(|o| o.1 == t) {
        ALL_OPS[s.below(18)].1.to_string()
    } else {
        format!(" {t}")
    }
}

/// A value a member may have.
fn sample(node: Node, k: &str, s: &mut Src) -> Value {
    let g = Gen::new(Set::Nil, s);
    match k {
        "titles" | "descriptions" => json!({gen::lang(s): gen::string(s)}),
        "version" => json!({"instance": gen::string(s)}),
        "created" | "modified" => json!(doc::stamp(s)),
        "properties" if matches!(node, Node::Schema { .. }) => json!({"m": {}}),
        "properties" => json!({"p": {"forms": []}}),
        "actions" | "events" => json!({"p": {"forms": []}}),
        "links" => json!([{"href": gen::string(s)}]),
        "forms" => json!([{"href": gen::string(s), "op": "readallproperties"}]),
        "uriVariables" | "schemaDefinitions" => json!({"u": expect::schema::<Nil>(&g.schema(s, 1, true))}),
        "input" | "output" | "subscription" | "data" | "dataResponse" | "cancellation" | "items" => {
            expect::schema::<Nil>(&g.schema(s, 1, false))
        }
        "observable" | "synchronous" => json!(s.chance(50)),
        "const" | "default" => gen::json(s, 1),
        "enum" => json!([gen::json(s, 1)]),
        "oneOf" => json!([{"type": "null"}]),
        "type" if matches!(node, Node::Schema { .. }) => json!(s.pick(&["null", "string", "boolean", "object", "array"])),
        "minItems" | "maxItems" | "minLength" | "maxLength" | "multipleOf" => json!(1 + s.below(9)),
        "minimum" | "maximum" | "exclusiveMinimum" | "exclusiveMaximum" => json!(gen::int(s)),
        "required" | "@type" | "scopes" | "security" | "profile" => json!([gen::string(s)]),
        "hreflang" => json!([gen::lang(s)]),
        "op" => json!([ALL_OPS[s.below(18)].1]),
        "response" => json!({"contentType": gen::string(s)}),
        "additionalResponses" => json!([{"success": s.chance(50)}]),
        _ => json!(gen::string(s)),
    }
}

/// Equivalent spellings and orders of members are equal.
fn p20_same(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = doc::document(s);
    let mut e = d.clone();
    doc::unlist(&mut e, s);
    doc::undefault(&mut e, s);
    if e != d {
        c.nontrivial(e.to_string());
    }
    let text = doc::write_text(&e, &mut Rng(u64::from(s.raw())));
    c.show("respelled", || text.clone());
    with_set!(set, X => {
        let (a, b) = (from_value::<X>(&d)?, from_text::<X>(&text)?);
        if a != b || b != a {
            return Err(format!("equivalent documents are read as different Things: {}", same_doc("it differs", &to_value(&a)?, &to_value(&b)?).err().unwrap_or_default()));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// P22

fn same_instant(what: &str, want: (i128, i32), got: &time::OffsetDateTime) -> Outcome {
    let g = (got.unix_timestamp_nanos(), got.offset().whole_seconds());
    if g != (want.0, want.1 * 60) {
        return Err(format!("{what}: wanted {} ns at {} min, got {} ns at {} s ({got})", want.0, want.1, g.0, g.1));
    }
    Ok(())
}

fn written(what: &str, v: &Value, want: Option<(i128, i32)>) -> Outcome {
    let got = match v {
        Value::Null => None,
        Value::String(t) => Some(expect::instant(t).ok_or(format!("{what}: {t:?} is not an RFC 3339 timestamp"))?),
        v => return Err(format!("{what}: {v} is not a string")),
    };
    if got != want {
        return Err(format!("{what}: wanted {want:?}, got {got:?} from {v}"));
    }
    Ok(())
}

fn p22_builder(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = MThing::new(Set::Nil, "t");
    m.created = s.opt(80, gen::timestamp);
    m.modified = s.opt(80, gen::timestamp);
    let of = |t: &Option<time::OffsetDateTime>| t.as_ref().map(|t| (t.unix_timestamp_nanos(), t.offset().whole_seconds() / 60));
    let (cr, mo) = (of(&m.created), of(&m.modified));
    let odd = |t: &Option<(i128, i32)>| t.is_some_and(|(n, o)| o != 0 || n % 1_000_000_000 != 0);
    if odd(&cr) || odd(&mo) {
        c.nontrivial((cr, mo));
    }
    c.show("created", || format!("{:?}", m.created));
    c.show("modified", || format!("{:?}", m.modified));
    let mut o = some_order(s);
    let t = built::<Nil>(&m, &mut o)?;
    if t.created != m.created || t.modified != m.modified {
        return Err("the built Thing has other timestamps".into());
    }
    let v = to_value(&t)?;
    written("created", &v["created"], cr)?;
    written("modified", &v["modified"], mo)?;
    let text = serde_json::to_string(&t).unwrap();
    for b in [from_value::<Nil>(&v)?, from_text::<Nil>(&text)?] {
        for (what, want, got) in [("created", cr, b.created), ("modified", mo, b.modified)] {
            match (want, got) {
                (None, None) => {}
                (Some(w), Some(g)) => same_instant(what, w, &g)?,
                _ => return Err(format!("{what} appeared or went away")),
            }
        }
    }
    Ok(())
}

fn p22_document(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut d = json!({"title": "t", "security": [], "securityDefinitions": {}});
    let mut want = [None, None];
    for (i, k) in ["created", "modified"].into_iter().enumerate() {
        if s.chance(80) {
            let mut t = doc::stamp(s);
            match s.below(8) {
                0 => t = t.replace('T', "t"),
                1 => t = t.replace('Z', "z"),
                2 => t = t.replace('Z', "-00:00"),
                _ => {}
            }
            want[i] = Some(expect::instant(&t).ok_or(format!("harness: {t} is not a timestamp"))?);
            d[k] = json!(t);
        }
    }
    show_doc(c, "document", &d);
    if want.iter().flatten().any(|(n, o)| *o != 0 || n % 1_000_000_000 != 0) {
        c.nontrivial(d.to_string());
    }
    for t in [from_text::<Nil>(&d.to_string())?, from_value::<Nil>(&d)?] {
        for (what, want, got) in [("created", want[0], t.created), ("modified", want[1], t.modified)] {
            match (want, got) {
                (None, None) => {}
                (Some(w), Some(g)) => same_instant(what, w, &g)?,
                _ => return Err(format!("{what} appeared or went away")),
            }
        }
        let v = to_value(&t)?;
        written("created", &v["created"], want[0])?;
        written("modified", &v["modified"], want[1])?;
    }
    Ok(())
}

fn p22_malformed(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut t = doc::stamp(s);
    let n = t.len();
    match s.below(9) {
        0 => {
            t.remove(s.below(n));
        }
        1 => t.insert(s.below(n + 1), *s.pick(&['0', '-', ' ', 'x', ':', '+', 'Z', '9'])),
        2 => t.truncate(s.below(n)),
        3 => {
            // a field out of range
            let (at, v) = *s.pick(&[(5, "13"), (5, "00"), (8, "32"), (8, "00"), (11, "24"), (14, "60"), (17, "61"), (5, "99"), (11, "99")]);
            t.replace_range(at..at + 2, v);
        }
        4 => t = t.replacen("T", s.pick(&["", "TT", "T ", " T", "-T"]), 1),
        5 => {
            // a date that is not
            let y = *s.pick(&["2021", "1900", "2023", "2100"]);
            t.replace_range(0..4, y);
            t.replace_range(5..10, s.pick(&["02-29", "02-30", "04-31", "06-31", "09-31", "11-31"]));
        }
        6 => t = s.pick(&["", "now", "2022", "2022-01-01", "12:00:00Z", "2022-01-01T00:00:00", "20220101T000000Z", "0", "null", "2022-W01-1T00:00:00Z", "-2022-01-01T00:00:00Z", "+12022-01-01T00:00:00Z", "2022-01-01T00:00Z", "2022-01-01T00:00:00+25:00", "2022-01-01T00:00:00+01:60", "2022-01-01T00:00:00.Z", "2022-01-01T00:00:00,5Z"]).to_string(),
        7 => t = t.chars().map(|c| if c.is_ascii_digit() && s.chance(15) { '٣' } else { c }).collect(),
        _ => t = gen::string(s),
    }
    let k = *s.pick(&["created", "modified"]);
    let v = if s.chance(15) {
        s.pick(&[json!(0), json!(1_640_995_200), json!(true), json!([2022, 1, 1]), json!({}), json!(["2022-01-01T00:00:00Z"]), json!(1.5)]).clone()
    } else {
        json!(t)
    };
    // leap seconds and other separators are left open by the specification
    let b = t.as_bytes();
    let open = v.is_string()
        && ((b.len() > 18 && &b[17..19] == b"60") || (b.len() > 10 && !b[10].is_ascii_alphanumeric()));
    let good = v.as_str().is_some_and(|t| expect::instant(t).is_some());
    if open {
        return Ok(());
    }
    let d = json!({"title": "t", "security": [], "securityDefinitions": {}, k: v});
    show_doc(c, "document", &d);
    if !good {
        c.nontrivial(d.to_string());
    }
    for ok in [from_text::<Nil>(&d.to_string()).is_ok(), from_value::<Nil>(&d).is_ok()] {
        if ok != good {
            return Err(format!("{k} is {v}: accepted is {ok}"));
        }
    }
    Ok(())
}
