//! The rules of the builder: P04 soundness, P05 completeness and accuracy, P06 limits, P07 form
//! operations, P08 references, P09 names, URI variables and icon sizes, P10 language tags.

use serde_json::{json, Value};
use wot_td::{
    builder::{Error, FormContext},
    hlist::Nil,
    thing::{DefaultedFormOperations, FormOperation, Thing},
};

use super::*;
use crate::{
    doc::{self, Node},
    engine::{arm, arm_all, Check, Ctx, Outcome, Src},
    ext::XSet,
    gen,
    inject::{self, all_faults, gen_for, Fault, Role, ROLES, WHERES},
    validate, with_set,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P04",
            rule: "every case: one to four faults are planted in an otherwise valid description; distinct by the description",
            assumptions: &["faults are those of the builder's error type, planted at every place where they can be"],
            arms: vec![
                arm("one", p04_one, 60_000, 2_500_000),
                arm("some", p04_some, 40_000, 1_500_000),
                arm("alone", p04_alone, 40_000, 1_500_000),
            ],
            known: vec![],
        },
        Check {
            id: "P05",
            rule: "the description has at least one affordance, form, link, schema definition or URI variable, or breaks a rule",
            assumptions: &[
                "with several faults any of them may be reported",
                "an undefined name in a combo may be reported as an undefined security or schema (the tests pin the latter)",
            ],
            arms: vec![
                arm("valid", p05_valid, 50_000, 2_000_000),
                arm("boundary", p05_boundary, 40_000, 1_500_000),
                arm("faulty", p05_faulty, 50_000, 2_000_000),
                arm("several", p05_several, 30_000, 1_000_000),
            ],
            known: vec![],
        },
        Check {
            id: "P06",
            rule: "every case: a schema with limits at or near the boundary of the rule; distinct by the description",
            assumptions: &["multipleOf infinite is left open"],
            arms: vec![
                arm("places", p06_places, 80_000, 3_000_000),
                arm_all("pairs", p06_pairs, PAIRS),
            ],
            known: vec![],
        },
        Check {
            id: "P07",
            rule: "the form has at least one operation (enumerated arm: every case)",
            assumptions: &[],
            arms: vec![
                arm_all("every operation", p07_every, 4 * 18 * 4),
                arm("allowed", p07_allowed, 30_000, 1_000_000),
                arm("disallowed", p07_disallowed, 40_000, 1_500_000),
                arm("without", p07_without, 20_000, 800_000),
                arm_all("names", p07_names, 18),
                arm("parse", p07_parse, 20_000, 600_000),
            ],
            known: vec![],
        },
        Check {
            id: "P08",
            rule: "the description refers to at least one security or schema definition",
            assumptions: &["an undefined name in a combo may be reported as an undefined security or schema (the tests pin the latter)"],
            arms: vec![
                arm("defined", p08_defined, 40_000, 1_500_000),
                arm("undefined", p08_undefined, 50_000, 2_000_000),
            ],
            known: vec![],
        },
        Check {
            id: "P09",
            rule: "every case: two equal names, a composite URI variable, sizes on a link, or the closest thing allowed",
            assumptions: &["a URI variable whose oneOf alternatives are composite is left open"],
            arms: vec![
                arm("names", p09_names, 40_000, 1_500_000),
                arm("same across kinds", p09_across, 20_000, 800_000),
                arm("uri", p09_uri, 30_000, 1_000_000),
                arm("sizes", p09_sizes, 30_000, 1_000_000),
            ],
            known: vec![],
        },
        Check {
            id: "P10",
            rule: "the description or document has at least one language tag",
            assumptions: &[
                "well-formedness is that of RFC 5646 section 2.2.9, on tags where the language tag library used and the grammar of the check agree",
                "letter case is not significant in a tag",
                "the tags of one map differ in more than letter case",
            ],
            arms: vec![
                arm("builder", p10_builder, 40_000, 1_500_000),
                arm("builder malformed", p10_builder_bad, 40_000, 1_500_000),
                arm("parser malformed", p10_parser_bad, 40_000, 1_500_000),
                arm("parser", p10_parser, 30_000, 1_000_000),
            ],
            known: vec![],
        },
    ]
}

fn build_error<X: XSet>(m: &MThing, o: &mut drive::Order) -> Result<(), Error> {
    drive::build::<X>(m, o).map(|_| ())
}

fn try_build(m: &MThing, o: &mut drive::Order) -> Result<(), Error> {
    with_set!(m.set, X => build_error::<X>(m, o))
}

fn show_model(c: &mut Ctx, m: &MThing) {
    if c.verbose {
        let v = with_set!(m.set, X => crate::expect::thing::<X>(m));
        show_doc(c, "description", &v);
    }
}

fn key(m: &MThing) -> String {
    format!("{m:?}")
}

// ---------------------------------------------------------------------------------------------
// P04

fn refused(m: &MThing, s: &mut Src, c: &mut Ctx, what: &str) -> Outcome {
    c.nontrivial(key(m));
    show_model(c, m);
    let mut o = some_order(s);
    match try_build(m, &mut o) {
        Err(_) => Ok(()),
        Ok(()) => Err(format!(
            "built in spite of: {what} (expected one of {:?})",
            validate::violations(m)
        )),
    }
}

fn p04_one(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = any_thing(s);
    let f = *s.pick(&all_faults());
    inject::inject(&mut m, f, s);
    c.label(f.label());
    c.show("fault", || format!("{f:?}"));
    refused(&m, s, c, f.label())
}

fn p04_some(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = any_thing(s);
    let all = all_faults();
    let n = 2 + s.below(3);
    let mut last = all[0];
    for _ in 0..n {
        last = *s.pick(&all);
        inject::inject(&mut m, last, s);
    }
    // an earlier fault may be overwritten, the last one is there
    refused(&m, s, c, last.label())
}

/// The fault in a description with hardly anything else.
fn p04_alone(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = MThing::new(any_set(s), "t");
    let f = *s.pick(&all_faults());
    inject::inject(&mut m, f, s);
    c.label(f.label());
    c.show("fault", || format!("{f:?}"));
    refused(&m, s, c, f.label())
}

// ---------------------------------------------------------------------------------------------
// P05

fn accepted(m: &MThing, s: &mut Src, c: &mut Ctx) -> Outcome {
    if has_content(m) {
        c.nontrivial(key(m));
    }
    show_model(c, m);
    let v = validate::violations(m);
    if !v.is_empty() {
        return Err(format!("harness: the description breaks rules: {v:?}"));
    }
    let mut o = some_order(s);
    try_build(m, &mut o).map_err(|e| format!("a valid description is refused: {e:?}"))
}

fn accurate(m: &MThing, s: &mut Src, c: &mut Ctx) -> Outcome {
    c.nontrivial(key(m));
    show_model(c, m);
    let want = validate::violations(m);
    if want.is_empty() {
        return Err("harness: the description breaks no rule".into());
    }
    let mut o = some_order(s);
    match try_build(m, &mut o) {
        // that is for P04 to judge
        Ok(()) => Ok(()),
        Err(e) if want.contains(&e) => told(&e),
        Err(e) => Err(format!("refused with {e:?}, which is not among {want:?}")),
    }
}

/// The message of an error speaks of the thing at fault.
fn told(e: &Error) -> Outcome {
    let quoted = match e {
        Error::DuplicatedSecurityDefinition(n)
        | Error::UndefinedSecurity(n)
        | Error::MissingSchemaDefinition(n)
        | Error::InvalidLanguageTag(n) => vec![n.clone()],
        Error::DuplicatedAffordance { ty, name } => vec![format!("{ty:?}"), name.clone()],
        Error::InvalidOpInForm { context, operation } => vec![format!("{context:?}"), format!("{operation:?}")],
        _ => vec![],
    };
    let text = e.to_string();
    let lower = text.to_lowercase();
    for q in quoted {
        let escaped = format!("{q:?}");
        if ![&q[..], &escaped[1..escaped.len() - 1]]
            .iter()
            .any(|q| text.contains(q) || lower.contains(&q.to_lowercase()))
        {
            return Err(format!("the message of {e:?} does not mention {q:?}: {text:?}"));
        }
    }
    if text.is_empty() {
        return Err(format!("{e:?} has no message"));
    }
    Ok(())
}

fn p05_valid(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = any_thing(s);
    accepted(&m, s, c)
}

/// Valid, but only just.
fn p05_boundary(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    for _ in 0..1 + s.below(3) {
        near(&mut m, s);
    }
    accepted(&m, s, c)
}

/// Add something which comes close to breaking a rule.
fn near(m: &mut MThing, s: &mut Src) {
    let g = gen_for(m, s);
    match s.below(8) {
        0 | 1 => {
            let r = *s.pick(&ROLES);
            inject::limits_at(m, r, false, &g, s);
        }
        2 => {
            // the same names for different kinds
            let n = gen::name(s);
            if m.props.iter().all(|x| x.0 != n) {
                m.props.push((n.clone(), g.prop(s)));
            }
            if m.actions.iter().all(|x| x.0 != n) {
                m.actions.push((n.clone(), g.action(s)));
            }
            if m.events.iter().all(|x| x.0 != n) {
                m.events.push((n.clone(), g.event(s)));
            }
            if m.secs.iter().all(|x| x.name() != n) {
                let mut x = g.sec(s, &[]);
                x.key = Some(n.clone());
                m.secs.push(x);
            }
            if m.schemas.iter().all(|x| x.0 != n) {
                m.schemas.push((n.clone(), g.schema(s, 1, false)));
            }
            if m.uri.iter().all(|x| x.0 != n) {
                m.uri.push((n, g.schema(s, 1, true)));
            }
        }
        3 => {
            // names which differ by case or space
            for n in ["a", "A", "a "] {
                if m.props.iter().all(|x| x.0 != n) {
                    m.props.push((n.into(), g.prop(s)));
                }
                if m.secs.iter().all(|x| x.name() != n) {
                    let mut x = g.sec(s, &[]);
                    x.key = Some(n.into());
                    m.secs.push(x);
                }
            }
        }
        4 => {
            let l = MLink {
                href: gen::string(s),
                rel: Some("icon".into()),
                sizes: Some(gen::string(s)),
                hreflang: s.vec(3, gen::lang),
                ..MLink::default()
            };
            m.links.push(l);
        }
        5 => {
            // every operation of the place at once
            let w = *s.pick(&WHERES);
            let f = inject::some_form(m, w, &g, s);
            f.ops = allowed(w).to_vec();
            if s.chance(50) {
                f.ops.extend_from_slice(allowed(w));
                f.ops.reverse();
            }
        }
        6 => {
            // every name defined, referred to from everywhere
            let w = *s.pick(&WHERES);
            let (secs, schemas) = (g.secs.clone(), g.schemas.clone());
            let f = inject::some_form(m, w, &g, s);
            f.security = secs;
            f.addl = schemas
                .into_iter()
                .map(|n| MAddl {
                    schema: Some(n),
                    ..MAddl::default()
                })
                .collect();
        }
        _ => {
            // scalars of every kind as URI variables
            let w = *s.pick(&WHERES);
            for k in [Kind::Bool, Kind::Null, Kind::Const(json!({"a": []})), Kind::Enum(vec![json!([1])])] {
                inject::place(m, Role::Uri(w), MSchema::plain(k), &g, s);
            }
        }
    }
    fix_const(m);
}

/// Constant schemas are read only.
fn fix_const(m: &mut MThing) {
    visit_schemas(m, &mut |x| {
        if let Kind::Const(_) = x.kind {
            x.rw = Rw::Read;
        }
    });
}

fn p05_faulty(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(60) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    if s.chance(40) {
        near(&mut m, s);
    }
    let f = *s.pick(&all_faults());
    inject::inject(&mut m, f, s);
    c.label(f.label());
    accurate(&m, s, c)
}

fn p05_several(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = any_thing(s);
    let all = all_faults();
    for _ in 0..2 + s.below(3) {
        let f = *s.pick(&all);
        inject::inject(&mut m, f, s);
    }
    accurate(&m, s, c)
}

// ---------------------------------------------------------------------------------------------
// P06

fn p06_places(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(30) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let g = gen_for(&m, s);
    let r = *s.pick(&ROLES);
    let bad = s.chance(55);
    inject::limits_at(&mut m, r, bad, &g, s);
    c.nontrivial(key(&m));
    c.label(if bad { "unsatisfiable" } else { "satisfiable" });
    c.show("role", || format!("{r:?}, {}", if bad { "unsatisfiable" } else { "satisfiable" }));
    show_model(c, &m);
    let want = validate::violations(&m);
    if want.is_empty() == bad {
        return Err(format!("harness: {bad} but {want:?}"));
    }
    let mut o = some_order(s);
    match (try_build(&m, &mut o), bad) {
        (Ok(()), false) => Ok(()),
        (Err(e), true) if want.contains(&e) => told(&e),
        (Ok(()), true) => Err(format!("built with impossible limits in {r:?}")),
        (Err(e), _) => Err(format!("refused with {e:?}, limits in {r:?}; expected {want:?}")),
    }
}

const LIM_F: [f64; 9] = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 5e-324, 1.0, 1.0000000000000002, f64::INFINITY, f64::NAN];
const LIM_I: [i64; 7] = [i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX - 1, i64::MAX];
const LIM_U: [u32; 5] = [0, 1, 2, u32::MAX - 1, u32::MAX];
/// Number: 10 × 10 values × 4 kinds; integer: 8 × 8 × 4; sizes: 6 × 6 × 2.
const PAIRS: u64 = 400 + 256 + 72;

/// Every pair of limits of small pools.
fn p06_pairs(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut i = s.raw() as usize;
    let kind = if i < 400 {
        let (a, b, e) = (i / 40, i / 4 % 10, i % 4);
        let l = |i: usize, excl: bool| LIM_F.get(i).map(|v| Lim { excl, v: *v });
        Kind::Num {
            min: l(a, e & 1 == 1),
            max: l(b, e & 2 == 2),
            mult: None,
        }
    } else if i < 656 {
        i -= 400;
        let (a, b, e) = (i / 32, i / 4 % 8, i % 4);
        let l = |i: usize, excl: bool| LIM_I.get(i).map(|v| Lim { excl, v: *v });
        Kind::Int {
            min: l(a, e & 1 == 1),
            max: l(b, e & 2 == 2),
            mult: None,
        }
    } else {
        i -= 656;
        let (a, b) = (LIM_U.get(i / 12).copied(), LIM_U.get(i / 2 % 6).copied());
        if i % 2 == 0 {
            Kind::Str {
                min: a,
                max: b,
                pattern: None,
                enc: None,
                media: None,
            }
        } else {
            Kind::Vec {
                item: None,
                min: a,
                max: b,
            }
        }
    };
    let x = MSchema::plain(kind);
    c.nontrivial(format!("{x:?}"));
    c.show("schema", || format!("{x:?}"));
    let want = validate::schema_violations(&x);
    let g = gen_for(&MThing::new(Set::Nil, "t"), s);
    for r in ROLES {
        if matches!(r, Role::Uri(_)) && matches!(x.kind, Kind::Vec { .. }) {
            continue;
        }
        // the builder cannot set these on the string schema of a property
        if r == Role::Prop && matches!(x.kind, Kind::Str { .. }) {
            continue;
        }
        let mut m = MThing::new(Set::Nil, "t");
        inject::place(&mut m, r, x.clone(), &g, s);
        c.evals += 1;
        match drive::build::<Nil>(&m, &mut drive::Order::canonical()).map(|_| ()) {
            Ok(()) if want.is_empty() => {}
            Err(e) if want.contains(&e) => {}
            got => return Err(format!("{:?} in {r:?}: got {got:?}, expected {want:?}", x.kind)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P07

fn form_ctx(w: Where) -> FormContext {
    match w {
        Where::Thing => FormContext::Thing,
        Where::Property => FormContext::Property,
        Where::Action => FormContext::Action,
        Where::Event => FormContext::Event,
    }
}

/// The forms at a place of the JSON.
fn json_forms<'a>(v: &'a Value, w: Where, n: &str) -> &'a Value {
    match w {
        Where::Thing => &v["forms"],
        Where::Property => &v["properties"][n]["forms"],
        Where::Action => &v["actions"][n]["forms"],
        Where::Event => &v["events"][n]["forms"],
    }
}

fn one_form(set: Set, w: Where, name: &str, forms: Vec<MForm>) -> MThing {
    let mut m = MThing::new(set, "t");
    let aff = MAff {
        forms: forms.clone(),
        ..MAff::default()
    };
    match w {
        Where::Thing => m.forms = forms,
        Where::Property => m.props.push((
            name.into(),
            MProp {
                aff,
                schema: MSchema::plain(Kind::Bool),
                observable: None,
                x: XData::default(),
            },
        )),
        Where::Action => m.actions.push((
            name.into(),
            MAction {
                aff,
                ..MAction::default()
            },
        )),
        Where::Event => m.events.push((
            name.into(),
            MEvent {
                aff,
                ..MEvent::default()
            },
        )),
    }
    m
}

fn want_ops(ops: &[usize]) -> Value {
    json!(ops.iter().map(|i| ALL_OPS[*i].1).collect::<Vec<_>>())
}

fn got_ops(form: &Value) -> Value {
    match &form["op"] {
        Value::Null => json!([]),
        x @ Value::Array(_) => x.clone(),
        x => json!([x]),
    }
}

/// Every operation in every context: alone, after, before and between allowed ones.
fn p07_every(s: &mut Src, c: &mut Ctx) -> Outcome {
    let i = s.raw() as usize;
    let (w, op, how) = (WHERES[i / 72], i / 4 % 18, i % 4);
    let ok = allowed(w);
    let ops = match how {
        0 => vec![op],
        1 => vec![ok[0], op],
        2 => vec![op, ok[ok.len() - 1]],
        _ => ok.iter().copied().chain([op]).chain(ok.iter().copied()).collect(),
    };
    let good = MForm {
        href: "h".into(),
        ops: vec![ok[0]],
        ..MForm::default()
    };
    let f = MForm {
        href: "h".into(),
        ops: ops.clone(),
        ..MForm::default()
    };
    c.nontrivial(i);
    c.show("form", || format!("{w:?}: {:?}", want_ops(&ops)));
    for forms in [vec![f.clone()], vec![good.clone(), f.clone()], vec![f.clone(), good.clone()]] {
        c.evals += 1;
        let at = forms.iter().position(|x| *x == f).unwrap();
        let m = one_form(Set::Nil, w, "n", forms);
        let r = drive::build::<Nil>(&m, &mut drive::Order::canonical());
        match r {
            Ok(t) => {
                if !ok.contains(&op) {
                    return Err(format!("{:?} is accepted in {w:?}", ALL_OPS[op].1));
                }
                let v = to_value(&t)?;
                let got = got_ops(&json_forms(&v, w, "n")[at]);
                if got != want_ops(&ops) {
                    return Err(format!("operations written: {got}, wanted {}", want_ops(&ops)));
                }
            }
            Err(e) => {
                let want = Error::InvalidOpInForm {
                    context: form_ctx(w),
                    operation: ALL_OPS[op].0,
                };
                if ok.contains(&op) {
                    return Err(format!("{:?} is refused in {w:?}: {e:?}", ALL_OPS[op].1));
                }
                if e != want {
                    return Err(format!("refused with {e:?} instead of {want:?}"));
                }
                let text = e.to_string();
                if !text.contains(ALL_OPS[op].1) || !text.contains(&form_ctx(w).to_string()) {
                    return Err(format!("the message {text:?} does not name {:?} and {:?}", ALL_OPS[op].1, w));
                }
            }
        }
    }
    Ok(())
}

fn p07_allowed(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let g = gen_for(&m, s);
    let w = *s.pick(&WHERES);
    let ok = allowed(w);
    let least = usize::from(w == Where::Thing);
    let ops: Vec<usize> = (0..least + s.below(7)).map(|_| *s.pick(ok)).collect();
    inject::some_form(&mut m, w, &g, s).ops = ops.clone();
    if !ops.is_empty() {
        c.nontrivial(key(&m));
    }
    show_model(c, &m);
    let mut o = some_order(s);
    with_set!(m.set, X => {
        let t = built::<X>(&m, &mut o)?;
        let v = to_value(&t)?;
        ops_written(&m, &v)?;
        ops_held(&m, &t)?;
        let back = from_value::<X>(&v)?;
        ops_held(&m, &back)
    })
}

fn all_forms(m: &MThing) -> Vec<(Where, String, usize, MForm)> {
    let mut v = vec![];
    let mut put = |w: Where, n: &str, f: &[MForm]| {
        v.extend(f.iter().enumerate().map(|(i, f)| (w, n.to_string(), i, f.clone())))
    };
    put(Where::Thing, "", &m.forms);
    m.props.iter().for_each(|(n, x)| put(Where::Property, n, &x.aff.forms));
    m.actions.iter().for_each(|(n, x)| put(Where::Action, n, &x.aff.forms));
    m.events.iter().for_each(|(n, x)| put(Where::Event, n, &x.aff.forms));
    v
}

fn ops_written(m: &MThing, v: &Value) -> Outcome {
    for (w, n, i, f) in all_forms(m) {
        let got = got_ops(&json_forms(v, w, &n)[i]);
        if got != want_ops(&f.ops) {
            return Err(format!("{w:?} {n:?} form {i}: operations written: {got}, wanted {}", want_ops(&f.ops)));
        }
    }
    Ok(())
}

fn ops_held<X: XSet>(m: &MThing, t: &Thing<X>) -> Outcome {
    for (w, n, i, f) in all_forms(m) {
        let forms = match w {
            Where::Thing => t.forms.as_deref().unwrap_or_default(),
            Where::Property => &t.properties.as_ref().unwrap()[&n].interaction.forms,
            Where::Action => &t.actions.as_ref().unwrap()[&n].interaction.forms,
            Where::Event => &t.events.as_ref().unwrap()[&n].interaction.forms,
        };
        let want = if f.ops.is_empty() {
            DefaultedFormOperations::Default
        } else {
            DefaultedFormOperations::Custom(f.ops.iter().map(|i| ALL_OPS[*i].0).collect())
        };
        if forms.get(i).map(|f| &f.op) != Some(&want) {
            return Err(format!("{w:?} {n:?} form {i}: operations held: {:?}, wanted {want:?}", forms.get(i).map(|f| &f.op)));
        }
    }
    Ok(())
}

fn p07_disallowed(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let w = *s.pick(&WHERES);
    inject::inject(&mut m, Fault::BadOp(w), s);
    c.nontrivial(key(&m));
    show_model(c, &m);
    let want = validate::violations(&m);
    let mut o = some_order(s);
    match try_build(&m, &mut o) {
        Ok(()) => Err(format!("accepted: {want:?}")),
        Err(e) if want == [e.clone()] => Ok(()),
        Err(e) => Err(format!("refused with {e:?}, wanted {want:?}")),
    }
}

/// Forms without operations: everywhere but on the Thing.
fn p07_without(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let g = gen_for(&m, s);
    let w = *s.pick(&WHERES);
    inject::some_form(&mut m, w, &g, s).ops.clear();
    c.nontrivial(key(&m));
    show_model(c, &m);
    let mut o = some_order(s);
    match (try_build(&m, &mut o), w) {
        (Err(Error::MissingOpInForm), Where::Thing) => Ok(()),
        (Ok(()), Where::Thing) => Err("a Thing form without operations is accepted".into()),
        (Ok(()), _) => Ok(()),
        (Err(e), _) => Err(format!("{w:?}: refused with {e:?}")),
    }
}

fn p07_names(s: &mut Src, c: &mut Ctx) -> Outcome {
    let i = s.raw() as usize;
    let (op, name) = ALL_OPS[i];
    c.nontrivial(i);
    c.show("operation", || name.into());
    if op.to_string() != name {
        return Err(format!("{name} is displayed as {op}"));
    }
    let v = serde_json::to_value(op).map_err(|e| e.to_string())?;
    if v != json!(name) {
        return Err(format!("{name} is written as {v}"));
    }
    match serde_json::from_value::<FormOperation>(json!(name)) {
        Ok(x) if x == op => {}
        r => return Err(format!("{name} is read as {r:?}")),
    }
    for (other, n) in ALL_OPS {
        if (other == op) != (n == name) {
            return Err(format!("{n} and {name}"));
        }
    }
    for bad in [name.to_uppercase(), format!("{name} "), format!("{}ies", &name[..name.len() - 1]), format!("{op:?}")] {
        if let Ok(x) = serde_json::from_value::<FormOperation>(json!(bad)) {
            return Err(format!("{bad:?} is read as {x:?}"));
        }
    }
    for w in WHERES {
        let e = Error::InvalidOpInForm {
            context: form_ctx(w),
            operation: op,
        };
        if !e.to_string().contains(name) {
            return Err(format!("{e} does not name {name}"));
        }
    }
    Ok(())
}

/// The operations of a document are those of the Thing read from it, in any context.
fn p07_parse(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = *s.pick(&WHERES);
    let n = s.below(6);
    let ops: Vec<usize> = (0..n).map(|_| s.below(18)).collect();
    let names = want_ops(&ops);
    let op = match ops.as_slice() {
        [] if s.chance(50) => None,
        [i] if s.chance(50) => Some(json!(ALL_OPS[*i].1)),
        _ => Some(names.clone()),
    };
    let mut form = json!({"href": "h"});
    if let Some(op) = &op {
        form["op"] = op.clone();
    }
    let mut d = json!({"title": "t", "security": [], "securityDefinitions": {}});
    match w {
        Where::Thing => d["forms"] = json!([form]),
        Where::Property => d["properties"] = json!({"n": {"forms": [form]}}),
        Where::Action => d["actions"] = json!({"n": {"forms": [form]}}),
        Where::Event => d["events"] = json!({"n": {"forms": [form]}}),
    }
    if n > 0 {
        c.nontrivial((w, &ops));
    }
    show_doc(c, "document", &d);
    for t in [from_value::<Nil>(&d)?, from_text::<Nil>(&d.to_string())?] {
        let f = MForm {
            ops: ops.clone(),
            ..MForm::default()
        };
        let m = one_form(Set::Nil, w, "n", vec![f]);
        ops_held(&m, &t)?;
        ops_written(&m, &to_value(&t)?)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P08

fn references(m: &MThing) -> usize {
    let mut n = 0;
    for (_, _, _, f) in all_forms(m) {
        n += f.security.len() + f.addl.iter().filter(|a| a.schema.is_some()).count();
    }
    for x in &m.secs {
        n += usize::from(x.required);
        if let SecKind::Combo { names, .. } = &x.kind {
            n += names.len();
        }
    }
    n
}

/// References to make: definitions and forms that use them.
fn interlink(m: &mut MThing, s: &mut Src) {
    let g = gen_for(m, s);
    while m.secs.len() < 2 {
        let names: Vec<String> = m.secs.iter().map(|x| x.name().to_string()).collect();
        let mut x = g.sec(s, &names);
        x.key = Some(gen::fresh(s, &names));
        m.secs.push(x);
    }
    while m.schemas.len() < 2 {
        let names: Vec<String> = m.schemas.iter().map(|x| x.0.clone()).collect();
        m.schemas.push((gen::fresh(s, &names), g.schema(s, 1, false)));
    }
    let secs: Vec<String> = m.secs.iter().map(|x| x.name().to_string()).collect();
    let schemas: Vec<String> = m.schemas.iter().map(|x| x.0.clone()).collect();
    // combos of definitions before and after, themselves included
    if s.chance(50) {
        let key = gen::fresh(s, &secs);
        let mut x = g.sec(s, &[]);
        x.key = Some(key.clone());
        let mut all = secs.clone();
        all.push(key);
        x.kind = SecKind::Combo {
            all: s.chance(50),
            names: (0..1 + s.below(4)).map(|_| s.pick(&all).clone()).collect(),
        };
        let at = s.below(m.secs.len() + 1);
        m.secs.insert(at, x);
    }
    for _ in 0..1 + s.below(3) {
        let w = *s.pick(&WHERES);
        let f = inject::some_form(m, w, &g, s);
        f.security = (0..1 + s.below(3)).map(|_| s.pick(&secs).clone()).collect();
        f.addl = (0..1 + s.below(3))
            .map(|_| MAddl {
                success: s.chance(50),
                ct: s.opt(30, gen::string),
                schema: s.opt(80, |s| s.pick(&schemas).clone()),
            })
            .collect();
    }
}

/// Every reference of the JSON of a built Thing is to something defined there.
fn resolves(v: &Value) -> Outcome {
    let secs = v["securityDefinitions"].as_object().ok_or("no securityDefinitions")?;
    let empty = serde_json::Map::new();
    let schemas = v["schemaDefinitions"].as_object().unwrap_or(&empty);
    let names = |v: &Value| -> Vec<String> {
        match v {
            Value::String(s) => vec![s.clone()],
            Value::Array(a) => a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect(),
            _ => vec![],
        }
    };
    let defined = |at: &str, v: &Value| -> Outcome {
        for n in names(v) {
            if !secs.contains_key(&n) {
                return Err(format!("{at} refers to the security {n:?}, which is not defined"));
            }
        }
        Ok(())
    };
    defined("the Thing", &v["security"])?;
    for (node, p) in doc::nodes(v) {
        let x = doc::at(v, &p);
        match node {
            Node::Form(_) => defined(&doc::show(&p), &x["security"])?,
            Node::Sec if x["scheme"] == json!("combo") => {
                defined(&doc::show(&p), &x["oneOf"])?;
                defined(&doc::show(&p), &x["allOf"])?;
            }
            Node::Addl => {
                if let Some(n) = x["schema"].as_str() {
                    if !schemas.contains_key(n) {
                        return Err(format!("{} refers to the schema {n:?}, which is not defined", doc::show(&p)));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn p08_defined(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(60) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    interlink(&mut m, s);
    if references(&m) > 0 {
        c.nontrivial(key(&m));
    }
    show_model(c, &m);
    let mut o = some_order(s);
    with_set!(m.set, X => {
        let t = built::<X>(&m, &mut o)?;
        let v = to_value(&t)?;
        resolves(&v)?;
        let mut want: Vec<&str> = m.secs.iter().filter(|x| x.required).map(|x| x.name()).collect();
        let mut got: Vec<&str> = t.security.iter().map(String::as_str).collect();
        if want != got {
            want.sort_unstable();
            got.sort_unstable();
            return Err(format!("required security: {got:?}, wanted {want:?} (in the order of the calls)"));
        }
        let mut names: Vec<&str> = m.secs.iter().map(|x| x.name()).collect();
        names.sort_unstable();
        let mut keys: Vec<&str> = t.security_definitions.keys().map(String::as_str).collect();
        keys.sort_unstable();
        if names != keys {
            return Err(format!("security definitions: {keys:?}, wanted {names:?}"));
        }
        // what each form was told is there
        for (w, n, i, f) in all_forms(&m) {
            let x = &json_forms(&v, w, &n)[i];
            let mut y = x.clone();
            crate::expect::canon_form(&mut y);
            let sec = if y["security"].is_null() { json!([]) } else { y["security"].clone() };
            if sec != json!(f.security) {
                return Err(format!("{w:?} {n:?} form {i} security: {sec}, wanted {:?}", f.security));
            }
            let refs: Vec<Value> = y["additionalResponses"].as_array().map(|a| a.iter().map(|r| r["schema"].clone()).collect()).unwrap_or_default();
            let want: Vec<Value> = f.addl.iter().map(|a| json!(a.schema)).collect();
            if refs != want {
                return Err(format!("{w:?} {n:?} form {i} response schemas: {refs:?}, wanted {want:?}"));
            }
        }
        Ok(())
    })
}

fn p08_undefined(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(40) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    if s.chance(70) {
        interlink(&mut m, s);
    }
    let w = *s.pick(&WHERES);
    let f = match s.below(3) {
        0 => Fault::FormSec(w),
        1 => Fault::Addl(w),
        _ => Fault::Combo,
    };
    inject::inject(&mut m, f, s);
    // names of the other sort do not count
    if s.chance(30) {
        for e in validate::violations(&m) {
            let g = gen_for(&m, s);
            match (f, e) {
                (Fault::Addl(_), Error::MissingSchemaDefinition(n)) if m.secs.iter().all(|x| x.name() != n) => {
                    let mut x = g.sec(s, &[]);
                    x.key = Some(n);
                    m.secs.push(x);
                    break;
                }
                (Fault::FormSec(_) | Fault::Combo, Error::UndefinedSecurity(n)) if m.schemas.iter().all(|x| x.0 != n) => {
                    m.schemas.push((n, g.schema(s, 1, false)));
                    break;
                }
                _ => {}
            }
        }
    }
    c.label(f.label());
    c.nontrivial(key(&m));
    show_model(c, &m);
    let want = validate::violations(&m);
    let mut o = some_order(s);
    match try_build(&m, &mut o) {
        Ok(()) => Err(format!("built with a dangling reference: {want:?}")),
        Err(e) if want.contains(&e) => Ok(()),
        Err(e) => Err(format!("refused with {e:?}, wanted {want:?}")),
    }
}

// ---------------------------------------------------------------------------------------------
// P09

fn exactly(m: &MThing, s: &mut Src, c: &mut Ctx) -> Outcome {
    c.nontrivial(key(m));
    show_model(c, m);
    let want = validate::violations(m);
    let mut o = some_order(s);
    match (try_build(m, &mut o), want.is_empty()) {
        (Ok(()), true) => Ok(()),
        (Err(e), false) if want.contains(&e) => Ok(()),
        (Ok(()), false) => Err(format!("accepted: {want:?}")),
        (Err(e), _) => Err(format!("refused with {e:?}, wanted {want:?}")),
    }
}

fn p09_names(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let f = *s.pick(&[
        Fault::DupSec,
        Fault::DupAff(Where::Property),
        Fault::DupAff(Where::Action),
        Fault::DupAff(Where::Event),
    ]);
    inject::inject(&mut m, f, s);
    c.label(f.label());
    exactly(&m, s, c)
}

/// The same names for different kinds, and close ones for the same: nothing gets lost.
fn p09_across(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(30) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let g = gen_for(&m, s);
    let mut names = vec![gen::name(s)];
    for _ in 0..s.below(4) {
        let n = names[s.below(names.len())].clone();
        let n = match s.below(5) {
            0 => n.to_uppercase(),
            1 => format!("{n} "),
            2 => format!(" {n}"),
            3 => format!("{n}\u{0}"),
            _ => gen::name(s),
        };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    for n in names {
        let k = 1 + s.below(31);
        if k & 1 != 0 && m.props.iter().all(|x| x.0 != n) {
            m.props.push((n.clone(), g.prop(s)));
        }
        if k & 2 != 0 && m.actions.iter().all(|x| x.0 != n) {
            m.actions.push((n.clone(), g.action(s)));
        }
        if k & 4 != 0 && m.events.iter().all(|x| x.0 != n) {
            m.events.push((n.clone(), g.event(s)));
        }
        if k & 8 != 0 && m.secs.iter().all(|x| x.name() != n) {
            let mut x = g.sec(s, &[]);
            x.key = Some(n.clone());
            m.secs.push(x);
        }
        if k & 16 != 0 && m.schemas.iter().all(|x| x.0 != n) {
            m.schemas.push((n, g.schema(s, 1, false)));
        }
    }
    c.nontrivial(key(&m));
    show_model(c, &m);
    let mut o = some_order(s);
    with_set!(m.set, X => {
        let t = built::<X>(&m, &mut o)?;
        let v = to_value(&t)?;
        let keys = |k: &str| -> Vec<String> {
            v[k].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default()
        };
        let sorted = |mut v: Vec<String>| { v.sort(); v };
        for (k, want) in [
            ("properties", m.props.iter().map(|x| x.0.clone()).collect()),
            ("actions", m.actions.iter().map(|x| x.0.clone()).collect()),
            ("events", m.events.iter().map(|x| x.0.clone()).collect()),
            ("securityDefinitions", m.secs.iter().map(|x| x.name().to_string()).collect()),
            ("schemaDefinitions", m.schemas.iter().map(|x| x.0.clone()).collect::<Vec<_>>()),
        ] {
            let (want, got) = (sorted(want), sorted(keys(k)));
            if want != got {
                return Err(format!("{k}: {got:?}, wanted {want:?}"));
            }
        }
        Ok(())
    })
}

fn p09_uri(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(40) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let w = *s.pick(&WHERES);
    if s.chance(60) {
        inject::inject(&mut m, Fault::UriComposite(w), s);
    } else {
        let g = gen_for(&m, s);
        for _ in 0..1 + s.below(3) {
            let x = g.schema(s, 2, true);
            inject::place(&mut m, Role::Uri(w), x, &g, s);
        }
    }
    exactly(&m, s, c)
}

fn p09_sizes(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(30) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    if s.chance(60) {
        inject::inject(&mut m, Fault::Sizes, s);
    } else {
        let g = gen_for(&m, s);
        let mut l = g.link(s);
        l.simple = false;
        match s.below(3) {
            // an icon without sizes, sizes with icon, neither
            0 => {
                l.rel = Some("icon".into());
                l.sizes = None;
            }
            1 => {
                l.rel = Some("icon".into());
                l.sizes = Some(gen::string(s));
            }
            _ => {
                l.rel = inject::not_icon(s);
                l.sizes = None;
            }
        }
        let at = s.below(m.links.len() + 1);
        m.links.insert(at, l);
    }
    exactly(&m, s, c)?;
    if validate::violations(&m).is_empty() {
        let mut o = some_order(s);
        return with_set!(m.set, X => {
            let v = to_value(&built::<X>(&m, &mut o)?)?;
            for (i, l) in m.links.iter().enumerate() {
                let x = &v["links"][i];
                if x["sizes"] != json!(l.sizes) || x["rel"] != json!(l.rel) {
                    return Err(format!("link {i} is written {x}"));
                }
            }
            Ok(())
        });
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P10

fn has_langs(m: &mut MThing) -> bool {
    let mut n = m.links.iter().map(|l| l.hreflang.len()).sum::<usize>();
    visit_langs(m, &mut |v| n += v.len());
    n > 0
}

/// Well-formed tags are accepted and kept with their text.
fn p10_builder(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = any_thing(s);
    // more of them
    let mut n = 0;
    let mut tape: Vec<(usize, String, String)> = (0..1 + s.below(6)).map(|_| (s.below(8), gen::lang(s), gen::string(s))).collect();
    visit_langs(&mut m, &mut |v| {
        n += 1;
        if let Some((k, t, x)) = tape.last() {
            if *k <= n && v.iter().all(|(l, _)| !l.eq_ignore_ascii_case(t)) {
                v.push((t.clone(), x.clone()));
                tape.pop();
                n = 0;
            }
        }
    });
    if s.chance(40) {
        let g = gen_for(&m, s);
        let mut l = g.link(s);
        l.simple = false;
        l.hreflang = (0..1 + s.below(4)).map(|_| gen::lang(s)).collect();
        m.links.push(l);
    }
    for (k, t, x) in tape {
        let v = match k % 2 {
            0 => m.hr.titles.get_or_insert_with(Vec::new),
            _ => m.hr.descs.get_or_insert_with(Vec::new),
        };
        if v.iter().all(|(l, _)| !l.eq_ignore_ascii_case(&t)) {
            v.push((t, x));
        }
    }
    if has_langs(&mut m) {
        c.nontrivial(key(&m));
    }
    show_model(c, &m);
    let mut o = some_order(s);
    with_set!(m.set, X => {
        let want = crate::expect::thing::<X>(&m);
        let t = built::<X>(&m, &mut o)?;
        let v = to_value(&t)?;
        same_tags(&want, &v, true)?;
        let b = from_value::<X>(&v)?;
        same_tags(&v, &to_value(&b)?, false)
    })
}

/// All the tags of a document with their texts, by place.
fn tags(v: &Value, fold: bool) -> Vec<(String, String, Value)> {
    let case = |t: &str| if fold { t.to_ascii_lowercase() } else { t.to_string() };
    let mut out = vec![];
    for (node, p) in doc::nodes(v) {
        let x = doc::at(v, &p);
        match node {
            Node::Langs => {
                for (k, t) in x.as_object().unwrap() {
                    out.push((doc::show(&p), case(k), t.clone()));
                }
            }
            Node::Link => match &x["hreflang"] {
                Value::String(t) => out.push((format!("{} 0", doc::show(&p)), case(t), Value::Null)),
                Value::Array(a) => {
                    for (i, t) in a.iter().enumerate() {
                        out.push((format!("{} {i}", doc::show(&p)), case(t.as_str().unwrap_or("?")), Value::Null));
                    }
                }
                _ => {}
            },
            _ => {}
        }
    }
    // the known finding on the name of a member does not matter here
    for x in &mut out {
        x.0 = x.0.replace("data_response", "dataResponse");
    }
    out.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    out
}

fn same_tags(want: &Value, got: &Value, fold: bool) -> Outcome {
    let (a, b) = (tags(want, fold), tags(got, fold));
    if a == b {
        return Ok(());
    }
    for x in &a {
        if !b.contains(x) {
            return Err(format!("language tag lost or changed: {x:?}"));
        }
    }
    for x in &b {
        if !a.contains(x) {
            return Err(format!("language tag from nowhere: {x:?}"));
        }
    }
    Err("language tags repeated".into())
}

fn p10_builder_bad(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let all: Vec<Fault> = all_faults().into_iter().filter(|f| matches!(f, Fault::Lang(_))).collect();
    let f = *s.pick(&all);
    inject::inject(&mut m, f, s);
    c.show("fault", || format!("{f:?}"));
    c.nontrivial(key(&m));
    show_model(c, &m);
    let want = validate::violations(&m);
    let mut o = some_order(s);
    match try_build(&m, &mut o) {
        Ok(()) => Err(format!("built with a malformed language tag: {want:?}")),
        Err(e) if want.contains(&e) => Ok(()),
        Err(e) => Err(format!("refused with {e:?}, wanted {want:?}")),
    }
}

/// A document with many language tags.
fn tagged(s: &mut Src) -> (Set, Value) {
    let (set, mut d) = doc::document(s);
    for (node, p) in doc::nodes(&d).into_iter().rev() {
        let k = match node {
            Node::Thing | Node::Aff(_) | Node::Schema { prop: false } => *s.pick(&["titles", "descriptions"]),
            Node::Sec => "descriptions",
            Node::Link => {
                if s.chance(50) {
                    let o = doc::obj_mut(&mut d, &p);
                    o.insert("hreflang".into(), json!((0..1 + s.below(3)).map(|_| gen::lang(s)).collect::<Vec<_>>()));
                }
                continue;
            }
            _ => continue,
        };
        if s.chance(40) {
            let v = gen::multilang(s);
            doc::obj_mut(&mut d, &p).insert(k.into(), v.into_iter().map(|(k, v)| (k, json!(v))).collect());
        }
    }
    (set, d)
}

fn p10_parser(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, d) = tagged(s);
    if !tags(&d, false).is_empty() {
        c.nontrivial(d.to_string());
    }
    show_doc(c, "document", &d);
    with_set!(set, X => {
        for t in [from_value::<X>(&d)?, from_text::<X>(&d.to_string())?] {
            same_tags(&d, &to_value(&t)?, true)?;
        }
        Ok(())
    })
}

fn p10_parser_bad(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (set, mut d) = tagged(s);
    let bad = gen::bad_lang(s);
    let mut at = vec![];
    for (node, p) in doc::nodes(&d) {
        match node {
            Node::Langs | Node::Link => at.push((node, p)),
            Node::Thing | Node::Aff(_) | Node::Sec | Node::Schema { prop: false } => {
                if doc::at(&d, &p).get("descriptions").is_none() {
                    at.push((node, p));
                }
            }
            _ => {}
        }
    }
    let (node, p) = s.pick(&at).clone();
    let o = doc::obj_mut(&mut d, &p);
    match node {
        Node::Langs => {
            o.insert(bad.clone(), json!(gen::string(s)));
        }
        Node::Link => {
            let mut v: Vec<String> = (0..s.below(3)).map(|_| gen::lang(s)).collect();
            if v.is_empty() && s.chance(50) {
                o.insert("hreflang".into(), json!(bad));
            } else {
                let i = s.below(v.len() + 1);
                v.insert(i, bad.clone());
                o.insert("hreflang".into(), json!(v));
            }
        }
        _ => {
            let mut x = serde_json::Map::new();
            x.insert(bad.clone(), json!(gen::string(s)));
            o.insert("descriptions".into(), Value::Object(x));
        }
    }
    c.nontrivial(d.to_string());
    c.show("malformed", || format!("{bad:?} at {}", doc::show(&p)));
    show_doc(c, "document", &d);
    with_set!(set, X => {
        if from_text::<X>(&d.to_string()).is_ok() {
            return Err(format!("accepted from text with the language tag {bad:?} at {}", doc::show(&p)));
        }
        if from_value::<X>(&d).is_ok() {
            return Err(format!("accepted from memory with the language tag {bad:?} at {}", doc::show(&p)));
        }
        Ok(())
    })
}
