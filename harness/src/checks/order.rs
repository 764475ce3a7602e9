//! P19: the order of independent builder calls does not matter.

use serde_json::Value;

use super::*;
use crate::{
    engine::{arm, Check, Ctx, Outcome, Src},
    expect,
    ext::XSet,
    inject::{self, all_faults},
    validate, with_set,
};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P19",
        rule: "the description has at least one affordance, form, link, schema definition or URI variable (schemas: at least one setting besides the type)",
        assumptions: &[
            "calls which append to the same list keep their relative order",
            "what is to hold before a call that changes the type of the builder is limited to the methods both types have",
        ],
        arms: vec![
            arm("things", p19_things, 30_000, 1_500_000),
            arm("small", p19_small, 30_000, 1_000_000),
            arm("schemas", p19_schemas, 50_000, 2_500_000),
            arm("lists", p19_lists, 20_000, 800_000),
            arm("faulty", p19_faulty, 30_000, 1_000_000),
        ],
        known: vec![],
    }]
}

fn alike<X: XSet>(m: &MThing, s: &mut Src, c: &mut Ctx, n: usize) -> Outcome {
    let a = built::<X>(m, &mut Order::canonical())?;
    let v = to_value(&a)?;
    show_doc(c, "built in canonical order", &v);
    for _ in 0..n {
        c.evals += 1;
        let seed = u64::from(s.raw());
        let b = drive::build::<X>(m, &mut Order::shuffled(seed))
            .map_err(|e| format!("built in canonical order, but refused in order {seed}: {e}"))?;
        let w = to_value(&b)?;
        if let Some(d) = expect::diff(&v, &w) {
            return Err(format!("the canonical order and order {seed} differ: {d}"));
        }
        if a != b || b != a {
            return Err(format!("the Things built in canonical order and in order {seed} are not equal"));
        }
    }
    Ok(())
}

fn p19_things(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = any_thing(s);
    if has_content(&m) {
        c.nontrivial(format!("{m:?}"));
    }
    with_set!(m.set, X => alike::<X>(&m, s, c, 2))
}

/// One part only, in more orders.
fn p19_small(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = MThing::new(any_set(s), "t");
    let g = inject::gen_for(&m, s);
    let n = crate::gen::name(s);
    match s.below(7) {
        0 => m.props.push((n, g.prop(s))),
        1 => m.actions.push((n, g.action(s))),
        2 => m.events.push((n, g.event(s))),
        3 => {
            let mut l = g.link(s);
            l.simple = false;
            m.links.push(l);
        }
        4 => {
            let x = g.sec(s, &[]);
            m.secs.push(x);
        }
        5 => m.schemas.push((n, g.schema(s, 2, false))),
        _ => {
            inject::some_form(&mut m, Where::Thing, &g, s);
        }
    }
    c.nontrivial(format!("{m:?}"));
    // what the form needs
    if !validate::violations(&m).is_empty() {
        return Err(format!("harness: {:?}", validate::violations(&m)));
    }
    with_set!(m.set, X => alike::<X>(&m, s, c, 4))
}

fn p19_schemas(s: &mut Src, c: &mut Ctx) -> Outcome {
    let set = any_set(s);
    let g = inject::gen_for(&MThing::new(set, "t"), s);
    let depth = g.depth;
    let m = g.schema(s, depth, false);
    if format!("{m:?}") != format!("{:?}", MSchema::plain(m.kind.clone())) {
        c.nontrivial(format!("{m:?}"));
    }
    c.show("schema", || format!("{m:?}"));
    with_set!(set, X => {
        let e = |e: wot_td::builder::Error| format!("a valid data schema did not build: {e}");
        let a = drive::standalone::<X>(&m, &mut Order::canonical()).map_err(e)?;
        let v = serde_json::to_value(&a).map_err(|e| e.to_string())?;
        for _ in 0..4 {
            c.evals += 1;
            let seed = u64::from(s.raw());
            let b = drive::standalone::<X>(&m, &mut Order::shuffled(seed)).map_err(e)?;
            let w = serde_json::to_value(&b).map_err(|e| e.to_string())?;
            if let Some(d) = expect::diff(&v, &w) {
                return Err(format!("the canonical order and order {seed} differ: {d}"));
            }
            if a != b || b != a {
                return Err(format!("the schemas built in canonical order and in order {seed} are not equal"));
            }
        }
        Ok(())
    })
}

/// Every list of a document, by place.
fn lists(v: &Value, at: String, out: &mut Vec<(String, Value)>) {
    match v {
        Value::Array(a) => {
            out.push((at.clone(), v.clone()));
            for (i, x) in a.iter().enumerate() {
                lists(x, format!("{at}/{i}"), out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                lists(x, format!("{at}/{k}"), out);
            }
        }
        _ => {}
    }
}

/// Lists are in the order of the calls.
fn p19_lists(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = any_thing(s);
    with_set!(m.set, X => {
        let seed = u64::from(s.raw());
        let mut o = Order::shuffled(seed);
        let (mut want, mut got) = (vec![], vec![]);
        let w = expect::canon(expect::thing::<X>(&m));
        lists(&w, String::new(), &mut want);
        let b = built::<X>(&m, &mut o)?;
        let v = expect::canon(to_value(&b)?);
        lists(&v, String::new(), &mut got);
        if want.iter().any(|x| x.1.as_array().unwrap().len() > 1) {
            c.nontrivial(w.to_string());
        }
        show_doc(c, "built", &v);
        for (at, x) in &want {
            match got.iter().find(|y| y.0 == *at) {
                None => return Err(format!("order {seed}: no list at {at}, wanted {x}")),
                Some((_, y)) => {
                    if let Some(d) = expect::diff(x, y) {
                        return Err(format!("order {seed}: the list at {at} differs from the calls: {d}"));
                    }
                }
            }
        }
        Ok(())
    })
}

/// A fault is found in every order.
fn p19_faulty(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut m = if s.chance(50) { any_thing(s) } else { MThing::new(any_set(s), "t") };
    let f = *s.pick(&all_faults());
    inject::inject(&mut m, f, s);
    c.label(f.label());
    c.nontrivial(format!("{m:?}"));
    c.show("fault", || format!("{f:?}"));
    let want = validate::violations(&m);
    with_set!(m.set, X => {
        let a = drive::build::<X>(&m, &mut Order::canonical()).map(|_| ());
        for _ in 0..2 {
            c.evals += 1;
            let seed = u64::from(s.raw());
            let b = drive::build::<X>(&m, &mut Order::shuffled(seed)).map(|_| ());
            if a.is_ok() != b.is_ok() {
                return Err(format!("canonical order: {a:?}, order {seed}: {b:?}"));
            }
            if want.len() == 1 && a != b {
                return Err(format!("one fault, but canonical order: {a:?}, order {seed}: {b:?}"));
            }
        }
        Ok(())
    })
}
