//! Plants faults in a model: each breaks one rule of the builder at one place, wherever the place
//! is; the place is made when the model lacks it.

use crate::{engine::Src, gen, model::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Prop,
    ActIn,
    ActOut,
    EvtSub,
    EvtData,
    EvtResp,
    EvtCancel,
    Uri(Where),
    Def,
}

pub const ROLES: [Role; 12] = [
    Role::Prop,
    Role::ActIn,
    Role::ActOut,
    Role::EvtSub,
    Role::EvtData,
    Role::EvtResp,
    Role::EvtCancel,
    Role::Def,
    Role::Uri(Where::Thing),
    Role::Uri(Where::Property),
    Role::Uri(Where::Action),
    Role::Uri(Where::Event),
];

pub const WHERES: [Where; 4] = [Where::Thing, Where::Property, Where::Action, Where::Event];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum LangAt {
    Hr(Where),
    Schema(Role),
    Sec,
    Link,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    DupAff(Where),
    DupSec,
    NoOp,
    BadOp(Where),
    FormSec(Where),
    Combo,
    Addl(Where),
    Limits(Role),
    UriComposite(Where),
    Lang(LangAt),
    Sizes,
}

pub fn all_faults() -> Vec<Fault> {
    let mut v = vec![Fault::DupSec, Fault::NoOp, Fault::Combo, Fault::Sizes];
    for w in WHERES {
        if w != Where::Thing {
            v.push(Fault::DupAff(w));
        }
        v.extend([
            Fault::BadOp(w),
            Fault::FormSec(w),
            Fault::Addl(w),
            Fault::UriComposite(w),
            Fault::Lang(LangAt::Hr(w)),
        ]);
    }
    for r in ROLES {
        v.push(Fault::Limits(r));
        v.push(Fault::Lang(LangAt::Schema(r)));
    }
    v.push(Fault::Lang(LangAt::Sec));
    v.push(Fault::Lang(LangAt::Link));
    v
}

impl Fault {
    pub fn label(self) -> &'static str {
        match self {
            Fault::DupAff(_) => "duplicate affordance",
            Fault::DupSec => "duplicate security definition",
            Fault::NoOp => "thing form without operation",
            Fault::BadOp(_) => "disallowed operation",
            Fault::FormSec(_) => "undefined security in a form",
            Fault::Combo => "undefined name in a combo",
            Fault::Addl(_) => "undefined schema in an additional response",
            Fault::Limits(_) => "impossible limits",
            Fault::UriComposite(_) => "object or array as URI variable",
            Fault::Lang(_) => "malformed language tag",
            Fault::Sizes => "sizes on a link which is no icon",
        }
    }
}

/// A generator for parts to add to a model.
pub fn gen_for(m: &MThing, s: &mut Src) -> Gen {
    let mut g = Gen::new(m.set, s);
    g.rich = g.rich.min(25);
    g.depth = g.depth.min(2);
    g.secs = m.secs.iter().map(|x| x.name().to_string()).collect();
    g.schemas = m.schemas.iter().map(|x| x.0.clone()).collect();
    g
}

fn put_at<T>(v: &mut Vec<T>, x: T, s: &mut Src) -> usize {
    let at = s.below(v.len() + 1);
    v.insert(at, x);
    at
}

fn keys<T>(v: &[(String, T)]) -> Vec<String> {
    v.iter().map(|x| x.0.clone()).collect()
}

/// A property to put something in: an existing one or a new one.
pub fn some_prop<'a>(m: &'a mut MThing, g: &Gen, s: &mut Src) -> &'a mut MProp {
    if m.props.is_empty() || s.chance(40) {
        let n = gen::fresh(s, &keys(&m.props));
        let p = g.prop(s);
        let at = put_at(&mut m.props, (n, p), s);
        &mut m.props[at].1
    } else {
        let at = s.below(m.props.len());
        &mut m.props[at].1
    }
}

pub fn some_action<'a>(m: &'a mut MThing, g: &Gen, s: &mut Src) -> &'a mut MAction {
    if m.actions.is_empty() || s.chance(40) {
        let n = gen::fresh(s, &keys(&m.actions));
        let p = g.action(s);
        let at = put_at(&mut m.actions, (n, p), s);
        &mut m.actions[at].1
    } else {
        let at = s.below(m.actions.len());
        &mut m.actions[at].1
    }
}

pub fn some_event<'a>(m: &'a mut MThing, g: &Gen, s: &mut Src) -> &'a mut MEvent {
    if m.events.is_empty() || s.chance(40) {
        let n = gen::fresh(s, &keys(&m.events));
        let p = g.event(s);
        let at = put_at(&mut m.events, (n, p), s);
        &mut m.events[at].1
    } else {
        let at = s.below(m.events.len());
        &mut m.events[at].1
    }
}

fn some_aff<'a>(m: &'a mut MThing, w: Where, g: &Gen, s: &mut Src) -> &'a mut MAff {
    match w {
        Where::Property => &mut some_prop(m, g, s).aff,
        Where::Action => &mut some_action(m, g, s).aff,
        Where::Event => &mut some_event(m, g, s).aff,
        Where::Thing => unreachable!(),
    }
}

pub fn forms_of<'a>(m: &'a mut MThing, w: Where, g: &Gen, s: &mut Src) -> &'a mut Vec<MForm> {
    if w == Where::Thing {
        &mut m.forms
    } else {
        &mut some_aff(m, w, g, s).forms
    }
}

/// A form to put something in, at any index of a list of forms.
pub fn some_form<'a>(m: &'a mut MThing, w: Where, g: &Gen, s: &mut Src) -> &'a mut MForm {
    let fs = forms_of(m, w, g, s);
    if fs.is_empty() || s.chance(50) {
        let f = g.form(s, w);
        let at = put_at(fs, f, s);
        &mut fs[at]
    } else {
        let at = s.below(fs.len());
        &mut fs[at]
    }
}

fn some_uri<'a>(m: &'a mut MThing, w: Where, g: &Gen, s: &mut Src) -> &'a mut Vec<(String, MSchema)> {
    if w == Where::Thing {
        &mut m.uri
    } else {
        &mut some_aff(m, w, g, s).uri
    }
}

/// Use a data schema in a role.
pub fn place(m: &mut MThing, r: Role, mut x: MSchema, g: &Gen, s: &mut Src) {
    match r {
        Role::Prop => {
            x.hr = Hr::default();
            some_prop(m, g, s).schema = x;
        }
        Role::ActIn => some_action(m, g, s).input = Some(x),
        Role::ActOut => some_action(m, g, s).output = Some(x),
        Role::EvtSub => some_event(m, g, s).subscription = Some(x),
        Role::EvtData => some_event(m, g, s).data = Some(x),
        Role::EvtResp => some_event(m, g, s).data_response = Some(x),
        Role::EvtCancel => some_event(m, g, s).cancellation = Some(x),
        Role::Uri(w) => {
            let v = some_uri(m, w, g, s);
            let n = gen::fresh(s, &keys(v));
            put_at(v, (n, x), s);
        }
        Role::Def => {
            let n = gen::fresh(s, &keys(&m.schemas));
            put_at(&mut m.schemas, (n, x), s);
        }
    }
}

/// Put a schema inside others, `depth` times; only inside alternatives when it has to stay scalar.
pub fn wrap(mut x: MSchema, depth: usize, scalar: bool, g: &Gen, s: &mut Src) -> MSchema {
    for _ in 0..depth {
        let others = |s: &mut Src| -> Vec<MSchema> {
            if s.chance(4) {
                // far more than usual
                let n = 10 + s.below(60);
                return (0..n).map(|_| g.schema(s, 0, scalar)).collect();
            }
            let n = s.len(3);
            (0..n).map(|_| g.schema(s, 1, scalar)).collect()
        };
        let kind = match if scalar { 3 } else { s.below(4) } {
            0 => Kind::Vec {
                item: Some(Box::new(x)),
                min: None,
                max: None,
            },
            1 => {
                let mut v = others(s);
                put_at(&mut v, x, s);
                Kind::Tuple(v)
            }
            2 => {
                let mut names: Vec<String> = vec![];
                let mut v: Vec<(String, bool, MSchema)> = vec![];
                for o in others(s) {
                    let n = gen::fresh(s, &names);
                    names.push(n.clone());
                    v.push((n, s.chance(50), o));
                }
                let n = gen::fresh(s, &names);
                let req = s.chance(50);
                put_at(&mut v, (n, req, x), s);
                Kind::Obj(v)
            }
            _ => {
                let mut v = others(s);
                put_at(&mut v, x, s);
                Kind::OneOf(v)
            }
        };
        let rw = match kind {
            Kind::OneOf(_) => Rw::None,
            _ => *s.pick(&[Rw::None, Rw::Read, Rw::Write]),
        };
        x = MSchema {
            hr: g.hr(s),
            rw,
            x: g.x(s, false, false),
            xk: match kind {
                Kind::OneOf(_) => XData::default(),
                _ => g.x(s, false, false),
            },
            ..MSchema::plain(kind)
        };
    }
    x
}

fn lim<T>(excl: bool, v: T) -> Option<Lim<T>> {
    Some(Lim { excl, v })
}

/// The next float up.
pub fn next_up(f: f64) -> f64 {
    if f == 0.0 {
        return f64::from_bits(1);
    }
    let b = f.to_bits();
    f64::from_bits(if f > 0.0 { b + 1 } else { b - 1 })
}

/// A data schema whose limits are close to the boundary of the rules, satisfiable or not; whatever
/// else belongs to such a schema is there or not.
pub fn limits(bad: bool, g: &Gen, s: &mut Src) -> Kind {
    let (e1, e2) = (s.chance(50), s.chance(50));
    let u32s = |s: &mut Src| -> (u32, u32) {
        // a <= b
        let a = gen::u32v(s);
        let b = match s.below(3) {
            0 => a,
            1 => a.saturating_add(1),
            _ => gen::u32v(s).max(a),
        };
        if !bad {
            return (a, b);
        }
        if a == b {
            let a = a.saturating_sub(1);
            return (a.saturating_add(1), a);
        }
        (b, a)
    };
    match s.below(6) {
        0 => {
            let (min, max) = u32s(s);
            Kind::Str {
                min: Some(min),
                max: Some(max),
                pattern: g.opt_str(s),
                enc: g.opt_str(s),
                media: g.opt_str(s),
            }
        }
        1 => {
            let (min, max) = u32s(s);
            Kind::Vec {
                item: s.opt(40, |s| Box::new(g.schema(s, 1, false))),
                min: Some(min),
                max: Some(max),
            }
        }
        2 => {
            let a = gen::int(s);
            let b = match s.below(3) {
                0 => a,
                1 => a.saturating_add(1),
                _ => gen::int(s),
            };
            let (mut a, mut b) = (a.min(b), a.max(b));
            let (mut e1, mut e2) = (e1, e2);
            if bad {
                if a == b {
                    // an exclusive limit at least on one side
                    e1 = e1 || !e2;
                } else {
                    (a, b) = (b, a);
                }
            } else if a == b {
                (e1, e2) = (false, false);
            }
            Kind::Int {
                min: lim(e1, a),
                max: lim(e2, b),
                mult: s.opt(30, |s| 1 + s.below(9) as u64),
            }
        }
        3 if bad => {
            // NaN on either side
            let other = s.opt(60, |s| *s.pick(&[0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
            let nan = lim(e1, *s.pick(&[f64::NAN, -f64::NAN]));
            let other = other.and_then(|v| lim(e2, v));
            let (min, max) = if s.chance(50) { (nan, other) } else { (other, nan) };
            Kind::Num {
                min,
                max,
                mult: s.opt(30, |_| 0.5),
            }
        }
        4 => {
            let mult = if bad {
                *s.pick(&[0.0, -0.0, -1.0, f64::NAN, -f64::MIN_POSITIVE, f64::NEG_INFINITY, -5e-324])
            } else {
                *s.pick(&[5e-324, 1.0, 0.1, f64::MAX])
            };
            let (min, max) = g.num_limits(s);
            Kind::Num {
                min,
                max,
                mult: Some(mult),
            }
        }
        _ => {
            let any = |s: &mut Src| match s.below(8) {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                _ => gen::float(s),
            };
            let a = any(s);
            let b = match s.below(4) {
                0 => a,
                1 if a.is_finite() => next_up(a),
                2 => -a,
                _ => any(s),
            };
            let (mut a, mut b) = if a <= b { (a, b) } else { (b, a) };
            let (mut e1, mut e2) = (e1, e2);
            if a == b {
                if bad {
                    e1 = e1 || !e2;
                } else {
                    (e1, e2) = (false, false);
                }
            } else if bad {
                (a, b) = (b, a);
            }
            Kind::Num {
                min: lim(e1, a),
                max: lim(e2, b),
                mult: s.opt(30, |_| 0.5),
            }
        }
    }
}

/// How deep to put a fault: seldom very deep.
fn any_depth(s: &mut Src) -> usize {
    match s.weighted(&[35, 30, 15, 10, 8, 2]) {
        5 => 5 + s.below(12),
        n => n,
    }
}

/// A schema with limits at a place of a role.
pub fn limits_at(m: &mut MThing, r: Role, bad: bool, g: &Gen, s: &mut Src) {
    let kind = limits(bad, g, s);
    let scalar = matches!(r, Role::Uri(_));
    let array = matches!(kind, Kind::Vec { .. });
    let string = matches!(kind, Kind::Str { .. });
    // the other members of any schema
    let mut core = g.schema(s, 0, scalar);
    core.rw = *s.pick(&[Rw::None, Rw::Read, Rw::Write]);
    core.xk = if array { g.x(s, false, false) } else { XData::default() };
    core.kind = kind;
    if scalar && array {
        // the fault has to be the limits
        core.kind = Kind::Int {
            min: lim(bad, 3),
            max: lim(false, 3),
            mult: None,
        };
        core.xk = XData::default();
    }
    let mut depth = any_depth(s);
    if r == Role::Prop && string {
        // there is no call for the limits of a string on the builder of a property
        depth = depth.max(1);
    }
    let x = wrap(core, depth, scalar, g, s);
    place(m, r, x, g, s);
}

/// An undefined name, close to the defined ones.
pub fn undefined(defined: &[String], s: &mut Src) -> String {
    let mut n = if !defined.is_empty() && s.chance(60) {
        let d = s.pick(defined).clone();
        match s.below(4) {
            0 => d.to_uppercase(),
            1 => format!("{d} "),
            2 => d.chars().skip(1).collect(),
            _ => format!("{d}{d}"),
        }
    } else {
        gen::name(s)
    };
    while defined.contains(&n) {
        n.push('?');
    }
    n
}

fn bad_langs(v: &mut Option<Vec<(String, String)>>, s: &mut Src) {
    let v = v.get_or_insert_with(Vec::new);
    let t = gen::bad_lang(s);
    let x = gen::string(s);
    if v.iter().all(|(k, _)| *k != t) {
        put_at(v, (t, x), s);
    }
}

fn hr_langs<'a>(h: &'a mut Hr, s: &mut Src) -> &'a mut Option<Vec<(String, String)>> {
    if s.chance(50) {
        &mut h.titles
    } else {
        &mut h.descs
    }
}

/// Break one rule.
pub fn inject(m: &mut MThing, f: Fault, s: &mut Src) {
    let g = gen_for(m, s);
    match f {
        Fault::DupAff(w) => {
            // some more of the kind, then one again, at any distance
            macro_rules! dup {
                ($v:expr, $mk:ident) => {{
                    if $v.is_empty() {
                        let n = gen::name(s);
                        let x = g.$mk(s);
                        $v.push((n, x));
                    }
                    let i = s.below($v.len());
                    let n = $v[i].0.clone();
                    let x = if s.chance(40) { $v[i].1.clone() } else { g.$mk(s) };
                    put_at(&mut $v, (n, x), s);
                }};
            }
            match w {
                Where::Property => dup!(m.props, prop),
                Where::Action => dup!(m.actions, action),
                _ => dup!(m.events, event),
            }
        }
        Fault::DupSec => {
            if m.secs.is_empty() {
                let mut x = g.sec(s, &[]);
                if s.chance(50) {
                    x.key = Some(gen::name(s));
                }
                m.secs.push(x);
            }
            let i = s.below(m.secs.len());
            let old = m.secs[i].clone();
            let mut x = if s.chance(40) { old.clone() } else { g.sec(s, &[]) };
            x.key = if x.scheme() == old.name() && s.chance(50) {
                None
            } else {
                Some(old.name().to_string())
            };
            put_at(&mut m.secs, x, s);
        }
        Fault::NoOp => some_form(m, Where::Thing, &g, s).ops.clear(),
        Fault::BadOp(w) => {
            let bad: Vec<usize> = (0..18).filter(|i| !allowed(w).contains(i)).collect();
            let op = *s.pick(&bad);
            let f = some_form(m, w, &g, s);
            if s.chance(25) {
                // among any number of allowed ones
                let more = s.list(6, |s| *s.pick(allowed(w)));
                f.ops.extend(more);
            }
            put_at(&mut f.ops, op, s);
        }
        Fault::FormSec(w) => {
            let n = undefined(&g.secs, s);
            let f = some_form(m, w, &g, s);
            if s.chance(25) && !g.secs.is_empty() {
                let more = s.list(6, |s| s.pick(&g.secs).clone());
                f.security.extend(more);
            }
            put_at(&mut f.security, n, s);
        }
        Fault::Combo => {
            let combo = |x: &MSec| matches!(x.kind, SecKind::Combo { .. });
            let have: Vec<usize> = (0..m.secs.len()).filter(|i| combo(&m.secs[*i])).collect();
            let at = if have.is_empty() || s.chance(40) {
                let mut x = g.sec(s, &g.secs);
                x.kind = SecKind::Combo {
                    all: s.chance(50),
                    names: if g.secs.is_empty() { vec![] } else { s.vec(3, |s| s.pick(&g.secs).clone()) },
                };
                x.key = Some(gen::fresh(s, &g.secs));
                put_at(&mut m.secs, x, s)
            } else {
                *s.pick(&have)
            };
            let defined: Vec<String> = m.secs.iter().map(|x| x.name().to_string()).collect();
            let n = undefined(&defined, s);
            if let SecKind::Combo { names, .. } = &mut m.secs[at].kind {
                put_at(names, n, s);
            }
        }
        Fault::Addl(w) => {
            let n = undefined(&g.schemas, s);
            let x = MAddl {
                success: s.chance(50),
                ct: s.opt(30, gen::string),
                schema: Some(n),
            };
            let f = some_form(m, w, &g, s);
            put_at(&mut f.addl, x, s);
        }
        Fault::Limits(r) => limits_at(m, r, true, &g, s),
        Fault::UriComposite(w) => {
            let kind = match s.below(3) {
                0 => Kind::Vec {
                    item: s.opt(50, |s| Box::new(g.schema(s, 1, false))),
                    min: None,
                    max: None,
                },
                1 => Kind::Tuple((0..s.len(2)).map(|_| g.schema(s, 1, false)).collect()),
                _ => Kind::Obj(if s.chance(50) {
                    vec![]
                } else {
                    vec![(gen::name(s), s.chance(50), g.schema(s, 1, false))]
                }),
            };
            let mut x = MSchema {
                x: g.x(s, false, false),
                xk: g.x(s, false, false),
                rw: *s.pick(&[Rw::None, Rw::Read, Rw::Write]),
                hr: g.hr(s),
                ..MSchema::plain(kind)
            };
            if s.chance(50) {
                // with whatever an array or object can have
                for _ in 0..10 {
                    let y = g.schema(s, 2, false);
                    if matches!(y.kind, Kind::Vec { .. } | Kind::Tuple(_) | Kind::Obj(_)) {
                        x = y;
                        break;
                    }
                }
            }
            place(m, Role::Uri(w), x, &g, s);
        }
        Fault::Lang(at) => match at {
            LangAt::Hr(Where::Thing) => bad_langs(hr_langs(&mut m.hr, s), s),
            LangAt::Hr(w) => {
                let a = some_aff(m, w, &g, s);
                bad_langs(hr_langs(&mut a.hr, s), s)
            }
            LangAt::Schema(r) => {
                let scalar = matches!(r, Role::Uri(_));
                let mut core = g.schema(s, 1, scalar);
                bad_langs(hr_langs(&mut core.hr, s), s);
                let mut depth = any_depth(s);
                if r == Role::Prop {
                    // the affordance has the information of the root
                    depth = depth.max(1);
                }
                let x = wrap(core, depth, scalar, &g, s);
                place(m, r, x, &g, s);
            }
            LangAt::Sec => {
                if m.secs.is_empty() || s.chance(40) {
                    let mut x = g.sec(s, &[]);
                    x.key = Some(gen::fresh(s, &g.secs));
                    bad_langs(&mut x.descs, s);
                    put_at(&mut m.secs, x, s);
                } else {
                    let i = s.below(m.secs.len());
                    bad_langs(&mut m.secs[i].descs, s);
                }
            }
            LangAt::Link => {
                let l = some_link(m, &g, s);
                let t = gen::bad_lang(s);
                put_at(&mut l.hreflang, t, s);
            }
        },
        Fault::Sizes => {
            let l = some_link(m, &g, s);
            l.sizes = Some(gen::string(s));
            l.rel = not_icon(s);
        }
    }
}

pub fn not_icon(s: &mut Src) -> Option<String> {
    match s.below(4) {
        0 => None,
        1 => Some(s.pick(&["Icon", "icon ", " icon", "icons", "ICON", "", "shortcut icon", "ico", "icon\u{0}"]).to_string()),
        _ => Some(gen::string(s)).filter(|x| x != "icon"),
    }
}

fn some_link<'a>(m: &'a mut MThing, g: &Gen, s: &mut Src) -> &'a mut MLink {
    let at = if m.links.is_empty() || s.chance(50) {
        let l = g.link(s);
        put_at(&mut m.links, l, s)
    } else {
        s.below(m.links.len())
    };
    let l = &mut m.links[at];
    l.simple = false;
    l
}
