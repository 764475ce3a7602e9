//! The reference model of a Thing Description as told to the builder, and its generators.

use std::collections::BTreeMap;

use serde_json::Value;
use time::OffsetDateTime;
use wot_td::thing::FormOperation as Op;

use crate::{engine::Src, gen};

/// Which extension set a case runs with.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Set {
    Nil,
    A,
    AB,
    P,
}

pub const SETS: [Set; 4] = [Set::Nil, Set::A, Set::AB, Set::P];

pub const OPS: [(Op, &str); 17] = [
    (Op::ReadProperty, "readproperty"),
    (Op::WriteProperty, "writeproperty"),
    (Op::ObserveProperty, "observeproperty"),
    (Op::UnobserveProperty, "unobserveproperty"),
    (Op::InvokeAction, "invokeaction"),
    (Op::QueryAction, "queryaction"),
    (Op::CancelAction, "cancelaction"),
    (Op::SubscribeEvent, "subscribeevent"),
    (Op::UnsubscribeEvent, "unsubscribeevent"),
    (Op::ReadAllProperties, "readallproperties"),
    (Op::WriteAllProperties, "writeallproperties"),
    (Op::ReadMultipleProperties, "readmultipleproperties"),
    (Op::WriteMultipleProperties, "writemultipleproperties"),
    (Op::ObserveAllProperties, "observeallproperties"),
    (Op::UnobserveAllProperties, "unobserveallproperties"),
    (Op::SubscribeAllEvents, "subscribeallevents"),
    (Op::UnsubscribeAllEvents, "unsubscribeallevents"),
];

/// `queryallactions` is the eighteenth operation.
pub const ALL_OPS: [(Op, &str); 18] = {
    let mut a = [(Op::QueryAllActions, "queryallactions"); 18];
    let mut i = 0;
    while i < 17 {
        a[i] = OPS[i];
        i += 1;
    }
    a
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Where {
    Thing,
    Property,
    Action,
    Event,
}

/// Indices into `ALL_OPS` admitted in a context.
pub fn allowed(w: Where) -> &'static [usize] {
    match w {
        Where::Property => &[0, 1, 2, 3],
        Where::Action => &[4, 5, 6],
        Where::Event => &[7, 8],
        Where::Thing => &[9, 10, 11, 12, 13, 14, 15, 16, 17],
    }
}

/// Seed data of the extension pieces at one extension point.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct XData {
    pub a_m: String,
    pub a_o: Option<i64>,
    pub a_l: Vec<String>,
    pub b_o: Option<String>,
    pub b_m: BTreeMap<String, bool>,
    pub b_v: Option<Value>,
    // protocol bindings
    pub method: Option<usize>,
    pub headers: Vec<(Option<String>, Option<String>)>,
    pub status: Option<usize>,
    pub cov_method: Option<usize>,
    pub block: Option<(Option<usize>, Option<usize>)>,
    pub qblock: Option<(Option<usize>, Option<usize>)>,
    pub hop: Option<u8>,
    pub accept: Option<u16>,
    pub cov_format: Option<u16>,
    pub retain: bool,
    pub packet: Option<usize>,
    pub qos: Option<usize>,
    pub topic: Option<String>,
    pub filter: Vec<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Hr {
    pub attype: Vec<String>,
    pub title: Option<String>,
    pub titles: Option<Vec<(String, String)>>,
    pub desc: Option<String>,
    pub descs: Option<Vec<(String, String)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rw {
    None,
    Read,
    Write,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Lim<T> {
    pub excl: bool,
    pub v: T,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    Null,
    Str {
        min: Option<u32>,
        max: Option<u32>,
        pattern: Option<String>,
        enc: Option<String>,
        media: Option<String>,
    },
    Int {
        min: Option<Lim<i64>>,
        max: Option<Lim<i64>>,
        mult: Option<u64>,
    },
    Num {
        min: Option<Lim<f64>>,
        max: Option<Lim<f64>>,
        mult: Option<f64>,
    },
    Vec {
        item: Option<Box<MSchema>>,
        min: Option<u32>,
        max: Option<u32>,
    },
    Tuple(Vec<MSchema>),
    Obj(Vec<(String, bool, MSchema)>),
    Const(Value),
    Enum(Vec<Value>),
    OneOf(Vec<MSchema>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MSchema {
    pub hr: Hr,
    pub unit: Option<String>,
    pub format: Option<String>,
    pub default: Option<Value>,
    pub kind: Kind,
    pub rw: Rw,
    /// Data schema extension data.
    pub x: XData,
    /// Array or object schema extension data.
    pub xk: XData,
}

impl MSchema {
    pub fn plain(kind: Kind) -> Self {
        MSchema {
            hr: Hr::default(),
            unit: None,
            format: None,
            default: None,
            kind,
            rw: Rw::None,
            x: XData::default(),
            xk: XData::default(),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MAddl {
    pub success: bool,
    pub ct: Option<String>,
    pub schema: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MForm {
    pub href: String,
    /// Indices into `ALL_OPS`.
    pub ops: Vec<usize>,
    pub ct: Option<String>,
    pub cc: Option<String>,
    pub sub: Option<String>,
    pub security: Vec<String>,
    pub scopes: Vec<String>,
    pub response: Option<(String, XData)>,
    pub addl: Vec<MAddl>,
    pub x: XData,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MLink {
    pub href: String,
    /// Given with `link` rather than `link_with`.
    pub simple: bool,
    pub ty: Option<String>,
    pub rel: Option<String>,
    pub anchor: Option<String>,
    pub sizes: Option<String>,
    pub hreflang: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc {
    Header,
    Query,
    Body,
    Cookie,
    Uri,
}

pub const LOCS: [(Loc, &str); 5] = [
    (Loc::Header, "header"),
    (Loc::Query, "query"),
    (Loc::Body, "body"),
    (Loc::Cookie, "cookie"),
    (Loc::Uri, "uri"),
];

#[derive(Clone, Debug, PartialEq)]
pub enum SecKind {
    NoSec,
    Auto,
    Combo { all: bool, names: Vec<String> },
    Basic { loc: Option<Loc>, name: Option<String> },
    Digest { loc: Option<Loc>, name: Option<String>, auth_int: Option<bool> },
    Bearer { loc: Option<Loc>, name: Option<String>, authz: Option<String>, alg: Option<String>, format: Option<String> },
    Psk,
    OAuth2 { flow: String, authz: Option<String>, token: Option<String>, refresh: Option<String>, scopes: Vec<String> },
    ApiKey { loc: Option<Loc>, name: Option<String> },
    Custom { scheme: String, data: Option<BTreeMap<String, Value>> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct MSec {
    pub key: Option<String>,
    pub kind: SecKind,
    pub required: bool,
    pub attype: Vec<String>,
    pub desc: Option<String>,
    pub descs: Option<Vec<(String, String)>>,
    pub proxy: Option<String>,
}

impl MSec {
    pub fn scheme(&self) -> &str {
        match &self.kind {
            SecKind::NoSec => "nosec",
            SecKind::Auto => "auto",
            SecKind::Combo { .. } => "combo",
            SecKind::Basic { .. } => "basic",
            SecKind::Digest { .. } => "digest",
            SecKind::Bearer { .. } => "bearer",
            SecKind::Psk => "psk",
            SecKind::OAuth2 { .. } => "oauth2",
            SecKind::ApiKey { .. } => "apikey",
            SecKind::Custom { scheme, .. } => scheme,
        }
    }
    pub fn name(&self) -> &str {
        self.key.as_deref().unwrap_or_else(|| self.scheme())
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MAff {
    pub hr: Hr,
    pub forms: Vec<MForm>,
    pub uri: Vec<(String, MSchema)>,
    pub x: XData,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MProp {
    pub aff: MAff,
    /// Its human readable information is unused: the affordance's counts.
    pub schema: MSchema,
    pub observable: Option<bool>,
    pub x: XData,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MAction {
    pub aff: MAff,
    pub input: Option<MSchema>,
    pub output: Option<MSchema>,
    pub safe: bool,
    pub idempotent: bool,
    pub synchronous: Option<bool>,
    pub x: XData,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MEvent {
    pub aff: MAff,
    pub subscription: Option<MSchema>,
    pub data: Option<MSchema>,
    pub data_response: Option<MSchema>,
    pub cancellation: Option<MSchema>,
    pub x: XData,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MCtx {
    Iri(String),
    Map(Vec<(String, String)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MThing {
    pub set: Set,
    pub title: String,
    /// `title` inside is unused.
    pub hr: Hr,
    pub id: Option<String>,
    pub version: Option<(String, Option<String>)>,
    pub created: Option<OffsetDateTime>,
    pub modified: Option<OffsetDateTime>,
    pub support: Option<String>,
    pub base: Option<String>,
    pub context: Vec<MCtx>,
    pub links: Vec<MLink>,
    pub secs: Vec<MSec>,
    pub profile: Vec<String>,
    pub forms: Vec<MForm>,
    pub uri: Vec<(String, MSchema)>,
    pub props: Vec<(String, MProp)>,
    pub actions: Vec<(String, MAction)>,
    pub events: Vec<(String, MEvent)>,
    pub schemas: Vec<(String, MSchema)>,
    pub x: XData,
}

impl MThing {
    pub fn new(set: Set, title: impl Into<String>) -> Self {
        MThing {
            set,
            title: title.into(),
            hr: Hr::default(),
            id: None,
            version: None,
            created: None,
            modified: None,
            support: None,
            base: None,
            context: vec![],
            links: vec![],
            secs: vec![],
            profile: vec![],
            forms: vec![],
            uri: vec![],
            props: vec![],
            actions: vec![],
            events: vec![],
            schemas: vec![],
            x: XData::default(),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Generators

pub struct Gen {
    pub set: Set,
    /// Names a form may refer to.
    pub secs: Vec<String>,
    pub schemas: Vec<String>,
    /// Percentage by which optional parts appear.
    pub rich: usize,
    pub depth: usize,
}

impl Gen {
    pub fn new(set: Set, s: &mut Src) -> Self {
        let rich = (*s.pick(&[25usize, 45, 10, 60]) * s.size.max(30)) / 100;
        let depth = match s.weighted(&[50, 30, 15, 5]) {
            0 => 2,
            1 => 1,
            2 => 3,
            _ => 5,
        };
        Gen {
            set,
            secs: vec![],
            schemas: vec![],
            rich,
            depth,
        }
    }

    pub fn opt_str(&self, s: &mut Src) -> Option<String> {
        s.opt(self.rich, gen::string)
    }

    pub fn strs(&self, s: &mut Src, max: usize) -> Vec<String> {
        if s.chance(self.rich) {
            s.list(max, gen::string)
        } else {
            vec![]
        }
    }

    pub fn hr(&self, s: &mut Src) -> Hr {
        Hr {
            attype: self.strs(s, 3),
            title: self.opt_str(s),
            titles: s.opt(self.rich / 2, gen::multilang),
            desc: self.opt_str(s),
            descs: s.opt(self.rich / 2, gen::multilang),
        }
    }

    pub fn x(&self, s: &mut Src, form: bool, response: bool) -> XData {
        let mut x = XData::default();
        match self.set {
            Set::Nil => {}
            Set::A | Set::AB => {
                if s.chance(75) {
                    x.a_m = gen::string(s);
                }
                x.a_o = s.opt(40, gen::int);
                x.a_l = s.list(2, gen::string);
                if self.set == Set::AB {
                    x.b_o = s.opt(50, gen::string);
                    if s.chance(40) {
                        let ks = gen::names(s, 2);
                        x.b_m = ks.into_iter().map(|k| (k, s.chance(50))).collect();
                    }
                    x.b_v = s.opt(30, |s| gen::json(s, 1)).filter(|v| !v.is_null());
                }
            }
            Set::P => {
                if form {
                    x.method = s.opt(50, |s| s.below(5));
                    x.cov_method = s.opt(50, |s| s.below(7));
                    let block = |s: &mut Src| (s.opt(60, |s| s.below(7)), s.opt(60, |s| s.below(7)));
                    x.block = s.opt(30, block);
                    x.qblock = s.opt(30, block);
                    x.hop = s.opt(30, |s| gen::small(s, &[0, 1, 16, 255, 254], 256) as _);
                    x.accept = s.opt(30, |s| gen::small(s, &[0, 50, 60, 65535, 11542], 65536) as _);
                    x.cov_format = s.opt(30, |s| gen::small(s, &[0, 50, 60, 65535, 110], 65536) as _);
                    x.retain = s.chance(40);
                    x.packet = s.opt(40, |s| s.below(3));
                    x.qos = s.opt(40, |s| s.below(3));
                    x.topic = s.opt(40, gen::string);
                    x.filter = s.list(3, gen::string);
                }
                if response {
                    x.headers = s.list(3, |s| (s.opt(70, gen::string), s.opt(70, gen::string)));
                    x.status = s.opt(50, |s| {
                        gen::small(s, &[200, 404, 0, 599, 65536, u32::MAX as usize, 1 << 40, (1 << 53) + 1, usize::MAX], 1000)
                    });
                    x.cov_format = s.opt(40, |s| gen::small(s, &[0, 50, 65535], 65536) as _);
                }
            }
        }
        x
    }

    fn int_limits(&self, s: &mut Src) -> (Option<Lim<i64>>, Option<Lim<i64>>) {
        let lim = |s: &mut Src| Lim {
            excl: s.chance(40),
            v: gen::int(s),
        };
        let a = s.opt(50, lim);
        let b = s.opt(50, lim);
        match (a, b) {
            (Some(mut a), Some(mut b)) => {
                if a.v > b.v {
                    std::mem::swap(&mut a.v, &mut b.v);
                }
                if a.v == b.v {
                    a.excl = false;
                    b.excl = false;
                }
                (Some(a), Some(b))
            }
            x => x,
        }
    }

    pub fn num_limits(&self, s: &mut Src) -> (Option<Lim<f64>>, Option<Lim<f64>>) {
        let lim = |s: &mut Src| Lim {
            excl: s.chance(40),
            v: gen::float(s),
        };
        let a = s.opt(50, lim);
        let b = s.opt(50, lim);
        match (a, b) {
            (Some(mut a), Some(mut b)) => {
                if a.v > b.v {
                    std::mem::swap(&mut a.v, &mut b.v);
                }
                if a.v == b.v {
                    a.excl = false;
                    b.excl = false;
                }
                (Some(a), Some(b))
            }
            x => x,
        }
    }

    fn size_limits(&self, s: &mut Src) -> (Option<u32>, Option<u32>) {
        let a = s.opt(40, gen::u32v);
        let b = s.opt(40, gen::u32v);
        match (a, b) {
            (Some(a), Some(b)) if a > b => (Some(b), Some(a)),
            x => x,
        }
    }

    /// A satisfiable data schema.
    pub fn schema(&self, s: &mut Src, depth: usize, scalar: bool) -> MSchema {
        let w: &[usize] = match (depth, scalar) {
            (0, false) => &[10, 6, 14, 14, 14, 5, 4, 4, 7, 7, 3],
            (_, false) => &[8, 4, 12, 12, 12, 14, 10, 14, 6, 6, 10],
            (0, true) => &[10, 6, 14, 14, 14, 0, 0, 0, 7, 7, 3],
            (_, true) => &[8, 4, 12, 12, 12, 0, 0, 0, 6, 6, 10],
        };
        let which = s.weighted(w);
        // Below depth 0 the containers are empty
        let sub = |s: &mut Src, max: usize| if depth == 0 { 0 } else { s.len(max) };
        let kind = match which {
            0 => Kind::Bool,
            1 => Kind::Null,
            2 => {
                let (min, max) = self.size_limits(s);
                Kind::Str {
                    min,
                    max,
                    pattern: self.opt_str(s),
                    enc: self.opt_str(s),
                    media: self.opt_str(s),
                }
            }
            3 => {
                let (min, max) = self.int_limits(s);
                let mult = s.opt(30, gen::multiple);
                Kind::Int { min, max, mult }
            }
            4 => {
                let (min, max) = self.num_limits(s);
                let mult = s.opt(30, |s| match s.below(4) {
                    0 => gen::float(s).abs().max(5e-324),
                    _ => *s.pick(&[1f64, 0.1, 0.5, 1e-300, f64::MAX, 5e-324]),
                });
                Kind::Num { min, max, mult }
            }
            5 => {
                let (min, max) = self.size_limits(s);
                let item = if depth > 0 && s.chance(70) {
                    Some(Box::new(self.schema(s, depth - 1, false)))
                } else {
                    None
                };
                Kind::Vec { item, min, max }
            }
            6 => {
                let n = sub(s, 3);
                if depth > 0 && s.chance(2) {
                    let n = 4 + s.below(30);
                    Kind::Tuple((0..n).map(|_| self.schema(s, 0, false)).collect())
                } else {
                    Kind::Tuple((0..n).map(|_| self.schema(s, depth - 1, false)).collect())
                }
            }
            7 => {
                let wide = depth > 0 && s.chance(2);
                let ns = match depth {
                    0 => vec![],
                    _ if wide => (0..4 + s.below(30)).map(|i| format!("wide-{i}")).collect(),
                    _ => gen::names(s, 4),
                };
                let sub = if wide { 0 } else { depth.saturating_sub(1) };
                Kind::Obj(
                    ns.into_iter()
                        .map(|n| (n, s.chance(50), self.schema(s, sub, false)))
                        .collect(),
                )
            }
            8 => Kind::Const(gen::json(s, 2)),
            9 => {
                let n = 1 + s.many(3);
                let mut v: Vec<Value> = (0..n).map(|_| gen::json(s, 1)).collect();
                if s.chance(10) {
                    // a value again
                    let x = s.pick(&v).clone();
                    v.push(x);
                }
                Kind::Enum(v)
            }
            _ => {
                let n = 1 + s.len(2);
                Kind::OneOf(
                    (0..n)
                        .map(|_| self.schema(s, depth.saturating_sub(1), scalar))
                        .collect(),
                )
            }
        };
        let rw = match kind {
            Kind::Const(_) => Rw::Read,
            Kind::OneOf(_) => Rw::None,
            _ => [Rw::None, Rw::Read, Rw::Write][s.weighted(&[60, 20, 20])],
        };
        let default = s.opt(self.rich / 2, |s| match &kind {
            // sometimes one of the values
            Kind::Const(v) if s.chance(40) => v.clone(),
            Kind::Enum(v) if s.chance(50) => s.pick(v).clone(),
            _ => gen::json(s, 1),
        });
        MSchema {
            hr: self.hr(s),
            unit: self.opt_str(s),
            format: self.opt_str(s),
            default,
            xk: match kind {
                Kind::Vec { .. } | Kind::Tuple(_) | Kind::Obj(_) => self.x(s, false, false),
                _ => XData::default(),
            },
            kind,
            rw,
            x: self.x(s, false, false),
        }
    }

    pub fn form(&self, s: &mut Src, w: Where) -> MForm {
        let ok = allowed(w);
        let n = if w == Where::Thing { 1 + s.many(3) } else { s.many(4) };
        let refs = |s: &mut Src, from: &[String], max: usize| -> Vec<String> {
            if from.is_empty() {
                vec![]
            } else {
                s.list(max, |s| s.pick(from).clone())
            }
        };
        let ct = self.opt_str(s);
        let response = s.opt(self.rich, |s| {
            let own = match &ct {
                Some(ct) if s.chance(25) => ct.clone(),
                _ => gen::string(s),
            };
            (own, self.x(s, false, true))
        });
        MForm {
            href: gen::string(s),
            ops: (0..n).map(|_| *s.pick(ok)).collect(),
            ct,
            cc: self.opt_str(s),
            sub: self.opt_str(s),
            security: refs(s, &self.secs, 3),
            scopes: self.strs(s, 3),
            response,
            addl: if s.chance(self.rich) {
                s.list(3, |s| MAddl {
                    success: s.chance(50),
                    ct: s.opt(50, gen::string),
                    schema: if self.schemas.is_empty() {
                        None
                    } else {
                        s.opt(60, |s| s.pick(&self.schemas).clone())
                    },
                })
            } else {
                vec![]
            },
            x: self.x(s, true, false),
        }
    }

    pub fn link(&self, s: &mut Src) -> MLink {
        let href = gen::string(s);
        if s.chance(25) {
            return MLink {
                href,
                simple: true,
                ..MLink::default()
            };
        }
        let icon = s.chance(30);
        MLink {
            href,
            simple: false,
            ty: self.opt_str(s),
            rel: if icon { Some("icon".into()) } else { self.opt_str(s) },
            anchor: self.opt_str(s),
            sizes: if icon { s.opt(60, gen::string) } else { None },
            hreflang: if s.chance(self.rich) {
                s.list(3, gen::lang)
            } else {
                vec![]
            },
        }
    }

    pub fn sec(&self, s: &mut Src, all_keys: &[String]) -> MSec {
        let loc = |s: &mut Src| s.opt(50, |s| s.pick(&LOCS).0);
        let kind = match s.below(10) {
            0 => SecKind::NoSec,
            1 => SecKind::Auto,
            2 => SecKind::Basic {
                loc: loc(s),
                name: self.opt_str(s),
            },
            3 => SecKind::Digest {
                loc: loc(s),
                name: self.opt_str(s),
                auth_int: s.opt(60, |s| s.chance(50)),
            },
            4 => SecKind::Bearer {
                loc: loc(s),
                name: self.opt_str(s),
                authz: self.opt_str(s),
                alg: self.opt_str(s),
                format: self.opt_str(s),
            },
            5 => SecKind::Psk,
            6 => SecKind::OAuth2 {
                flow: gen::string(s),
                authz: self.opt_str(s),
                token: self.opt_str(s),
                refresh: self.opt_str(s),
                scopes: self.strs(s, 3),
            },
            7 => SecKind::ApiKey {
                loc: loc(s),
                name: self.opt_str(s),
            },
            8 => SecKind::Custom {
                scheme: format!("{}:{}", s.pick(&["ace", "x", "acme"]), gen::string(s)),
                data: s.opt(60, |s| {
                    let ks = gen::names(s, 3);
                    ks.into_iter()
                        .map(|k| (format!("c:{k}"), gen::json(s, 2)))
                        .collect()
                }),
            },
            _ => {
                // any definition, given before or after
                let n = if all_keys.is_empty() { 0 } else { s.many(3) };
                SecKind::Combo {
                    all: s.chance(50),
                    names: (0..n).map(|_| s.pick(all_keys).clone()).collect(),
                }
            }
        };
        MSec {
            key: None,
            kind,
            required: s.chance(50),
            attype: self.strs(s, 2),
            desc: self.opt_str(s),
            descs: s.opt(self.rich / 2, gen::multilang),
            proxy: self.opt_str(s),
        }
    }

    pub fn secs(&self, s: &mut Src, max: usize) -> Vec<MSec> {
        let n = s.len(max);
        // keys first, so that combos can refer to any of them
        let keys: Vec<String> = {
            let mut v: Vec<String> = Vec::new();
            for _ in 0..n {
                let k = gen::fresh(s, &v);
                v.push(k);
            }
            v
        };
        let mut v: Vec<MSec> = keys
            .iter()
            .map(|k| {
                let mut m = self.sec(s, &keys);
                m.key = Some(k.clone());
                m
            })
            .collect();
        // sometimes the default name, when nothing refers to the key it replaces
        for i in 0..v.len() {
            let (key, default) = (v[i].name().to_string(), v[i].scheme().to_string());
            let referred = v
                .iter()
                .any(|m| matches!(&m.kind, SecKind::Combo { names, .. } if names.contains(&key)));
            if !referred && v.iter().all(|m| m.name() != default) && s.chance(40) {
                v[i].key = None;
            }
        }
        v
    }

    fn uri(&self, s: &mut Src, max: usize) -> Vec<(String, MSchema)> {
        if !s.chance(self.rich) {
            return vec![];
        }
        gen::names(s, max)
            .into_iter()
            .map(|n| (n, self.schema(s, self.depth.min(2), true)))
            .collect()
    }

    pub fn aff(&self, s: &mut Src, w: Where) -> MAff {
        MAff {
            hr: self.hr(s),
            forms: s.vec(3, |s| self.form(s, w)),
            uri: self.uri(s, 2),
            x: self.x(s, false, false),
        }
    }

    pub fn prop(&self, s: &mut Src) -> MProp {
        let mut schema = self.schema(s, self.depth, false);
        schema.hr = Hr::default();
        // there is no call for the other members on the builder of a property
        if let Kind::Str {
            min,
            max,
            pattern,
            enc,
            media,
        } = &mut schema.kind
        {
            (*min, *max, *pattern, *enc, *media) = (None, None, None, None, None);
        }
        MProp {
            schema,
            aff: self.aff(s, Where::Property),
            observable: s.opt(40, |s| s.chance(50)),
            x: self.x(s, false, false),
        }
    }

    pub fn action(&self, s: &mut Src) -> MAction {
        let input = s.opt(50, |s| self.schema(s, self.depth, false));
        let output = self.schema_or(s, 50, &[&input]);
        MAction {
            input,
            output,
            aff: self.aff(s, Where::Action),
            safe: s.chance(40),
            idempotent: s.chance(40),
            synchronous: s.opt(40, |s| s.chance(50)),
            x: self.x(s, false, false),
        }
    }

    /// Perhaps a schema, sometimes one of the others again.
    fn schema_or(&self, s: &mut Src, percent: usize, others: &[&Option<MSchema>]) -> Option<MSchema> {
        s.opt(percent, |s| {
            if s.chance(10) {
                if let Some(x) = s.pick(others) {
                    return x.clone();
                }
            }
            self.schema(s, self.depth, false)
        })
    }

    pub fn event(&self, s: &mut Src) -> MEvent {
        let subscription = s.opt(40, |s| self.schema(s, self.depth, false));
        let data = self.schema_or(s, 50, &[&subscription]);
        let data_response = self.schema_or(s, 40, &[&data, &subscription]);
        let cancellation = self.schema_or(s, 40, &[&data, &subscription, &data_response]);
        MEvent {
            subscription,
            data,
            data_response,
            cancellation,
            aff: self.aff(s, Where::Event),
            x: self.x(s, false, false),
        }
    }

    pub fn context(&self, s: &mut Src) -> Vec<MCtx> {
        if !s.chance(self.rich + 15) {
            return vec![];
        }
        s.vec(4, |s| match s.below(4) {
            0 => MCtx::Iri(TD11.into()),
            1 => MCtx::Iri(
                s.pick(&[
                    "https://www.w3.org/2019/wot/td/v1",
                    "https://www.w3.org/2022/wot/td/v1.1/",
                    "https://www.w3.org/2022/wot/td/v1",
                    "HTTPS://www.w3.org/2022/wot/td/v1.1",
                    "http://www.w3.org/ns/td",
                ])
                .to_string(),
            ),
            2 => MCtx::Iri(gen::string(s)),
            _ => {
                let ks = gen::names(s, 3);
                MCtx::Map(ks.into_iter().map(|k| (k, gen::string(s))).collect())
            }
        })
    }

    /// Sometimes give a part once more: where it was, or under another name.
    fn repeat(&self, m: &mut MThing, s: &mut Src) {
        if !s.chance(25) {
            return;
        }
        fn again<T: Clone>(v: &mut Vec<T>, s: &mut Src) {
            if !v.is_empty() {
                let x = s.pick(v).clone();
                let at = s.below(v.len() + 1);
                v.insert(at, x);
            }
        }
        fn named<T: Clone>(v: &mut Vec<(String, T)>, s: &mut Src) {
            if !v.is_empty() {
                let x = s.pick(v).1.clone();
                let used: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
                v.push((gen::fresh(s, &used), x));
            }
        }
        if s.chance(8) {
            // a lot of something, each of it small
            let g = Gen {
                set: self.set,
                secs: self.secs.clone(),
                schemas: self.schemas.clone(),
                rich: 4,
                depth: 0,
            };
            let n = 8 + s.below(40);
            match s.below(11) {
                0 => m.props.extend((0..n).map(|i| (format!("wide-{i}"), g.prop(s)))),
                1 => m.actions.extend((0..n).map(|i| (format!("wide-{i}"), g.action(s)))),
                2 => m.events.extend((0..n).map(|i| (format!("wide-{i}"), g.event(s)))),
                3 => m.links.extend((0..n).map(|_| g.link(s))),
                4 => m.forms.extend((0..n).map(|_| g.form(s, Where::Thing))),
                5 => m.uri.extend((0..n).map(|i| (format!("wide-{i}"), g.schema(s, 0, true)))),
                6 => m.schemas.extend((0..n).map(|i| (format!("wide-{i}"), g.schema(s, 0, false)))),
                7 => {
                    // one of the affordances
                    let mut which = s.below((m.props.len() + m.actions.len() + m.events.len()).max(1));
                    let uri = s.chance(30);
                    visit_affs(m, &mut |a, w| {
                        if which == 0 {
                            if uri {
                                a.uri.extend((0..n).map(|i| (format!("wide-{i}"), g.schema(s, 0, true))));
                            } else {
                                a.forms.extend((0..n).map(|_| g.form(s, w)));
                            }
                        }
                        which = which.wrapping_sub(1);
                    });
                }
                8 | 9 => {
                    // a schema far below others, in one of the places
                    let (mut count, depth) = (0, 4 + s.below(14));
                    visit_roots(m, &mut |_| count += 1);
                    let mut variables = 0;
                    visit_affs(m, &mut |a, _| variables += a.uri.len());
                    let top = m.schemas.len()..m.schemas.len() + m.uri.len();
                    let which = s.below(count.max(1));
                    let scalar = top.contains(&which) || which >= count - variables;
                    let mut at = 0;
                    visit_roots(m, &mut |r| {
                        if at == which {
                            *r = crate::inject::wrap(r.clone(), depth, scalar, &g, s);
                        }
                        at += 1;
                    });
                }
                _ => {
                    let keys = self.secs.clone();
                    for i in 0..n {
                        let mut x = g.sec(s, &keys);
                        x.key = Some(format!("wide-{i}"));
                        m.secs.push(x);
                    }
                }
            }
            return;
        }
        match s.below(9) {
            0 => again(&mut m.forms, s),
            1 => again(&mut m.links, s),
            2 => again(&mut m.context, s),
            3 => named(&mut m.props, s),
            4 => named(&mut m.actions, s),
            5 => named(&mut m.events, s),
            6 => named(&mut m.schemas, s),
            7 => named(&mut m.uri, s),
            _ => visit_affs(m, &mut |a, _| again(&mut a.forms, s)),
        }
    }

    /// A description which breaks no rule.
    pub fn thing(&mut self, s: &mut Src) -> MThing {
        let mut m = MThing::new(self.set, gen::string(s));
        m.secs = self.secs(s, 4);
        self.secs = m.secs.iter().map(|x| x.name().to_string()).collect();
        let names = if s.chance(self.rich + 15) {
            gen::names(s, 3)
        } else {
            vec![]
        };
        self.schemas = names.clone();
        m.schemas = names
            .into_iter()
            .map(|n| (n, self.schema(s, self.depth, false)))
            .collect();
        m.props = gen::names(s, 3).into_iter().map(|n| (n, self.prop(s))).collect();
        m.actions = gen::names(s, 2).into_iter().map(|n| (n, self.action(s))).collect();
        m.events = gen::names(s, 2).into_iter().map(|n| (n, self.event(s))).collect();
        m.hr = self.hr(s);
        m.hr.title = None;
        m.id = self.opt_str(s);
        m.version = s.opt(self.rich, |s| (gen::string(s), s.opt(50, gen::string)));
        m.created = s.opt(self.rich, gen::timestamp);
        m.modified = s.opt(self.rich, |s| match m.created {
            Some(t) if s.chance(15) => t,
            _ => gen::timestamp(s),
        });
        m.support = self.opt_str(s);
        m.base = self.opt_str(s);
        m.context = self.context(s);
        m.links = if s.chance(self.rich + 15) {
            s.vec(3, |s| self.link(s))
        } else {
            vec![]
        };
        m.profile = self.strs(s, 3);
        m.forms = s.vec(2, |s| self.form(s, Where::Thing));
        m.uri = self.uri(s, 3);
        m.x = self.x(s, false, false);
        self.repeat(&mut m, s);
        m
    }
}

pub const TD11: &str = "https://www.w3.org/2022/wot/td/v1.1";

pub fn any_set(s: &mut Src) -> Set {
    SETS[s.weighted(&[50, 15, 20, 15])]
}

pub fn any_thing(s: &mut Src) -> MThing {
    let set = any_set(s);
    Gen::new(set, s).thing(s)
}

// ---------------------------------------------------------------------------------------------
// Walking: every data schema of a description, with a mutable visitor


/// Visit every data schema, outermost first.
pub fn visit_schema(m: &mut MSchema, f: &mut dyn FnMut(&mut MSchema)) {
    f(m);
    match &mut m.kind {
        Kind::Vec { item: Some(i), .. } => visit_schema(i, f),
        Kind::Tuple(v) | Kind::OneOf(v) => v.iter_mut().for_each(|x| visit_schema(x, f)),
        Kind::Obj(v) => v.iter_mut().for_each(|x| visit_schema(&mut x.2, f)),
        _ => {}
    }
}

pub fn visit_affs(m: &mut MThing, f: &mut dyn FnMut(&mut MAff, Where)) {
    m.props.iter_mut().for_each(|p| f(&mut p.1.aff, Where::Property));
    m.actions.iter_mut().for_each(|p| f(&mut p.1.aff, Where::Action));
    m.events.iter_mut().for_each(|p| f(&mut p.1.aff, Where::Event));
}

/// Visit the schemas at the top of every place where one is used.
pub fn visit_roots(m: &mut MThing, f: &mut dyn FnMut(&mut MSchema)) {
    m.schemas.iter_mut().for_each(|x| f(&mut x.1));
    m.uri.iter_mut().for_each(|x| f(&mut x.1));
    m.props.iter_mut().for_each(|x| f(&mut x.1.schema));
    for (_, a) in &mut m.actions {
        a.input.iter_mut().for_each(&mut *f);
        a.output.iter_mut().for_each(&mut *f);
    }
    for (_, e) in &mut m.events {
        e.subscription.iter_mut().for_each(&mut *f);
        e.data.iter_mut().for_each(&mut *f);
        e.data_response.iter_mut().for_each(&mut *f);
        e.cancellation.iter_mut().for_each(&mut *f);
    }
    visit_affs(m, &mut |a, _| a.uri.iter_mut().for_each(|x| f(&mut x.1)));
}

pub fn visit_schemas(m: &mut MThing, f: &mut dyn FnMut(&mut MSchema)) {
    visit_roots(m, &mut |r| visit_schema(r, f));
}

pub fn visit_forms(m: &mut MThing, f: &mut dyn FnMut(&mut MForm, Where)) {
    m.forms.iter_mut().for_each(|x| f(x, Where::Thing));
    visit_affs(m, &mut |a, w| a.forms.iter_mut().for_each(|x| f(x, w)));
}

/// Visit every multi-language map and hreflang list.
pub fn visit_langs(m: &mut MThing, f: &mut dyn FnMut(&mut Vec<(String, String)>)) {
    fn hr(h: &mut Hr, f: &mut dyn FnMut(&mut Vec<(String, String)>)) {
        h.titles.iter_mut().for_each(&mut *f);
        h.descs.iter_mut().for_each(&mut *f);
    }
    hr(&mut m.hr, f);
    for s in &mut m.secs {
        s.descs.iter_mut().for_each(&mut *f);
    }
    visit_affs(m, &mut |a, _| hr(&mut a.hr, f));
    visit_schemas(m, &mut |s| hr(&mut s.hr, f));
}
