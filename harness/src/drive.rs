//! Drives the builder from a model: every model is told to the builder through its public API,
//! in the canonical order or in a pseudo-random one.

use std::collections::VecDeque;

use serde_json::Value;
use wot_td::{
    builder::{
        affordance::{
            ActionAffordanceBuilder, BuildableInteractionAffordance, EventAffordanceBuilder,
            IntoUsable, PropertyAffordanceBuilder,
        },
        data_schema::*,
        AllOfComboSecuritySchemeTag, BuildableHumanReadableInfo, EmptyComboSecuritySchemeTag, Error, Extended, FormBuilder, LinkBuilder,
        MultiLanguageBuilder, OneOfComboSecuritySchemeTag, SecuritySchemeBuilder, ThingBuilder,
        ToExtend,
    },
    extend::ExtendableThing,
    hlist::Nil,
    thing::{QualityOfProtection, SecurityAuthenticationLocation, Thing},
};

use crate::{
    engine::{mix, Rng},
    ext::{Mid, XSet},
    model::*,
};

/// How the calls are ordered. `Order::canonical()` makes them one after the other, each once.
#[derive(Clone)]
pub struct Order {
    rng: Option<Rng>,
    /// Percentage of single-valued members set twice, the first time to something else.
    decoys: usize,
}

impl Order {
    pub fn canonical() -> Self {
        Order {
            rng: None,
            decoys: 0,
        }
    }
    pub fn shuffled(seed: u64) -> Self {
        Order {
            rng: Some(Rng(mix(seed))),
            decoys: 25,
        }
    }
    fn decoy(&mut self) -> bool {
        let p = self.decoys;
        self.rng.as_mut().is_some_and(|r| r.chance(p))
    }
    fn coin(&mut self) -> bool {
        self.rng.as_mut().is_some_and(|r| r.chance(50))
    }
    fn below(&mut self, n: usize) -> usize {
        self.rng.as_mut().map_or(0, |r| r.below(n))
    }

    /// Shuffle calls; those of one group keep their order.
    fn arrange<T>(&mut self, ops: Vec<(u8, T)>) -> VecDeque<T> {
        let Some(rng) = &mut self.rng else {
            return ops.into_iter().map(|o| o.1).collect();
        };
        let mut groups: Vec<u8> = ops.iter().map(|o| o.0).collect();
        for i in (1..groups.len()).rev() {
            groups.swap(i, rng.below(i + 1));
        }
        let mut queues: Vec<(u8, VecDeque<T>)> = Vec::new();
        for (g, t) in ops {
            match queues.iter_mut().find(|q| q.0 == g) {
                Some(q) => q.1.push_back(t),
                None => queues.push((g, VecDeque::from([t]))),
            }
        }
        groups
            .into_iter()
            .map(|g| {
                let q = queues.iter_mut().find(|q| q.0 == g).unwrap();
                q.1.pop_front().unwrap()
            })
            .collect()
    }

    /// Some of the next calls: none in canonical order.
    fn some<T>(&mut self, q: &mut VecDeque<T>) -> Vec<T> {
        let n = match &mut self.rng {
            None => 0,
            Some(r) => {
                if r.chance(40) {
                    0
                } else {
                    r.below(q.len() + 1)
                }
            }
        };
        q.drain(..n).collect()
    }
}

struct Ops<T> {
    v: Vec<(u8, T)>,
}

impl<T> Ops<T> {
    fn new() -> Self {
        Ops { v: Vec::new() }
    }
    fn add(&mut self, group: u8, t: T) {
        self.v.push((group, t));
    }
}

fn fill(b: &mut MultiLanguageBuilder<String>, v: Vec<(String, String)>) -> &mut MultiLanguageBuilder<String> {
    // told again below, in whatever letter case
    for (l, _) in &v {
        let other: String = match l.len() % 3 {
            0 => continue,
            1 => l.to_string(),
            _ => l
                .chars()
                .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect(),
        };
        b.add(other, "decoy");
    }
    for (l, t) in v {
        b.add(l, t);
    }
    b
}

fn decoy_langs() -> Vec<(String, String)> {
    // replaced by the following call: even a malformed tag must not matter
    vec![("xx".into(), "decoy".into()), ("not a tag".into(), "decoy".into())]
}

// ---------------------------------------------------------------------------------------------
// Human readable information

enum HrOp {
    Type(String),
    Title(String),
    Titles(Vec<(String, String)>),
    Desc(String),
    Descs(Vec<(String, String)>),
}

fn hr_ops<T>(ops: &mut Ops<T>, h: &Hr, o: &mut Order, wrap: fn(HrOp) -> T) {
    for t in &h.attype {
        ops.add(0, wrap(HrOp::Type(t.clone())));
    }
    if let Some(t) = &h.title {
        if o.decoy() {
            ops.add(1, wrap(HrOp::Title("decoy".into())));
        }
        ops.add(1, wrap(HrOp::Title(t.clone())));
    }
    if let Some(t) = &h.titles {
        if o.decoy() {
            ops.add(2, wrap(HrOp::Titles(decoy_langs())));
        }
        ops.add(2, wrap(HrOp::Titles(t.clone())));
    }
    if let Some(t) = &h.desc {
        if o.decoy() {
            ops.add(3, wrap(HrOp::Desc("decoy".into())));
        }
        ops.add(3, wrap(HrOp::Desc(t.clone())));
    }
    if let Some(t) = &h.descs {
        if o.decoy() {
            ops.add(4, wrap(HrOp::Descs(decoy_langs())));
        }
        ops.add(4, wrap(HrOp::Descs(t.clone())));
    }
}

fn hr_op<B: BuildableHumanReadableInfo>(b: B, op: HrOp) -> B {
    match op {
        HrOp::Type(t) => b.attype(t),
        HrOp::Title(t) => b.title(t),
        HrOp::Titles(t) => b.titles(|m| fill(m, t)),
        HrOp::Desc(t) => b.description(t),
        HrOp::Descs(t) => b.descriptions(|m| fill(m, t)),
    }
}

// ---------------------------------------------------------------------------------------------
// Data schemas

pub type Unchecked<X> = UncheckedDataSchema<
    <X as ExtendableThing>::DataSchema,
    <X as ExtendableThing>::ArraySchema,
    <X as ExtendableThing>::ObjectSchema,
>;

type Start<X> =
    DataSchemaBuilder<Nil, <X as ExtendableThing>::ArraySchema, <X as ExtendableThing>::ObjectSchema, ToExtend>;

enum BaseOp {
    Unit(String),
    Format(String),
    Default(Value),
}

enum DsOp {
    Hr(HrOp),
    Base(BaseOp),
}

fn base_ops<T>(ops: &mut Ops<T>, m: &MSchema, o: &mut Order, wrap: fn(BaseOp) -> T) {
    if let Some(t) = &m.unit {
        if o.decoy() {
            ops.add(10, wrap(BaseOp::Unit("decoy".into())));
        }
        ops.add(10, wrap(BaseOp::Unit(t.clone())));
    }
    if let Some(t) = &m.format {
        if o.decoy() {
            ops.add(11, wrap(BaseOp::Format("decoy".into())));
        }
        ops.add(11, wrap(BaseOp::Format(t.clone())));
    }
    if let Some(t) = &m.default {
        if o.decoy() {
            ops.add(12, wrap(BaseOp::Default("decoy".into())));
        }
        ops.add(12, wrap(BaseOp::Default(t.clone())));
    }
}

fn base_op<B, D, A, O, St>(b: B, op: BaseOp) -> B
where
    B: BuildableDataSchema<D, A, O, St>,
{
    match op {
        BaseOp::Unit(t) => b.unit(t),
        BaseOp::Format(t) => b.format(t),
        BaseOp::Default(t) => b.default_value(t),
    }
}

fn ds_op<B, D, A, O, St>(b: B, op: DsOp) -> B
where
    B: BuildableDataSchema<D, A, O, St> + BuildableHumanReadableInfo,
{
    match op {
        DsOp::Hr(h) => hr_op(b, h),
        DsOp::Base(x) => base_op(b, x),
    }
}

/// `ALONE`: the finished builder becomes a data schema directly.
struct DsPlan<'o, const ALONE: bool = false> {
    q: VecDeque<DsOp>,
    o: &'o mut Order,
}

impl DsPlan<'_, true> {
    fn fin<U, B: TryInto<U, Error = Error>>(&mut self, b: B) -> Result<U, Error> {
        b.try_into()
    }
}

impl DsPlan<'_> {
    /// Extension pieces do not need further data.
    fn fin<U, B: Into<U>>(&mut self, b: B) -> U {
        b.into()
    }
}

impl<const ALONE: bool> DsPlan<'_, ALONE> {
    fn some<B, D, A, O, St>(&mut self, mut b: B) -> B
    where
        B: BuildableDataSchema<D, A, O, St> + BuildableHumanReadableInfo,
    {
        for op in self.o.some(&mut self.q) {
            b = ds_op(b, op);
        }
        b
    }
    fn rest<B, D, A, O, St>(&mut self, mut b: B) -> B
    where
        B: BuildableDataSchema<D, A, O, St> + BuildableHumanReadableInfo,
    {
        for op in self.q.drain(..) {
            b = ds_op(b, op);
        }
        b
    }
}

impl<const ALONE: bool> Mid for DsPlan<'_, ALONE> {
    fn with(&mut self) -> bool {
        self.o.coin()
    }
    fn ds<D, A, O>(&mut self, b: DataSchemaBuilder<D, A, O, ToExtend>) -> DataSchemaBuilder<D, A, O, ToExtend> {
        self.some(b)
    }
}

/// Calls of the specialised builders.
enum KOp<'a> {
    MinI(Lim<i64>),
    MaxI(Lim<i64>),
    MultI(u64),
    MinF(Lim<f64>),
    MaxF(Lim<f64>),
    MultF(f64),
    MinLen(u32),
    MaxLen(u32),
    Pattern(String),
    Enc(String),
    Media(String),
    MinItems(u32),
    MaxItems(u32),
    Item(&'a MSchema),
    Prop(&'a str, bool, &'a MSchema),
}

struct KPlan<'a> {
    q: VecDeque<KOp<'a>>,
}

impl<'a> KPlan<'a> {
    fn new(m: &'a MSchema, decoy: &'a MSchema, o: &mut Order) -> Self {
        let mut ops = Ops::new();
        macro_rules! single {
            ($g:expr, $v:expr, $decoy:expr, $mk:expr) => {
                if let Some(v) = $v {
                    if o.decoy() {
                        ops.add($g, $mk($decoy));
                    }
                    ops.add($g, $mk(v.clone()));
                }
            };
        }
        match &m.kind {
            Kind::Int { min, max, mult } => {
                single!(0, min, Lim { excl: o.coin(), v: i64::MAX }, KOp::MinI);
                single!(1, max, Lim { excl: o.coin(), v: i64::MIN }, KOp::MaxI);
                single!(2, mult, 7, KOp::MultI);
            }
            Kind::Num { min, max, mult } => {
                single!(0, min, Lim { excl: o.coin(), v: f64::NAN }, KOp::MinF);
                single!(1, max, Lim { excl: o.coin(), v: f64::NAN }, KOp::MaxF);
                single!(2, mult, -1., KOp::MultF);
            }
            Kind::Str {
                min,
                max,
                pattern,
                enc,
                media,
            } => {
                single!(0, min, u32::MAX, KOp::MinLen);
                single!(1, max, 0, KOp::MaxLen);
                single!(2, pattern, "decoy".to_string(), KOp::Pattern);
                single!(3, enc, "decoy".to_string(), KOp::Enc);
                single!(4, media, "decoy".to_string(), KOp::Media);
            }
            Kind::Vec { item, min, max } => {
                single!(0, min, u32::MAX, KOp::MinItems);
                single!(1, max, 0, KOp::MaxItems);
                if let Some(i) = item {
                    if o.decoy() {
                        ops.add(2, KOp::Item(decoy));
                    }
                    ops.add(2, KOp::Item(i));
                }
            }
            Kind::Tuple(v) => {
                for i in v {
                    ops.add(0, KOp::Item(i));
                }
            }
            Kind::Obj(v) => {
                // the members which are told once more later
                let again: Vec<bool> = v.iter().map(|_| o.decoy()).collect();
                let first = o.coin();
                for ((n, _, _), a) in v.iter().zip(&again) {
                    if first && *a {
                        ops.add(0, KOp::Prop(n, false, decoy));
                    }
                }
                for ((n, r, i), a) in v.iter().zip(&again) {
                    if !first && *a {
                        ops.add(0, KOp::Prop(n, false, decoy));
                    }
                    ops.add(0, KOp::Prop(n, *r, i));
                }
            }
            _ => {}
        }
        KPlan { q: o.arrange(ops.v) }
    }

    fn int<B: IntegerDataSchemaBuilderLike<D, A, O>, D, A, O>(mut b: B, ops: Vec<KOp>) -> B {
        for op in ops {
            b = match op {
                KOp::MinI(Lim { excl: false, v }) => b.minimum(v as _),
                KOp::MinI(Lim { excl: true, v }) => b.exclusive_minimum(v as _),
                KOp::MaxI(Lim { excl: false, v }) => b.maximum(v as _),
                KOp::MaxI(Lim { excl: true, v }) => b.exclusive_maximum(v as _),
                KOp::MultI(v) => b.multiple_of(std::num::NonZero::new(v as _).unwrap()),
                _ => unreachable!(),
            }
        }
        b
    }

    fn num<B: NumberDataSchemaBuilderLike<D, A, O>, D, A, O>(mut b: B, ops: Vec<KOp>) -> B {
        for op in ops {
            b = match op {
                KOp::MinF(Lim { excl: false, v }) => b.minimum(v as _),
                KOp::MinF(Lim { excl: true, v }) => b.exclusive_minimum(v as _),
                KOp::MaxF(Lim { excl: false, v }) => b.maximum(v as _),
                KOp::MaxF(Lim { excl: true, v }) => b.exclusive_maximum(v as _),
                KOp::MultF(v) => b.multiple_of(v as _),
                _ => unreachable!(),
            }
        }
        b
    }

    fn str<B: StringDataSchemaBuilderLike<D, A, O>, D, A, O>(mut b: B, ops: Vec<KOp>) -> B {
        for op in ops {
            b = match op {
                KOp::MinLen(v) => b.min_length(v as _),
                KOp::MaxLen(v) => b.max_length(v as _),
                KOp::Pattern(v) => b.pattern(v),
                KOp::Enc(v) => b.content_encoding(v),
                KOp::Media(v) => b.content_media_type(v),
                _ => unreachable!(),
            }
        }
        b
    }

    fn vec<X: XSet, B>(mut b: B, ops: Vec<KOp>, o: &mut Order) -> B
    where
        B: VecDataSchemaBuilderLike<X::D, X::A, X::O>,
    {
        for op in ops {
            b = match op {
                KOp::MinItems(v) => b.min_items(v as _),
                KOp::MaxItems(v) => b.max_items(v as _),
                KOp::Item(i) => b.set_item(|s| schema::<X>(s, i, o)),
                _ => unreachable!(),
            }
        }
        b
    }

    fn tuple<X: XSet, B>(mut b: B, ops: Vec<KOp>, o: &mut Order) -> B
    where
        B: TupleDataSchemaBuilderLike<X::D, X::A, X::O>,
    {
        for op in ops {
            b = match op {
                KOp::Item(i) => b.append(|s| schema::<X>(s, i, o)),
                _ => unreachable!(),
            }
        }
        b
    }

    fn obj<X: XSet, B>(mut b: B, ops: Vec<KOp>, o: &mut Order) -> B
    where
        B: ObjectDataSchemaBuilderLike<X::D, X::A, X::O>,
    {
        for op in ops {
            b = match op {
                KOp::Prop(n, r, i) => b.property(n, r, |s| schema::<X>(s, i, o)),
                _ => unreachable!(),
            }
        }
        b
    }

    fn none<B>(b: B, _: Vec<KOp>) -> B {
        b
    }
}

macro_rules! staged_with {
    ($bb:expr, $p:ident, $k:ident, $m:ident, $apply:ident) => {{
        let b = $p.some($bb);
        let ops = $p.o.some(&mut $k.q);
        let b = $apply!(b, ops, &mut *$p.o);
        match $m.rw {
            Rw::None => {
                let b = $p.some(b);
                let b = $apply!(b, $k.q.drain(..).collect(), &mut *$p.o);
                let b = $p.rest(b);
                $p.fin(b)
            }
            Rw::Read => {
                let b = $p.some(b.read_only());
                let b = $apply!(b, $k.q.drain(..).collect(), &mut *$p.o);
                let b = $p.rest(b);
                $p.fin(b)
            }
            Rw::Write => {
                let b = $p.some(b.write_only());
                let b = $apply!(b, $k.q.drain(..).collect(), &mut *$p.o);
                let b = $p.rest(b);
                $p.fin(b)
            }
        }
    }};
}

/// Specialise `$b` along model `$m`, making the calls of plan `$p` at every stage.
macro_rules! specialise {
    ($X:ident, $b:ident, $m:ident, $p:ident, $str:ident) => {{
        let decoy = MSchema {
            hr: Hr { title: Some("decoy".into()), ..Hr::default() },
            ..MSchema::plain(Kind::Tuple(vec![]))
        };
        let mut k = KPlan::new($m, &decoy, $p.o);
        let k = &mut k;
        macro_rules! plain {
            ($bb:expr) => {{
                let b = $p.some($bb);
                match $m.rw {
                    Rw::None => {
                        let b = $p.rest(b);
                        $p.fin(b)
                    }
                    Rw::Read => {
                        let b = $p.rest(b.read_only());
                        $p.fin(b)
                    }
                    Rw::Write => {
                        let b = $p.rest(b.write_only());
                        $p.fin(b)
                    }
                }
            }};
        }
        match &$m.kind {
            Kind::Bool => plain!($b.bool()),
            Kind::Null => plain!($b.null()),
            Kind::Int { .. } => {
                macro_rules! int { ($bb:expr, $ops:expr, $o:expr) => { KPlan::int($bb, $ops) } }
                staged_with!($b.integer(), $p, k, $m, int)
            }
            Kind::Num { .. } => {
                macro_rules! num { ($bb:expr, $ops:expr, $o:expr) => { KPlan::num($bb, $ops) } }
                staged_with!($b.number(), $p, k, $m, num)
            }
            Kind::Str { .. } => {
                let b = $b.string();
                let ops: Vec<KOp> = k.q.drain(..).collect();
                let b = KPlan::$str(b, ops);
                plain!(b)
            }
            Kind::Vec { .. } => {
                macro_rules! vec_ops { ($bb:expr, $ops:expr, $o:expr) => { KPlan::vec::<$X, _>($bb, $ops, $o) } }
                let b = if $m.xk == XData::default() && !$p.o.coin() {
                    $b.vec()
                } else {
                    $b.vec_ext(|n| $X::arr(n, &$m.xk))
                };
                staged_with!(b, $p, k, $m, vec_ops)
            }
            Kind::Tuple(_) => {
                macro_rules! tuple_ops { ($bb:expr, $ops:expr, $o:expr) => { KPlan::tuple::<$X, _>($bb, $ops, $o) } }
                let b = if $m.xk == XData::default() && !$p.o.coin() {
                    $b.tuple()
                } else {
                    $b.tuple_ext(|n| $X::arr(n, &$m.xk))
                };
                staged_with!(b, $p, k, $m, tuple_ops)
            }
            Kind::Obj(_) => {
                macro_rules! obj_ops { ($bb:expr, $ops:expr, $o:expr) => { KPlan::obj::<$X, _>($bb, $ops, $o) } }
                let b = if $m.xk == XData::default() && !$p.o.coin() {
                    $b.object()
                } else {
                    $b.object_ext(|n| $X::obj(n, &$m.xk))
                };
                staged_with!(b, $p, k, $m, obj_ops)
            }
            Kind::Const(v) => {
                let b = $b.constant(v.clone());
                let b = $p.rest(b);
                $p.fin(b)
            }
            Kind::Enum(v) => {
                let mut it = v.iter().cloned();
                let mut b = $p.some($b.enumeration(it.next().expect("enumerations are not empty")));
                let early = $p.o.below(v.len());
                for x in it.by_ref().take(early) {
                    b = b.enumeration(x);
                }
                match $m.rw {
                    Rw::None => {
                        for x in it {
                            b = b.enumeration(x);
                        }
                        let b = $p.rest(b);
                        $p.fin(b)
                    }
                    Rw::Read => {
                        let mut b = $p.some(b.read_only());
                        for x in it {
                            b = b.enumeration(x);
                        }
                        let b = $p.rest(b);
                        $p.fin(b)
                    }
                    Rw::Write => {
                        let mut b = $p.some(b.write_only());
                        for x in it {
                            b = b.enumeration(x);
                        }
                        let b = $p.rest(b);
                        $p.fin(b)
                    }
                }
            }
            Kind::OneOf(v) => {
                let mut it = v.iter();
                let first = it.next().expect("alternatives are not empty");
                let mut b = $b.one_of(|s| schema::<$X>(s, first, &mut *$p.o));
                for x in it {
                    b = $p.some(b);
                    b = b.one_of(|s| schema::<$X>(s, x, &mut *$p.o));
                }
                let b = $p.rest(b);
                $p.fin(b)
            }
        }
    }};
}

macro_rules! tell_schema {
    ($X:ident, $b:ident, $m:ident, $o:ident, $alone:literal) => {{
        let mut ops = Ops::new();
        hr_ops(&mut ops, &$m.hr, $o, DsOp::Hr);
        base_ops(&mut ops, $m, $o, DsOp::Base);
        let q = $o.arrange(ops.v);
        let mut p = DsPlan::<'_, $alone> { q, o: $o };
        let p = &mut p;
        let b = p.some($b);
        let b = $X::ds(b, &$m.x, p);
        let b = p.some(b);
        let b = p.some(b.finish_extend());
        specialise!($X, b, $m, p, str)
    }};
}

/// Tell a data schema to its builder.
pub fn schema<X: XSet>(b: Start<X>, m: &MSchema, o: &mut Order) -> Unchecked<X> {
    tell_schema!(X, b, m, o, false)
}

fn schema_alone<X: XSet>(b: Start<X>, m: &MSchema, o: &mut Order) -> Result<crate::ext::DataSchemaFromOther<X>, Error> {
    tell_schema!(X, b, m, o, true)
}

// ---------------------------------------------------------------------------------------------
// Forms

enum FormOp<'a> {
    Op(usize),
    Ct(String),
    Cc(String),
    Sub(String),
    Sec(String),
    Scope(String),
    Resp(String, &'a XData, bool),
    Addl(&'a MAddl),
}

struct FormPlan<'a, 'o> {
    q: VecDeque<FormOp<'a>>,
    o: &'o mut Order,
}

impl FormPlan<'_, '_> {
    fn apply<X: ExtendableThing, H, OF>(b: FormBuilder<X, H, OF>, op: FormOp) -> Result<FormBuilder<X, H, OF>, (FormBuilder<X, H, OF>, String, XData, bool)> {
        Ok(match op {
            FormOp::Op(i) => b.op(ALL_OPS[i].0),
            FormOp::Ct(v) => b.content_type(v),
            FormOp::Cc(v) => b.content_coding(v),
            FormOp::Sub(v) => b.subprotocol(v),
            FormOp::Sec(v) => b.security(v),
            FormOp::Scope(v) => b.scope(v),
            FormOp::Resp(ct, x, default) => return Err((b, ct, x.clone(), default)),
            FormOp::Addl(a) => b.additional_response(|r| {
                if a.success {
                    r.success();
                }
                if let Some(v) = &a.ct {
                    r.content_type(v.clone());
                }
                if let Some(v) = &a.schema {
                    r.schema(v.clone());
                }
                r
            }),
        })
    }

    fn many<X: XSet, H, OF>(mut b: FormBuilder<X, H, OF>, ops: Vec<FormOp>) -> FormBuilder<X, H, OF> {
        for op in ops {
            b = match Self::apply(b, op) {
                Ok(b) => b,
                Err((b, ct, _, true)) => b.response_default_ext(ct),
                Err((b, ct, x, false)) => b.response(ct, |n| X::resp(n, &x)),
            };
        }
        b
    }

    fn some<X: XSet, H, OF>(&mut self, b: FormBuilder<X, H, OF>) -> FormBuilder<X, H, OF> {
        let ops = self.o.some(&mut self.q);
        Self::many(b, ops)
    }
}

impl Mid for FormPlan<'_, '_> {
    fn with(&mut self) -> bool {
        self.o.coin()
    }
    fn form<X: ExtendableThing, H, OF>(&mut self, mut b: FormBuilder<X, H, OF>) -> FormBuilder<X, H, OF> {
        // not knowing the set, responses have to wait
        while !matches!(self.q.front(), None | Some(FormOp::Resp(..))) && self.o.coin() {
            let op = self.q.pop_front().unwrap();
            b = match Self::apply(b, op) {
                Ok(b) => b,
                Err(_) => unreachable!(),
            };
        }
        b
    }
}

pub fn form<X: XSet>(b: FormBuilder<X, (), Nil>, m: &MForm, o: &mut Order) -> FormBuilder<X, String, X::F> {
    let mut ops = Ops::new();
    for i in &m.ops {
        ops.add(0, FormOp::Op(*i));
    }
    macro_rules! single {
        ($g:expr, $v:expr, $mk:expr) => {
            if let Some(v) = &$v {
                if o.decoy() {
                    ops.add($g, $mk("decoy".into()));
                }
                ops.add($g, $mk(v.clone()));
            }
        };
    }
    single!(1, m.ct, FormOp::Ct);
    single!(2, m.cc, FormOp::Cc);
    single!(3, m.sub, FormOp::Sub);
    for v in &m.security {
        ops.add(4, FormOp::Sec(v.clone()));
    }
    for v in &m.scopes {
        ops.add(5, FormOp::Scope(v.clone()));
    }
    if let Some((ct, x)) = &m.response {
        if o.decoy() {
            ops.add(6, FormOp::Resp("decoy".into(), decoy_x(), o.coin()));
        }
        let default = *x == XData::default() && o.coin();
        ops.add(6, FormOp::Resp(ct.clone(), x, default));
    }
    for a in &m.addl {
        ops.add(7, FormOp::Addl(a));
    }
    let q = o.arrange(ops.v);
    let mut p = FormPlan { q, o };
    let b = p.some(b);
    let b = if p.o.coin() {
        let b = X::form(b, &m.x, &mut p);
        let b = p.some(b);
        b.href(m.href.clone())
    } else {
        let b = b.href(m.href.clone());
        let b = p.some(b);
        X::form(b, &m.x, &mut p)
    };
    let ops = p.q.drain(..).collect();
    FormPlan::many(b, ops)
}

// ---------------------------------------------------------------------------------------------
// Affordances

enum AffOp<'a> {
    Hr(HrOp),
    Form(&'a MForm),
    Uri(&'a str, &'a MSchema),
    Observable(bool),
    Input(&'a MSchema),
    Output(&'a MSchema),
    Safe,
    Idempotent,
    Synchronous(bool),
    Subscription(&'a MSchema),
    Data(&'a MSchema),
    Response(&'a MSchema),
    Cancellation(&'a MSchema),
}

/// A schema which is told first and then replaced.
fn decoy_schema() -> &'static MSchema {
    static D: std::sync::OnceLock<MSchema> = std::sync::OnceLock::new();
    D.get_or_init(|| MSchema::plain(Kind::Const(Value::String("decoy".into()))))
}

/// Extension data which is told first and then replaced.
fn decoy_x() -> &'static XData {
    static D: std::sync::OnceLock<XData> = std::sync::OnceLock::new();
    D.get_or_init(|| XData {
        a_m: "decoy".into(),
        a_o: Some(7),
        a_l: vec!["decoy".into()],
        b_o: Some("decoy".into()),
        b_m: [("decoy".to_string(), true)].into_iter().collect(),
        b_v: Some(Value::String("decoy".into())),
        headers: vec![(Some("decoy".into()), None)],
        status: Some(999),
        cov_format: Some(7),
        ..XData::default()
    })
}

fn aff_ops<'a>(ops: &mut Ops<AffOp<'a>>, a: &'a MAff, o: &mut Order) {
    hr_ops(ops, &a.hr, o, AffOp::Hr);
    for f in &a.forms {
        ops.add(20, AffOp::Form(f));
    }
    // names are distinct: each is a group of its own
    for (i, (n, s)) in a.uri.iter().enumerate() {
        if o.decoy() {
            ops.add(100 + i as u8, AffOp::Uri(n, decoy_schema()));
        }
        ops.add(100 + i as u8, AffOp::Uri(n, s));
    }
}

fn aff_op<X: XSet, B>(b: B, op: AffOp, o: &mut Order) -> B
where
    B: BuildableHumanReadableInfo + BuildableInteractionAffordance<X>,
{
    match op {
        AffOp::Hr(h) => hr_op(b, h),
        AffOp::Form(f) => b.form(|fb| form::<X>(fb, f, o)),
        AffOp::Uri(n, s) => b.uri_variable(n, |sb| schema::<X>(sb, s, o)),
        _ => unreachable!(),
    }
}

struct AffPlan<'a, 'o> {
    q: VecDeque<AffOp<'a>>,
    o: &'o mut Order,
}

impl AffPlan<'_, '_> {
    fn act_op<X: XSet, I, P>(b: ActionAffordanceBuilder<X, I, P>, op: AffOp, o: &mut Order) -> ActionAffordanceBuilder<X, I, P> {
        match op {
            AffOp::Input(s) => b.input(|sb| schema::<X>(sb, s, o)),
            AffOp::Output(s) => b.output(|sb| schema::<X>(sb, s, o)),
            AffOp::Safe => b.safe(),
            AffOp::Idempotent => b.idempotent(),
            AffOp::Synchronous(v) => b.synchronous(v),
            op => aff_op::<X, _>(b, op, o),
        }
    }
    fn act<X: XSet, I, P>(&mut self, mut b: ActionAffordanceBuilder<X, I, P>, all: bool) -> ActionAffordanceBuilder<X, I, P> {
        let ops = if all { self.q.drain(..).collect() } else { self.o.some(&mut self.q) };
        for op in ops {
            b = Self::act_op(b, op, self.o);
        }
        b
    }
    fn evt_op<X: XSet, I, P>(b: EventAffordanceBuilder<X, I, P>, op: AffOp, o: &mut Order) -> EventAffordanceBuilder<X, I, P> {
        match op {
            AffOp::Subscription(s) => b.subscription(|sb| schema::<X>(sb, s, o)),
            AffOp::Data(s) => b.data(|sb| schema::<X>(sb, s, o)),
            AffOp::Response(s) => b.data_response(|sb| schema::<X>(sb, s, o)),
            AffOp::Cancellation(s) => b.cancellation(|sb| schema::<X>(sb, s, o)),
            op => aff_op::<X, _>(b, op, o),
        }
    }
    fn evt<X: XSet, I, P>(&mut self, mut b: EventAffordanceBuilder<X, I, P>, all: bool) -> EventAffordanceBuilder<X, I, P> {
        let ops = if all { self.q.drain(..).collect() } else { self.o.some(&mut self.q) };
        for op in ops {
            b = Self::evt_op(b, op, self.o);
        }
        b
    }
    fn prop<X: XSet, D, I, P>(
        &mut self,
        mut b: PropertyAffordanceBuilder<X, D, I, P>,
        all: bool,
    ) -> PropertyAffordanceBuilder<X, D, I, P> {
        let ops = if all { self.q.drain(..).collect() } else { self.o.some(&mut self.q) };
        for op in ops {
            b = match op {
                AffOp::Observable(v) => b.observable(v),
                op => aff_op::<X, _>(b, op, self.o),
            };
        }
        b
    }
}

impl Mid for AffPlan<'_, '_> {
    fn with(&mut self) -> bool {
        self.o.coin()
    }
    fn act<X: ExtendableThing, I, P>(&mut self, mut b: ActionAffordanceBuilder<X, I, P>) -> ActionAffordanceBuilder<X, I, P> {
        while matches!(self.q.front(), Some(AffOp::Hr(_) | AffOp::Safe | AffOp::Idempotent | AffOp::Synchronous(_))) && self.o.coin() {
            b = match self.q.pop_front().unwrap() {
                AffOp::Hr(h) => hr_op(b, h),
                AffOp::Safe => b.safe(),
                AffOp::Idempotent => b.idempotent(),
                AffOp::Synchronous(v) => b.synchronous(v),
                _ => unreachable!(),
            }
        }
        b
    }
    fn evt<X: ExtendableThing, I, P>(&mut self, mut b: EventAffordanceBuilder<X, I, P>) -> EventAffordanceBuilder<X, I, P> {
        while matches!(self.q.front(), Some(AffOp::Hr(_))) && self.o.coin() {
            if let Some(AffOp::Hr(h)) = self.q.pop_front() {
                b = hr_op(b, h);
            }
        }
        b
    }
    fn prop<X: ExtendableThing, D, I, P>(
        &mut self,
        mut b: PropertyAffordanceBuilder<X, D, I, P>,
    ) -> PropertyAffordanceBuilder<X, D, I, P> {
        while matches!(self.q.front(), Some(AffOp::Hr(_) | AffOp::Observable(_))) && self.o.coin() {
            b = match self.q.pop_front().unwrap() {
                AffOp::Hr(h) => hr_op(b, h),
                AffOp::Observable(v) => b.observable(v),
                _ => unreachable!(),
            }
        }
        b
    }
}

pub fn action<X: XSet>(b: ActionAffordanceBuilder<X, Nil, Nil>, m: &MAction, o: &mut Order) -> ActionAffordanceBuilder<X, X::I, X::C> {
    let decoy = MSchema::plain(Kind::Const(Value::String("decoy".into())));
    let mut ops = Ops::new();
    aff_ops(&mut ops, &m.aff, o);
    if let Some(s) = &m.input {
        if o.decoy() {
            ops.add(30, AffOp::Input(&decoy));
        }
        ops.add(30, AffOp::Input(s));
    }
    if let Some(s) = &m.output {
        if o.decoy() {
            ops.add(31, AffOp::Output(&decoy));
        }
        ops.add(31, AffOp::Output(s));
    }
    if m.safe {
        ops.add(32, AffOp::Safe);
    }
    if m.idempotent {
        ops.add(33, AffOp::Idempotent);
    }
    if let Some(v) = m.synchronous {
        if o.decoy() {
            ops.add(34, AffOp::Synchronous(!v));
        }
        ops.add(34, AffOp::Synchronous(v));
    }
    let q = o.arrange(ops.v);
    let mut p = AffPlan { q, o };
    let b = p.act(b, false);
    let b = if p.o.coin() {
        let b = X::act_i(b, &m.aff.x, &mut p);
        let b = p.act(b, false);
        X::act_x(b, &m.x, &mut p)
    } else {
        let b = X::act_x(b, &m.x, &mut p);
        let b = p.act(b, false);
        X::act_i(b, &m.aff.x, &mut p)
    };
    p.act(b, true)
}

pub fn event<X: XSet>(b: EventAffordanceBuilder<X, Nil, Nil>, m: &MEvent, o: &mut Order) -> EventAffordanceBuilder<X, X::I, X::E> {
    let decoy = MSchema::plain(Kind::Const(Value::String("decoy".into())));
    let mut ops = Ops::new();
    aff_ops(&mut ops, &m.aff, o);
    macro_rules! single {
        ($g:expr, $v:expr, $mk:expr) => {
            if let Some(v) = &$v {
                if o.decoy() {
                    ops.add($g, $mk(&decoy));
                }
                ops.add($g, $mk(v));
            }
        };
    }
    single!(30, m.subscription, AffOp::Subscription);
    single!(31, m.data, AffOp::Data);
    single!(32, m.data_response, AffOp::Response);
    single!(33, m.cancellation, AffOp::Cancellation);
    let q = o.arrange(ops.v);
    let mut p = AffPlan { q, o };
    let b = p.evt(b, false);
    let b = if p.o.coin() {
        let b = X::evt_i(b, &m.aff.x, &mut p);
        let b = p.evt(b, false);
        X::evt_x(b, &m.x, &mut p)
    } else {
        let b = X::evt_x(b, &m.x, &mut p);
        let b = p.evt(b, false);
        X::evt_i(b, &m.aff.x, &mut p)
    };
    p.evt(b, true)
}

type PropStart<X> = PropertyAffordanceBuilder<
    X,
    PartialDataSchemaBuilder<Nil, <X as ExtendableThing>::ArraySchema, <X as ExtendableThing>::ObjectSchema, ToExtend>,
    Nil,
    Nil,
>;

type PropDone<X> = PropertyAffordanceBuilder<
    X,
    PartialDataSchema<
        <X as ExtendableThing>::DataSchema,
        <X as ExtendableThing>::ArraySchema,
        <X as ExtendableThing>::ObjectSchema,
    >,
    <X as ExtendableThing>::InteractionAffordance,
    <X as ExtendableThing>::PropertyAffordance,
>;

trait PropFin<X: XSet, I, P> {
    fn done<D>(aff: &mut AffPlan, m: &MProp, b: PropertyAffordanceBuilder<X, D, I, P>) -> PropDone<X>
    where
        D: Into<PartialDataSchema<X::D, X::A, X::O>>;
}

/// The affordance extensions are already there.
struct Early;
/// The affordance extensions come last.
struct Late;

impl<X: XSet> PropFin<X, X::I, X::P> for Early {
    fn done<D>(aff: &mut AffPlan, _: &MProp, b: PropertyAffordanceBuilder<X, D, X::I, X::P>) -> PropDone<X>
    where
        D: Into<PartialDataSchema<X::D, X::A, X::O>>,
    {
        aff.prop(b, true).into_usable()
    }
}

impl<X: XSet> PropFin<X, Nil, Nil> for Late {
    fn done<D>(aff: &mut AffPlan, m: &MProp, b: PropertyAffordanceBuilder<X, D, Nil, Nil>) -> PropDone<X>
    where
        D: Into<PartialDataSchema<X::D, X::A, X::O>>,
    {
        let b = aff.prop(b, false);
        if aff.o.coin() {
            let b = X::prop_i(b, &m.aff.x, aff);
            let b = aff.prop(b, false);
            let b = X::prop_x(b, &m.x, aff);
            aff.prop(b, true).into_usable()
        } else {
            let b = X::prop_x(b, &m.x, aff);
            let b = aff.prop(b, false);
            let b = X::prop_i(b, &m.aff.x, aff);
            aff.prop(b, true).into_usable()
        }
    }
}

struct PropPlan<'a, 'o, F> {
    aff: AffPlan<'a, 'o>,
    base: VecDeque<BaseOp>,
    m: &'a MProp,
    o: &'a mut Order,
    _fin: std::marker::PhantomData<F>,
}

impl<F> PropPlan<'_, '_, F> {
    fn some<X: XSet, C, I, P>(&mut self, b: PropertyAffordanceBuilder<X, C, I, P>) -> PropertyAffordanceBuilder<X, C, I, P>
    where
        C: BuildableDataSchema<X::D, X::A, X::O, Extended>,
    {
        let mut b = self.aff.prop(b, false);
        for op in self.o.some(&mut self.base) {
            b = base_op::<_, X::D, X::A, X::O, Extended>(b, op);
        }
        b
    }
    fn rest<X: XSet, C, I, P>(&mut self, b: PropertyAffordanceBuilder<X, C, I, P>) -> PropertyAffordanceBuilder<X, C, I, P>
    where
        C: BuildableDataSchema<X::D, X::A, X::O, Extended>,
    {
        let mut b = self.aff.prop(b, false);
        for op in self.base.drain(..) {
            b = base_op::<_, X::D, X::A, X::O, Extended>(b, op);
        }
        b
    }
    fn fin<X: XSet, C, I, P>(&mut self, b: PropertyAffordanceBuilder<X, C, I, P>) -> PropDone<X>
    where
        C: Into<PartialDataSchema<X::D, X::A, X::O>>,
        F: PropFin<X, I, P>,
    {
        F::done(&mut self.aff, self.m, b)
    }
}

type PropReady<X, I, P> = PropertyAffordanceBuilder<
    X,
    PartialDataSchemaBuilder<
        <X as ExtendableThing>::DataSchema,
        <X as ExtendableThing>::ArraySchema,
        <X as ExtendableThing>::ObjectSchema,
        Extended,
    >,
    I,
    P,
>;

fn prop_kind<X: XSet, I, P, F: PropFin<X, I, P>>(b: PropReady<X, I, P>, aff: AffPlan, prop: &MProp, base: VecDeque<BaseOp>) -> PropDone<X> {
    let mut o = aff.o.clone();
    let mut p = PropPlan::<F> {
        aff,
        base,
        m: prop,
        o: &mut o,
        _fin: std::marker::PhantomData,
    };
    let p = &mut p;
    let m = &prop.schema;
    let b = p.some(b);
    specialise!(X, b, m, p, none)
}

pub fn property<X: XSet>(b: PropStart<X>, m: &MProp, o: &mut Order) -> PropDone<X> {
    let mut ops = Ops::new();
    aff_ops(&mut ops, &m.aff, o);
    if let Some(v) = m.observable {
        if o.decoy() {
            ops.add(30, AffOp::Observable(!v));
        }
        ops.add(30, AffOp::Observable(v));
    }
    let q = o.arrange(ops.v);
    let mut ops = Ops::new();
    base_ops(&mut ops, &m.schema, o, |x| x);
    let base = o.arrange(ops.v);
    // when the interaction and property extensions come
    let stage = o.below(4);
    let swap = o.coin();
    let mut aff = AffPlan { q, o };
    let b = aff.prop(b, false);
    macro_rules! both {
        ($b:expr) => {{
            let b = $b;
            if swap {
                let b = X::prop_x(b, &m.x, &mut aff);
                let b = aff.prop(b, false);
                X::prop_i(b, &m.aff.x, &mut aff)
            } else {
                let b = X::prop_i(b, &m.aff.x, &mut aff);
                let b = aff.prop(b, false);
                X::prop_x(b, &m.x, &mut aff)
            }
        }};
    }
    match stage {
        0 => {
            let b = both!(b);
            let b = aff.prop(b, false);
            let b = X::prop_d(b, &m.schema.x, &mut aff);
            let b = aff.prop(b, false).finish_extend_data_schema();
            prop_kind::<X, _, _, Early>(b, aff, m, base)
        }
        1 => {
            let b = X::prop_d(b, &m.schema.x, &mut aff);
            let b = aff.prop(b, false);
            let b = both!(b);
            let b = aff.prop(b, false).finish_extend_data_schema();
            prop_kind::<X, _, _, Early>(b, aff, m, base)
        }
        2 => {
            let b = X::prop_d(b, &m.schema.x, &mut aff);
            let b = aff.prop(b, false).finish_extend_data_schema();
            let b = aff.prop(b, false);
            let b = both!(b);
            prop_kind::<X, _, _, Early>(b, aff, m, base)
        }
        _ => {
            let b = X::prop_d(b, &m.schema.x, &mut aff);
            let b = aff.prop(b, false).finish_extend_data_schema();
            prop_kind::<X, _, _, Late>(b, aff, m, base)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Security

enum SecOp {
    Type(String),
    Desc(String),
    Descs(Vec<(String, String)>),
    Proxy(String),
    Key(String),
    Required,
}

fn sec_op<T>(b: SecuritySchemeBuilder<T>, op: SecOp) -> SecuritySchemeBuilder<T> {
    match op {
        SecOp::Type(v) => b.attype(v),
        SecOp::Desc(v) => b.description(v),
        SecOp::Descs(v) => b.descriptions(|m| fill(m, v)),
        SecOp::Proxy(v) => b.proxy(v),
        SecOp::Key(v) => b.with_key(v),
        SecOp::Required => b.required(),
    }
}

pub fn location(l: Loc) -> SecurityAuthenticationLocation {
    match l {
        Loc::Header => SecurityAuthenticationLocation::Header,
        Loc::Query => SecurityAuthenticationLocation::Query,
        Loc::Body => SecurityAuthenticationLocation::Body,
        Loc::Cookie => SecurityAuthenticationLocation::Cookie,
        Loc::Uri => SecurityAuthenticationLocation::Uri,
    }
}

fn sec_many<T>(mut b: SecuritySchemeBuilder<T>, ops: impl IntoIterator<Item = SecOp>) -> SecuritySchemeBuilder<T> {
    for op in ops {
        b = sec_op(b, op);
    }
    b
}

/// Another value of a member, to be replaced.
trait SecDecoy: ToOwned {
    fn decoy(&self) -> Self::Owned;
}

impl SecDecoy for String {
    fn decoy(&self) -> Self {
        "decoy".into()
    }
}

impl SecDecoy for SecurityAuthenticationLocation {
    fn decoy(&self) -> Self {
        match self {
            Self::Body => Self::Cookie,
            _ => Self::Body,
        }
    }
}

impl SecDecoy for QualityOfProtection {
    fn decoy(&self) -> Self {
        match self {
            Self::Auth => Self::AuthInt,
            _ => Self::Auth,
        }
    }
}

fn security<X: ExtendableThing, St>(t: ThingBuilder<X, St>, m: &MSec, o: &mut Order) -> ThingBuilder<X, St> {
    let mut ops = Ops::new();
    for v in &m.attype {
        ops.add(0, SecOp::Type(v.clone()));
    }
    macro_rules! single {
        ($g:expr, $v:expr, $mk:expr, $d:expr) => {
            if let Some(v) = &$v {
                if o.decoy() {
                    ops.add($g, $mk($d));
                }
                ops.add($g, $mk(v.clone()));
            }
        };
    }
    single!(1, m.desc, SecOp::Desc, "decoy".into());
    single!(2, m.descs, SecOp::Descs, decoy_langs());
    single!(3, m.proxy, SecOp::Proxy, "decoy".into());
    single!(4, m.key, SecOp::Key, "decoy".into());
    if m.required {
        ops.add(5, SecOp::Required);
    }
    let mut q = o.arrange(ops.v);
    let early = o.some(&mut q);
    let mut late: VecDeque<SecOp> = q;
    macro_rules! opts {
        ($b:expr; $($v:expr => $f:ident),*) => {{
            let mut b = $b;
            let mut todo = vec![$( stringify!($f) ),*];
            // any order, among what every scheme has
            while !todo.is_empty() {
                b = sec_many(b, o.some(&mut late));
                let f = todo.remove(o.below(todo.len()));
                $( if f == stringify!($f) {
                    if let Some(v) = $v {
                        if o.decoy() {
                            b = b.$f(v.decoy());
                            b = sec_many(b, o.some(&mut late));
                        }
                        b = b.$f(v.clone());
                    }
                } )*
            }
            b
        }};
    }
    match &m.kind {
        SecKind::NoSec => t.security(|b| sec_many(sec_many(b, early).no_sec(), late)),
        SecKind::Auto => t.security(|b| sec_many(sec_many(b, early).auto(), late)),
        SecKind::Psk => t.security(|b| sec_many(sec_many(b, early).psk(), late)),
        SecKind::Combo { all: true, names } => {
            let cut = o.below(names.len() + 1);
            let cut = names.len() - cut;
            t.security(|b| {
                let b: SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)> =
                    empty_combo(sec_many(b, early).combo(), o.some(&mut late), o).all_of(names[..cut].iter().cloned());
                combo_rest(b, late, &names[cut..], o)
            })
        }
        SecKind::Combo { all: false, names } => {
            let cut = o.below(names.len() + 1);
            let cut = names.len() - cut;
            t.security(|b| {
                let b: SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)> =
                    empty_combo(sec_many(b, early).combo(), o.some(&mut late), o).one_of(names[..cut].iter().cloned());
                combo_rest(b, late, &names[cut..], o)
            })
        }
        SecKind::Basic { loc, name } => {
            t.security(|b| sec_many(opts!(sec_many(b, early).basic(); loc.map(location) => location, name => name), late))
        }
        SecKind::ApiKey { loc, name } => {
            t.security(|b| sec_many(opts!(sec_many(b, early).apikey(); loc.map(location) => location, name => name), late))
        }
        SecKind::Digest { loc, name, auth_int } => {
            let q = auth_int.map(|i| {
                if i {
                    QualityOfProtection::AuthInt
                } else {
                    QualityOfProtection::Auth
                }
            });
            t.security(|b| {
                sec_many(
                    opts!(sec_many(b, early).digest(); loc.map(location) => location, name => name, q.clone() => qop),
                    late,
                )
            })
        }
        SecKind::Bearer {
            loc,
            name,
            authz,
            alg,
            format,
        } => t.security(|b| {
            sec_many(
                opts!(sec_many(b, early).bearer(); loc.map(location) => location, name => name,
                    authz => authorization, alg => alg, format => format),
                late,
            )
        }),
        SecKind::OAuth2 {
            flow,
            authz,
            token,
            refresh,
            scopes,
        } => t.security(|b| {
            let mut b = opts!(sec_many(b, early).oauth2(flow.clone()); authz => authorization, token => token, refresh => refresh);
            for s in scopes {
                b = sec_many(b.scope(s.clone()), o.some(&mut late));
            }
            sec_many(b, late)
        }),
        SecKind::Custom { scheme, data } => t.security(|b| {
            let b = sec_many(b, early).custom(scheme.clone());
            let b = match data {
                None => b,
                Some(d) => {
                    let b = match o.decoy() {
                        true => sec_many(b.data(serde_json::json!({"decoy": 1})), o.some(&mut late)),
                        false => b,
                    };
                    b.data(Value::Object(d.clone().into_iter().collect()))
                }
            };
            sec_many(b, late)
        }),
    }
}

type ComboBuilder<T> = SecuritySchemeBuilder<(T, Vec<String>)>;

fn empty_combo(
    mut b: SecuritySchemeBuilder<EmptyComboSecuritySchemeTag>,
    ops: Vec<SecOp>,
    o: &mut Order,
) -> SecuritySchemeBuilder<EmptyComboSecuritySchemeTag> {
    for op in ops {
        b = match op {
            SecOp::Key(v) if o.coin() => b.name(v),
            op => sec_op(b, op),
        };
    }
    b
}

fn combo_rest<T>(mut b: ComboBuilder<T>, mut late: VecDeque<SecOp>, names: &[String], o: &mut Order) -> ComboBuilder<T> {
    let ops = |mut b: ComboBuilder<T>, ops: Vec<SecOp>, o: &mut Order| {
        for op in ops {
            b = match op {
                // a combination has no other name than its key
                SecOp::Key(v) if o.coin() => b.name(v),
                op => sec_op(b, op),
            };
        }
        b
    };
    let mut rest = names;
    while let Some((first, others)) = rest.split_first() {
        b = ops(b, o.some(&mut late), o);
        if o.coin() {
            b = b.extend(rest.iter().cloned());
            break;
        }
        b = b.push(first.clone());
        rest = others;
    }
    ops(b, late.into(), o)
}

// ---------------------------------------------------------------------------------------------
// The Thing

enum TOp<'a> {
    Hr(HrOp),
    Id(String),
    Version(String, Option<String>),
    Created(time::OffsetDateTime),
    Modified(time::OffsetDateTime),
    Support(String),
    Base(String),
    Ctx(&'a MCtx),
    Link(&'a MLink),
    Sec(&'a MSec),
    Profile(String),
    // only for an extended builder
    Form(&'a MForm),
    Uri(&'a str, &'a MSchema),
    Prop(&'a str, &'a MProp),
    Action(&'a str, &'a MAction),
    Event(&'a str, &'a MEvent),
    Schema(&'a str, &'a MSchema),
}

fn link<H>(b: LinkBuilder<H>, ops: Vec<(u8, String)>) -> LinkBuilder<H> {
    let mut b = b;
    for (k, v) in ops {
        b = match k {
            0 => b.ty(v),
            1 => b.rel(v),
            2 => b.anchor(v),
            3 => b.sizes(v),
            _ => b.hreflang(v),
        };
    }
    b
}

fn t_op<X: ExtendableThing, St>(b: ThingBuilder<X, St>, op: TOp, o: &mut Order) -> ThingBuilder<X, St> {
    match op {
        TOp::Hr(HrOp::Type(v)) => b.attype(v),
        TOp::Hr(HrOp::Title(_)) => b,
        TOp::Hr(HrOp::Titles(v)) => b.titles(|m| fill(m, v)),
        TOp::Hr(HrOp::Desc(v)) => b.description(v),
        TOp::Hr(HrOp::Descs(v)) => b.descriptions(|m| fill(m, v)),
        TOp::Id(v) => b.id(v),
        TOp::Version(i, None) => b.version(i),
        TOp::Version(instance, model) => b.version(wot_td::thing::VersionInfo { instance, model }),
        TOp::Created(v) => b.created(v),
        TOp::Modified(v) => b.modified(v),
        TOp::Support(v) => b.support(v),
        TOp::Base(v) => b.base(v),
        TOp::Ctx(MCtx::Iri(v)) => match &v[..] {
            "https://www.w3.org/2019/wot/td/v1" => b.context(wot_td::thing::TD_CONTEXT_10),
            "https://www.w3.org/2022/wot/td/v1.1" => b.context(wot_td::thing::TD_CONTEXT_11),
            _ => b.context(v.clone()),
        },
        TOp::Ctx(MCtx::Map(v)) => b.context_map(|m| {
            for (k, x) in v {
                if o.decoy() {
                    m.context(k.clone(), "decoy");
                }
                m.context(k.clone(), x.clone());
            }
            m
        }),
        TOp::Link(l) if l.simple => b.link(l.href.clone()),
        TOp::Link(l) => {
            let mut ops = Ops::new();
            for (i, v) in [&l.ty, &l.rel, &l.anchor, &l.sizes].into_iter().enumerate() {
                if let Some(v) = v {
                    if o.decoy() {
                        ops.add(i as u8, (i as u8, "decoy".to_string()));
                    }
                    ops.add(i as u8, (i as u8, v.clone()));
                }
            }
            for v in &l.hreflang {
                ops.add(9, (9, v.clone()));
            }
            let mut q = o.arrange(ops.v);
            let early = o.some(&mut q);
            b.link_with(|lb| link(link(lb, early).href(l.href.clone()), q.drain(..).collect()))
        }
        TOp::Sec(m) => security(b, m, o),
        TOp::Profile(v) => b.profile(v),
        _ => unreachable!(),
    }
}

fn e_op<X: XSet>(b: ThingBuilder<X, Extended>, op: TOp, o: &mut Order) -> ThingBuilder<X, Extended> {
    match op {
        TOp::Form(f) => b.form(|fb| form::<X>(fb, f, o)),
        TOp::Uri(n, s) => b.uri_variable(n, |sb| schema::<X>(sb, s, o)),
        TOp::Prop(n, p) => b.property(n, |pb| property::<X>(pb, p, o)),
        TOp::Action(n, p) => b.action(n, |pb| action::<X>(pb, p, o)),
        TOp::Event(n, p) => b.event(n, |pb| event::<X>(pb, p, o)),
        TOp::Schema(n, s) => b.schema_definition(n, |sb| schema::<X>(sb, s, o)),
        op => t_op(b, op, o),
    }
}

struct ThingPlan<'a, 'o> {
    q: VecDeque<TOp<'a>>,
    o: &'o mut Order,
}

impl Mid for ThingPlan<'_, '_> {
    fn with(&mut self) -> bool {
        self.o.coin()
    }
    fn thing<X: ExtendableThing>(&mut self, mut b: ThingBuilder<X, ToExtend>) -> ThingBuilder<X, ToExtend> {
        for op in self.o.some(&mut self.q) {
            b = t_op(b, op, self.o);
        }
        b
    }
}

/// Tell the whole model to the builder, without building.
pub fn builder<X: XSet>(m: &MThing, o: &mut Order) -> ThingBuilder<X, Extended> {
    let decoy_time = time::OffsetDateTime::UNIX_EPOCH;
    let mut ops = Ops::new();
    hr_ops(&mut ops, &m.hr, o, TOp::Hr);
    macro_rules! single {
        ($g:expr, $v:expr, $mk:expr, $d:expr) => {
            if let Some(v) = &$v {
                if o.decoy() {
                    ops.add($g, $mk($d));
                }
                ops.add($g, $mk(v.clone()));
            }
        };
    }
    single!(10, m.id, TOp::Id, "decoy".into());
    if let Some((i, model)) = &m.version {
        if o.decoy() {
            ops.add(11, TOp::Version("decoy".into(), Some("decoy".into())));
        }
        ops.add(11, TOp::Version(i.clone(), model.clone()));
    }
    single!(12, m.created, TOp::Created, decoy_time);
    single!(13, m.modified, TOp::Modified, decoy_time);
    single!(14, m.support, TOp::Support, "decoy".into());
    single!(15, m.base, TOp::Base, "decoy".into());
    for c in &m.context {
        ops.add(16, TOp::Ctx(c));
    }
    for l in &m.links {
        ops.add(17, TOp::Link(l));
    }
    for x in &m.secs {
        ops.add(18, TOp::Sec(x));
    }
    for p in &m.profile {
        ops.add(19, TOp::Profile(p.clone()));
    }
    let q = o.arrange(ops.v);
    let mut ops = Ops::new();
    for f in &m.forms {
        ops.add(0, TOp::Form(f));
    }
    // these are kept under their names: every one may be given at any time
    let mut g = 1u8;
    let mut group = || {
        g = g.wrapping_add(1).max(1);
        g
    };
    for (n, s) in &m.uri {
        let g = group();
        if o.decoy() {
            ops.add(g, TOp::Uri(n, decoy_schema()));
        }
        ops.add(g, TOp::Uri(n, s));
    }
    for (n, s) in &m.props {
        ops.add(group(), TOp::Prop(n, s));
    }
    for (n, s) in &m.actions {
        ops.add(group(), TOp::Action(n, s));
    }
    for (n, s) in &m.events {
        ops.add(group(), TOp::Event(n, s));
    }
    for (n, s) in &m.schemas {
        let g = group();
        if o.decoy() {
            ops.add(g, TOp::Schema(n, decoy_schema()));
        }
        ops.add(g, TOp::Schema(n, s));
    }
    let e = o.arrange(ops.v);
    let mut p = ThingPlan { q, o };
    let b = if p.o.coin() {
        ThingBuilder::<X, ToExtend>::new_empty(m.title.clone())
    } else {
        ThingBuilder::<Nil, ToExtend>::new(m.title.clone())
    };
    let b = p.thing(b);
    let b = X::thing(b, &m.x, &mut p);
    let mut b = p.thing(b).finish_extend();
    let ThingPlan { q, o } = p;
    let mut all = Ops::new();
    q.into_iter().for_each(|t| all.add(0, t));
    e.into_iter().for_each(|t| all.add(1, t));
    for op in o.arrange(all.v) {
        b = e_op::<X>(b, op, o);
    }
    b
}

pub fn build<X: XSet>(m: &MThing, o: &mut Order) -> Result<Thing<X>, Error> {
    builder::<X>(m, o).build()
}

/// Build a data schema on its own.
pub fn standalone<X: XSet>(m: &MSchema, o: &mut Order) -> Result<crate::ext::DataSchemaFromOther<X>, Error> {
    struct NoMid;
    impl Mid for NoMid {}
    // the library hands its builder out to closures only
    let mut start: Option<Start<X>> = None;
    let _ = X::thing(Thing::builder("t"), &XData::default(), &mut NoMid)
        .finish_extend()
        .schema_definition("s", |b| {
            start = Some(b);
            DataSchemaBuilder::<X::D, X::A, X::O, Extended>::default().null()
        });
    if o.coin() {
        return schema_alone::<X>(start.unwrap(), m, o);
    }
    schema::<X>(start.unwrap(), m, o).try_into()
}
