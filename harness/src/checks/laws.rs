//! P12 heterogeneous lists, P13 comparisons between value limits.

use std::{cmp::Ordering, collections::BTreeMap, fmt::Debug};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value};
use wot_td::{
    hlist::{Cons, HListMut, HListRef, Nil, NonEmptyHList},
    thing::{Maximum, Minimum},
};

use crate::{
    engine::{arm, arm_all, Check, Ctx, Outcome, Rng, Src},
    gen,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P12",
            rule: "the list has at least two elements; distinct by its contents",
            assumptions: &["elements of a list have disjoint members when it is serialised"],
            arms: vec![
                arm("mixed", p12_mixed, 40_000, 2_000_000),
                arm("same type", p12_same, 40_000, 2_000_000),
                arm("histories", p12_histories, 40_000, 2_000_000),
                arm("json", p12_json, 40_000, 1_500_000),
            ],
            known: vec![],
        },
        Check {
            id: "P13",
            rule: "enumerated arms: every case; others: the two or three limits are not all of one kind and number",
            assumptions: &[],
            arms: vec![
                arm_all("i64 pairs", |s, c| all_pairs(&I64S, s, c), pairs(I64S.len())),
                arm_all("u8 pairs", |s, c| all_pairs(&U8S, s, c), pairs(U8S.len())),
                arm_all("f64 pairs", |s, c| all_pairs(&F64S, s, c), pairs(F64S.len())),
                arm_all("f32 pairs", |s, c| all_pairs(&F32S, s, c), pairs(F32S.len())),
                arm_all("i64 triples", |s, c| all_triples(&I64S[..6], s, c), triples(6)),
                arm_all("f64 triples", |s, c| all_triples(&F64S[..7], s, c), triples(7)),
                arm_all("is_nan", p13_nan, (F64S.len() * 4) as u64),
                arm("random", p13_random, 60_000, 5_000_000),
                arm("near", p13_near, 60_000, 5_000_000),
            ],
            known: vec![],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// P12

/// An element which a list can hold.
trait Elem: Clone + Debug + PartialEq + Serialize + DeserializeOwned {
    fn gen(s: &mut Src) -> Self;
}

macro_rules! elem {
    ($n:ident, $k:literal, $k2:literal, $t:ty, $t2:ty, $s:ident, $e:expr, $e2:expr) => {
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        struct $n {
            #[serde(rename = $k)]
            a: $t,
            #[serde(rename = $k2, default, skip_serializing_if = "Option::is_none")]
            b: Option<$t2>,
        }
        impl Elem for $n {
            fn gen($s: &mut Src) -> Self {
                $n {
                    a: $e,
                    b: if $s.chance(50) { Some($e2) } else { None },
                }
            }
        }
    };
}

elem!(E1, "1", "1b", i64, bool, s, gen::int(s), s.chance(50));
elem!(E2, "2", "2b", String, String, s, gen::string(s), gen::string(s));
elem!(E3, "3", "", Vec<String>, u8, s, s.vec(3, gen::string), s.below(256) as u8);
elem!(E4, "4 x", "4b", bool, Vec<i64>, s, s.chance(50), s.vec(3, gen::int));
elem!(E5, "head", "tail", f64, i64, s, gen::int(s) as f64 / 8.0, gen::int(s));
elem!(E6, "6", "é", BTreeMap<String, i64>, Value, s, s.vec(2, |s| (gen::string(s), gen::int(s))).into_iter().collect(), not_null(s));
elem!(E7, "7:a", "7:b", Option<String>, char, s, s.opt(50, gen::string), 'x');
elem!(E8, "8", "8b", (u8, String), (), s, (s.below(256) as u8, gen::string(s)), ());

/// An element without data.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct E0 {}

impl Elem for E0 {
    fn gen(_: &mut Src) -> Self {
        E0 {}
    }
}

fn not_null(s: &mut Src) -> Value {
    match gen::json(s, 2) {
        Value::Null => json!(0),
        v => v,
    }
}

impl Elem for i64 {
    fn gen(s: &mut Src) -> Self {
        gen::int(s)
    }
}

/// The elements from the first to the last, found through the public fields only.
trait Walk {
    fn walk(&self, out: &mut Vec<String>);
    fn items(&self) -> Vec<String> {
        let mut v = vec![];
        self.walk(&mut v);
        v
    }
}

impl Walk for Nil {
    fn walk(&self, _: &mut Vec<String>) {}
}

impl<T: Debug, U: Walk> Walk for Cons<T, U> {
    fn walk(&self, out: &mut Vec<String>) {
        out.push(format!("{:?}", self.head));
        self.tail.walk(out);
    }
}

/// Replaces the n-th element through a list of mutable references.
trait Write {
    fn write(&mut self, n: usize, s: &mut Src) -> String;
}

impl Write for Nil {
    fn write(&mut self, _: usize, _: &mut Src) -> String {
        unreachable!()
    }
}

impl<T: Elem, U: Write> Write for Cons<&mut T, U> {
    fn write(&mut self, n: usize, s: &mut Src) -> String {
        if n > 0 {
            return self.tail.write(n - 1, s);
        }
        *self.head = T::gen(s);
        format!("{:?}", self.head)
    }
}

fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Outcome {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {got:?}, wanted {want:?}"))
    }
}

macro_rules! list {
    ($first:expr $(, $more:expr)*) => {
        Nil::cons($first)$(.cons($more))*
    };
}

/// The laws for a list made by prepending the given elements, one after the other.
macro_rules! laws {
    ($s:ident, $c:ident; $($x:ident : $t:ty),+) => {{
        $(let $x = <$t as Elem>::gen($s);)+
        let mut want = vec![$(format!("{:?}", $x)),+];
        let n = want.len();
        want.reverse();
        let mut list = list!($($x.clone()),+);
        $c.show("list", || format!("{want:?}"));
        if n > 1 {
            $c.nontrivial((n, &want));
        }
        same("the list", list.items(), want.clone())?;

        // prepend, split the head
        let extra = E2::gen($s);
        let (h, t) = list.clone().cons(extra.clone()).split_head();
        same("head of what was prepended to", h, extra)?;
        same("tail of what was prepended to", t, list.clone())?;
        let (h, t) = list.clone().split_head();
        same("split_head, head", format!("{h:?}"), want[0].clone())?;
        same("split_head, tail", t.items(), want[1..].to_vec())?;

        // split the last
        let (l, init) = list.clone().split_last();
        same("split_last, last", format!("{l:?}"), want[n - 1].clone())?;
        same("split_last, others", init.items(), want[..n - 1].to_vec())?;

        // reverse
        let r = list.clone().reverse();
        let back: Vec<String> = want.iter().rev().cloned().collect();
        same("reverse", r.items(), back)?;
        same("reverse twice", r.reverse(), list.clone())?;

        // views
        same("to_ref", list.to_ref().items(), want.clone())?;
        same("to_ref twice", (&list.to_ref()).to_ref().items(), want.clone())?;
        same("to_ref, reversed", list.to_ref().reverse().items(), list.clone().reverse().items())?;
        same("the list after to_ref", list.items(), want.clone())?;
        same("to_mut", list.to_mut().items(), want.clone())?;
        for i in 0..n {
            let before = list.clone();
            want[i] = list.to_mut().write(i, $s);
            same("the list after writing one", list.items(), want.clone())?;
            // equality sees it
            let differ = before.items() != want;
            same("equality", (before == list, before != list), (!differ, differ))?;
        }
        let w = list.to_mut().split_last().0;
        *w = Elem::gen($s);
        want[n - 1] = format!("{w:?}");
        same("the list after writing the last", list.items(), want.clone())?;
        same("the list is equal to itself", list == list.clone(), true)?;
        Ok(())
    }};
}

fn p12_mixed(s: &mut Src, c: &mut Ctx) -> Outcome {
    match s.below(15) {
        9 => laws!(s, c; a: E0),
        10 => laws!(s, c; a: E0, b: E1),
        11 => laws!(s, c; a: E1, b: E0),
        12 => laws!(s, c; a: E0, b: E1, d: E0),
        13 => laws!(s, c; a: E2, b: E0, d: E0, e: E1),
        14 => laws!(s, c; a: E0, b: E3, d: E2, e: E0, f: E0),
        0 => laws!(s, c; a: E1),
        1 => laws!(s, c; a: E1, b: E2),
        2 => laws!(s, c; a: E3, b: E1, d: E2),
        3 => laws!(s, c; a: E1, b: E2, d: E3, e: E4),
        4 => laws!(s, c; a: E5, b: E4, d: E3, e: E2, f: E1),
        5 => laws!(s, c; a: E1, b: E2, d: E3, e: E4, f: E5, g: E6),
        6 => laws!(s, c; a: E7, b: E2, d: E3, e: E4, f: E5, g: E6, h: E1),
        7 => laws!(s, c; a: E1, b: E2, d: E3, e: E4, f: E5, g: E6, h: E7, i: E8),
        _ => laws!(s, c; a: E1, b: E1, d: E2, e: E2, f: E1, g: E8),
    }
}

fn p12_same(s: &mut Src, c: &mut Ctx) -> Outcome {
    match s.below(8) {
        0 => laws!(s, c; a: i64),
        1 => laws!(s, c; a: i64, b: i64),
        2 => laws!(s, c; a: i64, b: i64, d: i64),
        3 => laws!(s, c; a: i64, b: i64, d: i64, e: i64),
        4 => laws!(s, c; a: i64, b: i64, d: i64, e: i64, f: i64),
        5 => laws!(s, c; a: i64, b: i64, d: i64, e: i64, f: i64, g: i64),
        6 => laws!(s, c; a: i64, b: i64, d: i64, e: i64, f: i64, g: i64, h: i64),
        _ => laws!(s, c; a: i64, b: i64, d: i64, e: i64, f: i64, g: i64, h: i64, i: i64),
    }
}

/// A list whose length the type does not show, so that any history of operations can be run.
enum Any {
    L0(Nil),
    L1(Cons<i64>),
    L2(Cons<i64, Cons<i64>>),
    L3(Cons<i64, Cons<i64, Cons<i64>>>),
    L4(Cons<i64, Cons<i64, Cons<i64, Cons<i64>>>>),
    L5(Cons<i64, Cons<i64, Cons<i64, Cons<i64, Cons<i64>>>>>),
}

macro_rules! on {
    ($a:expr, $l:ident => $e:expr, $nil:expr) => {
        match $a {
            Any::L0(_) => $nil,
            Any::L1($l) => $e,
            Any::L2($l) => $e,
            Any::L3($l) => $e,
            Any::L4($l) => $e,
            Any::L5($l) => $e,
        }
    };
}

impl Any {
    fn items(&self) -> Vec<String> {
        on!(self, l => l.items(), vec![])
    }
    fn views(&mut self) -> (Vec<String>, Vec<String>) {
        on!(self, l => (l.to_ref().items(), l.to_mut().items()), (vec![], vec![]))
    }
    fn cons(self, v: i64) -> Self {
        match self {
            Any::L0(_) => Any::L1(Nil::cons(v)),
            Any::L1(l) => Any::L2(l.cons(v)),
            Any::L2(l) => Any::L3(l.cons(v)),
            Any::L3(l) => Any::L4(l.cons(v)),
            Any::L4(l) => Any::L5(l.cons(v)),
            l => l,
        }
    }
    fn head(self) -> (Option<i64>, Self) {
        fn p<T, U>((a, b): (T, U), f: impl FnOnce(U) -> Any) -> (Option<T>, Any) {
            (Some(a), f(b))
        }
        match self {
            l @ Any::L0(_) => (None, l),
            Any::L1(l) => p(l.split_head(), Any::L0),
            Any::L2(l) => p(l.split_head(), Any::L1),
            Any::L3(l) => p(l.split_head(), Any::L2),
            Any::L4(l) => p(l.split_head(), Any::L3),
            Any::L5(l) => p(l.split_head(), Any::L4),
        }
    }
    fn last(self) -> (Option<i64>, Self) {
        fn p<T, U>((a, b): (T, U), f: impl FnOnce(U) -> Any) -> (Option<T>, Any) {
            (Some(a), f(b))
        }
        match self {
            l @ Any::L0(_) => (None, l),
            Any::L1(l) => p(l.split_last(), Any::L0),
            Any::L2(l) => p(l.split_last(), Any::L1),
            Any::L3(l) => p(l.split_last(), Any::L2),
            Any::L4(l) => p(l.split_last(), Any::L3),
            Any::L5(l) => p(l.split_last(), Any::L4),
        }
    }
    fn reverse(self) -> Self {
        match self {
            Any::L0(l) => Any::L0(l),
            Any::L1(l) => Any::L1(l.reverse()),
            Any::L2(l) => Any::L2(l.reverse()),
            Any::L3(l) => Any::L3(l.reverse()),
            Any::L4(l) => Any::L4(l.reverse()),
            Any::L5(l) => Any::L5(l.reverse()),
        }
    }
}

/// Any history of operations against a vector.
fn p12_histories(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut l = Any::L0(Nil);
    let mut v: Vec<i64> = vec![];
    let mut log = String::new();
    let mut longest = 0;
    for _ in 0..3 + s.below(30) {
        let op = s.weighted(&[40, 10, 10, 20, 20]);
        match op {
            0 => {
                if v.len() < 5 {
                    let x = gen::int(s);
                    log.push_str(&format!(" cons({x})"));
                    v.insert(0, x);
                    l = l.cons(x);
                }
            }
            1 => {
                log.push_str(" split_head");
                let want = if v.is_empty() { None } else { Some(v.remove(0)) };
                let (got, rest) = l.head();
                l = rest;
                same(&format!("{log}: element"), got, want)?;
            }
            2 => {
                log.push_str(" split_last");
                let (got, rest) = l.last();
                l = rest;
                same(&format!("{log}: element"), got, v.pop())?;
            }
            3 => {
                log.push_str(" reverse");
                v.reverse();
                l = l.reverse();
            }
            _ => {
                if !v.is_empty() {
                    let i = s.below(v.len());
                    log.push_str(&format!(" write({i})"));
                    let x = on!(&mut l, l => l.to_mut().write(i, s), unreachable!());
                    v[i] = x.parse().unwrap();
                }
            }
        }
        longest = longest.max(v.len());
        let want: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        same(&format!("{log}: the list"), l.items(), want.clone())?;
        same(&format!("{log}: the views"), l.views(), (want.clone(), want))?;
    }
    c.show("history", || log.clone());
    if longest > 1 {
        c.nontrivial(&log);
    }
    Ok(())
}

fn members<T: Serialize>(x: &T, into: &mut Map<String, Value>) {
    if let Ok(Value::Object(o)) = serde_json::to_value(x) {
        into.extend(o);
    }
}

macro_rules! json_laws {
    ($s:ident, $c:ident; $($x:ident : $t:ty),+) => {{
        $(let $x = <$t as Elem>::gen($s);)+
        let mut all = Map::new();
        $(members(&$x, &mut all);)+
        let list = list!($($x.clone()),+);
        let want = Value::Object(all.clone());
        $c.show("json", || want.to_string());
        if all.len() > 1 {
            $c.nontrivial(want.to_string());
        }
        json_same("the list", &list, &want, $s)?;
        json_same("the list in reverse", &list.clone().reverse(), &want, $s)?;
        let r = list.to_ref();
        same("a view", serde_json::to_value(&r).map_err(|e| e.to_string())?, want.clone())?;
        // beside other members, and as an element of another list
        let o = Outer { outer: $s.chance(50), list: list.clone() };
        let mut w = all.clone();
        w.insert("outer".into(), json!(o.outer));
        json_same("the list beside a member", &o, &Value::Object(w), $s)?;
        json_same("the list in a list", &Nil::cons(list.clone()), &want, $s)?;
        let two = Nil::cons(Other { other: 5 }).cons(list.clone());
        let mut w = all.clone();
        w.insert("other".into(), json!(5));
        json_same("the list before another element", &two, &Value::Object(w), $s)?;
        // members of nobody do not matter, missing ones do
        let mut w = all.clone();
        w.insert("nobody's".into(), gen::json($s, 2));
        same("with a foreign member", serde_json::from_value(Value::Object(w)).ok(), Some(list.clone()))?;
        let mut l2 = Some(list);
        for k in all.keys() {
            let mut w = all.clone();
            w.remove(k);
            l2 = serde_json::from_value(Value::Object(w)).ok();
            let optional = k.is_empty() || k == "é" || k == "tail" || k.ends_with('b') || k == "7:a";
            if !optional && l2.is_some() {
                return Err(format!("parsed without its member {k:?}: {l2:?}"));
            }
            if optional && l2.is_none() {
                return Err(format!("not parsed without its optional member {k:?}"));
            }
        }
        let _ = l2;
        for scalar in [json!(gen::int($s)), json!(gen::string($s)), json!($s.chance(50)), json!(null)] {
            l2 = serde_json::from_value(scalar.clone()).ok();
            if l2.is_some() {
                return Err(format!("{scalar} is read as {l2:?}"));
            }
        }
        Ok(())
    }};
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Outer<L> {
    outer: bool,
    #[serde(flatten)]
    list: L,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Other {
    other: i32,
}

fn json_same<L: Serialize + DeserializeOwned + PartialEq + Debug>(what: &str, l: &L, want: &Value, s: &mut Src) -> Outcome {
    let e = |e: serde_json::Error| format!("{what}: {e}");
    same(what, serde_json::to_value(l).map_err(e)?, want.clone())?;
    let text = serde_json::to_string(l).map_err(e)?;
    same(what, crate::expect::strict_json(&text)?, want.clone())?;
    same(what, &serde_json::from_str::<L>(&text).map_err(e)?, l)?;
    same(what, &serde_json::from_value::<L>(want.clone()).map_err(e)?, l)?;
    let other = crate::doc::write_text(want, &mut Rng(s.u64()));
    same(what, &serde_json::from_str::<L>(&other).map_err(e)?, l)
}

fn p12_json(s: &mut Src, c: &mut Ctx) -> Outcome {
    empty_list(s)?;
    match s.below(11) {
        8 => json_laws!(s, c; a: E0),
        9 => json_laws!(s, c; a: E0, b: E1, d: E0),
        10 => json_laws!(s, c; a: E2, b: E0, d: E1),
        0 => json_laws!(s, c; a: E1),
        1 => json_laws!(s, c; a: E1, b: E2),
        2 => json_laws!(s, c; a: E3, b: E1, d: E2),
        3 => json_laws!(s, c; a: E1, b: E6, d: E3, e: E4),
        4 => json_laws!(s, c; a: E5, b: E4, d: E3, e: E2, f: E1),
        5 => json_laws!(s, c; a: E1, b: E2, d: E3, e: E4, f: E5, g: E6),
        6 => json_laws!(s, c; a: E7, b: E2, d: E3, e: E4, f: E5, g: E6, h: E1),
        _ => json_laws!(s, c; a: E1, b: E2, d: E3, e: E4, f: E5, g: E6, h: E7, i: E4b),
    }
}

/// The list without elements is the object without members.
fn empty_list(s: &mut Src) -> Outcome {
    json_same("the empty list", &Nil, &json!({}), s)?;
    json_same("a list of the empty list", &Nil::cons(Nil), &json!({}), s)?;
    let foreign = json!({ gen::string(s): gen::json(s, 2) });
    same("the empty list with a foreign member", serde_json::from_value(foreign).ok(), Some(Nil))?;
    for scalar in [json!(gen::int(s)), json!(gen::string(s)), json!(s.chance(50))] {
        if serde_json::from_value::<Nil>(scalar.clone()).is_ok() {
            return Err(format!("{scalar} is read as the empty list"));
        }
    }
    Ok(())
}

elem!(E4b, "9", "9b", u64, String, s, s.u64(), gen::string(s));

// ---------------------------------------------------------------------------------------------
// P13

const I64S: [i64; 11] = [0, 1, -1, i64::MIN, i64::MAX, 5, i64::MIN + 1, i64::MAX - 1, 4, 6, -5];
const U8S: [u8; 6] = [0, 1, 2, 127, 254, 255];
const F64S: [f64; 15] = [
    0.0,
    -0.0,
    1.0,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    1.0000000000000002,
    5e-324,
    -5e-324,
    f64::MAX,
    f64::MIN,
    0.1,
    0.30000000000000004,
    0.3,
    -1.0,
];
const F32S: [f32; 9] = [0.0, -0.0, 1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0000001, f32::MAX, 1e-45];

const fn pairs(n: usize) -> u64 {
    (n * n * 16) as u64
}
const fn triples(n: usize) -> u64 {
    (n * n * n * 64) as u64
}

trait Num: PartialOrd + Copy + Debug {}
impl<T: PartialOrd + Copy + Debug> Num for T {}

/// A limit: lower or upper, exclusive or not.
#[derive(Clone, Copy, Debug)]
struct L<T> {
    upper: bool,
    excl: bool,
    v: T,
}

fn limit<T: Num>(k: usize, v: T) -> L<T> {
    L {
        upper: k & 1 == 1,
        excl: k & 2 == 2,
        v,
    }
}

fn lo<T: Num>(l: L<T>) -> Minimum<T> {
    if l.excl {
        Minimum::Exclusive(l.v)
    } else {
        Minimum::Inclusive(l.v)
    }
}

fn hi<T: Num>(l: L<T>) -> Maximum<T> {
    if l.excl {
        Maximum::Exclusive(l.v)
    } else {
        Maximum::Inclusive(l.v)
    }
}

/// All the answers on one pair: order, ==, !=, <, <=, >, >=.
type Answers = (Option<Ordering>, bool, bool, bool, bool, bool, bool);

fn answers<A: PartialOrd<B>, B>(a: A, b: B) -> Answers {
    (a.partial_cmp(&b), a == b, a != b, a < b, a <= b, a > b, a >= b)
}

fn ask<T: Num>(a: L<T>, b: L<T>) -> Answers {
    match (a.upper, b.upper) {
        (false, false) => answers(lo(a), lo(b)),
        (true, true) => answers(hi(a), hi(b)),
        (false, true) => answers(lo(a), hi(b)),
        (true, false) => answers(hi(a), lo(b)),
    }
}

/// What the property says on the order.
fn order<T: Num>(a: L<T>, b: L<T>) -> Option<Ordering> {
    use Ordering::*;
    if a.excl == b.excl {
        return a.v.partial_cmp(&b.v);
    }
    match (a.upper, b.upper) {
        // the exclusive lower limit is the greater when its number is not below
        (false, false) => {
            let (i, e) = if a.excl { (b.v, a.v) } else { (a.v, b.v) };
            (i <= e).then_some(if a.excl { Greater } else { Less })
        }
        // the exclusive upper limit is the lesser when its number is not above
        (true, true) => {
            let (i, e) = if a.excl { (b.v, a.v) } else { (a.v, b.v) };
            (i >= e).then_some(if a.excl { Less } else { Greater })
        }
        (false, true) => (a.v >= b.v).then_some(Greater),
        (true, false) => (b.v >= a.v).then_some(Less),
    }
}

fn pair<T: Num>(a: L<T>, b: L<T>) -> Outcome {
    use Ordering::*;
    let o = order(a, b);
    let eq = a.excl == b.excl && a.v == b.v;
    let want = (
        o,
        eq,
        !eq,
        o == Some(Less),
        matches!(o, Some(Less | Equal)),
        o == Some(Greater),
        matches!(o, Some(Greater | Equal)),
    );
    let got = ask(a, b);
    if got != want {
        return Err(format!("{a:?} against {b:?}: (cmp, ==, !=, <, <=, >, >=) is {got:?}, wanted {want:?}"));
    }
    // the laws, on the answers alone
    let back = ask(b, a);
    if back.0 != got.0.map(Ordering::reverse) || back.1 != got.1 {
        return Err(format!("{a:?} against {b:?} is {got:?}, the other way round {back:?}"));
    }
    if (got.0 == Some(Equal)) != got.1 {
        return Err(format!("{a:?} against {b:?}: order and equality disagree: {got:?}"));
    }
    Ok(())
}

fn triple<T: Num>(a: L<T>, b: L<T>, d: L<T>) -> Outcome {
    if a.upper != b.upper || b.upper != d.upper {
        return Ok(());
    }
    let (x, y, z) = (ask(a, b), ask(b, d), ask(a, d));
    if x.1 && y.1 && !z.1 {
        return Err(format!("== is not transitive on {a:?}, {b:?}, {d:?}"));
    }
    if let (Some(p), Some(q)) = (x.0, y.0) {
        if p == q || p == Ordering::Equal || q == Ordering::Equal {
            let want = if p == Ordering::Equal { q } else { p };
            if z.0 != Some(want) {
                return Err(format!("{a:?}, {b:?}, {d:?}: {p:?}, {q:?} and {:?}", z.0));
            }
        }
    }
    Ok(())
}

fn all_pairs<T: Num>(pool: &[T], s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut i = s.raw() as usize;
    let mut next = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let a = limit(next(4), pool[next(pool.len())]);
    let b = limit(next(4), pool[next(pool.len())]);
    c.nontrivial(format!("{a:?} {b:?}"));
    c.show("limits", || format!("{a:?} {b:?}"));
    pair(a, b)
}

fn all_triples<T: Num>(pool: &[T], s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut i = s.raw() as usize;
    let mut next = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let a = limit(next(4), pool[next(pool.len())]);
    let b = limit(next(4), pool[next(pool.len())]);
    let d = limit(next(4), pool[next(pool.len())]);
    c.nontrivial(format!("{a:?} {b:?} {d:?}"));
    c.show("limits", || format!("{a:?} {b:?} {d:?}"));
    triple(a, b, d)
}

fn p13_nan(s: &mut Src, c: &mut Ctx) -> Outcome {
    let i = s.raw() as usize;
    let l = limit(i % 4, F64S[i / 4]);
    let l32 = limit(i % 4, F64S[i / 4] as f32);
    c.nontrivial(i);
    c.show("limit", || format!("{l:?}"));
    let got = if l.upper { hi(l).is_nan() } else { lo(l).is_nan() };
    same(&format!("is_nan of {l:?}"), got, l.v.is_nan())?;
    let got = if l.upper { hi(l32).is_nan() } else { lo(l32).is_nan() };
    same(&format!("is_nan of {l32:?}"), got, l32.v.is_nan())
}

fn three<T: Num>(c: &mut Ctx, what: u8, k: [usize; 3], v: [T; 3]) -> Outcome {
    let [a, b, d] = [limit(k[0], v[0]), limit(k[1], v[1]), limit(k[2], v[2])];
    if k[0] != k[1] || v[0] != v[1] {
        c.nontrivial(format!("{what} {a:?} {b:?} {d:?}"));
    }
    c.show("limits", || format!("{a:?} {b:?} {d:?}"));
    for x in [a, b, d] {
        for y in [a, b, d] {
            c.evals += 1;
            pair(x, y)?;
        }
    }
    for x in [a, b, d] {
        for y in [a, b, d] {
            for z in [a, b, d] {
                triple(x, y, z)?;
            }
        }
    }
    Ok(())
}

fn p13_random(s: &mut Src, c: &mut Ctx) -> Outcome {
    let k = [s.below(4), s.below(4), s.below(4)];
    let r = [s.u64(), s.u64(), s.u64()];
    match s.below(6) {
        0 => three(c, 0, k, r.map(|x| x as i64)),
        1 => three(c, 1, k, r),
        2 => three(c, 2, k, r.map(|x| x as u8)),
        3 => three(c, 3, k, r.map(f64::from_bits)),
        4 => three(c, 4, k, r.map(|x| f32::from_bits(x as u32))),
        _ => three(c, 5, k, r.map(|x| char::from_u32(x as u32 % 0xD800).unwrap())),
    }
}

/// Numbers which are close to each other.
fn p13_near(s: &mut Src, c: &mut Ctx) -> Outcome {
    let k = [s.below(4), s.below(4), s.below(4)];
    let x = s.u64();
    let d = [s.below(3), s.below(3), s.below(3)];
    match s.below(4) {
        0 => three(c, 0, k, d.map(|d| (x as i64).wrapping_add(d as i64))),
        1 => three(c, 1, k, d.map(|d| f64::from_bits(x.wrapping_add(d as u64)))),
        2 => three(c, 2, k, d.map(|d| f32::from_bits((x as u32).wrapping_add(d as u32)))),
        _ => three(c, 3, k, d.map(|d| (x as i8).wrapping_add(d as i8))),
    }
}
