//! P23: what the types of the builders admit. Programs which call the builders are generated and
//! given to the compiler; a model of the documented states of each builder tells which compile.

use std::{
    collections::HashMap,
    fmt::Write as _,
    path::PathBuf,
    process::{Command, Stdio},
    sync::{Arc, Mutex, OnceLock},
};

use crate::engine::{arm, case_src, Check, Ctx, Outcome, Rng, Src};

// ---------------------------------------------------------------------------------------------
// Chains of calls

/// One call after the other: the stages come in this order, free calls lie between them.
struct Chain {
    stages: Vec<String>,
    slots: Vec<Vec<String>>,
}

impl Chain {
    fn new(stages: Vec<String>) -> Self {
        let slots = vec![vec![]; stages.len() + 1];
        Chain { stages, slots }
    }
    fn len(&self) -> usize {
        self.stages.len()
    }
    fn text(self) -> String {
        let mut out = String::new();
        let mut stages = self.stages.into_iter();
        for s in self.slots {
            out.extend(s);
            if let Some(st) = stages.next() {
                out += &st;
            }
        }
        out
    }
}

/// Points of extension, the first parameter of the marker type `X`.
const THING: u8 = 0;
const IA: u8 = 1;
const PROP: u8 = 2;
const ACT: u8 = 3;
const EVT: u8 = 4;
const FORM: u8 = 5;
const RESP: u8 = 6;
const DS: u8 = 7;
const OS: u8 = 8;
const AS: u8 = 9;

struct P<'a> {
    s: &'a mut Src,
    /// How many extensions are stacked.
    k: usize,
    /// Kinds of the places at which a fault can be planted, in order.
    sites: Vec<&'static str>,
    /// The place at which it is.
    target: Option<usize>,
    planted: Option<&'static str>,
    /// Choices of the fault itself: it must not disturb the others.
    rng: Rng,
    names: usize,
}

const KINDS: [&str; 9] = ["bool", "null", "number", "integer", "string", "constant", "vec", "tuple", "object"];

impl P<'_> {
    fn fault(&mut self, kind: &'static str) -> bool {
        let here = Some(self.sites.len()) == self.target;
        self.sites.push(kind);
        if here {
            self.planted = Some(kind);
        }
        here
    }

    fn name(&mut self) -> usize {
        self.names += 1;
        self.names
    }

    /// Put a call somewhere between the stages `from` and `to`.
    fn put(&mut self, c: &mut Chain, from: usize, to: usize, text: String) {
        let at = from + self.s.below((to + 1).saturating_sub(from));
        c.slots[at].push(text);
    }

    /// The same for the call which makes the fault.
    fn put_fault(&mut self, c: &mut Chain, from: usize, to: usize, text: String) {
        let at = from + self.rng.below((to + 1).saturating_sub(from));
        c.slots[at].push(text);
    }

    fn one_ext(&mut self, method: &str, point: u8, t: usize) -> String {
        match self.s.below(2) {
            0 => format!(".{method}(X::<{point}, {t}>)"),
            _ => format!(".{method}_with(|| X::<{point}, {t}>)"),
        }
    }

    /// The calls which attach all extensions of a part.
    fn exts(&mut self, method: &str, point: u8) -> Vec<String> {
        let mut v: Vec<String> = (0..self.k).map(|t| self.one_ext(method, point, t)).collect();
        if self.k > 0 {
            if self.fault("an extension left out") {
                let at = self.rng.below(self.k);
                v.remove(at);
            }
            if self.fault("an extension of another part") {
                let at = self.rng.below(self.k);
                let other = (point + 1 + self.rng.below(9) as u8) % 10;
                v[at] = format!(".{method}(X::<{other}, {at}>)");
            }
        }
        if self.k > 1 && self.fault("extensions in another order") {
            v.reverse();
        }
        if self.fault("an extension too many") {
            let t = self.rng.below(2);
            let at = self.rng.below(v.len() + 1);
            v.insert(at, format!(".{method}(X::<{point}, {t}>)"));
        }
        v
    }

    /// `|n| n.ext(..)` for arrays, objects and responses.
    fn ext_closure(&mut self, point: u8) -> String {
        format!("|n| n{}", self.exts("ext", point).concat())
    }

    /// Merge lists of calls, keeping the order of each.
    fn merge(&mut self, mut lists: Vec<Vec<String>>) -> Vec<String> {
        let mut out = vec![];
        loop {
            lists.retain(|l| !l.is_empty());
            if lists.is_empty() {
                return out;
            }
            let i = self.s.below(lists.len());
            out.push(lists[i].remove(0));
        }
    }

    fn hr(&mut self, c: &mut Chain) {
        let n = c.len();
        for _ in 0..self.s.len(3) {
            let t = *self.s.pick(&[
                ".title(\"t\")",
                ".description(\"d\")",
                ".attype(\"a\")",
                ".titles(|b| b.add(\"en\", \"t\"))",
                ".descriptions(|b| b.add(\"en\", \"t\").add(\"it\", \"u\"))",
            ]);
            self.put(c, 0, n, t.into());
        }
    }

    /// A call which only one type of schema has.
    fn own_call(&mut self, kind: &str, depth: usize) -> Option<String> {
        Some(match kind {
            "number" => match self.s.below(5) {
                0 => ".minimum(1.5)".into(),
                1 => ".maximum(2.5)".into(),
                2 => ".exclusive_minimum(1.5)".into(),
                3 => ".exclusive_maximum(2.5)".into(),
                _ => ".multiple_of(0.5)".into(),
            },
            "integer" => match self.s.below(5) {
                0 => ".minimum(1)".into(),
                1 => ".maximum(2)".into(),
                2 => ".exclusive_minimum(1)".into(),
                3 => ".exclusive_maximum(2)".into(),
                _ => ".multiple_of(core::num::NonZeroU64::MIN)".into(),
            },
            "string" => match self.s.below(5) {
                0 => ".pattern(\"p\")".into(),
                1 => ".min_length(1)".into(),
                2 => ".max_length(2)".into(),
                3 => ".content_encoding(\"e\")".into(),
                _ => ".content_media_type(\"m\")".into(),
            },
            "vec" => match self.s.below(3) {
                0 => ".min_items(1)".into(),
                1 => ".max_items(2)".into(),
                _ => format!(".set_item({})", self.schema_fn(depth + 1)),
            },
            "tuple" => format!(".append({})", self.schema_fn(depth + 1)),
            "object" => format!(
                ".property(\"p{}\", {}, {})",
                self.name(),
                self.s.chance(50),
                self.schema_fn(depth + 1)
            ),
            _ => return None,
        })
    }

    /// A closure which makes the simplest data schema.
    fn minimal(&self) -> &'static str {
        [
            "|b| b.finish_extend().bool()",
            "|b| b.ext(X::<7, 0>).finish_extend().bool()",
            "|b| b.ext(X::<7, 0>).ext(X::<7, 1>).finish_extend().bool()",
        ][self.k]
    }

    /// A call which only other types of schema have, with arguments which are right for them.
    fn alien_call(&mut self, kind: &str) -> String {
        let minimal = self.minimal();
        let all = [
            ("number integer", ".minimum(1 as _)".to_string()),
            ("number integer", ".exclusive_maximum(1 as _)".to_string()),
            ("number", ".multiple_of(0.5)".to_string()),
            ("integer", ".multiple_of(core::num::NonZeroU64::MIN)".to_string()),
            ("string", ".pattern(\"p\")".to_string()),
            ("string", ".max_length(2)".to_string()),
            ("string", ".content_encoding(\"e\")".to_string()),
            ("vec", ".min_items(1)".to_string()),
            ("vec", ".max_items(1)".to_string()),
            ("vec", format!(".set_item({minimal})")),
            ("tuple", format!(".append({minimal})")),
            ("object", format!(".property(\"p\", true, {minimal})")),
        ];
        let fit: Vec<&String> = all
            .iter()
            .filter(|(k, _)| !k.split(' ').any(|k| k == kind))
            .map(|(_, t)| t)
            .collect();
        fit[self.rng.below(fit.len())].clone()
    }

    fn schema_fn(&mut self, depth: usize) -> String {
        format!("|b| b{}", self.schema(depth, "", "", vec![]).text())
    }

    /// The chain of a data schema; for the root of a property the methods have other names and
    /// its other stages are given.
    fn schema(&mut self, depth: usize, suffix: &str, finish: &str, mut others: Vec<Vec<String>>) -> Chain {
        let (ext, finish) = match suffix {
            "" => ("ext", ".finish_extend()".to_string()),
            _ => (suffix, finish.to_string()),
        };
        let mut st = self.exts(ext, DS);
        st.push(finish.clone());
        if self.fault("data schema not finished") {
            st.pop();
        } else if self.k > 0 && self.fault("extended after finishing") && st.len() > 1 {
            let n = st.len();
            st.swap(n - 1, n - 2);
        }
        let kind = if depth > 2 {
            KINDS[self.s.below(6)]
        } else {
            match self.s.below(11) {
                9 => "enumeration",
                10 => "one_of",
                i => KINDS[i],
            }
        };
        let closing = match kind {
            "constant" => format!(".constant({})", self.s.pick(&["1", "\"x\"", "true", "json!({})"])),
            "enumeration" => ".enumeration(1)".into(),
            "one_of" => format!(".one_of({})", self.schema_fn(depth + 1)),
            "vec" | "tuple" | "object" => {
                let point = if kind == "object" { OS } else { AS };
                if self.k == 0 && self.s.chance(70) {
                    format!(".{kind}()")
                } else {
                    let f = self.ext_closure(point);
                    if self.k > 0 && self.fault("extension of an array or object left out") {
                        format!(".{kind}()")
                    } else {
                        format!(".{kind}_ext({f})")
                    }
                }
            }
            _ => format!(".{kind}()"),
        };
        st.push(closing);
        let typed = st.len();
        let rw = match kind {
            "constant" | "one_of" => false,
            _ => self.s.chance(30),
        };
        if rw {
            st.push(self.s.pick(&[".read_only()", ".write_only()"]).to_string());
        }
        // the stages of the schema among those of the property around it
        let mark = |i: usize, t: &String| format!("\u{1}{i}\u{1}{t}");
        others.push(st.iter().enumerate().map(|(i, t)| mark(i, t)).collect());
        let merged = self.merge(others);
        let mut pos = vec![];
        let stages: Vec<String> = merged
            .into_iter()
            .enumerate()
            .map(|(at, t)| match t.strip_prefix('\u{1}') {
                Some(r) => {
                    pos.push(at + 1);
                    r.split_once('\u{1}').unwrap().1.to_string()
                }
                None => t,
            })
            .collect();
        let mut c = Chain::new(stages);
        let n = c.len();
        let typed = pos[typed - 1];
        self.hr(&mut c);
        for _ in 0..self.s.len(2) {
            let t = *self.s.pick(&[".unit(\"u\")", ".format(\"f\")", ".default_value(1)"]);
            // a property has them as soon as its schema is extended
            let from = if suffix.is_empty() || self.k == 0 { 0 } else { pos[self.k.min(pos.len()) - 1] };
            self.put(&mut c, from, n, t.into());
        }
        match kind {
            "enumeration" => {
                for _ in 0..self.s.len(2) {
                    self.put(&mut c, typed, n, ".enumeration(\"v\")".into());
                }
            }
            "one_of" => {
                for _ in 0..self.s.len(2) {
                    let t = format!(".one_of({})", self.schema_fn(depth + 1));
                    self.put(&mut c, typed, n, t);
                }
            }
            // the root of a property has no methods of strings
            "string" if !suffix.is_empty() => (),
            _ => {
                for _ in 0..self.s.len(3) {
                    // read-only strings have no methods of their own
                    let last = if kind == "string" && rw { *pos.last().unwrap() - 1 } else { n };
                    if let Some(t) = self.own_call(kind, depth) {
                        self.put(&mut c, typed, last, t);
                    }
                }
            }
        }
        // faults
        let finished = pos.len().checked_sub(2 + usize::from(rw)).map_or(0, |i| pos[i]);
        if KINDS.contains(&kind) {
            if self.fault("two types") {
                let t = *[".bool()", ".null()", ".number()", ".integer()", ".string()", ".constant(1)"]
                    .get(self.rng.below(6))
                    .unwrap();
                self.put_fault(&mut c, typed, n, t.into());
            }
            if self.fault("a member of another type") {
                let t = self.alien_call(kind);
                self.put_fault(&mut c, typed, n, t);
            }
            if self.fault("a member before the type") {
                let t = self.alien_call("");
                self.put_fault(&mut c, finished, typed - 1, t);
            }
        } else if self.fault("a member of a type without it") {
            let t = self.alien_call("");
            self.put_fault(&mut c, typed, n, t);
        }
        if kind == "integer" && self.fault("a fractional limit of an integer") {
            let t = *[".minimum(0.5)", ".maximum(0.5)", ".exclusive_minimum(0.5)", ".exclusive_maximum(0.5)", ".multiple_of(0.5)"]
                .get(self.rng.below(5))
                .unwrap();
            self.put_fault(&mut c, typed, n, t.into());
        }
        if kind == "integer" && self.fault("an integer multiple of zero") {
            self.put_fault(&mut c, typed, n, ".multiple_of(0)".into());
        }
        if rw && self.fault("read-only and write-only") {
            let t = [".read_only()", ".write_only()"][self.rng.below(2)];
            c.slots[n].push(t.into());
        }
        if kind == "constant" && self.fault("a constant which is write-only") {
            self.put_fault(&mut c, typed, n, ".write_only()".into());
        }
        if self.fault("read-only before the type") {
            let t = [".read_only()", ".write_only()"][self.rng.below(2)];
            self.put_fault(&mut c, finished, typed - 1, t.into());
        }
        c
    }

    fn form(&mut self) -> String {
        let ext = self.exts("ext", FORM);
        let mut href = vec![".href(\"h\")".to_string()];
        if self.fault("a form without href") {
            href.clear();
        }
        let stages = self.merge(vec![ext, href]);
        let mut c = Chain::new(stages);
        let n = c.len();
        for _ in 0..self.s.len(4) {
            let t = *self.s.pick(&[
                ".op(FormOperation::ReadProperty)",
                ".content_type(\"a/b\")",
                ".content_coding(\"gzip\")",
                ".subprotocol(\"s\")",
                ".security(\"x\")",
                ".scope(\"x\")",
                ".additional_response(|b| b.success().content_type(\"c\").schema(\"s\"))",
                ".additional_response(|b| b)",
            ]);
            self.put(&mut c, 0, n, t.into());
        }
        if self.s.chance(40) {
            let t = if self.k == 0 && self.s.chance(50) {
                ".response_default_ext(\"c\")".into()
            } else {
                let f = self.ext_closure(RESP);
                if self.k > 0 && self.fault("extension of a response left out") {
                    ".response_default_ext(\"c\")".into()
                } else {
                    format!(".response(\"c\", {f})")
                }
            };
            self.put(&mut c, 0, n, t);
        }
        if self.fault("two targets of a form") {
            self.put_fault(&mut c, 0, n, ".href(\"again\")".into());
        }
        format!("|b| b{}", c.text())
    }

    fn affordance_call(&mut self, c: &mut Chain) {
        let n = c.len();
        for _ in 0..self.s.len(2) {
            let t = format!(".form({})", self.form());
            self.put(c, 0, n, t);
        }
        if self.s.chance(20) {
            let t = format!(".uri_variable(\"u{}\", {})", self.name(), self.schema_fn(2));
            self.put(c, 0, n, t);
        }
    }

    fn property(&mut self) -> String {
        let ia = self.exts("ext_interaction", IA);
        let own = self.exts("ext", PROP);
        let mut c = self.schema(1, "ext_data_schema", ".finish_extend_data_schema()", vec![ia, own]);
        let n = c.len();
        self.affordance_call(&mut c);
        if self.s.chance(30) {
            self.put(&mut c, 0, n, ".observable(true)".into());
        }
        if self.fault("a member of another affordance") {
            let m = self.minimal();
            let t = [".safe()", ".idempotent()", ".synchronous(true)", &format!(".input({m})"), &format!(".cancellation({m})")]
                [self.rng.below(5)]
                .to_string();
            self.put_fault(&mut c, 0, n, t);
        }
        format!(".property(\"p{}\", |b| b{})", self.name(), c.text())
    }

    fn action(&mut self) -> String {
        let ia = self.exts("ext_interaction", IA);
        let own = self.exts("ext", ACT);
        let stages = self.merge(vec![ia, own]);
        let mut c = Chain::new(stages);
        let n = c.len();
        self.hr(&mut c);
        self.affordance_call(&mut c);
        for m in ["input", "output"] {
            if self.s.chance(30) {
                let t = format!(".{m}({})", self.schema_fn(1));
                self.put(&mut c, 0, n, t);
            }
        }
        for m in [".safe()", ".idempotent()", ".synchronous(false)"] {
            if self.s.chance(30) {
                self.put(&mut c, 0, n, m.into());
            }
        }
        if self.fault("a member of another affordance") {
            let m = self.minimal();
            let t = [".observable(true)", &format!(".data({m})"), &format!(".subscription({m})"), ".unit(\"u\")", ".bool()"]
                [self.rng.below(5)]
                .to_string();
            self.put_fault(&mut c, 0, n, t);
        }
        format!(".action(\"a{}\", |b| b{})", self.name(), c.text())
    }

    fn event(&mut self) -> String {
        let ia = self.exts("ext_interaction", IA);
        let own = self.exts("ext", EVT);
        let stages = self.merge(vec![ia, own]);
        let mut c = Chain::new(stages);
        let n = c.len();
        self.hr(&mut c);
        self.affordance_call(&mut c);
        for m in ["subscription", "data", "cancellation", "data_response"] {
            if self.s.chance(25) {
                let t = format!(".{m}({})", self.schema_fn(1));
                self.put(&mut c, 0, n, t);
            }
        }
        if self.fault("a member of another affordance") {
            let m = self.minimal();
            let t = [".observable(true)", ".safe()", &format!(".output({m})"), ".format(\"u\")", ".null()"][self.rng.below(5)]
                .to_string();
            self.put_fault(&mut c, 0, n, t);
        }
        format!(".event(\"e{}\", |b| b{})", self.name(), c.text())
    }

    fn link(&mut self) -> String {
        let mut stages = vec![".href(\"h\")".to_string()];
        if self.fault("a link without href") {
            stages.clear();
        }
        let mut c = Chain::new(stages);
        let n = c.len();
        for _ in 0..self.s.len(3) {
            let t = *self.s.pick(&[".ty(\"t\")", ".rel(\"r\")", ".anchor(\"a\")", ".sizes(\"s\")", ".hreflang(\"en\")"]);
            self.put(&mut c, 0, n, t.into());
        }
        if self.fault("two targets of a link") {
            self.put_fault(&mut c, 0, n, ".href(\"again\")".into());
        }
        format!(".link_with(|b| b{})", c.text())
    }

    fn security(&mut self) -> String {
        const SCHEMES: [(&str, &str); 10] = [
            ("no_sec", ".no_sec()"),
            ("auto", ".auto()"),
            ("basic", ".basic()"),
            ("digest", ".digest()"),
            ("apikey", ".apikey()"),
            ("bearer", ".bearer()"),
            ("psk", ".psk()"),
            ("oauth2", ".oauth2(\"code\")"),
            ("custom", ".custom(\"x:y\")"),
            ("combo", ".combo()"),
        ];
        // (call, the schemes which have it)
        const CALLS: [(&str, &str); 13] = [
            (".name(\"n\")", "basic digest apikey bearer combo"),
            (".location(SecurityAuthenticationLocation::Header)", "basic digest apikey bearer"),
            (".qop(QualityOfProtection::AuthInt)", "digest"),
            (".authorization(\"a\")", "bearer oauth2"),
            (".alg(\"a\")", "bearer"),
            (".format(\"a\")", "bearer"),
            (".token(\"t\")", "oauth2"),
            (".refresh(\"t\")", "oauth2"),
            (".scope(\"t\")", "oauth2"),
            (".data(json!({\"a\": 1}))", "custom"),
            (".push(\"n\")", "list"),
            (".extend([\"n\"])", "list"),
            (".extend(vec![\"n\".to_string()])", "list"),
        ];
        let (scheme, call) = SCHEMES[self.s.below(10)];
        let mut stages = vec![call.to_string()];
        if scheme == "combo" {
            stages.push(self.s.pick(&[".all_of([\"n\"])", ".one_of([\"n\", \"m\"])"]).to_string());
            if self.fault("a combination of nothing") {
                stages.pop();
            }
        }
        if self.fault("no security scheme") {
            stages.clear();
        }
        let mut c = Chain::new(stages);
        let n = c.len();
        for _ in 0..self.s.len(3) {
            let t = *self.s.pick(&[
                ".description(\"d\")",
                ".descriptions(|b| b.add(\"en\", \"t\"))",
                ".attype(\"a\")",
                ".proxy(\"p\")",
                ".with_key(\"k\")",
                ".required()",
            ]);
            self.put(&mut c, 0, n, t.into());
        }
        let mine = |of: &str, all: bool| {
            of.split(' ').any(|o| o == scheme || (o == "list" && scheme == "combo" && all))
        };
        let own: Vec<&(&str, &str)> = CALLS.iter().filter(|(_, of)| mine(of, true)).collect();
        if !own.is_empty() && n > 0 {
            for _ in 0..self.s.len(3) {
                let (t, of) = **self.s.pick(&own);
                let from = if of == "list" { n } else { 1 };
                self.put(&mut c, from, n, t.into());
            }
        }
        if n > 0 {
            if self.fault("a member of another security scheme") {
                let others: Vec<&(&str, &str)> = CALLS.iter().filter(|(_, of)| !mine(of, true)).collect();
                let (t, _) = *others[self.rng.below(others.len())];
                self.put_fault(&mut c, 1, n, t.into());
            }
            if self.fault("a member before the security scheme") {
                let (t, _) = CALLS[self.rng.below(CALLS.len())];
                c.slots[0].push(t.into());
            }
            if self.fault("two security schemes") {
                let (_, t) = SCHEMES[self.rng.below(10)];
                self.put_fault(&mut c, 1, n, t.into());
            }
            if scheme == "combo" && self.fault("both combinations") {
                let t = [".all_of([\"n\"])", ".one_of([\"n\"])"][self.rng.below(2)];
                self.put_fault(&mut c, 1, n, t.into());
            }
        }
        format!(".security(|b| b{})", c.text())
    }

    fn thing(&mut self) -> String {
        // parts which need all extensions to be known
        let mut late = vec![];
        let n = if self.s.chance(85) { 1 + self.s.below(3) } else { 0 };
        for _ in 0..n {
            late.push(match self.s.below(6) {
                0 => self.property(),
                1 => self.action(),
                2 => self.event(),
                3 => format!(".form({})", self.form()),
                4 => format!(".uri_variable(\"u{}\", {})", self.name(), self.schema_fn(2)),
                _ => format!(".schema_definition(\"d{}\", {})", self.name(), self.schema_fn(1)),
            });
        }
        let mut stages: Vec<String> = (0..self.k).map(|t| self.one_ext("ext", THING, t)).collect();
        if !late.is_empty() || self.s.chance(50) {
            stages.push(".finish_extend()".into());
        }
        if self.k > 0 {
            if self.k > 1 && self.fault("extensions of the Thing in another order") {
                stages.swap(0, 1);
            }
            if self.fault("an extension of the Thing left out") {
                stages.remove(0);
            }
            if !late.is_empty() && self.fault("the Thing extended after finishing") {
                stages.swap(self.k - 1, self.k);
            }
        }
        if !late.is_empty() && self.fault("the Thing not finished") {
            stages.pop();
        }
        let mut c = Chain::new(stages);
        let n = c.len();
        self.hr_thing(&mut c);
        for _ in 0..self.s.len(2) {
            let t = self.link();
            self.put(&mut c, 0, n, t);
        }
        for _ in 0..self.s.len(2) {
            let t = self.security();
            self.put(&mut c, 0, n, t);
        }
        for t in late {
            c.slots[n].push(t);
        }
        if self.fault("a member of an affordance in the Thing") {
            let t = [".observable(true)", ".safe()", ".unit(\"u\")", ".bool()", ".href(\"h\")"][self.rng.below(5)];
            self.put_fault(&mut c, 0, n, t.into());
        }
        c.text()
    }

    fn hr_thing(&mut self, c: &mut Chain) {
        let n = c.len();
        for _ in 0..self.s.len(3) {
            let t = *self.s.pick(&[
                ".id(\"i\")",
                ".description(\"d\")",
                ".attype(\"a\")",
                ".titles(|b| b.add(\"en\", \"t\"))",
                ".descriptions(|b| b.add(\"en\", \"t\").add(\"it\", \"u\"))",
                ".version(VersionInfo { instance: \"1\".into(), model: None })",
                ".support(\"s\")",
                ".base(\"b\")",
                ".context(\"c\")",
                ".context_map(|b| b.context(\"p\", \"c\"))",
                ".profile(\"p\")",
                ".link(\"h\")",
            ]);
            self.put(c, 0, n, t.into());
        }
    }
}

struct Program {
    body: String,
    fault: Option<&'static str>,
    parts: usize,
}

fn generate(s: &mut Src) -> Program {
    let faulty = s.chance(65);
    let (which, kind, seed) = (s.raw() as usize, s.raw() as usize, u64::from(s.raw()));
    let k = s.below(3);
    let start = s.used();
    let run = |src: &mut Src, target: Option<usize>| {
        let mut p = P {
            s: src,
            k,
            sites: vec![],
            target,
            planted: None,
            rng: Rng(seed),
            names: 0,
        };
        let t = p.thing();
        (t, p.sites, p.planted)
    };
    let (mut text, sites, _) = run(s, None);
    let mut fault = None;
    if faulty && !sites.is_empty() {
        let mut kinds = sites.clone();
        kinds.sort_unstable();
        kinds.dedup();
        let kind = kinds[kind % kinds.len()];
        let places: Vec<usize> = (0..sites.len()).filter(|i| sites[*i] == kind).collect();
        let target = places[which % places.len()];
        let mut again = Src::replay(s.tape.get(start..).map(<[u32]>::to_vec).unwrap_or_default());
        let (t, _, planted) = run(&mut again, Some(target));
        text = t;
        fault = planted;
    }
    let parts = text.matches("|b| b").count();
    let x = ["Nil", "X1", "X2"][k];
    Program {
        body: format!(
            "() -> Result<Thing<{x}>, Error> {{ Thing::builder(\"t\"){text}.build() }}"
        ),
        fault,
        parts,
    }
}

// ---------------------------------------------------------------------------------------------
// The compiler

const PRELUDE: &str = r#"#![allow(warnings)]
#![recursion_limit = "256"]
use serde_json::json;
use wot_td::{builder::{affordance::{ActionAffordanceBuilder, BuildableInteractionAffordance, EventAffordanceBuilder, PropertyAffordanceBuilder}, data_schema::*, BuildableHumanReadableInfo, Error, ThingBuilder, ToExtend}, extend::{Extend, Extendable, ExtendableThing}, hlist::{Cons, Nil}, thing::{FormOperation, QualityOfProtection, SecurityAuthenticationLocation, Thing, VersionInfo}};
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)] pub struct X<const P: u8, const T: u8>;
impl<const T: u8> ExtendableThing for X<0, T> { type InteractionAffordance = X<1, T>; type PropertyAffordance = X<2, T>; type ActionAffordance = X<3, T>; type EventAffordance = X<4, T>; type Form = X<5, T>; type ExpectedResponse = X<6, T>; type DataSchema = X<7, T>; type ObjectSchema = X<8, T>; type ArraySchema = X<9, T>; }
type X1 = Cons<X<0, 0>, Nil>;
type X2 = Cons<X<0, 1>, X1>;
"#;

struct Tools {
    rlibs: Vec<(String, PathBuf)>,
    deps: PathBuf,
}

/// Where the library which the harness was built with lies.
fn tools() -> &'static Tools {
    static T: OnceLock<Tools> = OnceLock::new();
    T.get_or_init(|| {
        let root = PathBuf::from(std::env::var_os("VERIF_ROOT").unwrap_or_else(|| "/verif".into()));
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--message-format=json"])
            .current_dir(root.join("harness"))
            .env("CARGO_TARGET_DIR", root.join("target"))
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| give_up(&format!("cannot run cargo: {e}")));
        let mut rlibs = vec![];
        let mut deps = None;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if !["wot_td", "serde", "serde_json"].contains(&name.as_str()) {
                continue;
            }
            for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                if f.ends_with(".rlib") {
                    let p = PathBuf::from(f);
                    deps = p.parent().map(|d| d.to_path_buf());
                    rlibs.push((name.clone(), p));
                }
            }
        }
        match deps {
            Some(deps) if rlibs.len() == 3 => Tools { rlibs, deps },
            _ => give_up(&format!("cannot find the built library: {}", String::from_utf8_lossy(&out.stderr))),
        }
    })
}

/// The machinery does not work: that says nothing about the property.
fn give_up(why: &str) -> ! {
    eprintln!("P23: {why}");
    std::process::exit(2)
}

/// Compile the functions, one a line: what the compiler has against each of them.
fn compile(bodies: &[String]) -> Vec<Option<String>> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let t = tools();
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = std::env::temp_dir().join(format!("p23-{}-{n}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let mut text = String::from(PRELUDE);
    let first = text.lines().count();
    for (i, b) in bodies.iter().enumerate() {
        let _ = writeln!(text, "pub fn p{i}{b}");
    }
    let file = dir.join("p.rs");
    std::fs::write(&file, text).unwrap_or_else(|e| give_up(&format!("cannot write {}: {e}", file.display())));
    let mut cmd = Command::new("rustc");
    cmd.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--emit", "metadata"])
        .args(["--error-format", "short", "--out-dir"])
        .arg(&dir)
        .arg("-L")
        .arg(format!("dependency={}", t.deps.display()))
        .current_dir(&dir)
        .stdin(Stdio::null());
    for (name, p) in &t.rlibs {
        cmd.arg("--extern").arg(format!("{name}={}", p.display()));
    }
    let out = cmd.arg("p.rs").output().unwrap_or_else(|e| give_up(&format!("cannot run rustc: {e}")));
    let _ = std::fs::remove_dir_all(&dir);
    let mut found: Vec<Option<String>> = vec![None; bodies.len()];
    let err = String::from_utf8_lossy(&out.stderr);
    let mut any = false;
    for l in err.lines() {
        let mut parts = l.splitn(4, ':');
        let (f, line, _, rest) = (parts.next(), parts.next(), parts.next(), parts.next());
        match (f, line.and_then(|l| l.parse::<usize>().ok()), rest) {
            (Some(f), Some(line), Some(rest)) if f.ends_with("p.rs") => {
                let rest = rest.trim();
                if !rest.starts_with("error") {
                    continue;
                }
                if !rest.starts_with("error[E") || line <= first || line > first + bodies.len() {
                    give_up(&format!("the generated text is wrong: {l}"));
                }
                any = true;
                found[line - 1 - first].get_or_insert_with(|| rest.chars().take(400).collect());
            }
            _ if l.starts_with("error: aborting") || l.starts_with("error: could not") => (),
            _ if l.starts_with("error") => give_up(&format!("the compiler failed: {l}")),
            _ => (),
        }
    }
    if !out.status.success() && !any {
        give_up(&format!("the compiler failed: {}\n{err}", out.status));
    }
    found
}

const CHUNK: u64 = 256;

type Batch = Arc<OnceLock<Vec<Option<String>>>>;

/// The verdict on the program of a case: programs are compiled in batches.
fn verdict(p: &Program, c: &Ctx) -> Option<String> {
    static BATCHES: OnceLock<Mutex<HashMap<u64, Batch>>> = OnceLock::new();
    let Some((seed, prop, arm, index)) = c.origin else {
        return compile(std::slice::from_ref(&p.body)).pop().unwrap();
    };
    let b = BATCHES
        .get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(index / CHUNK)
        .or_default()
        .clone();
    let from = index / CHUNK * CHUNK;
    let all = b.get_or_init(|| {
        let bodies: Vec<String> = (from..from + CHUNK)
            .map(|i| generate(&mut case_src(seed, prop, arm, i)).body)
            .collect();
        compile(&bodies)
    });
    all[(index - from) as usize].clone()
}

fn case(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = generate(s);
    c.show("program", || p.body.clone());
    c.show("expected", || match p.fault {
        None => "compiles".into(),
        Some(f) => format!("does not compile: {f}"),
    });
    c.label(p.fault.unwrap_or("valid"));
    if p.parts > 0 {
        c.nontrivial(&p.body);
    }
    let mut got = verdict(&p, c);
    if got.is_none() != p.fault.is_none() && c.origin.is_some() {
        // on its own, to be sure
        got = compile(std::slice::from_ref(&p.body)).pop().unwrap();
    }
    match (p.fault, got) {
        (None, Some(e)) => Err(format!("a valid use of the builders does not compile: {e}\n{}", p.body)),
        (Some(f), None) => Err(format!("a program which must not compile does ({f}):\n{}", p.body)),
        _ => Ok(()),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P23",
        rule: "a program is non-trivial when it calls a builder of a part (form, link, security, schema, affordance)",
        assumptions: &[
            "the compiler (rustc) decides correctly whether a program is well typed",
            "only misuse which the documentation or the TD model excludes counts: no demand on what else compiles",
        ],
        arms: vec![arm("programs", case, 4096, 150_000)],
        known: vec![],
    }]
}
