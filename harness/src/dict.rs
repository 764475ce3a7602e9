//! The literals of the code under test, used like a fuzzer's dictionary: a branch which asks for a
//! particular text or number is reached by generating what the code itself mentions. Literals which
//! are not in the committed `dictionary.json` (the ones of the tree the harness was written for) are
//! preferred. The dictionary only chooses inputs; no oracle looks at it.

use std::{
    collections::BTreeSet,
    path::{Path, PathBuf},
    sync::OnceLock,
};

use serde_json::{json, Value};

use crate::engine::Src;

#[derive(Default, Clone)]
pub struct Words {
    pub strings: Vec<String>,
    pub ints: Vec<i128>,
    pub floats: Vec<f64>,
}

#[derive(Default)]
pub struct Dict {
    /// Every literal known.
    pub all: Words,
    /// The ones not in the committed file.
    pub new: Words,
}

const KNOWN: &str = include_str!("../dictionary.json");

static DICT: OnceLock<Dict> = OnceLock::new();
/// What a replay file asks for instead of what the sources say.
static OVERRIDE: OnceLock<Words> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let known = from_json(&serde_json::from_str(KNOWN).expect("dictionary.json"));
        let new = match OVERRIDE.get() {
            Some(w) => w.clone(),
            None => minus(of_sources(), &known),
        };
        let mut all = known;
        all.strings.extend(new.strings.iter().cloned());
        all.ints.extend(new.ints.iter().copied());
        all.floats.extend(new.floats.iter().copied());
        Dict { all, new }
    })
}

/// Use these new literals (of a replay file) instead of reading the sources.
pub fn set_new(v: &Value) {
    let _ = OVERRIDE.set(from_json(v));
}

pub fn to_json(w: &Words) -> Value {
    json!({
        "strings": w.strings,
        "ints": w.ints.iter().map(|i| i.to_string()).collect::<Vec<_>>(),
        "floats": w.floats.iter().map(|f| f.to_string()).collect::<Vec<_>>(),
    })
}

fn from_json(v: &Value) -> Words {
    let list = |k: &str| -> Vec<String> {
        v[k].as_array()
            .map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_owned)).collect())
            .unwrap_or_default()
    };
    Words {
        strings: list("strings"),
        ints: list("ints").iter().filter_map(|x| x.parse().ok()).collect(),
        floats: list("floats").iter().filter_map(|x| x.parse().ok()).collect(),
    }
}

fn minus(mut w: Words, known: &Words) -> Words {
    w.strings.retain(|x| !known.strings.contains(x));
    w.ints.retain(|x| !known.ints.contains(x));
    w.floats.retain(|x| !known.floats.contains(x));
    w
}

pub fn of_sources() -> Words {
    let root = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src");
    let mut files = Vec::new();
    collect(&root, &mut files);
    files.sort();
    let (mut strings, mut ints, mut floats) = (BTreeSet::new(), BTreeSet::new(), Vec::<f64>::new());
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            let t = match t.find("#[cfg(test)]\nmod ") {
                Some(at) => &t[..at],
                None => &t[..],
            };
            lex(t, &mut |l| match l {
                Literal::Text(x) => {
                    if !x.is_empty() && x.len() <= 60 {
                        strings.insert(x);
                    }
                }
                Literal::Int(i) => {
                    ints.insert(i);
                }
                Literal::Float(f) => {
                    if f.is_finite() && !floats.contains(&f) {
                        floats.push(f)
                    }
                }
            });
        }
    }
    Words {
        strings: strings.into_iter().collect(),
        ints: ints.into_iter().collect(),
        floats,
    }
}

fn collect(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, out)
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p)
        }
    }
}

enum Literal {
    Text(String),
    Int(i128),
    Float(f64),
}

fn lex(t: &str, out: &mut dyn FnMut(Literal)) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            let mut depth = 1;
            i += 2;
            while i < c.len() && depth > 0 {
                if at(i) == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 1;
                } else if at(i) == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if at(i) == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) {
            let mut h = 0;
            while at(i + 1 + h) == '#' {
                h += 1;
            }
            if at(i + 1 + h) != '"' {
                i += 1;
                continue;
            }
            let start = i + 2 + h;
            let mut j = start;
            while j < c.len() && !(c[j] == '"' && (0..h).all(|k| at(j + 1 + k) == '#')) {
                j += 1;
            }
            out(Literal::Text(c[start..j.min(c.len())].iter().collect()));
            i = j + 1 + h;
        } else if at(i) == '"' {
            let mut x = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    let (ch, n) = escape(&c[i..]);
                    x.extend(ch);
                    i += n;
                } else {
                    x.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            out(Literal::Text(x));
        } else if at(i) == '\'' {
            if at(i + 1) == '\\' {
                let (ch, n) = escape(&c[i + 1..]);
                if at(i + 1 + n) == '\'' {
                    if let Some(ch) = ch {
                        out(Literal::Text(ch.to_string()));
                    }
                    i += n + 2;
                } else {
                    i += 1;
                }
            } else if at(i + 2) == '\'' {
                out(Literal::Text(at(i + 1).to_string()));
                i += 3;
            } else {
                // a lifetime
                i += 1;
            }
        } else if at(i).is_ascii_digit() {
            let start = i;
            let radix = match (at(i), at(i + 1)) {
                ('0', 'x') => 16,
                ('0', 'b') => 2,
                ('0', 'o') => 8,
                _ => 10,
            };
            while at(i).is_ascii_alphanumeric()
                || at(i) == '_'
                || (radix == 10 && at(i) == '.' && at(i + 1).is_ascii_digit())
                || (radix == 10 && matches!(at(i), '+' | '-') && matches!(at(i - 1), 'e' | 'E'))
            {
                i += 1;
            }
            let word: String = c[start..i].iter().filter(|x| **x != '_').collect();
            number(&word, radix, out);
        } else if at(i).is_alphabetic() || at(i) == '_' {
            // an identifier; `b` of a byte text goes on at the quote
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
                if matches!(at(i), '"' | '\'') {
                    break;
                }
            }
        } else {
            i += 1;
        }
    }
}

fn number(word: &str, radix: u32, out: &mut dyn FnMut(Literal)) {
    const SUFFIXES: &[&str] = &[
        "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize",
    ];
    let float = radix == 10 && (word.contains(['.', 'e', 'E']) || word.ends_with("f64") || word.ends_with("f32"))
        && !word.ends_with("size");
    if float {
        if let Ok(f) = word.trim_end_matches("f64").trim_end_matches("f32").parse() {
            out(Literal::Float(f));
        }
        return;
    }
    let mut digits = word;
    for x in SUFFIXES {
        if let Some(d) = word.strip_suffix(x) {
            digits = d;
        }
    }
    let digits = if radix == 10 { digits } else { digits.get(2..).unwrap_or("") };
    if let Ok(i) = i128::from_str_radix(digits, radix) {
        out(Literal::Int(i));
    }
}

/// The character of an escape and how many characters it takes.
fn escape(c: &[char]) -> (Option<char>, usize) {
    match c.get(1) {
        Some('n') => (Some('\n'), 2),
        Some('r') => (Some('\r'), 2),
        Some('t') => (Some('\t'), 2),
        Some('0') => (Some('\0'), 2),
        Some('x') => {
            let h: String = c.iter().skip(2).take(2).collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4)
        }
        Some('u') => {
            let h: String = c.iter().skip(3).take_while(|x| **x != '}').collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4 + h.chars().count())
        }
        Some('\n') => {
            let n = c.iter().skip(1).take_while(|x| x.is_whitespace()).count();
            (None, 1 + n)
        }
        Some(x) => (Some(*x), 2),
        None => (None, 1),
    }
}

// ---------------------------------------------------------------------------------------------
// Choices

/// How often, in percent, to ask the dictionary.
pub fn weight(new: bool) -> usize {
    if new {
        10
    } else {
        2
    }
}

fn draw<'a, T>(s: &mut Src, f: impl Fn(&'a Words) -> &'a [T]) -> Option<&'a T> {
    let d = get();
    let (new, all) = (f(&d.new), f(&d.all));
    if !new.is_empty() && s.chance(80) {
        return Some(s.pick(new));
    }
    if all.is_empty() {
        return None;
    }
    Some(s.pick(all))
}

/// A text of the sources, as it is or as a part.
pub fn string(s: &mut Src) -> Option<String> {
    if !s.chance(weight(!get().new.strings.is_empty())) {
        return None;
    }
    let d = draw(s, |w| &w.strings)?.clone();
    let x = |s: &mut Src| s.pick(&["a", "x ", "https://example.com/", "é", "1", "日", "-", "\u{0}"]).to_string();
    Some(match s.weighted(&[50, 12, 12, 12, 4, 4, 6]) {
        0 => d,
        1 => d + &x(s),
        2 => x(s) + &d,
        3 => x(s) + &d + &x(s),
        4 => d.to_uppercase(),
        5 => d.to_lowercase(),
        _ => d.repeat(2 + s.below(2)),
    })
}

pub fn int(s: &mut Src) -> Option<i128> {
    if !s.chance(weight(!get().new.ints.is_empty())) {
        return None;
    }
    let d = *draw(s, |w| &w.ints)?;
    Some(match s.below(6) {
        0 | 1 => d,
        2 => d + 1,
        3 => d - 1,
        4 => -d,
        _ if (1..64).contains(&d) => (1 << d) + s.below(3) as i128 - 1,
        _ => d,
    })
}

pub fn float(s: &mut Src) -> Option<f64> {
    let d = get();
    if !s.chance(weight(!d.new.floats.is_empty() || !d.new.ints.is_empty())) {
        return None;
    }
    let ints = d.all.floats.is_empty() || (d.new.floats.is_empty() && s.chance(70));
    let v = if ints {
        *draw(s, |w| &w.ints)? as f64
    } else {
        *draw(s, |w| &w.floats)?
    };
    Some(match s.below(5) {
        0 | 1 => v,
        2 => -v,
        3 => v + 0.5,
        _ => v * 2.0,
    })
}

/// A length at one of the new small numbers, if there are any.
pub fn length(s: &mut Src, max: usize) -> Option<usize> {
    let d = get();
    if !d.new.ints.iter().any(|i| (1..=max as i128).contains(i)) || !s.chance(6) {
        return None;
    }
    let of: Vec<i128> = d.new.ints.iter().copied().filter(|i| (1..=max as i128).contains(i)).collect();
    let v = *s.pick(&of) as usize;
    Some(v + s.below(3))
}

/// A text of the sources which may be the name of a member outside every vocabulary in use.
pub fn term(s: &mut Src) -> Option<String> {
    draw(s, |w| &w.strings).filter(|x| !x.contains([':', '{'])).cloned()
}

/// A text of the sources as a piece of JSON text.
pub fn token(s: &mut Src) -> Option<String> {
    let d = draw(s, |w| &w.strings)?;
    Some(match s.below(3) {
        0 => d.clone(),
        1 => Value::String(d.clone()).to_string(),
        _ => format!("{}:", Value::String(d.clone())),
    })
}
