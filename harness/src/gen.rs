//! Generators of plain values: strings, names, language tags, JSON, timestamps, numbers.

use serde_json::{json, Map, Number, Value};
use time::{Date, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};

use crate::{dict, engine::Src, validate};

const STRINGS: &[&str] = &[
    "a",
    "",
    "lamp",
    "Lamp Title",
    " ",
    "null",
    "true",
    "0",
    "title",
    "type",
    "@type",
    "forms",
    "href",
    "https://example.com/things/1?x=1&y={z}#frag",
    "\"quoted\" \\ back/slash",
    "tab\tnewline\ncr\r",
    "\u{0}\u{1}\u{1f}\u{7f}",
    "üñïçødé",
    "日本語 テキスト",
    "\u{1F4A1}\u{200d}\u{fe0f}",
    "\u{feff}\u{2028}\u{2029}\u{e000}\u{ffff}",
    "{\"a\":1}",
    "[]",
    "urn:uuid:0804d572-cce8-422a-bb7c-4412fcd56f06",
    "saref:LightSwitch",
    "application/json;charset=utf-8",
    "application/json",
    "Application/JSON; Charset=\"UTF-8\"",
    "application/senml+json",
    "text/plain",
    " padded ",
    "HTTP://EXAMPLE.com/%7Euser/../a//b/",
    "//host/path",
    "../relative?q#",
    "{?name,other*}{/path}",
    "coap://[::1]:5683/lamp",
    "bearer",
    "e\u{301}\u{202e}",
    "a,b;c d",
];

pub fn string(s: &mut Src) -> String {
    if let Some(x) = dict::string(s) {
        return x;
    }
    match s.weighted(&[60, 25, 12, 3]) {
        0 => s.pick(STRINGS).to_string(),
        1 => {
            let n = s.below(9);
            (0..n)
                .map(|_| *s.pick(&['a', 'b', 'Z', '0', '-', '_', '.', ':', '/', '%', '#', '$']))
                .collect()
        }
        2 => {
            let n = s.below(6);
            (0..n).map(|_| any_char(s)).collect()
        }
        _ => {
            let n = dict::length(s, 5000).unwrap_or_else(|| 50 + s.below(400));
            let c = any_char(s);
            std::iter::repeat_n(c, n).collect()
        }
    }
}

fn any_char(s: &mut Src) -> char {
    let limit = *s.pick(&[0x80u32, 0x800, 0x1_0000, 0x11_0000]);
    char::from_u32(s.raw() % limit).unwrap_or('\u{fffd}')
}

const NAMES: &[&str] = &[
    "a", "b", "status", "on", "Lamp", "",
    "A", "title", "forms", "type", "items", "a b", "a/b~1", "@context", "é", "日本", "0", "__proto__", "null",
    "properties", "security", "op", "\u{0}", "x.y", "status2",
];

pub fn name(s: &mut Src) -> String {
    if let Some(x) = dict::string(s) {
        x
    } else if s.chance(12) {
        string(s)
    } else {
        s.pick(NAMES).to_string()
    }
}

/// Up to `max` distinct names.
pub fn names(s: &mut Src, max: usize) -> Vec<String> {
    let n = s.len(max);
    let mut v: Vec<String> = Vec::new();
    for i in 0..n {
        let mut x = name(s);
        while v.contains(&x) {
            x = format!("{x}{i}");
        }
        v.push(x);
    }
    v
}

/// A fresh name, different from all in `used`.
pub fn fresh(s: &mut Src, used: &[String]) -> String {
    let mut x = name(s);
    while used.contains(&x) {
        x.push('\'');
    }
    x
}

const TAGS: &[&str] = &[
    "en", "it", "de", "en-US", "EN", "zh-Hant", "sr-Latn-RS", "sl-nedis", "de-CH-1901", "es-419",
    "zh-cmn-Hans-CN", "de-DE-u-co-phonebk", "en-a-myext-b-another", "x-whatever", "en-x-us",
    "i-klingon", "zh-min-nan", "en-GB-oed", "i-default", "qaa-Qaaa-QM-x-southern", "hy-Latn-IT-arevela",
    "az-Arab-x-AZE-derbend", "mn-Cyrl-MN", "aaaa", "abcdefgh", "EN-us", "sgn-BE-FR", "art-lojban",
    "zh-yue-HK", "de-1996", "sl-IT-nedis-rozaj", "en-u-attr-co-phonebk", "ja-t-it",
];

fn alpha(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| (*s.pick(b"aeiouxyzABZ")) as char).collect()
}

fn alnum(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| (*s.pick(b"abz019AZ")) as char).collect()
}

/// A well-formed BCP 47 tag: mostly from a list, else composed along the grammar.
pub fn lang(s: &mut Src) -> String {
    let t = some_lang(s);
    if validate::well_formed(&t) && validate::library_agrees(&t) {
        t
    } else {
        "en".into()
    }
}

fn some_lang(s: &mut Src) -> String {
    if let Some(x) = dict::string(s) {
        return match s.below(4) {
            0 => format!("en-{x}"),
            1 => format!("{x}-US"),
            2 => format!("x-{x}"),
            _ => x,
        };
    }
    if s.chance(75) {
        return s.pick(TAGS).to_string();
    }
    if s.chance(15) {
        // private use only
        let mut t = String::from("x");
        for _ in 0..1 + s.below(3) {
            let n = 1 + s.below(8);
            t.push('-');
            t.push_str(&alnum(s, n));
        }
        return t;
    }
    let mut t;
    match s.below(3) {
        0 => {
            let n = 2 + s.below(2);
            t = alpha(s, n);
            // extlang: up to three
            if s.chance(20) {
                for _ in 0..1 + s.below(3) {
                    t.push('-');
                    t.push_str(&alpha(s, 3));
                }
            }
        }
        1 => t = alpha(s, 4),
        _ => {
            let n = 5 + s.below(4);
            t = alpha(s, n)
        }
    }
    if s.chance(35) {
        t.push('-');
        t.push_str(&alpha(s, 4));
    }
    if s.chance(35) {
        t.push('-');
        if s.chance(50) {
            t.push_str(&alpha(s, 2));
        } else {
            t.push_str(s.pick(&["419", "001", "150"]));
        }
    }
    if s.chance(25) {
        // variants must not repeat
        let vs = ["nedis", "1901", "rozaj", "1996abc", "abcdefgh", "0abc"];
        let at = s.below(vs.len());
        for i in 0..1 + s.below(2) {
            t.push('-');
            t.push_str(vs[(at + i) % vs.len()]);
        }
    }
    if s.chance(25) {
        let singles = ["u", "a", "t", "0", "R"];
        let at = s.below(singles.len());
        for i in 0..1 + s.below(2) {
            t.push('-');
            t.push_str(singles[(at + i) % singles.len()]);
            for _ in 0..1 + s.below(3) {
                let n = 2 + s.below(7);
                t.push('-');
                t.push_str(&alnum(s, n));
            }
        }
    }
    if s.chance(20) {
        t.push_str("-x");
        for _ in 0..1 + s.below(2) {
            let n = 1 + s.below(8);
            t.push('-');
            t.push_str(&alnum(s, n));
        }
    }
    t
}

const BAD_TAGS: &[&str] = &[
    "e!", "", "e n", "en_US", "-en", "en-", "en--US", "a", "1", "123", "abcdefghi", "en-abcdefghi", "en-x", "en-u",
    "ü", "en-ü", "x", "x-", "x-abcdefghi", "en-US-u-", "e", " en", "en ", "en-US\n", "12", "en-*", "*", "en-u-x",
    "it;q=0.5", "en,it", "a-DE", "1-DE", "en-a-b", "日本語",
];

/// A tag which is not well-formed.
pub fn bad_lang(s: &mut Src) -> String {
    let t = some_bad_lang(s);
    if !validate::well_formed(&t) && validate::library_agrees(&t) {
        t
    } else {
        "e!".into()
    }
}

fn some_bad_lang(s: &mut Src) -> String {
    if s.chance(70) {
        return s.pick(BAD_TAGS).to_string();
    }
    let mut t = lang(s);
    match s.below(4) {
        0 => t.push('-'),
        1 => t.insert(0, '-'),
        2 => {
            let bad = *s.pick(&['!', ' ', '_', '.', 'é', '\u{0}', '/', '*']);
            let at = s.below(t.len() + 1);
            // the tag is ASCII
            t.insert(at, bad)
        }
        _ => t.push_str("-abcdefghijk"),
    }
    t
}

/// Multi-language entries with distinct tags.
pub fn multilang(s: &mut Src) -> Vec<(String, String)> {
    let n = s.len(4);
    let mut v: Vec<(String, String)> = Vec::new();
    for _ in 0..n {
        let l = lang(s);
        if v.iter().all(|(k, _)| !k.eq_ignore_ascii_case(&l)) {
            v.push((l, string(s)));
        }
    }
    v
}

pub const INTS: &[i64] = &[
    0, 1, -1, 2, 5, 10, 100, 255, 256, 65535, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64,
    (1 << 53), (1 << 53) + 1, -(1 << 53) - 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1,
];

pub fn int(s: &mut Src) -> i64 {
    if let Some(i) = dict::int(s).and_then(|i| i64::try_from(i).ok()) {
        return i;
    }
    match s.weighted(&[60, 30, 10]) {
        0 => *s.pick(INTS),
        1 => s.below(200) as i64 - 100,
        _ => s.u64() as i64,
    }
}

pub const FLOATS: &[f64] = &[
    0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1.5, 100.0, 255.0, 1e10, -1e10, 1e21, 1e-7, 1e300, -1e300, f64::MAX,
    f64::MIN, f64::MIN_POSITIVE, 5e-324, -0.0, 9007199254740993.0, 0.30000000000000004, 123456.789,
    1.7976931348623157e308, 2.2250738585072011e-308, 4.35, 8.41,
];

/// A finite float.
pub fn float(s: &mut Src) -> f64 {
    if let Some(f) = dict::float(s).filter(|f| f.is_finite()) {
        return f;
    }
    match s.weighted(&[60, 30, 10]) {
        0 => *s.pick(FLOATS),
        1 => (s.below(2000) as f64 - 1000.0) / 8.0,
        _ => {
            let f = f64::from_bits(s.u64());
            if f.is_finite() {
                f
            } else {
                0.0
            }
        }
    }
}

/// What an integer may be a multiple of: not zero.
pub fn multiple(s: &mut Src) -> u64 {
    if let Some(i) = dict::int(s).and_then(|i| u64::try_from(i).ok()) {
        return i.max(1);
    }
    match s.below(4) {
        0 => (int(s).unsigned_abs()).max(1),
        1 => s.u64().max(1),
        _ => *s.pick(&[
            1,
            2,
            3,
            10,
            256,
            (1 << 31) + 1,
            (1 << 32) + 1,
            (1 << 53) + 1,
            i64::MAX as u64,
            1 << 63,
            u64::MAX - 1,
            u64::MAX,
        ]),
    }
}

/// One of a list, or any number below a bound.
pub fn small(s: &mut Src, of: &[usize], bound: usize) -> usize {
    if let Some(i) = dict::int(s).filter(|i| (0..bound as i128).contains(i)) {
        return i as usize;
    }
    if s.chance(20) {
        s.below(bound)
    } else {
        *s.pick(of)
    }
}

pub fn u32v(s: &mut Src) -> u32 {
    if let Some(i) = dict::int(s).and_then(|i| u32::try_from(i).ok()) {
        return i;
    }
    match s.weighted(&[50, 40, 10]) {
        0 => *s.pick(&[0, 1, 2, 10, 100, u32::MAX, u32::MAX - 1, 65536]),
        1 => s.below(50) as u32,
        _ => s.raw(),
    }
}

pub fn json(s: &mut Src, depth: usize) -> Value {
    let w: &[usize] = if depth == 0 {
        &[20, 10, 15, 10, 10, 20, 0, 0]
    } else {
        &[15, 8, 12, 8, 8, 15, 14, 14]
    };
    match s.weighted(w) {
        0 => json!(int(s)),
        1 => Value::Bool(s.chance(50)),
        2 => Value::String(string(s)),
        3 => Value::Number(Number::from_f64(float(s)).unwrap()),
        4 => Value::Null,
        5 => match s.below(3) {
            0 => json!(s.below(100)),
            1 => json!(u64::MAX - s.below(3) as u64),
            _ => json!(i64::MAX as u64 + s.below(3) as u64),
        },
        6 => Value::Array(s.vec(3, |s| json(s, depth - 1))),
        _ => {
            let ks = names(s, 3);
            Value::Object(ks.into_iter().map(|k| (k, json(s, depth - 1))).collect::<Map<_, _>>())
        }
    }
}

pub fn timestamp(s: &mut Src) -> OffsetDateTime {
    let year = match s.weighted(&[60, 20, 20]) {
        0 => 1990 + s.below(60) as i32,
        1 => 1 + s.below(9998) as i32,
        _ => *s.pick(&[1970, 1, 9998, 1600, 2000, 2038, 1900]),
    };
    let year = match dict::int(s) {
        Some(y) if (1..=9998).contains(&y) => y as i32,
        _ => year,
    };
    let month = Month::try_from(1 + s.below(12) as u8).unwrap();
    let day = 1 + s.below(time::util::days_in_month(month, year) as usize) as u8;
    let (h, m, sec) = match s.below(4) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (s.below(24) as u8, s.below(60) as u8, s.below(60) as u8),
    };
    let nano = match s.weighted(&[30, 25, 25, 20]) {
        0 => 0,
        1 => *s.pick(&[1u32, 999_999_999, 100_000_000, 500_000_000, 10, 123_000_000, 123_456_789, 120, 90_000_000]),
        2 => s.below(1000) as u32 * 1_000_000,
        _ => s.below(1_000_000_000) as u32,
    };
    let off = match s.weighted(&[40, 40, 20]) {
        0 => 0,
        1 => *s.pick(&[60i32, -60, 330, -210, 345, 840, -720, 1439, -1439, 1, -1, -30, 30]),
        _ => s.below(2 * 1439 + 1) as i32 - 1439,
    };
    PrimitiveDateTime::new(
        Date::from_calendar_date(year, month, day).unwrap(),
        Time::from_hms_nano(h, m, sec, nano).unwrap(),
    )
    .assume_offset(UtcOffset::from_whole_seconds(off * 60).unwrap())
}

/// RFC 3339 text of a timestamp, written independently of the `time` formatter.
pub fn rfc3339(t: &OffsetDateTime) -> String {
    let off = t.offset().whole_seconds() / 60;
    let nano = t.nanosecond();
    let frac = if nano == 0 {
        String::new()
    } else {
        let f = format!("{nano:09}");
        format!(".{}", f.trim_end_matches('0'))
    };
    let zone = if off == 0 {
        "Z".to_string()
    } else {
        format!(
            "{}{:02}:{:02}",
            if off < 0 { '-' } else { '+' },
            off.abs() / 60,
            off.abs() % 60
        )
    };
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{frac}{zone}",
        t.year(),
        t.month() as u8,
        t.day(),
        t.hour(),
        t.minute(),
        t.second()
    )
}
