//! C08, C09, C11: decoding of TLEs and lists of TLEs.
use crate::core::{Mon, Property};
use crate::rng::Rng;
use crate::tlegen::{self, differences, elements_differ, fix_checksum, generate, is_leap, text, Tle};
use serde_json::{json, Value};

pub static C08: Property = Property {
    id: "C08",
    rule: "distinct combinations of field classes (padding, signs, exponents, century side, leap day, designator shape) among well-formed TLEs whose every decoded field was compared with the value written",
    cases: [60000, 1000000],
    case: c08,
    fixed: Some(c08_fixed),
};

pub static C09: Property = Property {
    id: "C09",
    rule: "distinct (kind of defect, line, column, checksum repaired or not, reported error) combinations among corrupted TLEs",
    cases: [1000, 9000],
    case: c09,
    fixed: None,
};

pub static C11: Property = Property {
    id: "C11",
    rule: "distinct (two or three lines, line end style, length class, final line end, position and kind of the invalid group, name class) combinations of lists that were parsed and compared entry by entry",
    cases: [12000, 150000],
    case: c11,
    fixed: Some(c11_fixed),
};

fn tle_json(t: &Tle) -> Value {
    json!({"name": t.name, "line1": text(&t.line1), "line2": text(&t.line2)})
}

fn decode(m: &mut Mon, t: &Tle) {
    let Some(got) = m.call("Elements::from_tle", || tle_json(t), || {
        sgp4::Elements::from_tle(t.name.clone(), &t.line1, &t.line2)
    }) else {
        return;
    };
    m.eval();
    match got {
        Err(e) => m.violate(format!("a well-formed TLE was refused: {e}"), tle_json(t)),
        Ok(e) => {
            let d = differences(t, &t.name, &e);
            if !d.is_empty() {
                m.violate(format!("decoded values differ from those written: {}", d.join("; ")), tle_json(t));
            }
        }
    }
}

fn c08(m: &mut Mon, r: &mut Rng) {
    let t = if r.chance(0.8) { generate(r) } else { tlegen::plausible(r) };
    decode(m, &t);
    let mut key = vec![8];
    key.extend(&t.class);
    m.cell(&key);
    m.count(if t.designator.is_some() { "with designator" } else { "blank designator" });
    if t.day == 366 {
        m.count("day 366");
    }
    if t.year < 1958 || t.year >= 2056 {
        m.count("next to the century pivot");
    }
    m.sample(|| tle_json(&t));
}

/// Sweeps of single fields through their whole range
fn c08_fixed(m: &mut Mon, index: u64) -> bool {
    let mut r = Rng::new(808, index);
    let mut t = generate(&mut r);
    match index {
        // every day of every year
        0..=99 => {
            let yy = index as i32;
            let year = if yy < 57 { 2000 + yy } else { 1900 + yy };
            for day in 1..=(if is_leap(year) { 366 } else { 365 }) {
                let frac = (day as u64 * 7_919_431 + index * 104_729) % 100_000_000;
                t.year = year;
                t.day = day;
                t.frac = frac;
                t.line1[18..32].copy_from_slice(format!("{yy:02}{day:03}.{frac:08}").as_bytes());
                fix_checksum(&mut t.line1);
                decode(m, &t);
            }
            m.add("epoch days swept", 365);
            m.cell(&[80, index]);
        }
        // every catalogue number and revolution number
        100..=199 => {
            for k in 0..1000 {
                let id = (index - 100) * 1000 + k;
                t.norad_id = id;
                t.revolution = 99_999 - id;
                t.line1[2..7].copy_from_slice(format!("{id:>5}").as_bytes());
                t.line2[2..7].copy_from_slice(format!("{id:05}").as_bytes());
                t.line2[63..68].copy_from_slice(format!("{:>5}", 99_999 - id).as_bytes());
                fix_checksum(&mut t.line1);
                fix_checksum(&mut t.line2);
                decode(m, &t);
            }
            m.cell(&[81, index]);
        }
        // exponents and signs of the assumed-point fields, ephemeris types, designator years, element sets
        200..=299 => {
            let k = index - 200;
            for mantissa in [0u64, 1, 10000, 12345, 54321, 99999] {
                for sign in [' ', '-', '+'] {
                    let es = if k % 20 < 10 { '-' } else { '+' };
                    let e = k % 10;
                    let field = format!("{sign}{mantissa:05}{es}{e}");
                    let value = format!("{}0.{mantissa:05}e{es}{e}", if sign == '-' { "-" } else { "" });
                    t.ddot = value.clone();
                    t.bstar = value;
                    t.line1[44..52].copy_from_slice(field.as_bytes());
                    t.line1[53..61].copy_from_slice(field.as_bytes());
                    t.ephemeris_type = e as u8;
                    t.line1[62] = b'0' + e as u8;
                    let year = if k < 57 { 2000 + k } else { 1900 + k };
                    t.designator = Some(format!("{year}-{:03}A", mantissa % 1000));
                    t.line1[9..17].copy_from_slice(format!("{k:02}{:03}A  ", mantissa % 1000).as_bytes());
                    fix_checksum(&mut t.line1);
                    decode(m, &t);
                }
            }
            for k in 0..100 {
                let set = (index - 200) * 100 + k;
                t.element_set = set;
                t.line1[64..68].copy_from_slice(format!("{set:>4}").as_bytes());
                fix_checksum(&mut t.line1);
                decode(m, &t);
            }
            m.cell(&[82, index]);
        }
        // angles, eccentricity, mean motion and its derivative digit by digit
        300..=399 => {
            let k = index - 300;
            for d in 0..200 {
                let a = (k * 200 + d) * 180 % 3_600_000;
                let field = format!("{:>3}.{:04}", a / 10000, a % 10000);
                for (place, what) in [(8usize, 0), (17, 1), (34, 2), (43, 3)] {
                    t.line2[place..place + 8].copy_from_slice(field.as_bytes());
                    let v = field.trim().to_string();
                    match what {
                        0 => t.inclination = v,
                        1 => t.node = v,
                        2 => t.argp = v,
                        _ => t.anomaly = v,
                    }
                }
                let e = (k * 200 + d) * 499 % 10_000_000;
                t.eccentricity = format!("0.{e:07}");
                t.line2[26..33].copy_from_slice(format!("{e:07}").as_bytes());
                let n = (k * 200 + d) * 84_999 % 1_800_000_000;
                t.motion = format!("{}.{:08}", n / 100_000_000, n % 100_000_000);
                t.line2[52..63].copy_from_slice(format!("{:>11}", t.motion).as_bytes());
                let dot = (k * 200 + d) * 4_999 % 100_000_000;
                let sign = if d % 2 == 0 { ' ' } else { '-' };
                t.dot = format!("{}0.{dot:08}", if d % 2 == 0 { "" } else { "-" });
                t.line1[33..43].copy_from_slice(format!("{sign}.{dot:08}").as_bytes());
                fix_checksum(&mut t.line1);
                fix_checksum(&mut t.line2);
                decode(m, &t);
            }
            m.cell(&[83, index]);
        }
        _ => return false,
    }
    true
}

/// What an error says about itself
#[derive(Debug, Clone, PartialEq)]
pub struct Report {
    pub kind: String,
    /// 0 both
    pub line: u8,
    pub start: usize,
    pub end: usize,
}

pub const KINDS: [(&str, &str); 13] = [
    ("BadChecksum", "checksum"),
    ("BadLength", "length"),
    ("BadFirstCharacter", "first character"),
    ("ExpectedFloatWithAssumedDecimalPoint", "assumed decimal point"),
    ("ExpectedFloat", "float"),
    ("ExpectedInteger", "integer"),
    ("ExpectedSpace", "space"),
    ("ExpectedString", "string"),
    ("FloatWithAssumedDecimalPointTooLong", "assumed decimal point"),
    ("NoradIdMismatch", "NORAD"),
    ("UnknownClassification", "classification"),
    ("FromYoOptFailed", "year"),
    ("FromNumSecondsFromMidnightFailed", "seconds"),
];

fn word(haystack: &str, needle: &str) -> bool {
    haystack
        .split(|c: char| !c.is_ascii_alphanumeric())
        .any(|w| w == needle)
}

pub fn report(e: &sgp4::TleError) -> Result<Report, String> {
    let (debug, display) = (format!("{e:?}"), e.to_string());
    let Some((kind, phrase)) = KINDS.iter().find(|(k, _)| word(&debug, k)) else {
        return Err(format!("no kind of error in {debug:?}"));
    };
    if !display.contains(phrase) {
        return Err(format!("the message {display:?} does not name the defect ({kind})"));
    }
    let line = if display.contains("on TLE line 1") {
        1
    } else if display.contains("on TLE line 2") {
        2
    } else if display.contains("lines mismatch") {
        0
    } else {
        return Err(format!("the message {display:?} does not name the line"));
    };
    let numbers: Vec<usize> = display
        .split("between characters ")
        .nth(1)
        .map(|rest| rest.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect())
        .unwrap_or_default();
    if numbers.len() != 2 {
        return Err(format!("the message {display:?} does not give the character range"));
    }
    Ok(Report { kind: kind.to_string(), line, start: numbers[0], end: numbers[1] })
}

struct Want {
    kinds: &'static [&'static str],
    line: u8,
    start: usize,
    end: usize,
    /// the reported range may be any part of this one
    within: bool,
}

fn want(kinds: &'static [&'static str], line: u8, start: usize, end: usize) -> Want {
    Want { kinds, line, start, end, within: false }
}

fn matches(w: &Want, r: &Report) -> bool {
    w.kinds.contains(&r.kind.as_str())
        && w.line == r.line
        && if w.within {
            if (w.start, w.end) == (18, 32) {
                // the date is two fields, either or both may be named
                [(18, 20), (20, 32), (18, 32)].contains(&(r.start, r.end))
            } else {
                r.start >= w.start && r.end <= w.end && r.start < r.end
            }
        } else {
            r.start == w.start && r.end == w.end
        }
}

/// Feeds a damaged pair; `name` is the kind of defect
fn reject(m: &mut Mon, name: &'static str, l1: &[u8], l2: &[u8], accepted: &[Want], repaired: bool, column: usize) -> bool {
    let detail = || json!({"defect": name, "column": column, "line1": text(l1), "line2": text(l2), "line1_bytes": l1, "line2_bytes": l2});
    let Some(got) = m.call("Elements::from_tle", detail, || sgp4::Elements::from_tle(None, l1, l2)) else {
        return false;
    };
    m.eval();
    let e = match got {
        Ok(_) => {
            m.violate(format!("a corrupted TLE was accepted ({name}, column {column})"), detail());
            return false;
        }
        Err(e) => e,
    };
    let r = match report(&e) {
        Ok(r) => r,
        Err(text) => {
            m.violate(text, detail());
            return false;
        }
    };
    if !accepted.iter().any(|w| matches(w, &r)) {
        m.violate(
            format!(
                "the error for {name} at column {column} is {} on line {} {}..{}, expected {}",
                r.kind,
                r.line,
                r.start,
                r.end,
                accepted
                    .iter()
                    .map(|w| format!("{} on line {} {}..{}", w.kinds[0], w.line, w.start, w.end))
                    .collect::<Vec<_>>()
                    .join(" or ")
            ),
            detail(),
        );
        return false;
    }
    m.count(name);
    m.cell(&[
        crate::core::hash_str(name),
        r.line as u64,
        column as u64,
        repaired as u64,
        crate::core::hash_str(&r.kind),
    ]);
    true
}

const SPACES: [&[usize]; 2] = [&[1, 8, 17, 32, 43, 52, 61, 63], &[1, 7, 16, 25, 33, 42, 51]];
const INTEGER: &[&str] = &["ExpectedInteger"];
const FLOAT: &[&str] = &["ExpectedFloat"];
const ASSUMED: &[&str] = &["ExpectedFloatWithAssumedDecimalPoint", "FloatWithAssumedDecimalPointTooLong", "ExpectedFloat"];
const ANY_NUMBER: &[&str] = &["ExpectedFloat", "ExpectedInteger", "ExpectedFloatWithAssumedDecimalPoint"];

/// (line, first column, end, kinds of error)
const FIELDS: [(u8, usize, usize, &[&str]); 19] = [
    (1, 2, 7, INTEGER),
    (2, 2, 7, INTEGER),
    (1, 9, 11, INTEGER),
    (1, 18, 20, ANY_NUMBER),
    (1, 20, 32, FLOAT),
    (1, 33, 43, FLOAT),
    (1, 44, 50, ASSUMED),
    (1, 50, 52, ANY_NUMBER),
    (1, 53, 59, ASSUMED),
    (1, 59, 61, ANY_NUMBER),
    (1, 62, 63, INTEGER),
    (1, 64, 68, INTEGER),
    (2, 8, 16, FLOAT),
    (2, 17, 25, FLOAT),
    (2, 26, 33, ASSUMED),
    (2, 34, 42, FLOAT),
    (2, 43, 51, FLOAT),
    (2, 52, 63, FLOAT),
    (2, 63, 68, INTEGER),
];

/// bytes that no number contains
const JUNK: &[u8] = b"ABCDGHJKLMOPQRSUVWXZabcdghjklmopqrsuvwxz!#$%&*/:;<=>?@[]^_`{|}~\x00\x01\x7f\x80\xa0\xc3\xff";

const NOT_FINITE: &[&str] = &[
    "nan", "NaN", "NAN", "-nan", "+NaN", "inf", "Inf", "INF", "-inf", "+inf", "infinity", "Infinity", "-Infinity", "1e999", "-1E999", "9.9e400",
];

/// after an assumed decimal point
const HUGE: &[&str] = &["1e999", "-1e999", "+9e999", "9E400", "nan", "inf", "-nan", "+inf"];

fn bad_sum(line: u8) -> Want {
    want(&["BadChecksum"], line, 68, 69)
}

/// Damages one line, with and without a repaired checksum
fn damage(m: &mut Mon, name: &'static str, t: &Tle, line: u8, column: usize, edit: &dyn Fn(&mut Vec<u8>), specific: impl Fn() -> Want) -> bool {
    for repaired in [true, false] {
        let (mut l1, mut l2) = (t.line1.clone(), t.line2.clone());
        let l = if line == 1 { &mut l1 } else { &mut l2 };
        let before = l.clone();
        edit(l);
        if *l == before {
            return true;
        }
        if repaired {
            fix_checksum(l);
        }
        let accepted = if repaired { vec![specific()] } else { vec![specific(), bad_sum(line)] };
        if !reject(m, name, &l1, &l2, &accepted, repaired, column) {
            return false;
        }
    }
    true
}

fn c09(m: &mut Mon, r: &mut Rng) {
    let t = if r.chance(0.5) { generate(r) } else { tlegen::plausible(r) };
    // the undamaged pair is accepted
    let Some(clean) = m.call("Elements::from_tle", || tle_json(&t), || sgp4::Elements::from_tle(None, &t.line1, &t.line2)) else { return };
    m.eval();
    if let Err(e) = clean {
        m.violate(format!("an undamaged TLE was refused: {e}"), tle_json(&t));
        return;
    }
    m.sample(|| tle_json(&t));
    if !digits(m, &t) || !lengths(m, r, &t) || !structure(m, r, &t) || !fields(m, r, &t) || !dates(m, r, &t) {
        m.count("cases cut short by a violation");
    }
}

/// every digit replaced by every other digit
fn digits(m: &mut Mon, t: &Tle) -> bool {
    for line in [1u8, 2] {
        let clean = if line == 1 { &t.line1 } else { &t.line2 };
        for column in 0..69 {
            if !clean[column].is_ascii_digit() {
                continue;
            }
            for d in b'0'..=b'9' {
                if d == clean[column] {
                    continue;
                }
                let (mut l1, mut l2) = (t.line1.clone(), t.line2.clone());
                (if line == 1 { &mut l1 } else { &mut l2 })[column] = d;
                let mut accepted = vec![bad_sum(line)];
                if column == 0 {
                    accepted = vec![want(&["BadFirstCharacter"], line, 0, 1)];
                } else if (2..7).contains(&column) {
                    accepted.push(want(&["NoradIdMismatch"], 0, 2, 7));
                } else if line == 1 && (18..32).contains(&column) {
                    accepted.push(Want { kinds: &["FromYoOptFailed"], line, start: 18, end: 32, within: true });
                }
                if !reject(m, "digit substitution", &l1, &l2, &accepted, false, column) {
                    return false;
                }
            }
        }
        // signs count too
        for column in 0..68 {
            if clean[column] == b'-' {
                for c in [b' ', b'+'] {
                    let (mut l1, mut l2) = (t.line1.clone(), t.line2.clone());
                    (if line == 1 { &mut l1 } else { &mut l2 })[column] = c;
                    let number = Want { kinds: ANY_NUMBER, line, start: 18, end: 68, within: true };
                    if !reject(m, "minus sign lost", &l1, &l2, &[bad_sum(line), number], false, column) {
                        return false;
                    }
                }
            }
        }
        // the checksum column holds something else
        for c in [b' ', b'-', b'A', b'/', b':', b'.', 0, b'0' - 1, b'9' + 1, 0x80, 0xff, b'0' + 10] {
            let (mut l1, mut l2) = (t.line1.clone(), t.line2.clone());
            (if line == 1 { &mut l1 } else { &mut l2 })[68] = c;
            if !reject(m, "checksum column", &l1, &l2, &[bad_sum(line)], false, c as usize) {
                return false;
            }
        }
    }
    true
}

fn lengths(m: &mut Mon, r: &mut Rng, t: &Tle) -> bool {
    for line in [1u8, 2] {
        for k in 0..6 {
            let (mut l1, mut l2) = (t.line1.clone(), t.line2.clone());
            let l = if line == 1 { &mut l1 } else { &mut l2 };
            let column = match k {
                0 => {
                    l.truncate(r.below(69) as usize);
                    l.len()
                }
                1 => {
                    l.pop();
                    68
                }
                2 => {
                    l.push(r.pick(b" \r\n0\t\0"));
                    70
                }
                3 => {
                    let at = r.below(69) as usize;
                    l.insert(at, b' ');
                    70
                }
                4 => {
                    let at = r.below(69) as usize;
                    l.remove(at);
                    68
                }
                _ => {
                    let n = r.below(300) as usize + 1;
                    l.extend(std::iter::repeat_n(b' ', n));
                    l.len()
                }
            };
            let end = l.len();
            if !reject(m, "length", &l1, &l2, &[want(&["BadLength"], line, 0, end)], false, column) {
                return false;
            }
        }
    }
    true
}

fn structure(m: &mut Mon, r: &mut Rng, t: &Tle) -> bool {
    // line numbers
    for line in [1u8, 2] {
        for _ in 0..3 {
            let right = b'0' + line;
            let c = loop {
                let c = match r.below(3) {
                    0 => b'0' + r.below(10) as u8,
                    1 => b' ',
                    _ => r.below(256) as u8,
                };
                if c != right {
                    break c;
                }
            };
            if !damage(m, "line number", t, line, c as usize, &|l| l[0] = c, || want(&["BadFirstCharacter"], line, 0, 1)) {
                return false;
            }
        }
        for &column in SPACES[line as usize - 1] {
            let c = loop {
                let c = match r.below(3) {
                    0 => r.pick(b"0123456789.-+"),
                    1 => r.pick(b"\t\n\r\x0c\x0b_A"),
                    _ => r.below(256) as u8,
                };
                if c != b' ' {
                    break c;
                }
            };
            if !damage(m, "separator", t, line, column, &|l| l[column] = c, || want(&["ExpectedSpace"], line, column, column + 1)) {
                return false;
            }
        }
    }
    // swapped and repeated lines
    if !reject(m, "lines swapped", &t.line2, &t.line1, &[want(&["BadFirstCharacter"], 1, 0, 1), want(&["BadFirstCharacter"], 2, 0, 1)], true, 0)
        || !reject(m, "line repeated", &t.line1, &t.line1, &[want(&["BadFirstCharacter"], 2, 0, 1)], true, 0)
        || !reject(m, "line repeated", &t.line2, &t.line2, &[want(&["BadFirstCharacter"], 1, 0, 1)], true, 1)
    {
        return false;
    }
    // classification
    for _ in 0..3 {
        let c = loop {
            let c = if r.chance(0.5) { r.pick(b"TDVBRucs 0-") } else { r.below(256) as u8 };
            if !b"UCS".contains(&c) {
                break c;
            }
        };
        if !damage(m, "classification", t, 1, c as usize, &|l| l[7] = c, || want(&["UnknownClassification"], 1, 7, 8)) {
            return false;
        }
    }
    // catalogue number of the other line
    for line in [1u8, 2] {
        let other = loop {
            let id = match r.below(6) {
                0 => t.norad_id ^ 1,
                4 => t.norad_id ^ (1 << r.below(17)),
                5 => {
                    // the same digits in another order
                    let mut digits = format!("{:05}", t.norad_id).into_bytes();
                    digits.swap(r.below(5) as usize, r.below(5) as usize);
                    text(&digits).parse().unwrap()
                }
                1 => (t.norad_id + 10_000) % 100_000,
                2 => (t.norad_id + 10u64.pow(r.below(5) as u32)) % 100_000,
                _ => r.below(100_000),
            };
            if id != t.norad_id && id < 100_000 {
                break id;
            }
        };
        let field = if r.chance(0.5) { format!("{other:05}") } else { format!("{other:>5}") };
        if !damage(m, "catalogue number mismatch", t, line, 2, &|l| l[2..7].copy_from_slice(field.as_bytes()), || {
            want(&["NoradIdMismatch"], 0, 2, 7)
        }) {
            return false;
        }
    }
    true
}

fn fields(m: &mut Mon, r: &mut Rng, t: &Tle) -> bool {
    for (line, start, end, kinds) in FIELDS {
        if start == 9 && t.designator.is_none() {
            continue;
        }
        let w = || want(kinds, line, start, end);
        // a byte that does not belong
        for _ in 0..2 {
            let column = start + r.below((end - start) as u64) as usize;
            let c = r.pick(JUNK);
            if !damage(m, "foreign byte in a number", t, line, column, &|l| l[column] = c, w) {
                return false;
            }
        }
        // nothing there (a blank designator is allowed)
        if start != 9
            && !damage(m, "blank field", t, line, start, &|l| l[start..end].fill(b' '), w)
        {
            return false;
        }
        // a gap inside the number
        if end - start >= 4 {
            let l = if line == 1 { &t.line1 } else { &t.line2 };
            let first = (start..end).find(|c| l[*c] != b' ').unwrap_or(start);
            if first + 2 < end {
                let column = first + 1 + r.below((end - first - 2) as u64) as usize;
                if l[column - 1] != b'+'
                    && !damage(m, "gap in a number", t, line, column, &|l| l[column] = b' ', w)
                {
                    return false;
                }
            }
        }
        // a sign alone, two points, an inner minus sign
        if end - start >= 6 {
            if !damage(m, "sign without digits", t, line, start, &|l| { l[start..end].fill(b' '); l[end - 1] = b'-'; }, w) {
                return false;
            }
            let column = end - 2;
            if !damage(m, "inner minus sign", t, line, column, &|l| l[column] = b'-', w) {
                return false;
            }
            let has_point = (if line == 1 { &t.line1 } else { &t.line2 })[start..end].contains(&b'.');
            let assumed = kinds == ASSUMED;
            if (has_point || assumed)
                && (if line == 1 { &t.line1 } else { &t.line2 })[end - 1] != b'.'
                && !damage(m, "second decimal point", t, line, end - 1, &|l| l[end - 1] = b'.', w)
            {
                return false;
            }
        }
        // words and exponents that a float parser takes for NaN or infinity
        if end - start >= 6 && kinds != INTEGER {
            let token = r.pick(if kinds == ASSUMED { HUGE } else { NOT_FINITE });
            let width = end - start;
            if token.len() <= width {
                let text = if r.chance(0.7) { format!("{token:>width$}") } else { format!("{token:<width$}") };
                let w = || {
                    if start == 20 {
                        Want { kinds: &["ExpectedFloat", "FromYoOptFailed"], line: 1, start: 18, end: 32, within: true }
                    } else {
                        w()
                    }
                };
                if !damage(m, "not a finite number", t, line, start, &|l| l[start..end].copy_from_slice(text.as_bytes()), w) {
                    return false;
                }
            }
        }
        // negative where only counts are allowed
        if kinds == INTEGER && end - start >= 2 {
            if !damage(m, "negative count", t, line, start, &|l| { l[start..end].fill(b'0'); l[start] = b'-'; l[end - 1] = b'7'; }, w) {
                return false;
            }
            if !damage(m, "fraction in a count", t, line, start, &|l| { l[start..end].fill(b'1'); l[end - 1] = b'.'; }, w) {
                return false;
            }
        }
    }
    // a designator that is not text
    if t.designator.is_some() {
        let column = 11 + r.below(6) as usize;
        let c = r.pick(&[0x80u8, 0xff, 0xc3, 0xa9, 0xf0]);
        if !damage(m, "designator not text", t, 1, column, &|l| l[column] = c, || want(&["ExpectedString"], 1, 11, 17)) {
            return false;
        }
    }
    true
}

fn dates(m: &mut Mon, r: &mut Rng, t: &Tle) -> bool {
    let days: &[u32] = if is_leap(t.year) { &[0, 367, 368, 400, 500, 999] } else { &[0, 366, 367, 400, 730, 999] };
    for &day in days {
        let frac = r.below(100_000_000);
        let field = if r.chance(0.5) { format!("{day:03}.{frac:08}") } else { format!("{day:>3}.{frac:08}") };
        if !damage(m, "date that does not exist", t, 1, day as usize, &|l| l[20..32].copy_from_slice(field.as_bytes()), || Want {
            kinds: &["FromYoOptFailed"],
            line: 1,
            start: 18,
            end: 32,
            within: true,
        }) {
            return false;
        }
    }
    // every year of the other kind with day 366
    let yy = r.below(100);
    let year = if yy < 57 { 2000 + yy } else { 1900 + yy } as i32;
    if !is_leap(year) {
        let field = format!("{yy:02}366.00000000");
        if !damage(m, "day 366 of a common year", t, 1, yy as usize, &|l| l[18..32].copy_from_slice(field.as_bytes()), || Want {
            kinds: &["FromYoOptFailed"],
            line: 1,
            start: 18,
            end: 32,
            within: true,
        }) {
            return false;
        }
    }
    // negative days
    damage(m, "negative day", t, 1, 20, &|l| l[20..32].copy_from_slice(b"-01.50000000"), || Want {
        kinds: &["FromYoOptFailed", "FromNumSecondsFromMidnightFailed", "ExpectedFloat"],
        line: 1,
        start: 18,
        end: 32,
        within: true,
    })
}

// ---- lists ----

struct Group {
    name: String,
    line1: String,
    line2: String,
    valid: bool,
}

fn group(r: &mut Rng, three: bool) -> Group {
    let t = generate(r);
    Group {
        name: if three { tlegen::name_line(r) } else { String::new() },
        line1: text(&t.line1),
        line2: text(&t.line2),
        valid: true,
    }
}

/// damages a group without changing its number of lines
fn spoil(r: &mut Rng, g: &mut Group) -> u64 {
    g.valid = false;
    let kind = r.below(7);
    let edit = |s: &mut String, f: &dyn Fn(&mut Vec<u8>)| {
        let mut b = s.clone().into_bytes();
        f(&mut b);
        *s = String::from_utf8(b).expect("ascii");
    };
    match kind {
        0 => {
            let l = if r.chance(0.5) { &mut g.line1 } else { &mut g.line2 };
            edit(l, &|b| b[68] = b'0' + (b[68] - b'0' + 1) % 10);
        }
        1 => {
            let l = if r.chance(0.5) { &mut g.line1 } else { &mut g.line2 };
            edit(l, &|b| b.truncate(40));
        }
        2 => edit(&mut g.line1, &|b| {
            b[7] = b'X';
        }),
        3 => std::mem::swap(&mut g.line1, &mut g.line2),
        4 => {
            let l = if r.chance(0.5) { &mut g.line1 } else { &mut g.line2 };
            l.push(' ');
        }
        5 => edit(&mut g.line2, &|b| {
            b[16] = b'_';
        }),
        _ => edit(&mut g.line2, &|b| {
            b[10] = b'Q';
            fix_checksum(b);
        }),
    }
    kind
}

fn c11(m: &mut Mon, r: &mut Rng) {
    if r.chance(0.2) {
        return shifted(m, r);
    }
    let three = r.chance(0.5);
    let count = match r.below(20) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 if m.thorough => r.below(3000),
        3 => r.below(300),
        _ => r.below(30),
    } as usize;
    let mut groups: Vec<Group> = (0..count).map(|_| group(r, three)).collect();
    let mut spoilt = Vec::new();
    if count > 0 && r.chance(0.5) {
        let first = r.below(count as u64) as usize;
        spoilt.push((first, spoil(r, &mut groups[first])));
        // later ones must not be reported instead
        if r.chance(0.5) && first + 1 < count {
            let second = first + 1 + r.below((count - first - 1) as u64) as usize;
            spoil(r, &mut groups[second]);
        }
    }
    let style = r.below(3);
    let last = r.chance(0.5);
    list(m, r, three, &groups, style, last, spoilt.first().map(|(i, k)| (*i, *k)));
}

/// A line too many or too few: the groups from there on are made of the wrong lines
fn shifted(m: &mut Mon, r: &mut Rng) {
    let three = r.chance(0.5);
    let size = if three { 3 } else { 2 };
    let count = 1 + r.below(8) as usize;
    let mut lines: Vec<String> = Vec::new();
    for _ in 0..count {
        let g = group(r, three);
        if three {
            lines.push(g.name);
        }
        lines.push(g.line1);
        lines.push(g.line2);
    }
    let at = r.below(lines.len() as u64) as usize;
    let kind = r.below(7);
    match kind {
        0 => lines.insert(at, String::new()),
        1 => lines.insert(at, " ".repeat(1 + r.below(80) as usize)),
        2 => lines.insert(at, r.pick(&["# comment", "#", "// comment", "0 NAME", "NAME", "---", "\t"]).to_string()),
        3 => {
            let again = lines[r.below(lines.len() as u64) as usize].clone();
            lines.insert(at, again);
        }
        4 => {
            lines.remove(at);
        }
        5 => {
            let next = (at + 1) % lines.len();
            lines.swap(at, next);
        }
        _ => {
            // two lines on one
            if at + 1 < lines.len() {
                let next = lines.remove(at + 1);
                lines[at].push_str(&next);
            }
        }
    }
    let mut content = lines.join("\n");
    if r.chance(0.8) || lines.last().is_some_and(|l| l.is_empty()) {
        content.push('\n');
    }
    let detail = || json!({"three_lines": three, "text": content});
    let mut entries = Vec::new();
    let mut refusal = None;
    for (k, chunk) in lines.chunks_exact(size).enumerate() {
        let name = if three { Some(chunk[0].clone()) } else { None };
        let Some(alone) = m.call("Elements::from_tle", detail, || {
            sgp4::Elements::from_tle(name, chunk[size - 2].as_bytes(), chunk[size - 1].as_bytes())
        }) else {
            return;
        };
        match alone {
            Ok(e) => entries.push(e),
            Err(e) => {
                refusal = Some((k, report(&e)));
                break;
            }
        }
    }
    let Some(got) = m.call("parse_2les/parse_3les", detail, || {
        if three {
            sgp4::parse_3les(&content)
        } else {
            sgp4::parse_2les(&content)
        }
    }) else {
        return;
    };
    m.eval();
    match (got, &refusal) {
        (Ok(list), Some((k, why))) => {
            m.violate(format!("a list whose group {k} is invalid ({why:?}) was accepted with {} entries", list.len()), detail());
            return;
        }
        (Err(e), Some((k, why))) => {
            if report(&e) != *why || why.is_err() {
                m.violate(format!("the list reports {:?}, its first invalid group {k} reports {why:?}", report(&e)), detail());
                return;
            }
            m.count("lists refused for a line too many or too few");
        }
        // lines left over at the end may be ignored or refused
        (Err(e), None) => {
            if lines.len() % size == 0 {
                m.violate(format!("a list of valid groups was refused: {e}"), detail());
                return;
            }
        }
        (Ok(list), None) => {
            if list.len() != entries.len() {
                m.violate(format!("{} groups gave {} entries", entries.len(), list.len()), detail());
                return;
            }
            for (k, (a, b)) in list.iter().zip(&entries).enumerate() {
                if let Some(d) = elements_differ(a, b, 0, 0) {
                    m.violate(format!("entry {k} differs from its group alone: {d}"), detail());
                    return;
                }
            }
            m.count("lists with lines left over");
        }
    }
    m.cell(&[77, three as u64, kind, (at % size) as u64, refusal.map_or(99, |f| f.0 as u64)]);
}

fn list(m: &mut Mon, r: &mut Rng, three: bool, groups: &[Group], style: u64, last: bool, spoilt: Option<(usize, u64)>) {
    let mut lines: Vec<&str> = Vec::new();
    for g in groups {
        if three {
            lines.push(&g.name);
        }
        lines.push(&g.line1);
        lines.push(&g.line2);
    }
    let mut content = String::new();
    for (k, l) in lines.iter().enumerate() {
        content.push_str(l);
        if k + 1 < lines.len() || last {
            content.push_str(match style {
                0 => "\n",
                1 => "\r\n",
                _ => {
                    if r.chance(0.5) {
                        "\n"
                    } else {
                        "\r\n"
                    }
                }
            });
        }
    }
    let detail = || {
        let shown: String = content.chars().take(3000).collect();
        json!({"three_lines": three, "groups": groups.len(), "text": shown, "invalid_group": spoilt.map(|s| s.0)})
    };
    let Some(got) = m.call("parse_2les/parse_3les", detail, || {
        if three {
            sgp4::parse_3les(&content)
        } else {
            sgp4::parse_2les(&content)
        }
    }) else {
        return;
    };
    m.eval();
    let single = |g: &Group| {
        sgp4::Elements::from_tle(
            if three { Some(g.name.clone()) } else { None },
            g.line1.as_bytes(),
            g.line2.as_bytes(),
        )
    };
    let first_bad = groups.iter().position(|g| !g.valid);
    match (got, first_bad) {
        (Ok(list), None) => {
            if list.len() != groups.len() {
                m.violate(format!("{} groups gave {} entries", groups.len(), list.len()), detail());
                return;
            }
            for (k, (e, g)) in list.iter().zip(groups).enumerate() {
                let Some(alone) = m.call("Elements::from_tle", detail, || single(g)) else { return };
                m.eval();
                match alone {
                    Ok(a) => {
                        if let Some(d) = elements_differ(e, &a, 0, 0) {
                            m.violate(format!("entry {k} differs from its group alone: {d}"), detail());
                            return;
                        }
                        if three && e.object_name.as_deref() != Some(g.name.as_str()) || !three && e.object_name.is_some() {
                            m.violate(format!("entry {k} has name {:?}, its name line is {:?}", e.object_name, g.name), detail());
                            return;
                        }
                    }
                    Err(x) => {
                        m.violate(format!("group {k} alone is refused ({x}) but the list is accepted"), detail());
                        return;
                    }
                }
            }
            m.add("entries compared", groups.len() as u64);
        }
        (Err(e), Some(k)) => {
            let Some(alone) = m.call("Elements::from_tle", detail, || single(&groups[k])) else { return };
            let expected = match alone {
                Err(x) => x,
                Ok(_) => {
                    m.violate(format!("the damaged group {k} is accepted alone"), detail());
                    return;
                }
            };
            let (a, b) = (report(&e), report(&expected));
            if a != b || a.is_err() {
                m.violate(format!("the list reports {a:?}, its first invalid group {k} reports {b:?}"), detail());
                return;
            }
            m.count("lists refused for an invalid group");
        }
        (Ok(list), Some(k)) => {
            m.violate(format!("a list with invalid group {k} was accepted with {} entries", list.len()), detail());
            return;
        }
        (Err(e), None) => {
            m.violate(format!("a list of valid groups was refused: {e}"), detail());
            return;
        }
    }
    let size = 64 - (groups.len() as u64).leading_zeros() as u64;
    let place = match spoilt {
        None => 0,
        Some((k, kind)) => {
            1 + kind * 4
                + if k == 0 {
                    0
                } else if k + 1 == groups.len() {
                    1
                } else {
                    2
                }
        }
    };
    m.cell(&[three as u64, style, last as u64, size, place]);
    m.max("largest list", groups.len() as f64);
    m.sample(|| json!({"three_lines": three, "groups": groups.len(), "style": style, "final_line_end": last, "invalid_group": spoilt.map(|s| s.0)}));
}

/// Invalid group at every position, every style; special name lines; empty texts
fn c11_fixed(m: &mut Mon, index: u64) -> bool {
    let mut r = Rng::new(1111, index);
    match index {
        0 => {
            for (three, content) in [(false, ""), (true, "")] {
                let Some(got) = m.call("parse of an empty text", || json!({}), || {
                    if three {
                        sgp4::parse_3les(content)
                    } else {
                        sgp4::parse_2les(content)
                    }
                }) else {
                    continue;
                };
                m.eval();
                match got {
                    Ok(l) if l.is_empty() => (),
                    _ => m.violate("an empty text does not give an empty list".into(), json!({"three": three})),
                }
            }
        }
        1..=48 => {
            let k = index - 1;
            let three = k % 2 == 0;
            let n = 8;
            let style = k / 2 % 3;
            let bad = (k / 6) as usize;
            for kind in 0..4 {
                for last in [false, true] {
                    let mut groups: Vec<Group> = (0..n).map(|_| group(&mut r, three)).collect();
                    let spoilt = if kind == 0 { None } else { Some((bad, spoil(&mut r, &mut groups[bad]))) };
                    list(m, &mut r, three, &groups, style, last, spoilt);
                }
            }
        }
        49..=60 => {
            let names = [
                "",
                " ",
                "\t",
                "1",
                "2 ",
                "0 NAME",
                "#comment",
                "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927",
                "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537",
                "trailing   ",
                "   leading",
                "衛星 ✓ \u{85} \u{2028} \u{a0}",
            ];
            let mut groups: Vec<Group> = (0..5).map(|_| group(&mut r, true)).collect();
            for g in groups.iter_mut() {
                g.name = names[(index - 49) as usize].to_string();
            }
            for style in 0..3 {
                for last in [false, true] {
                    list(m, &mut r, true, &groups, style, last, None);
                }
            }
        }
        61 => {
            let n = if m.thorough { 20_000 } else { 5_000 };
            for three in [false, true] {
                let groups: Vec<Group> = (0..n).map(|_| group(&mut r, three)).collect();
                list(m, &mut r, three, &groups, 1, true, None);
            }
        }
        _ => return false,
    }
    true
}
