//! Generator of OMM JSON objects that knows the value written in every field.
use crate::rng::Rng;
use crate::tlegen::{days_from_civil, is_leap, Tle};
use sgp4::chrono::{NaiveDate, NaiveDateTime};

pub const FLOATS: [&str; 9] = [
    "MEAN_MOTION",
    "ECCENTRICITY",
    "INCLINATION",
    "RA_OF_ASC_NODE",
    "ARG_OF_PERICENTER",
    "MEAN_ANOMALY",
    "BSTAR",
    "MEAN_MOTION_DOT",
    "MEAN_MOTION_DDOT",
];
pub const COUNTS: [&str; 3] = ["NORAD_CAT_ID", "ELEMENT_SET_NO", "REV_AT_EPOCH"];
pub const REQUIRED: [&str; 15] = [
    "MEAN_MOTION",
    "ECCENTRICITY",
    "INCLINATION",
    "RA_OF_ASC_NODE",
    "ARG_OF_PERICENTER",
    "MEAN_ANOMALY",
    "BSTAR",
    "MEAN_MOTION_DOT",
    "MEAN_MOTION_DDOT",
    "NORAD_CAT_ID",
    "ELEMENT_SET_NO",
    "REV_AT_EPOCH",
    "EPHEMERIS_TYPE",
    "CLASSIFICATION_TYPE",
    "EPOCH",
];

#[derive(Clone)]
pub struct Omm {
    /// key, JSON text of the value
    pub pairs: Vec<(String, String)>,
    pub expected: sgp4::Elements,
    /// units in the last place that a number read as JSON may be off
    pub limit: u64,
    pub class: Vec<u64>,
}

pub fn quote(r: &mut Rng, s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            '/' if r.chance(0.5) => out.push_str("\\/"),
            c if (c as u32) < 0x10000 && r.chance(0.05) => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn digits(r: &mut Rng, n: u64) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

/// decimal text that is also a JSON number, and whether its exponent is ordinary
pub fn decimal(r: &mut Rng, what: &str) -> (String, bool, u64) {
    let sign = if r.chance(0.2) { "-" } else { "" };
    match r.below(14) {
        0 => ("0".into(), true, 0),
        1 => (format!("{sign}0.0"), true, 1),
        2 => (format!("{sign}{}", r.below(1000)), true, 2),
        3 => {
            let n = 8 + r.below(9);
            (format!("{sign}0.{}", digits(r, n)), true, 3)
        }
        4 => {
            let n = 1 + r.below(8);
            let e = r.range(-12, 12);
            let s = r.pick(&["e", "E"]);
            let plus = if e >= 0 && r.chance(0.5) { "+" } else { "" };
            (format!("{sign}{}.{}{s}{plus}{e}", 1 + r.below(9), digits(r, n)), true, 4)
        }
        5 => {
            let e = r.range(-290, 290);
            (format!("{sign}{}.{}e{e}", 1 + r.below(9), digits(r, 6)), false, 5)
        }
        6 => {
            let n = 17 + r.below(10);
            (format!("{sign}{}.{}", r.below(400), digits(r, n)), false, 6)
        }
        7 => (format!("{sign}{}", r.u64() >> r.below(40)), true, 7),
        _ => match what {
            "MEAN_MOTION" => (format!("{}.{}", r.below(18), digits(r, 8)), true, 8),
            "ECCENTRICITY" => (format!("0.{}", digits(r, 7)), true, 8),
            "BSTAR" | "MEAN_MOTION_DDOT" => (format!("{sign}0.{}e-{}", digits(r, 5), r.below(10)), true, 8),
            "MEAN_MOTION_DOT" => (format!("{sign}0.{}", digits(r, 8)), true, 8),
            _ => (format!("{}.{}", r.below(360), digits(r, 4)), true, 8),
        },
    }
}

pub fn count(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => u64::MAX,
        2 => (1 << 53) + r.below(3),
        3 => r.pick(&[99_999, 100_000, 999_999_999, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296]),
        4 => r.u64(),
        _ => r.below(100_000),
    }
}

pub fn date(r: &mut Rng) -> NaiveDateTime {
    let year = match r.below(8) {
        0 => r.range(1, 9999) as i32,
        1 => 2000,
        2 => 1956 + r.below(3) as i32,
        _ => r.range(1957, 2056) as i32,
    };
    let last = if is_leap(year) { 366 } else { 365 };
    let day = match r.below(5) {
        0 => 1,
        1 => last,
        2 => 59 + r.below(3) as u32,
        _ => 1 + r.below(last as u64) as u32,
    };
    let s = match r.below(5) {
        0 => 0,
        1 => 86399,
        _ => r.below(86400) as u32,
    };
    let ns = match r.below(6) {
        0 => 0,
        1 => 999_999_999,
        2 => r.below(1000) as u32 * 1_000_000,
        3 => r.below(1_000_000) as u32 * 1000,
        4 => 1,
        _ => r.below(1_000_000_000) as u32,
    };
    NaiveDate::from_yo_opt(year, day)
        .and_then(|d| d.and_hms_nano_opt(s / 3600, s / 60 % 60, s % 60, ns))
        .expect("date")
}

/// text with 0 to 9 fractional digits, enough for the value
pub fn date_text(r: &mut Rng, d: &NaiveDateTime) -> (String, u64) {
    use sgp4::chrono::{Datelike, Timelike};
    let ns = d.nanosecond();
    let mut n = 9;
    let mut f = ns;
    while n > 0 && f % 10 == 0 {
        f /= 10;
        n -= 1;
    }
    let n = if r.chance(0.5) { n } else { n + r.below(10 - n as u64) as usize };
    let mut s = format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
        d.year(),
        d.month(),
        d.day(),
        d.hour(),
        d.minute(),
        d.second()
    );
    if n > 0 {
        s.push('.');
        s.push_str(&format!("{ns:09}")[..n]);
    }
    (s, n as u64)
}

fn text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "ISS (ZARYA)".into(),
        2 => "\"quoted\" \\ back / slash\ttab\nnewline \u{1} ctrl".into(),
        3 => "衛星 ✓ é \u{10348}".into(),
        4 => "null".into(),
        _ => {
            let n = r.below(60);
            (0..n).map(|_| r.range(32, 126) as u8 as char).collect()
        }
    }
}

/// a float field: JSON text and value
pub fn float_field(r: &mut Rng, key: &str, class: &mut Vec<u64>, limit: &mut u64) -> (String, f64) {
    let (t, ordinary, c) = decimal(r, key);
    let string = r.chance(0.5);
    class.push(c * 2 + string as u64);
    let value: f64 = t.parse().expect("decimal");
    if string {
        let t = if t.starts_with("0.") && r.chance(0.1) {
            t[1..].to_string()
        } else if t.starts_with("-0.") && r.chance(0.1) {
            format!("-{}", &t[2..])
        } else {
            t
        };
        (format!("\"{t}\""), value)
    } else {
        if !ordinary {
            *limit = (*limit).max(8);
        }
        (t, value)
    }
}

fn count_field(r: &mut Rng, v: u64, class: &mut Vec<u64>) -> String {
    let string = r.chance(0.5);
    class.push(string as u64);
    if string {
        if r.chance(0.2) {
            format!("\"{v:05}\"")
        } else {
            format!("\"{v}\"")
        }
    } else {
        v.to_string()
    }
}

pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

pub fn generate(r: &mut Rng) -> Omm {
    let mut class = Vec::new();
    let mut limit = 2;
    let mut pairs: Vec<(String, String)> = Vec::new();
    let mut values = [0.0; 9];
    for (k, key) in FLOATS.iter().enumerate() {
        let (t, v) = float_field(r, key, &mut class, &mut limit);
        values[k] = v;
        pairs.push((key.to_string(), t));
    }
    let counts = [count(r), count(r), count(r)];
    for (k, key) in COUNTS.iter().enumerate() {
        pairs.push((key.to_string(), count_field(r, counts[k], &mut class)));
    }
    let ephemeris_type = r.pick(&[0, 0, 0, 1, 4, 9, 127, 128, 255]);
    pairs.push(("EPHEMERIS_TYPE".into(), if r.chance(0.5) { format!("\"{ephemeris_type}\"") } else { ephemeris_type.to_string() }));
    let (c, classification) = match r.below(3) {
        0 => ("U", sgp4::Classification::Unclassified),
        1 => ("C", sgp4::Classification::Classified),
        _ => ("S", sgp4::Classification::Secret),
    };
    class.push(r.below(1) + c.as_bytes()[0] as u64);
    pairs.push(("CLASSIFICATION_TYPE".into(), format!("\"{c}\"")));
    let datetime = date(r);
    let (t, n) = date_text(r, &datetime);
    class.push(n);
    pairs.push(("EPOCH".into(), format!("\"{t}\"")));
    let mut optional = |r: &mut Rng, key: &str| match r.below(4) {
        0 => None,
        1 => {
            pairs.push((key.into(), "null".into()));
            None
        }
        _ => {
            let s = text(r);
            let q = quote(r, &s);
            pairs.push((key.into(), q));
            Some(s)
        }
    };
    let object_name = optional(r, "OBJECT_NAME");
    let international_designator = optional(r, "OBJECT_ID");
    class.push(object_name.is_some() as u64 + 2 * international_designator.is_some() as u64);
    shuffle(r, &mut pairs);
    Omm {
        pairs,
        expected: sgp4::Elements {
            object_name,
            international_designator,
            norad_id: counts[0],
            classification,
            datetime,
            mean_motion_dot: values[7],
            mean_motion_ddot: values[8],
            drag_term: values[6],
            element_set_number: counts[1],
            inclination: values[2],
            right_ascension: values[3],
            eccentricity: values[1],
            argument_of_perigee: values[4],
            mean_anomaly: values[5],
            mean_motion: values[0],
            revolution_number: counts[2],
            ephemeris_type,
        },
        limit,
        class,
    }
}

/// the data of a TLE
pub fn from_tle(r: &mut Rng, t: &Tle) -> Vec<(String, String)> {
    let mut pairs: Vec<(String, String)> = Vec::new();
    let mut put = |r: &mut Rng, key: &str, text: String| {
        let s = if r.chance(0.5) { format!("\"{text}\"") } else { text };
        pairs.push((key.into(), s));
    };
    put(r, "MEAN_MOTION", t.motion.clone());
    put(r, "ECCENTRICITY", t.eccentricity.clone());
    put(r, "INCLINATION", t.inclination.clone());
    put(r, "RA_OF_ASC_NODE", t.node.clone());
    put(r, "ARG_OF_PERICENTER", t.argp.clone());
    put(r, "MEAN_ANOMALY", t.anomaly.clone());
    put(r, "BSTAR", t.bstar.clone());
    put(r, "MEAN_MOTION_DOT", t.dot.clone());
    put(r, "MEAN_MOTION_DDOT", t.ddot.clone());
    put(r, "NORAD_CAT_ID", t.norad_id.to_string());
    put(r, "ELEMENT_SET_NO", t.element_set.to_string());
    put(r, "REV_AT_EPOCH", t.revolution.to_string());
    put(r, "EPHEMERIS_TYPE", t.ephemeris_type.to_string());
    pairs.push(("CLASSIFICATION_TYPE".into(), format!("\"{}\"", t.classification as char)));
    let ns = t.frac * 864_000;
    let s = ns / 1_000_000_000;
    let (month, day) = month_day(t.year, t.day);
    pairs.push((
        "EPOCH".into(),
        format!(
            "\"{:04}-{month:02}-{day:02}T{:02}:{:02}:{:02}.{:09}\"",
            t.year,
            s / 3600,
            s / 60 % 60,
            s % 60,
            ns % 1_000_000_000
        ),
    ));
    if let Some(d) = &t.designator {
        pairs.push(("OBJECT_ID".into(), format!("\"{d}\"")));
    }
    if let Some(n) = &t.name {
        let q = quote(r, n);
        pairs.push(("OBJECT_NAME".into(), q));
    }
    shuffle(r, &mut pairs);
    pairs
}

fn month_day(year: i32, day: u32) -> (i64, i64) {
    let start = days_from_civil(year as i64, 1, 1);
    let target = start + day as i64 - 1;
    for m in (1..=12).rev() {
        let first = days_from_civil(year as i64, m, 1);
        if target >= first {
            return (m, target - first + 1);
        }
    }
    (1, 1)
}

fn blank(r: &mut Rng, style: u64) -> &'static str {
    match style {
        0 => "",
        1 => " ",
        _ => r.pick(&["", " ", "\n", "\t", "\r\n", "  \n "]),
    }
}

/// JSON text of the pairs
pub fn render(r: &mut Rng, pairs: &[(String, String)], style: u64) -> String {
    let mut s = String::new();
    s.push_str(blank(r, style));
    s.push('{');
    for (k, (key, value)) in pairs.iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        s.push_str(blank(r, style));
        s.push('"');
        s.push_str(key);
        s.push('"');
        s.push_str(blank(r, style));
        s.push(':');
        s.push_str(blank(r, style));
        s.push_str(value);
        s.push_str(blank(r, style));
    }
    s.push('}');
    s.push_str(blank(r, style));
    s
}

/// keys that an OMM may have and that the crate does not use
/// keys of the OMM standard, and those added by catalogues, that no field takes its value from
const STANDARD_KEYS: &[&str] = &[
    "CCSDS_OMM_VERS", "COMMENT", "CREATION_DATE", "ORIGINATOR", "CENTER_NAME", "REF_FRAME", "REF_FRAME_EPOCH", "TIME_SYSTEM",
    "MEAN_ELEMENT_THEORY", "SEMI_MAJOR_AXIS", "SEMIMAJOR_AXIS", "GM", "MASS", "SOLAR_RAD_AREA", "SOLAR_RAD_COEFF", "DRAG_AREA",
    "DRAG_COEFF", "BTERM", "AGOM", "COV_REF_FRAME", "CX_X", "USER_DEFINED_EARTH_MODEL", "PERIOD", "APOAPSIS", "PERIAPSIS",
    "OBJECT_TYPE", "RCS_SIZE", "COUNTRY_CODE", "LAUNCH_DATE", "SITE", "DECAY_DATE", "FILE", "GP_ID", "TLE_LINE0", "TLE_LINE1",
    "TLE_LINE2", "OBJECT_NUMBER", "INTLDES", "SATNAME", "NORAD_ID", "CLASSIFICATION", "MEAN_MOTION_1", "MEAN_MOTION_2",
    "ELEMENT_NUM", "ELEMENT_SET_NUMBER", "REVOLUTION_NUMBER", "REV_NUMBER", "EPHEMERIS", "ARG_OF_PERIGEE", "RAAN", "BSTAR_DRAG", "DRAG_TERM",
];

const FIELD_NAMES: &[&str] = &[
    "object_name", "international_designator", "norad_id", "classification", "datetime", "mean_motion_dot", "mean_motion_ddot",
    "drag_term", "element_set_number", "inclination", "right_ascension", "eccentricity", "argument_of_perigee", "mean_anomaly",
    "mean_motion", "revolution_number", "ephemeris_type", "epoch", "Epoch", "bstar",
];

pub fn extra(r: &mut Rng, pairs: &mut Vec<(String, String)>) -> u64 {
    let n = r.below(6);
    for k in 0..n {
        let key = match r.below(4) {
            0 => r.pick(STANDARD_KEYS).to_string(),
            1 => r.pick(FIELD_NAMES).to_string(),
            2 => {
                // almost one of the keys that are there
                let key = pairs[r.below(pairs.len() as u64) as usize].0.clone();
                match r.below(6) {
                    0 => key.to_lowercase(),
                    1 => key.replace('_', ""),
                    2 => key.replace('_', "-"),
                    3 => format!("{key} "),
                    4 => format!("{key}_"),
                    _ => key[..key.len() - 1].to_string(),
                }
            }
            _ => format!("X{}", r.below(1000)),
        };
        let key = format!("{key}{}", if pairs.iter().any(|(p, _)| *p == key) { format!("_{k}") } else { String::new() });
        let value = r.pick(&["null", "1", "-2.5e3", "\"text\"", "true", "[]", "{}", "[1,{\"a\":[null]}]", "{\"EPOCH\":\"x\"}", "18446744073709551616"]);
        let at = r.below(pairs.len() as u64 + 1) as usize;
        pairs.insert(at, (key, value.to_string()));
    }
    n
}
