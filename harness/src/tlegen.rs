//! Generator of well-formed TLEs that knows the value written in every field.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Tle {
    pub name: Option<String>,
    pub line1: Vec<u8>,
    pub line2: Vec<u8>,
    pub norad_id: u64,
    pub classification: u8,
    pub designator: Option<String>,
    pub year: i32,
    /// day of year, from 1
    pub day: u32,
    /// hundred-millionths of a day
    pub frac: u64,
    /// decimal texts of the numeric fields
    pub dot: String,
    pub ddot: String,
    pub bstar: String,
    pub ephemeris_type: u8,
    pub element_set: u64,
    pub inclination: String,
    pub node: String,
    pub eccentricity: String,
    pub argp: String,
    pub anomaly: String,
    pub motion: String,
    pub revolution: u64,
    /// classes of the choices that were made
    pub class: Vec<u64>,
}

pub fn checksum(line: &[u8]) -> u8 {
    let mut sum = 0u32;
    for &c in &line[..68] {
        if c.is_ascii_digit() {
            sum += (c - b'0') as u32;
        } else if c == b'-' {
            sum += 1;
        }
    }
    b'0' + (sum % 10) as u8
}

pub fn fix_checksum(line: &mut [u8]) {
    line[68] = checksum(line);
}

pub fn is_leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

/// right aligned in `width`, with leading spaces or zeros
fn pad(r: &mut Rng, s: String, width: usize, class: &mut Vec<u64>) -> String {
    let fill = if r.chance(0.6) { ' ' } else { '0' };
    class.push((fill == '0') as u64 + 2 * (s.len() == width) as u64);
    let mut out: String = std::iter::repeat_n(fill, width - s.len()).collect();
    out.push_str(&s);
    out
}

fn int(r: &mut Rng, width: u32) -> u64 {
    let max = 10u64.pow(width) - 1;
    match r.below(8) {
        0 => 0,
        1 => max,
        2 => 1,
        3 => r.below(10),
        4 => 10u64.pow(r.below(width as u64) as u32),
        _ => r.below(max + 1),
    }
}

/// ddd.dddd
fn angle(r: &mut Rng, class: &mut Vec<u64>, limit: u64) -> (String, String) {
    let v = match r.below(10) {
        0 => 0,
        1 => limit * 10000 - 1,
        2 => r.below(10000),
        3 => r.below(100) * 10000,
        4 => 9999999,
        _ => r.below(limit * 10000),
    };
    let text = format!("{}.{:04}", v / 10000, v % 10000);
    (pad(r, text.clone(), 8, class), text)
}

/// sddddd±d, the value 0.ddddd × 10^±d
fn assumed(r: &mut Rng, class: &mut Vec<u64>) -> (String, String) {
    let m = match r.below(8) {
        0 => 0,
        1 => 99999,
        2 => r.below(100),
        3 => 10000,
        _ => r.below(100000),
    };
    let sign = r.pick(&[' ', ' ', ' ', '-', '-', '+']);
    let es = r.pick(&['-', '-', '-', '+']);
    let e = match r.below(4) {
        0 => 0,
        1 => 9,
        _ => r.below(10),
    };
    class.push((sign as u64) | (es as u64) << 8 | e << 16);
    (
        format!("{sign}{m:05}{es}{e}"),
        format!("{}0.{m:05}e{es}{e}", if sign == '-' { "-" } else { "" }),
    )
}

fn name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "ISS (ZARYA)".into(),
        2 => "  spaced  name  ".into(),
        3 => "spåce ✓ 衛星".into(),
        4 => "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927".into(),
        5 => "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537".into(),
        6 => "0 VANGUARD 1".into(),
        _ => {
            let n = r.below(40);
            (0..n).map(|_| r.range(32, 126) as u8 as char).collect()
        }
    }
}

pub fn name_line(r: &mut Rng) -> String {
    name(r)
}

pub fn generate(r: &mut Rng) -> Tle {
    let mut class = Vec::new();
    let norad_id = int(r, 5);
    let classification = r.pick(b"UUUCS");
    class.push(classification as u64);
    let (designator_field, designator) = if r.chance(0.15) {
        class.push(0);
        ("        ".to_string(), None)
    } else {
        let y = match r.below(6) {
            0 => 56,
            1 => 57,
            2 => 0,
            3 => 99,
            _ => r.below(100),
        };
        let n = match r.below(4) {
            0 => 1,
            1 => 999,
            _ => r.below(1000),
        };
        let letters = 1 + r.below(3);
        let piece: String = (0..letters)
            .map(|_| (b'A' + r.below(26) as u8) as char)
            .collect();
        class.push(1 + letters + 10 * (y < 57) as u64);
        let full = if y < 57 { 2000 + y } else { 1900 + y };
        (
            format!("{y:02}{n:03}{piece:<3}"),
            Some(format!("{full}-{n:03}{piece}")),
        )
    };
    let yy = match r.below(6) {
        0 => 56,
        1 => 57,
        2 => 0,
        3 => 99,
        _ => r.below(100) as i32,
    };
    let year = if yy < 57 { 2000 + yy } else { 1900 + yy };
    let last = if is_leap(year) { 366 } else { 365 };
    let day = match r.below(6) {
        0 => 1,
        1 => last,
        2 => 60,
        _ => 1 + r.below(last as u64) as u32,
    };
    let frac = match r.below(8) {
        0 => 0,
        1 => 99_999_999,
        2 => 50_000_000,
        3 => r.below(1000),
        4 => {
            // whole seconds and minutes, which are prone to rounding
            let s = r.below(86400);
            (s * 100_000_000).div_ceil(86400)
        }
        5 => r.below(3200) * 31250,
        _ => r.below(100_000_000),
    };
    class.push((yy < 57) as u64 | ((day == 366) as u64) << 1 | ((frac == 0) as u64) << 2);
    let day_text = format!("{day}.{frac:08}");
    let day_field = pad(r, day_text, 12, &mut class);
    // sign, point, 8 digits
    let d = match r.below(5) {
        0 => 0,
        1 => 99_999_999,
        2 => r.below(1000),
        _ => r.below(100_000_000),
    };
    let ds = r.pick(&[' ', ' ', '-', '-', '+']);
    class.push(ds as u64);
    let dot = format!("{}0.{d:08}", if ds == '-' { "-" } else { "" });
    let (ddot_field, ddot) = assumed(r, &mut class);
    let (bstar_field, bstar) = assumed(r, &mut class);
    let ephemeris_type = if r.chance(0.6) { 0 } else { r.below(10) as u8 };
    let element_set = int(r, 4);
    let set_field = pad(r, element_set.to_string(), 4, &mut class);
    let id1 = pad(r, norad_id.to_string(), 5, &mut class);
    let id2 = pad(r, norad_id.to_string(), 5, &mut class);
    let line1 = format!(
        "1 {id1}{} {designator_field} {yy:02}{day_field} {ds}.{d:08} {ddot_field} {bstar_field} {ephemeris_type} {set_field}0",
        classification as char
    );
    let (i_field, inclination) = angle(r, &mut class, 180);
    let (n_field, node) = angle(r, &mut class, 360);
    let (w_field, argp) = angle(r, &mut class, 360);
    let (m_field, anomaly) = angle(r, &mut class, 360);
    let e = match r.below(6) {
        0 => 0,
        1 => 9_999_999,
        2 => r.below(100),
        3 => r.below(10_000),
        _ => r.below(10_000_000),
    };
    let v = match r.below(8) {
        0 => 0,
        1 => 99_99_999_999 % 10_000_000_000,
        2 => r.below(100_000_000),
        3 => 100_000_000 * r.below(18),
        4 => r.below(250_000_000) + 100_000_000,
        _ => r.below(1_700_000_000),
    };
    let motion = format!("{}.{:08}", v / 100_000_000, v % 100_000_000);
    let motion_field = pad(r, motion.clone(), 11, &mut class);
    let revolution = int(r, 5);
    let rev_field = pad(r, revolution.to_string(), 5, &mut class);
    let line2 = format!(
        "2 {id2} {i_field} {n_field} {e:07} {w_field} {m_field} {motion_field}{rev_field}0"
    );
    let mut line1 = line1.into_bytes();
    let mut line2 = line2.into_bytes();
    assert_eq!(line1.len(), 69);
    assert_eq!(line2.len(), 69);
    fix_checksum(&mut line1);
    fix_checksum(&mut line2);
    Tle {
        name: if r.chance(0.5) { Some(name(r)) } else { None },
        line1,
        line2,
        norad_id,
        classification,
        designator,
        year,
        day,
        frac,
        dot,
        ddot,
        bstar,
        ephemeris_type,
        element_set,
        inclination,
        node,
        eccentricity: format!("0.{e:07}"),
        argp,
        anomaly,
        motion,
        revolution,
        class,
    }
}

/// a TLE of a satellite that can be propagated
pub fn plausible(r: &mut Rng) -> Tle {
    loop {
        let mut t = generate(r);
        let motion = match r.below(4) {
            0 => 1.0 + r.uni(-0.05, 0.05),
            1 => 2.0 + r.uni(-0.05, 0.05),
            2 => r.uni(1.0, 6.0),
            _ => r.uni(6.5, 16.5),
        };
        let max_e: f64 = 1.0 - (motion / 17.0).powf(2.0 / 3.0);
        let e = if (1.9..2.1).contains(&motion) && r.chance(0.7) {
            r.uni(0.5, 0.74)
        } else {
            r.uni(0.0, max_e.clamp(0.0005, 0.8))
        };
        t.motion = format!("{motion:.8}");
        t.eccentricity = format!("{e:.7}");
        let m = r.below(100_000);
        let es = 2 + r.below(6);
        let (minus, column) = if r.chance(0.15) { ("-", '-') } else { ("", ' ') };
        t.bstar = format!("{minus}0.{m:05}e-{es}");
        let l1 = format!("{column}{m:05}-{es}");
        t.line1[53..61].copy_from_slice(l1.as_bytes());
        t.line2[52..63].copy_from_slice(format!("{motion:>11.8}").as_bytes());
        t.line2[26..33].copy_from_slice(&format!("{e:.7}").as_bytes()[2..9]);
        fix_checksum(&mut t.line1);
        fix_checksum(&mut t.line2);
        if t.inclination.parse::<f64>().unwrap() <= 180.0 {
            return t;
        }
    }
}

pub fn ulps(a: f64, b: f64) -> u64 {
    if a == b {
        return 0;
    }
    if a.is_nan() || b.is_nan() || (a < 0.0) != (b < 0.0) {
        return u64::MAX;
    }
    a.to_bits().abs_diff(b.to_bits())
}

/// nanoseconds since 1 January 1970, leap seconds not represented
pub fn instant_ns(d: &sgp4::chrono::NaiveDateTime) -> i128 {
    use sgp4::chrono::{Datelike, Timelike};
    days_from_civil(d.year() as i64, d.month() as i64, d.day() as i64) as i128 * 86_400_000_000_000
        + d.hour() as i128 * 3_600_000_000_000
        + d.minute() as i128 * 60_000_000_000
        + d.second() as i128 * 1_000_000_000
        + d.nanosecond() as i128
}

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// Compares decoded elements with the values that were written; returns the differences
pub fn differences(t: &Tle, name: &Option<String>, e: &sgp4::Elements) -> Vec<String> {
    let mut out = Vec::new();
    let mut check = |ok: bool, what: String| {
        if !ok {
            out.push(what);
        }
    };
    check(&e.object_name == name, format!("object_name {:?}, expected {:?}", e.object_name, name));
    check(
        e.international_designator == t.designator,
        format!("international_designator {:?}, expected {:?}", e.international_designator, t.designator),
    );
    check(e.norad_id == t.norad_id, format!("norad_id {}, expected {}", e.norad_id, t.norad_id));
    let c = match e.classification {
        sgp4::Classification::Unclassified => b'U',
        sgp4::Classification::Classified => b'C',
        sgp4::Classification::Secret => b'S',
    };
    check(c == t.classification, format!("classification {}, expected {}", c as char, t.classification as char));
    let expected = (days_from_civil(t.year as i64, 1, 1) + t.day as i64 - 1) as i128
        * 86_400_000_000_000
        + t.frac as i128 * 864_000;
    let got = instant_ns(&e.datetime);
    check(
        (got - expected).abs() <= 6,
        format!("datetime {} is off by {} ns", e.datetime, got - expected),
    );
    let mut float = |what: &str, got: f64, text: &str, limit: u64| {
        let expected: f64 = text.parse().unwrap();
        if ulps(got, expected) > limit {
            out.push(format!("{what} {got:e}, expected {text}"));
        }
    };
    float("mean_motion_dot", e.mean_motion_dot, &t.dot, 2);
    float("mean_motion_ddot", e.mean_motion_ddot, &t.ddot, 8);
    float("drag_term", e.drag_term, &t.bstar, 8);
    float("inclination", e.inclination, &t.inclination, 2);
    float("right_ascension", e.right_ascension, &t.node, 2);
    float("eccentricity", e.eccentricity, &t.eccentricity, 2);
    float("argument_of_perigee", e.argument_of_perigee, &t.argp, 2);
    float("mean_anomaly", e.mean_anomaly, &t.anomaly, 2);
    float("mean_motion", e.mean_motion, &t.motion, 2);
    if e.ephemeris_type != t.ephemeris_type {
        out.push(format!("ephemeris_type {}, expected {}", e.ephemeris_type, t.ephemeris_type));
    }
    if e.element_set_number != t.element_set {
        out.push(format!("element_set_number {}, expected {}", e.element_set_number, t.element_set));
    }
    if e.revolution_number != t.revolution {
        out.push(format!("revolution_number {}, expected {}", e.revolution_number, t.revolution));
    }
    out
}

/// Fields of two elements that differ by more than `limit` units in the last place or `ns` nanoseconds
pub fn elements_differ(a: &sgp4::Elements, b: &sgp4::Elements, limit: u64, ns: i128) -> Option<String> {
    let f = |what: &str, x: f64, y: f64| -> Option<String> {
        let same = x.to_bits() == y.to_bits() || ulps(x, y) <= limit || (x.is_nan() && y.is_nan());
        if same {
            None
        } else {
            Some(format!("{what}: {x:e} and {y:e}"))
        }
    };
    if a.object_name != b.object_name {
        return Some(format!("object_name: {:?} and {:?}", a.object_name, b.object_name));
    }
    if a.international_designator != b.international_designator {
        return Some(format!(
            "international_designator: {:?} and {:?}",
            a.international_designator, b.international_designator
        ));
    }
    if a.norad_id != b.norad_id {
        return Some(format!("norad_id: {} and {}", a.norad_id, b.norad_id));
    }
    if std::mem::discriminant(&a.classification) != std::mem::discriminant(&b.classification) {
        return Some("classification".into());
    }
    if (instant_ns(&a.datetime) - instant_ns(&b.datetime)).abs() > ns {
        return Some(format!("datetime: {} and {}", a.datetime, b.datetime));
    }
    if a.ephemeris_type != b.ephemeris_type {
        return Some(format!("ephemeris_type: {} and {}", a.ephemeris_type, b.ephemeris_type));
    }
    if a.element_set_number != b.element_set_number {
        return Some(format!("element_set_number: {} and {}", a.element_set_number, b.element_set_number));
    }
    if a.revolution_number != b.revolution_number {
        return Some(format!("revolution_number: {} and {}", a.revolution_number, b.revolution_number));
    }
    f("mean_motion_dot", a.mean_motion_dot, b.mean_motion_dot)
        .or_else(|| f("mean_motion_ddot", a.mean_motion_ddot, b.mean_motion_ddot))
        .or_else(|| f("drag_term", a.drag_term, b.drag_term))
        .or_else(|| f("inclination", a.inclination, b.inclination))
        .or_else(|| f("right_ascension", a.right_ascension, b.right_ascension))
        .or_else(|| f("eccentricity", a.eccentricity, b.eccentricity))
        .or_else(|| f("argument_of_perigee", a.argument_of_perigee, b.argument_of_perigee))
        .or_else(|| f("mean_anomaly", a.mean_anomaly, b.mean_anomaly))
        .or_else(|| f("mean_motion", a.mean_motion, b.mean_motion))
}

pub fn text(line: &[u8]) -> String {
    String::from_utf8_lossy(line).to_string()
}
