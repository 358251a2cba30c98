//! C20: texts of errors.
use crate::core::{fx, hash_str, Mon, Property};
use crate::gen;
use crate::oracle::{constants, geopotential, sat_json};
use crate::props::{time, tle, total};
use crate::rng::Rng;
use crate::tlegen::{self, fix_checksum, text};
use serde_json::{json, Value};
use sgp4::chrono::{Duration, NaiveDateTime};
use std::error::Error;
use std::fmt::{self, Write};

pub static C20: Property = Property {
    id: "C20",
    rule: "distinct (type and kind of error, line, character range, magnitude and sign of the values) combinations whose text was judged",
    cases: [40000, 700000],
    case,
    fixed: None,
};

/// Fails after a number of bytes
struct Narrow(usize);

impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

/// The text of an error, which must be the same however it is obtained
fn message<E: Error + Clone + 'static>(m: &mut Mon, r: &mut Rng, e: &E, detail: &dyn Fn() -> Value) -> Option<String> {
    let room = r.f();
    let (text, cloned, boxed, debug, cut) = m.call("formatting an error", detail, || {
        let text = e.to_string();
        let boxed: Box<dyn Error> = Box::new(e.clone());
        let mut narrow = Narrow((text.len() as f64 * room) as usize);
        let cut = write!(narrow, "{e}");
        (text, e.clone().to_string(), boxed.to_string(), format!("{e:?}{e:#?}"), cut)
    })?;
    m.eval();
    let wrong = if text.trim().is_empty() || debug.is_empty() {
        "the error has no text"
    } else if cloned != text || boxed != text {
        "a copy of the error has another text"
    } else if cut.is_ok() {
        "a failure of the writer was hidden"
    } else {
        return Some(text);
    };
    m.violate(wrong.into(), json!({"input": detail(), "text": text, "copy": cloned, "boxed": boxed}));
    None
}

/// The numbers in a text
fn numbers(text: &str) -> Vec<f64> {
    text.split(|c: char| c.is_whitespace() || "()[],;=".contains(c))
        .map(|w| w.trim_end_matches(|c: char| ".:".contains(c)))
        .filter_map(|w| w.parse().ok())
        .collect()
}

fn equal(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// The values appear, in this order
fn carries(text: &str, values: &[f64]) -> bool {
    let mut found = numbers(text).into_iter();
    values.iter().all(|v| found.any(|x| equal(x, *v)))
}

fn words(m: &mut Mon, text: &str, needed: &[&str], refused: &[&str], values: &[f64], detail: &dyn Fn() -> Value) -> bool {
    let lower = text.to_lowercase();
    let wrong = if let Some(w) = needed.iter().find(|w| !lower.contains(*w)) {
        format!("the message {text:?} does not say {w:?}")
    } else if let Some(w) = refused.iter().find(|w| lower.contains(*w)) {
        format!("the message {text:?} says {w:?}")
    } else if !carries(text, values) {
        format!("the message {text:?} does not carry {values:?}")
    } else {
        return true;
    };
    m.violate(wrong, detail());
    false
}

fn magnitude(x: f64) -> u64 {
    if x.is_nan() {
        9999
    } else {
        ((x.abs().max(1e-300).log10() + 400.0) as u64) << 1 | (x < 0.0) as u64
    }
}

/// Which quantity left its range, its value and the time
fn divergence(m: &mut Mon, e: &sgp4::Error, t: f64, text: &str, detail: &dyn Fn() -> Value) -> Option<(usize, f64)> {
    let (kind, value, good) = match e {
        sgp4::Error::OutOfRangeEccentricity { eccentricity, .. } => {
            (0, *eccentricity, words(m, text, &["eccentricity", "before"], &["semi-latus", "after adding"], &[*eccentricity, t], detail))
        }
        sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, .. } => {
            (1, *eccentricity, words(m, text, &["eccentricity", "after adding"], &["semi-latus", "before"], &[*eccentricity, t], detail))
        }
        sgp4::Error::NegativeSemiLatusRectum { .. } => (2, 0.0, words(m, text, &["semi-latus rectum"], &["eccentricity"], &[t], detail)),
    };
    good.then_some((kind, value))
}

fn motion(m: &mut Mon, e: &sgp4::KozaiElementsError, text: &str, detail: &dyn Fn() -> Value) -> Option<usize> {
    let (kind, good) = match e {
        sgp4::KozaiElementsError::NegativeKozaiMeanMotion => (0, words(m, text, &["kozai mean motion", "negative"], &["brouwer", "eccentricity"], &[], detail)),
        sgp4::KozaiElementsError::NegativeBrouwerMeanMotion => (1, words(m, text, &["brouwer mean motion", "negative"], &["kozai", "eccentricity"], &[], detail)),
    };
    good.then_some(kind)
}

/// Errors made by the caller, with any values
fn made(m: &mut Mon, r: &mut Rng) {
    let mut value = || match r.below(6) {
        0 => r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 0.0, -0.0, 1.0]),
        1 => f64::from_bits(r.u64()),
        2 => r.sign() * r.log_uni(1e-300, 1e300),
        3 => r.range(-1_000_000, 1_000_000) as f64,
        4 => r.uni(-2.0, 2.0),
        _ => r.sign() * r.log_uni(1e-6, 1e9),
    };
    let (x, t) = (value(), value());
    let detail = || json!({"value": fx(x), "t": fx(t)});
    let errors = [
        sgp4::Error::OutOfRangeEccentricity { eccentricity: x, t },
        sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity: x, t },
        sgp4::Error::NegativeSemiLatusRectum { t },
    ];
    for e in &errors {
        let Some(text) = message(m, r, e, &detail) else { return };
        let Some((kind, _)) = divergence(m, e, t, &text, &detail) else { return };
        m.cell(&[8, kind as u64, magnitude(x)]);
        m.cell(&[10, kind as u64, magnitude(t)]);
    }
    for e in [sgp4::KozaiElementsError::NegativeKozaiMeanMotion, sgp4::KozaiElementsError::NegativeBrouwerMeanMotion] {
        let Some(text) = message(m, r, &e, &detail) else { return };
        let Some(wrapped) = message(m, r, &sgp4::ElementsError::from(e.clone()), &detail) else { return };
        if motion(m, &e, &text, &detail).is_none() || !same(m, &text, &wrapped, &detail) {
            return;
        }
    }
    let e = sgp4::OutOfRangeEpochEccentricity(x);
    let Some(text) = message(m, r, &e, &detail) else { return };
    let Some(wrapped) = message(m, r, &sgp4::ElementsError::from(e), &detail) else { return };
    if !words(m, &text, &["epoch eccentricity"], &["mean motion"], &[x], &detail) || !same(m, &text, &wrapped, &detail) {
        return;
    }
    m.count("errors made by the caller");
    m.cell(&[9, magnitude(x)]);
}

fn propagation(m: &mut Mon, r: &mut Rng) {
    let s = if r.chance(0.7) {
        let Some(mut s) = crate::props::divergence::tle_orbit(r) else { return };
        if r.chance(0.6) {
            s.bstar = r.sign() * r.log_uni(1e-3, 1e4);
        }
        s
    } else if r.chance(0.5) {
        gen::sat_any(r)
    } else {
        total::any_sat(r).0
    };
    let Ok(c) = constants(&s) else { return };
    for _ in 0..3 {
        let t = if r.chance(0.1) { r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { gen::time(r) };
        let afspc = r.chance(0.5);
        let detail = || json!({"satellite": sat_json(&s), "t": fx(t), "afspc_mode": afspc});
        let Some(got) = m.call("propagate", detail, || {
            if afspc {
                c.propagate_afspc_compatibility_mode(sgp4::MinutesSinceEpoch(t))
            } else {
                c.propagate(sgp4::MinutesSinceEpoch(t))
            }
        }) else {
            return;
        };
        let Err(e) = got else { continue };
        let Some(text) = message(m, r, &e, &detail) else { return };
        let Some((kind, value)) = divergence(m, &e, t, &text, &detail) else { return };
        m.count(["eccentricity", "perturbed eccentricity", "semi-latus rectum"][kind]);
        m.cell(&[1, kind as u64, magnitude(value), magnitude(t)]);
        m.sample(|| json!({"error": format!("{e:?}"), "text": text}));
    }
}

fn elements(m: &mut Mon, r: &mut Rng) {
    let mut e = time::elements(time::calendar(r));
    e.mean_motion = r.log_uni(1e-3, 30.0);
    e.inclination = r.uni(0.0, 180.0);
    e.eccentricity = r.f();
    match r.below(3) {
        0 => e.mean_motion = if r.chance(0.2) { 0.0 } else { -r.log_uni(1e-6, 1e6) },
        1 => {
            // an orbit deep inside the Earth
            e.mean_motion = r.log_uni(30.0, 1e6);
        }
        _ => {
            e.eccentricity = match r.below(6) {
                0 => 1.0,
                1 => -r.log_uni(1e-18, 1e6),
                2 => r.log_uni(1.0, 1e12),
                3 => -f64::from_bits(1 + r.below(1 << 40)),
                4 => gen::next_up(1.0),
                _ => 1.0 + r.f(),
            }
        }
    }
    let geo = gen::geo(r);
    let g = geopotential(&geo);
    let detail = || json!({"mean_motion": fx(e.mean_motion), "inclination": fx(e.inclination), "eccentricity": fx(e.eccentricity)});
    let rad = |x: f64| x.to_radians();
    let Some(kozai) = m.call("Orbit::from_kozai_elements", detail, || {
        sgp4::Orbit::from_kozai_elements(
            &g,
            rad(e.inclination),
            rad(e.right_ascension),
            e.eccentricity,
            rad(e.argument_of_perigee),
            rad(e.mean_anomaly),
            e.mean_motion * std::f64::consts::PI / 720.0,
        )
    }) else {
        return;
    };
    if let Err(x) = kozai {
        let Some(text) = message(m, r, &x, &detail) else { return };
        let wrapped = sgp4::ElementsError::from(x.clone());
        let Some(again) = message(m, r, &wrapped, &detail) else { return };
        let Some(kind) = motion(m, &x, &text, &detail) else { return };
        if !same(m, &text, &again, &detail) {
            return;
        }
        m.count(["Kozai mean motion", "Brouwer mean motion"][kind]);
        m.cell(&[2, kind as u64, magnitude(e.mean_motion), magnitude(e.eccentricity)]);
    }
    for afspc in [false, true] {
        let Some(got) = m.call("Constants::from_elements", detail, || {
            if afspc {
                sgp4::Constants::from_elements_afspc_compatibility_mode(&e)
            } else {
                sgp4::Constants::from_elements(&e)
            }
        }) else {
            return;
        };
        let Err(x) = got else { continue };
        let Some(text) = message(m, r, &x, &detail) else { return };
        let Some(inner) = (match &x {
            sgp4::ElementsError::KozaiElementsError(y) => message(m, r, y, &detail),
            sgp4::ElementsError::OutOfRangeEpochEccentricity(y) => message(m, r, y, &detail),
        }) else {
            return;
        };
        if !same(m, &inner, &text, &detail) {
            return;
        }
        if let sgp4::ElementsError::OutOfRangeEpochEccentricity(y) = &x {
            let again = sgp4::ElementsError::from(y.clone());
            let Some(again) = message(m, r, &again, &detail) else { return };
            if !same(m, &text, &again, &detail)
                || !words(m, &text, &["epoch eccentricity"], &["mean motion"], &[e.eccentricity], &detail)
            {
                return;
            }
            m.count("epoch eccentricity");
            m.cell(&[3, afspc as u64, magnitude(e.eccentricity)]);
            m.sample(|| json!({"error": format!("{x:?}"), "text": text}));
        }
    }
}

fn same(m: &mut Mon, a: &str, b: &str, detail: &dyn Fn() -> Value) -> bool {
    if a != b {
        m.violate(format!("the error says {a:?}, and {b:?} as part of another type"), detail());
    }
    a == b
}

fn conversions(m: &mut Mon, r: &mut Rng) {
    let from = time::calendar(r);
    let to = time::calendar(r);
    let e = time::elements(from);
    let detail = || json!({"epoch": from.to_string(), "date": to.to_string()});
    let Some(got) = m.call("datetime_to_minutes_since_epoch", detail, || e.datetime_to_minutes_since_epoch(&to)) else { return };
    if let Err(x) = got {
        let Some(text) = message(m, r, &x, &detail) else { return };
        // the difference that failed: date less epoch
        let good = text.find(&to.to_string()).is_some_and(|k| text[k + to.to_string().len()..].contains(&from.to_string()));
        if !good {
            m.violate(format!("the message {text:?} does not give the date and the epoch"), detail());
            return;
        }
        m.count("span between dates");
        m.cell(&[4, (tlegen::instant_ns(&from).unsigned_abs() | 1).ilog2() as u64, (to < from) as u64]);
    }
    let minutes = match r.below(6) {
        0 => r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]),
        1 => r.sign() * r.log_uni(1.5e8, 1e300),
        2 => r.sign() * gen::around(r, 153722867.280912930),
        _ => r.sign() * r.log_uni(1e-3, 1.5e8),
    };
    let from = if r.chance(0.5) {
        from
    } else {
        // next to the ends of the calendar
        let d = Duration::nanoseconds(r.log_uni(1.0, 1e18) as i64);
        if r.chance(0.5) {
            NaiveDateTime::MAX - d
        } else {
            NaiveDateTime::MIN + d
        }
    };
    let e = time::elements(from);
    let detail = || json!({"epoch": from.to_string(), "minutes": fx(minutes)});
    let Some(got) = m.call("minutes_since_epoch_to_datetime", detail, || {
        e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(minutes))
    }) else {
        return;
    };
    if let Err(x) = got {
        let Some(text) = message(m, r, &x, &detail) else { return };
        match x {
            sgp4::MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(value) => {
                if !equal(value, minutes) {
                    m.violate(format!("the error carries {value} minutes instead of {minutes}"), detail());
                    return;
                }
                if !words(m, &text, &["nanoseconds"], &[], &[minutes], &detail) {
                    return;
                }
                m.count("minutes without a span");
                m.cell(&[5, magnitude(minutes)]);
            }
            sgp4::MinutesSinceEpochToDatetimeError::Add { datetime, duration } => {
                let ns = duration.num_nanoseconds().unwrap_or(i64::MAX);
                if datetime != from || !((ns as f64 - minutes * 60e9).abs() <= 1.0 + 1e-15 * (minutes * 60e9).abs()) {
                    m.violate(format!("the error carries {datetime} and {ns} ns"), detail());
                    return;
                }
                let (a, b) = (from.to_string(), duration.to_string());
                if !text.find(&a).is_some_and(|k| text[k + a.len()..].contains(&b)) {
                    m.violate(format!("the message {text:?} does not give the epoch and the span"), detail());
                    return;
                }
                m.count("minutes beyond the calendar");
                m.cell(&[6, magnitude(minutes), (from.and_utc().timestamp() < 0) as u64]);
            }
        }
    }
}

/// A field `name: value` of the derived representation
fn field(debug: &str, name: &str) -> Option<String> {
    let rest = debug.split(&format!("{name}: ")).nth(1)?;
    Some(rest.chars().take_while(|c| c.is_ascii_alphanumeric()).collect())
}

fn tles(m: &mut Mon, r: &mut Rng) {
    let t = if r.chance(0.5) { tlegen::generate(r) } else { tlegen::plausible(r) };
    let (mut a, mut b) = (t.line1.to_vec(), t.line2.to_vec());
    for _ in 0..r.range(1, 2) {
        let l = if r.chance(0.5) { &mut a } else { &mut b };
        match r.below(6) {
            0 => {
                let n = r.below(80) as usize;
                l.resize(n, b'0');
            }
            1 => {
                let k = r.below(l.len().max(1) as u64) as usize;
                if k < l.len() {
                    l[k] = r.below(256) as u8;
                }
            }
            2..=4 => {
                let k = r.below(l.len().max(1) as u64) as usize;
                if k < l.len() {
                    l[k] = r.pick(b"0123456789 .-+eAZ_");
                }
                if l.len() == 69 {
                    fix_checksum(l);
                }
            }
            _ => {
                // a date that does not exist
                if l.len() == 69 && l[0] == b'1' {
                    l[20..23].copy_from_slice(r.pick(&[b"000", b"367", b"999", b"366"]));
                    fix_checksum(l);
                } else {
                    l.push(b' ');
                }
            }
        }
    }
    if r.chance(0.05) {
        std::mem::swap(&mut a, &mut b);
    }
    let detail = || json!({"line1": text(&a), "line2": text(&b), "line1_bytes": a, "line2_bytes": b});
    let Some(got) = m.call("Elements::from_tle", detail, || sgp4::Elements::from_tle(None, &a, &b)) else { return };
    let Err(e) = got else { return };
    let Some(text) = message(m, r, &e, &detail) else { return };
    let said = match tle::report(&e) {
        Ok(said) => said,
        Err(x) => {
            m.violate(x, detail());
            return;
        }
    };
    // names no other defect
    let own = tle::KINDS.iter().find(|(k, _)| *k == said.kind).map_or("", |(_, phrase)| *phrase);
    if let Some((other, _)) = tle::KINDS.iter().find(|(_, phrase)| text.contains(phrase) && *phrase != own && !(own.contains("decimal") && *phrase == "float")) {
        m.violate(format!("the message {text:?} of {} names {other}", said.kind), detail());
        return;
    }
    // agrees with the fields of the error
    let debug = format!("{e:?}");
    let (Some(line), Some(start), Some(end)) = (field(&debug, "line"), field(&debug, "start"), field(&debug, "end")) else {
        m.count("representation without fields");
        return;
    };
    let expected = ["Both", "Line1", "Line2"][said.line as usize];
    if line != expected || start != said.start.to_string() || end != said.end.to_string() {
        m.violate(format!("the message {text:?} differs from the error {debug}"), detail());
        return;
    }
    m.count(&said.kind);
    m.cell(&[7, hash_str(&said.kind), said.line as u64, said.start as u64, said.end as u64]);
    m.sample(|| json!({"error": debug, "text": text}));
}

fn case(m: &mut Mon, r: &mut Rng) {
    match r.below(5) {
        4 => made(m, r),
        0 => propagation(m, r),
        1 => elements(m, r),
        2 => conversions(m, r),
        _ => tles(m, r),
    }
}
