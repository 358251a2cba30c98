//! C14, C15: epochs, sidereal times and conversions between dates and minutes.
use crate::core::{fx, Mon, Property};
use crate::gen::{next_down, next_up};
use crate::rng::Rng;
use crate::sidereal::{self, Dd};
use crate::tlegen::{days_from_civil, instant_ns, is_leap};
use crate::{gen, omm};
use serde_json::json;
use sgp4::chrono::{NaiveDate, NaiveDateTime};

pub static C14: Property = Property {
    id: "C14",
    rule: "distinct (function, century quarter, day kind, part of the day, sign) combinations of instants and (function, sign and magnitude, turn quarter) of epochs that were compared with exact arithmetic",
    cases: [60000, 2000000],
    case: c14,
    fixed: Some(c14_fixed),
};

pub static C15: Property = Property {
    id: "C15",
    rule: "distinct (conversion, sign and magnitude of the span, year class of the epoch, outcome) combinations",
    cases: [120000, 4000000],
    case: c15,
    fixed: Some(c15_fixed),
};

const NS_PER_YEAR: f64 = 365.25 * 86400.0 * 1e9;

fn j2000_ns() -> i128 {
    days_from_civil(2000, 1, 1) as i128 * 86_400_000_000_000 + 43_200_000_000_000
}

/// i128 to double-double
fn dd(x: i128) -> Dd {
    let hi = x as f64;
    let lo = (x - hi as i128) as f64;
    Dd(hi, 0.0).add(Dd(lo, 0.0))
}

fn years(d: &NaiveDateTime) -> f64 {
    dd(instant_ns(d) - j2000_ns()).div(Dd::new(NS_PER_YEAR)).0
}

pub fn elements(d: NaiveDateTime) -> sgp4::Elements {
    sgp4::Elements {
        object_name: None,
        international_designator: None,
        norad_id: 1,
        classification: sgp4::Classification::Unclassified,
        datetime: d,
        mean_motion_dot: 0.0,
        mean_motion_ddot: 0.0,
        drag_term: 0.0,
        element_set_number: 0,
        inclination: 50.0,
        right_ascension: 0.0,
        eccentricity: 0.001,
        argument_of_perigee: 0.0,
        mean_anomaly: 0.0,
        mean_motion: 15.0,
        revolution_number: 0,
        ephemeris_type: 0,
    }
}

fn instant(m: &mut Mon, d: &NaiveDateTime) {
    let expected = years(d);
    let detail = || json!({"date": d.to_string(), "expected": fx(expected)});
    let e = elements(*d);
    let Some(got) = m.call("epoch functions", detail, || {
        [
            sgp4::julian_years_since_j2000(d),
            e.epoch(),
            sgp4::julian_years_since_j2000_afspc_compatibility_mode(d),
            e.epoch_afspc_compatibility_mode(),
        ]
    }) else {
        return;
    };
    m.eval();
    for (k, (name, tolerance)) in [
        ("julian_years_since_j2000", 5e-14),
        ("Elements::epoch", 5e-14),
        ("julian_years_since_j2000_afspc_compatibility_mode", 4e-12),
        ("Elements::epoch_afspc_compatibility_mode", 4e-12),
    ]
    .iter()
    .enumerate()
    {
        let off = (got[k] - expected).abs();
        m.max(name, off);
        if !(off <= *tolerance) {
            m.violate(format!("{name} of {d} is {:e}, expected {expected:e}", got[k]), detail());
        }
    }
    use sgp4::chrono::{Datelike, Timelike};
    let part = match d.num_seconds_from_midnight() {
        0 if d.nanosecond() == 0 => 0,
        s if s < 43200 => 1,
        43200 if d.nanosecond() == 0 => 2,
        86399 if d.nanosecond() == 999_999_999 => 4,
        _ => 3,
    };
    m.cell(&[14, (d.year() / 4) as u64, d.month() as u64, part]);
}

fn turn(m: &mut Mon, epoch: f64) {
    let detail = || json!({"epoch": fx(epoch)});
    let Some(got) = m.call("sidereal-time functions", detail, || {
        [sgp4::iau_epoch_to_sidereal_time(epoch), sgp4::afspc_epoch_to_sidereal_time(epoch)]
    }) else {
        return;
    };
    m.eval();
    let expected = [sidereal::iau(epoch), sidereal::afspc(epoch)];
    for (k, name) in ["iau_epoch_to_sidereal_time", "afspc_epoch_to_sidereal_time"].iter().enumerate() {
        // rounding of the unreduced angle
        let scale = match k {
            0 => 6e-10 * (epoch / 100.0).abs() + 5e-11,
            _ => 2e-10 * (1.0 + (epoch / 100.0).abs()),
        };
        let (g, x) = (got[k], expected[k]);
        if !(0.0..=std::f64::consts::TAU).contains(&g) {
            m.violate(format!("{name}({epoch:e}) is {g:e}, which is not within one non-negative turn"), detail());
            continue;
        }
        let d = (g - x).abs();
        let off = d.min((std::f64::consts::TAU - d).abs());
        m.max(&format!("{name} (fraction of the tolerance)"), off / scale);
        if !(off <= scale) {
            m.violate(format!("{name}({epoch:e}) is {g:e}, expected {x:e}"), detail());
        }
        let size = if epoch == 0.0 { 0 } else { (epoch.abs().log10().floor() as i64 + 400) as u64 };
        m.cell(&[141, k as u64, (epoch < 0.0) as u64, size, (x / 1.5708) as u64]);
    }
}

fn c14(m: &mut Mon, r: &mut Rng) {
    let d = loop {
        let d = omm::date(r);
        if within(&d) {
            break d;
        }
        // anywhere in the range
        let days = r.range(days_from_civil(1900, 3, 1), days_from_civil(2100, 2, 28));
        let d = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()
            + sgp4::chrono::Duration::days(days);
        let d = d.and_hms_nano_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32, r.below(1_000_000_000) as u32).unwrap();
        if within(&d) {
            break d;
        }
    };
    instant(m, &d);
    m.sample(|| json!({"date": d.to_string(), "julian years since J2000": years(&d)}));
    let epoch = match r.below(12) {
        0 => years(&d),
        1 => r.sign() * r.log_uni(1e-12, 1.0),
        2 => r.uni(-500.0, 500.0),
        3 => r.uni(-30.1, -29.9),
        4 => {
            // whole days since 1970, where the floor steps
            let k = r.range(-10_000, 40_000) as f64;
            gen::around(r, (k - 1.0) / 365.25 - 30.0)
        }
        5 => {
            // where the reduced angle wraps
            let e = r.uni(-60.0, 60.0);
            e - sidereal::iau(e) / (876600.0 * 36.0 + 86401.84812866) / 7.27220521664304e-5 + r.uni(-1e-9, 1e-9)
        }
        6 => {
            let e = r.uni(-60.0, 60.0);
            e - sidereal::afspc(e) / (std::f64::consts::TAU + 1.72027916940703639e-2) / 365.25 + r.uni(-1e-9, 1e-9)
        }
        7 => r.sign() * r.log_uni(100.0, 1.0e5),
        _ => r.uni(-100.0, 100.0),
    };
    turn(m, epoch);
}

fn within(d: &NaiveDateTime) -> bool {
    let n = instant_ns(d);
    let day = 86_400_000_000_000;
    n >= days_from_civil(1900, 3, 1) as i128 * day && n < days_from_civil(2100, 3, 1) as i128 * day
}

/// every day of the range
fn c14_fixed(m: &mut Mon, index: u64) -> bool {
    let year = 1900 + index as i32;
    if year > 2100 {
        return false;
    }
    for day in 1..=(if is_leap(year) { 366 } else { 365 }) {
        let date = NaiveDate::from_yo_opt(year, day).unwrap();
        for d in [
            date.and_hms_nano_opt(0, 0, 0, 0).unwrap(),
            date.and_hms_nano_opt(0, 0, 0, 1).unwrap(),
            date.and_hms_nano_opt(11, 59, 59, 999_999_999).unwrap(),
            date.and_hms_nano_opt(12, 0, 0, 0).unwrap(),
            date.and_hms_nano_opt(17, 23, 41, 123_456_789).unwrap(),
            date.and_hms_nano_opt(23, 59, 59, 999_999_999).unwrap(),
        ] {
            if within(&d) {
                instant(m, &d);
                turn(m, years(&d));
            }
        }
        m.count("days of the calendar swept");
    }
    if year == 2000 {
        for e in [0.0, -0.0, -30.0, -30.0 - 1.0 / 365.25, 100.0, -100.0, 1e-300, -1e-300, 300.0, -300.0] {
            turn(m, e);
        }
    }
    true
}

// ---- dates and minutes ----

pub fn calendar(r: &mut Rng) -> NaiveDateTime {
    match r.below(10) {
        0 => {
            // anywhere
            let d = r.range(-95_000_000, 95_000_000);
            NaiveDate::from_ymd_opt(1970, 1, 1)
                .unwrap()
                .checked_add_signed(sgp4::chrono::Duration::days(d))
                .unwrap()
                .and_hms_nano_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32, r.below(1_000_000_000) as u32)
                .unwrap()
        }
        1 => NaiveDateTime::MAX - sgp4::chrono::Duration::nanoseconds(r.log_uni(1.0, 9e18) as i64),
        2 => NaiveDateTime::MIN + sgp4::chrono::Duration::nanoseconds(r.log_uni(1.0, 9e18) as i64),
        _ => omm::date(r),
    }
}

fn magnitude(x: f64) -> u64 {
    if x == 0.0 {
        0
    } else if !x.is_finite() {
        9999
    } else {
        (x.abs().log10().floor() as i64 + 1000) as u64
    }
}

fn year_class(d: &NaiveDateTime) -> u64 {
    use sgp4::chrono::Datelike;
    match d.year() {
        i32::MIN..=-200_000 => 0,
        -199_999..=-1 => 1,
        0..=1999 => 2,
        2000..=9999 => 3,
        10_000..=200_000 => 4,
        _ => 5,
    }
}

fn ulp(x: f64) -> f64 {
    next_up(x.abs()) - x.abs()
}

fn to_minutes(m: &mut Mon, from: NaiveDateTime, to: NaiveDateTime) {
    let span = instant_ns(&to) - instant_ns(&from);
    let detail = || json!({"epoch": from.to_string(), "date": to.to_string(), "nanoseconds": span.to_string()});
    let e = elements(from);
    let Some(got) = m.call("datetime_to_minutes_since_epoch", detail, || {
        e.datetime_to_minutes_since_epoch(&to).map(|t| t.0).map_err(|e| e.to_string())
    }) else {
        return;
    };
    m.eval();
    let fits = (i64::MIN as i128..=i64::MAX as i128).contains(&span);
    let clear = (span.abs() - i64::MAX as i128).abs() > 4;
    let exact = dd(span).div(Dd::new(60e9));
    match got {
        Ok(x) => {
            if !fits && clear {
                m.violate(format!("a span of {span} ns gave {x:e} minutes instead of an error"), detail());
                return;
            }
            let off = (Dd::new(x).add(Dd(-exact.0, -exact.1))).0.abs();
            if !(off <= 2.0 * ulp(exact.0)) {
                m.violate(format!("{x:e} minutes, expected {:e}", exact.0), detail());
                return;
            }
            // and back
            let Some(back) = m.call("minutes_since_epoch_to_datetime", detail, || {
                e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(x)).map_err(|e| e.to_string())
            }) else {
                return;
            };
            m.eval();
            match back {
                Ok(d) => {
                    let off = (instant_ns(&d) - instant_ns(&to)).abs() as f64;
                    if off > 0.5 + 3.0 * ulp(span as f64) {
                        m.violate(format!("{to} became {d} through minutes since epoch"), detail());
                        return;
                    }
                    m.count("dates converted and back");
                }
                Err(x) => {
                    // rounding may leave the calendar or the range of a span
                    let room = (instant_ns(&NaiveDateTime::MAX) - instant_ns(&to))
                        .min(instant_ns(&to) - instant_ns(&NaiveDateTime::MIN))
                        .min(i64::MAX as i128 - span.abs());
                    if room as f64 > 1.0 + 4.0 * ulp(span as f64) {
                        m.violate(format!("the minutes of {to} cannot be converted back: {x}"), detail());
                        return;
                    }
                }
            }
            m.cell(&[150, magnitude(x), (x < 0.0) as u64, year_class(&from)]);
        }
        Err(x) => {
            if fits && clear {
                m.violate(format!("a span of {span} ns was refused: {x}"), detail());
                return;
            }
            m.count("spans refused");
            m.cell(&[151, magnitude(span as f64), (span < 0) as u64, year_class(&from)]);
        }
    }
}

fn to_date(m: &mut Mon, from: NaiveDateTime, minutes: f64) {
    let detail = || json!({"epoch": from.to_string(), "minutes": fx(minutes)});
    let e = elements(from);
    let Some(got) = m.call("minutes_since_epoch_to_datetime", detail, || {
        e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(minutes))
            .map_err(|e| e.to_string())
    }) else {
        return;
    };
    m.eval();
    let outcome;
    if !minutes.is_finite() || (minutes * 60e9).abs() > 9.3e18 {
        outcome = 0;
        if let Ok(d) = got {
            m.violate(format!("{minutes:e} minutes gave the date {d} instead of an error"), detail());
            return;
        }
    } else {
        let exact = Dd::new(minutes).mul(Dd::new(60e9));
        let slack = 0.5 + ulp(exact.0);
        let limit = i64::MAX as f64;
        let whole = exact.0 as i128 + exact.1 as i128;
        let target = instant_ns(&from) + whole;
        let (first, last) = (instant_ns(&NaiveDateTime::MIN), instant_ns(&NaiveDateTime::MAX));
        let edge = slack as i128 + 2;
        let outside = exact.0.abs() > limit + 4096.0 || target < first - edge || target > last + edge;
        let inside = exact.0.abs() < limit - 4096.0 && target > first + edge && target < last - edge;
        match got {
            Ok(d) => {
                if outside {
                    m.violate(format!("{minutes:e} minutes gave the date {d} instead of an error"), detail());
                    return;
                }
                let got_ns = instant_ns(&d) - instant_ns(&from);
                let off = dd(got_ns).add(Dd(-exact.0, -exact.1)).0.abs();
                m.max("minutes to date, in nanoseconds less the rounding of a double", off - ulp(exact.0));
                if !(off <= slack) {
                    m.violate(format!("{minutes:e} minutes gave the date {d}, off by {off} ns"), detail());
                    return;
                }
                outcome = 1;
                // and back
                let Some(back) = m.call("datetime_to_minutes_since_epoch", detail, || {
                    e.datetime_to_minutes_since_epoch(&d).map(|t| t.0).map_err(|e| e.to_string())
                }) else {
                    return;
                };
                m.eval();
                match back {
                    Ok(x) => {
                        if !((x - minutes).abs() <= 0.5 / 60e9 + 4.0 * ulp(minutes)) {
                            m.violate(format!("{minutes:e} minutes became {x:e} through a date"), detail());
                            return;
                        }
                        m.count("minutes converted and back");
                    }
                    Err(x) => {
                        if inside {
                            m.violate(format!("the date {d} of {minutes:e} minutes is refused: {x}"), detail());
                            return;
                        }
                    }
                }
            }
            Err(x) => {
                if inside {
                    m.violate(format!("{minutes:e} minutes were refused: {x}"), detail());
                    return;
                }
                outcome = if outside { 2 } else { 3 };
            }
        }
    }
    m.count(["minutes refused (no span)", "minutes converted", "minutes refused (calendar)", "minutes at the edge"][outcome]);
    m.cell(&[152, outcome as u64, magnitude(minutes), (minutes < 0.0) as u64, year_class(&from)]);
}

fn c15(m: &mut Mon, r: &mut Rng) {
    let from = calendar(r);
    let to = match r.below(4) {
        0 => calendar(r),
        1 => from
            .checked_add_signed(sgp4::chrono::Duration::nanoseconds((r.sign() * r.log_uni(1.0, 9.2e18)) as i64))
            .unwrap_or(from),
        2 => from
            .checked_add_signed(sgp4::chrono::Duration::nanoseconds(r.range(-10, 10)))
            .unwrap_or(from),
        _ => from
            .checked_add_signed(sgp4::chrono::Duration::seconds(r.range(-100_000_000, 100_000_000)))
            .unwrap_or(from),
    };
    to_minutes(m, from, to);
    let x = match r.below(16) {
        0 => r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::from_bits(1)]),
        1 => f64::from_bits(r.u64()),
        2 => {
            // halves of nanoseconds
            let k = r.range(-1000, 1000) as f64 + 0.5;
            let x = k / 60e9;
            r.pick(&[x, next_up(x), next_down(x)])
        }
        3 => r.sign() * r.log_uni(1e-14, 1e-8),
        4 => r.sign() * (i64::MAX as f64 / 60e9) * (1.0 + r.sign() * r.log_uni(1e-16, 1e-3)),
        5 => r.sign() * r.log_uni(1e8, 1e30),
        6 => (r.range(-1_000_000_000_000_000, 1_000_000_000_000_000) as f64 + r.f()) / 60e9,
        7 => r.range(-10_000_000, 10_000_000) as f64,
        8 => {
            // to the end of the calendar
            let end = if r.chance(0.5) { NaiveDateTime::MAX } else { NaiveDateTime::MIN };
            (instant_ns(&end) - instant_ns(&from)) as f64 / 60e9 * (1.0 + r.sign() * r.log_uni(1e-15, 1e-2))
        }
        _ => r.sign() * r.log_uni(1e-3, 1.5e8),
    };
    to_date(m, from, x);
    m.sample(|| json!({"epoch": from.to_string(), "date": to.to_string(), "minutes": x.to_string()}));
}

fn c15_fixed(m: &mut Mon, index: u64) -> bool {
    let days = [
        NaiveDate::from_ymd_opt(2000, 1, 1).unwrap().and_hms_opt(12, 0, 0).unwrap(),
        NaiveDate::from_ymd_opt(1957, 10, 4).unwrap().and_hms_opt(19, 28, 34).unwrap(),
        NaiveDate::from_ymd_opt(2008, 9, 20).unwrap().and_hms_nano_opt(12, 25, 40, 104_192_000).unwrap(),
        NaiveDateTime::MIN,
        NaiveDateTime::MAX,
        NaiveDate::from_ymd_opt(1, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap(),
        NaiveDate::from_ymd_opt(-1, 12, 31).unwrap().and_hms_nano_opt(23, 59, 59, 999_999_999).unwrap(),
        NaiveDate::from_ymd_opt(9999, 12, 31).unwrap().and_hms_nano_opt(23, 59, 59, 999_999_999).unwrap(),
    ];
    if index as usize >= days.len() {
        return false;
    }
    let from = days[index as usize];
    for to in days {
        to_minutes(m, from, to);
    }
    for x in [
        0.0, -0.0, 1.0, -1.0, 0.5, 1440.0, -1440.0, 1.0 / 60.0, 1e-9, -1e-9, 8.333333333333333e-12, 1e-11, -1e-11, 1e7, -1e7,
        1.5e8, -1.5e8, 1.6e8, -1.6e8, 1e9, -1e9, 1e15, -1e15, 1e300, -1e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY,
        f64::NAN, -f64::NAN, f64::MIN_POSITIVE, 5e-324,
    ] {
        to_date(m, from, x);
    }
    // every nanosecond and half nanosecond around the epoch
    for k in -2000..=2000 {
        to_date(m, from, k as f64 * 0.25 / 60e9);
    }
    true
}
