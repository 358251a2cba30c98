//! C16: every float everywhere, no panic, bounded work.
use crate::core::{fx, Mon, Property};
use crate::gen;
use crate::oracle::{self, Got};
use crate::refm::Sat;
use crate::rng::Rng;
use serde_json::json;
use std::time::Instant;

pub static C16: Property = Property {
    id: "C16",
    rule: "distinct (class of every element, drag term, epoch, gravity constant and time: not a number, infinite, zero, subnormal, huge, negative, ordinary; outcome) combinations",
    cases: [40000, 380000],
    case: c16,
    fixed: Some(c16_fixed),
};

fn special(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => f64::MAX,
        6 => -f64::MAX,
        7 => f64::MIN_POSITIVE,
        8 => f64::from_bits(1),
        9 => r.sign() * r.log_uni(1e-300, 1e-10),
        10 => r.sign() * r.log_uni(1e3, 1e300),
        11 => f64::from_bits(r.u64()),
        12 => r.sign() * r.pick(&[1.0, 2.0, 0.5, 1.5, 0.9999999999999999, 1.0000000000000002]),
        _ => r.uni(-10.0, 10.0),
    }
}

fn class(x: f64) -> u64 {
    let k = if x.is_nan() {
        0
    } else if x.is_infinite() {
        1
    } else if x == 0.0 {
        2
    } else if x.abs() < 1e-8 {
        3
    } else if x.abs() > 1e8 {
        4
    } else {
        5
    };
    k * 2 + (x < 0.0) as u64
}

fn fields(s: &mut Sat) -> [&mut f64; 14] {
    [
        &mut s.orb.i,
        &mut s.orb.node,
        &mut s.orb.e,
        &mut s.orb.argp,
        &mut s.orb.m,
        &mut s.orb.n,
        &mut s.bstar,
        &mut s.epoch,
        &mut s.gsto,
        &mut s.geo.ae,
        &mut s.geo.ke,
        &mut s.geo.j2,
        &mut s.geo.j3,
        &mut s.geo.j4,
    ]
}

fn times(r: &mut Rng, m: &Mon, resonant: bool) -> f64 {
    match r.below(16) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => r.pick(&[0.0, -0.0, f64::MIN_POSITIVE, f64::from_bits(1), -f64::from_bits(1)]),
        4 => {
            // the far end of the range, rarely: a resonant orbit needs more than a million steps
            let rare = if m.thorough { 0.02 } else { 0.002 };
            if !resonant || r.chance(rare) {
                r.sign() * r.pick(&[1e9, 9.99e8, 5e8])
            } else {
                r.sign() * 1e6
            }
        }
        5 => r.sign() * r.log_uni(1e-300, 1e-3),
        6 if !resonant => r.sign() * r.log_uni(1e5, 1e9),
        7 if !resonant => r.sign() * r.log_uni(1e9, 1e308),
        8 => gen::step_time(r, 100),
        _ => r.sign() * r.log_uni(1e-3, 1e5),
    }
}

/// A satellite with odd values, and which of them were changed
pub fn any_sat(r: &mut Rng) -> (Sat, u64) {
    let mut s = gen::sat_any(r);
    let mut changed = 0;
    let n = match r.below(6) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        _ => r.below(8),
    };
    for _ in 0..n {
        let k = r.below(14) as usize;
        *fields(&mut s)[k] = special(r);
        changed |= 1 << k;
    }
    (s, changed)
}

fn c16(m: &mut Mon, r: &mut Rng) {
    if r.chance(0.15) {
        return catalogue(m, r);
    }
    let (mut s, changed) = any_sat(r);
    let mut key: Vec<u64> = fields(&mut s).iter().map(|x| class(**x)).collect();
    let detail = || oracle::sat_json(&s);
    m.sample(detail);
    let Some(c) = m.call("Constants::new", detail, || oracle::constants(&s)) else { return };
    m.eval();
    key.push(changed);
    let c = match c {
        Err(e) => {
            m.call("Display of an error", detail, || e.to_string());
            m.count("refused");
            key.push(7);
            m.cell(&key);
            return;
        }
        Ok(c) => c,
    };
    let resonant = m.call("initial_state", detail, || c.initial_state().is_some()).unwrap_or(false);
    for _ in 0..3 {
        let t = times(r, m, resonant);
        predict(m, &c, t, r.chance(0.5), resonant, &detail, &key);
    }
}

/// processor time of this thread, seconds
fn cpu() -> f64 {
    std::fs::read_to_string("/proc/thread-self/schedstat")
        .ok()
        .and_then(|s| s.split(' ').next().and_then(|n| n.parse::<f64>().ok()))
        .unwrap_or(0.0)
        * 1e-9
}

fn predict(m: &mut Mon, c: &sgp4::Constants, t: f64, afspc: bool, resonant: bool, detail: &dyn Fn() -> serde_json::Value, key: &[u64]) {
    let full = || json!({"input": detail(), "t": fx(t), "afspc": afspc});
    let go = || {
        let t = sgp4::MinutesSinceEpoch(t);
        if afspc {
            c.propagate_afspc_compatibility_mode(t)
        } else {
            c.propagate(t)
        }
    };
    let start = Instant::now();
    let Some(got) = m.call("propagating", full, go) else {
        return;
    };
    m.eval();
    let mut spent = start.elapsed().as_secs_f64();
    m.max("longest propagation, seconds", spent);
    // about a microsecond per step is expected
    let steps = if resonant && t.is_finite() { t.abs() / 720.0 } else { 0.0 };
    let bound = 0.2 + 2e-5 * steps;
    if spent > bound {
        // the wall clock may have counted other work
        for _ in 0..3 {
            let before = cpu();
            let _ = m.call("propagating", full, go);
            spent = spent.min(cpu() - before);
        }
        if spent > bound {
            m.violate(format!("a propagation of {steps} steps took {spent} s of processor time"), full());
            return;
        }
    }
    if let Err(e) = &got {
        m.call("Display of an error", full, || e.to_string());
    }
    let got = Got::from(got);
    m.count(["predicted", "eccentricity error", "perturbed eccentricity error", "semi-latus rectum error"][got.class() as usize]);
    let mut key = key.to_vec();
    key.extend([class(t), afspc as u64, resonant as u64, got.class() as u64]);
    m.cell(&key);
}

/// through the elements of a catalogue
fn catalogue(m: &mut Mon, r: &mut Rng) {
    let mut e = sgp4::Elements {
        object_name: None,
        international_designator: None,
        norad_id: r.u64(),
        classification: sgp4::Classification::Unclassified,
        datetime: date(r),
        mean_motion_dot: special(r),
        mean_motion_ddot: special(r),
        drag_term: r.uni(-0.01, 0.01),
        element_set_number: r.u64(),
        inclination: r.uni(0.0, 180.0),
        right_ascension: r.uni(0.0, 360.0),
        eccentricity: r.uni(0.0, 0.9),
        argument_of_perigee: r.uni(0.0, 360.0),
        mean_anomaly: r.uni(0.0, 360.0),
        mean_motion: r.uni(0.5, 17.0),
        revolution_number: r.u64(),
        ephemeris_type: r.below(256) as u8,
    };
    for _ in 0..r.below(3) {
        let x = special(r);
        match r.below(7) {
            0 => e.drag_term = x,
            1 => e.inclination = x,
            2 => e.right_ascension = x,
            3 => e.eccentricity = x,
            4 => e.argument_of_perigee = x,
            5 => e.mean_anomaly = x,
            _ => e.mean_motion = x,
        }
    }
    let detail = || json!({"elements": format!("{e:?}")});
    let g = sgp4::Geopotential { ae: special(r), ke: special(r), j2: special(r), j3: special(r), j4: special(r) };
    m.call("Orbit::from_kozai_elements", detail, || {
        sgp4::Orbit::from_kozai_elements(&g, e.inclination, e.right_ascension, e.eccentricity, e.argument_of_perigee, e.mean_anomaly, e.mean_motion)
            .map_err(|e| e.to_string())
    });
    m.eval();
    let epoch = special(r);
    m.call("sidereal-time functions", || json!({"epoch": fx(epoch)}), || {
        (sgp4::iau_epoch_to_sidereal_time(epoch), sgp4::afspc_epoch_to_sidereal_time(epoch))
    });
    m.eval();
    m.call("epoch functions", detail, || (e.epoch(), e.epoch_afspc_compatibility_mode()));
    for afspc in [false, true] {
        let Some(c) = m.call("Constants::from_elements", detail, || {
            if afspc {
                sgp4::Constants::from_elements_afspc_compatibility_mode(&e).map_err(|e| e.to_string())
            } else {
                sgp4::Constants::from_elements(&e).map_err(|e| e.to_string())
            }
        }) else {
            return;
        };
        m.eval();
        if let Ok(c) = c {
            let resonant = m.call("initial_state", detail, || c.initial_state().is_some()).unwrap_or(false);
            let t = times(r, m, resonant);
            let key = [16, class(e.drag_term), class(e.inclination), class(e.eccentricity), class(e.mean_motion), class(e.mean_anomaly)];
            predict(m, &c, t, afspc, resonant, &detail, &key);
        } else {
            m.count("elements refused");
        }
    }
}

fn date(r: &mut Rng) -> sgp4::chrono::NaiveDateTime {
    use sgp4::chrono::{Duration, NaiveDateTime};
    match r.below(6) {
        0 => NaiveDateTime::MAX - Duration::nanoseconds(r.log_uni(1.0, 9e18) as i64),
        1 => NaiveDateTime::MIN + Duration::nanoseconds(r.log_uni(1.0, 9e18) as i64),
        2 => NaiveDateTime::MIN + Duration::days(r.below(190_000_000) as i64),
        _ => crate::omm::date(r),
    }
}

/// each special value in each place, at the special times; the largest times
fn c16_fixed(m: &mut Mon, index: u64) -> bool {
    let values = [
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        0.0,
        -0.0,
        f64::MAX,
        -f64::MAX,
        f64::MIN_POSITIVE,
        5e-324,
        -5e-324,
        1.0,
        -1.0,
        1e-12,
        1e12,
    ];
    if index < 14 {
        let k = index as usize;
        for kind in 0..30 {
            let mut r = Rng::new(1616, kind);
            let base = match kind % 3 {
                0 => gen::sat_near(&mut r),
                1 => gen::sat_deep(&mut r),
                _ => gen::sat_resonant(&mut r),
            };
            for v in values {
                let mut s = base.clone();
                *fields(&mut s)[k] = v;
                let detail = || oracle::sat_json(&s);
                let Some(c) = m.call("Constants::new", detail, || oracle::constants(&s)) else { continue };
                m.eval();
                let Ok(c) = c else { continue };
                let resonant = m.call("initial_state", detail, || c.initial_state().is_some()).unwrap_or(false);
                for t in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, 1.0, -1.0, 720.0, -720.0, 1e5, -1e5] {
                    for afspc in [false, true] {
                        predict(m, &c, t, afspc, resonant, &detail, &[160, index, kind % 3, class(v)]);
                    }
                }
            }
        }
        return true;
    }
    if index < 20 {
        // a billion minutes
        let mut r = Rng::new(1617, index);
        let s = match index % 3 {
            0 => gen::sat_near(&mut r),
            1 => gen::sat_deep(&mut r),
            _ => gen::sat_resonant(&mut r),
        };
        let detail = || oracle::sat_json(&s);
        let Some(Ok(c)) = m.call("Constants::new", detail, || oracle::constants(&s)) else { return true };
        for t in [1e9, -1e9] {
            predict(m, &c, t, index % 2 == 0, index % 3 == 2, &detail, &[161, index]);
        }
        return true;
    }
    false
}
