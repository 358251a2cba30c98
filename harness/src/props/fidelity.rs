//! C01, C02, C03: predictions against the reference model.
use crate::core::{fx, Mon, Property};
use crate::gen;
use crate::oracle::{constants, run, sat_json, verdict, Cmp, Got, Judge};
use crate::refm::{Sat, COVER_NAMES};
use crate::rng::Rng;
use serde_json::json;

pub static C01: Property = Property {
    id: "C01",
    rule: "distinct (model branch set, time class, gravity class) combinations among near-earth predictions that were compared and not too close to a branch to call",
    cases: [48000, 480000],
    case: c01,
    fixed: None,
};

pub static C02: Property = Property {
    id: "C02",
    rule: "distinct (model branch set, time class, epoch decade, mode) combinations among deep-space non-resonant predictions that were compared",
    cases: [26000, 240000],
    case: c02,
    fixed: None,
};

pub static C03: Property = Property {
    id: "C03",
    rule: "distinct (model branch set, integration step count class, direction, mode) combinations among resonant predictions that were compared",
    cases: [800, 4500],
    case: c03,
    fixed: None,
};

fn time_class(t: f64) -> u64 {
    let s = if t < 0.0 { 100 } else { 0 };
    if t == 0.0 {
        return 50;
    }
    s + (t.abs().log10().floor() as i64 + 20) as u64
}

pub fn note(m: &mut Mon, j: &Judge) {
    for (b, name) in COVER_NAMES.iter().enumerate() {
        if j.trace.cover >> b & 1 == 1 {
            m.count(name);
        }
    }
}

/// Compares and records; returns the comparison's match ratio when decided
pub fn decide(m: &mut Mon, s: &Sat, t: f64, afspc: bool, runs: u64, got: &Got) -> Option<Judge> {
    m.eval();
    let (j, c) = verdict(s, t, afspc, runs, got);
    match c {
        Cmp::Match(r) => {
            m.max("largest deviation / tolerance", r);
            if r > 0.05 {
                m.count("deviation above 0.05 tolerance");
            }
            if j.out.class() == 0 {
                m.max("largest position tolerance (km)", j.tol_p);
                if j.tol_p < 1e-6 {
                    m.count("position tolerance below 1 mm");
                } else if j.tol_p < 1e-3 {
                    m.count("position tolerance below 1 m");
                } else {
                    m.count("position tolerance above 1 m");
                }
            }
            note(m, &j);
            Some(j)
        }
        Cmp::Fragile => {
            m.count("too close to a branch to call");
            None
        }
        Cmp::Mismatch(e) => {
            m.violate(
                e,
                json!({"satellite": sat_json(s), "t": fx(t), "afspc_mode": afspc}),
            );
            None
        }
    }
}

pub fn build(m: &mut Mon, s: &Sat) -> Option<sgp4::Constants> {
    let r = m.call("Constants::new", || sat_json(s), || constants(s))?;
    match r {
        Ok(c) => Some(c),
        Err(e) => {
            m.violate(
                format!("Constants::new refused a valid orbit: {e}"),
                sat_json(s),
            );
            None
        }
    }
}

fn sampled(m: &mut Mon, s: &Sat, t: f64, afspc: bool, got: &Got) {
    m.sample(|| {
        json!({"inclination": s.orb.i, "eccentricity": s.orb.e, "mean_motion": s.orb.n, "drag_term": s.bstar,
            "epoch": s.epoch, "t": t, "afspc_mode": afspc, "outcome": match got {
                Got::Ok(a) => json!(a[0..3]),
                g => json!(format!("{g:?}")),
            }})
    });
}

fn c01(m: &mut Mon, r: &mut Rng) {
    let s = gen::sat_near(r);
    let Some(c) = build(m, &s) else { return };
    for _ in 0..5 {
        let t = gen::time(r);
        let afspc = r.chance(0.3);
        let Some(got) = m.call("propagate", || json!({"satellite": sat_json(&s), "t": fx(t)}), || run(&c, t, afspc)) else {
            return;
        };
        if let Some(j) = decide(m, &s, t, afspc, 6, &got) {
            let gc = (s.geo == crate::refm::REF_WGS72) as u64 + 2 * (s.geo == crate::refm::REF_WGS84) as u64;
            m.cell(&[j.trace.cover, time_class(t), gc]);
            sampled(m, &s, t, afspc, &got);
        }
    }
}

fn c02(m: &mut Mon, r: &mut Rng) {
    let s = gen::sat_deep(r);
    let Some(c) = build(m, &s) else { return };
    for _ in 0..5 {
        let t = gen::time(r);
        let afspc = r.chance(0.5);
        let Some(got) = m.call("propagate", || json!({"satellite": sat_json(&s), "t": fx(t)}), || run(&c, t, afspc)) else {
            return;
        };
        if let Some(j) = decide(m, &s, t, afspc, 6, &got) {
            m.cell(&[j.trace.cover, time_class(t), (s.epoch / 10.0).floor() as i64 as u64, afspc as u64]);
            sampled(m, &s, t, afspc, &got);
        }
    }
}

fn c03(m: &mut Mon, r: &mut Rng) {
    let s = gen::sat_resonant(r);
    let Some(c) = build(m, &s) else { return };
    for _ in 0..4 {
        let long = r.chance(if m.thorough { 0.02 } else { 0.01 });
        let t = if long {
            r.sign() * r.log_uni(5.0e6, 5.3e7)
        } else if r.chance(0.5) {
            gen::step_time(r, 2000)
        } else {
            gen::time(r).clamp(-5.0e6, 5.0e6)
        };
        let afspc = r.chance(0.5);
        let Some(got) = m.call("propagate", || json!({"satellite": sat_json(&s), "t": fx(t)}), || run(&c, t, afspc)) else {
            return;
        };
        if let Some(j) = decide(m, &s, t, afspc, if long { 3 } else { 5 }, &got) {
            let steps = j.trace.steps as u64;
            m.cell(&[j.trace.cover, 64 - steps.leading_zeros() as u64, (t < 0.0) as u64, afspc as u64, (t % 720.0 == 0.0) as u64]);
            m.max("integration steps", steps as f64);
            if t != 0.0 && t % 720.0 == 0.0 {
                m.count("exactly on an integration step");
            }
            sampled(m, &s, t, afspc, &got);
        }
    }
}
