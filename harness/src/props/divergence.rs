//! C04: divergence errors.
use crate::core::{fx, Mon, Property};
use crate::gen;
use crate::oracle::{run, sat_json, verdict, Cmp, Got};
use crate::props::fidelity::{build, note};
use crate::refm::{propagate, unkozai, Orb, Sat};
use crate::rng::Rng;
use serde_json::json;
use std::f64::consts::PI;

pub static C04: Property = Property {
    id: "C04",
    rule: "distinct (outcome, model branch set, distance to the transition, direction) combinations among outcomes that were decided",
    cases: [6000, 48000],
    case,
    fixed: None,
};

/// orbits a TLE can express
pub fn tle_orbit(r: &mut Rng) -> Option<Sat> {
    let geo = gen::geo(r);
    let e = match r.below(10) {
        0 => 0.0,
        1 => r.log_uni(1e-7, 1e-3),
        2 => 1.0 - r.log_uni(1e-7, 1e-2),
        3 => r.uni(0.9, 0.9999999),
        _ => r.uni(0.0, 0.9),
    };
    let e = ((e * 1e7_f64).round() / 1e7).min(0.9999999);
    let rev = match r.below(10) {
        0 => r.log_uni(1e-6, 1e-1),
        1 | 2 => r.log_uni(1e-3, 1.0),
        3 => 1.0 + r.uni(-0.15, 0.15),
        4 => 2.0 + r.uni(-0.1, 0.1),
        5 => r.uni(1.0, 6.5),
        6 => r.uni(17.0, 99.0),
        _ => r.uni(6.4, 17.0),
    };
    let i = gen::inclination(r);
    let b = (r.below(100_000) as f64) * 1e-5 * 10f64.powi(r.range(-9, 9) as i32);
    let b = match r.below(8) {
        0 => 0.0,
        1 | 2 => -b,
        3 | 4 => gen::bstar(r),
        _ => b,
    };
    let n = unkozai::<f64>(&geo, i, e, rev * PI / 720.0).ok()?;
    if !n.is_finite() {
        return None;
    }
    Some(Sat {
        geo,
        epoch: gen::epoch(r),
        gsto: r.uni(0.0, 2.0 * PI),
        bstar: b,
        orb: Orb {
            i,
            node: r.uni(0.0, 2.0 * PI),
            e,
            argp: r.uni(0.0, 2.0 * PI),
            m: r.uni(0.0, 2.0 * PI),
            n,
        },
    })
}

fn class_name(c: u8) -> &'static str {
    ["a prediction", "mean eccentricity error", "perturbed eccentricity error", "semi-latus rectum error"][c as usize]
}

fn check(m: &mut Mon, s: &Sat, c: &sgp4::Constants, t: f64, afspc: bool, near: u64) -> Option<u8> {
    let detail = || json!({"satellite": sat_json(s), "t": fx(t), "afspc_mode": afspc});
    let got = m.call("propagate", detail, || run(c, t, afspc))?;
    m.eval();
    match &got {
        Got::Ok(a) => {
            if a.iter().any(|x| !x.is_finite()) {
                let (o, _) = propagate::<f64>(s, t, afspc, 0.0);
                m.violate(
                    format!("the propagation succeeded with coordinates that are not finite ({a:?}; reference {o:?})"),
                    detail(),
                );
                return None;
            }
        }
        Got::ErrEcc(_, u) | Got::ErrPert(_, u) | Got::ErrSemi(u) => {
            if u.to_bits() != t.to_bits() {
                m.violate(format!("the error reports time {u:e} instead of {t:e}"), detail());
                return None;
            }
        }
    }
    // the error's value must match the condition it names, whatever the reference says
    match &got {
        Got::ErrEcc(e, _) if (-0.001..1.0).contains(e) => {
            m.violate(format!("mean eccentricity {e:e} is in range but was reported as diverged"), detail());
            return None;
        }
        Got::ErrPert(e, _) if (0.0..=1.0).contains(e) => {
            m.violate(format!("perturbed eccentricity {e:e} is in range but was reported as diverged"), detail());
            return None;
        }
        _ => (),
    }
    let (j, cmp) = verdict(s, t, afspc, 4, &got);
    match cmp {
        Cmp::Match(_) => {
            m.count(class_name(got.class()));
            note(m, &j);
            m.cell(&[got.class() as u64, j.trace.cover, near, (t < 0.0) as u64]);
            m.sample(|| json!({"t": t, "eccentricity": s.orb.e, "mean_motion": s.orb.n, "drag_term": s.bstar, "outcome": format!("{got:?}")}));
            Some(got.class())
        }
        Cmp::Fragile => {
            m.count("too close to a branch to call");
            None
        }
        Cmp::Mismatch(e) => {
            m.violate(e, detail());
            None
        }
    }
}

/// The error's text names its values
fn message(m: &mut Mon, c: &sgp4::Constants, t: f64) {
    let Err(e) = c.propagate(sgp4::MinutesSinceEpoch(t)) else { return };
    let text = e.to_string();
    let parts = match &e {
        sgp4::Error::OutOfRangeEccentricity { eccentricity, t } => vec![eccentricity.to_string(), t.to_string()],
        sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t } => vec![eccentricity.to_string(), t.to_string()],
        sgp4::Error::NegativeSemiLatusRectum { t } => vec![t.to_string()],
    };
    m.eval();
    if parts.iter().any(|p| !text.contains(p.as_str())) {
        m.violate(format!("the message {text:?} does not carry {parts:?}"), json!({}));
    }
}

fn case(m: &mut Mon, r: &mut Rng) {
    let s = if r.chance(0.75) {
        match tle_orbit(r) {
            Some(s) => s,
            None => {
                m.count("orbits refused by the reference conversion");
                return;
            }
        }
    } else {
        gen::sat_any(r)
    };
    let Some(c) = build(m, &s) else { return };
    let resonant = gen::is_resonant(&s.orb) != 0 && s.orb.n <= gen::NEAR;
    let limit = if resonant { 1.0e6 } else { 2.6e8 };
    let afspc = r.chance(0.5);
    let direction = r.sign();
    // scan outwards on a geometric grid, then bisect every change of outcome of the reference
    let class = |t: f64| propagate::<f64>(&s, t, afspc, 0.0).0.class();
    let mut last: Option<(f64, u8)> = None;
    let mut t = r.log_uni(1e-2, 60.0);
    let mut refined = 0;
    let mut points = vec![0.0];
    let factor = r.uni(1.3, 4.0);
    while t < limit {
        let x = direction * t;
        let k = class(x);
        if let Some((p, q)) = last {
            if q != k && refined < 3 {
                refined += 1;
                let (mut lo, mut hi) = (p, x);
                for _ in 0..80 {
                    let mid = 0.5 * (lo + hi);
                    if mid == lo || mid == hi {
                        break;
                    }
                    if class(mid) == q {
                        lo = mid;
                    } else {
                        hi = mid;
                    }
                }
                for d in [1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3, 1e-2] {
                    for (z, side) in [(lo * (1.0 - d), 1), (hi * (1.0 + d), 2)] {
                        let near = (side * 100) as u64 + (-d.log10()).round() as u64;
                        if check(m, &s, &c, z, afspc, near).is_some() {
                            m.count("decided next to a transition");
                            if d < 1e-8 {
                                m.count("decided within 1e-9 of a transition");
                            }
                        }
                    }
                }
                if r.chance(0.1) {
                    message(m, &c, hi);
                }
            }
        }
        last = Some((x, k));
        if r.chance(0.25) {
            points.push(x);
        }
        t *= factor;
    }
    for x in points {
        check(m, &s, &c, x, afspc, 0);
    }
}

