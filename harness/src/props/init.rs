//! C05: initialisation.
use crate::core::{fx, Mon, Property};
use crate::gen;
use crate::num::{sto_seed, Sto};
use crate::oracle::{constants, geopotential, last_place, orbit, run, sat_json, verdict, verdict_with, Cmp, Got};
use crate::refm::{unkozai, Geo, Orb, Sat, REF_WGS72, REF_WGS84};
use crate::rng::Rng;
use crate::sidereal;
use crate::tlegen;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::f64::consts::PI;

pub static C05: Property = Property {
    id: "C05",
    rule: "distinct (part of the recipe, outcome, gravity class, orbit class, magnitude class) combinations that were decided",
    cases: [28000, 300000],
    case,
    fixed: Some(fixed),
};

fn geo_class(g: &Geo) -> u64 {
    (*g == REF_WGS72) as u64 + 2 * (*g == REF_WGS84) as u64
}

fn magnitude(x: f64) -> u64 {
    if x == 0.0 || !x.is_finite() {
        return 9999;
    }
    (x.abs().log10().floor() as i64 + 400) as u64 + if x < 0.0 { 5000 } else { 0 }
}

/// Mean motion of the published conversion with its rounding error, `None` when it cannot be decided
pub fn expected_motion(g: &Geo, i: f64, e: f64, n: f64) -> Option<Result<(f64, f64), u8>> {
    let base = unkozai::<f64>(g, i, e, n);
    let mut spread = 0.0f64;
    for k in 0..8u64 {
        sto_seed(n.to_bits() ^ e.to_bits().rotate_left(9) ^ k.wrapping_mul(0x5851F42D4C957F2D));
        match (&base, unkozai::<Sto>(g, i, e, n)) {
            (Ok(a), Ok(b)) => spread = spread.max((a - b).abs()),
            (Err(a), Err(b)) if *a == b => (),
            _ => return None,
        }
    }
    match base {
        Ok(a) => {
            let tol = 100.0 * spread + 1e-13 * a.abs();
            if !a.is_finite() || !(tol < 1e-4 * a.abs()) {
                None
            } else {
                Some(Ok((a, tol)))
            }
        }
        Err(k) => Some(Err(k)),
    }
}

fn kozai(m: &mut Mon, r: &mut Rng) {
    let g = gen::geo(r);
    let i = if r.chance(0.1) { r.uni(-10.0, 10.0) } else { gen::inclination(r) };
    let e = match r.below(8) {
        0 => 0.0,
        1 => r.log_uni(1e-9, 1e-3),
        2 => 1.0 - r.log_uni(1e-9, 1e-1),
        3 => -r.uni(0.0, 0.9),
        _ => r.uni(0.0, 0.95),
    };
    let n = match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => -r.log_uni(1e-12, 1e3),
        3 => r.log_uni(1e-9, 1e-3),
        4 => r.log_uni(1e-1, 1e6),
        5 => r.pick(&[-f64::MIN_POSITIVE, -5e-324, -f64::MAX, f64::NEG_INFINITY]),
        _ => r.uni(1e-3, 0.08),
    };
    one_kozai(m, &g, i, gen::angle(r), e, gen::angle(r), gen::angle(r), n);
}

#[allow(clippy::too_many_arguments)]
fn one_kozai(m: &mut Mon, g: &Geo, i: f64, node: f64, e: f64, argp: f64, anomaly: f64, n: f64) {
    let detail = || {
        json!({"geopotential": [fx(g.ae), fx(g.ke), fx(g.j2), fx(g.j3), fx(g.j4)], "inclination": fx(i),
            "right_ascension": fx(node), "eccentricity": fx(e), "argument_of_perigee": fx(argp),
            "mean_anomaly": fx(anomaly), "kozai_mean_motion": fx(n)})
    };
    let Some(got) = m.call("Orbit::from_kozai_elements", detail, || {
        sgp4::Orbit::from_kozai_elements(&geopotential(g), i, node, e, argp, anomaly, n)
    }) else {
        return;
    };
    m.eval();
    let Some(expected) = expected_motion(g, i, e, n) else {
        m.count("conversion too close to call");
        return;
    };
    let kind = match (&expected, &got) {
        (Ok((n, tol)), Ok(o)) => {
            let fields = [
                ("inclination", o.inclination, i),
                ("right_ascension", o.right_ascension, node),
                ("eccentricity", o.eccentricity, e),
                ("argument_of_perigee", o.argument_of_perigee, argp),
                ("mean_anomaly", o.mean_anomaly, anomaly),
            ];
            for (name, a, b) in fields {
                if a.to_bits() != b.to_bits() {
                    m.violate(format!("the conversion changed {name} from {b:e} to {a:e}"), detail());
                    return;
                }
            }
            if !((o.mean_motion - n).abs() <= *tol) {
                m.violate(
                    format!("recovered mean motion {:e}, expected {n:e} within {tol:e}", o.mean_motion),
                    detail(),
                );
                return;
            }
            m.max("largest mean motion deviation / tolerance", (o.mean_motion - n).abs() / tol);
            0
        }
        (Err(1), Err(sgp4::KozaiElementsError::NegativeKozaiMeanMotion)) => {
            m.count("refused catalogue mean motion");
            1
        }
        (Err(2), Err(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion)) => {
            m.count("refused recovered mean motion");
            2
        }
        _ => {
            m.violate(format!("conversion outcome {got:?}, expected {expected:?}"), detail());
            return;
        }
    };
    m.cell(&[1, kind, geo_class(g), magnitude(n), magnitude(1.0 - e.abs())]);
}

/// Epoch eccentricity outside [0, 1)
fn validation(m: &mut Mon, r: &mut Rng) {
    let mut s = gen::sat_any(r);
    let e = match r.below(14) {
        0 => 1.0,
        1 => gen::next_up(1.0),
        2 => gen::next_down(1.0),
        3 => -0.0,
        4 => -f64::from_bits(1),
        5 => -f64::MIN_POSITIVE,
        6 => -r.log_uni(1e-18, 1e-3),
        7 => -r.log_uni(1e-3, 10.0),
        8 => 1.0 + r.log_uni(1e-15, 1e-3),
        9 => r.log_uni(1.0, 1e6),
        10 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]),
        11 => 0.0,
        12 => 1.0 - r.log_uni(1e-15, 1e-3),
        _ => r.uni(0.0, 1.0),
    };
    s.orb.e = e;
    one_validation(m, &s);
}

fn one_validation(m: &mut Mon, s: &Sat) {
    let e = s.orb.e;
    let Some(got) = m.call("Constants::new", || sat_json(s), || constants(s)) else { return };
    m.eval();
    let valid = (0.0..1.0).contains(&e);
    match got {
        Ok(_) => {
            if !valid {
                m.violate(format!("epoch eccentricity {e:e} was accepted"), sat_json(s));
                return;
            }
            m.count("accepted epoch eccentricity");
        }
        Err(error) => {
            if valid {
                m.violate(format!("epoch eccentricity {e:e} was refused"), sat_json(s));
                return;
            }
            if error.0.to_bits() != e.to_bits() {
                m.violate(format!("the error reports eccentricity {:e} instead of {e:e}", error.0), sat_json(s));
                return;
            }
            let text = error.to_string();
            if !text.contains(&e.to_string()) {
                m.violate(format!("the message {text:?} does not carry the eccentricity {e}"), sat_json(s));
                return;
            }
            m.count("refused epoch eccentricity");
        }
    }
    m.cell(&[2, valid as u64, magnitude(e), gen::is_resonant(&s.orb) as u64]);
}

/// The caller's gravity model and sidereal-time function are the ones that are used
fn custom(m: &mut Mon, r: &mut Rng) {
    let mut s = match r.below(4) {
        0 => gen::sat_any(r),
        _ => gen::sat_resonant(r),
    };
    if r.chance(0.5) {
        s.gsto = r.uni(-40.0, 40.0);
    }
    let seen: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    let Some(got) = m.call("Constants::new", || sat_json(&s), || {
        sgp4::Constants::new(
            geopotential(&s.geo),
            |epoch: f64| {
                seen.borrow_mut().push(epoch.to_bits());
                s.gsto
            },
            s.epoch,
            s.bstar,
            orbit(&s.orb),
        )
    }) else {
        return;
    };
    m.eval();
    let resonant = s.orb.n <= gen::NEAR && gen::is_resonant(&s.orb) != 0;
    let calls = seen.borrow();
    if calls.iter().any(|b| *b != s.epoch.to_bits()) {
        m.violate(
            format!(
                "the sidereal-time function was called with {:?} instead of the epoch {:e}",
                calls.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(),
                s.epoch
            ),
            sat_json(&s),
        );
        return;
    }
    if resonant && calls.is_empty() {
        m.violate("the sidereal-time function was not used for a resonant orbit".into(), sat_json(&s));
        return;
    }
    m.add("sidereal-time function calls observed", calls.len() as u64);
    let c = match got {
        Ok(c) => c,
        Err(e) => {
            m.violate(format!("Constants::new refused a valid orbit: {e}"), sat_json(&s));
            return;
        }
    };
    for _ in 0..2 {
        let t = gen::time(r).clamp(-2.0e5, 2.0e5);
        let afspc = r.chance(0.5);
        judge(m, "propagation with the caller's models", &s, &c, t, afspc, 3);
    }
}

/// inputs that the recipe computes, within their rounding
pub fn rounded(k: u64, s: Sat) -> Sat {
    let mut s = last_place(k, s);
    let d = [1.0, -1.0, 0.5, -0.5, 0.0][(k % 5) as usize];
    s.gsto += 3.0e-11 * d;
    s.orb.n *= 1.0 + 2.0e-16 * d;
    s.orb.m *= 1.0 + 2.0e-16 * d;
    s
}

fn judge(m: &mut Mon, what: &str, s: &Sat, c: &sgp4::Constants, t: f64, afspc: bool, part: u64) -> bool {
    let detail = || json!({"satellite": sat_json(s), "t": fx(t), "afspc_mode": afspc});
    let Some(got) = m.call(what, detail, || run(c, t, afspc)) else { return false };
    m.eval();
    let (j, cmp) = if part >= 5 { verdict_with(s, t, afspc, 6, &got, rounded) } else { verdict(s, t, afspc, 4, &got) };
    match cmp {
        Cmp::Match(_) => {
            m.cell(&[part, j.trace.cover, geo_class(&s.geo)]);
            m.sample(|| json!({"part": what, "t": t, "mean_motion": s.orb.n, "eccentricity": s.orb.e, "outcome": format!("{got:?}")}));
            true
        }
        Cmp::Fragile => {
            m.count("too close to a branch to call");
            true
        }
        Cmp::Mismatch(e) => {
            m.violate(format!("{what}: {e}"), detail());
            false
        }
    }
}

fn leaves(v: &Value, path: &str, out: &mut Vec<(String, f64)>) {
    match v {
        Value::Number(n) => out.push((path.to_string(), n.as_f64().unwrap_or(f64::NAN))),
        Value::Null => out.push((path.to_string(), f64::NAN)),
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                leaves(x, &format!("{path}/{i}"), out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                leaves(x, &format!("{path}/{k}"), out);
            }
        }
        _ => (),
    }
}

/// Numbers of the serialised propagators that differ by more than rounding
fn tree_difference(a: &sgp4::Constants, b: &sgp4::Constants) -> Result<usize, String> {
    let (Ok(a), Ok(b)) = (serde_json::to_value(a), serde_json::to_value(b)) else {
        return Ok(0);
    };
    let (mut x, mut y) = (Vec::new(), Vec::new());
    leaves(&a, "", &mut x);
    leaves(&b, "", &mut y);
    if x.len() != y.len() {
        return Err(format!("the propagators have {} and {} coefficients", x.len(), y.len()));
    }
    let mut compared = 0;
    for ((p, u), (q, v)) in x.iter().zip(&y) {
        if p != q {
            return Err(format!("the propagators have different coefficients {p} and {q}"));
        }
        // small coefficients may be differences of large ones
        if u.abs() > 0.01 && u.abs() < 50.0 && v.is_finite() {
            compared += 1;
            let d = (u - v).abs();
            if d > 2.0e-11 && (d - 2.0 * PI).abs() > 2.0e-11 {
                return Err(format!("coefficient {p} is {u:e} instead of {v:e}"));
            }
        }
    }
    Ok(compared)
}

fn elements_json(e: &sgp4::Elements) -> Value {
    serde_json::to_value(e).unwrap_or_else(|_| json!(format!("{e:?}")))
}

fn recipe(m: &mut Mon, r: &mut Rng) {
    let t = tlegen::plausible(r);
    let Ok(mut e) = sgp4::Elements::from_tle(t.name.clone(), &t.line1, &t.line2) else {
        m.count("generated TLE refused (judged by C08)");
        return;
    };
    // any nanosecond, not only those of TLEs
    if r.chance(0.5) {
        let ns = r.range(-1_000_000_000_000, 1_000_000_000_000);
        e.datetime += sgp4::chrono::Duration::nanoseconds(ns);
    }
    // what an OMM can hold and a TLE cannot
    if r.chance(0.3) {
        let angles = [&mut e.right_ascension, &mut e.argument_of_perigee, &mut e.mean_anomaly];
        for angle in angles {
            if r.chance(0.5) {
                *angle = r.uni(-720.0, 1080.0);
            }
        }
    }
    if r.chance(0.3) {
        e.drag_term = gen::bstar(r);
    }
    if r.chance(0.1) {
        e.inclination = r.uni(-200.0, 400.0);
    }
    if r.chance(0.2) {
        e.eccentricity *= r.f();
    }
    if r.chance(0.2) {
        // two centuries around those of TLEs
        e.datetime += sgp4::chrono::Duration::days(r.range(-73_000, 73_000));
    }
    // what no prediction depends on
    if r.chance(0.3) {
        e.object_name = Some("irrelevant".into());
        e.international_designator = None;
        e.norad_id = r.u64();
        e.classification = match r.below(3) {
            0 => sgp4::Classification::Unclassified,
            1 => sgp4::Classification::Classified,
            _ => sgp4::Classification::Secret,
        };
        e.mean_motion_dot = r.sign() * r.log_uni(1e-9, 1e9);
        e.mean_motion_ddot = r.sign() * r.log_uni(1e-9, 1e9);
        e.element_set_number = r.u64();
        e.revolution_number = r.u64();
        e.ephemeris_type = r.below(256) as u8;
    }
    let bad = r.below(10);
    match bad {
        0 => e.mean_motion = r.pick(&[0.0, -0.0, -1.0, -15.5, -1e-9]),
        1 => e.eccentricity = r.pick(&[1.0, 1.5, 1e9, -0.1, -1e-7]),
        2 => {
            // recovered mean motion negative
            e.mean_motion = r.uni(20.0, 99.0);
            e.eccentricity = 1.0 - r.log_uni(1e-7, 1e-2);
            e.inclination = r.uni(60.0, 120.0);
        }
        _ => (),
    }
    for afspc in [false, true] {
        let (g, epoch, gsto) = if afspc {
            let y = e.epoch_afspc_compatibility_mode();
            (REF_WGS72, y, sidereal::afspc(y))
        } else {
            let y = e.epoch();
            (REF_WGS84, y, sidereal::iau(y))
        };
        let detail = || json!({"elements": elements_json(&e), "afspc": afspc});
        let Some(got) = m.call("from_elements", detail, || {
            if afspc {
                sgp4::Constants::from_elements_afspc_compatibility_mode(&e)
            } else {
                sgp4::Constants::from_elements(&e)
            }
        }) else {
            return;
        };
        m.eval();
        let (i, n) = (e.inclination * (PI / 180.0), e.mean_motion * (PI / 720.0));
        let valid_e = (0.0..1.0).contains(&e.eccentricity);
        let expected = expected_motion(&g, i, e.eccentricity, n);
        match (&got, expected) {
            (Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeKozaiMeanMotion)), Some(Err(1))) => {
                m.count("recipe: catalogue mean motion refused");
                m.cell(&[4, 1, afspc as u64, magnitude(e.mean_motion)]);
            }
            (Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion)), Some(Err(2))) => {
                m.count("recipe: recovered mean motion refused");
                m.cell(&[4, 2, afspc as u64, magnitude(e.mean_motion), magnitude(1.0 - e.eccentricity)]);
            }
            (Err(sgp4::ElementsError::OutOfRangeEpochEccentricity(x)), x_n)
                if !valid_e && !matches!(x_n, Some(Err(_))) =>
            {
                if x.0.to_bits() != e.eccentricity.to_bits() {
                    m.violate(format!("the error reports eccentricity {:e} instead of {:e}", x.0, e.eccentricity), detail());
                    return;
                }
                let text = got.as_ref().err().unwrap().to_string();
                if !text.contains(&e.eccentricity.to_string()) {
                    m.violate(format!("the message {text:?} does not carry the eccentricity"), detail());
                    return;
                }
                m.count("recipe: eccentricity refused");
                m.cell(&[4, 3, afspc as u64, magnitude(e.eccentricity)]);
            }
            (_, None) if valid_e => m.count("conversion too close to call"),
            (Ok(c), Some(Ok((motion, _)))) if valid_e => {
                let s = Sat {
                    geo: g,
                    epoch,
                    gsto,
                    bstar: e.drag_term,
                    orb: Orb {
                        i,
                        node: e.right_ascension * (PI / 180.0),
                        e: e.eccentricity,
                        argp: e.argument_of_perigee * (PI / 180.0),
                        m: e.mean_anomaly * (PI / 180.0),
                        n: motion,
                    },
                };
                if !manual(m, &e, c, &s, afspc, &detail) {
                    return;
                }
                // a mean motion near the limit of a resonance band is the reference's to decide
                for _ in 0..2 {
                    let t = gen::time(r).clamp(-1.0e5, 1.0e5);
                    let mode = r.chance(0.5);
                    if !judge(m, if afspc { "AFSPC recipe" } else { "standard recipe" }, &s, c, t, mode, 5 + afspc as u64) {
                        return;
                    }
                }
            }
            (_, expected) => {
                m.violate(
                    format!(
                        "the initialiser returned {}, the recipe gives mean motion {expected:?} and eccentricity {:e}",
                        match &got {
                            Ok(_) => "a propagator".to_string(),
                            Err(e) => format!("{e:?}"),
                        },
                        e.eccentricity
                    ),
                    detail(),
                );
                return;
            }
        }
    }
}

/// The documented manual recipe, with the crate's own functions
fn manual(m: &mut Mon, e: &sgp4::Elements, c: &sgp4::Constants, s: &Sat, afspc: bool, detail: &dyn Fn() -> Value) -> bool {
    let built = m.call("the manual recipe", detail, || {
        let (g, f, epoch): (sgp4::Geopotential, fn(f64) -> f64, f64) = if afspc {
            (sgp4::WGS72, sgp4::afspc_epoch_to_sidereal_time, e.epoch_afspc_compatibility_mode())
        } else {
            (sgp4::WGS84, sgp4::iau_epoch_to_sidereal_time, e.epoch())
        };
        let o = sgp4::Orbit::from_kozai_elements(
            &g,
            s.orb.i,
            s.orb.node,
            s.orb.e,
            s.orb.argp,
            s.orb.m,
            e.mean_motion * (PI / 720.0),
        )
        .ok()?;
        sgp4::Constants::new(g, f, epoch, e.drag_term, o).ok()
    });
    let Some(built) = built else { return false };
    m.eval();
    let Some(d) = built else {
        m.violate("the manual recipe fails where the initialiser succeeds".into(), detail());
        return false;
    };
    match tree_difference(c, &d) {
        Ok(n) => m.add("coefficients compared with the manual recipe", n as u64),
        Err(text) => {
            m.violate(format!("the initialiser departs from the manual recipe: {text}"), detail());
            return false;
        }
    }
    for t in [0.0, 1000.0, -5000.0] {
        let (Some(a), Some(b)) = (
            m.call("propagate", detail, || run(c, t, afspc)),
            m.call("propagate", detail, || run(&d, t, afspc)),
        ) else {
            return false;
        };
        let close = a.class() == b.class()
            && match (&a, &b) {
                (Got::Ok(x), Got::Ok(y)) => x.iter().zip(y).all(|(u, v)| (u - v).abs() <= 1e-6 * (1.0 + u.abs() / 1000.0)),
                _ => true,
            };
        if !close {
            // an orbit on a threshold may fall on either side
            let (j, _) = verdict(s, t, afspc, 16, &a);
            if !j.fragile && j.tol_p < 1e-7 {
                m.violate(format!("the initialiser and the manual recipe differ at t = {t}: {a:?} and {b:?}"), detail());
                return false;
            }
            m.count("too close to a branch to call");
        } else {
            m.count("predictions equal to the manual recipe");
        }
    }
    true
}

fn case(m: &mut Mon, r: &mut Rng) {
    match r.below(8) {
        0..=2 => kozai(m, r),
        3 => validation(m, r),
        4 | 5 => custom(m, r),
        _ => recipe(m, r),
    }
}

/// Published constants and boundary values
fn fixed(m: &mut Mon, index: u64) -> bool {
    if index == 0 {
        for (name, g, h) in [("WGS84", sgp4::WGS84, REF_WGS84), ("WGS72", sgp4::WGS72, REF_WGS72)] {
            m.eval();
            let pairs = [(g.ae, h.ae), (g.ke, h.ke), (g.j2, h.j2), (g.j3, h.j3), (g.j4, h.j4)];
            if pairs.iter().any(|(a, b)| (a - b).abs() > 1e-9 * b.abs()) {
                m.violate(format!("{name} is {g:?}, expected {h:?}"), json!({}));
            }
            m.cell(&[7, hash(name)]);
        }
        return true;
    }
    let es = [0.0, -0.0, 0.5, 1.0, gen::next_down(1.0), gen::next_up(1.0), -5e-324, -1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY];
    let ns = [0.0, -0.0, 5e-324, -5e-324, 1e-300, 4.4e-3, 8.8e-3, 0.02, 0.06, -0.06, f64::NEG_INFINITY];
    let k = index - 1;
    if k >= es.len() as u64 * ns.len() as u64 {
        return false;
    }
    let (e, n) = (es[k as usize % es.len()], ns[k as usize / es.len()]);
    if n <= 0.0 || (0.0..1.0).contains(&e) {
        one_kozai(m, &REF_WGS84, 0.9, 1.0, e, 2.0, 3.0, n);
    }
    if n >= 4e-3 {
        let s = Sat {
            geo: REF_WGS72,
            epoch: 10.0,
            gsto: 1.0,
            bstar: 1e-4,
            orb: Orb { i: 0.9, node: 1.0, e, argp: 2.0, m: 3.0, n },
        };
        one_validation(m, &s);
    }
    true
}

fn hash(s: &str) -> u64 {
    crate::core::hash_str(s)
}
