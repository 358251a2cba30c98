//! Compares outcomes of the code under test with the reference model.
use crate::core::fx;
use crate::num::{sto_seed, Sto};
use crate::refm::{propagate, Geo, Orb, Out, Sat, Trace};
use serde_json::{json, Value};

pub struct Judge {
    pub out: Out,
    pub tol_p: f64,
    pub tol_v: f64,
    pub tol_e: f64,
    /// the runs do not agree on a branch, or a decision is too close to call
    pub fragile: bool,
    pub trace: Trace,
}

/// factor applied to the spread of the noisy runs
pub const NOISE: f64 = 100.0;

fn norm3(a: &[f64]) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}

fn dist(a: &[f64; 6], b: &[f64; 6]) -> (f64, f64) {
    let d: Vec<f64> = (0..6).map(|i| a[i] - b[i]).collect();
    (norm3(&d[0..3]), norm3(&d[3..6]))
}

pub fn judge(sat: &Sat, t: f64, afspc: bool) -> Judge {
    judge_with(sat, t, afspc, 6, last_place)
}

/// Runs the reference and compares; a mismatch must stand against many more noisy runs
pub fn verdict(sat: &Sat, t: f64, afspc: bool, runs: u64, got: &Got) -> (Judge, Cmp) {
    verdict_with(sat, t, afspc, runs, got, last_place)
}

pub fn verdict_with(
    sat: &Sat,
    t: f64,
    afspc: bool,
    runs: u64,
    got: &Got,
    vary: impl Fn(u64, Sat) -> Sat,
) -> (Judge, Cmp) {
    let j = judge_with(sat, t, afspc, runs, &vary);
    match compare(&j, got) {
        Cmp::Mismatch(_) => {
            let mut j = judge_with(sat, t, afspc, 64, &vary);
            j.tol_p *= 3.0;
            j.tol_v *= 3.0;
            j.tol_e *= 3.0;
            let c = compare(&j, got);
            (j, c)
        }
        c => (j, c),
    }
}

/// the epoch, whose conversions to days round differently in different expressions
pub fn last_place(k: u64, mut s: Sat) -> Sat {
    let d = 1.5e-16 * (s.epoch + 100.0).abs().max(100.0);
    s.epoch += match k % 3 {
        0 => d,
        1 => -d,
        _ => 0.0,
    };
    s
}

/// `vary(k, sat)` supplies the input of the k-th noisy run
pub fn judge_with(
    sat: &Sat,
    t: f64,
    afspc: bool,
    runs: u64,
    vary: impl Fn(u64, Sat) -> Sat,
) -> Judge {
    let (out, trace) = propagate::<f64>(sat, t, afspc, 0.0);
    let mut j = Judge {
        out,
        tol_p: 0.0,
        tol_v: 0.0,
        tol_e: 0.0,
        fragile: false,
        trace,
    };
    let mut spread = [0.0f64; 12];
    let (mut sp, mut sv, mut se) = (0.0f64, 0.0f64, 0.0f64);
    let key = t.to_bits() ^ sat.orb.m.to_bits().rotate_left(7) ^ sat.orb.n.to_bits();
    for k in 0..runs {
        sto_seed(key ^ (k + 1).wrapping_mul(0x5851F42D4C957F2D));
        let s = vary(k, *sat);
        let (o, tr) = propagate::<Sto>(&s, t, afspc, 0.0);
        if tr.hash != trace.hash || tr.decisions != trace.decisions || o.class() != out.class() {
            j.fragile = true;
            continue;
        }
        for d in 0..tr.decisions.min(12) {
            let x = (tr.margins[d] - trace.margins[d]).abs();
            if !(x <= spread[d]) {
                spread[d] = x;
            }
        }
        match (&o, &out) {
            (Out::Ok(a), Out::Ok(b)) => {
                let (p, v) = dist(a, b);
                sp = sp.max(p);
                sv = sv.max(v);
                if p.is_nan() || v.is_nan() {
                    j.fragile = true;
                }
            }
            (Out::ErrEcc(a), Out::ErrEcc(b)) | (Out::ErrPert(a), Out::ErrPert(b)) => {
                let d = (a - b).abs();
                if d.is_nan() {
                    if !(a.is_nan() && b.is_nan()) {
                        j.fragile = true;
                    }
                } else {
                    se = se.max(d);
                }
            }
            _ => (),
        }
    }
    let phase = trace.phase.max((sat.orb.n * t).abs());
    for d in 0..trace.decisions.min(12) {
        if !(trace.margins[d].abs() > NOISE * spread[d] + 1.0e-13 + 100.0 * f64::EPSILON * phase) {
            j.fragile = true;
        }
    }
    // long integrations accumulate and may amplify rounding
    let noise = if trace.steps > 200 { 4.0 * NOISE } else { NOISE };
    match &out {
        Out::Ok(b) => {
            let r = norm3(&b[0..3]).max(1.0);
            let v = norm3(&b[3..6]).max(1.0e-3);
            let (kick, tk) = propagate::<f64>(sat, t, afspc, 1.0e-12);
            let (kp, kv) = match &kick {
                Out::Ok(a) if tk.hash == trace.hash => dist(a, b),
                _ => (0.0, 0.0),
            };
            // a few units in the last place of the angles that are added up
            let delta = 30.0 * f64::EPSILON * trace.phase;
            let dt = delta * 60.0 / sat.orb.n;
            let gm = (sat.geo.ke / 60.0).powi(2) * sat.geo.ae.powi(3);
            j.tol_p = noise * sp + 2.0 * kp + 4.0e-12 * r + dt * v + delta * r;
            j.tol_v = noise * sv + 2.0 * kv + 4.0e-12 * v + dt * gm / (r * r) + delta * v;
            // chaotic: nothing can be said about the coordinates
            if !(j.tol_p <= 1.0e-2 * r && j.tol_v <= 1.0e-2 * v) {
                j.fragile = true;
            }
        }
        Out::ErrEcc(e) | Out::ErrPert(e) => {
            j.tol_e = NOISE * se + 1.0e-13 + 1.0e-14 * e.abs();
        }
        Out::ErrSemi => (),
    }
    j
}

#[derive(Clone, Debug)]
pub enum Got {
    Ok([f64; 6]),
    ErrEcc(f64, f64),
    ErrPert(f64, f64),
    ErrSemi(f64),
}

impl Got {
    pub fn from(r: Result<sgp4::Prediction, sgp4::Error>) -> Got {
        match r {
            Ok(p) => Got::Ok([
                p.position[0],
                p.position[1],
                p.position[2],
                p.velocity[0],
                p.velocity[1],
                p.velocity[2],
            ]),
            Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t }) => {
                Got::ErrEcc(eccentricity, t)
            }
            Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t }) => {
                Got::ErrPert(eccentricity, t)
            }
            Err(sgp4::Error::NegativeSemiLatusRectum { t }) => Got::ErrSemi(t),
        }
    }
    pub fn class(&self) -> u8 {
        match self {
            Got::Ok(_) => 0,
            Got::ErrEcc(..) => 1,
            Got::ErrPert(..) => 2,
            Got::ErrSemi(_) => 3,
        }
    }
    pub fn bits(&self) -> Vec<u64> {
        match self {
            Got::Ok(a) => a.iter().map(|x| x.to_bits()).collect(),
            Got::ErrEcc(e, t) => vec![1, e.to_bits(), t.to_bits()],
            Got::ErrPert(e, t) => vec![2, e.to_bits(), t.to_bits()],
            Got::ErrSemi(t) => vec![3, t.to_bits()],
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Got::Ok(a) => json!({"ok": a.iter().map(|x| fx(*x)).collect::<Vec<_>>()}),
            Got::ErrEcc(e, t) => json!({"mean eccentricity": fx(*e), "t": fx(*t)}),
            Got::ErrPert(e, t) => json!({"perturbed eccentricity": fx(*e), "t": fx(*t)}),
            Got::ErrSemi(t) => json!({"semi-latus rectum": fx(*t)}),
        }
    }
}

pub enum Cmp {
    /// largest deviation in units of tolerance
    Match(f64),
    Fragile,
    Mismatch(String),
}

pub fn compare(j: &Judge, got: &Got) -> Cmp {
    if j.fragile {
        return Cmp::Fragile;
    }
    if got.class() != j.out.class() {
        return Cmp::Mismatch(format!(
            "outcome differs: expected {:?}, got {:?}",
            j.out, got
        ));
    }
    match (&j.out, got) {
        (Out::Ok(a), Got::Ok(b)) => {
            if a.iter().any(|x| !x.is_finite()) {
                return Cmp::Fragile;
            }
            let (p, v) = dist(a, b);
            let ratio = (p / j.tol_p).max(v / j.tol_v);
            if p <= j.tol_p && v <= j.tol_v {
                Cmp::Match(ratio)
            } else {
                Cmp::Mismatch(format!(
                    "position off by {p:e} km (tolerance {:e}), velocity off by {v:e} km/s (tolerance {:e}): expected {a:?}, got {b:?}",
                    j.tol_p, j.tol_v
                ))
            }
        }
        (Out::ErrEcc(a), Got::ErrEcc(b, _)) | (Out::ErrPert(a), Got::ErrPert(b, _)) => {
            if a.is_nan() && b.is_nan() {
                return Cmp::Match(0.0);
            }
            if a.is_infinite() {
                return if a == b { Cmp::Match(0.0) } else { Cmp::Fragile };
            }
            let d = (a - b).abs();
            if d <= j.tol_e {
                Cmp::Match(d / j.tol_e)
            } else {
                Cmp::Mismatch(format!(
                    "reported eccentricity differs: expected {a:e}, got {b:e}, tolerance {:e}",
                    j.tol_e
                ))
            }
        }
        _ => Cmp::Match(0.0),
    }
}

/// Compares two outcomes with the tolerance of the reference (times `margin`)
pub fn compare_two(j: &Judge, a: &Got, b: &Got, margin: f64) -> Cmp {
    if j.fragile || a.class() != j.out.class() {
        // the second: a defect of both, which is the business of other properties
        return Cmp::Fragile;
    }
    if a.class() != b.class() {
        return Cmp::Mismatch(format!("outcome {b:?} instead of {a:?}"));
    }
    let m = 2.0 * margin;
    match (a, b) {
        (Got::Ok(x), Got::Ok(y)) => {
            let (p, v) = dist(x, y);
            if p <= m * j.tol_p && v <= m * j.tol_v {
                Cmp::Match((p / j.tol_p).max(v / j.tol_v))
            } else {
                Cmp::Mismatch(format!(
                    "positions {p:e} km apart (tolerance {:e}), velocities {v:e} km/s apart (tolerance {:e}): {y:?} instead of {x:?}",
                    m * j.tol_p,
                    m * j.tol_v
                ))
            }
        }
        (Got::ErrEcc(x, t), Got::ErrEcc(y, u)) | (Got::ErrPert(x, t), Got::ErrPert(y, u)) => {
            let d = (x - y).abs();
            if t.to_bits() == u.to_bits() && (d <= m * j.tol_e || x.to_bits() == y.to_bits() || !x.is_finite()) {
                Cmp::Match(0.0)
            } else {
                Cmp::Mismatch(format!("eccentricity {y:e} at {u:e} instead of {x:e} at {t:e}"))
            }
        }
        _ => Cmp::Match(0.0),
    }
}

pub fn geopotential(g: &Geo) -> sgp4::Geopotential {
    sgp4::Geopotential {
        ae: g.ae,
        ke: g.ke,
        j2: g.j2,
        j3: g.j3,
        j4: g.j4,
    }
}

pub fn orbit(o: &Orb) -> sgp4::Orbit {
    sgp4::Orbit {
        inclination: o.i,
        right_ascension: o.node,
        eccentricity: o.e,
        argument_of_perigee: o.argp,
        mean_anomaly: o.m,
        mean_motion: o.n,
    }
}

pub fn constants(s: &Sat) -> Result<sgp4::Constants, sgp4::OutOfRangeEpochEccentricity> {
    let g = s.gsto;
    sgp4::Constants::new(
        geopotential(&s.geo),
        move |_| g,
        s.epoch,
        s.bstar,
        orbit(&s.orb),
    )
}

pub fn run(c: &sgp4::Constants, t: f64, afspc: bool) -> Got {
    let t = sgp4::MinutesSinceEpoch(t);
    Got::from(if afspc {
        c.propagate_afspc_compatibility_mode(t)
    } else {
        c.propagate(t)
    })
}

pub fn sat_json(s: &Sat) -> Value {
    json!({
        "geopotential": {"ae": fx(s.geo.ae), "ke": fx(s.geo.ke), "j2": fx(s.geo.j2), "j3": fx(s.geo.j3), "j4": fx(s.geo.j4)},
        "epoch": fx(s.epoch), "sidereal_time": fx(s.gsto), "drag_term": fx(s.bstar),
        "inclination": fx(s.orb.i), "right_ascension": fx(s.orb.node), "eccentricity": fx(s.orb.e),
        "argument_of_perigee": fx(s.orb.argp), "mean_anomaly": fx(s.orb.m), "mean_motion": fx(s.orb.n),
    })
}
