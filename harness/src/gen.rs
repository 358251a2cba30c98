//! Orbit, gravity model and time generators.
use crate::refm::{Geo, Orb, Sat, REF_WGS72, REF_WGS84};
use crate::rng::Rng;
use std::f64::consts::PI;

pub const NEAR: f64 = 2.0 * PI / 225.0;
pub const RES1_HI: f64 = 0.0052359877;
pub const RES1_LO: f64 = 0.0034906585;
pub const RES2_LO: f64 = 8.26e-3;
pub const RES2_HI: f64 = 9.24e-3;
pub const EQUATORIAL: f64 = 5.2359877e-2;

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}
/// the value itself, or a value a few units in the last place or a small fraction away
pub fn around(r: &mut Rng, x: f64) -> f64 {
    match r.below(6) {
        0 | 1 => x,
        2 => next_up(x),
        3 => next_down(x),
        4 => x * (1.0 + r.sign() * r.log_uni(1e-14, 1e-6)),
        _ => x * (1.0 + r.sign() * r.log_uni(1e-6, 1e-2)),
    }
}

pub fn geo(r: &mut Rng) -> Geo {
    match r.below(10) {
        0..=3 => REF_WGS84,
        4..=6 => REF_WGS72,
        _ => {
            let b = if r.chance(0.5) { REF_WGS84 } else { REF_WGS72 };
            let mut f = |x: f64, w: f64| x * (1.0 + r.uni(-w, w));
            let mut g = Geo {
                ae: f(b.ae, 0.03),
                ke: f(b.ke, 0.03),
                j2: f(b.j2, 0.2),
                j3: f(b.j3, 0.5),
                j4: f(b.j4, 0.5),
            };
            match r.below(8) {
                0 => g.j3 = 0.0,
                1 => g.j4 = 0.0,
                2 => g.j3 = -g.j3,
                _ => (),
            }
            g
        }
    }
}

pub fn angle(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => r.pick(&[0.0, PI / 2.0, PI, 1.5 * PI, 2.0 * PI, -PI, -PI / 2.0]),
        1 => r.uni(-20.0, 20.0),
        2 => r.uni(-2.0 * PI, 0.0),
        3 => r.pick(&[0.0, PI, 2.0 * PI]) + r.sign() * r.log_uni(1e-9, 1e-2),
        _ => r.uni(0.0, 2.0 * PI),
    }
}

pub fn inclination(r: &mut Rng) -> f64 {
    match r.below(16) {
        0 => 0.0,
        1 => r.log_uni(1e-9, 1e-2),
        2 => PI,
        3 => PI - r.log_uni(1e-8, 1e-2),
        4 => PI / 2.0 + r.sign() * r.log_uni(1e-9, 1e-2),
        5 => {
            // critical inclination
            let c = (0.2f64).sqrt().acos();
            (if r.chance(0.5) { c } else { PI - c }) + r.sign() * r.log_uni(1e-9, 1e-2)
        }
        6 => r.uni(PI / 2.0, PI),
        _ => r.uni(0.0, PI),
    }
}

/// inclinations that matter to deep-space orbits
pub fn deep_inclination(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => around(r, EQUATORIAL),
        1 => around(r, PI - EQUATORIAL),
        2 => 0.2 + r.sign() * r.log_uni(1e-7, 2e-2),
        3 | 4 => r.uni(0.0, 0.2),
        5 => r.uni(0.0, EQUATORIAL),
        6 => r.log_uni(1e-6, 1e-2),
        7 => inclination(r),
        _ => r.uni(0.2, PI),
    }
}

pub fn bstar(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 | 1 => 0.0,
        2 => r.log_uni(1e-2, 1.0),
        3 => -r.log_uni(1e-7, 1e-1),
        4 => -r.log_uni(1e-6, 1e-3),
        _ => r.log_uni(1e-7, 1e-2),
    }
}

/// Julian years since J2000 (1957 to 2056 mostly)
pub fn epoch(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => r.uni(-400.0, 500.0),
        2 => r.uni(-43.0, -42.0),
        3 => -r.uni(0.0, 1.0),
        _ => r.uni(-43.0, 57.0),
    }
}

pub fn time(r: &mut Rng) -> f64 {
    let s = if r.chance(0.4) { -1.0 } else { 1.0 };
    match r.below(20) {
        0 => 0.0,
        1 => s * r.log_uni(1e-9, 1.0),
        2..=6 => s * r.uni(0.0, 1440.0),
        7..=11 => s * r.uni(0.0, 14400.0),
        12..=15 => s * r.uni(0.0, 1440.0 * 60.0),
        16 => s * (r.range(0, 100) as f64) * 360.0,
        17 | 18 => s * r.log_uni(1.0, 5.3e6),
        _ => s * r.log_uni(1e5, 5.3e7),
    }
}

pub fn sat_near(r: &mut Rng) -> Sat {
    let g = geo(r);
    let n_max_a = (g.ke / NEAR).powf(2.0 / 3.0);
    let (e, n) = loop {
        let e = match r.below(14) {
            0 => 0.0,
            1 => r.log_uni(1e-9, 1e-6),
            2 => around(r, 1.0e-4),
            3 => r.log_uni(1e-6, 1e-4),
            4..=7 => r.log_uni(1e-4, 1e-2),
            8..=11 => r.uni(0.0, 0.3),
            12 => r.uni(0.0, 0.5),
            _ => r.uni(0.0, 0.99),
        };
        // perigee height
        let h = match r.below(12) {
            0 => r.uni(-500.0, 98.0),
            1 => r.uni(60.0, 98.0),
            2 => 98.0 + r.sign() * r.log_uni(1e-6, 1.0),
            3 => r.uni(98.0, 156.0),
            4 => 156.0 + r.sign() * r.log_uni(1e-6, 1.0),
            5 => r.uni(156.0, 220.0),
            6 => 220.0 + r.sign() * r.log_uni(1e-6, 1.0),
            7..=9 => r.uni(220.0, 1000.0),
            _ => r.uni(220.0, 5800.0),
        };
        let a = (1.0 + h / g.ae) / (1.0 - e);
        if a < n_max_a && a > 0.5 {
            let n = g.ke / (a * a.sqrt());
            if n > NEAR {
                break (e, n);
            }
        }
        // narrow ellipses, which run below the ground
        if r.chance(0.05) {
            let a = r.uni(0.7, n_max_a * 0.999);
            break (1.0 - r.log_uni(1e-4, 4e-1), g.ke / (a * a.sqrt()));
        }
        if r.chance(0.02) {
            break (r.uni(0.0, 0.01), NEAR * (1.0 + r.log_uni(1e-12, 1e-2)));
        }
    };
    let i = match r.below(20) {
        0 => -r.uni(0.0, PI),
        1 => r.uni(PI, 2.0 * PI),
        _ => inclination(r),
    };
    let perigee = e > 0.6 && r.chance(0.5);
    Sat {
        geo: g,
        epoch: epoch(r),
        gsto: r.uni(0.0, 2.0 * PI),
        bstar: if perigee && r.chance(0.5) { 0.0 } else { bstar(r) },
        orb: Orb {
            i,
            node: angle(r),
            e,
            argp: angle(r),
            m: if perigee { r.sign() * r.log_uni(1e-6, 1.0) } else { angle(r) },
            n,
        },
    }
}

fn deep(r: &mut Rng, n: f64, e: f64) -> Sat {
    let mut b = bstar(r);
    if r.chance(0.3) {
        b = 0.0;
    }
    // the iteration of the anomaly is slow around the perigee of a narrow ellipse
    let perigee = e > 0.8 && r.chance(0.5);
    Sat {
        geo: geo(r),
        epoch: epoch(r),
        gsto: match r.below(10) {
            0 => 0.0,
            1 => r.uni(-10.0, 20.0),
            _ => r.uni(0.0, 2.0 * PI),
        },
        bstar: b,
        orb: Orb {
            i: deep_inclination(r),
            node: angle(r),
            e,
            argp: angle(r),
            m: if perigee { r.sign() * r.log_uni(1e-6, 1.0) } else { angle(r) },
            n,
        },
    }
}

fn deep_ecc(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => 0.0,
        1 => r.log_uni(1e-9, 1e-5),
        2..=4 => r.log_uni(1e-5, 1e-2),
        5..=7 => r.uni(0.0, 0.3),
        8 | 9 => r.uni(0.3, 0.75),
        10 => r.uni(0.0, 0.9),
        11 => r.uni(0.7, 0.96),
        12 => r.uni(0.9, 1.0),
        _ => 1.0 - r.log_uni(1e-6, 1e-1),
    }
}

pub fn is_resonant(o: &Orb) -> u8 {
    if o.n < RES1_HI && o.n > RES1_LO {
        1
    } else if o.n >= RES2_LO && o.n <= RES2_HI && o.e >= 0.5 {
        2
    } else {
        0
    }
}

pub fn sat_deep(r: &mut Rng) -> Sat {
    loop {
        let e = deep_ecc(r);
        let (n, e) = match r.below(20) {
            0 => (NEAR * (1.0 - r.log_uni(1e-12, 1e-2)), e),
            1 => (around(r, RES1_HI), e),
            2 => (around(r, RES1_LO), e),
            3 => (around(r, RES2_LO), e),
            4 => (around(r, RES2_HI), e),
            5 => (r.uni(RES2_LO, RES2_HI), around(r, 0.5)),
            6 | 7 => (r.uni(RES2_LO, RES2_HI), r.uni(0.0, 0.5)),
            8..=11 => (r.uni(RES1_HI, RES2_LO), e),
            12..=14 => (r.uni(RES2_HI, NEAR), e),
            15 | 16 => (r.log_uni(2e-4, RES1_LO), e),
            _ => (r.uni(RES1_HI, NEAR), e),
        };
        let s = deep(r, n, e);
        if s.orb.n <= NEAR && is_resonant(&s.orb) == 0 {
            return s;
        }
    }
}

pub fn sat_resonant(r: &mut Rng) -> Sat {
    loop {
        let (n, e) = if r.chance(0.45) {
            let n = match r.below(8) {
                0 => around(r, RES1_HI),
                1 => around(r, RES1_LO),
                2..=5 => 4.3752691e-3 * (1.0 + r.sign() * r.log_uni(1e-6, 5e-2)),
                _ => r.uni(RES1_LO, RES1_HI),
            };
            (n, deep_ecc(r))
        } else {
            let n = match r.below(8) {
                0 => around(r, RES2_LO),
                1 => around(r, RES2_HI),
                2..=5 => 8.7505e-3 * (1.0 + r.sign() * r.log_uni(1e-6, 4e-2)),
                _ => r.uni(RES2_LO, RES2_HI),
            };
            let e = match r.below(12) {
                0 => 0.5,
                1 => around(r, 0.5),
                2 => around(r, 0.65),
                3 => around(r, 0.7),
                4 => around(r, 0.715),
                5 => r.uni(0.65, 0.7),
                6 => r.uni(0.7, 0.715),
                7 | 8 => r.uni(0.715, 0.76),
                9 => r.uni(0.715, 0.95),
                10 => 1.0 - r.log_uni(1e-6, 2e-1),
                _ => r.uni(0.5, 0.65),
            };
            (n, e)
        };
        // the published polynomials and the transcript of this crate disagree on this single value
        if e == 0.715 {
            continue;
        }
        let s = deep(r, n, e);
        if is_resonant(&s.orb) != 0 {
            return s;
        }
    }
}

pub fn sat_any(r: &mut Rng) -> Sat {
    match r.below(3) {
        0 => sat_near(r),
        1 => sat_deep(r),
        _ => sat_resonant(r),
    }
}

/// times around integration steps
pub fn step_time(r: &mut Rng, max_steps: i64) -> f64 {
    let k = match r.below(6) {
        0 => r.range(0, 2),
        1..=3 => r.range(0, 30.min(max_steps)),
        _ => r.range(0, max_steps),
    };
    let x = k as f64 * 720.0;
    let x = match r.below(6) {
        0 | 1 => x,
        2 => next_up(x),
        3 => next_down(x).max(0.0),
        4 => x + r.sign() * r.log_uni(1e-6, 1.0),
        _ => x + r.uni(0.0, 720.0),
    };
    r.sign() * x
}
