//! C07: the two propagation modes on one propagator.
use crate::core::{fx, Mon, Property};
use crate::gen;
use crate::oracle::{run, sat_json, verdict, Cmp, Got, Judge};
use crate::props::fidelity::{build, note};
use crate::refm::{propagate, Sat};
use crate::rng::Rng;
use serde_json::json;

pub static C07: Property = Property {
    id: "C07",
    rule: "distinct (model branch set of both modes, direction, node turn class, entry point) combinations of pairs of predictions that were compared",
    cases: [5000, 50000],
    case,
    fixed: None,
};

const LYDDANE: u64 = 1 << 22;
const DEEP: u64 = 1 << 1;

fn close(a: &Got, b: &Got, j: &Judge) -> bool {
    if a.bits() == b.bits() {
        return true;
    }
    if a.class() != b.class() {
        return false;
    }
    match (a, b) {
        (Got::Ok(x), Got::Ok(y)) => {
            let d = |k: usize| ((x[k] - y[k]).powi(2) + (x[k + 1] - y[k + 1]).powi(2) + (x[k + 2] - y[k + 2]).powi(2)).sqrt();
            d(0) <= j.tol_p && d(3) <= j.tol_v
        }
        (Got::ErrEcc(e, t), Got::ErrEcc(f, u)) | (Got::ErrPert(e, t), Got::ErrPert(f, u)) => {
            t.to_bits() == u.to_bits() && ((e - f).abs() <= j.tol_e || (e.is_nan() && f.is_nan()))
        }
        (Got::ErrSemi(t), Got::ErrSemi(u)) => t.to_bits() == u.to_bits(),
        _ => false,
    }
}

fn sat(r: &mut Rng) -> Sat {
    let mut s = gen::sat_any(r);
    if s.orb.n <= gen::NEAR && r.chance(0.6) {
        // low inclinations, and nodes on both sides of zero
        s.orb.i = match r.below(5) {
            0 => r.uni(0.0, 0.05),
            1 => 0.2 + r.sign() * r.log_uni(1e-9, 1e-2),
            2 => 0.0,
            _ => r.uni(0.0, 0.25),
        };
        if r.chance(0.5) {
            s.orb.node = r.uni(-15.0, 1.0);
        }
    }
    s
}

fn case(m: &mut Mon, r: &mut Rng) {
    let s = sat(r);
    let Some(c) = build(m, &s) else { return };
    let resonant = s.orb.n <= gen::NEAR && gen::is_resonant(&s.orb) != 0;
    for _ in 0..4 {
        let mut t = gen::time(r);
        if resonant {
            t = t.clamp(-1.0e6, 1.0e6);
        }
        let detail = || json!({"satellite": sat_json(&s), "t": fx(t)});
        let from_state = |afspc: bool| {
            Got::from(c.propagate_from_state(sgp4::MinutesSinceEpoch(t), c.initial_state().as_mut(), afspc))
        };
        let outcomes = m.call("propagate", detail, || {
            (run(&c, t, false), run(&c, t, true), from_state(false), from_state(true))
        });
        let Some((standard, afspc, state_standard, state_afspc)) = outcomes else { return };
        m.eval();
        // the mode argument selects what the methods of that name do
        let (js, cs) = verdict(&s, t, false, 5, &standard);
        for (mode, a, b) in [("standard", &standard, &state_standard), ("AFSPC", &afspc, &state_afspc)] {
            if !close(a, b, &js) && !js.fragile {
                m.violate(
                    format!("{mode} mode: the method gives {a:?}, propagate_from_state gives {b:?}"),
                    detail(),
                );
                return;
            }
        }
        if js.fragile || matches!(cs, Cmp::Fragile) {
            m.count("too close to a branch to call");
            continue;
        }
        let cover = js.trace.cover;
        if cover & LYDDANE == 0 {
            // documented to be unaffected by the mode
            if !close(&standard, &afspc, &js) {
                m.violate(
                    format!("the mode changes a prediction it must not affect: {standard:?} (standard) and {afspc:?} (AFSPC)"),
                    detail(),
                );
                return;
            }
            m.count(if cover & DEEP == 0 { "near-earth pair equal" } else { "deep-space pair at 0.2 rad or more equal" });
            note(m, &js);
            m.cell(&[1, cover, (t < 0.0) as u64, standard.class() as u64]);
            m.sample(|| json!({"t": t, "inclination": s.orb.i, "mean_motion": s.orb.n, "both": format!("{standard:?}")}));
            continue;
        }
        // each mode follows its own form
        let (ja, ca) = verdict(&s, t, true, 5, &afspc);
        for (mode, other, cmp) in [("standard", "AFSPC", &cs), ("AFSPC", "standard", &ca)] {
            if let Cmp::Mismatch(e) = cmp {
                let swapped = propagate::<f64>(&s, t, mode != "AFSPC", 0.0).0;
                m.violate(
                    format!("{mode} mode departs from its form ({other} form gives {swapped:?}): {e}"),
                    detail(),
                );
                return;
            }
        }
        if matches!(ca, Cmp::Fragile) {
            m.count("too close to a branch to call");
            continue;
        }
        let differs = match (&js.out, &ja.out) {
            (crate::refm::Out::Ok(x), crate::refm::Out::Ok(y)) => {
                let d = (0..3).map(|i| (x[i] - y[i]).powi(2)).sum::<f64>().sqrt();
                m.max("largest separation of the modes (km)", d);
                d > 10.0 * (js.tol_p + ja.tol_p)
            }
            _ => false,
        };
        if differs {
            m.count("low-inclination pair, modes distinguishable");
        } else {
            m.count("low-inclination pair, modes agree");
            // a non-negative node is reduced alike by both
            let turns_alike = js.trace.cover >> 25 & 1 == 1 && ja.trace.cover >> 25 & 1 == 1;
            if turns_alike && !close(&standard, &afspc, &js) {
                m.violate(
                    format!("the modes differ although the node is not negative: {standard:?} and {afspc:?}"),
                    detail(),
                );
                return;
            }
        }
        note(m, &js);
        m.cell(&[2, js.trace.cover, ja.trace.cover, (t < 0.0) as u64, differs as u64]);
        m.sample(|| json!({"t": t, "inclination": s.orb.i, "standard": format!("{standard:?}"), "afspc": format!("{afspc:?}")}));
    }
}
